// ---- the registry of loggers ----
// MADE: loggers made by a factory (the factory, the name, the level); FLUSHED: loggers flushed; SYNCED: zap loggers synced
ghost MADE: Seq<(int, Seq<u8>, int)>
ghost FLUSHED: Seq<int>
ghost SYNCED: Seq<int>
extern misc.Logger.Flush(l) ()
  modifies FLUSHED
  ensures $FLUSHED == old($FLUSHED).push(l)
extern zap.Logger.Sync(l) (err)
  requires l != 0
  modifies SYNCED
  ensures $SYNCED == old($SYNCED).push(l)
extern strings.ToUpper(s) (r)
  ensures r =~= upper(s)

globalinv misc.bufferedLoggers: self != 0 && !$misc_bufferLogger[self].bufferedLoggers.nil
globalinv misc.logLevelMapping: levels_ok(self)

interfered misc_bufferLogger: !self.bufferedLoggers.nil

func misc.bufferLogger.mapLogger(b, name) (r)
  requires made: b != 0 && !b->bufferedLoggers.nil && $L_misc_bufferLogger[b] == 0
  requires factory: $g.misc.defaultLoggerFactory != 0
  modifies misc.bufferLogger[b], MADE
  allocates misc.consoleLogger
  ensures same: old(b->bufferedLoggers).m.dom().contains(name) ==> r == old(b->bufferedLoggers).m[name] && $misc_bufferLogger[b] == old($misc_bufferLogger[b]) && $MADE == old($MADE)
  ensures once: !old(b->bufferedLoggers).m.dom().contains(name) ==> $MADE == old($MADE).push(($g.misc.defaultLoggerFactory, name, old(b->level))) && b->bufferedLoggers.m =~= old(b->bufferedLoggers).m.insert(name, r) && b->level == old(b->level) && $misc_consoleLogger[err_ref(r)].level == b->level
  ensures kept: !b->bufferedLoggers.nil

func misc.bufferLogger.flush(b) (err)
  requires made: b != 0 && !b->bufferedLoggers.nil && $L_misc_bufferLogger[b] == 0
  modifies FLUSHED
  ensures all: flushed_all(old($FLUSHED), $FLUSHED, b->bufferedLoggers.m)
  ensures ok: err == 0
  loop 1 (idx n, keys ks)
    invariant part: flushed_part(at_entry($FLUSHED), $FLUSHED, b->bufferedLoggers.m, ks, n)
    exit lemma_flushed(at_entry($FLUSHED), $FLUSHED, b->bufferedLoggers.m, ks)

func misc.bufferLogger.setLevel(b, level) ()
  requires made: b != 0 && !b->bufferedLoggers.nil && $L_misc_bufferLogger[b] == 0
  modifies misc.bufferLogger[b]
  ensures level: b->level == level && b->bufferedLoggers == old(b->bufferedLoggers)

func misc.TransLogLevel(name) (r)
  ensures level: r == level_of(upper(name))

func misc.InitLogger(factory, level) ()
  requires free: $L_misc_bufferLogger[$g.misc.bufferedLoggers] == 0
  modifies g.misc.defaultLoggerFactory, misc.bufferLogger[$g.misc.bufferedLoggers]
  ensures factory: $g.misc.defaultLoggerFactory == factory
  ensures level: registry_level($misc_bufferLogger[$g.misc.bufferedLoggers]) == level && registry($misc_bufferLogger[$g.misc.bufferedLoggers]) == registry(old($misc_bufferLogger[$g.misc.bufferedLoggers]))

func misc.SetLevel(level) ()
  requires free: $L_misc_bufferLogger[$g.misc.bufferedLoggers] == 0
  modifies misc.bufferLogger[$g.misc.bufferedLoggers]
  ensures level: registry_level($misc_bufferLogger[$g.misc.bufferedLoggers]) == level && registry($misc_bufferLogger[$g.misc.bufferedLoggers]) == registry(old($misc_bufferLogger[$g.misc.bufferedLoggers]))

func misc.GetLogger(names) (r)
  requires free: $L_misc_bufferLogger[$g.misc.bufferedLoggers] == 0
  requires factory: $g.misc.defaultLoggerFactory != 0
  modifies misc.bufferLogger[$g.misc.bufferedLoggers], MADE
  allocates misc.consoleLogger
  ensures registered: registered(old($misc_bufferLogger[$g.misc.bufferedLoggers]), $misc_bufferLogger[$g.misc.bufferedLoggers], if names.len() > 0 { names[0] } else { Seq::<u8>::empty() }, r)
  ensures made: $MADE == (if registry(old($misc_bufferLogger[$g.misc.bufferedLoggers])).dom().contains(if names.len() > 0 { names[0] } else { Seq::<u8>::empty() }) { old($MADE) } else { old($MADE).push(($g.misc.defaultLoggerFactory, (if names.len() > 0 { names[0] } else { Seq::<u8>::empty() }), registry_level(old($misc_bufferLogger[$g.misc.bufferedLoggers])))) })

func misc.Close() (err)
  requires free: $L_misc_bufferLogger[$g.misc.bufferedLoggers] == 0
  modifies FLUSHED
  ensures all: flushed_all(old($FLUSHED), $FLUSHED, registry($misc_bufferLogger[$g.misc.bufferedLoggers]))
  ensures ok: err == 0

func misc.zapLogger.Flush(l) ()
  requires l != 0 && l->inner != 0
  modifies SYNCED
  ensures synced: $SYNCED == old($SYNCED).push(l->inner)

cone C36: misc.bufferLogger.mapLogger misc.bufferLogger.flush misc.bufferLogger.setLevel misc.TransLogLevel misc.InitLogger misc.SetLevel misc.GetLogger misc.Close misc.zapLogger.Flush misc.consoleLoggerFactory.NewLogger
theory C36: misc config logger
assumption C36: defaultLoggerFactory is set when the program starts (InitLogger), not while loggers are being fetched

// the program starts at the level of the configuration
func main.main() ()
  requires config: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig) && cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  requires free: $L_misc_bufferLogger[$g.misc.bufferedLoggers] == 0
  modifies g.config.configMap, misc.bufferLogger[$g.misc.bufferedLoggers], STARTED
  allocates config.loggerConfig
  allocates misc.Error
  panics may
  ensures started: $STARTED == old($STARTED).push(($g.cmd.rootCmd, 0))
  on cmd.ExecuteBackgroud level: registry_level($misc_bufferLogger[$g.misc.bufferedLoggers]) == level_of(upper(if conf_has($CONF, @"logger.level") { file_str($CONF, @"logger.level") } else { @"Info" }))
cone C36: main.main/*
