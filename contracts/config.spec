// ---- configuration ----
// CONF: the file viper holds (0: an empty one); DEFS: the defaults it was given; READS: reads of the file, with their
// outcome and what was read; SAVED: files written, by the configuration written
ghost CONF: int
ghost DEFS: Map<Seq<u8>, Val>
ghost READS: Seq<(int, int)>
ghost SAVED: Seq<int>
ghost SAVEERR: int
extern viper.AddConfigPath(in) ()
extern viper.SetConfigType(t) ()
extern viper.SetConfigName(n) ()
extern viper.SetConfigPermissions(p) ()
extern viper.ConfigFileUsed() (r)
  ensures r == conf_path($READS)
extern viper.AllSettings() (r)
extern viper.SetDefault(key, value) ()
  modifies DEFS
  ensures $DEFS == old($DEFS).insert(lower(key), value)
extern viper.ReadInConfig() (err)
  modifies CONF, READS
  ensures $READS == old($READS).push((err, $CONF))
  ensures err != 0 ==> $CONF == old($CONF)
extern viper.ReadConfig(in) (err)
  modifies CONF
  ensures reader_text(in) =~= @"{}" ==> err == 0 && $CONF == 0
extern viper.SafeWriteConfig() (err)
  modifies SAVED, SAVEERR
  ensures err == 0 ==> $SAVED == old($SAVED).push($CONF) && $SAVEERR == old($SAVEERR)
  ensures err != 0 ==> $SAVED == old($SAVED) && $SAVEERR == old($SAVEERR) + 1
extern viper.SafeWriteConfigAs(filename) (err)
  modifies SAVED, SAVEERR
  ensures err == 0 && filename =~= conf_path($READS) ==> $SAVED == old($SAVED).push($CONF) && $SAVEERR == old($SAVEERR)
  ensures err != 0 ==> $SAVED == old($SAVED) && $SAVEERR == old($SAVEERR) + 1
extern viper.IsSet(key) (r)
  ensures r == conf_has($CONF, lower(key))
extern viper.UnmarshalKey(key, rawVal, opts) (err)
  modifies config.dhtConfig{rawVal == Val::Ref(tag_config_dhtConfig(), r)}
  modifies config.fetchTorrentConfig{rawVal == Val::Ref(tag_config_fetchTorrentConfig(), r)}
  modifies config.pprofConfig{rawVal == Val::Ref(tag_config_pprofConfig(), r)}
  modifies config.loggerConfig{rawVal == Val::Ref(tag_config_loggerConfig(), r)}
  ensures err == 0 ==> decoded_into($CONF, $DEFS, key, rawVal, old($config_dhtConfig), old($config_fetchTorrentConfig), old($config_pprofConfig), old($config_loggerConfig), $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
extern os.IsNotExist(err) (r)
  ensures r == not_exist(err)
  ensures r ==> err != 0
extern strings.NewReader(s) (r)
  ensures r != 0 && reader_text(err_of_ref(tag_strings_Reader(), r)) == s
extern bytes.NewReader(b) (r)
  ensures r != 0 && reader_text(err_of_ref(tag_bytes_Reader(), r)) == b
extern bytes.NewBufferString(s) (r)
  ensures r != 0 && reader_text(err_of_ref(tag_bytes_Buffer(), r)) == s
extern os.Stat(path) (i, err)
extern os.IsExist(err) (r)
extern os.Mkdir(path, perm) (err)
extern os.MkdirAll(path, perm) (err)

func config.init() ()
  entry lemma_keys()
  modifies CONF, DEFS, READS, SAVED, SAVEERR, g.config.configMap
  allocates config.dhtConfig
  allocates config.fetchTorrentConfig
  allocates config.pprofConfig
  allocates config.loggerConfig
  allocates misc.Error
  panics may
  ensures defaults: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  ensures loaded: no_sections($g.config.configMap) && conf_read(old($READS), $READS, old($SAVED), $SAVED, $CONF)
  xensures stops: conf_stops(old($READS), $READS, old($SAVEERR), $SAVEERR) && sys_err(pv, $misc_Error)

func config.ResetConfig() ()
  modifies CONF, READS, SAVED, SAVEERR, g.config.configMap
  allocates misc.Error
  panics may
  ensures dropped: no_sections($g.config.configMap)
  ensures loaded: conf_read(old($READS), $READS, old($SAVED), $SAVED, $CONF)
  xensures stops: conf_stops(old($READS), $READS, old($SAVEERR), $SAVEERR) && sys_err(pv, $misc_Error)

func config.DhtConfig() (r)
  entry lemma_keys()
  requires defaults: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  requires cache: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  modifies g.config.configMap
  allocates config.dhtConfig
  allocates misc.Error
  panics may
  xensures sys: sys_err(pv, $misc_Error)
  xensures kept: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  ensures values: r != 0 && dht_section($config_dhtConfig[r], $CONF)
  ensures cache: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)

func config.FetchTorrentConfig() (r)
  entry lemma_keys()
  requires defaults: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  requires cache: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  modifies g.config.configMap
  allocates config.fetchTorrentConfig
  allocates misc.Error
  panics may
  xensures sys: sys_err(pv, $misc_Error)
  xensures kept: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  ensures values: r != 0 && fetchtorrent_section($config_fetchTorrentConfig[r], $CONF)
  ensures cache: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)

func config.PProfConfig() (r)
  entry lemma_keys()
  requires defaults: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  requires cache: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  modifies g.config.configMap
  allocates config.pprofConfig
  allocates misc.Error
  panics may
  xensures sys: sys_err(pv, $misc_Error)
  xensures kept: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  ensures values: r != 0 && pprof_section($config_pprofConfig[r], $CONF)
  ensures cache: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)

func config.LoggerConfig() (r)
  entry lemma_keys()
  requires defaults: defs_ok($DEFS, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  requires cache: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  modifies g.config.configMap
  allocates config.loggerConfig
  allocates misc.Error
  panics may
  xensures sys: sys_err(pv, $misc_Error)
  xensures kept: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)
  ensures values: r != 0 && logger_section($config_loggerConfig[r], $CONF)
  ensures cache: cache_ok($g.config.configMap, $CONF, $config_dhtConfig, $config_fetchTorrentConfig, $config_pprofConfig, $config_loggerConfig)

cone C33: config.init config.ResetConfig config.DhtConfig config.FetchTorrentConfig config.PProfConfig config.LoggerConfig
theory C33: misc config
guarded g_config_configLock: config.configMap
