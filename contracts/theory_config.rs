
// ---- configuration ----
#[verifier::opaque] pub open spec fn reader_text(r: int) -> Seq<u8> { arbitrary() }
#[verifier::opaque] pub open spec fn not_exist(e: int) -> bool { arbitrary() }
// the path of the file found or named, as it is after that many reads
#[verifier::opaque] pub open spec fn conf_path(r: Seq<(int, int)>) -> Seq<u8> { arbitrary() }
pub open spec fn not_found(e: int) -> bool { is_err_of(e, tagv_viper_ConfigFileNotFoundError()) }
pub open spec fn missing(e: int) -> bool { not_found(e) || not_exist(e) }
// what a file says
#[verifier::opaque] pub open spec fn file_has(f: int, key: Seq<u8>) -> bool { arbitrary() }
#[verifier::opaque] pub open spec fn file_int(f: int, key: Seq<u8>) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn file_bool(f: int, key: Seq<u8>) -> bool { arbitrary() }
#[verifier::opaque] pub open spec fn file_str(f: int, key: Seq<u8>) -> Seq<u8> { arbitrary() }
#[verifier::opaque] pub open spec fn file_strs(f: int, key: Seq<u8>) -> Seq<Seq<u8>> { arbitrary() }
// viper's keys are case-insensitive
pub open spec fn lower(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| if 65u8 <= s[i] <= 90u8 { (s[i] + 32u8) as u8 } else { s[i] }) }
pub open spec fn conf_has(f: int, key: Seq<u8>) -> bool { f != 0 && file_has(f, key) }

// a load: what was read is there, or the file was missing and one with nothing but defaults took its place
pub open spec fn conf_read(r0: Seq<(int, int)>, r: Seq<(int, int)>, s0: Seq<int>, s: Seq<int>, conf: int) -> bool {
    r.len() == r0.len() + 1 && r.drop_last() =~= r0
    && (r.last().0 == 0 ==> conf == r.last().1 && s == s0)
    && (r.last().0 != 0 ==> missing(r.last().0) && conf == 0 && s =~= s0.push(0))
}
pub open spec fn conf_stops(r0: Seq<(int, int)>, r: Seq<(int, int)>, e0: int, e: int) -> bool {
    r.len() == r0.len() + 1 && r.drop_last() =~= r0 && r.last().0 != 0 && (!missing(r.last().0) || e > e0)
}
pub open spec fn no_sections(c: Dict) -> bool { !c.nil && c.m =~= Map::<Seq<u8>, Val>::empty() }

// ---- the sections: what the file says, and otherwise the defaults ----
pub open spec fn dht_default(s: S_config_dhtConfig) -> bool { s.Port == 21000 && s.WorkPoolSize == 2000 && s.BootstrapNodes.len() == 1 && s.BootstrapNodes[0] =~= @"87.98.162.88:6881" }
pub open spec fn fetchtorrent_default(s: S_config_fetchTorrentConfig) -> bool { s.InfoHashQueueSize == 300000 && s.WorkPoolSize == 500 }
pub open spec fn pprof_default(s: S_config_pprofConfig) -> bool { s.NeedRun }
pub open spec fn logger_default(s: S_config_loggerConfig) -> bool { s.Level =~= @"Info" }
pub open spec fn dht_section(s: S_config_dhtConfig, f: int) -> bool {
    s.Port == (if conf_has(f, @"dht.port") { file_int(f, @"dht.port") } else { 21000 })
    && s.WorkPoolSize == (if conf_has(f, @"dht.workpoolsize") { file_int(f, @"dht.workpoolsize") } else { 2000 })
    && (if conf_has(f, @"dht.bootstrapnodes") { s.BootstrapNodes =~= file_strs(f, @"dht.bootstrapnodes") } else { s.BootstrapNodes.len() == 1 && s.BootstrapNodes[0] =~= @"87.98.162.88:6881" })
}
pub open spec fn fetchtorrent_section(s: S_config_fetchTorrentConfig, f: int) -> bool {
    s.InfoHashQueueSize == (if conf_has(f, @"fetchtorrent.infohashqueuesize") { file_int(f, @"fetchtorrent.infohashqueuesize") } else { 300000 })
    && s.WorkPoolSize == (if conf_has(f, @"fetchtorrent.workpoolsize") { file_int(f, @"fetchtorrent.workpoolsize") } else { 500 })
}
pub open spec fn pprof_section(s: S_config_pprofConfig, f: int) -> bool { s.NeedRun == (if conf_has(f, @"pprof.needrun") { file_bool(f, @"pprof.needrun") } else { true }) }
pub open spec fn logger_section(s: S_config_loggerConfig, f: int) -> bool { s.Level =~= (if conf_has(f, @"logger.level") { file_str(f, @"logger.level") } else { @"Info" }) }

pub open spec fn is_dht(v: Val, h: Map<int, S_config_dhtConfig>) -> bool { v matches Val::Ref(t, r) && t == tag_config_dhtConfig() && r != 0 && h.dom().contains(r) }
pub open spec fn is_fetchtorrent(v: Val, h: Map<int, S_config_fetchTorrentConfig>) -> bool { v matches Val::Ref(t, r) && t == tag_config_fetchTorrentConfig() && r != 0 && h.dom().contains(r) }
pub open spec fn is_pprof(v: Val, h: Map<int, S_config_pprofConfig>) -> bool { v matches Val::Ref(t, r) && t == tag_config_pprofConfig() && r != 0 && h.dom().contains(r) }
pub open spec fn is_logger(v: Val, h: Map<int, S_config_loggerConfig>) -> bool { v matches Val::Ref(t, r) && t == tag_config_loggerConfig() && r != 0 && h.dom().contains(r) }
pub open spec fn defs_ok(d: Map<Seq<u8>, Val>, hd: Map<int, S_config_dhtConfig>, hf: Map<int, S_config_fetchTorrentConfig>, hp: Map<int, S_config_pprofConfig>, hl: Map<int, S_config_loggerConfig>) -> bool {
    d.dom().contains(@"dht") && is_dht(d[@"dht"], hd) && dht_default(hd[d[@"dht"]->Ref_1])
    && d.dom().contains(@"fetchtorrent") && is_fetchtorrent(d[@"fetchtorrent"], hf) && fetchtorrent_default(hf[d[@"fetchtorrent"]->Ref_1])
    && d.dom().contains(@"pprof") && is_pprof(d[@"pprof"], hp) && pprof_default(hp[d[@"pprof"]->Ref_1])
    && d.dom().contains(@"logger") && is_logger(d[@"logger"], hl) && logger_default(hl[d[@"logger"]->Ref_1])
}
// the sections read so far are those of the loaded file
pub open spec fn cache_ok(c: Dict, f: int, hd: Map<int, S_config_dhtConfig>, hf: Map<int, S_config_fetchTorrentConfig>, hp: Map<int, S_config_pprofConfig>, hl: Map<int, S_config_loggerConfig>) -> bool {
    !c.nil
    && (c.m.dom().contains(@"dht") ==> is_dht(c.m[@"dht"], hd) && dht_section(hd[c.m[@"dht"]->Ref_1], f))
    && (c.m.dom().contains(@"fetchTorrent") ==> is_fetchtorrent(c.m[@"fetchTorrent"], hf) && fetchtorrent_section(hf[c.m[@"fetchTorrent"]->Ref_1], f))
    && (c.m.dom().contains(@"pprof") ==> is_pprof(c.m[@"pprof"], hp) && pprof_section(hp[c.m[@"pprof"]->Ref_1], f))
    && (c.m.dom().contains(@"logger") ==> is_logger(c.m[@"logger"], hl) && logger_section(hl[c.m[@"logger"]->Ref_1], f))
}

// ---- viper's decoding of a section into what is at v ----
// a section of the file hides the default as a whole; a value the file does not mention stays as it was; a list is
// filled from its start and never shortened
pub open spec fn overlaid(l: Seq<Seq<u8>>, o: Seq<Seq<u8>>) -> Seq<Seq<u8>> { if o.len() <= l.len() { l } else { l + o.skip(l.len() as int) } }
pub open spec fn decoded_dht(f: int, def: Val, o: S_config_dhtConfig, n: S_config_dhtConfig, h: Map<int, S_config_dhtConfig>) -> bool {
    if conf_has(f, @"dht") {
        n.Port == (if conf_has(f, @"dht.port") { file_int(f, @"dht.port") } else { o.Port })
        && n.WorkPoolSize == (if conf_has(f, @"dht.workpoolsize") { file_int(f, @"dht.workpoolsize") } else { o.WorkPoolSize })
        && n.BootstrapNodes == (if conf_has(f, @"dht.bootstrapnodes") { overlaid(file_strs(f, @"dht.bootstrapnodes"), o.BootstrapNodes) } else { o.BootstrapNodes })
    } else {
        !conf_has(f, @"dht.port") && !conf_has(f, @"dht.workpoolsize") && !conf_has(f, @"dht.bootstrapnodes") && (is_dht(def, h) ==> n == h[def->Ref_1])
    }
}
pub open spec fn decoded_fetchtorrent(f: int, def: Val, o: S_config_fetchTorrentConfig, n: S_config_fetchTorrentConfig, h: Map<int, S_config_fetchTorrentConfig>) -> bool {
    if conf_has(f, @"fetchtorrent") {
        n.InfoHashQueueSize == (if conf_has(f, @"fetchtorrent.infohashqueuesize") { file_int(f, @"fetchtorrent.infohashqueuesize") } else { o.InfoHashQueueSize })
        && n.WorkPoolSize == (if conf_has(f, @"fetchtorrent.workpoolsize") { file_int(f, @"fetchtorrent.workpoolsize") } else { o.WorkPoolSize })
    } else {
        !conf_has(f, @"fetchtorrent.infohashqueuesize") && !conf_has(f, @"fetchtorrent.workpoolsize") && (is_fetchtorrent(def, h) ==> n == h[def->Ref_1])
    }
}
pub open spec fn decoded_pprof(f: int, def: Val, o: S_config_pprofConfig, n: S_config_pprofConfig, h: Map<int, S_config_pprofConfig>) -> bool {
    if conf_has(f, @"pprof") {
        n.NeedRun == (if conf_has(f, @"pprof.needrun") { file_bool(f, @"pprof.needrun") } else { o.NeedRun })
    } else {
        !conf_has(f, @"pprof.needrun") && (is_pprof(def, h) ==> n == h[def->Ref_1])
    }
}
pub open spec fn decoded_logger(f: int, def: Val, o: S_config_loggerConfig, n: S_config_loggerConfig, h: Map<int, S_config_loggerConfig>) -> bool {
    if conf_has(f, @"logger") {
        n.Level == (if conf_has(f, @"logger.level") { file_str(f, @"logger.level") } else { o.Level })
    } else {
        !conf_has(f, @"logger.level") && (is_logger(def, h) ==> n == h[def->Ref_1])
    }
}
pub open spec fn decoded_into(f: int, d: Map<Seq<u8>, Val>, key: Seq<u8>, v: Val, hd0: Map<int, S_config_dhtConfig>, hf0: Map<int, S_config_fetchTorrentConfig>, hp0: Map<int, S_config_pprofConfig>, hl0: Map<int, S_config_loggerConfig>, hd: Map<int, S_config_dhtConfig>, hf: Map<int, S_config_fetchTorrentConfig>, hp: Map<int, S_config_pprofConfig>, hl: Map<int, S_config_loggerConfig>) -> bool {
    true
    && (lower(key) =~= @"dht" && is_dht(v, hd0) ==> d.dom().contains(@"dht") ==> decoded_dht(f, d[@"dht"], hd0[v->Ref_1], hd[v->Ref_1], hd0))
    && (lower(key) =~= @"fetchtorrent" && is_fetchtorrent(v, hf0) ==> d.dom().contains(@"fetchtorrent") ==> decoded_fetchtorrent(f, d[@"fetchtorrent"], hf0[v->Ref_1], hf[v->Ref_1], hf0))
    && (lower(key) =~= @"pprof" && is_pprof(v, hp0) ==> d.dom().contains(@"pprof") ==> decoded_pprof(f, d[@"pprof"], hp0[v->Ref_1], hp[v->Ref_1], hp0))
    && (lower(key) =~= @"logger" && is_logger(v, hl0) ==> d.dom().contains(@"logger") ==> decoded_logger(f, d[@"logger"], hl0[v->Ref_1], hl[v->Ref_1], hl0))
}
pub proof fn lemma_keys()
    ensures
        lower(@"dht") == @"dht", lower(@"fetchTorrent") == @"fetchtorrent", lower(@"pprof") == @"pprof", lower(@"logger") == @"logger",
        lower(@"dht.BootstrapNodes") == @"dht.bootstrapnodes", lower(@"dht.bootstrapnodes") == @"dht.bootstrapnodes", lower(@"fetchtorrent") == @"fetchtorrent",
{
    /*literals*/
    assert(lower(@"dht") =~= @"dht");
    assert(lower(@"fetchTorrent") =~= @"fetchtorrent");
    assert(lower(@"fetchtorrent") =~= @"fetchtorrent");
    assert(lower(@"pprof") =~= @"pprof");
    assert(lower(@"logger") =~= @"logger");
    assert(lower(@"dht.BootstrapNodes") =~= @"dht.bootstrapnodes");
    assert(lower(@"dht.bootstrapnodes") =~= @"dht.bootstrapnodes");
}
