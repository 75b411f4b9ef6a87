// ---- fetching announced torrents ----
extern net.IP.String(ip) (r)
  ensures r == ip_str(ip)
extern net.JoinHostPort(host, port) (r)
  ensures r == join_host(host, port)

func dht.parseFetchAddr(ctx) (r)
  requires ctx: ctx != 0 && ctx->req != 0
  allocates misc.Error
  entry lemma_fetch_addr($net_UDPAddr)
  panics only !announce_fields($krpc_BaseRequest[ctx->req].body.m) || ctx->addr == 0
  xensures biz: ctx->addr != 0 ==> biz_err(pv, $misc_Error)
  ensures fields: announce_fields($krpc_BaseRequest[ctx->req].body.m)
  ensures address: ctx->addr != 0 ==> fetch_addr(r, $krpc_BaseRequest[ctx->req].body.m, $net_UDPAddr[ctx->addr])

cone C20: dht.parseFetchAddr dht.fetchHandler/dialled dht.fetchHandler/attempted peerwire.FetchMetaData/dialled
theory C20: net bencode misc pool peerwire fetch

// FILES: the files written, with their names and contents; HANDLES: the open ones; IOERR: failed file operations
ghost FILES: Seq<(Seq<u8>, Seq<u8>)>
ghost HANDLES: Map<int, int>
ghost IOERR: int
extern os.Create(name) (f, err)
  modifies FILES, HANDLES, IOERR
  ensures err == 0 ==> f != 0 && !old($HANDLES).dom().contains(f) && $HANDLES == old($HANDLES).insert(f, old($FILES).len() as int) && $FILES == old($FILES).push((name, Seq::<u8>::empty())) && $IOERR == old($IOERR)
  ensures err != 0 ==> f == 0 && $HANDLES == old($HANDLES) && $FILES == old($FILES) && $IOERR == old($IOERR) + 1
// flags: write or read-write, create, truncate
extern os.OpenFile(name, flag, perm) (f, err)
  modifies FILES, HANDLES, IOERR
  ensures err == 0 && (flag == 577 || flag == 578) ==> f != 0 && !old($HANDLES).dom().contains(f) && $HANDLES == old($HANDLES).insert(f, old($FILES).len() as int) && $FILES == old($FILES).push((name, Seq::<u8>::empty())) && $IOERR == old($IOERR)
  ensures err != 0 ==> f == 0 && $HANDLES == old($HANDLES) && $FILES == old($FILES) && $IOERR == old($IOERR) + 1
extern os.File.Write(f, b) (n, err)
  modifies FILES, IOERR
  ensures 0 <= n <= b.len() && (err == 0 ==> n == b.len())
  ensures f == 0 || !$HANDLES.dom().contains(f) ==> err != 0 && $FILES == old($FILES)
  ensures f != 0 && $HANDLES.dom().contains(f) ==> $FILES == wrote(old($FILES), $HANDLES[f], b.subrange(0, n))
  ensures $IOERR == (if err != 0 { old($IOERR) + 1 } else { old($IOERR) })
extern os.File.WriteString(f, b) (n, err)
  modifies FILES, IOERR
  ensures 0 <= n <= b.len() && (err == 0 ==> n == b.len())
  ensures f == 0 || !$HANDLES.dom().contains(f) ==> err != 0 && $FILES == old($FILES)
  ensures f != 0 && $HANDLES.dom().contains(f) ==> $FILES == wrote(old($FILES), $HANDLES[f], b.subrange(0, n))
  ensures $IOERR == (if err != 0 { old($IOERR) + 1 } else { old($IOERR) })
extern os.File.Close(f) (err)
  modifies HANDLES
  ensures $HANDLES == (if f == 0 { old($HANDLES) } else { old($HANDLES).remove(f) })
extern os.File.Sync(f) (err)
extern os.WriteFile(name, data, perm) (err)
  modifies FILES, IOERR
  ensures $IOERR == (if err != 0 { old($IOERR) + 1 } else { old($IOERR) })
  ensures err == 0 ==> $FILES == old($FILES).push((name, data))
  ensures err != 0 ==> $FILES == old($FILES) || (exists|n: int| 0 <= n <= data.len() && $FILES == old($FILES).push((name, #[trigger] data.subrange(0, n))))
extern ioutil.WriteFile(name, data, perm) (err)
  modifies FILES, IOERR
  ensures $IOERR == (if err != 0 { old($IOERR) + 1 } else { old($IOERR) })
  ensures err == 0 ==> $FILES == old($FILES).push((name, data))
  ensures err != 0 ==> $FILES == old($FILES) || (exists|n: int| 0 <= n <= data.len() && $FILES == old($FILES).push((name, #[trigger] data.subrange(0, n))))

func dht.flushTorrentFile(fileName, data) ()
  modifies FILES, HANDLES, IOERR
  borrows data
  ensures closed: $HANDLES =~= old($HANDLES)
  ensures file: flushed(old($FILES), $FILES, @"torrent/" + fileName + @".torrent", data, $IOERR == old($IOERR))
  ensures errors: old($IOERR) <= $IOERR

func dht.fetchHandler(ctx) ()
  records FETCHED: $FETCHED.push(ctx)
  ensures recorded: $FETCHED == old($FETCHED).push(ctx)
  modifies FETCHED, FILES, HANDLES, IOERR, WIRE, WERR, INPUT, WIDTH, PUTS, OPEN, DIALS, STACK, RLIM, WLIM
  allocates peerwire.PeerConn
  allocates peerwire.BaseHandShakeMsg
  allocates peerwire.BaseExFetchMetaMsg
  allocates peerwire.BaseExHandShakeMsg
  allocates peerwire.BasePrefixLenMsg
  allocates misc.Error
  ensures dialled: $DIALS == old($DIALS) || (ctx_ok(ctx, $krpc_RpcContext) && announce_fields(body_of(ctx, $krpc_RpcContext, $krpc_BaseRequest)) && (ctx->addr != 0 ==> fetch_addr($DIALS.last().1, body_of(ctx, $krpc_RpcContext, $krpc_BaseRequest), $net_UDPAddr[ctx->addr])) && $DIALS =~= old($DIALS).push((@"tcp", $DIALS.last().1)))
  ensures attempted: ctx_ok(ctx, $krpc_RpcContext) && announce_fields(body_of(ctx, $krpc_RpcContext, $krpc_BaseRequest)) && names_a_torrent(body_of(ctx, $krpc_RpcContext, $krpc_BaseRequest)) && ctx->addr != 0 ==> $DIALS.len() > old($DIALS).len()
  ensures file: saved(old($FILES), $FILES, body_of(ctx, $krpc_RpcContext, $krpc_BaseRequest), $IOERR == old($IOERR)) || $FILES == old($FILES)
  ensures downloaded: $FILES != old($FILES) ==> $DIALS.len() > old($DIALS).len()
  ensures closed: $HANDLES =~= old($HANDLES) && $OPEN =~= old($OPEN)

cone C21: dht.fetchHandler dht.flushTorrentFile
theory C21: net bencode misc pool peerwire fetch
