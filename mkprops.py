#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so the text stays reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Bencode encode/decode round trip",
 "Every value the codec accepts for encoding (integers, byte strings, lists and dictionaries of such values, nested to any depth) is encoded to a byte string that the matching decoder accepts in full and turns back into an equal value. This holds wherever the encoding is embedded: followed by other bytes inside a larger message, or as the whole input, and whatever order a dictionary's entries are written in.",
 ["inputs"],"all encodable values of any size and nesting, all byte strings (including ':' and non-ASCII bytes), every map iteration order",
 "tests encode a handful of literals; they cannot cover all nestings, all string contents or all map iteration orders, and the stable suite does not run the codec tests at all",
 ["misc/beancode.go"],[("EncodeInteger/EncodeString/EncodeSlice/EncodeDict/encodeItem","misc/beancode.go"),("DecodeInteger/DecodeString/DecodeSlice/DecodeDict/DecodeDictNoLimit","misc/beancode.go")],
 ["return values of the Encode*/Decode* functions"])
p("C02","Bencode decoding is total",
 "Every decoding entry point, given any byte string at all, terminates and returns either a value or an error; it never panics, never reads outside its input and never loops forever. Lengths and numbers taken from the input can be arbitrarily large without overflowing the position arithmetic.",
 ["inputs"],"all byte strings of any length fed to every decoder",
 "input comes from the open network; tests use a few well-formed and a few malformed literals",
 ["misc/beancode.go"],[("bounds tests in innerDecodeInteger/innerDecodeString/innerDecodeSlice/innerDecodeDict/decodeItem","misc/beancode.go")],
 ["return or panic of Decode*"])
p("C03","Bencode decoding accepts exactly the well-formed encodings",
 "A whole-input decoder succeeds exactly when its input is one complete well-formed encoding of the requested kind with nothing after it, and then returns precisely the value that encoding denotes; truncated containers, missing terminators, trailing bytes, integers with leading zeros, negative zero or a plus sign, non-string dictionary keys and wrong string lengths are all reported as errors. The prefix decoder does the same for the longest encoding at the start of its input and reports exactly how many bytes it consumed.",
 ["inputs"],"all byte strings; success, value and consumed length compared with the bencode grammar",
 "acceptance is an iff over an infinite language; tests sample fewer than forty strings",
 ["misc/beancode.go"],[("Decode* and innerDecode* functions","misc/beancode.go")],
 ["value, error and consumed length returned by Decode*"])
p("C04","Bencode encoding fails exactly on unsupported values",
 "Encoding returns an error if and only if the value contains, at any depth, something other than an integer, a string, a non-nil list or a non-nil dictionary; it never panics and never silently drops or truncates part of the value. Integers are written in canonical decimal and strings with their exact byte length.",
 ["inputs"],"all dynamic values, including nil, nil lists/dictionaries and values of foreign types nested anywhere",
 "an unsupported value nested deep inside an otherwise good message is not sampled by any test",
 ["misc/beancode.go"],[("encodeItem type dispatch and error propagation","misc/beancode.go")],
 ["return values of Encode*"])
p("C05","Typed access to decoded messages is exact and fails in a typed way",
 "Reading a field of a decoded dictionary or list as a given type returns exactly the stored value when it is present with that type; otherwise the strict accessors raise the library's own business error and nothing else, and the defaulting accessors return the supplied default without raising anything. Presence tests answer exactly whether the key or position exists.",
 ["inputs"],"all dictionaries/lists, keys, positions and stored value types",
 "remote peers choose the field types; tests try one key per accessor",
 ["misc/types.go","misc/errors.go"],[("Dict.Get*/GetValOrDefault/Exist","misc/types.go"),("List.Get*/Exist/ContainsString","misc/types.go"),("PanicBizErr","misc/errors.go")],
 ["returned value or raised value"])
p("C06","Every KRPC query is answered with a correct envelope",
 "For any decoded query message carrying a transaction id and query type, the produced reply is exactly the response the registered handler wrote when the query type is supported and registered and the sender id is a 20-byte string, and otherwise (unsupported type, missing or ill-typed arguments, bad sender id, no handler, or a business error raised while handling) it is an error reply carrying that same transaction id, code 203 and a message. The handler runs exactly once for an accepted query and not at all for a rejected one, and it sees the query's own arguments and source address.",
 ["inputs","configurations"],"all decoded messages, all sets of registered handlers and middleware, all handler outcomes",
 "tests send two well-formed queries and one missing-argument query to one registered handler",
 ["dht/krpc/server.go","dht/krpc/messages.go"],[("RpcServer.requestHandle validation and recover","dht/krpc/server.go"),("BaseResponse.RawData","dht/krpc/messages.go")],
 ["reply message content"])
p("C07","A received datagram never harms the node",
 "Handling any received datagram, whatever its bytes and whatever the handlers do, never lets a panic escape, sends at most one reply datagram, only to the datagram's source address and only for a query, and that datagram is always the complete encoding of the reply (queries sent by handlers themselves aside). The receive buffer is returned to the pool exactly once and not used afterwards.",
 ["inputs","fault_sequences"],"all datagram contents, all handler behaviours including panics, encode failures and send failures",
 "an attacker picks the bytes; no existing test feeds a datagram to the packet handler",
 ["dht/krpc/server.go","misc/bytespool.go"],[("RpcServer.recvPacketHandle deferred recover and buffer return","dht/krpc/server.go")],
 ["sent datagrams","escaped panics","buffer pool"])
p("C08","Responses reach only the request with their transaction id",
 "A response message is delivered only to the handler of the most recent request sent with the same transaction id, together with that request and the response's own body and source address; a response whose transaction id was never used is dropped without running any handler. Error messages and messages of unknown kind never run a request handler.",
 ["inputs","histories"],"all sequences of sent requests and received messages, all transaction ids",
 "tests call a handler directly and never route a response through the pending-request table",
 ["dht/krpc/server.go","misc/syncmap.go"],[("requestMapping lookup in responseHandle","dht/krpc/server.go"),("SyncMap.Put/Get","misc/syncmap.go")],
 ["handler invocations"])
p("C09","Middleware chain runs every handler exactly once, in order",
 "Running a handler chain invokes every middleware and finally the main handler exactly once each, in registration order, no matter which of them call the continuation and how often. Registering middleware appends to the chain, and building the chain for one message never alters the registered chain or the chain of another message.",
 ["inputs","programs","schedules"],"all chains of any length, all patterns of continuation calls, concurrent messages",
 "tests use two middleware that each continue exactly once, one message at a time",
 ["dht/krpc/middleware.go","dht/krpc/server.go"],[("RpcContext.Next index protocol","dht/krpc/middleware.go"),("doRequestHandle/doResponseHandle copy the chain","dht/krpc/server.go")],
 ["handler invocations"])
p("C10","Queries go out as valid KRPC messages and are registered first",
 "Sending a query transmits exactly one datagram, to the requested address, whose content decodes to the envelope {t: transaction id, y: q, q: query type, a: arguments} of that very request, and the request is registered under its transaction id before anything is sent. The four query builders put exactly the protocol's arguments into the message, and reply builders produce {t, y: r, r: body} or {t, y: e, e: [code, message]}.",
 ["inputs"],"all transaction ids, node ids, info hashes, tokens, ports, targets and addresses",
 "tests compare one literal per builder and never look at the bytes on the wire",
 ["dht/krpc/server.go","dht/krpc/messages.go","dht/messgaes.go"],[("RpcServer.Query","dht/krpc/server.go"),("RawData","dht/krpc/messages.go"),("With*Msg/With*Response builders","dht/messgaes.go")],
 ["sent datagram","pending-request table"])
p("C11","Compact node lists round-trip and parse safely",
 "Encoding any list of nodes with 20-byte ids, IPv4 addresses and 16-bit ports and parsing the result gives back the same ids, addresses and ports in the same order, 26 bytes per node. Parsing any byte string never panics and yields exactly one node per complete 26-byte group, each taken from its own group in network byte order.",
 ["inputs"],"all node lists and all byte strings",
 "one recorded list and one single-node list are tested",
 ["dht/node.go"],[("joinNodeInfos/parseNodeInfo","dht/node.go")],
 ["encoded string and parsed nodes"])
p("C12","Compact peer lists round-trip and malformed peers are rejected",
 "Encoding any list of IPv4 peer addresses and parsing the result gives back the same addresses and ports in the same order, six bytes per peer. Parsing a received list yields one address per entry, taken from that entry's own six bytes, and an entry that is not exactly a six-byte string is rejected with a business error rather than turned into an invented address.",
 ["inputs"],"all address lists and all decoded value lists",
 "one six-byte value is tested",
 ["dht/node.go"],[("joinPeerInfos/parsePeerInfo","dht/node.go")],
 ["encoded values and parsed addresses"])
p("C13","Transaction ids are fixed-width and do not repeat within a cycle",
 "Each generated transaction id is a four-character lower-case hexadecimal string and successive ids enumerate the 16-bit counter space, so no id repeats among any 65536 consecutive ids from one generator. Concurrent callers never obtain the same counter value.",
 ["histories","schedules"],"all starting values, all sequences of calls, all interleavings",
 "the test prints three ids and asserts nothing",
 ["dht/node.go"],[("TxIdGenerator.nextVal increment under lock","dht/node.go"),("TxIdGenerator.Next encoding","dht/node.go")],
 ["returned ids"])
p("C14","Routing table structure stays well formed",
 "After any sequence of insertions the routing table holds no bucket above its capacity, no more buckets than allowed, no node twice, and every node in the bucket that its shared prefix with the local node determines (the last bucket holding all longer prefixes), with the local node always present. The reported size equals the number of stored nodes.",
 ["histories","inputs","configurations"],"all insertion sequences, all node ids, all bucket sizes and table capacities",
 "two insertion sequences with fixed ids are tested; splits that cascade or fail are not",
 ["dht/routetable.go"],[("RouteTable.addNode/addNodeWithsplitBucket","dht/routetable.go"),("Bucket.Add","dht/routetable.go")],
 ["table contents through Find, FindClosest and Size"])
p("C15","Inserting a node is truthful and loses nothing",
 "Inserting a node reports success exactly when the node is in the table afterwards, and reports failure only when the responsible bucket is full and cannot be split; no insertion, successful or not, removes or alters any node already stored. Inserting a node that is already present leaves the contents and the size unchanged.",
 ["histories","inputs","configurations"],"all tables reachable by insertions, all nodes, including splits that push all nodes to one side",
 "the tests never check the outcome of a failing or duplicate insertion",
 ["dht/routetable.go"],[("RouteTable.AddNode result propagation","dht/routetable.go")],
 ["AddNode result, Find and Size"])
p("C16","Lookups return only matching nodes",
 "Looking up an id returns a stored node with exactly that id whenever one exists, and nothing otherwise; ids are compared as raw bytes. A closest-nodes query returns only stored nodes, none twice, nodes sharing a longer prefix with the local node first, starting at the bucket of the queried id, and, when the buckets from there downwards hold no more nodes than requested, returns all of them.",
 ["inputs","histories"],"all tables reachable by insertions, all 20-byte ids including ones differing only in letter case or in non-UTF-8 bytes",
 "random SHA-1 ids in tests never collide under the wrong comparison",
 ["dht/routetable.go","dht/node.go"],[("RouteTable.Find/FindClosest","dht/routetable.go"),("NodeInfo.Equals","dht/node.go")],
 ["returned nodes"])
p("C17","Prefix length and XOR are exact",
 "The shared-prefix length of two ids is exactly the number of leading bits on which they agree (all bits of the shorter id when they never differ), it is symmetric, and the bytewise XOR has the length of the shorter operand with every byte the XOR of its operands and leaves both operands unchanged.",
 ["inputs"],"all pairs of byte strings",
 "two XOR literals are tested; prefix length is never tested",
 ["dht/routetable.go","misc/bits.go"],[("solvePrefixLen","dht/routetable.go"),("Xor","misc/bits.go")],
 ["returned values"])
p("C18","DHT query handlers answer per protocol",
 "For every ping, find_node, get_peers and announce_peer query the node answers under the query's transaction id with its own 20-byte id, adding an (empty or valid compact) node list for find_node and get_peers and an echoing token for get_peers; a get_peers or announce_peer query lacking its info_hash string, or an announce_peer query lacking its integer port, raises a business error and gets no success reply. An accepted announce hands exactly one download job, the announcing request itself, to the fetcher, and a rejected one hands over none.",
 ["inputs"],"all requests of the four types",
 "no handler is exercised by any test",
 ["dht/requesthandler.go","dht/messgaes.go"],[("pingHandler/findNodeHandler/getPeersHandler/announcePeerHandler","dht/requesthandler.go")],
 ["response written by the handler","fetch queue"])
p("C19","Discovery queries each accepted node exactly once",
 "When a find_node response lists nodes, every listed node the routing table accepts is sent exactly one find_node query for the local id at that node's own address with a fresh transaction id, and nodes the table refuses are sent nothing; a failure to reach one node does not stop the others. Responses to the other query types send nothing.",
 ["inputs","fault_sequences"],"all responses and node lists, all accept/refuse and send-failure patterns",
 "no test exercises response handling",
 ["dht/resphandler.go"],[("genericRespHandler dispatch, findNodeRespHandler loop","dht/resphandler.go")],
 ["sent queries"])
p("C20","The fetch address is the announced one",
 "The address used to fetch metadata is always the announcing packet's source IP combined with the announced port, except when the announcement carries a positive implied_port, in which case the source UDP port is used. Missing or ill-typed fields raise a business error and cause no connection; a complete announcement of a 20-byte info hash leads to exactly one connection attempt, whatever was announced before.",
 ["inputs"],"all announce messages and source addresses, IPv4 and IPv6",
 "one announcement without implied_port is tested",
 ["dht/fetchtorrent.go"],[("parseFetchAddr","dht/fetchtorrent.go")],
 ["address dialled"])
p("C21","Torrent files are named by and match their info hash",
 "A torrent file is written only after a successful verified download, only inside the torrent directory under the lower-case hexadecimal form of the announced info hash plus the .torrent suffix, and with exactly the downloaded bytes; a remote peer can neither choose another path nor crash the fetch worker. A failed download writes nothing.",
 ["inputs","fault_sequences"],"all announcements (arbitrary info hash bytes), all download outcomes and file errors",
 "no test covers the fetch handler or the file writer",
 ["dht/fetchtorrent.go"],[("fetchHandler recover and ordering","dht/fetchtorrent.go"),("flushTorrentFile","dht/fetchtorrent.go")],
 ["created file name and content","escaped panics"])
p("C22","Peer handshake codec is exact",
 "A built handshake is always the 68-byte BitTorrent handshake: length-prefixed protocol name, eight reserved bytes with the extension bit set, the 20-byte info hash and the 20-byte peer id; parsing it returns those same fields. Building or parsing with wrong-sized ids or data is refused, and the extension flag reported for a received handshake is exactly that bit. The peer id this node gives is one of 20 bytes.",
 ["inputs"],"all ids, hashes and received 68-byte handshakes",
 "one literal in each direction is tested, outside the stable suite",
 ["dht/peerwire/bep3.go"],[("withHandShakeMsg/parseHandShakeMsg/SupportExtended","dht/peerwire/bep3.go")],
 ["built bytes, parsed fields"])
p("C23","Extension message codec round-trips with a correct length prefix",
 "Every extension handshake and metadata message built for the wire starts with a four-byte big-endian length equal to the number of bytes that follow, then the extended-message type and the extension id, and parsing what follows the prefix returns the same fields and exactly the same payload bytes (a message without payload carries no total size). Parsing any other byte string either yields the fields literally present in it or is refused.",
 ["inputs"],"all message ids, types, piece numbers, sizes, payloads and dictionaries",
 "a few literals are tested, outside the stable suite",
 ["dht/peerwire/bep9.go","dht/peerwire/bep10.go"],[("BaseExFetchMetaMsg.Bytes/parseExtendedFetchMetaMsg","dht/peerwire/bep9.go"),("BaseExHandShakeMsg.Bytes/parseExtendedHandShake","dht/peerwire/bep10.go")],
 ["built bytes, parsed fields"])
p("C24","Peer messages are framed independently of how the stream is cut",
 "Reading one message from a peer connection consumes exactly the four-byte length prefix and that many bytes, however the stream is split into reads, and returns exactly those bytes; a zero length is a keep-alive. An announced length above the limit or a stream that ends early is an error, and never more than the limit is buffered.",
 ["inputs","schedules","fault_sequences"],"all byte streams and all segmentations into reads, including one byte at a time and coalesced messages",
 "no test reads from a stream",
 ["dht/peerwire/bep3.go"],[("readBytesByPrefixLenMsg","dht/peerwire/bep3.go")],
 ["returned message, bytes consumed"])
p("C25","Metadata download returns verified data or an error",
 "A metadata download returns data only if its SHA-1 equals the requested info hash, and otherwise returns an error and no data; whatever the remote peer sends, no panic escapes, an opened connection is always closed, and no read or write of it waits without a time limit. It runs only after a handshake with the right protocol name and extension support.",
 ["inputs","fault_sequences"],"all peer behaviours: any bytes, any cut-off, any error at any read or write",
 "the test needs a live peer on the internet and is not run",
 ["dht/peerwire/bep9.go"],[("FetchMetaData recover, checksum, close","dht/peerwire/bep9.go")],
 ["returned data and error","connection closed"])
p("C26","Metadata pieces are requested once, stored in place, and bounded",
 "On learning the metadata size the node requests every 16 KiB piece exactly once, in order, and nothing else, with memory bounded by a fixed limit on the announced size. Each received data piece is stored unchanged at its own index and stays unchanged until assembly; the download counts as complete only when every piece has arrived, and rejects, unknown messages and out-of-range pieces never complete it.",
 ["inputs","histories"],"all announced sizes, all orders, duplicates and omissions of piece messages",
 "no test drives the message loop; a second piece overwriting the first in a recycled buffer is invisible to single-piece data",
 ["dht/peerwire/bep9.go","dht/peerwire/peer.go"],[("handleExtendedMsg","dht/peerwire/bep9.go"),("CompledMetaData","dht/peerwire/peer.go")],
 ["requests written, stored pieces"])
p("C27","Buffer pool hands out right-sized, unshared buffers",
 "A buffer obtained from the pool always has exactly the requested length, whatever was returned to the pool before, and no buffer is handed out again while its previous user can still see it. Returning a shortened buffer restores its full size, and neither getting nor returning ever blocks.",
 ["histories","schedules"],"all sequences and interleavings of gets and puts of all sizes",
 "the test puts one buffer back and takes it out again",
 ["misc/bytespool.go","dht/peerwire/bep9.go","dht/krpc/server.go"],[("BytesPool.Get/GetBySize/Put","misc/bytespool.go")],
 ["returned buffers"])
p("C28","Shared tables are touched only under their lock",
 "Every read and write of the shared handler and pending-request tables, the routing table and its buckets, the transaction counter, the cached configuration sections, the registry of loggers and the list of registered cleanups happens while holding the lock that guards it (the exclusive lock for writes), and each public operation releases every lock it took on every path, including when it panics. No operation acquires a lock it already holds.",
 ["schedules"],"all interleavings of all public operations",
 "tests are single-threaded",
 ["misc/syncmap.go","dht/routetable.go","dht/node.go","config/config.go","misc/logger.go","misc/shutdown.go"],[("SyncMap.Put/Get/Del","misc/syncmap.go"),("Bucket and RouteTable methods","dht/routetable.go"),("TxIdGenerator.nextVal","dht/node.go"),("getSubConfig/ResetConfig","config/config.go"),("bufferLogger methods","misc/logger.go"),("shutdownContext.Clean/runCleans","misc/shutdown.go")],
 ["data races, deadlocks"])
p("C29","Errors carry exact text and never leak internals to peers",
 "An error's text is its numeric code, a colon and its message, followed by its parameters if there are any (a string as it is), and a stack trace is appended only when it was created to print one. Business errors, the ones turned into replies to remote nodes, never append a stack trace.",
 ["inputs"],"all codes, messages and parameter lists",
 "the only tests of the text fail on the original tree and check one message",
 ["misc/errors.go","dht/krpc/server.go"],[("Error.Error","misc/errors.go"),("PanicBizErr/PanicSysErr families","misc/errors.go")],
 ["error text"])
p("C30","Fatal log calls always stop the caller; levels filter exactly",
 "A panic-level log call always panics with its message, whatever log level is configured, because callers rely on it to abandon bad input. Every other call writes exactly one record when its level is at least the logger's level and nothing otherwise, on the console and in the log file alike; the record carries the logger's prefix, the message and every entry of the context, strings as they are. A logger derived with a prefix keeps the level.",
 ["inputs","configurations"],"all levels, messages and contexts",
 "tests log at the default level and assert nothing",
 ["misc/logger.go"],[("consoleLogger methods","misc/logger.go")],
 ["panic, printed output"])
p("C31","Worker pool runs accepted work and refuses work after shutdown",
 "Every task accepted by the worker pool runs exactly once; after a shutdown or cancellation the pool refuses new tasks by panicking, and shutdown finishes once running and queued tasks are done or its timeout expires. The pool's reported state only moves forward from running to shutting down to shut down.",
 ["schedules","histories"],"all interleavings of submitters, workers, cancellation and shutdown",
 "tests sleep and count two tasks",
 ["misc/workpool.go"],[("workerLoop/AsyncSubmit/Shutdown","misc/workpool.go")],
 ["task executions, status"])
p("C32","Process shutdown runs every registered cleanup",
 "When a termination signal or cancellation arrives, every cleanup function registered by then, by whichever goroutine, is started exactly once, and waiting ends when all of them have finished or the timeout has passed, with the state moving from running through shutting down to shut down.",
 ["schedules","fault_sequences"],"all numbers and durations of cleanups, all timeouts, both triggers",
 "tests use three fixed callbacks and real time",
 ["misc/shutdown.go"],[("WaitShutdown/waitCleans/runCleans","misc/shutdown.go")],
 ["cleanup executions, status"])
p("C33","Configuration reads reflect the loaded file or the defaults",
 "After the configuration is (re)loaded, every configuration section read returns the values of the currently loaded file, with documented defaults where the file is silent, and repeated reads agree until the next reload. A missing file is replaced by one holding the defaults; an unreadable one stops the program.",
 ["configurations","histories"],"all configuration files and all sequences of loads and reads",
 "no test loads a configuration file",
 ["config/config.go"],[("ResetConfig/getSubConfig cache","config/config.go")],
 ["section values"])
p("C34","Every datagram and every announcement is handled once, as it came",
 "Each datagram the socket delivers is handed to exactly one handling job, with exactly its own bytes and its own source address, in a buffer that no other datagram still in flight shares; a failed read loses no datagram but its own and does not stop the receiving. Each announcement queued for download is handed to exactly one download job, which gets that announcement and no other. This holds for every number, content, size and timing of datagrams and announcements, and however late a job starts.",
 ["inputs","schedules","fault_sequences"],"all sequences of datagrams, sources, sizes, read failures and announcements; all delays between acceptance and handling",
 "tests receive no datagram through the socket loop and run no download job; a shared buffer or loop variable shows only when a job starts after the next arrival",
 ["dht/krpc/udp.go","dht/krpc/server.go","dht/fetchtorrent.go"],[("UdpServer.recvRoutiue read loop","dht/krpc/udp.go"),("RpcServer.Listen dispatch loop","dht/krpc/server.go"),("fetchTorrent dispatch loop","dht/fetchtorrent.go")],
 ["jobs submitted to the worker pools and what they work on"])
p("C35","Starting and stopping wires the node completely",
 "The node's server is opened on the configured port of every interface. Opening a server binds the given address, starts exactly one receive loop on it and begins with empty handler and pending-request tables. Running the node registers the four query handlers, each under its own query type, before the server starts to serve, starts one downloader, and registers one cleanup, which closes the server. Each bootstrap step sends exactly one find_node query, for the node's own id and with a fresh transaction id, to the host it was given; the command takes that step once for every configured bootstrap node, starts the node and waits for the shutdown; the program runs its command once and ends with an error exactly when the command does. Closing a server closes its socket.",
 ["configurations","fault_sequences"],"all addresses, ports, bootstrap lists and configurations, and all outcomes of opening the socket and sending",
 "tests never start the node; a handler under the wrong name, a missed bootstrap node or a cleanup that closes nothing is invisible to them",
 ["dht/dht.go","dht/krpc/udp.go","dht/krpc/server.go","cmd/root.go","main.go"],[("ExecuteBackgroud","cmd/root.go"),("Run/BootStrap","dht/dht.go"),("StartUdpServer/Close","dht/krpc/udp.go"),("NewRpcServer/Close","dht/krpc/server.go"),("rootCmd.Run","cmd/root.go")],
 ["registered handlers, started goroutines, queries sent, cleanups run, socket state"])
p("C36","One logger per name, made at the level in force",
 "Asking for a logger by a name gives the same logger every time and to every goroutine. A name's first request makes exactly one logger, with the installed factory, that name and the level in force, and registers it; no name means the factory's default name. Setting the level or the factory changes what is made later and forgets no logger. Closing flushes every registered logger exactly once. Level names are understood in any letter case, and an unknown one prints everything. The program puts the level its configuration names in force before it looks at its arguments.",
 ["histories","schedules","inputs"],"all sequences and interleavings of requests, level and factory changes and closes, all names",
 "no test registers a logger by name or closes the registry; a second logger for a name writes the same file unseen",
 ["misc/logger.go","misc/zap.go","main.go"],[("main","main.go"),("bufferLogger.mapLogger/flush/setLevel","misc/logger.go"),("GetLogger/InitLogger/TransLogLevel","misc/logger.go")],
 ["loggers handed out, loggers made by the factory, loggers flushed"])
p("C37","The torrent command lists every torrent file of a folder",
 "Given a folder, the torrent command prints one line for every torrent file directly in it (a name ending in .torrent that is no folder), in the folder's order: the name, the file name, the length and the piece length that very file holds, with a placeholder or zero where it holds none. Given a file it prints that file's line. A file that cannot be read or is not one whole bencoded dictionary ends the command with an error and without a line of its own. However many files there are, none stays open and none is changed.",
 ["inputs","fault_sequences"],"all folders, file names and file contents, and all failures to open or read",
 "no test runs the command",
 ["cmd/torrent.go"],[("torrent.Run","cmd/torrent.go"),("printTorrentInfo","cmd/torrent.go")],
 ["printed lines, open files"])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
