#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one record per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Every query gets exactly one correct reply, to its sender",
  "Every datagram that decodes to a dictionary with y=q and string t and q entries is answered by exactly one datagram, sent to the address it came from and carrying the same transaction id. The answer is the method's normal reply with the crawler's own 20-byte node id (plus the fields the method promises) when the method is ping, find_node, get_peers or announce_peer, the sender id is a 20-byte string and the arguments that method needs are present with the right types; otherwise it is an error reply with code 203 and a short reason that reveals nothing about the crawler's internals (no stack trace). Replies to queries that are being handled at the same time are never mixed up.",
  ["inputs","schedules","histories"], "for every query datagram (any transaction id, method, argument dictionary, extra keys), from any number of clients at once, at every point of the node's history",
  "Tests call one handler once with two literal dictionaries; transaction ids, argument types, senders and concurrent clients are all unsampled, and no test looks at the datagram that actually leaves the socket.",
  ["dht/krpc/server.go","dht/krpc/messages.go","dht/requesthandler.go","dht/messgaes.go","misc/errors.go","misc/types.go"],
  [("handler table","method name -> handler","dht/krpc/server.go RpcServer"),("own node id","identity put in each reply","dht/dht.go")],
  [("packet dispatch","dht/krpc/server.go recvPacketHandle"),("validation and error replies","dht/krpc/server.go requestHandle"),("method handlers","dht/requesthandler.go")],
  ["UDP datagrams in and out of the running crawler"])
p("C02", "No datagram sequence can stop, wedge or trick the node",
  "Whatever datagrams arrive, in whatever order, the crawler process keeps running and goes on answering valid queries. A datagram that is not a query the protocol requires to be answered (undecodable or truncated bencoding, no y entry, missing or wrongly typed header fields, unknown kinds, unsolicited responses, error messages) draws no reply, starts no metadata fetch and causes no outgoing query.",
  ["inputs","histories"], "for every finite sequence of datagrams of at most 1024 bytes, including bit-mutated, truncated, deeply nested and unsolicited ones",
  "Tests feed only well-formed dictionaries below the decoder; robustness is a statement about all byte strings and all orders.",
  ["dht/krpc/server.go","dht/krpc/udp.go","misc/beancode.go","misc/types.go","dht/resphandler.go","dht/node.go"],
  [("worker pool","packet handlers","dht/krpc/server.go Listen")],
  [("panic containment","dht/krpc/server.go recvPacketHandle"),("decoder error returns","misc/beancode.go"),("typed accessors","misc/types.go")],
  ["process liveness","UDP datagrams out of the running crawler","TCP connections opened by the crawler"])
p("C03", "A response reaches the handler of its own query, at most once",
  "A response datagram is handed to the handler of the outstanding query that has its transaction id, together with that query and the response's body, however soon after the query it arrives. Each query's handler runs at most once no matter how often its response is repeated, even when copies arrive at the same time; responses whose transaction id matches no outstanding query, and error messages, run no handler.",
  ["histories","schedules","inputs"], "for every interleaving of queries sent and response datagrams received (duplicated, reordered, unsolicited, immediate), over all transaction ids",
  "Tests call a handler directly with a response they built; no test sends a query through the server, duplicates or reorders a response, or races two copies.",
  ["dht/krpc/server.go","misc/syncmap.go"],
  [("outstanding queries","transaction id -> query and handler","dht/krpc/server.go requestMapping")],
  [("register before send","dht/krpc/server.go Query"),("match and retire","dht/krpc/server.go responseHandle")],
  ["handler invocations","UDP datagrams"])
p("C04", "Transaction ids never repeat within 65,536 consecutive draws",
  "Any 65,536 consecutive transaction ids drawn from one generator are pairwise different, for every starting value, across the 16-bit wrap-around, and with any number of concurrent callers.",
  ["schedules","histories"], "for every starting value, every number of draws and every interleaving of concurrent callers",
  "The test draws three ids, sequentially, and asserts nothing.",
  ["dht/node.go"],[("counter","last id handed out","dht/node.go TxIdGenerator")],
  [("locked increment","dht/node.go nextVal"),("encoding","dht/node.go Next")],["ids returned to callers"])
p("C05", "Crawling queries each newly learnt node once, with the crawler's own id",
  "When a find_node response to one of the crawler's queries lists nodes, every listed node that is newly stored in the routing table is sent exactly one find_node query, at the listed IPv4 address and port, naming the crawler's own id as sender and as target and carrying a transaction id not used by any query still outstanding. Nodes that the table has no room for are sent nothing, no node that was not listed is ever contacted, and a trailing partial entry is ignored without affecting the complete ones before it.",
  ["histories","inputs"], "for every sequence of find_node responses (any node lists, ids, addresses, list lengths including partial trailing entries) over the node's lifetime",
  "No test runs the response handler against a live node; the test of the parser uses one hand-written list.",
  ["dht/resphandler.go","dht/node.go","dht/messgaes.go","dht/routetable.go","dht/dht.go"],
  [("routing table","known nodes","dht/dht.go rtable"),("outstanding queries","transaction id -> query","dht/krpc/server.go")],
  [("response dispatch","dht/resphandler.go genericRespHandler"),("expand","dht/resphandler.go findNodeRespHandler"),("compact node parsing","dht/node.go parseNodeInfo")],
  ["find_node datagrams leaving the crawler"])
p("C06", "Each accepted announce causes exactly one fetch, at the right address",
  "Every announce_peer query that is answered with a normal reply leads to exactly one attempt to fetch that info-hash's metadata, by connecting to the announcing datagram's source IP at the announced port, or at the datagram's own source port when implied_port is a positive integer. Rejected announces and all other messages lead to no fetch, and a fetch that fails, hangs or is refused does not prevent the fetches of other announces.",
  ["histories","inputs","fault_sequences"], "for every sequence of announces (ports, implied_port values, repeated info-hashes, IPv4 and IPv6 sources, invalid arguments), peers that refuse, stall or misbehave",
  "The single test checks one address string for one literal request; queueing, repetition, implied_port, IPv6 and failing peers are unsampled.",
  ["dht/requesthandler.go","dht/fetchtorrent.go"],
  [("announce queue","accepted announces waiting for a fetch worker","dht/fetchtorrent.go recvInfoHash")],
  [("enqueue","dht/requesthandler.go announcePeerHandler"),("address choice","dht/fetchtorrent.go parseFetchAddr"),("fetch workers","dht/fetchtorrent.go fetchTorrent")],
  ["TCP connections opened by the crawler and the handshake sent on them"])
p("C07", "A saved torrent file is always whole and matches its name",
  "Whenever a file named <40 hex digits>.torrent exists in the torrent directory, its content is the complete metadata whose SHA-1 is that name, at every instant, including while it is being written, when writing fails part-way, and when several fetches of the same info-hash finish together. Every fetch that obtains verified metadata leaves such a file behind, also when the torrent directory did not exist before, and failed fetches leave no file and do not damage an existing one.",
  ["crash_points","histories","fault_sequences"], "for every history of successful and failed fetches, every interleaving of savers of the same info-hash, and every point at which writing can fail or be observed",
  "No test saves a file; a partially written file is visible only at particular instants or after a particular write failure.",
  ["dht/fetchtorrent.go","dht/peerwire/bep9.go"],
  [("torrent directory","saved metadata","dht/fetchtorrent.go flushTorrentFile")],
  [("save","dht/fetchtorrent.go flushTorrentFile"),("checksum before save","dht/peerwire/bep9.go FetchMetaData")],
  ["files in the torrent directory of the running crawler"])
p("C08", "A metadata fetch returns only bytes whose SHA-1 is the info-hash",
  "A metadata fetch that succeeds returns a byte string whose SHA-1 equals the requested info-hash; in every other case it returns no data and an error. This holds whatever the peer sends: wrong, missing, extra, repeated, oversized or reordered pieces, altered sizes, several extended handshakes, rejects, and while any number of other fetches are running.",
  ["inputs","fault_sequences","schedules"], "for every behaviour of the remote peer and every interleaving of concurrent fetches",
  "The repository's fetch tests need live internet peers and are not run; nothing samples a hostile peer.",
  ["dht/peerwire/bep9.go","dht/peerwire/peer.go"],
  [("pieces received","per-connection piece table","dht/peerwire/peer.go PeerConn")],
  [("checksum","dht/peerwire/bep9.go FetchMetaData"),("piece bookkeeping","dht/peerwire/bep9.go handleExtendedMsg")],
  ["result of a fetch from a scripted peer"])
p("C09", "A fetch from a peer that follows the protocol succeeds",
  "If the peer completes the BitTorrent and extension handshakes, sends every requested piece of the true metadata, all within a second of the connection, and keeps to BEP 3, 9 and 10, the fetch returns exactly that metadata. This is independent of the metadata's length (up to 32 MiB) and number of pieces, the order in which pieces arrive and whether some are repeated, other messages (up to 32 KiB each) and keep-alives in between, the extension id the peer chose for metadata exchange (which the crawler's requests must use), how TCP splits or merges the byte stream, and other fetches running at the same time.",
  ["inputs","schedules"], "for every conforming peer: metadata sizes from 1 byte upward, piece orders, interleaved messages, message ids, and segmentations of the TCP stream, with concurrent fetches",
  "Unit tests parse single, complete, literal messages; segmentation, multi-piece transfers and concurrent fetches are never exercised.",
  ["dht/peerwire/bep3.go","dht/peerwire/bep9.go","dht/peerwire/bep10.go","dht/peerwire/peer.go","misc/bytespool.go"],
  [("read buffer","frame being read","dht/peerwire/bep3.go"),("pieces received","per-connection piece table","dht/peerwire/peer.go")],
  [("framing","dht/peerwire/bep3.go readBytesByPrefixLenMsg"),("piece storage","dht/peerwire/bep9.go handleExtendedMsg"),("reassembly","dht/peerwire/bep9.go FetchMetaData")],
  ["bytes the fetch sends and the result it returns"])
p("C10", "A fetch ends in bounded time and space, whatever the peer does",
  "For every behaviour of the remote peer (silence, endless keep-alives or other traffic, never reading, malformed or truncated messages, negative, zero or enormous advertised sizes, out-of-range pieces, early close) a metadata fetch returns within 20 seconds, without crashing the process, without memory growing with a size the peer merely claims (metadata of more than 32 MiB is refused), and with its connection closed.",
  ["inputs","fault_sequences"], "for every peer behaviour, including never reading and claiming sizes up to the integer limits",
  "Needs adversarial peers; the repository's tests have none that run.",
  ["dht/peerwire/bep9.go","dht/peerwire/bep3.go","dht/peerwire/bep10.go","dht/peerwire/peer.go"],
  [("deadlines","connection deadlines and loop expiry","dht/peerwire/bep9.go"),("announced size","metadata_size the peer claims","dht/peerwire/bep9.go")],
  [("recover","dht/peerwire/bep9.go FetchMetaData"),("read limits","dht/peerwire/bep3.go"),("loop expiry","dht/peerwire/peer.go")],
  ["result, duration and memory of a fetch from a scripted peer"])
p("C11", "The routing table is bounded per distance range and never loses a node",
  "For every distance range (nodes sharing exactly p leading bits with the host's id) outside the one that still contains the host, at most k nodes are stored, at most k more (the host included) share the remaining range, and no more divisions than the configured limit are ever made. The host itself and every node once stored remain stored and findable for ever, through any number of divisions.",
  ["histories","inputs"], "for every k, division limit, host id and sequence of node insertions, including ids equal to, or sharing long prefixes with, the host's",
  "One test inserts 3 nodes, another 1000 hash-random ids, which never share long prefixes with the host; deep division, the division limit and duplicates go unsampled.",
  ["dht/routetable.go"],
  [("buckets","nodes by shared prefix length","dht/routetable.go RouteTable.nodeMap"),("last bucket","range holding the host","dht/routetable.go lastBucketIndex")],
  [("placement","dht/routetable.go solveMaxPreLen"),("division","dht/routetable.go addNodeWithsplitBucket"),("capacity","dht/routetable.go Bucket")],
  ["results of insertion, lookup, size and fullness calls"])
p("C12", "Adding a node tells the truth, and the table's size is its node count",
  "Adding a node that is not stored reports success exactly when the node is stored afterwards, and it is stored whenever its distance range has room or can be divided to make room; a reported failure leaves the stored set unchanged. Adding a node that is already stored changes nothing. The reported size always equals the number of distinct nodes (identifier and address) stored, also when many goroutines add and query at once.",
  ["histories","inputs","schedules"], "for every sequence and every interleaving of insertions, duplicates included",
  "Existing tests add distinct nodes sequentially and never a duplicate, nor a node that cannot be stored.",
  ["dht/routetable.go","dht/node.go"],
  [("size","number of stored nodes","dht/routetable.go RouteTable.size")],
  [("insert","dht/routetable.go addNode"),("division","dht/routetable.go addNodeWithsplitBucket"),("identity","dht/node.go Equals"),("table lock","dht/routetable.go RouteTable")],
  ["results of insertion, lookup, size and fullness calls"])
p("C13", "Lookups return exactly the node asked for, and the closest known nodes",
  "Looking up an id returns a stored node with exactly that id, byte for byte, if there is one and nothing otherwise. Asking for the k closest nodes to any id returns stored nodes only, none twice, at least k of them (or all if fewer are stored), and leaves out no stored node that shares a longer prefix with the id than some returned node does.",
  ["histories","inputs"], "for every table content and every 20-byte id asked for, including ids that differ only in letter case or in bytes that are not valid text",
  "Two literal lookups are tested, both for ids in the range that holds the host.",
  ["dht/routetable.go","dht/node.go"],
  [("buckets","nodes by shared prefix length","dht/routetable.go")],
  [("find","dht/routetable.go Find"),("closest","dht/routetable.go FindClosest"),("prefix length","dht/routetable.go solvePrefixLen")],
  ["results of lookup calls"])
p("C14", "A work pool runs every accepted task exactly once, at most size at a time",
  "Each task whose submission returned before shutdown began is executed exactly once; the started tasks always form a prefix of the submission order, never more than the pool's size at once, and no task waits while a worker is idle. A submitter is held back exactly while all workers are busy and as many tasks as the pool's size are already waiting.",
  ["schedules","histories"], "for every pool size and every interleaving of submissions and task completions",
  "Tests submit two or three instantaneous tasks and count them.",
  ["misc/workpool.go"],
  [("queue","accepted tasks not started","misc/workpool.go WorkPool.queue"),("workers","running tasks","misc/workpool.go workerLoop")],
  [("submit","misc/workpool.go AsyncSubmit"),("worker","misc/workpool.go workerLoop")],["task starts and completions, submit returns"])
p("C15", "Work pool shutdown drains accepted tasks, refuses new ones and is timely",
  "Once shutdown has begun (by call, or by cancellation of the pool's context) every new submission is refused with a panic and never executed, while tasks accepted earlier are still executed. The shutdown call returns as soon as all accepted tasks have finished or when its timeout expires, whichever comes first, and the pool then reports that it is shut down; shutting down again, or concurrently with cancellation, has no further effect and does not panic; once all tasks have finished no worker is left behind.",
  ["schedules","histories"], "for every interleaving of submissions, completions, shutdown calls, cancellation and time",
  "Tests wait out full timeouts with real sleeps and cannot tell prompt completion from a timeout.",
  ["misc/workpool.go"],
  [("status","running, shutting down, shut down","misc/workpool.go WorkPool.status")],
  [("shutdown","misc/workpool.go Shutdown"),("cancel listener","misc/workpool.go listenCancelLoop"),("worker exit","misc/workpool.go workerLoop")],
  ["status, submit outcomes, shutdown return time"])
p("C16", "Process shutdown runs every cleanup exactly once and never hangs",
  "After a termination signal or cancellation, and not before, every cleanup registered until then, by any number of goroutines at once, is started exactly once, all of them concurrently, while the status reads shutting-down. The wait returns, with the status then reading shut-down, as soon as all cleanups have returned or when the timeout expires, whichever is first; one that is registered while the shutdown begins or runs disturbs nothing; the crawler process exits with success on SIGINT and SIGTERM.",
  ["schedules","histories"], "for every number of registered cleanups, every order and duration in which they finish (or never do), and every timeout",
  "Tests use three cleanups and one timeout; a lost, doubled or serialised cleanup or an early or late return is visible only under other timings.",
  ["misc/shutdown.go","cmd/root.go","dht/dht.go"],
  [("status","running, shutting down, shut down","misc/shutdown.go"),("cleanups","registered callbacks","misc/shutdown.go")],
  [("wait","misc/shutdown.go WaitShutdown"),("run cleanups","misc/shutdown.go runCleans")],["cleanup starts, status, return time"])
p("C17", "Pooled buffers are never shared, have the requested length, and are bounded",
  "A buffer obtained from the buffer pool has exactly the requested length and is not in the hands of any other holder; after being returned (at any shorter length) it is handed out again at most once per return, before a new buffer of that width is made. The pool keeps at most its configured number of returned buffers per width and discards the rest; no operation ever blocks, whatever the number of concurrent users.",
  ["schedules","histories"], "for every interleaving of get and return operations over several widths, including pools that are full or empty",
  "The test gets and returns one buffer of two widths from one goroutine.",
  ["misc/bytespool.go"],
  [("free lists","returned buffers by width","misc/bytespool.go chanMapping")],
  [("get","misc/bytespool.go Get and GetBySize"),("put","misc/bytespool.go Put"),("lazy creation","misc/bytespool.go loadOrStore")],
  ["identity and length of buffers handed out"])
p("C18", "The shared map is linearizable",
  "Every concurrent history of put, get and delete on the shared map is equivalent to some sequential order consistent with real time: a get returns the latest value put for exactly that key, or absence, and no history crashes the process or races.",
  ["schedules","histories"], "for every interleaving of put, get and delete by any number of goroutines on any keys",
  "There is no test of the map.",
  ["misc/syncmap.go"],
  [("mapping","key -> value","misc/syncmap.go SyncMap")],[("locking","misc/syncmap.go")],["results of concurrent calls","race detector reports"])
p("C19", "Middleware runs in onion order, each handler exactly once, last reply wins",
  "For every query (and every response) each registered middleware and then the handler run exactly once, in registration order, whether or not a middleware passes control on explicitly, and however often it does so; code after a pass-on runs after everything later in the chain, in reverse order. The reply sent is the last one written, and handlers see the current request, response and remote address.",
  ["programs","histories"], "for every chain length and every combination of handlers that pass control on zero, one or several times, or write a reply before or after doing so",
  "Tests run one chain of two handlers that each pass control on exactly once.",
  ["dht/krpc/middleware.go","dht/krpc/server.go"],
  [("chain index","next handler to run","dht/krpc/middleware.go RpcContext")],
  [("next","dht/krpc/middleware.go Next"),("chain assembly","dht/krpc/server.go doRequestHandle, doResponseHandle")],["handler execution order and final reply"])
p("C20", "The bencode decoder accepts exactly well-formed input and never panics",
  "For every byte string the dictionary, list, integer and string decoders return either a value or an error and never panic. They accept every complete well-formed bencoded value nested no deeper than 10,000 levels (dictionary keys in any order), returning the value it denotes, may refuse deeper ones, and reject anything truncated, unterminated, with a malformed or out-of-range number or length (negative zero and leading zeros in integers included), with a non-string key, or followed by trailing bytes; the prefix-decoding variant accepts trailing bytes and reports exactly where the value ends.",
  ["inputs"], "for every byte string",
  "The tests hold about thirty literals, none truncated in the ways that crash the decoder.",
  ["misc/beancode.go"],[("position","index of next unread byte","misc/beancode.go")],
  [("item dispatch","misc/beancode.go decodeItem"),("containers","misc/beancode.go innerDecodeSlice, innerDecodeDict"),("integers and strings","misc/beancode.go innerDecodeInteger, innerDecodeString")],
  ["decoder results"])
p("C21", "Encoding then decoding returns the same value",
  "Every value built from integers, byte strings, lists and dictionaries (empty ones, arbitrary bytes and any nesting included) encodes without error to well-formed bencoding, and decoding that gives back an equal value; values that contain anything else are refused with an error rather than encoded wrongly.",
  ["inputs"], "for every nested value of the four kinds, and every value containing another kind",
  "Tests compare about fifteen literals (one of them order-dependent and flaky).",
  ["misc/beancode.go","misc/types.go"],[],
  [("encoders","misc/beancode.go EncodeInteger, EncodeString, EncodeSlice, EncodeDict"),("decoders","misc/beancode.go")],["encoder output and decoder results"])
p("C22", "The UDP endpoint delivers each datagram intact, once, in order, with its sender",
  "Every datagram of at most 1024 bytes that reaches an open endpoint is delivered exactly once on its receive channel, in arrival order, with exactly its bytes and its sender's address, and those bytes do not change afterwards as long as the consumer holds them; sending puts exactly the given bytes into one datagram to the given address. After closing (which may be repeated, also concurrently, without harm) no datagram that arrives later is received, sending fails with an error, and the port can be bound again.",
  ["histories","inputs","schedules"], "for every sequence of datagrams from any senders, any consumer speed, and every point at which the endpoint is closed",
  "One test exchanges one 11-byte datagram each way.",
  ["dht/krpc/udp.go","misc/bytespool.go"],
  [("receive queue","datagrams not yet consumed","dht/krpc/udp.go recvq"),("closed flag","endpoint closed","dht/krpc/udp.go")],
  [("receive loop","dht/krpc/udp.go recvRoutiue"),("close","dht/krpc/udp.go Close")],["receive channel","datagrams sent"])
p("C23", "Configuration: file values win, defaults fill in, first start persists them",
  "Settings present in the configuration file (./conf/config.json, or the one named by --config) are the ones the crawler runs with, and each section missing from the file takes its built-in defaults. When no file exists the first start writes one holding the defaults, every later start reads it back to the same settings and changes nothing in it, and a file that is not valid JSON stops the start with an error instead of being replaced or ignored.",
  ["configurations","histories"], "for every combination of present, absent and unparsable configuration file and sections, over any number of restarts and edits",
  "There are no tests of configuration; they all run with whatever file happens to exist.",
  ["config/config.go","cmd/root.go","main.go"],
  [("configuration file","./conf/config.json","config/config.go"),("effective settings","values handed to each subsystem","config/config.go configMap")],
  [("load and first write","config/config.go ResetConfig"),("section decode","config/config.go getSubConfig")],["effective settings and file content after each start"])
p("C24", "Outgoing queries carry exactly what they were given",
  "Sending a query puts exactly one datagram on the wire, to the given address, that decodes to a query with the given transaction id, method and arguments; an argument dictionary that cannot be encoded, or a failed send, is reported to the caller as an error and sends nothing. The crawler's own query builders produce the argument sets BEP 5 defines for ping, find_node, get_peers and announce_peer, and its reply builders the replies: IPv4 nodes as one string of 26 bytes each (id, address, port in network order), peers as a list of 6-byte strings, errors as a list of code and message.",
  ["inputs","histories"], "for every transaction id, method, argument dictionary and destination",
  "Tests look at in-memory dictionaries for four literals; none looks at what is sent.",
  ["dht/krpc/server.go","dht/krpc/messages.go","dht/messgaes.go"],[],
  [("send","dht/krpc/server.go Query"),("raw form","dht/krpc/messages.go RawData"),("builders","dht/messgaes.go")],["datagrams sent and errors returned"])
p("C25", "Every served get_peers and announce_peer query is recorded once in the log",
  "Every get_peers and announce_peer query that gets the method's normal reply adds exactly one line to ./logs/infohash.log by the time its reply arrives, and nothing else adds a line: a JSON object whose msg is get_peer or announce_peer, whose addr is the sender's address, whose infoHash is the query's info hash in hexadecimal and, for an announcement, whose port is the port it announced. Lines are never torn or mixed, however many queries are handled at once, and, while the log is below its size limit of 500 MB, no later query, restart or kill of the crawler changes or removes a line written before.",
  ["inputs","schedules","histories","crash-points"], "for every sequence of queries of any shape, any number of workers and senders, and any number of stops, kills and restarts",
  "No test looks at the log; which queries reach it depends on the whole request path, and torn lines on schedules.",
  ["misc/zap.go","dht/requesthandler.go","dht/dht.go"],
  [("info-hash log","lines written so far","./logs/infohash.log")],
  [("get_peers","dht/requesthandler.go"),("announce_peer","dht/requesthandler.go"),("open","misc/zap.go")],["content of ./logs/infohash.log and replies"])
p("C26", "The torrent command lists every readable metadata file of a directory",
  "For a directory, the torrent command prints exactly one line name||file||length||piece length for every file in it whose name ends in .torrent and whose content is exactly one bencoded dictionary (a missing name is printed as 'name err', a missing number as 0), and no line for anything else; given one such file, it prints that file's line. Files that cannot be decoded, directories and other names never hide the other files, any number of files is listed under the usual limit of open files, and all of this, as does the version command, also works while a crawler runs and saves in the same directory.",
  ["inputs","configurations","schedules"], "for every directory content, any number of files, and every moment of a crawler saving into it",
  "The commands have no tests.",
  ["cmd/torrent.go","cmd/version.go","misc/beancode.go"],
  [("directory","metadata files and other entries","./torrent")],
  [("list","cmd/torrent.go printTorrentInfo"),("save","dht/fetchtorrent.go")],["lines printed and exit status"])
p("C27", "Log messages are printed whole and exactly when the level allows them",
  "A message is printed exactly when its severity (Debug < Info < Warn < Error < Panic < Trace) is not below the level set last, by every logger there is, named or derived by a prefix, whichever came first, logger or level. What is printed is one whole line with the time, the severity, the prefix in brackets, the message and all its context entries, in the order the messages of each goroutine were given; a panic message is printed before it panics, and panics whether printed or not. The same holds for a logger of a file with its own level, whose lines are JSON objects. Loggers and settings may be asked for the first time by any number of goroutines at once: the logger of a name is made once, with the level in force, and every goroutine gets the same settings.",
  ["schedules","histories"], "for every sequence and interleaving of making and deriving loggers, setting the level, and logging",
  "Tests print three messages by one logger and look at none of them.",
  ["misc/logger.go","misc/zap.go","misc/strings.go","config/config.go","cmd/root.go"],
  [("level","the level set last","misc/logger.go bufferLogger"),("loggers","loggers made, by name","misc/logger.go bufferLogger"),("settings","sections decoded so far","config/config.go configMap")],
  [("set level","misc/logger.go SetLevel"),("get","misc/logger.go GetLogger"),("derive","misc/logger.go SetPrefix"),("print","misc/logger.go")],["lines printed"])
p("C28", "What a message or a fetch took is given back: nothing accumulates",
  "At any time the crawler has at most as many peer connections open as its fetch pool is configured for. Whenever traffic has stopped and the fetches it caused have ended, in whatever way, no peer connection is left and the crawler holds no more goroutines (beyond its configured workers) and no more open files than before, nor more memory than before beyond a constant (1 MB) and what its workers and the nodes it stores account for, however many datagrams, announces and fetches there were.",
  ["histories","inputs","schedules"], "for every kind of datagram, answered or not, known or unknown senders, and every way a fetch can end (refused, closed, reset, silent, malformed, endless, rejected, wrong, complete)",
  "Tests run for milliseconds and handle a few messages: what is lost per message is visible only as a slope over thousands of them, and by kind.",
  ["dht/dht.go","dht/fetchtorrent.go","dht/krpc/server.go","dht/krpc/udp.go","dht/peerwire/peer.go","dht/requesthandler.go","dht/resphandler.go","misc/workpool.go","misc/bytespool.go","misc/syncmap.go"],
  [("outstanding queries","by transaction id","dht/krpc/server.go"),("pooled buffers","by width","misc/bytespool.go"),("workers","started on demand","misc/workpool.go"),("connections","one per fetch","dht/peerwire/peer.go")],
  [("packet handling","dht/krpc/server.go recvPacketHandle"),("fetch","dht/fetchtorrent.go"),("close","dht/peerwire/peer.go")],["connections of peers, /proc/PID/fd, goroutine count and live heap of the running crawler"])
p("C29", "A crawler that runs has its port; a start that cannot get it fails",
  "Within seconds of its start a crawler either answers queries on its configured UDP port and has sent find_node to each of its configured bootstrap nodes, or its process has ended with a failure status; it never runs without its port, or on another. While one runs, another started with the same port, in the same directory or another, at the same time or later, fails and disturbs neither the first nor the configuration, log and metadata files. After the first has ended in whatever way (SIGINT, SIGTERM, SIGKILL), the next start has the port again. What the crawler can do without (its log file, saved metadata, the profiling port) does not keep it from starting.",
  ["histories","configurations","faults"], "for every history of starts (single, and several at once), ends and ports taken by others",
  "Tests start no process; port conflicts, restarts after a kill and simultaneous starts are histories of several processes.",
  ["main.go","cmd/root.go","dht/dht.go","dht/krpc/server.go","dht/krpc/udp.go","config/config.go"],
  [("port","UDP port of the process","dht/krpc/udp.go"),("bootstrap nodes","configured","config/config.go")],
  [("listen","dht/krpc/udp.go"),("start","dht/dht.go Run"),("exit","misc/errors.go PanicSysErr")],["process status, UDP ports, replies, queries received by the bootstrap nodes, files"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
