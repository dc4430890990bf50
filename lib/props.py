"""What each check runs. cases: (quick, thorough). floors: observations below which a run
counts as having watched nothing (it then fails as an error of the check, exit 2)."""

P = {}


def harness(pid, binary, quick, thorough, rule, floors, fills=False, **kw):
    P[pid] = dict(kind="harness", bin=binary, cases=(quick, thorough), rule=rule, floors=floors,
                  fills=fills, **kw)


harness("P01", "h_io", 24000, 600000,
        "a case is a random sequence of bit fields (1..64 bits), integers and byte runs written to a dirty "
        "exact-size heap buffer and read back with another random cut; non-trivial = distinct field layout",
        {"fields written": 1000, "fields read": 1000, "over-reads": 100})
harness("P02", "h_io", 16000, 400000,
        "a case is a byte stream, a buffer capacity and a transport cut schedule; non-trivial = distinct "
        "request/transport schedule with more than one transport read",
        {"acquires granted": 1000, "acquires refused": 100, "bytes written": 1000})
harness("P03", "h_flv", 4000, 120000,
        "a case is a random packet sequence muxed to FLV, compared byte for byte with an independent FLV writer and demuxed "
        "again under a random cut; non-trivial = distinct sequence of (type, size, flags)",
        {"packets round-tripped": 1000, "packets filtered": 10, "foreign packets refused": 10})
harness("P04", "h_flv", 3000, 90000,
        "a case is a random FLV stream delivered whole and truncated at chosen bytes under random segmentations; "
        "non-trivial = distinct (bytes delivered, number of transport reads)",
        {"truncations": 500, "whole streams": 300, "short tags": 100})
harness("P09", "h_codec", 12000, 300000,
        "a case is a sequence of ADTS buffers with configuration changes, and damaged frames; non-trivial = distinct sequence of "
        "(configuration, frame size)",
        {"frames": 1000, "configurations": 500, "damaged lengths refused": 500})
harness("P10", "h_codec", 12000, 300000,
        "a case is a sequence of Annex-B access units (3/4-byte start codes, zero-rich payloads); non-trivial = distinct sequence of "
        "(NAL type, size)",
        {"NAL units": 1000, "configuration records": 300, "key frames": 300, "malformed refused": 500})
harness("P06", "h_ts", 6000, 150000,
        "a case is a transport stream from an independent multiplexer (random PIDs, tables, descriptors, stuffing, interleaving), "
        "demultiplexed from a cut byte stream or from memory; non-trivial = distinct (PES sizes, packet counts, interleaving)",
        {"video packets delivered": 1000, "audio packets delivered": 1000, "unbounded PES": 100, "bounded PES": 100, "PES above 64 KiB": 20,
         "network sections": 50, "PES of foreign streams": 3000}, fills=True)
harness("P07", "h_rtp", 6000, 150000,
        "a case is a sequence of NAL units packetized by an independent RTP packetizer (single, STAP-A, FU-A; CSRC, extension, "
        "padding; RTCP in between); non-trivial = distinct (packetization, sizes)",
        {"single NAL packets": 1000, "aggregated NAL units": 1000, "fragmented NAL units": 1000, "packets with extension": 500,
         "packets with padding": 500, "packets with CSRC": 500, "RTCP in between": 200, "aggregates with decoding order numbers": 500, "FU-B fragments": 300})
harness("P08", "h_rtp", 16000, 400000,
        "a case is a sequence of AAC RTP packets (1..8 access units) or one RTCP packet with 0..31 blocks; non-trivial = distinct "
        "(access unit sizes) or (RTCP type, block count, item sizes)",
        {"access units": 1000, "report blocks": 1000, "source description chunks": 1000, "truncated RTCP refused": 500})
harness("P05", "h_fuzz", 64000, 3000000,
        "a case is one hostile input (mutation of a valid stream at 1..20 places, or random bytes behind a valid start) to one of 8 "
        "parsers, in exact-size heap buffers under AddressSanitizer and twice with different heap fill bytes; non-trivial = distinct input bytes",
        {"packets delivered": 5000, "FLV inputs": 500, "TS stream inputs": 500, "TS datagrams inputs": 500, "RTP H.264 inputs": 500,
         "RTP AAC inputs": 500, "RTCP inputs": 500, "ADTS inputs": 500, "H.264 inputs": 500}, fills=True)
harness("P11", "h_cache", 8000, 200000,
        "a case is a publish history (audio, video, headers, metadata, key frames) with joins at random points (every fifth case: the raw TS "
        "cache); non-trivial = distinct (history, join points)",
        {"joins": 1000, "packets replayed": 1000, "live reads": 1000, "raw TS joins": 500})
harness("P12", "h_cache", 8000, 200000,
        "a case is a random interleaving of publish, join, leave, vanish and read on 1..3 streams, or a pipeline of the real decoder and "
        "encoder loops in coroutines; non-trivial = distinct operation sequence",
        {"publishes": 1000, "joins": 1000, "leaves": 500, "abandons": 500, "pipeline players": 500})
harness("P13", "h_cache", 3000, 60000,
        "a case is 1..8 waiting players and a publisher in coroutines with random yields, or 1..8 players timing out; non-trivial = distinct "
        "(player count, wake-up rounds per player)",
        {"wake-ups checked": 1000, "timeouts": 500, "publishes": 1000})
harness("P34", "h_co", 4000, 100000,
        "a case is 1..25 coroutines (and those they start) with random yields, sleeps and releases of their objects before, during and after "
        "the run; non-trivial = distinct completion order",
        {"ran to their end": 1000, "dropped before they ran": 500, "crowds": 5})

harness("P19", "h_http", 50000, 1000000,
        "a case is a random request or response head (methods, targets, header names and values, lengths around 31 and 32 bits) under a random cut, "
        "cut off, damaged, over-long or followed by a body; non-trivial = distinct head",
        {"request heads": 500, "response heads": 300, "cut heads refused": 1000, "malformed heads refused": 500, "damaged heads": 500,
         "over-long heads refused": 100, "heads at the limit": 50}, fills=True)
harness("P20", "h_http", 14000, 250000,
        "a case is one body (sized, chunked, until the end; up to 200 kB, declared up to 2^40) read by the server side or the client side under a random cut, "
        "whole, broken off or with one defect in the framing; non-trivial = distinct (size, chunks, fate)",
        {"server side bodies": 500, "client side bodies": 200, "cut bodies": 300, "malformed framings refused": 300, "whole chunked bodies": 300,
         "whole sized bodies": 300, "huge bodies": 100})
harness("P21", "h_http", 40000, 800000,
        "a case is one message written by the server side or by the HTTP client (random headers, body pieces, failing transports), parsed by an independent "
        "parser; non-trivial = distinct message",
        {"chunked messages": 300, "plain messages": 300, "client requests": 300, "failing transports reported": 100})
harness("P24", "h_conf", 60000, 1000000,
        "a case is a set of exact, wildcard and default hosts over servers, ports, http blocks and globalhost, and names looked up through the installed "
        "routers; non-trivial = distinct set of hosts",
        {"duplicates refused": 100, "names to an exact host": 1000, "names to a wildcard": 500, "names to the default": 500, "names without a host": 500, "long names": 1000})
harness("P25", "h_conf", 30000, 500000,
        "a case is a random configuration written with random layout, loaded and compared option by option, and a damaged copy of it; non-trivial = distinct text",
        {"configurations": 1000, "defects refused": 500, "server blocks": 500, "upstream blocks": 500, "global hosts": 500,
         "damaged configurations accepted": 50, "damaged configurations refused": 50})
harness("P26", "h_conf", 300000, 4000000,
        "a case is a random URL (schemes, user, ports, paths, extensions, queries) parsed and compared part by part, and a damaged one; non-trivial = distinct URL",
        {"urls": 1000, "file urls": 200, "malformed urls refused": 200, "damaged urls accepted": 200, "damaged urls refused": 200, "long urls": 1000})

harness("P27", "h_sock", 6000, 120000,
        "a case is 1..4 TCP connections (accepted or opened, both directions at once), a write against a slow or deaf peer, reads that time out, a refused "
        "port, a port listened on twice, shared or again, or a peer that breaks off; non-trivial = distinct (sizes, number of reads, fate)",
        {"accepted connections": 500, "opened connections": 500, "bytes received": 1000000, "bytes sent": 1000000, "written to the end": 100, "write timeouts": 20,
         "read timeouts": 100, "connect timeouts": 20, "refused connections reported": 20, "broken peers reported": 100,
         "ports shared": 10, "ports listened on again": 20})
harness("P28", "h_sock", 4000, 80000,
        "a case is one TLS connection (server or client side, with and without names and certificates) over a transport that cuts, alters or breaks it off, two "
        "of which one gets altered data, or a TLS port with clients that stall and break the handshake; non-trivial = distinct (sizes, roles, fate)",
        {"handshakes without a certificate refused": 20, "broken handshakes refused": 20, "clients without a name": 20, "clients that name a host": 20,
         "clients that name another host": 20, "connections to a server": 100, "altered connections": 50, "broken connections": 50, "bytes received": 500000,
         "bytes sent": 500000, "both directions at once": 50, "clients served": 100, "stalling and breaking clients": 100, "connections next to a broken one": 50,
         "clients accepted late": 100, "connections of the past": 1000, "TLS read timeouts": 20, "TLS write timeouts": 20, "stalling clients let go": 9, "clients of the factory": 50})
harness("P29", "h_sock", 6000, 120000,
        "a case is 1..6 peers (addresses and ports) exchanging datagrams of 1..65507 bytes with a UDP server, interleaved, with answers, small buffers, timeouts "
        "and reopened sessions, and a UDP client; non-trivial = distinct (peers, sizes, order)",
        {"sessions": 500, "datagrams received": 2000, "small buffers refused": 100, "large datagrams": 100, "answers": 500, "read timeouts": 100,
         "sessions reopened": 200, "client exchanges": 200,
         "addresses alike": 200, "empty datagrams": 100, "long sessions": 3, "unread sessions": 3, "taken ports refused": 50})


def server(pid, module, quick, thorough, rule, floors, **kw):
    P[pid] = dict(kind="py", module=module, bins=kw.pop("bins", ["spsd"]), cases=(quick, thorough), rule=rule, floors=floors, fills=False, **kw)


server("P14", "c_stream", 1000, 20000,
       "a case is one stream published over HTTP (raw, chunked or with a length, random segmentation) in batches, with players joining, "
       "leaving and racing; every byte of every player is compared; non-trivial = distinct (framing, batch sizes, join points)",
       {"tags to players": 1000, "late joins": 100, "racing joins explained": 50, "players checked to the end": 100})
server("P15", "c_stream", 1500, 12000,
       "a case is a history of publishers of one name: second publishers, races, leaving in one of eight ways, reuse; non-trivial = distinct history",
       {"second publishers refused": 100, "names reused": 100, "races of publishers": 30})
server("P16", "c_stream", 1500, 8000,
       "a case is 2..8 streams with resembling names on two hosts, their players and requests for unpublished neighbours; non-trivial = distinct set of names",
       {"players checked": 500, "neighbours refused": 200})
server("P17", "c_stream", 2000, 8000,
       "a case is a sequence of requests that must be refused, next to a running stream; non-trivial = distinct sequence of kinds",
       {"unknown host": 50, "missing": 50, "forbidden edge": 50, "forbidden format": 50, "forbidden none": 50, "unknown format": 50})
server("P18", "c_edge", 4000, 20000,
       "a case is one edge stream (or three with resembling names) with 1..6 players and an origin driven by the check: answering late, serving "
       "(raw, chunked, length), failing in nine ways, ending in five, then pulled again; non-trivial = distinct history",
       {"tags to players": 1000, "pulls": 200, "late joins": 100, "racing players explained": 100, "failed pulls": 50, "recovered pulls": 50})
server("P22", "c_http", 2000, 60000,
       "a case is 1..3 proxied exchanges on one connection (7 methods, random targets, headers, body framings and sizes, statuses) between a client and "
       "an upstream of the check, every tenth with a failing upstream, every tenth with a request that breaks off inside its body; non-trivial = distinct (methods, framings, sizes, statuses)",
       {"exchanges": 500, "request bodies": 100, "answers by chunked": 100, "answers by length": 100, "answers by close": 20, "failing upstreams": 50, "requests broken off": 50})
server("P23", "c_http", 1000, 40000,
       "a case is 2..12 requests on one connection (proxied and answered by the server itself), one by one, pipelined or in groups; non-trivial = distinct "
       "sequence of requests",
       {"answers in order": 1000, "pipelined": 500, "with a body the server does not want": 50})
server("P31", "c_hostile", 200, 6000,
       "a case is 8..30 hostile peers (20 kinds of hostile requests, 11 kinds of hostile upstream answers, floods, deaf and fickle players, stalls) next to a canary "
       "stream checked byte for byte; every sixth case the descriptors and the heap must be back where they were; every 25th case floods a server with few "
       "descriptors; non-trivial = distinct sequence of kinds",
       {"hostile peers": 500, "canary rounds": 200, "quiescent checks": 5, "heap checks": 5, "floods survived": 2,
        "silent peers let go": 12, "clients of stalling upstreams let go": 8, "deaf players let go": 2, "uploads without end": 2, "pauses shorter than the timeout": 2})
harness("P30", "h_srt", 40000, 1000000,
        "a case is one stream id: items in random order, with and without a trailing comma, urls with scheme, query and '=', foreign keys, or one of six forms "
        "that name no stream; non-trivial = distinct id",
        {"ids refused": 1000, "ids to play": 1000, "ids to publish": 1000, "mode at the very end": 300, "urls with a query": 500})
harness("P32", "h_rtmp", 60000, 2000000,
        "a case is a command message encoded by the reference, decoded whole, cut at random places, and damaged; non-trivial = distinct message",
        {"connect messages": 500, "publish messages": 500, "play messages": 500, "createStream messages": 500, "publish types": 100, "cut messages refused": 5000,
         "damaged messages refused": 500, "incomplete messages refused": 500})
harness("P33", "h_log", 30000, 500000,
        "a case is a message with random values, directives and lengths around the limit; non-trivial = distinct message",
        {"messages": 2000, "messages at the limit": 200, "messages with percent signs": 500})
harness("P35", "h_srt", 1600, 40000,
        "a case is 1..3 SRT connections with random reads and writes both ways, or endings, or timeouts, or a refused connection; non-trivial = distinct history",
        {"accepted connections": 300, "opened connections": 300, "ends": 200, "read timeouts": 100, "write timeouts": 20, "failed accepts": 30,
         "writes beyond the buffer": 20, "connections refused": 30, "readers woken while a writer waits": 50})
server("P36", "c_srt", 400, 8000,
       "a case is one transport stream published over SRT in batches, with SRT players (raw TS) and HTTP players (FLV) joining and leaving, refused ids, second "
       "publishers of either protocol and reuse of the name; every 200th case is bursts of SRT connections that end in every way, after which the heap must be back; every byte of every player is compared; non-trivial = distinct (media, batches, players)",
       {"packets to SRT players": 1000, "tags to HTTP players": 1000, "late SRT joins": 50, "late HTTP joins": 50, "players checked to the end": 100,
        "second SRT publishers refused": 10, "second HTTP publishers refused": 10, "names reused": 50, "players let go": 4, "heap checks": 6})
server("P37", "c_tls", 600, 10000,
       "a case is one live stream published and played over HTTPS and HTTP mixed (names, other names, no name), with misbehaving TLS peers of ten kinds next to it, "
       "or 1..3 proxied exchanges on one TLS connection; every 60th case is rounds of TLS connections that end in every way, after which descriptors and heap must be "
       "back; every byte of every player and the certificate of every connection is compared; non-trivial = distinct (framing, players, join points) or (exchanges)",
       {"publishers over TLS": 50, "players over TLS": 200, "players in the clear": 50, "players checked to the end": 100, "proxied exchanges": 50,
        "broken TLS peers": 100, "heap checks": 8})
harness("P38", "h_ts", 4000, 100000,
        "a case is a transport stream from an independent multiplexer in RTP datagrams of 1..7 packets (marker, CSRC, extension, padding; RTCP in between), demultiplexed by the RTP "
        "demuxer; non-trivial = distinct (PES sizes, packet counts, interleaving)",
        {"video packets delivered": 1000, "audio packets delivered": 1000, "datagrams": 5000, "RTCP in between": 500, "streams that start with the marker set": 500,
         "packets with padding": 500, "packets with extension": 500}, fills=True)
server("P39", "c_boot", 300, 8000,
       "a case is one start of the server with a random configuration (1..6 server blocks on 1..3 ports, plain, TLS and over SRT, shared ports, two http blocks, global hosts, "
       "wildcards, default, named upstreams), its ports and the answers to 6 names on each, or a start that must fail (a defect, a name twice, a taken port); "
       "non-trivial = distinct (ports, hosts) or defect",
       {"servers started": 100, "names with a host": 500, "names without a host": 200, "defects refused": 10, "duplicates refused": 5, "taken ports refused": 5,
        "ports over TLS": 20, "ports over SRT": 20, "ports of both TCP and UDP": 3})
server("P40", "c_ff", 24, 2000,
       "a case is ten clips published at once (FLV, TS, Matroska, fragmented MP4, ADTS; raw, chunked, by length) to a server with FFmpeg, each with 1..4 players of any "
       "container that join on the way; every packet of every player is compared; non-trivial = distinct (clip, containers, join point)",
       {"packets to players": 10000, "players checked to the end": 200, "starts bounded from below": 30}, bins=["spsd_ff", "ffgen"])
server("P41", "c_ff", 32, 2000,
       "a case is a stream checked packet by packet, with 15..60 guests next to it: players of 90 odd formats, published playlists and descriptions that name files and places, "
       "damaged and odd containers, noise; every second case descriptors and heap must be back; non-trivial = distinct sequence of guests",
       {"players of odd formats": 100, "lists published": 50, "damaged containers": 50, "odd containers": 50, "players of guests": 100, "heap checks": 6}, bins=["spsd_ff", "ffgen"])
