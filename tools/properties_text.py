NA = {}
UT = "The unit tests run one or two fixed inputs"

p("P01", "Bit fields are written and read back exactly, and never outside the buffer",
  """Any sequence of bit fields (1 to 32 bits and wider), 8/16/24/32-bit integers and byte runs written into a bit
  buffer produces exactly the big-endian bit string of those fields, and reading the same bits back in any other
  cut (fields, integers, byte runs, skips) returns them exactly. The remaining size, the position and the answer to
  'are n bits/bytes available' are always exact; asking for more than is there never touches memory outside the
  buffer and leaves the reader at its end.""",
  ["inputs", "histories"], "every sequence of field widths and values, at every bit phase, and every re-cut on reading",
  UT + " (IOBITS) with a few widths; the defects live at particular phases and widths.",
  ["io/sps_io_bits.cpp", "io/sps_io_bits.hpp"],
  [("bit read/write loops, acquire checks", "io/sps_io_bits.cpp")], ["bit reader/writer API"])

p("P02", "Buffered byte reading is independent of how the transport fragments data",
  """Through a buffered byte reader a consumer sees exactly the byte sequence the peer sent, each byte once and in
  order, whatever the buffer capacity and however the transport splits it; integers are big-endian. A request for n
  bytes succeeds exactly when n bytes can still arrive and fit the buffer, otherwise it fails with 'buffer full' or
  the transport's own error and loses nothing already buffered. A byte writer emits exactly the values written and
  refuses more than its capacity.""",
  ["inputs", "schedules"], "every byte stream, buffer capacity, request sequence and transport fragmentation",
  UT + " (IOBYTES) over memory; fragmentation and capacity are not varied.",
  ["io/sps_io_bytes.cpp", "io/sps_io_bytes.hpp", "cache/sps_cache_buffer.cpp", "io/sps_io_memory.cpp"],
  [("buffer rewind and refill in acquire", "io/sps_io_bytes.cpp")], ["byte reader/writer API"])

p("P03", "FLV muxing is loss-free: muxed output parses back to the packets put in",
  """The bytes the FLV muxer writes for any sequence of audio, video and metadata packets (payloads of 1 byte to 1 MiB) form a
  valid FLV file: one 'FLV' header, then one tag per packet in order with the right type, exact payload, 32-bit timestamp
  (upper byte in the extension field) and a following previous-tag-size equal to 11 plus the payload. The FLV demuxer
  reads that output back as the same packets: type, timestamps, composition offset, key/sequence-header flags,
  codec and payload bytes. A packet the filter rejects leaves no trace in the output; a packet that is not FLV is refused.""",
  ["inputs"], "every packet sequence: sizes 0 to megabytes, timestamps over the whole 32-bit range",
  "FLV tests demux one sample file only and never mux.",
  ["avformat/sps_avformat_flvenc.cpp", "avformat/sps_avformat_flvdec.cpp", "avformat/sps_avformat_packet.cpp"],
  [("tag header writer", "avformat/sps_avformat_flvenc.cpp"), ("tag parser", "avformat/sps_avformat_flvdec.cpp")])

p("P04", "FLV demuxing yields the same packets for every segmentation and truncation",
  """For any well-formed FLV byte stream the demuxer delivers the same packet sequence (equal to an independent
  parse of the stream) however the transport splits the bytes. When the stream is cut at any byte it delivers exactly
  the packets that are complete before the cut and then an error, never a partial or invented packet.""",
  ["inputs", "schedules", "crash_points"], "every FLV stream, every segmentation, every truncation point",
  "The tests read one file through one file reader.",
  ["avformat/sps_avformat_flvdec.cpp", "io/sps_io_bytes.cpp"],
  [("acquire before every read of a tag", "avformat/sps_avformat_flvdec.cpp")])

p("P05", "Hostile media input never corrupts memory, crashes, hangs or leaks stale memory",
  """Whatever bytes arrive as FLV, MPEG-TS, RTP (H.264, AAC, TS payloads), RTCP, ADTS AAC or H.264, parsing them never
  reads or writes outside the bytes received or freed memory, never aborts the process, always terminates, and
  what it reports depends only on those bytes (never on uninitialised memory).""",
  ["inputs"], "every byte string, in particular mutations of valid streams",
  "The tests only feed well-formed sample data.",
  ["avformat/sps_avformat_flvdec.cpp", "avformat/sps_avformat_ts.cpp", "avformat/sps_avformat_rtpdec.cpp",
   "avformat/sps_avformat_rtpdec_rtcp.cpp", "avformat/sps_avformat_rtpdec_h264_hevc.cpp",
   "avcodec/sps_avcodec_aac_parser.cpp", "avcodec/sps_avcodec_h264_parser.cpp"],
  [("length checks before reads", "avformat/sps_avformat_ts.cpp")])

p("P06", "MPEG-TS demuxing recovers exactly the elementary streams that were muxed",
  """For a well-formed transport stream (PAT, PMT, PES over 188-byte packets with any legal adaptation stuffing, any
  interleaving of the PIDs' packets and null packets; sections fit one packet, PES up to 1 MiB) the demuxer delivers, per elementary stream and in order, exactly the
  H.264 access-unit bytes and AAC frames that were muxed, with the PES timestamps, independent of how many TS packets each
  PES spans. A PES is delivered once it is complete or the next one on its PID starts.""",
  ["inputs", "histories"], "every PES size, stuffing, interleaving and PID assignment",
  "No stable test demuxes a transport stream end to end.",
  ["avformat/sps_avformat_ts.cpp", "avformat/sps_avformat_tsdec.cpp", "avformat/sps_avformat_ts.hpp"],
  [("PSI and PES reassembly", "avformat/sps_avformat_ts.cpp")])

p("P07", "RTP H.264 depacketization restores the exact NAL units",
  """From RTP packets carrying H.264 as single NAL units, STAP-A aggregates and FU-A fragments (or STAP-B, MTAP and FU-B with the
  units in decoding order) in sequence order without loss, the receiver delivers exactly the slice, IDR and SEI NAL units the sender packetized (up to 1 MiB each), in order, byte for byte, with the RTP
  timestamp of their packets, and a configuration record for an SPS; CSRC lists, header extensions, padding and RTCP packets in between never
  leak into the payload or disturb it.""",
  ["inputs", "histories"], "every NAL size and packetization choice",
  "RTP::H264 feeds a few fixed packets and checks return codes only.",
  ["avformat/sps_avformat_rtpdec.cpp", "avformat/sps_avformat_rtpdec_h264_hevc.cpp"],
  [("FU reassembly", "avformat/sps_avformat_rtpdec_h264_hevc.cpp"), ("RTP header decode", "avformat/sps_avformat_rtpdec.cpp")])

p("P08", "RTP AAC and RTCP packets are decoded to exactly what was sent",
  """From RTP packets carrying AAC access units behind AU headers the receiver delivers exactly those access units in
  order. RTCP packets (SR, RR with up to 31 blocks, SDES chunks with their first item) decode to exactly the fields they carry; BYE and APP
  are accepted; truncated ones are refused without reading outside the packet.""",
  ["inputs"], "every AU count and size, every RTCP field value and block count",
  "RTP::AAC feeds fixed packets and checks return codes only.",
  ["avformat/sps_avformat_rtpdec_aac.cpp", "avformat/sps_avformat_rtpdec_rtcp.cpp"],
  [("AU header parsing", "avformat/sps_avformat_rtpdec_aac.cpp"), ("RTCP block decoders", "avformat/sps_avformat_rtpdec_rtcp.cpp")])

p("P09", "ADTS AAC parsing is exact",
  """A buffer of ADTS frames is split into exactly its raw AAC frames, in order; the decoder configuration is emitted
  first and whenever it changes and equals the two-byte AudioSpecificConfig of the ADTS header's profile, sampling
  index and channel count; a frame whose declared length exceeds the data is an error, not an over-read.""",
  ["inputs", "histories"], "every profile/rate/channel combination, frame size, CRC presence and change point",
  "No test covers the parser.",
  ["avcodec/sps_avcodec_aac_parser.cpp"], [("ADTS header decode", "avcodec/sps_avcodec_aac_parser.cpp")])

p("P10", "H.264 Annex-B to AVC conversion is exact",
  """Annex-B input (3- and 4-byte start codes, any NAL sizes) is converted to exactly its slice, IDR and SEI NAL units with big-endian
  length prefixes, in order; the decoder configuration record (laid out as ISO/IEC 14496-15 says, with the profile, compatibility and level bytes
  of the SPS) carries exactly the (last) SPS and PPS of the access unit, and key frames are flagged exactly when an IDR slice is present. Malformed input is refused without reading outside it.""",
  ["inputs", "histories"], "every NAL sequence and start-code form",
  "No test covers the parser.",
  ["avcodec/sps_avcodec_h264_parser.cpp"], [("start-code scan and NAL encoding", "avcodec/sps_avcodec_h264_parser.cpp")])

p("P11", "A late joiner gets the current headers, then the stream from the last key frame",
  """A player that joins a live stream at any moment first gets the metadata and the latest audio and video sequence headers (in this order),
  then every media packet from the most recent video key frame on (nothing before the first one), in publish order and without gaps or repeats,
  followed by the live packets. The raw TS cache instead starts at the most recent packet that starts a PES.""",
  ["histories", "schedules"], "every publish history and every join point in it",
  "No test covers the stream cache; CACHE::CREATE exercises a bare buffer.",
  ["avformat/sps_avformat_cache.cpp", "module/stream/sps_stream_cache.cpp", "cache/sps_cache.hpp"],
  [("GOP cache", "avformat/sps_avformat_cache.cpp"), ("snapshot on subscribe", "cache/sps_cache.hpp")])

p("P12", "Live fan-out delivers every packet exactly once, in order, to every player",
  """Between joining and leaving, every player of a stream gets every packet the publisher sends exactly once, in order and
  unchanged, and the payload one player consumes is not altered by any other. Players joining, leaving or vanishing at any time never affect what the
  others get; a player that left gets nothing more.""",
  ["histories", "schedules"], "every interleaving of publish, join, leave, abandon and read",
  "CACHE::CREATE has one publisher and one scheduled subscriber.",
  ["cache/sps_cache.hpp", "avformat/sps_avformat_cache.cpp", "module/stream/sps_stream_cache.cpp"],
  [("publisher/subscriber sets", "cache/sps_cache.hpp")])

p("P13", "A waiting player is woken by the next packet and gives up at its timeout",
  """A player waiting on an empty stream is resumed by the next published packet (no wake-up is lost, however publishes
  and waits of any number of players interleave) and returns an error after its timeout, not before, when nothing is published.""",
  ["schedules"], "every interleaving of waiters, publishers and timeouts",
  "SYNC::CREATE has one waiter and one signal.",
  ["cache/sps_cache.hpp", "sys/st/sps_sys_st_sync.hpp", "module/stream/sps_stream_cache.cpp"],
  [("condition wait with timeout", "sys/st/sps_sys_st_sync.hpp")])

p("P14", "A stream published over HTTP reaches HTTP players bit exact",
  """What a client publishes to the server over HTTP as FLV is delivered to every HTTP-FLV player of the same stream as a valid FLV
  stream with the same tags: type, timestamp and payload, in order, without loss, from its join point on.""",
  ["inputs", "schedules", "histories"], "every media payload, number of players, join time and TCP segmentation",
  "No test starts the server.",
  ["module/http/sps_http_stream_phase_handler.cpp", "module/stream/sps_stream_handler.cpp", "module/stream/sps_stream.cpp",
   "module/stream/sps_stream_cache.cpp", "avformat/sps_avformat_flvdec.cpp", "avformat/sps_avformat_flvenc.cpp"],
  [("publish and play handlers", "module/stream/sps_stream_handler.cpp")])

p("P15", "At most one publisher per stream; the name is free again when it leaves",
  """While a stream is being published, every further attempt to publish under the same name is refused and
  does not disturb the running stream. Once the publisher has left, for whatever reason, the same name can be
  published again.""",
  ["histories", "schedules", "fault_sequences"], "every order of publish attempts, disconnects and re-publishes",
  "No test starts the server.",
  ["module/stream/sps_stream.cpp", "module/stream/sps_stream_handler.cpp", "module/stream/sps_stream_cache.cpp"],
  [("stream cache registry", "module/stream/sps_stream_cache.cpp")])

p("P16", "Streams are isolated: a player only ever gets the stream it asked for",
  """A player receives packets of exactly the stream whose virtual host and path it requested, never of another
  stream, however many streams run at once and however their names resemble one another.""",
  ["histories", "inputs"], "every set of host/path names and concurrent streams",
  "No test starts the server.",
  ["module/stream/sps_stream_cache.cpp", "module/stream/sps_stream.cpp", "module/http/sps_http_stream_phase_handler.cpp"],
  [("stream key", "module/stream/sps_stream_cache.cpp")])

p("P17", "Unknown hosts, missing streams and forbidden publishes are refused",
  """A request for a host no server block configures, a play request for a stream nobody publishes, and a publish to a
  host whose configuration does not allow it all get an HTTP error status (404, 404, 403) and have no effect on
  any stream.""",
  ["configurations", "histories"], "every configuration and request",
  "No test starts the server.",
  ["module/http/sps_http_phase_handler.cpp", "module/http/sps_http_stream_phase_handler.cpp", "module/host/sps_host_phase_handler.cpp"],
  [("phase handlers", "module/host/sps_host_phase_handler.cpp")])

p("P18", "An edge pulls each stream once from its origin and shares it",
  """All players of one stream on an edge share a single pull from the origin (at most one at a time per stream) and get the origin's packets
  unchanged and in order. When a pull fails its players get an error (404); after a failed pull, or once the origin has ended the stream, a later player
  triggers a fresh pull.""",
  ["histories", "schedules", "fault_sequences"], "every order of player arrivals, departures and origin failures",
  "No test starts the server.",
  ["module/stream/sps_stream_edge.cpp", "module/stream/sps_stream.cpp"],
  [("edge coroutine and shared cache", "module/stream/sps_stream_edge.cpp")])

p("P19", "HTTP heads are parsed exactly for every segmentation, within a limit",
  """A well-formed request or response head (CRLF lines, up to 2048 bytes, lengths up to 63 bits) is parsed to exactly its method, path, query,
  status, and header names and values, whatever TCP segmentation delivers it, and no byte behind it is lost. A malformed, cut-off or over-long head is
  refused with an error; nothing read ever exceeds the buffer.""",
  ["inputs", "schedules"], "every head and every segmentation",
  UT + " (HTTP_REQUEST::CREATE) delivered in one piece.",
  ["module/http/sps_http_parser.cpp", "module/http/sps_http_socket.cpp"], [("incremental head parsing", "module/http/sps_http_parser.cpp")])

p("P20", "HTTP body framing is decoded exactly",
  """The body a reader gets from an HTTP message is exactly the bytes the sender framed (Content-Length, also above 2 GiB, or chunked, any
  chunk sizes, or until the connection ends) and ends exactly where the framing says, whatever the segmentation and read sizes; a truncated or malformed
  framing is an error, never foreign bytes and never taken for a whole body.""",
  ["inputs", "schedules"], "every body, chunking and segmentation",
  UT + " (HTTP_RESPONSE::CREATE).",
  ["module/http/sps_http_socket.cpp", "module/http/sps_http_parser.cpp", "io/url/sps_io_url_http.cpp"],
  [("chunked reader state", "module/http/sps_http_socket.cpp")])

p("P21", "HTTP responses and requests are written with valid framing",
  """Everything written through an HTTP response or client request is a syntactically valid HTTP/1.1 message whose head carries the status
  and headers set (a request exactly one Host), and whose body, de-framed, is exactly the bytes written, in order; a failing transport is reported.""",
  ["inputs", "histories"], "every header set and sequence of writes",
  UT + ".",
  ["module/http/sps_http_socket.cpp", "io/url/sps_io_url_http.cpp"], [("chunked writer", "module/http/sps_http_socket.cpp")])

p("P22", "The HTTP proxy relays status, headers and body unchanged",
  """A request to a proxied host (pass_proxy an address or the name of an upstream block) reaches the upstream with the client's method, path, query,
  headers and exact body, and the client gets the upstream's status, headers and exact body, whatever its size, framing or segmentation (heads up to 2048 bytes). When the upstream
  fails the client gets a 5xx or a closed connection, never a broken-off body that looks complete; nor does a request that breaks off inside its body reach the upstream as a whole one.""",
  ["inputs", "schedules", "fault_sequences"], "every upstream response",
  "No test starts the server.",
  ["module/http/sps_http_proxy_phase_handler.cpp", "io/url/sps_io_url_http.cpp"], [("proxy phase", "module/http/sps_http_proxy_phase_handler.cpp")])

p("P23", "Keep-alive connections answer every request once, in order",
  """On one connection, requests sent one after another or pipelined get exactly one response each, in request order, and
  bytes of one message are never taken for another; the body (up to 1 MiB) of a request that is refused is skipped. (A publish owns its connection.)""",
  ["histories", "schedules"], "every sequence of requests and segmentation on a connection",
  "No test starts the server.",
  ["module/http/sps_http_phase_handler.cpp", "module/http/sps_http_socket.cpp", "module/server/sps_server_handler.cpp"],
  [("connection loop", "module/server/sps_server_handler.cpp")])

p("P24", "Requests are routed to the right virtual host",
  """A host name selects the host block with exactly that name, else the wildcard block '*.rest' that covers its first label, else the default
  block, else none; server blocks of one port are merged and the global hosts are part of every server; two blocks for the same name are refused.""",
  ["configurations", "inputs"], "every set of host blocks and every name",
  "CONFIG::UPSTREAM loads one configuration.",
  ["module/host/sps_host_module.cpp"], [("host router", "module/host/sps_host_module.cpp")])

p("P25", "Configuration files mean what they say, or are refused",
  """Every option written in a configuration file takes the written value in its block (the last one when written twice), inherits its parent's value or default otherwise;
  comments, white space and unknown options change nothing; unknown blocks, unterminated lines and unbalanced blocks are refused, and no
  input crashes the parser.""",
  ["configurations", "inputs"], "every configuration text",
  "CONFIG::UPSTREAM loads one configuration.",
  ["module/sps_module.cpp", "module/sps_module_opt.cpp"], [("tokenizer and option setters", "module/sps_module.cpp")])

p("P26", "URLs are parsed to exactly their parts",
  """A URL scheme://host[:port]/path[?query] parses to exactly its scheme, host, port (the scheme's default when absent), path,
  extension and query parameters; malformed ones are refused and none crashes the parser.""",
  ["inputs"], "every URL",
  "URL tests need the internet and do not run.",
  ["io/url/sps_io_url.cpp"], [("URL parser", "io/url/sps_io_url.cpp")])

p("P27", "TCP connections carry bytes exactly, and time out instead of blocking for ever",
  """Bytes written to a TCP connection arrive exactly once and in order in both directions however many connections share the process and
  however slowly the peer reads; a read or write that makes no progress returns a timeout error after its
  timeout, not before; a closed or broken peer and a refused port give an error; a port is listened on once
  unless it is shared, and again as soon as its listener is gone; the addresses reported for a connection are its own and its peer's.""",
  ["schedules", "fault_sequences", "inputs"], "every size, pacing and failure of the peer",
  "CO/SYNC tests do no I/O of this kind.",
  ["sys/st/io/sps_sys_st_io_tcp.cpp", "io/sps_io_socket.cpp"], [("libst I/O wrappers", "sys/st/io/sps_sys_st_io_tcp.cpp")])

p("P28", "TLS connections carry bytes exactly",
  """Bytes written to a TLS (1.2) connection arrive exactly once and in order in both directions, whatever the
  record sizes and segmentation; altered or broken-off ciphertext is never delivered as data. The certificate shown is that of the host the client
  names (SNI), else the server's; without either the handshake is refused. A client that stalls or breaks the handshake or the connection affects only itself and is let go after the
  handshake timeout; reads and writes end at their timeouts, and connections that ended leave nothing behind.""",
  ["schedules", "fault_sequences", "inputs"], "every size, pacing and failing handshake",
  "SSL tests need the internet and do not run.",
  ["sys/st/io/sps_sys_st_io_ssl.cpp"], [("SSL BIO pumping", "sys/st/io/sps_sys_st_io_ssl.cpp")])

p("P29", "UDP datagrams reach the session of their sender, whole",
  """Each datagram sent to a UDP server reaches exactly the session of its source address, whole (up to 65507 bytes) and in arrival order (a session that is not
  read keeps its first 4000), and an answer goes to that address only; a read into a buffer too small for the datagram is refused, a read without datagrams times out; a session closed and reopened starts afresh;
  a port that another socket has is refused.""",
  ["schedules", "inputs"], "every set of peers and datagram sizes",
  "UDP::SERVER waits for ever and is left out.",
  ["sys/st/io/sps_sys_st_io_udp.cpp"], [("session map", "sys/st/io/sps_sys_st_io_udp.cpp")])

p("P30", "SRT stream ids select host, stream and mode as written",
  """An SRT stream id of the documented form '#!::key=value,key=value,...' (items in any order, the last with or without a comma behind it, unknown keys
  ignored, '=' allowed in values) selects exactly the host, path and query of its h item (with or without 'srt://'); it plays exactly if its m item is
  'request' and publishes otherwise. Ids of another form or without an h item are refused, never taken for some other stream.""",
  ["inputs"], "every stream id",
  "No test covers SRT.",
  ["module/srt/sps_srt_server_handler.cpp"], [("stream id parser", "module/srt/sps_srt_server_handler.cpp")])

p("P31", "The server survives hostile clients and releases what they used",
  """Whatever bytes, stalls, floods and disconnects clients and upstreams produce, the server keeps running and keeps serving others unchanged, reports no
  memory error, ends the connections of peers that stall after the configured timeouts (upstreams: 10 s) and not those of peers that pause for less, bounds what it takes of endless uploads, and after they have gone holds
  no connection (file descriptor) and no memory of theirs.""",
  ["inputs", "fault_sequences", "schedules"], "every client behaviour",
  "No test starts the server.",
  ["module/server/sps_server.cpp", "module/server/sps_server_handler.cpp", "module/http/sps_http_phase_handler.cpp"],
  [("connection coroutine lifecycle", "module/server/sps_server.cpp")])

p("P32", "RTMP command messages decode to exactly the values they carry",
  """Connect, createStream, play, publish, releaseStream and FCPublish messages in any legal AMF0 encoding decode to exactly the transaction id, strings, type and
  properties they carry; messages cut off anywhere, with a value missing or of another type are refused, and damaged ones are either refused or decoded, without reading outside
  the message.""",
  ["inputs"], "every command message and mutation of it",
  "No test covers RTMP packets.",
  ["avformat/sps_avformat_librtmp_packet.cpp"], [("AMF decode per command", "avformat/sps_avformat_librtmp_packet.cpp")])

p("P33", "Log messages come out as formatted, whatever they contain",
  """A logged message appears once, on its own line with a time stamp, with its text exactly as formatted up to the fixed limit of 4095 bytes, whatever it
  contains: '%' in values that come from peers never changes it or reads other memory, and messages beyond the limit are cut, not lost and not overflowing.""",
  ["inputs"], "every message text",
  "No test looks at the log.",
  ["log/sps_log.cpp"], [("console log", "log/sps_log.cpp")])

p("P34", "Coroutines run exactly once, and their resources live exactly as long as needed",
  """Every started coroutine whose object is still owned when it is first scheduled runs on_start, handler and on_stop exactly once in this order, with its object alive
  throughout and freed exactly once after it; one whose object was released earlier never runs and is freed once; context ids of running coroutines are
  unique; whatever the order of start, release and scheduling.""",
  ["schedules"], "every interleaving of coroutine start, stop, drop and yield",
  "CO::CREATE starts coroutines once and keeps them.",
  ["sys/st/sps_sys_st_co.cpp", "sys/sps_sys_co.hpp"], [("coroutine wrapper", "sys/st/sps_sys_st_co.cpp")])

p("P35", "SRT connections carry bytes exactly and honour timeouts",
  """Over SRT connections, accepted or opened, every byte written arrives once and in order in both directions, whatever the sizes of reads and writes and
  however slow the peer; all that the peer sent and had acknowledged before it closed is given to the reader before the end is told; reads and writes
  that cannot proceed fail with the timeout error, not before their timeout, and leave the connection usable; the address of the peer is told as it is; every
  connection made is accepted; an accept that fails gives no connection; connecting to a port where nobody listens fails in time.""",
  ["inputs", "schedules", "fault_sequences"], "every segmentation, schedule, ending and timeout",
  "No test covers SRT.",
  ["sys/st/io/sps_sys_st_io_srt.cpp", "io/sps_io_socket.cpp"],
  [("read, write, accept and epoll dispatch over libsrt", "sys/st/io/sps_sys_st_io_srt.cpp")])

p("P36", "A transport stream published over SRT reaches SRT and HTTP players exactly",
  """A stream published over SRT is given to every SRT player of its name as exactly the transport stream packets published, in order, and to every HTTP player
  of the name with '.flv' as the FLV tags its elementary streams amount to, each once the next PES packet of its stream has begun, with the times of the transport
  stream. Players that join later first get the last PAT and PMT and everything since the last PES start (SRT), or the headers and everything since the last key
  frame (HTTP). A second publisher of the name, over either protocol, is refused and disturbs nobody; players of names nobody publishes, unknown hosts and ids that
  name no stream are closed without a byte; when the publisher leaves everything it had sent still arrives, the name can be used again and the players are
  let go; what SRT connections used is given back, however they end.""",
  ["inputs", "schedules", "histories"], "every transport stream, order of joins and leaves, and ending",
  "No test runs the server or SRT.",
  ["module/srt/sps_srt_stream_handler.cpp", "module/srt/sps_srt_server_handler.cpp", "module/stream/sps_stream_cache.cpp", "avformat/sps_avformat_tsdec.cpp"],
  [("SRT publish and play", "module/srt/sps_srt_stream_handler.cpp"), ("raw TS cache", "avformat/sps_avformat_cache.cpp")])

p("P37", "HTTPS carries streams and proxied exchanges exactly as HTTP does",
  """Over TLS, live publishing, playing and proxying behave exactly as in the clear, in any mix: every player gets the published stream from its join point to its end, every
  proxied exchange arrives unchanged in both directions, whatever the sizes of TLS records and writes. Every client is given the certificate of the host it names (SNI), or the
  server's where it names none, an unknown one, or one without a certificate. Peers that break off or violate the TLS handshake or the records, talk plain HTTP to the TLS
  port, or stay silent disturb nobody else, and what TLS connections used (memory, descriptors) is given back, however they end.""",
  ["inputs", "schedules", "histories"], "every mix of TLS and plain peers, record sizes, and ending",
  "The tests do not open a TLS connection; a fragment, shutdown or error path in the BIO pump shows only under traffic.",
  ["sys/st/io/sps_sys_st_io_ssl.cpp", "module/server/sps_server.cpp", "module/http/sps_http_server.cpp"],
  [("TLS handshake, read, write over memory BIOs; certificate selection", "sys/st/io/sps_sys_st_io_ssl.cpp"), ("certificates of the hosts", "module/server/sps_server_module.cpp")])

p("P38", "A transport stream inside RTP gives exactly its elementary streams' packets",
  """The RTP demuxer, given MPEG-TS in RTP datagrams of 1 to 7 packets, delivers exactly the packets that the transport stream carries, with their bytes, times and key flags, as the TS
  demuxer gives them from the packets alone: whatever the marker bit, CSRC list, header extension, padding, time stamps, sequence start and RTCP datagrams in between, and
  however the datagrams cut the stream.""",
  ["inputs", "histories"], "every transport stream and way of putting it into RTP",
  "The RTP test replays one recorded H.264 session; none carries a transport stream.",
  ["avformat/sps_avformat_rtpdec.cpp", "avformat/sps_avformat_rtpdec_ts.cpp", "avformat/sps_avformat_tsdec.cpp", "avformat/sps_avformat_rtp.cpp"],
  [("RTP payload dispatch", "avformat/sps_avformat_rtpdec.cpp")])

p("P39", "A server serves exactly what its configuration says, or does not start",
  """A server started with a valid configuration listens on exactly the configured ports with the configured transport (HTTP over TCP, TLS or SRT; an SRT and a TCP port of one number are two), and on each of them answers a request for a host name with the host block of
  exactly that name, else the wildcard over its first label, else the default, else 404: blocks of all servers that share the port and of the global hosts count, and none of
  another port. A file with a syntax error, an unknown block or transport, a block where it must not be, a host configured twice for one port, one port with two transports, a missing file or a port that is taken ends the start with an
  error status: no part of such a configuration is served, and the process ends without a memory error.""",
  ["inputs", "histories"], "every configuration of servers, ports, hosts and upstreams",
  "The configuration tests parse one file and start nothing.",
  ["main/sps_main_sps.cpp", "module/sps_module.cpp", "module/root/sps_root_module.cpp", "module/server/sps_server_module.cpp", "module/host/sps_host_module.cpp",
   "module/http/sps_http_module.cpp", "util/sps_util_typedef.hpp"],
  [("start-up", "main/sps_main_sps.cpp"), ("servers and their ports", "module/server/sps_server_module.cpp"), ("host lookup", "module/host/sps_host_module.cpp")])

p("P40", "With FFmpeg, players get the published packets in the container they ask for",
  """In a server built with FFmpeg (publishers and players of any container that libavformat knows), a player that asks for a running stream with any extension gets, in that container, exactly the
  stream's audio and video packets: of each stream a contiguous run up to the last packet published, with the published bytes, the published times up to one constant
  shift and the resolution of the container, and the key flags. With video the run starts at a key frame: the latest one that the server had received
  when the player came, or a later one not yet received then; audio starts at the same time. The container found in the data counts, not the publisher's extension. When the publisher leaves, the
  player is let go after the last packet. Joins, leaves and packets of other streams change nothing of this. Clips whose packets libavformat itself cannot carry from the one container to the
  other are outside.""",
  ["inputs", "schedules", "histories"], "every clip, pair of containers, number of players and time they join",
  "No test builds or runs the FFmpeg mode.",
  ["avformat/sps_avformat_ffmpeg_dec.cpp", "avformat/sps_avformat_ffmpeg_enc.cpp", "avformat/sps_avformat_ffmpeg.cpp", "module/stream/sps_stream.cpp", "module/stream/sps_stream_cache.cpp"],
  [("demuxing through libavformat", "avformat/sps_avformat_ffmpeg_dec.cpp"), ("muxing through libavformat", "avformat/sps_avformat_ffmpeg_enc.cpp"), ("encoder of a player", "module/stream/sps_stream.cpp")])

p("P41", "With FFmpeg, no peer makes the server crash, leak or open things of its own",
  """Whatever a publisher sends to a server built with FFmpeg (damaged or odd containers, playlists and descriptions that name files and places, noise), and whatever extension a player asks a stream in,
  the server keeps running without memory errors or undefined behaviour, opens no file, connection or socket because of it, creates no file, and serves to nobody what was not published to it; other streams are
  served as if nothing had happened; and when these peers are gone, their descriptors and memory are given back.""",
  ["inputs", "schedules", "histories"], "every sequence of publishers, players, bytes and extensions",
  "No test builds or runs the FFmpeg mode.",
  ["avformat/sps_avformat_ffmpeg_dec.cpp", "avformat/sps_avformat_ffmpeg_enc.cpp", "avformat/sps_avformat_ffmpeg.cpp", "module/stream/sps_stream_handler.cpp"],
  [("demuxing through libavformat", "avformat/sps_avformat_ffmpeg_dec.cpp"), ("muxing through libavformat", "avformat/sps_avformat_ffmpeg_enc.cpp")])
