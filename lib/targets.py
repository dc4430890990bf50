import os
CERTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'certs')


def h(*src, **kw):
    d = {"src": ["vh_main.cpp"] + list(src)}
    d.update(kw)
    return d


TARGETS = {
    "h_io": h("h_io.cpp"),
    "h_flv": h("h_flv.cpp"),
    "h_ts": h("h_ts.cpp"),
    "h_rtp": h("h_rtp.cpp"),
    "h_fuzz": h("h_fuzz.cpp"),
    "h_cache": h("h_cache.cpp"),
    "h_co": h("h_co.cpp"),
    "spsd": {"src": ["spsd.cpp"], "server": True},
    "spsd_ff": {"src": ["spsd.cpp"], "server": True, "cflags": "-DREGS_FFMPEG"},
    "ffgen": {"src": ["ffgen.cpp"], "tool": True, "cflags": "-fno-sanitize=all -O2"},
    "h_http": h("h_http.cpp"),
    "h_conf": h("h_conf.cpp", install=True, ldflags="-Wl,--wrap=exit"),
    "h_sock": h("h_sock.cpp", cflags="-DCERT_DIR=\\\"" + CERTS + "\\\""),
    "h_rtmp": h("h_rtmp.cpp"),
    "h_log": h("h_log.cpp"),
    "h_srt": h("h_srt.cpp", ldflags="-Wl,--wrap=srt_create_socket,--wrap=srt_accept"),
    "h_codec": h("h_codec.cpp"),
}
