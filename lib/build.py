#!/usr/bin/env python3
"""Builds the harness binaries from /repo's *current working tree* with sanitizers.

Everything is compiled outside /repo (default /verif/build, git-ignored); ninja
tracks header dependencies, so an edit in /repo is always picked up.
"""
import glob, os, subprocess, sys, hashlib, shutil

REPO = os.environ.get("SPS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("SPS_BUILD", os.path.join(VERIF, "build"))

# need the patched librtmp of an empty submodule (RTMP_HOOK): cannot be compiled
# here, by /opt/vp/build.sh either
EXCLUDE = {
    "src/avformat/sps_avformat_librtmp.cpp",
    "src/avformat/sps_avformat_rtmpdec.cpp",
    "src/avformat/sps_avformat_rtmpenc.cpp",
    "src/install/sps_install_avformat.cpp",
    "src/install/sps_install_url_protocols.cpp",
    "src/io/url/sps_io_url_rtmp.cpp",
    "src/io/url/sps_io_url_rtmp_ffmpeg.cpp",
    "src/module/rtmp/sps_rtmp_module.cpp",
    "src/module/rtmp/sps_rtmp_server.cpp",
    "src/module/rtmp/sps_rtmp_server_handler.cpp",
    "src/module/rtmp/sps_rtmp_stream_handler.cpp",
}
# only part of the server binary
SERVER_ONLY = {
    "src/install/sps_install.cpp",
    "src/install/sps_install_modules.cpp",
    "src/main/sps_main_sps.cpp",
}
INC = ["", "avcodec", "avformat", "cache", "install", "io", "io/url", "log", "module",
       "module/root", "module/host", "module/http", "module/rtmp", "module/server",
       "module/srt", "module/stream", "module/upstream", "sys", "sys/st", "sys/st/io", "util"]
LIBS = ("-lst -lhttp_parser -lrtmp -lsrt -lssl -lcrypto -lavformat -lavcodec -lavdevice "
        "-lavfilter -lavutil -lswresample -lswscale -lz -lpthread -ldl")

SAN = {
    # fatal on the first report. Left out of UBSan: shift / signed overflow / alignment /
    # vptr (idioms the code base uses deliberately when it assembles big-endian fields).
    "asan": "-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero,bool,vla-bound "
            "-fno-sanitize-recover=all -fno-omit-frame-pointer",
    "plain": "",
}


def sh(s):
    return s.replace(" ", "\\ ")


def generate(cfg, targets):
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    hdr = os.path.join(d, "gen")
    os.makedirs(hdr, exist_ok=True)
    auto = ("#ifndef SPS_AUTO_HEADER\n#define SPS_AUTO_HEADER\n#define GIT_VERSION \"verif\"\n"
            "#define GIT_BRANCH \"verif\"\n#define SRT_ENABLED\n#define OPENSSL_ENABLED\n"
            "#define FFMPEG_ENABLED\n#endif\n")
    p = os.path.join(hdr, "sps_auto_header.hpp")
    if not os.path.exists(p) or open(p).read() != auto:
        open(p, "w").write(auto)
    srcs = sorted(os.path.relpath(x, REPO) for x in
                  glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    lib = [s for s in srcs if s not in EXCLUDE and s not in SERVER_ONLY]
    srv = [s for s in srcs if s in SERVER_ONLY]
    inc = " ".join(["-I" + hdr] + ["-I" + os.path.join(REPO, "src", i) for i in INC]
                   + ["-isystem /opt/vp/compat", "-I" + os.path.join(VERIF, "harness")])
    flags = f"-std=c++14 -g1 -O1 -w -fPIC -DSPS_VERIF {SAN[cfg]}"
    o = []
    o.append(f"cxx = g++\nflags = {flags} {inc}\nsan = {SAN[cfg]}\nlibs = {LIBS}\nbuilddir = {d}")
    o.append("rule cc\n command = $cxx -MMD -MF $out.d $flags $x -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CC $in")
    o.append("rule ld\n command = $cxx $san -o $out $in $x $libs\n description = LD $out")
    o.append("rule ar\n command = rm -f $out && ar crs $out $in\n description = AR $out")

    def obj(rel, root):
        ob = os.path.join(d, "o", rel.replace("/", "__") + ".o")
        return ob
    allo = []
    for s in lib:
        ob = obj(s, REPO)
        o.append(f"build {ob}: cc {os.path.join(REPO, s)}")
        allo.append(ob)
    a = os.path.join(d, "libsps.rsp")
    srvo = []
    for s in srv:
        ob = obj(s, REPO)
        o.append(f"build {ob}: cc {os.path.join(REPO, s)}")
        srvo.append(ob)
    outs = {}
    WRAPS = {
        # functions of libst / libc the monitors interpose on, per target
    }
    for t, spec in TARGETS.items():
        hs = []
        for s in spec["src"]:
            ob = os.path.join(d, "o", "h__" + t + "__" + s.replace("/", "_") + ".o")
            o.append(f"build {ob}: cc {os.path.join(VERIF, 'harness', s)}\n x = {spec.get('cflags','')}")
            hs.append(ob)
        out = os.path.join(d, t)
        part = srvo if spec.get("server") else [x for x in srvo if "src__install" in x] if spec.get("install") else []
        tool = spec.get("tool")     # nothing of the repository in it, no sanitizers
        ins = hs if tool else hs + part + allo
        o.append(f"build {out}: ld {' '.join(ins)}\n x = {spec.get('ldflags','')}" + ("\n san = " if tool else ""))
        outs[t] = out
    txt = "\n".join(o) + "\n"
    f = os.path.join(d, "build.ninja")
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, "w").write(txt)
    return d, outs


TARGETS = {}


def load_targets():
    import importlib
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import targets
    TARGETS.update(targets.TARGETS)


def build(cfg, targets, log=None):
    """returns {target: path}; raises RuntimeError when the tree does not build"""
    if not TARGETS:
        load_targets()
    d, outs = generate(cfg, targets)
    want = [outs[t] for t in targets]
    p = subprocess.run(["ninja", "-C", d, "-f", os.path.join(d, "build.ninja")] + want,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("build failed:\n" + p.stdout[-6000:])
    return {t: outs[t] for t in targets}


if __name__ == "__main__":
    cfg = sys.argv[1] if len(sys.argv) > 1 else "asan"
    load_targets()
    ts = sys.argv[2:] or list(TARGETS)
    try:
        print(build(cfg, ts))
    except RuntimeError as e:
        print(e)
        sys.exit(2)
