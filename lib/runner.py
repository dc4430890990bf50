"""Runs a harness binary over a range of cases, in shards, restarting after crashes.

Everything a monitor reports (a failed assertion of the harness, a sanitizer report, a
crash, a repeated hang, a digest that depends on uninitialised memory) becomes one
Finding(key, text, replay)."""
import json, os, re, struct, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")

ASAN = ("exitcode=99:abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=0:"
        "allocator_may_return_null=1:max_allocation_size_mb=1024:handle_abort=1:"
        "print_summary=1:strict_memcmp=0:detect_odr_violation=0:check_initialization_order=0")


class Finding:
    def __init__(self, key, text, replay=None):
        self.key, self.text, self.replay = key, text, replay


class Result:
    def __init__(self):
        self.findings = []
        self.evaluations = 0
        self.cases = 0
        self.counters = {}
        self.distinct = {}
        self.nontrivial = set()
        self.samples = []
        self.notes = []


def asan_env(fill=None):
    e = dict(os.environ)
    o = ASAN
    if fill is not None:
        o += f":malloc_fill_byte={fill}:max_malloc_fill_size=4194304"
    e["ASAN_OPTIONS"] = o
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["LC_ALL"] = "C.UTF-8"
    return e


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)")


def crash_key(log):
    m = re.search(r"AddressSanitizer: ([\w-]+)", log)
    kind = m.group(1) if m else None
    if not kind and "runtime error:" in log:
        kind = "undefined-behaviour"
    if not kind and "Assertion" in log:
        kind = "assertion"
    if not kind and "terminate called" in log:
        kind = "terminate"
    if not kind:
        kind = "crash"
    where = ""
    for f in FRAME.finditer(log):
        if "/src/" in f.group(2) and "libsanitizer" not in f.group(2):
            fn = re.sub(r"\(.*", "", f.group(1))
            where = fn + "@" + os.path.basename(f.group(2))
            break
    return f"{kind}:{where}"


def one(binary, prop, seed, frm, n, tmp, tag, fill=None, deadline=None, wall=800, extra=()):
    """-> (rc, report lines, log, progress)"""
    out = os.path.join(tmp, f"{tag}.out")
    prog = os.path.join(tmp, f"{tag}.prog")
    logf = os.path.join(tmp, f"{tag}.log")
    cmd = [binary, "--prop", prop, "--seed", str(seed), "--cases", str(n), "--from", str(frm),
           "--out", out, "--progress", prog] + list(extra)
    if deadline:
        cmd += ["--deadline", str(deadline)]
    with open(logf, "wb") as lf:
        try:
            p = subprocess.run(cmd, stdout=lf, stderr=lf, env=asan_env(fill), timeout=wall, cwd=tmp)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "wall"
    lines = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                lines.append(json.loads(l))
            except ValueError:
                pass
    log = open(logf, errors="replace").read()
    case = None
    if os.path.exists(prog):
        b = open(prog, "rb").read(16)
        if len(b) == 16:
            case = struct.unpack("<Q", b[:8])[0]
    return rc, lines, log, case


def replay_file(prop, key, text, info):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    safe = re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80]
    p = os.path.join(d, f"{prop}-{safe}.txt")
    with open(p, "w") as f:
        f.write(f"property {prop}\nkey {key}\n{info}\n\n{text}\n")
    return p


def run_cases(binary, prop, seed, cases, shards=8, fills=None, deadline=None, wall=800, extra=()):
    res = Result()
    tmp = tempfile.mkdtemp(prefix="vh_")
    name = os.path.basename(binary)

    def add(key, text, case, log=""):
        info = f"rerun: build/asan/{name} --prop {prop} --seed {seed} --from {case} --cases 1 -v"
        return Finding(key, text, replay_file(prop, key, text + "\n" + log[-6000:], info))

    def shard(args):
        k, frm, n, fill = args
        fs, done, digs = [], [], {}
        end = frm + n
        tries = 0
        notes = []
        t0 = time.time()
        while frm < end and tries < 12:
            left = wall - (time.time() - t0)
            if left < 5:
                notes.append(f"shard {k} stopped at case {frm} of {end}: time limit")
                break
            rc, lines, log, case = one(binary, prop, seed, frm, end - frm, tmp, f"s{k}_{fill}_{tries}",
                                       fill, deadline, left, extra)
            for l in lines:
                if "v" in l:
                    fs.append(add(l["v"], f"case {l['case']}: {l['msg']}", l["case"], ""))
                elif "d" in l:
                    digs[l["case"]] = l["d"]
                elif "done" in l:
                    done.append(l)
            if rc == 0 and any("done" in l for l in lines):
                break
            if rc == "wall":
                notes.append(f"shard {k}: time limit reached in case {case}")
                break
            if rc == 97:
                raise RuntimeError(f"{name} does not know {prop}")
            if case is None:
                raise RuntimeError(f"{name} did not start: rc {rc}\n{log[-3000:]}")
            if rc == 98:    # a hang is inconclusive: once more, alone, with three times the time
                rc2, l2, log2, c2 = one(binary, prop, seed, case, 1, tmp, f"s{k}_{fill}_{tries}h", fill,
                                        3 * (deadline or 20), 400, extra)
                if rc2 == 98 or rc2 == "wall":
                    fs.append(add("hang", f"case {case} does not end", case, log2))
                    notes.append(f"shard {k} stopped at case {case} of {end}: it hangs")
                    break       # every further hang would cost as much again
                elif rc2 != 0:
                    fs.append(add(crash_key(log2), f"case {case} crashed (exit {rc2})", case, log2))
                else:
                    notes.append(f"case {case} exceeded its deadline once, passed when rerun")
                    for l in l2:
                        if "v" in l:
                            fs.append(add(l["v"], f"case {l['case']}: {l['msg']}", l["case"], ""))
            else:
                fs.append(add(crash_key(log), f"case {case} crashed (exit {rc})", case, log))
            frm = case + 1
            tries += 1
        return fs, done, digs, notes

    jobs = []
    fl = fills or [None]
    per = max(1, (cases + shards - 1) // shards)
    for fi in fl:
        f = 0
        k = 0
        while f < cases:
            n = min(per, cases - f)
            jobs.append((k, f, n, fi))
            f += n
            k += 1
    digests = {}
    with ThreadPoolExecutor(max_workers=min(8, shards * len(fl))) as ex:
        for (job, (fs, done, digs, notes)) in zip(jobs, ex.map(shard, jobs)):
            res.findings += fs
            res.notes += notes
            first = job[3] == fl[0]
            for l in done:
                if first:
                    res.cases += l["done"]
                    res.evaluations += l["evaluations"]
                    for a, b in l["counters"].items():
                        res.counters[a] = res.counters.get(a, 0) + b
                    for a, b in l["distinct"].items():
                        if a != "nontrivial":
                            res.distinct[a] = max(res.distinct.get(a, 0), b)
                    res.nontrivial |= set(l["nontrivial"])
                    if len(res.samples) < 6:
                        res.samples += l["samples"][:2]
            for c, d in digs.items():
                digests.setdefault(c, {})[job[3]] = d
    if len(fl) > 1:
        cmp = 0
        for c, m in sorted(digests.items()):
            if len(m) > 1:
                cmp += 1
                if len(set(m.values())) > 1:
                    res.findings.append(add("uninitialised-memory",
                        f"case {c}: the output changes with the fill pattern of fresh heap memory: {m}", c))
                    if len([x for x in res.findings if x.key == "uninitialised-memory"]) > 3:
                        break
        res.counters["cases compared across heap fill patterns"] = cmp
    shutil.rmtree(tmp, ignore_errors=True)
    return res
