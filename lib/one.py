#!/usr/bin/env python3
"""one.py PID SEED CASE: one case of a server check, alone"""
import importlib, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props, srv
pid, seed, case = sys.argv[1], sys.argv[2], int(sys.argv[3])
m = importlib.import_module(props.P[pid]["module"])
b = build.build("asan", props.P[pid]["bins"])
if hasattr(m, "setup"):
    m.setup(b, seed, 48)
c = srv.Ctx(0, b[props.P[pid]["bins"][0]], pid)
try:
    m.CASES[pid](c, random.Random(f"{seed}/{pid}/{case}"), case)
    if c.server:
        c.server.check()
    print("ok", c.counters)
except srv.Violation as e:
    print(type(e).__name__, e.key, e.msg)
    if c.server:
        print("\n".join(l for l in c.server.log().split("\n") if "no pending connection" not in l)[-5000:])
finally:
    c.drop()
