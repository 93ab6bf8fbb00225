#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
sys.setrecursionlimit(20000)

import lib

WHERE = {}
for _m, _ids in (("arith", "C01 C02 C03 C05"), ("arith2", "C04 C06 C07 C09"), ("root", "C08"),
                 ("conv", "C21"), ("ops", "C15 C16 C17 C32 C33 C35"), ("rel", "C18 C19"), ("rounding", "C13 C14"), ("checking", "C34"), ("platform_", "C36"), ("consts", "C37"), ("io_", "C41"), ("lim", "C44"), ("nest", "C46"), ("iface", "C38 C39"), ("effects", "C40"), ("transc", "C10 C11"), ("trig", "C12"), ("term", "C43"), ("order", "C20 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31")):
    for _i in _ids.split():
        WHERE[_i] = _m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    lib.STOP_AFTER = 400 if a.tier == "quick" else None
    try:
        mod = importlib.import_module(WHERE[a.prop])
        r = getattr(mod, a.prop)(a.tier)
        level, extra = "proof", None
        if isinstance(r, dict):
            level, extra = r.get("level", "proof"), r.get("extra")
            tasks, rule, trusted, res = r.get("tasks"), r["rule"], r["trusted"], r.get("result")
        else:
            tasks, rule, trusted = r
            res = None
        if tasks:
            res2 = lib.run_tasks(tasks)
            if res is not None:
                res2.ob += res.ob
                res2.ok += res.ok
                res2.fails += res.fails
                res2.fns |= res.fns
                res2.samples += res.samples
                res2.bad += getattr(res, "bad", [])
            res = res2
        rc = lib.finish(a.prop, a.tier, level, res, t0, rule, trusted, extra)
    except lib.Bad as e:
        print("ANALYSIS INCOMPLETE: %s" % e, file=sys.stderr)
        rc = 2
    finally:
        lib.cleanup()
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
