import argparse
import sys


def main():
    ap = argparse.ArgumentParser(prog="simcalk")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier")
    c.add_argument("--seed", type=int)
    c.add_argument("--runs", type=int)
    c.add_argument("--budget", type=float)
    r = sub.add_parser("replay")
    r.add_argument("file")
    o = sub.add_parser("one")
    o.add_argument("prop")
    o.add_argument("index", type=int)
    o.add_argument("--seed", type=int, default=1)
    o.add_argument("--show", action="store_true")
    t = sub.add_parser("selftest")
    t.add_argument("--quick", action="store_true")
    t.add_argument("--emit", action="store_true")
    a = ap.parse_args()
    from . import driver

    if a.cmd == "check":
        sys.exit(driver.check(a.prop.upper(), a.tier, a.seed, a.runs, a.budget))
    if a.cmd == "replay":
        sys.exit(driver.replay(a.file))
    if a.cmd == "one":
        import json
        import random
        import shutil
        import tempfile

        from . import env
        from .runner import Ctx

        env.bootstrap()
        mod = driver.load(a.prop)
        plan = mod.gen(random.Random(driver.seed_for(a.seed, a.prop.upper(), a.index)), "quick", a.index)
        if a.show:
            print(json.dumps(driver.trim(plan), indent=1, default=str))
        d = tempfile.mkdtemp(prefix="simcalk.")
        try:
            out = driver.run_plan(mod, Ctx(d), plan)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for v in out["viol"]:
            print("VIOL", v["kind"], v["detail"])
        if out.get("error"):
            print(out["error"])
        print(out["digest"], out["stats"])
    if a.cmd == "selftest":
        from . import selftest

        sys.exit(selftest.main(a.quick, a.emit))


if __name__ == "__main__":
    main()
