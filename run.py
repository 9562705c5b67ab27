#!/usr/bin/env python3
"""run.py check <property> [--tier quick|thorough]   decide one property on /repo's current tree
   run.py replay <file>                              re-run a reported violation
   run.py verus <property>                           only the deductive part, verbose
   run.py setup                                      warm the build cache"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vp import check as C


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a[0] == "check":
        sys.exit(C.check(a[1], tier, seed))
    if a[0] == "replay":
        sys.exit(C.replay(a[1]))
    if a[0] == "verus":
        from proofs import registry
        from vp import verus
        rc = 0
        for u in registry.PROPS[a[1]].get("verus", []):
            r = verus.verify(u, a[1])
            print(f"{u.name}: proved {r.proved}\n  obligations {r.obligations} wall {r.wall:.1f}s file {r.file}")
            for l, t in r.failed:
                rc = 1
                print("  FAILED", l, "\n" + t)
            for l, t in r.undecided:
                rc = rc or 2
                print("  UNDECIDED", l, t[:3000])
            print("  vacuity ok:", r.vac_ok, " SUSPECT:" if r.vac_bad else "", r.vac_bad or "")
        sys.exit(rc)
    if a[0] == "setup":
        os.makedirs(C.BUILD, exist_ok=True)
        sys.exit(0)
    print(__doc__)
    sys.exit(2)


main()
