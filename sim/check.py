"""Entry point.

  check.py <PROP>            run the seeded search (VERIF_SEED, VERIF_TIER)
  check.py replay <file>     reproduce a recorded violation exactly
  check.py one <PROP> <run>  execute one run of the search and show its log
"""
import json
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"  # never read stale bytecode either
sys.path.insert(0, HERE)

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"

import core  # noqa: E402


def spec_for(prop):
    import props_lib

    table = dict(props_lib.SPECS)
    for mod in ("props_web", "props_misc", "props_page"):
        if os.path.exists(os.path.join(HERE, mod + ".py")) and prop not in table:
            table.update(__import__(mod).SPECS)
    return table[prop]()


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    args = [a for a in argv if not a.startswith("--")]
    for a in argv:
        if a.startswith("--tier="):
            tier = a[7:]
        if a.startswith("--seed="):
            seed = int(a[7:])
    if args[0] == "replay":
        with open(args[1]) as f:
            doc = json.load(f)
        spec = spec_for(doc["property"])
        spec.prepare("quick")
        out = core.run_one(spec.execute, doc["plan"], spec.timeout, True)
        for line in out.get("log", []):
            print("  ", line[:300])
        print(out["status"], out.get("cls", ""), out.get("msg", ""))
        same = out.get("hash") == doc["hash"]
        print("event log identical to the recorded one:", same)
        if out["status"] == "violation":
            print(f"VIOLATION property={doc['property']} replay={args[1]}")
            return 1
        return 0 if out["status"] in ("ok", "inconclusive") else 2
    if args[0] == "one":
        spec = spec_for(args[1])
        spec.prepare(tier)
        for p in spec.plans(tier, seed):
            if p["run"] == int(args[2]):
                print(json.dumps(p))
                out = core.run_one(spec.execute, p, spec.timeout)
                for line in out.pop("log", []):
                    print("  ", line[:300])
                print(json.dumps(out, indent=1))
                return 0
    return core.search(args[0], spec_for(args[0]), tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        sys.exit(2)
