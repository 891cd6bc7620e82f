import importlib
import json
import os
import signal
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    from mc import fakepool, rng

    repo = os.environ.get("MC_REPO", "/repo")
    sys.path.insert(0, repo)
    warnings.simplefilter("ignore")
    rng.install()  # before PyDynamic binds anything from numpy.random
    fakepool.install()
    mod = importlib.import_module("mc.checks." + prop)
    import PyDynamic

    if not os.path.realpath(PyDynamic.__file__).startswith(os.path.realpath(repo) + os.sep):
        sys.exit("PyDynamic was imported from %s instead of %s" % (PyDynamic.__file__, repo))
    warnings.simplefilter("ignore")
    return mod


def main():
    if sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            rec = json.load(f)
        from mc import engine

        mod = load(rec["property"])
        fn = dict(mod.SCENARIOS)[rec["scenario"]]
        tag, msg, ctx = engine.replay(rec, fn)
        print("choices:")
        for n, v in ctx.values:
            print("   %-20s %s" % (n, engine._short(v, 160)))
        if tag is None:
            print("replay of %s: no violation" % sys.argv[2])
            return 0
        print("%s: %s" % (tag, msg))
        print("VIOLATION property=%s replay=%s" % (rec["property"], sys.argv[2]))
        return 1
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from mc import engine

    mod = load(prop)
    budget = 600 if tier == "quick" else 780
    return engine.run_check(
        prop, mod.TITLE, mod.SCENARIOS, tier, seed, VERIF, budget, getattr(mod, "ASSUMPTIONS", [])
    )


if __name__ == "__main__":
    sys.exit(main())
