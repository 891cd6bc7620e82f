"""Functions are pure: no history of calls changes what a call returns, no call changes its arguments."""
import hashlib
import os
import pickle
import signal

import numpy as np

from mc import calls, rng

TITLE = "results do not depend on the history of calls, arguments and global state stay untouched"
ASSUMPTIONS = [
    "histories alternate between one call and each of all others, every history in a fresh process",
    "equal random numbers are provided to equal calls",
]
VARIANTS = ((4, "full", 1), (4, "full", 2), (4, "diag", 1), (7, "diag", 1))
CASES = [(name,) + v for name in calls.NAMES for v in VARIANTS if v[2] == 1 and not (v[0] == 7 and name in calls.SLOW)]
FAST = [c for c in CASES if c[0] not in calls.SLOW and c[2] == ("full" if c[1] == 4 else "diag")]
FAST4 = [c for c in FAST if c[1] == 4]


def evaluate(case, seed=7):
    """result, message about a broken promise or None"""
    name = case[0]
    f, a, k = calls.build(*case) if len(case) == 4 else calls.build_variant(*case)
    before = calls.plain((a, k))
    np.geterr()
    env = env_state()
    rng.seeded(seed)
    st = rng.S.rs.get_state()
    try:
        r = f(*a, **k)
    except Exception as e:
        if len(case) == 4:
            raise
        r = ("refused", type(e).__name__)  # arguments were changed at will
    bad = None
    if calls.plain((a, k)) != before:
        bad = "changes its arguments: %s became %s" % (before, calls.plain((a, k)))
    elif rng.S.seed_calls:
        bad = "seeds the global random number generator"
    elif env_state() != env:
        bad = "changes global state: %s became %s" % (env, env_state())
    elif not calls.BY[name][1] and not state_equal(st, rng.S.rs.get_state()):
        bad = "draws random numbers"
    return r, bad


def state_equal(a, b):
    return a[0] == b[0] and a[2:] == b[2:] and a[1].tolist() == b[1].tolist()


def env_state():
    import warnings

    return sorted(np.geterr().items()), sorted((k, str(v)) for k, v in np.get_printoptions().items()), os.getcwd(), len(warnings.filters)


def in_child(fn, timeout=300):
    """fn() in a fresh copy of this process -> unpickled result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("error", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "child died")


_base = {}


def baseline(case):
    """result of the call as the first one of a fresh process"""
    if case not in _base:
        # the workers of one run share what any of them found
        folder = os.environ.get("MC_SCRATCH")
        path = folder and os.path.join(folder, "base-%s.pkl" % hashlib.sha1(repr(case).encode()).hexdigest())
        if path and os.path.exists(path):
            with open(path, "rb") as f:
                _base[case] = pickle.load(f)
        else:
            _base[case] = in_child(lambda: tuple([calls.plain(v) if i == 0 else v for i, v in enumerate(evaluate(case))]))
            if path and _base[case][0] == "ok":
                with open("%s.%d" % (path, os.getpid()), "wb") as f:
                    pickle.dump(_base[case], f)
                os.rename("%s.%d" % (path, os.getpid()), path)
    return _base[case]


def scn_single(ctx):
    """arguments, generator, global settings; repeated and reseeded"""
    case = ctx.choose("call", CASES)
    ctx.go()
    ctx.ex.transitions += 3
    tag, base = baseline(case)
    ctx.check("call", tag == "ok", "%s: %s" % (case, base))
    ctx.check("side-effect", base[1] is None, "%s %s" % (case, base[1]))
    slow = case[0] in calls.SLOW

    def again():
        r1, b1 = evaluate(case)
        r2, b2 = evaluate(case, 7 if slow else 8)
        return calls.plain(r1), calls.plain(r2), b1 or b2

    tag, res = in_child(again)
    ctx.check("call", tag == "ok", "%s: %s" % (case, res))
    ctx.check("side-effect", res[2] is None, "%s %s" % (case, res[2]))
    if case[0] in calls.UNSEEDED:
        return
    ctx.check("repeatable", calls.equal(res[0], base[0]), "%s: %s, then %s" % (case, base[0], res[0]))
    if calls.BY[case[0]][1] and not slow:
        ctx.check("random", not calls.equal(res[1], base[0], 1e-9), "%s: same result for other random numbers" % (case,))
    else:
        ctx.check("deterministic", calls.equal(res[1], base[0]), "%s: %s, then %s" % (case, base[0], res[1]))


def history(first, others, want):
    """first, o1, first, o2, ... in this process"""
    kept = []
    for o in others:
        for c in (first, o) if first else (o,):
            r, bad = evaluate(c)
            if bad:
                return "%s %s" % (c, bad)
            p = calls.plain(r)
            if c[0] not in calls.UNSEEDED and not calls.equal(p, want[c]):
                return "%s after %s: %s instead of %s" % (c, [k[0] for k in kept][-4:], p, want[c])
            kept.append((c, r, p))
            # results handed out stay what they were
            for c0, r0, p0 in kept[-6:]:
                if calls.plain(r0) != p0:
                    return "result of %s changed afterwards, when %s was called" % (c0, c)
    return None


def scn_pairs(ctx):
    """every ordered pair of calls, adjacent, in both orders"""
    among = FAST if ctx.thorough else FAST4
    first = ctx.choose("first", among)
    part = ctx.choose("part", [0, 1, 2, 3])
    ctx.go()
    others = among[part::4]
    want = {}
    for c in others + [first]:
        tag, base = baseline(c)
        ctx.check("call", tag == "ok", "%s: %s" % (c, base))
        want[c] = base[0]
    ctx.ex.transitions += 2 * len(others)
    tag, msg = in_child(lambda: history(first, others, want))
    ctx.check("history", tag == "ok" and msg is None, "%s" % (msg,))


def scn_variants(ctx):
    """one function, with arguments that have much in common"""
    name = ctx.choose("name", calls.NAMES)
    slow = name in calls.SLOW
    seq = [ctx.choose("call%d" % i, VARIANTS[:2] if slow else VARIANTS) for i in range(3 if ctx.thorough and not slow else 2)]
    ctx.go()
    seq = [(name,) + v for v in seq]
    want = {c: baseline(c)[1][0] for c in seq}
    ctx.ex.transitions += len(seq)
    tag, msg = in_child(lambda: history(None, seq, want))
    ctx.check("history", tag == "ok" and msg is None, "%s" % (msg,))


def scn_neighbours(ctx):
    """one function, with one argument changed in between"""
    case = ctx.choose("call", [c for c in FAST4 if c[0] not in calls.UNSEEDED])
    what = calls.variants(*case)
    if not what:
        ctx.prune()
    where = ctx.choose("change", what)
    ctx.go()
    seq = [case, case + where]
    want = {}
    for c in seq:
        tag, base = baseline(c)
        ctx.check("call", tag == "ok", "%s: %s" % (c, base))
        ctx.check("side-effect", base[1] is None, "%s %s" % (c, base[1]))
        want[c] = base[0]
    ctx.ex.transitions += 5
    tag, msg = in_child(lambda: history(None, seq + seq + seq[:1], want))
    ctx.check("history", tag == "ok" and msg is None, "%s" % (msg,))


ODD_SKIP = {"UMC", "UMC-low", "invLSFIR_uncMC", "invLSIIR_unc"}


def scn_odd(ctx):
    """arguments of unusual value, type and layout stay untouched, whether the call is refused or not"""
    name = ctx.choose("call", [c for c in calls.NAMES if c not in ODD_SKIP])
    sizes = [(4, "full"), (2, "diag"), (7, "full"), (4, "zero")] if ctx.thorough else [(4, "full"), (3, "diag")]
    n, uk = ctx.choose("size", sizes if ctx.thorough or name != "Signal" else sizes[:1])
    if n < 4 and name == "savitzky_golay":
        ctx.prune()
    what = calls.odd_arguments(name, n, uk, 1)
    if not what:
        ctx.prune()
    odd = [ctx.choose("odd", what)]
    if ctx.thorough and not calls.BY[name][4] and n == 4 and uk == "full":
        rest = [w for w in what[what.index(odd[0]) + 1:] if w[0] != odd[0][0]]
        w = ctx.choose("and", [None] + rest)
        odd += [w] if w else []
    ctx.go()
    ctx.ex.transitions += 2

    def twice():
        f, a, k = calls.build_odd(name, n, uk, 1, odd)
        before = calls.plain((a, k))
        env = env_state()
        res = []
        for _ in range(2):
            rng.seeded(7)
            st = rng.S.rs.get_state()
            try:
                r = calls.plain(f(*a, **k))
            except Exception as e:
                r = ("refused", type(e).__name__)
            res.append(r)
            if not calls.same_text(calls.plain((a, k)), before):
                return "changes its arguments: %s became %s" % (before, calls.plain((a, k)))
            if rng.S.seed_calls:
                return "seeds the global random number generator"
            if env_state() != env:
                return "changes global state: %s became %s" % (env, env_state())
            if not calls.BY[name][1] and not any(w[1] == "list" for w in odd) and not state_equal(st, rng.S.rs.get_state()):
                return "draws random numbers"  # (white noise is only taken from arrays)
        if ("runs", "zero") in odd:
            return None  # percentiles of no values at all
        if not calls.equal(res[0], res[1]):
            return "%s, then %s" % tuple(res)
        return None

    msg = twice()
    ctx.check("odd", msg is None, "%s with %s %s" % (name, odd, msg))


def scn_slow(ctx):
    """slow Monte Carlo functions before and after one of the others"""
    first = ctx.choose("first", [c for c in CASES if c[0] in calls.SLOW])
    other = ctx.choose("other", [c for c in CASES if c[0] in ("MC", "invLSFIR_unc", "LSIIR", "fit_som-MC", "invLSFIR_uncMC", "invLSIIR_unc") and c[1:3] == (4, "full")])
    ctx.go()
    want = {c: baseline(c)[1][0] for c in (first, other)}
    ctx.ex.transitions += 4
    tag, msg = in_child(lambda: history(first, [other], want))
    ctx.check("history", tag == "ok" and msg is None, "%s" % (msg,))


def scn_triples(ctx):
    """longer histories within families of functions"""
    if not ctx.thorough:
        fam = ctx.choose("family", ["GUM_", "MC", "interp"])
    else:
        fam = ctx.choose("family", ["GUM_", "MC", "interp", "DFT", "FIR", "corr_noise", "fit", "A", "LS", "print", "s"])
    members = [c for c in FAST if fam in c[0] and c[1] == 4][:8 if ctx.thorough else 6]
    if len(members) < 2:
        ctx.prune()
    seq = [ctx.choose("call%d" % i, members) for i in range(3)]
    ctx.go()
    want = {c: baseline(c)[1][0] for c in seq}
    ctx.ex.transitions += 4
    tag, msg = in_child(lambda: history(seq[0], seq[1:], want))
    ctx.check("history", tag == "ok" and msg is None, "%s" % (msg,))


SCENARIOS = [("single", scn_single), ("variants", scn_variants), ("neighbours", scn_neighbours), ("pairs", scn_pairs), ("slow", scn_slow), ("triples", scn_triples), ("odd", scn_odd)]  # forks get slow once a process has grown: odd is last
