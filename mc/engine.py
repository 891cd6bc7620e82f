"""Bounded-exhaustive explorer of executions of the real PyDynamic code.

A *scenario* is a deterministic driver ``fn(ctx)``.  Every decision the driver (or the
environment it simulates: random number answers, completion order of workers, next sample
of a stream, next call of a history) takes goes through ``ctx.choose``.  The explorer runs
the scenario once for every leaf of the resulting choice tree (stateless depth-first search:
a prefix of choices is replayed, the first unexplored alternative is taken, and so on), so a
finished exploration is a statement about *every* combination within the alphabets and
bounds, never a sample.

* ``ctx.choose(name, domain)``           free choice
* ``ctx.choose(name, domain, dev=True)`` deviation: ``domain[0]`` is the default answer, every
  other answer costs one unit of the scenario's deviation budget (``ctx.budget(n)``)
* ``ctx.go()``                           all choices that shape the input were made; sharding point
* ``ctx.call(f, ...)``                   one transition: a call into the code under test
* ``ctx.close / ctx.check``              comparison with the reference model

Divergence while replaying a prefix (other name or other domain size than recorded) is a hard
error of the harness (exit status 2), never a verdict.
"""
import gc
import hashlib
import json
import math
import os
import pickle
import signal
import sys
import time
import traceback

STOP_FILE = os.path.join(os.environ.get("MC_SCRATCH", "/tmp"), "stop") if os.environ.get("MC_FAILFAST") else None  # (only for mutation runs)
EXEC_TIMEOUT = 120


class Skip(Exception):
    """Execution belongs to another shard, or is pruned as meaningless by the driver."""


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, tag, msg):
        super().__init__("%s: %s" % (tag, msg))
        self.tag = tag
        self.msg = msg


class SutTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise SutTimeout()


def _short(x, n=400):
    try:
        s = repr(x)
    except Exception:  # pragma: no cover
        s = "<unprintable>"
    s = " ".join(s.split())
    return s if len(s) <= n else s[: n - 3] + "..."


def resident():
    """bytes of memory this process holds"""
    try:
        with open("/proc/self/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    except (OSError, ValueError, IndexError):
        return 0


def tolist(x):
    """numpy / matrix / sparse / scalar -> nested python lists"""
    if hasattr(x, "toarray"):
        x = x.toarray()
    if hasattr(x, "tolist"):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [tolist(e) for e in x]
    return x


def shape_of(x):
    s = []
    while isinstance(x, list):
        s.append(len(x))
        if not x:
            break
        x = x[0]
    return tuple(s)


def flat(x):
    if isinstance(x, list):
        out = []
        for e in x:
            if isinstance(e, list):
                out.extend(flat(e))
            else:
                out.append(e)
        return out
    return [x]


class Ctx:
    def __init__(self, explorer, scenario, prefix, tier):
        self.ex = explorer
        self.scenario = scenario
        self.prefix = prefix  # list of (index, size, name) to replay
        self.path = []
        self.values = []
        self.tier = tier
        self.thorough = tier == "thorough"
        self._budget = None
        self._spent = 0
        self.sharded_at = None
        self.last_call = None
        self.ncompare = 0

    # -- choices -----------------------------------------------------------------
    def budget(self, n):
        self._budget = n

    def choose(self, name, domain, dev=False):
        domain = list(domain)
        if not domain:
            raise HarnessError("empty domain for %s" % name)
        n = len(domain)
        if dev and self._budget is not None and self._spent >= self._budget:
            n = 1
        i = len(self.path)
        if i < len(self.prefix):
            idx, size, nm = self.prefix[i]
            if nm != name or size != n:
                raise HarnessError(
                    "divergence while replaying choice %d: recorded %s/%d, got %s/%d"
                    % (i, nm, size, name, n)
                )
        else:
            idx = 0
        self.path.append((idx, n, name))
        if dev and idx:
            self._spent += 1
        v = domain[idx]
        self.values.append((name, v))
        return v

    def pick(self, name, quick, more=()):
        """choose() from `quick` in the quick tier, and from quick+more in the thorough one"""
        return self.choose(name, list(quick) + (list(more) if self.thorough else []))

    def prune(self):
        raise Skip()

    def go(self):
        if self.sharded_at is None:
            self.sharded_at = len(self.path)
            if self.ex is not None and not self.ex.owned(tuple(p[0] for p in self.path)):
                raise Skip()

    # -- calls into the code under test ---------------------------------------------
    def call(self, fn, *args, **kw):
        self.go()
        if self.ex is not None:
            self.ex.transitions += 1
        self.last_call = (getattr(fn, "__name__", str(fn)), args, kw)
        try:
            return fn(*args, **kw)
        except (Skip, Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation(
                "unexpected-exception",
                "%s%s raised %s: %s\n%s"
                % (
                    self.last_call[0],
                    _short((args, kw), 600),
                    type(e).__name__,
                    _short(str(e)),
                    "".join(traceback.format_exc().splitlines(True)[-4:]),
                ),
            )

    def raises(self, exc, fn, *args, **kw):
        self.go()
        if self.ex is not None:
            self.ex.transitions += 1
        name = getattr(fn, "__name__", str(fn))
        try:
            r = fn(*args, **kw)
        except exc:
            self.ncompare += 1
            return
        except Exception as e:
            raise Violation(
                "wrong-exception",
                "%s%s raised %s: %s, expected %s"
                % (name, _short((args, kw)), type(e).__name__, e, exc),
            )
        raise Violation(
            "missing-exception",
            "%s%s returned %s, expected %s" % (name, _short((args, kw)), _short(r), exc),
        )

    # -- comparisons ---------------------------------------------------------------
    def check(self, tag, cond, info=""):
        self.ncompare += 1
        if not cond:
            raise Violation(tag, info if isinstance(info, str) else _short(info))

    def close(self, tag, got, want, rtol=1e-9, scale=None, atol=0.0, info=""):
        """|got-want| <= atol + rtol*max(scale, |want|_max) elementwise, equal shapes, all finite."""
        g = tolist(got)
        w = tolist(want)
        self.ncompare += 1
        if shape_of(g) != shape_of(w):
            raise Violation(
                tag,
                "shape %s instead of %s: got %s, expected %s %s"
                % (shape_of(g), shape_of(w), _short(g), _short(w), info),
            )
        gf = flat(g)
        wf = flat(w)
        if len(gf) != len(wf):
            raise Violation(tag, "ragged result %s expected %s" % (_short(g), _short(w)))
        m = 0.0 if scale is None else float(scale)
        for v in wf:
            a = abs(v)
            if a > m:
                m = a
        tol = atol + rtol * m
        for i in range(len(wf)):
            d = abs(gf[i] - wf[i])
            if not d <= tol:
                raise Violation(
                    tag,
                    "element %d (flat) is %r, reference model says %r (tolerance %.2g); "
                    "got %s, expected %s %s"
                    % (i, gf[i], wf[i], tol, _short(g), _short(w), info),
                )
        if self.ex is not None:
            self.ex.outcome(gf)

    def same(self, tag, got, want, info=""):
        """exact equality of values and shapes (nested lists after conversion)"""
        g, w = tolist(got), tolist(want)
        self.ncompare += 1
        if shape_of(g) != shape_of(w) or flat(g) != flat(w):
            # nan-tolerant second look
            gf, wf = flat(g), flat(w)
            if shape_of(g) == shape_of(w) and len(gf) == len(wf) and all(
                a == b or (a != a and b != b) for a, b in zip(gf, wf)
            ):
                return
            raise Violation(tag, "got %s, expected %s %s" % (_short(g), _short(w), info))
        if self.ex is not None:
            self.ex.outcome(flat(g))

    def describe(self):
        return [[n, _short(v, 200)] for n, v in self.values]


class Explorer:
    def __init__(self, prop, name, fn, tier, worker, nworkers, deadline, known):
        self.prop, self.name, self.fn, self.tier = prop, name, fn, tier
        self.worker, self.nworkers = worker, nworkers
        self.deadline = deadline
        self.known = known
        self.transitions = 0
        self.traces = 0
        self.compares = 0
        self.pruned = 0
        self.deep_nodes = 0
        self.shared_nodes = 0
        self.outcomes = set()
        self.violations = []
        self.known_hits = {}
        self.samples = []
        self.counter = -1
        self.last_key = None
        self.complete = True
        self.maxdepth = 0

    def owned(self, key):
        if key != self.last_key:
            self.last_key = key
            self.counter += 1
        return self.counter % self.nworkers == self.worker

    def outcome(self, values):
        if len(self.outcomes) < 200000:
            try:
                self.outcomes.add(hash(tuple(values)) & 0xFFFFFFFFFFFF)
            except TypeError:
                pass

    def run_one(self, prefix):
        ctx = Ctx(self, self.name, prefix, self.tier)
        status = "ok"
        viol = None
        signal.setitimer(signal.ITIMER_REAL, EXEC_TIMEOUT)
        try:
            self.fn(ctx)
            if ctx.sharded_at is None:
                ctx.go()
            if ctx.ncompare == 0:
                raise HarnessError("execution without any comparison: %r" % (ctx.values,))
        except Skip:
            status = "skip"
        except Violation as v:
            status, viol = "violation", (v.tag, v.msg)
        except SutTimeout:
            status, viol = "violation", (
                "no-termination",
                "no answer within %d s: %s" % (EXEC_TIMEOUT, _short(ctx.last_call)),
            )
        except HarnessError:
            raise
        except Exception as e:
            # on the unchanged tree no execution gets here; the oracle stumbled over
            # something the code under test returned
            status, viol = "violation", (
                "uncomparable-result",
                "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]),
            )
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return ctx, status, viol

    def explore(self):
        path = []
        prev = None
        rounds, held = 0, resident()
        while True:
            ctx, status, viol = self.run_one(path)
            rounds += 1
            if rounds % 8 == 0 and status != "skip" and resident() > held + (400 << 20):
                gc.collect()  # the interpreter does not see the memory of numpy's arrays
                held = resident()
            if len(ctx.path) < len(path):
                if status != "violation":
                    raise HarnessError("divergence: recorded prefix not consumed")
            key = tuple(p[0] for p in ctx.path)
            # distinct nodes of the choice tree
            common = 0
            if prev is not None:
                while common < len(prev) and common < len(key) and prev[common] == key[common]:
                    common += 1
            cut = ctx.sharded_at if ctx.sharded_at is not None else len(key)
            for d in range(common, len(key)):
                if d < cut:
                    self.shared_nodes += 1
                else:
                    self.deep_nodes += 1
            prev = key
            self.maxdepth = max(self.maxdepth, len(key))
            if status == "ok":
                self.traces += 1
                self.compares += ctx.ncompare
                if len(self.samples) < 2 and (self.traces in (1, 37)):
                    self.samples.append({"scenario": self.name, "choices": ctx.describe()})
            elif status == "skip":
                self.pruned += 1
            else:
                self.traces += 1
                kf = self.match_known(ctx, viol)
                if kf is not None:
                    self.known_hits[kf] = self.known_hits.get(kf, 0) + 1
                else:
                    self.violations.append(
                        {
                            "property": self.prop,
                            "scenario": self.name,
                            "tier": self.tier,
                            "path": ctx.path,
                            "choices": ctx.describe(),
                            "tag": viol[0],
                            "message": viol[1],
                        }
                    )
                    if STOP_FILE:
                        open(STOP_FILE, "w").close()
                    if len(self.violations) >= 3:
                        self.complete = False
                        return
            # backtrack
            nxt = list(ctx.path)
            while nxt and nxt[-1][0] + 1 >= nxt[-1][1]:
                nxt.pop()
            if not nxt:
                return
            i, n, nm = nxt[-1]
            nxt[-1] = (i + 1, n, nm)
            path = nxt
            if time.time() > self.deadline or (STOP_FILE and os.path.exists(STOP_FILE)):
                self.complete = False
                return

    def match_known(self, ctx, viol):
        for i, k in enumerate(self.known):
            m = k.get("match")
            if not m or k.get("status") != "finding":
                continue
            if m.get("scenario") not in (None, self.name):
                continue
            if m.get("tag") not in (None, viol[0]):
                continue
            vals = {n: _short(v, 200) for n, v in ctx.values}
            if all(vals.get(n) in allowed for n, allowed in m.get("choices", {}).items()):
                return i
        return None


def load_known(prop, verif):
    fn = os.path.join(verif, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f)["entries"] if k["property"] == prop]


def run_check(prop, title, scenarios, tier, seed, verif, budget_s, assumptions):
    """scenarios: list of (name, fn). Returns exit status."""
    t0 = time.time()
    nworkers = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    known = load_known(prop, verif)
    scratch = os.environ.get("MC_SCRATCH") or "/tmp"
    only = os.environ.get("MC_ONLY")
    if only:
        scenarios = [s for s in scenarios if s[0] in only.split(",")]
    deadline = t0 + budget_s
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nworkers):
        out = os.path.join(scratch, "w%d.pkl" % w)
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get("MC_DEBUG"):
                    os.dup2(dn, 2)
                signal.signal(signal.SIGALRM, _alarm)
                res = []
                err = None
                for name, fn in scenarios:
                    ts = time.time()
                    ex = Explorer(prop, name, fn, tier, w, nworkers, deadline, known)
                    try:
                        ex.explore()
                    except HarnessError as e:
                        err = "scenario %s: %s\n%s" % (name, e, traceback.format_exc())
                        break
                    ex.fn = None
                    ex.wall = time.time() - ts
                    res.append(ex)
                with open(out, "wb") as f:
                    pickle.dump((res, err), f)
                rc = 0
            except BaseException:
                traceback.print_exc()
                try:
                    with open(out, "wb") as f:
                        pickle.dump(([], traceback.format_exc()), f)
                except BaseException:
                    pass
            finally:
                os._exit(rc)
        pids.append((pid, out))
    results, errors = [], []
    for pid, out in pids:
        _, st = os.waitpid(pid, 0)
        if os.path.exists(out):
            with open(out, "rb") as f:
                res, err = pickle.load(f)
            results.append(res)
            if err:
                errors.append(err)
        else:
            errors.append("worker %d ended with status %d without a result" % (pid, st))

    states = transitions = traces = compares = 0
    outcomes = set()
    violations, samples, known_hits, per = [], [], {}, {}
    complete = not errors
    for res in results:
        for ex in res:
            p = per.setdefault(
                ex.name, {"shared": 0, "deep": 0, "executions": 0, "wall_s": 0.0, "outcomes": set(), "depth": 0}
            )
            p["shared"] = max(p["shared"], ex.shared_nodes)
            p["deep"] += ex.deep_nodes
            p["executions"] += ex.traces
            p["depth"] = max(p["depth"], ex.maxdepth)
            p["wall_s"] = max(p["wall_s"], round(ex.wall, 2))
            p["outcomes"] |= ex.outcomes
            transitions += ex.transitions
            traces += ex.traces
            compares += ex.compares
            violations += ex.violations
            samples += ex.samples
            for k, n in ex.known_hits.items():
                known_hits[k] = known_hits.get(k, 0) + n
            complete = complete and ex.complete
    scen = {}
    for n, p in per.items():
        states += 1 + p["shared"] + p["deep"]
        outcomes |= p["outcomes"]
        scen[n] = {
            "choice_tree_nodes": 1 + p["shared"] + p["deep"],
            "executions": p["executions"],
            "distinct_outcomes": len(p["outcomes"]),
            "max_depth": p["depth"],
            "slowest_worker_s": p["wall_s"],
        }
        print(
            "%s %-28s nodes=%-7d executions=%-7d outcomes=%-7d depth=%d wall=%.1fs"
            % (prop, n, 1 + p["shared"] + p["deep"], p["executions"], len(p["outcomes"]), p["depth"], p["wall_s"])
        )
    seen_s = {}
    keep = []
    for s in samples:
        if seen_s.setdefault(s["scenario"], 0) < 2:
            seen_s[s["scenario"]] += 1
            keep.append(s)
    order = [s[0] for s in scenarios]
    violations.sort(key=lambda v: (order.index(v["scenario"]), len(v["path"]), [p[0] for p in v["path"]]))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "samples": keep[:12],
            "exhaustive": bool(complete),
            "oracle_comparisons": compares,
            "distinct_outcomes": len(outcomes),
            "scenarios": scen,
            "legend": "states = distinct nodes of the explored choice tree; transitions = calls "
            "executed on the real code; traces = complete executions of the real code compared, "
            "step by step, with the reference model",
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    print(
        "%s [%s] %s: states=%d transitions=%d traces=%d comparisons=%d outcomes=%d exhaustive=%s wall=%.1fs"
        % (prop, tier, title, states, transitions, traces, compares, len(outcomes), complete, time.time() - t0)
    )
    for i, k in enumerate(known):
        if k.get("status") == "finding" and i in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        v = violations[0]
        d = os.path.join(verif, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        for v in violations[:3]:
            print("  scenario %s, %s: %s" % (v["scenario"], v["tag"], v["message"][:1500]))
            print("    choices: %s" % json.dumps(v["choices"])[:1200])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("HARNESS ERROR: " + "\n".join(errors)[:6000], file=sys.stderr)
        return 2
    if traces == 0 or (len(outcomes) < 2 and compares < 10):
        print("HARNESS ERROR: vacuous exploration", file=sys.stderr)
        return 2
    return 0


def replay(record, fn):
    """Run one recorded execution without the explorer."""
    ctx = Ctx(None, record["scenario"], [tuple(p) for p in record["path"]], record["tier"])
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_TIMEOUT)
    try:
        fn(ctx)
    except Violation as v:
        return v.tag, v.msg, ctx
    except SutTimeout:
        return "no-termination", _short(ctx.last_call), ctx
    except (Skip, HarnessError):
        raise
    except Exception as e:
        return "uncomparable-result", traceback.format_exc(), ctx
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None, None, ctx
