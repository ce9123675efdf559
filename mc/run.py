"""Runner: explores every unit of a property's bounded space on the real code, in parallel.

Exit status: 0 the property held on everything explored, 1 a violation (with a VIOLATION line).
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, ROOT)

# a unit without an answer after this many CPU seconds (or this long in all) is reported as non-terminating
UNIT_TIMEOUT = 120
UNIT_WALL = 480


KNOWN = {}


class UnitTimeout(BaseException):
    pass


_unit_start = [0.0, 0.0]


def _alarm(_sig, _frame):
    cpu = time.process_time() - _unit_start[0]
    if cpu < UNIT_TIMEOUT - 5 and time.monotonic() - _unit_start[1] < UNIT_WALL:
        signal.alarm(int(UNIT_TIMEOUT - cpu) + 1)  # a busy machine
        return
    raise UnitTimeout()


class Ctx:
    """Collects the results of one unit."""

    def __init__(self):
        self.counts = {}
        self.outcomes = set()
        self.fails = []
        self.known = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def outcome(self, *key):
        self.outcomes.add(hash(repr(key)) & 0xFFFFFFFFFFFF)

    def fail(self, sig, msg):
        """sig identifies what failed (entry point, configuration), msg explains it."""
        self.fails.append((sig, msg))


def load(prop):
    return importlib.import_module("mc.checks." + prop.lower()).CHECK


def _quiet_fds():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def _init(prop, idx, scratch):
    global CHECK
    _quiet_fds()
    if idx is None:  # re-run of a crash
        CHECK = MAIN_CHECK
        signal.signal(signal.SIGALRM, _alarm)
        if hasattr(CHECK, "setup"):
            CHECK.setup()
        return
    with idx.get_lock():
        me = idx.value
        idx.value += 1
    try:  # one core per worker: the ILP/CP solvers then do not start competing threads
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[me % len(cpus)]})
    except (OSError, AttributeError):
        pass
    os.chdir(scratch)
    signal.signal(signal.SIGALRM, _alarm)
    CHECK = load(prop)
    if CHECK.solver:
        import gurobipy as gb

        try:
            gb.Model().dispose()
        except Exception:
            pass
    if hasattr(CHECK, "setup"):
        CHECK.setup()


def run_unit(check, unit):
    ctx = Ctx()
    _unit_start[:] = time.process_time(), time.monotonic()
    signal.alarm(UNIT_TIMEOUT)
    try:
        check.run(unit, ctx)
    except UnitTimeout:
        ctx.fail("timeout", f"no answer within {UNIT_TIMEOUT} s")
    except Exception as e:  # an exception the check did not expect
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/abcvoting/" in f.filename]
        if not where:
            # the library answered with something the oracle cannot interpret (a value of another
            # type, say); never happens on the unchanged tree
            ctx.fail("uninterpretable", "unexpected result: " + traceback.format_exc(limit=-3))
        else:
            ctx.fail(
                f"exception:{type(e).__name__}",
                f"unexpected {type(e).__name__}: {e} at {where[-1].name}",
            )
    finally:
        signal.alarm(0)
    return ctx


def _work(chunk):
    counts, outcomes, fails, first = {}, set(), [], None
    for unit in chunk:
        ctx = run_unit(CHECK, unit)
        for k, v in ctx.counts.items():
            counts[k] = counts.get(k, 0) + v
        outcomes |= ctx.outcomes
        mine = [(unit, s, msg) for s, msg in ctx.fails]
        if mine and KNOWN:
            key = json.dumps(unit)
            known = [x for x in mine if (key, x[1], x[2]) in KNOWN]
            mine = [x for x in mine if x not in known]
            for x in known:
                name = "known:" + KNOWN[(key, x[1], x[2])]
                counts[name] = counts.get(name, 0) + 1
        fails += mine[:5]
    return len(chunk), counts, outcomes, fails[:50]


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def load_known(prop):
    """The known findings of a property: id -> entry, and {(unit, sig, message): id}.

    A finding is identified by the exact input, configuration and wrong answer; any other wrong
    answer (even on the same input) is a new violation.
    """
    path = os.path.join(ROOT, "known_findings.jsonl")
    entries, cases = {}, {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                d = json.loads(line) if line.strip() else {}
                if d.get("property") == prop and d.get("status") == "known":
                    entries[d["id"]] = d
                    for unit, sig, msg in d["cases"]:
                        cases[(json.dumps(unit), sig, msg)] = d["id"]
    return entries, cases


def _tuplify(x):
    if isinstance(x, list):
        return tuple(_tuplify(y) for y in x)
    return x


def main():
    prop = sys.argv[1]
    if prop == "replay":
        return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    real_out = os.dup(1)
    out = os.fdopen(real_out, "w", buffering=1)
    global MAIN_CHECK, KNOWN
    entries, KNOWN = load_known(prop)
    check = MAIN_CHECK = load(prop)
    scratch = tempfile.mkdtemp(prefix="mc_" + prop + "_")
    with open(os.path.join(scratch, "gurobi.env"), "w") as f:
        f.write("Threads 1\nOutputFlag 0\n")
    nworkers = int(os.environ.get("MC_WORKERS", "0")) or max(1, len(os.sched_getaffinity(0)))
    ctxm = mp.get_context("fork")
    idx = ctxm.Value("i", 0)
    total = 0
    counts, outcomes, fails, samples = {}, set(), [], []
    nunits = 0
    stopped = False

    def feed():
        nonlocal nunits
        for c in chunks(check.units(tier), check.chunk):
            nunits += len(c)
            if len(samples) < 3:
                samples.append(check.show(c[0]))
            elif nunits % 997 < check.chunk and len(samples) < 8:
                samples.append(check.show(c[-1]))
            yield c

    try:
        pool = ProcessPoolExecutor(nworkers, ctxm, _init, (prop, idx, scratch))
        for n, cts, outs, fls in _windowed(pool, feed(), nworkers * 4):
            total += n
            for k, v in cts.items():
                counts[k] = counts.get(k, 0) + v
            outcomes |= outs
            fails += fls
            if len(fails) > 400 or any(f[1] == "timeout" for f in fls):
                stopped = True
                break
        for p in list(pool._processes.values()):
            p.kill()
    finally:
        for root, dirs, files in os.walk(scratch, topdown=False):
            for x in files:
                os.unlink(os.path.join(root, x))
            for x in dirs:
                os.rmdir(os.path.join(root, x))
        os.rmdir(scratch)

    new = fails
    known = {k[6:]: counts.pop(k) for k in list(counts) if k.startswith("known:")}
    for fid, n in sorted(known.items()):
        out.write(f"KNOWN-FINDING: property={prop} {entries[fid]['what']} ({n} cases, id {fid})\n")

    evals = counts.get("evaluations", 0)
    coverage = dict(counts)
    coverage["units"] = total
    if check.level == "model_checking":
        del coverage["evaluations"]  # = traces_validated_against_impl
        for name in ("states", "transitions", "traces_validated_against_impl"):
            coverage.setdefault(name, 0)
        coverage["distinct_outcomes"] = len(outcomes)
    else:
        coverage["evaluations"] = evals
        coverage["distinct_nontrivial"] = len(outcomes)
        coverage["rule"] = check.rule
    coverage["bounds"] = check.bounds(tier)
    coverage["samples"] = samples
    coverage["exhaustive"] = not stopped
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": coverage,
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - start, 2),
        "violations": len(new),
        "known_findings": known,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")

    out.write(
        f"{prop} [{tier}] units={total} "
        + " ".join(f"{k}={v}" for k, v in sorted(counts.items()))
        + f" distinct_outcomes={len(outcomes)} wall={ev['wall_s']}s\n"
    )
    if total == 0 or evals == 0:
        out.write(f"ERROR: {prop} explored nothing\n")
        return 2
    if new:
        new.sort(key=lambda x: (check.unit_size(x[0]), str(x[1])))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        shown = set()
        for unit, sig, msg in new:
            if sig in shown or len(shown) >= 6:
                continue
            shown.add(sig)
            h = hashlib.sha1(repr((unit, sig)).encode()).hexdigest()[:10]
            path = os.path.join(ROOT, "replays", f"{prop}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "unit": unit, "sig": sig, "message": msg}, f, indent=1)
            out.write(f"  {sig}: {check.show(unit)}: {msg}\n")
            out.write(f"VIOLATION property={prop} replay={path}\n")
        return 1
    return 0


def _windowed(pool, gen, width):
    """Results of all chunks, with a bounded number of chunks in flight."""
    from concurrent.futures import FIRST_COMPLETED, wait
    from concurrent.futures.process import BrokenProcessPool

    pending = {}
    exhausted = False
    while True:
        while not exhausted and len(pending) < width:
            try:
                c = next(gen)
            except StopIteration:
                exhausted = True
                break
            try:
                pending[pool.submit(_work, c)] = c
            except BrokenProcessPool:
                yield from _crashed(list(pending.values()) + [c])
                return
        if not pending:
            return
        done, _ = wait(pending, return_when=FIRST_COMPLETED)
        for f in done:
            try:
                res = f.result()
            except BrokenProcessPool:
                yield from _crashed(list(pending.values()))
                return
            del pending[f]
            yield res


def _crashed(work):
    """A worker process died: find the unit that kills it, each unit in a process of its own."""
    tried = 0
    for chunk in work:
        for unit in chunk:
            tried += 1
            pid = os.fork()
            if pid == 0:
                _init(None, None, None)
                run_unit(CHECK, unit)
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status != 0:
                msg = f"the process running the library died (wait status {status})"
                yield tried, {"evaluations": tried}, set(), [(unit, "crash", msg)]
                return
    raise RuntimeError("a worker process died, but no unit reproduces that")


def replay(path):
    """Re-execute one recorded violation: exit 1 if it still fails, 0 if not."""
    with open(path) as f:
        d = json.load(f)
    check = load(d["property"])
    signal.signal(signal.SIGALRM, _alarm)
    if hasattr(check, "setup"):
        check.setup()
    ctx = run_unit(check, _tuplify(d["unit"]))
    for sig, msg in ctx.fails:
        print(f"{sig}: {check.show(_tuplify(d['unit']))}: {msg}")
    return 1 if ctx.fails else 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
