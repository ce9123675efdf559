import itertools
import json
import os
import subprocess
import sys

from mc import allrules, domain
from mc.base import Check

OPTIONAL = ("gmpy2", "ortools")
NEEDS = {"gmpy2-fractions": "gmpy2", "ortools-cp": "ortools"}
PROFILES = (
    (4, (0b0011, 0b0110, 0b1100, 0b0001), None),
    (3, (0b001, 0b110, 0b101), None),
    (3, (0b011, 0b110), (2, 1)),
    (3, (0b011, 0b100, 0b100), ("1/3", 1, 2)),
)
CHILD = """
import sys
for name in {blocked!r}:
    for sub in [x for x in sys.modules if x == name or x.startswith(name + ".")]:
        del sys.modules[sub]
    sys.modules[name] = None  # every import of it raises ImportError
sys.path[:0] = [{repo!r}, {root!r}]
import json
from mc.checks import c09
out = c09.child()
with open({path!r}, "w") as f:
    json.dump(out, f)
"""


def child():
    """Everything observable about the choice of algorithms, in this interpreter."""
    from abcvoting import abcrules, properties, scores

    out = {"available": sorted(abcrules.available_algorithms), "rules": {}}
    profiles = [domain.make_profile(x) for x in PROFILES]
    for rid in allrules.rule_ids():
        rule = abcrules.Rule(rid)
        info = out["rules"][rid] = {"algorithms": list(rule.algorithms), "available": list(rule.available_algorithms)}
        try:
            info["fastest"] = rule.fastest_available_algorithm()
        except abcrules.NoAvailableAlgorithm:
            info["fastest"] = "NoAvailableAlgorithm"
        answers = info["answers"] = {}
        if rid in allrules.RANDOM:
            continue
        for i, profile in enumerate(profiles):
            for resolute in rule.resolute_values:
                for alg in ("fastest",) + tuple(rule.algorithms):
                    if alg in allrules.SOLVERS and (alg != "ortools-cp" or resolute):
                        continue
                    try:
                        got = abcrules.compute(rid, profile, 2, algorithm=alg, resolute=resolute)
                        got = [sorted(c) for c in got]
                        if resolute and info["fastest"] in allrules.SOLVERS:
                            got = len(got)
                    except Exception as e:
                        got = type(e).__name__
                    answers[f"{i}/{resolute}/{alg}"] = got
    out["scores"] = []
    for x, profile in zip(PROFILES, profiles):
        for fct in ("pav", "slav", "geom3", "cc", "av", "sav"):
            for comm in itertools.combinations(range(x[0]), 2):
                try:
                    out["scores"].append(str(scores.thiele_score(fct, profile, comm)))
                except Exception as e:
                    out["scores"].append(type(e).__name__)
    out["checks"] = [
        properties.check(prop, profiles[0], comm)
        for prop in properties.PROPERTY_NAMES
        for comm in itertools.combinations(range(4), 2)
    ]
    return out


class C09(Check):
    """Without an optional solver module the same answers are given by the remaining algorithms."""

    solver = True
    chunk = 1

    def units(self, tier):
        for r in range(len(OPTIONAL) + 1):
            for blocked in itertools.combinations(OPTIONAL, r):
                yield (blocked, "answers")

    def bounds(self, tier):
        return f"every subset of the optional modules {OPTIONAL} missing; every rule, algorithm and mode on {len(PROFILES)} profiles"

    def show(self, unit):
        return f"without {list(unit[0])}"

    def unit_size(self, unit):
        return (len(unit[0]),)

    def interpreter(self, blocked):
        path = os.path.abspath(f"c09-{os.getpid()}.json")
        from mc import run

        code = CHILD.format(blocked=blocked, repo=run.REPO, root=run.ROOT, path=path)
        try:
            p = subprocess.run(
                [sys.executable, "-B", "-c", code], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True
            )
            if p.returncode != 0:
                return p.stderr.strip().splitlines()[-1] if p.stderr.strip() else f"status {p.returncode}"
            with open(path) as f:
                return json.load(f)
        finally:
            if os.path.exists(path):
                os.remove(path)

    def run(self, unit, ctx):
        blocked = unit[0]
        full = self.interpreter(())
        got = self.interpreter(blocked)
        for x in (full, got):
            if isinstance(x, str):
                ctx.fail("import", f"the library does not work: {x}")
                return

        def tick(*key):
            for name in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
                ctx.count(name)
            ctx.outcome(*key)

        missing = {a for a, mod in NEEDS.items() if mod in blocked}
        tick("available", got["available"])
        if set(got["available"]) != set(full["available"]) - missing:
            ctx.fail("available_algorithms", f"{got['available']}")
        for rid, info in got["rules"].items():
            want = [a for a in full["rules"][rid]["algorithms"] if a in full["available"] and a not in missing]
            tick(rid, info["available"], info["fastest"])
            if info["available"] != want or info["algorithms"] != full["rules"][rid]["algorithms"]:
                ctx.fail("Rule", f"{rid}: algorithms {info['algorithms']}, available {info['available']}")
            if info["fastest"] != (want[0] if want else "NoAvailableAlgorithm"):
                ctx.fail("fastest", f"{rid}: {info['fastest']}, available are {want}")
            for key, ans in info["answers"].items():
                i, resolute, alg = key.split("/")
                tick(rid, key, ans)
                ref = full["rules"][rid]["answers"][key]
                if alg in missing or (alg == "fastest" and not want):
                    # not available: an error, not an answer (bad arguments may be reported first)
                    if not isinstance(ans, str) or (alg == "gmpy2-fractions" and ans not in (ref, "ImportError")):
                        ctx.fail("unavailable", f"{rid}/{key}: {ans}")
                elif ans != ref and not (isinstance(ref, int) or isinstance(ans, int) or alg == "fastest" and resolute == "True"):
                    ctx.fail("answer", f"{rid}/{key}: {ans}, otherwise {ref}")
                elif alg == "fastest" and resolute == "True" and isinstance(ans, list):
                    allc = full["rules"][rid]["answers"].get(f"{i}/False/fastest")
                    if len(ans) != 1 or (allc is not None and ans[0] not in allc):
                        ctx.fail("answer", f"{rid}/{key}: {ans}, winning are {allc}")
        tick("scores", got["scores"])
        if got["scores"] != full["scores"]:
            ctx.fail("scores", "score functions differ")
        if got["checks"] != full["checks"]:
            ctx.fail("checks", "axiom checks differ")


CHECK = C09()
