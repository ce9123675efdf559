from fractions import Fraction

from mc import allrules, axioms, domain, ref
from mc.base import Check

IMPLIES = (
    ("ejr+", "ejr"), ("ejr", "pjr"), ("pjr", "jr"), ("core", "fjr"), ("fjr", "ejr"),
    ("priceability", "pjr"), ("stable-priceability", "priceability"), ("stable-priceability", "core"),
)  # fmt: skip
PAIRS = (
    ("pareto", "check_pareto_optimality"), ("jr", "check_JR"), ("pjr", "check_PJR"), ("ejr", "check_EJR"),
    ("ejr+", "check_EJR_plus"), ("fjr", "check_FJR"), ("priceability", "check_priceability"),
    ("stable-priceability", "check_stable_priceability"), ("core", "check_core"),
)  # fmt: skip
NO_QUOTA = ("pareto", "priceability", "stable-priceability")


class D06(Check):
    """full_analysis and all entry points agree; implications between axioms; input validation."""

    solver = True
    chunk = 4

    def units(self, tier):
        for u in domain.orbits(3, 2):
            yield u + ("full",)
        for u in domain.orbits(3, 3):
            yield u + ("full",)
        for u in domain.orbits(4, 2):
            yield u + ("full",)
        for u in domain.orbits(4, 3, empty=False):
            yield u + ("full",)
        for u in domain.weighted(domain.orbits(3, 2), (1, 3)):
            yield u + ("full",)
        for u in domain.staircase(5, 4, (1, 3)):
            yield u + ("full",)
        for u in domain.orbits(3, 2):
            yield u + ("args",)
        if tier == "thorough":
            for u in domain.orbits(3, 4):
                yield u + ("full",)
            for u in domain.orbits(4, 4, empty=False):
                yield u + ("full",)
            for u in domain.orbits(5, 3, empty=False):
                yield u + ("full",)

    def bounds(self, tier):
        return (
            "up to renaming m=3 n<=3, m=4 n<=3" + ("; m=3 n=4, m=4 n=4, m=5 n=3" if tier == "thorough" else "")
            + ", cyclic intervals m=5 n=4, weights {1,3}; every nonempty committee; argument validation: every axiom x algorithm x"
            " quota x 14 malformed committees"
        )

    def run(self, unit, ctx):
        getattr(self, unit[3])(unit, ctx)

    def tick(self, ctx, *key):
        ctx.count("evaluations")
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        ctx.outcome(*key)

    def full(self, unit, ctx):
        from abcvoting import properties

        m, votes = domain.plain(unit)
        profile = domain.make_profile(unit)
        before = allrules.snapshot(profile)
        for k in range(1, m + 1):
            for W in ref.committees(m, k):
                res = properties.full_analysis(profile, set(W))
                ctx.count("states")
                if sorted(res) != sorted(n for n, _ in PAIRS):
                    ctx.fail("full_analysis", f"keys {sorted(res)}")
                    continue
                self.tick(ctx, k, sorted(res.items()))
                for name, fct in PAIRS:
                    if m > 3 and name in ("core", "fjr", "ejr", "pjr", "pareto"):
                        got = properties.check(name, profile, set(W), algorithm="brute-force")
                    else:
                        got = getattr(properties, fct)(profile, set(W))
                    self.tick(ctx, name, got)
                    if got != res[name]:
                        ctx.fail("agree:" + name, f"{sorted(W)}: full_analysis {res[name]}, {fct} {got}")
                for x, y in IMPLIES:
                    if y == "pjr" and x == "priceability" or x == "stable-priceability":
                        approved = frozenset().union(*(a for a, _ in votes))
                        if len(approved) < k:
                            continue  # the library's convention replaces the definition
                    if res[x] and not res[y]:
                        ctx.fail("implies", f"{sorted(W)}: {x} holds but {y} does not")
        if allrules.snapshot(profile) != before:
            ctx.fail("profile", "the profile was changed")

    def args(self, unit, ctx):
        from abcvoting import properties

        profile = domain.make_profile(unit)
        m = unit[0]
        bad = [[0, 0], [m], [-1], [0, m], ["a"], [0, 1.5], (0, 0, 1), {m + 3}, [None]]
        for name, fct in PAIRS:
            algs = [None, "gurobi", "brute-force", "nonsense"]
            if name in ("jr", "ejr+"):
                algs = [None]
            for alg in algs:
                for quota in (None, 1, Fraction(3, 2)):
                    kw = {}
                    if alg:
                        kw["algorithm"] = alg
                    errors = []
                    if quota is not None:
                        kw["quota"] = quota
                        if name in NO_QUOTA:
                            errors.append(ValueError)
                    if alg == "nonsense" or (alg == "brute-force" and "price" in name):
                        errors.append(NotImplementedError)
                    for comm in [[0]] + bad:
                        errs = errors + ([ValueError, TypeError] if comm in bad else [])
                        ctx.count("states")
                        try:
                            got = properties.check(name, profile, comm, **kw)
                        except Exception as e:
                            self.tick(ctx, name, alg, type(e).__name__)
                            if not any(isinstance(e, x) for x in errs):
                                ctx.fail("args:" + name, f"{comm} {kw}: {type(e).__name__}: {e}")
                        else:
                            self.tick(ctx, name, alg, "answer")
                            if errs:
                                ctx.fail("args:" + name, f"{comm} {kw}: answered {got}")
        try:
            properties.check("nonsense", profile, [0])
            ctx.fail("args", "unknown property accepted")
        except ValueError:
            pass


CHECK = D06()
