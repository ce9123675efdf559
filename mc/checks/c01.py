from mc import allrules, domain
from mc.base import Check


def solver_units(tier):
    yield from domain.seq_m(2, 2)
    yield from domain.with_relabelings(domain.orbits(3, 2), ("rot",))
    yield from domain.orbits(3, 3)
    yield from domain.orbits(4, 2)
    yield from domain.weighted(domain.orbits(2, 2), (1, 2, "1/2"))
    yield from domain.weighted(domain.orbits(3, 2, empty=False), (2, "1/3"))
    yield from domain.staircase(5, 4, (1, 3))
    if tier == "thorough":
        yield from domain.sequences(3, 2)
        yield from domain.orbits(4, 3)
        yield from domain.orbits(5, 2)
        yield from domain.wide(1)


def cheap_units(tier):
    yield from domain.seq_m(3, 3 if tier == "thorough" else 2)
    yield from domain.with_relabelings(domain.orbits(3, 3))
    yield from domain.with_relabelings(domain.orbits(4, 3), ("rot",))
    yield from domain.orbits(5, 2)
    yield from domain.partylists(3, 2, 2, 5)
    yield from domain.weighted(domain.orbits(3, 2), (1, 3, "1/2"))
    yield from domain.staircase(7, 6, (1, 3), step=2)
    if tier == "thorough":
        yield from domain.with_relabelings(domain.orbits(4, 4))
        yield from domain.orbits(5, 3)
        yield from domain.weighted(domain.orbits(4, 3, empty=False), (1, 3, "1/2"))


ALL_BOUNDS = {
    "quick": "solver-based algorithms: ordered profiles m<=2 n<=2, up to renaming m=3 n<=3 and m=4 n=2,"
    " weights over {1,2,1/2}, cyclic intervals m=5 n=4; other algorithms: ordered m<=3 n<=2, up to renaming"
    " m=3 n=3, m=4 n=3, m=5 n=2, party lists, cyclic intervals m=7 n=6, weights over {1,3,1/2}; all k; every rule, algorithm and setting",
    "thorough": "solver-based algorithms: ordered profiles m<=2 n<=2 and m=3 n=2, up to renaming m=3 n=3,"
    " m=4 n<=3, m=5 n=2, m=12 family n=1, weights over {1,2,1/2}; other algorithms: ordered m<=3 n<=3,"
    " up to renaming m=4 n<=4, m=5 n<=3, party lists, weights over {1,3,1/2}; all k; every rule,"
    " algorithm and setting",
}


class AllRules(Check):
    solver = True
    chunk = 4

    def units(self, tier):
        for u in solver_units(tier):
            yield u + ("solver",)
        for u in cheap_units(tier):
            yield u + ("cheap",)

    def bounds(self, tier):
        return ALL_BOUNDS[tier]

    def ks(self, m):
        return range(1, m + 1) if m <= 6 else (1, 2)

    def configs(self, unit):
        for rid, alg, resolute in allrules.configs(unit[3] == "solver"):
            if allrules.weights_ok(rid, alg, unit):
                yield rid, alg, resolute


def is_index(x):
    return hasattr(x, "__index__") and not isinstance(x, bool)


class C01(AllRules):
    """Output contract of every rule, algorithm and setting."""

    def run(self, unit, ctx):
        from abcvoting import abcrules
        from abcvoting.misc import CandidateSet

        profile = domain.make_profile(unit)
        m = unit[0]
        for k in self.ks(m):
            ctx.count("states")
            for rid, alg, resolute in self.configs(unit):
                tag = f"{rid}/{alg}/{'resolute' if resolute else 'irresolute'}"
                before = allrules.snapshot(profile)
                try:
                    res = abcrules.compute(rid, profile, k, algorithm=alg, resolute=resolute)
                except Exception as e:
                    ctx.fail(tag, f"k={k}: {type(e).__name__}: {e}")
                    continue
                ctx.count("evaluations")
                ctx.count("transitions")
                ctx.count("traces_validated_against_impl")
                if allrules.snapshot(profile) != before:
                    ctx.fail(tag, f"k={k}: the profile was changed")
                    profile = domain.make_profile(unit)
                if not isinstance(res, list) or not res:
                    ctx.fail(tag, f"k={k}: not a non-empty list: {res!r}")
                    continue
                for c in res:
                    ok = isinstance(c, CandidateSet) and len(c) == k
                    if not ok or not all(is_index(x) and 0 <= x < m for x in c):
                        ctx.fail(tag, f"k={k}: {c!r} is not a committee of {k} candidates")
                if len(set(map(frozenset, res))) != len(res):
                    ctx.fail(tag, f"k={k}: repeated committees {res}")
                if resolute and len(res) != 1:
                    ctx.fail(tag, f"k={k}: {len(res)} committees for resolute=True")
                ctx.outcome(tag, k, m, len(res))
                # the returned objects belong to the caller: changing them affects nothing
                again = res[0]
                again.discard(next(iter(again))) if hasattr(again, "discard") else None
                res.clear()
                if allrules.snapshot(profile) != before:
                    ctx.fail(tag, f"k={k}: the result shares state with the profile")
                    profile = domain.make_profile(unit)


CHECK = C01()
