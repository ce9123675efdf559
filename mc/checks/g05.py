from mc import rng as crng
from mc.base import Check
from mc.checks.g03 import NAMES
from mc.checks.g04 import EUCLID, GOOD


class Foreign(BaseException):
    pass


class G05(Check):
    """All randomness comes from generate.rng, and every draw is used once."""

    chunk = 2

    def units(self, tier):
        for name in GOOD:
            yield ("source", name, None, None)
            yield ("twice", name, None, None)
        for name in EUCLID:
            for a in NAMES:
                for b in NAMES:
                    if a[0] == b[0]:
                        yield ("source", name, a, b)
        for a in NAMES:
            yield ("source", "point", a, None)
        yield ("source", "Disjoint Resampling, random phi", None, None)

    def bounds(self, tier):
        return (
            "all distributions, all pairs of point distributions: generate.rng seeded with 0..7 (3 voters, 4 candidates,"
            " three consecutive calls, twice); any generator not derived from generate.rng is detected;"
            " joint distribution of two consecutive profiles over all draws"
        )

    def show(self, unit):
        return str(unit)

    def unit_size(self, unit):
        return (len(str(unit)),)

    def tick(self, ctx, n, *key):
        for c in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
            ctx.count(c, n)
        ctx.outcome(*key)

    def one(self, generate, unit, n, m):
        _, name, a, b = unit
        if name == "point":
            return tuple(float(x) for x in generate.random_point(generate.PointProbabilityDistribution(a)))
        if name in EUCLID:
            spec = dict(
                EUCLID[name], id=name, return_points=True,
                voter_prob_distribution=generate.PointProbabilityDistribution(a),
                candidate_prob_distribution=generate.PointProbabilityDistribution(b),
            )  # fmt: skip
            profile, v, c = generate.random_profile(n, m, spec)
            extra = (str(v), str(c))
        else:
            spec = dict(GOOD[name.split(",")[0]], id=name.split(",")[0])
            if "," in name:
                spec["phi"] = None
            if m < 2 and "setsize" in spec:
                spec["setsize"] = 1
            profile = generate.random_profile(n, m, spec)
            extra = ()
        return (tuple(frozenset(int(c) for c in v.approved) for v in profile),) + extra

    def run(self, unit, ctx):
        import numpy as np
        from abcvoting import generate

        if unit[0] == "twice":
            return self.twice(unit, ctx)
        saved = (generate.rng, np.random.default_rng)
        real = np.random.default_rng

        def checked(seed=None):
            if seed is None:
                raise Foreign()
            return real(seed)

        try:
            for seed in range(8):
                res = []
                for _ in range(2):
                    generate.rng = real(seed)
                    np.random.default_rng = checked
                    try:
                        res.append([self.one(generate, unit, 3, 4) for _ in range(3)])
                    except Foreign:
                        ctx.fail("source", "uses a random generator that is not generate.rng")
                        return
                    finally:
                        np.random.default_rng = real
                self.tick(ctx, 2, unit, seed, res[0])
                if res[0] != res[1]:
                    ctx.fail("seed", f"different results with generate.rng = default_rng({seed})")
                if seed and unit[2] and res[0] == first:
                    ctx.fail("seed", f"seeds 0 and {seed} give the same points")
                if unit[2] and len({str(x) for x in res[0]}) != 3:
                    ctx.fail("seed", "consecutive calls repeat the same points")
                first = first if seed else res[0]
        finally:
            generate.rng, np.random.default_rng = saved

    def twice(self, unit, ctx):
        """Two consecutive profiles are independent."""
        from abcvoting import generate

        def run(k):
            def once(src):
                with crng.patched(generate, crng.Rng(src)):
                    return tuple(self.one(generate, unit, 1, 2) for _ in range(k))

            return crng.distribution(once)

        try:
            (single, p1), (double, p2) = run(1), run(2)
        except (crng.Uncontrolled, crng.TooLarge):
            ctx.count("uncontrolled")
            self.tick(ctx, 1, unit)
            return
        self.tick(ctx, p1 + p2, unit, len(double))
        for (x,), p in single.items():
            for (y,), q in single.items():
                if abs(double.get((x, y), 0) - p * q) > 1e-9:
                    ctx.fail("twice", f"{x[0]}, then {y[0]}: probability {double.get((x, y), 0):.6g}, should be {p * q:.6g}")
                    return


CHECK = G05()
