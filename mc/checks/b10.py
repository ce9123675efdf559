import itertools

from mc import domain, ref
from mc.rulecheck import RuleCheck, fmt, units_ilp, weighted_ilp, BOUNDS_ILP


class B10(RuleCheck):
    """minimax-Phragmén and leximax-Phragmén minimise the maximum load (lexicographically)."""

    solver = True
    chunk = 4
    wide_ks = (1, 2)

    def units(self, tier):
        for u in units_ilp(tier):
            yield u + ("minimaxphragmen",)
        for u in weighted_ilp(tier):
            yield u + ("minimaxphragmen",)
        yield from [u + ("leximaxphragmen",) for u in domain.seq_m(2, 3)]
        yield from [u + ("leximaxphragmen",) for u in domain.orbits(3, 2)]
        yield from [u + ("leximaxphragmen",) for u in domain.with_relabelings(domain.orbits(3, 3), ("rev",))]
        yield from [u + ("leximaxphragmen",) for u in domain.orbits(4, 2)]
        yield from [u + ("leximaxphragmen",) for u in domain.weighted(domain.orbits(2, 2), (1, 3, "1/2"))]
        yield from [u + ("leximaxphragmen",) for u in domain.weighted(domain.orbits(3, 2, empty=False), (2, "3/4"))]
        # many voters with the same load: the committees differ late in the order of loads
        for x in range(1, 5):
            for ws in itertools.product((1, "1/2", "9/2"), repeat=2):
                yield (3, (0b001,) * x + (0b110, 0b010), (1,) * x + ws, "leximaxphragmen")
        yield from [u + ("leximaxphragmen",) for u in domain.multiplicities(3, (0b001, 0b110, 0b010), (1, 2))]
        if tier == "thorough":
            yield from [u + ("leximaxphragmen",) for u in domain.orbits(4, 3)]
            yield from [u + ("leximaxphragmen",) for u in domain.orbits(3, 4)]
            yield from [u + ("leximaxphragmen",) for u in domain.partylists(2, 2, 3, 4)]

    def bounds(self, tier):
        return {"minimax": BOUNDS_ILP[tier], "leximax": "m<=2 n<=3 ordered; m=3 n<=3, m=4 n=2 up to renaming; weights over {1,3,1/2} (m=2 n=2),"
                " {2,3/4} (m=3 n=2); families with up to 4 equally loaded voters (m=3 n<=6)"
                + ("; m=4 n=3, m=3 n=4" if tier == "thorough" else "")}

    def rule_ids(self, unit):
        return (unit[3],)

    def expected(self, rule_id, m, votes, k, ctx):
        fct = ref.minimaxphragmen if rule_id == "minimaxphragmen" else ref.leximaxphragmen
        want = fct(m, votes, k)
        ctx.count("states", len(ref.committees(m, k)))
        ctx.count("transitions", len(want))
        return want, want

    def run(self, unit, ctx):
        super().run(unit, ctx)
        m, votes = domain.plain(unit)
        if unit[3] != "leximaxphragmen" or m > 10:  # committees are ordered as texts
            return
        from abcvoting import abcrules

        profile = domain.make_profile(unit)
        for k in self.ks(m):
            want, _ = self.expected("leximaxphragmen", m, votes, k, ctx)
            first = [min(sorted(c) for c in want)]
            ctx.count("evaluations")
            ctx.count("traces_validated_against_impl")
            got = abcrules.compute_leximaxphragmen(profile, k, resolute=True, lexicographic_tiebreaking=True)
            if [sorted(c) for c in got] != first:
                ctx.fail("leximaxphragmen/lexicographic_tiebreaking", f"k={k}: returned {fmt(got)}, should be {first}")
            try:
                got = abcrules.compute_leximaxphragmen(profile, k, resolute=False, lexicographic_tiebreaking=True)
            except ValueError:
                continue
            ctx.fail("leximaxphragmen/lexicographic_tiebreaking", f"k={k}: accepted with resolute=False: {fmt(got)}")


CHECK = B10()
