from fractions import Fraction

from mc import allrules, domain
from mc.checks.c01 import AllRules
from mc.rulecheck import fmt

# SAV with weights is decided in A03 against exact scores, where its float ties are a known finding
EXCLUDED = allrules.UNIT_ONLY + ("sav",)


class C06(AllRules):
    """A voter of integer weight w counts like w voters; only relative weights matter."""

    def units(self, tier):
        for u in domain.weighted(domain.orbits(2, 2), (1, 2, 3)):
            yield u + ("solver",)
        for u in domain.weighted(domain.orbits(3, 2), (1, 2, 3)):
            yield u + ("solver",)
        if tier == "thorough":
            for u in domain.weighted(domain.orbits(3, 3, empty=False), (1, 2)):
                yield u + ("solver",)
        for u in domain.weighted(domain.seq_m(2, 2), (1, 2, 3, 4)):
            yield u + ("cheap",)
        for u in domain.weighted(domain.orbits(3, 2), (1, 2, 3, 5)):
            yield u + ("cheap",)
        for u in domain.weighted(domain.orbits(3, 3), (1, 2, 3)):
            yield u + ("cheap",)
        for u in domain.weighted(domain.orbits(4, 3), (1, 3)):
            yield u + ("cheap",)
        for u in domain.staircase(6, 4, (1, 3), weights=(2, 1, 3, 2)):
            yield u + ("cheap",)
        for u in domain.staircase(7, 5, (2, 4), weights=(1, 2, 1, 4, 3), step=2):
            yield u + ("cheap",)
        if tier == "thorough":
            for u in domain.weighted(domain.orbits(4, 3, empty=False), (1, 2, 3, 5)):
                yield u + ("cheap",)
            for u in domain.weighted(domain.orbits(3, 4), (1, 2, 3)):
                yield u + ("cheap",)

    def bounds(self, tier):
        return (
            "solver-based algorithms: m=2 n=2 weights {1,2,3}, m=3 n=2 weights {1,2,3}"
            + ("; m=3 n=3 weights {1,2}" if tier == "thorough" else "")
            + "; others: ordered m<=2 n<=2 weights 1..4, up to renaming m=3 n<=3, m=4 n=3, cyclic intervals m=7 n=5"
            + ("; m=4 n=3 weights {1,2,3,5}; m=3 n=4" if tier == "thorough" else "")
            + "; all k; weights also scaled by 1/3, 1000003 and 1/1000003 (solver-based: 1/2, 1000003 and 10^-9)"
        )

    def run(self, unit, ctx):
        from abcvoting import abcrules
        from abcvoting.preferences import Profile, Voter

        m, masks, ws, tag = unit
        profile = domain.make_profile(unit)
        copies = domain.make_profile((m, tuple(x for x, w in zip(masks, ws) for _ in range(w)), None))
        scaled = {}
        for f in ("3", "1/3", "1000003", "1/1000003") if tag == "cheap" else ("1/2", "1000003", "1/1000000000"):
            fr = Fraction(f)
            scaled[f] = Profile(m)
            for x, w in zip(masks, ws):
                sw = w * fr
                sw = int(sw) if sw.denominator == 1 else sw
                scaled[f].add_voter(Voter(domain.bits(x), weight=sw))
        # the library's own conversions
        unitw = profile.copy()
        unitw.convert_to_unit_weights()
        merged = copies.copy()
        merged.convert_to_weighted()
        for label, p, total in (("convert_to_unit_weights", unitw, copies), ("convert_to_weighted", merged, copies)):
            def content(q):
                d = {}
                for v in q:
                    key = tuple(sorted(v.approved))
                    d[key] = d.get(key, 0) + v.weight
                return d

            if content(p) != content(total):
                ctx.fail(label, f"{content(p)} instead of {content(total)}")
        if not unitw.has_unit_weights():
            ctx.fail("convert_to_unit_weights", "weights remain")
        for k in self.ks(m):
            for rid, alg, resolute in self.configs(unit):
                if rid in EXCLUDED or (rid == "leximaxphragmen" and resolute):
                    continue  # leximax: B10 decides that resolute answers are among the irresolute
                t = f"{rid}/{alg}/{'resolute' if resolute else 'irresolute'}"
                call = lambda p: sorted(
                    tuple(sorted(c)) for c in abcrules.compute(rid, p, k, algorithm=alg, resolute=resolute)
                )
                ctx.count("states")
                want = call(copies)
                ctx.outcome(t, k, want)
                others = [("weighted", profile)]
                others += [
                    ("weights times " + f, p)
                    for f, p in scaled.items()
                    if f != "3" and (rid != "cc" or alg != "ortools-cp" or f == "1000003")
                ]
                allowed = None
                for label, p in others:
                    got = call(p)
                    ctx.count("evaluations")
                    ctx.count("transitions")
                    ctx.count("traces_validated_against_impl")
                    if got == want:
                        continue
                    if resolute and len(got) == 1:
                        # any winning committee will do
                        if allowed is None:
                            allowed = self.every(abcrules, rid, copies, k, alg)
                        if allowed is not None and got[0] in allowed:
                            continue
                    ctx.fail(t, f"k={k}: {label}: {fmt(got)}, with copies of voters {fmt(want)}")

    def every(self, abcrules, rid, profile, k, alg):
        if False not in abcrules.Rule(rid).resolute_values:
            return None
        return {tuple(sorted(c)) for c in abcrules.compute(rid, profile, k, algorithm=alg, resolute=False)}


CHECK = C06()
