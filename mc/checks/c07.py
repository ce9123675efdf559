import itertools

from mc import domain
from mc.checks.c01 import AllRules
from mc.rulecheck import fmt


class C07(AllRules):
    """Anonymity and neutrality of the set of winning committees."""

    def units(self, tier):
        for u in domain.orbits(2, 2):
            yield u + ("solver",)
        for u in domain.orbits(3, 2):
            yield u + ("solver",)
        for u in domain.orbits(3, 3, empty=False):
            if tier == "thorough":
                yield u + ("solver",)
        if tier == "thorough":
            for u in domain.orbits(4, 2):
                yield u + ("solver",)
        for n in (1, 2, 3):
            for u in domain.orbits(3, n):
                yield u + ("cheap",)
        for u in domain.orbits(4, 2):
            yield u + ("cheap",)
        for u in domain.orbits(4, 3):
            yield u + ("cheap",)
        for u in domain.weighted(domain.orbits(3, 2), (1, 2)):
            yield u + ("cheap",)
        for u in domain.weighted(domain.orbits(3, 3, empty=False), (1, 2)):
            yield u + ("cheap",)
        for u in domain.staircase(6, 5, (1, 3)):
            yield u + ("cheap",)
        if tier == "thorough":
            for u in domain.orbits(4, 4):
                yield u + ("cheap",)

    def bounds(self, tier):
        return (
            "solver-based algorithms: every profile up to renaming m<=3 n=2"
            + ("; m=3 n=3, m=4 n=2" if tier == "thorough" else "")
            + "; others: m=3 n<=3, m=4 n<=3" + ("; m=4 n=4" if tier == "thorough" else "")
            + ", weights {1,2}; every permutation of the voters (candidates fixed) and every permutation"
            " of the candidates (voters reversed on odd ones); cyclic intervals m=6 n=5 with all transpositions,"
            " a rotation and the reversal; all k"
        )

    def run(self, unit, ctx):
        from abcvoting import abcrules

        m, masks, ws, tag = unit
        n = len(masks)
        rules = {}
        for rid, alg, resolute in self.configs(unit):
            if rid not in ("rsd", "sav") and not resolute:
                rules.setdefault(rid, []).append(alg)
        base = tuple(range(n))
        variants = []
        seen = set()
        perms = list(itertools.permutations(range(m)))
        orders = list(itertools.permutations(range(n)))
        if m > 4:  # all transpositions, a rotation and the reversal
            perms, orders = (
                [tuple(range(z))]
                + [tuple(j if x == i else i if x == j else x for x in range(z)) for i in range(z) for j in range(i)]
                + [tuple((x + 1) % z for x in range(z)), tuple(range(z))[::-1]]
                for z in (m, n)
            )
        for order in orders:
            variants.append((order, perms[0]))
        for i, perm in enumerate(perms[1:]):
            variants.append((base if i % 2 else base[::-1], perm))
        todo = []
        for order, perm in variants:
            v = (
                m,
                tuple(domain.permute_mask(masks[i], perm) for i in order),
                None if ws is None else tuple(ws[i] for i in order),
            )
            if (v, perm) not in seen:
                seen.add((v, perm))
                todo.append((v, perm, domain.make_profile(v)))
        for k in self.ks(m):
            for rid, algs in rules.items():
                for alg in algs:
                    want = None
                    for v, perm, profile in todo:
                        got = {
                            frozenset(c)
                            for c in abcrules.compute(rid, profile, k, algorithm=alg, resolute=False)
                        }
                        ctx.count("evaluations")
                        ctx.count("transitions")
                        ctx.count("traces_validated_against_impl")
                        if want is None:
                            want = got
                            ctx.count("states")
                            ctx.outcome(rid, k, sorted(map(sorted, got)))
                            continue
                        should = {frozenset(perm[c] for c in comm) for comm in want}
                        if got != should:
                            ctx.fail(
                                f"{rid}/{alg}",
                                f"k={k}: renamed to {domain.describe(v)}: {fmt(got)}, should be {fmt(should)}",
                            )


CHECK = C07()
