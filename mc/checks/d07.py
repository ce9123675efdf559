import itertools
from fractions import Fraction as F

from mc import allrules
from mc.base import Check
from mc.rulecheck import fmt

DHONDT = ("pav", "seqpav", "revseqpav", "seqphragmen", "leximaxphragmen", "maximin-support")
SAINTE_LAGUE = ("slav", "seqslav", "revseqslav")
LARGEST_REMAINDER = ("phragmen-enestroem",)
LARGEST_REMAINDER_DIVISIBLE = ("monroe",)  # if k divides the number of voters


def divisor(vec, k, d):
    """All seat distributions of a divisor method (divisors d(0) < d(1) < ...)."""
    res = set()
    states = {(0,) * len(vec)}
    for _ in range(k):
        nxt = set()
        for s in states:
            quot = [F(v) / d(x) for v, x in zip(vec, s)]
            best = max(quot)
            for i, q in enumerate(quot):
                if q == best:
                    nxt.add(s[:i] + (s[i] + 1,) + s[i + 1 :])
        states = nxt
    res = states
    return res


def largest_remainder(vec, k):
    n = sum(vec)
    base = [v * k // n for v in vec]
    rest = [F(v * k, n) - b for v, b in zip(vec, base)]
    missing = k - sum(base)
    res = set()
    for up in itertools.combinations(range(len(vec)), missing):
        # valid iff no party outside has a larger remainder than a party inside
        if all(rest[i] >= rest[j] for i in up for j in range(len(vec)) if j not in up):
            res.add(tuple(b + (i in up) for i, b in enumerate(base)))
    return res


class D07(Check):
    """On party lists the rules are the apportionment methods they generalise."""

    solver = True
    chunk = 3

    def units(self, tier):
        top = 5 if tier == "quick" else 7
        for vec in itertools.product(range(1, top + 1), repeat=2):
            for k in (1, 2, 3):
                yield (vec, k, "copies")
        for vec in itertools.product(range(1, 4 if tier == "quick" else 6), repeat=3):
            for k in (1, 2, 3):
                yield (vec, k, "copies")
        for vec in itertools.combinations_with_replacement((1, 2, 3, 5), 4):
            yield (vec[::2] + vec[1::2], 3, "copies")
            yield (vec[::2] + vec[1::2], 5, "copies")
        for vec in itertools.product(range(2, 8), repeat=2):
            yield (vec, 6, "copies")
        for vec in itertools.combinations_with_replacement((1, 2, 3, 5, 7, 11, 100), 2):
            for k in (1, 2, 3, 4):
                yield (vec, k, "weights")
        for vec in itertools.combinations_with_replacement((1, 2, 3, 5, 9), 3):
            for k in (2, 3, 4) if tier == "thorough" else (2, 3):
                yield (vec[::-1], k, "weights")

    def bounds(self, tier):
        return (
            "two parties with 1..5 voters, three parties with 1..3 voters (thorough: 1..7, 1..5), k=1..3,"
            " k=6 for two parties, four parties k=3 and 5,"
            " and one weighted voter per party with weights up to 100, k<=4; each party has k"
            " candidates; every algorithm"
        )

    def show(self, unit):
        return f"parties of {list(unit[0])} voters ({unit[2]}), k={unit[1]}"

    def unit_size(self, unit):
        return (len(unit[0]), unit[1], sum(unit[0]))

    def run(self, unit, ctx):
        from abcvoting import abcrules
        from abcvoting.preferences import Profile, Voter

        vec, k, mode = unit
        p, n = len(vec), sum(vec)
        profile = Profile(p * k)
        for i, v in enumerate(vec):
            block = range(i * k, i * k + k)
            if mode == "copies":
                profile.add_voters([block] * v)
            else:
                profile.add_voter(Voter(block, weight=v))
        dh = divisor(vec, k, lambda x: x + 1)
        sl = divisor(vec, k, lambda x: 2 * x + 1)
        lr = largest_remainder(vec, k)
        want = [(r, dh) for r in DHONDT] + [(r, sl) for r in SAINTE_LAGUE]
        want += [(r, lr) for r in LARGEST_REMAINDER]
        if mode == "copies" and n % k == 0:
            want += [(r, lr) for r in LARGEST_REMAINDER_DIVISIBLE]
        ctx.count("states", len(dh) + len(sl) + len(lr))
        if mode == "weights":
            want = [(r, x) for r, x in want if r != "leximaxphragmen"]
        for rid, seats in want:
            for r, alg, resolute in allrules.configs(rules=[rid]):
                if alg == "brute-force" and p * k > 8:
                    continue
                if alg == "branch-and-bound" and p * k > 8:
                    continue
                if rid == "leximaxphragmen" and n > 5:
                    continue
                if alg in allrules.SOLVERS and not resolute and p * k > 6:
                    continue
                if not resolute and p * k > 9:
                    continue
                if alg in allrules.SOLVERS and p * k > 9:
                    continue
                got = abcrules.compute(rid, profile, k, algorithm=alg, resolute=resolute)
                ctx.count("evaluations")
                ctx.count("transitions")
                ctx.count("traces_validated_against_impl")
                dist = {tuple(sum(1 for c in comm if c // k == i) for i in range(p)) for comm in got}
                ctx.outcome(rid, alg, sorted(dist))
                tag = f"{rid}/{alg}/{'resolute' if resolute else 'irresolute'}"
                loose = resolute or rid == "leximaxphragmen"  # breaks some of the ties
                if loose and not dist <= seats:
                    ctx.fail(tag, f"seats {sorted(dist)}, allowed {sorted(seats)}")
                if not loose and dist != seats:
                    ctx.fail(tag, f"seats {sorted(dist)}, should be {sorted(seats)}")


CHECK = D07()
