import random
from collections import Counter
from fractions import Fraction
from math import factorial

import itertools

from mc import domain, ref
from mc.base import Check
from mc.rulecheck import fmt


class Unsupported(Exception):
    pass


class ChoiceTree:
    """Takes over Python's random module: every draw becomes an explicit n-way choice point.

    explore(fct) runs fct once per leaf of the choice tree (depth first), yielding the exact
    probability of the leaf and the result.
    """

    def __init__(self):
        self.path = []  # (choice, number of alternatives)
        self.pos = 0

    def below(self, n):
        if self.pos == len(self.path):
            self.path.append((0, n))
        choice, alternatives = self.path[self.pos]
        if alternatives != n:
            raise Unsupported
        self.pos += 1
        return choice

    def explore(self, fct, limit):
        inst = random._inst
        runs = 0
        while True:
            self.pos = 0
            inst._randbelow = self.below
            try:
                res = fct()
            finally:
                del inst._randbelow
            runs += 1
            prob = Fraction(1)
            for _, n in self.path[: self.pos]:
                prob /= n
            yield prob, res
            del self.path[self.pos :]
            while self.path and self.path[-1][0] + 1 >= self.path[-1][1]:
                self.path.pop()
            if not self.path or runs >= limit:
                return
            choice, n = self.path[-1]
            self.path[-1] = (choice + 1, n)


def distribution(m, votes, k):
    """Exact probability of every committee under a uniformly random order of the voters."""
    dist = Counter()
    ballots = [a for a, _ in votes]
    p_order = Fraction(1, factorial(len(ballots)))
    for order in itertools.permutations(ballots):
        comm = set()
        for a in order:
            for c in sorted(a):
                if len(comm) < k:
                    comm.add(c)
        rest = [c for c in range(m) if c not in comm]
        extras = list(itertools.combinations(rest, k - len(comm)))
        for x in extras:
            dist[frozenset(comm) | frozenset(x)] += p_order / len(extras)
    return dist


class B11(Check):
    """Random serial dictator under every random choice; the trivial rule."""

    chunk = 20

    def units(self, tier):
        yield from domain.seq_m(3, 3)
        yield from domain.with_relabelings(domain.orbits(4, 3))
        yield from domain.orbits(5, 2)
        yield from domain.orbits(4, 4)
        if tier == "thorough":
            yield from domain.with_relabelings(domain.orbits(5, 3))
            yield from domain.sequences(3, 4)

    def bounds(self, tier):
        return (
            "ordered profiles m<=3 n<=3; m=4 n<=4 and m=5 n=2 up to renaming"
            + ("; m=5 n=3; ordered m=3 n=4" if tier == "thorough" else "")
            + "; all k; every leaf of the tree of random draws of each call"
        )

    def run(self, unit, ctx):
        from abcvoting import abcrules

        m, votes = domain.plain(unit)
        profile = domain.make_profile(unit)
        for k in range(1, m + 1):
            allc = set(ref.committees(m, k))
            for alg in abcrules.Rule("trivial").algorithms:
                got = [frozenset(c) for c in abcrules.compute("trivial", profile, k, algorithm=alg, resolute=False)]
                if len(got) != len(allc) or set(got) != allc:
                    ctx.fail("trivial/irresolute", f"k={k}: returned {fmt(got)}")
                got = [frozenset(c) for c in abcrules.compute("trivial", profile, k, algorithm=alg, resolute=True)]
                if len(got) != 1 or got[0] not in allc:
                    ctx.fail("trivial/resolute", f"k={k}: returned {fmt(got)}")
                ctx.count("evaluations", 2)
                ctx.count("traces_validated_against_impl", 2)

            want = distribution(m, votes, k)
            ctx.count("states", len(want))
            leaves, seen, bad = self.observe(abcrules, profile, k, ctx)
            if bad:
                ctx.fail("rsd", f"k={k}: returned {bad}")
                continue
            ctx.outcome(k, sorted((sorted(c), str(p)) for c, p in seen.items()))
            controlled = leaves > 1 or len(want) == 1
            if dict(seen) != dict(want) and controlled:
                # is every draw under control? otherwise other seeds give other results
                for seed in range(20):
                    random.seed(seed)
                    if self.observe(abcrules, profile, k, ctx)[1] != seen:
                        controlled = False
            if not controlled:
                # draws did not come from Python's random module or not through its integer
                # draws: observe the possible results over seeds instead
                seen = set()
                for seed in range(300):
                    random.seed(seed)
                    seen.add(frozenset(abcrules.compute("rsd", profile, k)[0]))
                if not seen <= set(want) or (min(want.values()) > Fraction(1, 20) and seen != set(want)):
                    ctx.fail("rsd", f"k={k}: results {fmt(seen)}, possible are {fmt(want)}")
            elif dict(seen) != dict(want):
                show = lambda d: {str(sorted(c)): str(p) for c, p in sorted(d.items(), key=lambda x: sorted(x[0]))}
                ctx.fail("rsd", f"k={k}: distribution {show(seen)}, should be {show(want)}")

    def observe(self, abcrules, profile, k, ctx):
        seen = Counter()
        leaves = 0
        try:
            for prob, res in ChoiceTree().explore(lambda: abcrules.compute("rsd", profile, k), 20000):
                leaves += 1
                if len(res) != 1:
                    return leaves, seen, res
                seen[frozenset(res[0])] += prob
        except Unsupported:
            pass
        ctx.count("transitions", leaves)
        ctx.count("evaluations", leaves)
        ctx.count("traces_validated_against_impl", leaves)
        return leaves, seen, None


CHECK = B11()
