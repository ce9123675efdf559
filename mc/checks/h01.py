import itertools
from fractions import Fraction

from mc import domain, ref
from mc.base import Check

FCTS = ("pav", "slav", "cc", "av", "geom2", "geom3", "geom3/2", "geom1.5", "geom1", "geom1/2", "atleast1", "atleast2", "atleast3")
BAD = ("", "PAV", "pav ", "geo", "at", "monroe", "geomx", "geom", "atleast", "atleastx", "atleast1.5")
WEIGHTS = (1, 2, "1/2", "1/3")


def f(name, i):
    """The marginal score of the i-th approved committee member."""
    if i <= 0:
        return Fraction(0)
    if name == "pav":
        return Fraction(1, i)
    if name == "slav":
        return Fraction(1, 2 * i - 1)
    if name == "av":
        return Fraction(1)
    if name == "cc":
        return Fraction(i == 1)
    if name.startswith("geom"):
        return Fraction(1) / Fraction(name[4:]) ** (i - 1)
    return Fraction(i == int(name[7:]))


def score(name, votes, comm):
    comm = set(comm)
    return sum((w * sum(f(name, i) for i in range(1, len(a & comm) + 1)) for a, w in votes), Fraction(0))


class H01(Check):
    """The score functions compute what they are defined to compute."""

    chunk = 30

    def units(self, tier):
        deep = tier == "thorough"
        yield from domain.seq_m(3, 3 if deep else 2)
        for n in (1, 2, 3) + ((4,) if deep else ()):
            yield from domain.multisets(3, n)
        for n in (1, 2) + ((3,) if deep else ()):
            yield from domain.multisets(4, n)
        for n in (4, 5, 6):
            yield from domain.multisets(2, n)
        if not deep:
            yield from domain.with_relabelings(domain.orbits(4, 3), ("rot",))
        yield from domain.with_relabelings(domain.orbits(3, 5), ("rot",))
        yield from domain.weighted(list(domain.multisets(2, 2)) + list(domain.orbits(3, 2)), WEIGHTS)
        yield from domain.staircase(7, 6, (1, 3))
        yield from domain.staircase(6, 5, (2, 3), weights=(1, 2, "1/3", 1, 5))
        yield from domain.wide(1 if not deep else 2)
        yield ("functions",)

    def bounds(self, tier):
        return (
            "ordered m<=3 n<=2, multisets m<=4 n<=3, m=2 n<=6, orbits m=3 n=5, 12 candidates, cyclic intervals m=7 n=6, weights over"
            f" {WEIGHTS}; all committees of all sizes (as set, list, tuple, CandidateSet); score functions {FCTS};"
            f" unknown identifiers {BAD}"
        )

    def show(self, unit):
        return unit[0] if len(unit) == 1 else domain.describe(unit)

    def unit_size(self, unit):
        return (0,) if len(unit) == 1 else domain.size_key(unit)

    def tick(self, ctx, *key):
        for c in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
            ctx.count(c)
        ctx.outcome(*key)

    def run(self, unit, ctx):
        from abcvoting import scores
        from abcvoting.misc import CandidateSet

        if len(unit) == 1:
            return self.functions(scores, ctx)
        m, votes = domain.plain(unit)
        profile = domain.make_profile(unit)
        n = len(votes)
        if m > 5:
            comms = [c for r in (1, 2, m - 1, m) for c in itertools.combinations(range(m), r)]
            comms = [c for i, c in enumerate(comms) if i % 7 == 0 or len(c) != 2]
        else:
            comms = [c for r in range(m + 1) for c in itertools.combinations(range(m), r)]
        forms = (set, list, tuple, CandidateSet, lambda c: list(reversed(c)))
        for j, c in enumerate(comms):
            comm = forms[j % len(forms)](c)
            for name in FCTS if m < 4 or n < 3 else FCTS[j % 3 :: 3]:
                want = score(name, votes, c)
                got = scores.thiele_score(name, profile, comm)
                self.tick(ctx, name, want)
                if got != want:
                    ctx.fail("thiele_score", f"{name} {sorted(c)}: {got}, should be {want}")
                fct = scores.get_marginal_scorefct(name)
                add = scores.marginal_thiele_scores_add(fct, profile, comm)
                rem = scores.marginal_thiele_scores_remove(fct, profile, set(c))
                if len(add) != m or len(rem) != m:
                    ctx.fail("marginal", f"{len(add)}, {len(rem)} scores")
                    continue
                members = []
                for x in range(m):
                    if x in c:
                        members.append(score(name, votes, c) - score(name, votes, set(c) - {x}))
                        if add[x] != -1:
                            ctx.fail("add", f"{name} {sorted(c)}: member {x} has score {add[x]}")
                        if rem[x] != members[-1]:
                            ctx.fail("remove", f"{name} {sorted(c)}: removing {x} costs {rem[x]}, should be {members[-1]}")
                    else:
                        w = score(name, votes, set(c) | {x}) - score(name, votes, c)
                        if add[x] != w:
                            ctx.fail("add", f"{name} {sorted(c)}: adding {x} gives {add[x]}, should be {w}")
                for x in range(m):
                    if x not in c and any(rem[x] <= y for y in members):
                        ctx.fail("remove", f"{name} {sorted(c)}: non-member {x} has score {rem[x]}")
            d = [len(a ^ set(c)) for a, _ in votes]
            got = scores.minimaxav_score(profile, comm)
            self.tick(ctx, "mav", got)
            if got != max(d):
                ctx.fail("minimaxav_score", f"{sorted(c)}: {got}, should be {max(d)}")
            for b in range(-1, m + 2):
                got = scores.num_voters_with_upper_bounded_hamming_distance(b, profile, comm)
                if got != sum(x <= b for x in d):
                    ctx.fail("hamming bound", f"{sorted(c)}, bound {b}: {got}")
            if c and unit[2] is None:
                want = ref.monroe_score(votes, c)
                for fct in ("monroescore", "monroescore_flowbased", "monroescore_matching"):
                    try:
                        got = getattr(scores, fct)(profile, comm)
                    except ValueError:
                        if fct == "monroescore_matching" and n % len(c):
                            continue
                        raise
                    self.tick(ctx, fct, got)
                    if fct == "monroescore_matching" and n % len(c):
                        ctx.fail(fct, f"accepted {n} voters and {len(c)} candidates")
                    if got != want:
                        ctx.fail(fct, f"{sorted(c)}: {got}, should be {want}")
            if sorted(comm) != sorted(c):
                ctx.fail("arguments", f"committee {c} became {comm}")

    def functions(self, scores, ctx):
        for name in FCTS:
            fct = scores.get_marginal_scorefct(name)
            for i in range(0, 40):
                self.tick(ctx, name, i)
                if i and fct(i) != f(name, i):
                    ctx.fail("marginal score function", f"{name}({i}) = {fct(i)}, should be {f(name, i)}")
                if fct(0) != 0:
                    ctx.fail("marginal score function", f"{name}(0) = {fct(0)}")
                want = sum(f(name, j) for j in range(1, i + 1))
                if scores.cumulative_score(fct, i) != want:
                    ctx.fail("cumulative_score", f"{name}, {i}: {scores.cumulative_score(fct, i)}, should be {want}")
        for base in (1, 2, 3, Fraction(3, 2), Fraction(1, 2), 1.5, 2.0, 0.5, 10):
            for i in range(0, 12):
                self.tick(ctx, "geom", str(base), i)
                got = scores.geometric_marginal_score_fct(i, base=base)
                want = f(f"geom{Fraction(base)}", i)
                if got != want:
                    ctx.fail("geometric_marginal_score_fct", f"{i}, base {base!r}: {got}, should be {want}")
        for name in BAD:
            self.tick(ctx, name)
            try:
                scores.get_marginal_scorefct(name)
                ctx.fail("unknown", f"{name!r} accepted")
            except ValueError:
                pass


CHECK = H01()
