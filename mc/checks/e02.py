import itertools
from fractions import Fraction

from mc.base import Check

VALUES = (-1, 0, 1, 2, 3, 11, 1.0, "a", None, "np2", Fraction(1), (0,))
WEIGHTS = (1, 2, Fraction(1, 2), 0.5, 0, -1, Fraction(-1, 2), -0.5)
NAMES = (None, "ab", "abc", ["x", "y"], [1, 2, 3], "", ["a"], "a", [], ("p", "q"))


def value(v):
    if v == "np2":
        import numpy as np

        return np.int64(2)
    return v


class E02(Check):
    """CandidateSet, Voter and Profile accept exactly the valid arguments."""

    chunk = 10

    def units(self, tier):
        top = 3 if tier == "quick" else 4
        for n in range(top + 1):
            for head in itertools.product(range(len(VALUES)), repeat=min(n, 1)):
                yield ("sets", n, head)
        for nc in (-1, 0, 1, 2, 3):
            for i in range(len(NAMES)):
                yield ("profile", nc, (i,))

    def bounds(self, tier):
        return (
            f"candidate lists of length up to {3 if tier == 'quick' else 4} over {len(VALUES)} values (valid"
            f" indices, negative, float, string, None, numpy integer, Fraction, tuple), num_cand in"
            f" (None, 1, 2, 3, 12), as list/tuple/set, given to the constructors and to add_voter, add_voters"
            f" and item assignment (directly, as Voter, as Voter changed after its creation); weights {[str(w) for w in WEIGHTS]}; Profile"
            " constructor with num_cand -1..3 and 10 kinds of names"
        )

    def show(self, unit):
        return f"{unit[0]} {unit[1]} {unit[2]}"

    def unit_size(self, unit):
        return (unit[1],)

    def tick(self, ctx, *key):
        ctx.count("evaluations")
        ctx.count("states")
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        ctx.outcome(*key)

    def run(self, unit, ctx):
        if unit[0] == "profile":
            return self.profile(unit, ctx)
        from abcvoting.misc import CandidateSet
        from abcvoting.preferences import Profile, Voter

        _, n, head = unit
        for rest in itertools.product(range(len(VALUES)), repeat=n - len(head)):
            raw = [value(VALUES[i]) for i in head + rest]
            ints = all(VALUES[i] == "np2" or type(VALUES[i]) is int for i in head + rest)
            try:
                forms = [raw, tuple(raw)] + ([set(raw)] if len(set(raw)) == len(raw) else [])
            except TypeError:
                forms = [raw]
            for nc in (None, 1, 2, 3, 12):
                valid = (
                    ints
                    and len(set(map(int, raw))) == len(raw)
                    and all(x >= 0 and (nc is None or x < nc) for x in raw)
                )
                for form in forms:
                    for label, make in (
                        ("CandidateSet", lambda: CandidateSet(form, num_cand=nc)),
                        ("Voter", lambda: Voter(form, num_cand=nc).approved),
                        ("add_voter", lambda: self.stored(Profile, form, nc, "add")),
                        ("add_voters", lambda: self.stored(Profile, form, nc, "adds")),
                        ("setitem", lambda: self.stored(Profile, form, nc, "set")),
                        ("add_voter(Voter)", lambda: self.stored(Profile, Voter(form), nc, "add")),
                        ("add_voters(Voter)", lambda: self.stored(Profile, Voter(form), nc, "adds")),
                        ("setitem(Voter)", lambda: self.stored(Profile, Voter(form), nc, "set")),
                        ("grown Voter", lambda: self.stored(Profile, self.grown(Voter, form), nc, "add")),
                        ("set grown Voter", lambda: self.stored(Profile, self.grown(Voter, form), nc, "set")),
                    ):
                        if label not in ("CandidateSet", "Voter") and nc is None:
                            continue
                        if "grown" in label and not ints:
                            continue  # CandidateSets built by set operations
                        try:
                            got = make()
                        except (ValueError, TypeError) as e:
                            if valid:
                                ctx.fail(label, f"{form!r} num_cand={nc}: {type(e).__name__}: {e}")
                            self.tick(ctx, label, "rejected", nc, len(raw))
                            continue
                        self.tick(ctx, label, "accepted", nc, len(raw))
                        if not valid:
                            ctx.fail(label, f"{form!r} num_cand={nc}: accepted as {got}")
                        elif set(got) != set(raw) or not isinstance(got, CandidateSet):
                            ctx.fail(label, f"{form!r}: became {got!r}")
            if n <= 1 and ints and all(x >= 0 for x in raw):
                for w in WEIGHTS:
                    for label in ("Voter", "add_voter", "setitem"):
                        try:
                            if label == "Voter":
                                v = Voter(raw, weight=w)
                            else:
                                # a Voter object whose weight has been changed later
                                voter = Voter(raw)
                                voter.weight = w
                                v = self.stored(Profile, voter, 12, label[:3], whole=True)
                        except ValueError:
                            if w > 0:
                                ctx.fail("weight", f"{label}: {w!r} rejected")
                            self.tick(ctx, "weight", label, str(w), False)
                            continue
                        self.tick(ctx, "weight", label, str(w), True)
                        if w <= 0 or v.weight != w:
                            ctx.fail("weight", f"{label}: {w!r} became {v.weight!r}")

    def grown(self, Voter, form):
        """A Voter object whose approval set has been changed after its creation."""
        voter = Voter([])
        if len(set(form)) != len(form):
            raise ValueError("duplicates")
        voter.approved.update(form)
        return voter

    def stored(self, Profile, voter, nc, how, whole=False):
        """Store `voter` in a profile; an invalid one must leave the profile as it was."""
        p = Profile(nc)
        p.add_voters([[], [0]])
        before = [(id(v), sorted(v.approved), v.weight) for v in p]
        try:
            if how == "add":
                p.add_voter(voter)
            elif how == "adds":
                p.add_voters([voter])
            else:
                p[1] = voter
        except Exception:
            if [(id(v), sorted(v.approved), v.weight) for v in p] != before:
                raise RuntimeError(f"a rejected voter {voter!s} was stored")
            raise
        i = 1 if how == "set" else 2
        if len(p) != (2 if how == "set" else 3) or p[0].approved or (how != "set" and p[1].approved != {0}):
            raise RuntimeError(f"storing {voter!s} changed other voters")
        got = p[i]
        if got is voter or got.approved is getattr(voter, "approved", voter):
            raise RuntimeError(f"the profile stores the object {voter!s} it was given")
        return got if whole else got.approved

    def profile(self, unit, ctx):
        from abcvoting.preferences import Profile

        _, nc, (i,) = unit
        names = NAMES[i]
        valid = nc > 0 and (not names or len(names) >= nc)
        try:
            p = Profile(nc, cand_names=names)
        except ValueError as e:
            self.tick(ctx, "profile", "rejected", nc, i)
            if valid:
                ctx.fail("Profile", f"num_cand={nc} names={names!r}: {e}")
            return
        self.tick(ctx, "profile", "accepted", nc, i)
        if not valid:
            ctx.fail("Profile", f"num_cand={nc} names={names!r} accepted")
            return
        want = [str(x) for x in (names or range(nc))][:nc]
        if list(p.cand_names) != want or p.num_cand != nc or list(p.candidates) != list(range(nc)) or len(p):
            ctx.fail("Profile", f"num_cand={nc} names={names!r}: {p.cand_names} {p.candidates}")


CHECK = E02()
