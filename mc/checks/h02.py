import itertools
import math

from mc.base import Check

SETS = ((), (0,), (1,), (0, 1), (0, 2))


class H02(Check):
    """Set and text helpers agree with their definitions."""

    chunk = 20

    def units(self, tier):
        size = 6 if tier == "thorough" else 5
        for mask in range(1 << size):
            yield ("hamming", size, mask)
        for n in range(8):
            yield ("powerset", n)
        for n in range(25):
            yield ("binom", n)
        lists = [x for r in range(4) for x in itertools.product(range(len(SETS)), repeat=r)]
        for x in lists:
            yield ("compare", x)
        for m in range(0, 4):
            for masks in itertools.product(range(8), repeat=m):
                yield ("text", masks)
        yield ("isclose",)
        yield ("header",)

    def bounds(self, tier):
        return (
            f"all pairs of subsets of {6 if tier == 'thorough' else 5} elements; power sets of up to 7 elements; binomials up to 24; all pairs of"
            " lists of up to 3 of 5 committees; texts of all lists of up to 3 committees; header texts; isclose on a grid"
        )

    def show(self, unit):
        return str(unit)

    def unit_size(self, unit):
        return (len(str(unit)),)

    def tick(self, ctx, *key):
        for c in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
            ctx.count(c)
        ctx.outcome(*key)

    def run(self, unit, ctx):
        from abcvoting import misc

        getattr(self, unit[0])(misc, ctx, *unit[1:])

    def hamming(self, misc, ctx, size, mask):
        a = [i for i in range(size) if mask >> i & 1]
        for other in range(1 << size):
            b = [i for i in range(size) if other >> i & 1]
            want = bin(mask ^ other).count("1")
            for x, y in ((set(a), set(b)), (misc.CandidateSet(a), tuple(b)), (tuple(reversed(a)), b), (a, frozenset(b))):
                got = misc.hamming(x, y)
                self.tick(ctx, "hamming", got)
                if got != want:
                    ctx.fail("hamming", f"{x}, {y}: {got}")

    def powerset(self, misc, ctx, n):
        for items in (range(n), "abcdefgh"[:n], iter(range(n))):
            items = list(items)
            for k in [None] + list(range(0, n + 2)):
                for arg in (items, iter(items), set(items)):
                    got = [frozenset(x) for x in misc.powerset(arg, max_size=k)]
                    self.tick(ctx, "powerset", n, k, len(got))
                    top = n if k is None else min(k, n)
                    want = {frozenset(c) for r in range(top + 1) for c in itertools.combinations(items, r)}
                    if len(got) != len(want) or set(got) != want:
                        ctx.fail("powerset", f"{items}, max_size={k}: {len(got)} sets, should be {len(want)}")

    def binom(self, misc, ctx, n):
        for k in range(0, 30):
            got = misc.binom(n, k)
            self.tick(ctx, n, k)
            if got != math.comb(n, k):
                ctx.fail("binom", f"({n}, {k}): {got}")

    def compare(self, misc, ctx, x):
        a = [misc.CandidateSet(SETS[i]) for i in x]
        for r in range(4):
            for y in itertools.product(range(len(SETS)), repeat=r):
                b = [misc.CandidateSet(SETS[i]) for i in y]
                want = set(x) == set(y)
                self.tick(ctx, "compare", want, len(x), r)
                if misc.compare_list_of_committees(a, b) != want:
                    ctx.fail("compare_list_of_committees", f"{a}, {b}: {not want}")
                for resolute in (False, True):
                    ok = (len(a) == 1 and x[0] in y) if resolute else want
                    try:
                        misc.verify_expected_committees_equals_actual_committees(
                            actual_committees=a, expected_committees=b, resolute=resolute
                        )
                        got = True
                    except (ValueError, RuntimeError):
                        got = False
                    if got != ok:
                        ctx.fail("verify", f"{a}, {b}, resolute={resolute}: {'accepted' if got else 'rejected'}")
        for bad in (tuple(SETS[1]), [0]):
            for args in ((a + [bad], a), (a, a + [bad])):
                self.tick(ctx, "bad")
                try:
                    misc.compare_list_of_committees(*args)
                    ctx.fail("compare_list_of_committees", f"accepted {args}")
                except ValueError:
                    pass

    def text(self, misc, ctx, masks):
        names = ["x, y", "b", "Ä"]
        self.text_with(misc, ctx, [[i for i in range(3) if x >> i & 1] for x in masks], names)
        far = [[c for i, c in enumerate((2, 10, 11)) if x >> i & 1] for x in masks]
        self.text_with(misc, ctx, far, [f"n{(i * 5) % 12}" for i in range(12)])

    def text_with(self, misc, ctx, comms, names):
        for given in (None, names, "abcdefghijkl"):
            for form in (set, list, misc.CandidateSet):
                cs = [form(c) for c in comms]
                parts = []
                for c, plain in zip(cs, comms):
                    got = misc.str_set_of_candidates(c, given)
                    want = "{" + ", ".join(sorted(str(i) if given is None else given[i] for i in plain)) + "}"
                    self.tick(ctx, want)
                    parts.append(want)
                    if got != want:
                        ctx.fail("str_set_of_candidates", f"{got}, should be {want}")
                    if form is misc.CandidateSet:
                        if c.str_with_names(given) != want or (given is None and str(c) != want):
                            ctx.fail("CandidateSet", f"{c.str_with_names(given)}, {c}, should be {want}")
                if cs:
                    lines = misc.str_sets_of_candidates(cs, given)
                    if lines != "".join(f" {p}\n" for p in parts):
                        ctx.fail("str_sets_of_candidates", repr(lines))
                for winning in (False, True):
                    got = misc.str_committees_with_header(cs, given, winning)
                    what = "winning committee" if winning else "committee"
                    if not cs:
                        want = f"No {what}s"
                    else:
                        want = f"{len(cs)} {what}{'' if len(cs) == 1 else 's'}:\n" + "".join(f" {p}\n" for p in parts)
                    if got != want:
                        ctx.fail("str_committees_with_header", f"{got!r}, should be {want!r}")
        got = misc.sorted_committees(tuple(c) for c in comms)
        self.tick(ctx, len(got))
        if not all(isinstance(c, misc.CandidateSet) for c in got) or sorted(map(sorted, got)) != sorted(map(sorted, comms)):
            ctx.fail("sorted_committees", str(got))
        for p in itertools.permutations(comms):
            if misc.sorted_committees(list(p)) != got:
                ctx.fail("sorted_committees", f"order of {p} depends on the order of the input")

    def isclose(self, misc, ctx):
        for x in (0, 1, -1, 0.1, 1 / 3, 1e6, 1e-3, 12345.678, 1e15):
            for rel, want in ((0, True), (1e-15, True), (1e-14, True), (1e-9, False), (1e-6, False), (0.1, False)):
                if x == 0 or (rel and not want and abs(x) * rel < 1e-10):
                    continue
                y = x * (1 + rel)
                self.tick(ctx, want)
                if misc.isclose(x, y) != want or misc.isclose(y, x) != want:
                    ctx.fail("isclose", f"{x!r}, {y!r}: {not want}")
            if misc.isclose(x, x + 1e-14) != True or (abs(x) < 1e3 and misc.isclose(x, x + 1e-7)):
                ctx.fail("isclose", f"{x}")

    def header(self, misc, ctx):
        for text in ("", "a", "PAV", "x" * 100, "Ünï - code"):
            for s in "-=*":
                self.tick(ctx, text, s)
                got = misc.header(text, s)
                if got != s * len(text) + "\n" + text + "\n" + s * len(text) + "\n":
                    ctx.fail("header", repr(got))


CHECK = H02()
