import itertools
import os
from collections import Counter

from mc.base import Check

HEADER = """# FILE NAME: {file}
# TITLE: {file}
# DESCRIPTION:
# DATA TYPE: {ext}
# MODIFICATION TYPE: original
# RELATES TO:
# RELATED FILES:
# PUBLICATION DATE:
# MODIFICATION DATE:
# NUMBER ALTERNATIVES: {m}
# NUMBER VOTERS: {n}
# NUMBER UNIQUE {kind}: {u}
"""


def weak_orders(m, complete):
    """All weak orders (tuples of disjoint nonempty classes) of all (or of some) alternatives."""

    def orders(rest):
        if not rest:
            yield ()
            return
        for r in range(1, len(rest) + 1):
            for cls in itertools.combinations(rest, r):
                left = tuple(x for x in rest if x not in cls)
                for tail in orders(left):
                    yield (cls,) + tail

    alts = tuple(range(m))
    for r in [m] if complete else range(1, m + 1):
        for sub in itertools.combinations(alts, r):
            yield from orders(sub)


def categories(m, c):
    """All ways to put (some) alternatives into c categories, empty categories allowed."""
    for where in itertools.product(range(c + 1), repeat=m):
        res = tuple(tuple(a for a in range(m) if where[a] == i) for i in range(c))
        if any(res):
            yield res


def votes_of(ext, m):
    if ext == "cat":
        return list(dict.fromkeys(list(categories(m, 2)) + list(categories(m, 3))))
    res = list(weak_orders(m, ext in ("soc", "toc")))
    if ext in ("soc", "soi"):
        res = [o for o in res if all(len(c) == 1 for c in o)]
    return res


IDS = {"123": lambda i: i + 1, "sparse": lambda i: (7, 3, 11, 5)[i]}


class F03(Check):
    """Preflib files are turned into approval sets as top_ranks / setsize / use_weights say."""

    chunk = 60

    def units(self, tier):
        for ext in ("soc", "soi", "toc", "toi", "cat"):
            for m in (1, 2, 3):
                n = len(votes_of(ext, m))
                for i in range(n):
                    yield (ext, m, (i,), "123")
                    yield (ext, m, (i,), "sparse")
                if m <= 3:  # ordered pairs
                    for pair in itertools.permutations(range(n), 2):
                        yield (ext, m, pair, "123")
            if tier == "thorough" or ext in ("soc", "toc"):
                for i in range(len(votes_of(ext, 4))):
                    yield (ext, 4, (i,), "sparse")
        yield ("args", 3, (0,), "123")

    def bounds(self, tier):
        return (
            "soc, soi, toc, toi and cat files with 1..3 alternatives (4 for soc/toc): every single vote"
            " (two numberings of the alternatives) and every ordered pair of votes with multiplicities (2, 3)"
            + "; top_ranks 1..m+1, setsize 1..m+1, default; use_weights on and off; invalid parameters"
        )

    def show(self, unit):
        return f"{unit[0]} file, {unit[1]} alternatives, votes {[votes_of(unit[0], unit[1])[i] for i in unit[2]] if unit[0] != 'args' else ''} numbering {unit[3]}"

    def unit_size(self, unit):
        return (unit[1], len(unit[2]))

    def run(self, unit, ctx):
        from abcvoting import fileio

        ext, m, picks, numbering = unit
        if ext == "args":
            return self.args(fileio, ctx)
        orders = [votes_of(ext, m)[i] for i in picks]
        counts = (2, 3)[: len(orders)] if len(orders) > 1 else (1,)
        path = os.path.abspath(f"f03-{os.getpid()}.{ext}")
        ident = IDS[numbering]
        with open(path, "w") as f:
            kind = "PREFERENCES" if ext == "cat" else "ORDERS"
            f.write(HEADER.format(file=os.path.basename(path), ext=ext, m=m, n=sum(counts), kind=kind, u=len(orders)))
            if ext == "cat":
                f.write(f"# NUMBER CATEGORIES: {max(len(o) for o in orders)}\n")
                for i in range(max(len(o) for o in orders)):
                    f.write(f"# CATEGORY NAME {i + 1}: C{i + 1}\n")
            for a in range(m):
                f.write(f"# ALTERNATIVE NAME {ident(a)}: name {a}\n")
            for o, c in zip(orders, counts):
                cls = []
                for x in o:
                    ids = ",".join(str(ident(a)) for a in x)
                    cls.append(ids if len(x) == 1 else "{" + ids + "}")
                f.write(f"{c}: {', '.join(cls)}\n")
        try:
            self.compare(fileio, path, m, orders, counts, ctx)
        finally:
            os.remove(path)

    def compare(self, fileio, path, m, orders, counts, ctx):
        params = [{}] + [{"top_ranks": t} for t in range(1, m + 2)] + [{"setsize": s} for s in range(1, m + 2)]
        for kw in params:
            want = Counter()
            for o, c in zip(orders, counts):
                if "setsize" in kw:
                    appr = []
                    for cls in o:
                        if len(appr) < kw["setsize"]:
                            appr += cls
                    if len(appr) < kw["setsize"]:
                        appr = range(m)
                else:
                    appr = [a for cls in o[: kw.get("top_ranks", 1)] for a in cls]
                want[frozenset(appr)] += c
            for use_weights in (False, True):
                got = fileio.read_preflib_file(path, use_weights=use_weights, **kw)
                for name in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
                    ctx.count(name)
                have = Counter()
                for v in got:
                    have[frozenset(v.approved)] += v.weight
                ctx.outcome(sorted(kw.items()), sorted((sorted(a), c) for a, c in have.items()))
                tag = f"{kw} use_weights={use_weights}"
                if have != want:
                    ctx.fail(tag, f"approval sets {[(sorted(a), c) for a, c in have.items()]}, should be {[(sorted(a), c) for a, c in want.items()]}")
                if len(got) != (len(orders) if use_weights else sum(counts)):
                    ctx.fail(tag, f"{len(got)} voters")
                if got.num_cand != m or list(got.cand_names) != [f"name {a}" for a in range(m)]:
                    ctx.fail(tag, f"candidates {list(got.cand_names)}")

    def args(self, fileio, ctx):
        path = os.path.abspath(f"f03-{os.getpid()}.soc")
        with open(path, "w") as f:
            f.write(HEADER.format(file="x.soc", ext="soc", m=2, n=1, kind="ORDERS", u=1))
            f.write("# ALTERNATIVE NAME 1: a\n# ALTERNATIVE NAME 2: b\n1: 1,2\n")
        try:
            for t in (None, -1, 0, 1, 2):
                for s in (None, -1, 0, 1, 2):
                    bad = (t is not None and s is not None) or (t is not None and t <= 0) or (s is not None and s <= 0)
                    for name in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
                        ctx.count(name)
                    ctx.outcome(t, s, bad)
                    try:
                        got = fileio.read_preflib_file(path, top_ranks=t, setsize=s)
                        if bad:
                            ctx.fail("args", f"top_ranks={t} setsize={s} accepted: {[sorted(v.approved) for v in got]}")
                    except ValueError:
                        if not bad:
                            ctx.fail("args", f"top_ranks={t} setsize={s} rejected")
        finally:
            os.remove(path)


CHECK = F03()
