import itertools
import math

from mc.base import Check

# points with exactly representable distances
LINE = ((0,), (1,), (2,), (4,))
PLANE = ((0, 0), (3, 4), (3, 0), (0, 4))
SPACE = ((0, 0, 0), (1, 2, 2), (2, 4, 4))
RADII = (0, 0.5, 1, 2, 2.5, 4, 5)
THRESHOLDS = (1, 1.25, 2, 4)


def dist(p, q):
    s = sum((x - y) ** 2 for x, y in zip(p, q))
    r = math.isqrt(s)
    assert r * r == s
    return r


class G02(Check):
    """Euclidean profiles for given points are determined by the distances."""

    chunk = 25

    def units(self, tier):
        deep = tier == "thorough"
        for grid, n, m in (
            (LINE, 1, 1), (LINE, 1, 2), (LINE, 2, 1), (LINE, 2, 2), (LINE, 1, 3), (LINE, 2, 3), (LINE, 3, 2),
            (PLANE, 1, 2), (PLANE, 2, 2), (PLANE, 1, 3), (PLANE, 2, 1), (SPACE, 1, 2), (SPACE, 2, 2), (SPACE, 1, 3),
            (LINE, 1, 4), (PLANE, 1, 4),
        ) + (((LINE, 3, 3), (PLANE, 2, 3), (LINE, 2, 4), (LINE, 1, 5)) if deep else ()):  # fmt: skip
            for vp in itertools.product(grid, repeat=n):
                for cp in itertools.product(grid, repeat=m):
                    yield (vp, cp)

    def bounds(self, tier):
        return (
            f"all placements of voters and candidates on {LINE}, {PLANE}, {SPACE} with up to 3 voters and 3 candidates"
            f" (1 voter: 4{', more in the thorough tier' if tier == 'thorough' else ''}); all set sizes, thresholds {THRESHOLDS}, radii {RADII} (common or per voter/candidate),"
            " points as tuples, lists and arrays, return_points on and off"
        )

    def show(self, unit):
        return f"voters at {unit[0]}, candidates at {unit[1]}"

    def unit_size(self, unit):
        return (len(unit[1]), len(unit[0]), len(unit[0][0]))

    def run(self, unit, ctx):
        import numpy as np

        vp, cp = unit
        n, m = len(vp), len(cp)
        d = [[dist(v, c) for c in cp] for v in vp]
        forms = (
            (vp, cp),
            ([list(p) for p in vp], [list(p) for p in cp]),
            (np.array(vp, dtype=float), np.array(cp, dtype=float)),
        )
        i = 0
        for k in range(m + 1):
            i += 1
            for a, row in zip(self.call(unit, ctx, "Euclidean fixed-size", forms[i % 3], {"setsize": k}), d):
                if len(a) != k or any(row[x] > row[y] for x in a for y in range(m) if y not in a):
                    ctx.fail("fixed-size", f"setsize={k}: {sorted(a)} for distances {row}")
        for t in THRESHOLDS:
            i += 1
            got = self.call(unit, ctx, "Euclidean Threshold", forms[i % 3], {"threshold": t})
            want = [{c for c in range(m) if row[c] <= t * min(row)} for row in d]
            if got != want:
                ctx.fail("threshold", f"threshold={t}: {got}, should be {want}")
        radii = [(r, 0) for r in RADII] + [(0, r) for r in RADII] + [(1, 1), (0.5, 0.5), (2, 1)]
        radii += [([(j % 3) for j in range(n)], 1), (1, [(2 - j % 3) for j in range(m)]), ([2.0 - j for j in range(n)][:n] if n <= 3 else 1, [0.5 * j for j in range(m)])]
        for rv, rc in radii:
            i += 1
            lv = rv if isinstance(rv, list) else [rv] * n
            lc = rc if isinstance(rc, list) else [rc] * m
            if min(lv) < 0 or min(lc) < 0:
                continue
            got = self.call(unit, ctx, "Euclidean VCR", forms[i % 3], {"voter_radius": rv, "candidate_radius": rc})
            want = [{c for c in range(m) if row[c] <= lv[j] + lc[c]} for j, row in enumerate(d)]
            if got != want:
                ctx.fail("vcr", f"radii {rv}, {rc}: {got}, should be {want}")

    def call(self, unit, ctx, name, form, params):
        import numpy as np
        from abcvoting import generate

        n, m = len(unit[0]), len(unit[1])
        voters, cands = form
        kw = dict(params, voter_prob_distribution=None, candidate_prob_distribution=None, voter_points=voters, candidate_points=cands)
        res = []
        for points in (False, True):
            spec = dict(kw, id=name)
            if points:
                spec["return_points"] = True
            out = generate.random_profile(n, m, spec)
            for c in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
                ctx.count(c)
            if points:
                out, v, c = out
                if not np.array_equal(np.asarray(v, dtype=float), np.array(unit[0], dtype=float)):
                    ctx.fail(name, f"returned voter points {v}")
                if not np.array_equal(np.asarray(c, dtype=float), np.array(unit[1], dtype=float)):
                    ctx.fail(name, f"returned candidate points {c}")
            if len(out) != n or out.num_cand != m or any(v.weight != 1 for v in out):
                ctx.fail(name, f"{len(out)} voters, {out.num_cand} candidates")
            res.append([{int(c) for c in v.approved} for v in out])
        ctx.outcome(name, str(params), res[0])
        if res[0] != res[1]:
            ctx.fail(name, f"return_points changes the profile: {res}")
        return res[0]


CHECK = G02()
