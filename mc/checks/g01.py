import itertools
import math
from fractions import Fraction

from mc import rng as crng
from mc.base import Check

PHIS = (0.0, 0.25, 0.5, 1.0)
PS = (0.0, 0.25, 0.5, 0.75, 1.0)
ALPHAS = (0.0, 0.5, 1.0, 3.0)
DISTANCES = ("hamming", "jaccard", "zelinka", "bunke-shearer")
ALL = {m: [frozenset(c) for r in range(m + 1) for c in itertools.combinations(range(m), r)] for m in range(7)}


def ic(m, p):
    return {a: p ** len(a) * (1 - p) ** (m - len(a)) for a in ALL[m]}


def fixed(m, k):
    return {a: 1 / math.comb(m, k) for a in ALL[m] if len(a) == k}


def product(base, n):
    return independent([base] * n)


def independent(dists):
    res = {(): 1.0}
    for d in dists:
        res = {t + (a,): p * q for t, p in res.items() for a, q in d.items() if p * q > 0}
    return res


def urn(base, n, alpha):
    res = {(): 1.0}
    for i in range(n):
        new = {}
        size = 1 + i * alpha
        for t, p in res.items():
            for a, q in base.items():
                new[t + (a,)] = new.get(t + (a,), 0) + p * q / size
            if i:
                for j in range(i):
                    new[t + (t[j],)] = new.get(t + (t[j],), 0) + p * (1 - 1 / size) / i
        res = new
    return {t: p for t, p in res.items() if p > 0}


def urn_rankings(m, k, n, alpha):
    """Like urn, but balls are rankings, of which the first k candidates are approved."""
    rankings = list(itertools.permutations(range(m)))
    full = urn({r: 1 / len(rankings) for r in rankings}, n, alpha)
    res = {}
    for t, p in full.items():
        key = tuple(frozenset(r[:k]) for r in t)
        res[key] = res.get(key, 0) + p
    return res


def mallows(m, k, phi, centre):
    res, total = {}, 0
    pos = {c: i for i, c in enumerate(centre)}
    for r in itertools.permutations(range(m)):
        swaps = sum(pos[r[i]] > pos[r[j]] for i in range(m) for j in range(i + 1, m))
        w = phi**swaps
        total += w
        res[frozenset(r[:k])] = res.get(frozenset(r[:k]), 0) + w
    return {a: w / total for a, w in res.items()}


def resample(m, centre, p, phi):
    res = {}
    for a in ALL[m]:
        q = 1.0
        for c in range(m):
            yes = (1 - phi) * (c in centre) + phi * p
            q *= yes if c in a else 1 - yes
        res[a] = q
    return res


def set_distance(name, a, b):
    inter, union = len(a & b), len(a | b)
    big = max(len(a), len(b))
    if name == "hamming":
        return union - inter
    if name == "jaccard":
        return Fraction(union - inter, union) if union else None
    if name == "zelinka":
        return big - inter
    return 1 - Fraction(inter, big) if big else None


def noise(m, centre, phi, distance):
    w = {}
    for a in ALL[m]:
        d = set_distance(distance, a, centre)
        w[a] = float(phi) ** float(d)
    total = sum(w.values())
    return {a: x / total for a, x in w.items()}


def first(m, p):
    return frozenset(range(int(math.floor(p * m))))


class G01(Check):
    """Random profiles follow their documented distributions exactly."""

    chunk = 2

    def units(self, tier):
        deep = tier == "thorough"
        sizes = [(m, n) for m in (1, 2, 3) for n in (1, 2)] + [(4, 1), (5, 1), (2, 3)]
        if deep:
            sizes += [(3, 3), (4, 2), (2, 4), (6, 1)]
        for m, n in sizes:
            for p in PS:
                yield ("IC", m, n, {"p": p})
                for phi in PHIS:
                    yield ("Resampling", m, n, {"p": p, "phi": phi})
                    for d in DISTANCES if int(p * m) else DISTANCES[::2]:
                        # (jaccard and bunke-shearer need a non-empty central ballot)
                        yield ("Noise", m, n, {"p": p, "phi": phi, "distance": d})
                    for g in (1, 2, 3):
                        if g * p <= 1 and phi in (0.0, 1.0):
                            yield ("Disjoint Resampling", m, n, {"p": p, "phi": phi, "num_groups": g})
                for alpha in ALPHAS:
                    yield ("Urn", m, n, {"p": p, "replace": alpha})
            yield ("IC", m, n, {})
            for k in range(0, m + 1):
                yield ("IC fixed-size", m, n, {"setsize": k})
                for alpha in ALPHAS:
                    yield ("Urn fixed-size", m, n, {"setsize": k, "replace": alpha})
                    if m <= 3:
                        yield ("Truncated Urn", m, n, {"setsize": k, "replace": alpha})
                for phi in PHIS:
                    yield ("Truncated Mallows", m, n, {"setsize": k, "dispersion": phi})

    def bounds(self, tier):
        s = "m<=3 n<=2, (4,1), (5,1), (2,3)" + (", (3,3), (4,2), (2,4), (6,1)" if tier == "thorough" else "")
        return (
            f"(candidates, voters): {s}; p in {PS}, phi in {PHIS}, replace in {ALPHAS}, all set sizes, distances"
            f" {DISTANCES}, 1-3 groups; every outcome of every random draw"
        )

    def show(self, unit):
        return f"{unit[0]} {unit[3]} with {unit[1]} candidates and {unit[2]} voters"

    def unit_size(self, unit):
        return (unit[1], unit[2])

    def models(self, name, m, n, kw):
        """The acceptable distributions."""
        if name == "IC":
            return [product(ic(m, kw.get("p", 0.5)), n)]
        if name == "IC fixed-size":
            return [product(fixed(m, kw["setsize"]), n)]
        if name == "Urn":
            return [urn(ic(m, kw["p"]), n, kw["replace"])]
        if name == "Urn fixed-size":
            return [urn(fixed(m, kw["setsize"]), n, kw["replace"])]
        if name == "Truncated Urn":
            return [urn_rankings(m, kw["setsize"], n, kw["replace"])]
        if name == "Truncated Mallows":
            return (
                product(mallows(m, kw["setsize"], kw["dispersion"], c), n) for c in itertools.permutations(range(m))
            )
        if name == "Resampling":
            return [product(resample(m, first(m, kw["p"]), kw["p"], kw["phi"]), n)]
        if name == "Noise":
            return [product(noise(m, first(m, kw["p"]), kw["phi"], kw["distance"]), n)]
        return None

    def run(self, unit, ctx):
        from abcvoting import generate

        name, m, n, kw = unit
        kw = dict(kw)

        def once(src):
            with crng.patched(generate, crng.Rng(src)):
                spec = dict(kw, id=name)
                profile = generate.random_profile(n, m, spec)
                if spec != dict(kw, id=name):
                    ctx.fail("arguments", "the specification was modified")
                if profile.num_cand != m or len(profile) != n or any(v.weight != 1 for v in profile):
                    ctx.fail("shape", f"{len(profile)} voters, {profile.num_cand} candidates, weights {[v.weight for v in profile]}")
                return tuple(frozenset(int(c) for c in v.approved) for v in profile)

        try:
            dist, paths = crng.distribution(once)
        except (crng.Uncontrolled, crng.TooLarge) as e:
            # randomness is used in a way that cannot be enumerated: only the shape of one
            # profile is checked (never happens on the unchanged tree)
            ctx.count("uncontrolled")
            ctx.count("evaluations")
            ctx.outcome(name, "uncontrolled", str(e))
            profile = generate.random_profile(n, m, dict(kw, id=name))
            if profile.num_cand != m or len(profile) != n:
                ctx.fail("shape", f"{len(profile)} voters, {profile.num_cand} candidates")
            return
        ctx.count("evaluations", paths)
        ctx.count("traces_validated_against_impl", paths)
        ctx.count("states", len(dist))
        ctx.count("transitions", paths)
        ctx.outcome(name, m, n, sorted(kw.items()), len(dist))
        dist = {t: p for t, p in dist.items() if p > 1e-12}
        if name == "Disjoint Resampling":
            return self.disjoint(dist, m, n, kw, ctx)
        worst = None
        for want in self.models(name, m, n, kw):
            bad = [t for t in set(want) | set(dist) if abs(want.get(t, 0) - dist.get(t, 0)) > 1e-9]
            if not bad:
                return
            if worst is None:
                bad.sort(key=lambda t: [sorted(a) for a in t])
                t = bad[0]
                worst = f"ballots {[sorted(a) for a in t]} have probability {dist.get(t, 0):.6g}, should be {want.get(t, 0):.6g}"
        ctx.fail(name, worst)

    def disjoint(self, dist, m, n, kw, ctx):
        if kw["phi"] == 1.0:  # every approval is resampled
            want = product(ic(m, kw["p"]), n)
            if any(abs(want.get(t, 0) - dist.get(t, 0)) > 1e-9 for t in set(want) | set(dist)):
                ctx.fail("Disjoint Resampling", "phi=1 is not p-IC")
        else:  # every ballot is one of the (disjoint) central ballots
            ballots = {a for t in dist for a in t if a}
            if any(a & b for a in ballots for b in ballots if a != b) or len(ballots) > kw["num_groups"]:
                ctx.fail("Disjoint Resampling", f"phi=0 gives the ballots {sorted(map(sorted, ballots))}")


CHECK = G01()
