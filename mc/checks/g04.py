from mc import rng as crng
from mc.base import Check

FIXED = {
    "IC fixed-size": {},
    "Urn fixed-size": {"replace": 0.5},
    "Truncated Urn": {"replace": 0.5},
    "Truncated Mallows": {"dispersion": 0.5},
    "Euclidean fixed-size": None,
}
GOOD = {
    "IC": {"p": 0.5}, "IC fixed-size": {"setsize": 2}, "Truncated Mallows": {"setsize": 2, "dispersion": 0.5},
    "Urn fixed-size": {"setsize": 2, "replace": 0.5}, "Urn": {"p": 0.5, "replace": 0.5},
    "Truncated Urn": {"setsize": 2, "replace": 0.5}, "Resampling": {"p": 0.5, "phi": 0.5},
    "Disjoint Resampling": {"p": 0.5, "phi": 0.5, "num_groups": 2}, "Noise": {"p": 0.5, "phi": 0.5, "distance": "jaccard"},
}  # fmt: skip
RANGE = {  # parameter -> values out of range
    "p": (-0.1, 1.1), "phi": (-0.1, 1.1), "dispersion": (-0.1, 1.1), "setsize": (-1, 4, 5), "replace": (-0.5,),
    "distance": ("", "euclid"), "num_groups": (0, -1),
}  # fmt: skip
POINTS = {
    "voter_prob_distribution": None, "candidate_prob_distribution": None,
    "voter_points": [[0, 0], [1, 1]], "candidate_points": [[0, 1], [1, 0], [1, 1]],
}  # fmt: skip
EUCLID = {
    "Euclidean VCR": {"voter_radius": 1, "candidate_radius": 0},
    "Euclidean fixed-size": {"setsize": 2},
    "Euclidean Threshold": {"threshold": 1.5},
}


class G04(Check):
    """Ballot sizes are exact for all numbers of candidates; invalid specifications are rejected."""

    chunk = 4

    def units(self, tier):
        for name in FIXED:
            for m in range(1, 161 if tier == "thorough" else 61):
                yield ("sizes", name, m)
        for name in list(GOOD) + list(EUCLID):
            yield ("invalid", name)
        yield ("unknown",)

    def bounds(self, tier):
        return (
            f"all set sizes 0..m for all m <= {160 if tier == 'thorough' else 60} and all fixed-size distributions; every single deviation"
            f" of every distribution's parameters to {RANGE}, missing and unknown parameters, wrong numbers and dimensions of points"
        )

    def show(self, unit):
        return " ".join(str(x) for x in unit)

    def unit_size(self, unit):
        return (unit[-1] if unit[0] == "sizes" else 0,)

    def tick(self, ctx, *key):
        for c in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
            ctx.count(c)
        ctx.outcome(*key)

    def run(self, unit, ctx):
        getattr(self, unit[0])(unit, ctx)

    def sizes(self, unit, ctx):
        from abcvoting import generate

        _, name, m = unit
        for k in range(m + 1):
            self.tick(ctx, name, m, k)
            spec = dict(POINTS if FIXED[name] is None else FIXED[name], id=name, setsize=k)
            if FIXED[name] is None:
                spec.update(voter_points=[[0]], candidate_points=[[(i * 7) % m] for i in range(m)])

            def once():
                return generate.random_profile(1, m, spec)

            try:
                with crng.patched(generate, crng.Rng(crng.Source())):
                    profile = once()
            except crng.Uncontrolled:
                profile = once()
            if len(profile) != 1 or profile.num_cand != m or len(profile[0].approved) != k:
                ctx.fail(name, f"setsize={k} with {m} candidates: ballot of size {len(profile[0].approved)}")
                return

    def attempt(self, ctx, spec, n, m, errors=(ValueError,)):
        from abcvoting import generate

        self.tick(ctx, str(spec), n, m)
        try:
            return generate.random_profile(n, m, spec)
        except errors:
            return None

    def invalid(self, unit, ctx):
        name = unit[1]
        if name in GOOD:
            good = dict(GOOD[name], id=name)
            n, m = 2, 3
        else:
            good = dict(EUCLID[name], id=name, **POINTS)
            n, m = 2, 3
        out = self.attempt(ctx, good, n, m)
        if out is None or len(out) != n or out.num_cand != m:
            ctx.fail(name, f"{good}: {out}")
        for key, values in RANGE.items():
            if key in good:
                for v in values:
                    out = self.attempt(ctx, dict(good, **{key: v}), n, m)
                    if out is not None:
                        ctx.fail(name, f"{key}={v} accepted: {out.str_compact()}")
        for key in good:
            if key in ("id", "p", "phi", "distance", "num_groups", "voter_points", "candidate_points"):
                continue
            spec = {k: v for k, v in good.items() if k != key}
            if self.attempt(ctx, spec, n, m, (TypeError,)) is not None:
                ctx.fail(name, f"accepted without {key}")
        if self.attempt(ctx, dict(good, nonsense=1), n, m, (TypeError,)) is not None:
            ctx.fail(name, "accepted an unknown parameter")
        if name in EUCLID:
            for dn in (-1, 1):
                for kind in ("voter_points", "candidate_points"):
                    pts = good[kind] + [[0, 0]] if dn == 1 else good[kind][:-1]
                    if self.attempt(ctx, dict(good, **{kind: pts}), n, m) is not None:
                        ctx.fail(name, f"accepted {len(pts)} points as {kind}")
            if self.attempt(ctx, dict(good, candidate_points=[[0], [1], [2]]), n, m) is not None:
                ctx.fail(name, "accepted points of different dimensions")
            if self.attempt(ctx, dict(good, candidate_points=[[0, 0], [1, 1], [2]]), n, m) is not None:
                ctx.fail(name, "accepted points of different dimensions")
        if name == "Euclidean Threshold":
            if self.attempt(ctx, dict(good, threshold=0.9), n, m) is not None:
                ctx.fail(name, "accepted a threshold below 1")

    def unknown(self, unit, ctx):
        from abcvoting import generate

        for name in ("", "ic", "IC ", "Mallows", None, "Euclidean"):
            if self.attempt(ctx, {"id": name, "p": 0.5}, 2, 2) is not None:
                ctx.fail("unknown", f"id {name!r} accepted")
        if self.attempt(ctx, {"p": 0.5}, 2, 2, (KeyError,)) is not None:
            ctx.fail("unknown", "accepted without an id")
        ids = set(generate.PROBABILITY_DISTRIBUTION_IDS)
        self.tick(ctx, sorted(ids))
        if ids != set(GOOD) | set(EUCLID):
            ctx.fail("unknown", f"PROBABILITY_DISTRIBUTION_IDS = {sorted(ids)}")


CHECK = G04()
