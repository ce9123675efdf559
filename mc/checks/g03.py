import itertools
import math

from mc import rng as crng
from mc.base import Check

U, Z = crng.Grid.UNIFORM, crng.Grid.NORMAL
NAMES = ("1d_interval", "1d_gaussian", "1d_gaussian_interval", "2d_square", "2d_disc", "2d_gaussian", "2d_gaussian_disc", "3d_cube")
SIGMAS = (0.15, 0.5)
WIDTHS = (0.5, 1.0, 2.5)
BAD_NAMES = ("", "d", "interval", "xd_square", "2d_foo", "4d_cube", "2d", "1d_intervals")


def rnd(p):
    return tuple(round(float(x), 9) + 0.0 for x in p)


def support(name, center, sigma, width):
    """The points for all draws from the grids; None if only bounds are claimed."""
    dim = int(name[0])
    if name in ("1d_interval", "2d_square", "3d_cube"):
        return {rnd(c + width * (u - 0.5) for c, u in zip(center, us)) for us in itertools.product(U, repeat=dim)}
    if name == "2d_disc":
        return None
    pts = [tuple(sigma * z for z in zs) for zs in itertools.product(Z, repeat=dim)]
    if name in ("1d_gaussian_interval", "2d_gaussian_disc"):
        pts = [p for p in pts if math.hypot(*p) <= width / 2]
    return {rnd(c + x for c, x in zip(center, p)) for p in pts}


class G03(Check):
    """Point distributions have the documented centre, shape and scale; voters and candidates are independent."""

    chunk = 1

    def units(self, tier):
        for name in NAMES:
            dim = int(name[0])
            for center in (None, 0.0, 2.0, tuple(range(1, dim + 1)), tuple(-0.5 * i for i in range(dim))):
                for sigma in SIGMAS:
                    for width in WIDTHS:
                        yield ("point", name, center, sigma, width)
        for a in NAMES:
            for b in NAMES:
                if a[0] == b[0] and (a[0] != "3" or tier == "thorough"):
                    yield ("pair", a, b)
            yield ("given", a, "voters")
            yield ("given", a, "candidates")
        yield ("invalid",)

    def bounds(self, tier):
        return (
            f"distributions {NAMES}, centres as default, scalar and tuple, sigma {SIGMAS}, width {WIDTHS}; every uniform draw"
            f" from {U}, every normal draw from {Z} (at most {crng.Grid.MAX_NORMAL} normal draws per path, i.e. rejections);"
            " all pairs of voter and candidate distributions of the same dimension; malformed names and centres"
        )

    def show(self, unit):
        return str(unit)

    def unit_size(self, unit):
        return (len(unit), len(str(unit)))

    def tick(self, ctx, n, *key):
        for c in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
            ctx.count(c, n)
        ctx.outcome(*key)

    def outcomes(self, ctx, f):
        from abcvoting import generate

        def once(src):
            with crng.patched(generate, crng.Grid(src)):
                return f(generate)

        try:
            res, paths = crng.outcomes(once)
        except (crng.Uncontrolled, crng.TooLarge) as e:
            ctx.count("uncontrolled")
            self.tick(ctx, 1, str(e))
            return None
        self.tick(ctx, paths, len(res))
        return res

    def compare(self, ctx, tag, name, center, sigma, width, got):
        want = support(name, center, sigma, width)
        if want is None:
            radii = [math.dist(p, center) for p in got]
            if max(radii) > width / 2 + 1e-9:
                ctx.fail(tag, f"point at distance {max(radii)} of the centre, width {width}")
            if max(radii) < 0.95 * width / 2:
                ctx.fail(tag, f"no point further than {max(radii)} from the centre, width {width}")
            for signs in itertools.product((-1, 1), repeat=2):
                if not any(all(s * (x - c) > 1e-6 for s, x, c in zip(signs, p, center)) for p in got):
                    ctx.fail(tag, f"no point in quadrant {signs}")
        elif want != got:
            diff = sorted(want ^ got)[0]
            ctx.fail(tag, f"point {diff} is {'missing' if diff in want else 'impossible'} (centre {center}, sigma {sigma}, width {width})")

    def run(self, unit, ctx):
        getattr(self, unit[0])(unit, ctx)

    def point(self, unit, ctx):
        _, name, center, sigma, width = unit
        dim = int(name[0])
        full = center if isinstance(center, tuple) else (0.5 if center is None else center,) * dim
        forms = [center] if not isinstance(center, tuple) else [center, list(center)]
        for form in forms:
            args = {"sigma": sigma, "width": width}
            if form is not None:
                args["center_point"] = form

            def f(generate):
                d = generate.PointProbabilityDistribution(name, **args)
                p = generate.random_point(d)
                if len(p) != dim:
                    ctx.fail(name, f"point {p}")
                return rnd(p)

            got = self.outcomes(ctx, f)
            if got is not None:
                self.compare(ctx, name, name, full, sigma, width, got)

    def pair(self, unit, ctx):
        """The points of two voters/candidates are independent draws of their distributions."""
        _, a, b = unit
        ca, cb = (0.0,) * int(a[0]), (5.0,) * int(b[0])

        def f(generate):
            da = generate.PointProbabilityDistribution(a, center_point=0)
            db = generate.PointProbabilityDistribution(b, center_point=cb)
            spec = {
                "id": "Euclidean fixed-size", "voter_prob_distribution": da, "candidate_prob_distribution": db,
                "setsize": 1, "return_points": True,
            }  # fmt: skip
            profile, v, c = generate.random_profile(1, 1, spec)
            if len(profile) != 1 or set(profile[0].approved) != {0}:
                ctx.fail("pair", str(profile))
            return (rnd(v[0]), rnd(c[0]))

        saved = crng.Grid.MAX_NORMAL
        crng.Grid.MAX_NORMAL = 4
        try:
            got = self.outcomes(ctx, f)
        finally:
            crng.Grid.MAX_NORMAL = saved
        if got is None:
            return
        self.compare(ctx, f"voter {a}", a, ca, 0.15, 1.0, {v for v, _ in got})
        self.compare(ctx, f"candidate {b}", b, cb, 0.15, 1.0, {c for _, c in got})
        if not ("gaussian_" in a or "gaussian_" in b):  # rejections are cut, which couples the two
            vs, cs = {v for v, _ in got}, {c for _, c in got}
            if len(got) != len(vs) * len(cs):
                ctx.fail("pair", f"voter and candidate points of {a}, {b} are not independent")

    def given(self, unit, ctx):
        """Points for one side, a distribution for the other one."""
        _, name, side = unit
        dim = int(name[0])
        pts = [tuple(float(i + j) for j in range(dim)) for i in range(2)]

        def f(generate):
            d = generate.PointProbabilityDistribution(name, center_point=0)
            spec = {"id": "Euclidean VCR", "voter_radius": 100, "candidate_radius": 0, "return_points": True}
            if side == "voters":
                spec.update(voter_prob_distribution=None, candidate_prob_distribution=d, voter_points=pts)
                profile, v, c = generate.random_profile(2, 1, spec)
                fixed, free = v, c
            else:
                spec.update(voter_prob_distribution=d, candidate_prob_distribution=None, candidate_points=pts)
                profile, v, c = generate.random_profile(1, 2, spec)
                fixed, free = c, v
            if [rnd(p) for p in fixed] != [rnd(p) for p in pts]:
                ctx.fail("given", f"the given points were replaced by {fixed}")
            if any(set(x.approved) != set(profile.candidates) for x in profile):
                ctx.fail("given", str(profile))
            return rnd(free[0])

        got = self.outcomes(ctx, f)
        if got is not None:
            self.compare(ctx, f"given {side} {name}", name, (0.0,) * dim, 0.15, 1.0, got)

    def invalid(self, unit, ctx):
        from abcvoting import generate

        for name in BAD_NAMES:
            self.tick(ctx, 1, name)
            try:
                generate.random_point(generate.PointProbabilityDistribution(name))
                ctx.fail("invalid", f"distribution {name!r} accepted")
            except ValueError:
                pass
        for name in NAMES:
            for n in range(0, 5):
                self.tick(ctx, 1, name, n)
                try:
                    generate.PointProbabilityDistribution(name, center_point=[0.0] * n)
                    if n != int(name[0]):
                        ctx.fail("invalid", f"{name}: centre with {n} coordinates accepted")
                except ValueError:
                    if n == int(name[0]):
                        ctx.fail("invalid", f"{name}: centre with {n} coordinates rejected")


CHECK = G03()
