from mc import allrules, domain, trace
from mc.base import Check
from mc.checks.c08 import plainres

A = (4, (0b0011, 0b0110, 0b1100), None)
B = (4, (0b1100, 0b1000, 0b1010, 0b0001), None)  # other answers, another number of voters
C = (3, (0b011, 0b110), (2, 1))
PROFILES = {"A": (A, 2), "B": (B, 3), "C": (C, 1)}


class Interrupted(BaseException):
    pass


def make_ops():
    """name -> (group, uses a solver, function of the profiles)."""
    from abcvoting import abcrules, misc, properties, scores

    ops = {}

    def rule(rid, alg, resolute, name):
        k = PROFILES[name][1]
        return lambda env: plainres(abcrules.compute(rid, env[name], k, algorithm=alg, resolute=resolute))

    for rid, alg, resolute in allrules.configs():
        if rid == "rsd":
            continue
        solver = alg in allrules.SOLVERS or rid == "maximin-support"
        if solver and resolute and rid != "maximin-support":
            continue  # which of the winning committees is found is not specified
        for name, (u, k) in PROFILES.items():
            if name == "C" and (solver or not allrules.weights_ok(rid, alg, u)):
                continue
            if name == "B" and rid == "leximaxphragmen":
                continue
            ops[f"{rid}/{alg}/{'res' if resolute else 'irr'}/{name}"] = (rid, solver, rule(rid, alg, resolute, name))

    def prop(name, alg, prof, comm):
        kw = {} if alg is None else {"algorithm": alg}
        return lambda env: properties.check(name, env[prof], comm, **kw)

    for name in properties.PROPERTY_NAMES:
        for alg in ("gurobi", "brute-force"):
            if alg == "brute-force" and "price" in name:
                continue
            solver = alg == "gurobi" and name not in ("jr", "ejr+")
            if alg == "gurobi" and not solver:
                alg = None
            elif name in ("jr", "ejr+"):
                continue
            for prof, comm in (("A", {0, 1}), ("B", {0, 1, 3})):
                ops[f"check-{name}/{alg}/{prof}"] = ("check-" + name, solver, prop(name, alg, prof, comm))

    for prof, comm in (("A", {0, 1}), ("B", {0, 1, 3})):

        def score(env, prof=prof, comm=comm):
            p = env[prof]
            return [str(scores.thiele_score(s, p, comm)) for s in ("pav", "cc", "slav", "geom3", "av", "atleast2")] + [
                scores.monroescore(p, comm),
                scores.minimaxav_score(p, comm),
            ]

        def text(env, prof=prof, comm=comm):
            p = env[prof]
            return [
                str(p), p.str_compact(), misc.str_committees_with_header([comm, {0}], p.cand_names), p.is_party_list(),
                sorted(p.approved_candidates()), p.total_weight(), str(p.copy()), misc.dominate(p, comm, {0, 2}),
            ]  # fmt: skip

        def convert(env, prof=prof):
            p = env[prof].copy()
            p.convert_to_weighted()
            merged = sorted((sorted(v.approved), v.weight) for v in p)
            p.convert_to_unit_weights()
            return [merged, sorted(sorted(v.approved) for v in p)]

        ops[f"scores/-/{prof}"] = ("scores", False, score)
        ops[f"text/-/{prof}"] = ("text", False, text)
        ops[f"convert/-/{prof}"] = ("convert", False, convert)
    # sets and restores the verbosity itself, so it is only interrupted while a property is checked
    ops["full_analysis/-/A"] = ("full_analysis", True, lambda env: properties.full_analysis(env["A"], {0, 1}))
    return ops


def fresh_env():
    return {name: domain.make_profile(u) for name, (u, _) in PROFILES.items()}


class C10(Check):
    """Computations running at the same time do not influence each other, interrupted ones leave no trace."""

    solver = True
    chunk = 2

    def setup(self):
        self.ops = make_ops()
        self.names = list(self.ops)
        self.env = fresh_env()
        self.before = {n: allrules.snapshot(p) for n, p in self.env.items()}
        self.base = {n: self.ops[n][2](self.env) for n in self.names}

    def others(self, name, tier="quick"):
        """The computations that run in between: the same rule on another profile and two others."""
        group, solver, _ = self.ops[name]
        tail = name.rsplit("/", 1)
        same = [n for n in self.names if n.rsplit("/", 1)[0] == tail[0] and n != name]
        kin = [n for n in self.names if self.ops[n][0] == group and n.rsplit("/", 1)[0] != tail[0] and not self.ops[n][1]]
        res = same[:1]
        res += [name] if not res or tier == "thorough" else []
        pos = self.names.index(name)
        step = [n for n in self.names[pos + 1 :] + self.names[:pos] if not self.ops[n][1] and self.ops[n][0] != group]
        if tier == "thorough":
            res += kin[:3] + step[:2] + ["text/-/B", "seqpav/standard/irr/A"]
        else:
            res += (kin[-1:] or step[:1]) if solver else kin[-1:] + step[:1]
        return list(dict.fromkeys(n for n in res if not (solver and self.ops[n][1] and n == name)))

    def units(self, tier):
        for name in make_ops():
            if not name.startswith("full_analysis"):
                yield ("overlap", name, tier)
        for name, (group, solver, _) in make_ops().items():
            yield ("interrupt", name, tier)
        for name, (group, solver, _) in make_ops().items():
            if not solver and (tier == "thorough" or name.endswith("/A")):
                yield ("twice", name, tier)

    def bounds(self, tier):
        return (
            "all rules, algorithms and settings (without RSD), axiom checks, scores and"
            " texts on three profiles m<=4 n<=4; one preemption at every executed line of the library"
            " (solver-based: every function entry) for other computations in another thread ("
            + ("about eight" if tier == "thorough" else "about three")
            + " each); an interruption at every line (solver-based: every function entry); two preemptions, at"
            f" the first {4 if tier == 'thorough' else 1} entries of functions of both; lines at their first"
            f" {self.executions(tier)} executions"
        )

    def show(self, unit):
        return f"{unit[0]} {unit[1]}"

    def unit_size(self, unit):
        return (len(unit[1]), unit[1])

    def run(self, unit, ctx):
        kind, name, tier = unit
        getattr(self, kind)(name, tier, ctx)
        for n, p in self.env.items():
            if allrules.snapshot(p) != self.before[n]:
                ctx.fail("profile", f"profile {n} changed: {p}")
                self.env = fresh_env()

    def tick(self, ctx, *key):
        ctx.count("evaluations")
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        ctx.count("states")
        ctx.outcome(*key)

    def executions(self, tier):
        return 20 if tier == "thorough" else 2

    def call(self, name):
        return lambda: self.ops[name][2](self.env)

    def overlap(self, name, tier, ctx):
        solver = self.ops[name][1]
        points = trace.Points(lines=not solver)
        chosen = points.choose(self.call(name), self.executions(tier))
        for other in self.others(name, tier):
            for i in chosen:
                between = []

                def at(j):
                    if j == i:
                        between.append(trace.in_thread(self.call(other)))

                try:
                    got = points.run(self.call(name), at)
                except Exception as e:
                    got = f"{type(e).__name__}: {e}"
                self.tick(ctx, name, other)
                self.compare(ctx, name, other, i, got, between[0] if between else ("value", self.base[other]))

    def compare(self, ctx, name, other, where, got, second):
        if got != self.base[name]:
            ctx.fail(
                "overlap:" + name,
                f"stopped at point {where} while {other} ran in another thread: {got}, alone {self.base[name]}",
            )
        if second != ("value", self.base[other]):
            ctx.fail(
                "overlap:" + other,
                f"run while {name} was stopped at point {where}: {second[1]}, alone {self.base[other]}",
            )

    def twice(self, name, tier, ctx):
        other = self.others(name)[0]
        points = trace.Points(lines=False)
        limit = 4 if tier == "thorough" else 1
        for i in points.choose(self.call(name), limit):
            for j in points.choose(self.call(other), limit):
                paused = []

                def at(x):
                    if x == i:
                        paused.append(trace.Paused(points, self.call(other), j))

                try:
                    got = points.run(self.call(name), at)
                except Exception as e:
                    got = f"{type(e).__name__}: {e}"
                second = paused[0].finish() if paused else ("value", self.base[other])
                self.tick(ctx, name, other, "twice")
                self.compare(ctx, name, other, (i, j), got, second)

    def interrupt(self, name, tier, ctx):
        points = trace.Points(not self.ops[name][1], "check" if name.startswith("full_analysis") else None)
        from abcvoting.output import output

        for i in points.choose(self.call(name), self.executions(tier)):

            def at(j):
                if j == i:
                    raise Interrupted()

            level = output.verbosity
            try:
                points.run(self.call(name), at)
                cut = False
            except Interrupted:
                cut = True
            self.tick(ctx, name, cut)
            if output.verbosity != level:
                ctx.fail("interrupt:" + name, f"after an interruption at point {i} the verbosity is {output.verbosity}")
                output.set_verbosity(level)
            got = self.guarded(name)
            if got != self.base[name]:
                ctx.fail(
                    "interrupt:" + name, f"after an interruption at point {i}: {got}, otherwise {self.base[name]}"
                )
        for other in self.others(name):
            got = self.guarded(other)
            if got != self.base[other]:
                ctx.fail("interrupt:" + name, f"after interruptions {other} gives {got}, otherwise {self.base[other]}")

    def guarded(self, name):
        try:
            return self.call(name)()
        except Exception as e:
            return f"{type(e).__name__}: {e}"


CHECK = C10()
