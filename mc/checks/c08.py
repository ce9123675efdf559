import itertools
import json
import os

from mc import allrules, domain
from mc.base import Check

A = (4, (0b0011, 0b0110, 0b1100, 0b0001), None)
B = (4, (0b1100, 0b1000, 0b1010), None)  # same candidates, another answer
C = (3, (0b011, 0b110), (2, 1))
PROFILES = {"A": A, "B": B, "C": C}
LEVELS = (50, 40, 30, 20, 15, 10, 5)


def plainres(res):
    if isinstance(res, list):
        return [sorted(int(x) for x in c) for c in res]
    return res


def _combs(m, k):
    return itertools.combinations(range(m), k)


def in_child(fct):
    """The (JSON) result of fct, computed in a child process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = json.dumps(fct()).encode()
        except BaseException as e:
            out = json.dumps(["EXC", repr(e)]).encode()
        try:
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data or b'["EXC", "died"]')


CONFIGS = []


def all_configs():
    """All configurations, found without using the library in this process (it has to stay as good as new)."""
    if not CONFIGS:
        CONFIGS.extend(in_child(allrules.configs))
    return CONFIGS


def make_ops():
    """The alphabet of operations: name -> function of the persistent profiles."""
    from abcvoting import abcrules, generate, misc, properties, scores
    from abcvoting.output import output

    ops = {}

    def rule_op(rid, alg, resolute, name, k):
        def op(env):
            return plainres(abcrules.compute(rid, env[name], k, algorithm=alg, resolute=resolute))

        return op

    for rid, alg, resolute in all_configs():
        if rid == "rsd":
            continue
        slow = rid == "leximaxphragmen"
        for name, k in (("A", 2), ("B", 2), ("C", 1)):
            if (slow and name != "C") or (name == "C" and not allrules.weights_ok(rid, alg, C)):
                continue
            if alg in allrules.SOLVERS and resolute:
                continue  # which of the winning committees a solver finds first is not specified
            if name == "C" and alg not in allrules.SOLVERS and rid not in ("pav", "seqphragmen", "eph"):
                continue
            ops[f"{rid}/{alg}/{'res' if resolute else 'irr'}/{name}"] = rule_op(rid, alg, resolute, name, k)

    def prop_op(prop, alg, name, comm):
        def op(env):
            kw = {} if alg is None else {"algorithm": alg}
            return properties.check(prop, env[name], comm, **kw)

        return op

    for prop in properties.PROPERTY_NAMES:
        for alg in (None, "gurobi", "brute-force"):
            if alg and (prop in ("jr", "ejr+") or (alg == "brute-force" and "price" in prop)):
                continue
            for name, comm in (("A", {0, 1}), ("B", {0, 3})):
                ops[f"check-{prop}/{alg}/{name}"] = prop_op(prop, alg, name, comm)

    def failing(env):
        out = []
        for args, kw in (
            (("pav", env["A"], 9), {}),
            (("av", env["A"], 2), {"algorithm": "x"}),
            (("monroe", env["C"], 1), {}),
            (("av", env["A"], 2), {"resolute": True, "max_num_of_committees": 3}),
            (("nope", env["A"], 2), {}),
        ):
            try:
                abcrules.compute(*args, **kw)
                out.append("answer")
            except Exception as e:
                out.append(type(e).__name__)
        return out

    ops["failing-calls"] = failing

    def verbose(level):
        def op(env):
            old = output.verbosity
            output.set_verbosity(level)
            try:
                return [
                    plainres(abcrules.compute(r, env["A"], 2)) for r in ("seqpav", "equal-shares", "monroe")
                ]
            finally:
                output.set_verbosity(old)

        return op

    ops["verbose-debug2"] = verbose(5)
    ops["verbose-critical"] = verbose(50)
    ops["capped"] = lambda env: [
        len(abcrules.compute(r, env["A"], 2, resolute=False, max_num_of_committees=1))
        for r in ("av", "pav", "seqpav", "trivial", "minimaxav", "seqphragmen")
    ]
    ops["full_analysis"] = lambda env: properties.full_analysis(env["B"], {1, 3})
    ops["str"] = lambda env: [str(env[x]) + env[x].str_compact() for x in env]

    def generated(env):
        return generate.random_profile(4, 3, {"id": "IC", "p": 0.5}) is not None

    ops["generate"] = generated
    committees = [(name, list(c)) for name, m in (("A", 4), ("C", 3)) for k in (1, 2, 3) for c in _combs(m, k)]
    # different functions of one family, in both orders
    for sid in ("pav", "slav", "av", "cc", "geom2", "geom2.5", "geom5/2", "geom3", "geom1", "atleast1", "atleast2"):
        ops["score-" + sid] = lambda env, sid=sid: [
            str(scores.thiele_score(sid, env[name], c)) for name, c in committees
        ]
    for rid in ("geom2.5", "seqgeom2.5", "revseqgeom2.5", "seqgeom2", "seqgeom3", "seqgeom3/2"):
        alg = "brute-force" if rid[:3] == "geo" else "standard"
        ops["parametrised-" + rid] = lambda env, rid=rid, alg=alg: plainres(
            abcrules.compute(rid, env["A"], 2, algorithm=alg, resolute=False)
        )
    ops["other-scores"] = lambda env: [
        [str(f(env["A"], {0, c})) for f in (scores.monroescore, scores.minimaxav_score)] for c in (1, 2, 3)
    ]
    ops["dominate"] = lambda env: [misc.dominate(env["A"], {0, 1}, {2, 3}), misc.dominate(env["A"], {1}, {3})]
    return ops


def fresh_env():
    return {name: domain.make_profile(u) for name, u in PROFILES.items()}


def answer(abcrules, rid, alg, resolute, profile, k):
    """The answer as plain data; for the solver-based tie-breaking only whether it is winning."""
    res = plainres(abcrules.compute(rid, profile, k, algorithm=alg, resolute=resolute))
    if resolute and alg in allrules.SOLVERS:
        fresh = profile.copy()
        every = plainres(abcrules.compute(rid, fresh, k, algorithm=alg, resolute=False))
        return "one winning committee" if len(res) == 1 and res[0] in every else res
    return res


class C08(Check):
    """Answers depend on the arguments only, not on earlier calls, verbosity or object history."""

    solver = True
    chunk = 1

    def setup(self):
        """Reference answers: each operation as the first one of a process of its own."""
        self.ops = make_ops()
        self.names = list(self.ops)
        self.base = {}
        for name in self.names:
            self.base[name] = in_child(lambda: self.ops[name](fresh_env()))
        self.env = fresh_env()
        self.before = {n: allrules.snapshot(p) for n, p in self.env.items()}

    def units(self, tier):
        names = list(make_ops())
        for i, name in enumerate(names):
            yield ("pair", name)
        for u in domain.orbits(3, 2):
            yield ("verbosity",) + u
        for u in domain.weighted(domain.orbits(2, 2), (1, 2)):
            yield ("verbosity",) + u
        for u in domain.orbits(2, 2):
            yield ("mutate",) + u
        for u in domain.orbits(3, 2):
            yield ("mutate",) + u
        if tier == "thorough":
            for u in domain.orbits(3, 3):
                yield ("verbosity",) + u
            for u in domain.orbits(3, 3):
                yield ("mutate",) + u

    def bounds(self, tier):
        return (
            "every ordered pair of operations from an alphabet of all rules/algorithms/settings on"
            " three profiles, all property checks, failing calls, verbosity changes and generation, in"
            " one long-lived process per worker; every verbosity level (solver-based: three) for every configuration and"
            " every mutation step (add voters, change weights, merge) of a profile object that was used"
            " before, m<=3 n=2" + (" and n=3" if tier == "thorough" else "")
        )

    def show(self, unit):
        if unit[0] == "pair":
            return f"history with {unit[1]} before and between all other operations"
        return unit[0] + " " + domain.describe(unit[1:])

    def unit_size(self, unit):
        return (0, len(unit)) if unit[0] == "pair" else (1,) + domain.size_key(unit[1:])

    def run(self, unit, ctx):
        getattr(self, unit[0])(unit, ctx)

    def tick(self, ctx):
        ctx.count("evaluations")
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")

    def pair(self, unit, ctx):
        first = unit[1]
        for second in self.names:
            for name in (first, second):
                if self.base[name] and isinstance(self.base[name], list) and self.base[name][0] == "EXC":
                    ctx.fail("baseline", f"{name}: {self.base[name][1]}")
                    return
                self.tick(ctx)
                got = json.loads(json.dumps(self.ops[name](self.env)))
                if got != self.base[name]:
                    ctx.fail(
                        "history:" + name,
                        f"after {first if name == second else second}: {got}, in a new process {self.base[name]}",
                    )
            ctx.count("states")
            ctx.outcome(first, second)
        for n, p in self.env.items():
            if allrules.snapshot(p) != self.before[n]:
                ctx.fail("profile", f"profile {n} changed during the history: {p}")
                self.env = fresh_env()

    def configs(self, unit):
        for rid, alg, resolute in all_configs():
            if rid not in ("rsd",) and allrules.weights_ok(rid, alg, unit):
                if rid != "leximaxphragmen" or len(unit[1]) < 3:
                    yield rid, alg, resolute

    def verbosity(self, unit, ctx):
        from abcvoting import abcrules, properties
        from abcvoting.output import output

        unit = unit[1:]
        m = unit[0]
        profile = domain.make_profile(unit)
        k = 2 if m > 2 else 1
        calls = [
            (f"{rid}/{alg}/{resolute}", lambda rid=rid, alg=alg, resolute=resolute: answer(
                abcrules, rid, alg, resolute, profile, k))
            for rid, alg, resolute in self.configs(unit)
        ]  # fmt: skip
        comm = set(range(k))
        for prop in properties.PROPERTY_NAMES:
            calls.append((f"check {prop}", lambda prop=prop: properties.check(prop, profile, comm)))
        calls.append(("full_analysis", lambda: properties.full_analysis(profile, comm)))
        for name, call in calls:
            want = call()
            ctx.count("states")
            ctx.outcome(name, want)
            for level in LEVELS if "/" not in name or name.split("/")[1] not in allrules.SOLVERS else (50, 20, 5):
                output.set_verbosity(level)
                try:
                    got = call()
                    now = output.verbosity
                except Exception as e:
                    ctx.fail(f"verbosity:{name}", f"level {level}: {type(e).__name__}: {e}")
                    continue
                finally:
                    output.set_verbosity(30)
                self.tick(ctx)
                if got != want:
                    ctx.fail(f"verbosity:{name}", f"level {level}: {got}, otherwise {want}")
                if now != level:
                    ctx.fail(f"verbosity:{name}", f"level {level} became {now}")

    def mutate(self, unit, ctx):
        from abcvoting import abcrules
        from abcvoting.preferences import Profile, Voter

        unit = unit[1:]
        m, masks, _ = unit
        k = 2 if m > 2 else 1
        last = domain.bits((1 << m) - 1)[-1:]
        for rid, alg, resolute in self.configs(unit):
            if resolute and alg in allrules.SOLVERS:
                continue
            call = lambda p: answer(abcrules, rid, alg, resolute, p, k)
            p = domain.make_profile(unit)
            voters = [[domain.bits(x), 1] for x in masks]

            def step(label):
                q = Profile(m)
                q.add_voters([Voter(a, weight=w) for a, w in voters])
                self.tick(ctx)
                got, want = call(p), call(q)
                ctx.outcome(rid, alg, label, want)
                if got != want:
                    ctx.fail(f"mutate:{rid}/{alg}", f"{label}: {got}, a new profile gives {want}")

            ctx.count("states", 4)
            call(p)
            p.add_voter(last)
            voters.append([last, 1])
            step("after adding a voter")
            p.add_voters([last, []])
            voters += [[last, 1], [[], 1]]
            step("after adding two voters")
            if rid not in allrules.UNIT_ONLY:
                p[0].weight = 2
                voters[0][1] = 2
                step("after changing a weight")
                p[0].weight = 1
                voters[0][1] = 1
                if rid == "leximaxphragmen":
                    continue
            p[1] = Voter(last)
            voters[1] = [last, 1]
            step("after replacing a voter")


CHECK = C08()
