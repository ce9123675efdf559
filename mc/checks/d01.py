import re
from fractions import Fraction

from mc import axioms, domain, ref
from mc.base import Check

ALGS = {
    "jr": (None,),
    "ejr+": (None,),
    "pjr": ("gurobi", "brute-force"),
    "ejr": ("gurobi", "brute-force"),
    "fjr": ("gurobi", "brute-force"),
    "core": ("gurobi", "brute-force"),
}
FORMS = (set, list, tuple, frozenset)


def captured(output_module, fct):
    """Run fct with output at DETAILS, collecting the messages through a logger stand-in."""
    import io
    from contextlib import redirect_stdout

    out = output_module.output
    old = out.verbosity
    out.set_verbosity(output_module.DETAILS)
    buf = io.StringIO()
    try:
        with redirect_stdout(buf):
            res = fct()
    finally:
        out.set_verbosity(old)
    return res, buf.getvalue()


def int_sets(text):
    """All printed sets of numbers, e.g. {0, 3}."""
    return [
        frozenset(int(x) for x in s.replace(" ", "").split(",") if x)
        for s in re.findall(r"\{([\d,\s]*)\}", text)
    ]


def explains(name, m, votes, W, q, text):
    """Does the printed explanation of a negative verdict describe a real violation?"""
    text = " ".join(text.split())
    body = text[text.index("(", text.index("does not") if "does not" in text else text.index("is not")):]
    if "(for quota" in body[:12]:
        body = body[body.index("(", 1):]
    sets = int_sets(body)
    if name == "pareto":
        return len(sets) == 1 and len(sets[0]) == len(W) and axioms.dominates(votes, sets[0], W)
    S = sets[0]
    if not S or not all(0 <= i < len(votes) for i in S):
        return False
    group = [votes[i][0] for i in S]
    size = sum(votes[i][1] for i in S)
    total = sum(w for _, w in votes)
    pct = re.search(r"\(([\d.]+)% of all voters", body)
    if not pct or abs(float(pct.group(1)) - float(100 * size / total)) > 0.06:
        return False
    if name in ("jr", "ejr+"):
        c = int(re.search(r"approve candidate (\d+)", body).group(1))
        ell = 1 if name == "jr" else int(re.search(r"deserves (\d+) candidates", body).group(1))
        ok = all(c in a and len(a & W) < ell for a in group)
        return ok and size >= ell * q and (name == "jr" or c not in W)
    T = sets[1]
    if name in ("ejr", "pjr"):
        ell = int(re.search(r"The (\d+)-cohesive", body).group(1))
        if not (size >= ell * q and len(T) >= ell and all(T <= a for a in group)):
            return False
        if name == "ejr":
            return all(len(a & W) < ell for a in group)
        return len(frozenset().union(*group) & W) < ell
    if name == "fjr":
        beta = round(float(re.search(r"at least ([\d.]+) of the", body).group(1)))
        ok = all(len(a & T) >= beta > len(a & W) for a in group)
        return ok and size >= len(T) * q
    if name == "core":
        return size >= len(T) * q and all(len(a & T) > len(a & W) for a in group)
    raise ValueError(name)


class D01(Check):
    """JR, PJR, EJR, EJR+, FJR and core verdicts equal the definitions."""

    solver = True
    chunk = 6
    names = ("jr", "pjr", "ejr", "ejr+", "fjr", "core")
    with_witness = False

    def units(self, tier):
        # tag: (gurobi?, quotas?)
        for u in domain.orbits(2, 2):
            yield u + ("all", True)
        for n in (1, 2):
            for u in domain.orbits(3, n):
                yield u + ("all", True)
        for u in domain.orbits(3, 3):
            yield u + ("all", False)
        for u in domain.orbits(4, 2):
            yield u + ("all", False)
        for u in domain.weighted(domain.orbits(2, 2), (1, 2, "1/2")):
            yield u + ("all", False)
        for u in domain.weighted(domain.orbits(3, 2, empty=False), (1, 3)):
            yield u + ("all", False)
        for u in domain.seq_m(3, 3):
            yield u + ("cheap", True)
        for u in domain.orbits(4, 3):
            yield u + ("cheap", True)
        for u in domain.orbits(4, 4):
            yield u + ("cheap", False)
        for u in domain.weighted(domain.orbits(3, 3), (1, 2, "1/2")):
            yield u + ("cheap", False)
        for u in domain.partylists(2, 3, 3, 5):
            yield u + ("cheap", True)
        for u in domain.staircase(6, 5, (1, 3)):
            yield u + ("cheap", False)
        for u in domain.staircase(6, 6, (2, 4), step=2):
            yield u + ("cheap", False)
        for u in domain.staircase(5, 4, (1, 3)):
            yield u + ("all", False)
        for u in domain.partylists(2, 4, 4, 6):
            if len(u[1]) > 4 and u[0] > 4:
                yield u + ("cheap", False)
        if tier == "thorough":
            for u in domain.staircase(6, 6, (1, 3, 4)):
                yield u + ("cheap", False)
            for u in domain.orbits(3, 4):
                yield u + ("all", True)
            for u in domain.orbits(4, 3):
                yield u + ("all", False)
            for u in domain.orbits(4, 5, empty=False):
                yield u + ("cheap", False)
            for u in domain.orbits(5, 3):
                yield u + ("cheap", False)
            for u in domain.weighted(domain.orbits(4, 3, empty=False), (1, 3)):
                yield u + ("cheap", False)

    def bounds(self, tier):
        return (
            "both algorithms: up to renaming m<=3 n<=3, m=4 n=2, weights over {1,2,1/2,3}; combinatorial"
            " algorithms: ordered m<=3 n<=3, up to renaming m=4 n<=4, party lists m<=6 n<=8, cyclic intervals m=6 n<=6 (both algorithms m=5 n=4), weights over"
            " {1,2,1/2} for m=3 n=3"
            + ("; thorough: + m=3 n=4, m=4 n=3 both algorithms, m=4 n=5, m=5 n=3" if tier == "thorough" else "")
            + "; every nonempty committee of every size; default quota and the quotas {n/(k+1), n/(m+1),"
            " 1/2, 1, 3/2 (as float), n, 2n+1}; committees given as set, list, tuple, frozenset"
        )

    def quotas(self, unit, votes, W):
        m = unit[0]
        res = [None]
        if unit[4]:
            n = sum(w for _, w in votes)
            for q in (n / (len(W) + 1), n / (m + 1), Fraction(1, 2), Fraction(1), 1.5, n, 2 * n + 1):
                if q not in res and Fraction(q) != n / len(W):
                    res.append(q)
        return res

    def algorithms(self, unit, name):
        return [a for a in ALGS[name] if a != "gurobi" or unit[3] == "all"]

    def run(self, unit, ctx):
        from abcvoting import output as output_module
        from abcvoting import properties

        m, votes = domain.plain(unit)
        profile = domain.make_profile(unit)
        i = 0
        for k in range(1, m + 1):
            for W in ref.committees(m, k):
                W = frozenset(W)
                for q in self.quotas(unit, votes, W):
                    quota = sum(w for _, w in votes) / len(W) if q is None else Fraction(q)
                    for name in self.names:
                        want = axioms.holds(name, m, votes, W, quota)
                        ctx.count("states")
                        ctx.outcome(name, k, q is None, want)
                        for alg in self.algorithms(unit, name):
                            kw = {} if alg is None else {"algorithm": alg}
                            if q is not None:
                                kw["quota"] = q
                            comm = FORMS[i % 4](sorted(W, reverse=bool(i % 3)))
                            i += 1
                            self.one(ctx, properties, output_module, name, alg, profile, comm, kw, want,
                                     (m, votes, W, quota, q))

    def one(self, ctx, properties, output_module, name, alg, profile, comm, kw, want, ref_args):
        m, votes, W, quota, q = ref_args
        ctx.count("evaluations")
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        tag = f"{name}/{alg}"
        try:
            got = properties.check(name, profile, comm, **kw)
        except Exception as e:
            ctx.fail(tag, f"committee {sorted(W)} quota {q}: {type(e).__name__}: {e}")
            return
        if got is not want and not (got == want and isinstance(got, (bool, int))):
            ctx.fail(tag, f"committee {sorted(W)} quota {q}: verdict {got}, by definition {want}")


CHECK = D01()
