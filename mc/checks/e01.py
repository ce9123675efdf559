import copy as copymod
from fractions import Fraction

from mc import domain
from mc.base import Check

WIDE = "wide"  # 12 candidates, the operations use 2, 10 and 11


class Model:
    """Reference state: candidate names and the list of (approved, weight)."""

    def __init__(self, names, m):
        self.names = list(names)
        self.m = m
        self.voters = []

    def clone(self):
        m = Model(self.names, self.m)
        m.voters = list(self.voters)
        return m


def show_set(appr, names):
    return "{" + ", ".join(sorted(names[c] for c in appr)) + "}"


def observe(p):
    """Everything a user can see of a profile."""
    return {
        "len": len(p),
        "voters": [(sorted(v.approved), v.weight) for v in p],
        "items": [(sorted(p[i].approved), p[i].weight) for i in range(-len(p), len(p))],
        "num_cand": p.num_cand,
        "candidates": list(p.candidates),
        "names": list(p.cand_names),
        "total": p.total_weight(),
        "unit": p.has_unit_weights(),
        "approved": sorted(p.approved_candidates()),
        "partylist": p.is_party_list(),
        "str": str(p) if len(p) else None,
        "compact": p.str_compact() if len(p) else None,
        "voterstr": [(str(v), v.str_with_names(p.cand_names)) for v in p],
    }


def expect(model):
    vs = model.voters
    unit = all(w == 1 for _, w in vs)
    head = f"{'' if unit else 'weighted '}profile with {len(vs)} voters and {model.m} candidates:\n"
    lines = []
    for i, (a, w) in enumerate(vs):
        lines.append(f" voter {str(i) + ':':4s} " + ("" if unit else f"{w} * ") + show_set(a, model.names))
    merged = {}
    for a, w in vs:
        merged[a] = merged.get(a, 0) + w
    compact = head + ",\n".join(f" {w} x {show_set(a, model.names)}" for a, w in merged.items())
    if not unit:
        compact += f"\ntotal weight: {sum(w for _, w in vs)}"
    return {
        "len": len(vs),
        "voters": [(sorted(a), w) for a, w in vs],
        "items": [(sorted(a), w) for a, w in vs] * 2,
        "num_cand": model.m,
        "candidates": list(range(model.m)),
        "names": model.names,
        "total": sum(w for _, w in vs),
        "unit": unit,
        "approved": sorted(set().union(*(a for a, _ in vs))),
        "partylist": all(not (a & b) or a == b for a, _ in vs for b, _ in vs),
        "str": head + ",\n".join(lines) if vs else None,
        "compact": compact + "\n" if vs else None,
        "voterstr": [(show_set(a, [str(i) for i in range(model.m)]), show_set(a, model.names)) for a, _ in vs],
    }


class Run:
    """One execution: the real profile and the model, advanced in lockstep by op names."""

    def __init__(self, names):
        from abcvoting.preferences import Profile, Voter

        self.Profile, self.Voter = Profile, Voter
        self.m, self.cands = (12, (2, 10, 11)) if names == WIDE else (3, (0, 1, 2))
        names = None if names == WIDE else names
        self.p = Profile(self.m, cand_names=names) if names else Profile(self.m)
        self.model = Model([str(x) for x in (names or range(self.m))][: self.m], self.m)
        self.others = []  # profiles left behind by copies: (profile, model) must not change any more
        self.shared = []  # caller-owned objects handed to the profile: changing them has no effect
        self.log = []

    def must_raise(self, errors, fct):
        try:
            fct()
        except errors:
            return
        except Exception as e:
            self.log.append(f"raised {type(e).__name__}: {e}")
            return
        self.log.append("was not rejected")

    def op(self, name):
        p, V, mo = self.p, self.Voter, self.model
        n = len(mo.voters)
        c0, c1, c2 = self.cands
        m = self.m
        if name == "add01":
            appr = [c0, c1]
            p.add_voter(appr)
            appr.append(c2)
            mo.voters.append((frozenset({c0, c1}), 1))
        elif name == "addset20":
            appr = {c2, c0}
            p.add_voter(appr)
            appr.discard(c2)
            mo.voters.append((frozenset({c0, c2}), 1))
        elif name == "addempty":
            p.add_voter([])
            mo.voters.append((frozenset(), 1))
        elif name == "addvoter":
            v = V([c1], weight=2)
            p.add_voter(v)
            v.weight = 5
            v.approved.add(c0)
            mo.voters.append((frozenset({c1}), 2))
        elif name == "addfraction":
            p.add_voter(V((c2,), weight=Fraction(1, 2)))
            mo.voters.append((frozenset({c2}), Fraction(1, 2)))
        elif name == "addvoters":
            v = V({c0, c1}, weight=1)
            p.add_voters([v, (c1, c2), v])
            mo.voters += [(frozenset({c0, c1}), 1), (frozenset({c1, c2}), 1), (frozenset({c0, c1}), 1)]
        elif name == "addself":
            p.add_voters(list(p))
            mo.voters += list(mo.voters)
        elif name == "set0" and n:
            v = V([c0, c2], weight=3)
            p[0] = v
            v.approved.clear()
            mo.voters[0] = (frozenset({c0, c2}), 3)
        elif name == "setlast" and n:
            p[n - 1] = [c1]
            mo.voters[n - 1] = (frozenset({c1}), 1)
        elif name == "mutate0" and n:
            p[0].approved.symmetric_difference_update({c1})
            mo.voters[0] = (mo.voters[0][0] ^ {c1}, mo.voters[0][1])
        elif name == "weight0" and n:
            w = 2 if mo.voters[0][1] == 1 else 1
            p[0].weight = w
            mo.voters[0] = (mo.voters[0][0], w)
        elif name == "rename":
            new = "zz" if mo.names[c1] != "zz" else "a1"
            p.cand_names[c1] = new
            mo.names[c1] = new
        elif name == "tounit":
            if all(isinstance(w, int) for _, w in mo.voters):
                p.convert_to_unit_weights()
                mo.voters = [(a, 1) for a, w in mo.voters for _ in range(w)]
            else:
                self.must_raise(TypeError, p.convert_to_unit_weights)
        elif name == "toweighted":
            p.convert_to_weighted()
            d = {}
            for a, w in mo.voters:
                d[a] = d.get(a, 0) + w
            # the order of the merged voters is unspecified: adopt it, but only if the content fits
            got = [(frozenset(v.approved), v.weight) for v in p]
            if sorted(map(repr, ((sorted(a), w) for a, w in got))) != sorted(
                map(repr, ((sorted(a), w) for a, w in d.items()))
            ):
                self.log.append(f"convert_to_weighted gives {got}, should be {d}")
            mo.voters = got
        elif name in ("copy", "copycopy", "deepcopy"):
            q = {"copy": p.copy, "copycopy": lambda: copymod.copy(p), "deepcopy": lambda: copymod.deepcopy(p)}[name]()
            self.others.append((p, mo))
            self.p, self.model = q, mo.clone()
        elif name == "invalid":
            for bad in ([0, 0], [m], [-1], [0, m + 4], ["x"], [1.5], V([m + 2])):
                self.must_raise((ValueError, TypeError), lambda bad=bad: p.add_voter(bad))
            self.must_raise((ValueError, TypeError), lambda: V([0], weight=0))
            self.must_raise((ValueError, TypeError), lambda: V([0], weight=-1))
            if n:
                self.must_raise((ValueError, TypeError), lambda: p.__setitem__(0, [m]))
                self.must_raise((ValueError, TypeError), lambda: p.__setitem__(0, [1, 1]))
            self.must_raise(IndexError, lambda: p[n])
        else:
            return False
        return True

    def problems(self):
        res = list(self.log)
        for p, mo, label in [(self.p, self.model, "")] + [(p, m, "earlier copy: ") for p, m in self.others]:
            got, want = observe(p), expect(mo)
            res += [f"{label}{x} is {got[x]!r}, should be {want[x]!r}" for x in want if got[x] != want[x]]
        return res


OPS = (
    "add01", "addset20", "addempty", "addvoter", "addfraction", "addvoters", "addself", "set0",
    "setlast", "mutate0", "weight0", "rename", "tounit", "toweighted", "copy", "copycopy", "deepcopy", "invalid",
)  # fmt: skip


class E01(Check):
    """Profile as a state machine: every operation sequence, all observers, after every step."""

    chunk = 2

    def depth(self, tier):
        return 4 if tier == "quick" else 5

    def units(self, tier):
        for names in (None, "abc", ["x", 7, "y", "spare"], WIDE):
            for a in OPS:
                for b in OPS:
                    if names == WIDE and (a != "copy" or tier == "thorough"):
                        yield (names, (a, b), self.depth(tier) - 1)
                    elif names is None or a == "addvoters" or tier == "thorough" and a == "add01":
                        yield (names if not isinstance(names, list) else tuple(names), (a, b), self.depth(tier))

    def bounds(self, tier):
        return (
            f"all sequences of up to {self.depth(tier)} operations from {len(OPS)} ({', '.join(OPS)}) on a"
            " profile with 3 candidates, with default names (one operation less with two-digit candidates of 12); starting with add_voters also for two other"
            " kinds of candidate names; every observer compared after every step, also on the originals"
            " of copies; each sequence once with and once without observers called between the operations"
        )

    def show(self, unit):
        return f"names={unit[0]!r} operations {unit[1]} + up to {unit[2] - len(unit[1])} more"

    def unit_size(self, unit):
        return (len(unit[1]), OPS.index(unit[1][0]))

    def run(self, unit, ctx):
        names, prefix, depth = unit
        self.dfs(list(names) if isinstance(names, tuple) else names, list(prefix), depth, ctx)

    def replay(self, names, seq, looking):
        """Execute the operations; if `looking`, with all observers called before each of them."""
        r = Run(names)
        for x in seq:
            if looking:
                observe(r.p)
            if not r.op(x):
                return r, False
        return r, True

    def dfs(self, names, seq, depth, ctx):
        r, applicable = self.replay(names, seq, False)
        if not applicable:
            return
        bad = r.problems()
        if not bad:
            # observers must not influence what later operations and observers do
            bad = [f"(observed in between) {x}" for x in self.replay(names, seq, True)[0].problems()]
        ctx.count("states")
        ctx.count("transitions")
        ctx.count("evaluations")
        ctx.count("traces_validated_against_impl")
        ctx.outcome(tuple((tuple(sorted(a)), str(w)) for a, w in r.model.voters), len(r.others))
        if bad:
            ctx.fail("profile:" + seq[-1], f"after {seq}: {'; '.join(bad[:3])}")
            return
        if len(seq) < depth and len(r.model.voters) <= 8:
            for x in OPS:
                self.dfs(names, seq + [x], depth, ctx)


CHECK = E01()
