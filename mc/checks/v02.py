import re
from fractions import Fraction

from mc import allrules, domain, ref
from mc.base import Check
from mc.checks.d01 import captured
from mc.rulecheck import usable

NAMES = ("Zoe", "adam", "Bea", "c-3", "Dan", "eve")
SCORED = {"pav": "pav", "slav": "slav", "cc": "cc", "geom2": "geom2", "geom3": "geom3"}
SEQ = {"seqpav": "pav", "seqslav": "slav", "seqcc": "cc", "seqgeom2": "geom2"}
REV = {"revseqpav": "pav", "revseqslav": "slav", "revseqcc": "cc", "revseqgeom2": "geom2"}
NUM = r"(-?[\d.]+(?:e-?\d+)?(?:/\d+)?)"


class Untrue(Exception):
    """A statement of the report is false (or missing)."""


def num(text):
    return Fraction(text.rstrip(".")) if "e" not in text else Fraction(float(text))


def close(a, b):
    return abs(Fraction(a) - Fraction(b)) <= Fraction(1, 10**6) * max(1, abs(Fraction(b)))


def need(cond, what):
    if not cond:
        raise Untrue(what)


def find(pattern, text, what=None):
    x = re.search(pattern, text)
    need(x, f"no statement {what or pattern!r}")
    return x


def number(pattern, text, want, what):
    got = find(pattern.replace("NUM", NUM), text, what).group(1)
    need(close(num(got), want), f"{what}: printed {got}, is {want}")


def vector(text):
    return [num(x) for x in text.replace("(", "").replace(")", "").replace(" ", "").split(",") if x]


def vec_is(pattern, text, want, what):
    got = vector(find(pattern + r" ?\(([^)]*)\)", text, what).group(1))
    need(
        len(got) == len(want) and all(close(a, b) for a, b in zip(got, want)),
        f"{what}: printed {[str(x) for x in got]}, is {[str(x) for x in want]}",
    )


def cands(text):
    return frozenset(NAMES.index(x) for x in text.replace(" ", "").split(",") if x)


def comm_list(text):
    return [cands(x) for x in re.findall(r"\{([^}]*)\}", text)]


class V02(Check):
    """Everything a rule prints about its computation is true."""

    solver = True
    chunk = 10

    def units(self, tier):
        for u in domain.orbits(2, 2):
            yield u + ("all",)
        for u in domain.orbits(3, 2):
            yield u + ("all",)
        for u in domain.orbits(3, 3, empty=False):
            yield u + ("all",)
        for u in domain.weighted(domain.orbits(3, 2, empty=False), (1, "3/2")):
            yield u + ("all",)
        for u in domain.seq_m(3, 2):
            yield u + ("cheap",)
        for n in (3, 4):
            for u in domain.with_relabelings(domain.orbits(4, n)):
                yield u + ("cheap",)
        for u in domain.weighted(domain.orbits(3, 3), (1, 2, "1/2")):
            yield u + ("cheap",)
        for u in domain.orbits(5, 3):
            yield u + ("cheap",)
        for u in domain.partylists(3, 2, 3, 5):
            yield u + ("cheap",)
        for u in domain.staircase(6, 5, (1, 3)):
            yield u + ("cheap",)
        if tier == "thorough":
            for u in domain.orbits(4, 3):
                yield u + ("all",)
            for u in domain.orbits(4, 5, empty=False):
                yield u + ("cheap",)
            for u in domain.weighted(domain.orbits(4, 3), (1, 3, "1/3")):
                yield u + ("cheap",)

    def bounds(self, tier):
        return (
            "solver-based algorithms: up to renaming m<=3 n<=3, weights {1,3/2}" + ("; m=4 n=3" if tier == "thorough" else "")
            + "; other algorithms: ordered m<=3 n<=2; up to renaming m=4 n<=4, m=5 n=3, party lists, cyclic intervals m=6 n=5,"
            " weights {1,2,1/2} m=3 n=3" + ("; m=4 n=5, weights {1,3,1/3} m=4 n=3" if tier == "thorough" else "")
            + "; every k, resolute and irresolute; output level DETAILS"
        )

    def run(self, unit, ctx):
        from abcvoting import abcrules, output
        from abcvoting.preferences import Profile, Voter

        m, votes = domain.plain(unit)
        weights = unit[2] or (1,) * len(unit[1])
        profile = Profile(m, cand_names=NAMES[:m])
        profile.add_voters([Voter(domain.bits(x), weight=domain.to_weight(w)) for x, w in zip(unit[1], weights)])
        solver = None if unit[3] == "all" else False
        for rid, alg, resolute in allrules.configs(solver):
            if not usable(alg) or not allrules.weights_ok(rid, alg, unit):
                continue
            if alg == "brute-force" and (m > 3 or rid == "monroe" and len(votes) > 3):
                continue
            rule = abcrules.Rule(rid)
            for k in range(1, m + 1):
                comms, text = captured(
                    output, lambda: abcrules.compute(rid, profile, k, algorithm=alg, resolute=resolute)
                )
                comms = [frozenset(c) for c in comms]
                text = " ".join(text.split())
                for c in ("evaluations", "transitions", "traces_validated_against_impl"):
                    ctx.count(c)
                tag = f"{rid}/{alg}/{'resolute' if resolute else 'irresolute'}"
                try:
                    self.general(abcrules, rule, rid, alg, resolute, comms, text)
                    head, _, tail = text.partition(" winning committee" + ("s" if len(comms) != 1 else "") + ": {")
                    tail = tail[tail.rfind("}", 0, self.end_of_list("{" + tail, len(comms))) :] if tail else ""
                    n = self.specific(rid, m, votes, k, resolute, comms, text, tail)
                    ctx.count("states", n or 1)
                    ctx.outcome(tag, k, len(comms), len(text) // 40)
                except Untrue as e:
                    ctx.fail(tag, f"k={k}: {e}; report: {text}")
                except Exception as e:
                    ctx.fail(tag, f"k={k}: unreadable ({type(e).__name__}: {e}); report: {text}")

    @staticmethod
    def end_of_list(text, n):
        pos = 0
        for _ in range(n):
            pos = text.index("}", pos) + 1
        return pos

    def general(self, abcrules, rule, rid, alg, resolute, comms, text):
        need(rule.longname in text, f"the name {rule.longname}")
        need(f"Algorithm: {abcrules.ALGORITHM_NAMES[alg]}" in text, f"the algorithm {alg}")
        default = rule.resolute_values[0]
        need(("(resolute=True)" in text) == (resolute and not default), "resolute=True")
        need(("(resolute=False)" in text) == (not resolute and default), "resolute=False")
        x = find(r"(\d+) winning committees?: ((?:\{[^}]*\} ?)*)", text, "list of winning committees")
        need(int(x.group(1)) == len(comms), f"printed {x.group(1)} winning committees, returned {len(comms)}")
        got = comm_list(x.group(2))[: len(comms)]
        need(len(got) == len(comms) and set(got) == set(comms), "winning committees: printed other than returned")

    # ---- statements of the individual rules

    def specific(self, rid, m, votes, k, resolute, comms, text, tail):
        if rid in ("av", "sav"):
            return self.separable(rid, m, votes, k, text)
        if rid in SCORED:
            best = max(ref.thiele_score(SCORED[rid], votes, c) for c in ref.committees(m, k))
            return number(rf"Optimal {rid.upper()}-score: NUM", text, best, "optimal score")
        if rid == "lexcc":
            best = max(
                [sum(w for a, w in votes if len(a & c) >= ell) for ell in range(1, k + 1)]
                for c in ref.committees(m, k)
            )
            for ell in range(1, k + 1):
                number(rf"at-least-{ell}: NUM", text, best[ell - 1], f"at-least-{ell} score")
            return 1
        if rid in SEQ:
            fct = SEQ[rid]
            for c, x in zip(*self.final_scores(fct, text, comms)):
                need(close(x, ref.thiele_score(fct, votes, c)), f"score of {sorted(c)}")
            if resolute:
                number(r"starting with the empty committee \(score = NUM\)", text, 0, "score of the empty committee")
                return self.steps(ref.SeqThiele(fct, m, votes, k), text, comms, "adding", self.thiele_step(fct, votes))
        if rid in REV:
            fct = REV[rid]
            body = text[text.rindex(f"{fct.upper()}-score of winning committee:"):]
            got = [num(x) for x in re.findall(NUM, body.split(":", 1)[1])]
            want = [ref.thiele_score(fct, votes, c) for c in comms]
            need(len(got) == len(want) and all(map(close, got, want)), f"printed scores {body}, are {want}")
            if resolute:
                full = ref.thiele_score(fct, votes, frozenset(range(m)))
                x = find(rf"full committee \((\d+) candidates\) has a total score of {NUM}", text)
                need(int(x.group(1)) == m and close(num(x.group(2)), full), f"full committee score {full}")
                return self.steps(ref.RevSeqThiele(fct, m, votes, k), text, comms, "removing", self.thiele_step(fct, votes))
        if rid == "seqphragmen":
            sys = ref.SeqPhragmen(m, votes, k)
            body = text[text.index("corresponding load distribution"):]
            loads = re.findall(r"\{([^}]*)\}: \(([^)]*)\)", body)
            reach = self.reachable(sys)
            need({cands(c) for c, _ in loads} == set(comms) and len(loads) == len(comms), "one load distribution per committee")
            for c, x in loads:
                x = vector(x)
                ok = any(
                    s[0] == cands(c) and len(x) == len(votes) and all(map(close, x, s[1])) for s in reach
                )
                need(ok, f"load distribution {[str(y) for y in x]} of {c}")
            if resolute:
                return self.steps(sys, text, comms, "adding", self.phragmen_step(sys))
            return len(reach)
        if rid == "maximin-support" and resolute:
            need("starting with the empty committee" in text, "the start")

            def step(s, c, t, seg, tied):
                val = ref.support_value(votes, t[0])
                number(r"giving a committee with maximin support value NUM", seg, val, "support value")
                if len(tied) > 1:
                    number(r"\(all would give the same maximin support value NUM\)", seg, val, "tied value")

            return self.steps(ref.MaximinSupport(m, votes, k), text, comms, "adding", step)
        if rid == "monroe":
            best = max(ref.monroe_score(votes, c) for c in ref.committees(m, k))
            return number("Optimal Monroe score: NUM", text, best, "optimal Monroe score")
        if rid == "greedy-monroe":
            return self.greedy_monroe(votes, k, comms, text)
        if rid in ("minimaxav", "lexminimaxav"):
            best = min(max(ref.dists(votes, c)) for c in ref.committees(m, k))
            number("Minimum maximal distance: NUM", text, best, "minimum maximal distance")
            body = text[text.index("distances to voters:"):]
            got = [[int(y) for y in x.split(",")] for x in re.findall(r"\[([^\]]*)\]", body)]
            want = [[len(a ^ c) for a, _ in votes] for c in comms]
            need(got == want, f"distances: printed {got}, are {want}")
        if rid.startswith("equal-shares"):
            return self.equal_shares(rid, m, votes, k, resolute, comms, text)
        return 1

    def reachable(self, sys):
        init = sys.start()
        seen, todo = {init}, [init]
        while todo:
            s = todo.pop()
            for c in sys.tied(s):
                t = sys.step(s, c)
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return seen

    def final_scores(self, fct, text, comms):
        body = text[text.rindex(f"{fct.upper()}-score of winning committee(s):"):]
        got = re.findall(r"\{([^}]*)\}: " + NUM, body)
        cs = [cands(c) for c, _ in got]
        need(len(cs) == len(comms) and set(cs) == set(comms), "scores of the winning committees")
        return cs, [num(x) for _, x in got]

    def thiele_step(self, fct, votes):
        def step(s, c, t, seg, tied):
            new, old = ref.thiele_score(fct, votes, t[0]), ref.thiele_score(fct, votes, s[0])
            x = find(rf"score (increases|decreases) by {NUM} to a total of {NUM}", seg, "score change")
            up = x.group(1) == "increases"
            need(up == (len(t[0]) > len(s[0])), "direction of the score change")
            need(close(num(x.group(2)), abs(new - old)), f"score change {abs(new - old)}")
            need(close(num(x.group(3)), new), f"total {new}")
            if "are tied" in seg:
                number(r"score by the same amount NUM\)", seg, abs(new - old), "tied amount")

        return step

    def phragmen_step(self, sys):
        def step(s, c, t, seg, tied):
            new = sys.newload(s, c)
            if new is None:
                return  # nobody approves the remaining candidates
            # the largest load of a voter may have been larger before only if it stays unchanged
            number("maximum load increased to NUM", seg, new, "maximum load")
            vec_is("load distribution:", seg, t[1], "load distribution")
            if "are tied" in seg:
                number(r"(?:new maximum load = |new maximum load would be )NUM\)", seg, new, "tied load")

        return step

    def steps(self, sys, text, comms, verb, check, s=None, first=1):
        """Replay the printed steps on the transition system of the rule."""
        parts = re.split(rf"{verb} candidate number (\d+): (\S+)", text)
        s = sys.start() if s is None else s
        n = 0
        for i in range(1, len(parts), 3):
            seg = re.split(r"\d+ winning committee|Phase 2", parts[i + 2])[0]
            need(int(parts[i]) == first + n, f"step number {parts[i]}")
            c = NAMES.index(parts[i + 1])
            tied = sys.tied(s)
            need(c in tied, f"step {first + n}: {parts[i + 1]} is no best choice")
            t = sys.step(s, c)
            check(s, c, t, seg, tied)
            x = re.search(r"candidates \{([^}]*)\} are tied", seg)
            favored = re.search(r"tie broken (?:in favor|to the disadvantage) of (\S+),", seg)
            if x:
                need(cands(x.group(1)) | {c} == set(tied), f"step {first + n}: tied candidates are {sorted(tied)}")
                need(favored and favored.group(1) == parts[i + 1], f"step {first + n}: tie broken for {parts[i + 1]}")
            else:
                limit = 2 if verb == "removing" else 1
                need(len(tied) <= limit, f"step {first + n}: tie between {sorted(tied)} not mentioned")
            s = t
            n += 1
        need(not sys.tied(s), "the steps stop too early")
        self.final = s
        if comms is not None:
            need(frozenset(s[0]) == comms[0], "the steps lead to the committee")
        return n

    def separable(self, rid, m, votes, k, text):
        score = ref.separable_scores(rid, m, votes)
        part = text[text.index("Scores of candidates:"):]
        for c in range(m):
            pattern = rf"(?<=[ ]){re.escape(NAMES[c])}: NUM"
            number(pattern, part, score[c], f"score of {NAMES[c]}")
            if rid == "sav":  # SAV ties of float scores are decided by A03: here, as printed
                score[c] = num(re.search(pattern.replace("NUM", NUM), part).group(1))
        order = sorted(score, reverse=True)
        cutoff = order[k - 1]
        number(r"if their score is >= NUM", part, cutoff, "cutoff")
        atmin = [c for c in range(m) if score[c] == cutoff]
        above = [c for c in range(m) if score[c] > cutoff]
        missing = k - len(above)
        certain, possible = (above + atmin, []) if missing == len(atmin) else (above, atmin)
        x = re.search(r"every winning committee: (.*?)(?= The following| \d+ winning)", part)
        got = cands(x.group(1)) if x else frozenset()
        need(got == set(certain), f"certain candidates are {certain}")
        x = re.search(r"some of the winning committees: (.*?) \((\d+) of those", part)
        got = cands(x.group(1)) if x else frozenset()
        need(got == set(possible), f"possible candidates are {possible}")
        if x:
            need(int(x.group(2)) == missing, f"{missing} of those candidates")

    def greedy_monroe(self, votes, k, comms, text):
        n = len(votes)
        (comm,) = comms
        part = text[text.index("marked with *):"):]
        part = part[: re.search(r"\d+ winning committee", part).start()]
        rows = re.findall(r"candidate (\S+) assigned to: ((?:\d+\*?(?:, )?)*)", part)
        need(frozenset(NAMES.index(c) for c, _ in rows) == comm and len(rows) == k, "one district per member")
        sizes, seen, good = [], [], 0
        for name, voters in rows:
            voters = [x for x in voters.replace(" ", "").split(",") if x]
            sizes.append(len(voters))
            for v in voters:
                i = int(v.rstrip("*"))
                seen.append(i)
                happy = NAMES.index(name) in votes[i][0]
                need(happy != v.endswith("*"), f"mark of voter {i}")
                good += happy
        need(sorted(seen) == list(range(n)), "every voter is assigned once")
        need(max(sizes) - min(sizes) <= 1, f"district sizes {sizes}")
        printed = int(num(find(rf"has a Monroe score of {NUM}", text).group(1)))
        need(printed <= good, f"printed score {printed}, the assignment has {good}")
        best = ref.monroe_score(votes, comm)
        x = re.search(rf"Optimal Monroe score of the winning committee is {NUM}", text)
        need((int(num(x.group(1))) if x else printed) == best, f"optimal Monroe score of the committee {best}")

    def equal_shares(self, rid, m, votes, k, resolute, comms, text):
        approved = frozenset().union(*(a for a, _ in votes))
        few = len(approved) < k
        printed = "fewer candidates approved by at least one voter" in text
        need(few or not printed, "too few approved candidates")
        if few and rid == "equal-shares-with-increment-completion":
            need(printed, "too few approved candidates")
            return 1
        if rid == "equal-shares-with-increment-completion":
            kk = ref.equal_shares_increment(m, votes, k)[1]
            number(r"\(virtual\) committee size of NUM", text, kk, "virtual committee size")
            return 1
        if not resolute:
            return 1
        sys = ref.EqualShares(m, votes, k)
        vec_is("starting budget:", text, sys.budget0, "starting budget")

        def step(s, c, t, seg, tied):
            q = sys.rho(s[1], c)
            number("cost per voter q = NUM", seg, q, "cost")
            vec_is("remaining budget:", seg, t[1], "remaining budget")
            if "are tied" in seg:
                number(r"\(all would impose a maximum cost of NUM\)", seg, q, "tied cost")

        one, two, rest = text.partition("Phase 2")
        n = self.steps(sys, one, None, "adding", step)
        comm, budget = self.final
        if rid == "equal-shares":
            need(bool(two) == (len(comm) < k), "second phase exactly if the first does not fill the committee")
            if two:
                load = tuple(-b / w for b, (_, w) in zip(budget, votes))
                vec_is(r"starting loads \(= budget spent\):", rest, load, "starting loads")
                phr = ref.SeqPhragmen(m, votes, k)
                n += self.steps(
                    phr, rest, comms, "adding", self.phragmen_step(phr), s=(comm, load), first=len(comm) + 1
                )
            else:
                need(comm == comms[0], "the steps lead to the committee")
        else:
            need(not two and comm <= comms[0], "the steps lead to the committee")
        return n


CHECK = V02()
