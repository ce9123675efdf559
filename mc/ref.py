"""Reference models: plain, exact (rational) definitions, independent of the code under test.

Profiles are plain data: m candidates 0..m-1 and a list of (frozenset approved, Fraction weight).
Optimisation rules are decided by enumerating all committees; sequential rules are explicit-state
transition systems whose reachable terminal states are the winning committees under
parallel-universe tie-breaking, and whose leftmost path is the outcome with ties broken towards the
smallest candidate index.  Each transition system counts its states and transitions.
"""

import itertools
from fractions import Fraction as F
from functools import lru_cache


def committees(m, k):
    return [frozenset(c) for c in itertools.combinations(range(m), k)]


# ---------------------------------------------------------------- Thiele methods


@lru_cache(None)
def marginal(fct, i):
    """Marginal score of the i-th approved committee member (i >= 1)."""
    if i <= 0:
        return F(0)
    if fct == "pav":
        return F(1, i)
    if fct == "slav":
        return F(1, 2 * i - 1)
    if fct == "cc":
        return F(1) if i == 1 else F(0)
    if fct == "av":
        return F(1)
    if fct.startswith("geom"):
        return F(1) / F(fct[4:]) ** (i - 1)
    if fct.startswith("atleast"):
        return F(1) if i == int(fct[7:]) else F(0)
    raise KeyError(fct)


@lru_cache(None)
def cumulative(fct, u):
    return sum((marginal(fct, i) for i in range(1, u + 1)), F(0))


def thiele_score(fct, votes, comm):
    return sum((w * cumulative(fct, len(a & comm)) for a, w in votes), F(0))


def argbest(items, key):
    best, res = None, []
    for x in items:
        v = key(x)
        if best is None or v > best:
            best, res = v, [x]
        elif v == best:
            res.append(x)
    return set(res), best


def thiele(fct, m, votes, k):
    return argbest(committees(m, k), lambda c: thiele_score(fct, votes, c))[0]


def lexcc(m, votes, k):
    def key(c):
        return [sum((w for a, w in votes if len(a & c) >= ell), F(0)) for ell in range(1, k + 1)]

    return argbest(committees(m, k), key)[0]


# ---------------------------------------------------------------- separable rules


def separable_scores(rule, m, votes):
    s = [F(0)] * m
    for a, w in votes:
        for c in a:
            s[c] += w if rule == "av" else w / len(a)
    return s


def separable(rule, m, votes, k):
    s = separable_scores(rule, m, votes)
    return argbest(committees(m, k), lambda c: sum((s[x] for x in c), F(0)))[0]


# ---------------------------------------------------------------- minimax AV


def dists(votes, comm):
    return sorted((len(a ^ comm) for a, _ in votes), reverse=True)


def minimaxav(m, votes, k):
    return argbest(committees(m, k), lambda c: -max(dists(votes, c)))[0]


def lexminimaxav(m, votes, k):
    return argbest(committees(m, k), lambda c: [-x for x in dists(votes, c)])[0]


# ---------------------------------------------------------------- Monroe


def monroe_score(votes, comm):
    """Largest number of represented voters over all balanced assignments (dynamic programming)."""
    comm = sorted(comm)
    n, k = len(votes), len(comm)
    lo, hi = n // k, -(-n // k)
    layer = {(0,) * k: 0}
    for a, _ in votes:
        nxt = {}
        for counts, s in layer.items():
            for i, c in enumerate(comm):
                if counts[i] < hi:
                    t = counts[:i] + (counts[i] + 1,) + counts[i + 1 :]
                    v = s + (c in a)
                    if nxt.get(t, -1) < v:
                        nxt[t] = v
        layer = nxt
    return max(v for t, v in layer.items() if all(x >= lo for x in t))


def monroe(m, votes, k):
    return argbest(committees(m, k), lambda c: monroe_score(votes, c))[0]


def greedy_monroe(m, votes, k):
    """All outcomes over all choices of the voters that are assigned; ties between candidates
    go to the smallest index."""
    n = len(votes)
    results, stats = set(), [0, 0]
    stack = [(frozenset(), frozenset(range(n)))]
    seen = set()
    while stack:
        comm, rest = stack.pop()
        if (comm, rest) in seen:
            continue
        seen.add((comm, rest))
        stats[0] += 1
        t = len(comm)
        if t == k:
            results.add(comm)
            continue
        cap = n // k + (1 if t < n % k else 0)
        best = max(
            (c for c in range(m) if c not in comm),
            key=lambda c: (sum(1 for i in rest if c in votes[i][0]), -c),
        )
        fans = [i for i in rest if best in votes[i][0]]
        for chosen in itertools.combinations(fans, min(cap, len(fans))):
            stats[1] += 1
            stack.append((comm | {best}, rest - frozenset(chosen)))
    return results, stats


# ---------------------------------------------------------------- explicit-state engine


class Sequential:
    """A transition system: states, tied moves of a state, and the successor of a move."""

    def start(self):
        raise NotImplementedError

    def tied(self, state):
        """List of tied moves in increasing candidate order; empty list = terminal."""
        raise NotImplementedError

    def step(self, state, move):
        raise NotImplementedError

    def result(self, state):
        return frozenset(state[0])

    def explore(self):
        """All reachable terminal committees (states are merged when equal)."""
        init = self.start()
        seen = {init}
        todo = [init]
        finals = set()
        transitions = 0
        while todo:
            s = todo.pop()
            moves = self.tied(s)
            if not moves:
                finals.add(self.result(s))
                continue
            for mv in moves:
                transitions += 1
                t = self.step(s, mv)
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return finals, len(seen), transitions

    def leftmost(self):
        s = self.start()
        while True:
            moves = self.tied(s)
            if not moves:
                return self.result(s)
            s = self.step(s, moves[0])


class SeqThiele(Sequential):
    def __init__(self, fct, m, votes, k):
        self.fct, self.m, self.votes, self.k = fct, m, votes, k

    def start(self):
        return (frozenset(),)

    def tied(self, s):
        (comm,) = s
        if len(comm) == self.k:
            return []
        rest = [c for c in range(self.m) if c not in comm]
        gain = {c: thiele_score(self.fct, self.votes, comm | {c}) for c in rest}
        best = max(gain.values())
        return [c for c in rest if gain[c] == best]

    def step(self, s, c):
        return (s[0] | {c},)


class RevSeqThiele(Sequential):
    """Removes the candidate with the smallest contribution; resolute ties remove large indices."""

    def __init__(self, fct, m, votes, k):
        self.fct, self.m, self.votes, self.k = fct, m, votes, k

    def start(self):
        return (frozenset(range(self.m)),)

    def tied(self, s):
        (comm,) = s
        if len(comm) == self.k:
            return []
        left = {c: thiele_score(self.fct, self.votes, comm - {c}) for c in comm}
        best = max(left.values())
        return sorted((c for c in comm if left[c] == best), reverse=True)

    def step(self, s, c):
        return (s[0] - {c},)


class SeqPhragmen(Sequential):
    def __init__(self, m, votes, k, comm=frozenset(), load=None):
        self.m, self.votes, self.k = m, votes, k
        self.comm0 = frozenset(comm)
        self.load0 = tuple(load) if load is not None else (F(0),) * len(votes)

    def start(self):
        return (self.comm0, self.load0)

    def newload(self, s, c):
        fans = [i for i, (a, _) in enumerate(self.votes) if c in a]
        if not fans:
            return None
        tot = sum(self.votes[i][1] for i in fans)
        return (1 + sum(self.votes[i][1] * s[1][i] for i in fans)) / tot

    def tied(self, s):
        comm = s[0]
        if len(comm) == self.k:
            return []
        rest = [c for c in range(self.m) if c not in comm]
        loads = {c: self.newload(s, c) for c in rest}
        finite = [v for v in loads.values() if v is not None]
        if not finite:
            return rest  # nobody supports any remaining candidate
        best = min(finite)
        return [c for c in rest if loads[c] == best]

    def step(self, s, c):
        nl = self.newload(s, c)
        load = tuple(nl if c in a else s[1][i] for i, (a, _) in enumerate(self.votes))
        return (s[0] | {c}, load)


class EqualShares(Sequential):
    """Method of Equal Shares, first phase; terminal when nothing is affordable or |W| = k."""

    def __init__(self, m, votes, k, budget_per_weight=None):
        self.m, self.votes, self.k = m, votes, k
        total = sum(w for _, w in votes)
        b = budget_per_weight if budget_per_weight is not None else F(k) / total
        self.budget0 = tuple(w * b for _, w in votes)

    def start(self):
        return (frozenset(), self.budget0)

    def rho(self, budget, c):
        """Smallest q such that the supporters can pay 1 with at most q per unit of weight."""
        fans = [i for i, (a, _) in enumerate(self.votes) if c in a]
        if sum((budget[i] for i in fans), F(0)) < 1:
            return None
        # try: the supporters with the smallest budget per weight pay everything they have
        fans.sort(key=lambda i: budget[i] / self.votes[i][1])
        paid = F(0)
        weight = sum((self.votes[i][1] for i in fans), F(0))
        for i in fans:
            q = (1 - paid) / weight
            if q * self.votes[i][1] <= budget[i]:
                return q
            paid += budget[i]
            weight -= self.votes[i][1]
        raise AssertionError("not reachable")

    def tied(self, s):
        comm, budget = s
        if len(comm) == self.k:
            return []
        rho = {c: self.rho(budget, c) for c in range(self.m) if c not in comm}
        finite = [v for v in rho.values() if v is not None]
        if not finite:
            return []
        best = min(finite)
        return [c for c in sorted(rho) if rho[c] == best]

    def step(self, s, c):
        comm, budget = s
        q = self.rho(budget, c)
        nb = tuple(
            b - min(b, q * w) if c in a else b for b, (a, w) in zip(budget, self.votes)
        )
        return (comm | {c}, nb)


class EqualSharesPhragmen(Sequential):
    """Equal Shares completed with sequential Phragmén started from the unspent budgets."""

    def __init__(self, m, votes, k):
        self.m, self.votes, self.k = m, votes, k
        self.mes = EqualShares(m, votes, k)
        self.phr = SeqPhragmen(m, votes, k)

    def start(self):
        return (frozenset(), self.mes.budget0, 1)

    def tied(self, s):
        comm, x, phase = s
        if len(comm) == self.k:
            return []
        if phase == 1:
            moves = self.mes.tied((comm, x))
            return moves if moves else ["switch"]
        return self.phr.tied((comm, x))

    def step(self, s, c):
        comm, x, phase = s
        if c == "switch":
            return (comm, tuple(-b / w for b, (_, w) in zip(x, self.votes)), 2)
        if phase == 1:
            return self.mes.step((comm, x), c) + (1,)
        return self.phr.step((comm, x), c) + (2,)


def equal_shares_av(m, votes, k):
    """Equal Shares completed by the candidates with the highest approval scores.
    Returns (all committees, one of the acceptable resolute outcomes' set, states, transitions)."""
    finals, st, tr = EqualShares(m, votes, k).explore()
    score = separable_scores("av", m, votes)

    def fill(comm):
        rest = [c for c in range(m) if c not in comm]
        return argbest(
            [frozenset(x) for x in itertools.combinations(rest, k - len(comm))],
            lambda x: sum((score[c] for c in x), F(0)),
        )[0]

    allc = {comm | x for comm in finals for x in fill(comm)}
    left = EqualShares(m, votes, k).leftmost()
    return allc, {left | x for x in fill(left)}, st, tr


def equal_shares_increment(m, votes, k):
    """Raise the budget as if the committee size was k, k+1, ... until k candidates are bought."""
    total = sum(w for _, w in votes)
    if len(frozenset().union(*(a for a, _ in votes))) < k:
        return None  # outcome: all approved candidates plus arbitrary others
    kk = k
    while True:
        e = EqualShares(m, votes, k, F(kk) / total)
        res = e.leftmost()
        if len(res) == k:
            return res, kk
        kk += 1


class PhragmenEnestroem(Sequential):
    def __init__(self, m, votes, k):
        self.m, self.votes, self.k = m, votes, k
        self.price = sum(w for _, w in votes) / k

    def start(self):
        return (frozenset(), tuple(w for _, w in self.votes))

    def support(self, budget, c):
        return sum((b for b, (a, _) in zip(budget, self.votes) if c in a), F(0))

    def tied(self, s):
        comm, budget = s
        if len(comm) == self.k:
            return []
        sup = {c: self.support(budget, c) for c in range(self.m) if c not in comm}
        best = max(sup.values())
        return [c for c in sorted(sup) if sup[c] == best]

    def step(self, s, c):
        comm, budget = s
        sup = self.support(budget, c)
        keep = (sup - self.price) / sup if sup > self.price else F(0)
        return (
            comm | {c},
            tuple(b * keep if c in a else b for b, (a, _) in zip(budget, self.votes)),
        )


class Consensus(Sequential):
    """Every round each voter earns their weight; the candidate with the largest support among
    voters with positive budget wins; its supporters pay the total weight, proportional to weight."""

    def __init__(self, m, votes, k):
        self.m, self.votes, self.k = m, votes, k
        self.total = sum(w for _, w in votes)

    def start(self):
        return (frozenset(), tuple(F(0) for _ in self.votes))

    def earned(self, s):
        return [b + w for b, (_, w) in zip(s[1], self.votes)]

    def tied(self, s):
        comm = s[0]
        if len(comm) == self.k:
            return []
        budget = self.earned(s)
        sup = {
            c: sum((b for b, (a, _) in zip(budget, self.votes) if c in a and b > 0), F(0))
            for c in range(self.m)
            if c not in comm
        }
        best = max(sup.values())
        return [c for c in sorted(sup) if sup[c] == best]

    def step(self, s, c):
        budget = self.earned(s)
        payers = [i for i, (a, _) in enumerate(self.votes) if c in a and budget[i] > 0]
        tot = sum((self.votes[i][1] for i in payers), F(0))
        for i in payers:
            budget[i] -= self.votes[i][1] * self.total / tot
        return (s[0] | {c}, tuple(budget))


def max_load(votes, comm):
    """Smallest achievable maximum load per unit of weight (None: some member has no supporter)."""
    best = F(0)
    comm = sorted(comm)
    for r in range(1, len(comm) + 1):
        for sub in itertools.combinations(comm, r):
            w = sum((x for a, x in votes if a & frozenset(sub)), F(0))
            if w == 0:
                return None
            best = max(best, F(r) / w)
    return best


def support_value(votes, comm):
    """Largest achievable minimum support over all ways voters split their weight."""
    comm = sorted(comm)
    return min(
        sum((x for a, x in votes if a & frozenset(sub)), F(0)) / r
        for r in range(1, len(comm) + 1)
        for sub in itertools.combinations(comm, r)
    )


def balanced_loads(votes, comm):
    """The lexicographically smallest sorted vector of voter loads (total load per voter)."""
    comm = set(comm)
    votes = list(votes)
    loads = []
    while comm:
        best, bestset = None, None
        cs = sorted(comm)
        for r in range(1, len(cs) + 1):
            for sub in itertools.combinations(cs, r):
                n = sum((w for a, w in votes if a & frozenset(sub)), F(0))
                if n == 0:
                    return None
                v = F(r) / n
                if best is None or v > best or (v == best and r > len(bestset)):
                    best, bestset = v, frozenset(sub)
        rest = []
        for a, w in votes:
            if a & bestset:
                loads.append(best)
            else:
                rest.append((a, w))
        votes = rest
        comm -= bestset
    loads += [F(0)] * len(votes)
    return sorted(loads, reverse=True)


def _few_approved(m, votes, k):
    app = frozenset().union(*(a for a, _ in votes)) if votes else frozenset()
    if len(app) < k:
        rest = [c for c in range(m) if c not in app]
        return {app | frozenset(x) for x in itertools.combinations(rest, k - len(app))}
    return None


def minimaxphragmen(m, votes, k):
    few = _few_approved(m, votes, k)
    if few is not None:
        return few
    cs = [c for c in committees(m, k) if max_load(votes, c) is not None]
    return argbest(cs, lambda c: -max_load(votes, c))[0]


def leximaxphragmen(m, votes, k):
    few = _few_approved(m, votes, k)
    if few is not None:
        return few
    cs = [c for c in committees(m, k) if max_load(votes, c) is not None]
    return argbest(cs, lambda c: [-x for x in balanced_loads(votes, c)])[0]


class MaximinSupport(Sequential):
    def __init__(self, m, votes, k):
        self.m, self.votes, self.k = m, votes, k

    def start(self):
        return (frozenset(),)

    def tied(self, s):
        comm = s[0]
        if len(comm) == self.k:
            return []
        rest = [c for c in range(self.m) if c not in comm]
        val = {c: support_value(self.votes, comm | {c}) for c in rest}
        best = max(val.values())
        return [c for c in rest if val[c] == best]

    def step(self, s, c):
        return (s[0] | {c},)


def eph(m, votes, k):
    """E Pluribus Hugo: repeatedly nominate the candidates with the two smallest split scores and
    eliminate the nominees with the fewest approvals; elimination below k is by tie-breaking."""
    left = frozenset(range(m))
    rounds = 0
    while True:
        rounds += 1
        sdv = {c: F(0) for c in left}
        av = {c: F(0) for c in left}
        for a, w in votes:
            rem = a & left
            for c in rem:
                sdv[c] += w / len(rem)
                av[c] += w
        order = sorted(sdv.values())
        cutoff = order[min(1, len(order) - 1)]
        nominees = [c for c in left if sdv[c] <= cutoff]
        low = min(av[c] for c in nominees)
        out = [c for c in nominees if av[c] == low]
        if len(left) - len(out) <= k:
            return {
                left - frozenset(x) for x in itertools.combinations(out, len(left) - k)
            }, rounds
        left -= frozenset(out)


def rsd_outcomes(m, votes, k):
    """All committees that some order of the voters (and some random filling) can produce."""
    res = set()
    for order in set(itertools.permutations(a for a, _ in votes)):
        comm = frozenset()
        done = False
        for a in order:
            if len(comm) + len(a) <= k:
                comm |= a
            else:
                for c in sorted(a):
                    comm |= {c}
                    if len(comm) == k:
                        break
            if len(comm) == k:
                done = True
                break
        if done:
            res.add(comm)
        else:
            rest = [c for c in range(m) if c not in comm]
            for x in itertools.combinations(rest, k - len(comm)):
                res.add(comm | frozenset(x))
    return res
