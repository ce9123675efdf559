"""Exact reference definitions of the axioms checked by abcvoting.properties.

votes: [(frozenset of candidates, Fraction weight)], W: frozenset (the committee), q: Fraction.
Every axiom function returns True iff the axiom holds.
"""

import itertools
from fractions import Fraction as F


def subsets(items, lo=0, hi=None):
    items = sorted(items)
    hi = len(items) if hi is None else min(hi, len(items))
    for r in range(lo, hi + 1):
        for x in itertools.combinations(items, r):
            yield frozenset(x)


def weight(votes, cond):
    return sum((w for a, w in votes if cond(a)), F(0))


def jr(m, votes, W, q):
    return not any(weight(votes, lambda a: c in a and not a & W) >= q for c in range(m))


def ejr(m, votes, W, q):
    for T in subsets(range(m), 1):
        ell = len(T)
        if weight(votes, lambda a: T <= a and len(a & W) < ell) >= ell * q:
            return False
    return True


def pjr(m, votes, W, q):
    for T in subsets(range(m), 1):
        ell = len(T)
        size = min(ell - 1, len(W))
        for U in subsets(W, size, size):
            S = [w for a, w in votes if T <= a and a & W <= U]
            if S and sum(S) >= ell * q:
                return False
    return True


def ejr_plus(m, votes, W, q):
    for c in range(m):
        if c in W:
            continue
        for ell in range(1, len(W) + 2):
            if weight(votes, lambda a: c in a and len(a & W) < ell) >= ell * q:
                return False
        # larger ell: everyone counts
        total = weight(votes, lambda a: c in a)
        if total >= (len(W) + 1) * q:
            return False
    return True


def fjr(m, votes, W, q):
    for T in subsets(range(m), 1):
        for beta in range(1, len(T) + 1):
            if weight(votes, lambda a: len(a & T) >= beta > len(a & W)) >= len(T) * q:
                return False
    return True


def core(m, votes, W, q):
    for T in subsets(range(m), 1):
        S = [w for a, w in votes if len(a & T) > len(a & W)]
        if S and sum(S) >= len(T) * q:
            return False
    return True


def dominates(votes, X, Y):
    better = False
    for a, _ in votes:
        if len(a & X) < len(a & Y):
            return False
        better = better or len(a & X) > len(a & Y)
    return better


def pareto(m, votes, W, q=None):
    return not any(dominates(votes, X, W) for X in subsets(range(m), len(W), len(W)))


def feasible(rows, n):
    """Is there x >= 0 (n variables) with sum(a_i x_i) <= b for all rows (a: dict, b)? Exact."""
    # phase 1 simplex with one artificial column (x0): a x - x0 <= b, minimise x0; Bland's rule
    nrows = len(rows)
    ncols = n + nrows + 1  # variables, slacks, artificial
    art = ncols - 1
    tab = []
    for i, (a, b) in enumerate(rows):
        row = [F(0)] * (ncols + 1)
        for j, v in a.items():
            row[j] = F(v)
        row[n + i] = F(1)
        row[art] = F(-1)
        row[-1] = F(b)
        tab.append(row)
    basis = [n + i for i in range(nrows)]
    worst = min(range(nrows), key=lambda i: tab[i][-1])
    if tab[worst][-1] >= 0:
        return True

    def pivot(r, c):
        p = tab[r][c]
        tab[r] = [v / p for v in tab[r]]
        for i in range(nrows):
            if i != r and tab[i][c] != 0:
                f = tab[i][c]
                tab[i] = [v - f * u for v, u in zip(tab[i], tab[r])]
        basis[r] = c

    pivot(worst, art)
    while True:
        if art not in basis:
            return True
        ra = basis.index(art)
        if tab[ra][-1] == 0:
            return True
        # objective: minimise x0 = tab[ra][-1] - sum tab[ra][j] x_j  -> enter a column with
        # positive coefficient in that row (Bland)
        enter = next((j for j in range(ncols) if j not in basis and tab[ra][j] > 0), None)
        if enter is None:
            return False
        best, leave = None, None
        for i in range(nrows):
            if tab[i][enter] > 0:
                ratio = tab[i][-1] / tab[i][enter]
                key = (ratio, basis[i] != art, basis[i])
                if best is None or key < best:
                    best, leave = key, i
        pivot(leave, enter)


def priceable(m, votes, W, stable=False):
    """LP of Definition 4.8 (Lackner & Skowron), or with condition 4* (Peters et al.)."""
    approved = frozenset().union(*(a for a, _ in votes))
    if len(approved) < len(W):
        return approved <= W  # documented convention
    idx = {}
    var = lambda key: idx.setdefault(key, len(idx))
    b = var("b")
    rows = []
    pays = []
    for i, (a, w) in enumerate(votes):
        mine = [var((i, c)) for c in sorted(a & W)]
        pays.append(mine)
        row = {v: 1 for v in mine}
        row[b] = -w
        rows.append((row, 0))
    for c in W:
        sup = [idx[(i, c)] for i, (a, _) in enumerate(votes) if c in a]
        rows.append(({v: 1 for v in sup}, 1))
        rows.append(({v: -1 for v in sup}, -1))
    if stable:
        t = {}
        for i, (a, w) in enumerate(votes):
            if a - W:
                t[i] = var(("t", i))
                row = {v: -1 for v in pays[i]}
                row[b] = w
                row[t[i]] = -1
                rows.append((row, 0))
                for v in pays[i]:
                    rows.append(({v: 1, t[i]: -1}, 0))
        for c in range(m):
            if c not in W:
                rows.append(({t[i]: 1 for i, (a, _) in enumerate(votes) if c in a}, 1))
    else:
        for c in range(m):
            if c not in W:
                row = {}
                for i, (a, w) in enumerate(votes):
                    if c in a:
                        row[b] = row.get(b, 0) + w
                        for v in pays[i]:
                            row[v] = row.get(v, 0) - 1
                rows.append((row, 1))
    return feasible(rows, len(idx))


AXIOMS = {"jr": jr, "pjr": pjr, "ejr": ejr, "ejr+": ejr_plus, "fjr": fjr, "core": core, "pareto": pareto}


def holds(name, m, votes, W, q=None):
    W = frozenset(W)
    if name == "priceability":
        return priceable(m, votes, W)
    if name == "stable-priceability":
        return priceable(m, votes, W, True)
    if q is None:
        q = sum(w for _, w in votes) / len(W)
    return AXIOMS[name](m, votes, W, q)
