"""Finite alphabets: exhaustive enumerations of profiles within stated bounds.

A *unit* is a tuple (m, masks, weights): m candidates, one approval bit mask per voter, and either
None (all weights 1) or one weight per voter (int or "p/q" string).
Nothing here is sampled: every generator enumerates its space completely, simplest first.
"""

import itertools
from fractions import Fraction


def bits(mask):
    res = []
    i = 0
    while mask:
        if mask & 1:
            res.append(i)
        mask >>= 1
        i += 1
    return res


def masks_sorted(m, empty=True):
    """All approval sets over m candidates, small ones first."""
    lo = 0 if empty else 1
    return sorted(range(lo, 1 << m), key=lambda x: (bin(x).count("1"), x))


def sequences(m, n, empty=True):
    """All ordered profiles: every approval set for every voter."""
    alphabet = masks_sorted(m, empty)
    for masks in itertools.product(alphabet, repeat=n):
        yield (m, masks, None)


def multisets(m, n, empty=True):
    """All profiles up to the order of the voters."""
    alphabet = masks_sorted(m, empty)
    for masks in itertools.combinations_with_replacement(alphabet, n):
        yield (m, masks, None)


def permute_mask(mask, perm):
    res = 0
    i = 0
    while mask:
        if mask & 1:
            res |= 1 << perm[i]
        mask >>= 1
        i += 1
    return res


def orbits(m, n, empty=True):
    """One representative per class of profiles that differ by voter order and candidate names."""
    alphabet = masks_sorted(m, empty)
    perms = list(itertools.permutations(range(m)))
    tables = [[permute_mask(x, p) for x in range(1 << m)] for p in perms]
    rank = {x: i for i, x in enumerate(alphabet)}
    seen = set()
    for masks in itertools.combinations_with_replacement(alphabet, n):
        if masks in seen:
            seen.discard(masks)  # every member of the class is visited once
            continue
        images = {tuple(sorted((t[x] for x in masks), key=rank.get)) for t in tables}
        images.discard(masks)
        seen |= images
        yield (m, masks, None)


def relabel(unit, perm):
    m, masks, weights = unit[:3]
    return (m, tuple(permute_mask(x, perm) for x in masks), weights)


def with_relabelings(units, kinds=("id", "rev", "rot")):
    """Each representative under some fixed renamings of the candidates and a voter reversal."""
    for unit in units:
        m, masks, weights = unit[:3]
        out = [unit]
        if "rev" in kinds:
            out.append(relabel(unit, [m - 1 - i for i in range(m)]))
        if "rot" in kinds:
            r = relabel(unit, [(i + 1) % m for i in range(m)])
            out.append((r[0], tuple(reversed(r[1])), None if weights is None else tuple(reversed(weights))))
        seen = set()
        for u in out:
            if u not in seen:
                seen.add(u)
                yield u


def weighted(units, alphabet, skip_unit=True):
    """Every assignment of weights from `alphabet` to the voters of every unit."""
    for m, masks, _ in units:
        for ws in itertools.product(alphabet, repeat=len(masks)):
            if skip_unit and all(w == 1 for w in ws):
                continue
            yield (m, masks, ws)


def multiplicities(m, base_masks, mults):
    """Profiles that repeat each given approval set mult times (all combinations)."""
    for ms in itertools.product(mults, repeat=len(base_masks)):
        masks = tuple(x for x, c in zip(base_masks, ms) for _ in range(c))
        if masks:
            yield (m, masks, None)


def partylists(max_parties, max_size, max_mult, max_cand):
    """Party-list profiles: disjoint approval sets, each with a number of identical voters."""
    for p in range(1, max_parties + 1):
        for sizes in itertools.product(range(1, max_size + 1), repeat=p):
            m = sum(sizes)
            if m > max_cand:
                continue
            for mult in itertools.product(range(1, max_mult + 1), repeat=p):
                masks = []
                start = 0
                for s, c in zip(sizes, mult):
                    masks += [((1 << s) - 1) << start] * c
                    start += s
                yield (m, tuple(masks), None)


def wide(n_max, m=12):
    """Profiles with two-digit candidate indices over a fixed alphabet of 7 approval sets."""
    full = (1 << m) - 1
    alphabet = [
        1 << (m - 1),
        (1 << 2) | (1 << (m - 2)),
        (1 << (m - 1)) | (1 << (m - 2)) | (1 << (m - 3)),
        0b11,
        (1 << 1) | (1 << 8) | (1 << (m - 1)),
        full,
        full & ~0b111,
    ]
    for n in range(1, n_max + 1):
        for masks in itertools.combinations_with_replacement(alphabet, n):
            yield (m, masks, None)


def staircase(m, n, lengths, weights=None, step=1):
    """Larger profiles: voter i approves a cyclic interval that starts at step*i (all choices of lengths)."""
    for lens in itertools.product(lengths, repeat=n):
        masks = tuple(
            sum(1 << ((step * i + j) % m) for j in range(length)) for i, length in enumerate(lens)
        )
        yield (m, masks, weights)


def ladders(m=11):
    """Profiles with few ties for long committees: nested, overlapping and single-candidate ballots."""
    prefixes = tuple((1 << (i + 1)) - 1 for i in range(m))
    full = (1 << m) - 1
    yield (m, prefixes, None)
    yield (m, tuple(full & ~x for x in prefixes[:-1]) + (full,), None)
    yield (m, tuple(1 << i for i in range(m) for _ in range(i + 1)), None)
    yield (m, tuple((0b11 << i) & full for i in range(m) for _ in range(m - i)), None)


def crowds():
    """Many voters, few different ballots."""
    yield from multiplicities(4, (0b0011, 0b0110, 0b1100), (11, 23, 40))
    yield from multiplicities(4, (0b0001, 0b0111, 0b1010), (12, 13, 101))


def seq_m(m_max, n_max, empty=True):
    for m in range(1, m_max + 1):
        for n in range(1, n_max + 1):
            yield from sequences(m, n, empty)


def to_weight(w):
    if isinstance(w, str):
        return Fraction(w)
    return w


def plain(unit):
    """The profile as plain data for the reference models: m, [(frozenset, Fraction weight)]."""
    m, masks, weights = unit[:3]
    if weights is None:
        weights = (1,) * len(masks)
    return m, [(frozenset(bits(x)), Fraction(to_weight(w))) for x, w in zip(masks, weights)]


def size_key(unit):
    m, masks, weights = unit[0], unit[1], unit[2]
    return (m + len(masks), weights is not None, sum(bin(x).count("1") for x in masks))


def describe(unit):
    m, masks, weights = unit[0], unit[1], unit[2]
    s = f"num_cand={m} approvals={[bits(x) for x in masks]}"
    if weights is not None:
        s += f" weights={list(weights)}"
    return s


def make_profile(unit):
    from abcvoting.preferences import Profile, Voter

    m, masks, weights = unit[0], unit[1], unit[2]
    prof = Profile(m)
    if weights is None:
        prof.add_voters([bits(x) for x in masks])
    else:
        prof.add_voters([Voter(bits(x), weight=to_weight(w)) for x, w in zip(masks, weights)])
    return prof
