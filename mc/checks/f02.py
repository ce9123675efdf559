import os
from collections import Counter
from fractions import Fraction

from mc import domain
from mc.base import Check

WEIGHTS = (1, 2, 10, 2.0, "4/2")
NAMES = {
    "default": lambda m: None,
    "words": lambda m: ["cand %d, the {%d}: #%d" % (i, i, i) for i in range(m)],
    "reversed": lambda m: [str(m - i) for i in range(m)],
    "swapped": lambda m: [str((i + 1) % m) for i in range(m)],
}


class F02(Check):
    """A profile with integer weights survives being written to a Preflib cat file."""

    chunk = 100

    def units(self, tier):
        for name in NAMES:
            for u in domain.seq_m(3, 3 if tier == "thorough" or name == "default" else 2):
                yield u + (name,)
        for u in domain.multisets(3, 4):
            yield u + ("default",)
        for u in domain.multisets(4, 3):
            yield u + ("default",)
        for u in domain.wide(3):
            yield u + ("words",)
        for u in domain.wide(2, 30):
            yield u + ("default",)
        for u in domain.weighted(list(domain.multisets(2, 2)) + list(domain.multisets(2, 3)), WEIGHTS):
            yield u + ("default",)

    def bounds(self, tier):
        return (
            "ordered m<=3 n<=3, multisets m=3 n=4 and m=4 n=3, 12 and 30 candidates; weights over"
            f" {WEIGHTS}; candidate names {list(NAMES)}; both ways to read multiplicities"
        )

    def run(self, unit, ctx):
        from abcvoting import fileio
        from abcvoting.preferences import Profile, Voter

        m, votes = domain.plain(unit)
        names = NAMES[unit[3]](m)
        profile = Profile(m, cand_names=names)
        for mask, w in zip(unit[1], unit[2] or (1,) * len(unit[1])):
            profile.add_voter(Voter(domain.bits(mask), weight=domain.to_weight(w)))
        path = os.path.abspath(f"f02-{os.getpid()}.cat")
        want = Counter()
        for a, w in votes:
            want[a] += w
        before = [(set(v.approved), v.weight) for v in profile]
        try:
            with open(path, "w") as f:
                f.write("# old\n" * 100)
            fileio.write_profile_to_preflib_cat_file(path, profile)
            if [(set(v.approved), v.weight) for v in profile] != before:
                ctx.fail("write", "writing changed the profile")
            for use_weights in (False, True):
                for kw in ({}, {"top_ranks": 1}):
                    got = fileio.read_preflib_file(path, use_weights=use_weights, **kw)
                    for name in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
                        ctx.count(name)
                    ctx.outcome(sorted((sorted(a), str(w)) for a, w in want.items()))
                    have = Counter()
                    for v in got:
                        have[frozenset(v.approved)] += v.weight
                    tag = f"use_weights={use_weights}"
                    if got.num_cand != m or have != want:
                        ctx.fail(tag, f"read back {got.num_cand} candidates, {[(sorted(a), str(w)) for a, w in have.items()]}")
                    if not use_weights and any(v.weight != 1 for v in got):
                        ctx.fail(tag, "voters with weights")
                    if list(got.cand_names) != list(profile.cand_names):
                        ctx.fail(tag, f"candidate names {list(got.cand_names)}")
            # two copies with weights and with repeated voters are the same file content
        finally:
            if os.path.exists(path):
                os.remove(path)


CHECK = F02()
