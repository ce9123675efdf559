import copy
import os
from fractions import Fraction

from mc import allrules, domain
from mc.base import Check

WEIGHTS = (1, 2, "1/2", 0.5, 1e-07, "1/3", 12345678901234567890, 0.1)
SIZES = (None, 1, 2)
DESCRIPTIONS = (None, "", "a: b # c", "1", "two\nlines, 'quoted' \"twice\" {x}", "true", "x" * 200)
INSTANCES = (
    {"rule_id": "pav"},
    {"rule_id": "pav", "resolute": True, "algorithm": "branch-and-bound"},
    {"rule_id": "av", "resolute": False, "max_num_of_committees": 3, "result": [(0, 1), (0, 2)]},
    {"rule_id": "seqphragmen", "result": None},
    {"rule_id": "equal-shares", "completion": None, "result": []},
    {"rule_id": "cc", "result": [(2,)], "resolute": False},
)


def plain_profile(profile):
    return (profile.num_cand, [(sorted(int(c) for c in v.approved), v.weight) for v in profile])


class F01(Check):
    """Writing an instance to a yaml file and reading it back is the identity."""

    chunk = 60

    def units(self, tier):
        yield (3, (), None, "plain")
        for u in domain.seq_m(3, 3 if tier == "thorough" else 2):
            yield u + ("plain",)
        for u in domain.multisets(3, 3):
            yield u + ("plain",)
        for u in domain.multisets(4, 2):
            yield u + ("numpy",)
        for u in domain.wide(2):
            yield u + ("plain",)
        for u in domain.wide(1, 40):
            yield u + ("numpy",)
        for n in (1, 2, 3):
            for u in domain.weighted(domain.multisets(2, n) if n < 3 else [(2, (1, 2, 3), None)], WEIGHTS):
                yield u + ("plain",)
        yield (30, tuple((0x3FFFFFFF >> i) for i in range(30)) * 4, None, "plain")
        for i in range(len(INSTANCES)):
            for j in range(-1, len(INSTANCES)):
                yield (3, (0b011, 0b110, 0b001), None, "compute", i, j)
        for d in range(len(DESCRIPTIONS)):
            for s in SIZES:
                yield (3, (0b011, 0b110), (1, "1/2"), "text", d, s)
        for i in range(len(INSTANCES)):
            yield (3, (0b011, 0b110, 0b001), None, "reject", i)

    def bounds(self, tier):
        return (
            f"profiles: ordered m<=3 n<={3 if tier == 'thorough' else 2}, multisets m=3 n=3, m=4 n=2, 12/30/40"
            f" candidates, candidates as int and numpy integers, weights over {WEIGHTS}; compute instances: all"
            f" pairs from {len(INSTANCES)}; {len(DESCRIPTIONS)} descriptions x sizes {SIZES}; every ordered pair of"
            " consecutive files to the same path; rejected writes"
        )

    def tick(self, ctx, *key):
        for name in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
            ctx.count(name)
        ctx.outcome(*key)

    def run(self, unit, ctx):
        import numpy as np
        from abcvoting import fileio
        from abcvoting.preferences import Profile, Voter

        path = os.path.abspath(f"f01-{os.getpid()}.abc.yaml")
        mode = unit[3]
        if mode == "numpy":
            profile = Profile(unit[0])
            for mask in unit[1]:
                profile.add_voter([np.int64(c) for c in domain.bits(mask)])
        else:
            profile = domain.make_profile(unit)
        try:
            if mode == "reject":
                return self.reject(fileio, profile, path, unit, ctx)
            kwargs_list = [{}]
            if mode == "text":
                kwargs_list = [{"description": DESCRIPTIONS[unit[4]], "committeesize": unit[5]}]
            elif mode == "compute":
                ids = [i for i in unit[4:] if i >= 0]
                insts = lambda: [copy.deepcopy(INSTANCES[i]) for i in ids]
                kwargs_list = [
                    {"committeesize": 2, "compute_instances": insts()},
                    {"committeesize": 2, "compute_instances": [dict(x, profile=profile, committeesize=2) for x in insts()]},
                ]
            for kwargs in kwargs_list:
                # a longer file is already there
                with open(path, "w") as f:
                    f.write("profile: [[0, 1, 2, 3]]\n" + "# filler\n" * 200 + "committeesize: 77\n")
                self.round_trip(fileio, profile, kwargs, path, unit, ctx)
        finally:
            if os.path.exists(path):
                os.remove(path)

    def round_trip(self, fileio, profile, kwargs, path, unit, ctx):
        before = plain_profile(profile)
        given = [dict(x) for x in kwargs.get("compute_instances") or []]
        fileio.write_abcvoting_instance_to_yaml_file(path, profile, **kwargs)
        if plain_profile(profile) != before or given != (kwargs.get("compute_instances") or []):
            ctx.fail("write", "writing changed its arguments")
        for attempt in (1, 2):  # reading, writing what was read, reading again
            got, size, insts, data = fileio.read_abcvoting_yaml_file(path)
            self.tick(ctx, unit[3], attempt, len(got), size, len(insts))
            if plain_profile(got) != before:
                ctx.fail("profile", f"read back {plain_profile(got)}")
            if size != kwargs.get("committeesize"):
                ctx.fail("committeesize", f"read back {size!r}")
            if data.get("description") != kwargs.get("description"):
                ctx.fail("description", f"read back {data.get('description')!r}")
            if len(insts) != len(given):
                ctx.fail("compute", f"read back {len(insts)} compute instances")
                return
            for want, x in zip(given, insts):
                if plain_profile(x.get("profile")) != before or x.get("committeesize") != size:
                    ctx.fail("compute", f"instance {want['rule_id']} without the profile and committee size")
                w = {k: v for k, v in want.items() if k not in ("profile", "committeesize")}
                g = {k: v for k, v in x.items() if k not in ("profile", "committeesize")}
                for d in (w, g):
                    if d.get("result") is not None:
                        if d is g and not all(isinstance(c, set) for c in d["result"]):
                            ctx.fail("compute", "results are not sets")
                        d["result"] = [sorted(c) for c in d["result"]]
                if w != g:
                    ctx.fail("compute", f"read back {g}, written {w}")
            fileio.write_abcvoting_instance_to_yaml_file(
                path, got, committeesize=size, compute_instances=insts, description=data.get("description")
            )

    def reject(self, fileio, profile, path, unit, ctx):
        """A rejected write raises ValueError and leaves an existing file alone."""
        from abcvoting.preferences import Profile

        good = dict(INSTANCES[unit[4]])
        other = Profile(3)
        other.add_voters([[0], [0], [0]])
        bad = [
            ({k: v for k, v in good.items() if k != "rule_id"}, 2),
            (dict(good, profile=other), 2),
            (dict(good, committeesize=1), 2),
            (dict(good, committeesize=2), 1),
        ]
        for inst, size in bad:
            for insts in ([inst], [{"rule_id": "pav"}, inst], [inst, {"rule_id": "pav"}]):
                fileio.write_abcvoting_instance_to_yaml_file(path, profile, committeesize=2)
                content = open(path).read()
                self.tick(ctx, "reject", sorted(inst), size)
                try:
                    fileio.write_abcvoting_instance_to_yaml_file(
                        path, profile, committeesize=size, compute_instances=insts
                    )
                    ctx.fail("reject", f"accepted {sorted(inst)} with committeesize={size}")
                except ValueError:
                    pass
                if open(path).read() != content:
                    ctx.fail("reject", "a rejected write changed the file")


CHECK = F01()
