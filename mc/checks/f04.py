import itertools
import os
import shutil

from mc.base import Check

GOOD = {"profile": "[[0], [1, 2], []]"}
# part -> alternatives: (yaml text or None, acceptable)
PARTS = {
    "profile": [
        ("[[0], [1, 2], []]", True), (None, False), ("[[0], [1, 7], []]", False), ("[[0], [1, 1]]", False),
        ("[[0], [-1]]", False), ("[[0], [x]]", False), ("[[0], [1.5]]", False),
    ],
    "num_cand": [("3", True), ("8", True), ("2", False), ("0", False), (None, True)],
    "voter_weights": [(None, True), ("[1, 2, 3]", None), ("[1, 2]", None), ("[1, 0, 1]", False), ("[1, -1, 1]", False)],
    "committeesize": [(None, True), ("2", True)],
    "compute": [
        (None, True), ("[]", True), ("[{rule_id: av}]", True), ("[{resolute: true}]", False),
        ("[{rule_id: av}, {algorithm: standard}]", False), ("[{rule_id: av, result: [[0, 1]]}]", True),
        ("[{rule_id: av, result: [[0, 0]]}]", False),
    ],
    "description": [(None, True), ("text", True)],
    "num_voters": [(None, True), ("3", False)],
    "Profile": [(None, True), ("[[0]]", False)],
}  # fmt: skip
FILES = ("a.soi", "b.cat", "c.toc", "d.txt", "soi", "e.soi.bak", "10.toi", "9.soc", ".abc.yaml", "x.abc.yaml")
CAT = """# FILE NAME: {name}
# TITLE: t
# DATA TYPE: {ext}
# MODIFICATION TYPE: original
# NUMBER ALTERNATIVES: 2
# NUMBER VOTERS: {n}
# NUMBER UNIQUE ORDERS: 1
# ALTERNATIVE NAME 1: a
# ALTERNATIVE NAME 2: b
{n}: 1,2
"""
HEAD = """# FILE NAME: {name}
# TITLE: t
# DATA TYPE: %s
# MODIFICATION TYPE: original
# NUMBER ALTERNATIVES: 2
# NUMBER VOTERS: 1
# NUMBER UNIQUE ORDERS: 1
# NUMBER EDGES: 1
# ALTERNATIVE NAME 1: a
# ALTERNATIVE NAME 2: b
"""
BROKEN = [
    (".soc", "", "value"),
    (".soi", HEAD % "soi" + "no vote\n", "malformed"),
    (".toi", HEAD % "toi" + "x: 1,2\n", "malformed"),
    (".cat", HEAD % "cat" + "1; 1,2\n", "malformed"),
    (".csv", "a,b\n1,2\n", "malformed"),
    (".unknown", HEAD % "soc" + "1: 1,2\n", "malformed"),
    (".wmd", HEAD % "wmd" + "1,2,0.5\n", "value"),
]


class F04(Check):
    """Invalid files are rejected, directories are listed completely."""

    chunk = 30

    def units(self, tier):
        names = list(PARTS)
        # all pairs of deviations from a valid file (thorough: triples)
        depth = 3 if tier == "thorough" else 2
        yield ("yaml", ())
        for r in range(1, depth + 1):
            for parts in itertools.combinations(names, r):
                for alts in itertools.product(*(range(1, len(PARTS[p])) for p in parts)):
                    yield ("yaml", tuple(zip(parts, alts)))
        for i in range(len(BROKEN)):
            yield ("preflib", i)
        for r in range(0, 4):
            for files in itertools.combinations(range(len(FILES)), r):
                yield ("dir", files)

    def bounds(self, tier):
        return (
            f"yaml files: every combination of up to {3 if tier == 'thorough' else 2} deviations from a valid file"
            f" ({sum(len(v) - 1 for v in PARTS.values())} deviations of {len(PARTS)} keys); directories with every subset of up"
            f" to 3 of {list(FILES)} and a sub-directory, with every filter"
        )

    def show(self, unit):
        if unit[0] == "preflib":
            return f"Preflib file {BROKEN[unit[1]]}"
        if unit[0] == "yaml":
            return f"yaml file with {[(p, PARTS[p][i][0]) for p, i in unit[1]]}"
        return f"directory with {[FILES[i] for i in unit[1]]}"

    def unit_size(self, unit):
        return (0 if unit[0] == "preflib" else len(unit[1]),)

    def tick(self, ctx, *key):
        for name in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
            ctx.count(name)
        ctx.outcome(*key)

    def preflib(self, fileio, unit, ctx):
        name, text, error = BROKEN[unit[1]]
        path = os.path.abspath(f"f04-{os.getpid()}{name}")
        with open(path, "w") as f:
            f.write(text.replace("{name}", name[1:]))
        try:
            for kw in ({}, {"top_ranks": 1}, {"setsize": 2}, {"use_weights": True}):
                self.tick(ctx, unit[1], sorted(kw))
                try:
                    got = fileio.read_preflib_file(path, **kw)
                except (fileio.MalformattedFileException if error == "malformed" else ValueError):
                    continue
                except Exception as e:
                    ctx.fail("preflib", f"{kw}: {type(e).__name__}: {e}")
                    continue
                ctx.fail("preflib", f"{kw}: accepted {[sorted(v.approved) for v in got]}")
        finally:
            os.remove(path)

    def run(self, unit, ctx):
        from abcvoting import fileio

        if unit[0] == "preflib":
            return self.preflib(fileio, unit, ctx)
        if unit[0] == "dir":
            return self.directory(fileio, unit, ctx)
        path = os.path.abspath(f"f04-{os.getpid()}.abc.yaml")
        pick = dict(unit[1])
        parts = {p: PARTS[p][pick.get(p, 0)] for p in PARTS}
        if parts["profile"][0] == "[[0], [1, 7], []]" and parts["num_cand"][0] == "8":
            parts["profile"] = (parts["profile"][0], True)
        num_cand = parts["num_cand"][0]
        if num_cand is None:  # the largest candidate mentioned is the last one
            num_cand = 3
            if parts["profile"][0] == "[[0], [1, 7], []]":
                parts["profile"] = (parts["profile"][0], True)
                num_cand = 8
        ok = all(x[1] is not False for x in parts.values())
        weights = parts["voter_weights"][0]
        n = 0 if parts["profile"][0] is None else parts["profile"][0].count("], ") + 1
        if weights and weights.count(",") + 1 != n:
            ok = False
        with open(path, "w") as f:
            for p, (text, _) in parts.items():
                if text is not None:
                    f.write(f"{p}: {text}\n")
        try:
            self.tick(ctx, unit[1], ok)
            try:
                profile, size, insts, data = fileio.read_abcvoting_yaml_file(path)
            except Exception as e:
                if ok:
                    ctx.fail("yaml", f"rejected: {type(e).__name__}: {e}")
            else:
                if not ok:
                    ctx.fail("yaml", f"accepted: {[sorted(v.approved) for v in profile]}")
                elif size != (2 if parts["committeesize"][0] else None) or profile.num_cand != int(num_cand):
                    ctx.fail("yaml", f"committeesize {size}, num_cand {profile.num_cand}")
                else:
                    want = [[0], [1, 7 if "7" in parts["profile"][0] else 2], []]
                    if [sorted(v.approved) for v in profile] != want or [v.weight for v in profile] != ([1, 2, 3] if weights else [1, 1, 1]):
                        ctx.fail("yaml", f"read {[(sorted(v.approved), v.weight) for v in profile]}")
        finally:
            os.remove(path)

    def directory(self, fileio, unit, ctx):
        path = os.path.abspath(f"f04-{os.getpid()}-dir")
        os.makedirs(path + "/sub.soi")
        try:
            names = [FILES[i] for i in unit[1]]
            for i, name in enumerate(names):
                with open(f"{path}/{name}", "w") as f:
                    f.write(CAT.format(name=name, ext=name[-3:], n=i + 1))
            with open(f"{path}/sub.soi/inner.soi", "w") as f:
                f.write("broken")
            for flt in (None, [], [".soi"], [".soi", ".cat", ".toc"], ["soi"], [".abc.yaml"], [".zip"]):
                self.tick(ctx, unit[1], flt)
                want = sorted(n for n in names if not flt or any(n.endswith(x) for x in flt))
                try:
                    got = fileio.get_file_names(path, filename_extensions=flt)
                except FileNotFoundError:
                    if names:
                        ctx.fail("get_file_names", f"filter {flt}: FileNotFoundError")
                    continue
                if not names or got != want:
                    ctx.fail("get_file_names", f"filter {flt}: {got}, should be {want if names else 'FileNotFoundError'}")
            if names:
                for kw in ({}, {"top_ranks": 2}, {"setsize": 1}, {"setsize": 2}):
                    got = fileio.read_preflib_files_from_dir(path, **kw)
                    self.tick(ctx, unit[1], sorted(kw))
                    want = {}
                    for i, n in enumerate(names):
                        if n.endswith((".soi", ".toi", ".soc", ".toc", ".cat")):
                            want[n] = [[0, 1] if 2 in kw.values() else [0]] * (i + 1)
                    have = {n: [sorted(v.approved) for v in p] for n, p in got.items()}
                    if have != want:
                        ctx.fail("read_preflib_files_from_dir", f"{kw}: {have}, should be {want}")
        finally:
            shutil.rmtree(path)


CHECK = F04()
