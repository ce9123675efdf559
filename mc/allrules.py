"""All rules, algorithms and settings of the library, read from its own registry."""

from mc.rulecheck import usable

SOLVERS = ("gurobi", "mip-cbc", "mip-gurobi", "ortools-cp")
UNIT_ONLY = ("monroe", "greedy-monroe", "lexminimaxav", "rsd")
RANDOM = ("rsd",)


def rule_ids():
    from abcvoting import abcrules

    # parametrised families (geom<base>) and k-specific variants beyond the main list
    return list(abcrules.MAIN_RULE_IDS) + ["revseqslav", "revseqcc", "seqgeom2", "revseqgeom2", "geom3"]


def configs(solvers=None, rules=None):
    """[(rule_id, algorithm, resolute)]; solvers: only (True), none (False) or all (None)."""
    from abcvoting import abcrules

    res = []
    for rid in rules or rule_ids():
        rule = abcrules.Rule(rid)
        for alg in rule.algorithms:
            if not usable(alg):
                continue
            if solvers is not None and (alg in SOLVERS or rid == "maximin-support") != solvers:
                continue
            for resolute in rule.resolute_values:
                res.append((rid, alg, resolute))
    return res


def weights_ok(rid, alg, unit):
    """Is this configuration documented to support the voter weights of this unit?"""
    ws = unit[2]
    if ws is None or all(w == 1 for w in ws):
        return True
    if rid in UNIT_ONLY:
        return False
    if rid == "cc" and alg == "ortools-cp" and any(isinstance(w, str) for w in ws):
        return False  # documented: integer weights only
    return True


def snapshot(profile):
    return (
        profile.num_cand,
        list(profile.cand_names),
        [(sorted(v.approved), v.weight) for v in profile],
        str(profile),
    )
