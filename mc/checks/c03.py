from mc import allrules, domain
from mc.checks.c01 import AllRules, solver_units, cheap_units
from mc.rulecheck import fmt


ENTRY = {
    "av": "compute_av", "sav": "compute_sav", "pav": "compute_pav", "slav": "compute_slav",
    "cc": "compute_cc", "lexcc": "compute_lexcc", "seqpav": "compute_seqpav",
    "revseqpav": "compute_revseqpav", "seqslav": "compute_seqslav", "seqcc": "compute_seqcc",
    "seqphragmen": "compute_seqphragmen", "minimaxphragmen": "compute_minimaxphragmen",
    "leximaxphragmen": "compute_leximaxphragmen", "maximin-support": "compute_maximin_support",
    "monroe": "compute_monroe", "greedy-monroe": "compute_greedy_monroe",
    "minimaxav": "compute_minimaxav", "lexminimaxav": "compute_lexminimaxav",
    "equal-shares": "compute_equal_shares", "phragmen-enestroem": "compute_phragmen_enestroem",
    "consensus-rule": "compute_consensus_rule", "trivial": "compute_trivial_rule", "eph": "compute_eph",
}  # fmt: skip
PARAM = {
    "pav": ("compute_thiele_method", "pav"), "cc": ("compute_thiele_method", "cc"),
    "slav": ("compute_thiele_method", "slav"), "geom2": ("compute_thiele_method", "geom2"),
    "geom3": ("compute_thiele_method", "geom3"),
    "seqpav": ("compute_seq_thiele_method", "pav"), "seqcc": ("compute_seq_thiele_method", "cc"),
    "seqslav": ("compute_seq_thiele_method", "slav"), "seqgeom2": ("compute_seq_thiele_method", "geom2"),
    "revseqpav": ("compute_revseq_thiele_method", "pav"), "revseqcc": ("compute_revseq_thiele_method", "cc"),
    "revseqgeom2": ("compute_revseq_thiele_method", "geom2"),
}  # fmt: skip


class C03(AllRules):
    """Algorithms and entry points agree; the resolute answer is one of the irresolute ones."""

    chunk = 3

    def units(self, tier):
        for u in solver_units(tier):
            yield u
        for u in cheap_units(tier):
            yield u + ("cheap",)
        # nearly equal weights: floats have to tell apart what exact arithmetic tells apart
        for base, units in ((10**8, domain.orbits(2, 2)), (10**5, domain.orbits(3, 3 if tier == "thorough" else 2))):
            for u in domain.weighted(units, (base, base + 1)):
                yield u + ("cheap",)

    def bounds(self, tier):
        return super().bounds(tier) + "; nearly equal weights 10^8, 10^8+1 (m=n=2) and 10^5, 10^5+1 (m=3)"

    def run(self, unit, ctx):
        from abcvoting import abcrules

        profile = domain.make_profile(unit)
        cheap = len(unit) > 3
        groups = {}
        for rid, alg, resolute in allrules.configs(False if cheap else None):
            if rid != "rsd" and allrules.weights_ok(rid, alg, unit):
                groups.setdefault(rid, {}).setdefault(resolute, []).append(alg)
        for k in self.ks(unit[0]):
            for rid, modes in groups.items():
                self.one(ctx, abcrules, profile, rid, modes, k, cheap)

    def one(self, ctx, abcrules, profile, rid, modes, k, cheap):
        def norm(comms):
            ctx.count("evaluations")
            ctx.count("transitions")
            ctx.count("traces_validated_against_impl")
            return sorted(tuple(sorted(c)) for c in comms)

        ctx.count("states")
        allc = None
        if False in modes:
            for alg in modes[False]:
                got = norm(abcrules.compute(rid, profile, k, algorithm=alg, resolute=False))
                if allc is None:
                    allc, first = got, alg
                elif got != allc:
                    ctx.fail(f"{rid}/{alg}", f"k={k}: {fmt(got)} but {first} finds {fmt(allc)}")
        if True in modes:
            one = None
            for alg in modes[True]:
                got = norm(abcrules.compute(rid, profile, k, algorithm=alg, resolute=True))
                if len(got) != 1 or (allc is not None and got[0] not in allc):
                    ctx.fail(f"{rid}/{alg}/resolute", f"k={k}: {fmt(got)} not among {fmt(allc or [])}")
                if allc is None and one is not None and got != one:
                    ctx.fail(f"{rid}/{alg}/resolute", f"k={k}: {fmt(got)}, other algorithms {fmt(one)}")
                one = got
        ctx.outcome(rid, k, allc or one)
        # other ways to ask for the same thing
        default = abcrules.Rule(rid).resolute_values[0]
        want = allc if not default else None

        def same(label, fct):
            try:
                got = norm(fct())
            except Exception as e:
                ctx.fail(f"{rid}/{label}", f"k={k}: {type(e).__name__}: {e}")
                return
            if want is not None and got != want:
                ctx.fail(f"{rid}/{label}", f"k={k}: {fmt(got)}, expected {fmt(want)}")
            if default and (len(got) != 1 or (allc is not None and got[0] not in allc)):
                ctx.fail(f"{rid}/{label}", f"k={k}: {fmt(got)} not among {fmt(allc or [])}")

        if cheap or rid != "leximaxphragmen":
            same("defaults", lambda: abcrules.compute(rid, profile, k))
            if rid in ENTRY:
                same(ENTRY[rid], lambda: getattr(abcrules, ENTRY[rid])(profile, k))
            if rid in PARAM:
                f, arg = PARAM[rid]
                same(f, lambda: getattr(abcrules, f)(arg, profile, k))
        if rid == "equal-shares":
            self.rule_x(ctx, abcrules, profile, k, norm)
        if cheap:
            same("get_rule", lambda: abcrules.get_rule(rid).compute(profile, k))
            same("Rule.compute", lambda: abcrules.Rule(rid).compute(profile, k))
            same("fastest", lambda: abcrules.compute(rid, profile, k, algorithm="fastest", resolute=default))
            # an expected result is accepted exactly if it is the right one
            if allc is not None:
                good = [set(c) for c in reversed(allc)]
                try:
                    got = norm(abcrules.compute(rid, profile, k, resolute=False, result=good))
                    if got != allc:
                        ctx.fail(f"{rid}/result", f"k={k}: {fmt(got)}, winning are {fmt(allc)}")
                except ValueError as e:
                    ctx.fail(f"{rid}/result", f"k={k}: rejected {fmt(allc)}: {e}")
                bads = [good[:-1]] if len(good) > 1 else []
                spare = [set(c) for c in _all(profile.num_cand, k) if set(c) not in good]
                bads += [good + spare[:1], good[:-1] + spare[-1:]] if spare else []
                # the number of committees is right, but one is listed twice instead of another one
                bads += [good[:-1] + good[:1], good[1:] + good[1:2]] if len(good) > 1 else []
                for bad in bads:
                    try:
                        abcrules.compute(rid, profile, k, resolute=False, result=bad)
                    except ValueError:
                        continue
                    ctx.fail(f"{rid}/result", f"k={k}: accepted {fmt(bad)}, winning are {fmt(allc)}")

    def rule_x(self, ctx, abcrules, profile, k, norm):
        """The former name of the Method of Equal Shares."""
        for resolute in (True, False):
            for skip, completion in ((True, None), (False, "seqphragmen")):
                want = norm(abcrules.compute_equal_shares(profile, k, resolute=resolute, completion=completion))
                kw = {"skip_phragmen_phase": True} if skip else {}
                got = norm(abcrules.compute_rule_x(profile, k, resolute=resolute, **kw))
                if got != want:
                    ctx.fail("compute_rule_x", f"k={k} {kw} resolute={resolute}: {fmt(got)}, expected {fmt(want)}")
        for bad in ("pav", "Seqphragmen", "none", True):
            try:
                abcrules.compute_equal_shares(profile, k, completion=bad)
            except ValueError:
                continue
            ctx.fail("completion", f"k={k}: completion={bad!r} accepted")


def _all(m, k):
    import itertools

    return itertools.combinations(range(m), k)


CHECK = C03()
