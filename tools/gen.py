"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "abcvoting/abcrules.py"
G = "abcvoting/abcrules_gurobi.py"
MIP = "abcvoting/abcrules_mip.py"
OR = "abcvoting/abcrules_ortools.py"
S = "abcvoting/scores.py"
P = "abcvoting/preferences.py"
PR = "abcvoting/properties.py"
M = "abcvoting/misc.py"
O = "abcvoting/output.py"
F = "abcvoting/fileio.py"
GEN = "abcvoting/generate.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [],
                     hook_needed=None),
        technique=technique, note=note))


TESTS_RULES = (
    "The tests compare a rule's answer with stored answers on a few dozen hand-made and random profiles; a wrong"
    " tie-breaking, rounding or pruning decision shows only on particular profiles, weights and committee sizes"
    " that are not among them."
)
INP = ["inputs", "configurations"]
PROFTEXT = (
    "All approval profiles (any number of candidates and voters, empty and full ballots, candidates nobody"
    " approves, integer and fractional voter weights), all committee sizes, all available algorithms of the rule,"
    " resolute and irresolute"
)
REFNOTE = (
    "Every profile within the stated small bounds (all ballots, orders, weights and committee sizes there) is"
    " run through the real code and compared with an exact reference model of the rule; trusts the reference"
    " model in mc/ref.py, says nothing about profiles outside the bounds."
)
T_ENUM = "exhaustive small-scope enumeration of inputs x configurations on the real code against an exact reference model"
T_TS = (
    "explicit-state exploration of the rule's round-by-round transition system (reference model); every terminal"
    " state is compared with the implementation on every profile of the scope"
)

prop("A01", "Thiele rules return exactly the committees of maximum Thiele score",
     "With resolute=False, PAV, SLAV, CC and the geometric rules (base >= 1) return every committee of the requested size"
     " whose Thiele score is maximum and no other committee. With resolute=True they return one of these."
     " This holds for each of the rule's available algorithms and for voter weights (ortools-cp only for integer weights).",
     INP, PROFTEXT, TESTS_RULES, [R, G, MIP, OR, S],
     [("Thiele methods: brute force, branch-and-bound", R + ": compute_thiele_method, _thiele_methods_bruteforce, _thiele_methods_branchandbound"),
      ("ILP models", G + ": _gurobi_thiele_methods"), ("MIP models", MIP + ": _mip_thiele_methods"),
      ("CP model of CC", OR + ": _ortools_cc"), ("scores", S + ": thiele_score")],
     T_ENUM, REFNOTE, ["abcrules.compute", "Rule.compute", "compute_pav/_slav/_cc/_thiele_method"])
prop("A02", "lex-CC maximises coverage lexicographically",
     "Lexicographic Chamberlin-Courant (irresolute) returns exactly the committees whose vector (total weight of voters with at least"
     " 1, at least 2, ..., at least k approved members) is lexicographically maximum; the resolute answer is one of them."
     " All available algorithms agree on this.", INP, PROFTEXT, TESTS_RULES, [R, G, S],
     [("brute force", R + ": _lexcc_bruteforce"), ("iterated ILP", G + ": _gurobi_lexcc"), ("at-least-ell score", S + ": at_least_ell_fct")],
     T_ENUM, REFNOTE)
prop("A03", "AV and SAV elect the top-scoring candidates with exact ties",
     "AV and SAV (irresolute) return exactly the committees of the requested size that consist of highest-scoring candidates, where"
     " the AV score is the total weight of a candidate's approvers and the SAV score divides each approver's weight by its ballot size."
     " Every resolution of a tie at the border is returned, and only those; the resolute answer is one of these committees.",
     INP, PROFTEXT, TESTS_RULES, [R], [("separable rules", R + ": compute_separable_rule, _separable_rule_algorithm")],
     T_ENUM, REFNOTE + " One known finding (float SAV ties) is listed with its exact inputs.")
prop("A04", "Minimax AV and lexicographic Minimax AV minimise Hamming distances",
     "Minimax AV (irresolute) returns exactly the committees minimising the largest Hamming distance between the committee and a voter's"
     " approval set; lexicographic Minimax AV returns exactly those whose descending vector of distances is lexicographically smallest."
     " All available algorithms agree on this and the resolute answer is one of these committees.",
     INP, PROFTEXT, TESTS_RULES, [R, G, MIP, OR, S],
     [("brute force", R + ": _minimaxav_bruteforce, _lexminimaxav_bruteforce"), ("models", G + ": _gurobi_minimaxav, _gurobi_lexminimaxav; " + MIP + ": _mip_minimaxav; " + OR + ": _ortools_minimaxav")],
     T_ENUM, REFNOTE)
prop("A05", "Monroe's rule maximises the balanced representation score",
     "Monroe's rule (irresolute) returns exactly the committees for which an assignment of voters to committee members, with each member"
     " assigned either floor(n/k) or ceil(n/k) voters, represents the maximum number of voters by an approved member."
     " This holds also when k does not divide n or exceeds it, for every available algorithm; the resolute answer is one of these.",
     INP, PROFTEXT.replace("integer and fractional voter weights", "unit weights"), TESTS_RULES, [R, G, MIP, OR, S],
     [("brute force", R + ": _monroe_bruteforce"), ("matching/flow scores", S + ": monroescore, monroescore_matching, monroescore_flowbased"), ("models", G + ": _gurobi_monroe; " + MIP + ": _mip_monroe; " + OR + ": _ortools_monroe")],
     T_ENUM, REFNOTE)
prop("A06", "Greedy Monroe elects a most-supported remaining candidate in every round",
     "The committee returned by Greedy Monroe is the outcome of k rounds, each electing a not yet elected candidate approved by the most"
     " not yet assigned voters (at most the size of the current group), whose supporters of that number, up to the group size, are then assigned to it."
     " Group sizes are ceil(n/k) for the first n mod k rounds and floor(n/k) afterwards.",
     ["inputs"], PROFTEXT, TESTS_RULES, [R], [("algorithm", R + ": _greedy_monroe_algorithm")], T_TS,
     REFNOTE + " The model branches over every choice of assigned voters; the answer has to be reachable.")
prop("B01", "Sequential Thiele rules: exactly the greedy outcomes over all tie-breakings",
     "seq-PAV, seq-SLAV, seq-CC and the sequential geometric rules (irresolute) return exactly the committees that can be obtained by k times"
     " adding a candidate of maximum marginal score, over all ways to break ties."
     " The resolute answer breaks every tie in favour of the smallest candidate.",
     INP, PROFTEXT, TESTS_RULES, [R, S], [("algorithms", R + ": _seq_thiele_resolute, _seq_thiele_irresolute"), ("marginals", S + ": marginal_thiele_scores_add")], T_TS, REFNOTE)
prop("B02", "Reverse sequential Thiele rules: exactly the elimination outcomes over all ties",
     "revseq-PAV and its variants (irresolute) return exactly the committees that can be obtained from the set of all candidates by repeatedly"
     " removing a candidate of minimum marginal contribution until k remain, over all ways to break ties, without duplicates."
     " The resolute answer removes, among tied candidates, the largest one.",
     INP, PROFTEXT, TESTS_RULES, [R, S], [("algorithms", R + ": _revseq_thiele_resolute, _revseq_thiele_irresolute"), ("marginals", S + ": marginal_thiele_scores_remove")], T_TS, REFNOTE)
prop("B03", "Sequential Phragmén: exactly the minimum-load outcomes over all ties",
     "seq-Phragmén (irresolute) returns exactly the committees obtained by k times electing a candidate whose supporters (weighted)"
     " would have the smallest new load, distributing one unit of load per elected candidate, over all ways to break ties; candidates without"
     " supporters are used only when supported ones run out. The resolute answer breaks ties in favour of the smallest candidate.",
     INP, PROFTEXT, TESTS_RULES, [R], [("algorithms", R + ": _seqphragmen_resolute, _seqphragmen_irresolute")], T_TS, REFNOTE)
prop("B04", "Phragmén-Eneström: exactly the budget outcomes over all ties",
     "Phragmén-Eneström (irresolute) returns exactly the committees obtained by k times electing a candidate whose supporters have the largest"
     " total remaining budget (initially the weights), removing the quota n/k (or all of it, if less) from them proportionally, over all ways to break ties."
     " The resolute answer breaks ties in favour of the smallest candidate.",
     INP, PROFTEXT, TESTS_RULES, [R], [("algorithm", R + ": _phragmen_enestroem_algorithm")], T_TS, REFNOTE)
prop("B05", "Equal Shares (no completion): exactly the affordable outcomes over all ties",
     "The Method of Equal Shares without completion (irresolute) returns exactly the committees obtained by repeatedly electing a candidate whose"
     " supporters can pay its price with the smallest maximum payment per unit of weight, until none is affordable, over all ways to break ties."
     " The committee may have fewer than k members; the resolute answer breaks ties in favour of the smallest candidate.",
     INP, PROFTEXT, TESTS_RULES, [R], [("algorithm", R + ": _equal_shares_algorithm")], T_TS, REFNOTE)
prop("B06", "Equal Shares with completion: exactly the outcomes of the stated completion",
     "Equal Shares completed by seq-Phragmén (continuing from the remaining budgets), by AV score, or by incrementing the initial budgets returns"
     " committees of exactly k members that are the outcomes of the Equal Shares phase followed by this completion."
     " In irresolute mode all outcomes over all ways to break ties are returned (for the completions that support it).",
     INP, PROFTEXT, TESTS_RULES, [R], [("algorithms", R + ": _equal_shares_algorithm, _equal_shares_algorithm_with_increment_completion")], T_TS, REFNOTE)
prop("B07", "Consensus rule: exactly its outcomes over all ties",
     "The consensus rule (irresolute) returns exactly the committees obtained by k rounds in which every voter's budget grows by its weight, a candidate"
     " with the largest sum of positive budgets of supporters is elected, and its supporters pay the total weight of all voters in proportion to weight, over all ways to break ties."
     " The resolute answer breaks ties in favour of the smallest candidate.",
     INP, PROFTEXT, TESTS_RULES, [R], [("algorithm", R + ": _consensus_rule_algorithm")], T_TS, REFNOTE)
prop("B08", "E Pluribus Hugo: eliminations follow points and nominations",
     "In each round of EPH every ballot's point (times weight) is divided equally among its remaining candidates, the candidates with the two lowest point totals (ties included)"
     " are nominated, and those nominated candidates with the fewest approvals are eliminated. The irresolute answer consists of what remains when k candidates are left; if an elimination would leave"
     " fewer than k, of every way to eliminate just enough of them.",
     INP, PROFTEXT, TESTS_RULES, [R], [("algorithm", R + ": _eph_algorithm")], T_TS, REFNOTE)
prop("B09", "Maximin support: exactly the greedy maximin outcomes over all ties",
     "The maximin support method (irresolute) returns exactly the committees obtained by k times adding a candidate such that the best achievable"
     " minimum support (splitting each voter's weight among its elected approved candidates) is largest, over all ways to break ties."
     " The resolute answer breaks ties in favour of the smallest candidate; all available algorithms agree.",
     INP, PROFTEXT, TESTS_RULES, [R, G, MIP], [("algorithms", R + ": _maximin_support_resolute, _maximin_support_irresolute"), ("LP", G + ": _gurobi_maximin_support_scorefct; " + MIP + ": _mip_maximin_support_scorefct")], T_TS, REFNOTE)
prop("B10", "Minimax- and leximax-Phragmén minimise loads",
     "minimax-Phragmén (irresolute) returns exactly the committees whose unit loads can be distributed to approving voters so that the largest load"
     " (per unit of voter weight) is minimum; leximax-Phragmén minimises the descending vector of the voters' loads (each per unit of weight) lexicographically."
     " If fewer than k candidates are approved by someone, all approved ones are elected together with arbitrary others."
     " With lexicographic_tiebreaking, leximax-Phragmén returns the lexicographically first of these committees (fewer than ten candidates), and rejects resolute=False.",
     INP, PROFTEXT, TESTS_RULES, [R, G, MIP], [("models", G + ": _gurobi_minimaxphragmen, _gurobi_leximaxphragmen; " + MIP + ": _mip_minimaxphragmen"), ("few approved", R + ": compute_minimaxphragmen, compute_leximaxphragmen")], T_ENUM, REFNOTE)
prop("B11", "RSD has the random serial dictatorship distribution; trivial returns all",
     "RSD draws a uniformly random order of the voters, who in turn add their whole approval sets; the first voter whose set has more candidates than there is room for adds candidates in increasing order until k are elected,"
     " and if voters run out the committee is filled up uniformly at random. The returned committee has exactly this probability distribution."
     " The trivial rule returns every committee of the requested size.",
     ["inputs", "schedules"], "All profiles and committee sizes, and all outcomes of the random draws", "Tests cannot observe the distribution of a random rule; they see a few draws.",
     [R], [("RSD", R + ": compute_rsd"), ("trivial rule", R + ": compute_trivial_rule")],
     "exhaustive exploration of the choice tree of all random draws (controlled random source) with exact leaf probabilities",
     "Complete choice tree per profile in the scope; takes over Python's random source, trusts that every draw goes through it.")
prop("C01", "Every rule returns well-formed committees",
     "Whatever the profile, the size k, the algorithm and the mode, a rule returns a nonempty list of distinct CandidateSet objects, each with exactly k"
     " candidates of the profile (Equal Shares without completion: at most k), and exactly one committee if resolute."
     " The profile passed in is not changed.",
     INP, PROFTEXT + "; every rule", "Tests look at this for a few profiles per rule; degenerate profiles per rule and algorithm are not covered.", [R, G, MIP, OR],
     [("dispatch", R + ": compute, Rule.compute"), ("sorting", M + ": sorted_committees, CandidateSet")], T_ENUM,
     "Every rule x algorithm x mode on every profile within the bounds; an exception or malformed answer anywhere is reported.")
prop("C02", "max_num_of_committees caps the answer without losing winners",
     "With resolute=False and max_num_of_committees=c, every rule returns min(c, number of winning committees) distinct committees, all of which are winning."
     " Without a cap all winning committees are returned.",
     INP, PROFTEXT + "; every cap", "Only a handful of caps on a few profiles are tested; the interaction of the cap with each algorithm's search and completion phases is not.",
     [R, G, MIP, OR], [("caps inside searches", R + ": _thiele_methods_branchandbound, _seq_thiele_irresolute, _separable_rule_algorithm, ..."), ("caps of solver loops", G + ": _optimize_rule_gurobi; " + MIP + ": _optimize_rule_mip; " + OR + ": _optimize_rule_ortools")], T_ENUM,
     "Every cap 1..all+1 for every rule and algorithm on every profile in the bounds, compared with the uncapped answer.")
prop("C03", "All algorithms and entry points of a rule agree",
     "For every rule, all available algorithms return the same set of winning committees (irresolute), and the resolute answer of each is one of them."
     " abcrules.compute, Rule.compute, the rule's own compute_ function, the parametrised variants and algorithm='fastest' give the same answer (compute_rule_x and get_rule, the former names, too); passing a correct result= returns it, a wrong one raises.",
     INP, PROFTEXT + "; every rule, algorithm and entry point", "Tests compare algorithms on a few stored instances with stored answers.",
     [R, G, MIP, OR], [("dispatch", R + ": compute, get_rule, Rule.compute, compute_*"), ("fastest", R + ": Rule.fastest_available_algorithm"), ("result check", M + ": verify_expected_committees_equals_actual_committees")], "differential exhaustive enumeration: all algorithms and entry points on every profile of the scope",
     "Needs no reference model; covers every pair of algorithms and entry points within the bounds.")
prop("C05", "Invalid requests are rejected, valid ones answered",
     "Unknown rule identifiers and unknown algorithms raise UnknownRuleIDError and UnknownAlgorithm; a committee size that is not a positive integer up to the"
     " number of candidates, an unsupported mode, an invalid max_num_of_committees, and weights for rules that do not support them raise ValueError (or the documented error)."
     " All other requests are answered.",
     ["inputs", "configurations"], "All rule ids, algorithms, sizes, caps, modes on empty, weighted, unsupported and ordinary profiles", "Tests check single bad arguments for single rules; the full product of rules and arguments is not covered.",
     [R], [("validation", R + ": Rule.verify_compute_parameters, get_rule")], "exhaustive enumeration of the product of arguments against a decision table",
     "Full product rules x algorithms x sizes x caps x modes on six profiles.")
prop("C06", "Only relative weights matter and weight w equals w voters",
     "For every rule that supports weights, a voter of integer weight w has the same effect on the winning committees as w voters of weight 1 with that ballot,"
     " and multiplying all weights by the same positive number changes nothing (Equal Shares, Phragmén rules and quotas included).",
     INP, "All profiles with positive rational weights, all committee sizes, all rules with weights except SAV", "Weighted tests are few and never compare weights with copies.",
     [R, G, MIP, OR, P], [("weights in rules", R + ": *"), ("Voter.weight, total_weight", P + ": Profile, Voter")], "differential exhaustive enumeration (metamorphic: split and rescaled weights)",
     "Metamorphic comparison on every profile/weight vector of the bounds; SAV is excluded (float ties, see A03); leximax-Phragmén's violations for some weighted profiles are a known finding.")
prop("C07", "Winning committees are anonymous and neutral",
     "Permuting the voters does not change the set of winning committees, and renaming candidates renames it accordingly, for every rule and algorithm (irresolute).",
     INP, PROFTEXT + "; all permutations", "Tests use one fixed order of voters and candidates; order-dependent defects do not show.", [R, G, MIP, OR, S],
     [("all rules", R)], "exhaustive enumeration of all permutations of each profile of the scope (symmetry check on the real code)",
     "All permutations of voters and candidates for every profile in the bounds.")
prop("C08", "Answers depend on the arguments only",
     "A call returns the same answer and has the same effect no matter which calls (other rules, failing calls, property checks, changes of verbosity, random generation) came before"
     " in the process, which verbosity is set, and how the profile object came about. No call changes the profile it is given or the verbosity.",
     ["histories", "configurations"], "All pairs of operations in one process, all verbosity levels, all mutation steps of a profile",
     "Each test runs in its own context and never compares the answers of one call after different histories.", [R, PR, P, O],
     [("global registry of rules", R + ": Rule, get_rule"), ("global output", O + ": output"), ("cached state", P + ": Profile")], "exhaustive enumeration of ordered pairs of operations in one process (history exploration), each against its answer in a fresh process",
     "All ordered pairs from the alphabet; longer histories only as the accumulated history of a worker.")
prop("C09", "Missing optional modules do not change the answers",
     "If gmpy2 or ortools (or both) are not installed, the library can still be imported, the available algorithms of every rule are exactly those that need no missing module, algorithm='fastest' uses the first of them (NoAvailableAlgorithm if there is none)"
     " and the answers of rules, score functions and axiom checks are the same as with all modules; requesting an algorithm that needs a missing module raises an error (ImportError for gmpy2) and never returns an answer.",
     ["configurations"], "All subsets of the optional modules; all rules and algorithms", "Tests run in one environment, with everything installed.", [R, OR, S],
     [("availability", R + ": _available_algorithms, Rule.fastest_available_algorithm"), ("fallbacks", S + ": Fraction; " + OR + ": cp_model")], "exhaustive enumeration of environments (all subsets of optional modules, one fresh interpreter each), answers compared with the full environment",
     "All subsets; four profiles.")
prop("C10", "Concurrent and interrupted computations leave each other's answers intact",
     "Rules, axiom checks, score functions, text functions and conversions of profiles return the same answers while other computations run in another thread, on the same or other profile objects,"
     " as they do alone, however the computations interleave. A computation that is interrupted at any point (KeyboardInterrupt or any other exception) leaves its profile unchanged, the verbosity as it was"
     " before, and later computations with the answers they would have had.",
     ["schedules", "crash_points", "configurations"], "All interleavings of two computations, all points at which a computation can be interrupted, all rules and algorithms",
     "Tests run one computation after the other to its end; shared scratch state or state that is only restored at the end needs a particular interleaving or a particular point of interruption to show.", [R, PR, S, P, M, G, MIP, OR],
     [("rules and algorithms without shared state", R + ": compute, Rule.compute, _*_algorithm, _*_resolute, _*_irresolute"), ("score functions", S + ": marginal_thiele_scores_add, thiele_score, monroescore"),
      ("restored verbosity", PR + ": full_analysis"), ("solver models", G + ": _optimize_rule_gurobi; " + MIP + ": _optimize_rule_mip")],
     "stateless exploration of the real code under a controlled scheduler (line events): all single preemptions and all single interruptions at the chosen points, double preemptions at function entries",
     "Preemption bound one at lines and two at function entries; points are the first executions of every line; solver internals are atomic.")
prop("D01", "Justified-representation checks equal their definitions",
     "check_JR, check_PJR, check_EJR, check_EJR_plus, check_FJR and check_core (and check with these names) return True exactly if the committee satisfies the axiom's definition for the given quota and"
     " voter weights, with every available algorithm and for every committee, whatever its size.",
     INP, "All profiles, all nonempty committees, all quotas, all algorithms", "Tests check hand-made profiles, mostly unweighted and with the default quota.", [PR],
     [("JR family", PR + ": check_JR, check_PJR, check_EJR, check_EJR_plus, check_FJR, check_core, _check_*_brute_force, _check_*_gurobi")], T_ENUM,
     "Verdicts compared with direct quantifier definitions (mc/axioms.py) over all groups of voters and sets of candidates.")
prop("D02", "Priceability checks equal the existence of a price system",
     "check_priceability and check_stable_priceability return True exactly if a (stable) price system supporting the committee exists.",
     INP, "All profiles and all nonempty committees", "Tests check a few hand-made profiles.", [PR],
     [("ILP", PR + ": check_priceability, check_stable_priceability, _check_priceability_gurobi, ...")], T_ENUM,
     "Existence decided by an exact rational simplex on the definition (mc/axioms.py).")
prop("D03", "Pareto optimality and dominance checks equal their definitions",
     "check_pareto_optimality returns True exactly if no committee of the same size dominates the given one, and misc.dominate(p, A, B) exactly if every voter has at least as many approved candidates in A as in B and some voter strictly more.",
     INP, "All profiles and all pairs of committees", "Tests check a few hand-made profiles.", [PR, M],
     [("Pareto", PR + ": check_pareto_optimality, _check_pareto_optimality_*"), ("dominate", M + ": dominate")], T_ENUM, "Compared with the definition on every committee and pair of committees in the bounds.")
prop("D04", "Printed verdicts of axiom checks are true and their explanations genuine",
     "With output enabled, every axiom check prints the verdict that it returns, for the committee it was given, and names the quota exactly if one was passed. When a check of JR, PJR, EJR, EJR+, FJR, the core or Pareto optimality returns False with details printed, the printed group of voters and set of candidates (or dominating committee) really violates the axiom.",
     INP, "All profiles, committees, quotas and algorithms", "The printed text is not looked at by tests.", [PR],
     [("printed verdict", PR + ": check_*"), ("detailed output", PR + ": _check_*")], T_ENUM, "The sentences and numbers printed are parsed and checked against the returned value and the definition.")
prop("D05", "Rules satisfy the axioms proved for them",
     "Every winning committee of PAV and of Equal Shares (completed by seq-Phragmén or AV) satisfies EJR and EJR+; of seq-Phragmén, leximax-Phragmén, maximin support and Phragmén-Eneström satisfies PJR (Monroe and greedy Monroe do when k divides n)."
     " CC, lex-CC, seq-CC, Monroe and greedy Monroe satisfy JR; seq-Phragmén and uncompleted Equal Shares yield priceable committees of size k; AV, PAV, SLAV and geometric rules yield Pareto optimal committees.",
     INP, PROFTEXT, "Tests check axioms on a few instances only.", [R, G, MIP, OR, PR], [("all rules", R)], "exhaustive enumeration of profiles; every winning committee of the real code checked against exact axiom definitions",
     "The axioms are theorems about the rules; the check compares committees from the real code with the definitions in mc/axioms.py.")
prop("D06", "Axiom checks are consistent and validate their arguments",
     "full_analysis, check and the individual check functions agree; whenever an axiom holds for a committee so do the axioms it implies (core/FJR/EJR+ => EJR => PJR => JR, stable priceability => priceability => PJR);"
     " malformed committees, unknown properties and unknown algorithms raise the documented error and nothing else.",
     INP, "All profiles, committees, axioms, algorithms, malformed arguments", "Tests check few combinations.", [PR],
     [("dispatch", PR + ": check, full_analysis"), ("validation", PR + ": _validate_input")], T_ENUM, "Consistency checks on every committee in the bounds; full product of malformed arguments.")
prop("D07", "On party lists the rules are apportionment methods",
     "On party-list profiles (every voter approves one of several disjoint lists) PAV, seq-PAV, revseq-PAV, seq-Phragmén, leximax-Phragmén and maximin support give the seat distributions of D'Hondt, the SLAV rules those of Sainte-Laguë,"
     " and Phragmén-Eneström (and Monroe, if k divides n) those of the largest remainder method. Irresolute answers give all tied distributions (leximax-Phragmén: some), resolute answers one of them.",
     INP, "All party-list profiles and house sizes, voter weights included", "Only one or two party-list profiles are tested.", [R, G, MIP, OR], [("all rules", R)], T_ENUM,
     "Seat vectors compared with an independent divisor/largest-remainder model with all ties.")
prop("D08", "Sequential rules are committee monotone",
     "For sequential Thiele rules, seq-Phragmén, maximin support, AV and SAV, every winning committee of size k is contained in one of size k+1 and vice versa, and the resolute committees are nested; for reverse-sequential rules the same holds.",
     INP, PROFTEXT, "Tests look at one committee size at a time.", [R], [("sequential rules", R)], "exhaustive enumeration; relation between the answers for k and k+1", "All profiles in the bounds and all k.")
prop("D09", "Property checks depend on relative weights only; weight w means w voters",
     "For every property check (Pareto optimality, JR, PJR, EJR, EJR+, FJR, priceability, stable priceability, core) and every algorithm, multiplying all voter weights (and a given quota) by the same positive number does not change"
     " the verdict, and neither does replacing a voter of integer weight w by w voters of weight 1 with the same ballot.",
     INP, "All profiles with positive weights, all nonempty committees, all quotas, all algorithms", "Property checks are tested with unit weights almost exclusively, and never with very small or large ones.", [PR, P],
     [("checks", PR + ": check, check_*, _check_*_gurobi, _check_*_brute_force"), ("weights", P + ": Voter, Profile.total_weight")], "differential exhaustive enumeration (metamorphic: split and rescaled weights)",
     "Metamorphic comparison on every profile, committee and quota of the bounds, factors from 10^-9 to 10^9; the definitions themselves are decided in D01-D03.")
prop("E01", "Profile operations and observers are consistent after any history",
     "After any sequence of operations (adding single voters, lists, Voter objects; changing names and weights; copying; converting to unit or merged weights) every observer of a profile"
     " (length, iteration, indexing, weights, totals, approved and unsupported candidates, equality of copies, str) agrees with the history. Operations on a copy do not affect the original and vice versa; a rejected operation changes nothing.",
     ["histories"], "All sequences of operations on a profile", "Tests call each operation once on a fresh profile.", [P],
     [("Profile", P + ": Profile"), ("Voter", P + ": Voter")], "exhaustive exploration of all operation sequences up to a depth, in lockstep with a reference model",
     "All sequences up to depth 4 (thorough 5), every observer after every step; trusts the list-of-ballots model in the check.")
prop("E02", "Candidate sets, voters and profiles accept exactly valid arguments",
     "CandidateSet, Voter and Profile accept exactly duplicate-free collections of non-negative integers below the number of candidates, positive weights, and enough distinct candidate names; everything else raises"
     " ValueError or TypeError and nothing invalid is stored.",
     ["inputs"], "All argument collections from a small alphabet of valid and invalid values", "Tests check a few invalid values.", [P, M],
     [("validation", P + ": Voter.__init__, Voter.check_valid, Profile.__init__; " + M + ": CandidateSet.__init__")], "exhaustive enumeration of argument collections against a decision table", "Full product of lists up to length 3 (4) over 12 values.")


prop("F01", "Writing an instance to a yaml file and reading it back changes nothing",
     "For every profile (any number of candidates, empty ballots, positive weights of any numeric type), committee size, description and list of compute instances, write_abcvoting_instance_to_yaml_file followed by read_abcvoting_yaml_file"
     " returns an equal profile (same voters in the same order, exactly the same weights), committee size, description and compute instances (results as sets); an existing longer file is completely replaced, arguments are not modified, and a rejected write raises ValueError and leaves the existing file alone."
     " Candidate names are not stored in this format.",
     ["inputs", "histories"], "All profiles, weights, texts and compute instances; writes over existing files", "Tests write two or three instances.", [F],
     [("writer", F + ": write_abcvoting_instance_to_yaml_file"), ("reader", F + ": read_abcvoting_yaml_file"), ("text layout", F + ": _yaml_flow_style_list")],
     "exhaustive enumeration of write/read/write/read histories on scratch files against the identity", "Every profile and combination in the bounds is really written and read twice.")
prop("F02", "Profiles with integer weights survive a Preflib cat file",
     "Writing a profile with integer (or integral) voter weights with write_profile_to_preflib_cat_file and reading it with read_preflib_file gives the same multiset of approval sets with the same total weights"
     " (as repeated voters or, with use_weights, as weights), the same number of candidates and the same candidate names; the written header agrees with the content.",
     ["inputs", "histories"], "All non-empty profiles with integer weights and all candidate names", "Tests write a single file.", [F],
     [("writer", F + ": write_profile_to_preflib_cat_file"), ("reader", F + ": read_preflib_file")],
     "exhaustive enumeration of write/read histories on scratch files against the identity", "Every profile in the bounds is really written and read.")
prop("F03", "Preflib files are read as documented for top_ranks, setsize and ties",
     "For every soc/soi/toc/toi/cat file, read_preflib_file gives each voter the union of the first top_ranks indifference classes or categories (default 1), or with setsize the smallest number of leading classes that contains at least setsize alternatives (all alternatives if the vote ranks fewer)."
     " Every voter of the file is represented, as repeated voters or as one voter with its multiplicity as weight; candidates and their names are those of the file in the file's order. Non-positive or contradictory parameters raise ValueError.",
     ["inputs", "configurations"], "All lists of weak orders and categories, multiplicities and parameters", "Tests read a few stored files with one or two parameter values.", [F],
     [("reader", F + ": read_preflib_file")], "exhaustive enumeration of files (all weak orders and categorisations of up to 3-4 alternatives) x parameters against an independent model", "All weak orders, pairs of orders and parameter values in the bounds, each as a real file.")
prop("F04", "Invalid files are rejected and directories are read completely",
     "read_abcvoting_yaml_file accepts exactly files whose parts are consistent (candidates in range, no duplicates, positive weights of the right number, known keys) and otherwise raises the documented error;"
     " get_file_names returns exactly the files (not sub-directories) of a directory with the requested endings in sorted order, and read_preflib_files_from_dir reads exactly the Preflib files, keyed by name and in sorted order. Preflib files that cannot be parsed raise MalformattedFileException, files without ordinal or categorical votes ValueError.",
     ["inputs", "configurations"], "All combinations of deviations from a valid file; all directory contents", "Tests try a handful of malformed files.", [F],
     [("validation", F + ": read_abcvoting_yaml_file"), ("directories", F + ": get_file_names, read_preflib_files_from_dir")], "exhaustive enumeration of combinations of file deviations and directory contents against a decision table", "All combinations of up to two (three) deviations.")


prop("G01", "Random profiles follow their stated distributions exactly",
     "For IC, fixed-size IC, (fixed-size, truncated) Pólya Urn, truncated Mallows, Resampling and Noise, the joint distribution of the ballots of a random profile is exactly the one of the documented model with the given parameters: independent ballots"
     " (new balls in proportion `replace` for urns), approval probability p, sets of exactly setsize candidates, probabilities proportional to phi^distance for Mallows and Noise (central ballot: the first floor(p*num_cand) candidates; non-empty for jaccard and bunke-shearer),"
     " resampling with probability phi. Disjoint Resampling with phi=0 yields at most num_groups disjoint ballots and with phi=1 it is p-IC. The profile has the requested number of voters and candidates and unit weights.",
     ["inputs", "schedules"], "All parameters, numbers of voters and candidates, and all outcomes of all random draws", "Tests look at the size of a few sampled profiles; a wrong parameter or distribution is invisible in a sample.", [GEN],
     [("generators", GEN + ": random_*_profile"), ("dispatch", GEN + ": random_profile, PROBABILITY_DISTRIBUTIONS")],
     "stateless exploration of all random choices: the generator is replaced by a controlled one and every outcome of every draw is enumerated with its probability; exact distribution compared with a model",
     "Complete tree of random decisions for each parameter set in the bounds (including the code of prefsampling that is called).")
prop("G02", "Euclidean profiles are determined by points, radii and thresholds",
     "With given points, Euclidean VCR approves exactly the candidates at distance at most voter radius + candidate radius (common or individual radii), Euclidean Threshold exactly those at distance at most threshold times the distance of the closest candidate,"
     " Euclidean fixed-size a set of setsize candidates none of which is further away than one left out. return_points returns the points used and does not change the profile.",
     INP, "All points, radii, thresholds and set sizes", "Tests draw random points and check sizes only.", [GEN],
     [("Euclidean generators", GEN + ": random_euclidean_*_profile, prefsampling_euclidean_wrapper")], T_ENUM, "All placements on grids with exact distances, ties included.")
prop("G03", "Point distributions have the documented centre, shape and scale",
     "Points of 1d_interval, 2d_square and 3d_cube are uniform on the cube of the given width around the centre, of 1d_gaussian and 2d_gaussian normal with the given centre and standard deviation, of the _interval and _disc variants restricted to (uniform on, for 2d_disc) the interval or disc of the given width;"
     " voters and candidates of Euclidean profiles use their own distribution, independently, and given points are used as given. Unknown names and centres of the wrong dimension raise ValueError.",
     ["inputs", "schedules"], "All distributions, centres, widths, deviations and draws", "Tests only draw points.", [GEN],
     [("point distributions", GEN + ": PointProbabilityDistribution, random_point")], "stateless exploration of all random choices on a grid of draws, all resulting points compared with the affine model",
     "Uniform and normal draws take all values of a small grid (up to 4 normal draws per path).")
prop("G04", "Random profiles have exact ballot sizes and invalid specifications raise",
     "For every num_cand and every setsize from 0 to num_cand the fixed-size distributions (IC fixed-size, Urn fixed-size, Truncated Urn, Truncated Mallows, Euclidean fixed-size) give ballots of exactly setsize candidates."
     " Unknown ids, distances and parameters, missing parameters, probabilities outside [0, 1], negative replace, impossible set sizes, thresholds below 1 and points of wrong number or dimension raise an error (KeyError, TypeError or ValueError).",
     INP, "All numbers of candidates, set sizes and parameter values", "Tests use 6 to 8 candidates and set sizes up to 3, where no rounding error shows.", [GEN],
     [("set size", GEN + ": prefsampling_wrapper, random_*_profile"), ("dispatch", GEN + ": random_profile")], T_ENUM, "All sizes up to the stated number of candidates; one deviation at a time.")
prop("G05", "generate.rng is the only source of randomness",
     "All random profiles and points are drawn from generate.rng: with generate.rng set to equally seeded generators, the same sequence of calls gives the same results, and consecutive calls are independent draws.",
     ["histories", "schedules"], "All distributions and sequences of calls", "Tests seed generate.rng but never compare two runs.", [GEN],
     [("random generator", GEN + ": rng, prefsampling_wrapper, random_point")], "exhaustive enumeration of distributions x seeds with all other entropy sources replaced by a tripwire; complete enumeration of the draws of two consecutive calls",
     "Any other generator creation is detected; joint distribution of two calls is exact.")
prop("H01", "Score functions compute the scores they define",
     "thiele_score, the marginal scores for adding and removing candidates, cumulative_score, monroescore (both algorithms), minimaxav_score and num_voters_with_upper_bounded_hamming_distance return exactly the value of their definition for every profile, weights included (Monroe: unit weights), and committee of any size;"
     " unknown score function identifiers raise ValueError.",
     INP, "All profiles, committees and score functions (geometric with any int, float or Fraction base)", "Tests compute few scores by hand.", [S],
     [("scores", S + ": thiele_score, marginal_thiele_scores_add, marginal_thiele_scores_remove, monroescore, minimaxav_score, cumulative_score")], T_ENUM, "Compared with the definition on every committee in the bounds.")
prop("H02", "Set, comparison and text helpers agree with their definitions",
     "misc.hamming, powerset, binom, isclose, compare_list_of_committees (equality up to order and multiplicity), verify_expected_committees_equals_actual_committees, sorted_committees (independent of the input order) and the text helpers (all candidates, names, number of committees) return what they document for all arguments.",
     INP, "All sets, lists of committees and names", "Tests check one or two arguments each.", [M],
     [("helpers", M)], T_ENUM, "All arguments in the bounds.")
prop("V01", "Messages are shown according to the verbosity, completely and wrapped",
     "A message is printed if and only if its level is at least the current verbosity; a logger receives every message at the corresponding logging level regardless of the verbosity. Wrapping keeps all words, their order and the line breaks of the message, indents every line and exceeds the line width only for a single long word; without wrapping the message is printed verbatim.",
     INP, "All levels, verbosities, texts, indents", "Tests print one message per level.", [O],
     [("output", O + ": Output")], T_ENUM, "All levels and texts in the bounds.")
prop("V02", "Reports printed by the voting rules are true",
     "With details printed, the report of a rule names the rule and the algorithm used, says whether one or all winning committees are computed, and lists exactly the returned committees with the names of the candidates."
     " Every number and statement in it is true: scores of candidates, optimal scores, score changes and totals, tied candidates (ties of two candidates in reverse sequential rules need not be mentioned), the cutoff and the certain and possible members (AV, SAV), loads, budgets and costs (seq-Phragmén, Equal Shares), support values, Monroe assignments and scores, distances (minimax AV), the virtual committee size (Equal Shares with increment completion).",
     INP, PROFTEXT, "Tests compare the output of a few fixed examples.", [R],
     [("reports of all rules", R + ": compute_*")], "exhaustive enumeration of profiles; the printed steps are replayed as a trace on the explicit-state model of the rule",
     "The report is a trace of the rule: every printed step must be a transition of the exact model (mc/ref.py) and every printed number a quantity of the model state.")


FIXED = [
    ("A01", "45020a9", "CBC models were re-solved after adding cuts: wrong statuses or crashes when all winning committees were computed (also A04, A05)"),
    ("B02", "7fd2dbb", "irresolute reverse sequential rules returned duplicate committees"),
    ("B03", "b72be4f", "seq-Phragmén elected unsupported or already elected candidates for weights below 1 (also B06)"),
    ("B08", "474ce22", "EPH raised an IndexError for profiles with a single candidate"),
    ("B06", "bc300aa", "Equal Shares with increment completion stopped too early for weights below 1"),
    ("B10", "e9ea144", "minimax- and leximax-Phragmén were infeasible for weights below 1"),
    ("C02", "af493cc", "minimax- and leximax-Phragmén ignored max_num_of_committees when too few candidates are approved"),
    ("D01", "29cbc43", "check_EJR_plus raised a KeyError for quotas larger than the Hare quota"),
    ("C08", "61e5fe0", "full_analysis left the output verbosity changed when a check raised an exception"),
    ("D01", "75b88d4", "brute-force checks of EJR and PJR ignored voter weights"),
    ("D04", "78ec6b4", "brute-force checks of EJR and PJR reported a group that is not cohesive"),
    ("E01", "f205bfe", "Profile.copy lost the candidate names and copy.deepcopy(profile) raised a TypeError"),
    ("E01", "301abfa", "Profile.str_compact listed equal approval sets separately"),
    ("F03", "6fc4754", "read_preflib_file with setsize lost voters whose rankings coincide after truncation"),
    ("F02", "321e3be", "Preflib files written for integral float weights were unreadable"),
    ("F01", "c20b8f7", "profiles with numpy integers or fractional weights could not be written to yaml files"),
    ("F03", "db61bc2", "read_preflib_file accepted top_ranks=0 and setsize=0"),
    ("G04", "e9881b4", "random profiles with fixed-size approval sets had smaller sets due to rounding"),
    ("G05", "364b15f", "generate.rng was ignored, seeding it did not make random profiles reproducible"),
    ("V02", "0be8cff", "reverse sequential rules printed all scores as PAV-scores"),
    ("V02", "636a089", "tie-breaking messages named candidates by index instead of name"),
    ("B03", "40df358", "seq-Phragmén and Equal Shares (float-fractions, the default algorithm) declared candidates tied that are not, if weights are large (about 10^6)"),
    ("B10", "1486689", "minimax- and leximax-Phragmén returned non-optimal committees, or raised a RuntimeError (CBC), for large weights (about 10^3 for CBC, 10^4 for Gurobi)"),
    ("B04", "adebc93", "Phragmén-Eneström (and the consensus rule) with float-fractions missed ties for large weights and declared false ties for small weights"),
    ("A01", "cc1886e", "the ILP algorithms of the Thiele rules (and lex-CC) missed tied committees for small weights (CBC: about 10^-6) or raised a RuntimeError (about 10^-9)"),
    ("B09", "a6f600b", "maximin support declared candidates tied that are not, if weights are small (CBC: about 10^-6, Gurobi: about 10^-9)"),
    ("C03", "526baea", "the ILP algorithms of the Thiele rules and lex-CC raised a RuntimeError for nearly equal large weights (10^8 and 10^8+1), while the other algorithms answer"),
    ("D09", "35a39e1", "the Gurobi-based property checks gave other verdicts for very small or large weights (10^-9, 10^9) than for the same weights times a constant"),
    ("H01", "d135e66", "geometric_marginal_score_fct raised a TypeError for float bases"),
]
NOT_APPLICABLE = []
CLAIMED = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "mc", "checks")) if f[0] in "abcdefghv" and f.endswith(".py")}


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            d = {k: v for k, v in p.items() if k not in ("technique", "note")}
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] not in CLAIMED:
            assert p["id"] in [x for x, _ in NOT_APPLICABLE], p["id"]
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./run_check.sh {p['id']} quick",
            "thorough_cmd": f"./run_check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "model checking: " + p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        })
    assert CLAIMED <= set(ids), CLAIMED - set(ids)
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c 'import abcvoting.abcrules, abcvoting.properties, mc.run'",
        "checks": checks,
        "not_applicable": [{"property": x, "reason": r} for x, r in NOT_APPLICABLE],
        "notes": "No hooks in /repo; the checks import the working tree of /repo. tools/gen.py writes this file and properties.jsonl.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")
    kf = os.path.join(ROOT, "known_findings.jsonl")
    lines = [json.loads(x) for x in open(kf) if x.strip()]
    lines = [x for x in lines if x["status"] == "known"]
    for pid, commit, what in FIXED:
        lines.append({"property": pid, "status": "fixed", "commit": commit, "text": f"fixed: property={pid} {commit} {what}"})
    with open(kf, "w") as f:
        for x in lines:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")


main()
