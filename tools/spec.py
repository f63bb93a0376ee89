"""Single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""

PP = "r_u_sure/parsing/pseudo_parser/stack_parser.py"
PU = "r_u_sure/parsing/pseudo_parser/utilities.py"
SP = "r_u_sure/parsing/sequence_from_pseudo_parse.py"
ST = "r_u_sure/parsing/subtokenizer.py"
PT = "r_u_sure/wrappers/parser_tools.py"
TR = "r_u_sure/tree_structure/transforms.py"
SN = "r_u_sure/tree_structure/sequence_nodes.py"
SH = "r_u_sure/tree_structure/sequence_node_helpers.py"
PK = "r_u_sure/tree_structure/packed_sequence_nodes.py"
TP = "r_u_sure/tree_structure/token_prob_align.py"
GD = "r_u_sure/decision_diagrams/gated_state_dag.py"
PD = "r_u_sure/decision_diagrams/packed_dags.py"
CS = "r_u_sure/decision_diagrams/consistent_path_dual_solver.py"
CD = "r_u_sure/edit_distance_utility/constraint_dags.py"
ED = "r_u_sure/edit_distance_utility/edit_dags.py"
PS = "r_u_sure/edit_distance_utility/part_selection_dags.py"
RD = "r_u_sure/edit_distance_utility/region_decisions.py"
WB = "r_u_sure/wrappers/wrapper_base.py"
EB = "r_u_sure/wrappers/edit_distance_wrapper_base.py"
UR = "r_u_sure/wrappers/uncertainty_regions_wrapper.py"
PX = "r_u_sure/wrappers/prefix_truncation_wrapper.py"
CW = "r_u_sure/wrappers/call_sequence_wrapper.py"
DR = "r_u_sure/wrappers/demo_runner.py"
RE = "r_u_sure/rendering/rendering.py"
SV = "r_u_sure/rendering/svg_renderer.py"
NH = "r_u_sure/numba_helpers/"
SA = "r_u_sure/rendering/simple_dag_annotator.py"
DA = "r_u_sure/rendering/dag_annotator.py"

# id: (title, statement, over, quantifier text, why tests can't,
#      files, mechanism [(name, where)], technique, note)
PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mech, technique,
         note):
  assert len(title) <= 80, (pid, len(title))
  PROPS[pid] = dict(
      title=title, statement=statement, over=over, qtext=qtext, why=why,
      files=files, mech=mech, technique=technique, note=note)


prop(
    "P01", "Parsing is lossless",
    "Parsing any text in any supported language yields a tree whose leaves, in"
    " order, are exactly the tokens, and whose raw text concatenates to the"
    " original source; every token without source text is a reported correction"
    " or a block marker. The tree's own bookkeeping (text, length, sibling"
    " positions, validity report, copies, traversals, printed form) agrees with its leaves.",
    ["inputs", "configurations"],
    "every string (broken code included) x 6 languages x indent widths",
    "the tests parse a dozen hand-written snippets; loss shows up on unusual"
    " combinations of unbalanced brackets, quotes and indentation",
    [PP], [("PseudoParser.pseudo_parse", PP), ("Node", PP)],
    "runtime monitor (conservation of text over every parse)",
    "random and mutated programs, token soup and standard-library snippets")
prop(
    "P02", "Tokens and token classes follow the lexical rules of the language",
    "For every source text the tokenizer yields the tokens and classes given by"
    " the language's lexical rules (strings, comments, preprocessor lines,"
    " identifiers, numbers, brackets, whitespace, symbols), whether the tokenizer"
    " is new or has been used before. Token ids are in bijection with the"
    " distinct tokens seen.",
    ["inputs", "histories"], "every string x 6 languages x tokenizer reuse",
    "tests sample a few snippets with a fresh tokenizer",
    [PP], [("RegexCodec.encode, add_token, preset", PP)],
    "runtime monitor (differential with an independent scanner)",
    "oracle is an independently written scanner")
prop(
    "P03", "Bracket matching is correct and correction is minimal",
    "A closing bracket matches the innermost open bracket if that is of its kind"
    " and is an ordinary token otherwise; closers with nothing open and openers"
    " never closed are fixed by adding exactly the missing openers in front and"
    " the missing closers behind, and nothing when the input is complete. The"
    " resulting tree nests exactly as the brackets do; strict matching rejects"
    " exactly the sequences with a mismatch.",
    ["inputs"], "every token sequence over every bracket alphabet",
    "tests use a few short sequences; mismatches of several kinds interact",
    [PP], [("stack_based_bracket_match,"
               " error_correcting_prefix_and_suffix", PP)],
    "runtime monitor (differential with an independent stack matcher)",
    "abstract token sequences and real code")
prop(
    "P04", "Statements are grouped as the language's separators dictate",
    "In bracket languages and in custom configurations, tokens are grouped into"
    " statements that end exactly at the configured separators and after the"
    " configured token classes, never inside brackets declared unsplittable; the"
    " input tree is not modified.",
    ["inputs", "configurations"], "every token sequence x parser configuration",
    "tests pin a few outputs of preset configurations",
    [PP], [("split_parse", PP)],
    "runtime monitor (differential with an independent grouping)",
    "preset languages and random configurations")
prop(
    "P05", "Python blocks follow the indentation of logical lines",
    "Parsed Python has a block exactly where indentation of a logical line"
    " increases, closed exactly where it returns, however many levels at once;"
    " lines inside brackets, strings, comments and blank lines open and close"
    " nothing. Block markers are balanced and properly nested for every input.",
    ["inputs", "configurations"], "every Python text x indent widths",
    "tests contain a handful of well-formed functions",
    [PP], [("python_indent_dedent_desugar,"
               " PseudoParser.parse_and_maybe_preprocess", PP)],
    "runtime monitor (differential with an independent block builder)",
    "generated programs with a known block tree, mutated and soup variants")
prop(
    "P06", "Truncation points derived from a cursor are the true ones",
    "For any code and cursor, the computed truncation is the end of the innermost"
    " block (indented block or brace pair, including the separator right after"
    " its closing) around the text after the cursor, or"
    " else the end of the next statement, or else the end of the code, and always"
    " inside the remaining code. Function docstrings are found exactly, and the inferred"
    " indent width is the largest candidate that divides the indentation of every line opening a block.",
    ["inputs", "configurations"], "every code x cursor x language",
    "tests try a few cursors in a few snippets",
    [PU], [("infer_match_pair_truncation_index,"
            " infer_split_truncation_index,"
            " infer_truncation_with_fallbacks,"
            " find_python_function_docstrings,"
            " infer_python_spaces_per_indent", PU)],
    "runtime monitor (differential with truncation from an independent parse)",
    "docstrings planted at known offsets, every cursor of short programs")
prop(
    "P07", "Parsed code becomes a node tree without losing text or structure",
    "Converting parsed code to the node tree used by utilities keeps the text"
    " exactly, keeps the nesting, classifies whitespace as decoration and other"
    " text as tokens as configured, and splits identifiers, strings and comments"
    " at the documented subtoken boundaries. Empty or unknown input classes are"
    " rejected or passed through as documented.",
    ["inputs", "configurations"], "every code x language x conversion options",
    "tests pin the conversion of one or two snippets",
    [SP, ST, PT], [("pseudo_parse_node_to_nested_sequence_node", SP),
                   ("code_to_tokens_simple_lossless", ST),
                   ("ParserHelper.parse_to_nodes", PT)],
    "runtime monitor (differential with an independent conversion)",
    "random code, strings and options")
prop(
    "P08", "Tree transforms change exactly what they promise",
    "Every transform of a node tree (inserting region boundaries and early exits,"
    " flattening, stripping decorations or decision points, nesting) produces"
    " exactly the documented result, keeps all text and never modifies its input."
    " Stripping decision points undoes inserting them.",
    ["inputs", "configurations"], "every tree x transform options",
    "tests apply each transform to one fixture",
    [TR], [("insert_region_options_around_subsequences,"
            " insert_region_options_around_single_nodes,"
            " insert_early_exit, flatten_groups,"
            " strip_decision_nodes", TR)],
    "runtime monitor (differential + purity snapshots)",
    "random trees and parsed code")
prop(
    "P09", "Removing the context keeps exactly what follows it",
    "Dropping the first k characters of a parsed tree leaves a tree whose text is"
    " exactly the remaining text, keeping every node that lies after the cut, in"
    " place, and the groups still open at it; the input is unchanged, and k=0"
    " drops nothing.",
    ["inputs"], "every tree x every character offset",
    "tests cut two fixtures at a few offsets",
    [TR], [("truncate_prefix_at_offset", TR)],
    "runtime monitor (suffix conservation at every offset)",
    "all offsets of small trees, sampled offsets of parsed code")
prop(
    "P10", "Packed storage mirrors the tree under every index",
    "Packing a tree and unpacking it gives the same tree, and every lookup of the"
    " packed form (preorder index, path, parent, level, text, traversal order,"
    " rendering) agrees with the original; invalid paths are rejected. Plain and"
    " compiled storage agree.",
    ["inputs"], "every tree x every node, path and invalid path",
    "tests pack one fixture",
    [PK, SN, SH], [("pack / unpack / traversals", PK),
                   ("rendering and debugging helpers", SH)],
    "runtime monitor (index-by-index agreement with the tree)",
    "random trees and parsed code")
prop(
    "P11", "Log-probabilities are attributed to the text they cover",
    "Each token of the parsed tree receives the sum of the log-probabilities of"
    " exactly the model tokens that overlap its text; whitespace nodes receive"
    " none, and a text that differs from the model's output, or model tokens left"
    " over when all must be used, are rejected. The rendered view shows the tokens and their"
    " probabilities faithfully.",
    ["inputs"], "every tree x every tokenization of its text",
    "tests align one example",
    [TP], [("align_token_log_probs", TP), ("render_tokens_and_log_probs_to_html", TP)],
    "runtime monitor (interval accounting oracle)",
    "aligned, misaligned, empty and corrupted tokenizations")
prop(
    "P12", "DAG construction and pruning keep exactly the usable paths",
    "Building a decision DAG accepts exactly the edges that respect the order of"
    " states and reports the others as value errors; pruning keeps exactly the"
    " edges that lie on some finite-cost path from start to end, whatever the"
    " hash collisions, scratch sizes or state renaming, and reports an error when"
    " no such path exists. Inputs are not modified.",
    ["inputs", "histories", "configurations"],
    "every edge history, DAG, hash pattern and scratch size",
    "tests build a few small DAGs in order, without collisions",
    [GD], [("partial_state_dag_add_edge", GD),
           ("prune_to_reachable, prune_unreachable_and_rewrite_states", GD)],
    "runtime monitor (path enumeration before and after)",
    "random DAGs with dead ends, unreachable parts, infinite edges, collisions")
prop(
    "P13", "Packing a DAG neither loses, invents nor distorts a path",
    "The packed DAG has exactly the paths of the original, with the same costs,"
    " where each path assigns every variable exactly once and in order, using"
    " the missing value for variables the original path skips. Rescaling"
    " multiplies all costs and changes nothing else; plain and specialised"
    " packers agree.",
    ["inputs", "configurations"], "every pruned DAG x variable order",
    "tests pack two examples",
    [PD], [("make_specialized_fn__convert_dag_to_packed,"
            " scale_packed_dag_costs", PD)],
    "runtime monitor (bijection between enumerated paths)",
    "all paths of random DAGs, read from the raw arrays")
prop(
    "P14", "Min-marginals and minimal costs are exact after any history",
    "After any sequence of penalty updates, partial recomputations, copies and"
    " queries, the reported minimal cost, min-marginals and cheapest assignment"
    " are those of the DAG's paths under the current penalties; values cached as"
    " valid are correct, and queries do not change the DAG.",
    ["histories", "inputs"], "every DAG x every interleaving of operations",
    "tests run one fixed sequence of operations",
    [PD, CS], [("PenalizedShortestPrefixSuffixTables, set_penalties,"
                " compute_minimal_cost, compute_all_min_marginals", PD)],
    "runtime monitor (online model of penalties + path enumeration)",
    "infinite, negative and zero penalties included")
prop(
    "P15", "The best path under constraints obeys them and is optimal",
    "Asking for the cheapest path that satisfies given variable assignments"
    " returns a connected start-to-end path that satisfies all of them and is as"
    " cheap as any that does; constraints on unknown variables or values are"
    " rejected.",
    ["inputs"], "every DAG x satisfiable constraint set",
    "tests ask for one or two constraint sets",
    [PD], [("constrained_best_path", PD)],
    "runtime monitor (path replay + enumeration)",
    "random DAGs and constraint sets")
prop(
    "P16", "The dual bound never exceeds the true optimum and never worsens",
    "At every step of the solver on any system, the reported bound is at most the"
    " cost of the best consistent solution, equals the cost of the relaxed"
    " problem it claims to describe, and does not decrease. For one DAG it is"
    " the optimum. After averaging a variable, each DAG holds the share of its"
    " marginals that the update proportions call for.",
    ["inputs", "schedules"], "every system x schedule of averaging steps",
    "tests solve two systems and look at the end only",
    [CS, PD], [("min_marginal_average, solve_system_with_sweeps", CS)],
    "runtime monitor (online bound/monotonicity checker vs brute force)",
    "random systems of 1-4 DAGs, random step schedules and full solver runs")
prop(
    "P17", "Greedy extraction reports the true cost of a complete solution",
    "Extraction returns one value per variable, reports exactly the total cost of"
    " that solution (infinite only if infeasible), makes each choice the best one"
    " given the earlier choices, in either direction, and leaves the system"
    " unchanged. With one DAG the solution is optimal.",
    ["inputs", "histories"], "every system, solved or not, both directions",
    "tests extract from two systems",
    [CS], [("greedy_extract", CS)],
    "runtime monitor (brute-force recomputation)",
    "before and after solving, perturbed and constrained systems")
prop(
    "P18", "Solver operations preserve the problem they work on",
    "Building a system, cloning, constraining, perturbing and committing change"
    " exactly what they promise: penalties across DAGs stay balanced, clones are"
    " independent, a commit never changes the optimum while claiming otherwise,"
    " and inconsistent inputs are refused without a trace. The solver's log is"
    " complete and it stops exactly when it should (no improvement, or timeout).",
    ["histories", "schedules", "inputs"],
    "every history of operations on every system, every clock",
    "tests exercise each operation once in a fixed order",
    [CS], [("make_system, clone_system, constrain_system,"
            " partially_commit, break_symmetry_randomly,"
            " solve_system_with_sweeps", CS)],
    "runtime monitor (online bookkeeping model, controlled clock)",
    "random operation histories")
prop(
    "P19", "Exactly the well-formed annotations are admitted",
    "For any prototype, the constraints admit exactly the annotations in which"
    " low-confidence regions start and end only where allowed and in the same"
    " group, do not overlap, at most one early exit is taken and nothing is"
    " decided after it, and each token's and group's status agrees with the region"
    " it is in; each at zero cost.",
    ["inputs"], "every prototype with region and exit markers x annotation",
    "tests look at one prototype",
    [CD, RD], [("make_constraint_dag_builder", CD)],
    "runtime monitor (set equality of admitted and well-formed annotations)",
    "complete enumeration per generated prototype")
prop(
    "P20", "An annotation's price is the cost of the cheapest edit",
    "For any prototype, target, price list and annotation, the utility of the"
    " annotation equals the cheapest way of editing the annotated prototype into"
    " the target under the documented rules; optimising over annotations gives"
    " the minimum of those prices.",
    ["inputs", "configurations"], "every prototype x target x prices x annotation",
    "tests price a few hand-written pairs",
    [ED, CD], [("make_edit_dag_builder", ED)],
    "runtime monitor (differential with an independent alignment)",
    "random trees with shared and differing tokens, groups and decorations")
prop(
    "P21", "Every edit script is a real edit, and is reported faithfully",
    "For any prototype, target and prices, each complete script keeps, deletes and"
    " inserts every token exactly once and in order, pairs only equal tokens and"
    " groups of the same type, and charges each step by the documented price."
    " The metrics, text and HTML reported for a script describe exactly those"
    " steps and all of their text.",
    ["inputs", "configurations"], "every prototype x target x prices x script",
    "tests compare the output for a few hand-written scripts",
    [ED], [("make_edit_dag_builder, extract_edit_summary_metrics,"
            " extract_edit_sequence_text/html", ED)],
    "runtime monitor (path replay against an edit model)",
    "random scripts, cheapest scripts, constrained scripts")
prop(
    "P22", "Selected parts earn credit exactly when they occur in order",
    "For any prototype, target and token utilities, the cost of a selection of"
    " parts is minus the best total utility of the selected parts that can be"
    " found contiguously, in order and without overlap in the target, with the"
    " documented price for the rest. Two tokens can match exactly when they are"
    " equal, and every script the search admits is such a placement.",
    ["inputs"], "every prototype x target x selection x utilities",
    "tests check a few selections by hand",
    [PS], [("make_selection_dag_builder, extract_match_groups", PS)],
    "runtime monitor (differential with an independent placement + replay)",
    "random prototypes with regions, repeated tokens, ambiguous matches")
prop(
    "P23", "Shown suggestions contain the prototype text and exactly its regions",
    "For any prototype and annotation, the extracted tokens and the rendered HTML"
    " contain the prototype's text up to the early exit, complete, in order and"
    " escaped; each piece is marked as low confidence exactly if it lies in an"
    " annotated region, and empty regions appear as insertion points.",
    ["inputs"], "every prototype x annotation x text",
    "tests render two annotations",
    [RD], [("extract_sequence_with_regions, render_regions_to_html", RD)],
    "runtime monitor (reference walk + HTML reader)",
    "markup, quotes, empty tokens, nested groups, open regions")
prop(
    "P24", "The region and prefix tasks price and solve exactly what they state",
    "For any context, suggestion, samples, weights and settings, the uncertainty"
    " regions and prefix truncation tasks turn the suggestion into its documented"
    " options, drop the context, price every annotation as the weighted sum (by"
    " default the mean) of its edit costs to the samples, and return a well-formed annotation whose"
    " reported cost is its price and whose bound no annotation beats.",
    ["inputs", "configurations"],
    "every suggestion x samples x weights x task setting",
    "tests solve two examples per task and compare rendered output",
    [UR, PX, EB, WB], [("build_system, process_prototype_and_context, solve", EB),
                       ("UncertaintyRegionsWrapper", UR),
                       ("PrefixByEditDistanceWrapper", PX)],
    "runtime monitor (end-to-end differential with reference pricing)",
    "random trees, cursors, weights, precisions, sensitivities, both directions")
prop(
    "P25", "What is reported about a solution is true of it",
    "For any annotated suggestion, evaluation target and sample system, the"
    " reported parts, costs, statistics, rank, edit metrics and both HTML views"
    " agree with the annotation itself: every sample's cost is reported once, the"
    " counts cover all characters, and the shown text is complete and escaped.",
    ["inputs", "configurations"],
    "every annotation x evaluation target x weighted sample system",
    "tests compare a few outputs with golden text",
    [WB, EB, UR, PX], [("solution_info, render_solution_html,"
                        " render_pairwise_matching_html", EB)],
    "runtime monitor (recomputation of every reported field)",
    "random annotations with and without regions and exits")
prop(
    "P26", "Every baseline follows its stated rule",
    "For any suggestion, model tokens with probabilities, and limits, each"
    " baseline of the region and prefix tasks yields the annotation its rule"
    " describes: a prefix by line or character limit, by token or whole-prefix"
    " probability, by highest average log-probability or by the IntelliCode rule;"
    " regions over the tokens that are unlikely (alone or cumulatively), beyond a"
    " fraction of the text, or too far from the first token's depth, chosen as"
    " cheaply as possible. All are well formed and offered exactly when enabled.",
    ["inputs", "configurations"],
    "every suggestion x model tokens x thresholds and limits",
    "tests run each baseline on one suggestion",
    [UR, PX, TP], [("build_baseline_assignments", UR),
                   ("build_baseline_assignments", PX)],
    "runtime monitor (reference rules, search for better annotations)",
    "random probabilities, ties avoided, thresholds beyond the data")
prop(
    "P27", "API calls are extracted, priced and reported as documented",
    "For any program and cursor, the API call task lists exactly the calls of the"
    " code after the cursor's line with their tokens classed as expected (builtin"
    " or in the context) or novel; prices a selection by the calls found in order"
    " in each sample; and its solutions, baselines, reports and HTML agree with"
    " the selection.",
    ["inputs", "configurations"], "every program x cursor x samples x precision",
    "tests extract calls from a handful of snippets",
    [CW, PS], [("ApiCallSequenceWrapper, extract_context_tokens", CW)],
    "runtime monitor (reference extraction + independent placement)",
    "generated call statements, mutated programs, random trees")
prop(
    "P28", "Effective precision is the break-even probability of each task",
    "For any settings, a token that is right with probability below the effective"
    " precision is better marked as low confidence and one above it is better not"
    " (equal at it), whatever its length and the cost of starting an edit; a call"
    " is listed exactly if it is likelier than the precision; a prefix ends where"
    " its expected utility is greatest, whatever the region settings.",
    ["inputs", "configurations"],
    "every precision x sensitivity x edit cost x token lengths x probabilities",
    "tests check prices for the default settings on one example",
    [UR, PX, CW], [("derive_uncertainty_region_costs", UR),
                   ("token_node_utility_fn", CW)],
    "runtime monitor (closed-form expected utilities against decisions made)",
    "tokens and calls whose probability of being right is known")
prop(
    "P29", "Figures of decision diagrams are complete, in place and safe",
    "For any DAG and annotations, the figure shows every state and edge exactly"
    " once, where and as annotated, with reachability and emphasis marked"
    " correctly; SVG output is well formed, shows all text and hover text literally"
    " (no markup injected), places labels on the requested side, and its visible"
    " area is what was drawn plus padding.",
    ["inputs", "configurations"], "every DAG x annotations x text x options",
    "rendering has no tests at all",
    [RE, SV, SA, DA], [("SVGRenderer", SV), ("render_dag", DA),
                       ("SimpleDAGAnnotator", SA), ("BoundingBox", RE)],
    "runtime monitor (recording renderer, SVG read back)",
    "random drawing commands and DAGs, hostile text")
prop(
    "P30", "The demo runner loses nothing between source text and suggestion",
    "For any context, samples, prototype index, language and task, combining"
    " keeps every sample's text, reports the utility its suggestion really has"
    " (never above the bound; the same for any order of the samples when"
    " optimal), and everything it extracts or displays (parts, baselines, edits,"
    " utilities, plots, token probabilities) agrees with that result.",
    ["inputs", "configurations"],
    "every context x samples x index x language x task",
    "the demo runner has no tests",
    [DR, PT, WB], [("DemoRunner.combine, build_baselines, show_*", DR)],
    "runtime monitor (end-to-end, recorded displays)",
    "short programs in every language, excerpts of real model outputs")
prop(
    "P31", "Figures of the edit, selection and constraint DAGs are true maps",
    "For any prototype, target, prices and figure settings, the annotated figure"
    " puts every state in a box of its own, ordered by its place in the prototype"
    " (and target, or nesting level); labels states and edges with their kind,"
    " cost and decision; shows each piece of prototype and target text between"
    " the states before and after it; and frames exactly the states of each"
    " aligned pair of groups.",
    ["inputs", "configurations"], "every prototype x target x prices x settings",
    "the annotators have no tests at all",
    [ED, PS, CD], [("EditDagGraphAnnotator", ED),
                   ("PartSelectionGraphAnnotator", PS),
                   ("ConstraintDagGraphAnnotator", CD)],
    "runtime monitor (geometry and labels against positions in the trees)",
    "all states and edges of random DAGs, random figure settings")
prop(
    "P32", "The same inputs give the same results, in any process and order",
    "Parsing, DAGs, their figures, combined suggestions, bounds, baselines,"
    " reports and displays depend on nothing but their inputs: not on what was"
    " processed before, on objects being reused or new, on the process or on its"
    " hash seed. (Solving cut off by the time limit is exempt.)",
    ["histories", "inputs", "configurations"],
    "every sequence of operations x objects x processes",
    "tests run each operation once, in one process",
    [DR, WB, PP, CS], [("DemoRunner.combine", DR), ("ParserHelper", PT),
                       ("break_symmetry_randomly", CS)],
    "runtime monitor (offline comparison of event logs between processes)",
    "logs of replayed, reordered and replicated executions")
prop(
    "P33", "Helpers for compiled code mean the same as plain Python",
    "Enum members that occur in states and decisions hash by value, the same in"
    " plain and compiled code, and work as keys; raising helpers raise the given"
    " class with every part of the message, in order (compiled: an error naming"
    " class and literal parts, with all parts printed); casts return the value;"
    " wrapped examples declare the type they stand for.",
    ["inputs"], "every enum x exception x message x value",
    "the only test needs the compiler, and covers two enums",
    [NH + "register_enum_hash.py", NH + "numba_raise.py",
     NH + "numba_type_util.py"],
    [("jitable_enum_hash", NH + "register_enum_hash.py"),
     ("safe_raise", NH + "numba_raise.py"),
     ("as_numba_type", NH + "numba_type_util.py")],
    "runtime monitor (plain results against what is handed to the compiler)",
    "the compiler itself is not installed: its registrations are recorded")
