"""The one table behind properties.jsonl and MANIFEST.json (see tools/gen.py)."""
P = []


def p(id, module, title, statement, over, text, why, files, mech, note, observe=(), technique='property-based testing'):
    P.append(dict(id=id, module=module, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, observe=list(observe), technique=technique))


p('P01', 'p01_unify', 'Unification is sound, most general, and leaves no trace',
  'Unifying two terms succeeds exactly when they have a common instance, and the bindings it makes are a most general '
  'unifier, with circular solutions refused. Every binding is undone when the enumeration is exhausted, closed early or '
  'left by an exception, at any nesting depth and together with bindings made outside it.',
  ['inputs', 'histories'], 'all pairs of finite terms (shared and repeated variables, pre-existing bindings), and all histories of '
  'nested unify / abandon / backtrack operations',
  'The tests unify a handful of fixed pairs; aliasing chains, occurs-check cases behind bindings and abandoned generators are unsampled.',
  ['dyna/term.py'], [('in-place unification with trail', 'dyna/term.py: unify, unifyN, Var'), ('functional mgu', 'dyna/term.py: Subst.mgu')],
  'Random search over pairs and nested binding histories against an independently written functional unifier; no proof for larger terms.')

p('P02', 'p02_subsume', 'Subsumption, variants, canonical form, renaming and order agree',
  'One term subsumes another exactly when some substitution of its variables yields the other; two terms are variants '
  'exactly when each subsumes the other, which is exactly when their canonical forms are equal (and hash alike); a renamed copy is a '
  'variant with none of the original variables. The matching of one list of subgoals into another enumerates every alignment once, and the '
  'order used for sorting is a strict total order compatible with equality.',
  ['inputs'], 'all terms, with and without shared variables and with variables bound at the time of the call',
  'Unit tests compare a few literal terms; sharing of variables between the two sides and bound variables are not sampled.',
  ['dyna/term.py'], [('one-way matching', 'dyna/term.py: covers, Subst.cover, same'), ('canonical form', 'dyna/term.py: canonicalize, fresh'),
                     ('alignment', 'dyna/term.py: Product.covers, Product.match_comm')],
  'Random search with near-variant pairs against an independent matcher.')

p('P03', 'p03_sets', 'Anti-unification and sets of patterns kept by generality',
  'The anti-unification of two terms is the least general term that subsumes both. A set kept without duplicates holds one '
  'representative per variant class; a set kept most general holds exactly the maximal elements added; a disjoint set of '
  'patterns covers everything added with members no two of which unify.',
  ['inputs', 'histories'], 'all pairs of terms and all sequences of additions to each kind of set',
  'Tests add two or three patterns; the order of additions and chains of merges matter and are not sampled.',
  ['dyna/term.py'], [('anti-unification', 'dyna/term.py: generalizer'), ('pattern sets', 'dyna/term.py: NoDupsSet, MostGeneralSet, DisjointEstimate')],
  'Random addition sequences against a brute-force model of each set.')

p('P04', 'p04_syntax', 'Printing a program and reading it back gives the same program',
  'Rendering any term, rule or program in concrete syntax and parsing the result yields a term, rule or program equal to the original up '
  'to variable renaming, including its input and output declarations, lists, strings, nested operators, quoting and constants. '
  'Parsing follows the stated precedence and associativity of the operators and does not depend on white space or comments.',
  ['inputs', 'programs'], 'all terms and programs expressible in the concrete syntax',
  'The tests parse a few dozen fixed strings; combinations of operators, quoting and nesting in every argument position are unsampled.',
  ['dyna/pretty.py', 'dyna/syntax.py', 'dyna/program.py'],
  [('pretty printer', 'dyna/pretty.py: PrettyPrinter'), ('grammar', 'dyna/syntax.py'), ('plain text', 'dyna/program.py: plaintext, _parse')],
  'Random syntax trees printed by the code and read back, and printed by an independent fully parenthesised printer; decided by structural comparison.')

p('P05', 'p05_equality', 'Equality of rules and programs is variant equality, with a matching hash',
  'Two rules are equal exactly when one is the other with variables renamed and subgoals reordered, and two programs are '
  'equal exactly when their rules correspond one to one under that relation; equal programs have equal hashes. The alignment of two programs '
  'is a largest one-to-one pairing of equal rules, and the distance between two programs is zero or infinite accordingly, apart from '
  'numeric differences between constants.',
  ['programs'], 'all pairs of rules and programs',
  'Tests compare a few programs; duplicated rules, symmetric bodies and near-misses are unsampled.',
  ['dyna/rule.py', 'dyna/program.py'], [('rule variants', 'dyna/rule.py: Rule.same, signature'), ('program equality', 'dyna/program.py: __eq__, align, metric')],
  'Random near-variant programs against brute-force alignment.')

p('P06', 'p06_edits', 'An edited program behaves like one written that way from the start',
  'After any sequence of additions, merges, removals and queries interleaved in any order, looking up items, equality, hashing, '
  'cost and symbol queries answer as they would on a program freshly constructed from the same rules. Adding a rule with a constant '
  'body adds its value to the existing rule for that item, and never loses or duplicates a contribution.',
  ['histories'], 'all histories of append, update, merge, pop, concatenate, slice-removal and assignment mixed with reads of cached facts',
  'Tests exercise single edits; stale caches appear only for particular interleavings of reads and edits.',
  ['dyna/program.py'], [('incremental indexes', 'dyna/program.py: _cache_f2r, _buckets, _invalidate_caches'), ('merging', 'dyna/program.py: update, _update_bucket, pop')],
  'Stateful generation: random histories compared after each step with a freshly built program and a list model.')

p('P07', 'p07_folding', 'Constant folding keeps the meaning and is canonical',
  'Folding the constants of a program preserves the value of every item, drops only rules whose constant is zero, and leaves at most one '
  'rule per item-and-subgoals pattern with the total coefficient. Folding again changes nothing, and programs differing only in the order of rules, '
  'factors, or in how a coefficient is split fold to equal programs.',
  ['programs', 'inputs'], 'all programs over the numbers and over other semirings',
  'Tests fold a few literal programs; splitting coefficients across reordered variant rules is unsampled.',
  ['dyna/program.py'], [('folding', 'dyna/program.py: constant_folding_rhs, ConstantFolded')],
  'Random programs with planted duplicates against a direct model of the folded program.')

p('P08', 'p08_builtins', 'Built-in arithmetic, comparison and unification behave as specified',
  'Evaluating an arithmetic assignment computes the value of the expression, solving for the single unknown operand where the operation can be '
  'inverted; comparisons succeed exactly when they hold; equality unifies; all wait, unevaluated, until enough is known. The result does not depend on the order '
  'in which subgoals of a rule are written, as far as each order lets every built-in become ready.',
  ['inputs', 'schedules'], 'all operand values and modes, and all orders of subgoals in a rule',
  'Tests evaluate a few literal expressions in one mode.',
  ['dyna/builtin.py', 'dyna/program.py'], [('builtin modes', 'dyna/builtin.py: Builtins, is_ready'), ('delaying', 'dyna/program.py: lookup')],
  'Random operands and modes against Python arithmetic; random subgoal orders against the reference evaluator.')

p('P09', 'p09_solver', 'Forward chaining computes the weighted fixpoint',
  'For every range-restricted program with finitely many derivable items, solving it gives each item the semiring-sum over its '
  'derivations of the product of their weights, and no other item a nonzero value. This holds in every supported semiring, for the two solvers, with '
  'data supplied in the program or alongside it.',
  ['programs', 'inputs'], 'all range-restricted programs with builtins, structured terms and recursion whose fixpoint is finite, in several semirings',
  'The tests solve fixed programs; joins with repeated subgoals, self-joins, mutual recursion and re-derivation are sampled only a few times.',
  ['dyna/execute/solver.py', 'dyna/execute/solver2.py', 'dyna/execute/base.py'],
  [('agenda solver', 'dyna/execute/solver.py'), ('non-ground solver', 'dyna/execute/solver2.py'), ('driver', 'dyna/execute/base.py')],
  'Random programs and data against an independent naive evaluator (values compared exactly on acyclic/nilpotent data, to a tolerance on convergent cyclic data).')

p('P10', 'p10_strategies', 'All evaluation strategies agree',
  'Naive iteration, agenda, semi-naive, Newton iteration, the linear-equation solver, and the component-wise solver (goal-directed or not) '
  'all give the same value to every item of a program on which they terminate, and that value is the least fixpoint.',
  ['programs', 'configurations'], 'all finite programs and all evaluation strategies applicable to them',
  'Each strategy has its own few fixed tests and no test compares them on arbitrary programs.',
  ['dyna/program.py', 'dyna/execute/linear.py'], [('strategies', 'dyna/program.py: fc, agenda, seminaive, newton, solve_linear, scc_solver'), ('linear solve', 'dyna/execute/linear.py')],
  'Differential search over random programs, anchored to the independent evaluator.')

p('P11', 'p11_nonground', 'Facts with variables stand for all their instances',
  'When rules or data contain unbound variables, the solver for such programs computes a chart in which every ground item has the '
  'total value of all derivations that apply to it, whichever patterns overlap, and a variable that disappears multiplies by the number of values it ranges '
  'over (infinity). The result equals that of evaluating all ground instances.',
  ['programs', 'inputs'], 'all programs whose facts or heads contain variables',
  'Only a few fixed non-ground examples are tested; overlapping patterns matched by several subgoals are not.',
  ['dyna/execute/solver2.py', 'dyna/program.py'], [('non-ground chart', 'dyna/execute/solver2.py'), ('infinite multiplicity', 'dyna/program.py: multiple, __setitem__')],
  'Random programs with overlapping non-ground facts, compared pointwise with an independent non-ground evaluator.')

p('P12', 'p12_schedule', 'The answer does not depend on scheduling or on how data arrives',
  'Whatever order the agenda processes items in, whichever priority function or queue it uses, and whether the input facts are given at '
  'once, in any permutation, or in several batches between which the solver runs and is queried, the final chart is the same. '
  'A query in the middle of a run reports the fixpoint of the facts given so far and does not disturb the rest.',
  ['schedules', 'histories'], 'all priorities, orders and batchings of updates',
  'Tests run one default schedule; order-dependent double counting shows up only for particular arrival orders.',
  ['dyna/execute/base.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py', 'dyna/util/bucket_queue.py'],
  [('agenda', 'dyna/execute/base.py: BaseSolver'), ('queues', 'dyna/util/bucket_queue.py')],
  'Random priorities and batch histories; metamorphic comparison with the one-shot reference chart.')

p('P13', 'p13_query', 'A query returns exactly the matching part of the chart',
  'Querying a solved program with a pattern returns one row for every item of the chart matching it, with the item\'s value and the variable bindings, '
  'and nothing else; compound queries, aggregated queries and lookups agree with filtering the full chart by hand. A program queried directly gives '
  'the same rows as solving first.',
  ['inputs', 'programs'], 'all query patterns (repeated variables, constants, structure) against all charts',
  'Tests query with one or two literal patterns.',
  ['dyna/execute/base.py', 'dyna/program.py'], [('queries', 'dyna/execute/base.py; dyna/program.py: user_query, user_lookup')],
  'Random patterns and charts against brute-force filtering of the reference chart.')

p('P14', 'p14_unfold', 'Unfolding preserves the meaning of the program',
  'Replacing any unfoldable subgoal by the bodies of the rules that match it keeps the value of every item, for every sequence of such steps, '
  'including when the subgoal is recursive, unifies only partly with the matching heads, or is shared by several rules. Unfolding until a predicate is gone keeps the value '
  'of the remaining ones.',
  ['programs', 'histories'], 'all programs, all unfoldable positions, all sequences of unfold steps',
  'Tests unfold a few chosen positions of fixed programs.',
  ['dyna/transform/unfold.py', 'dyna/program.py'], [('unfold', 'dyna/transform/unfold.py: Unfold'), ('iterated unfold', 'dyna/program.py: unfold_x, unfolds')],
  'Random programs and positions; the original and the result are evaluated by the independent evaluator on the same random data.')

p('P15', 'p15_fold', 'Every fold the system accepts as safe preserves meaning',
  'Each fold offered or accepted as safe - by reversal, by the measure on rules, or by the unit measure - yields a program that gives every item of the '
  'original the same value, including after definitions were introduced and other folds and unfolds were made. A fold that would change '
  'the meaning is rejected.',
  ['programs', 'histories'], 'all programs, all fold proposals, and all sequences of define / fold / unfold steps',
  'Tests check named folds on fixed programs; unsafe folds differ from safe ones only through the history of the rules involved.',
  ['dyna/transform/fold.py', 'dyna/transform/measure.py', 'dyna/rule.py', 'dyna/program.py'],
  [('fold', 'dyna/transform/fold.py: Fold'), ('safety measure', 'dyna/transform/measure.py'), ('proposals', 'dyna/rule.py: folds_by; dyna/program.py: fold_proposals, megafolds')],
  'Random programs and histories (including copies of rules and self-folds); original and folded program evaluated on the same data.')

p('P16', 'p16_elim', 'Eliminating a rule preserves the meaning',
  'Removing any rule by distributing it over its uses keeps the value of every output item and of every item the removed rule could not '
  'derive, including when several subgoals of a rule match it and when the rule is recursive. Afterwards the eliminated rule is gone.',
  ['programs'], 'all programs and all rules of them the elimination applies to',
  'Tests eliminate a few rules of fixed programs.',
  ['dyna/transform/rule_elimination.py', 'dyna/program.py'], [('elimination', 'dyna/transform/rule_elimination.py: LinearRuleElimination'), ('splitting overlapping subgoals', 'dyna/program.py: linearize')],
  'Random programs and rules; semantic comparison on random data.')

p('P17', 'p17_slash', 'Speculation preserves the meaning',
  'Transforming a program by speculation with any divisor item and any admissible choice of spine positions keeps the value of every item of the original program.',
  ['programs', 'configurations'], 'all programs, divisor patterns and positions (linear and branching recursion, non-ground and structured items)',
  'Tests use a handful of grammars and graph programs with fixed positions.',
  ['dyna/transform/slash.py'], [('speculation', 'dyna/transform/slash.py: Slash')],
  'Random programs, divisors and positions; semantic comparison on random data.')

p('P18', 'p18_lct', 'The left-corner transformation preserves the meaning',
  'Transforming a program by the generalised left-corner transformation with any divisor item and any admissible choice of spine positions keeps the value of every item of the original program.',
  ['programs', 'configurations'], 'all programs, divisor patterns and positions',
  'Tests use a handful of grammars with fixed positions.',
  ['dyna/transform/lct.py'], [('left-corner transformation', 'dyna/transform/lct.py: LCT')],
  'Random programs, divisors and positions; semantic comparison on random data.')

p('P19', 'p19_prune', 'Removing dead and useless rules never changes an output',
  'Every pruning (coarse, fine-grained, bottom-up, with or without specialisation) keeps the value of every output item for all data '
  'that matches the declared inputs, and never adds rules for new items. Bottom-up pruning keeps the value of every item.',
  ['programs'], 'all programs with declared inputs and outputs and all matching data',
  'Tests prune a few fixed programs.',
  ['dyna/analyze/dead.py', 'dyna/program.py'], [('pruning', 'dyna/analyze/dead.py'), ('usefulness', 'dyna/program.py: usefulness_analysis, _useful')],
  'Random programs with unreachable, underivable and specialisable rules; semantic comparison on random data.')

p('P20', 'p20_abbreviate', 'Abbreviation of item types preserves the outputs',
  'Splitting and renaming items by their inferred types keeps the value of every output item for all data that matches the declared inputs.',
  ['programs'], 'all programs with declared inputs and outputs and all matching data',
  'Tests abbreviate a few fixed programs.',
  ['dyna/analyze/abbreviate.py', 'dyna/analyze/types.py'], [('abbreviation', 'dyna/analyze/abbreviate.py: Abbreviate')],
  'Random programs; semantic comparison on random data.')

p('P21', 'p21_normal', 'Normalisations preserve the meaning and reach their normal form',
  'Making a program locally linear, binary, flat (unifications explicit) or free of unifications and ready built-ins, hooking a group of subgoals, '
  'sorting and renaming all keep the value of every original item. The result has the advertised shape: no two unifiable subgoals in a rule, '
  'at most two subgoals, only flat subgoals, or no equations, respectively.',
  ['programs'], 'all programs',
  'Tests normalise one or two fixed programs.',
  ['dyna/program.py'], [('normal forms', 'dyna/program.py: linearize, binarize, hook, normalize_unification2, snap_unifications, run_builtins')],
  'Random programs with repeated and nested subgoals; semantic comparison and shape check.')

p('P22', 'p22_magic', 'Demand-driven evaluation derives the same outputs, and only demanded items',
  'The demand-restricted program derives every output item that the original derives, and no item the original does not. '
  'The component-wise solver run with demand restriction returns the values of the original for all outputs.',
  ['programs', 'inputs'], 'all programs with declared outputs and all data',
  'Tests cover a few fixed programs.',
  ['dyna/program.py'], [('magic templates', 'dyna/program.py: magic_templates'), ('component-wise solver', 'dyna/program.py: scc_solver')],
  'Random programs; Boolean reference fixpoint of the original and of the transformed program are compared.')

p('P23', 'p23_search', 'Every program the optimiser reaches is equivalent to the original',
  'Every program produced by the transformation search, on any path it explores and with any set of transformations enabled, gives each output the same '
  'value as the original program. The best program reported has the lowest cost of those visited, no worse than the original.',
  ['programs', 'histories', 'configurations'], 'all programs and all paths of search steps',
  'Tests run the search on fixed programs and check mostly the cost.',
  ['dyna/search/search.py'], [('search', 'dyna/search/search.py: Graph1, Graph2, BeamSearch, AgendaBasedSearch')],
  'Random small programs and random walks; semantic comparison on random data.')

p('P24', 'p24_derivations', 'Enumerating derivations yields each proof tree exactly once',
  'The naive, semi-naive, agenda and top-down enumerations produce exactly the derivations of the program up to the given height or size, each once, and each a valid '
  'proof tree whose value is the product of its leaves. Summing their values gives the chart value of the item.',
  ['programs'], 'all programs and bounds on the height',
  'Tests count derivations of a few fixed programs.',
  ['dyna/derivations.py', 'dyna/program.py'], [('enumerators', 'dyna/derivations.py: Naive, Seminaive, agenda, sld')],
  'Random programs against a brute-force enumerator of proof trees.')

p('P25', 'p25_mapping', 'Transformations map derivations one to one, preserving value',
  'For each transformation with a derivation mapping, mapping a derivation of the original gives a valid derivation of the transformed program with the same '
  'item and value, mapping back returns the original, and distinct derivations go to distinct derivations.',
  ['programs', 'histories'], 'all programs, transformations and derivations',
  'Tests check the mapping for a few fixed programs.',
  ['dyna/transform/unfold.py', 'dyna/transform/fold.py', 'dyna/transform/slash.py', 'dyna/transform/lct.py', 'dyna/program.py'],
  [('derivation maps', 'dyna/transform/*: transform, untransform; dyna/program.py: Transform')],
  'Random programs and transformation steps; all derivations up to a height are mapped and compared.')

p('P26', 'p26_types', 'Type and usefulness analysis never misses an item',
  'The item types inferred for a program cover every item derivable from any data matching the declared inputs, and the usefulness analysis covers every item that occurs in a derivation '
  'of an output. The analysis terminates.',
  ['programs', 'inputs'], 'all programs with declared inputs and outputs, and all matching data',
  'Tests compare the inferred types of fixed programs with literals.',
  ['dyna/analyze/types.py', 'dyna/program.py'], [('type inference', 'dyna/analyze/types.py: TypeAnalyzer'), ('usefulness', 'dyna/program.py: _useful')],
  'Random programs and data; each item of the reference chart must match an inferred type whose constraints it satisfies.')

p('P27', 'p27_graph', 'Dependency analysis covers every dependency',
  'The dependency graph between item patterns contains an edge wherever a subgoal instance is used to derive an item, its components are ordered so that no item depends on a later one, '
  'and the split of the rules into input-dependent and input-independent parts is correct: rules on which no input has an influence give the same items whatever the data.',
  ['programs'], 'all programs and all data',
  'Tests draw the graphs of a few fixed programs.',
  ['dyna/analyze/coarse_graph.py'], [('coarse graph', 'dyna/analyze/coarse_graph.py: CoarseGraph')],
  'Random programs: every edge used in a reference derivation must be present.')

p('P28', 'p28_runtime', 'The degree of a rule bounds its number of instantiations',
  'The degree reported for a rule is computed from its subgoals alone (renaming variables, reordering subgoals or rules does not change it), and the number of ways to satisfy its body is at most the '
  'domain size raised to that degree. The degree of a program is the largest of its rules, and an item type bound covers the number of items derived.',
  ['programs', 'inputs'], 'all programs and data over a finite domain',
  'Tests compare the degree of a few rules with literals.',
  ['dyna/rule.py', 'dyna/analyze/runtime.py', 'dyna/program.py'], [('rule analyzer', 'dyna/rule.py: RuleAnalyzer_'), ('bounds', 'dyna/analyze/runtime.py')],
  'Random rules and domains; counted instantiations must not exceed the bound.')

p('P29', 'p29_propagate', 'Constraint propagation only adds consequences',
  'Propagating a conjunction of constraints by a set of rewrite rules reaches a fixpoint that has exactly the solutions of the original conjunction under the meaning of those rules, reports failure only if there is '
  'none, and does not depend on the order of the constraints.',
  ['inputs', 'schedules'], 'all conjunctions of constraints, in all orders',
  'Tests propagate fixed conjunctions in one order.',
  ['dyna/propagate.py'], [('propagation', 'dyna/propagate.py')],
  'Random conjunctions and orders with a model over a small finite domain.')

p('P30', 'p30_simplify', 'Comparing and combining simple types is sound',
  'If one simple type is said to cover another, every item of the other (an item may have unbound variables) is an item of the first; types said to be disjoint share no item; '
  'the intersection contains exactly the shared items; the combination of overlapping types, removing redundant types and merging overlapping ones lose no item, and the latter leaves no overlap.',
  ['programs', 'inputs'], 'all simple types, theories and data satisfying them',
  'Tests compare fixed pairs of types.',
  ['dyna/analyze/rewrites.py'], [('rewrites', 'dyna/analyze/rewrites.py: covers, intersect, anti_unifier, dedup, disjoin')],
  'Random types and theories; the items of each type are enumerated in a finite model, and compared as sets.')

p('P31', 'p31_graphs', 'Graph utilities compute what they name',
  'Strongly connected components partition the nodes in dependency order; transitive closure and matrix star equal the sum over all paths; '
  'hypergraph reachability and paths agree with exhaustive search.',
  ['inputs'], 'all finite graphs and hypergraphs, weighted in any supported semiring',
  'Tests use one or two fixed graphs.',
  ['dyna/util/graphs.py', 'dyna/execute/linear.py'], [('graphs', 'dyna/util/graphs.py: tarjan, scc, kleene, Hypergraph')],
  'Random graphs against brute-force reachability and power sums.')

p('P32', 'p32_queue', 'The bucket priority queue behaves as a priority map',
  'Under any sequence of insertions, updates and removals the queue holds exactly the keys inserted and not yet removed, with their latest (or accumulated) value, and always '
  'removes a key from the lowest non-empty bucket.',
  ['histories'], 'all histories of queue operations',
  'Tests run one fixed sequence.',
  ['dyna/util/bucket_queue.py'], [('bucket queue', 'dyna/util/bucket_queue.py: BucketQueue')],
  'Stateful generation against a dictionary model.')

p('P33', 'p33_step', 'One inference step and the groundings of a program are exact',
  'Applying the rules of a program once to a chart gives each head the sum over all ways of satisfying a body in that chart; enumerating the groundings lists '
  'each such way exactly once with the right rule number, instance and value. Enumeration leaves program, chart and query unchanged, even if abandoned.',
  ['programs', 'inputs'], 'all programs and charts',
  'Tests step a few fixed programs.',
  ['dyna/program.py', 'dyna/term.py'], [('step', 'dyna/program.py: step, groundings, instantiate, lookup'), ('joins', 'dyna/term.py: join_f, Stream')],
  'Random programs and charts against a brute-force join.')
