"""Which rules decide which property."""
from . import r_solver as S
from . import r_dd as D
from . import r_dd2 as E
from . import r_dd3 as U
from . import r_dd4 as W
from . import r_dd5 as X
from . import r_dd6 as Y
from . import r_misc as M
from . import r_names as N
from . import r_states as ST
from . import r_matrix as MX
from . import r_report as RP
from . import r_bits as BT
from . import r_count as CN
from . import r_frontier as FR
from . import r_examples as EX

CHECKS = {}


def check(pid, rules, how, level='other', note='', assumes=(), technique='', also=()):
    CHECKS[pid] = dict(rules=rules, how=how, level=level, note=note, assumes=list(assumes), technique=technique, also=tuple(also))


check('C01', [S.incumbent_pair, S.getters, S.initial_state],
      'Every path through every critical section of the shared solver state (all workers, both entry points, both solvers) is enumerated on the inlined MIR; on each, the value and the solution written are compared symbolically with what was read.',
      technique='path-sensitive symbolic dataflow over MIR critical sections')
check('C02', [S.incumbent_source, S.compile_inputs],
      'Def-use of the incumbent: the diagram content each new value and solution comes from is traced to its compilation and to the path facts about its exactness; every compilation input field is traced to its source.',
      technique='path-sensitive def-use tracing over MIR')
check('C03', [S.node_accounting, S.cutset_accounting, S.root_pushed, S.frontier_cleared],
      'All paths of a worker (loop iterations and exits) are enumerated on the inlined MIR of both solvers and entry points; each popped subproblem is a linear resource that must be discharged on every path for one of the admissible reasons; the cutset callback and the initial push are checked field by field.',
      technique='linear-resource (typestate) analysis over all worker paths')
check('C04', [S.bound_lowered, S.worker_exits, S.status, S.no_worker_is_none],
      'Every critical section that touches the upper bound or the interruption flag, every way out of a worker and every returned status is checked for the facts established on the path inside that same critical section.',
      technique='path-sensitive typestate analysis of critical sections and thread exits')
check('C05', [S.sleeping, S.busy_count],
      'Facts at every condition-variable wait; counting of busy increments and decrements and of notifications along every worker path.',
      technique='path-sensitive typestate / counting analysis over all worker paths')
check('C06', [S.locking],
      'All lock acquisitions of the inlined solvers and diagrams are enumerated with the set of locks held; re-acquisition, nesting order, sleeping and long-running calls under a lock are checked.',
      technique='lock-set and lock-order analysis over MIR')
check('C07', [S.interrupted_bound, S.bound_lowered, S.initial_state],
      'In every critical section that records an interruption the stored bound is compared symbolically with the incumbent, the bound of the popped subproblem and the reduction over the published bounds (including what the reduction filters out); publication and withdrawal are tied to the busy counter.',
      technique='path-sensitive symbolic dataflow over MIR critical sections', also=('C04.bound', 'C01.initial'))
check('C19', [S.thresholds],
      'On every worker path, a popped subproblem that is neither processed nor pruned by its bound must be dominated by the facts about the threshold looked up under its own state and depth; every critical section that keeps one must insert its threshold there.',
      technique='path-sensitive typestate analysis over all worker paths')
check('C21', [S.layer_counters, S.layer_tables],
      'Counter deltas per depth term are computed along every worker path and tied to push, pop, discard, clear and finish; every purge of a layer must follow zero observations of both its counters; the lengths of the tables indexed by layer are compared as linear forms with the number of layers.',
      technique='path-sensitive counting analysis over all worker paths')
check('C27', [S.worker_count, S.no_worker_is_none],
      'Spawn loops, per-thread diagram creation and the values flowing into the thread count and the bound table are traced in all constructors.',
      technique='symbolic dataflow over constructors and spawn loops', also=('C04.workers',))
check('C08', [S.cutset_accounting, E.paths],
      'On every path of cutset extraction and of its receiver in both solvers, the bound attached to a subproblem is compared symbolically with the minimum of the expected bounds.',
      technique='path-sensitive symbolic dataflow over MIR')
check('C12', [D.branching],
      'Every creation and every update of a diagram node on the paths of the expansion callback of both diagrams is compared symbolically with the parent value, the transition cost, and the edge appended on the same path.',
      technique='path-sensitive symbolic dataflow over MIR')
check('C33', [D.expansion, M.default_bound],
      'All paths through the layer loop of both diagrams are enumerated; each layer node must be expanded over the whole domain of the chosen variable unless the path facts show its value plus rough bound at or below the input lower bound.',
      technique='path-sensitive symbolic dataflow over MIR')
check('C11', [D.width, M.fixed_width],
      'All statements that shorten or rewrite a layer are enumerated on all paths of compilation with the facts about compilation type, width and depth established there.',
      technique='path-sensitive symbolic dataflow over MIR')
check('C31', [D.merging],
      'All paths of the merge (both diagrams, recycled node or not) are enumerated; merged states, redirected edges, costs, value and flags are compared symbolically.',
      technique='path-sensitive symbolic dataflow over MIR')
check('C10', [D.exactness],
      'Every path out of compilation in both diagrams is enumerated; an exact verdict must be justified by the facts on that path (no drop, no merge, or an exact best path established by a checked walk).',
      technique='path-sensitive symbolic dataflow over MIR')
check('C14', [E.paths],
      'Every path of compilation, extraction and the two queries of both diagrams is enumerated; the loop that builds a path must walk the best edges from the node whose state and value are reported down to the root.',
      technique='path-sensitive symbolic dataflow over MIR')
check('C13', [M.arithmetic],
      'Every operation on signed values in every function of the library is enumerated on typed MIR; only saturating (or checked) ones are allowed; the gap computation is checked path by path.',
      technique='type-directed lint over MIR, path-sensitive dataflow for the gap')
check('C24', [M.node_flags],
      'Every query, setter and constructor of the node flags is summarised as a function of the word and its argument (all paths), and the summary is compared with its specification over all words.',
      technique='symbolic summaries over MIR, exhaustive comparison of the bit-vector summaries')
check('C22', [FR.rules],
      'Every path of push, pop and clear of the deduplicating frontier is enumerated; the effect of each on the index, position, heap and free-list tables is compared symbolically with a representation invariant, and the loops that move entries must exchange two entries together with their positions.',
      technique='representation-invariant (typestate) analysis over all method paths')
check('C23', [FR.rules],
      'The comparison is summarised symbolically; every loop that repairs the heap must exchange parent and child in the right direction and stop only when nothing is left to repair; every change that may break the order must be followed by a repair.',
      technique='path-sensitive symbolic dataflow over MIR, inductive loop checks')

check('C32', [U.local_bounds],
      'The loop nest that passes local bounds to the parents is located in the inlined compilation of both diagrams; its order of traversal, its start, every path through its body and every other write to a local bound are checked symbolically.',
      technique='path-sensitive symbolic dataflow over MIR, loop-order analysis')

check('C16', [W.cutsets, E.paths],
      'All additions to the cutset are enumerated on all paths of compilation in both diagrams; each must be justified, and each omission excused, by the facts on its path; extraction is checked path by path.',
      technique='path-sensitive typestate analysis over MIR')

check('C20', [X.thresholds],
      'The loop nest that passes thresholds to the parents is located in the inlined compilation of the caching diagram; its order, every path through its body, and every other write to a threshold are compared symbolically with the specification.',
      technique='path-sensitive symbolic dataflow over MIR, loop-order analysis')
check('C17', [X.pruning],
      'Every loop that takes nodes out of a layer is located; each of its paths that removes a node must carry the facts that justify it, all from one look-up of the threshold store; flags and other removals are enumerated.',
      technique='path-sensitive typestate analysis over MIR')
check('C18', [X.recording],
      'Every change of the threshold store on any path of compilation is enumerated with the facts about compilation type, node, flags, layer and the look-up that precedes it; the fields these facts rest on (depths, cutset layer) are traced to their writes.',
      technique='path-sensitive typestate analysis over MIR')
check('C09', [Y.reuse],
      'Every term tested, passed to user code, used as an index or container, or left in a field that the queries read is traced, through loops and joins, to the fields it depends on; none may depend on what the diagram held before the compilation.',
      technique='taint (reaching-definitions) analysis over the abstract states of all paths')

check('C25', [N.names],
      'The parser and the printer of every option type are summarised over all their paths as tables from names to values and from values to names, and the tables are compared; the defaults are read off the command-line builder.',
      technique='symbolic summaries over MIR, comparison of the tables')
check('C28', [ST.states],
      'The equality and the hash of the state of each bundled problem, and of every type it is made of, are summarised over all paths: equal only with every field known equal, different only with a difference known, hashing only contents.',
      technique='symbolic summaries over MIR, exhaustive over fields and paths')
check('C30', [MX.rules],
      'Reading, writing, constructing and iterating over a matrix are summarised over all paths; positions are compared as polynomials in the dimensions and the index, and path conditions with the validity of the index.',
      technique='symbolic summaries over MIR, polynomial normal forms')
check('C26', [RP.runner, RP.status_names],
      'Every path of the experiment runner and of each example program is enumerated; the solver built, the interruption condition and each column printed are traced to the parameters, the run and the queries made after it, and compared with the header.',
      technique='path-sensitive symbolic dataflow over MIR (value provenance)')
check('C29', [BT.lex],
      'The comparison methods are read in terms of one another; the one that looks at the words must go on only past equal words, and decide by the first differing bit, found by a scan whose start, step, stop and invariant are checked, or by an equivalent word operation.',
      technique='symbolic summaries over MIR, inductive loop invariants (bit scans)')
check('C42', [BT.bits_iter],
      'Every path of one step of the iterator is compared with the specification of its state (current word, number of its first bit, position in it): an element is yielded only for the first set bit at or after the position, the word is left only when no such bit exists.',
      technique='symbolic summaries over MIR, inductive loop invariants (bit scans)')
check('C36', [CN.solvers, CN.diagrams],
      'Every worker path and every path through the compilation loops is enumerated; the growth of each counter along it is computed as a linear form and compared with the subproblems taken, the diagrams compiled and the nodes expanded on it.',
      technique='path-sensitive counting analysis (linear forms over all paths)')

check('C34', [EX.merged_sets, EX.merged_numbers],
      'The loop over the merged states of each bundled problem is summarised over all its paths; the membership of one arbitrary element in every set it folds is explored over all reachable combinations and compared with the specification; the numbers folded are compared as minima and maxima.',
      technique='symbolic summaries over MIR, exhaustive set-membership abstraction')
check('C35', [EX.stage_rule, EX.transition_sets, EX.item_step, EX.domain],
      'The choice of the next variable, the initial state, the transition and the domain of each bundled problem are summarised over all their paths; the stage is compared as a linear form, the sets element by element, and the values offered are traced to the sets of the state.',
      technique='symbolic summaries over MIR, set-membership abstraction')

NOT_APPLICABLE = {
    'C40': 'Global optimality is a consequence of C01-C12, C14, C16-C23 and C31-C33 together with the admissibility of the user model by an inductive argument over unbounded search trees (every optimal solution is either the incumbent or below an open subproblem); no dataflow argument over the source establishes that induction, only its local obligations, which are claimed separately.',
    'C41': 'Admissibility compares a bound with the optimum over all completions of a state of a combinatorial problem; no abstract domain in reach bounds that optimum, so no static rule can decide it.',
    'C43': 'Requires a formal grammar of the three third-party file formats, which the repository does not contain; without it a static rule has nothing to compare the parsers with.',
}
