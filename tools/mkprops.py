#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements are edited)."""
import json, os
S = ['src/solver/parallel.rs', 'src/solver/barrier.rs']
D = ['src/mdd/with_all.rs', 'src/mdd/with_barrier.rs']
P = []


def prop(id, title, statement, over, text, why, files, mech, obs=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=None)))


NOSOLV = 'The repository has no test that runs either solver; its unit tests exercise only node flags, the deduplicating frontier and bit-set utilities.'
NODD = 'No test compiles a decision diagram; only single hand-picked inputs could be sampled, while the claim is over all problems, widths and bounds.'

prop('C01', 'Incumbent value and solution always agree and never get worse',
     'At every moment, in both parallel solvers, the best value a solver reports is exactly the value of the best solution it reports: the two are replaced together, in one critical section, by the value and the solution of the same decision diagram. The incumbent is replaced only by a value at least as good as the one stored at that moment, whatever the other workers did meanwhile, and no value is reported before a solution exists.',
     ['schedules', 'inputs'], 'every interleaving of the worker threads, every problem', NOSOLV,
     S, [('incumbent update under the shared lock', 'maybe_update_best'), ('getters', 'best_value / best_solution / best_lower_bound')], ['best_value', 'best_solution', 'best_lower_bound'])
prop('C02', 'Only diagrams whose best path is a real solution can improve the incumbent',
     'A solver takes a new best solution only from a restricted (or exact) diagram, or from a relaxed diagram that was reported exact; the best value of an inexact relaxed diagram is never taken as a solution. Every diagram is compiled from the subproblem that was taken from the frontier, with the problem, relaxation, ranking and width heuristic given to the solver.',
     ['inputs', 'schedules'], 'every subproblem of every problem', NOSOLV,
     S, [('processing of one subproblem', 'process_one_node')], ['best_solution'])
prop('C03', 'Branch-and-bound loses no open subproblem',
     'The search starts from the root of the problem (initial state, initial value, empty path, no bound), and every subproblem taken from the frontier is either discarded because its upper bound (or a recorded dominance threshold) shows it cannot improve the incumbent, or solved exactly, or replaced by the cutset of its relaxed diagram; every cutset subproblem whose bound exceeds the incumbent goes back on the frontier unchanged but for its bound. The frontier is emptied only when its best remaining bound does not exceed the incumbent or when the search is being interrupted.',
     ['inputs', 'schedules'], 'every problem, every schedule', NOSOLV,
     S, [('workload selection', 'get_workload'), ('processing', 'process_one_node, enqueue_cutset'), ('root', 'initialize, root_node')], ['maximize', 'maximize_with_interrupt'])
prop('C04', 'Optimality is claimed only when the search is exhausted',
     'A worker stops, and the global upper bound is lowered to the incumbent value, only when no subproblem is open and none is being processed by any worker, or when an interruption was requested. The status "proved" is returned exactly when no interruption took place, and an interruption is recorded only when the user-supplied interrupt condition asked for it.',
     ['schedules', 'inputs'], 'every interleaving and interruption point', NOSOLV,
     S, [('termination test', 'get_workload'), ('status', 'maximize_with_interrupt')], ['maximize_with_interrupt', 'best_upper_bound'])
prop('C05', 'Workers never sleep forever',
     'A worker goes to sleep only while holding the shared lock, having just observed that nothing is open and that another worker is still busy; taking a subproblem and being counted as busy happen in the same critical section. Every worker that took a subproblem, after all the subproblems it generated are on the frontier, stops being counted as busy exactly once and wakes up all sleeping workers.',
     ['schedules'], 'every interleaving of the workers', NOSOLV,
     S, [('sleep', 'get_workload (condition variable)'), ('wake up', 'notify_node_finished')], ['maximize'])
prop('C06', 'Locks are always taken in one order and never twice',
     'No thread ever acquires a lock it already holds (in read or write mode), and the order in which the shared-state lock and the threshold-store locks are nested is the same everywhere, so the workers cannot deadlock. The only lock held while sleeping is the one the sleep releases, and no worker keeps a lock while it compiles a diagram or when it exits.',
     ['schedules'], 'every interleaving of the workers', NOSOLV,
     S + ['src/mdd/with_barrier.rs'], [('critical mutex, monitor', 'solver'), ('per-layer RwLock', 'barrier store')], ['maximize'])
prop('C07', 'Bounds reported after an interruption are valid',
     'When the search is interrupted the reported upper bound is at least the incumbent value, at least the bound of the best subproblem still on the frontier at that moment, and at least the bound of every subproblem being processed by any worker at that moment. Each worker publishes the bound of the subproblem it takes in the critical section that takes it and withdraws it only when it has finished with it; before any interruption or completion the reported bounds are the trivial ones or the incumbent.',
     ['schedules', 'crash_points'], 'every interruption point in every interleaving', NOSOLV,
     S, [('interruption branch', 'get_workload'), ('per-thread bounds', 'upper_bounds')], ['best_upper_bound', 'best_lower_bound'])
prop('C08', 'The bound attached to a subproblem is the tightest admissible one',
     'A subproblem extracted from a relaxed diagram carries an upper bound that is no larger than its value plus its rough bound, its value plus its local bound, and the value of the diagram. When it is put on the frontier its bound is moreover never larger than the bound of the subproblem it was derived from, and it is never smaller than the smallest of these four quantities.',
     ['inputs'], 'every cutset node of every relaxed diagram', NODD,
     S + D, [('cutset extraction', 'drain_cutset'), ('enqueueing', 'enqueue_cutset')], ['drain_cutset', 'best_upper_bound'])
prop('C09', 'Reusing a decision diagram leaves no trace of its previous use',
     'The result of a compilation depends only on the compilation input, the cutset type the diagram was created with and (for the caching diagram) the shared threshold store: everything else a diagram remembers from an earlier compilation is reset before it is read. A fresh diagram and a reused one therefore give the same best value, best solution, exactness, cutset and node count for the same input.',
     ['histories', 'inputs'], 'every sequence of compilations on the same diagram, including failed (infeasible) ones', NODD,
     D, [('reset', 'clear at the start of compile')], ['compile', 'drain_cutset', 'best_solution'])
prop('C10', 'A diagram reported exact really is exact',
     'A decision diagram is reported exact only if no node was dropped or merged during its last compilation, or if it is a relaxed diagram whose best path goes through no merged node. This holds on every way out of the compilation, including when the diagram runs out of nodes.',
     ['inputs'], 'every problem, width and compilation type', NODD,
     D, [('exactness', '_is_exact, has_exact_best_path, approximate')], ['is_exact'])
prop('C11', 'Width limits are enforced only as the compilation type allows',
     'During an exact compilation no node is ever dropped or merged; during a restricted compilation a layer wider than the maximum width is cut down to at most that width and no node is merged; during a relaxed compilation a layer wider than the maximum width that lies at least two layers below the root is reduced to at most that width by merging and no node is dropped. Nodes pruned by the shared threshold store are not counted as dropped. A layer within the limit is expanded as it is, and the provided fixed-width heuristic asks for exactly the width it was made with.',
     ['inputs'], 'every layer of every diagram', NODD,
     D + ['src/heuristics/mod.rs'], [('width control', '_compile, restrict, relax'), ('fixed width', 'Fixed::max_width')], ['compile'])
prop('C12', 'Node values are longest-path values',
     'The value of every diagram node is the value of the root plus the length of the best path that leads to it: when a transition reaches a state already in the layer the two nodes are combined, the larger value and the incoming edge that realises it are kept together, and all incoming edges are recorded. A newly reached state gets a node whose value is its parent\'s value plus the cost of the transition, as computed by the problem for that parent state and that decision.',
     ['inputs'], 'every transition of every diagram', NODD,
     D, [('branching', 'branch_on')], ['best_value'])
prop('C13', 'Value and bound computations saturate instead of wrapping',
     'Whatever values the problem returns (rough bounds, costs, initial values at the extremes of the integer range included), every addition or subtraction of node values, costs, bounds and thresholds made by the library saturates: none can overflow, wrap or abort. The reported optimality gap is computed without overflow for every pair of bounds.',
     ['inputs'], 'every integer a user model may return', 'The tests never use extreme values with the diagrams or solvers.',
     S + D + ['src/xputils.rs', 'src/frontier/no_dup.rs'], [('saturating_add / saturating_sub', 'mdd'), ('gap', 'xputils')], ['best_value', 'best_upper_bound'])
prop('C14', 'Paths and solutions are complete and belong to the right node',
     'The best solution of a diagram is the path of the subproblem it was rooted at followed by exactly the decisions met when walking the best incoming edges from the best terminal node to the root. The state, value and path of an extracted subproblem all belong to the same diagram node, its path being built in the same way.',
     ['inputs'], 'every diagram and every cutset node', NODD,
     D, [('path reconstruction', '_best_path_partial_borrow')], ['best_solution', 'drain_cutset'])
prop('C16', 'The cutset of an inexact relaxed diagram covers all its paths',
     'In a relaxed diagram, the last-exact-layer cutset is the whole last layer compiled before the first merge, and the frontier cutset holds every exact node that has a non-exact child leading to the end of the diagram as well as every exact terminal node; all other nodes are left out. Extraction hands over every cutset node from which the end of the diagram can be reached, once, and nothing else.',
     ['inputs'], 'every relaxed diagram', NODD,
     D, [('last exact layer', 'relax'), ('frontier cutset', 'compute_local_bounds*'), ('extraction', 'drain_cutset')], ['drain_cutset'])
prop('C17', 'Threshold pruning inside a diagram only removes dominated nodes',
     'While compiling with the shared threshold store, a node is pruned by it only if it lies strictly below the root of the diagram, is not a merged node, and its value does not exceed the threshold recorded for its own state in its own layer; the threshold that pruned it is remembered for it. All other nodes are kept, whatever other workers store meanwhile.',
     ['inputs', 'schedules'], 'every node, every content of the store', NODD,
     ['src/mdd/with_barrier.rs'], [('pruning', '_compile')], ['compile'])
prop('C18', 'Recorded thresholds improve on those found and concern exact nodes only',
     'A diagram records a threshold only from a relaxed compilation, only for exact nodes that the store itself did not prune, under the node\'s own state and layer, and only if it improves on the one it found stored (larger, or equal and newly explored). The value recorded is the threshold computed for that node. With last-exact-layer cutsets nothing is recorded below the cutset layer, and a cutset node is never recorded as explored.',
     ['inputs', 'schedules'], 'every node, every content of the store', NODD,
     ['src/mdd/with_barrier.rs'], [('store update', 'try_update_barrier')], ['compile'])
prop('C19', 'A popped subproblem is explored unless its threshold forbids it',
     'The caching solver discards a subproblem taken from the frontier because of the threshold store only if the threshold recorded for its own state at its own depth exceeds its value, or equals it and was marked explored. Otherwise, before it is processed and without releasing the shared lock, its value is recorded as the explored threshold of that state at that depth.',
     ['inputs', 'schedules'], 'every popped subproblem and store content', NOSOLV,
     ['src/solver/barrier.rs'], [('threshold check', 'get_workload')], ['maximize'])
prop('C20', 'Dominance thresholds are propagated soundly to all ancestors',
     'After a relaxed compilation that reached the last layer, every non-deleted node passes to each of its parents the smallest of the parent\'s threshold and its own threshold minus the cost of the connecting edge. A node pruned by its rough bound starts from the incumbent minus that bound; a node of the cutset (exact terminal nodes included) has its threshold limited to its own value, or to the incumbent minus its local bound when it cannot beat the incumbent; and every node is handled before its parents.',
     ['inputs'], 'every relaxed diagram of the caching kind', NODD,
     ['src/mdd/with_barrier.rs'], [('threshold propagation', 'compute_local_bounds_and_theta')], ['compile'])
prop('C21', 'Layer counters match the open and running subproblems',
     'In the caching solver, adding a subproblem of some depth to the frontier, taking it, discarding it and finishing it each adjust the open and in-progress counters of exactly that depth in the same critical section, and clearing the frontier resets all open counters. The thresholds of a layer are thrown away only when that layer and every layer above it have neither open nor running subproblems and the search continues. Every layer, the last one included, has its counters and its thresholds from the start.',
     ['schedules', 'inputs'], 'every interleaving', NOSOLV,
     ['src/solver/barrier.rs'], [('counters', 'open_by_layer, ongoing_by_layer'), ('clean-up', 'get_workload')], ['maximize'])
prop('C22', 'The deduplicating frontier keeps the best of each state and loses nothing',
     'At any time the deduplicating frontier holds one entry per distinct pushed state not yet popped: pushing a state already present keeps the larger bound, and the subproblem (value and path) with the larger value. Its internal index, position and heap tables stay in agreement through every push, pop and clear, so that every stored subproblem is popped exactly once.',
     ['histories'], 'every sequence of push, pop and clear', 'The tests replay a few fixed sequences; the invariant quantifies over all of them.',
     ['src/frontier/no_dup.rs'], [('push / pop / clear', 'NoDupFrontier'), ('heap repair', 'bubble_up, bubble_down')], ['push', 'pop', 'len'])
prop('C23', 'Frontiers order subproblems by bound first',
     'Both frontiers pop a subproblem of maximal upper bound, ties being broken by the user-supplied state ranking, and the same comparison is used everywhere the heap is repaired. Length, emptiness and clear refer to exactly the subproblems that can still be popped.',
     ['histories', 'inputs'], 'every sequence of operations', 'The tests replay a few fixed sequences.',
     ['src/frontier/mod.rs', 'src/frontier/simple.rs', 'src/frontier/no_dup.rs'], [('comparator', 'MaxUB')], ['pop', 'len'])
prop('C24', 'Node flags are independent of one another',
     'Setting or clearing one flag of a diagram node changes that flag only; each query reports its own flag, and a node counts as exact only while it is not relaxed. New nodes carry only the exact or only the relaxed flag.',
     ['inputs', 'histories'], 'all flag combinations and sequences of updates', 'The unit tests look at single flags from two starting values.',
     ['src/mdd/node_flags.rs'], [('bit masks', 'NodeFlags')], ['is_exact'])
prop('C25', 'Option names parse back to what they print',
     'For the cutset, compilation and solver types, parsing the printed name of a value gives back that value, no two values share a name, and any other text is rejected. The defaults of the command line are among the accepted names.',
     ['inputs', 'configurations'], 'every value and every string', 'No test parses or prints them.',
     ['src/prelude.rs', 'src/xputils.rs'], [('FromStr / Display', 'CutsetType, CompilationType, SolverType')], ['command line'])
prop('C26', 'The report printed by the tools describes the run that was made',
     'The experiment runner runs the solver that was selected with the model, relaxation, ranking, width, cutset type, thread count and timeout it was given, and prints the instance name, solver type, status, duration, memory, best value ("not found" if none), lower bound, upper bound, gap and node counts of that run, in the order of the header; a status name never tells a proof for an interrupted run. Every example program forwards its command-line options unchanged to the runner.',
     ['configurations', 'inputs'], 'every option combination', 'No test runs the experiment runner.',
     ['src/xputils.rs', 'examples/psp/main.rs', 'examples/srflp/main.rs', 'examples/tsptw/main.rs'], [('runner', 'solve_timeout'), ('mains', 'run_resolution_xp')], ['stdout'])
prop('C27', 'The configured number of workers is the number that runs',
     'A solver starts as many workers as configured (by default one per hardware thread), each with a distinct identifier and its own decision diagram, and keeps one bound slot per worker; reconfiguring the number of threads resizes these slots. The solver entry points return only after all workers have ended.',
     ['configurations'], 'every thread count', NOSOLV,
     S, [('construction', 'new, custom, with_nb_threads'), ('spawning', 'maximize')], ['maximize'])
prop('C28', 'Equality and hashing of example states cover the whole state',
     'For the states of the three bundled problems, two states are equal exactly when all their fields are, so that states that differ in any field are never taken for one another by diagrams, frontiers or threshold stores. Equal states hash alike: hashing looks at nothing but the contents of the fields.',
     ['inputs'], 'every pair of states', 'The tests never build example states.',
     ['examples/psp/psp.rs', 'examples/srflp/state.rs', 'examples/tsptw/state.rs'], [('PartialEq / Hash', 'State')], ['maximize'])
prop('C29', 'Comparison traits agree with each other',
     'For the lexicographic bit-set wrapper, equality, the partial order and the total order always agree, and comparing in the opposite direction gives the opposite answer. Bits are compared from the first to the last, the first difference deciding.',
     ['inputs'], 'every pair of bit sets', 'The tests compare a few pairs.',
     ['src/utils.rs'], [('Ord, PartialOrd, PartialEq', 'LexBitSet')], ['cmp'])
prop('C30', 'Matrix reads and writes address the same cell',
     'Reading and writing a matrix cell use the same position, which is within the storage for every valid index (row below n, column below m), and distinct valid indices never share a position. Row and column iteration, where provided, visit exactly the cells of that row or column.',
     ['inputs'], 'every dimension and index', 'The tests do not use the matrix.',
     ['src/utils.rs'], [('Index / IndexMut', 'Matrix')], ['index'])
prop('C31', 'Merging redirects every incoming edge with its relaxed cost',
     'When nodes are merged, the merged state is obtained from the user relaxation applied to the states of exactly the nodes that are removed, and every edge entering a removed node is re-created towards the merged node with the cost given by the user relaxation for that source, removed state, merged state, decision and original cost. The merged node is flagged as relaxed, takes the best value among its incoming edges, is part of the layer, and no node outside the merged group is removed.',
     ['inputs'], 'every merge in every relaxed diagram', NODD,
     D, [('merging', 'relax')], ['compile'])
prop('C32', 'Local bounds are longest paths to the end of the diagram',
     'After a relaxed compilation that reached the last layer and is not exact, terminal nodes have local bound zero and every other node from which the end can be reached has as local bound at least the largest, over all its outgoing edges, of the edge cost plus the child\'s local bound. Every such node is marked as able to reach the end, and a node passes its bound to its parents only once all its own children have been taken into account.',
     ['inputs'], 'every inexact relaxed diagram', NODD,
     D, [('backward pass', 'compute_local_bounds, compute_local_bounds_and_theta')], ['drain_cutset'])
prop('C33', 'Expansion skips only nodes that cannot beat the incumbent',
     'During compilation every node kept in a layer is expanded with every decision of its domain for the variable chosen for that layer, unless its value plus the problem\'s rough bound for its state does not exceed the lower bound given with the input. The compilation ends only when the problem has no more variable to assign or the layer is empty; a problem that gives no rough bound is never pruned by one.',
     ['inputs'], 'every node of every diagram', NODD,
     D + ['src/prelude.rs'], [('layer expansion', '_compile')], ['compile'])
prop('C34', 'Merging example states takes every merged state into account',
     'In the three bundled problems, merging folds every merged state: what must be done is what all of them must do, what may be done is what some must or may do less that, positions are pooled, and times, deadlines and cuts become the extremes that favour no merged state over another (earliest and smallest, latest for the latest time). The merged state stays at the stage of the states merged and remembers no last item; the relaxed cost of an edge is never lower than its cost.',
     ['inputs'], 'every non-empty group of states of one layer', 'The tests never merge example states.',
     ['examples/psp/psp.rs', 'examples/srflp/relax.rs', 'examples/tsptw/relax.rs'], [('merge', 'Relaxation impls')], ['merge'])
prop('C35', 'Example transitions advance the state by exactly one decision',
     'In the three bundled problems the search starts at the first stage, every transition leads exactly one stage further and takes exactly the decided element out of what must and may still be done (an order produced moves its item to its previous deadline and becomes the last item; idling changes nothing else), and the next variable is that of the stage, none exactly after the last one. Every decision offered is for the variable asked for and an element of what must or may still be done (or the return to the depot at the last stage, or idling, exactly when less remains to be done than there are stages left).',
     ['inputs'], 'every state and decision', 'The tests never use the example problems.',
     ['examples/psp/psp.rs', 'examples/srflp/model.rs', 'examples/tsptw/model.rs'], [('Problem impls', 'transition, next_variable, initial_state, for_each_in_domain')], ['transition'])
prop('C36', 'Reported exploration counts are exact',
     'The number of explored subproblems a solver reports is the number of subproblems its workers took for processing, each counted once. The number of diagram nodes it reports is the sum, over all diagrams its workers compiled (restricted and relaxed ones), of the nodes each of them expanded. A diagram counts every node it expands once, and starts from zero in each compilation.',
     ['inputs', 'schedules'], 'every problem, every interleaving of the workers', NOSOLV,
     S + D, [('subproblem counter', 'get_workload'), ('node counter', 'process_one_node, notify_node_finished, _compile')], ['get_explored', 'get_explored_dd'])
prop('C40', 'The returned solution is globally optimal',
     'When the search ends without interruption, the reported best value equals the optimum of the problem over all complete assignments, for every problem whose relaxation and rough bounds are admissible.',
     ['inputs', 'schedules'], 'every problem', NOSOLV, S + D, [('whole system', 'all')], ['best_value'])
prop('C41', 'Bounds and relaxations of the bundled problems are admissible',
     'For the three bundled problems, the rough upper bound of a state is at least the value of its best completion, and the relaxed cost of merged edges never underestimates any solution.',
     ['inputs'], 'every state', 'The tests never use the example problems.',
     ['examples/psp/psp.rs', 'examples/srflp/model.rs', 'examples/tsptw/model.rs', 'examples/tsptw/relax.rs'], [('estimate', 'Problem impls')], ['estimate'])
prop('C42', 'Iterating over a bit set yields exactly its elements in order',
     'Iterating over a bit set yields each of its elements once, in increasing order, and nothing else.',
     ['inputs'], 'every bit set', 'The tests use a few sets.', ['src/utils.rs'], [('BitSetIter', 'next')], ['next'])
prop('C43', 'Instance files are read faithfully',
     'The parsers of the bundled problems build exactly the instance described by the file and reject malformed files.',
     ['inputs'], 'every file', 'The tests never parse instances.',
     ['examples/psp/psp.rs', 'examples/srflp/instance.rs', 'examples/tsptw/instance.rs'], [('parsers', 'TryFrom / From')], ['parse'])
P.sort(key=lambda p: p['id'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
