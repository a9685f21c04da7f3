"""Renamings of private fields, types, variants and functions: every check has to stay quiet."""
P, B = 'src/solver/parallel.rs', 'src/solver/barrier.rs'
A, M = 'src/mdd/with_all.rs', 'src/mdd/with_barrier.rs'
F, U = 'src/frontier/no_dup.rs', 'src/utils.rs'


def ren(f, *pairs):
    return [(f, a, b) for a, b in pairs]


EDITS = [
    ('lb and ongoing', None, ren(B, ('critical.best_lb', 'critical.incumbent'), ('shared.best_lb', 'shared.incumbent'), ('lock().best_lb', 'lock().incumbent'), ('    best_lb: isize,', '    incumbent: isize,'), ('best_lb: isize::MIN', 'incumbent: isize::MIN'),
                                 ('critical.ongoing ', 'critical.busy '), ('    ongoing: usize', '    busy: usize'), ('ongoing: 0', 'busy: 0'))),
    ('ub and flags', None, ren(P, ('upper_bounds', 'published'), ('interrupted', 'stopped'), ('best_sol:', 'found:'), ('.best_sol.', '.found.'), ('.best_sol ', '.found '), ('fringe', 'open'))),
    ('layers', None, ren(B, ('ongoing_by_layer', 'busy_in'), ('open_by_layer', 'open_in'), ('lowest_active_layer', 'first_layer'))),
    ('workload', None, ren(B, ('WorkItem', 'Job'), ('Starvation', 'Retry'), ('WorkLoad', 'Task'), ('get_workload', 'next_task'), ('notify_node_finished', 'done'), ('process_one_node', 'solve_one'))),
    ('shared types', None, ren(B, ('Critical', 'Guarded'), ('Shared', 'Common'), ('critical:', 'guarded:'), ('shared.critical', 'shared.guarded'))),
    ('node fields', None, ren(A, ('value_bot', 'local_bound'), ('.inbound', '.incoming'), ('inbound:', 'incoming:'), ('.best_n', '.best_node'), ('best_n:', 'best_node:'), ('next_l', 'coming'))),
    ('node types', None, ren(M, ('NodeId', 'Ident'), ('EdgeId', 'Link'), ('lel_depth', 'cut_depth'))),
    ('frontier', None, ren(F, ('recycle_bin', 'free'), ('BubbleUp', 'Up'), ('Action', 'Repair'), ('self.nodes', 'self.items'), (' nodes:', ' items:'))),
    ('bits', None, ren(U, ('offset', 'at'), ('base', 'first'))),
]
