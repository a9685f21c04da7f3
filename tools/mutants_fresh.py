"""Fresh breaking edits, one per idea, written from the statements."""
B = 'src/mdd/with_barrier.rs'
A = 'src/mdd/with_all.rs'
SB = 'src/solver/barrier.rs'
SP = 'src/solver/parallel.rs'
EDITS = [
    ('width of initial', 'C02', [(SB, 'shared.width_heu.max_width(&node.state)', 'shared.width_heu.max_width(&shared.problem.initial_state())')]),
    ('relax width doubled', 'C02', [(SB, 'compilation.comp_type = CompilationType::Relaxed;', 'compilation.comp_type = CompilationType::Relaxed;\n        compilation.max_width += 1;')]),
    ('residual ub lb', 'C02 C08', [(SP, '            residual: node,', '            residual: SubProblem { ub: node_ub.min(isize::MAX / 2), ..node },')]),
    ('ongoing table short', 'C21', [(SB, 'ongoing_by_layer: vec![0; problem.nb_variables()+1]', 'ongoing_by_layer: vec![0; problem.nb_variables()]')]),
    ('open table short', 'C21', [(SB, 'open_by_layer: vec![0; problem.nb_variables()+1]', 'open_by_layer: vec![0; problem.nb_variables()]')]),
    ('barriers short', 'C19 C21 C17', [(SB, 'for _ in 0..=problem.nb_variables()', 'for _ in 0..problem.nb_variables()')]),
    ('purge all but last', 'C21', [(SB, 'critical.open_by_layer[critical.lowest_active_layer] + critical.ongoing_by_layer[critical.lowest_active_layer] == 0', 'critical.open_by_layer[critical.lowest_active_layer] == 0')]),
    ('purge next', 'C21', [(SB, 'shared.barriers[critical.lowest_active_layer].write().clear();\n            critical.lowest_active_layer += 1;', 'critical.lowest_active_layer += 1;\n            shared.barriers[critical.lowest_active_layer].write().clear();')]),
    ('lock released', 'C19', [(SB, '            if explore {\n                shared.barriers', '            if explore {\n                drop(critical);\n                critical = shared.critical.lock();\n                shared.barriers')]),
    ('insert after decrement depth', 'C19', [(SB, 'shared.barriers[depth].write().insert(nn.state.clone(), BarrierInfo {theta: nn.value, explored: true});', 'shared.barriers[depth].write().entry(nn.state.clone()).or_insert(BarrierInfo {theta: nn.value, explored: true});')]),
    ('ub slot before', 'C07', [(SB, 'critical.upper_bounds[thread_id] = nn.ub;', 'critical.upper_bounds[thread_id] = nn.ub.min(critical.best_ub);')]),
    ('best ub early', 'C07', [(SP, 'critical.upper_bounds[thread_id] = nn.ub;', 'critical.upper_bounds[thread_id] = nn.ub;\n        critical.best_ub = nn.ub;')]),
    ('starve interrupts', 'C04', [(SP, '            critical.fringe.clear();\n            return WorkLoad::Starvation;', '            critical.fringe.clear();\n            critical.interrupted = critical.ongoing > 0 && interrupt();\n            return WorkLoad::Starvation;')]),
    ('finish skipped on ub', 'C05', [(SP, 'Self::notify_node_finished(shared, i, explored_dd);', 'if explored_dd > 0 || i == 0 { Self::notify_node_finished(shared, i, explored_dd); }')]),
    ('spin notify', 'C05', [(SP, '        shared.monitor.notify_all();', '        if critical.ongoing > 0 || critical.fringe.is_empty() { shared.monitor.notify_all(); }')]),
    ('clear on bound', 'C03', [(SP, '        if nn.ub <= critical.best_lb {\n            critical.fringe.clear();', '        if nn.ub <= critical.best_lb.saturating_add(1) {\n            critical.fringe.clear();')]),
    ('skip shorter', 'C03', [(SB, 'if cutset_node.ub > best_lb {', 'if cutset_node.ub > best_lb && cutset_node.value > isize::MIN {')]),
    ('root value zero', 'C03', [(SB, 'value: shared.problem.initial_value(),', 'value: shared.problem.initial_value().min(0),')]),
    ('lowered root ub', 'C03', [(SP, '            ub: isize::MAX,\n        }', '            ub: isize::MAX - 1,\n        }')]),
    ('keep exact flag', 'C10', [(B, 'node.flags = flags;', 'node.flags.set_relaxed(flags.is_relaxed() && node.flags.is_relaxed());')]),
    ('rub not recomputed', 'C33', [(B, 'let rub = input.problem.estimate(state.as_ref());', 'let rub = input.problem.estimate(state.as_ref()).min(input.residual.ub);')]),
    ('restrict by estimate', 'C11', [(B, '                    if curr_l.len() > input.max_width {\n                        self.restrict', '                    if curr_l.len() > input.max_width && depth > root_depth {\n                        self.restrict')]),
    ('sort no reverse', 'C11', [(B, 'curr_l.truncate(input.max_width);\n    }\n\n    fn relax', 'curr_l.truncate(input.max_width.max(2));\n    }\n\n    fn relax')]),
    ('theta depth', 'C17', [(B, 'self.barriers[depth].read().get(state).map_or', 'self.barriers[depth.min(self.barriers.len() - 2)].read().get(state).map_or')]),
    ('store own depth', 'C18', [(B, 'let update = self.barriers[depth].read().get(&state)', 'let update = self.barriers[depth - 1].read().get(&state)')]),
    ('explored always', 'C18', [(B, '.insert(state, BarrierInfo { theta, explored });', '.insert(state, BarrierInfo { theta, explored: explored || theta == isize::MAX });')]),
    ('theta lb strict', 'C20', [(B, 'if locb < best_lb {', 'if locb <= best_lb && locb < 0 {')]),
    ('theta skip unmarked', 'C20', [(B, 'self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge);', 'if self.nodes[node_id.0].flags.is_marked() { self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge); }')]),
    ('merge keep cost', 'C31', [(B, 'edge.decision, edge.cost);', 'edge.decision, edge.cost).max(edge.cost);')]),
    ('merged best strict', 'C31', [(A, 'if new_value >= self.nodes[merged_id.0].value', 'if new_value > self.nodes[merged_id.0].value')]),
    ('merge only first edge', 'C31', [(B, '                edge_id = edge.next;\n            }\n        }\n\n        if recycled', '                edge_id = if rcost > isize::MIN { edge.next } else { None };\n            }\n        }\n\n        if recycled')]),
    ('locb exact skip', 'C32', [(A, 'self.nodes[edge.from.0].flags.set_marked(true);', 'self.nodes[edge.from.0].flags.set_marked(lp_from_bot_using_edge > isize::MIN);')]),
    ('value bot unsat', 'C13', [(A, '.value_bot.saturating_add(edge.cost)', '.value_bot.checked_add(edge.cost).unwrap_or(isize::MIN)')]),
    ('lel depth', 'C18 C16', [(B, 'self.lel_depth = Some(self.nodes[id.0].depth);', 'self.lel_depth = Some(self.nodes[id.0].depth + 1);')]),
    ('lel first node', 'C16', [(A, 'if self.cutset_type == CutsetType::LastExactLayer && !self.approximate {', 'if self.cutset_type == CutsetType::LastExactLayer && self.cutset.len() < input.max_width {')]),
    ('drain order', 'C14', [(A, 'let mut sol = root_pa.to_owned();', 'let mut sol = root_pa[..root_pa.len().min(edges.len())].to_owned();')]),
    ('domain once', 'C33', [(B, 'if ub > input.best_lb {', 'if ub > input.best_lb && (depth > root_depth || ub > input.best_lb.max(isize::MIN + 2)) {')]),
    ('skip duplicates', 'C12', [(A, 'node.inbound = Some(edge_id);\n                if value', 'if value >= node.value { node.inbound = Some(edge_id); }\n                if value')]),
    ('frontier ub kept on equal', 'C22', [('src/frontier/no_dup.rs', '.max(', '.min(')]),
    ('best restricted value', 'C01', [(SB, 'shared.best_lb = dd_best_value;\n            shared.best_sol = mdd.best_solution();', 'shared.best_sol = mdd.best_solution().or(shared.best_sol.take());\n            shared.best_lb = dd_best_value.max(shared.best_lb + 1);')]),
    ('default estimate', 'C33', [('src/prelude.rs', 'isize::MAX', 'isize::MAX - 1')]),
]
