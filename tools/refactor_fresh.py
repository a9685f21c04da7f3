"""Behaviour-preserving rewritings of larger extent: constructors, accessors, methods on the shared data, assertions."""
P, B = 'src/solver/parallel.rs', 'src/solver/barrier.rs'
A, M = 'src/mdd/with_all.rs', 'src/mdd/with_barrier.rs'
NEWNODE_M = '''                self.nodes.push(Node {
                    //my_id  : node_id,
                    state: next_state,
                    value: self.nodes[from_id.0].value.saturating_add(cost),
                    best: Some(edge_id),
                    inbound: Some(edge_id),
                    //
                    depth: self.nodes[from_id.0].depth + 1,
                    //
                    value_bot: isize::MIN,
                    theta: isize::MAX,
                    //
                    rub: isize::MAX,
                    flags: self.nodes[from_id.0].flags,
                });
'''
MERGED_M = '''            self.nodes.push(Node {
                //my_id  : node_id,
                state: merged.clone(),
                value: isize::MIN,
                best: None,    // yet
                inbound: None, // yet
                //
                depth: self.nodes[merge[0].0].depth,
                //
                value_bot: isize::MIN,
                theta: isize::MAX,
                //
                rub: isize::MAX,
                flags: NodeFlags::new_relaxed(),
            });
'''
CTOR = '''impl<T> Node<T> {
    fn fresh(state: Arc<T>, value: isize, depth: usize, flags: NodeFlags) -> Self {
        Node { state, value, depth, flags, best: None, inbound: None, value_bot: isize::MIN, theta: isize::MAX, rub: isize::MAX }
    }
    fn via(mut self, edge: EdgeId) -> Self {
        self.best = Some(edge);
        self.inbound = self.best;
        self
    }
}

#[derive(Debug, Clone, Copy)]
struct Edge {'''
EDGE_PUSH = '''                self.edges.push(Edge {
                    //my_id: edge_id,
                    from: from_id,
                    //to   : node_id,
                    decision,
                    cost,
                    next: %s,
                });
'''
NOTIFY_B = '''        let mut critical = shared.critical.lock();
        critical.ongoing -= 1;
        critical.upper_bounds[thread_id] = isize::MAX;
        critical.ongoing_by_layer[depth] -= 1;
        critical.explored_dd += explored_dd;

        shared.monitor.notify_all();
'''
TAKE_B = '''        critical.ongoing += 1;
        critical.explored += 1;
        critical.upper_bounds[thread_id] = nn.ub;

        let depth = nn.path.len();
        critical.open_by_layer[depth] -= 1;
        critical.ongoing_by_layer[depth] += 1;
'''
CRIT_B = '''impl<'a, O> Critical<'a, O>
where
    O: StateRanking,
    O::State: Eq + Hash + Clone,
{
    fn take(&mut self, thread_id: usize, depth: usize, ub: isize) {
        self.ongoing += 1;
        self.explored += 1;
        self.upper_bounds[thread_id] = ub;
        self.open_by_layer[depth] -= 1;
        self.ongoing_by_layer[depth] += 1;
    }
    fn release(&mut self, thread_id: usize, depth: usize) {
        self.ongoing_by_layer[depth] -= 1;
        self.upper_bounds[thread_id] = isize::MAX;
        self.ongoing -= 1;
    }
    fn add(&mut self, node: SubProblem<O::State>) {
        let depth = node.path.len();
        self.open_by_layer[depth] += 1;
        self.fringe.push(node);
    }
    fn discard_all(&mut self) {
        self.fringe.clear();
        for o in &mut self.open_by_layer {
            *o = 0;
        }
    }
    fn done(&self) -> bool {
        !(self.interrupted || self.ongoing > 0 || !self.fringe.is_empty())
    }
}

pub struct BarrierParallelSolver<'a, P, R, O, W>
where'''
SH_P = '''impl<'a, P, R, O, W, F> Shared<'a, P, R, O, W, F>
where'''
ONG = '''            let ongoing_ub = if critical.ongoing > 0 {
                critical
                    .upper_bounds
                    .iter()
                    .copied()
                    .filter(|x| *x != isize::MAX)
                    .max()
                    .unwrap_or(isize::MAX)
            } else {
                isize::MIN
            };
'''
GUARD = '''        if self.cutset_type == CutsetType::LastExactLayer && self.lel_depth.is_some() && depth > self.lel_depth.unwrap() {
            return;
        }
'''
EDITS = [
    ('node ctor', None, [(M, '#[derive(Debug, Clone, Copy)]\nstruct Edge {', CTOR), (M, NEWNODE_M, '                let parent = &self.nodes[from_id.0];\n                let child = Node::fresh(next_state, parent.value.saturating_add(cost), parent.depth + 1, parent.flags).via(edge_id);\n                self.nodes.push(child);\n'), (M, MERGED_M, '            let depth = self.nodes[merge[0].0].depth;\n            self.nodes.push(Node::fresh(merged.clone(), isize::MIN, depth, NodeFlags::new_relaxed()));\n')]),
    ('edge method', None, [(M, EDGE_PUSH % 'None', '                self.new_edge(from_id, decision, cost, None);\n'), (M, EDGE_PUSH % 'node.inbound', '                let _ = node;\n                let next = self.nodes[node_id.0].inbound;\n                let edge_id = { let _ = edge_id; self.new_edge(from_id, decision, cost, next) };\n                let node = &mut self.nodes[node_id.0];\n'),
        (M, '    fn restrict<P, R, O>(', '    fn new_edge(&mut self, from: NodeId, decision: Decision, cost: isize, next: Option<EdgeId>) -> EdgeId {\n        let id = EdgeId(self.edges.len());\n        self.edges.push(Edge { from, decision, cost, next });\n        id\n    }\n\n    fn restrict<P, R, O>('), (M, '        match self.next_l.entry(next_state.clone()) {\n            Entry::Vacant(e) => {', '        let found = self.next_l.get(&next_state).copied();\n        match found {\n            None => {'), (M, '                e.insert(node_id);\n', '                self.next_l.insert(key, node_id);\n'), (M, '            Entry::Occupied(e) => {\n                let node_id = *e.get();\n', '            Some(node_id) => {\n'), (M, '                let node_id = NodeId(self.nodes.len());\n                let edge_id = EdgeId(self.edges.len());\n\n', '                let key = next_state.clone();\n                let node_id = NodeId(self.nodes.len());\n                let edge_id = EdgeId(self.edges.len());\n\n')]),
    ('clear anew', None, [(M, '''        self.root_pa.clear();
        self.nodes.clear();
        self.edges.clear();
        self.next_l.clear();
        self.cutset.clear();
        self.lel_depth = None;
        self.best_n = None;
        self.exact = true;
        self.approximate = false;
        self.explored = 0;
''', '        *self = Self::new(self.barriers.clone(), self.cutset_type);\n')]),
    ('clear take', None, [(M, '        self.nodes.clear();\n        self.edges.clear();\n', '        let _ = std::mem::take(&mut self.nodes);\n        self.edges.truncate(0);\n        self.prev_l.clear();\n')]),
    ('critical methods', None, [(B, "pub struct BarrierParallelSolver<'a, P, R, O, W>\nwhere", CRIT_B), (B, TAKE_B, '        let depth = nn.path.len();\n        critical.take(thread_id, depth, nn.ub);\n'),
        (B, '        critical.ongoing -= 1;\n        critical.upper_bounds[thread_id] = isize::MAX;\n        critical.ongoing_by_layer[depth] -= 1;\n', '        critical.release(thread_id, depth);\n'),
        (B, '                let depth = cutset_node.path.len();\n                critical.fringe.push(cutset_node);\n                critical.open_by_layer[depth] += 1;\n', '                critical.add(cutset_node);\n'),
        (B, '        critical.fringe.push(root);\n        critical.open_by_layer[0] += 1;\n', '        critical.add(root);\n'),
        (B, '                critical.fringe.clear();\n                critical.open_by_layer.iter_mut().for_each(|o| *o = 0);\n', '                critical.discard_all();\n'),
        (B, 'if !critical.interrupted && critical.ongoing == 0 && critical.fringe.is_empty() {', 'if critical.done() {')]),
    ('asserts', None, [(B, '        critical.ongoing -= 1;\n', '        debug_assert!(critical.ongoing > 0, "a worker finishes what it did not start");\n        critical.ongoing -= 1;\n        debug_assert_ne!(critical.ongoing_by_layer[depth], 0);\n'), (M, '        self.approximate = true;\n        curr_l.sort', '        debug_assert!(curr_l.len() > input.max_width);\n        self.approximate = true;\n        curr_l.sort'), (M, '            let edge_id = edge', '            let edge_id = edge') if False else (M, '    fn try_update_barrier(&mut self, depth: usize, state: Arc<T>, theta: isize, explored: bool)\n    {\n', '    fn try_update_barrier(&mut self, depth: usize, state: Arc<T>, theta: isize, explored: bool)\n    {\n        debug_assert!(depth < self.barriers.len(), "no thresholds for layer {}", depth);\n')]),
    ('asserts P', None, [(P, '        critical.ongoing -= 1;\n', '        assert!(critical.ongoing > 0);\n        critical.ongoing -= 1;\n'), (P, '        critical.ongoing += 1;\n', '        debug_assert_eq!(critical.upper_bounds[thread_id], isize::MAX);\n        critical.ongoing += 1;\n')]),
    ('guard if let', None, [(M, GUARD, '        if let (CutsetType::LastExactLayer, Some(lel)) = (self.cutset_type, self.lel_depth) {\n            if lel < depth {\n                return;\n            }\n        }\n')]),
    ('guard is_some_and', None, [(M, GUARD, '        let below = self.lel_depth.is_some_and(|lel| depth > lel);\n        if below && matches!(self.cutset_type, CutsetType::LastExactLayer) {\n            return;\n        }\n')]),
    ('guard filter', None, [(M, GUARD, '        let limit = self.lel_depth.filter(|_| self.cutset_type == CutsetType::LastExactLayer).unwrap_or(usize::MAX);\n        if depth > limit {\n            return;\n        }\n')]),
    ('node locals', None, [(M, '''            if self.nodes[node_id.0].flags.is_cutset() {
                // set theta for frontier nodes
                let locb = self.nodes[node_id.0].value.saturating_add(self.nodes[node_id.0].value_bot);
                if locb < best_lb {
                    let pruning_theta = best_lb.saturating_sub(self.nodes[node_id.0].value_bot);
                    self.nodes[node_id.0].theta = self.nodes[node_id.0].theta.min(pruning_theta);
                } else {
                    self.nodes[node_id.0].theta = self.nodes[node_id.0].theta.min(self.nodes[node_id.0].value);
                }
            }
''', '''            {
                let node = &mut self.nodes[node_id.0];
                if node.flags.is_cutset() {
                    let Node { value, value_bot, .. } = *node;
                    let pruning = match value.saturating_add(value_bot).cmp(&best_lb) {
                        std::cmp::Ordering::Less => best_lb.saturating_sub(value_bot),
                        _ => value,
                    };
                    if pruning < node.theta {
                        node.theta = pruning;
                    }
                }
            }
''')]),
    ('parent mut', None, [(M, '''                    self.nodes[edge.from.0].value_bot = self.nodes[edge.from.0]
                        .value_bot
                        .max(lp_from_bot_using_edge);
                    
                    self.nodes[edge.from.0].flags.set_marked(true);
''', '''                    let parent = &mut self.nodes[edge.from.0];
                    if lp_from_bot_using_edge >= parent.value_bot {
                        parent.value_bot = lp_from_bot_using_edge;
                    }
                    parent.flags.set_marked(true);
''')]),
    ('accessors', None, [(M, 'self.nodes[node_id.0].flags.is_', 'self.flags(node_id).is_'), (M, '            for node_id in curr_l.iter() {', '            for &node_id in curr_l.iter() {'), (M, 'self.branch_on(*node_id, decision', 'self.branch_on(node_id, decision'),
        (M, '                curr_l.retain_mut(|node_id| {', '                curr_l.retain_mut(|&mut node_id| {'), (M, '        for node_id in self.next_l.values() {', '        let last: Vec<NodeId> = self.next_l.values().copied().collect();\n        for node_id in last {'), (M, 'self.cutset.push(*node_id);', 'self.cutset.push(node_id);'),
        (M, '    fn _best_value(&self)', '    fn flags(&self, id: NodeId) -> NodeFlags {\n        self.nodes[id.0].flags\n    }\n\n    fn _best_value(&self)')]),
    ('worker struct', None, [(P, '''                let shared = &self.shared;
                s.spawn(move || {
                    let mut mdd = All::<P::State>::new(shared.cutset_type);
                    loop {
                        match Self::get_workload(shared, i, || false) {''', '''                let worker = (i, &self.shared);
                s.spawn(move || {
                    let (i, shared) = worker;
                    let mut mdd = All::<P::State>::new(shared.cutset_type);
                    'work: loop {
                        match Self::get_workload(shared, i, || false) {''')]),
    ('sum dd', None, [(P, '''        mdd.compile(&compilation);
        explored_dd += mdd.get_explored();
        Self::maybe_update_best(mdd, shared);
        if mdd.is_exact() {
            return explored_dd;
        }
''', '''        mdd.compile(&compilation);
        let restricted_dd = mdd.get_explored();
        Self::maybe_update_best(mdd, shared);
        if mdd.is_exact() {
            return restricted_dd;
        }
'''), (P, '''        explored_dd += mdd.get_explored();
        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared);
        } else {''', '''        explored_dd += restricted_dd + mdd.get_explored();
        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared);
        } else {''')]),
    ('ongoing loop', None, [(B, ONG, '''            let mut ongoing_ub = isize::MIN;
            for &ub in critical.upper_bounds.iter() {
                if ub != isize::MAX && ub > ongoing_ub {
                    ongoing_ub = ub;
                }
            }
            if critical.ongoing > 0 && critical.upper_bounds.iter().all(|u| *u == isize::MAX) {
                ongoing_ub = isize::MAX;
            }
''')]),
    ('ongoing match', None, [(B, ONG, '''            let ongoing_ub = match critical.ongoing {
                0 => isize::MIN,
                _ => critical.upper_bounds.iter().filter(|x| **x < isize::MAX).max().copied().unwrap_or(isize::MAX),
            };
''')]),
    ('ongoing fold', None, [(P, ONG, '''            let ongoing_ub = if critical.ongoing == 0 {
                isize::MIN
            } else {
                let known = critical.upper_bounds.iter().copied().filter(|x| *x != isize::MAX).reduce(isize::max);
                match known {
                    Some(ub) => ub,
                    None => isize::MAX,
                }
            };
''')]),
    ('best sol replace', None, [(P, '            shared.best_sol = mdd.best_solution();\n', '            let _ = std::mem::replace(&mut shared.best_sol, mdd.best_solution());\n')]),
    ('best if let', None, [(B, '''        let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        if dd_best_value > shared.best_lb {
            shared.best_lb = dd_best_value;
            shared.best_sol = mdd.best_solution();
        }
''', '''        match mdd.best_value() {
            Some(value) if value > shared.best_lb => {
                let solution = mdd.best_solution();
                let incumbent = &mut *shared;
                incumbent.best_lb = value;
                incumbent.best_sol = solution;
            }
            _ => (),
        }
''')]),
    ('max_by fold', None, [(A, '.max_by_key(|id| self.nodes[id.0].value);', '.fold(None, |best: Option<NodeId>, id| match best {\n                Some(b) if self.nodes[b.0].value > self.nodes[id.0].value => Some(b),\n                _ => Some(id),\n            });')]),
    ('max_by cmp', None, [(M, '.max_by_key(|id| self.nodes[id.0].value);', '.max_by(|a, b| self.nodes[a.0].value.cmp(&self.nodes[b.0].value));')]),
    ('max_by reduce', None, [(M, '.max_by_key(|id| self.nodes[id.0].value);', '.reduce(|a, b| if self.nodes[b.0].value > self.nodes[a.0].value { b } else { a });')]),
    ('occ cmp', None, [(M, 'if value > node.value || (value == node.value && flags.is_exact()) {', 'let better = match value.cmp(&node.value) {\n                    std::cmp::Ordering::Less => false,\n                    std::cmp::Ordering::Equal => flags.is_exact(),\n                    std::cmp::Ordering::Greater => true,\n                };\n                if better {')]),
    ('occ tuple', None, [(M, 'if value > node.value || (value == node.value && flags.is_exact()) {', 'if (value, flags.is_exact()) > (node.value, false) {')]),
    ('prev mem', None, [(M, '            self.prev_l.clear();\n            for node_id in curr_l.drain(..) {\n                self.prev_l.push(node_id);\n            }\n', '            self.prev_l = std::mem::take(&mut curr_l);\n')]),
    ('loop label', None, [(M, 'while let Some(var) = input.problem.next_variable(&mut self.next_l.keys().map(|s| s.as_ref())) {\n', "'layers: loop {\n            let next = input.problem.next_variable(&mut self.next_l.keys().map(|s| s.as_ref()));\n            let var = match next {\n                Some(var) => var,\n                None => break 'layers,\n            };\n")]),
    ('visit guard', None, [(M, 'if ub > input.best_lb {\n', 'let promising = ub > input.best_lb;\n                if promising {\n')]),
    ('width local', None, [(M, '            match input.comp_type {\n                CompilationType::Exact => { /* do nothing: you want to explore the complete DD */ }\n                CompilationType::Restricted => {\n                    if curr_l.len() > input.max_width {\n                        self.restrict(input, &mut curr_l)\n                    }\n                }\n                CompilationType::Relaxed => {\n                    if curr_l.len() > input.max_width && depth > root_depth + 1 {\n                        self.relax(input, &mut curr_l)\n                    }\n                }\n            }\n', '            let too_wide = curr_l.len() > input.max_width;\n            match (input.comp_type, too_wide) {\n                (CompilationType::Restricted, true) => self.restrict(input, &mut curr_l),\n                (CompilationType::Relaxed, true) if depth - root_depth >= 2 => self.relax(input, &mut curr_l),\n                _ => (),\n            }\n')]),
    ('compile if', None, [(A, '        if matches!(input.comp_type, CompilationType::Relaxed) {\n            self.compute_local_bounds', '        if let CompilationType::Relaxed = input.comp_type {\n            self.compute_local_bounds')]),
]
