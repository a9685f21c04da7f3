"""More behaviour-preserving rewritings of larger extent: merging, construction, getters, extraction of the cutset."""
P, B = 'src/solver/parallel.rs', 'src/solver/barrier.rs'
A, M = 'src/mdd/with_all.rs', 'src/mdd/with_barrier.rs'
TABLE = '''        let mut barriers = vec![];
        for _ in 0..=problem.nb_variables() {
            barriers.push(RwLock::new(Default::default()));
        }
'''
EDGES = '''            let mut edge_id = self.nodes[drop_id.0].inbound;
            while let Some(eid) = edge_id {
                let edge = self.edges[eid.0];
                let src = self.nodes[edge.from.0].state.as_ref();

                let rcost = input
                    .relaxation
                    .relax(src, self.nodes[drop_id.0].state.as_ref(), merged.as_ref(), edge.decision, edge.cost);

                let new_eid = EdgeId(self.edges.len());
                let new_edge = Edge {
                    //my_id: new_eid,
                    from: edge.from,
                    //to   : merged_id,
                    decision: edge.decision,
                    cost: rcost,
                    next: self.nodes[merged_id.0].inbound,
                };
                self.edges.push(new_edge);
                self.nodes[merged_id.0].inbound = Some(new_eid);

                let new_value = self.nodes[edge.from.0].value.saturating_add(rcost);
                if new_value >= self.nodes[merged_id.0].value {
                    self.nodes[merged_id.0].best = Some(new_eid);
                    self.nodes[merged_id.0].value = new_value;
                }

                edge_id = edge.next;
            }
'''
HELPER = '''    fn redirect(&mut self, edge: Edge, to: NodeId, cost: isize) {
        let id = EdgeId(self.edges.len());
        let value = self.nodes[edge.from.0].value.saturating_add(cost);
        let target = &mut self.nodes[to.0];
        self.edges.push(Edge { cost, next: target.inbound.replace(id), ..edge });
        if value >= target.value {
            target.value = value;
            target.best = Some(id);
        }
    }

    fn compute_local_bounds_and_theta('''
RECYCLED = 'let recycled = keep.iter().find(|node_id| self.nodes[node_id.0].state.eq(&merged)).map(|node_id| *node_id);'
TAIL = '''        if recycled.is_some() {
            curr_l.truncate(input.max_width);
            let saved_id = curr_l[input.max_width - 1];
            self.nodes[saved_id.0].flags.set_deleted(false);
        } else {
            curr_l.truncate(input.max_width - 1);
            curr_l.push(merged_id);
        }
'''
DRAIN = '''                    let rub = node.value.saturating_add(node.rub);
                    let locb = node.value.saturating_add(node.value_bot);
                    let ub = rub.min(locb).min(best_value);
'''
BV = '''        let critical = self.shared.critical.lock();
        critical.best_sol.as_ref().map(|_sol| critical.best_lb)
'''
PATH = '''        let mut sol = root_pa.to_owned();
        let mut edge_id = nodes[id.0].best;
        while let Some(eid) = edge_id {
            let edge = edges[eid.0];
            sol.push(edge.decision);
            edge_id = nodes[edge.from.0].best;
        }
        sol
'''
UPDATE = '''        let update = self.barriers[depth].read().get(&state).map_or(true, |info| {
            if theta > info.theta || (theta == info.theta && !info.explored && explored) {
                true
            } else {
                false
            }
        });
'''
EDITS = [
    ('table collect', None, [(B, TABLE, '        let barriers: Vec<_> = (0..=problem.nb_variables()).map(|_| RwLock::new(Default::default())).collect();\n')]),
    ('table resize', None, [(B, TABLE, '        let mut barriers = Vec::with_capacity(problem.nb_variables() + 1);\n        barriers.resize_with(problem.nb_variables() + 1, || RwLock::new(FxHashMap::default()));\n')]),
    ('table repeat', None, [(B, TABLE, '        let barriers: Vec<_> = std::iter::repeat_with(|| RwLock::new(Default::default())).take(problem.nb_variables() + 1).collect();\n')]),
    ('table while', None, [(B, TABLE, '        let layers = problem.nb_variables() + 1;\n        let mut barriers = vec![];\n        while barriers.len() < layers {\n            barriers.push(RwLock::new(Default::default()));\n        }\n')]),
    ('counter local', None, [(B, 'open_by_layer: vec![0; problem.nb_variables()+1]', 'open_by_layer: vec![0; barriers.len()]'), (B, 'ongoing_by_layer: vec![0; problem.nb_variables()+1]', 'ongoing_by_layer: vec![0; barriers.len()]')]),
    ('redirect', None, [(M, EDGES, '''            let mut edge_id = self.nodes[drop_id.0].inbound;
            while let Some(eid) = edge_id {
                let edge = self.edges[eid.0];
                edge_id = edge.next;

                let (from, to) = (&self.nodes[edge.from.0].state, &self.nodes[drop_id.0].state);
                let rcost = input.relaxation.relax(from, to, &merged, edge.decision, edge.cost);
                self.redirect(edge, merged_id, rcost);
            }
'''), (M, '    fn compute_local_bounds_and_theta(', HELPER)]),
    ('recycled copied', None, [(M, RECYCLED, 'let recycled = keep.iter().copied().find(|id| self.nodes[id.0].state == merged);')]),
    ('recycled position', None, [(M, RECYCLED, 'let recycled = keep.iter().position(|id| *self.nodes[id.0].state == *merged).map(|at| keep[at]);')]),
    ('recycled loop', None, [(M, RECYCLED, 'let mut recycled = None;\n        for id in keep.iter() {\n            if self.nodes[id.0].state.eq(&merged) {\n                recycled = Some(*id);\n                break;\n            }\n        }')]),
    ('tail match', None, [(M, TAIL, '''        match recycled {
            None => {
                curr_l.truncate(input.max_width - 1);
                curr_l.push(merged_id);
            }
            Some(_) => {
                curr_l.truncate(input.max_width);
                if let Some(saved) = curr_l.last() {
                    self.nodes[saved.0].flags.set_deleted(false);
                }
            }
        }
''')]),
    ('tail pop', None,  # accepted alarm, see DESIGN 5
      [(M, TAIL, '''        curr_l.truncate(input.max_width);
        if recycled.is_none() {
            let _ = curr_l.pop();
            curr_l.push(merged_id);
        } else {
            let saved_id = curr_l[curr_l.len() - 1];
            self.nodes[saved_id.0].flags.set_deleted(false);
        }
''')]),
    ('tail assign', None, [(M, TAIL, '''        let last = input.max_width - 1;
        curr_l.truncate(input.max_width);
        if recycled.is_none() {
            curr_l[last] = merged_id;
        } else {
            self.nodes[curr_l[last].0].flags.set_deleted(false);
        }
''')]),
    ('drain array', None, [(M, DRAIN, '                    let above = |below: isize| node.value.saturating_add(below);\n                    let ub = above(node.rub).min(above(node.value_bot)).min(best_value);\n')]),
    ('drain shared', None, [(A, DRAIN, '                    let below = node.rub.min(node.value_bot);\n                    let ub = std::cmp::min(best_value, node.value.saturating_add(below));\n')]),
    ('value if', None, [(B, BV, '        let critical = self.shared.critical.lock();\n        if critical.best_sol.is_none() {\n            return None;\n        }\n        Some(critical.best_lb)\n')]),
    ('value then', None, [(B, BV, '        let critical = self.shared.critical.lock();\n        critical.best_sol.is_some().then_some(critical.best_lb)\n')]),
    ('value and', None, [(B, BV, '        let critical = &*self.shared.critical.lock();\n        let Critical { best_sol, best_lb, .. } = critical;\n        best_sol.as_ref().and(Some(*best_lb))\n')]),
    ('path edge cursor', None, [(M, PATH, '''        let mut sol = Vec::with_capacity(root_pa.len());
        sol.extend_from_slice(root_pa);
        let mut at = id;
        loop {
            match nodes[at.0].best {
                Some(eid) => {
                    let Edge { from, decision, .. } = edges[eid.0];
                    sol.push(decision);
                    at = from;
                }
                None => return sol,
            }
        }
''')]),
    ('update match', None, [(M, UPDATE, '''        let known = self.barriers[depth].read().get(&state).map(|info| (info.theta, info.explored));
        let update = match known {
            Some((t, e)) => (theta, explored) > (t, e),
            None => true,
        };
''')]),
    ('update cmp', None, [(M, UPDATE, '''        let update = match self.barriers[depth].read().get(&state) {
            None => true,
            Some(info) => match theta.cmp(&info.theta) {
                std::cmp::Ordering::Greater => true,
                std::cmp::Ordering::Equal => explored & !info.explored,
                std::cmp::Ordering::Less => false,
            },
        };
''')]),
    ('root method', None, [(M, '        self.nodes.push(root_n);\n        self.next_l.insert(root_s, NodeId(0));\n', '        let root_id = NodeId(self.nodes.len());\n        self.nodes.push(root_n);\n        let _ = self.next_l.insert(root_s, root_id);\n')]),
    ('exact iter', None, [(M, '''        if let Some(node_id) = node {
            let n = &self.nodes[node_id.0];
            if n.flags.is_exact() {
                true
            } else {
                !n.flags.is_relaxed()
                    && self.has_exact_best_path(n.best.map(|e| self.edges[e.0].from))
            }
        } else {
            true
        }
''', '''        let mut at = node;
        while let Some(id) = at {
            let Node { flags, best, .. } = &self.nodes[id.0];
            if flags.is_exact() {
                break;
            }
            if flags.is_relaxed() {
                return false;
            }
            at = best.map(|e| self.edges[e.0].from);
        }
        true
''')]),
]
