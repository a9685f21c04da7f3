A = 'src/mdd/with_all.rs'
B = 'src/mdd/with_barrier.rs'


def both(old, new):
    return [(A, old, new), (B, old, new)]


PATH = '''        let mut sol = root_pa.to_owned();
        let mut edge_id = nodes[id.0].best;
        while let Some(eid) = edge_id {
            let edge = edges[eid.0];
            sol.push(edge.decision);
            edge_id = nodes[edge.from.0].best;
        }
        sol
'''
DRAIN_B = '''        if let Some(best_value) = self.best_value() {
            for node_id in self.cutset.drain(..) {
                let node = &self.nodes[node_id.0];

                if node.flags.is_marked() {
                    let rub = node.value.saturating_add(node.rub);
                    let locb = node.value.saturating_add(node.value_bot);
                    let ub = rub.min(locb).min(best_value);

                    func(SubProblem {
                        state: node.state.clone(),
                        value: node.value,
                        path: Self::_best_path_partial_borrow(
                            node_id,
                            &self.root_pa,
                            &self.nodes,
                            &self.edges,
                        ),
                        ub,
                    })
                }
            }
        }
'''
BEST = '''        self.best_n = self
            .next_l
            .values()
            .copied()
            .max_by_key(|id| self.nodes[id.0].value);
'''
ROOTPA = '''        input
            .residual
            .path
            .iter()
            .copied()
            .for_each(|x| self.root_pa.push(x));
'''
FILL = '''            self.prev_l.clear();
            for node_id in curr_l.drain(..) {
                self.prev_l.push(node_id);
            }
            for (_, node_id) in self.next_l.drain() {
                curr_l.push(node_id);
            }
'''
LEL_A = '''            for id in self.prev_l.iter() {
                self.cutset.push(*id);
                self.nodes[id.0].flags.set_cutset(true);
            }
'''
LEL_B = '''            for id in self.prev_l.iter() {
                self.cutset.push(*id);
                self.nodes[id.0].flags.set_cutset(true);
                self.lel_depth = Some(self.nodes[id.0].depth);
            }
'''
EXACT = '''        if let Some(node_id) = node {
            let n = &self.nodes[node_id.0];
            if n.flags.is_exact() {
                true
            } else {
                !n.flags.is_relaxed()
                    && self.has_exact_best_path(n.best.map(|e| self.edges[e.0].from))
            }
        } else {
            true
        }
'''
RELOOP = '''            let mut edge_id = self.nodes[drop_id.0].inbound;
            while let Some(eid) = edge_id {
                let edge = self.edges[eid.0];
                let src'''
MATCH_A = '''                CompilationType::Relaxed => {
                    if curr_l.len() > input.max_width && depth > 1 {
                        self.relax(input, &mut curr_l)
                    }
                }
'''
SORT = '''        curr_l.sort_unstable_by(|a, b| {
            self.nodes[a.0]
                .value
                .cmp(&self.nodes[b.0].value)
                .then_with(|| input.ranking.compare(self.nodes[a.0].state.as_ref(), self.nodes[b.0].state.as_ref()))
                .reverse()
        }); // reverse because greater means more likely to be kept
'''
OCC_A = '''                let node_id = *e.get();
                let exact = self.nodes[from_id.0].flags.is_exact();
                let value = self.nodes[from_id.0].value.saturating_add(cost);
                let node = &mut self.nodes[node_id.0];

                // flags hygiene
                let exact = exact & node.flags.is_exact();
                node.flags.set_exact(exact);

                let edge_id = EdgeId(self.edges.len());
                self.edges.push(Edge {
                    //my_id: edge_id,
                    from: from_id,
                    //to   : node_id,
                    decision,
                    cost,
                    next: node.inbound,
                });

                node.inbound = Some(edge_id);
                if value > node.value {
                    node.value = value;
                    node.best = Some(edge_id);
                }
'''
LB_A = '''                        let lp_from_bot_using_edge =
                            self.nodes[node_id.0].value_bot.saturating_add(edge.cost);

                        self.nodes[edge.from.0].value_bot = self.nodes[edge.from.0]
                            .value_bot
                            .max(lp_from_bot_using_edge);

                        if !self.nodes[edge.from.0].flags.is_marked() {
                            self.nodes[edge.from.0].flags.set_marked(true);
                            if !self.nodes[edge.from.0].flags.is_cutset() {
                                visit.push(edge.from);
                            }
                        }
'''
FRONT_A = '''                        if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_marked(){
                            if !self.nodes[node_id.0].flags.is_exact() && self.nodes[edge.from.0].flags.is_exact() &&
                                !self.nodes[edge.from.0].flags.is_cutset() {
                                self.nodes[edge.from.0].flags.set_cutset(true);
                                self.cutset.push(edge.from);
                            }
                        }
'''
FRONT_B = '''                if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_marked(){
                    if !self.nodes[node_id.0].flags.is_exact() && self.nodes[edge.from.0].flags.is_exact() &&
                        !self.nodes[edge.from.0].flags.is_cutset() {
                        self.nodes[edge.from.0].flags.set_cutset(true);
                        self.cutset.push(edge.from);
                    }
                }
'''
RETAIN = '''                    if self.nodes[node_id.0].flags.is_relaxed() {
                        true
                    } else {
                        let state = &self.nodes[node_id.0].state;
                        let theta = self.barriers[depth].read().get(state).map_or(isize::MIN, |bi| bi.theta);

                        if self.nodes[node_id.0].value > theta {
                            true
                        } else {
                            self.nodes[node_id.0].theta = theta; // set theta for later propagation
                            self.nodes[node_id.0].flags.set_pruned_by_barrier(true);
                            false
                        }
                    }
'''
CUTTHETA = '''                let locb = self.nodes[node_id.0].value.saturating_add(self.nodes[node_id.0].value_bot);
                if locb < best_lb {
                    let pruning_theta = best_lb.saturating_sub(self.nodes[node_id.0].value_bot);
                    self.nodes[node_id.0].theta = self.nodes[node_id.0].theta.min(pruning_theta);
                } else {
                    self.nodes[node_id.0].theta = self.nodes[node_id.0].theta.min(self.nodes[node_id.0].value);
                }
'''
PROP_B = '''                // propagate for theta
                let theta_using_edge = self.nodes[node_id.0].theta.saturating_sub(edge.cost);
                self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge);
'''
EXPAND_A = '''                if ub > input.best_lb {
                    input.problem.for_each_in_domain(var, state.as_ref(), |decision| {
                        self.branch_on(*node_id, decision, input.problem)
                    });

                    self.explored += 1;
                }
'''
EDITS = [
 ('path extend', None, both('let mut sol = root_pa.to_owned();', 'let mut sol = Vec::with_capacity(root_pa.len());\n        sol.extend_from_slice(root_pa);')),
 ('path loop copy', None, both('let mut sol = root_pa.to_owned();', 'let mut sol = vec![];\n        for d in root_pa {\n            sol.push(*d);\n        }')),
 ('path extend iter', None, both('let mut sol = root_pa.to_owned();', 'let mut sol = vec![];\n        sol.extend(root_pa.iter().copied());')),
 ('path to_vec', None, both('let mut sol = root_pa.to_owned();', 'let mut sol = root_pa.to_vec();')),
 ('path node cursor', None, both(PATH, '''        let mut sol = root_pa.to_owned();
        let mut current = id;
        while let Some(eid) = nodes[current.0].best {
            let edge = edges[eid.0];
            sol.push(edge.decision);
            current = edge.from;
        }
        sol
''')),
 ('path loop match', None, both(PATH, '''        let mut sol = root_pa.to_owned();
        let mut next = nodes[id.0].best;
        loop {
            match next {
                None => break,
                Some(eid) => {
                    let Edge { from, decision, .. } = edges[eid.0];
                    next = nodes[from.0].best;
                    sol.push(decision);
                }
            }
        }
        sol
''')),
 ('path successors', None, both(PATH, '''        let mut sol = root_pa.to_owned();
        sol.extend(
            std::iter::successors(nodes[id.0].best, |eid| nodes[edges[eid.0].from.0].best)
                .map(|eid| edges[eid.0].decision),
        );
        sol
''')),
 ('drain early return', None, both(DRAIN_B, '''        let best_value = match self.best_value() {
            Some(v) => v,
            None => return,
        };
        for node_id in self.cutset.drain(..) {
            let node = &self.nodes[node_id.0];
            if !node.flags.is_marked() {
                continue;
            }
            let rub = node.value.saturating_add(node.rub);
            let locb = node.value.saturating_add(node.value_bot);
            let path = Self::_best_path_partial_borrow(node_id, &self.root_pa, &self.nodes, &self.edges);
            func(SubProblem { state: Arc::clone(&node.state), value: node.value, path, ub: best_value.min(rub.min(locb)) })
        }
''')),
 ('drain take', None, both('for node_id in self.cutset.drain(..) {', 'for node_id in std::mem::take(&mut self.cutset) {')),
 ('drain helper ub', None, both('''                    let rub = node.value.saturating_add(node.rub);
                    let locb = node.value.saturating_add(node.value_bot);
                    let ub = rub.min(locb).min(best_value);
''', '''                    let ub = Self::bound_of(node, best_value);
''') + both('    pub fn get_explored(&self)', '''    fn bound_of(node: &Node<T>, best_value: isize) -> isize {
        let rub = node.value.saturating_add(node.rub);
        let locb = node.value.saturating_add(node.value_bot);
        let tight = if rub < locb { rub } else { locb };
        std::cmp::min(tight, best_value)
    }

    pub fn get_explored(&self)''')),
 ('drain min inside', None, both('let ub = rub.min(locb).min(best_value);', 'let ub = node.value.saturating_add(node.rub.min(node.value_bot)).min(best_value);\n                    let _ = (rub, locb);')),
 ('drain filter', None, both(DRAIN_B, '''        if let Some(best_value) = self.best_value() {
            let (nodes, edges, root) = (&self.nodes, &self.edges, &self.root_pa);
            self.cutset.drain(..).filter(|id| nodes[id.0].flags.is_marked()).for_each(|id| {
                let node = &nodes[id.0];
                let rub = node.value.saturating_add(node.rub);
                let locb = node.value.saturating_add(node.value_bot);
                let ub = rub.min(locb).min(best_value);
                func(SubProblem { state: node.state.clone(), value: node.value, path: Self::_best_path_partial_borrow(id, root, nodes, edges), ub })
            });
        }
''')),
 ('best manual', None, both(BEST, '''        let mut best: Option<NodeId> = None;
        for id in self.next_l.values() {
            match best {
                Some(b) if self.nodes[b.0].value > self.nodes[id.0].value => {}
                _ => best = Some(*id),
            }
        }
        self.best_n = best;
''')),
 ('best iter map', None, both(BEST, '''        self.best_n = self
            .next_l
            .iter()
            .max_by_key(|(_, id)| self.nodes[id.0].value)
            .map(|(_, id)| *id);
''')),
 ('best copied last', None, both(BEST, '''        let nodes = &self.nodes;
        self.best_n = self.next_l.values().max_by_key(|id| nodes[id.0].value).copied();
''')),
 ('best value match', None, both('self.best_n.map(|id| self.nodes[id.0].value)', '''match self.best_n {
            Some(NodeId(i)) => Some(self.nodes[i].value),
            None => None,
        }''')),
 ('root path clone', None, both(ROOTPA, '        self.root_pa = input.residual.path.clone();\n')),
 ('root path extend', None, both(ROOTPA, '        self.root_pa.extend(input.residual.path.iter());\n')),
 ('root path clone_from', None, both(ROOTPA, '        self.root_pa.clone_from(&input.residual.path);\n')),
 ('root path for', None, both(ROOTPA, '        for d in &input.residual.path {\n            self.root_pa.push(*d);\n        }\n')),
 ('fill extend', None, both(FILL, '''            self.prev_l.clear();
            self.prev_l.extend(curr_l.drain(..));
            curr_l.extend(self.next_l.drain().map(|(_, id)| id));
''')),
 ('fill append', None, both(FILL, '''            self.prev_l.clear();
            self.prev_l.append(&mut curr_l);
            for (_, node_id) in self.next_l.drain() {
                curr_l.push(node_id);
            }
''')),
 ('fill swap', None, both(FILL, '''            std::mem::swap(&mut self.prev_l, &mut curr_l);
            curr_l.clear();
            for (_, node_id) in self.next_l.drain() {
                curr_l.push(node_id);
            }
''')),
 ('fill values', None, both(FILL, '''            self.prev_l.clear();
            for node_id in curr_l.drain(..) {
                self.prev_l.push(node_id);
            }
            for node_id in self.next_l.values() {
                curr_l.push(*node_id);
            }
            self.next_l.clear();
''')),
 ('fill collect', None, both(FILL, '''            self.prev_l = std::mem::take(&mut curr_l);
            curr_l = self.next_l.drain().map(|(_, node_id)| node_id).collect();
''')),
 ('lel extend', None, [(A, LEL_A, '''            self.cutset.extend(self.prev_l.iter().copied());
            for id in self.cutset.iter() {
                self.nodes[id.0].flags.set_cutset(true);
            }
''')]),
 ('lel index', None, [(A, LEL_A, '''            for i in 0..self.prev_l.len() {
                let NodeId(n) = self.prev_l[i];
                self.nodes[n].flags.set_cutset(true);
                self.cutset.push(NodeId(n));
            }
'''), (B, LEL_B, '''            for i in 0..self.prev_l.len() {
                let NodeId(n) = self.prev_l[i];
                self.lel_depth = Some(self.nodes[n].depth);
                self.nodes[n].flags.set_cutset(true);
                self.cutset.push(NodeId(n));
            }
''')]),
 ('lel helper', None, [(A, LEL_A, '            self.remember_last_exact_layer();\n'), (A, '    fn compute_local_bounds(&mut self) {', '''    fn remember_last_exact_layer(&mut self) {
''' + LEL_A + '''    }

    fn compute_local_bounds(&mut self) {''')]),
 ('exact loop', None, both(EXACT, '''        let mut current = node;
        while let Some(node_id) = current {
            let n = &self.nodes[node_id.0];
            if n.flags.is_exact() {
                return true;
            }
            if n.flags.is_relaxed() {
                return false;
            }
            current = n.best.map(|e| self.edges[e.0].from);
        }
        true
''')),
 ('exact match', None, both(EXACT, '''        match node {
            None => true,
            Some(node_id) => {
                let flags = self.nodes[node_id.0].flags;
                if flags.is_relaxed() {
                    return false;
                }
                flags.is_exact() || self.has_exact_best_path(self.nodes[node_id.0].best.map(|e| self.edges[e.0].from))
            }
        }
''')),
 ('merge edges loop', None, both(RELOOP, '''            let mut edge_id = self.nodes[drop_id.0].inbound;
            loop {
                let eid = match edge_id {
                    Some(e) => e,
                    None => break,
                };
                let edge = self.edges[eid.0];
                let src''')),
 ('merge next early', None, both('''                let edge = self.edges[eid.0];
                let src = ''', '''                let edge = self.edges[eid.0];
                edge_id = edge.next;
                let src = ''') + both('''                    self.nodes[merged_id.0].value = new_value;
                }

                edge_id = edge.next;
''', '''                    self.nodes[merged_id.0].value = new_value;
                }
''')),
 ('match if', None, [(A, '''            match input.comp_type {
                CompilationType::Exact => { /* do nothing: you want to explore the complete DD */ }
                CompilationType::Restricted => {
                    if curr_l.len() > input.max_width {
                        self.restrict(input, &mut curr_l)
                    }
                }
''' + MATCH_A + '            }\n', '''            let too_wide = curr_l.len() > input.max_width;
            if too_wide && input.comp_type == CompilationType::Restricted {
                self.restrict(input, &mut curr_l)
            } else if too_wide && input.comp_type == CompilationType::Relaxed && depth >= 2 {
                self.relax(input, &mut curr_l)
            }
''')]),
 ('sort helper', None, both(SORT, '        self.sort_layer(input, curr_l);\n') + both('    fn restrict<P, R, O>(', '''    fn sort_layer<P, R, O>(&self, input: &CompilationInput<P, R, O>, layer: &mut Vec<NodeId>)
    where
        P: Problem<State = T>,
        R: Relaxation<State = P::State>,
        O: StateRanking<State = P::State>,
    {
        let nodes = &self.nodes;
        layer.sort_unstable_by(|a, b| {
            let (a, b) = (&nodes[a.0], &nodes[b.0]);
            b.value.cmp(&a.value).then_with(|| input.ranking.compare(b.state.as_ref(), a.state.as_ref()))
        });
    }

    fn restrict<P, R, O>(''')),
 ('expand continue', None, [(A, EXPAND_A, '''                if ub <= input.best_lb {
                    continue;
                }
                let id = *node_id;
                input.problem.for_each_in_domain(var, &state, |decision| self.branch_on(id, decision, input.problem));
                self.explored += 1;
''')]),
 ('expand index', None, [(A, '''            for node_id in curr_l.iter() {
                let state''', '''            for i in 0..curr_l.len() {
                let node_id = &curr_l[i];
                let state''')]),
 ('expand while', None, [(A, '''            for node_id in curr_l.iter() {
                let state''', '''            let mut i = 0;
            while i < curr_l.len() {
                let node_id = &curr_l[i];
                i += 1;
                let state''')]),
 ('occ reorder', None, [(A, OCC_A, '''                let node_id = *e.get();
                let value = self.nodes[from_id.0].value.saturating_add(cost);
                let edge_id = EdgeId(self.edges.len());
                let next = self.nodes[node_id.0].inbound;
                self.edges.push(Edge { from: from_id, decision, cost, next });
                let parent_exact = self.nodes[from_id.0].flags.is_exact();
                let node = &mut self.nodes[node_id.0];
                node.inbound = Some(edge_id);
                if node.value < value {
                    node.best = Some(edge_id);
                    node.value = value;
                }
                if !parent_exact || !node.flags.is_exact() {
                    node.flags.set_exact(false);
                }
''')]),
 ('branch get', None, [(A, '''        let next_state = Arc::new(problem.transition(state, decision));
        let cost = problem.transition_cost(state, decision);
''', '''        let cost = problem.transition_cost(state, decision);
        let next_state = Arc::new(problem.transition(state, decision));
''')]),
 ('bounds if', None, [(A, '''                        self.nodes[edge.from.0].value_bot = self.nodes[edge.from.0]
                            .value_bot
                            .max(lp_from_bot_using_edge);
''', '''                        let parent = &mut self.nodes[edge.from.0];
                        if lp_from_bot_using_edge > parent.value_bot {
                            parent.value_bot = lp_from_bot_using_edge;
                        }
'''), (B, '''                    self.nodes[edge.from.0].value_bot = self.nodes[edge.from.0]
                        .value_bot
                        .max(lp_from_bot_using_edge);
''', '''                    let parent = &mut self.nodes[edge.from.0];
                    if lp_from_bot_using_edge > parent.value_bot {
                        parent.value_bot = lp_from_bot_using_edge;
                    }
''')]),
 ('bounds parent ref', None, [(A, LB_A, '''                        let bottom = self.nodes[node_id.0].value_bot;
                        let parent = &mut self.nodes[edge.from.0];
                        parent.value_bot = parent.value_bot.max(bottom.saturating_add(edge.cost));
                        let first = !parent.flags.is_marked();
                        parent.flags.set_marked(true);
                        if first && !parent.flags.is_cutset() {
                            visit.push(edge.from);
                        }
''')]),
 ('frontier flat', None, [(A, FRONT_A, '''                        let border = self.cutset_type == CutsetType::Frontier
                            && !self.nodes[node_id.0].flags.is_exact()
                            && self.nodes[edge.from.0].flags.is_exact();
                        if border && !self.nodes[edge.from.0].flags.is_cutset() {
                            self.cutset.push(edge.from);
                            self.nodes[edge.from.0].flags.set_cutset(true);
                        }
'''), (B, FRONT_B, '''                let border = self.cutset_type == CutsetType::Frontier
                    && self.nodes[node_id.0].flags.is_marked()
                    && !self.nodes[node_id.0].flags.is_exact()
                    && self.nodes[edge.from.0].flags.is_exact();
                if border && !self.nodes[edge.from.0].flags.is_cutset() {
                    self.cutset.push(edge.from);
                    self.nodes[edge.from.0].flags.set_cutset(true);
                }
''')]),
 ('frontier helper', None, [(B, FRONT_B, '                self.extend_frontier(node_id, edge.from);\n'), (B, '    fn try_update_barrier', '''    fn extend_frontier(&mut self, child: NodeId, parent: NodeId) {
        if self.cutset_type != CutsetType::Frontier {
            return;
        }
        let c = self.nodes[child.0].flags;
        let p = self.nodes[parent.0].flags;
        if c.is_marked() && !c.is_exact() && p.is_exact() && !p.is_cutset() {
            self.nodes[parent.0].flags.set_cutset(true);
            self.cutset.push(parent);
        }
    }

    fn try_update_barrier''')]),
 ('visit mem take', None, [(A, '''                std::mem::swap(&mut visit, &mut next_v);

                for node_id in next_v.drain(..) {''', '''                let layer = std::mem::take(&mut visit);
                for node_id in layer {'''), (A, '            let mut next_v = vec![];\n', '')]),
 ('local bounds early', None, [(A, '''    fn compute_local_bounds(&mut self) {
        if !self.exact {''', '''    fn compute_local_bounds(&mut self) {
        let needed = !self.exact;
        if needed {''')]),
 ('retain flat', None, [(B, RETAIN, '''                    let n = node_id.0;
                    if self.nodes[n].flags.is_relaxed() {
                        return true;
                    }
                    let known = self.barriers[depth].read().get(&self.nodes[n].state).map(|bi| bi.theta);
                    match known {
                        Some(theta) if self.nodes[n].value <= theta => {
                            self.nodes[n].flags.set_pruned_by_barrier(true);
                            self.nodes[n].theta = theta;
                            false
                        }
                        _ => true,
                    }
''')]),
 ('retain always', None, [(B, 'if depth > root_depth && !self.barriers[depth].read().is_empty() {', 'if depth > root_depth {')]),
 ('cutset theta min', None, [(B, CUTTHETA, '''                let node = &mut self.nodes[node_id.0];
                let locb = node.value.saturating_add(node.value_bot);
                let limit = if locb < best_lb { best_lb.saturating_sub(node.value_bot) } else { node.value };
                if limit < node.theta {
                    node.theta = limit;
                }
''')]),
 ('theta before bounds', None, [(B, PROP_B, ''), (B, '                // propagate for local bounds\n', PROP_B + '\n                // propagate for local bounds\n')]),
 ('theta if', None, [(B, PROP_B, '''                let through = self.nodes[node_id.0].theta.saturating_sub(edge.cost);
                if through < self.nodes[edge.from.0].theta {
                    self.nodes[edge.from.0].theta = through;
                }
''')]),
 ('reverse while', None, [(B, '''        for node_id in (0..self.nodes.len()).rev() {
            let node_id = NodeId(node_id);
''', '''        let mut remaining = self.nodes.len();
        while remaining > 0 {
            remaining -= 1;
            let node_id = NodeId(remaining);
''')]),
 ('clear helper', None, both('        self.clear();\n\n        let mut', '        self.reset();\n\n        let mut') + both('    fn clear(&mut self) {', '    fn reset(&mut self) {\n        self.exact = true;\n        self.clear();\n    }\n    fn clear(&mut self) {')),
]
