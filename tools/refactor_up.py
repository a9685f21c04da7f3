"""Behaviour-preserving edits of the threshold code (development aid; see edits.py)."""
B = 'src/mdd/with_barrier.rs'
PRUNE = open('/repo/' + B).read().split('            if depth > root_depth && !self.barriers')[1].split('            match input.comp_type {')[0]
PRUNE = '            if depth > root_depth && !self.barriers' + PRUNE
TUB = '    fn try_update_barrier(' + open('/repo/' + B).read().split('    fn try_update_barrier(')[1].rstrip()[:-1].rstrip() + '\n'
GUARD = '''        if self.cutset_type == CutsetType::LastExactLayer && self.lel_depth.is_some() && depth > self.lel_depth.unwrap() {
            return;
        }
'''
HEAD = '''    fn try_update_barrier(&mut self, depth: usize, state: Arc<T>, theta: isize, explored: bool)
    {
'''
FILL = '''        let update = self.barriers[depth].read().get(&state).map_or(true, |info| {
            if theta > info.theta || (theta == info.theta && !info.explored && explored) {
                true
            } else {
                false
            }
        });

        if update {
            self.barriers[depth].write().insert(state, BarrierInfo { theta, explored });
        }
'''
CUTDEPTH = '                self.lel_depth = Some(self.nodes[id.0].depth);\n'
UPREC = '''                self.try_update_barrier(
                    self.nodes[node_id.0].depth, 
                    self.nodes[node_id.0].state.clone(), 
                    self.nodes[node_id.0].theta, 
                    !self.nodes[node_id.0].flags.is_cutset() // do not mark nodes of the frontier cutset as explored
                );
'''
RUBL = '''                if ub > input.best_lb {
                    input.problem.for_each_in_domain(var, state.as_ref(), |decision| {
                        self.branch_on(*node_id, decision, input.problem)
                    });

                    self.explored += 1;

                    if matches!(input.comp_type, CompilationType::Relaxed) && self.nodes[node_id.0].flags.is_exact() {
                        // if we made it to here, we have improved the threshold
                        // try to update threshold for other threads already
                        self.try_update_barrier(depth, state, self.nodes[node_id.0].value, false);
                    }
                } else {
                    self.nodes[node_id.0].theta = input.best_lb.saturating_sub(rub); // set theta for later propagation

                    if matches!(input.comp_type, CompilationType::Relaxed) && self.nodes[node_id.0].flags.is_exact() {
                        // try to update threshold for other threads already
                        self.try_update_barrier(depth, state, self.nodes[node_id.0].theta, false);
                    }
                }
'''
THETAP = '''                // propagate for theta
                let theta_using_edge = self.nodes[node_id.0].theta.saturating_sub(edge.cost);
                self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge);
'''
CUTTHETA = open('/repo/' + B).read().split('            if self.nodes[node_id.0].flags.is_cutset() {\n                // set theta')[1].split('            let mut inbound = self')[0]
CUTTHETA = '            if self.nodes[node_id.0].flags.is_cutset() {\n                // set theta' + CUTTHETA
FRONT = open('/repo/' + B).read().split('                if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_marked(){')[1].split('                inbound = edge.next;')[0]
FRONT = '                if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_marked(){' + FRONT
TAIL = '''                inbound = edge.next;
            }
        }
    }

    fn try_update'''
EDITS = [
 ('two node loops', None, [(B, THETAP, ''), (B, CUTTHETA, ''), (B, TAIL, '''                inbound = edge.next;
            }
        }

        for i in (0..self.nodes.len()).rev() {
            let node_id = NodeId(i);
            if self.nodes[node_id.0].flags.is_deleted() {
                continue;
            }

''' + CUTTHETA + '''
            let mut inbound = self.nodes[node_id.0].inbound;
            while let Some(edge_id) = inbound {
                let edge = self.edges[edge_id.0];
''' + THETAP + TAIL)]),
 ('cutset loop apart', None, [(B, FRONT, ''), (B, '            let mut inbound = self.nodes[node_id.0].inbound;\n            while let Some(edge_id) = inbound {\n                let edge = self.edges[edge_id.0];\n\n                // propagate for local', '''            if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_marked() && !self.nodes[node_id.0].flags.is_exact() {
                let mut next = self.nodes[node_id.0].inbound;
                while let Some(EdgeId(e)) = next {
                    let NodeId(parent) = self.edges[e].from;
                    let flags = &mut self.nodes[parent].flags;
                    if flags.is_exact() && !flags.is_cutset() {
                        flags.set_cutset(true);
                        self.cutset.push(NodeId(parent));
                    }
                    next = self.edges[e].next;
                }
            }

            let mut inbound = self.nodes[node_id.0].inbound;
            while let Some(edge_id) = inbound {
                let edge = self.edges[edge_id.0];

                // propagate for local''')]),

 ('prune loop', None, [(B, PRUNE, '''            if depth > root_depth {
                let mut kept = Vec::with_capacity(curr_l.len());
                for node_id in curr_l.drain(..) {
                    if self.dominated(depth, node_id) {
                        self.nodes[node_id.0].flags.set_pruned_by_barrier(true);
                    } else {
                        kept.push(node_id);
                    }
                }
                curr_l = kept;
            }

'''), (B, '    fn branch_on<P', '''    fn dominated(&mut self, depth: usize, node_id: NodeId) -> bool {
        let node = &mut self.nodes[node_id.0];
        if node.flags.is_relaxed() {
            return false;
        }
        if let Some(info) = self.barriers[depth].read().get(&node.state) {
            if node.value <= info.theta {
                node.theta = info.theta;
                return true;
            }
        }
        false
    }

    fn branch_on<P''')]),
 ('prune partition', None, [(B, PRUNE, '''            if depth > root_depth && !self.barriers[depth].read().is_empty() {
                let layer = std::mem::take(&mut curr_l);
                for node_id in layer {
                    let node = &mut self.nodes[node_id.0];
                    let theta = if node.flags.is_relaxed() {
                        None
                    } else {
                        self.barriers[depth].read().get(&node.state).map(|bi| bi.theta)
                    };
                    match theta {
                        Some(t) if t >= node.value => {
                            node.theta = t;
                            node.flags.set_pruned_by_barrier(true);
                        }
                        _ => curr_l.push(node_id),
                    }
                }
            }

''')]),
 ('prune lock once', None, [(B, PRUNE, '''            if depth > root_depth {
                let nodes = &mut self.nodes;
                let layer = self.barriers[depth].read();
                curr_l.retain(|node_id| {
                    let node = &mut nodes[node_id.0];
                    match layer.get(&node.state) {
                        Some(info) if !node.flags.is_relaxed() && node.value <= info.theta => {
                            node.theta = info.theta;
                            node.flags.set_pruned_by_barrier(true);
                            false
                        }
                        _ => true,
                    }
                });
            }

''')]),
 ('prune filter', None, [(B, PRUNE, '''            if depth > root_depth && !self.barriers[depth].read().is_empty() {
                let nodes = &mut self.nodes;
                let barriers = &self.barriers;
                curr_l = curr_l.into_iter().filter(|node_id| {
                    let node = &mut nodes[node_id.0];
                    if node.flags.is_relaxed() {
                        return true;
                    }
                    let theta = barriers[depth].read().get(&node.state).map(|bi| bi.theta);
                    if let Some(theta) = theta {
                        if node.value <= theta {
                            node.theta = theta;
                            node.flags.set_pruned_by_barrier(true);
                            return false;
                        }
                    }
                    true
                }).collect();
            }

''')]),
 ('prune node depth', None, [(B, 'self.barriers[depth].read().get(state).map_or(isize::MIN', 'self.barriers[self.nodes[node_id.0].depth].read().get(state).map_or(isize::MIN')]),
 ('prune method', None, [(B, PRUNE, '''            if depth > root_depth {
                self.prune_with_barrier(depth, &mut curr_l);
            }

'''), (B, '    fn branch_on<P', '''    fn prune_with_barrier(&mut self, depth: usize, layer: &mut Vec<NodeId>) {
        if self.barriers[depth].read().is_empty() {
            return;
        }
        layer.retain(|id| !self.prune_node(depth, *id));
    }

    fn prune_node(&mut self, depth: usize, id: NodeId) -> bool {
        let node = &self.nodes[id.0];
        if node.flags.is_relaxed() {
            return false;
        }
        let known = match self.barriers[depth].read().get(node.state.as_ref()) {
            Some(info) => info.theta,
            None => return false,
        };
        if node.value > known {
            return false;
        }
        let node = &mut self.nodes[id.0];
        node.theta = known;
        node.flags.set_pruned_by_barrier(true);
        true
    }

    fn branch_on<P''')]),
 # recording
 ('rec entry', None, [(B, FILL, '''        match self.barriers[depth].write().entry(state) {
            Entry::Vacant(e) => {
                e.insert(BarrierInfo { theta, explored });
            }
            Entry::Occupied(mut e) => {
                let info = e.get();
                if theta > info.theta || (theta == info.theta && explored && !info.explored) {
                    e.insert(BarrierInfo { theta, explored });
                }
            }
        }
''')]),
 ('rec get_mut', None, [(B, FILL, '''        let mut layer = self.barriers[depth].write();
        match layer.get_mut(&state) {
            None => {
                layer.insert(state, BarrierInfo { theta, explored });
            }
            Some(info) => {
                if theta > info.theta || (theta == info.theta && explored && !info.explored) {
                    info.theta = theta;
                    info.explored = explored;
                }
            }
        }
''')]),
 ('rec get_mut whole', None, [(B, FILL, '''        let mut layer = self.barriers[depth].write();
        if let Some(info) = layer.get_mut(&state) {
            if theta > info.theta || (theta == info.theta && explored && !info.explored) {
                *info = BarrierInfo { theta, explored };
            }
            return;
        }
        layer.insert(state, BarrierInfo { theta, explored });
''')]),
 ('rec match', None, [(B, FILL, '''        let known = self.barriers[depth].read().get(&state).map(|info| (info.theta, info.explored));
        let update = match known {
            None => true,
            Some((t, e)) => theta > t || (theta == t && explored && !e),
        };
        if !update {
            return;
        }
        self.barriers[depth].write().insert(state, BarrierInfo { theta, explored });
''')]),
 ('rec single lock', None, [(B, FILL, '''        let mut layer = self.barriers[depth].write();
        let improves = match layer.get(&state) {
            Some(info) => info.theta < theta || (info.theta == theta && explored && !info.explored),
            None => true,
        };
        if improves {
            layer.insert(state, BarrierInfo { theta, explored });
        }
''')]),
 ('rec cmp', None, [(B, FILL, FILL.replace('''            if theta > info.theta || (theta == info.theta && !info.explored && explored) {
                true
            } else {
                false
            }
''', '''            match theta.cmp(&info.theta) {
                std::cmp::Ordering::Greater => true,
                std::cmp::Ordering::Equal => explored && !info.explored,
                std::cmp::Ordering::Less => false,
            }
'''))]),
 ('rec is_none_or', None, [(B, FILL, FILL.replace('''map_or(true, |info| {
            if theta > info.theta || (theta == info.theta && !info.explored && explored) {
                true
            } else {
                false
            }
        })''', '''is_none_or(|info| theta > info.theta || (theta == info.theta && !info.explored && explored))'''))]),
 ('guard let', None, [(B, GUARD, '''        if self.cutset_type == CutsetType::LastExactLayer {
            if let Some(lel) = self.lel_depth {
                if lel < depth {
                    return;
                }
            }
        }
''')]),
 ('guard map_or', None, [(B, GUARD, '''        if self.cutset_type == CutsetType::LastExactLayer && self.lel_depth.map_or(false, |lel| depth > lel) {
            return;
        }
''')]),
 ('guard matches', None, [(B, GUARD, '''        if let (CutsetType::LastExactLayer, Some(lel)) = (self.cutset_type, self.lel_depth) {
            if depth > lel {
                return;
            }
        }
''')]),
 ('guard only lel', None, [(B, GUARD, '''        if self.lel_depth.is_some() && depth > self.lel_depth.unwrap() {
            return;
        }
''')]),
 ('guard helper', None, [(B, GUARD, '''        if self.below_cutset(depth) {
            return;
        }
'''), (B, '    fn branch_on<P', '''    fn below_cutset(&self, depth: usize) -> bool {
        match self.cutset_type {
            CutsetType::LastExactLayer => match self.lel_depth {
                Some(lel) => depth > lel,
                None => false,
            },
            CutsetType::Frontier => false,
        }
    }

    fn branch_on<P''')]),
 ('lel depth after', None, [(B, CUTDEPTH, ''), (B, '                self.nodes[id.0].flags.set_cutset(true);\n            }\n        }\n\n        self.approximate', '''                self.nodes[id.0].flags.set_cutset(true);
            }
            self.lel_depth = self.prev_l.first().map(|id| self.nodes[id.0].depth);
        }

        self.approximate''')]),
 ('lel depth index', None, [(B, '            for id in self.prev_l.iter() {\n                self.cutset', '            self.lel_depth = Some(self.nodes[self.prev_l[0].0].depth);\n            for id in self.prev_l.iter() {\n                self.cutset'), (B, CUTDEPTH, '')]),
 ('lel depth param', None, [(B, CUTDEPTH, ''), (B, '            for id in self.prev_l.iter() {\n                self.cutset', '            self.lel_depth = Some(depth - 1);\n            for id in self.prev_l.iter() {\n                self.cutset'), (B, 'self.relax(input, &mut curr_l)', 'self.relax(input, &mut curr_l, depth)'), (B, 'fn relax<P, R, O>(&mut self, input: &CompilationInput<P, R, O>, curr_l: &mut Vec<NodeId>)', 'fn relax<P, R, O>(&mut self, input: &CompilationInput<P, R, O>, curr_l: &mut Vec<NodeId>, depth: usize)')]),
 ('up hoist', None, [(B, UPREC, '''                let node = &self.nodes[node_id.0];
                let (depth, theta, explored) = (node.depth, node.theta, !node.flags.is_cutset());
                let state = node.state.clone();
                self.try_update_barrier(depth, state, theta, explored);
''')]),
 ('up after edges', None, [(B, '''            if self.nodes[node_id.0].flags.is_exact() &&
                !self.nodes[node_id.0].flags.is_pruned_by_barrier() // theta was not improved in this case
            {
                // fill barrier
''' + UPREC + '            }\n', ''), (B, '''                inbound = edge.next;
            }
        }
    }
''', '''                inbound = edge.next;
            }

            if self.nodes[node_id.0].flags.is_exact() && !self.nodes[node_id.0].flags.is_pruned_by_barrier() {
''' + UPREC + '''            }
        }
    }
''')]),
 ('up nested', None, [(B, '''            if self.nodes[node_id.0].flags.is_exact() &&
                !self.nodes[node_id.0].flags.is_pruned_by_barrier() // theta was not improved in this case
            {
                // fill barrier
''' + UPREC + '            }\n', '''            let flags = self.nodes[node_id.0].flags;
            if !flags.is_pruned_by_barrier() {
                if flags.is_exact() {
                    let state = Arc::clone(&self.nodes[node_id.0].state);
                    let theta = self.nodes[node_id.0].theta;
                    if flags.is_cutset() {
                        self.try_update_barrier(self.nodes[node_id.0].depth, state, theta, false);
                    } else {
                        self.try_update_barrier(self.nodes[node_id.0].depth, state, theta, true);
                    }
                }
            }
''')]),
 ('layer rec', None, [(B, RUBL, '''                let theta;
                if ub <= input.best_lb {
                    theta = input.best_lb.saturating_sub(rub);
                    self.nodes[node_id.0].theta = theta;
                } else {
                    input.problem.for_each_in_domain(var, state.as_ref(), |decision| {
                        self.branch_on(*node_id, decision, input.problem)
                    });
                    self.explored += 1;
                    theta = self.nodes[node_id.0].value;
                }

                if matches!(input.comp_type, CompilationType::Relaxed) && self.nodes[node_id.0].flags.is_exact() {
                    self.try_update_barrier(depth, state, theta, false);
                }
''')]),
 ('layer rec node depth', None, [(B, 'self.try_update_barrier(depth, state, self.nodes[node_id.0].value, false);', 'self.try_update_barrier(self.nodes[node_id.0].depth, state, self.nodes[node_id.0].value, false);')]),
 ('merged depth', None, [(B, '                depth: self.nodes[merge[0].0].depth,\n', '                depth,\n'), (B, 'self.relax(input, &mut curr_l)', 'self.relax(input, &mut curr_l, depth)'), (B, 'fn relax<P, R, O>(&mut self, input: &CompilationInput<P, R, O>, curr_l: &mut Vec<NodeId>)', 'fn relax<P, R, O>(&mut self, input: &CompilationInput<P, R, O>, curr_l: &mut Vec<NodeId>, depth: usize)')]),
 ('merged depth first', None, [(B, '                depth: self.nodes[merge[0].0].depth,\n', '                depth: merge.first().map_or(0, |id| self.nodes[id.0].depth),\n')]),
 ('depth helper', None, [(B, 'let root_depth = self.root_pa.len();', 'let root_depth = input.residual.path.len();')]),
 # upward pass
 ('up split', None, [(B, '''            if self.nodes[node_id.0].flags.is_cutset() {
                // set''', '''            let at_cutset = self.nodes[node_id.0].flags.is_cutset();
            if at_cutset {
                // set'''), (B, '!self.nodes[node_id.0].flags.is_cutset() // do', '!at_cutset // do')]),
 ('up deleted if', None, [(B, '''            if self.nodes[node_id.0].flags.is_deleted() {
                continue;
            }

            if self.nodes[node_id.0].flags.is_cutset() {''', '''            let deleted = self.nodes[node_id.0].flags.is_deleted();
            if deleted { continue; }
            if self.nodes[node_id.0].flags.is_cutset() {''')]),
 ('theta helper', None, [(B, '''                let theta_using_edge = self.nodes[node_id.0].theta.saturating_sub(edge.cost);
                self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge);
''', '''                let theta = self.nodes[node_id.0].theta;
                self.lower_theta(edge.from, theta.saturating_sub(edge.cost));
'''), (B, '    fn branch_on<P', '''    #[inline]
    fn lower_theta(&mut self, id: NodeId, theta: isize) {
        let node = &mut self.nodes[id.0];
        node.theta = std::cmp::min(node.theta, theta);
    }

    fn branch_on<P''')]),
 ('theta two passes', None, [(B, '''                // propagate for theta
                let theta_using_edge = self.nodes[node_id.0].theta.saturating_sub(edge.cost);
                self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge);
''', ''), (B, '''            let mut inbound = self.nodes[node_id.0].inbound;
            while let Some(edge_id) = inbound {
                let edge = self.edges[edge_id.0];

                // propagate for local''', '''            let mut cursor = self.nodes[node_id.0].inbound;
            while let Some(eid) = cursor {
                let edge = self.edges[eid.0];
                let theta = self.nodes[node_id.0].theta.saturating_sub(edge.cost);
                let parent = &mut self.nodes[edge.from.0];
                parent.theta = parent.theta.min(theta);
                cursor = edge.next;
            }

            let mut inbound = self.nodes[node_id.0].inbound;
            while let Some(edge_id) = inbound {
                let edge = self.edges[edge_id.0];

                // propagate for local''')]),
 ('mark first', None, [(B, '''                    self.nodes[edge.from.0].value_bot = self.nodes[edge.from.0]
                        .value_bot
                        .max(lp_from_bot_using_edge);
                    
                    self.nodes[edge.from.0].flags.set_marked(true);
''', '''                    let parent = &mut self.nodes[edge.from.0];
                    parent.flags.set_marked(true);
                    parent.value_bot = parent.value_bot.max(lp_from_bot_using_edge);
''')]),
 ('terminal split', None, [(B, '''            if self.cutset_type == CutsetType::LastExactLayer && !self.approximate {
                self.nodes[node_id.0].flags.set_cutset(true);
            } else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {
                self.nodes[node_id.0].flags.set_cutset(true);
                self.cutset.push(*node_id);
            }
''', '''            match self.cutset_type {
                CutsetType::LastExactLayer => {
                    if !self.approximate {
                        self.nodes[node_id.0].flags.set_cutset(true);
                    }
                }
                CutsetType::Frontier => {
                    if self.nodes[node_id.0].flags.is_exact() {
                        self.nodes[node_id.0].flags.set_cutset(true);
                        self.cutset.push(*node_id);
                    }
                }
            }
''')]),
 ('terminal lel depth', None, [(B, '''            if self.cutset_type == CutsetType::LastExactLayer && !self.approximate {
                self.nodes[node_id.0].flags''', '''            if self.cutset_type == CutsetType::LastExactLayer && self.lel_depth.is_none() {
                self.nodes[node_id.0].flags''')]),
]
