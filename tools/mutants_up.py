A = 'src/mdd/with_all.rs'
B = 'src/mdd/with_barrier.rs'
MARK_A = '''                        if !self.nodes[edge.from.0].flags.is_marked() {
                            self.nodes[edge.from.0].flags.set_marked(true);
                            if !self.nodes[edge.from.0].flags.is_cutset() {
                                visit.push(edge.from);
                            }
                        }
'''
FRONT_A = '''                        if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_marked(){
                            if !self.nodes[node_id.0].flags.is_exact() && self.nodes[edge.from.0].flags.is_exact() &&
                                !self.nodes[edge.from.0].flags.is_cutset() {
'''
FRONT_B = '''                if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_marked(){
                    if !self.nodes[node_id.0].flags.is_exact() && self.nodes[edge.from.0].flags.is_exact() &&
                        !self.nodes[edge.from.0].flags.is_cutset() {
'''
MERGE_B = None
UPB = '''            let mut inbound = self.nodes[node_id.0].inbound;
            while let Some(edge_id) = inbound {
                let edge = self.edges[edge_id.0];

                // propagate for local'''
FR2 = open('/repo/' + B).read().split(FRONT_B)[1].split('                inbound = edge.next;')[0]
FR2 = FRONT_B + FR2
CL = '''            if %s {
                let mut next = self.nodes[node_id.0].inbound;
                while let Some(EdgeId(e)) = next {
                    let NodeId(parent) = self.edges[e].from;
                    let flags = &mut self.nodes[parent].flags;
                    if flags.is_exact() && !flags.is_cutset() {
                        flags.set_cutset(true);
                        self.cutset.push(NodeId(parent));
                    }
                    next = self.edges[e].next;
                }
            }

'''
EDITS = [
 ('apart skips pruned', 'C16', [(B, FR2, ''), (B, UPB, CL % 'self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_marked() && self.nodes[node_id.0].flags.is_relaxed()' + UPB)]),
 ('apart before', 'C16', [(B, FR2, ''), (B, '        // propagate values upwards and update barrier\n', '''        for id in (0..self.nodes.len()).rev() {
            let node_id = NodeId(id);
            if self.nodes[node_id.0].flags.is_deleted() { continue; }
''' + CL % 'self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_marked() && !self.nodes[node_id.0].flags.is_exact()' + '''        }
''')]),
 ('retain all', 'C11', [(A, '            match input.comp_type {\n', '            curr_l.retain(|id| self.nodes[id.0].value > input.best_lb.saturating_sub(1000));\n            match input.comp_type {\n')]),
 ('retain dead', 'C11', [(B, 'map_or(isize::MIN, |bi| bi.theta)', 'map_or(isize::MIN, |bi| bi.theta.max(input.best_lb.saturating_sub(self.nodes[node_id.0].rub)))')]),

 # local bounds
 ('term minus', 'C32', [(A, 'self.nodes[id.0].value_bot = 0;', 'self.nodes[id.0].value_bot = self.nodes[id.0].value_bot.max(-1);')]),
 ('term unmarked', 'C32', [(B, '            self.nodes[node_id.0].flags.set_marked(true);\n\n            if self.cutset', '            if self.cutset')]),
 ('edge max self', 'C32', [(A, 'self.nodes[edge.from.0].value_bot = self.nodes[edge.from.0]\n                            .value_bot\n                            .max(lp_from_bot_using_edge);', 'self.nodes[edge.from.0].value_bot = lp_from_bot_using_edge;')]),
 ('edge min', 'C32', [(B, '.max(lp_from_bot_using_edge)', '.min(lp_from_bot_using_edge)')]),
 ('edge no cost', 'C32', [(B, 'self.nodes[node_id.0].value_bot.saturating_add(edge.cost)', 'self.nodes[node_id.0].value_bot')]),
 ('edge if unmarked', 'C32', [(A, '''                        self.nodes[edge.from.0].value_bot = self.nodes[edge.from.0]
                            .value_bot
                            .max(lp_from_bot_using_edge);

                        if !self''', '''                        if !self.nodes[edge.from.0].flags.is_marked() {
                            self.nodes[edge.from.0].value_bot = lp_from_bot_using_edge;
                        }

                        if !self''')]),
 ('stack dfs', 'C32', [(A, '''            while !visit.is_empty() {
                std::mem::swap(&mut visit, &mut next_v);

                for node_id in next_v.drain(..) {''', '''            next_v.push(NodeId(0));
            while !visit.is_empty() {
                {
                    let node_id: NodeId = visit.pop().unwrap();''')]),
 ('early break', 'C32', [(A, '''                        inbound = edge.next;
                    }
                }
            }''', '''                        inbound = edge.next;
                        if self.nodes[edge.from.0].flags.is_cutset() { break; }
                    }
                }
            }''')]),
 ('forward', 'C32', [(B, '(0..self.nodes.len()).rev()', '0..self.nodes.len()')]),
 ('from one', 'C20', [(B, '(0..self.nodes.len()).rev()', '(1..self.nodes.len()).rev()')]),
 ('skip relaxed', 'C32', [(B, '''            if self.nodes[node_id.0].flags.is_deleted() {
                continue;''', '''            if self.nodes[node_id.0].flags.is_deleted() || self.nodes[node_id.0].flags.is_relaxed() {
                continue;''')]),
 ('skip pruned', 'C20', [(B, '''            if self.nodes[node_id.0].flags.is_deleted() {
                continue;''', '''            if self.nodes[node_id.0].flags.is_deleted() || (self.nodes[node_id.0].flags.is_pruned_by_barrier() && !self.nodes[node_id.0].flags.is_exact()) {
                continue;''')]),
 ('mark no cutset push', None, [(A, MARK_A, MARK_A.replace('if !self.nodes[edge.from.0].flags.is_cutset() {', 'if !self.nodes[edge.from.0].flags.is_cutset() || self.cutset_type == CutsetType::Frontier {'))]),
 ('frontier above stop', 'C32', [(A, MARK_A, MARK_A.replace('if !self.nodes[edge.from.0].flags.is_cutset() {', 'if !self.nodes[edge.from.0].flags.is_exact() {'))]),
 ('new vb 0', 'C32', [(A, '                    value_bot: isize::MIN,\n                    //\n                    rub: isize::MAX,\n                    flags: self', '                    value_bot: 0,\n                    //\n                    rub: isize::MAX,\n                    flags: self')]),
 ('local bounds only frontier', 'C32', [(A, 'if matches!(input.comp_type, CompilationType::Relaxed) {\n            self.compute_local', 'if matches!(input.comp_type, CompilationType::Relaxed) && self.best_value() > Some(input.best_lb) {\n            self.compute_local')]),
 # cutset
 ('lel not first', 'C16', [(A, 'if self.cutset_type == CutsetType::LastExactLayer && !self.approximate {', 'if self.cutset_type == CutsetType::LastExactLayer && self.cutset.is_empty() && self.prev_l.len() > 1 {')]),
 ('lel every', 'C16', [(A, 'if self.cutset_type == CutsetType::LastExactLayer && !self.approximate {', 'if self.cutset_type == CutsetType::LastExactLayer {')]),
 ('lel skip', 'C16', [(B, 'for id in self.prev_l.iter() {', 'for id in self.prev_l.iter().filter(|id| self.nodes[id.0].rub > 0).collect::<Vec<_>>() {')]),
 ('lel curr', 'C16', [(A, 'for id in self.prev_l.iter() {', 'for id in curr_l.iter() {')]),
 ('lel no flag', 'C16', [(A, '''                self.cutset.push(*id);
                self.nodes[id.0].flags.set_cutset(true);''', '''                self.cutset.push(*id);''')]),
 ('front relaxed child', 'C16', [(A, FRONT_A, FRONT_A.replace('!self.nodes[node_id.0].flags.is_exact()', 'self.nodes[node_id.0].flags.is_relaxed()'))]),
 ('front relaxed child b', 'C16', [(B, FRONT_B, FRONT_B.replace('!self.nodes[node_id.0].flags.is_exact()', 'self.nodes[node_id.0].flags.is_relaxed()'))]),
 ('front parent not relaxed', 'C16', [(A, FRONT_A, FRONT_A.replace('self.nodes[edge.from.0].flags.is_exact()', '!self.nodes[edge.from.0].flags.is_relaxed()'))]),
 ('front dup', 'C16', [(B, FRONT_B, FRONT_B.replace(' &&\n                        !self.nodes[edge.from.0].flags.is_cutset()', ''))]),
 ('front child cutset', 'C16', [(B, FRONT_B, FRONT_B.replace('!self.nodes[edge.from.0].flags.is_cutset()', '!self.nodes[node_id.0].flags.is_cutset() && !self.nodes[edge.from.0].flags.is_cutset() && edge.cost <= 0'))]),
 ('front unmarked', 'C16', [(B, FRONT_B, FRONT_B.replace(' && self.nodes[node_id.0].flags.is_marked(){', ' {'))]),
 ('front both', 'C16', [(B, FRONT_B, FRONT_B.replace('self.cutset_type == CutsetType::Frontier && ', ''))]),
 ('front no flag', 'C16', [(A, '                                self.nodes[edge.from.0].flags.set_cutset(true);\n                                self.cutset.push(edge.from);', '                                self.cutset.push(edge.from);')]),
 ('front push child', 'C16', [(A, 'self.cutset.push(edge.from);', 'self.cutset.push(node_id);')]),
 ('front term none', 'C16', [(A, '                    self.nodes[id.0].flags.set_cutset(true);\n                    self.cutset.push(id);\n', '                    self.nodes[id.0].flags.set_cutset(true);\n')]),
 ('front term any', 'C16', [(B, '} else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {', '} else if self.cutset_type == CutsetType::Frontier {')]),
 ('front term relaxed', 'C16', [(A, 'if self.cutset_type == CutsetType::Frontier && self.nodes[id.0].flags.is_exact() {', 'if self.cutset_type == CutsetType::Frontier && !self.nodes[id.0].flags.is_relaxed() {')]),
 ('prev stale', 'C16', [(A, '''            self.prev_l.clear();
            for node_id in curr_l.drain(..) {
                self.prev_l.push(node_id);
            }''', '''            for node_id in curr_l.drain(..) {
                self.prev_l.push(node_id);
            }''')]),
 ('prev next', 'C16', [(B, '''            for node_id in curr_l.drain(..) {
                self.prev_l.push(node_id);
            }''', '''            for node_id in curr_l.drain(..).take(input.max_width) {
                self.prev_l.push(node_id);
            }''')]),
 ('drain exact only', 'C16', [(A, 'if node.flags.is_marked() {', 'if node.flags.is_marked() && node.flags.is_exact() {')]),
 ('drain unmarked', 'C16', [(B, 'if node.flags.is_marked() {', 'if !node.flags.is_deleted() {')]),
 # thresholds
 ('theta max', 'C20', [(B, 'self.nodes[edge.from.0].theta.min(theta_using_edge)', 'self.nodes[edge.from.0].theta.max(theta_using_edge)')]),
 ('theta add', 'C20', [(B, 'self.nodes[node_id.0].theta.saturating_sub(edge.cost)', 'self.nodes[node_id.0].theta.saturating_add(edge.cost)')]),
 ('theta set', 'C20', [(B, 'self.nodes[edge.from.0].theta.min(theta_using_edge)', 'theta_using_edge')]),
 ('theta only marked', 'C20', [(B, '''                // propagate for theta
                let theta_using_edge = self.nodes[node_id.0].theta.saturating_sub(edge.cost);
                self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge);
''', '''                // propagate for theta
                if self.nodes[node_id.0].flags.is_marked() {
                let theta_using_edge = self.nodes[node_id.0].theta.saturating_sub(edge.cost);
                self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge);
                }
''')]),
 ('theta exact only', 'C20', [(B, 'let theta_using_edge = self.nodes[node_id.0].theta.saturating_sub(edge.cost);', 'let theta_using_edge = if self.nodes[node_id.0].flags.is_exact() { self.nodes[node_id.0].theta.saturating_sub(edge.cost) } else { isize::MAX };')]),
 ('rub theta value', 'C20', [(B, 'self.nodes[node_id.0].theta = input.best_lb.saturating_sub(rub); //', 'self.nodes[node_id.0].theta = self.nodes[node_id.0].value.saturating_add(1).max(input.best_lb.saturating_sub(rub)); //')]),
 ('rub theta lost', 'C20', [(B, 'self.nodes[node_id.0].theta = input.best_lb.saturating_sub(rub); //', 'if self.nodes[node_id.0].flags.is_exact() { self.nodes[node_id.0].theta = input.best_lb.saturating_sub(rub); } //')]),
 ('cut theta <=', 'C20', [(B, 'if locb < best_lb {', 'if locb < best_lb.saturating_add(1) {')]),
 ('cut theta none', 'C20', [(B, '''                } else {
                    self.nodes[node_id.0].theta = self.nodes[node_id.0].theta.min(self.nodes[node_id.0].value);
                }''', '''                } else if self.nodes[node_id.0].flags.is_exact() {
                    self.nodes[node_id.0].theta = self.nodes[node_id.0].theta.min(self.nodes[node_id.0].value);
                }''')]),
 ('cut theta lb', 'C20', [(B, 'let pruning_theta = best_lb.saturating_sub(self.nodes[node_id.0].value_bot);', 'let pruning_theta = best_lb;')]),
 ('cut theta after', 'C20', [(B, 'if self.nodes[node_id.0].flags.is_cutset() {\n                // set', 'if self.nodes[node_id.0].flags.is_cutset() && self.nodes[node_id.0].inbound.is_some() {\n                // set')]),
 ('new theta', 'C20', [(B, '                    value_bot: isize::MIN,\n                    theta: isize::MAX,\n                    //\n                    rub', '                    value_bot: isize::MIN,\n                    theta: self.nodes[from_id.0].theta,\n                    //\n                    rub')]),
 ('lel term flag', 'C20', [(B, 'if self.cutset_type == CutsetType::LastExactLayer && !self.approximate {\n                self.nodes[node_id.0].flags.set_cutset(true);\n            } else if', 'if')]),
 ('theta none exact', 'C20', [(B, 'if matches!(input.comp_type, CompilationType::Relaxed) {\n            self.compute_local', 'if matches!(input.comp_type, CompilationType::Relaxed) && !self.exact {\n            self.compute_local')]),
 # pruning
 ('prune relaxed', 'C17', [(B, 'if self.nodes[node_id.0].flags.is_relaxed() {\n                        true', 'if self.nodes[node_id.0].flags.is_relaxed() && depth < root_depth {\n                        true')]),
 ('prune exact only', 'C17', [(B, 'if self.nodes[node_id.0].flags.is_relaxed() {\n                        true', 'if !self.nodes[node_id.0].flags.is_exact() && depth > self.barriers.len() {\n                        true')]),
 ('prune root', 'C17', [(B, 'if depth > root_depth && !self.barriers', 'if depth >= root_depth && !self.barriers')]),
 ('prune other layer', 'C17', [(B, 'let theta = self.barriers[depth].read().get(state).map_or(isize::MIN', 'let theta = self.barriers[depth - 1].read().get(state).map_or(isize::MIN')]),
 ('prune plus one', 'C17', [(B, 'if self.nodes[node_id.0].value > theta {', 'if self.nodes[node_id.0].value > theta.saturating_add(1) {')]),
 ('prune default', 'C17', [(B, 'map_or(isize::MIN, |bi| bi.theta)', 'map_or(input.best_lb, |bi| bi.theta)')]),
 ('prune theta lost', 'C17', [(B, 'self.nodes[node_id.0].theta = theta; //', 'self.nodes[node_id.0].theta = self.nodes[node_id.0].value; //')]),
 ('prune no flag', 'C17', [(B, '                            self.nodes[node_id.0].flags.set_pruned_by_barrier(true);\n', '')]),
 ('prune reread', 'C17', [(B, 'self.nodes[node_id.0].theta = theta; //', 'self.nodes[node_id.0].theta = self.barriers[depth].read().get(state).map_or(isize::MIN, |bi| bi.theta); //')]),
 ('prune explored', None, [(B, 'map_or(isize::MIN, |bi| bi.theta)', 'map_or(isize::MIN, |bi| if bi.explored { bi.theta } else { isize::MIN })')]),
 # recording
 ('rec any type', 'C18', [(B, 'if matches!(input.comp_type, CompilationType::Relaxed) && self.nodes[node_id.0].flags.is_exact() {\n                        // if we', 'if self.nodes[node_id.0].flags.is_exact() {\n                        // if we')]),
 ('rec not restricted', 'C18', [(B, 'if matches!(input.comp_type, CompilationType::Relaxed) && self.nodes[node_id.0].flags.is_exact() {\n                        // try', 'if !matches!(input.comp_type, CompilationType::Restricted) && self.nodes[node_id.0].flags.is_exact() {\n                        // try')]),
 ('rec inexact', 'C18', [(B, 'if matches!(input.comp_type, CompilationType::Relaxed) && self.nodes[node_id.0].flags.is_exact() {\n                        // try', 'if matches!(input.comp_type, CompilationType::Relaxed) && !self.nodes[node_id.0].flags.is_relaxed() {\n                        // try')]),
 ('rec inexact up', 'C18', [(B, 'if self.nodes[node_id.0].flags.is_exact() &&\n                !self.nodes[node_id.0].flags.is_pruned', 'if !self.nodes[node_id.0].flags.is_relaxed() &&\n                !self.nodes[node_id.0].flags.is_pruned')]),
 ('rec pruned', 'C18', [(B, ' &&\n                !self.nodes[node_id.0].flags.is_pruned_by_barrier() // theta was not improved in this case', '')]),
 ('rec cut explored', 'C18', [(B, '!self.nodes[node_id.0].flags.is_cutset() // do', '!self.cutset.contains(&node_id) || self.cutset_type == CutsetType::LastExactLayer // do')]),
 ('rec explored', 'C18', [(B, '!self.nodes[node_id.0].flags.is_cutset() // do', 'true // do')]),
 ('rec early explored', 'C18', [(B, 'self.nodes[node_id.0].theta, false);', 'self.nodes[node_id.0].theta, true);')]),
 ('rec depth', 'C18', [(B, '                    self.nodes[node_id.0].depth, \n', '                    self.root_pa.len(), \n')]),
 ('rec depth off', 'C18', [(B, 'self.try_update_barrier(depth, state, self.nodes[node_id.0].value, false);', 'self.try_update_barrier(depth + 1, state, self.nodes[node_id.0].value, false);')]),
 ('rec node depth', 'C18', [(B, 'depth: self.nodes[from_id.0].depth + 1,', 'depth: self.nodes[from_id.0].depth,')]),
 ('rec merge depth', None, [(B, '''                value: isize::MIN,
                best: None,    // yet
                inbound: None, // yet
''', '''                value: isize::MIN,
                best: None,    // yet
                inbound: None,
''')]),
 ('rec lel >=', 'C18', [(B, 'depth > self.lel_depth.unwrap() {', 'depth > self.lel_depth.unwrap() + 1 {')]),
 ('rec lel none', 'C18', [(B, 'if self.cutset_type == CutsetType::LastExactLayer && self.lel_depth.is_some() && depth > self.lel_depth.unwrap() {\n            return;', 'if self.cutset_type == CutsetType::Frontier && self.lel_depth.is_some() && depth > self.lel_depth.unwrap() {\n            return;')]),
 ('rec worse', 'C18', [(B, 'if theta > info.theta || (theta == info.theta && !info.explored && explored) {', 'if theta > info.theta || explored {')]),
 ('rec equal', 'C18', [(B, 'if theta > info.theta || (theta == info.theta && !info.explored && explored) {', 'if theta >= info.theta {')]),
 ('rec explored down', 'C18', [(B, 'if theta > info.theta || (theta == info.theta && !info.explored && explored) {', 'if theta > info.theta || (theta == info.theta && info.explored != explored) {')]),
 ('lel depth', 'C18', [(B, 'self.lel_depth = Some(', 'self.lel_depth = Some(1 + ')]),
]
