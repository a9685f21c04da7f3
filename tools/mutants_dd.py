A = 'src/mdd/with_all.rs'
B = 'src/mdd/with_barrier.rs'
OCC_B = '''                node.inbound = Some(edge_id);
                if value > node.value || (value == node.value && flags.is_exact()) {
                    node.value = value;
                    node.best = Some(edge_id);
                    node.flags = flags;
                }'''
EDITS = [
 ('occ no best', 'C12', [(B, '                    node.best = Some(edge_id);\n                    node.flags = flags;', '                    node.flags = flags;')]),
 ('occ <', 'C12', [(A, 'if value > node.value {', 'if value < node.value {')]),
 ('occ first child', 'C12', [(A, 'if value > node.value {', 'if value > node.value && exact {')]),
 ('next lost', 'C12', [(A, 'cost,\n                    next: node.inbound,', 'cost,\n                    next: node.best,')]),
 ('next after', 'C12', [(B, 'next: node.inbound,\n                });\n\n                node.inbound = Some(edge_id);', 'next: None,\n                });\n\n                node.inbound = Some(edge_id);')]),
 ('inbound only if better', 'C12', [(B, '''                node.inbound = Some(edge_id);
                if value > node''', '''                if value > node'''), (B, 'node.value = value;\n                    node.best = Some(edge_id);', 'node.value = value;\n                    node.inbound = Some(edge_id);\n                    node.best = Some(edge_id);')]),
 ('cost of next state', 'C12', [(A, 'problem.transition_cost(state, decision)', 'problem.transition_cost(next_state.as_ref(), decision)')]),
 ('child value of existing', 'C12', [(B, 'value: self.nodes[from_id.0].value.saturating_add(cost),', 'value: self.nodes[0].value.saturating_add(cost),')]),
 ('layer wrong id', 'C12', [(A, 'let node_id = NodeId(self.nodes.len());\n                let edge_id', 'let node_id = NodeId(self.nodes.len().saturating_sub(1));\n                let edge_id')]),
 ('root value 0', 'C12', [(B, 'value: root_v,', 'value: 0,')]),
 ('root not in layer', 'C12', [(A, 'self.next_l.insert(root_s, NodeId(0));', 'if input.residual.ub > input.best_lb { self.next_l.insert(root_s, NodeId(0)); }')]),
 ('sum not saturating', 'C13', [(A, 'value: self.nodes[from_id.0].value.saturating_add(cost),', 'value: self.nodes[from_id.0].value + cost,')]),
 ('sum wrapping', 'C13', [(B, 'value: self.nodes[from_id.0].value.saturating_add(cost),', 'value: self.nodes[from_id.0].value.wrapping_add(cost),')]),
 # expansion
 ('skip <', 'C33', [(A, 'if ub > input.best_lb {', 'if ub > input.best_lb.saturating_add(1) {')]),
 ('skip rub', 'C33', [(B, 'let ub = rub.saturating_add(self.nodes[node_id.0].value);', 'let ub = rub;')]),
 ('skip first', 'C33', [(B, 'for node_id in curr_l.iter() {', 'for node_id in curr_l.iter().take(input.max_width) {')]),
 ('early out', 'C33', [(A, '''            if curr_l.is_empty() {
                self.exact''', '''            if curr_l.len() <= depth / 1000 {
                self.exact''')]),
 ('skip zero decision', 'C33', [(A, '''                    input.problem.for_each_in_domain(var, state.as_ref(), |decision| {
                        self.branch''', '''                    input.problem.for_each_in_domain(var, state.as_ref(), |decision| {
                        if decision.value != isize::MAX { } else { return; }
                        self.branch''')]),
 ('drain limited', 'C33', [(B, '''            for (_, node_id) in self.next_l.drain() {
                curr_l.push(node_id);
            }''', '''            for (_, node_id) in self.next_l.drain() {
                if self.nodes[node_id.0].value > isize::MIN { curr_l.push(node_id); }
            }''')]),
 # width
 ('restrict in exact', 'C11', [(A, 'CompilationType::Exact => { /* do nothing: you want to explore the complete DD */ }', 'CompilationType::Exact => { if curr_l.len() > input.max_width && depth > 5 { self.restrict(input, &mut curr_l) } }')]),
 ('restrict when relaxed', 'C11', [(B, 'if curr_l.len() > input.max_width && depth > root_depth + 1 {\n                        self.relax', 'if curr_l.len() > input.max_width && depth > root_depth + 1 {\n                        if depth > root_depth + 50 { self.restrict(input, &mut curr_l) }\n                        self.relax')]),
 ('merge layer one', 'C11', [(A, 'curr_l.len() > input.max_width && depth > 1', 'curr_l.len() > input.max_width && depth > 0')]),
 ('merge abs depth', 'C11', [(B, 'depth > root_depth + 1', 'depth > 1')]),
 ('truncate less', 'C11', [(A, '''        }); // reverse because greater means more likely to be kept
        curr_l.truncate(input.max_width);''', '''        }); // reverse because greater means more likely to be kept
        curr_l.truncate(input.max_width + 1);''')]),
 ('relax never when first', 'C11', [(B, 'if curr_l.len() > input.max_width && depth > root_depth + 1 {', 'if curr_l.len() > 2 * input.max_width && depth > root_depth + 1 {')]),
 # merge
 ('truncate drops merged', 'C31', [(A, '''            curr_l.truncate(input.max_width - 1);
            curr_l.push(merged_id);''', '''            curr_l.push(merged_id);
            curr_l.truncate(input.max_width);''')]),
 ('recycled drops one', 'C31', [(A, '''        if recycled.is_some() {
            curr_l.truncate(input.max_width);''', '''        if recycled.is_some() {
            curr_l.truncate(input.max_width - 2);''')]),
 ('relax args swapped', 'C31', [(B, '.relax(src, self.nodes[drop_id.0].state.as_ref(), merged.as_ref(), edge.decision, edge.cost)', '.relax(src, merged.as_ref(), self.nodes[drop_id.0].state.as_ref(), edge.decision, edge.cost)')]),
 ('orig cost', 'C31', [(A, 'cost: rcost,', 'cost: edge.cost,')]),
 ('only best inbound', 'C31', [(A, 'edge_id = edge.next;\n            }\n        }\n\n        if recycled', 'edge_id = None;\n            }\n        }\n\n        if recycled')]),
 ('best chain', 'C31', [(B, 'let mut edge_id = self.nodes[drop_id.0].inbound;', 'let mut edge_id = self.nodes[drop_id.0].best;')]),
 ('merge skip one', 'C31', [(A, 'for drop_id in merge {', 'for drop_id in merge.iter().skip(1) {')]),
 ('merge of all', 'C31', [(B, 'self.relaxation.merge', '')]) if 0 else
 ('merge wrong nodes', 'C31', [(B, 'input.relaxation.merge(&mut merge.iter().map(', 'input.relaxation.merge(&mut merge.iter().take(2).map(')]),
 ('value min', 'C31', [(A, 'if new_value >= self.nodes[merged_id.0].value {', 'if new_value <= self.nodes[merged_id.0].value {')]),
 ('recycled not relaxed', 'C31 C10', [(A, 'self.nodes[merged_id.0].flags.set_relaxed(true);', '')]),
 ('kept stays deleted', 'C31', [(B, 'self.nodes[saved_id.0].flags.set_deleted(false);', 'let _ = saved_id;')]),
 ('not deleted', 'C31 C18', [(B, 'self.nodes[drop_id.0].flags.set_deleted(true);', '')]),
 # exactness
 ('restrict exact', 'C10', [(A, '''        self.approximate = true;
        curr_l.sort_unstable_by(|a, b| {
            self.nodes[a.0]
                .value
                .cmp(&self.nodes[b.0].value)
                .then_with(|| input.ranking.compare(self.nodes[a.0].state.as_ref(), self.nodes[b.0].state.as_ref()))
                .reverse()
        }); // reverse because greater means more likely to be kept
        curr_l.truncate''', '''        self.approximate = self.approximate || input.best_lb > isize::MIN;
        curr_l.sort_unstable_by(|a, b| {
            self.nodes[a.0]
                .value
                .cmp(&self.nodes[b.0].value)
                .then_with(|| input.ranking.compare(self.nodes[a.0].state.as_ref(), self.nodes[b.0].state.as_ref()))
                .reverse()
        }); // reverse because greater means more likely to be kept
        curr_l.truncate''')]),
 ('exact path restricted', 'C10', [(B, '(comp_type == CompilationType::Relaxed && self.has', '(comp_type != CompilationType::Exact && self.has')]),
 ('exact flag or', 'C10', [(A, 'let exact = exact & node.flags.is_exact();', 'let exact = exact | node.flags.is_exact();')]),
 ('exact flag own', 'C10', [(A, 'let exact = exact & node.flags.is_exact();', '')]),
 ('barrier flags kept', 'C10', [(B, '                    node.flags = flags;\n', '                    if flags.is_exact() { node.flags = flags; }\n')]),
 ('new child exact', 'C10', [(B, '''                    rub: isize::MAX,
                    flags: self.nodes[from_id.0].flags,''', '''                    rub: isize::MAX,
                    flags: NodeFlags::new_exact(),''')]),
 ('early exit exact', 'C10', [(A, '''                self.exact = self._is_exact(input.comp_type);
                return;''', '''                self.exact = true;
                return;''')]),
 ('best path stops', 'C10', [(B, '''                !n.flags.is_relaxed()
                    && self''', '''                n.flags.is_relaxed()
                    || self''')]),
 ('is_exact via flag', 'C10', [(A, '!self.approximate\n', '!self.approximate || self.lel_ok()\n'), (A, '    pub fn get_explored', '    fn lel_ok(&self) -> bool { self.best_n.map_or(false, |n| self.nodes[n.0].value == isize::MAX) }\n    pub fn get_explored')]),
]
