"""Edits of the frontiers that keep the behaviour."""
N, S, M = 'src/frontier/no_dup.rs', 'src/frontier/simple.rs', 'src/frontier/mod.rs'
OCC = """                let old_lp = self.nodes[id.0].value;
                let old_ub = self.nodes[id.0].ub;
                // info about the new node
                let new_lp = node.value;
                let new_ub = node.ub;
                // make sure that ub is the max of the known ubs
                node.ub = new_ub.max(old_ub);
"""
POP = """        let id = self.heap.swap_remove(0);
        let action = if self.heap.is_empty() {
            DoNothing
        } else {
            self.pos[self.heap[0].0] = 0;
            BubbleDown(self.heap[0])
        };

        self.process_action(action);
        self.recycle_bin.push(id);
"""
UP = """            let p_id = self.heap[parent];

            self.pos[p_id.0] = me;
            self.pos[id.0] = parent;
            self.heap[me] = p_id;
            self.heap[parent] = id;

            me = parent;
            parent = self.parent(me);
"""
DOWN = """            let k_id = self.heap[kid];

            self.pos[k_id.0] = me;
            self.pos[id.0] = kid;
            self.heap[me] = k_id;
            self.heap[kid] = id;

            me = kid;
            kid = self.max_child_of(me);
"""
EDITS = [
    ('entry to get', None, [(N, 'let action = match self.states.entry(state) {\n            Occupied(e) => {\n                let id = *e.get();', 'let known = self.states.get(&state).copied();\n        let action = match known {\n            Some(id) => {'), (N, 'Vacant(e) => {', 'None => {'), (N, 'e.insert(id);', 'self.states.insert(state, id);'), (N, 'use std::collections::hash_map::Entry::{Occupied, Vacant};', '')]),
    ('bin pop', None, [(N, """let id = if self.recycle_bin.is_empty() {
                    let id = NodeId(self.nodes.len());
                    self.nodes.push(node);
                    self.pos.push(0); // dummy
                    id
                } else {
                    let id = self.recycle_bin.pop().unwrap();
                    self.nodes[id.0] = node;
                    id
                };""", """let id = match self.recycle_bin.pop() {
                    Some(id) => {
                        self.nodes[id.0] = node;
                        id
                    }
                    None => {
                        self.nodes.push(node);
                        self.pos.push(0);
                        NodeId(self.nodes.len() - 1)
                    }
                };""")]),
    ('bin if let', None, [(N, """let id = if self.recycle_bin.is_empty() {
                    let id = NodeId(self.nodes.len());
                    self.nodes.push(node);
                    self.pos.push(0); // dummy
                    id
                } else {
                    let id = self.recycle_bin.pop().unwrap();
                    self.nodes[id.0] = node;
                    id
                };""", """let id = if let Some(free) = self.recycle_bin.pop() {
                    self.nodes[free.0] = node;
                    free
                } else {
                    let fresh = NodeId(self.nodes.len());
                    self.nodes.push(node);
                    self.pos.push(self.heap.len());
                    fresh
                };""")]),
    ('pos before', None, [(N, 'self.heap.push(id);\n                self.pos[id.0] = self.heap.len() - 1;', 'self.pos[id.0] = self.heap.len();\n                self.heap.push(id);')]),
    ('insert first', None, [(N, '                self.heap.push(id);\n                self.pos[id.0] = self.heap.len() - 1;\n                e.insert(id);\n', '                e.insert(id);\n                let at = self.heap.len();\n                self.heap.push(id);\n                self.pos[id.0] = at;\n')]),
    ('ub max if', None, [(N, 'node.ub = new_ub.max(old_ub);', 'if old_ub > new_ub { node.ub = old_ub; }')]),
    ('ub match', None, [(N, 'if new_ub > old_ub {\n                    self.nodes[id.0].ub = new_ub;\n                }', 'let best_ub = self.nodes[id.0].ub.max(new_ub);\n                self.nodes[id.0].ub = best_ub;')]),
    ('ub kept always', None, [(N, '                if new_lp > old_lp {\n                    self.nodes[id.0] = node;\n                }\n                if new_ub > old_ub {\n                    self.nodes[id.0].ub = new_ub;\n                }', '                let ub = node.ub;\n                if new_lp > old_lp {\n                    self.nodes[id.0] = node;\n                } else {\n                    self.nodes[id.0].ub = ub;\n                }')]),
    ('old ref', None, [(N, OCC, '                let (old_lp, old_ub) = {\n                    let old = &self.nodes[id.0];\n                    (old.value, old.ub)\n                };\n                let new_lp = node.value;\n                let new_ub = node.ub;\n                node.ub = std::cmp::max(old_ub, new_ub);\n')]),
    ('action bool', None, [(N, 'let action = if self.cmp.compare(&node, &self.nodes[id.0]) == Greater {\n                    BubbleUp(id)\n                } else {\n                    DoNothing\n                };', 'let better = matches!(self.cmp.compare(&node, &self.nodes[id.0]), Greater);'), (N, '                action\n            }', '                if better { BubbleUp(id) } else { DoNothing }\n            }')]),
    ('always up', None, [(N, 'let action = if self.cmp.compare(&node, &self.nodes[id.0]) == Greater {\n                    BubbleUp(id)\n                } else {\n                    DoNothing\n                };', 'let action = match self.cmp.compare(&node, &self.nodes[id.0]) {\n                    Greater => BubbleUp(id),\n                    _ => DoNothing,\n                };')]),
    ('direct bubble', None, [(N, '        self.process_action(action);\n    }\n', '        match action {\n            BubbleUp(id) => self.bubble_up(id),\n            BubbleDown(id) => self.bubble_down(id),\n            DoNothing => (),\n        }\n    }\n')]),
    ('pop early', None, [(N, POP, """        let id = self.heap[0];
        let last = self.heap.pop().unwrap();
        if !self.heap.is_empty() {
            self.heap[0] = last;
            self.pos[last.0] = 0;
            self.bubble_down(last);
        }
        self.recycle_bin.push(id);
""")]),
    ('pop first', None, [(N, POP, """        let id = self.heap.swap_remove(0);
        if let Some(top) = self.heap.first().copied() {
            self.pos[top.0] = 0;
            self.bubble_down(top);
        }
        self.recycle_bin.push(id);
""")]),
    ('pop order', None, [(N, '        self.process_action(action);\n        self.recycle_bin.push(id);\n\n        let node = self.nodes[id.0].clone();\n        self.states.remove(&node.state);\n', '        let node = self.nodes[id.0].clone();\n        self.states.remove(&node.state);\n        self.recycle_bin.push(id);\n        self.process_action(action);\n')]),
    ('pop len', None, [(N, 'if self.is_empty() {\n            return None;\n        }', 'if self.heap.len() == 0 {\n            return None;\n        }')]),
    ('pop top', None, [(N, 'if self.is_empty() {\n            return None;\n        }', 'self.heap.first()?;')]),
    ('up swap', None, [(N, UP, """            let p_id = self.heap[parent];
            self.heap.swap(me, parent);
            self.pos[p_id.0] = me;
            self.pos[id.0] = parent;
            me = parent;
            parent = self.parent(me);
""")]),
    ('up loop', None, [(N, '        let mut parent = self.parent(me);\n\n        while !self.is_root(me) && self.compare_at_pos(me, parent) == Greater {\n' + UP + '        }', '        while me > 0 {\n            let parent = self.parent(me);\n            if self.compare_at_pos(me, parent) != Greater {\n                break;\n            }\n' + UP.replace('            parent = self.parent(me);\n', '') + '        }')]),
    ('up pos swap', None, [(N, UP, """            let p_id = self.heap[parent];
            self.pos.swap(p_id.0, id.0);
            self.heap.swap(parent, me);
            me = parent;
            parent = self.parent(me);
""")]),
    ('down swap', None, [(N, DOWN, """            let k_id = self.heap[kid];
            self.heap.swap(kid, me);
            self.pos[k_id.0] = me;
            self.pos[id.0] = kid;
            me = kid;
            kid = self.max_child_of(me);
""")]),
    ('down loop', None, [(N, '        let mut kid = self.max_child_of(me);\n\n        while kid > 0 && self.compare_at_pos(me, kid) == Less {\n' + DOWN + '        }', '        loop {\n            let kid = self.max_child_of(me);\n            if kid == 0 || self.compare_at_pos(me, kid) != Less {\n                return;\n            }\n' + DOWN.replace('            kid = self.max_child_of(me);\n', '') + '        }')]),
    ('child option', None, [(N, 'fn max_child_of(&self, pos: usize) -> usize {', 'fn max_child_of(&self, pos: usize) -> usize {\n        self.child(pos).unwrap_or(0)\n    }\n    fn child(&self, pos: usize) -> Option<usize> {'), (N, 'return 0;', 'return None;'), (N, 'return left;', 'return Some(left);'), (N, 'Greater => left,\n            _ => right,', 'Greater => Some(left),\n            _ => Some(right),')]),
    ('child if', None, [(N, 'match self.compare_at_pos(left, right) {\n            Greater => left,\n            _ => right,\n        }', 'if self.compare_at_pos(right, left) == Less { left } else { right }')]),
    ('child ties', None, [(N, 'match self.compare_at_pos(left, right) {\n            Greater => left,\n            _ => right,\n        }', 'match self.compare_at_pos(left, right) {\n            Less => right,\n            _ => left,\n        }')]),
    ('child one if', None, [(N, '        if left >= size {\n            return 0;\n        }\n        if right >= size {\n            return left;\n        }\n', '        if right >= size {\n            return if left < size { left } else { 0 };\n        }\n')]),
    ('parent arith', None, [(N, 'if self.is_root(pos) {\n            pos\n        } else if self.is_left(pos) {\n            pos / 2\n        } else {\n            pos / 2 - 1\n        }', 'if pos == 0 {\n            0\n        } else {\n            (pos - 1) / 2\n        }')]),
    ('parent sat', None, [(N, 'if self.is_root(pos) {\n            pos\n        } else if self.is_left(pos) {\n            pos / 2\n        } else {\n            pos / 2 - 1\n        }', 'pos.saturating_sub(1) / 2')]),
    ('left shift', None, [(N, 'pos * 2 + 1', '(pos << 1) + 1')]),
    ('right of left', None, [(N, 'pos * 2 + 2', 'self.left_child(pos) + 1')]),
    ('is left bit', None, [(N, 'pos % 2 == 1', 'pos & 1 == 1')]),
    ('position inline', None, [(N, 'let mut me = self.position(id);', 'let mut me = self.pos[id.0];')]),
    ('cmp ids', None, [(N, 'let node_x = &self.nodes[self.heap[x].0];\n        let node_y = &self.nodes[self.heap[y].0];\n        self.cmp.compare(node_x, node_y)', 'let (a, b) = (self.heap[x], self.heap[y]);\n        self.cmp.compare(&self.nodes[a.0], &self.nodes[b.0])')]),
    ('cmp swapped', None, [(N, 'self.cmp.compare(node_x, node_y)', 'self.cmp.compare(node_y, node_x).reverse()')]),
    ('clear order', None, [(N, '        self.states.clear();\n        self.nodes.clear();\n        self.pos.clear();', '        self.pos.truncate(0);\n        self.nodes.clear();\n        self.states.clear();')]),
    ('clear new', None, [(N, '        self.heap.clear();\n        self.recycle_bin.clear();', '        self.heap = vec![];\n        self.recycle_bin = Vec::new();')]),
    ('take node', None, [(N, 'let state = Arc::clone(&node.state);', 'let state = node.state.clone();')]),
    ('maxub match', None, [(M, 'l.ub.cmp(&r.ub)\n            .then_with(|| self.0.compare(&l.state, &r.state))', 'match l.ub.cmp(&r.ub) {\n            Ordering::Equal => self.0.compare(&l.state, &r.state),\n            o => o,\n        }')]),
    ('maxub if', None, [(M, 'l.ub.cmp(&r.ub)\n            .then_with(|| self.0.compare(&l.state, &r.state))', 'if l.ub == r.ub {\n            self.0.compare(&l.state, &r.state)\n        } else if l.ub < r.ub {\n            Ordering::Less\n        } else {\n            Ordering::Greater\n        }')]),
    ('maxub then', None, [(M, 'l.ub.cmp(&r.ub)\n            .then_with(|| self.0.compare(&l.state, &r.state))', 'r.ub.cmp(&l.ub).reverse().then(self.0.compare(&l.state, &r.state))')]),
    ('maxub reversed rank', None, [(M, 'self.0.compare(&l.state, &r.state)', 'self.0.compare(&r.state, &l.state).reverse()')]),
    ('simple with cmp', None, [(S, 'let heap', 'let heap')]) if False else ('simple vec', None, [(S, 'BinaryHeap::from_vec_cmp(vec![], MaxUB(ranking))', 'BinaryHeap::from_vec_cmp(Vec::new(), MaxUB(ranking))')]),
    ('simple pop match', None, [(S, 'self.heap.pop()\n', 'match self.heap.pop() {\n            Some(n) => Some(n),\n            None => None,\n        }\n')]),
]
