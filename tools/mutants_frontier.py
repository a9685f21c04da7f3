N = 'src/frontier/no_dup.rs'
S = 'src/frontier/simple.rs'
M = 'src/frontier/mod.rs'
DUP = '''                if new_lp > old_lp {
                    self.nodes[id.0] = node;
                }
                if new_ub > old_ub {
                    self.nodes[id.0].ub = new_ub;
                }
'''
MATCH = '''        match self.compare_at_pos(left, right) {
            Greater => left,
            _ => right,
        }'''
EDITS = [
 ('parent right', 'C23', [(N, 'pos / 2 - 1', 'pos / 2')]),
 ('up by ub only', 'C23', [(N, 'while !self.is_root(me) && self.compare_at_pos(me, parent) == Greater {', 'while !self.is_root(me) && self.nodes[id.0].ub > self.nodes[self.heap[parent].0].ub {')]),
 ('max child min', 'C23', [(N, '            Greater => left,', '            Less => left,')]),
 ('max child left', 'C23', [(N, MATCH, '        let _ = right; left')]),
 ('size off', 'C23', [(N, 'if left >= size {', 'if left + 1 >= size {')]),
 ('pos lost', 'C22', [(N, '            self.pos[p_id.0] = me;\n', '')]),
 ('pos lost down', 'C22', [(N, '            self.pos[id.0] = kid;\n', '')]),
 ('dup nothing', 'C23', [(N, '                if new_lp > old_lp {\n', '                let action = if new_lp > old_lp { action } else { DoNothing };\n                if new_lp > old_lp {\n')]),
 ('dup ub lower', 'C22', [(N, 'node.ub = new_ub.max(old_ub);', 'node.ub = new_ub;')]),
 ('dup ub min', 'C22', [(N, 'node.ub = new_ub.max(old_ub);', 'node.ub = new_ub.min(old_ub);')]),
 ('dup value only', 'C22', [(N, '                    self.nodes[id.0] = node;\n                }\n                if', '                    self.nodes[id.0].value = new_lp;\n                }\n                if')]),
 ('dup ub better only', 'C22', [(N, '                if new_lp > old_lp {\n', '                if new_lp > old_lp && new_ub >= old_ub {\n')]),
 ('dup ub lost', 'C22', [(N, '                if new_ub > old_ub {', '                if new_ub > old_ub && new_lp > old_lp {')]),
 ('recycle last', 'C22', [(N, 'let id = self.recycle_bin.pop().unwrap();', 'let id = *self.recycle_bin.last().unwrap();')]),
 ('pos recycle', 'C22', [(N, '                self.pos[id.0] = self.heap.len() - 1;\n', '                if self.pos.len() == self.heap.len() { self.pos[id.0] = self.heap.len() - 1; }\n')]),
 ('pos len', 'C22', [(N, 'self.pos[id.0] = self.heap.len() - 1;', 'self.pos[id.0] = self.pos.len() - 1;')]),
 ('pop no recycle', None, [(N, '        self.recycle_bin.push(id);\n', '')]),
 ('pop no remove', 'C22', [(N, '        self.states.remove(&node.state);\n', '')]),
 ('pop pos', 'C22', [(N, '            self.pos[self.heap[0].0] = 0;\n', '')]),
 ('pop no bubble', 'C23', [(N, 'BubbleDown(self.heap[0])', 'BubbleUp(self.heap[0])')]),
 ('pop last', 'C23', [(N, 'let id = self.heap.swap_remove(0);', 'let id = self.heap.swap_remove(self.heap.len() - 1);')]),
 ('pop remove', 'C22', [(N, 'self.heap.swap_remove(0)', 'self.heap.remove(0)')]),
 ('pop two', 'C23', [(N, 'let action = if self.heap.is_empty() {', 'let action = if self.heap.len() < 2 {')]),
 ('pop three', 'C23', [(N, 'BubbleDown(self.heap[0])', 'if self.heap.len() > 2 { BubbleDown(self.heap[0]) } else { DoNothing }')]),
 ('clear bin', 'C22', [(N, '        self.recycle_bin.clear();\n', '')]),
 ('clear states', 'C22', [(N, '        self.states.clear();\n', '')]),
 ('len nodes', 'C23', [(N, '    fn len(&self) -> usize {\n        self.heap.len()', '    fn len(&self) -> usize {\n        self.nodes.len()')]),
 ('cmp ub only', 'C23', [(M, '        l.ub.cmp(&r.ub)\n            .then_with(|| self.0.compare(&l.state, &r.state))', '        l.ub.cmp(&r.ub)')]),
 ('cmp rank flipped', 'C23', [(M, 'self.0.compare(&l.state, &r.state)', 'self.0.compare(&r.state, &l.state)')]),
 ('cmp value', 'C23', [(M, 'l.ub.cmp(&r.ub)', 'l.ub.cmp(&r.ub).then_with(|| l.value.cmp(&r.value))')]),
 ('cmp lt', 'C23', [(M, '''        l.ub.cmp(&r.ub)
            .then_with(|| self.0.compare(&l.state, &r.state))''', '''        if l.ub <= r.ub && l.value < r.value { return Ordering::Less; }
        l.ub.cmp(&r.ub)
            .then_with(|| self.0.compare(&l.state, &r.state))''')]),
 ('simple clear', 'C23', [(S, '        self.heap.clear()', '        if self.heap.len() > 64 { self.heap.clear() }')]),
 ('simple push', 'C23', [(S, '        self.heap.push(node)', '        if node.ub > isize::MIN { self.heap.push(node) }')]),
 ('R heap swap', None, [(N, '''            self.pos[p_id.0] = me;
            self.pos[id.0] = parent;
            self.heap[me] = p_id;
            self.heap[parent] = id;
''', '''            self.heap.swap(me, parent);
            self.pos[p_id.0] = me;
            self.pos[id.0] = parent;
''')]),
 ('R pos swap', None, [(N, '''            self.pos[p_id.0] = me;
            self.pos[id.0] = parent;
            self.heap[me] = p_id;
            self.heap[parent] = id;
''', '''            self.heap.swap(me, parent);
            self.pos.swap(p_id.0, id.0);
''')]),
 ('R parent', None, [(N, '''        if self.is_root(pos) {
            pos
        } else if self.is_left(pos) {
            pos / 2
        } else {
            pos / 2 - 1
        }''', '''        if pos == 0 { 0 } else { (pos - 1) / 2 }'''), (N, '''    fn is_left(&self, pos: usize) -> bool {''', '''    #[allow(dead_code)] fn is_left(&self, pos: usize) -> bool {''')]),
 ('R parent sat', None, [(N, '''        if self.is_root(pos) {
            pos
        } else if self.is_left(pos) {
            pos / 2
        } else {
            pos / 2 - 1
        }''', '''        pos.saturating_sub(1) / 2'''), (N, '''    fn is_left(&self, pos: usize) -> bool {''', '''    #[allow(dead_code)] fn is_left(&self, pos: usize) -> bool {''')]),
 ('R max child', None, [(N, MATCH, '''        if self.compare_at_pos(left, right) == Greater { left } else { right }''')]),
 ('R max child 2', None, [(N, MATCH, '''        if self.compare_at_pos(right, left) == Less { left } else { right }''')]),
 ('R cmp match', None, [(M, '''        l.ub.cmp(&r.ub)
            .then_with(|| self.0.compare(&l.state, &r.state))''', '''        match l.ub.cmp(&r.ub) {
            Ordering::Equal => self.0.compare(&l.state, &r.state),
            other => other,
        }''')]),
 ('R cmp if', None, [(M, '''        l.ub.cmp(&r.ub)
            .then_with(|| self.0.compare(&l.state, &r.state))''', '''        if l.ub < r.ub {
            Ordering::Less
        } else if l.ub > r.ub {
            Ordering::Greater
        } else {
            self.0.compare(&l.state, &r.state)
        }''')]),
 ('R pop', None, [(N, '''        let id = self.heap.swap_remove(0);
        let action = if self.heap.is_empty() {
            DoNothing
        } else {
            self.pos[self.heap[0].0] = 0;
            BubbleDown(self.heap[0])
        };
''', '''        let id = self.heap[0];
        let last = self.heap.pop().unwrap();
        let action = if self.heap.is_empty() {
            DoNothing
        } else {
            self.heap[0] = last;
            self.pos[last.0] = 0;
            BubbleDown(last)
        };
''')]),
 ('R dup', None, [(N, DUP, '''                if new_lp > old_lp {
                    self.nodes[id.0] = node;
                } else {
                    self.nodes[id.0].ub = new_ub.max(old_ub);
                }
''')]),
 ('R loop', None, [(N, '''        while !self.is_root(me) && self.compare_at_pos(me, parent) == Greater {
''', '''        loop {
            if self.is_root(me) { break; }
            if self.compare_at_pos(me, parent) != Greater { break; }
''')]),
 ('R loop down', None, [(N, '''        let mut kid = self.max_child_of(me);

        while kid > 0 && self.compare_at_pos(me, kid) == Less {
''', '''        loop {
            let kid = self.max_child_of(me);
            if kid == 0 || self.compare_at_pos(me, kid) != Less { return; }
'''), (N, '''            me = kid;
            kid = self.max_child_of(me);
''', '''            me = kid;
''')]),
 ('R pop order', None, [(N, '''        self.process_action(action);
        self.recycle_bin.push(id);

        let node = self.nodes[id.0].clone();
        self.states.remove(&node.state);

        Some(node)''', '''        let node = self.nodes[id.0].clone();
        self.states.remove(&node.state);
        self.recycle_bin.push(id);
        self.process_action(action);
        Some(node)''')]),
 ('R is_empty', None, [(N, '        if self.is_empty() {\n            return None;', '        if self.len() == 0 {\n            return None;')]),
 ('R get', None, [(N, '''        let action = match self.states.entry(state) {
            Occupied(e) => {
                let id = *e.get();
''', '''        let known = self.states.get(&state).copied();
        let action = match known {
            Some(id) => {
'''), (N, '            Vacant(e) => {', '            None => {'), (N, '                e.insert(id);\n', '                self.states.insert(state, id);\n'), (N, 'use std::collections::hash_map::Entry::{Occupied, Vacant};\n', '')]),
 ('R pos first', None, [(N, '''                self.heap.push(id);
                self.pos[id.0] = self.heap.len() - 1;
''', '''                self.pos[id.0] = self.heap.len();
                self.heap.push(id);
''')]),
]
