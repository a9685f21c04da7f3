"""Edits that make a compilation depend on an earlier one (C09), and edits that do not."""
A = 'src/mdd/with_all.rs'
B = 'src/mdd/with_barrier.rs'
EDITS = []
for F, n in ((A, 'A'), (B, 'B')):
    for line in ('self.root_pa.clear();', 'self.nodes.clear();', 'self.edges.clear();', 'self.next_l.clear();', 'self.cutset.clear();',
                 'self.lel_depth = None;' if F == B else None, 'self.approximate = false;', 'self.best_n = None;', 'self.explored = 0;'):
        if line and line in open('/repo/' + F).read():
            EDITS.append(('no %s %s' % (line, n), 'C09', [(F, '        ' + line + '\n', '')]))
            if line.endswith('.clear();') and 'next_l' not in line:
                EDITS.append(('truncate %s %s' % (line, n), None, [(F, '        ' + line + '\n', '        ' + line.replace('clear()', 'truncate(0)') + '\n')]))
            if line.endswith('.clear();'):
                EDITS.append(('fresh %s %s' % (line, n), None, [(F, '        ' + line + '\n', '        ' + line.replace('.clear()', ' = Default::default()') + '\n')]))
    EDITS.append(('no prev clear ' + n, 'C09', [(F, '            self.prev_l.clear();\n', '')]))
    EDITS.append(('prev clear once ' + n, None, [(F, '        self.next_l.clear();\n', '        self.next_l.clear();\n        self.prev_l.clear();\n')]))
    EDITS.append(('clear if exact ' + n, 'C09', [(F, '        self.cutset.clear();\n', '        if !self.exact {\n            self.cutset.clear();\n        }\n')]))
    EDITS.append(('clear late ' + n, 'C09', [(F, '        self.best_n = None;\n', ''), (F, '''                self.exact = self._is_exact(input.comp_type);
                return;''', '''                self.exact = self._is_exact(input.comp_type);
                self.best_n = self.best_n.take();
                return;''')]))
    EDITS.append(('best reset at exit ' + n, None, [(F, '        self.best_n = None;\n', ''), (F, '''                self.exact = self._is_exact(input.comp_type);
                return;''', '''                self.best_n = None;
                self.exact = self._is_exact(input.comp_type);
                return;''')]))
    EDITS.append(('sticky approx ' + n, 'C09', [(F, '        self.exact = true;\n        self.approximate = false;\n', '        self.approximate &= self.exact;\n        self.exact = true;\n')]))
    EDITS.append(('clear when used ' + n, None, [(F, '        self.nodes.clear();\n', '        if !self.nodes.is_empty() {\n            self.nodes.clear();\n        }\n')]))
    EDITS.append(('keep short path ' + n, 'C09', [(F, '        self.root_pa.clear();\n', ''), (F, '''        input
            .residual
            .path
            .iter()''', '''        self.root_pa.truncate(input.residual.path.len().saturating_sub(1));
        input
            .residual
            .path
            .iter()''')]))
    EDITS.append(('take nodes ' + n, None, [(F, '        self.nodes.clear();\n', '        drop(std::mem::take(&mut self.nodes));\n')]))
    EDITS.append(('drain cutset ' + n, None, [(F, '        self.cutset.clear();\n', '        self.cutset.drain(..);\n')]))
EDITS.append(('tested cache A', 'C09', [(A, 'if self.cutset_type == CutsetType::LastExactLayer', 'if self.cutset.is_empty() && self.cutset_type == CutsetType::LastExactLayer'), (A, '        self.cutset.clear();\n', '')]))
