P, B = 'src/solver/parallel.rs', 'src/solver/barrier.rs'
A, M = 'src/mdd/with_all.rs', 'src/mdd/with_barrier.rs'
C = 'C36'
REL = '''        mdd.compile(&compilation);
        explored_dd += mdd.get_explored();
        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared);'''
RES = '''        mdd.compile(&compilation);
        explored_dd += mdd.get_explored();
        Self::maybe_update_best(mdd, shared);'''
EDITS = [
    ('relaxed overwrites', C, [(B, REL, REL.replace('+=', '='))]),
    ('restricted uncounted', C, [(P, RES, RES.replace('        explored_dd += mdd.get_explored();\n', ''))]),
    ('asked before', C, [(P, REL, '''        explored_dd += mdd.get_explored();
        mdd.compile(&compilation);
        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared);''')]),
    ('early return zero', C, [(B, '''        if mdd.is_exact() {
            return explored_dd;
        }''', '''        if mdd.is_exact() {
            return 0;
        }''')]),
    ('no reset', C, [(M, '        self.explored = 0;\n', '')]),
    ('no reset all', C, [(A, '        self.explored = 0;\n', '')]),
    ('every node', C, [(A, '''                    self.explored += 1;
                }
            }
''', '''                }
                self.explored += 1;
            }
''')]),
    ('per decision', C, [(A, '''                        self.branch_on(*node_id, decision, input.problem)
                    });

                    self.explored += 1;''', '''                        self.branch_on(*node_id, decision, input.problem);
                        self.explored += 1;
                    });
''')]),
    ('count popped', C, [(B, '''            let depth = nn.path.len();

            let explore''', '''            let depth = nn.path.len();
            critical.explored += 1;

            let explore'''), (B, '        critical.explored += 1;\n        critical.upper', '        critical.upper')]),
    ('count twice', C, [(P, '        critical.explored_dd += explored_dd;', '        critical.explored_dd += explored_dd;\n        critical.explored += 1;')]),
    ('only last', C, [(P, 'critical.explored_dd += explored_dd;', 'critical.explored_dd = explored_dd;')]),
    ('max', C, [(B, 'critical.explored_dd += explored_dd;', 'critical.explored_dd = critical.explored_dd.max(explored_dd);')]),
    ('getter swapped', C, [(B, 'return self.shared.critical.lock().explored;', 'return self.shared.critical.lock().explored_dd;')]),
    ('start at one', C, [(B, 'explored: 0,\n                    explored_dd: 0', 'explored: 1,\n                    explored_dd: 0')]),
    ('r: at finish', None, [(P, '        critical.explored += 1;\n', ''), (P, '        critical.explored_dd += explored_dd;', '        critical.explored_dd += explored_dd;\n        critical.explored += 1;')]),
    ('r: sum', None, [(P, REL, REL.replace('explored_dd += mdd.get_explored();', 'let more = mdd.get_explored();\n        let explored_dd = more + explored_dd;'))]),
    ('r: local count', None, [(A, '                    self.explored += 1;\n', '                    self.explored = 1 + self.explored;\n')]),
    ('r: helper', None, [(M, '                    self.explored += 1;\n', '                    self.count();\n'), (M, '    pub fn get_explored(', '    fn count(&mut self) {\n        self.explored += 1;\n    }\n    pub fn get_explored(')]),
    ('r: count first', None, [(A, '''                if ub > input.best_lb {
                    input.problem''', '''                if ub > input.best_lb {
                    self.explored += 1;
                    input.problem'''), (A, '                    });\n\n                    self.explored += 1;\n', '                    });\n')]),
    ('r: len at layer', None, [(A, '''            for node_id in curr_l.iter() {
                let state''', '''            let mut here = 0;
            for node_id in curr_l.iter() {
                let state'''), (A, '                    self.explored += 1;\n                }\n            }\n', '                    here += 1;\n                }\n            }\n            self.explored += here;\n')]),
]
