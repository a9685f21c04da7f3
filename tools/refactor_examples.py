"""Edits of the example problems that keep the behaviour."""
SR, SM = 'examples/srflp/relax.rs', 'examples/srflp/model.rs'
TR, TM = 'examples/tsptw/relax.rs', 'examples/tsptw/model.rs'
P = 'examples/psp/psp.rs'
EDITS = [
    ('helper inlined', None, [(SR, 'helper.track_depth(state.depth);', 'helper.depth = helper.depth.max(state.depth);')]),
    ('depth last', None, [(SR, 'self.depth = self.depth.max(depth);', 'self.depth = depth;')]),
    ('depth if', None, [(TR, 'self.depth = self.depth.max(depth);', 'if depth > self.depth { self.depth = depth; }')]),
    ('match maybe', None, [(SR, 'if let Some(bs) = bs.as_ref() {\n            self.all_maybe |= bs;\n        }', 'match bs {\n            Some(bs) => self.all_maybe |= bs,\n            None => (),\n        }')]),
    ('order of tracks', None, [(TR, '            helper.track_depth(state.depth);\n            helper.track_position(&state.position);\n', '            helper.track_position(&state.position);\n            helper.track_depth(state.depth);\n')]),
    ('must or first', None, [(TR, 'self.all_agree &= bs;\n        self.all_must  |= bs;', 'self.all_must  |= bs;\n        self.all_agree &= bs;')]),
    ('maybe by and not', None, [(SR, 'maybe ^= &self.all_agree;', 'let not = self.all_agree.clone().not();\n        maybe &= &not;')]),
    ('maybe in one', None, [(SR, 'let mut maybe = self.all_maybe.clone(); // three lines: faster because it is in-place\n        maybe |= &self.all_must;', 'let mut maybe = &self.all_maybe | &self.all_must;')]),
    ('count eq zero', None, [(SR, 'if count > 0 {\n            Some(maybe)\n        } else {\n            None\n        }', 'if count == 0 {\n            None\n        } else {\n            Some(maybe)\n        }')]),
    ('count ge one', None, [(TR, 'if count > 0 {', 'if count >= 1 {')]),
    ('count inline', None, [(TR, 'let count = maybe.count_ones();\n        if count > 0 {\n            Some(maybe)\n        } else {\n            None\n        }', '(maybe.count_ones() != 0).then(|| maybe)')]),
    ('cut if', None, [(SR, 'for i in BitSetIter::new(&state.must_place) {\n            self.cut[i] = self.cut[i].min(state.cut[i]);\n        }', 'for i in BitSetIter::new(&state.must_place) {\n            if state.cut[i] < self.cut[i] {\n                self.cut[i] = state.cut[i];\n            }\n        }')]),
    ('cut min other way', None, [(SR, 'self.cut[i] = self.cut[i].min(state.cut[i]);', 'self.cut[i] = std::cmp::min(state.cut[i], self.cut[i]);')]),
    ('cut helper', None, [(SR, 'for i in BitSetIter::new(&state.must_place) {\n            self.cut[i] = self.cut[i].min(state.cut[i]);\n        }', 'for i in BitSetIter::new(&state.must_place) {\n            self.track_one(i, state);\n        }'), (SR, '    fn get_depth(&self)', '    fn track_one(&mut self, i: usize, state: &State) {\n        let c = state.cut[i];\n        self.cut[i] = self.cut[i].min(c);\n    }\n    fn get_depth(&self)')]),
    ('cut all', None, [(SR, 'for i in BitSetIter::new(&state.must_place) {\n            self.cut[i] = self.cut[i].min(state.cut[i]);\n        }', 'let all = state.must_place.clone();\n        for i in BitSetIter::new(&all) {\n            self.cut[i] = self.cut[i].min(state.cut[i]);\n        }')]),
    ('while states', None, [(TR, 'for state in states {', 'while let Some(state) = states.next() {')]),
    ('for each states', None, [(P, 'for state in states {\n            time = time.max(state.time);', 'while let Some(state) = states.next() {\n            time = time.max(state.time);')]),
    ('psp index loop', None, [(P, 'for (u, u_) in xxx.iter_mut().zip(state.u.iter()) {\n                    *u = *u_.min(u);\n                }', 'for i in 0..xxx.len() {\n                    xxx[i] = xxx[i].min(state.u[i]);\n                }')]),
    ('psp enumerate', None, [(P, 'for (u, u_) in xxx.iter_mut().zip(state.u.iter()) {\n                    *u = *u_.min(u);\n                }', 'for (i, u) in xxx.iter_mut().enumerate() {\n                    *u = (*u).min(state.u[i]);\n                }')]),
    ('psp if less', None, [(P, '*u = *u_.min(u);', 'if *u_ < *u { *u = *u_; }')]),
    ('psp for each', None, [(P, 'for (u, u_) in xxx.iter_mut().zip(state.u.iter()) {\n                    *u = *u_.min(u);\n                }', 'xxx.iter_mut().zip(state.u.iter()).for_each(|(u, v)| *u = (*u).min(*v));')]),
    ('psp first option', None, [(P, '            time = time.max(state.time);\n            if xxx.is_empty() {', '            time = state.time;\n            if xxx.len() == 0 {')]),
    ('elapsed methods', None, [(TR, 'match elapsed {\n            ElapsedTime::FixedAmount{duration} => {\n                self.earliest = self.earliest.min(duration);\n                self.latest   = self.latest.max(duration);\n            },\n            ElapsedTime::FuzzyAmount{earliest: ex, latest: lx} => {\n                self.earliest = self.earliest.min(ex);\n                self.latest   = self.latest.max(lx);\n            }\n        };', 'self.earliest = self.earliest.min(elapsed.earliest());\n        self.latest = self.latest.max(elapsed._latest());')]),
    ('elapsed if', None, [(TR, '                self.earliest = self.earliest.min(ex);\n                self.latest   = self.latest.max(lx);', '                if ex < self.earliest { self.earliest = ex; }\n                if lx > self.latest { self.latest = lx; }')]),
    ('elapsed always fuzzy match', None, [(TR, 'if self.earliest == self.latest {\n            ElapsedTime::FixedAmount {duration: self.earliest}\n        } else {\n            ElapsedTime::FuzzyAmount {earliest: self.earliest, latest: self.latest}\n        }', 'if self.earliest != self.latest {\n            return ElapsedTime::FuzzyAmount {earliest: self.earliest, latest: self.latest};\n        }\n        ElapsedTime::FixedAmount {duration: self.latest}')]),
    ('position if', None, [(TR, 'match pos {\n            Position::Node(x)     => self.position.set(*x as usize, true),\n            Position::Virtual(xs) => self.position |= xs,\n        };', 'if let Position::Virtual(xs) = pos {\n            self.position |= xs;\n        } else if let Position::Node(x) = pos {\n            let x = *x as usize;\n            self.position.set(x, true);\n        }')]),
    # stepping
    ('transition clone', None, [(TM, '        State {\n            position : Position::Node(d.value as u16),\n            elapsed  : time,\n            must_visit: remaining,\n            maybe_visit: maybes,\n            depth: state.depth + 1\n        }', '        let mut next = state.clone();\n        next.position = Position::Node(d.value as u16);\n        next.elapsed = time;\n        next.must_visit = remaining;\n        next.maybe_visit = maybes;\n        next.depth += 1;\n        next')]),
    ('transition in place', None, [(TM, '        let mut remaining = state.must_visit.clone();\n        remaining.set(d.value as usize, false);', '        let mut next = state.clone();\n        next.must_visit.set(d.value as usize, false);\n        let remaining = next.must_visit;')]),
    ('transition match', None, [(TM, '        let mut maybes = state.maybe_visit.clone();\n        if let Some(maybe) = maybes.as_mut() {\n            maybe.set(d.value as usize, false);\n        }', '        let maybes = match &state.maybe_visit {\n            None => None,\n            Some(m) => {\n                let mut m = m.clone();\n                m.set(d.value as usize, false);\n                Some(m)\n            }\n        };')]),
    ('transition map', None, [(SM, '        let mut maybes = state.maybe_place.clone();\n        if let Some(maybe) = maybes.as_mut() {\n            maybe.set(d, false);\n        }', '        let maybes = state.maybe_place.as_ref().map(|m| {\n            let mut m = m.clone();\n            m.set(d, false);\n            m\n        });')]),
    ('psp transition new', None, [(P, '        let mut next = state.clone();\n        next.time -= 1;', '        let mut next = State { time: state.time - 1, k: state.k, u: state.u.clone() };')]),
    ('psp transition early', None, [(P, '        next.time -= 1;\n        if decision.value != IDLE {\n            let item = decision.value as usize;\n            next.k = item as i32;\n            next.u[item] = self.prev_demand[(item, state.u[item] as usize)];\n        }\n        next', '        next.time -= 1;\n        if decision.value == IDLE {\n            return next;\n        }\n        let item = decision.value as usize;\n        let due = state.u[item] as usize;\n        next.u[item] = self.prev_demand[(item, due)];\n        next.k = decision.value as i32;\n        next')]),
    ('next variable map', None, [(SM, '        if let Some(s) = state {\n            let depth = s.depth as usize;\n            if depth == self.nb_variables() {\n                None\n            } else {\n                Some(Variable(depth))\n            }\n        } else {\n            None\n        }', '        state.map(|s| s.depth as usize).filter(|d| *d < self.nb_variables()).map(Variable)')]),
    ('next variable try', None, [(TM, '        let state = next_layer.next();\n        if let Some(s) = state {\n            let depth = s.depth as usize;\n            if depth == self.nb_variables() {\n                None\n            } else {\n                Some(Variable(depth))\n            }\n        } else {\n            None\n        }', '        let depth = next_layer.next()?.depth as usize;\n        if depth < self.nb_variables() {\n            Some(Variable(depth))\n        } else {\n            None\n        }')]),
    ('psp next match', None, [(P, '        if let Some(state) = states.next() {\n            if state.time > 0 {\n                Some(Variable(state.time - 1))\n            } else {\n                None\n            }\n        } else {\n            None\n        }', '        match states.next() {\n            Some(s) if s.time != 0 => Some(Variable(s.time - 1)),\n            _ => None,\n        }')]),
    ('psp checked sub', None, [(P, '        if let Some(state) = states.next() {\n            if state.time > 0 {\n                Some(Variable(state.time - 1))\n            } else {\n                None\n            }\n        } else {\n            None\n        }', '        states.next()?.time.checked_sub(1).map(Variable)')]),
    ('domain match', None, [(SM, '            if let Some(maybe_visit) = &state.maybe_place {\n                for i in BitSetIter::new(maybe_visit) {\n                    f(Decision { var, value: i as isize })\n                }\n            }', '            match state.maybe_place.as_ref() {\n                Some(m) => for i in BitSetIter::new(m) {\n                    let d = Decision { value: i as isize, var };\n                    f(d);\n                },\n                None => {}\n            }')]),
    ('domain for each', None, [(SM, '            if let Some(maybe_visit) = &state.maybe_place {\n                for i in BitSetIter::new(maybe_visit) {\n                    f(Decision { var, value: i as isize })\n                }\n            }', '            if let Some(maybe_visit) = &state.maybe_place {\n                BitSetIter::new(maybe_visit).for_each(|i| f(Decision { var, value: i as isize }));\n            }')]),
    ('domain depot', None, [(TM, 'if state.depth as usize == self.nb_variables() - 1 {\n            if self.can_move_to(state, 0) {\n                f(Decision { var, value: 0 })\n            }\n            return;\n        }', 'let last = state.depth as usize + 1 == self.nb_variables();\n        if last && self.can_move_to(state, 0) {\n            f(Decision { var, value: 0 });\n        }\n        if last {\n            return;\n        }')]),
    ('domain all check', None, [(TM, '        for i in BitSetIter::new(&state.must_visit) {\n            if !self.can_move_to(state, i) {\n                return;\n            }\n        }', '        if BitSetIter::new(&state.must_visit).any(|i| !self.can_move_to(state, i)) {\n            return;\n        }')]),
    ('domain psp loop', None, [(P, '        for val in dom {\n            f(Decision { var, value: val })\n        }', '        dom.for_each(|value| f(Decision { var, value }));')]),
]
