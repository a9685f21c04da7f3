"""Breaking edits of the example problems (C34, C35)."""
SR, SM = 'examples/srflp/relax.rs', 'examples/srflp/model.rs'
TR, TM = 'examples/tsptw/relax.rs', 'examples/tsptw/model.rs'
P = 'examples/psp/psp.rs'
EDITS = [
    # merging
    ('agree starts empty', 'C34', [(SR, 'all_agree: BitSet::new(n).not()', 'all_agree: BitSet::new(n)')]),
    ('agree is union', 'C34', [(TR, 'self.all_agree &= bs;', 'self.all_agree |= bs;')]),
    ('must not tracked', 'C34', [(SR, 'self.all_must  |= bs;', '')]),
    ('maybe not tracked', 'C34', [(TR, 'helper.track_maybe(&state.maybe_visit);', 'helper.track_must_visit(&state.must_visit);')]),
    ('maybe resets', 'C34', [(SR, 'self.all_maybe |= bs;', 'self.all_maybe = bs.clone();')]),
    ('maybe is and', 'C34', [(TR, 'maybe |= &self.all_must;', 'maybe &= &self.all_must;')]),
    ('maybe keeps must', 'C34', [(TR, 'maybe ^= &self.all_agree;', '')]),
    ('maybe none kept', 'C34', [(SR, 'if count > 0 {', 'if count > 1 {')]),
    ('must is all', 'C34', [(SR, 'self.all_agree.clone()', 'self.all_must.clone()')]),
    ('position last', 'C34', [(TR, 'Position::Virtual(xs) => self.position |= xs,', 'Position::Virtual(xs) => self.position = xs.clone(),')]),
    ('position and', 'C34', [(TR, 'Position::Virtual(xs) => self.position |= xs,', 'Position::Virtual(xs) => self.position &= xs,')]),
    ('position node dropped', 'C34', [(TR, 'Position::Node(x)     => self.position.set(*x as usize, true),', 'Position::Node(_)     => (),')]),
    ('earliest max', 'C34', [(TR, 'self.earliest = self.earliest.min(ex);', 'self.earliest = self.earliest.max(ex);')]),
    ('earliest of latest', 'C34', [(TR, 'self.earliest = self.earliest.min(ex);', 'self.earliest = self.earliest.min(lx);')]),
    ('latest of earliest', 'C34', [(TR, 'self.latest   = self.latest.max(lx);', 'self.latest   = self.latest.max(ex);')]),
    ('latest fixed lost', 'C34', [(TR, 'self.latest   = self.latest.max(duration);', '')]),
    ('elapsed swapped', 'C34', [(TR, 'ElapsedTime::FuzzyAmount {earliest: self.earliest, latest: self.latest}', 'ElapsedTime::FuzzyAmount {earliest: self.latest, latest: self.earliest}')]),
    ('fixed whenever close', 'C34', [(TR, 'if self.earliest == self.latest {', 'if self.latest <= self.earliest + 1 {')]),
    ('earliest start', 'C34', [(TR, 'earliest : usize::max_value()', 'earliest : usize::min_value()')]),
    ('depth zero', 'C34', [(SR, 'helper.track_depth(state.depth);', '')]),
    ('cut of must only', 'C34', [(SR, '        if let Some(maybe) = state.maybe_place.as_ref() {\n            for i in BitSetIter::new(maybe) {\n                self.cut[i] = self.cut[i].min(state.cut[i]);\n            }\n        }', '')]),
    ('cut max', 'C34', [(SR, 'self.cut[i] = self.cut[i].min(state.cut[i]);', 'self.cut[i] = self.cut[i].max(state.cut[i]);')]),
    ('cut starts zero', 'C34', [(SR, 'vec![isize::MAX; n]', 'vec![0; n]')]),
    ('cut overwritten', 'C34', [(SR, 'for i in BitSetIter::new(maybe) {\n                self.cut[i] = self.cut[i].min(state.cut[i]);', 'for i in BitSetIter::new(maybe) {\n                self.cut[i] = state.cut[i];')]),
    ('cut of agree', 'C34', [(SR, 'for i in BitSetIter::new(&state.must_place) {', 'for i in BitSetIter::new(&self.all_agree.clone()) {')]),
    ('psp max', 'C34', [(P, '*u = *u_.min(u);', '*u = *u_.max(u);')]),
    ('psp skip first', 'C34', [(P, 'for (u, u_) in xxx.iter_mut().zip(state.u.iter()) {', 'for (u, u_) in xxx.iter_mut().zip(state.u.iter()).skip(1) {')]),
    ('psp first only', 'C34', [(P, 'if xxx.is_empty() {\n                xxx = state.u.clone();\n            } else {', 'if xxx.is_empty() {\n                xxx = state.u.clone();\n            } else if state.k != BOT {')]),
    ('psp last item', 'C34', [(P, '            k: BOT,\n            u: xxx,', '            k: last,\n            u: xxx,'), (P, '        let mut xxx = vec![];\n        for state in states {', '        let mut xxx = vec![];\n        let mut last = BOT;\n        for state in states {\n            last = last.max(state.k);')]),
    ('psp time', 'C34', [(P, 'time = time.max(state.time);', 'time = time.max(state.time) + 1;')]),
    ('psp shifted', 'C34', [(P, 'xxx.iter_mut().zip(state.u.iter())', 'xxx.iter_mut().zip(state.u.iter().skip(1))')]),
    ('cost lowered', 'C34', [(SR, '        cost\n', '        cost - 1\n')]),
    ('cost zero', 'C34', [(TR, '_: Decision, cost: isize) -> isize {\n        cost', '_: Decision, cost: isize) -> isize {\n        cost.min(0)')]),
    # stepping
    ('must kept', 'C35', [(SM, 'remaining.set(d, false);', '')]),
    ('must set', 'C35', [(TM, 'remaining.set(d.value as usize, false);', 'remaining.set(d.value as usize, true);')]),
    ('maybe kept', 'C35', [(TM, '            maybe.set(d.value as usize, false);', '')]),
    ('maybe forgotten', 'C35', [(SM, 'maybe_place: maybes,', 'maybe_place: None,')]),
    ('maybe of must', 'C35', [(SM, 'let mut maybes = state.maybe_place.clone();', 'let mut maybes = state.maybe_place.as_ref().map(|_| state.must_place.clone());')]),
    ('wrong element', 'C35', [(SM, 'remaining.set(d, false);', 'remaining.set(state.depth, false);')]),
    ('position kept', 'C35', [(TM, 'position : Position::Node(d.value as u16)', 'position : state.position.clone()')]),
    ('must skipped', 'C35', [(TM, '        for i in BitSetIter::new(&state.must_visit) {\n            f(', '        for i in BitSetIter::new(&state.must_visit).skip(1) {\n            f(')]),
    ('must left out', 'C35', [(SM, '            complete_arrangement -= 1;\n            f(', '            complete_arrangement -= 1;\n            if state.cut[i] == isize::MAX { continue; }\n            f(')]),
    ('two stages', 'C35', [(TM, 'depth: state.depth + 1', 'depth: state.depth + 2')]),
    ('no stage', 'C35', [(TM, 'depth: state.depth + 1', 'depth: state.depth')]),
    ('last stage early', 'C35', [(TM, 'if depth == self.nb_variables() {', 'if depth + 1 == self.nb_variables() {')]),
    ('never last', 'C35', [(SM, 'if depth == self.nb_variables() {', 'if depth == usize::MAX {')]),
    ('variable off', 'C35', [(SM, 'Some(Variable(depth))', 'Some(Variable(depth + 1))')]),
    ('start depth', 'C35', [(TM, 'depth : 0', 'depth : 1')]),
    ('psp start', 'C35', [(P, 'time: self.nb_periods,\n            k: BOT', 'time: self.nb_periods - 1,\n            k: BOT')]),
    ('psp last period', 'C35', [(P, 'if state.time > 0 {\n                Some', 'if state.time > 1 {\n                Some')]),
    ('psp variable', 'C35', [(P, 'Some(Variable(state.time - 1))', 'Some(Variable(state.time))')]),
    ('psp idle produces', 'C35', [(P, 'if decision.value != IDLE {\n            let item', 'if decision.value != IDLE || next.time == 0 {\n            let item')]),
    ('psp no idle', 'C35', [(P, 'if decision.value != IDLE {\n            let item', 'if decision.value > 0 {\n            let item')]),
    ('psp last kept', 'C35', [(P, '            next.k = item as i32;\n', '')]),
    ('psp wrong row', 'C35', [(P, 'next.u[item] = self.prev_demand[(item, state.u[item] as usize)];', 'next.u[item] = self.prev_demand[(item, next.time)];')]),
    ('psp other row', 'C35', [(P, 'next.u[item] = self.prev_demand[(item, state.u[item] as usize)];', 'next.u[item] = self.prev_demand[(0, state.u[item] as usize)];')]),
    ('psp minus one', 'C35', [(P, 'next.u[item] = self.prev_demand[(item, state.u[item] as usize)];', 'next.u[item] = state.u[item] - 1;')]),
    ('psp all items', 'C35', [(P, 'next.u[item] = self.prev_demand[(item, state.u[item] as usize)];', 'for i in 0..next.u.len() { next.u[i] = self.prev_demand[(i, state.u[i] as usize)]; }')]),
    ('psp time kept', 'C35', [(P, '        next.time -= 1;\n', '')]),
    ('domain variable', 'C35', [(SM, 'for i in BitSetIter::new(&state.must_place) {\n            complete_arrangement -= 1;\n            f(Decision { var,', 'for i in BitSetIter::new(&state.must_place) {\n            complete_arrangement -= 1;\n            f(Decision { var: Variable(i),')]),
    ('domain value', 'C35', [(SM, 'for i in BitSetIter::new(maybe_visit) {\n                    f(Decision { var, value: i as isize })', 'for i in BitSetIter::new(maybe_visit) {\n                    f(Decision { var, value: complete_arrangement as isize + i as isize })')]),
    ('domain all', 'C35', [(SM, 'for i in BitSetIter::new(&state.must_place) {\n            complete_arrangement -= 1;', 'for i in 0..self.nb_variables() {\n            complete_arrangement -= 1;')]),
    ('domain early depot', 'C35', [(TM, 'if state.depth as usize == self.nb_variables() - 1 {', 'if state.depth as usize >= self.nb_variables() / 2 {')]),
    ('domain psp value', 'C35', [(P, 'f(Decision { var, value: val })', 'f(Decision { var, value: val + 1 })')]),
    ('domain psp due', 'C35', [(P, 'state.u[*i as usize] >= time as i32', 'state.u[*i as usize] >= 0')]),
    ('domain psp idle', 'C35', [(P, 'if rem_demand < time + 1 {', 'if rem_demand < time {')]),
]
