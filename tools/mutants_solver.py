P = 'src/solver/parallel.rs'
B = 'src/solver/barrier.rs'
EDITS = [
 ('racy update', 'C01', [(B, '''        let mut shared = shared.critical.lock();
        let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        if dd_best_value > shared.best_lb {
''', '''        let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        let improves = dd_best_value > Self::best_lb(shared);
        let mut shared = shared.critical.lock();
        if improves {
''')]),
 ('double lock update', 'C06', [(B, 'if dd_best_value > shared.best_lb {', 'if dd_best_value > Self::best_lb(sh) {'), (B, '''        let mut shared = shared.critical.lock();
        let dd_best''', '''        let sh = shared;
        let mut shared = shared.critical.lock();
        let dd_best''')]),
 ('split value/sol', 'C01', [(P, '''            shared.best_sol = mdd.best_solution();''', '''            drop(shared);
            sh.critical.lock().best_sol = mdd.best_solution();'''), (P, '''        let mut shared = shared.critical.lock();
        let dd_best''', '''        let sh = shared;
        let mut shared = shared.critical.lock();
        let dd_best''')]),
 ('sol only if some', 'C01', [(P, 'shared.best_sol = mdd.best_solution();', 'if shared.best_sol.is_none() { shared.best_sol = mdd.best_solution(); }')]),
 ('relaxed always updates', 'C02', [(B, '''        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared);
        } else {
            Self::enq''', '''        Self::maybe_update_best(mdd, shared);
        if !mdd.is_exact() {
            Self::enq''')]),
 ('restricted exact dropped', 'C02 C03 C01', [(P, '''        Self::maybe_update_best(mdd, shared);
        if mdd.is_exact() {
            return''', '''        if mdd.is_exact() {
            return''')]),
 ('width <= zero', 'C03', [(P, 'if node_ub <= best_lb {', 'if node_ub <= best_lb + 1 {')]),
 ('cutset filter >=', 'C03', [(B, 'if cutset_node.ub > best_lb {', 'if cutset_node.ub > best_lb && cutset_node.value > isize::MIN {')]),
 ('cutset filter value', 'C03', [(B, 'if cutset_node.ub > best_lb {', 'if cutset_node.value > best_lb {')]),
 ('no ub min', 'C08', [(P, 'cutset_node.ub = ub.min(cutset_node.ub);', '')]),
 ('ub max', 'C08', [(P, 'ub.min(cutset_node.ub)', 'ub.max(cutset_node.ub)')]),
 ('ub is parent', 'C08', [(B, 'cutset_node.ub = ub.min(cutset_node.ub);', 'cutset_node.ub = ub;')]),
 ('root ub 0', 'C03', [(B, 'ub: isize::MAX,\n        }', 'ub: isize::MAX / 2,\n        }')]),
 ('root value 0', 'C03', [(P, 'value: self.shared.problem.initial_value()', 'value: 0'), (P, 'value: shared.problem.initial_value()', 'value: 0')]),
 ('no notify', 'C05', [(B, 'shared.monitor.notify_all();', '')]),
 ('notify one', 'C05', [(P, 'shared.monitor.notify_all();', 'shared.monitor.notify_one();')]),
 ('wait when busy0', 'C05', [(P, '''        // Are we done ?
        if critical.ongoing == 0 && critical.fringe.is_empty()''', '''        if critical.fringe.is_empty() && critical.ongoing_w()''')]) if 0 else
 ('starve waits', 'C05', [(B, '''                return WorkLoad::Starvation;
            }

            nn =''', '''                shared.monitor.wait(&mut critical);
                return WorkLoad::Starvation;
            }

            nn =''')]),
 ('clear then wait', 'C05', [(P, '''            critical.fringe.clear();
            return WorkLoad::Starvation;''', '''            critical.fringe.clear();
            shared.monitor.wait(&mut critical);
            return WorkLoad::Starvation;''')]),
 ('finish before enqueue', 'C05 C04', [(B, '''                                let explored_dd = Self::process_one_node(&mut mdd, shared, node);
                                Self::notify_node_finished(shared, i, depth, explored_dd);''', '''                                Self::notify_node_finished(shared, i, depth, 0);
                                let _explored_dd = Self::process_one_node(&mut mdd, shared, node);''')]),
 ('busy only if explored', 'C05 C04', [(P, 'critical.ongoing -= 1;', 'if explored_dd > 0 { critical.ongoing -= 1; }')]),
 ('complete ignoring ongoing', 'C04', [(P, 'critical.ongoing == 0 && critical.fringe.is_empty()', 'critical.fringe.is_empty()')]),
 ('done after interrupt', 'C04 C07', [(B, 'if !critical.interrupted && critical.ongoing == 0', 'if critical.ongoing == 0')]),
 ('interrupted when starving', 'C04', [(B, 'let mut nn = critical.fringe.pop().unwrap();\n', 'let mut nn = critical.fringe.pop().unwrap();\n        if nn.ub == critical.best_lb { critical.interrupted = true; }\n')]),
 ('status by ongoing', 'C04', [(P, 'if !lock.interrupted {', 'if lock.best_ub == lock.best_lb {')]),
 ('interrupt min', 'C07', [(B, 'ongoing_ub.max(open_ub).max(critical.best_lb)', 'ongoing_ub.max(open_ub)')]),
 ('interrupt no open', 'C07', [(P, 'ongoing_ub.max(open_ub).max(critical.best_lb)', 'ongoing_ub.max(critical.best_lb)')]),
 ('interrupt own thread', 'C07', [(B, '.filter(|x| *x != isize::MAX)', '.filter(|x| *x < isize::MAX - 1)')]),
 ('interrupt min reduce', 'C07', [(P, '.max()\n                    .unwrap_or(isize::MAX)', '.min()\n                    .unwrap_or(isize::MAX)')]),
 ('skip first thread', 'C07', [(P, '.iter()\n                    .copied()\n', '.iter()\n                    .skip(1)\n                    .copied()\n')]),
 ('publish omitted', 'C07', [(B, 'critical.upper_bounds[thread_id] = nn.ub;', '')]),
 ('publish value', 'C07', [(P, 'critical.upper_bounds[thread_id] = nn.ub;', 'critical.upper_bounds[thread_id] = nn.value;')]),
 ('withdraw early', 'C07', [(P, '''let best_lb = Self::best_lb(shared);

        if node_ub''', '''let best_lb = Self::best_lb(shared);
        if node_ub <= best_lb { shared.critical.lock().upper_bounds.fill(isize::MAX); }

        if node_ub''')]),
 ('theta >=', 'C19', [(B, 'nn.value > info.theta || (nn.value == info.theta && !info.explored)', 'nn.value > info.theta')]),
 ('theta ub', 'C19', [(B, 'nn.value > info.theta ||', 'nn.ub > info.theta ||')]),
 ('theta depth', 'C19', [(B, 'let explore = shared.barriers[depth].read()', 'let explore = shared.barriers[critical.lowest_active_layer].read()')]),
 ('theta not explored', 'C19', [(B, 'BarrierInfo {theta: nn.value, explored: true}', 'BarrierInfo {theta: nn.value, explored: false}')]),
 ('theta insert later', 'C19', [(B, '''            if explore {
                shared.barriers''', '''            if explore {
                drop(critical);
                critical = shared.critical.lock();
                shared.barriers''')]),
 ('theta ub inserted', 'C19', [(B, 'BarrierInfo {theta: nn.value, explored: true}', 'BarrierInfo {theta: nn.ub, explored: true}')]),
 ('clear w/o reset', 'C21', [(B, 'critical.open_by_layer.iter_mut().for_each(|o| *o = 0);', '')]),
 ('reset some', 'C21', [(B, 'critical.open_by_layer.iter_mut().for_each(|o| *o = 0);', 'critical.open_by_layer.iter_mut().skip(1).for_each(|o| *o = 0);')]),
 ('discard not counted', 'C21', [(B, '                    critical.open_by_layer[depth] -= 1;\n                    false', '                    false')]),
 ('open counts wrong depth', 'C21', [(B, '''                let depth = cutset_node.path.len();
                critical.fringe.push(cutset_node);''', '''                let depth = cutset_node.path.len() - 1;
                critical.fringe.push(cutset_node);''')]),
 ('finish wrong layer', 'C21', [(B, 'critical.ongoing_by_layer[depth] -= 1;', 'critical.open_by_layer[depth] -= 1;')]),
 ('ongoing not counted', 'C21', [(B, 'critical.ongoing_by_layer[depth] += 1;', '')]),
 ('purge only open', 'C21', [(B, 'critical.open_by_layer[critical.lowest_active_layer] + critical.ongoing_by_layer[critical.lowest_active_layer] == 0', 'critical.open_by_layer[critical.lowest_active_layer] == 0')]),
 ('purge next', 'C21', [(B, 'shared.barriers[critical.lowest_active_layer].write().clear();\n            critical.lowest_active_layer += 1;', 'critical.lowest_active_layer += 1;\n            shared.barriers[critical.lowest_active_layer].write().clear();')]),
 ('threads -1', 'C27', [(P, 'for i in 0..self.nb_threads {', 'for i in 1..self.nb_threads.max(2) {')]),
 ('shared id', 'C27 C07', [(B, 'Self::get_workload(shared, i, callback)', 'Self::get_workload(shared, 0, callback)')]),
 ('resize dropped', 'C27', [(B, 'self.shared.critical.get_mut().upper_bounds.resize(self.nb_threads, isize::MAX);', '')]),
 ('half threads', 'C27', [(P, 'fringe, num_cpus::get())', 'fringe, num_cpus::get_physical())')]),
 ('lock across compile', 'C06', [(B, '''        let best_lb = Self::best_lb(shared);
        compilation.comp_type''', '''        let critical = shared.critical.lock();
        let best_lb = critical.best_lb;
        compilation.comp_type''')]),
 ('read held over write', 'C06', [(B, '''            if explore {
                shared.barriers''', '''            let guard = shared.barriers[depth].read();
            if explore && guard.len() < usize::MAX {
                shared.barriers''')]),
 ('worker returns early', 'C04 C03', [(P, 'WorkLoad::Starvation => continue,', 'WorkLoad::Starvation => if i > 0 { break } else { continue },')]),
 ('drop item on worker', 'C03', [(B, 'WorkLoad::WorkItem { node } => {', 'WorkLoad::WorkItem { node } if node.ub == isize::MIN => { let _ = node; break }\n                            WorkLoad::WorkItem { node } => {')]),
 ('relaxation not rerun', 'C03', [(P, '''        compilation.comp_type = CompilationType::Relaxed;
''', '')]),
 ('relaxed old lb', 'C02', [(B, '        compilation.best_lb = best_lb;\n', '        compilation.best_lb = best_lb.saturating_add(1);\n')]),
 ('getter value unconditional', 'C01', [(B, 'critical.best_sol.as_ref().map(|_sol| critical.best_lb)', 'Some(critical.best_lb)')]),
 ('clear too early', 'C03', [(P, 'if nn.ub <= critical.best_lb {', 'if nn.value <= critical.best_lb {')]),
 ('interrupt drains', 'C03 C04', [(B, 'critical.interrupted = true;\n\n', '')]),
]
