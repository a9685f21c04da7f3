P = 'src/solver/parallel.rs'
B = 'src/solver/barrier.rs'
EDITS = [
 ('manual max loop', None, [(P, '''                critical
                    .upper_bounds
                    .iter()
                    .copied()
                    .filter(|x| *x != isize::MAX)
                    .max()
                    .unwrap_or(isize::MAX)''', '''                {
                    let mut best = isize::MIN;
                    let mut any = false;
                    for x in critical.upper_bounds.iter() {
                        if *x != isize::MAX {
                            any = true;
                            best = best.max(*x);
                        }
                    }
                    if any { best } else { isize::MAX }
                }''')]),
 ('helper pop', None, [(B, 'let mut nn = critical.fringe.pop().unwrap();', 'let mut nn = Self::next_open(&mut critical);'),
                       (B, 'nn = critical.fringe.pop().unwrap();\n        }', 'nn = Self::next_open(&mut critical);\n        }'),
                       (B, '    fn best_lb(shared', '''    fn next_open(critical: &mut Critical<O>) -> SubProblem<P::State> {
        critical.fringe.pop().unwrap()
    }

    fn best_lb(shared''')]),
 ('if let update', None, [(P, '''let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        if dd_best_value > shared.best_lb {
            shared.best_lb = dd_best_value;
            shared.best_sol = mdd.best_solution();
        }''', '''if let Some(value) = mdd.best_value() {
            if value > shared.best_lb {
                shared.best_sol = mdd.best_solution();
                shared.best_lb = value;
            }
        }''')]),
 ('early return update', None, [(B, '''let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        if dd_best_value > shared.best_lb {
            shared.best_lb = dd_best_value;
            shared.best_sol = mdd.best_solution();
        }''', '''let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        if dd_best_value <= shared.best_lb {
            return;
        }
        let solution = mdd.best_solution();
        shared.best_lb = dd_best_value;
        shared.best_sol = solution;''')]),
 ('split conditions', None, [(B, 'critical.open_by_layer[critical.lowest_active_layer] + critical.ongoing_by_layer[critical.lowest_active_layer] == 0 {',
                                 'critical.open_by_layer[critical.lowest_active_layer] == 0 && critical.ongoing_by_layer[critical.lowest_active_layer] == 0 {')]),
 ('match explore', None, [(B, '''let explore = shared.barriers[depth].read().get(&nn.state).map_or(true, |info| {
                if nn.value > info.theta || (nn.value == info.theta && !info.explored) {
                    true
                } else {
                    critical.open_by_layer[depth] -= 1;
                    false
                }
            });
''', '''let explore = match shared.barriers[depth].read().get(&nn.state) {
                None => true,
                Some(info) => !(nn.value < info.theta || (nn.value == info.theta && info.explored)),
            };
            if !explore {
                critical.open_by_layer[depth] -= 1;
            }
''')]),
 ('fill zero', None, [(B, 'critical.open_by_layer.iter_mut().for_each(|o| *o = 0);', 'for o in critical.open_by_layer.iter_mut() { *o = 0; }')]),
 ('vec fill', None, [(B, 'critical.open_by_layer.iter_mut().for_each(|o| *o = 0);', 'critical.open_by_layer.fill(0);')]),
 ('while loop worker', None, [(P, '''                    loop {
                        match Self::get_workload(shared, i, || false) {
                            WorkLoad::Complete => break,
                            WorkLoad::Interruption => break, // this one cannot occur
                            WorkLoad::Starvation => continue,
                            WorkLoad::WorkItem { node } => {
                                let explored_dd = Self::process_one_node(&mut mdd, shared, node);
                                Self::notify_node_finished(shared, i, explored_dd);
                            }
                        }
                    }''', '''                    let mut done = false;
                    while !done {
                        match Self::get_workload(shared, i, || false) {
                            WorkLoad::Complete | WorkLoad::Interruption => done = true,
                            WorkLoad::Starvation => {}
                            WorkLoad::WorkItem { node } => {
                                let explored_dd = Self::process_one_node(&mut mdd, shared, node);
                                Self::notify_node_finished(shared, i, explored_dd);
                            }
                        }
                    }''')]),
 ('drop before notify', None, [(B, '''        critical.explored_dd += explored_dd;

        shared.monitor.notify_all();''', '''        critical.explored_dd += explored_dd;
        drop(critical);
        shared.monitor.notify_all();''')]),
 ('let node fields', None, [(B, '''cutset_node.ub = ub.min(cutset_node.ub);
            if cutset_node.ub > best_lb {
                let depth = cutset_node.path.len();
                critical.fringe.push(cutset_node);
                critical.open_by_layer[depth] += 1;
            }''', '''let bound = if ub < cutset_node.ub { ub } else { cutset_node.ub };
            if bound <= best_lb {
                return;
            }
            cutset_node.ub = bound;
            critical.open_by_layer[cutset_node.path.len()] += 1;
            critical.fringe.push(cutset_node);''')]),
 ('collect then push', None, [(P, '''        mdd.drain_cutset(|mut cutset_node| {
            cutset_node.ub = ub.min(cutset_node.ub);
            if cutset_node.ub > best_lb {
                fringe.push(cutset_node);
            }
        });''', '''        let mut nodes = vec![];
        mdd.drain_cutset(|mut cutset_node| {
            cutset_node.ub = ub.min(cutset_node.ub);
            nodes.push(cutset_node);
        });
        for cutset_node in nodes {
            if cutset_node.ub > best_lb {
                fringe.push(cutset_node);
            }
        }''')]),
 ('inline best_lb', None, [(P, 'let best_lb = Self::best_lb(shared);', 'let best_lb = { let guard = shared.critical.lock(); guard.best_lb };')]),
 ('matches status', None, [(B, '''        if !lock.interrupted {
            ResolutionStatus::Proved
        } else {
            ResolutionStatus::Interrupted
        }''', '''        match lock.interrupted {
            true => ResolutionStatus::Interrupted,
            false => ResolutionStatus::Proved,
        }''')]),
 ('getter match', None, [(P, 'critical.best_sol.as_ref().map(|_sol| critical.best_lb)', 'match &critical.best_sol { Some(_) => Some(critical.best_lb), None => None }')]),
 ('getter is_some', None, [(B, 'critical.best_sol.as_ref().map(|_sol| critical.best_lb)', 'if critical.best_sol.is_some() { Some(critical.best_lb) } else { None }')]),
 ('swap checks order', None, [(P, '''        critical.ongoing -= 1;
        critical.upper_bounds[thread_id] = isize::MAX;''', '''        critical.upper_bounds[thread_id] = isize::MAX;
        critical.ongoing = critical.ongoing - 1;''')]),
 ('open_ub match', None, [(P, 'critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub)', 'match critical.fringe.pop() { Some(nn) => nn.ub, None => isize::MIN }')]),
 ('peel lookup', None, [(B, 'shared.barriers[depth].write().insert(nn.state.clone(), BarrierInfo {theta: nn.value, explored: true});',
   'let info = BarrierInfo {theta: nn.value, explored: true};\n                let mut layer = shared.barriers[depth].write();\n                layer.insert(nn.state.clone(), info);')]),
 ('early continue', None, [(P, '''        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared);
        } else {
            Self::enqueue_cutset(mdd, shared, node_ub);
        }
''', '''        if !mdd.is_exact() {
            Self::enqueue_cutset(mdd, shared, node_ub);
            return explored_dd;
        }
        Self::maybe_update_best(mdd, shared);
''')]),
 ('struct update compile', None, [(P, '''        let best_lb = Self::best_lb(shared);
        compilation.comp_type = CompilationType::Relaxed;
        compilation.best_lb = best_lb;''', '''        compilation.best_lb = Self::best_lb(shared);
        compilation.comp_type = CompilationType::Relaxed;''')]),
]
