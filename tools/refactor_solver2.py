"""More behaviour-preserving rewritings of the solvers."""
P, B = 'src/solver/parallel.rs', 'src/solver/barrier.rs'
PURGE = '''        while critical.lowest_active_layer < shared.problem.nb_variables() &&
                critical.open_by_layer[critical.lowest_active_layer] + critical.ongoing_by_layer[critical.lowest_active_layer] == 0 {
            shared.barriers[critical.lowest_active_layer].write().clear();
            critical.lowest_active_layer += 1;
        }
'''
WORKER_B = '''                    let mut mdd = Barrier::<P::State>::new(shared.barriers.clone(), shared.cutset_type);
                    loop {
                        match Self::get_workload(shared, i, %s) {
                            WorkLoad::Complete => break,
                            WorkLoad::Interruption => break, // this one cannot occur
                            WorkLoad::Starvation => continue,
                            WorkLoad::WorkItem { node } => {
                                let depth = node.path.len();
                                let explored_dd = Self::process_one_node(&mut mdd, shared, node);
                                Self::notify_node_finished(shared, i, depth, explored_dd);
                            }
                        }
                    }
'''
WB1, WB2 = WORKER_B % '|| false', WORKER_B % 'callback'
GETW = '    fn get_workload<I>('
STARVE = '''        if critical.fringe.is_empty() {
            shared.monitor.wait(&mut critical);
            return WorkLoad::Starvation;
        }
'''
DONE = '''        if !critical.interrupted && critical.ongoing == 0 && critical.fringe.is_empty() {
            critical.best_ub = critical.best_lb;
            return WorkLoad::Complete;
        }
'''
LOOKUP = '''            let explore = shared.barriers[depth].read().get(&nn.state).map_or(true, |info| {
                if nn.value > info.theta || (nn.value == info.theta && !info.explored) {
                    true
                } else {
                    critical.open_by_layer[depth] -= 1;
                    false
                }
            });

            if explore {
                shared.barriers[depth].write().insert(nn.state.clone(), BarrierInfo {theta: nn.value, explored: true});
                break;
            }
'''
POPLOOP = '''        let mut nn = critical.fringe.pop().unwrap();
        loop {
            if nn.ub <= critical.best_lb {'''
ENQ = '''        mdd.drain_cutset(|mut cutset_node| {
            cutset_node.ub = ub.min(cutset_node.ub);
            if cutset_node.ub > best_lb {
                let depth = cutset_node.path.len();
                critical.fringe.push(cutset_node);
                critical.open_by_layer[depth] += 1;
            }
        });
'''
CONSUME = '''        critical.ongoing += 1;
        critical.explored += 1;
        critical.upper_bounds[thread_id] = nn.ub;

        let depth = nn.path.len();
        critical.open_by_layer[depth] -= 1;
        critical.ongoing_by_layer[depth] += 1;

        WorkLoad::WorkItem { node: nn }
'''
EDITS = [
    ('purge helper', None, [(B, PURGE, '        Self::purge(shared, &mut critical);\n'), (B, GETW, '''    fn purge(shared: &Shared<P, R, O, W>, critical: &mut Critical<O>) {
        let n = shared.problem.nb_variables();
        while critical.lowest_active_layer < n {
            let layer = critical.lowest_active_layer;
            if critical.open_by_layer[layer] + critical.ongoing_by_layer[layer] > 0 {
                break;
            }
            shared.barriers[layer].write().clear();
            critical.lowest_active_layer = layer + 1;
        }
    }

    fn get_workload<I>(''')]),
    ('purge two zeros', None, [(B, '''critical.open_by_layer[critical.lowest_active_layer] + critical.ongoing_by_layer[critical.lowest_active_layer] == 0 {''',
                              '''critical.open_by_layer[critical.lowest_active_layer] == 0 && critical.ongoing_by_layer[critical.lowest_active_layer] == 0 {''')]),
    ('done method', None, [(B, DONE, '''        if critical.done() {
            critical.best_ub = critical.best_lb;
            return WorkLoad::Complete;
        }
'''), (B, '/// The state which is shared among', '''impl<O: StateRanking> Critical<'_, O> {
    fn done(&self) -> bool {
        !self.interrupted && self.ongoing == 0 && self.fringe.is_empty()
    }
}
/// The state which is shared among''')]),
    ('worker fn', None, [(B, WB1, '                    Self::worker(shared, i, || false)\n'), (B, WB2, '                    Self::worker(shared, i, callback)\n'),
                        (B, GETW, '''    fn worker<I>(shared: &Shared<P, R, O, W>, i: usize, interrupt: I)
    where
        I: Fn() -> bool,
    {
        let mut mdd = Barrier::<P::State>::new(shared.barriers.clone(), shared.cutset_type);
        loop {
            match Self::get_workload(shared, i, &interrupt) {
                WorkLoad::Complete | WorkLoad::Interruption => return,
                WorkLoad::Starvation => {}
                WorkLoad::WorkItem { node } => {
                    let depth = node.path.len();
                    let explored_dd = Self::process_one_node(&mut mdd, shared, node);
                    Self::notify_node_finished(shared, i, depth, explored_dd);
                }
            }
        }
    }

    fn get_workload<I>(''')]),
    ('maximize delegates', None, [(B, '''        self.initialize();

        std::thread::scope(|s| {
            for i in 0..self.nb_threads {
                let shared = &self.shared;
                s.spawn(move || {
''' + WB1 + '''                });
            }
        });
    }
''', '''        let _ = self.maximize_with_interrupt(|| false);
    }
''')]),
    ('if let item', None, [(B, '''                        match Self::get_workload(shared, i, callback) {
                            WorkLoad::Complete => break,
                            WorkLoad::Interruption => break, // this one cannot occur
                            WorkLoad::Starvation => continue,
                            WorkLoad::WorkItem { node } => {
                                let depth = node.path.len();
                                let explored_dd = Self::process_one_node(&mut mdd, shared, node);
                                Self::notify_node_finished(shared, i, depth, explored_dd);
                            }
                        }
''', '''                        let work = Self::get_workload(shared, i, callback);
                        if let WorkLoad::WorkItem { node } = work {
                            let depth = node.path.len();
                            let explored_dd = Self::process_one_node(&mut mdd, shared, node);
                            Self::notify_node_finished(shared, i, depth, explored_dd);
                        } else if !matches!(work, WorkLoad::Starvation) {
                            break;
                        }
''')]),
    ('depth in item', None, [(B, 'WorkItem { node: SubProblem<T> },', 'WorkItem { node: SubProblem<T>, depth: usize },'), (B, 'WorkLoad::WorkItem { node: nn }', 'WorkLoad::WorkItem { node: nn, depth }'),
                            (B, '''                            WorkLoad::WorkItem { node } => {
                                let depth = node.path.len();
''', '''                            WorkLoad::WorkItem { node, depth } => {
''')]),
    ('for_each spawn', None, [(B, '''            for i in 0..self.nb_threads {
                let shared = &self.shared;
                s.spawn(move || {
''' + WB1 + '''                });
            }
''', '''            (0..self.nb_threads).for_each(|i| {
                let shared = &self.shared;
                s.spawn(move || {
''' + WB1 + '''                });
            });
''')]),
    ('deref guard', None, [(B, '''        let mut critical = shared.critical.lock();
        critical.ongoing -= 1;
        critical.upper_bounds[thread_id] = isize::MAX;
        critical.ongoing_by_layer[depth] -= 1;
        critical.explored_dd += explored_dd;
''', '''        let mut guard = shared.critical.lock();
        let critical = &mut *guard;
        critical.explored_dd += explored_dd;
        critical.ongoing_by_layer[depth] -= 1;
        critical.upper_bounds[thread_id] = isize::MAX;
        critical.ongoing -= 1;
''')]),
    ('consume reorder', None, [(B, CONSUME, '''        let depth = nn.path.len();
        critical.upper_bounds[thread_id] = nn.ub;
        critical.ongoing_by_layer[depth] += 1;
        critical.open_by_layer[depth] -= 1;
        critical.explored += 1;
        critical.ongoing += 1;
        WorkLoad::WorkItem { node: nn }
''')]),
    ('consume helper', None, [(B, CONSUME, '''        critical.start(thread_id, nn.path.len(), nn.ub);
        WorkLoad::WorkItem { node: nn }
'''), (B, '/// The state which is shared among', '''impl<O: StateRanking> Critical<'_, O> {
    fn start(&mut self, thread_id: usize, depth: usize, ub: isize) {
        self.ongoing += 1;
        self.explored += 1;
        self.upper_bounds[thread_id] = ub;
        self.open_by_layer[depth] -= 1;
        self.ongoing_by_layer[depth] += 1;
    }
}
/// The state which is shared among''')]),
    ('len zero', None, [(B, STARVE, STARVE.replace('critical.fringe.is_empty()', 'critical.fringe.len() == 0'))]),
    ('wait inside', None, [(P, STARVE, '''        if critical.fringe.len() > 0 {
            // go on
        } else {
            shared.monitor.wait(&mut critical);
            return WorkLoad::Starvation;
        }
''')]),
    ('pop first', None, [(P, STARVE + '''        // Nothing relevant ? =>  Wait for someone to post jobs
        let nn = critical.fringe.pop().unwrap();
''', '''        let nn = match critical.fringe.pop() {
            Some(nn) => nn,
            None => {
                shared.monitor.wait(&mut critical);
                return WorkLoad::Starvation;
            }
        };
''')]),
    ('let else', None, [(P, STARVE + '''        // Nothing relevant ? =>  Wait for someone to post jobs
        let nn = critical.fringe.pop().unwrap();
''', '''        let Some(nn) = critical.fringe.pop() else {
            shared.monitor.wait(&mut critical);
            return WorkLoad::Starvation;
        };
''')]),
    ('lookup fields', None, [(B, LOOKUP, '''            let found = shared.barriers[depth].read().get(&nn.state).map(|info| (info.theta, info.explored));
            let explore = match found {
                None => true,
                Some((theta, explored)) => nn.value > theta || (!explored && nn.value == theta),
            };
            if explore {
                let info = BarrierInfo { theta: nn.value, explored: true };
                shared.barriers[depth].write().insert(nn.state.clone(), info);
                break;
            }
            critical.open_by_layer[depth] -= 1;
''')]),
    ('lookup one write lock', None, [(B, LOOKUP, '''            let mut store = shared.barriers[depth].write();
            let explore = store.get(&nn.state).map_or(true, |info| nn.value > info.theta || (nn.value == info.theta && !info.explored));
            if explore {
                store.insert(nn.state.clone(), BarrierInfo { theta: nn.value, explored: true });
                break;
            }
            drop(store);
            critical.open_by_layer[depth] -= 1;
''')]),
    ('lookup helper', None, [(B, LOOKUP, '''            if Self::worth(shared, &nn, depth) {
                shared.barriers[depth].write().insert(nn.state.clone(), BarrierInfo {theta: nn.value, explored: true});
                break;
            } else {
                critical.open_by_layer[depth] -= 1;
            }
'''), (B, GETW, '''    fn worth(shared: &Shared<P, R, O, W>, nn: &SubProblem<P::State>, depth: usize) -> bool {
        let store = shared.barriers[depth].read();
        if let Some(info) = store.get(&nn.state) {
            if nn.value < info.theta || (nn.value == info.theta && info.explored) {
                return false;
            }
        }
        true
    }

    fn get_workload<I>(''')]),
    ('lookup cmp', None, [(B, 'if nn.value > info.theta || (nn.value == info.theta && !info.explored) {\n                    true', '''let keep = match nn.value.cmp(&info.theta) {
                    std::cmp::Ordering::Less => false,
                    std::cmp::Ordering::Equal => !info.explored,
                    std::cmp::Ordering::Greater => true,
                };
                if keep {
                    true''')]),
    ('while let pop', None, [(B, '''        let mut nn = critical.fringe.pop().unwrap();
        loop {
            if nn.ub''', '''        let nn = loop {
            let Some(nn) = critical.fringe.pop() else {
                return WorkLoad::Starvation;
            };
            if nn.ub'''), (B, '''explored: true});
                break;
            }

            if critical.fringe.is_empty() {
                return WorkLoad::Starvation;
            }

            nn = critical.fringe.pop().unwrap();
        }
''', '''explored: true});
                break nn;
            }
        };
''')]),
    ('enqueue early', None, [(B, ENQ, '''        mdd.drain_cutset(|cutset_node| {
            let bound = cutset_node.ub.min(ub);
            if bound <= best_lb {
                return;
            }
            let depth = cutset_node.path.len();
            critical.open_by_layer[depth] += 1;
            critical.fringe.push(SubProblem { ub: bound, ..cutset_node });
        });
''')]),
    ('enqueue method', None, [(B, ENQ, '''        mdd.drain_cutset(|mut cutset_node| {
            cutset_node.ub = ub.min(cutset_node.ub);
            if cutset_node.ub > best_lb {
                critical.enqueue(cutset_node);
            }
        });
'''), (B, '''        let mut critical = self.shared.critical.lock();
        critical.fringe.push(root);
        critical.open_by_layer[0] += 1;
''', '''        self.shared.critical.lock().enqueue(root);
'''), (B, '/// The state which is shared among', '''impl<O: StateRanking> Critical<'_, O> {
    fn enqueue(&mut self, node: SubProblem<O::State>) {
        self.open_by_layer[node.path.len()] += 1;
        self.fringe.push(node);
    }
}
/// The state which is shared among''')]),
    ('explore helper', None, [(B, '''        mdd.compile(&compilation);
        explored_dd += mdd.get_explored();
        Self::maybe''', '''        explored_dd += Self::explore(mdd, &compilation);
        Self::maybe'''), (B, '''        mdd.compile(&compilation);
        explored_dd += mdd.get_explored();
        if''', '''        explored_dd += Self::explore(mdd, &compilation);
        if'''), (B, GETW, '''    fn explore(mdd: &mut Barrier<P::State>, input: &CompilationInput<P, R, O>) -> usize {
        mdd.compile(input);
        mdd.get_explored()
    }

    fn get_workload<I>(''')]),
    ('invert bound test', None, [(P, '''        if node_ub <= best_lb {
            return explored_dd;
        }

        let width = shared.width_heu.max_width(&node.state);
''', '''        if !(node_ub > best_lb) {
            return 0;
        }

        let width = shared.width_heu.max_width(node.state.as_ref());
''')]),
    ('relaxed else if', None, [(P, '''        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared);
        } else {
            Self::enqueue_cutset(mdd, shared, node_ub);
        }
''', '''        if !mdd.is_exact() {
            Self::enqueue_cutset(mdd, shared, node_ub);
            return explored_dd;
        }
        Self::maybe_update_best(mdd, shared);
''')]),
    ('update value first', None, [(P, '''        let mut shared = shared.critical.lock();
        let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        if dd_best_value > shared.best_lb {
            shared.best_lb = dd_best_value;
            shared.best_sol = mdd.best_solution();
        }
''', '''        let Some(value) = mdd.best_value() else { return };
        let sol = mdd.best_solution();
        let mut critical = shared.critical.lock();
        if critical.best_lb < value {
            critical.best_sol = sol;
            critical.best_lb = value;
        }
''')]),
    ('stop helper', None, [(P, '''            let ongoing_ub = if critical.ongoing > 0 {
                critical
                    .upper_bounds
                    .iter()
                    .copied()
                    .filter(|x| *x != isize::MAX)
                    .max()
                    .unwrap_or(isize::MAX)
            } else {
                isize::MIN
            };
            let open_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
            critical.best_ub = ongoing_ub.max(open_ub).max(critical.best_lb);

            critical.fringe.clear();
''', '''            let running = if critical.ongoing == 0 { isize::MIN } else { Self::running_bound(&critical.upper_bounds) };
            let open = match critical.fringe.pop() {
                Some(best) => best.ub,
                None => isize::MIN,
            };
            let known = critical.best_lb;
            critical.best_ub = known.max(running.max(open));
            critical.fringe.clear();
'''), (P, GETW, '''    fn running_bound(bounds: &[isize]) -> isize {
        bounds.iter().filter(|x| **x < isize::MAX).max().copied().unwrap_or(isize::MAX)
    }

    fn get_workload<I>(''')]),
    ('interrupt first', None, [(P, '''        if critical.interrupted {
            return WorkLoad::Interruption;
        } else if interrupt() {
            critical.interrupted = true;
''', '''        if critical.interrupted {
            return WorkLoad::Interruption;
        }
        if interrupt() {
            critical.interrupted = true;
''')]),
    ('status if', None, [(P, '''        let lock = self.shared.critical.lock();
''', '''        let lock = self.shared.critical.lock();
        let _count = lock.explored;
''')]),
    ('shared let', None, [(P, '''        if nn.ub <= critical.best_lb {
            critical.fringe.clear();
            return WorkLoad::Starvation;
        }
''', '''        let incumbent = critical.best_lb;
        let useless = incumbent >= nn.ub;
        if useless {
            critical.fringe.clear();
            return WorkLoad::Starvation;
        }
''')]),
]
