P = 'src/solver/parallel.rs'
B = 'src/solver/barrier.rs'
A = 'src/mdd/with_all.rs'
M = 'src/mdd/with_barrier.rs'
SEEDS = []


def seed(id, property, needs, breaks, edits, main):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main))


seed('C01-stale-incumbent', 'C01', 'two workers: one compiles a diagram while the other improves the incumbent beyond the value the first one finds',
     'the incumbent is compared with a value read before the compilation, so that a worse value replaces a better one stored meanwhile',
     [(P, '''        mdd.compile(&compilation);
        explored_dd += mdd.get_explored();
        Self::maybe_update_best(mdd, shared);
        if mdd.is_exact() {
            return explored_dd;
        }
''', '''        mdd.compile(&compilation);
        explored_dd += mdd.get_explored();
        Self::maybe_update_best(mdd, shared, best_lb);
        if mdd.is_exact() {
            return explored_dd;
        }
'''), (P, '''        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared);
        } else {''', '''        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared, best_lb);
        } else {'''),
      (P, "fn maybe_update_best(mdd: &All<P::State>, shared: &Shared<P, R, O, W, F>) {", "fn maybe_update_best(mdd: &All<P::State>, shared: &Shared<P, R, O, W, F>, known_lb: isize) {"),
      (P, "        if dd_best_value > shared.best_lb {", "        if dd_best_value > known_lb {")],
     '''
// While one worker is still compiling the middling alternative (it sleeps), another one finds the
// best solution of the good alternative.
fn pad(v: Vec<(usize, isize)>) -> Vec<Option<(usize, isize)>> {
    let mut r: Vec<Option<(usize, isize)>> = v.into_iter().map(Some).collect();
    r.resize(4, None);
    r
}
fn main() {
    for threads in [2usize, 3] {
        let mut arcs = vec![vec![pad(vec![(0, 5), (1, 0), (2, 0), (3, 5)])]];
        arcs.push(vec![pad(vec![(0, 0)]), pad(vec![(1, 0), (2, 0)]), pad(vec![(3, 0), (4, 0)]), pad(vec![(5, 0)])]);
        arcs.push(vec![pad(vec![(0, 0)]), pad(vec![(1, 8)]), pad(vec![(1, 7)]), pad(vec![(2, 20)]), pad(vec![(2, 19)]), pad(vec![(0, 0)])]);
        arcs.push(vec![pad(vec![(0, 0)]), pad(vec![(0, 0)]), pad(vec![(0, 0)])]);
        let mut g = Graph { n: 4, init: 0, arcs, slack: None, hook: None };
        g.hook = Some(std::sync::Arc::new(|s: &S| {
            if s.layer == 1 && s.mask == 2 {
                sleep(500)
            }
            if s.layer == 1 && s.mask == 4 {
                sleep(150)
            }
        }));
        let r = solve(&g, 2, CutsetType::LastExactLayer, threads, false);
        if let Err(e) = right(&g, &r) {
            fail(e)
        }
    }
}
''')

seed('C02-inexact-accepted', 'C02', 'a relaxed diagram that is not exact and whose value equals the bound of the subproblem',
     'the value of an inexact relaxed diagram is taken as a solution value when it meets the bound of the subproblem',
     [(B, '''        explored_dd += mdd.get_explored();
        if mdd.is_exact() {
            Self::maybe_update_best(mdd, shared);
        } else {''', '''        explored_dd += mdd.get_explored();
        if mdd.is_exact() || mdd.best_value() == Some(node_ub) {
            Self::maybe_update_best(mdd, shared);
        } else {''')],
     '''
fn main() { sweep(500, &[1], &[true], &CUTSETS) }
''')

seed('C03-close-bound', 'C03', 'an open subproblem whose bound exceeds the incumbent by exactly one',
     'a worker drops a subproblem whose bound is one above the incumbent',
     [(P, '''        if node_ub <= best_lb {
            return explored_dd;''', '''        if node_ub.saturating_sub(1) <= best_lb {
            return explored_dd;''')],
     '''
fn main() { sweep(500, &[1, 2], &[false], &CUTSETS) }
''')

seed('C03-infeasible-restricted', 'C03', 'a restricted diagram in which every kept node is a dead end (or cannot beat the incumbent)',
     'a subproblem whose restricted diagram has no solution is considered explored',
     [(B, '''        Self::maybe_update_best(mdd, shared);
        if mdd.is_exact() {
            return explored_dd;''', '''        Self::maybe_update_best(mdd, shared);
        if mdd.is_exact() || mdd.best_value().is_none() {
            return explored_dd;''')],
     '''
fn main() { sweep(600, &[1], &[true], &CUTSETS) }
''')

INTERRUPT = '''
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
/// a worker that processes the subproblem of layer `layer` raises the flag and sleeps
fn run(g: &mut Graph, layer: usize, caching_solver: bool, threads: usize) -> (ResolutionStatus, isize, isize) {
    let flag = Arc::new(AtomicBool::new(false));
    let f = flag.clone();
    let once = AtomicBool::new(true);
    g.hook = Some(Arc::new(move |s: &S| {
        if s.layer == layer && once.swap(false, Ordering::SeqCst) {
            f.store(true, Ordering::SeqCst);
            sleep(700);
        }
    }));
    let w = W(2);
    let stop = move || flag.load(Ordering::SeqCst);
    if caching_solver {
        let mut s = BarrierParallelSolver::custom(&*g, &Rel, &Rank, &w, CutsetType::LastExactLayer, threads);
        let st = s.maximize_with_interrupt(stop);
        (st, s.best_lower_bound(), s.best_upper_bound())
    } else {
        let mut fr = SimpleFrontier::new(&Rank);
        let mut s = ParallelSolver::custom(&*g, &Rel, &Rank, &w, CutsetType::LastExactLayer, &mut fr, threads);
        let st = s.maximize_with_interrupt(stop);
        (st, s.best_lower_bound(), s.best_upper_bound())
    }
}
'''

seed('C07-withdrawn-early', 'C07', 'the interruption is requested by another worker while a worker compiles the relaxed diagram of its subproblem',
     'a worker withdraws the bound of its subproblem before it starts the relaxed diagram',
     [(P, '''        let best_lb = Self::best_lb(shared);
        compilation.comp_type = CompilationType::Relaxed;''', '''        let best_lb = Self::withdraw(shared, thread_id);
        compilation.comp_type = CompilationType::Relaxed;'''),
      (P, '''        shared: &Shared<P, R, O, W, F>,
        node: SubProblem<P::State>,
    ) -> usize''', '''        shared: &Shared<P, R, O, W, F>,
        thread_id: usize,
        node: SubProblem<P::State>,
    ) -> usize'''),
      (P, '''    fn best_lb(shared: &Shared<P, R, O, W, F>) -> isize {''', '''    fn withdraw(shared: &Shared<P, R, O, W, F>, thread_id: usize) -> isize {
        let mut critical = shared.critical.lock();
        if critical.ongoing > 1 {
            critical.upper_bounds[thread_id] = isize::MAX;
        }
        critical.best_lb
    }

    fn best_lb(shared: &Shared<P, R, O, W, F>) -> isize {'''),
      (P, 'Self::process_one_node(&mut mdd, shared, node)', 'Self::process_one_node(&mut mdd, shared, i, node)', 2)],
     '''
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
static FLAG: AtomicBool = AtomicBool::new(false);
static VISITS: AtomicUsize = AtomicUsize::new(0);
/// merging, hence only in relaxed diagrams, takes time
struct Slow;
impl Relaxation for Slow {
    type State = S;
    fn merge(&self, states: &mut dyn Iterator<Item = &S>) -> S {
        let m = Rel.merge(states);
        if m.layer == 3 {
            sleep(900);
        }
        m
    }
    fn relax(&self, _: &S, _: &S, _: &S, _: Decision, c: isize) -> isize { c }
}
fn pad(v: Vec<(usize, isize)>) -> Vec<Option<(usize, isize)>> {
    let mut r: Vec<Option<(usize, isize)>> = v.into_iter().map(Some).collect();
    r.resize(5, None);
    r
}
// Below the root: a hard alternative (vertex 1, worth 20) whose worker is busy merging, an easy one
// (vertex 2) whose worker then asks for the interruption, and one (vertex 4) still in its restricted diagram.
fn main() {
    let mut arcs = vec![vec![pad(vec![(0, 5), (1, 0), (2, 0), (3, 5), (4, 0)])]];
    arcs.push(vec![pad(vec![(0, 0)]), pad(vec![(1, 1), (2, 1), (3, 0)]), pad(vec![(4, 0)]), pad(vec![(5, 0)]), pad(vec![(6, 0)])]);
    arcs.push(vec![pad(vec![(0, 0)]), pad(vec![(1, 0), (2, 0)]), pad(vec![(2, 0), (3, 0)]), pad(vec![(4, 20)]), pad(vec![(5, 8)]), pad(vec![(0, 0)]), pad(vec![(6, 9)])]);
    arcs.push(vec![pad(vec![(0, 0)]); 7]);
    let mut g = Graph { n: 4, init: 0, arcs, slack: Some(10), hook: None };
    g.hook = Some(std::sync::Arc::new(|s: &S| {
        if s.layer == 1 && s.mask == 4 {
            sleep(300);
            if VISITS.fetch_add(1, Ordering::SeqCst) > 0 {
                FLAG.store(true, Ordering::SeqCst);
            }
        }
        if s.layer == 1 && s.mask == 16 {
            sleep(600);
        }
    }));
    let w = W(2);
    let mut fr = SimpleFrontier::new(&Rank);
    let mut s = ParallelSolver::custom(&g, &Slow, &Rank, &w, CutsetType::LastExactLayer, &mut fr, 3);
    let st = s.maximize_with_interrupt(|| FLAG.load(Ordering::SeqCst));
    println!("{} {} {}", st, s.best_lower_bound(), s.best_upper_bound());
    if s.best_upper_bound() < g.optimum().unwrap() {
        fail(format!("{}: bounds {} {} but the optimum is {}", st, s.best_lower_bound(), s.best_upper_bound(), g.optimum().unwrap()));
    }
}
''')

seed('C05-last-worker-silent', 'C05', 'several workers, some of them asleep when the last busy worker finishes without new subproblems',
     'the last worker to finish does not wake up the sleeping ones',
     [(B, "        shared.monitor.notify_all();", "        if critical.ongoing > 0 || !critical.fringe.is_empty() {\n            shared.monitor.notify_all();\n        }")],
     '''
fn main() { within(60, || sweep(200, &[4], &[true], &CUTSETS)) }
''')

seed('C06-reentrant-read', 'C06', 'another worker asks to write the thresholds of a layer while a diagram is between its first and a later look-up in the same layer',
     'a diagram keeps a read lock on the thresholds of a layer while it reads them again, which blocks for ever behind a waiting writer',
     [(M, "            if depth > root_depth && !self.barriers[depth].read().is_empty() {", "            let known = self.barriers[depth].read();\n            if depth > root_depth && !known.is_empty() {"),
      (M, '''                    }
                });
            }

            match input.comp_type {''', '''                    }
                });
            }
            drop(known);

            match input.comp_type {''')],
     '''
fn main() {
    HASH_SLEEP.store(1, std::sync::atomic::Ordering::Relaxed);
    within(100, || {
        for seed in 0..6 {
            let g = Graph::random(seed, 7, 6, 3, -10, 10, None);
            let r = solve(&g, 3, CutsetType::Frontier, 8, true);
            if let Err(e) = right(&g, &r) {
                fail(e)
            }
        }
    })
}
''')

seed('C10-recycled-stays-exact', 'C10', 'a merge whose result equals the state of a node that is kept in the layer',
     'a kept node that receives the edges of merged nodes is not flagged as merged, and the diagram may be reported exact',
     [(A, "        self.nodes[merged_id.0].flags.set_relaxed(true);", "        if recycled.is_none() {\n            self.nodes[merged_id.0].flags.set_relaxed(true);\n        }")],
     '''
// subproblems rooted at sets of vertices: the union of merged sets often is a set that is kept in the layer
fn best(g: &Graph, s: &S) -> isize {
    if s.layer == g.n {
        return 0;
    }
    let mut b = isize::MIN;
    g.for_each_in_domain(Variable(s.layer), s, |d| {
        b = b.max(g.transition_cost(s, d) + best(g, &g.transition(s, d)));
    });
    b
}
fn main() {
    for seed in 0..3000u64 {
        let g = Graph::random(seed, 5, 3, 3, -10, 10, None);
        for mask in 1..8u64 {
            for width in 2..4 {
                let root = SubProblem { state: std::sync::Arc::new(S { layer: 1, mask }), value: 0, path: vec![Decision { var: Variable(0), value: 0 }], ub: isize::MAX };
                let opt = best(&g, &root.state);
                let mut d = all(CutsetType::LastExactLayer);
                d.compile(&input(&g, CompilationType::Relaxed, width, root, isize::MIN));
                if d.is_exact() && d.best_value() != Some(opt) {
                    fail(format!("seed {} set {} width {}: exact diagram of value {:?}, optimum {}", seed, mask, width, d.best_value(), opt));
                }
            }
        }
    }
}
''')

seed('C11-merge-at-limit', 'C11', 'a layer of a relaxed diagram whose width is exactly the maximum width',
     'a layer that is exactly at the width limit is merged',
     [(M, "                    if curr_l.len() > input.max_width && depth > root_depth + 1 {", "                    if curr_l.len() >= input.max_width && depth > root_depth + 1 {")],
     '''
fn main() {
    for seed in 0..300u64 {
        let g = Graph::random(seed, 6, 4, 3, -10, 10, None);
        // no layer holds more than four states, so that nothing may be merged with a width of four
        let mut d = caching(g.n, CutsetType::LastExactLayer);
        d.compile(&input(&g, CompilationType::Relaxed, 4, g.root(), isize::MIN));
        if !d.is_exact() || d.best_value() != g.optimum() {
            fail(format!("seed {}: merged within the limit", seed));
        }
        let s = d.best_solution().unwrap();
        if g.eval(&s) != g.optimum() {
            fail(format!("seed {}: merged within the limit", seed));
        }
    }
}
''')

seed('C12-best-edge-only-exact', 'C12', 'a node reached first through an exact parent and then, with a larger value, through an inexact one',
     'the best edge of a node is not replaced together with its value',
     [(A, '''                    node.value = value;
                    node.best = Some(edge_id);
                }
            }
        }
    }

    fn restrict''', '''                    node.value = value;
                    if exact {
                        node.best = Some(edge_id);
                    }
                }
            }
        }
    }

    fn restrict''')],
     '''
fn main() {
    for seed in 0..3000u64 {
        let g = Graph::random(seed, 5, 5, 3, -10, 10, None);
        for width in 2..5 {
            let mut d = all(CutsetType::LastExactLayer);
            d.compile(&input(&g, CompilationType::Relaxed, width, g.root(), isize::MIN));
            if d.is_exact() {
                if d.best_value() != g.optimum() || g.eval(&d.best_solution().unwrap()) != g.optimum() {
                    fail(format!("seed {} width {}: exact diagram of value {:?}, solution {:?}", seed, width, d.best_value(), d.best_solution().map(|s| g.eval(&s))));
                }
            }
        }
    }
}
''')

seed('C31-original-cost', 'C31', 'a relaxation that changes the cost of redirected edges, and an edge whose relaxed cost is larger than the original one',
     'the value of a merged node is computed with the original cost of the redirected edges',
     [(A, "                let new_value = self.nodes[edge.from.0].value.saturating_add(rcost);", "                let new_value = self.nodes[edge.from.0].value.saturating_add(edge.cost);")],
     '''
struct Plus;
impl Relaxation for Plus {
    type State = S;
    fn merge(&self, states: &mut dyn Iterator<Item = &S>) -> S { Rel.merge(states) }
    fn relax(&self, _: &S, _: &S, _: &S, _: Decision, cost: isize) -> isize { cost + 7 }
}
fn main() {
    for seed in 0..50u64 {
        let g = Graph::random(seed, 3, 6, 4, 0, 10, None);
        // width one: every path goes through exactly one merge, in the second layer
        let mut d = all(CutsetType::LastExactLayer);
        let mut e = all(CutsetType::LastExactLayer);
        let i = CompilationInput { comp_type: CompilationType::Relaxed, max_width: 1, problem: &g, relaxation: &Plus, ranking: &Rank, residual: g.root(), best_lb: isize::MIN };
        d.compile(&i);
        e.compile(&input(&g, CompilationType::Relaxed, 1, g.root(), isize::MIN));
        if e.is_exact() { continue }
        if d.best_value() != e.best_value().map(|v| v + 7) {
            fail(format!("seed {}: {:?} without and {:?} with the additional cost", seed, e.best_value(), d.best_value()));
        }
    }
}
''')

F = 'src/frontier/no_dup.rs'
seed('C08-rough-forgotten', 'C08', 'a cutset node whose rough bound is tighter than its local bound, and through which the best path of the diagram does not go',
     'the bound of an extracted subproblem ignores its rough bound when its local bound is below the value of the diagram',
     [(M, "                    let ub = rub.min(locb).min(best_value);", "                    let ub = if locb < best_value { locb } else { rub.min(best_value) };")],
     '''
fn main() {
    for seed in 0..2000u64 {
        let g = Graph::random(seed, 6, 6, 3, -10, 10, Some(0));
        for c in [CutsetType::LastExactLayer, CutsetType::Frontier] {
            let mut d = caching(g.n, c);
            d.compile(&input(&g, CompilationType::Relaxed, 2, g.root(), isize::MIN));
            d.drain_cutset(|s| {
                let rough = g.estimate(&s.state).saturating_add(s.value);
                if s.ub > rough {
                    fail(format!("seed {}: bound {} although value and rough bound make {}", seed, s.ub, rough));
                }
            });
        }
    }
}
''')

seed('C09-approximate-kept', 'C09', 'a diagram used again after a relaxed compilation that was exact although nodes had been merged',
     'the memory of an earlier approximation survives the reset of the diagram when that compilation was reported exact',
     [(A, "        self.exact = true;\n        self.approximate = false;\n        self.explored", "        self.approximate &= self.exact;\n        self.exact = true;\n        self.explored")],
     '''
fn main() {
    for seed in 0..500u64 {
        let g = Graph::random(seed, 5, 5, 3, -10, 10, None);
        let mut d = all(CutsetType::LastExactLayer);
        d.compile(&input(&g, CompilationType::Relaxed, 3, g.root(), isize::MIN));
        d.compile(&input(&g, CompilationType::Exact, 3, g.root(), isize::MIN));
        if !d.is_exact() {
            fail(format!("seed {}: an exact compilation is reported inexact", seed));
        }
    }
}
''')

seed('C13-hopeless-state', 'C13', 'a rough bound of isize::MIN (a state known to have no completion) together with a positive incumbent',
     'the threshold of a node pruned by its rough bound overflows',
     [(M, "input.best_lb.saturating_sub(rub); // set theta", "input.best_lb - rub; // set theta")],
     '''
struct Q(Graph);
impl Problem for Q {
    type State = S;
    fn nb_variables(&self) -> usize { self.0.n }
    fn initial_state(&self) -> S { self.0.initial_state() }
    fn initial_value(&self) -> isize { self.0.init }
    fn next_variable(&self, layer: &mut dyn Iterator<Item = &S>) -> Option<Variable> { self.0.next_variable(layer) }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &S, f: F) { self.0.for_each_in_domain(var, s, f) }
    fn transition(&self, s: &S, d: Decision) -> S { self.0.transition(s, d) }
    fn transition_cost(&self, s: &S, d: Decision) -> isize { self.0.transition_cost(s, d) }
    fn estimate(&self, s: &S) -> isize { if s.layer == 2 && s.mask & 1 == 1 { isize::MIN } else { 1000 } }
}
fn main() {
    let mut hit = 0;
    for seed in 0..50u64 {
        let g = Graph::random(seed, 4, 4, 3, 0, 10, None);
        let q = Q(g.clone());
        let st = store(g.n);
        let mut d = Barrier::new(st.clone(), CutsetType::LastExactLayer);
        d.compile(&CompilationInput { comp_type: CompilationType::Relaxed, max_width: 100, problem: &q, relaxation: &Rel, ranking: &Rank, residual: g.root(), best_lb: 5 });
        for (s, i) in st[2].read().iter() {
            if s.mask == 1 {
                hit += 1;
                if i.theta != isize::MAX {
                    fail(format!("seed {}: threshold {} for a state without completion", seed, i.theta));
                }
            }
        }
    }
    if hit == 0 {
        fail("no hopeless state was recorded");
    }
}
''')

seed('C16-wide-first-layer', 'C16', 'a last exact layer wider than the maximum width (the first layer below the root is never squashed)',
     'a last exact layer wider than the maximum width is not put in the cutset completely',
     [(M, """            for id in self.prev_l.iter() {
                self.cutset.push(*id);
                self.nodes[id.0].flags.set_cutset(true);
                self.lel_depth""", """            for id in self.prev_l.iter() {
                self.nodes[id.0].flags.set_cutset(true);
                if self.cutset.len() < input.max_width || self.cutset.is_empty() {
                    self.cutset.push(*id);
                }
                self.lel_depth""")],
     '''
fn main() {
    for seed in 0..5000u64 {
        let g = Graph::random(seed, 6, 6, 6, -10, 10, None);
        let t = g.table();
        let mut d = caching(g.n, CutsetType::LastExactLayer);
        d.compile(&input(&g, CompilationType::Relaxed, 2, g.root(), isize::MIN));
        if d.is_exact() {
            continue;
        }
        let mut best = None;
        d.drain_cutset(|s| {
            let v = s.state.mask.trailing_zeros() as usize;
            best = best.max(t[s.state.layer][v].map(|x| x + s.value));
        });
        if best != g.optimum() {
            fail(format!("seed {}: the cutset leads to {:?} at best, the optimum is {:?}", seed, best, g.optimum()));
        }
    }
}
''')

seed('C17-explored-exclusive', 'C17', 'a node whose value exceeds by one the threshold recorded, as explored, for its state',
     'a node that improves on an explored threshold by exactly one is pruned',
     [(M, ".map_or(isize::MIN, |bi| bi.theta);", ".map_or(isize::MIN, |bi| if bi.explored { bi.theta.saturating_add(1) } else { bi.theta });")],
     '''
fn main() {
    for seed in 0..200u64 {
        let g = Graph::random(seed, 5, 4, 3, -10, 10, None);
        let root = g.root();
        // what is stored is one below the value every first-layer state gets
        let mut val = std::collections::HashMap::new();
        for (t, c) in g.arcs[0][0].iter().flatten() {
            let e = val.entry(*t).or_insert(*c);
            *e = (*e).max(*c);
        }
        let st = store(g.n);
        for (t, v) in &val {
            st[1].write().insert(Arc::new(S { layer: 1, mask: 1 << t }), BarrierInfo { theta: v - 1, explored: true });
        }
        let mut d = Barrier::new(st, CutsetType::LastExactLayer);
        d.compile(&input(&g, CompilationType::Restricted, 1000, root, isize::MIN));
        if d.best_value() != g.optimum() {
            fail(format!("seed {}: {:?} instead of {:?}", seed, d.best_value(), g.optimum()));
        }
    }
}
''')

seed('C18-equal-overwrites', 'C18', 'a threshold equal to the one stored, which was explored, met again by a diagram; visible to other workers while that diagram is being compiled',
     'an equal threshold replaces an explored one and makes it unexplored',
     [(M, "if theta > info.theta || (theta == info.theta && !info.explored && explored) {", "if theta > info.theta || (theta == info.theta && explored != info.explored) {")],
     '''
fn main() {
    for seed in 0..20u64 {
        let mut g = Graph::random(seed, 4, 4, 3, -10, 10, None);
        let st = store(g.n);
        let root = g.root();
        st[0].write().insert(root.state.clone(), BarrierInfo { theta: root.value, explored: true });
        let (st2, r2) = (st.clone(), root.clone());
        g.hook = Some(Arc::new(move |s: &S| {
            // what another worker sees while this diagram is compiled
            if s.layer > 0 && !st2[0].read().get(&r2.state).map_or(false, |i| i.theta > r2.value || i.explored) {
                fail("the root was recorded as explored and no longer is");
            }
        }));
        let mut d = Barrier::new(st.clone(), CutsetType::LastExactLayer);
        d.compile(&input(&g, CompilationType::Relaxed, 1000, g.root(), isize::MIN));
    }
}
''')

seed('C20-dead-ends-ignored', 'C20', 'an exact node all of whose children were pruned by their rough bound or by the store',
     'the threshold of a node from which the end is not reached is not passed to its parents',
     [(M, "                self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge);", """                if self.nodes[node_id.0].flags.is_marked() || self.nodes[node_id.0].flags.is_cutset() {
                    self.nodes[edge.from.0].theta = self.nodes[edge.from.0].theta.min(theta_using_edge);
                }""")],
     '''
struct Q(Graph);
impl Problem for Q {
    type State = S;
    fn nb_variables(&self) -> usize { self.0.n }
    fn initial_state(&self) -> S { self.0.initial_state() }
    fn initial_value(&self) -> isize { self.0.init }
    fn next_variable(&self, layer: &mut dyn Iterator<Item = &S>) -> Option<Variable> { self.0.next_variable(layer) }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &S, f: F) { self.0.for_each_in_domain(var, s, f) }
    fn transition(&self, s: &S, d: Decision) -> S { self.0.transition(s, d) }
    fn transition_cost(&self, s: &S, d: Decision) -> isize { self.0.transition_cost(s, d) }
    fn estimate(&self, s: &S) -> isize { if s.layer % 2 == 0 { self.0.estimate(s) } else { isize::MAX } }
}
fn main() {
    for seed in 0..500u64 {
        let g = Graph::random(seed, 5, 5, 3, -10, 10, Some(2));
        let t = g.table();
        let opt = match g.optimum() { Some(o) => o, None => continue };
        let st = store(g.n);
        let mut d = Barrier::new(st.clone(), CutsetType::LastExactLayer);
        let q = Q(g.clone());
        d.compile(&CompilationInput { comp_type: CompilationType::Relaxed, max_width: 1000, problem: &q, relaxation: &Rel, ranking: &Rank, residual: g.root(), best_lb: opt - 3 });
        for l in 0..g.n {
            for (s, i) in st[l].read().iter() {
                if let Some(x) = t[l][s.mask.trailing_zeros() as usize] {
                    if i.theta.saturating_add(x) > opt {
                        fail(format!("seed {}: threshold {} for {:?}, which has a completion of {}, though the optimum is {}", seed, i.theta, s, x, opt));
                    }
                }
            }
        }
    }
}
''')

seed('C22-bound-lowered', 'C22', 'a state pushed twice, the second time with a larger value but a smaller bound',
     'the larger bound is forgotten when the subproblem is replaced',
     [(F, "                node.ub = new_ub.max(old_ub);\n", "                if new_lp <= old_lp {\n                    node.ub = new_ub.max(old_ub);\n                }\n")],
     '''
fn main() {
    let mut f = NoDupFrontier::new(&Rank);
    let s = |m: u64, value: isize, ub: isize| SubProblem { state: Arc::new(S { layer: 1, mask: m }), value, path: vec![], ub };
    f.push(s(1, 3, 100));
    f.push(s(2, 3, 50));
    f.push(s(1, 5, 20));
    let x = f.pop().unwrap();
    if x.state.mask != 1 || x.ub != 100 || x.value != 5 {
        fail(format!("popped {:?} value {} bound {}", x.state, x.value, x.ub));
    }
}
''')

seed('C22-stale-position', 'C22', 'a state pushed again after a pop moved the last entry to the root of the heap',
     'the position of the entry moved to the root by a pop is not updated',
     [(F, "            self.pos[self.heap[0].0] = 0;\n            BubbleDown", "            BubbleDown")],
     '''
fn main() {
    let mut r = Rng(12345);
    for round in 0..500 {
        let mut f = NoDupFrontier::new(&Rank);
        let mut best: std::collections::HashMap<u64, isize> = Default::default();
        for _ in 0..60 {
            if r.below(3) == 0 {
                let x = f.pop();
                let top = best.values().copied().max();
                if x.as_ref().map(|x| x.ub) != top {
                    fail(format!("round {}: popped {:?}, the best bound was {:?}", round, x.map(|x| x.ub), top));
                }
                if let Some(x) = x {
                    best.remove(&x.state.mask);
                }
            } else {
                let (m, ub) = (r.below(12), r.range(0, 100));
                f.push(SubProblem { state: Arc::new(S { layer: 1, mask: m }), value: 0, path: vec![], ub });
                let e = best.entry(m).or_insert(ub);
                *e = (*e).max(ub);
            }
            if f.len() != best.len() {
                fail(format!("round {}: {} entries instead of {}", round, f.len(), best.len()));
            }
        }
    }
}
''')

seed('C23-last-child', 'C23', 'a heap in which an entry has exactly two children and the second one, the last entry of the heap, is the larger',
     'the last entry of the heap is overlooked when the largest child is chosen',
     [(F, "        if right >= size {\n", "        if right + 1 >= size {\n")],
     open(__file__).read().split("seed('C22-stale-position'")[1].split("\'\'\'")[1])

seed('C32-depth-first', 'C32', 'a node whose local bound grows after it was already passed to its parents (children at different distances reached in the wrong order)',
     'local bounds are propagated before all the children of a node were taken into account',
     [(A, "                std::mem::swap(&mut visit, &mut next_v);\n", "                next_v.extend(visit.pop());\n")],
     '''
fn main() {
    for seed in 0..2000u64 {
        let g = Graph::random(seed, 6, 5, 3, -10, 10, None);
        let t = g.table();
        for c in [CutsetType::LastExactLayer, CutsetType::Frontier] {
            let mut d = all(c);
            d.compile(&input(&g, CompilationType::Relaxed, 3, g.root(), isize::MIN));
            if d.is_exact() {
                continue;
            }
            d.drain_cutset(|s| {
                if let Some(x) = t[s.state.layer][s.state.mask.trailing_zeros() as usize] {
                    if s.ub < s.value + x {
                        fail(format!("seed {}: bound {} of a subproblem worth {}", seed, s.ub, s.value + x));
                    }
                }
            });
        }
    }
}
''')

X = 'src/xputils.rs'
R = 'src/prelude.rs'
C25_MAIN = '''
use engineering::xputils::{Args, SolverType};
use structopt::StructOpt;
fn main() {
    fn back<T: std::str::FromStr + std::fmt::Display + PartialEq>(all: Vec<T>) -> Vec<String> {
        let mut names = vec![];
        for v in all {
            let n = v.to_string();
            match n.parse::<T>() {
                Ok(w) if w == v => {}
                _ => fail(format!("{} is not parsed back", n)),
            }
            for bad in [format!("{} ", n), format!(" {}", n), n.to_uppercase(), format!("{}s", n), n[1..].to_string()] {
                if bad.parse::<T>().is_ok() {
                    fail(format!("{:?} is accepted", bad));
                }
            }
            if names.contains(&n) {
                fail(format!("two values are printed as {}", n));
            }
            names.push(n);
        }
        names
    }
    back(vec![CutsetType::LastExactLayer, CutsetType::Frontier]);
    back(vec![CompilationType::Exact, CompilationType::Relaxed, CompilationType::Restricted]);
    back(vec![SolverType::Parallel, SolverType::Barrier]);
    if let Err(e) = Args::from_iter_safe(vec!["tool", "solve", "--file", "x"]) {
        fail(format!("the defaults are not accepted: {}", e));
    }
}
'''
seed('C25-default-name', 'C25', 'a command line that does not select the cutset type', 'the default of an option is not one of its names, so that the tools cannot be run without giving it',
     [(X, 'default_value = "lel"', 'default_value = "last-exact-layer"')], C25_MAIN)
seed('C25-trimmed', 'C25', 'a name with blanks around it', 'a text which is no name is accepted',
     [(R, '        match s {\n            "exact"', '        match s.trim() {\n            "exact"')], C25_MAIN)

C26_MAIN = '''
use engineering::xputils::{solve_timeout, SolverType};
use std::process::Command;
use std::time::Duration;

fn graph(seed: u64, sleep: u64) -> Graph {
    let mut g = Graph::random(seed, 7, 6, 4, -10, 10, Some(5));
    if sleep > 0 {
        g = Graph::random(seed, 8, 7, 4, -10, 10, Some(20));
        g.hook = Some(Arc::new(move |_: &S| std::thread::sleep(Duration::from_millis(sleep))));
    }
    g
}
fn cutset(i: usize) -> CutsetType {
    [CutsetType::LastExactLayer, CutsetType::Frontier][i]
}
/// the line printed for an instance by another process, cut in columns
fn line(seed: u64, sleep: u64, solver: usize, c: usize, width: usize, timeout: u64) -> Vec<String> {
    let args = [seed, sleep, solver as u64, c as u64, width as u64, timeout].iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let out = Command::new(std::env::current_exe().unwrap()).args(&args).output().unwrap();
    let s = String::from_utf8_lossy(&out.stdout).to_string();
    s.split('|').map(|x| x.trim().to_owned()).collect()
}
fn main() {
    let args = std::env::args().skip(1).map(|a| a.parse::<u64>().unwrap()).collect::<Vec<_>>();
    if args.len() == 6 {
        let g = graph(args[0], args[1]);
        let s = if args[2] == 0 { SolverType::Parallel } else { SolverType::Barrier };
        solve_timeout("instance", Duration::from_millis(args[5]), &W(args[4] as usize), &g, &Rel, &Rank, Some(1), s, cutset(args[3] as usize));
        return;
    }
    for seed in 0..40u64 {
        for c in 0..2 {
            for solver in 0..2 {
                let g = graph(seed, 0);
                let w = W(3);
                let (want, dd, ub) = if solver == 1 {
                    let mut s = BarrierParallelSolver::custom(&g, &Rel, &Rank, &w, cutset(c), 1);
                    s.maximize();
                    (s.get_explored(), s.get_explored_dd(), s.best_upper_bound())
                } else {
                    let mut f = NoDupFrontier::new(&Rank);
                    let mut s = ParallelSolver::custom(&g, &Rel, &Rank, &w, cutset(c), &mut f, 1);
                    s.maximize();
                    (s.get_explored(), s.get_explored_dd(), s.best_upper_bound())
                };
                let cols = line(seed, 0, solver, c, 3, 100_000);
                if cols.len() != 11 {
                    fail(format!("{} columns", cols.len()));
                }
                let want = vec![("name", 0, "instance".to_string()), ("solver", 1, ["parallel", "barrier"][solver].to_string()), ("status", 2, "Proved".to_string()), ("best", 5, g.optimum().map_or("not found".to_string(), |v| v.to_string())),
                                ("lb", 6, ub.to_string()), ("ub", 7, ub.to_string()), ("gap", 8, "0.0000".to_string()), ("nodes", 9, want.to_string()), ("dd nodes", 10, dd.to_string())];
                for (what, i, w) in want {
                    if cols[i] != w {
                        fail(format!("seed {}, {:?}, solver {}: {} is {} instead of {}", seed, cutset(c), solver, what, cols[i], w));
                    }
                }
            }
        }
    }
    // runs that are interrupted
    for seed in 0..4u64 {
        for solver in 0..2 {
            let start = std::time::Instant::now();
            let cols = line(seed, 60, solver, 0, 1, 500);
            let took = start.elapsed().as_secs_f64();
            let (status, time) = (cols[2].clone(), cols[3].parse::<f64>().unwrap());
            let opt = graph(seed, 1).optimum().unwrap();
            let (lb, ub) = (cols[6].parse::<isize>().unwrap(), cols[7].parse::<isize>().unwrap());
            if status == "Timeout" && time < 0.49 {
                fail(format!("seed {}: {} after {} seconds", seed, status, time));
            }
            if lb > opt || ub < opt {
                fail(format!("seed {}: the optimum {} is not between {} and {}", seed, opt, lb, ub));
            }
            if time > took + 0.1 || time < took / 2.0 - 0.3 {
                fail(format!("seed {}: {} seconds reported, {} observed", seed, time, took));
            }
            if status == "Proved" && time > 4.0 {
                fail(format!("seed {}: {} after {} seconds with a time limit of half a second", seed, status, time));
            }
            println!("{} {} {}", seed, solver, cols.join(" "));
        }
    }
}
'''
DURX = '''
            let duration = start.elapsed();
            let best_value = solver
                .best_value()
                .map(|v| v.to_string())
                .unwrap_or_else(|| "not found".to_owned());

            let lb = solver.best_lower_bound();
            let ub = solver.best_upper_bound();
            let gap = gap(lb, ub);
'''
FMTX = '"{:>30} | {:>10} | {:>15} | {:>8.2} | {:>8.2} | {:>15} | {:>15} | {:>15} | {:>5.4} | {:>15} | {:>15}",'
BODYX = '''
            println!(
                %s
                name,
                solver_type,
                status,
                duration.as_secs_f32(),
                PEAK_ALLOC.peak_usage_as_mb(),
                best_value,
                lb,
                ub,
                gap,
                solver.get_explored(),
                solver.get_explored_dd(),
            );

            ub
''' % FMTX
RUNB = '''                cutset_type,
                threads.unwrap_or_else(num_cpus::get),
            );
            let status = solver.maximize_with_interrupt(move || start.elapsed().gt(&to));
'''
seed('C26-dd-nodes', 'C26', 'the caching solver, on an instance for which the numbers of subproblems and of diagram nodes differ', 'the number of diagram nodes reported for the caching solver is its number of subproblems',
     [(X, RUNB + DURX + BODYX, RUNB + DURX + BODYX.replace('get_explored_dd()', 'get_explored()'))], C26_MAIN)
seed('C26-cutset', 'C26', 'a cutset other than the default one, with the caching solver', 'the caching solver always runs with the default cutset',
     [(X, RUNB, RUNB.replace('cutset_type,', 'CutsetType::LastExactLayer,').replace('            let status', '            let _ = cutset_type;\n            let status'))], C26_MAIN)
seed('C26-time-limit', 'C26', 'a run of the caching solver that reaches its time limit', 'the time limit is measured from the moment of the question rather than from the start of the run: it never passes',
     [(X, RUNB, RUNB.replace('move || start.elapsed().gt(&to)', 'move || Instant::now().elapsed().gt(&to)'))], C26_MAIN)
seed('C26-bounds', 'C26', 'a run of the caching solver that ends before the optimality of its solution is proved', 'the two bounds are exchanged in the report; they are the same after a complete run',
     [(X, RUNB + DURX + BODYX, RUNB + DURX + BODYX.replace('                lb,\n                ub,\n', '                ub,\n                lb,\n'))], C26_MAIN)

U = 'src/utils.rs'
C30_MAIN = '''
fn main() {
    for rows in 1..6usize {
        for cols in 1..6usize {
            let mut fixed: Matrix<usize> = Matrix::new_default(cols, rows, 7);
            let plain: Matrix<usize> = Matrix::new(cols, rows);
            for r in 0..rows {
                for c in 0..cols {
                    if fixed[(r, c)] != 7 || plain[(r, c)] != 0 {
                        fail(format!("{} x {}: a new matrix holds {} and {}", rows, cols, fixed[(r, c)], plain[(r, c)]));
                    }
                }
            }
            for r in 0..rows {
                for c in 0..cols {
                    fixed[(r, c)] = 100 * r + c;
                }
            }
            for r in 0..rows {
                for c in 0..cols {
                    if fixed[(r, c)] != 100 * r + c {
                        fail(format!("{} x {}: cell ({}, {}) holds {}", rows, cols, r, c, fixed[(r, c)]));
                    }
                }
            }
        }
    }
}
'''
seed('C30-write-rows', 'C30', 'a matrix which is not square', 'the position written is computed from the number of rows while the position read is computed from the number of columns',
     [(U, '''        let position = self.pos(idx);
        &mut self.data[position]''', '''        let position = self.n * idx.0 + idx.1;
        &mut self.data[position]''')], C30_MAIN)
seed('C30-square', 'C30', 'a matrix with fewer rows than columns', 'the storage is sized as if the matrix were square in its number of rows',
     [(U, 'data: vec![item; m * n]', 'data: vec![item; n * n]')], C30_MAIN)
seed('C30-symmetric', 'C30', 'two cells that mirror each other', 'an index and its transpose address the same cell',
     [(U, '        self.m * idx.0 + idx.1', '        self.m * idx.0.max(idx.1) + idx.0.min(idx.1)')], C30_MAIN)

# ------------------------------------------------------------------ bit sets
C29_MAIN = '''
use bitset_fixed::BitSet;
use engineering::utils::LexBitSet;
use std::cmp::Ordering;
fn set(n: usize, bits: &[usize]) -> BitSet {
    let mut b = BitSet::new(n);
    for i in bits {
        b.set(*i, true)
    }
    b
}
fn expect(a: &BitSet, b: &BitSet) -> Ordering {
    let n = a.size().max(b.size());
    for i in 0..n {
        let x = i < a.size() && a[i];
        let y = i < b.size() && b[i];
        if x != y {
            return x.cmp(&y);
        }
    }
    Ordering::Equal
}
fn main() {
    let mut sets = vec![];
    for n in [5usize, 63, 64, 65, 128, 200] {
        sets.push(set(n, &[]));
        for i in [0usize, 3, 31, 32, 62, 63, 64, 70, 127, 128, 150, 199] {
            if i < n {
                sets.push(set(n, &[i]));
                sets.push(set(n, &[2, i]));
                sets.push(set(n, &[0, 1, n - 1, i]));
            }
        }
    }
    for a in &sets {
        for b in &sets {
            let w = expect(a, b);
            let (x, y) = (LexBitSet(a), LexBitSet(b));
            if x.cmp(&y) != w || x.partial_cmp(&y) != Some(w) || (x == y) != (w == Ordering::Equal) {
                fail(format!("sizes {} and {}: expected {:?}, cmp {:?}, partial_cmp {:?}, eq {}", a.size(), b.size(), w, x.cmp(&y), x.partial_cmp(&y), x == y));
            }
        }
    }
}
'''
seed('C29-last-bit', 'C29', 'two sets whose words differ in their last bit only', 'the scan of a word stops before its last bit, so that the two sets compare as equal',
     [(U, 'for _ in 0..64 {', 'for _ in 1..64 {')], C29_MAIN)
seed('C29-shorter', 'C29', 'two sets of different sizes, the longer one having a bit beyond the size of the other', 'only the words both sets have are compared',
     [(U, 'x.len().max(y.len())', 'x.len().min(y.len())')], C29_MAIN)
seed('C29-eq-first-word', 'C29', 'two sets that agree on their first word and differ later', 'equality looks at the sizes and the first words only, the order at all of them',
     [(U, 'self.0 == other.0 || self.cmp(other) == Ordering::Equal', '''let (x, y) = (self.0.buffer(), other.0.buffer());
        if x.len() == y.len() {
            return x.first() == y.first();
        }
        self.cmp(other) == Ordering::Equal''')], C29_MAIN)
C42_MAIN = '''
use bitset_fixed::BitSet;
use engineering::utils::BitSetIter;
fn main() {
    let mut all: Vec<(usize, Vec<usize>)> = vec![];
    for n in [1usize, 10, 63, 64, 65, 130, 256] {
        for k in 0..200u64 {
            let mut r = Rng(k * 77 + n as u64 * 31 + 1);
            let mut v: Vec<usize> = (0..n).filter(|_| r.below(1 + k % 9) == 0).collect();
            if k % 5 == 0 {
                v.retain(|x| x / 64 % 2 == (k as usize) % 2);
            }
            all.push((n, v));
        }
        all.push((n, (0..n).collect()));
        all.push((n, vec![n - 1]));
    }
    for (n, v) in all {
        let mut b = BitSet::new(n);
        for i in &v {
            b.set(*i, true)
        }
        let got: Vec<usize> = BitSetIter::new(&b).take(n + 5).collect();
        if got != v {
            fail(format!("the elements of {:?} (size {}) are given as {:?}", v, n, got));
        }
    }
}
'''
seed('C42-last-bit', 'C42', 'a set with an element at the last position of a word just after another one', 'a word is left when the position reaches its last bit',
     [(U, 'if w == 0 || self.offset >= 64 {', 'if w == 0 || self.offset >= 63 {')], C42_MAIN)
seed('C42-empty-word', 'C42', 'a set with an empty word before a non-empty one', 'the base is not moved past a word without elements',
     [(U, '''                self.word   = self.iter.next();
                self.base  += 64;''', '''                self.word   = self.iter.next();
                if w != 0 {
                    self.base += 64;
                }''')], C42_MAIN)
seed('C42-offset-kept', 'C42', 'a set with an empty word after a word whose last element is not at its end', 'the position in the word is only reset when the word was gone through to its end',
     [(U, '''                self.base  += 64;
                self.offset = 0;''', '''                self.base  += 64;
                self.offset %= 64;'''), (U, '''                while (w & mask) == 0 && self.offset < 64 {''', '''                if w >> self.offset == 0 {
                    self.word = self.iter.next();
                    self.base += 64;
                    continue;
                }
                while (w & mask) == 0 && self.offset < 64 {''')], C42_MAIN)

# ------------------------------------------------------------------ counts
C36_MAIN = '''
use std::sync::atomic::{AtomicUsize, Ordering as O};
fn main() {
    for seed in 0..60u64 {
        for c in CUTSETS {
            for threads in [1usize, 3] {
                for barrier in [false, true] {
                    let n = Arc::new(AtomicUsize::new(0));
                    let k = n.clone();
                    let mut g = Graph::random(seed, 3 + (seed % 5) as usize, 5, 3, -10, 10, if seed % 2 == 0 { None } else { Some(3) });
                    g.hook = Some(Arc::new(move |_: &S| {
                        k.fetch_add(1, O::SeqCst);
                    }));
                    struct Count(AtomicUsize, usize);
                    impl WidthHeuristic<S> for Count {
                        fn max_width(&self, _: &S) -> usize {
                            self.0.fetch_add(1, O::SeqCst);
                            self.1
                        }
                    }
                    let w = Count(AtomicUsize::new(0), 2);
                    let (subs, nodes) = if barrier {
                        let mut s = BarrierParallelSolver::custom(&g, &Rel, &Rank, &w, c, threads);
                        s.maximize();
                        (s.get_explored(), s.get_explored_dd())
                    } else {
                        let mut f = SimpleFrontier::new(&Rank);
                        let mut s = ParallelSolver::custom(&g, &Rel, &Rank, &w, c, &mut f, threads);
                        s.maximize();
                        (s.get_explored(), s.get_explored_dd())
                    };
                    let real = n.load(O::SeqCst);
                    if nodes != real {
                        fail(format!("seed {} caching {}: {} nodes were expanded, {} reported", seed, barrier, real, nodes));
                    }
                    let asked = w.0.load(O::SeqCst);
                    if subs < asked || threads == 1 && subs != asked {
                        fail(format!("seed {} caching {}: {} subproblems were processed, {} reported", seed, barrier, asked, subs));
                    }
                }
            }
        }
    }
}
'''
seed('C36-relaxed-only', 'C36', 'a subproblem the restricted diagram does not solve', 'the nodes of the restricted diagram are forgotten when the relaxed one is compiled',
     [(B, '''        mdd.compile(&compilation);
        explored_dd += mdd.get_explored();
        if mdd.is_exact() {
            Self::maybe''', '''        mdd.compile(&compilation);
        explored_dd = mdd.get_explored();
        if mdd.is_exact() {
            Self::maybe''')], C36_MAIN)
seed('C36-not-reset', 'C36', 'a diagram that is compiled a second time', 'the count of a diagram goes on from the previous compilation',
     [(A, '        self.explored = 0;\n', '')], C36_MAIN)
seed('C36-counted-late', 'C36', 'a layer node whose rough bound cannot beat the incumbent', 'nodes that are skipped are counted as explored',
     [(M, '''                    self.explored += 1;

                    if matches!''', '''                    if matches!'''), (M, '''                let ub = rub.saturating_add(self.nodes[node_id.0].value);

                if ub > input.best_lb {''', '''                let ub = rub.saturating_add(self.nodes[node_id.0].value);
                self.explored += 1;

                if ub > input.best_lb {''')], C36_MAIN)

# ------------------------------------------------------------------ more of the solvers and diagrams
seed('C19-unexplored-equal', 'C19', 'a cutset node whose value equals a threshold that was recorded without exploring it', 'a subproblem whose value equals the stored threshold is discarded although nobody explored it',
     [(B, 'if nn.value > info.theta || (nn.value == info.theta && !info.explored) {', 'if nn.value > info.theta {')], '''
fn main() {
    sweep(400, &[1, 2], &[true], &CUTSETS);
}
''')
seed('C33-one-better', 'C33', 'a node whose rough bound is tight and exceeds the incumbent by one', 'a node that can improve the incumbent by exactly one is not expanded',
     [(A, 'if ub > input.best_lb {', 'if ub > input.best_lb.saturating_add(1) {')], '''
fn main() {
    for seed in 0..200u64 {
        let g = Graph::random(seed, 4, 5, 3, -10, 10, Some(0));
        if let Some(o) = g.optimum() {
            let mut dd = all(CutsetType::LastExactLayer);
            dd.compile(&input(&g, CompilationType::Exact, 1, g.root(), o - 1));
            if dd.best_value() != Some(o) {
                fail(format!("seed {}: an exact diagram told to beat {} finds {:?}, the optimum is {}", seed, o - 1, dd.best_value(), o));
            }
        }
    }
}
''')
seed('C11-third-layer', 'C11', 'a relaxed diagram whose second layer below the root is too wide', 'the layer two levels below the root is not reduced to the maximum width',
     [(A, 'if curr_l.len() > input.max_width && depth > 1 {', 'if curr_l.len() > input.max_width && depth > 2 {')], '''
use std::sync::atomic::{AtomicUsize, Ordering as O};
fn main() {
    for seed in 0..100u64 {
        let n = Arc::new(AtomicUsize::new(0));
        let k = n.clone();
        let mut g = Graph::random(seed, 5, 6, 4, -10, 10, None);
        g.hook = Some(Arc::new(move |s: &S| {
            if s.layer == 2 {
                k.fetch_add(1, O::SeqCst);
            }
        }));
        let mut dd = all(CutsetType::LastExactLayer);
        dd.compile(&input(&g, CompilationType::Relaxed, 2, g.root(), isize::MIN));
        let w = n.load(O::SeqCst);
        if w > 2 {
            fail(format!("seed {}: {} nodes are expanded two layers below the root, the maximum width is 2", seed, w));
        }
    }
}
''')
seed('C14-root-path-once', 'C14', 'a diagram rooted at a subproblem whose path has several decisions', 'the path of an extracted subproblem starts with the first decision of the root path only',
     [(A, '                        path: Self::_best_path_partial_borrow(\n                            node_id,\n                            &self.root_pa,', '                        path: Self::_best_path_partial_borrow(\n                            node_id,\n                            &self.root_pa[..self.root_pa.len().min(1)],')], '''
fn main() {
    sweep(400, &[1, 2], &[false], &CUTSETS);
}
''')
seed('C24-shared-bit', 'C24', 'a node of the cutset of the caching diagram', 'two flags share one bit, so that putting a node in the cutset also marks it as deleted',
     [('src/mdd/node_flags.rs', 'pub const F_DELETED: u8 = 16;', 'pub const F_DELETED: u8 = 8;')], '''
fn main() {
    sweep(1500, &[1, 2], &[true], &CUTSETS);
}
''')
seed('C27-second-half', 'C27', 'an interruptible search with several workers', 'the interruptible entry point starts half of the workers only', [(B, '''        let callback = &interrupt;
        std::thread::scope(|s| {
            for i in 0..self.nb_threads {''', '''        let callback = &interrupt;
        std::thread::scope(|s| {
            for i in self.nb_threads / 2..self.nb_threads {''')], '''
use std::sync::Mutex;
fn main() {
    for threads in [1usize, 2, 4] {
        let ids = Arc::new(Mutex::new(std::collections::HashSet::new()));
        let k = ids.clone();
        let mut g = Graph::random(3, 4, 6, 6, -10, 10, None);
        // while the first worker is busy with the root, every other one asks whether to go on
        g.hook = Some(Arc::new(|s: &S| {
            if s.layer == 0 {
                sleep(400)
            }
        }));
        let mut s = BarrierParallelSolver::custom(&g, &Rel, &Rank, &W(2), CutsetType::Frontier, threads);
        let _ = s.maximize_with_interrupt(move || {
            k.lock().unwrap().insert(std::thread::current().id());
            false
        });
        let n = ids.lock().unwrap().len();
        if n != threads {
            fail(format!("{} workers run instead of {}", n, threads));
        }
    }
}
''')

seed('C04-status-by-bounds', 'C04', 'an interruption requested when the open subproblems that remain are all no better than the incumbent',
     'the status is derived from the bounds, so that some interrupted searches are reported as proved',
     [(B, '''        let lock = self.shared.critical.lock();
        if !lock.interrupted {''', '''        let lock = self.shared.critical.lock();
        if lock.best_ub == lock.best_lb {''')],
     '''
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
fn main() {
    for seed in 0..200 {
        let g = Graph::random(seed, 3 + (seed % 6) as usize, 5, 3, -10, 10, if seed % 3 == 0 { None } else { Some(2) });
        for c in CUTSETS {
            for k in 1..12 {
                let calls = Arc::new(AtomicUsize::new(0));
                let n = calls.clone();
                let w = W(2);
                let mut s = BarrierParallelSolver::custom(&g, &Rel, &Rank, &w, c, 1);
                let st = s.maximize_with_interrupt(move || n.fetch_add(1, Ordering::SeqCst) + 1 >= k);
                let asked = calls.load(Ordering::SeqCst) >= k;
                let proved = matches!(st, ResolutionStatus::Proved);
                if asked == proved {
                    fail(format!("seed {}: interruption at call {} requested: {}, proved: {}", seed, k, asked, proved));
                }
                if !asked {
                    break;
                }
            }
        }
    }
}
''')

seed('C21-counted-later', 'C21', 'a worker takes a subproblem between the moment it is put on the frontier and the moment it is counted as open',
     'new subproblems are counted as open in a second critical section, after they were made available to the other workers',
     [(B, '''        let best_lb = critical.best_lb;

        mdd.drain_cutset(|mut cutset_node| {''', '''        let best_lb = critical.best_lb;
        let mut depths = vec![];

        mdd.drain_cutset(|mut cutset_node| {'''),
      (B, '''                let depth = cutset_node.path.len();
                critical.fringe.push(cutset_node);
                critical.open_by_layer[depth] += 1;
            }
        });
''', '''                depths.push(cutset_node.path.len());
                critical.fringe.push(cutset_node);
            }
        });
        drop(critical);

        let mut critical = shared.critical.lock();
        for depth in depths {
            critical.open_by_layer[depth] += 1;
        }
''')],
     '''
fn main() {
    within(200, || {
        for round in 0..400 {
            let g = Graph::random(round, 9, 8, 4, -10, 10, None);
            let r = solve(&g, 2, CutsetType::Frontier, 16, true);
            if let Err(e) = right(&g, &r) {
                fail(e)
            }
        }
    })
}
''')

seed('C06-threshold-then-incumbent', 'C06', 'one worker takes a subproblem while another looks its own subproblem up in the thresholds',
     'the incumbent is read, under the shared lock, while the thresholds of a layer are locked; subproblems are taken with the two locks in the other order',
     [(B, '''        let node_ub = node.ub;
        let best_lb = Self::best_lb(shared);

        if node_ub <= best_lb {
            return explored_dd;
        }
''', '''        let node_ub = node.ub;
        let thresholds = shared.barriers[node.path.len()].read();
        let known = thresholds.get(&node.state).map_or(false, |info| info.theta > node.value);
        let best_lb = Self::best_lb(shared);
        drop(thresholds);

        if known || node_ub <= best_lb {
            return explored_dd;
        }
''')],
     '''
fn main() {
    HASH_SLEEP.store(1, std::sync::atomic::Ordering::Relaxed);
    within(120, || {
        for seed in 0..6 {
            let g = Graph::random(seed, 7, 6, 3, -10, 10, None);
            let r = solve(&g, 3, CutsetType::Frontier, 8, true);
            if let Err(e) = right(&g, &r) {
                fail(e)
            }
        }
    })
}
''')

seed('C07-done-after-interrupt', 'C07', 'an interruption while another worker processes a subproblem, after which that worker finds the frontier empty',
     'the last worker to stop after an interruption lowers the upper bound to the incumbent, although open subproblems were thrown away',
     [(B, "        if !critical.interrupted && critical.ongoing == 0 && critical.fringe.is_empty() {", "        if critical.ongoing == 0 && critical.fringe.is_empty() {")],
     '''
use std::sync::atomic::{AtomicUsize, Ordering};
fn main() {
    for seed in 0..300 {
        let g = Graph::random(seed, 3 + (seed % 6) as usize, 5, 3, -10, 10, if seed % 3 == 0 { None } else { Some(2) });
        for c in CUTSETS {
            for th in [1, 2, 4] {
                for k in 1..8 {
                    let n = AtomicUsize::new(0);
                    let w = W(2);
                    let mut s = BarrierParallelSolver::custom(&g, &Rel, &Rank, &w, c, th);
                    s.maximize_with_interrupt(move || n.fetch_add(1, Ordering::SeqCst) + 1 >= k);
                    if let Some(o) = g.optimum() {
                        if s.best_upper_bound() < o || s.best_lower_bound() > o {
                            fail(format!("seed {} interrupted at call {}: bounds {} {}, optimum {}", seed, k, s.best_lower_bound(), s.best_upper_bound(), o));
                        }
                    }
                }
            }
        }
    }
}
''')
