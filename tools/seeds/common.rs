#![allow(dead_code, unused_imports, unused_variables)]
//! Random layered graphs: longest path problems with a sound relaxation (a merged state is a set
//! of vertices) and a brute force oracle.
use engineering::*;
use std::cmp::Ordering;
pub use std::sync::Arc;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    pub fn range(&mut self, lo: isize, hi: isize) -> isize {
        lo + self.below((hi - lo + 1) as u64) as isize
    }
}

/// milliseconds slept each time a state is hashed
pub static HASH_SLEEP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl std::hash::Hash for S {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        let ms = HASH_SLEEP.load(std::sync::atomic::Ordering::Relaxed);
        if ms > 0 {
            std::thread::sleep(std::time::Duration::from_millis(ms));
        }
        self.layer.hash(h);
        self.mask.hash(h);
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct S {
    pub layer: usize,
    pub mask: u64,
}

/// arcs[layer][vertex][decision] = Some((vertex of the next layer, cost))
#[derive(Clone)]
pub struct Graph {
    pub n: usize,
    pub init: isize,
    pub arcs: Vec<Vec<Vec<Option<(usize, isize)>>>>,
    /// how much the rough bound exceeds the true longest path (None: no rough bound at all)
    pub slack: Option<isize>,
    /// called each time a state is expanded
    pub hook: Option<Arc<dyn Fn(&S) + Send + Sync>>,
}
impl Graph {
    pub fn random(seed: u64, n: usize, w: usize, d: usize, lo: isize, hi: isize, slack: Option<isize>) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        for _ in 0..10 {
            r.next();
        }
        let mut arcs = vec![];
        for l in 0..n {
            let mut layer = vec![];
            for _ in 0..(if l == 0 { 1 } else { w }) {
                let mut v = vec![];
                for k in 0..d {
                    if k > 0 && r.below(5) == 0 {
                        v.push(None);
                    } else {
                        v.push(Some((r.below(w as u64) as usize, r.range(lo, hi))));
                    }
                }
                layer.push(v);
            }
            arcs.push(layer);
        }
        Graph { n, init: 0, arcs, slack, hook: None }
    }
    /// longest path from a vertex to the end
    pub fn longest(&self, layer: usize, v: usize) -> Option<isize> {
        if layer == self.n {
            return Some(0);
        }
        self.arcs[layer][v].iter().flatten().filter_map(|(t, c)| self.longest(layer + 1, *t).map(|x| x.saturating_add(*c))).max()
    }
    /// longest path by dynamic programming
    pub fn table(&self) -> Vec<Vec<Option<isize>>> {
        let w = self.arcs.iter().map(|l| l.len()).max().unwrap_or(1);
        let mut t = vec![vec![None; w]; self.n + 1];
        t[self.n] = vec![Some(0); w];
        for l in (0..self.n).rev() {
            for v in 0..self.arcs[l].len() {
                t[l][v] = self.arcs[l][v].iter().flatten().filter_map(|(x, c)| t[l + 1][*x].map(|b: isize| b.saturating_add(*c))).max();
            }
        }
        t
    }
    pub fn optimum(&self) -> Option<isize> {
        self.table()[0][0].map(|x| x.saturating_add(self.init))
    }
    pub fn follow(&self, path: &[Decision]) -> Option<(S, isize)> {
        // the vertices reached by a set of decisions, whatever their order
        let mut v = 0;
        let mut value = self.init;
        for l in 0..path.len() {
            let d = path.iter().filter(|d| d.var.id() == l).collect::<Vec<_>>();
            if d.len() != 1 {
                return None;
            }
            let (t, c) = (*self.arcs[l][v].get(d[0].value as usize)?)?;
            v = t;
            value = value.saturating_add(c);
        }
        Some((S { layer: path.len(), mask: 1 << v }, value))
    }
    pub fn eval(&self, path: &[Decision]) -> Option<isize> {
        if path.len() != self.n {
            return None;
        }
        self.follow(path).map(|(_, v)| v)
    }
    pub fn root(&self) -> SubProblem<S> {
        SubProblem { state: Arc::new(self.initial_state()), value: self.init, path: vec![], ub: isize::MAX }
    }
    pub fn bits(m: u64) -> impl Iterator<Item = usize> {
        (0..64).filter(move |b| m >> b & 1 == 1)
    }
}
impl Problem for Graph {
    type State = S;
    fn nb_variables(&self) -> usize {
        self.n
    }
    fn initial_state(&self) -> S {
        S { layer: 0, mask: 1 }
    }
    fn initial_value(&self) -> isize {
        self.init
    }
    fn next_variable(&self, layer: &mut dyn Iterator<Item = &S>) -> Option<Variable> {
        layer.next().filter(|s| s.layer < self.n).map(|s| Variable(s.layer))
    }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &S, mut f: F) {
        if let Some(h) = &self.hook {
            h(s)
        }
        let d = self.arcs[0][0].len();
        for k in 0..d {
            if Graph::bits(s.mask).any(|v| self.arcs[s.layer][v][k].is_some()) {
                f(Decision { var, value: k as isize });
            }
        }
    }
    fn transition(&self, s: &S, d: Decision) -> S {
        let mut mask = 0;
        for v in Graph::bits(s.mask) {
            if let Some((t, _)) = self.arcs[s.layer][v][d.value as usize] {
                mask |= 1 << t;
            }
        }
        S { layer: s.layer + 1, mask }
    }
    fn transition_cost(&self, s: &S, d: Decision) -> isize {
        Graph::bits(s.mask).filter_map(|v| self.arcs[s.layer][v][d.value as usize].map(|x| x.1)).max().unwrap()
    }
    fn estimate(&self, s: &S) -> isize {
        match self.slack {
            None => isize::MAX,
            Some(k) => {
                let t = self.table();
                Graph::bits(s.mask).filter_map(|v| t[s.layer][v]).max().map_or(-1_000_000, |x| x.saturating_add(k))
            }
        }
    }
}
pub struct Rel;
impl Relaxation for Rel {
    type State = S;
    fn merge(&self, states: &mut dyn Iterator<Item = &S>) -> S {
        let mut layer = 0;
        let mut mask = 0;
        for s in states {
            layer = s.layer;
            mask |= s.mask;
        }
        S { layer, mask }
    }
    fn relax(&self, _: &S, _: &S, _: &S, _: Decision, cost: isize) -> isize {
        cost
    }
}
pub struct Rank;
impl StateRanking for Rank {
    type State = S;
    fn compare(&self, a: &S, b: &S) -> Ordering {
        a.mask.cmp(&b.mask)
    }
}
pub struct W(pub usize);
impl WidthHeuristic<S> for W {
    fn max_width(&self, _: &S) -> usize {
        self.0
    }
}

pub fn input<'a>(g: &'a Graph, comp_type: CompilationType, max_width: usize, residual: SubProblem<S>, best_lb: isize) -> CompilationInput<'a, Graph, Rel, Rank> {
    CompilationInput { comp_type, max_width, problem: g, relaxation: &Rel, ranking: &Rank, residual, best_lb }
}
pub fn all(c: CutsetType) -> All<S> {
    All::new(c)
}
pub fn store(n: usize) -> Arc<Vec<parking_lot::RwLock<rustc_hash::FxHashMap<Arc<S>, BarrierInfo>>>> {
    let mut v = vec![];
    for _ in 0..=n {
        v.push(parking_lot::RwLock::new(Default::default()));
    }
    Arc::new(v)
}
pub fn caching(n: usize, c: CutsetType) -> Barrier<S> {
    Barrier::new(store(n), c)
}

pub struct Run {
    pub value: Option<isize>,
    pub sol: Option<Vec<Decision>>,
    pub lb: isize,
    pub ub: isize,
}
pub fn solve(g: &Graph, width: usize, c: CutsetType, threads: usize, barrier: bool) -> Run {
    let w = W(width);
    if barrier {
        let mut s = BarrierParallelSolver::custom(g, &Rel, &Rank, &w, c, threads);
        s.maximize();
        Run { value: s.best_value(), sol: s.best_solution(), lb: s.best_lower_bound(), ub: s.best_upper_bound() }
    } else {
        let mut f = SimpleFrontier::new(&Rank);
        let mut s = ParallelSolver::custom(g, &Rel, &Rank, &w, c, &mut f, threads);
        s.maximize();
        Run { value: s.best_value(), sol: s.best_solution(), lb: s.best_lower_bound(), ub: s.best_upper_bound() }
    }
}
/// the result of a finished search agrees with the oracle
pub fn right(g: &Graph, r: &Run) -> Result<(), String> {
    let opt = g.optimum();
    if r.value != opt {
        return Err(format!("value {:?}, optimum {:?}", r.value, opt));
    }
    match (&r.sol, opt) {
        (None, None) => {}
        (Some(s), Some(o)) => {
            if g.eval(s) != Some(o) {
                return Err(format!("solution {:?} is worth {:?}, reported {}", s, g.eval(s), o));
            }
            if r.lb != o || r.ub != o {
                return Err(format!("bounds {} {} after a complete search of value {}", r.lb, r.ub, o));
            }
        }
        _ => return Err("solution without value or the converse".into()),
    }
    Ok(())
}
pub fn fail(m: impl std::fmt::Display) -> ! {
    println!("PROPERTY BROKEN: {}", m);
    std::process::exit(1)
}
/// runs the function and fails when it does not come back
pub fn within<F: FnOnce() + Send + 'static>(secs: u64, f: F) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        f();
        let _ = tx.send(());
    });
    match rx.recv_timeout(std::time::Duration::from_secs(secs)) {
        Ok(()) => {}
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => fail("the search never ends"),
        Err(_) => fail("the search panicked"),
    }
}
pub const CUTSETS: [CutsetType; 2] = [CutsetType::LastExactLayer, CutsetType::Frontier];

/// random graphs, solved by both solvers and compared with the oracle
pub fn sweep(seeds: u64, threads: &[usize], barriers: &[bool], cutsets: &[CutsetType]) {
    for seed in 0..seeds {
        for c in cutsets {
            for b in barriers {
                for th in threads {
                    let slack = match seed % 3 {
                        0 => None,
                        1 => Some(0),
                        _ => Some(5),
                    };
                    let g = Graph::random(seed, 3 + (seed % 6) as usize, 5, 3, -10, 10, slack);
                    let r = solve(&g, 2 + (seed % 4) as usize, *c, *th, *b);
                    if let Err(e) = right(&g, &r) {
                        fail(format!("seed {} {} caching {} threads {}: {}", seed, c, b, th, e));
                    }
                }
            }
        }
    }
}
pub fn sleep(ms: u64) {
    std::thread::sleep(std::time::Duration::from_millis(ms))
}
