//! Reference models.  They share no code with the tested crate.

use crate::arena::Arena;
use std::cmp::Ordering;
use std::collections::{HashSet, VecDeque};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Diff {
    None,
    /// These nodes have different values.
    Val(u32, u32),
    /// The first node has this amount of edges relative to the second.
    Edges(u32, u32, Ordering),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Order {
    Dfs,
    Bfs,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dedupe {
    /// Literal traversal of the unfolding.
    Off,
    /// Descend only once into each pair of nodes: exact for any finite graphs.
    Pairs,
    /// Descend only into pairs not yet in the closure of the pairs so far (Hopcroft-Karp).
    Classes,
}

#[derive(Clone, Copy, Debug)]
pub struct Sim<'g> {
    pub g: &'g Arena,
    pub a: u32,
    pub b: u32,
    pub order: Order,
    pub dedupe: Dedupe,
    /// Only this many edges of each node exist.
    pub degree: usize,
    /// Give up after this many traversed pairs.
    pub max: u64,
    pub trace: bool,
}

#[derive(Clone, Debug)]
pub struct SimOut {
    pub diff: Diff,
    /// Traversed pairs (identical ones and leaves included).
    pub pairs: u64,
    pub identical: u64,
    /// Descended pairs.
    pub branches: u64,
    /// Pairs skipped by deduplication.
    pub skipped: u64,
    pub peak_pending: usize,
    /// Compared pairs in order, each with the ordinal of the traversed pair.
    pub cmps: Vec<(u32, u32, u64)>,
    /// How many pairs were pending at each of these.
    pub pending_at: Vec<u32>,
    /// `max` was exceeded: no result.
    pub truncated: bool,
}

struct Uf(Vec<u32>);
impl Uf {
    fn find(&mut self, mut x: u32) -> u32 {
        while self.0[x as usize] != x {
            let p = self.0[self.0[x as usize] as usize];
            self.0[x as usize] = p;
            x = p;
        }
        x
    }
    fn union(&mut self, a: u32, b: u32) -> bool {
        let (a, b) = (self.find(a), self.find(b));
        if a == b {
            return false;
        }
        // Deliberately different from the tested code: no weights.
        self.0[a as usize] = b;
        true
    }
}

pub fn values_equal(g: &Arena, a: u32, b: u32) -> bool {
    let (x, y) = (&g.nodes[a as usize], &g.nodes[b as usize]);
    !x.nan && !y.nan && x.l == y.l
}

impl<'g> Sim<'g> {
    pub fn new(g: &'g Arena, order: Order, dedupe: Dedupe) -> Self {
        Sim { g, a: g.roots[0], b: g.roots[1], order, dedupe, degree: usize::MAX, max: u64::MAX, trace: false }
    }
    pub fn roots(self, a: u32, b: u32) -> Self {
        Sim { a, b, ..self }
    }
    pub fn max(self, max: u64) -> Self {
        Sim { max, ..self }
    }
    pub fn degree(self, degree: usize) -> Self {
        Sim { degree, ..self }
    }
    pub fn traced(self) -> Self {
        Sim { trace: true, ..self }
    }

    fn edge(&self, n: u32, k: usize) -> Option<u32> {
        if k >= self.degree {
            None
        } else {
            self.g.nodes[n as usize].e.get(k).copied()
        }
    }

    pub fn run(&self) -> SimOut {
        let mut out = SimOut {
            diff: Diff::None,
            pairs: 0,
            identical: 0,
            branches: 0,
            skipped: 0,
            peak_pending: 0,
            cmps: Vec::new(),
            pending_at: Vec::new(),
            truncated: false,
        };
        let mut seen: HashSet<(u32, u32)> = HashSet::new();
        let mut uf = Uf(if self.dedupe == Dedupe::Classes { (0..self.g.nodes.len() as u32).collect() } else { vec![] });
        let mut pending: VecDeque<(u32, u32, usize)> = VecDeque::new();
        let (mut a, mut b) = (self.a, self.b);
        loop {
            // Visit the pair.
            if out.pairs >= self.max {
                out.truncated = true;
                return out;
            }
            out.pairs += 1;
            if self.g.nodes[a as usize].id == self.g.nodes[b as usize].id {
                out.identical += 1;
            } else {
                if self.trace {
                    out.cmps.push((a, b, out.pairs));
                    out.pending_at.push(pending.len() as u32);
                }
                if !values_equal(self.g, a, b) {
                    out.diff = Diff::Val(a, b);
                    return out;
                }
                match (self.edge(a, 0), self.edge(b, 0)) {
                    (None, None) => {}
                    (None, Some(_)) => {
                        out.diff = Diff::Edges(a, b, Ordering::Less);
                        return out;
                    }
                    (Some(_), None) => {
                        out.diff = Diff::Edges(a, b, Ordering::Greater);
                        return out;
                    }
                    (Some(_), Some(_)) => {
                        let descend = match self.dedupe {
                            Dedupe::Off => true,
                            Dedupe::Pairs => seen.insert((a, b)),
                            Dedupe::Classes => uf.union(a, b),
                        };
                        if descend {
                            out.branches += 1;
                            pending.push_back((a, b, 0));
                            out.peak_pending = out.peak_pending.max(pending.len());
                        } else {
                            out.skipped += 1;
                        }
                    }
                }
            }
            // Take the next pair.
            let at = match self.order {
                Order::Dfs => pending.back_mut(),
                Order::Bfs => pending.front_mut(),
            };
            let Some(f) = at else { return out };
            let (fa, fb, k) = *f;
            match (self.edge(fa, k), self.edge(fb, k)) {
                (Some(x), Some(y)) => {
                    f.2 += 1;
                    a = x;
                    b = y;
                    if self.edge(fa, k + 1).is_none() && self.edge(fb, k + 1).is_none() {
                        match self.order {
                            Order::Dfs => pending.pop_back(),
                            Order::Bfs => pending.pop_front(),
                        };
                    }
                }
                (None, Some(_)) => {
                    out.diff = Diff::Edges(fa, fb, Ordering::Less);
                    return out;
                }
                (Some(_), None) => {
                    out.diff = Diff::Edges(fa, fb, Ordering::Greater);
                    return out;
                }
                (None, None) => unreachable!("exhausted pairs are not kept"),
            }
        }
    }
}

/// Exact verdict, for ids that are the own indexes (or, if small, any).
pub fn verdict(g: &Arena, a: u32, b: u32) -> Diff {
    let n = g.nodes.len() as u64;
    let dedupe = if n * n <= 250_000 { Dedupe::Pairs } else { Dedupe::Classes };
    Sim::new(g, Order::Bfs, dedupe).roots(a, b).run().diff
}

/// All differences of counterparts that are reachable without going through a difference.
pub fn all_diffs(g: &Arena, a: u32, b: u32) -> Vec<Diff> {
    let mut seen = HashSet::new();
    let mut todo = vec![(a, b)];
    let mut out = Vec::new();
    while let Some((a, b)) = todo.pop() {
        if g.nodes[a as usize].id == g.nodes[b as usize].id || !seen.insert((a, b)) {
            continue;
        }
        if !values_equal(g, a, b) {
            out.push(Diff::Val(a, b));
            continue;
        }
        let (x, y) = (&g.nodes[a as usize].e, &g.nodes[b as usize].e);
        if x.len() != y.len() {
            out.push(Diff::Edges(a, b, x.len().cmp(&y.len())));
        }
        for (s, t) in x.iter().zip(y) {
            todo.push((*s, *t));
        }
    }
    out
}

/// The work bound of comparison with shared-structure detection.
pub fn work_bound(branch_ids: usize, degree: usize, slow: u64, fast: u64) -> u64 {
    let n = branch_ids as u64;
    let m = n.saturating_sub(1).max(1);
    1 + degree as u64 * (m + (m / slow.max(1)) * (fast + 1))
}

/// Plain unfolded tree with the language's own derived equality.
#[derive(PartialEq, Debug)]
pub struct Tree {
    l: u32,
    c: Vec<Tree>,
}
pub fn unfold(g: &Arena, n: u32) -> Tree {
    let x = &g.nodes[n as usize];
    Tree { l: x.l, c: x.e.iter().map(|&t| unfold(g, t)).collect() }
}

/// Answers of a scripted comparison: 0 no, 1 yes, 2 error.
#[derive(Clone, Debug, Default)]
pub struct Script {
    pub traverse: Vec<u8>,
    pub descend: Vec<u8>,
    pub then_no: bool,
    pub recur_err: Option<u64>,
    /// Whether calls of the recursion mode are logged.
    pub log_recur: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Scripted {
    Diff(Diff),
    /// Errors are numbered as by the scripted modes.
    Err(u64),
    Truncated,
}

/// The events, in order, that the scripted comparison must give (without requests of edges).
pub fn scripted(g: &Arena, order: Order, s: &Script, max: usize) -> (Scripted, Vec<crate::node::Ev>, usize) {
    use crate::node::Ev;
    let mut log = Vec::new();
    let (mut travs, mut does, mut recurs, mut peak) = (0_u64, 0_u64, 0_u64, 0);
    let mut pending: VecDeque<(u32, u32, usize)> = VecDeque::new();
    let (mut a, mut b) = (g.roots[0], g.roots[1]);
    loop {
        if log.len() > max {
            return (Scripted::Truncated, log, peak);
        }
        let t = s.traverse.get(travs as usize).copied().unwrap_or(1);
        log.push(Ev::Trav(t));
        if t == 2 {
            return (Scripted::Err(2_000_000 + travs), log, peak);
        }
        travs += 1;
        let (x, y) = (&g.nodes[a as usize], &g.nodes[b as usize]);
        if t == 1 && x.id != y.id {
            log.push(Ev::Cmp(a, b));
            if !values_equal(g, a, b) {
                return (Scripted::Diff(Diff::Val(a, b)), log, peak);
            }
            if x.e.is_empty() != y.e.is_empty() {
                return (Scripted::Diff(Diff::Edges(a, b, x.e.len().cmp(&y.e.len()))), log, peak);
            }
            if !x.e.is_empty() {
                let d = s.descend.get(does as usize).copied().unwrap_or(u8::from(!s.then_no));
                log.push(Ev::Do(a, b, d));
                if d == 2 {
                    return (Scripted::Err(1_000_000 + does), log, peak);
                }
                does += 1;
                if d == 1 {
                    let err = s.recur_err == Some(recurs);
                    if s.log_recur {
                        log.push(Ev::Recur(if err { 2 } else { 1 }));
                        if err {
                            return (Scripted::Err(recurs), log, peak);
                        }
                    }
                    recurs += 1;
                    pending.push_back((a, b, 0));
                    peak = peak.max(pending.len());
                }
            }
        }
        let at = match order {
            Order::Dfs => pending.back_mut(),
            Order::Bfs => pending.front_mut(),
        };
        let Some(f) = at else { return (Scripted::Diff(Diff::None), log, peak) };
        let (fa, fb, k) = *f;
        let (ea, eb) = (&g.nodes[fa as usize].e, &g.nodes[fb as usize].e);
        if k >= ea.len().min(eb.len()) {
            // (Exhausted pairs are not kept.)
            return (Scripted::Diff(Diff::Edges(fa, fb, ea.len().cmp(&eb.len()))), log, peak);
        }
        f.2 += 1;
        (a, b) = (ea[k], eb[k]);
        if k + 1 == ea.len() && k + 1 == eb.len() {
            match order {
                Order::Dfs => pending.pop_back(),
                Order::Bfs => pending.pop_front(),
            };
        }
    }
}
