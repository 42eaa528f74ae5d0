//! Explicit graphs ("arenas"), their generators, and their minimisation.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct ANode {
    /// Directly contained value.
    pub l: u32,
    /// Identity (normally the own index).
    pub id: u32,
    /// Ordered edges.
    pub e: Vec<u32>,
    /// Value that is inequivalent even to itself.
    #[serde(default)]
    pub nan: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Arena {
    pub nodes: Vec<ANode>,
    pub roots: Vec<u32>,
}

impl Arena {
    pub fn a(&self) -> u32 {
        self.roots[0]
    }
    pub fn b(&self) -> u32 {
        self.roots[1]
    }
    pub fn max_degree(&self) -> usize {
        self.nodes.iter().map(|n| n.e.len()).max().unwrap_or(0)
    }
    /// Nodes reachable from the given roots.
    pub fn reachable(&self, roots: &[u32]) -> Vec<bool> {
        let mut seen = vec![false; self.nodes.len()];
        let mut todo: Vec<u32> = roots.to_vec();
        while let Some(n) = todo.pop() {
            if !std::mem::replace(&mut seen[n as usize], true) {
                todo.extend_from_slice(&self.nodes[n as usize].e);
            }
        }
        seen
    }
    /// Distinct identities of reachable branch nodes.
    pub fn branch_ids(&self, roots: &[u32]) -> usize {
        let r = self.reachable(roots);
        let s: BTreeSet<u32> = self
            .nodes
            .iter()
            .enumerate()
            .filter(|(i, n)| r[*i] && !n.e.is_empty())
            .map(|(_, n)| n.id)
            .collect();
        s.len()
    }
    pub fn is_acyclic(&self) -> bool {
        // Kahn's algorithm.
        let n = self.nodes.len();
        let mut indeg = vec![0_u32; n];
        for x in &self.nodes {
            for &e in &x.e {
                indeg[e as usize] += 1;
            }
        }
        let mut todo: Vec<usize> = (0..n).filter(|&i| indeg[i] == 0).collect();
        let mut done = 0;
        while let Some(i) = todo.pop() {
            done += 1;
            for &e in &self.nodes[i].e {
                indeg[e as usize] -= 1;
                if indeg[e as usize] == 0 {
                    todo.push(e as usize);
                }
            }
        }
        done == n
    }
    pub fn has_sharing(&self) -> bool {
        let mut indeg = vec![0_u32; self.nodes.len()];
        let r = self.reachable(&self.roots);
        for (i, x) in self.nodes.iter().enumerate() {
            if r[i] {
                for &e in &x.e {
                    indeg[e as usize] += 1;
                }
            }
        }
        indeg.iter().any(|&d| d > 1)
    }
    /// Longest path in edges; only for acyclic arenas.
    pub fn height(&self) -> usize {
        let n = self.nodes.len();
        let mut indeg = vec![0_u32; n];
        for x in &self.nodes {
            for &e in &x.e {
                indeg[e as usize] += 1;
            }
        }
        let mut todo: Vec<usize> = (0..n).filter(|&i| indeg[i] == 0).collect();
        let mut h = vec![0_usize; n];
        let mut best = 0;
        while let Some(i) = todo.pop() {
            best = best.max(h[i]);
            for &e in &self.nodes[i].e {
                h[e as usize] = h[e as usize].max(h[i] + 1);
                indeg[e as usize] -= 1;
                if indeg[e as usize] == 0 {
                    todo.push(e as usize);
                }
            }
        }
        best
    }
    /// Reset identities to the own indexes.
    pub fn finish(mut self) -> Self {
        for (i, n) in self.nodes.iter_mut().enumerate() {
            n.id = i as u32;
        }
        self
    }

    /// Candidates that are simpler by one step, for minimisation of a failing case.
    pub fn shrinks(&self) -> Vec<Arena> {
        let mut out = Vec::new();
        let n = self.nodes.len();
        // Drop unreachable nodes.
        let r = self.reachable(&self.roots);
        if r.iter().any(|x| !x) {
            let mut map = vec![u32::MAX; n];
            let mut nodes = Vec::new();
            for i in 0..n {
                if r[i] {
                    map[i] = nodes.len() as u32;
                    nodes.push(self.nodes[i].clone());
                }
            }
            let own_ids = self.nodes.iter().enumerate().all(|(i, x)| x.id == i as u32);
            for (i, x) in nodes.iter_mut().enumerate() {
                for e in &mut x.e {
                    *e = map[*e as usize];
                }
                if own_ids {
                    x.id = i as u32;
                }
            }
            out.push(Arena { nodes, roots: self.roots.iter().map(|&x| map[x as usize]).collect() });
        }
        if n > 400 {
            // Big shapes are minimised through their recipe only (plus these coarse steps).
            for i in (0..n).step_by(n / 100 + 1) {
                if !self.nodes[i].e.is_empty() {
                    let mut c = self.clone();
                    c.nodes[i].e.clear();
                    out.push(c);
                }
            }
            return out;
        }
        for i in 0..n {
            if !r[i] {
                continue;
            }
            // Bypass: everything that points to `i` points to one of its children.
            if let Some(&t) = self.nodes[i].e.last() {
                if t != i as u32 {
                    let mut c = self.clone();
                    for x in &mut c.nodes {
                        for e in &mut x.e {
                            if *e == i as u32 {
                                *e = t;
                            }
                        }
                    }
                    for x in &mut c.roots {
                        if *x == i as u32 {
                            *x = t;
                        }
                    }
                    out.push(c);
                }
            }
            if self.nodes[i].e.len() > 1 {
                let mut c = self.clone();
                c.nodes[i].e.clear();
                out.push(c);
            }
            for k in 0..self.nodes[i].e.len().min(40) {
                let mut c = self.clone();
                c.nodes[i].e.remove(k);
                out.push(c);
            }
            if self.nodes[i].l != 0 {
                let mut c = self.clone();
                c.nodes[i].l = 0;
                out.push(c);
            }
            if self.nodes[i].nan {
                let mut c = self.clone();
                c.nodes[i].nan = false;
                out.push(c);
            }
        }
        // Change the same edge in all nodes that have equal rows (keeps equivalent graphs
        // equivalent).
        let rows: BTreeSet<(u32, usize)> = (0..n).filter(|&i| r[i]).map(|i| (self.nodes[i].l, self.nodes[i].e.len())).collect();
        for (l, d) in rows {
            for k in 0..d.min(8) {
                let mut c = self.clone();
                for x in &mut c.nodes {
                    if x.l == l && x.e.len() == d {
                        x.e.remove(k);
                    }
                }
                out.push(c);
            }
        }
        out
    }
}

// ------------------------------------------------------------------------------------ covers

#[derive(Clone, Debug)]
pub struct TNode {
    pub label: u8,
    /// Raw choices of targets.
    pub edges: Vec<u16>,
    /// Copies per side (cyclic per side), and shared copies.
    pub copies: u8,
    pub copies2: u8,
    pub shared: u8,
}

#[derive(Clone, Debug)]
pub struct Mutation {
    pub kind: u8,
    pub target: u16,
    pub arg: u16,
    pub arg2: u16,
}

#[derive(Clone, Debug)]
pub struct Cover {
    pub template: Vec<TNode>,
    pub acyclic: bool,
    pub sides: usize,
    pub labels: u8,
    pub max_copies: u8,
    pub picks: Vec<u16>,
    pub muts: Vec<Mutation>,
    /// Cap of the size of the unfolding of acyclic templates, kept by dropping edges.
    pub cap: usize,
}

struct Picks<'p> {
    v: &'p [u16],
    i: usize,
    x: u64,
}
impl Picks<'_> {
    fn next(&mut self, n: usize) -> usize {
        // The generated values are used first; then they are recycled with a position-dependent
        // mix, so that long structures stay irregular while remaining a pure function of the
        // recipe.  All-zero picks stay all-zero, for shrinking.
        let base = if self.v.is_empty() { 0 } else { self.v[self.i % self.v.len()] as u64 };
        let round = if self.v.is_empty() { 0 } else { self.i / self.v.len() };
        self.i += 1;
        let val = if round == 0 || base == 0 {
            base
        } else {
            self.x = (self.x ^ base).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) ^ self.i as u64;
            self.x >> 20
        };
        (val % n.max(1) as u64) as usize
    }
}

impl Cover {
    pub fn build(&self) -> Arena {
        let nt = self.template.len();
        let mut picks = Picks { v: &self.picks, i: 0, x: 1 };
        // Template edges (as template indexes).
        let mut tedges: Vec<Vec<usize>> = vec![Vec::new(); nt];
        // A parent per node, for reachability.
        let mut parents: Vec<usize> = vec![0; nt];
        for (i, p) in parents.iter_mut().enumerate().skip(1) {
            // Prefer near parents half of the time, for depth.
            *p = if picks.next(2) == 0 { i - 1 } else { picks.next(i) };
        }
        for i in 0..nt {
            for &raw in &self.template[i].edges {
                if self.acyclic {
                    if i + 1 < nt {
                        tedges[i].push(i + 1 + (raw as usize) % (nt - i - 1));
                    }
                } else {
                    tedges[i].push((raw as usize) % nt);
                }
            }
        }
        for i in 1..nt {
            let p = parents[i];
            if !tedges[p].contains(&i) {
                let at = picks.next(tedges[p].len() + 1);
                tedges[p].insert(at, i);
            }
        }
        if self.acyclic && self.cap > 0 {
            let mut size = vec![1_usize; nt];
            for i in (0..nt).rev() {
                let mut kept = Vec::new();
                for &t in &tedges[i] {
                    if size[i] + size[t] <= self.cap {
                        size[i] += size[t];
                        kept.push(t);
                    }
                }
                tedges[i] = kept;
            }
        }
        // Pools of copies.
        let mut nodes: Vec<ANode> = Vec::new();
        let mut origin: Vec<(usize, usize)> = Vec::new(); // (template, side or `sides` if shared)
        let mut pools: Vec<Vec<Vec<u32>>> = vec![vec![Vec::new(); nt]; self.sides];
        let mc = self.max_copies.max(1);
        for t in 0..nt {
            let tn = &self.template[t];
            let shared = if tn.shared > 250 { 2 } else if tn.shared > 225 { 1 } else { 0 };
            for side in 0..self.sides {
                let raw = if side % 2 == 0 { tn.copies } else { tn.copies2 };
                let mut c = 1 + (raw % mc) as usize;
                if shared > 0 && raw % 3 == 0 {
                    c = 0;
                }
                for _ in 0..c {
                    pools[side][t].push(nodes.len() as u32);
                    nodes.push(ANode { l: (tn.label % self.labels.max(1)) as u32, ..ANode::default() });
                    origin.push((t, side));
                }
            }
            for _ in 0..shared {
                for side in 0..self.sides {
                    pools[side][t].push(nodes.len() as u32);
                }
                nodes.push(ANode { l: (tn.label % self.labels.max(1)) as u32, ..ANode::default() });
                origin.push((t, self.sides));
            }
        }
        for i in 0..nodes.len() {
            let (t, side) = origin[i];
            let e = tedges[t]
                .iter()
                .map(|&tt| {
                    let s = if side == self.sides { picks.next(self.sides) } else { side };
                    let pool = &pools[s][tt];
                    pool[picks.next(pool.len())]
                })
                .collect();
            nodes[i].e = e;
        }
        let roots = (0..self.sides).map(|s| pools[s][0][picks.next(pools[s][0].len())]).collect();
        let mut arena = Arena { nodes, roots }.finish();
        let reach = arena.reachable(&arena.roots);
        let live: Vec<usize> = (0..arena.nodes.len()).filter(|&i| reach[i]).collect();
        for m in &self.muts {
            let i = live[m.target as usize % live.len()];
            let d = arena.nodes[i].e.len();
            match m.kind % 8 {
                0 | 1 => arena.nodes[i].l += 1 + (m.arg % 2) as u32,
                2 => {
                    arena.nodes[i].e.pop();
                }
                3 if d > 0 => {
                    let x = arena.nodes[i].e[m.arg as usize % d];
                    arena.nodes[i].e.push(x);
                }
                4 | 5 if d > 0 => {
                    let to = live[m.arg2 as usize % live.len()];
                    if !self.acyclic || origin[to].0 > origin[i].0 {
                        arena.nodes[i].e[m.arg as usize % d] = to as u32;
                    }
                }
                6 if d > 1 => arena.nodes[i].e.swap(m.arg as usize % d, m.arg2 as usize % d),
                7 if d > 0 => {
                    arena.nodes[i].e.remove(m.arg as usize % d);
                }
                _ => arena.nodes[i].l = arena.nodes[i].l.wrapping_sub(1).min(9),
            }
        }
        arena
    }
}

#[derive(Clone, Copy, Debug)]
pub struct CoverP {
    pub nodes: usize,
    pub degree: usize,
    pub copies: u8,
    pub labels: u8,
    pub muts: usize,
    pub cap: usize,
}

pub fn cover(p: CoverP, acyclic: Option<bool>, sides: usize) -> BoxedStrategy<Cover> {
    let tnode = (
        any::<u8>(),
        prop::collection::vec(any::<u16>(), 0..=p.degree),
        any::<u8>(),
        any::<u8>(),
        any::<u8>(),
    )
        .prop_map(|(label, edges, copies, copies2, shared)| TNode { label, edges, copies, copies2, shared });
    let mutation = (any::<u8>(), any::<u16>(), any::<u16>(), any::<u16>())
        .prop_map(|(kind, target, arg, arg2)| Mutation { kind, target, arg, arg2 });
    let acy = match acyclic {
        Some(x) => Just(x).boxed(),
        None => prop::bool::weighted(0.3).boxed(),
    };
    (
        prop::collection::vec(tnode, 1..=p.nodes),
        acy,
        1..=p.labels,
        1..=p.copies,
        prop::collection::vec(any::<u16>(), 1..40),
        prop_oneof![
            4 => Just(Vec::new()),
            4 => prop::collection::vec(mutation.clone(), 1..=1),
            2 => prop::collection::vec(mutation, 1..=p.muts.max(1)),
        ],
    )
        .prop_map(move |(template, acyclic, labels, max_copies, picks, muts)| Cover {
            template,
            acyclic,
            sides,
            labels,
            max_copies,
            picks,
            muts,
            cap: p.cap,
        })
        .boxed()
}

pub const SMALL: CoverP = CoverP { nodes: 9, degree: 3, copies: 4, labels: 3, muts: 3, cap: 0 };
pub const SYMMETRIC: CoverP = CoverP { nodes: 3, degree: 3, copies: 30, labels: 1, muts: 2, cap: 0 };
pub const MEDIUM: CoverP = CoverP { nodes: 60, degree: 4, copies: 4, labels: 2, muts: 3, cap: 0 };
pub const LARGE: CoverP = CoverP { nodes: 300, degree: 3, copies: 5, labels: 2, muts: 2, cap: 0 };

pub fn with_cap(p: CoverP, cap: usize) -> CoverP {
    CoverP { cap, ..p }
}

/// Independent random graphs: mostly unequal early, with arbitrary sharing between them.
pub fn random_graph(max: usize, degree: usize, roots: usize) -> BoxedStrategy<Arena> {
    (
        prop::collection::vec((0_u8..2, prop::collection::vec(any::<u16>(), 0..=degree)), 1..=max),
        prop::collection::vec(any::<u16>(), roots),
    )
        .prop_map(|(v, roots)| {
            let n = v.len();
            let nodes = v
                .iter()
                .map(|(l, e)| ANode {
                    l: (*l) as u32,
                    e: e.iter().map(|&x| x as u32 % n as u32).collect(),
                    ..ANode::default()
                })
                .collect();
            Arena { nodes, roots: roots.iter().map(|&r| r as u32 % n as u32).collect() }.finish()
        })
        .boxed()
}

// ------------------------------------------------------------------------------------ shapes

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Shape {
    List,
    InvertedList,
    Vee,
    DegenerateDag,
    DegenerateCyclic,
    Ring,
    Lollipop,
    RingTwoEdges,
    Grid,
    Shift,
    FullTree,
    Wide,
    WideTwoLevel,
    Comb,
    Bush,
}

pub const ALL_SHAPES: [Shape; 15] = [
    Shape::List,
    Shape::InvertedList,
    Shape::Vee,
    Shape::DegenerateDag,
    Shape::DegenerateCyclic,
    Shape::Ring,
    Shape::Lollipop,
    Shape::RingTwoEdges,
    Shape::Grid,
    Shape::Shift,
    Shape::FullTree,
    Shape::Wide,
    Shape::WideTwoLevel,
    Shape::Comb,
    Shape::Bush,
];
pub const CYCLIC_SHAPES: [Shape; 5] =
    [Shape::DegenerateCyclic, Shape::Ring, Shape::Lollipop, Shape::RingTwoEdges, Shape::Shift];
/// Acyclic shapes whose unfolding has size linear in the number of nodes.
pub const TREE_SHAPES: [Shape; 8] = [
    Shape::List,
    Shape::InvertedList,
    Shape::Vee,
    Shape::FullTree,
    Shape::Wide,
    Shape::WideTwoLevel,
    Shape::Comb,
    Shape::Bush,
];

/// Append one graph of the given shape to `nodes` and return its root.  `n` is about the number
/// of branch nodes, `m` a secondary parameter.
pub fn append_shape(nodes: &mut Vec<ANode>, shape: Shape, n: usize, m: usize) -> u32 {
    let n = n.max(1);
    fn add(nodes: &mut Vec<ANode>, e: Vec<u32>) -> u32 {
        nodes.push(ANode { e, ..ANode::default() });
        nodes.len() as u32 - 1
    }
    match shape {
        Shape::List => {
            let mut head = add(nodes, vec![]);
            for _ in 0..n {
                let leaf = add(nodes, vec![]);
                head = add(nodes, vec![leaf, head]);
            }
            head
        }
        Shape::InvertedList => {
            let mut head = add(nodes, vec![]);
            for _ in 0..n {
                let leaf = add(nodes, vec![]);
                head = add(nodes, vec![head, leaf]);
            }
            head
        }
        Shape::Vee => {
            let l = append_shape(nodes, Shape::InvertedList, n / 2, m);
            let r = append_shape(nodes, Shape::List, n / 2, m);
            add(nodes, vec![l, r])
        }
        Shape::DegenerateDag => {
            let mut head = add(nodes, vec![]);
            for _ in 0..n {
                head = add(nodes, vec![head, head]);
            }
            head
        }
        Shape::DegenerateCyclic => {
            let first = add(nodes, vec![]);
            let mut head = first;
            for _ in 1..n {
                head = add(nodes, vec![head, head]);
            }
            nodes[first as usize].e = vec![head, head];
            head
        }
        Shape::Ring => {
            let first = add(nodes, vec![]);
            let mut head = first;
            for _ in 1..n {
                head = add(nodes, vec![head]);
            }
            nodes[first as usize].e = vec![head];
            head
        }
        Shape::Lollipop => {
            let mut head = append_shape(nodes, Shape::Ring, m.max(1), 0);
            for _ in 0..n {
                head = add(nodes, vec![head]);
            }
            head
        }
        Shape::RingTwoEdges => {
            // i -> (i+1, i+1+m) around a ring.
            let base = nodes.len();
            for i in 0..n {
                let e = vec![(base + (i + 1) % n) as u32, (base + (i + 1 + m) % n) as u32];
                add(nodes, e);
            }
            base as u32
        }
        Shape::Grid => {
            // A square grid, each node pointing right and down.
            let w = (n as f64).sqrt().ceil().max(1.0) as usize;
            let base = nodes.len();
            for i in 0..w {
                for j in 0..w {
                    let mut e = Vec::new();
                    if j + 1 < w {
                        e.push((base + i * w + j + 1) as u32);
                    }
                    if i + 1 < w {
                        e.push((base + (i + 1) * w + j) as u32);
                    }
                    add(nodes, e);
                }
            }
            base as u32
        }
        Shape::Shift => {
            // Shift register graph: i -> (2i mod n, 2i+1 mod n).
            let base = nodes.len();
            for i in 0..n {
                let e = vec![(base + (2 * i) % n) as u32, (base + (2 * i + 1) % n) as u32];
                add(nodes, e);
            }
            (base + m % n) as u32
        }
        Shape::FullTree => {
            // Heap-shaped complete binary tree with n branch nodes.
            let base = nodes.len();
            for i in 0..2 * n + 1 {
                let e = if i < n { vec![(base + 2 * i + 1) as u32, (base + 2 * i + 2) as u32] } else { vec![] };
                add(nodes, e);
            }
            base as u32
        }
        Shape::Wide => {
            let base = nodes.len() as u32;
            for _ in 0..n {
                add(nodes, vec![]);
            }
            add(nodes, (base..base + n as u32).collect())
        }
        Shape::WideTwoLevel => {
            let w = (n as f64).sqrt().ceil().max(1.0) as usize;
            let kids: Vec<u32> = (0..w).map(|_| append_shape(nodes, Shape::Wide, w, 0)).collect();
            add(nodes, kids)
        }
        Shape::Comb => {
            // A spine whose nodes have short teeth before and after the tail edge.
            let mut head = add(nodes, vec![]);
            for i in 0..n / 3 + 1 {
                let leaf = add(nodes, vec![]);
                let tooth = add(nodes, vec![leaf]);
                head = if i % 2 == 0 { add(nodes, vec![tooth, head]) } else { add(nodes, vec![head, tooth]) };
            }
            head
        }
        Shape::Bush => {
            // Deterministic irregular tree: node i's parent is a nearby earlier node.
            let base = nodes.len();
            for _ in 0..n + 1 {
                add(nodes, vec![]);
            }
            for i in 1..n + 1 {
                let back = 1 + (i.wrapping_mul(2_654_435_761) >> 7) % (m % 7 + 2);
                let p = i.saturating_sub(back);
                nodes[base + p].e.push((base + i) as u32);
            }
            base as u32
        }
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct ShapeCase {
    pub shape: Shape,
    pub n: Vec<usize>,
    pub m: usize,
    pub mutate: Option<(u8, u32, u16)>,
}

impl ShapeCase {
    pub fn build(&self) -> Arena {
        let mut nodes = Vec::new();
        let roots: Vec<u32> = self.n.iter().map(|&n| append_shape(&mut nodes, self.shape, n, self.m)).collect();
        if let Some((kind, target, arg)) = self.mutate {
            let len = nodes.len();
            // Half of the time near the end of a graph, i.e. late in the traversal.
            let i = if kind & 8 != 0 { len - 1 - (target as usize % len.min(20)) } else { target as usize % len };
            let d = nodes[i].e.len();
            match kind % 4 {
                0 | 1 => nodes[i].l = 1,
                2 if d > 0 => {
                    nodes[i].e.remove(arg as usize % d);
                }
                3 if d > 0 => {
                    let x = nodes[i].e[arg as usize % d];
                    nodes[i].e.push(x);
                }
                _ => nodes[i].l = 2,
            }
        }
        Arena { nodes, roots }.finish()
    }
}

impl ShapeCase {
    pub fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        let fewer = |f: &dyn Fn(usize) -> usize| ShapeCase { n: self.n.iter().map(|&n| f(n).max(1)).collect(), ..self.clone() };
        for c in [fewer(&|n| n / 2), fewer(&|n| n - n / 8), fewer(&|n| n - n / 64), fewer(&|n| n - 1)] {
            if c.n != self.n {
                out.push(c);
            }
        }
        if self.m > 0 {
            out.push(ShapeCase { m: self.m / 2, ..self.clone() });
        }
        if self.mutate.is_some() {
            out.push(ShapeCase { mutate: None, ..self.clone() });
        }
        out
    }
}

/// Large shapes of two graphs of nearly the same size.
pub fn huge_shape(shapes: &'static [Shape], lo: u32, hi: u32) -> BoxedStrategy<ShapeCase> {
    (
        prop::sample::select(shapes),
        lo..hi,
        any::<u32>(),
        prop_oneof![8 => Just(0_usize), 1 => 1..=3_usize],
        0_usize..4000,
        prop::option::weighted(0.6, (any::<u8>(), any::<u32>(), any::<u16>())),
    )
        .prop_map(|(shape, k, raw, delta, m, mutate)| {
            let n = (1_usize << k) + raw as usize % (1 << k);
            let m = if matches!(shape, Shape::Lollipop) { m % 300 } else { m };
            ShapeCase { shape, n: vec![n, n + delta], m, mutate }
        })
        .boxed()
}

/// Shapes of `sides` graphs, each mostly of the same size, sometimes of related different sizes.
pub fn shape(shapes: &'static [Shape], max: usize, sides: usize) -> BoxedStrategy<ShapeCase> {
    (
        prop::sample::select(shapes),
        1..=max,
        0..=7_usize,
        0_usize..4000,
        prop::option::weighted(0.4, (any::<u8>(), any::<u32>(), any::<u16>())),
    )
        .prop_map(move |(shape, n, delta, m, mutate)| {
            let n = (0..sides)
                .map(|s| match (delta, shape) {
                    // Rings are equivalent whatever their lengths.
                    (1..=4, Shape::Ring | Shape::Lollipop | Shape::DegenerateCyclic | Shape::Shift | Shape::RingTwoEdges) => {
                        n + s * delta
                    }
                    (5, Shape::Ring | Shape::DegenerateCyclic | Shape::Shift) => n * (1 + s),
                    (6, _) => n + s,
                    _ => n,
                })
                .collect();
            let m = if matches!(shape, Shape::Lollipop) { m % 300 } else { m };
            ShapeCase { shape, n, m, mutate }
        })
        .boxed()
}

/// The standard mixture of pairs of graphs.
pub fn pairs(acyclic: Option<bool>, big: usize) -> BoxedStrategy<Arena> {
    multi(acyclic, big, 2)
}

pub fn multi(acyclic: Option<bool>, big: usize, sides: usize) -> BoxedStrategy<Arena> {
    let shapes: &'static [Shape] = match acyclic {
        Some(false) => &CYCLIC_SHAPES,
        Some(true) => &[
            Shape::List,
            Shape::InvertedList,
            Shape::Vee,
            Shape::DegenerateDag,
            Shape::Grid,
            Shape::FullTree,
            Shape::Wide,
            Shape::WideTwoLevel,
            Shape::Comb,
            Shape::Bush,
        ],
        None => &ALL_SHAPES,
    };
    let mut opts: Vec<(u32, BoxedStrategy<Arena>)> = vec![
        (50, cover(SMALL, acyclic, sides).prop_map(|c| c.build()).boxed()),
        (20, cover(SYMMETRIC, acyclic, sides).prop_map(|c| c.build()).boxed()),
        (10, cover(MEDIUM, acyclic, sides).prop_map(|c| c.build()).boxed()),
        (8, shape(shapes, 60, sides).prop_map(|c| c.build()).boxed()),
        (4, shape(shapes, big, sides).prop_map(|c| c.build()).boxed()),
    ];
    if big >= 1000 {
        opts.push((2, cover(LARGE, acyclic, sides).prop_map(|c| c.build()).boxed()));
    }
    if acyclic != Some(true) {
        opts.push((8, random_graph(8, 3, sides).boxed()));
    }
    prop::strategy::Union::new_weighted(opts).boxed()
}

/// Acyclic pairs whose unfolding is small enough for the variants without sharing detection.
pub fn tree_like(cap: usize, big: usize, sides: usize) -> BoxedStrategy<Arena> {
    prop_oneof![
        50 => cover(with_cap(SMALL, cap), Some(true), sides).prop_map(|c| c.build()),
        15 => cover(with_cap(SYMMETRIC, cap), Some(true), sides).prop_map(|c| c.build()),
        20 => cover(with_cap(MEDIUM, cap), Some(true), sides).prop_map(|c| c.build()),
        10 => shape(&TREE_SHAPES, 60, sides).prop_map(|c| c.build()),
        4 => shape(&TREE_SHAPES, big, sides).prop_map(|c| c.build()),
        4 => shape(&[Shape::DegenerateDag], 10, sides).prop_map(|c| c.build()),
        3 => shape(&[Shape::Grid], 36, sides).prop_map(|c| c.build()),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------------------- all small graphs

/// All graphs of `nodes` nodes with at most `degree` edges each and `labels` different labels, the
/// roots being the first nodes.
#[derive(Clone, Copy, Debug)]
pub struct Space {
    pub nodes: u64,
    pub degree: u32,
    pub labels: u64,
    pub roots: u32,
}
impl Space {
    fn edge_lists(&self) -> u64 {
        (0..=self.degree).map(|k| self.nodes.pow(k)).sum()
    }
    pub const fn size(&self) -> u64 {
        let (mut lists, mut power, mut k) = (0, 1, 0);
        while k <= self.degree {
            lists += power;
            power *= self.nodes;
            k += 1;
        }
        (self.labels * lists).pow(self.nodes as u32)
    }
    pub fn nth(&self, mut i: u64) -> Arena {
        let per = self.labels * self.edge_lists();
        let nodes = (0..self.nodes)
            .map(|_| {
                let mut x = i % per;
                i /= per;
                let l = (x % self.labels) as u32;
                x /= self.labels;
                let mut k = 0;
                while x >= self.nodes.pow(k) {
                    x -= self.nodes.pow(k);
                    k += 1;
                }
                let e = (0..k)
                    .map(|_| {
                        let t = x % self.nodes;
                        x /= self.nodes;
                        t as u32
                    })
                    .collect();
                ANode { l, e, ..ANode::default() }
            })
            .collect();
        Arena { nodes, roots: (0..self.roots).collect() }.finish()
    }
}

/// A step that visits every index below any size that it does not divide.
const STRIDE: u128 = 0x9E37_79B9_7F4A_7C15 - 2; // Not divisible by the small primes that sizes are made of.

/// Generates each member of some spaces once (over all shards), in a scattered order.
#[derive(Debug)]
struct EachOf {
    spaces: &'static [Space],
    next: std::sync::atomic::AtomicU64,
}
impl Strategy for EachOf {
    type Tree = proptest::strategy::Just<Arena>;
    type Value = Arena;
    fn new_tree(&self, _: &mut proptest::test_runner::TestRunner) -> proptest::strategy::NewTree<Self> {
        let i = self.next.fetch_add(1, std::sync::atomic::Ordering::Relaxed) * crate::runner::SHARDS + crate::runner::shard();
        let total = each_size(self.spaces);
        let mut i = (u128::from(i) * STRIDE % u128::from(total)) as u64;
        for s in self.spaces {
            if i < s.size() {
                return Ok(Just(s.nth(i)));
            }
            i -= s.size();
        }
        unreachable!("index out of the spaces")
    }
}
pub const fn each_size(spaces: &[Space]) -> u64 {
    let (mut n, mut i) = (0, 0);
    while i < spaces.len() {
        n += spaces[i].size();
        i += 1;
    }
    n
}
/// To be generated `each_size` times.
pub fn each(spaces: &'static [Space]) -> BoxedStrategy<Arena> {
    fn gcd(a: u128, b: u128) -> u128 {
        if b == 0 { a } else { gcd(b, a % b) }
    }
    assert_eq!(gcd(STRIDE, each_size(spaces).into()), 1, "the stride must visit everything");
    EachOf { spaces, next: std::sync::atomic::AtomicU64::new(0) }.boxed()
}
const fn space(nodes: u64, degree: u32, labels: u64) -> Space {
    Space { nodes, degree, labels, roots: 2 }
}
/// About 28 thousand.
pub const EACH_TINY: &[Space] = &[space(2, 3, 2), space(3, 2, 2), space(4, 1, 2)];
/// About 280 thousand.
pub const EACH_SMALL: &[Space] = &[space(2, 3, 2), space(3, 2, 2), space(4, 2, 1), space(3, 3, 1), space(4, 1, 2)];
/// About 4 million.
pub const EACH_MEDIUM: &[Space] = &[space(3, 3, 2), space(4, 2, 2), space(5, 1, 2), space(6, 1, 1)];
