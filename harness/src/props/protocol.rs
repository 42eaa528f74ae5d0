//! C12-C14: how node methods and modes are called.

use super::limits::{discipline, rng, table};
use super::*;
use graph_safe_compare::Step;
use std::marker::PhantomData;

// ---------------------------------------------------------------------------------------- C12

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Gen {
    pub limits: u8,
    pub pair: u8,
    pub limit: u16,
    pub discipline: Discipline,
    pub table: TabKind,
    pub premade_table: bool,
    pub rng: Vec<u16>,
    pub sched: Vec<u16>,
}
impl Extra for Gen {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        if self.rng.len() > 1 {
            out.push(Gen { rng: self.rng[..1].to_vec(), ..self.clone() });
        }
        if !self.sched.is_empty() {
            out.push(Gen { sched: vec![], ..self.clone() });
        }
        if self.table != TabKind::BTree {
            out.push(Gen { table: TabKind::BTree, ..self.clone() });
        }
        if self.discipline != Discipline::Stack {
            out.push(Gen { discipline: Discipline::Stack, ..self.clone() });
        }
        out
    }
}
pub fn gen() -> impl Strategy<Value = Gen> {
    (0..20_u8, 0..12_u8, prop_oneof![0..30_u16, 0..1000_u16], discipline(), table(), prop::bool::weighted(0.2), rng(), prop::collection::vec(any::<u16>(), 0..6))
        .prop_map(|(limits, pair, limit, discipline, table, premade_table, rng, sched)| Gen { limits, pair, limit, discipline, table, premade_table, rng, sched })
}
/// For the largest graphs, where a linear table would take too long.
pub fn gen_hashed() -> impl Strategy<Value = Gen> {
    gen().prop_map(|x| Gen { table: TabKind::Hash, ..x })
}
impl Gen {
    /// The choice of limits, avoiding those that need long phases on larger graphs.
    pub fn choice(&self, g: &Arena) -> Choice {
        let mut ch = Choice::new(self.limits, self.premade_table);
        if g.nodes.len() > 6 && (ch.limits == 10 || ch.limits == 12) {
            ch.limits -= 3;
        }
        ch
    }
    pub fn cfg(&self, bound: u64) -> Cfg {
        Cfg {
            discipline: self.discipline,
            table: self.table,
            arc: self.limit % 2 == 1,
            rng: self.rng.clone(),
            sched: self.sched.clone(),
            cell_budget: bound.saturating_mul(300) + 10_000,
            ..Cfg::default()
        }
    }
}
pub fn bound_of(g: &Arena, l: Limits) -> u64 {
    oracle::work_bound(g.branch_ids(&g.roots), g.max_degree(), l.slow.max(1).into(), l.fast.into()) + u64::from(l.pre)
}
/// Whether the literal traversal in either order ends soon.
pub fn small(g: &Arena, max: u64) -> bool {
    [Order::Bfs, Order::Dfs].iter().all(|o| !Sim::new(g, *o, Dedupe::Off).max(max).run().truncated)
}

fn check_c12(c: &G<Gen>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let x = &c.x;
    guard_classes(g)?;
    let tree = small(g, 5000);
    let misuse = |what: &dyn Fn() -> String, env: &Env| match env.violation(Tag::Protocol).or_else(|| env.violation(Tag::Index)) {
        Some(v) => Err(format!("{}: {v}", what())),
        None => Ok(()),
    };
    for v in ALL_V {
        if !v.detects() && !v.limited() && !tree {
            continue;
        }
        let limit = if tree && x.limit % 2 == 0 { u64::MAX } else { x.limit.into() };
        let env = Env::new(g).with_budget(op_budget(default_bound(g).max(5_010), g.max_degree()));
        env.stages.set(if v.precheck() { 2 } else { 1 });
        *env.seen.borrow_mut() = Some(Default::default());
        let r = run_nodes::<KRich>(v, limit, env.root(0), env.root(1));
        ctx.nontrivial |= env.cmps.get() >= 4 && env.edges.get() >= 8;
        ctx.class_if(r == Out::Limit, "aborted by the limit");
        ctx.class_if(v.precheck() && env.stages.get() == 1, "two stages");
        misuse(&|| format!("{v:?}"), &env)?;
        if matches!(r, Out::Panic(_) | Out::OverBudget | Out::Fuse) {
            return Err(format!("{v:?}: {r:?}"));
        }
    }
    let ch = x.choice(g);
    let bound = bound_of(g, ch.l());
    let pair = ch.pair(x.pair as usize % 12);
    for two in [false, true] {
        setup(x.cfg(bound));
        let env = Env::new(g).with_budget(op_budget(bound, g.max_degree()));
        env.stages.set(1 + u32::from(two));
        *env.seen.borrow_mut() = Some(Default::default());
        let r = if two { with_limits::<KRich, _>(ch.limits, ch.premade_table, WithPre(pair, env.root(0), env.root(1))) } else { with_limits::<KRich, _>(ch.limits, ch.premade_table, Alone(PAIRS[pair].1, env.root(0), env.root(1))) };
        teardown();
        let what = || format!("limits {:?}, modes {:?}, precheck {two}", ch.l(), PAIRS[pair]);
        misuse(&what, &env)?;
        if !matches!(r, Out::Cmp(GOut::Ok(_))) {
            return Err(format!("{}: {r:?}", what()));
        }
    }
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "pairs of acyclic and cyclic graphs x all premade functions (random limits included) x generic combinations of modes, limits, tables and schedules; every node value tracks its path, graph, comparison state and edge requests; non-trivial: at least 4 values compared and 8 edges requested in a comparison",
        assumptions: &["paths are identified by a 64-bit hash"],
        sections: vec![
            boxed(Section { name: "each-small", quick: arena::each_size(arena::EACH_TINY), thorough: arena::each_size(arena::EACH_SMALL), strategy: |t| with(arena::each(match t { Tier::Quick => arena::EACH_TINY, Tier::Thorough => arena::EACH_SMALL }), gen()), check: check_c12, stack: BIG_STACK }),
            boxed(Section { name: "any", quick: 60_000, thorough: 900_000, strategy: |_| with(arena::pairs(None, 400), gen()), check: check_c12, stack: BIG_STACK }),
            boxed(Section { name: "tree", quick: 60_000, thorough: 900_000, strategy: |_| with(arena::tree_like(300, 300, 2), gen()), check: check_c12, stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C13

/// An index type, with the position it stands for.
pub trait Ix: Step + Default + Ord + Clone + 'static {
    /// How many indexes there are from the default on.
    const COUNT: u128;
    fn pos(&self) -> usize;
}
macro_rules! prims {
    ($($t:ident)*) => {$(
        impl Ix for $t {
            const COUNT: u128 = if $t::MAX as u128 == u128::MAX { u128::MAX } else { $t::MAX as u128 + 1 };
            fn pos(&self) -> usize {
                *self as usize
            }
        }
    )*};
}
prims! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }

/// An enumeration.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub enum Three {
    #[default]
    Left,
    Middle,
    Right,
}
impl Step for Three {
    fn increment(&self) -> Option<Self> {
        match self {
            Three::Left => Some(Three::Middle),
            Three::Middle => Some(Three::Right),
            Three::Right => None,
        }
    }
}
impl Ix for Three {
    const COUNT: u128 = 3;
    fn pos(&self) -> usize {
        *self as usize
    }
}
/// Only one index.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct One;
impl Step for One {
    fn increment(&self) -> Option<Self> {
        None
    }
}
impl Ix for One {
    const COUNT: u128 = 1;
    fn pos(&self) -> usize {
        0
    }
}
/// Numbers from some start, in steps, to some end.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct From5<const N: u32>(u32);
impl<const N: u32> Default for From5<N> {
    fn default() -> Self {
        From5(5)
    }
}
impl<const N: u32> Step for From5<N> {
    fn increment(&self) -> Option<Self> {
        (self.0 + 3 < 5 + 3 * N).then(|| From5(self.0 + 3))
    }
}
impl<const N: u32> Ix for From5<N> {
    const COUNT: u128 = N as u128;
    fn pos(&self) -> usize {
        (self.0 as usize - 5) / 3
    }
}
/// An index that owns an allocation.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Unary(Vec<()>, String);
impl Step for Unary {
    fn increment(&self) -> Option<Self> {
        let mut s = self.1.clone();
        s.push('x');
        (s.len() < 6).then(|| Unary(vec![], s))
    }
}
impl Ix for Unary {
    const COUNT: u128 = 6;
    fn pos(&self) -> usize {
        self.1.len()
    }
}

pub struct KIdx<I>(PhantomData<I>);
impl<'g, I: Ix> Kind<'g> for KIdx<I> {
    type Cmp = Rich;
    type Id = u32;
    type Index = I;
    fn cmp(env: &Env<'g>, a: u32, b: u32) -> Rich {
        KRich::cmp(env, a, b)
    }
    fn id(env: &Env<'g>, i: u32) -> u32 {
        KRich::id(env, i)
    }
    fn pos(i: &I) -> usize {
        i.pos()
    }
}

/// Parameters of a graph with boundary edge counts.
#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Edgy {
    pub ty: u8,
    /// Amounts of edges of the two roots, relative to the boundary.
    pub d: [i32; 2],
    /// Positions (relative to the boundary) at which the targets differ, and how.
    pub differ: Vec<(i32, u8)>,
    /// Put below a chain.
    pub below: bool,
}
impl Case for Edgy {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        for i in 0..2 {
            if self.d[i] != 0 {
                let mut c = self.clone();
                c.d[i] = 0;
                out.push(c);
            }
        }
        for i in 0..self.differ.len() {
            let mut c = self.clone();
            c.differ.remove(i);
            out.push(c);
        }
        if self.below {
            out.push(Edgy { below: false, ..self.clone() });
        }
        out
    }
}
impl Edgy {
    pub fn build(&self, boundary: usize) -> Arena {
        let mut nodes: Vec<ANode> = Vec::new();
        let add = |nodes: &mut Vec<ANode>, l: u32, e: Vec<u32>| {
            nodes.push(ANode { l, e, ..ANode::default() });
            (nodes.len() - 1) as u32
        };
        // Leaves that are not the same nodes in both graphs.
        let leaf = [add(&mut nodes, 0, vec![]), add(&mut nodes, 0, vec![])];
        let other = add(&mut nodes, 1, vec![]);
        let branch = [add(&mut nodes, 0, vec![leaf[0]]), add(&mut nodes, 0, vec![leaf[1]])];
        let mut roots = Vec::new();
        for side in 0..2 {
            let n = (boundary as i64 + i64::from(self.d[side])).max(0) as usize;
            let mut e = vec![leaf[side]; n];
            for (p, k) in &self.differ {
                let p = (boundary as i64 + i64::from(*p)).max(0) as usize;
                if p < n {
                    e[p] = match k % 4 {
                        0 if side == 0 => other,
                        1 if side == 1 => branch[1],
                        2 => branch[side],
                        3 if side == 1 => other,
                        _ => leaf[side],
                    };
                }
            }
            let mut r = add(&mut nodes, 0, e);
            if self.below {
                // Only in the position that is always representable.
                r = add(&mut nodes, 0, vec![r]);
                r = add(&mut nodes, 0, vec![r]);
            }
            roots.push(r);
        }
        Arena { nodes, roots }.finish()
    }
}

fn judge_c13<I: Ix>(name: &str, g: &Arena, ctx: &mut Ctx) -> Result<(), String> {
    let degree = usize::try_from(I::COUNT).unwrap_or(usize::MAX);
    let mut capped = g.clone();
    for n in &mut capped.nodes {
        n.e.truncate(degree);
    }
    // (Of what can be represented: a difference beyond that, which would end the comparison early,
    // is not seen.)
    let tree = small(&capped, 200_000);
    if !tree {
        guard_classes(&capped)?;
    }
    let exact = oracle::verdict(&capped, capped.roots[0], capped.roots[1]);
    for v in ALL_V {
        if !v.detects() && !tree {
            continue;
        }
        let order = if v.bfs() { Order::Bfs } else { Order::Dfs };
        let want = tree.then(|| Sim::new(&capped, order, Dedupe::Off).run());
        let env = Env::new(g).with_budget(op_budget(want.as_ref().map_or(0, |w| w.pairs) + default_bound(&capped), 2));
        trace_start();
        let r = run_nodes::<KIdx<I>>(v, u64::MAX, env.root(0), env.root(1));
        let requested = trace_take().iter().filter_map(|e| if let Ev::Edge(_, _, p) = e { Some(*p) } else { None }).max();
        ctx.class_if(requested.is_some_and(|p| p as usize + 1 == degree), "last representable index requested");
        if let Some(m) = env.violation(Tag::Index) {
            return Err(format!("{v:?} with {name}: {m}"));
        }
        if requested.is_some_and(|p| p as usize >= degree) {
            return Err(format!("{v:?} with {name}: edge {requested:?} requested, only {degree} are representable"));
        }
        let Out::Cmp(got) = &r else { return Err(format!("{v:?} with {name}: {r:?}")) };
        use graph_safe_compare::Cmp as _;
        if got.is_equiv() != (exact == Diff::None) {
            return Err(format!("{v:?} with {name}: {got:?}, but with all representable edges: {exact:?}"));
        }
        if let Some(want) = want {
            let ok = match (got, want.diff) {
                (Rich::Equiv, Diff::None) => true,
                (Rich::Val { a, b, .. }, Diff::Val(x, y)) => (*a, *b) == (x, y),
                (Rich::Edges(o), Diff::Edges(_, _, p)) => *o == p,
                _ => false,
            };
            // (With detection, only in the same order while nothing is shared: the verdict was
            // checked above, and the lesser one is checked when the difference is of edges.)
            if !ok && !v.detects() {
                return Err(format!("{v:?} with {name}: {got:?}, expected {:?}", want.diff));
            }
            if v.detects() {
                if let (Rich::Edges(o), Diff::Edges(_, _, p)) = (got, want.diff) {
                    if *o != p && !g.has_sharing() {
                        return Err(format!("{v:?} with {name}: {got:?}, expected {:?}", want.diff));
                    }
                }
            }
        }
    }
    Ok(())
}

fn by_type(ty: u8, g: &Arena, ctx: &mut Ctx) -> Result<(), String> {
    match ty {
        0 => judge_c13::<u8>("u8", g, ctx),
        1 => judge_c13::<i8>("i8", g, ctx),
        2 => judge_c13::<u16>("u16", g, ctx),
        3 => judge_c13::<i16>("i16", g, ctx),
        4 => judge_c13::<u32>("u32", g, ctx),
        5 => judge_c13::<i32>("i32", g, ctx),
        6 => judge_c13::<u64>("u64", g, ctx),
        7 => judge_c13::<i64>("i64", g, ctx),
        8 => judge_c13::<u128>("u128", g, ctx),
        9 => judge_c13::<i128>("i128", g, ctx),
        10 => judge_c13::<usize>("usize", g, ctx),
        11 => judge_c13::<isize>("isize", g, ctx),
        12 => judge_c13::<Three>("an enumeration of 3", g, ctx),
        13 => judge_c13::<One>("a type of one value", g, ctx),
        14 => judge_c13::<From5<2>>("a range of 2 that does not start at zero", g, ctx),
        15 => judge_c13::<From5<7>>("a range of 7 that does not start at zero", g, ctx),
        _ => judge_c13::<Unary>("an index of 6 values that owns memory", g, ctx),
    }
}
fn count_of(ty: u8) -> u128 {
    match ty {
        0 => u8::COUNT,
        1 => i8::COUNT,
        2 => u16::COUNT,
        3 => i16::COUNT,
        12 => 3,
        13 => 1,
        14 => 2,
        15 => 7,
        16 => 6,
        // Not reachable by a number of edges: an ordinary amount instead.
        _ => 70,
    }
}

fn check_c13(c: &Edgy, ctx: &mut Ctx) -> Result<(), String> {
    let count = count_of(c.ty) as usize;
    let g = c.build(count);
    ctx.nontrivial = c.d.iter().all(|d| d.abs() <= 4) && (c.d[0] != c.d[1] || !c.differ.is_empty());
    ctx.class_if(c.d[0] != c.d[1] && c.d[0] >= 0 && c.d[1] >= 0, "different numbers of edges beyond the boundary");
    ctx.class_if(c.d[0] != c.d[1] && (c.d[0] < 0 || c.d[1] < 0), "different numbers of edges at the boundary");
    ctx.class_if(c.differ.iter().any(|d| d.0 == -1), "difference at the last representable edge");
    ctx.class_if(c.differ.iter().any(|d| d.0 >= 0), "difference beyond the boundary");
    by_type(c.ty, &g, ctx)
}

/// Ordinary graphs, with any index type.
fn check_c13_any(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let d = c.arena.max_degree();
    ctx.nontrivial = d >= 2 && c.arena.nodes.len() >= 4;
    ctx.class_if((d as u128) > count_of(c.x) && c.x >= 12, "more edges than representable");
    by_type(c.x, &c.arena, ctx)
}

/// `increment` of the primitive types.
#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Num {
    pub ty: u8,
    pub near: u8,
    /// (As text, since JSON has no such numbers.)
    pub hi: u64,
    pub lo: u64,
}
impl Case for Num {
    fn shrinks(&self) -> Vec<Self> {
        vec![]
    }
}
fn check_step(c: &Num, ctx: &mut Ctx) -> Result<(), String> {
    macro_rules! by {
        ($t:ident) => {{
            let raw = (u128::from(c.hi) << 64) | u128::from(c.lo);
            let off = raw as $t & 3;
            let x = match c.near % 5 {
                0 => $t::MAX - off,
                1 => $t::MIN + off,
                2 => off,
                3 => (0 as $t).wrapping_sub(off),
                _ => raw as $t,
            };
            ctx.class_if(x == $t::MAX, "the greatest value");
            let want = if x == $t::MAX { None } else { Some(x.wrapping_add(1)) };
            let got = match guarded(|| Out::Cmp(x.increment())) {
                Out::Cmp(v) => v,
                o => return Err(format!("increment of {x} of type {}: {o:?}", stringify!($t))),
            };
            if got != want {
                return Err(format!("increment of {x} of type {} gives {got:?}", stringify!($t)));
            }
        }};
    }
    ctx.nontrivial = c.near % 5 < 4;
    match c.ty % 12 {
        0 => by!(u8),
        1 => by!(i8),
        2 => by!(u16),
        3 => by!(i16),
        4 => by!(u32),
        5 => by!(i32),
        6 => by!(u64),
        7 => by!(i64),
        8 => by!(u128),
        9 => by!(i128),
        10 => by!(usize),
        _ => by!(isize),
    }
    Ok(())
}

pub fn edgy(types: &'static [u8], far: i32) -> BoxedStrategy<Edgy> {
    let near = move || prop_oneof![6 => -3_i32..=3, 1 => -far..=0];
    (prop::sample::select(types), near(), prop_oneof![2 => Just(None), 1 => near().prop_map(Some)], prop::collection::vec((prop_oneof![4 => -3_i32..=2, 1 => -far..=0], 0..4_u8), 0..3), any::<bool>())
        .prop_map(|(ty, d0, d1, differ, below)| Edgy { ty, d: [d0, d1.unwrap_or(d0)], differ, below })
        .boxed()
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "pairs of graphs whose nodes have about as many edges as the index type has values (8- and 16-bit primitives, enumerations, ranges not starting at zero, allocating index), ordinary graphs with all 17 index types, and increments of all primitive types; non-trivial: amounts of edges within 4 of the boundary and a difference somewhere; or a branching graph of at least 4 nodes; or an increment near a boundary",
        assumptions: &["the ends of 32-bit and wider index types are reached only by direct increments"],
        sections: vec![
            boxed(Section { name: "small-types", quick: 40_000, thorough: 600_000, strategy: |_| edgy(&[0, 1, 12, 13, 14, 15, 16, 4, 5, 6, 7, 8, 9, 10, 11], 60), check: check_c13, stack: BIG_STACK }),
            boxed(Section { name: "16-bit", quick: 300, thorough: 5_000, strategy: |_| edgy(&[2, 3], 30_000), check: check_c13, stack: BIG_STACK }),
            boxed(Section { name: "any", quick: 60_000, thorough: 900_000, strategy: |_| with(prop_oneof![2 => arena::tree_like(300, 200, 2), 1 => arena::pairs(None, 100)].boxed(), 0..17_u8), check: check_c13_any, stack: BIG_STACK }),
            boxed(Section {
                name: "increment",
                quick: 200_000,
                thorough: 2_000_000,
                strategy: |_| (0..12_u8, 0..5_u8, any::<u64>(), any::<u64>()).prop_map(|(ty, near, hi, lo)| Num { ty, near, hi, lo }).boxed(),
                check: check_step,
                stack: 8 << 20,
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C14

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Scr {
    pub mode: u8,
    pub discipline: Discipline,
    pub traverse: Vec<u8>,
    pub descend: Vec<u8>,
    pub recur_err: Option<u8>,
    pub sched: Vec<u16>,
    pub limits: u8,
    pub pair: u8,
    pub table: TabKind,
    pub rng: Vec<u16>,
}
impl Extra for Scr {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        for n in [self.traverse.len() / 2, self.traverse.len().saturating_sub(1)] {
            if n < self.traverse.len() {
                out.push(Scr { traverse: self.traverse[..n].to_vec(), ..self.clone() });
            }
        }
        for n in [self.descend.len() / 2, self.descend.len().saturating_sub(1)] {
            if n < self.descend.len() {
                out.push(Scr { descend: self.descend[..n].to_vec(), ..self.clone() });
            }
        }
        for i in 0..self.traverse.len() {
            if self.traverse[i] != YES {
                let mut c = self.clone();
                c.traverse[i] = YES;
                out.push(c);
            }
        }
        for i in 0..self.descend.len() {
            if self.descend[i] != YES {
                let mut c = self.clone();
                c.descend[i] = YES;
                out.push(c);
            }
        }
        if self.recur_err.is_some() {
            out.push(Scr { recur_err: None, ..self.clone() });
        }
        out
    }
}
fn answers() -> impl Strategy<Value = Vec<u8>> {
    // Mostly yes; an error sometimes.
    (prop::collection::vec(prop_oneof![1 => Just(NO), 5 => Just(YES)], 0..24), prop::option::weighted(0.35, any::<u8>())).prop_map(|(mut v, e)| {
        if let Some(e) = e {
            let n = v.len() + 1;
            v.insert(e as usize % n, ERR);
        }
        v
    })
}
fn scr() -> impl Strategy<Value = Scr> {
    (
        (0..4_u8, discipline(), answers(), answers(), prop::option::weighted(0.3, 0..20_u8)),
        prop::collection::vec(any::<u16>(), 0..4),
        (0..20_u8, 0..12_u8, table(), rng()),
    )
        .prop_map(|((mode, discipline, traverse, descend, recur_err), sched, (limits, pair, table, rng))| Scr { mode, discipline, traverse, descend, recur_err, sched, limits, pair, table, rng })
}

/// The local rules that hold whatever the order of traversal.
fn grammar(t: &[Ev], flex: bool) -> Result<(), String> {
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum S {
        /// Nothing may be done with a pair.
        Between,
        Offered,
        Compared(u32, u32),
        Descend,
        Failed,
    }
    let mut s = S::Between;
    for (i, e) in t.iter().enumerate() {
        s = match (s, e) {
            (S::Failed, _) => return Err(format!("event {e:?} after the error")),
            (S::Descend, Ev::Recur(ERR)) => S::Failed,
            (S::Descend, Ev::Recur(_)) => S::Between,
            (S::Descend, Ev::Edge(..)) if flex => return Err("edges requested although the recursion mode was not called".into()),
            (_, Ev::Trav(NO)) => S::Between,
            (_, Ev::Trav(ERR)) => S::Failed,
            (_, Ev::Trav(_)) => S::Offered,
            (S::Offered | S::Compared(..), Ev::Id(..)) => s,
            (_, Ev::Id(side, n)) => return Err(format!("event {i}: identity of node {n} of graph {side} requested before the pair was offered")),
            (S::Offered, Ev::Cmp(a, b)) => S::Compared(*a, *b),
            (_, Ev::Cmp(a, b)) => return Err(format!("event {i}: nodes {a} and {b} compared without being offered first, or again ({s:?})")),
            (S::Compared(a, b), Ev::Do(x, y, ans)) => {
                if (a, b) != (*x, *y) {
                    return Err(format!("event {i}: descent of {x} and {y} was asked for, but {a} and {b} were compared"));
                }
                match *ans {
                    ERR => S::Failed,
                    NO => S::Between,
                    _ if flex => S::Descend,
                    _ => S::Between,
                }
            }
            (_, Ev::Do(a, b, _)) => return Err(format!("event {i}: descent of {a} and {b} asked for in state {s:?}")),
            (_, Ev::Recur(_)) => return Err(format!("event {i}: recursion mode called in state {s:?}")),
            (_, Ev::Edge(..)) => s,
            (_, Ev::Reset | Ev::Next(..)) => S::Between,
        };
    }
    Ok(())
}

fn check_c14(c: &G<Scr>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let x = &c.x;
    let mode = ALL_M[x.mode as usize % 4];
    let flex = mode == Mode::Flex;
    let order = match (mode, x.discipline) {
        (Mode::CallStack | Mode::Stack, _) => Some(Order::Dfs),
        (Mode::Queue, _) => Some(Order::Bfs),
        (_, Discipline::CallStack | Discipline::Stack) => Some(Order::Dfs),
        (_, Discipline::Queue) => Some(Order::Bfs),
        _ => None,
    };
    let mut script = oracle::Script {
        traverse: x.traverse.clone(),
        descend: x.descend.clone(),
        then_no: false,
        recur_err: if flex { x.recur_err.map(u64::from) } else { None },
        log_recur: flex,
    };
    const MAX: usize = 4000;
    let run_sim = |script: &oracle::Script| oracle::scripted(g, order.unwrap_or(Order::Dfs), script, MAX);
    let mut sim = run_sim(&script);
    if sim.0 == oracle::Scripted::Truncated || order.is_none() {
        script.then_no = true;
        sim = run_sim(&script);
    }
    let unbounded = sim.0 == oracle::Scripted::Truncated;
    if unbounded {
        // A few large nodes: nothing to learn.
        ctx.class("skipped: too large");
        return Ok(());
    }
    setup(Cfg {
        discipline: x.discipline,
        sched: x.sched.clone(),
        traverse: script.traverse.clone(),
        descend: script.descend.clone(),
        then_no: script.then_no,
        recur_err: script.recur_err,
        ..Cfg::default()
    });
    let env = Env::new(g).with_budget(op_budget(40 * MAX as u64, g.max_degree()));
    env.log_ids.set(true);
    trace_start();
    let r = scripted::<KRich>(mode, env.root(0), env.root(1));
    let trace = trace_take();
    let errs = st(|s| s.errs.clone());
    teardown();
    let ops = OPS.with(|o| o.get());
    let what = || format!("{mode:?} ({:?})", x.discipline);
    grammar(&trace, flex).map_err(|e| format!("{}: {e}", what()))?;
    if let Some(at) = errs.first() {
        ctx.class("a mode gave an error");
        if errs.len() > 1 || ops != *at {
            return Err(format!("{}: {} node operations and {} more errors after the first error", what(), ops - at, errs.len() - 1));
        }
        if !matches!(r, Out::Cmp(GOut::Err(_))) {
            return Err(format!("{}: a mode gave an error but the result is {r:?}", what()));
        }
    }
    let modes_only: Vec<Ev> = trace.iter().filter(|e| !matches!(e, Ev::Edge(..) | Ev::Id(..))).cloned().collect();
    let skips = modes_only.iter().filter(|e| matches!(e, Ev::Trav(NO) | Ev::Do(_, _, NO))).count();
    ctx.class_if(skips > 0, "skipped something");
    ctx.class_if(matches!(r, Out::Cmp(GOut::Ok(_))) && skips > 0, "completed with skips");
    ctx.nontrivial = modes_only.len() >= 8 && (skips > 0 || !errs.is_empty());
    if order.is_some() {
        if modes_only != sim.1 {
            let at = modes_only.iter().zip(&sim.1).position(|(x, y)| x != y).unwrap_or(modes_only.len().min(sim.1.len()));
            return Err(format!("{}: event {at} is {:?}, expected {:?}", what(), modes_only.get(at), sim.1.get(at)));
        }
        let ok = match (&r, &sim.0) {
            (Out::Cmp(GOut::Err(MyErr(e))), oracle::Scripted::Err(f)) => e == f,
            (Out::Cmp(GOut::Ok(Rich::Equiv)), oracle::Scripted::Diff(Diff::None)) => true,
            (Out::Cmp(GOut::Ok(Rich::Val { a, b, .. })), oracle::Scripted::Diff(Diff::Val(x, y))) => (a, b) == (x, y),
            (Out::Cmp(GOut::Ok(Rich::Edges(o))), oracle::Scripted::Diff(Diff::Edges(_, _, p))) => o == p,
            _ => false,
        };
        if !ok {
            return Err(format!("{}: {r:?}, expected {:?}", what(), sim.0));
        }
    } else {
        // The error value must be that of the failing call.
        let last = trace.iter().rev().find(|e| matches!(e, Ev::Trav(_) | Ev::Do(..) | Ev::Recur(_)));
        let count = |f: fn(&&Ev) -> bool| trace.iter().filter(f).count() as u64;
        let want = match last {
            Some(Ev::Trav(ERR)) => Some(2_000_000 + count(|e| matches!(e, Ev::Trav(_))) - 1),
            Some(Ev::Do(_, _, ERR)) => Some(1_000_000 + count(|e| matches!(e, Ev::Do(..))) - 1),
            Some(Ev::Recur(ERR)) => Some(count(|e| matches!(e, Ev::Recur(_))) - 1),
            _ => None,
        };
        match (&r, want) {
            (Out::Cmp(GOut::Ok(_)), None) => {}
            (Out::Cmp(GOut::Err(MyErr(e))), Some(w)) if *e == w => {}
            _ => return Err(format!("{}: {r:?}, expected error {want:?}", what())),
        }
        // What was compared as different must be the result.
        if let Out::Cmp(GOut::Ok(Rich::Val { a, b, .. })) = &r {
            if env.last.get() != (*a, *b) {
                return Err(format!("{}: {r:?}, but the last comparison was of {:?}", what(), env.last.get()));
            }
        }
    }
    Ok(())
}

/// Errors of the recursion mode in the stages of a precheck comparison.
fn check_c14_pre(c: &G<Scr>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let x = &c.x;
    guard_classes(g)?;
    let gen = Gen { limits: x.limits, pair: x.pair, limit: 0, discipline: x.discipline, table: x.table, premade_table: false, rng: x.rng.clone(), sched: x.sched.clone() };
    let ch = gen.choice(g);
    let bound = bound_of(g, ch.l());
    // A pair of modes with at least one of ours.
    let pair = ch.pair([3, 6, 7, 8, 9, 10, 11, 6][x.pair as usize % 8]);
    let go = |err: Option<u64>| {
        setup(Cfg { recur_err: err, ..gen.cfg(bound) });
        let env = Env::new(g).with_budget(op_budget(bound, g.max_degree()));
        trace_start();
        let r = with_limits::<KRich, _>(ch.limits, false, WithPre(pair, env.root(0), env.root(1)));
        let t = trace_take();
        let (errs, recurs) = st(|s| (s.errs.clone(), s.recurs));
        teardown();
        (r, t, errs, recurs, OPS.with(|o| o.get()))
    };
    let (r0, t0, _, recurs, _) = go(None);
    if !matches!(r0, Out::Cmp(GOut::Ok(_))) {
        return Err(format!("limits {:?}, modes {:?}: {r0:?}", ch.l(), PAIRS[pair]));
    }
    if recurs == 0 {
        return Ok(());
    }
    let at = (u64::from(x.recur_err.unwrap_or(0)) * 7 + u64::from(x.mode)) % recurs;
    let (r, t, errs, _, ops) = go(Some(at));
    let two = t.contains(&Ev::Reset);
    ctx.nontrivial = at > 0;
    ctx.class_if(two, "error after a reset precheck");
    ctx.class_if(!two && matches!(PAIRS[pair].0, Mode::Flex), "error in the precheck stage");
    ctx.class_if(!matches!(PAIRS[pair].0, Mode::Flex), "error in the main stage");
    let what = || format!("limits {:?}, modes {:?}, error at recursion {at}", ch.l(), PAIRS[pair]);
    if r != Out::Cmp(GOut::Err(MyErr(at))) {
        return Err(format!("{}: {r:?}", what()));
    }
    if errs.len() != 1 || errs[0] != ops {
        return Err(format!("{}: {} node operations after the error", what(), ops - errs.first().copied().unwrap_or(ops)));
    }
    if t.last() != Some(&Ev::Recur(ERR)) {
        return Err(format!("{}: last event {:?}", what(), t.last()));
    }
    // Up to there, nothing differs.
    let n = t.len() - 1;
    if t0.get(..n) != Some(&t[..n]) {
        return Err(format!("{}: the events before the error differ from those without it", what()));
    }
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "pairs of graphs x scripted answers (yes, no, error) of a custom descend mode x errors of a custom recursion mode x four recursion modes (the custom one with six disciplines); the full sequence of offers, comparisons, descents and recursions must be that of a literal simulation (where the order is known; otherwise obey the local rules), and nothing may follow an error; and errors at any recursion of either stage of precheck comparisons; non-trivial: at least 8 events with a skip or an error; or an error that is not at the first recursion",
        assumptions: &["for random, eager and reverse disciplines only the local rules and results are checked"],
        sections: vec![
            boxed(Section { name: "each-small", quick: arena::each_size(arena::EACH_SMALL), thorough: arena::each_size(arena::EACH_MEDIUM), strategy: |t| with(arena::each(match t { Tier::Quick => arena::EACH_SMALL, Tier::Thorough => arena::EACH_MEDIUM }), scr()), check: check_c14, stack: BIG_STACK }),
            boxed(Section { name: "single", quick: 450_000, thorough: 5_000_000, strategy: |_| with(arena::pairs(None, 100), scr()), check: check_c14, stack: BIG_STACK }),
            boxed(Section { name: "precheck", quick: 180_000, thorough: 2_000_000, strategy: |_| with(arena::pairs(None, 100), scr()), check: check_c14_pre, stack: BIG_STACK }),
        ],
    }
}
