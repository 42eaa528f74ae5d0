//! Runs every function of the tested crate that this build configuration has, on graphs given on
//! the standard input, one per line, and answers with one line of results each.
//!
//! Line: `index tree limit a b n` then per node `label id degree targets...`.
//! Answer: `name=result` separated by blanks.

#![cfg_attr(feature = "anticipate", feature(never_type))]
#![allow(stable_features)]

use graph_safe_compare::basic::modes::limited::LimitReached;
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::random::NumberGenerator;
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::generic::equiv::{self, Equiv};
use graph_safe_compare::generic::{equiv_classes, precheck_interleave};
use graph_safe_compare::utils::RefId;
use graph_safe_compare::{basic, Cmp, Node};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::marker::PhantomData;
use std::num::NonZeroU16;
use std::ops::Deref;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct OverBudget;

struct GNode {
    label: u32,
    id: u32,
    edges: Vec<u32>,
}
struct Graph {
    nodes: Vec<GNode>,
    budget: Cell<u64>,
}
impl Graph {
    fn op(&self) {
        let b = self.budget.get();
        if b == 0 {
            panic_any(OverBudget);
        }
        self.budget.set(b - 1);
    }
}

#[derive(Clone, Copy)]
enum Rich {
    Equiv,
    Val(u32, u32),
    Edges(Ordering),
}
impl Cmp for Rich {
    fn new_equiv() -> Self {
        Rich::Equiv
    }
    fn is_equiv(&self) -> bool {
        matches!(self, Rich::Equiv)
    }
    fn from_ord(o: Ordering) -> Self {
        Rich::Edges(o)
    }
}

struct P<'g, I>(&'g Graph, u32, PhantomData<I>);
impl<I> Clone for P<'_, I> {
    fn clone(&self) -> Self {
        P(self.0, self.1, PhantomData)
    }
}
impl<I> P<'_, I> {
    fn node(&self) -> &GNode {
        &self.0.nodes[self.1 as usize]
    }
    fn edge(&self, at: usize) -> Option<Self> {
        self.0.op();
        self.node().edges.get(at).map(|&t| P(self.0, t, PhantomData))
    }
    fn compare(&self, other: &Self) -> Rich {
        self.0.op();
        if self.node().label == other.node().label {
            Rich::Equiv
        } else {
            Rich::Val(self.1, other.1)
        }
    }
}
macro_rules! nodes {
    ($($t:ty)*) => {$(
        impl<'g> Node for P<'g, $t> {
            type Cmp = Rich;
            type Id = RefId<&'g u32>;
            type Index = $t;
            fn id(&self) -> Self::Id {
                RefId(&self.0.nodes[self.node().id as usize].label)
            }
            fn get_edge(&self, i: &$t) -> Option<Self> {
                self.edge(usize::try_from(*i).expect("index"))
            }
            fn equiv_modulo_edges(&self, other: &Self) -> Rich {
                self.compare(other)
            }
        }
    )*};
}
nodes! { usize u8 i8 }

// ------------------------------------------------------------------- custom type arguments

thread_local! {
    static CELLS: Cell<u64> = const { Cell::new(0) };
}
/// Shared pointer whose uses are limited.
#[derive(Clone)]
struct MyRc(Rc<Cell<equiv_classes::Class<MyRc>>>);
impl Deref for MyRc {
    type Target = Cell<equiv_classes::Class<Self>>;
    fn deref(&self) -> &Self::Target {
        CELLS.with(|c| {
            if c.get() == 0 {
                panic_any(OverBudget);
            }
            c.set(c.get() - 1);
        });
        &self.0
    }
}
impl equiv_classes::Rc for MyRc {
    fn new(v: Cell<equiv_classes::Class<Self>>) -> Self {
        MyRc(Rc::new(v))
    }
}
struct MyTable<N: Node, R>(BTreeMap<N::Id, R>)
where
    N::Id: Ord;
impl<N: Node, R> Default for MyTable<N, R>
where
    N::Id: Ord,
{
    fn default() -> Self {
        MyTable(BTreeMap::new())
    }
}
impl<N: Node, R: equiv_classes::Rc> equiv_classes::Table for MyTable<N, R>
where
    N::Id: Ord,
{
    type Node = N;
    type Rc = R;
    fn get(&self, k: &N::Id) -> Option<&R> {
        self.0.get(k)
    }
    fn insert(&mut self, k: N::Id, v: R) {
        self.0.insert(k, v);
    }
}
#[derive(Default)]
struct MyRng(u32);
impl NumberGenerator for MyRng {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        self.0 = self.0.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        (self.0 >> 16) as u16 % end
    }
}
#[cfg(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "std")))]
type Rng = interleave::random::default::RandomNumberGenerator;
#[cfg(not(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "std"))))]
type Rng = MyRng;

#[derive(Debug)]
enum MyErr {}
#[cfg(not(feature = "anticipate"))]
impl From<std::convert::Infallible> for MyErr {
    fn from(x: std::convert::Infallible) -> Self {
        match x {}
    }
}
#[cfg(feature = "anticipate")]
impl From<!> for MyErr {
    fn from(x: !) -> Self {
        x
    }
}

/// Default limits, own random numbers.
struct Usual<N, R, G>(PhantomData<(N, R, G)>);
impl<N: Node, R: equiv_classes::Rc, G: NumberGenerator> interleave::Params for Usual<N, R, G>
where
    N::Id: Ord,
{
    type Node = N;
    type Table = MyTable<N, R>;
    type RNG = G;
}
/// Small limits.
struct Small<N, R, G>(PhantomData<(N, R, G)>);
impl<N: Node, R: equiv_classes::Rc, G: NumberGenerator> interleave::Params for Small<N, R, G>
where
    N::Id: Ord,
{
    const PRECHECK_LIMIT: u16 = 12;
    type Node = N;
    type Table = MyTable<N, R>;
    type RNG = G;
}

/// One stage.
struct One<M, I>(PhantomData<(M, I)>);
macro_rules! one {
    ($mode:ty) => {
        impl<I: interleave::Params> equiv::Params for One<$mode, I> {
            type Node = I::Node;
            type DescendMode = Interleave<I>;
            type RecurMode = $mode;
            type Error = MyErr;
        }
    };
}
one!(CallStack);
/// Two stages.
struct Two<A, B, I>(PhantomData<(A, B, I)>);
macro_rules! two {
    ($a:ty, $b:ty) => {
        impl<I: interleave::Params> precheck_interleave::Params<I::Node> for Two<$a, $b, I> {
            type PrecheckRecurMode = $a;
            type InterleaveRecurMode = $b;
            type InterleaveParams = I;
            type Error = MyErr;
        }
    };
}
two!(CallStack, CallStack);

#[cfg(feature = "alloc")]
mod with_alloc {
    use super::*;
    pub use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
    pub use graph_safe_compare::generic::equiv_classes::premade::rc::Rc as PremadeRc;
    pub use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};

    pub struct Cap<N>(PhantomData<N>);
    impl<N: Node> queue::Params for Cap<N> {
        type Node = N;
    }
    impl<N: Node> stack::Params for Cap<N> {
        const INITIAL_CAPACITY: usize = 0;
        type Node = N;
    }
    macro_rules! gen {
        ($($mode:ident)*) => {$(
            impl<I: interleave::Params> equiv::Params for One<$mode<Cap<I::Node>>, I> {
                type Node = I::Node;
                type DescendMode = Interleave<I>;
                type RecurMode = $mode<Cap<I::Node>>;
                type Error = MyErr;
            }
            impl<I: interleave::Params> precheck_interleave::Params<I::Node> for Two<$mode<Cap<I::Node>>, $mode<Cap<I::Node>>, I> {
                type PrecheckRecurMode = $mode<Cap<I::Node>>;
                type InterleaveRecurMode = $mode<Cap<I::Node>>;
                type InterleaveParams = I;
                type Error = MyErr;
            }
        )*};
    }
    gen! { RecurQueue RecurStack }
}

// ------------------------------------------------------------------------------------------

struct Request {
    index: u8,
    tree: bool,
    limit: u64,
    a: u32,
    b: u32,
    budget: u64,
    graph: Graph,
}

fn parse(line: &str) -> Request {
    let mut it = line.split_ascii_whitespace().map(|t| t.parse::<u64>().expect("number"));
    let mut next = || it.next().expect("more numbers");
    let (index, tree, limit, a, b, budget, n) = (next(), next(), next(), next(), next(), next(), next());
    let nodes = (0..n)
        .map(|_| {
            let (label, id, d) = (next() as u32, next() as u32, next());
            GNode { label, id, edges: (0..d).map(|_| next() as u32).collect() }
        })
        .collect();
    Request {
        index: index as u8,
        tree: tree != 0,
        limit,
        a: a as u32,
        b: b as u32,
        budget,
        graph: Graph { nodes, budget: Cell::new(0) },
    }
}

fn show(c: Rich) -> String {
    match c {
        Rich::Equiv => "E".into(),
        Rich::Val(a, b) => format!("V{a},{b}"),
        Rich::Edges(Ordering::Less) => "L".into(),
        Rich::Edges(Ordering::Greater) => "G".into(),
        Rich::Edges(Ordering::Equal) => "edges-equal".into(),
    }
}

fn answer<I>(q: &Request) -> String
where
    for<'g> P<'g, I>: Node<Cmp = Rich, Id = RefId<&'g u32>>,
{
    let mut out = String::new();
    let mut over = false;
    macro_rules! run {
        ($name:expr, $f:expr) => {{
            q.graph.budget.set(q.budget);
            CELLS.with(|c| c.set(q.budget.saturating_mul(40)));
            let (a, b): (P<'_, I>, P<'_, I>) = (P(&q.graph, q.a, PhantomData), P(&q.graph, q.b, PhantomData));
            let f = $f;
            let r: Result<Result<Rich, LimitReached>, _> = catch_unwind(AssertUnwindSafe(move || f(a, b)));
            let s = match r {
                Ok(Ok(c)) => show(c),
                Ok(Err(LimitReached)) => "limit".into(),
                Err(p) if p.is::<OverBudget>() => {
                    over = true;
                    "budget".into()
                }
                Err(_) => "panic".into(),
            };
            let _ = write!(out, "{}={s} ", $name);
        }};
    }
    // (The custom pointer first: only with it do endless class links end.)
    macro_rules! generic {
        ($params:ident, $name:expr, $rc:ty, $rng:ty) => {{
            type I2<'g, I> = $params<P<'g, I>, $rc, $rng>;
            run!(concat!("gen.dfs.", $name), |a, b| Ok(Equiv::<One<CallStack, I2<'_, I>>>::default().equiv(a, b).unwrap()));
            run!(concat!("gen.dfs.pre.", $name), |a, b| Ok(precheck_interleave::equiv::<_, Two<CallStack, CallStack, I2<'_, I>>>(a, b).unwrap()));
            #[cfg(feature = "alloc")]
            {
                use with_alloc::*;
                run!(concat!("gen.bfs.", $name), |a, b| Ok(Equiv::<One<RecurQueue<Cap<P<'_, I>>>, I2<'_, I>>>::default().equiv(a, b).unwrap()));
                run!(concat!("gen.bfs.pre.", $name), |a, b| Ok(precheck_interleave::equiv::<_, Two<RecurQueue<Cap<P<'_, I>>>, RecurQueue<Cap<P<'_, I>>>, I2<'_, I>>>(a, b).unwrap()));
                run!(concat!("gen.dfs.", $name, ".stack"), |a, b| Ok(Equiv::<One<RecurStack<Cap<P<'_, I>>>, I2<'_, I>>>::default().equiv(a, b).unwrap()));
                run!(concat!("gen.dfs.pre.", $name, ".stack"), |a, b| Ok(precheck_interleave::equiv::<_, Two<RecurStack<Cap<P<'_, I>>>, RecurStack<Cap<P<'_, I>>>, I2<'_, I>>>(a, b).unwrap()));
            }
        }};
    }
    generic!(Usual, "usual", MyRc, Rng);
    generic!(Small, "small", MyRc, MyRng);
    if over {
        return out;
    }
    #[cfg(feature = "alloc")]
    generic!(Small, "small.rc", with_alloc::PremadeRc, Rng);
    run!("lim.basic", |a, b| basic::limited_equiv(q.limit, a, b));
    #[cfg(feature = "alloc")]
    {
        run!("lim.wide", |a, b| graph_safe_compare::wide_safe::limited_equiv(q.limit as u32, a, b));
        run!("lim.deep", |a, b| graph_safe_compare::deep_safe::limited_equiv(q.limit as u16, a, b));
    }
    if q.tree {
        run!("basic", |a, b| Ok(basic::equiv(a, b)));
        #[cfg(feature = "alloc")]
        {
            run!("wide", |a, b| Ok(graph_safe_compare::wide_safe::equiv(a, b)));
            run!("deep", |a, b| Ok(graph_safe_compare::deep_safe::equiv(a, b)));
        }
    }
    #[cfg(feature = "std")]
    {
        use graph_safe_compare::{cycle_safe, robust};
        run!("cycle", |a, b| Ok(cycle_safe::equiv(a, b)));
        run!("cycle.pre", |a, b| Ok(cycle_safe::precheck_equiv(a, b)));
        run!("robust", |a, b| Ok(robust::equiv(a, b)));
        run!("robust.pre", |a, b| Ok(robust::precheck_equiv(a, b)));
    }
    out
}

static REQUESTS: AtomicU64 = AtomicU64::new(0);

/// Seconds of processor time used so far by this process.
fn used() -> u64 {
    let Ok(s) = std::fs::read_to_string("/proc/self/stat") else { return 0 };
    let fields: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_ascii_whitespace().collect();
    let ticks = |i: usize| fields.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (ticks(11) + ticks(12)) / 100
}
/// Ends this process when its parent is gone, or when one request, of which each takes much less
/// than a second, has used that much processor time.
fn watch() {
    let parent = std::os::unix::process::parent_id();
    let (mut request, mut since) = (0, used());
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if std::os::unix::process::parent_id() != parent {
            std::process::exit(4);
        }
        let now = REQUESTS.load(Relaxed);
        if now != request {
            (request, since) = (now, used());
        } else if used() > since + ENDLESS_S {
            std::process::exit(5);
        }
    }
}
const ENDLESS_S: u64 = 5;

fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        REQUESTS.fetch_add(1, Relaxed);
        let q = parse(&line);
        let r = match q.index {
            0 => answer::<usize>(&q),
            1 => answer::<u8>(&q),
            _ => answer::<i8>(&q),
        };
        if writeln!(out, "{r}").and_then(|()| out.flush()).is_err() {
            return;
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(watch);
    std::thread::Builder::new().stack_size(1 << 30).spawn(serve).expect("thread").join().expect("probe");
}
