//! The checks, one module per group of properties.

use crate::arena::{self, ANode, Arena};
use crate::generic::*;
use crate::node::*;
use crate::oracle::{self, Dedupe, Diff, Order, Sim};
use crate::runner::*;
use crate::variants::*;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::Hash;

mod builds;
mod custom;
mod limits;
mod misc;
mod protocol;
mod recur;
mod resources;
mod verdict;

/// The properties that this binary was built for.
pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = Vec::new();
    macro_rules! add {
        ($($feature:literal $module:ident $function:ident;)*) => {$(
            #[cfg(feature = $feature)]
            v.push($module::$function());
        )*};
    }
    add! {
        "C01" verdict c01;
        "C02" verdict c02;
        "C03" verdict c03;
        "C04" verdict c04;
        "C05" verdict c05;
        "C06" verdict c06;
        "C07" limits c07;
        "C08" limits c08;
        "C09" resources c09;
        "C10" resources c10;
        "C11" resources c11;
        "C12" protocol c12;
        "C13" protocol c13;
        "C14" protocol c14;
        "C15" custom c15;
        "C16" custom c16;
        "C17" custom c17;
        "C18" misc c18;
        "C19" misc c19;
        "C20" misc c20;
        "C21" builds c21;
        "C22" recur c22;
        "C23" recur c23;
    }
    v.sort_by_key(|p: &Prop| p.id);
    v
}

/// In a process of its own: one invocation of C20, after its history or without it.
pub fn alone() -> i32 {
    misc::alone()
}

/// Extra parameters of a graph case.
pub trait Extra: Serialize + DeserializeOwned + Clone + Debug + Hash + Send + 'static {
    fn shrinks(&self) -> Vec<Self> {
        Vec::new()
    }
}
impl Extra for u8 {
    fn shrinks(&self) -> Vec<Self> {
        if *self > 0 {
            vec![0]
        } else {
            vec![]
        }
    }
}
impl Extra for () {}

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct G<X> {
    pub arena: Arena,
    pub x: X,
}
impl<X: Extra> Case for G<X> {
    fn shrinks(&self) -> Vec<Self> {
        let mut out: Vec<Self> = self.x.shrinks().into_iter().map(|x| G { arena: self.arena.clone(), x }).collect();
        out.extend(self.arena.shrinks().into_iter().map(|arena| G { arena, x: self.x.clone() }));
        out
    }
}
pub fn with<X: Extra>(a: BoxedStrategy<Arena>, x: impl Strategy<Value = X> + 'static) -> BoxedStrategy<G<X>> {
    (a, x).prop_map(|(arena, x)| G { arena, x }).boxed()
}

/// A pair of graphs of a regular shape, too large to be written out.
#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Huge<X> {
    pub shape: arena::ShapeCase,
    pub x: X,
}
impl<X: Extra> Huge<X> {
    pub fn graph(&self) -> G<X> {
        G { arena: self.shape.build(), x: self.x.clone() }
    }
}
impl<X: Extra> Case for Huge<X> {
    fn shrinks(&self) -> Vec<Self> {
        let mut out: Vec<Self> = self.shape.shrinks().into_iter().map(|shape| Huge { shape, x: self.x.clone() }).collect();
        out.extend(self.x.shrinks().into_iter().map(|x| Huge { shape: self.shape.clone(), x }));
        out
    }
}
/// With sizes from 2^`lo` to 2^`hi`, each magnitude equally likely.
pub fn huge<X: Extra>(shapes: &'static [arena::Shape], lo: u32, hi: u32, x: impl Strategy<Value = X> + 'static) -> BoxedStrategy<Huge<X>> {
    (arena::huge_shape(shapes, lo, hi), x).prop_map(|(shape, x)| Huge { shape, x }).boxed()
}
/// Greatest magnitude of the largest graphs.
pub fn hi(t: Tier) -> u32 {
    match t {
        Tier::Quick => 17,
        Tier::Thorough => 20,
    }
}

/// Enough node operations for a comparison of this many pairs.
pub fn op_budget(pairs: u64, degree: usize) -> u64 {
    pairs.saturating_mul(10).saturating_add(pairs.saturating_mul(4 * (degree as u64 + 2))).saturating_add(1000)
}
pub fn default_bound(g: &Arena) -> u64 {
    default_bound_of(g, &g.roots)
}
pub fn default_bound_of(g: &Arena, roots: &[u32]) -> u64 {
    oracle::work_bound(g.branch_ids(roots), g.max_degree(), 40, 800) + 400
}

/// Run the default-parameter comparison with counted class cells first, so that a class structure
/// that does not terminate becomes an ordinary failure.
pub fn guard_classes(g: &Arena) -> Result<(), String> {
    guard_classes_of(g, g.roots[0], g.roots[1])
}
pub fn guard_classes_of(g: &Arena, a: u32, b: u32) -> Result<(), String> {
    let bound = default_bound_of(g, &[a, b]);
    setup(Cfg { cell_budget: bound.saturating_mul(300).saturating_add(10_000), table: TabKind::Hash, ..Cfg::default() });
    let env = Env::new(g).with_budget(op_budget(bound, g.max_degree()));
    let r = with_limits::<KRich, _>(0, false, Alone(Mode::Queue, H::make(&env, a, 0, 1), H::make(&env, b, 1, 1)));
    let cells = CELLS.with(|c| c.get());
    teardown();
    match r {
        Out::Cmp(_) => Ok(()),
        Out::OverBudget => Err(format!("comparison with shared-structure detection does not terminate within its work bound ({bound} pairs; {cells} accesses of class cells)")),
        o => Err(format!("comparison with shared-structure detection panicked: {o:?}")),
    }
}

pub fn boxed<C: Case>(s: Section<C>) -> Box<dyn DynSection> {
    Box::new(s)
}
