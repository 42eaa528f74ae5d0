//! Custom type arguments for the generic API, all steered through thread-local scripts.

use crate::node::*;
use crate::variants::{guarded, Out};
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::{self, random::NumberGenerator, Interleave};
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::generic::equiv::{self, Counterparts, CounterpartsResult, DescendMode, EdgesIter, Equiv, RecurMode};
use graph_safe_compare::generic::equiv_classes::{self, premade::hash_map, Class, Table};
use graph_safe_compare::generic::precheck_interleave::{self, InterleaveError, PrecheckError};
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use graph_safe_compare::Cmp as _;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::convert::Infallible;
use std::marker::PhantomData;
use std::num::NonZeroU16;
use std::ops::Deref;
use std::rc::Rc as StdRc;

/// The error of our modes; carries which call failed.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MyErr(pub u64);
impl From<Infallible> for MyErr {
    fn from(x: Infallible) -> Self {
        match x {}
    }
}
impl From<MyErr> for PrecheckError<MyErr> {
    fn from(e: MyErr) -> Self {
        PrecheckError::RecurError(e)
    }
}
impl From<MyErr> for InterleaveError<MyErr> {
    fn from(e: MyErr) -> Self {
        InterleaveError(e)
    }
}

/// How [`Flex`] treats what it is given.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, Default)]
pub enum Discipline {
    #[default]
    CallStack,
    Stack,
    Queue,
    /// Any pending item, chosen by the script.
    Random,
    /// Pull all edges at once, then resume in any order.
    Eager,
    /// Pull all edges at once and recur on the call stack in reverse order.
    Reverse,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, Default)]
pub enum TabKind {
    #[default]
    BTree,
    Hash,
    Vec,
}

/// Answers of the scripted descend mode.
pub const NO: u8 = 0;
pub const YES: u8 = 1;
pub const ERR: u8 = 2;

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub discipline: Discipline,
    pub table: TabKind,
    /// Raw numbers for the RNG (recycled); 65535 means the greatest, others are taken modulo.
    pub rng: Vec<u16>,
    pub sched: Vec<u16>,
    /// Fail at this call of `recur` (counted from zero over both stages).
    pub recur_err: Option<u64>,
    /// Answers of `do_traverse` and `do_edges` (afterwards: yes).
    pub traverse: Vec<u8>,
    pub descend: Vec<u8>,
    /// Answer no to further `do_edges`.
    pub then_no: bool,
    /// Use the multi-threaded shared pointer.
    pub arc: bool,
    /// Give up (panic) when class cells are accessed more often.
    pub cell_budget: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MEv {
    Get,
    Insert,
    Rng { end: u16, got: u16 },
    DoEdges { a: u32, b: u32 },
    Answer(bool),
}

#[derive(Default)]
pub struct St {
    pub cfg: Cfg,
    pub rng_at: usize,
    pub sched_at: usize,
    pub recurs: u64,
    pub travs: u64,
    pub does: u64,
    /// The node operations before each error given.
    pub errs: Vec<u64>,
    pub resets: u64,
    pub mlog: Option<Vec<MEv>>,
    pub inserts: u64,
    pub gets: u64,
    /// Tables that exist, and the largest number of entries of one.
    pub entries: u64,
    pub dup_insert: bool,
    /// The pair of the last `do_edges`.
    pub last_do: (u32, u32),
    /// Decisions of [`Probe`], how many were used; the calls of `next` by the algorithm; how often
    /// the iterators were asked for edges, and after their end; and the first misbehaviour.
    pub probe: Vec<u32>,
    pub probe_at: usize,
    pub nexts: u64,
    pub draws: u64,
    pub past_end: u64,
    pub probe_bad: Option<String>,
}

impl St {
    fn answer(&mut self, at: u64, ans: u8) -> (u64, u8) {
        if ans == ERR {
            self.errs.push(OPS.with(|o| o.get()));
        }
        (at, ans)
    }
}

thread_local! {
    pub static ST: RefCell<St> = RefCell::new(St::default());
    pub static CELLS: Cell<u64> = const { Cell::new(0) };
    pub static CELL_BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static RC_LIVE: Cell<i64> = const { Cell::new(0) };
    pub static RC_MADE: Cell<u64> = const { Cell::new(0) };
    pub static RC_LO: Cell<usize> = const { Cell::new(usize::MAX) };
    pub static RC_HI: Cell<usize> = const { Cell::new(0) };
}

pub fn setup(cfg: Cfg) {
    CELLS.with(|c| c.set(0));
    CELL_BUDGET.with(|c| c.set(if cfg.cell_budget == 0 { u64::MAX } else { cfg.cell_budget }));
    RC_LIVE.with(|c| c.set(0));
    RC_MADE.with(|c| c.set(0));
    RC_LO.with(|c| c.set(usize::MAX));
    RC_HI.with(|c| c.set(0));
    // Reserved so that a comparison allocates nothing here (C11 and C10 balance allocations).
    ST.with(|s| *s.borrow_mut() = St { cfg, errs: Vec::with_capacity(256), ..St::default() });
}
pub fn teardown() {
    ST.with(|s| *s.borrow_mut() = St::default());
}
pub fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
    ST.with(|s| f(&mut s.borrow_mut()))
}
fn mlog(e: MEv) {
    st(|s| {
        if let Some(l) = &mut s.mlog {
            l.push(e);
        }
    });
}
pub fn rc_extent() -> usize {
    RC_HI.with(|h| h.get()).saturating_sub(RC_LO.with(|l| l.get()))
}

// ---------------------------------------------------------------------------------------- RNG

#[derive(Default)]
pub struct ScriptRng(());
impl NumberGenerator for ScriptRng {
    #[inline(never)]
    fn rand_upto(&mut self, exclusive_end: NonZeroU16) -> u16 {
        let end = exclusive_end.get();
        let got = st(|s| {
            let n = s.cfg.rng.len();
            let raw = if n == 0 { 0 } else { s.cfg.rng[s.rng_at % n] };
            s.rng_at += 1;
            if raw == u16::MAX {
                end - 1
            } else {
                raw % end
            }
        });
        mlog(MEv::Rng { end, got });
        got
    }
}

// ----------------------------------------------------------------------------------- Rc, Table

/// Shared pointer that counts itself and the accesses to its cell.
pub struct CountRc(Ptr);
#[derive(Clone)]
enum Ptr {
    Rc(StdRc<Cell<Class<CountRc>>>),
    #[allow(clippy::arc_with_non_send_sync)]
    Arc(std::sync::Arc<Cell<Class<CountRc>>>),
}
fn rc_mark() {
    let x = 0_u8;
    let p = std::hint::black_box(&x) as *const u8 as usize;
    RC_LO.with(|l| l.set(l.get().min(p)));
    RC_HI.with(|h| h.set(h.get().max(p)));
}
impl Deref for CountRc {
    type Target = Cell<Class<Self>>;
    #[inline(never)]
    fn deref(&self) -> &Self::Target {
        let c = CELLS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if c > CELL_BUDGET.with(|b| b.get()) {
            std::panic::panic_any(OverBudget);
        }
        match &self.0 {
            Ptr::Rc(p) => p,
            Ptr::Arc(p) => p,
        }
    }
}
impl Clone for CountRc {
    fn clone(&self) -> Self {
        RC_LIVE.with(|c| c.set(c.get() + 1));
        CountRc(self.0.clone())
    }
}
impl Drop for CountRc {
    fn drop(&mut self) {
        rc_mark();
        RC_LIVE.with(|c| c.set(c.get() - 1));
    }
}
impl equiv_classes::Rc for CountRc {
    fn new(value: Cell<Class<Self>>) -> Self {
        RC_LIVE.with(|c| c.set(c.get() + 1));
        RC_MADE.with(|c| c.set(c.get() + 1));
        CountRc(if st(|s| s.cfg.arc) {
            #[allow(clippy::arc_with_non_send_sync)]
            Ptr::Arc(std::sync::Arc::new(value))
        } else {
            Ptr::Rc(StdRc::new(value))
        })
    }
}

enum DynTabIn<Id> {
    B(BTreeMap<Id, CountRc>),
    H(HashMap<Id, CountRc>),
    V(Vec<(Id, CountRc)>),
}
/// A table whose representation is chosen at run time.
pub struct DynTab<'e, 'g, K: Kind<'g>>(DynTabIn<K::Id>, PhantomData<H<'e, 'g, K>>)
where
    K::Id: Ord;
impl<'g, K: Kind<'g>> Default for DynTab<'_, 'g, K>
where
    K::Id: Ord,
{
    fn default() -> Self {
        DynTab(
            match st(|s| s.cfg.table) {
                TabKind::BTree => DynTabIn::B(BTreeMap::new()),
                TabKind::Hash => DynTabIn::H(HashMap::new()),
                TabKind::Vec => DynTabIn::V(Vec::new()),
            },
            PhantomData,
        )
    }
}
impl<'e, 'g, K: Kind<'g>> Table for DynTab<'e, 'g, K>
where
    K::Id: Ord,
{
    type Node = H<'e, 'g, K>;
    type Rc = CountRc;
    #[inline(never)]
    fn get(&self, k: &K::Id) -> Option<&CountRc> {
        st(|s| s.gets += 1);
        mlog(MEv::Get);
        match &self.0 {
            DynTabIn::B(m) => m.get(k),
            DynTabIn::H(m) => m.get(k),
            DynTabIn::V(m) => m.iter().rev().find(|x| x.0 == *k).map(|x| &x.1),
        }
    }
    #[inline(never)]
    fn insert(&mut self, k: K::Id, v: CountRc) {
        mlog(MEv::Insert);
        let dup = match &self.0 {
            DynTabIn::B(m) => m.contains_key(&k),
            DynTabIn::H(m) => m.contains_key(&k),
            DynTabIn::V(m) => m.iter().any(|x| x.0 == k),
        };
        st(|s| {
            s.inserts += 1;
            s.dup_insert |= dup;
        });
        match &mut self.0 {
            DynTabIn::B(m) => {
                m.insert(k, v);
            }
            DynTabIn::H(m) => {
                m.insert(k, v);
            }
            DynTabIn::V(m) => {
                if let Some(x) = m.iter_mut().find(|x| x.0 == k) {
                    x.1 = v;
                } else {
                    m.push((k, v));
                }
            }
        }
    }
}

/// Parameters of the premade table, with a chosen capacity.
pub struct HP<'e, 'g, K, const CAP: usize>(PhantomData<(&'e (), &'g (), K)>);
impl<'e, 'g, K: Kind<'g>, const CAP: usize> hash_map::Params for HP<'e, 'g, K, CAP>
where
    'g: 'e,
{
    const INITIAL_CAPACITY: usize = CAP;
    type Node = H<'e, 'g, K>;
}
/// The premade table with the default capacity.
pub struct HPD<'e, 'g, K>(PhantomData<(&'e (), &'g (), K)>);
impl<'e, 'g, K: Kind<'g>> hash_map::Params for HPD<'e, 'g, K>
where
    'g: 'e,
{
    type Node = H<'e, 'g, K>;
}

/// Parameters of the premade queue and stack, with a chosen capacity.
pub struct QP<'e, 'g, K, const CAP: usize>(PhantomData<(&'e (), &'g (), K)>);
impl<'e, 'g, K: Kind<'g>, const CAP: usize> queue::Params for QP<'e, 'g, K, CAP>
where
    'g: 'e,
{
    const INITIAL_CAPACITY: usize = CAP;
    type Node = H<'e, 'g, K>;
}
impl<'e, 'g, K: Kind<'g>, const CAP: usize> stack::Params for QP<'e, 'g, K, CAP>
where
    'g: 'e,
{
    const INITIAL_CAPACITY: usize = CAP;
    type Node = H<'e, 'g, K>;
}

// ------------------------------------------------------------------------ interleave parameters

/// Explicit limits.
pub struct IP<T, const PRE: u16, const FAST: u16, const SLOW: u16>(PhantomData<T>);
impl<T: Table, const PRE: u16, const FAST: u16, const SLOW: u16> interleave::Params for IP<T, PRE, FAST, SLOW> {
    const PRECHECK_LIMIT: u16 = PRE;
    const FAST_LIMIT_MAX: u16 = FAST;
    const SLOW_LIMIT: u16 = SLOW;
    type Node = T::Node;
    type Table = T;
    type RNG = ScriptRng;
}
/// Limits derived from the precheck limit.
pub struct IPD<T, const PRE: u16>(PhantomData<T>);
impl<T: Table, const PRE: u16> interleave::Params for IPD<T, PRE> {
    const PRECHECK_LIMIT: u16 = PRE;
    type Node = T::Node;
    type Table = T;
    type RNG = ScriptRng;
}
/// All limits by default.
pub struct IPDD<T>(PhantomData<T>);
impl<T: Table> interleave::Params for IPDD<T> {
    type Node = T::Node;
    type Table = T;
    type RNG = ScriptRng;
}

// ------------------------------------------------------------------------------ recursion modes

enum Item<'e, 'g, K: Kind<'g>> {
    Iter(EdgesIter<H<'e, 'g, K>>),
    Pair(CounterpartsResult<H<'e, 'g, K>>),
}
/// A recursion mode whose discipline is chosen at run time.
pub struct Flex<'e, 'g, K: Kind<'g>>(VecDeque<Item<'e, 'g, K>>, Discipline);
impl<'g, K: Kind<'g>> Default for Flex<'_, 'g, K> {
    fn default() -> Self {
        Flex(VecDeque::new(), st(|s| s.cfg.discipline))
    }
}
fn sched(n: usize) -> usize {
    st(|s| {
        let len = s.cfg.sched.len();
        let raw = if len == 0 { 0 } else { s.cfg.sched[s.sched_at % len] };
        s.sched_at += 1;
        raw as usize % n
    })
}

impl<'e, 'g, K: Kind<'g>, P> RecurMode<P> for Flex<'e, 'g, K>
where
    P: equiv::Params<Node = H<'e, 'g, K>, RecurMode = Self>,
    MyErr: Into<P::Error>,
{
    type Error = P::Error;

    fn recur(it: &mut Equiv<P>, edges_iter: EdgesIter<P::Node>) -> Result<K::Cmp, P::Error> {
        let fail = st(|s| {
            let at = s.recurs;
            s.recurs += 1;
            if s.cfg.recur_err == Some(at) {
                s.errs.push(OPS.with(|o| o.get()));
                Some(at)
            } else {
                None
            }
        });
        log(Ev::Recur(if fail.is_some() { ERR } else { YES }));
        if let Some(at) = fail {
            return Err(MyErr(at).into());
        }
        match it.recur_mode.1 {
            Discipline::CallStack => {
                for next in edges_iter {
                    match next {
                        Ok([a, b]) => match it.equiv_main(a, b) {
                            Ok(cmp) if cmp.is_equiv() => (),
                            result => return result,
                        },
                        Err(cmp) => return Ok(cmp),
                    }
                }
            }
            Discipline::Reverse => {
                let mut all: Vec<Counterparts<H<'e, 'g, K>>> = Vec::new();
                for next in edges_iter {
                    match next {
                        Ok(p) => all.push(p),
                        Err(cmp) => return Ok(cmp),
                    }
                }
                while let Some([a, b]) = all.pop() {
                    match it.equiv_main(a, b) {
                        Ok(cmp) if cmp.is_equiv() => (),
                        result => return result,
                    }
                }
            }
            Discipline::Eager => {
                for next in edges_iter {
                    let err = next.is_err();
                    it.recur_mode.0.push_back(Item::Pair(next));
                    if err {
                        break;
                    }
                }
            }
            Discipline::Queue | Discipline::Stack | Discipline::Random => it.recur_mode.0.push_back(Item::Iter(edges_iter)),
        }
        Ok(K::Cmp::new_equiv())
    }

    fn next(&mut self) -> Option<CounterpartsResult<P::Node>> {
        while !self.0.is_empty() {
            let n = self.0.len();
            let i = match self.1 {
                Discipline::Random | Discipline::Eager => sched(n),
                Discipline::Queue => 0,
                _ => n - 1,
            };
            match &mut self.0[i] {
                Item::Iter(it) => match it.next() {
                    Some(r) => return Some(r),
                    None => match self.1 {
                        Discipline::Queue => drop(self.0.pop_front()),
                        _ => drop(self.0.swap_remove_back(i)),
                    },
                },
                Item::Pair(_) => match self.0.swap_remove_back(i) {
                    Some(Item::Pair(p)) => return Some(p),
                    _ => unreachable!(),
                },
            }
        }
        None
    }

    fn reset(mut self) -> Self {
        st(|s| {
            s.resets += 1;
            s.sched_at = 0;
        });
        log(Ev::Reset);
        self.0.clear();
        self
    }
}
impl<'g, K: Kind<'g>> From<CallStack> for Flex<'_, 'g, K> {
    fn from(_: CallStack) -> Self {
        Self::default()
    }
}
impl<'g, K: Kind<'g>> From<Flex<'_, 'g, K>> for CallStack {
    fn from(_: Flex<'_, 'g, K>) -> Self {
        CallStack::default()
    }
}
impl<'e, 'g, K: Kind<'g>, const CAP: usize> From<Flex<'e, 'g, K>> for RecurQueue<QP<'e, 'g, K, CAP>> {
    fn from(_: Flex<'e, 'g, K>) -> Self {
        Self::default()
    }
}
impl<'e, 'g, K: Kind<'g>, const CAP: usize> From<Flex<'e, 'g, K>> for RecurStack<QP<'e, 'g, K, CAP>> {
    fn from(_: Flex<'e, 'g, K>) -> Self {
        Self::default()
    }
}
impl<'e, 'g, K: Kind<'g>, const CAP: usize> From<RecurQueue<QP<'e, 'g, K, CAP>>> for Flex<'e, 'g, K> {
    fn from(_: RecurQueue<QP<'e, 'g, K, CAP>>) -> Self {
        Self::default()
    }
}
impl<'e, 'g, K: Kind<'g>, const CAP: usize> From<RecurStack<QP<'e, 'g, K, CAP>>> for Flex<'e, 'g, K> {
    fn from(_: RecurStack<QP<'e, 'g, K, CAP>>) -> Self {
        Self::default()
    }
}

// -------------------------------------------------------------------------------- descend modes

/// Scripted answers.
#[derive(Default)]
pub struct Scripted(());
impl<'e, 'g: 'e, K: Kind<'g>, P> DescendMode<P> for Scripted
where
    P: equiv::Params<DescendMode = Self, Node = H<'e, 'g, K>>,
    MyErr: Into<P::Error>,
{
    type Error = MyErr;
    fn do_edges(&mut self, a: &P::Node, b: &P::Node) -> Result<bool, MyErr> {
        let (at, ans) = st(|s| {
            let at = s.does;
            s.does += 1;
            s.last_do = (a.node, b.node);
            s.answer(at, s.cfg.descend.get(at as usize).copied().unwrap_or(if s.cfg.then_no { NO } else { YES }))
        });
        log(Ev::Do(a.node, b.node, ans));
        match ans {
            ERR => Err(MyErr(1_000_000 + at)),
            x => Ok(x == YES),
        }
    }
    fn do_traverse(&mut self) -> Result<bool, MyErr> {
        let (at, ans) = st(|s| {
            let at = s.travs;
            s.travs += 1;
            s.answer(at, s.cfg.traverse.get(at as usize).copied().unwrap_or(YES))
        });
        log(Ev::Trav(ans));
        match ans {
            ERR => Err(MyErr(2_000_000 + at)),
            x => Ok(x == YES),
        }
    }
}

/// Observes an [`Interleave`] from outside.
pub struct Watch<I: interleave::Params>(pub Interleave<I>);
impl<I: interleave::Params> Default for Watch<I> {
    fn default() -> Self {
        Watch(Interleave::default())
    }
}
impl<'e, 'g: 'e, K: Kind<'g>, I, P> DescendMode<P> for Watch<I>
where
    P: equiv::Params<DescendMode = Self, Node = H<'e, 'g, K>, Error = MyErr>,
    I: interleave::Params<Node = H<'e, 'g, K>>,
{
    type Error = Infallible;
    fn do_edges(&mut self, a: &P::Node, b: &P::Node) -> Result<bool, Infallible> {
        mlog(MEv::DoEdges { a: a.node, b: b.node });
        let r = <Interleave<I> as DescendMode<EpC<I>>>::do_edges(&mut self.0, a, b)?;
        mlog(MEv::Answer(r));
        Ok(r)
    }
    fn do_traverse(&mut self) -> Result<bool, Infallible> {
        <Interleave<I> as DescendMode<EpC<I>>>::do_traverse(&mut self.0)
    }
}

// ----------------------------------------------------------------------- parameters of the core

macro_rules! eps {
    ($($name:ident, $watch:ident, $script:ident = $recur:ty;)*) => {$(
        /// Interleave with this recursion mode.
        pub struct $name<I>(PhantomData<I>);
        impl<'e, 'g: 'e, K: Kind<'g> + 'e, I: interleave::Params<Node = H<'e, 'g, K>>> equiv::Params for $name<I> {
            type Node = H<'e, 'g, K>;
            type DescendMode = Interleave<I>;
            type RecurMode = $recur;
            type Error = MyErr;
        }
        pub struct $watch<I>(PhantomData<I>);
        impl<'e, 'g: 'e, K: Kind<'g> + 'e, I: interleave::Params<Node = H<'e, 'g, K>>> equiv::Params for $watch<I> {
            type Node = H<'e, 'g, K>;
            type DescendMode = Watch<I>;
            type RecurMode = $recur;
            type Error = MyErr;
        }
        pub struct $script<'e, 'g, K>(PhantomData<(&'e (), &'g (), K)>);
        impl<'e, 'g: 'e, K: Kind<'g> + 'e> equiv::Params for $script<'e, 'g, K> {
            type Node = H<'e, 'g, K>;
            type DescendMode = Scripted;
            type RecurMode = $recur;
            type Error = MyErr;
        }
    )*};
}
eps! {
    EpC, EwC, EsC = CallStack;
    EpQ, EwQ, EsQ = RecurQueue<QP<'e, 'g, K, 1>>;
    EpS, EwS, EsS = RecurStack<QP<'e, 'g, K, 0>>;
    EpF, EwF, EsF = Flex<'e, 'g, K>;
}

/// The recursion modes, by run-time choice.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Mode {
    CallStack,
    Queue,
    Stack,
    Flex,
}
pub const ALL_M: [Mode; 4] = [Mode::CallStack, Mode::Queue, Mode::Stack, Mode::Flex];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum GOut<C> {
    Ok(C),
    Err(MyErr),
}
fn g<C>(r: Result<C, MyErr>) -> Out<GOut<C>> {
    Out::Cmp(match r {
        Ok(c) => GOut::Ok(c),
        Err(e) => GOut::Err(e),
    })
}

/// Interleave with given parameters, without precheck.
pub fn interleaved<'e, 'g: 'e, K: Kind<'g> + 'e, I: interleave::Params<Node = H<'e, 'g, K>>>(
    mode: Mode,
    a: H<'e, 'g, K>,
    b: H<'e, 'g, K>,
) -> Out<GOut<K::Cmp>> {
    guarded(move || match mode {
        Mode::CallStack => g(Equiv::<EpC<I>>::default().equiv(a, b)),
        Mode::Queue => g(Equiv::<EpQ<I>>::default().equiv(a, b)),
        Mode::Stack => g(Equiv::<EpS<I>>::default().equiv(a, b)),
        Mode::Flex => g(Equiv::<EpF<I>>::default().equiv(a, b)),
    })
}
/// The same, observed.
pub fn watched<'e, 'g: 'e, K: Kind<'g> + 'e, I: interleave::Params<Node = H<'e, 'g, K>>>(
    mode: Mode,
    a: H<'e, 'g, K>,
    b: H<'e, 'g, K>,
) -> Out<GOut<K::Cmp>> {
    guarded(move || match mode {
        Mode::CallStack => g(Equiv::<EwC<I>>::default().equiv(a, b)),
        Mode::Queue => g(Equiv::<EwQ<I>>::default().equiv(a, b)),
        Mode::Stack => g(Equiv::<EwS<I>>::default().equiv(a, b)),
        Mode::Flex => g(Equiv::<EwF<I>>::default().equiv(a, b)),
    })
}
/// Scripted descend mode.
pub fn scripted<'e, 'g: 'e, K: Kind<'g> + 'e>(mode: Mode, a: H<'e, 'g, K>, b: H<'e, 'g, K>) -> Out<GOut<K::Cmp>> {
    guarded(move || match mode {
        Mode::CallStack => g(Equiv::<EsC<'e, 'g, K>>::default().equiv(a, b)),
        Mode::Queue => g(Equiv::<EsQ<'e, 'g, K>>::default().equiv(a, b)),
        Mode::Stack => g(Equiv::<EsS<'e, 'g, K>>::default().equiv(a, b)),
        Mode::Flex => g(Equiv::<EsF<'e, 'g, K>>::default().equiv(a, b)),
    })
}

/// A scripted comparison, whose state is then converted to that of an interleaved one, of other
/// nodes. `between` is called after the conversion.
pub fn converted<'e, 'g: 'e, K: Kind<'g> + 'e, I: interleave::Params<Node = H<'e, 'g, K>>>(
    mode: Mode,
    from: bool,
    first: [H<'e, 'g, K>; 2],
    second: [H<'e, 'g, K>; 2],
    between: impl FnOnce(Out<GOut<K::Cmp>>),
) -> Out<GOut<K::Cmp>> {
    macro_rules! go {
        ($from:ident, $to:ident) => {{
            let mut e = Equiv::<$from<'e, 'g, K>>::default();
            let [a, b] = first;
            let r = guarded(|| g(e.equiv(a, b)));
            let mut e: Equiv<$to<I>> = if from { Equiv::from(e) } else { e.into() };
            between(r);
            let [a, b] = second;
            guarded(|| g(e.equiv(a, b)))
        }};
    }
    match mode {
        Mode::CallStack => go!(EsC, EpC),
        Mode::Queue => go!(EsQ, EpQ),
        Mode::Stack => go!(EsS, EpS),
        Mode::Flex => go!(EsF, EpF),
    }
}

macro_rules! pps {
    ($($name:ident = $pre:ty => $main:ty;)*) => {$(
        pub struct $name<I>(PhantomData<I>);
        impl<'e, 'g: 'e, K: Kind<'g> + 'e, I: interleave::Params<Node = H<'e, 'g, K>>> precheck_interleave::Params<H<'e, 'g, K>> for $name<I> {
            type PrecheckRecurMode = $pre;
            type InterleaveRecurMode = $main;
            type InterleaveParams = I;
            type Error = MyErr;
        }
    )*};
}
pps! {
    PpCC = CallStack => CallStack;
    PpCQ = CallStack => RecurQueue<QP<'e, 'g, K, 3>>;
    PpCS = CallStack => RecurStack<QP<'e, 'g, K, 2>>;
    PpCF = CallStack => Flex<'e, 'g, K>;
    PpQQ = RecurQueue<QP<'e, 'g, K, 16>> => RecurQueue<QP<'e, 'g, K, 16>>;
    PpSS = RecurStack<QP<'e, 'g, K, 16>> => RecurStack<QP<'e, 'g, K, 16>>;
    PpFF = Flex<'e, 'g, K> => Flex<'e, 'g, K>;
    PpFC = Flex<'e, 'g, K> => CallStack;
    PpFQ = Flex<'e, 'g, K> => RecurQueue<QP<'e, 'g, K, 0>>;
    PpFS = Flex<'e, 'g, K> => RecurStack<QP<'e, 'g, K, 1>>;
    PpQF = RecurQueue<QP<'e, 'g, K, 4>> => Flex<'e, 'g, K>;
    PpSF = RecurStack<QP<'e, 'g, K, 4>> => Flex<'e, 'g, K>;
}
pub const PAIRS: [(Mode, Mode); 12] = [
    (Mode::CallStack, Mode::CallStack),
    (Mode::CallStack, Mode::Queue),
    (Mode::CallStack, Mode::Stack),
    (Mode::CallStack, Mode::Flex),
    (Mode::Queue, Mode::Queue),
    (Mode::Stack, Mode::Stack),
    (Mode::Flex, Mode::Flex),
    (Mode::Flex, Mode::CallStack),
    (Mode::Flex, Mode::Queue),
    (Mode::Flex, Mode::Stack),
    (Mode::Queue, Mode::Flex),
    (Mode::Stack, Mode::Flex),
];

pub fn prechecked<'e, 'g: 'e, K: Kind<'g> + 'e, I: interleave::Params<Node = H<'e, 'g, K>>>(
    pair: usize,
    a: H<'e, 'g, K>,
    b: H<'e, 'g, K>,
) -> Out<GOut<K::Cmp>> {
    use precheck_interleave::equiv as e;
    guarded(move || {
        g(match pair % 12 {
            0 => e::<_, PpCC<I>>(a, b),
            1 => e::<_, PpCQ<I>>(a, b),
            2 => e::<_, PpCS<I>>(a, b),
            3 => e::<_, PpCF<I>>(a, b),
            4 => e::<_, PpQQ<I>>(a, b),
            5 => e::<_, PpSS<I>>(a, b),
            6 => e::<_, PpFF<I>>(a, b),
            7 => e::<_, PpFC<I>>(a, b),
            8 => e::<_, PpFQ<I>>(a, b),
            9 => e::<_, PpFS<I>>(a, b),
            10 => e::<_, PpQF<I>>(a, b),
            _ => e::<_, PpSF<I>>(a, b),
        })
    })
}

/// Choices of the limits: (precheck, fast, slow).
#[derive(Clone, Copy, Debug)]
pub struct Limits {
    pub pre: u16,
    pub fast: u16,
    pub slow: u16,
}

/// What to do with one choice of interleave parameters.
pub trait WithParams<'e, 'g: 'e, K: Kind<'g> + 'e>: Sized {
    type R;
    /// With any recursion modes.
    fn go_all<I: interleave::Params<Node = H<'e, 'g, K>>>(self) -> Self::R;
    /// Only with [`Flex`], for the other choices (to limit the amount of compiled code).
    fn go_flex<I: interleave::Params<Node = H<'e, 'g, K>>>(self) -> Self::R;
}

macro_rules! limit_choices {
    ($n:literal: $($i:literal => $pre:literal, $fast:literal, $slow:literal, $mk:ident, $go:ident, $tables:ident;)*) => {
        pub const LIMITS: [Limits; $n] = [$(Limits { pre: $pre, fast: $fast, slow: $slow }),*];
        /// Whether the limits are the derived ones.
        pub const DERIVED: [bool; $n] = [$(limit_choices!(@d $mk)),*];
        /// Whether all recursion modes are available.
        pub const FULL: [bool; $n] = [$(limit_choices!(@f $go)),*];
        /// Whether the premade table is available.
        pub const PREMADE: [bool; $n] = [$(limit_choices!(@p $tables)),*];
        /// Call with the chosen limits and table.
        pub fn with_limits<'e, 'g: 'e, K: Kind<'g> + 'e, F: WithParams<'e, 'g, K>>(i: usize, premade_table: bool, f: F) -> F::R
        where K::Id: Ord
        {
            if premade_table {
                match i {
                    $($i => limit_choices!(@pre $tables, $mk, f, hash_map::Table<HP<'e, 'g, K, { $i % 3 }>>, $pre, $fast, $slow),)*
                    _ => unreachable!(),
                }
            } else {
                match i {
                    $($i => limit_choices!(@go $go, $mk, f, DynTab<'e, 'g, K>, $pre, $fast, $slow),)*
                    _ => unreachable!(),
                }
            }
        }
    };
    (@d explicit) => { false };
    (@d derived) => { true };
    (@d default) => { true };
    (@f go_all) => { true };
    (@f go_flex) => { false };
    (@p both) => { true };
    (@p own) => { false };
    (@pre own, $mk:ident, $f:ident, $t:ty, $pre:literal, $fast:literal, $slow:literal) => { unreachable!() };
    (@pre both, $mk:ident, $f:ident, $t:ty, $pre:literal, $fast:literal, $slow:literal) => { limit_choices!(@go go_flex, $mk, $f, $t, $pre, $fast, $slow) };
    (@go $go:ident, explicit, $f:ident, $t:ty, $pre:literal, $fast:literal, $slow:literal) => { $f.$go::<IP<$t, $pre, $fast, $slow>>() };
    (@go $go:ident, derived, $f:ident, $t:ty, $pre:literal, $fast:literal, $slow:literal) => { $f.$go::<IPD<$t, $pre>>() };
    (@go $go:ident, default, $f:ident, $t:ty, $pre:literal, $fast:literal, $slow:literal) => { $f.$go::<IPDD<$t>>() };
}
limit_choices! { 20:
    0 => 400, 800, 40, default, go_all, both;
    1 => 0, 0, 1, explicit, go_flex, own;
    2 => 1, 0, 1, explicit, go_flex, own;
    3 => 1, 3, 2, explicit, go_all, both;
    4 => 2, 7, 1, explicit, go_flex, own;
    5 => 3, 1, 3, explicit, go_flex, both;
    6 => 5, 2, 4, explicit, go_flex, own;
    7 => 7, 20, 5, explicit, go_flex, own;
    8 => 12, 0, 2, explicit, go_all, own;
    9 => 20, 5, 10, explicit, go_flex, own;
    10 => 30, 65534, 1, explicit, go_flex, own;
    11 => 50, 3, 65535, explicit, go_flex, own;
    12 => 65535, 10, 3, explicit, go_flex, own;
    13 => 100, 50, 20, explicit, go_flex, own;
    14 => 10, 20, 1, derived, go_all, own;
    15 => 29, 58, 2, derived, go_flex, own;
    16 => 100, 200, 10, derived, go_flex, own;
    17 => 0, 0, 1, derived, go_flex, both;
    18 => 1, 2, 1, derived, go_flex, own;
    19 => 9, 18, 1, derived, go_flex, own;
}

/// A choice that is available: the premade table with fewer limits, and with [`Flex`] only.
#[derive(Clone, Copy, Debug)]
pub struct Choice {
    pub limits: usize,
    pub premade_table: bool,
    pub all_modes: bool,
}
impl Choice {
    pub fn new(limits: u8, premade_table: bool) -> Self {
        let limits = usize::from(limits) % LIMITS.len();
        let premade_table = premade_table && PREMADE[limits];
        Choice { limits, premade_table, all_modes: FULL[limits] && !premade_table }
    }
    pub fn mode(&self, m: Mode) -> Mode {
        if self.all_modes {
            m
        } else {
            Mode::Flex
        }
    }
    /// Of the table of mode pairs.
    pub fn pair(&self, p: usize) -> usize {
        if self.all_modes {
            p
        } else {
            6
        }
    }
    pub fn l(&self) -> Limits {
        LIMITS[self.limits]
    }
}

/// One stage, with the chosen recursion mode.
pub struct Alone<'e, 'g, K: Kind<'g>>(pub Mode, pub H<'e, 'g, K>, pub H<'e, 'g, K>);
impl<'e, 'g: 'e, K: Kind<'g>> WithParams<'e, 'g, K> for Alone<'e, 'g, K> {
    type R = Out<GOut<K::Cmp>>;
    fn go_all<I: interleave::Params<Node = H<'e, 'g, K>>>(self) -> Self::R {
        interleaved::<K, I>(self.0, self.1, self.2)
    }
    fn go_flex<I: interleave::Params<Node = H<'e, 'g, K>>>(self) -> Self::R {
        guarded(move || g(Equiv::<EpF<I>>::default().equiv(self.1, self.2)))
    }
}
/// One stage, observed.
pub struct Watched<'e, 'g, K: Kind<'g>>(pub Mode, pub H<'e, 'g, K>, pub H<'e, 'g, K>);
impl<'e, 'g: 'e, K: Kind<'g>> WithParams<'e, 'g, K> for Watched<'e, 'g, K> {
    type R = Out<GOut<K::Cmp>>;
    fn go_all<I: interleave::Params<Node = H<'e, 'g, K>>>(self) -> Self::R {
        watched::<K, I>(self.0, self.1, self.2)
    }
    fn go_flex<I: interleave::Params<Node = H<'e, 'g, K>>>(self) -> Self::R {
        guarded(move || g(Equiv::<EwF<I>>::default().equiv(self.1, self.2)))
    }
}
/// Two stages.
pub struct WithPre<'e, 'g, K: Kind<'g>>(pub usize, pub H<'e, 'g, K>, pub H<'e, 'g, K>);
impl<'e, 'g: 'e, K: Kind<'g>> WithParams<'e, 'g, K> for WithPre<'e, 'g, K> {
    type R = Out<GOut<K::Cmp>>;
    fn go_all<I: interleave::Params<Node = H<'e, 'g, K>>>(self) -> Self::R {
        prechecked::<K, I>(self.0, self.1, self.2)
    }
    fn go_flex<I: interleave::Params<Node = H<'e, 'g, K>>>(self) -> Self::R {
        guarded(move || g(precheck_interleave::equiv::<_, PpFF<I>>(self.1, self.2)))
    }
}
