//! The instrumented node type through which the crate is observed.

use crate::arena::{ANode, Arena};
use graph_safe_compare::utils::RefId;
use graph_safe_compare::{Cmp, Node, Step};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

/// Panic payload: the work budget of a run is exhausted.
pub struct OverBudget;
/// Panic payload: an injected panic.
pub struct Fuse;
/// Panic payload: the recursion (which variants that recur on the call stack are free to do) needs
/// more stack than the harness has.
pub struct TooDeep;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// `equiv_modulo_edges` of these nodes.
    Cmp(u32, u32),
    /// `get_edge`: side, node, position.
    Edge(u8, u32, u32),
    /// `id` of a node, when logged.
    Id(u8, u32),
    /// `do_traverse`, with its answer (0 false, 1 true, 2 error).
    Trav(u8),
    /// `do_edges`, with its answer.
    Do(u32, u32, u8),
    /// `recur` was called, with its answer.
    Recur(u8),
    /// The precheck stage ended (recursion mode reset).
    Reset,
    /// What a recursion mode supplies: 0 nothing, 1 this pair, 2 a difference of edges, 3 any other.
    Next(u8, u32, u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tag {
    Protocol,
    /// Edges requested in a wrong order.
    Index,
    Identical,
    /// Something examined too early, or after the end.
    Lazy,
}

thread_local! {
    /// All operations of nodes on this thread.
    pub static OPS: Cell<u64> = const { Cell::new(0) };
    /// Least stack address that nodes may be called at, and whether one was below it.
    static FLOOR: Cell<(usize, bool)> = const { Cell::new((0, false)) };
    static TRACE: RefCell<Option<Vec<Ev>>> = const { RefCell::new(None) };
}
/// Let nodes give up when there is no more than an eighth of this much call stack left.
pub fn depth_start(stack: usize) {
    let x = 0_u8;
    let p = std::hint::black_box(&x) as *const u8 as usize;
    FLOOR.with(|f| f.set((p.saturating_sub(stack / 8 * 7), false)));
}
/// Whether nodes gave up, since the start or the last question.
pub fn too_deep() -> bool {
    FLOOR.with(|f| f.replace((f.get().0, false))).1
}
/// Start recording the events of this thread.
pub fn trace_start() {
    TRACE.with(|t| *t.borrow_mut() = Some(Vec::new()));
}
pub fn trace_take() -> Vec<Ev> {
    TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default()
}
pub fn trace_swap(other: Option<Vec<Ev>>) -> Option<Vec<Ev>> {
    TRACE.with(|t| std::mem::replace(&mut *t.borrow_mut(), other))
}
pub fn log(e: Ev) {
    TRACE.with(|t| {
        if let Some(t) = &mut *t.borrow_mut() {
            t.push(e);
        }
    });
}

type Hook<'g> = Box<dyn Fn(&Env<'g>) + 'g>;

/// Everything that the nodes of one run share.
pub struct Env<'g> {
    pub g: &'g Arena,
    pub budget: Cell<u64>,
    pub fuse: Cell<u64>,
    pub ops: Cell<u64>,
    pub live: Cell<i64>,
    pub live_ids: Cell<i64>,
    pub peak_live: Cell<i64>,
    pub made: Cell<u64>,
    pub cmps: Cell<u64>,
    pub edges: Cell<u64>,
    pub ids: Cell<u64>,
    pub id_uses: Cell<u64>,
    pub viol: RefCell<Vec<(Tag, String)>>,
    pub lo: Cell<usize>,
    pub hi: Cell<usize>,
    pub serial: Cell<u64>,
    pub last: Cell<(u32, u32)>,
    /// How often each position was compared in the present stage, when tracked.
    pub seen: RefCell<Option<HashMap<u64, u32>>>,
    /// Whether a second stage is allowed.
    pub stages: Cell<u32>,
    pub hook: RefCell<Option<(u64, Hook<'g>)>>,
    pub log_ids: Cell<bool>,
    /// Whether misuse is recorded (this allocates).
    pub strict: Cell<bool>,
    /// Extra log of identity hashing: value of `cmps` at each use, when tracked.
    pub id_log: RefCell<Option<Vec<u64>>>,
    /// The positions that were examined, when tracked; and whether an inequivalence was found.
    pub lazy: RefCell<Option<HashSet<u64>>>,
    pub over: Cell<bool>,
    /// If not zero, the order of the edges of a node depends on this and on the path to it.
    pub reorder: Cell<u64>,
    /// How many handles are alive at each comparison of values, when tracked.
    pub live_at: RefCell<Option<Vec<i64>>>,
}

impl<'g> Env<'g> {
    pub fn new(g: &'g Arena) -> Self {
        Env {
            g,
            budget: Cell::new(u64::MAX),
            fuse: Cell::new(u64::MAX),
            ops: Cell::new(0),
            live: Cell::new(0),
            live_ids: Cell::new(0),
            peak_live: Cell::new(0),
            made: Cell::new(0),
            cmps: Cell::new(0),
            edges: Cell::new(0),
            ids: Cell::new(0),
            id_uses: Cell::new(0),
            viol: RefCell::new(Vec::new()),
            lo: Cell::new(usize::MAX),
            hi: Cell::new(0),
            serial: Cell::new(0),
            last: Cell::new((u32::MAX, u32::MAX)),
            seen: RefCell::new(None),
            stages: Cell::new(1),
            hook: RefCell::new(None),
            id_log: RefCell::new(None),
            lazy: RefCell::new(None),
            over: Cell::new(false),
            reorder: Cell::new(0),
            live_at: RefCell::new(None),
            log_ids: Cell::new(false),
            strict: Cell::new(true),
        }
    }
    pub fn with_budget(self, b: u64) -> Self {
        self.budget.set(b);
        self
    }
    pub fn extent(&self) -> usize {
        self.hi.get().saturating_sub(self.lo.get())
    }
    pub fn violation(&self, tag: Tag) -> Option<String> {
        self.viol.borrow().iter().find(|v| v.0 == tag).map(|v| v.1.clone())
    }
    fn bad(&self, tag: Tag, what: impl FnOnce() -> String) {
        if !self.strict.get() {
            return;
        }
        let what = what();
        let mut v = self.viol.borrow_mut();
        if v.len() < 8 {
            v.push((tag, what));
        }
    }
    /// The node at this position is examined.
    fn examined(&self, path: u64, what: &'static str, node: u32) {
        if let Some(l) = &mut *self.lazy.borrow_mut() {
            l.insert(path);
            if self.over.get() {
                self.bad(Tag::Lazy, || format!("{what} of node {node} requested after an inequivalence was found"));
            }
        }
    }
    #[inline(never)]
    fn mark(&self) -> usize {
        let x = 0_u8;
        let p = std::hint::black_box(&x) as *const u8 as usize;
        if p < self.lo.get() {
            self.lo.set(p);
        }
        if p > self.hi.get() {
            self.hi.set(p);
        }
        p
    }
    /// Account for one operation.
    #[inline(never)]
    pub fn op(&self) {
        let p = self.mark();
        if p < FLOOR.with(Cell::get).0 && !std::thread::panicking() {
            FLOOR.with(|f| f.set((f.get().0, true)));
            std::panic::panic_any(TooDeep);
        }
        OPS.with(|o| o.set(o.get() + 1));
        self.ops.set(self.ops.get() + 1);
        let b = self.budget.get();
        if b == 0 {
            std::panic::panic_any(OverBudget);
        }
        self.budget.set(b - 1);
        let f = self.fuse.get();
        if f == 0 {
            self.fuse.set(u64::MAX);
            std::panic::panic_any(Fuse);
        }
        if f != u64::MAX {
            self.fuse.set(f - 1);
        }
    }
    fn handle_made(&self) {
        let l = self.live.get() + 1;
        self.live.set(l);
        self.made.set(self.made.get() + 1);
        if l > self.peak_live.get() {
            self.peak_live.set(l);
        }
    }
    pub fn root<K: Kind<'g>>(&self, side: u8) -> H<'_, 'g, K> {
        H::make(self, self.g.roots[side as usize], side, 1)
    }
    pub fn root_of<K: Kind<'g>>(&self, idx: usize, side: u8) -> H<'_, 'g, K> {
        H::make(self, self.g.roots[idx], side, 1)
    }
}

/// The types that a node is used with.
pub trait Kind<'g>: Sized + 'static {
    type Cmp: Cmp + Debug;
    type Id: Eq + Hash + Clone;
    type Index: Step + Default + Ord;
    fn cmp(env: &Env<'g>, a: u32, b: u32) -> Self::Cmp;
    fn id<'e>(env: &'e Env<'g>, n: u32) -> Self::Id;
    fn pos(i: &Self::Index) -> usize;
}

pub struct H<'e, 'g, K: Kind<'g>> {
    pub env: &'e Env<'g>,
    pub node: u32,
    pub side: u8,
    path: u64,
    compared: Cell<bool>,
    /// Last requested position plus one; and how often it was requested; and whether it was absent.
    at: Cell<u32>,
    times: Cell<u8>,
    absent: Cell<bool>,
    _k: PhantomData<K>,
}

impl<'e, 'g, K: Kind<'g>> H<'e, 'g, K> {
    pub fn make(env: &'e Env<'g>, node: u32, side: u8, path: u64) -> Self {
        env.handle_made();
        H {
            env,
            node,
            side,
            path,
            compared: Cell::new(false),
            at: Cell::new(0),
            times: Cell::new(0),
            absent: Cell::new(false),
            _k: PhantomData,
        }
    }
}

impl<'g, K: Kind<'g>> Clone for H<'_, 'g, K> {
    #[inline(never)]
    fn clone(&self) -> Self {
        self.env.handle_made();
        H {
            env: self.env,
            node: self.node,
            side: self.side,
            path: self.path,
            compared: self.compared.clone(),
            at: self.at.clone(),
            times: self.times.clone(),
            absent: self.absent.clone(),
            _k: PhantomData,
        }
    }
}

impl<'g, K: Kind<'g>> Drop for H<'_, 'g, K> {
    #[inline(never)]
    fn drop(&mut self) {
        self.env.mark();
        self.env.live.set(self.env.live.get() - 1);
    }
}

fn mix(path: u64, pos: u64) -> u64 {
    let mut x = path ^ pos.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x.rotate_left(17).wrapping_add(0x94D0_49BB_1331_11EB)
}

impl<'e, 'g, K: Kind<'g>> Node for H<'e, 'g, K> {
    type Cmp = K::Cmp;
    type Id = K::Id;
    type Index = K::Index;

    #[inline(never)]
    fn id(&self) -> K::Id {
        self.env.ids.set(self.env.ids.get() + 1);
        if self.env.log_ids.get() {
            log(Ev::Id(self.side, self.node));
        }
        self.env.op();
        self.env.examined(self.path, "identity", self.node);
        K::id(self.env, self.node)
    }

    #[inline(never)]
    fn get_edge(&self, index: &K::Index) -> Option<Self> {
        let env = self.env;
        env.edges.set(env.edges.get() + 1);
        env.op();
        let pos = K::pos(index);
        log(Ev::Edge(self.side, self.node, pos as u32));
        if !self.compared.get() {
            env.bad(Tag::Protocol, || format!("edge {pos} of node {} requested before its value was compared as equivalent", self.node));
            env.bad(Tag::Identical, || format!("edge {pos} of node {} requested although its value was not compared", self.node));
        }
        if let Some(l) = &*env.lazy.borrow() {
            if env.over.get() {
                env.bad(Tag::Lazy, || format!("edge {pos} of node {} requested after an inequivalence was found", self.node));
            }
            if pos >= 2 && !l.contains(&mix(self.path, pos as u64 - 2)) {
                env.bad(Tag::Lazy, || format!("edge {pos} of node {} requested although what edge {} leads to is not examined yet", self.node, pos - 2));
            }
        }
        let at = self.at.get();
        if pos as u32 + 1 == at {
            self.times.set(self.times.get().saturating_add(1));
            if self.times.get() > 2 {
                env.bad(Tag::Protocol, || format!("edge {pos} of node {} requested more than twice", self.node));
            }
        } else if pos as u32 == at {
            if self.absent.get() {
                env.bad(Tag::Protocol, || format!("edge {pos} of node {} requested although the one before is absent", self.node));
            }
            self.at.set(at + 1);
            self.times.set(1);
        } else {
            env.bad(Tag::Index, || format!("edge {pos} of node {} requested after {at} positions from zero", self.node));
        }
        let e = &env.g.nodes[self.node as usize].e;
        let at = match env.reorder.get() {
            0 => pos,
            _ if pos >= e.len() => pos,
            seed => {
                // Rotated, and reversed at every other position.
                let h = mix(self.path, seed);
                let at = (pos as u64 + h % e.len() as u64) as usize % e.len();
                if h >> 63 == 0 { at } else { e.len() - 1 - at }
            }
        };
        let r = e.get(at).map(|&t| H::make(env, t, self.side, mix(self.path, pos as u64)));
        if r.is_none() {
            self.absent.set(true);
        }
        r
    }

    #[inline(never)]
    fn equiv_modulo_edges(&self, other: &Self) -> K::Cmp {
        let env = self.env;
        env.cmps.set(env.cmps.get() + 1);
        env.op();
        log(Ev::Cmp(self.node, other.node));
        if let Some(l) = &mut *env.live_at.borrow_mut() {
            l.push(env.live.get());
        }
        if self.side != 0 || other.side != 1 {
            env.bad(
                Tag::Protocol,
                || format!("value of node {} (graph {}) compared with that of node {} (graph {})", self.node, self.side, other.node, other.side),
            );
        }
        if self.path != other.path {
            env.bad(Tag::Protocol, || format!("nodes {} and {} are compared but are not at the same path", self.node, other.node));
        }
        if self.compared.get() || other.compared.get() {
            env.bad(Tag::Protocol, || format!("values of nodes {} and {} compared again", self.node, other.node));
        }
        if let Some(seen) = &mut *env.seen.borrow_mut() {
            if self.path == 1 && env.stages.get() > 1 && seen.contains_key(&1) {
                env.stages.set(env.stages.get() - 1);
                seen.clear();
            }
            let c = seen.entry(self.path).or_insert(0);
            *c += 1;
            if *c > 1 {
                env.bad(Tag::Protocol, || format!("values of nodes {} and {} at one path compared again", self.node, other.node));
            }
        }
        if K::id(env, self.node) == K::id(env, other.node) {
            env.bad(Tag::Identical, || format!("values of nodes {} and {} compared although they are identical", self.node, other.node));
        }
        let fire = matches!(&*env.hook.borrow(), Some((at, _)) if *at == env.cmps.get());
        if fire {
            let h = env.hook.borrow_mut().take();
            if let Some((_, f)) = h {
                f(env);
            }
        }
        env.last.set((self.node, other.node));
        env.examined(self.path, "value", self.node);
        let r = K::cmp(env, self.node, other.node);
        if r.is_equiv() {
            self.compared.set(true);
            other.compared.set(true);
        } else {
            env.over.set(true);
        }
        r
    }
}

fn label_ord(x: &ANode, y: &ANode) -> Ordering {
    if x.nan || y.nan {
        if x.l < y.l {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    } else {
        x.l.cmp(&y.l)
    }
}

// -------------------------------------------------------------------------------------- kinds

/// A comparison value that can be traced to its origin.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rich {
    Equiv,
    Val { a: u32, b: u32, serial: u64 },
    Edges(Ordering),
}
impl Cmp for Rich {
    fn new_equiv() -> Self {
        Rich::Equiv
    }
    fn is_equiv(&self) -> bool {
        matches!(self, Rich::Equiv)
    }
    fn from_ord(ord: Ordering) -> Self {
        Rich::Edges(ord)
    }
}

fn n<'g>(env: &Env<'g>, i: u32) -> &'g ANode {
    &env.g.nodes[i as usize]
}

/// Ordering, number identities.
pub struct KOrd;
impl<'g> Kind<'g> for KOrd {
    type Cmp = Ordering;
    type Id = u32;
    type Index = usize;
    fn cmp(env: &Env<'g>, a: u32, b: u32) -> Ordering {
        label_ord(n(env, a), n(env, b))
    }
    fn id(env: &Env<'g>, i: u32) -> u32 {
        n(env, i).id
    }
    fn pos(i: &usize) -> usize {
        *i
    }
}

/// Payload, number identities.
pub struct KRich;
impl<'g> Kind<'g> for KRich {
    type Cmp = Rich;
    type Id = u32;
    type Index = usize;
    fn cmp(env: &Env<'g>, a: u32, b: u32) -> Rich {
        if label_ord(n(env, a), n(env, b)) == Ordering::Equal {
            Rich::Equiv
        } else {
            env.serial.set(env.serial.get() + 1);
            Rich::Val { a, b, serial: env.serial.get() }
        }
    }
    fn id(env: &Env<'g>, i: u32) -> u32 {
        n(env, i).id
    }
    fn pos(i: &usize) -> usize {
        *i
    }
}

/// bool, reference identities (always the own index, i.e. requires `id` unused by the case).
pub struct KRef;
impl<'g> Kind<'g> for KRef {
    type Cmp = bool;
    type Id = RefId<&'g ANode>;
    type Index = usize;
    fn cmp(env: &Env<'g>, a: u32, b: u32) -> bool {
        label_ord(n(env, a), n(env, b)) == Ordering::Equal
    }
    fn id(env: &Env<'g>, i: u32) -> Self::Id {
        RefId(&env.g.nodes[n(env, i).id as usize])
    }
    fn pos(i: &usize) -> usize {
        *i
    }
}

/// An identity whose hash is the same for all values.
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Collide(pub u32);
impl Hash for Collide {
    fn hash<S: Hasher>(&self, s: &mut S) {
        0_u8.hash(s);
    }
}
/// bool, all hashes collide.
pub struct KCollide;
impl<'g> Kind<'g> for KCollide {
    type Cmp = bool;
    type Id = Collide;
    type Index = u32;
    fn cmp(env: &Env<'g>, a: u32, b: u32) -> bool {
        label_ord(n(env, a), n(env, b)) == Ordering::Equal
    }
    fn id(env: &Env<'g>, i: u32) -> Collide {
        Collide(n(env, i).id)
    }
    fn pos(i: &u32) -> usize {
        *i as usize
    }
}

/// Identity that owns an allocation, and counts how many are alive and how often it is hashed.
pub struct CountedId {
    env: *const Env<'static>,
    val: Box<u32>,
}
impl CountedId {
    fn env(&self) -> &Env<'static> {
        // The environment outlives every comparison made with it; leaked identities are never
        // dropped at all.
        unsafe { &*self.env }
    }
    fn make(env: *const Env<'static>, val: u32) -> Self {
        let me = CountedId { env, val: Box::new(val) };
        me.env().live_ids.set(me.env().live_ids.get() + 1);
        me
    }
}
impl Clone for CountedId {
    fn clone(&self) -> Self {
        self.env().op();
        CountedId::make(self.env, *self.val)
    }
}
impl Drop for CountedId {
    fn drop(&mut self) {
        self.env().mark();
        self.env().live_ids.set(self.env().live_ids.get() - 1);
    }
}
impl PartialEq for CountedId {
    fn eq(&self, o: &Self) -> bool {
        self.val == o.val
    }
}
impl Eq for CountedId {}
impl PartialOrd for CountedId {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for CountedId {
    fn cmp(&self, o: &Self) -> Ordering {
        self.val.cmp(&o.val)
    }
}
impl Hash for CountedId {
    fn hash<S: Hasher>(&self, s: &mut S) {
        let e = self.env();
        e.id_uses.set(e.id_uses.get() + 1);
        e.op();
        if let Some(l) = &mut *e.id_log.borrow_mut() {
            l.push(e.cmps.get());
        }
        self.val.hash(s);
    }
}
/// Ordering, counted identities.
pub struct KCount;
impl<'g> Kind<'g> for KCount {
    type Cmp = Ordering;
    type Id = CountedId;
    type Index = usize;
    fn cmp(env: &Env<'g>, a: u32, b: u32) -> Ordering {
        label_ord(n(env, a), n(env, b))
    }
    fn id(env: &Env<'g>, i: u32) -> CountedId {
        CountedId::make(env as *const Env<'g> as *const Env<'static>, n(env, i).id)
    }
    fn pos(i: &usize) -> usize {
        *i
    }
}
