//! C18-C20: random numbers, reference identities, independence of invocations.

use super::*;
use graph_safe_compare::cycle_safe::modes::interleave::random::{self, NumberGenerator};
use graph_safe_compare::utils::RefId;
use std::cmp::Ordering as O;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hasher;
use std::num::NonZeroU16;
use std::ops::Deref;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum RngKind {
    Default,
    Wyrng,
    Oorandom,
    Fastrand,
}

/// Requests made before, as runs of one end; then, per end, many numbers are drawn.
#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Draws {
    pub kind: RngKind,
    pub seed: u64,
    pub before: Vec<(u16, u32)>,
    pub ends: Vec<(u16, u16)>,
}
impl Case for Draws {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        for i in 0..self.ends.len() {
            let (f, t) = self.ends[i];
            if self.ends.len() > 1 {
                out.push(Draws { ends: vec![(f, t)], ..self.clone() });
            }
            if f < t {
                let m = f + (t - f) / 2;
                out.push(Draws { ends: vec![(f, m)], ..self.clone() });
                out.push(Draws { ends: vec![(m + 1, t)], ..self.clone() });
            }
        }
        for i in 0..self.before.len() {
            let mut before = self.before.clone();
            before.remove(i);
            out.push(Draws { before, ..self.clone() });
            if self.before[i].1 > 1 {
                let mut before = self.before.clone();
                before[i].1 /= 2;
                out.push(Draws { before, ..self.clone() });
            }
        }
        out
    }
}

/// How many numbers are looked at per end.
const PER_END: u32 = 640;

fn draw(r: &mut impl NumberGenerator, end: u16) -> Result<u16, String> {
    let e = NonZeroU16::new(end).expect("end");
    match catch_unwind(AssertUnwindSafe(|| r.rand_upto(e))) {
        Ok(x) if x < end => Ok(x),
        Ok(x) => Err(format!("returns {x} for the range 0..{end}")),
        Err(_) => Err(format!("panics for the range 0..{end}")),
    }
}

fn varies<R: NumberGenerator>(c: &Draws, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = R::default();
    for &(end, n) in &c.before {
        for i in 0..n {
            draw(&mut r, end).map_err(|m| format!("{m}, number {i} of the requests before"))?;
        }
    }
    let mut total: u64 = 0;
    for &(from, to) in &c.ends {
        for end in from..=to {
            // Which of (up to) 16 equal parts of the range occur.
            let parts = u32::from(end.min(16));
            let mut seen = 0_u32;
            for _ in 0..PER_END {
                let x = draw(&mut r, end)?;
                seen |= 1 << (u32::from(x) * parts / u32::from(end));
            }
            total += u64::from(PER_END);
            if seen.count_ones() != parts {
                return Err(format!("{PER_END} successive numbers for the range 0..{end} leave out {} of {parts} parts of it (parts seen: {seen:#b})", parts - seen.count_ones()));
            }
        }
    }
    ctx.count("numbers drawn", total);
    ctx.class_if(c.before.iter().map(|b| b.1).sum::<u32>() > 100_000, "over 100000 requests before");
    ctx.nontrivial = total >= 10 * u64::from(PER_END);
    Ok(())
}

fn check_c18(c: &Draws, ctx: &mut Ctx) -> Result<(), String> {
    if c.before.iter().any(|b| b.0 == 0) || c.ends.iter().any(|e| e.0 == 0) {
        return Ok(());
    }
    fastrand::seed(c.seed);
    let r = match c.kind {
        RngKind::Default => varies::<random::default::RandomNumberGenerator>(c, ctx),
        RngKind::Wyrng => varies::<random::wyrng::RandomNumberGenerator>(c, ctx),
        RngKind::Oorandom => varies::<random::oorandom::RandomNumberGenerator>(c, ctx),
        RngKind::Fastrand => varies::<random::fastrand::RandomNumberGenerator>(c, ctx),
    };
    ctx.class(match c.kind {
        RngKind::Default => "default",
        RngKind::Wyrng => "wyrng",
        RngKind::Oorandom => "oorandom",
        RngKind::Fastrand => "fastrand",
    });
    r.map_err(|m| format!("{:?} generator: {m}", c.kind))
}

fn kind() -> impl Strategy<Value = RngKind> {
    prop_oneof![
        1 => Just(RngKind::Default),
        2 => Just(RngKind::Wyrng),
        2 => Just(RngKind::Oorandom),
        2 => Just(RngKind::Fastrand),
    ]
}
fn end() -> impl Strategy<Value = u16> {
    prop_oneof![
        3 => 1..=20_u16,
        3 => (0..16_u32, -2..=2_i32).prop_map(|(p, d)| ((1_i32 << p) + d).clamp(1, 65535) as u16),
        3 => 1..=u16::MAX,
        1 => Just(u16::MAX),
        1 => Just(801_u16),
    ]
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "generator (default, wyrng, oorandom, fastrand with any seed) x history of requests x ends, section 'sweep' going through every one of the 65535 ends; every number below its end, and 640 successive numbers reach each of 16 equal parts of the range (each number, for smaller ranges); non-trivial: at least ten ends examined",
        assumptions: &["a uniform generator misses a part in 640 numbers with probability below 1e-16 per end"],
        sections: vec![
            boxed(Section {
                name: "sequences",
                quick: 24_000,
                thorough: 200_000,
                strategy: |_| {
                    let before = prop::collection::vec((end(), prop_oneof![4 => 0..40_u32, 2 => 0..3000_u32, 1 => 0..200_000_u32]), 0..6);
                    let ends = prop::collection::vec(end().prop_map(|e| (e, e)), 1..60);
                    (kind(), any::<u64>(), before, ends).prop_map(|(kind, seed, before, ends)| Draws { kind, seed, before, ends }).boxed()
                },
                check: check_c18,
                stack: 8 << 20,
            }),
            boxed(Section {
                name: "sweep",
                quick: 80,
                thorough: 1_600,
                strategy: |_| {
                    (kind(), any::<u64>(), prop::collection::vec((end(), 0..5000_u32), 0..3), any::<bool>())
                        .prop_map(|(kind, seed, before, turned)| Draws { kind, seed, before, ends: if turned { vec![(32768, 65535), (1, 32767)] } else { vec![(1, 65535)] } })
                        .boxed()
                },
                check: check_c18,
                stack: 8 << 20,
            }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C19

/// A value that must not be looked at.
#[repr(C)]
pub struct Evil(u8);
impl PartialEq for Evil {
    fn eq(&self, _: &Self) -> bool {
        panic!("pointed-to values compared")
    }
}
impl Eq for Evil {}
impl PartialOrd for Evil {
    fn partial_cmp(&self, _: &Self) -> Option<O> {
        panic!("pointed-to values compared")
    }
}
impl Ord for Evil {
    fn cmp(&self, _: &Self) -> O {
        panic!("pointed-to values compared")
    }
}
impl Hash for Evil {
    fn hash<S: Hasher>(&self, _: &mut S) {
        panic!("pointed-to value hashed")
    }
}
trait Any2 {
    fn which(&self) -> u8;
}
#[repr(C)]
struct Outer {
    inner: Inner,
    more: u8,
}
#[repr(C)]
struct Inner(u8);
impl Any2 for Outer {
    fn which(&self) -> u8 {
        1 ^ self.more
    }
}
impl Any2 for Inner {
    fn which(&self) -> u8 {
        2 ^ self.0
    }
}
impl Any2 for Evil {
    fn which(&self) -> u8 {
        self.0
    }
}

/// A custom pointer type whose own relations are all wrong.
#[derive(Clone)]
struct Custom<'a>(&'a Evil, #[allow(dead_code)] u32);
impl Deref for Custom<'_> {
    type Target = Evil;
    fn deref(&self) -> &Evil {
        self.0
    }
}
impl PartialEq for Custom<'_> {
    fn eq(&self, _: &Self) -> bool {
        panic!("pointers compared with their own relation")
    }
}
impl Eq for Custom<'_> {}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum PtrKind {
    Thin,
    Zst,
    Slice,
    SliceOfZst,
    Str,
    Dyn,
    Boxed,
    BoxedSlice,
    BoxedDyn,
    Shared,
    SharedSlice,
    Atomic,
    AtomicStr,
    Nested,
    Custom,
    Vector,
    Text,
}
const PTR_KINDS: [PtrKind; 17] = [
    PtrKind::Thin,
    PtrKind::Zst,
    PtrKind::Slice,
    PtrKind::SliceOfZst,
    PtrKind::Str,
    PtrKind::Dyn,
    PtrKind::Boxed,
    PtrKind::BoxedSlice,
    PtrKind::BoxedDyn,
    PtrKind::Shared,
    PtrKind::SharedSlice,
    PtrKind::Atomic,
    PtrKind::AtomicStr,
    PtrKind::Nested,
    PtrKind::Custom,
    PtrKind::Vector,
    PtrKind::Text,
];

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Pool {
    pub kind: PtrKind,
    /// Which pointers, as (place, extent).
    pub items: Vec<(u8, u8)>,
    /// Operations on a map: (operation, item).
    pub ops: Vec<(u8, u8)>,
}
impl Case for Pool {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        if !self.ops.is_empty() {
            out.push(Pool { ops: vec![], ..self.clone() });
            out.push(Pool { ops: self.ops[..self.ops.len() / 2].to_vec(), ..self.clone() });
            for i in 0..self.ops.len() {
                let mut ops = self.ops.clone();
                ops.remove(i);
                out.push(Pool { ops, ..self.clone() });
            }
        }
        if self.items.len() > 1 {
            for i in 0..self.items.len() {
                let mut items = self.items.clone();
                items.remove(i);
                out.push(Pool { items, ..self.clone() });
            }
        }
        for i in 0..self.items.len() {
            let (a, b) = self.items[i];
            for n in [(0, b), (a, 0), (a / 2, b), (a, b / 2)] {
                if n != (a, b) {
                    let mut items = self.items.clone();
                    items[i] = n;
                    out.push(Pool { items, ..self.clone() });
                }
            }
        }
        out
    }
}

/// Address and metadata.
type Key = (usize, usize);

fn thin<T>(p: &T) -> Key {
    (p as *const T as usize, 0)
}
fn wide<T: ?Sized>(p: &T) -> Key {
    assert_eq!(std::mem::size_of::<&T>(), std::mem::size_of::<Key>());
    // A fat pointer is an address followed by its metadata.
    unsafe { std::mem::transmute_copy::<&T, Key>(&p) }
}

fn hash_of(x: &impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn laws<T: Deref>(c: &Pool, ids: Vec<T>, key: impl Fn(&T::Target) -> Key, ctx: &mut Ctx) -> Result<(), String> {
    let keys: Vec<Key> = ids.iter().map(|x| key(x)).collect();
    let ids: Vec<RefId<T>> = ids.into_iter().map(RefId).collect();
    let n = ids.len();
    let mut same_addr = 0;
    for i in 0..n {
        for j in 0..n {
            let (x, y) = (&ids[i], &ids[j]);
            let same = keys[i] == keys[j];
            let what = || format!("identities {i} and {j} (at {:?} and {:?}, relative to the first)", rel(&keys, i), rel(&keys, j));
            if (x == y) != same || (x != y) == same {
                return Err(format!("{}: ==: {}, !=: {}, but same address and metadata: {same}", what(), x == y, x != y));
            }
            let o = x.cmp(y);
            if (o == O::Equal) != same {
                return Err(format!("{}: cmp gives {o:?}, but equal: {same}", what()));
            }
            if y.cmp(x) != o.reverse() {
                return Err(format!("{}: cmp gives {o:?}, swapped {:?}", what(), y.cmp(x)));
            }
            if x.partial_cmp(y) != Some(o) {
                return Err(format!("{}: cmp gives {o:?}, partial_cmp {:?}", what(), x.partial_cmp(y)));
            }
            let got = [x < y, x <= y, x > y, x >= y];
            if got != [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()] {
                return Err(format!("{}: cmp gives {o:?}, but <, <=, >, >= give {got:?}", what()));
            }
            let (most, least): (&RefId<T>, &RefId<T>) = (Ord::max(x, y), Ord::min(x, y));
            if keys_of(most, &ids, &keys) != if o.is_gt() { keys[i] } else { keys[j] } || keys_of(least, &ids, &keys) != if o.is_gt() { keys[j] } else { keys[i] } {
                return Err(format!("{}: cmp gives {o:?}, max and min disagree", what()));
            }
            if same && hash_of(x) != hash_of(y) {
                return Err(format!("{}: equal but hash differently", what()));
            }
            same_addr += usize::from(i < j && keys[i].0 == keys[j].0 && keys[i].1 != keys[j].1);
        }
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if ids[i] <= ids[j] && ids[j] <= ids[k] && ids[k] < ids[i] {
                    return Err(format!("order is not transitive: {:?} <= {:?} <= {:?} < the first", rel(&keys, i), rel(&keys, j), rel(&keys, k)));
                }
            }
        }
    }
    let distinct: std::collections::BTreeSet<Key> = keys.iter().copied().collect();
    let hashes: std::collections::BTreeSet<u64> = ids.iter().map(hash_of).collect();
    if distinct.len() >= 8 && hashes.len() == 1 {
        return Err(format!("{} distinct identities all hash alike", distinct.len()));
    }
    // As keys of maps.
    let mut model: BTreeMap<Key, usize> = BTreeMap::new();
    let mut hashed: HashMap<&RefId<T>, usize> = HashMap::new();
    let mut ordered: BTreeMap<&RefId<T>, usize> = BTreeMap::new();
    for (step, &(op, i)) in c.ops.iter().enumerate() {
        let i = usize::from(i) % n;
        let (id, k) = (&ids[i], keys[i]);
        let (want, h, o) = match op % 4 {
            0 | 1 => (model.insert(k, step), hashed.insert(id, step), ordered.insert(id, step)),
            2 => (model.remove(&k), hashed.remove(id), ordered.remove(id)),
            _ => (model.get(&k).copied(), hashed.get(id).copied(), ordered.get(id).copied()),
        };
        if h != want || o != want {
            return Err(format!("operation {step} on identity {i} as a key: hashed map {h:?}, ordered map {o:?}, expected {want:?}"));
        }
        if hashed.len() != model.len() || ordered.len() != model.len() {
            return Err(format!("after operation {step}: {} and {} entries, expected {}", hashed.len(), ordered.len(), model.len()));
        }
    }
    ctx.class_if(same_addr > 0, "same address, different metadata");
    ctx.class_if(distinct.len() < n, "some equal identities");
    ctx.nontrivial = n >= 3 && distinct.len() >= 2 && (distinct.len() < n || same_addr > 0) && !c.ops.is_empty();
    Ok(())
}

/// The key of one of the identities.
fn keys_of<T>(x: &RefId<T>, ids: &[RefId<T>], keys: &[Key]) -> Key {
    ids.iter().position(|y| std::ptr::eq(x, y)).map(|i| keys[i]).expect("one of the identities")
}

/// Printable regardless of the actual addresses.
fn rel(keys: &[Key], i: usize) -> (isize, usize) {
    (keys[i].0 as isize - keys[0].0 as isize, keys[i].1)
}

fn check_c19(c: &Pool, ctx: &mut Ctx) -> Result<(), String> {
    if c.items.is_empty() {
        return Ok(());
    }
    const N: usize = 40;
    let at = |i: &(u8, u8)| usize::from(i.0) % N;
    // A part of a sequence of N elements.
    let part = |i: &(u8, u8)| {
        let from = usize::from(i.0) % N;
        from..(from + usize::from(i.1) % 6).min(N)
    };
    let cells: Vec<Evil> = (0..N as u8).map(|i| Evil(i % 3)).collect();
    ctx.class(match c.kind {
        PtrKind::Thin | PtrKind::Zst | PtrKind::Boxed | PtrKind::Shared | PtrKind::Atomic | PtrKind::Nested | PtrKind::Custom => "thin pointers",
        PtrKind::Dyn | PtrKind::BoxedDyn => "trait objects",
        _ => "slices and strings",
    });
    match c.kind {
        PtrKind::Thin => laws(c, c.items.iter().map(|i| &cells[at(i)]).collect(), thin, ctx),
        PtrKind::Zst => {
            let units = [(); N];
            laws(c, c.items.iter().map(|i| &units[at(i)]).collect(), thin, ctx)
        }
        PtrKind::Slice => laws(c, c.items.iter().map(|i| &cells[part(i)]).collect(), wide, ctx),
        PtrKind::SliceOfZst => {
            let units = [(); N];
            laws(c, c.items.iter().map(|i| &units[part(i)]).collect(), wide, ctx)
        }
        PtrKind::Str => {
            let s = "ab".repeat(N / 2);
            laws(c, c.items.iter().map(|i| &s[part(i)]).collect(), wide, ctx)
        }
        PtrKind::Dyn => {
            let outs: Vec<Outer> = (0..N as u8).map(|i| Outer { inner: Inner(i % 2), more: 0 }).collect();
            let ids: Vec<&dyn Any2> = c
                .items
                .iter()
                .map(|i| {
                    let o = &outs[at(i)];
                    match i.1 % 3 {
                        0 => o as &dyn Any2,
                        1 => &o.inner as &dyn Any2,
                        _ => &cells[at(i)] as &dyn Any2,
                    }
                })
                .collect();
            assert!(ids.iter().all(|i| i.which() < 4));
            laws(c, ids, wide, ctx)
        }
        PtrKind::Boxed => laws(c, c.items.iter().map(|i| Box::new(Evil(i.1))).collect(), thin, ctx),
        PtrKind::BoxedSlice => laws(c, c.items.iter().map(|i| vec![i.0; usize::from(i.1 % 4)].into_boxed_slice()).collect(), wide, ctx),
        PtrKind::BoxedDyn => {
            let ids: Vec<Box<dyn Any2>> = c.items.iter().map(|i| if i.1 % 2 == 0 { Box::new(Inner(1)) as Box<dyn Any2> } else { Box::new(Outer { inner: Inner(0), more: 0 }) }).collect();
            laws(c, ids, wide, ctx)
        }
        PtrKind::Shared => {
            let rcs: Vec<Rc<Evil>> = (0..N).map(|_| Rc::new(Evil(7))).collect();
            laws(c, c.items.iter().map(|i| rcs[at(i)].clone()).collect(), thin, ctx)
        }
        PtrKind::SharedSlice => {
            let rcs: Vec<Rc<[u8]>> = (0..N).map(|i| vec![1_u8; i % 4].into()).collect();
            laws(c, c.items.iter().map(|i| rcs[at(i)].clone()).collect(), wide, ctx)
        }
        PtrKind::Atomic => {
            let rcs: Vec<Arc<Evil>> = (0..N).map(|_| Arc::new(Evil(7))).collect();
            laws(c, c.items.iter().map(|i| rcs[at(i)].clone()).collect(), thin, ctx)
        }
        PtrKind::AtomicStr => {
            let rcs: Vec<Arc<str>> = (0..N).map(|i| "xyz"[..i % 4].into()).collect();
            laws(c, c.items.iter().map(|i| rcs[at(i)].clone()).collect(), wide, ctx)
        }
        PtrKind::Nested => {
            // The target of a reference to a pointer is that pointer itself.
            let rcs: Vec<Rc<Evil>> = (0..N).map(|i| Rc::new(Evil(i as u8))).collect();
            let twice: Vec<Rc<Evil>> = rcs.iter().chain(&rcs).cloned().collect();
            laws(c, c.items.iter().map(|i| &twice[usize::from(i.0) % twice.len()]).collect(), thin, ctx)
        }
        PtrKind::Custom => laws(c, c.items.iter().enumerate().map(|(n, i)| Custom(&cells[at(i)], n as u32)).collect(), thin, ctx),
        PtrKind::Vector => laws(c, c.items.iter().map(|i| vec![i.0; usize::from(i.1 % 4)]).collect::<Vec<Vec<u8>>>(), wide, ctx),
        PtrKind::Text => laws(c, c.items.iter().map(|i| "abc"[..usize::from(i.1 % 4)].to_string()).collect::<Vec<String>>(), wide, ctx),
    }
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "pools of up to 24 pointers of 17 kinds (references, boxes, single- and multi-threaded shared pointers, vectors, strings and a custom pointer, to sized, zero-sized, slice, string and trait-object targets), all pairs and triples, then operations on maps keyed by them; the pointed-to values panic when compared or hashed; oracle: address and metadata read off the pointers; non-trivial: at least three pointers, two distinct, some equal or with the same address but different metadata, and map operations",
        assumptions: &["a fat pointer is represented as its address followed by its metadata"],
        sections: vec![boxed(Section {
            name: "pools",
            quick: 1_200_000,
            thorough: 8_000_000,
            strategy: |_| {
                let item = prop_oneof![3 => (0..6_u8, 0..6_u8), 1 => (any::<u8>(), any::<u8>())];
                (prop::sample::select(&PTR_KINDS[..]), prop::collection::vec(item, 1..24), prop::collection::vec((any::<u8>(), any::<u8>()), 0..40))
                    .prop_map(|(kind, items, ops)| Pool { kind, items, ops })
                    .boxed()
            },
            check: check_c19,
            stack: 8 << 20,
        })],
    }
}

// ---------------------------------------------------------------------------------------- C20

/// One invocation within a history.
#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub enum Inv {
    Run(V, u8),
    /// With a limit, for the limited variants.
    Limited(V, u8, u16),
    /// Unwound by a panic at some node operation.
    Panic(V, u8, u16),
    /// Another invocation from inside a node method, which may itself be unwound.
    Nested(V, u8, u16, V, u8, Option<u16>),
    /// Concurrently on several threads.
    Threads(Vec<(V, u8)>),
    /// With custom type arguments.
    Custom(u8, u8, u8, Vec<u16>),
}
#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Hist {
    /// Pairs of roots of one arena.
    pub arena: Arena,
    pub ops: Vec<Inv>,
}
impl Case for Hist {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        for i in 0..self.ops.len() {
            if self.ops.len() > 1 {
                let mut ops = self.ops.clone();
                ops.remove(i);
                out.push(Hist { ops, ..self.clone() });
            }
            if let Inv::Threads(v) = &self.ops[i] {
                for k in 0..v.len() {
                    let mut v = v.clone();
                    v.remove(k);
                    let mut ops = self.ops.clone();
                    ops[i] = Inv::Threads(v);
                    out.push(Hist { ops, ..self.clone() });
                }
            }
        }
        out.extend(self.arena.shrinks().into_iter().map(|arena| Hist { arena, ..self.clone() }));
        out
    }
}

/// Node operations after which any invocation is cut off (variants that do not terminate on cycles).
const CUT: u64 = 6000;

/// What one invocation does.
#[derive(Clone, PartialEq, Debug)]
struct Seen {
    out: Out<Rich>,
    trace: Vec<Ev>,
}

fn pair_of(g: &Arena, which: u8) -> (u32, u32) {
    let n = g.roots.len();
    let i = usize::from(which);
    (g.roots[i % n], g.roots[(i / n + i + 1) % n])
}

fn invoke(g: &Arena, v: V, which: u8, limit: u64, fuse: Option<u64>, nested: Option<(u64, V, u8, Option<u64>, &Cell2)>) -> Seen {
    let env = Env::new(g).with_budget(CUT);
    env.log_ids.set(true);
    if let Some(f) = fuse {
        env.fuse.set(f);
    }
    if let Some((at, v2, w2, fuse2, got)) = nested {
        *env.hook.borrow_mut() = Some((
            at,
            Box::new(move |_: &Env<'_>| {
                let outer = trace_swap(None);
                let s = invoke(g, v2, w2, u64::MAX, fuse2, None);
                trace_swap(outer);
                *got.borrow_mut() = Some(s);
            }),
        ));
    }
    let outer = trace_swap(Some(Vec::new()));
    let (a, b) = pair_of(g, which);
    let out = run_nodes::<KRich>(v, limit, H::make(&env, a, 0, 1), H::make(&env, b, 1, 1));
    let trace = trace_swap(outer).unwrap_or_default();
    Seen { out, trace }
}
type Cell2 = std::cell::RefCell<Option<Seen>>;

/// In a thread of its own, so without any history.
fn isolated<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).expect("thread").join().expect("isolated run"))
}

fn custom(g: &Arena, limits: u8, pair: u8, which: u8, rng: &[u16]) -> (Out<GOut<Rich>>, Vec<Ev>) {
    let env = Env::new(g).with_budget(CUT);
    let (a, b) = pair_of(g, which);
    let ch = Choice::new(limits, true);
    setup(Cfg { rng: rng.to_vec(), cell_budget: 3_000_000, ..Cfg::default() });
    let outer = trace_swap(Some(Vec::new()));
    let p = ch.pair(pair.into());
    let r = with_limits::<KRich, _>(ch.limits, ch.premade_table, WithPre(p, H::make(&env, a, 0, 1), H::make(&env, b, 1, 1)));
    teardown();
    (r, trace_swap(outer).unwrap_or_default())
}

fn check_c20(c: &Hist, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    if g.roots.len() < 2 {
        return Ok(());
    }
    let before = g.clone();
    // Reference: each distinct invocation on its own.
    let mut plain: Vec<(V, u8, u64, Option<u64>)> = Vec::new();
    for op in &c.ops {
        match op {
            Inv::Run(v, w) => plain.push((*v, *w, u64::MAX, None)),
            Inv::Limited(v, w, l) => plain.push((*v, *w, (*l).into(), None)),
            Inv::Panic(v, w, f) => plain.push((*v, *w, u64::MAX, Some((*f).into()))),
            Inv::Nested(v, w, _, v2, w2, f2) => {
                plain.push((*v, *w, u64::MAX, None));
                plain.push((*v2, *w2, u64::MAX, f2.map(Into::into)));
            }
            Inv::Threads(x) => plain.extend(x.iter().map(|x| (x.0, x.1, u64::MAX, None))),
            Inv::Custom(..) => {}
        }
    }
    plain.sort_by_key(|x| (format!("{:?}", x.0), x.1, x.2, x.3));
    plain.dedup();
    let mut reference: HashMap<String, Seen> = HashMap::new();
    for &(v, w, l, f) in &plain {
        reference.insert(format!("{:?}", (v, w, l, f)), isolated(|| invoke(g, v, w, l, f, None)));
    }
    let find = |v: V, w: u8, l: u64, f: Option<u64>| &reference[&format!("{:?}", (v, w, l, f))];
    let mut nontrivial = 0;
    for (at, op) in c.ops.iter().enumerate() {
        let same = |got: &Seen, want: &Seen, what: &str| {
            if got.out != want.out {
                return Err(format!("step {at} ({op:?}): {what} gives {:?}, on its own {:?}", got.out, want.out));
            }
            if got.trace != want.trace {
                let i = got.trace.iter().zip(&want.trace).take_while(|(x, y)| x == y).count();
                return Err(format!("step {at} ({op:?}): {what} makes other node calls than on its own: call {i} is {:?} instead of {:?}", got.trace.get(i), want.trace.get(i)));
            }
            Ok(())
        };
        match op {
            Inv::Run(v, w) => same(&invoke(g, *v, *w, u64::MAX, None, None), find(*v, *w, u64::MAX, None), "it")?,
            Inv::Limited(v, w, l) => same(&invoke(g, *v, *w, (*l).into(), None, None), find(*v, *w, (*l).into(), None), "it")?,
            Inv::Panic(v, w, f) => {
                let f = Some(u64::from(*f));
                let want = find(*v, *w, u64::MAX, f);
                same(&invoke(g, *v, *w, u64::MAX, f, None), want, "it")?;
                ctx.class_if(want.out == Out::Fuse, "unwound by a panic");
                nontrivial += u32::from(want.out == Out::Fuse && want.trace.len() >= 4);
            }
            Inv::Nested(v, w, i, v2, w2, f2) => {
                let f2 = f2.map(u64::from);
                let want = find(*v, *w, u64::MAX, None);
                let cmps = want.trace.iter().filter(|e| matches!(e, Ev::Cmp(..))).count() as u64;
                let inner = Cell2::default();
                let pos = if cmps == 0 { 0 } else { 1 + u64::from(*i) % cmps };
                let got = invoke(g, *v, *w, u64::MAX, None, Some((pos, *v2, *w2, f2, &inner)));
                same(&got, want, "the outer invocation")?;
                let inner = inner.borrow_mut().take();
                if let Some(got) = inner {
                    same(&got, find(*v2, *w2, u64::MAX, f2), "the inner invocation")?;
                    ctx.class("nested");
                    nontrivial += u32::from(want.trace.len() >= 8);
                }
            }
            Inv::Threads(x) => {
                let all: Vec<Seen> = std::thread::scope(|s| {
                    let hs: Vec<_> = x
                        .iter()
                        .map(|x| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || (0..3).map(|_| invoke(g, x.0, x.1, u64::MAX, None, None)).collect::<Vec<_>>()).expect("thread"))
                        .collect();
                    hs.into_iter().flat_map(|h| h.join().expect("concurrent run")).collect()
                });
                for (i, got) in all.iter().enumerate() {
                    let (v, w) = x[i / 3];
                    same(got, find(v, w, u64::MAX, None), &format!("concurrent invocation {}", i / 3))?;
                }
                ctx.class_if(x.len() > 1, "concurrent");
                nontrivial += u32::from(x.len() > 1);
            }
            Inv::Custom(l, p, w, rng) => {
                let want = isolated(|| custom(g, *l, *p, *w, rng));
                let got = custom(g, *l, *p, *w, rng);
                if got != want {
                    return Err(format!("step {at} ({op:?}): differs from the same invocation on its own: {:?}, {:?}", got.0, want.0));
                }
            }
        }
    }
    if *g != before {
        return Err("the graphs were modified".into());
    }
    ctx.class_if(reference.values().any(|s| s.trace.len() > 1000), "over 1000 node calls");
    ctx.class_if(reference.values().any(|s| s.out == Out::OverBudget), "cut off");
    ctx.nontrivial = c.ops.len() >= 2 && nontrivial > 0 && reference.values().any(|s| s.trace.len() >= 20);
    Ok(())
}

/// A history in a process of its own, then one invocation.
#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Fresh {
    pub arena: Arena,
    /// Each done a number of times.
    pub before: Vec<(Inv, u16)>,
    pub last: Inv,
}
impl Case for Fresh {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        for i in 0..self.before.len() {
            let mut x = self.clone();
            x.before.remove(i);
            if !x.before.is_empty() {
                out.push(x);
            }
            for n in [self.before[i].1 / 2, self.before[i].1.saturating_sub(100), self.before[i].1.saturating_sub(1)] {
                if n > 0 && n < self.before[i].1 {
                    let mut x = self.clone();
                    x.before[i].1 = n;
                    out.push(x);
                }
            }
        }
        out.extend(self.arena.shrinks().into_iter().filter(|a| a.roots.len() >= 2).map(|arena| Fresh { arena, ..self.clone() }));
        out
    }
}
/// Node calls of all of the history together.
const HISTORY: usize = 300_000;

/// The outcomes and the node calls, and the number of these.
fn do_inv(g: &Arena, op: &Inv) -> (String, Vec<Ev>) {
    let one = |s: Seen| (format!("{:?}", s.out), s.trace);
    match op {
        Inv::Run(v, w) => one(invoke(g, *v, *w, u64::MAX, None, None)),
        Inv::Limited(v, w, l) => one(invoke(g, *v, *w, (*l).into(), None, None)),
        Inv::Panic(v, w, f) => one(invoke(g, *v, *w, u64::MAX, Some((*f).into()), None)),
        Inv::Nested(v, w, i, v2, w2, f2) => {
            let inner = Cell2::default();
            let mut r = one(invoke(g, *v, *w, u64::MAX, None, Some((1 + u64::from(*i % 8), *v2, *w2, f2.map(Into::into), &inner))));
            if let Some(s) = inner.borrow_mut().take() {
                r.0.push_str(&format!(" {:?}", s.out));
                r.1.extend(s.trace);
            }
            r
        }
        Inv::Threads(x) => std::thread::scope(|s| {
            let hs: Vec<_> = x.iter().map(|x| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || invoke(g, x.0, x.1, u64::MAX, None, None)).expect("thread")).collect();
            let mut r = (String::new(), Vec::new());
            for h in hs {
                let s = h.join().expect("concurrent run");
                r.0.push_str(&format!("{:?} ", s.out));
                r.1.extend(s.trace);
            }
            r
        }),
        Inv::Custom(l, p, w, rng) => {
            let (o, t) = custom(g, *l, *p, *w, rng);
            (format!("{o:?}"), t)
        }
    }
}

/// Reads a case, with or without its history, and answers with what the last invocation does.
pub fn alone() -> i32 {
    fn go() {
        let mut text = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).expect("input");
        let c: Fresh = serde_json::from_str(&text).expect("case");
        let mut left = HISTORY;
        let mut done = 0_u32;
        'all: for (op, n) in &c.before {
            for _ in 0..*n {
                left = left.saturating_sub(8 + do_inv(&c.arena, op).1.len());
                done += 1;
                if left == 0 {
                    break 'all;
                }
            }
        }
        let (out, trace) = do_inv(&c.arena, &c.last);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        format!("{trace:?}").hash(&mut h);
        println!("{done} {} {:x} {out} {:?}", trace.len(), h.finish(), &trace[..trace.len().min(60)]);
    }
    std::thread::Builder::new().stack_size(BIG_STACK).spawn(go).expect("thread").join().map_or(101, |()| 0)
}

fn no_answer(what: &str) -> ! {
    eprintln!("C20: {what}");
    std::process::exit(2);
}
fn ask_alone(c: &Fresh) -> Result<(u32, usize, String), String> {
    use std::process::{Command, Stdio};
    let mut child = Command::new(std::env::current_exe().expect("own path")).arg("alone").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| no_answer(&format!("no process: {e}")));
    let text = serde_json::to_vec(c).expect("case");
    let mut stdin = child.stdin.take().expect("input");
    let _ = std::io::Write::write_all(&mut stdin, &text);
    drop(stdin);
    let o = child.wait_with_output().unwrap_or_else(|e| no_answer(&format!("no output: {e}")));
    if std::os::unix::process::ExitStatusExt::signal(&o.status) == Some(9) {
        no_answer("killed from outside");
    }
    if !o.status.success() {
        return Err(format!("the process ends with {}", o.status));
    }
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut it = s.splitn(3, ' ');
    match (it.next().and_then(|x| x.parse().ok()), it.next().and_then(|x| x.parse().ok()), it.next()) {
        (Some(done), Some(calls), Some(rest)) => Ok((done, calls, rest.trim_end().to_owned())),
        _ => Err(format!("unexpected answer {s:?}")),
    }
}

fn check_fresh(c: &Fresh, ctx: &mut Ctx) -> Result<(), String> {
    if c.arena.roots.len() < 2 {
        return Ok(());
    }
    let (_, n1, want) = ask_alone(&Fresh { before: Vec::new(), ..c.clone() })?;
    let (done, n2, got) = ask_alone(c)?;
    if (n1, &want) != (n2, &got) {
        return Err(format!("after {done} other invocations in its process the last one does {n2} node calls, {}, but as the first one {n1}, {}", clip(&got), clip(&want)));
    }
    ctx.class_if(done > 500, "over 500 invocations before");
    ctx.class_if(done > 2000, "over 2000 invocations before");
    ctx.class_if(n1 > 1000, "over 1000 node calls");
    ctx.nontrivial = done > 0 && n1 >= 20;
    Ok(())
}
fn clip(s: &str) -> String {
    s.chars().take(400).collect()
}

fn variant() -> impl Strategy<Value = V> {
    prop_oneof![1 => prop::sample::select(&ALL_V[..]), 2 => prop::sample::select(&SAFE_V[..])]
}
fn inv() -> impl Strategy<Value = Inv> {
    let at = || prop_oneof![2 => 0..40_u16, 1 => 0..1500_u16];
    prop_oneof![
        3 => (variant(), 0..6_u8).prop_map(|(v, w)| Inv::Run(v, w)),
        2 => (prop::sample::select(&[V::BasicLim, V::DeepLim, V::WideLim][..]), 0..6_u8, at()).prop_map(|(v, w, l)| Inv::Limited(v, w, l)),
        3 => (variant(), 0..6_u8, at()).prop_map(|(v, w, f)| Inv::Panic(v, w, f)),
        3 => (variant(), 0..6_u8, any::<u16>(), variant(), 0..6_u8, prop::option::weighted(0.3, at())).prop_map(|(v, w, i, v2, w2, f)| Inv::Nested(v, w, i, v2, w2, f)),
        1 => prop::collection::vec((variant(), 0..6_u8), 2..5).prop_map(Inv::Threads),
        1 => (0..20_u8, 0..12_u8, 0..6_u8, prop::collection::vec(any::<u16>(), 1..6)).prop_map(|(l, p, w, r)| Inv::Custom(l, p, w, r)),
    ]
}

/// One whose node calls are in a determined order.
fn last() -> impl Strategy<Value = Inv> {
    inv().prop_filter("one at a time", |x| !matches!(x, Inv::Threads(..)))
}

pub fn c20() -> Prop {
    fn hist(a: BoxedStrategy<Arena>) -> BoxedStrategy<Hist> {
        (a, prop::collection::vec(inv(), 1..8)).prop_map(|(arena, ops)| Hist { arena, ops }).boxed()
    }
    Prop {
        id: "C20",
        level: "exploration",
        rule: "histories of up to 7 invocations (plain, limited, unwound by a panic at any node operation, nested inside a node method of another, concurrent on 2 to 4 threads, with custom type arguments) over pairs of roots of one arena; result and complete sequence of node calls of each against the same invocation alone in a fresh thread, and, for histories of up to some thousand invocations, against the same invocation as the first one of a fresh process; non-trivial: at least two invocations, one of them unwound, nested or concurrent, and at least 20 node calls",
        assumptions: &["the default random number generator is a deterministic function of its state", "invocations are cut off after 6000 node operations, so that the variants without cycle detection can take part on any graph"],
        sections: vec![
            boxed(Section { name: "any", quick: 12_000, thorough: 200_000, strategy: |_| hist(arena::multi(None, 300, 3)), check: check_c20, stack: BIG_STACK }),
            boxed(Section { name: "cyclic", quick: 12_000, thorough: 200_000, strategy: |_| hist(arena::multi(Some(false), 120, 3)), check: check_c20, stack: BIG_STACK }),
            boxed(Section {
                name: "fresh-process",
                quick: 1_200,
                thorough: 40_000,
                strategy: |_| {
                    let n = prop_oneof![3 => 1..20_u16, 2 => 20..600_u16, 2 => 600..3000_u16];
                    (prop_oneof![arena::multi(None, 120, 3), arena::multi(Some(false), 60, 3), arena::multi(None, 8, 3)], prop::collection::vec((inv(), n), 1..4), last()).prop_map(|(arena, before, last)| Fresh { arena, before, last }).boxed()
                },
                check: check_fresh,
                stack: BIG_STACK,
            }),
        ],
    }
}
