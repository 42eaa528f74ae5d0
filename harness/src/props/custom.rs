//! C15-C17: custom type arguments, phases, classes.

use super::protocol::{bound_of, gen, gen_hashed, Gen};
use super::*;
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::generic::equiv::DescendMode;
use graph_safe_compare::generic::equiv_classes::premade::hash_map;
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------------- C15

fn check_c15(c: &G<Gen>, ctx: &mut Ctx) -> Result<(), String> {
    use graph_safe_compare::Cmp as _;
    let g = &c.arena;
    let x = &c.x;
    let want = oracle::verdict(g, g.roots[0], g.roots[1]);
    let ch = x.choice(g);
    let bound = bound_of(g, ch.l());
    let pair = ch.pair(x.pair as usize % 12);
    let cyclic = !g.is_acyclic();
    for two in [false, true] {
        setup(x.cfg(bound));
        let env = Env::new(g).with_budget(op_budget(bound, g.max_degree()));
        let r = if two { with_limits::<KRich, _>(ch.limits, ch.premade_table, WithPre(pair, env.root(0), env.root(1))) } else { with_limits::<KRich, _>(ch.limits, ch.premade_table, Alone(PAIRS[pair].1, env.root(0), env.root(1))) };
        let (rngs, made) = (st(|s| s.rng_at), RC_MADE.with(|m| m.get()));
        teardown();
        ctx.class_if(rngs > 0, "fast phase reached");
        ctx.class_if(made > 0, "classes made");
        ctx.class_if(DERIVED[ch.limits] && cyclic, "derived limits on cyclic graphs");
        ctx.class_if(ch.premade_table, "premade table");
        ctx.nontrivial |= (cyclic || g.has_sharing()) && env.cmps.get() >= 4 && (rngs > 0 || want != Diff::None);
        let what = || format!("limits {:?}{}, modes {:?} ({:?}), table {:?}, precheck {two}", ch.l(), if DERIVED[ch.limits] { " (derived)" } else { "" }, PAIRS[pair], x.discipline, x.table);
        match r {
            Out::Cmp(GOut::Ok(got)) if got.is_equiv() == (want == Diff::None) => {}
            Out::OverBudget => return Err(format!("{}: does not terminate within its work bound ({} pairs compared)", what(), env.cmps.get())),
            r => return Err(format!("{}: {r:?}, expected {want:?}", what())),
        }
    }
    ctx.class_if(cyclic, "cyclic");
    ctx.class_if(want != Diff::None, "inequivalent");
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "pairs of graphs x 20 choices of explicit and derived limits x tables (ordered, hashed, linear, premade with several capacities) x shared pointers (single- and multi-threaded) x scripted random numbers (least, greatest, any) x resumption orders (six disciplines, premade queue and stack with capacities 0 to 16, call stack), single-stage and with precheck; non-trivial: cyclic or shared graphs, at least 4 pairs compared, and a fast phase was reached or the graphs differ",
        assumptions: &["the exact verdict is that of a breadth-first search over pairs of nodes"],
        sections: vec![
            boxed(Section { name: "each-small", quick: arena::each_size(arena::EACH_TINY), thorough: arena::each_size(arena::EACH_SMALL), strategy: |t| with(arena::each(match t { Tier::Quick => arena::EACH_TINY, Tier::Thorough => arena::EACH_SMALL }), gen()), check: check_c15, stack: BIG_STACK }),
            boxed(Section { name: "any", quick: 80_000, thorough: 1_200_000, strategy: |_| with(arena::pairs(None, 600), gen()), check: check_c15, stack: BIG_STACK }),
            boxed(Section { name: "cyclic", quick: 120_000, thorough: 1_800_000, strategy: |_| with(arena::pairs(Some(false), 300), gen()), check: check_c15, stack: BIG_STACK }),
            boxed(Section { name: "huge", quick: 96, thorough: 1_200, strategy: |t| huge(&arena::ALL_SHAPES, 12, hi(t), gen_hashed()), check: |c, x| check_c15(&c.graph(), x), stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C16

/// Classes by relabelling the members of the smaller class.
#[derive(Default)]
struct Model(BTreeMap<u32, usize>, Vec<Vec<u32>>);
impl Model {
    fn label(&mut self, x: u32) -> usize {
        let members = &mut self.1;
        *self.0.entry(x).or_insert_with(|| {
            members.push(vec![x]);
            members.len() - 1
        })
    }
    /// Whether already in the same class; joins the classes.
    fn query(&mut self, a: u32, b: u32) -> bool {
        let (x, y) = (self.label(a), self.label(b));
        if x == y {
            return true;
        }
        let (keep, gone) = if self.1[x].len() < self.1[y].len() { (y, x) } else { (x, y) };
        for m in std::mem::take(&mut self.1[gone]) {
            self.0.insert(m, keep);
            self.1[keep].push(m);
        }
        false
    }
}

fn check_c16(c: &G<Gen>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let x = &c.x;
    let ch = Choice { premade_table: false, ..x.choice(g) };
    let ch = Choice { all_modes: FULL[ch.limits], ..ch };
    let l = ch.l();
    let bound = bound_of(g, l);
    let mode = ch.mode(ALL_M[x.pair as usize % 4]);
    setup(x.cfg(bound));
    st(|s| s.mlog = Some(Vec::new()));
    let env = Env::new(g).with_budget(op_budget(bound, g.max_degree()));
    let r = with_limits::<KRich, _>(ch.limits, false, Watched(mode, env.root(0), env.root(1)));
    let log = st(|s| s.mlog.take()).unwrap_or_default();
    teardown();
    let what = || format!("limits {l:?}, {mode:?} ({:?})", x.discipline);
    if !matches!(r, Out::Cmp(GOut::Ok(_))) {
        return Err(format!("{}: {r:?}", what()));
    }
    let mut model = Model::default();
    // Consecutive unseen pairs recorded.
    let mut count = 0_u32;
    // Of the present suspension: the number drawn, and the pairs that passed.
    let mut fast: Option<(u32, u32)> = None;
    let (mut draws, mut restarts, mut at) = (0, 0, 0);
    let mut i = 0;
    while i < log.len() {
        let MEv::DoEdges { a, b } = log[i] else { return Err(format!("{}: event {:?} outside of a query", what(), log[i])) };
        let (ia, ib) = (g.nodes[a as usize].id, g.nodes[b as usize].id);
        i += 1;
        let (mut active, mut rngs, mut answer) = (false, Vec::new(), None);
        while i < log.len() && answer.is_none() {
            match &log[i] {
                MEv::Get | MEv::Insert => active = true,
                MEv::Rng { end, got } => rngs.push((*end, *got)),
                MEv::Answer(x) => answer = Some(*x),
                MEv::DoEdges { .. } => return Err(format!("{}: nested query", what())),
            }
            i += 1;
        }
        let Some(answer) = answer else { return Err(format!("{}: query without an answer", what())) };
        let (c0, f0) = (count, fast);
        let here = || format!("{}: branch pair {at} ({a}, {b}), after {c0} consecutive unseen pairs, suspension (number, passed) {f0:?}", what());
        if !answer && !active {
            return Err(format!("{}: skipped although detection is suspended", here()));
        }
        if active {
            if !rngs.is_empty() {
                return Err(format!("{}: detection is active and a random number is drawn", here()));
            }
            if let Some((r, passed)) = fast {
                if passed < r {
                    return Err(format!("{}: detection is resumed too early", here()));
                }
                fast = None;
                count = 0;
            } else if count >= u32::from(l.slow) {
                return Err(format!("{}: detection is still active after the slow limit", here()));
            }
            let same = model.query(ia, ib);
            if same == answer {
                return Err(format!("{}: already equivalent: {same}, but descends: {answer}", here()));
            }
            if same {
                restarts += u32::from(count > 0);
                count = 0;
            } else {
                count += 1;
            }
        } else {
            match (&mut fast, rngs.as_slice()) {
                (None, [(end, got)]) => {
                    if count < l.slow.into() {
                        return Err(format!("{}: detection is suspended before the slow limit", here()));
                    }
                    if u32::from(*end) != u32::from(l.fast) + 1 {
                        return Err(format!("{}: random number of range {end} requested", here()));
                    }
                    draws += 1;
                    fast = Some((u32::from(*got), 1));
                }
                (None, rngs) => return Err(format!("{}: detection is not active, random numbers drawn: {rngs:?}", here())),
                (Some((r, passed)), []) => {
                    if *passed > *r {
                        return Err(format!("{}: detection is not resumed", here()));
                    }
                    *passed += 1;
                }
                (Some((r, passed)), [(end, got)]) => {
                    // The suspension ended, no slow phase between: impossible with a slow limit.
                    return Err(format!("{}: another random number {got} of {end} drawn during the suspension ({passed} of {r})", here()));
                }
                (Some(_), more) => return Err(format!("{}: random numbers {more:?} drawn", here())),
            }
        }
        at += 1;
    }
    ctx.class_if(draws > 0, "suspended");
    ctx.class_if(draws > 1, "suspended repeatedly");
    ctx.class_if(restarts > 0, "count restarted by a seen pair");
    ctx.nontrivial = at >= 6 && (draws > 0 || restarts > 0);
    Ok(())
}

/// The premade functions, seen through the hashing of identities.
fn check_c16_premade(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    guard_classes(g)?;
    for v in [V::Cycle, V::Robust] {
        let env = Env::new(g).with_budget(8 * op_budget(default_bound(g), g.max_degree()));
        *env.id_log.borrow_mut() = Some(Vec::new());
        trace_start();
        let r = run::<KCount>(v, &env);
        let trace = trace_take();
        let uses = env.id_log.borrow_mut().take().unwrap_or_default();
        if !matches!(r, Out::Cmp(_)) {
            return Err(format!("{v:?}: {r:?}"));
        }
        let mut active: Vec<bool> = vec![false; env.cmps.get() as usize + 1];
        for u in uses {
            active[u as usize] = true;
        }
        let mut model = Model::default();
        let (mut count, mut fast, mut n, mut at) = (0_u32, None::<u32>, 0, 0);
        for e in &trace {
            let Ev::Cmp(a, b) = *e else { continue };
            n += 1;
            let (x, y) = (&g.nodes[a as usize], &g.nodes[b as usize]);
            if !oracle::values_equal(g, a, b) || x.e.is_empty() || y.e.is_empty() {
                if active[n] {
                    return Err(format!("{v:?}: detection is used for nodes {a} and {b}, that are not a branch pair"));
                }
                continue;
            }
            let (c0, f0) = (count, fast);
            let here = || format!("{v:?}: branch pair {at} ({a}, {b}), after {c0} consecutive unseen pairs, suspended for {f0:?}");
            if active[n] {
                if count >= 40 && fast.is_none() {
                    return Err(format!("{}: detection is still active after the slow limit of 40", here()));
                }
                if fast.take().is_some() {
                    count = 0;
                }
                if model.query(x.id, y.id) {
                    count = 0;
                } else {
                    count += 1;
                }
            } else {
                let f = fast.unwrap_or(0);
                if f == 0 && count < 40 {
                    return Err(format!("{}: detection is suspended before the slow limit of 40", here()));
                }
                if f > 800 {
                    return Err(format!("{}: detection is suspended for more than 801 pairs", here()));
                }
                fast = Some(f + 1);
            }
            at += 1;
        }
        ctx.class_if(at > 0 && fast.is_some(), "premade: ended in a suspension");
        ctx.nontrivial |= at > 41;
    }
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "pairs of graphs x limits x scripted random numbers x recursion modes, every query of the interleaved descend mode observed with its uses of the table and of the random numbers, against an automaton with its own classes; and the premade functions observed through the hashing of identities; non-trivial: at least 6 branch pairs with a suspension or a restart of the count (premade: more than 41 branch pairs)",
        assumptions: &["the branch pair at which a random number is drawn may be counted or not"],
        sections: vec![
            boxed(Section { name: "each-small", quick: arena::each_size(arena::EACH_TINY), thorough: arena::each_size(arena::EACH_SMALL), strategy: |t| with(arena::each(match t { Tier::Quick => arena::EACH_TINY, Tier::Thorough => arena::EACH_SMALL }), gen()), check: check_c16, stack: BIG_STACK }),
            boxed(Section { name: "any", quick: 80_000, thorough: 1_200_000, strategy: |_| with(arena::pairs(None, 400), gen()), check: check_c16, stack: BIG_STACK }),
            boxed(Section { name: "cyclic", quick: 80_000, thorough: 1_200_000, strategy: |_| with(arena::pairs(Some(false), 200), gen()), check: check_c16, stack: BIG_STACK }),
            boxed(Section { name: "huge", quick: 64, thorough: 800, strategy: |t| huge(&arena::ALL_SHAPES, 12, hi(t), gen_hashed()), check: |c, x| check_c16(&c.graph(), x), stack: BIG_STACK }),
            boxed(Section { name: "premade", quick: 6_000, thorough: 100_000, strategy: |_| with(prop_oneof![2 => arena::shape(&arena::ALL_SHAPES, 1200, 2).prop_map(|s| s.build()).boxed(), 1 => arena::cover(arena::MEDIUM, None, 2).prop_map(|s| s.build()).boxed(), 1 => arena::cover(arena::LARGE, None, 2).prop_map(|s| s.build()).boxed()].boxed(), any::<u8>()), check: check_c16_premade, stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C17

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Ops {
    pub table: TabKind,
    pub arc: bool,
    pub premade: bool,
    pub q: Vec<(u32, u32)>,
}
impl Case for Ops {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        let n = self.q.len();
        let mut size = n / 2;
        while size > 0 {
            let mut i = 0;
            while i < n {
                let mut q = self.q.clone();
                q.drain(i..(i + size).min(n));
                out.push(Ops { q, ..self.clone() });
                i += size;
                if out.len() * n > 8_000_000 {
                    return out;
                }
            }
            size /= 2;
            if out.len() > 400 {
                break;
            }
        }
        out
    }
}

fn check_c17(c: &Ops, ctx: &mut Ctx) -> Result<(), String> {
    let n = c.q.iter().map(|q| q.0.max(q.1) as usize + 1).max().unwrap_or(1);
    let g = Arena { nodes: (0..n).map(|i| ANode { id: i as u32, ..ANode::default() }).collect(), roots: vec![0, 0] };
    let env = Env::new(&g);
    setup(Cfg { table: c.table, arc: c.arc, cell_budget: c.q.len() as u64 * (200 + 4 * n as u64) + 10_000, ..Cfg::default() });
    let r = guarded(|| {
        Out::Cmp(if c.premade {
            queries::<IP<hash_map::Table<HP<'_, '_, KRich, 1>>, 1, 0, 65535>>(c, &env, ctx)
        } else {
            queries::<IP<DynTab<'_, '_, KRich>, 1, 0, 65535>>(c, &env, ctx)
        })
    });
    let (ext, dup, inserts) = (rc_extent(), st(|s| s.dup_insert), st(|s| s.inserts));
    let left = RC_LIVE.with(|l| l.get());
    teardown();
    match r {
        Out::Cmp(r) => r?,
        Out::OverBudget => return Err("the class links are followed without end".into()),
        o => return Err(format!("{o:?}")),
    }
    let mut ids: Vec<u32> = c.q.iter().flat_map(|q| [q.0, q.1]).collect();
    ids.sort_unstable();
    ids.dedup();
    if !c.premade && (dup || inserts > ids.len() as u64) {
        return Err(format!("{inserts} table entries made for {} identities", ids.len()));
    }
    let _ = left;
    if ext > 32 * 1024 {
        return Err(format!("{ext} bytes of call stack used while releasing the classes"));
    }
    Ok(())
}

fn queries<'e, 'g: 'e, I: interleave::Params<Node = H<'e, 'g, KRich>>>(c: &Ops, env: &'e Env<'g>, ctx: &mut Ctx) -> Result<(), String> {
    let mut it = Interleave::<I>::default();
    let mut model = Model::default();
    let n = env.g.nodes.len() as u64;
    // A few constant steps, plus steps per link of two logarithmic paths.
    let most = 48 + 16 * u64::from(64 - n.leading_zeros());
    let (mut joins, mut hits, mut misses) = (0, 0, 0);
    for (i, (a, b)) in c.q.iter().enumerate() {
        let (ha, hb) = (H::<KRich>::make(env, *a, 0, 1), H::<KRich>::make(env, *b, 1, 1));
        let known = model.0.contains_key(a) && model.0.contains_key(b);
        let want = model.query(*a, *b);
        let before = CELLS.with(|c| c.get());
        let Ok(descend) = <Interleave<I> as DescendMode<EpC<I>>>::do_edges(&mut it, &ha, &hb);
        let touched = CELLS.with(|c| c.get()) - before;
        if descend == want {
            return Err(format!("query {i} of {a} and {b}: answered already equivalent: {}, but the closure of the earlier queries says {want}", !descend));
        }
        if touched > most {
            return Err(format!("query {i} of {a} and {b} accesses class cells {touched} times, with {n} identities (bound {most})"));
        }
        joins += u64::from(known && !want);
        hits += u64::from(want);
        misses = if want { 0 } else { misses + 1 };
        if misses >= 65_000 {
            // Keeps detection active.
            let Ok(descend) = <Interleave<I> as DescendMode<EpC<I>>>::do_edges(&mut it, &hb, &ha);
            if descend {
                return Err(format!("query {i} of {a} and {b}, repeated the other way around: not answered already equivalent"));
            }
            misses = 0;
        }
    }
    ctx.class_if(joins > 0, "classes were merged");
    ctx.class_if(joins >= 16, "at least 16 merges");
    ctx.class_if(n >= 200, "at least 200 identities");
    ctx.nontrivial = joins >= 2 && hits >= 1;
    Ok(())
}

/// Sequences of queries, made of patterns.
fn ops(max: u32) -> BoxedStrategy<Ops> {
    let seg = (0..8_u8, 2..max, any::<u32>(), any::<u64>());
    (super::limits::table(), any::<bool>(), prop::bool::weighted(0.2), prop::collection::vec(seg, 1..5))
        .prop_map(move |(table, arc, premade, segs)| {
            let mut q: Vec<(u32, u32)> = Vec::new();
            for (kind, n, base, seed) in segs {
                let mut s = seed | 1;
                let mut r = |m: u64| {
                    s ^= s << 13;
                    s ^= s >> 7;
                    s ^= s << 17;
                    (s % m.max(1)) as u32
                };
                let base = base % max;
                let at = |i: u64| ((u64::from(base) + i) % u64::from(max)) as u32;
                let m = u64::from(n);
                match kind {
                    // Anything among n.
                    0 | 1 => (0..m + u64::from(r(m))).for_each(|_| q.push((at(r(m).into()), at(r(m).into())))),
                    // Binary tournament: the deepest links.
                    2 => {
                        let mut step = 1;
                        while step < m {
                            let mut i = 0;
                            while i + step < m {
                                q.push((at(i), at(i + step)));
                                i += 2 * step;
                            }
                            step *= 2;
                        }
                    }
                    // Pairs, then a chain over them.
                    3 => {
                        (0..m / 2).for_each(|i| q.push((at(2 * i), at(2 * i + 1))));
                        let flip = r(2) == 0;
                        (0..(m / 2).saturating_sub(1)).for_each(|i| q.push(if flip { (at(2 * i), at(2 * i + 2)) } else { (at(2 * i + 2), at(2 * i)) }));
                        q.push((at(0), at(m - 1)));
                        q.push((at(1), at(m / 2)));
                    }
                    // Star.
                    4 => (1..m).for_each(|i| q.push(if r(2) == 0 { (at(0), at(i)) } else { (at(i), at(0)) })),
                    // Path.
                    5 => (1..m).for_each(|i| q.push((at(i - 1), at(i)))),
                    // Repeat some earlier ones, in either direction.
                    6 => {
                        let len = q.len() as u64;
                        if len > 0 {
                            for _ in 0..m.min(100) {
                                let (a, b) = q[r(len) as usize];
                                q.push(if r(2) == 0 { (a, b) } else { (b, a) });
                            }
                        }
                    }
                    // Pairs, then a tournament over the last of each pair, then the first ones.
                    _ => {
                        (0..m / 2).for_each(|i| q.push((at(2 * i), at(2 * i + 1))));
                        let mut step = 1;
                        while step < m / 2 {
                            let mut i = 0;
                            while i + step < m / 2 {
                                q.push((at(2 * (i + step) + 1), at(2 * i + 1)));
                                i += 2 * step;
                            }
                            step *= 2;
                        }
                        (0..(m / 2).min(50)).for_each(|i| q.push((at(2 * i), at(2 * u64::from(r(m / 2))))));
                    }
                }
            }
            // (The pairs of identical nodes never reach the classes.)
            q.retain(|x| x.0 != x.1);
            Ops { table, arc, premade, q }
        })
        .boxed()
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "sequences of queries of pairs of distinct identities (random, tournaments, chains, stars, paths, repetitions) x four tables x two shared pointers, each answer against a model that relabels classes; accesses of class cells per query at most 48 + 16 * bits(n); one entry per identity; non-trivial: at least 2 merges of existing classes and a query answered as already equivalent",
        assumptions: &["identical nodes never reach the class mechanism (C06), so pairs of one identity are not queried"],
        sections: vec![
            boxed(Section { name: "small", quick: 300_000, thorough: 4_000_000, strategy: |_| ops(12), check: check_c17, stack: 8 << 20 }),
            boxed(Section { name: "large", quick: 24_000, thorough: 300_000, strategy: |_| ops(400), check: check_c17, stack: 8 << 20 }),
            boxed(Section { name: "huge", quick: 300, thorough: 4_000, strategy: |t| ops(if t == Tier::Quick { 3000 } else { 9000 }), check: check_c17, stack: 64 << 20 }),
            boxed(Section { name: "giant", quick: 24, thorough: 400, strategy: |_| ops(200_000).prop_map(|o| Ops { table: if o.table == TabKind::Vec { TabKind::Hash } else { o.table }, ..o }).boxed(), check: check_c17, stack: 64 << 20 }),
        ],
    }
}
