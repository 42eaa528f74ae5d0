//! C07, C08: limited comparison, precheck.

use super::*;
use graph_safe_compare::basic::modes::limited::LimitReached;
use graph_safe_compare::{basic, deep_safe, wide_safe, Cmp as _};
use std::cmp::Ordering as O;

// ---------------------------------------------------------------------------------------- C07

/// How the limit is chosen relative to what is needed.
#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Lim {
    pub how: u8,
    pub raw: u16,
    /// Limit type.
    pub ty: u8,
}
impl Extra for Lim {}

fn rich_matches(got: &Rich, want: Diff) -> bool {
    match (got, want) {
        (Rich::Equiv, Diff::None) => true,
        (Rich::Val { a, b, serial }, Diff::Val(x, y)) => (*a, *b) == (x, y) && *serial == 1,
        (Rich::Edges(o), Diff::Edges(_, _, p)) => *o == p,
        _ => false,
    }
}

fn limited<'e, 'g, K: Kind<'g>>(v: V, ty: u8, l: u128, a: H<'e, 'g, K>, b: H<'e, 'g, K>) -> Out<K::Cmp> {
    fn o<C>(r: Result<C, LimitReached>) -> Out<C> {
        match r {
            Ok(c) => Out::Cmp(c),
            Err(LimitReached) => Out::Limit,
        }
    }
    macro_rules! by {
        ($m:ident) => {
            match ty % 6 {
                0 => o($m::limited_equiv(l as u8, a, b)),
                1 => o($m::limited_equiv(l as u16, a, b)),
                2 => o($m::limited_equiv(l as u32, a, b)),
                3 => o($m::limited_equiv(l as u64, a, b)),
                4 => o($m::limited_equiv(l, a, b)),
                _ => o($m::limited_equiv(l as usize, a, b)),
            }
        };
    }
    guarded(move || match v {
        V::BasicLim => by!(basic),
        V::DeepLim => by!(deep_safe),
        _ => by!(wide_safe),
    })
}

fn check_c07(c: &G<Lim>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let cap = if g.nodes.len() > 4_000 { 400_000 } else { 30_000 };
    for v in [V::BasicLim, V::DeepLim, V::WideLim] {
        let order = if v.bfs() { Order::Bfs } else { Order::Dfs };
        let full = Sim::new(g, order, Dedupe::Off).max(cap).traced().run();
        let need = full.pairs;
        let max: u128 = match c.x.ty % 6 {
            0 => u8::MAX.into(),
            1 => u16::MAX.into(),
            2 => u32::MAX.into(),
            4 => u128::MAX,
            _ => u64::MAX.into(),
        };
        let (need_l, raw) = (u128::from(need), u128::from(c.x.raw));
        let l = match c.x.how % 12 {
            0 => need_l.saturating_sub(1),
            1 | 2 => need_l,
            3 => need_l + 1,
            4 => 0,
            5 => 1,
            6 => raw % (need_l + 1),
            7 => raw % 300,
            8 => max - raw % 3,
            // A small number above a power of two, which is insufficient if cut off to a smaller type.
            9 | 10 => (1_u128 << [7, 8, 15, 16, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127][c.x.raw as usize / 4 % 14]) + raw % 4,
            _ => max,
        }
        .min(max);
        // Only this many matter.
        let matter = u64::try_from(l).unwrap_or(u64::MAX);
        if full.truncated && matter >= need {
            // Would not end (or not soon).
            ctx.class("skipped: unfolding too large for the limit");
            continue;
        }
        let env = Env::new(g).with_budget(op_budget(need.min(matter).saturating_add(1), g.max_degree()));
        trace_start();
        let got = limited::<KRich>(v, c.x.ty, l, env.root(0), env.root(1));
        let cmps: Vec<(u32, u32)> = trace_take().iter().filter_map(|e| if let Ev::Cmp(a, b) = e { Some((*a, *b)) } else { None }).collect();
        let enough = !full.truncated && need <= matter;
        let want: Vec<(u32, u32)> = full.cmps.iter().filter(|x| x.2 <= matter).map(|x| (x.0, x.1)).collect();
        ctx.class_if(enough, "sufficient limit");
        ctx.class_if(!enough, "insufficient limit");
        ctx.class_if(need == matter, "limit exactly what is needed");
        ctx.class_if(need > 0 && need - 1 == matter, "limit one too small");
        ctx.class_if(!enough && !g.is_acyclic(), "aborted cyclic");
        ctx.class_if(l > u128::from(u32::MAX) && l < max - 3, "limit above 32 bits");
        ctx.class_if(full.identical > 0, "identical pairs counted");
        ctx.nontrivial |= need >= 4 && matter >= 2 && matter >= need.min(400).saturating_sub(2);
        let ok = match &got {
            Out::Cmp(x) => enough && rich_matches(x, full.diff),
            Out::Limit => !enough,
            _ => false,
        };
        if !ok {
            return Err(format!(
                "{v:?} with limit {l} of type {} gives {got:?}; {} pairs are needed{}; without limit: {:?}",
                ["u8", "u16", "u32", "u64", "u128", "usize"][c.x.ty as usize % 6],
                need,
                if full.truncated { " at least" } else { "" },
                if full.truncated { None } else { Some(full.diff) }
            ));
        }
        if cmps != want {
            return Err(format!("{v:?} with limit {l} compared {} pairs, but the first {l} traversed pairs contain {} non-identical ones (or in another order)", cmps.len(), want.len()));
        }
    }
    Ok(())
}

fn lim() -> impl Strategy<Value = Lim> {
    (any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(how, raw, ty)| Lim { how, raw, ty })
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "pairs of acyclic and cyclic graphs, with limits at, around and far from the number of pairs that the unlimited traversal needs, in six limit types and three variants; non-trivial: at least 4 pairs are needed, and the limit is at least 2 and large enough to get within 2 of the needed pairs (or of 400)",
        assumptions: &["needed pairs are counted by a literal simulation, up to 30000 (400000 on the largest graphs)"],
        sections: vec![
            boxed(Section { name: "acyclic", quick: 120_000, thorough: 1_500_000, strategy: |_| with(arena::tree_like(1500, 2000, 2), lim()), check: check_c07, stack: BIG_STACK }),
            boxed(Section { name: "any", quick: 60_000, thorough: 800_000, strategy: |_| with(arena::pairs(None, 1000), lim()), check: check_c07, stack: BIG_STACK }),
            boxed(Section { name: "small", quick: 120_000, thorough: 1_500_000, strategy: |_| with(arena::cover(arena::with_cap(arena::SMALL, 250), Some(true), 2).prop_map(|c| c.build()).boxed(), lim()), check: check_c07, stack: BIG_STACK }),
            boxed(Section { name: "huge", quick: 160, thorough: 2_000, strategy: |t| huge(&arena::ALL_SHAPES, 12, hi(t), lim()), check: |c, x| check_c07(&c.graph(), x), stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C08

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Pre {
    pub limits: u8,
    pub pair: u8,
    pub discipline: Discipline,
    pub table: TabKind,
    pub premade_table: bool,
    pub rng: Vec<u16>,
    pub sched: Vec<u16>,
}
impl Extra for Pre {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        if self.rng.len() > 1 {
            out.push(Pre { rng: self.rng[..1].to_vec(), ..self.clone() });
        }
        if self.sched.len() > 1 {
            out.push(Pre { sched: self.sched[..1].to_vec(), ..self.clone() });
        }
        if self.discipline != Discipline::Stack {
            out.push(Pre { discipline: Discipline::Stack, ..self.clone() });
        }
        out
    }
}
pub fn discipline() -> impl Strategy<Value = Discipline> {
    prop::sample::select(&[Discipline::CallStack, Discipline::Stack, Discipline::Queue, Discipline::Random, Discipline::Eager, Discipline::Reverse][..])
}
pub fn table() -> impl Strategy<Value = TabKind> {
    prop::sample::select(&[TabKind::BTree, TabKind::Hash, TabKind::Vec][..])
}
pub fn rng() -> impl Strategy<Value = Vec<u16>> {
    prop_oneof![
        1 => Just(vec![0]),
        1 => Just(vec![u16::MAX]),
        2 => prop::collection::vec(prop_oneof![0..4_u16, any::<u16>(), Just(u16::MAX)], 1..6),
    ]
}
fn pre() -> impl Strategy<Value = Pre> {
    (0..20_u8, 0..12_u8, discipline(), table(), prop::bool::weighted(0.2), rng(), prop::collection::vec(any::<u16>(), 0..6))
        .prop_map(|(limits, pair, discipline, table, premade_table, rng, sched)| Pre { limits, pair, discipline, table, premade_table, rng, sched })
}

fn cmps(t: &[Ev]) -> Vec<(u32, u32)> {
    t.iter().filter_map(|e| if let Ev::Cmp(a, b) = e { Some((*a, *b)) } else { None }).collect()
}

/// The order of the precheck stage, if it is one of the two documented ones.
fn order_of(m: Mode, d: Discipline) -> Option<Order> {
    match (m, d) {
        (Mode::CallStack | Mode::Stack, _) => Some(Order::Dfs),
        (Mode::Queue, _) => Some(Order::Bfs),
        (Mode::Flex, Discipline::CallStack | Discipline::Stack) => Some(Order::Dfs),
        (Mode::Flex, Discipline::Queue) => Some(Order::Bfs),
        _ => None,
    }
}

fn check_c08(c: &G<Pre>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let x = &c.x;
    let mut ch = Choice::new(x.limits, x.premade_table);
    if g.nodes.len() > 6 && (ch.limits == 10 || ch.limits == 12 && g.nodes.len() < 4_000) {
        // Would take too long: many phases of 65535 pairs.
        ch.limits -= 3;
    }
    let l = ch.l();
    let pair = ch.pair(x.pair.into());
    let (pm, mm) = PAIRS[pair];
    let exact = oracle::verdict(g, g.a(), g.b()) == Diff::None;
    guard_classes(g)?;
    let bound = oracle::work_bound(g.branch_ids(&g.roots), g.max_degree(), l.slow.max(1).into(), l.fast.into());
    let budget = op_budget(bound + u64::from(l.pre) + 10, g.max_degree());
    let cfg = Cfg {
        discipline: x.discipline,
        table: x.table,
        rng: x.rng.clone(),
        sched: x.sched.clone(),
        cell_budget: bound.saturating_mul(300) + 10_000,
        ..Cfg::default()
    };
    // Reference: only the main comparison.
    setup(cfg.clone());
    let env = Env::new(g).with_budget(budget);
    trace_start();
    let alone = with_limits::<KRich, _>(ch.limits, ch.premade_table, Alone(mm, env.root(0), env.root(1)));
    let alone_cmps = cmps(&trace_take());
    // With precheck.
    setup(cfg);
    let env = Env::new(g).with_budget(budget);
    trace_start();
    let got = with_limits::<KRich, _>(ch.limits, ch.premade_table, WithPre(pair, env.root(0), env.root(1)));
    let got_cmps = cmps(&trace_take());
    let gets = st(|s| s.gets);
    teardown();
    let (alone, got) = match (alone, got) {
        (Out::Cmp(GOut::Ok(a)), Out::Cmp(GOut::Ok(b))) => (a, b),
        (a, b) => return Err(format!("limits {l:?}, {pm:?} then {mm:?}: without precheck {a:?}, with {b:?}")),
    };
    if alone.is_equiv() != exact || got.is_equiv() != exact {
        return Err(format!("limits {l:?}, {pm:?} then {mm:?}: without precheck {alone:?}, with {got:?}, reference {exact}"));
    }
    let pre_limit = u64::from(l.pre);
    match order_of(pm, x.discipline) {
        Some(order) => {
            let sim = Sim::new(g, order, Dedupe::Off).max(pre_limit).traced().run();
            let mut want: Vec<(u32, u32)> = sim.cmps.iter().map(|x| (x.0, x.1)).collect();
            let n_pre = want.len();
            ctx.class_if(sim.truncated, "precheck aborted");
            ctx.class_if(!sim.truncated, "precheck completed");
            ctx.class_if(sim.truncated && l.pre == 0, "no precheck");
            ctx.class_if(sim.truncated && !g.is_acyclic(), "precheck aborted on a cyclic graph");
            ctx.class_if(sim.truncated && sim.peak_pending >= 2, "aborted with pending work");
            ctx.nontrivial = sim.truncated && sim.pairs >= 2 && alone_cmps.len() >= 3;
            if sim.truncated {
                want.extend(&alone_cmps);
                if got != alone {
                    return Err(format!("limits {l:?}, {pm:?} then {mm:?}: after an aborted precheck the result is {got:?}, without precheck {alone:?}"));
                }
            } else {
                if !rich_matches(&got, sim.diff) {
                    return Err(format!("limits {l:?}, {pm:?}: the precheck completes, but the result is {got:?} instead of {:?}", sim.diff));
                }
                if gets > 0 {
                    return Err(format!("limits {l:?}, {pm:?}: the precheck completes, but shared-structure detection is done"));
                }
            }
            if got_cmps != want {
                let at = got_cmps.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got_cmps.len().min(want.len()));
                return Err(format!(
                    "limits {l:?}, {pm:?} then {mm:?}: comparison number {at} is of {:?}, expected {:?} ({} comparisons by the precheck, aborted: {}; {} by the main comparison alone; {} in total)",
                    got_cmps.get(at),
                    want.get(at),
                    n_pre,
                    sim.truncated,
                    alone_cmps.len(),
                    got_cmps.len()
                ));
            }
        }
        None => {
            ctx.class("precheck in another order");
            ctx.nontrivial = gets > 0 && alone_cmps.len() >= 3;
            if gets > 0 {
                // Aborted: the end of the sequence is that of the main comparison alone.
                if !got_cmps.ends_with(&alone_cmps) || got != alone {
                    return Err(format!("limits {l:?}, {pm:?} then {mm:?}: after an aborted precheck the main comparison does not start afresh"));
                }
                let n_pre = got_cmps.len() - alone_cmps.len();
                if n_pre as u64 > pre_limit {
                    return Err(format!("limits {l:?}, {pm:?}: the precheck compared {n_pre} pairs"));
                }
            }
        }
    }
    Ok(())
}

fn check_c08_premade(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    guard_classes(g)?;
    for (with, without, order) in [(V::CyclePre, V::Cycle, Order::Dfs), (V::RobustPre, V::Robust, Order::Bfs)] {
        let budget = op_budget(default_bound(g), g.max_degree());
        let env = Env::new(g).with_budget(budget);
        trace_start();
        let alone = run::<KRich>(without, &env);
        let alone_cmps = cmps(&trace_take());
        let env = Env::new(g).with_budget(budget);
        trace_start();
        let got = run::<KRich>(with, &env);
        let got_cmps = cmps(&trace_take());
        let sim = Sim::new(g, order, Dedupe::Off).max(400).traced().run();
        let mut want: Vec<(u32, u32)> = sim.cmps.iter().map(|x| (x.0, x.1)).collect();
        ctx.class_if(sim.truncated, "default precheck aborted");
        ctx.class_if(!sim.truncated, "default precheck completed");
        ctx.nontrivial |= sim.truncated;
        let ok = if sim.truncated {
            want.extend(&alone_cmps);
            got == alone
        } else {
            matches!(&got, Out::Cmp(r) if rich_matches(r, sim.diff))
        };
        if !ok || got_cmps != want {
            return Err(format!(
                "{with:?}: {got:?} after {} comparisons; {without:?} gives {alone:?} after {}; the precheck alone {:?} after {} (aborted: {})",
                got_cmps.len(),
                alone_cmps.len(),
                sim.diff,
                sim.cmps.len(),
                sim.truncated
            ));
        }
    }
    let _ = c.x;
    let _ = O::Less;
    Ok(())
}

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Conv {
    /// How the first comparison ends: 0 by itself, 1 error of `do_traverse`, 2 error of `do_edges`,
    /// 3 error of `recur`, 4 panic of a node method.
    pub end: u8,
    pub at: u16,
    pub mode: u8,
    /// Whether by `Equiv::from`, else by `Equiv::into`.
    pub from: bool,
    pub swap: bool,
    pub discipline: Discipline,
    pub rng: Vec<u16>,
}
impl Extra for Conv {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        if self.at > 0 {
            out.push(Conv { at: self.at / 2, ..self.clone() });
            out.push(Conv { at: self.at - 1, ..self.clone() });
        }
        if self.rng.len() > 1 {
            out.push(Conv { rng: self.rng[..1].to_vec(), ..self.clone() });
        }
        out
    }
}
fn conv() -> impl Strategy<Value = Conv> {
    (0..5_u8, prop_oneof![0..12_u16, 0..100_u16], 0..4_u8, any::<(bool, bool)>(), discipline(), rng())
        .prop_map(|(end, at, mode, (from, swap), discipline, rng)| Conv { end, at, mode, from, swap, discipline, rng })
}

/// A precheck made by hand: the state of a comparison that ended anyhow is converted.
fn check_c08_converted(c: &G<Conv>, ctx: &mut Ctx) -> Result<(), String> {
    type I<'e, 'g> = IP<DynTab<'e, 'g, KRich>, 7, 20, 5>;
    let g = &c.arena;
    let x = &c.x;
    guard_classes(g)?;
    let mode = ALL_M[usize::from(x.mode) % 4];
    let bound = oracle::work_bound(g.branch_ids(&g.roots), g.max_degree(), 5, 20);
    let budget = op_budget(bound + 3_000, g.max_degree());
    let main = Cfg { discipline: x.discipline, rng: x.rng.clone(), cell_budget: bound.saturating_mul(300) + 10_000, ..Cfg::default() };
    setup(main.clone());
    let env = Env::new(g).with_budget(budget);
    trace_start();
    let alone = interleaved::<KRich, I>(mode, env.root(0), env.root(1));
    let alone_cmps = cmps(&trace_take());
    // The first comparison is cut short after at most 1000 pairs anyway.
    let mut cfg = Cfg { traverse: vec![YES; 1000], ..main.clone() };
    cfg.traverse.push(ERR);
    let at = usize::from(x.at);
    match x.end {
        1 => cfg.traverse[at] = ERR,
        2 => {
            cfg.descend = vec![YES; at];
            cfg.descend.push(ERR);
        }
        3 => cfg.recur_err = Some(at as u64),
        _ => (),
    }
    setup(cfg);
    let env = Env::new(g).with_budget(budget);
    let (f0, f1) = if x.swap { (1, 0) } else { (0, 1) };
    let first = [env.root_of::<KRich>(f0, 0), env.root_of(f1, 1)];
    if x.end == 4 {
        env.fuse.set(x.at.into());
    }
    let second = [env.root(0), env.root(1)];
    let mut first_end = None;
    let mut left = 0;
    let got = converted::<KRich, I>(mode, x.from, first, second, |r| {
        left = env.live.get() - 2;
        first_end = Some(r);
        // The interleave has its own numbers, and is not disturbed.
        setup(main);
        env.fuse.set(u64::MAX);
        env.serial.set(0);
        trace_start();
    });
    let got_cmps = cmps(&trace_take());
    let after = env.live.get();
    teardown();
    let first_end = first_end.unwrap();
    let early = !matches!(&first_end, Out::Cmp(GOut::Ok(r)) if r.is_equiv());
    ctx.class_if(matches!(&first_end, Out::Cmp(GOut::Err(_))), "first ended by an error");
    ctx.class_if(matches!(&first_end, Out::Fuse), "first ended by a panic");
    ctx.class_if(matches!(&first_end, Out::Cmp(GOut::Ok(r)) if !r.is_equiv()), "first ended by a difference");
    ctx.class_if(!early, "first completed");
    ctx.nontrivial = early && alone_cmps.len() >= 3 && mode != Mode::CallStack;
    if left != 0 {
        return Err(format!("{mode:?}: after a comparison that ended with {first_end:?}, and the conversion of its state, {left} node handles are still held"));
    }
    if got != alone || got_cmps != alone_cmps {
        return Err(format!("{mode:?}: after a comparison that ended with {first_end:?}, the converted state gives {got:?} with comparisons {got_cmps:?}, instead of {alone:?} with {alone_cmps:?}"));
    }
    if after != 0 {
        return Err(format!("{mode:?}: {after} node handles are left behind"));
    }
    Ok(())
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        rule: "pairs of graphs x 20 choices of limits x 12 pairs of recursion modes x scripted random numbers and resumption orders, plus the premade precheck functions; the sequence of compared pairs must be the first pairs of the literal traversal, followed, only if the precheck aborts, by the very sequence of the comparison without precheck; also the state of a comparison that ended anyhow (completed, different, error of any mode call, panic) is converted by hand, must hold no node, and must then compare like a new one; non-trivial: the precheck aborts after at least 2 pairs and the main comparison compares at least 3",
        assumptions: &["random numbers are scripted, so that the main stage is the same with and without precheck"],
        sections: vec![
            boxed(Section { name: "generic", quick: 60_000, thorough: 900_000, strategy: |_| with(arena::pairs(None, 400), pre()), check: check_c08, stack: BIG_STACK }),
            boxed(Section { name: "cyclic", quick: 40_000, thorough: 600_000, strategy: |_| with(arena::pairs(Some(false), 200), pre()), check: check_c08, stack: BIG_STACK }),
            boxed(Section { name: "converted", quick: 60_000, thorough: 900_000, strategy: |_| with(arena::pairs(None, 120), conv()), check: check_c08_converted, stack: BIG_STACK }),
            boxed(Section { name: "huge", quick: 96, thorough: 1_200, strategy: |t| huge(&arena::ALL_SHAPES, 12, hi(t), (prop::sample::select(&[12_u8, 12, 0, 11, 13][..]), pre()).prop_map(|(limits, p)| Pre { limits, premade_table: false, table: TabKind::Hash, ..p })), check: |c, x| check_c08(&c.graph(), x), stack: BIG_STACK }),
            boxed(Section { name: "premade", quick: 8_000, thorough: 120_000, strategy: |_| with(prop_oneof![arena::cover(arena::MEDIUM, None, 2).prop_map(|c| c.build()), arena::shape(&arena::ALL_SHAPES, 900, 2).prop_map(|s| s.build()), arena::pairs(None, 900)].boxed(), any::<u8>()), check: check_c08_premade, stack: BIG_STACK }),
        ],
    }
}
