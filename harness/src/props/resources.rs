//! C09-C11: call stack, pending work, releases.

use super::*;
use crate::alloc;
use crate::node::too_deep;

// ---------------------------------------------------------------------------------------- C09

/// Stack that a traversal may use between its node calls, whatever the graphs.
const STACK_BOUND: usize = 32 * 1024;
/// Stack per level of depth of the variants that recur on the call stack.
const PER_LEVEL: usize = 4096;

fn c09_bound(v: V, g: &Arena, height: usize) -> Option<usize> {
    if !v.call_stack() {
        return Some(STACK_BOUND);
    }
    g.is_acyclic().then(|| STACK_BOUND + PER_LEVEL * (height + 1))
}

fn check_c09(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let acyclic = g.is_acyclic();
    let height = if acyclic { g.height() } else { 0 };
    let tree = acyclic && [Order::Bfs, Order::Dfs].iter().all(|o| !Sim::new(g, *o, Dedupe::Off).max(40_000).run().truncated);
    guard_classes(g)?;
    let big = g.nodes.len() >= 300;
    ctx.class_if(acyclic && height >= 300, "deep");
    ctx.class_if(g.max_degree() >= 300, "wide");
    ctx.class_if(!acyclic, "cyclic");
    for v in ALL_V {
        let limit = if v.limited() { 40_000 } else { u64::MAX };
        if !v.detects() && !v.limited() && !tree {
            continue;
        }
        if !v.detects() && !tree && v == V::BasicLim {
            // Unbounded recursion by design.
            continue;
        }
        if v.call_stack() && !v.detects() && height > 20_000 {
            continue;
        }
        let Some(bound) = c09_bound(v, g, height) else { continue };
        if bound > BIG_STACK / 4 * 3 {
            // More than the harness has.
            continue;
        }
        // Room for a long literal traversal by the limited variants.
        let budget = op_budget(default_bound(g).max(40_000), g.max_degree());
        let env = Env::new(g).with_budget(budget);
        let r = run_nodes::<KCount>(v, limit, env.root(0), env.root(1));
        if too_deep() {
            return Err(format!("{v:?} uses nearly all of the call stack, on graphs of height {height} (bound {bound})"));
        }
        if !matches!(r, Out::Cmp(_) | Out::Limit) {
            return Err(format!("{v:?}: {r:?}"));
        }
        ctx.nontrivial |= big && env.cmps.get() >= 300;
        ctx.class_if(v.call_stack() && env.extent() > STACK_BOUND, "call-stack variant uses stack in proportion to depth");
        if env.extent() > bound {
            return Err(format!(
                "{v:?} uses {} bytes of call stack on graphs of height {height}, at most {} edges per node and {} nodes (bound {bound})",
                env.extent(),
                g.max_degree(),
                g.nodes.len()
            ));
        }
    }
    // The classes' own links, with observable releases.
    for (i, mode) in [(0_usize, Mode::Queue), (3, Mode::Stack), (8, Mode::Queue), (14, Mode::Stack)] {
        let l = LIMITS[i];
        let bound = oracle::work_bound(g.branch_ids(&g.roots), g.max_degree(), l.slow.into(), l.fast.into());
        setup(Cfg { table: TabKind::Hash, rng: vec![c.x.into()], cell_budget: bound.saturating_mul(300) + 10_000, ..Cfg::default() });
        let env = Env::new(g).with_budget(op_budget(bound, g.max_degree()));
        let r = with_limits::<KRich, _>(i, false, Alone(mode, env.root(0), env.root(1)));
        let ext = rc_extent();
        teardown();
        if too_deep() {
            return Err(format!("limits {l:?}, {mode:?}: uses nearly all of the call stack (bound {STACK_BOUND})"));
        }
        if !matches!(r, Out::Cmp(GOut::Ok(_))) {
            return Err(format!("limits {l:?}, {mode:?}: {r:?}"));
        }
        if ext > STACK_BOUND || env.extent() > STACK_BOUND {
            return Err(format!("limits {l:?}, {mode:?}: {} bytes of call stack used during traversal, {ext} while releasing the classes (bound {STACK_BOUND})", env.extent()));
        }
    }
    Ok(())
}

pub fn c09() -> Prop {
    let shapes_stack = 256 << 20;
    Prop {
        id: "C09",
        level: "exploration",
        rule: "pairs of deep, wide, shared and cyclic graphs; the extent of stack addresses over all node calls, handle releases, identity releases and class releases of one comparison is bounded by 32 KiB (call-stack variants, on acyclic graphs: plus 4 KiB per level of height); non-trivial: at least 300 nodes and at least 300 pairs compared",
        assumptions: &["built with opt-level 2; frames that make no call into the node type, its identities or the class pointers are not observed"],
        sections: vec![
            boxed(Section { name: "shapes", quick: 3_000, thorough: 40_000, strategy: |t| with(arena::shape(&arena::ALL_SHAPES, if t == Tier::Quick { 3_000 } else { 30_000 }, 2).prop_map(|s| s.build()).boxed(), any::<u8>()), check: check_c09, stack: shapes_stack }),
            boxed(Section { name: "huge", quick: 48, thorough: 800, strategy: |t| huge(&arena::ALL_SHAPES, 12, hi(t), any::<u8>()), check: |c, x| check_c09(&c.graph(), x), stack: BIG_STACK }),
            boxed(Section { name: "covers", quick: 4_000, thorough: 60_000, strategy: |_| with(prop_oneof![arena::cover(arena::LARGE, None, 2).prop_map(|c| c.build()), arena::cover(arena::MEDIUM, None, 2).prop_map(|c| c.build()), arena::tree_like(4000, 3000, 2)].boxed(), any::<u8>()), check: check_c09, stack: shapes_stack }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C10

fn check_c10(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let mut runs: Vec<(String, u64, usize, i64)> = Vec::new();
    for v in [V::Deep, V::DeepLim, V::Wide, V::WideLim] {
        let order = if v.bfs() { Order::Bfs } else { Order::Dfs };
        let cap = if g.nodes.len() > 8_000 { 400_000 } else { 60_000 };
        let limit = if v.limited() { if c.x % 2 == 0 { cap } else { u64::from(c.x) * 50 } } else { u64::MAX };
        let sim = Sim::new(g, order, Dedupe::Off).max(cap.min(limit)).run();
        if sim.truncated && !v.limited() {
            continue;
        }
        let env = Env::new(g).with_budget(op_budget(sim.pairs + 1, g.max_degree()));
        let (a, b) = (env.root(0), env.root(1));
        alloc::reset_peak();
        let before = alloc::net();
        let r = run_nodes::<KOrd>(v, limit, a, b);
        let bytes = alloc::peak() - before;
        if matches!(r, Out::OverBudget | Out::Panic(_) | Out::Fuse) {
            return Err(format!("{v:?}: {r:?}"));
        }
        ctx.nontrivial |= sim.pairs >= 100 && (sim.peak_pending as u64) < sim.pairs / 4;
        ctx.class_if(sim.pairs >= 100 && sim.peak_pending <= 3, "constant pending work");
        ctx.class_if(sim.peak_pending >= 100, "much pending work");
        ctx.class_if(sim.peak_pending >= 100 && sim.pairs as usize > 4 * sim.peak_pending, "much pending work but far more pairs");
        let live = env.peak_live.get();
        runs.push((format!("{v:?}"), sim.pairs, sim.peak_pending, bytes));
        check_pending(&format!("{v:?}"), sim.pairs, sim.peak_pending, live, bytes)?;
    }
    Ok(())
}

/// Handles alive at once: two per pending pair (its parents), the pair in hand, and those in motion.
fn check_pending(what: &str, pairs: u64, pending: usize, live: i64, bytes: i64) -> Result<(), String> {
    let bound = 2 * pending as i64 + 8;
    if live > bound {
        return Err(format!("{what}: {live} node handles are alive at once, but at most {pending} branch pairs have unvisited edges at a time (bound {bound}; {pairs} pairs in total)"));
    }
    // Growth by doubling, both buffers alive while moving, items of at most 400 bytes.
    let bound = 16 * 1024 + 3 * 400 * pending as i64;
    if bytes > bound {
        return Err(format!("{what}: {bytes} bytes are allocated at once, but at most {pending} branch pairs have unvisited edges at a time (bound {bound}; {pairs} pairs in total)"));
    }
    Ok(())
}

/// At every single comparison of values: two handles per pair with unvisited edges, and the pair in hand.
fn check_c10_moments(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let tree = g.is_acyclic() && !g.has_sharing();
    for v in [V::Deep, V::DeepLim, V::Wide, V::WideLim, V::Robust, V::RobustPre] {
        if v.detects() && !tree {
            continue;
        }
        let order = if v.bfs() { Order::Bfs } else { Order::Dfs };
        let limit = if v.limited() { 3_000 } else { u64::MAX };
        let sim = Sim::new(g, order, Dedupe::Off).max(limit.min(20_000)).traced().run();
        if sim.truncated && !v.limited() {
            continue;
        }
        // A precheck needs the roots again if it is aborted.
        let own = if v == V::RobustPre { 4 } else { 2 };
        if v == V::RobustPre && sim.pairs > 300 {
            continue;
        }
        let env = Env::new(g).with_budget(op_budget(sim.pairs + 1, g.max_degree()));
        *env.live_at.borrow_mut() = Some(Vec::new());
        let r = run_nodes::<KOrd>(v, limit, env.root(0), env.root(1));
        if matches!(r, Out::OverBudget | Out::Panic(_) | Out::Fuse) {
            return Err(format!("{v:?}: {r:?}"));
        }
        let live = env.live_at.borrow_mut().take().unwrap_or_default();
        ctx.nontrivial |= sim.pairs >= 8 && sim.pending_at.iter().any(|p| *p == 0) && sim.peak_pending >= 2;
        ctx.class_if(v.bfs() && sim.peak_pending >= 3, "breadth-first with several pending");
        ctx.class_if(!v.bfs() && sim.peak_pending >= 3, "depth-first with several pending");
        ctx.class_if(sim.pending_at.iter().skip(1).any(|p| *p == 0), "nothing pending after the first pair");
        for (i, (l, p)) in live.iter().zip(&sim.pending_at).enumerate() {
            let bound = 2 * i64::from(*p) + own;
            if *l > bound {
                let (a, b, _) = sim.cmps[i];
                return Err(format!("{v:?}: while nodes {a} and {b} are compared (comparison {i}), {l} node handles are alive, but {p} branch pairs have unvisited edges ({bound} handles)"));
            }
        }
    }
    Ok(())
}

/// The promised constant-memory cases, including those with shared-structure detection.
fn check_c10_constant(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let acyclic = g.is_acyclic();
    let n = g.nodes.len();
    if !acyclic {
        guard_classes(g)?;
    }
    for v in [V::Deep, V::DeepLim, V::Wide, V::WideLim, V::Robust, V::RobustPre] {
        if !acyclic && !v.detects() && !v.limited() {
            continue;
        }
        let order = if v.bfs() { Order::Bfs } else { Order::Dfs };
        // The shapes of this section have an unfolding with the same pending work everywhere.
        let sim = Sim::new(g, order, Dedupe::Off).max(if v.limited() || v.detects() { 20_000 } else { 4_000_000 }).run();
        let env = Env::new(g).with_budget(op_budget(default_bound(g).max(20_000), g.max_degree()));
        let (a, b) = (env.root(0), env.root(1));
        alloc::reset_peak();
        let before = alloc::net();
        let r = run_nodes::<KOrd>(v, 20_000, a, b);
        let bytes = alloc::peak() - before;
        if matches!(r, Out::OverBudget | Out::Panic(_) | Out::Fuse) {
            return Err(format!("{v:?}: {r:?}"));
        }
        let pending = sim.peak_pending;
        ctx.nontrivial |= n >= 200 && pending <= 4;
        check_pending(&format!("{v:?} on {n} nodes"), sim.pairs, pending, env.peak_live.get(), if v.detects() { 0 } else { bytes })?;
    }
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "pairs of graphs of many shapes; the greatest number of node handles alive at once is at most 2p+8, and the greatest amount of allocated bytes at most 16 KiB + 1200p, where p is the greatest number of branch pairs with unvisited edges in the literal traversal; and at every single comparison of values of small graphs, no more handles than two per pair pending then and the pair in hand (moments); non-trivial: at least 100 pairs are traversed and p is below a quarter of them (general), or at least 8 pairs, at times none and at times two pending (moments), or at least 200 nodes with p at most 4 (constant)",
        assumptions: &["byte bound assumes growth by doubling"],
        sections: vec![
            boxed(Section { name: "general", quick: 30_000, thorough: 500_000, strategy: |_| with(prop_oneof![3 => arena::tree_like(3000, 3000, 2), 2 => arena::shape(&arena::TREE_SHAPES, 1500, 2).prop_map(|s| s.build()).boxed(), 1 => arena::pairs(None, 1000)].boxed(), any::<u8>()), check: check_c10, stack: BIG_STACK }),
            boxed(Section { name: "moments", quick: 30_000, thorough: 500_000, strategy: |_| with(prop_oneof![3 => arena::tree_like(600, 600, 2), 2 => arena::shape(&arena::TREE_SHAPES, 300, 2).prop_map(|s| s.build()).boxed(), 3 => arena::pairs(None, 300)].boxed(), any::<u8>()), check: check_c10_moments, stack: BIG_STACK }),
            boxed(Section { name: "constant", quick: 4_000, thorough: 40_000, strategy: |t| with(arena::shape(&[arena::Shape::List, arena::Shape::InvertedList, arena::Shape::Ring, arena::Shape::Wide, arena::Shape::Lollipop], if t == Tier::Quick { 3_000 } else { 30_000 }, 2).prop_map(|s| s.build()).boxed(), any::<u8>()), check: check_c10_constant, stack: BIG_STACK }),
            boxed(Section { name: "huge", quick: 96, thorough: 1_500, strategy: |t| huge(&arena::TREE_SHAPES, 12, hi(t), any::<u8>()), check: |c, x| check_c10(&c.graph(), x), stack: BIG_STACK }),
            boxed(Section { name: "huge-constant", quick: 48, thorough: 600, strategy: |t| huge(&[arena::Shape::List, arena::Shape::InvertedList, arena::Shape::Ring, arena::Shape::Wide], 12, hi(t), any::<u8>()), check: |c, x| check_c10_constant(&c.graph(), x), stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C11

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    /// 0: none, 1: panic at an operation, 2: limit, 3: error of the recursion mode.
    pub kind: u8,
    pub at: u16,
    pub limits: u8,
    pub pair: u8,
    pub table: TabKind,
    pub discipline: Discipline,
    pub rng: Vec<u16>,
    pub premade_table: bool,
}
impl Extra for Fault {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        if self.kind != 0 {
            out.push(Fault { kind: 0, ..self.clone() });
        }
        if self.at > 0 {
            out.push(Fault { at: self.at / 2, ..self.clone() });
            out.push(Fault { at: self.at - 1, ..self.clone() });
        }
        out
    }
}

/// What must be unchanged over a comparison.
struct Balance {
    net: i64,
    blocks: i64,
}
impl Balance {
    fn start() -> Self {
        Balance { net: alloc::net(), blocks: alloc::blocks() }
    }
    /// Must be called before anything else is allocated.
    fn end(self) -> Self {
        Balance { net: alloc::net() - self.net, blocks: alloc::blocks() - self.blocks }
    }
    fn judge(&self, what: impl Fn() -> String, env: &Env) -> Result<(), String> {
        let Balance { net, blocks } = *self;
        self.judged(net, blocks, env).map_err(|e| format!("{}: {e}", what()))
    }
    fn judged(&self, net: i64, blocks: i64, env: &Env) -> Result<(), String> {
        if env.live.get() != 0 {
            return Err(format!("{} of {} node handles are not released exactly once", env.live.get(), env.made.get()));
        }
        if env.live_ids.get() != 0 {
            return Err(format!("{} identities are not released exactly once", env.live_ids.get()));
        }
        if net != 0 || blocks != 0 {
            return Err(format!("{blocks} allocated blocks ({net} bytes) are left behind"));
        }
        Ok(())
    }
}

/// Forget the outcome, including what it allocates.
fn settle<C>(o: Out<C>) -> Result<u8, String> {
    match o {
        Out::Cmp(_) => Ok(0),
        Out::Limit => Ok(1),
        Out::Fuse => Ok(2),
        Out::OverBudget => Err("does not terminate within its work bound".into()),
        Out::Panic(m) => Err(format!("panic: {m}")),
    }
}

fn check_c11(c: &G<Fault>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let x = &c.x;
    guard_classes(g)?;
    let acyclic_pairs = Sim::new(g, Order::Bfs, Dedupe::Off).max(3000).run();
    let small = !acyclic_pairs.truncated && !Sim::new(g, Order::Dfs, Dedupe::Off).max(3000).run().truncated;
    let budget = 8 * op_budget(default_bound(g).max(3_010), g.max_degree());
    for v in ALL_V {
        if !v.detects() && !v.limited() && !small {
            continue;
        }
        let limit = match x.kind {
            2 => u64::from(x.at) % (acyclic_pairs.pairs + 1),
            _ if small => u64::MAX,
            _ => 2000,
        };
        let env = Env::new(g).with_budget(budget);
        env.strict.set(false);
        if x.kind == 1 {
            env.fuse.set(x.at.into());
        }
        let (a, b) = (env.root(0), env.root(1));
        let bal = Balance::start();
        let r = settle(run_nodes::<KCount>(v, limit, a, b));
        let bal = bal.end();
        let r = r.map_err(|e| format!("{v:?}: {e}"))?;
        ctx.class_if(r == 1, "limit reached");
        ctx.class_if(r == 2, "panic in the node type");
        ctx.class_if(r == 0, "completed");
        ctx.nontrivial |= env.made.get() >= 10 && (r > 0 || env.cmps.get() >= 5);
        bal.judge(|| format!("{v:?} (outcome {})", ["completed", "limit", "panic"][r as usize]), &env)?;
    }
    // Generic: classes and pending work.
    let ch = Choice::new(if x.limits % 20 == 10 || x.limits % 20 == 12 { 9 } else { x.limits }, x.premade_table);
    let l = ch.l();
    let bound = oracle::work_bound(g.branch_ids(&g.roots), g.max_degree(), l.slow.max(1).into(), l.fast.into()) + u64::from(l.pre);
    for two in [false, true] {
        setup(Cfg {
            discipline: x.discipline,
            table: x.table,
            rng: x.rng.clone(),
            recur_err: (x.kind == 3).then(|| u64::from(x.at) % 60),
            cell_budget: bound.saturating_mul(300) + 10_000,
            ..Cfg::default()
        });
        let env = Env::new(g).with_budget(8 * op_budget(bound, g.max_degree()));
        env.strict.set(false);
        if x.kind == 1 {
            env.fuse.set(x.at.into());
        }
        let (a, b) = (env.root::<KCount>(0), env.root::<KCount>(1));
        let bal = Balance::start();
        let pair = ch.pair(x.pair as usize % 12);
        let r = if two { with_limits::<KCount, _>(ch.limits, ch.premade_table, WithPre(pair, a, b)) } else { with_limits::<KCount, _>(ch.limits, ch.premade_table, Alone(PAIRS[pair].1, a, b)) };
        let erred = matches!(r, Out::Cmp(GOut::Err(_)));
        let what = || format!("limits {l:?}, modes {:?}, precheck {two}", PAIRS[pair]);
        let r = settle(r);
        let bal = bal.end();
        r.map_err(|e| format!("{}: {e}", what()))?;
        ctx.class_if(erred, "error of the recursion mode");
        let (live, made) = (RC_LIVE.with(|c| c.get()), RC_MADE.with(|c| c.get()));
        ctx.class_if(made > 0, "classes were made");
        bal.judge(what, &env)?;
        teardown();
        if live != 0 {
            return Err(format!("limits {l:?}, modes {:?}, precheck {two}: {live} class pointers are left behind ({made} cells were made)", PAIRS[pair]));
        }
    }
    Ok(())
}

fn fault() -> impl Strategy<Value = Fault> {
    (
        prop_oneof![2 => Just(0_u8), 5 => Just(1_u8), 2 => Just(2_u8), 2 => Just(3_u8)],
        prop_oneof![0..40_u16, 0..400_u16, 0..5000_u16],
        0..20_u8,
        0..12_u8,
        super::limits::table(),
        super::limits::discipline(),
        super::limits::rng(),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(kind, at, limits, pair, table, discipline, rng, premade_table)| Fault { kind, at, limits, pair, table, discipline, rng, premade_table })
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "pairs of graphs x outcomes (completed, limit, injected panic at the n-th node or identity operation, error of the recursion mode) x all premade functions and generic combinations; live handles, live identities, live class pointers and the thread's allocation balance must return to zero; non-trivial: at least 10 handles were made and the comparison was cut short or compared at least 5 pairs",
        assumptions: &["a second release of the same value would be undefined behaviour, and is observed only as a negative count or a crash"],
        sections: vec![
            boxed(Section { name: "small", quick: 100_000, thorough: 1_200_000, strategy: |_| with(arena::pairs(None, 60), fault()), check: check_c11, stack: BIG_STACK }),
            boxed(Section { name: "huge", quick: 64, thorough: 800, strategy: |t| huge(&arena::ALL_SHAPES, 12, hi(t), fault().prop_map(|f| Fault { table: TabKind::Hash, ..f })), check: |c, x| check_c11(&c.graph(), x), stack: BIG_STACK }),
            boxed(Section { name: "large", quick: 10_000, thorough: 120_000, strategy: |_| with(prop_oneof![arena::pairs(None, 1000), arena::cover(arena::LARGE, None, 2).prop_map(|c| c.build())].boxed(), fault()), check: check_c11, stack: BIG_STACK }),
        ],
    }
}
