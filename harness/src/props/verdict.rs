//! C01-C06: verdicts, values, order, work, identity.

use super::*;
use graph_safe_compare::Cmp as _;
use std::cmp::Ordering as O;

fn big(t: Tier) -> usize {
    match t {
        Tier::Quick => 2_000,
        Tier::Thorough => 20_000,
    }
}

fn classify(g: &Arena, d: Diff, ctx: &mut Ctx) {
    ctx.class_if(d == Diff::None, "equivalent");
    ctx.class_if(matches!(d, Diff::Val(..)), "different value");
    ctx.class_if(matches!(d, Diff::Edges(..)), "different number of edges");
    let cyc = !g.is_acyclic();
    ctx.class_if(cyc, "cyclic");
    ctx.class_if(!cyc && g.has_sharing(), "acyclic with sharing");
    let (ra, rb) = (g.reachable(&g.roots[..1]), g.reachable(&g.roots[1..2]));
    ctx.class_if(ra.iter().zip(&rb).any(|(x, y)| *x && *y), "graphs share nodes");
    ctx.class_if(g.nodes.len() > 1000, "over 1000 nodes");
}

fn verdict_of<'g, K: Kind<'g>>(v: V, env: &Env<'g>) -> Result<bool, String> {
    match run::<K>(v, env) {
        Out::Cmp(c) => Ok(c.is_equiv()),
        Out::OverBudget => Err(format!("{v:?} does not terminate within its work bound ({} pairs compared)", env.cmps.get())),
        o => Err(format!("{v:?}: unexpected outcome {o:?}")),
    }
}

// ---------------------------------------------------------------------------------------- C01

fn check_c01(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let sim = {
        let n = g.nodes.len() as u64;
        let d = if n * n <= 250_000 { Dedupe::Pairs } else { Dedupe::Classes };
        Sim::new(g, Order::Bfs, d).run()
    };
    if g.nodes.len() <= 500 {
        // The two reference searches must agree, or the oracle is wrong.
        let other = Sim::new(g, Order::Bfs, Dedupe::Classes).run();
        assert_eq!(other.diff, sim.diff, "reference models disagree");
    }
    let want = sim.diff == Diff::None;
    classify(g, sim.diff, ctx);
    ctx.nontrivial = sim.branches >= 3 && (!g.is_acyclic() || g.has_sharing());
    ctx.class_if(sim.branches >= 41, "enough branch pairs for a fast phase");
    ctx.class_if(sim.pairs >= 400, "enough pairs to exceed the precheck");
    guard_classes(g)?;
    ctx.class_if(c.x >= 192, "order of edges varies by position");
    let budget = op_budget(default_bound(g), g.max_degree());
    for v in SAFE_V {
        let env = Env::new(g).with_budget(budget);
        if c.x >= 192 {
            // The order of edges need not be fixed, only the same for counterparts.
            env.reorder.set(c.x.into());
        }
        let got = match c.x % 4 {
            0 | 1 => verdict_of::<KOrd>(v, &env),
            2 => verdict_of::<KRef>(v, &env),
            _ if g.nodes.len() <= 300 => verdict_of::<KCollide>(v, &env),
            _ => verdict_of::<KCount>(v, &env),
        }?;
        if got != want {
            return Err(format!("{v:?} says {} but the graphs {}", if got { "equivalent" } else { "inequivalent" }, explain(sim.diff)));
        }
    }
    Ok(())
}

fn explain(d: Diff) -> String {
    match d {
        Diff::None => "are equivalent".into(),
        Diff::Val(a, b) => format!("differ: counterparts {a} and {b} have different values"),
        Diff::Edges(a, b, o) => format!("differ: counterpart {a} has {} edges than {b}", if o == O::Less { "fewer" } else { "more" }),
    }
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "pairs of finite graphs: two irregular covers of a random template graph (so equivalent by construction, with different cycles and sharing) plus rare mutations, large regular shapes of different sizes, and independent random graphs; in a quarter of the cases the order in which a node gives its edges varies with the path to it (consistently between counterparts); non-trivial: at least 3 distinct branch pairs had to be descended into by the reference search, and the graphs have a cycle or shared structure",
        assumptions: &["identities are the node identities (own index, address, or an all-colliding hash)", "finite graphs, irregular ones up to some hundred nodes, regular shapes up to 2^18 (quick) or 2^21 (thorough) nodes"],
        sections: vec![
            boxed(Section { name: "each-small", quick: arena::each_size(arena::EACH_SMALL), thorough: arena::each_size(arena::EACH_MEDIUM), strategy: |t| with(arena::each(match t { Tier::Quick => arena::EACH_SMALL, Tier::Thorough => arena::EACH_MEDIUM }), any::<u8>()), check: check_c01, stack: BIG_STACK }),
            boxed(Section { name: "pairs", quick: 88_000, thorough: 1_000_000, strategy: |t| with(arena::pairs(None, big(t)), any::<u8>()), check: check_c01, stack: BIG_STACK }),
            boxed(Section { name: "cyclic", quick: 32_000, thorough: 400_000, strategy: |t| with(arena::pairs(Some(false), big(t)), any::<u8>()), check: check_c01, stack: BIG_STACK }),
            boxed(Section {
                name: "symmetric",
                quick: 48_000,
                thorough: 300_000,
                strategy: |_| with(arena::cover(arena::SYMMETRIC, None, 2).prop_map(|c| c.build()).boxed(), any::<u8>()),
                check: check_c01,
                stack: BIG_STACK,
            }),
            boxed(Section { name: "huge", quick: 96, thorough: 1_500, strategy: |t| huge(&arena::ALL_SHAPES, 12, hi(t), any::<u8>()), check: |c, x| check_c01(&c.graph(), x), stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C02

fn check_c02(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    // The limited forms need a sufficient limit: the size of the unfolding, computed per order.
    let dfs = Sim::new(g, Order::Dfs, Dedupe::Off).max(400_000).run();
    let bfs = Sim::new(g, Order::Bfs, Dedupe::Off).max(400_000).run();
    if dfs.truncated || bfs.truncated {
        ctx.class("skipped: unfolding too large");
        return Ok(());
    }
    let want = oracle::verdict(g, g.a(), g.b()) == Diff::None;
    assert_eq!(dfs.diff == Diff::None, want, "reference models disagree");
    assert_eq!(bfs.diff == Diff::None, want, "reference models disagree");
    if dfs.pairs < 2000 && g.height() < 300 {
        assert_eq!(oracle::unfold(g, g.a()) == oracle::unfold(g, g.b()), want, "reference models disagree");
        ctx.class("also against derived equality");
    }
    classify(g, dfs.diff, ctx);
    ctx.nontrivial = dfs.branches >= 3 && bfs.branches >= 3;
    guard_classes(g)?;
    let budget = op_budget(default_bound(g).max(dfs.pairs.max(bfs.pairs) + 400), g.max_degree());
    for v in ALL_V {
        let limit = if v.bfs() { bfs.pairs } else { dfs.pairs } + u64::from(c.x / 3);
        let env = Env::new(g).with_budget(budget);
        let got = match c.x % 3 {
            0 => run_nodes::<KOrd>(v, limit, env.root(0), env.root(1)).map_equiv(),
            1 => run_nodes::<KRef>(v, limit, env.root(0), env.root(1)).map_equiv(),
            _ => run_nodes::<KRich>(v, limit, env.root(0), env.root(1)).map_equiv(),
        };
        if got != Out::Cmp(want) {
            return Err(format!("{v:?} gives {got:?} but the graphs {}", explain(dfs.diff)));
        }
    }
    Ok(())
}

impl<C: graph_safe_compare::Cmp> Out<C> {
    pub fn map_equiv(self) -> Out<bool> {
        match self {
            Out::Cmp(c) => Out::Cmp(c.is_equiv()),
            Out::Limit => Out::Limit,
            Out::OverBudget => Out::OverBudget,
            Out::Fuse => Out::Fuse,
            Out::Panic(p) => Out::Panic(p),
        }
    }
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "pairs of acyclic graphs whose unfolding is bounded: capped covers with mutations, list, tree, comb, wide and small degenerate shapes; each compared by all ten premade functions with one of three comparison types; non-trivial: at least 3 branch pairs are descended into in both traversal orders",
        assumptions: &["unfolding at most 400000 pairs, so that the variants without shared-structure detection finish"],
        sections: vec![
            boxed(Section { name: "acyclic", quick: 28_000, thorough: 350_000, strategy: |t| with(arena::tree_like(1500, if t == Tier::Quick { 3000 } else { 30_000 }, 2), any::<u8>()), check: check_c02, stack: BIG_STACK }),
            boxed(Section { name: "sharing", quick: 24_000, thorough: 300_000, strategy: |_| with(arena::cover(arena::with_cap(arena::MEDIUM, 20_000), Some(true), 2).prop_map(|c| c.build()).boxed(), any::<u8>()), check: check_c02, stack: BIG_STACK }),
            boxed(Section { name: "huge", quick: 96, thorough: 1_500, strategy: |t| huge(&arena::TREE_SHAPES, 12, hi(t), any::<u8>()), check: |c, x| check_c02(&c.graph(), x), stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C03

fn check_c03(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let n = g.branch_ids(&g.roots);
    let d = g.max_degree();
    let bound = oracle::work_bound(n, d, 40, 800);
    let literal = Sim::new(g, Order::Bfs, Dedupe::Off).max(bound * 2 + 1).run();
    ctx.class_if(literal.truncated, "unfolding exceeds twice the bound");
    ctx.class_if(g.nodes.len() > 1000, "over 1000 nodes");
    ctx.class_if(!g.is_acyclic(), "cyclic");
    ctx.nontrivial = literal.truncated && n >= 4;
    guard_classes(g)?;
    for v in SAFE_V {
        let bound = bound + if v.precheck() { 400 } else { 0 };
        let env = Env::new(g).with_budget(op_budget(bound, d));
        match run::<KOrd>(v, &env) {
            Out::Cmp(_) => {}
            Out::OverBudget => return Err(format!("{v:?} exceeds its work bound: {} values compared, {} edges requested, bound {bound} pairs for {n} branch nodes", env.cmps.get(), env.edges.get())),
            o => return Err(format!("{v:?}: unexpected outcome {o:?}")),
        }
        if env.cmps.get() > bound {
            return Err(format!("{v:?} compared {} pairs, bound {bound} for {n} branch nodes of at most {d} edges", env.cmps.get()));
        }
        let pct = env.cmps.get() * 100 / bound.max(1);
        ctx.class_if(pct >= 25, "work above a quarter of the bound");
    }
    // Without room for more than one fast phase, the work is nearly the size of the graphs.
    let li = [1_usize, 2, 8, 9, 13, 16][c.x as usize % 6];
    let l = LIMITS[li];
    let bound = oracle::work_bound(n, d, l.slow.into(), l.fast.into());
    let ch = Choice::new(li as u8, false);
    for (mode, discipline) in [(Mode::CallStack, Discipline::CallStack), (Mode::Queue, Discipline::Queue), (Mode::Stack, Discipline::Stack), (Mode::Flex, Discipline::Random)] {
        let mode = ch.mode(mode);
        setup(Cfg { discipline, sched: vec![3, 60_000, 7], cell_budget: bound.saturating_mul(300) + 10_000, table: TabKind::Hash, rng: vec![u16::MAX], ..Cfg::default() });
        let env = Env::new(g).with_budget(op_budget(bound, d));
        let r = with_limits::<KRich, _>(li, false, Alone(mode, env.root(0), env.root(1)));
        teardown();
        if !matches!(r, Out::Cmp(GOut::Ok(_))) || env.cmps.get() > bound {
            return Err(format!("with limits {l:?} and {mode:?}: {r:?} after comparing {} pairs, bound {bound} for {n} branch nodes of at most {d} edges", env.cmps.get()));
        }
    }
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "pairs of cyclic or heavily shared graphs (degenerate chains, rings of different lengths, shift graphs, lollipops, grids, irregular covers), run under a work counter that turns non-termination into a failure; non-trivial: the literal unfolding has more than twice as many pairs as the work bound allows, so detection is what ends the comparison, and there are at least 4 branch nodes",
        assumptions: &["the bound is 1 + d*((n-1) + floor((n-1)/slow)*(fast+1)) compared pairs, plus the precheck limit"],
        sections: vec![
            boxed(Section {
                name: "shapes",
                quick: 3_200,
                thorough: 30_000,
                strategy: |t| with(arena::shape(&[arena::Shape::DegenerateDag, arena::Shape::DegenerateCyclic, arena::Shape::Ring, arena::Shape::RingTwoEdges, arena::Shape::Shift, arena::Shape::Grid, arena::Shape::Lollipop], if t == Tier::Quick { 1500 } else { 20_000 }, 2).prop_map(|s| s.build()).boxed(), any::<u8>()),
                check: check_c03,
                stack: BIG_STACK,
            }),
            boxed(Section { name: "covers", quick: 18_000, thorough: 250_000, strategy: |t| with(arena::pairs(Some(false), big(t)), any::<u8>()), check: check_c03, stack: BIG_STACK }),
            boxed(Section { name: "symmetric", quick: 14_000, thorough: 200_000, strategy: |_| with(arena::cover(arena::SYMMETRIC, Some(false), 2).prop_map(|c| c.build()).boxed(), any::<u8>()), check: check_c03, stack: BIG_STACK }),
            boxed(Section { name: "huge", quick: 64, thorough: 1_000, strategy: |t| huge(&[arena::Shape::DegenerateDag, arena::Shape::DegenerateCyclic, arena::Shape::Ring, arena::Shape::RingTwoEdges, arena::Shape::Shift, arena::Shape::Grid, arena::Shape::Lollipop], 12, hi(t), any::<u8>()), check: |c, x| check_c03(&c.graph(), x), stack: BIG_STACK }),
            boxed(Section { name: "small-shapes", quick: 6_000, thorough: 60_000, strategy: |_| with(arena::shape(&[arena::Shape::DegenerateDag, arena::Shape::DegenerateCyclic, arena::Shape::Ring, arena::Shape::RingTwoEdges, arena::Shape::Shift, arena::Shape::Grid], 90, 2).prop_map(|s| s.build()).boxed(), any::<u8>()), check: check_c03, stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C04

fn check_c04(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let acyclic = g.is_acyclic();
    let n = g.nodes.len() as u64;
    let dd = if n * n <= 250_000 { Dedupe::Pairs } else { Dedupe::Classes };
    let bfs = Sim::new(g, Order::Bfs, dd).run();
    let dfs = Sim::new(g, Order::Dfs, if acyclic { dd } else { Dedupe::Pairs }).max(3_000_000).run();
    let cap = if n > 8_000 && acyclic { 400_000 } else { 20_000 };
    let lit_b = Sim::new(g, Order::Bfs, Dedupe::Off).max(cap).traced().run();
    let lit_d = Sim::new(g, Order::Dfs, Dedupe::Off).max(cap).traced().run();
    if !lit_b.truncated {
        assert_eq!(lit_b.diff, bfs.diff, "reference models disagree");
    }
    if !lit_d.truncated && acyclic {
        assert_eq!(lit_d.diff, dfs.diff, "reference models disagree");
    }
    classify(g, bfs.diff, ctx);
    let several = if bfs.diff != Diff::None { oracle::all_diffs(g, g.a(), g.b()) } else { Vec::new() };
    ctx.class_if(several.len() > 1, "several differences");
    ctx.class_if(acyclic && bfs.diff != dfs.diff, "orders disagree on the first difference");
    ctx.nontrivial = bfs.diff != Diff::None && bfs.branches >= 2;
    guard_classes(g)?;
    for v in ALL_V {
        let lit = if v.bfs() { &lit_b } else { &lit_d };
        if !v.detects() && lit.truncated {
            continue;
        }
        let env = Env::new(g).with_budget(op_budget(default_bound(g) + lit.pairs, g.max_degree()));
        trace_start();
        let r = run::<KRich>(v, &env);
        let trace = trace_take();
        let got = match r {
            Out::Cmp(c) => c,
            o => return Err(format!("{v:?}: unexpected outcome {o:?}")),
        };
        let exact = if v.bfs() {
            Some(bfs.diff)
        } else if acyclic {
            Some(dfs.diff)
        } else if !v.detects() {
            // Depth-first without detection that terminated: literal order.
            Some(lit_d.diff)
        } else {
            None
        };
        match exact {
            Some(want) => {
                let ok = match (&got, want) {
                    (Rich::Equiv, Diff::None) => true,
                    (Rich::Val { a, b, serial }, Diff::Val(x, y)) => (*a, *b) == (x, y) && *serial == 1,
                    (Rich::Edges(o), Diff::Edges(_, _, p)) => *o == p,
                    _ => false,
                };
                if !ok {
                    return Err(format!("{v:?} returned {got:?}, but in its order the graphs first {}", explain(want)));
                }
            }
            None => {
                let ok = match &got {
                    Rich::Equiv => several.is_empty(),
                    Rich::Val { a, b, serial } => several.contains(&Diff::Val(*a, *b)) && *serial == 1,
                    Rich::Edges(o) => several.iter().any(|d| matches!(d, Diff::Edges(_, _, p) if p == o)),
                };
                if !ok {
                    return Err(format!("{v:?} returned {got:?}, which is no difference of any counterparts ({several:?})"));
                }
            }
        }
        if !v.detects() {
            // The whole sequence of comparisons follows the order.
            let cmps: Vec<(u32, u32)> = trace.iter().filter_map(|e| if let Ev::Cmp(a, b) = e { Some((*a, *b)) } else { None }).collect();
            let want: Vec<(u32, u32)> = lit.cmps.iter().map(|x| (x.0, x.1)).collect();
            if cmps != want {
                let at = cmps.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(cmps.len().min(want.len()));
                return Err(format!("{v:?}: comparison number {at} is of {:?}, but its order requires {:?}", cmps.get(at), want.get(at)));
            }
            ctx.class("whole order checked");
        }
    }
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "pairs of graphs with none, one or several differences; the returned payload identifies the pair of nodes (and the individual comparison) it came from; non-trivial: the graphs differ and at least 2 branch pairs are descended into before the first difference in breadth-first order",
        assumptions: &["for the depth-first variants with detection on cyclic graphs no first difference is specified; there the value must be that of some inequivalent counterparts", "whole traversal order is compared where the unfolding has at most 20000 pairs"],
        sections: vec![
            boxed(Section { name: "each-small", quick: arena::each_size(arena::EACH_TINY), thorough: arena::each_size(arena::EACH_SMALL), strategy: |t| with(arena::each(match t { Tier::Quick => arena::EACH_TINY, Tier::Thorough => arena::EACH_SMALL }), any::<u8>()), check: check_c04, stack: BIG_STACK }),
            boxed(Section { name: "acyclic", quick: 24_000, thorough: 400_000, strategy: |t| with(arena::pairs(Some(true), big(t)), any::<u8>()), check: check_c04, stack: BIG_STACK }),
            boxed(Section { name: "trees", quick: 21_000, thorough: 300_000, strategy: |t| with(arena::tree_like(2000, big(t), 2), any::<u8>()), check: check_c04, stack: BIG_STACK }),
            boxed(Section { name: "any", quick: 12_000, thorough: 250_000, strategy: |t| with(arena::pairs(None, big(t).min(4000)), any::<u8>()), check: check_c04, stack: BIG_STACK }),
            boxed(Section {
                name: "several",
                quick: 15_000,
                thorough: 250_000,
                strategy: |_| with(arena::cover(arena::CoverP { muts: 6, labels: 2, ..arena::SMALL }, None, 2).prop_map(|mut c| {
                    if c.muts.len() == 1 {
                        let mut m = c.muts[0].clone();
                        m.target = m.target.wrapping_mul(31).wrapping_add(7);
                        c.muts.push(m);
                    }
                    c.build()
                }).boxed(), any::<u8>()),
                check: check_c04,
                stack: BIG_STACK,
            }),
            boxed(Section { name: "huge", quick: 96, thorough: 1_500, strategy: |t| huge(&arena::TREE_SHAPES, 12, hi(t), any::<u8>()), check: |c, x| check_c04(&c.graph(), x), stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C05

fn check_c05(c: &G<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let k = g.roots.len();
    let acyclic = g.is_acyclic();
    let mut variants: Vec<V> = vec![V::Robust, V::RobustPre];
    if acyclic {
        variants.extend([V::Cycle, V::CyclePre]);
        // Those without detection, where the unfoldings are small.
        let small = (0..k).all(|i| !Sim::new(g, Order::Bfs, Dedupe::Off).roots(g.roots[i], g.roots[i]).max(1).run().truncated)
            && (0..k).all(|i| (0..k).all(|j| !Sim::new(g, Order::Bfs, Dedupe::Off).roots(g.roots[i], g.roots[j]).max(3000).run().truncated && !Sim::new(g, Order::Dfs, Dedupe::Off).roots(g.roots[i], g.roots[j]).max(3000).run().truncated));
        if small {
            variants.extend([V::Basic, V::Deep, V::Wide, V::BasicLim, V::DeepLim, V::WideLim]);
            ctx.class("all variants");
        }
    }
    let mut eq = vec![vec![false; k]; k];
    let mut differing = 0;
    for i in 0..k {
        for j in 0..k {
            eq[i][j] = oracle::verdict(g, g.roots[i], g.roots[j]) == Diff::None;
            differing += u32::from(!eq[i][j]);
        }
    }
    ctx.class_if(!acyclic, "cyclic");
    for i in 0..k {
        for j in 0..i {
            guard_classes_of(g, g.roots[i], g.roots[j])?;
        }
    }
    let mut distinct_classes = 0;
    for i in 0..k {
        if (0..i).all(|j| !eq[i][j]) {
            distinct_classes += 1;
        }
    }
    ctx.class_if(distinct_classes >= 3, "three or more inequivalent graphs");
    ctx.class_if(distinct_classes < k && differing > 0, "equivalent and inequivalent graphs together");
    ctx.nontrivial = distinct_classes >= 2 && k >= 3;
    let budget = op_budget(oracle::work_bound(g.branch_ids(&g.roots), g.max_degree(), 40, 800) + 4000, g.max_degree());
    let _ = c.x;
    for v in variants {
        let mut m = vec![vec![O::Equal; k]; k];
        for i in 0..k {
            for j in 0..k {
                let env = Env::new(g).with_budget(budget);
                m[i][j] = match run_nodes::<KOrd>(v, u64::MAX, env.root_of(i, 0), env.root_of(j, 1)) {
                    Out::Cmp(c) => c,
                    o => return Err(format!("{v:?}: unexpected outcome {o:?} for graphs {i} and {j}")),
                };
            }
        }
        for i in 0..k {
            for j in 0..k {
                if (m[i][j] == O::Equal) != eq[i][j] {
                    return Err(format!("{v:?} orders graphs {i} and {j} as {:?} but they {}", m[i][j], if eq[i][j] { "are equivalent" } else { "differ" }));
                }
                if m[i][j] != m[j][i].reverse() {
                    return Err(format!("{v:?} orders graphs {i} and {j} as {:?} and swapped as {:?}", m[i][j], m[j][i]));
                }
                for l in 0..k {
                    if m[i][j] != O::Greater && m[j][l] != O::Greater {
                        let want = if m[i][j] == O::Equal && m[j][l] == O::Equal { O::Equal } else { O::Less };
                        if m[i][l] != want {
                            return Err(format!("{v:?} is not transitive: {i} vs {j} {:?}, {j} vs {l} {:?}, {i} vs {l} {:?}", m[i][j], m[j][l], m[i][l]));
                        }
                    }
                }
            }
        }
        // Sorting by it sorts.
        let mut order: Vec<usize> = (0..k).collect();
        order.sort_by(|&i, &j| m[i][j]);
        if order.windows(2).any(|w| m[w[0]][w[1]] == O::Greater) {
            return Err(format!("{v:?}: sorting did not sort: {order:?}"));
        }
    }
    Ok(())
}

fn several_graphs(acyclic: Option<bool>, p: arena::CoverP, sides: usize) -> BoxedStrategy<Arena> {
    (arena::cover(arena::CoverP { muts: 8, ..p }, acyclic, sides), prop::collection::vec((any::<u8>(), any::<u16>(), any::<u16>(), any::<u16>()), 1..6))
        .prop_map(|(mut c, ms)| {
            c.muts.extend(ms.into_iter().map(|(kind, target, arg, arg2)| arena::Mutation { kind, target, arg, arg2 }));
            c.build()
        })
        .boxed()
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "3 to 5 graphs covering one template, with several mutations; all ordered pairs are compared by every applicable variant and the laws are checked on all pairs and triples; non-trivial: at least two of the graphs are inequivalent",
        assumptions: &["the nodes' own comparison is a total order (numbers)", "depth-first variants only on acyclic graphs"],
        sections: vec![
            boxed(Section { name: "acyclic", quick: 35_000, thorough: 320_000, strategy: |_| with(several_graphs(Some(true), arena::with_cap(arena::SMALL, 400), 4), any::<u8>()), check: check_c05, stack: BIG_STACK }),
            boxed(Section { name: "acyclic-shared", quick: 12_500, thorough: 60_000, strategy: |_| with(several_graphs(Some(true), arena::MEDIUM, 3), any::<u8>()), check: check_c05, stack: BIG_STACK }),
            boxed(Section { name: "cyclic", quick: 40_000, thorough: 360_000, strategy: |_| with(several_graphs(Some(false), arena::SMALL, 4), any::<u8>()), check: check_c05, stack: BIG_STACK }),
            boxed(Section { name: "cyclic-medium", quick: 7_500, thorough: 40_000, strategy: |_| with(several_graphs(Some(false), arena::MEDIUM, 3), any::<u8>()), check: check_c05, stack: BIG_STACK }),
            boxed(Section { name: "symmetric", quick: 12_500, thorough: 60_000, strategy: |_| with(several_graphs(Some(false), arena::SYMMETRIC, 5), any::<u8>()), check: check_c05, stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C06

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Ident {
    /// Nodes that get the identity of another.
    pub dup: Vec<(u16, u16)>,
    /// Nodes inequivalent even to themselves.
    pub nan: Vec<u16>,
    /// Whether both roots are one node.
    pub same_root: bool,
    pub kind: u8,
}
impl Extra for Ident {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        for i in 0..self.dup.len() {
            let mut c = self.clone();
            c.dup.remove(i);
            out.push(c);
        }
        for i in 0..self.nan.len() {
            let mut c = self.clone();
            c.nan.remove(i);
            out.push(c);
        }
        if self.kind != 0 {
            out.push(Ident { kind: 0, ..self.clone() });
        }
        out
    }
}

fn check_c06(c: &G<Ident>, ctx: &mut Ctx) -> Result<(), String> {
    let mut g = c.arena.clone();
    let n = g.nodes.len();
    if c.x.same_root {
        g.roots[1] = g.roots[0];
    }
    for &i in &c.x.nan {
        g.nodes[i as usize % n].nan = true;
    }
    for &(i, j) in &c.x.dup {
        let id = g.nodes[j as usize % n].id;
        g.nodes[i as usize % n].id = id;
    }
    let g = &g;
    let acyclic = g.is_acyclic();
    let cap = 30_000;
    let lit_b = Sim::new(g, Order::Bfs, Dedupe::Off).max(cap).run();
    let lit_d = Sim::new(g, Order::Dfs, Dedupe::Off).max(cap).run();
    let exact = Sim::new(g, Order::Bfs, Dedupe::Pairs).run();
    ctx.class_if(exact.identical > 0, "identical counterparts met");
    ctx.class_if(g.roots[0] == g.roots[1], "identical roots");
    ctx.class_if(!c.x.nan.is_empty(), "self-inequivalent nodes");
    ctx.class_if(!c.x.dup.is_empty(), "identities shared by different nodes");
    ctx.class_if(!acyclic, "cyclic");
    ctx.nontrivial = exact.identical > 0 && exact.pairs >= 3 && exact.branches >= 1;
    for v in ALL_V {
        let lit = if v.bfs() { &lit_b } else { &lit_d };
        // Detection presumes that an identity belongs to one node only.
        if v.detects() && !c.x.dup.is_empty() {
            continue;
        }
        if !v.detects() && lit.truncated {
            continue;
        }
        let env = Env::new(g).with_budget(op_budget(default_bound(g) + lit.pairs, g.max_degree()));
        let got = match c.x.kind % 3 {
            0 => run::<KOrd>(v, &env).map_equiv(),
            1 => run::<KCollide>(v, &env).map_equiv(),
            _ => run::<KRich>(v, &env).map_equiv(),
        };
        if let Some(w) = env.violation(Tag::Identical) {
            return Err(format!("{v:?}: {w}"));
        }
        let want = if v.detects() { exact.diff } else { lit.diff };
        if got != Out::Cmp(want == Diff::None) {
            return Err(format!("{v:?} gives {got:?} but, identical counterparts being equivalent, the graphs {}", explain(want)));
        }
        if !v.detects() {
            // Every pair that is not identical is examined.
            let cmps = env.cmps.get();
            let want = lit.pairs - lit.identical;
            if cmps != want {
                return Err(format!("{v:?} examined {cmps} pairs, but {want} of the {} traversed pairs are not identical", lit.pairs));
            }
        }
    }
    Ok(())
}

fn ident(dups: usize) -> impl Strategy<Value = Ident> {
    (
        prop::collection::vec((any::<u16>(), any::<u16>()), 0..=dups),
        prop::collection::vec(any::<u16>(), 0..3),
        prop::bool::weighted(0.04),
        any::<u8>(),
    )
        .prop_map(|(dup, nan, same_root, kind)| Ident { dup, nan, same_root, kind })
}

/// Covers with much sharing between the graphs.
fn overlapping(acyclic: Option<bool>, p: arena::CoverP) -> BoxedStrategy<Arena> {
    (arena::cover(p, acyclic, 2), any::<u64>())
        .prop_map(|(mut c, bits)| {
            for (i, t) in c.template.iter_mut().enumerate() {
                if bits >> (i % 64) & 1 == 1 && i > 0 {
                    t.shared = 255;
                }
            }
            c.build()
        })
        .boxed()
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "pairs of graphs with nodes shared between them, nodes inequivalent even to themselves, identities deliberately given to several nodes, and colliding hashes; the node type reports any examination of an identical pair; non-trivial: identical counterparts are met and at least 3 pairs are traversed, of which at least one is a descended branch",
        assumptions: &["identities given to several nodes are used only with the variants without shared-structure detection"],
        sections: vec![
            boxed(Section { name: "shared", quick: 80_000, thorough: 900_000, strategy: |_| with(overlapping(None, arena::SMALL), ident(0)), check: check_c06, stack: BIG_STACK }),
            boxed(Section { name: "duplicated", quick: 80_000, thorough: 900_000, strategy: |_| with(overlapping(Some(true), arena::with_cap(arena::SMALL, 2000)), ident(4)), check: check_c06, stack: BIG_STACK }),
            boxed(Section { name: "any", quick: 32_000, thorough: 250_000, strategy: |_| with(arena::pairs(None, 600), ident(0)), check: check_c06, stack: BIG_STACK }),
            boxed(Section { name: "overlap-medium", quick: 16_000, thorough: 150_000, strategy: |_| with(overlapping(None, arena::MEDIUM), ident(0)), check: check_c06, stack: BIG_STACK }),
        ],
    }
}

#[allow(dead_code)]
fn _unused(_: &ANode) {}
