//! C22 and C23: when things are examined, and what recursion modes are given.

use super::protocol::{bound_of, gen, gen_hashed, Gen};
use super::*;
use crate::recurmode::{made_up, probed};

// ---------------------------------------------------------------------------------------- C22

fn lazy_env(g: &Arena, pairs: u64) -> Env<'_> {
    let env = Env::new(g).with_budget(op_budget(pairs, g.max_degree()));
    *env.lazy.borrow_mut() = Some(Default::default());
    env
}
fn judge_lazy(env: &Env, what: &dyn Fn() -> String) -> Result<(), String> {
    match env.violation(Tag::Lazy) {
        Some(v) => Err(format!("{}: {v}", what())),
        None => Ok(()),
    }
}

fn check_c22(c: &G<Gen>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let x = &c.x;
    guard_classes(g)?;
    // The values that are compared up to the first difference.
    let sims = [Order::Dfs, Order::Bfs].map(|o| Sim::new(g, o, Dedupe::Off).max(5_000).traced().run());
    let tree = sims.iter().all(|s| !s.truncated);
    let differ = sims.iter().any(|s| s.diff != Diff::None);
    for v in ALL_V {
        if !v.detects() && !v.limited() && !tree {
            continue;
        }
        let limit = if tree && x.limit % 2 == 0 { u64::MAX } else { x.limit.into() };
        let env = lazy_env(g, default_bound(g).max(5_010));
        let r = run_nodes::<KRich>(v, limit, env.root(0), env.root(1));
        if matches!(r, Out::Panic(_) | Out::OverBudget | Out::Fuse) {
            return Err(format!("{v:?}: {r:?}"));
        }
        ctx.class_if(r == Out::Limit, "aborted by the limit");
        judge_lazy(&env, &|| format!("{v:?}, limit {limit}"))?;
        let sim = &sims[usize::from(v.bfs())];
        if tree {
            let (all, got) = (sim.cmps.len() as u64, env.cmps.get());
            let exact = !v.detects() && r != Out::Limit || v.precheck() && sim.pairs <= 400;
            let most = if v.precheck() { all.min(400) + all } else { all };
            if exact && got != all || got > most {
                return Err(format!("{v:?}, limit {limit}: {got} pairs of values compared, but {all} up to the first difference ({:?})", sim.diff));
            }
        }
        ctx.nontrivial |= differ && env.cmps.get() >= 4 && env.edges.get() >= 8;
    }
    ctx.class_if(differ, "with a difference");
    let ch = x.choice(g);
    let bound = bound_of(g, ch.l());
    let pair = ch.pair(x.pair as usize % 12);
    for two in [false, true] {
        // (Only modes that take the edges one after the other.)
        let discipline = match x.discipline {
            Discipline::Eager => Discipline::Random,
            Discipline::Reverse => Discipline::CallStack,
            d => d,
        };
        setup(Cfg { discipline, ..x.cfg(bound) });
        let env = lazy_env(g, bound);
        let r = if two { with_limits::<KRich, _>(ch.limits, ch.premade_table, WithPre(pair, env.root(0), env.root(1))) } else { with_limits::<KRich, _>(ch.limits, ch.premade_table, Alone(PAIRS[pair].1, env.root(0), env.root(1))) };
        teardown();
        let what = || format!("limits {:?}, modes {:?} ({discipline:?}), precheck {two}", ch.l(), PAIRS[pair]);
        judge_lazy(&env, &what)?;
        if !matches!(r, Out::Cmp(GOut::Ok(_))) {
            return Err(format!("{}: {r:?}", what()));
        }
    }
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "pairs of acyclic and cyclic graphs x all premade functions (random limits included) x generic combinations of modes, limits, tables and schedules; every node operation is judged when it happens: an edge may be requested only if what the edge before the previous one leads to was examined, and nothing at all after values compared as inequivalent; and the number of compared pairs of values against a literal traversal up to the first difference; non-trivial: the graphs differ, and at least 4 values compared and 8 edges requested in a comparison",
        assumptions: &["paths are identified by a 64-bit hash", "custom recursion modes that take all edges at once are not judged here"],
        sections: vec![
            boxed(Section { name: "each-small", quick: arena::each_size(arena::EACH_TINY), thorough: arena::each_size(arena::EACH_SMALL), strategy: |t| with(arena::each(match t { Tier::Quick => arena::EACH_TINY, Tier::Thorough => arena::EACH_SMALL }), gen()), check: check_c22, stack: BIG_STACK }),
            boxed(Section { name: "any", quick: 60_000, thorough: 900_000, strategy: |_| with(arena::pairs(None, 400), gen()), check: check_c22, stack: BIG_STACK }),
            boxed(Section { name: "tree", quick: 60_000, thorough: 900_000, strategy: |_| with(arena::tree_like(300, 300, 2), gen()), check: check_c22, stack: BIG_STACK }),
            boxed(Section { name: "huge", quick: 48, thorough: 600, strategy: |t| huge(&arena::ALL_SHAPES, 12, hi(t), gen_hashed()), check: |c, x| check_c22(&c.graph(), x), stack: BIG_STACK }),
        ],
    }
}

// ---------------------------------------------------------------------------------------- C23

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Script {
    /// Decisions of the recursion mode.
    pub words: Vec<u16>,
    /// Supply a made-up inequivalence at this call of `next`.
    pub at: Option<u8>,
    /// How many pairs are descended at most.
    pub descend: u16,
}
impl Extra for Script {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        for i in 0..self.words.len() {
            let mut c = self.clone();
            c.words.remove(i);
            out.push(c);
        }
        if self.at.is_some() {
            out.push(Script { at: None, ..self.clone() });
        }
        if self.descend > 0 {
            out.push(Script { descend: self.descend / 2, ..self.clone() });
            out.push(Script { descend: self.descend - 1, ..self.clone() });
        }
        out
    }
}
fn script() -> impl Strategy<Value = Script> {
    (prop::collection::vec(any::<u16>(), 1..12), prop::option::weighted(0.2, 1..20_u8), prop_oneof![0..4_u16, 0..60_u16]).prop_map(|(words, at, descend)| Script { words, at, descend })
}

fn check_c23(c: &G<Script>, ctx: &mut Ctx) -> Result<(), String> {
    let g = &c.arena;
    let x = &c.x;
    setup(Cfg { descend: vec![YES; x.descend.into()], then_no: true, recur_err: x.at.map(u64::from), ..Cfg::default() });
    st(|s| s.probe = x.words.iter().map(|w| u32::from(*w)).collect());
    let env = Env::new(g).with_budget(1 << 20);
    trace_start();
    let r = probed(&env);
    let trace = trace_take();
    let (bad, recurs, draws, past) = st(|s| (s.probe_bad.take(), s.recurs, s.draws, s.past_end));
    teardown();
    if let Some(b) = bad {
        return Err(format!("a recursion mode is given, of {b}"));
    }
    // What the comparison must end with, once something decided it.
    let mut end: Option<Rich> = None;
    // The pair that must be compared next.
    let mut due = Some((g.roots[0], g.roots[1]));
    let mut begun = false;
    // The first edges are requested only afterwards.
    let mut peek = false;
    let mut descended = None;
    for (i, e) in trace.iter().enumerate() {
        let here = || format!("event {i}, {e:?}");
        if matches!(e, Ev::Edge(..)) && (end.is_none() || peek) {
            continue;
        }
        if let Some(r) = &end {
            return Err(format!("{}, although the comparison ended with {r:?}", here()));
        }
        if descended.is_some() && !matches!(e, Ev::Recur(_)) {
            return Err(format!("{}, although nodes {descended:?} are to be recurred on", here()));
        }
        match *e {
            Ev::Trav(_) => {
                if due.is_none() || begun {
                    return Err(format!("{}, although no pair was supplied", here()));
                }
                begun = true;
                if due.is_some_and(|(a, b)| g.nodes[a as usize].id == g.nodes[b as usize].id) {
                    due = None;
                    begun = false;
                }
            }
            Ev::Cmp(a, b) => {
                if due != Some((a, b)) || !begun {
                    return Err(format!("{}, although {due:?} was supplied", here()));
                }
                due = None;
                begun = false;
                if !oracle::values_equal(g, a, b) {
                    end = Some(Rich::Val { a, b, serial: 1 });
                } else {
                    let (x, y) = (g.nodes[a as usize].e.len(), g.nodes[b as usize].e.len());
                    if (x == 0) != (y == 0) {
                        end = Some(Rich::Edges(x.cmp(&y)));
                        peek = true;
                    }
                }
            }
            Ev::Do(a, b, ans) if due.is_none() => descended = (ans == YES).then_some((a, b)),
            Ev::Recur(_) if descended.is_some() => descended = None,
            Ev::Next(kind, a, b) if due.is_none() => match kind {
                0 => end = Some(Rich::Equiv),
                1 => due = Some((a, b)),
                2 => end = Some(Rich::Edges(if a == 1 { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less })),
                _ => end = Some(made_up(0)),
            },
            _ => return Err(format!("{} is unexpected (supplied: {due:?})", here())),
        }
    }
    let fine = match (&r, &end) {
        (Out::Cmp(GOut::Ok(Rich::Val { a: u32::MAX, .. })), Some(Rich::Val { a: u32::MAX, .. })) => true,
        (Out::Cmp(GOut::Ok(got)), Some(want)) => got == want,
        _ => false,
    };
    if !fine {
        return Err(format!("{r:?}, although it ended with {end:?}"));
    }
    ctx.class_if(past > 0, "asked after the end");
    ctx.class_if(matches!(&end, Some(Rich::Edges(_))), "different amounts");
    ctx.class_if(matches!(&end, Some(Rich::Val { a: u32::MAX, .. })), "made-up inequivalence");
    ctx.nontrivial = recurs >= 3 && draws >= 4;
    Ok(())
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        rule: "pairs of graphs x scripts of a custom recursion mode (how many edges are taken or skipped, singly or all at once, when, in which order they are resumed, whether at once or later or never, how often it is asked again after the end, where it makes up an inequivalence); every item of every iterator of edges is judged against the graph, and the events of the comparison against an automaton; non-trivial: at least 3 iterators given and 4 items requested",
        assumptions: &[],
        sections: vec![
            boxed(Section { name: "each-small", quick: arena::each_size(arena::EACH_TINY), thorough: arena::each_size(arena::EACH_SMALL), strategy: |t| with(arena::each(match t { Tier::Quick => arena::EACH_TINY, Tier::Thorough => arena::EACH_SMALL }), script()), check: check_c23, stack: BIG_STACK }),
            boxed(Section { name: "any", quick: 300_000, thorough: 4_000_000, strategy: |_| with(arena::pairs(None, 200), script()), check: check_c23, stack: BIG_STACK }),
            boxed(Section { name: "tree", quick: 200_000, thorough: 3_000_000, strategy: |_| with(arena::tree_like(100, 200, 2), script()), check: check_c23, stack: BIG_STACK }),
        ],
    }
}
