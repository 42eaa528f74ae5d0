//! A recursion mode that takes from the edges it is given what a script says, and judges them.

use crate::generic::*;
use crate::node::*;
use crate::variants::{guarded, Out};
use graph_safe_compare::generic::equiv::{self, CounterpartsResult, EdgesIter, Equiv, RecurMode};
use graph_safe_compare::Cmp as _;
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::marker::PhantomData;

/// The inequivalence that the script makes up.
pub fn made_up(n: u64) -> Rich {
    Rich::Val { a: u32::MAX, b: u32::MAX, serial: n }
}

/// An iterator, with what is known of it.
struct Given<'e, 'g> {
    it: EdgesIter<H<'e, 'g, KRich>>,
    a: u32,
    b: u32,
    at: usize,
    ended: bool,
}
type Item<'e, 'g> = Option<CounterpartsResult<H<'e, 'g, KRich>>>;

fn bad(what: impl FnOnce() -> String) {
    st(|s| {
        if s.probe_bad.is_none() {
            s.probe_bad = Some(what());
        }
    });
}
fn word() -> usize {
    st(|s| {
        let n = s.probe.len();
        let w = if n == 0 { 0 } else { s.probe[s.probe_at % n] };
        s.probe_at += 1;
        w as usize
    })
}

impl<'g> Given<'_, 'g> {
    fn here(&self, env: &Env<'g>, got: &dyn std::fmt::Debug) -> String {
        let (x, y) = (&env.g.nodes[self.a as usize].e, &env.g.nodes[self.b as usize].e);
        format!("the edges of nodes {} and {} ({} and {}), after {} of them{}: {got:?}", self.a, self.b, x.len(), y.len(), self.at, if self.ended { " and their end" } else { "" })
    }
}
impl<'e, 'g> Given<'e, 'g> {
    /// Judge what is got for the item after `skip` others.
    fn judge(&mut self, env: &Env<'g>, got: &Item<'e, 'g>, skip: usize) {
        let (x, y) = (&env.g.nodes[self.a as usize].e, &env.g.nodes[self.b as usize].e);
        let both = x.len().min(y.len());
        let differ = x.len() != y.len();
        st(|s| {
            s.draws += 1;
            s.past_end += u64::from(self.ended);
        });
        let at = self.at + skip;
        let want = if self.ended || at > both {
            Err(None)
        } else if at < both {
            Ok((x[at], y[at]))
        } else {
            Err(differ.then(|| x.len().cmp(&y.len())))
        };
        let fine = match (got, &want) {
            (Some(Ok([p, q])), Ok((a, b))) => (p.node, q.node, p.side, q.side) == (*a, *b, 0, 1),
            (Some(Err(Rich::Edges(o))), Err(Some(w))) => o == w,
            (None, Err(None)) => true,
            _ => false,
        };
        if !fine {
            let got: Option<Result<(u8, u32, u8, u32), &Rich>> = got.as_ref().map(|r| r.as_ref().map(|[p, q]| (p.side, p.node, q.side, q.node)));
            let want: Result<(u32, u32), Option<Ordering>> = want;
            bad(|| format!("{}, after {skip} that were skipped, instead of {want:?}", self.here(env, &got)));
        }
        match &got {
            Some(Ok(_)) => self.at = at + 1,
            _ => {
                self.at = at.min(both);
                self.ended = true;
            }
        }
    }
    fn announced(&self, env: &Env<'g>) {
        let (x, y) = (env.g.nodes[self.a as usize].e.len(), env.g.nodes[self.b as usize].e.len());
        let left = if self.ended { 0 } else { x.min(y) - self.at + usize::from(x != y) };
        let (lo, hi) = self.it.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            bad(|| self.here(env, &format!("announced as {lo} to {hi:?} items")));
        }
    }
    /// Take the next item.
    fn draw(&mut self, env: &Env<'g>) -> Item<'e, 'g> {
        self.announced(env);
        let got = self.it.next();
        self.judge(env, &got, 0);
        got
    }
    /// Skip some items.
    fn skip(&mut self, env: &Env<'g>, n: usize) -> Item<'e, 'g> {
        self.announced(env);
        let got = self.it.nth(n);
        self.judge(env, &got, n);
        got
    }
    /// Take all that are left, inside out.
    fn all(self, env: &Env<'g>) -> Vec<CounterpartsResult<H<'e, 'g, KRich>>> {
        self.announced(env);
        let Given { it, a, b, at, ended } = self;
        let mut items = Vec::new();
        it.for_each(|x| items.push(x));
        // (The iterator is gone, the others are judged as if it were not.)
        let (x, y) = (&env.g.nodes[a as usize].e, &env.g.nodes[b as usize].e);
        let both = x.len().min(y.len());
        let left = if ended { 0 } else { both - at + usize::from(x.len() != y.len()) };
        let fine = items.len() == left
            && items.iter().enumerate().all(|(i, r)| match r {
                Ok([p, q]) => at + i < both && (p.node, q.node, p.side, q.side) == (x[at + i], y[at + i], 0, 1),
                Err(c) => at + i == both && *c == Rich::Edges(x.len().cmp(&y.len())),
            });
        if !fine {
            let got: Vec<Result<(u32, u32), &Rich>> = items.iter().map(|r| r.as_ref().map(|[p, q]| (p.node, q.node))).collect();
            bad(|| format!("the edges of nodes {a} and {b} ({x:?} and {y:?}), after {at} of them, all at once: {got:?}"));
        }
        items
    }
}

enum Pending<'e, 'g> {
    Given(Box<Given<'e, 'g>>),
    Item(CounterpartsResult<H<'e, 'g, KRich>>),
}
#[derive(Default)]
pub struct Probe<'e, 'g>(VecDeque<Pending<'e, 'g>>);

/// Note what is supplied, and supply it.
fn supply<'e, 'g>(r: CounterpartsResult<H<'e, 'g, KRich>>) -> CounterpartsResult<H<'e, 'g, KRich>> {
    log(match &r {
        Ok([a, b]) => Ev::Next(1, a.node, b.node),
        Err(Rich::Edges(o)) => Ev::Next(2, *o as i8 as u32, 0),
        Err(_) => Ev::Next(3, 0, 0),
    });
    r
}

impl<'e, 'g, P> RecurMode<P> for Probe<'e, 'g>
where
    P: equiv::Params<Node = H<'e, 'g, KRich>, RecurMode = Self, Error = MyErr>,
{
    type Error = MyErr;

    fn recur(it: &mut Equiv<P>, edges_iter: EdgesIter<P::Node>) -> Result<Rich, MyErr> {
        log(Ev::Recur(YES));
        st(|s| s.recurs += 1);
        let (a, b) = st(|s| s.last_do);
        let mut given = Given { it: edges_iter, a, b, at: 0, ended: false };
        let w = word();
        let k = w / 16 % 5;
        // (The nodes know their environment, but are only seen through the edges.)
        let env = ENV.with(|e| e.get());
        // SAFETY: set for the duration of the comparison.
        let env: &Env<'g> = unsafe { &*(env as *const Env<'g>) };
        macro_rules! now {
            ($r:expr) => {
                match supply($r) {
                    Ok([a, b]) => match it.equiv_main(a, b) {
                        Ok(cmp) if cmp.is_equiv() => (),
                        result => return result,
                    },
                    Err(cmp) => return Ok(cmp),
                }
            };
        }
        match w % 16 {
            // Nothing is taken.
            0 => return Ok(Rich::new_equiv()),
            // All, and then more.
            1..=3 => {
                while let Some(x) = given.draw(env) {
                    it.recur_mode.0.push_back(Pending::Item(x));
                }
                for _ in 0..k {
                    if let Some(x) = given.draw(env) {
                        it.recur_mode.0.push_back(Pending::Item(x));
                    }
                }
                return Ok(Rich::new_equiv());
            }
            // All, inside out.
            12 => {
                for _ in 0..k {
                    if let Some(x) = given.draw(env) {
                        it.recur_mode.0.push_back(Pending::Item(x));
                    }
                }
                it.recur_mode.0.extend(given.all(env).into_iter().map(Pending::Item));
                return Ok(Rich::new_equiv());
            }
            // Skip some, and take the others later.
            13 => {
                if let Some(x) = given.skip(env, k) {
                    it.recur_mode.0.push_back(Pending::Item(x));
                }
                if let Some(x) = given.skip(env, k / 2) {
                    it.recur_mode.0.push_back(Pending::Item(x));
                }
            }
            // Some.
            4 => {
                for _ in 0..k {
                    if let Some(x) = given.draw(env) {
                        it.recur_mode.0.push_back(Pending::Item(x));
                    }
                }
                return Ok(Rich::new_equiv());
            }
            // Some, and the others later.
            5..=7 => {
                for _ in 0..k {
                    if let Some(x) = given.draw(env) {
                        it.recur_mode.0.push_back(Pending::Item(x));
                    }
                }
            }
            // All at once.
            8..=9 => {
                while let Some(x) = given.draw(env) {
                    now!(x);
                }
                return Ok(Rich::new_equiv());
            }
            // Some at once, in reverse, and the others later.
            10 => {
                let mut all: Vec<_> = (0..k).filter_map(|_| given.draw(env)).collect();
                while let Some(x) = all.pop() {
                    now!(x);
                }
            }
            11 if k == 0 => {
                log(Ev::Next(3, 0, 0));
                return Ok(made_up(1));
            }
            _ => (),
        }
        it.recur_mode.0.push_back(Pending::Given(Box::new(given)));
        Ok(Rich::new_equiv())
    }

    fn next(&mut self) -> Option<CounterpartsResult<P::Node>> {
        let env = ENV.with(|e| e.get());
        // SAFETY: as above.
        let env: &Env<'g> = unsafe { &*(env as *const Env<'g>) };
        let at = st(|s| {
            s.nexts += 1;
            s.nexts
        });
        if st(|s| s.cfg.recur_err == Some(at)) {
            return Some(supply(Err(made_up(2))));
        }
        while !self.0.is_empty() {
            let i = word() % self.0.len();
            let r = match &mut self.0[i] {
                Pending::Given(given) => given.draw(env),
                Pending::Item(_) => match self.0.swap_remove_back(i) {
                    Some(Pending::Item(r)) => Some(r),
                    _ => unreachable!(),
                },
            };
            match r {
                Some(r) => return Some(supply(r)),
                None => drop(self.0.swap_remove_back(i)),
            }
        }
        log(Ev::Next(0, 0, 0));
        None
    }

    fn reset(self) -> Self {
        Self::default()
    }
}

thread_local! {
    static ENV: std::cell::Cell<*const ()> = const { std::cell::Cell::new(std::ptr::null()) };
}

pub struct Ep<'e, 'g>(PhantomData<(&'e (), &'g ())>);
impl<'e, 'g: 'e> equiv::Params for Ep<'e, 'g> {
    type Node = H<'e, 'g, KRich>;
    type DescendMode = Scripted;
    type RecurMode = Probe<'e, 'g>;
    type Error = MyErr;
}

/// Compare the roots.
pub fn probed<'g>(env: &Env<'g>) -> Out<GOut<Rich>> {
    ENV.with(|e| e.set(env as *const Env<'g> as *const ()));
    guarded(|| match Equiv::<Ep>::default().equiv(env.root(0), env.root(1)) {
        Ok(c) => Out::Cmp(GOut::Ok(c)),
        Err(e) => Out::Cmp(GOut::Err(e)),
    })
}
