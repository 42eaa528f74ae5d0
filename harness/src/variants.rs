//! The premade functions of the crate, and how their outcomes are observed.

use crate::node::*;
use graph_safe_compare::basic::modes::limited::LimitReached;
use graph_safe_compare::{basic, cycle_safe, deep_safe, robust, wide_safe};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum V {
    Basic,
    BasicLim,
    Deep,
    DeepLim,
    Wide,
    WideLim,
    Cycle,
    CyclePre,
    Robust,
    RobustPre,
}
pub const ALL_V: [V; 10] = [
    V::Basic,
    V::BasicLim,
    V::Deep,
    V::DeepLim,
    V::Wide,
    V::WideLim,
    V::Cycle,
    V::CyclePre,
    V::Robust,
    V::RobustPre,
];
pub const SAFE_V: [V; 4] = [V::Cycle, V::CyclePre, V::Robust, V::RobustPre];
pub const PLAIN_V: [V; 3] = [V::Basic, V::Deep, V::Wide];

impl V {
    pub fn bfs(self) -> bool {
        matches!(self, V::Deep | V::DeepLim | V::Robust | V::RobustPre)
    }
    pub fn call_stack(self) -> bool {
        matches!(self, V::Basic | V::BasicLim | V::Cycle | V::CyclePre)
    }
    pub fn detects(self) -> bool {
        matches!(self, V::Cycle | V::CyclePre | V::Robust | V::RobustPre)
    }
    pub fn precheck(self) -> bool {
        matches!(self, V::CyclePre | V::RobustPre)
    }
    pub fn limited(self) -> bool {
        matches!(self, V::BasicLim | V::DeepLim | V::WideLim)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out<C> {
    Cmp(C),
    Limit,
    OverBudget,
    Fuse,
    Panic(String),
}

impl<C> Out<C> {
    pub fn from_panic(p: Box<dyn std::any::Any + Send>) -> Self {
        if p.is::<OverBudget>() {
            Out::OverBudget
        } else if p.is::<Fuse>() {
            Out::Fuse
        } else if let Some(s) = p.downcast_ref::<String>() {
            Out::Panic(s.clone())
        } else if let Some(s) = p.downcast_ref::<&str>() {
            Out::Panic((*s).to_string())
        } else {
            Out::Panic("panic".to_string())
        }
    }
}

/// Run `f`, turning panics into values.
pub fn guarded<C>(f: impl FnOnce() -> Out<C>) -> Out<C> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(p) => Out::from_panic(p),
    }
}

fn lim<C>(r: Result<C, LimitReached>) -> Out<C> {
    match r {
        Ok(c) => Out::Cmp(c),
        Err(LimitReached) => Out::Limit,
    }
}

pub fn run_nodes<'e, 'g, K: Kind<'g>>(v: V, limit: u64, a: H<'e, 'g, K>, b: H<'e, 'g, K>) -> Out<K::Cmp> {
    guarded(move || match v {
        V::Basic => Out::Cmp(basic::equiv(a, b)),
        V::BasicLim => lim(basic::limited_equiv(limit, a, b)),
        V::Deep => Out::Cmp(deep_safe::equiv(a, b)),
        V::DeepLim => lim(deep_safe::limited_equiv(limit, a, b)),
        V::Wide => Out::Cmp(wide_safe::equiv(a, b)),
        V::WideLim => lim(wide_safe::limited_equiv(limit, a, b)),
        V::Cycle => Out::Cmp(cycle_safe::equiv(a, b)),
        V::CyclePre => Out::Cmp(cycle_safe::precheck_equiv(a, b)),
        V::Robust => Out::Cmp(robust::equiv(a, b)),
        V::RobustPre => Out::Cmp(robust::precheck_equiv(a, b)),
    })
}

/// Compare the two roots of the environment's graph.
pub fn run<'e, 'g, K: Kind<'g>>(v: V, env: &'e Env<'g>) -> Out<K::Cmp> {
    run_nodes::<K>(v, u64::MAX, env.root(0), env.root(1))
}
