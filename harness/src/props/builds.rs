//! C21: build configurations, through probe programs built once per configuration.

use super::protocol::{edgy, small, Edgy};
use super::*;
use std::cell::RefCell;
use std::cmp::Ordering as O;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Probe {
    name: String,
    path: PathBuf,
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Probe {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn trouble(what: &str) -> ! {
    eprintln!("C21: {what}");
    std::process::exit(2);
}
impl Probe {
    fn start(path: &Path) -> Probe {
        let mut child = Command::new(path)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| trouble(&format!("cannot start {}: {e}", path.display())));
        let (to, from) = (child.stdin.take().expect("stdin"), BufReader::new(child.stdout.take().expect("stdout")));
        Probe { name: path.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default(), path: path.into(), child, to, from }
    }
    fn send(&mut self, line: &str) -> bool {
        self.to.write_all(line.as_bytes()).and_then(|()| self.to.flush()).is_ok()
    }
    fn receive(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.from.read_line(&mut s) {
            Ok(_) if s.ends_with('\n') => Some(s),
            _ => None,
        }
    }
}

/// When a case first ended a probe.
static ENDED: Mutex<Option<Instant>> = Mutex::new(None);
thread_local! {
    static PROBES: RefCell<Vec<Probe>> = const { RefCell::new(Vec::new()) };
}
fn start_all(v: &mut Vec<Probe>) {
    let dir = std::env::var_os("GSC_PROBES").map_or_else(|| PathBuf::from("/verif/probe/target/bin"), PathBuf::from);
    let mut paths: Vec<PathBuf> = std::fs::read_dir(&dir).unwrap_or_else(|e| trouble(&format!("{}: {e}", dir.display()))).map(|e| e.expect("entry").path()).filter(|p| p.extension().is_none()).collect();
    paths.sort();
    if paths.len() < 2 {
        trouble("fewer than two probes");
    }
    v.extend(paths.iter().map(|p| Probe::start(p)));
}

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct Ask {
    /// 0 usize, 1 u8, 2 i8.
    pub index: u8,
    pub limit: u16,
}
impl Extra for Ask {
    fn shrinks(&self) -> Vec<Self> {
        let mut out = Vec::new();
        if self.index > 0 {
            out.push(Ask { index: 0, ..self.clone() });
        }
        if self.limit > 0 {
            out.push(Ask { limit: 0, ..self.clone() });
            out.push(Ask { limit: self.limit / 2, ..self.clone() });
        }
        out
    }
}

fn show(d: Diff) -> String {
    match d {
        Diff::None => "E".into(),
        Diff::Val(a, b) => format!("V{a},{b}"),
        Diff::Edges(_, _, O::Less) => "L".into(),
        Diff::Edges(..) => "G".into(),
    }
}

fn check_c21(c: &G<Ask>, ctx: &mut Ctx) -> Result<(), String> {
    if ENDED.lock().expect("lock").is_some_and(|t| t.elapsed() > Duration::from_secs(30)) {
        // No further shrinking (such cases take long).
        return Ok(());
    }
    let mut g = c.arena.clone();
    let index = c.x.index % 3;
    let cap = [usize::MAX, 256, 128][usize::from(index)];
    ctx.class_if(g.max_degree() > cap, "more edges than representable");
    for n in &mut g.nodes {
        n.e.truncate(cap);
    }
    let tree = small(&g, 3000);
    let acyclic = g.is_acyclic();
    let limit = u64::from(c.x.limit);
    let dedupe = |g: &Arena| if (g.nodes.len() as u64).pow(2) <= 250_000 { Dedupe::Pairs } else { Dedupe::Classes };
    let bfs = Sim::new(&g, Order::Bfs, dedupe(&g)).run().diff;
    let dfs = if tree { Some(Sim::new(&g, Order::Dfs, Dedupe::Off).run().diff) } else { acyclic.then(|| Sim::new(&g, Order::Dfs, Dedupe::Pairs).run().diff) };
    let limited = |o: Order| {
        let r = Sim::new(&g, o, Dedupe::Off).max(limit).run();
        if r.truncated {
            "limit".into()
        } else {
            show(r.diff)
        }
    };
    let (lim_dfs, lim_bfs) = (limited(Order::Dfs), limited(Order::Bfs));
    let (n, d) = (g.branch_ids(&g.roots), g.max_degree());
    let bound = oracle::work_bound(n, d, 40, 800).max(oracle::work_bound(n, d, 1, 24)).max(3000).max(limit) + 400;
    let budget = op_budget(bound, d);

    // The whole graph is sent, not the truncated one.
    let (a, b) = (c.arena.roots[0], c.arena.roots[1]);
    let mut line = format!("{index} {} {limit} {a} {b} {budget} {}", u8::from(tree), c.arena.nodes.len());
    for x in &c.arena.nodes {
        line.push_str(&format!(" {} {} {}", x.l, x.id, x.e.len()));
        for t in &x.e {
            line.push_str(&format!(" {t}"));
        }
    }
    line.push('\n');

    ctx.class_if(!acyclic, "cyclic");
    ctx.class_if(bfs != Diff::None, "inequivalent");
    ctx.class_if(lim_dfs == "limit" || lim_bfs == "limit", "a limit is reached");
    ctx.class_if(tree, "compared without detection too");
    ctx.nontrivial = n >= 3 && (g.has_sharing() || !acyclic || d > 100);

    PROBES.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_empty() {
            start_all(&mut p);
        }
        for x in p.iter_mut() {
            x.send(&line);
        }
        let mut answers = Vec::new();
        let mut ended = None;
        for x in p.iter_mut() {
            let r = x.receive();
            alive();
            let Some(r) = r else {
                ended = Some(x.path.clone());
                break;
            };
            answers.push((x.name.clone(), r));
        }
        if let Some(path) = ended {
            // All are started anew for the next case.
            p.clear();
            // Again, alone, to know that this case is the cause.
            let mut x = Probe::start(&path);
            x.send(&line);
            if x.receive().is_some() {
                trouble(&format!("{} stopped, but not because of a case", x.name));
            }
            let name = &x.name;
            ENDED.lock().expect("lock").get_or_insert_with(Instant::now);
            return Err(format!("configuration {name}: the process crashes, or does not end"));
        }
        for (name, r) in &answers {
            for part in r.split_ascii_whitespace() {
                let Some((f, got)) = part.split_once('=') else { trouble(&format!("unexpected answer {part}")) };
                let is = |s: &str| f.starts_with(s);
                let want: Option<String> = if is("lim.deep") {
                    Some(lim_bfs.clone())
                } else if is("lim.") {
                    Some(lim_dfs.clone())
                } else if is("gen.bfs") || is("robust") || is("deep") {
                    Some(show(bfs))
                } else {
                    dfs.map(show)
                };
                let ok = match &want {
                    Some(w) => w == got,
                    // Some difference or other.
                    None => (got == "E") == (bfs == Diff::None) && (got == "E" || got == "L" || got == "G" || got.starts_with('V')),
                };
                if !ok {
                    let others: Vec<String> = answers
                        .iter()
                        .filter_map(|(n, r)| r.split_ascii_whitespace().find(|p| p.split_once('=').map(|x| x.0) == Some(f)).map(|p| format!("{n}: {}", p.split_once('=').map_or("", |x| x.1))))
                        .collect();
                    return Err(format!("configuration {name}: {f} gives {got}, expected {} (all: {})", want.unwrap_or_else(|| if bfs == Diff::None { "E".into() } else { "a difference".into() }), others.join(", ")));
                }
                ctx.count("results compared", 1);
            }
        }
        Ok(())
    })
}

pub fn c21() -> Prop {
    fn ask(t: BoxedStrategy<u8>) -> impl Strategy<Value = Ask> {
        (t, prop_oneof![0..40_u16, 0..3000_u16]).prop_map(|(index, limit)| Ask { index, limit })
    }
    Prop {
        id: "C21",
        level: "exploration",
        rule: "pairs of graphs, given to one probe program per build configuration (twelve selections of features and toolchains, optimised without assertions and unoptimised with them), every function that exists there against the exact first difference (or, depth-first on cyclic graphs, the exact verdict), with index types usize, u8 and i8; before that, five selections are compiled into a program without the standard library (and, without the feature for it, without an allocator); non-trivial: at least three branch nodes, and sharing, a cycle or more than 100 edges",
        assumptions: &["configurations that fail to compile for reasons outside of the tested crate are left out with a note"],
        sections: vec![
            boxed(Section { name: "any", quick: 9_600, thorough: 400_000, strategy: |_| with(arena::pairs(None, 300), ask(prop_oneof![4 => Just(0_u8), 1 => 0..3_u8].boxed())), check: check_c21, stack: 8 << 20 }),
            boxed(Section { name: "tree", quick: 24_000, thorough: 400_000, strategy: |_| with(arena::tree_like(300, 300, 2), ask(prop_oneof![4 => Just(0_u8), 1 => 0..3_u8].boxed())), check: check_c21, stack: 8 << 20 }),
            boxed(Section {
                name: "many-edges",
                quick: 4_000,
                thorough: 60_000,
                strategy: |_| {
                    (edgy(&[0, 1], 60), 0..600_u16).prop_map(|(e, limit): (Edgy, u16)| G { arena: e.build([256, 128][usize::from(e.ty)]), x: Ask { index: e.ty + 1, limit } }).boxed()
                },
                check: check_c21,
                stack: 8 << 20,
            }),
        ],
    }
}
