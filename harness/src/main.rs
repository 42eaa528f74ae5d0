#![cfg_attr(not(feature = "all"), allow(dead_code, unused_imports, unused_variables, unused_mut))]

mod alloc;
mod arena;
mod generic;
mod node;
mod oracle;
mod props;
mod recurmode;
mod runner;
mod variants;

use runner::{RunArgs, Tier};
use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("VERIF_PANICS").is_some() {
            eprintln!("{info}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let code = match args.first().map(String::as_str) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => {
            let id = args[1].clone();
            let props = props::all();
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            let root = PathBuf::from(get("--root").unwrap_or_else(|| "/verif".into()));
            let a = RunArgs {
                id: id.clone(),
                tier: if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
                seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                journal: get("--journal").map(PathBuf::from),
                scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                only: get("--only"),
            };
            runner::run_prop(p, &a, &root.join(format!("evidence/{id}.json")), &root.join("replays"))
        }
        Some("alone") => props::alone(),
        Some("replay") => runner::replay(&props::all(), &PathBuf::from(&args[1])),
        _ => {
            eprintln!("usage: gsc_verif list | run ID [--tier T] [--seed N] [--scale F] [--only SECTION] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
