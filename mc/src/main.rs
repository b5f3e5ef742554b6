#![allow(dead_code)]
mod canon;
mod common;
mod engine;
mod gen;
mod props;
mod refm;
mod seed;
mod tree;

use engine::*;
use std::{path::PathBuf, time::Duration};

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn tier(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["list"] => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        ["run", prop, t] => {
            let t = tier(t);
            let Some(p) = props::find(prop) else {
                println!("unknown property {}", prop);
                std::process::exit(2)
            };
            let fams = (p.families)(t);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let setup = Setup { property: prop.to_string(), tier: t, seed, root: root() };
            let budget = Duration::from_secs(t.pick(420, 5400));
            supervise(&setup, &fams, "model_checking", p.rule, p.assumptions, budget)
        }
        ["child", prop, t, slot, out, budget] => {
            let p = props::find(prop).unwrap();
            let fams = (p.families)(tier(t));
            explore(&fams, slot.as_ref(), out.as_ref(), Duration::from_secs(budget.parse().unwrap()), &load_known(&root(), prop))
        }
        ["one", prop, t, fam, idx] => one(prop, t, fam, idx, false),
        ["replay", file] => {
            let s = std::fs::read_to_string(file).expect("replay file");
            let get = |k: &str| {
                s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|x| x.to_string())).unwrap_or_default()
            };
            one(&get("property"), &get("tier"), &get("family"), &get("index"), true)
        }
        ["dump", seed] => {
            print!("{}", seed::with_seed(seed.parse::<u64>().unwrap() + 1000, props::determinism::dump).unwrap_or_else(|e| e));
            0
        }
        ["include", root] => props::total::include(root),
        ["lengthy", kind, n] => props::total::lengthy(kind, n.parse().unwrap()),
        ["text", t] => {
            // debugging aid: reference and implementation side by side
            let t = t.replace("\\n", "\n");
            println!("expected: {:#?}", refm::expect(&t));
            println!("observed: {:#?}", canon::parse_text(&t));
            0
        }
        _ => {
            eprintln!("usage: mc run PROP quick|thorough | mc replay FILE | mc list");
            2
        }
    };
    std::process::exit(code);
}

fn one(prop: &str, t: &str, fam: &str, idx: &str, verbose: bool) -> i32 {
    install_panic_hook();
    let Some(p) = props::find(prop) else { return 2 };
    let fams = (p.families)(tier(t));
    let f = match fam.parse::<usize>() {
        Ok(i) => fams.get(i),
        Err(_) => fams.iter().find(|f| f.name == fam),
    };
    let (Some(f), Ok(i)) = (f, idx.parse::<u64>()) else { return 2 };
    let scratch = root().join("scratch").join(format!("one-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    std::env::set_var("MC_SCRATCH", &scratch);
    let mut ctx = Ctx::default();
    ctx.verbose = verbose;
    let handle = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || run_case(f, i, &mut ctx))
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("panic".into()))
    });
    let _ = std::fs::remove_dir_all(&scratch);
    match handle {
        Ok(()) => {
            if verbose {
                println!("{} {}[{}]: holds", prop, f.name, i);
            }
            0
        }
        Err(e) => {
            if verbose {
                println!("{} {}[{}]: VIOLATED", prop, f.name, i);
            }
            println!("{}", e);
            1
        }
    }
}
