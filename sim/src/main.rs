#![allow(dead_code)]
mod ambient;
mod args;
mod check;
mod confs;
mod dep;
mod elem;
mod engine;
mod guard;
mod life;
mod model;
mod ops;
mod place;
mod plan;
mod props;
mod rng;
mod scen;
mod twoconf;

#[global_allocator]
static GA: engine::Counting = engine::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match s(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let tier = if s(3).is_empty() { std::env::var("VERIF_TIER").unwrap_or_default() } else { s(3).to_string() };
            match props::all().iter().find(|p| p.id == s(2)) {
                Some(p) => check::check(p, seed, tier == "thorough"),
                None => {
                    eprintln!("no property {}", s(2));
                    2
                }
            }
        }
        "replay" => check::replay(s(2)),
        "dump" => {
            twoconf::dump(s(2).parse().unwrap_or(1), s(3).parse().unwrap_or(4));
            0
        }
        "serve" => {
            confs::serve();
            0
        }
        "list" => {
            for o in ops::catalogue() {
                println!("{}", o.name);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check <property> [quick|thorough] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
