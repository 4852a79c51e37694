mod engine;
mod gen;
mod io;
mod src;
mod props;
mod refimpl;
use engine::*;
use std::path::Path;

#[global_allocator]
static A: Counting = Counting;

/// cases run on a thread with a fixed, ordinary stack
fn on_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().unwrap_or(3)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = real_main(args);
    std::process::exit(code);
}

fn prop(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

fn real_main(args: Vec<String>) -> i32 {
    install_hook();
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    match a.get(1).copied() {
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.parts.iter().map(|x| x.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some("worker") => {
            let (id, k, n, seed, tier, dir) = (args[2].clone(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6] == "thorough", args[7].clone());
            on_stack(move || worker(&prop(&id), k, n, seed, tier, Path::new(&dir)))
        }
        Some("gen") => {
            let (id, part, seed, idx, tier, dump) = (args[2].clone(), args[3].clone(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6] == "thorough", args[7].clone());
            on_stack(move || {
                let mut s = src::Src::from_seed(seed_of(seed, &id, &part, idx));
                if dump != "-" {
                    s.dump = Some(std::fs::File::create(&dump).unwrap());
                }
                exec_one(&prop(&id), &part, s, tier, dump == "-")
            })
        }
        Some("exec") | Some("exec-print") => {
            let (print, id, part, tier, tape) = (a[1] == "exec-print", args[2].clone(), args[3].clone(), a[4] == "thorough", load_tape(Path::new(a[5])));
            on_stack(move || exec_one(&prop(&id), &part, src::Src::from_tape(tape), tier, print))
        }
        Some("shrink") => {
            let (id, part, tier, tape, out) = (args[2].clone(), args[3].clone(), a[4] == "thorough", load_tape(Path::new(a[5])), args[6].clone());
            let known: Vec<String> = a[7].split('\u{1}').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
            on_stack(move || shrink(&prop(&id), &part, tape, Path::new(&out), &known, 45, tier))
        }
        Some("check") => {
            let p = prop(a[2]);
            if let Some(i) = a.iter().position(|x| *x == "--replay") {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(a[i + 1]).expect("replay file")).expect("json");
                let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                let part = v["part"].as_str().unwrap().to_string();
                let tier = v["tier"] == "thorough";
                let id = p.id;
                let c = on_stack(move || exec_one(&prop(id), &part, src::Src::from_tape(tape), tier, true));
                if c == 10 {
                    println!("VIOLATION property={} replay={}", p.id, a[i + 1]);
                    return 1;
                }
                return c;
            }
            let tier = a.iter().any(|x| *x == "--thorough") || (!a.iter().any(|x| *x == "--quick") && std::env::var("VERIF_TIER").as_deref() == Ok("thorough"));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let workers = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).min(16);
            check(&p, &Opts { seed, thorough: tier, workers, hang_s: 150 })
        }
        _ => {
            eprintln!("usage: harness check <ID> [--quick|--thorough] [--replay FILE] | list");
            2
        }
    }
}
