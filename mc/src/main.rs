mod checks;
mod engine;
mod model;
mod session;

use engine::Tier;
use std::path::Path;

fn main() {
    session::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let t = std::env::var("VERIF_TIER").unwrap_or_default();
            let c = checks::get(&args[2]).expect("unknown property");
            engine::check(&*c, tier(args.get(3).map(|s| s.as_str()).unwrap_or(&t)))
        }
        Some("worker") => {
            let c = checks::get(&args[2]).expect("unknown property");
            engine::worker(
                &*c,
                tier(&args[3]),
                args[4].parse().unwrap(),
                args[5].parse().unwrap(),
                Path::new(&args[6]),
                args[7].parse().unwrap(),
            );
            0
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let c = checks::get(v["property"].as_str().unwrap()).expect("unknown property");
            engine::replay(&*c, &v)
        }
        Some("list") => {
            let t = tier(args.get(3).map(|s| s.as_str()).unwrap_or(""));
            let c = checks::get(&args[2]).expect("unknown property");
            c.enumerate(t, &mut |v| println!("{v}"));
            0
        }
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | replay FILE | list ID [tier]");
            2
        }
    };
    std::process::exit(code);
}
