//! C20: programs written against the documented interface.

#[path = "../../harness/src/driver.rs"]
#[allow(dead_code)]
mod driver;
#[path = "../../harness/src/model.rs"]
#[allow(dead_code)]
mod model;
mod render;
mod usage;

use std::{path::PathBuf, process::exit};

fn main() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("PC_PANICS").is_some() {
            eprintln!("{info}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let part = PathBuf::from(arg("--part").expect("--part"));
            let replays = PathBuf::from(arg("--replays").expect("--replays"));
            let ctx = driver::Ctx::new("C20", arg("--tier").as_deref() == Some("thorough"), seed, &arg("--profile").unwrap_or("release".into()))
                .writes_to(part.clone(), replays.clone());
            model::self_test(seed);
            usage::c20(&ctx);
            exit(ctx.finish(&part, &replays));
        }
        Some("replay") => {
            let doc: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(args.get(1).expect("file")).expect("replay file")).expect("json");
            println!("C20 {}: {}", doc["sub"], doc["case"]);
            match usage::replay(&doc["case"]) {
                Ok(_) => println!("holds"),
                Err(m) => {
                    println!("VIOLATED: {m}");
                    exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: usagecheck run C20 --tier T --seed N --profile P --part FILE --replays DIR | replay FILE");
            exit(2)
        }
    }
}
