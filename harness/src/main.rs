use std::{path::PathBuf, process::exit};

use pokercheck::{
    driver::{Ctx, Outcome},
    glue, model, props_deck, props_err, props_game, props_inv, props_order, props_parse, props_rank, props_repl,
};
use serde_json::Value;

type Run = fn(&Ctx);
type Replay = fn(&str, &Value) -> Outcome;
/// Property, whether it needs the evaluations of all strengths, check, replay.
const ALL: &[(&str, bool, Run, Replay)] = &[
    ("C01", true, props_rank::c01, props_rank::c01_replay),
    ("C02", true, props_rank::c02, props_rank::c02_replay),
    ("C03", true, props_rank::c03, props_rank::c03_replay),
    ("C04", true, props_order::c04, props_order::c04_replay),
    ("C05", true, props_order::c05, props_order::c05_replay),
    ("C06", false, props_err::c06, props_err::c06_replay),
    ("C07", false, props_inv::c07, props_inv::c07_replay),
    ("C08", true, props_inv::c08, props_inv::c08_replay),
    ("C09", false, props_parse::c09, props_parse::c09_replay),
    ("C10", false, props_parse::c10, props_parse::c10_replay),
    ("C11", false, props_parse::c11, props_parse::c11_replay),
    ("C12", false, props_err::c12, props_err::c12_replay),
    ("C13", false, props_order::c13, props_order::c13_replay),
    ("C14", false, props_deck::c14, props_deck::c14_replay),
    ("C15", false, props_deck::c15, props_deck::c15_replay),
    ("C17", false, props_repl::c17, props_repl::c17_replay),
    ("C18", false, props_game::c18, props_game::c18_replay),
    ("C19", true, props_rank::c19, props_rank::c19_replay),
];

fn usage() -> ! {
    eprintln!("usage: pokercheck run ID --tier quick|thorough --seed N --profile P --part FILE --replays DIR | replay FILE");
    exit(2)
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        // Panics inside checks are caught and become violations; one in the machinery must be seen.
        if std::env::var_os("PC_PANICS").is_some() {
            eprintln!("{info}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let id = args.get(1).cloned().unwrap_or_else(|| usage());
            let Some(p) = ALL.iter().find(|p| p.0 == id) else { usage() };
            let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let ctx = Ctx::new(&id, arg("--tier").as_deref() == Some("thorough"), seed, &arg("--profile").unwrap_or("release".into()));
            let part = PathBuf::from(arg("--part").unwrap_or_else(|| usage()));
            let replays = PathBuf::from(arg("--replays").unwrap_or_else(|| usage()));
            let ctx = ctx.writes_to(part.clone(), replays.clone());
            model::self_test(seed);
            let ready = if p.1 { glue::prepare() } else { Ok(()) };
            match ready {
                Ok(()) => p.2(&ctx),
                Err(f) => ctx.fail(f),
            }
            exit(ctx.finish(&part, &replays));
        }
        Some("replay") => {
            let path = args.get(1).cloned().unwrap_or_else(|| usage());
            let doc: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
            let id = doc["property"].as_str().expect("property");
            let Some(p) = ALL.iter().find(|p| p.0 == id) else { usage() };
            let sub = doc["sub"].as_str().expect("sub");
            println!("{id} {sub}: {}", doc["case"]);
            let r = if sub == "prepare" {
                pokercheck::driver::replay(&doc["case"], glue::replay_prepare)
            } else {
                if p.1 {
                    glue::prepare().expect("representatives");
                }
                p.3(sub, &doc["case"])
            };
            match r {
                Ok(_) => println!("holds"),
                Err(m) => {
                    println!("VIOLATED: {m}");
                    exit(1)
                }
            }
        }
        // Helpers for checks that need another process.
        Some("once") => {
            let h: Vec<u8> = args.get(1).map(|s| s.split_whitespace().filter_map(model::parse).collect()).unwrap_or_default();
            println!("{}", props_inv::once(&h));
        }
        Some("cold") => println!("{}", props_inv::cold(args.get(1).map(|s| s.as_str()).unwrap_or(""))),
        Some("deck") => println!("{}", props_deck::generate_text()),
        Some("shuffled") => println!("{}", props_deck::shuffled_text(args.get(1).and_then(|s| s.parse().ok()).unwrap_or(1))),
        _ => usage(),
    }
}
