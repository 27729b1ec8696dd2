//! Compiles and runs generated programs and compares what they print with the model.

use std::{
    path::PathBuf,
    process::{exit, Command, Stdio},
    sync::atomic::{AtomicU64, Ordering},
};

use proptest::prelude::*;

use crate::{
    driver::{guard, Ctx, Outcome},
    model::{self, C},
    render::{self, Item, Program},
};

fn env(k: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| {
        eprintln!("machinery: {k} is not set");
        exit(2)
    })
}

/// A directory that is removed with everything in it.
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

fn holds(p: &Program) -> Outcome {
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = Dir(PathBuf::from(env("PC_SCRATCH")).join(format!("usage-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed))));
    std::fs::create_dir_all(&dir.0).expect("scratch directory");
    let (source, want) = render::program(p);
    let (file, exe) = (dir.0.join("program.rs"), dir.0.join("program"));
    std::fs::write(&file, &source).expect("source");
    let name = render::crate_name(p);
    let rustc = Command::new("rustc")
        .args(["--edition", render::EDITIONS[p.edition as usize % 4], "--crate-name", "program", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "opt-level=0"])
        .args(["-C", "codegen-units=1", "-L", &format!("dependency={}", env("PC_DEPS"))])
        .args(["--extern", &format!("{name}={}", env("PC_RLIB")), "--extern", &format!("rand={}", env("PC_RAND"))])
        .arg("-o")
        .arg(&exe)
        .arg(&file)
        .env("TMPDIR", &dir.0)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| {
            eprintln!("machinery: cannot run rustc: {e}");
            exit(2)
        });
    if !rustc.status.success() {
        let text = String::from_utf8_lossy(&rustc.stderr).into_owned();
        if !text.contains("error[") && !text.contains("error:") || text.contains("linking with") || text.contains("No space left") {
            eprintln!("machinery: rustc failed: {text}");
            exit(2);
        }
        let short: String = text.lines().filter(|l| !l.trim().is_empty()).take(14).collect::<Vec<_>>().join("\n").chars().take(1500).collect();
        return Err(format!("a program that uses the documented interface does not compile:\n{short}\n--- program ---\n{source}"));
    }
    let ran = Command::new(&exe).stdin(Stdio::null()).output().expect("program");
    let out = String::from_utf8_lossy(&ran.stdout).into_owned();
    if !ran.status.success() {
        let err: String = String::from_utf8_lossy(&ran.stderr).chars().take(600).collect();
        return Err(format!("the program failed ({}): {err}\n--- program ---\n{source}", ran.status));
    }
    let got: Vec<&str> = out.lines().collect();
    for (i, w) in want.iter().enumerate() {
        if got.get(i) != Some(&w.as_str()) {
            return Err(format!("part {i} of the program prints {:?}, expected {w:?}\n--- program ---\n{source}", got.get(i)));
        }
    }
    Ok(match p.items.len() {
        0 => None,
        1 => Some("one use"),
        _ => Some("several uses"),
    })
}

fn card() -> impl Strategy<Value = C> { 0u8..52 }

/// Five to seven cards, often close together in rank or suit so that every class appears.
fn hand() -> BoxedStrategy<Vec<C>> {
    prop_oneof![
        2 => proptest::sample::subsequence((0u8..52).collect::<Vec<_>>(), 5..=7).prop_shuffle(),
        2 => (0u8..9).prop_flat_map(|r| proptest::sample::subsequence((r * 4..r * 4 + 20).collect::<Vec<u8>>(), 5..=7).prop_shuffle()),
        1 => (0u8..4).prop_flat_map(|s| proptest::sample::subsequence((0u8..13).map(|r| r * 4 + s).collect::<Vec<u8>>(), 5..=7).prop_shuffle()),
        1 => (0u8..12).prop_flat_map(|r| proptest::sample::subsequence((r * 4..r * 4 + 8).collect::<Vec<u8>>(), 5..=6).prop_shuffle()),
        1 => (0u8..4, 0u8..9).prop_map(|(s, r)| (r..r + 5).map(|r| r * 4 + s).collect()),
        1 => proptest::collection::vec(card(), 0..8),
    ]
    .boxed()
}

fn word() -> BoxedStrategy<String> {
    prop_oneof![
        4 => card().prop_map(model::name),
        1 => "[23456789TJQKA][a-zA-Z]",
        1 => "[a-zA-Z0-9][chsd]",
        1 => "[a-zA-Z0-9♠é]{1,3}",
    ]
    .boxed()
}

fn item() -> impl Strategy<Value = Item> {
    let words = prop_oneof![2 => proptest::collection::vec(card().prop_map(model::name), 0..7), 1 => proptest::collection::vec(word(), 0..6)];
    (0u8..render::KINDS, hand(), words, any::<[u8; 6]>())
        .prop_map(|(kind, mut cards, words, [style, place, shadow, form, extra, more])| {
            // Either error would do for a card twice among fewer than five.
            if [8, 9, 24].contains(&kind) && cards.len() < 5 {
                cards.sort();
                cards.dedup();
            }
            Item { kind, cards, words, style, place, shadow, form, extra, more }
        })
}

fn program(most: usize) -> impl Strategy<Value = Program> {
    (0u8..4, any::<u8>(), any::<bool>(), proptest::collection::vec(item(), 1..=most)).prop_map(|(edition, name, all_macros, items)| Program { edition, name, all_macros, items })
}

/// The fewest items that fail, each as plain as it can be.
fn shrink(p: Program, fails: &dyn Fn(&Program) -> bool) -> Program {
    let mut p = p;
    for i in 0..p.items.len() {
        let one = Program { items: vec![p.items[i].clone()], ..p.clone() };
        if fails(&one) {
            p = one;
            break;
        }
    }
    if p.items.len() == 1 {
        for f in [0usize, 1, 2] {
            let mut q = p.clone();
            match f {
                0 => q.items[0].place = 0,
                1 => q.items[0].shadow = 0,
                _ => (q.edition, q.name) = (2, 0),
            }
            if fails(&q) {
                p = q;
            }
        }
    }
    p
}

pub fn c20(ctx: &Ctx) {
    // The form of every use at every place, under every import and beside every set of other names.
    let combos: Vec<(u8, u8, u8)> = (0..render::PLACES).flat_map(|p| (0..render::STYLES).flat_map(move |s| (0..render::SHADOWS).map(move |h| (p, s, h)))).collect();
    let at = |chunk: u64| -> Program {
        let mut r = chunk;
        let mut next = || {
            r = model::mix(r ^ ctx.seed << 20);
            r
        };
        let (place, style, shadow) = combos[chunk as usize % combos.len()];
        let items = (0..render::KINDS)
            .map(|kind| {
                let mut deck: Vec<C> = (0..52).collect();
                (0..7).for_each(|i| deck.swap(i, i + next() as usize % (52 - i)));
                let cards = deck[..5 + next() as usize % 3].to_vec();
                let words = cards.iter().map(|&c| model::name(c)).collect();
                Item { kind, cards, words, style, place, shadow, form: next() as u8, extra: next() as u8, more: next() as u8 }
            })
            .collect();
        Program { edition: next() as u8 % 4, name: next() as u8, all_macros: next() % 2 == 0, items }
    };
    let rounds = if ctx.thorough { 20 } else { 1 };
    ctx.exhaustive(
        "uses-everywhere",
        false,
        if ctx.checked() { combos.len() as u64 / 8 } else { combos.len() as u64 * rounds },
        |chunk, acc| {
            let p = at(if ctx.checked() { chunk * 8 } else { chunk });
            match guard(|| holds(&p)) {
                Ok(t) => acc.ok(t.unwrap_or("trivial"), 1),
                Err(m) => return acc.fail(p, m),
            }
            acc.sample(p);
        },
        holds,
        shrink,
    );
    ctx.random_w("programs", ctx.n(200, 6_000), 8, || program(30), holds, shrink);
}

pub fn replay(v: &serde_json::Value) -> Outcome { crate::driver::replay(v, holds) }
