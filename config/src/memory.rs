//! C21: what a program does with the crate leaves nothing behind. Every case runs in a process of its own
//! whose allocator counts what is in use.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    collections::{BTreeSet, HashSet},
    error::Error,
    hint::black_box,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    process::exit,
    sync::atomic::{AtomicIsize, Ordering},
};

use poker::{box_cards, cards, deck, Card, Eval, EvalClass, EvalError, Evaluator, Rank, Suit};
use pokercheck::{
    driver::{replay, Ctx, Outcome},
    model::{self, mix},
};
use proptest::prelude::*;
use rand::{RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::Value;

mod data;
use data::{card, X};

static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as isize - l.size() as isize, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// What is in use: bytes, open files, threads.
#[derive(Clone, Copy)]
struct InUse(isize, isize, isize);
fn in_use() -> InUse {
    let bytes = LIVE.load(Ordering::SeqCst);
    let count = |d: &str| std::fs::read_dir(d).map_or(0, |d| d.count() as isize);
    InUse(bytes, count("/proc/self/fd"), count("/proc/self/task"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Act {
    Five,
    SixSeven,
    More,
    Rejected,
    Static,
    StaticRejected,
    Parse,
    ParseAll,
    ParseSome,
    Macros,
    Generate,
    Shuffle,
    NewEvaluator,
    CopyEvaluator,
    Texts,
    Collections,
    Classes,
    Nested,
    Panicking,
    Thread,
}
use Act::*;
/// Every act, with about how long it takes in units of 100 ns, and what it is called in the evidence.
const ACTS: [(Act, u64, &str); 20] = [
    (Five, 2, "five cards"),
    (SixSeven, 8, "six or seven cards"),
    (More, 150, "eight to eleven cards"),
    (Rejected, 20, "rejected cards"),
    (Static, 4, "the static evaluator"),
    (StaticRejected, 20, "cards rejected by the static evaluator"),
    (Parse, 8, "parsing a card"),
    (ParseAll, 20, "parsing many cards"),
    (ParseSome, 20, "an iterator left half way"),
    (Macros, 20, "the macros"),
    (Generate, 5, "a generated deck"),
    (Shuffle, 15, "a shuffled deck"),
    (NewEvaluator, 6000, "a new evaluator"),
    (CopyEvaluator, 600, "a copied evaluator"),
    (Texts, 20, "texts of values"),
    (Collections, 20, "collections of values"),
    (Classes, 10, "classes"),
    (Nested, 20, "a call inside a call"),
    (Panicking, 100, "the caller's code panics"),
    (Thread, 400, "a thread that ends"),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    acts: Vec<Act>,
    seed: u64,
    /// Other data in every round; otherwise the same sixteen sets of data again and again.
    fresh: bool,
    /// In hundreds of microseconds.
    length: u64,
}

struct Broken;
impl AsRef<[Card]> for Broken {
    fn as_ref(&self) -> &[Card] { panic!("from the caller's container") }
}
struct BrokenSource(u64);
impl RngCore for BrokenSource {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.checked_sub(1).expect("from the caller's source");
        mix(self.0)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.iter_mut().for_each(|b| *b = self.next_u64() as u8) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
struct Nest<'a>(&'a Evaluator, Vec<Card>, Vec<Card>);
impl AsRef<[Card]> for Nest<'_> {
    fn as_ref(&self) -> &[Card] {
        let _ = black_box(self.0.evaluate(&self.2));
        &self.1
    }
}

fn tell(e: impl Error + Clone + PartialEq + 'static) {
    let b: Box<dyn Error> = Box::new(e.clone());
    black_box((b.to_string(), format!("{b:?}"), format!("{e:#?}"), e.source().is_some(), e == e.clone()));
}

fn act(a: Act, x: &mut X, ev: &Evaluator, others: &[Act], depth: u32) {
    match a {
        Five => {
            let h = x.hand(5);
            let a = [h[0], h[1], h[2], h[3], h[4]];
            let _ = black_box((ev.evaluate(a), ev.evaluate(&h)));
        }
        SixSeven => {
            let n = 6 + x.below(2);
            let _ = black_box(ev.evaluate(x.hand(n)));
        }
        More => {
            let n = 8 + x.below(4);
            let _ = black_box(ev.evaluate(x.hand(n).into_boxed_slice()));
        }
        Rejected => {
            let h = x.not_a_hand();
            if let Err(e) = ev.evaluate(&h) {
                if let EvalError::CardsNotUnique(v) = e.clone() {
                    black_box(v);
                }
                tell(e);
            }
        }
        Static => {
            use poker_static::evaluate::static_lookup;
            let n = 5 + x.below(3);
            let h: Vec<_> = x.numbers(n).iter().map(|&c| card!(poker_static, c)).collect();
            let _ = black_box(static_lookup::evaluate(&h));
        }
        StaticRejected => {
            use poker_static::evaluate::static_lookup;
            let h: Vec<_> = x.bad_numbers().iter().map(|&c| card!(poker_static, c)).collect();
            if let Err(e) = static_lookup::evaluate(h) {
                tell(e);
            }
        }
        Parse => {
            let t = x.text();
            match t.parse::<Card>() {
                Ok(c) => {
                    black_box(c.rank_suit_string());
                }
                Err(e) => tell(e),
            }
            let mut cs = t.chars();
            if let (Some(a), Some(b)) = (cs.next(), cs.next()) {
                if let Err(e) = Card::try_from_chars(a, b) {
                    tell(e);
                }
                if let (Err(e), Err(f)) = (Rank::try_from(b), Suit::try_from(a)) {
                    black_box((e.to_string(), f.to_string()));
                }
            }
        }
        ParseAll => {
            let good = x.below(2) == 0;
            let v = x.texts(good);
            let _ = black_box(Card::parse_to_iter(&v).try_collect::<Vec<_>>());
            let _ = black_box(Card::parse_to_iter(v.clone()).try_collect::<HashSet<_>>());
            let _ = black_box(Card::parse_to_iter(v.iter()).try_collect::<Box<[_]>>());
            black_box(Card::parse_to_iter(v).filter(|r| r.is_err()).count());
        }
        ParseSome => {
            let v = x.texts(false);
            let k = x.below(v.len() + 1);
            let mut it = Card::parse_to_iter(v.clone());
            for _ in 0..k {
                let _ = black_box(if x.below(2) == 0 { it.next() } else { it.nth(1) });
            }
            black_box(it.size_hint());
            drop(it);
            let _ = black_box(Card::parse_to_iter(v).skip(k).step_by(2).find(|r| r.is_ok()));
        }
        Macros => {
            let (a, b) = (x.hand(3), x.hand(4));
            let _ = black_box(ev.evaluate(box_cards!(a, b)));
            let line = x.texts(true).join(" ");
            let _ = black_box(cards!(line).try_collect::<Vec<_>>());
            let (s, t) = (x.text(), x.text());
            let _ = black_box(cards!(&s[..], &t[..]).try_collect::<Vec<_>>());
            let _ = black_box(cards!(&line[..line.len() / 2]).collect::<Vec<_>>());
        }
        Generate => {
            let k = x.below(60);
            black_box(deck::generate().take(k).count());
            let mut it = deck::generate();
            black_box((it.next(), it.nth(k / 2)));
        }
        Shuffle => {
            let mut d = deck::shuffled();
            black_box(d.drain(..x.below(52)).count());
            let mut r = rand::rngs::StdRng::seed_from_u64(x.0);
            black_box(deck::shuffled_with(&mut r));
        }
        NewEvaluator => {
            let e = if x.below(2) == 0 { Evaluator::new() } else { Evaluator::default() };
            let _ = black_box(e.evaluate(x.hand(5)));
            let b = Box::new(e);
            let _ = black_box(b.evaluate(x.not_a_hand()));
        }
        CopyEvaluator => {
            let mut e = ev.clone();
            let _ = black_box(e.evaluate(x.hand(5)));
            let f = e.clone();
            e.clone_from(&f);
            black_box(e == f);
        }
        Texts => {
            let h = x.hand(5);
            for c in &h[..2] {
                black_box((c.to_string(), format!("{c:?}"), c.rank().to_string(), c.suit().to_string(), format!("{:?}{:?}", c.rank(), c.suit())));
            }
            if let Ok(e) = ev.evaluate(&h) {
                black_box((e.to_string(), format!("{e:?}"), format!("{e:>40}")));
            }
        }
        Collections => {
            let n = 5 + x.below(3);
            let mut v: Vec<Eval> = (0..4).filter_map(|_| ev.evaluate(x.hand(n)).ok()).collect();
            v.sort();
            black_box((v.iter().max(), v.iter().copied().collect::<HashSet<_>>(), v.iter().copied().collect::<BTreeSet<_>>()));
            let mut h = x.hand(9);
            h.sort_by(|a, b| b.cmp(a));
            black_box((h.iter().copied().collect::<HashSet<_>>(), h.iter().copied().collect::<BTreeSet<_>>()));
        }
        Classes => {
            if let Ok(e) = ev.evaluate(x.hand(5)) {
                let c: EvalClass = e.class();
                black_box((c.to_string(), format!("{c:?}"), c < Eval::BEST.class(), e.is_better_than(Eval::WORST), e.is_flush()));
            }
        }
        Nested => {
            let (a, b) = (x.hand(5), x.not_a_hand());
            let _ = black_box(ev.evaluate(Nest(ev, a, b)));
        }
        Panicking => {
            black_box(catch_unwind(AssertUnwindSafe(|| ev.evaluate(Broken).is_ok())).is_ok());
            let k = x.below(70);
            black_box(catch_unwind(AssertUnwindSafe(|| deck::shuffled_with(&mut BrokenSource(k as u64)).len())).is_ok());
            let v = x.texts(true);
            let k = x.below(8);
            black_box(
                catch_unwind(AssertUnwindSafe(|| {
                    Card::parse_to_iter(v.into_iter().enumerate().map(|(i, s)| if i == k { panic!("from the caller's iterator") } else { s }))
                        .try_collect::<Vec<_>>()
                }))
                .is_ok(),
            );
        }
        Thread => {
            if depth == 0 {
                let seed = x.0;
                std::thread::scope(|s| {
                    s.spawn(|| {
                        let mut x = X(mix(seed));
                        for &a in others.iter().filter(|a| **a != Thread) {
                            act(a, &mut x, ev, others, 1);
                        }
                        act(Five, &mut x, ev, others, 1);
                        act(Rejected, &mut x, ev, others, 1);
                        act(Shuffle, &mut x, ev, others, 1);
                        act(Parse, &mut x, ev, others, 1);
                        black_box(deck::shuffled());
                    });
                });
            }
        }
    }
}
/// Runs a case. What stays in use after four times as long must not be more, in proportion to the rounds.
fn child(c: &Case) -> Outcome {
    let ev = Evaluator::new();
    let cost: u64 = c.acts.iter().map(|a| ACTS.iter().find(|x| x.0 == *a).unwrap().1).sum();
    let n = (c.length * 1000 / cost.max(1)).max(32);
    let mut round = 0u64;
    let mut go = |until: u64| {
        while round < until {
            let x = mix(c.seed ^ if c.fresh { round } else { round % 16 });
            for (i, &a) in c.acts.iter().enumerate() {
                act(a, &mut X(mix(x ^ (i as u64) << 40)), &ev, &c.acts, 0);
            }
            round += 1;
        }
        in_use()
    };
    let (a, b, d) = (go(n), go(2 * n), go(4 * n));
    let each = |p: InUse, q: InUse| [q.0 - p.0, q.1 - p.1, q.2 - p.2];
    let (g1, g2) = (each(a, b), each(b, d));
    let least = [(n as isize / 32).max(1024), 8, 8];
    let what = ["bytes of memory", "open files", "threads"];
    for i in 0..3 {
        if g2[i] >= least[i] && g1[i] >= g2[i] / 8 {
            // Something that fills up and then stops is not meant: go on for much longer.
            let (e, f) = (go(16 * n), go(32 * n));
            let g3 = each(e, f);
            if g3[i] >= 4 * g2[i] {
                return Err(format!("{} {} stay in use after rounds {} to {}, and {} after rounds {} to {}", g2[i], what[i], 2 * n, 4 * n, g3[i], 16 * n, 32 * n));
            }
        }
    }
    let name = |a: Act| ACTS.iter().find(|x| x.0 == a).unwrap().2;
    Ok(Some(match c.acts.len() {
        0 => return Ok(None),
        1 => name(c.acts[0]),
        _ => "several things",
    }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct First {
    seed: u64,
    cards: u8,
}

/// The first calls of the static evaluator in a process: they take nothing from the heap that they keep.
fn first(c: &First) -> Outcome {
    use poker_sbare::evaluate::static_lookup;
    let h: Vec<_> = X(c.seed).numbers(c.cards as usize).iter().map(|&c| card!(poker_sbare, c)).collect();
    let twice = vec![h[0]; 5];
    let before = LIVE.load(Ordering::SeqCst);
    let _ = black_box(static_lookup::evaluate(&h));
    let middle = LIVE.load(Ordering::SeqCst);
    let _ = black_box(static_lookup::evaluate(&twice));
    let _ = black_box(static_lookup::evaluate(&h[..3]));
    let after = LIVE.load(Ordering::SeqCst);
    if middle - before >= 512 || after - before >= 512 {
        return Err(format!("the static evaluator keeps {} bytes of the heap after its first call, {} after three", middle - before, after - before));
    }
    Ok(Some("first calls"))
}

/// Runs a case in a process of its own.
fn apart<T: Serialize>(how: &'static str, c: &T) -> Outcome {
    let out = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args([how, &serde_json::to_string(c).unwrap()])
        .stdin(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .output()
        .expect("a process");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    match text.strip_prefix("ok ") {
        Some(label) if out.status.success() => {
            let label = label.trim();
            Ok(ACTS.iter().map(|a| a.2).chain(["several things", "first calls"]).find(|l| *l == label))
        }
        _ => match text.strip_prefix("bad ") {
            Some(m) => Err(m.trim().to_string()),
            None => Err(format!("the process ended with {}", out.status)),
        },
    }
}

fn report(o: Outcome) -> ! {
    match o {
        Ok(l) => println!("ok {}", l.unwrap_or("")),
        Err(m) => println!("bad {m}"),
    }
    exit(0)
}

fn a_case(lo: usize, hi: usize, length: u64) -> impl Strategy<Value = Case> {
    let acts = proptest::collection::vec(proptest::sample::select(ACTS.iter().map(|a| a.0).collect::<Vec<_>>()), lo..=hi);
    (acts, any::<u64>(), any::<bool>()).prop_map(move |(acts, seed, fresh)| Case { acts, seed, fresh, length })
}

fn run(ctx: &Ctx) {
    let one = |c: &Case| apart("case", c);
    ctx.random("first-calls-of-the-static-evaluator", ctx.n(64, 1000), || (any::<u64>(), 5u8..10).prop_map(|(seed, cards)| First { seed, cards }), |c| apart("first", c));
    let length = if ctx.thorough { 20_000 } else { 2_000 };
    // Each act alone, with the same data and with other data every time.
    let n = ACTS.len() as u64 * 2;
    ctx.exhaustive(
        "one-thing-again-and-again",
        false,
        n,
        |i, acc| {
            let c = Case { acts: vec![ACTS[i as usize / 2].0], seed: mix(ctx.seed ^ i), fresh: i % 2 == 1, length: length * 2 };
            match one(&c) {
                Ok(l) => acc.ok(l.unwrap_or("nothing"), 1),
                Err(m) => return acc.fail(c, m),
            }
            acc.sample(c);
        },
        one,
        |c, _| c,
    );
    ctx.random("programs-that-go-on", ctx.n(160, 1600), || a_case(2, 6, length), one);
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("PC_PANICS").is_some() {
            eprintln!("{info}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    match args.first().map(|s| s.as_str()) {
        Some("case") => report(child(&serde_json::from_str(&args[1]).expect("a case"))),
        Some("first") => report(first(&serde_json::from_str(&args[1]).expect("a case"))),
        Some("run") => {
            let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let (part, replays) = (PathBuf::from(arg("--part").expect("--part")), PathBuf::from(arg("--replays").expect("--replays")));
            let ctx = Ctx::new("C21", arg("--tier").as_deref() == Some("thorough"), seed, &arg("--profile").unwrap_or("release".into()))
                .writes_to(part.clone(), replays.clone());
            model::self_test(seed);
            run(&ctx);
            exit(ctx.finish(&part, &replays));
        }
        Some("replay") => {
            let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("json");
            println!("C21 {}: {}", doc["sub"], doc["case"]);
            let o = match doc["sub"].as_str() {
                Some("first-calls-of-the-static-evaluator") => replay::<First>(&doc["case"], |c| apart("first", c)),
                _ => replay::<Case>(&doc["case"], |c| apart("case", c)),
            };
            match o {
                Ok(_) => println!("holds"),
                Err(m) => {
                    println!("VIOLATED: {m}");
                    exit(1)
                }
            }
        }
        _ => exit(2),
    }
}
