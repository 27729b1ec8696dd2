//! C22: a call costs what its input calls for. Every measurement runs in a process of its own: under an
//! instruction counter (valgrind) for the work done, with a counting allocator and a small stack for the space.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    collections::HashSet,
    hint::black_box,
    path::PathBuf,
    process::{exit, Command, Stdio},
    sync::atomic::{AtomicIsize, Ordering::Relaxed},
};

use poker::{box_cards, cards, deck, Card, Eval, EvalError, Evaluator};
use pokercheck::{
    driver::{replay, Ctx, Outcome},
    model::{self, mix},
};
use proptest::prelude::*;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use serde_json::Value;

static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
struct Counting;
fn more(n: isize) { PEAK.fetch_max(LIVE.fetch_add(n, Relaxed) + n, Relaxed); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        more(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        more(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Call {
    Choices,
    StaticChoices,
    Rejected,
    StaticRejected,
    RejectedText,
    LongText,
    ParseMany,
    ParseStream,
    ParseSteps,
    Line,
    Join,
    SortCards,
    SortEvals,
    SetOfEvals,
    AgainFive,
    AgainStatic,
    AgainRejected,
    AgainParse,
    AgainDeck,
    AgainShuffle,
    AgainTexts,
    AgainClone,
    AgainNew,
}
use Call::*;
/// Every call, the number of units of the smaller of two measurements of work, the number for the measurement
/// of space, and what it is called in the evidence.
const CALLS: [(Call, u64, u64, &str); 23] = [
    (Choices, 0, 0, "choices of five cards"),
    (StaticChoices, 0, 0, "choices of five cards, static table"),
    (Rejected, 4000, 1_000_000, "a long slice that is rejected"),
    (StaticRejected, 4000, 1_000_000, "a long slice rejected by the static evaluator"),
    (RejectedText, 2000, 300_000, "the text of a long rejected slice"),
    (LongText, 60_000, 1_000_000, "a long text that is no card"),
    (ParseMany, 1500, 200_000, "many texts parsed and collected"),
    (ParseStream, 1500, 500_000, "many texts parsed one after the other"),
    (ParseSteps, 1500, 300_000, "an iterator driven in steps"),
    (Line, 1500, 300_000, "a line of many words"),
    (Join, 4000, 1_000_000, "long slices joined"),
    (SortCards, 2000, 200_000, "many cards sorted"),
    (SortEvals, 1500, 100_000, "many evaluations sorted"),
    (SetOfEvals, 320, 5400, "a set of evaluations"),
    (AgainFive, 1500, 200_000, "five cards evaluated again and again"),
    (AgainStatic, 1500, 200_000, "five cards, static table, again and again"),
    (AgainRejected, 800, 50_000, "cards rejected again and again"),
    (AgainParse, 1500, 100_000, "texts parsed again and again"),
    (AgainDeck, 1500, 20_000, "decks made again and again"),
    (AgainShuffle, 200, 10_000, "decks shuffled again and again"),
    (AgainTexts, 300, 30_000, "texts made again and again"),
    (AgainClone, 20, 100, "evaluators copied again and again"),
    (AgainNew, 4, 16, "evaluators made again and again"),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    call: Call,
    /// The smaller number of units; the number of cards for the choices.
    less: u64,
    /// The number of units in the larger measurement.
    more: u64,
    style: u8,
    seed: u64,
}

macro_rules! card {
    ($lib:ident, $n:expr) => {{
        use $lib::{Rank::*, Suit::*};
        $lib::Card::new(
            [Two, Three, Four, Five, Six, Seven, Eight, Nine, Ten, Jack, Queen, King, Ace][$n as usize / 4],
            [Clubs, Diamonds, Hearts, Spades][$n as usize % 4],
        )
    }};
}

struct X(u64);
impl X {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = mix(self.0);
        self.0 % n
    }
    fn different(&mut self, n: u64) -> Vec<u64> {
        let mut pool: Vec<u64> = (0..52).collect();
        (0..n as usize)
            .map(|i| {
                let j = i + self.below((52 - i) as u64) as usize;
                pool.swap(i, j);
                pool[i]
            })
            .collect()
    }
    /// More than two cards that are no hand; where the cards occur again depends on the style.
    fn repeated(&mut self, n: u64, style: u8) -> Vec<u64> {
        let deck = self.different(52);
        (0..n)
            .map(|i| match style % 4 {
                0 => deck[(i % 52) as usize],
                1 => deck[(i * 52 / n) as usize],
                2 => self.below(52),
                _ => deck[0],
            })
            .collect()
    }
    fn text(&mut self, good: bool) -> String {
        let mut t = String::new();
        if good || self.below(2) == 0 {
            t.push(b"23456789TJQKA"[self.below(13) as usize] as char);
            t.push(b"chds"[self.below(4) as usize] as char);
        } else {
            for _ in 0..self.below(4) {
                t.push(['A', 'x', '1', 'é', '♠', 's', '\u{301}', 'T'][self.below(8) as usize]);
            }
        }
        t
    }
    fn five(&mut self) -> [u64; 5] {
        let h = self.different(5);
        [h[0], h[1], h[2], h[3], h[4]]
    }
}

/// Five different cards: the i-th of a sequence that comes to all kinds of hands.
fn some_five(i: u64) -> [u64; 5] {
    let mut r = mix(i);
    let mut h = [0; 5];
    let mut taken = 0u64;
    // Every eighth hand is of one suit, every eighth of few ranks.
    let (span, step) = match r % 8 {
        0 => (13, 4),
        1 => (10, 1),
        _ => (52, 1),
    };
    let from = (r >> 3) % 4;
    for k in 0..5 {
        r = r.rotate_right(11) ^ k;
        let mut at = r % span;
        while taken >> at & 1 == 1 {
            at = (at + 1) % span;
        }
        taken |= 1 << at;
        h[k as usize] = (at * step + if step == 4 { from } else { from * 10 }) % 52;
    }
    h
}

/// Prepares a call with `n` units, then makes it. Returns how many bytes it held at most beyond what it was
/// given, and how many it may.
fn work(c: &Case, n: u64) -> (isize, isize) {
    let mut x = X(mix(c.seed));
    let s = c.style;
    const FEW: isize = 1 << 20;
    let ev = if matches!(c.call, AgainNew | AgainStatic | StaticChoices | StaticRejected | LongText | ParseMany | ParseStream | ParseSteps | Line | Join | SortCards | RejectedText) { None } else { Some(Evaluator::new()) };
    let ev = ev.as_ref();
    let begin = || {
        let now = LIVE.load(Relaxed);
        PEAK.store(now, Relaxed);
        now
    };
    let held = |from: isize| PEAK.load(Relaxed) - from;
    let size = std::mem::size_of::<Card>() as isize;
    let all = n as isize;
    match c.call {
        Choices => {
            let h: Vec<Card> = x.different(n).iter().map(|&i| card!(poker, i)).collect();
            let b = begin();
            let _ = black_box(ev.unwrap().evaluate(&h));
            (held(b), FEW)
        }
        StaticChoices => {
            let h: Vec<_> = x.different(n).iter().map(|&i| card!(poker_static, i)).collect();
            let b = begin();
            let _ = black_box(poker_static::evaluate::static_lookup::evaluate(&h));
            (held(b), FEW)
        }
        Rejected => {
            let h: Vec<Card> = x.repeated(n, s).iter().map(|&i| card!(poker, i)).collect();
            let b = begin();
            let _ = black_box(ev.unwrap().evaluate(&h));
            (held(b), FEW + 8 * all * size)
        }
        StaticRejected => {
            let h: Vec<_> = x.repeated(n, s).iter().map(|&i| card!(poker_static, i)).collect();
            let b = begin();
            let _ = black_box(poker_static::evaluate::static_lookup::evaluate(&h));
            (held(b), FEW + 8 * all * size)
        }
        RejectedText => {
            let h: Vec<Card> = x.repeated(n, s).iter().map(|&i| card!(poker, i)).collect();
            let e = EvalError::CardsNotUnique(h);
            let b = begin();
            black_box(e.to_string());
            (held(b), FEW + 8 * all * size)
        }
        LongText => {
            let letter = ["A", "é", "♠", "𝕏", "A\u{301}"][s as usize % 5];
            let t = letter.repeat(n as usize);
            let b = begin();
            if let Err(e) = black_box(t.parse::<Card>()) {
                black_box((e.to_string(), e.clone() == e));
            }
            (held(b), FEW + 16 * t.len() as isize)
        }
        ParseMany => {
            let v: Vec<String> = (0..n).map(|_| x.text(s % 2 == 0)).collect();
            let b = begin();
            match s / 2 % 4 {
                0 => drop(black_box(Card::parse_to_iter(&v).try_collect::<Vec<_>>())),
                1 => drop(black_box(Card::parse_to_iter(&v).try_collect::<Box<[_]>>())),
                2 => drop(black_box(Card::parse_to_iter(&v).collect::<Vec<_>>().len())),
                _ => drop(black_box(Card::parse_to_iter(&v).collect::<Result<Vec<_>, _>>())),
            }
            (held(b), FEW + all * 8 * (size + 64))
        }
        ParseStream => {
            let pool: Vec<String> = (0..64).map(|_| x.text(s % 2 == 0)).collect();
            let source = (0..n).map(|i| &pool[(i % 64) as usize]);
            let b = begin();
            match s / 2 % 6 {
                0 => drop(black_box(Card::parse_to_iter(source).count())),
                1 => drop(black_box(Card::parse_to_iter(source).filter(|r| r.is_ok()).last())),
                2 => drop(black_box(Card::parse_to_iter(source).nth((n as usize).saturating_sub(1)))),
                3 => drop(black_box(Card::parse_to_iter(source).fold(0, |a, r| a + r.is_ok() as u64))),
                4 => drop(black_box(Card::parse_to_iter(source).skip((n as usize).saturating_sub(1)).next())),
                _ => {
                    let mut it = Card::parse_to_iter(source);
                    while let Some(r) = it.next() {
                        black_box((r.is_ok(), it.size_hint()));
                    }
                }
            }
            (held(b), FEW)
        }
        ParseSteps => {
            let pool: Vec<String> = (0..64).map(|_| x.text(s % 2 == 0)).collect();
            let source = (0..n).map(|i| &pool[(i % 64) as usize]);
            let b = begin();
            let mut it = Card::parse_to_iter(source);
            match s / 2 % 3 {
                0 => {
                    while it.nth((s / 6 % 5) as usize).is_some() {}
                }
                1 => drop(black_box(it.step_by(1 + (s / 6 % 5) as usize).count())),
                _ => loop {
                    let part = it.by_ref().take(7).filter_map(|r| r.ok()).count();
                    black_box(part);
                    if it.next().is_none() {
                        break;
                    }
                },
            }
            (held(b), FEW)
        }
        Line => {
            let gap = [" ", "  \t ", "\n", "\u{3000}\u{2003}"][s as usize / 2 % 4];
            let line = (0..n).map(|_| x.text(s % 2 == 0)).collect::<Vec<_>>().join(gap);
            let b = begin();
            match s / 8 % 3 {
                0 => {
                    black_box(cards!(line).count());
                    (held(b), FEW)
                }
                1 => {
                    black_box(cards!(&line[..]).filter(|r| r.is_err()).last());
                    (held(b), FEW)
                }
                _ => {
                    let _ = black_box(cards!(line).try_collect::<Vec<_>>());
                    (held(b), FEW + 8 * all * (size + 64))
                }
            }
        }
        Join => {
            let v: Vec<Card> = (0..n).map(|i| card!(poker, i % 52)).collect();
            let k = (x.below(n + 1)) as usize;
            let (p, q) = v.split_at(k);
            let b = begin();
            match s % 3 {
                0 => drop(black_box(box_cards!(p, q))),
                1 => drop(black_box(box_cards!(v, p, q))),
                _ => drop(black_box(box_cards!(box_cards!(p, q), v))),
            }
            (held(b), FEW + 16 * all * size)
        }
        SortCards => {
            let mut v: Vec<Card> = (0..n).map(|_| card!(poker, x.below(52))).collect();
            let b = begin();
            match s % 3 {
                0 => v.sort(),
                1 => v.sort_unstable_by(|a, b| b.cmp(a)),
                _ => v.sort_by_key(|c| c.rank()),
            }
            black_box((v.iter().max(), v.iter().min()));
            (held(b), FEW + 4 * all * size)
        }
        SortEvals => {
            let e = ev.unwrap();
            let mut v: Vec<Eval> = (0..n).filter_map(|i| e.evaluate(some_five(mix(c.seed) % 1000 + i).map(|j| card!(poker, j))).ok()).collect();
            let b = begin();
            match s % 3 {
                0 => v.sort(),
                1 => v.sort_unstable_by(|a, b| b.cmp(a)),
                _ => v.sort_by(|a, b| a.class().cmp(&b.class())),
            }
            black_box((v.iter().max(), v.iter().min()));
            (held(b), FEW + 4 * all * std::mem::size_of::<Eval>() as isize)
        }
        SetOfEvals => {
            let e = ev.unwrap();
            // Different evaluations: one of every strength that the first n five-card sets of ranks and a flush bring.
            let mut v: Vec<Eval> = vec![];
            let mut add = |h: [u64; 5]| {
                if (v.len() as u64) < n {
                    v.extend(e.evaluate(h.map(|j| card!(poker, j))));
                }
            };
            for a in 0..13u64 {
                for b in 0..a {
                    for c in 0..b {
                        for d in 0..c {
                            for f in 0..d {
                                add([a * 4, b * 4, c * 4, d * 4, f * 4]);
                                add([a * 4, b * 4, c * 4, d * 4, f * 4 + 1]);
                            }
                            for t in [a, b, c, d] {
                                add([a * 4, b * 4, c * 4, d * 4, t * 4 + 1]);
                            }
                        }
                    }
                }
            }
            let n = v.len();
            let b = begin();
            match s % 2 {
                0 => drop(black_box(v.iter().copied().collect::<HashSet<_>>())),
                _ => {
                    let mut counts = std::collections::HashMap::new();
                    for &e in &v {
                        *counts.entry(e).or_insert(0) += 1;
                    }
                    black_box(counts.len());
                }
            }
            (held(b), FEW + 1000 * n as isize)
        }
        AgainFive => {
            let e = ev.unwrap();
            let b = begin();
            for i in 0..n {
                let _ = black_box(e.evaluate(some_five(if s % 2 == 0 { i } else { i % 9 }).map(|j| card!(poker, j))));
            }
            (held(b), FEW)
        }
        AgainStatic => {
            let b = begin();
            for i in 0..n {
                let _ = black_box(poker_static::evaluate::static_lookup::evaluate(some_five(if s % 2 == 0 { i } else { i % 9 }).map(|j| card!(poker_static, j))));
            }
            (held(b), FEW)
        }
        AgainRejected => {
            let e = ev.unwrap();
            let b = begin();
            for i in 0..n {
                let mut h = some_five(if s % 2 == 0 { i } else { 3 });
                h[(i % 4) as usize] = h[4];
                if let Err(e) = e.evaluate(h.map(|j| card!(poker, j))) {
                    black_box(e.to_string());
                }
                let _ = black_box(e.evaluate([card!(poker, i % 52)]));
            }
            (held(b), FEW)
        }
        AgainParse => {
            let pool: Vec<String> = (0..if s % 2 == 0 { 1000 } else { 3 }).map(|_| x.text(false)).collect();
            let b = begin();
            for i in 0..n as usize {
                if let Err(e) = black_box(pool[i % pool.len()].parse::<Card>()) {
                    black_box(e.to_string());
                }
            }
            (held(b), FEW)
        }
        AgainDeck => {
            let b = begin();
            for _ in 0..n {
                deck::generate().for_each(|c| drop(black_box(c)));
            }
            (held(b), FEW)
        }
        AgainShuffle => {
            let mut r = rand::rngs::StdRng::seed_from_u64(c.seed);
            let b = begin();
            for i in 0..n {
                if s % 2 == 0 || i % 4 == 0 {
                    black_box(deck::shuffled_with(&mut r));
                } else {
                    black_box(deck::shuffled());
                }
            }
            (held(b), FEW)
        }
        AgainTexts => {
            let e = ev.unwrap();
            let b = begin();
            for i in 0..n {
                let h = some_five(i);
                let a = card!(poker, h[0]);
                black_box((a.to_string(), a.rank_suit_string(), a.rank().to_string(), a.suit().to_string()));
                if let Ok(v) = e.evaluate(h.map(|j| card!(poker, j))) {
                    black_box((v.to_string(), v.class().to_string()));
                }
            }
            (held(b), FEW)
        }
        AgainClone => {
            let e = ev.unwrap();
            let b = begin();
            for _ in 0..n {
                let f = e.clone();
                let _ = black_box(f.evaluate(x.five().map(|j| card!(poker, j))));
            }
            (held(b), 16 * FEW)
        }
        AgainNew => {
            let b = begin();
            for _ in 0..n {
                let f = Evaluator::new();
                let _ = black_box(f.evaluate(x.five().map(|j| card!(poker, j))));
            }
            (held(b), 16 * FEW)
        }
    }
}

/// Makes the call where there is little stack.
fn child(c: &Case, n: u64) -> (isize, isize) {
    let c = c.clone();
    std::thread::Builder::new().stack_size(192 << 10).spawn(move || work(&c, n)).expect("a thread").join().unwrap_or_else(|_| exit(101))
}

/// The most instructions for one unit: fifteen times or more what it takes, and far less than making an evaluator,
/// which takes a million.
fn each(c: Call) -> f64 {
    match c {
        Choices | StaticChoices | AgainFive | AgainStatic | Rejected | StaticRejected | Join | SortCards => 5e3,
        AgainNew | AgainClone => f64::MAX,
        AgainRejected | AgainShuffle | AgainTexts | AgainParse => 6e4,
        _ => 2e4,
    }
}

fn choices(n: u64) -> u64 { n * (n - 1) * (n - 2) * (n - 3) * (n - 4) / 120 }

/// How many instructions a process takes that makes the call with `n` units.
fn instructions(c: &Case, n: u64) -> Result<f64, String> {
    let out = Command::new("valgrind")
        .args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"])
        .arg(std::env::current_exe().expect("own path"))
        .args(["work", &serde_json::to_string(c).unwrap(), &n.to_string()])
        .stdin(Stdio::null())
        .output()
        .expect("valgrind runs");
    let text = String::from_utf8_lossy(&out.stderr);
    if !out.status.success() {
        return Err(format!("the process ended with {} at {n} units", out.status));
    }
    let line = text.lines().find(|l| l.contains("I") && l.contains("refs:")).unwrap_or_else(|| panic!("no count in {text}"));
    Ok(line.split("refs:").nth(1).unwrap().trim().replace(',', "").parse().expect("a count"))
}

fn label(c: Call) -> &'static str { CALLS.iter().find(|x| x.0 == c).unwrap().3 }

/// The work grows no faster than the input.
fn grows(c: &Case) -> Outcome {
    let many = matches!(c.call, Choices | StaticChoices);
    let (none, small, large) = match many {
        true => (5, choices(c.less) as f64, choices(c.more) as f64),
        false => (0, c.less as f64, c.more as f64),
    };
    let zero = instructions(c, none)?;
    let (a, b) = (instructions(c, c.less)? - zero, instructions(c, c.more)? - zero);
    // What a choice costs does not depend on how many there are; elsewhere there may be a logarithm.
    let most = if many { 1.3 * large / small * a.max(0.0) + 1e5 } else { 3.0 * large / small * a.max(0.0) + 5e5 };
    if b > most {
        return Err(format!("{}: {small} units take {a} instructions, {large} units take {b}", label(c.call)));
    }
    // Making an evaluator is by far the longest of all calls, and is not part of any other call.
    if b > large * each(c.call) {
        return Err(format!("{}: {large} units take {b} instructions, {} each", label(c.call), (b / large) as u64));
    }
    Ok(Some(label(c.call)))
}

/// The space does not grow with the number of choices or of calls, nor faster than the input; the stack is small.
fn space(c: &Case) -> Outcome {
    let out = Command::new(std::env::current_exe().expect("own path"))
        .args(["work", &serde_json::to_string(c).unwrap(), &c.more.to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("a process");
    if !out.status.success() {
        return Err(format!("{}: with a stack of 192 KiB the process ended with {} at {} units", label(c.call), out.status, c.more));
    }
    let text = String::from_utf8_lossy(&out.stdout);
    let mut w = text.split_whitespace().map(|w| w.parse::<isize>().expect("a number"));
    let (held, most) = (w.next().unwrap(), w.next().unwrap());
    if held > most {
        return Err(format!("{}: {} units hold {held} bytes of the heap at a time, more than {most}", label(c.call), c.more));
    }
    Ok(Some(label(c.call)))
}

fn cases(space: bool) -> impl Strategy<Value = Case> {
    (0..CALLS.len(), any::<u64>(), any::<u8>(), any::<u64>()).prop_map(move |(i, size, style, seed)| {
        let (call, less, most, _) = CALLS[i];
        let vary = |n: u64| n / 2 + size % (n / 2 + 1) + 2;
        let (less, more) = match (call, space) {
            (Choices | StaticChoices, false) => {
                let n = 8 + size % 4;
                (n, n + 11 + size / 64 % 6)
            }
            (Choices | StaticChoices, true) => (6, 6 + size % 47),
            (_, true) => (1, vary(most)),
            (SetOfEvals, false) => (less, less * 16),
            // How much is done before anything else is the point here: from little to the usual.
            (AgainFive | AgainStatic | AgainRejected | AgainParse | AgainDeck | AgainShuffle | AgainTexts, false) => {
                (vary(less) / [1, 1, 4, 16][(size >> 32) as usize % 4], 16 * vary(less))
            }
            _ => (vary(less), 16 * vary(less)),
        };
        Case { call, less, more, style, seed }
    })
}

fn run(ctx: &Ctx) {
    ctx.random("space", ctx.n(600, 20_000), || cases(true), space);
    ctx.random("work", ctx.n(160, 4_000), || cases(false), grows);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    match args.first().map(|s| s.as_str()) {
        Some("work") => {
            let (held, most) = child(&serde_json::from_str(&args[1]).expect("a case"), args[2].parse().expect("units"));
            println!("{held} {most}");
        }
        Some("run") => {
            std::panic::set_hook(Box::new(|info| {
                if std::env::var_os("PC_PANICS").is_some() {
                    eprintln!("{info}");
                }
            }));
            let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let (part, replays) = (PathBuf::from(arg("--part").expect("--part")), PathBuf::from(arg("--replays").expect("--replays")));
            let ctx = Ctx::new("C22", arg("--tier").as_deref() == Some("thorough"), seed, &arg("--profile").unwrap_or("release".into()))
                .writes_to(part.clone(), replays.clone());
            model::self_test(seed);
            run(&ctx);
            exit(ctx.finish(&part, &replays));
        }
        Some("replay") => {
            let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("json");
            println!("C22 {}: {}", doc["sub"], doc["case"]);
            let o = match doc["sub"].as_str() {
                Some("space") => replay::<Case>(&doc["case"], space),
                _ => replay::<Case>(&doc["case"], grows),
            };
            match o {
                Ok(_) => println!("holds"),
                Err(m) => {
                    println!("VIOLATED: {m}");
                    exit(1)
                }
            }
        }
        _ => exit(2),
    }
}
