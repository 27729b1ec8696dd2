//! C14 (a deck is the 52 cards) and C15 (shuffles are fair and come from the given source only).

use std::{
    collections::HashSet,
    sync::{Barrier, Mutex, OnceLock},
};

use poker::{deck, Card};
use proptest::prelude::*;
use rand::{rngs::StdRng, RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::{
    driver::{guard, no_shrink, replay, Ctx, Outcome},
    glue::{uncard, uncards},
    model::{self, mix, C},
};

// ---- random sources ----

/// Gives the scripted words, `times` times over, and then an unending stream derived from `tail`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scripted {
    script: Vec<u64>,
    times: usize,
    at: usize,
    tail: u64,
}
impl Scripted {
    fn word(&mut self) -> u64 {
        if self.at < self.script.len() * self.times {
            self.at += 1;
            return self.script[(self.at - 1) % self.script.len()];
        }
        self.tail = self.tail.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.tail)
    }
}
impl RngCore for Scripted {
    fn next_u32(&mut self) -> u32 { self.word() as u32 }
    fn next_u64(&mut self) -> u64 { self.word() }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn full(v: &[Card]) -> Result<(), String> {
    let got = uncards(v);
    let mut sorted = got.clone();
    sorted.sort_unstable();
    if sorted.len() != 52 || sorted.iter().enumerate().any(|(i, &c)| i != c as usize) {
        let missing: Vec<C> = (0..52).filter(|c| !got.contains(c)).collect();
        let twice: Vec<C> = sorted.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0]).collect();
        return Err(format!("{} cards, missing [{}], repeated [{}]", got.len(), model::names(&missing), model::names(&twice)));
    }
    for (i, c) in v.iter().enumerate() {
        if *c != crate::glue::card(got[i]) {
            return Err(format!("card {i} is no proper {}", model::name(got[i])));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn base_order() -> &'static Vec<C> {
    static B: OnceLock<Vec<C>> = OnceLock::new();
    B.get_or_init(|| deck::generate().map(uncard).collect())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Open,
    Close(u8),
    Next(u8),
    Nth(u8, u8),
    Take(u8, u8),
    Find(u8, u8),
    Hint(u8),
    StepBy(u8, u8, u8),
    /// Uses up the iterator by one of the consuming methods.
    Finish(u8, u8),
    Shuffled,
    ShuffledWith(Scripted),
}

fn drive(ops: &Vec<Op>) -> Outcome {
    let want = base_order();
    full(&want.iter().map(|&c| crate::glue::card(c)).collect::<Vec<_>>()).map_err(|m| format!("generated deck: {m}"))?;
    let mut its: Vec<(Box<dyn Iterator<Item = Card>>, usize)> = vec![];
    let mut most = 0;
    for (k, op) in ops.iter().enumerate() {
        if its.is_empty() {
            its.push((Box::new(deck::generate()), 0));
        }
        most = most.max(its.len());
        let n = its.len();
        let is = |what: &str, got: Option<Card>, at: usize| -> Result<(), String> {
            let g = got.map(uncard);
            if g == want.get(at).copied() {
                Ok(())
            } else {
                Err(format!("step {k}: {what} gives {:?} at place {at}, expected {:?}", g.map(model::name), want.get(at).map(|&c| model::name(c))))
            }
        };
        match op {
            Op::Open => {
                if n < 6 {
                    its.push((Box::new(deck::generate()), 0));
                }
            }
            Op::Close(i) => {
                drop(its.remove(*i as usize % n));
            }
            Op::Next(i) => {
                let (it, at) = &mut its[*i as usize % n];
                is("next", it.next(), *at)?;
                *at = (*at + 1).min(52);
            }
            Op::Nth(i, j) => {
                let (it, at) = &mut its[*i as usize % n];
                let j = *j as usize % 60;
                is("nth", it.nth(j), *at + j)?;
                *at = (*at + j + 1).min(52);
            }
            Op::Take(i, j) => {
                let (it, at) = &mut its[*i as usize % n];
                let got: Vec<C> = it.by_ref().take(*j as usize % 60).map(uncard).collect();
                let to = (*at + *j as usize % 60).min(52);
                if got != want[*at..to] {
                    return Err(format!("step {k}: take gives [{}] from place {at}", model::names(&got)));
                }
                *at = to;
            }
            Op::Find(i, c) => {
                let (it, at) = &mut its[*i as usize % n];
                let c = *c % 52;
                let got = it.find(|x| uncard(*x) == c).map(uncard);
                let place = want.iter().position(|&x| x == c).unwrap();
                let exp = (place >= *at).then_some(c);
                if got != exp {
                    return Err(format!("step {k}: find of {} from place {at} gives {got:?}", model::name(c)));
                }
                *at = if exp.is_some() { place + 1 } else { 52 };
            }
            Op::Hint(i) => {
                let (it, at) = &its[*i as usize % n];
                let (lo, hi) = it.size_hint();
                if lo > 52 - at || hi.map_or(false, |h| h < 52 - at) {
                    return Err(format!("step {k}: size hint ({lo}, {hi:?}) with {} left", 52 - at));
                }
            }
            Op::StepBy(i, j, t) => {
                let (it, at) = &mut its[*i as usize % n];
                let (j, t) = (1 + *j as usize % 14, *t as usize % 8);
                let got: Vec<C> = it.by_ref().step_by(j).take(t).map(uncard).collect();
                let exp: Vec<C> = want[*at..].iter().step_by(j).take(t).copied().collect();
                if got != exp {
                    return Err(format!("step {k}: step_by({j}) gives [{}], expected [{}]", model::names(&got), model::names(&exp)));
                }
                if t > 0 {
                    *at = if exp.len() < t { 52 } else { *at + (t - 1) * j + 1 };
                }
            }
            Op::Finish(i, how) => {
                let (it, at) = its.remove(*i as usize % n);
                let rest = &want[at..];
                let got: Vec<C> = match how % 6 {
                    0 => it.map(uncard).collect(),
                    1 => it.fold(vec![], |mut v, c| {
                        v.push(uncard(c));
                        v
                    }),
                    2 => {
                        let c = it.count();
                        if c != rest.len() {
                            return Err(format!("step {k}: count gives {c} from place {at}"));
                        }
                        continue;
                    }
                    3 => {
                        let l = it.last().map(uncard);
                        if l != rest.last().copied() {
                            return Err(format!("step {k}: last gives {l:?} from place {at}"));
                        }
                        continue;
                    }
                    4 => {
                        let mut v = vec![];
                        let mut it = it;
                        while let Some(c) = it.next() {
                            v.push(uncard(c));
                            if v.len() > 60 {
                                break;
                            }
                        }
                        for _ in 0..3 {
                            if let Some(c) = it.next() {
                                return Err(format!("step {k}: after the end comes {c}"));
                            }
                        }
                        v
                    }
                    _ => {
                        let mut v = vec![];
                        it.for_each(|c| v.push(uncard(c)));
                        v
                    }
                };
                if got != rest {
                    return Err(format!("step {k}: the rest from place {at} is [{}]", model::names(&got)));
                }
            }
            Op::Shuffled => full(&deck::shuffled()).map_err(|m| format!("step {k}: shuffled deck: {m}"))?,
            Op::ShuffledWith(r) => full(&deck::shuffled_with(&mut r.clone())).map_err(|m| format!("step {k}: shuffled deck: {m}"))?,
        }
    }
    Ok(Some(if most > 1 { "several decks at once" } else { "one deck" }))
}

fn shuffled_scripted(r: &Scripted) -> Outcome {
    full(&deck::shuffled_with(&mut r.clone()))?;
    Ok(Some(match r.script.len() * r.times {
        0 => "stream",
        1..=200 => "scripted source",
        _ => "long script",
    }))
}

/// Decks from several kinds of sources, by seed.
fn shuffled_kinds(seed: &u64) -> Outcome {
    let s = *seed;
    for i in 0..4u64 {
        full(&deck::shuffled_with(&mut StdRng::seed_from_u64(s.wrapping_add(i)))).map_err(|m| format!("StdRng: {m}"))?;
    }
    let mut step = rand::rngs::mock::StepRng::new(s, mix(s) | 1);
    full(&deck::shuffled_with(&mut step)).map_err(|m| format!("StepRng: {m}"))?;
    full(&deck::shuffled_with(&mut step)).map_err(|m| format!("StepRng again: {m}"))?;
    let mut b: Box<dyn RngCore> = Box::new(StdRng::seed_from_u64(s));
    full(&deck::shuffled_with(&mut b)).map_err(|m| format!("boxed source: {m}"))?;
    full(&deck::shuffled_with(&mut *b)).map_err(|m| format!("dyn source: {m}"))?;
    full(&deck::shuffled_with(&mut rand::thread_rng())).map_err(|m| format!("thread_rng: {m}"))?;
    full(&deck::shuffled()).map_err(|m| format!("default source: {m}"))?;
    full(&deck::generate().collect::<Vec<_>>()).map_err(|m| format!("generated: {m}"))?;
    Ok(Some("every kind of source"))
}

fn many_threads(c: &(u8, u64)) -> Outcome {
    let n = 2 + c.0 as usize % 14;
    let gate = Barrier::new(n);
    let out = Mutex::new(Ok(()));
    std::thread::scope(|sc| {
        for t in 0..n {
            let (gate, out) = (&gate, &out);
            sc.spawn(move || {
                gate.wait();
                let r = guard(|| {
                    for i in 0..20u64 {
                        let g: Vec<C> = deck::generate().map(uncard).collect();
                        if &g != base_order() {
                            return Err(format!("thread {t} generates [{}]", model::names(&g)));
                        }
                        full(&deck::shuffled()).map_err(|m| format!("thread {t}, shuffled: {m}"))?;
                        full(&deck::shuffled_with(&mut StdRng::seed_from_u64(mix(c.1 ^ i)))).map_err(|m| format!("thread {t}, shuffled_with: {m}"))?;
                    }
                    Ok(None)
                });
                if let Err(m) = r {
                    *out.lock().unwrap() = Err(m);
                }
            });
        }
    });
    out.into_inner().unwrap()?;
    Ok(Some("concurrent decks"))
}

/// A source that uses the library while it is asked for numbers, and one that panics at a given word.
struct Busy<'a> {
    inner: StdRng,
    seed: u64,
    kind: u8,
    left: u32,
    depth: u8,
    wrong: &'a std::cell::RefCell<Option<String>>,
}
impl Busy<'_> {
    fn meanwhile(&mut self) {
        if self.left == 0 {
            if self.kind % 4 == 3 {
                panic!("from the caller's source");
            }
            return;
        }
        self.left -= 1;
        let r = match self.kind % 4 {
            0 => full(&deck::shuffled()),
            1 if self.depth > 0 => {
                let mut b = Busy { inner: StdRng::seed_from_u64(mix(self.seed)), seed: mix(self.seed), depth: self.depth - 1, left: self.left.min(2), ..*self };
                full(&deck::shuffled_with(&mut b))
            }
            1 => full(&deck::shuffled_with(&mut StdRng::seed_from_u64(self.seed))),
            2 => full(&deck::generate().collect::<Vec<_>>()),
            _ => Ok(()),
        };
        if let Err(m) = r {
            *self.wrong.borrow_mut() = Some(m);
        }
    }
}
impl RngCore for Busy<'_> {
    fn next_u32(&mut self) -> u32 {
        self.meanwhile();
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.meanwhile();
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.meanwhile();
        self.inner.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// (seed, what the source does meanwhile, how often)
fn busy(c: &(u64, u8, u32)) -> Outcome {
    let wrong = std::cell::RefCell::new(None);
    let source = || Busy { inner: StdRng::seed_from_u64(c.0), seed: c.0, kind: c.1, left: c.2, depth: 2, wrong: &wrong };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| deck::shuffled_with(&mut source())));
    if let Some(m) = wrong.take() {
        return Err(format!("a deck made while another is shuffled: {m}"));
    }
    match r {
        Ok(d) => full(&d)?,
        Err(_) if c.1 % 4 != 3 => return Err("panicked".into()),
        Err(_) => {}
    }
    // Whatever happened, later decks are what they are.
    full(&deck::shuffled()).map_err(|m| format!("shuffled afterwards: {m}"))?;
    full(&deck::shuffled_with(&mut StdRng::seed_from_u64(c.0))).map_err(|m| format!("shuffled_with afterwards: {m}"))?;
    let g: Vec<C> = deck::generate().map(uncard).collect();
    if &g != base_order() {
        return Err(format!("generated afterwards: [{}]", model::names(&g)));
    }
    if c.1 % 4 < 3 {
        let plain = deck::shuffled_with(&mut StdRng::seed_from_u64(c.0));
        let nested = deck::shuffled_with(&mut source());
        if plain != nested {
            return Err("the deck depends on other decks made meanwhile".into());
        }
    }
    Ok(Some(if c.1 % 4 == 3 { "source that panics" } else { "source that makes decks" }))
}

fn a_script() -> impl Strategy<Value = Scripted> {
    let extreme = proptest::sample::select(vec![
        0u64,
        1,
        2,
        3,
        51,
        52,
        53,
        u64::MAX,
        u64::MAX - 1,
        1 << 31,
        1 << 32,
        1 << 63,
        (1 << 31) - 1,
        u32::MAX as u64,
        u32::MAX as u64 - 1,
        u32::MAX as u64 + 1,
        0x8000_0000_8000_0000,
        0x7fff_ffff_7fff_ffff,
        0xaaaa_aaaa_aaaa_aaaa,
    ]);
    let word = prop_oneof![2 => any::<u64>(), 3 => extreme.clone(), 1 => 0u64..100, 1 => (0u64..100).prop_map(|x| x << 26 | x << 58)];
    let few = proptest::collection::vec(word.clone(), 1..5);
    let script = prop_oneof![
        30 => proptest::collection::vec(word, 0..120).prop_map(|v| (v, 1)),
        20 => (extreme.clone(), 0usize..200).prop_map(|(w, n)| (vec![w], n)),
        // A source that stays on a few words for long, as a broken one would; most of these words are
        // ones that a sampler rejects.
        2 => (extreme, 1f64..17.0).prop_map(|(w, n)| (vec![w], n.exp2() as usize)),
        2 => (few, 1f64..13.0).prop_map(|(v, n)| (v, n.exp2() as usize)),
        // Words that fall on the borders of n equal parts of the range.
        20 => (1u64..60, -2i64..3, 0usize..80).prop_map(|(n, d, k)| {
            let words = (0..k as u64).map(|i| {
                let x = (((u32::MAX as u64 + 1) * (1 + i % n)) / n).wrapping_add(d as u64) & 0xffff_ffff;
                x << 32 | x
            });
            (words.collect(), 1)
        }),
    ];
    (script, any::<u64>()).prop_map(|((script, times), tail)| Scripted { script, times, at: 0, tail })
}

pub fn generate_text() -> String { model::names(&deck::generate().map(uncard).collect::<Vec<_>>()) }
pub fn shuffled_text(n: usize) -> String { (0..n).map(|_| model::names(&uncards(&deck::shuffled()))).collect::<Vec<_>>().join("\n") }
fn child(args: &[&str]) -> String {
    let out = std::process::Command::new(std::env::current_exe().expect("own path")).args(args).output().expect("child process");
    assert!(out.status.success(), "child process failed");
    String::from_utf8(out.stdout).expect("text").trim_end().to_string()
}

fn other_process(_: &u32) -> Outcome {
    let there = child(&["deck"]);
    if there != generate_text() {
        return Err(format!("another process generates [{there}], this one [{}]", generate_text()));
    }
    Ok(Some("another process"))
}

pub fn c14(ctx: &Ctx) {
    ctx.random(
        "decks-in-use",
        ctx.n(60_000, 600_000),
        || {
            let i = any::<u8>;
            let op = prop_oneof![
                3 => Just(Op::Open),
                1 => i().prop_map(Op::Close),
                6 => i().prop_map(Op::Next),
                4 => (i(), i()).prop_map(|(a, b)| Op::Nth(a, b % 12)),
                1 => (i(), i()).prop_map(|(a, b)| Op::Nth(a, b)),
                3 => (i(), i()).prop_map(|(a, b)| Op::Take(a, b)),
                2 => (i(), i()).prop_map(|(a, b)| Op::Find(a, b)),
                3 => i().prop_map(Op::Hint),
                2 => (i(), i(), i()).prop_map(|(a, b, c)| Op::StepBy(a, b, c)),
                4 => (i(), i()).prop_map(|(a, b)| Op::Finish(a, b)),
                1 => Just(Op::Shuffled),
                1 => a_script().prop_map(Op::ShuffledWith),
            ];
            proptest::collection::vec(op, 1..40)
        },
        drive,
    );
    ctx.random("scripted-sources", ctx.n(400_000, 4_000_000), a_script, shuffled_scripted);
    ctx.random("kinds-of-sources", ctx.n(80_000, 800_000), || any::<u64>(), shuffled_kinds);
    ctx.random("busy-sources", ctx.n(20_000, 200_000), || (any::<u64>(), any::<u8>(), 0u32..60), busy);
    ctx.random_w("threads", ctx.n(400, 4_000), 1, || (any::<u8>(), any::<u64>()), many_threads, |c, _| c);
    ctx.exhaustive("processes", false, 4, |i, acc| match guard(|| other_process(&(i as u32))) {
        Ok(_) => acc.ok("another process", 1),
        Err(m) => acc.fail(i as u32, m),
    }, other_process, no_shrink);
}
pub fn c14_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "scripted-sources" => replay(v, shuffled_scripted),
        "kinds-of-sources" => replay(v, shuffled_kinds),
        "busy-sources" => replay(v, busy),
        "threads" => replay(v, many_threads),
        "processes" => replay(v, other_process),
        _ => replay(v, drive),
    }
}

// ---------------------------------------------------------------- C15

/// The deck and the state left behind are functions of the state of the source.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Repro {
    source: Scripted,
    seed: u64,
    /// What happens between the two runs.
    between: Vec<u8>,
    rounds: u8,
}

fn meanwhile(what: u8, n: u64) {
    match what % 6 {
        0 => {
            let _ = deck::shuffled();
        }
        1 => {
            let _ = deck::generate().nth(n as usize % 60);
        }
        2 => {
            let _ = deck::shuffled_with(&mut StdRng::seed_from_u64(n));
        }
        3 => {
            let _ = rand::random::<u64>();
        }
        4 => {
            let _ = std::thread::spawn(deck::shuffled).join();
        }
        _ => {
            let _ = deck::shuffled_with(&mut Scripted { script: vec![n], times: 3, at: 0, tail: n });
        }
    }
}

fn repro(c: &Repro) -> Outcome {
    let rounds = 1 + c.rounds as usize % 4;
    let mut a = c.source.clone();
    let first: Vec<Vec<Card>> = (0..rounds).map(|_| deck::shuffled_with(&mut a)).collect();
    let mut s1 = StdRng::seed_from_u64(c.seed);
    let std_first: Vec<Vec<Card>> = (0..rounds).map(|_| deck::shuffled_with(&mut s1)).collect();
    for (i, w) in c.between.iter().enumerate() {
        meanwhile(*w, mix(c.seed ^ i as u64));
    }
    let mut b = c.source.clone();
    let mut s2 = StdRng::seed_from_u64(c.seed);
    for r in 0..rounds {
        if r > 0 {
            meanwhile(c.between.first().copied().unwrap_or(0), r as u64);
        }
        // The same output through other types of source.
        let d = match r % 3 {
            0 => deck::shuffled_with(&mut b),
            1 => deck::shuffled_with::<dyn RngCore>(&mut b),
            _ => deck::shuffled_with(&mut &mut b),
        };
        if d != first[r] {
            return Err(format!(
                "deck {r} from the same source is [{}] and then [{}]",
                model::names(&uncards(&first[r])),
                model::names(&uncards(&d))
            ));
        }
        let d = deck::shuffled_with(&mut s2);
        if d != std_first[r] {
            return Err(format!("deck {r} from StdRng with seed {} is another one the second time", c.seed));
        }
    }
    if a != b {
        return Err("equal sources are left in different states".into());
    }
    let seed = c.seed;
    let moved = c.source.clone();
    let (d, e) = std::thread::spawn(move || (deck::shuffled_with(&mut moved.clone()), deck::shuffled_with(&mut StdRng::seed_from_u64(seed))))
        .join()
        .map_err(|_| "panicked on another thread".to_string())?;
    if d != first[0] || e != std_first[0] {
        return Err("another thread gets another deck from the same source".into());
    }
    if s1.next_u64() != s2.next_u64() {
        return Err("equal generators are left in different states".into());
    }
    Ok(Some("same source twice"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stat {
    /// 0: one StdRng for all decks; 1: a new StdRng for every deck; 2: SplitMix; 3: the default source.
    source: u8,
    seed: u64,
    decks: u64,
}

/// Bound on the standardised deviation. Chance alone exceeds it with probability below 1e-14 per statistic.
const Z: f64 = 9.0;

/// Deviation of a chi-square statistic from its mean, as a normal deviate (Wilson-Hilferty).
fn chi_z(x: f64, dof: f64) -> f64 {
    let t = 2.0 / (9.0 * dof);
    ((x / dof).cbrt() - (1.0 - t)) / t.sqrt()
}

struct Tables {
    n: u64,
    place: Vec<u64>,      // position x card
    next: Vec<u64>,       // card x following card
    before: Vec<u64>,     // card a anywhere before card b
    dealt: Vec<Vec<u64>>, // cards at pairs of positions
    category: [u64; 9],
    odd: u64,
    fixed: [u64; 8],
    again: [u64; 8],
    cycles: u64,
}
const DEALT: [(usize, usize); 6] = [(0, 1), (0, 51), (1, 2), (25, 26), (50, 51), (12, 40)];

fn collect(s: &Stat) -> Result<Tables, String> {
    let base = base_order();
    let mut index = [0usize; 52];
    for (i, &c) in base.iter().enumerate() {
        index[c as usize] = i;
    }
    let mut t = Tables {
        n: s.decks,
        place: vec![0; 52 * 52],
        next: vec![0; 52 * 52],
        before: vec![0; 52 * 52],
        dealt: vec![vec![0; 52 * 52]; DEALT.len()],
        category: [0; 9],
        odd: 0,
        fixed: [0; 8],
        again: [0; 8],
        cycles: 0,
    };
    let mut one = StdRng::seed_from_u64(mix(s.seed ^ 0x15));
    let mut split = Scripted { script: vec![], times: 0, at: 0, tail: mix(s.seed ^ 0x51) };
    let mut prev: Option<[usize; 52]> = None;
    for k in 0..s.decks {
        let d = match s.source {
            0 => deck::shuffled_with(&mut one),
            1 => deck::shuffled_with(&mut StdRng::seed_from_u64(s.seed.wrapping_mul(1_000_003).wrapping_add(k))),
            2 => deck::shuffled_with(&mut split),
            _ => deck::shuffled(),
        };
        if d.len() != 52 {
            return Err(format!("a deck of {} cards", d.len()));
        }
        let mut p = [0usize; 52];
        let mut seen = 0u64;
        for i in 0..52 {
            p[i] = index[uncard(d[i]) as usize];
            seen |= 1 << p[i];
        }
        if seen != (1 << 52) - 1 {
            return Err("not a permutation".into());
        }
        for i in 0..52 {
            t.place[i * 52 + p[i]] += 1;
            if i < 51 {
                t.next[p[i] * 52 + p[i + 1]] += 1;
            }
        }
        for (j, &(a, b)) in DEALT.iter().enumerate() {
            t.dealt[j][p[a] * 52 + p[b]] += 1;
        }
        if k % 8 == 0 {
            for i in 0..52 {
                for j in i + 1..52 {
                    t.before[p[i] * 52 + p[j]] += 1;
                }
            }
        }
        // Parity, cycles and fixed points.
        let mut done = [false; 52];
        let (mut cycles, mut fixed) = (0, 0);
        for i in 0..52 {
            if p[i] == i {
                fixed += 1;
            }
            if !done[i] {
                cycles += 1;
                let mut j = i;
                while !done[j] {
                    done[j] = true;
                    j = p[j];
                }
            }
        }
        t.odd += (52 - cycles) & 1;
        t.cycles += cycles;
        t.fixed[(fixed as usize).min(7)] += 1;
        if let Some(q) = prev {
            let same = (0..52).filter(|&i| p[i] == q[i]).count();
            t.again[same.min(7)] += 1;
        }
        prev = Some(p);
        let hand: [C; 5] = std::array::from_fn(|i| uncard(d[i]));
        t.category[model::category(model::score(&hand)) as usize] += 1;
    }
    Ok(t)
}

fn judge(t: &Tables) -> Result<(), String> {
    let n = t.n as f64;
    let chi = |what: &str, cells: &mut dyn Iterator<Item = (u64, f64)>, dof: f64| -> Result<(), String> {
        let mut x = 0.0;
        let mut worst = (0.0f64, 0);
        for (i, (got, want)) in cells.enumerate() {
            let d = got as f64 - want;
            x += d * d / want;
            let z = d / want.sqrt();
            if z.abs() > worst.0.abs() {
                worst = (z, i);
            }
        }
        let z = chi_z(x, dof);
        // The cell bound is for counts that are large enough to be near normal; Poisson tails are
        // allowed for by the offset.
        if z.abs() > Z || worst.0.abs() > Z + 3.0 {
            return Err(format!("{what}: chi-square {x:.1} for {dof} degrees of freedom (z = {z:.1}), worst cell {} at z = {:.1}, over {n} decks", worst.1, worst.0));
        }
        Ok(())
    };
    chi("card at position", &mut t.place.iter().map(|&x| (x, n / 52.0)), 51.0 * 51.0)?;
    for p in 0..52 {
        chi(&format!("card at position {p}"), &mut t.place[p * 52..p * 52 + 52].iter().map(|&x| (x, n / 52.0)), 51.0)?;
        chi(&format!("position of card {p}"), &mut (0..52).map(|i| (t.place[i * 52 + p], n / 52.0)), 51.0)?;
    }
    let off = |v: &Vec<u64>| (0..52 * 52).filter(|i| i / 52 != i % 52).map(|i| v[i]).collect::<Vec<_>>();
    chi("card followed by card", &mut off(&t.next).into_iter().map(|x| (x, n / 52.0)), 52.0 * 51.0 - 1.0)?;
    for (j, (a, b)) in DEALT.iter().enumerate() {
        chi(&format!("cards at positions {a} and {b}"), &mut off(&t.dealt[j]).into_iter().map(|x| (x, n / (52.0 * 51.0))), 52.0 * 51.0 - 1.0)?;
    }
    // Each pair of cards in either order; one binomial each.
    let m = t.before[1] + t.before[52];
    for a in 0..52 {
        for b in 0..a {
            let x = t.before[a * 52 + b] as f64;
            let z = (x - m as f64 / 2.0) / (m as f64 / 4.0).sqrt();
            if z.abs() > Z {
                return Err(format!("card {a} before card {b} in {x} of {m} decks (z = {z:.1})"));
            }
        }
    }
    let z = (t.odd as f64 - n / 2.0) / (n / 4.0).sqrt();
    if z.abs() > Z {
        return Err(format!("{} of {n} permutations are odd (z = {z:.1})", t.odd));
    }
    // Fixed points of a random permutation are close to Poisson with mean 1, exactly so to many digits.
    let pois: Vec<f64> = {
        let mut v: Vec<f64> = vec![];
        let mut f = 1.0;
        for k in 0..7 {
            if k > 0 {
                f *= k as f64;
            }
            v.push((-1.0f64).exp() / f);
        }
        let rest = 1.0 - v.iter().sum::<f64>();
        v.push(rest);
        v
    };
    chi("cards left in place", &mut t.fixed.iter().zip(&pois).map(|(&x, p)| (x, n * p)), 7.0)?;
    chi("cards in the place they had in the deck before", &mut t.again.iter().zip(&pois).map(|(&x, p)| (x, (n - 1.0) * p)), 7.0)?;
    let (mean, var): (f64, f64) = ((1..=52).map(|k| 1.0 / k as f64).sum(), (1..=52).map(|k| 1.0 / k as f64 - 1.0 / (k * k) as f64).sum());
    let z = (t.cycles as f64 - n * mean) / (n * var).sqrt();
    if z.abs() > Z {
        return Err(format!("{} cycles in {n} permutations, expected {:.0} (z = {z:.1})", t.cycles, n * mean));
    }
    const OF: [f64; 9] = [1_302_540.0, 1_098_240.0, 123_552.0, 54_912.0, 10_200.0, 5_108.0, 3_744.0, 624.0, 40.0];
    // The rarest ones are pooled so that every cell is large.
    let mut cells: Vec<(u64, f64)> = (0..7).map(|i| (t.category[i], n * OF[i] / 2_598_960.0)).collect();
    cells.push((t.category[7] + t.category[8], n * (OF[7] + OF[8]) / 2_598_960.0));
    chi("category of the first five cards", &mut cells.into_iter(), 7.0)?;
    Ok(())
}

fn fair(s: &Stat) -> Outcome {
    judge(&collect(s)?)?;
    Ok(Some("decks counted"))
}

fn fresh(c: &(u8, u8)) -> Outcome {
    let mut seen: HashSet<Vec<C>> = HashSet::new();
    let add = |who: String, d: Vec<C>, seen: &mut HashSet<Vec<C>>| -> Result<(), String> {
        if d.len() != 52 {
            return Err(format!("{who} gives {} cards", d.len()));
        }
        if seen.contains(&d) {
            return Err(format!("{who} gives a deck that was given before: [{}]", model::names(&d)));
        }
        seen.insert(d);
        Ok(())
    };
    for i in 0..400 {
        add(format!("call {i}"), uncards(&deck::shuffled()), &mut seen)?;
    }
    let threads = 1 + c.0 as usize % 8;
    let gate = Barrier::new(threads);
    let lists: Vec<Vec<Vec<C>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                sc.spawn(|| {
                    gate.wait();
                    (0..50).map(|_| uncards(&deck::shuffled())).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (t, l) in lists.into_iter().enumerate() {
        for (i, d) in l.into_iter().enumerate() {
            add(format!("thread {t}, call {i}"), d, &mut seen)?;
        }
    }
    // Threads one after another.
    for t in 0..threads {
        let l = std::thread::spawn(|| (0..3).map(|_| uncards(&deck::shuffled())).collect::<Vec<_>>()).join().map_err(|_| "panicked")?;
        for d in l {
            add(format!("later thread {t}"), d, &mut seen)?;
        }
    }
    for p in 0..c.1 % 5 {
        for l in child(&["shuffled", "5"]).lines() {
            let d: Vec<C> = l.split_whitespace().filter_map(model::parse).collect();
            add(format!("process {p}"), d, &mut seen)?;
        }
    }
    Ok(Some(if threads > 1 { "calls, threads, processes" } else { "calls" }))
}

/// Different outputs matter: a deck must not ignore most of what the source gives.
fn sensitive(seed: &u64) -> Outcome {
    let decks: HashSet<Vec<C>> = (0..64u64).map(|i| uncards(&deck::shuffled_with(&mut StdRng::seed_from_u64(seed.wrapping_add(i))))).collect();
    if decks.len() != 64 {
        return Err(format!("64 seeds from {seed} give {} different decks", decks.len()));
    }
    let mut r = StdRng::seed_from_u64(*seed);
    let decks: HashSet<Vec<C>> = (0..64).map(|_| uncards(&deck::shuffled_with(&mut r))).collect();
    if decks.len() != 64 {
        return Err(format!("64 decks from one generator, {} different", decks.len()));
    }
    Ok(Some("64 sources"))
}

pub fn c15(ctx: &Ctx) {
    ctx.random(
        "same-source-same-deck",
        ctx.n(40_000, 400_000),
        || {
            (a_script(), any::<u64>(), proptest::collection::vec(0u8..6, 0..4), any::<u8>())
                .prop_map(|(source, seed, between, rounds)| Repro { source, seed, between, rounds })
        },
        repro,
    );
    let decks = ctx.n(6_000_000, 60_000_000);
    let seed = ctx.seed;
    let stat = move |i: u64| Stat { source: (i % 4) as u8, seed: seed.wrapping_mul(64).wrapping_add(i / 4), decks };
    ctx.exhaustive(
        "distribution",
        false,
        8,
        |i, acc| {
            let s = stat(i);
            match guard(|| fair(&s)) {
                Ok(_) => acc.ok(["one generator", "a generator per deck", "another generator", "default source"][s.source as usize], s.decks),
                Err(m) => return acc.fail(s, m),
            }
            acc.sample(s);
        },
        fair,
        no_shrink,
    );
    ctx.random_w("fresh-decks", ctx.n(48, 400), 4, || (any::<u8>(), any::<u8>()), fresh, |c, _| c);
    ctx.random("different-sources", ctx.n(4_000, 40_000), || any::<u64>(), sensitive);
}
pub fn c15_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "distribution" => replay(v, fair),
        "fresh-decks" => replay(v, fresh),
        "different-sources" => replay(v, sensitive),
        _ => replay(v, repro),
    }
}
