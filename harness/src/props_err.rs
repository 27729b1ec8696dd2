//! C06 (a result or a truthful error for every slice) and C12 (error texts).

use std::{
    collections::BTreeSet,
    sync::{mpsc, Mutex},
    time::Duration,
};

use poker::{Card, EvalError, ParseCardError};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::{
    driver::{guard, no_shrink, replay, Ctx, Outcome},
    glue::*,
    model::{self, mix, C},
    props_rank::scramble,
};

// ---------------------------------------------------------------- C06

fn any_slice(h: &Hand) -> Outcome {
    let cs = cards(&h.0);
    let r = evaluator().evaluate(&cs);
    let o = kind_is(&h.0, &r)?;
    if uncards(&cs) != h.0 {
        return Err("evaluation changed the slice".into());
    }
    Ok(o)
}

/// A long slice that repeats cards is refused at once, in microseconds. If it were accepted, the answer
/// could take days; no answer in a hundred seconds is a failure to return.
fn repetitive(h: &Hand) -> Outcome {
    // Once one slice got no answer, no other is tried: every such try would cost as much.
    static STUCK: Mutex<Option<Vec<C>>> = Mutex::new(None);
    let none = || Err(format!("no answer in 100 s for {} cards with repetitions", h.0.len()));
    if let Some(s) = &*STUCK.lock().unwrap() {
        return if *s == h.0 { none() } else { Ok(None) };
    }
    let (tx, rx) = mpsc::channel();
    let v = h.0.clone();
    std::thread::spawn(move || {
        let _ = tx.send(guard(|| {
            let r = evaluator().evaluate(cards(&v));
            kind_is(&v, &r)
        }));
    });
    match rx.recv_timeout(Duration::from_secs(100)) {
        Ok(o) => o,
        Err(_) => {
            let mut s = STUCK.lock().unwrap();
            if s.is_none() {
                *s = Some(h.0.clone());
            }
            if s.as_ref() == Some(&h.0) {
                none()
            } else {
                Ok(None)
            }
        }
    }
}

/// A slice of `n` cards in which only the cards at `i` and `j` are the same, namely `c`.
fn doubled(n: usize, i: usize, j: usize, c: C, seed: u64) -> Vec<C> {
    let mut rest: Vec<C> = (0..52).filter(|&x| x != c).collect();
    scramble(&mut rest, mix(seed ^ ((n as u64) << 24 | (i as u64) << 16 | (j as u64) << 8 | u64::from(c))));
    let mut v: Vec<C> = rest[..n - 2].to_vec();
    v.insert(i, c);
    v.insert(j, c);
    v
}

pub fn repeats() -> impl Strategy<Value = Vec<C>> {
    let pool = (1usize..52).prop_flat_map(|k| proptest::sample::subsequence((0..52u8).collect::<Vec<_>>(), k));
    (pool, 0usize..40).prop_flat_map(|(pool, n)| proptest::collection::vec(proptest::sample::select(pool), n))
}

pub fn c06(ctx: &Ctx) {
    ctx.exhaustive(
        "fewer-than-five",
        true,
        52,
        |chunk, acc| {
            fn rec(h: &mut Vec<C>, f: &mut dyn FnMut(&[C]) -> bool) -> bool {
                if !f(h) {
                    return false;
                }
                if h.len() == 4 {
                    return true;
                }
                for c in h[h.len() - 1] + 1..52 {
                    h.push(c);
                    let go = rec(h, f);
                    h.pop();
                    if !go {
                        return false;
                    }
                }
                true
            }
            let mut one = |h: &[C]| {
                let mut b = h.to_vec();
                scramble(&mut b, ctx.seed);
                let c = Hand(b);
                acc.current = Some(c.clone());
                match guard(|| any_slice(&c)) {
                    Ok(t) => acc.ok(t.unwrap(), 1),
                    Err(m) => {
                        acc.fail(c, m);
                        return false;
                    }
                }
                if acc.evals % 977 == 5 {
                    acc.sample(c);
                }
                true
            };
            if chunk == 0 && !one(&[]) {
                return;
            }
            rec(&mut vec![chunk as u8], &mut one);
        },
        any_slice,
        shrink_case(0),
    );
    // One repeated card at every pair of positions.
    ctx.exhaustive(
        "one-card-twice",
        true,
        16 * 52,
        |chunk, acc| {
            let n = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 33, 52, 53][chunk as usize / 52];
            let c = (chunk % 52) as u8;
            for i in 0..n {
                for j in i + 1..n {
                    let h = Hand(doubled(n, i, j, c, ctx.seed));
                    match guard(|| repetitive_now(&h)) {
                        Ok(t) => acc.ok(if n < 5 { "fewer than five" } else { t.unwrap() }, 1),
                        Err(m) => return acc.fail(h, m),
                    }
                    if acc.evals % 977 == 5 {
                        acc.sample(h);
                    }
                }
            }
        },
        any_slice,
        shrink_case(0),
    );
    // All lists of four over all cards with repetitions, and all lists over two cards up to length 12.
    ctx.exhaustive(
        "few-different-cards",
        true,
        52 * 52,
        |chunk, acc| {
            let (a, b) = ((chunk / 52) as u8, (chunk % 52) as u8);
            for n in 0..=8usize {
                for m in 0..1u32 << n {
                    let h = Hand((0..n).map(|i| if m >> i & 1 == 1 { a } else { b }).collect());
                    match guard(|| any_slice(&h)) {
                        Ok(t) => acc.ok(t.unwrap(), 1),
                        Err(e) => return acc.fail(h, e),
                    }
                }
            }
        },
        any_slice,
        shrink_case(0),
    );
    ctx.random_w(
        "any-slice",
        ctx.n(400_000, 4_000_000),
        8,
        || {
            let with_dup = (rich_hand(4..=20), any::<prop::sample::Index>(), any::<prop::sample::Index>()).prop_map(|(mut h, i, j)| {
                let c = h[i.index(h.len())];
                let at = j.index(h.len() + 1);
                h.insert(at, c);
                h
            });
            prop_oneof![
                3 => rich_hand(0..=9),
                4 => with_dup,
                4 => repeats(),
                2 => proptest::collection::vec(a_card(), 0..12),
            ]
            .prop_map(Hand)
        },
        any_slice,
        shrink_case(0),
    );
    ctx.random_w(
        "many-distinct",
        ctx.n(400, 6_000),
        8,
        || prop_oneof![6 => rich_hand(10..=24), 2 => rich_hand(25..=52), 1 => hand_of(51..=52usize)].prop_map(Hand),
        any_slice,
        shrink_case(0),
    );
    ctx.random_w(
        "long-with-repetitions",
        ctx.n(4_000, 40_000),
        4,
        || {
            let n = prop_oneof![
                53usize..70,
                100usize..600,
                Just(255usize),
                Just(256usize),
                Just(257usize),
                1000usize..2000,
                Just(65_535usize),
                Just(65_536usize),
                Just(65_541usize)
            ];
            // A full deck first, so that the first repetition comes as late as it can.
            prop_oneof![
                (n.clone(), hand_of(52..=52usize), any::<u64>()).prop_map(|(n, d, s)| {
                    let mut v = d;
                    let mut x = s;
                    while v.len() < n {
                        x = mix(x);
                        v.push((x % 52) as u8);
                    }
                    v
                }),
                (n, any::<u64>(), 1u64..52).prop_map(|(n, s, k)| {
                    let mut x = s;
                    (0..n)
                        .map(|_| {
                            x = mix(x);
                            (x % k) as u8
                        })
                        .collect()
                }),
            ]
            .prop_map(Hand)
        },
        repetitive,
        |c, _| c,
    );
}
fn repetitive_now(h: &Hand) -> Outcome {
    if h.0.len() > 20 {
        repetitive(h)
    } else {
        any_slice(h)
    }
}
pub fn c06_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "long-with-repetitions" => replay(v, repetitive),
        _ => replay(v, any_slice),
    }
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PErr {
    Length(String),
    Rank(String, char),
    Suit(String, char),
}

fn perr_value(p: &PErr) -> ParseCardError {
    match p.clone() {
        PErr::Length(original_input) => ParseCardError::InvalidLength { original_input },
        PErr::Rank(original_input, incorrect_char) => ParseCardError::InvalidRank { original_input, incorrect_char },
        PErr::Suit(original_input, incorrect_char) => ParseCardError::InvalidSuit { original_input, incorrect_char },
    }
}

/// The text that states the facts of a parse error.
fn perr_text(p: &PErr) -> String {
    match p {
        PErr::Length(s) => format!("Error parsing input '{s}' as a Card: Found input of length {}, expected 2", s.chars().count()),
        PErr::Rank(s, c) => {
            format!("Error parsing input '{s}' as a Card: Invalid rank character '{c}', expected one of [23456789TJQKA]")
        }
        PErr::Suit(s, c) => format!("Error parsing input '{s}' as a Card: Invalid suit character '{c}', expected one of [chsd]"),
    }
}

/// Renders the same value in several ways; all must give one text.
fn rendered<T: std::fmt::Display + Clone + std::error::Error + Send + Sync + 'static>(e: &T, others: &[T]) -> Result<String, String> {
    let text = e.to_string();
    let mut again = vec![e.to_string(), format!("{e}"), e.clone().to_string(), format!("{:}", Box::new(e.clone()) as Box<dyn std::error::Error>)];
    let moved = e.clone();
    again.push(std::thread::spawn(move || moved.to_string()).join().map_err(|_| "rendering panicked on another thread")?);
    for o in others {
        again.push(o.to_string());
    }
    match again.into_iter().find(|t| *t != text) {
        Some(t) => Err(format!("the same error renders as {text:?} and as {t:?}")),
        None => {
            crate::glue::written(e, &text)?;
            Ok(text)
        }
    }
}

fn parse_error_text(p: &PErr) -> Outcome {
    let e = perr_value(p);
    let text = rendered(&e, &[perr_value(p)])?;
    let want = perr_text(p);
    if text != want {
        return Err(format!("text is {text:?}, expected {want:?}"));
    }
    Ok(Some(match p {
        PErr::Length(_) => "length",
        PErr::Rank(..) => "rank",
        PErr::Suit(..) => "suit",
    }))
}

/// The error that parsing a string gives, if any, states the facts about that string.
fn produced_text(s: &String) -> Outcome {
    let Err(e) = s.parse::<Card>() else {
        return Ok(None);
    };
    let text = e.to_string();
    let ch: Vec<char> = s.chars().collect();
    let p = if ch.len() != 2 {
        PErr::Length(s.clone())
    } else if !"23456789TJQKA".contains(ch[0]) {
        PErr::Rank(s.clone(), ch[0])
    } else {
        PErr::Suit(s.clone(), ch[1])
    };
    if text != perr_text(&p) {
        return Err(format!("text is {text:?}, expected {:?}", perr_text(&p)));
    }
    Ok(Some(if s.is_ascii() { "ascii input" } else { "unicode input" }))
}

/// A text of any length, described by what it is made of.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongText {
    pub head: String,
    pub fill: char,
    pub times: usize,
    pub tail: String,
}
impl LongText {
    pub fn text(&self) -> String {
        let mut s = self.head.clone();
        s.extend(std::iter::repeat(self.fill).take(self.times));
        s + &self.tail
    }
}
/// Lengths around the powers of two, in characters or in bytes, where a count kept in too few bits starts again.
pub fn long_text() -> impl Strategy<Value = LongText> {
    let ends = || prop_oneof![3 => (0u8..52).prop_map(model::name), 1 => Just(String::new()), 1 => any_text()];
    let fill = prop_oneof![4 => proptest::sample::select(vec!['A', 's', ' ', '\0', 'é', '♠', '🂡', '\u{301}', '\n']), 1 => any::<char>()];
    let size = prop_oneof![12 => 2u32..=13, 6 => 14u32..=17, 1 => 18u32..=21];
    (ends(), fill, (size, 0usize..9, any::<bool>()), prop_oneof![2 => Just(String::new()), 1 => ends()]).prop_map(|(head, fill, (k, d, bytes), tail)| {
        let around = ((1usize << k) + d).saturating_sub(4);
        let times = if bytes { around.saturating_sub(head.len() + tail.len()) / fill.len_utf8() } else { around.saturating_sub(if d % 2 == 0 { head.chars().count() } else { 0 }) };
        LongText { head, fill, times, tail }
    })
}
/// A message about a long text in short.
pub fn short(m: String) -> String {
    let n = m.chars().count();
    if n < 700 {
        return m;
    }
    m.chars().take(300).chain(" ... ".chars()).chain(m.chars().skip(n - 300)).collect()
}
fn long_produced(t: &LongText) -> Outcome { produced_text(&t.text()).map_err(short) }

fn chars_text(c: &(char, char)) -> Outcome {
    let Err(e) = Card::try_from_chars(c.0, c.1) else {
        return Ok(None);
    };
    let text = e.to_string();
    let both: String = [c.0, c.1].iter().collect();
    let accepted: Vec<String> = if !"23456789TJQKA".contains(c.0) {
        vec![perr_text(&PErr::Rank(c.0.to_string(), c.0)), perr_text(&PErr::Rank(both, c.0))]
    } else {
        vec![perr_text(&PErr::Suit(c.1.to_string(), c.1)), perr_text(&PErr::Suit(both, c.1))]
    };
    if !accepted.contains(&text) {
        return Err(format!("text is {text:?}, expected {:?}", accepted[0]));
    }
    Ok(Some("from characters"))
}

fn dup_text(cs: &[C], text: &str) -> Result<(), String> {
    let mut once = BTreeSet::new();
    let mut twice = BTreeSet::new();
    for &c in cs {
        if !once.insert(c) {
            twice.insert(c);
        }
    }
    let Some((_, list)) = text.rsplit_once(':') else {
        return Err(format!("no list of cards in {text:?}"));
    };
    let mut named = BTreeSet::new();
    for w in list.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()) {
        let Some(c) = model::parse(w) else {
            return Err(format!("{w:?} is no card in {text:?}"));
        };
        if !named.insert(c) {
            return Err(format!("{w} is listed twice in {text:?}"));
        }
    }
    if named != twice {
        let n = |s: &BTreeSet<C>| model::names(&s.iter().copied().collect::<Vec<_>>());
        return Err(format!("lists [{}], repeated are [{}]: {text:?}", n(&named), n(&twice)));
    }
    Ok(())
}

fn not_unique(h: &Hand) -> Outcome {
    let mk = || EvalError::CardsNotUnique(cards(&h.0));
    let e = mk();
    let text = rendered(&e, &[mk(), mk(), mk()])?;
    dup_text(&h.0, &text)?;
    let mut sorted = h.0.clone();
    sorted.sort_unstable();
    let reps = sorted.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0]).collect::<BTreeSet<_>>().len();
    // The same error from an evaluation.
    if !distinct(&h.0) && h.0.len() >= 5 {
        if let Err(p) = evaluator().evaluate(cards(&h.0)) {
            let text = p.to_string();
            dup_text(&h.0, &text).map_err(|m| format!("error from an evaluation: {m}"))?;
        }
    }
    Ok(match reps {
        0 => None,
        1 => Some("one card repeated"),
        2 => Some("two cards repeated"),
        _ => Some("three or more cards repeated"),
    })
}

fn hand_size(n: &u64) -> Outcome {
    let n = *n as usize;
    let text = rendered(&EvalError::InvalidHandSize(n), &[EvalError::InvalidHandSize(n)])?;
    let want = format!("Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: {n}");
    if text != want {
        return Err(format!("text is {text:?}, expected {want:?}"));
    }
    if n < 5 {
        let e = evaluator().evaluate(cards(&(0..n as u8).map(|i| i * 7).collect::<Vec<_>>()));
        if e.as_ref().err().map(|e| e.to_string()) != Some(want) {
            return Err(format!("evaluating {n} cards gives {}", show(&e)));
        }
    }
    Ok(Some("hand size"))
}

pub fn any_text() -> impl Strategy<Value = String> {
    prop_oneof![
        2 => proptest::collection::vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>()),
        2 => "[23456789TJQKAchsdCHSDtjqka10 ♠♥♣♦'{}%\\\\\"\t\n]{0,5}",
        1 => proptest::collection::vec(proptest::sample::select(vec!['A', 's', 'é', '♠', '🂡', 'ａ', '\u{301}', '\u{200d}', '\'', '{', '}', '\0', 'K', 'h']), 0..8)
            .prop_map(|v| v.into_iter().collect::<String>()),
        1 => proptest::collection::vec(any::<char>(), 0..300).prop_map(|v| v.into_iter().collect::<String>()),
    ]
}

pub fn c12(ctx: &Ctx) {
    ctx.random(
        "parse-error-values",
        ctx.n(40_000, 400_000),
        || {
            prop_oneof![
                any_text().prop_map(PErr::Length),
                (any_text(), any::<char>()).prop_map(|(s, c)| PErr::Rank(s, c)),
                (any_text(), any::<char>()).prop_map(|(s, c)| PErr::Suit(s, c)),
            ]
        },
        parse_error_text,
    );
    ctx.random("parse-error-lengths", ctx.n(2_000, 20_000), || (0usize..3000, proptest::sample::select(vec!['x', 'é', '♠', '🂡'])).prop_map(|(n, c)| PErr::Length(c.to_string().repeat(n))), parse_error_text);
    ctx.random("texts-from-parsing", ctx.n(200_000, 2_000_000), any_text, produced_text);
    ctx.random("long-texts", ctx.n(1_500, 20_000), long_text, long_produced);
    ctx.random(
        "texts-from-characters",
        ctx.n(100_000, 1_000_000),
        || {
            let c = || prop_oneof![any::<char>(), proptest::sample::select("23456789TJQKAchsdtjqka10".chars().collect::<Vec<_>>())];
            (c(), c())
        },
        chars_text,
    );
    ctx.random_w(
        "not-unique",
        ctx.n(40_000, 400_000),
        8,
        || {
            let doubled = (hand_of(1..=20usize), any::<u64>()).prop_map(|(h, s)| {
                let mut v = h.clone();
                let mut x = s;
                for &c in &h {
                    x = mix(x);
                    if x % 3 == 0 {
                        for _ in 0..1 + (x >> 8) % 3 {
                            x = mix(x);
                            let at = (x % (v.len() as u64 + 1)) as usize;
                            v.insert(at, c);
                        }
                    }
                }
                v
            });
            prop_oneof![4 => doubled, 2 => repeats(), 1 => proptest::collection::vec(a_card(), 0..150)].prop_map(Hand)
        },
        not_unique,
        shrink_case(0),
    );
    // Every pair of cards repeated, in both orders and interleaved.
    ctx.exhaustive(
        "two-repeated",
        true,
        52 * 52,
        |i, acc| {
            let (a, b) = ((i / 52) as u8, (i % 52) as u8);
            let rest: Vec<C> = (0..52).filter(|&c| c != a && c != b).skip((i % 40) as usize).take(2).collect();
            for pat in [[a, b, a, b], [a, a, b, b], [a, b, b, a]] {
                let mut v = pat.to_vec();
                v.extend(&rest);
                let h = Hand(v);
                match guard(|| not_unique_quick(&h)) {
                    Ok(t) => acc.ok(t.unwrap_or("trivial"), 1),
                    Err(m) => return acc.fail(h, m),
                }
                acc.sample(h);
            }
        },
        not_unique,
        no_shrink,
    );
    ctx.random("hand-size", ctx.n(4_000, 40_000), || prop_oneof![0u64..6, any::<u64>(), 0u64..100_000], hand_size);
}
fn not_unique_quick(h: &Hand) -> Outcome {
    let e = EvalError::CardsNotUnique(cards(&h.0));
    dup_text(&h.0, &e.to_string())?;
    Ok(Some("two cards repeated"))
}
pub fn c12_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "parse-error-values" | "parse-error-lengths" => replay(v, parse_error_text),
        "texts-from-parsing" => replay(v, produced_text),
        "long-texts" => replay(v, long_produced),
        "texts-from-characters" => replay(v, chars_text),
        "hand-size" => replay(v, hand_size),
        _ => replay(v, not_unique),
    }
}
