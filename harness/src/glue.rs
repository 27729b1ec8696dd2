//! Connects the model with the library under test.

use std::{fmt, sync::OnceLock};

use poker::{Card, Eval, EvalClass, EvalError, Evaluator, Rank, Suit};
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::{
    driver::{guard, Failure, Outcome},
    model::{self, C},
};

pub const RANKS: [Rank; 13] = [
    Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight, Rank::Nine, Rank::Ten,
    Rank::Jack, Rank::Queen, Rank::King, Rank::Ace,
];
pub const SUITS: [Suit; 4] = [Suit::Clubs, Suit::Diamonds, Suit::Hearts, Suit::Spades];

pub fn deck() -> &'static [Card; 52] {
    static D: OnceLock<[Card; 52]> = OnceLock::new();
    D.get_or_init(|| std::array::from_fn(|i| Card::new(RANKS[i / 4], SUITS[i % 4])))
}
pub fn card(c: C) -> Card { deck()[c as usize] }
pub fn cards(h: &[C]) -> Vec<Card> { h.iter().map(|&c| card(c)).collect() }
pub fn rank_no(r: Rank) -> usize { RANKS.iter().position(|&x| x == r).expect("a rank") }
pub fn suit_no(s: Suit) -> usize { SUITS.iter().position(|&x| x == s).expect("a suit") }
/// The model card that a library card claims to be.
pub fn uncard(c: Card) -> C { model::mk(rank_no(c.rank()) as u8, suit_no(c.suit()) as u8) }
pub fn uncards(h: &[Card]) -> Vec<C> { h.iter().map(|&c| uncard(c)).collect() }

pub fn evaluator() -> &'static Evaluator {
    static E: OnceLock<Evaluator> = OnceLock::new();
    E.get_or_init(Evaluator::new)
}

/// A hand as a case: written as card names.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Hand(pub Vec<C>);
impl fmt::Debug for Hand {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", model::names(&self.0)) }
}
impl Serialize for Hand {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&model::names(&self.0)) }
}
impl<'de> Deserialize<'de> for Hand {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.split_whitespace()
            .map(|w| model::parse(w).ok_or_else(|| serde::de::Error::custom("not a card")))
            .collect::<Result<_, _>>()
            .map(Hand)
    }
}

/// One evaluation per strength, weakest first, from the model's example hand of that strength.
pub fn reps() -> &'static [Eval] {
    static R: OnceLock<Vec<Eval>> = OnceLock::new();
    R.get_or_init(|| {
        model::strengths().hands.iter().map(|h| evaluator().evaluate(cards(h)).expect("five distinct cards")).collect()
    })
}

/// The representatives by the library's own `cmp`: the place of each among them, and them in that order.
pub fn places() -> &'static (Vec<usize>, Vec<Eval>) {
    static P: OnceLock<(Vec<usize>, Vec<Eval>)> = OnceLock::new();
    P.get_or_init(|| {
        let r = reps();
        let place: Vec<usize> = r.iter().map(|a| r.iter().filter(|b| b.cmp(&a).is_lt()).count()).collect();
        let mut idx: Vec<usize> = (0..r.len()).collect();
        idx.sort_by_key(|&i| place[i]);
        (place, idx.into_iter().map(|i| r[i]).collect())
    })
}
/// How many strengths are below an evaluation by the library's own order.
pub fn place(e: Eval) -> usize { places().1.partition_point(|x| x.cmp(&e).is_lt()) }

/// Builds the representatives; a hand that cannot be evaluated at all breaks every property.
pub fn prepare() -> Result<(), Failure> {
    for h in &model::strengths().hands {
        let r = guard(|| match evaluator().evaluate(cards(h)) {
            Ok(_) => Ok(None),
            Err(e) => Err(format!("five distinct cards are rejected: {e:?}")),
        });
        if let Err(message) = r {
            return Err(Failure {
                sub: "prepare".into(),
                case: serde_json::to_value(Hand(h.to_vec())).unwrap(),
                message,
            });
        }
    }
    reps();
    Ok(())
}

pub fn replay_prepare(h: &Hand) -> Outcome {
    match evaluator().evaluate(cards(&h.0)) {
        Ok(_) => Ok(None),
        Err(e) => Err(format!("five distinct cards are rejected: {e:?}")),
    }
}

pub fn class_of(code: u32) -> EvalClass {
    let a = RANKS[model::deciding(code, 0) as usize];
    let b = RANKS[model::deciding(code, 1) as usize];
    class_value(model::category(code), a, b)
}

pub fn class_value(cat: u32, a: Rank, b: Rank) -> EvalClass {
    match cat {
        model::HIGH => EvalClass::HighCard { high_rank: a },
        model::PAIR => EvalClass::Pair { pair: a },
        model::TWO_PAIR => EvalClass::TwoPair { first_pair: a, second_pair: b },
        model::TRIPS => EvalClass::ThreeOfAKind { trips: a },
        model::STRAIGHT => EvalClass::Straight { high_rank: a },
        model::FLUSH => EvalClass::Flush { high_rank: a },
        model::FULL => EvalClass::FullHouse { trips: a, pair: b },
        model::QUADS => EvalClass::FourOfAKind { quads: a },
        model::SFLUSH => EvalClass::StraightFlush { high_rank: a },
        _ => unreachable!(),
    }
}

/// Category and ranks of a class by pattern matching only (not by its comparison operators).
pub fn class_key(c: EvalClass) -> (u32, usize, usize) {
    match c {
        EvalClass::HighCard { high_rank } => (model::HIGH, rank_no(high_rank), 0),
        EvalClass::Pair { pair } => (model::PAIR, rank_no(pair), 0),
        EvalClass::TwoPair { first_pair, second_pair } => (model::TWO_PAIR, rank_no(first_pair), rank_no(second_pair)),
        EvalClass::ThreeOfAKind { trips } => (model::TRIPS, rank_no(trips), 0),
        EvalClass::Straight { high_rank } => (model::STRAIGHT, rank_no(high_rank), 0),
        EvalClass::Flush { high_rank } => (model::FLUSH, rank_no(high_rank), 0),
        EvalClass::FullHouse { trips, pair } => (model::FULL, rank_no(trips), rank_no(pair)),
        EvalClass::FourOfAKind { quads } => (model::QUADS, rank_no(quads), 0),
        EvalClass::StraightFlush { high_rank } => (model::SFLUSH, rank_no(high_rank), 0),
    }
}

pub fn code_key(code: u32) -> (u32, usize, usize) {
    let cat = model::category(code);
    let b = if cat == model::TWO_PAIR || cat == model::FULL { model::deciding(code, 1) as usize } else { 0 };
    (cat, model::deciding(code, 0) as usize, b)
}

/// The evaluation has the strength the model says, judged by comparing it with the representatives.
pub fn strength_is(e: Eval, code: u32) -> Result<(), String> {
    let i = model::strengths().index(code);
    if e == reps()[i] && e.cmp(&reps()[i]).is_eq() {
        return Ok(());
    }
    let got: Vec<String> = (0..7462)
        .filter(|&j| e == reps()[j])
        .map(|j| model::names(&model::strengths().hands[j]))
        .collect();
    Err(format!(
        "evaluates to strength of [{}] ({e}), expected strength of [{}] ({})",
        got.join(" / "),
        model::names(&model::strengths().hands[i]),
        model::text(code)
    ))
}

pub fn class_is(e: Eval, code: u32) -> Result<(), String> {
    if class_key(e.class()) == code_key(code) {
        Ok(())
    } else {
        Err(format!("class is {:?}, expected {:?}", e.class(), class_of(code)))
    }
}

/// A short description of an evaluation outcome for messages.
pub fn show(r: &Result<Eval, EvalError>) -> String {
    match r {
        Ok(e) => format!("Ok({e}; {:?})", e),
        Err(EvalError::InvalidHandSize(n)) => format!("Err(InvalidHandSize({n}))"),
        Err(EvalError::CardsNotUnique(v)) => format!("Err(CardsNotUnique({}))", model::names(&uncards(v))),
    }
}

pub fn distinct(h: &[C]) -> bool {
    let mut m = 0u64;
    h.iter().all(|&c| {
        let f = m & 1 << c == 0;
        m |= 1 << c;
        f
    })
}

/// An evaluation is given exactly for five or more distinct cards, and an error tells the truth.
pub fn kind_is(h: &[C], r: &Result<Eval, EvalError>) -> Outcome {
    match r {
        Ok(_) => {
            if h.len() < 5 || !distinct(h) {
                return Err(format!("accepted: {}", show(r)));
            }
            Ok(Some("evaluated"))
        }
        Err(EvalError::InvalidHandSize(n)) => {
            if h.len() >= 5 {
                return Err(format!("{} cards rejected as too few", h.len()));
            }
            if *n != h.len() {
                return Err(format!("invalid hand size {n} reported for {} cards", h.len()));
            }
            Ok(Some("too few"))
        }
        Err(EvalError::CardsNotUnique(v)) => {
            if distinct(h) {
                return Err("distinct cards rejected as not unique".into());
            }
            if uncards(v) != h || v[..] != cards(h)[..] {
                return Err(format!("the error carries other cards: {}", show(r)));
            }
            Ok(Some("not unique"))
        }
    }
}

/// The outcome is what the rules and the documented errors say, exactly.
pub fn outcome_is(h: &[C], r: &Result<Eval, EvalError>) -> Outcome {
    let o = kind_is(h, r)?;
    if let Ok(e) = r {
        let code = model::score(h);
        strength_is(*e, code)?;
        class_is(*e, code)?;
    }
    Ok(o)
}

// ---- strategies ----

pub fn a_card() -> impl Strategy<Value = C> { 0u8..52 }

/// Distinct cards, uniformly chosen and ordered.
pub fn hand_of(sizes: impl Into<proptest::sample::SizeRange>) -> impl Strategy<Value = Vec<C>> {
    proptest::sample::subsequence((0..52u8).collect::<Vec<_>>(), sizes).prop_shuffle()
}

/// Distinct cards, often from few ranks or few suits, so that strong and tied hands are common.
pub fn rich_hand(sizes: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Vec<C>> {
    let (lo, hi) = (*sizes.start(), *sizes.end());
    let uniform = hand_of(sizes.clone());
    let few_ranks = (0u8..10, 4u8..7, Just(sizes.clone())).prop_flat_map(move |(low, span, _)| {
        let pool: Vec<C> = (0..span).flat_map(|i| (0..4).map(move |s| model::mk((low + i) % 13, s))).collect();
        let top = hi.min(pool.len());
        proptest::sample::subsequence(pool, lo.min(top)..=top).prop_shuffle()
    });
    let few_suits = (0u8..4, 0u8..4, Just(sizes)).prop_flat_map(move |(a, b, _)| {
        let mut pool: Vec<C> = (0..13).flat_map(|r| [model::mk(r, a), model::mk(r, b)]).collect();
        pool.sort_unstable();
        pool.dedup();
        let top = hi.min(pool.len());
        proptest::sample::subsequence(pool, lo.min(top)..=top).prop_shuffle()
    });
    prop_oneof![2 => uniform, 2 => few_ranks, 2 => few_suits]
}

/// Five cards of a strength chosen evenly over categories, with a random renaming of suits and order.
pub fn hand_of_category() -> impl Strategy<Value = Vec<C>> {
    (0u32..9, any::<u16>(), suit_perm(), Just(vec![0usize, 1, 2, 3, 4]).prop_shuffle()).prop_map(|(cat, pick, sp, ord)| {
        let h = nth_of_category(cat, pick);
        ord.into_iter().map(|i| rename(h[i], &sp)).collect()
    })
}

pub fn category_range(cat: u32) -> std::ops::Range<usize> {
    let s = model::strengths();
    let lo = s.codes.partition_point(|&c| model::category(c) < cat);
    let hi = s.codes.partition_point(|&c| model::category(c) <= cat);
    lo..hi
}

pub fn nth_of_category(cat: u32, pick: u16) -> [C; 5] {
    let r = category_range(cat);
    model::strengths().hands[r.start + pick as usize * r.len() / 65536]
}

/// A hand that is easily mistaken for another by a key that leaves something out: the same ranks, the
/// same suits, the same sum, the same beginning. Of the same length, and distinct if the hand is.
pub fn twin(h: &[C], mode: u8, x: u64) -> Vec<C> {
    let n = h.len();
    if n < 2 {
        return h.to_vec();
    }
    let mut x = x;
    let mut next = |m: usize| {
        x = model::mix(x);
        (x % m as u64) as usize
    };
    for _ in 0..20 {
        let mut t = h.to_vec();
        let (a, b) = (next(n), next(n));
        let (rank, suit) = (model::rank, model::suit);
        match mode % 9 {
            0 => (t[a], t[b]) = (model::mk(rank(h[a]), suit(h[b])), model::mk(rank(h[b]), suit(h[a]))),
            1 => {
                for i in (1..n).rev() {
                    let j = next(i + 1);
                    (t[i], t[j]) = (model::mk(rank(t[i]), suit(t[j])), model::mk(rank(t[j]), suit(t[i])));
                }
            }
            2 => t.iter_mut().for_each(|c| *c = model::mk(rank(*c), next(4) as u8)),
            3 => {
                let by = 1 + next(12) as u8;
                t.iter_mut().for_each(|c| *c = model::mk((rank(*c) + by) % 13, suit(*c)))
            }
            4 => {
                t[a] = (h[a] + 4) % 52;
                t[b] = (h[b] + 48) % 52;
            }
            5 => t[n / 2..].iter_mut().for_each(|c| *c = next(52) as u8),
            6 => t[..n / 2].iter_mut().for_each(|c| *c = next(52) as u8),
            7 => t[a] = model::mk(rank(h[b]), next(4) as u8),
            _ => {
                let m = 1 + next(63) as u8;
                (t[a], t[b]) = (h[a] ^ m, h[b] ^ m);
            }
        }
        if t != h && t.iter().all(|&c| c < 52) && (distinct(&t) || !distinct(h)) {
            return t;
        }
    }
    h.to_vec()
}

pub fn suit_perm() -> impl Strategy<Value = Vec<u8>> { Just(vec![0u8, 1, 2, 3]).prop_shuffle() }
pub fn rename(c: C, p: &[u8]) -> C { model::mk(model::rank(c), p[model::suit(c) as usize]) }

// ---- shrinking ----

/// Drops cards (down to `min`) and puts the rest in the simplest order that still fails.
pub fn shrink_hand(h: Vec<C>, min: usize, fails: &dyn Fn(&[C]) -> bool) -> Vec<C> {
    let mut h = h;
    for _ in 0..40 {
        let mut smaller = false;
        let mut i = 0;
        while i < h.len() && h.len() > min {
            let mut g = h.clone();
            g.remove(i);
            if fails(&g) {
                h = g;
                smaller = true;
            } else {
                i += 1;
            }
        }
        if !smaller {
            break;
        }
    }
    let mut sorted = h.clone();
    sorted.sort_unstable();
    if fails(&sorted) {
        return sorted;
    }
    // Towards sorted order by single moves.
    for i in 0..h.len() {
        for j in i + 1..h.len() {
            if h[j] < h[i] {
                let mut g = h.clone();
                g.swap(i, j);
                if fails(&g) {
                    h = g;
                }
            }
        }
    }
    h
}

pub fn shrink_case(min: usize) -> impl Fn(Hand, &dyn Fn(&Hand) -> bool) -> Hand {
    move |h, fails| Hand(shrink_hand(h.0, min, &|g| fails(&Hand(g.to_vec()))))
}

/// A place for text with little room: what does not fit is refused.
struct Room {
    left: usize,
    got: String,
}
impl std::fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

/// Writing a value anywhere gives its text; where there is no room for all of it, the failure is reported.
pub fn written(x: &dyn std::fmt::Display, text: &str) -> Result<(), String> {
    let n = text.len();
    let step = (n / 30).max(1);
    for room in (0..n).step_by(step).chain([n.saturating_sub(1), n, n + 7]) {
        let mut w = Room { left: room, got: String::new() };
        let told = std::fmt::write(&mut w, format_args!("{x}"));
        if told.is_ok() != (room >= n) {
            return Err(format!("written where there is room for {room} of the {n} bytes of {text:?}, says {told:?}"));
        }
        if told.is_ok() && w.got != text || !text.starts_with(&w.got) {
            return Err(format!("written where there is room for {room} bytes, gives {:?} of {text:?}", w.got));
        }
    }
    Ok(())
}
