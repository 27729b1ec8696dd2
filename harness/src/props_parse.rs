//! C09 (parsing one card), C10 (making and reading cards), C11 (parsing and joining many).

use std::{
    borrow::Cow,
    cell::Cell,
    collections::{hash_map::DefaultHasher, HashSet, VecDeque},
    convert::{TryFrom, TryInto},
    hash::{Hash, Hasher},
    rc::Rc,
    str::FromStr,
};

use poker::{box_cards, card, cards, Card, ParseCardError, Rank, Suit};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::{
    driver::{guard, no_shrink, replay, Ctx, Outcome},
    glue::*,
    model::{self, mix, C},
    props_err::{any_text, long_text, short, LongText},
};

const RC: &str = "23456789TJQKA";
const SC: &str = "cdhs";

fn rank_of(c: char) -> Option<usize> { RC.chars().position(|x| x == c) }
fn suit_of(c: char) -> Option<usize> { SC.chars().position(|x| x == c) }

type P = Result<Card, ParseCardError>;

/// The documented result of parsing a string.
fn parsed(s: &str) -> P {
    let ch: Vec<char> = s.chars().collect();
    let original_input = s.to_string();
    if ch.len() != 2 {
        return Err(ParseCardError::InvalidLength { original_input });
    }
    let Some(r) = rank_of(ch[0]) else {
        return Err(ParseCardError::InvalidRank { original_input, incorrect_char: ch[0] });
    };
    let Some(t) = suit_of(ch[1]) else {
        return Err(ParseCardError::InvalidSuit { original_input, incorrect_char: ch[1] });
    };
    Ok(Card::new(RANKS[r], SUITS[t]))
}

/// The same card by rank and suit, or the same error.
fn same(a: &P, b: &P) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.rank() == y.rank() && x.suit() == y.suit() && x == y,
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

fn expect(how: &str, got: &P, want: &P) -> Result<(), String> {
    if same(got, want) {
        Ok(())
    } else {
        Err(format!("{how} gives {got:?}, expected {want:?}"))
    }
}

// ---------------------------------------------------------------- C09

#[inline]
fn parse_fast(s: &str) -> bool {
    // Cheap comparison for the exhaustive runs: no allocation on the model's side.
    let got: P = s.parse();
    let mut it = s.chars();
    let (a, b, c) = (it.next(), it.next(), it.next());
    match (a, b, c) {
        (Some(a), Some(b), None) => match (rank_of(a), suit_of(b)) {
            (Some(r), Some(t)) => matches!(got, Ok(x) if x.rank() == RANKS[r] && x.suit() == SUITS[t]),
            (Some(_), None) => {
                matches!(&got, Err(ParseCardError::InvalidSuit { original_input, incorrect_char }) if original_input == s && *incorrect_char == b)
            }
            (None, _) => {
                matches!(&got, Err(ParseCardError::InvalidRank { original_input, incorrect_char }) if original_input == s && *incorrect_char == a)
            }
        },
        _ => matches!(&got, Err(ParseCardError::InvalidLength { original_input }) if original_input == s),
    }
}

fn string(s: &String) -> Outcome {
    let want = parsed(s);
    expect("parse", &s.parse(), &want)?;
    expect("from_str", &Card::from_str(s), &want)?;
    expect("card!(&str)", &card!(s.as_str()), &want)?;
    expect("card!(String)", &card!(s.clone()), &want)?;
    let boxed: Box<str> = s.as_str().into();
    expect("parse of a boxed string", &boxed.parse(), &want)?;
    // Inside a longer buffer, so that nothing beyond the slice may be read.
    let buf = format!("As{s}Kd");
    expect("parse of a part of a buffer", &buf[2..2 + s.len()].parse(), &want)?;
    Ok(Some(match want {
        Ok(_) => "a card",
        Err(ParseCardError::InvalidLength { .. }) => "wrong length",
        Err(ParseCardError::InvalidRank { .. }) => "bad rank",
        Err(ParseCardError::InvalidSuit { .. }) => "bad suit",
    }))
}

fn long_string(t: &LongText) -> Outcome { string(&t.text()).map_err(short) }

fn two_chars(p: &(char, char)) -> Outcome {
    let (a, b) = *p;
    let both: String = [a, b].iter().collect();
    let got = Card::try_from_chars(a, b);
    let ok = match (rank_of(a), suit_of(b), &got) {
        (Some(r), Some(t), Ok(c)) => c.rank() == RANKS[r] && c.suit() == SUITS[t] && *c == Card::new(RANKS[r], SUITS[t]),
        (None, _, Err(ParseCardError::InvalidRank { original_input, incorrect_char })) => {
            *incorrect_char == a && (*original_input == both || *original_input == a.to_string())
        }
        (Some(_), None, Err(ParseCardError::InvalidSuit { original_input, incorrect_char })) => {
            *incorrect_char == b && (*original_input == both || *original_input == b.to_string())
        }
        _ => false,
    };
    if !ok {
        return Err(format!("try_from_chars({a:?}, {b:?}) gives {got:?}"));
    }
    one_char(&a)?;
    one_char(&b)?;
    string(&both)?;
    Ok(Some(match (rank_of(a), suit_of(b)) {
        (Some(_), Some(_)) => "a card",
        (None, _) => "bad rank",
        _ => "bad suit",
    }))
}

fn one_char(c: &char) -> Outcome {
    let r = Rank::try_from(*c);
    if r != rank_of(*c).map(|i| RANKS[i]).ok_or(*c) {
        return Err(format!("Rank::try_from({c:?}) gives {r:?}"));
    }
    let r: Result<Rank, char> = (*c).try_into();
    if r != rank_of(*c).map(|i| RANKS[i]).ok_or(*c) {
        return Err(format!("{c:?} into a rank gives {r:?}"));
    }
    let s = Suit::try_from(*c);
    if s != suit_of(*c).map(|i| SUITS[i]).ok_or(*c) {
        return Err(format!("Suit::try_from({c:?}) gives {s:?}"));
    }
    let s: Result<Suit, char> = (*c).try_into();
    if s != suit_of(*c).map(|i| SUITS[i]).ok_or(*c) {
        return Err(format!("{c:?} into a suit gives {s:?}"));
    }
    Ok(Some("character"))
}

/// Strings close to a card name.
fn near_name() -> impl Strategy<Value = String> {
    let alphabet: Vec<char> = "23456789TJQKAchsdCHSDtjqka10xX ♠♥♣♦♤♡♧♢\t\n\0\u{feff}\u{200b}\u{200d}\u{301}\u{ff21}\u{ff54}ＡａАТКѕсһԁ🂡"
        .chars()
        .collect();
    let ch = move || prop_oneof![4 => proptest::sample::select(alphabet.clone()), 1 => any::<char>()];
    (0usize..52, proptest::collection::vec((0u8..4, any::<u8>(), ch()), 0..4)).prop_map(|(c, edits)| {
        let mut v: Vec<char> = model::name(c as u8).chars().collect();
        for (kind, at, x) in edits {
            let at = at as usize;
            match kind {
                0 => v.insert(at % (v.len() + 1), x),
                1 if !v.is_empty() => {
                    let i = at % v.len();
                    v[i] = x
                }
                2 if !v.is_empty() => {
                    v.remove(at % v.len());
                }
                3 if v.len() > 1 => {
                    let i = at % v.len();
                    v.swap(0, i)
                }
                _ => {}
            }
        }
        v.into_iter().collect()
    })
}

pub fn c09(ctx: &Ctx) {
    let tops = char::MAX as u64 + 1;
    const STEP: u64 = 4096;
    ctx.exhaustive(
        "every-character",
        true,
        tops / STEP + 1,
        |chunk, acc| {
            let mut s = String::new();
            for n in chunk * STEP..((chunk + 1) * STEP).min(tops) {
                let Some(c) = char::from_u32(n as u32) else { continue };
                if let Err(m) = guard(|| one_char(&c)) {
                    return acc.fail(c.to_string(), m);
                }
                let x = mix(n ^ ctx.seed);
                let (r0, s0) = (RC.as_bytes()[x as usize % 13] as char, SC.as_bytes()[(x >> 8) as usize % 4] as char);
                let mut count = 0;
                let mut bad = None;
                let mut one = |parts: &[char]| {
                    s.clear();
                    s.extend(parts);
                    count += 1;
                    if bad.is_none() && !guard(|| if parse_fast(&s) { Ok(None) } else { Err(String::new()) }).is_ok() {
                        bad = Some(s.clone());
                    }
                };
                for t in SC.chars() {
                    one(&[c, t]);
                }
                for r in RC.chars() {
                    one(&[r, c]);
                }
                one(&[c]);
                one(&[c, c]);
                one(&[c, r0, s0]);
                one(&[r0, c, s0]);
                one(&[r0, s0, c]);
                if let Some(b) = bad {
                    let m = guard(|| string(&b)).err().unwrap_or_default();
                    return acc.fail(b, m);
                }
                acc.ok("string with the character", count);
                if n % 60_000 == 77 {
                    acc.sample([r0, c].iter().collect());
                }
            }
        },
        char_string,
        no_shrink,
    );
    ctx.exhaustive(
        "ascii-up-to-three",
        true,
        128,
        |chunk, acc| {
            let mut s = String::new();
            let a = chunk as u8 as char;
            for b in 0..=128u8 {
                for c in 0..=128u8 {
                    if b == 128 && c != 128 {
                        continue;
                    }
                    s.clear();
                    s.push(a);
                    if b < 128 {
                        s.push(b as char);
                    }
                    if c < 128 {
                        s.push(c as char);
                    }
                    if guard(|| if parse_fast(&s) { Ok(None) } else { Err(String::new()) }).is_err() {
                        let m = guard(|| string(&s)).err().unwrap_or_default();
                        return acc.fail(s.clone(), m);
                    }
                    acc.ok("ascii string", 1);
                }
            }
            acc.sample(s);
        },
        string,
        no_shrink,
    );
    // All strings up to length five over a few telling characters.
    let few: Vec<char> = "A2T9csdh 1".chars().collect();
    ctx.exhaustive(
        "few-characters-up-to-five",
        true,
        10,
        |chunk, acc| {
            for len in 0..=5u32 {
                for n in 0..10u64.pow(len) {
                    if n % 10 != chunk && !(len == 0 && chunk == 0) {
                        continue;
                    }
                    let mut x = n;
                    let s: String = (0..len)
                        .map(|_| {
                            let c = few[(x % 10) as usize];
                            x /= 10;
                            c
                        })
                        .collect();
                    match guard(|| string(&s)) {
                        Ok(t) => acc.ok(t.unwrap(), 1),
                        Err(m) => return acc.fail(s, m),
                    }
                    if n == 3 * chunk {
                        acc.sample(s);
                    }
                }
            }
        },
        string,
        no_shrink,
    );
    ctx.random("near-names", ctx.n(400_000, 4_000_000), near_name, string);
    ctx.random("any-text", ctx.n(100_000, 1_000_000), any_text, string);
    ctx.random("long-texts", ctx.n(1_600, 20_000), long_text, long_string);
    ctx.random(
        "character-pairs",
        ctx.n(200_000, 2_000_000),
        || {
            let c = || prop_oneof![any::<char>(), proptest::sample::select("23456789TJQKAchsdtjqkaCHSD10♠♥♣♦".chars().collect::<Vec<_>>())];
            (c(), c())
        },
        two_chars,
    );
    ctx.exhaustive(
        "ascii-character-pairs",
        true,
        256,
        |i, acc| {
            for b in 0..256u32 {
                let p = (char::from_u32(i as u32).unwrap(), char::from_u32(b).unwrap());
                match guard(|| two_chars(&p)) {
                    Ok(t) => acc.ok(t.unwrap(), 1),
                    Err(m) => return acc.fail(p, m),
                }
            }
        },
        two_chars,
        no_shrink,
    );
}
fn char_string(s: &String) -> Outcome {
    for c in s.chars() {
        one_char(&c)?;
    }
    string(s)
}
pub fn c09_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "every-character" => replay(v, char_string),
        "long-texts" => replay(v, long_string),
        "character-pairs" | "ascii-character-pairs" => replay(v, two_chars),
        _ => replay(v, string),
    }
}

// ---------------------------------------------------------------- C10

struct Made {
    rank: Rank,
    suit: Suit,
    forms: Vec<(&'static str, Card)>,
    const_read: (Rank, Suit, i32, char, char, char),
}

macro_rules! one_made {
    ($out:ident, $r:ident, $s:ident) => {{
        const C1: Card = card!($r, $s);
        const C2: Card = card!($r of $s);
        const C3: Card = Card::new(Rank::$r, Suit::$s);
        const A1: [Card; 1] = cards!($r, $s);
        const A2: [Card; 1] = cards!($r of $s);
        const A3: [Card; 3] = cards!($r, $s; Two, Clubs; $r, $s;);
        const A4: [Card; 3] = cards!(Ace of Spades, $r of $s, $r of $s,);
        const R: Rank = C1.rank();
        const S: Suit = C1.suit();
        const U: i32 = C1.unique_integer();
        const CH: (char, char, char) = (R.as_char(), S.as_char(), S.as_pretty_char());
        static ST: Card = card!($r of $s);
        let run = cards!($r of $s, Two of Hearts, $r of $s);
        $out.push(Made {
            rank: Rank::$r,
            suit: Suit::$s,
            forms: vec![
                ("const card!(R, S)", C1),
                ("const card!(R of S)", C2),
                ("const Card::new", C3),
                ("static card!(R of S)", ST),
                ("card!(R, S)", card!($r, $s)),
                ("card!(R of S)", card!($r of $s)),
                ("Card::new", Card::new(std::hint::black_box(Rank::$r), std::hint::black_box(Suit::$s))),
                ("const cards!(R, S)", A1[0]),
                ("const cards!(R of S)", A2[0]),
                ("const cards!(R, S; ...) first", A3[0]),
                ("const cards!(R, S; ...) last", A3[2]),
                ("const cards!(R of S, ...) middle", A4[1]),
                ("const cards!(R of S, ...) last", A4[2]),
                ("cards!(R of S, ...) first", run[0]),
                ("cards!(R of S, ...) last", run[2]),
            ],
            const_read: (R, S, U, CH.0, CH.1, CH.2),
        });
        assert_eq!(A3.len(), 3);
    }};
}
macro_rules! all_made {
    ($out:ident: $($r:ident)*) => { $(
        one_made!($out, $r, Clubs);
        one_made!($out, $r, Diamonds);
        one_made!($out, $r, Hearts);
        one_made!($out, $r, Spades);
    )* };
}
fn all_made() -> Vec<Made> {
    let mut out = vec![];
    all_made!(out: Two Three Four Five Six Seven Eight Nine Ten Jack Queen King Ace);
    assert_eq!(out.len(), 52);
    out
}

const PRIME: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
const FLAG: [i32; 4] = [8, 4, 2, 1];
const SYMBOL: [char; 4] = ['♣', '♦', '♥', '♠'];

fn reads(how: &str, x: Card, c: C) -> Result<(), String> {
    let (r, s) = (model::rank(c) as usize, model::suit(c) as usize);
    let name = model::name(c);
    if rank_no(x.rank()) != r || suit_no(x.suit()) != s {
        return Err(format!("{how} of {name} has rank {:?} and suit {:?}", x.rank(), x.suit()));
    }
    let enc = 1 << (16 + r) | FLAG[s] << 12 | (r as i32) << 8 | PRIME[r];
    if x.unique_integer() != enc {
        return Err(format!("{how} of {name} is encoded as {:#034b}, expected {enc:#034b}", x.unique_integer()));
    }
    if x.rank_suit_string() != name {
        return Err(format!("{how} of {name} has the text {:?}", x.rank_suit_string()));
    }
    let rc = RC.as_bytes()[r] as char;
    if x.rank().as_char() != rc || x.suit().as_char() != SC.as_bytes()[s] as char || x.suit().as_pretty_char() != SYMBOL[s] {
        return Err(format!("{how} of {name} has the characters {} {} {}", x.rank().as_char(), x.suit().as_char(), x.suit().as_pretty_char()));
    }
    let disp = format!("[ {rc}{} ]", SYMBOL[s]);
    if x.to_string() != disp || format!("{x}") != disp || format!("{}{}", x.rank(), x.suit()) != format!("{rc}{}", SYMBOL[s]) {
        return Err(format!("{how} of {name} displays as {:?}, expected {disp:?}", x.to_string()));
    }
    crate::glue::written(&x, &disp).and_then(|_| crate::glue::written(&x.rank(), &rc.to_string())).and_then(|_| crate::glue::written(&x.suit(), &SYMBOL[s].to_string())).map_err(|m| format!("{how} of {name} {m}"))?;
    Ok(())
}

fn made(h: &Hand) -> Outcome {
    let c = h.0[0];
    let all = all_made();
    made_one(&all, c)
}

fn made_one(all: &[Made], c: C) -> Outcome {
    let (r, s) = (model::rank(c) as usize, model::suit(c) as usize);
    let m = &all[c as usize];
    if m.rank != RANKS[r] || m.suit != SUITS[s] {
        return Err("the list of macros is out of order".into());
    }
    let name = model::name(c);
    let (a, b) = (name.chars().next().unwrap(), name.chars().nth(1).unwrap());
    let mut forms = m.forms.clone();
    let fail = |e: ParseCardError| format!("{e:?}");
    forms.push(("try_from_chars", Card::try_from_chars(a, b).map_err(fail)?));
    forms.push(("parse", name.parse().map_err(fail)?));
    forms.push(("card!(&str)", card!(name.as_str()).map_err(fail)?));
    forms.push(("cards! of two strings", cards!(name.as_str(), name.as_str()).try_collect::<Vec<_>>().map_err(fail)?[1]));
    forms.push(("cards! of a joined string", cards!(name.as_str()).try_collect::<Vec<_>>().map_err(fail)?[0]));
    forms.push(("parse_to_iter", Card::parse_to_iter([&name]).next().unwrap().map_err(fail)?));
    forms.push((
        "rank and suit from characters",
        Card::new(Rank::try_from(a).map_err(|c| format!("{c:?} is no rank"))?, Suit::try_from(b).map_err(|c| format!("{c:?} is no suit"))?),
    ));
    let x = forms[0].1;
    forms.push(("own rank and suit", Card::new(x.rank(), x.suit())));
    forms.push(("own text", x.rank_suit_string().parse().map_err(fail)?));
    let copy = x;
    forms.push(("copy", copy));
    #[allow(clippy::clone_on_copy)]
    forms.push(("clone", x.clone()));
    for (how, y) in &forms {
        reads(how, *y, c)?;
        if *y != x || !(*y == x) || hash(y) != hash(&x) {
            return Err(format!("{how} and {} of {name} are not equal", forms[0].0));
        }
    }
    let want = (RANKS[r], SUITS[s], x.unique_integer(), a, b, SYMBOL[s]);
    if m.const_read != want {
        return Err(format!("read in a constant: {:?}, expected {want:?}", m.const_read));
    }
    Ok(Some("card through every form"))
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn equal_pair(p: &(Hand, Hand)) -> Outcome {
    let (a, b) = (p.0 .0[0], p.1 .0[0]);
    let (x, y) = (card(a), card(b));
    let y2: Card = model::name(b).parse().map_err(|e| format!("{e:?}"))?;
    for y in [y, y2] {
        if (x == y) != (a == b) || (x != y) == (a == b) {
            return Err(format!("{x} == {y} is {}", x == y));
        }
        if (hash(&x) == hash(&y)) != (a == b) {
            return Err(format!("{x} and {y} hash {}", if a == b { "differently" } else { "equally" }));
        }
        if (x.unique_integer() == y.unique_integer()) != (a == b) || (x.to_string() == y.to_string()) != (a == b) {
            return Err(format!("{x} and {y} share an encoding or a text"));
        }
    }
    let set: HashSet<Card> = [x, y, y2].into_iter().collect();
    if set.len() != if a == b { 1 } else { 2 } {
        return Err(format!("a set of {x} and {y} has {} elements", set.len()));
    }
    Ok(Some(if a == b { "same card" } else { "different cards" }))
}

fn card(c: C) -> Card { crate::glue::card(c) }

/// Sequences of ways to make and read cards give what each gives alone.
fn mixed_forms(v: &Vec<(u8, u8)>) -> Outcome {
    let mut made: Vec<(Card, C)> = vec![];
    for &(c, how) in v {
        let c = c % 52;
        let name = model::name(c);
        let mut ch = name.chars();
        let (a, b) = (ch.next().unwrap(), ch.next().unwrap());
        let x = match how % 6 {
            0 => card(c),
            1 => name.parse().map_err(|e| format!("{e}"))?,
            2 => Card::try_from_chars(a, b).map_err(|e| format!("{e}"))?,
            3 => cards!(&name).next().ok_or("no card")?.map_err(|e| format!("{e}"))?,
            4 => match made.last() {
                // Ranks and suits of different cards combined.
                Some(&(y, d)) => {
                    let z = Card::new(y.rank(), SUITS[model::suit(c) as usize]);
                    made.push((z, model::mk(model::rank(d), model::suit(c))));
                    continue;
                }
                None => card(c),
            },
            _ => poker::deck::generate().find(|x| x.rank_suit_string() == name).ok_or("not in the deck")?,
        };
        made.push((x, c));
    }
    for (x, c) in &made {
        reads("a card", *x, *c)?;
    }
    let set: HashSet<Card> = made.iter().map(|m| m.0).collect();
    let want: HashSet<C> = made.iter().map(|m| m.1).collect();
    if set.len() != want.len() {
        return Err(format!("a hash set keeps {} of {} different cards", set.len(), want.len()));
    }
    Ok((made.len() > 1).then_some("sequence"))
}

pub fn c10(ctx: &Ctx) {
    let all = all_made();
    ctx.exhaustive(
        "every-card-every-form",
        true,
        52,
        |i, acc| {
            let h = Hand(vec![i as u8]);
            match guard(|| made_one(&all, i as u8)) {
                Ok(t) => acc.ok(t.unwrap(), all[i as usize].forms.len() as u64 + 11),
                Err(m) => return acc.fail(h, m),
            }
            acc.sample(h);
        },
        made,
        no_shrink,
    );
    ctx.exhaustive(
        "every-pair",
        true,
        52 * 52,
        |i, acc| {
            let p = (Hand(vec![(i / 52) as u8]), Hand(vec![(i % 52) as u8]));
            match guard(|| equal_pair(&p)) {
                Ok(t) => acc.ok(t.unwrap(), 1),
                Err(m) => return acc.fail(p, m),
            }
            acc.sample(p);
        },
        equal_pair,
        no_shrink,
    );
    ctx.random("mixed-forms", ctx.n(20_000, 200_000), || proptest::collection::vec((0u8..52, 0u8..6), 1..30), mixed_forms);
}
pub fn c10_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "every-pair" => replay(v, equal_pair),
        "mixed-forms" => replay(v, mixed_forms),
        _ => replay(v, made),
    }
}

// ---------------------------------------------------------------- C11

/// A source that counts how often it is asked and may give any honest size hint.
#[derive(Clone)]
struct Source {
    items: Rc<Vec<String>>,
    at: usize,
    pulled: Rc<Cell<usize>>,
    slack: Option<usize>,
    low: usize,
}
impl Iterator for Source {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        let i = self.items.get(self.at)?;
        self.at += 1;
        self.pulled.set(self.pulled.get() + 1);
        Some(i.clone())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len() - self.at;
        (left.saturating_sub(self.low), self.slack.map(|s| left + s))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Drive {
    Next,
    Nth(u8),
    Hint,
    Take(u8),
    SkipWhileBad,
    Find(u8),
    Position(u8),
    TryForEachUpTo(u8),
    StepBy(u8, u8),
    Peek,
    ZipWith(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Finish {
    Drop,
    Collect,
    Fold,
    ForEach,
    Count,
    Last,
    TryCollectVec,
    TryCollectBox,
    TryCollectDeque,
    TryCollectSet,
    Partition,
    Chain,
    Enumerate,
    Reduce,
    CollectResult,
    All,
    Extend,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
    items: Vec<String>,
    slack: Option<usize>,
    low: usize,
    steps: Vec<Drive>,
    end: Finish,
}

fn program(p: &Program) -> Outcome {
    let items: Vec<String> = p.items.clone();
    let want: Vec<P> = items.iter().map(|s| s.parse()).collect();
    let pulled = Rc::new(Cell::new(0));
    let src = Source { items: Rc::new(items.clone()), at: 0, pulled: pulled.clone(), slack: p.slack, low: p.low };
    let mut it = Card::parse_to_iter(src);
    let n = want.len();
    let mut at = 0usize;
    let check = |what: &str, got: &Option<P>, i: usize| -> Result<(), String> {
        let ok = match (got, want.get(i)) {
            (None, None) => true,
            (Some(a), Some(b)) => same(a, b),
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("{what} gives {got:?} for element {i} of {n}, expected {:?}", want.get(i)))
        }
    };
    let seq = |what: &str, got: &[P], from: usize, to: usize| -> Result<(), String> {
        if got.len() != to - from {
            return Err(format!("{what} gives {} results for elements {from} to {to} of {n}", got.len()));
        }
        for (k, g) in got.iter().enumerate() {
            check(what, &Some(g.clone()), from + k)?;
        }
        Ok(())
    };
    if pulled.get() != 0 {
        return Err(format!("{} strings taken before the first result was asked for", pulled.get()));
    }
    for (k, s) in p.steps.iter().enumerate() {
        match s {
            Drive::Next => {
                check("next", &it.next(), at)?;
                at = (at + 1).min(n);
            }
            Drive::Nth(j) => {
                let j = *j as usize % 5;
                check("nth", &it.nth(j), at + j)?;
                at = (at + j + 1).min(n);
            }
            Drive::Hint => {}
            Drive::Take(j) => {
                let j = *j as usize % 6;
                let got: Vec<P> = it.by_ref().take(j).collect();
                let to = (at + j).min(n);
                seq("take", &got, at, to)?;
                at = to;
            }
            Drive::SkipWhileBad => {
                let g = it.by_ref().find(|r| r.is_ok());
                while at < n && want[at].is_err() {
                    at += 1;
                }
                check("find of a good one", &g, at)?;
                at = (at + 1).min(n);
            }
            Drive::Find(j) => {
                let mut seen = 0;
                let j = *j as usize % 4;
                let g = it.by_ref().find(|_| {
                    seen += 1;
                    seen > j
                });
                check("find", &g, at + j)?;
                at = (at + j + 1).min(n);
            }
            Drive::Position(j) => {
                let mut seen = 0;
                let j = *j as usize % 4;
                let g = it.by_ref().position(|_| {
                    seen += 1;
                    seen > j
                });
                if g != (at + j < n).then_some(j) {
                    return Err(format!("position gives {g:?}"));
                }
                at = (at + j + 1).min(n);
            }
            Drive::TryForEachUpTo(j) => {
                let j = *j as usize % 4;
                let mut got = vec![];
                let _ = it.by_ref().try_for_each(|r| {
                    got.push(r);
                    if got.len() > j {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
                let to = (at + j + 1).min(n);
                seq("try_for_each", &got, at, to)?;
                at = to;
            }
            Drive::StepBy(j, t) => {
                let (j, t) = (1 + *j as usize % 3, *t as usize % 3);
                let got: Vec<P> = it.by_ref().step_by(j).take(t).collect();
                // step_by takes one first, then j each time.
                let mut pos = at;
                for (q, g) in got.iter().enumerate() {
                    check("step_by", &Some(g.clone()), at + q * j)?;
                    pos = at + q * j + 1;
                }
                let expect = (0..t).take_while(|q| at + q * j < n).count();
                if got.len() != expect {
                    return Err(format!("step_by gives {} results, expected {expect}", got.len()));
                }
                at = if expect < t { n } else { pos };
            }
            Drive::Peek => {
                let mut pk = it.by_ref().peekable();
                let a = pk.peek().cloned();
                let b = pk.next();
                check("peek", &a, at)?;
                check("next after peek", &b, at)?;
                at = (at + 1).min(n);
            }
            Drive::ZipWith(j) => {
                let j = *j as usize % 4;
                let got: Vec<P> = (0..j).zip(it.by_ref()).map(|x| x.1).collect();
                let to = (at + j).min(n);
                seq("zip", &got, at, to)?;
                at = to;
            }
        }
        if pulled.get() != at {
            return Err(format!("after step {k} ({s:?}) {} strings were taken for {at} results", pulled.get()));
        }
        let (lo, hi) = it.size_hint();
        if lo > n - at || hi.map_or(false, |h| h < n - at) {
            return Err(format!("after step {k} the size hint is ({lo}, {hi:?}), but {} are left", n - at));
        }
    }
    let rest = &want[at..];
    let first_bad = rest.iter().find(|r| r.is_err()).map(|r| r.clone().unwrap_err());
    let good: Vec<Card> = rest.iter().filter_map(|r| r.clone().ok()).collect();
    let all_or_first = |got: Result<Vec<Card>, ParseCardError>| -> Result<(), String> {
        let w = match &first_bad {
            Some(e) => Err(e.clone()),
            None => Ok(good.clone()),
        };
        if got == w {
            Ok(())
        } else {
            Err(format!("try_collect gives {got:?}, expected {w:?}"))
        }
    };
    match &p.end {
        Finish::Drop => drop(it),
        Finish::Collect => seq("collect", &it.collect::<Vec<_>>(), at, n)?,
        Finish::Fold => seq(
            "fold",
            &it.fold(vec![], |mut v, r| {
                v.push(r);
                v
            }),
            at,
            n,
        )?,
        Finish::ForEach => {
            let mut v = vec![];
            it.for_each(|r| v.push(r));
            seq("for_each", &v, at, n)?;
        }
        Finish::Count => {
            let c = it.count();
            if c != n - at {
                return Err(format!("count gives {c}, {} are left", n - at));
            }
        }
        Finish::Last => {
            let l = it.last();
            if at == n {
                if l.is_some() {
                    return Err(format!("last gives {l:?} of nothing"));
                }
            } else {
                check("last", &l, n - 1)?;
            }
        }
        Finish::TryCollectVec => all_or_first(it.try_collect::<Vec<Card>>())?,
        Finish::TryCollectBox => all_or_first(it.try_collect::<Box<[Card]>>().map(|b| b.into_vec()))?,
        Finish::TryCollectDeque => all_or_first(it.try_collect::<VecDeque<Card>>().map(|b| b.into_iter().collect()))?,
        Finish::TryCollectSet => {
            let got = it.try_collect::<HashSet<Card>>();
            let w = match first_bad {
                Some(e) => Err(e),
                None => Ok(good.into_iter().collect::<HashSet<_>>()),
            };
            if got != w {
                return Err(format!("try_collect to a set gives {got:?}, expected {w:?}"));
            }
        }
        Finish::Partition => {
            let (a, b): (Vec<P>, Vec<P>) = it.partition(|r| r.is_ok());
            let (wa, wb): (Vec<P>, Vec<P>) = rest.iter().cloned().partition(|r| r.is_ok());
            if a != wa || b != wb {
                return Err("partition gives something else".into());
            }
        }
        Finish::Chain => {
            let v: Vec<P> = it.chain(Card::parse_to_iter(["As", "x"])).collect();
            if v.len() < 2 {
                return Err("chain lost elements".into());
            }
            seq("chain", &v[..v.len() - 2], at, n)?;
            expect("chained", &v[v.len() - 2], &parsed("As"))?;
            expect("chained", &v[v.len() - 1], &parsed("x"))?;
        }
        Finish::Enumerate => {
            for (i, r) in it.enumerate() {
                check("enumerate", &Some(r), at + i)?;
            }
        }
        Finish::Reduce => {
            let r = it.reduce(|a, b| if b.is_err() { b } else { a });
            let w = rest.iter().cloned().reduce(|a, b| if b.is_err() { b } else { a });
            if r != w {
                return Err(format!("reduce gives {r:?}, expected {w:?}"));
            }
        }
        Finish::CollectResult => all_or_first(it.collect::<Result<Vec<_>, _>>())?,
        Finish::All => {
            let a = it.all(|r| r.is_ok());
            if a != first_bad.is_none() {
                return Err(format!("all gives {a}"));
            }
        }
        Finish::Extend => {
            let mut v: Vec<P> = vec![parsed("Kd")];
            v.extend(it);
            seq("extend", &v[1..], at, n)?;
        }
    }
    Ok(match (n, want.iter().all(|w| w.is_ok())) {
        (0, _) => None,
        (_, true) => Some("all good"),
        (_, false) => Some("with bad strings"),
    })
}

fn an_item() -> impl Strategy<Value = String> {
    prop_oneof![8 => (0u8..52).prop_map(model::name), 2 => near_name(), 1 => "[A-Za-z0-9]{0,3}"]
}

/// Every kind of source gives the same results, and so do the macro forms.
fn sources(items: &Vec<String>) -> Outcome {
    let want: Vec<P> = items.iter().map(|s| s.parse()).collect();
    let refs: Vec<&str> = items.iter().map(|s| s.as_str()).collect();
    let same_all = |how: &str, got: Vec<P>| -> Result<(), String> {
        if got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same(a, b)) {
            Ok(())
        } else {
            Err(format!("{how} gives {got:?}, expected {want:?}"))
        }
    };
    same_all("Vec<String>", Card::parse_to_iter(items.clone()).collect())?;
    same_all("&Vec<String>", Card::parse_to_iter(items).collect())?;
    same_all("Vec<&str>", Card::parse_to_iter(refs.clone()).collect())?;
    same_all("&[&str]", Card::parse_to_iter(&refs[..]).collect())?;
    same_all("VecDeque", Card::parse_to_iter(refs.iter().copied().collect::<VecDeque<_>>()).collect())?;
    same_all("Cow", Card::parse_to_iter(refs.iter().map(|s| Cow::Borrowed(*s))).collect())?;
    same_all("Rc<str>", Card::parse_to_iter(refs.iter().map(|s| Rc::<str>::from(*s))).collect())?;
    same_all("reversed twice", Card::parse_to_iter(refs.iter().rev().copied().collect::<Vec<_>>().into_iter().rev()).collect())?;
    let tc = Card::parse_to_iter(items).try_collect::<Vec<Card>>();
    let w: Result<Vec<Card>, ParseCardError> = want.iter().cloned().collect();
    if tc != w {
        return Err(format!("try_collect gives {tc:?}, expected {w:?}"));
    }
    macro_rules! forms {
        ($($n:literal: $($i:literal)*;)*) => {
            match refs.len() {
                $($n => {
                    same_all("cards! with commas", cards!($(refs[$i]),*).collect())?;
                    same_all("cards! with a trailing comma", cards!($(refs[$i],)*).collect())?;
                    same_all("cards! of Strings", cards!($(items[$i].clone()),*).collect())?;
                    let a: [&str; $n] = [$(refs[$i]),*];
                    same_all("array", Card::parse_to_iter(a).collect())?;
                    same_all("&array", Card::parse_to_iter(&a).collect())?;
                    let tc = cards!($(refs[$i]),*).try_collect::<Vec<Card>>();
                    if tc != w {
                        return Err(format!("try_collect of cards! gives {tc:?}, expected {w:?}"));
                    }
                })*
                _ => {}
            }
        };
    }
    forms!(2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8;);
    if let [one] = &refs[..] {
        same_all("Option", Card::parse_to_iter(Some(*one)).collect())?;
        same_all("once", Card::parse_to_iter(std::iter::once(*one)).collect())?;
    }
    Ok(if items.is_empty() { None } else { Some("through every source") })
}

/// One string with cards separated by white space.
fn joined(s: &String) -> Outcome {
    // Words are maximal runs of characters that are not Unicode white space.
    let mut words: Vec<String> = vec![];
    let mut cur = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_whitespace() {
            if !cur.is_empty() {
                words.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    let want: Vec<P> = words.iter().map(|w| w.parse()).collect();
    let w: Result<Vec<Card>, ParseCardError> = want.iter().cloned().collect();
    let got: Vec<P> = cards!(s.as_str()).collect();
    if got.len() != want.len() || !got.iter().zip(&want).all(|(a, b)| same(a, b)) {
        return Err(format!("cards! gives {got:?}, expected {want:?}"));
    }
    let owned: Vec<P> = cards!(s.clone()).collect();
    if owned != got {
        return Err("cards! of a String differs from that of a &str".into());
    }
    let tc = cards!(s).try_collect::<Vec<Card>>();
    if tc != w {
        return Err(format!("try_collect gives {tc:?}, expected {w:?}"));
    }
    let tb = cards!(s.as_str()).try_collect::<Box<[Card]>>().map(|b| b.into_vec());
    if tb != w {
        return Err(format!("try_collect to a box gives {tb:?}, expected {w:?}"));
    }
    let mut it = cards!(s.as_str());
    for (i, x) in want.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        if lo > want.len() - i || hi.map_or(false, |h| h < want.len() - i) {
            return Err(format!("size hint ({lo}, {hi:?}) with {} left", want.len() - i));
        }
        match it.next() {
            Some(y) if same(&y, x) => {}
            y => return Err(format!("next gives {y:?}, expected {x:?}")),
        }
    }
    if let Some(y) = it.next() {
        return Err(format!("after the end comes {y:?}"));
    }
    Ok(match want.len() {
        0 => None,
        1 => Some("one word"),
        _ if w.is_ok() => Some("all good"),
        _ => Some("with bad words"),
    })
}

fn joins(v: &Vec<Hand>) -> Outcome {
    let s: Vec<Vec<Card>> = v.iter().map(|h| crate::glue::cards(&h.0)).collect();
    let want: Vec<Card> = s.iter().flatten().copied().collect();
    let is = |how: &str, got: &[Card]| -> Result<(), String> {
        if got == &want[..] {
            Ok(())
        } else {
            Err(format!("{how} gives [{}], expected [{}]", model::names(&uncards(got)), model::names(&uncards(&want))))
        }
    };
    let b: Vec<Box<[Card]>> = s.iter().map(|x| x.clone().into_boxed_slice()).collect();
    match s.len() {
        2 => {
            let (x, y) = (&s[0][..], &s[1][..]);
            is("box_cards! of two slices", &box_cards!(x, y))?;
            is("box_cards! of two vectors", &box_cards!(s[0], s[1]))?;
            is("box_cards! of a box and a slice", &box_cards!(b[0], y))?;
            is("box_cards! with a trailing comma", &box_cards!(x, y,))?;
            macro_rules! arr {
                ($($n:literal)*) => { match x.len() { $($n => {
                    let a: [Card; $n] = x.try_into().unwrap();
                    is("box_cards! of an array and a box", &box_cards!(a, b[1]))?;
                    is("box_cards! of &array and slice", &box_cards!(&a, y))?;
                })* _ => {} } };
            }
            arr!(0 1 2 3 4 5);
        }
        3 => {
            is("box_cards! of three", &box_cards!(s[0], s[1], s[2]))?;
            is("nested box_cards!", &box_cards!(box_cards!(s[0], s[1]), b[2]))?;
            is("nested box_cards!", &box_cards!(s[0], box_cards!(b[1], s[2])))?;
        }
        4 => {
            is("box_cards! of four", &box_cards!(s[0], b[1], &s[2][..], s[3]))?;
            is("nested box_cards!", &box_cards!(box_cards!(s[0], s[1]), box_cards!(s[2], s[3])))?;
        }
        5 => is("box_cards! of five", &box_cards!(s[0], s[1], s[2], s[3], s[4]))?,
        6 => is("box_cards! of six", &box_cards!(s[0], s[1], s[2], s[3], s[4], b[5],))?,
        _ => {}
    }
    if s.iter().flatten().count() != want.len() {
        return Err("inputs changed".into());
    }
    Ok(if want.is_empty() { None } else { Some("joined") })
}

/// The arguments of the macros are expressions with effects: each takes the next piece of a list. A macro
/// that evaluates one twice, not at all, or out of order uses up other pieces.
fn effects(c: &(Vec<Hand>, Vec<String>)) -> Outcome {
    let log = std::cell::RefCell::new(vec![]);
    let give = |i: usize| {
        log.borrow_mut().push(i);
        crate::glue::cards(&c.0[i % c.0.len()].0)
    };
    let expected = |n: usize| -> Vec<Card> { (0..n).flat_map(|i| crate::glue::cards(&c.0[i % c.0.len()].0)).collect() };
    let once = |what: &str, n: usize| -> Result<(), String> {
        let l = std::mem::take(&mut *log.borrow_mut());
        if l == (0..n).collect::<Vec<_>>() {
            Ok(())
        } else {
            Err(format!("{what} evaluates its arguments in the order {l:?}"))
        }
    };
    let is = |what: &str, n: usize, got: &[Card]| -> Result<(), String> {
        once(what, n)?;
        let want = expected(n);
        if got == &want[..] {
            Ok(())
        } else {
            Err(format!("{what} gives [{}], expected [{}]", model::names(&uncards(got)), model::names(&uncards(&want))))
        }
    };
    if !c.0.is_empty() {
        is("box_cards! of two", 2, &box_cards!(give(0), give(1)))?;
        is("box_cards! of three", 3, &box_cards!(give(0), give(1), give(2),))?;
        is("box_cards! of six", 6, &box_cards!(give(0), give(1), give(2), give(3), give(4), give(5)))?;
    }
    if !c.1.is_empty() {
        let text = |i: usize| {
            log.borrow_mut().push(i);
            c.1[i % c.1.len()].as_str()
        };
        let alone = |n: usize| -> Vec<P> { (0..n).map(|i| c.1[i % c.1.len()].parse()).collect() };
        let same = |what: &str, n: usize, got: Vec<P>| -> Result<(), String> {
            once(what, n)?;
            if got == alone(n) {
                Ok(())
            } else {
                Err(format!("{what} gives {got:?}, one by one {:?}", alone(n)))
            }
        };
        same("card!", 1, vec![card!(text(0))])?;
        same("cards! of two", 2, cards!(text(0), text(1)).collect())?;
        same("cards! of five", 5, cards!(text(0), text(1), text(2), text(3), text(4),).collect())?;
        let line: Vec<P> = cards!(text(0)).collect();
        once("cards! of one text", 1)?;
        if line != c.1[0].split_whitespace().map(|s| s.parse()).collect::<Vec<P>>() {
            return Err(format!("cards! of one text gives {line:?}"));
        }
    }
    Ok(if c.0.is_empty() && c.1.is_empty() { None } else { Some("arguments with effects") })
}

/// A source that would go on: no more is taken from it than results were asked for.
fn unbounded(c: &(Vec<String>, usize)) -> Outcome {
    if c.0.is_empty() {
        return Ok(None);
    }
    let pulled = Cell::new(0);
    let src = c.0.iter().cycle().take(c.1 + 1000).inspect(|_| pulled.set(pulled.get() + 1));
    let got: Vec<P> = Card::parse_to_iter(src).take(c.1).collect();
    let want: Vec<P> = c.0.iter().cycle().take(c.1).map(|s| s.parse()).collect();
    if got != want {
        return Err(format!("gives {got:?}, expected {want:?}"));
    }
    if pulled.get() != c.1 {
        return Err(format!("{} strings taken from the source for {} results", pulled.get(), c.1));
    }
    Ok(Some("long source"))
}

fn very_many(c: &(Vec<String>, u32)) -> Outcome {
    let n = c.1 as usize;
    let single: Vec<P> = c.0.iter().map(|s| s.parse()).collect();
    let list: Vec<&str> = c.0.iter().cycle().take(n).map(|s| s.as_str()).collect();
    let it = Card::parse_to_iter(&list);
    let (lo, hi) = it.size_hint();
    if lo > n || hi.map_or(false, |h| h < n) {
        return Err(format!("size hint ({lo}, {hi:?}) for {n} strings"));
    }
    let got: Vec<P> = it.collect();
    if got.len() != n {
        return Err(format!("{} results for {n} strings", got.len()));
    }
    if let Some(i) = (0..n).find(|&i| got[i] != single[i % single.len()]) {
        return Err(format!("string {i} of {n} gives {:?}, alone {:?}", got[i], single[i % single.len()]));
    }
    // All good but the last.
    let good = c.0.iter().zip(&single).find(|x| x.1.is_ok()).map(|x| x.0.as_str()).unwrap_or("2c");
    let bad = c.0.iter().zip(&single).find(|x| x.1.is_err()).map(|x| x.0.as_str()).unwrap_or("x");
    let mut line: Vec<&str> = vec![good; n];
    match Card::parse_to_iter(&line).try_collect::<Vec<Card>>() {
        Ok(v) if v.len() == n && v.iter().all(|&c| Ok(c) == good.parse()) => {}
        r => return Err(format!("{n} good strings give {:?}", r.map(|v| v.len()))),
    }
    line.push(bad);
    match Card::parse_to_iter(&line).try_collect::<Vec<Card>>() {
        Err(e) if Err(e.clone()) == bad.parse::<Card>() => {}
        r => return Err(format!("{n} good strings and {bad:?} give {:?}", r.map(|v| v.len()))),
    }
    Ok(Some("very many strings"))
}

/// Far positions in long lists and lines, asked for directly.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    items: Vec<String>,
    n: usize,
    /// Where to, as a part of what is left, and how.
    moves: Vec<(u16, u8)>,
    line: bool,
}
fn far(c: &Far) -> Outcome {
    let items: Vec<&str> = c.items.iter().map(|s| s.as_str()).filter(|s| !c.line || !s.is_empty() && !s.contains(char::is_whitespace)).collect();
    if items.is_empty() {
        return Ok(None);
    }
    let list: Vec<&str> = items.iter().copied().cycle().take(c.n).collect();
    let single: Vec<P> = items.iter().map(|s| s.parse()).collect();
    let r = if c.line {
        let line = list.join(" ");
        moves(cards!(line), c, &single)
    } else if c.n % 2 == 0 {
        moves(Card::parse_to_iter(&list), c, &single)
    } else {
        moves(Card::parse_to_iter(items.iter().cycle().take(c.n)), c, &single)
    };
    r.map_err(short)
}
fn moves(mut it: impl Iterator<Item = P>, c: &Far, single: &[P]) -> Outcome {
    let (n, mut at) = (c.n, 0usize);
    let want = |i: usize| (i < n).then(|| single[i % single.len()].clone());
    for (k, &(part, how)) in c.moves.iter().enumerate() {
        let left = n - at;
        // Also just before, at and beyond the end.
        let by = match part {
            0..=2 => left + part as usize,
            p => (left as u64 * p as u64 >> 16) as usize,
        };
        let (got, want, then) = match how % 7 {
            0 | 1 => (it.nth(by), want(at + by), at + by + 1),
            2 => (it.by_ref().skip(by).next(), want(at + by), at + by + 1),
            3 => (it.by_ref().take(by).last(), if by == 0 { None } else { want((at + by).min(n).wrapping_sub(1)).filter(|_| left > 0) }, at + by),
            4 => {
                let k = it.by_ref().take(by).count();
                if k != by.min(left) {
                    return Err(format!("move {k}: {k} of {} strings counted", by.min(left)));
                }
                (None, None, at + by)
            }
            5 => {
                let k = it.by_ref().take(by).fold(0usize, |a, r| a + usize::from(r.is_ok()));
                let w = (at..(at + by).min(n)).filter(|i| single[i % single.len()].is_ok()).count();
                if k != w {
                    return Err(format!("{k} good strings of {by} from {at}, not {w}"));
                }
                (None, None, at + by)
            }
            _ => {
                let step = by / 3 + 1;
                let got: Vec<P> = it.by_ref().step_by(step).take(3).collect();
                let w: Vec<P> = (0..3).filter_map(|i| want(at + i * step)).collect();
                if got != w {
                    return Err(format!("from {at} of {n} in steps of {step}: {got:?}, expected {w:?}"));
                }
                // The steps take the first, then whole steps.
                (None, None, at + 2 * step + 1)
            }
        };
        if got != want {
            return Err(format!("move {k}: from {at} of {n} by {by} ({how}) comes {got:?}, expected {want:?}"));
        }
        at = then.min(n);
        let (lo, hi) = it.size_hint();
        if lo > n - at || hi.is_some_and(|h| h < n - at) {
            return Err(format!("size hint ({lo}, {hi:?}) with {} strings left", n - at));
        }
    }
    let rest = it.count();
    if rest != n - at {
        return Err(format!("{rest} strings after {at} of {n}"));
    }
    Ok(Some("far moves"))
}

/// Long slices joined.
fn long_joins(c: &[usize; 3]) -> Outcome {
    let all = |n: usize, from: usize| -> Vec<Card> { (from..from + n).map(|i| crate::glue::card((i % 52) as C)).collect() };
    let [a, b, d] = [all(c[0], 0), all(c[1], 7), all(c[2], 31)];
    let check = |what: &str, got: &[Card], want: Vec<Card>| match got == &want[..] {
        true => Ok(()),
        false => Err(format!("{what} of {c:?} cards gives {} cards, first different at {:?}", got.len(), got.iter().zip(&want).position(|(x, y)| x != y))),
    };
    check("box_cards! of two", &box_cards!(a, b), [&a[..], &b].concat())?;
    check("box_cards! of three", &box_cards!(&a, b[..], d), [&a[..], &b, &d].concat())?;
    check("nested box_cards!", &box_cards!(box_cards!(d, a), b), [&d[..], &a, &b].concat())?;
    Ok(Some("long slices"))
}

/// A string that parses others when it is asked for its text, or panics.
struct Nosy<'a>(&'a str, &'a [String], &'a Cell<bool>, bool);
impl AsRef<str> for Nosy<'_> {
    fn as_ref(&self) -> &str {
        if self.3 {
            panic!("from the caller's string");
        }
        let got: Vec<P> = Card::parse_to_iter(self.1).collect();
        let want: Vec<P> = self.1.iter().map(|s| s.parse()).collect();
        if got != want {
            self.2.set(true);
        }
        self.0
    }
}

/// Strings that use the library while they are being parsed; the one at `1` panics.
fn nosy(c: &(Vec<String>, Option<u8>)) -> Outcome {
    let n = c.0.len();
    let bad = c.1.map(|b| b as usize % (n + 1));
    let wrong = Cell::new(false);
    let item = |i: usize| Nosy(&c.0[i], &c.0[..i], &wrong, bad == Some(i));
    let single: Vec<P> = c.0.iter().map(|s| s.parse()).collect();
    let mut it = Card::parse_to_iter((0..n).map(item));
    for i in 0..n {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.next()));
        match r {
            Ok(r) if bad != Some(i) => {
                if r.as_ref() != Some(&single[i]) {
                    return Err(format!("string {i} gives {r:?}, alone {:?}", single[i]));
                }
            }
            Ok(r) => return Err(format!("string {i} panics, but gives {r:?}")),
            Err(_) if bad == Some(i) => {}
            Err(_) => return Err(format!("panics at string {i}")),
        }
    }
    if it.next().is_some() {
        return Err("gives a result too many".into());
    }
    if wrong.get() {
        return Err("strings parsed while another is being parsed give other results".into());
    }
    let later: Vec<P> = Card::parse_to_iter(&c.0).collect();
    if later != single {
        return Err("parsed afterwards, the strings give other results".into());
    }
    Ok(if n == 0 { None } else { Some("strings that parse strings") })
}

pub fn c11(ctx: &Ctx) {
    let items = || {
        prop_oneof![
            4 => proptest::collection::vec(an_item(), 0..12),
            3 => proptest::collection::vec((0u8..52).prop_map(model::name), 0..12),
            1 => proptest::collection::vec(an_item(), 0..80),
        ]
    };
    ctx.random(
        "iterator-programs",
        ctx.n(160_000, 1_600_000),
        || {
            let i = any::<u8>;
            let step = prop_oneof![
                6 => Just(Drive::Next),
                2 => i().prop_map(Drive::Nth),
                1 => Just(Drive::Hint),
                2 => i().prop_map(Drive::Take),
                1 => Just(Drive::SkipWhileBad),
                1 => i().prop_map(Drive::Find),
                1 => i().prop_map(Drive::Position),
                1 => i().prop_map(Drive::TryForEachUpTo),
                1 => (i(), i()).prop_map(|(a, b)| Drive::StepBy(a, b)),
                1 => Just(Drive::Peek),
                1 => i().prop_map(Drive::ZipWith),
            ];
            let end = proptest::sample::select(vec![
                Finish::Drop,
                Finish::Collect,
                Finish::Fold,
                Finish::ForEach,
                Finish::Count,
                Finish::Last,
                Finish::TryCollectVec,
                Finish::TryCollectBox,
                Finish::TryCollectDeque,
                Finish::TryCollectSet,
                Finish::Partition,
                Finish::Chain,
                Finish::Enumerate,
                Finish::Reduce,
                Finish::CollectResult,
                Finish::All,
                Finish::Extend,
            ]);
            (
                items(),
                prop_oneof![Just(None), Just(Some(0usize)), (0usize..100).prop_map(Some)],
                prop_oneof![Just(0usize), 0usize..100],
                proptest::collection::vec(step, 0..10),
                end,
            )
                .prop_map(|(items, slack, low, steps, end)| Program { items, slack, low, steps, end })
        },
        program,
    );
    ctx.random("sources-and-forms", ctx.n(40_000, 400_000), items, sources);
    ctx.random(
        "joined-strings",
        ctx.n(160_000, 1_600_000),
        || {
            let sep = proptest::sample::select(vec![
                " ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{200b}", "\u{feff}", ",", "", " \t \n", "\u{1c}", "\u{b}", "\u{c}",
                "\u{2028}", "\u{1680}",
            ]);
            let sep = prop_oneof![3 => Just(" "), 2 => sep];
            prop_oneof![
                5 => (proptest::collection::vec((an_item(), sep.clone()), 0..12), sep).prop_map(|(v, s)| {
                    let mut out = s.to_string();
                    for (i, s) in v {
                        out.push_str(&i);
                        out.push_str(s);
                    }
                    out
                }),
                1 => any_text(),
            ]
        },
        joined,
    );
    ctx.random(
        "joins",
        ctx.n(100_000, 1_000_000),
        || proptest::collection::vec(proptest::collection::vec(a_card(), 0..9).prop_map(Hand), 2..=6),
        joins,
    );
    ctx.random(
        "strings-that-parse",
        ctx.n(10_000, 100_000),
        || (proptest::collection::vec(an_item(), 0..8), prop_oneof![2 => Just(None), 1 => any::<u8>().prop_map(Some)]),
        nosy,
    );
    ctx.random(
        "arguments-once",
        ctx.n(20_000, 200_000),
        || (proptest::collection::vec(proptest::collection::vec(a_card(), 0..4).prop_map(Hand), 0..7), proptest::collection::vec(an_item(), 0..6)),
        effects,
    );
    // Far more strings than the lists above have.
    ctx.random("very-many", ctx.n(100, 1_000), || (proptest::collection::vec(an_item(), 1..80), 0u32..200_000), very_many);
    let long = || (prop_oneof![8 => 1u32..=11, 4 => 12u32..=17], 0usize..9).prop_map(|(k, d)| ((1usize << k) + d).saturating_sub(4));
    ctx.random(
        "far-positions",
        ctx.n(400, 8_000),
        || {
            let part = prop_oneof![1 => 0u16..3, 6 => any::<u16>()];
            (proptest::collection::vec(an_item(), 1..9), long(), proptest::collection::vec((part, any::<u8>()), 1..5), any::<bool>())
                .prop_map(|(items, n, moves, line)| Far { items, n, moves, line })
        },
        far,
    );
    ctx.random("long-joins", ctx.n(100, 2_000), || [long(), long(), long()], long_joins);
    ctx.random("long-sources", ctx.n(40_000, 400_000), || (proptest::collection::vec(an_item(), 1..5), 0usize..20), unbounded);
}
pub fn c11_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "iterator-programs" => replay(v, program),
        "sources-and-forms" => replay(v, sources),
        "joined-strings" => replay(v, joined),
        "long-sources" => replay(v, unbounded),
        "far-positions" => replay(v, far),
        "long-joins" => replay(v, long_joins),
        "strings-that-parse" => replay(v, nosy),
        "arguments-once" => replay(v, effects),
        "very-many" => replay(v, very_many),
        _ => replay(v, joins),
    }
}
