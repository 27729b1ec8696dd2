//! Turns the description of a program into Rust source and the lines it must print.

use serde::{Deserialize, Serialize};

use crate::model::{self, C};

pub const EDITIONS: [&str; 4] = ["2015", "2018", "2021", "2024"];
const NAMES: [&str; 5] = ["poker", "p", "cards_crate", "holdem", "r_poker"];

/// A use of the crate, at a place in a program.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    pub kind: u8,
    pub cards: Vec<C>,
    pub words: Vec<String>,
    /// How the macros are reached.
    pub style: u8,
    pub place: u8,
    /// Other things of the user with the names that the crate uses.
    pub shadow: u8,
    pub form: u8,
    pub extra: u8,
    pub more: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    pub edition: u8,
    /// Under which name the crate is known.
    pub name: u8,
    /// `#[macro_use] extern crate`
    pub all_macros: bool,
    pub items: Vec<Item>,
}

pub const KINDS: u8 = 26;
pub const PLACES: u8 = 13;
pub const STYLES: u8 = 7;
pub const SHADOWS: u8 = 9;

pub fn crate_name(p: &Program) -> &'static str { NAMES[p.name as usize % NAMES.len()] }

const RANKS: [&str; 13] = ["Two", "Three", "Four", "Five", "Six", "Seven", "Eight", "Nine", "Ten", "Jack", "Queen", "King", "Ace"];
const SUITS: [&str; 4] = ["Clubs", "Diamonds", "Hearts", "Spades"];
fn rank(c: C) -> &'static str { RANKS[model::rank(c) as usize] }
fn suit(c: C) -> &'static str { SUITS[model::suit(c) as usize] }

/// A string literal.
fn lit(s: &str) -> String { format!("{s:?}") }

fn names(h: &[C]) -> String { h.iter().map(|&c| model::name(c)).collect::<Vec<_>>().join(" ") }

/// What parsing a word gives, as the programs print it.
fn parsed(w: &str) -> String { model::parse(w).map_or_else(|| "bad".to_string(), model::name) }
/// The cards of words that are all good.
fn all_parsed(ws: &[String]) -> String {
    let cards: Option<Vec<C>> = ws.iter().map(|w| model::parse(w)).collect();
    cards.map_or_else(|| "bad".into(), |c| names(&c))
}

/// What evaluating gives, as the programs print it.
fn evaluated(h: &[C]) -> String {
    if h.len() < 5 {
        return format!("few {}", h.len());
    }
    if (0..h.len()).any(|i| h[..i].contains(&h[i])) {
        return format!("twice {}", names(h));
    }
    model::text(model::brute(h))
}

struct Use<'a> {
    p: String,
    it: &'a Item,
    style: u8,
}

impl Use<'_> {
    fn imports(&self) -> String {
        let p = &self.p;
        match self.style {
            1 => format!("use {p}::card; use {p}::cards; use {p}::box_cards;"),
            2 => format!("use {p}::{{card as one_card, cards as some_cards, box_cards as joined}};"),
            3 => format!("use {p}::*;"),
            6 => format!("use {p} as the_crate;"),
            _ => String::new(),
        }
    }
    /// The way to a macro.
    fn m(&self, name: &str) -> String {
        match self.style {
            1 | 3 | 5 => name.into(),
            2 => match name {
                "card" => "one_card".into(),
                "cards" => "some_cards".into(),
                _ => "joined".into(),
            },
            4 => format!("crate::reexports::{name}"),
            6 => format!("the_crate::{name}"),
            _ => format!("{}::{name}", self.p),
        }
    }
    /// A macro call, with one of the three brackets.
    fn call(&self, name: &str, args: &str) -> String {
        let (a, b) = [("(", ")"), ("[", "]"), ("{ ", " }")][self.it.more as usize % 3];
        format!("{}!{a}{args}{b}", self.m(name))
    }
    fn card(&self, c: C) -> String {
        let sep = if self.it.extra % 2 == 0 { " of " } else { ", " };
        self.call("card", &format!("{}{sep}{}", rank(c), suit(c)))
    }
    fn cards(&self, h: &[C]) -> String {
        let of = self.it.extra % 2 == 0;
        let one = |&c: &C| format!("{}{}{}", rank(c), if of { " of " } else { ", " }, suit(c));
        let mut s = h.iter().map(one).collect::<Vec<_>>().join(if of { ", " } else { "; " });
        if self.it.extra / 2 % 2 == 0 {
            s += if of { "," } else { ";" };
        }
        self.call("cards", &s)
    }
    /// An expression that is an array of cards without any macro.
    fn plain(&self, h: &[C]) -> String {
        let p = &self.p;
        let v: Vec<String> = h.iter().map(|&c| format!("{p}::Card::new({p}::Rank::{}, {p}::Suit::{})", rank(c), suit(c))).collect();
        format!("[{}]", v.join(", "))
    }

    /// A block that gives the text to print, and the text.
    fn body(&self) -> (String, String) {
        let it = self.it;
        let p = &self.p;
        let form = it.form as usize;
        let some: Vec<C> = if it.cards.is_empty() { vec![(it.form % 52) as C] } else { it.cards.clone() };
        let first = some[0];
        let words: Vec<String> = if it.words.is_empty() { vec![model::name(first)] } else { it.words.clone() };
        let show = "fn show(cards: &[CARD]) -> String { cards.iter().map(|c| c.rank_suit_string()).collect::<Vec<String>>().join(\" \") }".replace("CARD", &format!("{p}::Card"));
        let show_all = format!("{show} fn show_all(r: ::std::result::Result<Vec<{p}::Card>, {p}::ParseCardError>) -> String {{ match r {{ Ok(v) => show(&v), Err(_) => \"bad\".to_string() }} }}");
        let judge = format!(
            "{show} fn judge(r: ::std::result::Result<{p}::Eval, {p}::EvalError>) -> String {{ match r {{ \
             Ok(v) => v.class().to_string(), \
             Err({p}::EvalError::InvalidHandSize(n)) => format!(\"few {{}}\", n), \
             Err({p}::EvalError::CardsNotUnique(v)) => format!(\"twice {{}}\", show(&v)) }} }}"
        );
        match it.kind % KINDS {
            // A card by its rank and suit.
            0 => {
                let e = self.card(first);
                let b = match form % 6 {
                    0 => format!("let x = {e}; x.rank_suit_string()"),
                    1 => format!("const X: {p}::Card = {e}; X.rank_suit_string()"),
                    2 => format!("static X: {p}::Card = {e}; X.rank_suit_string()"),
                    3 => format!("const fn make() -> {p}::Card {{ let c = {e}; c }} const X: {p}::Card = make(); X.rank_suit_string()"),
                    4 => format!("trait Has {{ const X: {p}::Card; }} struct It; impl Has for It {{ const X: {p}::Card = {e}; }} It::X.rank_suit_string()"),
                    _ => format!("let xs = [{e}; 3]; assert_eq!(xs[0], xs[2]); xs[1].rank_suit_string()"),
                };
                (b, model::name(first))
            }
            // Constants made of constants.
            1 => {
                let e = self.card(first);
                let b = format!(
                    "const X: {p}::Card = {e}; const R: {p}::Rank = X.rank(); const S: {p}::Suit = X.suit(); const A: char = R.as_char(); \
                     const B: char = S.as_char(); const D: char = S.as_pretty_char(); const N: i32 = X.unique_integer(); \
                     const Y: {p}::Card = {p}::Card::new(R, S); assert_eq!(N, Y.unique_integer()); assert!(X == Y); format!(\"{{}}{{}}{{}}\", A, B, D)"
                );
                (b, format!("{}{}", model::name(first), model::SUIT_SYMBOLS[model::suit(first) as usize]))
            }
            // A card from a text.
            2 => {
                let w = &words[0];
                let l = lit(w);
                let padded = lit(&format!("x{w}x"));
                let (before, e) = match form % 13 {
                    0 => (String::new(), l),
                    1 => (format!("let s = String::from({l});"), "s".into()),
                    2 => (format!("let s = String::from({l});"), "&s".into()),
                    3 => (String::new(), format!("format!(\"{{}}\", {l})")),
                    4 => (String::new(), format!("{{ let card = {l}; card }}")),
                    5 => (format!("let s = {padded};"), format!("&s[1..1 + {}]", w.len())),
                    6 => (format!("let s = {padded};"), format!("s[1..1 + {}]", w.len())),
                    7 => (format!("const S: &'static str = {l};"), "S".into()),
                    8 => (format!("let s = ::std::borrow::Cow::Borrowed({l});"), "s".into()),
                    9 => (format!("let s: Box<str> = {l}.into();"), "s".into()),
                    10 => (format!("let v = vec![{l}];"), "v[0]".into()),
                    11 => (format!("let card = {l}; let r = &card;"), "*r".into()),
                    _ => (format!("let s: ::std::sync::Arc<str> = {l}.into();"), "if s.len() < 1000 { &*s } else { \"\" }".into()),
                };
                let c = self.call("card", &e);
                (format!("{before} let r: ::std::result::Result<{p}::Card, {p}::ParseCardError> = {c}; match r {{ Ok(c) => c.rank_suit_string(), Err(_) => \"bad\".to_string() }}"), parsed(w))
            }
            // Cards by rank and suit.
            3 => {
                let e = self.cards(&some);
                let n = some.len();
                let b = match form % 5 {
                    0 => format!("{show} let x = {e}; show(&x)"),
                    1 => format!("{show} let x: [{p}::Card; {n}] = {e}; show(&x[..])"),
                    2 => format!("{show} const X: [{p}::Card; {n}] = {e}; show(&X)"),
                    3 => format!("{show} static X: [{p}::Card; {n}] = {e}; show(&X)"),
                    _ => format!("{show} const X: &'static [{p}::Card] = &{e}; let v = X.to_vec(); show(&v)"),
                };
                (b, names(&some))
            }
            // Cards from some texts.
            4 => {
                let mut ws = words.clone();
                if ws.len() == 1 {
                    ws.push(ws[0].clone());
                }
                let (before, parts): (String, Vec<String>) = match form % 4 {
                    0 => (String::new(), ws.iter().map(|w| lit(w)).collect()),
                    1 => (String::new(), ws.iter().map(|w| format!("String::from({})", lit(w))).collect()),
                    2 => (
                        ws.iter().enumerate().map(|(i, w)| format!("let s{i} = {}.to_string();", lit(w))).collect(),
                        (0..ws.len()).map(|i| format!("&s{i}")).collect(),
                    ),
                    _ => (
                        format!("let card = [{}];", ws.iter().map(|w| lit(w)).collect::<Vec<_>>().join(", ")),
                        (0..ws.len()).map(|i| format!("card[{i}]")).collect(),
                    ),
                };
                let e = self.call("cards", &(parts.join(", ") + if it.extra % 2 == 0 { "," } else { "" }));
                let (b, w) = match it.extra / 2 % 3 {
                    0 => (format!("{show_all} {before} show_all({e}.try_collect())"), all_parsed(&ws)),
                    1 => (format!("{show_all} {before} show_all({e}.try_collect::<Box<[{p}::Card]>>().map(|b| b.into_vec()))"), all_parsed(&ws)),
                    _ => (
                        format!("{before} let mut out = vec![]; for r in {e} {{ out.push(match r {{ Ok(c) => c.rank_suit_string(), Err(_) => \"bad\".to_string() }}); }} out.join(\" \")"),
                        ws.iter().map(|w| parsed(w)).collect::<Vec<_>>().join(" "),
                    ),
                };
                (b, w)
            }
            // Cards from one text.
            5 => {
                let text = it.words.join(if it.extra % 2 == 0 { " " } else { " \t " });
                let l = lit(&text);
                let ws: Vec<String> = text.split_whitespace().map(String::from).collect();
                let (before, e) = match form % 7 {
                    0 => (String::new(), l),
                    1 => (format!("let s = {l};"), "s".into()),
                    2 => (format!("let s = {l}.to_string();"), "s".into()),
                    3 => (format!("let s = {l}.to_string();"), "&s".into()),
                    4 => (format!("const S: &'static str = {l};"), "S".into()),
                    5 => (format!("let s: ::std::rc::Rc<str> = {l}.into();"), "s".into()),
                    _ => (String::new(), format!("format!(\"{{}} \", {l})")),
                };
                let e = self.call("cards", &e);
                let b = match it.extra / 2 % 4 {
                    0 => format!("{show_all} {before} show_all({e}.try_collect())"),
                    1 => format!("{show_all} {before} show_all({e}.collect())"),
                    2 => format!("{show_all} {before} show_all({e}.try_collect::<::std::collections::VecDeque<_>>().map(|d| d.into_iter().collect()))"),
                    _ => format!("{show_all} fn all<I: Iterator<Item = ::std::result::Result<{p}::Card, {p}::ParseCardError>>>(i: I) -> ::std::result::Result<Vec<{p}::Card>, {p}::ParseCardError> {{ i.collect() }} {before} show_all(all({e}))"),
                };
                (b, all_parsed(&ws))
            }
            // Joined cards.
            6 => {
                let parts: Vec<&[C]> = (0..2 + it.extra as usize % 3).map(|i| { let k = (i + form) % some.len(); &some[k..(k + 3).min(some.len())] }).collect();
                let mut before = String::new();
                let mut args = vec![];
                for (i, h) in parts.iter().enumerate() {
                    let a = self.plain(h);
                    let (b, e) = match (form / 2 + i * 3) % 9 {
                        0 => (format!("let h{i} = {a};"), format!("h{i}")),
                        1 => (format!("let h{i} = vec!{a};"), format!("h{i}")),
                        2 => (format!("let h{i} = vec!{a};"), format!("&h{i}")),
                        3 => (format!("let h{i}: Box<[{p}::Card]> = vec!{a}.into_boxed_slice();"), format!("h{i}")),
                        4 => (format!("let t{i} = {a}; let h{i}: &[{p}::Card] = &t{i};"), format!("h{i}")),
                        5 => (format!("let h{i} = vec!{a};"), format!("h{i}[..]")),
                        6 => (format!("let h{i} = vec!{a};"), format!("&h{i}[..{}]", h.len())),
                        7 => (format!("let h{i}: ::std::sync::Arc<[{p}::Card]> = vec!{a}.into();"), format!("h{i}")),
                        _ => (format!("fn f{i}() -> Vec<{p}::Card> {{ vec!{a} }}"), format!("f{i}()")),
                    };
                    before += &b;
                    args.push(e);
                }
                let want = names(&parts.concat());
                let e = self.call("box_cards", &(args.join(", ") + if it.extra / 4 % 2 == 0 { "," } else { "" }));
                (format!("{show} {before} let x: Box<[{p}::Card]> = {e}; show(&x)"), want)
            }
            // Joined cards that are joined.
            7 => {
                let half = some.len() / 2;
                let (a, b) = (self.plain(&some[..half.max(1)]), self.plain(&some[half.max(1).min(some.len() - 1)..]));
                let (x, y) = (&some[..half.max(1)], &some[half.max(1).min(some.len() - 1)..]);
                let inner = self.call("box_cards", "board, hand");
                let e = self.call("box_cards", &format!("hand, {inner}, board"));
                (format!("{show} let hand = {a}; let board = vec!{b}; let both = {e}; show(&both)"), names(&[x, x, x].concat()).split(' ').take(x.len()).collect::<Vec<_>>().join(" ") + " " + &names(&[y, x, y].concat()))
            }
            // Evaluating, whatever holds the cards and whatever the evaluator is held by.
            8 => {
                let a = if it.cards.is_empty() { String::new() } else { self.plain(&it.cards) };
                let v = if it.cards.is_empty() { format!("Vec::<{p}::Card>::new()") } else { format!("vec!{a}") };
                let (before, e) = match form % 10 {
                    0 => (format!("let h: [{p}::Card; {}] = {};", it.cards.len(), if a.is_empty() { "[]".into() } else { a.clone() }), "h"),
                    1 => (format!("let h = {v};"), "h"),
                    2 => (format!("let h = {v};"), "&h"),
                    3 => (format!("let h = {v};"), "&h[..]"),
                    4 => (format!("let h = {v}.into_boxed_slice();"), "h"),
                    5 => (format!("let h: ::std::rc::Rc<[{p}::Card]> = {v}.into();"), "h"),
                    6 => (format!("let h: ::std::sync::Arc<[{p}::Card]> = {v}.into();"), "h"),
                    7 => (format!("let v = {v}; let h: ::std::borrow::Cow<[{p}::Card]> = (&v[..]).into();"), "h"),
                    8 => (format!("struct Hand(Vec<{p}::Card>); impl AsRef<[{p}::Card]> for Hand {{ fn as_ref(&self) -> &[{p}::Card] {{ &self.0 }} }} let h = Hand({v});"), "h"),
                    _ => (format!("let mut h = {v};"), "&mut h"),
                };
                let evaluator = match it.extra % 7 {
                    0 => format!("let e = {p}::Evaluator::new();"),
                    1 => format!("let e: {p}::Evaluator = Default::default();"),
                    2 => format!("let e = {p}::Evaluator::new().clone();"),
                    3 => format!("let e = ::std::sync::Arc::new({p}::Evaluator::new());"),
                    4 => format!("let t = {p}::Evaluator::new(); let e = &t;"),
                    5 => format!("static E: ::std::sync::OnceLock<{p}::Evaluator> = ::std::sync::OnceLock::new(); let e = E.get_or_init({p}::Evaluator::new);"),
                    _ => format!("let e = Box::new({p}::evaluate::Evaluator::new());"),
                };
                (format!("{judge} {evaluator} {before} judge(e.evaluate({e}))"), evaluated(&it.cards))
            }
            // Evaluating in other threads.
            9 => {
                let a = self.plain(&some);
                let b = match form % 3 {
                    0 => format!("let e = ::std::sync::Arc::new({p}::Evaluator::new()); let f = e.clone(); let t = ::std::thread::spawn(move || judge(f.evaluate({a}))); t.join().unwrap()"),
                    1 => format!("let e = {p}::Evaluator::new(); let h = {a}; ::std::thread::scope(|s| s.spawn(|| judge(e.evaluate(&h))).join().unwrap())"),
                    _ => format!("let (tx, rx) = ::std::sync::mpsc::channel(); let e = {p}::Evaluator::new(); ::std::thread::spawn(move || tx.send(e.evaluate({a})).unwrap()); judge(rx.recv().unwrap())"),
                };
                (format!("{judge} {b}"), evaluated(&some))
            }
            // What can be asked of the types.
            10 => {
                let table = [
                    ("Card", "Copy + Clone + PartialEq + Eq + ::std::hash::Hash + PartialOrd + Ord + ::std::fmt::Debug + ::std::fmt::Display + ::std::str::FromStr<Err = CRATE::ParseCardError> + Send + Sync + Unpin + 'static"),
                    ("Rank", "Copy + Clone + PartialEq + Eq + ::std::hash::Hash + PartialOrd + Ord + ::std::fmt::Debug + ::std::fmt::Display + ::std::convert::TryFrom<char> + Send + Sync + 'static"),
                    ("Suit", "Copy + Clone + PartialEq + Eq + ::std::hash::Hash + ::std::fmt::Debug + ::std::fmt::Display + ::std::convert::TryFrom<char> + Send + Sync + 'static"),
                    ("Eval", "Copy + Clone + PartialEq + Eq + ::std::hash::Hash + PartialOrd + Ord + ::std::fmt::Debug + ::std::fmt::Display + Send + Sync + ::std::panic::UnwindSafe + 'static"),
                    ("EvalClass", "Copy + Clone + PartialEq + Eq + PartialOrd + Ord + ::std::fmt::Debug + ::std::fmt::Display + Send + Sync + 'static"),
                    ("Evaluator", "Clone + Default + PartialEq + Eq + ::std::fmt::Debug + Send + Sync + Unpin + ::std::panic::UnwindSafe + ::std::panic::RefUnwindSafe + 'static"),
                    ("ParseCardError", "Clone + PartialEq + Eq + ::std::fmt::Debug + ::std::fmt::Display + ::std::error::Error + Send + Sync + 'static"),
                    ("EvalError", "Clone + PartialEq + Eq + ::std::fmt::Debug + ::std::fmt::Display + ::std::error::Error + Send + Sync + 'static"),
                ];
                let (t, bounds) = table[form % table.len()];
                (format!("fn need<T: {}>() {{}} need::<{p}::{t}>(); \"yes\".to_string()", bounds.replace("CRATE", p)), "yes".into())
            }
            // All classes, with the ranks they carry.
            11 => {
                let h: Vec<C> = some.iter().copied().chain(0..52).fold(vec![], |mut v, c| { if !v.contains(&c) && v.len() < 5.max(some.len()) { v.push(c) } v });
                let code = model::brute(&h);
                let (a, b) = (model::RANK_CHARS[model::deciding(code, 0) as usize], model::RANK_CHARS[model::deciding(code, 1) as usize]);
                let want = match model::category(code) {
                    model::TWO_PAIR => format!("2 {a}{b}"),
                    model::FULL => format!("6 {a}{b}"),
                    k => format!("{k} {a}"),
                };
                let k = format!("{p}::EvalClass");
                (format!(
                    "let class: {k} = {p}::Evaluator::new().evaluate({}).unwrap().class(); match class {{ \
                     {k}::HighCard {{ high_rank }} => format!(\"0 {{}}\", high_rank.as_char()), {k}::Pair {{ pair }} => format!(\"1 {{}}\", pair.as_char()), \
                     {k}::TwoPair {{ first_pair, second_pair }} => format!(\"2 {{}}{{}}\", first_pair.as_char(), second_pair.as_char()), \
                     {k}::ThreeOfAKind {{ trips }} => format!(\"3 {{}}\", trips.as_char()), {k}::Straight {{ high_rank }} => format!(\"4 {{}}\", high_rank.as_char()), \
                     {k}::Flush {{ high_rank }} => format!(\"5 {{}}\", high_rank.as_char()), {k}::FullHouse {{ trips, pair }} => format!(\"6 {{}}{{}}\", trips.as_char(), pair.as_char()), \
                     {k}::FourOfAKind {{ quads }} => format!(\"7 {{}}\", quads.as_char()), {k}::StraightFlush {{ high_rank }} => format!(\"8 {{}}\", high_rank.as_char()) }}",
                    self.plain(&h)), want)
            }
            // Errors passed on.
            12 => {
                let e = self.call("cards", "text");
                let text = words.join(" ");
                let cards: Option<Vec<C>> = words.join(" ").split_whitespace().map(model::parse).collect();
                let want = match cards {
                    None => "parse".to_string(),
                    Some(c) => match evaluated(&c) {
                        t if t.starts_with("few ") || t.starts_with("twice ") => "eval".into(),
                        t => t,
                    },
                };
                let error = if form % 2 == 0 { "Box<dyn AnyError + Send + Sync + 'static>" } else { "Box<dyn AnyError>" };
                (format!(
                    "use ::std::error::Error as AnyError; fn read(text: &str) -> ::std::result::Result<String, {error}> {{ let cards: Vec<_> = {e}.try_collect()?; let e = {p}::Evaluator::new().evaluate(&cards)?; Ok(e.class().to_string()) }} \
                     match read({}) {{ Ok(t) => t, Err(e) => if e.is::<{p}::ParseCardError>() {{ \"parse\".to_string() }} else if e.is::<{p}::EvalError>() {{ \"eval\".to_string() }} else {{ e.to_string() }} }}",
                    lit(&text)), want)
            }
            // Constants of evaluations.
            13 => (
                format!(
                    "const B: {p}::Eval = {p}::Eval::BEST; const W: {p}::Eval = {p}::Eval::WORST; const X: [bool; 6] = [B.is_better_than(W), W.is_worse_than(B), B.is_equal_to(W), B.is_royal_flush(), \
                     B.is_straight_flush(), W.is_high_card()]; const C: {p}::EvalClass = W.class(); assert!(matches!(C, {p}::EvalClass::HighCard {{ high_rank: {p}::Rank::Seven }})); \
                     const Y: [bool; 7] = [B.is_pair(), B.is_two_pair(), B.is_three_of_a_kind(), B.is_straight(), B.is_flush(), B.is_full_house(), B.is_four_of_a_kind()]; \
                     assert!(Y.iter().all(|y| !y)); format!(\"{{:?}}\", X)"
                ),
                "[true, true, false, true, true, true]".into(),
            ),
            // Parse errors, by what they hold.
            14 => {
                let w = &words[0];
                let ch: Vec<char> = w.chars().collect();
                let want = match ch[..] {
                    [r, s] => {
                        if !model::RANK_CHARS.contains(&r) {
                            format!("rank {r} {w}")
                        } else if !model::SUIT_CHARS.contains(&s) {
                            format!("suit {s} {w}")
                        } else {
                            w.clone()
                        }
                    }
                    _ => format!("length {w}"),
                };
                let e = match form % 4 {
                    0 => self.call("card", &lit(w)),
                    1 => format!("{}.parse::<{p}::card::Card>()", lit(w)),
                    2 => format!("<{p}::Card as ::std::str::FromStr>::from_str({})", lit(w)),
                    _ => format!("{p}::Card::parse_to_iter(Some({})).next().unwrap()", lit(w)),
                };
                let k = format!("{p}::error::ParseCardError");
                (format!(
                    "match {e} {{ Ok(c) => c.rank_suit_string(), Err({k}::InvalidLength {{ original_input }}) => format!(\"length {{}}\", original_input), \
                     Err({k}::InvalidRank {{ original_input, incorrect_char }}) => format!(\"rank {{}} {{}}\", incorrect_char, original_input), \
                     Err({k}::InvalidSuit {{ original_input, incorrect_char }}) => format!(\"suit {{}} {{}}\", incorrect_char, original_input) }}"), want)
            }
            // Decks.
            15 => {
                let (b, w) = match form % 6 {
                    0 => (format!("{p}::deck::generate().count().to_string()"), "52"),
                    1 => (format!("let d: ::std::collections::HashSet<{p}::Card> = {p}::deck::generate().collect(); d.len().to_string()"), "52"),
                    2 => (format!("let mut d: Vec<{p}::Card> = {p}::deck::shuffled(); let h: Vec<{p}::Card> = d.drain(..5).collect(); (d.len() + 10 * h.len()).to_string()"), "97"),
                    3 => ("use ::rand::SeedableRng; let mut r = ::rand::rngs::StdRng::seed_from_u64(7); POKER::deck::shuffled_with(&mut r).len().to_string()".replace("POKER", p), "52"),
                    4 => ("use ::rand::RngCore as Core; let mut r = ::rand::thread_rng(); let d: &mut dyn Core = &mut r; POKER::deck::shuffled_with(d).len().to_string()".replace("POKER", p), "52"),
                    _ => ("fn deal<R: ::rand::Rng + ?Sized>(r: &mut R) -> usize { POKER::deck::shuffled_with(r).len() } let mut r = ::rand::rngs::mock::StepRng::new(1, 0x9e3779b97f4a7c15); deal(&mut r).to_string()".replace("POKER", p), "52"),
                };
                (b, w.into())
            }
            // Other sources of texts.
            16 => {
                let list = words.iter().map(|w| lit(w)).collect::<Vec<_>>().join(", ");
                let e = match form % 8 {
                    0 => format!("[{list}]"),
                    1 => format!("&[{list}]"),
                    2 => format!("vec![{list}]"),
                    3 => format!("vec![{list}].iter().map(|s| s.to_string())"),
                    4 => format!("[{list}].iter().map(|s| s.to_string()).collect::<Vec<String>>()"),
                    5 => format!("&[{list}].iter().map(|s| s.to_string()).collect::<::std::collections::LinkedList<String>>()"),
                    6 => format!("{}.split(',')", lit(&words.join(","))),
                    _ => format!("vec![{list}].iter().map(|s| ::std::borrow::Cow::Borrowed(*s))"),
                };
                (format!("{show_all} show_all({p}::Card::parse_to_iter({e}).try_collect())"), all_parsed(&words))
            }
            // The parser as an iterator among others.
            17 => {
                let good: Vec<C> = words.iter().filter_map(|w| model::parse(w)).collect();
                let list = words.iter().map(|w| lit(w)).collect::<Vec<_>>().join(", ");
                let it2 = format!("{p}::Card::parse_to_iter(vec![{list}])");
                let b = match form % 4 {
                    0 => format!("{show} let v: Vec<_> = {it2}.filter_map(|r| r.ok()).collect(); show(&v)"),
                    1 => format!("{show} let v: Vec<_> = {it2}.flatten().collect(); show(&v)"),
                    2 => format!("{show} fn boxed() -> Box<dyn Iterator<Item = ::std::result::Result<{p}::Card, {p}::ParseCardError>>> {{ Box::new({it2}) }} let v: Vec<_> = boxed().filter_map(|r| r.ok()).collect(); show(&v)"),
                    _ => format!("{show} let mut v = vec![]; let mut i = {it2}; while let Some(r) = i.by_ref().next() {{ v.extend(r.ok()); }} show(&v)"),
                };
                (b, names(&good))
            }
            // Collections and orders.
            18 => {
                let a = self.plain(&some);
                let mut ranks: Vec<u8> = some.iter().map(|&c| model::rank(c)).collect();
                ranks.sort();
                let sorted: String = ranks.iter().map(|&r| model::RANK_CHARS[r as usize]).collect();
                let top = sorted.chars().last().unwrap().to_string();
                let (b, w) = match form % 5 {
                    0 => (format!("let mut v = vec!{a}; v.sort(); v.iter().map(|c| c.rank().as_char()).collect::<String>()"), sorted),
                    1 => (format!("let mut v = vec!{a}; v.sort_by_key(|c| ::std::cmp::Reverse(c.rank())); v.iter().rev().map(|c| c.rank().as_char()).collect::<String>()"), sorted),
                    2 => (format!("{a}.iter().copied().max().unwrap().rank().as_char().to_string()"), top),
                    3 => (format!("let mut m = ::std::collections::BTreeMap::<{p}::Rank, usize>::new(); for c in {a}.iter() {{ *m.entry(c.rank()).or_insert(0) += 1; }} m.keys().last().unwrap().as_char().to_string()"), top),
                    _ => (format!("let s: ::std::collections::HashSet<{p}::Card> = {a}.iter().copied().collect(); s.len().to_string()"), { let mut d = some.clone(); d.sort(); d.dedup(); d.len().to_string() }),
                };
                (b, w)
            }
            // Taking cards and evaluations apart and comparing them.
            19 => {
                let h: Vec<C> = some.iter().cycle().take(2).copied().collect();
                let e = self.cards(&h);
                (format!("let [a, b] = {e}; let f = |c: {p}::Card| c.rank_suit_string(); format!(\"{{}} {{}} {{}} {{}}\", f(a), f(b), a == b, a.rank() < b.rank())"),
                 format!("{} {} {} {}", model::name(h[0]), model::name(h[1]), h[0] == h[1], model::rank(h[0]) < model::rank(h[1])))
            }
            // Characters.
            20 => {
                let w = words[0].chars().next().unwrap_or('x');
                let s = words[0].chars().last().unwrap_or('x');
                let want = format!(
                    "{} {} {}",
                    if model::RANK_CHARS.contains(&w) { w.to_string() } else { format!("not {w}") },
                    if model::SUIT_CHARS.contains(&s) { s.to_string() } else { format!("not {s}") },
                    parsed(&format!("{w}{s}"))
                );
                (format!(
                    "use ::std::convert::TryFrom as _; let r = match <{p}::Rank as ::std::convert::TryFrom<char>>::try_from({w:?}) {{ Ok(r) => r.as_char().to_string(), Err(c) => format!(\"not {{}}\", c) }}; \
                     let s = match <{p}::Suit as ::std::convert::TryFrom<char>>::try_from({s:?}) {{ Ok(s) => s.as_char().to_string(), Err(c) => format!(\"not {{}}\", c) }}; \
                     let c = match {p}::Card::try_from_chars({w:?}, {s:?}) {{ Ok(c) => c.rank_suit_string(), Err(_) => \"bad\".to_string() }}; format!(\"{{}} {{}} {{}}\", r, s, c)"), want)
            }
            // Functions as values.
            21 => {
                let a = self.plain(&some);
                let h: Vec<C> = some.iter().copied().chain(0..52).fold(vec![], |mut v, c| { if !v.contains(&c) && v.len() < 5.max(some.len()) { v.push(c) } v });
                let hand = self.plain(&h);
                let chars = |f: &dyn Fn(C) -> char| some.iter().map(|&c| f(c)).collect::<String>();
                let w = &words[0];
                let (b, want) = match form % 9 {
                    0 => (format!("{a}.iter().copied().map({p}::Card::rank).map({p}::Rank::as_char).collect::<String>()"), chars(&|c| model::RANK_CHARS[model::rank(c) as usize])),
                    1 => (format!("{a}.iter().copied().map({p}::Card::suit).map({p}::Suit::as_char).collect::<String>()"), chars(&|c| model::SUIT_CHARS[model::suit(c) as usize])),
                    2 => (format!("{a}.iter().copied().map({p}::Card::suit).map({p}::Suit::as_pretty_char).collect::<String>()"), chars(&|c| model::SUIT_SYMBOLS[model::suit(c) as usize])),
                    3 => (format!("let v: Vec<String> = {a}.iter().copied().map({p}::Card::rank_suit_string).collect(); v.join(\" \")"), names(&some)),
                    4 => (format!("let new: fn() -> {p}::Evaluator = {p}::Evaluator::new; new().evaluate({hand}).map({p}::Eval::class).unwrap().to_string()"), model::text(model::brute(&h))),
                    5 => (format!("let e = {p}::Evaluator::new(); vec![{hand}; 3].iter().map(|h| e.evaluate(h).unwrap_or({p}::Eval::WORST)).fold({p}::Eval::WORST, ::std::cmp::max).to_string()"), model::text(model::brute(&h))),
                    6 => (format!("let make: fn({p}::Rank, {p}::Suit) -> {p}::Card = {p}::Card::new; let pairs: Vec<{p}::Card> = {a}.iter().map(|c| make(c.rank(), c.suit())).collect(); {show} show(&pairs)"), names(&some)),
                    7 => (format!("Some({}).map(str::parse::<{p}::Card>).map_or(String::new(), |r| r.map_or(\"bad\".to_string(), {p}::Card::rank_suit_string))", lit(w)), parsed(w)),
                    _ => (format!("let n: i32 = {a}.iter().copied().map({p}::Card::unique_integer).map(i32::count_ones).map(|n| n as i32 * 0 + 1).sum(); n.to_string()"), some.len().to_string()),
                };
                (b, want)
            }
            // Types that are left to be inferred from what the interface takes and gives.
            22 => {
                let c = self.card(first);
                let w = &words[0];
                let (b, want) = match form % 4 {
                    0 => (format!("let c = {c}; let d = {}.parse().unwrap_or(c); d.rank_suit_string()", lit(w)), model::parse(w).map_or(model::name(first), model::name)),
                    1 => (format!("{}.contains(&{:?}.parse().unwrap()).to_string()", self.plain(&some), model::name(first)), "true".into()),
                    2 => (format!("let mut best = None; for h in vec![{}] {{ best = best.max({p}::Evaluator::new().evaluate(h).ok()); }} best.is_none().to_string()", self.plain(&some)), evaluated(&some).starts_with(|c: char| c.is_lowercase()).to_string()),
                    _ => (format!("use ::std::convert::{{TryFrom, TryInto}}; let c = {p}::Card::new({:?}.try_into().unwrap(), TryFrom::try_from({:?}).unwrap()); c.rank_suit_string()",
                        model::RANK_CHARS[model::rank(first) as usize], model::SUIT_CHARS[model::suit(first) as usize]), model::name(first)),
                };
                (b, want)
            }
            // The user's own traits, errors and constants.
            23 => {
                let c = self.card(first);
                let w = &words[0];
                let h = self.plain(&some);
                let (b, want) = match form % 5 {
                    0 => (format!("trait Tell {{ fn tell(&self) -> String; }} impl Tell for {p}::Card {{ fn tell(&self) -> String {{ self.rank_suit_string() }} }} \
                        impl Tell for {p}::Eval {{ fn tell(&self) -> String {{ self.to_string() }} }} impl<T: Tell> Tell for [T] {{ fn tell(&self) -> String {{ self.iter().map(Tell::tell).collect() }} }} {c}.tell()"), model::name(first)),
                    1 => (format!("enum Mine {{ Parse({p}::ParseCardError), Hand({p}::EvalError) }} impl From<{p}::ParseCardError> for Mine {{ fn from(e: {p}::ParseCardError) -> Mine {{ Mine::Parse(e) }} }} \
                        impl From<{p}::EvalError> for Mine {{ fn from(e: {p}::EvalError) -> Mine {{ Mine::Hand(e) }} }} \
                        fn go() -> ::std::result::Result<String, Mine> {{ let c: {p}::Card = {}.parse()?; let e = {p}::Evaluator::new().evaluate([c, c])?; Ok(e.to_string()) }} \
                        match go() {{ Ok(t) => t, Err(Mine::Parse(_)) => \"parse\".to_string(), Err(Mine::Hand(_)) => \"hand\".to_string() }}", lit(w)), if model::parse(w).is_some() { "hand" } else { "parse" }.into()),
                    2 => (format!("const R: {p}::Rank = {p}::Rank::{}; const S: {p}::Suit = {p}::Suit::{}; let c = {c}; match (c.rank(), c.suit()) {{ (R, S) => \"both\".to_string(), _ => \"no\".to_string() }}", rank(first), suit(first)), "both".into()),
                    3 => (format!("#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] struct Held {{ card: {p}::Card, at: usize }} let a = Held {{ card: {c}, at: 1 }}; let b = a; (a == b && !(a < b) && format!(\"{{:?}}\", a).contains(\"Held\")).to_string()"), "true".into()),
                    _ => (format!("#[derive(Clone, Debug, PartialEq)] struct Table<'a> {{ e: &'a {p}::Evaluator, last: ::std::result::Result<{p}::Eval, {p}::EvalError>, held: Vec<{p}::Card> }} \
                        let e = {p}::Evaluator::new(); let h = {h}.to_vec(); let t = Table {{ e: &e, last: e.evaluate(&h), held: h }}; let u = t.clone(); (t == u && u.e.evaluate(&u.held) == t.last).to_string()"), "true".into()),
                };
                (b, want)
            }
            // Generic code that asks for no more than the interface does, sources that can be read once, and what is
            // sent to other threads before it is used.
            24 => {
                let list = words.iter().map(|w| lit(w)).collect::<Vec<_>>().join(", ");
                let h = if it.cards.is_empty() { format!("Vec::<{p}::Card>::new()") } else { format!("vec!{}", self.plain(&it.cards)) };
                let all = all_parsed(&words);
                let (b, want) = match form % 16 {
                    0 => (format!("{show_all} fn all<I>(i: I) -> ::std::result::Result<Vec<{p}::Card>, {p}::ParseCardError> where I: IntoIterator, I::Item: AsRef<str> {{ {p}::Card::parse_to_iter(i).try_collect() }} show_all(all([{list}]))"), all),
                    1 => (format!("{judge} fn go<T: AsRef<[{p}::Card]>>(e: &{p}::Evaluator, t: T) -> String {{ judge(e.evaluate(t)) }} go(&{p}::Evaluator::new(), {h})"), evaluated(&it.cards)),
                    2 => (format!("{show_all} fn gather<B: ::std::iter::FromIterator<{p}::Card>>(t: &str) -> ::std::result::Result<B, {p}::ParseCardError> {{ {p}::Card::parse_to_iter(t.split_whitespace()).try_collect() }} show_all(gather::<Vec<{p}::Card>>({}))", lit(&words.join(" "))), all),
                    3 => (format!("{show_all} let mut v: ::std::collections::VecDeque<String> = vec![{list}].into_iter().map(String::from).collect(); show_all({p}::Card::parse_to_iter(::std::iter::from_fn(|| v.pop_front())).try_collect())"), all),
                    4 => (format!("{show_all} let text = ::std::io::Cursor::new({}); show_all({p}::Card::parse_to_iter(::std::io::BufRead::lines(text).map(|l| l.unwrap())).try_collect())", lit(&words.join("\n"))), all),
                    5 => (format!("{show_all} let i = {p}::Card::parse_to_iter(vec![{list}]); ::std::thread::spawn(move || show_all(i.try_collect())).join().unwrap()"), all),
                    6 => (format!("let d = {p}::deck::generate(); let (tx, rx) = ::std::sync::mpsc::channel(); tx.send(d).unwrap(); ::std::thread::spawn(move || rx.recv().unwrap().count()).join().unwrap().to_string()"), "52".into()),
                    7 => (format!("{show_all} let r = {{ let texts: Vec<String> = vec![{list}].into_iter().map(String::from).collect(); let all = {p}::Card::parse_to_iter(&texts).try_collect(); all }}; show_all(r)"), all),
                    8 => (format!("{show_all} let v = vec![{list}]; let mut i = v.into_iter(); let i: &mut dyn Iterator<Item = &str> = &mut i; show_all({p}::Card::parse_to_iter(i).try_collect())"), all),
                    9 => (format!("{show_all} let v: Vec<::std::rc::Rc<str>> = vec![{list}].into_iter().map(::std::rc::Rc::from).collect(); let f = ::std::rc::Rc::new(1); let i = v.iter().filter(|_| *f == 1); show_all({p}::Card::parse_to_iter(i.cloned()).try_collect())"), all),
                    10 => (format!("{judge} struct Hand(Vec<{p}::Card>, *const u8); impl AsRef<[{p}::Card]> for Hand {{ fn as_ref(&self) -> &[{p}::Card] {{ &self.0 }} }} let h = Hand({h}, ::std::ptr::null()); let d: &dyn AsRef<[{p}::Card]> = &h; judge({p}::Evaluator::new().evaluate(d))"), evaluated(&it.cards)),
                    11 => (format!("use ::rand::RngCore as Core; let mut r: Box<dyn Core> = Box::new(::rand::rngs::mock::StepRng::new(3, 0x9e3779b97f4a7c15)); {p}::deck::shuffled_with(&mut r).len().to_string()"), "52".into()),
                    12 => (format!("struct Odd(*const u8, u64); impl ::rand::RngCore for Odd {{ fn next_u32(&mut self) -> u32 {{ self.next_u64() as u32 }} fn next_u64(&mut self) -> u64 {{ self.1 = self.1.wrapping_mul(0x5851f42d4c957f2d).wrapping_add(1); self.1 ^ self.1 >> 29 }} \
                        fn fill_bytes(&mut self, b: &mut [u8]) {{ for x in b.iter_mut() {{ *x = self.next_u64() as u8; }} }} fn try_fill_bytes(&mut self, b: &mut [u8]) -> ::std::result::Result<(), ::rand::Error> {{ self.fill_bytes(b); Ok(()) }} }} \
                        {p}::deck::shuffled_with(&mut Odd(::std::ptr::null(), 7)).len().to_string()"), "52".into()),
                    13 => (format!("{judge} let e = {p}::Evaluator::new(); let f = |h: &[{p}::Card]| e.evaluate(h); let g: &(dyn Fn(&[{p}::Card]) -> ::std::result::Result<{p}::Eval, {p}::EvalError> + Sync) = &f; judge(g(&{h}))"), evaluated(&it.cards)),
                    14 => (format!("{judge} let r = {{ let e = {p}::Evaluator::new(); let h = {h}; e.evaluate(&h) }}; let t = {{ let c = r.clone(); judge(c) }}; assert!(t == judge(r)); t"), evaluated(&it.cards)),
                    _ => (format!("{judge} let e = {p}::Evaluator::new(); let all: Vec<_> = ::std::thread::scope(|s| {{ let hs: Vec<_> = (0..3).map(|_| s.spawn(|| e.evaluate({h}))).collect(); hs.into_iter().map(|h| h.join().unwrap()).collect() }}); assert!(all[0] == all[1] && all[1] == all[2]); judge(all[2].clone())"), evaluated(&it.cards)),
                };
                (b, want)
            }
            // All ranks and suits, and generic code over cards.
            _ => {
                let r = format!("{p}::Rank");
                let s = format!("{p}::Suit");
                let arms: Vec<String> = RANKS.iter().zip(model::RANK_CHARS).map(|(n, c)| format!("{r}::{n} => {c:?}")).collect();
                let arms2: Vec<String> = SUITS.iter().zip(model::SUIT_CHARS).map(|(n, c)| format!("{s}::{n} => {c:?}")).collect();
                let e = self.card(first);
                (format!("fn same<T: Clone>(t: &T) -> T {{ t.clone() }} let c = same(&{e}); let a = match c.rank() {{ {} }}; let b = match c.suit() {{ {} }}; format!(\"{{}}{{}}\", a, b)", arms.join(", "), arms2.join(", ")), model::name(first))
            }
        }
    }

    /// Other things with the crate's names. Only what does not hide a macro that is called by its bare name.
    fn others(&self, shadow: u8) -> &'static str {
        let bare = [1, 3, 5].contains(&self.style);
        match shadow {
            1 => "#[allow(dead_code)] struct Card; #[allow(dead_code)] struct Evaluator; #[allow(dead_code)] struct Eval;",
            2 => "#[allow(dead_code)] enum Rank { Nine, Nil } #[allow(dead_code)] enum Suit { Cups, Coins }",
            3 => "#[allow(dead_code)] fn card() -> u8 { 0 } #[allow(dead_code)] fn cards() {} #[allow(dead_code)] fn parse_to_iter() {}",
            4 if self.style != 1 => "#[allow(dead_code)] mod card { pub struct Card; } #[allow(dead_code)] mod deck {} #[allow(dead_code)] mod evaluate {}",
            5 => "#[allow(dead_code, non_upper_case_globals)] const Ace: u8 = 1; #[allow(dead_code, non_upper_case_globals)] const Spades: u8 = 4; #[allow(dead_code, non_upper_case_globals)] static Two: u8 = 2;",
            6 if !bare => "#[allow(unused_macros)] macro_rules! card { ($($t:tt)*) => { compile_error!(\"the user's own macro\") } } #[allow(unused_macros)] macro_rules! cards { ($($t:tt)*) => { compile_error!(\"the user's own macro\") } }",
            7 => "#[allow(dead_code)] trait Card { fn rank(&self) -> u8 { 0 } } #[allow(dead_code)] type Rank = u8; #[allow(dead_code)] type Suit = char; #[allow(dead_code)] enum ParseCardError {}",
            8 => "#[allow(dead_code)] mod poker_ { } #[allow(dead_code)] struct ParseToIter; #[allow(dead_code)] enum EvalClass { Of } #[allow(dead_code)] fn of() {}",
            _ => "",
        }
    }

    /// The item as source that defines `part_i`, which gives the text.
    fn source(&self, i: usize, body: &str) -> String {
        let (imports, others) = (self.imports(), self.others(self.it.shadow % SHADOWS));
        match self.it.place % PLACES {
            // Everything within the function.
            0 => format!("fn part_{i}() -> String {{ {others} {imports} {body} }}"),
            1 => format!("mod m_{i} {{ {others} {imports} pub fn f() -> String {{ {body} }} }} fn part_{i}() -> String {{ m_{i}::f() }}"),
            2 => format!("mod m_{i} {{ pub mod inner {{ {others} pub fn f() -> String {{ {imports} {body} }} }} }} fn part_{i}() -> String {{ m_{i}::inner::f() }}"),
            3 => format!("mod m_{i} {{ {others} {imports} pub struct Table; impl Table {{ pub fn f(&self) -> String {{ {body} }} }} }} fn part_{i}() -> String {{ m_{i}::Table.f() }}"),
            4 => format!("mod m_{i} {{ {others} {imports} pub trait Play {{ fn f(&self) -> String {{ {body} }} }} impl Play for u8 {{}} }} fn part_{i}() -> String {{ use m_{i}::Play; 0u8.f() }}"),
            5 => format!("fn part_{i}() -> String {{ {others} {imports} let f = || {{ {body} }}; f() }}"),
            6 => format!("fn part_{i}() -> String {{ {others} {imports} fn g<T: Default>(_: T) -> String {{ {body} }} g(0u64) }}"),
            7 => format!("mod m_{i} {{ {others} {imports} macro_rules! wrap {{ ($b:block) => {{ $b }} }} pub fn f() -> String {{ wrap!({{ {body} }}) }} }} fn part_{i}() -> String {{ m_{i}::f() }}"),
            8 => format!("fn part_{i}() -> String {{ {others} {imports} ::std::thread::spawn(|| {{ {body} }}).join().unwrap() }}"),
            9 => format!("mod m_{i} {{ {others} {imports} pub static TEXT: ::std::sync::OnceLock<String> = ::std::sync::OnceLock::new(); pub fn f() -> String {{ TEXT.get_or_init(|| {{ {body} }}).clone() }} }} fn part_{i}() -> String {{ m_{i}::f() }}"),
            10 => format!("fn part_{i}() -> String {{ {others} {imports} struct Late(::std::sync::mpsc::Sender<String>); impl Drop for Late {{ fn drop(&mut self) {{ let t: String = {{ {body} }}; self.0.send(t).unwrap(); }} }} let (tx, rx) = ::std::sync::mpsc::channel(); drop(Late(tx)); rx.recv().unwrap() }}"),
            11 => format!("fn part_{i}() -> String {{ {others} {imports} let t: String = loop {{ break match () {{ () => {{ {body} }} }}; }}; t }}"),
            // A macro of the user that makes the whole function.
            _ => format!("mod m_{i} {{ {others} {imports} macro_rules! define {{ ($name:ident) => {{ pub fn $name() -> String {{ {body} }} }} }} define!(f); }} fn part_{i}() -> String {{ m_{i}::f() }}"),
        }
    }
}

pub fn program(p: &Program) -> (String, Vec<String>) {
    let name = crate_name(p);
    let old = p.edition % 4 == 0;
    let mut s = String::new();
    if p.all_macros {
        s += &format!("#[macro_use]\nextern crate {name};\n");
    } else if old {
        s += &format!("extern crate {name};\n");
    }
    if old {
        s += "extern crate rand;\n";
    }
    s += &format!("mod reexports {{ pub use ::{name}::{{card, cards, box_cards}}; }}\n");
    let mut want = vec![];
    for (i, it) in p.items.iter().enumerate() {
        let style = match it.style % STYLES {
            5 if !p.all_macros => 0,
            s => s,
        };
        let u = Use { p: format!("::{name}"), it, style };
        let (body, w) = u.body();
        s += &u.source(i, &body);
        s.push('\n');
        want.push(w);
    }
    s += "fn main() {\n";
    for i in 0..p.items.len() {
        s += &format!("    println!(\"{{}}\", part_{i}());\n");
    }
    s += "}\n";
    (s, want)
}
