//! C16: the crate built with other feature sets (the same sources, through mirror manifests) must behave as
//! the crate built with the default ones.

use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    process::exit,
};

use pokercheck::{
    driver::{guard, no_shrink, replay, Ctx, Outcome},
    glue::{self, Hand},
    model::{self, mix, C},
    props_err::{any_text, repeats},
};
use proptest::prelude::*;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// What a configuration says about a slice of cards, in terms that do not depend on its types.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// Place among the strengths by the configuration's own order, class, text, predicates.
    Eval { place: usize, class: String, text: String, is: u16 },
    Size(usize, String),
    Twice(Vec<C>, String),
    Panic,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Parsed {
    Card(C, String, String, i32),
    Error(String, String),
}

macro_rules! configuration {
    ($m:ident, $lib:ident) => {
        pub mod $m {
            use super::*;
            use std::sync::OnceLock;
            pub use $lib::{Card, Eval, EvalError, Evaluator, ParseCardError, Rank, Suit};

            pub fn cards(h: &[C]) -> Vec<Card> {
                static D: OnceLock<Vec<Card>> = OnceLock::new();
                let d = D.get_or_init(|| {
                    use {Rank::*, Suit::*};
                    let rs = [Two, Three, Four, Five, Six, Seven, Eight, Nine, Ten, Jack, Queen, King, Ace];
                    let ss = [Clubs, Diamonds, Hearts, Spades];
                    rs.iter().flat_map(|&r| ss.iter().map(move |&s| Card::new(r, s))).collect()
                });
                h.iter().map(|&c| d[c as usize]).collect()
            }
            pub fn number(c: Card) -> C { (0..52).find(|&i| cards(&[i])[0] == c).unwrap_or(255) }
            pub fn evaluator() -> &'static Evaluator {
                static E: OnceLock<Evaluator> = OnceLock::new();
                E.get_or_init(Evaluator::new)
            }
            /// The evaluations of one hand per strength, in this configuration's own order.
            pub fn order() -> &'static [Eval] {
                static R: OnceLock<Vec<Eval>> = OnceLock::new();
                R.get_or_init(|| {
                    let all = &model::strengths().hands;
                    let mut v: Vec<Eval> = all
                        .iter()
                        .filter_map(|h| catch_unwind(AssertUnwindSafe(|| evaluator().evaluate(cards(h)).ok())).ok().flatten())
                        .collect();
                    v.sort_by(|a, b| a.cmp(b));
                    v
                })
            }
            pub fn describe(e: Eval) -> Out {
                let is = [
                    e.is_high_card(),
                    e.is_pair(),
                    e.is_two_pair(),
                    e.is_three_of_a_kind(),
                    e.is_straight(),
                    e.is_flush(),
                    e.is_full_house(),
                    e.is_four_of_a_kind(),
                    e.is_straight_flush(),
                    e.is_royal_flush(),
                    e == Eval::BEST,
                    e == Eval::WORST,
                ];
                Out::Eval {
                    place: order().partition_point(|x| x.cmp(&e).is_lt()),
                    class: format!("{:?}", e.class()),
                    text: e.to_string(),
                    is: is.iter().fold(0, |a, &b| a << 1 | u16::from(b)),
                }
            }
            pub fn outcome(r: &Result<Eval, EvalError>) -> Out {
                match r {
                    Ok(e) => describe(*e),
                    Err(EvalError::InvalidHandSize(n)) => Out::Size(*n, r.as_ref().unwrap_err().to_string()),
                    Err(EvalError::CardsNotUnique(v)) => {
                        Out::Twice(v.iter().map(|&c| number(c)).collect(), r.as_ref().unwrap_err().to_string())
                    }
                }
            }
            pub fn by_evaluator(h: &[C]) -> Out {
                catch_unwind(AssertUnwindSafe(|| outcome(&evaluator().evaluate(cards(h))))).unwrap_or(Out::Panic)
            }
            fn parsed(r: Result<Card, ParseCardError>) -> Parsed {
                match r {
                    Ok(c) => Parsed::Card(number(c), c.to_string(), c.rank_suit_string(), c.unique_integer()),
                    Err(e) => Parsed::Error(format!("{e:?}"), e.to_string()),
                }
            }
            pub fn parse(s: &str) -> Parsed { parsed(s.parse()) }
            pub fn parse_all(v: &[String]) -> (Vec<Parsed>, Result<Vec<C>, Parsed>) {
                let all = Card::parse_to_iter(v).map(parsed).collect();
                let whole = Card::parse_to_iter(v).try_collect::<Vec<Card>>();
                (all, whole.map(|v| v.into_iter().map(number).collect()).map_err(|e| parsed(Err(e))))
            }
            pub fn parse_line(s: &str) -> Vec<Parsed> { $lib::cards!(s).map(parsed).collect() }
            pub fn generate() -> Vec<C> { $lib::deck::generate().map(number).collect() }
        }
    };
}
configuration!(default, poker);
configuration!(with_static, poker_static);
configuration!(bare, poker_bare);
configuration!(only_static, poker_sbare);

macro_rules! static_fn {
    ($name:ident, $m:ident, $lib:ident) => {
        /// The free function, compared with the evaluator of the same build by its own operators.
        fn $name(h: &[C]) -> Result<Out, String> {
            let v = $m::cards(h);
            let f = catch_unwind(AssertUnwindSafe(|| $lib::evaluate::static_lookup::evaluate(&v)));
            let e = catch_unwind(AssertUnwindSafe(|| $m::evaluator().evaluate(&v)));
            let f = match (f, e) {
                (Ok(f), Ok(e)) => {
                    let same = match (&f, &e) {
                        (Ok(a), Ok(b)) => a == b && a.cmp(b).is_eq() && a.class() == b.class() && hash(a) == hash(b),
                        (Err(_), Err(_)) => true,
                        _ => false,
                    };
                    if !same {
                        return Err(format!("the free function gives {:?}, the evaluator {:?}", $m::outcome(&f), $m::outcome(&e)));
                    }
                    f
                }
                (Err(_), Err(_)) => return Ok(Out::Panic),
                (Err(_), Ok(e)) => return Err(format!("the free function panics, the evaluator gives {:?}", $m::outcome(&e))),
                (Ok(f), Err(_)) => return Err(format!("the free function gives {:?}, the evaluator panics", $m::outcome(&f))),
            };
            Ok($m::outcome(&f))
        }
    };
}
static_fn!(static_fn, with_static, poker_static);
static_fn!(static_fn_bare, only_static, poker_sbare);

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn hand(h: &Hand) -> Outcome {
    let h = &h.0;
    let want = default::by_evaluator(h);
    let all = [
        ("the free function (all features)", static_fn(h).map_err(|m| format!("with all features: {m}"))?),
        ("the free function (static_lookup only)", static_fn_bare(h).map_err(|m| format!("with static_lookup only: {m}"))?),
        ("an evaluator with all features", with_static::by_evaluator(h)),
        ("an evaluator with static_lookup only", only_static::by_evaluator(h)),
        ("an evaluator without features", bare::by_evaluator(h)),
    ];
    for (who, got) in all {
        if got != want {
            return Err(format!("{who} gives {got:?}, an evaluator with default features gives {want:?}"));
        }
    }
    Ok(Some(match want {
        Out::Eval { .. } => match h.len() {
            5 => "five cards",
            6 | 7 => "six or seven cards",
            _ => "more cards",
        },
        Out::Size(..) => "too few",
        Out::Twice(..) => "not unique",
        Out::Panic => return Ok(None),
    }))
}

fn text(s: &String) -> Outcome {
    let want = default::parse(s);
    for (who, got) in [("all features", with_static::parse(s)), ("no features", bare::parse(s)), ("static_lookup only", only_static::parse(s))] {
        if got != want {
            return Err(format!("with {who} parses as {got:?}, with default features as {want:?}"));
        }
    }
    Ok(Some(if matches!(want, Parsed::Card(..)) { "a card" } else { "an error" }))
}

fn texts(v: &Vec<String>) -> Outcome {
    let line = v.join(" ");
    let want = (default::parse_all(v), default::parse_line(&line));
    let others = [
        ("all features", (with_static::parse_all(v), with_static::parse_line(&line))),
        ("no features", (bare::parse_all(v), bare::parse_line(&line))),
        ("static_lookup only", (only_static::parse_all(v), only_static::parse_line(&line))),
    ];
    for (who, got) in others {
        if got != want {
            return Err(format!("with {who}: {got:?}, with default features: {want:?}"));
        }
    }
    Ok(if v.is_empty() { None } else { Some("a list") })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seeded(u64);

fn decks(s: &Seeded) -> Outcome {
    let want = default::generate();
    for (who, got) in [("all features", with_static::generate()), ("no features", bare::generate()), ("static_lookup only", only_static::generate())] {
        if got != want {
            return Err(format!("generated deck with {who}: {}, with default features: {}", model::names(&got), model::names(&want)));
        }
    }
    let mut a = rand::rngs::StdRng::seed_from_u64(s.0);
    let mut b = a.clone();
    let da: Vec<C> = poker::deck::shuffled_with(&mut a).iter().map(|&c| default::number(c)).collect();
    let db: Vec<C> = poker_static::deck::shuffled_with(&mut b).iter().map(|&c| with_static::number(c)).collect();
    if da != db || a != b {
        return Err(format!("shuffle from seed {}: {} with default features, {} with all", s.0, model::names(&da), model::names(&db)));
    }
    Ok(Some("decks"))
}

fn run(ctx: &Ctx) {
    ctx.exhaustive(
        "five-cards",
        true,
        52 * 51 / 2,
        |chunk, acc| {
            let (mut a, mut b) = (0u8, 1u8);
            for _ in 0..chunk {
                b += 1;
                if b == 52 {
                    a += 1;
                    b = a + 1;
                }
            }
            let mut x = mix(chunk ^ ctx.seed);
            for c in b + 1..52 {
                for d in c + 1..52 {
                    for e in d + 1..52 {
                        let mut h = vec![a, b, c, d, e];
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        h.rotate_left((x >> 33) as usize % 5);
                        h.swap((x >> 40) as usize % 5, (x >> 50) as usize % 5);
                        let h = Hand(h);
                        match guard(|| hand(&h)) {
                            Ok(Some(t)) => acc.ok(t, 1),
                            Ok(None) => acc.trivial(1),
                            Err(m) => return acc.fail(h, m),
                        }
                        if x % 997 == 5 {
                            acc.sample(h);
                        }
                    }
                }
            }
        },
        hand,
        glue::shrink_case(0),
    );
    ctx.random_w("more-cards", ctx.n(400_000, 6_000_000), 8, || glue::rich_hand(6..=8).prop_map(Hand), hand, glue::shrink_case(0));
    ctx.random_w(
        "many-cards",
        ctx.n(1_600, 24_000),
        8,
        || prop_oneof![8 => glue::rich_hand(9..=20), 1 => glue::rich_hand(21..=40)].prop_map(Hand),
        hand,
        glue::shrink_case(0),
    );
    ctx.random_w(
        "any-slice",
        ctx.n(200_000, 2_000_000),
        8,
        || prop_oneof![3 => glue::rich_hand(0..=7), 3 => repeats(), 3 => proptest::collection::vec(glue::a_card(), 0..12)].prop_map(Hand),
        hand,
        glue::shrink_case(0),
    );
    ctx.random("texts", ctx.n(100_000, 1_000_000), || prop_oneof![any_text(), "[23456789TJQKA][chsd]"], text);
    ctx.random(
        "lists-of-texts",
        ctx.n(40_000, 400_000),
        || proptest::collection::vec(prop_oneof![1 => any_text(), 4 => "[23456789TJQKA][chsd]"], 0..10),
        texts,
    );
    ctx.random_w("decks", ctx.n(20_000, 200_000), 8, || any::<u64>().prop_map(Seeded), decks, no_shrink);
}

fn replay_one(sub: &str, v: &Value) -> Outcome {
    match sub {
        "texts" => replay(v, text),
        "lists-of-texts" => replay(v, texts),
        "decks" => replay(v, decks),
        _ => replay(v, hand),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("PC_PANICS").is_some() {
            eprintln!("{info}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let ctx = Ctx::new("C16", arg("--tier").as_deref() == Some("thorough"), seed, &arg("--profile").unwrap_or("release".into()));
            let (part, replays) = (PathBuf::from(arg("--part").expect("--part")), PathBuf::from(arg("--replays").expect("--replays")));
            let ctx = ctx.writes_to(part.clone(), replays.clone());
            model::self_test(seed);
            run(&ctx);
            exit(ctx.finish(&part, &replays));
        }
        Some("replay") => {
            let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("json");
            println!("C16 {}: {}", doc["sub"], doc["case"]);
            match replay_one(doc["sub"].as_str().expect("sub"), &doc["case"]) {
                Ok(_) => println!("holds"),
                Err(m) => {
                    println!("VIOLATED: {m}");
                    exit(1)
                }
            }
        }
        _ => exit(2),
    }
}
