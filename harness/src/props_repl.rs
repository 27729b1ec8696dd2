//! C17: the read-evaluate-print program.

use std::sync::OnceLock;

use poker::Card;
use proptest::prelude::*;
use serde_json::Value;

use crate::{
    driver::{guard, no_shrink, replay, Ctx, Outcome},
    glue::{self, evaluator},
    model,
    programs::{clean, for_a_minute, run, sessions, Ran, Session},
    props_err::{any_text, repeats},
};

const PROGRAM: &str = "poker-repl";

/// What the program prints before the first line and for "help", learned once.
fn learned() -> &'static Result<(String, String), String> {
    static L: OnceLock<Result<(String, String), String>> = OnceLock::new();
    L.get_or_init(|| {
        let start = run(PROGRAM, &Session::new(0, vec![]));
        start.ended_well()?;
        let help = run(PROGRAM, &Session::new(0, vec!["help".into()]));
        help.ended_well()?;
        let Some(text) = help.stdout.strip_prefix(&start.stdout) else {
            return Err(format!("after 'help' the output does not start as without input: {:?}", help.stdout));
        };
        for part in ["23456789TJQKA", "chsd"] {
            if !text.contains(part) {
                return Err(format!("the answer to 'help' does not name the valid characters {part}: {text:?}"));
            }
        }
        Ok((start.stdout, text.to_string()))
    })
}

/// What the library says about a line; None if it does not return.
fn answer(line: &str) -> Option<(String, &'static str)> {
    let mut found = None;
    let r = guard(|| {
        let mut cards = vec![];
        for w in line.split_whitespace() {
            match w.parse::<Card>() {
                Ok(c) => cards.push(c),
                Err(e) => {
                    found = Some((e.to_string(), "parse error"));
                    return Ok(None);
                }
            }
        }
        found = Some(match evaluator().evaluate(&cards) {
            Ok(e) => (e.to_string(), "evaluated"),
            Err(e) => (e.to_string(), "evaluation error"),
        });
        Ok(None)
    });
    r.ok().and(found)
}

fn session(s: &Session) -> Outcome {
    let (start, help) = learned().as_ref().map_err(|m| m.clone())?;
    let ran: Ran = run(PROGRAM, s);
    ran.ended_well()?;
    let Some(mut rest) = ran.stdout.strip_prefix(start.as_str()) else {
        return Err(format!("the output does not start with the welcome text: {:?}", ran.stdout));
    };
    let mut kinds = std::collections::BTreeSet::new();
    for (i, line) in s.read().iter().enumerate() {
        let want = match line.as_str() {
            "quit" => {
                kinds.insert("quit");
                break;
            }
            "help" => {
                kinds.insert("help");
                help.clone()
            }
            _ => match answer(line) {
                Some((t, k)) => {
                    kinds.insert(k);
                    t + "\n"
                }
                // The library itself fails; that the program ended well is all that can be said.
                None => return Ok(None),
            },
        };
        rest = rest.strip_prefix(want.as_str()).ok_or_else(|| {
            let got: String = rest.chars().take(300).collect();
            format!("line {} ({line:?}) must be answered by {want:?}, the output goes on with {got:?}", i + 1)
        })?;
    }
    if !rest.is_empty() {
        return Err(format!("after the answer to the last line the program prints {rest:?}"));
    }
    Ok(match kinds.len() {
        0 => None,
        1 => Some(kinds.into_iter().next().unwrap()),
        2 => Some("two kinds of answers"),
        _ => Some("three or more kinds of answers"),
    })
}

fn spaced(words: Vec<String>, seps: Vec<&'static str>, lead: &'static str, trail: &'static str) -> String {
    let mut out = lead.to_string();
    for (i, w) in words.iter().enumerate() {
        if i > 0 {
            out.push_str(seps[i % seps.len()]);
        }
        out.push_str(w);
    }
    out.push_str(trail);
    out
}

fn line(most: usize) -> BoxedStrategy<String> {
    let sep = || prop_oneof![6 => Just(" "), 1 => Just("  "), 1 => Just("\t"), 1 => Just(" \t "), 1 => Just("\u{3000}"), 1 => Just("\u{b}"), 1 => Just("\u{a0}")];
    let edge = || prop_oneof![6 => Just(""), 1 => Just(" "), 1 => Just("\t "), 1 => Just("\u{2003}")];
    let hand = prop_oneof![
        6 => glue::rich_hand(5..=most),
        2 => glue::hand_of_category(),
        1 => glue::rich_hand(0..=5),
        1 => repeats(),
        1 => (glue::rich_hand(4..=9), any::<prop::sample::Index>(), any::<prop::sample::Index>()).prop_map(|(mut h, i, j)| {
            let c = h[i.index(h.len())];
            let at = j.index(h.len() + 1);
            h.insert(at, c);
            h
        }),
    ]
    .prop_map(|h| h.into_iter().map(model::name).collect::<Vec<String>>());
    let bad = prop_oneof!["[23456789TJQKA]{1,3}", "[23456789TJQKA][a-zA-Z]", "[a-z0-9][chsd]", "10[chsd]", any_text(), Just("quit".to_string()), Just("help".to_string())];
    let wrong = (hand.clone(), bad, any::<prop::sample::Index>(), proptest::option::weighted(0.3, "[A-Za-z]{1,3}")).prop_map(|(mut w, b, i, more)| {
        let at = i.index(w.len() + 1);
        w.insert(at, b);
        w.extend(more);
        w
    });
    let words = prop_oneof![4 => hand, 3 => wrong];
    let normal = (words, proptest::collection::vec(sep(), 1..4), edge(), edge()).prop_map(|(w, s, l, t)| spaced(w, s, l, t));
    prop_oneof![
        16 => normal,
        2 => any_text(),
        2 => proptest::sample::select(vec!["help", "help ", " help", "HELP", "Help", "h", "?", "help help", "quit ", " quit", "QUIT", "Quit", "exit", "q", "quit quit", "", " "]).prop_map(String::from),
        1 => proptest::sample::select(vec!["quit", "help"]).prop_map(String::from),
    ]
    .boxed()
}

/// Lines of many words: cards over and over (refused at once), with or without something that is
/// no card, anywhere in the line.
fn crowded() -> BoxedStrategy<String> {
    let count = || prop_oneof![3 => 10usize..60, 2 => 45usize..70, 2 => 60usize..500, 1 => 500usize..5_000];
    // More than 14 different cards could be evaluated, at length; a repeated one prevents that.
    let words = (count(), proptest::collection::vec(0u8..52, 1..=52), any::<prop::sample::Index>(), any::<prop::sample::Index>()).prop_map(|(n, some, i, j)| {
        let mut all: Vec<u8> = (0..n).map(|k| some[k % some.len()]).collect();
        let (i, j) = (i.index(n), j.index(n));
        all[j] = all[if i == j { (i + 1) % n } else { i }];
        all.into_iter().map(model::name).collect::<Vec<String>>()
    });
    // The whole deck, in some order, and a few cards once more.
    let decks = (Just((0u8..52).collect::<Vec<u8>>()).prop_shuffle(), proptest::collection::vec(0u8..52, 1..8))
        .prop_map(|(d, m)| d.into_iter().chain(m).map(model::name).collect::<Vec<String>>());
    let bad = prop_oneof!["[a-z0-9][chsd]", "[23456789TJQKA]{1,3}", "10[chsd]", "[A-Za-z0-9]{200,3000}", any_text(), Just("quit".to_string())];
    let place = prop_oneof![Just(usize::MAX), 0usize..500, 40usize..60, 0usize..3];
    let sep = proptest::sample::select(vec![" ", "  ", "\t", " \u{3000}"]);
    (prop_oneof![3 => words, 1 => decks], proptest::option::weighted(0.6, (bad, place)), sep).prop_map(|(mut w, b, s)| {
        if let Some((b, at)) = b {
            let at = at.min(w.len());
            w.insert(at, b);
        }
        w.join(s)
    }).boxed()
}

fn shrink(s: Session, fails: &dyn Fn(&Session) -> bool) -> Session {
    let fails = for_a_minute(fails);
    // One line alone, if that fails.
    for l in &s.lines {
        let one = Session::new(0, vec![clean(l.clone())]);
        if fails(&one) {
            return one;
        }
    }
    s
}

pub fn c17(ctx: &Ctx) {
    if let Err(message) = learned() {
        ctx.fail(crate::driver::Failure { sub: "sessions".into(), case: serde_json::to_value(Session::new(0, vec!["help".into()])).unwrap(), message: message.clone() });
        return;
    }
    ctx.random_w("sessions", ctx.n(6_000, 60_000), 8, || sessions(line(9), 40), session, shrink);
    ctx.random_w("long-lines", ctx.n(64, 800), 8, || sessions(line(14), 4), session, shrink);
    ctx.random_w("crowded-lines", ctx.n(400, 6_000), 8, || sessions(prop_oneof![3 => crowded(), 1 => line(7)].boxed(), 8), session, no_shrink);
    ctx.random_w("long-sessions", ctx.n(64, 800), 8, || sessions(line(7), 800), session, no_shrink);
}
pub fn c17_replay(_: &str, v: &Value) -> Outcome { replay(v, session) }
