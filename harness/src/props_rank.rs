//! C01, C02, C03, C19: what a hand is worth and what it is called.

use std::cell::Cell;

use poker::Eval;
use proptest::prelude::*;
use serde_json::Value;

use crate::{
    driver::{guard, no_shrink, replay, Ctx, Outcome},
    glue::*,
    model::{self, mix, C},
};

fn orders() -> Vec<[usize; 5]> {
    let mut out = vec![];
    for i in 0..3125usize {
        let p = [i / 625, i / 125 % 5, i / 25 % 5, i / 5 % 5, i % 5];
        if (0..5).all(|x| p.contains(&x)) {
            out.push(p);
        }
    }
    assert_eq!(out.len(), 120);
    out
}

/// Calls `f` with every set of `n` cards whose two lowest are `chunk / 52` and `chunk % 52`.
pub fn each_hand(chunk: u64, n: usize, f: &mut dyn FnMut(&[C]) -> bool) {
    let (a, b) = ((chunk / 52) as u8, (chunk % 52) as u8);
    if a >= b {
        return;
    }
    fn rec(h: &mut Vec<C>, n: usize, f: &mut dyn FnMut(&[C]) -> bool) -> bool {
        if h.len() == n {
            return f(h);
        }
        let missing = (n - h.len() - 1) as u8;
        let mut c = h[h.len() - 1] + 1;
        while c + missing < 52 {
            h.push(c);
            let go = rec(h, n, f);
            h.pop();
            if !go {
                return false;
            }
            c += 1;
        }
        true
    }
    rec(&mut vec![a, b], n, f);
}
pub const CHUNKS: u64 = 52 * 52;

/// A fixed pseudo-random order of a small hand, derived from its content and the seed.
pub fn scramble(h: &mut [C], seed: u64) {
    let mut x = seed;
    for &c in h.iter() {
        x = mix(x ^ u64::from(c));
    }
    for i in (1..h.len()).rev() {
        x = mix(x);
        h.swap(i, (x % (i as u64 + 1)) as usize);
    }
}

fn strength_check(h: &[C]) -> Outcome {
    let e = evaluator().evaluate(cards(h)).map_err(|e| format!("rejected: {e:?}"))?;
    strength_is(e, model::score(h))?;
    Ok(Some(model::CATEGORY[model::category(model::score(h)) as usize]))
}

fn strength_and_class(h: &[C]) -> Outcome {
    let e = evaluator().evaluate(cards(h)).map_err(|e| format!("rejected: {e:?}"))?;
    let code = model::score(h);
    strength_is(e, code)?;
    // The class is that of the best five alone (whether that one is right is for C03 to say).
    let five = reps()[model::strengths().index(code)];
    if e.class() != five.class() || class_key(e.class()) != class_key(five.class()) {
        return Err(format!("class is {:?}, but {:?} for the best five cards alone", e.class(), five.class()));
    }
    Ok(Some(model::CATEGORY[model::category(code) as usize]))
}

// ---------------------------------------------------------------- C01

fn pair_order(p: &(Hand, Hand)) -> Outcome {
    let (a, b) = (model::score(&p.0 .0), model::score(&p.1 .0));
    let ea = evaluator().evaluate(cards(&p.0 .0)).map_err(|e| format!("rejected: {e:?}"))?;
    let eb = evaluator().evaluate(cards(&p.1 .0)).map_err(|e| format!("rejected: {e:?}"))?;
    if ea.cmp(&eb) != a.cmp(&b) || (ea > eb) != (a > b) || (ea < eb) != (a < b) || (ea == eb) != (a == b) {
        return Err(format!(
            "[{:?}] ({ea}) against [{:?}] ({eb}) compares {:?}, the rules say {:?}",
            p.0,
            p.1,
            ea.cmp(&eb),
            a.cmp(&b)
        ));
    }
    Ok(Some(if a == b {
        "tie"
    } else if model::category(a) != model::category(b) {
        "different category"
    } else if model::deciding(a, 0) != model::deciding(b, 0) {
        "same category, first rank decides"
    } else {
        "same category, later rank or kicker decides"
    }))
}

pub fn c01(ctx: &Ctx) {
    let ord = orders();
    let s = model::strengths();
    // Every pair of strengths, on the model's example hands.
    ctx.exhaustive(
        "strength-pairs",
        true,
        7462,
        |i, acc| {
            let i = i as usize;
            let (a, n) = (reps()[i], reps().len());
            for j in 0..n {
                let b = reps()[j];
                if a.cmp(&b) != i.cmp(&j) {
                    let c = (Hand(s.hands[i].to_vec()), Hand(s.hands[j].to_vec()));
                    let m = pair_order(&c).err().unwrap_or_default();
                    return acc.fail(c, m);
                }
            }
            acc.ok("pair of strengths", n as u64);
            if i % 1000 == 7 {
                acc.sample((Hand(s.hands[i].to_vec()), Hand(s.hands[n - 1 - i].to_vec())));
            }
        },
        pair_order,
        no_shrink,
    );
    // Every five-card hand: in all orders (release build), or in a few orders chosen by the seed.
    let few = ctx.checked() && !ctx.thorough;
    ctx.exhaustive(
        "five-cards",
        !few,
        CHUNKS,
        |chunk, acc| {
            let d = deck();
            let e = evaluator();
            let mut hands = 0u64;
            let step = if few { 17 } else { 1 };
            each_hand(chunk, 5, &mut |h| {
                let code = model::score(h);
                let want = reps()[s.index(code)];
                let at = Cell::new(0usize);
                let r = guard(|| {
                    let start = if few { (mix(ctx.seed ^ chunk ^ hands) % step as u64) as usize } else { 0 };
                    for k in (start..120).step_by(step) {
                        at.set(k);
                        let p = ord[k];
                        let cs = [
                            d[h[p[0]] as usize],
                            d[h[p[1]] as usize],
                            d[h[p[2]] as usize],
                            d[h[p[3]] as usize],
                            d[h[p[4]] as usize],
                        ];
                        match e.evaluate(cs) {
                            Ok(got) if got == want && got.cmp(&want).is_eq() => {}
                            _ => return Err(String::new()),
                        }
                    }
                    Ok(None)
                });
                if let Err(m) = r {
                    let case: Vec<C> = ord[at.get()].iter().map(|&i| h[i]).collect();
                    let m = guard(|| strength_check(&case)).err().unwrap_or(m);
                    acc.fail(Hand(case), m);
                    return false;
                }
                hands += 1;
                acc.ok(model::CATEGORY[model::category(code) as usize], if few { 7 } else { 120 });
                true
            });
            if chunk == 52 * 10 + 20 {
                acc.sample(Hand(vec![10, 20, 30, 40, 50]));
            }
        },
        |h: &Hand| strength_check(&h.0),
        shrink_case(5),
    );
    // Pairs of close strengths, compared directly.
    ctx.random(
        "close-pairs",
        ctx.n(400_000, 4_000_000),
        || {
            (0usize..7462, -3i32..=3, suit_perm(), suit_perm(), Just([0usize, 1, 2, 3, 4].to_vec()).prop_shuffle(), any::<u16>()).prop_map(
                move |(i, delta, sa, sb, o, cat)| {
                    // Half of the pairs start from a category, so that rare categories are seen.
                    let i = if cat % 2 == 0 { i } else { (category_range(u32::from(cat) / 2 % 9).start + i % 40).min(7461) };
                    let j = (i as i32 + delta).clamp(0, 7461) as usize;
                    let s = model::strengths();
                    let a = o.iter().map(|&k| rename(s.hands[i][k], &sa)).collect();
                    let b = o.iter().rev().map(|&k| rename(s.hands[j][k], &sb)).collect();
                    (Hand(a), Hand(b))
                },
            )
        },
        pair_order,
    );
}
pub fn c01_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "strength-pairs" | "close-pairs" => replay(v, pair_order),
        _ => replay(v, |h: &Hand| strength_check(&h.0)),
    }
}

// ---------------------------------------------------------------- C02

/// Many cards around a planted five whose strength nothing else reaches without them.
#[derive(Debug, Clone)]
pub struct Plant {
    pub five: Vec<C>,
    pub all: Vec<C>,
}

pub fn planted(sizes: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Vec<C>> {
    (
        hand_of_category(),
        Just((0..52u8).collect::<Vec<_>>()).prop_shuffle(),
        sizes,
        0u8..6,
        Just((0..52u8).collect::<Vec<_>>()).prop_shuffle(),
    )
        .prop_map(|(five, pool, n, mode, key)| {
            let code = model::score(&five);
            let mut all = five.clone();
            let mut suits = [0u16; 4];
            for &c in &five {
                suits[model::suit(c) as usize] |= 1 << model::rank(c);
            }
            for c in pool {
                if all.len() >= n {
                    break;
                }
                if all.contains(&c) {
                    continue;
                }
                let mut t = suits;
                t[model::suit(c) as usize] |= 1 << model::rank(c);
                if model::score_masks(t) != code {
                    continue;
                }
                // Each planted card must stay indispensable.
                let needed = five.iter().all(|&x| {
                    let mut u = t;
                    u[model::suit(x) as usize] &= !(1 << model::rank(x));
                    model::score_masks(u) < code
                });
                if needed {
                    suits = t;
                    all.push(c);
                }
            }
            // Positions: anywhere, all first, all last, or split between the ends.
            let rest: Vec<C> = {
                let mut v: Vec<C> = all[5..].to_vec();
                v.sort_by_key(|&c| key[c as usize]);
                v
            };
            match mode {
                0 => five.iter().copied().chain(rest).collect(),
                1 => rest.into_iter().chain(five.iter().copied()).collect(),
                2 => five[..2].iter().copied().chain(rest).chain(five[2..].iter().copied()).collect(),
                _ => {
                    let mut v = all;
                    v.sort_by_key(|&c| key[c as usize]);
                    v
                }
            }
        })
}

fn size_label(n: usize) -> &'static str {
    match n {
        0..=7 => "6-7 cards",
        8..=10 => "8-10 cards",
        11..=15 => "11-15 cards",
        16..=25 => "16-25 cards",
        26..=40 => "26-40 cards",
        _ => "41-52 cards",
    }
}

fn many_check(h: &Hand) -> Outcome {
    strength_and_class(&h.0)?;
    Ok(Some(size_label(h.0.len())))
}

fn all_hands(ctx: &Ctx, sub: &'static str, n: usize, every: u64) {
    let s = model::strengths();
    ctx.exhaustive(
        sub,
        every == 1,
        CHUNKS,
        |chunk, acc| {
            let d = deck();
            let e = evaluator();
            let mut buf = [0u8; 16];
            let mut cs = [d[0]; 16];
            let mut count = mix(chunk ^ ctx.seed) % every;
            each_hand(chunk, n, &mut |h| {
                count += 1;
                if count % every != 0 {
                    return true;
                }
                buf[..n].copy_from_slice(h);
                scramble(&mut buf[..n], ctx.seed);
                for i in 0..n {
                    cs[i] = d[buf[i] as usize];
                }
                let code = model::score(h);
                let want = reps()[s.index(code)];
                let r = guard(|| match e.evaluate(&cs[..n]) {
                    Ok(got) if got == want && class_key(got.class()) == class_key(want.class()) => Ok(None),
                    _ => Err(String::new()),
                });
                if let Err(m) = r {
                    let case = buf[..n].to_vec();
                    let m = guard(|| strength_and_class(&case)).err().unwrap_or(m);
                    acc.fail(Hand(case), m);
                    return false;
                }
                acc.ok(model::CATEGORY[model::category(code) as usize], 1);
                if acc.evals % 1009 == 1 {
                    acc.sample(Hand(buf[..n].to_vec()));
                }
                true
            });
        },
        |h: &Hand| strength_and_class(&h.0),
        shrink_case(6),
    );
}

pub fn c02(ctx: &Ctx) {
    let slow = ctx.checked() && !ctx.thorough;
    ctx.random_w("planted", ctx.n(16_000, 160_000), 8, || planted(6..=52).prop_map(Hand), many_check, shrink_case(6));
    ctx.random_w("any-small", ctx.n(400_000, 4_000_000), 8, || rich_hand(6..=11).prop_map(Hand), many_check, shrink_case(6));
    ctx.random_w("any-large", ctx.n(1_200, 12_000), 8, || hand_of(12..=52).prop_map(Hand), many_check, shrink_case(6));
    all_hands(ctx, "six-cards", 6, if slow { 5 } else { 1 });
    all_hands(ctx, "seven-cards", 7, if slow { 31 } else { 1 });
    if ctx.thorough {
        all_hands(ctx, "eight-cards", 8, if ctx.checked() { 97 } else { 1 });
        all_hands(ctx, "nine-cards", 9, if ctx.checked() { 4001 } else { 101 });
    }
}
pub fn c02_replay(_: &str, v: &Value) -> Outcome { replay(v, many_check) }

// ---------------------------------------------------------------- C03

pub fn predicates(e: Eval) -> [bool; 9] {
    [
        e.is_high_card(),
        e.is_pair(),
        e.is_two_pair(),
        e.is_three_of_a_kind(),
        e.is_straight(),
        e.is_flush(),
        e.is_full_house(),
        e.is_four_of_a_kind(),
        e.is_straight_flush(),
    ]
}

fn described(h: &Hand) -> Outcome {
    let code = model::score(&h.0);
    let cat = model::category(code);
    let e = evaluator().evaluate(cards(&h.0)).map_err(|e| format!("rejected: {e:?}"))?;
    describe(e, code)?;
    crate::glue::written(&e, &model::text(code))?;
    Ok(Some(model::CATEGORY[cat as usize]))
}

pub fn describe(e: Eval, code: u32) -> Result<(), String> {
    let cat = model::category(code);
    class_is(e, code)?;
    let p = predicates(e);
    for (i, &b) in p.iter().enumerate() {
        if b != (i as u32 == cat) {
            return Err(format!("predicate for '{}' says {b} of a {}", model::CATEGORY[i], model::CATEGORY[cat as usize]));
        }
    }
    let royal = cat == model::SFLUSH && model::deciding(code, 0) == 12;
    if e.is_royal_flush() != royal {
        return Err(format!("is_royal_flush is {}, expected {royal}", e.is_royal_flush()));
    }
    let text = model::text(code);
    if e.to_string() != text {
        return Err(format!("displays '{e}', expected '{text}'"));
    }
    if e.class().to_string() != text {
        return Err(format!("class displays '{}', expected '{text}'", e.class()));
    }
    Ok(())
}

fn class_text(c: &(u32, usize, usize)) -> Outcome {
    let v = class_value(c.0, RANKS[c.1], RANKS[c.2]);
    let want = model::class_text(c.0, c.1, c.2);
    if v.to_string() != want {
        return Err(format!("{v:?} displays '{v}', expected '{want}'"));
    }
    crate::glue::written(&v, &want)?;
    Ok(Some(model::CATEGORY[c.0 as usize]))
}

/// All class values that can be constructed (the second rank varies only where there is one).
pub fn all_classes() -> Vec<(u32, usize, usize)> {
    let mut v = vec![];
    for cat in 0..9 {
        for a in 0..13 {
            for b in 0..if cat == model::TWO_PAIR || cat == model::FULL { 13 } else { 1 } {
                v.push((cat, a, b));
            }
        }
    }
    v
}

pub fn c03(ctx: &Ctx) {
    let cls = all_classes();
    ctx.exhaustive(
        "class-text",
        true,
        cls.len() as u64,
        |i, acc| {
            let c = cls[i as usize];
            match guard(|| class_text(&c)) {
                Ok(t) => {
                    acc.ok(t.unwrap(), 1);
                    acc.sample(c);
                }
                Err(m) => acc.fail(c, m),
            }
        },
        class_text,
        no_shrink,
    );
    ctx.random_w("n-cards", ctx.n(300_000, 3_000_000), 8, || prop_oneof![rich_hand(5..=10), planted(5..=14)].prop_map(Hand), described, shrink_case(5));
    ctx.exhaustive(
        "five-cards",
        true,
        CHUNKS,
        |chunk, acc| {
            each_hand(chunk, 5, &mut |h| {
                let mut b = [0; 5];
                b.copy_from_slice(h);
                scramble(&mut b, ctx.seed);
                let d = deck();
                let code = model::score(h);
                let cs: [poker::Card; 5] = std::array::from_fn(|i| d[b[i] as usize]);
                let r = guard(|| {
                    let e = evaluator().evaluate(cs).map_err(|e| format!("rejected: {e:?}"))?;
                    describe(e, code).map(|_| None)
                });
                if let Err(m) = r {
                    acc.fail(Hand(b.to_vec()), m);
                    return false;
                }
                acc.ok(model::CATEGORY[model::category(code) as usize], 1);
                if acc.evals % 1009 == 1 {
                    acc.sample(Hand(b.to_vec()));
                }
                true
            });
        },
        described,
        shrink_case(5),
    );
    if ctx.thorough {
        ctx.exhaustive(
            "seven-cards",
            false,
            CHUNKS,
            |chunk, acc| {
                let mut k = mix(chunk ^ ctx.seed) % 7;
                each_hand(chunk, 7, &mut |h| {
                    k += 1;
                    if k % 7 != 0 {
                        return true;
                    }
                    let mut b = h.to_vec();
                    scramble(&mut b, ctx.seed);
                    match guard(|| described(&Hand(b.clone()))) {
                        Ok(t) => acc.ok(t.unwrap(), 1),
                        Err(m) => {
                            acc.fail(Hand(b), m);
                            return false;
                        }
                    }
                    true
                });
            },
            described,
            shrink_case(5),
        );
    }
}
pub fn c03_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "class-text" => replay(v, class_text),
        _ => replay(v, described),
    }
}

// ---------------------------------------------------------------- C19

fn eval(h: &[C]) -> Result<Eval, String> {
    evaluator().evaluate(cards(h)).map_err(|e| format!("[{}] rejected: {e:?}", model::names(h)))
}
fn same(a: Eval, b: Eval) -> bool { a == b && a.class() == b.class() && a.to_string() == b.to_string() }

/// A growing chain: the first five cards, then one more at a time; evaluations must not fall.
fn chain(h: &Hand) -> Outcome {
    let h = &h.0;
    let mut prev = eval(&h[..5])?;
    let first = prev;
    for n in 6..=h.len() {
        let e = eval(&h[..n])?;
        if e < prev || e.is_worse_than(prev) {
            return Err(format!("[{}] is {prev}, but with {} it is the worse {e}", model::names(&h[..n - 1]), model::name(h[n - 1])));
        }
        prev = e;
    }
    Ok(Some(if prev > first { "improved" } else { "not improved" }))
}

/// A set, compared with all its five-card subsets and with what is left after removing spare cards.
fn subsets(c: &(Hand, u64)) -> Outcome {
    let (h, pick) = (&c.0 .0, c.1);
    let all = eval(h)?;
    let mut best: Option<(Eval, Vec<C>)> = None;
    let mut err = None;
    model::combos(h.len(), 5, |ix| {
        let s: Vec<C> = ix.iter().map(|&i| h[i]).collect();
        match eval(&s) {
            Err(m) => err = Some(m),
            Ok(e) => {
                if e > all {
                    err = Some(format!("[{}] is {e}, better than {all} of all the cards", model::names(&s)));
                } else if best.as_ref().map_or(true, |b| e > b.0) {
                    best = Some((e, s));
                }
            }
        }
        err.is_none()
    });
    if let Some(m) = err {
        return Err(m);
    }
    let (be, five) = best.unwrap();
    if !same(be, all) {
        return Err(format!("no five cards reach {all}: the best five [{}] are {be}", model::names(&five)));
    }
    // Remove cards outside that five, one after the other, in an order given by the case.
    let mut left = h.clone();
    let mut x = pick;
    loop {
        let spare: Vec<usize> = (0..left.len()).filter(|&i| !five.contains(&left[i])).collect();
        if spare.is_empty() {
            break;
        }
        let gone = left.remove(spare[(x % spare.len() as u64) as usize]);
        x = mix(x);
        let e = eval(&left)?;
        if !same(e, all) {
            return Err(format!("removing the unused {} leaves [{}], which is {e} instead of {all}", model::name(gone), model::names(&left)));
        }
    }
    Ok(Some(size_label(h.len())))
}

/// Hands against a board: hole cards and board together are at least as good as the board.
fn board(c: &(Hand, Vec<Hand>)) -> Outcome {
    let b = eval(&c.0 .0)?;
    for hole in &c.1 {
        let boxed = poker::box_cards!(cards(&hole.0), cards(&c.0 .0));
        let e = evaluator().evaluate(boxed).map_err(|e| format!("rejected: {e:?}"))?;
        if e < b {
            return Err(format!("[{:?}] with the board [{:?}] is {e}, worse than the board's {b}", hole, c.0));
        }
        // The same with the board first.
        let f = evaluator().evaluate(poker::box_cards!(cards(&c.0 .0), cards(&hole.0))).map_err(|e| format!("rejected: {e:?}"))?;
        if !same(e, f) {
            return Err(format!("[{:?}] before the board gives {e}, after it {f}", hole));
        }
    }
    Ok(Some("board"))
}

pub fn c19(ctx: &Ctx) {
    ctx.random_w(
        "subsets",
        ctx.n(60_000, 600_000),
        8,
        || (prop_oneof![2 => rich_hand(5..=10), 2 => planted(6..=12), 1 => rich_hand(11..=14)].prop_map(Hand), any::<u64>()),
        subsets,
        |c, f| (Hand(shrink_hand(c.0 .0.clone(), 5, &|g| f(&(Hand(g.to_vec()), c.1)))), c.1),
    );
    ctx.random_w("chain", ctx.n(40_000, 400_000), 8, || rich_hand(6..=16).prop_map(Hand), chain, shrink_case(5));
    ctx.random_w("chain-planted", ctx.n(2_000, 20_000), 8, || planted(10..=30).prop_map(Hand), chain, shrink_case(5));
    ctx.random_w("chain-long", ctx.n(64, 640), 8, || hand_of(20..=52).prop_map(Hand), chain, shrink_case(5));
    ctx.random(
        "board",
        ctx.n(60_000, 600_000),
        || rich_hand(9..=17).prop_map(|h| (Hand(h[..5].to_vec()), h[5..].chunks_exact(2).map(|c| Hand(c.to_vec())).collect::<Vec<_>>())),
        board,
    );
}
pub fn c19_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "subsets" => replay(v, subsets),
        "board" => replay(v, board),
        _ => replay(v, chain),
    }
}
