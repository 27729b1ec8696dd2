//! C04, C05, C13: comparison of evaluations, of classes, of cards and ranks.

use std::{
    cmp::Ordering,
    collections::{hash_map::DefaultHasher, BTreeMap, BTreeSet, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
};

use poker::{Card, Eval};
use proptest::prelude::*;
use serde_json::Value;

use crate::{
    driver::{guard, no_shrink, replay, Ctx, Outcome},
    glue::*,
    model::{self, C},
    props_rank::{all_classes, each_hand, planted, scramble, CHUNKS},
};

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// All operators of `Ord`, `PartialOrd` and (given) equality agree with `want`.
#[inline]
fn operators<T: Ord + Copy + Debug>(a: T, b: T, want: Ordering, eq: bool) -> Result<(), String> {
    let bad = |op: &str, got: String| Err(format!("{op} of {a:?} and {b:?} gives {got}, expected order {want:?}"));
    if a.cmp(&b) != want {
        return bad("cmp", format!("{:?}", a.cmp(&b)));
    }
    if a.partial_cmp(&b) != Some(want) {
        return bad("partial_cmp", format!("{:?}", a.partial_cmp(&b)));
    }
    if (a < b) != (want == Ordering::Less) {
        return bad("<", format!("{}", a < b));
    }
    if (a <= b) != (want != Ordering::Greater) {
        return bad("<=", format!("{}", a <= b));
    }
    if (a > b) != (want == Ordering::Greater) {
        return bad(">", format!("{}", a > b));
    }
    if (a >= b) != (want != Ordering::Less) {
        return bad(">=", format!("{}", a >= b));
    }
    if (a == b) != eq {
        return bad("==", format!("{}", a == b));
    }
    if (a != b) == eq {
        return bad("!=", format!("{}", a != b));
    }
    let (mx, mn) = (a.max(b), a.min(b));
    let (hi, lo) = if want == Ordering::Greater { (a, b) } else { (b, a) };
    if mx.cmp(&hi) != Ordering::Equal || (want != Ordering::Equal && mx != hi) {
        return bad("max", format!("{mx:?}"));
    }
    if mn.cmp(&lo) != Ordering::Equal || (want != Ordering::Equal && mn != lo) {
        return bad("min", format!("{mn:?}"));
    }
    Ok(())
}

fn eval_operators(a: Eval, b: Eval, want: Ordering) -> Result<(), String> {
    operators(a, b, want, want == Ordering::Equal)?;
    if a.is_better_than(b) != (want == Ordering::Greater) {
        return Err(format!("is_better_than of {a:?} and {b:?} gives {}", a.is_better_than(b)));
    }
    if a.is_worse_than(b) != (want == Ordering::Less) {
        return Err(format!("is_worse_than of {a:?} and {b:?} gives {}", a.is_worse_than(b)));
    }
    if a.is_equal_to(b) != (want == Ordering::Equal) {
        return Err(format!("is_equal_to of {a:?} and {b:?} gives {}", a.is_equal_to(b)));
    }
    if want == Ordering::Equal && hash_of(&a) != hash_of(&b) {
        return Err(format!("{a:?} and {b:?} are equal but hash differently"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn eval(h: &[C]) -> Result<Eval, String> {
    evaluator().evaluate(cards(h)).map_err(|e| format!("[{}] rejected: {e:?}", model::names(h)))
}

/// The order is judged against the library's own `cmp` with all 7462 strengths (whether that order is
/// the one of the rules is for C01 and C02 to say): every interface must agree with these places.
fn pair(p: &(Hand, Hand)) -> Outcome {
    let (x, y) = (eval(&p.0 .0)?, eval(&p.1 .0)?);
    let (a, b) = (place(x), place(y));
    eval_operators(x, y, a.cmp(&b))?;
    Ok(Some(if a == b { "tie" } else { "decided" }))
}

/// Several hands: every pair, sorting, extremes and collections, against the model.
fn table(hs: &Vec<Hand>) -> Outcome {
    let mut v: Vec<(usize, Eval, usize)> = vec![];
    for (i, h) in hs.iter().enumerate() {
        let e = eval(&h.0)?;
        v.push((place(e), e, i));
    }
    for a in &v {
        for b in &v {
            eval_operators(a.1, b.1, a.0.cmp(&b.0))?;
        }
    }
    let mut by_eval = v.clone();
    by_eval.sort_by_key(|x| x.1);
    let mut by_code = v.clone();
    by_code.sort_by_key(|x| x.0);
    if by_eval.iter().map(|x| x.0).ne(by_code.iter().map(|x| x.0)) {
        return Err("sorting by evaluation is not sorting by strength".into());
    }
    // Both sorts are stable, so ties must keep their places too.
    if by_eval.iter().map(|x| x.2).ne(by_code.iter().map(|x| x.2)) {
        return Err("sorting by evaluation moves tied hands".into());
    }
    let mut plain: Vec<Eval> = v.iter().map(|x| x.1).collect();
    plain.sort_unstable();
    if plain.windows(2).any(|w| w[0] > w[1]) {
        return Err("sort_unstable leaves a descent".into());
    }
    let distinct: BTreeSet<usize> = v.iter().map(|x| x.0).collect();
    let hashed: HashSet<Eval> = v.iter().map(|x| x.1).collect();
    if hashed.len() != distinct.len() {
        return Err(format!("a hash set keeps {} of {} distinct strengths", hashed.len(), distinct.len()));
    }
    let tree: BTreeMap<Eval, usize> = v.iter().map(|x| (x.1, x.0)).collect();
    if tree.len() != distinct.len() || tree.values().copied().ne(distinct.iter().copied()) {
        return Err("an ordered map keyed by evaluation does not hold the distinct strengths in order".into());
    }
    let top = *distinct.iter().next_back().unwrap();
    let folded = v.iter().map(|x| x.1).fold(Eval::WORST, std::cmp::max);
    let by_const = v.iter().map(|x| x.1).fold(Eval::WORST, |a, b| if b.is_better_than(a) { b } else { a });
    let max = v.iter().map(|x| x.1).max().unwrap();
    for (n, e) in [("fold with max from WORST", folded), ("is_better_than", by_const), ("Iterator::max", max)] {
        if place(e) != top || !v.iter().any(|x| x.1 == e) {
            return Err(format!("best by {n} is {e}, not the greatest"));
        }
    }
    let low = *distinct.iter().next().unwrap();
    let folded = v.iter().map(|x| x.1).fold(Eval::BEST, std::cmp::min);
    if place(folded) != low || !v.iter().any(|x| x.1 == folded) {
        return Err(format!("worst by fold with min from BEST is {folded}, not the least"));
    }
    let (lo, hi) = (v[0].1.min(v[v.len() - 1].1), v[0].1.max(v[v.len() - 1].1));
    for x in &v {
        let c = x.1.clamp(lo, hi);
        if c < lo || c > hi || (x.1 >= lo && x.1 <= hi && c != x.1) {
            return Err("clamp leaves its bounds".into());
        }
    }
    Ok(Some(if distinct.len() < v.len() { "with ties" } else { "all different" }))
}

fn extremes(h: &Hand) -> Outcome {
    let e = eval(&h.0)?;
    let code = model::score(&h.0);
    let s = model::strengths();
    let (first, last) = (s.codes[0], s.codes[7461]);
    // Below BEST and above WORST, and equal to them exactly for these hands.
    eval_operators(e, Eval::BEST, code.cmp(&last)).map_err(|m| format!("against BEST: {m}"))?;
    eval_operators(Eval::BEST, e, last.cmp(&code)).map_err(|m| format!("BEST against it: {m}"))?;
    eval_operators(e, Eval::WORST, code.cmp(&first)).map_err(|m| format!("against WORST: {m}"))?;
    eval_operators(Eval::WORST, e, first.cmp(&code)).map_err(|m| format!("WORST against it: {m}"))?;
    // All interfaces, the hash included, agree about it and the representative of its strength.
    let rep = reps()[s.index(code)];
    eval_operators(e, rep, place(e).cmp(&place(rep))).map_err(|m| format!("against an equal hand: {m}"))?;
    Ok(Some(if code == last {
        "royal flush"
    } else if code == first {
        "worst hand"
    } else {
        "between"
    }))
}

pub fn c04(ctx: &Ctx) {
    let s = model::strengths();
    ctx.exhaustive(
        "strength-pairs",
        true,
        7462,
        |i, acc| {
            let i = i as usize;
            let place = &places().0;
            for j in 0..7462 {
                if let Err(_) = eval_operators(reps()[i], reps()[j], place[i].cmp(&place[j])) {
                    let c = (Hand(s.hands[i].to_vec()), Hand(s.hands[j].to_vec()));
                    let m = guard(|| pair(&c)).err().unwrap_or_default();
                    return acc.fail(c, m);
                }
            }
            acc.ok("pair of strengths", 7462);
            if i % 1000 == 7 {
                acc.sample((Hand(s.hands[i].to_vec()), Hand(s.hands[7461 - i].to_vec())));
            }
        },
        pair,
        no_shrink,
    );
    ctx.exhaustive(
        "extremes-and-hash",
        true,
        CHUNKS,
        |chunk, acc| {
            each_hand(chunk, 5, &mut |h| {
                let mut b = h.to_vec();
                scramble(&mut b, ctx.seed);
                let c = Hand(b);
                match guard(|| extremes(&c)) {
                    Ok(t) => acc.ok(t.unwrap(), 1),
                    Err(m) => {
                        acc.fail(c, m);
                        return false;
                    }
                }
                if acc.evals % 1009 == 1 {
                    acc.sample(c);
                }
                true
            });
        },
        extremes,
        shrink_case(5),
    );
    ctx.random(
        "pairs-of-hands",
        ctx.n(300_000, 3_000_000),
        || {
            let one = || prop_oneof![2 => rich_hand(5..=9), 1 => planted(5..=12)];
            prop_oneof![
                3 => (one(), one()).prop_map(|(a, b)| (Hand(a), Hand(b))),
                // The same board with different hole cards: kickers and ties.
                3 => rich_hand(9..=9).prop_map(|h| (Hand(h[..7].to_vec()), Hand(h[2..].to_vec()))),
                // The same ranks in other suits.
                2 => (one(), suit_perm()).prop_map(|(a, p)| (Hand(a.clone()), Hand(a.iter().map(|&c| rename(c, &p)).collect()))),
            ]
        },
        pair,
    );
    ctx.random(
        "tables-of-hands",
        ctx.n(40_000, 400_000),
        || {
            proptest::collection::vec(prop_oneof![3 => rich_hand(5..=8), 2 => hand_of_category(), 1 => planted(6..=10)].prop_map(Hand), 2..12)
        },
        table,
    );
    ctx.random("extremes-many-cards", ctx.n(40_000, 400_000), || prop_oneof![rich_hand(5..=9), planted(6..=20)].prop_map(Hand), extremes);
}
pub fn c04_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "tables-of-hands" => replay(v, table),
        "extremes-and-hash" | "extremes-many-cards" => replay(v, extremes),
        _ => replay(v, pair),
    }
}

// ---------------------------------------------------------------- C05

type K = (u32, usize, usize);
fn class_pair(c: &(K, K)) -> Outcome {
    let (a, b) = (c.0, c.1);
    operators(class_value(a.0, RANKS[a.1], RANKS[a.2]), class_value(b.0, RANKS[b.1], RANKS[b.2]), a.cmp(&b), a == b)?;
    Ok(Some(if a.0 == b.0 { "same category" } else { "different category" }))
}

fn class_strength(p: &(Hand, Hand)) -> Outcome {
    let (ea, eb) = (eval(&p.0 .0)?, eval(&p.1 .0)?);
    class_vs_eval(ea, eb)?;
    let (a, b) = (class_key(ea.class()), class_key(eb.class()));
    operators(ea.class(), eb.class(), a.cmp(&b), a == b)?;
    Ok(Some(if a == b {
        "same class"
    } else if a.0 == b.0 {
        "same category, other ranks"
    } else {
        "other category"
    }))
}

/// The relation stated by the property, between the two orders of the library itself.
fn class_vs_eval(a: Eval, b: Eval) -> Result<(), String> {
    if a.class() > b.class() && !(a > b && a.is_better_than(b)) {
        return Err(format!("class {:?} > {:?} but hand {a} is not better than {b}", a.class(), b.class()));
    }
    if a.class() < b.class() && !(a < b && a.is_worse_than(b)) {
        return Err(format!("class {:?} < {:?} but hand {a} is not worse than {b}", a.class(), b.class()));
    }
    if a == b && a.class() != b.class() {
        return Err(format!("equal hands with classes {:?} and {:?}", a.class(), b.class()));
    }
    Ok(())
}

pub fn c05(ctx: &Ctx) {
    let cls = all_classes();
    ctx.exhaustive(
        "class-pairs",
        true,
        cls.len() as u64,
        |i, acc| {
            let a = cls[i as usize];
            for &b in &cls {
                match guard(|| class_pair(&(a, b))) {
                    Ok(t) => acc.ok(t.unwrap(), 1),
                    Err(m) => return acc.fail((a, b), m),
                }
            }
            acc.sample((a, cls[cls.len() - 1 - i as usize]));
        },
        class_pair,
        no_shrink,
    );
    let s = model::strengths();
    ctx.exhaustive(
        "strength-pairs",
        true,
        7462,
        |i, acc| {
            let i = i as usize;
            let ea = reps()[i];
            let ca = ea.class();
            let ka = class_key(ca);
            for j in 0..7462 {
                let eb = reps()[j];
                let kb = class_key(eb.class());
                if class_vs_eval(ea, eb).is_err() || operators(ca, eb.class(), ka.cmp(&kb), ka == kb).is_err() {
                    let c = (Hand(s.hands[i].to_vec()), Hand(s.hands[j].to_vec()));
                    let m = guard(|| class_strength(&c)).err().unwrap_or_default();
                    return acc.fail(c, m);
                }
            }
            acc.ok("pair of strengths", 7462);
            if i % 1000 == 7 {
                acc.sample((Hand(s.hands[i].to_vec()), Hand(s.hands[7461 - i].to_vec())));
            }
        },
        class_strength,
        no_shrink,
    );
    // Equal strength means equal class, whichever hand it comes from.
    ctx.exhaustive(
        "class-of-every-hand",
        true,
        CHUNKS,
        |chunk, acc| {
            each_hand(chunk, 5, &mut |h| {
                let code = model::score(h);
                let r = guard(|| {
                    let e = evaluator().evaluate(cards(h)).map_err(|e| format!("rejected: {e:?}"))?;
                    class_vs_eval(e, reps()[s.index(code)])?;
                    Ok(None)
                });
                if let Err(m) = r {
                    acc.fail((Hand(h.to_vec()), Hand(s.hands[s.index(code)].to_vec())), m);
                    return false;
                }
                acc.ok("hand against its representative", 1);
                true
            });
        },
        class_strength,
        no_shrink,
    );
    ctx.random(
        "pairs-of-hands",
        ctx.n(300_000, 3_000_000),
        || {
            let one = || prop_oneof![2 => rich_hand(5..=9), 1 => planted(5..=12), 2 => hand_of_category()];
            prop_oneof![
                3 => (one(), one()).prop_map(|(a, b)| (Hand(a), Hand(b))),
                2 => rich_hand(9..=9).prop_map(|h| (Hand(h[..7].to_vec()), Hand(h[2..].to_vec()))),
                // Close strengths, where class and kickers part.
                3 => (0usize..7462, -40i32..=40).prop_map(|(i, d)| {
                    let s = model::strengths();
                    let j = (i as i32 + d).clamp(0, 7461) as usize;
                    (Hand(s.hands[i].to_vec()), Hand(s.hands[j].to_vec()))
                }),
            ]
        },
        class_strength,
    );
}
pub fn c05_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "class-pairs" => replay(v, class_pair),
        _ => replay(v, class_strength),
    }
}

// ---------------------------------------------------------------- C13

/// Signature of the known finding: same rank, other suit, compares equal (see KNOWN_FINDINGS.txt).
pub const SAME_RANK: &str = "same-rank-cards-compare-equal";

/// Consistency of everything but the agreement of `Equal` with `==`.
fn card_pair(p: &(Hand, Hand)) -> Result<Option<&'static str>, (bool, String)> {
    let (a, b) = (p.0 .0[0], p.1 .0[0]);
    let (x, y) = (card(a), card(b));
    let got = x.cmp(&y);
    let ranks = model::rank(a).cmp(&model::rank(b));
    // All operators tell the story of `cmp`, and equality is identity.
    operators(x, y, got, a == b).map_err(|m| (false, m))?;
    if y.cmp(&x) != got.reverse() {
        return Err((false, format!("{x} and {y}: comparison is not antisymmetric")));
    }
    if ranks != Ordering::Equal && got != ranks {
        return Err((false, format!("{x} compares {got:?} with {y}")));
    }
    if a == b && got != Ordering::Equal {
        return Err((false, format!("{x} compares {got:?} with itself")));
    }
    if a != b && got == Ordering::Equal {
        return Err((true, format!("{x} and {y} are different but compare Equal")));
    }
    Ok(Some(if ranks == Ordering::Equal { "same rank" } else { "different rank" }))
}

pub fn finding_listed(property: &str, signature: &str) -> bool {
    let path = std::env::var("PC_FINDINGS").unwrap_or_else(|_| "/verif/KNOWN_FINDINGS.txt".into());
    std::fs::read_to_string(path).unwrap_or_default().lines().any(|l| {
        l.starts_with("open:")
            && l.split_whitespace().any(|w| w == format!("property={property}"))
            && l.split_whitespace().any(|w| w == format!("signature={signature}"))
    })
}

fn card_pair_listed(p: &(Hand, Hand)) -> Outcome {
    match card_pair(p) {
        Ok(t) => Ok(t),
        Err((true, _)) if finding_listed("C13", SAME_RANK) => Ok(Some("known finding")),
        Err((_, m)) => Err(m),
    }
}

fn card_triple(t: &Hand) -> Outcome {
    let c: Vec<Card> = cards(&t.0);
    let (x, y, z) = (c[0], c[1], c[2]);
    if x <= y && y <= z && !(x <= z) || x < y && y <= z && !(x < z) || x <= y && y < z && !(x < z) {
        return Err(format!("{x} {y} {z}: not transitive"));
    }
    if x.cmp(&y).is_eq() && x.cmp(&z) != y.cmp(&z) {
        return Err(format!("{x} and {y} compare Equal but differently with {z}"));
    }
    Ok(Some("triple"))
}

fn card_sort(h: &Hand) -> Outcome {
    let mut v = cards(&h.0);
    v.sort();
    let mut u = cards(&h.0);
    u.sort_unstable_by(|a, b| b.cmp(a));
    let r = |v: &[Card]| v.iter().map(|c| rank_no(c.rank())).collect::<Vec<_>>();
    let mut want: Vec<usize> = h.0.iter().map(|&c| model::rank(c) as usize).collect();
    want.sort_unstable();
    if r(&v) != want {
        return Err(format!("sorted to {}", model::names(&uncards(&v))));
    }
    want.reverse();
    if r(&u) != want {
        return Err(format!("sorted downwards to {}", model::names(&uncards(&u))));
    }
    let same = |v: &[Card]| {
        let mut a = uncards(v);
        a.sort_unstable();
        let mut b = h.0.clone();
        b.sort_unstable();
        a == b
    };
    if !same(&v) || !same(&u) {
        return Err("sorting changes the cards".into());
    }
    if let (Some(mx), Some(mn)) = (cards(&h.0).into_iter().max(), cards(&h.0).into_iter().min()) {
        if rank_no(mx.rank()) != want[0] || rank_no(mn.rank()) != want[want.len() - 1] {
            return Err(format!("max {mx}, min {mn}"));
        }
    }
    Ok(if h.0.len() > 1 { Some("list of cards") } else { None })
}

fn rank_pair(p: &(usize, usize)) -> Outcome {
    operators(RANKS[p.0], RANKS[p.1], p.0.cmp(&p.1), p.0 == p.1)?;
    if p.0 == p.1 && hash_of(&RANKS[p.0]) != hash_of(&RANKS[p.1]) {
        return Err("equal ranks hash differently".into());
    }
    Ok(Some("ranks"))
}

pub fn c13(ctx: &Ctx) {
    ctx.exhaustive(
        "rank-pairs",
        true,
        169,
        |i, acc| {
            let c = (i as usize / 13, i as usize % 13);
            match guard(|| rank_pair(&c)) {
                Ok(_) => acc.ok("pair of ranks", 1),
                Err(m) => acc.fail(c, m),
            }
        },
        rank_pair,
        no_shrink,
    );
    let listed = finding_listed("C13", SAME_RANK);
    ctx.exhaustive(
        "card-pairs",
        true,
        52 * 52,
        |i, acc| {
            let c = (Hand(vec![(i / 52) as u8]), Hand(vec![(i % 52) as u8]));
            let mut known = None;
            let o = guard(|| {
                card_pair(&c).or_else(|(equal, m)| {
                    if equal && listed {
                        known = Some(m);
                        Ok(Some("known finding"))
                    } else {
                        Err(m)
                    }
                })
            });
            if let Some(m) = known {
                ctx.finding(SAME_RANK, m);
            }
            match o {
                Ok(t) => {
                    acc.ok(t.unwrap(), 1);
                    acc.sample(c);
                }
                Err(m) => acc.fail(c, m),
            }
        },
        card_pair_listed,
        no_shrink,
    );
    ctx.exhaustive(
        "card-triples",
        true,
        52,
        |i, acc| {
            for j in 0..52 {
                for k in 0..52 {
                    let c = Hand(vec![i as u8, j, k]);
                    match guard(|| card_triple(&c)) {
                        Ok(_) => acc.ok("triple of cards", 1),
                        Err(m) => return acc.fail(c, m),
                    }
                }
            }
        },
        card_triple,
        no_shrink,
    );
    ctx.random("sorting", ctx.n(100_000, 1_000_000), || proptest::collection::vec(a_card(), 0..60).prop_map(Hand), card_sort);
}
pub fn c13_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "rank-pairs" => replay(v, rank_pair),
        "card-pairs" => replay(v, card_pair_listed),
        "card-triples" => replay(v, card_triple),
        _ => replay(v, card_sort),
    }
}
