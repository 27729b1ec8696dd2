//! C07 (invariance) and C08 (evaluators without state).

use std::{
    borrow::Cow,
    rc::Rc,
    sync::{Arc, Barrier},
};

use poker::{Card, Eval, EvalError, Evaluator};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::{
    driver::{guard, no_shrink, replay, Ctx, Outcome},
    glue::*,
    model::{self, mix, C},
    props_rank::{each_hand, planted, scramble, CHUNKS},
};

type R = Result<Eval, EvalError>;

fn eval_in(ev: &Evaluator, h: &[C]) -> R { ev.evaluate(cards(h)) }

/// The same evaluation, or the same kind of error.
fn same_outcome(a: &R, b: &R) -> Result<(), String> {
    let same = match (a, b) {
        (Ok(x), Ok(y)) => x == y && x.cmp(y).is_eq() && x.class() == y.class() && x.to_string() == y.to_string(),
        (Err(EvalError::InvalidHandSize(x)), Err(EvalError::InvalidHandSize(y))) => x == y,
        (Err(EvalError::CardsNotUnique(x)), Err(EvalError::CardsNotUnique(y))) => x.len() == y.len(),
        _ => false,
    };
    if same {
        Ok(())
    } else {
        Err(format!("{} against {}", show(a), show(b)))
    }
}

// ---------------------------------------------------------------- C07

struct Custom(Vec<Card>, usize);
impl AsRef<[Card]> for Custom {
    fn as_ref(&self) -> &[Card] { &self.0[self.1..] }
}

fn through_containers(h: &[C], want: &R) -> Result<(), String> {
    let ev = evaluator();
    let v = cards(h);
    let mut tail = vec![card(0), card(51)];
    tail.extend(&v);
    let mut all: Vec<(&str, R)> = vec![
        ("Vec", ev.evaluate(v.clone())),
        ("&Vec", ev.evaluate(&v)),
        ("slice", ev.evaluate(&v[..])),
        ("inner slice", ev.evaluate(&tail[2..])),
        ("Box", ev.evaluate(v.clone().into_boxed_slice())),
        ("&Box", ev.evaluate(&v.clone().into_boxed_slice())),
        ("Rc", ev.evaluate(Rc::<[Card]>::from(&v[..]))),
        ("Arc", ev.evaluate(Arc::<[Card]>::from(&v[..]))),
        ("borrowed Cow", ev.evaluate(Cow::Borrowed(&v[..]))),
        ("owned Cow", ev.evaluate(Cow::<[Card]>::Owned(v.clone()))),
        ("custom type", ev.evaluate(Custom(tail.clone(), 2))),
        ("&mut Vec", ev.evaluate(&mut v.clone())),
    ];
    macro_rules! arrays {
        ($($n:literal)*) => {
            match v.len() {
                $($n => {
                    let a: [Card; $n] = v.clone().try_into().unwrap();
                    all.push(("array", ev.evaluate(a)));
                    all.push(("&array", ev.evaluate(&a)));
                    all.push(("&&array", ev.evaluate(&&a)));
                })*
                _ => {}
            }
        };
    }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12);
    for (n, r) in &all {
        same_outcome(want, r).map_err(|m| format!("vector {n}: {m}"))?;
        if let (Err(a), Err(b)) = (want, r) {
            if a != b {
                return Err(format!("{n}: another error"));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Renamed {
    hand: Hand,
    order: Vec<usize>,
    suits: Vec<u8>,
}

fn apply(c: &Renamed) -> Vec<C> {
    let mut out: Vec<C> = vec![];
    for &i in &c.order {
        if i < c.hand.0.len() {
            out.push(c.hand.0[i]);
        }
    }
    out.iter().map(|&x| rename(x, &c.suits)).collect()
}

fn renamed(c: &Renamed) -> Outcome {
    let g = apply(c);
    let a = eval_in(evaluator(), &c.hand.0);
    let b = eval_in(evaluator(), &g);
    same_outcome(&a, &b).map_err(|m| format!("[{}] and [{}]: {m}", model::names(&c.hand.0), model::names(&g)))?;
    through_containers(&c.hand.0, &a)?;
    through_containers(&g, &b)?;
    let moved = g != c.hand.0;
    Ok(match (&a, moved) {
        (_, false) => None,
        (Ok(_), _) if c.hand.0.len() == 5 => Some("five cards"),
        (Ok(_), _) if c.hand.0.len() <= 7 => Some("six or seven cards"),
        (Ok(_), _) => Some("eight or more cards"),
        (Err(EvalError::InvalidHandSize(_)), _) => Some("too few"),
        (Err(EvalError::CardsNotUnique(_)), _) => Some("not unique"),
    })
}

fn all_perms<const N: usize>() -> Vec<[usize; N]> {
    let mut out = vec![];
    fn rec<const N: usize>(p: &mut [usize; N], k: usize, out: &mut Vec<[usize; N]>) {
        if k == N {
            out.push(*p);
            return;
        }
        for i in k..N {
            p.swap(k, i);
            rec(p, k + 1, out);
            p.swap(k, i);
        }
    }
    rec(&mut std::array::from_fn(|i| i), 0, &mut out);
    out
}

fn renamed_light(c: &Renamed) -> Outcome {
    let g = apply(c);
    let (a, b) = (eval_in(evaluator(), &c.hand.0), eval_in(evaluator(), &g));
    same_outcome(&a, &b).map_err(|m| format!("[{}] and [{}]: {m}", model::names(&c.hand.0), model::names(&g)))?;
    Ok(Some("renamed"))
}

fn a_slice(max: usize) -> impl Strategy<Value = Vec<C>> {
    prop_oneof![
        6 => rich_hand(5..=9),
        2 => hand_of_category(),
        3 => planted(6..=max),
        1 => rich_hand(0..=4),
        2 => proptest::collection::vec(a_card(), 0..12),
        2 => (rich_hand(4..=9), any::<prop::sample::Index>()).prop_map(|(mut h, i)| { let c = h[i.index(h.len())]; h.push(c); h }),
    ]
}

fn a_renaming(h: impl Strategy<Value = Vec<C>>) -> impl Strategy<Value = Renamed> {
    h.prop_flat_map(|h| {
        let n = h.len();
        (Just(h), Just((0..n).collect::<Vec<_>>()).prop_shuffle(), suit_perm())
            .prop_map(|(h, order, suits)| Renamed { hand: Hand(h), order, suits })
    })
}

pub fn c07(ctx: &Ctx) {
    let suits = all_perms::<4>();
    // Every five-card hand with every renaming of suits, each in its own order.
    ctx.exhaustive(
        "five-cards-all-suit-renamings",
        true,
        CHUNKS,
        |chunk, acc| {
            each_hand(chunk, 5, &mut |h| {
                let base: [Card; 5] = std::array::from_fn(|i| card(h[i]));
                let a = match guard_eval(&base) {
                    Ok(Ok(e)) => e,
                    _ => {
                        acc.fail(Renamed { hand: Hand(h.to_vec()), order: vec![0, 1, 2, 3, 4], suits: vec![0, 1, 2, 3] }, "rejected".into());
                        return false;
                    }
                };
                for (k, p) in suits.iter().enumerate().skip(1) {
                    let mut ord = [0u8, 1, 2, 3, 4];
                    scramble(&mut ord, ctx.seed ^ mix(k as u64 ^ u64::from(h[0]) << 8 ^ u64::from(h[4]) << 16));
                    let g: [Card; 5] = std::array::from_fn(|i| {
                        let c = h[ord[i] as usize];
                        card(model::mk(model::rank(c), p[model::suit(c) as usize] as u8))
                    });
                    let ok = matches!(guard_eval(&g), Ok(Ok(b)) if a == b && a.class() == b.class());
                    if !ok {
                        let c = Renamed {
                            hand: Hand(h.to_vec()),
                            order: ord.iter().map(|&x| x as usize).collect(),
                            suits: p.iter().map(|&x| x as u8).collect(),
                        };
                        let m = guard(|| renamed_light(&c)).err().unwrap_or_else(|| "only in this run".into());
                        acc.fail(c, m);
                        return false;
                    }
                }
                acc.ok("hand and renaming", 23);
                true
            });
        },
        renamed_light,
        no_shrink,
    );
    // Every strength in all 120 orders.
    let ord = all_perms::<5>();
    let s = model::strengths();
    ctx.exhaustive(
        "all-orders-of-every-strength",
        true,
        7462,
        |i, acc| {
            let h = s.hands[i as usize];
            for o in &ord {
                let c = Renamed { hand: Hand(h.to_vec()), order: o.to_vec(), suits: vec![0, 1, 2, 3] };
                match guard(|| renamed_light(&c)) {
                    Ok(_) => acc.ok("order of a hand", 1),
                    Err(m) => return acc.fail(c, m),
                }
                if acc.evals % 5001 == 77 {
                    acc.sample(c);
                }
            }
        },
        renamed_light,
        no_shrink,
    );
    // Six and seven cards in all their orders.
    let six = all_perms::<6>();
    let seven = all_perms::<7>();
    ctx.random(
        "all-orders-of-six-or-seven",
        ctx.n(1_600, 16_000),
        || (prop_oneof![rich_hand(6..=7), planted(6..=7)]).prop_map(Hand),
        |h: &Hand| {
            let a = eval_in(evaluator(), &h.0);
            let go = |o: &[usize]| {
                let g: Vec<C> = o.iter().map(|&i| h.0[i]).collect();
                let b = eval_in(evaluator(), &g);
                match (&a, &b) {
                    (Ok(x), Ok(y)) if x == y && x.class() == y.class() => Ok(()),
                    _ => same_outcome(&a, &b).map_err(|m| format!("in the order [{}]: {m}", model::names(&g))),
                }
            };
            if h.0.len() == 6 {
                for o in &six {
                    go(o)?;
                }
            } else if h.0.len() == 7 {
                for o in seven.iter().step_by(7) {
                    go(o)?;
                }
            }
            Ok(Some("all orders"))
        },
    );
    ctx.random("renamed-and-reordered", ctx.n(250_000, 2_500_000), || a_renaming(a_slice(12)), renamed);
    ctx.random("renamed-large", ctx.n(600, 8_000), || a_renaming(prop_oneof![9 => planted(13..=24), 1 => rich_hand(30..=52)]), |c: &Renamed| {
        renamed_light(c)?;
        Ok(Some("large"))
    });
}
fn guard_eval(h: &[Card; 5]) -> Result<R, ()> {
    std::panic::catch_unwind(|| evaluator().evaluate(h)).map_err(|_| ())
}
pub fn c07_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "five-cards-all-suit-renamings" | "all-orders-of-every-strength" | "renamed-large" => replay(v, renamed_light),
        "all-orders-of-six-or-seven" => replay(v, |h: &Hand| {
            let a = eval_in(evaluator(), &h.0);
            for o in all_perms::<6>().iter().map(|o| o.to_vec()).chain(all_perms::<7>().iter().map(|o| o.to_vec())) {
                if o.len() == h.0.len() {
                    let g: Vec<C> = o.iter().map(|&i| h.0[i]).collect();
                    same_outcome(&a, &eval_in(evaluator(), &g)).map_err(|m| format!("in the order [{}]: {m}", model::names(&g)))?;
                }
            }
            Ok(None)
        }),
        _ => replay(v, renamed),
    }
}

// ---------------------------------------------------------------- C08

/// One step of a history. Numbers index evaluators and earlier hands modulo how many there are.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    New,
    Default,
    Clone(u8),
    /// `Clone::clone_from`
    CloneFrom(u8, u8),
    Drop(u8),
    Swap(u8, u8),
    /// Moves the evaluator to another thread, evaluates there, and gets it back.
    Elsewhere(u8, Hand),
    Eval(u8, Hand),
    Again(u8, u8),
    Reorder(u8, u8, u64),
    Resuit(u8, u8, Vec<u8>),
    AddCard(u8, u8, u8),
    DropCard(u8, u8, u8),
    Duplicate(u8, u8, u8, u8),
    ChangeCard(u8, u8, u8, u8),
    /// A hand easily mistaken for an earlier one.
    Twin(u8, u8, u8, u64),
    /// All evaluators on this hand.
    All(Hand),
    Equal(u8, u8),
    Text(u8),
}

/// Stands for a panic.
const PANIC: R = Err(EvalError::InvalidHandSize(usize::MAX));
fn eval_caught(ev: &Evaluator, h: &[C]) -> R {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval_in(ev, h))).unwrap_or(PANIC)
}

/// What a process that does nothing else gets for a hand from a new evaluator.
pub fn once(h: &[C]) -> String { show(&eval_caught(&Evaluator::new(), h)) }
fn fresh_process(h: &[C]) -> Option<String> {
    static SPENT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    if SPENT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 3000 {
        return None;
    }
    let exe = std::env::current_exe().expect("own path");
    let out = std::process::Command::new(exe).arg("once").arg(model::names(h)).output().expect("child process");
    assert!(out.status.success(), "child process failed");
    Some(String::from_utf8(out.stdout).expect("text").trim_end().to_string())
}

/// The outcome is the one this hand has whatever came before: the right one, or (if the library is
/// wrong about this hand regardless of history) at least the one a fresh process gets.
fn full_outcome(h: &[C], r: &R) -> Outcome {
    let o = absolute(h, r);
    match o {
        Ok(t) => Ok(t),
        Err(m) => match fresh_process(h) {
            Some(f) if f != show(r) => Err(format!("{m}; a new process gets {f}")),
            _ => Ok(None),
        },
    }
}
fn absolute(h: &[C], r: &R) -> Outcome {
    let o = outcome_is(h, r)?;
    if let Ok(e) = r {
        let want = model::text(model::score(h));
        if e.to_string() != want {
            return Err(format!("text is {e}, expected {want}"));
        }
    }
    Ok(o)
}

fn history(ops: &Vec<Op>) -> Outcome {
    let mut evs: Vec<Evaluator> = vec![];
    let mut hands: Vec<Vec<C>> = vec![vec![0, 5, 10, 15, 20]];
    let mut kept: Vec<(Vec<C>, R)> = vec![];
    let mut evals = 0;
    for (step, op) in ops.iter().enumerate() {
        if evs.is_empty() {
            evs.push(Evaluator::new());
        }
        let n = evs.len();
        let pick = |i: u8| i as usize % n;
        let old = |hands: &Vec<Vec<C>>, j: u8| hands[hands.len() - 1 - j as usize % hands.len()].clone();
        let mut todo: Option<(usize, Vec<C>)> = None;
        match op {
            Op::New => {
                if n < 5 {
                    evs.push(Evaluator::new())
                }
            }
            Op::Default => {
                if n < 5 {
                    evs.push(Evaluator::default())
                }
            }
            Op::Clone(i) => {
                if n < 6 {
                    let e = evs[pick(*i)].clone();
                    evs.push(e)
                }
            }
            Op::CloneFrom(i, j) => {
                let e = evs[pick(*i)].clone();
                evs[pick(*j)].clone_from(&e);
            }
            Op::Drop(i) => {
                evs.remove(pick(*i));
            }
            Op::Swap(i, j) => evs.swap(pick(*i), pick(*j)),
            Op::Elsewhere(i, h) => {
                let e = evs.remove(pick(*i));
                let h2 = h.0.clone();
                let (e, r) = std::thread::spawn(move || {
                    let r = guard(|| full_outcome(&h2, &eval_caught(&e, &h2)));
                    (e, r)
                })
                .join()
                .map_err(|_| "thread panicked".to_string())?;
                r.map_err(|m| format!("step {step}, on another thread, [{}]: {m}", model::names(&h.0)))?;
                evs.push(e);
                hands.push(h.0.clone());
            }
            Op::Eval(i, h) => todo = Some((pick(*i), h.0.clone())),
            Op::Again(i, j) => todo = Some((pick(*i), old(&hands, *j))),
            Op::Reorder(i, j, s) => {
                let mut h = old(&hands, *j);
                scramble(&mut h, *s);
                todo = Some((pick(*i), h));
            }
            Op::Resuit(i, j, p) => todo = Some((pick(*i), old(&hands, *j).iter().map(|&c| rename(c, p)).collect())),
            Op::AddCard(i, j, c) => {
                let mut h = old(&hands, *j);
                if h.len() < 10 {
                    h.push(*c % 52);
                }
                todo = Some((pick(*i), h));
            }
            Op::DropCard(i, j, k) => {
                let mut h = old(&hands, *j);
                if !h.is_empty() {
                    let at = *k as usize % h.len();
                    h.remove(at);
                }
                todo = Some((pick(*i), h));
            }
            Op::Duplicate(i, j, k, l) => {
                let mut h = old(&hands, *j);
                if h.len() > 1 {
                    let (a, b) = (*k as usize % h.len(), *l as usize % h.len());
                    h[a] = h[b];
                }
                todo = Some((pick(*i), h));
            }
            Op::ChangeCard(i, j, k, c) => {
                let mut h = old(&hands, *j);
                if !h.is_empty() {
                    let at = *k as usize % h.len();
                    h[at] = *c % 52;
                }
                todo = Some((pick(*i), h));
            }
            Op::Twin(i, j, mode, x) => todo = Some((pick(*i), twin(&old(&hands, *j), *mode, *x))),
            Op::All(h) => {
                for (i, e) in evs.iter().enumerate() {
                    full_outcome(&h.0, &eval_caught(e, &h.0))
                        .map_err(|m| format!("step {step}, evaluator {i}, [{}]: {m}", model::names(&h.0)))?;
                }
                evals += evs.len();
                hands.push(h.0.clone());
            }
            Op::Equal(i, j) => {
                let (a, b) = (pick(*i), pick(*j));
                if evs[a] != evs[b] || !(evs[a] == evs[b]) {
                    return Err(format!("step {step}: evaluators {a} and {b} compare different"));
                }
            }
            Op::Text(i) => {
                if format!("{:?}", evs[pick(*i)]).is_empty() {
                    return Err("no debug text".into());
                }
            }
        }
        if let Some((i, h)) = todo {
            let r = eval_caught(&evs[i], &h);
            full_outcome(&h, &r).map_err(|m| format!("step {step}, evaluator {i}, [{}]: {m}", model::names(&h)))?;
            evals += 1;
            if kept.len() < 32 {
                kept.push((h.clone(), r));
            }
            hands.push(h);
        }
    }
    // What was returned earlier is still what the same cards give.
    for (h, r) in &kept {
        if let Some(e) = evs.first() {
            same_outcome(r, &eval_caught(e, h)).map_err(|m| format!("[{}] earlier and at the end: {m}", model::names(h)))?;
        }
        full_outcome(h, r).map_err(|m| format!("[{}], looked at again: {m}", model::names(h)))?;
    }
    Ok(match evals {
        0 | 1 => None,
        2..=9 => Some("short history"),
        _ => Some("long history"),
    })
}

fn an_op() -> impl Strategy<Value = Op> {
    let h = || a_slice(9).prop_map(Hand);
    let i = any::<u8>;
    // Evaluations on a few evaluators and mostly on recent hands.
    let e = || prop_oneof![Just(0u8), any::<u8>()];
    let j = || prop_oneof![3 => Just(0u8), 2 => 0u8..4, 1 => any::<u8>()];
    prop_oneof![
        1 => Just(Op::New),
        2 => Just(Op::Default),
        2 => i().prop_map(Op::Clone),
        1 => (i(), i()).prop_map(|(a, b)| Op::CloneFrom(a, b)),
        1 => i().prop_map(Op::Drop),
        1 => (i(), i()).prop_map(|(a, b)| Op::Swap(a, b)),
        1 => (i(), h()).prop_map(|(a, b)| Op::Elsewhere(a, b)),
        10 => (e(), h()).prop_map(|(a, b)| Op::Eval(a, b)),
        6 => (e(), j()).prop_map(|(a, b)| Op::Again(a, b)),
        5 => (e(), j(), any::<u64>()).prop_map(|(a, b, c)| Op::Reorder(a, b, c)),
        5 => (e(), j(), suit_perm()).prop_map(|(a, b, c)| Op::Resuit(a, b, c)),
        6 => (e(), j(), 0u8..52).prop_map(|(a, b, c)| Op::AddCard(a, b, c)),
        6 => (e(), j(), i()).prop_map(|(a, b, c)| Op::DropCard(a, b, c)),
        5 => (e(), j(), i(), i()).prop_map(|(a, b, c, d)| Op::Duplicate(a, b, c, d)),
        6 => (e(), j(), i(), 0u8..52).prop_map(|(a, b, c, d)| Op::ChangeCard(a, b, c, d)),
        8 => (e(), j(), i(), any::<u64>()).prop_map(|(a, b, c, d)| Op::Twin(a, b, c, d)),
        2 => h().prop_map(Op::All),
        2 => (i(), i()).prop_map(|(a, b)| Op::Equal(a, b)),
        1 => i().prop_map(Op::Text),
    ]
}

fn strength(h: &[C]) -> u32 {
    if h.len() < 5 || !distinct(h) {
        0
    } else {
        model::score(h)
    }
}

/// A hand and its twins in turn, on one evaluator and in one buffer.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Twins {
    hand: Hand,
    twins: Vec<(u8, u64)>,
    /// Whether twins are made from the hand or each from the one before, and whether the hand is evaluated
    /// again between two of them.
    chain: bool,
    back: bool,
}

fn twins(t: &Twins) -> Outcome {
    thread_local!(static EV: Evaluator = Evaluator::new());
    let mut last = t.hand.0.clone();
    let mut all = vec![last.clone()];
    for (mode, x) in &t.twins {
        let h = twin(if t.chain { &last } else { &t.hand.0 }, *mode, *x);
        last = h.clone();
        all.push(h);
        if t.back {
            all.push(t.hand.0.clone());
        }
    }
    let mut buffer: Vec<Card> = Vec::with_capacity(t.hand.0.len());
    let mut changed = false;
    EV.with(|ev| {
        for (i, h) in all.iter().enumerate() {
            buffer.clear();
            buffer.extend(h.iter().map(|&c| card(c)));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ev.evaluate(&buffer))).unwrap_or(PANIC);
            full_outcome(h, &r).map_err(|m| {
                let before = if i > 0 { model::names(&all[i - 1]) } else { String::new() };
                format!("[{}] after [{before}]: {m}", model::names(h))
            })?;
            changed |= i > 0 && strength(h) != strength(&all[i - 1]);
        }
        Ok(changed.then_some("of another strength"))
    })
}

/// Concurrent use: several threads evaluate their own lists, on one shared evaluator or on their own.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    lists: Vec<Vec<Hand>>,
    /// Whether thread i uses the shared evaluator, a clone made before, a clone made inside, or a new one.
    how: Vec<u8>,
    rounds: u8,
}

fn race(c: &Race) -> Outcome {
    let shared = Evaluator::default();
    let n = c.lists.len();
    let gate = Barrier::new(n);
    let out: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (shared, gate) = (&shared, &gate);
                let how = c.how.get(t).copied().unwrap_or(0) % 4;
                let before = (how == 1).then(|| shared.clone());
                sc.spawn(move || {
                    gate.wait();
                    let r = guard(|| {
                        let own;
                        let ev = match how {
                            1 => {
                                own = before.unwrap();
                                &own
                            }
                            2 => {
                                own = shared.clone();
                                &own
                            }
                            3 => {
                                own = Evaluator::new();
                                &own
                            }
                            _ => shared,
                        };
                        for round in 0..=c.rounds % 8 {
                            for h in &c.lists[t] {
                                full_outcome(&h.0, &eval_caught(ev, &h.0))
                                    .map_err(|m| format!("thread {t}, round {round}, [{}]: {m}", model::names(&h.0)))?;
                            }
                        }
                        if ev != shared {
                            return Err(format!("the evaluator of thread {t} compares different"));
                        }
                        Ok(None)
                    });
                    r.map(|_| ())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for r in out {
        r?;
    }
    Ok((n > 1).then_some("concurrent"))
}

/// The same answers over the whole of a long run on one evaluator: two passes over many hands in
/// different orders.
fn long_run(c: &(u64, u32)) -> Outcome {
    let ev = Evaluator::new();
    let (seed, n) = (c.0, c.1 as usize);
    let mut x = seed;
    let mut hand = |_: usize| {
        x = mix(x);
        let k = 3 + (x >> 40) as usize % 6;
        let mut d: Vec<C> = (0..52).collect();
        scramble(&mut d, x);
        d.truncate(k);
        if x % 11 == 0 && k > 1 {
            d[0] = d[k - 1];
        }
        d
    };
    let hs: Vec<Vec<C>> = (0..n).map(&mut hand).collect();
    let first: Vec<R> = hs.iter().map(|h| eval_caught(&ev, h)).collect();
    for i in (0..n).rev() {
        let again = eval_caught(&ev, &hs[i]);
        same_outcome(&first[i], &again).map_err(|m| format!("call {i} of {n}, [{}], then once more: {m}", model::names(&hs[i])))?;
        full_outcome(&hs[i], &again)?;
    }
    Ok(Some("long run"))
}

// Calls from unusual places: from inside another call, while unwinding, at the end of a thread, after a
// call that panicked in the caller's own code.

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Odd {
    place: u8,
    outer: Hand,
    inner: Vec<Hand>,
    /// Whether the thread used the library before.
    used: bool,
}

type Seen = Vec<(Vec<C>, R)>;

/// A container that evaluates other hands when it is asked for its cards.
struct Nest<'a> {
    cards: Vec<Card>,
    inner: &'a [Hand],
    kind: u8,
    ev: &'a Evaluator,
    seen: std::cell::RefCell<Seen>,
    depth: u8,
}
impl AsRef<[Card]> for Nest<'_> {
    fn as_ref(&self) -> &[Card] {
        for h in self.inner {
            let r = match self.kind % 5 {
                0 => eval_caught(self.ev, &h.0),
                1 => eval_caught(&Evaluator::new(), &h.0),
                2 => eval_caught(&self.ev.clone(), &h.0),
                3 => std::thread::scope(|s| s.spawn(|| eval_caught(self.ev, &h.0)).join().unwrap_or(PANIC)),
                _ if self.depth > 0 => {
                    let n = Nest { cards: cards(&h.0), inner: self.inner, kind: 4, ev: self.ev, seen: Default::default(), depth: self.depth - 1 };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.ev.evaluate(&n))).unwrap_or(PANIC);
                    self.seen.borrow_mut().extend(n.seen.take());
                    r
                }
                _ => eval_caught(self.ev, &h.0),
            };
            self.seen.borrow_mut().push((h.0.clone(), r));
        }
        &self.cards
    }
}

struct Broken;
impl AsRef<[Card]> for Broken {
    fn as_ref(&self) -> &[Card] { panic!("from the caller's container") }
}

/// Evaluates when it is dropped.
struct Late(Vec<Hand>, std::sync::mpsc::Sender<Seen>, Arc<Evaluator>);
impl Drop for Late {
    fn drop(&mut self) {
        let seen = self.0.iter().map(|h| (h.0.clone(), eval_caught(&self.2, &h.0))).collect();
        let _ = self.1.send(seen);
    }
}
thread_local!(static AT_END: std::cell::RefCell<Vec<Late>> = const { std::cell::RefCell::new(vec![]) });

fn odd(c: &Odd) -> Outcome {
    let ev = evaluator();
    let mut seen: Seen = vec![];
    let label = match c.place % 8 {
        k @ 0..=4 => {
            if c.used {
                seen.push((c.outer.0.clone(), eval_caught(ev, &c.outer.0)));
            }
            let n = Nest { cards: cards(&c.outer.0), inner: &c.inner, kind: k, ev, seen: Default::default(), depth: 2 };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ev.evaluate(&n))).unwrap_or(PANIC);
            seen.extend(n.seen.take());
            seen.push((c.outer.0.clone(), r));
            "from inside another call"
        }
        5 => {
            let shared = Arc::new(ev.clone());
            let (tx, rx) = std::sync::mpsc::channel();
            let late = c.inner.clone();
            let e2 = shared.clone();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _late = Late(late, tx, e2);
                panic!("unwinding");
            }));
            seen.extend(rx.iter().flatten());
            "while unwinding"
        }
        6 => {
            let shared = Arc::new(ev.clone());
            let (tx, rx) = std::sync::mpsc::channel();
            let (inner, outer, used) = (c.inner.clone(), c.outer.clone(), c.used);
            let t = std::thread::spawn(move || {
                let mut seen: Seen = vec![];
                // Both orders of first use of the library and of the value that outlives the thread's code.
                if used {
                    seen.push((outer.0.clone(), eval_caught(&shared, &outer.0)));
                }
                AT_END.with(|v| v.borrow_mut().push(Late(inner, tx, shared.clone())));
                seen.push((outer.0.clone(), eval_caught(&shared, &outer.0)));
                seen
            });
            seen.extend(t.join().map_err(|_| "the thread panicked".to_string())?);
            let before = seen.len();
            seen.extend(rx.iter().flatten());
            if seen.len() != before + c.inner.len() {
                return Err("no answers from the end of the thread".into());
            }
            "at the end of a thread"
        }
        _ => {
            let own = Evaluator::new();
            let e = if c.used { ev } else { &own };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.evaluate(Broken)));
            if r.is_ok() {
                return Ok(None);
            }
            for h in &c.inner {
                seen.push((h.0.clone(), eval_caught(e, &h.0)));
            }
            seen.push((c.outer.0.clone(), eval_caught(&e.clone(), &c.outer.0)));
            "after a call that panicked"
        }
    };
    for (h, r) in &seen {
        full_outcome(h, r).map_err(|m| format!("{label}, [{}]: {m}", model::names(h)))?;
    }
    Ok(Some(label))
}

/// The first calls of a process, made by several threads at once; run in a new process. Says what differs
/// from what the same process gives later.
pub fn cold(spec: &str) -> String {
    let c: Cold = serde_json::from_str(spec).expect("a case");
    let n = c.lists.len();
    let gate = Barrier::new(n);
    let shared = (c.how & 8 != 0).then(Evaluator::default);
    let all: Vec<Seen> = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .lists
            .iter()
            .map(|l| {
                let (gate, shared) = (&gate, &shared);
                sc.spawn(move || {
                    gate.wait();
                    l.iter()
                        .map(|h| {
                            let r = match shared {
                                Some(e) => eval_caught(e, &h.0),
                                None if c.how & 1 == 0 => std::panic::catch_unwind(|| eval_in(&Evaluator::new(), &h.0)).unwrap_or(PANIC),
                                None => std::panic::catch_unwind(|| eval_in(&Evaluator::default(), &h.0)).unwrap_or(PANIC),
                            };
                            (h.0.clone(), r)
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (t, l) in all.iter().enumerate() {
        for (i, (h, r)) in l.iter().enumerate() {
            for ev in [&Evaluator::new(), &Evaluator::default()] {
                if let Err(m) = same_outcome(r, &eval_caught(ev, h)) {
                    return format!("thread {t}, call {i} of the process, [{}], and once more later: {m}", model::names(h));
                }
            }
        }
    }
    "the same".into()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cold {
    lists: Vec<Vec<Hand>>,
    how: u8,
}
fn cold_start(c: &Cold) -> Outcome {
    let exe = std::env::current_exe().expect("own path");
    let out = std::process::Command::new(exe).arg("cold").arg(serde_json::to_string(c).unwrap()).output().expect("child process");
    let said = String::from_utf8_lossy(&out.stdout).trim_end().to_string();
    if out.status.success() && said == "the same" {
        Ok(Some(if c.lists.len() > 1 { "several threads" } else { "one thread" }))
    } else {
        Err(format!("{said} ({})", out.status))
    }
}

/// Very many calls on one evaluator from eight threads, five cards at a time.
fn marathon(c: &(u64, u64)) -> Outcome {
    let ev = Evaluator::new();
    let per = c.1 / 8;
    let out: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                let ev = &ev;
                sc.spawn(move || {
                    let mut x = mix(c.0 ^ t);
                    let hs: Vec<[Card; 5]> = (0..4096)
                        .map(|_| {
                            x = mix(x);
                            let mut d: Vec<C> = (0..52).collect();
                            scramble(&mut d, x);
                            std::array::from_fn(|i| card(d[i]))
                        })
                        .collect();
                    let want: Vec<R> = hs.iter().map(|h| ev.evaluate(h)).collect();
                    let mut k = 0;
                    for i in 0..per {
                        let r = ev.evaluate(&hs[k]);
                        let same = matches!((&r, &want[k]), (Ok(a), Ok(b)) if a == b && a.class() == b.class());
                        if !same {
                            return Err(format!("thread {t}, call {i}: [{}] gives {}, at first {}", model::names(&uncards(&hs[k])), show(&r), show(&want[k])));
                        }
                        k = (k + 1) & 4095;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    out.into_iter().collect::<Result<(), String>>()?;
    Ok(Some("very long run"))
}

pub fn c08(ctx: &Ctx) {
    ctx.random("histories", ctx.n(24_000, 240_000), || proptest::collection::vec(an_op(), 1..40), history);
    ctx.random(
        "twins",
        ctx.n(200_000, 3_000_000),
        || {
            let hand = prop_oneof![4 => rich_hand(5..=10), 2 => hand_of_category(), 1 => a_slice(9)];
            (hand.prop_map(Hand), proptest::collection::vec(any::<(u8, u64)>(), 1..6), any::<bool>(), any::<bool>())
                .prop_map(|(hand, twins, chain, back)| Twins { hand, twins, chain, back })
        },
        twins,
    );
    ctx.random_w(
        "concurrent",
        ctx.n(1_200, 12_000),
        2,
        || {
            // Threads share hands (and relatives of hands), so that they race on the same cards.
            (proptest::collection::vec(a_slice(8), 2..10), 2usize..8, any::<u64>(), proptest::collection::vec(0u8..4, 8), 0u8..8).prop_map(
                |(pool, threads, seed, how, rounds)| {
                    let mut x = seed;
                    let lists = (0..threads)
                        .map(|_| {
                            (0..12)
                                .map(|_| {
                                    x = mix(x);
                                    let mut h = pool[(x % pool.len() as u64) as usize].clone();
                                    if x >> 20 & 1 == 1 {
                                        let mut p = [0u8, 1, 2, 3];
                                        scramble(&mut p, x);
                                        h = h.iter().map(|&c| rename(c, &p)).collect();
                                    }
                                    if x >> 21 & 1 == 1 {
                                        scramble(&mut h, x);
                                    }
                                    if x >> 22 & 7 == 1 {
                                        h.pop();
                                    }
                                    if x >> 25 & 1 == 1 {
                                        h = twin(&h, (x >> 26) as u8, x);
                                    }
                                    Hand(h)
                                })
                                .collect()
                        })
                        .collect();
                    Race { lists, how, rounds }
                },
            )
        },
        race,
        |c, _| c,
    );
    ctx.random(
        "unusual-places",
        ctx.n(12_000, 120_000),
        || {
            (any::<u8>(), a_slice(8).prop_map(Hand), proptest::collection::vec(a_slice(8).prop_map(Hand), 1..4), any::<bool>())
                .prop_map(|(place, outer, inner, used)| Odd { place, outer, inner, used })
        },
        odd,
    );
    ctx.random_w(
        "cold-start",
        ctx.n(400, 8_000),
        4,
        || {
            (proptest::collection::vec(proptest::collection::vec(a_slice(8).prop_map(Hand), 1..4), 1..9), any::<u8>())
                .prop_map(|(lists, how)| Cold { lists, how })
        },
        cold_start,
        |c, _| c,
    );
    let calls = if ctx.thorough { 9_000_000_000 } else { 600_000_000 } / if ctx.checked() { 4 } else { 1 };
    ctx.random_w("very-long-run", 1, 1, || any::<u64>().prop_map(move |s| (s, calls)), marathon, |c, _| c);
    ctx.random("long-runs", ctx.n(16, 128), || (any::<u64>(), 20_000u32..70_000), long_run);
    // Every strength on a new, a default and a cloned evaluator, and on one that served errors before.
    let kinds: Vec<Evaluator> = vec![
        Evaluator::new(),
        Evaluator::default(),
        Evaluator::new().clone(),
        Evaluator::default().clone().clone(),
        {
            let e = Evaluator::new();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _ = eval_caught(&e, &[1, 1, 1, 1, 1]);
                let _ = eval_caught(&e, &[]);
                let _ = eval_caught(&e, &[1, 2, 3]);
            }));
            e
        },
    ];
    let s = model::strengths();
    ctx.exhaustive(
        "every-strength-every-kind",
        true,
        7462,
        |i, acc| {
            let h = Hand(s.hands[i as usize].to_vec());
            for (k, e) in kinds.iter().enumerate() {
                match guard(|| full_outcome(&h.0, &eval_caught(e, &h.0))) {
                    Ok(_) => acc.ok("hand and evaluator", 1),
                    Err(m) => return acc.fail(h.clone(), format!("evaluator kind {k}: {m}")),
                }
            }
        },
        every_kind,
        no_shrink,
    );
}
fn every_kind(h: &Hand) -> Outcome {
    for (k, e) in [Evaluator::new(), Evaluator::default(), Evaluator::new().clone(), Evaluator::default().clone()].iter().enumerate() {
        full_outcome(&h.0, &eval_caught(e, &h.0)).map_err(|m| format!("evaluator kind {k}: {m}"))?;
    }
    Ok(None)
}
pub fn c08_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "histories" => replay(v, history),
        "twins" => replay(v, twins),
        "concurrent" => replay(v, race),
        "long-runs" => replay(v, long_run),
        "unusual-places" => replay(v, odd),
        "cold-start" => replay(v, cold_start),
        "very-long-run" => replay(v, marathon),
        _ => replay(v, every_kind),
    }
}
