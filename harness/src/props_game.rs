//! C18: the jacks-or-better game.

use std::sync::OnceLock;

use proptest::prelude::*;
use rand::{rngs::StdRng, seq::SliceRandom, SeedableRng};
use rand_chacha::{
    rand_core::block::{BlockRng, BlockRngCore},
    ChaCha12Core,
};
use serde_json::Value;

use crate::{
    driver::{no_shrink, replay, Ctx, Failure, Outcome},
    glue::uncards,
    model::{self, mix, C},
    programs::{for_a_minute, run, sessions, Session},
};

const PROGRAM: &str = "jacks-or-better";
const CLEAR: &str = "\u{1b}[2J\u{1b}[1;1H";

struct Prompts {
    wager: String,
    swap: String,
}
impl Prompts {
    fn wager(&self, credits: u64) -> String { self.wager.replacen("100", &credits.to_string(), 1) }
}

fn lines(out: &str) -> Vec<String> { out.replace(CLEAR, "").lines().map(String::from).collect() }

fn prompts() -> &'static Result<Prompts, String> {
    static P: OnceLock<Result<Prompts, String>> = OnceLock::new();
    P.get_or_init(|| {
        let start = run(PROGRAM, &Session::new(0, vec![]));
        start.ended_well()?;
        let wager = lines(&start.stdout).pop().unwrap_or_default();
        if !wager.contains("Credits: 100") {
            return Err(format!("the game starts with {wager:?} instead of asking for a wager with 100 credits"));
        }
        let dealt = run(PROGRAM, &Session::new(0, vec!["1".into()]));
        dealt.ended_well()?;
        let swap = lines(&dealt.stdout).pop().unwrap_or_default();
        if swap == wager || hand_line(&swap).is_some() {
            return Err(format!("after a wager the game does not ask for cards to swap: {swap:?}"));
        }
        Ok(Prompts { wager, swap })
    })
}

/// Five cards and a name in brackets, as the game shows a hand.
fn hand_line(l: &str) -> Option<(Vec<C>, String)> {
    let mut rest = l;
    let mut cards = vec![];
    for _ in 0..5 {
        rest = rest.trim_start().strip_prefix("[ ")?;
        let mut ch = rest.chars();
        let r = ch.next()?;
        let r = model::RANK_CHARS.iter().position(|&c| c == r)?;
        let q = ch.next()?;
        let s = model::SUIT_SYMBOLS.iter().position(|&c| c == q)?;
        rest = ch.as_str().strip_prefix(" ]")?;
        cards.push(model::mk(r as u8, s as u8));
    }
    let name = rest.trim().strip_prefix('(')?.strip_suffix(')')?;
    Some((cards, name.to_string()))
}

/// The winnings of a final hand.
fn payout(code: u32, wager: u64) -> u64 {
    let a = model::deciding(code, 0);
    match model::category(code) {
        model::PAIR if a >= 9 => wager,
        model::TWO_PAIR => 2 * wager,
        model::TRIPS => 3 * wager,
        model::STRAIGHT => 4 * wager,
        model::FLUSH => 6 * wager,
        model::FULL => 9 * wager,
        model::QUADS => 25 * wager,
        model::SFLUSH if a == 12 && wager == 5 => 4000,
        model::SFLUSH if a == 12 => 250 * wager,
        model::SFLUSH => 50 * wager,
        _ => 0,
    }
}
/// What the class of a hand is compared by: the category and the ranks it names.
fn class_of(code: u32) -> (u32, u8, u8) {
    let cat = model::category(code);
    let second = if [model::TWO_PAIR, model::FULL].contains(&cat) { model::deciding(code, 1) } else { 0 };
    (cat, model::deciding(code, 0), second)
}
fn paid(code: u32) -> &'static str {
    let a = model::deciding(code, 0);
    match model::category(code) {
        model::HIGH => "high card",
        model::PAIR if a >= 9 => "jacks or better",
        model::PAIR => "low pair",
        model::TWO_PAIR => "two pair",
        model::TRIPS => "three of a kind",
        model::STRAIGHT => "straight",
        model::FLUSH => "flush",
        model::FULL => "full house",
        model::QUADS => "four of a kind",
        _ if a == 12 => "royal flush",
        _ => "straight flush",
    }
}

fn correct(l: &str, what: &str) -> Result<(Vec<C>, u32), String> {
    let Some((h, name)) = hand_line(l) else {
        return Err(format!("{what}: {l:?} instead of five cards with their name"));
    };
    if !crate::glue::distinct(&h) {
        return Err(format!("{what}: the cards are not distinct: {l:?}"));
    }
    let code = model::score(&h);
    if name != model::text(code) {
        return Err(format!("{what}: {l:?}, but the hand is {:?}", model::text(code)));
    }
    Ok((h, code))
}

/// Plays the session against the output. Gives the names of the final hands.
fn judge(s: &Session, out: &str, p: &Prompts) -> Result<Vec<&'static str>, String> {
    let out = lines(out);
    let mut at = 0;
    let mut input = s.read().iter().enumerate();
    let mut finals = vec![];
    let mut credits = 100u64;
    // Moves on to a line that is exactly this; what is skipped must not be a hand.
    let find = |at: &mut usize, want: &str, why: &str, message: bool| -> Result<(), String> {
        let from = *at;
        while *at < out.len() {
            let l = &out[*at];
            *at += 1;
            if l == want {
                if message && !out[from..*at - 1].iter().any(|l| !l.is_empty()) {
                    return Err(format!("{why}: no message"));
                }
                return Ok(());
            }
            if hand_line(l).is_some() {
                return Err(format!("{why}: {want:?} must come next, but cards are shown: {l:?}"));
            }
        }
        Err(format!("{why}: {want:?} must come next, but the output ends with {:?}", &out[from.min(out.len())..]))
    };
    let rest = |at: usize| -> Result<(), String> {
        match out[at..].iter().find(|l| hand_line(l).is_some() || **l == p.swap || l.starts_with(p.wager.split("100").next().unwrap())) {
            None => Ok(()),
            Some(l) => Err(format!("the game is over, but it goes on with {l:?}")),
        }
    };
    find(&mut at, &p.wager(100), "at the start", false)?;
    loop {
        let wager = loop {
            let Some((n, l)) = input.next() else {
                rest(at)?;
                return Ok(finals);
            };
            if l == "quit" {
                rest(at)?;
                return Ok(finals);
            }
            match l.parse::<u64>() {
                Ok(w) if (1..=5).contains(&w) && w <= credits => break w,
                _ => find(&mut at, &p.wager(credits), &format!("line {} ({l:?}) is no wager to accept with {credits} credits", n + 1), true)?,
            }
        };
        let first = out.get(at).ok_or("nothing is shown after a wager")?;
        let (before, old) = correct(first, "dealt")?;
        at += 1;
        find(&mut at, &p.swap, "after the deal", false)?;
        let swaps = loop {
            let Some((n, l)) = input.next() else {
                rest(at)?;
                return Ok(finals);
            };
            if l == "quit" {
                rest(at)?;
                return Ok(finals);
            }
            let list: Option<Vec<usize>> = l.split_whitespace().map(|w| w.parse().ok().filter(|n| (1..=5).contains(n))).collect();
            match list {
                Some(v) if (0..v.len()).all(|i| !v[..i].contains(&v[i])) => break v,
                _ => find(&mut at, &p.swap, &format!("line {} ({l:?}) is no list of swaps to accept", n + 1), true)?,
            }
        };
        let last = out.get(at).ok_or("nothing is shown after the swaps")?;
        let (after, code) = correct(last, "final hand")?;
        at += 1;
        for i in 0..5 {
            if !swaps.contains(&(i + 1)) && before[i] != after[i] {
                return Err(format!("swapping {swaps:?} changed card {}: {first:?} became {last:?}", i + 1));
            }
        }
        let from = at;
        let won = loop {
            let l = out.get(at).ok_or_else(|| format!("no winnings are shown after {last:?}"))?;
            at += 1;
            if let Some(n) = l.strip_prefix("Winnings: ") {
                break n.parse::<u64>().map_err(|_| format!("{l:?}"))?;
            }
            if hand_line(l).is_some() || *l == p.swap {
                return Err(format!("no winnings are shown after {last:?}, but {l:?}"));
            }
        };
        let says = |what: &str| out[from..at - 1].iter().any(|l| l.contains(what));
        let (up, down) = (class_of(code) > class_of(old), class_of(code) < class_of(old));
        if (says("better"), says("worse")) != (up, down) {
            let is = if up { "better" } else if down { "worse" } else { "neither better nor worse" };
            return Err(format!("{last:?} is {is} in class than {first:?}, but the game says {:?}", &out[from..at - 1]));
        }
        let want = payout(code, wager);
        if won != want {
            return Err(format!("{last:?} pays {won} for a wager of {wager}, expected {want}"));
        }
        finals.push(paid(code));
        credits = if won > 0 { credits + won } else { credits - wager };
        if credits == 0 {
            rest(at)?;
            finals.push("no credits left");
            return Ok(finals);
        }
        find(&mut at, &p.wager(credits), &format!("after {last:?} with winnings of {won} for a wager of {wager}"), false)?;
    }
}

fn session(s: &Session) -> Outcome {
    let p = prompts().as_ref().map_err(|m| m.clone())?;
    let ran = run(PROGRAM, s);
    ran.ended_well()?;
    let finals = judge(s, &ran.stdout, p)?;
    // Named by the rarest outcome.
    const RARE: [&str; 12] = [
        "royal flush", "straight flush", "four of a kind", "full house", "flush", "straight", "no credits left", "three of a kind",
        "two pair", "jacks or better", "low pair", "high card",
    ];
    Ok(RARE.into_iter().find(|r| finals.contains(r)))
}

// ---- reaching rare hands: simulates the program's random source; only the generator relies on it ----

fn seed_of(entropy: u64, k: u64) -> [u8; 32] {
    let k = mix(entropy ^ mix(k));
    let mut b = [0; 32];
    for (i, w) in b.chunks_mut(8).enumerate() {
        w.copy_from_slice(&mix(k ^ i as u64).to_le_bytes());
    }
    b
}

/// The cards in the order in which the game shuffles them, as far as it can be told.
fn order() -> &'static [C; 52] {
    static O: OnceLock<[C; 52]> = OnceLock::new();
    O.get_or_init(|| {
        let own = std::panic::catch_unwind(|| uncards(&poker::deck::generate().take(52).collect::<Vec<_>>())).ok();
        own.filter(|d| crate::glue::distinct(d)).and_then(|d| d.try_into().ok()).unwrap_or_else(|| std::array::from_fn(|i| i as C))
    })
}

/// The deck of the first round and the random source after it is shuffled.
fn dealt(entropy: u64) -> (StdRng, [C; 52]) {
    let mut rng = StdRng::from_seed(seed_of(entropy, 0));
    let mut deck = *order();
    deck.shuffle(&mut rng);
    (rng, deck)
}

/// The final hand of the first round when the cards of the mask are swapped.
fn drawn_hand(rng: &StdRng, deck: &[C; 52], mask: u8) -> [C; 5] {
    let mut hand: [C; 5] = deck[..5].try_into().unwrap();
    let swaps: Vec<usize> = indices(mask).collect();
    if swaps.is_empty() {
        return hand;
    }
    let mut left = deck[5..].to_vec();
    left.extend(swaps.iter().map(|&i| hand[i]));
    left.shuffle(&mut rng.clone());
    for (k, &i) in swaps.iter().enumerate() {
        hand[i] = left[k];
    }
    hand
}
fn indices(mask: u8) -> impl Iterator<Item = usize> { (0..5).filter(move |i| mask >> i & 1 == 1) }
fn swap_text(mask: u8) -> String { indices(mask).map(|n| (n + 1).to_string()).collect::<Vec<_>>().join(" ") }

/// An entropy and the swaps (none: the hand is dealt) that end the first round with such a hand.
fn reach(wanted: &str, drawn: bool, from: u64) -> Option<(u64, u8)> {
    (0..3_000_000u64).find_map(|t| {
        let entropy = mix(from ^ t);
        let (rng, deck) = dealt(entropy);
        let masks = if drawn { 1..32u8 } else { 0..1 };
        masks.into_iter().find(|&m| paid(model::score(&drawn_hand(&rng, &deck, m))) == wanted).map(|m| (entropy, m))
    })
}

/// For every strength of a hand met in so many deals: the first deal and swaps that end with it.
fn reach_all(tries: u64, from: u64) -> Vec<(u32, u64, u8)> {
    type Found = std::collections::HashMap<u32, (u64, u8)>;
    let parts: Vec<Found> = std::thread::scope(|sc| {
        let run = |w: u64| {
            move || {
                let mut found = Found::new();
                for t in (w..tries).step_by(8) {
                    let (rng, deck) = dealt(mix(from ^ t));
                    for m in 0..32u8 {
                        found.entry(model::score(&drawn_hand(&rng, &deck, m))).or_insert((t, m));
                    }
                }
                found
            }
        };
        let handles: Vec<_> = (0..8).map(|w| sc.spawn(run(w))).collect();
        handles.into_iter().map(|h| h.join().expect("search")).collect()
    });
    let mut first = std::collections::BTreeMap::new();
    for (code, at) in parts.into_iter().flatten() {
        let e = first.entry(code).or_insert(at);
        *e = at.min(*e);
    }
    first.into_iter().map(|(code, (t, m))| (code, mix(from ^ t), m)).collect()
}

/// The program's default generator, which starts again with a new seed after so many words.
#[derive(Clone)]
struct Renewed {
    inner: ChaCha12Core,
    entropy: u64,
    blocks: u64,
}
impl BlockRngCore for Renewed {
    type Item = u32;
    type Results = <ChaCha12Core as BlockRngCore>::Results;
    fn generate(&mut self, results: &mut Self::Results) {
        if self.blocks > 0 && self.blocks % 256 == 0 {
            self.inner = ChaCha12Core::from_seed(seed_of(self.entropy, self.blocks / 256));
        }
        self.blocks += 1;
        self.inner.generate(results);
    }
}
fn source(entropy: u64) -> BlockRng<Renewed> {
    BlockRng::new(Renewed { inner: ChaCha12Core::from_seed(seed_of(entropy, 0)), entropy, blocks: 0 })
}

/// What a player with foresight wants.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Aim {
    /// To win as much as can be.
    Riches,
    /// To lose until so many credits are left, then to stay about there.
    Ruin(u64),
    /// To draw cards that leave the class as it was, or change it.
    SameClass(bool),
}

/// A game of a player who knows what the next draw brings.
fn foreseen(entropy: u64, aim: Aim, rounds: usize, choices: u64) -> Session {
    let mut rng = source(entropy);
    let mut deck = order().to_vec();
    deck.shuffle(&mut rng);
    let mut credits = 100u64;
    let mut lines = vec![];
    for round in 0..rounds as u64 {
        let hand: Vec<C> = deck.drain(..5).collect();
        let most = credits.min(5);
        let chance = mix(choices ^ round);
        // The deck, the hand and the source after each choice of swaps.
        let tried: Vec<_> = (0..32u8)
            .map(|m| {
                let (mut r, mut d, mut h) = (rng.clone(), deck.clone(), hand.clone());
                let swaps: Vec<usize> = indices(m).collect();
                if m > 0 {
                    d.extend(swaps.iter().map(|&i| h[i]));
                    d.shuffle(&mut r);
                    for (k, c) in d.drain(..swaps.len()).enumerate() {
                        h[swaps[k]] = c;
                    }
                }
                let code = model::score(&h);
                (m, r, d, h, code)
            })
            .collect();
        let old = model::score(&hand);
        let value = |code: u32, m: u8| -> u64 {
            let p = payout(code, 5);
            let tie = mix(chance ^ m as u64) % 100;
            match aim {
                Aim::Riches => p * 100 + tie,
                Aim::Ruin(left) => (if credits > left { (5000 - p) * 100 } else { u64::from(p > 0) * 100 }) + tie,
                Aim::SameClass(same) => u64::from((class_of(code) == class_of(old)) == same && m > 0) * 100 + tie,
            }
        };
        let (m, r, d, h, code) = tried.into_iter().max_by_key(|(m, _, _, _, code)| value(*code, *m)).unwrap();
        let paying = payout(code, 5) > 0;
        let wager = match aim {
            Aim::Riches if paying => most,
            Aim::Riches => 1,
            // Now and then less than what there is.
            _ => most - if chance % 3 == 0 { (chance >> 8) % most } else { 0 },
        };
        // More than there is, which must be refused.
        if credits < 5 {
            lines.push((credits + 1).to_string());
        }
        lines.push(wager.to_string());
        lines.push(swap_text(m));
        let won = payout(code, wager);
        credits = if won > 0 { credits + won } else { credits - wager };
        if credits == 0 {
            break;
        }
        (rng, deck) = (r, d);
        deck.extend(h);
        deck.shuffle(&mut rng);
    }
    Session::new(entropy, lines)
}

fn foresight(rounds: usize) -> impl Strategy<Value = Session> {
    let aim = prop_oneof![2 => Just(Aim::Riches), 2 => (1u64..8).prop_map(Aim::Ruin), 1 => any::<bool>().prop_map(Aim::SameClass)];
    (any::<u64>(), aim, rounds / 2..=rounds, any::<u64>()).prop_map(|(e, a, n, c)| foreseen(e, a, n, c))
}

// ---- fairness ----

/// Many games with different random sources, looked at together.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Games {
    from: u64,
    games: u64,
    /// Which cards are swapped in every round (none: a different choice in each).
    swaps: Option<u8>,
}

/// No count is further from what a fair deal gives than so many standard deviations.
const SIGMAS: f64 = 7.0;

fn fair(g: &Games) -> Outcome {
    prompts().as_ref().map_err(|m| m.clone())?;
    const LAGS: usize = 12;
    const ROUNDS: u64 = 130;
    #[derive(Clone)]
    struct Counts {
        dealt: [[u64; 52]; 5],
        drawn: [[u64; 52]; 5],
        /// Cards a deal shares with the final hand that many rounds before, and the pairs compared.
        shared: [(u64, u64); LAGS],
        /// The same, in the same place.
        same: [(u64, u64); LAGS],
        /// Drawn cards that were just discarded, how many a fair draw from all cards but those kept
        /// gives, and its variance.
        back: (u64, f64, f64),
    }
    let zero = Counts { dealt: [[0; 52]; 5], drawn: [[0; 52]; 5], shared: [(0, 0); LAGS], same: [(0, 0); LAGS], back: (0, 0.0, 0.0) };
    let parts: Vec<Result<Counts, String>> = std::thread::scope(|sc| {
        let zero = &zero;
        let work = |w: u64| {
            move || {
                let mut k = zero.clone();
                for i in (w..g.games).step_by(8) {
                    let entropy = mix(g.from ^ i);
                    let masks: Vec<u8> = (0..ROUNDS).map(|r| g.swaps.unwrap_or((mix(entropy ^ r) % 32) as u8)).collect();
                    let s = Session::new(entropy, masks.iter().flat_map(|&m| ["1".to_string(), swap_text(m)]).collect());
                    let ran = run(PROGRAM, &s);
                    ran.ended_well()?;
                    let hands: Vec<Vec<C>> = lines(&ran.stdout).iter().filter_map(|l| hand_line(l)).map(|h| h.0).collect();
                    for (r, pair) in hands.chunks_exact(2).enumerate() {
                        for p in 0..5 {
                            k.dealt[p][pair[0][p] as usize] += 1;
                            if masks[r] >> p & 1 == 1 {
                                k.drawn[p][pair[1][p] as usize] += 1;
                            }
                        }
                        let gone: Vec<C> = (0..5).filter(|p| masks[r] >> p & 1 == 1).map(|p| pair[0][p]).collect();
                        k.back.0 += (0..5).filter(|p| masks[r] >> p & 1 == 1 && gone.contains(&pair[1][*p])).count() as u64;
                        let (n, of) = (gone.len() as f64, 47.0 + gone.len() as f64);
                        k.back.1 += n * n / of;
                        k.back.2 += n * n / of * (1.0 - n / of);
                        for lag in 1..=LAGS.min(r) {
                            let earlier = &hands[2 * (r - lag) + 1];
                            k.shared[lag - 1].0 += pair[0].iter().filter(|c| earlier.contains(c)).count() as u64;
                            k.shared[lag - 1].1 += 1;
                            k.same[lag - 1].0 += (0..5).filter(|&p| pair[0][p] == earlier[p]).count() as u64;
                            k.same[lag - 1].1 += 1;
                        }
                    }
                }
                Ok(k)
            }
        };
        let handles: Vec<_> = (0..8).map(|w| sc.spawn(work(w))).collect();
        handles.into_iter().map(|h| h.join().expect("games")).collect()
    });
    let mut all = zero.clone();
    for p in parts {
        let p = p?;
        for i in 0..5 {
            for c in 0..52 {
                all.dealt[i][c] += p.dealt[i][c];
                all.drawn[i][c] += p.drawn[i][c];
            }
        }
        all.back = (all.back.0 + p.back.0, all.back.1 + p.back.1, all.back.2 + p.back.2);
        for l in 0..LAGS {
            all.shared[l].0 += p.shared[l].0;
            all.shared[l].1 += p.shared[l].1;
            all.same[l].0 += p.same[l].0;
            all.same[l].1 += p.same[l].1;
        }
    }
    for (what, table) in [("dealt", &all.dealt), ("drawn", &all.drawn)] {
        for (p, t) in table.iter().enumerate() {
            let n: u64 = t.iter().sum();
            // Counts too small for the normal approximation decide nothing.
            if n < 52 * 40 {
                continue;
            }
            let expected = n as f64 / 52.0;
            let chi: f64 = t.iter().map(|&c| (c as f64 - expected).powi(2) / expected).sum();
            let z = (chi - 51.0) / 102f64.sqrt();
            if z > SIGMAS + 2.0 {
                let (most, times) = t.iter().enumerate().max_by_key(|x| x.1).unwrap();
                return Err(format!("{n} cards {what} in place {} are not evenly spread (chi-square {chi:.0} for 51): {} came {times} times, {expected:.0} were expected", p + 1, model::name(most as C)));
            }
        }
    }
    // Fewer is as fair: a game may keep discards out of the draw.
    let (back, mean, var) = all.back;
    if var > 20.0 && back as f64 > mean + SIGMAS * var.sqrt() {
        return Err(format!("{back} of the drawn cards were among those just discarded, {mean:.0} were expected"));
    }
    for l in 0..LAGS {
        let (shared, n) = all.shared[l];
        let (mean, var) = (25.0 / 52.0, 5.0 * (5.0 / 52.0) * (47.0 / 52.0) * (47.0 / 51.0));
        let z = (shared as f64 - n as f64 * mean) / (n as f64 * var).sqrt();
        if n > 500 && z.abs() > SIGMAS {
            return Err(format!("in {n} rounds the cards dealt shared {shared} cards with the final hand {} rounds before, {:.0} were expected", l + 1, n as f64 * mean));
        }
        // Places that hold the same card: mean 5/52, variance close to it.
        let (same, n) = all.same[l];
        let mean = n as f64 * 5.0 / 52.0;
        if n > 500 && (same as f64 - mean).abs() > SIGMAS * (mean * 1.05).sqrt() {
            return Err(format!("in {n} rounds {same} cards were dealt where the final hand {} rounds before had them, {mean:.0} were expected", l + 1));
        }
    }
    Ok(Some("many games"))
}

const TARGETS: [&str; 11] = [
    "royal flush", "straight flush", "four of a kind", "full house", "flush", "straight", "three of a kind", "two pair",
    "jacks or better", "low pair", "high card",
];

// ---- strategies ----

fn swap_list() -> impl Strategy<Value = String> {
    let sep = proptest::sample::select(vec![" ", "  ", "\t", " \t"]);
    let good = (proptest::sample::subsequence(vec!["1", "2", "3", "4", "5"], 0..=5).prop_shuffle(), sep.clone()).prop_map(|(v, s)| v.join(s));
    let bad = (proptest::collection::vec(proptest::sample::select(vec!["1", "2", "3", "4", "5", "0", "6", "-1", "x", "1,2", "10", "5.0", "99999999999999999999"]), 1..8), sep)
        .prop_map(|(v, s)| v.join(s));
    prop_oneof![5 => good, 2 => bad, 1 => proptest::sample::select(vec!["", " ", "\t", "1 1", "5 5", "1 2 3 4 5 1", "12345", "all", "none", "Quit", "quit ", "5 4 3 2 1"]).prop_map(String::from)]
}
fn wager(most: u64) -> impl Strategy<Value = String> {
    prop_oneof![
        10 => (1..=most).prop_map(|w| w.to_string()),
        1 => proptest::sample::select(vec!["0", "6", "7", "100", "101", "18446744073709551615", "18446744073709551616", "-1", "1.5", "", "x", "１", "1 2", "Quit", "QUIT", "QUIT ", "five", "0x1", "1e0", "é♠"]).prop_map(String::from),
    ]
}
fn typed() -> impl Strategy<Value = String> {
    prop_oneof![3 => wager(5), 3 => swap_list(), 1 => "[ -Zb-~é♠]{0,12}".prop_filter("ambiguous", |s| s.trim() != "quit" && !s.contains('+') && !s.trim().starts_with('0') && s.trim().parse::<u64>().is_err())]
}

/// Rounds of a wager and a list of swaps, some refused, some stray lines, and an end.
fn game(max: usize, most: u64) -> impl Strategy<Value = Session> {
    let round = move || {
        (wager(most), swap_list(), proptest::option::weighted(0.08, typed()), proptest::option::weighted(0.08, typed())).prop_map(|(w, s, a, b)| {
            let mut v = vec![];
            v.extend(a);
            v.push(w);
            v.extend(b);
            v.push(s);
            v
        })
    };
    (proptest::collection::vec(round(), 0..max), any::<u64>(), 0u8..6, prop::bool::weighted(0.9), prop::bool::weighted(0.05)).prop_map(
        |(rounds, entropy, end, newline, crlf)| {
            let mut lines: Vec<String> = rounds.concat();
            match end {
                0 => lines.push("quit".into()),
                1 => drop(lines.pop()),
                2 => lines.extend(["1".to_string(), "quit".into()]),
                3 => lines.extend(["quit".to_string(), "1".into(), "".into()]),
                _ => {}
            }
            Session { entropy, crlf: vec![crlf; lines.len()], lines, newline }
        },
    )
}

fn shrink(s: Session, fails: &dyn Fn(&Session) -> bool) -> Session {
    let fails = for_a_minute(fails);
    let mut s = s;
    // The shortest beginning that fails.
    for n in 0..s.lines.len() {
        let t = Session { entropy: s.entropy, lines: s.lines[..n].to_vec(), crlf: vec![false; n], newline: true };
        if fails(&t) {
            s = t;
            break;
        }
    }
    let mut i = 0;
    while i < s.lines.len() && s.lines.len() < 400 {
        let mut t = s.clone();
        t.lines.remove(i);
        t.crlf.remove(i.min(t.crlf.len() - 1));
        if fails(&t) {
            s = t;
        } else {
            i += 1;
        }
    }
    s
}

pub fn c18(ctx: &Ctx) {
    if let Err(message) = prompts() {
        ctx.fail(Failure { sub: "sessions".into(), case: serde_json::to_value(Session::new(0, vec!["1".into()])).unwrap(), message: message.clone() });
        return;
    }
    // Every paying and losing hand, dealt and drawn, at every wager.
    ctx.exhaustive(
        "payouts",
        false,
        22,
        |chunk, acc| {
            let (wanted, drawn) = (TARGETS[chunk as usize / 2], chunk % 2 == 1);
            let rounds = if ctx.thorough { 20 } else { 2 };
            for k in 0..rounds {
                let Some((entropy, mask)) = reach(wanted, drawn, mix(ctx.seed ^ chunk << 32 ^ k)) else {
                    return;
                };
                let list = swap_text(mask);
                for w in 1..=5u64 {
                    let s = Session::new(entropy, vec![w.to_string(), list.clone(), "6".into(), "1".into(), "".into()]);
                    match crate::driver::guard(|| session(&s)) {
                        Ok(t) => acc.ok(t.unwrap_or("trivial"), 1),
                        Err(m) => return acc.fail(s, m),
                    }
                    acc.sample(s);
                }
            }
        },
        session,
        shrink,
    );
    // A game for every strength a hand can have.
    if !ctx.failed() {
        let all = reach_all(if ctx.checked() { 40_000 } else { 400_000 }, mix(ctx.seed ^ 0x57));
        ctx.exhaustive(
            "strengths",
            false,
            all.len() as u64,
            |chunk, acc| {
                let (_, entropy, mask) = all[chunk as usize];
                for w in 1..=5u64 {
                    if !ctx.thorough && w != 1 + (chunk ^ ctx.seed) % 5 {
                        continue;
                    }
                    let s = Session::new(entropy, vec![w.to_string(), swap_text(mask)]);
                    match crate::driver::guard(|| session(&s)) {
                        Ok(t) => acc.ok(t.unwrap_or("trivial"), 1),
                        Err(m) => return acc.fail(s, m),
                    }
                    acc.sample(s);
                }
            },
            session,
            shrink,
        );
        let met: std::collections::BTreeSet<u32> = all.iter().map(|a| a.0).collect();
        ctx.note("strengths", format!("games for {} of the 7462 strengths of a final hand", met.len()));
    }
    ctx.random_w("sessions", ctx.n(5_000, 60_000), 8, || game(30, 5), session, shrink);
    ctx.random_w("stray-lines", ctx.n(1_000, 10_000), 8, || sessions(typed(), 40), session, shrink);
    // A player who knows what the next draw brings: fortunes, and long games with hardly any credits.
    ctx.random_w("foresight", ctx.n(400, 6_000), 8, || foresight(150), session, shrink);
    ctx.random_w("fortunes", ctx.n(8, 100), 8, || any::<u64>().prop_map(|e| foreseen(e, Aim::Riches, 8_000, 0)), session, shrink);
    ctx.exhaustive(
        "fair-deals",
        false,
        4,
        |i, acc| {
            let games = match (ctx.thorough, ctx.checked()) {
                (true, _) => 20_000,
                (_, false) => 1_000,
                _ => 200,
            };
            let g = Games { from: mix(ctx.seed ^ i << 40), games, swaps: [Some(0), Some(31), Some(mix(ctx.seed) as u8 % 32), None][i as usize] };
            match crate::driver::guard(|| fair(&g)) {
                Ok(_) => acc.ok("many games", games),
                Err(m) => return acc.fail(g, m),
            }
            acc.sample(g);
        },
        fair,
        no_shrink,
    );
    // Until the credits are gone.
    ctx.random_w("long-sessions", ctx.n(160, 2_000), 8, || game(400, 5), session, shrink);
}
pub fn c18_replay(sub: &str, v: &Value) -> Outcome {
    match sub {
        "fair-deals" => replay(v, fair),
        _ => replay(v, session),
    }
}
