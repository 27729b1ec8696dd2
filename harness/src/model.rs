//! Reference model of poker, written from the rules and sharing nothing with the code under test.
//!
//! A card is a number `rank * 4 + suit` with ranks 0 (two) to 12 (ace) and suits in the order of
//! [`SUIT_CHARS`]. A strength is a number that orders hands: category, then the deciding ranks.

use std::sync::OnceLock;

pub type C = u8;

pub const RANK_CHARS: [char; 13] = ['2', '3', '4', '5', '6', '7', '8', '9', 'T', 'J', 'Q', 'K', 'A'];
pub const SUIT_CHARS: [char; 4] = ['c', 'd', 'h', 's'];
pub const SUIT_SYMBOLS: [char; 4] = ['\u{2663}', '\u{2666}', '\u{2665}', '\u{2660}'];
pub const RANK_NAMES: [&str; 13] = [
    "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "jack", "queen", "king", "ace",
];
pub const RANK_PLURALS: [&str; 13] = [
    "twos", "threes", "fours", "fives", "sixes", "sevens", "eights", "nines", "tens", "jacks", "queens", "kings",
    "aces",
];
pub const RANK_PRIMES: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];

pub const HIGH: u32 = 0;
pub const PAIR: u32 = 1;
pub const TWO_PAIR: u32 = 2;
pub const TRIPS: u32 = 3;
pub const STRAIGHT: u32 = 4;
pub const FLUSH: u32 = 5;
pub const FULL: u32 = 6;
pub const QUADS: u32 = 7;
pub const SFLUSH: u32 = 8;
pub const CATEGORY: [&str; 9] = [
    "high card", "pair", "two pair", "three of a kind", "straight", "flush", "full house", "four of a kind",
    "straight flush",
];

pub fn rank(c: C) -> u8 { c >> 2 }
pub fn suit(c: C) -> u8 { c & 3 }
pub fn mk(rank: u8, suit: u8) -> C { rank * 4 + suit }

/// The two-character name of a card.
pub fn name(c: C) -> String {
    let mut s = String::new();
    s.push(RANK_CHARS[rank(c) as usize]);
    s.push(SUIT_CHARS[suit(c) as usize]);
    s
}

/// What a string means as a card, from the grammar.
pub fn parse(s: &str) -> Option<C> {
    let v: Vec<char> = s.chars().collect();
    if v.len() != 2 {
        return None;
    }
    let r = RANK_CHARS.iter().position(|&c| c == v[0])?;
    let q = SUIT_CHARS.iter().position(|&c| c == v[1])?;
    Some(mk(r as u8, q as u8))
}

pub fn names(h: &[C]) -> String { h.iter().map(|&c| name(c)).collect::<Vec<_>>().join(" ") }

fn code(cat: u32, rs: [u32; 5]) -> u32 {
    cat << 20 | rs[0] << 16 | rs[1] << 12 | rs[2] << 8 | rs[3] << 4 | rs[4]
}
pub fn category(code: u32) -> u32 { code >> 20 }
pub fn deciding(code: u32, i: u32) -> u8 { ((code >> (16 - 4 * i)) & 15) as u8 }

/// Rank of the highest card of the best straight in a set of ranks.
fn straight(mask: u16) -> Option<u32> {
    for high in (4..=12u32).rev() {
        let m = 0x1fu16 << (high - 4);
        if mask & m == m {
            return Some(high);
        }
    }
    // Ace, two, three, four, five.
    if mask & 0x100f == 0x100f {
        return Some(3);
    }
    None
}

fn top(mask: u16, skip: u16, n: usize) -> [u32; 5] {
    let mut out = [0; 5];
    let mut m = mask & !skip;
    for slot in out.iter_mut().take(n) {
        let r = 15 - m.leading_zeros();
        *slot = r;
        m &= !(1 << r);
    }
    out
}
fn high(mask: u16) -> u32 { 15 - mask.leading_zeros() }

/// Strength of the best five cards among five or more distinct cards, scored directly.
pub fn score(hand: &[C]) -> u32 {
    debug_assert!(hand.len() >= 5);
    let mut suits = [0u16; 4];
    for &c in hand {
        suits[suit(c) as usize] |= 1 << rank(c);
    }
    score_masks(suits)
}

pub fn score_masks(s: [u16; 4]) -> u32 {
    let any = s[0] | s[1] | s[2] | s[3];
    let two = (s[0] & s[1]) | (s[2] & s[3]) | ((s[0] | s[1]) & (s[2] | s[3]));
    let three = (s[0] & s[1] & (s[2] | s[3])) | (s[2] & s[3] & (s[0] | s[1]));
    let four = s[0] & s[1] & s[2] & s[3];

    let mut flush = None;
    let mut sflush = None;
    for m in s {
        if m.count_ones() >= 5 {
            sflush = sflush.max(straight(m));
            flush = flush.max(Some(code(FLUSH, top(m, 0, 5))));
        }
    }
    if let Some(h) = sflush {
        return code(SFLUSH, [h, 0, 0, 0, 0]);
    }
    if four != 0 {
        let q = high(four);
        return code(QUADS, [q, high(any & !(1 << q)), 0, 0, 0]);
    }
    if three != 0 {
        let t = high(three);
        let p = two & !(1 << t);
        if p != 0 {
            return code(FULL, [t, high(p), 0, 0, 0]);
        }
    }
    if let Some(c) = flush {
        return c;
    }
    if let Some(h) = straight(any) {
        return code(STRAIGHT, [h, 0, 0, 0, 0]);
    }
    if three != 0 {
        let t = high(three);
        let k = top(any, 1 << t, 2);
        return code(TRIPS, [t, k[0], k[1], 0, 0]);
    }
    if two.count_ones() >= 2 {
        let p = top(two, 0, 2);
        let k = high(any & !(1 << p[0]) & !(1 << p[1]));
        return code(TWO_PAIR, [p[0], p[1], k, 0, 0]);
    }
    if two != 0 {
        let p = high(two);
        let k = top(any, 1 << p, 3);
        return code(PAIR, [p, k[0], k[1], k[2], 0]);
    }
    code(HIGH, top(any, 0, 5))
}

/// A second five-card scorer in another style (sort by multiplicity), to cross-check [`score`].
pub fn naive5(hand: &[C]) -> u32 {
    assert_eq!(hand.len(), 5);
    let mut groups: Vec<(usize, u8)> = Vec::new();
    for r in 0..13u8 {
        let n = hand.iter().filter(|&&c| rank(c) == r).count();
        if n > 0 {
            groups.push((n, r));
        }
    }
    groups.sort_by(|a, b| b.cmp(a));
    let shape: Vec<usize> = groups.iter().map(|g| g.0).collect();
    let mut rs = [0u32; 5];
    for (i, g) in groups.iter().enumerate() {
        rs[i] = u32::from(g.1);
    }
    let suited = hand.iter().all(|&c| suit(c) == suit(hand[0]));
    let run = shape.len() == 5 && (rs[0] == rs[4] + 4 || rs == [12, 3, 2, 1, 0]);
    let run_high = if rs == [12, 3, 2, 1, 0] { 3 } else { rs[0] };
    let cat = match (&shape[..], suited, run) {
        (_, true, true) => return code(SFLUSH, [run_high, 0, 0, 0, 0]),
        ([4, 1], ..) => QUADS,
        ([3, 2], ..) => FULL,
        (_, true, false) => FLUSH,
        (_, false, true) => return code(STRAIGHT, [run_high, 0, 0, 0, 0]),
        ([3, 1, 1], ..) => TRIPS,
        ([2, 2, 1], ..) => TWO_PAIR,
        ([2, 1, 1, 1], ..) => PAIR,
        _ => HIGH,
    };
    code(cat, rs)
}

/// Best five cards by brute force over subsets with the naive scorer.
pub fn brute(hand: &[C]) -> u32 {
    let mut best = 0;
    combos(hand.len(), 5, |ix| {
        let h: Vec<C> = ix.iter().map(|&i| hand[i]).collect();
        best = best.max(naive5(&h));
        true
    });
    best
}

/// Calls `f` with each increasing index tuple; stops when it returns false.
pub fn combos(n: usize, k: usize, mut f: impl FnMut(&[usize]) -> bool) {
    if k > n {
        return;
    }
    let mut ix: Vec<usize> = (0..k).collect();
    loop {
        if !f(&ix) {
            return;
        }
        let mut i = k;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            if ix[i] < n - k + i {
                ix[i] += 1;
                for j in i + 1..k {
                    ix[j] = ix[j - 1] + 1;
                }
                break;
            }
        }
    }
}

/// All strengths, weakest first, each with one hand that has it.
pub struct Strengths {
    pub codes: Vec<u32>,
    pub hands: Vec<[C; 5]>,
    /// Strength code to position in `codes` (u16::MAX where there is none).
    table: Vec<u16>,
    /// Number of five-card hands of each category.
    pub counts: [u64; 9],
}

impl Strengths {
    pub fn index(&self, code: u32) -> usize {
        let i = self.table[code as usize];
        assert!(i != u16::MAX, "model: unknown strength {code:x}");
        i as usize
    }
}

pub fn strengths() -> &'static Strengths {
    static S: OnceLock<Strengths> = OnceLock::new();
    S.get_or_init(|| {
        let mut first: Vec<Option<[C; 5]>> = vec![None; 9 << 20];
        let mut counts = [0u64; 9];
        for a in 0..48u8 {
            for b in a + 1..49 {
                for c in b + 1..50 {
                    for d in c + 1..51 {
                        for e in d + 1..52 {
                            let h = [a, b, c, d, e];
                            let s = score(&h);
                            counts[category(s) as usize] += 1;
                            first[s as usize].get_or_insert(h);
                        }
                    }
                }
            }
        }
        let mut out = Strengths { codes: vec![], hands: vec![], table: vec![u16::MAX; 9 << 20], counts };
        for (code, h) in first.into_iter().enumerate() {
            if let Some(h) = h {
                out.table[code] = out.codes.len() as u16;
                out.codes.push(code as u32);
                out.hands.push(h);
            }
        }
        out
    })
}

/// Facts known from the literature that the model must reproduce; a failure is an error of the harness.
pub fn self_test(seed: u64) {
    let s = strengths();
    assert_eq!(s.codes.len(), 7462, "model: number of strengths");
    assert_eq!(
        s.counts,
        [1302540, 1098240, 123552, 54912, 10200, 5108, 3744, 624, 40],
        "model: category frequencies"
    );
    for h in &s.hands {
        assert_eq!(score(h), naive5(h), "model: {}", names(h));
    }
    // Scorer against brute force on sets of 5 to 12 cards, skewed towards few suits and ranks.
    let mut x = seed ^ 0x9e37_79b9_7f4a_7c15;
    let mut next = |n: u64| {
        x = mix(x);
        x % n
    };
    for i in 0..6000u64 {
        let n = 5 + (i % 8) as usize;
        let (lo, span) = if i % 3 == 0 { (next(9), 5) } else { (0, 13) };
        let mut hand: Vec<C> = Vec::new();
        while hand.len() < n {
            let c = mk((lo + next(span)) as u8, if i % 5 == 0 { next(8).min(3) as u8 } else { next(4) as u8 });
            if !hand.contains(&c) {
                hand.push(c);
            }
            if i % 3 == 0 && hand.len() >= 10 {
                break;
            }
        }
        assert_eq!(score(&hand), brute(&hand), "model: {}", names(&hand));
    }
}

/// Splitmix64 step: used only to derive fixed orders and seeds from VERIF_SEED.
pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// The text a class of this strength must display.
pub fn text(code: u32) -> String {
    let a = deciding(code, 0) as usize;
    let b = deciding(code, 1) as usize;
    class_text(category(code), a, b)
}

pub fn class_text(cat: u32, a: usize, b: usize) -> String {
    match cat {
        HIGH => format!("High card, {}", RANK_NAMES[a]),
        PAIR => format!("Pair, {}", RANK_PLURALS[a]),
        TWO_PAIR => format!("Two pair, {} and {}", RANK_PLURALS[a], RANK_PLURALS[b]),
        TRIPS => format!("Three of a kind, {}", RANK_PLURALS[a]),
        STRAIGHT => format!("Straight, {}-high", RANK_NAMES[a]),
        FLUSH => format!("Flush, {}-high", RANK_NAMES[a]),
        FULL => format!("Full house, {} over {}", RANK_PLURALS[a], RANK_PLURALS[b]),
        QUADS => format!("Four of a kind, {}", RANK_PLURALS[a]),
        SFLUSH if a == 12 => "Royal flush".to_string(),
        SFLUSH => format!("Straight flush, {}-high", RANK_NAMES[a]),
        _ => unreachable!(),
    }
}
