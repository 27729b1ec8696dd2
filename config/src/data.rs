//! Generated data of the checks that run in processes of their own.
use poker::Card;
use pokercheck::model::mix;

/// The card of a number in one of the crates.
macro_rules! card {
    ($lib:ident, $n:expr) => {{
        use $lib::{Rank::*, Suit::*};
        $lib::Card::new(
            [Two, Three, Four, Five, Six, Seven, Eight, Nine, Ten, Jack, Queen, King, Ace][$n / 4],
            [Clubs, Diamonds, Hearts, Spades][$n % 4],
        )
    }};
}

pub(crate) use card;

pub struct X(pub u64);
impl X {
    pub fn below(&mut self, n: usize) -> usize {
        self.0 = mix(self.0);
        (self.0 % n as u64) as usize
    }
    pub fn numbers(&mut self, n: usize) -> Vec<usize> {
        let mut pool: Vec<usize> = match self.below(4) {
            0 if n <= 20 => {
                let low = self.below(9);
                (low * 4..low * 4 + 20).collect()
            }
            1 if n <= 13 => {
                let s = self.below(4);
                (0..13).map(|r| r * 4 + s).collect()
            }
            2 if n == 5 => {
                let (low, s) = (self.below(9), self.below(4));
                (low..low + 5).map(|r| r * 4 + s).collect()
            }
            _ => (0..52).collect(),
        };
        (0..n)
            .map(|i| {
                let j = i + self.below(pool.len() - i);
                pool.swap(i, j);
                pool[i]
            })
            .collect()
    }
    pub fn hand(&mut self, n: usize) -> Vec<Card> { self.numbers(n).iter().map(|&c| card!(poker, c)).collect() }
    pub fn not_a_hand(&mut self) -> Vec<Card> { self.bad_numbers().iter().map(|&c| card!(poker, c)).collect() }
    /// Cards that are not a hand.
    pub fn bad_numbers(&mut self) -> Vec<usize> {
        let n = self.below(40);
        if n < 5 && self.below(2) == 0 {
            return self.numbers(n);
        }
        let n = n.max(2);
        let mut h = self.numbers(n.min(30));
        let (a, b) = (self.below(h.len()), self.below(h.len()));
        if a == b {
            h.push(h[a]);
        } else {
            h[a] = h[b];
        }
        h
    }
    pub fn text(&mut self) -> String {
        let n = match self.below(12) {
            0 => 0,
            1 => 1,
            2 => 3,
            3 => self.below(60),
            4 => self.below(10) * self.below(60),
            _ => 2,
        };
        let odd = self.below(3) == 0;
        (0..n)
            .map(|i| match (odd, i) {
                (false, 0) => b"23456789TJQKA"[self.below(13)] as char,
                (false, 1) => b"chds"[self.below(4)] as char,
                _ => ['A', 'c', 'x', '1', ' ', 'é', '♠', '𝕏', '\u{0}', '\u{301}', 'T', '0'][self.below(12)],
            })
            .collect()
    }
    pub fn texts(&mut self, good: bool) -> Vec<String> {
        let n = self.below(12);
        if good {
            return self.hand(n).iter().map(|c| c.rank_suit_string()).collect();
        }
        (0..n).map(|_| self.text()).collect()
    }
}
