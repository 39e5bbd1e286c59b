//! Inputs of the equity calculations: description, generation, running.
use crate::ctx::Ctx;
use crate::oracle::*;
use crate::rng::Rng;
use pokers::{approx_equity, exact_equity, HandRange, SimulationResults, SimulatorError};
use std::sync::atomic::AtomicBool;
use std::sync::Arc;

/// higher card, lower card, weight
pub type H = (u8, u8, u8);

#[derive(Clone, Debug)]
pub struct Spot {
    pub ranges: Vec<Vec<H>>,
    pub board: u64,
    pub dead: u64,
    pub threads: u8,
}

pub fn mk_range(h: &[H]) -> HandRange {
    let mut r = HandRange::from_string(String::new());
    r.hands = h.iter().map(|&(a, b, w)| pokers::hand_range::Combo(a, b, w)).collect();
    r
}
pub fn hand_name(h: H) -> String {
    format!("{}{}", card_name(h.0), card_name(h.1))
}
pub fn range_name(r: &[H]) -> String {
    r.iter().map(|h| if h.2 == 100 { hand_name(*h) } else { format!("{}@{}", hand_name(*h), h.2) }).collect::<Vec<_>>().join(",")
}
pub fn bit(c: u8) -> u64 {
    1u64 << c
}
pub fn hm(h: &H) -> u64 {
    bit(h.0) | bit(h.1)
}
/// library order of hands in a parsed range
pub fn sort_hands(r: &mut [H]) {
    r.sort_by_key(|h| (h.0 >> 2, h.1 >> 2, h.0 & 3, h.1 & 3));
}
/// independent numbering of the 1326 hands, from the documented order
pub fn num(a: u8, b: u8) -> usize {
    let (h, l) = if (a >> 2, 3 - (a & 3)) > (b >> 2, 3 - (b & 3)) { (a, b) } else { (b, a) };
    let (r1, s1, r2, s2) = ((h >> 2) as usize, (h & 3) as usize, (l >> 2) as usize, (l & 3) as usize);
    if r1 == r2 {
        let p = [[9, 0, 1, 2], [9, 9, 3, 4], [9, 9, 9, 5]][s1][s2];
        return 6 * (12 - r1) + p;
    }
    let c = class_rank(r1, r2);
    if s1 == s2 {
        78 + 4 * c + s1
    } else {
        390 + 12 * c + 3 * s1 + s2 - (s2 > s1) as usize
    }
}
/// position of the unpaired ranks r1 > r2 in AK, AQ, .., A2, KQ, ..
fn class_rank(r1: usize, r2: usize) -> usize {
    let t = 12 - r1; // ranks above r1
    (0..t).map(|i| 12 - i).sum::<usize>() + (r1 - 1 - r2)
}
pub fn class_of(idx: usize) -> usize {
    match idx {
        i if i < 78 => i / 6,
        i if i < 390 => 13 + (i - 78) / 4,
        i => 91 + (i - 390) / 12,
    }
}
pub fn class_size(cls: usize) -> usize {
    match cls {
        c if c < 13 => 6,
        c if c < 91 => 4,
        _ => 12,
    }
}
pub fn class_start(cls: usize) -> usize {
    match cls {
        c if c < 13 => 6 * c,
        c if c < 91 => 78 + 4 * (c - 13),
        c => 390 + 12 * (c - 91),
    }
}
/// cards of each hand number
pub fn cards_by_num() -> Vec<(u8, u8)> {
    let mut v = vec![(0, 0); 1326];
    for a in 0..52u8 {
        for b in 0..a {
            v[num(a, b)] = (a, b);
        }
    }
    v
}

impl Spot {
    pub fn n(&self) -> usize {
        self.ranges.len()
    }
    pub fn lib(&self) -> Vec<HandRange> {
        self.ranges.iter().map(|r| mk_range(r)).collect()
    }
    pub fn blocked(&self) -> u64 {
        self.board | self.dead
    }
    /// hands that can be dealt
    pub fn live(&self) -> Vec<Vec<H>> {
        let b = self.blocked();
        self.ranges.iter().map(|r| r.iter().copied().filter(|h| hm(h) & b == 0 && h.2 > 0).collect()).collect()
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (i, r) in self.ranges.iter().enumerate() {
            let t = range_name(r);
            if t.len() > 500 {
                s.push_str(&format!("P{i}[{} hands: {}...] ", r.len(), &t[..480]));
            } else {
                s.push_str(&format!("P{i}[{t}] "));
            }
        }
        format!("{s}board[{}] dead[{}] threads {}", mask_name(self.board), mask_name(self.dead), self.threads)
    }
    pub fn n_boards(&self) -> u128 {
        let cards = 52u128.saturating_sub(self.blocked().count_ones() as u128 + 2 * self.n() as u128);
        let k = 5u128.saturating_sub(self.board.count_ones() as u128);
        binom(cards, k)
    }
    /// Makes the weights of some players equal until the counters fit 64 bits whatever is dealt
    /// (products of many mixed weights are a known finding of C11).
    pub fn tame(&mut self, deals: f64) {
        loop {
            let f: Vec<f64> = crate::deal::reduce(&self.ranges).iter().map(|r| r.iter().map(|h| h.1 as f64).fold(1., f64::max)).collect();
            if f.iter().product::<f64>() * deals < 2f64.powi(55) {
                return;
            }
            let p = (0..f.len()).max_by(|&a, &b| f[a].total_cmp(&f[b])).unwrap();
            for h in &mut self.ranges[p] {
                h.2 = if h.2 > 0 { 100 } else { 0 };
            }
        }
    }
    /// number of compatible assignments, or None if more than cap
    pub fn assignments(&self, cap: u64) -> Option<u64> {
        fn rec(l: &[Vec<H>], used: u64, cap: u64, n: &mut u64, steps: &mut u64) -> bool {
            if l.is_empty() {
                *n += 1;
                return *n <= cap;
            }
            for h in &l[0] {
                *steps += 1;
                if *steps > cap * 20 + 100000 {
                    return false;
                }
                if hm(h) & used == 0 && !rec(&l[1..], used | hm(h), cap, n, steps) {
                    return false;
                }
            }
            true
        }
        let mut l = self.live();
        l.sort_by_key(|r| r.len());
        let (mut n, mut steps) = (0, 0);
        if rec(&l, 0, cap, &mut n, &mut steps) { Some(n) } else { None }
    }
    pub fn exact(&self, ctx: &Ctx) -> Result<SimulationResults, SimulatorError> {
        let r = self.lib();
        ctx.ok(&|| format!("exact_equity on {}", self.text()), || {
            exact_equity(&r, self.board, self.dead, self.threads, Arc::new(AtomicBool::new(false)), |_| {})
        })
    }
    /// exact run of a spot known to be possible
    pub fn exact_ok(&self, ctx: &Ctx) -> SimulationResults {
        match self.exact(ctx) {
            Ok(r) => r,
            Err(e) => ctx.violation(&format!("exact_equity refused a possible input with {e:?}: {}", self.text())),
        }
    }
    pub fn approx(&self, ctx: &Ctx, target: f64) -> Result<SimulationResults, SimulatorError> {
        let r = self.lib();
        ctx.ok(&|| format!("approx_equity({target}) on {}", self.text()), || {
            approx_equity(&r, self.board, self.dead, self.threads, target, Arc::new(AtomicBool::new(false)), |_| {})
        })
    }
    pub fn approx_ok(&self, ctx: &Ctx, target: f64) -> SimulationResults {
        match self.approx(ctx, target) {
            Ok(r) => r,
            Err(e) => ctx.violation(&format!("approx_equity refused a possible input with {e:?}: {}", self.text())),
        }
    }
}

pub fn binom(n: u128, k: u128) -> u128 {
    if k > n {
        return 0;
    }
    let mut r = 1;
    for i in 0..k {
        r = r * (n - i) / (i + 1);
    }
    r
}

// ---------------------------------------------------------------- generation

#[derive(Clone)]
pub struct Gen {
    /// bounds on deals to enumerate
    pub max_work: u64,
    pub players: (usize, usize),
    /// allowed board sizes
    pub boards: Vec<usize>,
    /// probability of a deck shortened by many dead cards
    pub short: f64,
    pub weights: bool,
    pub max_hands: usize,
}
impl Default for Gen {
    fn default() -> Self {
        Gen { max_work: 300_000, players: (2, 9), boards: vec![0, 1, 2, 3, 3, 4, 4, 5, 5], short: 0.6, weights: true, max_hands: 40 }
    }
}

/// cards in an order that favours some suits or ranks, so that flushes, straights and ties are common
pub fn biased_deck(rng: &mut Rng) -> Vec<u8> {
    let mut d: Vec<u8> = (0..52).collect();
    rng.shuffle(&mut d);
    let mode = rng.below(6);
    let (a, b) = (rng.below(4) as u8, rng.below(4) as u8);
    let lo = rng.below(9) as u8;
    let key = |c: u8| -> bool {
        match mode {
            0 | 1 => false,
            2 => c & 3 == a,
            3 => c & 3 == a || c & 3 == b,
            4 => c >> 2 >= lo && c >> 2 < lo + 5,
            _ => (c >> 2 >= lo && c >> 2 < lo + 7) && (c & 3 == a || c & 3 == b),
        }
    };
    // favoured cards first, with some noise
    let noise = [0.0, 0.1, 0.3][rng.below(3)];
    let mut k: Vec<(bool, u8)> = d.iter().map(|&c| (!key(c) || rng.chance(noise), c)).collect();
    k.sort_by_key(|x| x.0);
    k.into_iter().map(|x| x.1).collect()
}

pub fn random_weights(rng: &mut Rng, r: &mut [H], allow: bool) {
    let mode = if allow { rng.below(8) } else { 0 };
    let one = *rng.pick(&[1u8, 2, 37, 50, 99, 100]);
    for h in r.iter_mut() {
        h.2 = match mode {
            0..=2 => 100,
            3 => one,
            4 => rng.range(0, 100) as u8,
            5 => *rng.pick(&[0u8, 1, 3, 50, 99, 100]),
            6 => *rng.pick(&[25u8, 50, 75, 100]),
            _ => *rng.pick(&[99u8, 100]),
        };
    }
}

impl Gen {
    /// one candidate, not yet checked for size
    fn candidate(&self, rng: &mut Rng) -> Spot {
        let n = if rng.chance(0.45) { self.players.0 } else { rng.range(self.players.0, self.players.1) };
        let nb = *rng.pick(&self.boards);
        let deck = biased_deck(rng);
        let short = rng.chance(self.short);
        let alive = if short {
            let min = 2 * n + 5;
            min + rng.below(if nb < 3 { 3 } else { 12 })
        } else {
            52 - *rng.pick(&[0, 0, 0, 1, 2, 5])
        }
        .min(52);
        let dead_cards: Vec<u8> = deck[alive..].to_vec();
        let mut live: Vec<u8> = deck[..alive].to_vec();
        // board: from the favoured part or from anywhere
        if rng.chance(0.5) {
            rng.shuffle(&mut live);
        }
        let board: Vec<u8> = live.drain(..nb).collect();
        if rng.chance(0.5) {
            rng.shuffle(&mut live);
        }
        let mut dead = dead_cards.iter().fold(0, |m, &c| m | bit(c));
        let board_m = board.iter().fold(0, |m, &c| m | bit(c));
        if short && rng.chance(0.05) && nb > 0 && dead.count_ones() > 0 {
            // a known board card may be named dead as well
            dead &= dead - 1;
            dead |= bit(board[0]);
        }
        let wide = rng.chance(0.25);
        let mut ranges: Vec<Vec<H>> = vec![];
        // a pool of cards shared by the players makes conflicts between them common
        let pool_n = rng.range((2 * n).min(live.len()), live.len());
        for p in 0..n {
            let k = if wide { rng.range(1, self.max_hands) } else { rng.range(1, 6) };
            let mut r: Vec<H> = vec![];
            for _ in 0..k {
                let blocked = rng.chance(0.08);
                let (a, b) = if blocked {
                    let mut all: Vec<u8> = dead_cards.iter().chain(board.iter()).copied().collect();
                    if all.is_empty() {
                        all = live.clone();
                    }
                    (*rng.pick(&all), *rng.pick(&live))
                } else {
                    (live[rng.below(pool_n)], live[rng.below(pool_n)])
                };
                let h = (a.max(b), a.min(b), 100);
                if a != b && !r.iter().any(|x| (x.0, x.1) == (h.0, h.1)) {
                    r.push(h);
                }
            }
            if p > 0 && rng.chance(0.15) {
                r = ranges[rng.below(p)].clone();
            }
            random_weights(rng, &mut r, self.weights);
            if !rng.chance(0.2) {
                sort_hands(&mut r);
            } else {
                rng.shuffle(&mut r);
            }
            ranges.push(r);
        }
        // make sure there is often a compatible assignment
        if !rng.chance(0.25) {
            let mut l = live.clone();
            rng.shuffle(&mut l);
            for (p, r) in ranges.iter_mut().enumerate() {
                let (a, b) = (l[2 * p].max(l[2 * p + 1]), l[2 * p].min(l[2 * p + 1]));
                if !r.iter().any(|x| (x.0, x.1) == (a, b)) {
                    let w = if self.weights { *rng.pick(&[100u8, 100, 50, 1]) } else { 100 };
                    r.push((a, b, w));
                }
            }
        }
        Spot { ranges, board: board_m, dead, threads: *rng.pick(&[1u8, 1, 1, 2, 3, 4, 8]) }
    }
    /// a possible spot whose full enumeration is affordable; returns it with its number of assignments
    pub fn spot(&self, rng: &mut Rng) -> (Spot, u64) {
        let mut tries = 0;
        loop {
            tries += 1;
            let mut s = self.candidate(rng);
            if tries > 60 {
                // shrink towards something affordable
                for r in &mut s.ranges {
                    r.truncate(3);
                }
            }
            let nb = s.n_boards();
            if nb == 0 || nb > self.max_work as u128 {
                continue;
            }
            let cap = (self.max_work as u128 / nb) as u64;
            // combinations the library may have to look at, most of them conflicting
            if s.live().iter().map(|r| r.len() as f64).product::<f64>() > 3e7 {
                continue;
            }
            match s.assignments(cap) {
                Some(k) if k > 0 => {
                    s.tame((k as f64 * nb as f64).max(2e7));
                    return (s, k);
                }
                _ => continue,
            }
        }
    }
}
