//! Brute-force enumeration of every deal, in 128-bit integers, and comparison with the library's result.
use crate::oracle::*;
use crate::spot::*;
use pokers::SimulationResults;

pub const LCM: u128 = 2520; // of 1..=9, so that every share of a pot is a whole number

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Cell {
    pub win: u128,
    pub tie: u128,
    pub total: u128,
    pub share: u128,
}
#[derive(Clone, Debug)]
pub struct Totals {
    pub n: usize,
    pub by_mask: Vec<u128>,
    pub hand: Vec<Cell>,
    pub total: u128,
    pub deals: u64,
}

/// weights divided by their greatest common divisor, range by range
pub fn reduce(ranges: &[Vec<H>]) -> Vec<Vec<(H, u128)>> {
    fn gcd(a: u128, b: u128) -> u128 {
        if b == 0 { a } else { gcd(b, a % b) }
    }
    ranges
        .iter()
        .map(|r| {
            let g = r.iter().fold(0, |g, h| gcd(g, h.2 as u128)).max(1);
            r.iter().map(|h| (*h, h.2 as u128 / g)).collect()
        })
        .collect()
}

pub fn boards(s: &Spot, mut f: impl FnMut(u64)) {
    let deck: Vec<u8> = (0..52).filter(|&c| s.blocked() >> c & 1 == 0).collect();
    let k = 5 - s.board.count_ones() as usize;
    fn rec(deck: &[u8], k: usize, m: u64, f: &mut impl FnMut(u64)) {
        if k == 0 {
            f(m);
            return;
        }
        for i in 0..=deck.len().saturating_sub(k) {
            if i < deck.len() {
                rec(&deck[i + 1..], k - 1, m | bit(deck[i]), f);
            }
        }
    }
    rec(&deck, k, s.board, &mut f);
}

pub fn enumerate(s: &Spot) -> Totals {
    let n = s.n();
    let live = reduce(&s.live());
    let mut t = Totals { n, by_mask: vec![0; 1 << n], hand: vec![Cell::default(); n * 1326], total: 0, deals: 0 };
    struct E {
        mask: u64,
        w: u128,
        suits: Suits,
        num: usize,
    }
    let pre: Vec<Vec<E>> = live
        .iter()
        .map(|r| r.iter().map(|(h, w)| E { mask: hm(h), w: *w, suits: of(&[h.0, h.1]), num: num(h.0, h.1) }).collect())
        .collect();
    let mut val = vec![0u32; 1326];
    let mut stamp = vec![0u64; 1326];
    let mut round = 0u64;
    struct Item {
        mask: u64,
        v: u32,
        w: u128,
        num: u32,
    }
    let mut avail: Vec<Vec<Item>> = (0..n).map(|_| vec![]).collect();
    struct Acc<'a> {
        t: &'a mut Totals,
        idx: [u32; 9],
    }
    fn rec(p: usize, av: &[Vec<Item>], used: u64, best: u32, win: u32, w: u128, a: &mut Acc) {
        if p == av.len() {
            let k = win.count_ones() as u128;
            a.t.by_mask[win as usize] += w;
            a.t.total += w;
            a.t.deals += 1;
            for i in 0..p {
                let c = &mut a.t.hand[i * 1326 + a.idx[i] as usize];
                c.total += w;
                if win >> i & 1 == 1 {
                    if k == 1 {
                        c.win += w;
                    } else {
                        c.tie += w;
                        c.share += w * (LCM / k);
                    }
                }
            }
            return;
        }
        for it in &av[p] {
            if it.mask & used != 0 {
                continue;
            }
            a.idx[p] = it.num;
            let (b, m) = if it.v > best {
                (it.v, 1 << p)
            } else if it.v == best {
                (best, win | 1 << p)
            } else {
                (best, win)
            };
            rec(p + 1, av, used | it.mask, b, m, w * it.w, a);
        }
    }
    boards(s, |bm| {
        round += 1;
        let bs = of(&cards_of(bm));
        for (p, r) in pre.iter().enumerate() {
            avail[p].clear();
            for e in r {
                if e.mask & bm != 0 {
                    continue;
                }
                if stamp[e.num] != round {
                    stamp[e.num] = round;
                    val[e.num] = value(&or(&bs, &e.suits));
                }
                avail[p].push(Item { mask: e.mask, v: val[e.num], w: e.w, num: e.num as u32 });
            }
        }
        let mut acc = Acc { t: &mut t, idx: [0; 9] };
        rec(0, &avail, 0, 0, 0, 1, &mut acc);
    });
    t
}

/// a * d == b * c, in 128 bits if it fits
pub fn same_ratio(a: u128, b: u128, c: u128, d: u128) -> bool {
    match (a.checked_mul(d), b.checked_mul(c)) {
        (Some(x), Some(y)) => x == y,
        _ => {
            let (x, y) = (a as f64 * d as f64, b as f64 * c as f64);
            (x - y).abs() <= 1e-12 * x.abs().max(y.abs())
        }
    }
}
pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

impl Totals {
    /// what an exact run of the library reports
    pub fn of(r: &SimulationResults, n: usize) -> Totals {
        let by_mask: Vec<u128> = r.wins_by_mask.iter().map(|&x| x as u128).collect();
        let cell = |u: &pokers::UnitResults| Cell { win: u.wins as u128, tie: u.ties as u128, total: u.total as u128, share: (u.corrected_ties * LCM as f64) as u128 };
        let total = by_mask.iter().sum();
        Totals { n, hand: r.hand_results.iter().map(cell).collect(), total, deals: r.eval_count, by_mask }
    }
    pub fn equity(&self, p: usize) -> f64 {
        let mut e = 0.;
        for (m, &x) in self.by_mask.iter().enumerate() {
            if m >> p & 1 == 1 {
                e += x as f64 / m.count_ones() as f64;
            }
        }
        e / self.total as f64
    }
    pub fn class(&self, p: usize, cls: usize) -> Cell {
        let mut c = Cell::default();
        for i in class_start(cls)..class_start(cls) + class_size(cls) {
            let h = &self.hand[p * 1326 + i];
            c.win += h.win;
            c.tie += h.tie;
            c.total += h.total;
            c.share += h.share;
        }
        c
    }
}

/// players' figures of an exact run against the enumeration
pub fn compare_totals(r: &SimulationResults, t: &Totals) -> Result<(), String> {
    let n = t.n;
    if r.wins.len() != n || r.ties.len() != n || r.equities.len() != n || r.wins_by_mask.len() != 1 << n {
        return Err("result lists have the wrong length".into());
    }
    let tl: u128 = r.wins_by_mask.iter().map(|&x| x as u128).sum();
    if tl == 0 {
        return Err("no deal was counted".into());
    }
    for m in 0..1 << n {
        if !same_ratio(r.wins_by_mask[m] as u128, t.by_mask[m], tl, t.total) {
            return Err(format!("winner set {m:b}: {} of {tl} deals, enumeration says {} of {}", r.wins_by_mask[m], t.by_mask[m], t.total));
        }
    }
    for p in 0..n {
        let w = t.by_mask[1 << p];
        if !same_ratio(r.wins[p] as u128, w, tl, t.total) {
            return Err(format!("player {p} wins {} of {tl}, enumeration says {w} of {}", r.wins[p], t.total));
        }
        let share: f64 = (0..1usize << n).filter(|m| m >> p & 1 == 1 && m.count_ones() > 1).map(|m| t.by_mask[m] as f64 / m.count_ones() as f64).sum();
        let (a, b) = (r.ties[p] / tl as f64, share / t.total as f64);
        if !((a - b).abs() < 1e-10) {
            return Err(format!("player {p} tie share {a}, enumeration says {b}"));
        }
        let e = t.equity(p);
        if !((r.equities[p] - e).abs() < 1e-10) {
            return Err(format!("player {p} equity {}, enumeration says {e}", r.equities[p]));
        }
    }
    Ok(())
}

pub fn compare_hands(r: &SimulationResults, t: &Totals) -> Result<(), String> {
    let n = t.n;
    let tl: u128 = r.wins_by_mask.iter().map(|&x| x as u128).sum();
    if r.hand_results.len() != n * 1326 || r.combo_results.len() != n * 169 {
        return Err("hand or combo list has the wrong length".into());
    }
    let cmp = |what: String, u: &pokers::UnitResults, c: &Cell| -> Result<(), String> {
        let err = |m: &str| Err(format!("{what}: {m}\nlibrary {u:?}\nenumeration {c:?} (shares in 1/2520) with totals {tl} and {}", t.total));
        for x in [u.equity, u.winrate, u.tierate, u.corrected_ties] {
            if !x.is_finite() {
                return err("not finite");
            }
        }
        if !same_ratio(u.total as u128, c.total, tl, t.total) {
            return err("total");
        }
        if !same_ratio(u.wins as u128, c.win, tl, t.total) {
            return err("wins");
        }
        if !same_ratio(u.ties as u128, c.tie, tl, t.total) {
            return err("ties");
        }
        let share = c.share as f64 / LCM as f64;
        if !((u.corrected_ties / tl as f64 - share / t.total as f64).abs() < 1e-10) {
            return err("tie share");
        }
        let (eq, wr, tr) = if c.total > 0 {
            let d = c.total as f64;
            ((c.win as f64 + share) / d, c.win as f64 / d, c.tie as f64 / d)
        } else {
            (0., 0., 0.)
        };
        if !near(u.equity, eq, 1e-9) {
            return err("equity");
        }
        if !near(u.winrate, wr, 1e-9) {
            return err("win rate");
        }
        if !near(u.tierate, tr, 1e-9) {
            return err("tie rate");
        }
        Ok(())
    };
    for p in 0..n {
        for i in 0..1326 {
            cmp(format!("player {p} hand number {i}"), &r.hand_results[p * 1326 + i], &t.hand[p * 1326 + i])?;
        }
        for c in 0..169 {
            cmp(format!("player {p} starting hand number {c}"), &r.combo_results[p * 169 + c], &t.class(p, c))?;
        }
    }
    Ok(())
}

/// Conservation identities within one result, whatever produced it.
/// `rate_tie`: how the tie rate of board entries may be defined is left open.
pub fn conserve(r: &SimulationResults, n: usize, board_cards: u32) -> Result<u64, String> {
    let mut checked = 0u64;
    if r.wins.len() != n
        || r.ties.len() != n
        || r.equities.len() != n
        || r.wins_by_mask.len() != 1 << n
        || r.hand_results.len() != 1326 * n
        || r.combo_results.len() != 169 * n
        || r.board_results.len() != 9 * n
        || r.board_draws.len() != 10 * n
    {
        return Err("a result list has the wrong length".into());
    }
    let tl: u128 = r.wins_by_mask.iter().map(|&x| x as u128).sum();
    let tf = tl as f64;
    if r.wins_by_mask[0] != 0 {
        return Err("deals without a winner".into());
    }
    let unit_ok = |what: &str, u: &pokers::UnitResults| -> Result<(), String> {
        for (k, x) in [("equity", u.equity), ("win rate", u.winrate), ("tie rate", u.tierate)] {
            if !(x.is_finite() && x >= 0. && x <= 1. + 1e-9) {
                return Err(format!("{what}: {k} {x} is not within 0..1"));
            }
        }
        if !u.corrected_ties.is_finite() || u.corrected_ties < 0. {
            return Err(format!("{what}: tie share {}", u.corrected_ties));
        }
        let slack = if u.total > 1 << 62 { 2 } else { 0 };
        if u.wins as u128 + u.ties as u128 > u.total as u128 + slack {
            return Err(format!("{what}: wins {} + ties {} exceed total {}", u.wins, u.ties, u.total));
        }
        let t = u.ties as f64;
        if u.corrected_ties > t / 2. * (1. + 1e-9) + 1e-6 || u.corrected_ties < t / n as f64 * (1. - 1e-9) - 1e-6 {
            return Err(format!("{what}: tie share {} of {} ties among {n} players", u.corrected_ties, u.ties));
        }
        if u.total > 0 {
            let d = u.total as f64;
            if !near(u.equity, (u.wins as f64 + u.corrected_ties) / d, 1e-9) || !near(u.winrate, u.wins as f64 / d, 1e-9) {
                return Err(format!("{what}: rates do not follow from the counts: {u:?}"));
            }
        } else if u.equity != 0. || u.winrate != 0. || u.tierate != 0. {
            return Err(format!("{what}: rates without deals: {u:?}"));
        }
        Ok(())
    };
    let mut esum = 0.;
    for p in 0..n {
        let tie_cnt: u128 = (0..1usize << n).filter(|m| m >> p & 1 == 1 && m.count_ones() > 1).map(|m| r.wins_by_mask[m] as u128).sum();
        let share: f64 = (0..1usize << n).filter(|m| m >> p & 1 == 1 && m.count_ones() > 1).map(|m| r.wins_by_mask[m] as f64 / m.count_ones() as f64).sum();
        if r.wins[p] != r.wins_by_mask[1 << p] {
            return Err(format!("player {p}: wins {} but winner-set count {}", r.wins[p], r.wins_by_mask[1 << p]));
        }
        if !((r.ties[p] - share).abs() <= 1e-9 * tf + 1e-6) {
            return Err(format!("player {p}: tie share {} but the winner sets give {share}", r.ties[p]));
        }
        let e = if tl > 0 { (r.wins[p] as f64 + share) / tf } else { 0. };
        if !((r.equities[p] - e).abs() <= 1e-9) {
            return Err(format!("player {p}: equity {} but (wins + ties) / total = {e}", r.equities[p]));
        }
        esum += r.equities[p];
        let hs = &r.hand_results[p * 1326..(p + 1) * 1326];
        let sum = |f: &dyn Fn(&pokers::UnitResults) -> u64| hs.iter().map(|h| f(h) as u128).sum::<u128>();
        for (i, h) in hs.iter().enumerate() {
            unit_ok(&format!("player {p} hand {i}"), h)?;
            if h.total > 0 && !near(h.tierate, h.ties as f64 / h.total as f64, 1e-9) {
                return Err(format!("player {p} hand {i}: tie rate {h:?}"));
            }
            if h.total > 0 {
                checked += 1;
            }
        }
        if sum(&|h| h.total) != tl {
            return Err(format!("player {p}: hands account for {} of {tl}", sum(&|h| h.total)));
        }
        if sum(&|h| h.wins) != r.wins[p] as u128 {
            return Err(format!("player {p}: hands win {} but the player {}", sum(&|h| h.wins), r.wins[p]));
        }
        if sum(&|h| h.ties) != tie_cnt {
            return Err(format!("player {p}: hands tie {} but the winner sets {}", sum(&|h| h.ties), tie_cnt));
        }
        let cs: f64 = hs.iter().map(|h| h.corrected_ties).sum();
        if !((cs - share).abs() <= 1e-9 * tf + 1e-6) {
            return Err(format!("player {p}: hands' tie shares {cs} but the player's {share}"));
        }
        // starting-hand classes
        let group = |what: String, u: &pokers::UnitResults, members: &[&pokers::UnitResults], board: bool| -> Result<(), String> {
            unit_ok(&what, u)?;
            let (mut w, mut t, mut d, mut c) = (0u128, 0u128, 0u128, 0.);
            for h in members {
                w += h.wins as u128;
                t += h.ties as u128;
                d += h.total as u128;
                c += h.corrected_ties;
            }
            let err = |m: &str| Err(format!("{what}: {m}: {u:?} but its hands sum to wins {w} ties {t} total {d} tie share {c}"));
            if d <= u64::MAX as u128 {
                if u.total as u128 != d || u.wins as u128 != w || u.ties as u128 != t {
                    return err("counts");
                }
                if !((u.corrected_ties - c).abs() <= 1e-9 * d as f64 + 1e-6) {
                    return err("tie share");
                }
            } else {
                // figures too large for the counters are scaled down together
                if u.total == 0 {
                    return err("lost");
                }
                let k = d as f64 / u.total as f64;
                if k < 1.0 - 1e-9 || !near(u.wins as f64 * k / d as f64, w as f64 / d as f64, 1e-9) || !near(u.ties as f64 * k / d as f64, t as f64 / d as f64, 1e-9) || !near(u.corrected_ties * k / d as f64, c / d as f64, 1e-9) {
                    return err("scaled counts");
                }
            }
            if d > 0 {
                let df = d as f64;
                if !near(u.winrate, w as f64 / df, 1e-9) || !near(u.equity, (w as f64 + c) / df, 1e-9) {
                    return err("rates");
                }
                if !near(u.tierate, t as f64 / df, 1e-9) && !(board && near(u.tierate, c / df, 1e-9)) {
                    return err("tie rate");
                }
            }
            Ok(())
        };
        for cls in 0..169 {
            let m: Vec<&pokers::UnitResults> = (class_start(cls)..class_start(cls) + class_size(cls)).map(|i| &hs[i]).collect();
            let u = &r.combo_results[p * 169 + cls];
            group(format!("player {p} starting hand {cls}"), u, &m, false)?;
            // a class dealt completely and evenly has the weight of its hands
            if m.iter().all(|h| h.total > 0 && h.weight == m[0].weight) && u.weight != m[0].weight {
                return Err(format!("player {p} starting hand {cls}: weight {} but all its hands have {}", u.weight, m[0].weight));
            }
            checked += 1;
        }
        if board_cards >= 3 {
            for k in 0..9u8 {
                let m: Vec<&pokers::UnitResults> = hs.iter().filter(|h| h.valid && h.rank == k).collect();
                let u = &r.board_results[p * 9 + k as usize];
                group(format!("player {p} category {k}"), u, &m, true)?;
                if u.total > 0 && u.weight as u64 != m.iter().map(|h| h.weight as u64).sum::<u64>() {
                    return Err(format!("player {p} category {k}: weight {} is not the sum over its hands", u.weight));
                }
                checked += 1;
            }
            let cat: f64 = (0..9).map(|k| r.board_results[p * 9 + k].total as f64).sum();
            let big = (0..9).any(|k| r.board_results[p * 9 + k].total > 1 << 62);
            if !big && cat != tf && !near(cat, tf, 1e-12) {
                return Err(format!("player {p}: categories account for {cat} of {tf}"));
            }
            for k in 0..10 {
                let m: Vec<&pokers::UnitResults> = hs.iter().filter(|h| h.valid && in_draw(h.draw, k)).collect();
                let u = &r.board_draws[p * 10 + k];
                group(format!("player {p} draw {k}"), u, &m, true)?;
                if u.total > 0 && u.weight as u64 != m.iter().map(|h| h.weight as u64).sum::<u64>() {
                    return Err(format!("player {p} draw {k}: weight {} is not the sum over its hands", u.weight));
                }
                if u.total > 0 {
                    checked += 1;
                }
            }
        }
    }
    if tl > 0 && !((esum - 1.).abs() < 1e-9) {
        return Err(format!("equities sum to {esum}"));
    }
    Ok(checked)
}

/// does a hand with these draw flags belong to draw entry k?
pub fn in_draw(d: u8, k: usize) -> bool {
    if k < 7 {
        return d >> k & 1 == 1;
    }
    if d & 128 == 0 {
        return false;
    }
    match k {
        7 => d & 64 != 0,
        8 => d & 32 != 0,
        _ => d & (32 | 64) == 0,
    }
}
