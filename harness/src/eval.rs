//! C01-C05, C26 (tables), C29, C30: hand evaluator, card tables, division, draws.
use crate::ctx::Ctx;
use crate::oracle::*;
use crate::rng::Rng;
use crate::spot::*;
use pokers::{get_card_index, get_draw, Hand, CARDS};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};

fn check_oracle(ctx: &Ctx) {
    match self_check(&mut Rng::new(ctx.seed, "oracle", 0)) {
        Ok(n) => ctx.tag("oracle_self_check_hands", n),
        Err(e) => ctx.inconclusive(&e),
    }
}
pub fn hand_of(cards: &[u8]) -> Hand {
    let mut h = Hand::default();
    for &c in cards {
        h += CARDS[c as usize];
    }
    h
}
fn names(c: &[u8]) -> String {
    c.iter().map(|&x| card_name(x)).collect()
}

/// visits every set of `k` cards containing the two given lowest-numbered ones
fn sets(first: u8, second: u8, k: usize, f: &mut impl FnMut(&[u8], &Hand, &Suits)) {
    fn rec(cards: &mut [u8; 7], d: usize, k: usize, h: Hand, s: Suits, f: &mut impl FnMut(&[u8], &Hand, &Suits)) {
        if d == k {
            f(&cards[..k], &h, &s);
            return;
        }
        for c in cards[d - 1] + 1..=(52 - (k - d) as u8) {
            cards[d] = c;
            rec(cards, d + 1, k, h + CARDS[c as usize], add(s, c), f);
        }
    }
    let mut cards = [0u8; 7];
    cards[0] = first;
    cards[1] = second;
    let h = Hand::default() + CARDS[first as usize] + CARDS[second as usize];
    if second as usize + k - 2 <= 51 || k == 2 {
        rec(&mut cards, 2, k, h, add(add([0; 4], first), second), f);
    }
}
fn pair_of(case: u64) -> (u8, u8) {
    let mut c = case;
    for a in 0..52u64 {
        if c < 51 - a {
            return (a as u8, (a + 1 + c) as u8);
        }
        c -= 51 - a;
    }
    unreachable!()
}

pub fn c01(ctx: &Ctx) {
    check_oracle(ctx);
    ctx.rule("every set of 5, 6 and 7 of the 52 cards, added card by card; the score is compared with an independent evaluator: one score per best-five value, and scores ordered like the values");
    ctx.exhaustive();
    // score seen for each value of the independent evaluator
    let table: Vec<AtomicU32> = (0..10 << 20).map(|_| AtomicU32::new(0)).collect();
    let count = AtomicU64::new(0);
    ctx.par("all_sets", 1326, 8, 600, |case, _| {
        let (a, b) = pair_of(case);
        let mut n = 0;
        ctx.ok(&|| format!("evaluate() on sets starting with {}", names(&[a, b])), || {
            for k in 5..=7 {
                sets(a, b, k, &mut |cards, h, s| {
                    let v = value(s);
                    let sc = h.evaluate() as u32 + 1;
                    n += 1;
                    let old = table[v as usize].load(Relaxed);
                    if old != sc {
                        if let Err(old) = table[v as usize].compare_exchange(0, sc, Relaxed, Relaxed) {
                            if old != sc {
                                ctx.violation(&format!(
                                    "{} scores {} but other hands of the same value (category {}, {:05x}) score {}",
                                    names(cards), sc - 1, category(v), v & 0xfffff, old - 1
                                ));
                            }
                        }
                    }
                });
            }
        });
        count.fetch_add(n, Relaxed);
    });
    let mut last = (0u32, 0u32);
    let mut values = 0;
    for v in 0..table.len() as u32 {
        let s = table[v as usize].load(Relaxed);
        if s == 0 {
            continue;
        }
        values += 1;
        if s <= last.1 {
            ctx.violation(&format!("value {v:x} scores {} but the lower value {:x} scores {}", s - 1, last.0, last.1 - 1));
        }
        last = (v, s);
    }
    ctx.tag("distinct_values", values);
    ctx.sample(format!("highest value {:x} scores {}", last.0, last.1 - 1));
    let n = count.load(Relaxed);
    ctx.bulk(n, n);
    if ctx.only_case.is_none() && values != 7462 {
        ctx.inconclusive(&format!("{values} values seen, 7462 expected"));
    }
    ctx.finish(156_000_000)
}

pub fn c02(ctx: &Ctx) {
    check_oracle(ctx);
    ctx.rule("every set of 0 to 7 of the 52 cards: score / 4096 is compared with the category of an independent evaluator; up to 4 cards the scores are ordered like the ranks held");
    ctx.exhaustive();
    let count = AtomicU64::new(0);
    // up to four cards: by number of cards, value -> score
    let mut maps: Vec<std::collections::BTreeMap<u32, (u16, String)>> = vec![Default::default(); 5];
    let mut bad_one = vec![];
    let e = ctx.ok(&|| "evaluate() on the empty hand".into(), || Hand::default().evaluate());
    if e / 4096 != 1 {
        bad_one.push((format!("empty={e}"), format!("evaluate() of a hand without cards is {e}, category {}", e / 4096)));
    }
    let mut prev: i32 = -1;
    for r in 0..13u8 {
        let sc: Vec<u16> = (0..4).map(|s| ctx.ok(&|| format!("evaluate() on {}", names(&[4 * r + s])), || hand_of(&[4 * r + s]).evaluate())).collect();
        let rank = RANKS[r as usize] as char;
        if sc.iter().any(|x| *x != sc[0]) {
            ctx.violation(&format!("a single {rank} scores {sc:?} depending on its suit"));
        }
        if sc[0] / 4096 != 1 || (sc[0] as i32) <= prev {
            bad_one.push((format!("{rank}={}", sc[0]), format!("evaluate() of a single {rank} is {}, not a high-card score above those of lower cards", sc[0])));
        } else {
            prev = sc[0] as i32;
        }
    }
    for (sig, what) in &bad_one {
        ctx.finding(sig, what);
    }
    ctx.bulk(53, 14);
    for a in 0..52u8 {
        for b in a + 1..52 {
            ctx.ok(&|| format!("evaluate() on sets starting with {}", names(&[a, b])), || {
                for k in 2..=4 {
                    sets(a, b, k, &mut |cards, h, s| {
                        let v = value(s);
                        let sc = h.evaluate();
                        count.fetch_add(1, Relaxed);
                        if sc as u32 / 4096 != category(v) {
                            ctx.violation(&format!("{} scores {sc}, category {}, but holds category {}", names(cards), sc / 4096, category(v)));
                        }
                        let e = maps[k].entry(v).or_insert_with(|| (sc, names(cards)));
                        if e.0 != sc {
                            ctx.violation(&format!("{} scores {sc} but {} with the same ranks scores {}", names(cards), e.1, e.0));
                        }
                    });
                }
            });
        }
    }
    for (k, m) in maps.iter().enumerate() {
        let v: Vec<_> = m.values().collect();
        for w in v.windows(2) {
            if w[0].0 >= w[1].0 {
                ctx.violation(&format!("of {k} cards, {} scores {} and the stronger {} scores {}", w[0].1, w[0].0, w[1].1, w[1].0));
            }
        }
        ctx.tag(&format!("rank_sets_of_{k}_cards"), v.len() as u64);
    }
    ctx.par("all_sets", 1326, 8, 600, |case, _| {
        let (a, b) = pair_of(case);
        let mut n = 0;
        ctx.ok(&|| format!("evaluate() on sets starting with {}", names(&[a, b])), || {
            for k in 5..=7 {
                sets(a, b, k, &mut |cards, h, s| {
                    let v = value(s);
                    let sc = h.evaluate();
                    n += 1;
                    if sc as u32 / 4096 != category(v) {
                        ctx.violation(&format!("{} scores {sc}, category {}, but holds category {}", names(cards), sc / 4096, category(v)));
                    }
                });
            }
        });
        count.fetch_add(n, Relaxed);
    });
    ctx.sample("2s2h vs 3s4h: pair above any two unpaired cards".into());
    let n = count.load(Relaxed);
    ctx.bulk(n, n);
    ctx.finish(156_000_000)
}

const PERMS: [[u8; 4]; 24] = {
    let mut p = [[0u8; 4]; 24];
    let mut i = 0;
    let mut a = 0;
    while a < 4 {
        let mut b = 0;
        while b < 4 {
            let mut c = 0;
            while c < 4 {
                if a != b && a != c && b != c {
                    p[i] = [a, b, c, 6 - a - b - c];
                    i += 1;
                }
                c += 1;
            }
            b += 1;
        }
        a += 1;
    }
    p
};
pub fn perms() -> &'static [[u8; 4]; 24] {
    &PERMS
}
pub fn resuit(c: u8, p: &[u8; 4]) -> u8 {
    c & !3 | p[(c & 3) as usize]
}

pub fn c03(ctx: &Ctx) {
    check_oracle(ctx);
    ctx.rule("sets of 2 to 7 cards (all sets of up to 3, random ones above, drawn so that flushes, straights and pairs are frequent); each is built in several orders and groupings, from a mask, as hole cards plus board, and under all suit permutations; non-trivial: 5 or more cards");
    let build = |cards: &[u8], rng: &mut Rng| {
        let base = hand_of(cards);
        let mask = cards.iter().fold(0, |m, &c| m | bit(c));
        let what = || names(cards);
        let score = base.evaluate();
        let same = |h: Hand, route: &str, order: &[u8]| {
            if h != base {
                ctx.violation(&format!("{} built {route} ({}) is a different hand: {h:?} and {base:?}", what(), names(order)));
            }
            if h.evaluate() != score {
                ctx.violation(&format!("{} built {route} scores {} instead of {score}", what(), h.evaluate()));
            }
        };
        same(Hand::from_bit_mask(mask), "from a mask", cards);
        let mut o = cards.to_vec();
        for _ in 0..3 {
            rng.shuffle(&mut o);
            // by += from the default hand, or by + of two separately built parts
            same(hand_of(&o), "card by card", &o);
            let mut h = Hand::default();
            for &c in &o {
                h = h + CARDS[c as usize];
            }
            same(h, "by adding", &o);
            if o.len() >= 2 {
                let hole = Hand::from_hole_cards(o[0], o[1]);
                let rest = o[2..].iter().fold(0, |m, &c| m | bit(c));
                same(Hand::from_bit_mask(rest) + hole, "as board + hole cards", &o);
                same(hole + Hand::from_bit_mask(rest), "as hole cards + board", &o);
                same(Hand::from_bit_mask(rest) + Hand::from_hole_cards(o[1], o[0]), "as board + swapped hole cards", &o);
                let mut b = hand_of(&o[2..]);
                b += hole;
                same(b, "as board += hole cards", &o);
            }
            if o.len() >= 4 {
                let h = Hand::from_hole_cards(o[0], o[1]) + (Hand::from_hole_cards(o[2], o[3]) + hand_of(&o[4..]));
                same(h, "grouped", &o);
            }
        }
        // suits
        for p in perms() {
            let q: Vec<u8> = cards.iter().map(|&c| resuit(c, p)).collect();
            let s = hand_of(&q).evaluate();
            if s != score {
                ctx.violation(&format!("{} scores {score} but with suits renamed, {}, it scores {s}", what(), names(&q)));
            }
            let f = hand_of(&q).evaluate_without_flush();
            if f != base.evaluate_without_flush() {
                ctx.violation(&format!("flush-free score of {} changes to {f} when suits are renamed to {}", what(), names(&q)));
            }
        }
        // without flush
        let s = of(cards);
        let nf = base.evaluate_without_flush();
        let five = s.iter().any(|m| m.count_ones() >= 5);
        if !five && nf != score {
            ctx.violation(&format!("{} has no five cards of a suit, scores {score}, but {nf} without flush", what()));
        }
        if five {
            // same ranks dealt over the suits so that no flush is possible
            if let Some(q) = spread(cards) {
                let e = hand_of(&q).evaluate();
                if e != nf {
                    ctx.violation(&format!("{} scores {nf} without flush but its ranks as {} score {e}", what(), names(&q)));
                }
            }
            if nf as u32 / 4096 != category(value_noflush(&s)) {
                ctx.violation(&format!("{} scores {nf} without flush, but holds category {} then", what(), category(value_noflush(&s))));
            }
        }
        five
    };
    ctx.par("small", 52, 8, 300, |a, rng| {
        let a = a as u8;
        ctx.ok(&|| format!("hands starting with {}", card_name(a)), || {
            let mut n = 0;
            for b in a + 1..52 {
                build(&[a, b], rng);
                n += 1;
                for c in b + 1..52 {
                    build(&[a, b, c], rng);
                    n += 1;
                }
            }
            ctx.bulk(n, 0);
        });
    });
    // every pattern of ranks with a flush: the flush table and the flush-free path side by side
    ctx.par("flushes", 4, 8, 300, |suit, rng| {
        ctx.ok(&|| "flush hands".into(), || {
            let mut n = 0;
            for m in 0u32..1 << 13 {
                let k = m.count_ones();
                if !(5..=7).contains(&k) {
                    continue;
                }
                let mut c: Vec<u8> = (0..13).filter(|r| m >> r & 1 == 1).map(|r| 4 * r as u8 + suit as u8).collect();
                // fill up with offsuit cards pairing or not
                while c.len() < 7 && rng.chance(0.7) {
                    let x = (rng.below(13) * 4 + (suit as usize + 1 + rng.below(3)) % 4) as u8;
                    if !c.contains(&x) {
                        c.push(x);
                    }
                }
                build(&c, rng);
                n += 1;
            }
            ctx.bulk(n, n);
        });
    });
    ctx.par("random", ctx.n(600, 9000), 8, 60, |_, rng| {
        ctx.ok(&|| "random hands".into(), || {
            let (mut n, mut nt, mut fl) = (0, 0, 0);
            for _ in 0..2000 {
                let d = biased_deck(rng);
                let k = rng.range(4, 7);
                let f = build(&d[..k], rng);
                n += 1;
                nt += (k >= 5) as u64;
                fl += f as u64;
                if n == 1 {
                    ctx.sample(names(&d[..k]));
                }
            }
            ctx.bulk(n, nt);
            ctx.tag("hands_with_five_of_a_suit", fl);
        });
    });
    ctx.finish(20_000)
}
/// the same ranks with suits assigned so that no five share one
fn spread(cards: &[u8]) -> Option<Vec<u8>> {
    let mut cnt = [0; 13];
    let mut q = vec![];
    let mut left: Vec<u8> = cards.iter().map(|c| c >> 2).collect();
    left.sort();
    let mut suit = 0u8;
    let mut used = std::collections::HashSet::new();
    for r in left {
        cnt[r as usize] += 1;
        for _ in 0..4 {
            let c = 4 * r + suit;
            suit = (suit + 1) & 3;
            if used.insert(c) {
                q.push(c);
                break;
            }
        }
    }
    let s = of(&q);
    (q.len() == cards.len() && s.iter().all(|m| m.count_ones() < 5)).then_some(q)
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("all sets of up to 4 cards and random sequences of up to 7 additions (favouring one suit); after every addition all accessors are compared with the set; non-trivial: 3 or more cards");
    let check = |h: &Hand, cards: &[u8]| {
        let s = of(cards);
        let bad = |m: String| ctx.violation(&format!("{}: {m}", names(cards)));
        if h.count() as usize != cards.len() {
            bad(format!("count() is {}", h.count()));
        }
        let mut all = 0;
        for k in 0..4u8 {
            all |= s[k as usize];
            if h.suit_count(k) != s[k as usize].count_ones() as i32 {
                bad(format!("suit_count({k}) is {}", h.suit_count(k)));
            }
            if h.get_suit_mask(k) != s[k as usize] {
                bad(format!("get_suit_mask({k}) is {:b}", h.get_suit_mask(k)));
            }
        }
        if h.get_rank_mask() != all {
            bad(format!("get_rank_mask() is {:b}", h.get_rank_mask()));
        }
        for c in 0..52u8 {
            if h.contains(c) != cards.contains(&c) {
                bad(format!("contains({}) is {}", card_name(c), h.contains(c)));
            }
        }
        let fl = s.iter().find(|m| m.count_ones() >= 5);
        if h.has_flush() != fl.is_some() {
            bad(format!("has_flush() is {}", h.has_flush()));
        }
        if h.get_flush_key() != fl.map_or(0, |m| *m as usize) {
            bad(format!("get_flush_key() is {:b}", h.get_flush_key()));
        }
    };
    ctx.par("small", 52, 8, 300, |a, _| {
        let a = a as u8;
        ctx.ok(&|| format!("accessors of sets starting with {}", card_name(a)), || {
            let h1 = Hand::default() + CARDS[a as usize];
            check(&Hand::default(), &[]);
            check(&h1, &[a]);
            let (mut n, mut nt) = (2, 0);
            for b in a + 1..52 {
                let h2 = h1 + CARDS[b as usize];
                check(&h2, &[a, b]);
                check(&Hand::from_hole_cards_guarded(a, b), &[a, b]);
                n += 1;
                for c in b + 1..52 {
                    let h3 = h2 + CARDS[c as usize];
                    check(&h3, &[a, b, c]);
                    nt += 1;
                    for d in c + 1..52 {
                        check(&(h3 + CARDS[d as usize]), &[a, b, c, d]);
                        nt += 1;
                    }
                }
            }
            ctx.bulk(n + nt, nt);
        });
    });
    ctx.par("sequences", ctx.n(200, 3000), 8, 60, |_, rng| {
        ctx.ok(&|| "accessors over random sequences".into(), || {
            let (mut n, mut nt) = (0, 0);
            for i in 0..1500 {
                let d = biased_deck(rng);
                let mut h = Hand::default();
                if i == 0 {
                    ctx.sample(names(&d[..7]));
                }
                for k in 1..=7 {
                    h += CARDS[d[k - 1] as usize];
                    check(&h, &d[..k]);
                    n += 1;
                    nt += (k >= 3) as u64;
                }
                let m = d[..7].iter().fold(0, |m, &c| m | bit(c));
                check(&Hand::from_bit_mask(m), &d[..7]);
                check(&(Hand::from_bit_mask(m & !hm(&(d[0], d[1], 0))) + Hand::from_hole_cards(d[0], d[1])), &d[..7]);
            }
            ctx.bulk(n, nt);
        });
    });
    // all flush patterns
    ctx.par("flushes", 4, 8, 100, |suit, _| {
        let mut n = 0;
        ctx.ok(&|| "accessors of flush hands".into(), || {
            for m in 0u32..1 << 13 {
                if m.count_ones() <= 7 {
                    let c: Vec<u8> = (0..13).filter(|r| m >> r & 1 == 1).map(|r| 4 * r as u8 + suit as u8).collect();
                    check(&hand_of(&c), &c);
                    n += 1;
                }
            }
        });
        ctx.bulk(n, n);
    });
    ctx.finish(100_000)
}
/// a hand made of two cards counts from the default hand
trait Guarded {
    fn from_hole_cards_guarded(a: u8, b: u8) -> Hand;
}
impl Guarded for Hand {
    fn from_hole_cards_guarded(a: u8, b: u8) -> Hand {
        Hand::default() + Hand::from_hole_cards(a, b)
    }
}

pub fn c05(ctx: &Ctx) {
    use pokers::{COMBO_TO_INDEX, HAND_TO_INDEX, INDEX_TO_COMBO, INDEX_TO_HAND};
    ctx.rule("all 2652 ordered pairs of cards, all 1326 hand names and 169 starting-hand names, compared with an independent numbering; names are also looked up with swapped cards and other letter case as the tables allow");
    ctx.exhaustive();
    ctx.ok(&|| "numbering and name tables".into(), || {
        let mut seen = vec![false; 1326];
        let by = cards_by_num();
        for a in 0..52u8 {
            for b in 0..52u8 {
                if a == b {
                    continue;
                }
                let i = get_card_index(a, b);
                let nm = names(&[a, b]);
                if i >= 1326 {
                    ctx.violation(&format!("get_card_index of {nm} is {i}"));
                }
                if i != get_card_index(b, a) {
                    ctx.violation(&format!("get_card_index of {nm} is {i}, swapped {}", get_card_index(b, a)));
                }
                let hands = [
                    ("from_hole_cards", Hand::from_hole_cards(a, b)),
                    ("default + cards", Hand::default() + CARDS[a as usize] + CARDS[b as usize]),
                    ("from_bit_mask", Hand::from_bit_mask(bit(a) | bit(b))),
                ];
                for (r, h) in hands {
                    if h.get_card_index() != i {
                        ctx.violation(&format!("Hand::get_card_index of {nm} ({r}) is {}, get_card_index says {i}", h.get_card_index()));
                    }
                }
                if a > b && std::mem::replace(&mut seen[i], true) {
                    ctx.violation(&format!("number {i} of {nm} is shared"));
                }
                if i != num(a, b) {
                    ctx.violation(&format!("number of {nm} is {i}; in the documented order it is {}", num(a, b)));
                }
                // name table: exactly these two cards
                let t: Vec<char> = INDEX_TO_HAND[i].chars().collect();
                let c: Vec<Option<u8>> = t.chunks(2).map(|x| if x.len() == 2 { read_card(x[0], x[1]) } else { None }).collect();
                let want = [Some(a.max(b)), Some(a.min(b))];
                let mut got = c.clone();
                got.sort();
                got.reverse();
                if got != want {
                    ctx.violation(&format!("number {i} of {nm} is named {}", INDEX_TO_HAND[i]));
                }
                if HAND_TO_INDEX.get(INDEX_TO_HAND[i]) != Some(&i) {
                    ctx.violation(&format!("name {} leads to {:?}, not {i}", INDEX_TO_HAND[i], HAND_TO_INDEX.get(INDEX_TO_HAND[i])));
                }
                // class
                let cls = class_of(i);
                let (h, l) = by[i];
                let (h, l) = if h >> 2 >= l >> 2 { (h, l) } else { (l, h) };
                let (rh, rl) = (RANKS[(h >> 2) as usize] as char, RANKS[(l >> 2) as usize] as char);
                let name = if rh == rl {
                    format!("{rh}{rl}")
                } else if h & 3 == l & 3 {
                    format!("{rh}{rl}s")
                } else {
                    format!("{rh}{rl}o")
                };
                if INDEX_TO_COMBO[cls] != name {
                    ctx.violation(&format!("{nm} is in block {cls}, named {}, but it is {name}", INDEX_TO_COMBO[cls]));
                }
                if COMBO_TO_INDEX.get(name.as_str()) != Some(&cls) {
                    ctx.violation(&format!("name {name} leads to {:?}, not {cls}", COMBO_TO_INDEX.get(name.as_str())));
                }
                ctx.case(&nm, true);
            }
        }
        for m in [HAND_TO_INDEX.len(), INDEX_TO_HAND.len()] {
            if m != 1326 {
                ctx.violation(&format!("hand table with {m} entries"));
            }
        }
        if COMBO_TO_INDEX.len() != 169 {
            ctx.violation(&format!("{} combo names", COMBO_TO_INDEX.len()));
        }
        for (k, v) in HAND_TO_INDEX.iter() {
            if INDEX_TO_HAND[*v] != *k {
                ctx.violation(&format!("{k} leads to {v}, named {}", INDEX_TO_HAND[*v]));
            }
        }
        for (k, v) in COMBO_TO_INDEX.iter() {
            if INDEX_TO_COMBO[*v] != *k {
                ctx.violation(&format!("{k} leads to {v}, named {}", INDEX_TO_COMBO[*v]));
            }
        }
    });
    ctx.tag("names", 1326 + 169);
    ctx.finish(2652)
}

pub fn c29(ctx: &Ctx) {
    use pokers::fastdivide::DividerU64;
    ctx.rule("divisors: 1..2000, every power of two +-2, 2^64-1-k, magic-number edge cases (factors of 2^k+-1) and random ones of random bit length; dividends: 0, 1, max, multiples of the divisor +-1, powers of two +-1, random; non-trivial: divisor above 1 and dividend not below it");
    let check = |d: u64, rng: &mut Rng, extra: usize| {
        let dv = DividerU64::divide_by(d);
        let (mut n, mut nt) = (0, 0);
        let mut one = |x: u64| {
            let q = dv.divide(x);
            n += 1;
            nt += (d > 1 && x >= d) as u64;
            if q != x / d {
                ctx.violation(&format!("{x} / {d} is {q}, not {} ({dv:?})", x / d));
            }
        };
        for x in [0, 1, 2, d, d.wrapping_sub(1), d.wrapping_add(1), u64::MAX, u64::MAX - 1, u64::MAX - 2, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX / 2 + 2] {
            one(x);
        }
        // greatest multiples
        let top = u64::MAX / d * d;
        for x in [top, top.wrapping_sub(1), top.wrapping_sub(d), top.wrapping_sub(d).wrapping_sub(1), top.wrapping_add(1)] {
            one(x);
        }
        for k in 0..64 {
            let p = 1u64 << k;
            one(p);
            one(p - 1);
            one(p.wrapping_add(1));
            let m = (p / d).wrapping_mul(d);
            one(m);
            one(m.wrapping_sub(1));
            one(m.wrapping_add(d).wrapping_sub(1));
            // multiples of every magnitude
            let m = (rng.next() >> k) / d * d;
            one(m);
            one(m.wrapping_sub(1));
            one(m.wrapping_add(d).wrapping_sub(1));
        }
        for _ in 0..extra {
            one(rng.next() >> rng.below(64));
        }
        ctx.bulk(n, nt);
    };
    let step = 250u64;
    ctx.par("small", ctx.n(8, 400), 8, 60, |c, rng| {
        ctx.ok(&|| format!("divisors from {}", c * step + 1), || {
            for d in c * step + 1..=(c + 1) * step {
                check(d, rng, 20);
            }
        })
    });
    ctx.par("powers", 64, 8, 60, |k, rng| {
        ctx.ok(&|| format!("divisors around 2^{k}"), || {
            let p = 1u64 << k;
            for e in 0..60u64 {
                for d in [p.wrapping_add(e), p.wrapping_sub(e), (p | p >> 1).wrapping_add(e), u64::MAX - e, (u64::MAX >> k).wrapping_sub(e)] {
                    if d != 0 {
                        check(d, rng, 3);
                    }
                }
            }
            // divisors of 2^64 + small and of 2^(64+k) boundaries
            for e in 1..40u64 {
                let d = ((1u128 << 64) / e as u128).min(u64::MAX as u128) as u64;
                for x in [d, d - 1, d.wrapping_add(1)] {
                    if x != 0 {
                        check(x, rng, 3);
                    }
                }
            }
        })
    });
    ctx.par("random", ctx.n(100, 3000), 8, 60, |_, rng| {
        ctx.ok(&|| "random divisors".into(), || {
            for i in 0..300 {
                let mut d = rng.next() >> rng.below(64);
                if rng.chance(0.2) {
                    d = (d | 1).wrapping_mul(1 << rng.below(64));
                }
                let d = d.max(1);
                if i == 0 {
                    ctx.sample(format!("divisor {d}"));
                }
                check(d, rng, 30);
            }
        })
    });
    // the sizes the library really divides by: numbers of hole-card combinations
    ctx.par("sizes", 10, 8, 60, |c, rng| {
        ctx.ok(&|| "divisors below 10000".into(), || {
            for d in c * 1000 + 1..=(c + 1) * 1000 {
                let dv = DividerU64::divide_by(d);
                for _ in 0..300 {
                    let x = rng.next() >> rng.below(64);
                    if dv.divide(x) != x / d {
                        ctx.violation(&format!("{x} / {d} is {}", dv.divide(x)));
                    }
                }
                ctx.bulk(300, 300);
            }
        })
    });
    ctx.finish(1_000_000)
}

// ---------------------------------------------------------------- draws

/// flags expected for a hand, and which bits are judged
pub struct Draw {
    pub want: u8,
    pub judged: u8,
    /// some straight draw wanted / forbidden / not judged
    pub any: Option<bool>,
    /// open-ended or double gutshot wanted
    pub two: Option<bool>,
}
pub fn draw_oracle(hole: (u8, u8), board: u64, cat: u32) -> Draw {
    let b = cards_of(board);
    let all: Vec<u8> = b.iter().copied().chain([hole.0, hole.1]).collect();
    let s = of(&all);
    let bs = of(&b);
    let hs = of(&[hole.0, hole.1]);
    let ranks = s[0] | s[1] | s[2] | s[3];
    let branks = bs[0] | bs[1] | bs[2] | bs[3];
    let flop = b.len() == 3;
    let mut want = 0u8;
    let mut judged = 0u8;
    let (mut any, mut two) = (None, None);
    // cat: 1..=9
    if cat < 5 {
        // ranks that would complete a straight, in ace-high and ace-low reading
        let hi_only = |m: u16| (0..9).any(|i| m >> i & 31 == 31);
        let full: Vec<u16> = (0..13).filter(|r| ranks >> r & 1 == 0 && straight_top(ranks | 1 << r).is_some()).collect();
        let high: Vec<u16> = (0..13).filter(|r| ranks >> r & 1 == 0 && hi_only(ranks | 1 << r)).collect();
        // away from ace-low straights: the readings with and without them agree
        let lowish = straight_top(ranks | 0b1111 | 1 << 12).is_some() && (ranks & 0b1000000001111).count_ones() >= 4;
        if full == high && !lowish {
            any = Some(!high.is_empty());
            two = Some(high.len() >= 2);
        }
    }
    judged |= 16;
    if cat == 5 {
        // best straight anyone can have with two cards of their own
        let mine = straight_top(ranks).unwrap();
        let best = (3..=12u32)
            .rev()
            .find(|&t| {
                let need: u16 = if t == 3 { 0b1000000001111 } else { 0b11111 << (t - 4) };
                (branks & need).count_ones() >= 3
            })
            .unwrap();
        if best == mine {
            want |= 16;
        }
        // ace-low straights on boards where nothing higher is possible are left alone
        if best == 3 || mine == 3 {
            judged &= !16;
        }
    }
    judged |= 32 | 64 | 128;
    if cat < 6 {
        for k in 0..4 {
            let c = s[k].count_ones();
            if c == 4 || (c == 3 && flop) {
                want |= if c == 4 { 32 } else { 64 };
                let missing = (0..13).rev().find(|r| bs[k] >> r & 1 == 0).unwrap();
                if hs[k] >> missing & 1 == 1 {
                    want |= 128;
                }
            }
        }
    } else if cat == 6 {
        // made flush: holder of the highest missing card has the nut flush
        let k = (0..4).find(|&k| s[k].count_ones() >= 5).unwrap();
        let missing = (0..13).rev().find(|r| bs[k] >> r & 1 == 0).unwrap();
        if hs[k] >> missing & 1 == 1 {
            want |= 128;
        }
    } else {
        judged &= 16 | 32 | 64;
    }
    Draw { want, judged, any, two }
}
pub fn judge_draw(got: u8, hole: (u8, u8), board: u64, cat: u32) -> Result<(), String> {
    let d = draw_oracle(hole, board, cat);
    let nm = format!("{} on {}", names(&[hole.0, hole.1]), mask_name(board));
    if (got ^ d.want) & d.judged != 0 {
        return Err(format!("{nm}: draw flags {got:#010b}, expected {:#010b} in the bits {:#010b}", d.want, d.judged));
    }
    if let Some(a) = d.any {
        if (got & 7 != 0) != a {
            return Err(format!("{nm}: draw flags {got:#010b}, but {} straight draw", if a { "it is a" } else { "it is no" }));
        }
    }
    if let Some(t) = d.two {
        if (got & 5 != 0) != t {
            return Err(format!("{nm}: draw flags {got:#010b}, but {} ranks complete a straight", if t { "two" } else { "not two" }));
        }
    }
    Ok(())
}

pub fn c30(ctx: &Ctx) {
    check_oracle(ctx);
    ctx.rule("flops and turns drawn to favour suits and neighbouring ranks, with all or many hole cards for each; draw flags are compared with flags derived from which cards complete a flush or straight; non-trivial: some flag is expected");
    let hands = |board: u64, f: &mut dyn FnMut((u8, u8))| {
        for a in 0..52u8 {
            for b in 0..a {
                if (bit(a) | bit(b)) & board == 0 {
                    f((a, b));
                }
            }
        }
    };
    ctx.par("boards", ctx.n(3000, 60_000), 8, 80, |_, rng| {
        let d = biased_deck(rng);
        let nb = rng.range(3, 4);
        let board = d[..nb].iter().fold(0, |m, &c| m | bit(c));
        ctx.ok(&|| format!("get_draw on {}", mask_name(board)), || {
            let bh = Hand::from_bit_mask(board);
            let (mut n, mut nt) = (0, 0);
            hands(board, &mut |h| {
                let mut all = cards_of(board);
                all.push(h.0);
                all.push(h.1);
                let cat = category(value(&of(&all)));
                let hole = if rng.chance(0.5) { Hand::from_hole_cards(h.0, h.1) } else { Hand::from_hole_cards(h.1, h.0) };
                let got = get_draw(hole, bh, cat as u8 - 1);
                n += 1;
                nt += (draw_oracle(h, board, cat).want != 0 || got != 0) as u64;
                if let Err(e) = judge_draw(got, h, board, cat) {
                    ctx.violation(&e);
                }
            });
            ctx.bulk(n, nt);
            if rng.chance(0.01) {
                ctx.sample(format!("board {}", mask_name(board)));
            }
        });
    });
    ctx.finish(100_000)
}
