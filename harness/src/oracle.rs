//! Independent hand evaluator. Cards are 0..51 = 4 * rank + suit, as in the library's documentation.
//! Nothing here uses the library.

pub type Suits = [u16; 4];

#[inline(always)]
pub fn add(mut s: Suits, c: u8) -> Suits {
    s[(c & 3) as usize] |= 1 << (c >> 2);
    s
}
pub fn of(cards: &[u8]) -> Suits {
    cards.iter().fold([0; 4], |s, &c| add(s, c))
}
#[inline(always)]
pub fn or(a: &Suits, b: &Suits) -> Suits {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}

/// rank of the highest card of the best straight in a rank mask (3 = five-high .. 12 = ace-high)
#[inline(always)]
pub fn straight_top(m: u16) -> Option<u32> {
    let x = ((m as u32) << 1) | ((m as u32 >> 12) & 1); // bit 0: ace low
    let r = x & (x << 1) & (x << 2) & (x << 3) & (x << 4);
    if r == 0 { None } else { Some(31 - r.leading_zeros() - 1) }
}
#[inline(always)]
fn hi(m: u16) -> u32 {
    15 - m.leading_zeros()
}
/// append the `n` highest ranks of `m` (fewer if there are fewer), each in four bits as rank + 1
#[inline(always)]
fn top(mut m: u16, n: u32, mut v: u32) -> u32 {
    for _ in 0..n {
        if m == 0 {
            v <<= 4;
        } else {
            let h = hi(m);
            m &= !(1 << h);
            v = v << 4 | (h + 1);
        }
    }
    v
}

/// Value of the best hand of up to five cards out of at most seven: category (1..9) << 20 | kickers.
/// Comparable between hands with equal numbers of cards, and between all hands of five or more.
#[inline(always)]
pub fn value(s: &Suits) -> u32 {
    let all = s[0] | s[1] | s[2] | s[3];
    for m in s {
        if m.count_ones() >= 5 {
            // with at most seven cards, a flush excludes quads and full houses
            return match straight_top(*m) {
                Some(t) => 9 << 20 | t,
                None => top(*m, 5, 6),
            };
        }
    }
    value_ranks(s, all)
}

/// value when suits are ignored
#[inline(always)]
pub fn value_noflush(s: &Suits) -> u32 {
    value_ranks(s, s[0] | s[1] | s[2] | s[3])
}

#[inline(always)]
fn value_ranks(s: &Suits, all: u16) -> u32 {
    let [a, b, c, d] = *s;
    let two = (a & b) | (a & c) | (a & d) | (b & c) | (b & d) | (c & d);
    if two == 0 {
        return match straight_top(all) {
            Some(t) => 5 << 20 | t,
            None => top(all, 5, 1),
        };
    }
    let three = (a & b & c) | (a & b & d) | (a & c & d) | (b & c & d);
    let four = a & b & c & d;
    if four != 0 {
        let q = 1 << hi(four);
        return top(all & !q, 1, top(q, 1, 8)) << 12;
    }
    if three != 0 {
        let t = 1 << hi(three);
        let rest = two & !t;
        if rest != 0 {
            return top(rest, 1, top(t, 1, 7)) << 12;
        }
    }
    if let Some(t) = straight_top(all) {
        return 5 << 20 | t;
    }
    if three != 0 {
        let t = 1 << hi(three);
        return top(all & !t, 2, top(t, 1, 4)) << 8;
    }
    let p1 = 1 << hi(two);
    let rest = two & !p1;
    if rest != 0 {
        let p2 = 1 << hi(rest);
        return top(all & !p1 & !p2, 1, top(p2, 1, top(p1, 1, 3))) << 8;
    }
    top(all & !p1, 3, top(p1, 1, 2)) << 4
}

pub fn category(v: u32) -> u32 {
    v >> 20
}

// ---- naive second implementation, used only to check the first ----
fn naive5(c: &[u8]) -> u32 {
    let mut r: Vec<u32> = c.iter().map(|x| (x >> 2) as u32).collect();
    r.sort_unstable_by(|a, b| b.cmp(a));
    let flush = c.iter().all(|x| x & 3 == c[0] & 3);
    let distinct = r.windows(2).all(|w| w[0] != w[1]);
    let top = if distinct && r[0] - r[4] == 4 {
        Some(r[0])
    } else if r == [12, 3, 2, 1, 0] {
        Some(3)
    } else {
        None
    };
    let mut groups: Vec<(u32, u32)> = vec![];
    for &x in &r {
        match groups.iter_mut().find(|g| g.1 == x) {
            Some(g) => g.0 += 1,
            None => groups.push((1, x)),
        }
    }
    groups.sort_unstable_by(|a, b| b.cmp(a));
    let shape: Vec<u32> = groups.iter().map(|g| g.0).collect();
    let cat = match (&shape[..], flush, top.is_some()) {
        (_, true, true) => 9,
        ([4, ..], _, _) => 8,
        ([3, 2], _, _) => 7,
        (_, true, false) => 6,
        (_, false, true) => 5,
        ([3, ..], _, _) => 4,
        ([2, 2, ..], _, _) => 3,
        ([2, ..], _, _) => 2,
        _ => 1,
    };
    if let (5 | 9, Some(t)) = (cat, top) {
        return cat << 20 | t;
    }
    let mut v = cat;
    for i in 0..5 {
        v = v << 4 | groups.get(i).map_or(0, |g| g.1 + 1);
    }
    v
}
pub fn naive(cards: &[u8]) -> u32 {
    let n = cards.len();
    let mut best = 0;
    for m in 0u32..1 << n {
        if m.count_ones() == 5 {
            let h: Vec<u8> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| cards[i]).collect();
            best = best.max(naive5(&h));
        }
    }
    best
}

pub const RANKS: &[u8; 13] = b"23456789TJQKA";
pub const SUITS: &[u8; 4] = b"shcd";
pub fn card_name(c: u8) -> String {
    format!("{}{}", RANKS[(c >> 2) as usize] as char, SUITS[(c & 3) as usize] as char)
}
pub fn mask_name(m: u64) -> String {
    (0..52u8).filter(|c| m >> c & 1 == 1).map(card_name).collect()
}
/// strict reading of one card, rank upper case and suit lower case
pub fn read_card(r: char, s: char) -> Option<u8> {
    let r = RANKS.iter().position(|&x| x as char == r)?;
    let s = SUITS.iter().position(|&x| x as char == s)?;
    Some((4 * r + s) as u8)
}
pub fn cards_of(m: u64) -> Vec<u8> {
    (0..52u8).filter(|c| m >> c & 1 == 1).collect()
}

/// compares the two evaluators; an error means the oracle itself is wrong
pub fn self_check(rng: &mut crate::rng::Rng) -> Result<u64, String> {
    let mut deck: Vec<u8>;
    let mut n = 0;
    for i in 0..6000 {
        // plain deals, and deals from a few suits or neighbouring ranks so that rare categories occur
        match i % 3 {
            0 => deck = (0..52).collect(),
            1 => {
                let k = rng.below(4) as u8;
                deck = (0..52).filter(|c| c & 3 == k || c % 5 == 0).collect()
            }
            _ => {
                let k = rng.below(9) as u8;
                deck = (0..52).filter(|c| c >> 2 >= k && c >> 2 < k + 5).collect()
            }
        }
        rng.shuffle(&mut deck);
        for k in 5..=7 {
            let h = &deck[..k];
            if value(&of(h)) != naive(h) {
                return Err(format!("oracle mismatch on {:?}", h));
            }
            n += 1;
        }
    }
    Ok(n)
}
