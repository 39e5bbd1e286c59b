//! C06-C10: range notation, card text, blocked hands, combined ranges.
use crate::ctx::Ctx;
use crate::oracle::*;
use crate::rng::Rng;
use crate::spot::*;
use pokers::equity_calculator::CombinedRange;
use pokers::hand_range::*;
use pokers::{Hand, HandRange};
use std::collections::{BTreeMap, HashMap};

// ---------------------------------------------------------------- grammar

#[derive(Clone, Debug)]
pub enum Item {
    /// one rank pair, with 's', 'o' or neither
    Two(u8, u8, char),
    Plus(u8, u8, char),
    /// from the first hand to the second
    Dash((u8, u8), (u8, u8), char),
    Cards(u8, u8),
}
/// hands of two ranks
fn two(a: u8, b: u8, kind: char, out: &mut Vec<(u8, u8)>) {
    for s in 0..4u8 {
        for t in 0..4u8 {
            let (x, y) = (4 * a + s, 4 * b + t);
            if a == b {
                if s > t {
                    out.push((x, y));
                }
            } else if (s == t && kind != 'o') || (s != t && kind != 's') {
                out.push((x.max(y), x.min(y)));
            }
        }
    }
}
impl Item {
    pub fn hands(&self) -> Vec<(u8, u8)> {
        let mut v = vec![];
        match *self {
            Item::Two(a, b, k) => two(a, b, k, &mut v),
            Item::Plus(a, b, k) => {
                if a == b {
                    (a..13).for_each(|r| two(r, r, k, &mut v));
                } else {
                    let (h, l) = (a.max(b), a.min(b));
                    (l..h).for_each(|r| two(h, r, k, &mut v));
                }
            }
            Item::Dash(x, y, k) => {
                if x.0 == x.1 {
                    (x.0.min(y.0)..=x.0.max(y.0)).for_each(|r| two(r, r, k, &mut v));
                } else {
                    let (h1, l1, h2, l2) = (x.0.max(x.1), x.0.min(x.1), y.0.max(y.1), y.0.min(y.1));
                    if h1 == h2 {
                        (l1.min(l2)..=l1.max(l2)).for_each(|r| two(h1, r, k, &mut v));
                    } else {
                        (h1.min(h2)..=h1.max(h2)).for_each(|r| two(r, l1, k, &mut v));
                    }
                }
            }
            Item::Cards(a, b) => v.push((a.max(b), a.min(b))),
        }
        v
    }
    pub fn text(&self) -> String {
        let r = |x: u8| RANKS[x as usize] as char;
        let k = |c: char| if c == ' ' { String::new() } else { c.to_string() };
        match *self {
            Item::Two(a, b, c) => format!("{}{}{}", r(a), r(b), k(c)),
            Item::Plus(a, b, c) => format!("{}{}{}+", r(a), r(b), k(c)),
            Item::Dash(x, y, c) => format!("{}{}{}-{}{}{}", r(x.0), r(x.1), k(c), r(y.0), r(y.1), k(c)),
            Item::Cards(a, b) => format!("{}{}", card_name(a), card_name(b)),
        }
    }
    pub fn random(rng: &mut Rng) -> Item {
        let rank = |rng: &mut Rng| rng.below(13) as u8;
        let kind = |rng: &mut Rng| *rng.pick(&[' ', ' ', 's', 'o']);
        let distinct = |rng: &mut Rng| {
            let a = rank(rng);
            let b = (a + 1 + rng.below(12) as u8) % 13;
            (a, b)
        };
        match rng.below(9) {
            0 => {
                let a = rank(rng);
                Item::Two(a, a, ' ')
            }
            1 | 2 => {
                let (a, b) = distinct(rng);
                Item::Two(a, b, kind(rng))
            }
            3 => {
                let a = rank(rng);
                Item::Plus(a, a, ' ')
            }
            4 => {
                let (a, b) = distinct(rng);
                Item::Plus(a, b, kind(rng))
            }
            5 => {
                let (a, b) = (rank(rng), rank(rng));
                Item::Dash((a, a), (b, b), ' ')
            }
            6 | 7 => {
                let all = dashes();
                let (x, y) = all[rng.below(all.len())];
                Item::Dash(x, y, kind(rng))
            }
            _ => {
                let a = rng.below(52) as u8;
                let b = (a + 1 + rng.below(51) as u8) % 52;
                Item::Cards(a, b)
            }
        }
    }
}
/// dash ranges between two hands that share their higher or their lower rank, in every way of writing them
fn dashes() -> &'static Vec<((u8, u8), (u8, u8))> {
    static D: std::sync::OnceLock<Vec<((u8, u8), (u8, u8))>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut v = vec![];
        for shared in 0..13u8 {
            for a in 0..13u8 {
                for b in 0..13u8 {
                    // both ends below the shared rank, or both above
                    if (a < shared && b < shared) || (a > shared && b > shared) {
                        for m in 0..4 {
                            let x = if m & 1 == 0 { (shared, a) } else { (a, shared) };
                            let y = if m & 2 == 0 { (shared, b) } else { (b, shared) };
                            v.push((x, y));
                        }
                    }
                }
            }
        }
        v
    })
}
fn recase(rng: &mut Rng, s: &str) -> String {
    match rng.below(4) {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        _ => s.chars().map(|c| if rng.chance(0.5) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}
pub struct Listed {
    pub text: String,
    pub want: BTreeMap<(u8, u8), u8>,
}
pub fn random_list(rng: &mut Rng, max: usize) -> Listed {
    let k = rng.range(1, max);
    let mut want = BTreeMap::new();
    let mut parts = vec![];
    for _ in 0..k {
        let it = Item::random(rng);
        let w = if rng.chance(0.5) { None } else { Some(*rng.pick(&[0u8, 1, 5, 9, 10, 25, 50, 99, 100, 100])) };
        let w = if w.is_some() && rng.chance(0.3) { Some(rng.range(0, 100) as u8) } else { w };
        for h in it.hands() {
            want.entry(h).or_insert(w.unwrap_or(100));
        }
        parts.push(match w {
            None => it.text(),
            Some(w) => format!("{}@{w}", it.text()),
        });
    }
    Listed { text: recase(rng, &parts.join(",")), want }
}
fn got(ctx: &Ctx, text: &str, hands: &[Combo]) -> BTreeMap<(u8, u8), u8> {
    let mut m = BTreeMap::new();
    for h in hands {
        if h.0 > 51 || h.1 > 51 || h.0 == h.1 {
            ctx.violation(&format!("{text:?} yields the invalid hand {:?}", (h.0, h.1, h.2)));
        }
        if h.0 < h.1 {
            ctx.violation(&format!("{text:?} yields {} with the lower card first", hand_name((h.0, h.1, 0))));
        }
        if h.2 > 100 {
            ctx.violation(&format!("{text:?} yields weight {}", h.2));
        }
        if m.insert((h.0, h.1), h.2).is_some() {
            ctx.violation(&format!("{text:?} yields {} twice", hand_name((h.0, h.1, 0))));
        }
    }
    m
}
fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}
fn parse(ctx: &Ctx, text: &str) -> Vec<Combo> {
    ctx.ok(&|| format!("HandRange::from_string({:?})", cut(text)), || HandRange::from_string(text.to_string())).hands
}
fn expect(ctx: &Ctx, text: &str, hands: &[Combo], want: &BTreeMap<(u8, u8), u8>) {
    let g = got(ctx, text, hands);
    if &g != want {
        let d = want
            .iter()
            .find_map(|(h, w)| match g.get(h) {
                None => Some(format!("{} is missing", hand_name((h.0, h.1, 0)))),
                Some(x) if x != w => Some(format!("{} has weight {x}, not {w}", hand_name((h.0, h.1, 0)))),
                _ => None,
            })
            .unwrap_or_else(|| {
                let h = g.keys().find(|h| !want.contains_key(h)).unwrap();
                format!("{} is not denoted", hand_name((h.0, h.1, 0)))
            });
        ctx.violation(&format!("range {text:?}: {d} ({} hands, {} expected)", g.len(), want.len()));
    }
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("every single item of the notation (pairs, hands, +, dash ranges between hands sharing their higher or lower rank written in every order, explicit cards; with and without weights), and random lists of up to 14 items with overlaps, weights and mixed letter case; hands and weights are compared with an independent expansion; non-trivial: two items or more, or a range item");
    let mut items = vec![];
    for a in 0..13u8 {
        for b in 0..13u8 {
            for k in [' ', 's', 'o'] {
                if a != b || k == ' ' {
                    items.push(Item::Two(a, b, k));
                    items.push(Item::Plus(a, b, k));
                }
            }
            items.push(Item::Dash((a, a), (b, b), ' '));
        }
    }
    for &(x, y) in dashes() {
        for k in [' ', 's', 'o'] {
            items.push(Item::Dash(x, y, k));
        }
    }
    for a in 0..52u8 {
        for b in 0..52u8 {
            if a != b {
                items.push(Item::Cards(a, b));
            }
        }
    }
    ctx.tag("single_items", items.len() as u64);
    ctx.par("single", 64, 8, 100, |c, rng| {
        for it in items.iter().skip(c as usize).step_by(64) {
            for form in 0..3 {
                let mut t = it.text();
                let mut w = 100;
                if form > 0 {
                    w = if form == 1 { *rng.pick(&[0u8, 1, 9, 10, 50, 99, 100]) } else { rng.range(0, 100) as u8 };
                    t = format!("{t}@{w}");
                }
                let t = recase(rng, &t);
                let want = it.hands().into_iter().map(|h| (h, w)).collect();
                expect(ctx, &t, &parse(ctx, &t), &want);
                ctx.case(&t, !matches!(it, Item::Cards(..)));
            }
        }
    });
    // every weight
    ctx.par("weights", 101, 8, 100, |w, rng| {
        for t in ["AA", "AKs", "T9o", "72", "55+", "K9+", "QQ-88", "A9s-A2s", "2d3c"] {
            let it = format!("{t}@{w},32o@7");
            let p = expand_text(t);
            let mut want: BTreeMap<(u8, u8), u8> = p.into_iter().map(|h| (h, w as u8)).collect();
            for h in Item::Two(1, 0, 'o').hands() {
                want.entry(h).or_insert(7);
            }
            let it = recase(rng, &it);
            expect(ctx, &it, &parse(ctx, &it), &want);
            ctx.case(&it, true);
        }
    });
    let full: BTreeMap<(u8, u8), u8> = (0..52u8).flat_map(|a| (0..a).map(move |b| ((a, b), 100))).collect();
    for t in ["random", "RANDOM", "Random", "rAnDoM"] {
        expect(ctx, t, &parse(ctx, t), &full);
        ctx.case(t, true);
    }
    ctx.par("lists", ctx.n(12_000, 300_000), 8, 60, |c, rng| {
        let max = if c % 3 == 0 { 14 } else { 4 };
        let l = random_list(rng, max);
        if c % 5 == 0 {
            // through from_strings, beside another range
            let o = random_list(rng, 3);
            let rs = ctx.ok(&|| format!("HandRange::from_strings({:?})", [&l.text, &o.text]), || HandRange::from_strings(vec![l.text.clone(), o.text.clone(), l.text.clone()]));
            if rs.len() != 3 {
                ctx.violation(&format!("from_strings of three texts gives {} ranges", rs.len()));
            }
            expect(ctx, &l.text, &rs[0].hands, &l.want);
            expect(ctx, &o.text, &rs[1].hands, &o.want);
            expect(ctx, &l.text, &rs[2].hands, &l.want);
        } else {
            expect(ctx, &l.text, &parse(ctx, &l.text), &l.want);
        }
        ctx.case(&l.text, l.text.contains(','));
    });
    ctx.finish(3000)
}
/// a few fixed items, read by an independent reader
fn expand_text(t: &str) -> Vec<(u8, u8)> {
    let rk = |c: char| RANKS.iter().position(|&x| x as char == c).unwrap() as u8;
    let c: Vec<char> = t.chars().collect();
    if c.len() == 4 && SUITS.contains(&(c[1] as u8)) {
        return Item::Cards(read_card(c[0], c[1]).unwrap(), read_card(c[2], c[3]).unwrap()).hands();
    }
    let (a, b) = (rk(c[0]), rk(c[1]));
    let k = c.get(2).copied().filter(|x| *x == 's' || *x == 'o').unwrap_or(' ');
    if t.ends_with('+') {
        Item::Plus(a, b, k).hands()
    } else if let Some(i) = t.find('-') {
        Item::Dash((a, b), (rk(c[i + 1]), rk(c[i + 2])), k).hands()
    } else {
        Item::Two(a, b, k).hands()
    }
}

const ODD: &[&str] = &[
    "", " ", ",", "@", "-", "+", "x", "AK", "AA", "@@", "@101", "@1000", "@99999999999999999999", "@-1", "AKs-", "AKo-A", "AK-QJ", "AA-KQ", "AKs-AQo", "AsAs", "AsK",
    "As", "A", "AsKhx", "AKx", "AK@", "AK@x", "AK@50x", "AA@50@60", "77+-", "77-+", "random", "random,AA", "AA,random", "\u{212a}\u{212a}", "İ", "ß", "ﬀ", "\u{0}", "🂡", "Ａ", "٣٣", "é", "AA KK", "AA;KK", "A\u{301}K",
    ",AA", "AA,,KK", "\t", "\n", "AKsS", "AKss", "AKoo", "AKos", "sA", "22-22", "K2-AK", "AA-", "Kſ",
];
fn junk(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 | 1 => ODD[rng.below(ODD.len())].to_string(),
        2 => {
            let al: Vec<char> = "AKQJT98765432shcdo+-@,0123456789 xrandm".chars().collect();
            let n = rng.below(14);
            (0..n).map(|_| *rng.pick(&al)).collect()
        }
        3 => {
            // damaged well-formed text
            let mut c: Vec<char> = random_list(rng, 4).text.chars().collect();
            for _ in 0..rng.range(1, 3) {
                if c.is_empty() {
                    break;
                }
                let i = rng.below(c.len());
                match rng.below(4) {
                    0 => {
                        c.remove(i);
                    }
                    1 => c.insert(i, *rng.pick(&['@', '-', '+', ',', 'a', 's', '9', ' ', '\u{212a}', 'é', '1'])),
                    2 => c.truncate(i),
                    _ => {
                        let j = rng.below(c.len());
                        c.swap(i, j)
                    }
                }
            }
            c.into_iter().collect()
        }
        4 => {
            let n = rng.below(8);
            (0..n).map(|_| char::from_u32(rng.below(0x11000) as u32).unwrap_or('?')).collect()
        }
        _ => {
            let d: String = (0..rng.below(40)).map(|_| (b'0' + rng.below(10) as u8) as char).collect();
            format!("{}@{d}", Item::random(rng).text())
        }
    }
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("random, damaged, Unicode and very long texts: parsing returns and yields distinct valid hands with weights up to 100; well-formed lists followed by a comma and such text keep their hands and weights; all weights above 100 mean the same, leading zeros nothing; malformed items denote nothing; non-trivial: text that is not itself a well-formed list");
    ctx.par("texts", ctx.n(40_000, 1_000_000), 8, 60, |c, rng| {
        let t = if c < (ODD.len() * ODD.len()) as u64 {
            format!("{}{}", ODD[c as usize / ODD.len()], ODD[c as usize % ODD.len()])
        } else {
            let mut t = junk(rng);
            for _ in 0..rng.below(3) {
                t.push_str(*rng.pick(&[",", "", "@", "-"]));
                t.push_str(&junk(rng));
            }
            t
        };
        got(ctx, &t, &parse(ctx, &t));
        ctx.case(&t, true);
    });
    ctx.par("prefixes", ctx.n(25_000, 600_000), 8, 60, |_, rng| {
        let l = random_list(rng, 5);
        let mut t = format!("{},{}", l.text, junk(rng));
        if rng.chance(0.3) {
            t.push(',');
            t.push_str(&random_list(rng, 3).text);
        }
        let g = got(ctx, &t, &parse(ctx, &t));
        for (h, w) in &l.want {
            if g.get(h) != Some(w) {
                ctx.violation(&format!("{t:?}: {} of the well-formed beginning {:?} has weight {:?}, not {w}", hand_name((h.0, h.1, 0)), l.text, g.get(h)));
            }
        }
        ctx.case(&t, true);
    });
    // weights out of bounds: every such number means the same, also those that are small in 8, 32, 64 or 128 bits
    ctx.par("weights", ctx.n(3_000, 100_000), 8, 60, |_, rng| {
        let l = random_list(rng, 2);
        let item = Item::random(rng).text();
        let (item, w) = (item.split('@').next().unwrap().to_string(), rng.range(0, 100));
        let rest = match rng.below(3) {
            0 => String::new(),
            1 => format!(",{}", random_list(rng, 2).text),
            _ => junk(rng),
        };
        let big = match rng.below(4) {
            0 => format!("{}", rng.range(101, 1000)),
            1 => {
                let b = [8, 16, 31, 32, 63, 64, 100][rng.below(7)];
                format!("{}", (1u128 << b) * rng.range(1, 9) as u128 + w as u128)
            }
            // 2^128 + w
            2 => format!("3402823669209384634633746074317682{}", 11456 + w),
            _ => (0..rng.range(4, 60)).map(|k| char::from(b'0' + rng.range((k == 0) as usize, 9) as u8)).collect(),
        };
        let run = |n: &str| {
            let t = format!("{},{item}@{n}{rest}", l.text);
            (got(ctx, &t, &parse(ctx, &t)), t)
        };
        let ((a, t), (b, u)) = (run(&big), run("101"));
        if !rest.starts_with(|c: char| c.is_ascii_digit()) {
            if a != b {
                ctx.violation(&format!("{t:?} and {u:?} denote different hands although both weights are above 100"));
            }
            let zeros = "0".repeat(rng.range(1, 40));
            let ((a, t), (b, u)) = (run(&format!("{zeros}{w}")), run(&w.to_string()));
            if a != b {
                ctx.violation(&format!("{t:?} and {u:?} denote different hands"));
            }
        }
        ctx.case(&t, true);
    });
    // items that are nearly well-formed
    ctx.par("malformed", ctx.n(6_000, 200_000), 8, 60, |_, rng| {
        let l = random_list(rng, 3);
        let m = loop {
            let mut r = || RANKS[rng.below(13)] as char;
            let (a, b, c, d) = (r(), r(), r(), r());
            let (x, y) = (*rng.pick(&["", "s", "o"]), *rng.pick(&["", "s", "o"]));
            let w = *rng.pick(&["", "", "@50", "@100"]);
            break match rng.below(6) {
                // no rank in common
                0 if a != b && c != d && a != c && a != d && b != c && b != d => format!("{a}{b}{x}-{c}{d}{x}{w}"),
                // a pair and no pair
                1 if a != b => format!("{c}{c}-{a}{b}{x}{w}"),
                2 if a != b => format!("{a}{b}{x}-{c}{c}{w}"),
                // one end suited, the other not
                3 if a != b && a != c => {
                    let (x, y) = if x == "" { ("s", "o") } else { (x, y) };
                    if y == "" || x == y {
                        continue;
                    }
                    format!("{a}{b}{x}-{a}{c}{y}{w}")
                }
                4 => {
                    let s = *rng.pick(&["s", "h", "c", "d"]);
                    format!("{a}{s}{a}{s}{w}")
                }
                5 => format!("{a}{}{w}", rng.pick(&["", "s", "h", "c", "d", "+", "-", "-A", "s+"])),
                _ => continue,
            };
        };
        let m = recase(rng, &m);
        let tail = if rng.chance(0.5) { Some(random_list(rng, 2)) } else { None };
        let mut t = m.clone();
        if rng.chance(0.8) {
            t = format!("{},{t}", l.text);
        }
        let first = t != m;
        if let Some(q) = &tail {
            t = format!("{t},{}", q.text);
        }
        for (h, w) in got(ctx, &t, &parse(ctx, &t)) {
            let ok = if first && l.want.contains_key(&h) { l.want[&h] == w } else { tail.as_ref().is_some_and(|q| q.want.get(&h) == Some(&w)) };
            if !ok {
                ctx.violation(&format!("{t:?} yields {} with weight {w} although {m:?} is malformed", hand_name((h.0, h.1, 0))));
            }
        }
        ctx.case(&t, true);
        // a number directly followed by something else is read as it stands, or the item is refused
        let it = Item::random(rng);
        let w = rng.range(0, 100) as u8;
        let x = *rng.pick(&['a', 't', 'k', 'f', 'x', 'e', '\u{663}', '\u{ff15}', '\u{b2}', '.', ' ', '%', '_', '-', '+', '@', 's', 'o', 'd']);
        let t = format!("{}@{w}{x}{}", it.text(), rng.pick(&["", "5", "0,AA", ",AA", "aa"]));
        for (h, v) in got(ctx, &t, &parse(ctx, &t)) {
            if it.hands().contains(&h) && v != w && !(t.ends_with(",AA") && h.0 >= 48 && h.1 >= 48) {
                ctx.violation(&format!("{t:?} yields {} with weight {v}", hand_name((h.0, h.1, 0))));
            }
        }
    });
    ctx.par("long", ctx.n(24, 200), 8, 60, |c, rng| {
        let unit = match c % 6 {
            0 => "AA,".to_string(),
            1 => "9".to_string(),
            2 => "@".to_string(),
            3 => format!("{},", Item::random(rng).text()),
            4 => "A".to_string(),
            _ => junk(rng),
        };
        let pre = if c % 2 == 0 { "AA@" } else { "22+,A2s-AKs@3," };
        let t = format!("{pre}{}", unit.repeat(20_000 / unit.len().max(1)));
        got(ctx, &cut(&t), &parse(ctx, &t));
        ctx.case(&format!("{}... ({} characters)", &pre, t.len()), true);
    });
    ctx.finish(10_000)
}

// ---------------------------------------------------------------- C32

pub fn c32(ctx: &Ctx) {
    use std::cmp::Ordering::{self, *};
    ctx.rule("all pairs of hole-card hands, with the cards of each in both orders: comparison, equality and the operators against each other and against the order of (first rank, second rank, first suit, second suit); random lists sorted and searched; non-trivial: pairs of different hands with a rank in common");
    let all: Vec<(u8, u8)> = (0..52u8).flat_map(|a| (0..52u8).filter(move |&b| b != a).map(move |b| (a, b))).collect();
    let key = |c: &Combo| (c.0 >> 2, c.1 >> 2, c.0 & 3, c.1 & 3);
    ctx.par("c32_pairs", all.len() as u64, 8, 60, |k, rng| {
        let (a, b) = all[k as usize];
        let (mut n, mut nt) = (0, 0);
        ctx.ok(&|| format!("comparisons with Combo({a}, {b})"), || {
            for &(c, d) in &all {
                let x = Combo(a, b, rng.below(101) as u8);
                let y = Combo(c, d, rng.below(101) as u8);
                let want: Ordering = key(&x).cmp(&key(&y));
                let bad = |e: &str| ctx.violation(&format!("{x}@{} and {y}@{}: {e}, expected {want:?}", x.2, y.2));
                if x.cmp(&y) != want {
                    bad(&format!("cmp is {:?}", x.cmp(&y)));
                }
                if x.partial_cmp(&y) != Some(want) {
                    bad(&format!("partial_cmp is {:?}", x.partial_cmp(&y)));
                }
                if (x == y) != (want == Equal) || (x != y) == (want == Equal) {
                    bad(&format!("== is {}, != is {}", x == y, x != y));
                }
                if (x < y) != (want == Less) || (x > y) != (want == Greater) || (x <= y) != (want != Greater) || (x >= y) != (want != Less) {
                    bad("an operator disagrees");
                }
                if y.cmp(&x) != want.reverse() {
                    bad(&format!("the other way round cmp is {:?}", y.cmp(&x)));
                }
                if key(&x.max(y)) < key(&x.min(y)) {
                    bad("max is less than min");
                }
                n += 1;
                nt += (want != Equal && x.0 >> 2 == y.0 >> 2) as u64;
            }
        });
        ctx.bulk(n, nt);
    });
    ctx.par("c32_lists", ctx.n(300, 6000), 8, 60, |_, rng| {
        let k = rng.range(2, 200);
        let l: Vec<Combo> = (0..k).map(|_| { let (a, b) = *rng.pick(&all); Combo(a, b, rng.below(101) as u8) }).collect();
        let mut s = l.clone();
        ctx.ok(&|| "sorting hands".into(), || s.sort());
        if !s.windows(2).all(|w| key(&w[0]) <= key(&w[1])) {
            ctx.violation(&format!("sorting leaves {} out of order", s.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")));
        }
        for c in &l {
            match ctx.ok(&|| "searching hands".into(), || s.binary_search(c)) {
                Ok(i) if key(&s[i]) == key(c) => {}
                r => ctx.violation(&format!("{c} is in the sorted list but the search gives {r:?}")),
            }
            if !l.contains(c) {
                ctx.violation(&format!("{c} is not found in a list that has it"));
            }
        }
        // a set of them has each pair of cards once
        let set: std::collections::BTreeSet<Combo> = l.iter().copied().collect();
        let want: std::collections::BTreeSet<(u8, u8)> = l.iter().map(|c| (c.0, c.1)).collect();
        if set.len() != want.len() {
            ctx.violation(&format!("a set of {} different hands has {}", want.len(), set.len()));
        }
        ctx.case(&l.iter().map(|c| c.to_string()).collect::<String>(), true);
    });
    ctx.finish(1000)
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("all cards, pairs and 3-card flops and random card sets through text and back; all strings of two ASCII characters and random longer ones against an independent reader; non-trivial: round trips and rejected strings");
    // cards
    for c in 0..52u8 {
        let want = card_name(c);
        let s = ctx.ok(&|| format!("card_to_string({c})"), || card_to_string(c));
        if s != want {
            ctx.violation(&format!("card_to_string({c}) is {s:?}, not {want:?}"));
        }
        for t in [want.clone(), want.to_lowercase()] {
            let r = ctx.ok(&|| format!("card_from_str({t:?})"), || card_from_str(&t));
            if r != Ok(c) {
                ctx.violation(&format!("card_from_str({t:?}) is {r:?}, not card {c}"));
            }
            let mut it = t.chars().chain("xyz".chars());
            let r = ctx.ok(&|| "card_from_chars".into(), || card_from_chars(&mut it));
            if r != Ok(c) || it.next() != Some('x') {
                ctx.violation(&format!("card_from_chars on {t:?} is {r:?} or reads too far"));
            }
        }
        let rc = want.to_lowercase().chars().collect::<Vec<_>>();
        if char_to_rank(rc[0]) != c >> 2 || char_to_suit(rc[1]) != c & 3 {
            ctx.violation(&format!("rank or suit of {want} read as {} {}", char_to_rank(rc[0]), char_to_suit(rc[1])));
        }
        ctx.case(&want, true);
    }
    // pairs
    let mut holes = vec![];
    for a in 0..52u8 {
        for b in 0..52u8 {
            if a == b {
                continue;
            }
            let m = bit(a) | bit(b);
            let s = ctx.ok(&|| format!("hole_to_string(({a}, {b}))"), || hole_to_string((a, b)));
            match &s {
                Ok(s) if get_card_mask(s) == m && s.len() == 4 => {}
                _ => ctx.violation(&format!("hole_to_string(({a}, {b})) is {s:?}")),
            }
            let c = Combo(a, b, 100).to_string();
            if c != format!("{}{}", card_name(a), card_name(b)) {
                ctx.violation(&format!("Combo({a}, {b}) prints as {c}"));
            }
            holes.push((a, b));
            ctx.case(&c, true);
        }
    }
    let hs = ctx.ok(&|| "holes_to_strings".into(), || holes_to_strings(&holes));
    match &hs {
        Ok(v) if v.len() == holes.len() && v.iter().zip(&holes).all(|(s, h)| get_card_mask(s) == bit(h.0) | bit(h.1)) => {}
        _ => ctx.violation("holes_to_strings of all pairs does not name them"),
    }
    for a in 0..=255u8 {
        for b in [0u8, 1, 51, 52, 53, 63, 64, 100, 128, 200, 255] {
            if a < 52 && b < 52 {
                continue;
            }
            for h in [(a, b), (b, a)] {
                let r = ctx.ok(&|| format!("hole_to_string({h:?})"), || hole_to_string(h));
                if let Ok(s) = r {
                    ctx.violation(&format!("hole_to_string({h:?}) is {s:?} although a card is not in the deck"));
                }
                let r = ctx.ok(&|| format!("holes_to_strings with {h:?}"), || holes_to_strings(&[(3, 4), h, (5, 6)]));
                if r.is_ok() {
                    ctx.violation(&format!("holes_to_strings accepts {h:?}"));
                }
            }
        }
    }
    // sets of cards
    ctx.par("masks", ctx.n(20_000, 400_000), 8, 60, |c, rng| {
        let mut m = rng.next() & ((1 << 52) - 1);
        for _ in 0..rng.below(6) {
            m &= rng.next();
        }
        if c < 52 {
            m = bit(c as u8);
        }
        let s = ctx.ok(&|| format!("mask_to_string({m:#x})"), || mask_to_string(m));
        if s != mask_name(m) {
            let back = get_card_mask(&s);
            if back != m {
                ctx.violation(&format!("mask_to_string({m:#x}) is {s:?}, which is {back:#x}"));
            }
        }
        let mut parts: Vec<String> = cards_of(m).into_iter().map(card_name).collect();
        rng.shuffle(&mut parts);
        for t in [s.clone(), recase(rng, &s), recase(rng, &parts.concat())] {
            let g = ctx.ok(&|| format!("get_card_mask({t:?})"), || get_card_mask(&t));
            if g != m {
                ctx.violation(&format!("get_card_mask({t:?}) is {g:#x}, not {m:#x}"));
            }
        }
        ctx.case(&s, m != 0);
        // damaged
        if !parts.is_empty() {
            let mut ch: Vec<char> = parts.concat().chars().collect();
            let i = rng.below(ch.len());
            if rng.chance(0.5) {
                ch.remove(i);
            } else {
                ch[i] = *rng.pick(&['x', '1', ' ', '0', 'z', 'é', '-', ',', '\u{0}', 'l', 'b', 'g']);
            }
            let t: String = ch.into_iter().collect();
            let g = ctx.ok(&|| format!("get_card_mask({t:?})"), || get_card_mask(&t));
            if g != 0 {
                ctx.violation(&format!("get_card_mask({t:?}) is {g:#x} although the text is not a list of cards"));
            }
            ctx.case(&t, true);
        }
    });
    // two-character strings
    ctx.par("two_characters", 160, 8, 60, |a, _| {
        let extra = ['é', '\u{131}', 'ſ', 'Ａ', '♠', '🂡', '\u{130}', 'ß', '²', '٣', '\u{ff13}', '\u{1e9e}', 'Ā', 'ķ', '\u{3c3}', 'ａ', 'ｓ', 'Đ', '\u{10ffff}', '\u{fffd}', '\u{80}', '\u{a0}', '\u{ad}', '\u{141}', '\u{173}', '\u{168}', '\u{163}', '\u{164}', '\u{2c61}', '\u{161}', '\u{171}', '\u{14b}'];
        let ch = |x: u64| if x < 128 { x as u8 as char } else { extra[x as usize - 128] };
        let (mut ok, mut bad) = (0, 0);
        for b in 0..160u64 {
            let (x, y) = (ch(a), ch(b));
            let t: String = [x, y].iter().collect();
            let strict = read_card(x.to_ascii_uppercase(), y);
            let loose = read_card(x.to_ascii_uppercase(), y.to_ascii_lowercase());
            let r = ctx.ok(&|| format!("card_from_str({t:?})"), || card_from_str(&t));
            match (&r, strict, loose) {
                (Ok(c), Some(w), _) if *c == w => ok += 1,
                (Err(_), None, _) => bad += 1,
                (Ok(c), None, Some(w)) if *c == w => ok += 1,
                _ => ctx.violation(&format!("card_from_str({t:?}) is {r:?}")),
            }
            let g = ctx.ok(&|| format!("get_card_mask({t:?})"), || get_card_mask(&t));
            if g != loose.map_or(0, bit) {
                ctx.violation(&format!("get_card_mask({t:?}) is {g:#x}"));
            }
            // beside valid cards, nothing of an invalid list survives
            for (u, more) in [(format!("2s{t}"), bit(0)), (format!("{t}Kd"), bit(47)), (format!("{t}{x}"), 0), (format!("{t}{t}"), 0)] {
                let g = ctx.ok(&|| format!("get_card_mask({u:?})"), || get_card_mask(&u));
                let want = if u.chars().count() % 2 == 1 || u.to_lowercase().chars().count() % 2 == 1 {
                    0
                } else {
                    match loose {
                        None => 0,
                        Some(c) => bit(c) | more,
                    }
                };
                if g != want {
                    ctx.violation(&format!("get_card_mask({u:?}) is {g:#x}, not {want:#x}"));
                }
                let r = ctx.ok(&|| format!("card_from_str({u:?})"), || card_from_str(&u));
                if r.is_ok() {
                    ctx.violation(&format!("card_from_str({u:?}) is {r:?}"));
                }
                let r = ctx.ok(&|| format!("flop_from_str({u:?})"), || flop_from_str(&u));
                if r.is_ok() {
                    ctx.violation(&format!("flop_from_str({u:?}) is {r:?}"));
                }
            }
        }
        ctx.bulk(ok + bad, ok + bad);
    });
    for t in ["", "A", "s", "As", "AsK", "AsKh", "AsKhQ", " ", "AsKhQd2", "AsKhQd2s"] {
        if t.len() != 2 {
            let r = ctx.ok(&|| format!("card_from_str({t:?})"), || card_from_str(t));
            if r.is_ok() {
                ctx.violation(&format!("card_from_str({t:?}) is {r:?}"));
            }
        }
        let r = ctx.ok(&|| format!("flop_from_str({t:?})"), || flop_from_str(t));
        if r.is_ok() {
            ctx.violation(&format!("flop_from_str({t:?}) is {r:?}"));
        }
    }
    // flops: every set of three cards in some order
    ctx.par("flops", 52, 8, 60, |a, rng| {
        let mut n = 0;
        for b in 0..52u8 {
            for c in 0..52u8 {
                let mut v = [a as u8, b, c];
                let sep = *rng.pick(&["", "", " ", "  "]);
                let t = v.map(|x| if rng.chance(0.3) { card_name(x).to_lowercase() } else { card_name(x) }).join(sep);
                let r = ctx.ok(&|| format!("flop_from_str({t:?})"), || flop_from_str(&t));
                let distinct = v[0] != v[1] && v[0] != v[2] && v[1] != v[2];
                v.sort();
                match r {
                    Ok(mut g) => {
                        g.sort();
                        if !distinct || g != v {
                            ctx.violation(&format!("flop_from_str({t:?}) is {g:?}"));
                        }
                    }
                    Err(e) => {
                        if distinct {
                            ctx.violation(&format!("flop_from_str({t:?}) fails: {e}"));
                        }
                    }
                }
                n += 1;
                if rng.chance(0.02) {
                    // damaged
                    let mut ch: Vec<char> = t.chars().filter(|c| *c != ' ').collect();
                    let i = rng.below(6);
                    let bad = match rng.below(4) {
                        0 => {
                            ch.remove(i);
                            true
                        }
                        3 => {
                            // a blank inside a card
                            ch.insert(i / 2 * 2 + 1, ' ');
                            true
                        }
                        1 => {
                            ch[i] = *rng.pick(&['x', '1', '0', 'z', 'é', '\u{0}']);
                            true
                        }
                        _ => {
                            ch.push(*rng.pick(&['A', 's', ' ', 'x']));
                            true
                        }
                    };
                    let t: String = ch.into_iter().collect();
                    let r = ctx.ok(&|| format!("flop_from_str({t:?})"), || flop_from_str(&t));
                    if bad && r.is_ok() {
                        ctx.violation(&format!("flop_from_str({t:?}) is {r:?}"));
                    }
                    n += 1;
                }
            }
        }
        ctx.bulk(n, n);
    });
    ctx.finish(10_000)
}

fn random_range(rng: &mut Rng, max: usize) -> Vec<H> {
    let mut v: Vec<H> = if rng.chance(0.15) {
        (0..52u8).flat_map(|a| (0..a).map(move |b| (a, b, 100))).collect()
    } else {
        random_list(rng, max).want.into_iter().map(|((a, b), w)| (a, b, w)).collect()
    };
    if rng.chance(0.4) {
        for h in v.iter_mut() {
            h.2 = rng.range(0, 100) as u8;
        }
    }
    if rng.chance(0.5) {
        sort_hands(&mut v);
    } else {
        rng.shuffle(&mut v);
    }
    v
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("random ranges (parsed notation, every hand, shuffled orders, any weights) and random boards and dead sets of 0 to 47 cards; result compared with a filter on the cards; repeated and split removals compared; non-trivial: something is removed and something stays");
    ctx.par("removals", ctx.n(6_000, 150_000), 8, 60, |_, rng| {
        let v = random_range(rng, 6);
        let mut d = biased_deck(rng);
        rng.shuffle(&mut d[..20]);
        let nb = rng.below(8);
        let nd = *rng.pick(&[0, 1, 2, 5, 20, 40]);
        let b = d[..nb].iter().fold(0, |m, &c| m | bit(c));
        let mut x = d[nb..nb + nd].iter().fold(0, |m, &c| m | bit(c));
        if rng.chance(0.2) {
            x |= b; // overlapping
        }
        if rng.chance(0.2) {
            let c = rng.below(52) as u8;
            x |= bit(c);
        }
        let want: Vec<H> = v.iter().copied().filter(|h| hm(h) & (b | x) == 0).collect();
        let text = || format!("range {} board {} dead {}", cut(&range_name(&v)), mask_name(b), mask_name(x));
        let run = |steps: &[(u64, u64)]| -> Vec<H> {
            let mut r = mk_range(&v);
            ctx.ok(&|| format!("remove_conflicting_combos on {}", text()), || {
                for s in steps {
                    r.remove_conflicting_combos(s.0, s.1);
                }
            });
            r.hands.iter().map(|h| (h.0, h.1, h.2)).collect()
        };
        for (name, steps) in [
            ("once", vec![(b, x)]),
            ("twice", vec![(b, x), (b, x)]),
            ("board then dead", vec![(b, 0), (0, x)]),
            ("dead then board", vec![(0, x), (b, 0)]),
            ("swapped", vec![(x, b)]),
        ] {
            let g = run(&steps);
            if g != want {
                ctx.violation(&format!("removing conflicts ({name}) from {} leaves {}, not {}", text(), cut(&range_name(&g)), cut(&range_name(&want))));
            }
        }
        if run(&[(0, 0)]) != v {
            ctx.violation(&format!("removing nothing changes {}", text()));
        }
        ctx.case(&text(), !want.is_empty() && want.len() < v.len());
    });
    ctx.finish(2000)
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("2 to 9 random ranges, small and around the limit of 10000 joint entries, with shared and conflicting cards, empty ranges and weights; every group's entries are compared as a set with the disjoint product of its players' ranges; non-trivial: some group joins two players");
    ctx.par("ranges", ctx.n(500, 12_000), 8, 80, |c, rng| {
        let n = rng.range(1, 9);
        let mode = c % 5;
        let d = biased_deck(rng);
        let mut ranges: Vec<Vec<H>> = (0..n)
            .map(|_| {
                let k = match mode {
                    0 => rng.range(1, 4),
                    1 => rng.range(1, 12),
                    2 => rng.range(60, 130),
                    3 => *rng.pick(&[1, 2, 3, 20, 100, 101, 200]),
                    _ => rng.below(30),
                };
                let pool = rng.range(if mode == 2 { 20 } else { 6 }, 52);
                let mut v: Vec<H> = vec![];
                let mut seen = std::collections::HashSet::new();
                for _ in 0..k {
                    let (a, b) = (d[rng.below(pool)], d[rng.below(pool)]);
                    let h = (a.max(b), a.min(b));
                    if a != b && seen.insert(h) {
                        v.push((h.0, h.1, 100));
                    }
                }
                random_weights(rng, &mut v, true);
                v
            })
            .collect();
        if n > 1 && rng.chance(0.2) {
            ranges[1] = ranges[0].clone();
        }
        if n > 2 && rng.chance(0.05) {
            ranges[2].clear();
        }
        let text = || ranges.iter().map(|r| if r.len() > 40 { format!("[{} hands]", r.len()) } else { format!("[{}]", range_name(r)) }).collect::<Vec<_>>().join(" ");
        let lib: Vec<HandRange> = ranges.iter().map(|r| mk_range(r)).collect();
        let mut groups = match ctx.guard(&|| format!("CombinedRange::from_ranges on {}", text()), 3, || CombinedRange::from_ranges(&lib)) {
            Ok(g) => g,
            Err(e) => ctx.violation(&format!("CombinedRange::from_ranges panics: {e}\non {}", text())),
        };
        let mut seen = vec![0; n];
        let mut joined = false;
        for round in 0..2 {
            for g in &groups {
                let bad = |m: String| ctx.violation(&format!("combined ranges of {}: {m}", text()));
                let k = g.player_count();
                let pl = &g.players()[..k];
                if k == 0 {
                    bad("a group has no players".into());
                }
                joined |= k > 1;
                for &p in pl {
                    if p >= n {
                        bad(format!("player {p} does not exist"));
                    }
                    seen[p] += 1;
                }
                if g.size() != g.combos().len() {
                    bad(format!("size {} but {} entries", g.size(), g.combos().len()));
                }
                // expected number of entries
                fn count(r: &[&Vec<H>], used: u64) -> u64 {
                    match r {
                        [] => 1,
                        [last] => last.iter().filter(|h| hm(h) & used == 0).count() as u64,
                        _ => r[0].iter().filter(|h| hm(h) & used == 0).map(|h| count(&r[1..], used | hm(h))).sum(),
                    }
                }
                let rs: Vec<&Vec<H>> = pl.iter().map(|&p| &ranges[p]).collect();
                let want = count(&rs, 0);
                if want != g.size() as u64 {
                    bad(format!("the group of players {pl:?} has {} entries, {want} are compatible", g.size()));
                }
                let weights: Vec<HashMap<(u8, u8), u8>> = rs.iter().map(|r| r.iter().map(|h| ((h.0, h.1), h.2)).collect()).collect();
                let mut keys = std::collections::HashSet::new();
                for c in g.combos() {
                    let mut m = 0u64;
                    let mut key = vec![];
                    for i in 0..k {
                        let h = c.hole_cards[i];
                        if weights[i].get(&(h.0, h.1)) != Some(&h.2) {
                            bad(format!("entry gives player {} the hand {:?}, not in the range with that weight", pl[i], h));
                        }
                        if m & hm(&h) != 0 {
                            bad(format!("an entry deals a card twice: {:?}", &c.hole_cards[..k]));
                        }
                        m |= hm(&h);
                        key.push((h.0, h.1));
                        if c.hands[i] != Hand::from_hole_cards(h.0, h.1) {
                            bad(format!("player {}'s hand does not hold {:?}", pl[i], h));
                        }
                    }
                    if c.mask != m {
                        bad(format!("card mask {:#x} of {:?} should be {m:#x}", c.mask, &c.hole_cards[..k]));
                    }
                    if !keys.insert(key) {
                        bad(format!("entry {:?} occurs twice", &c.hole_cards[..k]));
                    }
                }
                ctx.tag("entries", g.size() as u64);
            }
            if seen.iter().any(|&x| x != round + 1) {
                ctx.violation(&format!("players are not in exactly one group each: {seen:?} for {}", text()));
            }
            // shuffling keeps the entries
            for g in groups.iter_mut() {
                let mut r = <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(rng.next());
                ctx.ok(&|| "CombinedRange::shuffle".into(), || g.shuffle(&mut r));
            }
        }
        ctx.case(&text(), joined);
    });
    ctx.finish(100)
}
