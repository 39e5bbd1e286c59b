//! C27, C28: the same workloads under race detectors, address sanitizer and the UB interpreter.
use crate::ctx::Ctx;
use crate::deal::*;
use crate::exact::{same_results, wide_range, Jitter};
use crate::oracle;
use crate::rng::Rng;
use crate::spot::*;
use pokers::fastdivide::DividerU64;
use pokers::hand_range::{card_from_chars, card_from_str, card_to_string, char_to_rank, char_to_suit, flop_from_str, hole_to_string, holes_to_strings, mask_to_string, Combo};
use pokers::equity_calculator::CombinedRange;
use pokers::{approx_equity, exact_equity, get_card_index, get_card_mask, get_draw, Hand, HandRange, SimulationResults, CARDS};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

#[derive(PartialEq, Clone, Copy)]
pub enum Scale {
    Full,
    San,
    Miri,
}
pub fn scale() -> Scale {
    match std::env::var("VH_SCALE").as_deref() {
        Ok("san") => Scale::San,
        Ok("miri") => Scale::Miri,
        _ => Scale::Full,
    }
}
fn mask_of(c: &[u8]) -> u64 {
    c.iter().fold(0, |m, &c| m | bit(c))
}

// ---------------------------------------------------------------- C27

/// One operation by one thread of a fresh process; the result in words.
fn first_op(k: usize) -> String {
    match k % 8 {
        0 => format!("{:?} {:?}", pokers::HAND_TO_INDEX.get("AsAh"), pokers::HAND_TO_INDEX.get("2c2d")),
        1 => format!("{:?} {:?}", pokers::COMBO_TO_INDEX.get("AA"), pokers::COMBO_TO_INDEX.get("22")),
        2 => format!("{}", HandRange::from_string("AKs, 77+, random@10".into()).hands.len()),
        3 => {
            let h = Hand::from_bit_mask(0b1111 << 20) + CARDS[0];
            format!("{} {}", h.evaluate(), h.get_card_index())
        }
        4 | 5 => {
            let r = HandRange::from_strings(vec!["AsAh".into(), "KsKh".into()]);
            let res = exact_equity(&r, get_card_mask("2s3h4d7c"), 0, (k % 3) as u8, Arc::new(AtomicBool::new(false)), |_| {}).unwrap();
            let h = res.get_hand_result(0, "AsAh".into()).map(|u| u.total);
            let c = res.get_combo_result(1, "KK".into()).map(|u| u.total);
            format!("{:?} {h:?} {c:?}", res.wins)
        }
        6 => format!("{:?} {}", hole_to_string((51, 50)), mask_to_string(0xF0F)),
        _ => format!("{}", 1_000_003u64 / DividerU64::divide_by(7)),
    }
}
/// child process: the first thing that ever happens in it is many threads using the library
pub fn first_use(seed: u64) -> ! {
    let mut rng = Rng::new(seed, "first_use", 0);
    let n = rng.range(2, 16);
    let same = rng.chance(0.5);
    let k0 = rng.below(8);
    let ks: Vec<usize> = (0..n).map(|_| if same { k0 } else { rng.below(24) }).collect();
    let b = Barrier::new(n);
    let got: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = ks
            .iter()
            .map(|&k| {
                let b = &b;
                s.spawn(move || {
                    b.wait();
                    first_op(k)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (k, g) in ks.iter().zip(&got) {
        let again = first_op(*k);
        if *g != again {
            println!("operation {k} by {n} threads at once as the first use of the library gave {g}, later {again}");
            std::process::exit(3);
        }
    }
    println!("{n} threads, operations {ks:?}");
    std::process::exit(0)
}

fn first_uses(ctx: &Ctx, n: u64) {
    let exe = std::env::current_exe().unwrap();
    ctx.par("c27_first_use", n, 3, 60, |c, _| {
        let o = std::process::Command::new(&exe)
            .args(["first-use", "--seed", &format!("{}", ctx.seed.wrapping_mul(1000) + c)])
            .output();
        let o = match o {
            Ok(o) => o,
            Err(e) => ctx.inconclusive(&format!("cannot start a child process: {e}")),
        };
        let out = String::from_utf8_lossy(&o.stdout).trim().to_string();
        if !o.status.success() {
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            ctx.violation(&format!("a process whose first use of the library is concurrent: {out} ({})\n{}", o.status, &err[..err.len().min(6000)]));
        }
        ctx.case(&out, true);
    });
}

// Histories: what a fresh process computes, and what one computes that did similar things before.

#[derive(Clone)]
enum Act {
    Run(Spot),
    Text(String),
    Draw(u64, u64),
    Value(u64),
    Names(u64),
}
impl Act {
    fn text(&self) -> String {
        match self {
            Act::Run(s) => format!("exact_equity on {}", s.text()),
            Act::Text(t) => format!("from_string({t:?})"),
            Act::Draw(h, b) => format!("get_draw({}, {})", oracle::mask_name(*h), oracle::mask_name(*b)),
            Act::Value(m) => format!("evaluate {}", oracle::mask_name(*m)),
            Act::Names(m) => format!("mask_to_string({m})"),
        }
    }
    /// everything the library answers, as numbers
    fn answer(&self) -> Vec<f64> {
        match self {
            Act::Run(s) => match exact_equity(&s.lib(), s.board, s.dead, s.threads, Arc::new(AtomicBool::new(false)), |_| {}) {
                Err(e) => vec![-1., format!("{e:?}").len() as f64],
                Ok(r) => {
                    let mut v: Vec<f64> = r.wins.iter().chain(&r.wins_by_mask).map(|&x| x as f64).collect();
                    v.extend(&r.ties);
                    v.extend(&r.equities);
                    for u in r.hand_results.iter().chain(&r.combo_results).chain(&r.board_results).chain(&r.board_draws) {
                        if u.valid || u.total > 0 {
                            v.extend([u.wins as f64, u.ties as f64, u.total as f64, u.corrected_ties, u.equity, u.winrate, u.tierate, u.weight as f64, u.rank as f64, u.draw as f64, u.valid as u8 as f64]);
                        } else {
                            v.push(-7.);
                        }
                    }
                    v
                }
            },
            Act::Text(t) => hands_of(&HandRange::from_string(t.clone())).iter().flat_map(|h| [h.0 as f64, h.1 as f64, h.2 as f64]).collect(),
            Act::Draw(h, b) => {
                let (x, y) = (Hand::from_bit_mask(*h), Hand::from_bit_mask(*b));
                let c = ((x + y).evaluate() >> 12).saturating_sub(1) as u8;
                vec![c as f64, get_draw(x, y, c) as f64]
            }
            Act::Value(m) => {
                let h = Hand::from_bit_mask(*m);
                vec![h.evaluate() as f64, h.get_rank_mask() as f64, h.has_flush() as u8 as f64]
            }
            Act::Names(m) => {
                let holes: Vec<(u8, u8)> = (0..51u8).filter(|c| m >> c & 3 == 3).map(|c| (c + 1, c)).collect();
                format!("{:?} {:?}", mask_to_string(*m), holes_to_strings(&holes)).bytes().map(|b| b as f64).collect()
            }
        }
    }
}
/// a base situation and others that share most of it: the same ranks in other suits, the same board with
/// other ranges, the same ranges on other boards, other weights, dead cards, seats and threads
fn family(rng: &mut Rng) -> Vec<Act> {
    let g = Gen { max_work: 20_000, boards: vec![0, 3, 3, 4, 4, 5], players: (2, 4), ..Gen::default() };
    let (base, _) = g.spot(rng);
    let mut v = vec![Act::Run(base.clone())];
    let resuit = |rng: &mut Rng, m: u64, avoid: u64| -> u64 {
        let mut out = 0u64;
        for c in (0..52u8).filter(|&c| m >> c & 1 == 1) {
            let free: Vec<u8> = (0..4).map(|s| (c & !3) | s).filter(|&x| (out | avoid) >> x & 1 == 0).collect();
            out |= bit(if free.is_empty() { c } else { *rng.pick(&free) });
        }
        out
    };
    let n = rng.range(2, 5);
    for _ in 0..n {
        let mut s = base.clone();
        for _ in 0..rng.range(1, 2) {
            match rng.below(8) {
                0 | 1 => {
                    let held = s.ranges.iter().flatten().fold(0, |m, h| m | hm(h));
                    let avoid = if rng.chance(0.7) { s.dead | held } else { s.dead };
                    s.board = resuit(rng, s.board, avoid);
                }
                2 => {
                    let mut used = s.dead;
                    let k = s.board.count_ones();
                    s.board = 0;
                    while s.board.count_ones() < k {
                        let c = rng.below(52) as u8;
                        if used >> c & 1 == 0 {
                            s.board |= bit(c);
                            used |= bit(c);
                        }
                    }
                }
                3 => {
                    let p: Vec<u8> = (0..52).filter(|&c| (s.board | s.dead) >> c & 1 == 0).collect();
                    s.dead |= bit(*rng.pick(&p));
                }
                4 => s.ranges.rotate_left(1),
                5 => {
                    for r in &mut s.ranges {
                        random_weights(rng, r, true);
                    }
                    s.tame(2e7);
                }
                6 => {
                    let p = rng.below(s.n());
                    let perm = [[1u8, 0, 3, 2], [2, 3, 0, 1], [3, 0, 1, 2]][rng.below(3)];
                    for h in &mut s.ranges[p] {
                        let f = |c: u8| (c & !3) | perm[(c & 3) as usize];
                        let (a, b) = (f(h.0), f(h.1));
                        *h = (a.max(b), a.min(b), h.2);
                    }
                }
                _ => s.threads = rng.range(1, 6) as u8,
            }
        }
        let work = s.n_boards().saturating_mul(s.assignments(20_000).unwrap_or(u64::MAX) as u128);
        if work <= 60_000 {
            v.push(Act::Run(s));
        }
    }
    let t = ["AKs@50,77", "AKs,77@50", "AKo,77", "AK,77+", "22-77", "T9s+", "random@20", "AsKs,7h7d", "AsKs@3,7h7d", "A5s-A2s"];
    v.push(Act::Text(rng.pick(&t).to_string()));
    v.push(Act::Text(rng.pick(&t).to_string()));
    let h = &base.ranges[0][0];
    let b = if (3..5).contains(&base.board.count_ones()) && base.board & hm(h) == 0 { base.board } else { 0b111 << (4 * ((h.0 >> 2) + 2) % 44) };
    if b & hm(h) == 0 {
        v.push(Act::Draw(hm(h), b));
        let b2 = resuit(rng, b, hm(h));
        v.push(Act::Draw(hm(h), b2));
        v.push(Act::Value(hm(h) | b));
        v.push(Act::Value(hm(h) | b2));
        let h2 = resuit(rng, hm(h), b);
        v.push(Act::Draw(h2, b));
        v.push(Act::Value(h2 | b));
    }
    v.push(Act::Names(base.board | base.dead));
    v.push(Act::Names(resuit(rng, base.board | base.dead, 0)));
    v
}
/// child process: answers of one member of a family and of nothing else
pub fn lone(seed: u64, case: u64, member: usize) -> ! {
    let mut rng = Rng::new(seed, "c27_history", case);
    let f = family(&mut rng);
    let a: Vec<String> = f[member].answer().iter().map(|x| format!("{x:?}")).collect();
    println!("{}", a.join(" "));
    std::process::exit(0)
}
fn histories(ctx: &Ctx, n: u64) {
    let exe = std::env::current_exe().unwrap();
    ctx.par("c27_history", n, 4, 60, |c, rng| {
        let f = family(rng);
        let mut first: Vec<Option<Vec<f64>>> = vec![None; f.len()];
        let mut order: Vec<usize> = (0..f.len() * 2).map(|i| i % f.len()).collect();
        rng.shuffle(&mut order);
        let mut before: Vec<usize> = vec![];
        for &i in &order {
            let got = ctx.ok(&|| f[i].text(), || f[i].answer());
            let want = first[i].get_or_insert_with(|| {
                let o = std::process::Command::new(&exe)
                    .args(["lone", "--seed", &ctx.seed.to_string(), "--case", &c.to_string(), "--member", &i.to_string()])
                    .output();
                match o {
                    Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).split_whitespace().map(|x| x.parse().unwrap_or(f64::NAN)).collect(),
                    Ok(o) => ctx.violation(&format!("a fresh process failed ({}) on {}\n{}", o.status, f[i].text(), String::from_utf8_lossy(&o.stderr))),
                    Err(e) => ctx.inconclusive(&format!("cannot start a child process: {e}")),
                }
            });
            let near = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1. + a.abs().max(b.abs()));
            if got.len() != want.len() || got.iter().zip(want.iter()).any(|(a, b)| !near(*a, *b)) {
                let d = got.iter().zip(want.iter()).position(|(a, b)| !near(*a, *b));
                let b: Vec<String> = before.iter().map(|&k| f[k].text()).collect();
                ctx.violation(&format!(
                    "a process that did other things before answers differently from a fresh one: {}\nanswer {:?} of {}: {:?}, fresh {:?}\nbefore it:\n{}",
                    f[i].text(), d, got.len(), d.map(|d| got[d]), d.map(|d| want[d]), b.join("\n")
                ));
            }
            before.push(i);
        }
        ctx.tag("histories_of_operations", order.len() as u64);
        let t: Vec<String> = order.iter().map(|&i| f[i].text()).collect();
        ctx.case(&t.join(" | "), true);
    });
}

fn mc_near(ctx: &Ctx, s: &Spot, r: &SimulationResults, want: &[f64]) {
    if let Err(e) = conserve(r, s.n(), s.board.count_ones()) {
        ctx.violation(&format!("Monte Carlo run beside others: {e}\nin {}", s.text()));
    }
    for (p, (a, b)) in r.equities.iter().zip(want).enumerate() {
        // at least 16 batches of 4096 evaluations each: one standard error is below 0.01
        if !((a - b).abs() < 0.1) {
            ctx.violation(&format!("Monte Carlo run beside others: player {p} has {a}, enumeration gives {b}\nin {}", s.text()));
        }
    }
}

pub fn c27(ctx: &Ctx) {
    let sc = scale();
    ctx.rule("children whose first use of the library is concurrent; sequences of related operations (same ranks in other suits, other boards, weights, seats) compared with fresh processes that do one of them only; pools of exact runs, Monte Carlo runs, parsing and evaluation executed by up to 8 threads at once, in random order and repeatedly, some cancelled, some panicking, some with delays injected by signals; every result is compared with the enumeration or with the result of a lone run; the same under ThreadSanitizer; non-trivial: an operation that overlapped with others");
    let san = sc != Scale::Full;
    first_uses(ctx, ctx.n(if san { 24 } else { 120 }, if san { 200 } else { 2000 }));
    if !san {
        histories(ctx, ctx.n(40, 1500));
    }
    let (rounds, big) = if san { (ctx.n(2, 10), false) } else { (ctx.n(10, 60), true) };
    for jitter in [false, true] {
        if jitter && san {
            continue;
        }
        let j = jitter.then(|| Jitter::start(ctx.seed));
        ctx.par(&format!("c27_pool_{jitter}"), rounds, 1, 60, |_, rng| pool(ctx, rng, san, big));
        if let Some(j) = j {
            ctx.tag("delays_injected", j.stop());
        }
    }
    ctx.finish(if san { 30 } else { 100 })
}

enum Job {
    Exact(Spot, SimulationResults),
    Mc(Spot, Vec<f64>),
    /// cancelled at the k-th callback
    Cancel(Spot),
    Panic(Spot),
    Parse(String, Vec<(u8, u8, u8)>),
    Eval(Vec<u8>, u32),
    Group(Spot, Vec<(Vec<usize>, Vec<(Vec<(u8, u8, u8)>, u64)>)>),
}
pub fn hands_of(r: &HandRange) -> Vec<(u8, u8, u8)> {
    r.hands.iter().map(|h| (h.0, h.1, h.2)).collect()
}
fn groups(s: &Spot) -> Vec<(Vec<usize>, Vec<(Vec<(u8, u8, u8)>, u64)>)> {
    CombinedRange::from_ranges(&s.lib())
        .iter()
        .map(|g| {
            let n = g.player_count();
            let mut c: Vec<_> = g.combos().iter().map(|c| (c.hole_cards[..n].to_vec(), c.mask)).collect();
            c.sort();
            (g.players().to_vec(), c)
        })
        .collect()
}

fn pool(ctx: &Ctx, rng: &mut Rng, san: bool, big: bool) {
    let mut jobs = vec![];
    let small = if san { 3_000 } else { 40_000 };
    let bad = |m: String| -> SimulationResults { ctx.violation(&m) };
    for i in 0..rng.range(10, 24) {
        let g = Gen { max_work: small, ..Gen::default() };
        match rng.below(10) {
            0..=3 => {
                let (mut s, _) = g.spot(rng);
                s.threads = rng.range(1, 8) as u8;
                let t = enumerate(&s);
                let r = s.exact_ok(ctx);
                if let Err(e) = compare_totals(&r, &t) {
                    bad(format!("{e}\nexact_equity on {}", s.text()));
                }
                jobs.push(Job::Exact(s, r));
            }
            4 if big => {
                // many batches, every worker merging often
                let deck = biased_deck(rng);
                let ranges = (0..2).map(|_| wide_range(rng, &deck[4..], 200)).collect();
                let s = Spot { ranges, board: mask_of(&deck[..4]), dead: 0, threads: rng.range(2, 8) as u8 };
                let r = s.exact_ok(ctx);
                jobs.push(Job::Exact(s, r));
            }
            4 | 5 => {
                let (mut s, k) = Gen { players: (2, 4), ..g }.spot(rng);
                // hole cards that fit together rarely make Monte Carlo slow
                let all: f64 = s.live().iter().map(|r| r.len() as f64).product();
                if (k as f64) < all * 0.02 || i == 0 {
                    continue;
                }
                s.threads = rng.range(1, 4) as u8;
                let t = enumerate(&s);
                jobs.push(Job::Mc(s.clone(), (0..s.n()).map(|p| t.equity(p)).collect()));
            }
            6 => {
                let deck = biased_deck(rng);
                let ranges = (0..3).map(|_| wide_range(rng, &deck[3..], 30)).collect();
                let s = Spot { ranges, board: mask_of(&deck[..3]), dead: 0, threads: rng.range(1, 4) as u8 };
                jobs.push(if rng.chance(0.6) { Job::Cancel(s) } else { Job::Panic(s) });
            }
            7 => {
                let t = rng.pick(&["random", "22+,A2s+@37", "KQo-K2o@5,77", "AsKh@1, 2d2c, T9s-54s", "junk, AA", "AKs@300,QQ"]).to_string();
                let w = hands_of(&HandRange::from_string(t.clone()));
                jobs.push(Job::Parse(t, w));
            }
            8 => {
                let (s, _) = g.spot(rng);
                let w = groups(&s);
                jobs.push(Job::Group(s, w));
            }
            _ => {
                let mut d: Vec<u8> = (0..52).collect();
                rng.shuffle(&mut d);
                d.truncate(rng.range(5, 7));
                let v = oracle::value(&oracle::of(&d));
                jobs.push(Job::Eval(d, v));
            }
        }
    }
    let n = jobs.len();
    let reps = if san { 1 } else { 3 };
    let mut order: Vec<usize> = (0..n * reps).map(|i| i % n).collect();
    rng.shuffle(&mut order);
    let next = AtomicU64::new(0);
    let seeds: Vec<u64> = (0..order.len()).map(|_| rng.next()).collect();
    let running = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, SeqCst) as usize;
                if k >= order.len() {
                    break;
                }
                let beside = running.fetch_add(1, SeqCst);
                job(ctx, &jobs[order[k]], seeds[k], k, beside);
                running.fetch_sub(1, SeqCst);
            });
        }
    });
}

fn job(ctx: &Ctx, j: &Job, seed: u64, k: usize, beside: u64) {
    let key = |what: &str, s: &str| ctx.case(&format!("#{k} {seed} {what} beside {beside}: {s}"), beside > 0);
    match j {
        Job::Exact(s, want) => {
            // the caller's own callback only sees this run
            let seen = Arc::new(AtomicU64::new(0));
            let (s2, r) = (seen.clone(), s.lib());
            let me = std::thread::current().id();
            let own = AtomicBool::new(true);
            let got = ctx.ok(&|| format!("exact_equity on {}", s.text()), || {
                exact_equity(&r, s.board, s.dead, s.threads, Arc::new(AtomicBool::new(false)), |p| {
                    s2.fetch_add(p as u64 + 1, SeqCst);
                    if std::thread::current().id() != me {
                        own.store(false, SeqCst);
                    }
                })
            });
            match got {
                Ok(got) => {
                    if let Err(e) = same_results(want, &got) {
                        ctx.violation(&format!("the result beside {beside} other calculations differs from that of a lone run: {e}\nexact_equity on {}", s.text()));
                    }
                }
                Err(e) => ctx.violation(&format!("exact_equity beside others refused a possible input with {e:?}: {}", s.text())),
            }
            if !own.load(SeqCst) {
                ctx.violation(&format!("progress was reported on a thread of another calculation\nexact_equity on {}", s.text()));
            }
            ctx.tag("exact", 1);
            key("exact", &s.text());
        }
        Job::Mc(s, want) => {
            let r = s.approx_ok(ctx, 0.02);
            mc_near(ctx, s, &r, want);
            ctx.tag("monte_carlo", 1);
            key("monte carlo", &s.text());
        }
        Job::Cancel(s) | Job::Panic(s) => {
            let panics = matches!(j, Job::Panic(_));
            let stop = seed % 3;
            let n = AtomicU64::new(0);
            let token = Arc::new(AtomicBool::new(false));
            let (r, t2) = (s.lib(), token.clone());
            let f = |_: u8| {
                if n.fetch_add(1, SeqCst) == stop {
                    if panics {
                        std::panic::panic_any("panic");
                    }
                    t2.store(true, SeqCst);
                }
            };
            let res = if seed & 4 == 0 {
                ctx.catch(&|| format!("exact_equity on {}", s.text()), || exact_equity(&r, s.board, s.dead, s.threads, token.clone(), &f))
            } else {
                ctx.catch(&|| format!("approx_equity on {}", s.text()), || approx_equity(&r, s.board, s.dead, s.threads, 0.005, token.clone(), &f))
            };
            match res {
                Ok(Ok(r)) => {
                    if let Err(e) = conserve(&r, s.n(), s.board.count_ones()) {
                        ctx.violation(&format!("cancelled run: {e}\n{}", s.text()));
                    }
                }
                Ok(Err(e)) => ctx.violation(&format!("{e:?} for a possible input: {}", s.text())),
                Err(p) => {
                    if !panics {
                        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                        ctx.violation(&format!("panic in the library: {m}\n{}", s.text()));
                    }
                }
            }
            ctx.tag(if panics { "panicking_callback" } else { "cancelled" }, 1);
            key("stopped", &s.text());
        }
        Job::Parse(t, want) => {
            let got = ctx.ok(&|| format!("HandRange::from_string({t:?})"), || HandRange::from_string(t.clone()));
            if hands_of(&got) != *want {
                ctx.violation(&format!("from_string({t:?}) gave {} hands beside other calculations, {} alone", got.hands.len(), want.len()));
            }
            key("parse", t);
        }
        Job::Group(s, want) => {
            if ctx.ok(&|| format!("CombinedRange::from_ranges on {}", s.text()), || groups(s)) != *want {
                ctx.violation(&format!("CombinedRange::from_ranges gave another result beside other calculations: {}", s.text()));
            }
            key("group", &s.text());
        }
        Job::Eval(c, v) => {
            let mut h = Hand::default();
            for &x in c {
                h += CARDS[x as usize];
            }
            let e = h.evaluate();
            if e as u32 >> 12 != oracle::category(*v) {
                ctx.violation(&format!("{c:?} evaluates to {e} beside other calculations"));
            }
            key("evaluate", &format!("{c:?}"));
        }
    }
}

// ---------------------------------------------------------------- C28

/// every query of a hand, whatever it holds; panics are for the caller
fn query(ctx: &Ctx, what: &dyn Fn() -> String, h: Hand) -> u64 {
    let n = std::cell::Cell::new(0);
    let mut sum = 0u64;
    let mut try_ = |f: &dyn Fn() -> u64| match ctx.catch(what, f) {
        Ok(v) => sum = sum.wrapping_mul(31).wrapping_add(v),
        Err(_) => n.set(n.get() + 1),
    };
    try_(&|| h.evaluate() as u64);
    try_(&|| h.evaluate_without_flush() as u64);
    try_(&|| h.get_card_index() as u64);
    try_(&|| h.get_rank_key() as u64);
    try_(&|| h.get_flush_key() as u64);
    try_(&|| h.get_rank_mask() as u64);
    try_(&|| h.get_counters() as u64 + h.count() as u64 + h.has_flush() as u64);
    for s in [0u8, 1, 2, 3, 4, 7, 255] {
        try_(&|| h.get_suit_mask(s) as u64);
        try_(&|| h.suit_count(s) as u64);
    }
    for c in [0u8, 51, 52, 63, 64, 200, 255] {
        try_(&|| h.contains(c) as u64);
    }
    std::hint::black_box(sum);
    n.get()
}

pub fn c28(ctx: &Ctx) {
    let sc = scale();
    ctx.rule("every public function with arguments inside and outside its domain (all pairs of card numbers, hands of up to 60 cards, arbitrary hand bits, masks and texts, hands with invalid cards in ranges) in a build that checks the preconditions of unchecked operations, under AddressSanitizer, and for a small workload under Miri; panics are allowed only outside the domain; non-trivial: every distinct call outside or at the edge of the domain");
    let m = |full: u64, san: u64, miri: u64| match sc {
        Scale::Full => full,
        Scale::San => san,
        Scale::Miri => miri,
    };
    let t = ctx.thorough;
    let q = |a: u64, b: u64| if t { b } else { a };
    // card numbers
    ctx.par("c28_index", 256, 8, 60, |c1, rng| {
        if sc == Scale::Miri && ![0, 1, 50, 51, 52, 64, 101, 102, 255].contains(&c1) {
            return;
        }
        let mut panics = 0;
        for c2 in 0..=255u8 {
            if sc == Scale::Miri && ![0, 51, 52, 101, 255].contains(&c2) {
                continue;
            }
            let c1 = c1 as u8;
            let valid = c1 < 52 && c2 < 52 && c1 != c2;
            let w = || format!("get_card_index({c1}, {c2})");
            let r = ctx.catch(&w, || get_card_index(c1, c2));
            let h = ctx.catch(&w, || Hand::from_hole_cards(c1, c2));
            let s = ctx.catch(&w, || hole_to_string((c1, c2)).map(|x| x.len()));
            let ss = ctx.catch(&w, || holes_to_strings(&[(c1, c2), (c2, c1)]).map(|x| x.len()));
            let f = ctx.catch(&w, || format!("{}", Combo(c1, c2, 100)).len());
            let f2 = ctx.catch(&w, || Combo(c1, c2, 1).cmp(&Combo(c2, c1, 1)));
            if valid && (r.is_err() || h.is_err() || s.is_err() || ss.is_err() || f.is_err() || f2.is_err()) {
                ctx.violation(&format!("panic for the valid cards {c1} and {c2}"));
            }
            if s.is_err() || ss.is_err() {
                ctx.violation(&format!("hole_to_string(({c1}, {c2})) panicked instead of returning an error"));
            }
            if let (Ok(i), true) = (&r, valid) {
                if *i > 1325 {
                    ctx.violation(&format!("get_card_index({c1}, {c2}) = {i}"));
                }
            }
            panics += r.is_err() as u64 + h.is_err() as u64;
            if let Ok(h) = h {
                if !valid || rng.chance(0.02) {
                    panics += query(ctx, &w, h);
                }
            }
            ctx.case(&w(), !valid);
        }
        let c = c1 as u8;
        let r = ctx.catch(&|| format!("card_to_string({c})"), || card_to_string(c).len());
        if c < 52 && r.is_err() {
            ctx.violation(&format!("card_to_string({c}) panicked"));
        }
        ctx.tag("panics_on_invalid_cards", panics);
    });
    // hands that no deck can make
    ctx.par("c28_hands", m(q(20_000, 400_000), q(3000, 60_000), q(16, 120)), 8, 60, |_, rng| {
        let n = if rng.chance(0.3) { rng.range(8, 60) } else { rng.below(16) };
        let few: Vec<usize> = (0..rng.range(1, 6)).map(|_| rng.below(52)).collect();
        let mode = rng.below(5);
        let mut h = Hand::default();
        let mut cards = vec![];
        for _ in 0..n {
            let c = match mode {
                0 => *rng.pick(&few),
                1 => 48 + rng.below(4),
                2 => 4 * rng.below(13) + (few[0] & 3),
                _ => rng.below(52),
            };
            cards.push(c);
            match ctx.catch(&|| format!("adding {c} to {cards:?}"), || h + CARDS[c]) {
                Ok(x) => h = x,
                Err(_) => break,
            }
        }
        let w = || format!("hand of cards {cards:?}");
        let mut p = query(ctx, &w, h);
        let b = ctx.catch(&w, || Hand::from_bit_mask(rng_mask(&cards)));
        if let Ok(b) = b {
            for rank in [0u8, 1, 3, 4, 5, 9, 255] {
                p += ctx.catch(&w, || get_draw(h, b, rank)).is_err() as u64;
                p += ctx.catch(&w, || get_draw(b, h, rank)).is_err() as u64;
            }
        }
        ctx.tag("panics_on_impossible_hands", p);
        ctx.case(&w(), true);
    });
    // the fields of a hand are public
    ctx.par("c28_bits", m(q(20_000, 400_000), q(3000, 60_000), q(24, 160)), 8, 60, |c, rng| {
        let edge = [0u64, u64::MAX, 1 << 63, 0x1fff, 0x3333 << 48, 0x8888 << 48, u32::MAX as u64, 0x1ffffff, 0x1fff000, 0x1ffefff];
        let v = |rng: &mut Rng| match rng.below(5) {
            0 => *rng.pick(&edge),
            1 => rng.next() & rng.next() & rng.next(),
            2 => 1u64 << rng.below(64),
            3 => rng.next() | rng.next(),
            _ => rng.next(),
        };
        let c = if sc == Scale::Miri { c * 17 % 200 } else { c };
        let h = if c < 100 { Hand { key: edge[c as usize / 10], mask: edge[c as usize % 10] } } else { Hand { key: v(rng), mask: v(rng) } };
        let w = || format!("{h:?}");
        let mut p = query(ctx, &w, h);
        p += ctx.catch(&w, || get_draw(h, h, 3)).is_err() as u64;
        p += ctx.catch(&w, || h + h).is_err() as u64;
        ctx.tag("panics_on_arbitrary_hands", p);
        ctx.case(&w(), true);
    });
    // numbers and texts
    ctx.par("c28_values", m(q(6000, 100_000), q(1500, 30_000), q(12, 100)), 8, 60, |_, rng| {
        let d = match rng.below(4) {
            0 => 0,
            1 => rng.next() >> rng.below(64),
            2 => u64::MAX - rng.below(3) as u64,
            _ => 1 << rng.below(64),
        };
        let y = rng.next();
        let x = *rng.pick(&[0, 1, u64::MAX, y, d, d.wrapping_sub(1)]);
        let w = || format!("{x} / DividerU64({d})");
        match ctx.catch(&w, || DividerU64::divide_by(d).divide(x)) {
            Ok(_) if d == 0 => ctx.violation("DividerU64::divide_by(0) did not refuse"),
            Err(_) if d != 0 => ctx.violation(&format!("panic in {}", w())),
            _ => {}
        }
        let t = text(rng);
        let w = || format!("text {t:?}");
        // text is never invalid input: it is rejected or read
        let all: Vec<(&str, bool)> = vec![
            ("from_string", ctx.catch(&w, || HandRange::from_string(t.clone()).hands.len()).is_err()),
            ("get_card_mask", ctx.catch(&w, || get_card_mask(&t)).is_err()),
            ("card_from_str", ctx.catch(&w, || card_from_str(&t)).is_err()),
            ("card_from_chars", ctx.catch(&w, || card_from_chars(&mut t.chars())).is_err()),
            ("flop_from_str", ctx.catch(&w, || flop_from_str(&t)).is_err()),
            ("char_to_rank", ctx.catch(&w, || t.chars().map(char_to_rank).max()).is_err()),
            ("char_to_suit", ctx.catch(&w, || t.chars().map(char_to_suit).max()).is_err()),
        ];
        if let Some((f, _)) = all.iter().find(|x| x.1) {
            ctx.violation(&format!("{f}({t:?}) panicked"));
        }
        let any = rng.next();
        let mut r = HandRange::from_string(t.clone());
        let masks = (rng.next() & rng.next(), any);
        if ctx.catch(&|| format!("remove_conflicting_combos({:x}, {:x})", masks.0, masks.1), || r.remove_conflicting_combos(masks.0, masks.1)).is_err() {
            ctx.violation(&format!("remove_conflicting_combos({:x}, {:x}) panicked", masks.0, masks.1));
        }
        // masks have bits above the deck
        for mk in [any, any & 0xf_ffff_ffff_ffff, u64::MAX, !0xf_ffff_ffff_ffff] {
            let h = ctx.catch(&|| format!("from_bit_mask({mk:x})"), || Hand::from_bit_mask(mk));
            let s = ctx.catch(&|| format!("mask_to_string({mk:x})"), || mask_to_string(mk));
            if s.is_err() && mk < 1 << 52 {
                ctx.violation(&format!("mask_to_string({mk:x}) panicked"));
            }
            if let Ok(h) = h {
                query(ctx, &|| format!("from_bit_mask({mk:x})"), h);
            } else if mk.count_ones() <= 7 && mk < 1 << 52 {
                ctx.violation(&format!("from_bit_mask({mk:x}) panicked"));
            }
        }
        ctx.case(&w(), true);
    });
    // calculations with invalid cards in ranges, boards and dead cards
    ctx.par("c28_invalid_runs", m(q(1500, 30_000), q(300, 6000), q(8, 60)), 8, 60, |_, rng| {
        let n = rng.range(2, 4);
        let deck = biased_deck(rng);
        let nb = if sc == Scale::Miri { 5 } else { rng.range(3, 5) };
        let mut ranges: Vec<HandRange> = (0..n).map(|p| mk_range(&[(deck[10 + 2 * p].max(deck[11 + 2 * p]), deck[10 + 2 * p].min(deck[11 + 2 * p]), 100)])).collect();
        let mut what = vec![];
        for _ in 0..rng.range(1, 3) {
            let p = rng.below(n);
            let bad = match rng.below(6) {
                0 => Combo(rng.range(52, 63) as u8, rng.below(52) as u8, 100),
                1 => Combo(rng.range(64, 255) as u8, rng.range(0, 255) as u8, rng.range(0, 255) as u8),
                2 => Combo(7, 7, 100),
                3 => Combo(rng.below(52) as u8, rng.range(52, 255) as u8, 50),
                4 => Combo(255, 255, 255),
                _ => Combo(deck[9].max(deck[8]), deck[9].min(deck[8]), *rng.pick(&[0u8, 101, 200, 255])),
            };
            what.push((p, bad));
            ranges[p].hands.push(bad);
            if rng.chance(0.3) {
                ranges[p].hands.remove(0);
            }
        }
        let mut board = mask_of(&deck[..nb]);
        let mut dead = mask_of(&deck[40..40 + rng.below(4)]);
        if rng.chance(0.3) {
            board |= 1 << rng.range(52, 63);
        }
        if rng.chance(0.3) {
            dead |= rng.next() & !0xf_ffff_ffff_ffff;
        }
        let th = rng.below(3) as u8;
        let w = || format!("{n} players with {what:?} board {board:x} dead {dead:x} threads {th}");
        let g = ctx.catch(&w, || CombinedRange::from_ranges(&ranges).len());
        let token = Arc::new(AtomicBool::new(false));
        let exact = rng.chance(0.6) || sc == Scale::Miri;
        let r = if exact {
            ctx.catch(&w, || exact_equity(&ranges, board, dead, th, token, |_| {}))
        } else {
            let t2 = token.clone();
            let k = AtomicU64::new(0);
            ctx.catch(&w, || {
                approx_equity(&ranges, board, dead, th, 0.05, token, move |_| {
                    if k.fetch_add(1, SeqCst) > 20 {
                        t2.store(true, SeqCst)
                    }
                })
            })
        };
        ctx.tag(
            match (&g, &r) {
                (Err(_), _) | (_, Err(_)) => "invalid_runs_that_panicked",
                (_, Ok(Err(_))) => "invalid_runs_refused",
                _ => "invalid_runs_with_a_result",
            },
            1,
        );
        if let Ok(Ok(r)) = r {
            lookups(ctx, rng, &r);
        }
        ctx.case(&w(), true);
    });
    // valid calculations
    ctx.par("c28_valid_runs", m(q(600, 20_000), q(150, 4000), q(3, 24)), 8, 60, |c, rng| {
        let work = m(60_000, 20_000, 60);
        let g = if sc == Scale::Miri {
            Gen { max_work: work, players: (2, 3), boards: vec![4, 5], ..Gen::default() }
        } else {
            Gen { max_work: work, ..Gen::default() }
        };
        let (mut s, k) = g.spot(rng);
        if sc == Scale::Miri {
            s.threads = 1 + (c % 3) as u8;
        } else if rng.chance(0.1) {
            s.threads = *rng.pick(&[0, 16, 64, 255]);
        }
        let r = s.exact_ok(ctx);
        let t = enumerate(&s);
        if let Err(e) = compare_totals(&r, &t) {
            ctx.violation(&format!("{e}\nexact_equity on {}", s.text()));
        }
        lookups(ctx, rng, &r);
        let all: f64 = s.live().iter().map(|r| r.len() as f64).product();
        if sc != Scale::Miri && k as f64 > 0.02 * all && c % 4 == 0 {
            let r = s.approx_ok(ctx, 0.02);
            if let Err(e) = conserve(&r, s.n(), s.board.count_ones()) {
                ctx.violation(&format!("{e}\napprox_equity on {}", s.text()));
            }
            lookups(ctx, rng, &r);
        }
        ctx.tag("valid_runs", 1);
        ctx.case(&s.text(), true);
    });
    if sc == Scale::Miri {
        // two workers drawing random deals, stopped from the callback
        ctx.par("c28_miri_approx", 1, 1, 60, |_, _| {
            let r = HandRange::from_strings(vec!["AsAh,KsKh".into(), "QdQc,JdJc".into()]);
            let token = Arc::new(AtomicBool::new(true));
            let res = ctx.ok(&|| "approx_equity".into(), || approx_equity(&r, get_card_mask("2s3s4s5d"), 0, 2, 0.1, token, |_| {}));
            if res.is_err() {
                ctx.violation("approx_equity refused a possible input");
            }
            ctx.case("approx_equity, cancelled at the start", true);
        });
    }
    ctx.finish(match sc {
        Scale::Miri => 1,
        _ => 2000,
    })
}

fn rng_mask(cards: &[usize]) -> u64 {
    cards.iter().fold(0, |m, &c| m | 1u64 << c)
}
/// lookups by any player and any name; a wrong player may panic
fn lookups(ctx: &Ctx, rng: &mut Rng, r: &SimulationResults) {
    let n = r.equities.len();
    for _ in 0..3 {
        let p = *rng.pick(&[0, n - 1, n, n + 1, 8, 9, 63, 64, 1 << 20, usize::MAX / 1326 + 1, usize::MAX]);
        let name = rng.pick(&["AsAh", "2c2d", "2d2c", "AA", "72o", "22", "", "é", "AsAs", "22o"]).to_string();
        let w = || format!("result of player {p} for {name:?}");
        let a = ctx.catch(&w, || r.get_hand_result(p, name.clone()).is_ok());
        let b = ctx.catch(&w, || r.get_combo_result(p, name.clone()).is_ok());
        if p < n && (a.is_err() || b.is_err()) {
            ctx.violation(&format!("panic in {}", w()));
        }
    }
}
fn text(rng: &mut Rng) -> String {
    let alpha: Vec<char> = "23456789TJQKAakqjtshcdSHCDo+-,@ 0123456789é€𝒜\u{0}\u{212a}ſrandomRANDOM".chars().collect();
    match rng.below(4) {
        0 => (0..rng.below(30)).map(|_| *rng.pick(&alpha)).collect(),
        1 => (0..rng.below(12)).map(|_| char::from_u32(rng.next() as u32 & 0x10ffff).unwrap_or('x')).collect(),
        2 => {
            let mut s = String::from(*rng.pick(&["AKs-A2s@37", "22+", "random", "AsKh,2c2d@5", "T9o+@99999999999999999999", "AsKs2d"]));
            for _ in 0..rng.below(4) {
                let i = rng.below(s.chars().count() + 1);
                let c = *rng.pick(&alpha);
                let at = s.char_indices().nth(i).map_or(s.len(), |x| x.0);
                s.insert(at, c);
            }
            s
        }
        _ => {
            let a = *rng.pick(&alpha);
            let n = rng.below(6);
            std::iter::repeat(a).take(n).collect()
        }
    }
}
