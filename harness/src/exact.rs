//! C11-C18: the exact calculation.
use crate::ctx::Ctx;
use crate::deal::*;
use crate::eval::{judge_draw, perms, resuit};
use crate::oracle::*;
use crate::rng::Rng;
use crate::spot::*;
use pokers::{get_draw, Hand, SimulationResults};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

fn oracle_ok(ctx: &Ctx) {
    if let Err(e) = self_check(&mut Rng::new(ctx.seed, "oracle", 0)) {
        ctx.inconclusive(&e);
    }
    for a in 0..52u8 {
        for b in 0..a {
            if pokers::get_card_index(a, b) != num(a, b) {
                ctx.violation(&format!("hand number of {} is {}, not {}: per-hand results are misfiled", hand_name((a, b, 0)), pokers::get_card_index(a, b), num(a, b)));
            }
        }
    }
}

/// hands spread over many ranks and suits, distinct
pub fn wide_range(rng: &mut Rng, cards: &[u8], k: usize) -> Vec<H> {
    let mut all: Vec<H> = vec![];
    for (i, &a) in cards.iter().enumerate() {
        for &b in &cards[..i] {
            all.push((a.max(b), a.min(b), 100));
        }
    }
    rng.shuffle(&mut all);
    all.truncate(k);
    sort_hands(&mut all);
    all
}
fn mask_of(c: &[u8]) -> u64 {
    c.iter().fold(0, |m, &c| m | bit(c))
}

/// the spots that C11 and C12 compare with a full enumeration
fn workload(ctx: &Ctx, f: &(dyn Fn(&Spot, &SimulationResults, &Totals) + Sync)) {
    let p = &ctx.prop;
    let go = |s: &Spot, kind: &str| {
        let t = enumerate(s);
        let r = s.exact_ok(ctx);
        f(s, &r, &t);
        ctx.tag(&format!("deals_{kind}"), t.deals);
        ctx.case(&s.text(), t.deals > 1);
    };
    // anything, mostly short decks and late streets
    ctx.par(&format!("{p}_spots"), ctx.n(1500, 40_000), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 60_000, ..Gen::default() }.spot(rng);
        go(&s, "spots");
    });
    ctx.par(&format!("{p}_heads_up"), ctx.n(300, 8_000), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 400_000, players: (2, 3), boards: vec![0, 1, 2, 3, 4], short: 0.5, ..Gen::default() }.spot(rng);
        go(&s, "heads_up");
    });
    ctx.par(&format!("{p}_many_players"), ctx.n(150, 4_000), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 200_000, players: (5, 9), ..Gen::default() }.spot(rng);
        go(&s, "many_players");
    });
    // the whole deck before the flop or with one or two known cards
    ctx.par(&format!("{p}_preflop"), ctx.n(16, 200), 8, 60, |c, rng| {
        let (s, _) = Gen { max_work: 4_000_000, players: (2, 5), boards: vec![0, 0, 1, 2], short: 0.0, max_hands: 6, ..Gen::default() }.spot(rng);
        let _ = c;
        go(&s, "preflop");
    });
    // more hole-card combinations than one batch of work
    ctx.par(&format!("{p}_batches"), ctx.n(10, 120), 8, 60, |c, rng| {
        let deck = biased_deck(rng);
        let (nb, n, k) = match c % 5 {
            0 => (5, 3, 150),
            1 => (4, 2, 290),
            2 => (3, 2, 103),
            3 => (5, 4, 45),
            _ => (4, 3, 60),
        };
        let mut ranges: Vec<Vec<H>> = (0..n).map(|_| wide_range(rng, &deck[nb..], k)).collect();
        if rng.chance(0.5) {
            for r in &mut ranges {
                random_weights(rng, r, true);
                r[0].2 = 100;
            }
        }
        let s = Spot { ranges, board: mask_of(&deck[..nb]), dead: 0, threads: *rng.pick(&[1, 2, 4, 8]) };
        go(&s, "batches");
    });
}

pub fn c11(ctx: &Ctx) {
    oracle_ok(ctx);
    ctx.rule("random inputs: 2-9 players, ranges with shared cards, weights and blocked hands, boards of 0-5 cards, whole and short decks, suit- and rank-heavy cards, 0-8 threads; wins, ties, equities and winner sets are compared with a brute-force enumeration of every deal in 128-bit integers; non-trivial: more than one deal");
    workload(ctx, &|s, r, t| {
        if let Err(e) = compare_totals(r, t) {
            ctx.violation(&format!("{e}\nexact_equity on {}", s.text()));
        }
        if s.ranges.iter().flatten().all(|h| h.2 == 100) {
            let tl: u128 = r.wins_by_mask.iter().map(|&x| x as u128).sum();
            if tl != t.deals as u128 {
                ctx.violation(&format!("{tl} deals counted, there are {}\nexact_equity on {}", t.deals, s.text()));
            }
            ctx.tag("unweighted_spots", 1);
        }
    });
    // Nine players with weights that have no common divisor: every deal counts close to 10^18.
    if ctx.only_case.is_none() {
        let ranges = (0..9u8).map(|p| vec![(51 - 4 * p, 50 - 4 * p, 100), (49 - 4 * p, 48 - 4 * p, 99)]).collect();
        let s = Spot { ranges, board: 0b10001_0000_1011, dead: 0, threads: 1 };
        let t = enumerate(&s);
        let lib = s.lib();
        let r = ctx.guard(&|| format!("exact_equity on {}", s.text()), 1, || pokers::exact_equity(&lib, s.board, 0, 1, std::sync::Arc::new(AtomicBool::new(false)), |_| {}));
        let right = matches!(&r, Ok(Ok(r)) if (0..9).all(|p| (r.equities[p] - t.equity(p)).abs() < 1e-9));
        if !right {
            ctx.finding("mixed-weights-overflow", "products of many mixed weights overflow the 64-bit counters: nine players, each with one hand of weight 100 and one of weight 99 on a river board (512 deals of about 10^18 each)");
        }
    }
    ctx.finish(300)
}

pub fn c12(ctx: &Ctx) {
    oracle_ok(ctx);
    ctx.rule("the inputs of C11; all 1326 hand entries and 169 starting-hand entries of every player are compared with the enumeration; non-trivial: more than one deal");
    workload(ctx, &|s, r, t| {
        if let Err(e) = compare_hands(r, t) {
            ctx.violation(&format!("{e}\nexact_equity on {}", s.text()));
        }
        ctx.tag("hand_entries_with_deals", t.hand.iter().filter(|c| c.total > 0).count() as u64);
    });
    ctx.finish(300)
}

pub fn check_labels(ctx: &Ctx, s: &Spot, r: &SimulationResults) -> u64 {
    let nb = s.board.count_ones();
    if nb < 3 {
        return 0;
    }
    let b = cards_of(s.board);
    let bh = Hand::from_bit_mask(s.board);
    let mut n = 0;
    for (p, range) in s.ranges.iter().enumerate() {
        for h in range {
            if hm(h) & s.blocked() != 0 {
                continue;
            }
            let u = &r.hand_results[p * 1326 + num(h.0, h.1)];
            let mut all = b.clone();
            all.extend([h.0, h.1]);
            let cat = category(value(&of(&all)));
            let bad = |m: String| ctx.violation(&format!("player {p}, {} on {}: {m}\nin {}", hand_name(*h), mask_name(s.board), s.text()));
            if u.rank as u32 != cat - 1 {
                bad(format!("labelled with category {}, holds {}", u.rank, cat - 1));
            }
            if nb == 5 {
                if u.draw != 0 {
                    bad(format!("has draw flags {:#b} on the river", u.draw));
                }
            } else {
                let want = get_draw(Hand::from_hole_cards(h.0, h.1), bh, cat as u8 - 1);
                if u.draw != want {
                    bad(format!("has draw flags {:#b}, get_draw says {want:#b}", u.draw));
                }
                if let Err(e) = judge_draw(u.draw, (h.0, h.1), s.board, cat) {
                    bad(e);
                }
            }
            n += 1;
        }
        if nb == 5 {
            for k in 0..10 {
                let d = &r.board_draws[p * 10 + k];
                if d.total != 0 || d.wins != 0 || d.ties != 0 || d.weight != 0 {
                    ctx.violation(&format!("player {p} has a draw entry {k} on the river: {d:?}\nin {}", s.text()));
                }
            }
        }
    }
    n
}

pub fn c13(ctx: &Ctx) {
    oracle_ok(ctx);
    ctx.rule("random flop, turn and river inputs with weights and blocked hands, exact and Monte Carlo; every hand's category and draw flags, and every category and draw entry against the sums over its hands; non-trivial: 10 or more labelled hands");
    let go = |s: &Spot, r: &SimulationResults, kind: &str| {
        let n = check_labels(ctx, s, r);
        match conserve(r, s.n(), s.board.count_ones()) {
            Ok(_) => {}
            Err(e) => ctx.violation(&format!("{e}\n{kind} on {}", s.text())),
        }
        ctx.tag("labelled_hands", n);
        let dr = r.board_draws.iter().filter(|d| d.total > 0).count() as u64;
        ctx.tag("draw_entries", dr);
        ctx.case(&format!("{kind} {}", s.text()), n >= 10);
    };
    let g = Gen { boards: vec![3, 3, 4, 4, 5], ..Gen::default() };
    ctx.par("c13_spots", ctx.n(800, 20_000), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 40_000, ..g.clone() }.spot(rng);
        go(&s, &s.exact_ok(ctx), "exact");
    });
    // wide ranges: all kinds of hands on one board
    ctx.par("c13_wide", ctx.n(120, 2_000), 8, 80, |_, rng| {
        let deck = biased_deck(rng);
        let nb = rng.range(3, 5);
        let k = [0, 0, 0, 60, 300, 900][nb];
        let lone = rng.chance(0.5);
        let mut ranges: Vec<Vec<H>> = (0..2)
            .map(|i| {
                let k = if i == 1 && lone { 2 } else if lone { 1326 } else { k };
                {
                    let from = if rng.chance(0.5) { 0 } else { nb };
                    wide_range(rng, &deck[from..], k)
                }
            })
            .collect();
        for r in &mut ranges {
            random_weights(rng, r, true);
            for h in r.iter_mut().take(2) {
                h.2 = h.2.max(1);
            }
        }
        rng.shuffle(&mut ranges);
        let s = Spot { ranges, board: mask_of(&deck[..nb]), dead: if rng.chance(0.3) { bit(deck[51]) } else { 0 }, threads: 2 };
        if s.assignments(3_000_000).is_none_or(|k| k == 0) {
            return;
        }
        if rng.chance(0.6) {
            go(&s, &s.exact_ok(ctx), "exact");
        } else {
            go(&s, &s.approx_ok(ctx, 0.01), "approx");
        }
    });
    ctx.par("c13_monte_carlo", ctx.n(150, 3_000), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 40_000, players: (2, 5), ..g.clone() }.spot(rng);
        go(&s, &s.approx_ok(ctx, 0.02), "approx");
    });
    ctx.finish(150)
}

/// same integers, same shares up to rounding
pub fn same_results(a: &SimulationResults, b: &SimulationResults) -> Result<(), String> {
    if a.wins != b.wins {
        return Err(format!("wins {:?} and {:?}", a.wins, b.wins));
    }
    if a.wins_by_mask != b.wins_by_mask {
        return Err("winner-set counts differ".into());
    }
    let t: f64 = a.wins_by_mask.iter().map(|&x| x as f64).sum();
    let close = |x: f64, y: f64| (x - y).abs() <= 1e-9 * (t + 1.);
    if a.ties.iter().zip(&b.ties).any(|(x, y)| !close(*x, *y)) {
        return Err(format!("tie shares {:?} and {:?}", a.ties, b.ties));
    }
    if a.equities.iter().zip(&b.equities).any(|(x, y)| !((x - y).abs() <= 1e-9)) {
        return Err(format!("equities {:?} and {:?}", a.equities, b.equities));
    }
    for (what, x, y) in [
        ("hand", &a.hand_results, &b.hand_results),
        ("starting hand", &a.combo_results, &b.combo_results),
        ("category", &a.board_results, &b.board_results),
        ("draw", &a.board_draws, &b.board_draws),
    ] {
        if x.len() != y.len() {
            return Err(format!("{what} lists differ in length"));
        }
        for (i, (u, v)) in x.iter().zip(y).enumerate() {
            same_unit(u, v, t).map_err(|e| format!("{what} entry {i}: {e}: {u:?} and {v:?}"))?;
        }
    }
    Ok(())
}
pub fn same_unit(u: &pokers::UnitResults, v: &pokers::UnitResults, t: f64) -> Result<(), &'static str> {
    if (u.wins, u.ties, u.total) != (v.wins, v.ties, v.total) {
        return Err("counts");
    }
    if !((u.corrected_ties - v.corrected_ties).abs() <= 1e-9 * (t + 1.)) {
        return Err("tie shares");
    }
    for (x, y) in [(u.equity, v.equity), (u.winrate, v.winrate), (u.tierate, v.tierate)] {
        if !near(x, y, 1e-9) {
            return Err("rates");
        }
    }
    if (u.weight, u.rank, u.draw, u.valid) != (v.weight, v.rank, v.draw, v.valid) {
        return Err("labels");
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

/// interrupts random threads of this process at random points for a random time
pub struct Jitter {
    stop: std::sync::Arc<AtomicBool>,
    h: Option<std::thread::JoinHandle<u64>>,
}
static JIT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
extern "C" fn on_signal(_: libc::c_int) {
    let x = JIT.fetch_add(0x9e3779b97f4a7c15, SeqCst);
    let z = crate::rng::mix(x);
    unsafe {
        let ns = if z & 31 == 0 { 2_000_000 } else { (z >> 8) % 300_000 };
        let e = libc::__errno_location();
        let keep = *e;
        libc::nanosleep(&libc::timespec { tv_sec: 0, tv_nsec: ns as i64 }, std::ptr::null_mut());
        *e = keep;
    }
}
impl Jitter {
    pub fn start(seed: u64) -> Jitter {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        }
        let stop = std::sync::Arc::new(AtomicBool::new(false));
        let s2 = stop.clone();
        let h = std::thread::spawn(move || {
            let mut rng = Rng::new(seed, "jitter", 0);
            let me = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
            let pid = unsafe { libc::getpid() };
            let mut sent = 0;
            while !s2.load(SeqCst) {
                let mut t: Vec<i32> = std::fs::read_dir("/proc/self/task")
                    .map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect())
                    .unwrap_or_default();
                t.retain(|x| *x != me && *x != pid);
                rng.shuffle(&mut t);
                let k = rng.below(t.len().max(1)) + 1;
                for x in t.iter().take(k) {
                    unsafe { libc::syscall(libc::SYS_tgkill, pid, *x, libc::SIGUSR1) };
                    sent += 1;
                }
                std::thread::sleep(std::time::Duration::from_micros(rng.range(20, 600) as u64));
            }
            sent
        });
        Jitter { stop, h: Some(h) }
    }
    pub fn stop(mut self) -> u64 {
        self.stop.store(true, SeqCst);
        self.h.take().unwrap().join().unwrap_or(0)
    }
}

/// players all holding pairs of the same few cards: many positions, most of them conflicting, many batches
fn dense(rng: &mut Rng, n: usize, cards: usize, nb: usize, drop: usize) -> Spot {
    let deck = biased_deck(rng);
    let pool = &deck[nb..nb + cards];
    let ranges = (0..n)
        .map(|_| {
            let mut r = wide_range(rng, pool, 1000);
            for _ in 0..rng.below(drop + 1) {
                let i = rng.below(r.len());
                r.remove(i);
            }
            r
        })
        .collect();
    Spot { ranges, board: mask_of(&deck[..nb]), dead: 0, threads: 1 }
}

pub fn c14(ctx: &Ctx) {
    oracle_ok(ctx);
    ctx.rule("each input is run with one thread and then with 2..255 threads, repeatedly, with and without random delays injected into random threads by signals (also inside critical sections), alone and while other calculations run; all counts must be identical; small inputs are compared with the enumeration as well; non-trivial: a run with two or more threads");
    let thr = [2u8, 3, 4, 5, 7, 8, 12, 16, 24, 32, 64, 128, 255];
    let compare = |s: &Spot, base: &SimulationResults, rng: &mut Rng, runs: usize, kind: &str| {
        for i in 0..runs {
            let mut t = s.clone();
            t.threads = if i < thr.len() && runs >= thr.len() { thr[i] } else { *rng.pick(&thr) };
            if i + 1 == runs {
                t.threads = 0;
            }
            let r = t.exact_ok(ctx);
            if let Err(e) = same_results(base, &r) {
                ctx.violation(&format!("{kind}: with {} threads the result differs from that of one thread: {e}\nexact_equity on {}", t.threads, s.text()));
            }
            ctx.case(&format!("{} threads, {kind}: {}", t.threads, s.text()), t.threads > 1);
        }
    };
    let base = |s: &Spot, check: bool| {
        let mut s1 = s.clone();
        s1.threads = 1;
        let r = s1.exact_ok(ctx);
        if check {
            let t = enumerate(&s1);
            if let Err(e) = compare_totals(&r, &t) {
                ctx.violation(&format!("{e}\nexact_equity on {}", s1.text()));
            }
        }
        r
    };
    for jitter in [false, true] {
        let j = jitter.then(|| Jitter::start(ctx.seed));
        let kind = if jitter { "with delays" } else { "undisturbed" };
        let w = if jitter { 2 } else { 3 };
        ctx.par(&format!("c14_small_{jitter}"), ctx.n(40, 1500), w, 30, |_, rng| {
            let (s, _) = Gen { max_work: 60_000, ..Gen::default() }.spot(rng);
            let b = base(&s, true);
            compare(&s, &b, rng, 14, kind);
        });
        ctx.par(&format!("c14_batches_{jitter}"), ctx.n(4, 60), 2, 40, |c, rng| {
            let s = match c % 4 {
                0 => dense(rng, 4, 9, 4, 8),
                1 => dense(rng, 4, 9, 3, 20),
                2 => dense(rng, 5, 10, 5, 10),
                _ => {
                    let deck = biased_deck(rng);
                    let ranges = (0..2).map(|_| wide_range(rng, &deck[4..], 330)).collect();
                    Spot { ranges, board: mask_of(&deck[..4]), dead: 0, threads: 1 }
                }
            };
            let b = base(&s, false);
            compare(&s, &b, rng, if c % 4 == 0 { 13 } else { 6 }, kind);
            ctx.tag("runs_of_many_batches", if c % 4 == 0 { 13 } else { 6 });
        });
        // one position per batch: preflop
        ctx.par(&format!("c14_preflop_{jitter}"), ctx.n(3, 40), 2, 40, |_, rng| {
            let deck = biased_deck(rng);
            let ranges = (0..2).map(|i| wide_range(rng, &deck[8 * i..8 * i + 6], 4)).collect();
            let s = Spot { ranges, board: 0, dead: mask_of(&deck[40..]), threads: 1 };
            let b = base(&s, false);
            compare(&s, &b, rng, 8, kind);
        });
        if let Some(j) = j {
            ctx.tag("delays_injected", j.stop());
        }
    }
    ctx.finish(300)
}

// ---------------------------------------------------------------- C15

pub fn c15(ctx: &Ctx) {
    oracle_ok(ctx);
    ctx.rule("random inputs, also larger ones than can be enumerated by the harness; players and the hands of ranges are reordered and suits renamed in ranges, board and dead cards; all results must move along; non-trivial: the input really changes");
    let relabel = |s: &Spot, base: &SimulationResults, rng: &mut Rng| {
        let n = s.n();
        let t: f64 = base.wins_by_mask.iter().map(|&x| x as f64).sum();
        // players
        let mut ord: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut ord);
        let mut s2 = s.clone();
        s2.ranges = ord.iter().map(|&p| s.ranges[p].clone()).collect();
        s2.threads = *rng.pick(&[1, 2, 4]);
        let r = s2.exact_ok(ctx);
        let bad = |e: String| ctx.violation(&format!("players reordered as {ord:?}: {e}\nexact_equity on {}", s.text()));
        for (i, &p) in ord.iter().enumerate() {
            if r.wins[i] != base.wins[p] || !((r.ties[i] - base.ties[p]).abs() <= 1e-9 * (t + 1.)) || !((r.equities[i] - base.equities[p]).abs() <= 1e-9) {
                bad(format!("player {p} has wins {} ties {} equity {}, then {} {} {}", base.wins[p], base.ties[p], base.equities[p], r.wins[i], r.ties[i], r.equities[i]));
            }
            for (len, x, y) in [
                (1326, &r.hand_results, &base.hand_results),
                (169, &r.combo_results, &base.combo_results),
                (9, &r.board_results, &base.board_results),
                (10, &r.board_draws, &base.board_draws),
            ] {
                for k in 0..len {
                    if let Err(e) = same_unit(&x[i * len + k], &y[p * len + k], t) {
                        bad(format!("player {p}, entry {k} of {len}: {e}: {:?} and {:?}", y[p * len + k], x[i * len + k]));
                    }
                }
            }
        }
        for m in 0..1usize << n {
            let mut q = 0;
            for (i, &p) in ord.iter().enumerate() {
                if m >> p & 1 == 1 {
                    q |= 1 << i;
                }
            }
            if r.wins_by_mask[q] != base.wins_by_mask[m] {
                bad(format!("winner set {m:b} counts {}, then {}", base.wins_by_mask[m], r.wins_by_mask[q]));
            }
        }
        // hands in another order, some with their cards exchanged
        let mut s4 = s.clone();
        for r in &mut s4.ranges {
            rng.shuffle(r);
            for h in r.iter_mut() {
                if rng.chance(0.3) {
                    *h = (h.1, h.0, h.2);
                }
            }
        }
        let r = s4.exact_ok(ctx);
        let bad = |e: String| ctx.violation(&format!("hands listed in another order: {e}\nexact_equity on {}\nand {}", s.text(), s4.text()));
        if r.wins != base.wins || r.wins_by_mask != base.wins_by_mask {
            bad(format!("wins {:?}, then {:?}", base.wins, r.wins));
        }
        for p in 0..n {
            if !((r.ties[p] - base.ties[p]).abs() <= 1e-9 * (t + 1.)) || !((r.equities[p] - base.equities[p]).abs() <= 1e-9) {
                bad(format!("player {p} equity {} then {}", base.equities[p], r.equities[p]));
            }
        }
        for (k, (x, y)) in base.hand_results.iter().zip(&r.hand_results).enumerate() {
            if let Err(e) = same_unit(x, y, t) {
                bad(format!("player {} hand number {}: {e}: {x:?} and {y:?}", k / 1326, k % 1326));
            }
        }
        // suits
        let perm = perms()[1 + rng.below(23)];
        let mm = |m: u64| mask_of(&cards_of(m).iter().map(|&c| resuit(c, &perm)).collect::<Vec<_>>());
        let mv = |h: &H| {
            let (a, b) = (resuit(h.0, &perm), resuit(h.1, &perm));
            (a.max(b), a.min(b), h.2)
        };
        let mut s3 = s.clone();
        s3.board = mm(s.board);
        s3.dead = mm(s.dead);
        s3.ranges = s.ranges.iter().map(|r| r.iter().map(mv).collect()).collect();
        if rng.chance(0.5) {
            s3.ranges.iter_mut().for_each(|r| sort_hands(r));
        }
        let r = s3.exact_ok(ctx);
        let bad = |e: String| ctx.violation(&format!("suits shcd renamed to {perm:?}: {e}\nexact_equity on {}", s.text()));
        if r.wins != base.wins || r.wins_by_mask != base.wins_by_mask {
            bad(format!("wins {:?}, then {:?}", base.wins, r.wins));
        }
        for p in 0..n {
            if !((r.ties[p] - base.ties[p]).abs() <= 1e-9 * (t + 1.)) || !((r.equities[p] - base.equities[p]).abs() <= 1e-9) {
                bad(format!("player {p} equity {} then {}", base.equities[p], r.equities[p]));
            }
            for h in &s.ranges[p] {
                let g = mv(h);
                let (x, y) = (&base.hand_results[p * 1326 + num(h.0, h.1)], &r.hand_results[p * 1326 + num(g.0, g.1)]);
                if let Err(e) = same_unit(x, y, t) {
                    bad(format!("player {p}: {} and {}: {e}: {x:?} and {y:?}", hand_name(*h), hand_name(g)));
                }
            }
            for (len, x, y) in [(169, &r.combo_results, &base.combo_results), (9, &r.board_results, &base.board_results), (10, &r.board_draws, &base.board_draws)] {
                for k in 0..len {
                    if let Err(e) = same_unit(&x[p * len + k], &y[p * len + k], t) {
                        bad(format!("player {p}, entry {k} of {len}: {e}"));
                    }
                }
            }
        }
        ctx.case(&format!("players {ord:?} suits {perm:?}: {}", s.text()), true);
        let mut sorted = ord.clone();
        sorted.sort();
        ctx.tag("players_moved", (sorted != ord) as u64);
    };
    ctx.par("c15_spots", ctx.n(500, 12_000), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 100_000, ..Gen::default() }.spot(rng);
        let base = s.exact_ok(ctx);
        relabel(&s, &base, rng);
        relabel(&s, &base, rng);
    });
    ctx.par("c15_preflop", ctx.n(32, 500), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 12_000_000, players: (2, 4), boards: vec![0, 0, 1, 2, 3], short: 0.0, max_hands: 8, ..Gen::default() }.spot(rng);
        let base = s.exact_ok(ctx);
        relabel(&s, &base, rng);
    });
    ctx.par("c15_wide", ctx.n(16, 240), 8, 60, |c, rng| {
        let deck = biased_deck(rng);
        let (nb, n, k) = [(4, 2, 250), (5, 3, 130), (3, 2, 70), (5, 2, 900)][c as usize % 4];
        let mut ranges: Vec<Vec<H>> = (0..n).map(|_| wide_range(rng, &deck, k)).collect();
        for r in &mut ranges {
            random_weights(rng, r, true);
            r.iter_mut().for_each(|h| h.2 = h.2.max(1));
        }
        let s = Spot { ranges, board: mask_of(&deck[..nb]), dead: 0, threads: 2 };
        let base = s.exact_ok(ctx);
        relabel(&s, &base, rng);
    });
    ctx.finish(200)
}

// ---------------------------------------------------------------- C16

/// additive view of a result; empty for impossible inputs
struct Sum {
    mask: Vec<u128>,
    ties: Vec<f64>,
    hand: Vec<(u128, u128, u128, f64)>,
}
impl Sum {
    fn zero(n: usize) -> Sum {
        Sum { mask: vec![0; 1 << n], ties: vec![0.; n], hand: vec![(0, 0, 0, 0.); n * 1326] }
    }
    fn add(&mut self, r: &SimulationResults, sign: i32) -> Result<(), String> {
        let f = |a: &mut u128, b: u64| {
            *a = if sign > 0 { *a + b as u128 } else { a.checked_sub(b as u128).ok_or("a part counts more deals than the whole")? };
            Ok::<(), String>(())
        };
        for (a, b) in self.mask.iter_mut().zip(&r.wins_by_mask) {
            f(a, *b)?;
        }
        for (a, b) in self.ties.iter_mut().zip(&r.ties) {
            *a += sign as f64 * b;
        }
        for (a, b) in self.hand.iter_mut().zip(&r.hand_results) {
            f(&mut a.0, b.wins)?;
            f(&mut a.1, b.ties)?;
            f(&mut a.2, b.total)?;
            a.3 += sign as f64 * b.corrected_ties;
        }
        Ok(())
    }
    /// times k == other
    fn equal(&self, k: u128, o: &Sum) -> Result<(), String> {
        let t: f64 = o.mask.iter().map(|&x| x as f64).sum();
        for (m, (a, b)) in self.mask.iter().zip(&o.mask).enumerate() {
            if a * k != *b {
                return Err(format!("winner set {m:b}: {a} x {k} but the parts sum to {b}"));
            }
        }
        for (p, (a, b)) in self.ties.iter().zip(&o.ties).enumerate() {
            if !((a * k as f64 - b).abs() <= 1e-9 * (t + 1.)) {
                return Err(format!("player {p} tie share: {a} x {k} but the parts sum to {b}"));
            }
        }
        for (i, (a, b)) in self.hand.iter().zip(&o.hand).enumerate() {
            if a.0 * k != b.0 || a.1 * k != b.1 || a.2 * k != b.2 || !((a.3 * k as f64 - b.3).abs() <= 1e-9 * (t + 1.)) {
                return Err(format!("player {} hand {}: {a:?} x {k} but the parts sum to {b:?} (wins, ties, total, tie share)", i / 1326, i % 1326));
            }
        }
        Ok(())
    }
}

pub fn c16(ctx: &Ctx) {
    oracle_ok(ctx);
    ctx.rule("random unweighted inputs; (a) results for every possible next board card against the result for the board, (b) results for disjoint parts of one range against the whole, (c) the result with a dead card against whole minus the deals using it on the board or in a hand; winner sets, tie shares and all hand entries; non-trivial: at least two parts possible");
    let part = |s: &Spot, sum: &mut Sum, sign: i32| -> u64 {
        // an impossible part contributes nothing
        match s.exact(ctx) {
            Ok(r) => {
                if let Err(e) = sum.add(&r, sign) {
                    ctx.violation(&format!("{e}: {}", s.text()));
                }
                1
            }
            Err(e) => {
                if s.assignments(1 << 40).is_none_or(|k| k > 0) {
                    ctx.violation(&format!("exact_equity refused a possible input with {e:?}: {}", s.text()));
                }
                0
            }
        }
    };
    let all = |s: &Spot, rng: &mut Rng| {
        let n = s.n();
        let whole_r = s.exact_ok(ctx);
        let mut whole = Sum::zero(n);
        let _ = whole.add(&whole_r, 1);
        let deck: Vec<u8> = (0..52).filter(|&c| s.blocked() >> c & 1 == 0).collect();
        // (a)
        let nb = s.board.count_ones() as u128;
        if nb < 5 {
            let mut sum = Sum::zero(n);
            let mut k = 0;
            for &c in &deck {
                let mut t = s.clone();
                t.board |= bit(c);
                k += part(&t, &mut sum, 1);
            }
            if let Err(e) = whole.equal(5 - nb, &sum) {
                ctx.violation(&format!("over the next board card: {e}\nexact_equity on {}", s.text()));
            }
            ctx.case(&format!("board {}", s.text()), k >= 2);
            ctx.tag("next_cards", k);
        }
        // (b)
        let p = rng.below(n);
        let k = rng.range(2, 3);
        let mut parts = vec![vec![]; k];
        for h in &s.ranges[p] {
            parts[rng.below(k)].push(*h);
        }
        let mut sum = Sum::zero(n);
        let mut used = 0;
        for r in parts {
            let mut t = s.clone();
            t.ranges[p] = r;
            used += part(&t, &mut sum, 1);
        }
        if let Err(e) = whole.equal(1, &sum) {
            ctx.violation(&format!("over parts of player {p}'s range: {e}\nexact_equity on {}", s.text()));
        }
        ctx.case(&format!("split {p} {}", s.text()), used >= 2);
        // (c)
        let free: Vec<u8> = deck.clone();
        if (s.dead.count_ones() as usize) < 47 - 2 * n && !free.is_empty() {
            let c = if rng.chance(0.5) {
                let r = &s.ranges[rng.below(n)];
                let h = rng.pick(r);
                if s.blocked() & bit(h.0) == 0 { h.0 } else { *rng.pick(&free) }
            } else {
                *rng.pick(&free)
            };
            let mut rest = Sum::zero(n);
            let _ = rest.add(&whole_r, 1);
            let mut k = 0;
            if nb < 5 {
                let mut t = s.clone();
                t.board |= bit(c);
                k += part(&t, &mut rest, -1);
            }
            for p in 0..n {
                let mut t = s.clone();
                t.ranges[p].retain(|h| hm(h) & bit(c) != 0);
                k += part(&t, &mut rest, -1);
            }
            let mut t = s.clone();
            t.dead |= bit(c);
            let mut dead = Sum::zero(n);
            k += part(&t, &mut dead, 1);
            if let Err(e) = dead.equal(1, &rest) {
                ctx.violation(&format!("with {} dead: {e}\nexact_equity on {}", card_name(c), s.text()));
            }
            ctx.case(&format!("dead {} {}", card_name(c), s.text()), k >= 2);
        }
    };
    ctx.par("c16_spots", ctx.n(500, 12_000), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 60_000, weights: false, ..Gen::default() }.spot(rng);
        all(&s, rng);
    });
    ctx.par("c16_late", ctx.n(60, 1500), 8, 60, |c, rng| {
        let deck = biased_deck(rng);
        let (nb, n, k) = [(3, 2, 25), (4, 2, 110), (4, 3, 24), (3, 3, 9)][c as usize % 4];
        let ranges = (0..n).map(|_| wide_range(rng, &deck, k)).collect();
        let s = Spot { ranges, board: mask_of(&deck[..nb]), dead: 0, threads: 1 };
        if s.assignments(1 << 30).is_some_and(|k| k > 0) {
            all(&s, rng);
        }
    });
    ctx.par("c16_preflop", ctx.n(12, 200), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 5_000_000, players: (2, 4), boards: vec![0, 0, 1, 2], short: 0.2, max_hands: 5, weights: false, ..Gen::default() }.spot(rng);
        all(&s, rng);
    });
    ctx.finish(300)
}

// ---------------------------------------------------------------- C17

pub fn check_weights(ctx: &Ctx, s: &Spot, r: &SimulationResults, kind: &str) {
    for (p, range) in s.ranges.iter().enumerate() {
        for h in range {
            if hm(h) & s.blocked() == 0 {
                let u = &r.hand_results[p * 1326 + num(h.0, h.1)];
                if u.weight != h.2 as u32 {
                    ctx.violation(&format!("player {p}'s {} has weight {} in the range and {} in the result\n{kind} on {}", hand_name(*h), h.2, u.weight, s.text()));
                }
            }
        }
    }
}

pub fn c17(ctx: &Ctx) {
    oracle_ok(ctx);
    ctx.rule("random weighted inputs; one range's weights multiplied by a factor, hands of weight 0 left out, one hand's weight changed and compared with the weighted mean of the results without it and with it alone; reported weights compared with the range, exact and Monte Carlo; non-trivial: the changed range holds two or more weights or hands");
    let rates = |a: &SimulationResults, b: &SimulationResults, what: &str, s: &Spot, skip: &dyn Fn(usize) -> bool| {
        let (ta, tb): (f64, f64) = (a.wins_by_mask.iter().map(|&x| x as f64).sum(), b.wins_by_mask.iter().map(|&x| x as f64).sum());
        let bad = |e: String| ctx.violation(&format!("{what}: {e}\nexact_equity on {}", s.text()));
        for p in 0..a.equities.len() {
            if !((a.equities[p] - b.equities[p]).abs() <= 1e-9) {
                bad(format!("player {p} equity {} and {}", a.equities[p], b.equities[p]));
            }
        }
        for m in 0..a.wins_by_mask.len() {
            if !((a.wins_by_mask[m] as f64 / ta - b.wins_by_mask[m] as f64 / tb).abs() <= 1e-9) {
                bad(format!("share of pots of {m:b}: {} of {ta} and {} of {tb}", a.wins_by_mask[m], b.wins_by_mask[m]));
            }
        }
        for (i, (x, y)) in a.hand_results.iter().zip(&b.hand_results).enumerate() {
            if skip(i) {
                continue;
            }
            for (u, v) in [(x.equity, y.equity), (x.winrate, y.winrate), (x.tierate, y.tierate), (x.total as f64 / ta, y.total as f64 / tb)] {
                if !((u - v).abs() <= 1e-9) {
                    bad(format!("player {} hand {}: {x:?} and {y:?}", i / 1326, i % 1326));
                }
            }
        }
        for (i, (x, y)) in a.combo_results.iter().zip(&b.combo_results).enumerate() {
            for (u, v) in [(x.equity, y.equity), (x.winrate, y.winrate), (x.tierate, y.tierate), (x.total as f64 / ta, y.total as f64 / tb)] {
                if !((u - v).abs() <= 1e-9) {
                    bad(format!("player {} starting hand {}: {x:?} and {y:?}", i / 169, i % 169));
                }
            }
        }
    };
    ctx.par("c17_spots", ctx.n(700, 16_000), 8, 60, |c, rng| {
        let (mut s, _) = Gen { max_work: 40_000, ..Gen::default() }.spot(rng);
        let n = s.n();
        let p = rng.below(n);
        match c % 3 {
            0 => {
                // scale
                let k = rng.range(2, 10) as u8;
                for h in &mut s.ranges[p] {
                    h.2 = h.2.min(100 / k);
                }
                if s.assignments(1 << 30).is_none_or(|x| x == 0) {
                    return;
                }
                let a = s.exact_ok(ctx);
                let mut t = s.clone();
                t.ranges[p].iter_mut().for_each(|h| h.2 *= k);
                let b = t.exact_ok(ctx);
                check_weights(ctx, &s, &a, "exact_equity");
                check_weights(ctx, &t, &b, "exact_equity");
                rates(&a, &b, &format!("weights of player {p} times {k}"), &s, &|_| false);
                ctx.case(&format!("scale {p} {k} {}", s.text()), s.ranges[p].len() > 1);
            }
            1 => {
                // zero
                let mut t = s.clone();
                let mut out = 0;
                for q in 0..n {
                    for h in &mut t.ranges[q] {
                        if rng.chance(0.4) {
                            h.2 = 0;
                            out += 1;
                        }
                    }
                }
                let mut u = t.clone();
                u.ranges.iter_mut().for_each(|r| r.retain(|h| h.2 > 0));
                match (t.exact(ctx), u.exact(ctx)) {
                    (Ok(a), Ok(b)) => {
                        check_weights(ctx, &t, &a, "exact_equity");
                        check_weights(ctx, &u, &b, "exact_equity");
                        rates(&a, &b, "hands of weight 0 left out", &t, &|_| false);
                    }
                    (Err(_), Err(_)) => {}
                    (a, b) => ctx.violation(&format!("with hands of weight 0 {:?}, without them {:?}\nexact_equity on {}", a.map(|r| r.equities), b.map(|r| r.equities), t.text())),
                }
                ctx.case(&format!("zero {}", t.text()), out > 0);
            }
            _ => {
                // weight of one hand
                let live: Vec<usize> = (0..s.ranges[p].len()).filter(|&i| hm(&s.ranges[p][i]) & s.blocked() == 0).collect();
                if live.len() < 2 {
                    return;
                }
                let i = *rng.pick(&live);
                let w = rng.range(1, 99) as u8;
                let mut full = s.clone();
                full.ranges[p][i].2 = 100;
                let mut part = s.clone();
                part.ranges[p][i].2 = w;
                let mut only = full.clone();
                only.ranges[p] = vec![full.ranges[p][i]];
                let mut without = full.clone();
                without.ranges[p].remove(i);
                let (Ok(f), Ok(g)) = (full.exact(ctx), part.exact(ctx)) else { return };
                check_weights(ctx, &part, &g, "exact_equity");
                let (Ok(o), Ok(x)) = (only.exact(ctx), without.exact(ctx)) else { return };
                let tot = |r: &SimulationResults| r.wins_by_mask.iter().map(|&x| x as f64).sum::<f64>();
                let idx = p * 1326 + num(full.ranges[p][i].0, full.ranges[p][i].1);
                let fa = f.hand_results[idx].total as f64 / tot(&f);
                let fb = w as f64 * fa / (w as f64 * fa + 100. * (1. - fa));
                let bad = |e: String| ctx.violation(&format!("weight {w} for {} of player {p}: {e}\nexact_equity on {}", hand_name(full.ranges[p][i]), full.text()));
                let got = g.hand_results[idx].total as f64 / tot(&g);
                if !((got - fb).abs() <= 1e-9) {
                    bad(format!("its share of deals is {got}, expected {fb} ({fa} at weight 100)"));
                }
                for (res, q) in [(&f, fa), (&g, fb)] {
                    for m in 0..1 << n {
                        let want = q * o.wins_by_mask[m] as f64 / tot(&o) + (1. - q) * x.wins_by_mask[m] as f64 / tot(&x);
                        let got = res.wins_by_mask[m] as f64 / tot(res);
                        if !((got - want).abs() <= 1e-9) {
                            bad(format!("winner set {m:b} has share {got}, the weighted mean is {want}"));
                        }
                    }
                    for pl in 0..n {
                        let want = q * o.equities[pl] + (1. - q) * x.equities[pl];
                        if !((res.equities[pl] - want).abs() <= 1e-9) {
                            bad(format!("player {pl} has equity {}, the weighted mean is {want}", res.equities[pl]));
                        }
                    }
                }
                ctx.case(&format!("weight {w} hand {i} {}", full.text()), true);
            }
        }
    });
    // reported weights of Monte Carlo runs, and of uniform ranges of every weight
    ctx.par("c17_reported", ctx.n(101, 606), 8, 60, |c, rng| {
        let (mut s, _) = Gen { max_work: 40_000, players: (2, 4), ..Gen::default() }.spot(rng);
        let w = (c % 101) as u8;
        let p = rng.below(s.n());
        if w > 0 {
            s.ranges[p].iter_mut().for_each(|h| h.2 = w);
        }
        if s.assignments(1 << 30).is_none_or(|x| x == 0) {
            return;
        }
        check_weights(ctx, &s, &s.exact_ok(ctx), "exact_equity");
        check_weights(ctx, &s, &s.approx_ok(ctx, 0.03), "approx_equity");
        ctx.case(&format!("reported {}", s.text()), true);
    });
    ctx.finish(200)
}

// ---------------------------------------------------------------- C18

pub fn c18(ctx: &Ctx) {
    oracle_ok(ctx);
    ctx.rule("builds with overflow checks; 2 to 9 players: identical ranges must have equal equities (exact, and within noise in long Monte Carlo runs over all hands); rivers whose weighted counters exceed 64 bits in the aggregates are compared with the enumeration in 128 bits; huge enumerations are cancelled and checked for consistency; non-trivial: five or more players or counters above 2^60");
    ctx.par("c18_identical", ctx.n(200, 4_000), 8, 60, |c, rng| {
        let n = 2 + (c % 8) as usize;
        let deck = biased_deck(rng);
        let w = *rng.pick(&[100u8, 100, 50, 1, 99]);
        let nb = if n <= 3 { *rng.pick(&[0, 2, 3, 3, 4, 5]) } else if n <= 6 { *rng.pick(&[3, 4, 4, 5]) } else { 5 };
        // enough disjoint hands for everybody, then some that overlap with them
        let free = &deck[nb..];
        let mut r: Vec<H> = (0..n).map(|i| (free[2 * i].max(free[2 * i + 1]), free[2 * i].min(free[2 * i + 1]), w)).collect();
        let extra = [0, 0, 30, 12, 6, 3, 2, 1, 1, 0][n];
        let near = (2 * n + 2).min(free.len());
        for mut h in wide_range(rng, &free[..near], rng.clone().below(extra + 1)) {
            h.2 = w;
            if !r.iter().any(|x| (x.0, x.1) == (h.0, h.1)) {
                r.push(h);
            }
        }
        rng.shuffle(&mut r);
        // a short deck where boards are many
        let alive = if nb < 4 { nb + 2 * n + if nb == 0 { 5 } else { 8 } } else { 52 };
        let s = Spot { ranges: vec![r; n], board: mask_of(&deck[..nb]), dead: mask_of(&deck[alive.max(nb + near)..]), threads: *rng.pick(&[1, 2, 4]) };
        let res = s.exact_ok(ctx);
        for p in 0..n {
            if !((res.equities[p] - 1. / n as f64).abs() <= 1e-9) {
                ctx.violation(&format!("identical ranges but player {p} has equity {}\nexact_equity on {}", res.equities[p], s.text()));
            }
        }
        if let Err(e) = conserve(&res, n, nb as u32) {
            ctx.violation(&format!("{e}\nexact_equity on {}", s.text()));
        }
        ctx.case(&s.text(), n >= 5);
        ctx.tag(&format!("identical_{n}_players"), 1);
    });
    // counters beyond 64 bits
    ctx.par("c18_huge", ctx.n(32, 300), 8, 60, |c, rng| {
        for _ in 0..400 {
            let deck = biased_deck(rng);
            let nb = *rng.pick(&[5, 5, 4]);
            let mut free: Vec<u8> = (0..52).filter(|c| !deck[..nb].contains(c)).collect();
            rng.shuffle(&mut free);
            let n = 7 + (c % 3) as usize;
            // one player holds one starting hand only
            let r = free[0] >> 2;
            let mut own: Vec<u8> = free.iter().copied().filter(|c| c >> 2 == r).collect();
            own.sort();
            if own.len() < 3 {
                continue;
            }
            let pair = wide_range(rng, &own, 6);
            free.retain(|c| c >> 2 != r);
            let k = if n == 7 { 9 } else if n == 8 { 5 } else { 3 };
            let mut ranges: Vec<Vec<H>> = (0..n - 1).map(|_| wide_range(rng, &free, k)).collect();
            let at = rng.below(n);
            ranges.insert(at, pair);
            for r in &mut ranges {
                // near 100 without a common divisor
                r.iter_mut().for_each(|h| h.2 = *rng.pick(&[97u8, 99, 100]));
                r[0].2 = 100;
                let l = r.len();
                r[l - 1].2 = 99;
            }
            let s = Spot { ranges, board: mask_of(&deck[..nb]), dead: 0, threads: rng.range(1, 8) as u8 };
            let cap = 1_500_000 / s.n_boards() as u64;
            match s.assignments(cap) {
                Some(k) if k > 0 => {}
                _ => continue,
            }
            let t = enumerate(&s);
            let lim = u64::MAX as u128;
            // every figure of a single hand or winner set fits, and so does what is merged at a time
            let per = t.total / t.deals.max(1) as u128;
            if t.by_mask.iter().any(|&x| x > lim / 10 * 9) || t.hand.iter().any(|c| c.total > lim / 10 * 9) || per * 12_000 > lim {
                continue;
            }
            let players: u128 = (0..n).map(|p| (0..1usize << n).filter(|m| *m == 1 << p).map(|m| t.by_mask[m]).max().unwrap_or(0)).max().unwrap_or(0);
            if players > lim / 10 * 9 || t.total < lim {
                continue;
            }
            let r = s.exact_ok(ctx);
            if let Err(e) = compare_totals(&r, &t).and_then(|_| conserve(&r, n, nb as u32).map(|_| ())) {
                ctx.violation(&format!("{e}\nexact_equity on {}", s.text()));
            }
            ctx.tag("counters_beyond_64_bits", 1);
            ctx.case(&s.text(), true);
            return;
        }
    });
    // long Monte Carlo runs over every hand
    ctx.par("c18_monte_carlo", ctx.n(16, 96), 2, 80, |c, rng| {
        let n = 2 + (c % 8) as usize;
        let w = *rng.pick(&[100u8, 100, 100, 99, 50, 1]);
        let all: Vec<H> = (0..52u8).flat_map(|a| (0..a).map(move |b| (a, b, w))).collect();
        let nb = if c < 8 { 0 } else { *rng.pick(&[3, 4, 5]) };
        let deck = biased_deck(rng);
        let s = Spot { ranges: vec![all; n], board: mask_of(&deck[..nb]), dead: 0, threads: 4 };
        let tau = if ctx.thorough { 0.0005 } else { 0.0015 };
        let r = s.approx_ok(ctx, tau);
        if let Err(e) = conserve(&r, n, nb as u32) {
            ctx.violation(&format!("{e}\napprox_equity on {}", s.text()));
        }
        for p in 0..n {
            if (r.equities[p] - 1. / n as f64).abs() > 0.03 {
                ctx.violation(&format!("{n} players with all hands, but player {p} has equity {} after {} evaluations\napprox_equity on {}", r.equities[p], r.eval_count, s.text()));
            }
        }
        ctx.tag("monte_carlo_deals", r.eval_count);
        ctx.case(&s.text(), n >= 5);
    });
    // enumerations far too large to finish
    ctx.par("c18_astronomic", ctx.n(8, 48), 2, 60, |c, rng| {
        let n = 2 + (c % 8) as usize;
        let all: Vec<H> = (0..52u8).flat_map(|a| (0..a).map(move |b| (a, b, 100))).collect();
        let deck = biased_deck(rng);
        let nb = *rng.pick(&[0, 3, 5]);
        let nb = if n == 2 { 0 } else { nb };
        let s = Spot { ranges: vec![all; n], board: mask_of(&deck[..nb]), dead: 0, threads: 4 };
        let token = std::sync::Arc::new(AtomicBool::new(false));
        let lib = s.lib();
        let done = AtomicBool::new(false);
        let r = std::thread::scope(|sc| {
            // cancelled after a while, by another thread
            sc.spawn(|| {
                let t0 = std::time::Instant::now();
                while !done.load(SeqCst) && t0.elapsed().as_millis() < 700 {
                    std::thread::sleep(std::time::Duration::from_millis(10));
                }
                token.store(true, SeqCst);
            });
            let r = ctx.guard(&|| format!("cancelled exact_equity on {n} players holding any hand, {}", mask_name(s.board)), 2, || {
                pokers::exact_equity(&lib, s.board, s.dead, 4, token.clone(), |_| {})
            });
            done.store(true, SeqCst);
            r
        });
        match r {
            Err(e) => ctx.violation(&format!("panic: {e}\ncancelled exact_equity on {}", s.text())),
            Ok(Err(e)) => ctx.violation(&format!("refused with {e:?}: cancelled exact_equity on {}", s.text())),
            Ok(Ok(r)) => {
                if let Err(e) = conserve(&r, n, nb as u32) {
                    ctx.violation(&format!("{e}\ncancelled exact_equity on {}", s.text()));
                }
                ctx.case(&format!("cancelled {}", s.text()), n >= 5);
            }
        }
    });
    ctx.finish(40)
}
