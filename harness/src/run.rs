//! C19-C26, C31: errors, cancellation, progress, Monte Carlo, bookkeeping.
use crate::ctx::Ctx;
use crate::deal::*;
use crate::exact::{check_weights, wide_range, Jitter};
use crate::oracle::*;
use crate::rng::Rng;
use crate::spot::*;
use pokers::equity_calculator::CombinedRange;
use pokers::{approx_equity, exact_equity, SimulationResults, SimulatorError};
use std::cell::{Cell as StdCell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

fn mask_of(c: &[u8]) -> u64 {
    c.iter().fold(0, |m, &c| m | bit(c))
}
fn cpu_now() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

// ---------------------------------------------------------------- C19

#[derive(PartialEq, Clone, Copy, Debug)]
enum Kind {
    Few,
    Many,
    Board,
    Dead,
    Conflict,
}
fn kind(e: &SimulatorError) -> Kind {
    match e {
        SimulatorError::TooFewPlayers => Kind::Few,
        SimulatorError::TooManyPlayers => Kind::Many,
        SimulatorError::TooManyBoardCards => Kind::Board,
        SimulatorError::TooManyDeadCards => Kind::Dead,
        SimulatorError::ConflictingRanges => Kind::Conflict,
    }
}

const HOPELESS: &str = "approx_equity reports ConflictingRanges for possible inputs when hardly any of the random hole-card choices fit together (e.g. nine players with all pairs of 17 cards, one of them with 2s As as well: one in tens of millions)";

pub fn c19(ctx: &Ctx) {
    ctx.rule("random inputs of 0 to 12 players, 0 to 8 board cards and any number of dead cards, ranges that just fit or just conflict; the outcome of exact and Monte Carlo runs is compared with the number of compatible assignments counted by the harness; non-trivial: an input with at least one defect, or one possible assignment among many conflicting ones");
    // how the call must end
    let judge = |s: &Spot, faults: &[Kind], possible: Option<bool>, r: Result<SimulationResults, SimulatorError>, what: &str| {
        let bad = |m: String| ctx.violation(&format!("{what}: {m}\nin {}", s.text()));
        match r {
            Err(e) => {
                let k = kind(&e);
                ctx.tag(&format!("{e:?}"), 1);
                if faults.is_empty() && possible.is_none() && k == Kind::Conflict {
                    // hole cards are drawn at random until they fit
                    ctx.finding("approx-hopeless", HOPELESS);
                } else if faults.is_empty() && !(possible == Some(false) && k == Kind::Conflict) {
                    bad(format!("refused with {e:?} although it is possible"));
                }
                // several things may be wrong at once; any of them may be named
                if !faults.is_empty() && !faults.contains(&k) {
                    bad(format!("refused with {e:?}, but the fault is {faults:?}"));
                }
            }
            Ok(r) => {
                if !faults.is_empty() {
                    bad(format!("accepted, but the fault is {faults:?}"));
                }
                if possible == Some(false) {
                    bad(format!("accepted with equities {:?}, but no compatible hole cards exist", r.equities));
                }
                let sum: f64 = r.equities.iter().sum();
                if r.equities.len() != s.n() || r.equities.iter().any(|e| !e.is_finite() || *e < 0. || *e > 1. + 1e-9) || !((sum - 1.).abs() < 1e-9) {
                    bad(format!("equities {:?}", r.equities));
                }
                ctx.tag("accepted", 1);
            }
        }
    };
    let faults = |s: &Spot| -> Vec<Kind> {
        let mut f = vec![];
        if s.n() < 2 {
            f.push(Kind::Few);
        }
        if s.n() > 9 {
            f.push(Kind::Many);
        }
        if s.board.count_ones() > 5 {
            f.push(Kind::Board);
        }
        let need = 2 * s.n() as i64 + 5 - s.board.count_ones().min(5) as i64;
        if need > 52 - s.blocked().count_ones() as i64 {
            f.push(Kind::Dead);
        }
        f
    };
    // counts of players, board cards and dead cards, around every limit
    ctx.par("c19_limits", ctx.n(6000, 120_000), 8, 60, |_, rng| {
        let n = if rng.chance(0.5) { rng.below(13) } else { *rng.pick(&[0, 1, 2, 8, 9, 10, 11, 20]) };
        let nb = if rng.chance(0.5) { rng.below(9) } else { *rng.pick(&[4, 5, 6]) };
        let mut deck: Vec<u8> = (0..52).collect();
        rng.shuffle(&mut deck);
        let lim = 52 - (2 * n + 5).min(52);
        let nd = if rng.chance(0.6) { (lim + rng.below(4)).saturating_sub(1) } else { rng.below(53) }.min(52 - nb);
        let board = mask_of(&deck[..nb]);
        let mut dead = mask_of(&deck[nb..nb + nd]);
        if rng.chance(0.15) {
            dead |= board & rng.next();
        }
        let free: Vec<u8> = deck[(nb + nd).min(52)..].to_vec();
        // everybody can have any hand, or disjoint hands
        let style = rng.below(3);
        let ranges: Vec<Vec<H>> = (0..n)
            .map(|i| match style {
                0 => wide_range(rng, &deck, 1326),
                1 if free.len() >= 2 * i + 2 => vec![(free[2 * i].max(free[2 * i + 1]), free[2 * i].min(free[2 * i + 1]), rng.range(1, 100) as u8)],
                _ => wide_range(rng, &deck, 40),
            })
            .collect();
        let s = Spot { ranges, board, dead, threads: *rng.pick(&[0, 1, 2, 4, 255]) };
        let f = faults(&s);
        // an accepted exact run must be affordable
        let cheap = s.n() <= 9 && s.board.count_ones() <= 5 && s.n_boards().checked_mul(s.assignments(20_000).map_or(u128::MAX, |k| k as u128)).is_some_and(|w| w < 200_000);
        if f.is_empty() && !cheap {
            if style == 0 {
                let t = Spot { threads: s.threads.min(4), ..s.clone() };
                // share of fitting choices among all choices of one hand each
                let m = 52 - s.blocked().count_ones() as i64;
                let p: f64 = (0..n as i64).map(|i| ((m - 2 * i) * (m - 2 * i - 1)) as f64 / (m * (m - 1)) as f64).product();
                judge(&t, &[], if p >= 1e-4 { Some(true) } else { None }, t.approx(ctx, 0.02), "approx_equity");
                ctx.case(&s.text(), false);
            }
            return;
        }
        let fits = s.assignments(20_000);
        let possible = f.is_empty().then(|| fits.is_some_and(|k| k > 0));
        let all: f64 = s.live().iter().map(|r| r.len() as f64).product();
        judge(&s, &f, possible, s.exact(ctx), "exact_equity");
        if !f.is_empty() || s.threads < 100 {
            let p = if possible == Some(true) && (fits.unwrap_or(0) as f64) < all * 1e-4 { None } else { possible };
            judge(&s, &f, p, s.approx(ctx, 0.02), "approx_equity");
        }
        ctx.case(&s.text(), !f.is_empty());
    });
    // ranges that barely fit or barely conflict
    ctx.par("c19_conflicts", ctx.n(3000, 60_000), 8, 60, |_, rng| {
        let n = rng.range(2, 9);
        let nb = *rng.pick(&[0, 3, 4, 5, 5]);
        let deck = biased_deck(rng);
        let pool = 2 * n + rng.below(3);
        let free = &deck[nb..nb + pool];
        let mut ranges: Vec<Vec<H>> = (0..n)
            .map(|_| {
                let k = rng.range(1, if n < 6 { 8 } else { 5 });
                wide_range(rng, free, k)
            })
            .collect();
        if rng.chance(0.6) {
            // hide one fitting assignment
            let mut c = free.to_vec();
            rng.shuffle(&mut c);
            for (i, r) in ranges.iter_mut().enumerate() {
                let h = (c[2 * i].max(c[2 * i + 1]), c[2 * i].min(c[2 * i + 1]), 100);
                if !r.iter().any(|x| (x.0, x.1) == (h.0, h.1)) {
                    r.push(h);
                }
                sort_hands(r);
            }
        }
        match rng.below(12) {
            0 => ranges[0].clear(),
            1 => ranges[n - 1].iter_mut().for_each(|h| h.2 = 0),
            2 => ranges[0].iter_mut().for_each(|h| h.2 = rng.range(0, 1) as u8),
            _ => {}
        }
        let spare = 52 - nb - pool;
        let dead = mask_of(&deck[52 - rng.below((spare + nb).saturating_sub(8).max(1))..]);
        let s = Spot { ranges, board: mask_of(&deck[..nb]), dead, threads: *rng.pick(&[0, 1, 1, 2, 3, 8]) };
        let f = faults(&s);
        let k = s.assignments(1 << 30).unwrap_or(1);
        let w = s.n_boards() * k as u128;
        if w < 3_000_000 {
            judge(&s, &f, Some(k > 0), s.exact(ctx), "exact_equity");
        }
        // fraction of random choices of one hand each that fit together
        let all: f64 = s.live().iter().map(|r| r.len() as f64).product();
        let p = if k == 0 {
            Some(false)
        } else if k as f64 / all >= 1e-4 {
            Some(true)
        } else {
            None
        };
        judge(&s, &f, p, s.approx(ctx, 0.02), "approx_equity");
        ctx.tag("conflicting", (k == 0) as u64);
        ctx.tag("rarely_fitting", (k > 0 && (k as f64) < all * 0.01) as u64);
        ctx.case(&s.text(), k == 0 || (k as f64) < all * 0.1);
    });
    // long odds: few of many combinations fit
    ctx.par("c19_rare", ctx.n(12, 120), 8, 60, |_, rng| {
        let deck = biased_deck(rng);
        let n = rng.range(4, 5);
        // all players share the same few hands but one that fits
        let free = &deck[5..5 + 2 * n];
        let mut ranges: Vec<Vec<H>> = vec![];
        for i in 0..n {
            let own = (free[2 * i].max(free[2 * i + 1]), free[2 * i].min(free[2 * i + 1]), 100);
            // cards of the next player make the other hands conflict
            let j = (i + 1) % n;
            let mut r = vec![own];
            for &o in &deck[5 + 2 * n..5 + 2 * n + 7] {
                r.push((free[2 * j].max(o), free[2 * j].min(o), 100));
            }
            sort_hands(&mut r);
            ranges.push(r);
        }
        let s = Spot { ranges, board: mask_of(&deck[..5]), dead: 0, threads: rng.range(1, 4) as u8 };
        let k = s.assignments(1 << 30).unwrap_or(1);
        judge(&s, &[], Some(k > 0), s.exact(ctx), "exact_equity");
        judge(&s, &[], Some(true), s.approx(ctx, 0.02), "approx_equity");
        ctx.case(&s.text(), true);
    });
    // one chance in tens of millions: nine players with all pairs of 17 cards, and one hand with an eighteenth
    ctx.par("c19_hopeless", 1, 1, 60, |_, _| {
        let s = hopeless_spot(1);
        match s.approx(ctx, 0.02) {
            Ok(r) => judge(&s, &[], Some(true), Ok(r), "approx_equity"),
            Err(SimulatorError::ConflictingRanges) => ctx.finding("approx-hopeless", HOPELESS),
            Err(e) => ctx.violation(&format!("refused with {e:?}\napprox_equity on {}", s.text())),
        }
        ctx.case("hopeless", true);
    });
    ctx.finish(500)
}

/// nine players with all pairs of 17 cards, one of them with another hand too
fn hopeless_spot(threads: u8) -> Spot {
    let mut c: Vec<H> = vec![];
    for a in 0..17u8 {
        for b in 0..a {
            c.push((a, b, 100));
        }
    }
    sort_hands(&mut c);
    let mut last = c.clone();
    last.push((51, 0, 100));
    let mut ranges = vec![c; 8];
    ranges.push(last);
    Spot { ranges, board: mask_of(&[20, 25, 30, 35, 40]), dead: 0, threads }
}

/// a complete board on which the first player's share of every pot is the same, and that share
fn certain_spot(rng: &mut Rng, case: u64) -> (Spot, f64) {
    let suit = rng.below(4) as u8;
    let card = |rank: u8, s: u8| rank * 4 + (s + suit) % 4;
    let n = [2, 3, 2, 6, 5, 2, 4, 7][case as usize % 8];
    let sure = case % 8 == 0 || case % 8 == 5;
    // K Q J T of a suit and its ace, or the deuce of another
    let mut board: Vec<u8> = (8..12).map(|r| card(r, 0)).collect();
    board.push(if sure { card(0, 1) } else { card(12, 0) });
    let mut ranges = vec![];
    for p in 0..n as u8 {
        let mut r: Vec<H> = vec![];
        if p == 0 && sure {
            r = vec![(card(12, 0), card(0, 2), 100), (card(12, 0), card(1, 3), 100)];
        } else {
            for o in 0..2 {
                let (a, b) = (card(p + 1, o + 1), card(0, 3));
                r.push((a, if p == 0 { b } else { card(p + 1, 3) }, 100));
            }
        }
        r.iter_mut().for_each(|h| if h.0 < h.1 { *h = (h.1, h.0, h.2) });
        sort_hands(&mut r);
        ranges.push(r);
    }
    (Spot { ranges, board: mask_of(&board), dead: 0, threads: 8 }, if sure { 1. } else { 1. / n as f64 })
}

// ---------------------------------------------------------------- C20

/// a spot whose complete enumeration would take minutes or more
pub fn endless(rng: &mut Rng) -> Spot {
    let deck = biased_deck(rng);
    let threads = *rng.pick(&[1u8, 1, 2, 4, 8]);
    match rng.below(4) {
        0 => {
            let n = rng.range(2, 4);
            let ranges = (0..n).map(|_| wide_range(rng, &deck, 1326)).collect();
            Spot { ranges, board: 0, dead: 0, threads }
        }
        1 => {
            let n = rng.range(3, 5);
            let ranges = (0..n).map(|_| wide_range(rng, &deck, 700)).collect();
            Spot { ranges, board: mask_of(&deck[..3]), dead: 0, threads }
        }
        2 => {
            let n = rng.range(4, 6);
            let ranges = (0..n).map(|_| wide_range(rng, &deck, 800)).collect();
            Spot { ranges, board: mask_of(&deck[..5]), dead: 0, threads }
        }
        _ => {
            let n = rng.range(5, 9);
            let ranges = (0..n).map(|_| wide_range(rng, &deck, 300)).collect();
            Spot { ranges, board: mask_of(&deck[..4]), dead: 0, threads }
        }
    }
}
/// further evaluations allowed to each thread after cancellation
fn allowance(s: &Spot, exact: bool) -> u64 {
    if exact {
        100_000 + 2 * s.n_boards() as u64
    } else {
        100_000
    }
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("exact and Monte Carlo runs, many far too long to finish, cancelled before the start, at the k-th progress report, by another thread after a random delay, and while delays are injected; evaluations after cancellation and processor time until return are bounded; what is returned must be consistent and never exceed the complete counts; non-trivial: cancelled before completion");
    let check = |s: &Spot, r: &SimulationResults, what: &str| {
        if let Err(e) = conserve(r, s.n(), s.board.count_ones()) {
            ctx.violation(&format!("{e}\n{what} on {}", s.text()));
        }
    };
    let unwrap = |r: Result<Result<SimulationResults, SimulatorError>, String>, s: &Spot, what: &str| match r {
        Err(p) => ctx.violation(&format!("panic: {p}\n{what} on {}", s.text())),
        Ok(Err(e)) => ctx.violation(&format!("refused with {e:?}: {what} on {}", s.text())),
        Ok(Ok(r)) => r,
    };
    // before the start
    ctx.par("c20_before", ctx.n(60, 900), 4, 60, |c, rng| {
        let exact = c % 2 == 0;
        let s = endless(rng);
        let lib = s.lib();
        let token = Arc::new(AtomicBool::new(true));
        let calls = StdCell::new(0u64);
        let what = if exact { "exact_equity cancelled in advance" } else { "approx_equity cancelled in advance" };
        let r = ctx.guard(&|| format!("{what} on {}", s.text()), 1, || {
            if exact {
                exact_equity(&lib, s.board, s.dead, s.threads, token, |_| calls.set(calls.get() + 1))
            } else {
                approx_equity(&lib, s.board, s.dead, s.threads, 1e-9, token, |_| calls.set(calls.get() + 1))
            }
        });
        let r = unwrap(r, &s, what);
        check(&s, &r, what);
        let lim = allowance(&s, exact) * s.threads as u64;
        if r.eval_count > lim {
            ctx.violation(&format!("{} evaluations by {} threads although the token was set before the start\n{what} on {}", r.eval_count, s.threads, s.text()));
        }
        ctx.tag("evaluations_after_cancellation", r.eval_count);
        ctx.case(&format!("{what} {}", s.text()), true);
    });
    // conflicts almost everywhere: few evaluations, much searching
    ctx.par("c20_sparse", ctx.n(6, 60), 2, 60, |_, rng| {
        let deck = biased_deck(rng);
        let n = 9;
        let mut c: Vec<H> = wide_range(rng, &deck[5..5 + 18], 1326);
        sort_hands(&mut c);
        let s = Spot { ranges: vec![c; n], board: mask_of(&deck[..5]), dead: 0, threads: rng.range(1, 4) as u8 };
        let lib = s.lib();
        let token = Arc::new(AtomicBool::new(false));
        let t2 = token.clone();
        let wait = rng.range(0, 40) as u64;
        let what = "exact_equity with mostly conflicting hands, cancelled by another thread";
        let at = AtomicU64::new(0);
        let r = std::thread::scope(|sc| {
            sc.spawn(|| {
                std::thread::sleep(std::time::Duration::from_millis(wait));
                at.store((cpu_now() * 1e3) as u64, SeqCst);
                t2.store(true, SeqCst);
            });
            ctx.guard(&|| format!("{what} on {}", s.text()), 1, || exact_equity(&lib, s.board, s.dead, s.threads, token, |_| {}))
        });
        let r = unwrap(r, &s, what);
        check(&s, &r, what);
        ctx.case(&format!("{what} {}", s.text()), true);
    });
    // at the k-th report
    let timed = |s: &Spot, exact: bool, k: u64, jitter: bool| {
        let lib = s.lib();
        let what = if exact { "exact_equity" } else { "approx_equity" };
        let what = format!("{what} cancelled at progress report {k}{}", if jitter { " with delays" } else { "" });
        let token = Arc::new(AtomicBool::new(false));
        let t2 = token.clone();
        let calls = StdCell::new(0u64);
        let cpu = StdCell::new(0f64);
        let cb = |_| {
            calls.set(calls.get() + 1);
            if calls.get() == k {
                t2.store(true, SeqCst);
                cpu.set(cpu_now());
            }
        };
        let r = ctx.guard(&|| format!("{what} on {}", s.text()), 1, || {
            if exact {
                exact_equity(&lib, s.board, s.dead, s.threads, token, cb)
            } else {
                approx_equity(&lib, s.board, s.dead, s.threads, 1e-9, token, cb)
            }
        });
        let used = cpu_now() - cpu.get();
        let r = unwrap(r, s, &what);
        check(s, &r, &what);
        ctx.case(&format!("{what} {}", s.text()), calls.get() >= k);
        (r.eval_count, calls.get() >= k, used, what)
    };
    // one worker at a time, so that evaluations can be counted from the outside
    ctx.par("c20_reports", ctx.n(24, 300), 1, 60, |c, rng| {
        let exact = c % 2 == 0;
        let mut s = endless(rng);
        let mut tries = 0;
        // exact runs that report soon: evaluations must not be rare
        while exact && s.n() > 4 && tries < 20 {
            s = endless(rng);
            tries += 1;
        }
        s.threads = s.threads.min(4);
        let k = rng.range(1, 12) as u64;
        let lim = (k + 2) * allowance(&s, exact) * s.threads as u64;
        let mut least = u64::MAX;
        for _ in 0..30 {
            let (e, hit, _, what) = timed(&s, exact, k, false);
            if !hit {
                ctx.violation(&format!("ended before report {k}, with {e} evaluations\n{what} on {}", s.text()));
            }
            least = least.min(e);
            if e <= lim {
                break;
            }
        }
        if least > lim {
            ctx.violation(&format!("at least {least} evaluations in 30 runs, each cancelled at progress report {k}, {} threads, exact: {exact}\n{}", s.threads, s.text()));
        }
        ctx.tag("evaluations_until_cancelled_return", least);
    });
    // another thread, random moments, with and without injected delays; counts against the complete run
    for jitter in [false, true] {
        let j = jitter.then(|| Jitter::start(ctx.seed));
        ctx.par(&format!("c20_async_{jitter}"), ctx.n(40, 600), 3, 60, |c, rng| {
            let (mut s, _) = Gen { max_work: 3_000_000, boards: vec![0, 2, 3, 4, 5], max_hands: 60, weights: false, ..Gen::default() }.spot(rng);
            s.threads = *rng.pick(&[1, 2, 4, 8]);
            let exact = c % 3 != 0;
            let lib = s.lib();
            let full = s.exact_ok(ctx);
            for _ in 0..3 {
                let token = Arc::new(AtomicBool::new(false));
                let t2 = token.clone();
                let us = rng.below(if jitter { 6000 } else { 2000 }) as u64;
                let what = if exact { "exact_equity cancelled by another thread" } else { "approx_equity cancelled by another thread" };
                let r = std::thread::scope(|sc| {
                    sc.spawn(move || {
                        std::thread::sleep(std::time::Duration::from_micros(us));
                        t2.store(true, SeqCst);
                    });
                    ctx.guard(&|| format!("{what} on {}", s.text()), 1, || {
                        if exact {
                            exact_equity(&lib, s.board, s.dead, s.threads, token.clone(), |_| {})
                        } else {
                            approx_equity(&lib, s.board, s.dead, s.threads, 1e-9, token.clone(), |_| {})
                        }
                    })
                });
                let r = unwrap(r, &s, what);
                check(&s, &r, what);
                let t: u128 = full.wins_by_mask.iter().map(|&x| x as u128).sum();
                let u: u128 = r.wins_by_mask.iter().map(|&x| x as u128).sum();
                if exact {
                    let over = r.wins_by_mask.iter().zip(&full.wins_by_mask).any(|(a, b)| a > b)
                        || r.hand_results.iter().zip(&full.hand_results).any(|(a, b)| a.total > b.total || a.wins > b.wins || a.ties > b.ties);
                    if over {
                        ctx.violation(&format!("more deals of one kind than there are\n{what} on {}", s.text()));
                    }
                }
                check_weights(ctx, &s, &r, what);
                ctx.case(&format!("{what} {us} {}", s.text()), u != t || !exact);
                ctx.tag("cancelled_midway", (u != t) as u64);
            }
        });
        if let Some(j) = j {
            ctx.tag("delays_injected", j.stop());
        }
    }
    // the token belongs to the caller: used again, or by several calculations at once, nobody else cancels
    ctx.par("c20_shared", ctx.n(8, 80), 2, 60, |c, rng| {
        let spots: Vec<(Spot, f64)> = (0..rng.range(2, 4))
            .map(|_| loop {
                let (mut s, _) = Gen { max_work: 60_000, ..Gen::default() }.spot(rng);
                s.threads = *rng.pick(&[1, 2, 4]);
                let e = enumerate(&s).equity(0);
                // as many batches as the smallest number, or a few times that
                if (0.1..=0.9).contains(&e) {
                    let tau = (e * (1. - e)).sqrt() / (4096f64 * *rng.pick(&[20., 60., 150.])).sqrt();
                    break (s, tau);
                }
            })
            .collect();
        let token = Arc::new(AtomicBool::new(false));
        let together = c % 2 == 0;
        let what = format!("{} calculations {} with one token that is never set, exact ones and Monte Carlo", spots.len(), if together { "at once" } else { "in turn" });
        let list = || spots.iter().map(|(s, t)| format!("target {t}: {}", s.text())).collect::<Vec<_>>().join("\n");
        let one = |s: &Spot, tau: f64| -> (SimulationResults, SimulationResults) {
            let lib = s.lib();
            let a = unwrap(ctx.guard(&|| format!("approx_equity on {}", s.text()), 1, || approx_equity(&lib, s.board, s.dead, s.threads, tau, token.clone(), |_| {})), s, "approx_equity");
            let e = unwrap(ctx.guard(&|| format!("exact_equity on {}", s.text()), 1, || exact_equity(&lib, s.board, s.dead, s.threads, token.clone(), |_| {})), s, "exact_equity");
            (a, e)
        };
        let results: Vec<_> = if together {
            std::thread::scope(|sc| {
                let h: Vec<_> = spots.iter().map(|(s, t)| sc.spawn(|| one(s, *t))).collect();
                h.into_iter().map(|h| h.join().expect("harness thread")).collect()
            })
        } else {
            spots.iter().map(|(s, t)| one(s, *t)).collect()
        };
        if token.load(SeqCst) {
            ctx.violation(&format!("the cancel token was set by the calculation itself\n{what}:\n{}", list()));
        }
        for ((s, tau), (a, e)) in spots.iter().zip(&results) {
            if e.wins_by_mask != s.exact_ok(ctx).wins_by_mask {
                ctx.violation(&format!("incomplete exact result\n{what}:\n{}\namong\n{}", s.text(), list()));
            }
            if !(a.stdev <= 1.6 * tau) {
                ctx.violation(&format!("stopped at a deviation of {} after {} evaluations, target {tau}\n{what}:\n{}\namong\n{}", a.stdev, a.eval_count, s.text(), list()));
            }
        }
        ctx.tag("calculations_sharing_a_token", 2 * spots.len() as u64);
        ctx.case(&format!("{what}: {}", list()), true);
    });
    ctx.finish(80)
}

// ---------------------------------------------------------------- C21

pub fn c21(ctx: &Ctx) {
    ctx.rule("progress reports of random exact and Monte Carlo runs, 1 to 32 threads, cancelled or not, with slow callbacks and injected delays: thread, value, order, last value, none after the call returned; non-trivial: two or more reports");
    let go = |s: &Spot, exact: bool, tau: f64, cancel: Option<u64>, slow: u64, rng: &mut Rng, kind: &str| {
        let lib = s.lib();
        let token = Arc::new(AtomicBool::new(cancel == Some(0)));
        let t2 = token.clone();
        let me = std::thread::current().id();
        let seen = RefCell::new(Vec::<u8>::new());
        let alive = Arc::new(AtomicBool::new(true));
        let a2 = alive.clone();
        let what = format!("{}{kind} (cancelled at {cancel:?})", if exact { "exact_equity" } else { "approx_equity" });
        let naps = std::cell::RefCell::new(rng.clone());
        let err = RefCell::new(String::new());
        let cb = |x: u8| {
            if std::thread::current().id() != me {
                *err.borrow_mut() = "called on another thread".into();
            }
            if !a2.load(SeqCst) {
                *err.borrow_mut() = "called after the return".into();
            }
            seen.borrow_mut().push(x);
            let k = seen.borrow().len() as u64;
            if cancel == Some(k) {
                t2.store(true, SeqCst);
            }
            if slow > 0 && k < 60 && naps.borrow_mut().chance(0.3) {
                std::thread::sleep(std::time::Duration::from_micros(slow));
            }
        };
        let r = ctx.ok(&|| format!("{what} on {}", s.text()), || {
            if exact {
                exact_equity(&lib, s.board, s.dead, s.threads, token, cb)
            } else {
                approx_equity(&lib, s.board, s.dead, s.threads, tau, token, cb)
            }
        });
        alive.store(false, SeqCst);
        let bad = |m: String| {
            let v = seen.borrow();
            let tail = &v[v.len().saturating_sub(40)..];
            ctx.violation(&format!("{m}; last reports {tail:?}\n{what} on {}", s.text()))
        };
        if let Err(e) = r {
            bad(format!("refused with {e:?}"));
        }
        if !err.borrow().is_empty() {
            bad(err.borrow().clone());
        }
        let v = seen.borrow().clone();
        if v.is_empty() {
            bad("no progress report".into());
        }
        if let Some(x) = v.iter().find(|x| **x > 100) {
            bad(format!("reports {x}"));
        }
        if exact {
            if let Some(i) = (1..v.len()).find(|&i| v[i] < v[i - 1]) {
                bad(format!("report {} is {} after {}", i, v[i], v[i - 1]));
            }
            if cancel.is_none() && v.last() != Some(&100) {
                bad("the last report is not 100".into());
            }
        }
        ctx.tag("reports", v.len() as u64);
        ctx.case(&format!("{what} {} reports {}", v.len(), s.text()), v.len() >= 2);
    };
    for jitter in [false, true] {
        let j = jitter.then(|| Jitter::start(ctx.seed));
        let tag = if jitter { " with delays" } else { "" };
        ctx.par(&format!("c21_spots_{jitter}"), if jitter { ctx.n(120, 2000) } else { ctx.n(400, 6000) }, 4, 50, |_, rng| {
            let (mut s, _) = Gen { max_work: 150_000, ..Gen::default() }.spot(rng);
            s.threads = *rng.pick(&[0, 1, 2, 3, 4, 8, 16, 32]);
            let cancel = if rng.chance(0.4) { Some(rng.below(5) as u64) } else { None };
            let slow = if rng.chance(0.3) { 400 } else { 0 };
            go(&s, true, 0., cancel, slow, rng, tag);
            let tau = *rng.pick(&[if jitter { 3e-3 } else { 1e-3 }, 3e-3, 0.01, 0.05, 0.3, 2.0]);
            // outcomes without variance reach any target at once
            go(&s, false, tau, cancel, slow, rng, tag);
        });
        // many merges by many threads
        ctx.par(&format!("c21_long_{jitter}"), ctx.n(12, 150), 2, 50, |c, rng| {
            let deck = biased_deck(rng);
            let (nb, n, k) = [(3, 2, 120), (4, 2, 400), (5, 3, 170), (0, 2, 3)][c as usize % 4];
            let ranges = (0..n).map(|_| wide_range(rng, &deck[nb..], k)).collect();
            let s = Spot { ranges, board: mask_of(&deck[..nb]), dead: 0, threads: *rng.pick(&[1, 2, 4, 8, 16]) };
            if s.assignments(1 << 40).is_none_or(|x| x == 0) {
                return;
            }
            let cancel = if rng.chance(0.2) { Some(rng.range(1, 30) as u64) } else { None };
            go(&s, true, 0., cancel, if rng.chance(0.3) { 300 } else { 0 }, rng, tag);
            go(&s, false, 4e-4, cancel, 0, rng, tag);
        });
        if let Some(j) = j {
            ctx.tag("delays_injected", j.stop());
        }
    }
    ctx.finish(150)
}

// ---------------------------------------------------------------- C22

/// one observed quantity over several runs: numerator and denominator of each
struct Ratio {
    name: String,
    truth: f64,
    runs: Vec<(f64, f64)>,
}
impl Ratio {
    /// deviation from the truth in standard errors
    fn z(&self) -> f64 {
        let k = self.runs.len() as f64;
        let (x, t) = self.runs.iter().fold((0., 0.), |a, r| (a.0 + r.0, a.1 + r.1));
        if t == 0. {
            return 0.;
        }
        let r = x / t;
        // spread of the runs around their own mean: around the truth a common error would hide itself
        let v: f64 = self.runs.iter().map(|(a, b)| (a - r * b).powi(2)).sum::<f64>() * k / (k - 1.);
        let se = v.sqrt() / t;
        // never below what independent deals would give
        let p = self.truth.clamp(0., 1.);
        let floor = (p * (1. - p)).max(1e-6).sqrt() * (1. / (t.max(1.))).sqrt();
        (r - self.truth) / se.max(floor).max(1e-12)
    }
    fn mean(&self) -> f64 {
        let (x, t) = self.runs.iter().fold((0., 0.), |a, r| (a.0 + r.0, a.1 + r.1));
        x / t
    }
}

fn ratios(s: &Spot, t: &Totals, runs: &[SimulationResults], wsum: f64) -> Vec<Ratio> {
    let n = s.n();
    let total = t.total as f64;
    // hands too rare to be judged: those of wide ranges are all rare, but the walk visits them evenly
    let least = if t.hand.iter().filter(|c| c.total > 0).count() > 100 { 0.0008 } else { 0.005 };
    let mut out = vec![];
    let tl = |r: &SimulationResults| r.wins_by_mask.iter().map(|&x| x as f64).sum::<f64>() / wsum;
    for p in 0..n {
        out.push(Ratio {
            name: format!("equity of player {p}"),
            truth: t.equity(p),
            runs: runs.iter().map(|r| (r.equities[p] * tl(r), tl(r))).collect(),
        });
    }
    for m in 0..1 << n {
        let p = t.by_mask[m] as f64 / total;
        if p > 0.002 {
            out.push(Ratio {
                name: format!("share of pots of winner set {m:b}"),
                truth: p,
                runs: runs.iter().map(|r| (r.wins_by_mask[m] as f64 / wsum, tl(r))).collect(),
            });
        }
    }
    for p in 0..n {
        for i in 0..1326 {
            let c = &t.hand[p * 1326 + i];
            let f = c.total as f64 / total;
            if f < least {
                continue;
            }
            let h = |r: &SimulationResults| r.hand_results[p * 1326 + i].total as f64 / wsum;
            if f < 1. {
                out.push(Ratio { name: format!("frequency of player {p}'s hand number {i}"), truth: f, runs: runs.iter().map(|r| (h(r), tl(r))).collect() });
            }
            let eq = (c.win as f64 + c.share as f64 / LCM as f64) / total;
            out.push(Ratio {
                name: format!("pot share won by player {p}'s hand number {i}"),
                truth: eq,
                runs: runs
                    .iter()
                    .map(|r| {
                        let u = &r.hand_results[p * 1326 + i];
                        ((u.wins as f64 + u.corrected_ties) / wsum, tl(r))
                    })
                    .collect(),
            });
        }
    }
    out
}

/// ranges too large to be joined into one group
fn large_spot(rng: &mut Rng, weights: bool) -> Spot {
    let deck = biased_deck(rng);
    let n = rng.range(2, 4);
    let nb = *rng.pick(if n == 2 { &[3, 4, 4, 5][..] } else { &[4, 5, 5][..] });
    let pool = if rng.chance(0.5) { 52 - nb } else { rng.range(16, 40) };
    let (lo, hi) = [(110, 500), (25, 110), (15, 40)][n - 2];
    let mut ranges: Vec<Vec<H>> = (0..n).map(|_| {
        let k = rng.range(lo, hi);
        wide_range(rng, &deck[nb..nb + pool], k)
    }).collect();
    if weights && rng.chance(0.4) {
        for r in &mut ranges {
            random_weights(rng, r, true);
            r.iter_mut().for_each(|h| h.2 = h.2.max(10));
        }
    }
    let mut dead = 0u64;
    for _ in 0..rng.below(6) {
        dead |= bit(*rng.pick(&deck[nb..]));
    }
    let mut s = Spot { ranges, board: mask_of(&deck[..nb]), dead, threads: 4 };
    s.tame(2e9);
    s
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("random inputs small enough to enumerate (dead cards, shared cards, weights, 2-9 players, boards of 0-5 cards); several independent Monte Carlo runs each; equities, pot shares of every winner set, frequency and pot share of every hand against the enumeration at 7 standard errors estimated between runs, a deviation must repeat on the same side in two larger fresh samples; non-trivial: more than one deal");
    ctx.assume("a deviation of more than 7 standard errors in three independent samples is not chance");
    let spot = |s: &Spot, t: &Totals, tau: f64, k: usize| {
        let groups = CombinedRange::from_ranges(&s.lib()).len();
        ctx.tag(&format!("inputs_with_{groups}_groups_of_joined_ranges"), 1);
        // typical weight of a deal, to count deals
        let run = |k: usize, f: f64| -> Vec<SimulationResults> { (0..k).map(|_| s.approx_ok(ctx, tau * f)).collect() };
        let runs = run(k, 1.);
        let wsum = |runs: &[SimulationResults]| {
            let tl: f64 = runs.iter().flat_map(|r| &r.wins_by_mask).map(|&x| x as f64).sum();
            let ev: f64 = runs.iter().map(|r| r.eval_count as f64).sum();
            (tl / ev).max(1e-9)
        };
        let rs = ratios(s, t, &runs, wsum(&runs));
        ctx.tag("quantities", rs.len() as u64);
        ctx.tag("deals_sampled", runs.iter().map(|r| r.eval_count).sum());
        ctx.tag("quantities_beyond_4_standard_errors", rs.iter().filter(|r| r.z().abs() > 4.).count() as u64);
        // a deviation must show again, on the same side, in two larger fresh samples
        let mut off: Vec<(String, f64)> = rs.iter().filter(|r| r.z().abs() > 7.).map(|r| (r.name.clone(), r.z())).collect();
        for stage in 1..=2 {
            if off.is_empty() {
                break;
            }
            ctx.tag(["", "second_samples", "third_samples"][stage], 1);
            let runs = run([0, 4, 12][stage] * k, 1.);
            let mut again = vec![];
            for r in ratios(s, t, &runs, wsum(&runs)) {
                let Some((_, z)) = off.iter().find(|x| x.0 == r.name) else { continue };
                if r.z().abs() > 7. && r.z().signum() == z.signum() {
                    if stage == 2 {
                        ctx.violation(&format!("{} is {}, enumeration says {} ({:.1} standard errors, {} runs, {} deals)\napprox_equity on {}", r.name, r.mean(), r.truth, r.z(), runs.len(), runs.iter().map(|r| r.eval_count).sum::<u64>(), s.text()));
                    }
                    again.push((r.name.clone(), r.z()));
                }
            }
            off = again;
        }
        ctx.case(&s.text(), t.deals > 1);
    };
    ctx.par("c22_spots", ctx.n(160, 2500), 8, 90, |_, rng| {
        let (s, _) = Gen { max_work: 40_000, ..Gen::default() }.spot(rng);
        spot(&s, &enumerate(&s), 0.05, 20);
    });
    ctx.par("c22_wide", ctx.n(60, 900), 8, 90, |_, rng| {
        let (s, _) = Gen { max_work: 400_000, max_hands: 80, players: (2, 5), ..Gen::default() }.spot(rng);
        spot(&s, &enumerate(&s), 0.05, 20);
    });
    // most combinations conflict: the walk between compatible ones matters
    ctx.par("c22_conflicts", ctx.n(60, 900), 8, 90, |_, rng| {
        let deck = biased_deck(rng);
        let n = rng.range(2, 5);
        let nb = *rng.pick(&[3, 4, 5]);
        let pool = 2 * n + rng.below(3);
        let k = [0, 0, 12, 8, 6, 5][n];
        let mut ranges: Vec<Vec<H>> = (0..n).map(|_| wide_range(rng, &deck[nb..nb + pool], k)).collect();
        if rng.chance(0.5) {
            for r in &mut ranges {
                random_weights(rng, r, true);
                r.iter_mut().for_each(|h| h.2 = h.2.max(5));
            }
        }
        let mut s = Spot { ranges, board: mask_of(&deck[..nb]), dead: 0, threads: rng.range(1, 4) as u8 };
        s.tame(2e7);
        if s.assignments(20_000).is_none_or(|x| x == 0) {
            return;
        }
        spot(&s, &enumerate(&s), 0.05, 20);
    });
    // long runs: small errors show
    ctx.par("c22_long", ctx.n(8, 120), 4, 120, |_, rng| {
        let (mut s, _) = Gen { max_work: 300_000, players: (2, 3), ..Gen::default() }.spot(rng);
        s.threads = 2;
        let t = enumerate(&s);
        let tau = 4e-4;
        // a walk that mixes slowly would take very long
        if t.equity(0) > 0.02 && t.equity(0) < 0.98 && s.approx_ok(ctx, 10. * tau).eval_count < 2_000_000 {
            spot(&s, &t, tau, 12);
        }
    });
    // ranges too large to be joined: the walk goes from group to group. Too many deals for the harness to
    // enumerate; the reference is the exact calculation, which C11 and C12 compare with enumeration
    ctx.par("c22_large", ctx.n(40, 600), 8, 90, |_, rng| {
        let mut s = large_spot(rng, true);
        let n = s.n();
        let Ok(r) = s.exact(ctx) else { return };
        let t = Totals::of(&r, n);
        s.threads = rng.range(1, 4) as u8;
        spot(&s, &t, 0.01, 20);
    });
    // one long run by itself: what differs from run to run (the order of the walk is drawn anew each time)
    // averages out over runs. A batch of 4096 deals tells at least as much as one independent deal.
    ctx.par("c22_single_runs", ctx.n(40, 600), 4, 120, |_, rng| {
        let (mut s, _) = Gen { max_work: 300_000, max_hands: *rng.pick(&[3, 6, 12]), players: (2, 4), weights: false, ..Gen::default() }.spot(rng);
        s.threads = rng.range(1, 4) as u8;
        let t = enumerate(&s);
        if t.equity(0) < 0.05 || t.equity(0) > 0.95 || t.deals < 3 {
            return;
        }
        if s.approx_ok(ctx, 4e-3).eval_count > 2_000_000 {
            return;
        }
        for _ in 0..3 {
            let r = s.approx_ok(ctx, 4e-4);
            let nb = r.eval_count as f64 / 4096. - s.threads as f64;
            if nb < 100. {
                break;
            }
            ctx.tag("long_runs", 1);
            ctx.tag("deals_sampled", r.eval_count);
            for q in ratios(&s, &t, std::slice::from_ref(&r), 1.) {
                let (p, x) = (q.truth, q.mean());
                let se = (p * (1. - p) / nb).sqrt().max(0.02 / nb);
                ctx.tag("quantities_of_single_runs", 1);
                if (x - p).abs() > 7. * se && !(p * nb < 10. && x > p) {
                    ctx.violation(&format!("{} is {x} in a single run of {} deals, enumeration says {p}; even if the deals of a batch were all alike the standard error would be {se}\napprox_equity on {}", q.name, r.eval_count, s.text()));
                }
            }
        }
        ctx.case(&s.text(), t.deals > 1);
    });
    ctx.finish(120)
}

// ---------------------------------------------------------------- C23

pub fn c23(ctx: &Ctx) {
    ctx.rule("random inputs with very short decks and shared cards; whatever the enumeration shows to be impossible (a hand, a winner set, a win, loss or tie of a hand) must not occur in Monte Carlo runs, and what is certain must always occur; non-trivial: inputs with an impossible winner set or hand that would be possible if cards could repeat");
    let go = |s: &Spot, r: &SimulationResults, t: &Totals| {
        let n = s.n();
        let bad = |m: String| ctx.violation(&format!("{m}\napprox_equity on {}", s.text()));
        for m in 0..1 << n {
            if t.by_mask[m] == 0 && r.wins_by_mask[m] != 0 {
                bad(format!("{} deals were won by the set {m:b}, which is impossible", r.wins_by_mask[m]));
            }
        }
        let mut never = 0;
        for p in 0..n {
            for i in 0..1326 {
                let (c, u) = (&t.hand[p * 1326 + i], &r.hand_results[p * 1326 + i]);
                if u.total == 0 && u.wins == 0 && u.ties == 0 {
                    never += (c.total == 0) as u64;
                    continue;
                }
                let b = |m: &str| bad(format!("player {p} hand number {i}: {m}: {u:?}"));
                if c.total == 0 {
                    b("was dealt, which is impossible");
                }
                if c.win == 0 && u.wins > 0 {
                    b("won, which is impossible");
                }
                if c.tie == 0 && u.ties > 0 {
                    b("tied, which is impossible");
                }
                if c.win + c.tie == c.total && u.wins + u.ties != u.total {
                    b("lost, which is impossible");
                }
                if c.win == c.total && (u.wins != u.total || u.equity != 1.) {
                    b("did not always win");
                }
            }
            let won = t.by_mask[1 << p];
            if won == t.total && r.equities[p] != 1. {
                bad(format!("player {p} always wins but has equity {}", r.equities[p]));
            }
            if t.equity(p) == 0. && r.equities[p] != 0. {
                bad(format!("player {p} never wins but has equity {}", r.equities[p]));
            }
        }
        ctx.tag("impossible_hands_never_dealt", never);
    };
    // as few unseen cards as possible
    ctx.par("c23_short", ctx.n(1200, 25_000), 8, 60, |_, rng| {
        let deck = biased_deck(rng);
        let n = rng.range(2, 9);
        let nb = rng.below(6);
        let spare = rng.below(3);
        let alive = 2 * n + 5 + spare;
        let live = &deck[..alive];
        let mut free = live[nb..].to_vec();
        rng.shuffle(&mut free);
        let dead = if rng.chance(0.9) { mask_of(&deck[alive..]) } else { mask_of(&deck[alive..]) | bit(deck[0]) & mask_of(&deck[..nb]) };
        let mut ranges: Vec<Vec<H>> = vec![];
        for i in 0..n {
            let mut r = vec![(free[2 * i].max(free[2 * i + 1]), free[2 * i].min(free[2 * i + 1]), 100)];
            for _ in 0..rng.below(3) {
                // hands using other players', dead or board cards
                let (a, b) = (*rng.pick(&deck), *rng.pick(&free));
                let h = (a.max(b), a.min(b), *rng.pick(&[100u8, 50, 1, 0]));
                if a != b && !r.iter().any(|x| (x.0, x.1) == (h.0, h.1)) {
                    r.push(h);
                }
            }
            sort_hands(&mut r);
            ranges.push(r);
        }
        let s = Spot { ranges, board: mask_of(&deck[..nb]), dead, threads: rng.range(1, 3) as u8 };
        let k = s.assignments(3000);
        let Some(k) = k else { return };
        if s.n_boards() * k as u128 > 200_000 {
            return;
        }
        let t = enumerate(&s);
        let r = s.approx_ok(ctx, 0.05);
        go(&s, &r, &t);
        let sets = (0..1usize << n).filter(|&m| m > 0 && t.by_mask[m] == 0).count();
        ctx.case(&s.text(), sets > 0);
        ctx.tag("deals_observed", r.eval_count);
    });
    ctx.par("c23_spots", ctx.n(400, 8_000), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 60_000, short: 0.9, ..Gen::default() }.spot(rng);
        let t = enumerate(&s);
        let r = s.approx_ok(ctx, 0.03);
        go(&s, &r, &t);
        ctx.case(&s.text(), t.by_mask.iter().filter(|&&x| x == 0).count() > 1);
        ctx.tag("deals_observed", r.eval_count);
    });
    // as many live cards of a rank as players who each must hold one: nobody can hold two of them, and no
    // board card can be one. The ranges are too wide to be joined, so groups have to respect each other
    ctx.par("c23_hot", ctx.n(60, 1200), 8, 90, |_, rng| {
        let n = rng.range(2, 4);
        // hot cards: any set of n cards
        let deck = if rng.chance(0.5) {
            let r = rng.below(13) as u8;
            let mut d: Vec<u8> = (0..4).map(|x| 4 * r + x).collect();
            rng.shuffle(&mut d);
            let mut rest: Vec<u8> = (0..52).filter(|c| c >> 2 != r).collect();
            rng.shuffle(&mut rest);
            d.extend(rest);
            d
        } else {
            biased_deck(rng)
        };
        let hot = mask_of(&deck[..n]);
        let same_rank = deck[0] >> 2 == deck[n - 1] >> 2;
        // the others of the rank are dead
        let gone = if same_rank { 4 } else { n };
        let mut dead = mask_of(&deck[n..gone]);
        let nb = *rng.pick(&[0, 3, 4, 5]);
        let board = mask_of(&deck[gone..gone + nb]);
        let more = rng.below(4);
        dead |= mask_of(&deck[gone + nb..gone + nb + more]);
        let live = &deck[gone + nb + more..];
        let ranges: Vec<Vec<H>> = (0..n)
            .map(|_| {
                let keep = if rng.chance(0.5) { 1. } else { 0.8 };
                let mut r: Vec<H> = vec![];
                for (i, &a) in deck[..n].iter().enumerate() {
                    for &b in deck[..i].iter().chain(live) {
                        if rng.chance(keep) {
                            r.push((a.max(b), a.min(b), 100));
                        }
                    }
                }
                sort_hands(&mut r);
                r
            })
            .collect();
        let s = Spot { ranges, board, dead, threads: rng.range(1, 4) as u8 };
        let groups = CombinedRange::from_ranges(&s.lib()).len();
        let r = s.approx_ok(ctx, 0.02);
        for p in 0..n {
            for h in &s.ranges[p] {
                let u = &r.hand_results[p * 1326 + num(h.0, h.1)];
                if (hm(h) & hot).count_ones() == 2 && (u.total > 0 || u.wins > 0 || u.ties > 0) {
                    ctx.violation(&format!("player {p} was dealt {} {} times although every player holds one of {}\napprox_equity on {}", hand_name(*h), u.total, pokers::hand_range::mask_to_string(hot), s.text()));
                }
            }
        }
        ctx.tag("deals_observed", r.eval_count);
        ctx.tag(&format!("inputs_with_{groups}_groups_of_joined_ranges"), 1);
        ctx.case(&s.text(), groups > 1);
    });
    // one card decides: wins are certain unless that card, which is dead or in a player's hand, comes
    ctx.par("c23_outs", ctx.n(300, 6_000), 8, 60, |_, rng| {
        let deck = biased_deck(rng);
        let n = rng.range(2, 4);
        let nb = *rng.pick(&[3, 4, 4, 4]);
        let board = &deck[..nb];
        let hands: Vec<[u8; 2]> = (0..n).map(|i| [deck[nb + 2 * i], deck[nb + 2 * i + 1]]).collect();
        let rest = &deck[nb + 2 * n..];
        // kill every card that would change the winner
        let val = |h: &[u8; 2], x: &[u8]| {
            let mut c = board.to_vec();
            c.extend(h);
            c.extend(x);
            value(&of(&c))
        };
        let mut dead = 0u64;
        if nb == 4 {
            let who = |x: u8| {
                let v: Vec<u32> = hands.iter().map(|h| val(h, &[x])).collect();
                let best = *v.iter().max().unwrap();
                v.iter().enumerate().filter(|(_, &y)| y == best).fold(0u32, |m, (i, _)| m | 1 << i)
            };
            let first = who(rest[0]);
            for &x in rest {
                if who(x) != first && (dead.count_ones() as usize) < 47 - 2 * n {
                    dead |= bit(x);
                }
            }
        } else {
            let mut l = rest.to_vec();
            rng.shuffle(&mut l);
            dead = mask_of(&l[..rng.range(20, 47 - 2 * n).min(l.len() - 2)]);
        }
        let ranges = hands.iter().map(|h| vec![(h[0].max(h[1]), h[0].min(h[1]), 100)]).collect();
        let s = Spot { ranges, board: mask_of(board), dead, threads: 1 };
        if s.n_boards() == 0 || 2 * n + 5 + s.dead.count_ones() as usize > 52 {
            return;
        }
        let t = enumerate(&s);
        let r = s.approx_ok(ctx, 0.05);
        go(&s, &r, &t);
        ctx.case(&s.text(), t.by_mask.iter().filter(|&&x| x > 0).count() == 1 || dead != 0);
        ctx.tag("deals_observed", r.eval_count);
    });
    ctx.finish(300)
}

// ---------------------------------------------------------------- C24

pub fn c24(ctx: &Ctx) {
    ctx.rule("random inputs with a varying outcome, also ones where only ties or only player 0's result varies; repeated Monte Carlo runs at several targets and thread counts: the spread of player 0's equity around the exact value against the target and the reported deviation, deviations at the end of runs against the target; a failure must repeat in larger fresh samples; non-trivial: a first player whose result varies");
    ctx.assume("with 64 and then 256 runs, a spread outside 0.5 to 2 times the reported deviation in both is not chance");
    let study = |s: &Spot, tau: f64, truth: f64, kind: &str| {
        let measure = |k: usize| {
            let runs: Vec<SimulationResults> = (0..k).map(|_| s.approx_ok(ctx, tau)).collect();
            let rms = (runs.iter().map(|r| (r.equities[0] - truth).powi(2)).sum::<f64>() / k as f64).sqrt();
            let rep = (runs.iter().map(|r| r.stdev * r.stdev).sum::<f64>() / k as f64).sqrt();
            let max = runs.iter().map(|r| r.stdev).fold(0., f64::max);
            let evals = runs.iter().map(|r| r.eval_count as f64).sum::<f64>() / k as f64;
            let over = runs.iter().filter(|r| r.eval_count > 400_000 * s.threads.max(1) as u64 && r.stdev < 0.5 * tau).count() as f64 / k as f64;
            ctx.tag("runs", k as u64);
            (rms, rep, max, evals, over)
        };
        let judge = |m: &(f64, f64, f64, f64, f64)| -> Option<String> {
            let (rms, rep, max, evals, over) = *m;
            // rounding of the reported figure for outcomes that hardly vary
            let tiny = 1e-5;
            if !rep.is_finite() || rep < 0. {
                return Some(format!("reported deviation {rep}"));
            }
            if rms > 2. * rep + tiny {
                return Some(format!("the equity spreads by {rms}, reported {rep}, target {tau}, {evals} evaluations"));
            }
            if rep > 2. * rms + tiny {
                return Some(format!("the equity spreads by only {rms}, reported {rep}, target {tau}, {evals} evaluations"));
            }
            if rms > 2. * tau + tiny {
                return Some(format!("the equity spreads by {rms}, target {tau}, {evals} evaluations"));
            }
            if max > 1.6 * tau + tiny {
                return Some(format!("a run stopped at a reported deviation of {max}, target {tau}"));
            }
            if over > 0.2 {
                return Some(format!("{} of the runs went on although the reported deviation was below half of the target {tau}; {evals} evaluations", over));
            }
            None
        };
        let m = measure(64);
        if judge(&m).is_some() {
            ctx.tag("second_samples", 1);
            let m = measure(256);
            if let Some(e) = judge(&m) {
                ctx.violation(&format!("{e} (256 runs, exact equity {truth})\n{kind}: approx_equity on {}", s.text()));
            }
        }
        ctx.case(&format!("{kind} target {tau}: {}", s.text()), true);
    };
    let equal = |s: &mut Spot| s.ranges.iter_mut().flatten().for_each(|h| h.2 = 100);
    ctx.par("c24_spots", ctx.n(60, 900), 8, 90, |_, rng| {
        for _ in 0..50 {
            let (mut s, _) = Gen { max_work: 60_000, players: (2, 6), ..Gen::default() }.spot(rng);
            equal(&mut s);
            s.threads = *rng.pick(&[1, 1, 2, 4]);
            let t = enumerate(&s);
            let e = t.equity(0);
            // varying, and not only through a few very rare deals
            if !(0.03..=0.97).contains(&e) {
                continue;
            }
            // at the smallest number of batches, and beyond it
            let per = (e * (1. - e)).sqrt();
            let tau = *rng.pick(&[0.05, per / (65_536f64 * 2.5).sqrt(), per / (65_536f64 * 6.).sqrt()]);
            study(&s, tau, e, "anything");
            return;
        }
    });
    // different players vary differently
    ctx.par("c24_first", ctx.n(24, 300), 8, 90, |_, rng| {
        for _ in 0..300 {
            let (mut s, _) = Gen { max_work: 40_000, players: (3, 5), max_hands: 12, ..Gen::default() }.spot(rng);
            equal(&mut s);
            let t = enumerate(&s);
            let mut v: Vec<(f64, usize)> = (0..s.n()).map(|p| (t.equity(p) * (1. - t.equity(p)), p)).collect();
            v.sort_by(|a, b| a.0.total_cmp(&b.0));
            if v[0].0 > 0.02 || v[s.n() - 1].0 < 0.15 {
                continue;
            }
            // the player who varies most, or a middling one, first
            let p = v[s.n() - 1].1;
            s.ranges.swap(0, p);
            s.threads = *rng.pick(&[1, 2]);
            let t = enumerate(&s);
            let e = t.equity(0);
            study(&s, (e * (1. - e)).sqrt() / (65_536f64 * 4.).sqrt(), e, "the first player varies most");
            return;
        }
    });
    // the outcome is a tie or a loss
    ctx.par("c24_ties", ctx.n(24, 300), 8, 90, |_, rng| {
        for _ in 0..2000 {
            let deck = biased_deck(rng);
            let nb = *rng.pick(&[3, 4, 5]);
            let n = rng.range(2, 4);
            let ranges = (0..n).map(|_| wide_range(rng, &deck[nb..nb + 14], 6)).collect();
            let s = Spot { ranges, board: mask_of(&deck[..nb]), dead: 0, threads: 1 };
            if s.assignments(400).is_none_or(|k| k == 0) {
                continue;
            }
            let t = enumerate(&s);
            let won = t.by_mask[1] as f64 / t.total as f64;
            let e = t.equity(0);
            if won < 0.02 && e > 0.15 && e < 0.4 {
                study(&s, (e * (0.5 - e)).max(0.01).sqrt() / (65_536f64 * 3.).sqrt(), e, "ties and losses");
                return;
            }
        }
    });
    // ranges in several groups
    ctx.par("c24_groups", ctx.n(16, 250), 8, 90, |_, rng| {
        for _ in 0..20 {
            let mut s = large_spot(rng, false);
            s.threads = 8;
            let Ok(r) = s.exact(ctx) else { continue };
            s.threads = *rng.pick(&[1, 2, 4]);
            let e = r.equities[0];
            if !(0.1..=0.9).contains(&e) {
                continue;
            }
            let per = (e * (1. - e)).sqrt();
            let tau = *rng.pick(&[0.05, per / (65_536f64 * 3.).sqrt()]);
            ctx.tag("inputs_with_several_groups", (CombinedRange::from_ranges(&s.lib()).len() > 1) as u64);
            study(&s, tau, e, "several groups of ranges");
            return;
        }
    });
    // certain outcomes: known as precisely as anyone may ask, though sums of many batches are rounded
    ctx.par("c24_certain", ctx.n(2, 12), 1, 120, |c, rng| {
        let (s, e) = certain_spot(rng, c);
        let tau = *rng.pick(&[4e-9, 4e-9, 2e-9]);
        let token = Arc::new(AtomicBool::new(false));
        let (t2, calls) = (token.clone(), StdCell::new(0u64));
        let lib = s.lib();
        let bound = 400_000;
        let r = ctx.ok_long(&|| format!("approx_equity on {}", s.text()), || {
            approx_equity(&lib, s.board, s.dead, s.threads, tau, token, |_| {
                calls.set(calls.get() + 1);
                if calls.get() == bound {
                    t2.store(true, SeqCst);
                }
            })
        });
        let Ok(r) = r else { ctx.violation(&format!("refused: approx_equity on {}", s.text())) };
        let what = if calls.get() >= bound {
            format!("still running after {bound} batches of a certain outcome")
        } else if !(r.stdev >= 0. && r.stdev < 1.6 * tau + 1e-9) {
            format!("stopped at a reported deviation of {}", r.stdev)
        } else if (r.equities[0] - e).abs() > 1e-9 {
            format!("equity {} instead of {e} for a certain share", r.equities[0])
        } else {
            String::new()
        };
        if !what.is_empty() {
            ctx.violation(&format!("{what}, target {tau}\napprox_equity on {}", s.text()));
        }
        ctx.tag("batches_of_certain_outcomes", calls.get());
        ctx.case(&format!("certain outcome, target {tau}: {}", s.text()), true);
    });
    // far targets: runs end at once; and outcomes that never vary
    ctx.par("c24_ends", ctx.n(60, 600), 8, 60, |_, rng| {
        let (mut s, _) = Gen { max_work: 40_000, ..Gen::default() }.spot(rng);
        s.threads = *rng.pick(&[1, 2, 8]);
        let r = s.approx_ok(ctx, *rng.pick(&[0.1, 1., 1e6]));
        if !(r.stdev.is_finite() && r.stdev >= 0.) {
            ctx.violation(&format!("reported deviation {}\napprox_equity on {}", r.stdev, s.text()));
        }
        if r.eval_count > 2_000_000 * s.threads as u64 {
            ctx.violation(&format!("{} evaluations for a target that is met at once\napprox_equity on {}", r.eval_count, s.text()));
        }
        ctx.case(&format!("far target: {}", s.text()), false);
    });
    ctx.finish(40)
}

// ---------------------------------------------------------------- C25

pub fn c25(ctx: &Ctx) {
    ctx.rule("random exact and Monte Carlo runs, cancelled or not; equities, tie shares, winner sets, hand, starting-hand, category and draw figures must add up exactly; non-trivial: 40 or more aggregate entries checked");
    let go = |s: &Spot, r: &SimulationResults, kind: &str| match conserve(r, s.n(), s.board.count_ones()) {
        Err(e) => ctx.violation(&format!("{e}\n{kind} on {}", s.text())),
        Ok(k) => {
            ctx.tag("entries_checked", k);
            if !r.stdev.is_finite() || r.stdev < 0. {
                ctx.violation(&format!("reported deviation {}\n{kind} on {}", r.stdev, s.text()));
            }
            if !(r.eval_count > 0 || kind.contains("cancelled")) {
                ctx.violation(&format!("no evaluations\n{kind} on {}", s.text()));
            }
            ctx.case(&format!("{kind} {}", s.text()), k >= 40);
        }
    };
    let each = |s: &Spot, rng: &mut Rng| {
        go(s, &s.exact_ok(ctx), "exact_equity");
        go(s, &s.approx_ok(ctx, *rng.pick(&[0.02, 0.1, 0.004])), "approx_equity");
        let lib = s.lib();
        let k = rng.below(4) as u64;
        let exact = rng.chance(0.5);
        let token = Arc::new(AtomicBool::new(k == 0));
        let t2 = token.clone();
        let calls = StdCell::new(0);
        let cb = |_| {
            calls.set(calls.get() + 1);
            if calls.get() == k {
                t2.store(true, SeqCst);
            }
        };
        let r = ctx.ok(&|| format!("cancelled run on {}", s.text()), || {
            if exact {
                exact_equity(&lib, s.board, s.dead, s.threads, token, cb)
            } else {
                approx_equity(&lib, s.board, s.dead, s.threads, 1e-9, token, cb)
            }
        });
        match r {
            Ok(r) => go(s, &r, if exact { "cancelled exact_equity" } else { "cancelled approx_equity" }),
            Err(e) => ctx.violation(&format!("refused with {e:?}: cancelled run, exact: {exact}, on {}", s.text())),
        }
    };
    ctx.par("c25_spots", ctx.n(500, 10_000), 8, 60, |_, rng| {
        let (s, _) = Gen { max_work: 60_000, ..Gen::default() }.spot(rng);
        each(&s, rng);
    });
    ctx.par("c25_wide", ctx.n(60, 900), 8, 60, |c, rng| {
        let deck = biased_deck(rng);
        let (nb, n, k) = [(3, 2, 90), (4, 2, 300), (5, 2, 1326), (5, 3, 90), (4, 3, 50), (5, 5, 14)][c as usize % 6];
        let mut ranges: Vec<Vec<H>> = (0..n).map(|_| wide_range(rng, &deck, k)).collect();
        for r in &mut ranges {
            random_weights(rng, r, true);
            r.iter_mut().take(20).for_each(|h| h.2 = h.2.max(1));
        }
        let s = Spot { ranges, board: mask_of(&deck[..nb]), dead: 0, threads: 2 };
        if s.assignments(1 << 40).is_some_and(|k| k > 0) {
            each(&s, rng);
        }
    });
    // entries added up by the caller
    ctx.par("c25_sums", ctx.n(200, 4_000), 8, 60, |_, rng| {
        let unit = |rng: &mut Rng| {
            let top = 1u64 << rng.range(0, 60);
            let total = rng.next() % top;
            let wins = rng.next() % (total + 1);
            let ties = rng.next() % (total - wins + 1);
            let share = ties as f64 / rng.range(2, 9) as f64;
            let mut u = pokers::UnitResults::default();
            (u.wins, u.ties, u.total, u.corrected_ties) = (wins, ties, total, share);
            u.equity = if total > 0 { (wins as f64 + share) / total as f64 } else { 0. };
            (u.weight, u.rank, u.draw, u.valid) = (rng.below(101) as u32, rng.below(9) as u8, rng.below(256) as u8, rng.chance(0.5));
            u
        };
        let parts: Vec<pokers::UnitResults> = (0..rng.range(1, 8)).map(|_| unit(rng)).collect();
        let mut sum = unit(rng);
        let first = sum.clone();
        for p in &parts {
            ctx.ok(&|| format!("{first:?} += {parts:?}"), || sum += p.clone());
        }
        let all = || parts.iter().chain([&first]);
        let (w, t, n): (u64, u64, u64) = (all().map(|p| p.wins).sum(), all().map(|p| p.ties).sum(), all().map(|p| p.total).sum());
        let c: f64 = all().map(|p| p.corrected_ties).sum();
        let e = if n > 0 { (w as f64 + c) / n as f64 } else { 0. };
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs().max(1.);
        if (sum.wins, sum.ties, sum.total) != (w, t, n) || !near(sum.corrected_ties, c) || !near(sum.equity, e) {
            ctx.violation(&format!("the sum is {sum:?}, wins {w} ties {t} total {n} tie share {c} equity {e} expected\n{first:?} += {parts:?}"));
        }
        ctx.case(&format!("{first:?} += {parts:?}"), n > 0);
    });
    // the first player's share is certain: its spread is nothing but rounding
    let k = if ctx.thorough { 200_000 } else { 40_000 };
    ctx.par("c25_certain", if ctx.thorough { 24 } else { 4 }, 1, 120, |c, rng| {
        let (s, e) = certain_spot(rng, c);
        let stop = rng.range(8_000, k) as u64;
        let token = Arc::new(AtomicBool::new(false));
        let (t2, calls) = (token.clone(), StdCell::new(0u64));
        let lib = s.lib();
        let r = ctx.ok_long(&|| format!("cancelled run on {}", s.text()), || {
            approx_equity(&lib, s.board, s.dead, s.threads, 0., token, |_| {
                calls.set(calls.get() + 1);
                if calls.get() == stop {
                    t2.store(true, SeqCst);
                }
            })
        });
        match r {
            Ok(r) => {
                if (r.equities[0] - e).abs() > 1e-9 {
                    ctx.violation(&format!("equity {} instead of {e} for a certain share\napprox_equity cancelled after {stop} batches on {}", r.equities[0], s.text()));
                }
                ctx.tag("batches_of_certain_outcomes", calls.get());
                go(&s, &r, &format!("cancelled approx_equity after {stop} batches"))
            }
            Err(e) => ctx.violation(&format!("refused with {e:?}: cancelled run on {}", s.text())),
        }
    });
    // cancelled in advance, and no compatible hands found by chance
    ctx.par("c25_nothing_dealt", 2, 1, 60, |c, _| {
        let s = hopeless_spot(1 + c as u8);
        let lib = s.lib();
        let r = ctx.ok(&|| format!("approx_equity cancelled in advance on {}", s.text()), || {
            approx_equity(&lib, s.board, s.dead, s.threads, 0.01, Arc::new(AtomicBool::new(true)), |_| ())
        });
        match r {
            Ok(r) => go(&s, &r, "approx_equity cancelled in advance"),
            Err(e) => ctx.violation(&format!("refused with {e:?}: approx_equity cancelled in advance on {}", s.text())),
        }
    });
    ctx.finish(300)
}

// ---------------------------------------------------------------- C26

pub fn c26(ctx: &Ctx) {
    ctx.rule("for random results, every player and all 1326 hand and 169 starting-hand names spelt by the harness, the entry found by name against the result lists and the range; thousands of other strings must be refused; non-trivial: entries with deals, and refused strings");
    let by = cards_by_num();
    let names: Vec<String> = by
        .iter()
        .map(|&(a, b)| {
            let (h, l) = if (a >> 2, 3 - (a & 3)) > (b >> 2, 3 - (b & 3)) { (a, b) } else { (b, a) };
            format!("{}{}", card_name(h), card_name(l))
        })
        .collect();
    let combos: Vec<String> = (0..169)
        .map(|c| {
            let (a, b) = by[class_start(c)];
            let (h, l) = (a.max(b), a.min(b));
            let t = |c: u8| card_name(c).chars().next().unwrap();
            format!("{}{}{}", t(h), t(l), if h >> 2 == l >> 2 { "" } else if h & 3 == l & 3 { "s" } else { "o" })
        })
        .collect();
    let same = |x: &pokers::UnitResults, y: &pokers::UnitResults| {
        x.wins == y.wins
            && x.ties == y.ties
            && x.total == y.total
            && x.corrected_ties.to_bits() == y.corrected_ties.to_bits()
            && x.equity.to_bits() == y.equity.to_bits()
            && x.winrate.to_bits() == y.winrate.to_bits()
            && x.tierate.to_bits() == y.tierate.to_bits()
            && (x.weight, x.rank, x.draw, x.valid) == (y.weight, y.rank, y.draw, y.valid)
    };
    ctx.par("c26_results", ctx.n(60, 1500), 8, 60, |_, rng| {
        let (mut s, _) = Gen { max_work: 60_000, max_hands: 120, ..Gen::default() }.spot(rng);
        s.threads = 1;
        let exact = rng.chance(0.7);
        let r = if exact { s.exact_ok(ctx) } else { s.approx_ok(ctx, 0.05) };
        let t = exact.then(|| enumerate(&s));
        let mut dealt = 0;
        for p in 0..s.n() {
            for (i, name) in names.iter().enumerate() {
                let u = ctx.ok(&|| format!("get_hand_result({p}, {name})"), || r.get_hand_result(p, name.clone()));
                let what = || format!("get_hand_result({p}, {name:?}) on {}", s.text());
                let Ok(u) = u else { ctx.violation(&format!("refused: {}", what())) };
                if !same(&u, &r.hand_results[p * 1326 + i]) {
                    ctx.violation(&format!("{u:?} instead of {:?}: {}", r.hand_results[p * 1326 + i], what()));
                }
                let (a, b) = by[i];
                let h = s.ranges[p].iter().find(|h| (h.0, h.1) == (a.max(b), a.min(b)));
                match h {
                    Some(h) if hm(h) & s.blocked() == 0 => {
                        if u.weight != h.2 as u32 {
                            ctx.violation(&format!("weight {} instead of {}: {}", u.weight, h.2, what()));
                        }
                    }
                    _ => {
                        if u.total != 0 {
                            ctx.violation(&format!("{u:?} for a hand that cannot be dealt: {}", what()));
                        }
                    }
                }
                if let Some(t) = &t {
                    let c = &t.hand[p * 1326 + i];
                    let tl: u128 = r.wins_by_mask.iter().map(|&x| x as u128).sum();
                    if !same_ratio(u.total as u128, c.total, tl, t.total) || !same_ratio(u.wins as u128, c.win, tl, t.total) {
                        ctx.violation(&format!("{u:?} but the enumeration says {c:?}: {}", what()));
                    }
                }
                dealt += (u.total > 0) as u64;
            }
            for (c, name) in combos.iter().enumerate() {
                let u = ctx.ok(&|| format!("get_combo_result({p}, {name})"), || r.get_combo_result(p, name.clone()));
                let what = || format!("get_combo_result({p}, {name:?}) on {}", s.text());
                let Ok(u) = u else { ctx.violation(&format!("refused: {}", what())) };
                if !same(&u, &r.combo_results[p * 169 + c]) {
                    ctx.violation(&format!("{u:?} instead of {:?}: {}", r.combo_results[p * 169 + c], what()));
                }
                let tot: u128 = (0..class_size(c)).map(|k| r.hand_results[p * 1326 + class_start(c) + k].total as u128).sum();
                if tot <= u64::MAX as u128 && u.total as u128 != tot {
                    ctx.violation(&format!("{u:?} but its hands sum to {tot}: {}", what()));
                }
            }
        }
        ctx.tag("entries_with_deals", dealt);
        ctx.case(&s.text(), dealt > 0);
    });
    // other strings
    ctx.par("c26_other", ctx.n(4, 40), 4, 60, |_, rng| {
        let (s, _) = Gen { max_work: 3_000, ..Gen::default() }.spot(rng);
        let r = s.exact_ok(ctx);
        let hand_ok = |x: &str| {
            // any spelling of two different cards may be taken
            let c: Vec<char> = x.chars().collect();
            c.len() == 4 && matches!((read_card(c[0].to_ascii_uppercase(), c[1].to_ascii_lowercase()), read_card(c[2].to_ascii_uppercase(), c[3].to_ascii_lowercase())), (Some(a), Some(b)) if a != b)
        };
        let combo_ok = |x: &str| {
            let u = x.to_uppercase();
            let c: Vec<char> = u.chars().collect();
            let rank = |c: char| "23456789TJQKA".contains(c);
            (c.len() == 2 && rank(c[0]) && c[0] == c[1]) || (c.len() == 3 && rank(c[0]) && rank(c[1]) && c[0] != c[1] && (c[2] == 'S' || c[2] == 'O'))
        };
        let alphabet: Vec<char> = "23456789TJQKAshcdSHCDotjqka0159xXo+-@, ,\u{0}é♠ ".chars().collect();
        let mut tried = 0;
        for i in 0..6000 {
            let mut x: Vec<char> = match i % 5 {
                0 => names[rng.below(1326)].chars().collect(),
                1 => combos[rng.below(169)].chars().collect(),
                2 => format!("{}{}", card_name(rng.below(52) as u8), card_name(rng.below(52) as u8)).chars().collect(),
                _ => (0..rng.below(7)).map(|_| *rng.pick(&alphabet)).collect(),
            };
            for _ in 0..rng.below(3) {
                let at = rng.below(x.len() + 1);
                match rng.below(3) {
                    0 => x.insert(at, *rng.pick(&alphabet)),
                    1 if at < x.len() => x[at] = *rng.pick(&alphabet),
                    _ if at < x.len() => {
                        x.remove(at);
                    }
                    _ => {}
                }
            }
            let x: String = x.into_iter().collect();
            let p = rng.below(s.n());
            let h = ctx.ok(&|| format!("get_hand_result({p}, {x:?})"), || r.get_hand_result(p, x.clone()));
            if h.is_ok() && !hand_ok(&x) {
                ctx.violation(&format!("get_hand_result({p}, {x:?}) finds {h:?}"));
            }
            let c = ctx.ok(&|| format!("get_combo_result({p}, {x:?})"), || r.get_combo_result(p, x.clone()));
            if c.is_ok() && !combo_ok(&x) {
                ctx.violation(&format!("get_combo_result({p}, {x:?}) finds {c:?}"));
            }
            if !hand_ok(&x) && !combo_ok(&x) {
                tried += 1;
                ctx.case(&x, true);
            }
        }
        ctx.tag("other_strings", tried);
    });
    ctx.finish(300)
}

// ---------------------------------------------------------------- C31

struct Marker(u64);

fn threads_now() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

pub fn c31(ctx: &Ctx) {
    ctx.rule("callbacks that panic at the first, k-th or last report, in exact and Monte Carlo runs with 1 to 16 threads, with the token set before, with or without it; the panic must reach the caller with its payload, all workers must have ended, and later calculations must be right; non-trivial: the callback panicked");
    let check_after = |rng: &mut Rng| {
        let (s, _) = Gen { max_work: 20_000, ..Gen::default() }.spot(rng);
        let t = enumerate(&s);
        let r = s.exact_ok(ctx);
        if let Err(e) = compare_totals(&r, &t).and_then(|_| conserve(&r, s.n(), s.board.count_ones()).map(|_| ())) {
            ctx.violation(&format!("after a panicking callback: {e}\nexact_equity on {}", s.text()));
        }
        let a = s.approx_ok(ctx, 0.02);
        for p in 0..s.n() {
            if (a.equities[p] - t.equity(p)).abs() > 0.4 {
                ctx.violation(&format!("after a panicking callback: equity {} of player {p}, exact {}\napprox_equity on {}", a.equities[p], t.equity(p), s.text()));
            }
        }
        if let Err(e) = conserve(&a, s.n(), s.board.count_ones()) {
            ctx.violation(&format!("after a panicking callback: {e}\napprox_equity on {}", s.text()));
        }
    };
    for jitter in [false, true] {
        let j = jitter.then(|| Jitter::start(ctx.seed));
        // one at a time, so that the workers can be counted
        ctx.par(&format!("c31_panics_{jitter}"), ctx.n(120, 2500), 1, 40, |c, rng| {
            let exact = rng.chance(0.5);
            let long = rng.chance(0.4);
            let (mut s, _) = if long {
                Gen { max_work: 1_500_000, boards: vec![3, 4, 5, 5], short: 0.2, max_hands: 60, ..Gen::default() }.spot(rng)
            } else {
                Gen { max_work: 60_000, ..Gen::default() }.spot(rng)
            };
            s.threads = *rng.pick(&[1, 2, 4, 8, 16]);
            let lib = s.lib();
            let at = if rng.chance(0.4) { 1 } else { rng.range(1, 20) as u64 };
            let cancel = rng.chance(0.5);
            let again = rng.chance(0.3);
            let token = Arc::new(AtomicBool::new(false));
            let t2 = token.clone();
            let calls = Arc::new(AtomicU64::new(0));
            let c2 = calls.clone();
            let what = format!("{} whose callback panics at report {at}, {}", if exact { "exact_equity" } else { "approx_equity" }, if cancel { "cancelled" } else { "not cancelled" });
            let cb = move |_: u8| {
                let k = c2.fetch_add(1, SeqCst) + 1;
                if k == at || (again && k > at) {
                    if cancel {
                        t2.store(true, SeqCst);
                    }
                    std::panic::panic_any(Marker(c));
                }
            };
            let before = threads_now();
            let out = ctx.catch(&|| format!("{what} on {}", s.text()), || {
                if exact {
                    exact_equity(&lib, s.board, s.dead, s.threads, token, cb)
                } else {
                    approx_equity(&lib, s.board, s.dead, s.threads, 0.004, token, cb)
                }
            });
            let k = calls.load(SeqCst);
            let bad = |m: String| ctx.violation(&format!("{m} ({k} reports made)\n{what} on {}", s.text()));
            match out {
                Ok(Ok(_)) if k < at => {}
                Ok(Ok(_)) => bad("a result was returned although the callback panicked".into()),
                Ok(Err(e)) => bad(format!("returned {e:?}")),
                Err(p) => match p.downcast_ref::<Marker>() {
                    Some(m) if m.0 == c => {}
                    _ => bad("another panic than that of the callback reached the caller".into()),
                },
            }
            // joined threads may take a moment to disappear from the list
            let mut left = 0;
            for _ in 0..3000 {
                left = threads_now().saturating_sub(before);
                if left == 0 {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(5));
            }
            if left > 0 {
                bad(format!("{left} threads are left behind"));
            }
            check_after(rng);
            ctx.tag("panics_caught", (k >= at) as u64);
            ctx.case(&format!("{what} {}", s.text()), k >= at);
        });
        if let Some(j) = j {
            ctx.tag("delays_injected", j.stop());
        }
    }
    // several calculations at once, some with panicking callbacks
    ctx.par("c31_beside", ctx.n(40, 800), 6, 40, |c, rng| {
        if c % 2 == 0 {
            let (s, _) = Gen { max_work: 60_000, ..Gen::default() }.spot(rng);
            let lib = s.lib();
            let exact = rng.chance(0.5);
            let out = ctx.catch(&|| format!("run with a panicking callback on {}", s.text()), || {
                let cb = move |_: u8| std::panic::panic_any(Marker(c));
                if exact {
                    exact_equity(&lib, s.board, s.dead, s.threads, Arc::new(AtomicBool::new(false)), cb)
                } else {
                    approx_equity(&lib, s.board, s.dead, s.threads, 0.02, Arc::new(AtomicBool::new(false)), cb)
                }
            });
            if !matches!(&out, Err(p) if p.downcast_ref::<Marker>().is_some_and(|m| m.0 == c)) {
                ctx.violation(&format!("the callback's panic did not reach the caller, exact: {exact}, on {}", s.text()));
            }
            ctx.case(&format!("beside {}", s.text()), true);
        } else {
            check_after(rng);
        }
    });
    ctx.finish(60)
}
