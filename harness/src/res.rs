//! C33, C34: threads and memory of calculations; answers of differently compiled libraries.
use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::run::endless;
use crate::san::hands_of;
use crate::spot::*;
use crate::text::random_list;
use pokers::equity_calculator::CombinedRange;
use pokers::fastdivide::DividerU64;
use pokers::hand_range::{card_from_str, flop_from_str, hole_to_string, mask_to_string};
use pokers::{approx_equity, exact_equity, get_card_index, get_card_mask, get_draw, Hand, HandRange, SimulationResults, SimulatorError};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- counting allocator

struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TROUGH: AtomicI64 = AtomicI64::new(0);
fn note(d: i64) {
    let l = LIVE.fetch_add(d, Relaxed) + d;
    if d > 0 {
        PEAK.fetch_max(l, Relaxed);
    } else {
        TROUGH.fetch_min(l, Relaxed);
    }
}
// SAFETY: everything is passed on to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            note(l.size() as i64);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            note(l.size() as i64);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            note(-(l.size() as i64));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            note(n as i64 - l.size() as i64);
        }
        if n <= 1024 {
            // the system's realloc takes a lock that many workers share
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                System.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn entries(dir: &str) -> usize {
    std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0)
}
/// threads of this process
fn tasks() -> usize {
    entries("/proc/self/task")
}
/// ended threads need a moment to disappear
fn settle(base: usize) -> usize {
    let t0 = Instant::now();
    loop {
        let k = tasks();
        if k <= base || t0.elapsed() > Duration::from_secs(10) {
            return k;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

// ---------------------------------------------------------------- C33

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Exact,
    ExactCancelled,
    Approx,
    ApproxCancelled,
    Panicking,
    Refused,
    Parsing,
    Grouping,
    Lookups,
}
/// one use of the library; what it returns is dropped
fn use_once(how: How, s: &Spot, lib: &[HandRange], texts: &[String]) {
    let token = Arc::new(AtomicBool::new(how == How::ExactCancelled || how == How::ApproxCancelled));
    let look = |r: Result<SimulationResults, SimulatorError>| {
        if let Ok(r) = r {
            let copy = r.clone();
            for n in ["AsAh", "2d2c", "7h6h", "AA", "T9s", "72o", "", "XX"] {
                drop((r.get_hand_result(0, n.into()), copy.get_combo_result(1, n.into())));
            }
        }
    };
    match how {
        How::Exact | How::ExactCancelled => look(exact_equity(lib, s.board, s.dead, s.threads, token, |_| ())),
        How::Approx | How::ApproxCancelled => look(approx_equity(lib, s.board, s.dead, s.threads, 10., token, |_| ())),
        How::Panicking => drop(catch_unwind(AssertUnwindSafe(|| exact_equity(lib, s.board, s.dead, s.threads, token, |_| panic!("panic"))))),
        How::Refused => {
            drop(exact_equity(&lib[..1], s.board, s.dead, s.threads, token.clone(), |_| ()));
            let same = vec![lib[0].clone(); 2];
            let one: Vec<HandRange> = same.into_iter().map(|mut r| {
                r.hands.truncate(1);
                r
            }).collect();
            drop(exact_equity(&one, s.board, s.dead, s.threads, token.clone(), |_| ()));
            drop(approx_equity(&one, s.board, s.dead, s.threads, 10., token, |_| ()));
        }
        How::Parsing => {
            for t in texts {
                let mut r = HandRange::from_string(t.clone());
                r.remove_conflicting_combos(s.board, s.dead);
                drop((get_card_mask(t), card_from_str(t), flop_from_str(t), mask_to_string(s.board), hole_to_string((50, 51))));
            }
        }
        How::Grouping => drop(CombinedRange::from_ranges(lib)),
        How::Lookups => {
            for i in 0..20u8 {
                let h = Hand::from_bit_mask(s.board) + Hand::from_hole_cards(i, 51 - i);
                std::hint::black_box((h.evaluate(), get_card_index(i, 51 - i), pokers::HAND_TO_INDEX.get("AsAh"), pokers::COMBO_TO_INDEX.get("AKs"), 77 / DividerU64::divide_by(3 + i as u64)));
            }
        }
    }
}

pub fn c33(ctx: &Ctx) {
    ctx.rule("every kind of call repeated many times (complete, cancelled, refused, with a panicking callback) while a counting allocator, the thread list and the open files of the process are watched; Monte Carlo and exact runs of different lengths compared by their peak of allocated bytes; endless runs with 0 to 24 threads asked for, threads counted from the callback; non-trivial: a calculation with deals");
    ctx.assume("a leak of less than a byte per call is not seen");
    ON.store(true, SeqCst);
    let hows = [How::Exact, How::Approx, How::ExactCancelled, How::ApproxCancelled, How::Panicking, How::Refused, How::Parsing, How::Grouping, How::Lookups];
    ctx.par("c33_leaks", ctx.n(45, 450), 1, 90, |c, rng| {
        let how = hows[c as usize % hows.len()];
        let threads = *rng.pick(&[1, 1, 2, 4]);
        let gen = Gen { max_work: 3_000, max_hands: 12, ..Gen::default() };
        // new inputs for every call, or the same all the time
        let fresh = rng.chance(0.5);
        let first = rng.next();
        let next = Cell::new(first);
        let once = || {
            let mut rng = Rng::new(next.get(), "c33_input", 0);
            if fresh {
                next.set(next.get() + 1);
            }
            let (mut s, _) = gen.spot(&mut rng);
            s.threads = threads;
            let texts: Vec<String> = (0..4).map(|_| random_list(&mut rng, 4).text).collect();
            use_once(how, &s, &s.lib(), &texts)
        };
        let heavy = how == How::Approx;
        let k = match how {
            How::Approx => 3,
            How::Parsing | How::Grouping | How::Lookups => 300,
            _ => 100,
        };
        let what = format!("{how:?} with {threads} threads, inputs drawn from {first:#x}, {}", if fresh { "new ones for every call" } else { "always the same" });
        let (base, files) = (tasks(), entries("/proc/self/fd"));
        let rounds = |k: u64| {
            ctx.ok(&|| what.clone(), || (0..k).for_each(|_| once()));
            ctx.tag("calls_watched", k);
        };
        // whatever is set up once (and the 64 panic messages the harness keeps)
        rounds(if how == How::Panicking { 70 } else { 2 });
        if settle(base) > base {
            ctx.violation(&format!("{} threads are left over\n{what}", tasks() - base));
        }
        let grown = |k: u64| {
            let l = LIVE.load(SeqCst);
            rounds(k);
            settle(base);
            LIVE.load(SeqCst) - l
        };
        let tolerance = if heavy { 64 } else { 256 };
        let (mut k, mut g) = (k, grown(k));
        // growth has to go on, with the number of calls
        let mut again = vec![(k, g)];
        while g > tolerance && again.len() < 4 {
            k *= 2;
            g = grown(k);
            again.push((k, g));
        }
        if g > tolerance && again.len() == 4 {
            ctx.violation(&format!("allocated memory keeps growing: (calls, bytes) {again:?}\n{what}"));
        }
        if tasks() > base {
            ctx.violation(&format!("{} threads are left over\n{what}", tasks() - base));
        }
        if entries("/proc/self/fd") > files {
            ctx.violation(&format!("{} files are left open\n{what}", entries("/proc/self/fd") - files));
        }
        ctx.case(&what, !matches!(how, How::Refused | How::Lookups));
    });
    // memory while running
    ctx.par("c33_peak", ctx.n(8, 60), 1, 60, |c, rng| {
        let peak = |f: &dyn Fn()| {
            let l = LIVE.load(SeqCst);
            PEAK.store(l, SeqCst);
            f();
            PEAK.load(SeqCst) - l
        };
        let mut s = endless(rng);
        s.threads = rng.range(1, 4) as u8;
        let exact = c % 2 == 0;
        let mut lib = s.lib();
        // memory of one batch, and the progress reports not yet delivered
        let slack = 4 * s.threads as i64 * (s.n() * 1326 * 88) as i64 + (1 << 18);
        let (short, long, what) = if exact {
            let two: Vec<Vec<H>> = (0..2).map(|_| wide(rng, 6)).collect();
            lib = two.iter().map(|r| mk_range(r)).collect();
            let (t, b) = (s.threads, [0b111u64 << 20, 0]);
            let run = |b: u64| {
                let l: &[HandRange] = &lib;
                peak(&|| drop(ctx.ok(&|| "exact_equity".into(), || exact_equity(l, b, 0, t, Arc::new(AtomicBool::new(false)), |_| ()))))
            };
            run(b[0]);
            (run(b[0]), run(b[1]), format!("exact_equity of {:?} with {t} threads: flop against no board", two.iter().map(|r| range_name(r)).collect::<Vec<_>>()))
        } else {
            let run = |k: u64| {
                let l: &[HandRange] = &lib;
                peak(&|| {
                    let token = Arc::new(AtomicBool::new(false));
                    let (t2, calls) = (token.clone(), Cell::new(0));
                    drop(ctx.ok(&|| format!("approx_equity on {}", s.text()), || {
                        approx_equity(l, s.board, s.dead, s.threads, 0., token, |_| {
                            calls.set(calls.get() + 1);
                            if calls.get() == k {
                                t2.store(true, SeqCst);
                            }
                        })
                    }))
                })
            };
            run(20);
            (run(100), run(2000), format!("approx_equity cancelled after 100 and 2000 reports on {}", s.text()))
        };
        if long > short + slack {
            ctx.violation(&format!("the long run needs {long} bytes, the short one {short}: {what}"));
        }
        ctx.tag("peak_bytes_seen", long as u64);
        ctx.case(&what, true);
    });
    // memory at the reports of one long run
    ctx.par("c33_growth", ctx.n(10, 80), 1, 120, |c, rng| {
        let mut s = endless(rng);
        s.threads = if c % 5 == 4 { 3 } else { 1 };
        let exact = c % 2 == 0 && s.n() <= 4;
        if exact {
            (s.board, s.dead) = (0, 0);
            s.ranges.truncate(2);
        }
        let lib = s.lib();
        // several workers are hardly ever without their buffers at the same time
        let limit = 1024 + (s.threads as i64 - 1) * 2 * (s.n() * 1326 * 88) as i64;
        let (window, end) = if exact { (300u64, ctx.n(1200, 8000)) } else { (600, ctx.n(3000, 30_000)) };
        let what = format!("{} with {} threads on {}", if exact { "exact_equity" } else { "approx_equity" }, s.threads, s.text());
        let run = |end: u64| {
            let token = Arc::new(AtomicBool::new(false));
            let (t2, calls) = (token.clone(), Cell::new(0));
            // the least memory in use while some hundred batches are merged
            let (early, late) = (Cell::new(0), Cell::new(0));
            let cb = |_| {
                let k = calls.get() + 1;
                calls.set(k);
                if k == 100 || k == end - window {
                    TROUGH.store(i64::MAX, SeqCst);
                } else if k == 100 + window {
                    early.set(TROUGH.load(SeqCst));
                } else if k == end {
                    late.set(TROUGH.load(SeqCst));
                    t2.store(true, SeqCst);
                }
            };
            let r = ctx.ok(&|| what.clone(), || {
                if exact {
                    exact_equity(&lib, s.board, s.dead, s.threads, token, cb)
                } else {
                    approx_equity(&lib, s.board, s.dead, s.threads, 0., token, cb)
                }
            });
            drop(r);
            ctx.tag("reports_watched", calls.get());
            (calls.get() >= end).then(|| late.get().saturating_sub(early.get()))
        };
        let mut seen = vec![];
        // growth has to show every time
        while seen.len() < 4 {
            match run(end) {
                Some(g) if g > limit => seen.push(g),
                Some(g) => {
                    ctx.tag("growth_below_limit_seen", g.max(0) as u64);
                    break;
                }
                None => {
                    ctx.tag("run_too_short", 1);
                    return;
                }
            }
        }
        if seen.len() == 4 {
            ctx.violation(&format!("allocated memory grows during a run, by {seen:?} bytes in {end} reports: {what}"));
        }
        ctx.case(&what, true);
    });
    // worker threads
    ctx.par("c33_threads", ctx.n(40, 300), 1, 60, |c, rng| {
        let mut s = endless(rng);
        let asked = [0u8, 1, 2, 3, 4, 8, 5, 24][c as usize % 8];
        s.threads = asked;
        // exact runs: ones with endless work for every thread
        let exact = c / 8 % 2 == 0 && s.n() <= 4;
        let what = format!("{} with {asked} threads on {}", if exact { "exact_equity" } else { "approx_equity" }, s.text());
        let lib = s.lib();
        let base = tasks();
        let token = Arc::new(AtomicBool::new(false));
        let (t2, most, calls) = (token.clone(), Cell::new(0usize), Cell::new(0));
        let cb = |_| {
            most.set(most.get().max(tasks().saturating_sub(base)));
            calls.set(calls.get() + 1);
            if calls.get() == 3 {
                t2.store(true, SeqCst);
            }
        };
        let r = ctx.ok(&|| what.clone(), || {
            if exact {
                exact_equity(&lib, s.board, s.dead, s.threads, token, cb)
            } else {
                approx_equity(&lib, s.board, s.dead, s.threads, 0., token, cb)
            }
        });
        if let Err(e) = r {
            ctx.violation(&format!("refused with {e:?}: {what}"));
        }
        if most.get() > asked.max(1) as usize {
            ctx.violation(&format!("{} worker threads: {what}", most.get()));
        }
        // the caller's own thread may be one of the workers
        if most.get() + 1 < 3 && asked > 2 || most.get() == 0 && asked > 1 {
            ctx.violation(&format!("{} worker threads: {what}", most.get()));
        }
        let left = settle(base);
        if left > base {
            ctx.violation(&format!("{} threads go on after the return: {what}", left - base));
        }
        ctx.tag("worker_threads_counted", most.get() as u64);
        ctx.case(&what, true);
    });
    ON.store(false, SeqCst);
    ctx.finish(60)
}

fn wide(rng: &mut Rng, k: usize) -> Vec<H> {
    let mut v: Vec<H> = vec![];
    while v.len() < k {
        let (a, b) = (rng.below(52) as u8, rng.below(52) as u8);
        if a > b && (a < 20 || a > 22) && (b < 20 || b > 22) && !v.iter().any(|h| (h.0, h.1) == (a, b)) {
            v.push((a, b, 100));
        }
    }
    sort_hands(&mut v);
    v
}

// ---------------------------------------------------------------- C34

/// everything in a result, to the last bit
fn words(r: &Result<SimulationResults, SimulatorError>) -> String {
    match r {
        Err(e) => format!("{e:?}"),
        Ok(r) => {
            let mut t = format!("{:?} {:?} {:?} {:?} {} {} {:x}", r.wins, r.ties, r.wins_by_mask, r.equities, r.eval_count, r.batch_count, r.stdev.to_bits());
            for (i, u) in r.hand_results.iter().chain(&r.combo_results).chain(&r.board_results).chain(&r.board_draws).enumerate() {
                if u.valid || u.total > 0 {
                    t += &format!(" {i}:{:?}", (u.wins, u.ties, u.total, u.corrected_ties.to_bits(), u.equity.to_bits(), u.winrate.to_bits(), u.tierate.to_bits(), u.weight, u.rank, u.draw, u.valid));
                }
            }
            for n in ["AsAh", "2d2c", "7h6h", "AA", "T9s", "72o"] {
                t += &format!(" {:?} {:?}", r.get_hand_result(1, n.into()).map(|u| u.total), r.get_combo_result(0, n.into()).map(|u| u.total));
            }
            t
        }
    }
}
/// what the library says to some questions drawn from `rng`: (question, answer)
fn interview(rng: &mut Rng) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    let mut ask = |q: String, f: &dyn Fn() -> String| {
        let a = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into());
        out.push((q, a));
    };
    for _ in 0..4 {
        let mut t = random_list(rng, 5).text;
        if rng.chance(0.4) {
            let odd = ["@", "@101", "@0007", "KK-", "-", "+", "A", "zz", "AhAh", ",,", " ", "é", "9-T", "QQ-AK", "@99999999999999"];
            t += if rng.chance(0.5) { "," } else { "" };
            t += odd[rng.below(odd.len())];
        }
        ask(format!("from_string({t:?})"), &|| format!("{:?}", hands_of(&HandRange::from_string(t.clone()))));
        ask(format!("cards {t:?}"), &|| format!("{} {:?} {:?}", get_card_mask(&t), card_from_str(&t), flop_from_str(&t)));
    }
    for _ in 0..60 {
        let deck = biased_deck(rng);
        let k = rng.range(2, 7);
        let m = deck[..k].iter().fold(0, |m, &c| m | bit(c));
        let (h, b) = ((deck[0], deck[1]), m & !(bit(deck[0]) | bit(deck[1])));
        ask(format!("{m:#x} {h:?}"), &|| {
            let (x, y) = (Hand::from_hole_cards(h.0, h.1), Hand::from_bit_mask(b));
            let v = (x + y).evaluate();
            let d = if k > 4 && k < 7 { get_draw(x, y, (v >> 12) as u8 - 1) } else { 0 };
            format!("{v} {} {d} {} {} {} {:?} {}", (x + y).evaluate_without_flush(), get_card_index(h.0, h.1), x.get_card_index(), (x + y).get_rank_mask(), hole_to_string(h), mask_to_string(m))
        });
        let (n, d) = (rng.next() >> rng.below(64), (rng.next() >> rng.below(64)).max(1));
        ask(format!("{n} / {d}"), &|| format!("{:?}", n / DividerU64::divide_by(d)));
    }
    for i in 0..5 {
        let (mut s, _) = Gen { max_work: 30_000, ..Gen::default() }.spot(rng);
        // the order in which threads add up shares is not fixed
        s.threads = 1;
        if rng.chance(0.15) {
            // impossible
            match rng.below(3) {
                0 => s.ranges.truncate(1),
                1 => s.board = 0b111111,
                _ => s.dead = u64::MAX >> 12,
            }
        }
        let lib = s.lib();
        let off = || Arc::new(AtomicBool::new(false));
        ask(format!("exact_equity on {}", s.text()), &|| {
            let reports = std::cell::RefCell::new(vec![]);
            let r = exact_equity(&lib, s.board, s.dead, 1, off(), |p| reports.borrow_mut().push(p));
            format!("{} {:?}", words(&r), reports.borrow())
        });
        ask(format!("groups of {}", s.text()), &|| {
            let g = CombinedRange::from_ranges(&lib);
            g.iter()
                .map(|g| {
                    let mut v: Vec<_> = g.combos().iter().map(|c| (c.mask, c.hole_cards)).collect();
                    v.sort_unstable();
                    format!("{:?} {} {:?}", g.players(), g.size(), &v[..v.len().min(50)])
                })
                .collect::<String>()
        });
        if i < 2 {
            ask(format!("approx_equity on {}", s.text()), &|| words(&approx_equity(&lib, s.board, s.dead, 1, 0.02, off(), |_| ())));
            ask(format!("approx_equity cancelled in advance on {}", s.text()), &|| words(&approx_equity(&lib, s.board, s.dead, 1, 0.02, Arc::new(AtomicBool::new(true)), |_| ())));
        }
    }
    out
}
/// child process: asks and answers, one line each
pub fn answers(seed: u64, case: u64) -> ! {
    let mut rng = Rng::new(seed, "c34_answers", case);
    for (q, a) in interview(&mut rng) {
        println!("{q:?} {a:?}");
    }
    std::process::exit(0)
}
pub fn c34(ctx: &Ctx) {
    ctx.rule("the same random questions (parsing, card text, evaluation, draws, division, grouping, exact and single-threaded Monte Carlo runs with the same random numbers) put to two processes, one with the library compiled with overflow checks and debug assertions and one without them as users compile it; the answers are compared to the last bit; non-trivial: every process pair");
    let Ok(other) = std::env::var("VH_OTHER") else { ctx.inconclusive("no other build to compare with (VH_OTHER)") };
    let own = std::env::current_exe().unwrap();
    ctx.par("c34_answers", ctx.n(900, 12000), 8, 120, |c, _| {
        let run = |exe: &std::path::Path| -> Vec<String> {
            match std::process::Command::new(exe).args(["answers", "--seed", &ctx.seed.to_string(), "--case", &c.to_string()]).output() {
                Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).lines().map(str::to_string).collect(),
                Ok(o) => ctx.violation(&format!("the process died ({}): {}\n{}", o.status, exe.display(), String::from_utf8_lossy(&o.stderr))),
                Err(e) => ctx.inconclusive(&format!("cannot start a child process: {e}")),
            }
        };
        let (a, b) = (run(&own), run(std::path::Path::new(&other)));
        if a != b {
            // answers that vary from process to process of one build are no matter of the build
            let varying = (0..3).map(|_| run(&own)).chain((0..3).map(|_| run(std::path::Path::new(&other)))).collect::<Vec<_>>();
            let stable = |i: usize| varying[..3].iter().all(|v| v.get(i) == a.get(i)) && varying[3..].iter().all(|v| v.get(i) == b.get(i));
            if let Some(i) = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i) && stable(i)) {
                let cut = |s: Option<&String>| s.map(|s| s.chars().take(3000).collect::<String>()).unwrap_or_default();
                ctx.violation(&format!("the builds answer differently, with checks:\n{}\nwithout:\n{}", cut(a.get(i)), cut(b.get(i))));
            }
            ctx.tag("varying_answers_left_out", 1);
        }
        ctx.tag("answers_compared", a.len() as u64);
        ctx.tag("panics_in_both", a.iter().filter(|l| l.ends_with("\"panic\"")).count() as u64);
        ctx.case(&a.join("\n"), true);
    });
    ctx.finish(40)
}
