mod ctx;
mod deal;
mod eval;
mod exact;
mod oracle;
mod res;
mod rng;
mod run;
mod san;
mod spot;
mod text;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let only = match (opt("--stream"), opt("--case").and_then(|s| s.parse().ok())) {
        (Some(s), Some(c)) => Some((s, c)),
        _ => None,
    };
    let ctx: &'static ctx::Ctx = Box::leak(Box::new(ctx::Ctx::new(&prop, thorough, seed, only)));
    rng::seed_entropy(seed);
    if prop == "first-use" {
        san::first_use(seed);
    }
    if prop == "lone" {
        san::lone(seed, opt("--case").and_then(|s| s.parse().ok()).unwrap_or(0), opt("--member").and_then(|s| s.parse().ok()).unwrap_or(0));
    }
    if prop == "answers" {
        res::answers(seed, opt("--case").and_then(|s| s.parse().ok()).unwrap_or(0));
    }
    if !cfg!(miri) {
        ctx::watchdog(ctx);
    }
    match prop.as_str() {
        "C01" => eval::c01(ctx),
        "C02" => eval::c02(ctx),
        "C03" => eval::c03(ctx),
        "C04" => eval::c04(ctx),
        "C05" => eval::c05(ctx),
        "C06" => text::c06(ctx),
        "C07" => text::c07(ctx),
        "C08" => text::c08(ctx),
        "C09" => text::c09(ctx),
        "C10" => text::c10(ctx),
        "C11" => exact::c11(ctx),
        "C12" => exact::c12(ctx),
        "C13" => exact::c13(ctx),
        "C14" => exact::c14(ctx),
        "C15" => exact::c15(ctx),
        "C16" => exact::c16(ctx),
        "C17" => exact::c17(ctx),
        "C18" => exact::c18(ctx),
        "C19" => run::c19(ctx),
        "C20" => run::c20(ctx),
        "C21" => run::c21(ctx),
        "C22" => run::c22(ctx),
        "C23" => run::c23(ctx),
        "C24" => run::c24(ctx),
        "C25" => run::c25(ctx),
        "C26" => run::c26(ctx),
        "C31" => run::c31(ctx),
        "C27" => san::c27(ctx),
        "C28" => san::c28(ctx),
        "C29" => eval::c29(ctx),
        "C30" => eval::c30(ctx),
        "C32" => text::c32(ctx),
        "C33" => res::c33(ctx),
        "C34" => res::c34(ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
}
