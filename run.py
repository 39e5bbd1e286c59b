#!/usr/bin/env python3
"""Builds the harness against /repo and runs the check of one property.

./run.py C11 [--tier quick|thorough] [--seed N] [--stream NAME --case N] [--only STEP]
./run.py --setup            builds everything

exit 0: held on everything observed; 1: VIOLATION line; 2: inconclusive (build failure, time, too little observed)
"""
import fcntl, glob, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
CFG = '--cfg getrandom_backend="custom"'
TRIPLE = "x86_64-unknown-linux-gnu"
NIGHTLY = "nightly"

# instrumented builds: toolchain, RUSTFLAGS, cargo arguments, binary, run-time options
BUILDS = {
    "checked": dict(tc="stable", flags=CFG, args=["build", "--profile", "checked"], bin="checked/vh", env={}),
    "plain": dict(tc="stable", flags=CFG, args=["build", "--profile", "plain"], bin="plain/vh", env={}),
    "asan": dict(
        tc=NIGHTLY,
        flags=CFG + " -Zsanitizer=address -Cforce-frame-pointers=yes",
        args=["build", "--profile", "san", "--target", TRIPLE],
        bin=TRIPLE + "/san/vh",
        env={"ASAN_OPTIONS": "halt_on_error=1:abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1"},
    ),
    "tsan": dict(
        tc=NIGHTLY,
        flags=CFG + " -Zsanitizer=thread",
        args=["build", "--profile", "san", "--target", TRIPLE, "-Zbuild-std"],
        bin=TRIPLE + "/san/vh",
        env={"TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1:history_size=4"},
    ),
    "miri": dict(
        tc=NIGHTLY,
        flags=CFG,
        args=["miri", "run", "--profile", "dev"],
        bin=None,
        env={},
    ),
}
# steps of a check: build, harness arguments, environment
STEPS = {
    "C27": [("checked", {}), ("tsan", {"VH_SCALE": "san"})],
    "C28": [
        ("checked", {}),
        ("asan", {"VH_SCALE": "san"}),
        # the interpreter is slow and has one thread: several processes, each with some of the streams
        (
            "miri",
            {"VH_SCALE": "miri"},
            ["c28_index", "c28_hands", "c28_bits", "c28_values", "c28_invalid_runs,c28_valid_runs", "c28_miri_approx"],
        ),
    ],
}
# another build the check compares with
OTHER = {"C34": "plain"}
SAN_REPORT = re.compile(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|ERROR: ThreadSanitizer|error: Undefined Behavior|unsafe precondition\(s\) violated|error: unsupported operation: .*data race)")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def env_for(kind):
    b = BUILDS[kind]
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(
        RUSTUP_TOOLCHAIN=b["tc"],
        RUSTFLAGS=b["flags"],
        CARGO_TARGET_DIR=TARGET if kind in ("checked", "plain") else os.path.join(TARGET, kind),
        CARGO_NET_OFFLINE="true",
        VH_VERIF=VERIF,
    )
    if kind == "miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    e.update(b["env"])
    return e


def forget(kind):
    """the library is compiled again whatever the time stamps of /repo say"""
    e = env_for(kind)
    for p in glob.glob(os.path.join(e["CARGO_TARGET_DIR"], "**", ".fingerprint", "pokers-*"), recursive=True):
        shutil.rmtree(p, ignore_errors=True)


def build(kind):
    b = BUILDS[kind]
    e = env_for(kind)
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock-" + kind), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        forget(kind)
        if b["bin"] is None:
            # the interpreter's standard library, once
            subprocess.run(["cargo", "miri", "setup"], cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return None
        p = subprocess.run(["cargo"] + b["args"] + ["--offline", "--locked"], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            print(f"INCONCLUSIVE the {kind} build failed")
            sys.exit(2)
    return os.path.join(e["CARGO_TARGET_DIR"], b["bin"])


def replay(prop, args, kind, body):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".txt")
    with open(path, "w") as f:
        f.write(f"property {prop}\nreplay: ./run.py {prop} {' '.join(args)} --only {kind}\n\n{body}\n")
    return path


def limits():
    # a runaway allocation is to fail in the process, not to exhaust the machine
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def cores_off():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def step(prop, kind, extra, args, deadline, groups=None):
    exe = build(kind)
    other = build(OTHER[prop]) if prop in OTHER else None
    procs = []
    t0 = time.time()
    for i, g in enumerate(groups or [None]):
        e = env_for(kind)
        e.update(extra)
        if prop in OTHER:
            e["VH_OTHER"] = other
        if g:
            e["VH_ONLY"] = g
        part = os.path.join(VERIF, "evidence", f".{prop}.{kind}.{i}.json")
        if os.path.exists(part):
            os.unlink(part)
        e["VH_EVIDENCE"] = part
        if exe:
            cmd = [exe, prop] + args
        else:
            cmd = ["cargo"] + BUILDS[kind]["args"] + ["--offline", "--locked", "--", prop] + args
        base = os.path.join(TARGET, f"{prop}.{kind}.{i}")
        with open(base + ".out", "w") as out, open(base + ".err", "w") as err:
            p = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=out, stderr=err, start_new_session=True, preexec_fn=limits if kind == "checked" else cores_off)
        procs.append((p, base, part))
    late = False
    for p, _, _ in procs:
        try:
            p.wait(timeout=max(10, deadline - time.time()))
        except subprocess.TimeoutExpired:
            late = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    evs, status = [], 0
    for p, base, part in procs:
        out = open(base + ".out", errors="replace").read()
        errtxt = open(base + ".err", errors="replace").read()
        sys.stdout.write(out)
        if p.returncode == 1 and "VIOLATION property=" + prop in out:
            sys.exit(1)
        if SAN_REPORT.search(errtxt) or (p.returncode < 0 and -p.returncode in CRASH) or p.returncode in (134, 139):
            m = SAN_REPORT.search(errtxt)
            at = max(0, m.start() - 300) if m else max(0, len(errtxt) - 4000)
            body = f"{kind} build: {'report: ' + m.group(0) if m else 'the process died'} (exit status {p.returncode})\n\n{errtxt[at:at + 8000]}"
            path = replay(prop, args, kind, body)
            print(body[:5000])
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
        if p.returncode != 0:
            status = 2
            print(errtxt[-4000:])
            if "INCONCLUSIVE" not in out:
                print(f"INCONCLUSIVE property={prop} the {kind} run {'did not finish in time' if late else 'ended with exit status %d' % p.returncode}")
        elif os.path.exists(part):
            evs.append(json.load(open(part)))
            os.unlink(part)
    if status:
        sys.exit(status)
    if not evs:
        return None
    ev = evs[0]
    for x in evs[1:]:
        add(ev, x, "")
    ev["wall_s"] = round(time.time() - t0, 3)
    return ev


def add(ev, p, prefix):
    for f in ("evaluations", "distinct_nontrivial", "known_findings_seen"):
        ev["coverage"][f] += p["coverage"][f]
    ev["coverage"]["samples"] += p["coverage"]["samples"][:2]
    for t, v in p["coverage"].items():
        if t not in ev["coverage"]:
            ev["coverage"][prefix + t] = v
        elif prefix and t not in ("samples", "rule", "exhaustive", "evaluations", "distinct_nontrivial", "known_findings_seen"):
            ev["coverage"][prefix + t] = v
        elif not prefix and isinstance(v, int) and t not in ("exhaustive", "evaluations", "distinct_nontrivial", "known_findings_seen"):
            ev["coverage"][t] += v
    if prefix:
        ev["coverage"][prefix + "evaluations"] = p["coverage"]["evaluations"]
    ev["assumptions"] += [x for x in p["assumptions"] if x not in ev["assumptions"]]


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        for k in BUILDS:
            build(k)
        print("built")
        return
    prop = a[0]

    def opt(n, d=None):
        return a[a.index(n) + 1] if n in a else d

    tier = opt("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = opt("--seed") or os.environ.get("VERIF_SEED") or "1"
    args = ["--tier", tier, "--seed", str(int(seed))]
    one = opt("--stream") is not None
    if one:
        args += ["--stream", opt("--stream"), "--case", opt("--case", "0")]
    only = opt("--only")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    deadline = time.time() + (860 if tier == "quick" else 3400)
    parts = []
    for kind, extra, *groups in STEPS.get(prop, [("checked", {})]):
        if only and kind != only:
            continue
        if one and not only and kind != "checked":
            continue
        ev = step(prop, kind, extra, args, deadline, groups[0] if groups and not one else None)
        if ev:
            parts.append((kind, ev))
    if parts and not one and not only:
        kind, ev = parts[0]
        for k, p in parts[1:]:
            add(ev, p, k + "_")
            ev["wall_s"] = round(ev["wall_s"] + p["wall_s"], 3)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


main()
