#!/usr/bin/env python3
"""check.py ID [--only PHASE:INDEX]: builds the monitors of one property against /repo's working
tree, runs them and writes evidence/ID.json. Exit 0 held, 1 violation (with a VIOLATION line),
anything else: no verdict."""
import json, os, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = f"{ROOT}/build"
WS = f"{BUILD}/ws"
REPLAYS = f"{BUILD}/replays"
sys.path.insert(0, f"{ROOT}/tools")
import mirror  # noqa: E402

# property -> harness crate, level
CRATE = {
    "C0": "fraosx", "C1": "ilmx", "C2": "mvx", "C3": "corex", "C4": "corex",
    "C5": "utxox", "C6": "srcx", "C64": "cipx", "C65": "nodex",
    "C66": "ledgerx", "C67": "ledgerx", "C68": "nodex", "C69": "nodex",
}
# programs of /repo that a property's monitors run
PROGRAMS = {"C68": ["cardano-net-fetcher", "oura-block-fetcher"], "C69": ["cip1852-first-address"]}
FAULT = {"C03", "C05"}
HOST = "x86_64-unknown-linux-gnu"
SAN = {  # variant -> toolchain, RUSTFLAGS, extra cargo args, run environment
    "plain": ("stable", "", [], {}),
    "asan": ("nightly", "-Zsanitizer=address", ["--target", HOST],
             {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=1:handle_sigbus=1:allocator_may_return_null=1"}),
    "tsan": ("nightly", "-Zsanitizer=thread", ["-Zbuild-std", "--target", HOST],
             {"TSAN_OPTIONS": "halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1:report_bugs=1"}),
}


def crate_of(pid):
    return CRATE.get(pid) or CRATE[pid[:2]]


def variants_of(pid):
    return ["plain", "asan", "tsan"] if pid == "C08" else ["plain"]


def base_env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    return e


def build(crate, variant="plain"):
    tc, flags, extra, _ = SAN[variant]
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = tc
    e["CARGO_TARGET_DIR"] = f"{BUILD}/target" if variant == "plain" else f"{BUILD}/target-{variant}"
    if flags:
        e["RUSTFLAGS"] = flags
    cmd = ["cargo", "build", "--offline", "-p", crate] + extra
    if variant != "plain":
        cmd += ["--no-default-features"]
    r = subprocess.run(cmd, cwd=WS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        return None
    d = e["CARGO_TARGET_DIR"]
    return f"{d}/debug/{crate}" if variant == "plain" else f"{d}/{HOST}/debug/{crate}"


def main():
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    for x in os.listdir(REPLAYS):
        if x.startswith(pid + "-"):
            os.remove(f"{REPLAYS}/{x}")
    mirror.main()
    crate = crate_of(pid)
    cov, assumptions, violated, bad = {}, [], 0, 0
    variants = {}
    for x in PROGRAMS.get(pid, []):
        if build(x) is None:
            print(f"{pid}: build of {x} failed: no verdict")
            sys.exit(2)
    for v in variants_of(pid):
        exe = build(crate, v)
        if exe is None:
            print(f"{pid}: build of {crate} ({v}) failed: no verdict")
            sys.exit(2)
        out = f"{BUILD}/{pid}-{v}.json"
        if os.path.exists(out):
            os.remove(out)
        e = base_env()
        e.update(SAN[v][3])
        e["VERIF_SEED"], e["VERIF_TIER"] = str(seed), tier
        if v != "plain":
            e["VERIF_SANITIZER"] = v
        args = [exe, pid, "--out", out, "--replays", REPLAYS]
        if only:
            args += ["--only", only]
        log = f"{REPLAYS}/{pid}-{v}.log"
        with open(log, "w") as lf:
            p = subprocess.Popen(args, cwd=BUILD, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=850 - (time.time() - t0) if tier == "quick" else 3000)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
        # scratch a killed or faulting child could not remove itself
        for base in ("/dev/shm",):
            for x in os.listdir(base):
                if x.startswith(f"verif-{p.pid}-"):
                    shutil.rmtree(os.path.join(base, x), ignore_errors=True)
        text = open(log, errors="replace").read()
        sys.stdout.write(text[-8000:])
        if not text.endswith("\n"):
            print()
        has_line = f"VIOLATION property={pid} " in text
        if rc is None:
            print(f"{pid} ({v}): time ran out: no verdict")
            bad = 4
        elif rc < 0 and not has_line and -rc != signal.SIGKILL:
            print(f"{pid} ({v}): killed by signal {-rc}")
            print(f"VIOLATION property={pid} replay={log}")
            violated += 1
        elif v in ("asan", "tsan") and ("ERROR: AddressSanitizer" in text or "WARNING: ThreadSanitizer" in text) and "out of memory" not in text:
            if not has_line:
                print(f"VIOLATION property={pid} replay={log}")
            violated += 1
        elif rc == 1 and has_line:
            violated += 1
        elif rc != 0:
            print(f"{pid} ({v}): exit {rc}: no verdict")
            bad = bad or 3
        if os.path.exists(out):
            j = json.load(open(out))
            assumptions += [a for a in j["assumptions"] if a not in assumptions]
            if v == "plain":
                cov.update(j["coverage"])
            else:
                variants[v] = j["coverage"]
        if violated or bad:
            break
    if variants:
        cov["sanitizer_runs"] = variants
        cov["evaluations"] = cov.get("evaluations", 0) + sum(x["evaluations"] for x in variants.values())
    if not cov:
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "no result", "samples": []}
    if not only:
        ev = {
            "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
            "level": "fault_enumeration" if pid in FAULT else "exploration",
            "coverage": cov, "assumptions": assumptions,
            "wall_s": round(time.time() - t0, 2), "violations": violated,
        }
        with open(f"{ROOT}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
    sys.exit(1 if violated else bad)


if __name__ == "__main__":
    main()
