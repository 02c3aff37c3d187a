#!/usr/bin/env python3
"""Lays out /verif/build/ws: a cargo workspace of the harness crates (symlinks into
/verif/harness) and the crates of /repo's working tree that they exercise.

cardano-multiplatform-lib (CML) cannot be fetched offline, so crates that need it are laid out
file by file: every source file is a symlink into /repo, except manifests and module roots, which
are /repo's text without the lines naming CML or modules that need it. Nothing else is changed,
so the code under test is always /repo's current text."""
import os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
WS = os.path.join(BUILD, "ws")
HARNESS = os.path.join(ROOT, "harness")

CML = r"^cardano-multiplatform-lib\b|^cml-[\w-]+ *="


def drop(pattern):
    return lambda t: "".join(x for x in t.splitlines(True) if not re.search(pattern, x))


def drop_modules(*names):
    n = "|".join(names)
    return drop(rf"^(pub(\([^)]*\))? )?(mod ({n});|use (self::)?({n})::)")


# blockchain-source/src/cardano/mod.rs is the network client. The multiverse sources name only
# CardanoSource (for a StoppableService impl); it is replaced by a stand-in so they compile.
CARDANO_MOD = """\
pub mod time;
mod point;
pub use point::*;
pub use cardano_sdk::protocol::Tip;
pub struct CardanoSource;
impl CardanoSource {
    pub async fn stop(self) {}
}
#[derive(Debug, Clone)]
pub enum CardanoNetworkEvent<B, T> { Tip(T), Block(B) }
#[derive(Debug, Clone)]
pub struct BlockEvent;
"""

STUBS = os.path.join(ROOT, "stubs")


def with_stubs(t):
    """a manifest on the stand-ins for the CML crates, under a name of its own"""
    t = re.sub(r'^name = "([^"]+)"', r'name = "\1-full"', t, count=1, flags=re.M)
    t = re.sub(r"^cardano-utils *=.*$", 'cardano-utils = { package = "cardano-utils-full", path = "../cardano-utils-full" }', t, flags=re.M)
    return re.sub(r"^(cardano-multiplatform-lib|cml-[\w-]+) *=.*$", r'\1 = { path = "../stubs/\1" }', t, flags=re.M)


def with_tool_stubs(t):
    """the manifest of a tool whose other dependencies are stand-ins, too (serde is what the code
    derived by miniserde's names)"""
    t = re.sub(r"^(reqwest|miniserde|structopt) *=(?: *\{[^}]*\}| *\"[^\"]*\")$", r'\1 = { path = "../stubs/\1" }', t, flags=re.M)
    t = re.sub(r"^(cardano-multiplatform-lib|cml-[\w-]+) *=.*$", r'\1 = { path = "../stubs/\1" }', t, flags=re.M)
    return t.rstrip() + '\nserde = { version = "1", features = ["derive"] }\n'


def with_full_source(t):
    """the manifest of a tool that uses blockchain-source"""
    t = re.sub(r"^dcspark-blockchain-source *=.*$", 'dcspark-blockchain-source = { package = "dcspark-blockchain-source-full", path = "../blockchain-source-full" }', t, flags=re.M)
    return t.replace('"../../', '"../')


WHOLE = ["core", "deps", "fraos", "indexed-log-map", "multiverse", "oura-block-fetcher"]
PARTIAL = {
    "utxo-selection": {
        "Cargo.toml": drop(CML + r"|^cardano-utils\b"),
        "src/estimators/mod.rs": drop_modules("cml_fee_estimator", "thermostat_estimator"),
    },
    "cardano-utils": {
        "Cargo.toml": drop(CML),
        "src/lib.rs": drop_modules("multisig_plan", "network_id", "payment_credentials", "utxo"),
    },
    "blockchain-source": {
        "Cargo.toml": drop(CML),
        "src/cardano/mod.rs": lambda t: CARDANO_MOD,
        "src/cardano/configuration.rs": None,
        "src/cardano/event.rs": None,
    },
    # the same crates with all their modules, on stand-ins for the CML crates
    "blockchain-source-full": {"Cargo.toml": with_stubs},
    "cardano-utils-full": {"Cargo.toml": with_stubs},
    "utxo-selection-full": {"Cargo.toml": with_stubs},
    "cardano-net-fetcher": {"Cargo.toml": with_full_source},
    "cip1852-first-address": {"Cargo.toml": with_tool_stubs},
}
FROM = {x: f"cardano-cli-tools/{x}" for x in ("oura-block-fetcher", "cardano-net-fetcher", "cip1852-first-address")}


def source_of(crate):
    return f"{REPO}/{FROM.get(crate, crate.removesuffix('-full'))}"


def rm(path):
    if os.path.islink(path) or os.path.isfile(path):
        os.remove(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    rm(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.symlink(src, dst)


def write(dst, text):
    if os.path.isfile(dst) and not os.path.islink(dst):
        with open(dst) as f:
            if f.read() == text:
                return
    rm(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(text)


def read(p):
    with open(p) as f:
        return f.read()


def partial(crate, edits):
    src, dst = source_of(crate), f"{WS}/{crate}"
    if os.path.islink(dst):
        os.remove(dst)
    want = set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("target", "tests", "benches", "examples")]
        for name in files:
            rel = os.path.relpath(os.path.join(d, name), src)
            if rel == "Cargo.lock" or (rel in edits and edits[rel] is None):
                continue
            want.add(rel)
            if rel in edits:
                write(f"{dst}/{rel}", edits[rel](read(f"{src}/{rel}")))
            else:
                link(f"{src}/{rel}", f"{dst}/{rel}")
    for d, dirs, files in os.walk(dst):
        for name in files:
            if os.path.relpath(os.path.join(d, name), dst) not in want:
                os.remove(os.path.join(d, name))


def main():
    os.makedirs(WS, exist_ok=True)
    for m in WHOLE:
        link(source_of(m), f"{WS}/{m}")
    for c, e in PARTIAL.items():
        partial(c, e)
    link(STUBS, f"{WS}/stubs")
    members = []
    for h in sorted(os.listdir(HARNESS)):
        if os.path.isdir(f"{HARNESS}/{h}"):
            link(f"{HARNESS}/{h}", f"{WS}/{h}")
            members.append(h)
    for x in os.listdir(WS):
        if x not in WHOLE and x not in PARTIAL and x not in members and x not in ("Cargo.toml", "Cargo.lock", "stubs"):
            rm(f"{WS}/{x}")
    mem = "".join(f'    "{m}",\n' for m in members + WHOLE + list(PARTIAL))
    write(f"{WS}/Cargo.toml", f"""[workspace]
resolver = "2"
members = [
{mem}]

[profile.dev]
opt-level = 1
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
incremental = false
panic = "unwind"

[profile.dev.package.common]
opt-level = 3

[profile.dev.package.fraosx]
opt-level = 3

[profile.dev.package.ilmx]
opt-level = 3

[profile.dev.package."*"]
opt-level = 2
debug = false
debug-assertions = true
overflow-checks = true
""")
    if os.path.exists(f"{HARNESS}/Cargo.lock"):
        lock = read(f"{HARNESS}/Cargo.lock")
        have = f"{WS}/Cargo.lock"
        if not os.path.exists(have) or "--reset-lock" in sys.argv:
            write(have, lock)


if __name__ == "__main__":
    main()
