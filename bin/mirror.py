#!/usr/bin/env python3
"""Mirrors the part of /repo the harness compiles into /verif/build/ws.

Modelled on /opt/vp/offline/mirror.py (the sandbox's own offline build): /repo's workspace does not
resolve offline because of two unreachable git dependencies and `forge`. What differs from /repo:

- Cargo.toml files: minus the lines naming the unreachable git dependencies (salt, mega-evm-v1_0_1),
  minus member bin/mega-evme, minus dev-dependencies/benches (not needed for a dependency).
- crates/mega-evm/src/external/test_utils.rs is left empty (needs the salt crate; it is only compiled
  with the test-utils feature, which the harness does not enable).
- crates/system-contracts/build.rs: /repo's text, with an entry point that leaves out the forge step.

Every other source file is a byte-for-byte copy, rewritten only when its content differs, so that
cargo's mtime-based fingerprints follow content even when /repo was restored with old mtimes.
"""
import os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(HERE, "build")), "ws")
CRATES = ["crates/mega-evm", "crates/state-test", "crates/system-contracts"]
SKIP = {"target", ".git", "cache", "out", "tests", "benches", "examples", "lib"}
OMITTED = {"crates/mega-evm/src/external/test_utils.rs"}

BUILD_MAIN = '''//! Entry point of the mirror: see mirror.py.
#[allow(dead_code, missing_docs, unreachable_pub)]
#[path = "build_upstream.rs"]
mod upstream;

fn main() {
    upstream::generate_without_forge();
}
'''
BUILD_TAIL = '''
pub fn generate_without_forge() {
    let manifest_dir = env::var("CARGO_MANIFEST_DIR").unwrap();
    let out_dir = env::var("OUT_DIR").unwrap();
    let crate_dir = Path::new(&manifest_dir);
    let out_path = Path::new(&out_dir);
%s
    let artifacts_dir = crate_dir.join("artifacts");
    println!("cargo::rerun-if-changed=build_upstream.rs");
    println!("cargo::rerun-if-changed={}", artifacts_dir.display());
    for entry in fs::read_dir(&artifacts_dir).unwrap() {
        println!("cargo::rerun-if-changed={}", entry.unwrap().path().display());
    }
    for config in &contracts {
        let latest_path = artifacts_dir.join(format!("{}-latest.json", config.name));
        let latest: ContractArtifact =
            serde_json::from_str(&fs::read_to_string(&latest_path).unwrap()).unwrap();
        let versions = collect_versioned_artifacts(&artifacts_dir, &format!("{}-", config.name));
        generate_rust_constants(out_path, config, &versions, &latest);
    }
}
'''

def read(rel):
    with open(os.path.join(REPO, rel), "rb") as f:
        return f.read()

def text(rel):
    return read(rel).decode()

def root_manifest():
    t = re.sub(r'^\s*"bin/mega-evme",\n', "", text("Cargo.toml"), flags=re.M)
    t = re.sub(r',\s*"bin/mega-evme"', "", t)
    return re.sub(r"^salt\s*=.*\n", "", t, flags=re.M)

def drop_sections(t, names):
    out, skip = [], False
    for line in t.splitlines(True):
        m = re.match(r"^\s*(\[+[^\]]+\]+)", line)
        if m:
            skip = m.group(1) in names
        if not skip:
            out.append(line)
    return "".join(out)

def member_manifest(rel):
    t = re.sub(r"^salt(\.workspace)?\s*=.*\n", "", text(rel), flags=re.M)
    t = t.replace('["dep:salt"]', "[]")
    return drop_sections(t, {"[dev-dependencies]", "[[bench]]", "[[test]]", "[[example]]"})

def build_upstream():
    t = text("crates/system-contracts/build.rs")
    m = re.search(r"^    let contracts = \[.*?^    \];$", t, flags=re.M | re.S)
    if not m:
        sys.exit("mirror.py: no contracts table in crates/system-contracts/build.rs")
    return t + BUILD_TAIL % m.group(0)

def wanted():
    files = {"Cargo.toml": root_manifest().encode()}
    for crate in CRATES:
        for base, dirs, names in os.walk(os.path.join(REPO, crate)):
            rel_base = os.path.relpath(base, REPO)
            dirs[:] = sorted(d for d in dirs if d not in SKIP or (d == "lib" and "src" in rel_base))
            for name in names:
                rel = os.path.join(rel_base, name)
                src = os.path.join(base, name)
                if rel in OMITTED:
                    files[rel] = b""
                elif rel == "crates/system-contracts/build.rs":
                    files[rel] = BUILD_MAIN.encode()
                elif name == "Cargo.toml":
                    files[rel] = member_manifest(rel).encode()
                elif os.path.islink(src):
                    files[rel] = ("link", os.readlink(src))
                else:
                    files[rel] = read(rel)
    files["crates/system-contracts/build_upstream.rs"] = build_upstream().encode()
    return files

def current(path):
    if os.path.islink(path):
        return ("link", os.readlink(path))
    if os.path.isfile(path):
        with open(path, "rb") as f:
            return f.read()
    return None

def main():
    files = wanted()
    os.makedirs(WS, exist_ok=True)
    for base, dirs, names in os.walk(WS, topdown=False):
        for name in names + [d for d in dirs if os.path.islink(os.path.join(base, d))]:
            p = os.path.join(base, name)
            if os.path.relpath(p, WS) not in files and name != "Cargo.lock":
                os.unlink(p)
        if base != WS and not os.listdir(base):
            os.rmdir(base)
    for rel, entry in files.items():
        p = os.path.join(WS, rel)
        if current(p) == entry:
            continue
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.unlink(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(entry, tuple):
            os.symlink(entry[1], p)
        else:
            with open(p, "wb") as f:
                f.write(entry)

main()
