#!/usr/bin/env python3
"""Mirror the part of /repo that builds offline into WORK/ws (copies, content-compared).

/repo's own workspace cannot be resolved without the network (git dependency `salt`, the bin
crate, and a build script that runs `forge`).  The mirror holds byte-for-byte copies of every
source file of the library crates; what differs:
  * Cargo.toml: lines naming `salt` and the member bin/mega-evme are left out;
  * crates/system-contracts/build.rs: /repo's text in a module, driven by an entry point which
    skips the forge step and calls /repo's own generation functions;
  * of bin/mega-evme, only the sources of the state transition tool (the rest cannot be built);
  * src/external/test_utils.rs (needs `salt`, only compiled under a feature we do not enable).
A file is rewritten only when its content changed, so cargo rebuilds exactly on content changes,
whatever the time stamps in /repo are.
"""
import os, re, shutil, sys

REPO = os.environ.get("MEGA_REPO", "/repo")
CRATES = ["crates/mega-evm", "crates/system-contracts", "crates/state-test"]
SKIP = {"target", ".git", "cache", "out", "tests", "benches", "test", "lib", "examples"}

BUILD_MAIN = """//! Entry point of the mirror: see sync.py.
#[allow(dead_code, missing_docs, unreachable_pub)]
#[path = "build_upstream.rs"]
mod upstream;

fn main() {
    upstream::generate_without_forge();
}
"""
BUILD_TAIL = """
/// Added by sync.py: main() without the forge compile-and-compare step.
pub fn generate_without_forge() {
    let manifest_dir = env::var("CARGO_MANIFEST_DIR").unwrap();
    let out_dir = env::var("OUT_DIR").unwrap();
    let crate_dir = Path::new(&manifest_dir);
    let out_path = Path::new(&out_dir);
%s
    let artifacts_dir = crate_dir.join("artifacts");
    println!("cargo::rerun-if-changed=build_upstream.rs");
    println!("cargo::rerun-if-changed={}", artifacts_dir.display());
    for entry in fs::read_dir(&artifacts_dir).unwrap() {
        println!("cargo::rerun-if-changed={}", entry.unwrap().path().display());
    }
    for config in &contracts {
        let latest_path = artifacts_dir.join(format!("{}-latest.json", config.name));
        let latest: ContractArtifact =
            serde_json::from_str(&fs::read_to_string(&latest_path).unwrap()).unwrap();
        let versions = collect_versioned_artifacts(&artifacts_dir, &format!("{}-", config.name));
        generate_rust_constants(out_path, config, &versions, &latest);
    }
}
"""


def read(rel):
    with open(os.path.join(REPO, rel), "rb") as f:
        return f.read()


def text(rel):
    return read(rel).decode("utf-8")


def wanted():
    root = re.sub(r'^\s*"bin/mega-evme",\n', "", text("Cargo.toml"), flags=re.M)
    root = re.sub(r',\s*"bin/mega-evme"', "", root)
    root = re.sub(r"^salt\s*=.*\n", "", root, flags=re.M)
    files = {"Cargo.toml": ("text", root.encode())}
    for crate in CRATES:
        for base, dirs, names in os.walk(os.path.join(REPO, crate)):
            rb = os.path.relpath(base, REPO)
            dirs[:] = sorted(d for d in dirs if d not in SKIP)
            for n in names:
                rel = os.path.join(rb, n)
                src = os.path.join(base, n)
                if rel == "crates/system-contracts/build.rs":
                    up = text(rel)
                    m = re.search(r"^    let contracts = \[.*?^    \];$", up, flags=re.M | re.S)
                    if not m:
                        sys.exit("sync.py: no contracts table in build.rs")
                    files[rel] = ("text", BUILD_MAIN.encode())
                    files["crates/system-contracts/build_upstream.rs"] = (
                        "text", (up + BUILD_TAIL % m.group(0)).encode())
                elif n == "Cargo.toml":
                    t = re.sub(r"^salt(\.workspace)?\s*=.*\n", "", text(rel), flags=re.M)
                    t = t.replace('["dep:salt"]', "[]")
                    # test and bench targets are not mirrored
                    t = re.sub(r"\[\[(bench|test)\]\]\n(?:(?!\[).*\n?)*", "", t)
                    files[rel] = ("text", t.encode())
                elif os.path.islink(src):
                    files[rel] = ("link", os.readlink(src))
                else:
                    files[rel] = ("text", read(rel))
    # the state transition tool, compiled into the harness for the check of C25
    for base, dirs, names in os.walk(os.path.join(REPO, "bin/mega-evme/src/t8n")):
        dirs.sort()
        for n in names:
            rel = os.path.relpath(os.path.join(base, n), REPO)
            files[rel] = ("text", read(rel))
    return files


def current(path):
    if os.path.islink(path):
        return ("link", os.readlink(path))
    if os.path.isfile(path):
        with open(path, "rb") as f:
            return ("text", f.read())
    return None


def main():
    ws = sys.argv[1]
    os.makedirs(ws, exist_ok=True)
    files = wanted()
    for base, dirs, names in os.walk(ws, topdown=False):
        for n in names + [d for d in dirs if os.path.islink(os.path.join(base, d))]:
            p = os.path.join(base, n)
            if os.path.relpath(p, ws) not in files:
                os.unlink(p)
        if base != ws and not os.listdir(base):
            os.rmdir(base)
    for rel, entry in files.items():
        p = os.path.join(ws, rel)
        if current(p) == entry:
            continue
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.unlink(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if entry[0] == "link":
            os.symlink(entry[1], p)
        else:
            with open(p, "wb") as f:
                f.write(entry[1])


main()
