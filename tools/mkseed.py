"""mkseed.py FILE: FILE defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], MAIN (Rust) or DEMO (bash)."""
import json, os, subprocess, sys
SH = '''#!/bin/bash
# Builds a small program against /repo; exit 0 if it behaves as documented.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
funcmap = { path = "/repo/funcmap" }
[workspace]
T
export RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/t" CARGO_TERM_COLOR=never
unset RUSTFLAGS
cd "$w" && cargo run -q --offline
'''
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = "/verif/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    for fn, old, new in g["EDITS"]:
        p = "/repo/" + fn
        s = open(p).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    if "MAIN" in g:
        open(d + "/main.rs", "w").write(g["MAIN"].lstrip())
    open(d + "/demo.sh", "w").write(g.get("DEMO", SH))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print(g["ID"], len(diff.splitlines()))
