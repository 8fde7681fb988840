#!/usr/bin/env python3
"""plant.py BATCH.py [id...]: makes seeded changes from a batch file, in a scratch copy of /repo.

A batch defines BUGS: id -> dict(prop, edits=[(file, old, new)], demo (Rust main), deps, needs, breaks).
A change is kept (written to /verif/seeded/<id>) when it builds, the stable tests pass, and its
demonstration fails with it and passes without it.  Reports what was rejected and why.
"""
import json, os, subprocess, sys, importlib.util, shutil
SCRATCH = "/tmp/plant/repo"
SEEDED = "/verif/seeded"
LIB = "lib/sia/rust/"

RUN = '''#!/usr/bin/env python3
"""builds main.rs against the crates of the repository in the current directory and runs it in a scratch folder"""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
lib = os.path.join(repo, "lib/sia/rust")
deps = open(os.path.join(here, "deps")).read().replace("@", lib).replace("HERE", here)
with tempfile.TemporaryDirectory() as w:
    os.makedirs(os.path.join(w, "src"))
    shutil.copy(os.path.join(here, "main.rs"), os.path.join(w, "src/main.rs"))
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(w, "Cargo.lock"))
    if os.path.isdir(os.path.join(here, "stubs")):
        os.remove(os.path.join(w, "Cargo.lock"))
        shutil.copytree(os.path.join(here, "stubs"), os.path.join(w, "stubs"))
        for d, _, fs in os.walk(os.path.join(w, "stubs")):
            for f in fs:
                if f == "Cargo.toml":
                    p = os.path.join(d, f)
                    t = open(p).read().replace("@", lib)
                    open(p, "w").write(t)
    open(os.path.join(w, "Cargo.toml"), "w").write("""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
opt-level = 1
debug = 0
[dependencies]
""" + deps)
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(w, "target"), CARGO_INCREMENTAL="0",
             RUSTFLAGS="--cfg sia_verif --cap-lints=allow", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), TMPDIR=w)
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=w, env=e)
    if b.returncode != 0:
        sys.exit(3)
    os.makedirs(os.path.join(w, "play"))
    r = subprocess.run([os.path.join(w, "target/debug/demo")] + [repo], cwd=os.path.join(w, "play"), env=e, stdout=subprocess.DEVNULL)
    sys.exit(0 if r.returncode == 0 else 1)
'''
SH = '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/run.py"\n'
# a history of the page (scenario.json) run on its sources; demo.js looks at the recorded events
PAGE = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
w=$(mktemp -d)
node "$here/run.js" page "$w/out" "$here/scenario.json" "$PWD" && node "$here/demo.js" "$w/out.0"
r=$?
rm -rf "$w"
[ $r = 0 ]
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    spec = importlib.util.spec_from_file_location("batch", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.BUGS)
    if not os.path.isdir(SCRATCH):
        os.makedirs(os.path.dirname(SCRATCH), exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", SCRATCH])
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    for i in ids:
        b = m.BUGS[i]
        sh(["git", "checkout", "-q", "--", "."], SCRATCH)
        sh(["git", "fetch", "-q", "/repo", "HEAD"], SCRATCH)
        sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], SCRATCH)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SCRATCH, f if f.startswith("src/") else LIB + f)
            s = open(p).read()
            if s.count(old) < 1:
                print(i, "REJECTED: text not found in", f, repr(old)[:60]); ok = False; break
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if not ok:
            continue
        patch = sh(["git", "diff"], SCRATCH).stdout
        t = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], SCRATCH, env=env)
        if "test result: FAILED" in t.stdout or "error: could not compile" in t.stdout or t.returncode != 0:
            fails = [x for x in t.stdout.splitlines() if x.endswith("FAILED") or x.startswith("error")]
            print(i, "REJECTED: tests", fails[:6]); continue
        d = os.path.join("/tmp/plant/new", i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = lambda n, s: open(os.path.join(d, n), "w").write(s)
        w("patch.diff", patch)
        if "page" in b:
            w("scenario.json", json.dumps(b["page"]) + "\n"); w("demo.js", b["demo"]); w("demo.sh", PAGE)
            for f in ("run.js", "minireact.js"):
                shutil.copy(os.path.join("/verif/page", f), d)
        else:
            w("main.rs", b["demo"]); w("deps", b["deps"]); w("run.py", RUN); w("demo.sh", SH)
        w("meta.json", json.dumps(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if b.get("stubs"):
            shutil.copytree(b["stubs"], os.path.join(d, "stubs"))
        r1 = sh([os.path.join(d, "demo.sh")], SCRATCH)
        sh(["git", "checkout", "-q", "--", "."], SCRATCH)
        r0 = sh([os.path.join(d, "demo.sh")], SCRATCH)
        if r0.returncode != 0 or r1.returncode == 0 or r1.returncode == 3:
            print(i, "REJECTED: demo clean=%d patched=%d" % (r0.returncode, r1.returncode), (r0.stdout if r0.returncode else r1.stdout)[-1500:]); continue
        shutil.rmtree(os.path.join(SEEDED, i), ignore_errors=True)
        os.makedirs(SEEDED, exist_ok=True)
        shutil.move(d, os.path.join(SEEDED, i))
        print(i, "kept", flush=True)


main()
