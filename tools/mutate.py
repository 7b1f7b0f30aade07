#!/usr/bin/env python3
"""mutate.py WORKER NWORKERS OUT [file..]: small syntactic changes to a scratch copy of /repo; those that compile and pass the
existing tests are run against the checks (cheapest likely ones first) until one alarms. Survivors are printed for review."""
import os, re, subprocess, sys, random, json, shutil
w, nw, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
FIRST = dict(tape="C06 C04 C05", split_reader="C07 C20", overlapping_symbols="C08 C09 C13", ndfa="C10 C13 C11", dfa_compiler="C11 C12 C03",
  symbol_range_dfa="C22 C23 C24", regular_pattern="C01 C14 C21 C25", symbol_range="C19 C02 C15", countable="C18 C02", symbol_reader="C20 C21",
  tokenizer="C04 C05 C03 C26 C28", tagged_stream="C16 C17", matches="C27 C01 C21", prepare="C21", state_machine="C10 C11 C21", pattern_matcher="C23")
ALL = ["C%02d" % i for i in range(1, 29)]
root = "/tmp/mut/%d" % w
shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
subprocess.run("git -C /repo archive HEAD | tar x -C %s --one-top-level=repo; mkdir -p %s/h; cp -a /verif/harness/src /verif/harness/deep /verif/harness/fast /verif/harness/Cargo.toml /verif/harness/Cargo.lock %s/h/; sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/h/Cargo.toml" % (root, root, root, root, root), shell=True, check=True)
env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_ROOT=root + "/v", VERIF_SCALE=os.environ.get("VERIF_SCALE", "0.2"), CARGO_BUILD_JOBS="3")
os.makedirs(root + "/v")
def mutants(text):
    end = text.find("#[cfg(test)]")
    body = text if end < 0 else text[:end]
    pos = 0
    for line in body.split("\n"):
        start = pos; pos += len(line) + 1
        code = line.split("//")[0]
        if not code.strip() or code.strip().startswith(("use ", "pub use", "#", "pub mod", "impl", "where", "extern", "pub trait", "pub struct", "type ", "*")): continue
        def rep(a, b, new): return (start + a, start + b, new)
        table = [(r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
                 (r" ?\+ ?1\b", ["", "+2"]), (r" ?- ?1\b", ["", "-2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
                 (r"\.lowest\b", [".highest"]), (r"\.highest\b", [".lowest"]), (r"\b0\.\.", ["1.."]), (r"\bSome\(([^()]*(\([^()]*\))?[^()]*)\)", ["None"]), (r"!(?=[\w(])(?<!\w!)", [""]),
                 (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r"\.next\(\)", [".prev()"]), (r"\.prev\(\)", [".next()"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\.len\(\)", [".len()+1"]),
                 (r"\b[2-9]\b", ["1", "3"]), (r"(?<![\w.])0(?![\w.x])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"\.min\(\)", [".max()"]), (r"\.cmp\(", [".cmp(&"]), (r"\bif (?!let)([^{]*)\{", ["if true {", "if false {"]), (r"\.is_some\(\)", [".is_none()"]), (r"first_\w+", []), (r"read_index", ["last_symbol_index"]), (r"last_symbol_index", ["first_symbol_index"]), (r"\.end\b", [".start"]), (r"\.start\b(?!\()", [".end"]), (r"Less", ["Greater"]), (r"Greater", ["Less"]), (r"Equal\b", ["Less", "Greater"])]
        for rx, news in table:
            for m in re.finditer(rx, code):
                for n in news: yield rep(m.start(), m.end(), n)
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "//", "}")) and s.count("(") == s.count(")"): yield rep(0, len(line), "")
        if s.startswith("result.") or s == "current_state": pass
def sh(cmd, t, cwd):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, "timeout"
files = sys.argv[4:] or [f[:-3] for f in sorted(os.listdir("/repo/src")) if f.endswith(".rs") and f[:-3] not in ("lib", "regular_expression", "dfa_builder")]
todo = []
for f in files:
    t = open("/repo/src/%s.rs" % f).read()
    for m in mutants(t): todo.append((f, t, m))
random.Random(7).shuffle(todo)
todo = todo[w::nw]
log = open(out, "a")
env["CARGO_TARGET_DIR"] = root + "/ht"
sh("cargo build --release --offline --bins", 3000, root + "/h")
for k, (f, t, (a, b, n)) in enumerate(todo):
    p = "%s/repo/src/%s.rs" % (root, f)
    new = t[:a] + n + t[b:]
    ln = t[:a].count("\n") + 1
    open(p, "w").write(new)
    env["CARGO_TARGET_DIR"] = root + "/rt"
    rc, o = sh("cargo build --offline", 120, root + "/repo")
    res = None
    if rc != 0: res = "nocompile"
    else:
        rc, o = sh("ulimit -v 8000000; timeout 60 cargo test --offline --lib", 200, root + "/repo")
        if rc != 0: res = "tests"
    if res is None:
        env["CARGO_TARGET_DIR"] = root + "/ht"
        first = FIRST.get(f, "C01").split()
        for group in (first, [c for c in ALL if c not in first]):
            rc, o = sh("cargo build --release --offline " + " ".join("--bin " + c.lower() for c in group), 1500, root + "/h")
            if rc != 0: res = "harness-nocompile"; break
            for c in group:
                rc, o = sh("%s/ht/release/%s check" % (root, c.lower()), 600, root)
                if rc != 0: res = "%s rc=%d" % (c, rc); break
            if res: break
    open(p, "w").write(t)
    old = t.split("\n")[ln - 1].strip()
    if res is None or res.startswith(("C", "h")):
        log.write(json.dumps(dict(res=res or "SURVIVED", file=f, line=ln, old=old, new=(t[:a] + n + t[b:]).split("\n")[ln - 1].strip())) + "\n"); log.flush()
    if k % 50 == 0: log.write(json.dumps(dict(progress=[k, len(todo)])) + "\n"); log.flush()
log.write(json.dumps(dict(done=True)) + "\n")
