#!/usr/bin/env python3
"""Systematic source mutation of /repo in scratch copies, to find bugs the existing tests let pass.

  mutate.py gen  OUT.jsonl                 enumerate all operator mutants of the library sources
  mutate.py test IN.jsonl OUT.jsonl        run the existing tests on each; OUT gets the survivors (resumable)
  mutate.py check IN.jsonl OUT.jsonl [C..] run the quick checks of the file's properties (or the given ones) on each
Scratch copies live in /tmp/mut.
"""
import json, os, re, subprocess, sys, threading, queue, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/mut"
BASE = os.environ.get("BASE", "/repo")
FILES = """bit_vec/fast_rs_vec/bitset.rs bit_vec/fast_rs_vec/iter.rs bit_vec/fast_rs_vec/mod.rs bit_vec/fast_rs_vec/select.rs
bit_vec/mask.rs bit_vec/mod.rs bit_vec/sparse.rs elias_fano/mod.rs rmq/binary_rmq/mod.rs rmq/fast_rmq/mod.rs
trees/bp/builder.rs trees/bp/lookup.rs trees/bp/lookup_query.rs trees/bp/mod.rs trees/mmt.rs trees/mod.rs
util/elias_fano_iter.rs util/general_iter.rs util/pdep.rs wavelet/mod.rs""".split()
CHECKS = {  # properties to try, most likely first
    "bit_vec/fast_rs_vec/bitset.rs": "C07 C22 C21 C20", "bit_vec/fast_rs_vec/iter.rs": "C07 C20 C08 C22 C25",
    "bit_vec/fast_rs_vec/mod.rs": "C05 C06 C07 C08 C24 C21 C22 C23", "bit_vec/fast_rs_vec/select.rs": "C06 C07 C22 C09 C25",
    "bit_vec/mask.rs": "C04 C21 C02", "bit_vec/mod.rs": "C01 C02 C03 C04 C24 C20 C21 C23 C05", "bit_vec/sparse.rs": "C11 C21 C24",
    "elias_fano/mod.rs": "C10 C09 C11 C24 C20 C21 C25", "rmq/binary_rmq/mod.rs": "C12 C21 C24", "rmq/fast_rmq/mod.rs": "C12 C21 C24 C25",
    "trees/bp/builder.rs": "C19", "trees/bp/lookup.rs": "C16 C22 C17", "trees/bp/lookup_query.rs": "C16 C22 C17",
    "trees/bp/mod.rs": "C17 C18 C19 C16 C21 C24 C25", "trees/mmt.rs": "C16 C17 C18 C24 C21 C25", "trees/mod.rs": "C17 C18 C19",
    "util/elias_fano_iter.rs": "C09 C20", "util/general_iter.rs": "C20 C02", "util/pdep.rs": "C22 C06",
    "wavelet/mod.rs": "C13 C14 C15 C20 C21 C24 C22 C25",
}
RULES = [
    (r" <= ", [" < "]), (r" < ", [" <= "]), (r" >= ", [" > "]), (r" > ", [" >= "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ 1\b(?! ?[*/])", [""]), (r" - 1\b(?! ?[*/])", [""]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]),
    (r" \* ", [" / "]), (r" / ", [" % "]), (r" % ", [" / "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & ", " ^ "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \|= ", [" &= ", " ^= "]), (r" &= ", [" |= "]), (r"\.\.=", [".."]), (r"(?<=[\w)\]])\.\.(?=[\w(])", ["..="]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"count_ones", ["count_zeros"]), (r"count_zeros", ["count_ones"]), (r"rank0\b", ["rank1"]), (r"rank1\b", ["rank0"]),
    (r"(?<=[( \[])!(?=[\w(])", [""]), (r"(?<![\w.\[<])(\d+)(?![\w.>])", ["+1", "-1"]),
    (r"\bis_some\b", ["is_none"]), (r"\bis_none\b", ["is_some"]), (r"\.rev\(\)", [""]), (r"div_ceil", ["div_euclid"]),
]
def code_lines(path):
    out = []
    intest = False
    for i, l in enumerate(open(path).read().split("\n")):
        s = l.strip()
        if s.startswith("#[cfg(test)]"):
            break
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("#!") or s.startswith("use ") or "debug_assert" in s or s.startswith("assert"):
            continue
        if s.startswith('"') or "macro_rules" in s:
            continue
        out.append((i, l))
    return out
def gen(outp):
    n = 0
    with open(outp, "w") as o:
        for f in FILES:
            for i, l in code_lines(f"{BASE}/src/{f}"):
                code = l.split(" //")[0]
                muts = []
                for pat, reps in RULES:
                    for m in re.finditer(pat, code):
                        for rep in reps:
                            if rep in ("+1", "-1"):
                                v = int(m.group(1)) + int(rep)
                                if v < 0:
                                    continue
                                r = str(v)
                            else:
                                r = rep
                            muts.append(code[:m.start()] + r + code[m.end():])
                s = code.strip()
                ind = code[:len(code) - len(code.lstrip())]
                if re.match(r"^[\w.*\[\]() ]+ ?[-+|&^]?= [^;]*;$", s) and not s.startswith("let") or re.match(r"^[\w.\[\]]+\([^;]*\);$", s):
                    muts.append(ind + ";")
                m = re.match(r"^(\} else )?if (?!let)(.*) \{$", s)
                if m and "&&" not in s:
                    muts.append(f"{ind}{m.group(1) or ''}if false && ({m.group(2)}) {{")
                    muts.append(f"{ind}{m.group(1) or ''}if true || ({m.group(2)}) {{")
                seen = set()
                for x in muts:
                    if x != code and x not in seen:
                        seen.add(x)
                        o.write(json.dumps(dict(id=n, file=f, line=i, old=l, new=x + l[len(code):])) + "\n")
                        n += 1
    print(n)
def load(p):
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []
def apply(repo, m):
    p = f"{repo}/src/{m['file']}"
    t = open(f"{BASE}/src/{m['file']}").read().split("\n")
    # the line may have moved a little since the mutant was generated
    i = min((i for i, l in enumerate(t) if l == m["old"]), key=lambda i: abs(i - m["line"]), default=None)
    if i is None:
        return False
    t[i] = m["new"]
    open(p, "w").write("\n".join(t))
    return True
def restore(repo, m):
    shutil.copy(f"{BASE}/src/{m['file']}", f"{repo}/src/{m['file']}")
    os.utime(f"{repo}/src/{m['file']}")
def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ""
CONF = [("fallback", "--features serde", "x86-64"), ("all", "--all-features", "x86-64-v4")]
def test_env(w, c, cpu):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="0", RUSTFLAGS=f"-C target-cpu={cpu} -A warnings", RUSTDOCFLAGS=f"-C target-cpu={cpu}",
             CARGO_TARGET_DIR=f"{SCR}/w{w}/target/{c}", CARGO_BUILD_JOBS="2", RUST_TEST_THREADS="2")
    return e
def test_one(w, m):
    repo = f"{SCR}/w{w}"
    apply(repo, m)
    try:
        for kind in ("--lib", "--doc"):
            for c, feat, cpu in CONF:
                cmd = ["bash", "-c", f"ulimit -v 6000000; exec cargo test {kind} --offline -q {feat}"]
                rc, out = run(cmd, repo, test_env(w, c, cpu), 150)
                if rc != 0:
                    return "killed" if "error[" not in out and "could not compile" not in out else "nocompile"
        return "survived"
    finally:
        restore(repo, m)
def test(inp, outp, workers=8):
    done = {r["id"] for r in load(outp)}
    q = queue.Queue()
    for m in load(inp):
        if m["id"] not in done:
            q.put(m)
    lock = threading.Lock()
    o = open(outp, "a")
    def work(w):
        repo = f"{SCR}/w{w}"
        if not os.path.exists(repo):
            os.makedirs(SCR, exist_ok=True)
            subprocess.run(["true"]) if False else \
                subprocess.run(f"mkdir -p {repo} && cd {BASE} && tar c --exclude=./target --exclude=./.git . | tar x -C {repo}", shell=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            m["res"] = test_one(w, m)
            with lock:
                o.write(json.dumps(m) + "\n"); o.flush()
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
def check(inp, outp, props):
    done = {r["id"] for r in load(outp)} | set(map(int, os.environ.get("SKIP", "").split()))
    vv, repo = f"{SCR}/verif", f"{SCR}/crepo"
    if not os.path.exists(repo):
        subprocess.run(f"mkdir -p {repo} && cd {BASE} && tar c --exclude=./target --exclude=./.git . | tar x -C {repo}", shell=True)
    subprocess.run(f"mkdir -p {vv} && cd /verif && tar c --exclude=./mc/target --exclude=./seeded --exclude=./.git --exclude=./work . | tar x -C {vv} && sed -i 's#\"/repo\"#\"{repo}\"#; s#\\.\\./\\.\\./repo#{repo}#' {vv}/mc/Cargo.toml", shell=True)
    o = open(outp, "a")
    for m in load(inp):
        if m["res"] != "survived" or m["id"] in done:
            continue
        if not apply(repo, m):
            continue
        m["caught"] = []
        m["log"] = ""
        for p in (props or CHECKS[m["file"]].split()):
            t = time.time()
            rc, out = run(["./check", p, "quick"], vv, dict(os.environ), 600)
            m["log"] += f"{p}:{rc}:{time.time()-t:.0f}s "
            if rc != 0:
                m["caught"].append(p)
                m["rc"] = rc
                m["out"] = out[-400:]
                break
        restore(repo, m)
        o.write(json.dumps(m) + "\n"); o.flush()
        print(m["id"], m["file"], m["line"] + 1, m["new"].strip(), "->", m["caught"], m["log"], flush=True)
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen":
        gen(a[2])
    elif a[1] == "test":
        test(a[2], a[3])
    else:
        check(a[2], a[3], a[4:])
