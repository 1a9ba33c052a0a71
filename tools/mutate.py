#!/usr/bin/env python3
"""mutate.py N [SEED] [FILE-SUBSTRING]: a mutation campaign, to find what no check sees.

Works only in /tmp/mut (a clone of /repo and a copy of this folder that points at it).
Draws N small edits of the library, keeps those that build and pass its tests, and runs
the checks that the file concerns until one reports a violation.  Results are appended to
/tmp/mut/log; edits that no check reports are for a human to look at (most change nothing).
"""
import os, random, re, subprocess, sys, time, json

N = int(sys.argv[1]); SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1
ONLY = sys.argv[3] if len(sys.argv) > 3 else ""
W = "/tmp/mut" if len(sys.argv) < 5 else sys.argv[4]
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="0", VERIF_SEED="1", VERIF_TIER="quick")

def sh(c, cwd, t=1200, **k):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=dict(env, **k), capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

os.makedirs(W, exist_ok=True)
if not os.path.exists(W + "/repo"):
    sh(f"git clone -q /repo {W}/repo; cp /opt/vp/Cargo.lock {W}/repo/Cargo.lock", "/")
sh(f"git fetch -q origin; git reset -q --hard $(git -C /repo rev-parse HEAD)", W + "/repo")
sh(f"rsync -a --delete --exclude target --exclude seeded --exclude .git --exclude evidence /verif/ {W}/verif/; mkdir -p {W}/verif/evidence", "/")
sh(f"sed -i 's#\"/repo\"#\"{W}/repo\"#' {W}/verif/mc/*/Cargo.toml", "/")

ALLC = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P25 P26 P27 P28 P29 P30".split()
CORE = "P01 P02 P03 P04 P05 P12 P26 P29 P30".split()
REL = [
    ("src/ctor/adapter", "P17 P18 P23 P25 P05"), ("src/ctor/affix", "P05"), ("src/ctor/array", "P25 P08"), ("src/ctor/slice", "P25 P08"), ("src/ctor/vec", "P25 P08"),
    ("src/ctor/branch", "P05 P17"), ("src/ctor/collect", "P06"), ("src/ctor/dthen", "P19"), ("src/ctor/enclose", "P05"), ("src/ctor/extract", "P26 P16"),
    ("src/ctor/into", "P17 P05"), ("src/ctor/longest", "P08 P25"), ("src/ctor/map", "P03 P16"), ("src/ctor/opt", "P05"), ("src/ctor/or", "P05"), ("src/ctor/pat", "P05 P09"),
    ("src/ctor/repeat", "P06"), ("src/ctor/sep", "P07 P05"), ("src/ctor/then", "P05"), ("src/ctor.rs", "P18 P17 P23 P19 P05 P25"),
    ("src/ctx/guard", "P21"), ("src/ctx/policy", "P12 P29 P22 P14 P13"), ("src/ctx/regex", "P22 P14 P29 P13 P21"), ("src/ctx.rs", "P13 P26 P22 P03"),
    ("src/iter", "P15 P14"), ("src/span", "P14 P15"), ("src/map", "P16"), ("src/macro", "P20"), ("src/err", "P24"), ("src/lib", "P16 P18 P20 P26"), ("src/log", "P24"),
    ("src/neu/cond", "P27"), ("src/neu", "P10 P11 P27 P28 P30 P29"), ("src/regex/rec", "P18 P23"), ("src/regex/assert", "P09"), ("src/regex/anchor", "P09"),
    ("src/regex/adapter", "P17 P25 P19 P23"), ("src/regex/into", "P17"), ("src/regex/consume", "P09"), ("src/regex/literal", "P09"), ("src/regex", "P09 P17 P18 P19 P05"),
]

def checks(f):
    for k, v in REL:
        if f.startswith(k):
            r = v.split()
            return r + [c for c in CORE if c not in r]
    return CORE

OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"),
    (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\.\.=", ".."),
    (r" \+= ", " -= "), (r" \+= ", " = "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\bself\.left\b", "self.right"), (r"\bself\.min\b", "0"), (r"\bself\.skip\b", "true"),
    (r"!self\.", "self."), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\bif ", "if true || "), (r"\bif ", "if false && "), (r"\bbeg\b", "end"), (r"\bend\b", "beg"), (r"\boffset\b", "0"), (r"\.len\(\)", ".len() + 1"),
    (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\bwhile ", "if "), (r"\bfor (.*) in (.*) \{", r"for \1 in (\2).skip(1) {"), (r"\bpeekable\(\)", "skip(1).peekable()"),
    (r"\bsaturating_sub\b", "wrapping_sub"), (r"\bunwrap_or_default\(\)", "unwrap()"), (r"Ok\(", "Err(Error::Uid(9)).or(Ok("), (r"ctx\.set_offset\([^;]*\);", ""), (r"guard\.process_ret\(([^;]*)\)", r"\1"),
    (r"\.orig_sub\(([^,]*), ([^)]*)\)", r".orig_sub(\2, \1)"), (r"_be_", "_le_"), (r"_le_", "_be_"),
    ("DELETE", ""), ("SWAP", ""),
]

def sites():
    out = []
    for d, _, fs in os.walk(W + "/repo/src"):
        for f in fs:
            p = os.path.join(d, f); rel = os.path.relpath(p, W + "/repo")
            if not f.endswith(".rs") or ONLY not in rel:
                continue
            L = open(p).read().split("\n"); test = False
            for i, l in enumerate(L):
                s = l.strip()
                if s.startswith("#[cfg(test)]") or s.startswith("mod test"):
                    test = True
                if test or not s or s.startswith(("//", "#", "use ", "pub use ", "impl", "pub trait", "pub struct", "pub enum", "where", "pub mod", "mod ", "macro_rules", "crate::debug", "debug_", "trace_", "crate::neure")):
                    continue
                for k, (a, b) in enumerate(OPS):
                    if a == "DELETE":
                        if s.endswith(";") and not s.startswith(("let ", "return", "type ", "fn ", "pub ", "const ", "}")):
                            out.append((rel, i, k, 0))
                    elif a == "DUP":
                        if s.endswith(";") and not s.startswith(("let ", "return", "type ", "fn ", "pub ", "const ", "}", "break", "continue")):
                            out.append((rel, i, k, 0))
                    elif a == "SWAP":
                        if i + 1 < len(L) and s.endswith(";") and L[i + 1].strip().endswith(";") and not s.startswith(("type ", "fn ", "pub ")):
                            out.append((rel, i, k, 0))
                    elif "fn " not in l and "=>" not in l[:0]:
                        for n, m in enumerate(re.finditer(a, l)):
                            out.append((rel, i, k, n))
    return out

def mutate(rel, i, k, n):
    p = f"{W}/repo/{rel}"; L = open(p).read().split("\n"); a, b = OPS[k]; l = L[i]
    if a == "DELETE": new = [""]
    elif a == "DUP": new = [l, l]
    elif a == "SWAP": L[i], L[i + 1] = L[i + 1], L[i]; new = [L[i]]
    else:
        m = list(re.finditer(a, l))[n]
        r = m.expand(b)
        t = l[:m.start()] + r + l[m.end():]
        if "Err(Error::Uid(9)).or(Ok(" in r:
            return None
        new = [t]
    L[i:i + 1] = new
    open(p, "w").write("\n".join(L))
    return l.strip() + "  ==>  " + (" / ".join(x.strip() for x in new) if a != "SWAP" else "swapped with " + L[i].strip())

def log(*a):
    t = " ".join(str(x) for x in a)
    print(t, flush=True); open(W + "/log", "a").write(t + "\n")

S = sites(); random.seed(SEED); random.shuffle(S)
# one edit per file and kind at most every so often, so that the draw is spread out
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
T = dict(CARGO_TARGET_DIR=W + "/target")
done = kept = 0; stat = {}
for site in S:
    if kept >= N: break
    sh("git checkout -q -- .", W + "/repo")
    what = mutate(*site)
    if what is None: continue
    r, o = sh("cargo check -q --lib --offline", W + "/repo", 200, **T)
    if r: continue
    r, o = sh("cargo test -q --offline --lib --tests --no-fail-fast", W + "/repo", 120, **T)
    if r: stat["tests"] = stat.get("tests", 0) + 1; continue
    r, o = sh("cargo test -q --offline --doc", W + "/repo", 200, **T)
    if r: stat["tests"] = stat.get("tests", 0) + 1; continue
    r, o = sh("cargo test -q --offline --no-default-features --lib --tests", W + "/repo", 120, **T)
    if r: stat["tests"] = stat.get("tests", 0) + 1; continue
    kept += 1; t0 = time.time(); res = None
    for c in checks(site[0]):
        r, o = sh(f"bash run.sh {c} quick", W + "/verif", 900)
        if r == 1 and "VIOLATION" in o: res = f"caught by {c}"; break
        if r: res = f"ERROR {c} rc={r} {o[-300:]}"; break
    log(f"[{kept}] {res or 'SURVIVED ' + ' '.join(checks(site[0]))} {time.time() - t0:.0f}s | {site[0]}:{site[1] + 1} {what}")
    stat[(res or "SURVIVED").split()[0]] = stat.get((res or "SURVIVED").split()[0], 0) + 1
log("done", stat, "of", len(S), "sites")
sh("git checkout -q -- .", W + "/repo")
