#!/usr/bin/env python3
"""Mutation analysis of the checks: mutate.py OUT [file-substring ...]   (never called by a check)

Makes small mechanical changes to copies of /repo, one at a time; those that compile and pass the
tests are given to the checks of the file's properties. Prints survivors: either the change keeps
the properties, or a check misses it. Copies are bind-mounted over /repo in a mount namespace."""
import re, os, sys, json, subprocess, shutil, random, threading, queue
W = int(os.environ.get("WORKERS", "4"))
CORES = os.cpu_count()
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
TMP = "/tmp/mut"
F = {
 "abs": "C03 C19", "acos": "C08 C21", "asin": "C08 C21", "atan": "C06 C07", "atan2": "C07 C21", "ceil": "C01", "copysign": "C03", "cos": "C04 C05",
 "cosh": "C11 C21", "div_euclid": "C15 C21", "exp": "C11 C13 C20", "floor": "C01 C04", "fract": "C02 C13", "hypot": "C09 C21", "inv": "C10 C28 C20", "invsqrt": "C09 C28 C20",
 "ln": "C12 C13 C20", "log": "C12 C21", "log10": "C12", "log2": "C12", "mul_add": "C17", "powf": "C13 C21 C20", "powi": "C14 C20", "recip": "C10 C20", "rem_euclid": "C15 C21", "round": "C01",
 "signum": "C03", "sin": "C04", "sin_cos": "C04", "sqrt": "C09", "tan": "C05 C21", "trunc": "C01 C02"}
def props(path):
    b = os.path.basename(path)[:-3]
    if "/float/" in path: return F[b].split() + ["C19", "C34"]
    return {"float": "C16 C17 C18 C19 C03 C20 C13 C39 C35", "f32ext": "C19 C04", "quaternion": "C27 C28 C29 C30 C31 C37 C35 C34", "vector": "C36 C25 C22", "component": "C37",
            "iter": "C22 C36", "vector2d": "C22 C23 C24 C26 C25 C37 C35", "vector3d": "C22 C23 C24 C26 C25 C37 C35", "commutative": "C23", "mean": "C32 C33", "stddev": "C32", "trim": "C33 C37", "variance": "C32"}.get(b, "C34").split()

def body(text):
    return text.split("#[cfg(test)]")[0]

SUBS = [
 (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" % ", [" * "]),
 (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
 (r" & ", [" | "]), (r" \| ", [" & ", " ^ "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
 (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]), (r" /= ", [" *= "]),
 (r"(?<=[\s(])-(?=[\w(])", [""]), (r"!(?=[\w(])(?<![\w])", [""]),
 (r"\bself\.x\b", ["self.y"]), (r"\bself\.y\b", ["self.x"]), (r"\bself\.z\b", ["self.x"]), (r"\brhs\.x\b", ["rhs.y"]), (r"\brhs\.y\b", ["rhs.x"]), (r"\brhs\.z\b", ["rhs.y"]),
 (r"\bv\.x\b", ["v.y"]), (r"\bv\.y\b", ["v.z"]), (r"\bv\.z\b", ["v.x"]), (r"\bu\.x\b", ["u.y"]), (r"\bu\.z\b", ["u.y"]),
 (r"\bself\.0\b", ["self.1"]), (r"\bself\.1\b", ["self.2"]), (r"\bself\.2\b", ["self.3"]), (r"\bself\.3\b", ["self.0"]),
 (r"\brhs\.0\b", ["rhs.1"]), (r"\brhs\.1\b", ["rhs.2"]), (r"\brhs\.2\b", ["rhs.3"]), (r"\brhs\.3\b", ["rhs.0"]),
 (r"\bfloor\(\)", ["trunc()", "ceil()"]), (r"\btrunc\(\)", ["floor()"]), (r"\.abs\(\)", [""]), (r"\bmax\b(?=\()", ["min"]), (r"\bmin\b(?=\()", ["max"]),
 (r"\bwrapping_(add|sub|mul)\b", ["saturating_\\1"]), (r"\bis_sign_negative\b", ["is_sign_positive"]), (r"\bis_sign_positive\b", ["is_sign_negative"]),
 (r"\bis_nan\b", ["is_infinite"]), (r"\bis_infinite\b", ["is_nan"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bNAN\b", ["ZERO"]), (r"\bZERO\b", ["ONE"]), (r"\bONE\b", ["ZERO"]), (r"\bINFINITY\b", ["NEG_INFINITY", "MAX"]), (r"\bNEG_INFINITY\b", ["INFINITY"]),
 (r"\bsin\(\)", ["cos()"]), (r"\bcos\(\)", ["sin()"]), (r"\bsqrt\(\)", ["invsqrt()"]), (r"\binvsqrt\(\)", ["sqrt()"]), (r"\binv\(\)", ["recip()"]), (r"\brecip\(\)", ["inv()"]), (r"\bis_some\b", ["is_none"]),
 (r"\bPI\b", ["FRAC_PI_2"]), (r"\bFRAC_PI_2\b", ["PI"]), (r"\brhs\b", ["self"]), (r"\bself\b(?!\W*[,:)]| *\))", ["rhs"]),
 (r"\bf32\b(?=::)", ["F32"]), (r"\bwhile let\b", ["if let"]),
]
def mutants(path, text):
    b = body(text)
    out, pos = [], 0
    incomment = False
    for n, line in enumerate(b.split("\n")):
        s = line.strip()
        code = line.split("//")[0]
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "impl", "pub trait", "where", "type ", "extern")):
            pos += len(line) + 1; continue
        for rx, reps in SUBS:
            for m in re.finditer(rx, code):
                for r in reps:
                    out.append((n + 1, pos + m.start(), pos + m.end(), m.expand(r)))
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:e-?\d+)?|\d+e-?\d+|\d+\.)(?=[^\w]|_?f32|$)", code):
            t = m.group(1)
            try: v = float(t.replace("_", ""))
            except ValueError: continue
            for k in ("* 1.03", "* 0.5", "+ 1.0"):
                out.append((n + 1, pos + m.start(1), pos + m.end(1), repr(eval(f"{v} {k}"))))
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.]*[.]\d)(_?(?:u32|i32|usize|u8|f32)?)\b(?!\.)", code):
            t = m.group(1)
            try: v = int(t.replace("_", ""), 0)
            except ValueError: continue
            for k in (1, -1):
                if v + k >= 0: out.append((n + 1, pos + m.start(1), pos + m.end(1), hex(v + k) if t.startswith("0x") else str(v + k)))
        if s.endswith(";") and not s.startswith(("let ", "const ", "pub const", "return", "static", "}")) and ("=" in s or "(" in s):
            out.append((n + 1, pos + len(line) - len(line.lstrip()), pos + len(line), ""))
        m = re.match(r"\s*(?:\} else )?if (?!let)(.*) \{$", line)
        if m:
            for r in ("true", "false"):
                out.append((n + 1, pos + m.start(1), pos + m.end(1), r))
        pos += len(line) + 1
    seen, res = set(), []
    for n, a, z, r in out:
        new = text[:a] + r + text[z:]
        if new not in seen and new != text:
            seen.add(new); res.append((n, text[a:z], r, new))
    return res

def main():
    out = sys.argv[1]
    pats = sys.argv[2:]
    head = {}
    os.makedirs(TMP, exist_ok=True)
    jobs = []
    for dp, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, "/repo")
            if pats and not any(x in rel for x in pats): continue
            if f in ("lib.rs", "statistics.rs"): continue
            text = open(p).read()
            for j in mutants(rel, text): jobs.append((rel,) + j)
    random.Random(7).shuffle(jobs)
    lim = int(os.environ.get("LIMIT", "100000"))
    done = set()
    if os.path.exists(out):
        for l in open(out): done.add(tuple(json.loads(l)["key"]))
    jobs = [j for j in jobs if (j[0], str(j[1]), j[2], j[3]) not in done][:lim]
    print(len(jobs), "mutants")
    q = queue.Queue()
    for j in jobs: q.put(j)
    lock = threading.Lock()
    shutil.rmtree(f"{TMP}/verif", ignore_errors=True); os.makedirs(f"{TMP}/verif")
    for d in ("harness", "digest", "bare", "defmtcheck"):
        shutil.copytree(f"/verif/{d}", f"{TMP}/verif/{d}", ignore=shutil.ignore_patterns("target"))
    def worker(i):
        d = f"{TMP}/w{i}"
        shutil.rmtree(f"{d}/repo", ignore_errors=True); os.makedirs(d, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", f"{d}/repo"], check=True)
        per = CORES // W
        cpus = f"{i*per}-{i*per+per-1}"
        while True:
            try: rel, n, old, new, text = q.get_nowait()
            except queue.Empty: return
            orig = open(f"/repo/{rel}").read()
            open(f"{d}/repo/{rel}", "w").write(text)
            ids = props(rel)
            r = subprocess.run(["taskset", "-c", cpus, "unshare", "-Urm", "bash", "-c", f"mount --bind {d}/repo /repo && exec bash {TMP}/one.sh {d} {' '.join(ids)}"],
                               capture_output=True, text=True)
            open(f"{d}/repo/{rel}", "w").write(orig)
            res = r.stdout.strip().split("\n")[-1]
            with lock:
                open(out, "a").write(json.dumps(dict(key=[rel, str(n), old, new], line=text.split("\n")[n-1].strip(), result=res)) + "\n")
    open(f"{TMP}/one.sh", "w").write(r'''
d=$1; shift
timeout 300 bash /opt/vp/build.sh >$d/b.log 2>&1 || { echo stillborn; exit; }
timeout 120 bash /opt/vp/test.sh $d/o.json >$d/t.log 2>&1
python3 - $d/o.json <<'P' || { echo killed-by-tests; exit; }
import json,sys
try: o=json.load(open(sys.argv[1]))
except Exception: sys.exit(1)
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(o.get('passed',[]))
sys.exit(any(x not in p for x in b))
P
export CARGO_PROFILE_RELEASE_INCREMENTAL=true CARGO_NET_OFFLINE=true
mkdir -p $d/v
(cd /tmp/mut/verif/harness && cargo build --offline --quiet --release --target-dir $d/t >$d/h.log 2>&1) || { echo "nobuild"; exit; }
for i in "$@"; do
  case $i in C34) continue;; C35)
     (cd /tmp/mut/verif/defmtcheck && cargo build --offline --quiet --release --target-dir $d/td >>$d/h.log 2>&1) || continue
     bin=$d/td/release/defmtcheck;; *) bin=$d/t/release/mmv;; esac
  MMV_STRIDE=13 MMV_TARGET=$d MMV_REPO=/repo MMV_VERIF=$d/v VERIF_SEED=1 VERIF_TIER=quick timeout 600 $bin check $i >$d/c.log 2>&1; rc=$?
  [ $rc = 1 ] && { echo "caught $i"; exit; }
  [ $rc = 0 ] || { echo "rc=$rc $i"; exit; }
done
echo SURVIVED
''')
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
