#!/usr/bin/env python3
"""mutate.py FILE PROPS N SEED [SLOT]: random small changes to one file.

Works on a copy of /repo under /tmp; a change that builds and passes the
stable tests is given to the checks of PROPS (comma separated), and those no
check reports are printed.  For finding what the checks miss; not a check.
"""
import json, os, random, re, shutil, subprocess, sys
f, props, n, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
slot = sys.argv[5] if len(sys.argv) > 5 else "0"
R = "/tmp/mut%s.%d" % (slot, os.getpid())
if os.path.exists(R):
    shutil.rmtree(R)
shutil.copytree("/repo", R, ignore=shutil.ignore_patterns(".git"))
open(R + "/go.mod", "w").write("module github.com/samuel/go-dsp\n\ngo 1.17\n")
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="-mod=readonly")
pk = "./dsp/... ./borip/..."
def sh(c, t=120):
    try:
        return subprocess.run(c, shell=True, cwd=R, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class X: returncode, stdout = 99, "timeout"
        return X
src = open(os.path.join(R, f)).read()
lines = src.split("\n")
asm = f.endswith(".s")
rng = random.Random(seed)
def muts(i):
    l = lines[i]
    code = l.split("//")[0]
    if not code.strip() or code.strip().startswith(("//", "package", "import", "#include", "/*", "*")):
        return
    if asm:
        if "TEXT" in code or code.strip().endswith(":"):
            return
        m = re.match(r"^(\s*)([A-Z0-9]+)(\s+.*)$", code)
        if not m: return
        ops = re.split(r",\s*(?![^()]*\))", m.group(3).strip())
        for k in range(len(ops)):
            for a in re.finditer(r"\b([XY])(\d+)\b", ops[k]):
                o2 = ops[:]; o2[k] = ops[k][:a.start()] + a.group(1) + str((int(a.group(2)) + 1) % 8) + ops[k][a.end():]
                yield m.group(1) + m.group(2) + "\t" + ", ".join(o2)
            for a in re.finditer(r"\$(0x[0-9a-fA-F]+|\d+)", ops[k]):
                v = int(a.group(1), 0)
                for w in {v + 1, max(v - 1, 0), v * 2} - {v}:
                    o2 = ops[:]; o2[k] = ops[k][:a.start()] + "$" + str(max(w, 0)) + ops[k][a.end():]
                    yield m.group(1) + m.group(2) + "\t" + ", ".join(o2)
            for a in re.finditer(r"(?<![\w+])(\d+)\(([A-Z0-9]+)\)", ops[k]):
                o2 = ops[:]; o2[k] = ops[k][:a.start()] + str(int(a.group(1)) + rng.choice([1, 4, 16])) + ops[k][a.start(2) - 1:]
                yield m.group(1) + m.group(2) + "\t" + ", ".join(o2)
        alt = {"JGE": "JGT", "JGT": "JGE", "JLT": "JLE", "JLE": "JLT", "JG": "JGE", "JL": "JLE", "JB": "JLS", "JHI": "JCC", "JAE": "JA", "JEQ": "JNE", "JNE": "JEQ", "ADDPS": "SUBPS", "MULPS": "ADDPS", "MAXPS": "MINPS", "MINPS": "MAXPS", "MAXSS": "MINSS", "MINSS": "MAXSS", "PACKSSLW": "PACKSSWB", "VCVTPS2DQ": "VCVTTPS2DQ", "CVTPS2PL": "CVTTPS2PL", "CVTTSS2SQ": "CVTSS2SQ", "CVTSS2SL": "CVTTSS2SL", "SHRQ": "SARQ"}
        if m.group(2) in alt: yield m.group(1) + alt[m.group(2)] + m.group(3)
        yield ""
        return
    for a, bs in (("<=", ("<",)), (">=", (">",)), ("==", ("!=",)), ("!=", ("==",)), ("&&", ("||",)), ("||", ("&&",)), ("+=", ("-=", "=")), ("-=", ("+=",)), ("++", ("--",)), ("<<", (">>",)), (">>", ("<<",)), (":=", ()),
                  (" < ", (" <= ",)), (" > ", (" >= ",)), ("+", ("-",)), ("-", ("+",)), ("*", ("/", "+")), ("/", ("*",)), ("%", ("/",)), ("&", ("|",)), ("|", ("&",)), ("^", ("&",)), ("continue", ("break",)), ("break", ("continue",)), ("true", ("false",)), ("false", ("true",)), ("int64", ("int32",)), ("float64", ("float32",)), ("uint16", ("uint8",)), ("len(input)", ("len(output)",)), ("len(output)", ("len(input)",))):
        for m in re.finditer(re.escape(a), code):
            s, e = m.span()
            # not inside a longer operator
            if a in "+-*/&|^%" and (code[s-1:s] in "+-*/&|^<>=!:" and code[s-1:s] or code[e:e+1] in "+-*/&|^=<>" and code[e:e+1]): continue
            for b in bs: yield l[:s] + b + l[e:]
    for m in re.finditer(r"(?<![\w.])(\d+(\.\d+)?|0x[0-9a-fA-F]+)(?![\w.])", code):
        t = m.group(1)
        if "." in t: reps = [repr(float(t) * 1.01), repr(-float(t))]
        else:
            v = int(t, 0); reps = [str(v + 1)] + ([str(v - 1)] if v else [])
        for b in reps: yield l[:m.start()] + b + l[m.end():]
    st = code.strip()
    if re.match(r"^[\w\[\]\.\(\), ]+\s*[-+*/|&^]?=[^=]", st) or re.match(r"^(\w+\.)*\w+\(.*\)$", st) or st.endswith("++") or st in ("break", "continue"):
        yield ""
    if re.match(r"^if .*\{$", st):
        yield l.replace("if ", "if false && ", 1) if ";" not in st else l
cand = [(i, m) for i in range(len(lines)) for m in (muts(i) or ()) if m != lines[i]]
rng.shuffle(cand)
used = kept = caught = 0
print(f, len(cand), "candidates", flush=True)
for i, m in cand:
    if kept >= n: break
    used += 1
    new = lines[:]; new[i] = m
    open(os.path.join(R, f), "w").write("\n".join(new))
    try:
        if sh("go build %s && go vet -asmdecl ./dsp" % pk if asm else "go build " + pk).returncode: continue
        if sh("go test -vet=off -count=1 -timeout 60s ./dsp ./dsp/ax25 ./dsp/dtmf ./borip").returncode: continue
        kept += 1
        hit = None
        note = ""
        for p in props:
            r = sh("nice /verif/bin/vengine -repo %s -prop %s" % (R, p), 900)
            if "VIOLATION" in r.stdout: hit = p; break
            note += " %s:%d:%s" % (p, r.returncode, r.stdout.strip().split("\n")[-1][:150])
        if hit: caught += 1
        print(("caught %s" % hit if hit else "MISSED"), "%s:%d" % (f, i + 1), "|", lines[i].strip(), "=>", m.strip(), "" if hit else note, flush=True)
    finally:
        open(os.path.join(R, f), "w").write(src)
print("%s: %d tried, %d pass the tests, %d caught" % (f, used, kept, caught), flush=True)
shutil.rmtree(R)
