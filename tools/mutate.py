#!/usr/bin/env python3
"""mutate.py OUT FILE FROM TO CHECK[,CHECK...] [-j N] [-s STEP]: first-order mutants of the functional lines FROM..TO of FILE
(operators, comparisons, literals, indices, dropped statements), each compiled in a scratch copy of the headers and given to the named
checks (quick tier, of the copy of /verif this script lies in) until one reports a violation. One JSON line per mutant goes to OUT."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
def opt(f, d):
    if f in a:
        i = a.index(f); v = a[i + 1]; del a[i:i + 2]; return int(v)
    return d
J = opt("-j", 3); STEP = opt("-s", 1)
out, file, lo, hi, checks = a[0], a[1], int(a[2]), int(a[3]), a[4].split(",")
SRC = open(f"/repo/{file}").read().split("\n"); hi = min(hi, len(SRC))
SWAP = {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="],
        "&&": ["||"], "||": ["&&"], "+=": ["-="], "-=": ["+="], "*=": ["/="], "/=": ["*="], "++": ["--"], "--": ["++"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"]}
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|//.*|[A-Za-z_]\w*|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?[fFuUlL]*|0x[0-9a-fA-F]+|<<=|>>=|->|::|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|\S')
def mutants():
    comment = False
    for n in range(lo, hi + 1):
        L = SRC[n - 1]
        s = L.strip()
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("template") : continue
        toks = list(TOK.finditer(L))
        for i, m in enumerate(toks):
            t = m.group()
            prev = toks[i - 1].group() if i else ""
            nxt = toks[i + 1].group() if i + 1 < len(toks) else ""
            reps = []
            if t in SWAP:
                if t in ("&", "*") and (re.match(r"[A-Za-z_]\w*$", prev) and prev in ("float", "int", "Tristimulus", "Matrix3", "Vector3", "Spectrum", "Gamut", "char", "double", "auto", "void", "Observer", "string", "value", "T", "Iter", "const")): continue
                if t in ("<", ">") and (prev in ("static_cast", "vector", "numeric_limits", "array", "initializer_list", "input", "template") or nxt in ("(", "::") and t == ">"): continue
                if t in ("-", "+") and prev in ("(", ",", "=", "?", ":", "return", "", "{"):
                    if t == "-": reps = [""]
                else: reps = SWAP[t]
            elif re.match(r"(\d|\.\d)", t):
                if re.match(r"0[xX]", t): continue
                suf = re.search(r"[fFuUlL]*$", t).group(); b = t[:len(t) - len(suf)]
                if re.fullmatch(r"\d+", b):
                    reps = [str(int(b) + 1) + suf] + ([str(int(b) - 1) + suf] if int(b) > 0 else [])
                else:
                    v = float(b)
                    reps = [repr(v * 1.003) + suf] if v else ["0.001" + suf]
            elif t in ("true", "false"): reps = ["false" if t == "true" else "true"]
            for r in reps:
                yield n, m.start(), t, r, L[:m.start()] + r + L[m.end():]
        if re.match(r"^[\w\[\]\.\->\(\)\*:]+.*;\s*(//.*)?$", s) and not re.match(r"(return|const|static|float|int|double|auto|typedef|using|break|size_t|uint|Spectrum |Tristimulus |Matrix|std::\w+ |bool|public|private)", s):
            yield n, 0, s, "(dropped)", L[:len(L) - len(L.lstrip())] + ";"
def one(k):
    n, col, t, r, newline = k
    W = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    try:
        shutil.copytree("/repo/include", W + "/include"); shutil.copytree("/repo/ext", W + "/ext")
        L = list(SRC); L[n - 1] = newline
        open(f"{W}/{file}", "w").write("\n".join(L))
        open(W + "/t.cpp", "w").write('#include <cstdint>\n#include <cstring>\n#include <colorsystem.hpp>\n#include <picojson.h>\nint main(){}\n')
        if subprocess.run(["g++", "-std=c++14", "-w", "-fsyntax-only", f"-I{W}/include", f"-I{W}/ext", W + "/t.cpp"], stderr=subprocess.DEVNULL).returncode:
            return dict(line=n, col=col, frm=t, to=r, text=newline.strip(), result="invalid")
        notes = []
        for c in checks:
            try:
                p = subprocess.run(["timeout", "-k", "5", "400", "nice", "-n", "10", "python3", f"{ROOT}/run.py", c], env=dict(os.environ, VERIF_REPO=W, VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            except Exception as e:
                notes.append(f"{c}:{e}"); continue
            if p.returncode == 1 and f"VIOLATION property={c}" in p.stdout:
                return dict(line=n, col=col, frm=t, to=r, text=newline.strip(), result="killed", by=c)
            if p.returncode: notes.append(f"{c}:rc{p.returncode} {p.stdout.strip()[-160:]}")
        return dict(line=n, col=col, frm=t, to=r, text=newline.strip(), result="survived", notes=notes)
    finally:
        shutil.rmtree(W, ignore_errors=True)
ms = list(mutants())[::STEP]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["line"], d["col"], d["to"]))
ms = [m for m in ms if (m[0], m[1], m[3]) not in done]
print(file, lo, hi, len(ms), "mutants", flush=True)
cnt = {}
with cf.ThreadPoolExecutor(J) as ex, open(out, "a") as f:
    for d in ex.map(one, ms):
        cnt[d["result"]] = cnt.get(d["result"], 0) + 1
        f.write(json.dumps(d) + "\n"); f.flush()
        if d["result"] == "survived": print(d["line"], repr(d["frm"]), "->", repr(d["to"]), "|", d["text"], d["notes"], flush=True)
print(file, lo, hi, cnt, flush=True)
