#!/usr/bin/env python3
"""mutate.py PROPERTY N FILE... : tries N small mutations of the files against the property's quick check, in scratch copies.
Used to look for gaps (survivors are then judged by hand); no check uses it. Output: one line per mutant."""
import sys, re, random, subprocess, os, shutil, tempfile, threading, queue
PID, N = sys.argv[1], int(sys.argv[2]); files = sys.argv[3:]
VER = os.environ.get("MUT_VERIF", "/tmp/vm"); W = int(os.environ.get("MUT_WORKERS", "2")); TMO = int(os.environ.get("MUT_TIMEOUT", "600"))
rnd = random.Random(os.environ.get("MUT_SEED", "1") + PID)
def muts(line):
    code = line.split("//")[0]; out = []
    for a, b in (("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"), ("++", "--"), ("+ 1", "+ 2"), ("- 1", "- 2"), ("+ 1", "+ 0"), ("- 1", "- 0"), ("begin()", "end()"), ("front()", "back()"), ("push_back", "pop_back_"), ("!", "")):
        if b == "pop_back_": continue
        for m in re.finditer(re.escape(a), code):
            i = m.start()
            if a == "!" and code[i:i+2] == "!=": continue
            if a in ("<=", ">=") and code[i:i+3] == "<=>": continue
            out.append(line[:i] + b + line[i+len(a):])
    for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])", code):
        v = m.group(1); n = int(v, 16) if v.startswith("0x") else int(v)
        for d in (1, -1):
            if n + d < 0: continue
            out.append(line[:m.start()] + (hex(n + d) if v.startswith("0x") else str(n + d)) + line[m.end():])
    for m in re.finditer(r"U'(.)'", code): out.append(line[:m.start()] + "U'" + chr(ord(m.group(1)) + 1) + "'" + line[m.end():])
    s = code.strip()
    if s.endswith(";") and not re.match(r"(using|return|typedef|static|const|auto|std::|bool|int|case|template|friend|goto|char|typename|[\w:<>]+ [\w]+( =|;))", s) and "(" in s or re.match(r"^[\w.\->\[\]]+ [+|-]?= .*;$", s): out.append(re.match(r"\s*", line).group(0) + ";\n")
    m = re.match(r"^(\s*)case ([^:]+::\w+): *(case .*)$", code)
    if m: out.append(m.group(1) + m.group(3) + "\n")
    if re.match(r"^\s*break;\s*$", code) or re.match(r"^\s*return;\s*$", code): out.append(re.match(r"\s*", line).group(0) + ";\n")
    if re.match(r"^\s*(else )?if \(", code) and code.rstrip().endswith(")"): out.append(re.sub(r"if \((.*)\)", r"if (false && (\1))", line, count=1))
    return [o for o in out if o != line]
cands = []
for f in files:
    L = open("/repo/" + f, encoding="utf-8", newline="").read().split("\n"); com = False
    for i, l in enumerate(L):
        t = l.strip()
        if t.startswith("/*"): com = True
        if com:
            if "*/" in t: com = False
            continue
        if "report_error" in t: continue
        if not t or t.startswith(("#", "//", "*", "template", "using", "namespace", "static_assert", "assert", "typedef")): continue
        if not l.startswith("\t\t"): 
            if not l.startswith("\t"): continue
        for m in muts(l + "\n"): cands.append((f, i, l, m.rstrip("\n")))
# spread over lines first
rnd.shuffle(cands); seen = set(); pick = []
for c in cands:
    if (c[0], c[1]) in seen: continue
    seen.add((c[0], c[1])); pick.append(c)
    if len(pick) == N: break
q = queue.Queue(); [q.put(x) for x in enumerate(pick)]
lock = threading.Lock(); stat = {}
def work(k):
    d = "/tmp/mut_%s_%d" % (PID, k); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call("git -C /repo archive HEAD include lib | tar -x -C %s; cp -r %s %s/v" % (d, VER, d), shell=True)
    while True:
        try: n, (f, i, old, new) = q.get_nowait()
        except queue.Empty: break
        p = d + "/" + f; src = open(p, encoding="utf-8", newline="").read(); L = src.split("\n"); L[i] = new
        open(p, "w", encoding="utf-8", newline="").write("\n".join(L))
        try:
            r = subprocess.run(["python3", d + "/v/check.py", PID, "--jobs", "4"], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=TMO); o = r.stdout
            s = "killed" if "VIOLATION" in o else "SURVIVED" if "holds:" in o else "nobuild" if "build of" in o else "ODD " + o[-200:]
        except subprocess.TimeoutExpired: s = "TIMEOUT"; subprocess.run("pkill -f mut_%s_%d" % (PID, k), shell=True)
        open(p, "w", encoding="utf-8", newline="").write(src)
        with lock:
            stat[s] = stat.get(s, 0) + 1
            if s != "nobuild": print("%s %s %s:%d\n   - %s\n   + %s" % (PID, s, f, i + 1, old.strip(), new.strip()), flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
print(PID, stat, flush=True)
