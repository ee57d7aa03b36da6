"""python3 tools/mutate.py Cxx N SEED [file-substring]: N random one-point changes of the files a property is anchored in; which does the check miss?

Works on a scratch copy (VERIF_REPO); results in /tmp/s/mut_Cxx.txt.  Only a measuring aid, no check uses it.
"""
import ast, json, os, random, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}

def sites(src):
    t = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    pos = lambda ln, col: off[ln - 1] + col
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    b = src.encode()
    out = []
    doc = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value)), doc.add(id(n.body[0]))
    inside = []
    for f in ast.walk(t):
        if isinstance(f, ast.FunctionDef):
            inside.append(f)
    for f in inside:
        for st in f.body:
            for n in ast.walk(st):
                if isinstance(n, ast.FunctionDef) or id(n) in doc:
                    continue
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    a, c = seg(n.left)[1], seg(n.comparators[0])[0]
                    if type(n.ops[0]) in CMP:
                        out.append((a, c, " %s " % CMP[type(n.ops[0])], f.name))
                elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                    a, c = seg(n.left)[1], seg(n.right)[0]
                    if b[a:c].strip() in (b"+", b"-", b"*", b"/"):
                        out.append((a, c, " %s " % BIN[type(n.op)], f.name))
                elif isinstance(n, ast.BoolOp):
                    a, c = seg(n.values[0])[1], seg(n.values[1])[0]
                    if b[a:c].strip() in (b"and", b"or"):
                        out.append((a, c, " or " if isinstance(n.op, ast.And) else " and ", f.name))
                elif isinstance(n, ast.Constant):
                    a, c = seg(n)
                    if isinstance(n.value, bool):
                        out.append((a, c, str(not n.value), f.name))
                    elif isinstance(n.value, int):
                        out.append((a, c, str(n.value + 1), f.name))
                        if n.value > 0:
                            out.append((a, c, str(n.value - 1), f.name))
                    elif isinstance(n.value, float):
                        out.append((a, c, repr(n.value * 2), f.name))
                elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
                    e = n.slice.elts
                    a, c = seg(e[0])[0], seg(e[1])[1]
                    s0, s1 = b[slice(*seg(e[0]))].decode(), b[slice(*seg(e[1]))].decode()
                    if s0 != s1 and ":" not in s0 + s1:
                        out.append((a, c, "%s, %s" % (s1, s0), f.name))
                elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    a, c = seg(n)
                    out.append((a, c, "pass", f.name))
                elif isinstance(n, ast.If):
                    a, c = seg(n.test)
                    out.append((a, c, "not (%s)" % b[a:c].decode(), f.name))
                elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
                    a, c = seg(n.args[0])[0], seg(n.args[1])[1]
                    s0, s1 = b[slice(*seg(n.args[0]))].decode(), b[slice(*seg(n.args[1]))].decode()
                    if s0 != s1 and isinstance(n.func, (ast.Name, ast.Attribute)) and (getattr(n.func, "id", "") not in ("isinstance", "hasattr", "getattr")):
                        out.append((a, c, "%s, %s" % (s1, s0), f.name))
    return b, sorted(set(out))

def main():
    prop, N, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    files = next(json.loads(l) for l in open(H + "/properties.jsonl") if json.loads(l)["id"] == prop)["anchors"]["files"]
    files = [f for f in files if sub in f]
    rng = random.Random(seed)
    allm = []
    for f in files:
        b, ss = sites(open("/repo/" + f).read())
        allm += [(f, s) for s in ss]
    rng.shuffle(allm)
    W = "/tmp/s/mut_" + prop
    log = open("/tmp/s/mut_%s.txt" % prop, "a")
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    n = miss = 0
    for f, (a, c, new, fn) in allm:
        if n >= N:
            break
        b = open("/repo/" + f, "rb").read()
        m = b[:a] + new.encode() + b[c:]
        try:
            compile(m, f, "exec")
        except SyntaxError:
            continue
        ln = b[:a].count(b"\n")
        old = b.splitlines()[ln].decode().strip()
        neu = m.splitlines()[ln].decode().strip()
        if "raise " in old or "assert" in old:
            continue
        n += 1
        open(W + "/" + f, "wb").write(m)
        env = dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE="/tmp/s/mutev_" + prop)
        try:
            p = subprocess.run(["/opt/venv/bin/python", H + "/check.py", prop, "quick"], cwd=H, env=env, capture_output=True, text=True, timeout=900)
            rc, o = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, o = "timeout", ""
        tag = "caught" if rc == 1 and "VIOLATION property=" in o else "MISSED" if rc == 0 else "ERROR %s" % rc
        if "no-failing-input-found" in o:
            tag = "caught*"
        miss += tag == "MISSED"
        log.write("%s %s:%d %s\n      - %s\n      + %s\n" % (tag, f.split("math/")[1], ln + 1, fn, old[:150], neu[:150]))
        if tag.startswith("ERROR"):
            log.write(o[-600:] + "\n")
        log.flush()
        open(W + "/" + f, "wb").write(b)
    log.write("== %s: %d mutants, %d missed\n" % (prop, n, miss))
    log.close()
    shutil.rmtree(W)

main()
