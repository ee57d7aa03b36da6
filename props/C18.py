"""C18: relations mean what their text or operator says."""
import operator as O
from itertools import product
from pyvc.harness import case
import sympy as sy

OPS = {"=": O.eq, ">": O.gt, ">=": O.ge, "<": O.lt, "<=": O.le}
LATEX = {"=": "=", ">": ">", ">=": "\\geq", "<": "<", "<=": "\\leq"}

def holds(V, got, val, op, what):
    """the outcome is exactly the comparison of val with zero"""
    want = bool(OPS[op](val, 0))
    V.true(bool(got) == want, what)

@case("any value compared by any operator", reps=60)
def anyvalue(V):
    R = V.lib("function.relation")
    v = V.real("v")
    if not V.proof and V.rng.random() < 0.4:
        v = 0.0
    op = V.choice("op", list(OPS))
    cls = V.choice("class", ["Relation", "own"])
    C = R.Relation if cls == "Relation" else (R.Equality if op == "=" else R.InEquality)
    f0 = lambda x: v * 1
    form = V.choice("form", ["string", "operator word", "enum", "callable and symbol", "callable", "op_str", "callable, own"])
    kw = {"string": dict(op=op), "operator word": dict(operator=op), "enum": dict(op=R.Relations(op)), "callable and symbol": dict(op=OPS[op], op_str=op),
          "callable": dict(op=OPS[op]), "op_str": dict(op_str=op), "callable, own": dict(op=lambda a, b: OPS[op](a, b), op_str=op)}[form]
    r = C(f0, d=1, **kw)
    if form != "callable" or cls == "own":
        V.true(isinstance(r, R.Equality) == (op == "="), "an equality exactly for the operator =")
        V.true(isinstance(r, R.InEquality) == (op != "="), "an inequality exactly for the other operators")
    V.true(isinstance(r, R.Relation), "a relation")
    holds(V, r.relate([0]), v, op, "holds exactly when the comparison holds")
    V.eq(r([0]), v, "the value is that of the function")
    if form in ("string", "operator word", "enum", "op_str"):
        V.true(r.op == R.Relations(op) and r.operator == R.Relations(op), "the operator is reported")
    if form != "callable":
        V.true(r.op_str == op, "the symbol of the operator is reported")

@case("without an operator a relation is an equality", reps=5)
def default(V):
    R = V.lib("function.relation")
    v = V.real("v")
    r = R.Relation(lambda x: v * 1, d=1)
    V.true(isinstance(r, R.Equality), "an equality")
    holds(V, r.relate([0]), v, "=", "holds exactly when the value is zero")
    r = R.Equality(lambda x: v * 1, d=1)
    holds(V, r.relate([0]), v, "=", "holds exactly when the value is zero")

SIDES = [("x", lambda x, y: x), ("x + 2*y", lambda x, y: x + 2 * y), ("-y", lambda x, y: -y), ("3*x - y + 1", lambda x, y: 3 * x - y + 1), ("4", lambda x, y: 4),
         ("x*y", lambda x, y: x * y), ("2 - x", lambda x, y: 2 - x), ("(x - y)*(x + 1)", lambda x, y: (x - y) * (x + 1)), ("x**2", lambda x, y: x * x), ("0", lambda x, y: 0)]
GAPS = [" %s ", "%s", "  %s", "%s ", "\t%s  "]

@case("relations given as text", level="bounded", reps=120, paths=6000, budget=240,
      note="sides from a list of texts, every operator, spacing and order of variables; points arbitrary")
def texts(V):
    R = V.lib("function.relation")
    i = V.choice("left", list(range(len(SIDES))))
    j = V.choice("right", list(range(len(SIDES))) if not V.proof else [(i + 1) % len(SIDES), (i + 3) % len(SIDES), (i + 7) % len(SIDES)])
    V.assume(i != j)
    op = V.choice("op", list(OPS))
    gap = V.choice("gap", GAPS if not V.proof else [GAPS[(i + j) % 5], GAPS[0]])
    cls = V.choice("class", ["Relation", "own"])
    C = R.Relation if cls == "Relation" else (R.Equality if op == "=" else R.InEquality)
    s = SIDES[i][0] + gap % op + SIDES[j][0]
    order = V.choice("order", [["x", "y"], ["y", "x"]] if not V.proof else [["x", "y"] if (i + j) % 2 else ["y", "x"]])
    kw = {}
    if V.choice("repeat the symbol", [False, True] if not V.proof else [False]):
        kw = {"op_str": op}
    r = C(s, variables=order, **kw)
    V.true(isinstance(r, R.Equality) == (op == "="), "an equality exactly for the operator =")
    V.true(isinstance(r, R.InEquality) == (op != "="), "an inequality exactly for the other operators")
    V.true(r.op == R.Relations(op), "the operator is that of the text")
    x, y = V.real("x", -3, 3), V.real("y", -3, 3)
    if not V.proof and V.rng.random() < 0.5:
        x, y = V.rng.randrange(-3, 4), V.rng.randrange(-3, 4)
    val = SIDES[i][1](x, y) - SIDES[j][1](x, y)
    pt = [x, y] if order == ["x", "y"] else [y, x]
    V.eq(r(pt), val, "left side minus right side")
    holds(V, r.relate(pt), val, op, "holds exactly when the stated comparison holds")
    tex = r.to_latex()
    V.true(tex.endswith(" %s 0" % LATEX[op]), "the rendered form shows the operator")
    V.true(tex == "%s %s 0" % (sy.latex(r.expr), LATEX[op]), "the rendered form shows the expression")

@case("relations given as an expression", level="bounded", reps=60, paths=3000, budget=120, note="expressions from a list; points arbitrary")
def exprs(V):
    R = V.lib("function.relation")
    i = V.choice("expression", [1, 3, 5, 7])
    op = V.choice("op", list(OPS))
    X, Y = sy.symbols("x y")
    order = V.choice("order", [[X, Y], [Y, X]])
    e = SIDES[i][1](X, Y) - 2
    form = V.choice("form", ["string", "enum", "callable and symbol", "op_str", "text"])
    kw = {"string": dict(op=op), "enum": dict(op=R.Relations(op)), "callable and symbol": dict(op=OPS[op], op_str=op), "op_str": dict(op_str=op), "text": dict(operator=op)}[form]
    r = R.Relation(str(e) if form == "text" else e, variables=order, **kw)
    x, y = V.real("x", -3, 3), V.real("y", -3, 3)
    val = SIDES[i][1](x, y) - 2
    pt = [x, y] if order[0] == X else [y, x]
    V.true(isinstance(r, R.Equality) == (op == "="), "an equality exactly for the operator =")
    V.true(isinstance(r, R.InEquality) == (op != "="), "an inequality exactly for the other operators")
    V.eq(r(pt), val, "the value is that of the expression")
    holds(V, r.relate(pt), val, op, "holds exactly when the comparison holds")
    V.true(r.to_latex().endswith(" %s 0" % LATEX[op]), "the rendered form shows the operator")

def spec_parse(s):
    """(left, operator, right) of a well formed text, None otherwise: exactly one run of comparison characters, which is an operator"""
    import re
    runs = list(re.finditer(r"[<>=]+", s))
    if len(runs) != 1 or runs[0].group() not in OPS:
        return None
    l, r = s[:runs[0].start()].strip(), s[runs[0].end():].strip()
    if not l or not r or (runs[0].group() == "=" and l.endswith("!")):
        return None
    return l, runs[0].group(), r

def check_parse(V, U, s):
    want = spec_parse(s)
    V.true(bool(U.has_operator(s)) == any(c in s for c in "<>="), "has_operator tells whether there is a comparison character")
    got, e = V.attempt(lambda: U.parse_expression(s), ValueError)
    if want is None:
        V.true(e is not None, "malformed text %r is rejected" % s)
    else:
        V.true(e is None and tuple(got) == want, "text %r is split at its operator" % s)

@case("every short text is split at its operator or rejected", level="bounded", reps=0, paths=100, concrete=False, budget=120,
      note="all texts of up to six characters over a, blank, <, >, =, !")
def parse(V):
    U = V.lib("function.utils")
    k = V.choice("length", list(range(0, 7)))
    first = V.choice("first", list("a <>=!")) if k > 3 else ""
    for t in product("a <>=!", repeat=k - len(first)):
        check_parse(V, U, first + "".join(t))

@case("long texts are split at their operator or rejected", proof=False, reps=300)
def parse_long(V):
    U = V.lib("function.utils")
    s = "".join(V.rng.choice(["x", "y1", "+", "-", "*", "(", ")", " ", "3", "2.5", "/", "\n"]) for _ in range(V.rng.randrange(1, 12)))
    t = "".join(V.rng.choice(["x", "y1", "+", "-", "*", "(", ")", " ", "3", "2.5", "/", "\n"]) for _ in range(V.rng.randrange(1, 12)))
    op = V.rng.choice(list(OPS) * 3 + ["==", "=>", "=<", "<>", "!=", "<<", "< =", ">=<", ""])
    text = s + op + t
    if V.rng.random() < 0.15:
        text += V.rng.choice(list(OPS)) + "7"
    V.used["text"] = text
    check_parse(V, U, text)

@case("conflicting or invalid operators are rejected", level="bounded", reps=40, paths=2000, note="every pair of operators")
def conflicts(V):
    R = V.lib("function.relation")
    a, b = V.choice("a", list(OPS)), V.choice("b", list(OPS))
    X = sy.Symbol("x")
    bad = []
    if a != b:
        bad += [lambda: R.Relation("x %s 3" % a, op_str=b), lambda: R.Relation(X - 3, op=a, op_str=b, variables=[X]), lambda: R.Relation("x %s 3" % a, op=b),
                lambda: R.Relation(X - 3, op=R.Relations(a), op_str=b, variables=[X])]
    own = R.Equality if a != "=" else R.InEquality
    bad += [lambda: own("x %s 3" % a), lambda: own(X - 3, op=a, variables=[X]), lambda: own(X - 3, op=R.Relations(a), variables=[X]), lambda: own(X - 3, op=OPS[a], op_str=a, variables=[X])]
    for w in ("!=", "==", "=<", "~", "<>"):
        bad += [lambda w=w: R.Relation(X - 3, op=w, variables=[X]), lambda w=w: R.Relation(X - 3, op_str=w, variables=[X]), lambda w=w: R.Relation("x %s 3" % w)]
    bad += [lambda: R.InEquality("x - 3"), lambda: R.Relation(X - 3, op=5, variables=[X])]
    for f in bad:
        try:
            f()
        except Exception:
            continue
        V.true(False, "conflicting or invalid input is rejected")
    V.true(True, "rejected")
