"""S08: parameters, variables, expressions, catalog references. Every attribute gets the value its parameters and expressions mean in their scope."""
import ctypes as C, math, re
import pbt, capi, osc, sim
from pbt import Violation, Discard

TYPES = ["integer", "double", "boolean", "string"]
TID = {"integer": 1, "double": 2, "string": 3, "boolean": 4}
FUNCS1 = ["round", "floor", "ceil", "sqrt", "sin", "cos", "atan", "sign", "abs"]
FUNCS2 = ["pow", "max", "min"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
PREC = {"or": 1, "||": 1, "and": 2, "&&": 2, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5, "**": 6}
for o in CMP:
    PREC[o] = 3


# ---------------------------------------------------------------- interval values

class V:
    """a value: text if it is known exactly, and an interval if it is a number"""

    def __init__(self, lo=None, hi=None, text=None, b=None):
        self.lo, self.hi, self.text, self.b = lo, hi, text, b

    @property
    def num(self):
        return self.lo is not None


def from_text(t, typ=None):
    if t in ("true", "false"):
        return V(text=t, b=t == "true")
    try:
        v = float(t)
    except ValueError:
        return V(text=t)
    if not math.isfinite(v):
        raise Discard("number")
    e = 0.0 if v == int(v) else 4e-15 * abs(v)
    return V(v - e, v + e, text=t)


def chk(*iv):
    for v in iv:
        if not math.isfinite(v) or abs(v) > 1e6:
            raise Discard("magnitude")
    return V(min(iv), max(iv))


def corners(f, a, b):
    try:
        return chk(*[f(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)])
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Discard("domain")


def one(f, a):
    x, y = f(a.lo), f(a.hi)
    if x != y:
        raise Discard("discontinuity")
    return chk(x)


def widen(v):
    e = 1e-13 * max(abs(v.lo), abs(v.hi)) if v.lo != v.hi else 0.0
    return V(v.lo - e, v.hi + e)


def boolv(x):
    return V(1.0 if x else 0.0, 1.0 if x else 0.0, b=bool(x))


def ev(t, look):
    """evaluate an expression tree"""
    k = t[0]
    if k == "c":
        return from_text(t[1])
    if k == "k":
        v = math.pi if t[1] == "pi" else math.e
        return V(v, v)
    if k == "p":
        v = look(t[1])
        if not v.num and v.b is None:
            raise Discard("not a number")
        return v
    if k == "(":
        return ev(t[1], look)
    if k == "neg":
        a = numeric(ev(t[1], look))
        return V(-a.hi, -a.lo)
    if k == "not":
        return boolv(not truth(ev(t[1], look)))
    if k == "f":
        a = numeric(ev(t[2], look))
        f = t[1]
        if f in FUNCS2:
            b = numeric(ev(t[3], look))
            if f == "pow":
                if a.lo <= 0.01 or abs(b.hi) > 6:
                    raise Discard("pow")
                return widen(corners(math.pow, a, b))
            return corners(max if f == "max" else min, a, b)
        if f == "round":
            return one(lambda x: float(round(x)), a)
        if f == "floor":
            return one(lambda x: float(math.floor(x)), a)
        if f == "ceil":
            return one(lambda x: float(math.ceil(x)), a)
        if f == "sign":
            return one(lambda x: -1.0 if x < 0 else 1.0, a)
        if f == "abs":
            if a.lo < 0 < a.hi:
                return V(0.0, max(-a.lo, a.hi))
            return chk(abs(a.lo), abs(a.hi))
        if f == "sqrt":
            if a.lo < 0 or 0 < a.lo < 1e-4:
                raise Discard("sqrt")
            return widen(chk(math.sqrt(a.lo), math.sqrt(a.hi)))
        if f == "atan":
            return widen(chk(math.atan(a.lo), math.atan(a.hi)))
        if f in ("sin", "cos"):
            v = (math.sin if f == "sin" else math.cos)(0.5 * (a.lo + a.hi))
            e = a.hi - a.lo + 1e-14
            return V(v - e, v + e)
        raise Discard("function")
    if k == "b":
        o = t[1]
        a, b = ev(t[2], look), ev(t[3], look)
        if o in ("and", "&&"):
            return boolv(truth(a) and truth(b))
        if o in ("or", "||"):
            return boolv(truth(a) or truth(b))
        a, b = numeric(a), numeric(b)
        if o in CMP:
            if a.lo == a.hi == b.lo == b.hi:
                c = 0
            elif a.hi < b.lo - 1e-12:
                c = -1
            elif a.lo > b.hi + 1e-12:
                c = 1
            else:
                raise Discard("equal")
            return boolv({"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[o])
        if o == "+":
            return widen(V(a.lo + b.lo, a.hi + b.hi))
        if o == "-":
            return widen(V(a.lo - b.hi, a.hi - b.lo))
        if o == "*":
            return widen(corners(lambda x, y: x * y, a, b))
        if o == "/":
            if b.lo < 0.01 and b.hi > -0.01:
                raise Discard("division")
            return widen(corners(lambda x, y: x / y, a, b))
        if o == "%":
            if b.lo != b.hi or abs(b.lo) < 0.1:
                raise Discard("remainder")
            x, y = math.remainder(a.lo, b.lo), math.remainder(a.hi, b.lo)
            if abs(y - x) > (a.hi - a.lo) * 2 or (a.lo != a.hi and abs(abs(x) - abs(b.lo) / 2) < 1e-9):
                raise Discard("remainder")
            return widen(chk(x, y))
        if o == "**":
            if abs(b.hi) > 4:
                raise Discard("pow")
            if a.lo <= 0.01:
                if not (a.lo == a.hi and b.lo == b.hi == int(b.lo) and a.lo != 0):
                    raise Discard("pow")
            return widen(corners(math.pow, a, b))
    raise Discard("tree")


def numeric(v):
    if v.b is not None:
        return boolv(v.b)
    if not v.num:
        raise Discard("not a number")
    return v


def truth(v):
    if v.b is not None:
        return v.b
    if v.num and (v.lo > 1e-9 or v.hi < -1e-9 or v.lo == v.hi):
        return v.lo != 0
    raise Discard("truth")


def show(t, sp=" "):
    """expression text, with as few parentheses as the precedence allows"""
    k = t[0]
    if k in ("c", "k"):
        return t[1], 9
    if k == "p":
        return "$" + t[1], 9
    if k == "(":
        return "(" + show(t[1], sp)[0] + ")", 9
    if k == "neg":
        s, p = show(t[1], sp)
        return ("- " if len(t) > 2 else "-") + (s if p >= 7 else "(" + s + ")"), 7
    if k == "not":
        s, p = show(t[1], sp)
        return ("not " if len(t) > 2 and t[2] else "!" if len(t) > 2 else "not") + (s if p >= 9 and len(t) > 2 else "(" + s + ")"), 7
    if k == "f":
        return t[1] + "(" + ("," + sp).join(show(a, sp)[0] for a in t[2:]) + ")", 9
    o, p = t[1], PREC[t[1]]
    a, pa = show(t[2], sp)
    b, pb = show(t[3], sp)
    if pa < p or (o in CMP and pa == p) or (o == "**" and pa <= 7):
        a = "(" + a + ")"
    if pb < p or (pb == p and o != "**") or (o == "**" and pb < p):
        b = "(" + b + ")"
    s = " " if o in ("and", "or") else sp
    return a + s + o + s + b, p


# ---------------------------------------------------------------- attribute specifications

def spec_text(s):
    k = s["k"]
    if k == "lit":
        return s["t"]
    if k == "ref":
        return "$" + s["n"]
    if k == "str":
        return "${" + " + ".join(("$" + p[1]) if p[0] == "p" else p[1] for p in s["parts"]) + "}"
    return "${" + show(s["e"], s.get("sp", " "))[0] + "}"


def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def spec_val(s, look):
    k = s["k"]
    if k == "lit":
        return from_text(s["t"])
    if k == "ref":
        return look(s["n"])
    if k == "str":
        out = ""
        for p in s["parts"]:
            if p[0] == "p":
                v = look(p[1])
                if v.text is None or not v.text:
                    raise Discard("text unknown")
                if not re.fullmatch(r"[A-Za-z_]\w*|-?[0-9.]+", v.text):
                    raise Discard("such words are not supported in string expressions")
                out += v.text
            else:
                out += p[1]
        return V(text=out)
    v = ev(s["e"], look)
    if v.num:
        a, b = "%.6f" % v.lo, "%.6f" % v.hi
        x, y = float(a), float(b)
        return V(min(x, y), max(x, y), text=a if a == b and x != 0 else None, b=v.b)
    return v


class Scope:
    def __init__(self):
        self.l = []

    def look(self, n):
        for name, typ, v in reversed(self.l):
            if name == n:
                return v
        raise KeyError(n)

    def declare(self, decls, assigns=()):
        for n, typ, s in decls:
            v = spec_val(s, self.look)
            for an, av in assigns:
                if an == n:
                    v = av
            self.l.append((n, typ, coerce(typ, v)))


def coerce(typ, v):
    if typ == "integer":
        if not v.num or v.lo != v.hi or v.lo != int(v.lo):
            raise Discard("integer")
    elif typ == "double":
        if not v.num:
            raise Discard("double")
    elif typ == "boolean":
        return from_text("true" if truth(v) else "false")
    elif v.text is None:
        raise Discard("string")
    return v


# ---------------------------------------------------------------- generation

class Gen:
    def __init__(self, rng):
        self.r = rng

    def lit(self, typ):
        r = self.r
        if typ == "integer":
            return str(r.choice([0, 1, 2, 3, 5, 7, -1, -2, -4, 12, 100, r.randint(-50, 400)]))
        if typ == "double":
            return r.choice(["%g" % round(r.uniform(-20, 60), r.randint(0, 3)), "%.2f" % r.uniform(0, 30), "%d" % r.randint(-9, 40), "0.5", "3.6", "-0.25", "1e-2" if r.random() < 0.3 else "10.0", "2.5E1" if r.random() < 0.3 else "4.125"])
        if typ == "boolean":
            return r.choice(["true", "false"])
        return r.choice(["abc", "car_white", "Xy1", "Target", "ev_", "norm_or_not", "a_b", "sand "[:4], "forward"])

    def num(self, names, d=3):
        """numeric tree; names: [(name, type)]"""
        r = self.r
        x = r.random()
        ns = [n for n, t in names if t in ("integer", "double")]
        if d <= 0 or x < 0.15:
            if ns and r.random() < 0.65:
                return ["p", r.choice(ns)]
            return ["c", r.choice(["2", "3", "10", "0.5", "3.6", "1.25", "100", "7", "%d" % r.randint(0, 99), "%.2f" % r.uniform(0, 20)])]
        if x < 0.2:
            return ["k", r.choice(["pi", "e"])]
        if x < 0.72:
            o = r.choice(["+", "-", "*", "/", "+", "-", "*", "%", "**"])
            if o == "**":
                b = ["c", r.choice(["2", "3", "0.5"])]
                return ["b", o, self.num(names, d - 2), b]
            if o == "%":
                return ["b", o, self.num(names, d - 1), ["c", r.choice(["3", "7", "2.5", "360"])]]
            return ["b", o, self.num(names, d - 1), self.num(names, d - 1)]
        if x < 0.8:
            return ["neg", self.num(names, d - 1)] + ([1] if r.random() < 0.2 else [])
        if x < 0.85:
            return ["(", self.num(names, d - 1)]
        if x < 0.9:
            return ["b", "*", ["(", self.boole(names, d - 2)], self.num(names, d - 1)]
        if r.random() < 0.7:
            return ["f", r.choice(FUNCS1), self.num(names, d - 1)]
        return ["f", r.choice(FUNCS2), self.num(names, d - 1), self.num(names, d - 1)]

    def boole(self, names, d=2):
        r = self.r
        x = r.random()
        bs = [n for n, t in names if t == "boolean"]
        if (d <= 0 or x < 0.25) and bs:
            return ["p", r.choice(bs)]
        if d <= 0 or x < 0.6:
            return ["b", r.choice(CMP), self.num(names, d - 1), self.num(names, d - 1)]
        if x < 0.85:
            return ["b", r.choice(["and", "or", "&&", "||"]), self.boole(names, d - 1), self.boole(names, d - 1)]
        return ["not", self.boole(names, d - 1)] + r.choice([[], [1], [0]])

    def spec(self, names, typ):
        r = self.r
        x = r.random()
        same = [n for n, t in names if t == typ]
        if x < 0.25 or typ == "integer" and x < 0.5:
            return dict(k="lit", t=self.lit(typ))
        if x < 0.45 and same:
            return dict(k="ref", n=r.choice(same))
        if typ == "string":
            ps = []
            for _ in range(r.randint(2, 3)):
                ok = [n for n, t in names if t in ("string", "integer")]
                ps.append(["p", r.choice(ok)] if ok and r.random() < 0.5 else ["w", r.choice(["Ev_", "abc", "go_to_", "X", "max_"])])
            if not any(p[0] == "w" for p in ps):
                ps[0] = ["w", "Ev_"]
            return dict(k="str", parts=ps)
        if typ == "boolean":
            return dict(k="num", e=self.boole(names, 2), sp=r.choice([" ", " ", ""]))
        if typ == "integer":
            ns = [(n, t) for n, t in names if t == "integer"]
            return dict(k="num", e=r.choice([["f", "round", self.num(names, 2)], ["b", r.choice("+-*"), self.num(ns, 0), self.num(ns, 0)], ["f", "floor", self.num(names, 2)]]), sp=r.choice([" ", ""]))
        return dict(k="num", e=self.num(names, r.randint(1, 3)), sp=r.choice([" ", " ", ""]))

    def valid(self, names, typ, look):
        """a specification that has a value"""
        for _ in range(12):
            s = self.spec(names, typ)
            try:
                coerce(typ, spec_val(s, look))
                return s
            except (Discard, KeyError):
                pass
        return dict(k="lit", t=self.lit(typ))

    def valid_tree(self, names, d, look):
        for _ in range(12):
            t = self.num(names, d)
            try:
                spec_val(dict(k="num", e=t), look)
                return t
            except (Discard, KeyError):
                pass
        return ["c", "4"]

    def decls(self, pre, n, scope, shadow=()):
        out = []
        for i in range(n):
            typ = self.r.choice(TYPES)
            name = "%s%d" % (pre, i)
            if shadow and self.r.random() < 0.6:
                name = self.r.choice(shadow)
            if name in [d[0] for d in out]:
                continue
            names = {x[0]: x[1] for x in scope.l}
            s = self.valid(list(names.items()), typ, scope.look)
            out.append([name, typ, s])
            scope.declare([out[-1]])
        return out

    def assigns(self, decls, scope):
        out = []
        names = list({x[0]: x[1] for x in scope.l}.items())
        for n, typ, _ in decls:
            if self.r.random() < 0.6:
                out.append([n, self.valid(names, typ, scope.look)])
        return out


def text_sink(s):
    return esc(spec_text(s))


class S08(pbt.Check):
    id = "S08"
    targets = ["esminiLib"]
    quick_cases, quick_time = 5000, 30
    thorough_cases, thorough_time = 200000, 900
    case_timeout = 20
    rule = ("Random scenarios with typed parameter and variable declarations, constants and expressions (random trees over all operators and functions, with minimal parentheses), references between them, overriding values set in the declaration callback, vehicles and maneuvers from catalogs with parameter assignments, "
            "declarations in stories, maneuvers and vehicles that shadow outer ones, attributes of all of them as references and expressions, and later set, add and multiply actions and API calls. The oracle is a scope model with interval arithmetic for expressions. Some scenarios refer to undeclared names or have "
            "invalid expressions and must be rejected. Non-trivial: at least one expression with a parameter was evaluated.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        g = Gen(rng)
        sc = Scope()
        globs = g.decls("p", rng.randint(1, 6), sc)
        names = [(d[0], d[1]) for d in globs]
        vs = []
        for i in range(rng.randint(1, 4)):
            typ = rng.choice(TYPES)
            vs.append(["v%d" % i, typ, g.valid(names, typ, sc.look)])
        over = []
        if rng.random() < 0.5:
            for _ in range(rng.randint(0, 3)):
                n, typ, _s = rng.choice(globs + vs)
                if rng.random() < 0.15:
                    typ = rng.choice(TYPES)
                over.append([n, typ, self.value(rng, typ)])
        sc2 = Scope()      # with the overriding values
        try:
            self.declare_globals(sc2, globs, over)
        except Discard:      # the overriding values make a declaration meaningless
            over, sc2 = [], Scope()
            self.declare_globals(sc2, globs, over)
        base = sc2.l
        shadow = [d[0] for d in globs]

        def sub():
            s = Scope()
            s.l = list(base)
            return s
        vehs = []
        for i in range(rng.randint(1, 3)):
            s = sub()
            cat = rng.random() < 0.6
            outer = list(s.l)
            d = g.decls("q", rng.randint(0, 3), s, shadow)
            so = Scope()
            so.l = outer
            a = g.assigns(d, so) if cat else []
            names2 = list({x[0]: x[1] for x in s.l}.items())
            ok = lambda ns, dd, lk: g.valid_tree(ns, dd, lk)
            bs = Scope()
            bs.l = list(base)
            vehs.append(dict(cat=cat, decls=d, assigns=a, len=["f", "abs", ok(names2, 2, s.look)], wid=["f", "abs", ok(names2, 1, s.look)], v=ok([(x[0], x[1]) for x in base], 2, bs.look), lane=rng.choice([-1, -2])))
        stories = []
        for i in range(rng.randint(1, 3)):
            s = sub()
            d = g.decls("s", rng.randint(0, 2), s, shadow)
            mans = []
            for j in range(rng.randint(1, 2)):
                s2 = Scope()
                s2.l = list(s.l)
                cat = rng.random() < 0.5
                outer = list(s2.l)
                if cat:      # a catalog entry knows its own parameters and the global ones
                    s2.l = list(base)
                if cat:
                    hid = {x[0] for x in d}
                    s2.l = [x for x in base if x[0] not in hid]
                md = g.decls("m", rng.randint(0, 2), s2, shadow + [x[0] for x in d] if not cat else shadow)
                so = Scope()
                so.l = outer
                a = g.assigns(md, so) if cat else []
                hid = {x[0] for x in d} - {x[0] for x in md} if cat else ()
                n2 = [x for x in {x[0]: x[1] for x in s2.l}.items() if x[0] not in hid]
                mans.append(dict(cat=cat, decls=md, assigns=a, sinks=[g.valid(n2, rng.choice(TYPES), s2.look) for _ in range(rng.randint(1, 3))]))
            stories.append(dict(decls=d, mans=mans))
        ops = []
        for i in range(rng.randint(0, 6)):
            what = rng.choice(["setvar", "addvar", "mulvar", "setparam", "api", "api"])
            n, typ, _s = rng.choice(globs if what == "setparam" else globs + vs if what == "api" else vs)
            if what in ("addvar", "mulvar"):
                ops.append([what, n, rng.choice(["2", "-3", "0.5", "1.25"]) if typ == "double" else rng.choice(["2", "-3", "4"])])
            elif what == "api":
                if rng.random() < 0.15:
                    typ = rng.choice(TYPES)
                ops.append([what, n, [typ, self.value(rng, typ)]])
            else:
                ops.append([what, n, g.lit(typ)])
        bad = rng.choice(["undef", "syntax", "nan", "scope"]) if rng.random() < 0.08 else None
        return dict(globs=globs, vars=vs, over=over, cb=bool(over) or rng.random() < 0.2, vehs=vehs, stories=stories, ops=ops, bad=bad, badk=rng.randrange(100))

    @staticmethod
    def value(rng, typ):
        return {"integer": lambda: rng.randint(-9, 99), "double": lambda: round(rng.uniform(-30, 60), rng.randint(0, 5)), "boolean": lambda: rng.random() < 0.5, "string": lambda: rng.choice(["zz", "Over_1", "car"])}[typ]()

    @staticmethod
    def of(typ, val):
        """value after setting it by API"""
        if typ == "integer":
            return from_text(str(val))
        if typ == "double":
            return V(*([val] * 2 if "%.6f" % val == "%d.000000" % val else [val - 1e-12, val + 1e-12]), text="%.6f" % val)
        if typ == "boolean":
            return from_text("true" if val else "false")
        return V(text=val)

    def declare_globals(self, scope, globs, over):
        ov = {}
        for n, typ, val in over:
            if any(n == d[0] and d[1] == typ for d in globs):
                ov[n] = self.of(typ, val)
        for d in globs:
            if d[0] in ov:
                spec_val(d[2], scope.look)      # evaluated all the same
                scope.l.append((d[0], d[1], ov[d[0]]))
            else:
                try:
                    scope.declare([d])
                except Discard:
                    # the overriding value makes this declaration meaningless
                    raise
        return ov

    # ------------------------------------------------------------ scenario

    def decl_xml(self, decls):
        return osc.tag("ParameterDeclarations", None, *[osc.tag("ParameterDeclaration", dict(name=n, parameterType=t, value=text_sink(s))) for n, t, s in decls]) if decls else ""

    def veh_xml(self, v, name):
        return osc.tag("Vehicle", dict(name=name, vehicleCategory="car"), self.decl_xml(v["decls"]),
                       osc.tag("BoundingBox", None, osc.tag("Center", dict(x=1.4, y=0, z=0.75)), osc.tag("Dimensions", dict(length=text_sink(dict(k="num", e=v["len"])), width=text_sink(dict(k="num", e=v["wid"])), height=1.5))),
                       osc.tag("Performance", dict(maxSpeed=1e9, maxAcceleration=10, maxDeceleration=10)),
                       osc.tag("Axles", None, osc.tag("FrontAxle", dict(maxSteering=0.5, wheelDiameter=0.8, trackWidth=1.68, positionX=3, positionZ=0.4)), osc.tag("RearAxle", dict(maxSteering=0, wheelDiameter=0.8, trackWidth=1.68, positionX=0, positionZ=0.4))),
                       osc.tag("Properties"))

    def ref_xml(self, catalog, entry, assigns):
        return osc.tag("CatalogReference", dict(catalogName=catalog, entryName=entry), osc.tag("ParameterAssignments", None, *[osc.tag("ParameterAssignment", dict(parameterRef=n, value=text_sink(s))) for n, s in assigns]) if assigns else "")

    def run(self, case, env):
        se = self.se
        # ---- expected values
        try:
            sc = Scope()
            for d in case["globs"]:
                sc.declare([d])          # the declarations have to be valid before the callback as well
            pre = {n: (t, v) for n, t, v in sc.l}
            if len(pre) != len(case["globs"]):
                raise Discard("names")
            sc = Scope()
            self.declare_globals(sc, case["globs"], case["over"])
            base = list(sc.l)
            vals = {n: [t, v] for n, t, v in base}
            vvals = {}
            for n, t, s in case["vars"]:
                spec_val(s, lambda q: pre[q][1])
                vvals[n] = [t, coerce(t, spec_val(s, sc.look))]
                for on, ot, ov in case["over"]:
                    if on == n and ot == t:
                        vvals[n] = [t, self.of(t, ov)]
            if len(vvals) != len(case["vars"]) or any(n in vals for n in vvals) or not vals:
                raise Discard("names")
            vexp = []
            for v in case["vehs"]:
                s = Scope()
                s.l = list(base)
                a = [(n, spec_val(x, s.look)) for n, x in v["assigns"]] if v["cat"] else []
                s.declare(v["decls"], a)
                ln, wd = (spec_val(dict(k="num", e=v[q]), s.look) for q in ("len", "wid"))
                o = Scope()
                o.l = list(base)
                sp = spec_val(dict(k="num", e=v["v"]), o.look)
                vexp.append((ln, wd, sp))
            sinks = []
            for st in case["stories"]:
                s = Scope()
                s.l = list(base)
                s.declare(st["decls"])
                for m in st["mans"]:
                    s2 = Scope()
                    s2.l = list(base) if m["cat"] else list(s.l)
                    a = [(n, spec_val(x, s.look)) for n, x in m["assigns"]] if m["cat"] else []
                    if m["cat"]:      # names of the story are visible in catalog entries as well, or not: do not judge
                        hid = {d[0] for d in st["decls"]}
                        def look(n, s2=s2, hid=hid):
                            own = [x for x in s2.l[len(base):] if x[0] == n]
                            if not own and n in hid:
                                raise Discard("visibility in catalog")
                            return Scope.look(s2, n)
                        s2.look = look
                    s2.declare(m["decls"], a)
                    sinks += [spec_val(x, s2.look) for x in m["sinks"]]
        except KeyError as e:
            raise Discard("undeclared %s" % e)
        if not case["vehs"] or not sinks or any(v["lane"] not in (-1, -2) for v in case["vehs"]):
            raise Discard("empty")
        # ---- scenario
        ents, init = [], {}
        vcat, mcat = [], []
        for i, v in enumerate(case["vehs"]):
            nm = "Car%d" % i
            if v["cat"]:
                vcat.append(self.veh_xml(v, "cv%d" % i))
                ents.append(osc.tag("ScenarioObject", dict(name=nm), self.ref_xml("VCat", "cv%d" % i, v["assigns"])))
            else:
                ents.append(osc.tag("ScenarioObject", dict(name=nm), self.veh_xml(v, "inl%d" % i)))
            init[nm] = [dict(k="teleport", pos=dict(k="lane", road="1", lane=v["lane"], s=50 + 40 * i)), dict(k="raw", xml=osc.tag("LongitudinalAction", None, osc.tag("SpeedAction", None, osc.tag("SpeedActionDynamics", dict(dynamicsShape="step", dynamicsDimension="time", value=0)),
                        osc.tag("SpeedActionTarget", None, osc.tag("AbsoluteTargetSpeed", dict(value=text_sink(dict(k="num", e=v["v"]))))))))]
        start = [[dict(k="time", name="t0", value=0.0, rule="greaterOrEqual")]]
        stories, k, c = "", 0, 0
        for i, st in enumerate(case["stories"]):
            mans = ""
            for j, m in enumerate(st["mans"]):
                evs = ""
                for x in m["sinks"]:
                    evs += osc.event(dict(name="e%d" % k, prio="parallel", actions=[dict(k="setvar", name="a%d" % k, ref="o%d" % k, value=text_sink(x))], start=start))
                    k += 1
                body = self.decl_xml(m["decls"]) + evs
                if m["cat"]:
                    mcat.append(osc.tag("Maneuver", dict(name="cm%d" % c), body))
                    mans += self.ref_xml("MCat", "cm%d" % c, m["assigns"])
                    c += 1
                else:
                    mans += osc.tag("Maneuver", dict(name="man%d_%d" % (i, j)), body)
            mg = osc.tag("ManeuverGroup", dict(name="mg%d" % i, maximumExecutionCount=1), osc.tag("Actors", dict(selectTriggeringEntities=False), osc.tag("EntityRef", dict(entityRef="Car0"))), mans)
            stories += osc.tag("Story", dict(name="story%d" % i), self.decl_xml(st["decls"]), osc.tag("Act", dict(name="act%d" % i), mg, osc.trigger("StartTrigger", start)))
        evs = []
        for i, o in enumerate(case["ops"]):
            if o[0] != "api":
                evs.append(dict(name="op%d" % i, prio="parallel", actions=[dict(k=o[0], name="oa%d" % i, ref=o[1], value=o[2])], start=[[dict(k="time", name="t", value=0.1 * i + 0.05, rule="greaterThan")]]))
        sto = osc.simple_story(evs, ["Car0"], "opstory") if evs else None
        xml = osc.scenario(dict(params=[[n, t, text_sink(s)] for n, t, s in case["globs"]], vars=[[n, t, text_sink(s)] for n, t, s in case["vars"]] + [["o%d" % i, "string", "unset"] for i in range(k)],
                           entities=ents, init=init, stories=[sto] if sto else [], catalogs=osc.tag("VehicleCatalog", None, osc.tag("Directory", dict(path="."))) + osc.tag("ManeuverCatalog", None, osc.tag("Directory", dict(path=".")))))
        xml = xml.replace("<StopTrigger/>", stories + "<StopTrigger/>")
        bad = case["bad"]
        if bad:
            if bad == "scope" and not any(s["decls"] for s in case["stories"]):
                raise Discard("bad")
            what = {"undef": "${$nosuch + 1}", "syntax": ["${2 + }", "${(1 + 2}", "${2 3}", "${1 + * 2}", "${1 + 2", "${)}"][case["badk"] % 6], "nan": ["${sqrt(0 - 4)}", "${0/0}"][case["badk"] % 2], "scope": ""}[bad]
            if bad == "scope":
                own = [d[0] for s in case["stories"] for d in s["decls"] if d[0] not in vals]
                if not own:
                    raise Discard("bad")
                what = "$" + own[0]
            xml = xml.replace("<StopTrigger/>", osc.story(osc.simple_story([dict(name="be", prio="parallel", actions=[dict(k="setvar", name="ba", ref="o0", value=what)], start=start)], ["Car0"], "bad")) + "<StopTrigger/>")
        head = osc.tag("FileHeader", dict(revMajor=1, revMinor=3, date="2024-01-01T00:00:00", description="t", author="t"))
        env.write("VCat.xosc", "<?xml version=\"1.0\"?><OpenSCENARIO>" + head + osc.tag("Catalog", dict(name="VCat"), *vcat) + "</OpenSCENARIO>")
        env.write("MCat.xosc", "<?xml version=\"1.0\"?><OpenSCENARIO>" + head + osc.tag("Catalog", dict(name="MCat"), *mcat) + "</OpenSCENARIO>")
        # ---- run
        CB = C.CFUNCTYPE(None, C.c_void_p)
        errs = []

        def cb(_):
            for n, t, val in case["over"]:
                kind = "Variable" if n in vvals else "Parameter"
                decl = (vvals if n in vvals else vals)[n][0] if n in vvals or n in vals else None
                rc = self.set(kind, n, t, val)
                if (rc == 0) != (decl == t):
                    errs.append("setting %s %s (%s) as %s returned %d" % (kind, n, decl, t, rc))
        self._cb = CB(cb)
        if case["cb"]:
            se.SE_RegisterParameterDeclarationCallback(C.cast(self._cb, C.c_void_p), None)
        else:
            se.SE_RegisterParameterDeclarationCallback(None, None)
        S = sim.Sim(se, env, xml, osc.straight_road(400.0))
        if bad:
            if S.rc == 0:
                raise Violation("accepted", "the scenario uses %s, but is accepted" % what)
            S.close()
            return dict(nontrivial=True)
        if errs:
            raise Violation("set", errs[0])
        if S.rc != 0:
            raise Violation("rejected", "valid scenario rejected")
        for i, (ln, wd, sp) in enumerate(vexp):
            st = S.state(S.id("Car%d" % i))
            for what, got, exp in (("length", st.length, ln), ("width", st.width, wd), ("speed", st.speed, sp)):
                if what != "speed" and exp.hi < 0.01:
                    continue      # replaced by the default size
                tol = 2e-6 + 1e-6 * max(abs(exp.lo), abs(exp.hi))
                if not exp.lo - tol <= got <= exp.hi + tol:
                    raise Violation("attribute", "%s of vehicle %d: %.7g, expected %.7g (%s)" % (what, i, got, exp.lo, show(case["vehs"][i][{"length": "len", "width": "wid", "speed": "v"}[what]])[0]))
        self.compare(vals, vvals, k, "after init")
        S.step(0.1)
        nexpr = 0
        allsinks = [x for st in case["stories"] for m in st["mans"] for x in m["sinks"]]
        for i, exp in enumerate(sinks):
            p = C.c_char_p()
            if se.SE_GetVariableString(b"o%d" % i, C.byref(p)) != 0:
                raise Violation("rc", "variable o%d not found" % i)
            got = p.value.decode()
            src = spec_text(allsinks[i])
            nexpr += allsinks[i]["k"] == "num" and "$" in src
            if exp.num:
                try:
                    g = 1.0 if got == "true" else 0.0 if got == "false" else float(got)
                except ValueError:
                    raise Violation("attribute", "attribute %s has the value '%s', expected %.7g" % (src, got, exp.lo))
                if not exp.lo - 1.1e-6 <= g <= exp.hi + 1.1e-6:
                    raise Violation("attribute", "attribute %s has the value %s, expected %.7g" % (src, got, exp.lo))
            elif exp.text is not None and got != exp.text:
                raise Violation("attribute", "attribute %s has the value '%s', expected '%s'" % (src, got, exp.text))
        # ---- operations
        pend = {}
        for i, o in enumerate(case["ops"]):
            if o[0] == "api":
                kind = "Variable" if o[1] in vvals else "Parameter"
                tab = vvals if o[1] in vvals else vals
                if o[1] not in tab:
                    raise Discard("name")
                typ, val = o[2]
                rc = self.set(kind, o[1], typ, val)
                if (rc == 0) != (tab[o[1]][0] == typ):
                    raise Violation("set", "setting %s %s (%s) as %s returned %d" % (kind, o[1], tab[o[1]][0], typ, rc))
                if rc == 0:
                    tab[o[1]][1] = self.of(typ, val)
            else:
                tab = vals if o[0] == "setparam" else vvals
                if o[1] not in tab:
                    raise Discard("name")
            self.compare(vals, vvals, k, "operation %d" % i)
            # time is 0.1 * (i + 1): the next step starts the event with time > 0.1 i + 0.05
            S.step(0.1)
            if o[0] != "api":
                typ, v = tab[o[1]]
                if o[0] in ("setvar", "setparam"):
                    nv = from_text(o[2])
                    if typ in ("integer", "double") and not nv.num or typ == "boolean" and nv.b is None:
                        raise Discard("type")
                    tab[o[1]][1] = coerce(typ, nv) if typ != "string" else V(text=o[2])
                elif typ in ("integer", "double"):
                    f = float(o[2])
                    if typ == "integer" and f != int(f):
                        raise Discard("type")
                    a, b = (v.lo + f, v.hi + f) if o[0] == "addvar" else (v.lo * f, v.hi * f)
                    if abs(a) > 1e9:
                        raise Discard("large")
                    tab[o[1]][1] = V(min(a, b), max(a, b))
            self.compare(vals, vvals, k, "operation %d (%s)" % (i, o))
        S.close()
        return dict(nontrivial=nexpr > 0, sinks=len(sinks))

    def set(self, kind, name, typ, val):
        f = getattr(self.se, "SE_Set%s%s" % (kind, {"integer": "Int", "double": "Double", "boolean": "Bool", "string": "String"}[typ]))
        return f(name.encode(), val.encode() if typ == "string" else val)

    def compare(self, vals, vvals, nout, when):
        se = self.se
        for kind, tab, extra in (("Parameter", vals, 0), ("Variable", vvals, nout)):
            n = getattr(se, "SE_GetNumberOf%ss" % kind)()
            if n != len(tab) + extra:
                raise Violation("count", "%s: %d %ss, %d are declared" % (when, n, kind.lower(), len(tab) + extra))
            seen = set()
            for i in range(n):
                t = C.c_int()
                nm = getattr(se, "SE_Get%sName" % kind)(i, C.byref(t)).decode()
                seen.add(nm)
                if nm in tab and t.value != TID[tab[nm][0]]:
                    raise Violation("type", "%s %s is of type %d, declared %s" % (kind, nm, t.value, tab[nm][0]))
            if len(seen) != n or not set(tab) <= seen:
                raise Violation("names", "%s: names of %ss are %s, declared %s" % (when, kind, sorted(seen), sorted(tab)))
            for nm, (typ, v) in tab.items():
                for gt, ct, fn in (("integer", C.c_int, "Int"), ("double", C.c_double, "Double"), ("boolean", C.c_bool, "Bool"), ("string", C.c_char_p, "String")):
                    x = ct()
                    rc = getattr(se, "SE_Get%s%s" % (kind, fn))(nm.encode(), C.byref(x))
                    if (rc == 0) != (gt == typ):
                        raise Violation("rc", "%s: reading %s %s (%s) as %s returns %d" % (when, kind, nm, typ, gt, rc))
                    if rc != 0:
                        continue
                    x = x.value
                    if typ == "string":
                        if x.decode() != v.text:
                            raise Violation("value", "%s: %s %s is '%s', expected '%s'" % (when, kind, nm, x.decode(), v.text))
                    elif typ == "boolean":
                        if x != v.b:
                            raise Violation("value", "%s: boolean %s %s is %s, expected %s" % (when, kind, nm, x, v.b))
                    elif not v.lo - 1.1e-6 - 1e-9 * abs(v.lo) <= x <= v.hi + 1.1e-6 + 1e-9 * abs(v.hi):
                        raise Violation("value", "%s: %s %s is %.9g, expected %.9g" % (when, kind, nm, x, v.lo))
            x = C.c_int()
            if getattr(se, "SE_Get%sInt" % kind)(b"no_such_name", C.byref(x)) == 0:
                raise Violation("rc", "reading an undeclared %s succeeds" % kind)


CHECK = S08
