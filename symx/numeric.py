"""Float evaluation of atoms and conditions at concrete input points.

Used only to find points (reachability witnesses, feasible branches, candidate
counterexamples that are then replayed on the real code); proofs never rest on it."""
import math, random
from fractions import Fraction
from .boot import z3
from . import core as K

EPS = 1e-9
_UF = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh,
       "log1p": math.log1p, "expm1": math.expm1, "erf": math.erf, "acos": math.acos, "asin": math.asin,
       "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "lgamma": math.lgamma, "atan2": math.atan2,
       "pow": lambda a, b: a ** b}


class Unknown(Exception):
    pass


class NumEval:
    """One input point, evaluated along one path."""

    def __init__(self, ctx, point):
        self.ctx, self.point = ctx, point      # point: input name -> Fraction
        self.v = {}
        self.memo = {}
        self.names = {}
        self.n = 0
        self.p = 0
        self.sync()

    def sync(self):
        at = self.ctx.atoms
        while self.n < len(at):
            a = at[self.n]
            if a.z.num_args() == 0:
                self.names[a.z.get_id()] = a.id
            self.n += 1

    def atom(self, i):
        if i in self.v:
            r = self.v[i]
            if r is None:
                raise Unknown()
            return r
        self.v[i] = None
        a = self.ctx.atoms[i]
        k = a.kind
        try:
            if k == "var":
                q = self.point.get(str(a.z))
                if q is None:
                    raise Unknown()
                r = (float(q), abs(float(q)))
            elif k == "ite":
                c, u, w = a.info
                r = self.sc(u if self.true(c) else w)
            elif k == "abs":
                x, m = self.sc(a.info)
                r = (abs(x), m)
            elif k == "sqrt":
                x, m = self.sc(a.sq)
                if x < 0:
                    if x < -EPS * m:
                        raise Unknown()
                    x = 0.0
                s = math.sqrt(x)
                r = (s, max(s, min(math.sqrt(m), m / s if s else math.sqrt(m))))
            elif k == "root":
                x, m = self.sc(a.info[0])
                if x < 0:
                    raise Unknown()
                s = x ** (1.0 / a.info[1])
                r = (s, s)
            elif k == "inv":
                x, m = self.atom(a.info) if isinstance(a.info, int) else self.sc(a.info)
                if abs(x) <= EPS * m or x == 0:
                    raise Unknown()
                r = (1 / x, m / (x * x))
            elif k == "third":
                w, kk, s = a.info
                x, m = self.sc(w)
                if not -1 <= x <= 1:
                    raise Unknown()
                r = (math.cos(s * math.pi / 3 + kk / 3.0 * math.acos(x)), 1.0)
            elif k == "uf":
                f = _UF.get(a.info[0])
                if f is None:
                    raise Unknown()
                y = f(*[self.sc(q)[0] for q in a.info[1]])
                r = (y, abs(y) * 1e3 + 1e-6)
            elif k == "floor" and a.info is not None:
                x, m = self.sc(a.info)
                if abs(x - round(x)) <= EPS * (m + 1):
                    raise Unknown()
                r = (float(math.floor(x)), abs(x))
            else:
                raise Unknown()
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            raise Unknown()
        if not (math.isfinite(r[0]) and math.isfinite(r[1])):
            raise Unknown()
        self.v[i] = r
        return r

    def sc(self, x):
        """(value, magnitude) of a real scalar."""
        if isinstance(x, Fraction):
            f = float(x)
            return f, abs(f)
        if not isinstance(x, K.R):
            raise Unknown()
        s = m = 0.0
        for mo, c in x.t.items():
            p = q = float(c)
            q = abs(q)
            for i in mo:
                y, z = self.atom(i)
                p *= y
                q *= max(z, abs(y))
            s += p
            m += q
        return s, m

    def true(self, c):
        """Truth of a z3 boolean at this point; Unknown near ties."""
        if isinstance(c, bool):
            return c
        self.sync()
        return self.b(c)

    def b(self, e):
        k = e.get_id()
        if k in self.memo:
            r = self.memo[k][1]
            if r is None:
                raise Unknown()
            return r
        self.memo[k] = (e, None)
        kd = e.decl().kind()
        if kd == z3.Z3_OP_TRUE:
            r = True
        elif kd == z3.Z3_OP_FALSE:
            r = False
        elif kd in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = kd == z3.Z3_OP_OR
            unk = False
            r = not stop
            for c in e.children():
                try:
                    if self.b(c) == stop:
                        r = stop
                        break
                except Unknown:
                    unk = True
            else:
                if unk:
                    raise Unknown()
        elif kd == z3.Z3_OP_NOT:
            r = not self.b(e.arg(0))
        elif kd == z3.Z3_OP_IMPLIES:
            r = (not self.b(e.arg(0))) or self.b(e.arg(1))
        elif kd == z3.Z3_OP_ITE:
            r = self.b(e.arg(1)) if self.b(e.arg(0)) else self.b(e.arg(2))
        elif kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF):
            if z3.is_bool(e.arg(0)):
                r = self.b(e.arg(0)) == self.b(e.arg(1))
            else:
                (x, mx), (y, my) = self.r(e.arg(0)), self.r(e.arg(1))
                d = x - y
                if abs(d) <= EPS * (mx + my):
                    if d == 0 and mx == abs(x) and my == abs(y) and mx + my == 0:
                        pass
                    else:
                        raise Unknown()
                r = {z3.Z3_OP_LE: d <= 0, z3.Z3_OP_LT: d < 0, z3.Z3_OP_GE: d >= 0, z3.Z3_OP_GT: d > 0,
                     z3.Z3_OP_EQ: d == 0, z3.Z3_OP_DISTINCT: d != 0}.get(kd)
            if kd == z3.Z3_OP_DISTINCT and z3.is_bool(e.arg(0)):
                r = not r
        else:
            raise Unknown()
        self.memo[k] = (e, r)
        return r

    def r(self, e):
        k = e.get_id()
        if k in self.memo:
            r = self.memo[k][1]
            if r is None:
                raise Unknown()
            return r
        self.memo[k] = (e, None)
        if z3.is_rational_value(e):
            f = e.numerator_as_long() / e.denominator_as_long()
            r = (f, abs(f))
        elif z3.is_int_value(e):
            f = float(e.as_long())
            r = (f, abs(f))
        else:
            kd = e.decl().kind()
            if kd == z3.Z3_OP_ADD:
                s = m = 0.0
                for c in e.children():
                    a, b = self.r(c)
                    s += a
                    m += b
                r = (s, m)
            elif kd == z3.Z3_OP_MUL:
                s = m = 1.0
                for c in e.children():
                    a, b = self.r(c)
                    s *= a
                    m *= max(b, abs(a))
                r = (s, m)
            elif kd == z3.Z3_OP_SUB:
                (a, x), (b, y) = self.r(e.arg(0)), self.r(e.arg(1))
                r = (a - b, x + y)
            elif kd == z3.Z3_OP_UMINUS:
                a, x = self.r(e.arg(0))
                r = (-a, x)
            elif kd == z3.Z3_OP_TO_REAL:
                r = self.r(e.arg(0))
            elif kd == z3.Z3_OP_ITE:
                r = self.r(e.arg(1)) if self.b(e.arg(0)) else self.r(e.arg(2))
            elif e.num_args() == 0:
                i = self.names.get(k)
                if i is None:
                    self.sync()
                    i = self.names.get(k)
                if i is None:
                    raise Unknown()
                r = self.atom(i)
            else:
                raise Unknown()
        self.memo[k] = (e, r)
        return r

    def eval(self, e, model_completion=True):
        """Model-like interface."""
        try:
            if z3.is_bool(e):
                return z3.BoolVal(self.true(e))
            i = self.names.get(e.get_id())
            if i is not None and self.ctx.atoms[i].kind == "var":
                q = self.point.get(str(e), Fraction(0))
                return z3.IntVal(int(q)) if z3.is_int(e) else z3.Q(q.numerator, q.denominator)
            self.sync()
            q = Fraction(self.r(e)[0])
            return z3.Q(q.numerator, q.denominator)
        except Unknown:
            return e

    def on_path(self):
        """Does the point satisfy the path condition so far?"""
        path = self.ctx.path
        while self.p < len(path):
            try:
                if not self.true(path[self.p]):
                    return False
            except Unknown:
                return False
            self.p += 1
        return True


def points(ctx, n=24):
    """Input points shared by the paths of a case: random ones and those of earlier models."""
    sh = ctx.shared
    if sh is None:
        return []
    if "num" not in sh:
        sh["num"] = []
        sh["numseen"] = 0
        rng = random.Random(5)
        sh["numrng"] = rng
    names = [(nm, ctx.atoms[i]) for nm, i in ctx.inputs]
    key = tuple(nm for nm, _ in names)
    if sh.get("numkey") != key:
        sh["numkey"] = key
        rng = sh["numrng"]
        for k in range(n):
            pt = {}
            for nm, a in names:
                lo, hi = a.info if isinstance(a.info, tuple) else (None, None)
                lo = Fraction(-1) if lo is None else lo
                hi = Fraction(1) if hi is None else hi
                q = lo + (hi - lo) * Fraction(rng.randint(1, 1023), 1024)
                pt[str(a.z)] = Fraction(int(q)) if a.is_int else q
            sh["num"].append(pt)
    pool = ctx.pool or []
    while sh["numseen"] < len(pool):
        m = pool[sh["numseen"]]
        sh["numseen"] += 1
        pt = {}
        for nm, a in names:
            v = m.eval(a.z, model_completion=True)
            if z3.is_rational_value(v):
                pt[str(a.z)] = v.as_fraction()
            elif z3.is_int_value(v):
                pt[str(a.z)] = Fraction(v.as_long())
            elif z3.is_algebraic_value(v):
                pt[str(a.z)] = v.approx(20).as_fraction()
        sh["num"].append(pt)
    return sh["num"]


def alive(ctx):
    """The points that follow the current path."""
    if ctx.shared is None:
        return []
    pts = points(ctx)
    st = getattr(ctx, "numlive", None)
    if st is None:
        st = ctx.numlive = []
        ctx.numtaken = 0
    while ctx.numtaken < len(pts):
        st.append(NumEval(ctx, pts[ctx.numtaken]))
        ctx.numtaken += 1
    ctx.numlive = [e for e in st if e.on_path()]
    return ctx.numlive


def hit(ctx, c):
    """A point on the path where c holds, or None."""
    for e in alive(ctx):
        try:
            if e.true(c):
                return e
        except Unknown:
            pass
    return None
