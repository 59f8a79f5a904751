"""Symbolic scalars and the path context.

A symbolic real is a polynomial with rational coefficients over *atoms*; an
atom is an input variable, an if-then-else, a quotient, a square root, an
absolute value or an uninterpreted function value.  Polynomials are kept in
normal form, so algebraic identities cancel before the solver sees them; every
verdict is nevertheless the answer of z3 to the negated claim under the path
condition.  Machine floats are modelled as reals (stated in the evidence).
"""
from fractions import Fraction
import math, time
from .boot import z3

ZERO = Fraction(0)
ONE = Fraction(1)


class Unsupported(Exception):
    """The encoding cannot represent something the code does."""


class PathLimit(Exception):
    """A stated bound (paths, unrolling) was reached."""


class Infeasible(Exception):
    """The current path condition is unsatisfiable."""


# ---------------------------------------------------------------------------
#  constants
# ---------------------------------------------------------------------------
_QCACHE = {}


def frac(x):
    """A rational within 1e-13 (relative) of the machine constant x."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    r = _QCACHE.get(x)
    if r is not None:
        return r
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported("non-finite constant %r" % x)
    f = Fraction(x)
    if f.denominator <= 1 << 20:
        r = f
    else:
        g = f.limit_denominator(1000)
        if g != 0 and abs(f - g) <= abs(f) * Fraction(1, 10**14):
            r = g
        else:
            # round to 44 significant bits
            m, e = math.frexp(x)
            r = Fraction(round(m * (1 << 44))) * (Fraction(2) ** (e - 44))
    if len(_QCACHE) < 200000:
        _QCACHE[x] = r
    return r


_RV = {}


def zval(f):
    f = Fraction(f)
    v = _RV.get(f)
    if v is None:
        v = z3.RatVal(f.numerator, f.denominator)
        if len(_RV) < 100000:
            _RV[f] = v
    return v


# ---------------------------------------------------------------------------
#  path context
# ---------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "z", "kind", "sq", "info", "is_int", "nonneg")

    def __init__(self, id, z, kind, sq=None, info=None, is_int=False, nonneg=False):
        self.id, self.z, self.kind, self.sq, self.info = id, z, kind, sq, info
        self.is_int, self.nonneg = is_int, nonneg


class Stats:
    def __init__(self):
        self.queries = 0
        self.feas = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.claims = 0
        self.trivial = 0
        self.witness = 0

    def add(self, o):
        for k, v in (o if isinstance(o, dict) else o.__dict__).items():
            setattr(self, k, getattr(self, k, 0) + v)


COS3 = (2, 1, -1, -2, -1, 1)   # 2 cos(j pi/3)


class Ctx:
    """One execution path: atoms, path condition, decisions."""
    current = None

    def __init__(self, prefix=(), stats=None, max_decisions=4000, timeout_ms=20000,
                 feas_timeout_ms=4000, check_feas=True):
        self.atoms = []
        self.cache = {}
        self.path = []          # z3 bools: path condition and assumptions
        self.defs = []          # definitional constraints of atoms
        self.prefix = list(prefix)
        self.trace = []         # decisions taken
        self.alts = []          # unexplored prefixes
        self.inputs = []        # (name, atom id)
        self.stats = stats or Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", feas_timeout_ms)
        self.timeout_ms = timeout_ms
        self.feas_timeout_ms = feas_timeout_ms
        self.check_feas = check_feas
        self.max_decisions = max_decisions
        self.nonzero = []       # denominators assumed non-zero
        self.nv = 0             # number of affine (input) variables
        self.keep = []
        self.branch_seq = None
        self.nonlinear = False
        self.pool = None        # models shared by the paths of a case
        self.shared = None
        self.live = None

    # -- atoms ---------------------------------------------------------------
    def atom(self, z, kind, **kw):
        a = Atom(len(self.atoms), z, kind, **kw)
        self.atoms.append(a)
        return a

    def var(self, name, lo=None, hi=None, is_int=False):
        z = z3.Int(name) if is_int else z3.Real(name)
        a = self.atom(z, "var", is_int=is_int, nonneg=(lo is not None and lo >= 0))
        a.info = (None if lo is None else Fraction(lo), None if hi is None else Fraction(hi))
        self.inputs.append((name, a.id))
        if lo is not None:
            self.assume(z >= zval(lo))
        if hi is not None:
            self.assume(z <= zval(hi))
        return R({(a.id,): ONE})

    def fresh(self, kind, is_int=False, **kw):
        n = "%s!%d" % (kind, len(self.atoms))
        z = z3.Int(n) if is_int else z3.Real(n)
        return self.atom(z, kind, is_int=is_int, **kw)

    def define(self, c):
        self.defs.append(c)
        self.solver.add(c)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.path.append(c)
        self.solver.add(c)

    # -- decisions -----------------------------------------------------------
    def feasible(self, c):
        if c is True:
            return True
        if c is False:
            return False
        self.stats.feas += 1
        t = time.time()
        if self.known_model(c):
            self.stats.solver_s += time.time() - t
            return True
        if self.defs and self.nonlinear:
            from . import numeric
            if numeric.hit(self, c) is not None:
                return True
        self.solver.push()
        self.solver.add(c)
        s = self.solver
        s.set("timeout", 15)
        r = s.check()
        s.set("timeout", self.feas_timeout_ms)
        if r == z3.unknown:
            # the one-shot solver preprocesses and is often much faster on polynomial constraints
            s = z3.Solver()
            s.set("timeout", self.feas_timeout_ms)
            s.add(self.defs)
            s.add(self.path)
            s.add(c)
            r = s.check()
        if r == z3.sat and self.pool is not None:
            m = s.model()
            if len(self.pool) < 40:
                self.pool.append(m)
            self.live.append([m, len(self.path), len(self.defs)])
        self.solver.pop()
        self.stats.solver_s += time.time() - t
        return r != z3.unsat

    def known_model(self, c):
        """Does a model found earlier (or a seed point) satisfy the path and c?"""
        if self.pool is None:
            return False
        if self.live is None:
            self.live = [[m, 0, 0] for m in self.seed_points() + self.pool]
        hit = False
        keep = []
        for e in self.live:
            m, p, d = e
            ok = True
            while ok and p < len(self.path):
                ok = z3.is_true(m.eval(self.path[p], model_completion=True))
                p += 1
            while ok and d < len(self.defs):
                ok = z3.is_true(m.eval(self.defs[d], model_completion=True))
                d += 1
            if not ok:
                continue
            e[1], e[2] = p, d
            keep.append(e)
            if not hit and z3.is_true(m.eval(c, model_completion=True)):
                hit = True
                # most recent hits first
                keep[0], keep[-1] = keep[-1], keep[0]
        self.live = keep
        return hit

    def seed_points(self):
        key = "seeds"
        if self.shared is None:
            return []
        if key not in self.shared:
            import random
            rng = random.Random(11)
            out = []
            ins = [self.atoms[i] for _, i in self.inputs]
            for k in range(12):
                s = z3.Solver()
                for a in ins:
                    lo, hi = a.info if isinstance(a.info, tuple) else (None, None)
                    lo = Fraction(-1) if lo is None else lo
                    hi = Fraction(1) if hi is None else hi
                    q = lo + (hi - lo) * Fraction(rng.randint(1, 1008), 1009)
                    s.add(a.z == (int(q) if a.is_int else zval(q)))
                if s.check() == z3.sat:
                    out.append(s.model())
            self.shared[key] = out
        return self.shared[key]

    def decide(self, options):
        """Choose one of mutually exclusive, exhaustive options (z3 bools)."""
        for i, o in enumerate(options):
            if o is True:
                return i
        live = [i for i, o in enumerate(options) if o is not False]
        if len(live) == 1:
            # exhaustive by contract
            return live[0]
        k = len(self.trace)
        if k >= self.max_decisions:
            raise PathLimit("more than %d decisions on a path" % self.max_decisions)
        if k < len(self.prefix):
            i = self.prefix[k]
        else:
            if self.check_feas:
                feas = []
                for j in live:
                    if len(feas) == 0 and j == live[-1]:
                        feas.append(j)      # exhaustive: the last one must be feasible
                    elif self.feasible(options[j]):
                        feas.append(j)
                live = feas
            i = live[0]
            for j in live[1:]:
                self.alts.append(self.trace + [j])
        self.trace.append(i)
        self.path.append(options[i])
        self.solver.add(options[i])
        return i

    def branch(self, c):
        """Fork on a boolean; returns a python bool."""
        if isinstance(c, bool):
            return c
        d = z3.simplify(c)
        if z3.is_true(d):
            return True
        if z3.is_false(d):
            return False
        return self.decide([c, z3.Not(c)]) == 0

    fork_ite = False

    def branch1(self, c):
        """branch, remembering the answer for this very condition."""
        k = ("br", c.get_id())
        r = self.cache.get(k)
        if r is None:
            self.keep.append(c)
            r = self.cache[k] = self.branch(c)
        return r

    def concretize(self, r, lo=None, hi=None, limit=64):
        """Fork over the integer values of a symbolic integer."""
        r = as_const(r)
        if isinstance(r, Fraction):
            return int(r)
        z = r.z3()
        k = len(self.trace)
        if k >= self.max_decisions:
            raise PathLimit("more than %d decisions on a path" % self.max_decisions)
        if k < len(self.prefix):
            v = self.prefix[k][1]
        else:
            vals = self.int_values(z, limit)
            vals = [v for v in vals if (lo is None or v >= lo) and (hi is None or v <= hi)]
            if not vals:
                raise Infeasible()
            v = vals[0]
            for w in vals[1:]:
                self.alts.append(self.trace + [("v", w)])
        self.trace.append(("v", v))
        self.path.append(z == v)
        self.solver.add(z == v)
        return v

    def int_values(self, z, limit):
        vals = []
        self.solver.push()
        t = time.time()
        try:
            while True:
                self.stats.feas += 1
                if self.solver.check() != z3.sat:
                    break
                v = self.solver.model().eval(z, model_completion=True)
                q = v.as_fraction() if z3.is_rational_value(v) else Fraction(v.as_long())
                vals.append(int(q))
                if len(vals) > limit:
                    raise Unsupported("symbolic integer with more than %d values" % limit)
                self.solver.add(z != v)
        finally:
            self.solver.pop()
            self.stats.solver_s += time.time() - t
        if not vals:
            raise Infeasible()
        return sorted(vals)

    # -- atoms for operations --------------------------------------------------
    def ite(self, c, a, b):
        """Real-valued if-then-else."""
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, C) or isinstance(b, C):
            return mkc(self.ite(c, re(a), re(b)), self.ite(c, im(a), im(b)))
        if a is b or (is_sc(a) and is_sc(b) and same(a, b)):
            return a
        if self.fork_ite:
            return a if self.branch1(c) else b
        if isinstance(a, Special) or isinstance(b, Special):
            a, b = despecial(self, a), despecial(self, b)
        key = ("ite", c.get_id(), skey(a), skey(b))
        at = self.cache.get(key)
        if at is None:
            self.keep.append(c)
            at = self.atom(z3.If(c, tz(a), tz(b)), "ite", info=(c, a, b))
            self.cache[key] = at
        return R({(at.id,): ONE})

    def sqrt(self, a):
        a = as_const(a)
        if isinstance(a, Fraction):
            if a < 0:
                return self.fresh_r("nan")
            n, d = a.numerator, a.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return Fraction(rn, rd)
            return frac(math.sqrt(n / d) if n < 10**300 else math.sqrt(a))
        sq = perfect_square(self, a)
        if sq is not None:
            return self.abs(sq)
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if c > 0 and len(m) % 2 == 0 and all(m[i] == m[i + 1] for i in range(0, len(m), 2)):
                return self.abs(R({tuple(m[::2]): frac(math.sqrt(c))}))
        c, k = monic_key(a)
        hit = self.cache.get(("sqof", k))
        if hit is not None and c > 0:
            # a = (c / c0) * s^2
            r = self.sqrt(c / hit[0])
            if isinstance(r, Fraction):
                return self.abs(hit[1]) * r
        key = ("sqrt", a.key())
        at = self.cache.get(key)
        if at is None:
            at = self.fresh("sqrt", sq=a, nonneg=True)
            self.cache[key] = at
            self.define(at.z >= 0)
            self.define(at.z * at.z == a.z3())
            self.nonlinear = True
        return R({(at.id,): ONE})

    def root(self, a, q):
        """The nonnegative real q-th root of a >= 0, q odd."""
        a = as_const(a)
        if isinstance(a, Fraction):
            return frac(float(a) ** (1.0 / q)) if a >= 0 else self.fresh_r("nan")
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if len(m) % q == 0 and all(m[i] == m[i + q - 1] for i in range(0, len(m), q)) and \
                    all(self.atoms[i].nonneg for i in m) and c > 0:
                return R({tuple(m[::q]): frac(float(c) ** (1.0 / q))})
        key = ("root", q, a.key())
        at = self.cache.get(key)
        if at is None:
            at = self.fresh("root", info=(a, q), nonneg=True)
            self.cache[key] = at
            self.define(at.z >= 0)
            w = at.z
            for _ in range(q - 1):
                w = w * at.z
            self.define(w == a.z3())
            self.nonlinear = True
        return R({(at.id,): ONE})

    def third_cos(self, w, k, s):
        """c = cos(s pi/3 + (k/3) acos(w)), k in +-1, +-2: root of 4 c^3 - 3 c = cos(s pi + k acos(w))."""
        key = ("thirdc", k, s, w.key())
        at = self.cache.get(key)
        if at is None:
            at = self.fresh("third", info=(w, k, s))
            self.cache[key] = at
            z, c = w.z3(), at.z
            v = z if abs(k) == 1 else 2 * z * z - 1
            if s % 2:
                v = -v
            ends = lambda i, j: tuple(sorted((Fraction(COS3[i % 6], 2), Fraction(COS3[j % 6], 2))))
            sg = 1 if k > 0 else -1
            arcs = [(z3.BoolVal(True), ends(s, s + sg))] if abs(k) == 1 else \
                [(z >= 0, ends(s, s + sg)), (z < 0, ends(s + sg, s + 2 * sg))]
            dom = z3.And(z >= -1, z <= 1)
            for g, (lo, hi) in arcs:
                self.define(z3.Implies(z3.And(dom, g), z3.And(c >= z3.Q(lo.numerator, lo.denominator), c <= z3.Q(hi.numerator, hi.denominator))))
            self.define(z3.Implies(dom, 4 * c * c * c - 3 * c == v))
            self.define(z3.And(c >= -1, c <= 1))
            self.nonlinear = True
        return R({(at.id,): ONE})

    def third_angle(self, w):
        """cos(acos(w) / 3): the root of 4 c^3 - 3 c = w in [1/2, 1]."""
        key = ("third", w.key())
        at = self.cache.get(key)
        if at is None:
            at = self.fresh("third", info=(w, 1, 0), nonneg=True)
            self.cache[key] = at
            z = w.z3()
            self.define(z3.And(2 * at.z >= 1, at.z <= 1))
            self.define(z3.Implies(z3.And(z >= -1, z <= 1), 4 * at.z * at.z * at.z - 3 * at.z == z))
            self.nonlinear = True
        return R({(at.id,): ONE})

    def abs(self, a):
        a = as_const(a)
        if isinstance(a, Fraction):
            return abs(a)
        if nonneg(self, a):
            return a
        g, p = common_factor(self, a, lambda at: at.nonneg)
        if g:
            return self.abs(p) * R({g: ONE})
        lead = a.lead_sign()
        b = a if lead > 0 else -a
        if self.fork_ite:
            c = cmp_("ge", b, ZERO)
            return b if (c if isinstance(c, bool) else self.branch1(c)) else -b
        key = ("abs", b.key())
        at = self.cache.get(key)
        if at is None:
            z = b.z3()
            at = self.atom(z3.If(z >= 0, z, -z), "abs", sq=b * b, info=b, nonneg=True)
            self.cache[key] = at
        return R({(at.id,): ONE})

    def div(self, a, b):
        b = as_const(b)
        if isinstance(a, C):
            return mkc(self.div(a.re, b), self.div(a.im, b))
        if isinstance(b, Fraction):
            if b == 0:
                return self.fresh_r("nan")
            if isinstance(a, Fraction):
                return a / b
            return a * (ONE / b)
        if is_zero(a):
            return ZERO
        # proportional?
        if isinstance(a, R):
            k = proportional(a, b)
            if k is not None:
                self.assume_nonzero(b)
                return k
        return a * self.inv(b)

    def assume_nonzero(self, b):
        key = ("nz", b.key())
        if key not in self.cache:
            self.cache[key] = True
            c = b.z3() != 0
            self.nonzero.append(c)
            self.path.append(c)
            self.solver.add(c)

    def inv(self, b):
        # single monomial: product of atom inverses
        if len(b.t) == 1:
            (m, c), = b.t.items()
            r = ONE / c
            for x in m:
                r = r * self.inv_atom(x)
            return r
        lead = b.t[min(b.t, key=_mono_order)]
        nb = b * (ONE / lead)
        key = ("inv", nb.key())
        at = self.cache.get(key)
        if at is None:
            at = self.fresh("inv", info=nb)
            self.cache[key] = at
            self.assume_nonzero(nb)
            self.define(at.z * nb.z3() == 1)
            self.nonlinear = True
            if nonneg(self, nb):
                at.nonneg = True
        return R({(at.id,): ONE / lead})

    def inv_atom(self, x):
        key = ("invat", x)
        at = self.cache.get(key)
        if at is None:
            base = self.atoms[x]
            if base.kind == "inv" and isinstance(base.info, int):
                return R({(base.info,): ONE})
            if base.kind == "inv":
                return base.info
            at = self.fresh("inv", info=x, nonneg=base.nonneg)
            self.cache[key] = at
            zz = base.z if not base.is_int else z3.ToReal(base.z)
            c = zz != 0
            self.nonzero.append(c)
            self.path.append(c)
            self.solver.add(c)
            self.define(at.z * zz == 1)
            self.nonlinear = True
        return R({(at.id,): ONE})

    def fresh_r(self, kind="nd", **kw):
        return R({(self.fresh(kind, **kw).id,): ONE})

    def uf(self, name, *args):
        """Uninterpreted real function (equal arguments give equal values)."""
        key = ("uf", name) + tuple(skey(a) for a in args)
        at = self.cache.get(key)
        if at is None:
            f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
            at = self.fresh("uf", info=(name, args))
            self.define(at.z == f(*[tz(a) for a in args]))
            self.cache[key] = at
            if name == "exp":
                at.nonneg = True
                self.define(at.z > 0)
        return R({(at.id,): ONE})

    def to_real(self, b):
        if isinstance(b, bool):
            return ONE if b else ZERO
        return self.ite(b, ONE, ZERO)

    @property
    def INF(self):
        """+infinity: a positive real larger than every bounded quantity."""
        at = self.cache.get("INF")
        if at is None:
            at = self.fresh("inf", nonneg=True)
            self.cache["INF"] = at
            self.define(at.z >= zval(10**15))
        return R({(at.id,): ONE})


class Special(float):
    """A non-finite float constant inside an object array."""


def despecial(ctx, a):
    if isinstance(a, Special):
        if a != a:
            return ctx.fresh_r("nan")
        return ctx.INF if a > 0 else -ctx.INF
    return a


# ---------------------------------------------------------------------------
#  polynomials
# ---------------------------------------------------------------------------
def _mono_order(m):
    return (len(m), m)


class R:
    """Non-constant real polynomial over atoms of the current context."""
    __slots__ = ("t", "_k", "_z", "nn")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._z = None
        self.nn = False         # known to be a sum of squares

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        return hash(self.key())

    def lead_sign(self):
        return 1 if self.t[min(self.t, key=_mono_order)] > 0 else -1

    def z3(self):
        if self._z is None:
            atoms = Ctx.current.atoms
            terms = []
            for m, c in sorted(self.t.items()):
                fs = []
                for x in m:
                    a = atoms[x]
                    fs.append(z3.ToReal(a.z) if a.is_int else a.z)
                if not fs:
                    terms.append(zval(c))
                    continue
                if c != 1:
                    fs.insert(0, zval(c))
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                terms.append(p)
            self._z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return self._z

    # arithmetic -----------------------------------------------------------
    def __neg__(self):
        return R({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __add__(self, o):
        if isinstance(o, C):
            return C(self + o.re, o.im)
        if isinstance(o, Special):
            return o
        if isinstance(o, R):
            t = dict(self.t)
            for m, c in o.t.items():
                v = t.get(m)
                if v is None:
                    t[m] = c
                else:
                    v = v + c
                    if v:
                        t[m] = v
                    else:
                        del t[m]
            r = _norm(t)
            if self.nn and o.nn and isinstance(r, R):
                r.nn = True
            return r
        if isinstance(o, (int, Fraction)):
            if o == 0:
                return self
            t = dict(self.t)
            v = t.get((), ZERO) + o
            if v:
                t[()] = v
            else:
                t.pop((), None)
            r = _norm(t)
            if self.nn and o > 0 and isinstance(r, R):
                r.nn = True
            return r
        if isinstance(o, float):
            return self + frac(o)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, C):
            return C(self * o.re, self * o.im)
        if isinstance(o, Special):
            raise Unsupported("inf * symbolic")
        if isinstance(o, R):
            r = _mul(self, o)
            if isinstance(r, R) and (o is self or (self.nn and o.nn) or self.t == o.t):
                r.nn = True
            return r
        if isinstance(o, (int, Fraction)):
            if o == 0:
                return ZERO
            if o == 1:
                return self
            r = R({m: c * o for m, c in self.t.items()})
            if self.nn and o > 0:
                r.nn = True
            return r
        if isinstance(o, float):
            return self * frac(o)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, n):
        return power(self, n)

    def __repr__(self):
        return "R<%s>" % self.z3()

    def __bool__(self):
        raise Unsupported("truth value of a symbolic real")


def _norm(t):
    if not t:
        return ZERO
    if len(t) == 1 and () in t:
        return t[()]
    return R(t)


def _mul(a, b):
    atoms = Ctx.current.atoms
    t = {}
    redo = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            c = c1 * c2
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = _merge(m1, m2)
                if _reducible(m, atoms):
                    redo.append((m, c))
                    continue
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
    r = _norm(t)
    for m, c in redo:
        r = r + _reduce(m, atoms) * c
    return r


def _merge(m1, m2):
    return tuple(sorted(m1 + m2))


def _reducible(m, atoms):
    prev = -1
    for x in m:
        a = atoms[x]
        if x == prev and a.sq is not None:
            return True
        if a.kind == "inv":
            if isinstance(a.info, int) and a.info in m:
                return True
        prev = x
    return False


def _reduce(m, atoms):
    """Rewrite s*s -> radicand, |a|*|a| -> a*a, x*(1/x) -> 1."""
    m = list(m)
    r = ONE
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(m):
            a = atoms[x]
            if a.kind == "inv" and isinstance(a.info, int) and a.info in m:
                m.remove(x)
                m.remove(a.info)
                changed = True
                break
            if a.sq is not None and m.count(x) >= 2:
                m.remove(x)
                m.remove(x)
                r = r * a.sq if not isinstance(r, Fraction) else a.sq * r
                changed = True
                break
    if not m:
        return r
    p = R({tuple(m): ONE})
    return p * r


class C:
    """Complex scalar (re, im), each Fraction or R."""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __neg__(self):
        return C(-self.re, -self.im)

    def __add__(self, o):
        if isinstance(o, C):
            return mkc(self.re + o.re, self.im + o.im)
        if isinstance(o, (R, int, Fraction)):
            return C(self.re + o, self.im)
        if isinstance(o, (float, complex)):
            return self + tosc(o)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, C):
            return mkc(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
        if isinstance(o, (R, int, Fraction)):
            return mkc(self.re * o, self.im * o)
        if isinstance(o, (float, complex)):
            return self * tosc(o)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __repr__(self):
        return "C<%r,%r>" % (self.re, self.im)


def mkc(a, b):
    if isinstance(b, (int, Fraction)) and b == 0:
        return a
    return C(a, b)


def re(a):
    return a.re if isinstance(a, C) else a


def im(a):
    return a.im if isinstance(a, C) else ZERO


def conj(a):
    return C(a.re, -a.im) if isinstance(a, C) else a


def is_sc(a):
    return isinstance(a, (Fraction, int, R, C)) and not isinstance(a, bool)


def is_zero(a):
    return isinstance(a, (int, Fraction)) and a == 0


def as_const(a):
    if isinstance(a, R) and len(a.t) == 1 and () in a.t:
        return a.t[()]
    if isinstance(a, int):
        return Fraction(a)
    return a


def skey(a):
    if isinstance(a, R):
        return a.key()
    if isinstance(a, C):
        return (skey(a.re), skey(a.im))
    return a


def same(a, b):
    return skey(a) == skey(b)


def tz(a):
    """z3 term of a real scalar."""
    if isinstance(a, R):
        return a.z3()
    if isinstance(a, Special):
        return tz(despecial(Ctx.current, a))
    if isinstance(a, C):
        raise Unsupported("complex in real position")
    if isinstance(a, bool):
        return zval(1 if a else 0)
    return zval(frac(a))


def tosc(x):
    """Machine scalar -> Fraction/C/Special/bool/int."""
    if isinstance(x, (R, C, Fraction, Special)):
        return x
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, complex):
        if x.imag == 0:
            return tosc(x.real)
        return C(tosc(x.real), tosc(x.imag))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        return Special(x)
    return frac(x)


def div(a, b):
    ctx = Ctx.current
    if isinstance(a, (float, int)):
        a = tosc(a)
    if isinstance(b, (float, int)):
        b = tosc(b)
    if isinstance(b, C):
        n = b.re * b.re + b.im * b.im
        return ctx.div(a * conj(b), n)
    return ctx.div(a, b)


def power(a, n):
    n = int(n)
    if n < 0:
        return div(ONE, power(a, -n))
    r = ONE
    for _ in range(n):
        r = r * a if not isinstance(r, Fraction) else a * r
    if n == 2 and isinstance(a, R) and isinstance(r, R):
        c, k = monic_key(r)
        if c > 0:
            Ctx.current.cache.setdefault(("sqof", k), (c, a))
    return r


def monic_key(a):
    """(c, key of a / c), c the coefficient of a's first monomial."""
    m0 = min(a.t)
    c = a.t[m0]
    return c, (a * (ONE / c)).key()


def common_factor(ctx, a, ok):
    """(g, p) with a = g * p, g the monomial of admissible atoms dividing every monomial of a."""
    ms = iter(a.t)
    first = next(ms)
    cand = {i: first.count(i) for i in set(first) if ok(ctx.atoms[i])}
    for m in ms:
        if not cand:
            break
        for i in list(cand):
            k = min(cand[i], m.count(i))
            if k:
                cand[i] = k
            else:
                del cand[i]
    if not cand:
        return (), a
    t = {}
    for m, c in a.t.items():
        l = list(m)
        for i, k in cand.items():
            for _ in range(k):
                l.remove(i)
        t[tuple(l)] = c
    return tuple(sorted(i for i, k in cand.items() for _ in range(k))), as_const(R(t))


def clear_positive(ctx, d, limit=300):
    """d multiplied by positive quantities until no inverse of a positive atom remains (None: nothing to do)."""
    k = {}
    for m in d.t:
        for i in set(m):
            at = ctx.atoms[i]
            if at.kind == "inv":
                if not at.nonneg:
                    return None
                k[i] = max(k.get(i, 0), m.count(i))
    if not k:
        return None
    for i, n in k.items():
        at = ctx.atoms[i]
        base = R({(at.info,): ONE}) if isinstance(at.info, int) else at.info
        if len(base.t) ** n * len(d.t) > 4 * limit:
            return None
        t = ZERO
        for m, c in d.t.items():
            j = m.count(i)
            p = as_const(R({tuple(x for x in m if x != i): c})) if any(x != i for x in m) else c
            for _ in range(n - j):
                p = base * p
            t = t + p
        d = as_const(t)
        if isinstance(d, (int, Fraction)):
            return d
        if len(d.t) > limit:
            return None
    return d


def _positive(ctx):
    def ok(at):
        if not at.nonneg:
            return False
        return at.kind == "inv" or ("invat", at.id) in ctx.cache
    return ok


def proportional(a, b):
    if len(a.t) != len(b.t):
        return None
    k = None
    for m, c in a.t.items():
        d = b.t.get(m)
        if d is None:
            return None
        q = c / d
        if k is None:
            k = q
        elif q != k:
            return None
    return k


def nonneg(ctx, a):
    """Cheap syntactic proof of a >= 0."""
    if isinstance(a, Fraction):
        return a >= 0
    if a.nn:
        return True
    for m, c in a.t.items():
        if c < 0:
            return False
        i = 0
        while i < len(m):
            if i + 1 < len(m) and m[i] == m[i + 1]:
                i += 2
                continue
            if ctx.atoms[m[i]].nonneg:
                i += 1
                continue
            return False
    return True


def perfect_square(ctx, a):
    """a == s*s for a monomial s?"""
    if len(a.t) != 1:
        return None
    (m, c), = a.t.items()
    if c < 0 or len(m) % 2:
        return None
    if any(m[i] != m[i + 1] for i in range(0, len(m), 2)):
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    return R({tuple(m[::2]): Fraction(n, d)})


# ---------------------------------------------------------------------------
#  comparisons (return python bool or z3 bool)
# ---------------------------------------------------------------------------
def _cmpz(a, b):
    return a - b


def cmp_(op, a, b):
    ctx = Ctx.current
    if isinstance(a, Special) or isinstance(b, Special):
        fa = a if isinstance(a, Special) else None
        fb = b if isinstance(b, Special) else None
        if (fa is not None and fa != fa) or (fb is not None and fb != fb):
            return op == "ne"
        va = float(fa) if fa is not None else 0.0
        vb = float(fb) if fb is not None else 0.0
        if fa is not None and fb is None and isinstance(b, R) and _has_inf(ctx, b):
            a = despecial(ctx, a)
        elif fb is not None and fa is None and isinstance(a, R) and _has_inf(ctx, a):
            b = despecial(ctx, b)
        else:
            return {"lt": va < vb, "le": va <= vb, "gt": va > vb, "ge": va >= vb,
                    "eq": va == vb, "ne": va != vb}[op]
    if isinstance(a, C) or isinstance(b, C):
        if op == "eq":
            return and_(cmp_("eq", re(a), re(b)), cmp_("eq", im(a), im(b)))
        if op == "ne":
            return not_(cmp_("eq", a, b))
        raise Unsupported("ordering of complex numbers")
    d = as_const(a - b)
    if isinstance(d, (int, Fraction)):
        return {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0,
                "eq": d == 0, "ne": d != 0}[op]
    # cheap sign reasoning
    if op in ("ge", "lt"):
        if nonneg(ctx, d):
            return op == "ge"
    if op in ("le", "gt"):
        if nonneg(ctx, -d):
            return op == "le"
    g, p = common_factor(ctx, d, _positive(ctx))
    if g:
        return cmp_(op, p, ZERO)
    p = clear_positive(ctx, d)
    if p is not None:
        return cmp_(op, p, ZERO)
    q = _square_cmp(ctx, op, d)
    if q is not None:
        return q
    z = d.z3()
    return {"lt": z < 0, "le": z <= 0, "gt": z > 0, "ge": z >= 0,
            "eq": z == 0, "ne": z != 0}[op]


def _roots(ctx, m):
    """(N, D) with monomial m = sqrt(N/D), when m is a product of square roots and their inverses."""
    N = D = ONE
    for x in m:
        a = ctx.atoms[x]
        if a.kind == "sqrt":
            N = a.sq * N if isinstance(N, Fraction) else N * a.sq
        elif a.kind == "inv" and isinstance(a.info, int) and ctx.atoms[a.info].kind == "sqrt":
            q = ctx.atoms[a.info].sq
            D = q * D if isinstance(D, Fraction) else D * q
        else:
            return None
    return N, D


_FLIP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


def _square_cmp(ctx, op, d):
    """Comparisons of square roots, decided on their squares."""
    ms = [(m, _roots(ctx, m)) for m in d.t if m]
    rs = [(m, r) for m, r in ms if r is not None]
    if len(rs) == 1:
        m, (N, D) = rs[0]
        c = d.t[m]
        rest = d - R({m: c})
        P = as_const(rest * (-ONE / c))
        if c < 0:
            op = _FLIP[op]
        if isinstance(P, (int, Fraction)):
            if P < 0:
                return op in ("gt", "ge", "ne")
            if P == 0:
                return None
            return cmp_(op, N, D * (P * P))
        if not isinstance(D, Fraction) or max(len(x) for x in P.t) > 1 or len(N.t) > 40:
            return None
        if any(ctx.atoms[x].kind not in ("var", "abs") for mm in P.t for x in mm):
            return None
        s = cmp_(op, N, P * P)
        neg = cmp_("lt", P, ZERO)
        if op in ("gt", "ge", "ne"):
            return or_(neg, s)
        return and_(not_(neg), s)
    if len(rs) == 2 and len(d.t) == 2:
        (m1, (N1, D1)), (m2, (N2, D2)) = rs
        c1, c2 = d.t[m1], d.t[m2]
        if c1 * c2 > 0:
            return None
        if c1 < 0:
            op = _FLIP[op]
        return cmp_(op, N1 * D2 * (c1 * c1), N2 * D1 * (c2 * c2))
    return None


def _has_inf(ctx, a):
    for m in a.t:
        for x in m:
            k = ctx.atoms[x]
            if k.kind in ("inf", "nan", "ite"):
                return True
            if k.kind == "abs" and isinstance(k.info, R) and _has_inf(ctx, k.info):
                return True
    return False


def and_(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def not_(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def iff_(a, b):
    if isinstance(a, bool):
        return b if a else not_(b)
    if isinstance(b, bool):
        return a if b else not_(a)
    return a == b


def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else z3.Not(c)
    return or_(and_(c, a), and_(not_(c), b))


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


# ---------------------------------------------------------------------------
#  rational normal form
# ---------------------------------------------------------------------------
def rational_numerator(ctx, p, limit=60000):
    """A polynomial N without inverse atoms such that p = 0 iff N = 0 (all inverted
    quantities being non-zero), or None when it grows beyond the limit."""
    for _ in range(200):
        if not isinstance(p, R):
            return p
        ids = {x for m in p.t for x in m if ctx.atoms[x].kind == "inv"}
        if not ids:
            return p
        x = max(ids)
        info = ctx.atoms[x].info
        D = R({(info,): ONE}) if isinstance(info, int) else info
        K = max(m.count(x) for m in p.t)
        parts = {}
        for m, c in p.t.items():
            k = m.count(x)
            mm = tuple(y for y in m if y != x)
            q = parts.setdefault(k, {})
            q[mm] = q.get(mm, ZERO) + c
        out = ZERO
        Dp = ONE
        for k in range(K, -1, -1):
            if k in parts:
                q = _norm({m: c for m, c in parts[k].items() if c})
                if not (isinstance(q, Fraction) and q == 0):
                    if isinstance(q, R) and isinstance(Dp, R) and len(q.t) * len(Dp.t) > 4 * limit:
                        return None
                    out = out + q * Dp
            if k:
                Dp = D * Dp
        p = as_const(out)
        if isinstance(p, R) and len(p.t) > limit:
            return None
    return None
