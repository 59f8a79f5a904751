"""Harness: one property body, executed symbolically (deciding) or concretely (replay)."""
import json, time, traceback, random, math, signal
from fractions import Fraction
from .boot import z3, jax, jnp
import numpy as np
from . import core as K
from . import trace as T
from . import numeric
from .core import (Ctx, R, C, Special, ZERO, ONE, Unsupported, PathLimit, Infeasible, Stats, tosc, cmp_,
                   and_, or_, not_, re, im, conj, tz, zval, frac, zb, as_const)
from .trace import Sym, Session, obj_arr, F


class Skip(Exception):
    """Concrete input outside the assumptions."""


class Violated(Exception):
    def __init__(self, claim, detail=""):
        self.claim, self.detail = claim, detail


class H:
    """Common interface of the two modes."""
    symbolic = False

    # -- assumptions / claims as combinators over numpy or object arrays --------
    def absv(self, a):
        raise NotImplementedError


def _flat(a):
    return np.asarray(a, dtype=object).reshape(-1) if not isinstance(a, np.ndarray) else a.reshape(-1)


class SymH(H):
    symbolic = True

    def __init__(self, ctx, seed=0):
        self.ctx = ctx
        self.s = Session(ctx)
        self.claims = []
        self.outputs = []
        self.seed = seed

    # inputs -------------------------------------------------------------------
    def inputs(self, **specs):
        """name=(shape, lo, hi[, dtype]); returns object arrays usable in claims."""
        lst = []
        for n, sp in specs.items():
            shape, lo, hi = sp[:3]
            dt = sp[3] if len(sp) > 3 else np.float64
            lst.append((n, shape, dt, lo, hi))
        self.syms = self.s.declare(lst)
        out = [self.syms[n] for n in specs]
        return out if len(out) > 1 else out[0]

    def call(self, f, *args, **kw):
        """Run the real code."""
        a = [self._in(x) for x in args]
        k = {n: self._in(x) for n, x in kw.items()}
        out = self.s.run(f, *a, **k)
        out = jax.tree_util.tree_map(self._out, out, is_leaf=lambda x: isinstance(x, Sym))
        self.outputs.append(out)
        return out

    def shape(self, a):
        return tuple(a.shape)

    def _in(self, x):
        if isinstance(x, Arr):
            return x.v
        if isinstance(x, np.ndarray) and x.dtype == object:
            o = T.force(x)
            dt = np.float64
            for v in o.reshape(-1):
                if isinstance(v, C):
                    dt = np.complex128
                    break
                if isinstance(v, (bool, z3.BoolRef)):
                    dt = np.bool_
            return T.mk(o, dt)
        return x

    def _out(self, x):
        if isinstance(x, Sym):
            return Arr(x)
        if isinstance(x, (np.ndarray, jax.Array)):
            x = np.asarray(x)
            if x.dtype.kind in "fciub":
                return Arr(x)
        return x

    def val(self, x):
        """Object array (or scalar) for use in arithmetic."""
        if isinstance(x, Arr):
            return x.o()
        if isinstance(x, Sym):
            return F(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x
        return obj_arr(np.asarray(x))

    # logic ----------------------------------------------------------------------
    def assume(self, c):
        self.ctx.assume(c if isinstance(c, bool) else zb(c))

    def lt(self, a, b):
        return cmp_("lt", tosc_(a), tosc_(b))

    def le(self, a, b, tol=0):
        a, b = tosc_(a), tosc_(b)
        return cmp_("le", a, b + frac(tol) if tol and not isinstance(b, Special) else b)

    def eq0(self, a, b):
        return cmp_("eq", tosc_(a), tosc_(b))

    def and_(self, *c):
        return and_(*[_b(x) for x in c])

    def or_(self, *c):
        return or_(*[_b(x) for x in c])

    def not_(self, c):
        return not_(_b(c))

    def implies(self, a, b):
        return or_(not_(_b(a)), _b(b))

    def close(self, a, b, tol):
        """all |a-b| <= tol (elementwise, real and imaginary parts)."""
        a, b = self.val(a), self.val(b)
        if a.shape != b.shape:
            return False
        t = frac(tol)
        cs = []
        pairs = []
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if isinstance(x, (bool, z3.BoolRef)) or isinstance(y, (bool, z3.BoolRef)):
                cs.append(K.iff_(x, y) if isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)) else False)
                continue
            if isinstance(x, Special) or isinstance(y, Special):
                if isinstance(x, Special) and isinstance(y, Special) and x == y:
                    continue
                if not (isinstance(x, R) or isinstance(y, R)):
                    cs.append(False)
                    continue
                x, y = K.despecial(self.ctx, x), K.despecial(self.ctx, y)
            d = x - y
            for p in (re(d), im(d)):
                p = as_const(p)
                if isinstance(p, (int, Fraction)):
                    cs.append(abs(p) <= t)
                    if cs[-1] is True:
                        pairs.append((x, y, t))
                else:
                    if any(self.ctx.atoms[q].kind == "inv" for mm in p.t for q in mm):
                        N = K.rational_numerator(self.ctx, p)
                        if N is not None and not isinstance(N, R) and N == 0:
                            pairs.append((ZERO * p, ZERO * p, t))
                            cs.append(True)
                            continue
                    cs.append(Lin(p, t))
        return Conj(cs, pairs)

    def absv(self, a):
        a = self.val(a)
        out = np.empty(a.size, dtype=object)
        for i, x in enumerate(a.reshape(-1)):
            out[i] = T.s_abs(x)
        return _sh(out, a.shape)

    def conj(self, a):
        a = self.val(a)
        out = np.empty(a.size, dtype=object)
        for i, x in enumerate(a.reshape(-1)):
            out[i] = conj(x)
        return _sh(out, a.shape)

    def real(self, a):
        a = self.val(a)
        out = np.empty(a.size, dtype=object)
        for i, x in enumerate(a.reshape(-1)):
            out[i] = re(x)
        return _sh(out, a.shape)

    def imag(self, a):
        a = self.val(a)
        out = np.empty(a.size, dtype=object)
        for i, x in enumerate(a.reshape(-1)):
            out[i] = im(x)
        return _sh(out, a.shape)

    def sqrt(self, a):
        return self.ctx.sqrt(tosc_(a))

    def ite(self, c, a, b):
        return T.ite_sc(_b(c), tosc_(a), tosc_(b))

    def div(self, a, b):
        return K.div(tosc_(a), tosc_(b))

    def max(self, a):
        xs = list(self.val(a).reshape(-1))
        r = xs[0]
        for x in xs[1:]:
            r = T.s_max(r, x)
        return r

    def min(self, a):
        xs = list(self.val(a).reshape(-1))
        r = xs[0]
        for x in xs[1:]:
            r = T.s_min(r, x)
        return r

    def branch(self, c):
        return self.ctx.branch(zb(_b(c)))

    def ints(self, a):
        """Concrete integer array (forking when symbolic)."""
        if isinstance(a, Arr):
            a = a.v
        if isinstance(a, np.ndarray) and a.dtype == object:
            a = Sym(a.shape, np.int64, obj=a)
        return T.concretize_arr(a)

    def resolve(self, a):
        """Fork on the conditions inside if-then-else and absolute-value atoms of a value."""
        a = self.val(a)
        out = np.empty(a.size, dtype=object)
        memo = {}
        for i, x in enumerate(a.reshape(-1)):
            out[i] = self._res(x, memo)
        return _sh(out, a.shape)

    def _res(self, x, memo):
        if isinstance(x, C):
            return K.mkc(self._res(x.re, memo), self._res(x.im, memo))
        if not isinstance(x, R):
            return x
        ctx = self.ctx
        ids = {i for m in x.t for i in m}
        if not any(ctx.atoms[i].kind in ("ite", "abs") for i in ids):
            return x

        def sub(i):
            if i in memo:
                return memo[i]
            at = ctx.atoms[i]
            if at.kind == "ite":
                c, u, v = at.info
                r = self._res(u if ctx.branch(c) else v, memo)
            elif at.kind == "abs":
                b = self._res(at.info, memo)
                r = b if ctx.branch(cmp_("ge", b, ZERO)) else -b
            else:
                r = R({(i,): ONE})
            memo[i] = r
            return r
        s = ZERO
        for m, c in x.t.items():
            p = c
            for i in m:
                p = sub(i) * p
            s = s + p
        return s

    def claim(self, name, c):
        self.claims.append((name, c))

    def eq(self, name, a, b, tol=1e-7):
        self.claim(name, self.close(a, b, tol))


class Arr:
    """Lazy view of a result; converts to object array on demand."""
    __slots__ = ("v", "_o")

    def __init__(self, v):
        self.v = v
        self._o = None

    def o(self):
        if self._o is None:
            self._o = F(self.v)
        return self._o

    @property
    def shape(self):
        return tuple(self.v.shape)

    @property
    def dtype(self):
        return np.dtype(self.v.dtype)


class Lin:
    """|p| <= t."""
    __slots__ = ("p", "t")

    def __init__(self, p, t):
        self.p, self.t = p, t

    def z(self):
        z = self.p.z3()
        return z3.And(z <= zval(self.t), z >= zval(-self.t))


class Conj:
    """Conjunction of claims, kept structured for relaxation."""

    def __init__(self, cs, pairs=()):
        self.cs = [c for c in cs if c is not True]
        self.pairs = pairs

    def z(self):
        if not self.cs:
            return True
        if any(c is False for c in self.cs):
            return False
        return and_(*[c.z() if isinstance(c, Lin) else c for c in self.cs])


def _b(c):
    if isinstance(c, (Conj, Lin)):
        return c.z()
    if isinstance(c, np.bool_):
        return bool(c)
    return c


def _sh(o, shape):
    return o.reshape(shape)


def tosc_(a):
    if isinstance(a, Arr):
        a = a.o()
    if isinstance(a, np.ndarray):
        assert a.size == 1
        a = a.reshape(-1)[0]
    if isinstance(a, (np.floating, np.integer)):
        a = a.item()
    if isinstance(a, (bool, z3.BoolRef)):
        return Ctx.current.to_real(a)
    return tosc(a)


# ---------------------------------------------------------------------------
class ConH(H):
    """Concrete replay of the same body on the real code."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.violations = []
        self.checked = 0
        self.outputs = []
        self.in_call = False

    def inputs(self, **specs):
        out = []
        for n, sp in specs.items():
            shape = sp[0]
            dt = sp[3] if len(sp) > 3 else np.float64
            v = np.asarray(self.values[n], dtype=dt).reshape(shape)
            out.append(v)
        return out if len(out) > 1 else out[0]

    def call(self, f, *args, **kw):
        conv = lambda x: jnp.asarray(x) if isinstance(x, np.ndarray) else x
        self.in_call = True
        out = f(*[conv(a) for a in args], **{k: conv(v) for k, v in kw.items()})
        self.in_call = False
        out = jax.tree_util.tree_map(lambda x: np.asarray(x) if isinstance(x, (jax.Array, np.ndarray)) else x, out)
        self.outputs.append(out)
        return out

    def shape(self, a):
        return tuple(np.shape(a))

    def val(self, x):
        return np.asarray(x)

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def lt(self, a, b):
        return float(np.real(a)) < float(np.real(b))

    def le(self, a, b, tol=0):
        a, b = float(np.real(a)), float(np.real(b))
        return a <= b + tol * 0.999 + 1e-11 * (1 + abs(a) + abs(b)) * (tol != 0)

    def eq0(self, a, b):
        return complex(a) == complex(b)

    def and_(self, *c):
        return all(bool(x) for x in c)

    def or_(self, *c):
        return any(bool(x) for x in c)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def close(self, a, b, tol):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == bool or b.dtype == bool:
            return bool((a == b).all())
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
            same = (a == b)
        return bool(np.all(same | (d <= tol * 1.4143 * 0.999)))

    def absv(self, a):
        return np.abs(np.asarray(a))

    def conj(self, a):
        return np.conj(np.asarray(a))

    def real(self, a):
        return np.real(np.asarray(a))

    def imag(self, a):
        return np.imag(np.asarray(a))

    def sqrt(self, a):
        return np.sqrt(np.asarray(a))

    def ite(self, c, a, b):
        return a if bool(c) else b

    def div(self, a, b):
        with np.errstate(all="ignore"):
            return np.asarray(a) / np.asarray(b)

    def max(self, a):
        return np.max(np.asarray(a))

    def min(self, a):
        return np.min(np.asarray(a))

    def resolve(self, a):
        return self.val(a)

    def branch(self, c):
        return bool(c)

    def ints(self, a):
        return np.asarray(a)

    def claim(self, name, c):
        self.checked += 1
        if not bool(c):
            self.violations.append(name)

    def eq(self, name, a, b, tol=1e-7):
        c = self.close(a, b, tol)
        self.checked += 1
        if not c:
            try:
                d = "shapes %s %s" % (np.shape(a), np.shape(b)) if np.shape(a) != np.shape(b) else \
                    "max |diff| = %.3g" % float(np.max(np.abs(np.asarray(a) - np.asarray(b))))
            except Exception:
                d = ""
            self.violations.append("%s (%s)" % (name, d) if d else name)


class NotCovered(Exception):
    """The code asked for something the harness does not model (e.g. another kind of random draw)."""


def run_concrete(body, values):
    """(violated claims, status) on concrete inputs; status ok|skip|raised:..."""
    h = ConH(values)
    try:
        body(h)
    except (Skip, NotCovered):
        return [], "skip", h
    except Exception as e:
        if h.violations:
            return h.violations, "ok", h
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/cr/sparse/" in f.filename for f in tb) or (h.in_call and "/verif/" not in tb[-1].filename)
        return ["raised %s: %s" % (type(e).__name__, str(e)[:300])], ("raised" if inrepo else "harness"), h
    return h.violations, "ok", h


# ---------------------------------------------------------------------------
#  deciding a claim
# ---------------------------------------------------------------------------
class Verdict:
    __slots__ = ("status", "model", "how")

    def __init__(self, status, model=None, how=""):
        self.status, self.model, self.how = status, model, how


def _solve(ctx, extra, timeout_ms, tactic=None):
    st = ctx.stats
    t = time.time()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", int(timeout_ms))
    s.add(*ctx.defs)
    s.add(*[zb(p) for p in ctx.path])
    s.add(*extra)
    st.queries += 1
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    st.solver_s += time.time() - t
    if r == z3.sat:
        st.sat += 1
        return Verdict("sat", s.model())
    if r == z3.unsat:
        st.unsat += 1
        return Verdict("unsat")
    st.unknown += 1
    return Verdict("unknown")


def _bounds(ctx):
    """Interval of each input variable (its declared bounds), by atom id."""
    return {a.id: a.info for a in ctx.atoms if a.kind == "var"}


def relax_query(ctx, lins, timeout_ms):
    """Sound linear relaxation: nonlinear monomials over bounded inputs become
    fresh variables in their interval.  unsat => the claims hold on the box."""
    bnd = _bounds(ctx)
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    fresh = {}
    disj = []
    for l in lins:
        terms = []
        for m, c in l.p.t.items():
            if not m:
                terms.append(zval(c))
                continue
            if m not in fresh:
                mag = Fraction(1)
                for x in m:
                    a = ctx.atoms[x]
                    lo, hi = bnd.get(a.id) or (None, None)
                    if lo is None or hi is None:
                        return None
                    mag *= max(abs(lo), abs(hi))
                v = z3.Real("m!%d" % len(fresh))
                s.add(v <= zval(mag), v >= zval(-mag))
                fresh[m] = v
            terms.append(zval(c) * fresh[m])
        z = z3.Sum(terms) if len(terms) > 1 else terms[0]
        disj.append(z3.Or(z > zval(l.t), z < zval(-l.t)))
    s.add(z3.Or(*disj) if len(disj) > 1 else disj[0])
    st = ctx.stats
    st.queries += 1
    t = time.time()
    r = s.check()
    st.solver_s += time.time() - t
    if r == z3.unsat:
        st.unsat += 1
        return "unsat"
    if r == z3.sat:
        st.sat += 1
        return "sat"
    st.unknown += 1
    return "unknown"


def pair_query(ctx, pairs, timeout_ms):
    """Equalities whose two sides have the same polynomial normal form: the solver
    is asked for monomial values (one real per monomial) that tell them apart."""
    fresh = {}
    disj = []
    n = 0

    def side(v):
        v = tosc(v)
        if not isinstance(v, R):
            return zval(v)
        ts = []
        for m, c in v.t.items():
            if not m:
                ts.append(zval(c))
                continue
            if m not in fresh:
                fresh[m] = z3.Real("m!%d" % len(fresh))
            ts.append(zval(c) * fresh[m])
        return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else zval(0))
    for x, y, t in pairs:
        for a, b in ((re(x), re(y)), (im(x), im(y))):
            if isinstance(a, (R,)) or isinstance(b, (R,)):
                n += len(getattr(a, "t", ())) + len(getattr(b, "t", ()))
                if n > 4000:
                    break
                d = side(a) - side(b)
                disj.append(z3.Or(d > zval(t), d < zval(-t)))
    if not disj:
        return False
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(z3.Or(*disj) if len(disj) > 1 else disj[0])
    t0 = time.time()
    ctx.stats.queries += 1
    r = s.check()
    ctx.stats.solver_s += time.time() - t0
    if r == z3.unsat:
        ctx.stats.unsat += 1
        return True
    ctx.stats.unknown += 1
    return False


class Linearizer:
    """Replaces nonlinear products by fresh reals (equal products by the same real): a sound
    over-approximation, so unsat carries over to the original formula."""

    def __init__(self, bounds=None):
        self.bounds = bounds or {}
        self.cache = {}
        self.mono = {}
        self.facts = []
        self.keep = []

    def rw(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        ch = e.children()
        if not ch:
            r = e
        else:
            kind = e.decl().kind()
            nc = [self.rw(c) for c in ch] if kind != z3.Z3_OP_MUL else None
            if kind == z3.Z3_OP_MUL:
                nums, rest, st = [], [], list(ch)
                while st:
                    c = st.pop()
                    if c.decl().kind() == z3.Z3_OP_MUL:
                        st.extend(c.children())
                    elif z3.is_rational_value(c) or z3.is_int_value(c):
                        nums.append(c)
                    elif c.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_int_value(c.arg(0)):
                        nums.append(z3.RealVal(c.arg(0).as_long()))
                    else:
                        rest.append(self.rw(c))
                if len(rest) > 1:
                    flat = rest
                    key = tuple(sorted(c.get_id() for c in flat))
                    v = self.mono.get(key)
                    if v is None:
                        self.keep.extend(flat)
                        v = (z3.Int if all(z3.is_int(c) for c in flat) else z3.Real)("mono!%d" % len(self.mono))
                        self.mono[key] = v
                        if len(flat) % 2 == 0 and all(key.count(i) % 2 == 0 for i in key):
                            self.facts.append(v >= 0)
                        for c in {c.get_id(): c for c in flat}.values():
                            self.facts.append(z3.Implies(c == 0, v == 0))
                        mag = Fraction(1)
                        for i in key:
                            b = self.bounds.get(i)
                            if b is None or b[0] is None or b[1] is None:
                                mag = None
                                break
                            mag *= max(abs(b[0]), abs(b[1]))
                        if mag is not None:
                            self.facts.append(v <= zval(mag))
                            self.facts.append(v >= zval(-mag))
                    r = v
                    for c in nums:
                        r = c * r
                else:
                    r = rest[0] if rest else z3.RealVal(1)
                    for c in nums:
                        r = c * r
            elif kind == z3.Z3_OP_POWER:
                key = ("pow",) + tuple(c.get_id() for c in nc)
                v = self.mono.get(key)
                if v is None:
                    self.keep.extend(nc)
                    v = z3.Real("mono!%d" % len(self.mono))
                    self.mono[key] = v
                r = v
            elif kind in (z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR):
                r = {z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}[kind](*nc)
            elif all(a.eq(b) for a, b in zip(ch, nc)):
                r = e
            else:
                r = z3.substitute(e, *[(a, b) for a, b in zip(ch, nc) if not a.eq(b)]) if e.num_args() > 2 and kind not in (z3.Z3_OP_ITE,) else e.decl()(*nc)
        self.cache[k] = r
        self.keep.append(e)
        return r


def linear_query(ctx, neg, timeout_ms):
    """unsat of the linear abstraction, or None."""
    try:
        st = getattr(ctx, "lin", None)
        if st is None:
            st = ctx.lin = dict(L=Linearizer({a.z.get_id(): a.info for a in ctx.atoms if a.kind == "var" and a.info}),
                                s=z3.Solver(), d=0, p=0, f=0)
        L, s = st["L"], st["s"]
        while st["d"] < len(ctx.defs):
            s.add(L.rw(ctx.defs[st["d"]]))
            st["d"] += 1
        while st["p"] < len(ctx.path):
            q = ctx.path[st["p"]]
            if not isinstance(q, bool):
                s.add(L.rw(zb(q)))
            st["p"] += 1
        ng = L.rw(neg)
        if not L.mono:
            return None
        if st["f"] < len(L.facts):
            s.add(*L.facts[st["f"]:])
            st["f"] = len(L.facts)
        s.set("timeout", int(timeout_ms))
        t = time.time()
        s.push()
        s.add(ng)
        r = s.check()
        s.pop()
        ctx.stats.queries += 1
        ctx.stats.solver_s += time.time() - t
    except z3.Z3Exception:
        return None
    if r == z3.unsat:
        ctx.stats.unsat += 1
        return True
    if r == z3.unknown:
        ctx.stats.unknown += 1
    else:
        ctx.stats.sat += 1
    return None


def decide_claim(ctx, claim, timeout_ms, rng):
    """Verdict on path => claim."""
    if isinstance(claim, (bool, np.bool_)):
        if bool(claim):
            ctx.stats.trivial += 1
            return Verdict("unsat", how="normal form")
        return _solve(ctx, [], timeout_ms)
    lins = None
    if isinstance(claim, Conj):
        if not claim.cs:
            if not pair_query(ctx, claim.pairs, timeout_ms):
                ctx.stats.trivial += 1
            return Verdict("unsat", how="normal form")
        if any(c is False for c in claim.cs):
            return _solve(ctx, [], timeout_ms)
        if all(isinstance(c, Lin) for c in claim.cs):
            lins = claim.cs
        nonlin = lins is not None and any(len(m) > 1 for l in lins for m in l.p.t)
        onlyvars = lins is not None and all(ctx.atoms[x].kind == "var" for l in lins for m in l.p.t for x in m)
        if lins is not None and onlyvars:
            big = sum(len(l.p.t) for l in lins) > 200
            if nonlin or big:
                r = relax_query(ctx, lins, timeout_ms)
                if r == "unsat":
                    return Verdict("unsat", how="linear relaxation")
        if len(claim.cs) > 1 and (nonlin or ctx.nonlinear):
            # one query per conjunct
            last = Verdict("unsat")
            unk = None
            for c in claim.cs:
                v = _decide_z(ctx, c, timeout_ms, rng)
                if v.status == "sat":
                    return v
                if v.status == "unknown":
                    unk = v
            return unk or last
    return _decide_z(ctx, claim, timeout_ms, rng)


def _decide_z(ctx, c, timeout_ms, rng):
    lin = c if isinstance(c, Lin) else None
    if isinstance(c, (Conj, Lin)):
        c = c.z()
    if isinstance(c, bool):
        return decide_claim(ctx, c, timeout_ms, rng)
    neg = z3.Not(c)
    # linear abstraction, the plain solver, then nlsat, with growing budgets
    if linear_query(ctx, neg, min(timeout_ms, 3000)):
        return Verdict("unsat", how="linear abstraction")
    if ctx.defs and ctx.nonlinear and not getattr(ctx, "nonum", False):
        e = numeric.hit(ctx, neg)
        if e is not None:
            return Verdict("sat", e, how="point evaluation")
    v = _solve(ctx, [neg], min(timeout_ms, 3000))
    if v.status != "unknown":
        return v
    v = _solve(ctx, [neg], timeout_ms, "qfnra-nlsat")
    if v.status != "unknown":
        return v
    v = _solve(ctx, [neg], timeout_ms)
    if v.status != "unknown":
        return v
    # narrow: fix some inputs (degraded bound), look for a counterexample only
    vs = [a for n, i in ctx.inputs for a in [ctx.atoms[i]]]
    for attempt in range(3):
        fix = []
        k = max(1, len(vs) // 2)
        for a in rng.sample(vs, min(k, len(vs))):
            q = Fraction(rng.randint(-8, 8), 8)
            fix.append(a.z == (int(q * 8) if a.is_int else zval(q)))
        w = _solve(ctx, [neg] + fix, 2000)
        if w.status == "sat":
            return w
    return Verdict("unknown")


# ---------------------------------------------------------------------------
#  exploring one case
# ---------------------------------------------------------------------------
class CaseResult:
    def __init__(self, name):
        self.name = name
        self.stats = Stats()
        self.violations = []      # dicts
        self.undecided = []       # strings
        self.notes = []
        self.truncated = False
        self.validated = 0
        self.mismatch = []
        self.wall = 0.0
        self.prims = {}
        self.solver_claims = 0
        self.last = None


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


def explore(name, body, budget_s=120, seed=1, hard=None, **kw):
    """_explore under a hard wall-clock limit; a case cut off is undecided and still probed."""
    res = CaseResult(name)
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, hard or budget_s * 1.25 + 10)
    try:
        _explore(res, name, body, budget_s=budget_s, seed=seed, **kw)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        signal.setitimer(signal.ITIMER_REAL, 0)
        res.undecided.append("budget: case stopped after %.0f s" % (time.time() - t0))
        h = res.last
        if h is not None and not res.violations:
            signal.setitimer(signal.ITIMER_REAL, 30)
            try:
                probe(res, body, h, random.Random(seed), h.ctx)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except CaseTimeout:
                pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    res.last = None
    res.prims = dict(T.COVER)
    res.wall = time.time() - t0
    return res


def _explore(res, name, body, max_paths=200, timeout_ms=15000, budget_s=120, seed=1, unroll=64,
            cond_mode="fork", validate=True, fork_int=True, feas_timeout_ms=3000, max_violations=1, div0=False, fork_ite=False):
    t0 = time.time()
    rng = random.Random(hash((seed, name)) & 0xffffffff if False else seed * 7919 + sum(map(ord, name)))
    T.MAX_UNROLL[0] = unroll
    T.COND_MODE[0] = cond_mode
    T.DIV0[0] = div0
    T.FORK_INT_SELECT[0] = fork_int
    T.COVER.clear()
    work = [[]]
    npaths = 0
    probed = False
    pool, shared = [], {}
    while work:
        if npaths >= max_paths or time.time() - t0 > budget_s:
            res.truncated = True
            break
        prefix = work.pop(rng.randrange(len(work)) if npaths else -1)
        npaths += 1
        ctx = Ctx(prefix, stats=res.stats, timeout_ms=timeout_ms, feas_timeout_ms=feas_timeout_ms)
        ctx.pool, ctx.shared = pool, shared
        ctx.fork_ite = fork_ite
        Ctx.current = ctx
        h = res.last = SymH(ctx, seed)
        err = None
        try:
            body(h)
        except Infeasible:
            work.extend(ctx.alts)
            continue
        except PathLimit as e:
            res.truncated = True
            res.notes.append("bound: %s" % e)
            work.extend(ctx.alts)
            continue
        except Exception as e:
            err = e
        work.extend(ctx.alts)
        if err is not None:
            # the real code may raise on these inputs, or the encoding lacks something
            w = _solve(ctx, [], timeout_ms)
            msg = "%s: %s" % (type(err).__name__, str(err)[:300])
            if w.status == "unsat":
                continue
            vals = None
            if w.status == "sat" and hasattr(h.s, "specs") and h.s.specs:
                vals = h.s.decode(w.model)
            elif not h.s.specs:
                vals = {}
            if vals is not None:
                viol, status, ch = run_concrete(body, vals)
                if status == "raised" or (status == "ok" and viol):
                    res.violations.append(dict(claims=viol, inputs=enc(vals), how="raised in symbolic run: " + msg))
                    if len(res.violations) >= max_violations:
                        break
                    continue
            tb = traceback.format_exception(err)
            res.undecided.append("encoding: " + msg + " || " + "".join(tb)[-1200:].replace("\n", " | "))
            probe(res, body, h, rng, ctx)
            if res.violations:
                break
            if len(res.undecided) > 3:
                break
            continue
        res.stats.paths += 1
        # reachability witness of the path (vacuity guard) + validation of the encoding
        w = _solve(ctx, [], min(timeout_ms, 2000) if ctx.defs else timeout_ms)
        if w.status == "unsat":
            continue
        if w.status == "unknown":
            for e in numeric.alive(ctx)[:2]:
                res.stats.witness += 1
                vals = h.s.decode(e)
                if res.validated >= 3:
                    break
                viol, status, ch = run_concrete(body, vals)
                if status == "raised" or (status == "ok" and viol):
                    res.violations.append(dict(claims=viol, inputs=enc(vals), how="reachability witness"))
                    break
                if status == "ok" and compare_outputs(ctx, h, ch, e) is None:
                    res.validated += 1
                    break
            if len(res.violations) >= max_violations:
                break
        if w.status == "sat":
            res.stats.witness += 1
            if validate and res.validated < 3:
                vals = h.s.decode(w.model)
                viol, status, ch = run_concrete(body, vals)
                if status == "raised" or (status == "ok" and viol):
                    res.violations.append(dict(claims=viol, inputs=enc(vals), how="reachability witness"))
                    if len(res.violations) >= max_violations:
                        break
                elif status == "ok":
                    mm = compare_outputs(ctx, h, ch, w.model)
                    if mm and not another_witness(ctx, h, body, rng, w.model):
                        res.mismatch.append(mm)
                    else:
                        res.validated += 1
        stop = False
        for cname, c in h.claims:
            res.stats.claims += 1
            ctx.nonum = False
            v = decide_claim(ctx, c, timeout_ms, rng)
            if v.status == "sat" and v.how == "point evaluation":
                vals = h.s.decode(v.model)
                viol, status, ch = run_concrete(body, vals)
                if status == "raised" or (status == "ok" and viol):
                    res.violations.append(dict(claims=viol, claim=cname, inputs=enc(vals), how="solver path, point evaluation"))
                    if len(res.violations) >= max_violations:
                        stop = True
                        break
                    continue
                ctx.nonum = True
                v = decide_claim(ctx, c, timeout_ms, rng)
            if v.status == "unsat":
                continue
            if v.status == "unknown":
                res.undecided.append("solver: claim %s undecided within %d ms" % (cname, timeout_ms))
                continue
            ok = confirm(res, body, h, ctx, cname, c, v, rng, timeout_ms)
            if ok and len(res.violations) >= max_violations:
                stop = True
                break
        if stop:
            break
        if res.undecided and not res.violations and not probed:
            probed = True
            probe(res, body, h, rng, ctx)
            if res.violations:
                break


def another_witness(ctx, h, body, rng, model):
    """A mismatch at a tie of the branch conditions is not one of the encoding: try other points of the path."""
    vs = [ctx.atoms[i] for _, i in ctx.inputs]
    base = {}
    others = 0
    for a in vs:
        v = model.eval(a.z, model_completion=True)
        base[a.id] = v.as_fraction() if z3.is_rational_value(v) else None
    for k in range(24):
        extra = []
        if k < 4:
            for a in rng.sample(vs, max(1, len(vs) // 2)):
                q = Fraction(rng.randint(-97, 97), 101)
                extra.append(a.z == zval(q) if not a.is_int else a.z == int(q * 3))
        else:
            eps = (1e-2, 1e-3, 1e-4, 1e-5)[k % 4]
            for a in vs:
                if base[a.id] is not None and not a.is_int:
                    extra.append(a.z == zval(base[a.id] + Fraction(eps * rng.uniform(-1, 1))))
        w = _solve(ctx, extra, 2000)
        if w.status != "sat":
            continue
        others += 1
        viol, status, ch = run_concrete(body, h.s.decode(w.model))
        if status == "ok" and not viol and compare_outputs(ctx, h, ch, w.model) is None:
            return True
    return others == 0      # nothing but the tie itself on this path


def confirm(res, body, h, ctx, cname, c, v, rng, timeout_ms):
    """Replay a counterexample on the real code; returns True if it reproduces."""
    cands = [v.model]
    zc = c.z() if isinstance(c, (Conj, Lin)) else c
    for k in range(6):
        if not cands:
            break
        m = cands.pop(0)
        vals = h.s.decode(m)
        viol, status, ch = run_concrete(body, vals)
        if status in ("raised",) or (status == "ok" and viol):
            res.violations.append(dict(claims=viol, claim=cname, inputs=enc(vals), how="solver counterexample"))
            return True
        # ask for another model away from this one
        if isinstance(zc, bool):
            neg = []
        else:
            neg = [z3.Not(zc)]
        extra = []
        vs = [ctx.atoms[i] for _, i in ctx.inputs]
        if vs:
            for a in rng.sample(vs, max(1, len(vs) // 3)):
                q = Fraction(rng.randint(-7, 7), 7)
                extra.append(a.z != zval(q) if not a.is_int else a.z != int(q))
                if k >= 2 and not a.is_int:
                    extra.append(z3.Or(a.z >= zval(q), a.z <= zval(q - Fraction(1, 2))))
        w = _solve(ctx, neg + extra, min(timeout_ms, 4000))
        if w.status == "sat":
            cands.append(w.model)
    res.undecided.append("unreproduced: claim %s has a solver model that does not reproduce" % cname)
    return False


def probe(res, body, h, rng, ctx, n=6):
    """The encoding gave up: replay a few inputs so that a plain violation is still seen."""
    if not h.s.specs:
        return
    for k in range(n):
        vals = {}
        for name, shape, dt, off in h.s.specs:
            a = ctx.atoms[off]
            size = int(np.prod(shape, dtype=int))
            b = _bounds(ctx)
            out = []
            for i in range(size * (2 if dt.kind == "c" else 1)):
                lo, hi = b.get(off + i, (None, None))
                lo = -1 if lo is None else lo
                hi = 1 if hi is None else hi
                out.append(float(lo) + (float(hi) - float(lo)) * rng.randint(0, 16) / 16)
            if dt.kind == "c":
                out = [complex(out[2 * i], out[2 * i + 1]) for i in range(size)]
            if dt.kind in "iu":
                out = [int(round(x)) for x in out]
            vals[name] = np.array(out, dtype=dt).reshape(shape)
        viol, status, ch = run_concrete(body, vals)
        if status == "raised" or (status == "ok" and viol):
            res.violations.append(dict(claims=viol, inputs=enc(vals), how="replay probe (encoding incomplete)"))
            return


def compare_outputs(ctx, h, ch, model):
    """Symbolic outputs evaluated in the model against the real outputs."""
    for i, (a, b) in enumerate(zip(h.outputs, ch.outputs)):
        la = jax.tree_util.tree_leaves(a, is_leaf=lambda x: isinstance(x, Arr))
        lb = jax.tree_util.tree_leaves(b)
        if len(la) != len(lb):
            return "structure"
        for x, y in zip(la, lb):
            if not isinstance(x, Arr):
                continue
            y = np.asarray(y)
            if x.shape != y.shape:
                return "shape of output %d" % i
            if y.dtype.kind not in "fciub":
                continue
            if not isinstance(x.v, Sym):
                continue
            o = T.force(x.v.o()) if not any(isinstance(q, T.Lazy) for q in x.v.o().reshape(-1)) else None
            if o is None:
                continue
            fo = o.reshape(-1)
            fy = y.reshape(-1)
            idx = range(len(fo)) if len(fo) <= 12 else range(0, len(fo), max(1, len(fo) // 12))
            uf = any(at.kind == "uf" for at in ctx.atoms)
            for k in idx:
                if uf and isinstance(fo[k], (R, C)):
                    rr = [q for q in (re(fo[k]), im(fo[k])) if isinstance(q, R)]
                    if any(ctx.atoms[x].kind != "var" for q in rr for mm in q.t for x in mm):
                        continue
                e = ev(ctx, fo[k], model)
                if e is None:
                    continue
                g = complex(fy[k])
                if not (abs(e - g) <= 1e-6 * (1 + abs(g))) and g == g and abs(g) < 1e12 and abs(e) < 1e12:
                    return "output %d element %d: encoding %r, code %r" % (i, k, e, g)
    return None


def ev(ctx, s, model):
    if isinstance(s, C):
        a, b = ev(ctx, s.re, model), ev(ctx, s.im, model)
        return None if a is None or b is None else complex(a.real, b.real)
    if isinstance(s, z3.BoolRef):
        r = model.eval(s, model_completion=True)
        return complex(1 if z3.is_true(r) else 0)
    if isinstance(s, bool):
        return complex(int(s))
    if isinstance(s, Special):
        return None
    if isinstance(s, R):
        v = model.eval(s.z3(), model_completion=True)
        if z3.is_rational_value(v):
            return complex(float(v.as_fraction()))
        if z3.is_int_value(v):
            return complex(v.as_long())
        if z3.is_algebraic_value(v):
            return complex(float(v.approx(20).as_fraction()))
        return None
    return complex(float(s))


def enc(vals):
    out = {}
    for k, v in vals.items():
        v = np.asarray(v)
        if v.dtype.kind == "c":
            out[k] = dict(re=v.real.tolist(), im=v.imag.tolist())
        else:
            out[k] = v.tolist()
    return out


def dec(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = np.asarray(v["re"]) + 1j * np.asarray(v["im"])
        else:
            out[k] = np.asarray(v)
    return out
