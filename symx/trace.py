"""A JAX Trace that runs the real code on symbolic arrays.

Two representations of a symbolic array:

* affine:  const + sum_i coeff_i * x_i over the declared input variables, with
  machine coefficients (each linear primitive is applied to the coefficient
  planes, i.e. its own JAX implementation defines its meaning);
* object:  a numpy object array of symbolic scalars (symx.core).

Control flow in jaxprs (cond / while / scan) and Python branches on symbolic
values fork the execution; the path condition goes to the solver.
"""
import itertools, functools
from fractions import Fraction
from .boot import z3, jax, jnp
import numpy as np
from jax import core
from jax._src import core as _core
from .core import (Ctx, R, C, Special, ZERO, ONE, Unsupported, PathLimit, Infeasible, tosc, frac,
                   cmp_, and_, or_, not_, iff_, bite, re, im, conj, mkc, is_zero, as_const,
                   div, power, tz, zb, nonneg, despecial, same, _has_inf as K_has_inf)


# ---------------------------------------------------------------------------
#  symbolic arrays
# ---------------------------------------------------------------------------
class Sym:
    """Symbolic array: exactly one of (c, A) or obj."""
    __slots__ = ("shape", "dtype", "c", "A", "obj")

    def __init__(self, shape, dtype, c=None, A=None, obj=None):
        self.shape, self.dtype = tuple(shape), np.dtype(dtype)
        self.c, self.A, self.obj = c, A, obj

    @property
    def aff(self):
        return self.A is not None

    @property
    def size(self):
        return int(np.prod(self.shape, dtype=int))

    def o(self):
        if self.obj is None:
            self.obj = aff_to_obj(self.c, self.A)
        return self.obj


def aff_to_obj(c, A):
    shape = c.shape
    out = np.empty(c.size, dtype=object)
    cf = c.reshape(-1)
    Af = A.reshape(A.shape[0], -1)
    cplx = np.iscomplexobj(c) or np.iscomplexobj(A)
    scale = np.abs(Af).max(initial=0.0)
    thr = 1e-13 * max(scale, 1e-300)

    def build(col, c0):
        t = {}
        for i in np.nonzero(np.abs(col) > thr)[0]:
            t[(int(i),)] = frac(col[i])
        c0 = tosc(float(c0))
        if isinstance(c0, Special):
            return c0
        if c0:
            t[()] = c0
        if not t:
            return ZERO
        if len(t) == 1 and () in t:
            return t[()]
        return R(t)

    for k in range(c.size):
        if cplx:
            out[k] = mkc(build(Af[:, k].real, cf[k].real), build(Af[:, k].imag, cf[k].imag))
        else:
            out[k] = build(Af[:, k], cf[k])
    return out.reshape(shape)


def obj_arr(x):
    """Any value -> object array of scalars."""
    if isinstance(x, Sym):
        return x.o()
    x = np.asarray(x)
    out = np.empty(x.size, dtype=object)
    for i, v in enumerate(x.reshape(-1).tolist()):
        out[i] = tosc(v)
    return out.reshape(x.shape)


def conc(x):
    """Concrete numpy value or None."""
    return None if isinstance(x, Sym) else np.asarray(x)


def is_const_obj(o):
    for v in o.reshape(-1):
        if isinstance(v, (R, C)):
            if isinstance(v, C) and isinstance(v.re, Fraction) and isinstance(v.im, Fraction):
                continue
            return False
        if isinstance(v, z3.ExprRef) or isinstance(v, Lazy):
            return False
    return True


def obj_to_np(o, dtype):
    vals = []
    for v in o.reshape(-1):
        if isinstance(v, C):
            vals.append(complex(float(v.re), float(v.im)))
        elif isinstance(v, Fraction) and np.issubdtype(dtype, np.integer):
            vals.append(int(v))
        elif isinstance(v, Fraction):
            vals.append(float(v))
        else:
            vals.append(v)
    return np.array(vals, dtype=dtype).reshape(o.shape)


def mk(o, dtype, shape=None):
    """Object array -> concrete numpy if constant, else Sym."""
    if not isinstance(o, np.ndarray) or o.dtype != object:
        a = np.empty((), dtype=object)
        a[()] = o
        o = a
    if shape is not None and o.shape != tuple(shape):
        o = o.reshape(shape)
    dtype = np.dtype(dtype)
    if is_const_obj(o):
        return obj_to_np(o, dtype)
    return Sym(o.shape, dtype, obj=o)


# ---------------------------------------------------------------------------
#  lazily resolved sort ranks
# ---------------------------------------------------------------------------
class SortLazy:
    """One sorted 1-d sequence: permutation resolved rank by rank from either end."""

    def __init__(self, keys):
        self.keys = keys          # list of tuples of scalars (lexicographic keys)
        self.n = len(keys)
        self.lo = []              # resolved original indices, rank 0..
        self.hi = []              # resolved from the top, rank n-1, n-2..
        self.left = list(range(self.n))

    def before(self, i, j):
        """i sorts strictly before j (stable)."""
        r = i < j
        for a, b in zip(reversed(self.keys[i]), reversed(self.keys[j])):
            if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
                lt = and_(not_(a), b)
                eq = iff_(a, b)
            else:
                lt = cmp_("lt", a, b)
                eq = cmp_("eq", a, b)
            r = or_(lt, and_(eq, r))
        return r

    def rank(self, k):
        ctx = Ctx.current
        while True:
            if k < len(self.lo):
                return self.lo[k]
            if self.n - 1 - k < len(self.hi):
                return self.hi[self.n - 1 - k]
            left = self.left
            if len(left) == 1:
                self.lo.append(left[0])
                self.left = []
                continue
            from_low = k <= self.n - 1 - k
            opts = []
            for i in left:
                cs = [(self.before(i, j) if from_low else self.before(j, i)) for j in left if j != i]
                opts.append(and_(*cs))
            # exactly one option holds (total order)
            i = left[ctx.decide(opts)]
            (self.lo if from_low else self.hi).append(i)
            self.left = [j for j in left if j != i]


class Lazy:
    """Element of a sorted output, resolved on first use."""
    __slots__ = ("s", "k", "vals")

    def __init__(self, s, k, vals):
        self.s, self.k, self.vals = s, k, vals

    def force(self):
        return self.vals[self.s.rank(self.k)]


def force(o):
    """Resolve the lazy elements of an object array."""
    f = o.reshape(-1)
    if not any(isinstance(v, Lazy) for v in f):
        return o
    out = np.empty(f.size, dtype=object)
    for i, v in enumerate(f):
        out[i] = v.force() if isinstance(v, Lazy) else v
    return out.reshape(o.shape)


def F(x):
    """Forced object array of a value."""
    return force(obj_arr(x))


# ---------------------------------------------------------------------------
#  the trace
# ---------------------------------------------------------------------------
class SymTracer(core.Tracer):
    __slots__ = ["val", "_aval"]

    def __init__(self, trace, val, aval):
        self._trace = trace
        self.val = val
        self._aval = aval

    @property
    def aval(self):
        return self._aval

    def full_lower(self):
        if not isinstance(self.val, Sym):
            return jnp.asarray(self.val)
        return self

    def _scalar(self):
        if self._aval.size != 1:
            raise TypeError("only size-1 arrays can be converted to scalars")
        if not isinstance(self.val, Sym):
            return np.asarray(self.val).reshape(-1)[0]
        return F(self.val).reshape(-1)[0]

    def __bool__(self):
        v = self._scalar()
        if isinstance(v, (R, Fraction)):
            v = cmp_("ne", v, ZERO)
        if isinstance(v, z3.ExprRef):
            return Ctx.current.branch(v)
        return bool(v)

    def __int__(self):
        v = self._scalar()
        if isinstance(v, z3.BoolRef):
            return int(Ctx.current.branch(v))
        if isinstance(v, R):
            if not np.issubdtype(self._aval.dtype, np.integer):
                raise Unsupported("int() of a symbolic real")
            return Ctx.current.concretize(v)
        return int(v)

    __index__ = __int__

    def __float__(self):
        v = self._scalar()
        if isinstance(v, R):
            raise Unsupported("float() of a symbolic real")
        return float(v)

    def __array__(self, *a, **k):
        if not isinstance(self.val, Sym):
            return np.asarray(self.val)
        if np.issubdtype(self._aval.dtype, np.integer) or self._aval.dtype == bool:
            c = concretize_arr(self.val)
            return np.asarray(c)
        raise Unsupported("numpy conversion of a symbolic array")

    def __hash__(self):
        return id(self)


def concretize_arr(s):
    """Fork until a boolean/integer array is concrete."""
    if not isinstance(s, Sym):
        return np.asarray(s)
    ctx = Ctx.current
    o = F(s)
    out = []
    for v in o.reshape(-1):
        if isinstance(v, z3.BoolRef):
            out.append(ctx.branch(v))
        elif isinstance(v, R):
            out.append(ctx.concretize(v))
        elif isinstance(v, Fraction):
            out.append(int(v))
        else:
            out.append(v)
    return np.array(out, dtype=s.dtype).reshape(s.shape)


class SymTrace(core.Trace):
    def pure(self, val):
        return SymTracer(self, np.asarray(val), core.raise_to_shaped(core.get_aval(val)))

    def lift(self, tracer):
        raise Unsupported("lift")

    def sublift(self, t):
        return SymTracer(self, t.val, t.aval)

    def process_primitive(self, prim, tracers, params):
        vals = [t.val for t in tracers]
        with _core.new_sublevel() if False else _null():
            outs, avals = eval_eqn(prim, vals, [t.aval for t in tracers], params)
        tr = [SymTracer(self, v, a) for v, a in zip(outs, avals)]
        return tr if prim.multiple_results else tr[0]

    def process_call(self, prim, f, tracers, params):
        return f.call_wrapped(*tracers)

    def process_custom_jvp_call(self, primitive, fun, jvp, tracers, *, symbolic_zeros):
        return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, out_trees, symbolic_zeros):
        return fun.call_wrapped(*tracers)


class _null:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


def bind_concrete(prim, vals, params):
    vals = [v if not isinstance(v, np.ndarray) else jnp.asarray(v) for v in vals]
    r = prim.bind(*vals, **params)
    return list(r) if prim.multiple_results else [r]


def out_avals_of(prim, in_avals, params):
    in_avals = [core.raise_to_shaped(a) for a in in_avals]
    r = prim.abstract_eval(*in_avals, **params)
    avals = r[0] if isinstance(r, tuple) else r
    if not prim.multiple_results:
        avals = [avals]
    return list(avals)


def aval_of(v, weak=False):
    if isinstance(v, Sym):
        return core.ShapedArray(v.shape, v.dtype)
    return core.raise_to_shaped(core.get_aval(v))


def tonp(v):
    if isinstance(v, Sym):
        return v
    return np.asarray(v)


def eval_eqn(prim, vals, avals, params):
    name = prim.name
    COVER[name] = COVER.get(name, 0) + 1
    if name in CONTROL:
        return CONTROL[name](prim, vals, avals, params)
    oavals = out_avals_of(prim, avals, params)
    if not any(isinstance(v, Sym) for v in vals):
        outs = bind_concrete(prim, vals, params)
        return [tonp(o) for o in outs], oavals
    outs = eval_prim(prim, vals, params, oavals)
    return outs, oavals


COVER = {}


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, core.Literal):
            return v.val
        return env[v]

    for v, x in zip(jaxpr.constvars, consts):
        env[v] = x
    for v, x in zip(jaxpr.invars, args):
        env[v] = x
    for eqn in jaxpr.eqns:
        vals = [read(v) for v in eqn.invars]
        avs = [v.aval for v in eqn.invars]
        outs, _ = eval_eqn(eqn.primitive, vals, avs, eqn.params)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def eval_closed(cj, args):
    return eval_jaxpr(cj.jaxpr, cj.consts, args)


# ---------------------------------------------------------------------------
#  control primitives
# ---------------------------------------------------------------------------
CONTROL = {}


def control(*names):
    def deco(f):
        for n in names:
            CONTROL[n] = f
        return f
    return deco


# names of jitted functions replaced by contract stubs when an argument is symbolic
STUBS = {}


@control("pjit", "core_closed_call", "closed_call", "remat", "checkpoint", "custom_jvp_call",
         "custom_vjp_call_jaxpr", "core_call", "xla_call", "custom_vjp_call")
def _pjit(prim, vals, avals, params):
    cj = params.get("jaxpr") or params.get("call_jaxpr") or params.get("fun_jaxpr")
    name = params.get("name")
    if isinstance(cj, core.Jaxpr):
        cj = core.ClosedJaxpr(cj, ())
    if name in STUBS and any(isinstance(v, Sym) for v in vals):
        r = STUBS[name](vals, cj.out_avals, params)
        if r is not None:
            return r, list(cj.out_avals)
    if not any(isinstance(v, Sym) for v in vals) and not cj.effects:
        outs = core.eval_jaxpr(cj.jaxpr, cj.consts, *[jnp.asarray(v) if isinstance(v, np.ndarray) else v
                                                     for v in vals]) if prim.name != "pjit" \
            else bind_concrete(prim, vals, params)
        return [tonp(o) for o in outs], list(cj.out_avals)
    return eval_closed(cj, vals), list(cj.out_avals)


@control("debug_callback", "debug_print")
def _dbg(prim, vals, avals, params):
    return [], []


@control("random_wrap", "random_unwrap")
def _rwrap(prim, vals, avals, params):
    oav = out_avals_of(prim, avals, params)
    if not any(isinstance(v, Sym) for v in vals):
        return bind_concrete(prim, vals, params), oav
    return list(vals), oav


@control("random_bits", "random_split", "random_fold_in", "threefry2x32", "random_seed")
def _rbits(prim, vals, avals, params):
    oav = out_avals_of(prim, avals, params)
    if not any(isinstance(v, Sym) for v in vals):
        outs = bind_concrete(prim, vals, params)
        return list(outs), oav
    ctx = Ctx.current
    outs = []
    for a in oav:
        shp = a.shape
        o = np.empty(int(np.prod(shp, dtype=int)), dtype=object)
        for i in range(o.size):
            o[i] = ctx.fresh_r("bits", is_int=True)
        outs.append(Sym(shp, np.uint32, obj=o.reshape(shp)))
    return outs, oav


@control("custom_linear_solve")
def _cls(prim, vals, avals, params):
    cl = params["const_lengths"]
    js = params["jaxprs"]
    ns = [len(x) if hasattr(x, "__len__") else x for x in cl]
    groups, i = [], 0
    for n in ns:
        groups.append(list(vals[i:i + n]))
        i += n
    b = list(vals[i:])
    solve_consts = groups[list(cl._fields).index("solve")]
    outs = eval_closed(js.solve, solve_consts + b)
    return outs, list(js.solve.out_avals)


DIV0 = [False]          # fork on zero denominators instead of assuming them away
COND_MODE = ["fork"]


@control("cond")
def _cond(prim, vals, avals, params):
    br = params["branches"]
    idx, args = vals[0], vals[1:]
    oav = list(br[0].out_avals)
    if isinstance(idx, Sym):
        v = F(idx).reshape(-1)[0]
        ctx = Ctx.current
        if COND_MODE[0] == "merge" and len(br) == 2:
            c = v if isinstance(v, (bool, z3.BoolRef)) else cmp_("ne", v, ZERO)
            if isinstance(v, R) and len(v.t) == 1:
                c = _bool_of_ite(ctx, v, c)
            if not isinstance(c, bool):
                o0 = eval_closed(br[0], args)
                o1 = eval_closed(br[1], args)
                return [merge(c, x1, x0) for x0, x1 in zip(o0, o1)], oav
            i = int(c)
        elif isinstance(v, z3.BoolRef):
            i = int(ctx.branch(v))
        elif isinstance(v, R):
            i = None
            if len(br) == 2:
                c = _bool_of_ite(ctx, v, None)
                if c is not None:
                    i = int(ctx.branch(c))
            if i is None:
                # clamp as lax.cond/switch does
                i = ctx.concretize(v)
        else:
            i = int(v)
    else:
        i = int(np.asarray(idx))
    i = min(max(i, 0), len(br) - 1)
    return eval_closed(br[i], args), oav


def _bool_of_ite(ctx, v, default):
    """The condition of an ite(c,1,0) term."""
    if isinstance(v, R) and len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and ctx.atoms[m[0]].kind == "ite":
            cc, a, b = ctx.atoms[m[0]].info
            if a == 1 and b == 0:
                return cc
    return default


def merge(c, a, b):
    """elementwise ite(c, a, b) of two values (scalar condition)."""
    if isinstance(c, bool):
        return a if c else b
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape == b_.shape and (a_ == b_).all():
            return a
    oa, ob = F(a), F(b)
    dt = a.dtype if isinstance(a, Sym) else np.asarray(a).dtype
    out = np.empty(oa.size, dtype=object)
    for i, (x, y) in enumerate(zip(oa.reshape(-1), ob.reshape(-1))):
        out[i] = ite_sc(c, x, y)
    return mk(out, dt, oa.shape)


MAX_UNROLL = [64]


@control("while")
def _while(prim, vals, avals, params):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cj, bj = params["cond_jaxpr"], params["body_jaxpr"]
    cc, bc, st = list(vals[:cn]), list(vals[cn:cn + bn]), list(vals[cn + bn:])
    ctx = Ctx.current
    n = 0
    while True:
        p, = eval_closed(cj, cc + st)
        if np.prod(cj.out_avals[0].shape, dtype=int) != 1:
            # batched predicate: lanes whose predicate is false keep their state
            lanes = [ctx.branch(zb(v)) for v in F(p).reshape(-1)] if isinstance(p, Sym) else [bool(v) for v in np.asarray(p).reshape(-1)]
            if not any(lanes):
                break
            n += 1
            if n > MAX_UNROLL[0]:
                raise PathLimit("while loop unrolled %d times" % n)
            new = eval_closed(bj, bc + st)
            if all(lanes):
                st = new
                continue
            bs = cj.out_avals[0].shape
            if len(bs) != 1:
                raise Unsupported("while with nested batches")
            st = [stack0([take0(b if l else a, i) for i, l in enumerate(lanes)], av) for a, b, av in zip(st, new, bj.out_avals)]
            continue
        if isinstance(p, Sym):
            go = ctx.branch(zb(F(p).reshape(-1)[0]))
        else:
            go = bool(np.asarray(p))
        if not go:
            break
        n += 1
        if n > MAX_UNROLL[0] * (50 if not isinstance(p, Sym) else 1):
            raise PathLimit("while loop unrolled %d times" % n)
        st = eval_closed(bj, bc + st)
    return st, list(bj.out_avals)


@control("scan")
def _scan(prim, vals, avals, params):
    nc, ncar, L, rev = params["num_consts"], params["num_carry"], params["length"], params["reverse"]
    j = params["jaxpr"]
    consts, carry, xs = list(vals[:nc]), list(vals[nc:nc + ncar]), list(vals[nc + ncar:])
    ys = [[None] * L for _ in range(len(j.out_avals) - ncar)]
    for i in (range(L - 1, -1, -1) if rev else range(L)):
        xi = [take0(x, i) for x in xs]
        out = eval_closed(j, consts + carry + xi)
        carry = out[:ncar]
        for q, y in enumerate(out[ncar:]):
            ys[q][i] = y
    oav = out_avals_of(prim, avals, params)
    stk = []
    for q, a in enumerate(oav[ncar:]):
        stk.append(stack0(ys[q], a))
    return carry + stk, oav


def take0(x, i):
    if not isinstance(x, Sym):
        return np.asarray(x)[i]
    if x.aff:
        return Sym(x.shape[1:], x.dtype, c=x.c[i], A=x.A[:, i])
    o = x.o()[i]
    if not isinstance(o, np.ndarray):
        a = np.empty((), dtype=object)
        a[()] = o
        o = a
    return mk(o, x.dtype)


def stack0(ys, aval):
    if not any(isinstance(y, Sym) for y in ys):
        return np.array([np.asarray(y) for y in ys], dtype=aval.dtype).reshape(aval.shape)
    if all((not isinstance(y, Sym)) or y.aff for y in ys):
        nv = Ctx.current.nv
        cs = np.stack([y.c if isinstance(y, Sym) else np.asarray(y) for y in ys])
        As = np.stack([y.A if isinstance(y, Sym) else np.zeros((nv,) + np.asarray(y).shape) for y in ys], 1)
        return Sym(aval.shape, aval.dtype, c=cs, A=As)
    out = np.empty(aval.shape, dtype=object)
    for i, y in enumerate(ys):
        out[i] = obj_arr(y) if aval.shape[1:] else obj_arr(y).reshape(-1)[0]
    return mk(out, aval.dtype)


# ---------------------------------------------------------------------------
#  linear primitives (affine representation)
# ---------------------------------------------------------------------------
# positions of operands in which the primitive is jointly linear
_ALL = "all"
LINEAR = {
    "add": _ALL, "add_any": _ALL, "sub": _ALL, "neg": _ALL, "real": _ALL, "imag": _ALL, "conj": _ALL,
    "complex": _ALL, "reshape": [0], "transpose": [0], "broadcast_in_dim": [0], "squeeze": [0],
    "expand_dims": [0], "rev": [0], "slice": [0], "concatenate": _ALL, "pad": [0, 1],
    "reduce_sum": [0], "cumsum": [0], "copy": [0], "copy_p": [0], "fft": [0], "gather": [0],
    "scatter": [0, 2], "scatter-add": [0, 2], "scatter_add": [0, 2], "dynamic_slice": [0],
    "dynamic_update_slice": [0, 1], "reduce_window_sum": [0], "triangular_solve": [1],
    "div": [0], "device_put": [0], "reduce_precision": [0], "sharding_constraint": [0],
    "convert_element_type": [0], "optimization_barrier": [0], "select_and_scatter_add": [0],
    "bcoo_todense": [0], "real_p": [0],
}
BILINEAR = {"mul", "dot_general", "conv_general_dilated", "bcoo_dot_general", "bcoo_rdot_general"}
STRUCT = {"reshape", "transpose", "broadcast_in_dim", "squeeze", "expand_dims", "rev", "slice",
          "concatenate", "copy", "copy_p", "device_put", "gather", "dynamic_slice",
          "dynamic_update_slice", "scatter", "pad", "select_n", "sharding_constraint",
          "optimization_barrier"}


def _isaff(v):
    return isinstance(v, Sym) and v.aff


def aff_linear(prim, vals, params, oav, pos):
    """Apply a jointly linear primitive to affine operands."""
    name = prim.name
    nv = Ctx.current.nv
    dt = oav.dtype
    # constant part
    cargs = [v.c if isinstance(v, Sym) else v for v in vals]
    c = np.asarray(np_eval(prim, cargs, params, oav))
    # coefficient planes
    args, axes = [], []
    for i, v in enumerate(vals):
        if isinstance(v, Sym):
            args.append(v.A)
            axes.append(0)
        elif i in pos:
            a = np.asarray(v)
            args.append(np.zeros((1,) + a.shape, a.dtype) if name in NPB else np.zeros(a.shape, a.dtype))
            axes.append(None)
        else:
            args.append(np.asarray(v))
            axes.append(None)
    A = None
    if name in NPB:
        A = NPB[name](args, axes, params, oav, nv)
    elif name == "scatter":
        return aff_scatter(prim, vals, params, oav, nv)
    if A is None:
        args = [a[0] if (ax is None and i in pos and name in NPB) else a
                for i, (a, ax) in enumerate(zip(args, axes))]
        f = lambda *xs: prim.bind(*xs, **params)
        A = np.asarray(jax.vmap(f, in_axes=tuple(axes))(*[jnp.asarray(a) for a in args]))
    if np.isnan(A).any():
        A = np.nan_to_num(A, nan=0.0)
    if A.shape[0] != nv:
        A = np.broadcast_to(A, (nv,) + A.shape[1:])
    if not A.any():
        return c.astype(dt)
    return Sym(oav.shape, dt, c=c, A=A)


def aff_scatter(prim, vals, params, oav, nv):
    """Data movement between affine operands: find the source of every output element."""
    op, idx, up = vals
    sh = [v.shape if isinstance(v, Sym) else np.shape(v) for v in vals]
    n0, n2 = int(np.prod(sh[0], dtype=int)), int(np.prod(sh[2], dtype=int))
    ids = np.asarray(bind_concrete(prim, [np.arange(n0).reshape(sh[0]), idx, (n0 + np.arange(n2)).reshape(sh[2])],
                                   params)[0]).reshape(-1)

    def planes(v, n):
        if isinstance(v, Sym):
            return np.asarray(v.c).reshape(-1), np.broadcast_to(v.A, (nv,) + tuple(v.shape)).reshape(nv, n)
        return np.asarray(v).reshape(-1), np.zeros((nv, n))
    c0, A0 = planes(op, n0)
    c2, A2 = planes(up, n2)
    c = np.concatenate([c0, c2])[ids].reshape(oav.shape)
    A = np.concatenate([A0, A2], axis=1)[:, ids].reshape((nv,) + tuple(oav.shape))
    if not A.any():
        return c.astype(oav.dtype)
    return Sym(oav.shape, oav.dtype, c=c, A=A)


def np_eval(prim, args, params, oav):
    name = prim.name
    if name in NP:
        r = NP[name](args, params, oav)
        if r is not None:
            return r
    outs = bind_concrete(prim, args, params)
    return outs[0]


NP = {
    "add": lambda a, p, o: np.add(a[0], a[1]), "add_any": lambda a, p, o: np.add(a[0], a[1]),
    "sub": lambda a, p, o: np.subtract(a[0], a[1]), "neg": lambda a, p, o: np.negative(a[0]),
    "real": lambda a, p, o: np.real(a[0]), "imag": lambda a, p, o: np.imag(a[0]),
    "conj": lambda a, p, o: np.conj(a[0]).astype(o.dtype),
    "complex": lambda a, p, o: np.asarray(a[0]) + 1j * np.asarray(a[1]),
    "reshape": lambda a, p, o: np.reshape(a[0], o.shape) if p.get("dimensions") is None else None,
    "squeeze": lambda a, p, o: np.reshape(a[0], o.shape),
    "expand_dims": lambda a, p, o: np.reshape(a[0], o.shape),
    "transpose": lambda a, p, o: np.transpose(a[0], p["permutation"]),
    "copy": lambda a, p, o: np.asarray(a[0]), "copy_p": lambda a, p, o: np.asarray(a[0]),
    "device_put": lambda a, p, o: np.asarray(a[0]),
    "reduce_sum": lambda a, p, o: np.sum(np.asarray(a[0]), axis=tuple(p["axes"])),
    "rev": lambda a, p, o: np.flip(a[0], tuple(p["dimensions"])),
    "broadcast_in_dim": lambda a, p, o: _np_bid(np.asarray(a[0]), p),
    "slice": lambda a, p, o: np.asarray(a[0])[_slc(p)],
    "concatenate": lambda a, p, o: np.concatenate([np.asarray(x) for x in a], axis=p["dimension"]),
    "convert_element_type": lambda a, p, o: _np_conv(a, p, o),
    "mul": lambda a, p, o: np.multiply(a[0], a[1]),
    "div": lambda a, p, o: np.divide(a[0], a[1]) if np.issubdtype(o.dtype, np.inexact) else None,
}


def _np_conv(a, p, o):
    x = np.asarray(a[0])
    if np.iscomplexobj(x) and not np.issubdtype(o.dtype, np.complexfloating):
        x = x.real
    return x.astype(o.dtype)


def _slc(p, lead=False):
    st = p["strides"] or [1] * len(p["start_indices"])
    s = tuple(slice(b, e, k) for b, e, k in zip(p["start_indices"], p["limit_indices"], st))
    return ((slice(None),) + s) if lead else s


def _np_bid(x, p):
    shape, bd = p["shape"], p["broadcast_dimensions"]
    s = [1] * len(shape)
    for i, d in enumerate(bd):
        s[d] = x.shape[i]
    return np.broadcast_to(x.reshape(s), shape)


def _b_elem(f):
    def g(args, axes, p, oav, nv):
        return np.asarray(f(*[_lead(a, ax, oav) for a, ax in zip(args, axes)]))
    return g


def _lead(a, ax, oav):
    # a: (k,)+shape for symbolic or zero operands; lax promotes rank-0 operands
    if a.ndim == 1 and len(oav.shape):
        return a.reshape((a.shape[0],) + (1,) * len(oav.shape))
    return a


def _b_concat(args, axes, p, oav, nv):
    return np.concatenate([np.broadcast_to(a, (nv,) + a.shape[1:]) for a in args], axis=p["dimension"] + 1)


def _b_bid(args, axes, p, oav, nv):
    x = args[0]
    shape, bd = p["shape"], p["broadcast_dimensions"]
    s = [1] * len(shape)
    for i, d in enumerate(bd):
        s[d] = x.shape[i + 1]
    return np.broadcast_to(x.reshape([x.shape[0]] + s), (x.shape[0],) + tuple(shape))


NPB = {
    "add": _b_elem(np.add), "add_any": _b_elem(np.add), "sub": _b_elem(np.subtract),
    "neg": _b_elem(np.negative), "real": _b_elem(np.real), "imag": _b_elem(np.imag),
    "conj": lambda a, ax, p, o, n: np.conj(a[0]).astype(o.dtype),
    "complex": _b_elem(lambda x, y: x + 1j * y),
    "reshape": lambda a, ax, p, o, n: a[0].reshape((a[0].shape[0],) + tuple(o.shape)) if p.get("dimensions") is None else None,
    "squeeze": lambda a, ax, p, o, n: a[0].reshape((a[0].shape[0],) + tuple(o.shape)),
    "expand_dims": lambda a, ax, p, o, n: a[0].reshape((a[0].shape[0],) + tuple(o.shape)),
    "transpose": lambda a, ax, p, o, n: np.transpose(a[0], (0,) + tuple(d + 1 for d in p["permutation"])),
    "copy": lambda a, ax, p, o, n: a[0], "copy_p": lambda a, ax, p, o, n: a[0],
    "device_put": lambda a, ax, p, o, n: a[0],
    "reduce_sum": lambda a, ax, p, o, n: a[0].sum(axis=tuple(d + 1 for d in p["axes"])),
    "rev": lambda a, ax, p, o, n: np.flip(a[0], tuple(d + 1 for d in p["dimensions"])),
    "broadcast_in_dim": _b_bid,
    "slice": lambda a, ax, p, o, n: a[0][_slc(p, True)],
    "concatenate": _b_concat,
    "convert_element_type": lambda a, ax, p, o, n: _np_conv(a, p, o),
}


def dot_np(a, b, dn, la, lb):
    """dot_general on numpy arrays; la/lb: a (b) has a leading coefficient axis."""
    (ca, cb), (ba, bb) = dn
    letters = iter("abcdefghijklmnopqrstuvwxy")
    na, nb = a.ndim - la, b.ndim - lb
    sa, sb = [None] * na, [None] * nb
    batch = []
    for x, y in zip(ba, bb):
        l = next(letters)
        sa[x] = sb[y] = l
        batch.append(l)
    for x, y in zip(ca, cb):
        l = next(letters)
        sa[x] = sb[y] = l
    fa, fb = [], []
    for i in range(na):
        if sa[i] is None:
            sa[i] = next(letters)
            fa.append(sa[i])
    for i in range(nb):
        if sb[i] is None:
            sb[i] = next(letters)
            fb.append(sb[i])
    lead = "Z" if (la or lb) else ""
    return np.einsum("%s,%s->%s" % (("Z" if la else "") + "".join(sa), ("Z" if lb else "") + "".join(sb),
                                    lead + "".join(batch) + "".join(fa) + "".join(fb)), a, b, optimize=True)


def aff_bilinear(prim, vals, params, oav):
    """Bilinear primitive with exactly one symbolic (affine) operand."""
    name = prim.name
    i = 0 if isinstance(vals[0], Sym) else 1
    s, k = vals[i], np.asarray(vals[1 - i])
    dt = oav.dtype
    if name == "mul":
        c = s.c * k
        A = s.A
        if A.ndim == 1 and len(oav.shape):
            A = A.reshape((A.shape[0],) + (1,) * len(oav.shape))
        A = A * k
    elif name == "dot_general":
        dn = params["dimension_numbers"]
        if i == 0:
            c, A = dot_np(s.c, k, dn, 0, 0), dot_np(s.A, k, dn, 1, 0)
        else:
            c, A = dot_np(k, s.c, dn, 0, 0), dot_np(k, s.A, dn, 0, 1)
    else:
        f = (lambda x: prim.bind(x, jnp.asarray(k), **params)) if i == 0 else \
            (lambda x: prim.bind(jnp.asarray(k), x, **params))
        c = np.asarray(f(jnp.asarray(s.c, s.dtype)))
        A = np.asarray(jax.vmap(f)(jnp.asarray(s.A, s.dtype)))
    if not A.any():
        return np.asarray(c, dt)
    return Sym(oav.shape, dt, c=np.asarray(c), A=A)


# ---------------------------------------------------------------------------
#  generic object-tier handlers
# ---------------------------------------------------------------------------
def struct_move(prim, vals, params, oav, data_pos):
    """Pure data movement: run the primitive on element ids."""
    pool = [None]
    ids = []
    for i, v in enumerate(vals):
        if i in data_pos:
            o = obj_arr(v).reshape(-1)
            base = len(pool)
            pool.extend(o)
            ids.append(np.arange(base, base + o.size, dtype=np.int64).reshape(np.shape(v) if not isinstance(v, Sym) else v.shape))
        else:
            ids.append(np.asarray(concretize_arr(v)) if isinstance(v, Sym) else np.asarray(v))
    params = dict(params)
    if prim.name == "gather" and params.get("fill_value") is not None:
        pool.append(tosc(params["fill_value"]))
        params["fill_value"] = len(pool) - 1
    elif prim.name == "gather":
        # fill: NaN for floats, min int for ints, True for bools
        dt = oav.dtype
        fv = Special(float("nan")) if np.issubdtype(dt, np.inexact) else (True if dt == bool else Fraction(-2**31))
        pool.append(fv)
        params["fill_value"] = len(pool) - 1
    out = np.asarray(bind_concrete(prim, ids, params)[0])
    res = np.empty(out.size, dtype=object)
    for i, k in enumerate(out.reshape(-1)):
        res[i] = pool[int(k)]
    return mk(res, oav.dtype, out.shape)


def lin_matrix(f, shape, dtype):
    """Matrix of a linear map via its action on the basis (rows: inputs)."""
    n = int(np.prod(shape, dtype=int))
    eye = jnp.asarray(np.eye(n).reshape((n,) + tuple(shape)), dtype)
    M = np.asarray(jax.vmap(f)(eye))
    return M.reshape(n, -1)


def comb(elems, M):
    """out_j = sum_i M[i,j] elems_i on scalars."""
    out = np.empty(M.shape[1], dtype=object)
    scale = np.abs(M).max(initial=0)
    for j in range(M.shape[1]):
        acc = ZERO
        for i in np.nonzero(np.abs(M[:, j]) > 1e-14 * scale)[0]:
            acc = acc + elems[i] * tosc(complex(M[i, j]) if np.iscomplexobj(M) else float(M[i, j]))
        out[j] = acc
    return out


def obj_linear(prim, vals, params, oav, pos):
    """Jointly linear primitive on object arrays, by linearity over the elements."""
    total = None
    consts = []
    for i, v in enumerate(vals):
        if i in pos:
            consts.append(np.zeros(np.shape(v) if not isinstance(v, Sym) else v.shape,
                                   v.dtype if isinstance(v, Sym) else np.asarray(v).dtype))
        else:
            consts.append(np.asarray(concretize_arr(v)) if isinstance(v, Sym) else np.asarray(v))
    for i in pos:
        if i >= len(vals):
            continue
        v = vals[i]
        el = F(v).reshape(-1)
        shp = v.shape if isinstance(v, Sym) else np.shape(v)
        dt = v.dtype if isinstance(v, Sym) else np.asarray(v).dtype

        def f(x, i=i):
            a = [jnp.asarray(c) for c in consts]
            a[i] = x
            return prim.bind(*a, **params)
        if np.issubdtype(dt, np.complexfloating) and prim.name == "fft" and not np.issubdtype(oav.dtype, np.complexfloating):
            # only real-linear: treat real and imaginary parts separately
            M = np.concatenate([lin_matrix(f, shp, dt), lin_matrix(lambda x, f=f: f(x * 1j), shp, dt)])
            el = [re(e) for e in el] + [im(e) for e in el]
        else:
            M = lin_matrix(f, shp, dt)
        r = comb(el, M)
        total = r if total is None else np.array([a + b for a, b in zip(total, r)] + [None], dtype=object)[:-1]
    return mk(total, oav.dtype, oav.shape)


def obj_dot(a, b, dn):
    """dot_general on object arrays."""
    (ca, cb), (ba, bb) = dn
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    B = np.transpose(b, list(bb) + list(cb) + fb)
    bs = A.shape[:len(ba)]
    fas, fbs = A.shape[len(ba):len(ba) + len(fa)], B.shape[len(bb) + len(cb):]
    nb, nfa, nfb = int(np.prod(bs, dtype=int)), int(np.prod(fas, dtype=int)), int(np.prod(fbs, dtype=int))
    k = int(np.prod(A.shape[len(ba) + len(fa):], dtype=int))
    A, B = A.reshape(nb, nfa, k), B.reshape(nb, k, nfb)
    out = np.empty((nb, nfa, nfb), dtype=object)
    for x in range(nb):
        for i in range(nfa):
            for j in range(nfb):
                acc = ZERO
                for q in range(k):
                    u, v = A[x, i, q], B[x, q, j]
                    if is_zero(u) or is_zero(v):
                        continue
                    acc = acc + u * v
                out[x, i, j] = acc
    return out.reshape(tuple(bs) + tuple(fas) + tuple(fbs))


# ---------------------------------------------------------------------------
#  elementwise
# ---------------------------------------------------------------------------
def ite_sc(c, a, b):
    """if-then-else on scalars or booleans."""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return bite(c, a, b)
    return Ctx.current.ite(c, a, b)


def s_abs(a):
    ctx = Ctx.current
    if isinstance(a, C):
        return ctx.sqrt(a.re * a.re + a.im * a.im)
    if isinstance(a, Special):
        return Special(abs(float(a)))
    return ctx.abs(a)


def s_sign(a):
    ctx = Ctx.current
    a = as_const(a)
    if isinstance(a, C):
        m = s_abs(a)
        r = div(a, m)
        nz = cmp_("ne", m, ZERO)
        return ctx.ite(nz, r, ZERO) if not isinstance(nz, bool) else r
    if isinstance(a, (Fraction, Special)):
        return Fraction((a > 0) - (a < 0))
    return ctx.ite(cmp_("gt", a, ZERO), ONE, ctx.ite(cmp_("lt", a, ZERO), -ONE, ZERO))


def s_max(a, b):
    if isinstance(a, (bool, z3.BoolRef)):
        return or_(a, b)
    if isinstance(a, Special) or isinstance(b, Special):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Special):
                if x != x:
                    return x
                return x if x > 0 else y
    c = cmp_("ge", a, b)
    return ite_sc(c, a, b)


def s_min(a, b):
    if isinstance(a, (bool, z3.BoolRef)):
        return and_(a, b)
    if isinstance(a, Special) or isinstance(b, Special):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Special):
                if x != x:
                    return x
                return y if x > 0 else x
    c = cmp_("le", a, b)
    return ite_sc(c, a, b)


def _arith(f):
    def g(a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            fa = float(a) if isinstance(a, (Special, Fraction)) else None
            fb = float(b) if isinstance(b, (Special, Fraction)) else None
            if fa is not None and fb is not None:
                with np.errstate(all="ignore"):
                    return tosc(float(f(np.float64(fa), np.float64(fb))))
            return f(despecial(Ctx.current, a), despecial(Ctx.current, b))
        return f(a, b)
    return g


def s_div(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        fa = float(a) if isinstance(a, (Special, Fraction)) else None
        fb = float(b) if isinstance(b, (Special, Fraction)) else None
        if fa is not None and fb is not None:
            with np.errstate(all="ignore"):
                return tosc(float(np.float64(fa) / np.float64(fb)))
        if isinstance(b, Special) and b == b:
            return ZERO
        return div(despecial(Ctx.current, a), despecial(Ctx.current, b))
    if isinstance(b, Fraction) and b == 0:
        if isinstance(a, Fraction):
            return Special(float("nan") if a == 0 else (float("inf") if a > 0 else float("-inf")))
        if DIV0[0] and isinstance(a, R):
            ctx = Ctx.current
            if ctx.branch(cmp_("eq", a, ZERO)):
                return Special(float("nan"))
            return Special(float("inf")) if ctx.branch(cmp_("gt", a, ZERO)) else Special(float("-inf"))
        return Ctx.current.fresh_r("nan")
    if DIV0[0] and isinstance(b, R):
        if isinstance(a, C):
            return mkc(s_div(a.re, b), s_div(a.im, b))
        ctx = Ctx.current
        if ctx.branch(cmp_("eq", b, ZERO)):
            a = as_const(a)
            if isinstance(a, Fraction):
                return s_div(a, ZERO)
            if ctx.branch(cmp_("eq", a, ZERO)):
                return Special(float("nan"))
            return Special(float("inf")) if ctx.branch(cmp_("gt", a, ZERO)) else Special(float("-inf"))
    return div(a, b)


def s_intdiv(a, b):
    a, b = as_const(a), as_const(b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        q = abs(a) // abs(b) if b else Fraction(-1)
        return Fraction(q if (a >= 0) == (b > 0) else -q)
    ctx = Ctx.current
    b_ = b if isinstance(b, Fraction) else Fraction(ctx.concretize(b))
    a_ = ctx.concretize(a)
    return s_intdiv(Fraction(a_), b_)


def s_rem(a, b):
    a, b = as_const(a), as_const(b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        m = abs(a) % abs(b) if b else a
        return m if a >= 0 else -m
    ctx = Ctx.current
    return s_rem(Fraction(ctx.concretize(a)) if isinstance(a, R) else a,
                 Fraction(ctx.concretize(b)) if isinstance(b, R) else b)


def s_floor(a):
    a = as_const(a)
    if isinstance(a, Fraction):
        return Fraction(a.numerator // a.denominator)
    if isinstance(a, Special):
        return a
    ctx = Ctx.current
    key = ("floor", a.key())
    at = ctx.cache.get(key)
    if at is None:
        at = ctx.fresh("floor", is_int=True, info=a)
        ctx.cache[key] = at
        z = z3.ToReal(at.z)
        ctx.define(z3.And(z <= a.z3(), a.z3() < z + 1))
    return R({(at.id,): ONE})


def s_ceil(a):
    return -s_floor(-a)


def s_trunc(a):
    a = as_const(a)
    c = cmp_("ge", a, ZERO)
    if isinstance(c, bool):
        return s_floor(a) if c else s_ceil(a)
    return Ctx.current.ite(c, s_floor(a), s_ceil(a))


def s_round(a, method):
    # lax.RoundingMethod.AWAY_FROM_ZERO = 0, TO_NEAREST_EVEN = 1
    a = as_const(a)
    half = Fraction(1, 2)
    if isinstance(a, Fraction):
        f = a.numerator // a.denominator
        d = a - f
        if d < half:
            return Fraction(f)
        if d > half:
            return Fraction(f + 1)
        if int(method) == 0:
            return Fraction(f + 1) if a > 0 else Fraction(f)
        return Fraction(f if f % 2 == 0 else f + 1)
    ctx = Ctx.current
    return s_floor(a + half)


def s_uf(name):
    import math
    cf = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan,
          "tanh": math.tanh, "log1p": math.log1p, "expm1": math.expm1, "erf": math.erf,
          "acos": math.acos, "asin": math.asin, "atan": math.atan, "sinh": math.sinh,
          "cosh": math.cosh, "lgamma": math.lgamma}.get(name)

    def g(a):
        a = as_const(a)
        ctx = Ctx.current
        if isinstance(a, Special):
            return tosc(float(getattr(np, name)(float(a)))) if hasattr(np, name) else a
        if isinstance(a, Fraction):
            try:
                return frac(cf(float(a)))
            except (ValueError, OverflowError):
                return Special(float("-inf")) if name == "log" and a == 0 else Special(float("nan"))
        if isinstance(a, C):
            if name == "exp":
                m = g(a.re)
                return mkc(m * s_uf("cos")(a.im), m * s_uf("sin")(a.im))
            raise Unsupported(name + " of complex")
        if name in ("cos", "sin") and len(a.t) == 1:
            (m, c), = a.t.items()
            at = ctx.atoms[m[0]] if len(m) == 1 else None
            if at is not None and at.kind == "uf" and at.info[0] == "atan2" and abs(c) == 1:
                y, x = at.info[1]
                r = ctx.sqrt(x * x + y * y)
                ratio = div(x if name == "cos" else y, r)
                if name == "sin" and c < 0:
                    ratio = -ratio
                nz = cmp_("ne", r, ZERO)
                if isinstance(nz, bool):
                    return ratio
                return ctx.ite(nz, ratio, ONE if name == "cos" else ZERO)
        if name in ("cos", "sin"):
            v = third(ctx, name, a)
            if v is not None:
                return v
        return ctx.uf(name, a)
    return g


def third(ctx, name, a):
    """cos / sin of  const + (k/3) acos(w),  k a small integer."""
    import math
    at, k, c0 = None, 0, 0.0
    for m, c in a.t.items():
        if m == ():
            c0 = float(c)
            continue
        h = ctx.atoms[m[0]] if len(m) == 1 else None
        if at is not None or h is None or h.kind != "uf" or h.info[0] != "acos":
            return None
        at, k = h, c
    if at is None or not isinstance(as_const(at.info[1][0]), R):
        return None
    k3 = round(float(3 * k))
    if abs(float(3 * k) - k3) > 1e-6 or not 1 <= abs(k3) <= 6:
        return None
    w = at.info[1][0]
    s3 = round(c0 * 3 / math.pi)
    if name == "cos" and abs(k3) <= 2 and abs(c0 * 3 / math.pi - s3) < 1e-9:
        return ctx.third_cos(w, k3, s3)
    co = ctx.third_angle(w)
    si = ctx.sqrt(ONE - power(co, 2))
    # (cos, sin)(k3 t) by angle addition
    x, y = ONE, ZERO
    for _ in range(abs(k3)):
        x, y = x * co - y * si, x * si + y * co
    if k3 < 0:
        y = -y
    cc, cs = frac(math.cos(c0)), frac(math.sin(c0))
    return x * cc - y * cs if name == "cos" else x * cs + y * cc


def s_pow(a, b):
    a, b = as_const(a), as_const(b)
    ctx = Ctx.current
    if isinstance(b, Fraction):
        if b.denominator == 1 and abs(b) <= 16:
            return power(a, int(b)) if b >= 0 else s_div(ONE, power(a, -int(b)))
        if b == Fraction(1, 2):
            return ctx.sqrt(a)
        if b == Fraction(-1, 2):
            return s_div(ONE, ctx.sqrt(a))
        if isinstance(a, Fraction) and a > 0:
            return frac(float(a) ** float(b))
        q = b.limit_denominator(6)
        if isinstance(a, R) and abs(q) <= 6 and abs(float(q - b)) < 1e-6:
            if not nonneg(ctx, a):
                ctx.assume(a.z3() >= 0)
            r = a
            d = q.denominator
            while d % 2 == 0:
                r, d = ctx.sqrt(r), d // 2
            if d > 1:
                r = ctx.root(r, d)
            r = power(r, abs(q.numerator))
            return r if q > 0 else s_div(ONE, r)
    return ctx.uf("pow", a, b)


def s_atan2(y, x):
    y, x = as_const(y), as_const(x)
    if isinstance(y, Fraction) and isinstance(x, Fraction):
        import math
        return frac(math.atan2(y, x))
    return Ctx.current.uf("atan2", y, x)


def s_sqrt(a):
    ctx = Ctx.current
    a = as_const(a)
    if isinstance(a, Special):
        return a if a > 0 else Special(float("nan"))
    if isinstance(a, C):
        raise Unsupported("sqrt of complex")
    if isinstance(a, Fraction) and a < 0:
        return Special(float("nan"))
    if isinstance(a, R) and not nonneg(ctx, a):
        # real square root: domain is a >= 0 on this path
        ctx.assume(a.z3() >= 0)
    return ctx.sqrt(a)


def s_not(a):
    if isinstance(a, (bool, z3.BoolRef)):
        return not_(a)
    if isinstance(a, Fraction):
        return Fraction(~int(a))
    raise Unsupported("bitwise not")


def s_and(a, b):
    if isinstance(a, (bool, z3.BoolRef)):
        return and_(a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return Fraction(int(a) & int(b))
    raise Unsupported("bitwise and")


def s_or(a, b):
    if isinstance(a, (bool, z3.BoolRef)):
        return or_(a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return Fraction(int(a) | int(b))
    raise Unsupported("bitwise or")


def s_xor(a, b):
    if isinstance(a, (bool, z3.BoolRef)):
        return not_(iff_(a, b))
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return Fraction(int(a) ^ int(b))
    raise Unsupported("bitwise xor")


def s_cmp(op):
    def g(a, b):
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if op == "eq":
                return iff_(a, b)
            if op == "ne":
                return not_(iff_(a, b))
            return {"lt": and_(not_(a), b), "gt": and_(a, not_(b)),
                    "le": or_(not_(a), b), "ge": or_(a, not_(b))}[op]
        return cmp_(op, a, b)
    return g


def s_isfinite(a):
    if isinstance(a, Special):
        return False
    ctx = Ctx.current
    if isinstance(a, R) and K_has_inf(ctx, a):
        return cmp_("lt", ctx.abs(a), ctx.INF)
    return True


def s_clamp(lo, x, hi):
    return s_min(s_max(x, lo), hi)


def s_nextafter(a, b):
    return a


ELEM = {
    "add": _arith(lambda a, b: a + b), "add_any": _arith(lambda a, b: a + b),
    "sub": _arith(lambda a, b: a - b), "mul": _arith(lambda a, b: a * b),
    "max": s_max, "min": s_min, "neg": lambda a: Special(-float(a)) if isinstance(a, Special) else -a,
    "abs": s_abs, "sign": s_sign, "real": re, "imag": im, "conj": conj,
    "complex": lambda a, b: mkc(a, b), "not": s_not, "and": s_and, "or": s_or, "xor": s_xor,
    "eq": s_cmp("eq"), "ne": s_cmp("ne"), "lt": s_cmp("lt"), "le": s_cmp("le"),
    "gt": s_cmp("gt"), "ge": s_cmp("ge"), "sqrt": s_sqrt, "rem": s_rem,
    "rsqrt": lambda a: s_div(ONE, s_sqrt(a)), "floor": s_floor, "ceil": s_ceil,
    "pow": s_pow, "atan2": s_atan2, "is_finite": s_isfinite, "clamp": s_clamp,
    "square": lambda a: power(a, 2), "nextafter": s_nextafter, "stop_gradient": lambda a: a,
    "cbrt": s_uf("cbrt"),
}
for _n in ("exp", "log", "sin", "cos", "tan", "tanh", "log1p", "expm1", "erf", "acos", "asin", "atan",
           "sinh", "cosh", "lgamma", "logistic", "erf_inv", "digamma", "erfc", "asinh", "acosh", "atanh"):
    ELEM[_n] = s_uf(_n)


def elementwise(f, vals, oav):
    os_ = [F(v) for v in vals]
    shp = oav.shape
    os_ = [np.broadcast_to(o, shp) if o.shape != tuple(shp) else o for o in os_]
    n = int(np.prod(shp, dtype=int))
    out = np.empty(n, dtype=object)
    fl = [o.reshape(-1) for o in os_]
    for i in range(n):
        out[i] = f(*[x[i] for x in fl])
    return mk(out, oav.dtype, shp)


# ---------------------------------------------------------------------------
#  dispatcher
# ---------------------------------------------------------------------------
def eval_prim(prim, vals, params, oavs):
    name = prim.name
    oav = oavs[0]
    syms = [v for v in vals if isinstance(v, Sym)]
    allaff = all(v.aff for v in syms)
    if name == "select_n":
        return [do_select(prim, vals, params, oav)]
    # symbolic index operands are resolved by forking
    if name in ("gather", "scatter", "scatter-add", "scatter_add", "dynamic_slice", "dynamic_update_slice",
                "scatter-mul", "scatter_mul", "scatter-min", "scatter-max"):
        vals = list(vals)
        ip = {"gather": [1], "dynamic_slice": range(1, len(vals)),
              "dynamic_update_slice": range(2, len(vals))}.get(name, [1])
        for i in ip:
            if isinstance(vals[i], Sym):
                vals[i] = concretize_arr(vals[i])
        if not any(isinstance(v, Sym) for v in vals):
            return [tonp(o) for o in bind_concrete(prim, vals, params)]
        syms = [v for v in vals if isinstance(v, Sym)]
        allaff = all(v.aff for v in syms)
    if name in HANDLERS:
        r = HANDLERS[name](prim, vals, params, oavs)
        if r is not None:
            return r
    if allaff:
        if name in LINEAR:
            pos = LINEAR[name]
            pos = list(range(len(vals))) if pos == _ALL else pos
            if all(i in pos for i, v in enumerate(vals) if isinstance(v, Sym)) and _lin_ok(name, vals, params, oav):
                return [aff_linear(prim, vals, params, oav, pos)]
        if name in BILINEAR and len(syms) == 1 and isinstance(vals[0], Sym) != isinstance(vals[1], Sym):
            return [aff_bilinear(prim, vals, params, oav)]
        if name == "integer_pow" and params["y"] == 1:
            return [vals[0]]
    # object tier
    if name in STRUCT:
        if name == "concatenate":
            pos = range(len(vals))
        elif name in ("scatter",):
            pos = [0, 2]
        elif name in ("pad", "dynamic_update_slice"):
            pos = [0, 1]
        else:
            pos = [0]
        return [struct_move(prim, vals, params, oav, list(pos))]
    if name == "convert_element_type":
        return [do_convert(vals[0], oav)]
    if name == "integer_pow":
        y = params["y"]
        return [elementwise(lambda a: power(a, y) if y >= 0 else s_div(ONE, power(a, -y)), vals, oav)]
    if name == "div":
        if np.issubdtype(oav.dtype, np.integer):
            return [elementwise(s_intdiv, vals, oav)]
        return [elementwise(s_div, vals, oav)]
    if name == "round":
        m = params["rounding_method"]
        return [elementwise(lambda a: s_round(a, m), vals, oav)]
    if name in ELEM:
        return [elementwise(ELEM[name], vals, oav)]
    if name == "reduce_sum":
        return [do_reduce(vals[0], params["axes"], lambda a, b: ELEM["add"](a, b), oav)]
    if name == "reduce_prod":
        return [do_reduce(vals[0], params["axes"], lambda a, b: ELEM["mul"](a, b), oav)]
    if name == "reduce_max":
        return [do_reduce(vals[0], params["axes"], s_max, oav)]
    if name == "reduce_min":
        return [do_reduce(vals[0], params["axes"], s_min, oav)]
    if name == "reduce_and":
        return [do_reduce(vals[0], params["axes"], s_and, oav)]
    if name == "reduce_or":
        return [do_reduce(vals[0], params["axes"], s_or, oav)]
    if name in ("cumsum", "cumprod", "cummax", "cummin"):
        op = {"cumsum": ELEM["add"], "cumprod": ELEM["mul"], "cummax": s_max, "cummin": s_min}[name]
        return [do_cum(vals[0], params, op, oav)]
    if name in ("argmax", "argmin"):
        return [do_arg(vals[0], params, name, oav)]
    if name == "dot_general":
        return [mk(obj_dot(F(vals[0]), F(vals[1]), params["dimension_numbers"]), oav.dtype, oav.shape)]
    if name in BILINEAR:
        return [obj_bilinear(prim, vals, params, oav)]
    if name in LINEAR:
        pos = LINEAR[name]
        pos = list(range(len(vals))) if pos == _ALL else pos
        if all(i in pos for i, v in enumerate(vals) if isinstance(v, Sym)):
            return [obj_linear(prim, vals, params, oav, pos)]
    raise Unsupported("primitive %s" % name)


def _lin_ok(name, vals, params, oav):
    if name == "div":
        return np.issubdtype(oav.dtype, np.inexact)
    if name == "convert_element_type":
        return np.issubdtype(oav.dtype, np.inexact)
    return True


def do_convert(v, oav):
    dt = np.dtype(oav.dtype)
    src = v.dtype
    ctx = Ctx.current
    o = force(v.o())
    if src == bool:
        if dt == bool:
            return v
        f = lambda a: (a if isinstance(a, (R, Fraction)) else ctx.to_real(a))
    elif dt == bool:
        f = lambda a: cmp_("ne", a, ZERO)
    elif np.issubdtype(dt, np.integer) and np.issubdtype(src, np.inexact):
        f = s_trunc
    elif np.issubdtype(src, np.complexfloating) and not np.issubdtype(dt, np.complexfloating):
        f = re
    else:
        if v.aff:
            return Sym(v.shape, dt, c=v.c, A=v.A)
        return Sym(v.shape, dt, obj=v.obj)
    out = np.empty(o.size, dtype=object)
    for i, a in enumerate(o.reshape(-1)):
        out[i] = f(a)
    return mk(out, dt, v.shape)


def do_select(prim, vals, params, oav):
    p = vals[0]
    cases = vals[1:]
    if not isinstance(p, Sym):
        pv = np.asarray(p)
        if all((not isinstance(c, Sym)) or c.aff for c in cases):
            nv = Ctx.current.nv
            pb = np.broadcast_to(pv, oav.shape).astype(int)
            c = np.choose(pb, [np.broadcast_to(x.c if isinstance(x, Sym) else np.asarray(x), oav.shape) for x in cases])
            A = np.choose(pb[None], [x.A if isinstance(x, Sym) else np.zeros((nv,) + tuple(oav.shape)) for x in cases])
            if not A.any():
                return np.asarray(c, oav.dtype)
            return Sym(oav.shape, oav.dtype, c=c, A=A)
        os_ = [np.broadcast_to(obj_arr(c), oav.shape).reshape(-1) for c in cases]
        pf = np.broadcast_to(pv, oav.shape).reshape(-1).astype(int)
        out = np.empty(pf.size, dtype=object)
        for i, k in enumerate(pf):
            out[i] = os_[k][i]
        return mk(out, oav.dtype, oav.shape)
    ctx = Ctx.current
    po = np.broadcast_to(F(p), oav.shape).reshape(-1)
    os_ = [np.broadcast_to(F(c), oav.shape).reshape(-1) for c in cases]
    out = np.empty(po.size, dtype=object)
    isint = np.issubdtype(oav.dtype, np.integer)
    for i, k in enumerate(po):
        if isinstance(k, (R, Fraction)):
            kk = ctx.concretize(k)
            out[i] = os_[kk][i]
            continue
        if isinstance(k, bool):
            out[i] = os_[int(k)][i]
            continue
        a, b = os_[1][i], os_[0][i]
        if isint and not (isinstance(a, Fraction) and isinstance(b, Fraction) and a == b) and FORK_INT_SELECT[0]:
            out[i] = a if ctx.branch(k) else b
        else:
            out[i] = ite_sc(k, a, b)
    return mk(out, oav.dtype, oav.shape)


FORK_INT_SELECT = [True]


def do_reduce(v, axes, op, oav):
    o = F(v)
    axes = sorted(axes)
    rest = [i for i in range(o.ndim) if i not in axes]
    t = np.transpose(o, rest + list(axes))
    n = int(np.prod([o.shape[i] for i in rest], dtype=int))
    t = t.reshape(n, -1)
    out = np.empty(n, dtype=object)
    for i in range(n):
        row = t[i]
        if row.size == 0:
            out[i] = ZERO
            continue
        acc = row[0]
        for x in row[1:]:
            acc = op(acc, x)
        out[i] = acc
    return mk(out, oav.dtype, oav.shape)


def do_cum(v, params, op, oav):
    o = np.moveaxis(F(v), params["axis"], -1)
    shp = o.shape
    t = o.reshape(-1, shp[-1])
    out = np.empty(t.shape, dtype=object)
    for i in range(t.shape[0]):
        row = t[i][::-1] if params["reverse"] else t[i]
        acc = None
        res = []
        for x in row:
            acc = x if acc is None else op(acc, x)
            res.append(acc)
        if params["reverse"]:
            res = res[::-1]
        for j, x in enumerate(res):
            out[i, j] = x
    return mk(np.moveaxis(out.reshape(shp), -1, params["axis"]), oav.dtype, oav.shape)


def do_arg(v, params, name, oav):
    ctx = Ctx.current
    ax, = params["axes"]
    o = np.moveaxis(F(v), ax, -1)
    shp = o.shape
    t = o.reshape(-1, shp[-1])
    out = []
    for row in t:
        row = list(row)
        n = len(row)
        strict = s_cmp("gt") if name == "argmax" else s_cmp("lt")
        weak = s_cmp("ge") if name == "argmax" else s_cmp("le")
        opts = []
        for i in range(n):
            cs = []
            for j in range(n):
                if j < i:
                    cs.append(strict(row[i], row[j]))
                elif j > i:
                    cs.append(weak(row[i], row[j]))
            opts.append(and_(*cs))
        out.append(ctx.decide(opts))
    return np.array(out, dtype=oav.dtype).reshape(oav.shape)


def obj_bilinear(prim, vals, params, oav):
    """Generic bilinear primitive: tensor over the two bases."""
    a, b = vals[0], vals[1]
    sa = a.shape if isinstance(a, Sym) else np.shape(a)
    sb = b.shape if isinstance(b, Sym) else np.shape(b)
    da = a.dtype if isinstance(a, Sym) else np.asarray(a).dtype
    db = b.dtype if isinstance(b, Sym) else np.asarray(b).dtype
    na, nb = int(np.prod(sa, dtype=int)), int(np.prod(sb, dtype=int))
    if na * nb > 40000:
        raise Unsupported("bilinear %s too large" % prim.name)
    ea = jnp.asarray(np.eye(na).reshape((na,) + tuple(sa)), da)
    eb = jnp.asarray(np.eye(nb).reshape((nb,) + tuple(sb)), db)
    f = lambda x, y: prim.bind(x, y, *vals[2:], **params)
    T = np.asarray(jax.vmap(lambda x: jax.vmap(lambda y: f(x, y))(eb))(ea)).reshape(na, nb, -1)
    oa, ob = F(a).reshape(-1), F(b).reshape(-1)
    out = np.empty(T.shape[2], dtype=object)
    for k in range(T.shape[2]):
        acc = ZERO
        for i, j in zip(*np.nonzero(T[:, :, k])):
            acc = acc + oa[i] * ob[j] * tosc(complex(T[i, j, k]) if np.iscomplexobj(T) else float(T[i, j, k]))
        out[k] = acc
    return mk(out, oav.dtype, oav.shape)


# ---------------------------------------------------------------------------
#  special handlers
# ---------------------------------------------------------------------------
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


@handler("sort")
def _sort(prim, vals, params, oavs):
    dim, nk = params["dimension"], params["num_keys"]
    os_ = [np.moveaxis(F(v), dim, -1) for v in vals]
    shp = os_[0].shape
    flat = [o.reshape(-1, shp[-1]) for o in os_]
    outs = [np.empty(f.shape, dtype=object) for f in flat]
    n = shp[-1]
    for r in range(flat[0].shape[0]):
        keys = [tuple(flat[q][r][i] for q in range(nk)) for i in range(n)]
        s = SortLazy(keys)
        for q in range(len(flat)):
            col = list(flat[q][r])
            for k in range(n):
                outs[q][r, k] = Lazy(s, k, col)
    res = []
    for o, a in zip(outs, oavs):
        x = np.moveaxis(o.reshape(shp), -1, dim)
        res.append(Sym(x.shape, a.dtype, obj=x))
    return res


@handler("top_k")
def _topk(prim, vals, params, oavs):
    k = params["k"]
    o = F(vals[0])
    shp = o.shape
    flat = o.reshape(-1, shp[-1])
    n = shp[-1]
    ov = np.empty((flat.shape[0], k), dtype=object)
    oi = np.empty((flat.shape[0], k), dtype=object)
    for r in range(flat.shape[0]):
        # descending, ties by lower index: sort by (-value), stable
        s = SortLazy([(-x,) if not isinstance(x, Special) else (Special(-float(x)),) for x in flat[r]])
        for j in range(k):
            ov[r, j] = Lazy(s, j, list(flat[r]))
            oi[r, j] = Lazy(s, j, [Fraction(i) for i in range(n)])
    return [Sym(oavs[0].shape, oavs[0].dtype, obj=ov.reshape(oavs[0].shape)),
            Sym(oavs[1].shape, oavs[1].dtype, obj=oi.reshape(oavs[1].shape))]


@handler("scatter-add", "scatter_add", "scatter-mul", "scatter_mul", "scatter-min", "scatter-max")
def _scatter_op(prim, vals, params, oavs):
    if all((not isinstance(v, Sym)) or v.aff for v in vals) and "add" in prim.name:
        return None
    if "add" in prim.name:
        # destination of every update element, by linearity with unit updates
        return [obj_linear(prim, vals, params, oavs[0], [0, 2])]
    raise Unsupported(prim.name)


@handler("cholesky")
def _chol(prim, vals, params, oavs):
    o = F(vals[0])
    n = o.shape[-1]
    flat = o.reshape(-1, n, n)
    out = np.empty(flat.shape, dtype=object)
    ctx = Ctx.current
    for q in range(flat.shape[0]):
        a = flat[q]
        L = out[q]
        for i in range(n):
            for j in range(n):
                L[i, j] = ZERO
        for j in range(n):
            s = a[j, j]
            for k in range(j):
                s = s - L[j, k] * conj(L[j, k])
            L[j, j] = s_sqrt(re(s))
            for i in range(j + 1, n):
                s = a[i, j]
                for k in range(j):
                    s = s - L[i, k] * conj(L[j, k])
                L[i, j] = s_div(s, L[j, j])
    return [mk(out.reshape(o.shape), oavs[0].dtype)]


@handler("triangular_solve")
def _trisolve(prim, vals, params, oavs):
    a, b = vals
    if not isinstance(a, Sym):
        if b.aff:
            return None
        return [obj_linear(prim, vals, params, oavs[0], [1])]
    A, B = F(a), F(b)
    left, lower, tr, cj, unit = (params["left_side"], params["lower"], params["transpose_a"],
                                 params["conjugate_a"], params["unit_diagonal"])
    n = A.shape[-1]
    bs = A.shape[:-2]
    Af = A.reshape((-1, n, n))
    Bf = B.reshape((-1,) + B.shape[-2:])
    out = np.empty(Bf.shape, dtype=object)
    for q in range(Af.shape[0]):
        M = Af[q]
        if tr:
            M = M.T
            low = not lower
        else:
            low = lower
        if cj:
            M = np.array([[conj(x) for x in r] for r in M], dtype=object)
        rhs = Bf[q]
        if not left:
            # X M = B  <=>  M^T X^T = B^T
            M, rhs, low = M.T, rhs.T, not low
        X = np.empty(rhs.shape, dtype=object)
        order = range(n) if low else range(n - 1, -1, -1)
        for c in range(rhs.shape[1]):
            for i in order:
                s = rhs[i, c]
                ks = range(i) if low else range(i + 1, n)
                for k in ks:
                    s = s - M[i, k] * X[k, c]
                X[i, c] = s if unit else s_div(s, M[i, i])
        out[q] = X if left else X.T
    return [mk(out.reshape(B.shape), oavs[0].dtype)]


@handler("lu")
def _lu(prim, vals, params, oavs):
    """LU without pivoting is one of the factorisations of a row-permuted matrix;
    pivot choice does not change the solution of a regular system."""
    o = F(vals[0])
    m, n = o.shape[-2:]
    if m != n:
        raise Unsupported("rectangular lu")
    flat = o.reshape(-1, n, n).copy()
    for q in range(flat.shape[0]):
        a = flat[q]
        for k in range(n):
            for i in range(k + 1, n):
                f = s_div(a[i, k], a[k, k])
                a[i, k] = f
                for j in range(k + 1, n):
                    a[i, j] = a[i, j] - f * a[k, j]
    bs = o.shape[:-2]
    piv = np.broadcast_to(np.arange(n, dtype=np.int32), bs + (n,))
    outs = [mk(flat.reshape(o.shape), oavs[0].dtype), np.array(piv)]
    if len(oavs) > 2:
        outs.append(np.array(piv))
    return outs


@handler("qr")
def _qr(prim, vals, params, oavs):
    """Gram-Schmidt; every column of Q (row of R) has an unknown sign."""
    o = F(vals[0])
    m, n = o.shape
    if m < n or params.get("full_matrices") and m != n:
        raise Unsupported("wide or full qr")
    ctx = Ctx.current
    Q = np.empty((m, n), dtype=object)
    Rm = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            Rm[i, j] = ZERO
    for j in range(n):
        v = [o[i, j] for i in range(m)]
        for k in range(j):
            c = ZERO
            for i in range(m):
                c = c + conj(Q[i, k]) * o[i, j]
            Rm[k, j] = c
            v = [v[i] - Q[i, k] * c for i in range(m)]
        s = ZERO
        for x in v:
            s = s + re(x) * re(x) + im(x) * im(x)
        r = s_sqrt(s)
        sg = ctx.fresh_r("sign")
        ctx.define(z3.Or(tz(sg) == 1, tz(sg) == -1))
        Rm[j, j] = sg * r
        for i in range(m):
            Q[i, j] = s_div(v[i], r) * sg
    return [mk(Q, oavs[0].dtype), mk(Rm, oavs[1].dtype)]


@handler("svd")
def _svd(prim, vals, params, oavs):
    """Singular values only, smaller side at most 2: roots of the characteristic polynomial."""
    o = F(vals[0])
    if params["compute_uv"] or o.ndim != 2 or min(o.shape) > 2:
        raise Unsupported("svd")
    if o.shape[0] > o.shape[1]:
        o = o.T
    m, n = o.shape
    G = [[None] * m for _ in range(m)]
    for i in range(m):
        for j in range(m):
            c = ZERO
            for k in range(n):
                c = c + o[i, k] * conj(o[j, k])
            G[i][j] = c
    if m == 1:
        return [mk(np.array([s_sqrt(re(G[0][0]))], dtype=object), oavs[0].dtype)]
    a, d, b = re(G[0][0]), re(G[1][1]), G[0][1]
    disc = s_sqrt((a - d) * (a - d) + (re(b) * re(b) + im(b) * im(b)) * 4)
    hi = s_sqrt((a + d + disc) * Fraction(1, 2))
    lo = s_sqrt((a + d - disc) * Fraction(1, 2))
    out = np.empty(2, dtype=object)
    out[0], out[1] = hi, lo
    return [mk(out, oavs[0].dtype)]


@handler("argsort")
def _argsort(prim, vals, params, oavs):
    return None


@handler("shift_right_logical", "shift_left", "bitcast_convert_type", "shift_right_arithmetic")
def _bits(prim, vals, params, oavs):
    ctx = Ctx.current
    o = np.empty(oavs[0].size, dtype=object)
    for i in range(o.size):
        o[i] = ctx.fresh_r("bits")
    return [Sym(oavs[0].shape, oavs[0].dtype, obj=o.reshape(oavs[0].shape))]


# ---------------------------------------------------------------------------
#  running harnesses
# ---------------------------------------------------------------------------
class Session:
    """Symbolic inputs and execution of real functions on one path."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.specs = []           # (name, shape, dtype)

    def declare(self, specs):
        """specs: list of (name, shape, dtype, lo, hi); must precede execution."""
        ctx = self.ctx
        self.syms = {}
        sizes = []
        for name, shape, dtype, lo, hi in specs:
            n = int(np.prod(shape, dtype=int))
            cplx = np.issubdtype(np.dtype(dtype), np.complexfloating)
            sizes.append(n * (2 if cplx else 1))
        nv = sum(sizes)
        ctx.nv = nv
        off = 0
        for (name, shape, dtype, lo, hi), sz in zip(specs, sizes):
            dt = np.dtype(dtype)
            cplx = np.issubdtype(dt, np.complexfloating)
            isint = np.issubdtype(dt, np.integer)
            n = int(np.prod(shape, dtype=int))
            for k in range(n):
                if cplx:
                    ctx.var("%s_re_%d" % (name, k), lo, hi)
                    ctx.var("%s_im_%d" % (name, k), lo, hi)
                else:
                    ctx.var("%s_%d" % (name, k), lo, hi, is_int=isint)
            A = np.zeros((nv, n), dtype=np.complex128 if cplx else np.float64)
            for k in range(n):
                if cplx:
                    A[off + 2 * k, k] = 1
                    A[off + 2 * k + 1, k] = 1j
                else:
                    A[off + k, k] = 1
            s = Sym(shape, dt, c=np.zeros(shape, A.dtype), A=A.reshape((nv,) + tuple(shape)))
            if isint:
                s = Sym(shape, dt, obj=s.o())
            self.syms[name] = s
            self.specs.append((name, tuple(shape), dt, off))
            off += sz
        return self.syms

    def run(self, f, *args, **kw):
        """Run f on args where Sym leaves are symbolic; returns pytree with Sym/np leaves."""
        with _core.new_main(SymTrace) as main:
            trace = main.with_cur_sublevel()

            def wrap(x):
                if isinstance(x, Sym):
                    return SymTracer(trace, x, core.ShapedArray(x.shape, x.dtype))
                return x
            a2, k2 = jax.tree_util.tree_map(wrap, (args, kw), is_leaf=lambda x: isinstance(x, Sym))
            out = f(*a2, **k2)

            def unwrap(x):
                if isinstance(x, SymTracer):
                    return x.val
                if isinstance(x, (jax.Array, np.ndarray)):
                    return np.asarray(x)
                return x
            r = jax.tree_util.tree_map(unwrap, out, is_leaf=lambda x: isinstance(x, SymTracer))
            del out, a2, k2
            return r

    def decode(self, model):
        """Concrete inputs from a z3 model."""
        res = {}
        for name, shape, dt, off in self.specs:
            n = int(np.prod(shape, dtype=int))
            cplx = np.issubdtype(dt, np.complexfloating)
            vals = []
            for k in range(n):
                if cplx:
                    vals.append(complex(mval(model, self.ctx.atoms[off + 2 * k].z),
                                        mval(model, self.ctx.atoms[off + 2 * k + 1].z)))
                else:
                    vals.append(mval(model, self.ctx.atoms[off + k].z))
            if np.issubdtype(dt, np.integer):
                vals = [int(round(v)) for v in vals]
            res[name] = np.array(vals, dtype=dt).reshape(shape)
        return res


def mval(model, z):
    v = model.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return 0.0
