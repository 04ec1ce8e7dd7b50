"""Expression DAG for double-precision values read as exact reals, with
symbolic differentiation, polynomial normal form, and translation to z3."""
from fractions import Fraction
import math
import random
import z3

F0 = Fraction(0)
F1 = Fraction(1)
_tab = {}
_n = [0]
_byid = {}


class R:
    __slots__ = ('op', 'args', 'id', 'z', 'poly', 'isint')

    def __repr__(self):
        return show(self, 6)


def show(n, d=6):
    if n.op == 'c':
        return str(n.args[0]) if n.args[0].denominator < 10000 else '%.12g' % float(n.args[0])
    if n.op in ('v',):
        return n.args[0]
    if n.op in ('i2r', 'bits'):
        return '%s(..)' % n.op
    if d == 0:
        return '..'
    return '%s(%s)' % (n.op, ','.join(show(a, d - 1) if isinstance(a, R) else '?' for a in n.args))


def mk(op, args, key=None):
    k = key if key is not None else (op,) + tuple(a.id for a in args)
    r = _tab.get(k)
    if r is None:
        r = R()
        r.op = op
        r.args = args
        _n[0] += 1
        r.id = _n[0]
        r.z = None
        r.poly = None
        _tab[k] = r
        _byid[r.id] = r
    return r


def node(i):
    return _byid[i]


def const(f):
    if isinstance(f, float):
        if f != f or f in (math.inf, -math.inf):
            return mk('sp', (f,), ('sp', repr(f)))
        f = Fraction(f)
    elif isinstance(f, int):
        f = Fraction(f)
    if f.denominator.bit_length() > 4000 or f.numerator.bit_length() > 4000:
        try:
            f = Fraction(float(f))
        except OverflowError:
            return const(math.inf if f > 0 else -math.inf)
    return mk('c', (f,), ('c', f))


DEC = [False]


def fconst(f):
    """a double literal; with DEC the decimal number its shortest form denotes (at most 15 digits)"""
    if DEC[0] and f == f and f not in (math.inf, -math.inf):
        t = repr(f)
        m = t.split('e')[0].lstrip('-').replace('.', '').strip('0')
        if len(m) <= 15:
            return const(Fraction(t))
    return const(f)


ZERO = const(0)
ONE = const(1)
MONE = const(-1)


def var(name):
    return mk('v', (name,), ('v', name))


def isc(a):
    return a.op == 'c'


def fl(a):
    """float of a constant/special node"""
    return float(a.args[0])


def _spec(f, a, b):
    try:
        return const(f(fl(a), fl(b)))
    except (ZeroDivisionError, OverflowError, ValueError):
        return const(math.nan)


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == 'c' and b.args[0] == 0:
        return a
    if a.op == 'sp' or b.op == 'sp':
        if a.op in ('c', 'sp') and b.op in ('c', 'sp'):
            return _spec(lambda x, y: x + y, a, b)
        return a if a.op == 'sp' else b
    if neg(b) is a:
        return ZERO
    return mk('+', (a, b))


def mul(a, b):
    if a.op == 'c':
        x = a.args[0]
        if b.op == 'c':
            return const(x * b.args[0])
        if x == 1:
            return b
        if x == 0:
            return ZERO
        if b.op == '*' and b.args[0].op == 'c':
            return mul(const(x * b.args[0].args[0]), b.args[1])
    elif b.op == 'c':
        return mul(b, a)
    if a.op == 'sp' or b.op == 'sp':
        if a.op in ('c', 'sp') and b.op in ('c', 'sp'):
            return _spec(lambda x, y: x * y, a, b)
        return const(math.nan)
    return mk('*', (a, b))


def neg(a):
    if a.op == 'c':
        return const(-a.args[0])
    if a.op == 'sp':
        return const(-a.args[0])
    return mul(MONE, a)


def sub(a, b):
    if a is b and a.op != 'sp':
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b.op == 'c':
        if b.args[0] == 0:
            if a.op == 'c':
                return const(math.nan if a.args[0] == 0 else math.copysign(math.inf, a.args[0]))
            return const(math.nan)
        return mul(const(1 / b.args[0]), a)
    if b.op == 'sp':
        if a.op in ('c', 'sp'):
            return _spec(lambda x, y: x / y, a, b)
        return ZERO if abs(b.args[0]) == math.inf else b
    if a.op == 'c' and a.args[0] == 0:
        return ZERO
    if a.op == 'sp':
        return a
    if a is b:
        return ONE
    return mk('/', (a, b))


def _isqrt(f):
    n, d = f.numerator, f.denominator
    if n < 0:
        return None
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


UN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos,
      'exp': math.exp, 'log': math.log, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
      'log10': math.log10, 'log2': math.log2, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3.), x)}


def sqrt(a):
    if a.op == 'c':
        r = _isqrt(a.args[0])
        if r is not None:
            return const(r)
        if a.args[0] < 0:
            return const(math.nan)
        return const(math.sqrt(a.args[0]))
    if a.op == 'sp':
        return a
    return mk('sqrt', (a,))


def un(op, a):
    if op == 'sqrt':
        return sqrt(a)
    if a.op == 'c':
        try:
            return const(UN[op](float(a.args[0])))
        except ValueError:
            return const(math.nan)
        except OverflowError:
            return const(math.inf)
    if a.op == 'sp':
        return const(math.nan) if op != 'exp' else (const(math.inf) if a.args[0] > 0 else ZERO)
    if op == 'cos' and a.op == '*' and a.args[0].op == 'c' and a.args[0].args[0] < 0:
        return mk('cos', (mul(MONE, a),))
    if op in ('sin', 'tan', 'atan', 'asin') and a.op == '*' and a.args[0].op == 'c' and a.args[0].args[0] < 0:
        return neg(mk(op, (mul(MONE, a),)))
    return mk(op, (a,))


def atan2(y, x):
    if isc(y) and isc(x):
        return const(math.atan2(fl(y), fl(x)))
    return mk('atan2', (y, x))


def pow_(a, b):
    if isc(b):
        e = b.args[0]
        if e.denominator == 1 and abs(e.numerator) <= 16:
            r = ONE
            for _ in range(abs(e.numerator)):
                r = mul(r, a)
            return r if e >= 0 else div(ONE, r)
        if e == Fraction(1, 2):
            return sqrt(a)
        if isc(a):
            try:
                return const(float(a.args[0]) ** float(e))
            except Exception:
                return const(math.nan)
    return mk('pow', (a, b))


def abs_(a):
    if isc(a):
        return const(abs(a.args[0]))
    if a.op == 'sp':
        return const(abs(a.args[0]))
    if a.op == '*' and a.args[0].op == 'c':
        return mul(const(abs(a.args[0].args[0])), abs_(a.args[1]))
    if a.op in ('abs', 'sqrt'):
        return a
    return mk('abs', (a,))


def rnd(op, a):
    """floor/ceil/trunc/round"""
    if isc(a):
        f = a.args[0]
        if op == 'floor':
            return const(math.floor(f))
        if op == 'ceil':
            return const(math.ceil(f))
        if op == 'trunc':
            return const(math.trunc(f))
        if op == 'round':
            return const(math.floor(f + Fraction(1, 2)) if f >= 0 else -math.floor(-f + Fraction(1, 2)))
        if op == 'rint':
            return const(round(f))
    if a.op == 'sp' or a.op in ('i2r', 'floor', 'ceil', 'trunc', 'round'):
        return a
    if a.op == '*' and a.args[0].op == 'c' and a.args[0].args[0].denominator == 1 and \
            a.args[1].op in ('i2r', 'floor', 'ceil', 'trunc', 'round'):
        return a
    return mk(op, (a,))


def i2r(bv, signed):
    return mk('i2r', (bv, signed), ('i2r', bv.get_id(), signed))


def bits(bv):
    return mk('bits', (bv,), ('bits', bv.get_id()))


def ite(c, a, b):
    if a is b:
        return a
    return mk('ite', (c, a, b), ('ite', c.get_id(), a.id, b.id))


# ---------------------------------------------------------------- z3 ----
ufs = {}


def uf(name, n=1):
    k = (name, n)
    if k not in ufs:
        ufs[k] = z3.Function('uf_' + name, *([z3.RealSort()] * (n + 1)))
    return ufs[k]


def z(n):
    if n.z is not None:
        return n.z
    # iterative post-order
    stack = [n]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        pend = [a for a in x.args if isinstance(a, R) and a.z is None]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        op = x.op
        a = x.args
        if op == 'c':
            r = z3.RealVal(a[0])
        elif op == 'v':
            r = z3.Real(a[0])
        elif op == '+':
            r = a[0].z + a[1].z
        elif op == '*':
            r = a[0].z * a[1].z
        elif op == '/':
            r = a[0].z / a[1].z
        elif op == 'ite':
            r = z3.If(a[0], a[1].z, a[2].z)
        elif op == 'i2r':
            r = z3.ToReal(z3.BV2Int(a[0], a[1]))
        elif op == 'sqrt':
            r = z3.Real('sqrt!%d' % x.id)
        elif op == 'abs':
            r = z3.If(a[0].z >= 0, a[0].z, -a[0].z)
        elif op == 'floor':
            r = z3.ToReal(z3.ToInt(a[0].z))
        elif op == 'ceil':
            r = -z3.ToReal(z3.ToInt(-a[0].z))
        elif op == 'trunc':
            r = z3.If(a[0].z >= 0, z3.ToReal(z3.ToInt(a[0].z)), -z3.ToReal(z3.ToInt(-a[0].z)))
        elif op == 'round':
            h = z3.RealVal(Fraction(1, 2))
            r = z3.If(a[0].z >= 0, z3.ToReal(z3.ToInt(a[0].z + h)), -z3.ToReal(z3.ToInt(-a[0].z + h)))
        elif op == 'sp':
            r = z3.Real('special_%s' % a[0])
        elif op == 'bits':
            r = z3.Function('fp_of_bits', z3.BitVecSort(a[0].size()), z3.RealSort())(a[0])
        else:
            r = uf(op, len(a))(*[t.z for t in a])
        x.z = r
    return n.z


PI_UP = z3.RealVal('3.1415926536')
PI_LO = z3.RealVal('3.1415926535')


def side_constraints(n):
    """axioms attached to the creation of a node"""
    if n.op == 'sqrt':
        y = z(n)
        return [y >= 0, y * y == z(n.args[0])]
    if n.op in ('sin', 'cos'):
        a = n.args[0]
        s, c = z(mk('sin', (a,))), z(mk('cos', (a,)))
        return [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
    if n.op == '/':
        return [z(n.args[1]) != 0]
    if n.op == 'atan2':
        y, x, v = z(n.args[0]), z(n.args[1]), z(n)
        return [z3.Implies(y > 0, z3.And(v > 0, v < PI_UP)), z3.Implies(y < 0, z3.And(v < 0, v > -PI_UP)),
                z3.Implies(z3.And(y == 0, x > 0), v == 0), z3.Implies(z3.And(x > 0, y >= 0), v <= PI_UP / 2),
                z3.Implies(z3.And(y == 0, x < 0), z3.And(v > PI_LO, v < PI_UP))]
    if n.op == 'acos':
        return [z(n) >= 0, z(n) <= PI_UP, z(n.args[0]) <= 1, z(n.args[0]) >= -1,
                z3.Implies(z(n.args[0]) < 1, z(n) > 0)]
    if n.op == 'asin':
        v, y = z(n), z(n.args[0])
        return [v <= PI_UP / 2, v >= -PI_UP / 2, z3.Implies(y > 0, v > 0), z3.Implies(y < 0, v < 0),
                z3.Implies(y == 0, v == 0)]
    if n.op == 'exp':
        return [z(n) > 0]
    if n.op == 'tan':
        a = n.args[0]
        s, c = z(mk('sin', (a,))), z(mk('cos', (a,)))
        return [s * s + c * c == 1, z(n) * c == s, c != 0]
    return []


# ------------------------------------------------------- traversal ----
def post(roots):
    seen = set()
    out = []
    for r in roots:
        stack = [(r, False)]
        while stack:
            x, done = stack.pop()
            if done:
                out.append(x)
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            stack.append((x, True))
            for a in x.args:
                if isinstance(a, R) and a.id not in seen:
                    stack.append((a, False))
    return out


def subst(root, mp):
    """mp: id -> R"""
    memo = dict(mp)
    for x in post([root]):
        if x.id in memo:
            continue
        if not any(isinstance(a, R) for a in x.args):
            memo[x.id] = x
            continue
        a = [memo[t.id] if isinstance(t, R) else t for t in x.args]
        memo[x.id] = build(x.op, a)
    return memo[root.id]


def build(op, a):
    if op == '+':
        return add(*a)
    if op == '*':
        return mul(*a)
    if op == '/':
        return div(*a)
    if op == 'sqrt':
        return sqrt(a[0])
    if op == 'ite':
        return ite(*a)
    if op == 'abs':
        return abs_(a[0])
    if op in ('floor', 'ceil', 'trunc', 'round', 'rint'):
        return rnd(op, a[0])
    if op == 'atan2':
        return atan2(*a)
    if op == 'pow':
        return pow_(*a)
    return un(op, a[0])


def diff(roots, v):
    """derivatives of the roots with respect to variable node v"""
    d = {}
    two = const(2)
    for x in post(roots):
        op = x.op
        a = x.args
        if x is v:
            r = ONE
        elif op in ('c', 'v', 'i2r', 'bits', 'sp', 'floor', 'ceil', 'trunc', 'round', 'rint'):
            r = ZERO
        else:
            da = [d[t.id] if isinstance(t, R) else None for t in a]
            if all(t is None or t is ZERO for t in da):
                r = ZERO
            elif op == '+':
                r = add(da[0], da[1])
            elif op == '*':
                r = add(mul(da[0], a[1]), mul(a[0], da[1]))
            elif op == '/':
                r = div(sub(da[0], mul(x, da[1])), a[1])
            elif op == 'sqrt':
                r = div(da[0], mul(two, x))
            elif op == 'sin':
                r = mul(un('cos', a[0]), da[0])
            elif op == 'cos':
                r = neg(mul(un('sin', a[0]), da[0]))
            elif op == 'tan':
                r = mul(add(ONE, mul(x, x)), da[0])
            elif op == 'exp':
                r = mul(x, da[0])
            elif op == 'log':
                r = div(da[0], a[0])
            elif op == 'atan':
                r = div(da[0], add(ONE, mul(a[0], a[0])))
            elif op == 'asin':
                r = div(da[0], sqrt(sub(ONE, mul(a[0], a[0]))))
            elif op == 'acos':
                r = neg(div(da[0], sqrt(sub(ONE, mul(a[0], a[0])))))
            elif op == 'atan2':
                y, xx = a
                r = div(sub(mul(xx, da[0]), mul(y, da[1])), add(mul(xx, xx), mul(y, y)))
            elif op == 'ite':
                r = ite(a[0], da[1], da[2])
            elif op == 'abs':
                r = ite(z(a[0]) >= 0, da[0], neg(da[0]))
            elif op == 'pow' and a[1].op == 'c':
                r = mul(mul(a[1], pow_(a[0], const(a[1].args[0] - 1))), da[0])
            else:
                raise NotImplementedError('derivative of ' + op)
        d[x.id] = r
    return [d[r.id] for r in roots]


def eval_mp(roots, env, digits=40):
    """the same in 40-digit arithmetic"""
    import mpmath
    with mpmath.workdps(digits):
        r = eval_f(roots, {k: mpmath.mpf(v) for k, v in env.items()}, mpmath)
        return [float(x) for x in r]


def eval_f(roots, env, mp=None):
    """numeric evaluation; env: var name -> float; unknown variables -> KeyError"""
    m = {}
    M, F = mp or math, mp.mpf if mp else float
    un = {k: getattr(mp, k) for k in UN if hasattr(mp, k)} if mp else UN
    if mp:
        un['log2'] = lambda x: mp.log(x, 2)
        un['cbrt'] = lambda x: mp.sign(x) * mp.cbrt(abs(x))
    for x in post(roots):
        op = x.op
        a = x.args
        try:
            if op in ('c', 'sp'):
                r = F(a[0].numerator) / a[0].denominator if mp and op == 'c' else F(float(a[0]))
            elif op == 'v':
                r = env[a[0]]
            elif op == '+':
                r = m[a[0].id] + m[a[1].id]
            elif op == '*':
                r = m[a[0].id] * m[a[1].id]
            elif op == '/':
                r = m[a[0].id] / m[a[1].id]
            elif op == 'sqrt':
                r = M.sqrt(m[a[0].id])
            elif op == 'abs':
                r = abs(m[a[0].id])
            elif op == 'floor':
                r = F(M.floor(m[a[0].id]))
            elif op == 'ceil':
                r = F(M.ceil(m[a[0].id]))
            elif op == 'trunc':
                r = m[a[0].id]
                r = F(M.floor(r) if r >= 0 else M.ceil(r))
            elif op == 'atan2':
                r = M.atan2(m[a[0].id], m[a[1].id])
            elif op == 'pow':
                r = m[a[0].id] ** m[a[1].id]
            elif op in UN:
                r = un[op](m[a[0].id])
            elif op == 'ite':
                raise KeyError('ite')
            else:
                raise KeyError(op)
        except (ZeroDivisionError, ValueError, OverflowError):
            r = math.nan
        if isinstance(r, complex) or mp and isinstance(r, mp.mpc):
            r = math.nan
        m[x.id] = r
    return [m[r.id] for r in roots]


# ------------------------------------------- polynomial normal form ----
# poly: dict {mono: Fraction}, mono: tuple of (atom_id, exp) sorted
class TooBig(Exception):
    pass


LIMIT = [400000]


def p_add(p, q, s=1):
    if len(p) < len(q) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        t = r.get(m, 0) + (c if s == 1 else s * c)
        if t == 0:
            r.pop(m, None)
        else:
            r[m] = t
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_mul(p, q):
    if len(p) * len(q) > LIMIT[0] * 8:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            t = r.get(m, 0) + c1 * c2
            r[m] = t
    r = {m: c for m, c in r.items() if c != 0}
    if len(r) > LIMIT[0]:
        raise TooBig()
    return r


P1 = {(): F1}
DIVLIMIT = [3000]


def m_div(a, b):
    """monomial a / b or None"""
    d = dict(a)
    for x, e in b:
        k = d.get(x, 0) - e
        if k < 0:
            return None
        if k:
            d[x] = k
        else:
            del d[x]
    return tuple(sorted(d.items()))


def p_divexact(p, q):
    """p / q when exact, else None (lexicographic leading terms)"""
    # a term order compatible with multiplication: lex on exponent vectors
    ids = sorted({a for m in p for a, _ in m} | {a for m in q for a, _ in m})
    pos = {a: i for i, a in enumerate(ids)}
    k = len(ids)

    def vec(m):
        v = [0] * k
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.items()}
    Q = {vec(m): c for m, c in q.items()}
    lq = max(Q)
    cq = Q[lq]
    # quick test on the smallest terms as well
    sq = min(Q)
    if any(a < b for a, b in zip(min(P), sq)):
        return None
    out = {}
    steps = 0
    while P:
        lp = max(P)
        t = tuple(a - b for a, b in zip(lp, lq))
        if min(t, default=0) < 0:
            return None
        c = P[lp] / cq
        out[t] = c
        steps += 1
        if steps > 4000:
            return None
        for m, v in Q.items():
            mm = tuple(a + b for a, b in zip(m, t))
            r = P.get(mm, 0) - c * v
            if r == 0:
                P.pop(mm, None)
            else:
                P[mm] = r
    return {tuple((ids[i], e) for i, e in enumerate(t) if e): c for t, c in out.items()}


def p_sqrt(p):
    """polynomial square root when exact, else None"""
    ids = sorted({a for m in p for a, _ in m})
    pos = {a: i for i, a in enumerate(ids)}
    k = len(ids)
    P = {}
    for m, c in p.items():
        v = [0] * k
        for a, e in m:
            v[pos[a]] = e
        P[tuple(v)] = c
    lp = max(P)
    c0 = _isqrt(P[lp])
    if c0 is None or any(e % 2 for e in lp):
        return None
    l0 = tuple(e // 2 for e in lp)
    S = {l0: c0}
    R = dict(P)
    del R[lp]
    steps = 0
    while R:
        lr = max(R)
        t = tuple(a - b for a, b in zip(lr, l0))
        if min(t, default=0) < 0 or t >= min(S) or steps > 200:
            return None
        steps += 1
        c = R[lr] / (2 * c0)
        # R -= 2*c*t*S + c^2 t^2
        for m, v in S.items():
            mm = tuple(a + b for a, b in zip(m, t))
            r = R.get(mm, 0) - 2 * c * v
            if r == 0:
                R.pop(mm, None)
            else:
                R[mm] = r
        mm = tuple(2 * a for a in t)
        r = R.get(mm, 0) - c * c
        if r == 0:
            R.pop(mm, None)
        else:
            R[mm] = r
        S[t] = c
    return {tuple((ids[i], e) for i, e in enumerate(t) if e): c for t, c in S.items()}


class Norm:
    """Rational normal form modulo rewrite rules  atom^2 -> poly  (unit
    quaternions, sin^2 -> 1-cos^2, sqrt^2 -> radicand)."""

    def __init__(self, rules=None, ct=None):
        self.rules = {}   # atom id -> (num poly, den)  meaning atom^2 = num/den
        self.memo = {}
        self.factors = []  # list of polys
        self.fkey = {}
        self.atoms = {}
        self.ct = ct
        for aid, r in (rules or {}).items():
            self.rules[aid] = self.nf(r)

    def factor(self, p):
        """register a denominator polynomial -> (coef, mono-factors dict)"""
        # pull out content: make monic wrt. smallest monomial
        if len(p) == 1:
            (m, c), = p.items()
            return c, {('m', a): e for a, e in m}
        k0 = min(p)
        c = p[k0]
        q = {m: v / c for m, v in p.items()}
        # common monomial
        common = None
        for m in q:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common:
                break
        out = {}
        if common:
            q2 = {}
            for m, v in q.items():
                q2[tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0) > 0)] = v
            q = q2
            out = {('m', a): e for a, e in common.items()}
        key = tuple(sorted(q.items()))
        i = self.fkey.get(key)
        if i is None:
            i = len(self.factors)
            self.factors.append(q)
            self.fkey[key] = i
        out[('f', i)] = 1
        return c, out

    def fpoly(self, f):
        return self.factors[f[1]] if f[0] == 'f' else {((f[1], 1),): F1}

    def expand(self, p, fs):
        for f, e in fs.items():
            q = self.fpoly(f)
            for _ in range(e):
                p = self.red(p_mul(p, q))[0] if False else p_mul(p, q)
        return p

    def red(self, p, den=None):
        """reduce polynomial by rules; returns (num, den)"""
        den = dict(den or {})
        rules = self.rules
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in rules:
                        # prefer the most recently created atom (elimination order)
                        if hit is None or a > hit:
                            hit = a
            if hit is None:
                return p, den
            rn, rd = rules[hit]
            maxk = 0
            for m in p:
                for a, e in m:
                    if a == hit:
                        maxk = max(maxk, e // 2)
            powers = [P1]
            for _ in range(maxk):
                powers.append(p_mul(powers[-1], rn))
            dp = [P1]
            if rd:
                dpoly = self.expand(P1, rd)
                for _ in range(maxk):
                    dp.append(p_mul(dp[-1], dpoly))
            groups = {}
            for m, c in p.items():
                k = 0
                mm = m
                for i, (a, e) in enumerate(m):
                    if a == hit and e >= 2:
                        k = e // 2
                        mm = m[:i] + (((a, 1),) if e & 1 else ()) + m[i + 1:]
                        break
                g = groups.setdefault(k, {})
                t = g.get(mm, 0) + c
                g[mm] = t
            out = {}
            for k, g in groups.items():
                g = {m: c for m, c in g.items() if c != 0}
                t = p_mul(g, powers[k]) if k else g
                if rd and k < maxk:
                    t = p_mul(t, dp[maxk - k])
                out = p_add(out, t)
            p = out
            if rd:
                for f, e in rd.items():
                    den[f] = den.get(f, 0) + e * maxk

    def add(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            return self.cancel(p_add(n1, n2), d1)
        den = dict(d1)
        for f, e in d2.items():
            den[f] = max(den.get(f, 0), e)
        m1 = {f: e - d1.get(f, 0) for f, e in den.items() if e > d1.get(f, 0)}
        m2 = {f: e - d2.get(f, 0) for f, e in den.items() if e > d2.get(f, 0)}
        return self.cancel(p_add(self.expand(n1, m1), self.expand(n2, m2)), den)

    def mulq(self, x, y):
        (n1, d1), (n2, d2) = x, y
        den = dict(d1)
        for f, e in d2.items():
            den[f] = den.get(f, 0) + e
        n, den = self.red(p_mul(n1, n2), den)
        return self.cancel(n, den)

    def cancel(self, n, den):
        if not n:
            return {}, {}
        if not den:
            return n, den
        # cancel monomial factors
        den2 = {}
        for f, e in den.items():
            if f[0] == 'm':
                a = f[1]
                mn = min((dict(m).get(a, 0) for m in n), default=0)
                k = min(mn, e)
                if k:
                    n = {tuple((b, ee - (k if b == a else 0)) for b, ee in m if ee - (k if b == a else 0) > 0): c
                         for m, c in n.items()}
                    e -= k
                if e:
                    # 1/sqrt(x)^2 -> 1/x
                    den2[f] = e
            else:
                q = self.factors[f[1]]
                while e and len(n) >= len(q) and len(n) < DIVLIMIT[0]:
                    d = p_divexact(n, q)
                    if d is None:
                        break
                    n = d
                    e -= 1
                if e:
                    den2[f] = e
        return n, den2

    def inv(self, x):
        n, d = x
        if not n:
            raise ZeroDivisionError()
        c, fs = self.factor(n)
        num = self.expand({(): 1 / c}, d)
        # 1/y with y^2 = r  ->  y/r, keeps denominators free of radicals
        den = {}
        extra = ({(): F1}, {})
        for f, e in fs.items():
            if f[0] == 'm' and f[1] in self.rules:
                rn, rd = self.rules[f[1]]
                k, odd = divmod(e, 2)
                ri = self.inv((rn, rd))
                for _ in range(k):
                    extra = self.mulq(extra, ri)
                if odd:
                    extra = self.mulq(extra, ({((f[1], 1),): F1}, {}))
                    extra = self.mulq(extra, ri)
            else:
                den[f] = e
        n2, d2 = self.red(num, den)
        r = self.cancel(n2, d2)
        if extra[0] != P1 or extra[1]:
            r = self.mulq(r, extra)
        return r

    def near(self, key):
        """an existing atom whose arguments agree up to the relative coefficient tolerance"""
        ct = Fraction(self.ct)
        for k2, aid in self.atoms.items():
            if k2[0] != key[0] or len(k2) != len(key):
                continue
            ok = True
            for (n1, d1), (n2, d2) in zip(key[1:], k2[1:]):
                if d1 != d2:
                    ok = False
                    break
                a, b = dict(n1), dict(n2)
                top = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [0])
                low = top * Fraction(1, 10 ** 16)
                for m in set(a) | set(b):
                    x, y = a.get(m, 0), b.get(m, 0)
                    if abs(x - y) > max(ct * abs(x), low):
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return aid
        return None

    def nf(self, root):
        memo = self.memo
        for x in post([root]):
            if x.id in memo:
                continue
            op = x.op
            a = x.args
            if op == 'c':
                r = ({(): a[0]} if a[0] != 0 else {}, {})
            elif op == '+':
                r = self.add(memo[a[0].id], memo[a[1].id])
            elif op == '*':
                r = self.mulq(memo[a[0].id], memo[a[1].id])
            elif op == '/':
                r = self.mulq(memo[a[0].id], self.inv(memo[a[1].id]))
            else:
                # an atom; canonicalise by normal form of arguments
                key = None
                if op not in ('v', 'i2r', 'bits', 'sp', 'ite'):
                    key = (op,) + tuple((tuple(sorted(memo[t.id][0].items())), tuple(sorted(memo[t.id][1].items())))
                                        for t in a)
                    sgn = F1
                    if key in self.atoms:
                        aid = self.atoms[key]
                    else:
                        aid = self.near(key) if self.ct else None
                        if aid is None:
                            aid = x.id
                        self.atoms[key] = aid
                    if op == 'sqrt' and aid not in self.rules:
                        self.rules[aid] = memo[a[0].id]
                    if op == 'sin' and aid not in self.rules:
                        ck = ('cos',) + key[1:]
                        if ck not in self.atoms:
                            cid = self.near(ck) if self.ct else None
                            self.atoms[ck] = mk('cos', a).id if cid is None else cid
                        cid = self.atoms[ck]
                        self.rules[aid] = ({(): F1, ((cid, 2),): -F1}, {})
                else:
                    aid = x.id
                r = ({((aid, 1),): F1}, {})
            memo[x.id] = r
        return memo[root.id]
