"""Models of functions outside the encoded code: harness primitives (sym_*),
libc/libm, C++ runtime, logging.  Everything here is part of the trusted base."""
import math
import time
from fractions import Fraction
import sys
import z3
from . import numeric
from . import reals as Rl
from .reals import R
from . import execute as X
from .execute import (Ptr, FnPtr, PathEnd, Unsupported, BV, B, norm, MASK, sgn, UNDEF, tor, PUSHED, goto)

EXACT = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            if n.endswith('*'):
                PREFIX.append((n[:-1], f))
            else:
                EXACT[n] = f
        return f
    return d


def register(eng):
    cache = {}
    user = eng.opts.get('models', {})

    def find(name):
        r = cache.get(name, 0)
        if r != 0:
            return r
        m = user.get(name) or EXACT.get(name)
        if m is None:
            for p, f in PREFIX:
                if name.startswith(p):
                    m = f
                    break
        cache[name] = m
        return m
    eng.find_model = find


def cstr(e, st, p):
    out = []
    p = e.resolve(st, p)
    i = 0
    while True:
        b = e.read(st, Ptr(p.o, p.off + i), 1)
        if type(b) is not int:
            return '<sym>'
        if b == 0:
            break
        out.append(b)
        i += 1
    return bytes(out).decode('latin1')


def iname(e, st, p):
    n = cstr(e, st, p)
    k = st.calls.get('in:' + n, 0)
    st.calls['in:' + n] = k + 1
    return '%s#%d' % (n, k)


# ------------------------------------------------------------ harness
def sym_int(w):
    def f(e, st, fr, i, a):
        n = iname(e, st, a[0])
        v = z3.BitVec(n, w)
        st.inputs.append((n, 'u%d' % w, v))
        return v
    return f


for _w in (8, 16, 32, 64):
    EXACT['sym_u%d' % _w] = sym_int(_w)
    EXACT['sym_i%d' % _w] = sym_int(_w)


@model('sym_bool')
def m_bool(e, st, fr, i, a):
    n = iname(e, st, a[0])
    v = z3.Bool(n)
    st.inputs.append((n, 'u8', v))
    return v


@model('sym_real')
def m_real(e, st, fr, i, a):
    n = iname(e, st, a[0])
    v = Rl.var(n)
    st.inputs.append((n, 'f64', v))
    return v


@model('sym_dbits')
def m_dbits(e, st, fr, i, a):
    """an arbitrary double as an opaque 64-bit pattern"""
    n = iname(e, st, a[0])
    b = z3.BitVec(n, 64)
    st.inputs.append((n, 'u64', b))
    return Rl.bits(b)


@model('sym_bytes')
def m_bytes(e, st, fr, i, a):
    n = iname(e, st, a[0])
    for k in range(a[2]):
        v = z3.BitVec('%s[%d]' % (n, k), 8)
        st.inputs.append(('%s[%d]' % (n, k), 'u8', v))
        e.write(st, e.padd(a[1], k), 1, v)
    return None


@model('sym_unit_quat')
def m_uq(e, st, fr, i, a):
    """four reals with unit norm, written as doubles"""
    n = iname(e, st, a[0])
    vs = [Rl.var('%s.%s' % (n, c)) for c in 'wxyz']
    for c, v in zip('wxyz', vs):
        st.inputs.append(('%s.%s' % (n, c), 'f64', v))
    for k, v in enumerate(vs):
        e.write(st, e.padd(a[1], 8 * k), 8, v)
    zs = [Rl.z(v) for v in vs]
    st.pc = st.pc + [zs[0] * zs[0] + zs[1] * zs[1] + zs[2] * zs[2] + zs[3] * zs[3] == 1]
    w, x, y, zz = vs
    rhs = Rl.sub(Rl.sub(Rl.sub(Rl.ONE, Rl.mul(x, x)), Rl.mul(y, y)), Rl.mul(zz, zz))
    st.rules[w.id] = rhs
    return None


@model('sym_assume')
def m_assume(e, st, fr, i, a):
    c = a[0]
    if type(c) is int:
        if not c & 1:
            raise PathEnd('assume')
        return None
    c = z3.simplify(B(c))
    if not e.feasible(st, c):
        raise PathEnd('assume')
    e.add_pc(st, c)
    return None


@model('sym_assert')
def m_assert(e, st, fr, i, a):
    e.do_assert(st, a[0] if not isinstance(a[0], int) else a[0] & 1, cstr(e, st, a[1]))
    return None


@model('sym_reach')
def m_reach(e, st, fr, i, a):
    n = cstr(e, st, a[0])
    cnt = e.stats.reached.get(n, 0)
    if cnt < e.opts.get('witnesses', 3):
        env = numeric.search(e, st) if e.opts.get('fold') else None
        if env is not None:
            # the native run confirms it
            e.stats.reached[n] = cnt + 1
            val = [(nm, kd, v if type(v) is int else env[v.args[0]] if v.op == 'v' else float(v.args[0])) for nm, kd, v in st.inputs]
            obs = []
            for nm, kd, v in st.trace:
                if kd == 'f64' and isinstance(v, R):
                    try:
                        obs.append((nm, kd, Rl.eval_f([v], env)[0]))
                    except KeyError:
                        pass
            e.witnesses.append({'tag': n, 'inputs': val, 'obs': obs})
            return None
        r, m = e.query(st.pc, [], e.opts.get('reach_timeout_ms', 10000))
        if r != 'sat':
            for k in range(3):
                env = probe_env(e, st, k)
                pins = [Rl.z(Rl.var(x)) == z3.RealVal(v) for x, v in env.items()]
                r, m = e.query_fresh(st.pc, pins, e.opts.get('reach_timeout_ms', 10000))
                if r == 'sat':
                    break
        if r == 'sat':
            e.stats.reached[n] = cnt + 1
            obs = []
            for nm, kd, v in st.trace:
                try:
                    obs.append((nm, kd, e.mval(m, v, kd)))
                except Exception:
                    pass
            e.witnesses.append({'tag': n, 'inputs': e.extract(st, m), 'obs': obs})
        else:
            e.stats.reached.setdefault(n, 0)
    else:
        e.stats.reached[n] += 1
    return None


@model('sym_obs_i')
def m_obs_i(e, st, fr, i, a):
    st.trace.append((cstr(e, st, a[0]), 'u64', a[1]))
    return None


@model('sym_obs_d')
def m_obs_d(e, st, fr, i, a):
    st.trace.append((cstr(e, st, a[0]), 'f64', tor(a[1])))
    return None


@model('sym_choice')
def m_choice(e, st, fr, i, a):
    """concrete enumeration lo..hi (inclusive), one path each"""
    n = iname(e, st, a[0])
    lo, hi = sgn(a[1], 32), sgn(a[2], 32)
    v = z3.BitVec(n, 32)
    k = st.data.pop('choice', None)
    if k is None:
        # queue the others
        for x in range(hi, lo, -1):
            o = e.clone(st)
            o.data['choice'] = x
            o.frames[-1].ip -= 1
            o.calls['in:' + n.rsplit('#', 1)[0]] -= 1
            e.worklist.append(o)
        k = lo
    st.inputs.append((n, 'u32', k & MASK[32]))
    return k & MASK[32]


@model('sym_nothrow')
def m_nothrow(e, st, fr, i, a):
    st.data = dict(st.data)
    if a[0] & 1:
        st.data['nothrow'] = 1
    else:
        st.data.pop('nothrow', None)
    return None


@model('sym_end')
def m_end(e, st, fr, i, a):
    raise PathEnd('done')


@model('sym_is_symbolic')
def m_issym(e, st, fr, i, a):
    return 1


@model('sym_concretize')
def m_conc(e, st, fr, i, a):
    """fork over the feasible values of an int"""
    v = a[0]
    if type(v) is int:
        return v
    for _ in range(4096):
        r, m = e.query(st.pc, [], e.assert_to)
        if r != 'sat':
            raise Unsupported('concretize: %s' % r)
        x = m.eval(BV(v, 32), model_completion=True)
        if e.choose(st, BV(v, 32) == x):
            return x.as_long()
    raise Unsupported('concretize: too many values')


def real_eq(e, st, a, b, tol, msg):
    """a == b for all values on this path"""
    e.stats.asserts += 1
    a, b = tor(a), tor(b)
    if a is b:
        e.stats.proved_structural += 1
        return
    if a.op in ('c', 'sp') and b.op in ('c', 'sp'):
        x, y = float(a.args[0]), float(b.args[0])
        if x == y or (x != x and y != y) or abs(x - y) <= tol * max(1.0, abs(x), abs(y)):
            e.stats.proved_structural += 1
            return
        e.report(st, 'assert', msg)
        raise PathEnd('assert', msg)
    if a.op == 'bits' or b.op == 'bits':
        # raw patterns
        xa, xb = X.rbits(a, 64), X.rbits(b, 64)
        r, m = e.decide(st.pc, [BV(xa, 64) != BV(xb, 64)])
        if r == 'unsat':
            e.stats.proved_solver += 1
        elif r == 'sat':
            e.report(st, 'assert', msg, model=m)
        else:
            e.inconclusive.append(msg)
        return
    d = Rl.sub(a, b)
    # linear combination of integers -> bit-vector query
    lin = linear_ints(d)
    if lin is not None:
        r, m = bv_linear(e, st, lin, tol)
        if r == 'unsat':
            if m == 'nf':
                e.stats.proved_nf += 1
            else:
                e.stats.proved_solver += 1
            return
        if r == 'sat':
            e.report(st, 'assert', msg, model=m)
            return
        e.stats.unknown += 1
        e.inconclusive.append(msg)
        return
    late = e.opts.get('nf_first', False)
    if not late and e.opts.get('probe_first', True) and differs(e, st, a, b, tol, msg):
        return
    # polynomial normal form modulo the path's equalities
    try:
        num, den = path_norm(e, st).nf(d)
        if not num:
            e.stats.proved_nf += 1
            # final verdict by the solver on the normalised difference
            r, m = e.query([], [z3.RealVal(0) != 0], 1000)
            return
        ct = e.opts.get('coef_tol')
        if ct and coef_equal(path_norm(e, st), a, b, num, den, ct):
            e.stats.proved_nf += 1
            note_once(e, 'some equalities hold up to a relative rounding of %g in constant coefficients' % ct)
            return
        if not den and list(num) == [()] and abs(num[()]) <= Fraction(str(tol)):
            e.stats.proved_nf += 1
            note_once(e, 'some equalities hold up to a constant below the stated tolerance')
            return
        if e.opts.get('show_nf'):
            print('NF', msg, len(num), 'terms, den', {str(k): v for k, v in den.items()})
            for k in sorted({k for m in num for k, v in m}):
                print('  atom', k, Rl.show(Rl.node(k), 12), path_norm(e, st).rules.get(k) and 'ruled')
            for m, c in sorted(num.items(), key=lambda t: -abs(t[1]))[:2]:
                print('   %.6g' % float(c), ' * '.join('%s^%d' % (Rl.show(Rl.node(k), 7), v) for k, v in m)[:600])
            na, nb = (path_norm(e, st).nf(z)[0] for z in (a, b))
            for m, c in sorted(num.items(), key=lambda t: -abs(t[1]))[:2]:
                print('   a %.17g b %.17g' % (float(na.get(m, 0)), float(nb.get(m, 0))), len(na), len(nb))
            sys.stdout.flush()
    except (Rl.TooBig, ZeroDivisionError):
        num = None
    if late and differs(e, st, a, b, tol, msg):
        return
    # direct attempt
    weak = None
    diffz = Rl.z(d)
    r, m = e.query_fresh(st.pc, [diffz != 0], e.opts.get('direct_ms', 3000))
    if r == 'unsat':
        e.stats.proved_solver += 1
        return
    tolv = z3.RealVal(Fraction(str(tol)))
    big = z3.Or(diffz > tolv, diffz < -tolv)
    for k in range(e.opts.get('probe_tries', 6)):
        env = probe_env(e, st, k)
        if env is None:
            break
        pins = [Rl.z(Rl.var(n)) == z3.RealVal(v) for n, v in env.items()]
        r2, m2 = e.query_fresh(st.pc, pins + [big], e.assert_to)
        if r2 == 'sat':
            if shows(e, st, m2, d, tol):
                e.report(st, 'assert', msg, model=m2)
                return
            weak = m2
    if r != 'sat':
        r, m = e.query_fresh(st.pc, [big], e.assert_to)
    if r == 'unsat':
        e.stats.proved_solver += 1
        e.notes.append('equality holds within tolerance only: ' + msg)
        return
    if r == 'sat':
        # confirm with the tolerance
        r3, m3 = e.query_fresh(st.pc, [big], e.assert_to)
        m3 = m3 if r3 == 'sat' else m
        ok = shows(e, st, m3, d, tol)
        e.report(st, 'assert', msg, model=m3 if ok or weak is None else weak, weak=not ok)
        return
    e.stats.unknown += 1
    e.inconclusive.append(msg)


def differs(e, st, a, b, tol, msg):
    """an input on this path where the two sides evaluate to clearly different numbers: a candidate that the replay
    against the real code then confirms or not"""
    from . import numeric
    t0, lim_s = time.time(), e.opts.get('probe_first_s', 0.5)
    for seed in range(7, 7 + e.opts.get('probe_first_seeds', 48)):
        env = numeric.search(e, st, tries=e.opts.get('probe_first_tries', 60), seed=seed, wild=seed > 7)
        if time.time() - t0 > lim_s and seed > 7:
            break
        if env is None:
            if seed == 7:
                break
            continue
        try:
            x, y = Rl.eval_f([a, b], env)
        except (KeyError, ValueError, OverflowError, ZeroDivisionError, TypeError):
            break
        lim = max(10 * tol, 1e-6) * max(1.0, abs(x), abs(y))
        if abs(x - y) > lim:
            # not an effect of rounding, here or in the real code
            p, q = Rl.eval_mp([a, b], env)
            if not (abs(p - q) > lim and abs(p - x) + abs(q - y) < abs(p - q) / 8):
                continue
            e.report_env(st, 'assert', msg, env)
            return True
        if seed == 7:
            st.env = env
    return False


def shows(e, st, model, d, tol):
    """False when the difference evaluates to nothing at the model's inputs, with the true sin, atan2, ...: the model
    then owes its existence to a function the solver may choose"""
    env = {}
    try:
        for name, kind, val in st.inputs:
            if kind == 'f64' and isinstance(val, R) and val.op == 'v':
                env[val.args[0]] = float(e.mval(model, val, kind))
        v = Rl.eval_f([d], env)[0]
    except (KeyError, ValueError, OverflowError, ZeroDivisionError, TypeError):
        return True
    return not abs(v) <= tol


def note_once(e, t):
    if t not in e.notes:
        e.notes.append(t)


def coef_equal(nm, a, b, num, den, ct):
    """a - b has normal form num/den with every coefficient of num negligible against the coefficient of the same
    monomial in a and b brought to the same denominator"""
    ref = {}
    top = 0
    forms = [nm.nf(a), nm.nf(b)]
    com = dict(den)
    for _, d in forms:
        for f, k in d.items():
            com[f] = max(com.get(f, 0), k)

    def bring(n, d):
        return nm.red(nm.expand(n, {f: k - d.get(f, 0) for f, k in com.items() if k > d.get(f, 0)}))
    try:
        num, nd = bring(num, den)
        for n, d in forms:
            p, pd = bring(n, d)
            if pd != nd:
                return False
            for m, c in p.items():
                if abs(c) > ref.get(m, 0):
                    ref[m] = abs(c)
                if abs(c) > top:
                    top = abs(c)
    except Rl.TooBig:
        return False
    low = top * Fraction(nm.low)
    ct = Fraction(ct)
    return all(abs(c) <= max(ct * ref.get(m, 0), low) for m, c in num.items())


PYTH = [(1, 2, 2, 4, 5), (2, 4, 5, 2, 7), (1, 1, 3, 5, 6), (4, 2, 2, 1, 5), (5, 3, 1, 1, 6), (2, 5, 4, 2, 7),
        (4, 4, 7, 0, 9), (6, 2, 3, 0, 7)]


def probe_env(e, st, k):
    import random
    rng = random.Random(1000 + k)
    env = {}
    names = [v for n, kd, v in st.inputs if kd == 'f64' and isinstance(v, R) and v.op == 'v']
    quats = {}
    for v in names:
        n = v.args[0]
        if n[-2:] in ('.w', '.x', '.y', '.z') and Rl.var(n[:-2] + '.w').id in st.rules:
            quats.setdefault(n[:-2], None)
    for q in quats:
        p = PYTH[(rng.randrange(len(PYTH)) + k) % len(PYTH)]
        s = rng.choice([1, -1])
        idx = [0, 1, 2, 3]
        rng.shuffle(idx)
        for c, j in zip('wxyz', idx):
            env[q + '.' + c] = Fraction(p[j] * s, p[4])
    cen = e.opts.get('probe_values', {})
    for v in names:
        n = v.args[0]
        if n in env:
            continue
        base = n.split('#')[0]
        if base in cen:
            lo, hi = cen[base]
            env[n] = Fraction(int(lo * 1000) + rng.randrange(int((hi - lo) * 1000) + 1), 1000)
        else:
            env[n] = Fraction(rng.randrange(-3000, 3000), 1000)
    return env


def linear_terms(x):
    """constant part and other addends {id: (node, coefficient)} of a sum"""
    c, terms = Fraction(0), {}
    stack = [(x, Fraction(1))]
    while stack:
        x, k = stack.pop()
        if x.op == 'c':
            c += k * x.args[0]
        elif x.op == '+':
            stack += [(x.args[1], k), (x.args[0], k)]
        elif x.op == '*' and x.args[0].op == 'c':
            stack.append((x.args[1], k * x.args[0].args[0]))
        else:
            o = terms.get(x.id)
            terms[x.id] = (x, k + (o[1] if o else 0))
    return c, terms


def linear_ints(d):
    """d as (const, [(coef, bv, signed)]) when it is an affine combination of
    integer-valued bit-vectors, else None"""
    terms = {}
    cst = [Fraction(0)]
    stack = [(d, Fraction(1))]
    while stack:
        x, k = stack.pop()
        if x.op == 'c':
            cst[0] += k * x.args[0]
        elif x.op == '+':
            stack.append((x.args[0], k))
            stack.append((x.args[1], k))
        elif x.op == '*' and x.args[0].op == 'c':
            stack.append((x.args[1], k * x.args[0].args[0]))
        elif x.op == 'i2r':
            o = terms.get(x.id)
            terms[x.id] = (k + (o[0] if o else 0), x.args[0], x.args[1])
        else:
            return None
    if not terms:
        return None
    return cst[0], [t for t in terms.values() if t[0] != 0]


def int_cmp(e, p, a, b):
    """comparison of integer combinations as a bit-vector comparison wide
    enough not to wrap"""
    if a.op in ('sp', 'bits') or b.op in ('sp', 'bits'):
        return None
    lin = linear_ints(Rl.sub(a, b))
    if lin is None:
        return None
    c, ts = lin
    den = c.denominator
    for k, _, _ in ts:
        den = den * k.denominator // math.gcd(den, k.denominator)
    C = int(c * den)
    W = C.bit_length()
    for k, bv, _ in ts:
        W = max(W, int(k * den).bit_length() + bv.size())
    W += len(ts).bit_length() + 2
    if W > 128:
        return None
    s = z3.BitVecVal(C & ((1 << W) - 1), W)
    for k, bv, sg in ts:
        x = z3.SignExt(W - bv.size(), bv) if sg else z3.ZeroExt(W - bv.size(), bv)
        s = s + x * z3.BitVecVal(int(k * den) & ((1 << W) - 1), W)
    return z3.simplify({'eq': s == 0, 'ne': s != 0, 'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0}[p])


def bit_linear(e, lin):
    """the affine combination over single bits: const, {xor mask: coefficient}"""
    c, ts = lin
    g = e.gf2
    co = {}
    for k, bv, sg in ts:
        bs = g.bits(bv)
        n = len(bs)
        for p, (m, b) in enumerate(bs):
            w = k * (-(1 << p) if sg and p == n - 1 else 1 << p)
            if b:
                c += w
                w = -w
            if m:
                co[m] = co.get(m, 0) + w
    return c, {m: w for m, w in co.items() if w}


def bv_linear(e, st, lin, tol=0.0):
    """decides lin == 0 (within tol)"""
    c, ts = lin
    if not ts:
        if abs(c) <= tol:
            return ('unsat', None)
        return e.query(st.pc, [], e.assert_to)
    tol = Fraction(str(tol))
    bc, co = bit_linear(e, lin)
    tiny = sum(abs(w) for w in co.values() if abs(w) < tol / 1000)
    if tiny < tol / 100:
        big = {m: w for m, w in co.items() if abs(w) >= tol / 1000}
    else:
        big, tiny = co, 0
    if bc + sum(w for w in big.values() if w > 0) <= tol - tiny and bc + sum(w for w in big.values() if w < 0) >= tiny - tol:
        return 'unsat', 'nf'
    den = c.denominator
    for k, _, _ in ts:
        den = den * k.denominator // math.gcd(den, k.denominator)
    C = int(c * den)
    ks = [int(k * den) for k, _, _ in ts]
    g = abs(C)
    for k in ks:
        g = math.gcd(g, abs(k))
    C //= g
    ks = [k // g for k in ks]
    W = max([abs(C).bit_length()] + [abs(k).bit_length() + t[1].size() for k, t in zip(ks, ts)]) + len(ts).bit_length() + 2
    r, m = 'unknown', None
    if W <= 400:
        s = z3.BitVecVal(C & ((1 << W) - 1), W)
        for k, (q, bv, sg) in zip(ks, ts):
            x = z3.SignExt(W - bv.size(), bv) if sg else z3.ZeroExt(W - bv.size(), bv)
            s = s + x * z3.BitVecVal(k & ((1 << W) - 1), W)
        r, m = e.query_fresh(st.pc, [s != 0], e.assert_to)
        if r == 'unsat' or tol == 0:
            return r, m
    # within the tolerance, over single bits
    s = z3.RealVal(bc)
    for mk, w in big.items():
        s = s + z3.If(e.gf2.term1(mk, 0) == 1, z3.RealVal(w), z3.RealVal(0))
    t = z3.RealVal(tol - tiny)
    cs = [e.gf2.canon(x) for x in st.pc]
    return e.query_fresh(cs, [z3.Or(s > t, s < -t)], e.assert_to)


@model('sym_assert_eq')
def m_asserteq(e, st, fr, i, a):
    tol = tor(a[2])
    real_eq(e, st, a[0], a[1], float(tol.args[0]), cstr(e, st, a[3]))
    return None


@model('sym_jvp')
def m_jvp(e, st, fr, i, a):
    """sym_jvp(fn, ctx, x0?, out, n): fn(double t, void* ctx, double* out);
    replaces out[k] by d out[k]/dt at t = 0."""
    fn, ctx, out, n = a[0], a[1], a[2], a[3]
    k = st.calls.get('jvp', 0)
    st.calls['jvp'] = k + 1
    t = Rl.var('t!jvp%d' % k)
    tz = Rl.z(t)
    eps = e.opts.get('jvp_eps', '1e-12')
    st.pc = st.pc + [tz < z3.RealVal(Fraction(eps)), tz > 0]
    st.calls['jvp_t'] = t.id

    def cb(e, st, v):
        st.calls.pop('jvp_t', None)
        vals = [tor(e.load_ty(st, e.padd(out, 8 * j), DBL)) for j in range(n)]
        ds = Rl.diff(vals, t)
        for j, d in enumerate(ds):
            d0 = Rl.subst(d, {t.id: Rl.ZERO})
            if e.opts.get('trig_sum'):
                d0 = resplit(e, st, d0)
            e.write(st, e.padd(out, 8 * j), 8, d0)
        # drop t constraints (values no longer depend on it)
        st.pc = [c for c in st.pc if not mentions(c, 't!jvp%d' % k)]
        up = st.frames[-1]
        if i.x[2] is not None:
            goto(e, st, up, i.x[2])

    e.push_fn(st, fn.name, [t, ctx, out], None, None, cb)
    return PUSHED


def resplit(e, st, root):
    mp = {}
    for x in Rl.post([root]):
        if x.op in ('sin', 'cos'):
            mp[x.id] = r_trig(e, st, x.op, mp[x.args[0].id])
        elif x.args and all(isinstance(t, R) for t in x.args):
            a = [mp[t.id] for t in x.args]
            mp[x.id] = x if all(p is q for p, q in zip(a, x.args)) else Rl.build(x.op, a)
        else:
            mp[x.id] = x
    return mp[root.id]


def mentions(c, nm):
    seen = set()
    stack = [c]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            if x.decl().name() == nm:
                return True
        else:
            stack.extend(x.children())
    return False


class _T:
    kind = 'double'
    w = 64
    ssize = 8
    size = 8


DBL = _T()


# --------------------------------------------------------------- memory
@model('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', 'aligned_alloc_', '_ZnamRKSt9nothrow_t')
def m_malloc(e, st, fr, i, a):
    n = a[0]
    if type(n) is not int:
        n = concretize64(e, st, n)
    if n > (1 << 23):
        raise Unsupported('allocation of %d bytes' % n)
    o = e.new_obj(st, n, 'heap', fr.fn.name)
    return Ptr(o.id, 0)


@model('_ZnwmSt11align_val_t')
def m_new_al(e, st, fr, i, a):
    return m_malloc(e, st, fr, i, a)


@model('calloc')
def m_calloc(e, st, fr, i, a):
    o = e.new_obj(st, a[0] * a[1], 'heap', fr.fn.name, True)
    return Ptr(o.id, 0)


@model('realloc')
def m_realloc(e, st, fr, i, a):
    o = e.new_obj(st, a[1], 'heap', fr.fn.name)
    if isinstance(a[0], Ptr):
        old = st.mem[a[0].o]
        e.copy(st, Ptr(o.id, 0), Ptr(a[0].o, 0), min(old.size, a[1]))
        w = e.wobj(st, a[0].o)
        w.freed = True
    return Ptr(o.id, 0)


def concretize64(e, st, v):
    w = v.size()
    for _ in range(512):
        r, m = e.query(st.pc, [], e.assert_to)
        if r != 'sat':
            raise Unsupported('concretize: %s' % r)
        x = m.eval(v, model_completion=True)
        if e.choose(st, v == x):
            return x.as_long()
    raise Unsupported('concretize: too many values')


@model('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def m_free(e, st, fr, i, a):
    p = a[0]
    if type(p) is int and p == 0:
        return None
    p = e.resolve(st, p)
    o = st.mem[p.o]
    if o.freed:
        e.fail_mem(st, 'double free')
    if p.off != 0:
        # Eigen's hand-made aligned malloc never reaches here on x86-64
        e.fail_mem(st, 'free of an interior pointer')
    o = e.wobj(st, p.o)
    o.freed = True
    o.cells = {}
    return None


@model('llvm.memcpy.*', 'llvm.memmove.*', 'memcpy', 'memmove')
def m_memcpy(e, st, fr, i, a):
    n = a[2]
    if type(n) is int:
        e.copy(st, a[0], a[1], n)
        return a[0]
    r, m = e.query(st.pc, [z3.UGT(n, 1024)], e.assert_to)
    if r == 'sat':
        # a wild length: is it within the objects?
        s, d = e.resolve(st, a[0]), e.resolve(st, a[1])
        lim = min(st.mem[s.o].size, st.mem[d.o].size)
        e.report(st, 'memory', 'copy of an unbounded length', z3.UGT(n, lim))
        raise PathEnd('memory')
    # bounded symbolic length: fork over its values
    k = concretize64(e, st, n)
    e.copy(st, a[0], a[1], k)
    return a[0]


@model('llvm.memset.*', 'memset')
def m_memset(e, st, fr, i, a):
    n = a[2]
    if type(n) is not int:
        n = concretize64(e, st, n)
    v = a[1]
    if type(v) is int:
        v &= 255
    elif v.size() != 8:
        v = norm(z3.Extract(7, 0, v))
    e.memset(st, a[0], v, n)
    return a[0]


@model('memcmp', 'bcmp')
def m_memcmp(e, st, fr, i, a):
    n = a[2] if type(a[2]) is int else concretize64(e, st, a[2])
    r = z3.BitVecVal(0, 32)
    allc = 0
    for k in reversed(range(n)):
        x = e.read(st, e.padd(a[0], k), 1)
        y = e.read(st, e.padd(a[1], k), 1)
        if type(x) is int and type(y) is int and type(r) is not int:
            if x != y:
                r = z3.BitVecVal((x - y) & MASK[32], 32)
        else:
            x, y = BV(x, 8), BV(y, 8)
            r = z3.If(x == y, r, z3.ZeroExt(24, x) - z3.ZeroExt(24, y))
    return norm(r)


@model('strlen')
def m_strlen(e, st, fr, i, a):
    p = e.resolve(st, a[0])
    k = 0
    while True:
        b = e.read(st, Ptr(p.o, p.off + k), 1)
        if type(b) is not int:
            if e.choose(st, BV(b, 8) == 0):
                return k
        elif b == 0:
            return k
        k += 1


@model('llvm.expect.*', 'llvm.assume', 'llvm.prefetch.*', 'llvm.stacksave.*', 'llvm.stackrestore.*', 'llvm.invariant*',
       'llvm.donothing', 'llvm.sideeffect')
def m_nop(e, st, fr, i, a):
    return a[0] if a else None


@model('llvm.objectsize*')
def m_objsize(e, st, fr, i, a):
    return MASK[64]


@model('llvm.is.constant*')
def m_isconst(e, st, fr, i, a):
    return 0


@model('llvm.trap', 'abort', 'llvm.ubsantrap', 'exit', '_Exit', '_ZSt9terminatev', '__assert_fail', '__clang_call_terminate')
def m_abort(e, st, fr, i, a):
    raise PathEnd('throw', i.x[0] or 'abort')


def vmap(f):
    def g(e, st, fr, i, a):
        if isinstance(a[0], tuple):
            return tuple(f(e, st, fr, i, [x[k] if isinstance(x, tuple) else x for x in a], i.ty.el.w)
                         for k in range(i.ty.n))
        return f(e, st, fr, i, a, i.ty.w)
    return g


def reg_int(name, fz):
    def f(e, st, fr, i, a, w):
        return fz(e, a, w)
    PREFIX.append((name, vmap(f)))


def _minmax(pred):
    def f(e, a, w):
        c = e.icmp(pred, a[0], a[1], w)
        if type(c) is int:
            return a[0] if c else a[1]
        if isinstance(a[0], (Ptr, R)) or isinstance(a[1], (Ptr, R)):
            raise Unsupported('min/max of non-integers')
        return norm(z3.If(c, BV(a[0], w), BV(a[1], w)))
    return f


reg_int('llvm.smax.', _minmax('sgt'))
reg_int('llvm.smin.', _minmax('slt'))
reg_int('llvm.umax.', _minmax('ugt'))
reg_int('llvm.umin.', _minmax('ult'))


def _iabs(e, a, w):
    v = a[0]
    if type(v) is int:
        return abs(sgn(v, w)) & MASK[w]
    return norm(z3.If(v < 0, -v, v))


reg_int('llvm.abs.', _iabs)


def _bswap(e, a, w):
    v = a[0]
    if type(v) is int:
        return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
    return norm(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(w // 8)]))


reg_int('llvm.bswap.', _bswap)


def _ctpop(e, a, w):
    v = a[0]
    if type(v) is int:
        return bin(v).count('1')
    r = z3.BitVecVal(0, w)
    for k in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, v))
    return norm(r)


reg_int('llvm.ctpop.', _ctpop)


def _ctlz(e, a, w):
    v = a[0]
    if type(v) is int:
        return w - v.bit_length()
    r = z3.BitVecVal(w, w)
    for k in range(w):
        r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(w - 1 - k, w), r)
    return norm(r)


def _cttz(e, a, w):
    v = a[0]
    if type(v) is int:
        return w if v == 0 else (v & -v).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for k in reversed(range(w)):
        r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(k, w), r)
    return norm(r)


reg_int('llvm.ctlz.', _ctlz)
reg_int('llvm.cttz.', _cttz)


def _fsh(left):
    def f(e, a, w):
        x, y, s = a
        if all(type(t) is int for t in a):
            s %= w
            c = (x << w) | y
            if left:
                return (c << s >> w) & MASK[w]
            return (c >> s) & MASK[w]
        c = z3.Concat(BV(x, w), BV(y, w))
        s = z3.URem(BV(s, w), z3.BitVecVal(w, w))
        s = z3.ZeroExt(w, s)
        if left:
            return norm(z3.Extract(2 * w - 1, w, c << s))
        return norm(z3.Extract(w - 1, 0, z3.LShR(c, s)))
    return f


reg_int('llvm.fshl.', _fsh(True))
reg_int('llvm.fshr.', _fsh(False))


def _usub_sat(e, a, w):
    x, y = a
    if type(x) is int and type(y) is int:
        return max(0, x - y)
    x, y = BV(x, w), BV(y, w)
    return norm(z3.If(z3.UGT(x, y), x - y, z3.BitVecVal(0, w)))


reg_int('llvm.usub.sat.', _usub_sat)


def _ovf(op, signed):
    def f(e, st, fr, i, a):
        w = i.tys[0].w
        x, y = a
        if type(x) is int and type(y) is int:
            if signed:
                x, y = sgn(x, w), sgn(y, w)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
            return (r & MASK[w], int(not lo <= r <= hi))
        x, y = BV(x, w), BV(y, w)
        if op == 'add':
            r, ok = x + y, z3.And(z3.BVAddNoOverflow(x, y, signed), z3.BVAddNoUnderflow(x, y)) if signed else \
                z3.BVAddNoOverflow(x, y, False)
        elif op == 'sub':
            r, ok = x - y, z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if signed else \
                z3.UGE(x, y)
        else:
            r, ok = x * y, z3.And(z3.BVMulNoOverflow(x, y, signed), z3.BVMulNoUnderflow(x, y)) if signed else \
                z3.BVMulNoOverflow(x, y, False)
        return (norm(r), norm(z3.Not(ok)))
    return f


for _o in ('add', 'sub', 'mul'):
    PREFIX.append(('llvm.s%s.with.overflow' % _o, _ovf(_o, True)))
    PREFIX.append(('llvm.u%s.with.overflow' % _o, _ovf(_o, False)))


def _vreduce(op):
    def f(e, st, fr, i, a):
        v = a[0]
        r = v[0]
        for x in v[1:]:
            r = e.arith(op, r, x, i.ty.w)
        return r
    return f


for _o in ('add', 'mul', 'and', 'or', 'xor'):
    PREFIX.append(('llvm.vector.reduce.%s.' % _o, _vreduce(_o)))


# ----------------------------------------------------------------- math
def path_norm(e, st):
    key = tuple(sorted((k, v.id) for k, v in st.rules.items()))
    c = e.__dict__.setdefault('norms', {})
    nm = c.get(key)
    if nm is None:
        nm = c[key] = Rl.Norm(st.rules, e.opts.get('coef_tol'))
        nm.low = Fraction(str(e.opts.get('coef_low', '1e-16')))
    return nm


def r_sqrt(e, st, x):
    """square root; a perfect square (in normal form) becomes |root|"""
    if e.opts.get('sqrt_nf') and x.op not in ('c', 'sp', 'v'):
        nm = path_norm(e, st)
        try:
            num, den = nm.nf(x)
        except (Rl.TooBig, ZeroDivisionError):
            num = None
        if num is not None:
            if not num:
                return Rl.ZERO
            if e.opts.get('fold') and not den and list(num) == [()]:
                return Rl.sqrt(Rl.const(float(num[()])))
            root = None
            if len(num) <= 60 and all(k % 2 == 0 for k in den.values()):
                root = Rl.p_sqrt(num)
            if root is None and e.opts.get('fold') and len(num) <= 60:
                # canonical radicand; the denominator outside when it is positive
                low = max(abs(c) for c in num.values()) * nm.low
                num = {m: c for m, c in num.items() if abs(c) > low}
                d, odd = Rl.ONE, {}
                for f, k in den.items():
                    g = poly_node(nm.fpoly(f))
                    for _ in range(k // 2):
                        d = Rl.mul(d, g)
                    if k & 1:
                        odd[f] = g
                if all(e.decide(st.pc, [Rl.z(g) <= 0])[0] == 'unsat' for g in odd.values()):
                    n = Rl.p_sqrt(num)
                    n = e.side(st, Rl.sqrt(poly_node(num))) if n is None else r_abs(e, st, poly_node(n))
                    d = Rl.ONE if d is Rl.ONE else r_abs(e, st, d)
                    for g in odd.values():
                        d = Rl.mul(d, r_sqrt(e, st, g))
                    return n if d is Rl.ONE else Rl.div(n, d)
            if root is not None:
                r = poly_node(root)
                for f, k in den.items():
                    d = poly_node(nm.fpoly(f))
                    for _ in range(k // 2):
                        r = Rl.div(r, d)
                return r_abs(e, st, r)
    return e.side(st, Rl.sqrt(x))


def cmp_norm(e, st, a, b):
    """a ? b with both sides in normal form (same truth value)"""
    try:
        num, den = path_norm(e, st).nf(Rl.sub(a, b))
    except (Rl.TooBig, ZeroDivisionError):
        return a, b
    if len(num) > 300:
        return a, b
    r = poly_node(num)
    for f, k in den.items():
        d = poly_node(path_norm(e, st).fpoly(f))
        for _ in range(k):
            r = Rl.div(r, d)
    return known_form(e, st, num, den, r), Rl.ZERO


def known_form(e, st, num, den, r):
    """an expression compared before that is a multiple of this one, up to rounding in constants"""
    ct = e.opts.get('coef_tol')
    if not e.opts.get('fold') or not ct or len(num) < 2:
        return r
    nm = path_norm(e, st)
    if not hasattr(nm, 'forms'):
        nm.forms = {}
    big = max(num, key=lambda m: abs(num[m]))
    top = abs(num[big])
    low = top * nm.low
    p = {m: c for m, c in num.items() if abs(c) > low}
    key = (frozenset(p), tuple(sorted((str(f), k) for f, k in den.items())))
    for q, node in nm.forms.setdefault(key, []):
        k = p[big] / q[big]
        if all(abs(c - k * q[m]) <= Fraction(ct) * abs(c) for m, c in p.items()):
            if len(q) != len(num) or any(c != k * q[m] for m, c in num.items()):
                note_once(e, 'comparisons that agree up to a relative rounding of %g in constants are taken as the same' % ct)
            return Rl.mul(Rl.const(k), node)
    nm.forms[key].append((p, r))
    return r


def poly_node(p):
    r = Rl.ZERO
    for m, c in p.items():
        t = Rl.const(c)
        for aid, k in m:
            for _ in range(k):
                t = Rl.mul(t, Rl.node(aid))
        r = Rl.add(r, t)
    return r


def r_abs(e, st, x):
    if e.opts.get('trig_sum') and x.op not in ('c', 'sp', 'v'):
        try:
            num, den = path_norm(e, st).nf(x)
            if not den and (not num or list(num) == [()]):
                return Rl.const(abs(num.get((), 0)))
        except (Rl.TooBig, ZeroDivisionError):
            pass
    a = Rl.abs_(x)
    core = a.args[1] if a.op == '*' and a.args[0].op == 'c' else a
    if core.op != 'abs':
        return a
    y = core.args[0]
    pos = e.choose(st, Rl.z(y) >= 0)
    y = y if pos else Rl.neg(y)
    return Rl.mul(a.args[0], y) if core is not a else y


def trig_split(e, st, op, x):
    """sine or cosine of a sum, in terms of its addends (constants and single atoms apart, the rest together)"""
    try:
        num, den = path_norm(e, st).nf(x)
    except (Rl.TooBig, ZeroDivisionError):
        return None
    if den or len(num) > 40:
        if den:
            return None
    if e.opts.get('coef_tol') and num:
        # rounding residue of a coefficient that is zero
        low = max(abs(c) for c in num.values()) * Fraction(1, 10 ** 14)
        num = {m: c for m, c in num.items() if abs(c) > low}
    parts, rest = [], {}
    for m in sorted(num):
        if len(m) == 0 or (len(m) == 1 and m[0][1] == 1):
            parts.append(poly_node({m: num[m]}))
        else:
            rest[m] = num[m]
    if rest:
        parts.append(poly_node(rest))
    if not parts:
        return Rl.const(0 if op == 'sin' else 1)
    def one(y):
        k, z = 1, y
        if y.op == '*' and y.args[0].op == 'c' and y.args[0].args[0].denominator == 1 and 2 <= abs(y.args[0].args[0]) <= 4:
            k, z = int(y.args[0].args[0]), y.args[1]
        s, c = (r_trig(e, st, o, z, True) for o in ('sin', 'cos'))
        s0, c0 = s, c
        for _ in range(abs(k) - 1):
            s, c = Rl.add(Rl.mul(s, c0), Rl.mul(c, s0)), Rl.sub(Rl.mul(c, c0), Rl.mul(s, s0))
        return (Rl.neg(s), c) if k < -1 else (s, c)
    s, c = one(parts[0])
    for y in parts[1:]:
        s1, c1 = one(y)
        s, c = (Rl.add(Rl.mul(s, c1), Rl.mul(c, s1)), Rl.sub(Rl.mul(c, c1), Rl.mul(s, s1)))
    return s if op == 'sin' else c


def r_trig(e, st, op, x, whole=False):
    if e.opts.get('trig_sum') and not whole and x.op not in ('c', 'sp', 'v'):
        r = trig_split(e, st, op, x)
        if r is not None:
            return r
    k, y = Fraction(1), x
    if x.op == '*' and x.args[0].op == 'c':
        k, y = x.args[0].args[0], x.args[1]
    if k in (1, -1) and y.op in ('atan2', 'acos', 'asin'):
        if y.op == 'atan2':
            n = r_sqrt(e, st, Rl.add(Rl.mul(y.args[0], y.args[0]), Rl.mul(y.args[1], y.args[1])))
            s, c = Rl.div(y.args[0], n), Rl.div(y.args[1], n)
        else:
            v = y.args[0]
            o = r_sqrt(e, st, Rl.sub(Rl.ONE, Rl.mul(v, v)))
            s, c = (o, v) if y.op == 'acos' else (v, o)
        return c if op == 'cos' else Rl.mul(Rl.const(k), s)
    if e.opts.get('trig_half') and k not in (Fraction(1, 2), Fraction(-1, 2)) and (k * 2).denominator == 1 and \
            k.numerator & (k.numerator - 1) == 0 and 1 <= abs(k) <= 4 and y.op not in ('c', 'sp'):
        h = Rl.mul(Rl.const(Fraction(1, 2)), x)
        if op == 'sin':
            return Rl.mul(Rl.const(2), Rl.mul(r_trig(e, st, 'sin', h, whole), r_trig(e, st, 'cos', h, whole)))
        sh = r_trig(e, st, 'sin', h, whole)
        return Rl.sub(Rl.ONE, Rl.mul(Rl.const(2), Rl.mul(sh, sh)))
    r = Rl.un(op, x)
    e.side(st, r)
    return r


def r_un(e, st, op, x):
    if op == 'sqrt':
        return r_sqrt(e, st, x)
    if op in ('sin', 'cos'):
        return r_trig(e, st, op, x)
    return e.side(st, Rl.un(op, x))


def reg_un(op, *names):
    def f(e, st, fr, i, a):
        if isinstance(a[0], tuple):
            return tuple(r_un(e, st, op, tor(x)) for x in a[0])
        return r_un(e, st, op, tor(a[0]))
    for n in names:
        model(n)(f)


reg_un('sqrt', 'sqrt', 'sqrtf', 'llvm.sqrt.*')
reg_un('sin', 'sin', 'sinf', 'llvm.sin.*')
reg_un('cos', 'cos', 'cosf', 'llvm.cos.*')
reg_un('tan', 'tan')
reg_un('asin', 'asin')
reg_un('acos', 'acos')
reg_un('exp', 'exp', 'llvm.exp.*')
reg_un('log', 'log', 'llvm.log.*')
reg_un('log10', 'log10')
reg_un('sinh', 'sinh')
reg_un('cosh', 'cosh')
reg_un('tanh', 'tanh')
reg_un('cbrt', 'cbrt')


@model('sincos')
def m_sincos(e, st, fr, i, a):
    x = tor(a[0])
    s = r_trig(e, st, 'sin', x)
    c = r_trig(e, st, 'cos', x)
    e.write(st, a[1], 8, s)
    e.write(st, a[2], 8, c)
    return None


@model('atan2')
def m_atan2(e, st, fr, i, a):
    y, x = folded(e, st, tor(a[0])), folded(e, st, tor(a[1]))
    if e.opts.get('atan2_angle') and not (y.op == 'c' and x.op == 'c'):
        t = plain_angle(e, st, y, x)
        if t is not None:
            return t
    return e.side(st, Rl.atan2(y, x))


def folded(e, st, x):
    """x as a constant when its normal form is one"""
    if x.op in ('c', 'sp', 'v') or not e.opts.get('fold'):
        return x
    try:
        num, den = path_norm(e, st).nf(x)
    except (Rl.TooBig, ZeroDivisionError):
        return x
    if not num:
        return Rl.ZERO
    return Rl.const(float(num[()])) if not den and list(num) == [()] else x


def plain_angle(e, st, y, x):
    """t with (x, y) = r (cos t, sin t), r > 0 and -pi < t <= pi, when the path settles that for t or 2t"""
    seen, args, todo = set(), {}, [y, x]
    while todo:
        n = todo.pop()
        if n.id in seen or len(seen) > 20000:
            continue
        seen.add(n.id)
        if n.op in ('sin', 'cos'):
            args[n.args[0].id] = n.args[0]
            continue
        todo += [z for z in n.args if isinstance(z, R)]
    nm = path_norm(e, st)
    for z in args.values():
        for k in (1, 2):
            t = Rl.mul(Rl.const(k), z)
            s, c = r_trig(e, st, 'sin', t), r_trig(e, st, 'cos', t)
            try:
                a, b = Rl.mul(y, c), Rl.mul(x, s)
                num, den = nm.nf(Rl.sub(a, b))
                if num and not (e.opts.get('coef_tol') and coef_equal(nm, a, b, num, den, e.opts['coef_tol'])):
                    continue
                num, den = nm.nf(Rl.add(Rl.mul(x, c), Rl.mul(y, s)))
            except (Rl.TooBig, ZeroDivisionError):
                continue
            r = poly_node(num)
            for f, j in den.items():
                d = poly_node(nm.fpoly(f))
                for _ in range(j):
                    r = Rl.div(r, d)
            pi = z3.RealVal(Fraction(math.pi))
            tz = Rl.z(t)
            if e.decide(st.pc, [z3.Or(Rl.z(r) <= 0, tz <= -pi, tz > pi)])[0] == 'unsat':
                return t
    return None


@model('atan')
def m_atan(e, st, fr, i, a):
    return e.side(st, Rl.atan2(folded(e, st, tor(a[0])), Rl.ONE))


@model('pow', 'llvm.pow.*')
def m_pow(e, st, fr, i, a):
    r = Rl.pow_(tor(a[0]), tor(a[1]))
    e.side(st, r)
    return r


@model('llvm.powi.*')
def m_powi(e, st, fr, i, a):
    return Rl.pow_(tor(a[0]), Rl.const(sgn(a[1], 32)))


@model('ldexp')
def m_ldexp(e, st, fr, i, a):
    return Rl.mul(tor(a[0]), Rl.const(Fraction(2) ** sgn(a[1], 32)))


@model('hypot')
def m_hypot(e, st, fr, i, a):
    x, y = tor(a[0]), tor(a[1])
    return r_sqrt(e, st, Rl.add(Rl.mul(x, x), Rl.mul(y, y)))


@model('fmod')
def m_fmod(e, st, fr, i, a):
    x, y = tor(a[0]), tor(a[1])
    if x.op == 'c' and y.op == 'c':
        return Rl.const(math.fmod(x.args[0], y.args[0]))
    q = Rl.div(x, y)
    e.side_div(st, y)
    return Rl.sub(x, Rl.mul(y, Rl.rnd('trunc', q)))


def fork_rnd(e, st, op, x):
    """round/trunc of a symbolic real decided by a case split over the integers within +-opts['fork_round']"""
    n = e.opts.get('fork_round')
    if not n or x.op in ('c', 'sp') or op not in ('round', 'trunc'):
        return None
    for m in sorted(range(-n, n + 1), key=abs):
        w = Fraction(1, 2) if op == 'round' else Fraction(1)
        lo = m - w if op == 'round' or m <= 0 else Fraction(m)
        hi = m + w if op == 'round' or m >= 0 else Fraction(m)
        c1 = e.fcmp('oge' if m > 0 else 'ogt', x, Rl.const(lo))
        c2 = e.fcmp('ole' if m < 0 else 'olt', x, Rl.const(hi))
        if type(c1) is int and type(c2) is int:
            if c1 & c2:
                return Rl.const(Fraction(m))
            continue
        if e.choose(st, z3.And(X.B(c1), X.B(c2))):
            return Rl.const(Fraction(m))
    raise X.Unsupported('rounding outside the range of the case split')


def reg_rnd(op, *names):
    def f(e, st, fr, i, a):
        x = tor(a[0])
        r = fork_rnd(e, st, op, x)
        if r is not None:
            return r
        if op in ('floor', 'ceil') and e.opts.get('fold') and x.op not in ('c', 'sp', 'v', 'i2r'):
            c, terms = linear_terms(x)
            n = math.floor(c + Fraction(1, 10 ** 12))
            if n and terms:
                # floor(x + n) = floor(x) + n; a residue of rounding in the constant is dropped
                c -= n
                y = Rl.const(c) if abs(c) > Fraction(1, 10 ** 12) else Rl.ZERO
                for z, k in terms.values():
                    y = Rl.add(y, Rl.mul(Rl.const(k), z))
                return Rl.add(Rl.rnd(op, y), Rl.const(n))
        return Rl.rnd(op, x)
    for n in names:
        model(n)(f)


reg_rnd('floor', 'floor', 'llvm.floor.*')
reg_rnd('ceil', 'ceil', 'llvm.ceil.*')
reg_rnd('trunc', 'trunc', 'llvm.trunc.*')
reg_rnd('round', 'round', 'llvm.round.*')
reg_rnd('rint', 'rint', 'nearbyint', 'llvm.rint.*', 'llvm.nearbyint.*')


@model('lround', 'llround', 'llvm.lround.*')
def m_lround(e, st, fr, i, a):
    return X.real_to_int(e, st, Rl.rnd('round', tor(a[0])), 64)


@model('fabs', 'llvm.fabs.*')
def m_fabs(e, st, fr, i, a):
    if isinstance(a[0], tuple):
        return tuple(Rl.abs_(tor(x)) for x in a[0])
    x = tor(a[0])
    if x.op in ('c', 'sp') or not e.fork_select_real:
        return Rl.abs_(x)
    if e.opts.get('abs_node'):
        return Rl.abs_(x)
    c = e.fcmp('oge', *(cmp_norm(e, st, x, Rl.ZERO) if e.opts.get('nf_cmp') and len(x.args) > 1 else (x, Rl.ZERO)))
    if type(c) is int:
        return x if c else Rl.neg(x)
    return x if e.choose(st, c) else Rl.neg(x)


def fminmax(mx):
    def f(e, st, fr, i, a):
        x, y = tor(a[0]), tor(a[1])
        u, v = cmp_norm(e, st, x, y) if e.opts.get('nf_cmp') and not (x.op == 'c' and y.op == 'c') else (x, y)
        c = e.fcmp('oge' if mx else 'ole', u, v)
        if type(c) is int:
            return x if c else y
        if not e.fork_select_real:
            return Rl.ite(B(c), x, y)
        return x if e.choose(st, c) else y
    return f


model('fmax', 'llvm.maxnum.*', 'llvm.maximum.*')(fminmax(True))
model('fmin', 'llvm.minnum.*', 'llvm.minimum.*')(fminmax(False))


@model('llvm.copysign.*', 'copysign')
def m_copysign(e, st, fr, i, a):
    x, y = tor(a[0]), tor(a[1])
    c = e.fcmp('oge', y, Rl.ZERO)
    ax = Rl.abs_(x)
    if type(c) is int:
        return ax if c else Rl.neg(ax)
    if not e.fork_select_real:
        return Rl.ite(B(c), ax, Rl.neg(ax))
    return ax if e.choose(st, c) else Rl.neg(ax)


@model('llvm.fma.*', 'fma', 'llvm.fmuladd.*')
def m_fma(e, st, fr, i, a):
    return Rl.add(Rl.mul(tor(a[0]), tor(a[1])), tor(a[2]))


@model('llvm.is.fpclass.*', '__isnan', 'isnan')
def m_isfp(e, st, fr, i, a):
    x = tor(a[0])
    mask = a[1] if len(a) > 1 else 3
    if x.op == 'sp':
        v = x.args[0]
        if v != v:
            return int(bool(mask & 3))
        return int(bool(mask & (0x200 if v > 0 else 0x4)))
    if x.op == 'c' or x.op != 'bits':
        if mask in (3, 0x204, 0x207, 1, 2, 4, 0x200):
            return 0
        if mask in (0x1f8, 0x3fc ^ 0x204):
            return 1
    if x.op == 'bits':
        f = z3.fpBVToFP(x.args[0], z3.FPSort(11, 53))
        if mask == 3:
            return norm(z3.fpIsNaN(f))
        if mask == 0x204:
            return norm(z3.fpIsInf(f))
        if mask == 0x1f8:
            return norm(z3.Not(z3.Or(z3.fpIsInf(f), z3.fpIsNaN(f))))
    raise Unsupported('fpclass %x' % mask)


# ---------------------------------------------------------- C++ runtime
@model('__cxa_allocate_exception')
def m_alloc_exc(e, st, fr, i, a):
    o = e.new_obj(st, a[0] + 64, 'heap', 'exception', True)
    return Ptr(o.id, 0)


@model('__cxa_free_exception', '__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_end_catch',
       '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__dso_handle')
def m_zero(e, st, fr, i, a):
    return 0


@model('__cxa_throw', '__cxa_rethrow', '_Unwind_Resume', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv',
       '_ZSt19__throw_logic_errorPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz',
       '_ZSt25__throw_bad_function_callv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt16__throw_bad_castv',
       '_ZSt21__throw_runtime_errorPKc', '_ZSt24__throw_invalid_argumentPKc', '__cxa_pure_virtual')
def m_throw(e, st, fr, i, a):
    raise PathEnd('throw', i.x[0] or '')


@model('_ZNSt13runtime_error*', '_ZNSt11logic_error*', '_ZNSt12out_of_range*', '_ZNSt9exception*',
       '_ZNSt16invalid_argument*', '_ZNSt12length_error*')
def m_exc_ctor(e, st, fr, i, a):
    return 0


@model('__cxa_guard_acquire')
def m_guard(e, st, fr, i, a):
    # the flag byte is tested by inlined code too
    v = e.read(st, a[0], 1)
    if v == 0:
        e.write(st, a[0], 1, 1)
        return 1
    return 0


@model('timegm')
def m_timegm(e, st, fr, i, a):
    v = []
    for k in range(6):
        x = e.read(st, Ptr(a[0].o, a[0].off + 4 * k), 4)
        if type(x) is not int:
            raise Unsupported('timegm of a symbolic date')
        v.append(sgn(x, 32))
    sec, mi, h, d, mon, y = v
    y += 1900 + mon // 12
    mon = mon % 12 + 1
    yy = y - (mon <= 2)
    era = yy // 400
    yoe = yy - era * 400
    doy = (153 * (mon + (-3 if mon > 2 else 9)) + 2) // 5 + d - 1
    days = era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468
    return (days * 86400 + h * 3600 + mi * 60 + sec) & MASK[64]


# project logging / checking
@model('_ZN2mc5checkE*')
def m_check(e, st, fr, i, a):
    c = a[0]
    if type(c) is int:
        if not c & 1:
            raise PathEnd('throw', 'check failed')
        return None
    if e.choose(st, B(c)):
        return None
    raise PathEnd('throw', 'check failed')


@model('_ZN2mc10weak_checkE*', '_ZN2mc10base_printE*', '_ZN2mc3dbgE*', '_ZN2mc4infoE*', '_ZN2mc4warnE*', '_ZN2mc5errorE*',
       '_ZN2mc5fatalE*')
def m_log(e, st, fr, i, a):
    return None


@model('rand')
def m_rand(e, st, fr, i, a):
    n = e.fresh('rand')
    v = z3.BitVec(n, 32)
    e.add_pc(st, v >= 0)
    return v


@model('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def m_rbinc(e, st, fr, i, a):
    # layout: color 0, parent 8, left 16, right 24
    def ld(p, o):
        return e.read(st, e.padd(p, o), 8)
    x = a[0]

    def nz(p):
        return isinstance(p, Ptr)

    def same(p, q):
        return isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o and p.off == q.off
    if nz(ld(x, 24)):
        x = ld(x, 24)
        while nz(ld(x, 16)):
            x = ld(x, 16)
        return x
    y = ld(x, 8)
    while same(x, ld(y, 24)):
        x = y
        y = ld(y, 8)
    if not same(ld(x, 24), y):
        x = y
    return x


@model('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def m_rbdec(e, st, fr, i, a):
    def ld(p, o):
        return e.read(st, e.padd(p, o), 8)

    def same(p, q):
        return isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o and p.off == q.off
    x = a[0]
    par = ld(x, 8)
    if e.read(st, x, 4) == 0 and isinstance(par, Ptr) and same(ld(par, 8), x):
        return ld(x, 24)
    if isinstance(ld(x, 16), Ptr):
        y = ld(x, 16)
        while isinstance(ld(y, 24), Ptr):
            y = ld(y, 24)
        return y
    y = ld(x, 8)
    while same(x, ld(y, 16)):
        x = y
        y = ld(y, 8)
    return y


@model('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def m_rbins(e, st, fr, i, a):
    """unbalanced insertion (balance is not observable)"""
    left, x, p, h = a

    def ld(q, o):
        return e.read(st, e.padd(q, o), 8)

    def w(q, o, v):
        e.write(st, e.padd(q, o), 8, v)

    def same(p, q):
        return isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o and p.off == q.off
    if type(left) is not int:
        left = e.choose(st, B(left))
    w(x, 8, p)
    w(x, 16, 0)
    w(x, 24, 0)
    e.write(st, x, 4, 1)
    if left:
        w(p, 16, x)
        if same(p, h):
            w(h, 8, x)
            w(h, 24, x)
        elif same(p, ld(h, 16)):
            w(h, 16, x)
    else:
        w(p, 24, x)
        if same(p, ld(h, 24)):
            w(h, 24, x)
    return None


@model('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def m_rberase(e, st, fr, i, a):
    """unbalanced removal"""
    z, h = a

    def ld(q, o):
        return e.read(st, e.padd(q, o), 8)

    def w(q, o, v):
        e.write(st, e.padd(q, o), 8, v)

    def same(p, q):
        return isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o and p.off == q.off

    def end(q, o):
        while isinstance(ld(q, o), Ptr):
            q = ld(q, o)
        return q

    def relink(new):
        par = ld(z, 8)
        if same(ld(h, 8), z):
            w(h, 8, new)
        elif same(ld(par, 16), z):
            w(par, 16, new)
        else:
            w(par, 24, new)
    lt, rt = ld(z, 16), ld(z, 24)
    if isinstance(lt, Ptr) and isinstance(rt, Ptr):
        y = end(rt, 16)
        x = ld(y, 24)
        w(lt, 8, y)
        w(y, 16, lt)
        if not same(y, rt):
            yp = ld(y, 8)
            if isinstance(x, Ptr):
                w(x, 8, yp)
            w(yp, 16, x)
            w(y, 24, rt)
            w(rt, 8, y)
        relink(y)
        w(y, 8, ld(z, 8))
        return z
    x = lt if isinstance(lt, Ptr) else rt
    if isinstance(x, Ptr):
        w(x, 8, ld(z, 8))
    relink(x)
    if same(ld(h, 16), z):
        w(h, 16, end(x, 16) if isinstance(rt, Ptr) else ld(z, 8))
    if same(ld(h, 24), z):
        w(h, 24, end(x, 24) if isinstance(lt, Ptr) else ld(z, 8))
    return z


@model('_ZNK2mc7UTCTime3strB5cxx11Ev')
def m_timestr(e, st, fr, i, a):
    """UTCTime::str() only feeds messages: an empty std::string"""
    p = a[0]
    q = e.padd(p, 16)
    e.write(st, p, 8, q)
    e.write(st, e.padd(p, 8), 8, 0)
    e.write(st, q, 1, 0)
    return None


@model('_ZN5Eigen8internal15queryCacheSizesERiS1_S1_')
def m_cachesizes(e, st, fr, i, a):
    for p, v in zip(a, (32 << 10, 256 << 10, 8 << 20)):
        e.write(st, p, 4, v)
