"""Inputs that satisfy a path condition, found by evaluating it in floating point (witnesses, starting points for the solver)."""
import math
import random
from fractions import Fraction
import z3
from . import reals as Rl

UFN = {'uf_' + k: f for k, f in Rl.UN.items()}


class Undef(Exception):
    pass


def fl(x):
    if z3.is_algebraic_value(x):
        x = x.approx(20)
    return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def root_(x):
    if x < 0:
        if x > -1e-9:
            return 0.0
        raise ValueError
    return math.sqrt(x)


def power(a, b):
    r = a ** b
    if isinstance(r, complex):
        raise ValueError
    return r


progs = {}
BIN = {z3.Z3_OP_LE: '%s <= %s + 1e-12 * max(1.0, abs(%s))', z3.Z3_OP_GE: '%s >= %s - 1e-12 * max(1.0, abs(%s))'}


def program(root):
    """the term as a Python function of the inputs (None: it has something the evaluation does not know)"""
    key = root.get_id()
    if key in progs:
        return progs[key][1]
    ids, lines, stack = {}, [], [root]
    glob = dict(near=near, root_=root_, power=power, atan2=math.atan2, floor=math.floor, prod=math.prod, **UFN)
    try:
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in ids:
                stack.pop()
                continue
            ch = x.children()
            k = x.decl().kind()
            rad = None
            if k == z3.Z3_OP_UNINTERPRETED and not ch:
                n = x.decl().name()
                if n.startswith('sqrt!'):
                    rad = Rl.z(Rl.node(int(n[5:])).args[0])
                    ch = [rad]
            pend = [c for c in ch if c.get_id() not in ids]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            a = [ids[c.get_id()] for c in ch]
            t = 't%d' % len(lines)
            lines.append('%s = %s' % (t, text(x, k, a, rad)))
            ids[i] = t
        src = 'def f(E):\n ' + '\n '.join(lines) + '\n return ' + ids[key]
        exec(src, glob)
        r = glob['f']
    except Undef:
        r = None
    progs[key] = (root, r)
    return r


def text(x, k, a, rad):
    if z3.is_rational_value(x) or z3.is_algebraic_value(x):
        return repr(fl(x))
    if k == z3.Z3_OP_ANUM:
        return repr(float(x.as_long()))
    if k == z3.Z3_OP_TRUE:
        return 'True'
    if k == z3.Z3_OP_FALSE:
        return 'False'
    if k == z3.Z3_OP_UNINTERPRETED:
        n = x.decl().name()
        if rad is not None:
            return 'root_(%s)' % a[0]
        if not a:
            return 'E[%r]' % n
        if n == 'uf_atan2':
            return 'atan2(%s, %s)' % tuple(a)
        if n == 'uf_pow':
            return 'power(%s, %s)' % tuple(a)
        if n in UFN:
            return '%s(%s)' % (n, a[0])
        raise Undef
    if k == z3.Z3_OP_ADD:
        return ' + '.join(a)
    if k == z3.Z3_OP_SUB:
        return ' - '.join(a)
    if k == z3.Z3_OP_UMINUS:
        return '-' + a[0]
    if k == z3.Z3_OP_MUL:
        return ' * '.join(a)
    if k == z3.Z3_OP_DIV:
        return ' / '.join(a)
    if k == z3.Z3_OP_POWER:
        return 'power(%s, %s)' % tuple(a)
    if k in BIN:
        return BIN[k] % (a[0], a[1], a[1])
    if k == z3.Z3_OP_LT:
        return '%s < %s' % tuple(a)
    if k == z3.Z3_OP_GT:
        return '%s > %s' % tuple(a)
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        p = '%s == %s' if z3.is_bool(x.arg(0)) else 'near(%s, %s)'
        return ('not (%s)' if k == z3.Z3_OP_DISTINCT else '(%s)') % (p % tuple(a))
    if k == z3.Z3_OP_NOT:
        return 'not ' + a[0]
    if k == z3.Z3_OP_AND:
        return ' and '.join(a)
    if k == z3.Z3_OP_OR:
        return ' or '.join(a)
    if k == z3.Z3_OP_IMPLIES:
        return '(not %s) or %s' % tuple(a)
    if k == z3.Z3_OP_ITE:
        return '%s if %s else %s' % (a[1], a[0], a[2])
    if k == z3.Z3_OP_TO_INT:
        return 'floor(%s + 1e-12)' % a[0]
    if k == z3.Z3_OP_TO_REAL:
        return 'float(%s)' % a[0]
    raise Undef


def holds(cs, env):
    """None when the evaluation does not know"""
    try:
        for c in cs:
            f = program(c)
            if f is None:
                return None
            if not f(env):
                return False
    except (KeyError, ZeroDivisionError, ValueError, OverflowError):
        return None
    return True


def bounds(pc):
    """simple bounds name -> [lo, hi] stated by single comparisons"""
    b = {}
    todo = list(pc)
    while todo:
        c = todo.pop()
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            todo += c.children()
            continue
        neg = False
        if k == z3.Z3_OP_NOT:
            c = c.arg(0)
            k = c.decl().kind()
            if k == z3.Z3_OP_OR:
                todo += [z3.Not(d) for d in c.children()]
                continue
            neg = True
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            continue
        x, y = c.children()
        up = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        if neg:
            up = not up
        if z3.is_rational_value(x):
            x, y, up = y, x, not up
        if not z3.is_rational_value(y) or not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            continue
        r = b.setdefault(x.decl().name(), [-math.inf, math.inf])
        if up:
            r[1] = min(r[1], fl(y))
        else:
            r[0] = max(r[0], fl(y))
    return b


def search(e, st, extra=(), tries=300, seed=7, wild=False):
    """{name: float} satisfying the path condition and extra when evaluated in floating point, or None"""
    names = []
    quats = set()
    for n, kd, v in st.inputs:
        if kd == 'f64' and isinstance(v, Rl.R) and v.op == 'v':
            names.append(v.args[0])
        elif type(v) is not int and not (isinstance(v, Rl.R) and v.op in ('c', 'sp')):
            return None
    for n in names:
        if n[-2:] == '.w' and Rl.var(n).id in st.rules:
            quats.add(n[:-2])
    pc = list(st.pc) + list(extra)
    if any(program(c) is None for c in pc):
        return None
    b = bounds(pc)
    cen = e.opts.get('probe_values', {})
    rng = random.Random(seed)
    base = getattr(st, 'env', None)
    if wild:
        base = None if not base or seed & 1 else base
    for k in range(tries):
        few = rng.choice((0, 0.6, 0.85, 0.93)) if wild else 0
        # first keep what served so far, then move a few, then anything
        env = {}
        if base and k < tries * 2 // 3:
            env = {n: v for n, v in base.items() if k < tries // 6 or n[:-2] in quats or rng.random() < 0.6}
        for q in quats:
            if q + '.w' in env:
                continue
            w = [rng.gauss(0, 1) for _ in range(4)]
            s = math.sqrt(sum(c * c for c in w))
            for c, x in zip('wxyz', w):
                env[q + '.' + c] = x / s
        for n in names:
            if n in env:
                continue
            lo, hi = cen.get(n.split('#')[0], b.get(n, (-math.inf, math.inf)))
            if wild and not (lo == -math.inf and hi == math.inf) and rng.random() < 0.25:
                env[n] = lo if rng.random() < 0.5 else hi
                if math.isfinite(env[n]):
                    continue
            if wild and lo == -math.inf and hi == math.inf:
                env[n] = 0.0 if rng.random() < few else rng.choice((-1, 1)) * 10.0 ** rng.uniform(-3, 6)
                continue
            if lo == -math.inf and hi == math.inf:
                lo, hi = (-3, 3) if k % 3 else (-100, 100)
            elif lo == -math.inf:
                lo = hi - (10 if k % 2 else max(10, abs(hi)))
            elif hi == math.inf:
                hi = lo + (10 if k % 2 else max(10, abs(lo)))
            env[n] = rng.randrange(1, 1 << 20) / (1 << 20) * (hi - lo) + lo
        if holds(pc, env):
            return env
    return None
