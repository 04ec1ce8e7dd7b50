"""Exclusive-or normal form of bit-vector terms: every bit is an affine
combination over GF(2) of atom bits.  Used to simplify terms (CRC and parity
tables, check sums) before they reach the SMT solver."""
import z3

O = z3


# symbols for entries of tables that are affine over GF(2):
# id -> (symbol, offset term, table, log2 stride, width)
DEFS = {}


class GF2:
    def __init__(self):
        self.keep = []
        self.atom_ix = {}
        self.atoms = []
        self.memo = {}
        self.bmemo = {}
        self.cmemo = {}
        self.absvars = {}
        self.abstract = False

    def atom(self, e, k):
        """bit k of the opaque term e"""
        key = (e.get_id(), k)
        i = self.atom_ix.get(key)
        if i is None:
            i = len(self.atoms)
            self.atom_ix[key] = i
            self.keep.append(e)
            self.atoms.append((e, k))
        return (1 << i, 0)

    def opaque(self, e):
        return [self.atom(e, k) for k in range(e.size())]

    def bits(self, e):
        r = self.memo.get(e.get_id())
        if r is None:
            r = self.bits_(e)
            self.keep.append(e)
            self.memo[e.get_id()] = r
        return r

    def width(self, e):
        """number of low bits that can be nonzero"""
        b = self.bits(e)
        n = len(b)
        while n and b[n - 1] == (0, 0):
            n -= 1
        return n

    def narrow(self, kind, ch, n):
        """sum or constant multiple that cannot wrap, at its minimal width"""
        ws = [self.width(c) for c in ch]
        if kind == z3.Z3_OP_BADD:
            top = sum((c.as_long() if z3.is_bv_value(c) else (1 << w) - 1) for c, w in zip(ch, ws))
        else:
            top = ch[0].as_long() * ((1 << ws[1]) - 1)
        m = max(top.bit_length(), 1)
        if m >= n:
            return None
        cs = [self.build(self.bits(c)[:m]) for c in ch]
        t = cs[0]
        for c in cs[1:]:
            t = t + c if kind == z3.Z3_OP_BADD else t * c
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return None
        return [self.atom(t, k) for k in range(m)] + [(0, 0)] * (n - m)

    def bits_(self, e):
        n = e.size()
        if z3.is_bv_value(e):
            v = e.as_long()
            return [(0, v >> i & 1) for i in range(n)]
        k = e.decl().kind()
        ch = e.children()
        if not ch and e.get_id() in DEFS:
            v, off, t, sh, w = DEFS[e.get_id()]
            ob = self.bits(off)
            nb = len(t).bit_length() - 1
            out = []
            for b in range(w):
                m, c = 0, t[0] >> b & 1
                for i in range(nb):
                    if (t[1 << i] ^ t[0]) >> b & 1:
                        x = ob[sh + i]
                        m ^= x[0]
                        c ^= x[1]
                out.append((m, c))
            return out
        if k == z3.Z3_OP_CONCAT:
            r = []
            for c in reversed(ch):
                r += self.bits(c)
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            return self.bits(ch[0])[lo:hi + 1]
        if k == z3.Z3_OP_BXOR:
            r = list(self.bits(ch[0]))
            for c in ch[1:]:
                r = [(a[0] ^ b[0], a[1] ^ b[1]) for a, b in zip(r, self.bits(c))]
            return r
        if k == z3.Z3_OP_BNOT:
            return [(m, c ^ 1) for m, c in self.bits(ch[0])]
        if k == z3.Z3_OP_ZERO_EXT:
            return self.bits(ch[0]) + [(0, 0)] * (n - ch[0].size())
        if k == z3.Z3_OP_SIGN_EXT:
            b = self.bits(ch[0])
            return b + [b[-1]] * (n - len(b))
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(ch[1]):
            s = min(ch[1].as_long(), n)
            b = self.bits(ch[0])
            if k == z3.Z3_OP_BSHL:
                return [(0, 0)] * s + b[:n - s]
            f = (0, 0) if k == z3.Z3_OP_BLSHR else b[-1]
            return b[s:] + [f] * s
        if k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BADD):
            bs = [self.bits(c) for c in ch]
            out = []
            z = (0, 0) if k != z3.Z3_OP_BAND else (0, 1)
            for i in range(n):
                l = [b[i] for b in bs if b[i] != z]
                if k == z3.Z3_OP_BAND and (0, 0) in l:
                    out.append((0, 0))
                elif k == z3.Z3_OP_BOR and (0, 1) in l:
                    out.append((0, 1))
                elif not l:
                    out.append(z)
                elif len(l) == 1 or (k != z3.Z3_OP_BADD and all(x == l[0] for x in l)):
                    out.append(l[0])
                elif k == z3.Z3_OP_BADD:
                    r = self.narrow(k, ch, n)
                    return r if r is not None else self.opaque(self.rebuild(e))
                else:
                    out.append(None)
            if any(x is None for x in out):
                t = self.rebuild(e)
                out = [x if x is not None else self.atom(t, i) for i, x in enumerate(out)]
            return out
        if k == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]):
            b = self.bits(ch[1])
            v = ch[0].as_long()
            if v and v & (v - 1) == 0:
                q = v.bit_length() - 1
                return [(0, 0)] * q + b[:n - q]
            if all(x == (0, 0) for x in b[1:]):        # constant times one bit
                v = ch[0].as_long()
                return [b[0] if v >> i & 1 else (0, 0) for i in range(n)]
            r = self.narrow(k, ch, n)
            if r is not None:
                return r
        if k == z3.Z3_OP_BNEG:
            b = self.bits(ch[0])
            if all(x == (0, 0) for x in b[1:]):
                return [b[0]] * n
        if k == z3.Z3_OP_ITE:
            a, b = self.bits(ch[1]), self.bits(ch[2])
            c = self.bbit(ch[0])
            out = []
            t = None
            for i in range(n):
                d = (a[i][0] ^ b[i][0], a[i][1] ^ b[i][1])
                if d == (0, 0):
                    out.append(a[i])
                elif d[0] == 0 and c is not None:
                    out.append((b[i][0] ^ c[0], b[i][1] ^ c[1]))
                else:
                    if t is None:
                        t = self.rebuild(e)
                    out.append(self.atom(t, i))
            return out
        return self.opaque(self.rebuild(e))

    def bbit(self, c):
        """affine form of a Boolean, or None"""
        if z3.is_true(c):
            return (0, 1)
        if z3.is_false(c):
            return (0, 0)
        k = c.decl().kind()
        ch = c.children()
        if k == z3.Z3_OP_NOT:
            b = self.bbit(ch[0])
            return b and (b[0], b[1] ^ 1)
        if k == z3.Z3_OP_EQ and z3.is_bv(ch[0]):
            a, b = self.bits(ch[0]), self.bits(ch[1])
            d = [(x[0] ^ y[0], x[1] ^ y[1]) for x, y in zip(a, b)]
            d = [x for x in d if x != (0, 0)]
            if not d:
                return (0, 1)
            if (0, 1) in d:
                return (0, 0)
            if len(set(d)) == 1:
                return (d[0][0], d[0][1] ^ 1)
            return None
        if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]) or k == z3.Z3_OP_XOR:
            a, b = self.bbit(ch[0]), self.bbit(ch[1])
            if a is None or b is None:
                return None
            return (a[0] ^ b[0], a[1] ^ b[1] ^ (1 if k == z3.Z3_OP_EQ else 0))
        return None

    # ---- back to terms
    def term1(self, m, c):
        if m == 0:
            return z3.BitVecVal(c, 1)
        if self.abstract and m & (m - 1):
            v = self.absvars.get(m)
            if v is None:
                v = z3.BitVec('gf2_%d' % len(self.absvars), 1)
                self.absvars[m] = v
            return v if not c else ~v
        t = None
        i = 0
        while m:
            if m & 1:
                e, k = self.atoms[i]
                x = z3.Extract(k, k, e) if e.size() > 1 else e
                t = x if t is None else t ^ x
            m >>= 1
            i += 1
        return ~t if c else t

    seg = False

    def build(self, bits):
        if self.seg:
            lo, hi = 0, len(bits)
            while lo < hi and bits[lo][0] == 0:
                lo += 1
            while hi > lo and bits[hi - 1] == bits[hi - 2]:
                hi -= 1
            while hi > lo and bits[hi - 1][0] == 0:
                hi -= 1
            mid = bits[lo:hi]
            if len(mid) > 1 and all(m and m & (m - 1) == 0 and not c for m, c in mid):
                ats = [self.atoms[m.bit_length() - 1] for m, c in mid]
                e0, k0 = ats[0]
                if any(e.get_id() != e0.get_id() or k != k0 + i for i, (e, k) in enumerate(ats)):
                    key = tuple(m for m, c in mid)
                    v = self.absvars.get(key)
                    if v is None:
                        v = z3.BitVec('seg_%d' % len(self.absvars), len(mid))
                        self.absvars[key] = v
                    if lo:
                        v = z3.Concat(v, self.build1(bits[:lo]))
                    n = len(bits) - hi
                    if n:
                        if bits[hi][0] == 0:
                            v = z3.Concat(self.build1(bits[hi:]), v)
                        else:
                            v = z3.SignExt(n, v)
                    return v
        n = len(bits)
        k = n
        while k > 1 and bits[k - 1][0] and bits[k - 1] == bits[k - 2]:
            k -= 1
        if k < n:
            return z3.SignExt(n - k, self.build1(bits[:k]))
        return self.build1(bits)

    def build1(self, bits):
        parts = []
        i = 0
        n = len(bits)
        while i < n:
            m, c = bits[i]
            j = i + 1
            if m == 0:
                v = c
                while j < n and bits[j][0] == 0:
                    v |= bits[j][1] << (j - i)
                    j += 1
                parts.append(z3.BitVecVal(v, j - i))
            elif m & (m - 1) == 0 and not c:
                e, k = self.atoms[m.bit_length() - 1]
                while j < n and not bits[j][1] and bits[j][0] and bits[j][0] & (bits[j][0] - 1) == 0:
                    e2, k2 = self.atoms[bits[j][0].bit_length() - 1]
                    if e2.get_id() != e.get_id() or k2 != k + j - i:
                        break
                    j += 1
                parts.append(e if j - i == e.size() else z3.Extract(k + j - i - 1, k, e))
            else:
                parts.append(self.term1(m, c))
            i = j
        parts.reverse()
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    LIN = frozenset((z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT,
                     z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR, z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_ITE, z3.Z3_OP_BMUL,
                     z3.Z3_OP_BNEG, z3.Z3_OP_BADD))

    def rebuild(self, e):
        """same operator, canonical arguments"""
        ch = e.children()
        if not ch:
            return self.build(self.bits(e)) if e.get_id() in DEFS else e
        nc = [self.canon(c) for c in ch]
        if all(a.get_id() == b.get_id() for a, b in zip(ch, nc)):
            return e
        return z3.simplify(e.decl()(*nc)) if e.decl().arity() == len(nc) else e.decl()(*nc)

    def canon(self, e):
        key = (e.get_id(), self.abstract)
        r = self.cmemo.get(key)
        if r is None:
            r = self.canon_(e)
            self.keep.append(e)
            self.keep.append(r)
            self.cmemo[key] = r
        return r

    def canon_(self, e):
        if z3.is_bv(e):
            if e.decl().kind() in self.LIN or e.get_id() in DEFS:
                return self.build(self.bits(e))
            return self.rebuild(e)
        if not z3.is_bool(e):
            return self.rebuild(e) if e.num_args() else e
        k = e.decl().kind()
        if k == z3.Z3_OP_EQ and z3.is_bv(e.arg(0)):
            a, b = self.bits(e.arg(0)), self.bits(e.arg(1))
            d = set((x[0] ^ y[0], x[1] ^ y[1]) for x, y in zip(a, b)) - {(0, 0)}
            if not d:
                return z3.BoolVal(True)
            if (0, 1) in d:
                return z3.BoolVal(False)
            if any(m & (m - 1) or c for m, c in a + b if m):
                return z3.And([self.term1(m, 0) == c for m, c in sorted(d)])
            return self.build(a) == self.build(b)
        if not e.num_args():
            return e
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            return (z3.And if k == z3.Z3_OP_AND else z3.Or)([self.canon(c) for c in e.children()])
        return self.rebuild(e)


def linear_table(vals):
    """vals[i] = vals[0] ^ XOR of vals[2^j]^vals[0] over the set bits of i?"""
    n = len(vals)
    if n < 2 or n & (n - 1):
        return False
    z = vals[0]
    for i in range(1, n):
        low = i & -i
        if low != i and (vals[i] ^ z) != (vals[low] ^ z) ^ (vals[i ^ low] ^ z):
            return False
    return True
