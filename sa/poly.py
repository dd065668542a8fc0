"""Polynomials over named integer / field symbols.

A Poly is sum(coef * monomial) / 2**sh.  Monomials are flat tuples
(sym, exp, sym, exp, ...) sorted by symbol id.  Symbols are interned in one
table; the same expression always gets the same symbol (hash-consing), which is
what makes two syntactically different computations of one quantity compare
equal.
"""
P = 2**448 - 2**224 - 1
L = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d


class Sym:
    __slots__ = ("id", "kind", "args", "lo", "hi", "boolean", "nz", "idem", "base", "level", "name")

    def __init__(self, id, kind, args, lo, hi, nz):
        self.id, self.kind, self.args, self.lo, self.hi, self.nz = id, kind, args, lo, hi, nz
        self.boolean = lo == 0 and hi == 1
        self.base = id
        self.level = 0

    def __repr__(self):
        return sname(self.id)


SYMS = []
INTERN = {}


def intern(kind, args, lo=None, hi=None, nz=False):
    k = (kind, args)
    r = INTERN.get(k)
    if r is not None:
        s = SYMS[r]
        if lo is not None and s.lo is not None:
            if lo > s.lo:
                s.lo = lo
            if hi < s.hi:
                s.hi = hi
        return r
    i = len(SYMS)
    SYMS.append(Sym(i, kind, args, lo, hi, nz))
    INTERN[k] = i
    return i


def sname(i):
    s = SYMS[i]
    if s.kind in ("in", "fe", "pl"):
        return str(s.args[0])
    if s.kind == "mod":
        return "mod%d<%s>" % (s.args[0], Poly_from_key(s.args[1]).short())
    if s.kind == "ind":
        return "[%s=%d]" % (sname(s.args[0]), s.args[1])
    return "%s#%d" % (s.kind, i)


class Poly:
    __slots__ = ("t", "sh", "_key")

    def __init__(self, t, sh=0):
        self.t = t
        self.sh = sh
        self._key = None

    # -- construction --
    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def sym(i, e=1):
        return Poly({(i, e): 1})

    def key(self):
        if self._key is None:
            p = self.norm()
            self._key = (frozenset(p.t.items()), p.sh)
        return self._key

    def norm(self):
        sh = self.sh
        if sh == 0:
            return self
        g = 0
        for c in self.t.values():
            g |= c
            if g & 1:
                return self
        if not self.t:
            return Poly({}, 0)
        k = (g & -g).bit_length() - 1
        if k > sh:
            k = sh
        return Poly({m: c >> k for m, c in self.t.items()}, sh - k)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_val(self):
        c = self.t.get((), 0)
        if self.sh:
            assert c % (1 << self.sh) == 0, "non-integral constant"
            c >>= self.sh
        return c

    def is_zero(self):
        return not self.t

    def syms(self):
        s = set()
        for m in self.t:
            s.update(m[::2])
        return s

    def short(self):
        if len(self.t) > 8:
            return "{%d terms}" % len(self.t)
        out = []
        for m, c in self.t.items():
            mm = "*".join(sname(m[i]) + ("^%d" % m[i + 1] if m[i + 1] != 1 else "") for i in range(0, len(m), 2))
            cs = str(c) if abs(c) < 10**9 else hex(c)
            out.append(cs + ("*" + mm if mm else ""))
        return " + ".join(out or ["0"]) + ("/2^%d" % self.sh if self.sh else "")

    __repr__ = short

    # -- ring operations (no modulus) --
    def __add__(a, b):
        if not b.t:
            return a
        if not a.t:
            return b
        if a.sh != b.sh:
            if a.sh < b.sh:
                a, b = b, a
            d = a.sh - b.sh
            t = dict(a.t)
            for m, c in b.t.items():
                v = t.get(m, 0) + (c << d)
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
            return Poly(t, a.sh if t else 0)
        if len(a.t) < len(b.t):
            a, b = b, a
        t = dict(a.t)
        for m, c in b.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t, a.sh if t else 0)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()}, self.sh)

    def __sub__(a, b):
        return a + (-b)

    def scale(self, k):
        if k == 0:
            return Poly({})
        return Poly({m: c * k for m, c in self.t.items()}, self.sh)

    def shl(self, k):
        if k <= self.sh:
            return Poly(self.t, self.sh - k)
        return Poly({m: c << (k - self.sh) for m, c in self.t.items()}, 0)

    def shr(self, k):
        """exact division by 2^k (as a rational polynomial)"""
        return Poly(self.t, self.sh + k).norm() if self.t else self

    def __mul__(a, b):
        if len(a.t) > len(b.t):
            a, b = b, a
        t = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                for m, f in mono_mul(m1, m2):
                    v = t.get(m, 0) + c1 * c2 * f
                    if v:
                        t[m] = v
                    else:
                        t.pop(m, None)
        return Poly(t, a.sh + b.sh).norm()

    def modred(self, m, floor_sh=True):
        """reduce coefficients modulo an odd modulus m (removes the denominator)"""
        t = {}
        inv = pow(pow(2, self.sh, m), -1, m) if self.sh else 1
        for mm, c in self.t.items():
            v = c * inv % m
            if v:
                t[mm] = v
        return Poly(t, 0)

    def eq(self, o):
        return (self - o).is_zero()

    def subst1(self, s, q, mod=None):
        """replace symbol s by polynomial q (small exponents only)"""
        rest, byexp = {}, {}
        for m, c in self.t.items():
            hit = False
            for i in range(0, len(m), 2):
                if m[i] == s:
                    byexp.setdefault(m[i + 1], {})[m[:i] + m[i + 2:]] = c
                    hit = True
                    break
            if not hit:
                rest[m] = c
        r = Poly(rest, self.sh)
        pw = {}
        for e in sorted(byexp):
            qe = q
            if e != 1:
                qe = poly_pow(q, e, mod)
            r = r + Poly(byexp[e], self.sh) * qe
        r = r.norm()
        return r.modred(mod) if mod else r


def Poly_from_key(k):
    return Poly(dict(k[0]), k[1])


def mono_mul(m1, m2):
    """product of monomials -> list of (mono, factor); applies idempotence of
    booleans, orthogonality of indicators, Fermat exponent folding."""
    if not m1:
        return ((m2, 1),)
    if not m2:
        return ((m1, 1),)
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    fam = False
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a < b:
            out.append(a)
            out.append(m1[i + 1])
            i += 2
        elif b < a:
            out.append(b)
            out.append(m2[j + 1])
            j += 2
        else:
            s = SYMS[a]
            if s.boolean:
                out.append(a)
                out.append(1)
            else:
                e = m1[i + 1] + m2[j + 1]
                if s.kind in FIELD_KINDS:
                    e = fold_exp(s, e)
                if e:
                    out.append(a)
                    out.append(e)
            i += 2
            j += 2
    out.extend(m1[i:])
    out.extend(m2[j:])
    m = tuple(out)
    if HAS_FAM:
        return fam_reduce(m)
    return ((m, 1),)


FIELD_KINDS = {"fe", "pl", "W", "gx", "gy", "gz", "rep"}
HAS_FAM = False


def fold_exp(s, e):
    if s.nz:
        e %= (P - 1)
        if e > (P - 1) // 2:
            e -= P - 1
        return e
    if e > P - 1:
        e = (e - 1) % (P - 1) + 1
    return e


def enable_fam():
    global HAS_FAM
    HAS_FAM = True


def fam_reduce(m):
    """indicator families: [S=v][S=w]=0 (v!=w); S^e [S=v] = v^e [S=v]"""
    fams = {}
    for i in range(0, len(m), 2):
        s = SYMS[m[i]]
        if s.kind == "ind":
            b = s.args[0]
            if b in fams:
                return ()
            fams[b] = s.args[1]
    if not fams:
        return ((m, 1),)
    f = 1
    out = []
    ch = False
    for i in range(0, len(m), 2):
        if m[i] in fams:
            f *= fams[m[i]] ** m[i + 1]
            ch = True
        else:
            out.append(m[i])
            out.append(m[i + 1])
    if f == 0:
        return ()
    return ((tuple(out), f),) if ch else ((m, 1),)


def poly_pow(q, e, mod=None):
    if e == 0:
        return Poly.const(1)
    if len(q.t) == 1 and q.sh == 0:
        (m, c), = q.t.items()
        if e < 0:
            assert mod
            c = pow(c, e, mod)
        else:
            c = pow(c, e, mod) if mod else c ** e
        out = []
        for i in range(0, len(m), 2):
            s = SYMS[m[i]]
            x = m[i + 1] if s.boolean else m[i + 1] * e
            if s.kind in FIELD_KINDS:
                x = fold_exp(s, x)
            if x:
                out += [m[i], x]
        return Poly({tuple(out): c})
    assert 0 < e <= 64, "power of a multi-term polynomial"
    r = None
    b = q
    while e:
        if e & 1:
            r = b if r is None else r * b
            if mod:
                r = r.modred(mod)
        e >>= 1
        if e:
            b = b * b
            if mod:
                b = b.modred(mod)
    return r


def psum(ps):
    sh = max((p.sh for p in ps), default=0)
    t = {}
    for p in ps:
        d = sh - p.sh
        for m, c in p.t.items():
            v = t.get(m, 0) + (c << d)
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    return Poly(t, sh).norm()


def interval(p):
    """interval of an integer polynomial by term-wise evaluation -> (lo, hi) (ceil/floor: the value is an integer), or None"""
    lo = hi = 0
    for m, c in p.t.items():
        if not m:
            lo += c
            hi += c
            continue
        a = b = 1
        for i in range(0, len(m), 2):
            s = SYMS[m[i]]
            if s.lo is None:
                return None
            e = m[i + 1]
            l, h = s.lo, s.hi
            if e != 1:
                if e < 0 or l < 0 or e > 64:
                    return None
                l, h = l ** e, h ** e
            if a >= 0 and l >= 0:
                a, b = a * l, b * h
            else:
                xs = (a * l, a * h, b * l, b * h)
                a, b = min(xs), max(xs)
        if c >= 0:
            lo += c * a
            hi += c * b
        else:
            lo += c * b
            hi += c * a
    if p.sh:
        lo = -((-lo) >> p.sh)
        hi = hi >> p.sh
    return lo, hi
