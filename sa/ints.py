"""Abstract machine integers: exact polynomial + interval (+ linear equalities)."""
from itertools import product
from . import poly as PL
from .poly import Poly, SYMS, intern, interval, Poly_from_key

SMALL = 40


class IV:
    __slots__ = ("p", "lo", "hi", "ref")

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi, self.ref = p, lo, hi, False

    def __repr__(self):
        return "IV(%s in [%s,%s])" % (self.p.short(), sh(self.lo), sh(self.hi))

    def refine(self):
        if not self.ref:
            self.ref = True
            r = interval(self.p)
            if r:
                self.lo = max(self.lo, r[0])
                self.hi = min(self.hi, r[1])
        return self


def sh(x):
    return str(x) if abs(x) < 10**7 else hex(x)


def pol(x):
    return Poly.const(x) if isinstance(x, int) else x.p


def rng(x):
    return (x, x) if isinstance(x, int) else (x.lo, x.hi)


# ---------------------------------------------------------------- equalities
CASE_ID = [0]


class Facts:
    def __init__(self, parent=None):
        self.parent = parent
        CASE_ID[0] += 1
        self.cid = CASE_ID[0]
        self.eqs = []           # list of Poly == 0
        self.solved = {}        # sym -> Poly
        self.idx = {}           # sym -> [eq index]
        self.keys = set()
        self.pri = []           # indices of the defining equations of the symbols fixed by a case

    def add(self, p):
        p = p.norm()
        if p.is_zero():
            return
        k = p.key()
        if k in self.keys:
            return
        self.keys.add(k)
        i = len(self.eqs)
        self.eqs.append(p)
        for s in p.syms():
            self.idx.setdefault(s, []).append(i)
        r = self.reduce(p)
        piv = self.pivot(r)
        if piv is not None:
            s, c = piv
            # s = -(r - c s)/c
            rest = r - Poly({(s, 1): r.t[(s, 1)]}, r.sh)
            q = rest.scale(-1 if c > 0 else 1)
            a = abs(c)
            # value of coefficient is c/2^sh, a is a power of two
            q = Poly(q.t, 0)
            q = q.shr(a.bit_length() - 1)
            self.solved[s] = q

    def define(self, p):
        f = self
        while f is not None:
            f.add(p)
            f = f.parent

    def pivot(self, p):
        best = None
        prod = set()
        for m in p.t:
            if len(m) > 2 or (m and m[1] != 1):
                prod.update(m[::2])
        for m, c in p.t.items():
            if len(m) == 2 and m[1] == 1 and m[0] not in prod:
                a = abs(c)
                if a & (a - 1):
                    continue
                s = SYMS[m[0]]
                rank = (s.kind == "mod", s.kind == "nm", m[0])
                if s.kind not in ("mod", "nm", "opq"):
                    continue
                if best is None or rank > best[0]:
                    best = (rank, m[0], c)
        return (best[1], best[2]) if best else None

    def reduce(self, p):
        n = 0
        while True:
            cand = [s for s in p.syms() if s in self.solved]
            if not cand:
                return p
            s = max(cand)
            p = p.subst1(s, self.solved[s])
            n += 1
            if n > 4000:
                return p


FACTS = Facts()


def reset():
    global FACTS
    FACTS = Facts()


def facts():
    return FACTS


def digit_interval(p):
    """interval of p, bounding each difference mod_k<V> - mod_j<V> (a digit of V) as one quantity"""
    grp = {}
    for m, c in p.t.items():
        if len(m) == 2 and m[1] == 1 and SYMS[m[0]].kind == "mod":
            k, v = SYMS[m[0]].args
            grp.setdefault((v, abs(c)), []).append((k, c, m))
    for m, c in p.t.items():
        # a whole value takes the place of its topmost remainder
        if len(m) == 2 and m[1] == 1 and SYMS[m[0]].kind != "mod" and SYMS[m[0]].lo == 0:
            g = grp.get((Poly.sym(m[0]).key(), abs(c)))
            if g is not None:
                g.append((SYMS[m[0]].hi.bit_length(), c, m))
    cut = []
    lo = hi = 0
    for (v, a), ts in grp.items():
        ts.sort(reverse=True)
        while len(ts) >= 2:
            (k, c, m), (j, d, n) = ts[0], ts[1]
            if c == -d:
                w = a * ((1 << k) - (1 << j))
                if c > 0:
                    hi += w
                else:
                    lo -= w
                cut += [m, n]
                ts = ts[2:]
            else:
                ts = ts[1:]
    if not cut:
        return interval(p)
    r = interval(Poly({m: c for m, c in p.t.items() if m not in cut}, 0))
    if r is None:
        return None
    lo, hi = lo + r[0], hi + r[1]
    return -((-lo) >> p.sh), hi >> p.sh


def expand_nm(p, rounds=5000):
    """replace named quantities by their (unconditional) definitions"""
    if rounds == 1:
        for s in [m[0] for m in p.t if len(m) == 2 and m[1] == 1 and SYMS[m[0]].kind == "nm" and SYMS[m[0]].args[1] == 0]:
            if not any(s in m[::2] and (len(m) > 2 or m[1] != 1) for m in p.t):
                p = p.subst1(s, Poly_from_key(SYMS[s].args[0]))
        return p
    for _ in range(rounds):
        cand = [m[0] for m in p.t if len(m) == 2 and m[1] == 1 and SYMS[m[0]].kind == "nm" and SYMS[m[0]].args[1] == 0]
        if not cand:
            return p
        s = max(cand)
        if any(s in m[::2] and len(m) > 2 or s in m[::2] and m[1] != 1 for m in p.t):
            return p
        p = p.subst1(s, Poly_from_key(SYMS[s].args[0]))
        if len(p.t) > 5000:
            return p
    return p


def linear_coef(p, s):
    return p.t.get((s, 1))


def forms(p, depth=2, limit=40):
    """equivalent forms of p modulo the equalities, to tighten intervals"""
    out = [p]
    seen = {p.key()}
    r = FACTS.reduce(p)
    if r.key() not in seen:
        seen.add(r.key())
        out.append(r)
    frontier = list(out)
    for _ in range(depth):
        nxt = []
        for q in frontier:
            eqi = set()
            for s in q.syms():
                eqi.update(FACTS.idx.get(s, ()))
            pri = [i for i in FACTS.pri if i in eqi]
            for i in pri + [i for i in sorted(eqi, reverse=True) if i not in pri][:12]:
                e = FACTS.eqs[i]
                cands = [s for s in e.syms() if (s, 1) in q.t and (s, 1) in e.t]
                cands.sort()
                for s in ([cands[0], cands[-1]] if len(cands) > 1 else cands):
                    ce, cq = e.t[(s, 1)], q.t[(s, 1)]
                    # q - (cq/2^qsh)/(ce/2^esh) * e   need power-of-two ratio denominators
                    a = abs(ce)
                    from math import gcd
                    g = gcd(cq, ce)
                    num, den = cq // g, ce // g
                    if den < 0:
                        num, den = -num, -den
                    if den & (den - 1):
                        continue
                    x = Poly(e.t, 0).scale(-num)
                    x = Poly(x.t, q.sh + den.bit_length() - 1)
                    n = (q + x).norm()
                    k = n.key()
                    if k not in seen:
                        seen.add(k)
                        nxt.append(n)
                        out.append(n)
                        if len(out) >= limit:
                            return out
        frontier = nxt
    return out


def fin_bound(p):
    """exact range of a polynomial over few small quantities"""
    bs = bases([p], 64)
    if bs is None:
        return None
    try:
        vs = [evalp(p, dict(zip(bs, a))) for a in product(*[range(SYMS[b].lo, SYMS[b].hi + 1) for b in bs])]
    except AssertionError:
        return None
    return min(vs), max(vs)


def deep_bound(p, lo=None, hi=None, split=3):
    """sound interval of p using equalities and case splits on booleans"""
    BIG = 1 << 5000
    l, h = (-BIG if lo is None else lo), (BIG if hi is None else hi)
    for q in forms(p):
        r = interval(q)
        if r:
            l, h = max(l, r[0]), min(h, r[1])
        if l >= h:
            return l, h
    for m, c in sorted(p.t.items(), key=lambda x: -abs(x[1]))[:2]:
        # the quotient with the largest coefficient by its definition
        if len(m) != 2 or m[1] != 1 or SYMS[m[0]].kind != "nm" or SYMS[m[0]].args[1] != 0 or len(p.t) > 40:
            continue
        q = p.subst1(m[0], Poly_from_key(SYMS[m[0]].args[0]))
        r = fin_bound(q) or interval(q)
        if r:
            l, h = max(l, r[0]), min(h, r[1])
        if l >= h:
            return l, h
    if split > 0 and h - l >= 1:
        cand = set()
        for q in forms(p, 1, 12):
            for s in q.syms():
                if SYMS[s].boolean and SYMS[s].kind in ("nm", "mod", "eq0"):
                    cand.add(s)
        cand = sorted(cand)[-3:]
        for s in cand:
            u = None
            for v in (0, 1):
                r = case_bound(p, s, v, l, h, split - 1)
                if r is None:
                    continue
                u = r if u is None else (min(u[0], r[0]), max(u[1], r[1]))
            if u is None:
                return l, l
            l, h = max(l, u[0]), min(h, u[1])
            if l >= h:
                break
    return l, h


class Case:
    """temporarily fix boolean symbols"""

    def __init__(self, asg, near=None):
        self.asg = asg
        self.near = near

    def __enter__(self):
        global FACTS
        self.saved = FACTS
        self.ranges = []
        f = Facts(FACTS)
        self.bad = False
        eqs = self.saved.eqs
        if self.near is not None and len(eqs) > 60:
            seen = set()
            fr = set(self.near.syms()) | set(self.asg)
            done = set()
            for _ in range(3):
                nxt = set()
                for s in fr:
                    if s in done:
                        continue
                    done.add(s)
                    for i in self.saved.idx.get(s, ()):
                        if i not in seen:
                            seen.add(i)
                            nxt |= eqs[i].syms()
                fr = nxt
                if len(seen) > 60:
                    break
            eqs = [eqs[i] for i in sorted(seen)]
        for e in eqs:
            for s, v in self.asg.items():
                if s in e.syms():
                    e = e.subst1(s, Poly.const(v))
            r = interval(e)
            if r and (r[0] > 0 or r[1] < 0):
                self.bad = True
            f.add(e)
        FACTS = f
        for s, v in self.asg.items():
            sy = SYMS[s]
            if sy.kind == "nm" and sy.args[1] == 0:
                n = len(f.eqs)
                f.add(Poly_from_key(sy.args[0]) - Poly.const(v))
                if len(f.eqs) > n:
                    f.pri.append(n)
                else:
                    k = (Poly_from_key(sy.args[0]) - Poly.const(v)).norm().key()
                    f.pri += [i for i, e in enumerate(f.eqs) if len(e.t) == len(k[0]) and e.key() == k]
            if sy.kind == "eq0":
                d = Poly_from_key(sy.args[0])
                if v == 1:
                    f.add(d)
                    r = interval(d)
                    if r and (r[0] > 0 or r[1] < 0):
                        self.bad = True
                elif len(d.t) == 1:
                    (m, c), = d.t.items()
                    if len(m) == 2 and m[1] == 1 and SYMS[m[0]].lo == 0:
                        self.ranges.append((m[0], 0))
                        SYMS[m[0]].lo = 1
        return self

    def __exit__(self, *a):
        global FACTS
        FACTS.parent = None
        FACTS = self.saved
        for s, lo in self.ranges:
            SYMS[s].lo = lo


def case_bound(p, s, v, l, h, split):
    q = p.subst1(s, Poly.const(v))
    with Case({s: v}, p) as c:
        if c.bad:
            return None
        r = deep_bound(q, l, h, split)
        if r[0] > r[1]:
            return None
        return r


# ---------------------------------------------------------------- building
def mk(p, lo, hi):
    if p.is_const():
        return p.const_val()
    if lo == hi:
        FACTS.add(p - Poly.const(lo))
        return lo
    return IV(p, lo, hi)


def mkp(p):
    if p.is_const():
        return p.const_val()
    r = interval(p)
    if r is None:
        return IV(p, -(1 << 5000), 1 << 5000)
    x = mk(p, *r)
    if isinstance(x, IV):
        x.ref = True
    return x


def new_sym(kind, args, lo, hi):
    i = intern(kind, args, lo, hi)
    return IV(Poly.sym(i), SYMS[i].lo, SYMS[i].hi)


def fresh_in(name, lo, hi):
    return new_sym("in", (name,), lo, hi)


def tighten(x, deep=True):
    """improve the interval of x"""
    if isinstance(x, int):
        return x
    x.refine()
    if x.lo == x.hi:
        return mk(x.p, x.lo, x.hi)
    if deep:
        l, h = deep_bound(x.p, x.lo, x.hi)
        x.lo, x.hi = max(x.lo, l), min(x.hi, h)
        if x.lo >= x.hi:
            return mk(x.p, x.lo, x.lo)
    return x


def fits(x, lo, hi, deep=True):
    if isinstance(x, int):
        return lo <= x <= hi
    if lo <= x.lo and x.hi <= hi:
        return True
    x.refine()
    if lo <= x.lo and x.hi <= hi:
        return True
    if deep:
        l, h = deep_bound(x.p, x.lo, x.hi)
        x.lo, x.hi = max(x.lo, l), min(x.hi, h)
        return lo <= x.lo and x.hi <= hi
    return False


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    (al, ah), (bl, bh) = rng(a), rng(b)
    return mk(pol(a) + pol(b), al + bl, ah + bh)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    (al, ah), (bl, bh) = rng(a), rng(b)
    return mk(pol(a) - pol(b), al - bh, ah - bl)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    (al, ah), (bl, bh) = rng(a), rng(b)
    xs = (al * bl, al * bh, ah * bl, ah * bh)
    return mk(pol(a) * pol(b), min(xs), max(xs))


def modp(p, k, lo=None, hi=None):
    """p mod 2^k as IV/int"""
    M = 1 << k
    if p.is_const():
        return p.const_val() % M
    if lo is not None and 0 <= lo and hi < M:
        return name_bool(p) if k == 1 and len(p.t) > 1 and lo < hi else mk(p, lo, hi)
    r = interval(p)
    if r and 0 <= r[0] and r[1] < M:
        return mk(p, *r)
    q = p
    best = None
    for _ in range(200):
        q = reduce_coefs(q, k)
        if q.is_const():
            return q.const_val() % M
        r = interval(q)
        if r and 0 <= r[0] and r[1] < M:
            return mk(q, *r)
        best = q
        # expand the newest eligible mod symbol
        cand = -1
        for m in q.t:
            for i in range(0, len(m), 2):
                s = SYMS[m[i]]
                if s.kind == "mod" and m[i] > cand and (s.args[1][1] == 0 or (len(q.t) == 1 and q.sh == 0)):
                    if s.args[0] >= k + q.sh:
                        cand = m[i]
        if cand < 0:
            break
        q = q.subst1(cand, Poly_from_key(SYMS[cand].args[1]))
    # all wrap-arounds undone: transient under/overflow that cancels
    e = expand_mod(p, k)
    if e is not p:
        for c in (balanced(e, k), e):
            r = interval(c)
            if r and 0 <= r[0] and r[1] < M:
                return mk(c, *r)
    # pattern (A - mod(Q,j))/2^j  with A = Q or mod(Q,j')
    d = digit_pattern(p, k) or digit_pattern(best, k)
    if d is None and best.sh:
        e = expand_nm(p)
        if e is not p:
            d = digit_pattern(e, k) or digit_pattern(reduce_coefs(e, k), k)
    if len(p.t) <= 80:
        e = expand_nm(p)
        if e is not p:
            d2 = digit_pattern(expand_mod(e, k), k)
            if d is None or d2 is not None and pattern_size(d2) < pattern_size(d):
                d = d2
    if d is not None:
        if k == 1 and len(d.t) > 1:
            return name_bool(d)
        return mk(d, 0, M - 1)
    if k <= 1 or True:
        # finite-domain evaluation
        f = finite_apply(lambda v: v % M, [best])
        if f is not None:
            return f
    x = new_sym("mod", (k, best.key()), 0, M - 1)
    return x


def pattern_size(d):
    n = len(d.t)
    for s in d.syms():
        if SYMS[s].kind == "mod":
            for m, c in SYMS[s].args[1][0]:
                n += 1
                if any(SYMS[x].kind == "nm" for x in m[::2]):
                    n += 2
    return n


def expand_mod(p, k):
    """polynomial congruent to p modulo 2^k with every mod-symbol whose coefficient
    allows it replaced by its argument (carry chains telescope)"""
    for _ in range(2000):
        p = reduce_coefs(p, k)
        val = {}
        for m, c in p.t.items():
            v = (c & -c).bit_length() - 1
            for i in range(0, len(m), 2):
                if SYMS[m[i]].kind == "mod":
                    if m[i + 1] != 1 or v + SYMS[m[i]].args[0] < k + p.sh:
                        val[m[i]] = False
                    else:
                        val.setdefault(m[i], True)
        cand = [s for s, ok in val.items() if ok]
        if not cand:
            return p
        s = max(cand)
        p = p.subst1(s, Poly_from_key(SYMS[s].args[1]))
    return p


def balanced(p, k):
    """coefficients of a polynomial modulo 2^k moved to (-2^(k-1), 2^(k-1)]"""
    M = 1 << (k + p.sh)
    t = {}
    for m, c in p.t.items():
        c %= M
        if 2 * c > M:
            c -= M
        if c:
            t[m] = c
    return Poly(t, p.sh).norm()


def unwrap_mod(V, k):
    """V is known to lie in [0,2^k): try to find a polynomial equal to V without
    discarded carries -> (poly, lo, hi) or None"""
    X = balanced(expand_mod(V, k), k)
    if X.eq(V):
        return None
    cands = [X, FACTS.reduce(X)]
    M = 1 << k
    for m, c in X.t.items():
        # the same residue with a carry/borrow bit counted the other way
        if len(m) == 2 and SYMS[m[0]].boolean and X.sh == 0:
            cands.append(X + Poly({m: -M if c > 0 else M}))
    for c in cands[:6]:
        l, h = deep_bound(c)
        if 0 <= l and h < M:
            FACTS.add(V - c)
            return c, l, h
    return None


def reduce_coefs(p, k):
    M = 1 << (k + p.sh)
    t = {}
    for m, c in p.t.items():
        c %= M
        if c:
            t[m] = c
    if p.sh == 0:
        return Poly(t, 0)
    return Poly(t, p.sh).norm()


def digit_pattern(p, k):
    j = p.sh
    if j == 0:
        return None
    for m, c in p.t.items():
        if len(m) == 2 and m[1] == 1:
            s = SYMS[m[0]]
            if s.kind == "mod" and s.args[0] == j and c % (1 << (k + j)) == (1 << (k + j)) - 1:
                Q = Poly_from_key(s.args[1])
                rest = Poly({mm: cc for mm, cc in p.t.items() if mm != m}, 0)
                if rest.eq(Q):
                    hi = j + k
                elif j >= 8 and k >= 8 and s.args[1][1] == 0 and len(rest.t) <= 64 and reduce_coefs(expand_mod(rest, j), j).eq(reduce_coefs(Q, j)):
                    # the quotient digit of a value congruent to the argument of the mod symbol
                    Q = rest
                    hi = j + k
                elif len(rest.t) == 1:
                    (mm, cc), = rest.t.items()
                    if cc != 1 or len(mm) != 2 or mm[1] != 1:
                        continue
                    s2 = SYMS[mm[0]]
                    if s2.kind != "mod" or s2.args[1] != s.args[1]:
                        continue
                    hi = min(j + k, s2.args[0])
                else:
                    continue
                a = modp(Q, hi)
                return (pol(a) - Poly.sym(m[0])).shr(j)
    return None


def wrap(x, bits, signed, deep=False):
    if isinstance(x, int):
        x &= (1 << bits) - 1
        if signed and x >> (bits - 1):
            x -= 1 << bits
        return x
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if fits(x, lo, hi, deep):
        return x
    if x.hi - x.lo <= 3 and len(x.p.t) > 1:
        y = name_small(x)
        if y is not None:
            def f(v):
                v &= (1 << bits) - 1
                return v - (1 << bits) if signed and v >> (bits - 1) else v
            r = finite_apply(f, [pol(y)])
            if r is not None:
                return r
    if signed:
        y = modp(x.p + Poly.const(1 << (bits - 1)), bits)
        return sub(y, 1 << (bits - 1))
    return modp(x.p, bits)


def shr_(x, k):
    """floor(x / 2^k)"""
    if isinstance(x, int):
        return x >> k
    if k == 0:
        return x
    x.refine()
    if x.lo < 0 and x.hi < 1 << k and x.lo >= -1 << k:
        bs = bases([x.p], 17)
        if bs and len(bs) == 1:  # the sign of a small digit: decided by the digit's value
            r = finite_apply(lambda v: v >> k, [x.p])
            if r is not None:
                return r
    lo = modp(x.p, k, x.lo, x.hi)
    p = (x.p - pol(lo)).shr(k)
    return mk(p, x.lo >> k, x.hi >> k)


def shl_(x, k, bits, signed):
    if isinstance(x, int):
        return wrap(x << k, bits, signed)
    y = IV(x.p.shl(k), x.lo << k, x.hi << k)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if fits(y, lo, hi, False):
        return y
    if k < bits and not signed:
        l = modp(x.p, bits - k, x.lo, x.hi)
        if isinstance(l, int):
            return l << k
        return mk(l.p.shl(k), l.lo << k, l.hi << k)
    return wrap(y, bits, signed)


# ---------------------------------------------------------------- finite domains
def base_of(s):
    sy = SYMS[s]
    if sy.kind == "ind":
        return sy.args[0]
    if sy.lo is not None and sy.hi - sy.lo <= SMALL:
        return s
    return None


def bases(polys, limit=512):
    b = set()
    for p in polys:
        for s in p.syms():
            x = base_of(s)
            if x is None:
                return None
            b.add(x)
    n = 1
    for s in b:
        n *= SYMS[s].hi - SYMS[s].lo + 1
        if n > limit:
            return None
    return sorted(b)


def evalp(p, asg):
    tot = 0
    for m, c in p.t.items():
        v = c
        for i in range(0, len(m), 2):
            s = SYMS[m[i]]
            if m[i] in asg:
                x = asg[m[i]]
            else:
                x = 1 if asg[s.args[0]] == s.args[1] else 0
            v *= x ** m[i + 1]
            if not v:
                break
        tot += v
    assert tot % (1 << p.sh) == 0
    return tot >> p.sh


def indicator(s, v):
    """Poly of [s == v]"""
    sy = SYMS[s]
    if v < sy.lo or v > sy.hi:
        return Poly({})
    if sy.boolean:
        return Poly.sym(s) if v == 1 else Poly.const(1) - Poly.sym(s)
    if sy.hi == sy.lo + 1:
        q = Poly.sym(s) - Poly.const(sy.lo)
        return q if v == sy.hi else Poly.const(1) - q
    PL.enable_fam()
    return Poly.sym(intern("ind", (s, v), 0, 1))


def finite_apply(f, ps, limit=512):
    """f over values of polys with finite joint domain -> IV/int or None"""
    bs = bases(ps, limit)
    if bs is None:
        return shannon_apply(f, ps[0]) if len(ps) == 1 else None
    doms = [range(SYMS[b].lo, SYMS[b].hi + 1) for b in bs]
    acc = Poly({})
    vals = []
    tab = {}
    ex = [(i, j) for i, x in enumerate(bs) for j, y in enumerate(bs) if i < j and y in EXCL.get(x, ())]
    try:
        for asg in product(*doms):
            if ex and any(asg[i] and asg[j] for i, j in ex):
                continue
            d = dict(zip(bs, asg))
            tab[asg] = f(*[evalp(p, d) for p in ps])
    except AssertionError:
        return None
    vs = set(tab.values())
    if len(vs) == 1:
        return vs.pop()
    # affine in a single base?
    base_v = min(vs)
    for asg, v in tab.items():
        if v == base_v:
            continue
        q = Poly.const(v - base_v)
        for b, x in zip(bs, asg):
            q = q * indicator(b, x)
        acc = acc + q
    acc = collapse(acc + Poly.const(base_v))
    if ex:
        acc = fold_unions(acc)
    return mk(acc, min(vs), max(vs))


def shannon_apply(f, p, limit=256):
    """f over a polynomial in 0/1 symbols by case distinction, symbol by symbol -> IV/int or None"""
    if len(p.t) > 128:
        return None
    ss = p.syms()
    if len(ss) > 64:
        return None
    for s in ss:
        sy = SYMS[s]
        if not sy.boolean or sy.kind == "ind":
            return None
    memo = {}
    left = [limit]

    def go(q):
        if q.is_const():
            v = f(q.const_val())
            return Poly.const(v), v, v
        k = q.key()
        r = memo.get(k)
        if r is None:
            left[0] -= 1
            if left[0] < 0:
                return None
            cnt = {}
            for m in q.t:
                for s in m[::2]:
                    cnt[s] = cnt.get(s, 0) + 1
            s = max(cnt, key=lambda x: (cnt[x], -x))
            q1 = q.subst1(s, Poly.const(1))
            for y in EXCL.get(s, ()):
                if y in cnt:
                    q1 = q1.subst1(y, Poly.const(0))
            a, b = go(q1), go(q.subst1(s, Poly.const(0)))
            if a is None or b is None:
                return None
            r = (b[0] + Poly.sym(s) * (a[0] - b[0]), min(a[1], b[1]), max(a[2], b[2]))
            if len(r[0].t) > 256:
                return None
            memo[k] = r
        return r
    r = go(p)
    if r is None:
        return None
    return mk(collapse(r[0]), r[1], r[2])


def collapse(p):
    """canonical form w.r.t. indicator families: fold to affine in the base when possible"""
    fam = {}
    sh0 = p.sh
    p = Poly(p.t, 0)
    if EXCL:
        xs = [s for s in p.syms() if s in EXCL]
        if len(xs) > 1:
            p = Poly({m: c for m, c in p.t.items() if not any(y in EXCL.get(x, ()) for x in m[::2] for y in m[::2])}, 0)
    for s in p.syms():
        if SYMS[s].kind == "ind":
            fam.setdefault(SYMS[s].args[0], []).append(s)
    # lower digits of a value whose residue is already split into cases
    for b in sorted(fam):
        if SYMS[b].kind != "mod":
            continue
        for s in sorted(p.syms()):
            sy = SYMS[s]
            ind = None
            if sy.kind == "ind":
                ind, sy = sy.args[1], SYMS[sy.args[0]]
            if sy.kind == "mod" and sy.args[1] == SYMS[b].args[1] and sy.args[0] < SYMS[b].args[0] and (len(p.t) < 200):
                M = 1 << sy.args[0]
                q = Poly({})
                for v in range(SYMS[b].lo, SYMS[b].hi + 1):
                    x = v % M if ind is None else int(v % M == ind)
                    if x:
                        q = q + indicator(b, v).scale(x)
                p = Poly(p.subst1(s, q).t, 0)
    for b in sorted(fam):
        sy = SYMS[b]
        dom = range(sy.lo, sy.hi + 1)
        # group by cofactor
        co = {}
        rest = {}
        inds = {}
        for m, c in p.t.items():
            hit = None
            for i in range(0, len(m), 2):
                s = SYMS[m[i]]
                if m[i] == b or (s.kind == "ind" and s.args[0] == b):
                    hit = i
                    break
            if hit is None:
                rest[m] = c
                continue
            cof = m[:hit] + m[hit + 2:]
            d = co.setdefault(cof, {})
            s = SYMS[m[hit]]
            if s.kind == "ind" and m[hit] != b:
                d[("i", s.args[1])] = c
            else:
                d[("e", m[hit + 1])] = c
        t = rest
        out = Poly({}, 0)
        for cof, d in co.items():
            c0 = t.pop(cof, 0)
            f = {}
            for v in dom:
                x = c0 + d.get(("i", v), 0)
                for (k, e), c in d.items():
                    if k == "e":
                        x += c * v ** e
                f[v] = x
            vs = list(dom)
            beta = f[vs[1]] - f[vs[0]] if len(vs) > 1 else 0
            alpha = f[vs[0]] - beta * vs[0]
            if not all(f[v] == alpha + beta * v for v in vs):
                from collections import Counter
                alpha, beta = Counter(f.values()).most_common(1)[0][0], 0
            q = {}
            if alpha:
                q[()] = alpha
            if beta:
                q[(b, 1)] = beta
            for v in vs:
                r = f[v] - alpha - beta * v
                if r:
                    q[(intern("ind", (b, v), 0, 1), 1)] = r
            out = out + Poly(q) * Poly({cof: 1})
        p = Poly((Poly(t, 0) + out).t, 0)
    return Poly(p.t, sh0).norm()


def name_bool(p):
    """p is known to be 0/1 valued: give it a boolean symbol"""
    p = p.norm()
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and p.sh == 0 and all(SYMS[x].boolean for x in m[::2]):
            return IV(p, 0, 1)
    if p.sh == 0 and len(p.t) <= 2 and all(SYMS[x].boolean for x in p.syms()) and set(p.syms()) and len(p.syms()) == 1:
        return IV(p, 0, 1)
    return IV(Poly.sym(name_range(p, 1)), 0, 1)


def name_range(q, hi):
    """symbol for q, a quantity known to lie in 0..hi under the current assumptions"""
    global FACTS
    cid = 0
    if FACTS.parent is not None:
        cur = FACTS
        root = FACTS
        while root.parent is not None:
            root = root.parent
        FACTS = root
        try:
            l, h = deep_bound(q)
        finally:
            FACTS = cur
        if l < 0 or h > hi:
            cid = cur.cid
    i = intern("nm", (q.key(), cid), 0, hi)
    if cid:
        FACTS.add(q - Poly.sym(i))
    else:
        FACTS.define(q - Poly.sym(i))
    return i


def name_small(x, deep=True):
    """give a small-range IV a finite-domain polynomial (possibly via a named symbol); None if not small"""
    if isinstance(x, int):
        return x
    if bases([x.p]) is not None:
        return x
    if x.hi - x.lo > 1:
        y = tighten(x, deep and x.hi - x.lo <= 1000)
        if isinstance(y, int):
            return y
        x = y
    if x.hi - x.lo > SMALL:
        return None
    q = x.p - Poly.const(x.lo)
    i = name_range(q, x.hi - x.lo)
    return IV(Poly.sym(i) + Poly.const(x.lo), x.lo, x.hi)


def digit(x):
    """a remainder x - 2^k * quotient over a small quantity, named when the definition
    of the quotient shows it to be smaller than its terms suggest"""
    if len(x.p.t) > 8 or x.hi - x.lo > 1 << 10:
        return x
    if not any(len(m) == 2 and m[1] == 1 and abs(c) > 1 and SYMS[m[0]].kind == "nm" and SYMS[m[0]].boolean
               for m, c in x.p.t.items()):
        return x
    l, h = deep_bound(x.p, x.lo, x.hi)
    if h - l > SMALL or h - l >= x.hi - x.lo:
        return x
    i = name_range(x.p - Poly.const(l), h - l)
    return IV(Poly.sym(i) + Poly.const(l), l, h)


# ---------------------------------------------------------------- bit operations
def ones_runs(mask):
    out = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def wide_finite(x, lim=8):
    return isinstance(x, int) or bases([x.p], lim) is not None


def to_unsigned(x, bits):
    return wrap(x, bits, False)


def divisible(p, k):
    if p.sh:
        return False
    m = (1 << k) - 1
    return all(c & m == 0 for c in p.t.values())


def multiple(p, k):
    """p is a multiple of 2^k (digit differences included)"""
    if len(p.t) > 40:
        return False
    e = expand_mod(p, k)
    return e.is_zero()


def trailing(p):
    if p.sh:
        return 0
    g = 0
    for c in p.t.values():
        g |= c
    return (g & -g).bit_length() - 1 if g else 0


def mask_runs(a, runs, m):
    tot = 0
    for st, ln in runs:
        v = shr_(a, st) if st else a
        v = modp(pol(v), ln, *rng(v))
        tot = add(tot, mul(v, 1 << st))
    if not isinstance(tot, int):
        tot.lo, tot.hi = max(tot.lo, 0), min(tot.hi, m)
    return tot


def exclusive(op, a, b):
    """two carry/borrow bits whose sum telescopes to a quantity in 0..1 exclude each other"""
    if isinstance(a, int) or isinstance(b, int) or (a.lo, a.hi, b.lo, b.hi) != (0, 1, 0, 1):
        return None
    ea, eb = expand_nm(a.p), expand_nm(b.p)
    if ea is a.p and eb is b.p:
        return None
    s = ea + eb
    if len(s.t) >= len(ea.t) + len(eb.t) - 1:
        return None
    r = digit_interval(s)
    if r is None or r[0] < 0 or r[1] > 1:
        # the same sum with only the outermost names expanded
        s = expand_nm(a.p, 1) + expand_nm(b.p, 1)
        r = digit_interval(s)
        if r is None or r[0] < 0 or r[1] > 1:
            return None
    sa, sb = bool_sym(a.p), bool_sym(b.p)
    if sa is not None and sb is not None and sa != sb:
        EXCL.setdefault(sa, set()).add(sb)
        EXCL.setdefault(sb, set()).add(sa)
    if op == "&":
        return 0
    n = nonzero_mod(s)
    if n is not None:
        t = bool_sym(Poly.const(1) - pol(n))
        for x in (sa, sb):
            if x is not None and t is not None:
                EXCL.setdefault(x, set()).add(t)
                EXCL.setdefault(t, set()).add(x)
        return n
    r = mkp(s) if s.is_const() else name_bool(s)
    if isinstance(r, IV) and sa is not None and sb is not None and sa != sb:
        u = SYMS[bool_sym(r.p)] if bool_sym(r.p) is not None else None
        if u is not None and u.kind == "nm" and u.args[1] == 0:
            UNION[(sa, sb)] = bool_sym(r.p)
    return r


def nonzero_mod(s):
    """((X mod 2^k) + (-X mod 2^k)) / 2^k == [X != 0], for |X| < 2^k"""
    if len(s.t) != 2 or set(s.t.values()) != {1}:
        return None
    (m,), (n,) = ([x] for x in s.t)
    if len(m) != 2 or len(n) != 2 or SYMS[m[0]].kind != "mod" or SYMS[n[0]].kind != "mod":
        return None
    (j, x), (k, y) = SYMS[m[0]].args, SYMS[n[0]].args
    x, y = Poly_from_key(x), Poly_from_key(y)
    if j != k or s.sh != k or x.sh or y.sh or not reduce_coefs(x + y, k).is_zero():
        return None
    q = within(x, k)
    return None if q is None else sub(1, eq0(mkp(q)))


def within(x, k):
    """the representative of x mod 2^k that is smaller than 2^k, if there is one"""
    for q in (x, balanced(x, k)):
        r = interval(q)
        if r is None:
            continue
        c = ((r[0] + r[1]) // 2 + (1 << (k - 1))) >> k << k
        for c in (0, c):
            if max(c - r[0], r[1] - c) < 1 << k:
                return q - Poly.const(c)
    return None


def one_sided(p):
    """[X < 0], for X <= 0, as [X != 0]"""
    for s in p.syms():
        y = SYMS[s]
        if y.kind != "nm" or y.args[1]:
            continue
        e = Poly_from_key(y.args[0])
        ms = [m for m in e.t if len(m) == 2 and m[1] == 1 and SYMS[m[0]].kind == "mod"]
        if len(ms) != 1 or e.t[ms[0]] != 1 or SYMS[ms[0][0]].args[0] != e.sh:
            continue
        k = e.sh
        X = -(Poly(e.t, 0) - Poly({ms[0]: 1}))
        Q = Poly_from_key(SYMS[ms[0][0]].args[1])
        r = interval(X)
        if Q.sh or r is None or r[0] < -(1 << k) or r[1] != 0 or not reduce_coefs(Q - X, k).is_zero():
            continue
        p = p.subst1(s, Poly.const(1) - pol(eq0(mkp(X))))
    return p


UNION = {}    # exclusive boolean symbols -> symbol of their sum


def fold_unions(p):
    """x*s + x*t as x*(s or t) for exclusive s, t with a named union"""
    ss = p.syms()
    for s in ss:
        for t in EXCL.get(s, ()):
            u = UNION.get((s, t))
            if u is None or t not in ss:
                continue
            p0 = p.subst1(s, Poly({}))
            ct = p0.subst1(t, Poly.const(1)) - p0.subst1(t, Poly({}))
            p1 = p.subst1(t, Poly({}))
            if (p1.subst1(s, Poly.const(1)) - p1.subst1(s, Poly({}))).eq(ct):
                return fold_unions(p0.subst1(t, Poly({})) + ct * Poly.sym(u))
    return p


def bool_sym(p):
    if len(p.t) == 1 and not p.sh:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 2 and m[1] == 1 and SYMS[m[0]].boolean:
            return m[0]
    return None


def bitop(op, a, b, bits, signed):
    r = bitop_(op, a, b, bits, signed)
    if not isinstance(r, int) and (r.lo < 0 or r.hi > 1):
        (x, y), (u, v) = rng(a), rng(b)
        if x >= 0 and u >= 0 and y <= 1 and v <= 1:
            r = IV(r.p, 0, 1)
    return r


def bitop_(op, a, b, bits, signed):
    if isinstance(a, int) and isinstance(b, int):
        return a & b if op == "&" else a | b if op == "|" else a ^ b
    f = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}[op]
    if a is b or (not isinstance(a, int) and not isinstance(b, int) and a.p.eq(b.p)):
        return 0 if op == "^" else a
    or_ = exclusive(op, a, b)
    if or_ is not None:
        return or_
    if op == "&" and (isinstance(a, int) or isinstance(b, int)) and not signed:
        # masking with a constant: digits of the operand, without naming it
        x, m = (b, a) if isinstance(a, int) else (a, b)
        if x.lo >= 0 and m > 0 and not wide_finite(x) and x.hi > 1:
            runs = ones_runs(m & ((1 << bits) - 1))
            if len(runs) == 1 and not (runs[0][0] == 0 and x.hi <= m):
                return mask_runs(x, runs, m)
    if rng(a) in ((0, 1), (0, 0), (1, 1)) and rng(b) in ((0, 1), (0, 0), (1, 1)) and len(pol(a).t) * len(pol(b).t) <= 4 * BXLIM \
            and all(SYMS[s].boolean for s in pol(a).syms() | pol(b).syms()) and len(pol(a).syms() | pol(b).syms()) > 8:
        # too many decisions for a table
        ab_ = mkp(collapse(pol(mul(a, b))))
        return ab_ if op == "&" else sub(add(a, b), ab_ if op == "|" else mul(2, ab_))
    if op != "^" and not isinstance(a, int) and not isinstance(b, int) and rng(a) == rng(b) == (0, 1) \
            and any(SYMS[s].kind == "eq0" for s in a.p.syms() | b.p.syms()):
        a2, b2 = one_sided(a.p), one_sided(b.p)
        if a2 is not a.p or b2 is not b.p:
            return bitop(op, mkp(a2), mkp(b2), bits, signed)
    # finite joint domain
    ab = name_small(a) if not isinstance(a, int) and a.hi - a.lo <= SMALL or wide_finite(a) else None
    bb = name_small(b) if not isinstance(b, int) and b.hi - b.lo <= SMALL or wide_finite(b) else None
    if ab is not None and bb is not None:
        r = finite_apply(f, [pol(ab), pol(bb)])
        if r is not None:
            return r
    if isinstance(a, int):
        a, b, ab, bb = b, a, bb, ab
    # two-valued operand {0,-1}/{0,all ones} as mask
    full = (1 << bits) - 1
    for x, y, xb in ((a, b, ab), (b, a, bb)):
        if xb is None or isinstance(xb, int) or isinstance(y, int):
            continue
        bs = bases([xb.p], 4)
        if bs is None:
            continue
        vals = {}
        for v in finite_values(xb.p):
            vals[v] = None
        if set(v & full for v in vals) <= {0, full}:
            # xb & full == full * c
            c = finite_apply(lambda v: 1 if v & full else 0, [xb.p])
            if op == "&":
                return mul(c, y)
            if op == "|":
                m1 = -1 if signed else full
                return ite(c, m1, y)
            if op == "^":
                ny = sub(-1, y) if signed else sub(full, y)
                return ite(c, ny, y)
    if op == "&" and isinstance(b, int):
        m = b & full
        if m == full:
            return a
        if m == 0:
            return 0
        runs = ones_runs(m)
        if len(runs) <= 8 and not (signed and m >> (bits - 1)):
            return mask_runs(a, runs, m)
        if signed and m >> (bits - 1):
            # clears the complement's runs
            comp = full ^ m
            return sub(a, bitop("&", a, comp, bits, False)) if comp else a
    if op in ("|", "^"):
        if isinstance(b, int) and b == 0:
            return a
        full_s = -1 if signed else full
        if op == "^" and isinstance(b, int) and b == full_s:
            return sub(full_s, a)
        # disjoint
        for x, y in ((a, b), (b, a)):
            k = trailing(pol(x)) if not isinstance(x, int) else ((x & -x).bit_length() - 1 if x else bits)
            yl, yh = rng(y)
            if yl >= 0 and yh < (1 << k):
                return add(x, y)
            if yl >= 0 and not isinstance(y, int) and fits(y, 0, (1 << k) - 1, False):
                return add(x, y)
            if yl >= 0 and not isinstance(x, int) and multiple(x.p, yh.bit_length()):
                return add(x, y)
        if op == "|" and isinstance(b, int):
            # a | c = a + c - (a & c)
            return sub(add(a, b), bitop("&", a, b, bits, signed))
        if op == "^" and isinstance(b, int):
            return sub(add(a, b), mul(2, bitop("&", a, b, bits, signed)))
    # xor-select: x ^ (c * (x ^ y)) = c ? y : x
    if op == "^":
        for x, z in ((a, b), (b, a)):
            if isinstance(z, int):
                continue
            r = xor_select(x, z)
            if r is not None:
                return r
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, full)
    ka, kb = pol(a).key(), pol(b).key()
    args = (op, frozenset((ka, kb)))
    (al, ah), (bl, bh) = rng(a), rng(b)
    if al >= 0 and bl >= 0:
        lo = 0
        hi = min(ah, bh) if op == "&" else (1 << max(ah.bit_length(), bh.bit_length())) - 1
    x = new_sym("opq", args, lo, hi)
    OPQ_ARGS[next(iter(x.p.syms()))] = (op, a, b)
    return x


OPQ_ARGS = {}


def finite_values(p):
    bs = bases([p], 64)
    out = []
    for asg in product(*[range(SYMS[b].lo, SYMS[b].hi + 1) for b in bs]):
        out.append(evalp(p, dict(zip(bs, asg))))
    return out


def xor_select(x, z):
    for s in z.p.syms():
        o = OPQ_ARGS.get(s)
        if o and o[0] == "^":
            # z = c * s with c boolean polynomial
            t = {}
            for m, c in z.p.t.items():
                if s not in m[::2]:
                    return None
                i = m.index(s)
                if m[i + 1] != 1:
                    return None
                t[m[:i] + m[i + 2:]] = c
            c = Poly(t, z.p.sh)
            bs = bases([c], 64)
            if bs is None or not set(finite_values(c)) <= {0, 1}:
                return None
            cc = mk(c, 0, 1)
            if pol(o[1]).eq(pol(x)):
                return ite(cc, o[2], x)
            if pol(o[2]).eq(pol(x)):
                return ite(cc, o[1], x)
    return None


BXLIM = 64


def ite(c, a, b):
    """c ? a : b for c 0/1 valued"""
    if isinstance(c, int):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    pa, pb = pol(a), pol(b)
    if pa.eq(pb):
        return a
    if isinstance(a, int) and a == 1:
        r = exclusive("|", c, b)
        if r is not None:
            return r
    if isinstance(b, int) and b == 0:
        r = exclusive("&", c, a)
        if r is not None:
            return r
    p = collapse(pb + c.p * (pa - pb))
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = min(al, bl), max(ah, bh)
    if len(p.t) > BXLIM and lo == 0 and hi == 1 and all(SYMS[x].lo == 0 and SYMS[x].hi == 1 for x in p.syms()):
        # a large decision over 0/1 atoms: keep it as one named decision
        return new_sym("bx", (p.key(),), 0, 1)
    return mk(p, lo, hi)


def bnot(c):
    return sub(1, c)


# ---------------------------------------------------------------- comparisons
CONJ_HOOK = []


def or_leaves(x, out):
    """pairs (a, b) such that x == 0 exactly when a == b for all of them (x an or of exclusive ors), or False"""
    o = None
    if not isinstance(x, int) and len(x.p.t) == 1:
        (m, c), = x.p.t.items()
        if c == 1 and len(m) == 2 and m[1] == 1 and not x.p.sh and SYMS[m[0]].kind == "opq":
            o = OPQ_ARGS.get(m[0])
    if o is None or o[0] == "&":
        out.append((x, 0))
        return
    if o[0] == "^":
        out.append((o[1], o[2]))
        return
    or_leaves(o[1], out)
    or_leaves(o[2], out)


def eq0(x):
    """[x == 0] as 0/1 value"""
    if isinstance(x, int):
        return 1 if x == 0 else 0
    if len(x.p.t) == 1:
        ls = []
        or_leaves(x, ls)
        if len(ls) > 1 or (ls[0][1] != 0 if isinstance(ls[0][1], int) else True):
            if all(rng(v)[0] >= 0 for l in ls for v in l):
                for h in CONJ_HOOK:
                    r = h(ls)
                    if r is not None:
                        return r
    if x.lo > 0 or x.hi < 0:
        return 0
    x.refine()
    if x.lo > 0 or x.hi < 0:
        return 0
    r = finite_apply(lambda v: 1 if v == 0 else 0, [x.p])
    if r is not None:
        return r
    if x.lo >= -1 and x.hi - x.lo == 1 and all(SYMS[s].boolean for s in x.p.syms()):
        return sub(1, x) if x.lo == 0 else add(1, x)
    if x.lo >= 0:
        k = trailing(x.p)
        if k and x.hi >> k <= 1:
            return sub(1, name_bool(x.p.shr(k)))
        if x.hi == 1:
            return sub(1, name_bool(x.p))
        if k == 0 and len(x.p.t) <= 3:
            # a high digit: 2^k * (small quotient)
            for m, c in x.p.t.items():
                if len(m) == 2 and m[1] == 1 and c == -1 and SYMS[m[0]].kind == "mod":
                    j = SYMS[m[0]].args[0]
                    if x.hi >> j <= SMALL and multiple(x.p, j):
                        y = name_small(IV(x.p.shr(j), 0, x.hi >> j))
                        r = finite_apply(lambda v: 1 if v == 0 else 0, [pol(y)])
                        if r is not None:
                            return r
    q = FACTS.reduce(x.p)
    if q.is_zero():
        return 1
    if x.hi - x.lo <= 1000 or len(x.p.t) <= 60:
        l, h = deep_bound(x.p, x.lo, x.hi)
        if l > 0 or h < 0:
            return 0
        if l == h == 0:
            return 1
        if h - l <= SMALL:
            y = name_small(IV(x.p, l, h))
            if isinstance(y, int):
                return 1 if y == 0 else 0
            if y is not None:
                r = finite_apply(lambda v: 1 if v == 0 else 0, [y.p])
                if r is not None:
                    return r
    r = finite_apply(lambda v: 1 if v == 0 else 0, [q])
    if r is not None:
        return r
    return new_sym("eq0", (norm_sign(q if len(q.t) < len(x.p.t) else x.p).key(),), 0, 1)


def norm_sign(p):
    """primitive, sign-normalised associate (for x == 0 tests)"""
    from math import gcd
    p = Poly(p.norm().t, 0)
    g = 0
    for c in p.t.values():
        g = gcd(g, c)
    if g > 1:
        p = Poly({m: c // g for m, c in p.t.items()})
    lead = max(p.t)
    if p.t[lead] < 0:
        p = -p
    return p


def wrap_lt(d):
    """[d < 0] when d = wrapped value - operand: the carry (or borrow) of the wrap decides it"""
    for m, c in list(d.p.t.items()):
        if len(m) != 2 or m[1] != 1 or abs(c) != 1 or d.p.sh:
            continue
        s = SYMS[m[0]]
        if s.kind != "mod" or s.args[1][1] != 0:
            continue
        k, Q = s.args[0], Poly_from_key(s.args[1])
        r = interval(Q)
        if r is None or r[0] < -(1 << k) or r[1] >= (2 << k) or (r[0] < 0 and r[1] >= 1 << k):
            Q = balanced(Q, k)
            r = interval(Q)
            if r is None or r[0] < -(1 << k) or r[1] >= (2 << k) or (r[0] < 0 and r[1] >= 1 << k):
                continue
        rest = d.p - Poly({m: c})
        neg = r[0] < 0
        d0 = interval(rest + Q.scale(c))
        d1 = interval(rest + (Q + Poly.const((1 << k) if neg else -(1 << k))).scale(c))
        if d0 is None or d1 is None:
            continue
        q = (Q - Poly.sym(m[0])).shr(k)
        if neg:
            q = -q
        q = name_bool(q)
        if d0[0] >= 0 and d1[1] < 0:
            return q
        if d0[1] < 0 and d1[0] >= 0:
            return sub(1, q)
    return None


JOINED = {}   # symbol of a joined test -> the tests it implies
EXCL = {}     # boolean symbols that are never 1 together


def cmp3(a, b):
    """position of a relative to b: 0 below, 1 equal, 2 above"""
    l = lt(a, b)
    if isinstance(l, int):
        return 0 if l else sub(2, eq0(sub(a, b)))
    e = eq0(sub(a, b))
    if isinstance(e, IV) and len(l.p.t) == 1 and len(e.p.t) == 1 and not l.p.sh and not e.p.sh:
        (m, c), = l.p.t.items()
        (n, d), = e.p.t.items()
        if len(m) == 2 and len(n) == 2 and c == d == 1 and SYMS[m[0]].boolean and SYMS[n[0]].boolean and m[0] != n[0]:
            EXCL.setdefault(m[0], set()).add(n[0])
            EXCL.setdefault(n[0], set()).add(m[0])
            return IV(Poly.const(2) - l.p.scale(2) - e.p, 0, 2)
    return add(sub(1, l), lt(b, a))


def lt(a, b):
    """[a < b]"""
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a < b else 0
    d = sub(a, b)
    if isinstance(d, int):
        return 1 if d < 0 else 0
    if d.hi < 0:
        return 1
    if d.lo >= 0:
        return 0
    r = finite_apply(lambda x, y: 1 if x < y else 0, [pol(a), pol(b)])
    if r is not None:
        if isinstance(r, int) or len(r.p.t) < 5:
            return r
        k = max((-d.lo - 1).bit_length(), d.hi.bit_length())
        s = shr_(d, k)      # the carry itself, not its table
        return r if isinstance(s, int) else name_bool(-s.p)
    d0 = d
    d = tighten(d)
    if isinstance(d, int):
        return 1 if d < 0 else 0
    if d.hi < 0:
        return 1
    if d.lo >= 0:
        return 0
    c = wrap_lt(d)
    if c is not None:
        return c
    n = name_small(d)
    if n is not None:
        r = finite_apply(lambda v: 1 if v < 0 else 0, [pol(n)])
        if r is not None and (isinstance(r, int) or len(r.p.t) < 5):
            return r
    # the sign as a quotient; the exponent must not depend on the path being analysed
    r = interval(d0.p)
    if r is None or r[0] >= 0 or r[1] < 0:
        r = (d.lo, d.hi)
    k = max((-r[0] - 1).bit_length(), r[1].bit_length())
    s = shr_(IV(d0.p, *r), k)      # -1 or 0
    if isinstance(s, int):
        return -s
    return name_bool(-s.p)
