"""Closed composites: field elements (polynomials modulo p) and scalars (exact
integers), and the conversion between them and their limb arrays."""
from . import ints as I, poly as PL
from .ints import IV, pol, rng
from .poly import Poly, SYMS, intern, interval, Poly_from_key, P, L
from .interp import Opaque, Unsupported, elems, MERGE_HOOK, JOIN_HOOK

TIGHT = 0x100000000000000
LOOSE = 0x300000000000000
UID = [0]
LIMB0 = {}       # limb-0 symbol -> FE
_dep = {}


# ---------------------------------------------------------------- symbol dependencies
def sub_polys(s):
    sy = SYMS[s]
    k = sy.kind
    if k == "mod":
        return [sy.args[1]]
    if k in ("eq0", "feq", "canon", "canonl", "W", "WL", "neg", "nm", "bx"):
        return [sy.args[0]]
    if k == "opq":
        return list(sy.args[1])
    return []


def depends_limb(s):
    r = _dep.get(s)
    if r is None:
        sy = SYMS[s]
        if sy.kind == "limb":
            r = True
        elif sy.kind == "ind":
            r = depends_limb(sy.args[0])
        else:
            r = any(depends_limb(x) for k in sub_polys(s) for m, _ in k[0] for x in m[::2])
        _dep[s] = r
    return r


def has_limb(p):
    return any(depends_limb(s) for s in p.syms())


# ---------------------------------------------------------------- field polynomials
def fpoly(p):
    """normal form of a polynomial as an element of GF(p): canonical integers are
    replaced by the field value they encode, coefficients reduced mod p"""
    for _ in range(10000):
        hit = None
        for s in p.syms():
            k = SYMS[s].kind
            if k == "canon":
                hit = (s, Poly_from_key(SYMS[s].args[0]))
                break
            if k == "limb" and SYMS[s].args[1] == 0:
                fe = LIMB0[s]
                q = fe.poly
                for i in range(1, fe.n):
                    q = q - Poly.sym(intern("limb", (fe.uid, i))).scale(1 << (fe.w * i))
                hit = (s, q)
                break
        if hit is None:
            break
        p = p.modred(P).subst1(hit[0], hit[1], P)
    return p.modred(P)


def monic(p):
    """scale so that the leading coefficient is 1 (projective associate)"""
    if not p.t:
        return p
    lead = max(p.t)
    c = p.t[lead]
    if c == 1:
        return p
    return p.scale(pow(c, -1, P)).modred(P)


def pdiv(f, d):
    """exact quotient f/d in GF(p)[symbols], or None"""
    if not d.t or len(d.t) > len(f.t):
        return None
    syms = sorted(f.syms() | d.syms()) if isinstance(f.syms(), set) else sorted(set(f.syms()) | set(d.syms()))
    pos = {s: i for i, s in enumerate(syms)}
    n = len(syms)

    def vec(m):
        v = [0] * n
        for i in range(0, len(m), 2):
            v[pos[m[i]]] = m[i + 1]
        return tuple(v)
    F = {vec(m): c for m, c in f.t.items()}
    D = {vec(m): c for m, c in d.t.items()}
    ld = max(D)
    ci = pow(D[ld], -1, P)
    q = {}
    for _ in range(2000):
        if not F:
            break
        lf = max(F)
        e = tuple(a - b for a, b in zip(lf, ld))
        if min(e) < 0:
            return None
        c = F[lf] * ci % P
        q[e] = c
        for m, x in D.items():
            k = tuple(a + b for a, b in zip(m, e))
            v = (F.get(k, 0) - c * x) % P
            if v:
                F[k] = v
            else:
                F.pop(k, None)
    if F:
        return None
    return Poly({tuple(x for s, e in zip(syms, k) if e for x in (s, e)): c for k, c in q.items()})


BIGEXP = 32
WN = {}
LEAF = {}


def leaf_w(s):
    """names of plain linear combinations of input bytes: (byte symbol, its value) or None"""
    if SYMS[s].kind != "W":
        return None
    if s not in LEAF:
        d = Poly_from_key(SYMS[s].args[0])
        r = None
        if all(len(m) == 0 or (len(m) == 2 and m[1] == 1 and SYMS[m[0]].kind not in PL.FIELD_KINDS) for m in d.t):
            k = min((m for m in d.t if len(m) == 2), default=None)
            if k is not None:
                r = (k[0], (Poly.sym(s) - d + Poly({k: d.t[k]})).scale(pow(d.t[k], -1, P)).modred(P))
        LEAF[s] = r
    return LEAF[s]


def wdeps(syms):
    """all W names reachable through definitions"""
    seen, q = set(), [s for s in syms if SYMS[s].kind == "W"]
    while q:
        s = q.pop()
        if s not in seen:
            seen.add(s)
            q += [t for t in Poly_from_key(SYMS[s].args[0]).syms() if SYMS[t].kind == "W"]
    return seen


def unleaf(p, names):
    """rewrite raw input bytes through the named sums they occur in"""
    for s in sorted(names):
        l = leaf_w(s)
        if l is not None and l[0] in p.syms():
            p = p.subst1(l[0], l[1], P)
    return p


def wnorm(f):
    """normal form of field values with large powers (inverses, roots): the common
    monomial is factored out, names with small powers are expanded, the remaining
    cofactor is divided by the names already present and named again"""
    if not any(e > BIGEXP for m in f.t for e in m[1::2]):
        return f
    if len(f.t) == 1 and not any(m[i + 1] <= BIGEXP and SYMS[m[i]].kind == "W" for m in f.t for i in range(0, len(m), 2)):
        return f
    k = f.key()
    r = WN.get(k)
    if r is None:
        r = WN[k] = wnorm1(f)
    return r


def wnorm1(f):
    from . import summ
    if any(SYMS[s].boolean for s in f.syms()):
        return f
    c, mono, r = summ.content(f)
    if any(e > BIGEXP for m in r.t for e in m[1::2]):
        return f
    big = [mono[i] for i in range(0, len(mono), 2) if mono[i + 1] > BIGEXP]
    small = [mono[i:i + 2] for i in range(0, len(mono), 2) if mono[i + 1] <= BIGEXP]
    out = Poly({tuple(x for i in range(0, len(mono), 2) if mono[i + 1] > BIGEXP for x in mono[i:i + 2]): c})
    r = r * Poly({tuple(x for p in small for x in p): 1})
    if any(e < 0 for m in r.t for e in m[1::2]):
        return f
    r = unleaf(r, wdeps(set(big) | set(r.syms())))
    for _ in range(40):
        ws = [s for s in r.syms() if SYMS[s].kind == "W" and leaf_w(s) is None and s not in big]
        if not ws:
            break
        q = r.subst1(max(ws), Poly_from_key(SYMS[max(ws)].args[0]), P)
        if len(q.t) > 2000:
            break
        r = q
    for _ in range(12):
        hit = False
        for b in big:
            if SYMS[b].kind == "W":
                q = pdiv(r, Poly_from_key(SYMS[b].args[0]))
                if q is not None:
                    r, hit = q, True
                    out = (out * Poly.sym(b)).modred(P)
        if not hit:
            break
    return (out * summ.fnamed(r)).modred(P)


def canon_poly(f):
    """integer polynomial of the canonical representative in [0,p) of field value f"""
    if f.is_const():
        return Poly.const(f.const_val() % P)
    # f = single integer symbol already in [0,p)?
    if len(f.t) == 1:
        (m, c), = f.t.items()
        if c == 1 and len(m) == 2 and m[1] == 1:
            s = SYMS[m[0]]
            if s.kind not in PL.FIELD_KINDS and s.lo is not None and s.lo >= 0 and s.hi < P:
                return f
    r = interval(f)
    if r and r[0] >= 0 and r[1] < P:
        return f
    # boolean combination of two canonical values: c ? a : b
    b = split_bool(f)
    if b is not None:
        s, f0, f1 = b
        q0, q1 = canon_poly(f0), canon_poly(f1)
        return q0 + Poly.sym(s) * (q1 - q0)
    f = wnorm(f)
    return Poly.sym(intern("canon", (f.key(),), 0, P - 1))


SPLIT_KINDS = ("pl?",)


def split_bool(f):
    """a boolean symbol on which f depends -> (s, f|s=0, f|s=1); newest first"""
    best = None
    for s in f.syms():
        if SYMS[s].boolean and SYMS[s].kind not in PL.FIELD_KINDS and (best is None or s > best):
            best = s
    if best is None:
        return None
    return best, f.subst1(best, Poly.const(0), P), f.subst1(best, Poly.const(1), P)


def digits(C, w, n, lo=None, hi=None):
    """base-2^w digits of the non-negative integer polynomial C (< 2^(w n))"""
    if C.is_const():
        v = C.const_val()
        return tuple((v >> (w * i)) & ((1 << w) - 1) for i in range(n))
    if hi is None:
        lo, hi = interval(C)
    out = []
    prev = Poly({})
    for i in range(n):
        if hi < (1 << (w * (i + 1))):
            cur = C
        else:
            cur = pol(I.modp(C, w * (i + 1)))
        d = (cur - prev).shr(w * i)
        h = min((1 << w) - 1, hi >> (w * i))
        x = IV(d, 0, h) if not d.is_const() else d.const_val()
        if isinstance(x, IV) and h == 0:
            x = 0
        out.append(x)
        prev = cur
    return tuple(out)


def undigits(arr, w):
    return PL.psum([pol(x).scale(1 << (w * i)) for i, x in enumerate(arr)])


# ---------------------------------------------------------------- composites
class FE(Opaque):
    __slots__ = ("poly", "w", "n", "lo", "hi", "vhi", "canon", "_view", "uid")

    def __init__(self, poly, w, n, lo, hi, vhi=None, canon=False, view=None):
        self.poly, self.w, self.n = poly, w, n
        self.lo, self.hi = tuple(lo), tuple(hi)
        s = sum(h << (w * i) for i, h in enumerate(self.hi))
        self.vhi = s if vhi is None else min(vhi, s)
        self.canon = canon
        self._view = view
        UID[0] += 1
        self.uid = UID[0]

    def view(self):
        if self._view is None:
            if self.canon:
                self._view = digits(canon_poly(self.poly), self.w, self.n, 0, P - 1)
            elif all(l == h for l, h in zip(self.lo, self.hi)):
                self._view = self.lo
            else:
                v = []
                for i in range(self.n):
                    lo, hi = self.lo[i], self.hi[i]
                    s = intern("limb", (self.uid, i), lo, hi)
                    if i == 0:
                        LIMB0[s] = self
                    v.append(IV(Poly.sym(s), lo, hi))
                self._view = tuple(v)
        return self._view

    def __repr__(self):
        return "FE(%s%s)" % (self.poly.short(), " canon" if self.canon else "")


class SC(Opaque):
    """scalar: exact integer polynomial, value in [lo,hi], 14 saturated limbs"""
    __slots__ = ("poly", "lo", "hi", "_view")
    w, n = 32, 14

    def __init__(self, poly, lo, hi):
        self.poly, self.lo, self.hi = poly, lo, hi
        self._view = None

    def view(self):
        if self._view is None:
            self._view = digits(self.poly, 32, 14, self.lo, self.hi)
        return self._view

    def __repr__(self):
        return "SC(%s)" % self.poly.short()


def close_fe(arr, w, n):
    """FE for a limb array, or None"""
    if isinstance(arr, FE):
        return arr
    if not isinstance(arr, tuple) or len(arr) != n:
        return None
    if any(not isinstance(x, (int, IV)) for x in arr):
        return None
    if all(isinstance(x, int) for x in arr):
        v = sum(x << (w * i) for i, x in enumerate(arr))
        return FE(Poly.const(v % P), w, n, arr, arr, v, canon=(v < P and all(0 <= x < (1 << w) for x in arr)), view=arr)
    # untouched view of an existing element?
    x0 = next(x for x in arr if isinstance(x, IV))
    V = undigits(arr, w)
    f = fpoly(V)
    lo = [rng(x)[0] for x in arr]
    hi = [rng(x)[1] for x in arr]
    if has_limb(f):
        f2 = fpoly(I.facts().reduce(V))
        if has_limb(f2):
            if min(lo) < 0 or max(hi) >= (1 << w):
                return None
            u = I.unwrap_mod(V, w * n)
            if u is None:
                return None
            V = u[0]
            f2 = fpoly(V)
            if has_limb(f2):
                return None
            f = f2
            return FE(f, w, n, lo, hi, u[2], u[2] < P)
        f = f2
    r = interval(V)
    vhi = sum(h << (w * i) for i, h in enumerate(hi))
    if r:
        vhi = min(vhi, r[1])
    canon = False
    if min(lo) >= 0 and max(hi) < (1 << w):
        if vhi < P:
            canon = True
        else:
            l, h = I.deep_bound(V, 0, vhi)
            vhi = min(vhi, h)
            canon = h < P
        if not canon and len(V.t) == 1:
            (m, c), = V.t.items()
            if c == 1 and len(m) == 2 and SYMS[m[0]].kind == "canon":
                canon = True
    return FE(f, w, n, lo, hi, vhi, canon)


def clean_int(p):
    """no carry bookkeeping left: only inputs / canonical values / placeholders"""
    for s in p.syms():
        if SYMS[s].kind in ("mod", "nm", "opq", "limb"):
            return False
    return True


def close_sc(arr):
    if isinstance(arr, SC):
        return arr
    if not isinstance(arr, tuple) or len(arr) != 14:
        return None
    if any(not isinstance(x, (int, IV)) for x in arr):
        return None
    V = undigits(arr, 32)
    if V.is_const():
        v = V.const_val()
        return SC(V, v, v)
    for x in arr:
        if not I.fits(x, 0, 2**32 - 1):
            return None
    hi = sum(rng(x)[1] << (32 * i) for i, x in enumerate(arr))
    r = interval(V)
    lo = 0
    if r:
        lo, hi = max(0, r[0]), min(hi, r[1])
    if clean_int(V):
        return SC(V, lo, hi)
    u = I.unwrap_mod(V, 448)
    if u is not None:
        V = u[0]
        lo, hi = max(lo, u[1]), min(hi, u[2])
        if clean_int(V):
            return SC(V, lo, hi)
    R = I.facts().reduce(V)
    if clean_int(R):
        r = interval(R)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return SC(R, lo, hi)
    # modulo the group order
    for Q in (V, R):
        M = lpoly(Q)
        if clean_int(M):
            l, h = I.deep_bound(V, lo, hi)
            lo, hi = max(lo, l), min(hi, h)
            if hi >= L and not R.eq(V):
                l, h = I.deep_bound(R, lo, hi)
                lo, hi = max(lo, l), min(hi, h)
            if hi < L:
                return SC(canonl_poly(M), 0, L - 1)
            break
    return SC(V if len(V.t) <= len(R.t) else R, lo, hi)


def recanon(x):
    """closed scalar with carry bits left in it: canonical representative if its range allows"""
    if clean_int(x.poly) or len(x.poly.t) > 12:
        return x
    M = lpoly(x.poly)
    if clean_int(M):
        l, h = I.deep_bound(x.poly, x.lo, x.hi)
        if h < L and l >= 0:
            return SC(canonl_poly(M), 0, L - 1)
    return x


def lpoly(p):
    """normal form modulo the group order"""
    for _ in range(1000):
        hit = None
        for s in p.syms():
            if SYMS[s].kind == "canonl":
                hit = (s, Poly_from_key(SYMS[s].args[0]))
                break
        if hit is None:
            break
        p = lsubst(p.modred(L), {hit[0]: hit[1]})
    return lfold(p.modred(L))


def lfold(p):
    """x^e = x^((e-1) mod (l-1) + 1) for e > 0 modulo the prime l"""
    if all(e < L for m in p.t for e in m[1::2]):
        return p
    t = {}
    for m, c in p.t.items():
        m = tuple(x if i % 2 == 0 or x < L else (x - 1) % (L - 1) + 1 for i, x in enumerate(m))
        t[m] = (t.get(m, 0) + c) % L
    return Poly({m: c for m, c in t.items() if c})


def lpow(q, e):
    q = q.modred(L)
    if e == 0 or not q.t:
        return Poly.const(1) if e == 0 else q
    if len(q.t) > 1 and not (e <= 4 and len(q.t) ** e < 3000):
        lead = max(q.t)
        c = q.t[lead]
        r = q.scale(pow(c, -1, L)).modred(L)
        q = Poly.sym(intern("WL", (r.key(),))).scale(c)
    if len(q.t) == 1:
        (m, c), = q.t.items()
        out = []
        for i in range(0, len(m), 2):
            out += [m[i], m[i + 1] if SYMS[m[i]].boolean else m[i + 1] * e]
        return lfold(Poly({tuple(out): pow(c, e, L)}))
    return PL.poly_pow(q, e, L)


def lsubst(p, img):
    """substitute symbols in a polynomial modulo l"""
    pw = {}
    parts = []
    groups = {}
    for m, c in p.t.items():
        sel, rest = [], []
        for i in range(0, len(m), 2):
            (sel if m[i] in img else rest).extend(m[i:i + 2])
        groups.setdefault(tuple(sel), {})[tuple(rest)] = c
    for sel, rest in groups.items():
        r = Poly(rest, p.sh).modred(L)
        for i in range(0, len(sel), 2):
            k = (sel[i], sel[i + 1])
            q = pw.get(k)
            if q is None:
                q = pw[k] = lpow(img[sel[i]], sel[i + 1])
            r = lfold((r * q).modred(L))
        parts.append(r)
    return PL.psum(parts).modred(L)


def canonl_poly(f):
    if f.is_const():
        return Poly.const(f.const_val() % L)
    r = interval(f)
    if r and r[0] >= 0 and r[1] < L:
        return f
    return Poly.sym(intern("canonl", (f.key(),), 0, L - 1))


# ---------------------------------------------------------------- boolean atoms
def feq(f):
    """[f == 0 in GF(p)] as 0/1 value"""
    f = fpoly(f)
    if f.is_const():
        return 1 if f.const_val() % P == 0 else 0
    b = split_bool(f)
    if b is not None:
        s, f0, f1 = b
        return I.ite(IV(Poly.sym(s), 0, 1), feq(f1), feq(f0))
    f = feq_norm(wnorm(f))
    if f.is_const():
        return 1 if f.const_val() % P == 0 else 0
    return IV(Poly.sym(intern("feq", (f.key(),), 0, 1)), 0, 1)


def feq_norm(f):
    """associate up to nonzero constants, known-nonzero factors and exponents of a
    lone power; products are handled by the caller"""
    # drop common factors that are known to be nonzero, lower powers x^k -> x
    if len(f.t) == 1:
        (m, c), = f.t.items()
        out = []
        for i in range(0, len(m), 2):
            if SYMS[m[i]].nz:
                continue
            out += [m[i], 1]
        if not out:
            return Poly.const(1)
        return Poly({tuple(out): 1})
    common = None
    for m in f.t:
        d = {m[i]: m[i + 1] for i in range(0, len(m), 2)}
        if common is None:
            common = {s: e for s, e in d.items() if SYMS[s].nz}
        else:
            common = {s: min(e, d.get(s, 0)) for s, e in common.items() if SYMS[s].nz}
        for s, e in d.items():
            if e < 0 and s not in common:
                common[s] = e
    common = {s: e for s, e in (common or {}).items() if e and SYMS[s].nz}
    # negative exponents of nonzero symbols: clear them
    neg = {}
    for m in f.t:
        for i in range(0, len(m), 2):
            if m[i + 1] < 0:
                neg[m[i]] = min(neg.get(m[i], 0), m[i + 1])
    for s, e in neg.items():
        common[s] = min(common.get(s, 0), e)
    if common:
        mm = []
        for s in sorted(common):
            mm += [s, -common[s]]
        f = (f * Poly({tuple(mm): 1})).modred(P)
    return monic(f)


def eq_bytes(a, b, w=8):
    """[arrays equal]"""
    if len(a) != len(b):
        return 0
    A, B = undigits(a, w), undigits(b, w)
    return eq_int(A, B, (1 << (w * len(a))) - 1)


def pairs_eq(ls):
    """[a == b for all pairs], the pairs read as the digits of two integers"""
    ds = [I.norm_sign(pol(a) - pol(b)) if not (pol(a) - pol(b)).is_const() else None for a, b in ls]
    if None not in ds:
        q = join_scaled(ds)
        if q is not None:
            return I.mkp(q)
    m = max(rng(v)[1] for l in ls for v in l)
    w = 8
    while m >> w:
        w *= 2
    if pol(ls[0][0]).sh > pol(ls[-1][0]).sh:
        ls = ls[::-1]
    return eq_bytes([l[0] for l in ls], [l[1] for l in ls], w)


I.CONJ_HOOK.append(pairs_eq)


def clusters(ds):
    """polynomials connected by common symbols"""
    out = []
    for d in ds:
        s = set(d.syms())
        g = [d]
        rest = []
        for t, h in out:
            if t & s:
                s |= t
                g = h + g
            else:
                rest.append((t, h))
        out = rest + [(s, g)]
    return [g for _, g in out]


def separate(ds):
    """the d_i sorted by weight, if each is a multiple of 2^(v_i) and smaller than 2^(v_(i+1))"""
    xs = []
    for d in ds:
        if d.sh:
            return None
        v = I.trailing(d)
        for j in sorted({SYMS[s].args[0] for s in d.syms() if SYMS[s].kind == "mod"}, reverse=True):
            if j > v and I.reduce_coefs(I.expand_mod(d, j), j).is_zero():
                v = j
                break
        r = I.digit_interval(d)
        if r is None:
            return None
        xs.append((v, max(-r[0], r[1]), d))
    xs.sort(key=lambda x: x[0])
    for (v, b, d), (w, _, e) in zip(xs, xs[1:]):
        if b >> w:
            return None
    return [x[2] for x in xs]


def join_scaled(ds):
    """differences of digits of separate weights all vanish iff their sum does"""
    xs = separate(ds)
    if xs is None:
        return None
    D = xs[0]
    for e in xs[1:]:
        x, y = D + e, D - e
        D = y if len(y.t) < len(x.t) else x
    return pol(eq_int(Poly({m: c for m, c in D.t.items() if c > 0}, D.sh), Poly({m: -c for m, c in D.t.items() if c < 0}, D.sh)))


def join_eqs(p):
    """a product of tests [d_i == 0] of differences of digits, as one test of the difference of the integers"""
    if len(p.t) != 1 or p.sh:
        return p
    (m, c), = p.t.items()
    ss = m[::2]
    if c == 1 and any(SYMS[s].kind != "eq0" for s in ss) and sum(SYMS[s].kind == "eq0" for s in ss) > 1:
        e = tuple(x for s in ss if SYMS[s].kind == "eq0" for x in (s, 1))
        q = join_eqs(Poly({e: 1}))
        if len(q.t) == 1 and len(next(iter(q.t))) == len(e):
            return p
        return q * Poly({tuple(x for s in ss if SYMS[s].kind != "eq0" for x in (s, 1)): 1})
    if c != 1 or len(ss) < 2 or any(SYMS[s].kind != "eq0" for s in ss):
        return p
    ds = sorted((Poly_from_key(SYMS[s].args[0]) for s in ss), key=lambda d: (d.sh, min(d.syms())))
    cl = clusters(ds)
    if len(cl) > 1:
        r = Poly.const(1)
        for g in cl:
            q = join_scaled(g) if len(g) > 1 else None
            if q is None:
                for d in g:
                    r = r * pol(I.eq0(I.mkp(d)))
            else:
                r = r * q
        if len(r.t) == 1 and len(next(iter(r.t))) < len(m):
            return join_eqs(r)
    q = join_scaled(ds)
    if q is not None:
        return q
    rs = [interval(d) for d in ds]
    if any(r is None for r in rs):
        return p
    mx = max(max(-r[0], r[1]) for r in rs)
    w = 8
    while mx >> w:
        w *= 2
    D = Poly({})
    for i, d in enumerate(ds):
        if d.sh not in (0, w * i):
            return p
        e = d.scale(1 << (w * i)).norm()
        a, b = D + e, D - e
        if len(b.t) < len(a.t):
            D = b
        elif len(b.t) > len(a.t):
            D = a
        else:
            D = a if d.t.get(((min(d.syms())), 1), 1) > 0 else b
    return pol(eq_int(Poly({m: c for m, c in D.t.items() if c > 0}, D.sh), Poly({m: -c for m, c in D.t.items() if c < 0}, D.sh)))


def join_decision(p):
    """the same for x and for 1 - x"""
    if len(p.t) == 1:
        q = join_eqs(p)
        if q is not p and len(q.t) == 1:
            # what the joined test implies
            (m, _), = p.t.items()
            (n, c), = q.t.items()
            if len(n) == 2 and c == 1 and SYMS[n[0]].boolean:
                I.JOINED.setdefault(n[0], set()).update(set(m[::2]) - {n[0]})
        return None if q is p else q
    if len(p.t) == 2 and p.t.get(()) == 1 and not p.sh:
        x = Poly.const(1) - p
        q = join_decision(x)
        return None if q is None else Poly.const(1) - q
    return None


JOIN_HOOK.append(join_decision)


def lone(p):
    if len(p.t) == 1 and p.sh == 0:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 2 and m[1] == 1:
            return m[0]
    return None


def is_canon(p):
    """p is a canonical field integer -> field poly"""
    if p.is_const():
        v = p.const_val()
        return p if 0 <= v < P else None
    r = interval(p)
    bs = [s for s in p.syms() if SYMS[s].boolean and SYMS[s].kind != "canon"]
    if bs:
        s = max(bs)
        a = is_canon(p.subst1(s, Poly.const(0)))
        b = is_canon(p.subst1(s, Poly.const(1)))
        if a is None or b is None:
            return None
        return a + Poly.sym(s) * (b - a)
    s = lone(p)
    if s is not None and SYMS[s].kind == "canon":
        return Poly_from_key(SYMS[s].args[0])
    if r and r[0] >= 0 and r[1] < P:
        return p
    return None


def eq_int(A, B, mx=None):
    if A.eq(B):
        return 1
    fa, fb = is_canon(A), is_canon(B)
    if fa is not None and fb is not None:
        return feq(fa - fb)
    for x, fx, y in ((A, fa, B), (B, fb, A)):
        if fx is not None and y.is_const() and not 0 <= y.const_val() < P:
            return 0
        # canon(N) == N  <=>  N < p
        if fx is not None and not y.is_const():
            r = interval(y)
            if fpoly(y - fx).is_zero() and r and r[0] >= 0:
                return I.lt(I.mkp(y), P)
    return I.eq0(I.mkp(A - B))


def merge_hook(c, a, b):
    if isinstance(a, FE) and not isinstance(b, FE):
        b = close_fe(b, a.w, a.n)
    elif isinstance(b, FE) and not isinstance(a, FE):
        a = close_fe(a, b.w, b.n)
    if isinstance(a, FE) and isinstance(b, FE):
        return fe_ite(c, a, b)
    if isinstance(a, SC) and not isinstance(b, SC):
        b = close_sc(b)
    elif isinstance(b, SC) and not isinstance(a, SC):
        a = close_sc(a)
    if isinstance(a, SC) and isinstance(b, SC):
        x = I.ite(c, I.mk(a.poly, a.lo, a.hi), I.mk(b.poly, b.lo, b.hi))
        l, h = rng(x)
        return SC(pol(x), l, h)
    return None


def fe_ite(c, a, b):
    """c ? a : b"""
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    f = fpoly(b.poly + c.p * (a.poly - b.poly))
    return FE(f, a.w, a.n, [min(x, y) for x, y in zip(a.lo, b.lo)], [max(x, y) for x, y in zip(a.hi, b.hi)],
              max(a.vhi, b.vhi), a.canon and b.canon)


MERGE_HOOK.append(merge_hook)
