"""Group elements: point structs are closed into linear combinations of base points
when their coordinates provably are the coordinates of such a combination.

A closed point (GE) records, for one of the three curves, integer-polynomial
coefficients over base points.  Opening a GE gives affine coordinates (x, y) on the
curve and a free nonzero scale z; closing a tuple of coordinates is polynomial
identity testing modulo the curve equations (normal forms), never enumeration."""
from itertools import product
from . import ints as I, poly as PL, dom, summ
from .ints import IV, pol
from .poly import Poly, SYMS, intern, Poly_from_key, P, L
from .interp import Opaque, elems, UNINIT, MERGE_HOOK, Poison
from .dom import FE, SC
from .summ import NoSummary, INV28

PL.FIELD_KINDS |= {"gt", "gU", "gW"}
summ.PLACE.add("pli")

D_E = -39081 % P
D_W = -39082 % P
CURVE = {"E": (1, D_E), "W": (P - 1, D_W)}
MONT_A = 156326
HALF = pow(2, -1, P)
T2 = ("t2",)

FORMS = {
    ("x", "y", "z", "t"): "ext",
    ("x", "y"): "aff",
    ("x", "y", "z", "t1", "t2"): "exs",
    ("y_plus_x", "y_minus_x", "td", "z"): "pn",
    ("u", "w"): "mont",
}

SC_ = Poly.const


def csum(*ds):
    out = {}
    for d, k in ds:
        for b, c in d.items():
            c = c * k if isinstance(k, Poly) else c.scale(k)
            out[b] = out[b] + c if b in out else c
    return cnorm(out)


def cnorm(d):
    out = {}
    for b, c in d.items():
        if b == T2:
            c = Poly({m: v % 2 for m, v in c.t.items() if v % 2}, 0) if c.sh == 0 else c
        if c.t:
            out[b] = c
    return out


def ckey(d):
    return frozenset((b, c.key()) for b, c in d.items())


def ciso(d):
    """coefficients of the image under the 4-isogeny phi: E->W or its dual psi: W->E"""
    out = {}
    for b, c in d.items():
        if b == T2:
            continue
        if b[0] == "iso":
            nb, nc = b[1], c.scale(4)
        else:
            nb, nc = ("iso", b), c
        out[nb] = out[nb] + nc if nb in out else nc
    return cnorm(out)


REC = {}        # coordinate symbol -> (record, which)
GUID = [0]


class Rec:
    """opened affine coordinates of a point"""
    __slots__ = ("curve", "coefs", "x", "y", "id")

    def __init__(self, curve, coefs, x, y):
        self.curve, self.coefs, self.x, self.y = curve, coefs, x, y


RECS = {}


def rec_of(curve, coefs):
    k = (curve, ckey(coefs))
    r = RECS.get(k)
    if r is None:
        x, y = intern("gx", k), intern("gy", k)
        r = Rec(curve, coefs, x, y)
        RECS[k] = r
        REC[x] = (r, "x")
        REC[y] = (r, "y")
    return r


class MRec:
    __slots__ = ("coefs", "U", "W")


MREC = {}


def mrec_of(coefs):
    k = ("M", ckey(coefs))
    r = RECS.get(k)
    if r is None:
        r = MRec()
        r.coefs = coefs
        r.U, r.W = intern("gU", k), intern("gW", k)
        RECS[k] = r
        MREC[r.U] = (r, "U")
        MREC[r.W] = (r, "W")
    return r


class GE(Opaque):
    __slots__ = ("curve", "form", "coefs", "ty", "A", "uid", "_view", "_xyz", "dadd")

    def __init__(self, A, ty, curve, form, coefs, dadd=None):
        self.A, self.ty, self.curve, self.form = A, ty, curve, form
        self.coefs = coefs
        GUID[0] += 1
        self.uid = GUID[0]
        self._view = None
        self._xyz = None
        self.dadd = dadd

    def __repr__(self):
        return "GE(%s %s %s)" % (self.curve, self.form, {str(k): c.short() for k, c in self.coefs.items()})

    def affine(self):
        """affine coordinates as polynomials"""
        if not self.coefs:
            return SC_(0), SC_(1)
        if set(self.coefs) == {T2} and self.coefs[T2].is_const():
            return SC_(0), SC_(P - 1)
        if len(self.coefs) == 1:
            (b, c), = self.coefs.items()
            if b[0] == "const" and c.is_const() and c.const_val() == 1:
                return SC_(b[2]), SC_(b[3])
        r = rec_of(self.curve, self.coefs)
        return Poly.sym(r.x), Poly.sym(r.y)

    def xyz(self):
        """coordinate polynomials used when the point is opened"""
        if self._xyz is None:
            if self.curve == "M":
                if self.dadd is not None:
                    raise NoSummary("pending differential addition")
                if not self.coefs:
                    self._xyz = (SC_(1), SC_(0))
                elif (b1 := base1(self.coefs)) is not None:
                    self._xyz = (Poly_from_key(b1), SC_(1))
                else:
                    r = mrec_of(self.coefs)
                    self._xyz = (Poly.sym(r.U), Poly.sym(r.W))
            else:
                x, y = self.affine()
                z = Poly.sym(intern("gz", (self.uid,), nz=True)) if self.form != "aff" else SC_(1)
                t = ()
                if self.form == "exs":
                    a, b = intern("gt", (self.uid, 1)), intern("gt", (self.uid, 2))
                    TPAIR[b] = (a, b, x, y, z)
                    t = (Poly.sym(a), Poly.sym(b))
                    if x.is_zero():
                        # only the product x*y*z is known
                        pass
                self._xyz = (x, y, z) + t
            GEOF[self.uid] = self
        return self._xyz

    def fields(self):
        c = self.xyz()
        if self.form == "mont":
            return list(c)
        x, y, z = c[:3]
        m = lambda *q: dom.fpoly(prod(q))
        if self.form == "ext":
            return [m(x, z), m(y, z), z, m(x, y, z)]
        if self.form == "aff":
            return [x, y]
        if self.form == "exs":
            return [m(x, z), m(y, z), z, c[3], c[4]]
        if self.form == "pn":
            return [m(y + x, z), m(y - x, z), m(x, y, z, SC_(2 * D_W % P)), m(z, SC_(2))]
        raise AssertionError(self.form)

    def view(self):
        if self._view is None:
            G = self.A.groups
            w, n = G.shape
            B = dom.TIGHT if w == 56 else INV28
            out = []
            for f, (_, fty) in zip(self.fields(), self.A.P.tys[self.ty]["vars"][0]["fields"]):
                if f.is_const():
                    v = f.const_val() % P
                    out.append(G.wrap(fty, FE(f.modred(P), w, n, (0,) * n, (B,) * n)))
                else:
                    out.append(G.wrap(fty, FE(f, w, n, (0,) * n, (B,) * n)))
            order = G.order[self.ty]
            v = [None] * len(out)
            for i, j in enumerate(order):
                v[j] = out[i]
            self._view = tuple(v)
        return self._view


GEOF = {}
TPAIR = {}


def prod(qs):
    r = None
    for q in qs:
        r = q if r is None else (r * q).modred(P)
    return r


def base1(coefs):
    """field key of u when the point is exactly the input point"""
    if len(coefs) == 1:
        (b, c), = coefs.items()
        if b[0] == "u" and c.is_const() and c.const_val() == 1:
            return b[1]
    return None


# ------------------------------------------------------------------ normal form
def nf(p):
    """normal form modulo the curve equations and T1*T2 = x*y*z"""
    p = p.modred(P)
    for _ in range(400):
        hit = None
        for m in p.t:
            syms = {m[i]: m[i + 1] for i in range(0, len(m), 2)}
            for s, e in syms.items():
                k = SYMS[s].kind
                if k == "gx" and e >= 2:
                    r, w = REC[s]
                    if syms.get(r.y, 0) >= 2:
                        hit = ("c", r)
                        break
                elif k == "gt" and s in TPAIR:
                    a = TPAIR[s][0]
                    if e >= 1 and syms.get(a, 0) >= 1:
                        hit = ("t", TPAIR[s])
                        break
            if hit:
                break
        if hit is None:
            return p
        out = {}
        add = []
        if hit[0] == "c":
            r = hit[1]
            a, d = CURVE[r.curve]
            di = pow(d, -1, P)
            X, Y = r.x, r.y
            for m, c in p.t.items():
                sy = {m[i]: m[i + 1] for i in range(0, len(m), 2)}
                if sy.get(X, 0) >= 2 and sy.get(Y, 0) >= 2:
                    # x^2 y^2 = (a x^2 + y^2 - 1)/d
                    base = dict(sy)
                    base[X] -= 2
                    base[Y] -= 2
                    for (dx, dy, k) in ((2, 0, a), (0, 2, 1), (0, 0, P - 1)):
                        b = dict(base)
                        b[X] += dx
                        b[Y] += dy
                        mm = tuple(x for s in sorted(b) if b[s] for x in (s, b[s]))
                        out[mm] = (out.get(mm, 0) + c * k * di) % P
                else:
                    out[m] = (out.get(m, 0) + c) % P
            p = Poly({m: c for m, c in out.items() if c})
        else:
            a, b, x, y, z = hit[1]
            rest = {}
            xyz = prod([x, y, z])
            acc = Poly({})
            for m, c in p.t.items():
                sy = {m[i]: m[i + 1] for i in range(0, len(m), 2)}
                k = min(sy.get(a, 0), sy.get(b, 0))
                if k > 0:
                    sy[a] -= k
                    sy[b] -= k
                    mm = tuple(q for s in sorted(sy) if sy[s] for q in (s, sy[s]))
                    acc = (acc + Poly({mm: c}) * PL.poly_pow(xyz, k, P)).modred(P)
                else:
                    rest[m] = c
            p = (Poly(rest) + acc).modred(P)
    raise NoSummary("normal form")


def clear(ps):
    """clear denominators (known-nonzero symbols with negative exponents) of a vector
    of polynomials simultaneously, then expand W names"""
    neg = {}
    for p in ps:
        for m in p.t:
            for i in range(0, len(m), 2):
                if m[i + 1] < 0:
                    neg[m[i]] = min(neg.get(m[i], 0), m[i + 1])
    if neg:
        mm = Poly({tuple(x for s in sorted(neg) for x in (s, -neg[s])): 1})
        ps = [(p * mm).modred(P) for p in ps]
    out = []
    for p in ps:
        for _ in range(50):
            ws = [s for s in p.syms() if SYMS[s].kind == "W"]
            if not ws:
                break
            s = max(ws)
            if any(m[i + 1] > 8 for m in p.t for i in range(0, len(m), 2) if m[i] == s):
                return None
            p = p.subst1(s, Poly_from_key(SYMS[s].args[0]), P)
        out.append(p)
    return out


def monic(p):
    if not p.t:
        return p
    c = p.t[max(p.t)]
    return p.scale(pow(c, -1, P)).modred(P)


NZF = {}


def nz_factors(recs):
    """known nonzero polynomials for up to two points (completeness of the addition law)"""
    key = tuple((r.x, r.y) for r in recs)
    r = NZF.get(key)
    if r is not None:
        return r
    out = []
    one = SC_(1)
    for q in recs:
        a, d = CURVE[q.curve]
        x2, y2 = Poly.sym(q.x, 2), Poly.sym(q.y, 2)
        xy = nf((x2 * y2).scale(d))
        out += [one + xy, one - xy]
        out += [x2 + y2, y2 - x2]
    if len(recs) == 2 and recs[0].curve == recs[1].curve:
        a, d = CURVE[recs[0].curve]
        D = Poly.sym(recs[0].x) * Poly.sym(recs[0].y) * Poly.sym(recs[1].x) * Poly.sym(recs[1].y)
        D = D.scale(d)
        out += [one + D, one - D]
    seen = set()
    res = []
    for p in out:
        p = monic(nf(p.modred(P)))
        if p.key() not in seen and not p.is_const():
            seen.add(p.key())
            res.append(p)
    NZF[key] = res
    return res


def strip_nz_mono(p):
    """divide by the common monomial of known-nonzero symbols"""
    common = None
    for m in p.t:
        d = {m[i]: m[i + 1] for i in range(0, len(m), 2) if SYMS[m[i]].nz}
        common = d if common is None else {s: min(e, d.get(s, 0)) for s, e in common.items() if s in d}
    common = {s: e for s, e in (common or {}).items() if e}
    if common:
        p = (p * Poly({tuple(x for s in sorted(common) for x in (s, -common[s])): 1})).modred(P)
    return p


def nonzero_poly(p, recs):
    """p != 0 by the completeness lemmas"""
    p = strip_nz_mono(nf(p))
    if not p.t:
        return False
    if p.is_const():
        return True
    m = monic(p).key()
    fs = nz_factors(recs)
    for f in fs:
        if f.key() == m:
            return True
    for i, f in enumerate(fs):
        for g in fs[i:]:
            q = monic(nf((f * g).modred(P)))
            if q.key() == m:
                return True
    if len(recs) == 1:
        for i, f in enumerate(fs):
            for j, g in enumerate(fs[i:]):
                fg = nf((f * g).modred(P))
                for h in fs[i + j:]:
                    if monic(nf((fg * h).modred(P))).key() == m:
                        return True
    return False


def recs_in(ps):
    rs, ms, other = {}, {}, False
    for p in ps:
        for s in p.syms():
            k = SYMS[s].kind
            if k in ("gx", "gy"):
                r = REC[s][0]
                rs[r.x] = r
            elif k in ("gz", "gt"):
                g = GEOF.get(SYMS[s].args[0])
                if g is None or g.curve == "M":
                    other = True
                    continue
                x, y = g.affine()
                if not x.is_const():
                    r = REC[next(iter(x.syms()))][0]
                    zonly = r
                    rs.setdefault(("z", r.x), r)
            elif k in ("gU", "gW"):
                r = MREC[s][0]
                ms[r.U] = r
            else:
                other = True
    full = [r for k, r in rs.items() if not isinstance(k, tuple)]
    return full, list(ms.values()), other


def wnz_hook(r):
    """is this named polynomial nonzero by the completeness lemmas?"""
    if any(SYMS[s].kind not in ("gx", "gy", "gz") for s in r.syms()):
        return False
    full, ms, other = recs_in([r])
    if ms or other or len(full) > 2:
        return False
    try:
        return nonzero_poly(r, full)
    except NoSummary:
        return False


summ.NZ_HOOK.append(wnz_hook)


# ------------------------------------------------------------------ candidates
def negp(x, y):
    return -x, y


def padd(curve, p1, p2):
    """(Nx, Dx, Ny, Dy) of the sum of two affine points (unified law)"""
    a, d = CURVE[curve]
    (x1, y1), (x2, y2) = p1, p2
    D = prod([x1, y1, x2, y2]).scale(d).modred(P)
    one = SC_(1)
    nx = (x1 * y2 + y1 * x2).modred(P)
    ny = (y1 * y2 - (x1 * x2).scale(a)).modred(P)
    return nx, (one + D).modred(P), ny, (one - D).modred(P)


def candidates(curve, recs):
    """(coefs, (Nx,Dx,Ny,Dy)) for the linear combinations tried"""
    one = SC_(1)
    if len(recs) == 1:
        r = recs[0]
        x, y = Poly.sym(r.x), Poly.sym(r.y)
        if r.curve == curve:
            base = [({}, 1, (x, one, y, one)), ({}, 2, padd(curve, (x, y), (x, y)))]
            for _, k, (nx, dx, ny, dy) in base:
                yield csum((r.coefs, k)), (nx, dx, ny, dy)
                yield csum((r.coefs, -k)), (-nx, dx, ny, dy)
                t = {T2: SC_(1)}
                yield csum((r.coefs, k), (t, 1)), (-nx, dx, -ny, dy)
                yield csum((r.coefs, -k), (t, 1)), (nx, dx, -ny, dy)
        else:
            a, d = CURVE[r.curve]
            x2, y2 = (x * x).modred(P), (y * y).modred(P)
            nx = (x * y).scale(2)
            dx = (y2 - x2.scale(a)).modred(P)
            ny = (y2 + x2.scale(a)).modred(P)
            dy = (SC_(2) - y2 - x2.scale(a)).modred(P)
            c = ciso(r.coefs)
            yield c, (nx, dx, ny, dy)
            yield csum((c, -1)), (-nx, dx, ny, dy)
    elif len(recs) == 2:
        r, q = recs
        if r.curve != curve or q.curve != curve:
            return
        p1 = (Poly.sym(r.x), Poly.sym(r.y))
        for s2 in (1, -1):
            p2 = (Poly.sym(q.x).scale(s2), Poly.sym(q.y))
            nx, dx, ny, dy = padd(curve, p1, p2)
            yield csum((r.coefs, 1), (q.coefs, s2)), (nx, dx, ny, dy)
            yield csum((r.coefs, -1), (q.coefs, -s2)), (-nx, dx, ny, dy)
            t = {T2: SC_(1)}
            yield csum((r.coefs, 1), (q.coefs, s2), (t, 1)), (-nx, dx, -ny, dy)


def zero(p):
    c = clear([p])
    return c is not None and nf(c[0]).is_zero()


class Groups:
    def __init__(self, A):
        self.A = A
        self.forms = {}
        self.order = {}
        self.shape = None
        self.memo = {}
        self.stats = {"closed": 0, "tests": 0}
        for ty in range(len(A.P.tys)):
            lk = A.leaf_kind(ty)
            if lk and lk[0] == "fe":
                self.shape = lk[1:]

    # ---- types
    def fe_depth(self, ty):
        """nesting of newtypes around the limb array, or None"""
        n = 0
        P_ = self.A.P
        while True:
            if self.A.leaf_kind(ty):
                return n + 1 if self.A.leaf_kind(ty)[0] == "fe" else None
            t = P_.tys[ty]
            if t["k"] != "adt" or t["adt"] != "struct" or len(t["vars"][0]["fields"]) != 1:
                return None
            ty = t["vars"][0]["fields"][0][1]
            n += 1

    def wrap(self, ty, f):
        for _ in range(self.fe_depth(ty)):
            f = (f,)
        return f

    def unwrap(self, v):
        """FE of a field-typed value, or None"""
        w, n = self.shape
        while isinstance(v, tuple) and len(v) == 1:
            v = v[0]
        if isinstance(v, FE):
            return v
        if isinstance(v, tuple) and len(v) == n:
            return dom.close_fe(v, w, n)
        return None

    def form(self, ty):
        r = self.forms.get(ty, 0)
        if r == 0:
            r = None
            t = self.A.P.tys[ty]
            if t["k"] == "adt" and t["adt"] == "struct" and t["krate"] == "ed448_goldilocks":
                fs = t["vars"][0]["fields"]
                if len(fs) >= 2 and all(self.fe_depth(f[1]) for f in fs):
                    names = [f[0].lower() for f in fs]
                    for k, form in FORMS.items():
                        if sorted(k) == sorted(names):
                            nm = t["name"]
                            curve = "M" if form == "mont" else "W" if "twedwards" in nm or "twisted" in nm.lower() else "E"
                            r = (curve, form)
                            self.order[ty] = [names.index(x) for x in k]
            self.forms[ty] = r
        return r

    # ---- closing
    def close(self, ty, v):
        """GE for a point struct value, or None"""
        if isinstance(v, GE):
            return v
        f = self.form(ty)
        if f is None or not isinstance(v, tuple) or len(v) != len(self.order[ty]):
            return None
        fes = []
        w, n = self.shape
        B = dom.TIGHT if w == 56 else INV28
        for j in self.order[ty]:
            x = v[j]
            if x is UNINIT or isinstance(x, Poison):
                return None
            e = self.unwrap(x)
            if e is None or min(e.lo) < 0 or max(e.hi) > B:
                return None
            fes.append(e)
        key = (f, tuple(e.poly.key() for e in fes))
        r = self.memo.get(key, 0)
        if r == 0:
            try:
                r = self.classify(f[0], f[1], [e.poly for e in fes])
            except NoSummary:
                r = None
            self.memo[key] = r
        if r is None:
            return None
        coefs, dadd = r
        self.stats["closed"] += 1
        return GE(self.A, ty, f[0], f[1], coefs, dadd)

    def classify(self, curve, form, ps):
        # finite-domain selectors occurring in the coordinates
        bases = set()
        for p in ps:
            for s in p.syms():
                sy = SYMS[s]
                if sy.kind == "ind":
                    bases.add(sy.args[0])
                elif sy.boolean and sy.kind not in PL.FIELD_KINDS:
                    bases.add(s)
        bases = sorted(bases)
        ncase = 1
        for b in bases:
            ncase *= SYMS[b].hi - SYMS[b].lo + 1
        if ncase > 300:
            return None
        if not bases:
            return self.classify1(curve, form, ps)
        tab = []
        for asg in product(*[range(SYMS[b].lo, SYMS[b].hi + 1) for b in bases]):
            d = dict(zip(bases, asg))
            qs = [substd(p, d) for p in ps]
            k = (curve, form, tuple(q.key() for q in qs))
            r = self.memo.get(k, 0)
            if r == 0:
                r = self.classify1(curve, form, qs)
                self.memo[k] = r
            if r is None or r[1] is not None:
                return None
            tab.append((asg, r[0]))
        keys = set(k for _, c in tab for k in c)
        out = {}
        for k in keys:
            acc = Poly({})
            for asg, c in tab:
                if k in c:
                    q = c[k]
                    for b, x in zip(bases, asg):
                        q = q * I.indicator(b, x)
                    acc = acc + q
            acc = I.collapse(acc)
            if acc.t:
                out[k] = acc
        return out, None

    def classify1(self, curve, form, ps):
        self.stats["tests"] += 1
        if curve == "M":
            return self.classify_m(ps)
        if form == "ext":
            X, Y, Z, T = ps
        elif form == "aff":
            (X, Y), Z, T = ps, SC_(1), None
        elif form == "exs":
            X, Y, Z, t1, t2 = ps
            T = (t1 * t2).modred(P)
        elif form == "pn":
            yp, ym, td, zz = ps
            Y = (yp + ym).scale(HALF).modred(P)
            X = (yp - ym).scale(HALF).modred(P)
            Z = zz.scale(HALF).modred(P)
            T = td.scale(pow(2 * D_W, -1, P)).modred(P)
        if T is not None and not zero((T * Z - X * Y).modred(P)):
            return None
        c = clear([X, Y, Z])
        if c is None:
            return None
        X, Y, Z = [nf(p) for p in c]
        return self.match(curve, X, Y, Z)

    def match(self, curve, X, Y, Z):
        full, ms, other = recs_in([X, Y, Z])
        if ms or other:
            return None
        a, d = CURVE[curve]
        if not full:
            X, Y, Z = strip3(X, Y, Z)
            if X.is_const() and Y.is_const() and Z.is_const():
                z = Z.const_val() % P
                if z == 0:
                    return None
                zi = pow(z, -1, P)
                x, y = X.const_val() * zi % P, Y.const_val() * zi % P
                return const_point(curve, x, y)
            return None
        if not nonzero_poly(Z, full):
            return None
        for coefs, (nx, dx, ny, dy) in candidates(curve, full):
            if nf((X * dx - nx * Z).modred(P)).is_zero() and nf((Y * dy - ny * Z).modred(P)).is_zero():
                return coefs, None
        # constants may hide: e.g. the sum collapses to the identity
        if nf(X).is_zero() and nf((Y - Z).modred(P)).is_zero():
            return {}, None
        return None

    def classify_m(self, ps):
        U, W = ps
        one = W.is_const() and W.const_val() % P == 1
        if W.is_zero():
            if U.is_const() and U.const_val() % P:
                return {}, None
        if one and not any(SYMS[s].kind in ("gU", "gW") for s in U.syms()):
            return {("u", U.key()): SC_(1)}, None
        full, ms, other = recs_in([U, W])
        for r in ms:
            u, w = Poly.sym(r.U), Poly.sym(r.W)
            if prop2(U, W, u, w):
                return dict(r.coefs), None
            u2, w2 = (u * u).modred(P), (w * w).modred(P)
            s = ((u2 - w2) * (u2 - w2)).modred(P)
            t = ((u * w).scale(4) * (u2 + (u * w).scale(MONT_A) + w2)).modred(P)
            if prop2(U, W, s, t):
                return csum((r.coefs, 2)), None
        # doubling / differential addition of the affine input point itself
        ukeys = set()
        pts = [(r.coefs, Poly.sym(r.U), Poly.sym(r.W)) for r in ms]
        return self.dadd_match(U, W, pts)

    def dadd_match(self, U, W, pts):
        ub = set()
        for c, _, _ in pts:
            for b in c:
                if b[0] == "u":
                    ub.add(b)
        # the affine difference is a field polynomial among the remaining symbols
        rest = set(s for q in (U, W) for s in q.syms() if SYMS[s].kind not in ("gU", "gW"))
        cands = [("key", Poly_from_key(b[1]), b) for b in ub]
        for s in rest:
            if SYMS[s].kind == "pl":
                cands.append(("pl", Poly.sym(s), s))
        inf = ({}, SC_(1), SC_(0))
        for kind, u, b in cands:
            ext = list(pts)
            if kind == "key":
                ext += [({b: SC_(1)}, u, SC_(1)), inf]
                u1, w1 = u, SC_(1)
                # doubling of the input point
                s = (u * u - SC_(1)).modred(P)
                s = (s * s).modred(P)
                t = (u.scale(4) * (u * u + u.scale(MONT_A) + SC_(1))).modred(P)
                if prop2(U, W, s, t):
                    return {b: SC_(2)}, None
            for i in range(len(ext)):
                for j in range(i + 1, len(ext)):
                    (ca, ua, wa), (cb, ub_, wb) = ext[i], ext[j]
                    m1 = ((ua - wa) * (ub_ + wb)).modred(P)
                    m2 = ((ua + wa) * (ub_ - wb)).modred(P)
                    s = (m1 + m2).modred(P)
                    t = (m1 - m2).modred(P)
                    s = (s * s).modred(P)
                    t = (u * t * t).modred(P)
                    if prop2(U, W, s, t):
                        if kind == "key":
                            r = dadd_coefs(ca, cb, b)
                            return (r, None) if r is not None else None
                        return {}, (ca, cb, b)
        return None

    # ---- hooks called by the analyser
    def abstract(self, A, ty, v, cx):
        f = self.form(ty)
        if f is None:
            return None
        g = self.close(ty, v)
        if g is None or g.dadd is not None:
            if g is not None:
                raise NoSummary("pending differential addition")
            return None
        n = len(cx.leaves)
        cx.n_alg += 1
        cx.key.append(("ge",) + f)
        k = (n,) + f + (ty,)
        pl = self.place.get(k)
        if pl is None:
            pl = GE(A, ty, f[0], f[1], {("pl", n) + f: SC_(1)})
            self.place[k] = pl
            pl.xyz()
        cx.leaves.append((("ge", n), None))
        cx.genv[("pl", n) + f] = g
        px, gx = pl.xyz(), g.xyz()
        for a, b in zip(px, gx):
            if not a.is_const():
                s = next(iter(a.syms()))
                cx.senv[s] = b
        return pl

    place = {}

    def close_out(self, A, ty, v):
        if self.form(ty) is None:
            return None
        g = self.close(ty, v)
        if g is not None:
            if any(not dom.clean_int(c) for c in g.coefs.values()):
                g2 = {}
                for b, c in g.coefs.items():
                    g2[b] = tidy(c)
                g = GE(A, ty, g.curve, g.form, cnorm(g2), g.dadd)
        return g

    def apply(self, A, v, S):
        if not isinstance(v, GE):
            return None
        if v.dadd is not None:
            ca, cb, us = v.dadd
            ca, cb = sub_coefs(ca, S), sub_coefs(cb, S)
            u = S.env.get(us)
            if u is None:
                raise NoSummary("difference not bound")
            r = dadd_coefs(ca, cb, ("u", dom.fpoly(u).key()))
            if r is None:
                raise NoSummary("differential addition of points whose difference is not the input point")
            return GE(A, v.ty, v.curve, v.form, r)
        c = sub_coefs(v.coefs, S)
        return GE(A, v.ty, v.curve, v.form, c)


def bdep(b, dep):
    if b[0] == "pl":
        return True
    if b[0] == "iso":
        return bdep(b[1], dep)
    if b[0] == "u":
        return any(dep(x) for m, _ in b[1][0] for x in m[::2])
    return False


def coefs_dep(coefs, dep):
    return any(bdep(b, dep) or any(dep(s) for s in c.syms()) for b, c in coefs.items())


def sym_coefs(s):
    """coefficients of the point a coordinate symbol belongs to"""
    k = SYMS[s].kind
    if k in ("gx", "gy"):
        return REC[s][0].coefs
    if k in ("gU", "gW"):
        return MREC[s][0].coefs
    return GEOF[SYMS[s].args[0]].coefs


def subst_sym(s, S):
    k = SYMS[s].kind
    if k in ("gx", "gy"):
        r = REC[s][0]
        c = sub_coefs(r.coefs, S)
        x, y = GE(None, None, r.curve, "aff", c).affine()
        return x if k == "gx" else y
    if k in ("gU", "gW"):
        c = sub_coefs(MREC[s][0].coefs, S)
        u, w = GE(None, None, "M", "mont", c).xyz()
        return u if k == "gU" else w
    if k == "gz":
        g = GEOF[SYMS[s].args[0]]
        c = sub_coefs(g.coefs, S)
        if ckey(c) == ckey(g.coefs):
            return Poly.sym(s)
        uid = ("sub", s, ckey(c))
        if uid not in GEOF:
            n = GE(g.A, g.ty, g.curve, g.form, c)
            n.uid = uid
            GEOF[uid] = n
        return Poly.sym(intern("gz", (uid,), nz=True))
    raise NoSummary("cannot substitute in %s" % k)


summ.GSYM = (coefs_dep, sym_coefs, subst_sym)


def tidy(c):
    """express a coefficient without carry bookkeeping when the equalities allow it"""
    r = I.facts().reduce(c)
    if dom.clean_int(r):
        return r
    q = I.expand_nm(c)
    if dom.clean_int(q):
        return q
    q = I.expand_nm(r)
    if dom.clean_int(q):
        return q
    return r if len(r.t) <= len(c.t) else c


def dadd_coefs(ca, cb, b):
    if any(k != b for k in ca) or any(k != b for k in cb):
        return None
    z = Poly({})
    ka, kb = ca.get(b, z), cb.get(b, z)
    d = ka - kb
    q = I.collapse(d * d)
    if q.is_const() and q.const_val() == 1:
        return cnorm({b: ka + kb})
    return None


def sub_base(b, S):
    """coefficients of the image of base point b under a substitution"""
    if b[0] == "pl":
        g = S.genv.get(b)
        return dict(g.coefs) if g is not None else {b: SC_(1)}
    if b[0] == "iso":
        return ciso(sub_base(b[1], S))
    if b[0] == "u":
        q = S.fpoly(b[1])
        return {("u", q.key()): SC_(1)}
    return {b: SC_(1)}


def sub_coefs(coefs, S):
    parts = []
    for b, c in coefs.items():
        c2 = S.ipoly(c)
        for b2, k in sub_base(b, S).items():
            parts.append(({b2: k}, c2))
    out = {}
    for d, k in parts:
        for b, c in d.items():
            q = c * k
            out[b] = out[b] + q if b in out else q
    return cnorm({b: I.collapse(c) for b, c in out.items()})


def substd(p, d):
    """fix finite-domain selectors (booleans and indicator families)"""
    t = {}
    for m, c in p.t.items():
        out = []
        z = False
        for i in range(0, len(m), 2):
            s = m[i]
            sy = SYMS[s]
            if s in d:
                c = c * d[s] ** m[i + 1]
                if not c:
                    z = True
                    break
            elif sy.kind == "ind" and sy.args[0] in d:
                if d[sy.args[0]] != sy.args[1]:
                    z = True
                    break
            else:
                out += [s, m[i + 1]]
        if z:
            continue
        k = tuple(out)
        v = (t.get(k, 0) + c) % P
        if v:
            t[k] = v
        else:
            t.pop(k, None)
    return Poly(t)


def prop2(U, W, s, t):
    """(U, W) = c * (s, t) for a nonzero constant c"""
    for a, b in ((U, s), (W, t)):
        if b.t:
            m = max(b.t)
            if m not in a.t:
                return False
            c = a.t[m] * pow(b.t[m], -1, P) % P
            return ((U - s.scale(c)).modred(P).is_zero() and (W - t.scale(c)).modred(P).is_zero())
    return False


def strip3(X, Y, Z):
    """divide three polynomials by a common known-nonzero monomial"""
    for p in (Z, Y, X):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            inv = []
            for i in range(0, len(m), 2):
                if not SYMS[m[i]].nz:
                    return X, Y, Z
                inv += [m[i], -m[i + 1]]
            q = Poly({tuple(inv): 1})
            return (X * q).modred(P), (Y * q).modred(P), (Z * q).modred(P)
    return X, Y, Z


def on_curve(curve, x, y):
    a, d = CURVE[curve]
    return (a * x * x + y * y - 1 - d * x * x * y * y) % P == 0


def const_point(curve, x, y):
    if not on_curve(curve, x, y):
        return None
    if (x, y) == (0, 1):
        return {}, None
    if (x, y) == (0, P - 1):
        return {T2: SC_(1)}, None
    return {("const", curve, x, y): SC_(1)}, None


def merge_hook(c, a, b):
    if isinstance(a, GE) or isinstance(b, GE):
        g = a if isinstance(a, GE) else b
        G = g.A.groups
        if isinstance(a, GE) and isinstance(b, GE) and (a.curve, a.form) == (b.curve, b.form) and isinstance(c, IV) \
                and a.dadd is None and b.dadd is None:
            keys = set(a.coefs) | set(b.coefs)
            z = Poly({})
            out = {}
            for k in keys:
                x, y = a.coefs.get(k, z), b.coefs.get(k, z)
                q = I.collapse(y + c.p * (x - y))
                if q.t:
                    out[k] = q
            return GE(a.A, a.ty, a.curve, a.form, out)
    return None


MERGE_HOOK.append(merge_hook)


def install(A):
    A.groups = Groups(A)
    return A.groups
