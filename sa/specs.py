"""The obligations: for every property, which functions of the crate are analysed and
what their abstract result has to be.  The expected values come from the public
definitions (RFC 7748, RFC 8032, the Decaf formulas), computed here with Python
integers and with the same algebraic normal forms; nothing of the crate is run."""
import signal
from itertools import product
from . import ints as I, poly as PL, dom, summ, groups, interp
from .ints import IV, pol, rng
from .poly import Poly, SYMS, intern, interval, Poly_from_key, P, L
from .interp import En, Ptr, Unsupported, Diverge, elems, UNINIT
from .dom import FE, SC
from .groups import GE, D_E, D_W
from .summ import NoSummary, fpow

SC_ = Poly.const
CRATE = "ed448_goldilocks"
GX = 224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710
GY = 298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660
ORDER = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
assert L == ORDER
assert P == 2**448 - 2**224 - 1


class Fail(Exception):
    """an obligation that does not hold"""


class Budget(Exception):
    pass


def alarm(sig, frm):
    raise Budget()


# ------------------------------------------------------------------ affine arithmetic on integers
def eadd(curve, p, q):
    a, d = groups.CURVE[curve]
    (x1, y1), (x2, y2) = p, q
    k = d * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + y1 * x2) * pow(1 + k, -1, P) % P, (y1 * y2 - a * x1 * x2) * pow(1 - k, -1, P) % P)


def emul(curve, n, p):
    r = (0, 1)
    while n:
        if n & 1:
            r = eadd(curve, r, p)
        p = eadd(curve, p, p)
        n >>= 1
    return r


def phi(a, x, y):
    """the 4-isogeny derived from doubling, on integers"""
    x2, y2 = x * x % P, y * y % P
    return (2 * x * y * pow(y2 - a * x2, -1, P) % P, (y2 + a * x2) * pow(2 - y2 - a * x2, -1, P) % P)


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prog, cfg):
        self.P = prog
        self.cfg = cfg
        self.it = summ.Analyzer(prog)
        self.G = self.it.groups
        self.w, self.n = self.G.shape
        self.B = dom.TIGHT if self.w == 56 else summ.INV28
        self.limit = 240
        self.log = []
        self.ty_cache = {}

    # ---- inputs
    def ref(self, v):
        return Ptr(self.it.new_cell(v), (), None, None)

    def tyof(self, curve, form):
        k = (curve, form)
        if k not in self.ty_cache:
            c = [t for t in range(len(self.P.tys)) if self.G.form(t) == k]
            if not c:
                raise Fail("no point type recognised for %s/%s" % k)
            self.ty_cache[k] = c[0]
        return self.ty_cache[k]

    def point(self, ty, name):
        f = self.G.form(ty)
        return GE(self.it, ty, f[0], f[1], {("in", name): SC_(1)})

    def scal(self, name, full=False):
        hi = 2**448 - 1 if full else L - 1
        s = intern("in", (name, full), 0, hi)
        return SC(Poly.sym(s), 0, hi)

    def fe(self, name):
        return FE(Poly.sym(intern("fe", (name,))), self.w, self.n, (0,) * self.n, (self.B,) * self.n)

    def byts(self, name, n):
        return tuple(I.fresh_in("%s%d" % (name, i), 0, 255) for i in range(n))

    def xy(self, curve, coefs):
        return GE(None, None, curve, "aff", coefs).affine()

    def arg(self, ty, name, full=True):
        """most general argument of a type"""
        t = self.P.tys[ty]
        k = t["k"]
        if k in ("ref", "ptr"):
            e = self.P.tys[t["e"]]
            if e["k"] == "slice":
                raise Fail("slice argument")
            return self.ref(self.arg(t["e"], name, full))
        if self.G.form(ty):
            return self.point(ty, name)
        lk = self.it.leaf_kind(ty)
        if lk:
            if lk[0] == "sc":
                return (self.scal(name, full),)
            return (self.fe(name),)
        if self.P.erased(ty):
            return self.arg(self.P.erased_inner(ty), name, full)
        if k == "bool":
            return I.fresh_in(name, 0, 1)
        if k == "int":
            b = t["bits"]
            return I.fresh_in(name, -(1 << (b - 1)) if t["s"] else 0, (1 << (b - (1 if t["s"] else 0))) - 1)
        if k == "array":
            return tuple(self.arg(t["e"], "%s.%d" % (name, i), full) for i in range(t["n"]))
        if k == "tuple":
            return tuple(self.arg(x, "%s.%d" % (name, i), full) for i, x in enumerate(t["ts"]))
        if k == "adt" and t["adt"] == "struct":
            if t["name"].endswith("Choice") and t["krate"] == "subtle":
                return (I.fresh_in(name, 0, 1),)
            fs = t["vars"][0]["fields"]
            if len(fs) == 1:
                return (self.arg(fs[0][1], name, full),)
            return tuple(self.arg(f[1], "%s.%d" % (name, i), full) for i, f in enumerate(fs))
        raise Fail("no abstract argument for type %s" % t["str"])

    # ---- running
    def root(self, name):
        if name not in self.P.roots:
            raise Fail("public operation behind %s no longer exists with this signature" % name)
        return self.P.roots[name]

    def target(self, iid):
        """the crate function a harness root exercises: (name, file, line)"""
        inst = self.P.insts[iid]
        if inst["krate"] == CRATE:
            return inst
        seen, q = set(), [iid]
        while q:
            k = q.pop(0)
            if k in seen:
                continue
            seen.add(k)
            inst = self.P.insts[k]
            if inst["krate"] == CRATE:
                return inst
            b = self.P.body(k)
            if b is not None:
                q += calls(self.P, b)
        return self.P.insts[iid]

    def call(self, iid, args):
        I.reset()
        it = self.it
        it.events = []
        it.evset = set()
        it.assume = []
        it.stack = []
        it.depth_switch = {}
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(self.limit)
        try:
            return it.call(iid, args)
        except Budget:
            raise Fail("analysis budget exceeded (abstract value does not simplify)")
        except Diverge:
            raise Fail("never returns: %s" % "; ".join(sorted(set(evtext(e) for e in it.events if e["kind"] == "panic")))[:300])
        except (Unsupported, NoSummary) as e:
            raise Fail("value outside the abstract domain: %s" % e)
        except RecursionError:
            raise Fail("analysis budget exceeded (recursion)")
        except MemoryError:
            raise Fail("analysis budget exceeded (memory)")
        finally:
            signal.alarm(0)

    def run(self, name, args):
        return self.call(self.root(name), args)

    def auto(self, name, full=True):
        iid = self.root(name)
        body = self.P.body(iid)
        return self.run(name, [self.arg(body.locals[1 + i], "abcdefgh"[i], full) for i in range(body.argc)])

    def ret_ty(self, iid):
        return self.P.body(iid).locals[0]

    # ---- reading results
    def pt(self, ty, v):
        """closed point inside a (possibly newtype-wrapped) value"""
        while not self.G.form(ty):
            t = self.P.tys[ty]
            if t["k"] in ("ref", "ptr"):
                ty, v = t["e"], self.it.deref(v)
                continue
            if t["k"] != "adt" or len(t["vars"][0]["fields"]) != 1:
                raise Fail("result is not a point")
            ty = t["vars"][0]["fields"][0][1]
            v = elems(v)[0]
        g = self.G.close(ty, v)
        if g is None:
            raise Fail("the returned coordinates are not the coordinates of any combination of the inputs on the curve (group law violated or not derivable)")
        if g.dadd is not None:
            raise Fail("differential addition of points whose difference is not the input point")
        return GE(self.it, ty, g.curve, g.form, groups.cnorm({b: groups.tidy(c) for b, c in g.coefs.items()}))

    def coord(self, ty, v):
        """raw coordinate polynomials of a point value (in FORMS order) even when it does not close"""
        while not self.G.form(ty):
            t = self.P.tys[ty]
            ty = t["vars"][0]["fields"][0][1]
            v = elems(v)[0]
        if isinstance(v, GE):
            return self.G.form(ty), v.fields()
        out = []
        for j in self.G.order[ty]:
            e = self.G.unwrap(v[j])
            if e is None:
                raise Fail("coordinate is not a reduced field element")
            out.append(e.poly)
        return self.G.form(ty), out

    def fev(self, v):
        while isinstance(v, tuple) and len(v) == 1:
            v = v[0]
        f = v if isinstance(v, FE) else dom.close_fe(v, self.w, self.n) if isinstance(v, tuple) else None
        if f is None or dom.has_limb(f.poly):
            raise Fail("limbs do not represent a function of the operands modulo p")
        if min(f.lo) < 0 or max(f.hi) > self.bound_out:
            raise Fail("limb bound %s exceeded: result limbs may reach %s" % (hex(self.bound_out), hex(max(f.hi))))
        return f

    @property
    def bound_out(self):
        return dom.LOOSE if self.w == 56 else (1 << 30)

    def scv(self, v):
        while isinstance(v, tuple) and len(v) == 1:
            v = v[0]
        s = dom.close_sc(v)
        if s is None:
            raise Fail("limbs do not form a scalar value")
        return s


def calls(prog, body):
    """statically resolved callees of a body, in block order"""
    out = []
    for bb in body.blocks:
        if bb.t[0] == "call":
            t = prog.tys[prog.optype(bb.t[1])]
            if t["k"] == "fndef" and t["inst"] is not None:
                out.append(t["inst"])
        elif bb.t[0] == "drop" and bb.t[3] is not None:
            out.append(bb.t[3])
    return out


def evtext(e):
    return "%s:%s in %s: %s" % (e["file"].replace("/repo/", ""), e["line"], e["call"], e["msg"])


def show(p, n=160):
    return p.short()[:n] if isinstance(p, Poly) else str(p)[:n]


def showc(coefs):
    return " + ".join("(%s)*%s" % (show(c, 80), "".join(str(x)[:24] + " " for x in b).strip()) for b, c in sorted(coefs.items(), key=lambda z: str(z[0]))) or "identity"


# ------------------------------------------------------------------ expectations
def want_coefs(g, coefs):
    coefs = groups.cnorm(coefs)
    keys = set(g.coefs) | set(coefs)
    z = Poly({})
    for k in keys:
        a, b = g.coefs.get(k, z), coefs.get(k, z)
        if not a.eq(b):
            d = groups.tidy(I.collapse(a - b))
            if not d.is_zero():
                raise Fail("computes %s instead of %s" % (showc(g.coefs), showc(coefs)))


def want_poly(a, b, what="value"):
    a, b = pol(a) if not isinstance(a, Poly) else a, pol(b) if not isinstance(b, Poly) else b
    if not a.eq(b):
        if not groups.tidy(a - b).is_zero():
            raise Fail("%s is %s instead of %s" % (what, show(a), show(b)))


def boolsyms(p):
    return sorted(s for s in p.syms() if SYMS[s].boolean and SYMS[s].kind not in PL.FIELD_KINDS)


def fzero(p):
    """field polynomial is zero modulo the curve equations and the definitions of names"""
    if p.is_zero():
        return True
    neg = {}
    for m in p.t:
        for i in range(0, len(m), 2):
            if m[i + 1] < 0:
                neg[m[i]] = min(neg.get(m[i], 0), m[i + 1])
    if neg:
        p = (p * Poly({tuple(x for s in sorted(neg) for x in (s, -neg[s])): 1})).modred(P)
    if any(e > dom.BIGEXP for m in p.t for e in m[1::2]):
        p = summ.content(p)[2]
    p = dom.unleaf(p, dom.wdeps(p.syms()))
    for _ in range(60):
        ws = [s for s in p.syms() if SYMS[s].kind == "W" and dom.leaf_w(s) is None]
        if not ws:
            break
        s = max(ws)
        top = max(m[i + 1] for m in p.t for i in range(0, len(m), 2) if m[i] == s)
        d = Poly_from_key(SYMS[s].args[0])
        if top > 8 or len(d.t) ** top > 20000 or len(p.t) * len(d.t) ** top > 200000:
            return False
        p = p.subst1(s, d, P)
    return groups.nf(p).is_zero()


def want_field(a, b, what):
    """equality in GF(p)"""
    d = dom.fpoly(a - b)
    if d.is_zero():
        return
    bs = boolsyms(d)
    if len(bs) <= 6:
        ok = True
        for asg in product((0, 1), repeat=len(bs)):
            q = d
            for s, v in zip(bs, asg):
                q = q.subst1(s, SC_(v), P)
            if not fzero(q):
                ok = False
                break
        if ok:
            return
    raise Fail("%s is %s instead of %s" % (what, show(a), show(b)))


def want_canon(bytes_, f, what, extra=None):
    """the bytes are the little-endian canonical representative of field value f"""
    V = dom.undigits(bytes_, 8)
    if extra is not None:
        V = V - extra
    want_int_canon(V, f, what)


def want_int_canon(V, f, what):
    E = dom.canon_poly(f)
    if V.eq(E) or groups.tidy(V - E).is_zero():
        return
    # case split over shared booleans, compare field values
    bs = sorted(set(boolsyms(V)) | set(boolsyms(E)))
    if len(bs) > 8:
        raise Fail("%s is %s instead of the canonical encoding of %s" % (what, show(V), show(f)))
    for asg in product((0, 1), repeat=len(bs)):
        v, e = V, f
        for s, x in zip(bs, asg):
            v = v.subst1(s, SC_(x))
            e = e.subst1(s, SC_(x), P)
        g = dom.is_canon(v)
        if g is None:
            raise Fail("%s: bytes are not the canonical encoding of a field element: %s" % (what, show(v)))
        if not fzero(dom.fpoly(g - e)):
            raise Fail("%s encodes %s instead of %s" % (what, show(g), show(e)))


def le(bytes_, w=8):
    return dom.undigits(bytes_, w)


def bit(v):
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    return dom.join_eqs(pol(v))


def feqp(f):
    return pol(dom.feq(f))


def negp(f):
    """[canonical representative is odd]"""
    return pol(I.modp(dom.canon_poly(dom.fpoly(f)), 1))


def sel(c, a, b):
    """c ? a : b in GF(p)"""
    return dom.fpoly(b + c * (a - b))


# ------------------------------------------------------------------ registry
OBS = []        # (property, name, roots/anchor description, fn)


def ob(prop, name, what=None):
    def deco(f):
        OBS.append((prop, name, what or (f.__doc__ or "").strip(), f))
        return f
    return deco


def group_ob(prop, root, mk, post=None, desc=None):
    """root(args) is the combination mk() of its point inputs"""
    def f(c):
        iid = c.root(root)
        body = c.P.body(iid)
        args = [c.arg(body.locals[1 + i], "abcdefgh"[i]) for i in range(body.argc)]
        r = c.call(iid, args)
        if c.P.tys[body.locals[0]]["k"] == "tuple":
            # compound assignment: the first argument is updated in place
            g = c.pt(body.locals[1], args[0])
        else:
            g = c.pt(body.locals[0], r)
        want_coefs(g, mk(c, args))
        nopanic(c)
    OBS.append((prop, root, desc or "", f))


def nopanic(c):
    bad = [e for e in c.it.events if e["kind"] in ("panic", "assert", "contract", "choice")]
    if bad:
        raise Fail(evtext(bad[0]))


IN = lambda n: ("in", n)
A, B_, C_ = IN("a"), IN("b"), IN("c")
ONE = SC_(1)


def spoly(args, i):
    v = args[i]
    return v


def scalar_in(c, name="b", full=True):
    return c.scal(name, full).poly


# ================================================================== C01 field arithmetic
def crate_fns(c, pred):
    out = []
    for i in c.P.insts:
        if i["krate"] == CRATE and "{closure" not in i["name"] and c.P.body(i["id"]) is not None and pred(i):
            out.append(i)
    return out


def fe_ty(c, ty):
    t = c.P.tys[ty]
    if t["k"] == "ref":
        return fe_ty(c, t["e"])
    return t["k"] == "adt" and t["krate"] == CRATE and c.G.fe_depth(ty) is not None


def fe_fns(c, meth, nargs):
    """functions of the field element type by method name and arity"""
    def ok(i):
        if i["name"].rsplit("::", 1)[-1] != meth:
            return False
        b = c.P.body(i["id"])
        return b.argc == nargs and fe_ty(c, b.locals[1])
    return crate_fns(c, ok)


def fe_arg(c, ty, name):
    return c.arg(ty, name)


def field_ob(prop, meth, nargs, want, need=False, inplace=False, extra=None, key=None):
    def f(c):
        fs = fe_fns(c, meth, nargs)
        if extra:
            fs = [i for i in fs if extra(c, i)]
        if not fs:
            if need:
                raise Fail("field operation `%s` not found" % meth)
            return 0
        for i in fs:
            b = c.P.body(i["id"])
            args = [c.arg(b.locals[1 + k], "xyz"[k]) for k in range(nargs)]
            try:
                r = c.call(i["id"], args)
                nopanic(c)
                want(c, r, args, b)
            except Fail as e:
                raise Fail("%s: %s" % (fnref(c, i), e))
        return len(fs)
    OBS.append((prop, "field::" + (key or meth), "field element method `%s`, every impl" % meth, f))


def fnref(c, i):
    sp = i.get("sp")
    return "%s (%s:%s)" % (i["name"], c.P.file(sp).replace("/repo/", "") if sp else "?", sp[1] if sp else "?")


FX, FY = Poly.sym(intern("fe", ("x",))), Poly.sym(intern("fe", ("y",)))


def fe_is(expr):
    return lambda c, r, args, b: want_field(c.fev(r).poly, dom.fpoly(expr()), "result")


def fe_mut(expr):
    def w(c, r, args, b):
        want_field(c.fev(c.it.deref(args[0])).poly, dom.fpoly(expr(c)), "updated element")
    return w


field_ob("C01", "add", 2, fe_is(lambda: FX + FY), need=True)
field_ob("C01", "sub", 2, fe_is(lambda: FX - FY), need=True)
field_ob("C01", "mul", 2, fe_is(lambda: FX * FY), need=True)
field_ob("C01", "square", 1, fe_is(lambda: FX * FX))
field_ob("C01", "negate", 1, fe_is(lambda: -FX))
field_ob("C01", "add_no_reduce", 2, fe_is(lambda: FX + FY))
field_ob("C01", "neg", 1, fe_is(lambda: -FX))


def sub_nr(c, r, args, b):
    want_field(c.fev(r).poly, dom.fpoly(FX - FY), "result")


def raw_value(c, v):
    """integer value of a limb array modulo p, without requiring reduced limbs"""
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    f = v if isinstance(v, FE) else dom.close_fe(v, c.w, c.n)
    if f is None or dom.has_limb(f.poly):
        raise Fail("limbs do not represent a function of the operands modulo p")
    return f


def w_reduce(c, r, args, b):
    want_field(c.fev(c.it.deref(args[0])).poly, FX, "reduced element")


def w_strong(c, r, args, b):
    v = c.it.deref(args[0])
    f = c.fev(v)
    want_field(f.poly, FX, "reduced element")


field_ob("C01", "weak_reduce", 1, w_reduce)
field_ob("C01", "strong_reduce", 1, w_strong)


def const_fe(val):
    def f(c, meth):
        fs = crate_fns(c, lambda i: i["name"].rsplit("::", 1)[-1] == meth and c.P.body(i["id"]).argc == 0
                       and fe_ty(c, c.P.body(i["id"]).locals[0]))
        for i in fs:
            r = c.call(i["id"], [])
            v = raw_value(c, r)
            if not v.poly.is_const() or (v.poly.const_val() - val) % P:
                raise Fail("%s: returns %s instead of %s" % (fnref(c, i), show(v.poly), val))
        return len(fs)
    return f


for meth, val in (("zero", 0), ("one", 1), ("minus_one", -1), ("default", 0)):
    OBS.append(("C01", "field::" + meth, "constant constructor", lambda c, m=meth, v=val: const_fe(v)(c, m)))


# ================================================================== C02 field encoding, equality, parity
def w_to_bytes(c, r, args, b):
    want_canon(elems(r), FX, "to_bytes")


def w_isneg(c, r, args, b):
    want_poly(bit(r), negp(FX), "sign bit")


def w_iszero(c, r, args, b):
    want_poly(bit(r), feqp(FX), "zero test")


def w_eq(c, r, args, b):
    want_poly(bit(r), feqp(FX - FY), "equality")


def w_frombytes(c, r, args, b):
    bs = args[0]
    if isinstance(bs, Ptr):
        bs = c.it.deref(bs)
    want_field(c.fev(r).poly, dom.fpoly(le(elems(bs))), "decoded element")


field_ob("C02", "to_bytes", 1, w_to_bytes)
field_ob("C02", "is_negative", 1, w_isneg)
field_ob("C02", "is_zero", 1, w_iszero)
field_ob("C02", "ct_eq", 2, w_eq)
field_ob("C02", "eq", 2, w_eq)


@ob("C02", "field::from_bytes", "decoding of all 2^448 byte strings")
def _(c):
    def ok(i):
        if i["name"].rsplit("::", 1)[-1] != "from_bytes":
            return False
        b = c.P.body(i["id"])
        return b.argc == 1 and fe_ty(c, b.locals[0])
    fs = crate_fns(c, ok)
    for i in fs:
        b = c.P.body(i["id"])
        args = [c.arg(b.locals[1], "x")]
        r = c.call(i["id"], args)
        nopanic(c)
        try:
            w_frombytes(c, r, args, b)
        except Fail as e:
            raise Fail("%s: %s" % (fnref(c, i), e))
    return len(fs)


# observable through the public API: a Montgomery u-coordinate survives decode/encode as its canonical representative
@ob("C02", "m_proj_rt", "public decode-then-encode round trip")
def _(c):
    b = c.byts("u", 56)
    r = c.run("m_proj_rt", [b])
    nopanic(c)
    want_canon(elems(r), dom.fpoly(le(b)), "round trip")


# ================================================================== C03 inversion and square roots
field_ob("C03", "invert", 1, fe_is(lambda: fpow(FX, P - 2)))


def w_isr(c, r, args, b):
    v, okk = elems(r)
    want_field(c.fev(v).poly, fpow(FX, (P - 3) // 4), "candidate root")
    want_poly(bit(okk), feqp(fpow(FX, (P - 1) // 2) - ONE), "residue flag")


def w_ratio(c, r, args, b):
    v, okk = elems(r)
    q = dom.fpoly(FX * FY)
    isr = fpow(q, (P - 3) // 4)
    want_field(c.fev(v).poly, dom.fpoly(isr * FX), "candidate root of u/v")
    res = feqp(dom.fpoly(fpow(q, (P - 1) // 2)) - ONE)
    z = feqp(FX)
    want_poly(I.collapse(bit(okk)), I.collapse(z + res - z * res), "was-square flag")


field_ob("C03", "inverse_square_root", 1, w_isr)
field_ob("C03", "sqrt_ratio", 2, w_ratio)


# ================================================================== C06/C07 scalars
def sc_ob(prop, root, expr, names=("a", "b"), full=False):
    def f(c):
        iid = c.root(root)
        body = c.P.body(iid)
        args = []
        ins = []
        for i in range(body.argc):
            s = c.scal("abc"[i], full)
            ins.append(s.poly)
            args.append(c.ref((s,)) if c.P.tys[body.locals[1 + i]]["k"] == "ref" else (s,))
        r = c.call(iid, args)
        nopanic(c)
        s = c.scv(r)
        want_poly(s.poly, expr(*ins), "scalar")
        if s.hi >= L:
            raise Fail("result is not known to be below the group order")
    OBS.append((prop, root, "", f))


CL = lambda p: dom.canonl_poly(dom.lpoly(p))
sc_ob("C06", "s_add", lambda a, b: CL(a + b))
sc_ob("C06", "s_sub", lambda a, b: CL(a - b))
sc_ob("C06", "s_mul", lambda a, b: CL(a * b))
sc_ob("C06", "s_zero", lambda: SC_(0))
sc_ob("C06", "s_one", lambda: SC_(1))
sc_ob("C06", "s_default", lambda: SC_(0))
sc_ob("C07", "s_halve", lambda a: CL(a.scale(pow(2, -1, L))))
sc_ob("C07", "s_invert", lambda a: CL(dom.lpow(a, L - 2)))


@ob("C06", "s_from_u32", "conversion of every u32")
def _(c):
    n = I.fresh_in("n", 0, 2**32 - 1)
    r = c.run("s_from_u32", [n])
    nopanic(c)
    want_poly(c.scv(r).poly, n.p, "scalar")


@ob("C06", "s_mul_full", "multiplication also reduces unreduced operands")
def _(c):
    a, b = c.scal("a", True), c.scal("b", True)
    r = c.run("s_mul", [(a,), (b,)])
    nopanic(c)
    s = c.scv(r)
    want_poly(s.poly, CL(a.poly * b.poly), "product")


# ================================================================== C08 scalar encodings
@ob("C08", "s_from_bytes", "every 56-byte string")
def _(c):
    b = c.byts("b", 56)
    r = c.run("s_from_bytes", [b])
    nopanic(c)
    want_poly(c.scv(r).poly, le(b), "scalar")


@ob("C08", "s_to_bytes", "every limb pattern")
def _(c):
    s = c.scal("a", True)
    r = c.run("s_to_bytes", [c.ref((s,))])
    nopanic(c)
    want_poly(le(elems(r)), s.poly, "encoding")


@ob("C08", "s_to_rfc", "every limb pattern")
def _(c):
    s = c.scal("a", True)
    r = c.run("s_to_rfc", [c.ref((s,))])
    nopanic(c)
    if len(elems(r)) != 57:
        raise Fail("RFC 8032 encoding is not 57 bytes")
    want_poly(le(elems(r)), s.poly, "encoding")


def solved(s, v):
    """(E, lo, hi): what the value v of the 0/1 or small atom s says about a combination E of input bytes"""
    sy = SYMS[s]
    if sy.kind == "eq0":
        p = Poly_from_key(sy.args[0])
        if not p.sh and len(p.t) == 2:
            # X - (X mod 2^k), for an input byte X
            for m, c in p.t.items():
                y = SYMS[m[0]] if len(m) == 2 and m[1] == 1 else None
                if y is None or y.kind != "mod":
                    continue
                X = Poly_from_key(y.args[1])
                r = interval(X)
                if (p - Poly({m: c})).eq(X.scale(-c)) and r is not None and r[0] >= 0 and not X.sh:
                    return (X, 0, (1 << y.args[0]) - 1) if v else (X, 1 << y.args[0], r[1])
        return (p, 0, 0) if v else (p, None, None)
    if sy.kind != "nm" or sy.args[1]:
        return None
    p = Poly_from_key(sy.args[0])
    k = p.sh
    p = Poly(p.t, 0)
    ms = [x for x in p.syms() if SYMS[x].kind == "mod"]
    lo = hi = v << k            # p == v * 2^k
    for x in ms:
        c = p.t.get((x, 1))
        if c is None:
            return None
        p = p - Poly.sym(x).scale(c)
        r = (c * SYMS[x].lo, c * SYMS[x].hi)
        lo, hi = lo - max(r), hi - min(r)
    if any(x in m for m in p.t for x in ms):
        return None
    return p, lo, hi


class Narrow:
    """interval of a sum of input bytes under interval constraints on sub-sums of it"""

    def __init__(self, N):
        self.N = Poly(N.t, 0)
        self.c = {}         # (sub-sum) -> [weight, lo, hi, excluded values]
        self.empty = False

    def add(self, E, lo, hi):
        E = Poly(E.norm().t, 0)
        k = E.t.get((), 0)
        E = E - Poly.const(k)
        if not E.t:
            return
        if max(E.t.items())[1] < 0:
            E = -E
            k = -k
            if lo is not None:
                lo, hi = -hi, -lo
        if lo is not None:
            lo, hi = lo - k, hi - k
        m = max(E.t)
        cn = self.N.t.get(m)
        if cn is None or cn % E.t[m]:
            return
        w = cn // E.t[m]
        if w <= 0 or any(self.N.t.get(m) != w * c for m, c in E.t.items()):
            return
        key = E.key()
        e = self.c.get(key)
        if e is None:
            r = interval(E)
            e = self.c[key] = [w, r[0], r[1], set(), E]
        if lo is None:
            e[3].add(-k)
        else:
            e[1], e[2] = max(e[1], lo), min(e[2], hi)
        while e[1] <= e[2] and e[1] in e[3]:
            e[1] += 1
        while e[1] <= e[2] and e[2] in e[3]:
            e[2] -= 1
        if e[1] > e[2]:
            self.empty = True

    def bound(self):
        """the constraints hold together: any choice of disjoint ones bounds the sum"""
        a, b = self.bound1(-1), self.bound1(1)
        return max(a[0], b[0]), min(a[1], b[1])

    def bound1(self, sg):
        rest = self.N
        lo = hi = 0
        used = set()
        for e in sorted(self.c.values(), key=lambda e: sg * len(e[4].t)):
            ss = set(e[4].t)
            if ss & used:
                continue
            used |= ss
            rest = rest - e[4].scale(e[0])
            lo, hi = lo + e[0] * e[1], hi + e[0] * e[2]
        r = interval(rest)
        return lo + r[0], hi + r[1]


def split_eqs(d):
    """the converse of a join: a test of a sum of separate digits, as one test per digit"""
    for s in list(d.syms()):
        if SYMS[s].kind != "eq0":
            continue
        p = Poly_from_key(SYMS[s].args[0])
        if p.sh or not any(SYMS[x].kind == "mod" for x in p.syms()) or any(len(m) != 2 or m[1] != 1 for m in p.t):
            continue
        g = {}
        for m, c in p.t.items():
            y = SYMS[m[0]]
            k = y.args[1] if y.kind == "mod" else Poly.sym(m[0]).key()
            g[k] = g.get(k, Poly({})) + Poly({m: c})
        if len(g) > 1 and dom.separate(list(g.values())) is not None:
            q = Poly.const(1)
            for e in g.values():
                q = q * pol(I.eq0(I.mkp(e)))
            d = d.subst1(s, q)
    return d


def decides_lt(d, N, bound, assume):
    """d == 1  <=>  N < bound, for d over finite-domain atoms"""
    for s, v in assume.items():
        d = d.subst1(s, SC_(v))
    try:
        return decides_lt1(I.collapse(split_eqs(d)), N, bound)
    except Fail as e:
        first = e
        j = dom.join_eqs(d)
        if j is d:
            raise
    try:
        decides_lt1(I.collapse(j), N, bound)
    except Fail:
        raise first


def decides_lt1(d, N, bound):
    left = [4000]

    def atoms(p):
        at = set()
        for s in p.syms():
            sy = SYMS[s]
            at.add(sy.args[0] if sy.kind == "ind" else s)
        return sorted(at)

    def put(p, s, v):
        if SYMS[s].kind != "bx":
            for x in p.syms():
                if SYMS[x].kind == "ind" and SYMS[x].args[0] == s:
                    p = p.subst1(x, SC_(int(SYMS[x].args[1] == v)))
        return p.subst1(s, SC_(v)) if s in p.syms() else p

    def go(d, m):
        left[0] -= 1
        if left[0] < 0:
            raise Fail("too many cases in the acceptance test")
        nr = Narrow(N)
        for s, v in m.items():
            e = solved(s, v)
            if e is not None:
                nr.add(*e)
        if nr.empty:
            return
        at = atoms(d)
        if not at:
            leaf(I.evalp(d, {}), m, nr.bound())
            return
        pl = [s for s in at if SYMS[s].kind != "bx"]
        if not pl:
            s = at[0]
            q = Poly_from_key(SYMS[s].args[0])
            for a, v in m.items():
                q = put(q, a, v)
            go(I.collapse(d.subst1(s, q)), m)
            return
        s = pl[0]
        sy = SYMS[s]
        if sy.lo is None or sy.hi - sy.lo > I.SMALL:
            raise Fail("acceptance depends on %s" % show(d))
        for v in range(sy.lo, sy.hi + 1):
            go(put(d, s, v), {**m, s: v})

    def leaf(val, m, b):
        if val not in (0, 1):
            raise Fail("acceptance flag may be %d" % val)
        if (val == 1 and b[1] < bound) or (val == 0 and b[0] >= bound):
            return
        with I.Case(m) as cs:
            if cs.bad:
                return
            lo, hi = I.deep_bound(N, *b)
            for s, v in m.items():
                # [N == N mod l] holds exactly for N < l
                if SYMS[s].kind == "eq0":
                    p = Poly_from_key(SYMS[s].args[0])
                    cl = [x for x in p.syms() if SYMS[x].kind == "canonl"]
                    if len(cl) == 1 and abs(p.t.get((cl[0], 1), 0)) == 1:
                        q = p + Poly.sym(cl[0]) if p.t[(cl[0], 1)] < 0 else Poly.sym(cl[0]) - p
                        if dom.lpoly(p).is_zero():
                            gap = (0, 0) if q.eq(N) else I.deep_bound(N - q)
                            if v:
                                hi = min(hi, L - 1 + gap[1])
                            else:
                                lo = max(lo, L + gap[0])
            if lo > hi:
                return
        if val == 1 and hi >= bound:
            raise Fail("accepts encodings whose value may reach %s, at or above the group order" % hex(hi))
        if val == 0 and lo < bound:
            raise Fail("may reject encodings of values down to %s, below the group order" % hex(lo))

    go(d, {})


@ob("C08", "s_from_canonical", "every 57-byte string: accepted iff it encodes an integer below the group order")
def _(c):
    b = c.byts("b", 57)
    r = c.run("s_from_canonical", [b])
    nopanic(c)
    if not isinstance(r, En):
        raise Fail("not an Option")
    d = pol(r.d)
    N = le(b[:56])
    zs = [s for s in d.syms() if SYMS[s].kind == "eq0" and Poly_from_key(SYMS[s].args[0]).eq(b[56].p)]
    if len(zs) != 1:
        # the last byte may be folded into the comparison of the whole integer
        decides_lt(d, le(b), L, {})
    else:
        z = zs[0]
        d0 = d.subst1(z, SC_(0))
        if not I.collapse(d0).is_zero():
            raise Fail("accepts encodings whose 57th byte is not zero")
        decides_lt(d, N, L, {z: 1})
    want_poly(c.scv(r.pay[1]).poly, N, "decoded scalar")


@ob("C08", "s_eq", "equality is equality of the 448-bit integers")
def _(c):
    for root in ("s_eq", "s_ct_eq"):
        a, b = c.scal("a", True), c.scal("b", True)
        r = c.run(root, [c.ref((a,)), c.ref((b,))])
        nopanic(c)
        want_poly(bit(r), pol(dom.eq_int(a.poly, b.poly)), root)


# ================================================================== C09 wide reduction, random scalars
@ob("C09", "s_from_wide", "every 114-byte string")
def _(c):
    b = c.byts("b", 114)
    r = c.run("s_from_wide", [c.ref(b)])
    nopanic(c)
    s = c.scv(r)
    want_poly(s.poly, CL(le(b)), "scalar")
    if s.hi >= L:
        raise Fail("result is not known to be below the group order")


@ob("C09", "s_random", "uniform: reduction of 114 fresh bytes drawn from the caller's generator")
def _(c):
    r = c.run("s_random", [c.ref(c.byts("t", 114))])
    nopanic(c)
    s = c.scv(r)
    if s.hi >= L:
        raise Fail("result is not known to be below the group order")
    p = s.poly
    x = dom.lone(p)
    if x is None or SYMS[x].kind != "canonl":
        raise Fail("random scalar is %s, not a wide reduction" % show(p))
    q = Poly_from_key(SYMS[x].args[0])
    rb = [m[0] for m in q.t if len(m) == 2 and m[1] == 1 and SYMS[m[0]].kind == "in" and str(SYMS[m[0]].args[0]).startswith("rng")]
    want = {}
    ks = {}
    for m, co in q.t.items():
        if len(m) != 2 or m[1] != 1 or m[0] not in rb:
            raise Fail("random scalar depends on %s besides fresh generator output" % show(Poly({m: co})))
        ks[co] = ks.get(co, 0) + 1
    exp = {pow(256, i, L): 1 for i in range(114)}
    if ks != exp:
        raise Fail("random scalar is not the reduction of 114 fresh bytes (%d bytes used)" % len(ks))


# ================================================================== C10 digit views of scalars
@ob("C10", "s_bits", "bits() lists the 448 bits, least significant first")
def _(c):
    s = c.scal("a", True)
    r = c.run("s_bits", [c.ref((s,))])
    nopanic(c)
    vals = vec_elems(c, r)
    if len(vals) != 448:
        raise Fail("bits() returns %d entries" % len(vals))
    want_poly(I.expand_nm(le(vals, 1)), s.poly, "sum of bits")


def vec_elems(c, r):
    """(values of a Vec)"""
    n = None

    def find(v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, tuple):
            for x in v:
                p = find(x)
                if p is not None:
                    return p
        return None
    p = find(r)
    n = r[-1]
    arr = c.it.deref(Ptr(p.cell, p.path[:-1], None, None)) if p.path else c.it.deref(p)
    arr = elems(arr)
    if not isinstance(n, int):
        raise Fail("vector length not constant")
    return arr[:n]


@ob("C10", "s_index", "indexing reads / writes the 32-bit limbs, each of the 14")
def _(c):
    for k in range(14):
        s = c.scal("a", True)
        r = c.run("s_index", [c.ref((s,)), k])
        nopanic(c)
        want_poly(pol(r), pol(s.view()[k]), "limb %d" % k)
        cell = c.ref((s,))
        v = I.fresh_in("v", 0, 2**32 - 1)
        c.run("s_index_mut", [cell, k, v])
        nopanic(c)
        got = c.scv(c.it.deref(cell))
        want_poly(got.poly, le([x if i != k else v for i, x in enumerate(s.view())], 32), "scalar after a write of limb %d" % k)
    return 28


def by_name(c, suffix, argc=None):
    return crate_fns(c, lambda i: i["name"].endswith(suffix) and (argc is None or c.P.body(i["id"]).argc == argc))


@ob("C10", "to_radix_16", "signed radix-16 digits recompose to the scalar and lie in [-8, 8]")
def _(c):
    fs = by_name(c, "Scalar::to_radix_16", 1)
    for i in fs:
        s = c.scal("a", True)
        r = c.call(i["id"], [c.ref((s,))])
        nopanic(c)
        ds = elems(r)
        V = le(ds, 4)
        want_poly(V, s.poly, "sum of digits")
        for k, x in enumerate(ds):
            lo, hi = rng(x) if isinstance(x, int) else I.deep_bound(x.p, *rng(x))
            if lo < -8 or hi > 8:
                raise Fail("%s: digit %d may be in [%d, %d]" % (fnref(c, i), k, lo, hi))
    return len(fs)


@ob("C10", "div_by_four", "div_by_four is floor(s/4)")
def _(c):
    fs = by_name(c, "Scalar::div_by_four", 1)
    for i in fs:
        s = c.scal("a", True)
        cell = c.ref((s,))
        c.call(i["id"], [cell])
        nopanic(c)
        q = (s.poly - pol(I.modp(s.poly, 2))).shr(2)
        want_poly(c.scv(c.it.deref(cell)).poly, q, "quotient")
    return len(fs)


# ================================================================== C11 Edwards group law
for r_ in ("e_add_rr", "e_add_rv", "e_add_vr", "e_add_vv", "e_add_m", "e_adda_r", "e_adda_v"):
    group_ob("C11", r_, lambda c, a: {A: ONE, B_: ONE})
for r_ in ("e_sub_rr", "e_sub_rv", "e_sub_vr", "e_sub_vv", "e_suba_r", "e_suba_v"):
    group_ob("C11", r_, lambda c, a: {A: ONE, B_: -ONE})
for r_ in ("e_neg_r", "e_neg_v", "e_negate"):
    group_ob("C11", r_, lambda c, a: {A: -ONE})
group_ob("C11", "e_double", lambda c, a: {A: SC_(2)})
group_ob("C11", "e_torque", lambda c, a: {A: ONE, groups.T2: ONE})
for r_ in ("e_sum_v", "e_sum_r"):
    group_ob("C11", r_, lambda c, a: {A: ONE, B_: ONE, C_: ONE})
for r_ in ("e_sum_0", "e_identity", "e_default"):
    group_ob("C11", r_, lambda c, a: {})
group_ob("C11", "e_affine_rt", lambda c, a: {A: ONE})


# aliased operands: the same object on both sides
@ob("C11", "e_alias", "x + &x, x - &x, x == x on one object")
def _(c):
    for root, coefs in (("e_add_rr", {A: SC_(2)}), ("e_sub_rr", {})):
        iid = c.root(root)
        body = c.P.body(iid)
        p = c.arg(body.locals[1], "a")
        r = c.call(iid, [p, p])
        want_coefs(c.pt(body.locals[0], r), coefs)
    iid = c.root("e_eq")
    p = c.arg(c.P.body(iid).locals[1], "a")
    want_poly(bit(c.call(iid, [p, p])), ONE, "x == x")


# special operands: identity, 2-torsion, inverse
@ob("C11", "e_special", "P + 0, P + (-P), P + T2, 0 + 0, T2 + T2 through the same formulas")
def _(c):
    iid = c.root("e_add_rr")
    body = c.P.body(iid)
    ty = c.tyof("E", "ext")
    mk = lambda co: c.ref(GE(c.it, ty, "E", "ext", co))
    cases = (({A: ONE}, {}), ({A: ONE}, {A: -ONE}), ({A: ONE}, {groups.T2: ONE}), ({}, {}), ({groups.T2: ONE}, {groups.T2: ONE}))
    for x, y in cases:
        r = c.call(iid, [mk(x), mk(y)])
        want_coefs(c.pt(body.locals[0], r), groups.csum((x, 1), (y, 1)))
    return len(cases)


# ================================================================== C12 Edwards equality
def eq_affine(c, curve, r, what, a=A, b=B_):
    xa, ya = c.xy(curve, {a: ONE})
    xb, yb = c.xy(curve, {b: ONE})
    got = I.collapse(bit(r))
    forms = [feqp(xa - xb) * feqp(ya - yb)]
    dx, dy = c.xy(curve, groups.csum(({a: ONE}, 1), ({b: ONE}, -1)))
    forms.append(feqp(dx) * feqp(dy - ONE))
    dx, dy = c.xy(curve, groups.csum(({b: ONE}, 1), ({a: ONE}, -1)))
    forms.append(feqp(dx) * feqp(dy - ONE))
    if not any(got.eq(I.collapse(f)) for f in forms):
        raise Fail("%s is %s instead of [x1 = x2 and y1 = y2]" % (what, show(got)))


@ob("C12", "e_eq", "equality of representatives is equality of affine points")
def _(c):
    for root in ("e_ct_eq", "e_eq"):
        r = c.auto(root)
        nopanic(c)
        eq_affine(c, "E", r, root)


@ob("C12", "e_self_eq", "a point equals every other projective representative of itself")
def _(c):
    iid = c.root("e_eq")
    ty = c.tyof("E", "ext")
    for x, y, e in (({A: ONE}, {A: ONE}, 1), ({}, {}, 1), ({groups.T2: ONE}, {}, 0)):
        p, q = (c.ref(GE(c.it, ty, "E", "ext", z)) for z in (x, y))
        want_poly(bit(c.call(iid, [p, q])), SC_(e), "equality of representatives")


# ================================================================== C13 twisted curve internals
def tw_fns(c, curve, form, meth, argc):
    ty = None
    try:
        ty = c.tyof(curve, form)
    except Fail:
        return []

    def ok(i):
        if i["name"].rsplit("::", 1)[-1] != meth:
            return False
        b = c.P.body(i["id"])
        if b.argc != argc:
            return False
        t = b.locals[1] if argc else b.locals[0]
        while c.P.tys[t]["k"] == "ref":
            t = c.P.tys[t]["e"]
        return t == ty
    return crate_fns(c, ok)


def tw_ob(prop, curve, form, meth, argc, coefs, inplace=False):
    def f(c):
        n = 0
        for i in tw_fns(c, curve, form, meth, argc):
            b = c.P.body(i["id"])
            args = [c.arg(b.locals[1 + k], "abc"[k]) for k in range(argc)]
            try:
                r = c.call(i["id"], args)
                nopanic(c)
                if inplace:
                    g = c.pt(b.locals[1], args[0])
                else:
                    g = c.pt(b.locals[0], r)
                want_coefs(g, coefs(c) if callable(coefs) else coefs)
            except Fail as e:
                raise Fail("%s: %s" % (fnref(c, i), e))
            n += 1
        return n
    OBS.append((prop, "%s/%s::%s" % (curve, form, meth), "internal point arithmetic", f))


ISO = lambda b: ("iso", b)
CH = lambda n: Poly.sym(intern("in", (n,), 0, 1))
for fm in ("ext", "exs", "pn", "aff"):
    tw_ob("C13", "W", fm, "identity", 0, {})
    tw_ob("C13", "W", fm, "default", 0, {})
    tw_ob("C13", "W", fm, "double", 1, {A: SC_(2)})
    tw_ob("C13", "W", fm, "negate", 1, {A: -ONE})
    tw_ob("C13", "W", fm, "torque", 1, {A: ONE, groups.T2: ONE})
    for m_ in ("to_extended", "to_extensible", "to_affine", "to_projective_niels", "clone"):
        tw_ob("C13", "W", fm, m_, 1, {A: ONE})
    for m_ in ("add", "add_extensible", "add_extended", "add_projective_niels"):
        tw_ob("C13", "W", fm, m_, 2, {A: ONE, B_: ONE})
    for m_ in ("sub", "sub_extended"):
        tw_ob("C13", "W", fm, m_, 2, {A: ONE, B_: -ONE})
    tw_ob("C13", "W", fm, "conditional_select", 3, lambda c: {A: ONE - CH("c"), B_: CH("c")})
    tw_ob("C13", "W", fm, "conditional_negate", 2, lambda c: {A: ONE - CH("b").scale(2)}, inplace=True)


def tw_eq(form):
    def f(c):
        n = 0
        for m_ in ("ct_eq", "eq"):
            for i in tw_fns(c, "W", form, m_, 2):
                b = c.P.body(i["id"])
                r = c.call(i["id"], [c.arg(b.locals[1 + k], "ab"[k]) for k in range(2)])
                nopanic(c)
                try:
                    eq_affine(c, "W", r, m_)
                except Fail as e:
                    raise Fail("%s: %s" % (fnref(c, i), e))
                n += 1
        return n
    return f


for fm in ("ext", "exs", "aff"):
    OBS.append(("C13", "W/%s::eq" % fm, "equality of representatives", tw_eq(fm)))


def on_curve_fns(curve):
    def f(c):
        n = 0
        for fm in ("ext", "aff"):
            for i in tw_fns(c, curve, fm, "is_on_curve", 1):
                b = c.P.body(i["id"])
                r = c.call(i["id"], [c.arg(b.locals[1], "a")])
                nopanic(c)
                p = I.collapse(bit(r))
                if not oncurve_true(p):
                    raise Fail("%s: not recognised as true for points of the curve (%s)" % (fnref(c, i), show(p)))
                n += 1
        return n
    return f


def oncurve_true(p):
    """a 0/1 polynomial over equality atoms that are identities on the curve"""
    for s in list(p.syms()):
        if SYMS[s].kind == "feq" and fzero(Poly_from_key(SYMS[s].args[0])):
            p = p.subst1(s, ONE)
    return p.eq(ONE)


OBS.append(("C13", "W::is_on_curve", "", on_curve_fns("W")))
OBS.append(("C11", "E::is_on_curve", "", on_curve_fns("E")))

# ================================================================== C14 isogenies
group_ob("C14", "e_isogeny_rt", lambda c, a: {A: SC_(4)})
group_ob("C14", "e_twisted_neg", lambda c, a: {A: SC_(-4)})


@ob("C14", "isogeny", "to_twisted / to_untwisted are the dual 4-isogenies")
def _(c):
    n = 0
    for cv, m_ in (("E", "to_twisted"), ("W", "to_untwisted")):
        for i in tw_fns(c, cv, "ext", m_, 1):
            b = c.P.body(i["id"])
            r = c.call(i["id"], [c.arg(b.locals[1], "a")])
            nopanic(c)
            try:
                want_coefs(c.pt(b.locals[0], r), {ISO(A): ONE})
            except Fail as e:
                raise Fail("%s: %s" % (fnref(c, i), e))
            n += 1
    return n


@ob("C14", "iso_special", "the isogenies map the identity and the 2-torsion point to the identity")
def _(c):
    iid = c.root("e_isogeny_rt")
    ty = c.tyof("E", "ext")
    for x in ({}, {groups.T2: ONE}):
        r = c.call(iid, [c.ref(GE(c.it, ty, "E", "ext", x))])
        want_coefs(c.pt(c.P.body(iid).locals[0], r), {})
    return 2


# ================================================================== C15 scalar multiplication
def smul_ob(root, pi, si, prop="C15"):
    def f(c):
        iid = c.root(root)
        body = c.P.body(iid)
        args = [c.arg(body.locals[1 + i], "ab"[i], True) for i in range(body.argc)]
        r = c.call(iid, args)
        nopanic(c)
        g = c.pt(body.locals[1], args[0]) if c.P.tys[body.locals[0]]["k"] == "tuple" else c.pt(body.locals[0], r)
        want_coefs(g, {A: c.scal("b", True).poly})
    OBS.append((prop, root, "every scalar in [0, 2^448) and every point", f))


for r_ in ("e_smul", "e_mul_rr", "e_mul_rv", "e_mul_vr", "e_mul_vv", "e_lmul_rr", "e_lmul_rv", "e_lmul_vr", "e_lmul_vv", "e_mula_r", "e_mula_v"):
    smul_ob(r_, 0, 1)
group_ob("C15", "e_mod_four", lambda c, a: {A: pol(I.modp(c.scal("b", True).poly, 2))})


@ob("C15", "mul_fns", "variable_base, double_and_add, double_base_scalar_mul, lookup table")
def _(c):
    n = 0
    for nm in ("::variable_base", "::double_and_add"):
        for i in by_name(c, nm, 2):
            b = c.P.body(i["id"])
            args = [c.arg(b.locals[1], "a"), c.arg(b.locals[2], "b", True)]
            r = c.call(i["id"], args)
            nopanic(c)
            try:
                want_coefs(c.pt(b.locals[0], r), {A: c.scal("b", True).poly})
            except Fail as e:
                raise Fail("%s: %s" % (fnref(c, i), e))
            n += 1
    for i in by_name(c, "::double_base_scalar_mul", 3):
        b = c.P.body(i["id"])
        args = [c.arg(b.locals[1], "a", True), c.arg(b.locals[2], "b"), c.arg(b.locals[3], "c", True)]
        r = c.call(i["id"], args)
        nopanic(c)
        gx, gy = tw_generator()
        try:
            want_coefs(c.pt(b.locals[0], r), {B_: c.scal("a", True).poly, ("const", "W", gx, gy): c.scal("c", True).poly})
        except Fail as e:
            raise Fail("%s: %s" % (fnref(c, i), e))
        n += 1
    return n


def tw_generator():
    """the point of W used as its base point: 2*phi-compatible generator, (x, y) with the
    published Decaf448 base point coordinates"""
    return TWX, TWY


TWX = 363419362147803445274661903944002267176820680343659030140745099590279204136698235703403524834251253334370805086499278108045645398933504
TWY = 377713777653347146236792104846100366848996148111932555478444627119325414592190554491942001387217559549253112485759360936941341741238884


# ================================================================== C16 Montgomery ladder
def mont_ob(root):
    def f(c):
        iid = c.root(root)
        u = c.byts("u", 56)
        s = c.scal("b", True)
        r = c.call(iid, [u, c.ref((s,))])
        nopanic(c)
        f_ = dom.fpoly(le(u))
        mont_check(c, le(elems(r)), {("u", f_.key()): s.poly}, root)
    OBS.append(("C16", root, "every u-coordinate encoding and every scalar in [0, 2^448)", f))


def mont_check(c, V, coefs, what):
    g = dom.is_canon(V)
    if g is None:
        raise Fail("%s: output bytes are not a canonical field element: %s" % (what, show(V)))
    if len(g.t) != 1:
        raise Fail("%s: output is %s, not U/W of a ladder state" % (what, show(g)))
    (m, co), = g.t.items()
    if co != 1 or len(m) != 4:
        raise Fail("%s: output is %s, not U/W of a ladder state" % (what, show(g)))
    d = {SYMS[m[i]].kind: (m[i], m[i + 1]) for i in (0, 2)}
    if set(d) != {"gU", "gW"} or d["gU"][1] != 1 or d["gW"][1] != P - 2:
        raise Fail("%s: output is %s, not U/W of a ladder state" % (what, show(g)))
    ru, rw = groups.MREC[d["gU"][0]][0], groups.MREC[d["gW"][0]][0]
    if ru is not rw:
        raise Fail("%s: U and W belong to different points" % what)
    got = GE(None, None, "M", "mont", {b: groups.tidy(x) for b, x in ru.coefs.items()})
    want_coefs(got, coefs)


mont_ob("m_mul_rr")
mont_ob("m_lmul_rr")


@ob("C16", "m_select", "conditional selection between projective Montgomery points moves whole points")
def _(c):
    a, b = c.byts("u", 56), c.byts("v", 56)
    ch = I.fresh_in("c", 0, 1)
    r = c.run("m_pselect", [a, b, (ch,)])
    nopanic(c)
    mont_check(c, le(elems(r)), {("u", dom.fpoly(le(a)).key()): ONE - ch.p, ("u", dom.fpoly(le(b)).key()): ch.p}, "selected point")


# ================================================================== C17 Edwards -> Montgomery
@ob("C17", "e_to_montgomery", "u = y^2/x^2 (0 when x = 0), canonical, for every point")
def _(c):
    r = c.auto("e_to_montgomery")
    nopanic(c)
    V = le(elems(r))
    F = dom.is_canon(V)
    if F is None:
        raise Fail("output bytes are not a canonical field element: %s" % show(V))
    x, y = c.xy("E", {A: ONE})
    want_quotient(F, (y * y).modred(P), (x * x).modred(P), "u")
    # exceptional points
    iid = c.root("e_to_montgomery")
    ty = c.tyof("E", "ext")
    for co in ({}, {groups.T2: ONE}):
        r = c.call(iid, [c.ref(GE(c.it, ty, "E", "ext", co))])
        want_poly(le(elems(r)), SC_(0), "u of the identity / 2-torsion point")


def want_quotient(F, num, den, what):
    """F = num/den with 1/0 = 0, modulo the curve equation"""
    ws = [s for s in F.syms() if any(m[i + 1] > 8 for m in F.t for i in range(0, len(m), 2) if m[i] == s)]
    if not ws:
        raise Fail("%s is %s, not a quotient" % (what, show(F)))
    # F = N * prod w^(p-2): every large power must be exactly p-2 in every term
    N = {}
    dens = set()
    for m, co in F.t.items():
        out = []
        for i in range(0, len(m), 2):
            if m[i] in ws:
                if m[i + 1] != P - 2:
                    # w^(p-1-k)
                    k = P - 1 - m[i + 1]
                    if not 0 < k <= 8:
                        raise Fail("%s is %s, not a quotient" % (what, show(F)))
                    out += [m[i], -k]
                else:
                    out += [m[i], -1]
                dens.add(m[i])
            else:
                out += [m[i], m[i + 1]]
        N[tuple(out)] = co
    Q = Poly(N)
    # on the locus where all w are nonzero: Q*den == num
    d = (Q * den - num).modred(P)
    if not fzero(d):
        raise Fail("%s is %s, which is not %s / %s on the curve" % (what, show(F), show(num), show(den)))
    # every term vanishes with each w, and w vanishes only where den does
    for s in dens:
        for m in F.t:
            if s not in m[::2]:
                raise Fail("%s does not vanish with its denominator" % what)
        w = Poly_from_key(SYMS[s].args[0]) if SYMS[s].kind == "W" else Poly.sym(s)
        if not same_zeros(w, den):
            raise Fail("%s: denominator %s vanishes where %s does not" % (what, show(w), show(den)))


def same_zeros(w, den):
    """w and den differ by a factor that never vanishes on the curve"""
    full, ms, other = groups.recs_in([w, den])
    if ms or other or len(full) != 1:
        return False
    r = full[0]
    a, d = groups.CURVE[r.curve]
    x2, y2 = Poly.sym(r.x, 2), Poly.sym(r.y, 2)
    nz = [ONE, ONE - y2.scale(d), (ONE - x2.scale(d)).modred(P)]
    for f in nz:
        for g in nz:
            l, rr = groups.nf((w * f).modred(P)), groups.nf((den * g).modred(P))
            for e in (1, 2):
                if e == 2:
                    l = groups.nf((w * w * f).modred(P))
                if l.t and rr.t and groups.monic(l).eq(groups.monic(rr)):
                    return True
    return False


# ================================================================== C18 low order
LOW = (0, 1, P - 1)


def roots_among(s, U):
    """value of the test [f(u) == 0] for u in LOW and for every other u; f is divided by its linear
    factors at LOW, what remains must be a nonzero constant"""
    bad = Fail("low-order test depends on %s" % show(Poly.sym(s)))
    if SYMS[s].kind != "feq":
        raise bad
    f = Poly_from_key(SYMS[s].args[0])
    w = Poly.sym(intern("fe", ("low-order u",)))
    piv = next(m for m, c in U.t.items() if c == 1 and len(m) == 2 and m[1] == 1)[0]
    for x in sorted(f.syms()):
        if SYMS[x].kind == "W":
            # a named polynomial in u
            d = Poly_from_key(SYMS[x].args[0])
            lam = d.t.get((piv, 1), 0)
            if fn(d - U.scale(lam)).is_zero():
                f = f.subst1(x, w.scale(lam))
            else:
                d = fn(d.subst1(piv, w - (U - Poly.sym(piv)), P))
                if d.syms() != w.syms():
                    raise bad
                f = f.subst1(x, d)
    g = fn(f.subst1(piv, w - (U - Poly.sym(piv)))) if piv in f.syms() else fn(f)      # in terms of u
    ws = next(iter(w.syms()))
    co = {}
    for m, c in g.t.items():
        if m == ():
            co[0] = c
        elif len(m) == 2 and m[0] == ws and 0 < m[1] < 20:
            co[m[1]] = c
        else:
            raise bad
    a = [co.get(i, 0) for i in range(max(co) + 1)]
    r = {None: 0}
    for k in LOW:
        r[k] = int(sum(c * pow(k, i, P) for i, c in enumerate(a)) % P == 0)
        while len(a) > 1 and sum(c * pow(k, i, P) for i, c in enumerate(a)) % P == 0:
            q = [0] * (len(a) - 1)
            acc = 0
            for i in range(len(a) - 1, 0, -1):
                acc = (acc * k + a[i]) % P
                q[i - 1] = acc
            a = q
    if len(a) > 1 or a[0] % P == 0:
        raise bad
    return r


@ob("C18", "m_low_order", "true exactly for the encodings (canonical or not) of u in {0, 1, -1}")
def _(c):
    u = c.byts("u", 56)
    r = c.run("m_low_order", [u])
    nopanic(c)
    U = dom.fpoly(le(u))
    p = I.collapse(bit(r))
    at = {k: feqp(U - SC_(k)) for k in LOW}
    # u takes one value: at most one atom is true
    syms = sorted(p.syms())
    known = {next(iter(q.syms())): {kk: int(kk == k) for kk in list(LOW) + [None]} for k, q in at.items()}
    for s in syms:
        if s not in known:
            known[s] = roots_among(s, U)
    for k in list(LOW) + [None]:
        v = p
        for s in syms:
            v = v.subst1(s, SC_(known[s][k]))
        if v.const_val() != (0 if k is None else 1):
            raise Fail("is_low_order returns %d for u = %s" % (v.const_val(), "any other value" if k is None else k if k < 2 else "-1"))


# ================================================================== C19 torsion
@ob("C19", "e_torsion_free", "true iff [l]P is the identity")
def _(c):
    r = c.auto("e_torsion_free")
    nopanic(c)
    got = I.collapse(bit(r))
    for k in (L, -L):
        x, y = c.xy("E", {A: SC_(k)})
        if got.eq(I.collapse(feqp(x) * feqp(y - ONE))):
            return
    raise Fail("torsion test is %s, not [l]P = 0" % describe(got))


def describe(p):
    out = []
    for s in p.syms():
        if SYMS[s].kind == "feq":
            q = Poly_from_key(SYMS[s].args[0])
            for t in q.syms():
                if SYMS[t].kind in ("gx", "gy"):
                    out.append(showc(groups.sym_coefs(t)))
    return "%s about %s" % (show(p), "; ".join(sorted(set(out)))[:300])


# ================================================================== C20/C21 Edwards compression
@ob("C20", "e_compress", "57 bytes: canonical y, 7 zero bits, parity of x; for every representative")
def _(c):
    r = c.auto("e_compress")
    nopanic(c)
    x, y = c.xy("E", {A: ONE})
    bs = elems(r)
    if len(bs) != 57:
        raise Fail("%d bytes" % len(bs))
    want_canon(bs[:56], y, "y bytes")
    want_poly(pol(bs[56]), negp(x).scale(128), "last byte")


@ob("C20", "e_compress_special", "identity, 2-torsion and generator encode as RFC 8032 prescribes")
def _(c):
    iid = c.root("e_compress")
    ty = c.tyof("E", "ext")
    for co, (x, y) in (({}, (0, 1)), ({groups.T2: ONE}, (0, P - 1)), ({("const", "E", GX, GY): ONE}, (GX, GY))):
        r = c.call(iid, [c.ref(GE(c.it, ty, "E", "ext", co))])
        want_poly(le(elems(r)), SC_(y + ((x & 1) << 455)), "encoding")
    return 3


@ob("C21", "e_decompress", "accepts exactly when some x satisfies the curve equation; returns y and the x with the requested parity")
def _(c):
    b = c.byts("b", 57)
    r = c.run("e_decompress", [b])
    nopanic(c)
    if not isinstance(r, En):
        raise Fail("not an Option")
    y = dom.fpoly(le(b[:56]))
    iid = c.root("e_decompress")
    ref = decomp_ref(c, y)
    num, den, isr, okp = ref
    want_poly(I.collapse(pol(r.d)), I.collapse(okp), "acceptance condition")
    if 1 not in r.pay:
        raise Fail("never returns a point")
    oty = c.P.body(iid).locals[0]
    pty = c.P.tys[oty]["vars"][1]["fields"][0][1]
    (cv, fm), co = c.coord(pty, elems(r.pay[1])[0])
    if fm != "ext":
        raise Fail("unexpected result form")
    X, Y, Z, T = co
    if not (Z.is_const() and Z.const_val() % P == 1):
        raise Fail("decoded point is not normalised: Z = %s" % show(Z))
    want_field(Y, y, "y coordinate")
    x0 = dom.fpoly(isr * num)
    sg = pol(I.name_bool(pol(I.shr_(b[56], 7))))
    ng = negp(x0)
    want_field(X, sel(sg + ng - (sg * ng).scale(2), fn(-x0), x0), "x coordinate")
    want_field(T, dom.fpoly(X * Y), "t coordinate")
    # lemma used by the statement: with isr = (n d)^((p-3)/4) and (n d)^((p-1)/2) = 1 or n = 0,
    # x0 = isr n satisfies x0^2 d = n, i.e. (x0, y) is on the curve
    n_, d_ = Poly.sym(intern("fe", ("n",))), Poly.sym(intern("fe", ("d",)))
    q = fn(fpow(fn(n_ * d_), (P - 3) // 2) * n_ * n_ * d_)
    half = fn(fpow(fn(n_ * d_), (P - 1) // 2) * n_)
    assert q.eq(half)


def decomp_ref(c, y):
    f = lambda p: dom.fpoly(p)
    Y = summ.fnamed(y) if len(y.t) > 4 else y
    yy = f(fpow(y, 2)) if len(y.t) <= 4 else f(Y * Y)
    num = f(ONE - yy)
    den = f(ONE - yy.scale(D_E))
    v = f(summ.fnamed(num) * summ.fnamed(den))
    isr = fpow(v, (P - 3) // 4)
    res = feqp(f(fpow(v, (P - 1) // 2)) - ONE)
    z = feqp(num)
    return num, den, isr, z + res - z * res


# ================================================================== C22..C24 Decaf
# SQRT_MINUS_D of the decaf448 definition: the even (non-negative) square root of -d
DECAF_FACTOR = pow(-D_E % P, (P + 1) // 4, P)
DECAF_FACTOR = P - DECAF_FACTOR if DECAF_FACTOR & 1 else DECAF_FACTOR
assert DECAF_FACTOR**2 % P == 39081


def fn(p):
    return dom.fpoly(p)


def neg_if(c, f):
    return sel(c, fn(-f), f)


def want_accept(got, want, can, N):
    """acceptance flags agree; where the string is canonical, the canonical integer is the string's"""
    if got.eq(want):
        return
    cs = sorted(can.syms())
    if len(cs) != 1:
        want_poly(got, want, "acceptance condition")
    z = cs[0]
    yes = 1 if can.subst1(z, SC_(1)).const_val() == 1 else 0
    if not I.collapse(got.subst1(z, SC_(1 - yes))).is_zero():
        raise Fail("acceptance condition is %s instead of %s: non-canonical strings may be accepted" % (show(got), show(want)))

    def sub(p):
        p = p.subst1(z, SC_(yes))
        for s in sorted(p.syms()):
            if SYMS[s].kind == "mod":
                q = Poly_from_key(SYMS[s].args[1])
                for x in q.syms():
                    if SYMS[x].kind == "canon" and Poly_from_key(SYMS[x].args[0]).eq(fn(N)):
                        q = q.subst1(x, N)
                        p = p.subst1(s, pol(I.modp(q, SYMS[s].args[0])))
                        break
        return I.collapse(p)
    if not sub(got).eq(sub(want)):
        want_poly(got, want, "acceptance condition")


@ob("C22", "d_decompress", "accepts exactly canonical, non-negative s whose candidate is a square; the result is the Decaf point on the curve")
def _(c):
    b = c.byts("b", 56)
    r = c.run("d_decompress", [b])
    nopanic(c)
    if not isinstance(r, En):
        raise Fail("not an Option")
    N = le(b)
    s = fn(N)
    S = summ.fnamed(s)
    ss = fn(S * S)
    u1, u2 = fn(ONE - ss), fn(ONE + ss)
    u1s = fn(u1 * u1)
    v = fn(ss.scale(-4 * D_W) + u1s)
    q = fn(v * u1s)
    isr = fpow(q, (P - 3) // 4)
    sq = feqp(fn(fpow(q, (P - 1) // 2)) - ONE)
    can = pol(I.lt(I.mkp(N), P))
    ng = negp(s)
    want_accept(I.collapse(pol(r.d)), I.collapse(can * (ONE - ng) * sq), can, N)
    if 1 not in r.pay:
        raise Fail("never returns a point")
    oty = c.P.body(c.root("d_decompress")).locals[0]
    pty = c.P.tys[oty]["vars"][1]["fields"][0][1]
    (cv, fm), co = c.coord(pty, elems(r.pay[1])[0])
    X, Y, Z, T = co
    Dx = fn(isr * u1)
    Dxs = fn(fn(S.scale(2)) * Dx)
    x0 = fn(fn(Dxs * isr) * v)
    k = fn(Dxs.scale(DECAF_FACTOR))
    x = neg_if(negp(k), x0)
    y = fn(Dx * u2)
    if not (Z.is_const() and Z.const_val() % P):
        raise Fail("decoded point is not normalised: Z = %s" % show(Z))
    want_field(X, fn(x * Z), "X")
    want_field(Y, fn(y * Z), "Y")
    want_field(fn(T * Z), fn(X * Y), "T")
    # lemma: when accepted, isr^2 = 1/q, so x0 = 2s/u1 and y^2 = u2^2/v lie on the curve
    t = Poly.sym(intern("fe", ("s",)))
    tt = fn(t * t)
    a1, a2 = fn(ONE - tt), fn(ONE + tt)
    w = fn(tt.scale(-4 * D_W) + fn(a1 * a1))
    assert fn(a2 * a2 * a1 * a1 - tt.scale(4) * w - a1 * a1 * w - (tt.scale(4) * a2 * a2).scale(D_W)).is_zero()


@ob("C23", "d_compress", "the canonical non-negative s of the Decaf formula, the same for every representative of the coset")
def _(c):
    iid = c.root("d_compress")
    body = c.P.body(iid)
    r = c.call(iid, [c.arg(body.locals[1], "a")])
    nopanic(c)
    x, y = c.xy("W", {A: ONE})
    s = decaf_encode(x, y)
    want_canon(elems(r), s, "encoding")


def decaf_encode(x, y, signed=False):
    """Decaf encoding of the affine point (x, y) of W in the abstract domain"""
    f = DECAF_FACTOR
    nd = -D_E % P
    t = fn(x * y)
    xxtt = fn(fn(x + t) * fn(x - t))
    isr = fpow(fn(fn(fn(x * x) * xxtt).scale(nd)), (P - 3) // 4)
    ratio = fn(isr * xxtt)
    alt = fn(ratio.scale(f))
    ratio = neg_if(negp(alt), ratio)
    k = fn(ratio - t)
    s = fn(fn(fn(k.scale(nd)) * isr) * x)
    if signed:
        return s
    return neg_if(negp(s), s)


@ob("C23", "d_compress_coset", "encoding ignores the 2-torsion component and is zero exactly on the identity coset")
def _(c):
    iid = c.root("d_compress")
    ty = c.tyof("W", "ext")
    for co in ({}, {groups.T2: ONE}):
        g = GE(c.it, ty, "W", "ext", co)
        r = c.call(iid, [c.ref((g,))])
        want_poly(le(elems(r)), SC_(0), "encoding of the identity coset")
    # lemma: the formula changes at most its sign between P and P + T2 = (-x, -y), and |s| = |-s|
    x, y = c.xy("W", {A: ONE})
    assert dom.fpoly(decaf_encode(x, y, True) + decaf_encode(-x, -y, True)).is_zero()
    return 3


@ob("C23", "dc_identity", "the identity encodes as zero bytes")
def _(c):
    r = c.run("dc_identity", [])
    want_poly(le(elems(r)), SC_(0), "identity encoding")


for r_ in ("d_add_rr", "d_add_vv"):
    group_ob("C24", r_, lambda c, a: {A: ONE, B_: ONE})
for r_ in ("d_sub_rr", "d_sub_vv", "d_sub_m"):
    group_ob("C24", r_, lambda c, a: {A: ONE, B_: -ONE})
for r_ in ("d_neg_r", "d_neg_v"):
    group_ob("C24", r_, lambda c, a: {A: -ONE})
group_ob("C24", "d_identity", lambda c, a: {})
group_ob("C24", "r_identity", lambda c, a: {})
for r_ in ("d_mul_rr", "d_mul_vv", "d_lmul_rr", "d_lmul_vv"):
    smul_ob(r_, 0, 1, "C24")


@ob("C24", "d_equals", "equality is equality of cosets: x1*y2 = y1*x2")
def _(c):
    for root in ("d_equals", "r_equals"):
        r = c.auto(root)
        nopanic(c)
        xa, ya = c.xy("W", {A: ONE})
        xb, yb = c.xy("W", {B_: ONE})
        want_poly(bit(r), feqp((xa * yb - xb * ya).modred(P)), root)


# ================================================================== C05 constants
def const_pt(c, root, curve, x, y):
    iid = c.root(root)
    g = c.pt(c.P.body(iid).locals[0], c.call(iid, []))
    want_coefs(g, {("const", curve, x, y): ONE})


@ob("C05", "e_generator", "Ed448 base point of RFC 8032, of order l")
def _(c):
    const_pt(c, "e_generator", "E", GX, GY)
    assert groups.on_curve("E", GX, GY) and emul("E", L, (GX, GY)) == (0, 1)


@ob("C05", "d_generator", "Decaf base point on the twisted curve")
def _(c):
    const_pt(c, "d_generator", "W", TWX, TWY)
    assert groups.on_curve("W", TWX, TWY) and emul("W", L, (TWX, TWY)) == (0, 1)


@ob("C05", "m_generator", "Curve448 base point u = 5")
def _(c):
    r = c.run("m_generator", [])
    want_poly(le(elems(r)), SC_(5), "generator")
    # consistent with the Edwards base point through u = y^2/x^2
    assert GY * GY * pow(GX * GX, -1, P) % P == 5


@ob("C05", "tw_generator", "twisted base point helper")
def _(c):
    n = 0
    for i in tw_fns(c, "W", "ext", "generator", 0):
        b = c.P.body(i["id"])
        want_coefs(c.pt(b.locals[0], c.call(i["id"], [])), {("const", "W", TWX, TWY): ONE})
        n += 1
    return n


def even_root(v):
    r = pow(v, (P + 1) // 4, P)
    assert r * r % P == v % P
    return r if r % 2 == 0 else P - r


FE_CONSTS = {"EDWARDS_D": -39081, "NEG_EDWARDS_D": 39081, "TWISTED_D": -39082, "TWO_TIMES_TWISTED_D": -78164,
             "NEG_FOUR_TIMES_TWISTED_D": 4 * 39082, "A_PLUS_TWO_OVER_FOUR": (156326 + 2) // 4, "DECAF_FACTOR": even_root(39081)}
SC_CONSTS = {"BASEPOINT_ORDER": L, "MODULUS": L, "R": pow(2, 448, L), "R2": pow(2, 896, L)}


@ob("C05", "constants", "every named curve and scalar constant of the module tree, private ones included")
def _(c):
    n = 0
    for item in c.P.api.get("items", ()):
        nm = item["name"].rsplit("::", 1)[-1]
        v = None
        ty = item["k"]["ty"]
        if nm in FE_CONSTS and fe_ty(c, ty):
            v = raw_value(c, c.it.decode_const(item["k"])).poly
            want = FE_CONSTS[nm] % P
            got = v.const_val() % P if v.is_const() else None
        elif nm in SC_CONSTS and (c.it.leaf_kind(ty) or ("",))[0] == "sc":
            v = c.scv(c.it.decode_const(item["k"])).poly
            want = SC_CONSTS[nm]
            got = v.const_val() if v.is_const() else None
        if v is None:
            continue
        if got != want:
            raise Fail("constant %s is %s instead of %s" % (item["name"], got, want))
        n += 1
    return n


# ================================================================== C28 byte-string types
@ob("C28", "byte_eq", "equality of compressed points is equality of all 56 bytes")
def _(c):
    for root in ("dc_eq", "dc_ct_eq", "m_eq", "m_ct_eq", "rc_eq"):
        iid = c.root(root)
        body = c.P.body(iid)
        args = [c.arg(body.locals[1 + i], "ab"[i]) for i in range(2)]
        r = c.call(iid, args)
        nopanic(c)
        xs = [flat(c.it.deref(a)) for a in args]
        want_poly(bit(r), pol(dom.eq_bytes(xs[0], xs[1])), root)
    return 5


def flat(v):
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    return elems(v)


@ob("C28", "byte_views", "as_bytes exposes the stored bytes; identities are zero")
def _(c):
    for root in ("dc_as_bytes", "m_as_bytes", "rc_as_bytes"):
        iid = c.root(root)
        body = c.P.body(iid)
        a = c.arg(body.locals[1], "a")
        r = c.call(iid, [a])
        got = elems(c.it.deref(r))
        exp = flat(c.it.deref(a))
        if len(got) != 56:
            raise Fail("%s: %d bytes" % (root, len(got)))
        want_poly(le(got), le(exp), root)
    r = c.run("rc_identity", [])
    want_poly(le(flat(r)), SC_(0), "identity encoding")
    return 4


@ob("C28", "m_zeroize", "zeroize overwrites every byte")
def _(c):
    iid = c.root("m_zeroize")
    a = c.arg(c.P.body(iid).locals[1], "a")
    c.call(iid, [a])
    nopanic(c)
    want_poly(le(flat(c.it.deref(a))), SC_(0), "bytes after zeroize")


# ================================================================== C29 conditional moves
group_ob("C29", "e_select", lambda c, a: {A: ONE - CH("c"), B_: CH("c")})
group_ob("C29", "e_cassign", lambda c, a: {A: ONE - CH("c"), B_: CH("c")})


@ob("C29", "e_cswap", "conditional_swap exchanges both points or neither")
def _(c):
    iid = c.root("e_cswap")
    body = c.P.body(iid)
    args = [c.arg(body.locals[1 + i], "abc"[i]) for i in range(3)]
    c.call(iid, args)
    nopanic(c)
    ch = CH("c")
    want_coefs(c.pt(body.locals[1], args[0]), {A: ONE - ch, B_: ch})
    want_coefs(c.pt(body.locals[2], args[1]), {B_: ONE - ch, A: ch})


@ob("C29", "field_select", "field-level select and conditional negate")
def _(c):
    n = 0
    for i in fe_fns(c, "conditional_select", 3):
        b = c.P.body(i["id"])
        args = [c.arg(b.locals[1], "x"), c.arg(b.locals[2], "y"), c.arg(b.locals[3], "c")]
        r = c.call(i["id"], args)
        nopanic(c)
        want_field(c.fev(r).poly, sel(CH("c"), FY, FX), fnref(c, i))
        n += 1
    for i in fe_fns(c, "conditional_negate", 2):
        b = c.P.body(i["id"])
        args = [c.arg(b.locals[1], "x"), c.arg(b.locals[2], "c")]
        c.call(i["id"], args)
        nopanic(c)
        want_field(c.fev(c.it.deref(args[0])).poly, sel(CH("c"), -FX, FX), fnref(c, i))
        n += 1
    return n


# ================================================================== C04, C25, C26: effects of every public operation
ROOT_PREFIX = ("e_", "m_", "s_", "d_", "dc_", "r_", "rc_", "todo_")
# indexing with a caller-chosen index is documented to panic out of range and is a public address
NOT_TOTAL = ("s_index", "s_index_mut")
TODO = {"todo_m_to_edwards": "MontgomeryPoint::to_edwards", "todo_r_encode": "RistrettoPoint::encode",
        "todo_rc_decode": "CompressedRistretto::decode"}
# the answer of these operations is itself the validity of a public encoding
OPTIONAL_ROOTS = ("s_random", "m_zeroize")
REVEALS = ("e_decompress", "d_decompress", "s_from_canonical", "m_low_order")


def root_names(c):
    return sorted(n for n in c.P.roots if n.startswith(ROOT_PREFIX))


def is_arith(e):
    return e["kind"] == "contract" or ("overflow" in e["msg"].lower() and e["kind"] in ("assert", "panic"))


def effect_run(c, root):
    """abstract run of a root; diverging runs are fine here, the events are what is inspected"""
    try:
        c.auto(root)
    except Fail as e:
        if str(e).startswith("never returns"):
            return
        raise


def effect_ob(prop, root, bad):
    def f(c):
        effect_run(c, root)
        n = 0
        for e in c.it.events:
            if bad(e):
                raise Fail(evtext(e))
        return 1
    OBS.append((prop, "op::" + root, "", f))


def harness_roots():
    import re
    import os
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "lib.rs")).read()
    return [n for n in re.findall(r"^pub fn (\w+)\(", src, re.M) if n.startswith(ROOT_PREFIX)]


for r_ in harness_roots():
    if r_ not in NOT_TOTAL and r_ not in TODO:
        effect_ob("C04", r_, is_arith)
        effect_ob("C26", r_, lambda e: e["kind"] in ("panic", "assert", "choice") and not is_arith(e))
        if r_ not in REVEALS:
            effect_ob("C25", r_, lambda e: e["kind"] in ("branch", "index", "vartime"))
for r_, nm in TODO.items():
    def f_(c, r_=r_, nm=nm):
        effect_run(c, r_)
        for e in c.it.events:
            if e["kind"] == "panic":
                raise Fail("%s always panics (todo!)" % nm)
    OBS.append(("C26", "op::" + r_, "", f_))


@ob("C04", "field_limbs", "every function of the field element type keeps its limbs within the bounds its consumers assume")
def _(c):
    n = 0
    for i in crate_fns(c, lambda i: True):
        b = c.P.body(i["id"])
        if b.argc == 0 or b.argc > 3 or not any(fe_ty(c, b.locals[1 + k]) for k in range(b.argc)):
            continue
        if any(c.G.form(strip_ref(c, b.locals[1 + k])) for k in range(b.argc)):
            continue
        if "::fmt" in i["name"]:
            continue
        try:
            args = [c.arg(b.locals[1 + k], "xyz"[k]) for k in range(b.argc)]
        except Fail:
            continue
        try:
            r = c.call(i["id"], args)
        except Fail as e:
            if str(e).startswith(("never returns", "value outside")):
                continue
            raise Fail("%s: %s" % (fnref(c, i), e))
        for e in c.it.events:
            if is_arith(e):
                raise Fail("%s: %s" % (fnref(c, i), evtext(e)))
        n += 1
    if n < 8:
        raise Fail("only %d field functions found" % n)
    return n


def strip_ref(c, t):
    while c.P.tys[t]["k"] in ("ref", "ptr"):
        t = c.P.tys[t]["e"]
    return t


# ================================================================== C27 encapsulation
def secret_types(c):
    """types of the crate that hold field elements, curve points or scalar limbs"""
    out = []
    for t, ty in enumerate(c.P.tys):
        if ty["k"] == "adt" and ty["krate"] == CRATE and (c.it.alg_type(t) or c.it.leaf_kind(t) or c.G.fe_depth(t) is not None):
            out.append(t)
    return out


@ob("C27", "private_fields", "no field of a type holding coordinates or limbs is public")
def _(c):
    n = 0
    for t in secret_types(c):
        ty = c.P.tys[t]
        for v in ty["vars"]:
            for f, p in zip(v["fields"], v["public"]):
                if p:
                    raise Fail("field `%s` of %s is public: client code can build or modify values that are not on the curve" % (f[0], ty["name"]))
                n += 1
    if n < 10:
        raise Fail("only %d coordinate fields found" % n)
    return n


@ob("C27", "no_mut_access", "no public function returns a mutable reference into a type holding coordinates")
def _(c):
    n = 0
    for f in obtainable(c)[1]:
        n += 1
        if f["unsafe"] != "Safe":
            raise Fail("%s is an unsafe function" % f["name"])
        ret = f["sig"][-1]
        if "&mut" in ret or "*mut" in ret:
            if "IndexMut" in f["name"] and "Scalar" in f["sig"][0]:
                continue
            raise Fail("%s hands out `%s`" % (f["name"], ret))
    if n < 60:
        raise Fail("only %d public functions found" % n)
    return n


SPECIAL = ("::decompress", "::to_edwards", "::decode")


def obtainable(c):
    """types a client can obtain: fixpoint over the signatures of public functions"""
    import re
    adt = re.compile(CRATE + r"(?:::\w+)+")
    have = set(c.P.api.get("nameable", ()))
    base = set(have)
    # byte-string types with public fields can be built directly; others must be returned by something
    got = set()
    for t in c.P.tys:
        if t["k"] == "adt" and t["krate"] == CRATE and t["name"] in base and all(all(v["public"]) for v in t["vars"]):
            got.add(t["name"])
    fns = []
    while True:
        ch = False
        for f in c.P.fns:
            if not f["public"] or f in fns:
                continue
            ins = set()
            for s in f["sig"][:-1]:
                ins |= set(adt.findall(s))
            owner = set(adt.findall(f["name"].split(" as ")[0] if f["kind"] == "trait" else f["name"].rsplit("::", 1)[0]))
            if not ins and f["kind"] == "inherent" and not any(o in base or o in got for o in owner):
                continue
            if f["kind"] == "trait" and not ins and not any(o in base or o in got for o in owner):
                continue
            if all(x in got for x in ins):
                fns.append(f)
                ch = True
                got |= set(adt.findall(f["sig"][-1]))
        if not ch:
            return got, fns


@ob("C27", "closed_api", "every public function that yields a point or scalar yields a valid one")
def _(c):
    got, fns = obtainable(c)
    n = 0
    for f in fns:
        if f["inst"] is None or f["name"].endswith(SPECIAL):
            continue
        b = c.P.body(f["inst"])
        if b is None:
            continue
        tys = [strip_ref(c, t) for t in b.locals[:1 + b.argc]]
        muts = [k for k in range(b.argc) if c.P.tys[b.locals[1 + k]]["k"] == "ref" and c.P.tys[b.locals[1 + k]]["m"]]
        if not any(pointish(c, t) for t in [tys[0]] + [tys[1 + k] for k in muts]):
            continue
        try:
            args = [made(c, fns, b.locals[1 + k], "abc"[k]) for k in range(b.argc)]
            r = c.call(f["inst"], args)
            vs = [(b.locals[0], r)] if pointish(c, tys[0]) else []
            vs += [(b.locals[1 + k], args[k]) for k in muts if pointish(c, tys[1 + k])]
            for t, v in vs:
                if "montgomery" in c.P.tys[strip_ref(c, t)].get("name", "").lower():
                    continue        # every pair (U : W) is a u-coordinate
                valid_point(c, t, v)
        except Fail as e:
            raise Fail("%s: %s" % (f["name"], e))
        n += 1
    if n < 30:
        raise Fail("only %d point-valued public functions found" % n)
    return n


def holds_heap(c, t):
    ty = c.P.tys[t]
    if ty["k"] in ("array", "ref"):
        return holds_heap(c, ty["e"])
    if ty["k"] != "adt":
        return False
    return ty["name"] in ("std::boxed::Box", "std::vec::Vec") or \
        ty["krate"] == CRATE and any(holds_heap(c, f[1]) for v in ty["vars"] for f in v["fields"])


def made(c, fns, ty, name):
    """argument of a public function; a value with private heap storage is what its public constructor returns"""
    t = strip_ref(c, ty)
    if c.P.tys[t]["k"] == "adt" and c.P.tys[t]["krate"] == CRATE and holds_heap(c, t):
        for f in fns:
            b = c.P.body(f["inst"]) if f["inst"] is not None else None
            if b is not None and b.locals[0] == t and not any(holds_heap(c, b.locals[1 + k]) for k in range(b.argc)):
                v = c.call(f["inst"], [c.arg(b.locals[1 + k], "%s%d" % (name, k)) for k in range(b.argc)])
                return c.ref(v) if c.P.tys[ty]["k"] == "ref" else v
    return c.arg(ty, name)


def pointish(c, t):
    ty = c.P.tys[t]
    if c.G.form(t):
        return True
    if ty["k"] == "adt" and ty["krate"] == CRATE and not c.it.leaf_kind(t) and len(ty["vars"]) == 1 and len(ty["vars"][0]["fields"]) == 1:
        return pointish(c, ty["vars"][0]["fields"][0][1])
    if ty["k"] == "adt" and ty["adt"] == "enum":
        return any(pointish(c, f[1]) for v in ty["vars"] for f in v["fields"])
    return False


def valid_point(c, t, v):
    ty = c.P.tys[t]
    if ty["k"] == "adt" and ty["adt"] == "enum":
        if not isinstance(v, En):
            raise Fail("result not understood")
        for k, pay in v.pay.items():
            for f, x in zip(ty["vars"][k]["fields"], pay):
                if pointish(c, f[1]):
                    valid_point(c, f[1], x)
        return
    c.pt(t, v)


# ================================================================== C30 no hidden state, no side effects
OKCRATES = {"core", "alloc", "subtle", "fiat_crypto", "zeroize", "rand_core", CRATE, "harness"}
BAD_PATHS = ("std::io", "std::fs", "std::env", "std::net", "std::process", "std::thread", "std::time", "std::sync", "core::sync",
             "core::cell", "std::cell", "std::sys", "std::rt", "std::os", "std::collections::hash", "std::hash::random", "core::arch", "std::arch",
             "core::ptr::read_volatile")


@ob("C30", "call_graph", "no public operation reaches I/O, threads, clocks, environment, interior mutability or process state")
def _(c):
    seen = {}
    q = [(c.P.roots[r], r) for r in root_names(c)]
    for f in c.P.fns:
        if f["inst"] is not None and not f["name"].endswith("::fmt"):
            q.append((f["inst"], f["name"]))
    n = 0
    while q:
        i, why = q.pop()
        if i in seen:
            continue
        seen[i] = why
        inst = c.P.insts[i]
        nm = inst["name"]
        kr = inst["krate"]
        plain = nm.lstrip("<&")
        if kr == "std" and inst["def"].startswith("std::") or any(inst["def"].startswith(x) or ("<" + x) in nm.split(">::")[0] for x in BAD_PATHS):
            if not benign(inst):
                raise Fail("%s calls %s" % (why, nm))
        if kr not in OKCRATES and kr != "std":
            raise Fail("%s calls %s of crate %s" % (why, nm, kr))
        b = c.P.body(i)
        if b is None:
            continue
        n += 1
        if kr in (CRATE, "harness"):
            for bb in b.blocks:
                if bb.t[0] == "asm":
                    raise Fail("%s contains inline assembly" % nm)
        if kr == CRATE or kr == "harness":
            q += [(k, nm) for k in calls(c.P, b)]
        elif kr in ("subtle", "zeroize"):
            pass
        else:
            q += [(k, why) for k in calls(c.P, b)]
    return n


def benign(inst):
    d = inst["def"]
    return d.startswith(("std::ops", "std::iter", "std::convert", "std::cmp", "std::clone", "std::default", "std::option", "std::result",
                         "std::slice", "std::array", "std::vec", "std::mem", "std::num", "std::ptr", "std::intrinsics", "std::alloc",
                         "std::hint", "std::borrow", "std::marker", "std::any", "std::fmt", "std::str", "std::string", "std::boxed", "std::hash::Hash",
                         "std::sync::atomic::compiler_fence", "std::panicking", "std::rt::panic", "std::rt::begin", "std::primitive"))


@ob("C30", "statics", "the crate has no mutable or interior-mutable static; every global it reads is an immutable constant")
def _(c):
    for s in c.P.statics:
        t = c.P.tys[s["ty"]]["str"]
        if s["mut"] or any(w in t for w in ("Cell", "Mutex", "RwLock", "Atomic", "Once", "Lazy")):
            raise Fail("static %s: %s" % (s["name"], t))
    for k, a in c.P.allocs.items():
        if isinstance(a, dict) and a.get("static") and a.get("mut"):
            raise Fail("reads the mutable static %s" % a["static"])
    return 1 + len(c.P.statics)


# ================================================================== C31 backend agreement
PUBLIC_OBS = [o for o in OBS if o[0] in ("C05", "C06", "C07", "C08", "C09", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C28", "C29")
              and o[1].split("_")[0] in ("e", "m", "s", "d", "dc", "r", "rc")]
for o_ in PUBLIC_OBS:
    OBS.append(("C31", "agree::" + o_[1], o_[2], o_[3]))
