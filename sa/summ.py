"""Function summaries: a function whose arguments are closed composites is analysed
once on placeholders; calls substitute the actual algebraic values."""
from . import ints as I, poly as PL, dom
from .ints import IV, pol, rng
from .poly import Poly, SYMS, intern, interval, Poly_from_key, P, L
from .interp import Interp, Opaque, Unsupported, Diverge, Ptr, En, FnV, UNINIT, Poison, Sel, elems, UNIT
from .dom import FE, SC

INV28 = (1 << 28) + 128
OBL = ("panic", "assert", "contract", "choice")


class NoSummary(Exception):
    pass


def base_env_dep(s, cache):
    """does symbol s (transitively) depend on a placeholder?"""
    r = cache.get(s)
    if r is None:
        sy = SYMS[s]
        if sy.kind in PLACE:
            r = True
        elif sy.kind == "ind":
            r = base_env_dep(sy.args[0], cache)
        elif sy.kind in ("gx", "gy", "gz", "gt", "gU", "gW"):
            r = GSYM[0](GSYM[1](s), lambda x: base_env_dep(x, cache))
        else:
            r = any(base_env_dep(x, cache) for k in dom.sub_polys(s) for m, _ in k[0] for x in m[::2])
        cache[s] = r
    return r


GSYM = None
PLACE = {"pl", "pls", "plb", "pli"}
PL.FIELD_KINDS.add("pl")
_depc = {}


class Subst:
    def __init__(self, env):
        self.env = env          # sym -> Poly
        self.memo = {}
        self.genv = {}

    def sym(self, s):
        r = self.memo.get(s)
        if r is None:
            r = self._sym(s)
            self.memo[s] = r
        return r

    def _sym(self, s):
        r = self.env.get(s)
        if r is not None:
            return r
        if not base_env_dep(s, _depc):
            return Poly.sym(s)
        sy = SYMS[s]
        k = sy.kind
        if k in PLACE:
            return Poly.sym(s)        # an outer placeholder
        if k == "mod":
            return pol(I.modp(self.ipoly(sy.args[1]), sy.args[0]))
        if k == "canon":
            return dom.canon_poly(self.fpoly(sy.args[0]))
        if k == "canonl":
            return dom.canonl_poly(self.lpoly(sy.args[0]))
        if k == "feq":
            return pol(dom.feq(self.fpoly(sy.args[0])))
        if k == "eq0":
            return pol(I.eq0(I.mkp(self.ipoly(sy.args[0]))))
        if k == "nm":
            q = self.ipoly(sy.args[0])
            if q.is_const():
                return q
            if sy.hi == 1:
                return pol(I.name_bool(q))
            r = I.interval(q)
            x = I.digit(IV(q, *r)) if r else None
            if x is not None and x.p is not q:
                return pol(x)
            return pol(I.name_small(IV(q, 0, sy.hi), False))
        if k == "bx":
            q = I.collapse(self.ipoly(sy.args[0]))
            if len(q.t) <= I.BXLIM:
                return q
            return pol(I.new_sym("bx", (q.key(),), 0, 1))
        if k == "ind":
            b = self.sym(sy.args[0])
            if b.eq(Poly.sym(sy.args[0])):
                return Poly.sym(s)
            return pol(I.eq0(I.mkp(self.sym(sy.args[0]) - Poly.const(sy.args[1]))))
        if k == "W":
            q = self.fpoly(sy.args[0])
            return fnamed(q)
        if k in ("gx", "gy", "gz", "gt", "gU", "gW"):
            return GSYM[2](s, self)
        raise NoSummary("cannot substitute in %s" % k)

    def ipoly(self, key):
        """integer polynomial"""
        p = Poly_from_key(key) if isinstance(key, tuple) else key
        img = {}
        ren = True
        for s in p.syms():
            q = self.sym(s)
            if not (len(q.t) == 1 and (s, 1) in q.t and q.t[(s, 1)] == 1 and q.sh == 0):
                img[s] = q
        if not img:
            return p
        if any(SYMS[s].kind == "ind" or SYMS[s].boolean for s in p.syms()):
            return I.collapse(compose(p, img, None))
        return compose(p, img, None)

    def lpoly(self, key):
        """polynomial modulo the group order"""
        p = Poly_from_key(key) if isinstance(key, tuple) else key
        img = {}
        for s in p.syms():
            if SYMS[s].kind == "WL":
                q = dom.lpow(self.lpoly(SYMS[s].args[0]), 1)
            else:
                q = dom.lpoly(self.sym(s))
            if not (len(q.t) == 1 and (s, 1) in q.t and q.t[(s, 1)] == 1 and q.sh == 0):
                img[s] = q
        if not img:
            return dom.lpoly(p)
        return dom.lpoly(dom.lsubst(p, img))

    def fpoly(self, key):
        p = Poly_from_key(key) if isinstance(key, tuple) else key
        img = {}
        for s in p.syms():
            q = self.sym(s)
            if not (len(q.t) == 1 and (s, 1) in q.t and q.t[(s, 1)] == 1 and q.sh == 0):
                img[s] = q
        if not img:
            return p
        return dom.fpoly(compose(p, img, P))


def content(q):
    """q = c * m * q'  with q' monic without monomial content"""
    common = None
    for m in q.t:
        d = {m[i]: m[i + 1] for i in range(0, len(m), 2)}
        if common is None:
            common = d
        else:
            common = {s: min(e, d[s]) for s, e in common.items() if s in d}
    neg = {}
    for m in q.t:
        for i in range(0, len(m), 2):
            if m[i + 1] < 0:
                neg[m[i]] = min(neg.get(m[i], 0), m[i + 1])
    for s, e in neg.items():
        common[s] = min(common.get(s, 0), e)
    common = {s: e for s, e in common.items() if e and not SYMS[s].boolean}
    t = {}
    for m, c in q.t.items():
        d = {m[i]: m[i + 1] for i in range(0, len(m), 2)}
        for s, e in common.items():
            d[s] = d.get(s, 0) - e
        t[tuple(x for s in sorted(d) if d[s] for x in (s, d[s]))] = c
    mono = tuple(x for s in sorted(common) for x in (s, common[s]))
    lead = max(t)
    c = t[lead]
    if c != 1:
        ci = pow(c, -1, P)
        t = {m: v * ci % P for m, v in t.items()}
    return c, mono, Poly(t)


WNZ = {}


def fnamed(q):
    """name a multi-term polynomial so that large powers of it stay monomials"""
    q = q.modred(P)
    if len(q.t) <= 1:
        return q
    c, mono, r = content(q)
    if len(r.t) == 1:
        w = r
    else:
        w = Poly.sym(intern("W", (r.key(),), nz=nonzero(r)))
    return (w * Poly({mono: c})).modred(P)


NZ_HOOK = []


def nonzero(r):
    for h in NZ_HOOK:
        if h(r):
            return True
    return False


def fpow(q, e):
    if e == 0:
        return Poly.const(1)
    if len(q.t) <= 1:
        if not q.t:
            return q if e > 0 else Poly({})
        return PL.poly_pow(q, e, P)
    if 0 < e <= 4 and len(q.t) ** e < 3000:
        return PL.poly_pow(q, e, P)
    b = dom.split_bool(q)
    if b is not None and (e > 4 or e < 0):
        s, q0, q1 = b
        r0, r1 = fpow(q0, e), fpow(q1, e)
        return (r0 + Poly.sym(s) * (r1 - r0)).modred(P)
    return PL.poly_pow(fnamed(q), e, P)


def compose(p, img, mod):
    """substitute symbols by polynomials"""
    acc = {}
    pw = {}
    outs = []
    simple = {}
    for s, q in img.items():
        if len(q.t) == 1 and q.sh == 0:
            simple[s] = next(iter(q.t.items()))
    # constant images / renamings are handled monomial by monomial, multi-term ones by grouping
    multi = [s for s in img if s not in simple]
    groups = {}
    for m, c in p.t.items():
        sel = []
        rest = []
        for i in range(0, len(m), 2):
            if m[i] in img:
                sel += [m[i], m[i + 1]]
            else:
                rest += [m[i], m[i + 1]]
        groups.setdefault(tuple(sel), {})[tuple(rest)] = c
    total = Poly({})
    parts = []
    for sel, rest in groups.items():
        r = Poly(rest, p.sh)
        for i in range(0, len(sel), 2):
            k = (sel[i], sel[i + 1])
            q = pw.get(k)
            if q is None:
                if mod:
                    q = fpow(img[sel[i]].modred(P), sel[i + 1])
                else:
                    q = img[sel[i]] if sel[i + 1] == 1 else PL.poly_pow(img[sel[i]], sel[i + 1])
                pw[k] = q
            r = r * q
            if mod:
                r = r.modred(mod)
        parts.append(r)
    return PL.psum(parts) if not mod else PL.psum(parts).modred(mod)


class Summary:
    __slots__ = ("ret", "outs", "events", "leaves", "bad", "clean", "visited")


class Analyzer(Interp):
    def __init__(self, prog):
        super().__init__(prog)
        from . import models
        self.native_fns = [models.native_for]
        self.call_hook = self.hook
        self.summ = {}
        self.nsum = 0
        self.leaf_types = {}
        from . import groups
        self.groups = None
        groups.install(self)
        self.sum_uses = 0
        self.pins = []

    # ---------------------------------------------------- types
    def leaf_kind(self, ty):
        """'fe'/'sc' when ty is the limb array of a field element / scalar newtype"""
        r = self.leaf_types.get(ty, 0)
        if r == 0:
            t = self.P.tys[ty]
            r = None
            if t["k"] == "adt" and t["adt"] == "struct" and t["krate"] in ("ed448_goldilocks", "fiat_crypto"):
                fs = t["vars"][0]["fields"]
                if len(fs) == 1:
                    a = self.P.tys[fs[0][1]]
                    if a["k"] == "array":
                        e = self.P.tys[a["e"]]
                        if e["k"] == "int" and not e["s"]:
                            r = {(64, 8): ("fe", 56, 8), (32, 16): ("fe", 28, 16), (32, 14): ("sc", 32, 14)}.get((e["bits"], a["n"]))
            self.leaf_types[ty] = r
        return r

    # ---------------------------------------------------- abstraction
    def abstract(self, ty, v, cx):
        """-> placeholder value; appends (leafkind, placeholder, actual) to cx.leaves, key parts to cx.key"""
        P_ = self.P
        t = P_.tys[ty]
        if self.groups:
            r = self.groups.abstract(self, ty, v, cx)
            if r is not None:
                return r
        lk = self.leaf_kind(ty)
        if lk:
            if v is UNINIT:
                raise NoSummary("uninit")
            arr = v[0] if isinstance(v, tuple) else elems(v)[0]
            if lk[0] == "fe":
                raw = not isinstance(arr, FE)
                if raw and all(x is UNINIT for x in elems(arr)):
                    raise NoSummary("uninit")
                f = dom.close_fe(arr, lk[1], lk[2])
                if f is None:
                    raise NoSummary("open field element")
                if raw and not f.poly.is_const():
                    cx.raw = True
                return (self.fe_place(f, cx),)
            raw = not isinstance(arr, SC)
            f = dom.close_sc(arr)
            if f is None:
                raise NoSummary("open scalar")
            if f.poly.is_const():
                cx.key.append(("c", f.poly.const_val()))
                return (f.view(),)
            if raw:
                if not dom.clean_int(f.poly):
                    # limb arrays under construction: keep the exact carries, analyse in place
                    raise NoSummary("raw scalar")
                cx.raw = True
            n = len(cx.leaves)
            can = f.hi < L
            cx.key.append(("sc", can))
            hi = L - 1 if can else 2**448 - 1
            s = intern("pls", (n, can), 0, hi)
            pl = SC(Poly.sym(s), 0, hi)
            cx.leaves.append((s, f.poly))
            cx.n_alg += 1
            return (pl,)
        k = t["k"]
        if P_.erased(ty):
            return self.abstract(P_.erased_inner(ty), v, cx)
        if k in ("int", "bool", "char"):
            if isinstance(v, int):
                cx.key.append(v)
                return v
            if isinstance(v, IV):
                if v.lo >= 0 and v.hi <= 1:
                    n = len(cx.leaves)
                    cx.key.append("b")
                    s = intern("plb", (n,), 0, 1)
                    cx.leaves.append((s, v.p))
                    return IV(Poly.sym(s), 0, 1)
                v.refine()
                if v.hi - v.lo <= I.SMALL:
                    n = len(cx.leaves)
                    cx.key.append(("i", v.lo, v.hi))
                    s = intern("pli", (n, v.lo, v.hi), v.lo, v.hi)
                    cx.leaves.append((s, v.p))
                    return IV(Poly.sym(s), v.lo, v.hi)
            raise NoSummary("symbolic integer argument")
        if v is UNINIT:
            cx.key.append("u")
            return v
        if k in ("ref", "ptr"):
            if not isinstance(v, Ptr):
                raise NoSummary("pointer")
            if isinstance(v.cell, tuple):
                if v.meta is None and self.groups and self.groups.form(t["e"]) is not None:
                    # a constant point (group constants are points like any other)
                    n0 = len(cx.key)
                    r = self.groups.abstract(self, t["e"], self.deref(v), cx)
                    if r is not None:
                        cx.key.insert(n0, "p")
                        return Ptr(cx.cell(r), (), None, v.ty)
                cx.key.append((v.cell, v.path, v.meta))
                return v
            e = t["e"]
            te = P_.tys[e]
            if te["k"] in ("dyn", "str"):
                raise NoSummary("unsized")
            if te["k"] == "slice":
                vals = self.deref(v)
                cx.key.append(("sl", len(vals)))
                nv = tuple(self.abstract(te["e"], x, cx) for x in vals)
                c = cx.cell(nv)
                cx.outs.append((c, v, e, len(vals)))
                return Ptr(c, (0,), len(vals), e)
            val = self.deref(v)
            cx.key.append("p")
            nv = self.abstract(e, val, cx)
            c = cx.cell(nv)
            cx.outs.append((c, v, e, None))
            return Ptr(c, (), None, v.ty)
        if k == "array":
            vs = elems(v)
            if len(vs) > 600:
                raise NoSummary("large array")
            cx.key.append(("a", len(vs)))
            return tuple(self.abstract(t["e"], x, cx) for x in vs)
        if k == "tuple":
            return tuple(self.abstract(x, y, cx) for x, y in zip(t["ts"], elems(v)))
        if k == "adt":
            if t["adt"] == "struct":
                vs = elems(v)
                fs = t["vars"][0]["fields"]
                if len(vs) != len(fs):
                    raise NoSummary("shape")
                return tuple(self.abstract(f[1], x, cx) for f, x in zip(fs, vs))
            if t["adt"] == "enum" and isinstance(v, En) and isinstance(v.d, int):
                cx.key.append(("e", v.d))
                pay = v.pay.get(v.d, ())
                fs = t["vars"][v.d]["fields"]
                return En(v.d, {v.d: tuple(self.abstract(f[1], x, cx) for f, x in zip(fs, pay))})
        if k == "fndef":
            return v
        raise NoSummary("argument of type %s" % t["str"])

    def fe_place(self, f, cx):
        n = len(cx.leaves)
        w, nn = f.w, f.n
        cx.n_alg += 1
        if f.canon and w == 28:
            cx.has_canon = True
        if f.canon and w == 28 and not cx.weak:
            # only u32 elements expose their limbs; canonical ones keep that fact
            cls = ("canon",)
            lo, hi, vhi, canon = (0,) * nn, ((1 << w) - 1,) * nn, P - 1, True
        else:
            canon = False
            if min(f.lo) >= 0 and w == 56 and max(f.hi) <= dom.TIGHT:
                lo, hi = (0,) * nn, (dom.TIGHT,) * nn
                cls = ("tight",)
            elif min(f.lo) >= 0 and w == 56 and max(f.hi) <= dom.LOOSE:
                lo, hi = (0,) * nn, (dom.LOOSE,) * nn
                cls = ("loose",)
            elif w == 28 and max(f.hi) <= INV28 and min(f.lo) >= 0:
                lo, hi = (0,) * nn, (INV28,) * nn
                cls = ("inv",)
            else:
                lo, hi = f.lo, f.hi
                cls = ("ex", lo, hi)
            vhi = None
        cx.key.append(cls)
        s = intern("pl", (n, cls))
        pl = self.place_cache.get((n, cls))
        if pl is None:
            pl = FE(Poly.sym(s), w, nn, lo, hi, vhi, canon)
            self.place_cache[(n, cls)] = pl
        cx.leaves.append((s, f.poly))
        return pl

    place_cache = {}

    # ---------------------------------------------------- concretisation of results
    def close_out(self, ty, v):
        """closed form of a result (before substitution); raises NoSummary"""
        P_ = self.P
        t = P_.tys[ty]
        if isinstance(v, Sel):
            raise NoSummary("unsettled result")
        if v is UNINIT or isinstance(v, Poison):
            return UNINIT
        if self.groups:
            r = self.groups.close_out(self, ty, v)
            if r is not None:
                return r
        lk = self.leaf_kind(ty)
        if lk:
            if isinstance(v, tuple) and v[0] is UNINIT:
                return v
            arr = v[0] if isinstance(v, tuple) else elems(v)[0]
            f = dom.close_fe(arr, lk[1], lk[2]) if lk[0] == "fe" else dom.close_sc(arr)
            if f is None:
                raise NoSummary("result does not close")
            if dom.has_limb(f.poly):
                raise NoSummary("open result")
            return (f,)
        if P_.erased(ty):
            return self.close_out(P_.erased_inner(ty), v)
        k = t["k"]
        if k in ("int", "bool", "char"):
            if isinstance(v, IV):
                p = v.p
                if v.lo == 0 and v.hi == 1:
                    q = dom.join_eqs(p)
                    if q is not p:
                        v = I.mk(q, 0, 1)
                        if not isinstance(v, IV):
                            return v
                        p = q
                if dom.has_limb(p):
                    raise NoSummary("open integer result")
            return v
        if k == "array":
            return tuple(self.close_out(t["e"], x) for x in elems(v))
        if k == "tuple":
            return tuple(self.close_out(x, y) for x, y in zip(t["ts"], elems(v)))
        if k == "adt":
            if t["adt"] == "struct":
                return tuple(self.close_out(f[1], x) for f, x in zip(t["vars"][0]["fields"], elems(v)))
            if t["adt"] == "enum" and isinstance(v, En):
                if isinstance(v.d, IV) and dom.has_limb(v.d.p):
                    raise NoSummary("open discriminant")
                pay = {}
                for i, x in v.pay.items():
                    if x is UNINIT:
                        continue
                    pay[i] = tuple(self.close_out(f[1], y) for f, y in zip(t["vars"][i]["fields"], x))
                return En(v.d, pay)
        if k == "fndef":
            return v
        if k == "never":
            return UNIT
        raise NoSummary("result of type %s" % t["str"])

    def apply(self, v, S):
        if isinstance(v, int) or v is UNINIT:
            return v
        if isinstance(v, IV):
            q = S.ipoly(v.p)
            if q is v.p:
                return v
            r = interval(q)
            lo, hi = v.lo, v.hi
            if q.is_const():
                return q.const_val()
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
            return I.mk(q, lo, hi)
        if isinstance(v, tuple):
            return tuple(self.apply(x, S) for x in v)
        if isinstance(v, FE):
            q = S.fpoly(v.poly)
            if q is v.poly:
                return v
            return FE(q, v.w, v.n, v.lo, v.hi, v.vhi, v.canon)
        if isinstance(v, SC):
            q = S.ipoly(v.poly)
            if q is v.poly:
                return v
            r = interval(q)
            lo, hi = v.lo, v.hi
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
            return dom.recanon(SC(q, lo, hi))
        if isinstance(v, En):
            d = self.apply(v.d, S)
            return En(d, {k: self.apply(x, S) for k, x in v.pay.items()})
        if isinstance(v, FnV):
            return v
        if self.groups:
            r = self.groups.apply(self, v, S)
            if r is not None:
                return r
        raise NoSummary("substitution in %r" % (v,))

    # ---------------------------------------------------- the hook
    def hook(self, inst, args, sp):
        kr = inst["krate"]
        if kr not in ("ed448_goldilocks", "subtle") or inst.get("_nosum"):
            return NotImplemented
        body = self.P.body(inst["id"])
        if body is None or self.native_for(inst) is not None or body.argc != len(args):
            return NotImplemented
        e = inst.get("_sumok")
        if e is None:
            e = any(self.alg_type(body.locals[1 + i]) for i in range(body.argc)) and not self.has_ref(body.locals[0])
            inst["_sumok"] = e
        if not e:
            return NotImplemented
        for weak in (True, False):
            # canonical elements are first treated as arbitrary reduced ones
            cx = Cx(self)
            cx.weak = weak
            try:
                pargs = [self.abstract(body.locals[1 + i], a, cx) for i, a in enumerate(args)]
            except (NoSummary, IndexError):
                return NotImplemented
            if cx.n_alg == 0:
                return NotImplemented
            key = (inst["id"], tuple(cx.key))
            sm = self.summ.get(key, 0)
            if sm == 0:
                sm = self.build(inst, body, pargs, cx, key)
            if not cx.has_canon or (sm is not None and not sm.bad):
                break
        if sm is None:
            return NotImplemented
        if sm.bad or (not sm.clean and cx.raw):
            # unproved obligation or unresolved integer: analyse in the caller's context
            return NotImplemented
        env = {}
        for s, actual in cx.leaves:
            if actual is not None:
                env[s] = actual
        env.update(cx.senv)
        S = Subst(env)
        S.genv = cx.genv
        try:
            ret = self.apply(sm.ret, S)
            outs = []
            for (c, p, ty, n), v in zip(cx.outs, sm.outs):
                if v is not None:
                    outs.append((p, n, self.apply(v, S)))
        except NoSummary:
            return NotImplemented
        for p, n, v in outs:
            if n is None:
                self.store(p.cell, p.path, v)
            else:
                arr = elems(self.load(p.cell, p.path[:-1]))
                st = p.path[-1]
                self.store(p.cell, p.path[:-1], arr[:st] + tuple(v) + arr[st + n:])
        self.sum_uses += 1
        for ev in sm.events:
            if id(ev) not in self.evset:
                self.evset.add(id(ev))
                self.events.append(ev)
        if sm.ret is DIV:
            raise Diverge()
        return ret

    evset = set()

    def has_ref(self, ty):
        t = self.P.tys[ty]
        k = t["k"]
        if k in ("ref", "ptr", "dyn", "closure", "fnptr"):
            return True
        if k in ("array", "slice", "pat"):
            return self.has_ref(t["e"])
        if k == "tuple":
            return any(self.has_ref(x) for x in t["ts"])
        if k == "adt":
            return t["krate"] not in ("ed448_goldilocks", "fiat_crypto", "subtle", "core") or \
                any(self.has_ref(f[1]) for v in t["vars"] for f in v["fields"])
        return False

    def alg_type(self, ty, depth=0):
        c = self.P.tys[ty].setdefault("_alg", None)
        if c is not None:
            return c
        t = self.P.tys[ty]
        t["_alg"] = False
        r = False
        if self.leaf_kind(ty):
            r = True
        elif t["k"] in ("ref", "ptr", "slice", "array"):
            r = self.alg_type(t["e"])
        elif t["k"] == "tuple":
            r = any(self.alg_type(x) for x in t["ts"])
        elif t["k"] == "adt":
            r = any(self.alg_type(f[1]) for v in t["vars"] for f in v["fields"])
        elif t["k"] == "pat":
            r = self.alg_type(t["e"])
        t["_alg"] = r
        return r

    def build(self, inst, body, pargs, cx, key):
        self.summ[key] = None       # recursion guard
        saved = (self.mem, self.events, self.assume, self.evset, self.depth_switch)
        sf = I.FACTS
        I.FACTS = I.Facts()
        self.mem = {c: v for c, v in cx.cells.items()}
        self.events = []
        self.evset = set()
        self.assume = []
        self.depth_switch = {}
        sm = Summary()
        try:
            div = False
            try:
                ret = self.call_inline(inst, pargs, None)
            except Diverge:
                div = True
                ret = UNIT
            sm.ret = DIV if div else self.close_out(body.locals[0], ret)
            sm.outs = []
            for c, p, ty, n in cx.outs:
                v = self.mem[c]
                if v is cx.cells[c] or div:
                    sm.outs.append(None)
                elif n is None:
                    sm.outs.append(self.close_out(ty, v))
                else:
                    sm.outs.append(tuple(self.close_out(self.P.tys[ty]["e"], x) for x in v))
            sm.events = self.events
            sm.clean = all(sc_clean(v) for v in [sm.ret] + sm.outs)
            sm.bad = any(e["kind"] in OBL for e in self.events)
            self.nsum += 1
        except (NoSummary, Unsupported) as ex:
            if self.trace:
                print("no summary for %s: %s" % (inst["name"], ex))
            sm = None
        finally:
            self.mem, self.events, self.assume, self.evset, self.depth_switch = saved
            I.FACTS = sf
        self.summ[key] = sm
        return sm

    trace = False


DIV = ("diverges",)


def sc_clean(v):
    if isinstance(v, tuple):
        return all(sc_clean(x) for x in v)
    if isinstance(v, SC):
        return dom.clean_int(v.poly)
    if isinstance(v, En):
        return all(sc_clean(x) for x in v.pay.values())
    return True



class Cx:
    def __init__(self, it):
        self.it = it
        self.key = []
        self.leaves = []
        self.outs = []
        self.cells = {}
        self.raw = False
        self.weak = self.has_canon = False
        self.n_alg = 0
        self.genv = {}
        self.senv = {}

    def cell(self, v):
        c = self.it.ncell
        self.it.ncell += 1
        self.cells[c] = v
        return c
