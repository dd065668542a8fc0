"""Abstract interpreter for dumped MIR.

Values are immutable: int / IV (machine integers), tuple (struct, tuple, array,
closure), En (enum), Ptr, and Opaque composites (a whole field element, scalar or
curve point kept as one algebraic value; `.view()` gives its components).
Branches on non-constant conditions are joined at the immediate post-dominator.
"""
import sys
from . import ints as I
from .ints import IV, pol, rng
from .poly import Poly, Poly_from_key, SYMS
from .mir import EXIT

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Diverge(Exception):
    """every execution reaching this point panics"""


class _U:
    def __repr__(self):
        return "UNINIT"


UNINIT = _U()
UNIT = ()


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Poison(%s)" % self.why


class Sel:
    """cond ? a : b, for values that have no common abstract form; settled where the condition is known"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Sel"


class En:
    __slots__ = ("d", "pay")

    def __init__(self, d, pay):
        self.d, self.pay = d, pay      # variant index (int/IV), {variant: tuple}

    def __repr__(self):
        return "En(%r,%r)" % (self.d, self.pay)


class Ptr:
    __slots__ = ("cell", "path", "meta", "ty")

    def __init__(self, cell, path, meta, ty):
        self.cell, self.path, self.meta, self.ty = cell, path, meta, ty

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.cell, self.path, self.meta)


class FnV:
    __slots__ = ("inst", "env")

    def __init__(self, inst, env=None):
        self.inst = inst
        self.env = env      # captured (empty) environment of a closure used as fn pointer


class Opaque:
    """composite kept closed; subclasses define view()"""
    __slots__ = ()

    def view(self):
        raise NotImplementedError


def elems(v):
    if isinstance(v, tuple):
        return v
    if isinstance(v, Opaque):
        return v.view()
    raise Unsupported("component of %r" % (v,))


def get(v, c):
    if isinstance(c, int):
        if isinstance(v, tuple):
            return v[c]
        return elems(v)[c]
    if isinstance(c, IV):
        vs = elems(v)
        r = None
        for k in range(max(c.lo, 0), min(c.hi, len(vs) - 1) + 1):
            if r is None:
                r = vs[k]
            else:
                r = merge(I.eq0(I.sub(c, k)), vs[k], r)
        return r
    if c[0] == "v":
        if not isinstance(v, En):
            raise Unsupported("downcast of %r" % (v,))
        return v.pay.get(c[1], UNINIT)
    if c[0] == "s":
        return elems(v)[c[1]:c[1] + c[2]]
    raise Unsupported("path %r" % (c,))


def put(v, path, new):
    if not path:
        return new
    c = path[0]
    if isinstance(c, int):
        if v is UNINIT:
            v = ()
        vs = elems(v)
        if c >= len(vs):
            vs = vs + (UNINIT,) * (c + 1 - len(vs))
        return vs[:c] + (put(vs[c], path[1:], new),) + vs[c + 1:]
    if isinstance(c, IV):
        vs = list(elems(v))
        for k in range(max(c.lo, 0), min(c.hi, len(vs) - 1) + 1):
            vs[k] = merge(I.eq0(I.sub(c, k)), put(vs[k], path[1:], new), vs[k])
        return tuple(vs)
    if c[0] == "v":
        pay = dict(v.pay) if isinstance(v, En) else {}
        pay[c[1]] = put(pay.get(c[1], UNINIT), path[1:], new)
        return En(v.d if isinstance(v, En) else UNINIT, pay)
    if c[0] == "s":
        vs = elems(v)
        mid = put(vs[c[1]:c[1] + c[2]], path[1:], new)
        return vs[:c[1]] + tuple(elems(mid)) + vs[c[1] + c[2]:]
    raise Unsupported("path %r" % (c,))


MERGE_HOOK = []


def same(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, IV) and isinstance(b, IV):
        return a.p.eq(b.p)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.cell == b.cell and same(a.path, b.path) and same(a.meta, b.meta)
    return False


def merge(c, a, b):
    """c ? a : b"""
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    if a is UNINIT or isinstance(a, Poison):
        return b
    if b is UNINIT or isinstance(b, Poison):
        return a
    if isinstance(a, (int, IV)) and isinstance(b, (int, IV)):
        return I.ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, En) and isinstance(b, En):
        d = a.d if a.d is b.d else (b.d if a.d is UNINIT else a.d if b.d is UNINIT else I.ite(c, a.d, b.d))
        pay = dict(b.pay)
        for k, v in a.pay.items():
            pay[k] = merge(c, v, pay[k]) if k in pay else v
        return En(d, pay)
    if isinstance(a, Sel) or isinstance(b, Sel):
        return Sel(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if same(a, b):
            return a
        return Sel(c, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        for h in MERGE_HOOK:
            r = h(c, a, b)
            if r is not None:
                return r
        return merge(c, elems(a), elems(b))
    if isinstance(a, FnV) and isinstance(b, FnV) and a.inst == b.inst:
        return a
    return Sel(c, a, b)


def straight_arms(body, t, join):
    """every arm of the switch only computes integers on its way to the join"""
    for tb in {b for _, b in t[2]} | {t[3]}:
        for _ in range(8):
            if tb == join or body.blocks[tb].t[0] == "unreachable":
                break
            blk = body.blocks[tb]
            if any(s[0] not in ("=", "nop") or s[1].steps or s[2][0] not in ("use", "bin", "un", "cast") for s in blk.s):
                return False
            if blk.t[0] != "goto":
                return blk.t[0] == "return"
            tb = blk.t[1]
        else:
            return False
    return True


JOIN_HOOK = []


class Interp:
    def __init__(self, prog):
        self.P = prog
        self.heap = {}
        self.mem = {}
        self.ncell = 1
        self.events = []
        self.stack = []            # instance names
        self.consts = {}
        self.nsteps = 0
        self.natives = {}
        self.native_fns = []       # callables (interp, inst, args, sp) -> value or NotImplemented
        self.call_hook = None      # (inst, args, sp) -> value or NotImplemented
        self.visited = set()
        self.assume = []
        self.depth_switch = {}
        self.inline_calls = 0
        self.havoc = 0

    # ------------------------------------------------ memory
    def new_cell(self, v):
        c = self.ncell
        self.ncell += 1
        self.mem[c] = v
        return c

    def load(self, cell, path):
        v = self.cellval(cell)
        for c in path:
            v = get(v, c)
        return v

    def cellval(self, cell):
        if isinstance(cell, tuple):
            return self.const_cell(cell)
        try:
            return self.mem[cell]
        except KeyError:
            raise Unsupported("dangling cell %r" % (cell,))

    def store(self, cell, path, v):
        if isinstance(cell, tuple):
            raise Unsupported("write to constant memory")
        if not path:
            self.mem[cell] = v
        else:
            self.mem[cell] = put(self.mem[cell], path, v)

    def deref(self, p):
        if isinstance(p, Poison):
            raise Unsupported(p.why)
        if not isinstance(p, Ptr):
            raise Unsupported("dereference of %r" % (p,))
        if p.meta is not None:
            # slice value
            st = p.path[-1]
            arr = elems(self.load(p.cell, p.path[:-1]))
            return arr[st:st + p.meta]
        return self.load(p.cell, p.path)

    def write(self, p, v):
        self.store(p.cell, p.path, v)

    # ------------------------------------------------ constants
    def const(self, o):
        c = o[1]
        if o[2][0] is None:
            o[2][0] = (self.decode_const(c),)
        return o[2][0][0]

    def decode_const(self, c):
        ty = c["ty"]
        t = self.P.tys[ty]
        if t["k"] == "fndef":
            return FnV(t["inst"])
        if "z" in c:
            return self.zst(ty)
        if "unk" in c:
            raise Unsupported("constant %s" % c["unk"])
        b = bytes.fromhex(c["a"]["b"])
        return self.decode(ty, b, {o: a for o, a in c["a"]["p"]}, 0)

    def zst(self, ty):
        t = self.P.tys[ty]
        k = t["k"]
        if k == "fndef":
            return FnV(t["inst"])
        if k == "tuple":
            return tuple(self.zst(x) for x in t["ts"])
        if k == "array":
            return (self.zst(t["e"]),) * t["n"] if t["n"] and self.P.size(t["e"]) == 0 else ()
        if k == "adt":
            if self.P.erased(ty):
                return self.zst(self.P.erased_inner(ty))
            if t["adt"] == "enum":
                return En(0, {0: ()})
            return tuple(self.zst(f) for _, f in t["vars"][0]["fields"])
        if k == "closure":
            return tuple(self.zst(f) for f in t["up"])
        return ()

    def decode(self, ty, b, prov, off):
        P = self.P
        t = P.tys[ty]
        k = t["k"]
        sz = P.size(ty)
        if k == "int":
            v = int.from_bytes(b[off:off + sz], "little")
            if t["s"] and v >> (8 * sz - 1):
                v -= 1 << (8 * sz)
            return v
        if k in ("bool", "char"):
            return int.from_bytes(b[off:off + sz], "little")
        if sz == 0:
            return self.zst(ty)
        if k == "array":
            es = P.size(t["e"])
            return tuple(self.decode(t["e"], b, prov, off + i * es) for i in range(t["n"]))
        if k == "tuple":
            offs = t["layout"]["fields"]["offs"]
            return tuple(self.decode(f, b, prov, off + o) for f, o in zip(t["ts"], offs))
        if k in ("ref", "ptr"):
            if off not in prov:
                return int.from_bytes(b[off:off + 8], "little")
            a = prov[off]
            e = P.tys[t["e"]]
            addend = int.from_bytes(b[off:off + 8], "little")
            if e["k"] in ("slice", "str"):
                n = int.from_bytes(b[off + 8:off + 16], "little")
                if e["k"] == "str":
                    return Ptr(("str", a), (0,), n, t["e"])
                es = P.size(e["e"])
                return Ptr(("allocs", a, e["e"], n + addend // es), (addend // es,), n, t["e"])
            if e["k"] == "dyn":
                return Ptr(("dyn", a), (), None, t["e"])
            if addend:
                raise Unsupported("interior constant pointer")
            if "fn" in (self.P.allocs.get(str(a)) or {}):
                return FnV(self.P.allocs[str(a)]["fn"])
            return Ptr(("alloc", a, t["e"]), (), None, t["e"])
        if k == "adt":
            if P.erased(ty):
                i = P.erased_inner(ty)
                return self.decode(i, b, prov, off)
            if t["adt"] == "struct":
                offs = t["layout"]["fields"]["offs"]
                return tuple(self.decode(f[1], b, prov, off + o) for f, o in zip(t["vars"][0]["fields"], offs))
            if t["adt"] == "enum":
                vs = t["layout"]["variants"]
                if vs["k"] == "single":
                    i = vs["i"]
                    offs = (t["layout"]["fields"] or {}).get("offs", [])
                    return En(i, {i: tuple(self.decode(f[1], b, prov, off + o) for f, o in zip(t["vars"][i]["fields"], offs))})
                tag = int.from_bytes(b[off + vs["tag_off"]:off + vs["tag_off"] + vs["tag_size"]], "little")
                if vs["enc"] == "direct":
                    i = None
                    for n, v in enumerate(t["vars"]):
                        if int(v["discr"]) % (1 << (8 * vs["tag_size"])) == tag:
                            i = n
                else:
                    e = vs["enc"]
                    M = 1 << (8 * vs["tag_size"])
                    rel = (tag - int(e["start"])) % M
                    i = e["from"] + rel if rel <= e["to"] - e["from"] else e["untagged"]
                    if (off + vs["tag_off"]) in prov:
                        i = e["untagged"]
                offs = vs["vars"][i]
                return En(i, {i: tuple(self.decode(f[1], b, prov, off + o) for f, o in zip(t["vars"][i]["fields"], offs))})
        if k == "closure":
            offs = t["layout"]["fields"]["offs"]
            return tuple(self.decode(f, b, prov, off + o) for f, o in zip(t["up"], offs))
        if k == "pat":
            return self.decode(t["e"], b, prov, off)
        if k == "fnptr" and off in prov:
            return FnV(self.P.allocs[str(prov[off])]["fn"])
        raise Unsupported("constant of type %s" % t["str"])

    def const_cell(self, cell):
        v = self.consts.get(cell)
        if v is None:
            a = self.P.allocs.get(str(cell[1]))
            if cell[0] == "str":
                v = tuple(bytes.fromhex(a["b"]))
            elif cell[0] == "dyn" or a is None or "b" not in a:
                raise Unsupported("constant memory %r" % (cell,))
            else:
                b = bytes.fromhex(a["b"])
                prov = {o: x for o, x in a["p"]}
                if a.get("mut"):
                    raise Unsupported("mutable static")
                if cell[0] == "allocs":
                    es = self.P.size(cell[2])
                    v = tuple(self.decode(cell[2], b, prov, i * es) for i in range(cell[3]))
                else:
                    v = self.decode(cell[2], b, prov, 0)
            self.consts[cell] = v
        return v

    # ------------------------------------------------ places and operands
    def resolve(self, fr, pl):
        cell = fr + pl.local
        steps = pl.steps
        if not steps:
            return cell, (), None
        path = ()
        meta = None
        for s in steps:
            if isinstance(s, int):
                path = path + (s,)
                continue
            k = s[0]
            if k == "*":
                p = self.load(cell, path)
                if isinstance(p, Sel):
                    p = self.settle(p)
                if isinstance(p, Poison):
                    raise Unsupported(p.why)
                if not isinstance(p, Ptr):
                    raise Unsupported("dereference of %r" % (p,))
                cell, path, meta = p.cell, p.path, p.meta
            elif k == "i":
                i = self.mem[fr + s[1]]
                if isinstance(i, IV):
                    self.event("index", "array index depends on a non-constant value", cond=i)
                    i2 = I.name_small(i)
                    if i2 is None:
                        raise Unsupported("index with large symbolic range")
                    i = i2
                if s[2]:
                    path = path[:-1] + (I.add(path[-1], i),)
                    meta = None
                else:
                    path = path + (i,)
            elif k == "c":
                _, off, from_end, sl, n = s
                if sl:
                    i = meta - off if from_end else off
                    path = path[:-1] + (path[-1] + i,)
                    meta = None
                else:
                    path = path + ((n - off) if from_end else off,)
            elif k == "s":
                _, a, b, from_end, sl, n = s
                if sl:
                    l = (meta - b - a) if from_end else b - a
                    path = path[:-1] + (path[-1] + a,)
                    meta = l
                else:
                    l = (n - b - a) if from_end else b - a
                    path = path + (("s", a, l),)
            else:
                path = path + (s,)
        return cell, path, meta

    def read(self, fr, pl):
        if not pl.steps:
            v = self.mem[fr + pl.local]
        else:
            cell, path, meta = self.resolve(fr, pl)
            if meta is not None and not (isinstance(pl.steps[-1], int) and not self.unsized(pl.ty)):
                v = self.deref(Ptr(cell, path, meta, None))
            else:
                v = self.load(cell, path)
        if isinstance(v, Sel):
            v = self.settle(v)
        return v

    def unsized(self, ty):
        t = self.P.tys[ty]
        while t["k"] == "adt" and t["adt"] == "struct" and t["vars"][0]["fields"]:
            t = self.P.tys[t["vars"][0]["fields"][-1][1]]
        return t["k"] in ("slice", "str", "dyn")

    def settle(self, v):
        while isinstance(v, Sel):
            c = v.c if isinstance(v.c, int) else self.decide(v.c)
            if not isinstance(c, int):
                break
            v = v.a if c else v.b
        return v

    def assign(self, fr, pl, v):
        if not pl.steps:
            self.mem[fr + pl.local] = v
        else:
            cell, path, meta = self.resolve(fr, pl)
            self.store(cell, path, v)

    def op(self, fr, o):
        k = o[0]
        if k == "C" or k == "M":
            return self.read(fr, o[1])
        if k == "K":
            return self.const(o)
        return 0

    # ------------------------------------------------ events
    def event(self, kind, msg, cond=None, fatal=False):
        fn = self.stack[-1] if self.stack else "?"
        sp = self.cur_sp
        self.events.append({"kind": kind, "fn": self.fname(), "file": self.P.file(sp) if sp else "?", "line": sp[1] if sp else 0,
                            "msg": msg, "cond": cond, "call": self.user_frame()})

    cur_sp = None

    def fname(self):
        return self.stack[-1][0]["name"] if self.stack else "?"

    def user_frame(self):
        """innermost frame belonging to the analysed crate"""
        for inst, sp in reversed(self.stack):
            if inst["krate"] == "ed448_goldilocks":
                return inst["name"]
        return self.fname()

    # ------------------------------------------------ calls
    def call(self, iid, args, sp=None):
        inst = self.P.insts[iid]
        if self.call_hook:
            r = self.call_hook(inst, args, sp)
            if r is not NotImplemented:
                return r
        return self.call_inline(inst, args, sp)

    def call_inline(self, inst, args, sp=None):
        f = self.native_for(inst)
        if f is not None:
            r = f(self, inst, args, sp)
            if r is not NotImplemented:
                return r
        if inst["kind"] == "virtual" and args and isinstance(args[0], Ptr) and isinstance(args[0].meta, tuple):
            t = self.P.tys[self.P.strip(args[0].meta[1])]
            if t["k"] == "closure" and " as std::ops::Fn" in inst["name"]:
                k = "mut" if "FnMut<" in inst["name"] else "fn"
                if t[k] is not None:
                    return self.call(t[k], args, sp)
        body = self.P.body(inst["id"])
        if body is None:
            if inst["kind"] == "shim" and inst.get("empty"):
                return UNIT
            if inst.get("ret") is not None and self.P.tys[inst["ret"]]["k"] == "adt":
                t = self.P.tys[inst["ret"]]         # a tuple constructor used as a function
                last = inst["name"].rsplit("::", 1)[-1]
                if last.startswith("<"):
                    last = inst["name"].rsplit("::", 2)[-2]
                for i, x in enumerate(t["vars"]):
                    if x["name"] == last and len(x["fields"]) == len(args):
                        return tuple(args) if t["adt"] == "struct" else En(i, {i: tuple(args)})
            raise Unsupported("no body and no model for %s" % inst["name"])
        self.visited.add(inst["id"])
        if len(self.stack) > 200:
            raise Unsupported("call depth")
        fr = self.ncell
        n = len(body.locals)
        self.ncell += n
        mem = self.mem
        for i in range(n):
            mem[fr + i] = UNINIT
        if inst["name"].endswith("}") and "{closure#" in inst["name"].rsplit("::", 1)[-1] and len(args) == 2 and isinstance(args[1], tuple):
            args = [args[0]] + list(args[1])
        if len(args) != body.argc:
            # closures called with spread/tupled arguments
            if len(args) == 2 and isinstance(args[1], tuple) and 1 + len(args[1]) == body.argc:
                args = [args[0]] + list(args[1])
            else:
                raise Unsupported("argument count for %s" % inst["name"])
        for i, a in enumerate(args):
            mem[fr + 1 + i] = a
        self.stack.append((inst, sp))
        saved_sp = self.cur_sp
        try:
            ok = self.run(body, fr, 0, EXIT)
            if not ok:
                raise Diverge()
            mem = self.mem
            ret = mem[fr]
            return ret
        finally:
            self.stack.pop()
            self.cur_sp = saved_sp
            mem = self.mem
            for i in range(n):
                mem.pop(fr + i, None)

    def native_for(self, inst):
        r = inst.get("_nat", 0)
        if r == 0:
            r = None
            for f in self.native_fns:
                r = f(inst)
                if r is not None:
                    break
            inst["_nat"] = r
        return r

    # ------------------------------------------------ control
    def run(self, body, fr, bb, stop):
        """run from bb until `stop`; False if all executions panic"""
        blocks = body.blocks
        count = {}
        while bb != stop:
            blk = blocks[bb]
            for s in blk.s:
                self.nsteps += 1
                k = s[0]
                if k == "=":
                    self.cur_sp = s[3]
                    self.assign(fr, s[1], self.rv(fr, s[2], s[1].ty))
                elif k == "sd":
                    c, p, m = self.resolve(fr, s[1])
                    v = self.load(c, p)
                    pay = v.pay if isinstance(v, En) else {}
                    self.store(c, p, En(s[2], pay))
                elif k == "cno":
                    self.cur_sp = s[3]
                    a = [self.op(fr, o) for o in s[1]]
                    self.copy(a[0], a[1], a[2])
            t = blk.t
            k = t[0]
            self.cur_sp = blk.sp
            if k == "goto":
                bb = t[1]
            elif k == "switch":
                v = self.op(fr, t[1])
                if isinstance(v, IV):
                    v = self.decide(v)
                if isinstance(v, int):
                    for x, tb in t[2]:
                        if x == v:
                            bb = tb
                            break
                    else:
                        bb = t[3]
                elif isinstance(v, IV):
                    bb = self.branch(body, fr, bb, v, t)
                    if bb is None:
                        return False
                else:
                    raise Unsupported("switch on %r" % (v,))
            elif k == "call":
                r = self.do_call(fr, t, blk.sp)
                if r is False:
                    return False
                bb = t[4]
                if bb is None:
                    return False
            elif k == "assert":
                c = self.op(fr, t[1])
                if isinstance(c, IV):
                    c = self.decide(c)
                want = 1 if t[2] else 0
                if isinstance(c, int):
                    if c != want:
                        self.event("panic", "assertion always fails: %s" % (t[3][0],))
                        return False
                elif isinstance(c, Poison):
                    raise Unsupported(c.why)
                else:
                    self.event("assert", "cannot be shown to hold: %s" % " ".join(str(x) for x in t[3][:2]), cond=c)
                bb = t[4]
            elif k == "drop":
                if t[3] is not None:
                    c, p, m = self.resolve(fr, t[1])
                    try:
                        self.call(t[3], [Ptr(c, p, m, t[1].ty)], blk.sp)
                    except Diverge:
                        return False
                bb = t[2]
            elif k == "return":
                bb = EXIT
            elif k == "unreachable":
                return False
            else:
                self.event("panic", "reaches %s" % k)
                return False
            n = count.get(bb, 0) + 1
            count[bb] = n
            if n > 20000:
                raise Unsupported("loop bound exceeded in %s" % body.inst["name"])
        return True

    def decide(self, v):
        """try to make a 0/1 (or small) value constant under the current assumptions"""
        if self.assume:
            p = v.p
            for s, x in self.assume:
                if s in p.syms():
                    p = p.subst1(s, Poly.const(x))
            if p.is_const():
                return p.const_val()
            if p is not v.p:
                v = IV(p, v.lo, v.hi)
        if len(v.p.t) <= 2 and len(max(v.p.t, key=len)) > 6:
            # a conjunction of digit comparisons decides as one comparison
            for h in JOIN_HOOK:
                q = h(v.p)
                if q is not None:
                    if q.is_const():
                        return q.const_val()
                    v = IV(q, v.lo, v.hi)
        return I.tighten(v, False)

    def branch(self, body, fr, bb, v, t):
        join = self.P.ipdom(body).get(bb)
        if join is None:
            join = EXIT
        if not (body.inst["krate"] == "core" and "core::num::" in body.inst["name"] and straight_arms(body, t, join)):
            # (a two-way selection inside a primitive integer operation such as abs is one machine operation)
            self.event("branch", "control flow depends on a non-constant value", cond=v)
        key = (id(body), bb)
        d = self.depth_switch.get(key, 0)
        if d > 64:
            raise Unsupported("loop with non-constant bound in %s" % body.inst["name"])
        self.depth_switch[key] = d + 1
        try:
            cases = []
            rest = 1
            for x, tb in t[2]:
                c = I.eq0(I.sub(v, x))
                cases.append((c, tb))
                rest = I.sub(rest, c)
            if not (isinstance(rest, int) and rest == 0):
                cases.append((rest, t[3]))
            cases = [(c, tb) for c, tb in cases if not (isinstance(c, int) and c == 0)]
            base = dict(self.mem)
            states = []
            for c, tb in cases:
                self.mem = dict(base)
                na = 0
                case = None
                if isinstance(c, IV):
                    a = simple_bool(c)
                    if a:
                        case = I.Case(dict(a))
                        self.assume += a
                        na = len(a)
                        case.__enter__()
                try:
                    ok = self.run(body, fr, tb, join)
                except Diverge:
                    ok = False
                finally:
                    if case:
                        case.__exit__()
                    if na:
                        del self.assume[-na:]
                if ok:
                    states.append((c, self.mem))
            if not states:
                self.mem = base
                return None
            m = states[-1][1]
            dead = {fr + i for i in self.P.dead(body, join)} if len(states) > 1 else ()
            for c, s in reversed(states[:-1]):
                m = self.merge_mem(c, s, m, dead)
            self.mem = m
            return join
        finally:
            self.depth_switch[key] = d

    def merge_mem(self, c, a, b, dead):
        out = {}
        for k, va in a.items():
            if k in dead:
                out[k] = va if va is b.get(k) else UNINIT
            elif k in b:
                vb = b[k]
                out[k] = va if va is vb else merge(c, va, vb)
            else:
                out[k] = va
        for k, vb in b.items():
            if k not in a:
                out[k] = vb
        return out

    def do_call(self, fr, t, sp):
        f = t[1]
        args = [self.op(fr, a) for a in t[2]]
        self.cur_sp = sp
        if f[0] == "K":
            fi = self.const(f)
        else:
            fi = self.op(fr, f)
        if not isinstance(fi, FnV):
            raise Unsupported("indirect call")
        if fi.inst is None:
            raise Unsupported("unresolved callee %s" % self.P.tys[f[1]["ty"]]["str"])
        inst = self.P.insts[fi.inst]
        if fi.env is not None:
            args = [fi.env, tuple(args)]
        if t[4] is None:
            self.event("panic", "panic reachable: %s" % inst["name"])
            return False
        try:
            r = self.call(fi.inst, args, sp)
        except Diverge:
            return False
        self.assign(fr, t[3], r)
        return True

    # ------------------------------------------------ rvalues
    def rv(self, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.op(fr, r[1])
        if k == "bin":
            return self.binop(r[1], self.op(fr, r[2]), self.op(fr, r[3]), r[4], False)
        if k == "chk":
            return self.binop(r[1], self.op(fr, r[2]), self.op(fr, r[3]), r[4], True)
        if k == "ref" or k == "reborrow":
            c, p, m = self.resolve(fr, r[1])
            st = r[1].steps
            if m is not None and st and isinstance(st[-1], int):
                if self.P.tys[r[1].ty]["k"] == "slice":
                    p = p + (0,)        # the unsized tail of a structure
                elif not self.unsized(r[1].ty):
                    m = None            # a sized field of an unsized structure
            return Ptr(c, p, m, r[1].ty)
        if k == "cast":
            return self.cast(r[1], self.op(fr, r[2]), r[3], r[4])
        if k == "agg":
            kk = r[1]
            vals = tuple([self.op(fr, o) for o in r[2]])
            if kk[0] == "adt":
                ty = kk[1]
                t = self.P.tys[ty]
                if self.P.erased(ty):
                    if t["adt"] == "union":
                        return UNINIT if self.P.size(t["vars"][0]["fields"][kk[3]][1]) == 0 and self.P.size(ty) != 0 else vals[0]
                    return vals[0]
                if t["adt"] == "enum":
                    return En(kk[2], {kk[2]: vals})
                if t["adt"] == "union":
                    raise Unsupported("union")
                return vals
            if kk[0] == "rawptr":
                p, meta = vals
                if isinstance(p, Ptr):
                    if isinstance(meta, (int, IV)):
                        return Ptr(p.cell, p.path, meta, dty and self.P.tys[self.P.strip(dty)].get("e"))
                    return p
                if isinstance(p, int):
                    return Ptr(("dangling",), (0,), meta, None) if isinstance(meta, int) else p
                raise Unsupported("raw pointer")
            if kk[0] in ("array", "tuple", "closure"):
                return vals
            raise Unsupported("aggregate %r" % (kk,))
        if k == "un":
            v = self.op(fr, r[2])
            t = self.P.tys[r[3]]
            if r[1] == "PtrMetadata":
                if isinstance(v, Ptr):
                    return v.meta if v.meta is not None else UNIT
                return UNIT
            if r[1] == "Not":
                if t["k"] == "bool":
                    return I.sub(1, v)
                if t["s"]:
                    return I.sub(-1, v)
                return I.sub((1 << t["bits"]) - 1, v)
            if r[1] == "Neg":
                return I.wrap(I.sub(0, v), t["bits"], t["s"])
            raise Unsupported("unary %s" % r[1])
        if k == "repeat":
            return (self.op(fr, r[1]),) * r[2]
        if k == "discr":
            v = self.read(fr, r[1])
            t = self.P.tys[r[1].ty]
            if not isinstance(v, En):
                if isinstance(v, tuple):
                    return 0
                if v is UNINIT:
                    vs = (t.get("layout") or {}).get("variants") or {}
                    if vs.get("k") == "single":
                        return int(t["vars"][vs["i"]]["discr"])
                    return Poison("discriminant of an uninitialised value")
                raise Unsupported("discriminant of %r" % (v,))
            return self.discr(v, t)
        if k == "len":
            t = self.P.tys[r[1].ty]
            if t["k"] == "array":
                return t["n"]
            return self.resolve(fr, r[1])[2]
        raise Unsupported("rvalue %r" % (r,))

    def discr(self, v, t):
        ds = [int(x["discr"]) for x in t["vars"]]
        if isinstance(v.d, int):
            return ds[v.d]
        if ds == list(range(len(ds))):
            return v.d
        x = I.finite_apply(lambda i: ds[i], [v.d.p])
        if x is None and len(ds) > 1 and all(y - ds[0] == i * (ds[1] - ds[0]) for i, y in enumerate(ds)):
            x = I.add(ds[0], I.mul(v.d, ds[1] - ds[0]))
        if x is None and len(ds) == 3 and len(v.d.p.t) <= 200:
            # the parabola through the three points
            p = v.d.p
            q = I.collapse((p * (p - Poly.const(1))).shr(1))
            q = I.collapse(Poly.const(ds[0]) + p.scale(ds[1] - ds[0]) + q.scale(ds[2] - 2 * ds[1] + ds[0]))
            x = I.mk(q, min(ds), max(ds))
        if x is None:
            raise Unsupported("symbolic discriminant %r" % ds)
        return x

    def int_ty(self, ty):
        t = self.P.tys[ty]
        if t["k"] == "int":
            return t["bits"], t["s"]
        if t["k"] == "bool":
            return 1, False
        if t["k"] == "char":
            return 32, False
        return None

    def binop(self, op, a, b, ty, chk):
        it = self.int_ty(self.P.strip(ty))
        if it is None:
            return self.ptrop(op, a, b, ty)
        for x in (a, b):
            if not isinstance(x, (int, IV)):
                if isinstance(x, Poison):
                    return (x, x) if chk else x
                if op == "BitAnd" and isinstance(a, Ptr) and isinstance(a.cell, int) and self.heap.get(a.cell) \
                        and isinstance(b, int) and b in (0, 1, 3, 7) and a.path[-1:] in ((), (0,)):
                    return 0            # an allocation is aligned
                if op in ("Eq", "Ne") and isinstance(a, Ptr) and isinstance(b, int) and b == 0:
                    return int(op == "Ne")      # and not null
                raise Unsupported("%s on %r" % (op, x))
        bits, signed = it
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            o = op[:3]
            x = I.add(a, b) if o == "Add" else I.sub(a, b) if o == "Sub" else I.mul(a, b)
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            if isinstance(x, IV) and o == "Sub":
                x = I.digit(x)
            if isinstance(x, int):
                if lo <= x <= hi:
                    return (x, 0) if chk else x
                w = I.wrap(x, bits, signed)
                return (w, 1) if chk else w
            if chk:
                if I.fits(x, lo, hi):
                    return (x, 0)
                f = self.ovf(x, lo, hi)
                if isinstance(f, int) and f == 0:
                    return (x, 0)
                return (I.wrap(x, bits, signed), f)
            return I.wrap(x, bits, signed, True) if len(x.p.t) < 400 else I.wrap(x, bits, signed)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return I.bitop({"BitAnd": "&", "BitOr": "|", "BitXor": "^"}[op], a, b, bits, signed)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if isinstance(b, IV):
                b2 = I.name_small(b)
                if isinstance(b2, int):
                    b = b2
                else:
                    self.event("index", "shift amount depends on a non-constant value", cond=b)
                    if b2 is None or b2.lo < 0 or b2.hi >= bits:
                        raise Unsupported("symbolic shift amount")
                    r = None
                    for k in range(b2.lo, b2.hi + 1):
                        x = I.shr_(a, k) if op[:3] == "Shr" else I.shl_(a, k, bits, signed)
                        r = x if r is None else I.ite(I.eq0(I.sub(b2, k)), x, r)
                    return r
            b &= bits - 1
            if op[:3] == "Shr":
                return I.shr_(a, b)
            return I.shl_(a, b, bits, signed)
        if op == "Eq":
            return I.eq0(I.sub(a, b))
        if op == "Ne":
            return I.bnot(I.eq0(I.sub(a, b)))
        if op == "Lt":
            return I.lt(a, b)
        if op == "Gt":
            return I.lt(b, a)
        if op == "Le":
            return I.bnot(I.lt(b, a))
        if op == "Ge":
            return I.bnot(I.lt(a, b))
        if op in ("Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Unsupported("division by zero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == "Div" else a - q * b
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0 and I.fits(a, 0, 1 << 200):
                k = b.bit_length() - 1
                q = I.shr_(a, k)
                return q if op == "Div" else I.sub(a, I.mul(q, b))
            na = I.name_small(a)
            nb = I.name_small(b)
            if na is not None and nb is not None:
                def f(x, y):
                    q = abs(x) // abs(y)
                    q = -q if (x < 0) != (y < 0) else q
                    return q if op == "Div" else x - q * y
                r = I.finite_apply(f, [pol(na), pol(nb)])
                if r is not None:
                    return r
            self.event("index", "variable-time division on a non-constant value", cond=a if isinstance(a, IV) else b)
            raise Unsupported("symbolic division")
        if op == "Cmp":
            # Ordering: Less=-1, Equal=0, Greater=1 -> variant index 0,1,2
            return En(I.cmp3(a, b), {0: (), 1: (), 2: ()})
        raise Unsupported("binary %s" % op)

    def ovf(self, x, lo, hi):
        """[x outside lo..hi] as 0/1"""
        r = I.finite_apply(lambda v: 0 if lo <= v <= hi else 1, [x.p])
        if r is not None:
            return r
        if lo == 0:
            # carry / borrow out of an unsigned operation: the quotient the wrap-around discards
            k = hi.bit_length()
            x.refine()
            if -(1 << k) <= x.lo and x.hi < (2 << k) and (x.lo >= 0 or x.hi <= hi):
                q = I.shr_(x, k)
                if x.lo < 0:
                    q = I.sub(0, q)
                return q if isinstance(q, int) else I.name_bool(q.p)
        a = I.lt(x, lo)
        b = I.lt(hi, x)
        return I.add(a, b)

    def ptrop(self, op, a, b, ty):
        if op == "Offset":
            if not isinstance(a, Ptr):
                raise Unsupported("offset of %r" % (a,))
            if isinstance(b, IV):
                raise Unsupported("symbolic pointer offset")
            if b == 0:
                return a
            if not a.path or not isinstance(a.path[-1], int):
                raise Unsupported("pointer arithmetic outside an array")
            return Ptr(a.cell, a.path[:-1] + (a.path[-1] + b,), a.meta, a.ty)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.cell == b.cell and a.path[:-1] == b.path[:-1]:
                    x, y = (a.path[-1], b.path[-1]) if a.path else (0, 0)
                    return int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
                if op in ("Eq", "Ne"):
                    return int((a.cell != b.cell or a.path != b.path) == (op == "Ne"))
            if op in ("Eq", "Ne") and isinstance(a, (Ptr, int)) and isinstance(b, (Ptr, int)):
                return int((op == "Ne") != (a == b))
        raise Unsupported("pointer operation %s" % op)

    # ------------------------------------------------ casts
    def cast(self, kind, v, src, dst):
        P = self.P
        if kind == "IntToInt":
            t = P.tys[dst]
            if t["k"] == "bool":
                return v
            if isinstance(v, En):
                v = self.discr(v, P.tys[src])
                if P.tys[src]["str"].endswith("cmp::Ordering"):
                    v = I.wrap(v, 8, True)
            if isinstance(v, int) and P.tys[src]["k"] == "int" and P.tys[src]["s"]:
                v = I.wrap(v, P.tys[src]["bits"], True)
            bits, s = self.int_ty(dst)
            return I.wrap(v, bits, s, deep=isinstance(v, IV) and len(v.p.t) < 200)
        if kind == "PtrToPtr" or kind.startswith("PointerExpose") or kind == "Transmute" and isinstance(v, Ptr):
            d = P.tys[P.strip(dst)]
            if d["k"] in ("ptr", "ref"):
                return self.retype(v, d["e"])
            if d["k"] == "int" and isinstance(v, Ptr):
                return v
            if kind == "Transmute":
                return self.transmute(v, src, dst)
            raise Unsupported("pointer cast to %s" % d["str"])
        if kind == "PointerCoercion(Unsize)":
            s, d = P.tys[P.strip(src)], P.tys[P.strip(dst)]
            if s.get("box") and d.get("box") and isinstance(v, tuple):
                a, b = P.tys[P.strip(s["args"][0]["t"])], P.tys[P.strip(d["args"][0]["t"])]

                def fat(x):
                    if isinstance(x, tuple):
                        return (fat(x[0]),) + x[1:]
                    return Ptr(x.cell, x.path + (0,), a["n"], d["args"][0]["t"]) if isinstance(x, Ptr) else x
                if a["k"] == "array" and b["k"] == "slice":
                    return fat(v)
            if "e" not in s or "e" not in d:
                raise Unsupported("unsizing %s to %s" % (s["str"], d["str"]))
            e = P.tys[P.strip(s["e"])]
            if e["k"] == "array" and P.tys[d["e"]]["k"] == "slice":
                return Ptr(v.cell, v.path + (0,), e["n"], d["e"])
            if P.tys[d["e"]]["k"] == "dyn" and isinstance(v, Ptr):
                return Ptr(v.cell, v.path, ("dyn", s["e"]), d["e"])      # a trait object keeps its type
            if e["k"] == "adt" and isinstance(v, Ptr):
                while e["k"] == "adt" and e["adt"] == "struct" and e["vars"][0]["fields"]:
                    e = P.tys[P.strip(e["vars"][0]["fields"][-1][1])]
                if e["k"] == "array":
                    return Ptr(v.cell, v.path, e["n"], d["e"])
            return v
        if kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                if isinstance(v, FnV):
                    return v
                t = P.tys[src]
                if t["k"] == "closure":
                    return FnV(t["once"], v)
            return v
        if kind == "Transmute" or kind == "Subtype":
            return self.transmute(v, src, dst)
        if kind.startswith("PointerWithExposed"):
            return v
        if kind.startswith("BoxDeref"):
            while isinstance(v, tuple):
                v = v[0]
            return v
        raise Unsupported("cast %s" % kind)

    def retype(self, v, e):
        """change the pointee type of a pointer"""
        P = self.P
        if isinstance(v, int):
            return v
        if not isinstance(v, Ptr):
            raise Unsupported("pointer cast of %r" % (v,))
        if v.ty is None or v.ty == e:
            t = P.tys[P.strip(e)]
            if v.ty is None and t["k"] == "array" and isinstance(v.cell, int) and self.heap.get(v.cell) and v.path and isinstance(v.path[-1], int):
                x = self.load(v.cell, v.path)
                if isinstance(x, (int, IV)):
                    return self.as_array(Ptr(v.cell, v.path, None, e), t["n"])
            return Ptr(v.cell, v.path, v.meta, e)
        if isinstance(v.cell, tuple) and v.cell[0] == "heap":
            return Ptr(v.cell, v.path, v.meta, e)
        a, b = P.strip(v.ty), P.strip(e)
        if a == b:
            return Ptr(v.cell, v.path, v.meta, e)
        ta, tb = P.tys[a], P.tys[b]
        if isinstance(v.cell, int) and self.heap.get(v.cell):
            meta = v.meta if tb["k"] == "slice" else None
            el = P.strip(ta["e"]) if ta["k"] == "slice" else a
            if tb["k"] == "array" and P.strip(tb["e"]) == el and v.path and isinstance(v.path[-1], int):
                return self.as_array(Ptr(v.cell, v.path, None, e), tb["n"])
            return Ptr(v.cell, v.path, meta, e)
        if ta["k"] in ("ptr", "ref") and tb["k"] in ("ptr", "ref"):
            return Ptr(v.cell, v.path, v.meta, e)
        if ta["k"] == "slice" and tb["k"] == "slice":
            if P.size(ta["e"]) == P.size(tb["e"]) and P.strip(ta["e"]) == P.strip(tb["e"]):
                return Ptr(v.cell, v.path, v.meta, e)
        elif ta["k"] == "slice":
            if P.strip(ta["e"]) == b:
                return Ptr(v.cell, v.path, None, e)
            if tb["k"] == "array" and P.strip(tb["e"]) == P.strip(ta["e"]):
                return self.as_array(Ptr(v.cell, v.path, None, e), tb["n"])
        elif ta["k"] == "array" and P.strip(ta["e"]) == b:
            return Ptr(v.cell, v.path + (0,), None, e)
        elif tb["k"] == "array" and P.strip(tb["e"]) == a:
            return self.as_array(Ptr(v.cell, v.path, None, e), tb["n"])
        elif ta["k"] == "array" and tb["k"] == "array" and ta["n"] == tb["n"] and P.strip(ta["e"]) == P.strip(tb["e"]):
            return Ptr(v.cell, v.path, None, e)
        if b is not None and tb["k"] in ("tuple",) and P.size(b) == 0:
            return Ptr(v.cell, v.path, None, v.ty)     # *const () : keep knowledge of the pointee
        # newtype struct -> its field
        if ta["k"] == "adt" and ta["adt"] == "struct":
            nz = [(i, f[1]) for i, f in enumerate(ta["vars"][0]["fields"]) if P.size(f[1]) != 0]
            if len(nz) == 1:
                return self.retype(Ptr(v.cell, v.path + (nz[0][0],), v.meta, nz[0][1]), e)
        if tb["k"] == "adt" and tb["adt"] == "struct" and v.path and isinstance(v.path[-1], int):
            nz = [(i, f[1]) for i, f in enumerate(tb["vars"][0]["fields"]) if P.size(f[1]) != 0]
            if len(nz) == 1 and nz[0][0] == v.path[-1] and P.strip(nz[0][1]) == a:
                return Ptr(v.cell, v.path[:-1], v.meta, e)
        raise Unsupported("pointer cast %s -> %s" % (ta["str"], tb["str"]))

    def as_array(self, p, n):
        st = p.path[-1]
        if isinstance(st, int) and st == 0:
            try:
                if len(elems(self.load(p.cell, p.path[:-1]))) == n:
                    return Ptr(p.cell, p.path[:-1], None, p.ty)
            except Unsupported:
                pass
        return Ptr(p.cell, p.path[:-1] + (("s", st, n),), None, p.ty)

    def transmute(self, v, src, dst):
        P = self.P
        s, d = P.strip(src), P.strip(dst)
        if s == d:
            return v
        ts, td = P.tys[s], P.tys[d]
        if ts["k"] == "int" and td["k"] == "int":
            return I.wrap(v, td["bits"], td["s"])
        if ts["k"] in ("bool", "int", "char") and td["k"] in ("int", "bool", "char"):
            return v
        if ts["k"] == "int" and td["k"] == "array" and isinstance(v, (int, IV)):
            w = 8 * P.size(td["e"])
            u = I.wrap(v, ts["bits"], False)
            out = []
            for i in range(td["n"]):
                out.append(I.wrap(I.shr_(u, w * i), w, P.tys[td["e"]].get("s", False)))
            return tuple(out)
        if ts["k"] == "array" and td["k"] == "int":
            w = 8 * P.size(ts["e"])
            tot = 0
            for i, x in enumerate(elems(v)):
                tot = I.add(tot, I.mul(I.wrap(x, w, False), 1 << (w * i)))
            if isinstance(tot, IV):
                tot.lo, tot.hi = max(tot.lo, 0), min(tot.hi, (1 << (w * ts["n"])) - 1)
            return I.wrap(tot, td["bits"], td["s"])
        if ts["k"] == "array" and td["k"] == "array" and ts["n"] == td["n"]:
            return tuple(self.transmute(x, ts["e"], td["e"]) for x in elems(v))
        if ts["k"] == "int" and td["k"] in ("ptr", "ref"):
            return v
        if td["k"] == "adt" and td["adt"] == "struct":
            nz = [(i, f[1]) for i, f in enumerate(td["vars"][0]["fields"]) if P.size(f[1]) != 0]
            if len(nz) == 1:
                out = [self.zst(f[1]) if P.size(f[1]) == 0 else None for f in td["vars"][0]["fields"]]
                out[nz[0][0]] = self.transmute(v, s, nz[0][1])
                return tuple(out)
        if ts["k"] == "adt" and ts["adt"] == "struct":
            nz = [(i, f[1]) for i, f in enumerate(ts["vars"][0]["fields"]) if P.size(f[1]) != 0]
            if len(nz) == 1:
                return self.transmute(elems(v)[nz[0][0]], nz[0][1], d)
        if isinstance(v, Ptr):
            return v
        if td["k"] == "adt" and td["adt"] == "enum" and isinstance(v, int):
            for i, x in enumerate(td["vars"]):
                if int(x["discr"]) == v and not x["fields"]:
                    return En(i, {i: ()})
        if ts["k"] == "adt" and ts["adt"] == "enum" and isinstance(v, En) and isinstance(v.d, int) and td["k"] in ("int", "ptr", "ref"):
            x = int(ts["vars"][v.d]["discr"])
            return I.wrap(x, td["bits"], td["s"]) if td["k"] == "int" else x
        lay = (td.get("layout") or {}).get("variants") or {}
        if td["k"] == "adt" and td["adt"] == "enum" and isinstance(v, int) and ts["k"] == "int" and isinstance(lay.get("enc"), dict):
            e = lay["enc"]
            k = (v - int(e["start"])) % (1 << ts["bits"])
            if k <= e["to"] - e["from"]:
                return En(e["from"] + k, {e["from"] + k: ()})
            fs = td["vars"][e["untagged"]]["fields"]
            if len(fs) == 1 and P.size(fs[0][1]) == P.size(s):
                return En(e["untagged"], {e["untagged"]: (self.transmute(v, s, fs[0][1]),)})
        raise Unsupported("transmute %s -> %s of %s" % (ts["str"], td["str"], type(v).__name__))

    # ------------------------------------------------ bulk copies
    def copy(self, src, dst, n):
        if n == 0:
            return
        if not isinstance(n, int) or not isinstance(src, Ptr) or not isinstance(dst, Ptr):
            raise Unsupported("copy")
        def region(p):
            if p.path and isinstance(p.path[-1], int):
                return p.cell, p.path[:-1], p.path[-1]
            return p.cell, p.path, None
        c, pth, st = region(src)
        if st is None or (n == 1):
            vals = (self.load(src.cell, src.path),)
        else:
            vals = elems(self.load(c, pth))[st:st + n]
        c, pth, st = region(dst)
        if st is None or n == 1:
            self.store(dst.cell, dst.path, vals[0])
            return
        arr = elems(self.load(c, pth))
        self.store(c, pth, arr[:st] + tuple(vals) + arr[st + n:])


def simple_bool(c, lim=128):
    """[(s, value)]: the values of boolean symbols that c = 1 implies"""
    p = c.p
    if p.sh or len(p.t) > lim:
        return None
    out = []
    for s in p.syms():
        if SYMS[s].boolean:
            if p.subst1(s, Poly.const(0)).is_zero():
                v = 1
            elif p.subst1(s, Poly.const(1)).is_zero():
                v = 0
            else:
                continue
            out.append((s, v))
            if v and s in I.JOINED:
                out += [(x, 1) for x in sorted(I.JOINED[s])]
            if SYMS[s].kind == "bx" or SYMS[s].kind == "nm" and SYMS[s].args[1] == 0:
                q = Poly_from_key(SYMS[s].args[0])
                out += simple_bool(IV(q if v else Poly.const(1) - q, 0, 1), 1000) or []
    return out
