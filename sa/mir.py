"""Loader for the MIR dump: types, constants, precompiled bodies, post-dominators."""
import json

ERASED = ("MaybeUninit", "ManuallyDrop", "MaybeDangling", "NonNull", "Unique", "UnsafeCell")


class Body:
    __slots__ = ("locals", "argc", "names", "blocks", "ipdom", "inst", "live", "dead")


class Block:
    __slots__ = ("s", "t", "sp", "spans")


class Place:
    __slots__ = ("local", "steps", "ty")

    def __init__(self, local, steps, ty):
        self.local, self.steps, self.ty = local, steps, ty


class Program:
    def __init__(self, path, config):
        d = json.load(open(path))
        self.config = config
        self.tys = d["tys"]
        self.insts = d["insts"]
        self.roots = d["roots"]
        self.allocs = d["allocs"]
        self.fns = d["fns"]
        self.impls = d["impls"]
        self.statics = d["statics"]
        self.files = d["files"]
        self.api = d.get("api", {})
        for t in self.tys:
            if t["k"] == "adt":
                for v in t["vars"]:
                    v["public"] = [f[2] for f in v["fields"]]
                    v["fields"] = [f[:2] for f in v["fields"]]
        self._bodies = {}
        self._erased = {}
        self._size0 = {}
        for i, x in enumerate(self.insts):
            x["id"] = i
        self.ty_of = {}
        for i, t in enumerate(self.tys):
            self.ty_of.setdefault(t["str"], i)
        self.fe_ty = {}

    # ---- types
    def size(self, t):
        l = self.tys[t]["layout"]
        return l["size"] if l else None

    def erased(self, t):
        r = self._erased.get(t)
        if r is None:
            ty = self.tys[t]
            r = False
            if ty["k"] == "adt" and ty["krate"] in ("core", "alloc", "std"):
                n = ty["name"].split("<")[0].split("::")[-1]
                r = n in ERASED
            elif ty["k"] == "pat":
                r = True
            self._erased[t] = r
        return r

    def erased_inner(self, t):
        """type id of the payload of an erased wrapper"""
        ty = self.tys[t]
        if ty["k"] == "pat":
            return ty["e"]
        best = None
        for n, f in ty["vars"][0]["fields"]:
            if self.size(f) != 0:
                return f
            if best is None:
                best = f
        return ty["vars"][0]["fields"][-1][1]

    def strip(self, t):
        while self.erased(t):
            t = self.erased_inner(t)
        return t

    def file(self, sp):
        f = self.files[sp[0]]
        return f

    def where(self, sp):
        f = self.files[sp[0]]
        return "%s:%d" % (f, sp[1])

    # ---- bodies
    def place(self, p, loc):
        if isinstance(p, int):
            return Place(p, (), loc[p])
        local, proj = p
        t = loc[local]
        steps = []
        for e in proj:
            if e == "*":
                ts = self.strip(t)
                ty = self.tys[ts]
                if ty["k"] == "adt" and ty.get("box"):
                    steps.append(("*",))
                    t = ty["args"][0]["t"]
                    continue
                steps.append(("*",))
                t = ty["e"]
            elif e[0] == "f":
                if self.erased(t):
                    pass
                else:
                    steps.append(e[1])
                t = e[2]
            elif e[0] == "i":
                ty = self.tys[t]
                steps.append(("i", e[1], ty["k"] == "slice"))
                t = ty["e"]
            elif e[0] == "c":
                ty = self.tys[t]
                steps.append(("c", e[1], e[3], ty["k"] == "slice", ty.get("n")))
                t = ty["e"]
            elif e[0] == "s":
                ty = self.tys[t]
                steps.append(("s", e[1], e[2], e[3], ty["k"] == "slice", ty.get("n")))
                # subslice keeps (approximately) the type
                if ty["k"] == "array":
                    n = ty["n"]
                    m = (n - e[2] - e[1]) if e[3] else (e[2] - e[1])
                    t2 = None
                    for i, x in enumerate(self.tys):
                        if x["k"] == "array" and x["e"] == ty["e"] and x["n"] == m:
                            t2 = i
                            break
                    t = t2 if t2 is not None else t
            elif e[0] == "d":
                steps.append(("v", e[1]))
            elif e[0] == "o":
                t = e[1]
        return Place(local, tuple(steps), t)

    def operand(self, o, loc):
        if o[0] in ("C", "M"):
            return (o[0], self.place(o[1], loc))
        if o[0] == "K":
            return ("K", o[1], [None])
        return ("R",)

    def optype(self, o):
        if o[0] in ("C", "M"):
            return o[1].ty
        if o[0] == "K":
            return o[1]["ty"]
        return self.ty_of.get("bool")

    def rvalue(self, r, loc):
        k = r[0]
        P, O = self.place, self.operand
        if k in ("ref", "reborrow", "discr", "len"):
            return (k, P(r[1], loc))
        if k == "agg":
            return ("agg", r[1], [O(x, loc) for x in r[2]])
        if k in ("bin", "chk"):
            a, b = O(r[2], loc), O(r[3], loc)
            return (k, r[1], a, b, self.optype(a))
        if k == "un":
            a = O(r[2], loc)
            return (k, r[1], a, self.optype(a))
        if k == "cast":
            a = O(r[2], loc)
            return (k, r[1], a, self.optype(a), r[3])
        if k == "use":
            return (k, O(r[1], loc))
        if k == "repeat":
            return (k, O(r[1], loc), r[2])
        return ("unk", r)

    def body(self, iid):
        b = self._bodies.get(iid)
        if b is not None:
            return b
        j = self.insts[iid]["body"]
        if j is None:
            return None
        b = Body()
        b.inst = self.insts[iid]
        b.locals = loc = j["locals"]
        b.argc = j["argc"]
        b.names = j["names"]
        b.blocks = []
        for x in j["blocks"]:
            bb = Block()
            bb.s = []
            for s in x["s"]:
                if s[0] == "=":
                    bb.s.append(("=", self.place(s[1], loc), self.rvalue(s[2], loc), s[3]))
                elif s[0] == "sd":
                    bb.s.append(("sd", self.place(s[1], loc), s[2], s[3]))
                elif s[0] == "cno":
                    bb.s.append(("cno", [self.operand(o, loc) for o in s[1:4]], None, s[4]))
            t = x["t"]
            k = t[0]
            if k == "switch":
                o = self.operand(t[1], loc)
                ty = self.tys[self.optype(o)]
                br = []
                for v, tb in t[2]:
                    v = int(v)
                    if ty["k"] == "int" and ty["s"] and v >> (ty["bits"] - 1):
                        v -= 1 << ty["bits"]
                    br.append((v, tb))
                t = ("switch", o, br, t[3])
            elif k == "call":
                t = ("call", self.operand(t[1], loc), [self.operand(a, loc) for a in t[2]], self.place(t[3], loc), t[4])
            elif k == "assert":
                msg = t[3]
                t = ("assert", self.operand(t[1], loc), t[2], msg, t[4])
            elif k == "drop":
                t = ("drop", self.place(t[1], loc), t[2], t[3] if len(t) > 3 else None)
            else:
                t = tuple(t)
            bb.t = t
            bb.sp = x["sp"]
            b.blocks.append(bb)
        b.ipdom = None
        b.live = None
        self._bodies[iid] = b
        return b

    def ipdom(self, body):
        if body.ipdom is None:
            body.ipdom = compute_ipdom(body)
        return body.ipdom


    def dead(self, body, bb):
        """locals whose value cannot be observed from the start of block bb on"""
        if body.live is None:
            body.live = compute_live(body)
            body.dead = {}
        r = body.dead.get(bb)
        if r is None:
            live, taken = body.live
            lv = live.get(bb, {0}) if bb != EXIT else {0}
            n = len(body.locals)
            if lv <= {0}:
                r = [i for i in range(1, n)]
            else:
                r = [i for i in range(1, n) if i not in lv and i not in taken]
            body.dead[bb] = r
        return r


def place_uses(p, out):
    out.add(p.local)
    for e in p.steps:
        if isinstance(e, tuple) and e[0] == "i":
            out.add(e[1])


def op_uses(o, out):
    if o[0] in ("C", "M"):
        place_uses(o[1], out)


def compute_live(body):
    """(live-in sets per block, locals whose address is taken)"""
    taken = set()
    n = len(body.blocks)
    eff = []
    for blk in body.blocks:
        seq = []        # (uses, defined local or None)

        def dst(p, use):
            if p.steps:
                place_uses(p, use)
                return None
            return p.local
        for s in blk.s:
            use = set()
            d = None
            if s[0] == "=":
                r = s[2]
                if r[0] in ("ref", "reborrow", "discr", "len"):
                    place_uses(r[1], use)
                    if r[0] == "ref":
                        if not any(e == ("*",) for e in r[1].steps):
                            taken.add(r[1].local)
                elif r[0] == "agg":
                    for o in r[2]:
                        op_uses(o, use)
                elif r[0] in ("bin", "chk"):
                    op_uses(r[2], use)
                    op_uses(r[3], use)
                elif r[0] in ("un", "cast"):
                    op_uses(r[2], use)
                elif r[0] in ("use", "repeat"):
                    op_uses(r[1], use)
                else:
                    use |= set(range(len(body.locals)))
                d = dst(s[1], use)
            elif s[0] == "sd":
                place_uses(s[1], use)
            elif s[0] == "cno":
                for o in s[1]:
                    op_uses(o, use)
            seq.append((use, d))
        t = blk.t
        use = set()
        d = None
        if t[0] == "switch" or t[0] == "assert":
            op_uses(t[1], use)
        elif t[0] == "call":
            op_uses(t[1], use)
            for a in t[2]:
                op_uses(a, use)
            d = dst(t[3], use)
        elif t[0] == "return":
            use.add(0)
        seq.append((use, d))
        eff.append(seq)
    live = {i: set() for i in range(n)}
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            lv = set()
            for s in succs(body.blocks[i].t):
                lv |= live[s]
            for use, d in reversed(eff[i]):
                if d is not None:
                    lv.discard(d)
                lv |= use
            if lv != live[i]:
                live[i] = lv
                ch = True
    return live, taken


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x for _, x in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    if k == "drop":
        return [t[2]]
    return []


EXIT = -1


def compute_ipdom(body):
    n = len(body.blocks)
    sc = {i: succs(body.blocks[i].t) for i in range(n)}
    for i in range(n):
        if body.blocks[i].t[0] == "return":
            sc[i] = [EXIT]
    # nodes that reach EXIT
    pred = {}
    for i, ss in sc.items():
        for s in ss:
            pred.setdefault(s, []).append(i)
    reach = {EXIT}
    st = [EXIT]
    while st:
        x = st.pop()
        for q in pred.get(x, ()):
            if q not in reach:
                reach.add(q)
                st.append(q)
    # postorder of reversed graph
    order = []
    seen = set()
    stack = [(EXIT, iter(pred.get(EXIT, ())))]
    seen.add(EXIT)
    while stack:
        x, it = stack[-1]
        for q in it:
            if q not in seen:
                seen.add(q)
                stack.append((q, iter(pred.get(q, ()))))
                break
        else:
            order.append(x)
            stack.pop()
    num = {x: i for i, x in enumerate(order)}
    idom = {EXIT: EXIT}
    ch = True
    while ch:
        ch = False
        for x in reversed(order):
            if x == EXIT:
                continue
            new = None
            for s in sc[x]:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        a, b = new, s
                        while a != b:
                            while num[a] < num[b]:
                                a = idom[a]
                            while num[b] < num[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(x) != new:
                idom[x] = new
                ch = True
    return idom
