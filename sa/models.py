"""Models (trusted contracts) for compiler intrinsics, allocation, subtle and fiat-crypto."""
import re
from . import ints as I
from .ints import IV, pol, rng
from .poly import Poly, SYMS, P as PRIME
from .interp import Unsupported, Ptr, En, UNIT, UNINIT, elems, Opaque, FnV
from . import dom
from .dom import FE, SC, close_fe, TIGHT, LOOSE


def targ(it, inst, k=0):
    ts = [a["t"] for a in inst["args"] if "t" in a]
    return ts[k]


# ---------------------------------------------------------------- intrinsics
def ptr_off(it, inst, a, sp):
    x, y = a
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.cell == y.cell and x.path[:-1] == y.path[:-1]:
        return x.path[-1] - y.path[-1]
    raise Unsupported("offset_from")


def arith_offset(it, inst, a, sp):
    p, k = a
    if not isinstance(p, Ptr) or not isinstance(k, int):
        raise Unsupported("arith_offset")
    return Ptr(p.cell, p.path[:-1] + (p.path[-1] + k,), p.meta, p.ty)


def write_bytes(it, inst, a, sp):
    p, b, n = a
    if not isinstance(n, int):
        raise Unsupported("memset length")
    t = it.P.tys[it.P.strip(targ(it, inst))]
    if t["k"] != "int" or (t["bits"] != 8 and b != 0):
        raise Unsupported("memset")
    for i in range(n):
        it.store(p.cell, p.path[:-1] + (p.path[-1] + i,), b)
    return UNIT


def bits_of(it, inst):
    t = it.P.tys[it.P.strip(targ(it, inst))]
    if t["k"] == "int":
        return t["bits"], t["s"]
    raise Unsupported("intrinsic on %s" % t["str"])


def wr(f):
    def g(it, inst, a, sp):
        b, s = bits_of(it, inst)
        return I.wrap(f(a[0], a[1]), b, s)
    return g


def concrete(f):
    def g(it, inst, a, sp):
        b, s = bits_of(it, inst)
        if isinstance(a[0], int):
            return f(a[0] & ((1 << b) - 1), b)
        x = I.name_small(a[0])
        if x is not None:
            r = I.finite_apply(lambda v: f(v & ((1 << b) - 1), b), [pol(x)])
            if r is not None:
                return r
        raise Unsupported("bit-count of a non-constant value")
    return g


def rotate(left):
    def g(it, inst, a, sp):
        b, s = bits_of(it, inst)
        k = a[1]
        if not isinstance(k, int):
            raise Unsupported("rotate")
        k %= b
        if not left:
            k = (b - k) % b
        x = I.wrap(a[0], b, False)
        return I.wrap(I.add(I.shl_(x, k, b, False), I.shr_(x, b - k)), b, s) if k else a[0]
    return g


def bswap(it, inst, a, sp):
    b, s = bits_of(it, inst)
    x = I.wrap(a[0], b, False)
    r = 0
    for i in range(b // 8):
        r = I.add(r, I.mul(I.wrap(I.shr_(x, 8 * i), 8, False), 1 << (b - 8 - 8 * i)))
    return I.wrap(r, b, s)


def size_of_val(it, inst, a, sp):
    t = it.P.tys[targ(it, inst)]
    if t["k"] == "slice" and isinstance(a[0], Ptr) and isinstance(a[0].meta, int):
        return a[0].meta * it.P.size(t["e"])
    n = it.P.size(targ(it, inst))
    if t["k"] in ("slice", "dyn", "str") or n is None:
        raise Unsupported("size_of_val")
    return n


def swap_vals(it, inst, a, sp):
    x, y = it.deref(a[0]), it.deref(a[1])
    it.write(a[0], y)
    it.write(a[1], x)
    return UNIT


def slice_rotate(left):
    def g(it, inst, a, sp):
        p, k = a
        if not isinstance(p, Ptr) or not isinstance(p.meta, int) or not isinstance(k, int) or k > p.meta:
            return NotImplemented
        st, n = p.path[-1], p.meta
        arr = elems(it.load(p.cell, p.path[:-1]))
        x = arr[st:st + n]
        k = k if left else n - k
        it.store(p.cell, p.path[:-1], arr[:st] + x[k:] + x[:k] + arr[st + n:])
        return UNIT
    return g


def overflowing(f):
    def g(it, inst, a, sp):
        b, s = bits_of(it, inst)
        x = f(a[0], a[1])
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        if isinstance(x, int) or I.fits(x, lo, hi):
            w = I.wrap(x, b, s)
            return (w, 0 if isinstance(x, IV) or lo <= x <= hi else 1)
        return (I.wrap(x, b, s), it.ovf(x, lo, hi))
    return g


def saturating(f):
    def g(it, inst, a, sp):
        b, s = bits_of(it, inst)
        x = f(a[0], a[1])
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        if isinstance(x, int):
            return max(lo, min(hi, x))
        if I.fits(x, lo, hi):
            return x
        raise Unsupported("saturating arithmetic")
    return g


def raw_eq(it, inst, a, sp):
    x, y = it.deref(a[0]), it.deref(a[1])
    return vartime_eq(it, x, y)


def compare_bytes(it, inst, a, sp):
    n = a[2]
    def bytes_at(p):
        st = p.path[-1]
        return elems(it.load(p.cell, p.path[:-1]))[st:st + n]
    if n == 0:
        return 0
    x, y = bytes_at(a[0]), bytes_at(a[1])
    if all(isinstance(v, int) for v in x + y):
        return (x > y) - (x < y)
    e = vartime_eq(it, x, y)
    if isinstance(e, int) and e:
        return 0
    # only the == 0 test is meaningful
    return I.sub(1, e)


def leafw(v):
    return 8


def flat(v):
    if isinstance(v, (int, IV)):
        return [v]
    out = []
    for x in elems(v):
        out += flat(x)
    return out


def arr_eq(it, x, y):
    if isinstance(x, FE) or isinstance(y, FE) or isinstance(x, SC) or isinstance(y, SC):
        x, y = elems(x), elems(y)
    fx, fy = flat(x), flat(y)
    if len(fx) != len(fy):
        return 0
    w = 8
    m = 0
    for v in fx + fy:
        l, h = rng(v)
        if l < 0:
            raise Unsupported("comparison of signed arrays")
        m = max(m, h)
    w = 8
    while m >> w:
        w *= 2
    return dom.eq_bytes(fx, fy, w)


def vartime_eq(it, x, y):
    r = arr_eq(it, x, y)
    if any(not isinstance(v, int) for v in flat(x) + flat(y)):
        it.event("vartime", "early-exit comparison of non-constant data")
    return r


def slice_eq(it, inst, a, sp):
    x, y = a
    vx, vy = it.deref(x), it.deref(y)
    while isinstance(vx, Ptr):
        vx = it.deref(vx)
    while isinstance(vy, Ptr):
        vy = it.deref(vy)
    try:
        return vartime_eq(it, vx, vy)
    except Unsupported:
        return NotImplemented


def slice_ne(it, inst, a, sp):
    r = slice_eq(it, inst, a, sp)
    return r if r is NotImplemented else I.sub(1, r)


INTR = {
    "size_of": lambda it, i, a, sp: it.P.size(targ(it, i)),
    "needs_drop": lambda it, i, a, sp: 0,
    "assert_inhabited": lambda it, i, a, sp: UNIT,
    "assert_zero_valid": lambda it, i, a, sp: UNIT,
    "assert_mem_uninitialized_valid": lambda it, i, a, sp: UNIT,
    "assume": lambda it, i, a, sp: UNIT,
    "cold_path": lambda it, i, a, sp: UNIT,
    "likely": lambda it, i, a, sp: a[0],
    "unlikely": lambda it, i, a, sp: a[0],
    "black_box": lambda it, i, a, sp: a[0],
    "ptr_offset_from_unsigned": ptr_off,
    "ptr_offset_from": ptr_off,
    "arith_offset": arith_offset,
    "volatile_load": lambda it, i, a, sp: it.deref(a[0]),
    "volatile_store": lambda it, i, a, sp: (it.write(a[0], a[1]), UNIT)[1],
    "read_via_copy": lambda it, i, a, sp: it.deref(a[0]),
    "write_via_move": lambda it, i, a, sp: (it.write(a[0], a[1]), UNIT)[1],
    "copy_nonoverlapping": lambda it, i, a, sp: (it.copy(*a), UNIT)[1],
    "copy": lambda it, i, a, sp: (it.copy(*a), UNIT)[1],
    "write_bytes": write_bytes,
    "raw_eq": raw_eq,
    "compare_bytes": compare_bytes,
    "wrapping_add": wr(I.add), "wrapping_sub": wr(I.sub), "wrapping_mul": wr(I.mul),
    "unchecked_add": wr(I.add), "unchecked_sub": wr(I.sub), "unchecked_mul": wr(I.mul),
    "add_with_overflow": overflowing(I.add), "sub_with_overflow": overflowing(I.sub), "mul_with_overflow": overflowing(I.mul),
    "saturating_add": saturating(I.add), "saturating_sub": saturating(I.sub),
    "ctpop": concrete(lambda v, b: bin(v).count("1")),
    "ctlz": concrete(lambda v, b: b - v.bit_length()),
    "cttz": concrete(lambda v, b: b if v == 0 else (v & -v).bit_length() - 1),
    "ctlz_nonzero": concrete(lambda v, b: b - v.bit_length()),
    "cttz_nonzero": concrete(lambda v, b: b if v == 0 else (v & -v).bit_length() - 1),
    "bswap": bswap, "bitreverse": concrete(lambda v, b: int(bin(v)[2:].zfill(b)[::-1], 2)),
    "size_of_val": size_of_val, "typed_swap_nonoverlapping": swap_vals,
    "rotate_left": rotate(True), "rotate_right": rotate(False),
}


# ---------------------------------------------------------------- allocation
def with_capacity_in(it, inst, a, sp):
    cap = a[0]
    if not isinstance(cap, int):
        raise Unsupported("symbolic capacity")
    c = it.new_cell((UNINIT,) * cap)
    it.heap[c] = True
    return (Ptr(c, (0,), None, None), (cap,), ())


def contents(it, p, cap):
    """elements of an allocation (a buffer, or the array of a former Box<[T; n]>)"""
    while isinstance(p, tuple):
        p = p[0]
    if not isinstance(p, Ptr) or not cap:
        return ()
    if p.path and p.path[-1] == 0:
        return elems(it.load(p.cell, p.path[:-1]))[:cap]
    return elems(it.cellval(p.cell))


def grow_one(it, inst, a, sp):
    rv = it.deref(a[0])
    inner = elems(rv[0])
    p, cap = inner[0], inner[1][0]
    new = max(4, cap * 2)
    old = contents(it, p, cap)
    c = it.new_cell(tuple(old) + (UNINIT,) * (new - len(old)))
    it.heap[c] = True
    it.write(a[0], ((Ptr(c, (0,), None, None), (new,)) + tuple(inner[2:]),) + tuple(rv[1:]))
    return UNIT


def try_reserve(it, inst, a, sp):
    inner = it.deref(a[0])
    p, cap = inner[0], inner[1][0]
    need = a[1] + a[2]
    if cap < need:
        old = contents(it, p, cap)
        c = it.new_cell(tuple(old) + (UNINIT,) * (need - len(old)))
        it.heap[c] = True
        it.write(a[0], (Ptr(c, (0,), None, None), (need,)) + tuple(inner[2:]))
    return UNIT


def alloc_impl(it, inst, a, sp):
    c = it.new_cell((UNINIT,))
    it.heap[c] = True
    return En(0, {0: (Ptr(c, (0,), None, None),)})


def try_allocate(it, inst, a, sp):
    cap = a[0]
    zeroed = isinstance(a[1], En) and a[1].d == 1
    c = it.new_cell((0 if zeroed else UNINIT,) * cap)
    it.heap[c] = True
    return En(0, {0: ((Ptr(c, (0,), None, None), (cap,), ()),)})


# ---------------------------------------------------------------- subtle
def boolval(it, x):
    if isinstance(x, int):
        return x
    if x.lo >= 0 and x.hi <= 1:
        return x
    return x


def choice_from(it, inst, a, sp):
    x = a[0]
    if isinstance(x, int):
        if x not in (0, 1):
            it.event("choice", "Choice built from %d" % x)
        return (x,)
    if not I.fits(x, 0, 1):
        it.event("choice", "Choice built from a value not known to be 0 or 1", cond=x)
        raise Unsupported("Choice from a non-bit value")
    return (x,)


def subtle_not(it, inst, a, sp):
    return (I.sub(1, elems(a[0])[0]),)


def ct_eq_int(it, inst, a, sp):
    return (I.eq0(I.sub(it.deref(a[0]), it.deref(a[1]))),)


def ct_eq_slice(it, inst, a, sp):
    x, y = it.deref(a[0]), it.deref(a[1])
    if not all(isinstance(v, (int, IV)) for v in elems(x)):
        return NotImplemented
    return (arr_eq(it, x, y),)


def csel_int(it, inst, a, sp):
    return I.ite(elems(a[2])[0], it.deref(a[1]), it.deref(a[0]))


def cassign_int(it, inst, a, sp):
    it.write(a[0], I.ite(elems(a[2])[0], it.deref(a[1]), it.deref(a[0])))
    return UNIT


def cswap_int(it, inst, a, sp):
    x, y, c = it.deref(a[0]), it.deref(a[1]), elems(a[2])[0]
    it.write(a[0], I.ite(c, y, x))
    it.write(a[1], I.ite(c, x, y))
    return UNIT


def cneg_generic(it, inst, a, sp):
    return NotImplemented


# ---------------------------------------------------------------- fiat-crypto
W, N = 56, 8


def rd(it, p):
    """FE of the array behind a pointer to a tight/loose wrapper or a bare array"""
    v = it.deref(p)
    if isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    return close_fe(v, W, N)


def wrap_out(it, p, v):
    old = it.deref(p)
    if isinstance(old, tuple) and len(old) == 1:
        it.write(p, (v,))
    else:
        it.write(p, v)


def need(it, fe, bound, what):
    for i, h in enumerate(fe.hi):
        if h > bound or fe.lo[i] < 0:
            it.event("contract", "%s: limb %d may be %s, above the documented bound %s" % (what, i, hex(h), hex(bound)))
            return False
    return True


def fiat2(name, f, bound, tight_out):
    def g(it, inst, a, sp):
        xs = [rd(it, p) for p in a[1:]]
        if any(x is None for x in xs):
            return NotImplemented
        for x in xs:
            if not need(it, x, bound, name):
                raise Unsupported("%s precondition" % name)
        hi = TIGHT if tight_out else LOOSE
        r = FE(dom.fpoly(f(*[x.poly for x in xs])), W, N, [0] * N, [hi] * N)
        wrap_out(it, a[0], r)
        return UNIT
    return g


def fiat_relax(it, inst, a, sp):
    x = it.deref(a[1])
    v = x[0] if isinstance(x, tuple) and len(x) == 1 else x
    wrap_out(it, a[0], v)
    return UNIT


def fiat_selectznz(it, inst, a, sp):
    c = a[1]
    x, y = rd(it, a[2]), rd(it, a[3])
    if x is None or y is None:
        return NotImplemented
    if not I.fits(c, 0, 1):
        it.event("contract", "selectznz: condition not a bit")
        raise Unsupported("selectznz")
    wrap_out(it, a[0], dom.fe_ite(c, y, x))
    return UNIT


def fiat_to_bytes(it, inst, a, sp):
    x = rd(it, a[1])
    if x is None:
        return NotImplemented
    if not need(it, x, TIGHT, "fiat_p448_to_bytes"):
        raise Unsupported("to_bytes precondition")
    it.write(a[0], dom.digits(dom.canon_poly(x.poly), 8, 56, 0, PRIME - 1))
    return UNIT


def fiat_from_bytes(it, inst, a, sp):
    b = it.deref(a[1])
    V = dom.undigits(elems(b), 8)
    f = dom.fpoly(V)
    if dom.has_limb(f):
        return NotImplemented
    r = dom.interval(V)
    wrap_out(it, a[0], FE(f, W, N, [0] * N, [TIGHT - 1] * N))
    return UNIT


FIAT = {
    "fiat_p448_add": fiat2("fiat_p448_add", lambda x, y: x + y, TIGHT, False),
    "fiat_p448_sub": fiat2("fiat_p448_sub", lambda x, y: x - y, TIGHT, False),
    "fiat_p448_opp": fiat2("fiat_p448_opp", lambda x: -x, TIGHT, False),
    "fiat_p448_carry": fiat2("fiat_p448_carry", lambda x: x, LOOSE, True),
    "fiat_p448_carry_mul": fiat2("fiat_p448_carry_mul", lambda x, y: dom_mul(x, y), LOOSE, True),
    "fiat_p448_carry_square": fiat2("fiat_p448_carry_square", lambda x: dom_mul(x, x), LOOSE, True),
    "fiat_p448_relax": fiat_relax,
    "fiat_p448_selectznz": fiat_selectznz,
    "fiat_p448_to_bytes": fiat_to_bytes,
    "fiat_p448_from_bytes": fiat_from_bytes,
}


def dom_mul(x, y):
    return (x * y).modred(PRIME)


# ---------------------------------------------------------------- harness
def rng_fill(it, inst, a, sp):
    p = a[0]
    st, n = p.path[-1], p.meta
    arr = list(elems(it.load(p.cell, p.path[:-1])))
    for i in range(n):
        arr[st + i] = I.fresh_in("rng%d" % it.havoc, 0, 255)
        it.havoc += 1
    it.store(p.cell, p.path[:-1], tuple(arr))
    return UNIT


INTT = r"(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)"
NAMED = [
    (re.compile(r"precondition_check"), lambda it, i, a, sp: UNIT),
    (re.compile(r"^alloc::raw_vec::RawVecInner(::<.*>)?::with_capacity_in"), with_capacity_in),
    (re.compile(r"^alloc::raw_vec::RawVecInner(::<.*>)?::try_allocate_in"), try_allocate),
    (re.compile(r"^(std|core)::mem::swap::<"), swap_vals),
    (re.compile(r"^(std|core)::slice::<impl \[.*\]>::rotate_left$"), slice_rotate(True)),
    (re.compile(r"^(std|core)::slice::<impl \[.*\]>::rotate_right$"), slice_rotate(False)),
    (re.compile(r"^(std|alloc)::alloc::Global::alloc_impl_runtime$"), alloc_impl),
    (re.compile(r"^alloc::raw_vec::RawVec::<.*>::grow_one$"), grow_one),
    (re.compile(r"^alloc::raw_vec::RawVecInner(::<.*>)?::reserve(::do_reserve_and_handle.*)?$"), try_reserve),
    (re.compile(r"^<subtle::Choice as std::convert::From<u8>>::from$"), choice_from),
    (re.compile(r"^<subtle::Choice as std::ops::Not>::not$"), subtle_not),
    (re.compile(r"^subtle::black_box::<"), lambda it, i, a, sp: a[0]),
    (re.compile(r"^<%s as subtle::ConstantTimeEq>::ct_eq$" % INTT), ct_eq_int),
    (re.compile(r"^<\[%s\] as subtle::ConstantTimeEq>::ct_eq$" % INTT), ct_eq_slice),
    (re.compile(r"^<%s as subtle::ConditionallySelectable>::conditional_select$" % INTT), csel_int),
    (re.compile(r"^<%s as subtle::ConditionallySelectable>::conditional_assign$" % INTT), cassign_int),
    (re.compile(r"^<%s as subtle::ConditionallySelectable>::conditional_swap$" % INTT), cswap_int),
    (re.compile(r"^(std|core)::hint::black_box::<"), lambda it, i, a, sp: a[0]),
    (re.compile(r"^(core|std)::array::equality::<impl std::cmp::PartialEq.*>::eq$"), slice_eq),
    (re.compile(r"^(core|std)::array::equality::<impl std::cmp::PartialEq.*>::ne$"), slice_ne),
    (re.compile(r"^(core|std)::slice::cmp::<impl std::cmp::PartialEq.*>::eq$"), slice_eq),
    (re.compile(r"^(core|std)::slice::cmp::<impl std::cmp::PartialEq.*>::ne$"), slice_ne),
    (re.compile(r"(^|::)rng_fill$"), rng_fill),
]


def native_for(inst):
    n = inst["name"]
    if inst["kind"] == "intrinsic" and inst["intr"] in INTR:
        return INTR[inst["intr"]]
    if inst["krate"] == "fiat_crypto":
        return FIAT.get(n.rsplit("::", 1)[-1])
    if inst["krate"] in ("ed448_goldilocks",):
        return None
    for r, f in NAMED:
        if r.search(n):
            return f
    return None
