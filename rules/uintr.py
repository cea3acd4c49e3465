"""Limbs and multi-limb integers: every operation denotes the exact integer
operation, for every value of every limb (P32)."""
from .field import *          # noqa
from engine import ring as RG

U = "arithmetic::uint::Uint::<N>::"
L = "arithmetic::limb::"


def body_of(prog, path):
    for b in prog.bodies.values():
        if b["path"] == path and b["root"] == b["path"] and "#" not in b["key"].split("@")[0].split("[")[0]:
            return b
    return None


def bodies(prog, pred):
    out = {}
    for b in prog.bodies.values():
        if b["root"] == b["path"] and pred(b) and "#" not in b["key"].split("@")[0].split("[")[0]:
            out.setdefault(b["path"], b)
    return [out[k] for k in sorted(out)]


class Un:
    def __init__(self, R, tier):
        self.R = R
        self.P = R.progs["crypto"]
        self.tier = tier

    def case(self, path, n, f, wrap=True, args=None, base=None, **kw):
        b = body_of(self.P, path) if isinstance(path, str) else path
        name = path if isinstance(path, str) else b["path"]
        if b is None:
            self.R.undecided.append(f"{name}: not found")
            return
        try:
            c = Case(self.R, self.P, b, n, args=args, base=base, **kw)
        except (Unsupported, Budget, RecursionError) as e:
            self.R.undecided.append(f"{name} N={n}: {type(e).__name__} {e}")
            return
        self.R.cases += 1
        o = Ob(self.R, c, name)
        if [x for x in c.eng.unmodelled if not x.startswith("core::fmt::")]:
            self.R.undecided.append(f"{name} N={n}: unmodelled {list(c.eng.unmodelled)[:3]}")
            return
        if wrap:
            o.nowrap()
        try:
            f(o, c)
        except (Unsupported, Budget, RecursionError, IndexError, AttributeError) as e:
            self.R.undecided.append(f"{name} N={n}: {type(e).__name__} {e}")


def tup_(v, k):
    return v.a[2 + k]


def fbool(v):
    """0/1 polynomial of a Boolean result"""
    return b2i(v)


def limb_rules(u):
    """carry/borrow primitives"""
    W = 1 << 64

    def two_limbs(spec):
        def f(o, c):
            o.never()
            for x in c.outs:
                a = c.in_
                o.zero(x.st, isub(iadd(tup_(x.ret, 0), imul(Int(W), tup_(x.ret, 1))), spec(*a)), "value", "low + 2^64*high equals the exact value")
        return f
    u.case(L + "mac", 1, two_limbs(lambda a, b, c: iadd(a, imul(b, c))))
    u.case(L + "carrying_mac", 1, two_limbs(lambda a, b, c, k: iadd(iadd(a, imul(b, c)), k)))
    u.case(L + "adc", 1, two_limbs(lambda a, b, k: iadd(iadd(a, b), k)))

    def wide(o, c):
        o.never()
        for x in c.outs:
            o.zero(x.st, isub(x.ret, imul(*c.in_)), "value", "the 128-bit result equals the exact product")
    u.case(L + "widening_mul", 1, wide)
    if body_of(u.P, L + "widening_mul_wasm"):
        u.case(L + "widening_mul_wasm", 1, wide)

    def adca(o, c):
        o.never()
        for x in c.outs:
            a, b, k = c.in_
            o.zero(x.st, isub(iadd(x.muts[0], imul(Int(W), fbool(x.ret))), iadd(iadd(a, b), b2i(k))), "value", "a' + 2^64*carry' equals a + b + carry")
    u.case(L + "adc_assign", 1, adca)

    def sbba(o, c):
        o.never()
        for x in c.outs:
            a, b, k = c.in_
            o.zero(x.st, isub(isub(x.muts[0], imul(Int(W), fbool(x.ret))), isub(isub(a, b), b2i(k))), "value", "a' - 2^64*borrow' equals a - b - borrow")
    u.case(L + "sbb_assign", 1, sbba)

    def bargs(eng, st, body):
        a = [eng.fresh(st, body["locals"][k], f"a{k - 1}") for k in (1, 2, 3)]
        RG.RNG[a[2]] = (0, 1)
        return a

    def sbb(o, c):
        o.never()
        for x in c.outs:
            a, b, k = c.in_
            o.zero(x.st, isub(isub(tup_(x.ret, 0), imul(Int(W), tup_(x.ret, 1))), isub(isub(a, b), k)), "value", "low - 2^64*borrow' equals a - b - borrow")
    u.case(L + "sbb", 1, sbb, args=bargs)


def bitlen(o, c, ls, msg):
    """split every path by its highest non-zero limb and compare there"""
    def cz(i):
        x = mk("app", "clz", Int(64), ls[i])
        RG.RNG.setdefault(x, (0, 64))
        return x

    def go(st, ret, i):
        if i < 0:
            o.zero(st, ret, "bits", msg)
            return
        s = st.copy()
        if s.assume(iEq(ls[i], ZERO)) and s.assume(iEq(cz(i), Int(64))):
            go(s, ret, i - 1)
        s = st.copy()
        if s.assume(iEq(ls[i], ZERO), False) and s.assume(iEq(cz(i), Int(64)), False):
            o.zero(s, isub(ret, isub(Int(64 * (i + 1)), cz(i))), "bits", msg)
    for x in c.outs:
        go(x.st, x.ret, len(ls) - 1)


def uint_rules(u, ns, small):
    R = u.R

    def AB(c):
        return [val(x) if x.op == "agg" else x for x in c.in_]

    for n in ns:
        M = 1 << (64 * n)

        def cmp_(want):
            def f(o, c):
                o.never()
                A, B = AB(c)
                for x in c.outs:
                    o.iff(x.st, x.ret, want(A, B), "order", "the comparison agrees with the integer order")
            return f
        ge = lambda a, b: isub(a, b)
        gt = lambda a, b: isub(isub(a, b), ONE)
        for nm, w in (("ct_ge", ge), ("ct_gt", gt), ("ct_le", lambda a, b: ge(b, a)), ("ct_lt", lambda a, b: gt(b, a))):
            u.case(U + nm, n, cmp_(w))

        def eqs(neg):
            def f(o, c):
                o.never()
                A, B = AB(c)
                ls = list(zip(afields(c.in_[0].a[2]), afields(c.in_[1].a[2])))
                for x in c.outs:
                    for s, b in c.eng.branch(x.st.copy(), x.ret):
                        if b != neg:
                            for p, q in ls:
                                o.zero(s, isub(p, q), "equal", "equality implies equal limbs")
                        else:
                            R.obligation("inequality")
                            if not any(s.decide(iEq(p, q)) is False for p, q in ls):
                                o.fail(s, "equal", "inequality is reported only for different numbers", Bad([A, B], lambda e: ev(A, e) == ev(B, e)))
            return f
        u.case(U + "ct_eq", n, eqs(False))
        u.case(U + "ct_ne", n, eqs(True))

        def isz(o, c):
            o.never()
            ls = list(afields(c.in_[0].a[2]))
            A = val(c.in_[0])
            for x in c.outs:
                o.iff(x.st, x.ret, isub(ZERO, A), "zero", "is_zero holds exactly for zero")
        u.case(U + "ct_is_zero", n, isz)

        def odd(neg):
            def f(o, c):
                o.never()
                for x in c.outs:
                    w = low(val(c.in_[0]), 1)
                    o.zero(x.st, isub(fbool(x.ret), isub(ONE, w) if neg else w), "parity", "parity of the number")
            return f
        u.case(U + "ct_is_odd", n, odd(False))
        u.case(U + "ct_is_even", n, odd(True))

        def addc(get):
            def f(o, c):
                o.never()
                for x in c.outs:
                    v, k = get(x)
                    s = AB(c)
                    t = iadd(s[0], s[1])
                    if len(s) > 2:
                        t = iadd(t, s[2])
                    o.zero(x.st, isub(iadd(v, imul(Int(M), k)), t), "value", "sum + 2^(64N)*carry equals the exact sum")
            return f
        u.case(U + "ct_checked_add", n, addc(lambda x: (val(tup_(x.ret, 0)), fbool(tup_(x.ret, 1)))))
        u.case(U + "ct_adc", n, addc(lambda x: (val(tup_(x.ret, 0)), tup_(x.ret, 1))))
        u.case(U + "checked_add_assign", n, addc(lambda x: (val(x.muts[0]), fbool(x.ret))))

        def wadd(o, c):
            o.never()
            for x in c.outs:
                A, B = AB(c)
                o.zero(x.st, low(isub(val(x.ret), iadd(A, B)), 64 * n) if False else congr(x.st, isub(iadd(A, B), val(x.ret)), 64 * n), "value", "the result is congruent to a + b modulo 2^(64N)")
        u.case(U + "ct_wrapping_add", n, wadd)
        if n <= small:
            def subc(get):
                def f(o, c):
                    o.never()
                    for x in c.outs:
                        v, k = get(x)
                        A, B = AB(c)
                        o.zero(x.st, isub(isub(v, imul(Int(M), k)), isub(A, B)), "value", "difference - 2^(64N)*borrow equals a - b")
                return f
            u.case(U + "ct_checked_sub", n, subc(lambda x: (val(tup_(x.ret, 0)), fbool(tup_(x.ret, 1)))))

            def wsub(o, c):
                o.never()
                for x in c.outs:
                    A, B = AB(c)
                    o.zero(x.st, congr(x.st, isub(isub(A, B), val(x.ret)), 64 * n), "value", "the result is congruent to a - b modulo 2^(64N)")
            u.case(U + "ct_wrapping_sub", n, wsub)
        if n <= 7:
            def subas(o, c):
                o.never()
                for x in c.outs:
                    A, B = AB(c)
                    o.zero(x.st, isub(isub(val(x.muts[0]), imul(Int(M), fbool(x.ret))), isub(A, B)), "value", "difference - 2^(64N)*borrow equals a - b")
            u.case(U + "checked_sub_assign", n, subas)

        def wmul(o, c):
            o.never()
            for x in c.outs:
                A, B = AB(c)
                o.zero(x.st, isub(iadd(val(tup_(x.ret, 0)), imul(Int(M), val(tup_(x.ret, 1)))), imul(A, B)), "value", "low + 2^(64N)*high equals the exact product")
        if n <= 7 or u.tier == "thorough":
            u.case(U + "ct_widening_mul", n, wmul)
        if n <= 4:
            def pmul_(o, c):
                A, B = AB(c)
                for x in c.outs:
                    o.zero(x.st, isub(val(x.ret), imul(A, B)), "value", "the result equals the exact product")
                need_panics(o, c, lambda e: ev(A, e) * ev(B, e) >= M, [A, B])
            u.case(U + "ct_mul", n, pmul_)

        def padd_(o, c):
            A, B = AB(c)
            for x in c.outs:
                o.zero(x.st, isub(val(x.ret), iadd(A, B)), "value", "the result equals the exact sum")
            for x in c.panics:
                o.nonneg(x.st, isub(iadd(A, B), Int(M)), "panic", "panics only when the sum does not fit")
        u.case(U + "ct_add", n, padd_)

        def dbl(get):
            def f(o, c):
                o.never()
                for x in c.outs:
                    v, k = get(x)
                    o.zero(x.st, isub(iadd(v, imul(Int(M), k)), imul(Int(2), val(c.in_[0]))), "value", "result + 2^(64N)*carry equals 2a")
            return f
        u.case(U + "checked_mul2_assign", n, dbl(lambda x: (val(x.muts[0]), fbool(x.ret))))
        u.case(U + "ct_checked_mul2", n, dbl(lambda x: (val(tup_(x.ret, 0)), fbool(tup_(x.ret, 1)))))

        def half(o, c):
            o.never()
            for x in c.outs:
                A = val(c.in_[0])
                o.zero(x.st, isub(iadd(imul(Int(2), val(x.muts[0])), low(A, 1)), A), "value", "2*result + parity equals a")
        u.case(U + "div2_assign", n, half)

        def nbits(o, c):
            o.never()
            bitlen(o, c, list(afields(c.in_[0].a[2])), "bit length of the number")
        u.case(U + "ct_num_bits", n, nbits)

        # single bits: constant positions around every limb boundary, all positions for one limb size
        pos = range(64 * n) if u.tier == "thorough" and n <= 4 else sorted(set(i for k in range(n) for i in (64 * k, 64 * k + 1, 64 * k + 31, 64 * k + 62, 64 * k + 63)))
        for i in list(pos) + [64 * n, 64 * n + 1, (1 << 64) - 1]:
            def bit(o, c, i=i):
                o.never()
                for x in c.outs:
                    A = val(c.in_[0])
                    w = low(high(afields(c.in_[0].a[2])[i // 64], i % 64), 1) if i < 64 * n else ZERO
                    o.zero(x.st, isub(fbool(x.ret), w), "bit", f"bit {i} of the number")

            def ba(eng, st, body, i=i):
                return [eng.fresh(st, body["locals"][1], "a0"), Int(i)]
            u.case(U + "ct_get_bit", n, bit, args=ba)
            u.case("<arithmetic::uint::Uint<N> as arithmetic::BigInteger>::get_bit", n, bit, args=ba)

        for nm in ("from_u8", "from_u16", "from_u32", "from_u64", "from_usize", "from_u128"):
            def frm(o, c):
                for x in c.outs:
                    o.zero(x.st, isub(val(x.ret), c.in_[0]), "value", "the number keeps its value")
                for x in c.panics:
                    o.nonneg(x.st, isub(c.in_[0], Int(M)), "panic", "panics only when the number does not fit")
            u.case(U + nm, n, frm)

        trait_rules(u, n, cmp_, eqs, isz, odd, nbits, frm, M)
        bytes_rules(u, n)

    # operators built on the primitives: structural bit operations
    for b in bodies(u.P, lambda b: b["path"].startswith("<arithmetic::uint::Uint<N> as core::ops::") and b["name"] in ("bitand_assign", "bitor_assign", "bitxor_assign", "bitand", "bitor", "bitxor", "not")):
        op = {"a": "band", "o": "bor", "x": "bxor"}.get(b["name"][3], None) if b["name"] != "not" else "not"
        for n in ns:
            def bo(o, c, op=op, b=b):
                o.never()
                for x in c.outs:
                    r = x.muts[0] if b["name"].endswith("_assign") else x.ret
                    ins = [afields(v.a[2]) for v in c.in_]
                    for i, y in enumerate(afields(r.a[2])):
                        if op == "not":
                            o.zero(x.st, isub(iadd(y, ins[0][i]), Int((1 << 64) - 1)), "bits", "limb-wise complement")
                        else:
                            w = c.eng.bitop(op, 64, ins[0][i], ins[1][i])
                            o.same(x.st, y, w, "bits", f"limb-wise {op}")

            def ba(eng, st, body):
                t = eng.T[body["locals"][1]]
                a = eng.fresh(st, body["locals"][1], "a0")
                if body["argc"] == 1:
                    return [a]
                ut = t["to"] if t["k"] == "ref" else body["locals"][1]
                return [a, eng.fresh(st, ut, "a1")]
            u.case(b, n, bo, args=ba, contracts={"core::borrow::Borrow::borrow": lambda e, s, f, a, d: [(s, a[0])]})


BI = "<arithmetic::uint::Uint<N> as arithmetic::BigInteger>::"


def trait_rules(u, n, cmp_, eqs, isz, odd, nbits, frm, M):
    """the trait methods denote the same operations"""
    R = u.R

    def ordr(get):
        def f(o, c):
            o.never()
            A, B = (val(x) for x in c.in_)
            for x in c.outs:
                v = get(x.ret)
                k = v.a[1]
                if k == 1:
                    o.zero(x.st, isub(A, B), "order", "Equal is answered only for equal numbers")
                elif k == 0:
                    o.nonneg(x.st, isub(isub(B, A), ONE), "order", "Less is answered only for a smaller number")
                else:
                    o.nonneg(x.st, isub(isub(A, B), ONE), "order", "Greater is answered only for a larger number")
        return f
    u.case("<arithmetic::uint::Uint<N> as core::cmp::Ord>::cmp", n, ordr(lambda r: r))
    u.case("<arithmetic::uint::Uint<N> as core::cmp::PartialOrd>::partial_cmp", n, ordr(lambda r: r.a[2]))
    u.case(BI + "is_zero", n, isz)
    u.case(BI + "is_odd", n, odd(False))
    u.case(BI + "is_even", n, odd(True))
    u.case(BI + "num_bits", n, nbits)

    def limbs(o, c):
        o.never()
        for x in c.outs:
            r = x.ret
            while r.op == "ref":
                r = c.eng.deref_all(x.st, r)
            o.zero(x.st, isub(val(r), val(c.in_[0])), "limbs", "the limbs of the number")
    u.case(U + "as_limbs", n, limbs)
    u.case(U + "into_limbs", n, limbs)
    for b in bodies(u.P, lambda b: b["name"] == "from" and b["path"].startswith("<arithmetic::uint::Uint<N> as core::convert::From<u")):
        u.case(b, n, frm)
    want = {"ZERO": 0, "ONE": 1, "MAX": M - 1, "NUM_LIMBS": n, "BITS": 64 * n, "LIMB_BITS": 64}
    for k, w in want.items():
        b = next((b for b in u.P.bodies.values() if b["key"].split("@")[0].split("<[")[0] in (BI + k + "#const", "arithmetic::BigInteger::" + k + "#const")), None)
        if b is None:
            continue

        def cst(o, c, w=w, k=k):
            o.never()
            for x in c.outs:
                o.zero(x.st, isub(val(x.ret), Int(w)), "const", f"{k} is {'2^(64N)-1' if k == 'MAX' else w}")
        u.case(b, n, cst)


def byte_syms(m, nm="byte"):
    fs = []
    for i in range(m):
        x = mk("sym", f"{nm}{i}", 0)
        RG.RNG[x] = (0, 255)
        WID[x] = 8
        fs.append(x)
    return fs


def bytes_rules(u, n):
    R = u.R

    def bsum(fs):
        r = ZERO
        for k, x in enumerate(fs):
            r = iadd(r, imul(Int(1 << (8 * k)), x))
        return r

    for m in (8 * n, 8 * n - 1, 8 * n + 1, 0):
        def args(eng, st, body, m=m):
            return [eng.ref(eng.new_cell(st, agg("array", 0, *byte_syms(m))))]

        def f(o, c, m=m):
            if m != 8 * n:
                R.obligation(f"{o.what}[N={n}]: {m} bytes are refused")
                for x in c.outs:
                    o.fail(x.st, "length", f"a slice of {m} bytes is refused", Bad([], lambda e: True))
                return
            o.never()
            for x in c.outs:
                o.zero(x.st, isub(val(x.ret), bsum(byte_syms(m))), "bytes", "value of the little-endian bytes")
        u.case(U + "ct_from_le_slice", n, f, args=args)
        u.case(BI + "from_bytes_le", n, f, args=args)

    def into(o, c):
        o.never()
        for x in c.outs:
            v = x.ret
            if v.op != "agg" or len(v.a) - 2 != 8 * n:
                o.fail(x.st, "bytes", f"{8 * n} little-endian bytes are produced", Bad([], lambda e: True), show(v)[:80])
                continue
            o.zero(x.st, isub(bsum(afields(v)), val(c.in_[0])), "bytes", "the bytes denote the number")
            for y in afields(v):
                if not RG.fits(y, 8):
                    o.fail(x.st, "bytes", "each output is a byte", Bad([], lambda e: True))
    u.case(BI + "into_bytes_le", n, into)

    # most-significant-first bit sequences
    def bits_(nb, bitf):
        def f(o, c):
            o.never()
            for x in c.outs:
                it, st = x.ret, x.st
                for k in reversed(range(nb)):
                    nx = c.eng.M.nexts(st, it)
                    if len(nx) != 1 or nx[0][2] is None:
                        o.fail(st, "bits", f"the sequence has {nb} bits", Bad([], lambda e: True))
                        return
                    st, it, v = nx[0]
                    o.zero(st, isub(b2i(v), bitf(c, k)), "bits", f"bit {k} in most-significant-first order")
                nx = c.eng.M.nexts(st, it)
                if any(y[2] is not None for y in nx):
                    o.fail(st, "bits", f"the sequence has {nb} bits", Bad([], lambda e: True))
        return f

    def ubit(c, k):
        return low(high(afields(c.in_[0].a[2])[k // 64], k % 64), 1)
    u.case("<arithmetic::uint::Uint<N> as bits::BitIteratorBE>::bit_be_iter", n, bits_(64 * n, ubit))
    if n == 1:
        for ty, nb in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128), ("usize", 64)):
            u.case(f"<{ty} as bits::BitIteratorBE>::bit_be_iter", n, bits_(nb, lambda c, k: low(high(c.in_[0], k), 1)))

        # any other pipeline: follow it over sequences of given length, the bits
        # unknown except for the leading ones
        def stream(o, c):
            for zeros, rest in [(z, r) for z in range(4) for r in range(4)] + [(0, 1100), (1100, 3)]:
                fs = [Bool(False)] * zeros + ([Bool(True)] if rest else []) + [mk("sym", f"bit{k}", 1) for k in range(rest - 1)]
                want = fs[zeros:]

                def src(e, s, f, a, d, fs=fs):
                    return [(s, mk("it", "vec", e.ref(e.new_cell(s, mk("agg", "array", 0, *fs))), Int(0), Int(len(fs))))]
                c2 = Case(R, u.P, body_of(u.P, "bits::BitIteratorBE::bit_be_trimmed_iter"), n, contracts={"bits::BitIteratorBE::bit_be_iter": src})
                for x in c2.outs:
                    st, it = x.st, x.ret
                    for w in want:
                        nx = c2.eng.M.nexts(st, it)
                        if len(nx) != 1 or nx[0][2] is None or nx[0][2] is not w:
                            o.fail(st, "trim", f"every bit from the leading one on is produced ({zeros} leading zeros, {rest} more bits)", Bad([], lambda e: True))
                            return
                        st, it, _ = nx[0]
                    if any(y[2] is not None for y in c2.eng.M.nexts(st, it)):
                        o.fail(st, "trim", f"only the bits from the leading one on are produced ({zeros} leading zeros, {rest} more bits)", Bad([], lambda e: True))
                        return

        # leading zeros are skipped, nothing else
        def trim(o, c):
            for x in c.outs:
                it = x.ret
                R.obligation("bit_be_trimmed_iter skips exactly the leading false bits")
                if it.op == "app" or it.op != "it" or it.a[0] != "skip_while" or it.a[1].op != "it" or it.a[1].a[0] != "vec":
                    stream(o, c)
                    return
                for b in (True, False):
                    s = x.st.copy()
                    rs = c.eng.call_value(s, it.a[2], [c.eng.ref(c.eng.new_cell(s, Bool(b)))], None)
                    if any(v is not Bool(not b) for _, v in rs):
                        o.fail(s, "trim", f"a leading {b} bit is {'kept' if b else 'dropped'}", Bad([], lambda e: True))
        u.case("bits::BitIteratorBE::bit_be_trimmed_iter", n, trim, contracts={"bits::BitIteratorBE::bit_be_iter": lambda e, s, f, a, d: [(s, mk("it", "vec", e.ref(e.new_cell(s, mk("agg", "array", 0, Bool(False), Bool(True)))), Int(0), Int(2)))]})


def parse_rules(u, ns):
    """string parsing: value of the digits, for every digit string of each length"""
    R = u.R

    def digits(c, m, radix):
        fs = byte_syms(m, "ch")
        r = ZERO
        for k, x in enumerate(reversed(fs)):
            d = mk("app", "digit", x, Int(radix))
            r = iadd(r, imul(Int(radix ** k), d))
        return r

    for n in ns:
        M = 1 << (64 * n)
        for radix, path, ms in ((16, "arithmetic::uint::from_str_hex", sorted({1, 2, 3, 15, 16, 17, 16 * n - 1, 16 * n})),
                                (2, "arithmetic::uint::from_str_radix", (1, 2, 5, 33, 64)),
                                (10, "arithmetic::uint::from_str_radix", (1, 2, 7, 19)),
                                (16, "arithmetic::uint::from_str_radix", (1, 3, 16))):
            for m in ms:
                if radix ** m > M:
                    continue

                def args(eng, st, body, m=m, radix=radix):
                    a = [eng.ref(eng.new_cell(st, agg("array", 0, *byte_syms(m, "ch"))))]
                    return a + ([Int(radix)] if body["argc"] == 2 else [])

                def f(o, c, m=m, radix=radix):
                    for x in c.outs:
                        o.zero(x.st, isub(val(x.ret), digits(c, m, radix)), "parse", f"value of a {m}-digit base-{radix} string")
                    for x in c.panics:
                        R.obligation(f"{o.what}: refuses only non-digits")
                        fs = byte_syms(m, "ch")
                        if not any(x.st.decide(mk("app", "is_digit", b, Int(radix))) is False or x.st.decide(iLt(b, Int(128))) is False for b in fs):
                            ds = [mk("app", "is_digit", b, Int(radix)) for b in fs]
                            o.fail(x.st, "refuse", f"a {m}-digit base-{radix} string is refused", Bad(ds, lambda e, ds=ds: all(ev(d, e) for d in ds)))
                    if not c.outs:
                        o.fail(c.panics[0].st, "refuse", f"{m}-digit base-{radix} strings are refused", None)
                u.case(path, n, f, args=args)


def rem_rules(u, ns):
    """remainder: the loop is cut at its head; one generic step must shift in the
    next bit and reduce below the divisor"""
    R = u.R
    W = "arithmetic::uint::WideUint::<N>::"
    for n in ns:
        def nb(o, c):
            o.never()
            lo, hi = (list(afields(x.a[2])) for x in c.in_[0].a[2:4])
            bitlen(o, c, lo + hi, "bit length of the double-width number")
        u.case(W + "ct_num_bits", n, nb)
        for i in sorted(set([0, 1, 63, 64 * n - 1, 64 * n, 64 * n + 1, 128 * n - 1, 128 * n, 128 * n + 5, 64 * n - 64])):
            def gb(o, c, i=i):
                o.never()
                ls = [y for x in c.in_[0].a[2:4] for y in afields(x.a[2])]
                for x in c.outs:
                    w = low(high(ls[i // 64], i % 64), 1) if i < 128 * n else ZERO
                    o.zero(x.st, isub(b2i(x.ret), w), "bit", f"bit {i} of the double-width number")

            def ga(eng, st, body, i=i):
                return [eng.fresh(st, body["locals"][1], "a0"), Int(i)]
            u.case(W + "ct_get_bit", n, gb, args=ga)


def mulall(ts):
    r = ONE
    for t in ts:
        r = imul(r, t)
    return r


def sumi(ts):
    r = ZERO
    for t in ts:
        r = iadd(r, t)
    return r


def quot(p, memo):
    """p with every remainder written as dividend minus 2^k times the (integer) quotient"""
    r = ZERO
    for m, c in P0(p).items():
        t = Int(c)
        for x in m:
            if x.op == "rr":
                if x not in memo:
                    _, d, k = RG.DEF[x]
                    memo[x] = isub(quot(d, memo), imul(Int(1 << k), RG.high(d, k)))
                t = imul(t, memo[x])
            else:
                t = imul(t, x)
        r = iadd(r, t)
    return r


def congr(st, p, k):
    """p modulo 2^k as a polynomial: integer multiples of 2^k dropped after expansion"""
    p = drop_exclusive(st, p)
    q = quot(p, {})
    if all(c % (1 << k) == 0 for c in P0(q).values()):
        return ZERO
    pn = pins(st, [p, q], True)
    q = sumi(mulall([Int(c)] + [Int(pn[x]) if x in pn else x for x in m]) for m, c in P0(q).items())
    if all(c % (1 << k) == 0 for c in P0(q).values()):
        return ZERO
    for full in (False, True):
        out = RG.expand(p, pins(st, [p], full))
        for x in list(RG._Q.values()):
            e = RG.expand(imul(Int(1 << k), x), pins(st, [x], full))
            if out == e or out == {m: -c for m, c in e.items()}:
                return ZERO
        if all(c.denominator == 1 and c.numerator % (1 << k) == 0 for c in out.values()):
            return ZERO
        if not st.facts:
            break
    return low(p, k)


def need_panics(o, c, f, ts):
    for x in c.panics:
        o.R.obligation(f"{o.what}[N={c.n}]: panics only on overflow")
        if o.c.n <= 1:
            A, B = ts
            o.nonneg(x.st, isub(imul(A, B), Int(1 << (64 * c.n))), "panic", "panics only when the result does not fit")
        else:
            w = witness(x.st, Bad(ts, lambda e: not f(e)), CState.BASE, 500)
            if w:
                o.fail(x.st, "panic", "panics only when the result does not fit", Bad(ts, lambda e: not f(e)))


def p_uint(R, tier="quick"):
    u = Un(R, tier)
    limb_rules(u)
    parse_rules(u, (1, 2) if tier == "quick" else (1, 2, 4))
    rem_rules(u, (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 6, 7))
    from .remr import ct_rem_rules
    for n in (1, 2, 4) if tier == "quick" else range(1, 14):
        ct_rem_rules(u, n)
    bit_rules(u)
    text_rules(u, (1, 2, 4))
    uint_rules(u, (1, 2, 3, 4, 6, 7) if tier == "quick" else range(1, 14), 6)


def bit_rules(u):
    """bit iteration: every bit once, most significant first"""
    R = u.R

    def drain(eng, st, it, cap):
        """items of an iterator on the path; None when the path splits"""
        out = []
        for _ in range(cap + 2):
            r = eng.M.nexts(st, it)
            if len(r) != 1:
                return None
            st, it, x = r[0]
            if x is None:
                return out
            out.append(eng.deref_all(st, x) if x.op == "ref" else x)
        return None

    def rule(width, limbs):
        def f(o, c):
            o.never()
            for x in c.outs:
                its = drain(c.eng, x.st, x.ret, width * limbs)
                R.obligation(f"{o.what}: {width * limbs} bits, most significant first")
                if its is None:
                    R.undecided.append(f"{o.what}: iterator {show(x.ret)[:100]}")
                    continue
                if len(its) != width * limbs:
                    R.violation(f"{o.what}:bits", f"{o.what}: yields {len(its)} bits of a {width * limbs}-bit number")
                    continue
                v = c.in_[0]
                ls = afields(v.a[2]) if v.op == "agg" and v.a[0] != "array" else afields(v) if v.op == "agg" else [v]
                for k, b in enumerate(its):
                    i = width * limbs - 1 - k
                    w = low(high(ls[i // width], i % width), 1)
                    o.zero(x.st, isub(fbool(b), w), "bits", f"item {k} is bit {i}")
        return f

    for t, w in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128), ("usize", 64)):
        u.case(f"<{t} as bits::BitIteratorBE>::bit_be_iter", None, rule(w, 1))
    for n in ((1, 2) if u.tier == "quick" else (1, 2, 4)):
        u.case("<arithmetic::uint::Uint<N> as bits::BitIteratorBE>::bit_be_iter", n, rule(64, n))

        def sl(eng, st, body, n=n):
            xs = [eng.fresh(st, next(i for i, t in enumerate(eng.T) if t["s"] == "u64"), f"limb{i}") for i in range(n)]
            return [eng.ref(eng.new_cell(st, mk("agg", "array", 0, *xs)))]
        u.case("arithmetic::uint::<impl bits::BitIteratorBE for &[u64]>::bit_be_iter", None, rule(64, n), args=sl)


def pieces(t):
    if t.op == "concat":
        return pieces(t.a[0]) + pieces(t.a[1])
    return [] if t.op == "str" and t.a[0] == "" else [t]


def padded16(t):
    """upper-case hexadecimal, zero-filled to sixteen digits"""
    _, kind, fl, wd, pr, v = t.a[:6]
    align = fl >> 29 & 3
    fill = fl & 0x1fffff
    zero = bool(fl >> 24 & 1) or (fill == ord("0") and align in (1,))
    return kind == "upper_hex" and zero and wd == 16 and not fl >> 21 & 7


def text_rules(u, ns):
    """the text form has sixteen hexadecimal digits per limb, most significant limb first"""
    R = u.R

    def args(eng, st, body):
        return [eng.fresh(st, body["locals"][1], "a0"), eng.ref(eng.new_cell(st, mk("str", "")))]

    def hexd(o, c):
        o.never()
        for x in c.outs:
            R.obligation(f"{o.what}[N={c.n}]: hexadecimal digits of every limb")
            if x.ret.op != "agg" or x.ret.a[1] != 0:
                continue
            ps = pieces(x.muts[1])
            ls = list(afields(c.in_[0].a[2]))[::-1]
            if not all(p.op == "app" and p.a[0] == "fmt" for p in ps):
                R.undecided.append(f"{o.what}: text {show(x.muts[1])[:120]}")
                continue
            got = [p.a[5] for p in ps]
            if len(got) != len(ls) or any(a is not b for a, b in zip(got, ls)):
                o.fail(x.st, "text", "the limbs are written most significant first, each once", None, show(x.muts[1])[:120])
            elif not all(padded16(p) for p in ps):
                o.fail(x.st, "text", "every limb is written as sixteen upper-case hexadecimal digits", None, show(x.muts[1])[:120])

    def deleg(ok):
        def f(o, c):
            o.never()
            for x in c.outs:
                R.obligation(f"{o.what}[N={c.n}]: shows the number itself")
                ps = pieces(x.muts[1])
                if len(ps) != 1 or ps[0].op != "app" or not ok(ps[0], c.in_[0]):
                    lost = [y for y in afields(c.in_[0].a[2]) if not contains(x.muts[1], y)]
                    if lost and not c.eng.unmodelled and x.ret.op == "agg" and x.ret.a[1] == 0 and not contains(x.muts[1], c.in_[0]):
                        o.fail(x.st, "text", "the text shows every limb", None, show(x.muts[1])[:120])
                        continue
                    R.undecided.append(f"{o.what}: text {show(x.muts[1])[:120]}")
        return f

    def same(p, v):
        return p.a[0] == "fmt" and p.a[1] in ("upper_hex", "display") and p.a[5] is v or p.a[0] == "to_string" and p.a[1] is v
    T = "<arithmetic::uint::Uint<N> as core::fmt::"
    for n in ns:
        u.case(T + "UpperHex>::fmt", n, hexd, args=args)
        u.case(T + "Display>::fmt", n, deleg(same), args=args)
        u.case(T + "Debug>::fmt", n, deleg(same), args=args)
