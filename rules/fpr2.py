"""Prime field elements, field level: operators, conversions, powers, provided
constants and the shipped field instances (P33)."""
from .fpr import *            # noqa
from .curve import AOb, Cv, Group, loop_form, sums, must, eq_table
from engine.alg import *      # noqa
from engine import ring as RG
from .uintr import bitlen

FPT = "field::fp::Fp"
FPP = "field::fp::FpParams::"


def assoc(P, path):
    return next((b for b in P.bodies.values() if b["path"] == path and "#assoc@" in b["key"]), None)


# ------------------------------------------------------------ constants, for every modulus

def wrapping(v, x, seen=None):
    """v is built from x and constants by ring operations modulo 2^64 only: an integer polynomial in x"""
    seen = set() if seen is None else seen
    if v in seen or v is x or v.op == "int":
        return True
    seen.add(v)
    if v.op == "poly":
        return all(wrapping(y, x, seen) for m, c in v.a[1] for y in m)
    return v.op == "rr" and v.a[1] == 64 and wrapping(v.a[0], x, seen)


def const_rules(u, n):
    R = u.R
    M = 1 << (64 * n)
    hold = {}

    def mod(eng, st, c):
        return agg(c.get("ty"), 0, agg("array", 0, *hold["ps"]))

    def args(eng, st, body):
        hold["ps"], hold["inv"] = mont_consts(n)
        return []
    base = {"MODULUS": mod}

    def case(path, f, contracts=None, consts=None, cls=None):
        b = assoc(u.P, path) if isinstance(path, str) else path
        if b is None:
            R.undecided.append(f"{path}: not found")
            return
        kw = {"cls": cls} if cls else {}
        u.case(b, n, f, args=args, consts=dict(base, **(consts or {})), contracts=contracts, **kw)

    def P():
        return val(agg("array", 0, *hold["ps"]))

    def spare(o, c):
        o.never()
        for x in c.outs:
            o.iff(x.st, x.ret, isub(Int(M // 2 - 1), P()), "spare", "set exactly when the modulus leaves its top bit free")
    case(FPP + "HAS_MODULUS_SPARE_BIT", spare)

    def invc(o, c):
        for x in c.outs:
            R.obligation(f"{o.what}[N={n}]: k with k * MODULUS = -1 (mod 2^64)")
            v = x.ret
            p0 = hold["ps"][0]
            if not wrapping(v, p0):
                R.undecided.append(f"{o.what}: value {show(v)[:60]}")
                continue
            # p0*v + 1 at p0 = 2k+1 is an integer polynomial in k; its i-th difference is a multiple of i!, which
            # is 0 modulo 2^64 from i = 66 on: it vanishes for every k if it does for k < 66
            for k in range(66):
                if ((2 * k + 1) * ev(v, {p0: 2 * k + 1}) + 1) % W64:
                    R.violation(f"{o.what}:inv", f"{o.what}: not the negated inverse of the lowest modulus limb, e.g. {2 * k + 1}")
                    break
    case(FPP + "INV", invc)

    def residue(k):
        def f(o, c):
            o.never()
            if len(hold["rem"]) != 1:
                R.undecided.append(f"{o.what}: {len(hold['rem'])} remainders")
                return
            W_, r, d = hold["rem"][0]
            for x in c.outs:
                R.obligation(f"{o.what}: remainder modulo the modulus")
                if P0(isub(d, P())):
                    o.fail(x.st, "modulus", "the remainder is taken modulo the modulus", Bad([d, P()], lambda e: ev(d, e) != ev(P(), e)))
                    continue
                if set(P0(W_)) - {()}:
                    R.undecided.append(f"{o.what}: dividend {show(W_)[:60]}")
                    continue
                o.zero(x.st, isub(val(x.ret), iadd(r, isub(Int(M ** k), W_))), "value", f"2^{64 * n * k} modulo the modulus")
        return f

    def rem(e, st, f, a, d):
        w = e.deref_all(st, a[0]) if a[0].op == "ref" else a[0]
        m = val(e.deref_all(st, a[1]) if a[1].op == "ref" else a[1])
        lo, hi = val(w.a[2]), val(w.a[3])
        W_ = iadd(lo, imul(Int(M), hi))
        xs = []
        for i in range(n):
            x = mk("sym", f"rem[{i}]", 0)
            RG.RNG[x] = (0, W64 - 1)
            WID[x] = 64
            xs.append(x)
        r = val(agg("array", 0, *xs))
        hold["rem"].append((W_, r, m))
        CState.BASE.append(isub(isub(m, ONE), r))
        return [(st, agg(d, 0, agg("array", 0, *xs)))]
    for nm, k in (("R", 1), ("R2", 2)):
        hold["rem"] = []
        case(FPP + nm, residue(k), contracts={"arithmetic::uint::WideUint::<N>::ct_rem": rem})

    def bitsize(o, c):
        o.never()
        bitlen(o, c, hold["ps"], "bit length of the modulus")
    case("<field::fp::Fp<P, N> as field::prime::PrimeField>::MODULUS_BIT_SIZE", bitsize)

    def same(want):
        def f(o, c):
            for x in c.outs:
                v = x.ret
                o.zero(x.st, isub(val(v), want()), "const", "value of the constant")
        return f

    def rr(e, st, c):
        return agg(c.get("ty"), 0, agg("array", 0, *hold["ps"]))
    for p in ("field::fp::Fp::<P, N>::ZERO", "<field::fp::Fp<P, N> as field::group::AdditiveGroup>::ZERO"):
        case(p, same(lambda: ZERO))
    for p in ("field::fp::Fp::<P, N>::ONE", "<field::fp::Fp<P, N> as field::Field>::ONE"):
        case(p, same(P), consts={"R": rr})
    case("<field::fp::Fp<P, N> as field::prime::PrimeField>::MODULUS", same(P))
    case(next(iter(bodies(u.P, lambda b: b["path"] == "field::prime::PrimeField::characteristic")), "characteristic"), same(P))
    case(next(iter(bodies(u.P, lambda b: b["path"] == "<field::fp::Fp<P, N> as field::Field>::extension_degree")), "extension_degree"), same(lambda: ONE))
    case("<arithmetic::uint::Uint<N> as arithmetic::BigInteger>::NUM_LIMBS", same(lambda: Int(n)))
    case("<arithmetic::uint::Uint<N> as arithmetic::BigInteger>::LIMB_BITS", same(lambda: Int(64)))
    case("<arithmetic::uint::Uint<N> as arithmetic::BigInteger>::MAX", same(lambda: Int(M - 1)))
    case("<arithmetic::uint::Uint<N> as arithmetic::BigInteger>::ONE", same(lambda: ONE))
    case("<arithmetic::uint::Uint<N> as arithmetic::BigInteger>::ZERO", same(lambda: ZERO))


# ------------------------------------------------------------ operators

class FpAlg(Group):
    """elements of Fp are polynomials; integers denote their multiples of one"""
    def isgroup(self, t, s):
        return False

    def isfield(self, t, s):
        return t.get("path") == FPT or s in ("Self", "F", "<F as field::Field>::Self")

    def algcall(self, st, f, args, dty):
        n = f["name"]
        if n == "into_bigint" and FPP + "into_bigint" in self.contracts and len(args) == 1 and isint(self.v(st, args[0])):
            return self.contracts[FPP + "into_bigint"](self, st, f, args, dty)
        if n in ("unsigned_abs", "is_positive", "is_negative") and isint(self.v(st, args[0])):
            v = self.v(st, args[0])
            if n == "unsigned_abs":
                return [(s, v if b else neg(v)) for s, b in self.branch(st, RG.Pos(v))]
            return [(st, RG.iLt(ZERO, v) if n == "is_positive" else RG.iLt(v, ZERO))]
        if n in ("into", "from") and len(args) == 1 and self.kind(dty) == "f":
            v = self.v(st, args[0])
            if isint(v) and self.kind(f.get("self")) is None and not (f.get("inst") in self.prog.bodies):
                return [(st, v)]
        return super().algcall(st, f, args, dty)


class FpFlat(FpAlg):
    cutloops = False


def fp_contracts(n):
    C = {}

    def mut(fn):
        def h(e, st, f, a, d):
            xs = [e.v(st, x) for x in a]
            if not all(isint(x) for x in xs):
                return None
            e.store(st, a[0], fn(*xs))
            return [(st, UNIT)]
        return h
    C[FPP + "add_assign"] = mut(iadd)
    C[FPP + "sub_assign"] = mut(isub)
    C[FPP + "mul_assign"] = mut(imul)
    C[FPP + "double_in_place"] = mut(lambda a: imul(Int(2), a))
    C[FPP + "neg_in_place"] = mut(neg)
    C[FPP + "square_in_place"] = mut(lambda a: imul(a, a))

    def inverse(e, st, f, a, d):
        v = e.v(st, a[0])
        return e.inverse(st, v, d) if isint(v) else None
    C[FPP + "inverse"] = inverse
    C[FPP + "from_bigint"] = lambda e, st, f, a, d: [(st, val(e.v(st, a[0])))]

    def into(e, st, f, a, d):
        v = e.v(st, a[0])
        if n == 1:
            x = mk("sym", f"limb of {show(v)[:40]}", 0)
            RG.RNG[x] = (0, W64 - 1)
            WID[x] = 64
            return [(st, agg(d, 0, agg("array", 0, x)))]
        return [(st, mk("app", "bigint", v))]
    C[FPP + "into_bigint"] = into
    C["<field::fp::Fp<P, N> as core::cmp::Ord>::cmp"] = lambda e, st, f, a, d: [(st, mk("app", "cmp", *[mk("app", "bigint", e.v(st, x)) for x in a]))]
    C["<arithmetic::uint::Uint<N> as core::cmp::Ord>::cmp"] = lambda e, st, f, a, d: [(st, mk("app", "cmp", *[e.v(st, x) for x in a]))]
    for tr, nm, g in (("Zero", "is_zero", lambda v: fz(v)), ("One", "is_one", lambda v: fz(isub(v, ONE)))):
        C[f"<field::fp::Fp<P, N> as num_traits::{tr}>::{nm}"] = lambda e, st, f, a, d, g=g: [(st, g(e.v(st, a[0])))]
    C["<field::fp::Fp<P, N> as core::cmp::PartialEq>::eq"] = lambda e, st, f, a, d: [(st, fz(isub(e.v(st, a[0]), e.v(st, a[1]))))]
    return C


def farg(eng, st, i, name):
    t = eng.T[i]
    if t["k"] in ("ref", "ptr"):
        return eng.ref(eng.new_cell(st, farg(eng, st, t["to"], name)))
    if eng.kind(i) == "f":
        return fatom(name)
    if t["k"] == "param" and t["s"] == "I":
        return eng.opiter("items")
    if t["k"] == "param":
        return mk("sym", name, i)
    return eng.fresh(st, i, name)


def fargs(eng, st, body):
    eng.scalars = []
    return [farg(eng, st, body["locals"][k], f"a{k - 1}") for k in range(1, body["argc"] + 1)]


def op_rules(u):
    R = u.R
    C4 = fp_contracts(4)

    def run(path, f, **kw):
        kw.setdefault("contracts", C4)
        u.case(path, f, cls=kw.pop("cls", FpAlg), args=kw.pop("args", fargs), n=kw.pop("n", 4), **kw)

    def binop(fn, mut):
        def f(o, c):
            o.never()
            a, b = c.in_
            for x in c.outs:
                o.zero(x.st, isub(x.muts[0] if mut else x.ret, fn(a, b)), "value", "the operator is the field operation")
        return f

    def division(mut):
        def f(o, c):
            a, b = c.in_
            for x in c.outs:
                must(o, x.st, fz(b), False, "zero-divisor", "division by zero does not return")
                v = x.muts[0] if mut else x.ret
                o.zero(x.st, isub(imul(v, b), a), "value", "quotient times divisor is the dividend")
            for x in c.panics:
                must(o, x.st, fz(b), True, "panic", "panics only on division by zero")
            R.obligation(f"{o.what}: division by a non-zero element returns")
            if not c.outs:
                R.violation(f"{o.what}:value", f"{o.what}: no path returns a quotient")
        return f
    cnt = 0
    for b in sorted((b for b in u.P.bodies.values() if b["root"] == b["path"] and "#" not in b["key"].split("@")[0].split("[")[0]), key=lambda b: b["path"]):
        p = b["path"]
        if not p.startswith("<") or FPT + "<P, N>" not in p or " as core::ops::" not in p:
            continue
        nm = p.split("::")[-1]
        for k, fn in (("add", iadd), ("sub", isub), ("mul", imul), ("div", None)):
            for suf in ("", "_assign"):
                if nm == k + suf and b["argc"] == 2:
                    cnt += 1
                    run(b, division(bool(suf)) if fn is None else binop(fn, bool(suf)))
    R.obligation("field operators found")
    if cnt < 24:
        R.undecided.append(f"only {cnt} field operators found")

    def unary(fn, mut):
        def f(o, c):
            o.never()
            for x in c.outs:
                o.zero(x.st, isub(x.muts[0] if mut else x.ret, fn(c.in_[0])), "value", "the operation on the element")
        return f
    A = f"<{FPT}<P, N> as "
    run(A + "core::ops::Neg>::neg", unary(neg, False))
    dbl, sq = (lambda a: imul(Int(2), a)), (lambda a: imul(a, a))
    for tr, nm, fn in (("field::group::AdditiveGroup", "double", dbl), ("field::group::AdditiveGroup", "neg", neg), ("field::Field", "square", sq)):
        run(f"{A}{tr}>::{nm}_in_place", unary(fn, True))
        if nm != "neg":
            run(f"{A}{tr}>::{nm}", unary(fn, False))

    def inv(inplace):
        def f(o, c):
            o.never()
            a = c.in_[0]
            for x in c.outs:
                some = x.ret.a[1] == 1
                must(o, x.st, fz(a), not some, "inverse", "exactly the non-zero elements have an inverse")
                if some:
                    v = x.muts[0] if inplace else x.ret.a[2]
                    o.zero(x.st, isub(imul(v, a), ONE), "inverse", "element times inverse is one")
                elif inplace:
                    o.zero(x.st, isub(x.muts[0], a), "inverse", "zero is left alone")
        return f
    run(A + "field::Field>::inverse", inv(False))
    run(A + "field::Field>::inverse_in_place", inv(True))

    for tr, op, unit in (("Sum", iadd, ZERO), ("Product", imul, ONE)):
        k = 0
        for b in sorted((b for b in u.P.bodies.values() if b["root"] == b["path"] and f" as core::iter::{tr}" in b["path"] and FPT in b["path"]), key=lambda b: b["path"]):
            k += 1
            run(b, sums(op, unit))
        if k < 2:
            R.undecided.append(f"only {k} {tr} impls found")

    def powr(o, c):
        o.never()
        base = c.in_[0]
        loop_form(o, c, lambda r, bit: imul(imul(r, r), base if bit else ONE), ONE, "square-and-multiply over the bits", lambda x: x.ret)
    run("field::Field::pow", powr, n=None)

    for k in (0, 1, 2, 3, 5):
        def sp(eng, st, body, k=k):
            return [eng.ref(eng.new_cell(st, mk("agg", "array", 0, *[fatom(f"{z}{i}") for i in range(k)]))) for z in "ab"]

        def sop(o, c, k=k):
            o.never()
            want = ZERO
            for i in range(k):
                want = iadd(want, imul(fatom(f"a{i}"), fatom(f"b{i}")))
            for x in c.outs:
                o.zero(x.st, isub(x.ret, want), "value", "sum of the products")
        run("field::Field::sum_of_products", sop, args=sp, n=k, cls=FpFlat)

    # conversions
    def number(o, c):
        v = c.in_[0]
        for x in c.outs:
            Ob(R, c, o.what).zero(x.st, isub(x.ret, v if isint(v) else b2i(v)), "from", "the element of that integer")
        o.never()
    k = 0
    for b in sorted((b for b in u.P.bodies.values() if b["root"] == b["path"] and b["path"].startswith(A + "core::convert::From<") and "#" not in b["key"].split("@")[0].split("[")[0]), key=lambda b: b["path"]):
        k += 1
        def num2(o, c, b=b):
            c.body = b
            number(o, c)
        ity = b["path"].split("From<")[1].split(">")[0]
        if "Uint" in b["path"]:
            run(b, uint_in)
        elif ity[0] == "i":
            for sgn in (1, -1):
                def sg(eng, st, body, sgn=sgn, w=int(ity[1:])):
                    m = mk("sym", "magnitude", 0)
                    RG.RNG[m] = (0, (1 << (w - 1)) - 1) if sgn > 0 else (1, 1 << (w - 1))
                    WID[m] = w
                    return [m if sgn > 0 else neg(m)]
                run(b, num2, args=sg)
        else:
            run(b, num2)
    if k < 12:
        R.undecided.append(f"only {k} conversions into the field found")

    def back(o, c):
        for x in c.outs:
            R.obligation(f"{o.what}: the integer of the element")
            if x.ret is not mk("app", "bigint", c.in_[0]):
                R.undecided.append(f"{o.what}: {show(x.ret)[:80]}")
    run("field::fp::<impl core::convert::From<field::fp::Fp<P, N>> for arithmetic::uint::Uint<N>>::from", back)

    for b in sorted((b for b in u.P.bodies.values() if b["root"] == b["path"] and "From<field::fp::Fp<P, 1>>" in b["path"] and "#" not in b["key"].split("@")[0].split("[")[0]), key=lambda b: b["path"]):
        ty = b["path"].split(" for ")[1].split(">")[0]
        bits = int(ty[1:])
        top = (1 << (bits - (ty[0] == "i"))) - 1

        def toint(o, c, top=top):
            l = mk("sym", "limb of a0", 0)
            for x in c.outs:
                Ob(R, c, o.what).zero(x.st, isub(x.ret, l), "into", "the integer of the element")
            for x in c.panics:
                Ob(R, c, o.what).nonneg(x.st, isub(l, Int(top + 1)), "panic", "panics only when the integer does not fit")
        run(b, toint, n=1, contracts=fp_contracts(1))

    def order(opt):
        def f(o, c):
            o.never()
            for x in c.outs:
                R.obligation(f"{o.what}: compares the integers of the elements")
                v = x.ret.a[2] if opt and x.ret.op == "agg" else x.ret
                if v is not mk("app", "cmp", *[mk("app", "bigint", z) for z in c.in_]):
                    if v.op == "app" and v.a[0] == "cmp":
                        R.violation(f"{o.what}:order", f"{o.what}: the order is {show(v)[:100]}, not that of the elements' integers")
                    else:
                        R.undecided.append(f"{o.what}: {show(v)[:80]}")
        return f
    run(A + "core::cmp::Ord>::cmp", order(False))
    run(A + "core::cmp::PartialOrd>::partial_cmp", order(True))


def uint_in(o, c):
    o.never()
    for x in c.outs:
        o.zero(x.st, isub(x.ret, val(c.in_[0])), "from", "the element of that integer")


# ------------------------------------------------------------ shipped instances

def cint_of(v):
    """number stored in an evaluated constant (Uint or Fp)"""
    if "i" in v:
        return int(v["i"])
    if "arr" in v:
        return sum(cint_of(x) << (64 * i) for i, x in enumerate(v["arr"]))
    if "f" in v:
        return cint_of(v["f"][0])
    raise KeyError("constant")


def prime(n):
    if n < 2 or n % 2 == 0:
        return n == 2
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


# the fields named by the shipped instances
KNOWN = {
    "VestaParam": 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001,
    "PallasParam": 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001,
    "BLS12Param": 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001,
    "BN256Param": 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001,
    "GoldiLocksParam": (1 << 64) - (1 << 32) + 1,
    "BabyBearParam": 15 * (1 << 27) + 1,
}


def instance_rules(R, P):
    ins = {}
    for c in P.consts.values():
        if "field::fp::FpParams<" in (c.get("trait") or ""):
            ins.setdefault(c["self"], {})[c["name"]] = c
    R.obligation("shipped fields found")
    if len(ins) < 6:
        R.undecided.append(f"only {len(ins)} shipped fields found")
    for s, cs in sorted(ins.items()):
        nm = s.split("::")[-1]
        try:
            n = len(cs["MODULUS"]["val"]["f"][0]["arr"])
            p = cint_of(cs["MODULUS"]["val"])
            g = cint_of(cs["GENERATOR"]["val"])
        except (KeyError, IndexError, TypeError):
            R.undecided.append(f"{s}: constants not evaluated")
            continue
        M = 1 << (64 * n)

        def need(ok, key, msg):
            R.obligation(f"{s}: {msg}")
            if not ok:
                R.violation(f"{s}:{key}", f"{s}: {msg} does not hold ({cs[key]['file']}:{cs[key]['line']})")
        need(p % 2 == 1 and prime(p), "MODULUS", "the modulus is an odd prime")
        if nm in KNOWN:
            need(p == KNOWN[nm], "MODULUS", "the modulus is that of the named field")
        need(0 < g < p, "GENERATOR", "the generator is a canonical element")
        gi = g * pow(M, -1, p) % p if p % 2 else 0
        need(gi > 1 and (p - 1) % 2 == 0 and pow(gi, (p - 1) // 2, p) == p - 1, "GENERATOR", "the generator is a quadratic non-residue")
        for q in small_factors(p - 1):
            need(pow(gi, (p - 1) // q, p) != 1, "GENERATOR", f"the generator's order is not reduced by the factor {q}")
        for k, want in (("R", M % p), ("R2", M * M % p), ("INV", -pow(p, -1, W64) % W64), ("HAS_MODULUS_SPARE_BIT", int(p < M // 2))):
            if k not in cs:
                R.undecided.append(f"{s}: {k} not evaluated")
                continue
            try:
                v = cint_of(cs[k]["val"])
            except (KeyError, IndexError, TypeError):
                R.undecided.append(f"{s}: {k} not evaluated")
                continue
            need(v == want, k, f"{k} is the value of its definition")


def small_factors(n):
    out, q = [], 2
    while q < 5000:
        if n % q == 0:
            out.append(q)
            while n % q == 0:
                n //= q
        q += 1
    if n > 1 and prime(n):
        out.append(n)
    return out


def p_fp2(R, tier="quick"):
    p_fp(R, tier)
    u = Un(R, tier)
    for n in ((1, 2, 4, 6) if tier == "quick" else (1, 2, 3, 4, 6, 7, 13)):
        const_rules(u, n)
    op_rules(Cv(R))
    instance_rules(R, R.progs["crypto"])
