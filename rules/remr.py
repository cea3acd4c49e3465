"""WideUint::ct_rem: bitwise long division, by one generic iteration."""
from .fpr import *          # noqa

W = "arithmetic::uint::WideUint::<N>::"


def ct_rem_rules(u, n):
    R = u.R
    b = body_of(u.P, W + "ct_rem")
    if b is None:
        R.undecided.append(W + "ct_rem: not found")
        return
    M = 64 * n
    RG.reset()
    hold = {}

    class Cls(FInterp):
        cutloops = True

        def loop_atom(self, cell, v, tag):
            r = super().loop_atom(cell, v, tag)
            if str(r.a[0]).endswith(":uint"):
                inv = isub(isub(hold["rhs"], ONE), r)
                if inv not in CState.BASE:
                    CState.BASE.append(inv)
            return r
    bits = {}

    def getbit(e, st, f, a, d):
        i = a[1]
        x = bits.get(i)
        if x is None:
            x = mk("sym", f"bit({show(i)[:40]})", 0)
            RG.RNG[x] = (0, 1)
            bits[i] = x
        return [(s, Bool(v)) for s, v in e.branch(st, iEq(x, ONE))]

    def numbits(e, st, f, a, d):
        return [(st, hold["nb"])]

    def args(eng, st, body):
        out = []
        for k in (1, 2):
            t = body["locals"][k]
            out.append(eng.fresh(st, t, f"a{k - 1}"))
        w = eng.deref_all(st, out[0])
        hold["rhs"] = val(eng.deref_all(st, out[1]))
        nb = mk("sym", "num_bits", 0)
        RG.RNG[nb] = (0, 2 * M)
        WID[nb] = 64
        hold["nb"] = nb
        return out
    C = uint_contracts(n)
    C[W + "ct_num_bits"] = numbits
    C[W + "ct_get_bit"] = getbit
    try:
        c = Case(R, u.P, b, n, contracts=C, args=args, absuint=True, cls=Cls, reset=False)
    except (Unsupported, Budget, RecursionError) as e:
        R.undecided.append(f"{W}ct_rem N={n}: {type(e).__name__} {e}")
        return
    R.cases += 1
    o = Ob(R, c, W + "ct_rem")
    un = [x for x in c.eng.unmodelled if not x.startswith("core::fmt::")]
    if un:
        R.undecided.append(f"{W}ct_rem: unmodelled {un[:3]}")
        return
    try:
        decide_rem(o, c, hold, bits)
    except (Unsupported, Budget, RecursionError, IndexError, AttributeError) as e:
        R.undecided.append(f"{W}ct_rem N={n}: {type(e).__name__} {e}")


def decide_rem(o, c, hold, bits):
    R, rhs, nb = o.R, hold["rhs"], hold["nb"]
    for w in c.eng.wraps:
        R.obligation("no plain operator leaves its type")
        v, k = w[2], w[3]
        o.fail(w[4], "overflow", f"operator {w[0]} stays within {k} bits: {show(v)[:80]}", Bad([v], lambda e, v=v, k=k: not 0 <= ev(v, e) < 1 << k))
    for x in c.panics:
        R.obligation("only a zero divisor is refused")
        if x.st.decide(iEq(rhs, ZERO)) is not True:
            o.fail(x.st, "panic", f"panic `{x.panic}` only for a zero divisor", Bad([rhs], lambda e: ev(rhs, e) != 0))
    log = c.eng.cutlog
    if len(log) != 1:
        R.undecided.append(f"{o.what}: {len(log)} loops")
        return
    e = log[0]
    atoms = {cell: v for cell, v in e["head"].mem.items() if isinstance(v, Term) and v.op == "sym" and str(v.a[0]).startswith("loop")}
    rems = [k for k, v in atoms.items() if str(v.a[0]).endswith(":uint")]
    idxs = [k for k, v in atoms.items() if str(v.a[0]).endswith(":int")]
    good = None
    why = "no carried remainder and index"
    for kr in rems:
        for ki in idxs:
            for d in (0, -1):
                ok, why2 = attempt(o, c, e, atoms[kr], atoms[ki], kr, ki, d, hold, bits)
                if ok:
                    good = (kr, ki, d)
                    break
                if isinstance(why2, tuple) or not isinstance(why, tuple):
                    why = why2 or why
            if good:
                break
        if good:
            break
    R.obligation(f"{o.what}[N={c.n}]: one generic step of long division, from the top bit to bit 0")
    if not good:
        if isinstance(why, tuple):
            st, what, bad = why
            o.fail(st, "step", what, bad)
        else:
            R.undecided.append(f"{o.what} N={c.n}: {why}")


def attempt(o, c, e, rem, idx, kr, ki, d, hold, bits):
    rhs, nb = hold["rhs"], hold["nb"]
    if sum(1 for k in bits if any(idx in m for m in P0(k))) > 1:
        return False, "more than one bit is read per step"
    proc = iadd(idx, Int(d))
    bit = bits.get(proc)
    if bit is None:
        return False, f"bit {show(proc)} is never read"
    init = e["init"]
    r0, i0 = init.mem[kr], init.mem[ki]
    top = isub(isub(iadd(i0, Int(d)), nb), Int(-1))
    if identity(init, r0) and identity(init, top):
        return False, "the loop starts from another state"
    if identity(init, r0):
        return False, (init, "the remainder starts at zero", Bad([r0], lambda en: ev(r0, en) != 0))
    if identity(init, top):
        return False, (init, "division starts at the top bit", Bad([top], lambda en: ev(top, en) != 0))
    base, CState.BASE = CState.BASE, []
    try:
        z = init.decide(iEq(rhs, ZERO))
    finally:
        CState.BASE = base
    if z is not False:
        CState.BASE = []
        return False, (init, "a zero divisor never reaches the loop", Bad([rhs], lambda en: ev(rhs, en) == 0))

    def stepped(st, v):
        for k in (0, 1):
            if identity(st, isub(isub(v, iadd(imul(Int(2), rem), bit)), imul(Int(-k), rhs))) == {}:
                return True
        return False

    def badstep(v):
        return Bad([v, rem, bit, rhs], lambda en: ev(rhs, en) != 0 and ev(rem, en) < ev(rhs, en) and ev(v, en) != (2 * ev(rem, en) + ev(bit, en)) % ev(rhs, en))
    for b in e["backs"]:
        v, i2 = b.mem[kr], b.mem[ki]
        if not stepped(b, v):
            return False, (b, "a step computes (2*rem + bit) mod divisor", badstep(v))
        if not b.entails(isub(isub(rhs, ONE), v)):
            return False, (b, "the remainder stays below the divisor", badstep(v))
        if identity(b, isub(i2, isub(idx, ONE))):
            return False, (b, "the index goes down by one", Bad([i2, idx], lambda en: ev(i2, en) != ev(idx, en) - 1))
    for x in c.outs:
        v = val(x.ret)
        if identity(x.st, v) == {} and x.st.decide(iEq(nb, ZERO)) is True:
            continue
        if identity(x.st, isub(v, rem)) == {} and x.st.decide(iEq(iadd(proc, ONE), ZERO)) is True:
            continue
        if not stepped(x.st, v):
            return False, (x.st, "the result is the remainder after the last step", badstep(v))
        if not x.st.entails(isub(isub(rhs, ONE), v)):
            return False, (x.st, "the result is below the divisor", badstep(v))
        if x.st.decide(iEq(proc, ZERO)) is not True:
            return False, (x.st, "the loop ends after bit 0", Bad([proc], lambda en: ev(proc, en) != 0))
    return True, None
