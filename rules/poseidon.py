"""Poseidon2: the permutation of every shipped instance is the specified one for
every state, and the sponge absorbs and squeezes in order (P38)."""
from .fpr2 import *          # noqa
from engine import ring as RG

PS = "poseidon2::Poseidon2::<P, F>::"


class Perm(OpIter, AInterp):
    cutloops = False

    def isfield(self, t, s):
        return s in ("F",)

    def algcall(self, st, f, args, dty):
        name = f["name"]
        if name == "pow" and len(args) == 2 and self.kind(f.get("self")) == "f":
            x, e = self.v(st, args[0]), self.v(st, args[1])
            if isint(x) and cint(e) is not None:
                return [(st, self.power(x, cint(e)))]
        if name == "into_boxed_slice":
            v = self.v(st, args[0])
            if v.op == "agg" and v.a[0] == "array":
                return [(st, self.ref(self.new_cell(st, v)))]
        return super().algcall(st, f, args, dty)

    def alg(self, st, k, tr, name, args, dty, f):
        if name in ("square", "mul", "square_in_place", "mul_assign"):
            n = 1
            for a in args[:2] if name.startswith("mul") else [args[0], args[0]]:
                v = self.v(st, a)
                n *= len(P0(v)) if isint(v) else 1
            if n > 3000:
                raise Unsupported("large product")
        return super().alg(st, k, tr, name, args, dty, f)

    def power(self, x, e):
        return power(x, e)


def power(x, e):
    """x^e as an atom of the value raised"""
    if e == 1:
        return x
    d = P0(x)
    if len(d) <= 1:
        return ipow(x, e) if e * max([len(m) for m in d], default=0) < 40 else atom("pow", x, e)
    return atom("pow", x, e)


def atom(nm, x, e):
    y = mk("app", nm, x, Int(e))
    RG.RNG[y] = BIGR
    return y


# ------------------------------------------------------------ reference permutation

M4 = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]]


def lin(row, xs):
    r = ZERO
    for k, x in zip(row, xs):
        r = iadd(r, imul(k if isinstance(k, Term) else Int(k), x))
    return r


def ext(T, s):
    if T in (2, 3):
        return [iadd(x, lin([1] * T, s)) for x in s]
    b = []
    for j in range(T // 4):
        b += [lin(M4[i], s[4 * j:4 * j + 4]) for i in range(4)]
    if T == 4:
        return b
    tot = [lin([1] * (T // 4), b[l::4]) for l in range(4)]
    return [iadd(x, tot[i % 4]) for i, x in enumerate(b)]


def internal(T, s, diag):
    d = {2: [Int(1), Int(2)], 3: [Int(1), Int(1), Int(2)]}.get(T, diag)
    t = lin([1] * T, s)
    return [iadd(t, imul(k, x)) for k, x in zip(d, s)]


def spec_permute(I, s):
    T, D = I.T, I.D
    s = ext(T, s)
    for r in range(I.RF + I.RP):
        if I.RF // 2 <= r < I.RF // 2 + I.RP:
            s = [power(iadd(s[0], I.rc(r, 0)), D)] + s[1:]
            s = internal(T, s, I.diag)
        else:
            s = ext(T, [power(iadd(x, I.rc(r, i)), D) for i, x in enumerate(s)])
    return s


class Inst:
    def __init__(self, name, T, D, cap, RF, RP, diag, rows):
        self.name, self.T, self.D, self.cap, self.RF, self.RP, self.diag, self.rows = name, T, D, cap, RF, RP, diag, rows

    def rc(self, r, i):
        return fatom(f"rc[{r}][{i}]")

    def consts(self):
        def diag(e, st, c):
            return e.ref(e.new_cell(st, mk("agg", "array", 0, *self.diag)))

        def rcs(e, st, c):
            rows = [e.ref(e.new_cell(st, mk("agg", "array", 0, *[self.rc(r, i) for i in range(n)]))) for r, n in enumerate(self.rows)]
            return e.ref(e.new_cell(st, mk("agg", "array", 0, *rows)))
        return {"T": Int(self.T), "D": Int(self.D), "CAPACITY": Int(self.cap), "ROUNDS_F": Int(self.RF), "ROUNDS_P": Int(self.RP),
                "MAT_INTERNAL_DIAG_M_1": diag, "ROUND_CONSTANTS": rcs}


def sym_inst(T, D, cap, RF, RP):
    """an instance with arbitrary matrix and constants"""
    return Inst(f"T={T},D={D},F={RF},P={RP}", T, D, cap, RF, RP, [fatom(f"diag[{i}]") for i in range(T)], [T] * (RF + RP))


def struct_fields(u):
    """positions of the state, the mode and the index in the sponge"""
    return None


class Sponge:
    """value of a Poseidon2 struct: found by field type"""

    def __init__(self, u, I):
        self.u, self.I = u, I
        b = fbody(u, PS + "new")
        c = Case(u.R, u.P, b, None, consts=I.consts(), cls=Perm, reset=False)
        self.v0 = c.outs[0].ret if len(c.outs) == 1 and not c.panics else None
        self.c = c
        v = self.v0
        if v is None or v.op != "agg":
            raise Unsupported("initial sponge")
        self.si = self.mi = self.ii = None
        for k, x in enumerate(v.a):
            if not isinstance(x, Term):
                continue
            if x.op == "ref":
                self.si = k
            elif isint(x):
                self.ii = k
            elif x.op == "agg" and isinstance(x.a[0], int):
                t = c.eng.T[x.a[0]]
                if t.get("path") == "poseidon2::Mode":
                    self.mi = k
        if None in (self.si, self.mi, self.ii):
            raise Unsupported("sponge layout")

    def make(self, eng, st, state, mode, index):
        v = list(self.v0.a)
        v[self.si] = eng.ref(eng.new_cell(st, mk("agg", "array", 0, *state)))
        v[self.mi] = mk("agg", v[self.mi].a[0], mode)
        v[self.ii] = Int(index)
        return mk("agg", *v)

    def parts(self, eng, st, v):
        m = v.a[self.mi]
        return list(eng.deref_all(st, v.a[self.si]).a[2:]), m.a[1], v.a[self.ii]


def perm_rules(u, I):
    R = u.R
    RG.reset()
    try:
        sp = Sponge(u, I)
    except Unsupported as e:
        R.undecided.append(f"{I.name}: {e}")
        return
    ins = [fatom(f"s{i}") for i in range(I.T)]

    def args(eng, st, body):
        return [eng.ref(eng.new_cell(st, sp.make(eng, st, [fatom(f"s{i}") for i in range(I.T)], 0, I.cap)))]

    def f(o, c):
        o.never()
        if c.eng.wraps:
            R.undecided.append(f"{o.what}: {I.name}: {c.eng.wraps[0]}")
        want = spec_permute(I, ins)
        for x in c.outs:
            got, mode, ix = sp.parts(o.c.eng, x.st, x.muts[0])
            R.obligation(f"{o.what} [{I.name}]: state size kept")
            if len(got) != I.T:
                R.violation(f"{o.what}:size", f"{o.what} ({I.name}): the state has {len(got)} elements")
                continue
            for i, (a, b) in enumerate(zip(got, want)):
                R.obligation(f"{o.what} [{I.name}]: element {i} of the permuted state")
                if a is not b and P0(isub(a, b)):
                    w = poly_witness(isub(a, b))
                    if w:
                        R.violation(f"{o.what}:permute", f"{o.what} ({I.name}): element {i} differs from the specified permutation at {w}")
                    else:
                        R.undecided.append(f"{o.what}: {I.name}: element {i} not established")
                    break
    u.case(PS + "permute", f, cls=Perm, args=args, consts=I.consts())


def poly_witness(d, q=(1 << 61) - 1):
    """point of a large prime field where d is not zero"""
    import random
    rnd = random.Random(3)
    memo = {}

    def e(t):
        if t in memo:
            return memo[t]
        if t.op == "int":
            v = t.a[0] % q
        elif t.op == "poly":
            v = 0
            for m, c in t.a[1]:
                w = c % q
                for x in m:
                    w = w * e(x) % q
                v += w
            v %= q
        elif t.op == "app" and t.a[0] == "pow":
            v = pow(e(t.a[1]), t.a[2].a[0], q)
        elif t.op == "sym":
            v = rnd.randrange(q)
        else:
            raise NoVal(t.op)
        memo[t] = v
        return v
    try:
        if e(d):
            return {show(k)[:20]: v for k, v in list(memo.items()) if k.op == "sym"} if len(memo) < 12 else {"field": q, "seed": 3}
    except NoVal:
        pass
    return None


def sponge_rules(u, I):
    """absorbing and squeezing, one step from every position"""
    R = u.R
    RG.reset()
    try:
        sp = Sponge(u, I)
    except Unsupported as e:
        R.undecided.append(f"{I.name}: {e}")
        return
    st0, mode0, ix0 = sp.parts(sp.c.eng, sp.c.outs[0].st, sp.v0)
    R.obligation(f"new [{I.name}]: zero state, absorbing, after the capacity")
    if len(st0) != I.T or any(P0(x) for x in st0) or mode0 != 0 or cint(ix0) != I.cap:
        R.violation(PS + "new:init", f"{PS}new ({I.name}): initial sponge is {show(sp.v0)[:120]}")
        return
    ins = [fatom(f"s{i}") for i in range(I.T)]
    calls = []

    def permute(e, st, f, a, d):
        v = e.v(st, a[0])
        s, m, i = sp.parts(e, st, v)
        e.store(st, v.a[sp.si], mk("agg", "array", 0, *P(s)))
        return [(st, UNIT)]

    def P(s):
        key = tuple(s)
        if key not in calls:
            calls.append(key)
        return [fatom(f"perm{calls.index(key)}[{j}]") for j in range(I.T)]

    def absorb(S, x):
        s, m, i = S
        if m == 1:
            return None
        if i == I.T:
            s, i = P(s), I.cap
        s = list(s)
        s[i] = iadd(s[i], x)
        return s, m, i + 1

    def squeeze(S):
        s, m, i = S
        if m == 0 or i == I.T:
            s, m, i = P(s), 1, I.cap
        return s[i], (list(s), m, i + 1)

    def same(o, x, S, what):
        got, m, i = sp.parts(o.c.eng, x.st, x.muts[0])
        R.obligation(f"{o.what} [{I.name}]: {what}")
        bad = None
        if len(got) != len(S[0]) or any(P0(isub(a, b)) for a, b in zip(got, S[0])):
            bad = "the state differs"
        elif m != S[1]:
            bad = "the mode differs"
        elif not isint(i) or cint(i) != S[2]:
            bad = "the position differs"
        if bad:
            if calls and len(calls) > 40:
                R.undecided.append(f"{o.what}: {what}")
            else:
                R.violation(f"{o.what}:sponge", f"{o.what} ({I.name}): {what}: {bad}: {show(x.muts[0])[:160]}")

    C = {PS + "permute": permute}
    cs = I.consts()
    for mode in (0, 1):
        for ix in range(I.cap, I.T + 1):
            S = (ins, mode, ix)

            def arg1(eng, st, body, extra=None):
                out = [eng.ref(eng.new_cell(st, sp.make(eng, st, [fatom(f"s{i}") for i in range(I.T)], mode, ix)))]
                if body["argc"] == 2:
                    out.append(extra(eng, st) if extra else eng.ref(eng.new_cell(st, fatom("elem"))))
                return out
            where = f"{('absorbing', 'squeezing')[mode]} at {ix}"

            def ab(o, c):
                want = absorb(S, fatom("elem"))
                if want is None:
                    R.obligation(f"{o.what} [{I.name}]: absorbing after squeezing is refused")
                    if c.outs:
                        R.violation(f"{o.what}:mode", f"{o.what} ({I.name}): absorbs while {where}")
                    return
                o.never()
                for x in c.outs:
                    same(o, x, want, where)
            u.case(PS + "absorb", ab, cls=Perm, args=arg1, consts=cs, contracts=C)

            def sq(o, c):
                o.never()
                e, want = squeeze(S)
                for x in c.outs:
                    same(o, x, want, where)
                    R.obligation(f"{o.what} [{I.name}]: {where}: output")
                    if not isint(x.ret) or P0(isub(x.ret, e)):
                        R.violation(f"{o.what}:output", f"{o.what} ({I.name}): squeezes {show(x.ret)[:60]} instead of {show(e)} when {where}")
            u.case(PS + "squeeze", sq, cls=Perm, args=arg1, consts=cs, contracts=C)

            for n in (0, 1, 2, I.T - I.cap + 1) + ((300,) if ix == I.cap and I.T == 3 else ()):
                def abb(o, c, n=n):
                    W = S
                    for k in range(n):
                        W = absorb(W, fatom(f"e{k}")) if W else None
                    if W is None:
                        R.obligation(f"{o.what} [{I.name}]: absorbing after squeezing is refused")
                        if c.outs:
                            R.violation(f"{o.what}:mode", f"{o.what} ({I.name}): absorbs {n} elements while {where}")
                        return
                    o.never()
                    for x in c.outs:
                        same(o, x, W, f"{n} elements, {where}")
                u.case(PS + "absorb_batch", abb, cls=Perm, consts=cs, contracts=C,
                       args=lambda eng, st, body, n=n: arg1(eng, st, body, lambda e, s: e.ref(e.new_cell(s, mk("agg", "array", 0, *[fatom(f"e{k}") for k in range(n)])))))

                def sqb(o, c, n=n):
                    o.never()
                    W, outs = S, []
                    for k in range(n):
                        e, W = squeeze(W)
                        outs.append(e)
                    for x in c.outs:
                        same(o, x, W, f"{n} outputs, {where}")
                        v = seq(x.ret)
                        R.obligation(f"{o.what} [{I.name}]: outputs in order")
                        if v is None:
                            R.undecided.append(f"{o.what}: {show(x.ret)[:80]}")
                        elif len(v) != n or any(not isint(a) or P0(isub(a, b)) for a, b in zip(v, outs)):
                            R.violation(f"{o.what}:output", f"{o.what} ({I.name}): {n} outputs are {[show(a)[:20] for a in v]}, {where}")
                u.case(PS + "squeeze_batch", sqb, cls=Perm, consts=cs, contracts=C, args=lambda eng, st, body, n=n: arg1(eng, st, body, lambda e, s: Int(n)))


def seq(v):
    if v.op == "agg" and v.a[0] == "array":
        return list(v.a[2:])
    return None


# ------------------------------------------------------------ shipped instances

def shipped(R, P):
    ins = {}
    for c in P.consts.values():
        if "poseidon2::params::PoseidonParams<" in (c.get("trait") or ""):
            ins.setdefault(c["self"], {})[c["name"]] = c
    mods = {}
    for c in P.consts.values():
        if "field::fp::FpParams<" in (c.get("trait") or "") and c["name"] == "MODULUS":
            mods[c["self"]] = (cint_of(c["val"]), len(c["val"]["f"][0]["arr"]))
    out = []
    R.obligation("shipped Poseidon2 instances found")
    if len(ins) < 8:
        R.undecided.append(f"only {len(ins)} shipped Poseidon2 instances found")
    for s, cs in sorted(ins.items()):
        nm = s.split("::")[-1]
        loc = next(iter(cs.values()))
        fld = next((m for m in mods if m in loc["trait"]), None)
        try:
            T, D, cap, RF, RP = (int(cs[k]["val"]["i"]) for k in ("T", "D", "CAPACITY", "ROUNDS_F", "ROUNDS_P"))
            p, n = mods[fld]
            inv = pow(1 << (64 * n), -1, p)
            diag = [cint_of(x) for x in slice_of(cs["MAT_INTERNAL_DIAG_M_1"]["val"])]
            rows = [[cint_of(x) for x in slice_of(r)] for r in slice_of(cs["ROUND_CONSTANTS"]["val"])]
        except (KeyError, TypeError, ValueError):
            R.undecided.append(f"{s}: constants not evaluated")
            continue

        def need(ok, key, msg):
            R.obligation(f"{s}: {msg}")
            if not ok:
                R.violation(f"{s}:{key}", f"{s}: {msg} does not hold ({cs[key]['file']}:{cs[key]['line']})")
        from math import gcd
        need(T in (2, 3, 4, 8, 12, 16, 20, 24), "T", "the state size is a supported one")
        need(0 <= cap < T, "CAPACITY", "the capacity leaves a rate")
        need(cap >= 1, "CAPACITY", "part of the state is capacity")
        need(gcd(D, p - 1) == 1 and D > 1, "D", "the S-box is a permutation of the field")
        need(RF % 2 == 0 and RF > 0, "ROUNDS_F", "external rounds split evenly")
        need(len(rows) == RF + RP, "ROUND_CONSTANTS", "one row of constants per round")
        h = RF // 2
        need(all(len(r) >= (1 if h <= k < h + RP else T) for k, r in enumerate(rows)), "ROUND_CONSTANTS", "rows are as long as the state they are added to")
        need(T < 4 or len(diag) == T, "MAT_INTERNAL_DIAG_M_1", "one diagonal entry per state element")
        need(all(x < p for r in rows for x in r), "ROUND_CONSTANTS", "constants are canonical")
        need(all(x < p for x in diag), "MAT_INTERNAL_DIAG_M_1", "diagonal entries are canonical")
        dd = [x * inv % p for x in diag]
        d2 = {2: [1, 2], 3: [1, 1, 2]}.get(T, dd)
        mat = [[(1 + (d2[i] if i == j else 0)) % p for j in range(len(d2))] for i in range(len(d2))]
        need(det(mat, p) != 0, "MAT_INTERNAL_DIAG_M_1", "the internal layer is invertible")
        if T in (2, 3) and diag:
            need([x % p for x in dd] == d2, "MAT_INTERNAL_DIAG_M_1", "the declared diagonal is the one the internal layer uses")
        out.append(Inst(nm, T, D, cap, RF, RP, [Int(x) for x in dd], [len(r) for r in rows]))
    return out


def slice_of(v):
    while "ref" in v:
        v = v["ref"]
    return v["arr"]


def det(m, p):
    m = [r[:] for r in m]
    d = 1
    for i in range(len(m)):
        k = next((k for k in range(i, len(m)) if m[k][i] % p), None)
        if k is None:
            return 0
        if k != i:
            m[i], m[k] = m[k], m[i]
            d = -d
        d = d * m[i][i] % p
        iv = pow(m[i][i], -1, p)
        for k in range(i + 1, len(m)):
            f = m[k][i] * iv % p
            if f:
                m[k] = [(a - f * b) % p for a, b in zip(m[k], m[i])]
    return d % p


def p_poseidon(R, tier="quick"):
    u = Cv(R)
    for I in shipped(R, u.P):
        perm_rules(u, I)
        sponge_rules(u, I)
    for T in (2, 3, 4, 8, 12, 16, 20, 24):
        RG.reset()
        perm_rules(u, sym_inst(T, 5, 1, 2, 1) if T > 4 else sym_inst(T, 5, 1, 4, 2))
