"""Prime field elements (Montgomery form): every operation is the field
operation on canonical representatives, for every modulus and element (P33)."""
from .uintr import *          # noqa
from engine import ring as RG

FP = "field::fp::Fp::<P, N>::"
W64 = 1 << 64


def big(v):
    return val(v)


# ------------------------------------------------------------ Montgomery reduction on limbs

def mont_consts(n):
    """MODULUS = p0 + 2^64 p1 + ..., INV = k with k*p0 = -1 + 2^64 c"""
    ps = []
    for i in range(n):
        x = mk("sym", f"p[{i}]", 0)
        RG.RNG[x] = (0, W64 - 1)
        WID[x] = 64
        ps.append(x)
    inv = mk("sym", "inv", 0)
    RG.RNG[inv] = (0, W64 - 1)
    WID[inv] = 64
    return ps, inv


def reduce_inv(d, ps, inv, k=64):
    """polynomial modulo 2^k with inv*p0 = -1"""
    out = {}
    for m, c in d.items():
        m = list(m)
        while inv in m and ps[0] in m:
            m.remove(inv)
            m.remove(ps[0])
            c = -c
        m = tuple(m)
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c % (1 << k)}


def congruent0(p, ps, inv, k=64, depth=0):
    """p = 0 mod 2^k, rewriting remainders modulo 2^j (j >= k) by what they are congruent to"""
    d = P0(p)
    for _ in range(60):
        nd = {}
        ch = False
        for m, c in d.items():
            x = next((x for x in m if x.op == "rr" and RG.DEF[x][2] >= k), None)
            if x is None:
                nd[m] = nd.get(m, 0) + c
                continue
            ch = True
            rest = list(m)
            rest.remove(x)
            for m2, c2 in P0(RG.DEF[x][1]).items():
                mm = tuple(sorted(rest + list(m2), key=lambda y: y.id))
                nd[mm] = nd.get(mm, 0) + c * c2
        d = reduce_inv(nd, ps, inv, k)
        if not ch:
            break
    return not d


def limb_remainders(case):
    return list(RG._R.items())


def mont_rules(u, ns):
    R = u.R
    for n in ns:
        def mk_case(path, f):
            b = body_of(u.P, path)
            if b is None:
                R.undecided.append(f"{path}: not found")
                return
            holder = {}

            def mod(eng, st, c):
                ps, inv = holder["c"]
                t = c.get("ty")
                return agg(t, 0, agg("array", 0, *ps))

            def args(eng, st, body):
                holder["c"] = mont_consts(n)
                return [eng.fresh(st, body["locals"][k], f"a{k - 1}") for k in range(1, body["argc"] + 1)]
            u.case(b, n, lambda o, c: f(o, c, *holder["c"]), args=args, consts={"MODULUS": mod, "INV": lambda e, s, c: holder["c"][1]})

        def finish(o, c, st, out, T, ps, inv):
            """R*out - T is a multiple of the modulus, by an integer in [0, R)"""
            Rn = 1 << (64 * n)
            p = ZERO
            for i, x in enumerate(ps):
                p = iadd(p, imul(Int(1 << (64 * i)), x))
            e = isub(imul(Int(Rn), out), T)
            # discarded low limbs: remainders that are multiples of 2^64
            pin = {}
            for (d, k), r in list(RG._R.items()):
                if k == 64 and congruent0(d, ps, inv):
                    pin[r] = 0
            res = RG.expand(e, pin)
            # m = sum 2^(64 i) k_i with k_i = low(limb_i * inv): every monomial carries one modulus limb
            m = {}
            for mm, cc in res.items():
                if mm.count(ps[0]) if isinstance(mm, list) else ps[0] in mm:
                    rest = list(mm)
                    rest.remove(ps[0])
                    m[tuple(rest)] = m.get(tuple(rest), 0) + cc
            R.obligation(f"{o.what}[N={n}]: R*out - T is a multiple of the modulus")
            chk = dict(res)
            for rest, cc in m.items():
                for i, x in enumerate(ps):
                    k2 = tuple(sorted(list(rest) + [x], key=lambda y: y.id))
                    chk[k2] = chk.get(k2, 0) - cc * (1 << (64 * i))
            chk = {a: b for a, b in chk.items() if b}
            if chk:
                bad = mont_bad(o, c, st, out, T, ps, inv, n)
                if bad is None:
                    R.undecided.append(f"{o.what}:reduce N={n}: residue {show_res(chk)[:200]}")
                else:
                    R.violation(f"{o.what}:reduce", f"{o.what} (N={n}): R*out - T is not a multiple of the modulus at {bad}")
                return
            R.obligation(f"{o.what}[N={n}]: the multiplier lies in [0, R)")
            okm = True
            seen = {}
            for rest, cc in m.items():
                if len(rest) != 1 or not RG.arng(rest[0]) or RG.arng(rest[0]) != (0, W64 - 1) or cc.denominator != 1 or cc <= 0:
                    okm = False
                    break
                seen[cc] = rest[0]
            if not okm or sorted(seen) != [1 << (64 * i) for i in range(n)]:
                R.undecided.append(f"{o.what}: N={n}: multiplier shape {show_res(m)[:160]}")

        def wide(o, c, ps, inv):
            o.never()
            for x in c.outs:
                lo, hi = c.in_
                T = iadd(val(lo), imul(Int(1 << (64 * n)), val(hi)))
                cr, res = x.ret.a[2], x.ret.a[3]
                out = iadd(val(res), imul(Int(1 << (64 * n)), b2i(cr)))
                finish(o, c, x.st, out, T, ps, inv)

        def short(o, c, ps, inv):
            o.never()
            for x in c.outs:
                a = c.in_[0]
                finish(o, c, x.st, val(x.ret), val(a.a[2]), ps, inv)
        mk_case(FP + "widening_montgomery_reduction", wide)
        mk_case(FP + "montgomery_reduction", short)


def mont_bad(o, c, st, out, T, ps, inv, n):
    """an assignment where R*out - T is not a multiple of the modulus"""
    import random
    rnd = random.Random(5)
    xs = [x for x in leaves([out, T]) if x not in ps and x is not inv]
    for _ in range(300):
        env = {}
        pv = [rnd.choice([W64 - 1, rnd.getrandbits(64), 1, 0]) for _ in range(n)]
        pv[0] |= 1
        pv[-1] = pv[-1] or 1
        for x, v in zip(ps, pv):
            env[x] = v
        env[inv] = (-pow(pv[0], -1, W64)) % W64
        p = sum(v << (64 * i) for i, v in enumerate(pv))
        for x in xs:
            env[x] = rnd.choice([0, 1, W64 - 1, rnd.getrandbits(64), rnd.getrandbits(64)])
        try:
            if not all(bool(ev(f, env)) == v for f, v in st.order):
                continue
            t = ev(T, env)
            if t >= p << (64 * n):
                continue
            if (ev(out, env) * (1 << (64 * n)) - t) % p:
                return {"T": hex(t), "p": hex(p)}
        except NoVal:
            return None
    return None


# ------------------------------------------------------------ contracts on whole integers

def quot(e, st, v, M):
    """[(state, v - q*2^M, q)] over the possible quotients of v by 2^M"""
    r = RG.rng(v)
    if r is None:
        raise Unsupported("quotient range")
    lo, hi = r[0] >> M, r[1] >> M
    out = []
    rest = [st]
    for q in range(hi, lo, -1):
        nr = []
        for s in rest:
            for s2, b in e.branch(s, Not(iLt(v, Int(q << M)))):
                if b:
                    out.append((s2, isub(v, Int(q << M)), q))
                else:
                    nr.append(s2)
        rest = nr
    out += [(s, isub(v, Int(lo << M)), lo) for s in rest]
    return out


def halved(v, M):
    """floor(v/2) of an N-limb value (0 <= v < 2^M wherever it is one)"""
    r = high(v, 1)
    for m in P0(r):
        for x in m:
            if x.op == "qq" and len(P0(r)) == 1:
                RG.RNG[x] = (0, (1 << (M - 1)) - 1)
    return r


def uint_contracts(n):
    """operations on N-limb integers as integer operations (decided by P32)"""
    M = 64 * n

    def V(e, st, a):
        return e.deref_all(st, a) if a.op == "ref" else a

    def num(e, st, a):
        v = V(e, st, a)
        v = val(v)
        if not isint(v):
            raise Unsupported("abstract integer " + show(v)[:60])
        return v

    C = {}

    def reg(name):
        def d(f):
            C[U + name] = f
            return f
        return d

    def boolop(f):
        return lambda e, st, fn, a, d: [(st, f(num(e, st, a[0]), num(e, st, a[1])))]
    C[U + "ct_ge"] = boolop(lambda a, b: Not(iLt(a, b)))
    C[U + "ct_gt"] = boolop(lambda a, b: iLt(b, a))
    C[U + "ct_le"] = boolop(lambda a, b: Not(iLt(b, a)))
    C[U + "ct_lt"] = boolop(lambda a, b: iLt(a, b))
    C[U + "ct_eq"] = boolop(iEq)
    C[U + "ct_ne"] = boolop(lambda a, b: Not(iEq(a, b)))
    zero = lambda e, st, fn, a, d: [(st, iEq(num(e, st, a[0]), ZERO))]
    C[U + "ct_is_zero"] = C[BI + "is_zero"] = zero
    C[U + "ct_is_odd"] = C[BI + "is_odd"] = lambda e, st, fn, a, d: [(st, Not(iEq(low(num(e, st, a[0]), 1), ZERO)))]
    C[U + "ct_is_even"] = C[BI + "is_even"] = lambda e, st, fn, a, d: [(st, iEq(low(num(e, st, a[0]), 1), ZERO))]

    def out2(f):
        def h(e, st, fn, a, d):
            return [(s, tup(v, Bool(q != 0))) for s, v, q in quot(e, st, f(e, st, a), M)]
        return h
    C[U + "ct_checked_add"] = out2(lambda e, st, a: iadd(num(e, st, a[0]), num(e, st, a[1])))
    C[U + "ct_checked_sub"] = out2(lambda e, st, a: isub(num(e, st, a[0]), num(e, st, a[1])))
    C[U + "ct_checked_mul2"] = out2(lambda e, st, a: imul(Int(2), num(e, st, a[0])))

    def adc(e, st, fn, a, d):
        v = iadd(iadd(num(e, st, a[0]), num(e, st, a[1])), num(e, st, a[2]))
        return [(s, tup(w, Int(q))) for s, w, q in quot(e, st, v, M)]
    C[U + "ct_adc"] = adc

    def assign(f):
        def h(e, st, fn, a, d):
            out = []
            for s, v, q in quot(e, st, f(e, st, a), M):
                e.store(s, a[0], v)
                out.append((s, Bool(q != 0)))
            return out
        return h
    C[U + "checked_add_assign"] = assign(lambda e, st, a: iadd(num(e, st, a[0]), num(e, st, a[1])))
    C[U + "checked_sub_assign"] = assign(lambda e, st, a: isub(num(e, st, a[0]), num(e, st, a[1])))
    C[U + "checked_mul2_assign"] = assign(lambda e, st, a: imul(Int(2), num(e, st, a[0])))
    wrapv = lambda f: (lambda e, st, fn, a, d: [(s, v) for s, v, q in quot(e, st, f(num(e, st, a[0]), num(e, st, a[1])), M)])
    C[U + "ct_wrapping_add"] = wrapv(iadd)
    C[U + "ct_wrapping_sub"] = wrapv(isub)

    def half(e, st, fn, a, d):
        e.store(st, a[0], halved(num(e, st, a[0]), M))
        return [(st, UNIT)]
    C[U + "div2_assign"] = half

    def wmul(e, st, fn, a, d):
        v = imul(num(e, st, a[0]), num(e, st, a[1]))
        return [(st, tup(low(v, M), high(v, M)))]
    C[U + "ct_widening_mul"] = wmul

    def frm(e, st, fn, a, d):
        v = num(e, st, a[0])
        if n == 1 and not RG.fits(v, 64):
            raise Unsupported("from_u128 into one limb")
        return [(st, v)]
    for t in ("u8", "u16", "u32", "u64", "usize", "u128"):
        C[U + "from_" + t] = frm
        C[f"<arithmetic::uint::Uint<N> as core::convert::From<{t}>>::from"] = frm
    return C


class FInterp(CInterp):
    """field level: one number per multi-limb integer; loops cut at their heads"""
    fctx = None

    def do_loop(self, body, fid, H, st):
        old = getattr(self, "cutb", None)
        self.cutb = (fid, body)
        try:
            return super().do_loop(body, fid, H, st)
        finally:
            self.cutb = old

    def celltype(self, cell):
        fp = False
        while len(cell) == 3:
            fp = fp or cell[2]
            cell = cell[0]
        if cell[0] == self.cutb[0] and isinstance(cell[1], int):
            t = self.T[self.cutb[1]["locals"][cell[1]]]
            return ("fp" if fp or t.get("path") == "field::fp::Fp" else "uint" if t.get("path") in self.BIG else "int" if t["k"] == "int" else "?"), cell
        return ("fp" if fp else "?"), cell

    def loop_atom(self, cell, v, tag):
        k, root = self.celltype(cell)
        r = mk("sym", f"loop{tag[0]}:{root[1]}:{k}", 0)
        if k == "int":
            RG.RNG[r] = (0, (1 << 64) - 1)
            WID[r] = 64
        elif k in ("uint", "fp"):
            RG.RNG[r] = (0, (1 << (64 * self.n)) - 1)
            if k == "fp" and self.fctx is not None:
                inv = isub(isub(self.fctx.p, ONE), r)
                if inv not in CState.BASE:
                    CState.BASE.append(inv)
        else:
            raise Unsupported("loop-carried value of unknown type")
        return r


class Field:
    """analysis context: modulus p = 2h + 1 in the chosen size class"""

    def __init__(self, u, n, spare):
        self.u, self.n, self.spare = u, n, spare
        self.M = 1 << (64 * n)
        self.defs = {}      # Montgomery quotient atom -> T

    def start(self):
        RG.reset()
        n = self.n
        h = mk("sym", "h", 0)
        lo, hi = (1, (1 << (64 * n - 2)) - 1) if self.spare else (1 << (64 * n - 2), (1 << (64 * n - 1)) - 1)
        RG.RNG[h] = (lo, hi)
        self.h = h
        self.p = iadd(imul(Int(2), h), ONE)
        self.defs = {}
        self.r = mk("sym", "R mod p", 0)
        self.r2 = mk("sym", "R2 mod p", 0)
        for x in (self.r, self.r2):
            RG.RNG[x] = (0, self.M - 1)
        self.base = [isub(isub(self.p, ONE), self.r), isub(isub(self.p, ONE), self.r2)]

    def elem(self, name):
        x = mk("sym", name, 0)
        RG.RNG[x] = (0, self.M - 1)
        self.base.append(isub(isub(self.p, ONE), x))
        return x

    def num(self, name):
        x = mk("sym", name, 0)
        RG.RNG[x] = (0, self.M - 1)
        return x

    def mont(self, e, st, T, limit=None):
        """a number w in [0, limit) with R*w = T (mod p)"""
        for a, t in self.defs.items():
            if t is T:
                return a
        w = mk("sym", f"mont({show(T)[:60]})", len(self.defs))
        RG.RNG[w] = (0, 2 * self.M)
        self.defs[w] = T
        CState.BASE.append(isub(isub(imul(Int(2), self.p), ONE), w))
        return w

    def contracts(self):
        C = uint_contracts(self.n)
        F_ = self

        def wred(e, st, fn, a, d):
            lo, hi = (val(e.deref_all(st, x) if x.op == "ref" else x) for x in a)
            T = self.whole(lo, hi)
            e.mont_pre.append((st, T))
            w = F_.mont(e, st, T)
            return [(s, tup(Bool(q != 0), v)) for s, v, q in quot(e, st, w, 64 * F_.n)]
        C[FP + "widening_montgomery_reduction"] = wred

        def sred(e, st, fn, a, d):
            v = e.deref_all(st, a[0]) if a[0].op == "ref" else a[0]
            T = v.a[2]
            w = F_.mont(e, st, T)
            CState.BASE.append(isub(isub(F_.p, ONE), w))   # T < p gives w < p
            e.mont_short.append((st, T))
            return [(st, w)]
        C[FP + "montgomery_reduction"] = sred
        return C

    def whole(self, lo, hi):
        d = RG.expand(iadd(lo, imul(Int(self.M), hi)))
        if any(c.denominator != 1 for c in d.values()):
            raise Unsupported("double-width value")
        return from_poly({m: int(c) for m, c in d.items()}, 0)

    def consts(self):
        def mod(e, st, c):
            return self.p
        return {"MODULUS": lambda e, st, c: self.p, "R": lambda e, st, c: self.r, "R2": lambda e, st, c: self.r2,
                "HAS_MODULUS_SPARE_BIT": lambda e, st, c: Bool(self.spare), "INV": lambda e, st, c: mk("sym", "inv", 0)}


def fp_val(v):
    """the representative stored in an Fp"""
    return v.a[2] if v.op == "agg" else v


def default_methods(u, trait):
    """calls to a provided method of `trait` run its default body"""
    out = {}
    for b in bodies(u.P, lambda b: b["path"].startswith(trait + "::") and b["path"].count("::") == trait.count("::") + 1):
        if b["argc"] == 0 and b["name"] not in ("characteristic",):
            b = next((x for x in u.P.bodies.values() if x["path"] == b["path"] and x["argc"] > 0), b)

        def h(e, st, f, a, d, b=b):
            return e.exec_fn(st, b, a)
        out[b["path"]] = h
    return out


def fbody(u, path):
    """body of a function by path (the entry with its parameters)"""
    c = [b for b in u.P.bodies.values() if b["path"] == path and "#" not in b["key"].split("@")[0].split("[")[0]]
    c.sort(key=lambda b: (b["root"] != b["path"], b["key"]))
    return c[0] if c else None


class FOb(Ob):
    """obligations modulo the field characteristic"""

    def __init__(self, R, case, what, F_):
        super().__init__(R, case, what)
        self.F = F_

    def canon(self, st, v, key="range"):
        self.nonneg(st, isub(isub(self.F.p, ONE), v), key, "the result is reduced below the modulus")

    def congr(self, st, v, want, key, msg):
        """v = want (mod p)"""
        self.R.obligation(f"{self.what}[{self.cfg()}]: {msg}")
        last = None
        for k in (0, 1, -1, 2, -2):
            e = isub(isub(v, want), imul(Int(k), self.F.p))
            r = identity(st, e)
            if not r:
                return True
            if last is None or len(r) < len(last):
                last = r
        F_ = self.F
        self.fail(st, key, msg, Bad([v, want], lambda en: (ev(v, en) - ev(want, en)) % ev(F_.p, en) != 0), show_res(last)[:200])
        return False

    def cfg(self):
        return f"N={self.c.n}, {'spare bit' if self.F.spare else 'full width'}"

    def fail(self, st, key, msg, bad, res=""):
        w = self.F.witness(st, bad) if bad is not None else {}
        if w is None:
            self.R.undecided.append(f"{self.what}:{key} ({self.cfg()}): {msg}: not established {res}")
        else:
            at = ", ".join(f"{k}={v}" for k, v in list(w.items())[:8])
            self.R.violation(f"{self.what}:{key}", f"{self.what} ({self.cfg()}): {msg} fails" + (f" at {at}" if at else "") + (f"; residue {res}" if res else ""))


def fwitness(self, st, bad, tries=1500):
    import random
    rnd = random.Random(11)
    facts = list(st.order)
    base = list(CState.BASE)
    xs = [x for x in leaves([c for c, _ in facts] + list(bad.terms) + base + [isub(ZERO, t) for t in self.defs.values()])]
    lo, hi = RG.RNG[self.h]
    for n in range(tries):
        env = {}
        h = rnd.choice([lo, hi, lo + 1, hi - 1, rnd.randint(lo, hi), rnd.randint(lo, min(hi, lo + 40))])
        env[self.h] = h
        p = 2 * h + 1
        env[self.r], env[self.r2] = self.M % p, self.M * self.M % p
        for x in xs:
            if x in env or x in self.defs:
                continue
            a, b = RG.arng(x) or (0, 1)
            b2 = min(b, p - 1) if b == self.M - 1 and x not in self.free else b
            v = rnd.choice([a, b2, a + 1 if a < b2 else a, b2 - 1 if b2 > a else a, (a + b2) // 2, rnd.randint(a, b2), rnd.randint(a, b2)])
            env[x] = v if RG.RNG.get(x) is not None or WID.get(x) is not None else bool(v)
        try:
            for w, T in self.defs.items():
                t = ev(T, env)
                v = t * pow(self.M, -1, p) % p
                env[w] = v + (p if rnd.random() < .5 and t + p * (self.M - 1) >= self.M * (v + p) else 0)
            if not all(bool(ev(c, env)) == q for c, q in facts):
                continue
            if not all(ev(b, env) >= 0 for b in base):
                continue
            if bad(env):
                d = {show(x)[:30]: env[x] for x in xs if x not in self.defs}
                d["p"] = p
                return d
        except (NoVal, ValueError, ZeroDivisionError):
            return None
    return None


Field.witness = fwitness
Field.free = ()


class FpRules:
    def __init__(self, u, n, spare):
        self.u, self.R, self.n, self.spare = u, u.R, n, spare

    def case(self, path, f, nargs, kinds, extra_contracts=None, consts=None, cls=None, pre=None):
        """kinds: 'e' canonical element, 'u' any integer of the width, per argument; Fp/Uint, by value or reference"""
        u, R = self.u, self.R
        b = fbody(u, path) if isinstance(path, str) else path
        if b is None:
            R.undecided.append(f"{path}: not found")
            return
        name = b["path"]
        F_ = Field(u, self.n, self.spare)
        F_.start()
        F_.free = set()

        def args(eng, st, body):
            eng.mont_pre, eng.mont_short = [], []
            out = []
            vals = []
            for k, kd in zip(range(1, body["argc"] + 1), kinds):
                ty = body["locals"][k]
                x = F_.elem(f"a{k - 1}") if kd == "e" else F_.num(f"a{k - 1}")
                if kd == "u":
                    F_.free.add(x)
                vals.append(x)
                out.append(self.wrap(eng, st, ty, x))
            F_.in_ = vals
            CState.BASE = list(F_.base)
            return out
        C = F_.contracts()
        C.update(default_methods(u, "field::fp::FpParams"))
        C.update(extra_contracts(F_) if extra_contracts else {})
        cs = F_.consts()
        cs.update(consts(F_) if consts else {})
        try:
            c = Case(R, u.P, b, self.n, consts=cs, contracts=C, args=args, absuint=True, cls=cls or FInterp, reset=False)
        except (Unsupported, Budget, RecursionError) as e:
            R.undecided.append(f"{name} ({self.n},{self.spare}): {type(e).__name__} {e}")
            return
        R.cases += 1
        o = FOb(R, c, name, F_)
        un = [x for x in c.eng.unmodelled if not x.startswith("core::fmt::")]
        if un:
            R.undecided.append(f"{name}: unmodelled {un[:3]}")
            return
        try:
            o.nowrap()
            self.mont_ok(o, c, F_)
            f(o, c, F_)
        except (Unsupported, Budget, RecursionError, IndexError, AttributeError) as e:
            R.undecided.append(f"{name} ({self.n},{self.spare}): {type(e).__name__} {e}")

    def wrap(self, eng, st, ty, x):
        t = eng.T[ty]
        if t["k"] in ("ref", "ptr"):
            return eng.ref(eng.new_cell(st, self.wrap(eng, st, t["to"], x)))
        if t.get("path") == "field::fp::Fp":
            fs = t["variants"][0]["f"]
            return agg(ty, 0, *[x if eng.T[i].get("path") in eng.BIG else UNIT for _, i in fs])
        if t.get("path") in eng.BIG:
            return x
        raise Unsupported("argument type " + t["s"])

    def mont_ok(self, o, c, F_):
        """arguments of every reduction stay below R*p (short form: below p)"""
        for st, T in c.eng.mont_pre:
            o.R.obligation(f"{o.what}[{o.cfg()}]: product below R*p before the reduction")
            want = isub(isub(imul(Int(F_.M), F_.p), T), ONE)
            lin = []
            for x in F_.in_ + [F_.r, F_.r2]:
                lin += [x, isub(Int(F_.M - 1), x)]
            lin += [isub(isub(F_.p, ONE), x) for x in [F_.r, F_.r2]] + [b for b in F_.base]
            prods = []
            for i, a in enumerate(lin):
                for b in lin[i:] + [F_.p]:
                    prods.append(imul(a, b))
            ms = set(m for m in P0(want))
            prods = [p for p in prods if any(len(m) == 2 and m in ms for m in P0(p))] + [imul(F_.p, isub(Int(F_.M - 1), x)) for x in F_.in_ + [F_.r, F_.r2]]
            try:
                ok = entails_with(st, want, prods)
            except Unsupported:
                ok = False
            if not ok:
                o.fail(st, "product", "a product is below R*p before the reduction", Bad([want], lambda e: ev(want, e) < 0))
        for st, T in c.eng.mont_short:
            o.nonneg(st, isub(isub(F_.p, ONE), T), "short", "only reduced elements are converted by the short reduction")


def entails_with(st, p, extra):
    def bd(m):
        r = RG.rng(from_poly({m: 1}, 0))
        return r
    v = RG.lp_min(dict(P0(p)), [dict(P0(e)) for e in extra] + st.cons(), bd)
    return v is None or (v != "-inf" and v > -1)


def out_elem(x, mut):
    """representative in the mutated argument or the result"""
    v = x.muts[0] if mut else x.ret
    return fp_val(v)


def fp_rules(u, n, spare):
    Q = FpRules(u, n, spare)
    R = u.R
    FPP = "field::fp::FpParams::"

    def op(want, mut=True):
        def f(o, c, F_):
            o.never()
            for x in c.outs:
                v = out_elem(x, mut)
                o.canon(x.st, v)
                o.congr(x.st, v, want(*F_.in_), "value", "the result is the field operation on the arguments")
        return f

    def prod(T_of, mut=True, zero_ok=None):
        """result is the Montgomery quotient of T"""
        def f(o, c, F_):
            o.never()
            for x in c.outs:
                v = out_elem(x, mut)
                o.canon(x.st, v)
                T = T_of(F_, *F_.in_)
                w = next((a for a, t in F_.defs.items() if t is T), None)
                if w is None:
                    # paths that do not multiply: the product must vanish
                    if zero_ok is not None and identity(x.st, v) == {} and x.st.decide(iEq(zero_ok(F_), ZERO)) is True:
                        R.obligation("zero")
                        continue
                    F2 = F_
                    o.fail(x.st, "value", "the result is the Montgomery product of the arguments",
                           Bad([v, T], lambda e: (ev(v, e) * F2.M - ev(T, e)) % ev(F2.p, e) != 0))
                    continue
                if zero_ok is not None and identity(x.st, v) == {} and x.st.decide(iEq(zero_ok(F_), ZERO)) is True:
                    continue
                o.congr(x.st, v, w, "value", "the result is the Montgomery product of the arguments")
        return f

    Q.case(FPP + "add_assign", op(iadd), 2, "ee")
    Q.case(FPP + "sub_assign", op(isub), 2, "ee")
    Q.case(FPP + "double_in_place", op(lambda a: imul(Int(2), a)), 1, "e")
    Q.case(FPP + "neg_in_place", op(lambda a: isub(ZERO, a)), 1, "e")
    Q.case(FPP + "mul_assign", prod(lambda F_, a, b: imul(a, b)), 2, "ee")
    Q.case(FPP + "square_in_place", prod(lambda F_, a: imul(a, a)), 1, "e")
    Q.case(FPP + "from_bigint", prod(lambda F_, a: imul(a, F_.r2), False, lambda F_: F_.in_[0]), 1, "u")
    Q.case(FP + "new", prod(lambda F_, a: imul(a, F_.r2), False, lambda F_: F_.in_[0]), 1, "u")
    Q.case(FPP + "into_bigint", prod(lambda F_, a: a, False), 1, "e")

    def const(want):
        def f(o, c, F_):
            o.never()
            for x in c.outs:
                o.zero(x.st, isub(fp_val(x.ret), want(F_)), "const", "value of the constant")
        return f
    Q.case("<field::fp::Fp<P, N> as num_traits::Zero>::zero", const(lambda F_: ZERO), 0, "")
    Q.case("<field::fp::Fp<P, N> as num_traits::One>::one", const(lambda F_: F_.r), 0, "")

    def pred(want):
        def f(o, c, F_):
            o.never()
            for x in c.outs:
                for s, b in c.eng.branch(x.st.copy(), x.ret):
                    R.obligation(f"{o.what}: predicate")
                    d = s.decide(iEq(F_.in_[0], want(F_)))
                    if d is not b:
                        w = want(F_)
                        o.fail(s, "predicate", "the predicate holds exactly for its value", Bad([F_.in_[0], w], lambda e: (ev(F_.in_[0], e) == ev(w, e)) != b))
        return f
    Q.case("<field::fp::Fp<P, N> as num_traits::Zero>::is_zero", pred(lambda F_: ZERO), 1, "e")
    Q.case("<field::fp::Fp<P, N> as num_traits::One>::is_one", pred(lambda F_: F_.r), 1, "e")
    Q.case("<field::fp::Fp<P, N> as core::cmp::PartialEq>::eq", pred(lambda F_: F_.in_[1]), 2, "ee")


def good_combo(st, u_, b_, pairs, p):
    """2^j (u', b') = sum l_i (u_i, b_i) + k p for known pairs"""
    terms = [u_, b_, p] + [t for q in pairs for t in q]
    pin = pins(st, terms)
    rows = echelon([RG.expand(c.a[0], pin) for c, v in st.facts.items() if c.op == "ieq" and v])
    ex = {t: reduce_rows(RG.expand(t, pin), rows) for t in set(terms)}

    def lin(*ts):
        r = {}
        for k, t in ts:
            for m, c in ex[t].items():
                r[m] = r.get(m, 0) + k * c
        return {m: c for m, c in r.items() if c}

    def multiple(d, lim):
        """d = k*p"""
        if not d:
            return True
        P_ = ex[p]
        m0 = next(m for m in P_ if m != ())
        k = d.get(m0, 0) / P_[m0]
        return k != 0 and abs(k) <= lim and k.denominator == 1 and {m: k * c for m, c in P_.items()} == d
    combos = [[]] + [[(1, a)] for a in pairs] + [[(1, a), (-1, b)] for a in pairs for b in pairs if a is not b]
    for j in (0, 1, 2):
        for cb in combos:
            if multiple(lin((1 << j, u_), *[(-l, x) for l, (x, y) in cb]), 1) and \
                    multiple(lin((1 << j, b_), *[(-l, y) for l, (x, y) in cb]), 2):
                return cb
    return None


def pair_witness(F_, st, uu, ff, tied, a, tries=3000):
    import random
    rnd = random.Random(3)
    xs = leaves([c for c, _ in st.order] + [uu, ff] + list(CState.BASE) + list(tied) + list(tied.values()))
    lo, hi = RG.RNG[F_.h]
    primes = [q for q in range(3, 200) if all(q % d for d in range(2, q))]
    if not F_.spare:
        primes = [F_.M - d for d in range(1, 400, 2) if pow(2, F_.M - d - 1, F_.M - d) == 1 and pow(3, F_.M - d - 1, F_.M - d) == 1]
    for _ in range(tries):
        q = rnd.choice(primes)
        env = {F_.h: (q - 1) // 2, F_.r: F_.M % q, F_.r2: F_.M * F_.M % q, a: rnd.choice([1, 2, q - 1, rnd.randint(1, q - 1)])}
        for x in xs:
            if x in env or x in tied:
                continue
            env[x] = rnd.choice([1, 2, q, q - 1, rnd.randint(1, q), rnd.randint(1, q)])
        for f, g in tied.items():
            env[f] = env[g] * env[F_.r2] * pow(env[a], -1, q) % q
        try:
            if not all(bool(ev(c, env)) == v for c, v in st.order) or not all(ev(b, env) >= 0 for b in CState.BASE):
                continue
            if (ev(ff, env) * env[a] - ev(uu, env) * env[F_.r2]) % q:
                return {show(x)[:20]: env[x] for x in xs[:8]} | {"p": q}
        except (NoVal, ValueError):
            return None
    return None


class FInv(FInterp):
    cutloops = True


def inverse_rules(u, n, spare):
    Q = FpRules(u, n, spare)
    R = u.R

    class Cls(FInv):
        pass

    def f(o, c, F_):
        o.never()
        eng = c.eng
        log = eng.cutlog
        a = F_.in_[0]
        p = F_.p

        def cells(st):
            us, fs = {}, {}
            for cell, v in st.mem.items():
                if isinstance(v, Term) and isint(v) and v.op != "int" or (isinstance(v, Term) and v.op == "poly"):
                    us[cell] = v
                elif isinstance(v, Term) and v.op == "agg" and isinstance(v.a[0], int) and eng.T[v.a[0]].get("path") == "field::fp::Fp" and isint(v.a[2]):
                    fs[cell] = v.a[2]
            return us, fs

        def isatom(v):
            return v.op == "sym" and str(v.a[0]).startswith("loop")
        # candidate pairs per loop: loop atoms of the head
        heads = []
        for e in log:
            us, fs = cells(e["head"])
            heads.append((e, {k: v for k, v in us.items() if isatom(v)}, {k: v for k, v in fs.items() if isatom(v)}, us, fs))
        init = [(a, F_.r2), (p, ZERO)]
        S = set()
        for hi_, (e, ua, fa, us, fs) in enumerate(heads):
            iu, if_ = cells(e["init"])
            for cu in us:
                for cf in fs:
                    # a pair this loop carries: a value it does not change is no new fact
                    if (cu in ua and us[cu] is not iu.get(cu)) or (cf in fa and fs[cf] is not if_.get(cf)):
                        S.add((hi_, cu, cf))
        R.obligation(f"{o.what}[{o.cfg()}]: loop invariant (u_i, b_i) with b_i*a = u_i*R^2 mod p")

        def at(st, cu, cf):
            us, fs = cells(st)
            uu, ff = us.get(cu), fs.get(cf)
            if uu is None and cu in st.mem and isint(st.mem[cu]):
                uu = st.mem[cu]
            return uu, ff

        def known(S):
            return list(dict.fromkeys(init + [(heads[h][3][cu], heads[h][4][cf]) for h, cu, cf in S]))

        def closed(S, with_backs):
            S = set(S)
            ch = True
            while ch and S:
                ch = False
                pairs = known(S)
                for h, cu, cf in sorted(S, key=str):
                    e = heads[h][0]
                    for st in [e["init"]] + (list(e["backs"]) if with_backs else []):
                        uu, ff = at(st, cu, cf)
                        if uu is None or ff is None or good_combo(st, uu, ff, pairs, p) is None:
                            # the atoms of a loop are shared by all its entries
                            S = {q for q in S if (heads[q[0]][3][q[1]], heads[q[0]][4][q[2]]) != (heads[h][3][cu], heads[h][4][cf])}
                            ch = True
                            break
                    if ch:
                        break
            return S

        def refuted(x, b):
            """a transition that leaves the relations established on entry"""
            def both(S_):
                tied = {}
                for uu, ff in known(S_)[2:]:
                    if isatom(ff) and isatom(uu) and tied.setdefault(ff, uu) is not uu:
                        return None
                return tied
            tied = both(S)
            if tied is not None and all(fa_[cf] in tied for _, _, fa_, _, _ in heads for cf in fa_):
                # every loop-carried element is tied: the returned one is not
                w = pair_witness(F_, x.st, ONE, b, tied, a)
                return w and f"the returned element is not the inverse at {w}"
            S1 = closed(S0, False)
            tied = both(S1)
            if tied is None:
                return None
            for h, cu, cf in sorted(S1 - S, key=str):
                if not (isatom(heads[h][3][cu]) and isatom(heads[h][4][cf])):
                    continue
                for st in heads[h][0]["backs"]:
                    uu, ff = at(st, cu, cf)
                    if uu is None or ff is None:
                        continue
                    w = pair_witness(F_, st, uu, ff, tied, a)
                    if w:
                        return f"a loop step leaves the relation b*a = u*R^2 (mod p) at {w}"
            return None
        S0 = S
        S = closed(S0, True)
        pairs = known(S)
        # invariant ranges of the loop-carried elements
        for e, ua, fa, us, fs in heads:
            for st in [e["init"]] + list(e["backs"]):
                us2, fs2 = cells(st)
                for cf in fa:
                    if cf in fs2:
                        o.nonneg(st, isub(isub(p, ONE), fs2[cf]), "range", "loop-carried elements stay reduced")
        nsome = 0
        for x in c.outs:
            if x.ret.a[1] == 0:
                R.obligation(f"{o.what}: None only for zero")
                if x.st.decide(iEq(a, ZERO)) is not True:
                    o.fail(x.st, "none", "only zero has no inverse", None)
                continue
            nsome += 1
            R.obligation(f"{o.what}[{o.cfg()}]: the returned element is paired with one")
            if x.st.decide(iEq(a, ZERO)) is not False:
                o.fail(x.st, "none", "zero has no inverse", None)
            b = fp_val(x.ret.a[2])
            o.canon(x.st, b)
            hit = False
            for pu, pb in pairs:
                if identity(x.st, isub(pb, b)) == {} and x.st.decide(iEq(pu, ONE)) is True:
                    hit = True
            if not hit:
                w = refuted(x, b)
                if w:
                    R.violation(f"{o.what}:inverse", f"{o.what} ({o.cfg()}): {w}")
                else:
                    R.undecided.append(f"{o.what}:inverse ({o.cfg()}): a returned element is not tied to b*a = 1*R^2; relations kept: {[show(q[0])[:30] for q in pairs]}")
        R.obligation("an inverse is returned for non-zero elements")
        if not nsome:
            R.undecided.append(f"{o.what}:inverse: no path returns an inverse")

    def mkcls(F_):
        Cls.fctx = F_
        return {}
    Q.case("field::fp::FpParams::inverse", f, 1, "e", consts=mkcls, cls=Cls, extra_contracts=lambda F_: sub_contract(u, F_))


def sub_contract(u, F_):
    """field subtraction and friends run their bodies"""
    return {}


def p_fp(R, tier="quick"):
    u = Un(R, tier)
    mont_rules(u, (1, 2, 3, 4, 6) if tier == "quick" else range(1, 14))
    for n in ((1, 4, 6) if tier == "quick" else (1, 2, 3, 4, 6, 7, 13)):
        for spare in (True, False):
            fp_rules(u, n, spare)
            inverse_rules(u, n, spare)
