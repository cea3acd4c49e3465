"""Exact-integer relational domain for the arithmetic crate.

Machine integers are polynomials over Z in atoms with known ranges.  A machine
operation whose exact result may leave its type introduces a remainder atom
r = p mod 2^k and a quotient atom q = floor(p / 2^k) with p = r + 2^k q, so
carry chains stay exact polynomial identities.  Order facts on a path are
linear in the monomials; entailment is decided on the convex relaxation by an
exact rational linear program (the entailment test of the polyhedra domain)."""
from fractions import Fraction as F
from math import gcd
from .terms import *
from .interp import Interp, State, Unsupported, Infeasible

RNG = {}      # atom -> (lo, hi)
DEF = {}      # atom -> ("r"|"q", poly, k)
_R = {}
_Q = {}
_EX = {}


def reset():
    RNG.clear()
    DEF.clear()
    _R.clear()
    _Q.clear()
    _EX.clear()
    _T.clear()


def P0(t):
    return as_poly(t, 0)


def iadd(a, b):
    return add(0, a, b)


def isub(a, b):
    return sub(0, a, b)


def imul(a, b):
    return mul(0, a, b)


INT_OPS = ("int", "poly", "rr", "qq", "b2i", "ite", "sym", "const", "app", "elem", "fld")


def arng(t):
    r = RNG.get(t)
    if r:
        return r
    if t.op == "b2i":
        return (0, 1)
    if t.op == "int":
        return (t.a[0], t.a[0])
    if t.op == "ite":
        a, b = rng(t.a[1]), rng(t.a[2])
        if a and b:
            return (min(a[0], b[0]), max(a[1], b[1]))
    w = WID.get(t)
    if w is not None:
        return (0, (1 << w) - 1)
    return None


def rng(t):
    if t.op == "int":
        return (t.a[0], t.a[0])
    if t.op != "poly":
        return arng(t)
    lo = hi = 0
    for k, c in t.a[1]:
        l = h = 1
        for x in k:
            r = arng(x)
            if r is None:
                return None
            c4 = (l * r[0], l * r[1], h * r[0], h * r[1])
            l, h = min(c4), max(c4)
        if c < 0:
            l, h = h, l
        lo += c * l
        hi += c * h
    return (lo, hi)


def fits(t, bits):
    r = rng(t)
    return r is not None and r[0] >= 0 and r[1] < 1 << bits


def split2(t, k):
    """(low, high) with t = low + 2^k high, splitting by coefficients"""
    lo, hi = {}, {}
    for m, c in P0(t).items():
        if c % (1 << k) == 0:
            hi[m] = c >> k
        elif m == ():
            lo[m] = c % (1 << k)
            hi[m] = c >> k
        else:
            lo[m] = c
    return from_poly(lo, 0), from_poly(hi, 0)


def pow2(t):
    """largest j with 2^j dividing every coefficient"""
    g = 0
    for c in P0(t).values():
        g = gcd(g, c)
    return (g & -g).bit_length() - 1 if g else 0


def low(t, k):
    """t mod 2^k"""
    if k == 0:
        return ZERO
    if t.op == "int":
        return Int(t.a[0] % (1 << k))
    if fits(t, k):
        return t
    l, _ = split2(t, k)
    if fits(l, k):
        return l
    j = pow2(l)
    if j:
        return imul(Int(1 << j), low(scale(l, j), k - j))
    if k == 1:
        # coefficients modulo two; an odd constant flips the parity
        d = {m: 1 for m, c in P0(l).items() if c % 2}
        if () in d and len(d) > 1:
            del d[()]
            return isub(ONE, low(from_poly(d, 0), 1))
        l = from_poly(d, 0)
        if fits(l, 1):
            return l
    if l.op == "rr" and DEF[l][2] >= k:
        return low(DEF[l][1], k)
    r = _R.get((l, k))
    if r is None:
        r = mk("rr", l, k)
        _R[(l, k)] = r
        RNG[r] = (0, (1 << k) - 1)
        DEF[r] = ("r", l, k)
    return r


def scale(t, j):
    return from_poly({m: c >> j for m, c in P0(t).items()}, 0)


def high(t, k):
    """floor(t / 2^k)"""
    if k == 0:
        return t
    if t.op == "int":
        return Int(t.a[0] >> k)
    if fits(t, k):
        return ZERO
    l, h = split2(t, k)
    if fits(l, k):
        return h
    j = pow2(l)
    if j:
        return iadd(high(scale(l, j), k - j), h)
    if l.op == "qq":
        return iadd(high(DEF[l][1], k + DEF[l][2]), h)
    q = _Q.get((l, k))
    if q is None:
        q = mk("qq", l, k)
        _Q[(l, k)] = q
        r = rng(l)
        if r is not None:
            RNG[q] = (r[0] >> k, r[1] >> k)
        DEF[q] = ("q", l, k)
    return iadd(q, h)


def expand(t, pin=None, memo=None):
    """polynomial over inputs and remainder atoms with rational coefficients:
    every quotient atom replaced by (p - r) / 2^k; pin: atom -> int known on the path"""
    if memo is None:
        memo = {}
    pin = pin or {}

    def atom(x):
        if x in memo:
            return memo[x]
        if x in pin:
            v = {(): F(pin[x])} if pin[x] else {}
        elif x.op == "qq":
            _, p, k = DEF[x]
            v = padd(ex(p), ex(low(p, k)), -1)
            v = {m: F(c) / (1 << k) for m, c in v.items() if c}
        elif x.op == "b2i" and x.a[0].op == "and":
            v = pmul(ex(b2i(x.a[0].a[0])), ex(b2i(x.a[0].a[1])))
        elif x.op == "rr" and _Q.get((x.a[0], x.a[1])) in pin:
            _, p, k = DEF[x]
            v = padd(ex(p), {(): F(pin[_Q[(x.a[0], x.a[1])]]) * (1 << k)}, -1)
        elif x.op == "rr" and x.a[0].op == "qq" and x.a[0] not in pin:
            _, p, j = DEF[x.a[0]]
            v = padd(ex(low(p, j + x.a[1])), ex(low(p, j)), -1)
            v = {m: F(c) / (1 << j) for m, c in v.items() if c}
        else:
            v = {(x,): F(1)}
        memo[x] = v
        return v

    def ex(p):
        r = {}
        for m, c in P0(p).items():
            q = {(): F(c)}
            for x in m:
                q = pmul(q, atom(x))
            for k, v in q.items():
                r[k] = r.get(k, 0) + v
        return {k: v for k, v in r.items() if v}
    return ex(t)


# ------------------------------------------------------------ conditions

def norm_lin(p):
    """divide by the content; returns (dict, const) of integer coefficients"""
    return p


def Pos(t):
    """t >= 0 over the integers"""
    d = P0(t)
    if not d or set(d) == {()}:
        return Bool(d.get((), 0) >= 0)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, c)
    d = {m: (c // g) for m, c in d.items()}  # floor on the constant is exact
    lead = max((m for m in d if m != ()), key=lambda m: (len(m), [x.id for x in m]))
    if d[lead] < 0:
        n = {m: -c for m, c in d.items()}
        n[()] = n.get((), 0) - 1
        return Not(mk("ipos", from_poly(n, 0)))
    return mk("ipos", from_poly(d, 0))


def Zero(t):
    d = P0(t)
    if not d:
        return TRUE
    if set(d) == {()}:
        return FALSE
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, c)
    if d.get((), 0) % g:
        return FALSE
    if len(d) == 1:
        (m, _), = d.items()
        if len(m) == 1 and m[0].op in ("bor", "bxor"):
            x, y = m[0].a[1:]
            return And(Zero(x), Zero(y)) if m[0].op == "bor" else Zero(isub(x, y))
    d = {m: c // g for m, c in d.items()}
    lead = max((m for m in d if m != ()), key=lambda m: (len(m), [x.id for x in m]))
    if d[lead] < 0:
        d = {m: -c for m, c in d.items()}
    return mk("ieq", from_poly(d, 0))


def iLt(a, b):
    return Pos(isub(isub(b, a), ONE))


def iEq(a, b):
    return Zero(isub(a, b))


_T = {}


def tight(p):
    """range of p; sums of carries are bounded through their definitions"""
    r = rng(p)
    if r is None or r[1] - r[0] != 2 or not any(x.op == "qq" for m in P0(p) for x in m):
        return r
    if p not in _T:
        st = CState()
        try:
            v = st.minimum(p)
            if v not in ("-inf", None) and v > r[0]:
                r = (r[0] + 1, r[1])
            v = st.minimum(isub(ZERO, p))
            if v not in ("-inf", None) and v > -r[1]:
                r = (r[0], r[1] - 1)
        except Unsupported:
            pass
        _T[p] = r
    return _T[p]


def b2i(c):
    """0/1 value of a condition, as a polynomial where possible"""
    if c.op == "bool":
        return Int(int(c.a[0]))
    if c.op == "not":
        return isub(ONE, b2i(c.a[0]))
    if c.op == "ieq":
        p = c.a[0]
        r = tight(p)
        if r == (0, 1):
            return isub(ONE, p)
        if r == (-1, 0):
            return iadd(ONE, p)
    if c.op == "ipos":
        p = c.a[0]
        r = rng(p)
        if r == (-1, 0):
            return iadd(ONE, p)
    return mk("b2i", c)


def defs_of(ps):
    """linear definitional constraints of the quotient/remainder atoms below ps"""
    out = []
    seen = set()
    work = list(ps)
    while work:
        p = work.pop()
        for m in P0(p):
            for x in m:
                if x in seen or x.op not in ("qq", "rr"):
                    continue
                seen.add(x)
                _, d, k = DEF[x]
                work.append(d)
                if x.op == "qq":
                    e = isub(d, imul(Int(1 << k), x))
                    out.append(e)
                    out.append(isub(Int((1 << k) - 1), e))
                    r = _R.get((d, k))
                    if r is not None:
                        seen.add(r)
                        out.append(isub(e, r))
                        out.append(isub(r, e))
                else:
                    q = _Q.get((d, k))
                    if q is not None:
                        work.append(q)
    return out


# ------------------------------------------------------------ linear programs

def lp_min(obj, cons, bounds):
    """minimum of obj over {x : c(x) >= 0 for c in cons, lo <= x <= hi};
    forms are dicts var -> coef with () for the constant.  Returns None when
    infeasible, '-inf' when unbounded."""
    vs = set(m for m in obj if m != ())
    for c in cons:
        vs |= set(m for m in c if m != ())
    vs = sorted(vs, key=lambda m: [x.id for x in m])
    idx = {v: i for i, v in enumerate(vs)}
    n = len(vs)
    lo = []
    rows = []   # sum a x <= b   over y = x - lo >= 0
    for v in vs:
        b = bounds(v)
        if b is None or b[0] is None:
            raise Unsupported("unbounded atom in a linear entailment")
        lo.append(F(b[0]))
    for v in vs:
        b = bounds(v)
        if b[1] is not None:
            r = [F(0)] * n
            r[idx[v]] = F(1)
            rows.append((r, F(b[1]) - lo[idx[v]]))
    for c in cons:
        r = [F(0)] * n
        b = F(c.get((), 0))
        for m, k in c.items():
            if m != ():
                r[idx[m]] -= F(k)
                b += F(k) * lo[idx[m]]
        rows.append((r, b))
    oc = F(obj.get((), 0))
    c = [F(0)] * n
    for m, k in obj.items():
        if m != ():
            c[idx[m]] = -F(k)      # maximise -obj
            oc += F(k) * lo[idx[m]]
    r = simplex(rows, c)
    if r is None or r == "inf":
        return None if r is None else "-inf"
    return oc - r


def simplex(rows, c):
    """max c y, A y <= b, y >= 0 (exact, Bland)"""
    m, n = len(rows), len(c)
    T = [list(r) + [b] for r, b in rows]
    basis = [n + i for i in range(m)]
    nb = list(range(n))

    def pivot(i, j, Ts, obj):
        p = Ts[i][j]
        row = Ts[i]
        inv = 1 / p
        row = [x * inv for x in row]
        row[j] = inv
        Ts[i] = row
        for k in range(len(Ts)):
            if k != i and Ts[k][j]:
                f = Ts[k][j]
                t = Ts[k]
                Ts[k] = [x - f * y for x, y in zip(t, row)]
                Ts[k][j] = -f * inv
        if obj[j]:
            f = obj[j]
            o = [x - f * y for x, y in zip(obj, row)]
            o[j] = -f * inv
            obj[:] = o
        basis[i], nb[j] = nb[j], basis[i]

    def run(obj, skip=None):
        # obj: coefficients to maximise, last = -(value)
        it = 0
        while True:
            it += 1
            if it > 4000:
                raise Unsupported("simplex budget")
            js = [j for j in range(len(nb)) if obj[j] > 0]
            if not js:
                return True
            j = min(js, key=lambda q: nb[q])
            best = None
            for i in range(m):
                if T[i][j] > 0:
                    r = T[i][-1] / T[i][j]
                    if best is None or r < best[0] or (r == best[0] and basis[i] < basis[best[1]]):
                        best = (r, i)
            if best is None:
                return False
            pivot(best[1], j, T, obj)

    if any(t[-1] < 0 for t in T):
        # phase one with an artificial variable
        art = n + m
        for t in T:
            t.insert(len(t) - 1, F(-1))
        nb.append(art)
        obj = [F(0)] * n + [F(-1), F(0)]
        i = min(range(m), key=lambda q: T[q][-1])
        pivot(i, n, T, obj)
        run(obj)
        if -obj[-1] < 0:
            return None
        if art in basis:
            i = basis.index(art)
            j = next((q for q in range(len(nb)) if T[i][q]), None)
            if j is not None:
                pivot(i, j, T, obj)
        if art in nb:
            j = nb.index(art)
            for t in T:
                del t[j]
            del nb[j]
    obj = [F(0)] * (len(nb) + 1)
    pos = {v: j for j, v in enumerate(nb)}
    for v in range(n):
        if not c[v]:
            continue
        if v in pos:
            obj[pos[v]] += c[v]
        else:
            i = basis.index(v)
            for j in range(len(nb)):
                obj[j] -= c[v] * T[i][j]
            obj[-1] -= c[v] * T[i][-1]
    if not run(obj):
        return "inf"
    return -obj[-1]


class CState(State):
    """facts are ipos/ieq literals; `base` holds constraints of the rule's precondition"""
    __slots__ = ()
    BASE = []       # [poly >= 0]

    def copy(self):
        s = CState.__new__(CState)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.order = list(self.order)
        s.subst = dict(self.subst)
        s.writes = list(self.writes)
        s.trace = list(self.trace)
        s.epoch = self.epoch
        s.bepoch = dict(self.bepoch)
        s.notes = self.notes
        s._canon = self._canon
        return s

    def cons(self):
        out = [dict(P0(p)) for p in CState.BASE]
        for c, pol in self.facts.items():
            if c.op == "ipos":
                d = P0(c.a[0])
                if not pol:
                    d = {m: -k for m, k in d.items()}
                    d[()] = d.get((), 0) - 1
                out.append(d)
            elif c.op == "ieq" and pol:
                d = P0(c.a[0])
                out.append(d)
                out.append({m: -k for m, k in d.items()})
        return out

    def mbound(self, m):
        t = from_poly({m: 1}, 0)
        r = rng(t)
        return r

    def entails(self, p, extra=()):
        """p >= 0 on every point of the path"""
        r = rng(p)
        if r is not None and r[0] >= 0:
            return True
        v = self.minimum(p, extra)
        return v is None or (v != "-inf" and v > -1)

    def relevant(self, p, extra=()):
        """constraints connected to p through shared monomials"""
        cs = self.cons() + [dict(P0(e)) for e in extra]
        seen = set(m for m in P0(p) if m != ())
        out = []
        rest = cs
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                ms = set(m for m in c if m != ())
                if ms & seen:
                    seen |= ms
                    out.append(c)
                    ch = True
                else:
                    nr.append(c)
            rest = nr
        return out

    def minimum(self, p, extra=()):
        ex = list(extra)
        if any(x.op in ("qq", "rr") for m in P0(p) for x in m) or any(x.op in ("qq", "rr") for c in self.cons() for m in c for x in m):
            ex += defs_of([p] + [from_poly(c, 0) for c in self.cons()])
        return lp_min(P0(p), self.relevant(p, ex), self.mbound)

    def decide(self, c):
        if c.op == "bool":
            return c.a[0]
        if c.op == "not":
            r = self.decide(c.a[0])
            return None if r is None else (not r)
        if c.op == "and":
            x = self.decide(c.a[0])
            if x is False:
                return False
            y = self.decide(c.a[1])
            if y is False:
                return False
            if x and y:
                return True
            return self.facts.get(c)
        if c.op == "eq" and isint(c.a[0]) and isint(c.a[1]):
            return self.decide(iEq(c.a[0], c.a[1]))
        if c.op == "lt" and isint(c.a[0]) and isint(c.a[1]):
            return self.decide(iLt(c.a[0], c.a[1]))
        r = self.facts.get(c)
        if r is not None:
            return r
        if c.op == "ipos":
            p = c.a[0]
            r = rng(p)
            if r is not None:
                if r[0] >= 0:
                    return True
                if r[1] < 0:
                    return False
            if self.related(p):
                if self.entails(p):
                    return True
                if self.entails(isub(isub(ZERO, p), ONE)):
                    return False
            return None
        if c.op == "ieq":
            p = c.a[0]
            r = rng(p)
            if r is not None and (r[0] > 0 or r[1] < 0):
                return False
            if self.related(p):
                m = isub(ZERO, p)
                a, b = self.entails(p), self.entails(m)
                if a and b:
                    return True
                if a and self.entails(isub(p, ONE)):
                    return False
                if b and self.entails(isub(m, ONE)):
                    return False
            return None
        return State.decide(self, c)

    def related(self, p):
        ms = set(m for m in P0(p) if m != ())
        return any(ms & set(c) for c in self.cons())

    def assume(self, c, pol=True):
        if c.op == "not":
            return self.assume(c.a[0], not pol)
        if c.op == "bool":
            return c.a[0] == pol
        if c.op == "and" and pol:
            return self.assume(c.a[0], True) and self.assume(c.a[1], True)
        if c.op == "and":
            x = self.decide(c.a[0])
            if x is True:
                return self.assume(c.a[1], False)
            y = self.decide(c.a[1])
            if y is True:
                return self.assume(c.a[0], False)
        if c.op == "eq" and isint(c.a[0]) and isint(c.a[1]):
            return self.assume(iEq(c.a[0], c.a[1]), pol)
        if c.op == "lt" and isint(c.a[0]) and isint(c.a[1]):
            return self.assume(iLt(c.a[0], c.a[1]), pol)
        r = self.decide(c)
        if r is not None:
            return r == pol
        if c.op == "ieq" and not pol:
            # an integer off the end of its range moves the bound
            p = c.a[0]
            r = rng(p)
            if r is not None and r[0] == 0:
                return self.assume(Pos(isub(p, ONE)), True)
            if r is not None and r[1] == 0:
                return self.assume(Pos(isub(isub(ZERO, p), ONE)), True)
            if self.related(p):
                m = isub(ZERO, p)
                try:
                    if self.entails(p):
                        return self.assume(Pos(isub(p, ONE)), True)
                    if self.entails(m):
                        return self.assume(Pos(isub(m, ONE)), True)
                except Unsupported:
                    pass
        self.order.append((c, pol))
        self.facts[c] = pol
        if c.op == "ipos":
            # a disequality at the end of the range the path now has moves the bound
            ms = set(m for m in P0(c.a[0]) if m != ())
            for d, q in list(self.facts.items()):
                if d.op == "ieq" and not q and ms == set(m for m in P0(d.a[0]) if m != ()):
                    p = d.a[0]
                    m = isub(ZERO, p)
                    try:
                        e = Pos(isub(p, ONE)) if self.entails(p) else Pos(isub(m, ONE)) if self.entails(m) else None
                    except Unsupported:
                        e = None
                    if e is not None and not self.assume(e, True):
                        return False
        return True


def isint(t):
    if t.op == "len" or (t.op == "app" and t.a[0] == "len"):
        RNG.setdefault(t, (0, (1 << 63) - 1))
    return t.op in ("int", "poly", "rr", "qq", "b2i") or t in RNG or t in WID or (t.op == "sym" and False)


def two(x):
    r = arng(x)
    return r is not None and r[1] - r[0] == 1 and 0 in r


def drop_exclusive(st, p):
    """remove monomials holding two 0/1 (or 0/-1) atoms that are never non-zero together"""
    d = P0(flat(p))
    out = {}
    for m, c in d.items():
        ts = [x for x in m if two(x)]
        if len(ts) >= 2 and exclusive(st, ts[0], ts[1]):
            continue
        out[m] = c
    return from_poly(out, 0)


def flat(p):
    """0/1 values of conjunctions multiplied out"""
    if not any(x.op == "b2i" and x.a[0].op == "and" for m in P0(p) for x in m):
        return p
    r = ZERO
    for m, c in P0(p).items():
        t = Int(c)
        for x in m:
            t = imul(t, imul(flat(b2i(x.a[0].a[0])), flat(b2i(x.a[0].a[1]))) if x.op == "b2i" and x.a[0].op == "and" else x)
        r = iadd(r, t)
    return r


_EX = {}


def exclusive(st, x, y):
    def nzf(v):
        return isub(v, ONE) if arng(v)[1] == 1 else isub(isub(ZERO, v), ONE)
    k = (tuple(st.order), x, y)
    if k not in _EX:
        # infeasible: both away from zero
        a, b = nzf(x), nzf(y)
        ds = defs_of([x, y])
        try:
            _EX[k] = lp_min(dict(P0(ZERO)), [dict(P0(a)), dict(P0(b))] + [dict(P0(e)) for e in ds] + st.cons(), st.mbound) is None
        except Unsupported:
            _EX[k] = False
    return _EX[k]


def within(st, v, k):
    """0 <= v < 2^k on this path"""
    r = rng(v)
    if r is not None and r[0] >= 0 and r[1] < 1 << k:
        return True
    try:
        return st.entails(v) and st.entails(isub(Int((1 << k) - 1), v))
    except Unsupported:
        return False


INTS = ("u8", "u16", "u32", "u64", "u128", "usize")


class CInterp(Interp):
    MIXED = 40

    def __init__(self, prog, n=None):
        super().__init__(prog)
        self.n = n
        self.contracts = {}     # path -> handler(eng, st, f, args, dty)
        self.consts = {}        # constant name -> term
        self.wraps = []         # plain operators whose exact result may not fit
        self.cuts = {}          # function path -> loop-cut handler
        self.keep_panics = True
        self.cutlog = []

    # -- constants and fresh values
    absuint = False

    def tobig(self, v, ty):
        """in abstract mode a multi-limb integer is one number"""
        if self.absuint and ty is not None and v.op == "agg" and self.T[ty].get("path") in self.BIG and len(v.a) > 2:
            f = v.a[2]
            if f.op == "agg" and f.a[0] == "array":
                r = ZERO
                for i, x in enumerate(f.a[2:]):
                    r = iadd(r, imul(Int(1 << (64 * i)), x))
                return r
            if f.op == "limbs":
                return f.a[0]
        return v

    def const(self, st, c):
        return self.tobig(self.const0(st, c), c.get("ty"))

    def const0(self, st, c):
        if "param" in c and self.n is not None and self.T[c["ty"]]["k"] == "int":
            return Int(self.n)
        if "def" in c:
            n = c["def"].split("::")[-1]
            if n in self.consts and ("val" not in c):
                v = self.consts[n]
                return v(self, st, c) if callable(v) else v
        return super().const(st, c)

    def alen(self, t):
        if isinstance(t["len"], int):
            return t["len"]
        return self.n

    def fresh(self, st, i, name):
        t = self.T[i]
        if self.absuint and t.get("path") in self.BIG:
            r = mk("sym", name, i)
            RNG[r] = (0, (1 << (64 * self.n)) - 1)
            return r
        if t["k"] == "array" and self.alen(t) is not None and self.alen(t) <= 64:
            return agg("array", 0, *[self.fresh(st, t["of"], f"{name}[{n}]") for n in range(self.alen(t))])
        if t["k"] == "int":
            r = mk("sym", name, i)
            b = t["bits"]
            if t.get("signed"):
                RNG[r] = (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            else:
                RNG[r] = (0, (1 << b) - 1)
                WID[r] = b
            return r
        return super().fresh(st, i, name)

    def rvalue(self, st, fid, body, r, dst_ty):
        return self.tobig(self.rvalue0(st, fid, body, r, dst_ty), dst_ty)

    def rvalue0(self, st, fid, body, r, dst_ty):
        self.cur = st
        if r[0] == "repeat" and not isinstance(r[2], int) and self.n is not None:
            v = self.operand(st, fid, body, r[1])
            return agg("array", 0, *[v] * self.n)
        if r[0] == "un" and r[1] == "Not":
            ta = self.optype(body, r[2])
            if self.T[ta]["k"] == "int":
                a = self.operand(st, fid, body, r[2])
                return isub(Int((1 << self.bits(ta)) - 1), a)
        if r[0] == "un" and r[1] == "Neg":
            ta = self.optype(body, r[2])
            a = self.operand(st, fid, body, r[2])
            return isub(ZERO, a)
        return super().rvalue(st, fid, body, r, dst_ty)

    def intcast(self, a, fr, to):
        if self.T[to]["k"] != "int" and isint(a):
            return a
        bf, bt = self.bits(fr), self.bits(to)
        if a.op == "bool":
            return Int(int(a.a[0]))
        if self.T[fr]["k"] == "bool":
            return drop_exclusive(self.cur, b2i(a))
        if a.op == "discr":
            return a
        if self.T[to].get("signed") or self.T[fr].get("signed"):
            r = rng(a)
            if r is not None and (r[0] >= 0 and r[1] < 1 << (bt - 1) or (r[0] >= -(1 << (bt - 1)) and r[1] < 1 << (bt - 1) and self.T[to].get("signed")) or (r[0] >= 0 and r[1] < 1 << bt and not self.T[to].get("signed"))):
                return a
            return super().intcast(a, fr, to)
        return low(a, bt)

    def plain(self, what, v, bits):
        r = rng(v)
        if r is None or r[0] < 0 or r[1] >= 1 << bits:
            self.wraps.append((what, self.where(), v, bits, self.cur.copy() if getattr(self, "cur", None) is not None else None))
        return low(v, bits)

    def binop(self, st, op, a, b, ty):
        t = self.T[ty] if ty is not None else {"k": "int", "bits": 64}
        if t["k"] != "int" or a.op == "discr" or b.op == "discr":
            return super().binop(st, op, a, b, ty)
        bits = t["bits"]
        if not (isint(a) and isint(b)):
            return super().binop(st, op, a, b, ty)
        if op == "Eq":
            return iEq(a, b)
        if op == "Ne":
            return Not(iEq(a, b))
        if op == "Lt":
            return iLt(a, b)
        if op == "Le":
            return Not(iLt(b, a))
        if op == "Gt":
            return iLt(b, a)
        if op == "Ge":
            return Not(iLt(a, b))
        if t.get("signed"):
            if op in ("Add", "Sub", "Mul"):
                return {"Add": iadd, "Sub": isub, "Mul": imul}[op](a, b)
            return super().binop(st, op, a, b, ty)
        if op in ("Add", "Sub", "Mul"):
            v = {"Add": iadd, "Sub": isub, "Mul": imul}[op](a, b)
            if not fits(v, bits) and self.proved(st, v, bits):
                return self.rerange(st, v, bits)
            return self.plain(op, v, bits)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            v = {"A": iadd, "S": isub, "M": imul}[op[0]](a, b)
            return tup(low(v, bits), self.over(v, bits))
        if op == "BitAnd":
            return self.iand(bits, a, b)
        if op == "BitOr":
            return self.ior(st, bits, a, b)
        if op == "BitXor":
            return self.bitop("bxor", bits, a, b)
        if op in ("Shl", "ShlUnchecked"):
            k = cint(b)
            if k is None:
                return mk("app", "shl", a, b)
            return low(imul(a, Int(1 << k)), bits)
        if op in ("Shr", "ShrUnchecked"):
            k = cint(b)
            if k is None:
                return mk("app", "shr", a, b)
            return high(a, k)
        if op in ("Div", "Rem"):
            y = cint(b)
            if y and y & (y - 1) == 0:
                k = y.bit_length() - 1
                return high(a, k) if op == "Div" else low(a, k)
            x = cint(a)
            if x is not None and y:
                return Int(x // y if op == "Div" else x % y)
            raise Unsupported("division")
        if op == "Cmp":
            return self.cmp3(st, a, b)
        return super().binop(st, op, a, b, ty)

    def proved(self, st, v, bits):
        return st.entails(v) and st.entails(isub(Int((1 << bits) - 1), v))

    def rerange(self, st, v, bits):
        return v

    def over(self, v, bits):
        """does the exact value v leave [0, 2^bits)?"""
        return Not(Zero(high(v, bits)))

    def iand(self, bits, a, b):
        x, y = cint(a), cint(b)
        if x is not None and y is not None:
            return Int(x & y)
        if x is not None:
            a, b, y = b, a, x
        if y is not None:
            if y == 0:
                return ZERO
            z = (y & -y).bit_length() - 1
            w = y >> z
            if w & (w + 1) == 0:     # contiguous ones
                return imul(Int(1 << z), low(high(a, z), w.bit_length()))
        if a is b:
            return a
        r = self.bitop("band", bits, a, b)
        RNG.setdefault(r, (0, (1 << bits) - 1))
        return r

    def ior(self, st, bits, a, b):
        x, y = cint(a), cint(b)
        if x is not None and y is not None:
            return Int(x | y)
        for u, v in ((a, b), (b, a)):
            # v is a multiple of 2^k and u < 2^k
            k = pow2(v)
            if k and (fits(u, k) or (self.absuint and within(st, u, k))):
                return iadd(u, v)
        r = self.bitop("bor", bits, a, b)
        if isinstance(r, Term) and r.op == "bor":
            RNG.setdefault(r, (0, (1 << bits) - 1))
        return r

    def bitop(self, op, bits, a, b):
        r = super().bitop(op, bits, a, b)
        if r.op in ("band", "bor", "bxor") and isinstance(bits, int) and isint(a) and isint(b):
            RNG.setdefault(r, (0, (1 << bits) - 1))
        return r

    def branch(self, st, c):
        """conjunctions are taken apart, one conjunct at a time"""
        if c.op == "not" and c.a[0].op == "and":
            return [(s, not b) for s, b in self.branch(st, c.a[0])]
        if c.op == "and" and st.decide(c) is None:
            out = []
            for s, b in self.branch(st, c.a[0]):
                out += self.branch(s, c.a[1]) if b else [(s, False)]
            return out
        return super().branch(st, c)

    def cmp3(self, st, a, b):
        return mk("app", "cmp", a, b)

    def ordering(self, dty, k):
        return agg(dty, k + 1)

    # -- a multi-limb integer held as one number
    def proj(self, st, v, e):
        if e[0] == "f" and isint(v) and e[3] is not None and self.T[e[3]].get("path") in self.BIG:
            return mk("limbs", v)
        if v.op == "limbs" and e[0] == "i":
            return self.index(st, v, e[1])
        return super().proj(st, v, e)

    BIG = ("arithmetic::uint::Uint",)

    def index(self, st, v, idx):
        if v.op == "limbs":
            n = cint(idx)
            if n is None or n >= self.n:
                raise Unsupported("limb index")
            return self.digit(st, v.a[0], n)
        return super().index(st, v, idx)

    def digit(self, st, v, n):
        if n == self.n - 1 and within(st, v, 64 * self.n):
            r = high(v, 64 * n)
            top = 64 if not within(st, v, 64 * self.n - 1) else 63
            for x in [x for m in P0(r) for x in m]:
                if x.op == "qq" and r is x:
                    RNG[x] = (0, (1 << top) - 1)
            return r
        return low(high(v, 64 * n), 64)

    def upd(self, st, v, path, val):
        if path and path[0][0] == "f" and isint(v) and path[0][3] is not None and self.T[path[0][3]].get("path") in self.BIG:
            r = self.upd(st, mk("limbs", v), path[1:], val)
            if r.op == "limbs":
                return r.a[0]
            raise Unsupported("limb update")
        if path and path[0][0] == "i" and v.op == "limbs":
            n = cint(path[0][1])
            if n is None or len(path) != 1:
                raise Unsupported("limb update")
            old = self.digit(st, v.a[0], n)
            return mk("limbs", iadd(v.a[0], imul(Int(1 << (64 * n)), isub(val, old))))
        return super().upd(st, v, path, val)

    # -- calls
    def call(self, st, f, args, dty, atys=None, diverges=False):
        h = self.contracts.get(f.get("rpath") or f.get("path"))
        p = None
        inst = f.get("inst")
        if inst and inst in self.prog.bodies:
            p = self.prog.bodies[inst]["path"]
            h = self.contracts.get(p, h)
        if h is None and f.get("trait"):
            h = self.contracts.get(f["trait"].split("<")[0] + "::" + f["name"])
        if h is not None:
            r = h(self, st, f, args, dty)
            if r is not None:
                return r
        r = self.intrinsic(st, f, args, dty, atys)
        if r is not None:
            return r
        return super().call(st, f, args, dty, atys, diverges)

    def intrinsic(self, st, f, args, dty, atys):
        name = f["name"]
        rim = f.get("rimpl") or ""
        tr = (f.get("trait") or "").split("<")[0].split("::")[-1]
        vals = [self.deref_all(st, a) if a.op == "ref" else a for a in args]
        if tr in ("PartialEq",) and name in ("eq", "ne") and len(vals) == 2:
            c = self.ceq(vals[0], vals[1])
            if c is not None:
                return [(st, c if name == "eq" else Not(c))]
        if tr in ("Ord", "PartialOrd") and len(vals) == 2 and isint(vals[0]) and isint(vals[1]):
            a, b = vals
            if name in ("lt", "le", "gt", "ge"):
                return [(st, {"lt": iLt(a, b), "le": Not(iLt(b, a)), "gt": iLt(b, a), "ge": Not(iLt(a, b))}[name])]
            if name == "cmp":
                return self.three(st, a, b, dty)
            if name == "partial_cmp":
                t = self.T[dty]
                o = t["args"][0]
                return [(s, agg(dty, 1, v)) for s, v in self.three(st, a, b, o)]
            if name in ("max", "min"):
                out = []
                for s, r in self.branch(st, iLt(a, b)):
                    out.append((s, (b if r else a) if name == "max" else (a if r else b)))
                return out
        if name == "to_digit" and len(vals) == 2 and cint(vals[1]) is not None:
            d = mk("app", "digit", vals[0], vals[1])
            RNG[d] = (0, cint(vals[1]) - 1)
            out = []
            for s, ok in self.branch(st, mk("app", "is_digit", vals[0], vals[1])):
                out.append((s, agg(dty, 1, d) if ok else agg(dty, 0)))
            return out
        base = rim.split("::")[-1]
        if base == "u8" and name == "is_ascii" and isint(vals[0]):
            return [(st, iLt(vals[0], Int(128)))]
        if base in INTS and name in ("from_le_bytes", "from_be_bytes") and vals[0].op == "agg" and all(isint(x) for x in afields(vals[0])):
            fs = list(afields(vals[0]))
            if name == "from_be_bytes":
                fs.reverse()
            r = ZERO
            for k, x in enumerate(fs):
                r = iadd(r, imul(Int(1 << (8 * k)), x))
            return [(st, r)]
        if base in INTS and all(isint(v) for v in vals):
            bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}[base]
            o2 = {"add": iadd, "sub": isub, "mul": imul}
            for pre in ("wrapping_", "overflowing_", "checked_"):
                if name.startswith(pre) and name[len(pre):] in o2:
                    v = o2[name[len(pre):]](*vals)
                    if pre == "wrapping_":
                        return [(st, low(v, bits))]
                    if pre == "overflowing_":
                        return [(st, tup(low(v, bits), self.over(v, bits)))]
                    out = []
                    for s, o in self.branch(st, self.over(v, bits)):
                        out.append((s, agg(dty, 0) if o else agg(dty, 1, low(v, bits))))
                    return out
            if name == "from_le_bytes" and False:
                pass
            if name in ("to_le_bytes", "to_be_bytes"):
                fs = [low(high(vals[0], 8 * k), 8) for k in range(bits // 8)]
                if name == "to_be_bytes":
                    fs.reverse()
                return [(st, agg("array", 0, *fs))]
            if name == "wrapping_neg":
                return [(st, low(isub(ZERO, vals[0]), bits))]
            if name in ("leading_zeros", "trailing_zeros"):
                n = cint(vals[0])
                if n is not None:
                    return [(st, Int(bits - n.bit_length() if name[0] == "l" else ((n & -n).bit_length() - 1 if n else bits)))]
                r = mk("app", "clz" if name[0] == "l" else "ctz", Int(bits), vals[0])
                RNG[r] = (0, bits)
                return [(st, r)]
            if name in ("is_power_of_two", "pow", "abs_diff", "div_ceil"):
                return None
        return None

    # -- loops cut at the head: changed cells become fresh atoms of their type
    cutloops = False

    def do_loop(self, body, fid, H, st):
        if not self.cutloops:
            return super().do_loop(body, fid, H, st)
        L = self.prog.loops(body)[H]
        hav = {}
        for it in range(8):
            h = st.copy()
            h.mem.update(hav)
            lg = len(self.cutlog)
            rets, backs, ex = self.explore(body, fid, H, h.copy(), L, H)
            new = False
            for b in backs:
                for c, v in h.mem.items():
                    w = b.mem.get(c)
                    if w is not None and w is not v:
                        g = self.havoc(c, v, w, (H, it))
                        if g is not v:
                            hav[c] = g
                            new = True
            if not new:
                self.cutlog.append(dict(where=(body["file"], body["path"], H), init=st, head=h, backs=backs, exits=ex))
                return ex
            del self.cutlog[lg:]
        raise Unsupported("loop does not stabilise")

    def havoc(self, cell, v, w, tag):
        if v is w:
            return v
        if v.op == "agg" and w.op == "agg" and v.a[0] == w.a[0] and v.a[1] == w.a[1] and len(v.a) == len(w.a) and isinstance(v.a[0], (int, str)):
            fp = isinstance(v.a[0], int) and self.T[v.a[0]].get("path") == "field::fp::Fp"
            return mk("agg", v.a[0], v.a[1], *[self.havoc((cell, i, fp), x, y, tag) for i, (x, y) in enumerate(zip(v.a[2:], w.a[2:]))])
        if isint(v) and isint(w):
            return self.loop_atom(cell, v, tag)
        return UNDEF

    def loop_atom(self, cell, v, tag):
        raise Unsupported("loop atom")

    def three(self, st, a, b, dty):
        out = []
        for s, lt in self.branch(st, iLt(a, b)):
            if lt:
                out.append((s, agg(dty, 0)))
                continue
            for s2, eq in self.branch(s, iEq(a, b)):
                out.append((s2, agg(dty, 1 if eq else 2)))
        return out

    def ceq(self, a, b):
        if isint(a) and isint(b):
            return iEq(a, b)
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            if a.a[1] != b.a[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2:], b.a[2:]):
                c = self.ceq(x, y)
                if c is None:
                    return None
                r = And(r, c)
            return r
        return None
