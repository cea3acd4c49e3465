"""Prime field and multi-limb integer arithmetic (lib/crypto): exact value of
every operation, for every input, by polynomial identities over the limbs."""
from engine import ring as RG
from engine.ring import *          # noqa
from engine.terms import *         # noqa
from .common import Unsupported, Budget


def val(v):
    """integer denoted by a Uint / limb array / integer"""
    while v.op == "agg" and v.a[0] != "array":
        v = v.a[2]
    if v.op == "agg":
        r = ZERO
        for i, x in enumerate(afields(v)):
            r = iadd(r, imul(Int(1 << (64 * i)), x))
        return r
    return v


class Out:
    def __init__(self, st, ret, muts, panic=None):
        self.st, self.ret, self.muts, self.panic = st, ret, muts, panic


class Case:
    """one analysed function at one limb count"""

    def __init__(self, R, prog, body, n, consts=None, contracts=None, args=None, base=None, absuint=False, cls=None, reset=True):
        if reset:
            RG.reset()
        CState.BASE = list(base or [])
        self.R, self.n = R, n
        eng = (cls or CInterp)(prog, n)
        eng.absuint = absuint
        eng.consts.update(consts or {})
        eng.contracts.update(contracts or {})
        self.eng = eng
        st = getattr(eng, "State", CState)()
        if args is None:
            av = [eng.fresh(st, body["locals"][k], f"a{k - 1}") for k in range(1, body["argc"] + 1)]
        else:
            av = args(eng, st, body)
        self.args = av
        self.in_ = [eng.deref_all(st, a) if a.op == "ref" else a for a in av]
        res = eng.exec_fn(st, body, av)
        self.outs = []
        for s, v in res:
            v = eng.deref_all(s, v) if v.op == "ref" else v
            self.outs.append(Out(s, v, [eng.deref_all(s, a) if a.op == "ref" else a for a in av]))
        self.panics = [Out(s, None, None, m) for s, m, w in eng.panic_states]
        R.functions |= eng.analysed
        R.callsites += eng.callsites
        R.paths += len(self.outs) + len(self.panics)


def pins(st, polys, full=False):
    """atoms whose value is forced by the path facts (full: also those no fact mentions)"""
    at = set()
    work = list(polys)
    while work:
        p = work.pop()
        for m in P0(p):
            for x in m:
                if x not in at:
                    at.add(x)
                    if x in RG.DEF:
                        work.append(RG.DEF[x][1])
                        if x.op == "qq":
                            work.append(RG.low(RG.DEF[x][1], RG.DEF[x][2]))
                        o = (RG._Q if x.op == "rr" else RG._R).get((RG.DEF[x][1], RG.DEF[x][2]))
                        if o is not None:
                            work.append(o)
    out = {}
    fm = set(x for c in st.cons() for m in c for x in m)
    for x in at:
        r = RG.arng(x)
        if x.op == "b2i" and full:
            try:
                d = st.decide(x.a[0])
            except Unsupported:
                d = None
            if d is not None:
                out[x] = int(d)
                continue
        if r and r[1] - r[0] == 1 and (full or x in fm or (CState.BASE and x.op in ('qq', 'rr'))):
            if st.entails(isub(Int(r[0]), x)):
                out[x] = r[0]
            elif st.entails(isub(x, Int(r[1]))):
                out[x] = r[1]
    return out


def identity(st, p):
    """p == 0 as a polynomial identity on this path; returns the residue"""
    r = identity1(st, p, False)
    if r and any(RG.arng(x) and RG.arng(x)[1] - RG.arng(x)[0] == 1 for m in P0(p) for x in m) or r and st.facts:
        r2 = identity1(st, p, True)
        if not r2:
            return r2
    return r


def identity1(st, p, full):
    try:
        pin = pins(st, [p], full)
    except Unsupported:
        if not full:
            raise
        return {(): 1}
    d = RG.expand(p, pin)
    r = {}
    for m, c in d.items():
        # idempotence of 0/1 atoms
        bits = [x for x in m if RG.arng(x) == (0, 1)]
        if len(set(bits)) != len(bits):
            m = tuple(sorted(set(bits) | set(x for x in m if x not in bits), key=lambda x: x.id))
        r[m] = r.get(m, 0) + c
    r = {m: c for m, c in r.items() if c}
    if r:
        r = modulo(r, [RG.expand(c.a[0], pin) for c, v in st.facts.items() if c.op == "ieq" and v])
    return r


def modulo(r, eqs):
    """residue modulo the span of the equalities that hold on the path"""
    return reduce_rows(r, echelon(eqs))


def echelon(eqs):
    rows = []
    for e in eqs:
        e = dict(e)
        for piv, b in rows:
            if piv in e:
                f = e[piv]
                for m, c in b.items():
                    e[m] = e.get(m, 0) - f * c
                e = {m: c for m, c in e.items() if c}
        if not e:
            continue
        piv = max((m for m in e), key=lambda m: (len(m), [x.id for x in m]))
        f = e[piv]
        rows.append((piv, {m: c / f for m, c in e.items()}))
    return rows


def reduce_rows(r, rows):
    r = dict(r)
    for _ in range(len(rows) + 1):
        ch = False
        for piv, b in rows:
            if r.get(piv):
                f = r[piv]
                for m, c in b.items():
                    r[m] = r.get(m, 0) - f * c
                r = {m: c for m, c in r.items() if c}
                ch = True
        if not ch:
            break
    return r


# ------------------------------------------------------------ evaluation of summaries

class NoVal(Exception):
    pass


def ev(t, env):
    """value of an integer or Boolean term at a point"""
    o = t.op
    if o == "int":
        return t.a[0]
    if o == "bool":
        return bool(t.a[0])
    if o == "poly":
        s = 0
        for m, c in t.a[1]:
            v = c
            for x in m:
                v *= ev(x, env)
            s += v
        return s
    if t in env:
        return env[t]
    if o in ("rr", "qq"):
        v = ev(t.a[0], env)
        r = v % (1 << t.a[1]) if o == "rr" else v >> t.a[1]
    elif o == "b2i":
        r = int(ev(t.a[0], env))
    elif o == "ipos":
        r = ev(t.a[0], env) >= 0
    elif o == "ieq":
        r = ev(t.a[0], env) == 0
    elif o == "not":
        r = not ev(t.a[0], env)
    elif o == "and":
        r = ev(t.a[0], env) and ev(t.a[1], env)
    elif o in ("eq", "lt") and len(t.a) == 2:
        x, y = ev(t.a[0], env), ev(t.a[1], env)
        r = x == y if o == "eq" else x < y
    elif o == "ite":
        r = ev(t.a[1] if ev(t.a[0], env) else t.a[2], env)
    elif o == "app" and t.a[0] == "clz":
        r = t.a[1].a[0] - ev(t.a[2], env).bit_length()
    elif o == "app" and t.a[0] == "ctz":
        v = ev(t.a[2], env)
        r = (v & -v).bit_length() - 1 if v else t.a[1].a[0]
    elif o == "app" and t.a[0] in ("is_digit", "digit"):
        try:
            v, ok = int(chr(ev(t.a[1], env)), t.a[2].a[0]), True
        except ValueError:
            v, ok = 0, False
        r = ok if t.a[0] == "is_digit" else v
    elif o in ("band", "bor", "bxor"):
        xs = [ev(x, env) for x in t.a if isinstance(x, Term)]
        r = xs[0]
        for x in xs[1:]:
            r = r & x if o == "band" else r | x if o == "bor" else r ^ x
    else:
        raise NoVal(o)
    env[t] = r
    return r


def leaves(ts):
    seen, out = set(), []
    work = list(ts)
    while work:
        t = work.pop()
        if t in seen or not isinstance(t, Term):
            continue
        seen.add(t)
        if t.op == "sym":
            out.append(t)
        elif t.op == "poly":
            for m, c in t.a[1]:
                work.extend(m)
        else:
            work.extend(x for x in t.a if isinstance(x, Term))
    return sorted(out, key=lambda x: x.id)


def consts_in(ts):
    seen, out = set(), set()
    work = list(ts)
    while work:
        t = work.pop()
        if t in seen or not isinstance(t, Term):
            continue
        seen.add(t)
        if t.op == "poly":
            for m, c in t.a[1]:
                out.add(abs(c))
                work.extend(m)
        elif t.op == "int":
            out.add(abs(t.a[0]))
        else:
            work.extend(x for x in t.a if isinstance(x, Term))
    return out


def witness(st, bad, base=(), tries=4000):
    """a point of the path where `bad(env)` holds"""
    import random
    rnd = random.Random(7)
    facts = [(c, p) for c, p in st.order]
    xs = leaves([c for c, _ in facts] + list(bad.terms) + list(base))
    cs = consts_in([c for c, _ in facts])
    only = {c.a[1]: [ord(x) for x in "0123456789abcdefABCDEF" if x.isdigit() and int(x) < c.a[2].a[0] or not x.isdigit() and int(x, 16) < c.a[2].a[0]]
            for c, p in facts if p and c.op == "app" and c.a[0] == "is_digit" and c.a[1].op == "sym"}
    for n in range(tries):
        env = {}
        for x in xs:
            lo, hi = RG.arng(x) if RG.arng(x) else (0, 1)
            ch = [lo, hi, lo + 1, hi - 1, (lo + hi) // 2, (lo + hi) // 2 + 1]
            ch += [c for c in cs if lo <= c <= hi] + [c - 1 for c in cs if lo <= c - 1 <= hi]
            if hi - lo > 4:
                ch += [rnd.randint(lo, hi), rnd.randint(lo, hi), lo + rnd.randint(0, min(4, hi - lo))]
            v = rnd.choice(only.get(x) or ch)
            env[x] = bool(v) if WID.get(x) is None and RG.RNG.get(x) is None else v
        try:
            if all(bool(ev(c, env)) == p for c, p in facts) and all(ev(b, env) >= 0 for b in base) and bad(env):
                return {show(x)[:40]: env[x] for x in xs}
        except NoVal:
            return None
    return None


class Bad:
    def __init__(self, terms, f):
        self.terms, self.f = terms, f

    def __call__(self, env):
        return self.f(env)


def flags(p, out=None, depth=0):
    """conditions below p (through quotients, remainders and 0/1 values), innermost first"""
    out = {} if out is None else out
    for m in P0(p):
        for x in m:
            if x in RG.DEF and depth < 8:
                flags(RG.DEF[x][1], out, depth + 1)
                g = RG.arng(x)
                if x.op == "qq" and g and g[1] - g[0] in (1, 2):
                    for v in range(g[0], g[1]):
                        out.setdefault(iEq(x, Int(v)), True)
            if x.op == "b2i":
                cond(x.a[0], out, depth + 1)
    return list(out)


def cond(c, out, depth):
    if c.op in ("not", "and"):
        for y in c.a:
            cond(y, out, depth)
    elif c.op in ("ipos", "ieq"):
        if depth < 8:
            flags(c.a[0], out, depth + 1)
        out.setdefault(c, True)
    elif c.op in ("eq", "lt") or c.op == "sym":
        out.setdefault(c, True)


def split(st, p, holds, fuel=5):
    """does `holds` follow on every combination of the conditions inside p?"""
    cs = [c for c in flags(p) if st.decide(c) is None]
    if not cs or fuel == 0 or len(cs) > 6:
        return False
    for b in (True, False):
        s = st.copy()
        if not s.assume(cs[0], b):
            continue
        if holds(s):
            continue
        try:
            if s.minimum(ZERO) is None or s.minimum(p) is None:
                continue        # no point on this side
        except Unsupported:
            pass
        if not split(s, p, holds, fuel - 1):
            return False
    return True


class Ob:
    """obligations over one analysed case"""

    def __init__(self, R, case, what):
        self.R, self.c, self.what = R, case, what

    def fail(self, st, key, msg, bad, res=""):
        w = witness(st, bad, CState.BASE) if bad is not None else {}
        loc = f"{self.what} (N={self.c.n})"
        if w is None:
            self.R.undecided.append(f"{self.what}:{key}: {loc}: {msg}: not established {res}")
        else:
            at = ", ".join(f"{k}={v}" for k, v in list(w.items())[:8])
            self.R.violation(f"{self.what}:{key}", f"{loc}: {msg} fails" + (f" at {at}" if at else "") + (f"; residue {res}" if res else ""))

    def zero(self, st, p, key, msg):
        self.R.obligation(f"{self.what}[N={self.c.n}]: {msg}")
        p = drop_exclusive(st, p)
        r = identity(st, p)
        if not r:
            return True
        try:
            if st.entails(p) and st.entails(isub(ZERO, p)):
                return True
            if split(st, p, lambda s: not identity(s, drop_exclusive(s, p)) or s.entails(p) and s.entails(isub(ZERO, p))):
                return True
        except Unsupported:
            pass
        self.fail(st, key, msg, Bad([p], lambda e: ev(p, e) != 0), show_res(r)[:300])
        return False

    def nonneg(self, st, p, key, msg):
        self.R.obligation(f"{self.what}[N={self.c.n}]: {msg}")
        try:
            if st.entails(p):
                return True
            if split(st, p, lambda s: s.entails(p)):
                return True
        except Unsupported:
            pass
        self.fail(st, key, msg, Bad([p], lambda e: ev(p, e) < 0))
        return False

    def iff(self, st, cond, want, key, msg):
        """Boolean term `cond` holds exactly when the polynomial `want` >= 0"""
        for s, b in self.c.eng.branch(st.copy(), cond):
            self.nonneg(s, want if b else isub(isub(ZERO, want), ONE), key, msg)

    def same(self, st, a, b, key, msg):
        """structural equality of terms (bit operations)"""
        self.R.obligation(f"{self.what}[N={self.c.n}]: {msg}")
        if a is b:
            return True
        self.fail(st, key, msg, Bad([a, b], lambda e: ev(a, e) != ev(b, e)), f"{show(a)[:80]} vs {show(b)[:80]}")

    def never(self, key="panic"):
        for o in self.c.panics:
            self.R.obligation(f"{self.what}[N={self.c.n}]: no panic path")
            self.fail(o.st, key, f"panic `{o.panic}` is reachable", Bad([], lambda e: True))

    def nowrap(self):
        self.R.obligation(f"{self.what}[N={self.c.n}]: no plain operator leaves its type")
        for w in self.c.eng.wraps:
            v, b = w[2], w[3]
            if w[4] is None:
                self.R.undecided.append(f"{self.what} (N={self.c.n}): operator {w[0]} at {w[1]} may leave {b} bits")
            else:
                self.fail(w[4], "overflow", f"operator {w[0]} at {w[1]} stays within {b} bits: {show(v)[:120]}", Bad([v], lambda e, v=v, b=b: not 0 <= ev(v, e) < 1 << b))


def show_res(d):
    return " + ".join(f"{c}*{'*'.join(show(x)[:60] for x in m)}" for m, c in list(d.items())[:6])
