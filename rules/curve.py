"""Short Weierstrass curves: coordinate formulas are the group law, operators are
the group operations, scalar multiplication is repeated addition (P34)."""
from .field import *          # noqa
from .fpr import fbody
from engine.alg import *      # noqa
from engine import ring as RG

PROJ = "curve::sw::projective::Projective"
AFF = "curve::sw::affine::Affine"
BF = "<P as curve::CurveConfig>::BaseField"


class Coord(AInterp):
    """coordinates are field elements"""
    ftypes = (BF, "F", "Self")

    def isfield(self, t, s):
        return s in self.ftypes or s.endswith("::BaseField") or s == "<<P as curve::CurveConfig>::BaseField as field::group::AdditiveGroup>::Scalar"


class Cv:
    def __init__(self, R):
        self.R = R
        self.P = R.progs["crypto"]

    def case(self, path, f, cls=Coord, args=None, contracts=None, consts=None, n=None):
        R = self.R
        b = fbody(self, path) if isinstance(path, str) else path
        if b is None:
            R.undecided.append(f"{path}: not found")
            return
        RG.reset()
        name = b["path"]
        try:
            c = Case(R, self.P, b, n, args=args, contracts=contracts, consts=consts, cls=cls, reset=False)
        except (Unsupported, Budget, RecursionError) as e:
            R.undecided.append(f"{name}: {type(e).__name__} {e}")
            return
        R.cases += 1
        un = [x for x in c.eng.unmodelled if not x.startswith("core::fmt::")]
        if un:
            R.undecided.append(f"{name}: unmodelled {un[:3]}")
            return
        o = AOb(R, c, name)
        try:
            f(o, c)
        except (Unsupported, Budget, RecursionError, IndexError, AttributeError, KeyError) as e:
            import traceback
            R.undecided.append(f"{name}: {type(e).__name__} {e} {traceback.format_exc()[-200:]}")


class AOb:
    def __init__(self, R, c, what):
        self.R, self.c, self.what = R, c, what

    def red(self, st, p):
        """polynomial under the path's substitutions and w*p = 1 for inverses"""
        sub = st.sub()
        p = subst(p, sub)
        for w, q in self.c.eng.invs.items():
            q = subst(q, sub)
            d = P0(q)
            if len(d) == 1:
                (m, k), = d.items()
                if k == 1:
                    p = cancel(p, w, m)
        return p

    def zero(self, st, p, key, msg):
        self.R.obligation(f"{self.what}: {msg}")
        r = self.red(st, p)
        if not P0(r):
            return True
        self.fail(st, r, key, msg)
        return False

    def fail(self, st, p, key, msg, step=False):
        w = None
        if step or not any(isinstance(x.a[0], str) and x.a[0].startswith(("loop:", "more(", "folded")) for x in leaves([p] + [f for f, v in st.order])):
            w = fld_witness(self.c.eng, st, p)
        if w is None:
            self.R.undecided.append(f"{self.what}:{key}: {msg}: not established")
        else:
            self.R.violation(f"{self.what}:{key}", f"{self.what}: {msg} fails at {w}")

    def never(self):
        for x in self.c.panics:
            self.R.obligation(f"{self.what}: no panic path")
            self.fail(x.st, ONE, "panic", f"panic `{x.panic}` is unreachable")


def cancel(p, w, m):
    """remove w*m = 1 pairs"""
    r = {}
    for mm, c in P0(p).items():
        mm = list(mm)
        while w in mm and all(mm.count(x) >= m.count(x) for x in m):
            mm.remove(w)
            for x in m:
                mm.remove(x)
        k = tuple(mm)
        r[k] = r.get(k, 0) + c
    return from_poly({k: c for k, c in r.items() if c}, 0)


def fld_witness(eng, st, p, tries=3000):
    """a point over a small prime field on the path where p is not zero"""
    import random
    rnd = random.Random(9)
    polys = [p] + [f.a[0] for f, v in st.order if f.op == "fz"] + list(eng.invs.values())
    other = [f for f, v in st.order if f.op != "fz"]
    xs = [x for x in leaves(polys + other) if x not in eng.invs]
    eqs = [f.a[0] for f, v in st.order if f.op == "fz" and v]
    for q in (101, 13, 7, 11, 10007):
        for _ in range(tries):
            env = {}
            for x in xs:
                env[x] = rnd.choice([0, 1, rnd.randrange(q), rnd.randrange(q), rnd.randrange(q)])
                r = RG.arng(x)
                if r and r != BIGR:
                    env[x] = rnd.randint(r[0], min(r[1], r[0] + 5))
                elif r is None:
                    env[x] = bool(env[x] & 1)
            # solve linear equalities greedily
            for x, e in st.sub().items():
                try:
                    env[x] = evq(e, env, q)
                except NoVal:
                    pass
            try:
                for w, d in eng.invs.items():
                    v = evq(d, env, q)
                    if v:
                        env[w] = pow(v, -1, q)
                    else:
                        env[w] = 0
                ok = True
                for f, v in st.order:
                    if f.op == "fz":
                        if (evq(f.a[0], env, q) == 0) != v:
                            ok = False
                            break
                    elif bool(ev(f, dict(env))) != v:
                        ok = False
                        break
                if ok and evq(p, env, q):
                    return {show(x)[:24]: env[x] for x in xs[:10]} | {"field": q}
            except NoVal:
                return None
    return None


def evq(p, env, q):
    s = 0
    for m, c in P0(p).items():
        v = c
        for x in m:
            if x not in env:
                raise NoVal(show(x))
            v = v * env[x] % q
        s += v
    return s % q


def coords(v):
    return list(v.a[2:])


def S(p):
    return imul(p, p)


def power_product(st, ob, z, fs):
    """z = c * prod f_i^e_i with a small non-zero constant c and e_i >= 1"""
    import itertools
    d0 = P0(ob.red(st, z))
    for es in itertools.product((1, 2, 3), repeat=len(fs)):
        t = ONE
        for f, e in zip(fs, es):
            t = imul(t, ipow(ob.red(st, f), e))
        d = P0(t)
        if not d or set(d) != set(d0):
            continue
        k = next(iter(d))
        if all(d0[m] * d[k] == d[m] * d0[k] for m in d):
            return True
    return False


def dbl_ok(o, st, X, Y, Z, out, A, tag):
    """out is twice (X:Y:Z), Z != 0"""
    X3, Y3, Z3 = coords(out)
    r = lambda p: o.red(st, p)
    X, Y, Z, A = r(X), r(Y), r(Z), r(A)
    X3, Y3, Z3 = r(X3), r(Y3), r(Z3)
    M = iadd(imul(Int(3), S(X)), imul(A, ipow(Z, 4)))
    D = imul(Int(2), imul(Y, Z))
    Y2 = S(Y)
    o.zero(st, isub(imul(X3, S(D)), imul(S(Z3), isub(S(M), imul(Int(8), imul(X, Y2))))), tag + "-x", "x of the double")
    rhs = isub(imul(ipow(Z3, 3), isub(imul(Int(4), imul(M, imul(X, Y2))), imul(Int(8), S(Y2)))), imul(M, imul(S(D), imul(Z3, X3))))
    o.zero(st, isub(imul(Y3, ipow(D, 3)), rhs), tag + "-y", "y of the double")
    o.R.obligation(f"{o.what}: the double is infinite exactly when y = 0")
    if not power_product(st, o, Z3, [Y, Z]):
        o.R.undecided.append(f"{o.what}: {tag}: z of the double is {show(Z3)[:80]}")


def add_ok(o, st, P1, P2, out, tag):
    """out is the chord sum, both finite with different x"""
    r = lambda p: o.red(st, p)
    X1, Y1, Z1 = map(r, P1)
    X2, Y2, Z2 = map(r, P2)
    X3, Y3, Z3 = map(r, coords(out))
    U1, U2 = imul(X1, S(Z2)), imul(X2, S(Z1))
    S1, S2 = imul(Y1, ipow(Z2, 3)), imul(Y2, ipow(Z1, 3))
    H, r_ = isub(U2, U1), isub(S2, S1)
    ZZ = imul(Z1, Z2)
    D = imul(H, ZZ)
    o.zero(st, isub(imul(X3, S(D)), imul(S(Z3), isub(S(r_), imul(S(H), iadd(U1, U2))))), tag + "-x", "x of the sum")
    rhs = isub(isub(imul(ipow(Z3, 3), imul(r_, imul(S(H), U1))), imul(r_, imul(S(D), imul(Z3, X3)))), imul(S1, imul(ipow(H, 3), ipow(Z3, 3))))
    o.zero(st, isub(imul(Y3, ipow(D, 3)), rhs), tag + "-y", "y of the sum")
    o.R.obligation(f"{o.what}: the sum of points with different x is finite")
    if not power_product(st, o, Z3, [H, Z1] + ([Z2] if Z2 is not ONE else [])):
        o.R.undecided.append(f"{o.what}: {tag}: z of the sum is {show(Z3)[:80]}")


def must(o, st, cond, want, key, msg):
    """the path decides `cond` as `want`"""
    o.R.obligation(f"{o.what}: {msg}")
    d = st.decide(cond)
    if d is want:
        return True
    if d is None:
        # is the opposite case really on this path?
        s = st.copy()
        if s.assume(cond, not want):
            o.fail(s, ONE, key, msg)
    else:
        o.fail(st, ONE, key, msg)
    return False


def same_point(o, st, out, P1, key, msg):
    for a, b in zip(coords(out), P1):
        o.zero(st, isub(a, b), key, msg)


def coord_rules(u):
    R = u.R
    D = f"<{PROJ}<P> as "
    A = None

    def ca():
        return fatom("COEFF_A")

    def double(o, c):
        o.never()
        X, Y, Z = coords(c.in_[0])
        for x in c.outs:
            out = x.muts[0]
            if x.st.decide(fz(Z)) is True:
                must(o, x.st, fz(coords(out)[2]), True, "zero", "twice infinity is infinity")
                continue
            must(o, x.st, fz(Z), False, "zero", "infinity is handled apart")
            dbl_ok(o, x.st, X, Y, Z, out, ca(), "double")
    u.case(D + "field::group::AdditiveGroup>::double_in_place", double)

    def addp(mixed):
        def f(o, c):
            o.never()
            X1, Y1, Z1 = coords(c.in_[0])
            if mixed:
                X2, Y2, inf = coords(c.in_[1])
                Z2 = ONE
            else:
                X2, Y2, Z2 = coords(c.in_[1])
                inf = fz(Z2)
            for x in c.outs:
                st, out = x.st, x.muts[0]
                i2 = st.decide(inf)
                if st.decide(fz(Z1)) is True and i2 is True:
                    must(o, st, fz(coords(out)[2]), True, "zero", "infinity + infinity")
                elif i2 is True:
                    same_point(o, st, out, [X1, Y1, Z1], "right-zero", "P + infinity = P")
                elif st.decide(fz(Z1)) is True:
                    if i2 is None and not mixed:
                        same_point(o, st, out, [X2, Y2, Z2], "left-zero", "infinity + P = P")
                        continue
                    must(o, st, inf, False, "left-zero", "the right operand is finite")
                    same_point(o, st, out, [X2, Y2, Z2], "left-zero", "infinity + P = P")
                else:
                    if not must(o, st, fz(Z1), False, "finite", "the left operand is finite"):
                        continue
                    if not must(o, st, inf, False, "finite", "the right operand is finite"):
                        continue
                    U1, U2 = imul(X1, S(Z2)), imul(X2, S(Z1))
                    S1, S2 = imul(Y1, ipow(Z2, 3)), imul(Y2, ipow(Z1, 3))
                    e = st.decide(fz(isub(U1, U2)))
                    if e is True:
                        e2 = st.decide(fz(isub(S1, S2)))
                        if e2 is True:
                            dbl_ok(o, st, X1, Y1, Z1, out, ca(), "tangent")
                        elif e2 is False:
                            must(o, st, fz(coords(out)[2]), True, "inverse", "P + (-P) is infinity")
                        else:
                            must(o, st, fz(isub(S1, S2)), True, "split", "equal and opposite points are told apart")
                    elif e is False:
                        add_ok(o, st, [X1, Y1, Z1], [X2, Y2, Z2], out, "chord")
                    else:
                        must(o, st, fz(isub(U1, U2)), False, "split", "points with equal x are told apart")
        return f
    u.case(D + f"core::ops::AddAssign<&'a {PROJ}<P>>>::add_assign", addp(False))
    u.case(D + "core::ops::AddAssign<T>>::add_assign", addp(True), args=affine_arg(u))

    def negp(o, c):
        o.never()
        v = coords(c.in_[0])
        for x in c.outs:
            out = coords(x.ret)
            o.zero(x.st, isub(out[0], v[0]), "neg", "x unchanged by negation")
            o.zero(x.st, iadd(out[1], v[1]), "neg", "y negated")
            if out[2].op == "sym" and out[2] is v[2]:
                R.obligation("third component unchanged")
            elif isint(out[2]) and isint(v[2]):
                o.zero(x.st, isub(out[2], v[2]), "neg", "z unchanged by negation")
            else:
                same_bool(o, x.st, out[2], v[2], "neg", "infinity flag unchanged")
    u.case(D + "core::ops::Neg>::neg", negp)
    u.case(f"<{AFF}<P> as core::ops::Neg>::neg", negp)

    def zero(o, c):
        for x in c.outs:
            X, Y, Z = coords(x.ret)
            must(o, x.st, fz(Z), True, "zero", "infinity has z = 0")
            for t in (X, Y):
                must(o, x.st, fz(t), False, "zero", "infinity is (1 : 1 : 0)")
    u.case(D + "num_traits::Zero>::zero", zero)
    u.case(D + "core::default::Default>::default", zero)

    def is_zero(o, c):
        for x in c.outs:
            for s, b in c.eng.branch(x.st.copy(), x.ret):
                must(o, s, fz(coords(c.in_[0])[2]), b, "is-zero", "infinite exactly when z = 0")
    u.case(D + "num_traits::Zero>::is_zero", is_zero)

    def eqp(o, c):
        X1, Y1, Z1 = coords(c.in_[0])
        X2, Y2, Z2 = coords(c.in_[1])
        eq_table(o, c, [fz(Z1), fz(Z2), fz(isub(imul(X1, S(Z2)), imul(X2, S(Z1)))), fz(isub(imul(Y1, ipow(Z2, 3)), imul(Y2, ipow(Z1, 3))))],
                 lambda a, b, x, y: (a and b) if (a or b) else (x and y))
    u.case(D + "core::cmp::PartialEq>::eq", eqp)

    def eqa(flip):
        def f(o, c):
            pv, av = (c.in_[1], c.in_[0]) if flip else (c.in_[0], c.in_[1])
            X1, Y1, Z1 = coords(pv)
            X2, Y2, inf = coords(av)
            eq_table(o, c, [fz(Z1), inf, fz(isub(X1, imul(X2, S(Z1)))), fz(isub(Y1, imul(Y2, ipow(Z1, 3))))],
                     lambda a, b, x, y: (a and b) if (a or b) else (x and y))
        return f
    u.case(D + f"core::cmp::PartialEq<{AFF}<P>>>::eq", eqa(False))
    u.case(f"<{AFF}<P> as core::cmp::PartialEq<{PROJ}<P>>>::eq", eqa(True))

    def affeq(o, c):
        X1, Y1, i1 = coords(c.in_[0])
        X2, Y2, i2 = coords(c.in_[1])
        for x in c.outs:
            for s, b in c.eng.branch(x.st.copy(), x.ret):
                R.obligation("affine equality")
                if b:
                    must(o, s, fz(isub(X1, X2)), True, "eq", "equal affine points have equal x")
                    must(o, s, fz(isub(Y1, Y2)), True, "eq", "equal affine points have equal y")
    u.case(f"<{AFF}<P> as core::cmp::PartialEq>::eq", affeq)

    # equal points hash equally: what is fed to the hasher is the affine form, or does not depend on the representation
    fed = []

    def canon(e, st, f, a, d):
        return [(st, mk("agg", "affine form", 0, fatom("affine x"), fatom("affine y"), mk("sym", "affine infinity", 0)))]

    def feed(e, st, f, a, d):
        fed.append((st, e.v(st, a[0])))
        return [(st, mk("agg", "unit", 0))]

    def hashed(o, c):
        raw = {a for v in coords(c.in_[0]) for a in leaves([v])}
        R.obligation("the hash covers the point, not its representation")
        if not fed:
            raise Unsupported("nothing is hashed")
        for st, v in fed:
            ls = set(leaves([v]))
            bad = [y for y in ls if y in raw]
            if bad and any("inv" in str(y.a[0]) for y in ls):
                raise Unsupported("hash of a computed value")
            if bad:
                o.fail(st, ONE, "hash", "equal points hash equally: the hash depends on the projective representation")
                return
    hb = fbody(u, D + "core::hash::Hash>::hash")
    if hb is not None:
        u.case(hb, hashed, contracts={"curve::CurveGroup::into_affine": canon, f"<{AFF}<P> as core::convert::From<{PROJ}<P>>>::from": canon, "core::convert::Into::into": canon,
                                      "core::hash::Hash::hash": feed, f"<{AFF}<P> as core::hash::Hash>::hash": feed})

    def to_aff(o, c):
        o.never()
        X, Y, Z = coords(c.in_[0])
        for x in c.outs:
            ox, oy, inf = coords(x.ret)
            z = x.st.decide(fz(Z))
            if z is None:
                must(o, x.st, fz(Z), False, "affine", "infinity is told apart")
                continue
            i = x.st.decide(inf)
            R.obligation("infinity flag")
            if i is not z:
                o.fail(x.st, ONE, "affine", "the affine point is infinite exactly when z = 0")
                continue
            if z:
                o.zero(x.st, ox, "affine", "infinity is stored with x = 0")
                o.zero(x.st, oy, "affine", "infinity is stored with y = 0")
            else:
                o.zero(x.st, isub(imul(ox, S(Z)), X), "affine", "x = X / Z^2")
                o.zero(x.st, isub(imul(oy, ipow(Z, 3)), Y), "affine", "y = Y / Z^3")
    u.case(f"<{AFF}<P> as core::convert::From<{PROJ}<P>>>::from", to_aff)

    def to_proj(o, c):
        o.never()
        X, Y, inf = coords(c.in_[0])
        for x in c.outs:
            ox, oy, oz = coords(x.ret)
            i = x.st.decide(inf)
            if i is None:
                R.undecided.append(f"{o.what}: infinity flag not examined")
            elif i:
                must(o, x.st, fz(oz), True, "projective", "infinity maps to z = 0")
            else:
                must(o, x.st, fz(oz), False, "projective", "finite points stay finite")
                o.zero(x.st, isub(ox, imul(X, S(oz))), "projective", "X = x Z^2")
                o.zero(x.st, isub(oy, imul(Y, ipow(oz, 3))), "projective", "Y = y Z^3")
    u.case(f"<{PROJ}<P> as core::convert::From<{AFF}<P>>>::from", to_proj)

    def on_curve(o, c):
        o.never()
        X, Y, inf = coords(c.in_[0])
        a, b = fatom("COEFF_A"), fatom("COEFF_B")
        eq = isub(S(Y), iadd(iadd(ipow(X, 3), imul(a, X)), b))
        for x in c.outs:
            for s, v in c.eng.branch(x.st.copy(), x.ret):
                if s.decide(inf) is True:
                    R.obligation("infinity is on the curve")
                    if not v:
                        o.fail(s, ONE, "on-curve", "infinity is on the curve")
                    continue
                must(o, s, fz(o.red(s, eq)), v, "on-curve", "exactly the points of y^2 = x^3 + a x + b are on the curve")
    u.case(f"{AFF}::<P>::is_on_curve", on_curve)

    def aident(o, c):
        for x in c.outs:
            ox, oy, inf = coords(x.ret)
            must(o, x.st, inf, True, "identity", "identity is infinite")
            o.zero(x.st, ox, "identity", "x = 0")
            o.zero(x.st, oy, "identity", "y = 0")
    u.case(f"{AFF}::<P>::identity", aident)
    u.case(f"<{AFF}<P> as curve::AffineRepr>::zero", aident)
    u.case(f"<{AFF}<P> as core::default::Default>::default", aident)

    def xy(o, c):
        X, Y, inf = coords(c.in_[0])
        for x in c.outs:
            some = x.ret.a[1] == 1
            must(o, x.st, inf, not some, "xy", "coordinates are given exactly for finite points")
            if some:
                o.zero(x.st, isub(x.ret.a[2].a[2], X), "xy", "x")
                o.zero(x.st, isub(x.ret.a[2].a[3], Y), "xy", "y")
    u.case(f"<{AFF}<P> as curve::AffineRepr>::xy", xy)

    # the provided accessors, over any implementation of xy
    inf_, xa, ya = mk("sym", "infinite", 0), fatom("x"), fatom("y")

    def anyxy(e, st, f, a, d):
        return [(s, mk("agg", d, 0) if v else mk("agg", d, 1, mk("agg", "tuple", 0, xa, ya))) for s, v in e.branch(st, inf_)]

    def coord(w):
        def f(o, c):
            o.never()
            for x in c.outs:
                some = x.ret.a[1] == 1
                must(o, x.st, inf_, not some, "xy", "a coordinate is given exactly for finite points")
                if some:
                    o.zero(x.st, isub(x.ret.a[2], w), "xy", "the coordinate asked for")
        return f

    def isz(o, c):
        o.never()
        for x in c.outs:
            for s, v in c.eng.branch(x.st.copy(), x.ret):
                must(o, s, inf_, v, "xy", "zero is the point without coordinates")

    def selfarg(eng, st, body):
        return [eng.ref(eng.new_cell(st, mk("sym", "point", 0)))]
    for p_, f_ in (("x", coord(xa)), ("y", coord(ya)), ("is_zero", isz)):
        u.case("curve::AffineRepr::" + p_, f_, args=selfarg, contracts={"curve::AffineRepr::xy": anyxy})

    def mula(o, c):
        e, a = c.in_[0], fatom("COEFF_A")
        for x in c.outs:
            o.zero(x.st, isub(x.ret, imul(e, a)), "coeff", "multiplication by a")
    u.case("curve::sw::SWCurveConfig::mul_by_a", mula)

    def addb(o, c):
        e, b = c.in_[0], fatom("COEFF_B")
        for x in c.outs:
            o.zero(x.st, isub(x.ret, iadd(e, b)), "coeff", "addition of b")
    u.case("curve::sw::SWCurveConfig::add_b", addb)


def eq_table(o, c, atoms, want):
    for x in c.outs:
        for s, v in c.eng.branch(x.st.copy(), x.ret):
            todo = [(s, [])]
            for a in atoms:
                nt = []
                for s2, vals in todo:
                    d = s2.decide(a)
                    if d is not None:
                        nt.append((s2, vals + [d]))
                    else:
                        for b in (True, False):
                            s3 = s2.copy()
                            if s3.assume(a, b):
                                nt.append((s3, vals + [b]))
                todo = nt
            for s2, vals in todo:
                o.R.obligation(f"{o.what}: equality table row {vals}")
                if bool(want(*vals)) != v:
                    o.fail(s2, ONE, "eq", f"equality is that of the represented points (row {vals})")


def same_bool(o, st, a, b, key, msg):
    for v in (True, False):
        s = st.copy()
        if s.assume(b, v):
            must(o, s, a, v, key, msg)


def affine_arg(u):
    def args(eng, st, body):
        out = [eng.fresh(st, body["locals"][1], "a0")]
        aff = next(i for i, t in enumerate(eng.T) if t.get("path") == AFF and t["k"] == "adt")
        out.append(eng.fresh(st, aff, "a1"))
        return out
    return args


# ------------------------------------------------------------ group level

class Group(OpIter, AInterp):
    """points are elements of an abelian group"""
    cutloops = True
    gtypes = (PROJ, AFF, "<P as curve::CurveConfig>::G")

    def isgroup(self, t, s):
        return t.get("path") in (PROJ, AFF) or s in ("Self", "T", "<Self as curve::AffineRepr>::Group", "<Self as curve::CurveGroup>::Affine") or s in self.gtypes

    def kind(self, i):
        return super().kind(i)

    def itemval(self, st, name, pos):
        if name == "bits":
            return mk("sym", f"bit({show(pos)})", 0)
        return fatom(f"item({show(pos)})")

    def algcall(self, st, f, args, dty):
        n = f["name"]
        if n in ("bit_be_trimmed_iter", "bit_be_iter"):
            self.scalars.append(self.v(st, args[0]))
            return [(st, self.opiter("bits"))]
        if n == "into_bigint":
            return [(st, mk("app", "bigint", self.v(st, args[0])))]
        if n == "characteristic" and not args:
            return [(st, mk("const", "characteristic"))]
        if n in ("into", "from") and len(args) == 1 and self.kind(dty) == "g":
            v = self.v(st, args[0])
            if isint(v):
                return [(st, v)]
        return super().algcall(st, f, args, dty)


def scale(k, p):
    return imul(fatom("scalar " + show(k)[:80]), p)


def group_contracts():
    C = {}
    lin = {"add": iadd, "sub": isub}

    def asg(e, st, f, a, d):
        x, y = e.v(st, a[0]), e.v(st, a[1])
        if not (isint(x) and isint(y)):
            return None
        e.store(st, a[0], iadd(x, y))
        return [(st, UNIT)]
    C[f"<{PROJ}<P> as core::ops::AddAssign<&'a {PROJ}<P>>>::add_assign"] = asg
    C[f"<{PROJ}<P> as core::ops::AddAssign<T>>::add_assign"] = asg

    def one(fn):
        return lambda e, st, f, a, d: [(st, fn(e.v(st, a[0])))] if isint(e.v(st, a[0])) else None
    for t in (PROJ, AFF):
        C[f"<{t}<P> as core::ops::Neg>::neg"] = one(neg)
    C[f"<{AFF}<P> as core::convert::From<{PROJ}<P>>>::from"] = one(lambda p: p)
    C[f"<{PROJ}<P> as core::convert::From<{AFF}<P>>>::from"] = one(lambda p: p)
    C[f"<{PROJ}<P> as num_traits::Zero>::is_zero"] = one(fz)
    C["curve::AffineRepr::is_zero"] = one(fz)

    def dbl(e, st, f, a, d):
        x = e.v(st, a[0])
        if not isint(x):
            return None
        e.store(st, a[0], imul(Int(2), x))
        return [(st, a[0])]
    C[f"<{PROJ}<P> as field::group::AdditiveGroup>::double_in_place"] = dbl
    zero = lambda e, st, f, a, d: [(st, ZERO)]
    for z in (f"<{PROJ}<P> as num_traits::Zero>::zero", f"<{AFF}<P> as curve::AffineRepr>::zero", f"{AFF}::<P>::identity",
              f"<{PROJ}<P> as core::default::Default>::default", f"<{AFF}<P> as core::default::Default>::default"):
        C[z] = zero
    return C


def mul_contracts():
    """scalar multiplication routines as scaling"""
    def m(e, st, f, a, d):
        p = e.v(st, a[0])
        if not isint(p):
            return None
        return [(st, scale(e.v(st, a[1]), p))]
    return {p: m for p in ("curve::sw::sw_double_and_add_affine", "curve::sw::sw_double_and_add_projective",
                           "curve::sw::SWCurveConfig::mul_affine", "curve::sw::SWCurveConfig::mul_projective")}


def group_args(u, vals=None):
    def args(eng, st, body):
        eng.scalars = []
        out = []
        for k in range(1, body["argc"] + 1):
            t = eng.T[body["locals"][k]]
            out.append(garg(eng, st, body["locals"][k], f"a{k - 1}"))
        return out
    return args


def garg(eng, st, i, name):
    t = eng.T[i]
    if t["k"] in ("ref", "ptr"):
        return eng.ref(eng.new_cell(st, garg(eng, st, t["to"], name)))
    if eng.kind(i) == "g":
        return fatom(name)
    if t["k"] == "param" and t["s"] == "I" or "Iterator" in t["s"]:
        return eng.opiter("bits" if "bool" in t["s"] else "items")
    return mk("sym", name, i)


def acc_value(v):
    """value carried by an accumulator: a number, or an optional number (None: unit)"""
    if isint(v):
        return v
    return None


def loop_form(o, c, step, unit, what, ret, kind="bits"):
    """the only loop computes acc := step(acc, bit) from `unit` over the bits in order"""
    R = o.R
    R.obligation(f"{o.what}: {what}")
    log = c.eng.cutlog
    if len(log) != 1:
        R.undecided.append(f"{o.what}: {len(log)} loops")
        return
    lg = log[0]
    its = set()
    for h in lg["heads"]:
        for cell, v in h["head"].mem.items():
            if isinstance(v, Term) and v.op == "it" and v.a[0] == "op" and v.a[2].op == "sym" and str(v.a[2].a[0]).startswith("loop:"):
                its.add(cell)
    if len(its) != 1:
        R.undecided.append(f"{o.what}: {len(its)} carried iterators")
        return
    ic = its.pop()

    def value(v):
        if v is None:
            return None
        if isint(v):
            return v
        if v.op == "agg" and isinstance(v.a[0], int) and c.eng.T[v.a[0]].get("path") == "core::option::Option":
            return unit if v.a[1] == 0 else (v.a[2] if isint(v.a[2]) else None)
        return None
    why = None
    cells = [k for k, v in lg["heads"][0]["head"].mem.items() if isinstance(v, Term) and k != ic and value(v) is not None]
    for cell in cells:
        bad = None
        n = 0
        i0 = value(lg["init"].mem.get(cell))
        if i0 is not unit or P0(lg["init"].mem[ic].a[2]):
            why = why or (lg["init"], isub(i0, unit) if i0 is not None else ONE, "start value")
            continue
        carried = False
        for h in lg["heads"]:
            hv = value(h["head"].mem.get(cell))
            pos = h["head"].mem[ic].a[2]
            carried |= hv is not None and hv.op == "sym" and str(hv.a[0]).startswith("loop:")
            for b in h["backs"]:
                n += 1
                nv = value(b.mem.get(cell))
                if nv is None or hv is None or b.mem[ic].a[2] is not iadd(pos, ONE):
                    bad = (b, ONE, "one bit per step")
                    break
                bit = b.decide(mk("sym", f"bit({show(pos)})", 0)) if kind == "bits" else c.eng.v(b, c.eng.itemval(b, kind, pos))
                if bit is None:
                    bad = (b, ONE, "every bit is examined")
                    break
                d = isub(nv, step(hv, bit))
                if P0(o.red(b, d)):
                    bad = (b, d, "step on bit " + str(int(bit)) if kind == "bits" else "step on an item")
                    break
            for tb, x in h["exits"]:
                if x.decide(mk("sym", f"more({kind},{show(pos)})", 0)) is not False:
                    bad = bad or (x, ONE, "the loop ends only after the last bit")
            if bad:
                break
        if bad is None and n and carried:
            for x in c.outs:
                rv = value(ret(x))
                R.obligation("result is the accumulated value")
                hs = list(dict.fromkeys(value(h["head"].mem[cell]) for h in lg["heads"]))
                if rv is None or not any(not P0(o.red(x.st, isub(rv, hv))) for hv in hs):
                    d = ONE
                    for hv in hs if rv is not None else ():
                        d = imul(d, isub(rv, hv))
                    why = (x.st, d, "the accumulated value is returned")
                    break
            else:
                return
        elif bad and carried:
            why = bad if why is None or why[2] == "start value" else why
    if why is None:
        R.undecided.append(f"{o.what}: no accumulator found")
        return
    st, d, msg = why
    if d is ONE or len([x for x in leaves([d]) if isinstance(x.a[0], str) and x.a[0].startswith("loop:")]) > 1:
        R.undecided.append(f"{o.what}: {what}: {msg}: not established")
    else:
        o.fail(st, d, "loop", f"{what}: {msg}", step=True)


def group_rules(u):
    R = u.R
    C = group_contracts()
    CM = dict(C)
    CM.update(mul_contracts())

    def binop(f, mut):
        def g(o, c):
            o.never()
            a, b = c.in_
            for x in c.outs:
                v = x.muts[0] if mut else x.ret
                o.zero(x.st, isub(v, f(a, b)), "value", "the operator is the group operation")
        return g
    skip = set(C)
    n = 0
    for b in sorted((b for b in u.P.bodies.values() if b["root"] == b["path"] and "#" not in b["key"].split("@")[0].split("[")[0]), key=lambda b: b["path"]):
        p = b["path"]
        if not (p.startswith("<") and (PROJ in p or AFF in p)) or p in skip:
            continue
        for nm, f, mut in (("add", iadd, False), ("sub", isub, False), ("add_assign", iadd, True), ("sub_assign", isub, True)):
            if p.endswith(">::" + nm) and " as core::ops::" in p and b["argc"] == 2:
                n += 1
                u.case(b, binop(f, mut), cls=Group, args=group_args(u), contracts=C)
    R.obligation("operators found")
    if n < 20:
        R.undecided.append(f"only {n} group operators found")

    # sums
    for b in sorted((b for b in u.P.bodies.values() if b["root"] == b["path"] and " as core::iter::Sum" in b["path"] and PROJ in b["path"] and b["path"].endswith("::sum")), key=lambda b: b["path"]):
        u.case(b, sums(iadd, ZERO), cls=Group, args=group_args(u), contracts=C)

    # scalar multiplication
    def dadd(o, c):
        o.never()
        base = c.in_[0]
        loop_form(o, c, lambda r, bit: iadd(imul(Int(2), r), base if bit else ZERO), ZERO, "double-and-add over the bits", lambda x: x.ret)
    for p in ("curve::sw::sw_double_and_add_affine", "curve::sw::sw_double_and_add_projective", "curve::PrimeGroup::mul_bits_be"):
        u.case(p, dadd, cls=Group, args=group_args(u), contracts=C)

    def scaled(k, mut=False):
        def f(o, c):
            o.never()
            for x in c.outs:
                v = x.muts[0] if mut else x.ret
                o.zero(x.st, isub(v, scale(k(c), c.in_[0])), "scalar", "the point is multiplied by the given scalar")
        return f
    arg = lambda c: c.in_[1]
    big = lambda c: mk("app", "bigint", c.in_[1])
    for p in ("curve::sw::SWCurveConfig::mul_projective", "curve::sw::SWCurveConfig::mul_affine", f"<{AFF}<P> as curve::AffineRepr>::mul_bigint", f"<{PROJ}<P> as curve::PrimeGroup>::mul_bigint"):
        u.case(p, scaled(arg), cls=Group, args=group_args(u), contracts=CM)
    u.case(f"<{AFF}<P> as core::ops::Mul<T>>::mul", scaled(big), cls=Group, args=scalar_args, contracts=CM)
    u.case(f"<{PROJ}<P> as core::ops::Mul<T>>::mul", scaled(big), cls=Group, args=scalar_args, contracts=CM)
    u.case(f"<{PROJ}<P> as core::ops::MulAssign<T>>::mul_assign", scaled(big, True), cls=Group, args=scalar_args, contracts=CM)
    cof = lambda c: mk("sym", "COFACTOR", 0)
    cons = {"COFACTOR": lambda e, st, c: mk("sym", "COFACTOR", 0), "COFACTOR_INV": lambda e, st, c: mk("sym", "COFACTOR_INV", 0)}
    def tocof(e, st, f, a, d):
        p = e.v(st, a[0])
        return [(st, scale(mk("sym", "COFACTOR", 0), p))] if isint(p) else None

    def bymul(e, st, f, a, d):
        p = e.v(st, a[0])
        return [(st, scale(e.v(st, a[1]), p))] if isint(p) else None
    CC = dict(CM)
    CC["curve::AffineRepr::mul_by_cofactor_to_group"] = tocof
    CC["curve::AffineRepr::mul_bigint"] = bymul
    u.case(f"<{AFF}<P> as curve::AffineRepr>::mul_by_cofactor_to_group", scaled(cof), cls=Group, args=group_args(u), contracts=CM, consts=cons)
    for p in ("curve::AffineRepr::mul_by_cofactor", f"<{AFF}<P> as curve::AffineRepr>::clear_cofactor", "curve::sw::SWCurveConfig::clear_cofactor"):
        u.case(p, scaled(cof), cls=Group, args=group_args(u), contracts=CC, consts=cons)
    u.case("curve::AffineRepr::mul_by_cofactor_inv", scaled(lambda c: mk("app", "bigint", mk("sym", "COFACTOR_INV", 0))), cls=Group, args=group_args(u), contracts=CC, consts=cons)

    def trimmed(o, c):
        o.never()
        for x in c.outs:
            R.obligation(f"{o.what}: only leading zero bits are left out")
            if not (x.ret.op == "it" and x.ret.a[0] == "op" and x.ret.a[1] == "bits" and not P0(x.ret.a[2])):
                R.undecided.append(f"{o.what}: {show(x.ret)[:80]}")
    u.case("bits::BitIteratorBE::bit_be_trimmed_iter", trimmed, cls=Group, args=group_args(u))

    # representation changes leave the point alone
    def keeps(o, c):
        o.never()
        for x in c.outs:
            o.zero(x.st, isub(x.ret, c.in_[0]), "same", "the point is unchanged")
    for p in ("curve::AffineRepr::into_group", "curve::CurveGroup::into_affine"):
        u.case(p, keeps, cls=Group, args=group_args(u), contracts=C)

    # additive group defaults
    def times(k, mut):
        def f(o, c):
            o.never()
            for x in c.outs:
                o.zero(x.st, isub(x.muts[0] if mut else x.ret, imul(Int(k), c.in_[0])), "default", f"{k} times the element")
        return f
    G = "field::group::AdditiveGroup::"
    u.case(G + "double", times(2, False), cls=Group, args=group_args(u), contracts=C)
    u.case(G + "double_in_place", times(2, True), cls=Group, args=group_args(u), contracts=C)
    u.case(G + "neg_in_place", times(-1, True), cls=Group, args=group_args(u), contracts=C)

    # the prime-order subgroup
    one = mk("sym", "cofactor is one", 0)
    oncurve, insub = mk("sym", "on curve", 0), mk("sym", "in subgroup", 0)
    CS = dict(CM)
    CS["curve::CurveConfig::cofactor_is_one"] = lambda e, st, f, a, d: [(st, one)]

    def subgroup(o, c):
        o.never()
        order = fz(scale(mk("const", "characteristic"), c.in_[0]))
        eq_table(o, c, [one, order], lambda a, b: a or b)
    for p in ("curve::sw::SWCurveConfig::is_in_correct_subgroup_assuming_on_curve", f"{AFF}::<P>::is_in_correct_subgroup_assuming_on_curve"):
        u.case(p, subgroup, cls=Group, args=group_args(u), contracts=CS)

    CN = {f"{AFF}::<P>::is_on_curve": lambda e, st, f, a, d: [(see(e, st, a), oncurve)],
          f"{AFF}::<P>::is_in_correct_subgroup_assuming_on_curve": lambda e, st, f, a, d: [(see(e, st, a), insub)],
          "curve::sw::SWCurveConfig::is_in_correct_subgroup_assuming_on_curve": lambda e, st, f, a, d: [(see(e, st, a), insub)]}
    seen = []

    def see(e, st, a):
        seen.append(e.v(st, a[0]))
        return st

    def fresh_checked(proj):
        def f(o, c):
            for x in c.outs:
                must(o, x.st, oncurve, True, "new", "points off the curve are refused")
                must(o, x.st, insub, True, "new", "points outside the subgroup are refused")
                if proj:
                    continue
                same_point(o, x.st, mk("agg", 0, 0, *coords(x.ret)[:2]), c.in_, "new", "the given coordinates are stored")
                must(o, x.st, coords(x.ret)[2], False, "new", "the point is finite")
            for v in seen:
                if proj:
                    continue
                R.obligation(f"{o.what}: the point itself is validated")
                for a, b in zip(coords(v)[:2], c.in_):
                    if P0(isub(a, b)):
                        o.fail(c.outs[0].st, isub(a, b), "new", "the point itself is validated")
            if proj:
                X, Y, Z = c.in_
                for x in c.outs:
                    ox, oy, oz = coords(x.ret)
                    o.zero(x.st, isub(imul(ox, S(Z)), imul(X, S(oz))), "new", "the same point: x")
                    o.zero(x.st, isub(imul(oy, ipow(Z, 3)), imul(Y, ipow(oz, 3))), "new", "the same point: y")
            if not c.outs:
                R.violation(f"{o.what}:new", f"{o.what}: no point is ever accepted")
        return f
    u.case(f"{AFF}::<P>::new", fresh_checked(False), contracts=CN)
    seen = []
    u.case(f"{PROJ}::<P>::new", fresh_checked(True), contracts=CN)

    # generator
    def gen(o, c):
        for x in c.outs:
            o.zero(x.st, isub(x.ret, fatom("GENERATOR")), "generator", "the curve's generator")
    u.case(f"<{AFF}<P> as curve::AffineRepr>::generator", gen, cls=Group, args=group_args(u), contracts=C)
    u.case(f"<{PROJ}<P> as curve::PrimeGroup>::generator", gen, cls=Group, args=group_args(u), contracts=C)

    # cofactor one
    for k in range(4):
        def cof_args(e, st, cc, k=k):
            xs = []
            for i in range(k):
                y = mk("sym", f"cofactor limb {i}", 0)
                RG.RNG[y] = (0, (1 << 64) - 1)
                WID[y] = 64
                xs.append(y)
            return e.ref(e.new_cell(st, mk("agg", "array", 0, *xs)))

        def is_one(o, c, k=k):
            o.never()
            xs = [mk("sym", f"cofactor limb {i}", 0) for i in range(k)]
            for x in c.outs:
                for s, b in c.eng.branch(x.st.copy(), x.ret):
                    R.obligation(f"{o.what}[{k} limbs]: one exactly when the lowest limb is 1 and the others 0")
                    for i, y in enumerate(xs):
                        want = 1 if i == 0 else 0
                        if b and not (s.entails(isub(y, Int(want))) and s.entails(isub(Int(want), y))):
                            lim(o, s, isub(y, Int(want)), True)
                    if b and not k:
                        R.violation(f"{o.what}:one", f"{o.what}: the empty cofactor is not one")
                    if not b and k:
                        s2 = s.copy()
                        if all(s2.assume(ieq_(y, 1 if i == 0 else 0), True) for i, y in enumerate(xs)) and consistent(s2):
                            R.violation(f"{o.what}:one", f"{o.what}: a cofactor of one is not recognised ({k} limbs)")
        u.case("curve::CurveConfig::cofactor_is_one", is_one, consts={"COFACTOR": cof_args})


def ieq_(y, k):
    return RG.Zero(isub(y, Int(k)))


def consistent(s):
    return not s.entails(Int(-1))


def lim(o, s, p, want):
    w = None
    from .field import witness
    w = witness(s, Bad([p], lambda e: ev(p, e) != 0))
    if w:
        o.R.violation(f"{o.what}:one", f"{o.what}: another cofactor counts as one, at {w}")
    else:
        o.R.undecided.append(f"{o.what}: cofactor comparison not established")


def batch_rules(u, top):
    """batch inversion and normalisation for every zero pattern of short batches"""
    R = u.R

    def vec_args(n, kind, extra=0):
        def args(eng, st, body):
            xs = []
            for i in range(n):
                if kind == "f":
                    xs.append(fatom(f"v{i}"))
                else:
                    t = next(i for i, t in enumerate(eng.T) if t.get("path") == PROJ and t["k"] == "adt")
                    xs.append(eng.fresh(st, t, f"v{i}"))
            out = [eng.ref(eng.new_cell(st, mk("agg", "array", 0, *xs)))]
            for j in range(extra):
                out.append(eng.ref(eng.new_cell(st, fatom("coeff"))))
            return out
        return args

    def inv(coeff):
        def f(o, c):
            o.never()
            k = fatom("coeff") if coeff else ONE
            for x in c.outs:
                for i, (a, b) in enumerate(zip(afields(c.in_[0]), afields(x.muts[0]))):
                    z = x.st.decide(fz(a))
                    if z is None:
                        R.undecided.append(f"{o.what}: item {i}: zero not told apart")
                    elif z:
                        o.zero(x.st, b, "batch", "zeros stay zero")
                    else:
                        o.zero(x.st, isub(imul(a, b), k), "batch", "every non-zero item is inverted (times the factor)")
        return f

    def norm(o, c):
        o.never()
        for x in c.outs:
            v = seqof(x.ret)
            R.obligation(f"{o.what}: one affine point per projective point")
            if v is None or len(v) != len(afields(c.in_[0])):
                R.undecided.append(f"{o.what}: result {show(x.ret)[:80]}")
                continue
            for a, b in zip(afields(c.in_[0]), v):
                X, Y, Z = coords(a)
                ox, oy, inf = coords(b)
                z = x.st.decide(fz(Z))
                R.obligation("infinity flag")
                if z is None:
                    R.undecided.append(f"{o.what}: infinity not told apart")
                elif x.st.decide(inf) is not z:
                    o.fail(x.st, ONE, "batch", "infinity is kept")
                elif not z:
                    o.zero(x.st, isub(imul(ox, S(Z)), X), "batch", "x = X / Z^2")
                    o.zero(x.st, isub(imul(oy, ipow(Z, 3)), Y), "batch", "y = Y / Z^3")
    for n in range(top + 1):
        u.case("curve::batch_inversion", inv(False), args=vec_args(n, "f"))
        u.case(f"<{PROJ}<P> as curve::CurveGroup>::normalize_batch", norm, args=vec_args(n, "p"))


def seqof(v):
    if v.op == "agg" and v.a[0] == "array":
        return list(v.a[2:])
    if v.op in ("seq", "vec"):
        return [x for x in v.a if isinstance(x, Term)]
    return None


def scalar_args(eng, st, body):
    eng.scalars = []
    t = body["locals"][1]
    return [garg(eng, st, t, "a0"), mk("sym", "scalar", 0)]


def sums(op, unit):
    def f(o, c):
        o.never()
        R = o.R
        R.obligation(f"{o.what}: accumulates every item")
        for x in c.outs:
            tr = c.eng.trace
            if len(tr) == 1:
                init, acc, it, res, folded = tr[0]
                if x.ret is folded:
                    o.zero(x.st, isub(init, unit), "sum", "starts from the neutral element")
                    o.zero(x.st, isub(res, op(acc, it)), "sum", "each item is accumulated once")
                    continue
            if not tr:
                loop_form(o, c, op, unit, "sum over the items", lambda x: x.ret, "items")
                return
            R.undecided.append(f"{o.what}: not a fold")
    return f


def p_curve(R, tier="quick"):
    u = Cv(R)
    coord_rules(u)
    group_rules(u)
    batch_rules(u, 3 if tier == "quick" else 5)
