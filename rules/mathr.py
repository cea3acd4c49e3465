"""256-bit integer square root, average and multiply-divide"""
from fractions import Fraction
from math import isqrt
from .common import *
from .structs import run, Undecided, subterms
from engine.interp import State

M256 = 1 << 256


def fold(t, env):
    """constant-propagate a value term for one abstract value of its inputs"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = ev(t)
        return r

    def ev(t):
        if t in env:
            return env[t]
        o = t.op
        if o == "int":
            return t.a[0]
        if o == "bool":
            return int(t.a[0])
        if o == "poly":
            s = 0
            for k, c in t.a[1]:
                for x in k:
                    c *= go(x)
                s += c
            return s % (1 << t.a[0]) if t.a[0] else s
        if o in ("div", "cdiv", "rem"):
            a, b = go(t.a[1]), go(t.a[2])
            if b == 0:
                raise Undecided("division by zero")
            return a // b if o == "div" else -(-a // b) if o == "cdiv" else a % b
        if o in ("band", "bor", "bxor"):
            a, b = go(t.a[1]), go(t.a[2])
            return a & b if o == "band" else a | b if o == "bor" else a ^ b
        if o == "shl":
            s = go(t.a[2])
            return (go(t.a[1]) << s) % (1 << t.a[0]) if s < 600 else 0
        if o == "shr":
            s = go(t.a[2])
            return go(t.a[1]) >> s if s < 600 else 0
        if o == "b2i":
            return go(t.a[0])
        if o == "not":
            return 1 - go(t.a[0])
        if o == "lt":
            return int(go(t.a[-2]) < go(t.a[-1]))
        if o == "eq":
            return int(go(t.a[-2]) == go(t.a[-1]))
        if o == "zext":
            return go(t.a[-1]) % (1 << t.a[0])
        if o == "ite":
            return go(t.a[1]) if go(t.a[0]) else go(t.a[2])
        raise Undecided(f"operator {o}")
    return go(t)


def consistent(st, env):
    for c, p in st.order:
        if bool(fold(c, env)) != p:
            return False
    return True


def interval(st, a):
    """[lo, hi] of the integer a from the path facts"""
    lo, hi = 0, M256 - 1
    for c, p in st.order:
        if c.op != "lt":
            if c.op == "eq" and p and a in c.a[-2:]:
                o = [x for x in c.a[-2:] if x is not a]
                if o and o[0].op == "int":
                    lo, hi = max(lo, o[0].a[0]), min(hi, o[0].a[0])
            continue
        x, y = c.a[-2:]
        if y.op == "int":
            k, t, lower = y.a[0], x, not p
        elif x.op == "int":
            k, t, lower = x.a[0] + 1, y, p
        else:
            continue
        s = 1
        while t.op == "div" and t.a[2].op == "int":
            s *= t.a[2].a[0]
            t = t.a[1]
        if t is not a:
            continue
        if lower:
            lo = max(lo, k * s)
        else:
            hi = min(hi, k * s - 1)
    return lo, hi


def nest(t, a):
    """t = Newton iterate: (start constant, number of steps)"""
    if t.op == "int":
        return t.a[0], 0, [t]
    if t.op == "div" and t.a[2] is Int(2) and t.a[1] is add(256, a, ONE):
        return 1, 1, [ONE, t]       # a/1 is a
    if t.op == "div" and t.a[2] is Int(2) and t.a[1].op == "poly":
        p = dict(t.a[1].a[1])
        if sum(c for c in p.values()) == 2 and len(p) == 2 or (() in p and len(p) == 2):
            for k, c in list(p.items()):
                if len(k) == 1 and c == 1 and k[0].op == "div" and k[0].a[1] is a:
                    x = k[0].a[2]
                    if add(256, x, k[0]) is t.a[1]:
                        s, n, xs = nest(x, a)
                        return s, n + 1, xs + [t]
    raise Undecided(f"iterate {show(t)[:100]}")


def newton(x0, n, lo, hi):
    """(upper bound of x_n - sqrt(a), lower bound of every x_k) for a in [lo, hi]"""
    slo, shi = isqrt(lo), isqrt(hi) + 1
    if x0 == 0 or lo == 0:
        return None
    xmin = min(x0, slo)
    if n == 0:
        return Fraction(max(x0 - slo, 0)), x0
    e = max(Fraction((x0 - slo) ** 2, 2 * x0), Fraction((x0 - shi) ** 2, 2 * x0))
    for _ in range(n - 1):
        e = max(e, Fraction(1)) ** 2 / (2 * slo)
    return e, xmin


def p_math(R):
    def sqrt(eng, outs, args):
        a = args[0]
        used = {}
        und = []
        for o in outs:
            try:
                path(o, a, used)
            except Undecided as e:
                und.append(e)
        if und:
            raise und[0]
        R.notes.append(f"sqrt: {len(used)} input intervals, Newton error below 1 after the iteration on each")

    def path(o, a, used):
        if True:
            lo, hi = interval(o.st, a)
            if lo > hi:
                return
            if o.kind == "panic":
                # a division by an iterate: it is never zero
                dead = False
                for c, p in o.st.order:
                    if c.op == "eq" and p and ZERO in c.a[-2:]:
                        t = [x for x in c.a[-2:] if x is not ZERO][0]
                        x0, n, _ = nest(t, a)
                        b = newton(x0, n, lo, hi)
                        if b and b[1] >= 1:
                            dead = True
                if not dead:
                    raise Mismatch(f"sqrt can panic for an input in [{lo}, {hi}]")
                return
            v = o.val
            probe = {lo, hi, isqrt(hi) ** 2, isqrt(hi) ** 2 - 1, (isqrt(lo) + 1) ** 2, (isqrt(lo) + 1) ** 2 - 1, (lo + hi) // 2}

            def refute(why):
                for x in sorted(probe):
                    if lo <= x <= hi and consistent(o.st, {a: x}):
                        r = fold(v, {a: x})
                        if r != isqrt(x):
                            raise Mismatch(f"sqrt({x:#x}) folds to {r:#x} instead of {isqrt(x):#x} ({why})")
                raise Undecided(why)
            if v is a:
                if hi > 1:
                    refute("returns its argument")
                return
            if v.op == "int":
                if isqrt(lo) != v.a[0] or isqrt(hi) != v.a[0]:
                    refute("constant result")
                return
            # x - [a/x < x]
            x = None
            p = as_poly(v, 256)
            cand = [k[0] for k, c in p.items() if len(k) == 1 and c == 1]
            for y in cand:
                for corr in (mk("b2i", Lt(mk("div", 256, a, y), y)),):
                    if sub(256, y, corr) is v:
                        x = y
            if x is None:
                # branch instead of arithmetic correction
                for y, w in ((v, False), (add(256, v, ONE), True)):
                    try:
                        nest(y, a)
                    except Undecided:
                        continue
                    if o.st.decide(Lt(mk("div", 256, a, y), y)) is w:
                        x = y
            if x is None:
                refute(f"final correction {show(v)[:100]}")
            try:
                x0, n, xs = nest(x, a)
            except Undecided as e:
                refute(str(e))
            key = (x0, n, lo, hi)
            if key in used:
                return
            b = newton(x0, n, lo, hi)
            if b is None or not b[0] < 1 or b[1] < 1 or x0 + hi // min(x0, b[1]) >= M256:
                refute(f"{n} steps from {x0} on [{lo:#x}, {hi:#x}] leave an error bound of {float(b[0]) if b else 'none'}")
            used[key] = True

    def average(eng, outs, args):
        a, b = args[:2]
        mnmx = []
        for o in outs:
            if o.kind != "ok" or o.st.trace:
                raise Mismatch("average can fail")
            v = o.val
            h = lambda t: mk("div", 256, t, Int(2))
            band = lambda x, y: mk("band", 256, *sorted((x, y), key=lambda t: t.id))
            bx = [t for t in subterms(v) if t.op == "bxor" and {t.a[1], t.a[2]} == {a, b}]
            bn = [t for t in subterms(v) if t.op == "band" and {t.a[1], t.a[2]} == {a, b}]
            ok = False
            if bx and bn and v is add(256, bn[0], h(bx[0])):
                ok = True
            lt = o.st.decide(Lt(a, b))
            gt = o.st.decide(Lt(b, a))
            if v is add(256, a, h(sub(256, b, a))) and (lt is True or gt is False):
                ok = True
            if v is add(256, b, h(sub(256, a, b))) and (gt is True or lt is False):
                ok = True
            if v.op == "div" and v.a[2] is Int(2) and v.a[0] >= 257 and v.a[1] is add(v.a[0], a, b):
                ok = True
            if v is a and o.st.decide(Eq(a, b)) is True:
                ok = True
            r = sub(256, v, add(256, h(a), h(b)))       # a/2 + b/2 + (a & b & 1)
            if r.op == "band":
                xs, todo = set(), [r]
                while todo:
                    x = todo.pop()
                    if x.op == "band":
                        todo += x.a[1:]
                    else:
                        xs.add(x)
                ok = ok or xs == {a, b, Int(1)}
            if ok:
                continue
            mx = M256 - 1
            pts = [0, 1, 2, 3, 5, mx, mx - 1, mx // 2, mx // 2 + 1, 1 << 128]
            for x in pts:
                for y in pts:
                    env = {a: x, b: y}
                    if consistent(o.st, env):
                        r = fold(v, env)
                        if r != (x + y) // 2:
                            raise Mismatch(f"average({x:#x}, {y:#x}) folds to {r:#x} instead of {(x + y) // 2:#x}")
            raise Undecided(f"average is {show(v)[:100]}")
    run(R, "Math::sqrt", R.fn("Uint", "sqrt", "Math"), sqrt)
    run(R, "Math::average", R.fn("Uint", "average", "Math"), average)

    def md(S):
        x, y, d, r = S.args
        up = not S.cond(Eq(mk("discr", r), ZERO))
        if up:
            S.assume(Eq(mk("discr", r), ONE))
        S.require(nz(d))
        return quotient(S, mul(512, x, y), d, up)
    R.verify("Math::mul_div", R.fn("Uint", "mul_div", "Math"), md)
