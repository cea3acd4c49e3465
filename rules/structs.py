"""Bit map and checkpoint traces"""
from .common import *
from engine.interp import State

ME = ("self",)
FULL = (1 << 256) - 1


class Undecided(Exception):
    pass


def run(R, name, body, fn, stubs=None):
    """analyse `body`, apply `fn(eng, outs, args)` (which raises Mismatch/Undecided)"""
    if body is None:
        R.violation(f"{name}:missing", f"{name}: the entry point no longer exists")
        R.obligation(name, False)
        return None
    try:
        eng, outs, args = R.analyse(body, stubs=stubs)
        fn(eng, outs, args)
    except Mismatch as m:
        un = [u for o in outs for u in eng.opaque_in(o) if not u.startswith(("tiny_keccak::", "<tiny_keccak::"))]
        if un:
            R.undecided.append(f"{name}: depends on unmodelled {un[:3]}: {m.msg[:120]}")
            R.obligation(name, None)
            return None
        R.violation(f"{name}: {m.msg}", f"{name} ({body['path']}): {m.msg}", f"{body['file']}:{body['line']}")
        R.obligation(name, False)
        return False
    except (Undecided, Unsupported, Budget, RecursionError, TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
        R.undecided.append(f"{name}: {e}")
        R.obligation(name, None)
        return None
    R.obligation(name, True)
    return True


# ------------------------------------------------------------------ bit map
def wiring(t, i, n=256):
    """t as a wiring of the bits of i: per output bit None (0) or the input bit number"""
    if t is i:
        return list(range(n))
    if t.op == "int":
        if t.a[0] == 0:
            return [None] * n
        raise Undecided(f"constant {t.a[0]:#x} in an address")
    if t.op in ("zext", "trunc"):
        w = wiring(t.a[-1], i)
        if t.op == "trunc":
            ks = [x for x in t.a[:-1] if isinstance(x, int)]
            if len(ks) != 1:
                raise Undecided(f"address {show(t)[:80]}")
            w = [x if k < ks[0] else None for k, x in enumerate(w)]
        return w
    if t.op == "elem" and t.a[0].op == "app" and t.a[0].a[0] == "limbs" and t.a[1].op == "int":
        k = t.a[1].a[0]
        return (wiring(t.a[0].a[1], i)[64 * k:64 * k + 64] + [None] * n)[:n]
    if t.op in ("div", "rem", "shr", "shl") and t.a[2].op == "int":
        c = t.a[2].a[0]
        if t.op in ("shr", "shl"):
            k = c
        elif c and c & (c - 1) == 0:
            k = c.bit_length() - 1
        else:
            raise Undecided(f"address {show(t)[:80]}")
        w = wiring(t.a[1], i)
        if t.op == "rem":
            return w[:k] + [None] * (n - k)
        if t.op == "shl":
            b = t.a[0] if isinstance(t.a[0], int) else n
            return (([None] * k + w)[:b] + [None] * n)[:n]
        return w[k:] + [None] * min(k, n)
    if t.op == "band":
        for c, x in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if c.op == "int":
                return [y if c.a[0] >> k & 1 else None for k, y in enumerate(wiring(x, i))]
    if t.op in ("bor", "bxor"):
        x, y = wiring(t.a[1], i), wiring(t.a[2], i)
        if all(p is None or q is None for p, q in zip(x, y)):
            return [q if p is None else p for p, q in zip(x, y)]
    if t.op == "app" and t.a[0] == "from_limbs" and t.a[1].op == "agg":
        w = []
        for x in afields(t.a[1]):
            w += wiring(x, i)[:64]
        return (w + [None] * n)[:n]
    if t.op == "poly":
        d = dict(t.a[1])
        if len(d) == 1:
            (k, c), = d.items()
            if len(k) == 1 and c > 0 and c & (c - 1) == 0:
                b = t.a[0] if isinstance(t.a[0], int) else n
                return (([None] * (c.bit_length() - 1) + wiring(k[0], i))[:b] + [None] * n)[:n]
    raise Undecided(f"address {show(t)[:80]}")


class Bits:
    """bit-sliced truth table of a word expression over (mask bit, word bit)"""

    def __init__(self, i):
        self.i = i
        self.word = None
        self.c1 = self.c2 = None

    def load(self, t):
        k = t.a[-1]
        if len(t.a) != 4 or isinstance(k, str):
            raise Undecided(f"location {show(t)[:80]}")
        c1 = tuple(wiring(k[1], self.i))
        if self.word is not None and self.word is not t:
            raise Mismatch("reads another bucket than it uses")
        self.word, self.c1 = t, c1

    def mask(self, t):
        c2 = tuple(wiring(t.a[2], self.i))
        if self.c2 not in (None, c2):
            raise Mismatch("two different bit positions")
        self.c2 = c2

    def ev(self, t, M, W):
        if t.op == "int":
            if t.a[0] == 0:
                return 0
            if t.a[0] == FULL:
                return 1
            raise Undecided(f"constant {t.a[0]:#x} in a bucket value")
        if t.op == "sload":
            self.load(t)
            return W
        if t.op == "shl" and t.a[0] == 256 and t.a[1] is ONE:
            self.mask(t)
            return M
        if t.op in ("band", "bor", "bxor") and t.a[0] == 256:
            x, y = self.ev(t.a[1], M, W), self.ev(t.a[2], M, W)
            return x & y if t.op == "band" else x | y if t.op == "bor" else x ^ y
        if t.op == "poly" and t.a[0] == 256:
            d = dict(t.a[1])
            one = d.pop((), 0)
            if len(d) == 1 and one == FULL:
                (k, c), = d.items()
                if c == FULL and len(k) == 1:
                    return 1 - self.ev(k[0], M, W)
        raise Undecided(f"bucket value {show(t)[:100]}")

    def table(self, t):
        return tuple(self.ev(t, m, w) for m in (0, 1) for w in (0, 1))

    def test(self, c):
        """a condition equivalent to 'the bit is set' -> True, to 'not set' -> False"""
        if c.op == "not":
            return not self.test(c.a[0])
        if c.op != "eq":
            raise Undecided(f"condition {show(c)[:100]}")
        a, b = c.a[-2:]
        if b.op == "int" and a.op != "int":
            a, b = b, a
        for x, s in ((b, "r"),):
            sh = None
            if x.op == "band" and (x.a[1] is ONE or x.a[2] is ONE):
                sh = x.a[2] if x.a[1] is ONE else x.a[1]
            elif x.op == "rem" and x.a[2] is Int(2):
                sh = x.a[1]
            if sh is not None and sh.op == "shr" and sh.a[1].op == "sload":
                self.load(sh.a[1])
                self.mask(mk("shl", 256, ONE, sh.a[2]))
                return {0: False, 1: True}[a.a[0]]
        if a is ZERO:
            t = self.table(b)
            if t == (0, 0, 0, 1):
                return False
            if t == (0, 0, 1, 0):
                return True
            raise Mismatch(f"tests {show(b)[:120]}, which is not the addressed bit")
        ta, tb = self.table(a), self.table(b)
        # equal words  <=>  for mask bit: W set, elsewhere equal for both W
        d = tuple(x ^ y for x, y in zip(ta, tb))
        if d == (0, 0, 1, 0):
            return True
        if d == (0, 0, 0, 1):
            return False
        raise Mismatch(f"compares {show(a)[:80]} with {show(b)[:80]}: not the addressed bit")


def p_bitmap(R):
    seen = {}

    def fin(f, b):
        if b.c1 is None or b.c2 is None:
            raise Mismatch("does not address a single bit of a single bucket")
        if any(x is not None for x in b.c2[8:]):
            raise Mismatch("the bit position can exceed 255, so some index has no bit")
        lost = set(range(256)) - set(b.c1) - set(b.c2)
        if lost:
            raise Mismatch(f"bit {min(lost)} of the index reaches neither the bucket nor the bit position: distinct indices share a bit")
        key = (b.word.a[1:-1], b.c1, b.c2)
        for g, k in seen.items():
            if k != key:
                raise Mismatch(f"addresses another bit than {g} does")
        seen[f] = key

    def get(eng, outs, args):
        for o in outs:
            if o.kind != "ok" or o.st.trace:
                raise Mismatch(f"get has a {o.kind} path with effects or failure")
            b = Bits(args[1])
            if o.val.op == "bool":
                got = None
                for c, p in o.st.order:
                    try:
                        got = b.test(c) == p
                    except Undecided:
                        continue
                if got is None:
                    if not any(x.op == "sload" for c, p in o.st.order for x in subterms(c)):
                        raise Mismatch("get returns a constant without reading the bit")
                    raise Undecided("get returns a constant on an uninterpreted condition")
                if got != o.val.a[0]:
                    raise Mismatch("get returns the opposite of the bit")
            else:
                if not b.test(o.val):
                    raise Mismatch("get returns the opposite of the bit")
            fin("get", b)

    def put(f):
        def h(eng, outs, args):
            for o in outs:
                if o.kind != "ok":
                    raise Mismatch(f"{f} fails on some path")
                to = {"set": True, "unset": False}.get(f)
                if to is None:
                    to = o.st.decide(args[2])
                    if to is None:
                        raise Undecided("set_to does not branch on its argument")
                want = (0, 1, 1, 1) if to else (0, 1, 0, 0)
                b = Bits(args[1])
                ws = [e for e in o.st.trace if e[0] == "write"]
                if [e for e in o.st.trace if e[0] != "write"]:
                    raise Mismatch(f"{f} has another effect than one write")
                if len(ws) != 1:
                    # no write is right when the bit is known to have the value
                    known = None
                    for c, p in o.st.order:
                        try:
                            known = b.test(c) == p
                        except (Undecided, Mismatch):
                            pass
                    if not ws and known == to:
                        continue
                    if ws or known is not None or not any(x.op == "sload" for c, p in o.st.order for x in subterms(c)):
                        raise Mismatch(f"{f} performs {len(ws)} writes")
                    raise Undecided(f"{f} writes nothing on an uninterpreted condition")
                loc, val = ws[0][1][:2]
                t = b.table(val)
                if b.word is None or tuple(b.word.a[1:]) != tuple(loc):
                    raise Mismatch(f"{f} writes {pathstr(loc)} from the value of another bucket")
                if t != want:
                    # facts about the bit restrict the table
                    known = None
                    for c, p in o.st.order:
                        try:
                            known = Bits(args[1]).test(c) == p
                        except (Undecided, Mismatch):
                            pass
                    keep = [k for k in range(4) if not (known is not None and k >= 2 and (k & 1) != int(known))]
                    if any(t[k] != want[k] for k in keep):
                        raise Mismatch(f"{f} writes {show(val)[:160]}: bit table {t}, expected {want}")
                fin(f, b)
        return h
    run(R, "BitMap::get", R.fn("BitMap", "get"), get)
    for f in ("set", "unset", "set_to"):
        run(R, "BitMap::" + f, R.fn("BitMap", f), put(f))


# -------------------------------------------------------------- checkpoints
D = mk("sym", "half of high-low")


def subst(t, m):
    if not isinstance(t, Term):
        return tuple(subst(x, m) for x in t) if isinstance(t, tuple) else t
    if t in m:
        return m[t]
    if t.op == "poly":
        r = ZERO
        for k, c in t.a[1]:
            p = Int(c)
            for x in k:
                p = mul(t.a[0], p, subst(x, m))
            r = add(t.a[0], r, p)
        return r
    if not t.a:
        return t
    a = tuple(subst(x, m) for x in t.a)
    return t if a == t.a else mk(t.op, *a)


def halves(t, l, h):
    """l + floor((h-l)/2) in the poly ring over {l, h, D}"""
    def w(t):
        if not isinstance(t, Term):
            return t
        if t.op == "div" and t.a[2] is Int(2):
            n = t.a[1]
            if n is sub(256, h, l):
                return D
            if n is add(256, h, l):
                return add(256, l, D)
            if n.op == "bxor" and {n.a[1], n.a[2]} == {l, h}:
                return add(256, D, sub(256, l, mk("band", *([256] + sorted((l, h), key=lambda x: x.id)))))
            c = sub(256, n, add(256, h, l))
            if c.op == "int" and c.a[0] % 2 == 0:
                k = c.a[0] if c.a[0] < 1 << 255 else c.a[0] - (1 << 256)
                return add(256, add(256, l, D), Int(k // 2 % (1 << 256)))
            if c.op == "int" and c.a[0] == 1:
                return sub(256, h, D)
        if t.op == "band":
            xs, todo = set(), [t]
            while todo:
                x = todo.pop()
                if x.op == "band":
                    todo += x.a[1:]
                else:
                    xs.add(x)
            if xs == {l, h, Int(1)}:
                return sub(256, add(256, l, D), add(256, mk("div", 256, l, Int(2)), mk("div", 256, h, Int(2))))
        if t.op == "bor" and {t.a[1], t.a[2]} == {l, h}:
            return sub(256, add(256, l, h), mk("band", *([256] + sorted((l, h), key=lambda x: x.id))))
        if t.op == "bxor" and {t.a[1], t.a[2]} == {l, h}:
            b = mk("band", *([256] + sorted((l, h), key=lambda x: x.id)))
            return sub(256, add(256, l, h), mul(256, Int(2), b))
        if t.op == "band" and {t.a[1], t.a[2]} == {l, h}:
            return mk("band", *([256] + sorted((l, h), key=lambda x: x.id)))
        if t.op == "poly" and t.a[0] == 256:
            r = ZERO
            for k, c in t.a[1]:
                p = Int(c)
                for x in k:
                    p = mul(256, p, w(x))
                r = add(256, r, p)
            return r
        return t
    return w(t)


def between(m, l, h):
    """decide l <= m < h given l < h, for m linear in l, h and D; None: unknown"""
    p = as_poly(halves(m, l, h), 256)
    s = {}
    for k, c in p.items():
        if len(k) > 1 or (k and k[0] not in (l, h, D)):
            return None
        s[k[0] if k else 1] = c if c < 1 << 255 else c - (1 << 256)
    al, ah, ad, c0 = s.get(l, 0), s.get(h, 0), s.get(D, 0), s.get(1, 0)
    if al + ah != 1:
        return None if al + ah == 0 else False
    # m - l = ah*d + ad*D + c0, d = h - l >= 1
    for par in (0, 1):
        # d = 2e + par ; D = e
        k, c = 2 * ah + ad, ah * par + c0
        e0 = 1 if par == 0 else 0
        if k * e0 + c < 0 or k < 0:
            return False
        # m-l < d : (2-k) e + par - c > 0
        if (2 - k) * e0 + par - c <= 0 or k > 2:
            return False
    return True


class Lookup:
    def __init__(self, R, strict, ln, keyloc, valloc, arg, sq):
        self.known = set()
        self.R, self.strict, self.ln, self.k, self.v, self.arg, self.sq = R, strict, ln, keyloc, valloc, arg, sq

    def key(self, i):
        return mk("sload", 0, *self.k(i))

    def P(self, i, strict=None):
        """the searched monotone predicate at position i"""
        strict = self.strict if strict is None else strict
        return Lt(self.arg, self.key(i)) if strict else Not(Lt(self.key(i), self.arg))

    def loop(self, st, info):
        """exit facts of a bisection loop: (low, high) symbols; or raise"""
        lvs = [c[0] for c in info.carried]
        low = high = None
        for fx, tr in info.iters:
            if tr:
                raise Mismatch("the lookup loop has side effects")
            g = None
            for c, p in fx:
                if c.op == "lt" and p and c.a[-2] in lvs and c.a[-1] in lvs:
                    g = (c.a[-2], c.a[-1])
                elif c.op == "eq" and not p and c.a[-2] in lvs and c.a[-1] in lvs:
                    g = g or "ne"
            if g is None:
                raise Undecided("loop guard")
            if g != "ne":
                if low is not None and (low, high) != g:
                    raise Undecided("loop guard")
                low, high = g
        if low is None:
            # guard low != high: tell them apart by the initial value
            two = [c for c in info.carried if c[0] in lvs]
            z = [c[0] for c in two if c[1] is ZERO]
            if len(two) != 2 or len(z) != 1:
                raise Undecided("loop guard")
            low = z[0]
            high = [c[0] for c in two if c[0] is not low][0]
        nxt = {c[0]: c for c in info.carried}
        qs = []
        n = len(info.iters)
        for e, (fx, tr) in enumerate(info.iters):
            l2, h2 = nxt[low][2][e], nxt[high][2][e]
            s = State()
            for c, p in fx:
                s.assume(c, p)
            if l2 is low:
                m, side = h2, True
            elif h2 is high:
                m, side = sub(256, l2, ONE), False
            else:
                raise Undecided("both bounds move")
            b = between(m, low, high)
            if b is None:
                raise Undecided(f"midpoint {show(m)[:120]}")
            if b is False:
                raise Mismatch(f"the lookup's bound moves to {show(l2 if l2 is not low else h2)[:160]}: the midpoint is not inside [low, high)")
            ok = {q for q in (True, False) if s.decide(self.P(m, q)) is side}
            if not ok:
                ks = [c for c, p in fx if "sload" in show_ops(c)]
                if not ks or all(self.about(c, m) for c in ks):
                    raise Mismatch(f"the lookup moves {'high' if side else 'low'} on the wrong side of the comparison at the midpoint")
                raise Undecided("comparison in the lookup loop")
            qs.append(ok)
        q = set.intersection(*qs)
        if not q:
            raise Mismatch("the two halves of the lookup use inconsistent comparisons")
        if self.strict not in q:
            raise Mismatch(f"the lookup searches the first key {'>' if not self.strict else '>='} the argument instead of {'>' if self.strict else '>='}")
        # bounds
        il, ih = nxt[low][1], nxt[high][1]
        if il is not ZERO and self.holds(st, sub(256, il, ONE)) is not False and self.holds(st, il) is not False:
            self.bad(st, "lower", il)
        if ih is not self.ln and self.holds(st, ih) is not True and self.holds(st, sub(256, ih, ONE)) is not True:
            self.bad(st, "upper", ih)
        return low, high, il, ih

    def bad(self, st, w, t):
        if self.sq is None and t.op == "int" or t is self.ln:
            raise Mismatch(f"the lookup starts with {w} bound {show(t)[:120]}, which excludes checkpoints")
        for c, p in st.order:
            if "sload" in show_ops(c) and self.arg in subterms(c):
                raise Mismatch(f"the lookup starts with {w} bound {show(t)[:160]}, not justified by {fmt_fact(c, p)[:200]}")
        raise Undecided(f"initial {w} bound {show(t)[:100]}")

    def about(self, c, m):
        """a comparison of the argument with the key at m"""
        return self.arg in subterms(c) and self.key(m) in subterms(c) or self.ln in subterms(c)

    def holds(self, st, i, pos=None):
        """truth of P(i) from path facts and, after a loop, from pos"""
        d = st.decide(self.P(i))
        return d

    def check(self, o):
        st = o.st
        loops = [e for e in st.trace if e[0] == "loop"]
        if [e for e in st.trace if e[0] != "loop"]:
            raise Mismatch("the lookup has a side effect")
        pos = None
        val = o.val
        facts = list(st.order)
        if loops:
            if len(loops) > 1:
                raise Undecided("several loops")
            low, high, il, ih = self.loop(st, loops[0][1][0])
            self.known.add((low, high))
            if o.kind == "panic" and st.decide(Lt(low, high)) is not False:
                for c, p in facts:
                    if c.op == "lt" and not p and c.a[-1] is self.ln and between(c.a[-2], low, high):
                        return
                raise Mismatch(f"the lookup loop can panic ({o.msg})")
            pos = mk("sym", "pos")
            m = {low: pos, high: pos}
            val = subst(val, m)
            facts = [(subst(c, m), p) for c, p in facts]
        s = State()
        feas = True
        if pos is not None and pos is not self.ln:
            s.assume(Lt(self.ln, pos), False)       # the search never leaves [0, len]
        for c, p in facts:
            if not s.assume(c, p):
                feas = False
        if not feas:
            return
        if o.kind == "panic":
            # only an access outside the array: impossible for positions below pos <= len
            for c, p in facts:
                if c.op == "lt" and not p and c.a[-1] is self.ln and self.inside(s, c.a[-2], pos):
                    return
            raise Mismatch(f"the lookup can panic ({o.msg})")
        truth = lambda i: self.at(s, i, pos)
        if val is ZERO:
            if s.decide(Eq(self.ln, ZERO)) is True:
                return
            if self.strict:
                t = truth(ZERO)
                if pos is not None and s.decide(Eq(pos, ZERO)) is True:
                    return
            else:
                t = truth(sub(256, self.ln, ONE))
                t = None if t is None else not t
                if pos is not None and s.decide(Eq(pos, self.ln)) is True:
                    return
            if t is True:
                return
            raise Mismatch("the lookup returns zero although a checkpoint may match")
        if val.op != "sload":
            raise Undecided(f"returned value {show(val)[:80]}")
        j = None
        for x in val.a[1:]:
            if not isinstance(x, str):
                j = x[1]
        if j is None or mk("sload", 0, *self.v(j)) is not val:
            raise Mismatch(f"the lookup returns {show(val)[:120]}")
        one_in = add(256, j, ONE)
        if self.strict:
            good = truth(j) is False and (one_in is self.ln or truth(one_in) is True or (pos is not None and one_in is pos))
        else:
            good = truth(j) is True and (j is ZERO or truth(sub(256, j, ONE)) is False or j is pos)
        if not good:
            raise Mismatch(f"the lookup returns the value at {show(j)[:60]}, which is not the {'last with key <=' if self.strict else 'first with key >='} the argument")

    def inside(self, s, i, pos):
        """position i is < len"""
        if pos is not None:
            if i is sub(256, pos, ONE) and s.decide(Eq(pos, ZERO)) is False:
                return True
            if i is pos and s.decide(Eq(pos, self.ln)) is False:
                return True
        if i is sub(256, self.ln, ONE) and s.decide(Eq(self.ln, ZERO)) is False:
            return True
        if self.sq is not None and i is sub(256, self.ln, self.sq) and (s.decide(Eq(self.ln, ZERO)) is False or s.decide(Lt(self.ln, ONE)) is False):
            return True
        return False

    def at(self, s, i, pos):
        d = s.decide(self.P(i))
        if d is not None or pos is None:
            return d
        if i is sub(256, pos, ONE) and s.decide(Eq(pos, ZERO)) is False:
            return False
        if i is pos and s.decide(Eq(pos, self.ln)) is False:
            return True
        if i is pos and s.decide(Lt(pos, self.ln)) is True:
            return True
        return None


def subterms(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, tuple):
        for x in t:
            subterms(x, acc)
    elif isinstance(t, Term) and t not in acc:
        acc.add(t)
        for x in t.a:
            subterms(x, acc)
    return acc


def show_ops(t):
    return {x.op for x in subterms(t)}


def p_checkpoints(R):
    ty = "Trace"
    g = R.getter("Trace::length", R.fn(ty, "length"), 0)
    if not g:
        return
    lnloc = g()
    base = lnloc[:-1]
    ln = mk("sload", 0, *lnloc)
    body = R.fn(ty, "latest_checkpoint")
    if body is None:
        return R.violation("Trace::latest_checkpoint:missing", "latest_checkpoint no longer exists")
    kf, vf = "key", "value"
    keyloc = lambda i: tuple(base) + (("k", i), kf)
    valloc = lambda i: tuple(base) + (("k", i), vf)
    V = lambda f, sp: R.verify(f"{ty}::{f}", R.fn(ty, f), lambda S: sp(S, *S.args[1:]))
    last = lambda S: sub(256, S.load(lnloc), ONE)
    V("latest", lambda S: ZERO if S.cond(is0(S.load(lnloc))) else S.load(valloc(last(S))))

    def lc(S):
        if S.cond(is0(S.load(lnloc))):
            return agg(optty(S), 0)
        return agg(optty(S), 1, tup(S.load(keyloc(last(S))), S.load(valloc(last(S)))))
    V("latest_checkpoint", lc)

    def at(S, i):
        S.require(Lt(i, S.load(lnloc)))
        return tup(S.load(keyloc(i)), S.load(valloc(i)))
    V("at", at)

    def push(S, k, v):
        n = S.load(lnloc)
        if S.cond(is0(n)):
            old = ZERO
        else:
            l = sub(256, n, ONE)
            lk = S.load(keyloc(l))
            old = S.load(valloc(l))
            S.require(Not(Lt(k, lk)))
            if S.cond(Eq(k, lk)):
                S.store(valloc(l), v)
                return tup(old, v)
        S.store(lnloc, add(256, n, ONE))
        S.store(keyloc(n), k)
        S.store(valloc(n), v)
        return tup(old, v)
    V("push", push)
    sqb = R.fn("Uint", "sqrt", "Math")
    if sqb is None:
        R.undecided.append("Math::sqrt not found")
        return
    for f, strict in (("lower_lookup", False), ("upper_lookup", True), ("upper_lookup_recent", True)):
        def h(eng, outs, args, strict=strict):
            sq = mk("app", "math_sqrt", ln)
            K = Lookup(R, strict, ln, keyloc, valloc, args[1], sq)
            for o in sorted(outs, key=lambda o: o.kind == "panic"):
                K.check(o)
        run(R, f"{ty}::{f}", R.fn(ty, f), h, stubs={sqb["path"]: ("math_sqrt", None)})


def optty(S):
    return S.out.val.a[0] if S.out.val.op == "agg" else "option"


def p_structs(R):
    p_bitmap(R)
    p_checkpoints(R)
