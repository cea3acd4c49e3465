"""Hash-consed provenance terms (the Herbrand value domain) with a polynomial
normal form for modular (wrapping) and ring arithmetic."""

_tab = {}
_n = 0


class Term:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    global _n
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        _n += 1
        t.id = _n
        _tab[k] = t
    return t


def Int(n):
    return mk("int", int(n))


TRUE = mk("bool", True)
FALSE = mk("bool", False)
ZERO = Int(0)
ONE = Int(1)
UNIT = mk("agg", "tuple", 0)
UNDEF = mk("undef")


def Bool(b):
    return TRUE if b else FALSE


def agg(tag, variant, *fields):
    return mk("agg", tag, variant, *fields)


def is_agg(t, tag=None):
    return isinstance(t, Term) and t.op == "agg" and (tag is None or t.a[0] == tag)


def afields(t):
    return t.a[2:]


def tup(*f):
    return mk("agg", "tuple", 0, *f)


# ------------------------------------------------------------ polynomials
# bits > 0 : ring Z / 2^bits ; bits == 0 : Z (used for abstract field elements)

def as_poly(t, bits):
    if t.op == "int":
        n = t.a[0]
        if bits:
            n %= 1 << bits
        return {(): n} if n else {}
    if t.op == "poly" and t.a[0] == bits:
        return dict(t.a[1])
    if t.op == "poly" and 0 < t.a[0] < bits:
        t = mk("zext", t.a[0], t)
    return {(t,): 1}


def from_poly(d, bits):
    if bits:
        m = 1 << bits
        d = {k: v % m for k, v in d.items() if v % m}
    else:
        d = {k: v for k, v in d.items() if v}
    if not d:
        return ZERO
    if len(d) == 1:
        (k, v), = d.items()
        if k == ():
            return Int(v)
        if v == 1 and len(k) == 1:
            return k[0]
    return mk("poly", bits, tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), [x.id for x in kv[0]]))))


def padd(p, q, c=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + c * v
    return r


def pmul(p, q):
    r = {}
    for k, v in p.items():
        for l, w in q.items():
            m = tuple(sorted(k + l, key=lambda x: x.id))
            r[m] = r.get(m, 0) + v * w
    return r


def add(bits, a, b):
    return from_poly(padd(as_poly(a, bits), as_poly(b, bits)), bits)


def sub(bits, a, b):
    return from_poly(padd(as_poly(a, bits), as_poly(b, bits), -1), bits)


def mul(bits, a, b):
    return from_poly(pmul(as_poly(a, bits), as_poly(b, bits)), bits)


def neg(bits, a):
    return sub(bits, ZERO, a)


def sumt(bits, ts):
    r = ZERO
    for t in ts:
        r = add(bits, r, t)
    return r


# ------------------------------------------------------------ booleans

def Not(x):
    if x.op == "bool":
        return Bool(not x.a[0])
    if x.op == "not":
        return x.a[0]
    return mk("not", x)


def And(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if a is Not(b):
        return FALSE
    if b.id < a.id:
        a, b = b, a
    return mk("and", a, b)


def Or(a, b):
    return Not(And(Not(a), Not(b)))


_CONST = ("int", "bool", "str", "bytes")


def Eq(a, b):
    if a is b:
        return TRUE
    if a.op in _CONST and b.op in _CONST:
        if a.op == b.op:
            return FALSE
        va, vb = cint(a), cint(b)
        if va is not None and vb is not None:
            return Bool(va == vb)
    if a.op == "zext" or b.op == "zext":
        z, o = (a, b) if a.op == "zext" else (b, a)
        if o.op == "zext" and o.a[0] == z.a[0]:
            return Eq(z.a[1], o.a[1])
        if o.op == "int":
            return Eq(z.a[1], o) if o.a[0] < 1 << z.a[0] else FALSE
    if a.op == "bool":
        return b if a.a[0] else Not(b)
    if b.op == "bool":
        return a if b.a[0] else Not(a)
    if a.op == "agg" and b.op == "agg":
        if a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            if len(a.a) != len(b.a):
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2:], b.a[2:]):
                if isinstance(x, Term) and isinstance(y, Term):
                    r = And(r, Eq(x, y))
            return r
    bits = None
    if a.op == "poly":
        bits = a.a[0]
    if b.op == "poly":
        bits = b.a[0] if bits is None or bits == b.a[0] else None
    if bits is not None:
        d = padd(as_poly(a, bits), as_poly(b, bits), -1)
        if bits:
            m = 1 << bits
            d = {k: v % m for k, v in d.items() if v % m}
        else:
            d = {k: v for k, v in d.items() if v}
        if not d:
            return TRUE
        if set(d) == {()}:
            return FALSE if bits else mk("eq", ZERO, Int(abs(d[()])))
        if bits and len(d) == 2 and () in d:
            (k, v), = [(k, v) for k, v in d.items() if k]
            if len(k) == 1 and v in (1, m - 1) and not (v == 1 and d[()] > m // 2):
                # x = c
                x, y = k[0], Int(-d[()] * v % m)
                return mk("eq", *((y, x) if y.id < x.id else (x, y)))
        # x - y  -> eq(x, y); x - c -> eq(x, c)
        pos = {}
        ng = {}
        for k, v in d.items():
            if bits and v > (1 << (bits - 1)):
                ng[k] = (1 << bits) - v
            elif v < 0:
                ng[k] = -v
            else:
                pos[k] = v
        x = from_poly(pos, bits)
        y = from_poly(ng, bits)
        if y.id < x.id:
            x, y = y, x
        return mk("eq", x, y)
    if b.id < a.id:
        a, b = b, a
    return mk("eq", a, b)


def cint(t):
    """python int of a constant scalar, or None"""
    if t.op == "int":
        return t.a[0]
    if t.op == "bool":
        return int(t.a[0])
    if t.op == "bytes":
        return int(t.a[0] or "0", 16)
    return None


# known bit widths of opaque values (a value of type Uint<B> is below 2^B)
WID = {}


def wid(t):
    if t.op == "int":
        return t.a[0].bit_length()
    w = WID.get(t)
    if w is not None:
        return w
    if t.op in ("zext", "trunc"):
        return t.a[0]
    if t.op == "b2i":
        return 1
    if t.op == "band":
        ws = [w for w in (wid(t.a[1]), wid(t.a[2]), t.a[0] or None) if w is not None]
        return min(ws) if ws else None
    if t.op in ("div", "rem", "cdiv"):
        x = wid(t.a[1])
        if t.op == "rem":
            y = wid(t.a[2])
            x = y if x is None else (x if y is None else min(x, y))
        return min(x, t.a[0]) if x is not None and t.a[0] else (x or t.a[0] or None)
    if t.op == "poly":
        return t.a[0] or None
    return None


def split_poly(t):
    """(P, Q) with t == P - Q, both with small non-negative coefficients"""
    bits = t.a[0]
    pos, ng = {}, {}
    for k, v in t.a[1]:
        if bits and v > (1 << (bits - 1)):
            ng[k] = (1 << bits) - v
        elif v < 0:
            ng[k] = -v
        else:
            pos[k] = v
    return from_poly(pos, bits), from_poly(ng, bits)


def ub(t, ge=None):
    """upper bound of the value of t, or None; ge(p, q) tells whether p >= q is known"""
    if t.op == "int":
        return t.a[0]
    if t.op == "poly":
        cap = (1 << t.a[0]) - 1 if t.a[0] else None
        P, Q = split_poly(t)
        if Q is not ZERO:
            if ge is not None and ge(P, Q):
                u = ub(P, ge)
                q = Q.a[0] if Q.op == "int" else 0
                return None if u is None else (u - q if cap is None else min(cap, u - q))
            return cap
        tot = 0
        for k, v in t.a[1]:
            m = v
            for x in k:
                u = ub(x, ge)
                if u is None:
                    return cap
                m *= u
            tot += m
        return tot if cap is None else min(cap, tot)
    if t.op == "div" and t.a[2].op == "int" and t.a[2].a[0]:
        u = ub(t.a[1], ge)
        return None if u is None else u // t.a[2].a[0]
    if t.op == "band":
        us = [u for u in (ub(t.a[1], ge), ub(t.a[2], ge)) if u is not None]
        return min(us) if us else None
    w = wid(t)
    return None if w is None else (1 << w) - 1


def Lt(a, b):
    if a is b:
        return FALSE
    x, y = cint(a), cint(b)
    if x is not None and y is not None:
        return Bool(x < y)
    if y == 0:
        return FALSE
    if x == 0:
        return Not(Eq(b, ZERO))
    if a.op == "zext":
        if b.op == "zext" and a.a[0] == b.a[0]:
            return Lt(a.a[1], b.a[1])
        if y is not None:
            return Lt(a.a[1], b) if y < 1 << a.a[0] else TRUE
        p = a.a[1]
        if p.op == "poly" and p.a[0] == a.a[0] and b.op != "poly" and (wid(b) or 999) <= a.a[0]:
            d = sub(a.a[0], b, p)
            if d.op == "int" and 0 < d.a[0] < 1 << (a.a[0] - 1):
                return Not(Lt(b, d))
    if b.op == "zext" and x is not None:
        return Lt(a, b.a[1]) if x < 1 << b.a[0] else FALSE
    if y == 1:
        return Eq(a, ZERO)
    if x is not None:
        # c < b  <=>  not (b < c + 1)
        return Not(Lt(b, Int(x + 1)))
    if y is not None:
        w = wid(a)
        if y >= 1 << 256 and not (w is not None and w > 256):
            return TRUE
        if w is not None and y >= 1 << w:
            return TRUE
        if y == (1 << 256) - 1 and (w is None or w <= 256):
            return Not(Eq(a, b))
    if a.op == "poly" and a.a[0]:
        bits = a.a[0]
        # MAX - x < b  <=>  x + b overflows
        d = sub(bits, Int((1 << bits) - 1), a)
        if d.op not in ("poly", "int") and b.op != "poly":
            return mk("ovf", "a", bits, *sorted((d, b)))
        # b + d < b  <=>  the sum overflows
        if b.op not in ("poly",) and contains_mono(a, b):
            d = sub(bits, a, b)
            if d.op == "int":
                if d.a[0] >= 1 << (bits - 1):
                    return Not(Lt(b, Int((1 << bits) - d.a[0])))
                return mk("ovf", "a", bits, *sorted((d, b)))
            if d.op != "poly":
                return mk("ovf", "a", bits, *sorted((d, b)))
    if b.op == "poly" and b.a[0] and a.op != "poly" and contains_mono(b, a):
        bits = b.a[0]
        # a < a - d  <=>  a < d (wrapped)
        d = sub(bits, a, b)
        if d.op not in ("poly", "int"):
            return Lt(a, d)
    return mk("lt", a, b)


def Ovf(kind, bits, a, b):
    """does a+b (kind a) or a*b (kind m) exceed bits?"""
    x = a.a[0] if a.op == "int" else None
    y = b.a[0] if b.op == "int" else None
    if kind == "a" or kind == "m":
        if x is not None and y is not None:
            return Bool((x + y if kind == "a" else x * y) >= 1 << bits)
        if x == 0 or y == 0:
            return FALSE
        if kind == "m" and (x == 1 or y == 1):
            return FALSE
    if kind == "a":
        for p, q in ((a, b), (b, a)):
            if q.op == "poly" and p.op not in ("poly", "int") and any(k == (p,) and v in (-1, (1 << bits) - 1) for k, v in q.a[1]):
                # p + (s - p) overflows  <=>  s < p
                return Lt(add(bits, p, q), p)
    return mk("ovf", kind, bits, *sorted((a, b)))


def contains_mono(p, x):
    return any(k == (x,) and v == 1 for k, v in p.a[1])


def Le(a, b):
    return Not(Lt(b, a))


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return mk("ite", c.a[0], b, a)
    return mk("ite", c, a, b)


# ------------------------------------------------------------ traversal

def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, s):
    return any(x is s for x in subterms(t))


def rewrite(t, f, memo):
    """bottom-up rewriting; f(term)->term or None"""
    if isinstance(t, tuple):
        return tuple(rewrite(x, f, memo) for x in t)
    if not isinstance(t, Term):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in ("int", "bool", "str", "bytes", "undef"):
        r = t
    elif t.op == "poly":
        bits = t.a[0]
        r = {}
        for m, c in t.a[1]:
            p = {(): c}
            for x in m:
                p = pmul(p, as_poly(rewrite(x, f, memo), bits))
            r = padd(r, p)
        r = from_poly(r, bits)
    else:
        na = tuple(rewrite(x, f, memo) for x in t.a)
        if all(x is y for x, y in zip(na, t.a)) and not any(isinstance(x, tuple) and x != y for x, y in zip(na, t.a)):
            r = t
        else:
            r = rebuild(t.op, na)
    r2 = f(r)
    if r2 is not None:
        r = r2
    memo[t.id] = r
    return r


def exact_div(bits, a, b):
    """p when a is the product p*b that cannot wrap (b is not zero where the quotient is used), else None"""
    if a is b:
        return ONE
    if b.op in ("int", "poly") or a.op != "poly" or len(a.a[1]) != 1:
        return None
    (k, c), = a.a[1]
    if b not in k:
        return None
    tot = c.bit_length()
    for x in k:
        w = wid(x)
        if w is None:
            return None
        tot += w
    if c == 1:
        tot -= 1
    if a.a[0] and tot > a.a[0]:
        return None
    k = list(k)
    k.remove(b)
    return from_poly({tuple(k): c}, a.a[0])


def rebuild(op, a):
    if op == "eq":
        return Eq(*a)
    if op == "lt":
        return Lt(*a)
    if op == "not":
        return Not(*a)
    if op == "and":
        return And(*a)
    if op == "ite":
        return Ite(*a)
    if op == "ovf" and a[0] in ("a", "m"):
        return Ovf(*a)
    if op == "div" and a[1] is ZERO and len(a) == 3:
        return ZERO
    if op in ("div", "cdiv") and len(a) == 3 and isinstance(a[1], Term) and isinstance(a[2], Term):
        e = exact_div(*a)
        if e is not None:
            return e
    return mk(op, *a)


def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, depth + 1) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if depth > 12:
        return "…"
    op, a = t.op, t.a
    S = lambda x: show(x, depth + 1)
    if op == "int":
        n = a[0]
        if n > 1 << 40:
            return hex(n)
        return str(n)
    if op == "bool":
        return str(a[0]).lower()
    if op == "str":
        return repr(a[0])
    if op == "sym":
        return str(a[0])
    if op == "poly":
        out = []
        m = 1 << a[0] if a[0] else 0
        for k, v in a[1]:
            if m and v > m // 2:
                v -= m
            mono = "*".join(S(x) for x in k)
            if not k:
                out.append(f"{v:+d}")
            elif v == 1:
                out.append("+" + mono)
            elif v == -1:
                out.append("-" + mono)
            else:
                out.append(f"{v:+d}*{mono}")
        return "(" + "".join(out).lstrip("+") + ")"
    if op == "eq":
        return f"{S(a[0])} == {S(a[1])}"
    if op == "lt":
        return f"{S(a[0])} < {S(a[1])}"
    if op == "not":
        return f"!({S(a[0])})"
    if op == "and":
        return f"({S(a[0])} && {S(a[1])})"
    if op == "sload":
        return f"S{'' if a[0] == 0 else a[0]}[{pathstr(a[1:])}]"
    if op == "stor":
        return f"stor<{pathstr(a[1:])}>"
    if op == "agg":
        tag = a[0] if isinstance(a[0], str) else f"T{a[0]}"
        return f"{tag}#{a[1]}({', '.join(S(x) for x in a[2:])})"
    if op == "app":
        return f"{a[0]}({', '.join(S(x) for x in a[1:])})"
    return f"{op}({', '.join(S(x) for x in a)})"


def pathstr(p):
    out = ""
    for x in p:
        if isinstance(x, tuple) and x and x[0] == "k":
            out += f"[{show(x[1])}]"
        elif isinstance(x, str):
            out += ("." if out else "") + x
        else:
            out += "." + show(x)
    return out


EMPTY = mk("agg", "array", 0)


def norm_empty(t):
    """one representation of the empty byte string"""
    if t.op in ("bytes", "str") and t.a[0] == "":
        return EMPTY
    return t
