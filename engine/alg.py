"""Field- and group-level abstract interpretation: a field element is a
polynomial (over the integers) in atoms, a group element a linear combination of
atoms; equality tests become zero tests of polynomials."""
from . import ring as RG
from .ring import *          # noqa
from .terms import *         # noqa
from .interp import Unsupported

BIGR = (-(1 << 400), 1 << 400)


def fatom(name):
    x = mk("sym", name, 0)
    RG.RNG[x] = BIGR
    return x


def neg(p):
    return isub(ZERO, p)


def ipow(p, k):
    r = ONE
    for b in bin(k)[2:]:
        r = imul(r, r)
        if b == "1":
            r = imul(r, p)
    return r


def fz(p):
    """p = 0 (up to sign)"""
    d = P0(p)
    if not d:
        return TRUE
    if set(d) == {()}:
        return FALSE          # small non-zero integers are units (characteristic assumption)
    m = min(d, key=lambda m: (len(m), [x.id for x in m]))
    if d[m] < 0:
        p = neg(p)
    return mk("fz", p)


def subst(p, sub):
    """replace atoms by polynomials"""
    if not sub or not any(x in sub for m in P0(p) for x in m):
        return p
    r = ZERO
    for m, c in P0(p).items():
        t = Int(c)
        for x in m:
            t = imul(t, sub.get(x, x))
        r = iadd(r, t)
    return r


_SUB = {}


class AState(CState):
    __slots__ = ()

    def sub(self):
        """substitutions implied by the zero facts of the path (linear in an atom)"""
        k = tuple((f, v) for f, v in self.order if f.op == "fz" and v)
        if k in _SUB:
            return _SUB[k]
        sub = {}
        for f, v in self.order:
            if f.op != "fz" or not v:
                continue
            d = P0(subst(f.a[0], sub))
            for m, c in sorted(d.items(), key=lambda q: [x.id for x in q[0]], reverse=True):
                if len(m) == 1 and abs(c) == 1 and not any(m[0] in m2 for m2 in d if m2 != m):
                    x = m[0]
                    e = from_poly({m2: -c2 * c for m2, c2 in d.items() if m2 != m}, 0)
                    sub = {y: subst(q, {x: e}) for y, q in sub.items()}
                    sub[x] = e
                    break
        _SUB[k] = sub
        return sub

    def copy(self):
        s = CState.copy(self)
        s.__class__ = AState
        return s

    def decide(self, c):
        if c.op == "fz":
            c = fz(subst(c.a[0], self.sub()))
            if c.op == "bool":
                return c.a[0]
            if c in self.facts:
                return self.facts[c]
            for f, v in self.order:
                if f.op == "fz" and fz(subst(f.a[0], self.sub())) is c:
                    return v
            # a product of known non-zero factors, or with a known zero factor
            d = P0(c.a[0])
            if len(d) == 1 and len(next(iter(d))) > 1:
                (m, k), = d.items()
                vs = [self.decide(fz(x)) for x in set(m)]
                if any(v is True for v in vs):
                    return True
                if vs and all(v is False for v in vs):
                    return False
            return None
        return CState.decide(self, c)


class AInterp(CInterp):
    State = AState
    ftypes = ()          # type strings of field elements
    gtypes = ()          # type strings of group elements
    cutloops = False

    def __init__(self, prog, n=None):
        super().__init__(prog, n)
        self.invs = {}       # atom w -> polynomial p with w*p = 1
        self.trace = []

    # -- types
    def kind(self, i):
        t = self.T[i] if isinstance(i, int) else None
        if t is None:
            return None
        while t["k"] in ("ref", "ptr"):
            t = self.T[t["to"]]
        s = t["s"]
        if self.isfield(t, s):
            return "f"
        if self.isgroup(t, s):
            return "g"
        return None

    def isfield(self, t, s):
        return s in self.ftypes or t.get("path") in self.ftypes

    def isgroup(self, t, s):
        return s in self.gtypes or t.get("path") in self.gtypes

    def fresh(self, st, i, name):
        t = self.T[i]
        if t["k"] not in ("ref", "ptr") and self.kind(i):
            return fatom(name)
        return super().fresh(st, i, name)

    def const0(self, st, c):
        if "def" in c and c.get("ty") is not None and self.kind(c["ty"]) and self.T[c["ty"]]["k"] not in ("ref", "ptr"):
            n = c["def"].split("::")[-1]
            if n == "ZERO":
                return ZERO
            if n == "ONE" and self.kind(c["ty"]) == "f":
                return ONE
            v = self.consts.get(n)
            if v is not None:
                return v(self, st, c) if callable(v) else v
            return fatom(n)
        return super().const0(st, c)

    # -- calls
    def call(self, st, f, args, dty, atys=None, diverges=False):
        h = self.lookup(f)
        if h is not None:
            r = h(self, st, f, args, dty)
            if r is not None:
                return r
        r = self.algcall(st, f, args, dty)
        if r is not None:
            return r
        return super().call(st, f, args, dty, atys, diverges)

    def intrinsic(self, st, f, args, dty, atys):
        if "PartialEq" in (f.get("trait") or "") and f.get("inst") in self.prog.bodies:
            return None
        if "cmp::" in (f.get("trait") or "") and "Ord" in f["trait"] and self.kind(f.get("self")):
            return None
        return super().intrinsic(st, f, args, dty, atys)

    def lookup(self, f):
        h = self.contracts.get(f.get("rpath") or f.get("path"))
        inst = f.get("inst")
        if inst and inst in self.prog.bodies:
            h = self.contracts.get(self.prog.bodies[inst]["path"], h)
        return h

    def v(self, st, a):
        return self.deref_all(st, a) if a.op == "ref" else a

    def algcall(self, st, f, args, dty):
        name = f["name"]
        if name in ("borrow", "borrow_mut") and "Borrow" in (f.get("trait") or ""):
            a = args[0]
            while a.op == "ref" and self.rd(st, a.a[0], a.a[1]).op == "ref":
                a = self.rd(st, a.a[0], a.a[1])
            return [(st, a)]
        if f.get("inst") and f["inst"] in self.prog.bodies:
            return None
        if name == "is_zero" and isinstance(f.get("self"), int) and self.T[f["self"]]["k"] == "int":
            return [(st, Zero(self.v(st, args[0])))]
        k = self.kind(f.get("self"))
        tr = (f.get("trait") or "").split("<")[0]
        if k is None:
            return None
        return self.alg(st, k, tr, name, args, dty, f)

    def alg(self, st, k, tr, name, args, dty, f):
        vs = [self.v(st, a) for a in args]
        if not all(isint(x) for x in vs[:2]) and name not in ("sum_of_products", "pow", "from", "into"):
            return None
        two = {"add": iadd, "sub": isub, "mul": imul}
        if name in two and len(vs) == 2:
            return [(st, two[name](vs[0], vs[1]))]
        if name.endswith("_assign") and name[:-7] in two and len(vs) == 2:
            self.store(st, args[0], two[name[:-7]](vs[0], vs[1]))
            return [(st, UNIT)]
        one = {"neg": neg, "double": lambda p: imul(Int(2), p), "square": lambda p: imul(p, p)}
        if name in one:
            return [(st, one[name](vs[0]))]
        if name.endswith("_in_place") and name[:-9] in one:
            self.store(st, args[0], one[name[:-9]](vs[0]))
            return [(st, args[0])]
        if name == "zero" and not args or name == "default" and not args:
            return [(st, ZERO)]
        if name == "one" and not args and k == "f":
            return [(st, ONE)]
        if name == "is_zero":
            return [(st, fz(vs[0]))]
        if name == "is_one":
            return [(st, fz(isub(vs[0], ONE)))]
        if name in ("eq", "ne") and len(vs) == 2:
            c = fz(isub(vs[0], vs[1]))
            return [(st, c if name == "eq" else Not(c))]
        if name == "clone":
            return [(st, vs[0])]
        if name == "inverse":
            return self.inverse(st, vs[0], dty)
        if name == "extension_degree":
            x = mk("sym", "extension degree", 0)
            RG.RNG[x] = (1, 1 << 20)
            WID[x] = 64
            return [(st, x)]
        if name == "pow" and len(vs) == 2 and cint(vs[1]) is not None and isint(vs[0]):
            return [(st, ipow(vs[0], cint(vs[1])))]
        if name == "from" and len(vs) == 1 and isint(vs[0]):
            return [(st, vs[0])]
        if name == "zeroize":
            self.store(st, args[0], ZERO)
            return [(st, UNIT)]
        b = self.provided(f)
        if b is not None:
            old = self.n
            arr = next((x for x in vs if x.op == "agg" and x.a[0] == "array"), None)
            if arr is not None:
                self.n = len(arr.a) - 2
            try:
                return self.exec_fn(st, b, args)
            finally:
                self.n = old
        return None

    def provided(self, f):
        p = (f.get("trait") or "").split("<")[0] + "::" + f["name"]
        c = [b for b in self.prog.bodies.values() if b["path"] == p and "#" not in b["key"].split("@")[0].split("[")[0]]
        c.sort(key=lambda b: (b["root"] != b["path"], b["key"]))
        return c[0] if c else None

    def inverse(self, st, p, dty):
        out = []
        for s, z in self.branch(st, fz(p)):
            if z:
                out.append((s, agg(dty, 0)))
                continue
            w = next((w for w, q in self.invs.items() if q is p), None)
            if w is None:
                w = fatom(f"inv{len(self.invs)}")
                self.invs[w] = p
            out.append((s, agg(dty, 1, w)))
        return out

    # -- loops cut at the head, one head per shape of the carried values
    def shape(self, v):
        if v.op == "agg":
            return ("agg", v.a[0], v.a[1]) + tuple(self.shape(x) if isinstance(x, Term) else x for x in v.a[2:])
        if v.op == "it":
            return ("it",) + tuple(self.shape(x) if isinstance(x, Term) else x for x in v.a)
        if isint(v):
            return "i"
        return v

    def reshape(self, v, tag, like):
        if v.op == "agg":
            return mk("agg", v.a[0], v.a[1], *[self.reshape(x, f"{tag}.{i}", None) if isinstance(x, Term) else x for i, x in enumerate(v.a[2:])])
        if v.op == "it":
            return mk("it", *[self.reshape(x, f"{tag}.{i}", None) if isinstance(x, Term) else x for i, x in enumerate(v.a)])
        if isint(v):
            return fatom(f"loop:{tag}")
        return v

    def do_loop(self, body, fid, H, st):
        if not self.cutloops:
            return super().do_loop(body, fid, H, st)
        L = self.prog.loops(body)[H]
        var = set()
        for it in range(8):
            heads, exits, log = {}, [], []
            work = [st]
            new = set()
            lg = len(self.cutlog)
            while work:
                s0 = work.pop()
                key = tuple((c, self.shape(s0.mem[c])) for c in sorted(var, key=str) if c in s0.mem)
                if key in heads:
                    heads[key]["from"].append(s0)
                    continue
                if len(heads) > 8:
                    raise Unsupported("too many loop shapes")
                h = st.copy()
                for c, _ in key:
                    h.mem[c] = self.reshape(s0.mem[c], f"{H}:{c[1]}" if len(c) > 1 else str(c), None)
                e = dict(head=h, backs=[], exits=[], **{"from": [s0]})
                heads[key] = e
                rets, backs, ex = self.explore(body, fid, H, h.copy(), L, H)
                e["backs"], e["exits"] = backs, ex
                exits += ex
                for b in backs:
                    for c, v in h.mem.items():
                        w = b.mem.get(c)
                        if w is not None and w is not v and c not in var:
                            new.add(c)
                    if not new:
                        work.append(b)
            if not new:
                self.cutlog.append(dict(where=(body["file"], body["path"], H), init=st, heads=list(heads.values())))
                return exits
            var |= new
            del self.cutlog[lg:]
        raise Unsupported("loop does not stabilise")



class OpIter:
    """opaque iterators: position-indexed items"""

    def opiter(self, name="it"):
        return mk("it", "op", name, ZERO)

    def itemval(self, st, name, pos):
        raise Unsupported("item of an opaque iterator")

    def op_next(self, st, it, back=False):
        if back:
            raise Unsupported("opaque iterator from the back")
        _, name, pos = it.a
        out = []
        for s, m in self.branch(st, mk("sym", f"more({name},{show(pos)})", 0)):
            out.append((s, mk("it", "op", name, iadd(pos, ONE)), self.itemval(s, name, pos)) if m else (s, it, None))
        return out

    def fold_cut(self, st, it, init, fv):
        """a fold over an opaque iterator as a loop that is cut at its head"""
        st = st.copy()
        ca, ci = self.new_cell(st, init), self.new_cell(st, it)
        heads, exits, work = {}, [], [init]
        while work:
            a = work.pop()
            key = self.shape(a)
            if key in heads:
                continue
            if len(heads) > 8:
                raise Unsupported("too many loop shapes")
            h = st.copy()
            h.mem[ca] = self.reshape(a, "fold", None)
            h.mem[ci] = self.reshape(it, "fold it", None)
            e = heads[key] = dict(head=h, backs=[], exits=[], **{"from": []})
            for s, it2, x in self.op_next(h.copy(), h.mem[ci]):
                if x is None:
                    e["exits"].append((None, s))
                    exits.append((s, h.mem[ca]))
                    continue
                for s2, r in self.call_value(s, fv, [h.mem[ca], x], None):
                    s2.mem[ca], s2.mem[ci] = r, it2
                    if any(s2.mem.get(c) is not w for c, w in h.mem.items() if c not in (ca, ci)):
                        raise Unsupported("fold with side effects")
                    e["backs"].append(s2)
                    work.append(r)
        self.cutlog.append(dict(where=("", "fold", 0), init=st, heads=list(heads.values())))
        return exits

    def algcall(self, st, f, args, dty):
        name = f["name"]
        if args and name in ("skip_while", "fold", "into_iter"):
            v = self.v(st, args[0])
            if v.op == "it" and v.a[0] == "op":
                if name == "into_iter":
                    return [(st, v)]
                if name == "skip_while":
                    b = mk("sym", "skipped bit", 0)
                    s0 = st.copy()
                    for s, x in self.call_value(s0, args[1], [self.ref(self.new_cell(s0, b))], None):
                        for s2, t in self.branch(s.copy(), x):
                            if t and s2.decide(b) is not False:
                                raise Unsupported("skip_while drops set bits")
                    return [(st, v)]
                acc, it = fatom("acc"), self.itemval(st, v.a[1], v.a[2])
                rs = self.call_value(st.copy(), args[2], [acc, it], None)
                if len(rs) != 1:
                    return self.fold_cut(st, v, args[1], args[2])
                res = fatom("folded")
                self.trace.append((args[1], acc, self.v(rs[0][0], it), rs[0][1], res))
                return [(st, res)]
        return super().algcall(st, f, args, dty)
