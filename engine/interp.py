"""Interprocedural, trace-partitioned abstract interpretation of MIR over the
provenance-term domain.  Loops with unknown trip counts are summarised by a
widening fixpoint (one generic iteration), never unrolled on symbolic bounds.
No solver is involved; branch facts are literals compared syntactically
(up to the normal forms of terms.py and a congruence substitution)."""
import json
import re
import sys
from .terms import *

sys.setrecursionlimit(20000)


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.raw = d
        self.bodies = {}
        for b in d["bodies"]:
            if not b.get("fail"):
                self.bodies[b["key"]] = b
        self.failed = [b["key"] for b in d["bodies"] if b.get("fail")]
        self.consts = {c["path"]: c for c in d["consts"]}
        self.impls = d["impls"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.fns = d["fns"]
        self.storage_types = set()
        for i in self.impls:
            if i["trait"] and i["trait"].startswith("stylus_sdk::prelude::StorageType"):
                self.storage_types.add(i["self"].split("<")[0])
        self._prov = None
        self._frozen = None
        self._loops = {}
        self._x = {}

    def find(self, path, inst=None):
        """body by def path (non generic or identity instance preferred)"""
        if path in self.bodies:
            return self.bodies[path]
        c = [b for b in self.bodies.values() if b["path"] == path]
        if inst:
            c = [b for b in c if inst in b["key"]]
        # identity instance of the function itself as the root
        c2 = [b for b in c if b["key"].endswith("@" + b["path"])] if not inst else c
        c = c2 or c
        return c[0] if c else None

    def fn(self, selfty, name, trait=None):
        """locate a function by impl self type (last path component), method
        name and optionally trait (last path component)"""
        out = []
        for b in self.bodies.values():
            if b["name"] != name or not b["local"] or "impl_self" not in b:
                continue
            if b["root"] != b["path"] or "#promoted" in b["key"]:
                continue
            st = self.types[b["impl_self"]]
            p = (st.get("path") or st["s"]).split("<")[0].split("::")[-1]
            if p != selfty:
                continue
            tr = b.get("impl_trait")
            trn = tr.split("<")[0].split("::")[-1] if tr else None
            if trait is not None and (trn or "") != trait:
                continue
            out.append(b)
        return out

    def provided(self, trait, name):
        """body of a provided method of a local trait that no local impl overrides"""
        if self._prov is None:
            self._prov = {}
            for b in self.bodies.values():
                if b["local"] and "impl_self" not in b and b["root"] == b["path"]:
                    self._prov[b["path"]] = b
        tr = trait.split("<")[0]
        b = self._prov.get(tr + "::" + name)
        if b is None:
            return None
        for im in self.impls:
            if im["trait"] and im["trait"].split("<")[0] == tr and name in im["items"]:
                return None
        return b

    def frozen_fields(self):
        """{(struct path, field)}: restricted fields that no function of the crate assigns or borrows mutably; outside the
        crate they cannot be named, so they keep their value across external calls and loop iterations"""
        if self._frozen is not None:
            return self._frozen
        T, hit = self.types, set()

        def walk(body, pl):
            ty = body["locals"][pl[0]]
            for e in pl[1:]:
                t = T[ty] if ty is not None else {}
                if e == "*":
                    ty = t.get("to")
                elif isinstance(e, list) and e[0] == "f":
                    if t.get("k") == "adt":
                        hit.add((t["path"], e[1]))
                    ty = e[2] if len(e) > 2 else None
                elif isinstance(e, list) and e[0] == "d":
                    pass
                else:
                    ty = None
        for b in self.bodies.values():
            for bb in b["bbs"]:
                for x in bb["s"]:
                    if x[0] == "=":
                        if len(x[1]) > 1:
                            walk(b, x[1])
                        if x[2][0] == "ref" and x[2][2]:
                            walk(b, x[2][1])
        out = set()
        for a in self.adts.values():
            for i, (nm, vis) in enumerate(a.get("vis", [])):
                if "Public" not in vis and (a["path"], i) not in hit:
                    out.add((a["path"], nm))
        self._frozen = out
        return out

    def free_fn(self, suffix):
        return [b for b in self.bodies.values() if b["local"] and b["root"] == b["path"] and (b["path"] == suffix or b["path"].endswith("::" + suffix)) and "impl_self" not in b]

    # ---- natural loops -------------------------------------------------
    def loops(self, body):
        k = body["key"]
        if k in self._loops:
            return self._loops[k]
        n = len(body["bbs"])
        succ = [self.succs(bb) for bb in body["bbs"]]
        order = []
        seen = set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    L = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in L:
                            continue
                        L.add(x)
                        w.extend(preds[x])
        self._loops[k] = loops
        return loops

    @staticmethod
    def succs(bb):
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[1]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        return []

    def is_xcall(self, body):
        """sol_interface!-generated proxies: macro-expanded bodies that directly
        perform the low level call"""
        k = body["key"]
        if k in self._x:
            return self._x[k]
        r = None
        if body["exp"] and body["local"]:
            for bb in body["bbs"]:
                t = bb["t"]
                if t[0] == "call" and t[1].get("path", "").startswith("stylus_sdk::call::"):
                    p = t[1]["path"]
                    if p in ("stylus_sdk::call::call", "stylus_sdk::call::static_call", "stylus_sdk::call::delegate_call"):
                        r = p.split("::")[-1]
        self._x[k] = r
        return r


class State:
    __slots__ = ("mem", "facts", "order", "subst", "writes", "trace", "epoch", "bepoch", "notes", "vers", "_canon")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.order = []
        self.subst = {}
        self.writes = []
        self.trace = []
        self.epoch = 0
        self.bepoch = {}
        self.notes = ()
        self._canon = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.order = list(self.order)
        s.subst = dict(self.subst)
        s.writes = list(self.writes)
        s.trace = list(self.trace)
        s.epoch = self.epoch
        s.bepoch = dict(self.bepoch)
        s.notes = self.notes
        s._canon = self._canon  # shared until subst changes
        return s

    # ---- facts ---------------------------------------------------------
    def canon(self, t):
        if not self.subst:
            return t
        sb = self.subst
        return rewrite(t, lambda x: sb.get(x), self._canon)

    def decide(self, c):
        if c.op == "bool":
            return c.a[0]
        if c.op == "not":
            r = self.decide(c.a[0])
            return None if r is None else (not r)
        if c.op == "and":
            x = self.decide(c.a[0])
            if x is False:
                return False
            y = self.decide(c.a[1])
            if y is False:
                return False
            if x and y:
                return True
            r = self.facts.get(self.canon(c))
            return r
        c2 = self.canon(c)
        if c2 is not c:
            if c2.op in ("bool", "not", "and"):
                return self.decide(c2)
            c = c2
        r = self.facts.get(c)
        if r is not None:
            return r
        if c.op == "lt":
            return self.dec_lt(c.a[0], c.a[1])
        if c.op == "ovf":
            return self.dec_ovf(c)
        if c.op == "eq":
            a, b = c.a
            f = self.facts
            l1 = Lt(a, b)
            if l1.op == "lt" and f.get(l1):
                return False
            l2 = Lt(b, a)
            if l2.op == "lt" and f.get(l2):
                return False
            if l1.op == "lt" and l2.op == "lt" and f.get(l1) is False and f.get(l2) is False:
                return True
            # discriminants are exclusive
            if a.op == "discr" or b.op == "discr":
                d, k = (a, b) if a.op == "discr" else (b, a)
                for (x, pol) in f.items():
                    if pol and x.op == "eq" and (x.a[0] is d or x.a[1] is d):
                        o = x.a[1] if x.a[0] is d else x.a[0]
                        if o.op == "int" and k.op == "int":
                            return o is k
            if (a.op == "int") != (b.op == "int"):
                x, k = (b, a.a[0]) if a.op == "int" else (a, b.a[0])
                lo, hi, n = self.range_of(x)
                if n and hi is not None and lo == hi == k:
                    return True
            # congruence-free strictness: order facts may separate a and b
            if self._has_order(a) and self._has_order(b):
                if self.dec_lt(a, b) or self.dec_lt(b, a):
                    return False
        return None

    def ge(self, p, q):
        return self.decide(Lt(p, q)) is False

    def dec_ovf(self, c):
        k, bits, a, b = c.a
        if k in ("a", "m"):
            u, v = ub(a, self.ge), ub(b, self.ge)
            if u is not None and v is not None and (u + v if k == "a" else u * v) < 1 << bits:
                return False
        if k != "a":
            return None
        # (s - b) + b does not overflow when b <= s
        for x, y in ((a, b), (b, a)):
            if x.op == "poly":
                s = add(bits, x, y)
                if s.op != "poly" and s is not x and self.decide(Lt(s, y)) is False:
                    return False
        return None

    def _has_order(self, t):
        if t.op == "int":
            return True
        for x in self.facts:
            if x.op == "lt" and (x.a[0] is t or x.a[1] is t):
                return True
        return False

    def range_of(self, x):
        """[lo, hi] of the scalar x from comparisons with constants and excluded constants (hi may be None)"""
        lo, hi = 0, None
        w = wid(x)
        if w is not None:
            hi = (1 << w) - 1
        ex = set()
        for c, pol in self.facts.items():
            if c.op == "eq":
                p, q = c.a
                o = q if p is x else p if q is x else None
                if o is not None and o.op == "int":
                    if pol:
                        return o.a[0], o.a[0], 1
                    ex.add(o.a[0])
            elif c.op == "lt":
                p, q = c.a
                if p is x and q.op == "int":
                    if pol:
                        hi = q.a[0] - 1 if hi is None else min(hi, q.a[0] - 1)
                    else:
                        lo = max(lo, q.a[0])
                elif q is x and p.op == "int":
                    if pol:
                        lo = max(lo, p.a[0] + 1)
                    else:
                        hi = p.a[0] if hi is None else min(hi, p.a[0])
        while lo in ex:
            lo += 1
        while hi is not None and hi in ex and hi > lo:
            hi -= 1
        return lo, hi, len(ex)

    def dec_lt(self, a, b):
        """a < b ?  search the known strict / non-strict order facts"""
        f = self.facts
        if (a.op == "int") != (b.op == "int"):
            lo, hi, n = self.range_of(b if a.op == "int" else a)
            if n and (hi is None or lo <= hi):
                if a.op == "int":
                    if lo > a.a[0]:
                        return True
                    if hi is not None and hi <= a.a[0]:
                        return False
                else:
                    if lo >= b.a[0]:
                        return False
                    if hi is not None and hi < b.a[0]:
                        return True
        strict = []
        weak = []
        nodes_int = set()
        for x, pol in f.items():
            if x.op == "lt":
                p, q = x.a
                if pol:
                    strict.append((p, q))
                else:
                    weak.append((q, p))
                for z in (p, q):
                    if z.op == "int":
                        nodes_int.add(z)
            elif x.op == "eq" and not pol:
                # x != 0  ==> 0 < x
                p, q = x.a
                if p is ZERO:
                    strict.append((ZERO, q))
                    nodes_int.add(ZERO)
                elif q is ZERO:
                    strict.append((ZERO, p))
                    nodes_int.add(ZERO)
        if not strict and not weak:
            return None
        st0, wk0 = list(strict), list(weak)
        for z in (a, b):
            if z.op == "int":
                nodes_int.add(z)
        ns = sorted(nodes_int, key=lambda t: t.a[0])
        for x, y in zip(ns, ns[1:]):
            strict.append((x, y))

        def reach(s, t, need):
            # is there a path s -> t with at least one strict edge (need) / any
            seen = set()
            st = [(s, False)]
            while st:
                n, sf = st.pop()
                if (n, sf) in seen:
                    continue
                seen.add((n, sf))
                if n is t and (sf or not need):
                    return True
                for p, q in strict:
                    if p is n:
                        st.append((q, True))
                for p, q in weak:
                    if p is n:
                        st.append((q, sf))
            return False
        if reach(a, b, True):
            return True
        if reach(b, a, False):
            return False
        return self.dec_diff(a, b, st0, wk0)

    def dec_diff(self, a, b, strict, weak):
        """difference-bound closure: used when terms of the form x + c occur"""
        off = {}
        nodes = {}

        def node(t):
            if t in nodes:
                return
            nodes[t] = len(nodes)
            x = t
            if x.op == "zext" and x.a[1].op == "poly" and 0 < x.a[1].a[0] <= x.a[0]:
                x = x.a[1]
            if x.op == "poly" and x.a[0] and len(x.a[1]) == 2:
                (k0, c), (k1, v) = x.a[1]
                if k0 == () and v == 1 and len(k1) == 1:
                    bits = x.a[0]
                    w = wid(k1[0])
                    if w is not None and w > bits:
                        return
                    if c >= 1 << (bits - 1):
                        c -= 1 << bits
                    off[t] = (k1[0], c, bits)
                    node(k1[0])
        node(ZERO)
        node(a)
        node(b)
        for p, q in strict:
            node(p)
            node(q)
        for p, q in weak:
            node(p)
            node(q)
        if not off or len(nodes) > 40:
            return None
        n = len(nodes)
        NEG = None
        d = [[NEG] * n for _ in range(n)]

        def edge(i, j, w):
            if d[i][j] is None or d[i][j] < w:
                d[i][j] = w
        for t, i in nodes.items():
            edge(i, i, 0)
            edge(0, i, t.a[0] if t.op == "int" else 0)
            if t.op == "int":
                edge(i, 0, -t.a[0])
            else:
                # lengths and iteration counts are bounded by memory and gas
                w = 40 if t.op in ("iv", "len") else wid(t)
                if w is not None:
                    edge(i, 0, 1 - (1 << w))
        for p, q in strict:
            edge(nodes[p], nodes[q], 1)
        for p, q in weak:
            edge(nodes[p], nodes[q], 0)

        def close():
            for k in range(n):
                dk = d[k]
                for i in range(n):
                    x = d[i][k]
                    if x is None:
                        continue
                    di = d[i]
                    for j in range(n):
                        y = dk[j]
                        if y is not None and (di[j] is None or di[j] < x + y):
                            di[j] = x + y
        linked = set()
        while True:
            close()
            if any(d[i][i] > 0 for i in range(n)):
                return None     # contradictory facts: nothing is concluded here
            new = False
            for t, (x, c, bits) in off.items():
                if t in linked:
                    continue
                i, j = nodes[x], nodes[t]
                if c < 0:
                    ok = d[0][i] >= -c
                else:
                    ok = (d[i][0] is not None and d[i][0] >= -((1 << bits) - 1 - c)) \
                        or self.facts.get(Ovf("a", bits, x, Int(c))) is False
                if ok:
                    linked.add(t)
                    edge(i, j, c)
                    edge(j, i, -c)
                    new = True
            if not new:
                break
        i, j = nodes[a], nodes[b]
        if d[i][j] is not None and d[i][j] >= 1:
            return True
        if d[j][i] is not None and d[j][i] >= 0:
            return False
        return None

    def assume(self, c, pol=True):
        """returns False when contradictory (state must then be discarded)"""
        if c.op == "not":
            return self.assume(c.a[0], not pol)
        if c.op == "bool":
            return c.a[0] == pol
        if c.op == "and" and pol:
            return self.assume(c.a[0], True) and self.assume(c.a[1], True)
        if c.op == "and":
            x = self.decide(c.a[0])
            if x is True:
                return self.assume(c.a[1], False)
            y = self.decide(c.a[1])
            if y is True:
                return self.assume(c.a[0], False)
        r = self.decide(c)
        if r is not None:
            return r == pol
        self.order.append((c, pol))
        c = self.canon(c)
        if c.op == "not":
            c = c.a[0]
            pol = not pol
        self.facts[c] = pol
        if c.op == "eq" and pol:
            return self.merge(c.a[0], c.a[1])
        if c.op == "eq" and (c.a[0] is ZERO or c.a[1] is ZERO):
            x = c.a[1] if c.a[0] is ZERO else c.a[0]
            w = wid(x)
            if x.op != "poly" and w is not None and w < 256:
                # x - 1 does not wrap
                self.subst[mk("zext", w, sub(w, x, ONE))] = sub(256, x, ONE)
                self._canon = {}
        if c.op == "lt" and pol and c.a[1] is TWO and self.facts.get(Eq(c.a[0], ZERO)) is False:
            return self.merge(c.a[0], ONE)
        if c.op == "eq" and not pol and (c.a[0] is ZERO or c.a[1] is ZERO):
            x = c.a[1] if c.a[0] is ZERO else c.a[0]
            if self.facts.get(mk("lt", x, TWO)) is True:
                return self.merge(x, ONE)
        if c.op == "lt" and not pol:
            # b <= a ; if also a <= b then equal
            o = Lt(c.a[1], c.a[0])
            if o.op == "lt" and self.facts.get(o) is False:
                return self.merge(c.a[0], c.a[1])
        return True

    @staticmethod
    def rank(t):
        if t.op in ("int", "bool", "str", "bytes"):
            return 0
        if t.op == "sym":
            return 1
        if t.op in ("elem", "fld"):
            return 2
        if t.op == "poly":
            return 9
        return 4

    def merge(self, a, b):
        ra, rb = self.rank(a), self.rank(b)
        if ra == 9 and rb == 9:
            return True
        if (rb, b.id) < (ra, a.id) and rb != 9 or ra == 9:
            a, b = b, a
        # replace b by a  (b must be an atom, not occurring in a)
        if self.rank(b) in (0,):
            return a is b
        if self.rank(b) == 9:
            # b poly, a atom: replace a by b if a does not occur in b
            if self.rank(a) == 0 or contains(b, a):
                return True
            a, b = b, a
        if contains(a, b):
            return True
        self.subst[b] = a
        self._canon = {}
        ns = {b: a}
        memo = {}
        pend = []
        one = lambda x: a if x is b else None
        for k, v in self.subst.items():
            if k is b:
                continue
            k2, v2 = rewrite(k, one, memo), rewrite(v, one, memo)
            if k2 is v2:
                continue
            if k2 in ns and ns[k2] is not v2:
                pend.append((Eq(ns[k2], v2), True))
            elif self.rank(k2) == 0:
                pend.append((Eq(k2, v2), True))
            else:
                ns[k2] = v2
        self.subst = ns
        nf = {}
        for k, v in self.facts.items():
            k2 = self.canon(k)
            if k2.op == "bool":
                if k2.a[0] != v:
                    return False
                continue
            if k2.op == "not":
                k2 = k2.a[0]
                v = not v
            if k2.op == "and":
                pend.append((k2, v))
                continue
            if k2 in nf and nf[k2] != v:
                return False
            nf[k2] = v
        self.facts = nf
        for k, v in pend:
            if not self.assume(k, v):
                return False
        # order contradictions
        for k, v in list(self.facts.items()):
            if v and k.op == "lt":
                if self.facts.get(mk("lt", k.a[1], k.a[0])):
                    return False
        return True


class Path:
    __slots__ = ("st", "ret", "fn")

    def __init__(self, st, ret, fn):
        self.st = st
        self.ret = ret
        self.fn = fn


TWO = Int(2)


class LoopInfo:
    """Summary of a loop with an unknown trip count."""

    def __init__(self, lid, where):
        self.lid = lid
        self.where = where
        self.carried = []   # (lvsym, init, [next per back edge])
        self.iters = []     # [(facts list, trace list)] per back edge partition
        self.written = set()

    def __repr__(self):
        return f"Loop{self.lid}"


TRANSPARENT = {
    "alloy_primitives::Address", "alloy_primitives::FixedBytes", "stylus_sdk::abi::Bytes",
    "alloy_primitives::Bytes", "core::mem::ManuallyDrop", "core::mem::MaybeUninit", "core::mem::MaybeDangling",
    "stylus_sdk::storage::StorageGuard", "stylus_sdk::storage::StorageGuardMut",
    "alloc::boxed::Box", "core::ptr::Unique", "core::ptr::NonNull", "core::num::Wrapping", "core::cmp::Reverse_",
}
SEQ_ADT = {"alloc::vec::Vec", "alloc::string::String"}


class Interp:
    MAX_PATHS = 6000
    MAX_STEPS = 900000

    def __init__(self, prog, progs=None):
        self.prog = prog
        self.T = prog.types
        self.models = None
        self.fid = 0
        self.cellc = 0
        self.lid = 0
        self.stack = []
        self.fnvals = {}
        self.unmodelled = {}
        self.opq = {}          # result term of an unmodelled call -> its name
        self.steps = 0
        self.panics = 0
        self.analysed = set()
        self.callsites = 0
        self.discr_ty = {}
        self.fb = {}
        self.frozen = set()
        self.constcells = {}
        self.consts_memo = {}
        self.ring_types = False
        self.opaque_fns = {}   # path -> handler
        self.step_limit = self.MAX_STEPS
        self.keep_panics = False
        self.panic_states = []
        from . import models
        self.M = models.Models(self)

    # ---------------------------------------------------------- types
    def ty(self, i):
        return self.T[i]

    def tpath(self, i):
        return self.T[i].get("path", self.T[i]["s"]) if i is not None else ""

    def is_storage(self, i):
        t = self.T[i]
        if t["k"] != "adt":
            return False
        p = t["path"]
        return p.startswith("stylus_sdk::storage::Storage") and "Guard" not in p or p in self.prog.storage_types

    def bits(self, i):
        """width of an unsigned scalar type"""
        t = self.T[i]
        if t["k"] == "int":
            return t["bits"]
        if t["k"] == "adt" and t["path"] == "alloy_primitives::Uint":
            try:
                return int(t["args"][0])
            except ValueError:
                return 0
        if t["k"] == "adt" and t["path"] == "alloy_primitives::FixedBytes":
            try:
                return 8 * int(t["args"][0])
            except ValueError:
                return 0
        if t["k"] == "adt" and t["path"] == "alloy_primitives::Address":
            return 160
        if t["k"] == "bool":
            return 1
        if t["k"] == "ref":
            return self.bits(t["to"])
        return 0

    # ---------------------------------------------------------- fresh values
    def new_cell(self, st, v):
        self.cellc += 1
        c = ("h", self.cellc)
        st.mem[c] = v
        return c

    def ref(self, cell, path=()):
        return mk("ref", cell, tuple(path))

    def fresh(self, st, i, name):
        t = self.T[i]
        k = t["k"]
        if k == "ref" or k == "ptr":
            return self.ref(self.new_cell(st, self.fresh(st, t["to"], name)))
        if k == "tuple":
            return tup(*[self.fresh(st, f, f"{name}.{n}") for n, f in enumerate(t["f"])])
        if k == "adt":
            if self.is_storage(i):
                return mk("stor", i, name)
            p = t["path"]
            if p in TRANSPARENT or p in SEQ_ADT or p == "alloy_primitives::Uint":
                r = mk("sym", name, i)
                if p == "alloy_primitives::Uint":
                    b = self.bits(i)
                    if b:
                        WID[r] = b
                return r
            if t["kind"] == "struct" and "variants" in t and (p in self.prog.adts):
                f = t["variants"][0]["f"]
                if len(f) <= 24:
                    return agg(i, 0, *[self.fresh(st, fi, f"{name}.{fn}") for fn, fi in f])
        if k == "array" and isinstance(t["len"], int) and t["len"] <= 16 and self.T[t["of"]]["s"] != "u8":
            return agg("array", 0, *[self.fresh(st, t["of"], f"{name}[{n}]") for n in range(t["len"])])
        return mk("sym", name, i)

    # ---------------------------------------------------------- constants
    def const(self, st, c):
        if "fn" in c:
            key = json.dumps(c["fn"], sort_keys=True)
            t = mk("fn", key)
            self.fnvals[t] = c["fn"]
            return t
        if "val" in c:
            v = self.cval(st, c["val"], c["ty"], c.get("def"))
            if v is not None:
                return v
        if "pbody" in c and c["pbody"] in self.prog.bodies:
            rs = self.exec_fn(st, self.prog.bodies[c["pbody"]], [])
            if len(rs) == 1:
                if rs[0][0] is not st:
                    for ck, cv in rs[0][0].mem.items():
                        st.mem.setdefault(ck, cv)
                return rs[0][1]
        if "def" in c:
            m = self.M.const(c)
            if m is not None:
                return m
            return mk("const", c["def"], tuple(self.T[a]["s"] if isinstance(a, int) else a for a in c.get("args", [])))
        if "param" in c:
            return mk("sym", "const " + c["param"], c["ty"])
        if "promoted" in c:
            return mk("const", "promoted", c["promoted"], id(c))
        if "runtime_check" in c:
            return FALSE
        return mk("const", "?", json.dumps(c)[:80])

    def cval(self, st, v, i, d=None):
        t = self.T[i] if i is not None else None
        if "i" in v:
            if t and t["k"] == "bool":
                return Bool(v["i"] != "0")
            return Int(int(v["i"]))
        if "zst" in v:
            ti = self.T[v["zst"]]
            if ti["k"] == "tuple":
                return UNIT
            if ti["k"] == "fndef":
                return mk("const", "fndef", ti["s"])
            if ti["k"] == "closure":
                b = self.closure_key(v["zst"])
                return agg(("closure", b), 0) if b else mk("const", ti["s"])
            if ti["k"] == "array":
                return agg("array", 0)
            return agg(v["zst"], 0)
        if "ref" in v:
            inner = v["ref"]
            to = t["to"] if t and t["k"] in ("ref", "ptr") else None
            val = self.cval(st, inner, to)
            c = ("const", val)
            st.mem.setdefault(c, val)
            return self.ref(c)
        if "str" in v:
            return mk("str", v["str"])
        if "bytes" in v:
            return mk("bytes", v["bytes"])
        if "arr" in v:
            of = t["of"] if t and t["k"] in ("array", "slice") else None
            return agg("array", 0, *[self.cval(st, x, of) for x in v["arr"]])
        if "tup" in v:
            fs = t["f"] if t else [None] * len(v["tup"])
            return tup(*[self.cval(st, x, f) for x, f in zip(v["tup"], fs)])
        if "adt" in v:
            ai = v["adt"]
            at = self.T[ai]
            p = at["path"]
            if p == "alloy_primitives::Uint":
                x = v["f"][0]
                if "arr" in x:
                    n = 0
                    for k, l in enumerate(x["arr"]):
                        n |= int(l["i"]) << (64 * k)
                    return Int(n)
            if p in TRANSPARENT and v["f"]:
                x = self.cval(st, v["f"][0], None)
                if x.op == "bytes":
                    return Int(int(x.a[0] or "0", 16)) if p in ("alloy_primitives::Address", "alloy_primitives::FixedBytes") else x
                return x
            if p == "alloc::vec::Vec":
                return agg("array", 0)
            fts = [None] * len(v["f"])
            if "variants" in at and v["v"] < len(at["variants"]):
                ft = at["variants"][v["v"]]["f"]
                fts = [x[1] for x in ft]
            return agg(ai, v["v"], *[self.cval(st, x, f) for x, f in zip(v["f"], fts)])
        if "static" in v:
            return mk("const", v["static"])
        if "fnptr" in v:
            return mk("const", "fnptr", v["fnptr"])
        if d:
            return mk("const", d)
        return None

    def closure_key(self, tyid):
        return None

    # ---------------------------------------------------------- memory
    def proj(self, st, v, e):
        k = e[0]
        if k == "f":
            _, i, var, pt = e
            if v.op == "stor":
                tt = self.T[v.a[0]]
                if tt["k"] == "adt" and tt["path"] in TRANSPARENT:
                    return v
                f = tt["variants"][0]["f"][i]
                r = mk("stor", f[1], *(v.a[1:] + (f[0],)))
                if tt["k"] == "adt" and (tt["path"], f[0]) in self.prog.frozen_fields():
                    self.frozen.add(r.a[1:])
                return r
            if v.op == "agg":
                pp = self.T[pt].get("path") if pt is not None else None
                if pp in TRANSPARENT and v.a[0] == "array":
                    return v
                if var is not None and v.a[1] != var:
                    raise Infeasible()
                if 2 + i >= len(v.a):
                    if pt is not None and pp in TRANSPARENT:
                        return v
                    raise Unsupported(f"field {i} of {v}")
                return v.a[2 + i]
            if v.op == "with":
                if v.a[1] == ("f", i, var):
                    return v.a[2]
                return self.proj(st, v.a[0], e)
            if v.op == "ref":
                return v
            if pt is not None:
                pp = self.T[pt].get("path")
                if pp in TRANSPARENT or pp == "alloy_primitives::Uint":
                    if pp == "alloy_primitives::Address":
                        self.fb[v] = self.fb[st.canon(v)] = 20
                    elif pp == "alloy_primitives::FixedBytes":
                        n = self.fixed_len(pt)
                        if n:
                            self.fb[v] = self.fb[st.canon(v)] = n
                    return v
            if var is not None:
                return mk("vfld", v, var, i)
            return mk("fld", v, i)
        if k == "i":
            idx = e[1]
            return self.index(st, v, idx)
        if k == "sub":
            _, a, b, fe = e
            if v.op == "agg":
                fs = afields(v)
                hi = len(fs) - b if fe else b
                return agg("array", 0, *fs[a:hi])
            return self.subrange(v, Int(a), sub(64, self.length(v), Int(b)) if fe else Int(b))
        if k == "cend":
            # index from the end
            if v.op == "agg":
                return v.a[len(v.a) - e[1]]
            return self.index(st, v, sub(64, self.length(v), Int(e[1])))
        if k == "range":
            return self.subrange(v, e[1], e[2])
        raise Unsupported(f"proj {e}")

    def fixed_len(self, pt):
        f = self.T[pt]["variants"][0]["f"][0][1]
        n = self.T[f].get("len") if self.T[f]["k"] == "array" else None
        return n if isinstance(n, int) else None

    def byte_fact(self, st, v):
        """v is a byte of a fixed-width value whose switch has just been decided: lift what the bytes say to the whole
        value (all bytes zero <=> the value is zero).  False: the state is contradictory"""
        if v.op != "elem" or v.a[0] not in self.fb:
            return True
        w, n = v.a[0], self.fb[v.a[0]]
        if st.decide(Eq(v, ZERO)) is False:
            return st.decide(Eq(w, ZERO)) is False or (st.decide(Eq(w, ZERO)) is None and st.assume(Eq(w, ZERO), False))
        if all(st.decide(Eq(mk("elem", w, Int(i)), ZERO)) is True for i in range(n)):
            d = st.decide(Eq(w, ZERO))
            return d is True or (d is None and st.assume(Eq(w, ZERO), True))
        return True

    def index(self, st, v, idx):
        idx = st.canon(idx)
        if v in self.fb and st.decide(Eq(v, ZERO)) is True:
            return ZERO
        if v.op == "agg" and v.a[0] == "array":
            if idx.op == "int":
                n = idx.a[0]
                if n >= len(v.a) - 2:
                    raise Infeasible()
                return v.a[2 + n]
            return mk("elem", v, idx)
        if v.op == "bytes" and idx.op == "int":
            b = bytes.fromhex(v.a[0])
            if idx.a[0] >= len(b):
                raise Infeasible()
            return Int(b[idx.a[0]])
        if v.op == "repeat":
            return v.a[0]
        if v.op == "push":
            d = st.decide(Eq(self.length(v.a[0]), idx))
            if d is True:
                return v.a[1]
            if d is False:
                return self.index(st, v.a[0], idx)
        if v.op == "slice":
            x = self.index(st, v.a[0], add(64, v.a[1], idx))
            # a fixed-width value cut out of opaque data keeps its own bytes (byte_fact relates them to the value)
            return mk("elem", v, idx) if v in self.fb and x.op == "elem" else x
        if v.op == "upd":
            d = st.decide(Eq(v.a[1], idx))
            if d is True:
                return v.a[2]
            if d is False:
                return self.index(st, v.a[0], idx)
        return mk("elem", v, idx)

    def subrange(self, v, lo, hi):
        """v[lo..hi] (hi None = to the end)"""
        if v.op == "agg" and v.a[0] == "array" and lo.op == "int" and (hi is None or hi.op == "int"):
            fs = afields(v)
            return agg("array", 0, *fs[lo.a[0]:(hi.a[0] if hi is not None else None)])
        if v.op == "bytes" and lo.op == "int" and (hi is None or hi.op == "int"):
            b = bytes.fromhex(v.a[0])
            return mk("bytes", b[lo.a[0]:(hi.a[0] if hi is not None else None)].hex())
        if lo is ZERO and (hi is None or hi is self.length(v)):
            return v
        if v.op == "concat" and lo.op == "int" and (hi is None or hi.op == "int"):
            sg = self.segs(v)
            if sg is not None:
                return self.unsegs(self.cut(sg, lo.a[0], sum(x[1] for x in sg) if hi is None else hi.a[0]))
        if hi is None:
            hi = self.length(v)
        return mk("slice", v, lo, hi)

    def push(self, v, x):
        if v.op == "agg" and v.a[0] == "array":
            return mk("agg", *v.a, x)
        return mk("push", v, x)

    def concat(self, v, w):
        if self.length(v) is ZERO:
            return w
        if self.length(w) is ZERO:
            return v
        if v.op == "agg" and w.op == "agg":
            return mk("agg", *(v.a + w.a[2:]))
        if v.op == "str" and w.op == "str":
            return mk("str", v.a[0] + w.a[0])
        if v.op == "bytes" and w.op == "bytes":
            return mk("bytes", v.a[0] + w.a[0])
        if w.op == "concat":
            return self.concat(self.concat(v, w.a[0]), w.a[1])
        return mk("concat", v, w)

    def bnot(self, bits, a):
        n = cint(a)
        if n is not None:
            return Int(n ^ ((1 << bits) - 1))
        return sub(bits, neg(bits, a), ONE)

    def length(self, v):
        if v.op == "push":
            return add(64, self.length(v.a[0]), ONE)
        if v.op == "concat":
            return add(64, self.length(v.a[0]), self.length(v.a[1]))
        if v.op == "tobytes":
            return Int(v.a[0] // 8)
        if v.op == "agg" and v.a[0] == "array":
            return Int(len(v.a) - 2)
        if v.op == "bytes":
            return Int(len(v.a[0]) // 2)
        if v.op == "str":
            return Int(len(v.a[0].encode()))
        if v.op in ("upd", "updrange"):
            return self.length(v.a[0])
        if v.op == "app" and v.a[0] == "keccak256":
            return Int(32)
        if v.op == "slice":
            return sub(64, v.a[2], v.a[1])
        if v.op == "repeat":
            return v.a[1]
        if v.op == "sym":
            t = self.T[v.a[1]]
            if t["k"] == "array":
                return Int(t["len"]) if isinstance(t["len"], int) else mk("sym", "const " + str(t["len"]), v.a[1])
            if t["k"] == "adt" and t["path"] == "alloy_primitives::FixedBytes":
                m = re.search(r"<(\d+)>$", t["s"])
                if m:
                    return Int(int(m.group(1)))
            if t["k"] == "adt" and t["path"] == "alloy_primitives::Address":
                return Int(20)
        return mk("len", v)

    def segs(self, v):
        """byte/element sequence as a list of (part, length) or None"""
        if v.op == "concat":
            a, b = self.segs(v.a[0]), self.segs(v.a[1])
            return None if a is None or b is None else a + b
        n = self.length(v)
        if n.op != "int":
            return None
        return [(v, n.a[0])] if n.a[0] else []

    def cutseg(self, v, n, lo, hi):
        if lo == 0 and hi == n:
            return v
        if v.op == "repeat":
            return mk("repeat", v.a[0], Int(hi - lo))
        return self.subrange(v, Int(lo), Int(hi))

    def cut(self, sg, lo, hi):
        out, at = [], 0
        for v, n in sg:
            a, b = max(lo, at), min(hi, at + n)
            if a < b:
                out.append((self.cutseg(v, n, a - at, b - at), b - a))
            at += n
        return out

    def unsegs(self, sg):
        r = None
        for v, _ in sg:
            r = v if r is None else self.concat(r, v)
        return r if r is not None else agg("array", 0)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            _, i, var, pt = e
            pp = self.T[pt].get("path") if pt is not None else None
            if v.op == "agg" and 2 + i < len(v.a):
                cur = v.a[2 + i] if (var is None or v.a[1] == var) else UNDEF
                new = self.upd(st, cur, path[1:], val)
                l = list(v.a)
                l[2 + i] = new
                return mk("agg", *l)
            if pp in TRANSPARENT:
                return self.upd(st, v, path[1:], val)
            cur = UNDEF
            try:
                cur = self.proj(st, v, e) if v is not UNDEF else UNDEF
            except (Infeasible, Unsupported):
                pass
            new = self.upd(st, cur, path[1:], val)
            if v is UNDEF and pt is not None:
                tt = self.T[pt]
                n = None
                if tt["k"] == "tuple":
                    n, tag, vi = len(tt["f"]), "tuple", 0
                elif tt["k"] == "adt" and "variants" in tt and tt["kind"] != "union":
                    vi = var or 0
                    n, tag = len(tt["variants"][vi]["f"]), pt
                if n is not None:
                    l = [UNDEF] * n
                    l[i] = new
                    return agg(tag, vi, *l)
            if v.op == "with" and v.a[1] == ("f", i, var):
                v = v.a[0]
            return mk("with", v, ("f", i, var), new)
        if e[0] == "i":
            idx = st.canon(e[1])
            cur = self.index(st, v, idx)
            new = self.upd(st, cur, path[1:], val)
            if v.op == "agg" and v.a[0] == "array" and idx.op == "int":
                l = list(v.a)
                l[2 + idx.a[0]] = new
                return mk("agg", *l)
            if v.op == "repeat" and idx.op == "int" and v.a[1].op == "int" and v.a[1].a[0] <= 64:
                l = [v.a[0]] * v.a[1].a[0]
                l[idx.a[0]] = new
                return agg("array", 0, *l)
            return mk("upd", v, idx, new)
        if e[0] == "range":
            cur = self.subrange(v, e[1], e[2])
            new = self.upd(st, cur, path[1:], val)
            if v.op == "agg" and v.a[0] == "array" and new.op == "agg" and e[1].op == "int":
                l = list(v.a)
                for n, x in enumerate(afields(new)):
                    l[2 + e[1].a[0] + n] = x
                return mk("agg", *l)
            sv, sn = self.segs(v), self.segs(new)
            if sv is not None and sn is not None and e[1].op == "int":
                lo = e[1].a[0]
                ln = sum(x[1] for x in sn)
                tot = sum(x[1] for x in sv)
                return self.unsegs(self.cut(sv, 0, lo) + sn + self.cut(sv, lo + ln, tot))
            return mk("updrange", v, e[1], new)
        return mk("with", v, e, val)

    def rd(self, st, cell, path):
        v = st.mem.get(cell)
        if v is None:
            v = UNDEF
        for e in path:
            v = self.proj(st, v, e)
        return v

    def wr(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        v = st.mem.get(cell, UNDEF)
        st.mem[cell] = self.upd(st, v, path, val)

    def deref(self, st, v):
        """value behind a reference value"""
        if v.op == "ref":
            return self.rd(st, v.a[0], v.a[1])
        return mk("deref", v)

    def deref_all(self, st, v):
        n = 0
        while v.op == "ref" and n < 10:
            v = self.rd(st, v.a[0], v.a[1])
            n += 1
        return v

    def store(self, st, r, val):
        if r.op == "ref":
            self.wr(st, r.a[0], r.a[1], val)
        else:
            st.mem[("D", r)] = val

    def lval(self, st, fid, body, pl):
        cell = (fid, pl[0])
        path = ()
        ty = body["locals"][pl[0]]
        var = None
        for e in pl[1:]:
            if e == "*":
                v = self.rd(st, cell, path)
                if v.op == "ref":
                    cell, path = v.a
                else:
                    c = ("D", v)
                    if c not in st.mem:
                        st.mem[c] = mk("deref", v) if v.op not in ("stor",) else v
                    cell, path = c, ()
                tt = self.T[ty]
                ty = tt.get("to") if tt["k"] in ("ref", "ptr") else (tt["args"][0] if tt.get("args") and isinstance(tt["args"][0], int) else None)
            elif e[0] == "f":
                path = path + (("f", e[1], var, ty),)
                ty = e[2]
                var = None
            elif e[0] == "d":
                var = e[1]
                # structs have a single variant
                if ty is not None and self.T[ty].get("kind") == "struct":
                    var = None
            elif e[0] == "i":
                path = path + (("i", st.mem.get((fid, e[1]), UNDEF)),)
                ty = self.T[ty].get("of") if ty is not None else None
            elif e[0] == "c":
                path = path + ((("cend", e[1]) if e[2] else ("i", Int(e[1]))),)
                ty = self.T[ty].get("of") if ty is not None else None
            elif e[0] == "s":
                path = path + (("sub", e[1], e[2], e[3]),)
            else:
                raise Unsupported(f"proj {e}")
        return cell, path

    def read_place(self, st, fid, body, pl):
        c, p = self.lval(st, fid, body, pl)
        return self.rd(st, c, p)

    def operand(self, st, fid, body, o):
        if "p" in o:
            return self.read_place(st, fid, body, o["p"])
        return self.const(st, o["c"])

    def optype(self, body, o):
        if "c" in o:
            return o["c"].get("ty")
        pl = o["p"]
        ty = body["locals"][pl[0]]
        for e in pl[1:]:
            if ty is None:
                return None
            tt = self.T[ty]
            if e == "*":
                ty = tt.get("to") if tt["k"] in ("ref", "ptr") else (tt["args"][0] if tt.get("args") and isinstance(tt["args"][0], int) else None)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "c"):
                ty = tt.get("of")
        return ty

    # ---------------------------------------------------------- rvalues
    def rvalue(self, st, fid, body, r, dst_ty):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, body, r[1])
        if k == "ref":
            pl = r[1]
            # reborrow of an opaque reference keeps the reference itself
            c, p = self.lval(st, fid, body, pl)
            if c[0] == "D" and not p:
                return c[1] if st.mem.get(c) is not None and st.mem[c].op == "deref" else self.ref(c, p)
            return self.ref(c, p)
        if k == "agg":
            vals = [self.operand(st, fid, body, o) for o in r[2]]
            kd = r[1]
            if kd == "tuple":
                return tup(*vals)
            if kd == "array":
                return agg("array", 0, *vals)
            if kd == "rawptr":
                return vals[0]
            if isinstance(kd, list) and kd[0] == "adt":
                t = self.T[kd[1]]
                if t.get("path") in TRANSPARENT:
                    return vals[0] if vals else UNIT
                if t.get("path") == "alloy_primitives::Uint":
                    return mk("app", "from_limbs", *vals)
                if kd[3] >= 0:   # union
                    return vals[0]
                return agg(kd[1], kd[2], *vals)
            if isinstance(kd, list) and kd[0] == "closure":
                return agg(("closure", kd[2].get("inst")), 0, *vals)
            return mk("app", "aggregate", *vals)
        if k == "bin":
            a = self.operand(st, fid, body, r[2])
            b = self.operand(st, fid, body, r[3])
            ta = self.optype(body, r[2])
            return self.binop(st, r[1], a, b, ta)
        if k == "un":
            a = self.operand(st, fid, body, r[2])
            ta = self.optype(body, r[2])
            if r[1] == "Not":
                if self.T[ta]["k"] == "bool":
                    return Not(a)
                n = cint(a)
                bits = self.bits(ta)
                if n is not None:
                    return Int(n ^ ((1 << bits) - 1))
                # !x == -x - 1 (mod 2^n)
                return sub(bits, neg(bits, a), ONE)
            if r[1] == "Neg":
                return neg(self.bits(ta), a) if not self.T[ta].get("signed") else (Int(-a.a[0]) if a.op == "int" else mk("app", "neg", a))
            if r[1] == "PtrMetadata":
                return self.length(self.deref(st, a))
            return mk("app", "un" + r[1], a)
        if k == "discr":
            v = self.read_place(st, fid, body, r[1])
            return self.discr(st, v, r[2])
        if k == "cast":
            a = self.operand(st, fid, body, r[2])
            ck = r[1]
            ta = self.optype(body, r[2])
            if ck == "IntToInt":
                return self.intcast(a, ta, r[3])
            if ck.startswith("PointerCoercion(ReifyFnPointer") or ck.startswith("PointerCoercion(ClosureFn"):
                return a
            return a
        if k == "repeat":
            v = self.operand(st, fid, body, r[1])
            n = r[2]
            if isinstance(n, int):
                if n <= 64:
                    return agg("array", 0, *[v] * n)
                return mk("repeat", v, Int(n))
            return mk("repeat", v, mk("sym", "const " + n, dst_ty))
        return mk("app", "rv" + k)

    def discr(self, st, v, tyid):
        t = self.T[tyid]
        if v.op == "agg" and isinstance(v.a[1], int):
            ds = t.get("discrs")
            if ds and v.a[1] < len(ds):
                return Int(ds[v.a[1]])
            return Int(v.a[1])
        if v.op == "ite":
            return Ite(v.a[0], self.discr(st, v.a[1], tyid), self.discr(st, v.a[2], tyid))
        d = mk("discr", v)
        self.discr_ty[d] = tyid
        return d

    def intcast(self, a, fr, to):
        bf, bt = self.bits(fr), self.bits(to)
        if a.op == "int":
            n = a.a[0] % (1 << bt) if bt else a.a[0]
            if self.T[to].get("signed") and n >= 1 << (bt - 1):
                n -= 1 << bt
            return Int(n)
        if a.op == "bool":
            return Int(int(a.a[0]))
        if self.T[fr]["k"] == "bool":
            return mk("b2i", a)
        if self.T[fr].get("signed") and a.op != "discr":
            return mk("app", f"cast{bf}s{bt}", a) if bf != bt else a
        return self.zext(a, bf, bt)

    def zext(self, a, bf, bt):
        if a.op == "int":
            return a if not bt else Int(a.a[0] % (1 << bt))
        if bt >= bf:
            if a.op == "poly" and a.a[0] == bf and bf != bt:
                return mk("zext", bf, a)
            if bf and a.op not in ("poly", "int") and WID.get(a, 1 << 30) > bf:
                WID[a] = bf
            return a
        if a.op == "poly" and a.a[0] > bt:
            # truncation distributes over ring operations
            return mk("trunc", bt, a)
        if a.op == "zext" and a.a[0] == bt:
            return a.a[1]
        return mk("trunc", bt, a)

    def binop(self, st, op, a, b, ty):
        t = self.T[ty] if ty is not None else {"k": "int"}
        bits = self.bits(ty) if ty is not None else 64
        isb = t["k"] == "bool"
        signed = t.get("signed")
        if op == "Eq":
            return Eq(a, b)
        if op == "Ne":
            return Not(Eq(a, b))
        if op in ("Lt", "Le", "Gt", "Ge"):
            if signed and not (a.op == "int" and b.op == "int"):
                a2, b2 = (a, b) if op in ("Lt", "Le") else (b, a)
                if op in ("Lt", "Gt"):
                    return mk("app", "slt", a2, b2)
                return Not(mk("app", "slt", b2, a2))
            return {"Lt": lambda: Lt(a, b), "Le": lambda: Le(a, b), "Gt": lambda: Lt(b, a), "Ge": lambda: Le(b, a)}[op]()
        if op in ("Add", "AddUnchecked"):
            return add(bits, a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(bits, a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(bits, a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            f = {"A": add, "S": sub, "M": mul}[op[0]]
            r = f(bits, a, b)
            x, y = cint(a), cint(b)
            if x is not None and y is not None:
                v = {"A": x + y, "S": x - y, "M": x * y}[op[0]]
                return tup(r, Bool(v < 0 or v >= 1 << bits))
            if op[0] == "S":
                return tup(r, Lt(a, b))
            return tup(r, Ovf(op[0].lower(), bits, a, b))
        if op == "BitAnd":
            if isb:
                return And(a, b)
            return self.bitop("band", bits, a, b)
        if op == "BitOr":
            if isb:
                return Or(a, b)
            return self.bitop("bor", bits, a, b)
        if op == "BitXor":
            if isb:
                if b is TRUE:
                    return Not(a)
                return Not(Eq(a, b))
            return self.bitop("bxor", bits, a, b)
        if op in ("Shl", "ShlUnchecked"):
            return self.shl(bits, a, b)
        if op in ("Shr", "ShrUnchecked"):
            return self.shr(bits, a, b)
        if op == "Div":
            return self.div(bits, a, b)
        if op == "Rem":
            return self.rem(bits, a, b)
        if op == "Cmp":
            return mk("app", "cmp", a, b)
        return mk("app", "bin" + op, a, b)

    def bitop(self, op, bits, a, b):
        x, y = cint(a), cint(b)
        if x is not None and y is not None:
            return Int({"band": x & y, "bor": x | y, "bxor": x ^ y}[op])
        if a is b:
            return {"band": a, "bor": a, "bxor": ZERO}[op]
        if x is not None:
            a, b, x, y = b, a, y, x
        if y is not None:
            if op == "band" and y == 0:
                return ZERO
            if op in ("bor", "bxor") and y == 0:
                return a
            if op == "band" and bits and y == (1 << bits) - 1:
                return a
        if b.id < a.id:
            a, b = b, a
        return mk(op, bits, a, b)

    def shl(self, bits, a, k):
        n = cint(k)
        if n is not None:
            if bits and n >= bits:
                return ZERO
            return mul(bits, a, Int(1 << n))
        x = cint(a)
        if x == 0:
            return ZERO
        return mk("shl", bits, a, k)

    def shr(self, bits, a, k):
        n, x = cint(k), cint(a)
        if n == 0:
            return a
        if n is not None and x is not None:
            return Int(x >> n)
        if n is not None and bits and n >= bits:
            return ZERO
        if n is not None:
            # shr by k is division by 2^k
            return self.div(bits, a, Int(1 << n))
        return mk("shr", bits, a, k)

    def div(self, bits, a, b):
        x, y = cint(a), cint(b)
        if x is not None and y:
            return Int(x // y)
        if y == 1:
            return a
        if a.op == "poly" and a.a[0] == bits and y is None:
            # (x + d - 1) / d  is the ceiling of x / d
            x = add(bits, sub(bits, a, b), ONE)
            if split_poly(x)[1] is ZERO if x.op == "poly" else True:
                if not (x.op == "poly" and contains(x, b) and contains_mono(x, b)):
                    return mk("cdiv", bits, x, b)
        e = exact_div(bits, a, b) if y is None else None
        return mk("div", bits, a, b) if e is None else e

    def rem(self, bits, a, b):
        x, y = cint(a), cint(b)
        if x is not None and y:
            return Int(x % y)
        if y == 1:
            return ZERO
        return mk("rem", bits, a, b)

    # ---------------------------------------------------------- storage
    @staticmethod
    def base_of(path):
        out = []
        for x in path:
            if isinstance(x, str):
                out.append(x)
            else:
                break
        return tuple(out)

    def same_loc(self, st, p, q):
        """True / False / Term (undecided equality)"""
        if len(p) != len(q):
            return False
        und = None
        for x, y in zip(p, q):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
            else:
                c = Eq(x[1], y[1])
                d = st.decide(c)
                if d is False:
                    return False
                if d is None and und is None:
                    und = c
        return True if und is None else und

    def sload(self, st, path):
        """[(state, value)] – forks on undecided aliasing"""
        out = []
        work = [(st, len(st.writes) - 1)]
        while work:
            s, i = work.pop()
            while i >= 0:
                wp, wv = s.writes[i]
                r = self.same_loc(s, path, wp)
                if r is True:
                    out.append((s, wv))
                    break
                if r is False:
                    i -= 1
                    continue
                s2 = s.copy()
                if s2.assume(r, False):
                    work.append((s2, i))
                s3 = s.copy()
                if s3.assume(r, True):
                    work.append((s3, i))
                break
            else:
                # initial value; structural prefix writes (whole-struct erase) handled by models
                b = self.base_of(path)
                ep = 0 if path in self.frozen else s.bepoch.get(b, s.epoch)
                kp = tuple(x if isinstance(x, str) else ("k", s.canon(x[1])) for x in path)
                out.append((s, mk("sload", ep, *kp)))
        return out

    def event(self, st, kind, *data):
        st.trace.append((kind, data, self.where(), len(st.order)))

    def where(self):
        return tuple(self.stack)

    def sstore(self, st, path, val):
        kp = tuple(x if isinstance(x, str) else ("k", st.canon(x[1])) for x in path)
        st.writes.append((kp, val))
        self.event(st, "write", kp, val)

    def havoc_storage(self, st, tag):
        st.epoch = tag
        st.bepoch = {}
        st.writes = []

    # ---------------------------------------------------------- calls
    def exec_fn(self, st, body, args):
        """inline execution; returns [(state, retval)]"""
        self.analysed.add(body["key"])
        if len(self.stack) > 60:
            raise Unsupported("recursion too deep: " + body["key"])
        self.fid += 1
        fid = self.fid
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        self.stack.append((body["file"], 0, body["path"]))
        try:
            rets, _, _ = self.explore(body, fid, 0, st, None, None)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            v = s.mem.get((fid, 0), UNIT)
            if "#promoted" not in body["key"]:
                for k in [k for k in s.mem if k[0] == fid]:
                    del s.mem[k]
            out.append((s, v))
        return out

    def explore(self, body, fid, entry, st, region, header):
        """returns (returns, backs, exits)"""
        loops = self.prog.loops(body)
        rets, backs, exits = [], [], []
        work = [(entry, st, True)]
        bbs = body["bbs"]
        while work:
            bb, s, first = work.pop()
            if region is not None:
                if bb not in region:
                    exits.append((bb, s))
                    continue
                if bb == header and not first:
                    backs.append(s)
                    continue
            if bb in loops and not (region is not None and bb == header):
                for tb, s2 in self.do_loop(body, fid, bb, s):
                    work.append((tb, s2, False))
                continue
            self.steps += 1
            if self.steps > self.step_limit:
                raise Budget("step budget exceeded in " + body["path"])
            if len(rets) + len(exits) + len(work) + len(backs) > self.MAX_PATHS:
                raise Budget("path budget exceeded in " + body["path"])
            blk = bbs[bb]
            try:
                self.stmts(body, fid, s, blk)
                for nb, ns in self.term(body, fid, s, blk):
                    if nb == "return":
                        rets.append(ns)
                    else:
                        work.append((nb, ns, False))
            except Infeasible:
                continue
        return rets, backs, exits

    def stmts(self, body, fid, s, blk):
        for x in blk["s"]:
            if x[0] == "=":
                self.stack[-1] = (body["file"], x[3], body["path"])
                c, p = self.lval(s, fid, body, x[1])
                v = self.rvalue(s, fid, body, x[2], body["locals"][x[1][0]])
                self.wr(s, c, p, v)
            elif x[0] == "sd":
                c, p = self.lval(s, fid, body, x[1])
                v = self.rd(s, c, p)
                if v.op == "agg":
                    l = list(v.a)
                    l[1] = x[2]
                    self.wr(s, c, p, mk("agg", *l))
                else:
                    raise Unsupported("set_discriminant")
            elif x[0] == "copy":
                raise Unsupported("copy_nonoverlapping")

    def branch(self, st, c):
        """[(state, bool)]"""
        d = st.decide(c)
        if d is not None:
            return [(st, d)]
        out = []
        a = st.copy()
        if a.assume(c, True):
            out.append((a, True))
        b = st
        if b.assume(c, False):
            out.append((b, False))
        return out

    def term(self, body, fid, s, blk):
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], s)]
        if k == "return":
            return [("return", s)]
        if k == "drop":
            return [(t[1], s)]
        if k == "switch":
            self.stack[-1] = (body["file"], t[5], body["path"])
            v = self.operand(s, fid, body, t[1])
            tt = self.T[t[4]]
            isb = tt["k"] == "bool"
            bbs = body["bbs"]
            out = []
            if v.op == "ite" and not isb:
                res = []
                for s2, b in self.branch(s, v.a[0]):
                    v2 = v.a[1] if b else v.a[2]
                    res += self.switch_on(s2, v2, t, isb, bbs)
                return res
            return self.switch_on(s, v, t, isb, bbs)
        if k == "assert":
            self.stack[-1] = (body["file"], t[5], body["path"])
            v = self.operand(s, fid, body, t[1])
            c = v if t[2] else Not(v)
            out = []
            for s2, b in self.branch(s, c):
                if b:
                    out.append((t[3], s2))
                else:
                    self.panic(s2, t[4])
            return out
        if k == "call":
            return self.do_call(body, fid, s, t)
        return []

    def switch_on(self, s, v, t, isb, bbs):
        out = []
        if isb:
            n = cint(v)
            tgt = {int(x[0]): x[1] for x in t[2]}
            res = [(s, bool(n))] if n is not None else self.branch(s, v)
            for s2, b in res:
                out.append((tgt.get(int(b), t[3]), s2))
            return out
        v = s.canon(v)
        n = cint(v)
        if n is not None:
            for x in t[2]:
                if int(x[0]) == n or (n < 0 and int(x[0]) == n % (1 << self.bits(t[4]))):
                    return [(x[1], s)]
            return [(t[3], s)]
        rest = s
        for x in t[2]:
            c = Eq(v, Int(int(x[0])))
            d = rest.decide(c)
            if d is True:
                out.append((x[1], rest))
                return out
            if d is False:
                continue
            a = rest.copy()
            if bbs[x[1]]["t"][0] != "unreachable" and a.assume(c, True) and self.byte_fact(a, v):
                out.append((x[1], a))
            if not rest.assume(c, False) or not self.byte_fact(rest, v):
                return out
        if bbs[t[3]]["t"][0] != "unreachable":
            # otherwise: single remaining variant?
            if v.op == "discr" and v in self.discr_ty:
                ds = self.T[self.discr_ty[v]].get("discrs")
                if ds:
                    rem = [d for d in ds if rest.decide(Eq(v, Int(d))) is not False]
                    if not rem:
                        return out
                    if len(rem) == 1:
                        if not rest.assume(Eq(v, Int(rem[0])), True):
                            return out
            out.append((t[3], rest))
        return out

    def panic(self, st, msg):
        self.panics += 1
        if self.keep_panics:
            self.panic_states.append((st, msg, self.where()))

    def do_call(self, body, fid, s, t):
        _, f, aops, dst, target, line, dty = t
        self.stack[-1] = (body["file"], line, body["path"])
        self.callsites += 1
        args = [self.operand(s, fid, body, o) for o in aops]
        if "ptr" in f:
            fv = self.operand(s, fid, body, f["ptr"])
            res = self.call_value(s, fv, args, dty)
        else:
            atys = [self.optype(body, o) for o in aops]
            res = self.call(s, f, args, dty, atys, target is None)
        out = []
        for s2, v in res:
            if target is None:
                self.panic(s2, f.get("path"))
                continue
            try:
                c, p = self.lval(s2, fid, body, dst)
                self.wr(s2, c, p, v)
            except Infeasible:
                continue
            out.append((target, s2))
        return out

    def call(self, st, f, args, dty, atys=None, diverges=False):
        """[(state, value)]"""
        if diverges and not f.get("local"):
            return [(st, UNIT)]
        r = self.M.call(st, f, args, dty, atys)
        if r is not None:
            return r
        inst = f.get("inst")
        if inst and inst in self.prog.bodies:
            b = self.prog.bodies[inst]
            x = self.prog.is_xcall(b)
            if x:
                return self.M.xcall(st, b, x, args, dty)
            h = self.opaque_fns.get(b["path"])
            if h:
                return h(self, st, f, args, dty)
            if len(args) != b["argc"]:
                # rust-call ABI
                if args and args[-1].op == "agg" and args[-1].a[0] == "tuple":
                    args = args[:-1] + list(afields(args[-1]))
                if len(args) != b["argc"]:
                    raise Unsupported("arity " + inst)
            if any(fr[2] == b["path"] for fr in self.stack) and sum(1 for fr in self.stack if fr[2] == b["path"]) > 3:
                return self.opaque(st, f, args, dty, atys)
            return self.exec_fn(st, b, args)
        if f.get("trait") and not inst:
            b = self.prog.provided(f["trait"], f["name"])
            if b is not None and len(args) == b["argc"] and sum(1 for fr in self.stack if fr[2] == b["path"]) < 3:
                return self.exec_fn(st, b, args)
        return self.opaque(st, f, args, dty, atys)

    def call_value(self, st, fv, args, dty):
        """call a closure / fn item value with untupled args"""
        if fv.op == "ref":
            fr = fv
            fv2 = self.deref_all(st, fv)
        else:
            fr = None
            fv2 = fv
        if fv2.op == "fn":
            return self.call(st, self.fnvals[fv2], args, dty, None)
        if fv2.op == "agg" and isinstance(fv2.a[0], tuple) and fv2.a[0][0] == "closure":
            key = fv2.a[0][1]
            b = self.prog.bodies.get(key)
            if b is None:
                raise Unsupported(f"closure body {key}")
            t1 = self.T[b["locals"][1]]
            if t1["k"] == "ref":
                if fr is None:
                    fr = self.ref(self.new_cell(st, fv2))
                else:
                    while True:
                        inner = self.deref(st, fr)
                        if inner.op == "ref":
                            fr = inner
                        else:
                            break
                a0 = fr
            else:
                a0 = fv2
            al = [a0] + list(args)
            if b["argc"] != len(al):
                if b["argc"] == 2 and len(al) != 2:
                    al = [a0, tup(*args)]
                elif len(args) == 1 and args[0].op == "agg" and b["argc"] == 1 + len(afields(args[0])):
                    al = [a0] + list(afields(args[0]))
                else:
                    raise Unsupported("closure arity")
            return self.exec_fn(st, b, al)
        if fv2.op == "const" and fv2.a[0] == "fnptr":
            b = self.prog.find(fv2.a[1])
            if b:
                return self.exec_fn(st, b, args)
        self.unmodelled["<indirect call>"] = self.unmodelled.get("<indirect call>", 0) + 1
        res = mk("app", "callv", fv2, *args)
        self.opq[res] = "<indirect call>"
        return [(st, res)]

    def fname(self, f):
        n = f.get("trait") and (f["trait"] + "::" + f["name"]) or f.get("path")
        return n

    def opaque(self, st, f, args, dty, atys):
        """unknown function: pure uninterpreted application; mutable references are havocked"""
        n = f.get("rpath") or self.fname(f)
        self.unmodelled[n] = self.unmodelled.get(n, 0) + 1
        vals = []
        muts = []
        for i, a in enumerate(args):
            ty = atys[i] if atys and i < len(atys) else None
            if a.op == "ref":
                vals.append(self.deref_all(st, a))
                if ty is not None and self.T[ty]["k"] in ("ref", "ptr") and self.T[ty]["mut"]:
                    muts.append((i, a))
            else:
                vals.append(a)
        targs = tuple(("Self" if self.T[x]["k"] == "param" else self.T[x]["s"]) if isinstance(x, int) else x for x in f.get("args", []))
        selfs = [v for v in vals if v.op == "stor"]
        res = mk("app", n, targs, *vals)
        component = bool(f.get("trait")) and not f.get("inst") and f["trait"].split("::")[0] not in ("core", "alloc", "std")
        # environment reads and predicates on strings are values of their own, not unknown ones
        known = n.startswith(("stylus_sdk::tx::", "stylus_sdk::block::", "stylus_sdk::msg::", "stylus_sdk::contract::", "stylus_sdk::evm::")) and not muts \
            or n.rsplit("::", 1)[-1] in ("starts_with", "ends_with", "is_ascii", "eq_ignore_ascii_case")
        if not component and not known:
            self.opq[res] = n
        if selfs or muts:
            self.event(st, "opaque", n, tuple(vals), res)
            for i, a in muts:
                v = self.deref_all(st, a)
                if v.op == "stor":
                    self.havoc_storage(st, ("op", len(st.trace)))
                else:
                    r = a
                    while self.deref(st, r).op == "ref":
                        r = self.deref(st, r)
                    hv = mk("app", "mut:" + n, Int(i), *vals)
                    if not component:
                        self.opq[hv] = n
                    self.store(st, r, hv)
        t = self.T[dty] if dty is not None else None
        if t and t["k"] == "ref":
            c = ("D", res)
            st.mem[c] = mk("deref", res)
            return [(st, self.ref(c))]
        return [(st, res)]

    def opaque_in(self, o):
        """names of unmodelled functions whose results the path of outcome o depends on"""
        if not self.opq:
            return []
        names = set()
        seen = set()

        def scan(x):
            stack = [x]
            while stack:
                x = stack.pop()
                if isinstance(x, Term):
                    if x in seen:
                        continue
                    seen.add(x)
                    if x in self.opq:
                        names.add(self.opq[x])
                    stack.extend(x.a)
                elif isinstance(x, (tuple, list)):
                    stack.extend(x)
                elif isinstance(x, dict):
                    stack.extend(x.values())
                elif hasattr(x, "iters") and id(x) not in seen:
                    seen.add(id(x))
                    for b in x.backs:
                        stack.extend(c for c, _ in b.order)
                        stack.append(b.trace)
        scan(o.val)
        scan([c for c, _ in o.st.order])
        scan(o.st.trace)
        return sorted(names)

    # ---------------------------------------------------------- loops
    UNROLL = 700
    MIXED = 6

    def do_loop(self, body, fid, H, st):
        if "symnext" in st.notes:
            # the note belongs to the enclosing loop
            st = st.copy()
            st.notes = tuple(x for x in st.notes if x != "symnext")
            out = self.do_loop(body, fid, H, st)
            for _, x in out:
                if "symnext" not in x.notes:
                    x.notes = x.notes + ("symnext",)
            return out
        L = self.prog.loops(body)[H]
        where = (body["file"], body["path"], H)
        # 1. constant-trip loops: iterate while every exit decision is determined
        snapshot = st.copy()
        steps0 = self.steps
        np0 = len(self.panic_states)
        try:
            cur = [st]
            exits = []
            n = 0
            mixed = 0
            while cur:
                nxt = []
                for s in cur:
                    rets, backs, ex = self.explore(body, fid, H, s.copy(), L, H)
                    if any(x.notes and "symnext" in x.notes for x in backs) or any("symnext" in x.notes for _, x in ex):
                        raise _Summarise()
                    if backs and ex:
                        mixed += 1
                        if mixed > self.MIXED or len(backs) > 24:
                            raise _Summarise()
                    exits += ex
                    nxt += backs
                cur = nxt
                n += 1
                if n > self.UNROLL or len(cur) > 64 or (mixed and n > 70):
                    raise _Summarise()
            return exits
        except _Summarise:
            pass
        self.steps = steps0
        del self.panic_states[np0:]
        st = snapshot

        def body_fn(h):
            rets, backs, ex = self.explore(body, fid, H, h.copy(), L, H)
            return backs, ex
        return self.summarise(st, body_fn, where)

    def summarise(self, st, body_fn, where):
        """widening fixpoint over one generic iteration; returns exits with a
        ('loop', info) event inserted"""
        self.lid += 1
        self_lid = self.lid
        info = LoopInfo(self.lid, where)
        lv_init = {}
        np0 = len(self.panic_states)
        h = st.copy()
        h.notes = tuple(x for x in h.notes if x != "symnext")
        for it in range(12):
            base_tr = len(h.trace)
            base_or = len(h.order)
            backs, exits = body_fn(h)
            nh = h.copy()
            changed = False
            for b in backs:
                for c in list(nh.mem):
                    v2 = b.mem.get(c)
                    v1 = nh.mem[c]
                    if v2 is None or v2 is v1:
                        continue
                    j = self.widen(v1, v2, (self_lid, c), (), lv_init)
                    if j is not v1:
                        nh.mem[c] = j
                        changed = True
            # storage written inside the loop
            for src in backs + [x for _, x in exits]:
                for ev in src.trace[base_tr:]:
                    if ev[0] == "write":
                        b = self.base_of(ev[1][0])
                        if b not in info.written:
                            info.written.add(b)
                            changed = True
                    elif ev[0] in ("xcall", "opaque_mut"):
                        if "*" not in info.written:
                            info.written.add("*")
                            changed = True
                    elif ev[0] == "loop":
                        for b in ev[1][0].written:
                            if b not in info.written:
                                info.written.add(b)
                                changed = True
            if "*" in info.written:
                nh.epoch = ("loop", self_lid)
                nh.bepoch = {}
                nh.writes = []
            else:
                for b in info.written:
                    nh.bepoch[b] = ("loop", self_lid)
                nh.writes = [w for w in nh.writes if self.base_of(w[0]) not in info.written]
            if not changed:
                break
            h = nh
        else:
            raise Unsupported("loop fixpoint not reached")
        # linear induction variables are rewritten in terms of one iteration
        # counter k, and the generic iteration is recomputed
        lin = {}
        k = mk("iv", self_lid)
        for lv, (cell, path, init) in lv_init.items():
            cs = set()
            bits = None
            for b in backs:
                try:
                    nx = self.rdp(b.mem.get(cell, UNDEF), path)
                except Exception:
                    nx = UNDEF
                if nx.op == "poly" and nx.a[0]:
                    bits = nx.a[0]
                    d = sub(bits, nx, lv)
                    cs.add(d.a[0] if d.op == "int" else None)
                else:
                    cs.add(None)
            if len(cs) == 1 and None not in cs and not contains(init, lv):
                c = cs.pop()
                lin[lv] = add(bits, init, mul(bits, Int(c), k))
        h = h.copy()
        if lin and backs:
            memo = {}
            for c in list(h.mem):
                h.mem[c] = rewrite(h.mem[c], lambda x: lin.get(x), memo)
        base_tr = len(h.trace)
        base_or = len(h.order)
        del self.panic_states[np0:]
        backs, exits = body_fn(h)
        for x, _, w in self.panic_states[np0:]:
            x.trace = x.trace[:base_tr] + [("loop", (info,), w, base_or)] + x.trace[base_tr:]
        info.k = k
        info.lin = lin
        info.base_tr, info.base_or = base_tr, base_or
        info.head = h
        info.backs = backs
        # carried variables
        for lv, (cell, path, init) in lv_init.items():
            if lv in lin:
                continue
            nexts = []
            for b in backs:
                try:
                    nexts.append(self.rdp(b.mem.get(cell, UNDEF), path))
                except Exception:
                    nexts.append(UNDEF)
            info.carried.append((lv, init, nexts))
        for b in backs:
            info.iters.append((b.order[base_or:], b.trace[base_tr:]))
        out = []
        for tb, x in exits:
            x.trace = x.trace[:base_tr] + [("loop", (info,), self.where(), base_or)] + x.trace[base_tr:]
            x.notes = tuple(n for n in x.notes if n != "symnext")
            self.canon_loop_exit(x, info)
            out.append((tb, x))
        return out

    def rdp(self, v, path):
        for e in path:
            v = v.a[e]
        return v

    def widen(self, v1, v2, nm, path, lv_init):
        if v1 is v2:
            return v1
        if v1.op == "lv" and v1.a[0] == nm[0]:
            return v1
        if v1.op == "agg" and v2.op == "agg" and v1.a[:2] == v2.a[:2] and len(v1.a) == len(v2.a) and len(v1.a) > 2:
            l = list(v1.a)
            for i in range(2, len(l)):
                if isinstance(l[i], Term):
                    l[i] = self.widen(l[i], v2.a[i], nm, path + (i,), lv_init)
            return mk("agg", *l)
        if v1.op == "it" and v2.op == "it" and v1.a[0] == v2.a[0] and len(v1.a) == len(v2.a):
            l = list(v1.a)
            for i in range(1, len(l)):
                if isinstance(l[i], Term):
                    l[i] = self.widen(l[i], v2.a[i], nm, path + (i,), lv_init)
            return mk("it", *l)
        t = mk("lv", nm[0], nm[1], path)
        if t not in lv_init:
            lv_init[t] = (nm[1], path, v1)
        return t

    def canon_loop_exit(self, st, info):
        """closed forms of accumulators (sums, element-wise collections)"""
        k = info.k
        own = lambda x: (x.op == "lv" and x.a[0] == info.lid) or (x.op == "sload" and x.a[0] == ("loop", info.lid))
        for lv, init, nexts in info.carried:
            if not nexts or any(n is not nexts[0] for n in nexts):
                continue
            nx = nexts[0]
            if nx.op == "push" and nx.a[0] is lv and init is EMPTY:
                f, kind = nx.a[1], "collect"
            elif nx.op == "poly":
                f, kind = sub(nx.a[0], nx, lv), "sumto"
            else:
                continue
            if any(own(x) for x in subterms(f)):
                continue
            bound = k
            for c, p in reversed(st.order[info.base_or:]):
                if not p and c.op == "lt" and c.a[0] is k and not any(own(x) for x in subterms(c)) and all(b.decide(c) is True for b in info.backs):
                    bound = c.a[1]
                    break
            g = rewrite(f, lambda x: KAPPA if x is k else None, {})
            t = mk("app", kind, g, bound)
            if kind == "sumto":
                t = add(nx.a[0], init, t)
            st.subst[lv] = t
            st._canon = {}


KAPPA = mk("iv", "any")


class _Summarise(Exception):
    pass
