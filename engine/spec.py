"""Declarative effect tables and their comparison with analysed summaries.

A table entry is a small Python function over a `Spec` object: it states, for
one entry point, under which conditions the call reverts and otherwise its net
storage effect, its events, its external calls (in order) and its result.  For
every abstract path of the analysed code the entry is evaluated under that
path's facts; every undecided condition of the entry is split.  A path whose
behaviour differs from the entry is a violation."""
from .terms import *
from .interp import Interp, State, Unsupported, Budget, KAPPA


class Revert(Exception):
    pass


class Dead(Exception):
    """branch contradicts the path facts"""


class Mismatch(Exception):
    def __init__(self, msg):
        self.msg = msg


SENDER = mk("env", "sender")
THIS = mk("env", "this")
NOW = mk("env", "timestamp")
CHAINID = mk("env", "chainid")
MAX256 = Int((1 << 256) - 1)


def L(*parts):
    """storage location: strings are fields, terms are keys"""
    return tuple(p if isinstance(p, str) else ("k", p) for p in parts)


def fmt_fact(c, p):
    return ("" if p else "!") + show(c)


class Outcome:
    def __init__(self, kind, st, val, msg=None, where=None):
        self.kind = kind      # ok / err / panic
        self.st = st
        self.val = val
        self.msg = msg
        self.where = where


class Side:
    """replayable storage view"""

    def __init__(self):
        self.writes = []
        self.epoch = 0
        self.bepoch = {}
        self.seg = []      # locations written since last checkpoint


class Spec:
    def __init__(self, eng, st, args, choices, out, run):
        self.eng = eng          # Interp
        self.st = st            # State with the path facts (private copy)
        self.args = args
        self.choices = choices
        self.ci = 0
        self.log_ = []
        self.side = Side()
        self.cps = []           # checkpoints
        self.out = out
        self.run = run
        self.nx = 0
        self.nstub = 0
        self.pending = []
        self.loop_i = 0
        self.level = 0

    # ---- conditions
    def cond(self, c):
        d = self.st.decide(c)
        if d is not None:
            return d
        if self.ci < len(self.choices):
            b = self.choices[self.ci]
        else:
            b = True
            self.choices.append(True)
        self.ci += 1
        if not self.st.assume(c, b):
            raise Dead()
        return b

    def require(self, c):
        if not self.cond(c):
            raise Revert()

    def revert(self):
        raise Revert()

    def assume(self, c):
        """representation invariant of the pre-state"""
        if self.st.decide(c) is True:
            return
        if not self.st.assume(c, True):
            raise Dead()

    def pure(self, name, *args):
        """result of a method of a generic component (its implementation is the user's)"""
        return mk("app", name, ("Self",), *args)

    def a(self, i):
        return self.args[i]

    def eq(self, a, b):
        a, b = self.st.canon(a), self.st.canon(b)
        if a is b:
            return True
        return self.st.decide(Eq(a, b)) is True

    # ---- storage
    def view(self, side, loc):
        for wp, wv in reversed(side.writes):
            r = self.same(loc, wp)
            if r:
                return wv
        b = self.eng.base_of(loc)
        ep = 0 if tuple(loc) in self.eng.frozen else side.bepoch.get(b, side.epoch)
        kp = tuple(x if isinstance(x, str) else ("k", self.st.canon(x[1])) for x in loc)
        return mk("sload", ep, *kp)

    def same(self, p, q):
        if len(p) != len(q):
            return False
        for x, y in zip(p, q):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
        for x, y in zip(p, q):
            if not isinstance(x, str):
                if not self.cond(Eq(x[1], y[1])):
                    return False
        return True

    def load(self, *loc):
        loc = loc[0] if len(loc) == 1 and isinstance(loc[0], tuple) else L(*loc)
        return self.st.canon(self.view(self.side, loc))

    def store(self, loc, val):
        kp = tuple(x if isinstance(x, str) else ("k", self.st.canon(x[1])) for x in loc)
        self.side.writes.append((kp, val))
        self.side.seg.append(kp)

    # ---- events, calls
    def log(self, name, *f):
        self.log_.append((name, f))

    def static(self, name, addr, *args):
        return mk("xres", name, ("s", self.side.epoch), addr, *args)

    def xcall(self, name, addr, *args, value=ZERO, flush=True):
        self.nx += 1
        n = ("x", self.nx, self.side.epoch)
        res = mk("xres", name, n, addr, *args)
        self.cps.append(("xcall", name, addr, args, value, self.snap()))
        self.side.writes = []
        self.side.seg = []
        self.side.epoch = n
        self.side.bepoch = {}
        return res

    def stub(self, name, root, *args, mut=False):
        """abstracted call of a separately decided component"""
        ver = (self.side.epoch, self.nstub)
        res = mk("app", name, ver, mk("root", *root), *args)
        if mut:
            self.nstub += 1
            self.cps.append(("stub", name, root, args, self.snap()))
        return res

    def stub_if(self, name, root, *args):
        """an operation that changes nothing here: the code may perform it or not"""
        ev = [e for e in self.out.st.trace if e[0] == "stub"]
        if self.nstub < len(ev) and ev[self.nstub][1][0] == name and all(self.eq(x, y) for x, y in zip(ev[self.nstub][1][2], args)):
            self.stub(name, root, *args, mut=True)

    def snap(self):
        s = Side()
        s.writes = list(self.side.writes)
        s.epoch = self.side.epoch
        s.bepoch = dict(self.side.bepoch)
        s.seg = list(self.side.seg)
        return s

    def res_ok(self, res, tyname="Result"):
        """condition: an opaque Result is Ok"""
        return Eq(mk("discr", res), ZERO)

    def payload(self, res, var=0):
        return mk("vfld", res, var, 0)

    # ---- loops
    def foreach(self, n, body):
        self.foreach_parts(n, [(None, body)])

    def foreach_parts(self, n, parts):
        """iterate over n elements; parts = [(location written or None, body)]
        are independent of each other, the code may run them in one loop or in several"""
        nc = self.st.canon(n)
        if n.op != "int" and nc.op != "int":
            n = nc
        left = list(parts)
        while left:
            info = self.run.next_loop(self) if n.op != "int" else None
            if info is None and nc.op == "int":
                for _, body in left:
                    for j in range(nc.a[0]):
                        body(self, Int(j))
                return
            if info is None:
                # the loop may have been skipped on this path (n == 0)
                if self.cond(Eq(n, ZERO)):
                    return
                raise Mismatch(f"expected an iteration over all {show(n)} elements, none found")
            sel = [p for p in left if p[0] is None or self.eng.base_of(p[0]) in info.written]
            if not sel and not info.written:
                continue
            if not sel:
                raise Mismatch("a loop writes storage the table does not iterate over")
            left = [p for p in left if p not in sel]

            def body(S, k):
                for _, b in sel:
                    b(S, k)
            quiet = not info.written and not any(tr for _, tr in info.iters)
            try:
                self.run.check_iterations(self, info, n, body)
            except Mismatch:
                if quiet and self.run.more_loops(self):
                    left = sel + left
                    continue
                raise
            k = info.k
            self.cps.append(("loop", info, self.snap()))
            self.side.seg = []
            if "*" in info.written:
                self.side.writes = []
                self.side.epoch = ("loop", info.lid)
                self.side.bepoch = {}
            else:
                for b in info.written:
                    self.side.bepoch[b] = ("loop", info.lid)
                self.side.writes = [w for w in self.side.writes if self.eng.base_of(w[0]) not in info.written]
            d = self.st.decide(Lt(k, n))
            if d is True:
                # the path left the loop from inside an iteration
                body(self, k)
                for m, elem, loc, bits in self.pending:
                    if m is n and any(self.st.decide(o) is True for _, o, _ in self.accumulators(info, elem, loc, bits)):
                        self.revert()
                raise Mismatch("the iteration is left early although the table continues")

    def in_loop(self, n, loc):
        """does some loop of this path write loc?"""
        base = self.eng.base_of(loc)
        return n.op == "int" or any(base in e[1][0].written for e in self.run.loops)

    def accumulators(self, info, elem, loc, bits):
        """locals of a loop that accumulate elem(k), from zero or from the stored value: [(local, overflow condition of a
        step, starts from the stored value)]"""
        c = self.st.canon(self.load(loc))
        v = elem(info.k)
        out = []
        for lv, init, nexts in info.carried:
            if nexts and all(x is add(bits, lv, v) for x in nexts) and (init is ZERO or self.st.canon(init) is c):
                out.append((lv, Ovf("a", bits, lv, v), init is not ZERO))
        return out

    def acc_sum(self, n, elem, loc, bits=256):
        """loc += sum of elem(0..n-1), reverting on overflow; the code may
        accumulate in storage or in a local"""
        base = self.eng.base_of(loc)
        rest = [e[1][0] for e in self.run.loops[self.loop_i:]]
        if n.op == "int" or any(base in i.written for i in rest):
            return self.foreach_parts(n, [(loc, lambda S, k: S.acc1(loc, elem(k), bits))])
        nc = self.st.canon(n)
        if nc.op == "int":
            for j in range(nc.a[0]):
                self.acc1(loc, elem(Int(j)), bits)
            return
        s = mk("app", "sumto", elem(KAPPA), n)
        for e in self.run.loops:
            i = e[1][0]
            for lv, o, stored in self.accumulators(i, elem, loc, bits):
                if self.st.decide(Lt(i.k, n)) is True and self.st.decide(o) is True:
                    self.revert()
                if not all(b.decide(o) is False for b in i.backs):
                    raise Mismatch(f"the sum accumulated at {i.where[0]} ({i.where[1]}) may wrap around")
                if stored:
                    # no step overflows, so the stored value plus the sum does not
                    self.store(loc, add(bits, self.load(loc), s))
                    return
        self.acc1(loc, s, bits)

    def acc1(self, loc, v, bits=256):
        c = self.load(loc)
        self.require(Not(Ovf("a", bits, c, v)))
        self.store(loc, add(bits, c, v))

    def sum(self, n, elem):
        n = self.st.canon(n)
        if n.op == "int":
            t = ZERO
            for j in range(n.a[0]):
                t = add(256, t, elem(Int(j)))
            return t
        return mk("app", "sumto", elem(KAPPA), n)

    def collect(self, n, elem):
        return mk("app", "collect", elem(KAPPA), self.st.canon(n))

    def forall(self, n, pred):
        """truth of pred(0) && … && pred(n-1), decided by an effect-free loop"""
        n = self.st.canon(n)
        if n.op == "int":
            for j in range(n.a[0]):
                if not self.cond(pred(Int(j))):
                    return False
            return True
        run = self.run
        for j in range(self.loop_i, len(run.loops)):
            info = run.loops[j][1][0]
            if info.written or any(tr for _, tr in info.iters):
                continue
            if not all(b.decide(Lt(info.k, n)) is True and b.decide(pred(info.k)) is True for b in info.backs):
                continue
            d = self.st.decide(Lt(info.k, n))
            if d is None:
                continue
            self.loop_i = j + 1
            if d is False:
                return True
            if self.cond(pred(info.k)):
                raise Mismatch("the iteration is left early although the tested element satisfies the condition")
            return False
        for j in range(self.loop_i, len(run.loops)):
            info = run.loops[j][1][0]
            if info.written or any(tr for _, tr in info.iters) or self.st.decide(Lt(info.k, n)) is not False:
                continue
            if not all(b.decide(Lt(info.k, n)) is True for b in info.backs):
                continue
            for s, init, nexts in info.carried:
                if self.st.decide(init) is True if init.op != "int" else False:
                    init = TRUE
                if len(nexts) == len(info.backs) and self.gathers(info, pred(info.k), s, init, nexts):
                    self.loop_i = j + 1
                    return self.cond(Eq(s, ZERO)) if init is ZERO else self.cond(s)
        if self.cond(Eq(n, ZERO)):
            return True
        raise Mismatch(f"expected a test of all {show(n)} elements, none found")

    def cleared(self):
        """a flag that a loop can only clear, and that was clear before the loop, is clear after it"""
        for e in self.run.loops:
            info = e[1][0]
            for s, init, nexts in info.carried:
                if init.op == "int" or len(nexts) != len(info.backs) or self.st.decide(s) is not True:
                    continue
                if self.st.decide(init) is False and all(v is s or v is FALSE or b.decide(s) is True for b, v in zip(info.backs, nexts)):
                    raise Dead()

    @staticmethod
    def gathers(info, p, s, init, nexts):
        """the carried value s stays at its initial value exactly as long as p holds of every element"""
        if init is ZERO and p.op == "eq" and ZERO in p.a[-2:]:
            e = p.a[-1] if p.a[-2] is ZERO else p.a[-2]
            return all(v.op == "bor" and {v.a[1], v.a[2]} == {s, e} or (b.decide(p) is True and v is s) for b, v in zip(info.backs, nexts))
        if init is TRUE:
            for b, v in zip(info.backs, nexts):
                if v is s and (b.decide(p) is True or b.decide(s) is False):
                    continue
                if v is p and b.decide(s) is True:
                    continue
                if v is FALSE and (b.decide(p) is False or b.decide(s) is False):
                    continue
                if v is TRUE and b.decide(p) is True and b.decide(s) is True:
                    continue
                return False
            return True
        return False

    def rawcall(self, addr, data):
        """low-level call; at least one word of return data must be kept"""
        lim = None
        calls = [e for e in self.out.st.trace if e[0] == "xcall" and e[1][1] != "static_call"]
        if self.nx < len(calls):
            a = calls[self.nx][1][3]
            if len(a) > 1:
                lim = a[1]
                f = afields(lim) if lim.op == "agg" else ()
                if not (len(f) == 2 and f[0] is ZERO and f[1].op == "int" and f[1].a[0] >= 32):
                    raise Mismatch(f"low-level call keeps only part of the return data: {show(lim)}")
        return self.xcall("rawcall", addr, data, *([lim] if lim is not None else []))

    def ok(self, v=UNIT):
        return v


class Run:
    """one (path, table entry) comparison"""

    def __init__(self, rule, eng, out, args, spec, opts):
        self.rule = rule
        self.eng = eng
        self.out = out
        self.args = args
        self.spec = spec
        self.opts = opts
        self.loops = [e for e in out.st.trace if e[0] == "loop"]
        self.nx0 = 0

    def next_loop(self, S):
        if S.loop_i < len(self.loops):
            S.loop_i += 1
            return self.loops[S.loop_i - 1][1][0]
        return None

    def more_loops(self, S):
        return S.loop_i < len(self.loops)

    def check_iterations(self, S, info, n, body):
        key = (info.lid, n)
        if key in self.rule.loops_checked:
            r = self.rule.loops_checked[key]
            if r is not None:
                raise Mismatch(r)
            return
        self.rule.loops_checked[key] = None
        try:
            for b in info.backs:
                if b.decide(Lt(info.k, n)) is not True:
                    raise Mismatch(f"iteration is not bounded by {show(n)}: counter fact missing")
                out = Outcome("ok", b, UNIT)
                sub_ = b.trace[info.base_tr:]
                self.rule.compare(self.eng, out, self.args, lambda S2: body(S2, info.k), {"sub": sub_, "info": info, "noret": True})
        except Mismatch as m:
            self.rule.loops_checked[key] = m.msg
            raise

    def one(self, choices):
        st = self.out.st.copy()
        st.writes = []
        S = Spec(self.eng, st, self.args, choices, self.out, self)
        info = self.opts.get("info")
        impl = Side()
        if info is not None:
            if "*" in info.written:
                S.side.epoch = impl.epoch = ("loop", info.lid)
            else:
                S.side.epoch = impl.epoch = info.head.epoch
                S.side.bepoch = dict(info.head.bepoch)
                impl.bepoch = dict(info.head.bepoch)
            S.side.writes = list(info.head.writes)
            impl.writes = list(info.head.writes)
            self.loops = [e for e in self.opts["sub"] if e[0] == "loop"]
            S.nx = self.nx0 = sum(1 for e in self.out.st.trace[:info.base_tr] if e[0] == "xcall" and e[1][1] != "static_call")
        try:
            ret = self.spec(S)
            reverted = False
        except Revert:
            reverted = True
        except Dead:
            return S
        try:
            self.settle(S, reverted, None if reverted else ret, impl)
        except Dead:
            return S
        except Mismatch as m:
            extra = [fmt_fact(c, p) for c, p in S.st.order[len(self.out.st.order):]]
            if extra:
                m.msg += " | case: " + "; ".join(extra)
            raise
        return S

    def settle(self, S, reverted, ret, impl):
        out = self.out
        if reverted:
            if out.kind == "ok":
                raise Mismatch("the call succeeds although it must revert")
            return
        if out.kind == "panic":
            raise Mismatch(f"the call panics ({out.msg}) although it must succeed")
        if out.kind == "err":
            raise Mismatch(f"the call is rejected ({show(out.val)[:160]}) although it must succeed")
        # ---- effects
        trace = self.opts.get("sub", out.st.trace)
        cps = list(S.cps)
        final = S.snap()
        logs = []
        nx = self.nx0
        for ev in trace:
            k = ev[0]
            if k == "write":
                impl.writes.append(ev[1])
                impl.seg.append(ev[1][0])
            elif k == "log":
                logs.append((ev[1][0], ev[1][1]))
            elif k == "opaque":
                if any(v.op == "stor" for v in ev[1][1]) and ev[1][0] not in self.opts.get("pure", ()):
                    raise Unsupported(f"unanalysable operation on contract storage: {ev[1][0]}")
            elif k == "stub":
                name, root, args = ev[1]
                if not cps or cps[0][0] != "stub":
                    raise Mismatch(f"unexpected call of {name}")
                _, sn, sroot, sargs, snap = cps.pop(0)
                if sn != name:
                    raise Mismatch(f"call of {name} where {sn} is expected")
                if tuple(root.a[1:]) != tuple(sroot):
                    raise Mismatch(f"call of {name} on {show(root)}")
                for j, x in enumerate(sargs):
                    self.same_val(S, args[j], x, f"argument {j} of {name}")
                # the component sees only its own part of the storage
                self.same_store(S, impl, snap, f"before {name}", tuple(sroot))
            elif k == "xcall":
                name, kind, addr, args, value, ctx, flush, res = ev[1]
                if kind == "static_call":
                    continue
                nx += 1
                if not cps or cps[0][0] != "xcall":
                    raise Mismatch(f"unexpected external call {name}")
                _, sn, saddr, sargs, svalue, snap = cps.pop(0)
                if sn != name and sn != "*":
                    raise Mismatch(f"external call {name} where {sn} is expected")
                self.same_val(S, addr, saddr, f"target of external call {name}")
                self.same_val(S, value, svalue, f"value of external call {name}")
                if len(args) < len(sargs):
                    raise Mismatch(f"external call {name}: {len(args)} arguments")
                for j, x in enumerate(sargs):
                    self.same_val(S, args[j], x, f"argument {j} of external call {name}")
                if not flush:
                    raise Mismatch(f"external call {name} without flushing the storage cache")
                self.same_store(S, impl, snap, f"before external call {name}")
                impl.writes = []
                impl.seg = []
                impl.epoch = ("x", nx, impl.epoch)
                impl.bepoch = {}
            elif k == "loop":
                info = ev[1][0]
                while cps and cps[0][0] == "loop" and cps[0][1] is not info:
                    raise Mismatch("loop order")
                if not cps or cps[0][0] != "loop":
                    if info.written or any(tr for _, tr in info.iters):
                        raise Mismatch(f"unexpected effects inside a loop at {info.where[0]} ({info.where[1]})")
                    continue
                snap = cps.pop(0)[2]
                self.same_store(S, impl, snap, "before loop")
                impl.seg = []
                if "*" in info.written:
                    impl.writes = []
                    impl.epoch = ("loop", info.lid)
                    impl.bepoch = {}
                else:
                    for b in info.written:
                        impl.bepoch[b] = ("loop", info.lid)
                    impl.writes = [w for w in impl.writes if self.eng.base_of(w[0]) not in info.written]
        if cps:
            c = cps[0]
            raise Mismatch(f"expected {c[0]} {c[1] if c[0] == 'xcall' else ''} does not happen")
        self.same_store(S, impl, final, "on success")
        # ---- logs
        if not self.opts.get("nologs"):
            want = S.log_
            got = [(n.split("<")[0].split("::")[-1], v) for n, v in logs]
            if len(want) != len(got):
                raise Mismatch(f"events emitted: {[g[0] for g in got]}, expected {[w[0] for w in want]}")
            for (wn, wf), (gn, gv) in zip(want, got):
                if wn != gn:
                    raise Mismatch(f"event {gn} emitted, expected {wn}")
                gf = afields(gv) if gv.op == "agg" else (gv,)
                if len(gf) != len(wf):
                    raise Mismatch(f"event {gn} has {len(gf)} fields")
                for j, (x, y) in enumerate(zip(gf, wf)):
                    self.same_val(S, x, y, f"field {j} of event {gn}")
        if self.opts.get("noret"):
            return
        self.same_val(S, out.val, ret, "result")

    def same_store(self, S, impl, spec, what, root=()):
        locs = []
        seen = set()
        for l in impl.seg + spec.seg:
            kp = tuple(x if isinstance(x, str) else ("k", S.st.canon(x[1])) for x in l)
            if kp not in seen:
                seen.add(kp)
                locs.append(kp)
        ign = self.opts.get("ignore", ())
        for l in locs:
            if any(i(l) for i in ign) or tuple(l[:len(root)]) != root:
                continue
            a = S.st.canon(S.view(impl, l))
            b = S.st.canon(S.view(spec, l))
            if a is not b:
                self.same_val(S, a, b, f"storage {pathstr(l)} {what}")

    def same_val(self, S, got, want, what):
        if callable(want):
            r = want(got)
            if r is not True:
                raise Mismatch(f"{what}: {show(got)[:300]}" + (f" ({r})" if isinstance(r, str) else ""))
            return
        if isinstance(want, (tuple, list)):
            gf = afields(got) if got.op == "agg" else None
            if gf is None or len(gf) != len(want):
                raise Mismatch(f"{what}: {show(got)[:300]}")
            for j, (x, y) in enumerate(zip(gf, want)):
                self.same_val(S, x, y, f"{what}.{j}")
            return
        if want is None:
            return
        g, w = S.st.canon(got), S.st.canon(want)
        if g is w:
            return
        e = Eq(g, w)
        if S.st.decide(e) is True:
            return
        g2, w2 = self.drop_empty(S, g), self.drop_empty(S, w)
        if g2 is w2:
            return
        # split on conditions inside the values
        for t in (g, w):
            for x in subterms(t):
                if x.op in ("ite", "b2i") or (x.op in ("eq", "lt", "and", "not", "ovf") and x is t):
                    c = x.a[0] if x.op in ("ite", "b2i") else x
                    if S.st.decide(c) is None:
                        S.cond(c)
                        return self.same_val(S, got, want, what)
        # ceiling division: split on exactness
        for t in (g, w):
            for x in subterms(t):
                if x.op == "cdiv":
                    r = Eq(mk("rem", *x.a), ZERO)
                    d = S.st.decide(r)
                    if d is None:
                        S.cond(r)
                        d = S.st.decide(r)
                    q = mk("div", *x.a)
                    q = q if d else add(x.a[0], q, ONE)
                    S.st.subst[x] = q
                    S.st._canon = {}
                    return self.same_val(S, got, want, what)
        raise Mismatch(f"{what}: {show(g)[:400]}, expected {show(w)[:400]}")


def _drop_empty(self, S, t):
    """byte strings known to be empty on this path contribute nothing to a concatenation"""
    if t.op == "concat":
        r = EMPTY
        for x in t.a:
            x = _drop_empty(self, S, x)
            if x is not EMPTY:
                r = x if r is EMPTY else self.eng.concat(r, x)
        return r
    t = norm_empty(t)
    if t.op in ("sload", "app", "arg", "vfld", "fld") and S.st.decide(Eq(mk("len", t), ZERO)) is True:
        return EMPTY
    return t


Run.drop_empty = _drop_empty


def mk_stub(name, mut):
    def h(eng, st, f, args, dty):
        vals = [eng.deref_all(st, a) if a.op == "ref" else a for a in args]
        n = sum(1 for e in st.trace if e[0] == "stub")
        if mut is None:
            return [(st, mk("app", name, *vals))]
        if vals[0].op != "stor":
            raise Unsupported(f"{name} on {show(vals[0])[:60]}")
        res = mk("app", name, (st.epoch, n), mk("root", *vals[0].a[1:]), *vals[1:])
        if mut:
            eng.event(st, "stub", name, vals[0], tuple(vals[1:]))
        return [(st, res)]
    return h


class Rule:
    """collects obligations for one property"""

    def __init__(self, prop, progs):
        self.prop = prop
        self.progs = progs
        self.violations = []
        self.obligations = []
        self.functions = set()
        self.paths = 0
        self.cases = 0
        self.callsites = 0
        self.unmodelled = {}
        self.loops_checked = {}
        self.undecided = []
        self.notes = []
        self.rules = []

    # ---- reporting
    def violation(self, key, msg, where=None, detail=None):
        self.violations.append({"key": key, "msg": msg, "where": where, "detail": detail or []})

    def obligation(self, name, ok=True):
        self.obligations.append((name, ok))

    # ---- analysis
    def analyse(self, body, args=None, prog=None, setup=None, bind=None, stubs=None):
        """[Outcome] of a function"""
        prog = prog or self.progs["contracts"]
        eng = Interp(prog)
        eng.keep_panics = True
        for pth, (nm, mut) in (stubs or {}).items():
            eng.opaque_fns[pth] = mk_stub(nm, mut)
        st = State()
        if args is None:
            args = []
            for k in range(1, body["argc"] + 1):
                nm = "self" if k == 1 and body["names"] and any(n[0] == "self" and n[1] == [1] for n in body["names"]) else f"a{k - 1}"
                args.append(eng.fresh(st, body["locals"][k], nm))
        else:
            args = args(eng, st, body)
        if setup:
            setup(eng, st)
        if bind:
            eng.bind = bind
        res = eng.exec_fn(st, body, args)
        outs = []
        rty = prog.types[body["locals"][0]]
        isres = rty["k"] == "adt" and rty["path"] == "core::result::Result"
        for s, v in res:
            if isres:
                if v.op == "agg":
                    outs.append(Outcome("ok" if v.a[1] == 0 else "err", s, v.a[2] if len(v.a) > 2 else UNIT))
                else:
                    d = mk("discr", v)
                    a = s.copy()
                    if a.assume(Eq(d, ZERO), True):
                        outs.append(Outcome("ok", a, mk("vfld", v, 0, 0)))
                    b = s.copy()
                    if b.assume(Eq(d, ZERO), False) and b.assume(Eq(d, ONE), True):
                        outs.append(Outcome("err", b, mk("vfld", v, 1, 0)))
            else:
                outs.append(Outcome("ok", s, v))
        for s, m, w in eng.panic_states:
            outs.append(Outcome("panic", s, UNDEF, m, w))
        self.functions |= eng.analysed
        self.callsites += eng.callsites
        self.paths += len(outs)
        for k, n in eng.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + n
        dargs = [eng.deref_all(outs[0].st if outs else st, a) if a.op == "ref" else a for a in args]
        return eng, outs, dargs

    def compare(self, eng, out, args, spec, opts):
        """enumerate the table's undecided conditions under the path facts"""
        choices = []
        n = 0
        while True:
            n += 1
            if n > 4000:
                raise Budget("too many cases")
            run = Run(self, eng, out, args, spec, opts)
            S = run.one(choices)
            self.cases += 1
            # next choice vector
            del choices[S.ci:]
            while choices and choices[-1] is False:
                choices.pop()
            if not choices:
                return
            choices[-1] = False

    def verify(self, name, body, spec, prog=None, args=None, setup=None, **opts):
        """decide that every path of `body` agrees with the table entry"""
        if body is None and opts.get("optional"):
            self.obligation(name + " (absent)", True)
            return True
        if body is None:
            self.violation(f"{name}:missing", f"{name}: the entry point no longer exists")
            self.obligation(name, False)
            return False
        self.loops_checked = {}
        try:
            eng, outs, dargs = self.analyse(body, args, prog, setup, stubs=opts.get('stubs'))
        except (Unsupported, Budget, RecursionError, TypeError, ValueError, IndexError, KeyError, AttributeError, AssertionError) as e:
            self.undecided.append(f"{name}: {type(e).__name__} {e}")
            self.obligation(name, None)
            return None
        good = True
        seen = set()
        for o in outs:
            try:
                self.compare(eng, o, dargs, spec, opts)
            except Mismatch as m:
                un = eng.opaque_in(o)
                if un:
                    self.undecided.append(f"{name}: depends on unmodelled {un[:3]}: {m.msg[:120]}")
                    good = None if good else good
                    continue
                good = False
                key = f"{name}: {m.msg.split(' | case')[0]}"
                if key in seen:
                    continue
                seen.add(key)
                loc = f"{body['file']}:{body['line']}"
                w = None
                if o.where:
                    w = f"{o.where[-1][0]}:{o.where[-1][1]}"
                elif o.st.trace:
                    t = o.st.trace[-1][2]
                    if t:
                        w = f"{t[-1][0]}:{t[-1][1]}"
                self.violation(key, f"{name} ({body['path']}): {m.msg}", w or loc,
                               [f"path facts: {[fmt_fact(c, p) for c, p in o.st.order]}",
                                f"outcome: {o.kind} {show(o.val)[:300]}"])
            except (Unsupported, Budget, TypeError, ValueError, IndexError, KeyError, AttributeError, AssertionError, RecursionError) as e:
                self.undecided.append(f"{name}: {type(e).__name__} {e}")
                good = None if good else good
        if not outs:
            good = False
            self.violation(f"{name}:nopath", f"{name}: no analysable path", f"{body['file']}:{body['line']}")
        self.obligation(name, good)
        return good

    # ---- lookup
    def violation_if_zero_sentinel(self, name, body, loc):
        """every path on which the stored id is zero rejects the call"""
        if body is None:
            return
        try:
            eng, outs, args = self.analyse(body)
        except (Unsupported, Budget):
            return
        self.obligation(name + " (zero id)", True)
        for o in outs:
            v = mk("sload", 0, *loc(*args[1:]))
            if o.kind == "err" and o.st.decide(Eq(v, ZERO)) is True:
                self.violation(name + ":zero-id", "the owned token with id 0 is reported as out of bounds")
                return

    def fn(self, ty, name, trait=None, prog="contracts"):
        c = self.progs[prog].fn(ty, name, trait)
        return c[0] if c else None

    def free(self, path, prog="contracts"):
        c = self.progs[prog].free_fn(path)
        return c[0] if c else None

    def getter(self, name, body, nkeys, prog="contracts", guarded=False):
        """storage location read by an observer: keys must be the arguments in
        order; returns a location builder"""
        if body is None:
            self.violation(f"{name}:missing", f"observer {name} no longer exists")
            self.obligation(name, False)
            return None
        try:
            eng, outs, dargs = self.analyse(body, prog=self.progs[prog])
        except (Unsupported, Budget) as e:
            self.undecided.append(f"{name}: {e}")
            return None
        oks = [o for o in outs if o.kind == "ok"]
        if guarded:
            outs = oks[:1] if all(o.val is oks[0].val for o in oks) else oks
        cand = [o.val for o in oks if o.val.op == "sload"]
        if not cand:
            cand = [x for o in oks for c, _ in o.st.order for x in subterms(c) if x.op == "sload"]
        if cand:
            # every answer must be the stored value (a path may name it by a constant it equals)
            def is_stored(o):
                v, w = o.st.canon(o.val), o.st.canon(cand[0])
                return v is w or o.st.decide(Eq(v, w)) is True
            if len(outs) > 1 and all(o.kind == "ok" and not o.st.trace and is_stored(o) for o in outs):
                oks = outs = [Outcome("ok", outs[0].st, cand[0])]
        un = [u for o in outs for u in eng.opaque_in(o)]
        if un:
            self.undecided.append(f"{name}: depends on unmodelled {un[:3]}")
            return None
        if len(outs) != 1 or not oks or oks[0].val.op != "sload":
            self.violation(f"{name}: observer", f"{name} ({body['path']}) is not a plain read of contract state: "
                           f"{[show(o.val)[:200] for o in outs]}", f"{body['file']}:{body['line']}")
            self.obligation(name, False)
            return None
        path = oks[0].val.a[1:]
        keys = [x[1] for x in path if not isinstance(x, str)]
        want = list(dargs[len(dargs) - nkeys:]) if nkeys else []
        if sorted(k.id for k in keys) != sorted(w.id for w in want) or oks[0].st.trace:
            self.violation(f"{name}: observer", f"{name} ({body['path']}) reads {pathstr(path)}: not keyed by its arguments", f"{body['file']}:{body['line']}")
            self.obligation(name, False)
            return None
        order = [want.index(k) for k in keys]
        self.obligation(name, True)

        def loc(*ks, root=None):
            it = iter(order)
            out = []
            for x in path:
                if isinstance(x, str):
                    out.append(x)
                else:
                    out.append(("k", ks[next(it)]))
            if root:
                out[0:1] = list(root)
            return tuple(out)
        loc.path = path
        return loc
