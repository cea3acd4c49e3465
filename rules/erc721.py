"""ERC-721 core and extensions"""
from .common import *

ME = ("self",)
RECEIVED = mk("bytes", "150b7a02")


class T721:
    """ERC-721 tables.  `owner` reads the current owner of a token; `after`
    is run at the end of every ownership change."""

    def __init__(self, R, ty="Erc721", core=()):
        self.R = R
        self.core = core       # path from the contract root to the ledger
        g = lambda n, k: R.getter("Erc721::" + n, R.fn("Erc721", n, "IErc721"), k, guarded=True)
        self.bal = g("balance_of", 1)
        self.own = g("owner_of", 1)
        self.appr = g("get_approved", 1)
        self.op = g("is_approved_for_all", 2)
        self.ok = all((self.bal, self.own, self.appr, self.op))

    def r(self, root):
        return tuple(root) + tuple(self.core)

    def owner(self, S, root, t):
        return S.load(self.own(t, root=self.r(root)))

    def owned(self, S, root, t):
        o = self.owner(S, root, t)
        S.require(nz(o))
        return o

    def is_op(self, S, root, o, p):
        return S.load(self.op(o, p, root=self.r(root)))

    def authorized(self, S, root, o, sp, t):
        if S.cond(is0(sp)):
            return False
        return S.cond(Eq(o, sp)) or S.cond(self.is_op(S, root, o, sp)) or S.cond(Eq(S.load(self.appr(t, root=self.r(root))), sp))

    def check_auth(self, S, root, o, sp, t):
        if not self.authorized(S, root, o, sp, t):
            S.revert()

    def update_base(self, S, root, to, t, auth):
        rr = self.r(root)
        f = self.owner(S, root, t)
        if not S.cond(is0(auth)):
            self.check_auth(S, root, f, auth, t)
        if not S.cond(is0(f)):
            S.store(self.appr(t, root=rr), ZERO)
            l = self.bal(f, root=rr)
            S.store(l, sub(256, S.load(l), ONE))
        if not S.cond(is0(to)):
            l = self.bal(to, root=rr)
            S.store(l, add(256, S.load(l), ONE))
        S.store(self.own(t, root=rr), to)
        S.log("Transfer", f, to, t)
        return f

    update = update_base

    def mint(self, S, root, to, t):
        S.require(nz(to))
        f = self.update(S, root, to, t, ZERO)
        S.require(is0(f))

    def burn(self, S, root, t):
        f = self.update(S, root, ZERO, t, ZERO)
        S.require(nz(f))

    def transfer(self, S, root, f, to, t):
        S.require(nz(to))
        p = self.update(S, root, to, t, ZERO)
        S.require(nz(p))
        S.require(Eq(p, f))

    def transfer_from(self, S, root, f, to, t):
        S.require(nz(to))
        p = self.update(S, root, to, t, SENDER)
        S.require(Eq(p, f))

    def approve(self, S, root, to, t, auth, emit):
        if emit is True or S.cond(emit):
            e = True
        else:
            e = False
        if e or not S.cond(is0(auth)):
            o = self.owned(S, root, t)
            if not S.cond(is0(auth)) and not S.cond(Eq(o, auth)):
                S.require(self.is_op(S, root, o, auth))
            if e:
                S.log("Approval", o, to, t)
        S.store(self.appr(t, root=self.r(root)), to)

    def set_op(self, S, root, o, p, v):
        S.require(nz(p))
        S.store(self.op(o, p, root=self.r(root)), v)
        S.log("ApprovalForAll", o, p, v)

    def received(self, S, op, f, to, t, data):
        if S.cond(has_code(to)):
            r = S.xcall("IERC721Receiver::on_erc_721_received", to, op, f, t, data)
            S.require(S.res_ok(r))
            S.require(Eq(S.payload(r), RECEIVED))

    def safe_mint(self, S, root, to, t, data):
        self.mint(S, root, to, t)
        self.received(S, SENDER, ZERO, to, t, data)


def seq(*xs):
    """value of the last"""
    return xs[-1]


def table(R, t, ty, groups, **O):
    """entry points of one ERC-721 contract"""
    V = lambda n, sp, tr=None: R.verify(f"{ty}::{n}", R.fn(ty, n, tr), sp, **O)
    me = ME
    A = lambda S: S.args[1:]
    if "ledger" in groups:
        V("_owner_of", lambda S: t.owner(S, me, S.args[1]))
        V("owner_of", lambda S: t.owned(S, me, S.args[1]), "IErc721")
        V("balance_of", lambda S: seq(S.require(nz(S.args[1])), S.load(t.bal(S.args[1], root=t.r(me)))), "IErc721")
        V("_update", lambda S: t.update(S, me, *A(S)))
        V("_mint", lambda S: seq(t.mint(S, me, *A(S)), UNIT))
        V("_burn", lambda S: seq(t.burn(S, me, *A(S)), UNIT))
        V("_transfer", lambda S: seq(t.transfer(S, me, *A(S)), UNIT))
        V("transfer_from", lambda S: seq(t.transfer_from(S, me, *A(S)), UNIT), "IErc721")
        if ty == "Erc721":
            V("burn", lambda S: seq(t.update(S, me, ZERO, S.args[1], SENDER), UNIT), "IErc721Burnable")

            def inc(S):
                l = t.bal(S.args[1], root=t.r(me))
                S.store(l, add(256, S.load(l), S.args[2]))
                return UNIT
            V("_increase_balance", inc)
    if "auth" in groups:
        V("approve", lambda S: seq(t.approve(S, me, S.args[1], S.args[2], SENDER, True), UNIT), "IErc721")
        V("_approve", lambda S: seq(t.approve(S, me, *A(S)), UNIT))
        V("set_approval_for_all", lambda S: seq(t.set_op(S, me, SENDER, *A(S)), UNIT), "IErc721")
        V("get_approved", lambda S: seq(t.owned(S, me, S.args[1]), S.load(t.appr(S.args[1], root=t.r(me)))), "IErc721")
        V("is_approved_for_all", lambda S: t.is_op(S, me, *A(S)), "IErc721")
        V("transfer_from", lambda S: seq(t.transfer_from(S, me, *A(S)), UNIT), "IErc721")
        if ty == "Erc721":
            V("_set_approval_for_all", lambda S: seq(t.set_op(S, me, *A(S)), UNIT))
            V("_is_authorized", lambda S: TRUE if t.authorized(S, me, *A(S)) else FALSE)
            V("_check_authorized", lambda S: seq(t.check_auth(S, me, *A(S)), UNIT))
            V("_get_approved", lambda S: S.load(t.appr(S.args[1], root=t.r(me))))
            V("burn", lambda S: seq(t.update(S, me, ZERO, S.args[1], SENDER), UNIT), "IErc721Burnable")
    if "safe" in groups:
        if ty == "Erc721":
            V("_check_on_erc721_received", lambda S: seq(t.received(S, *A(S)), UNIT))

        def st(S, data):
            f, to, i = S.args[1:4]
            t.transfer_from(S, me, f, to, i)
            t.received(S, SENDER, f, to, i, data)
            return UNIT
        V("safe_transfer_from", lambda S: st(S, EMPTY), "IErc721")
        V("safe_transfer_from_with_data", lambda S: st(S, S.args[4]), "IErc721")
        V("_safe_mint", lambda S: seq(t.safe_mint(S, me, *A(S)), UNIT))

        def stt(S):
            f, to, i, d = A(S)
            t.transfer(S, me, f, to, i)
            t.received(S, SENDER, f, to, i, d)
            return UNIT
        V("_safe_transfer", stt)


def both(R, groups, **O):
    """the plain token and the consecutive one, which re-implements the entry points"""
    t = T721(R)
    if t.ok:
        table(R, t, "Erc721", groups, **O)
    c = T721C(R)
    if c.ok:
        table(R, c, "Erc721Consecutive", groups, stubs=c.st, **O)


def p_ledger(R):
    both(R, {"ledger", "safe"})


def p_auth(R):
    both(R, {"auth", "safe"})


def p_safe(R):
    both(R, {"safe"}, nologs=True)


# ------------------------------------------------------------ consecutive
CK = "utils::structs::checkpoints::Trace::<S>::"
BM = "utils::structs::bitmap::BitMap::"


def stubs(R):
    out = {}
    for n, m in (("lower_lookup", False), ("push", True), ("latest_checkpoint", False)):
        b = R.fn("Trace", n)
        if b is None:
            R.violation(f"Trace::{n}:missing", f"checkpoint operation {n} no longer exists")
            return None
        out[b["path"]] = ("ck_" + n, m)
    for n, m in (("get", False), ("set", True), ("unset", True)):
        b = R.fn("BitMap", n)
        if b is None:
            R.violation(f"BitMap::{n}:missing", f"bitmap operation {n} no longer exists")
            return None
        out[b["path"]] = ("bm_" + n, m)
    return out


class T721C(T721):
    def __init__(self, R):
        f = lambda s, **k: field(R, "Erc721Consecutive", s, **k)
        core = f("Erc721")
        super().__init__(R, core=(core,))
        self.tr, self.bm = f("Trace"), f("BitMap")
        self.first, self.maxb = f("StorageUint"), f("StorageUint", nth=1)
        self.st = stubs(R)
        self.ok = self.ok and all((core, self.tr, self.bm, self.first, self.maxb, self.st))

    def burnt(self, S, root, t):
        return S.stub("bm_get", tuple(root) + (self.bm,), t)

    def owner(self, S, root, t):
        o = super().owner(S, root, t)
        if not S.cond(is0(o)):
            return o
        if S.cond(Lt(t, S.load(tuple(root) + (self.first,)))) or S.cond(Lt(Int((1 << 96) - 1), t)):
            return ZERO
        if S.cond(self.burnt(S, root, t)):
            return ZERO
        return S.stub("ck_lower_lookup", tuple(root) + (self.tr,), t)

    def next(self, S, root):
        r = S.stub("ck_latest_checkpoint", tuple(root) + (self.tr,))
        if S.cond(Eq(mk("discr", r), ZERO)):
            return S.load(tuple(root) + (self.first,))
        k = mk("fld", mk("vfld", r, 1, 0), 0)
        # never wraps: every checkpoint key is below 2^96 - 1 (see mint_batch)
        return add(96, k, ONE)

    def update(self, S, root, to, t, auth):
        f = self.update_base(S, root, to, t, auth)
        if S.cond(is0(to)):
            nx = self.next(S, root)
            nx = mk("zext", 96, nx) if nx.op == "poly" else nx
            if S.cond(Lt(t, nx)):
                if S.cond(self.burnt(S, root, t)):
                    S.stub_if("bm_set", tuple(root) + (self.bm,), t)
                else:
                    S.stub("bm_set", tuple(root) + (self.bm,), t, mut=True)
        return f

    def mint_batch(self, S):
        to, n = S.args[1:]
        nx = self.next(S, ME)
        if S.cond(is0(n)):
            return nx
        S.require(nz(to))
        S.require(Not(Lt(S.load(ME + (self.maxb,)), n)))
        S.require(Not(ovf_add(nx, n, 96)))
        last = add(96, nx, sub(96, n, ONE))
        r = S.stub("ck_push", ME + (self.tr,), last, to, mut=True)
        S.require(S.res_ok(r))
        l = self.bal(to, root=self.r(ME))
        S.store(l, add(256, S.load(l), n))
        z = lambda x: mk("zext", 96, x) if x.op == "poly" else x
        S.log("ConsecutiveTransfer", z(nx), z(last), ZERO, to)
        return nx


def p_consecutive(R):
    t = T721C(R)
    if not t.ok:
        return
    table(R, t, "Erc721Consecutive", {"ledger", "auth", "safe"}, stubs=t.st)
    R.verify("Erc721Consecutive::_mint_consecutive", R.fn("Erc721Consecutive", "_mint_consecutive"), t.mint_batch, stubs=t.st)


# ------------------------------------------------------------ wrapper
def p_wrapper(R):
    t = T721(R)
    und = R.getter("Erc721Wrapper::underlying", R.fn("Erc721Wrapper", "underlying"), 0)
    if not (t.ok and und):
        return

    def dep(S):
        a, ids, e = S.args[1:]
        u = S.load(und())

        def body(S, k):
            i = mk("elem", ids, k)
            r = S.xcall("Erc721Interface::transfer_from", u, SENDER, THIS, i)
            S.require(S.res_ok(r))
            t.safe_mint(S, stor(e), a, i, EMPTY)
        S.foreach(mk("len", ids), body)
        return TRUE

    def wd(S):
        a, ids, e = S.args[1:]
        u = S.load(und())

        def body(S, k):
            i = mk("elem", ids, k)
            t.update(S, stor(e), ZERO, i, SENDER)
            r = S.xcall("Erc721Interface::safe_transfer_from", u, THIS, a, i, EMPTY)
            S.require(S.res_ok(r))
        S.foreach(mk("len", ids), body)
        return TRUE

    def recv(S):
        _, f, i, _, e = S.args[1:]
        S.require(Eq(S.load(und()), SENDER))
        t.safe_mint(S, stor(e), f, i, EMPTY)
        return RECEIVED

    def rec(S):
        a, i, e = S.args[1:]
        r = S.static("Erc721Interface::owner_of", S.load(und()), i)
        S.require(S.res_ok(r))
        S.require(Eq(S.payload(r), THIS))
        t.safe_mint(S, stor(e), a, i, EMPTY)
        return i
    F = lambda n: R.fn("Erc721Wrapper", n)
    for n, sp in (("deposit_for", dep), ("withdraw_to", wd), ("on_erc721_received", recv), ("_recover", rec)):
        R.verify("Erc721Wrapper::" + n, F(n), sp, optional=n == "_recover")


def p_events(R):
    t = T721(R)
    if t.ok:
        table(R, t, "Erc721", {"ledger", "auth", "safe"})


def p_consecutive_full(R):
    """batch minting together with the bit map and checkpoint operations it is built on"""
    from . import structs
    p_consecutive(R)
    structs.p_structs(R)
