"""ERC-1155 core and extensions"""
from .common import *

ME = ("self",)
SINGLE = mk("bytes", "f23a6e61")
BATCH = mk("bytes", "bc197c81")


def one(x):
    return agg("array", 0, x)


def ln(v):
    return mk("len", v) if v.op != "agg" else Int(len(afields(v)))


def el(v, k):
    if v.op == "agg" and k.op == "int":
        return afields(v)[k.a[0]]
    return mk("elem", v, k)


class T1155:
    core = ()

    def __init__(self, R):
        self.R = R
        self.bal = R.getter("Erc1155::balance_of", R.fn("Erc1155", "balance_of", "IErc1155"), 2)
        self.op = R.getter("Erc1155::is_approved_for_all", R.fn("Erc1155", "is_approved_for_all", "IErc1155"), 2)
        self.ok = bool(self.bal and self.op)

    def r(self, root):
        return tuple(root) + tuple(self.core)

    def move1(self, S, root, f, to, i, v):
        rr = self.r(root)
        if not S.cond(is0(f)):
            l = self.bal(f, i, root=rr)
            b = S.load(l)
            S.require(Not(Lt(b, v)))
            S.store(l, sub(256, b, v))
        if not S.cond(is0(to)):
            l = self.bal(to, i, root=rr)
            b = S.load(l)
            S.require(Not(ovf_add(b, v)))
            S.store(l, add(256, b, v))

    def update(self, S, root, f, to, ids, vals, extra=()):
        n = ln(ids)
        S.require(Eq(n, ln(vals)))
        S.foreach_parts(n, [(self.bal(f, ZERO, root=self.r(root)), lambda S, k: self.move1(S, root, f, to, el(ids, k), el(vals, k)))] + list(extra))
        if S.cond(Eq(n, ONE)):
            S.log("TransferSingle", SENDER, f, to, el(ids, ZERO), el(vals, ZERO))
        else:
            S.log("TransferBatch", SENDER, f, to, ids, vals)

    def received(self, S, f, to, ids, vals, data):
        if S.cond(is0(to)) or not S.cond(has_code(to)):
            return
        if S.cond(Eq(ln(ids), ONE)):
            r = S.xcall("IERC1155Receiver::on_erc_1155_received", to, SENDER, f, el(ids, ZERO), el(vals, ZERO), data)
            w = SINGLE
        else:
            r = S.xcall("IERC1155Receiver::on_erc_1155_batch_received", to, SENDER, f, ids, vals, data)
            w = BATCH
        S.require(S.res_ok(r))
        S.require(Eq(S.payload(r), w))

    def full(self, S, root, f, to, ids, vals, data):
        self.update(S, root, f, to, ids, vals)
        self.received(S, f, to, ids, vals, data)

    def mint(self, S, root, to, ids, vals, data):
        S.require(nz(to))
        self.full(S, root, ZERO, to, ids, vals, data)

    def burn(self, S, root, f, ids, vals):
        S.require(nz(f))
        self.full(S, root, f, ZERO, ids, vals, EMPTY)

    def auth(self, S, root, f):
        if not S.cond(Eq(f, SENDER)):
            S.require(S.load(self.op(f, SENDER, root=self.r(root))))

    def transfer(self, S, root, f, to, ids, vals, data):
        self.auth(S, root, f)
        S.require(nz(to))
        S.require(nz(f))
        self.full(S, root, f, to, ids, vals, data)

    def set_op(self, S, root, o, p, v):
        S.require(nz(p))
        S.store(self.op(o, p, root=self.r(root)), v)
        S.log("ApprovalForAll", o, p, v)


def table(R, t, ty, groups, **O):
    V = lambda n, sp, tr=None: R.verify(f"{ty}::{n}", R.fn(ty, n, tr), lambda S: (sp(S, *S.args[1:]), S.ret if hasattr(S, "ret") else UNIT)[1], **O)
    m = ME
    if "move" in groups:
        V("_mint", lambda S, to, i, v, d: t.mint(S, m, to, one(i), one(v), d))
        V("_mint_batch", lambda S, to, i, v, d: t.mint(S, m, to, i, v, d))
        V("_burn", lambda S, f, i, v: t.burn(S, m, f, one(i), one(v)))
        V("_burn_batch", lambda S, f, i, v: t.burn(S, m, f, i, v))
    if "move" in groups or "auth" in groups:
        V("safe_transfer_from", lambda S, f, to, i, v, d: t.transfer(S, m, f, to, one(i), one(v), d), "IErc1155")
        V("safe_batch_transfer_from", lambda S, f, to, i, v, d: t.transfer(S, m, f, to, i, v, d), "IErc1155")
        if ty == "Erc1155":
            V("burn", lambda S, f, i, v: (t.auth(S, m, f), t.burn(S, m, f, one(i), one(v))), "IErc1155Burnable")
            V("burn_batch", lambda S, f, i, v: (t.auth(S, m, f), t.burn(S, m, f, i, v)), "IErc1155Burnable")
    if "auth" in groups:
        V("set_approval_for_all", lambda S, p, v: t.set_op(S, m, SENDER, p, v), "IErc1155")
        R.verify(ty + "::is_approved_for_all", R.fn(ty, "is_approved_for_all", "IErc1155"), lambda S: S.load(t.op(S.args[1], S.args[2], root=t.r(m))), **O)
    if "view" in groups:
        def bb(S):
            a, i = S.args[1:]
            S.require(Eq(ln(a), ln(i)))
            return S.collect(ln(a), lambda k: S.load(t.bal(el(a, k), el(i, k), root=t.r(m))))
        R.verify(ty + "::balance_of", R.fn(ty, "balance_of", "IErc1155"), lambda S: S.load(t.bal(S.args[1], S.args[2], root=t.r(m))), **O)
        R.verify(ty + "::balance_of_batch", R.fn(ty, "balance_of_batch", "IErc1155"), bb, **O)


def p_ledger(R):
    t = T1155(R)
    if t.ok:
        table(R, t, "Erc1155", {"move", "view"}, nologs=True)
    with_supply(R, {"move", "view"}, nologs=True)


def p_auth(R):
    t = T1155(R)
    if t.ok:
        table(R, t, "Erc1155", {"auth"}, nologs=True)
    with_supply(R, {"auth"}, nologs=True)


def p_events(R):
    t = T1155(R)
    if t.ok:
        table(R, t, "Erc1155", {"move", "auth"})
    with_supply(R, {"move", "auth"})


def with_supply(R, groups, **O):
    """the supply-tracking token re-implements the entry points"""
    t = TSupply(R)
    if t.ok:
        table(R, t, "Erc1155Supply", groups, **O)


class TSupply(T1155):
    def __init__(self, R):
        super().__init__(R)
        self.core = (field(R, "Erc1155Supply", "Erc1155"),)
        self.sup = R.getter("Erc1155Supply::total_supply", R.fn("Erc1155Supply", "total_supply", "IErc1155Supply"), 1)
        self.all = R.getter("Erc1155Supply::total_supply_all", R.fn("Erc1155Supply", "total_supply_all", "IErc1155Supply"), 0)
        self.ok = self.ok and bool(self.sup and self.all)

    def full(self, S, root, f, to, ids, vals, data):
        n = ln(ids)

        def mint1(S, k):
            l = self.sup(el(ids, k), root=root)
            S.acc1(l, el(vals, k))

        def burn1(S, k):
            l = self.sup(el(ids, k), root=root)
            S.store(l, sub(256, S.load(l), el(vals, k)))

        def burna(S, k):
            S.store(all_, sub(256, S.load(all_), el(vals, k)))
        extra = []
        all_ = self.all(root=root)
        mint = S.cond(is0(f))
        burn = S.cond(is0(to))
        S.require(Eq(n, ln(vals)))
        if mint:
            extra.append((self.sup(ZERO, root=root), mint1))
            if S.in_loop(n, all_):
                extra.append((all_, lambda S, k: S.acc1(all_, el(vals, k))))
        if burn:
            extra.append((self.sup(ZERO, root=root), burn1))
            if S.in_loop(n, all_):
                extra.append((all_, burna))
        S.pending = [(n, lambda k: el(vals, k), all_, 256)] if mint and not S.in_loop(n, all_) else []
        self.update(S, root, f, to, ids, vals, extra)
        if mint and not S.in_loop(n, all_):
            S.acc_sum(n, lambda k: el(vals, k), all_)
        if burn and not S.in_loop(n, all_):
            S.store(all_, sub(256, S.load(all_), S.sum(n, lambda k: el(vals, k))))
        self.received(S, f, to, ids, vals, data)


def p_supply(R):
    t = TSupply(R)
    if t.ok:
        R.verify("Erc1155Supply::exists", R.fn("Erc1155Supply", "exists", "IErc1155Supply"), lambda S: FALSE if S.cond(is0(S.load(t.sup(S.args[1])))) else TRUE)
        table(R, t, "Erc1155Supply", {"move", "view", "auth"}, nologs=True)
