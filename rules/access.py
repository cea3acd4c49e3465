"""access control, ownership, vesting, royalties"""
from .common import *
from .erc20ext import safe_transfer, q_balance

ME = ("self",)


def seq(*xs):
    return xs[-1]


def p_roles(R, **O):
    has = R.getter("AccessControl::has_role", R.fn("AccessControl", "has_role", "IAccessControl"), 2)
    adm = R.getter("AccessControl::get_role_admin", R.fn("AccessControl", "get_role_admin", "IAccessControl"), 1)
    if not (has and adm):
        return
    F = lambda n, sp, tr=None: R.verify("AccessControl::" + n, R.fn("AccessControl", n, tr), lambda S: sp(S, *S.args[1:]), **O)

    def check(S, r, a):
        S.require(S.load(has(r, a)))
        return UNIT

    def grant(S, r, a):
        if S.cond(S.load(has(r, a))):
            return FALSE
        S.store(has(r, a), TRUE)
        S.log("RoleGranted", r, a, SENDER)
        return TRUE

    def revoke(S, r, a):
        if not S.cond(S.load(has(r, a))):
            return FALSE
        S.store(has(r, a), FALSE)
        S.log("RoleRevoked", r, a, SENDER)
        return TRUE

    def by_admin(f):
        return lambda S, r, a: seq(check(S, S.load(adm(r)), SENDER), f(S, r, a), UNIT)
    F("only_role", lambda S, r: check(S, r, SENDER), "IAccessControl")
    F("_check_role", check)
    F("grant_role", by_admin(grant), "IAccessControl")
    F("revoke_role", by_admin(revoke), "IAccessControl")
    F("renounce_role", lambda S, r, a: seq(S.require(Eq(SENDER, a)), revoke(S, r, a), UNIT), "IAccessControl")
    F("_grant_role", grant)
    F("_revoke_role", revoke)

    def setadm(S, r, n):
        p = S.load(adm(r))
        S.store(adm(r), n)
        S.log("RoleAdminChanged", r, p, n)
        return UNIT
    F("_set_role_admin", setadm)


def p_ownable(R, **O):
    own = R.getter("Ownable::owner", R.fn("Ownable", "owner", "IOwnable"), 0)
    pend = R.getter("Ownable2Step::pending_owner", R.fn("Ownable2Step", "pending_owner", "IOwnable2Step"), 0)
    if not (own and pend):
        return
    F = lambda ty, n, sp, tr=None: R.verify(f"{ty}::{n}", R.fn(ty, n, tr), lambda S: sp(S, *S.args[1:]), **O)

    def only(S, root):
        S.require(Eq(S.load(own(root=root)), SENDER))
        return UNIT

    def move(S, root, n):
        p = S.load(own(root=root))
        S.store(own(root=root), n)
        S.log("OwnershipTransferred", p, n)
        return UNIT
    F("Ownable", "only_owner", lambda S: only(S, ME))
    F("Ownable", "_transfer_ownership", lambda S, n: move(S, ME, n))
    tr = lambda S, root, n: seq(only(S, root), S.require(nz(n)), move(S, root, n))
    rn = lambda S, root: seq(only(S, root), move(S, root, ZERO))
    F("Ownable", "transfer_ownership", lambda S, n: tr(S, ME, n), "IOwnable")
    F("Ownable", "renounce_ownership", lambda S: rn(S, ME), "IOwnable")
    b = ME + (field(R, "Ownable2Step", "Ownable"),)
    T = "IOwnable2Step"
    F("Ownable2Step", "owner", lambda S: S.load(own(root=b)), T)

    def start(S, n):
        only(S, b)
        S.store(pend(), n)
        S.log("OwnershipTransferStarted", S.load(own(root=b)), n)
        return UNIT

    def accept(S):
        S.require(Eq(S.load(pend()), SENDER))
        S.store(pend(), ZERO)
        return move(S, b, SENDER)

    def ren(S):
        only(S, b)
        S.store(pend(), ZERO)
        return move(S, b, ZERO)
    F("Ownable2Step", "transfer_ownership", start, T)
    F("Ownable2Step", "accept_ownership", accept, T)
    F("Ownable2Step", "renounce_ownership", ren, T)
    v = ME + (field(R, "VestingWallet", "Ownable"),)
    T = "IVestingWallet"
    F("VestingWallet", "owner", lambda S: S.load(own(root=v)), T)
    F("VestingWallet", "transfer_ownership", lambda S, n: tr(S, v, n), T)
    F("VestingWallet", "renounce_ownership", lambda S: rn(S, v), T)


def p_vesting(R):
    T = "IVestingWallet"
    f = lambda n: R.fn("VestingWallet", n, T)
    own = R.getter("Ownable::owner", R.fn("Ownable", "owner", "IOwnable"), 0)
    rel = R.getter("VestingWallet::released_eth", f("released_eth"), 0)
    rel20 = R.getter("VestingWallet::released_erc20", f("released_erc20"), 1)
    if not (own and rel and rel20):
        return
    g1 = R.getter("VestingWallet::start", f("start"), 0)
    g2 = R.getter("VestingWallet::duration", f("duration"), 0)
    if not (g1 and g2):
        return
    if g1() == g2():
        R.violation("VestingWallet::duration", "start and duration read the same storage")
    st_, du = g1(), g2()
    v = ME + (field(R, "VestingWallet", "Ownable"),)
    V = lambda n, sp: R.verify("VestingWallet::" + n, f(n), lambda S: sp(S, *S.args[1:]))
    start = lambda S: S.load(st_)
    dur = lambda S: S.load(du)
    end = lambda S: add(256, start(S), dur(S))
    V("end", end)

    def sched(S, total, ts):
        if S.cond(Lt(ts, start(S))):
            return ZERO
        if not S.cond(Lt(ts, end(S))):
            return total
        el = sub(256, ts, start(S))
        S.require(Not(ovf_mul(total, el)))
        S.require(nz(dur(S)))
        return mk("div", 256, mul(256, total, el), dur(S))

    def vested_eth(S, ts):
        r = S.load(rel())
        bal = mk("env", "balance", S.side.epoch)
        S.require(Not(ovf_add(r, bal)))
        return sched(S, add(256, bal, r), ts)

    def vested_20(S, tok, ts):
        b = q_balance(S, tok, THIS)
        r = S.load(rel20(tok))
        S.require(Not(ovf_add(b, r)))
        return sched(S, add(256, b, r), ts)

    def able(S, ve, r):
        S.require(Not(Lt(ve, r)))
        return sub(256, ve, r)
    able_eth = lambda S: able(S, vested_eth(S, NOW), S.load(rel()))
    able_20 = lambda S, tok: able(S, vested_20(S, tok, NOW), S.load(rel20(tok)))
    V("vested_amount_eth", vested_eth)
    V("vested_amount_erc20", vested_20)
    V("releasable_eth", able_eth)
    V("releasable_erc20", able_20)

    def release(S):
        a = able_eth(S)
        S.acc1(rel(), a)
        r = S.xcall("raw", S.load(own(root=v)), EMPTY, value=a)
        S.require(S.res_ok(r))
        S.log("EtherReleased", a)
        return UNIT

    def release20(S, tok):
        a = able_20(S, tok)
        S.acc1(rel20(tok), a)
        safe_transfer(S, tok, S.load(own(root=v)), a)
        S.log("ERC20Released", tok, a)
        return UNIT
    V("release_eth", release)
    V("release_erc20", release20)


def p_royalty(R):
    d = field(R, "Erc2981", "RoyaltyInfo")
    m = field(R, "Erc2981", "StorageMap")
    rc, fr = field(R, "RoyaltyInfo", "StorageAddress"), field(R, "RoyaltyInfo", "StorageUint")
    den = R.getter("Erc2981::_fee_denominator", R.fn("Erc2981", "_fee_denominator"), 0)
    if not den:
        return
    D = lambda f: L("self", d, f)
    K = lambda i, f: L("self", m, i, f)
    V = lambda n, sp, tr=None: R.verify("Erc2981::" + n, R.fn("Erc2981", n, tr), lambda S: sp(S, *S.args[1:]))

    def ri(S, i, price):
        r = S.load(K(i, rc))
        x = S.load(K(i, fr))
        if S.cond(is0(r)):
            r, x = S.load(D(rc)), S.load(D(fr))
        S.require(Not(ovf_mul(price, x)))
        S.require(nz(S.load(den())))
        return (r, mk("div", 256, mul(256, price, x), S.load(den())))
    V("royalty_info", ri, "IErc2981")

    def put(S, loc, r, n):
        S.require(Not(Lt(S.load(den()), n)))
        S.require(nz(r))
        S.store(loc(rc), r)
        S.store(loc(fr), n)
        return UNIT

    def clr(S, loc):
        S.store(loc(rc), ZERO)
        S.store(loc(fr), ZERO)
        return UNIT
    V("_set_default_royalty", lambda S, r, n: put(S, D, r, n))
    V("_set_token_royalty", lambda S, i, r, n: put(S, lambda f: K(i, f), r, n))
    V("_delete_default_royalty", lambda S: clr(S, D))
    V("_reset_token_royalty", lambda S, i: clr(S, lambda f: K(i, f)))
