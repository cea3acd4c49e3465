"""ERC-20 extensions, SafeERC20, ERC-4626, signatures"""
from .common import *
from engine.keccak import keccak256

ME = ("self",)


def kc(s):
    return mk("bytes", keccak256(s.encode()).hex())


# ------------------------------------------------------------ SafeERC20
def abi_call(name, *a):
    return mk("app", "abi_call", name, *a)


def opt_call(S, token, enc):
    """low-level token call; True iff it counts as successful"""
    if not S.cond(has_code(token)):
        return False
    r = S.rawcall(token, enc)
    if not S.cond(S.res_ok(r)):
        return False
    d = S.payload(r)
    n = length(d)
    if S.cond(is0(n)):
        return True
    b = S.st.decide(Eq(mk("app", "beint", d), ONE))     # the whole reply compared as a number
    if b is not None:
        return b
    last = sub(64, n, ONE)
    r = whole(S, d, n, last)
    if r is not None:
        return r
    if not S.cond(Eq(mk("elem", d, last), ONE)):
        S.cleared()
        return False
    return S.forall(last, lambda k: Eq(mk("elem", d, k), ZERO))


def whole(S, d, n, last):
    """one pass over all bytes that expects 1 at the last position and 0 elsewhere"""
    for e in S.run.loops[S.loop_i:]:
        i = e[1][0]
        if i.written or any(tr for _, tr in i.iters) or S.st.decide(Lt(i.k, n)) is None or not i.backs:
            continue
        el, at = mk("elem", d, i.k), Eq(i.k, last)
        flag = [Eq(el, mk("b2i", q)) for q in (at, Eq(add(64, i.k, ONE), n))]
        if all(b.decide(Lt(i.k, n)) is True and any(b.decide(q) is True for q in flag) for b in i.backs):
            if S.st.decide(Lt(i.k, n)) is False:
                return True
            if any(S.st.decide(q) is False for q in flag):
                return False
        if not all(b.decide(Lt(i.k, n)) is True and {True: b.decide(Eq(el, ONE)), False: b.decide(Eq(el, ZERO)), None: None}[b.decide(at)] is True for b in i.backs):
            continue
        if not any(b.decide(at) is True for b in i.backs):
            continue
        if S.st.decide(Lt(i.k, n)) is False:
            return True
        if S.cond(Eq(el, ONE if S.cond(at) else ZERO)):
            raise Mismatch("the iteration over the reply is left early although the byte fits")
        return False
    return None


def length(d):
    return mk("len", d)


def safe_transfer(S, token, to, v):
    if not opt_call(S, token, abi_call("transferCall", to, v)):
        S.revert()


def safe_transfer_from(S, token, f, to, v):
    if not opt_call(S, token, abi_call("transferFromCall", f, to, v)):
        S.revert()


def force_approve(S, token, sp, v):
    enc = abi_call("approveCall", sp, v)
    if opt_call(S, token, enc):
        return
    if not opt_call(S, token, abi_call("approveCall", sp, ZERO)):
        S.revert()
    if not opt_call(S, token, enc):
        S.revert()


def q_allowance(S, token, sp):
    S.require(has_code(token))
    r = S.rawcall(token, abi_call("allowanceCall", THIS, sp))
    S.require(S.res_ok(r))
    return mk("app", "beint", S.payload(r))


def p_safe_erc20(R):
    def V(n, sp):
        R.verify("SafeErc20::" + n, R.fn("SafeErc20", n, "ISafeErc20"), sp)
    V("safe_transfer", lambda S: safe_transfer(S, *S.args[1:]) or UNIT)
    V("safe_transfer_from", lambda S: safe_transfer_from(S, *S.args[1:]) or UNIT)
    V("force_approve", lambda S: force_approve(S, *S.args[1:]) or UNIT)

    def inc(S):
        token, sp, v = S.args[1:]
        a = q_allowance(S, token, sp)
        S.require(Not(ovf_add(a, v)))
        force_approve(S, token, sp, add(256, a, v))
        return UNIT

    def dec(S):
        token, sp, v = S.args[1:]
        a = q_allowance(S, token, sp)
        S.require(Not(Lt(a, v)))
        force_approve(S, token, sp, sub(256, a, v))
        return UNIT
    V("safe_increase_allowance", inc)
    V("safe_decrease_allowance", dec)


# ------------------------------------------------------------ signatures
HALF_N = 0x7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0


def ecrecover(S, h, v, r, s):
    S.require(Not(Lt(Int(HALF_N), s)))
    if not S.cond(Eq(v, Int(27))) and not S.cond(Eq(v, Int(28))) and S.out.kind != "ok":
        # the precompile answers nothing for any other v: rejecting it earlier is the same
        S.revert()
    x = S.static("raw", ONE, mk("app", "abi", h, v, r, s))
    S.require(S.res_ok(x))
    d = S.payload(x)
    S.require(Not(Lt(length(d), Int(12))))
    a = mk("slice", d, Int(12), length(d))
    S.require(nz(a))
    return a


def p_ecdsa(R):
    R.verify("ecdsa::recover", R.free("utils::cryptography::ecdsa::recover"), lambda S: ecrecover(S, *S.args[1:]))


EIP = "utils::cryptography::eip712::IEip712::"
DOMAIN_TYPE = "EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)"
PERMIT_TYPE = "Permit(address owner,address spender,uint256 value,uint256 nonce,uint256 deadline)"


def domain(this=None, ty=("Self",)):
    nm = mk("const", EIP + "NAME", ty)
    ver = mk("const", EIP + "VERSION", ty)
    return mk("app", "keccak256", mk("app", "abi", kc(DOMAIN_TYPE), mk("app", "keccak256", nm), mk("app", "keccak256", ver), CHAINID, THIS))


def typed(ds, sh):
    return mk("app", "keccak256", mk("concat", mk("concat", mk("bytes", "1901"), ds), sh))


def p_eip712(R):
    P = R.progs["contracts"]
    tr = EIP[:-2]
    ds = domain()
    R.verify("to_typed_data_hash", R.free("utils::cryptography::eip712::to_typed_data_hash"), lambda S: typed(S.args[0], S.args[1]))
    R.verify("IEip712::domain_separator_v4", P.provided(tr, "domain_separator_v4"), lambda S: ds)
    R.verify("IEip712::hash_typed_data_v4", P.provided(tr, "hash_typed_data_v4"), lambda S: typed(ds, S.args[1]))
    nm, ver = mk("const", EIP + "NAME", ("Self",)), mk("const", EIP + "VERSION", ("Self",))

    def fields(v):
        return True if show(v) in ("array#0(15)", "bytes(0f)") or (v.op == "agg" and afields(v) == (Int(15),)) else "field mask must be 0x0f"

    def zero32(v):
        if v.op == "int":
            return v.a[0] == 0
        if v.op == "bytes":
            return set(v.a[0]) <= {"0"}
        if v.op == "repeat":
            return v.a[0] is ZERO
        return all(x is ZERO for x in afields(v)) if v.op == "agg" else False

    def empty(v):
        return True if S_len(v) else "extensions must be empty"

    def S_len(v):
        return v.op == "agg" and not afields(v) or v.op in ("seq", "bytes") and not (v.a and v.a[0])
    R.verify("IEip712::eip712_domain", P.provided(tr, "eip712_domain"), lambda S: (fields, nm, ver, CHAINID, THIS, zero32, None))
    R.verify("Erc20Permit::domain_separator", R.fn("Erc20Permit", "domain_separator"), lambda S: ds)


def nonce_use(S, R, non, root, owner):
    l = non(owner, root=root)
    n = S.load(l)
    S.require(Not(ovf_add(n, ONE)))
    S.store(l, add(256, n, ONE))
    return n


def p_nonces(R):
    non = R.getter("Nonces::nonces", R.fn("Nonces", "nonces"), 1)
    if not non:
        return
    R.verify("Nonces::use_nonce", R.fn("Nonces", "use_nonce"), lambda S: nonce_use(S, R, non, ME, S.args[1]))

    def chk(S):
        n = nonce_use(S, R, non, ME, S.args[1])
        S.require(Eq(n, S.args[2]))
        return UNIT
    R.verify("Nonces::use_checked_nonce", R.fn("Nonces", "use_checked_nonce"), chk)


def p_permit(R):
    t = T20(R)
    non = R.getter("Nonces::nonces", R.fn("Nonces", "nonces"), 1)
    if not (t.ok and non):
        return

    def permit(S):
        o, sp, v, dl, sv, r, s = S.args[1:8]
        S.require(Not(Lt(dl, NOW)))
        n = nonce_use(S, R, non, stor(S.args[9]), o)
        sh = mk("app", "keccak256", mk("app", "abi", kc(PERMIT_TYPE), o, sp, v, n, dl))
        a = ecrecover(S, typed(domain(), sh), sv, r, s)
        S.require(Eq(a, o))
        t.approve(S, stor(S.args[8]), o, sp, v, True)
        return UNIT
    R.verify("Erc20Permit::permit", R.fn("Erc20Permit", "permit"), permit)


# ------------------------------------------------------------ pausable, capped
def p_pausable(R):
    pa = R.getter("Pausable::paused", R.fn("Pausable", "paused"), 0)
    if not pa:
        return
    b = R.fn("Pausable", "pause")

    def flip(to, ev, log):
        def f(S):
            c = S.load(pa())
            S.require(c if not to else Not(c))
            S.store(pa(), TRUE if to else FALSE)
            S.log(ev, SENDER)
            return UNIT
        return f
    R.verify("Pausable::pause", b, flip(True, "Paused", 1))
    R.verify("Pausable::unpause", R.fn("Pausable", "unpause"), flip(False, "Unpaused", 1))
    R.verify("Pausable::when_not_paused", R.fn("Pausable", "when_not_paused"), lambda S: S.require(Not(S.load(pa()))) or UNIT)
    R.verify("Pausable::when_paused", R.fn("Pausable", "when_paused"), lambda S: S.require(S.load(pa())) or UNIT)
    R.getter("Capped::cap", R.fn("Capped", "cap"), 0)


# ------------------------------------------------------------ wrapper
def q_balance(S, token, who):
    r = S.static("Erc20Interface::balance_of", token, who)
    S.require(S.res_ok(r))
    return S.payload(r)


def p_wrapper20(R):
    t = T20(R)
    und = R.getter("Erc20Wrapper::underlying", R.fn("Erc20Wrapper", "underlying", "IErc20Wrapper"), 0)
    if not (t.ok and und):
        return

    def dep(S):
        a, v, e = S.args[1:]
        S.require(Not(Eq(SENDER, THIS)))
        S.require(Not(Eq(a, THIS)))
        safe_transfer_from(S, S.load(und()), SENDER, THIS, v)
        t.mint(S, stor(e), a, v)
        return TRUE

    def wd(S):
        a, v, e = S.args[1:]
        S.require(Not(Eq(a, THIS)))
        t.burn(S, stor(e), SENDER, v)
        safe_transfer(S, S.load(und()), a, v)
        return TRUE

    def rec(S):
        a, e = S.args[1:]
        root = stor(e)
        b = q_balance(S, S.load(und()), THIS)
        s = S.load(t.sup(root=root))
        S.require(Not(Lt(b, s)))
        d = sub(256, b, s)
        if not S.cond(is0(d)):
            t.mint(S, root, a, d)
        return d
    R.verify("Erc20Wrapper::deposit_for", R.fn("Erc20Wrapper", "deposit_for", "IErc20Wrapper"), dep)
    R.verify("Erc20Wrapper::withdraw_to", R.fn("Erc20Wrapper", "withdraw_to", "IErc20Wrapper"), wd)
    R.verify("Erc20Wrapper::_recover", R.fn("Erc20Wrapper", "_recover"), rec)


# ------------------------------------------------------------ flash mint
def p_flash(R):
    t = T20(R)
    if not t.ok:
        return
    fee_f = field(R, "Erc20FlashMint", "StorageUint<256, 4>")
    rec_f = field(R, "Erc20FlashMint", "StorageAddress")
    if not (fee_f and rec_f):
        return
    fee_l, rec_l = ("self", fee_f), ("self", rec_f)

    def maxl(S, token, root):
        if S.cond(Eq(token, THIS)):
            return sub(256, MAX256, S.load(t.sup(root=root)))
        return ZERO

    def ffee(S, token):
        S.require(Eq(token, THIS))
        return S.load(fee_l)

    def loan(S):
        rc, token, v, data, e = S.args[1:]
        root = stor(e)
        S.require(Not(Lt(maxl(S, token, root), v)))
        fee = ffee(S, token)
        S.require(has_code(rc))
        t.mint(S, root, rc, v)
        r = S.xcall("IERC3156FlashBorrower::on_flash_loan", rc, SENDER, token, v, fee, data)
        S.require(S.res_ok(r))
        S.require(Eq(S.payload(r), kc("ERC3156FlashBorrower.onFlashLoan")))
        S.require(Not(ovf_add(v, fee)))
        tot = add(256, v, fee)
        t.spend(S, root, rc, THIS, tot)
        fr = S.load(rec_l)
        if S.cond(is0(fee)) or S.cond(is0(fr)):
            t.burn(S, root, rc, tot)
        else:
            t.burn(S, root, rc, v)
            t.transfer(S, root, rc, fr, fee)
        return TRUE
    F = lambda n: R.fn("Erc20FlashMint", n, "IErc3156FlashLender")
    R.verify("Erc20FlashMint::max_flash_loan", F("max_flash_loan"), lambda S: maxl(S, S.args[1], stor(S.args[2])))
    R.verify("Erc20FlashMint::flash_fee", F("flash_fee"), lambda S: ffee(S, S.args[1]))
    R.verify("Erc20FlashMint::flash_loan", F("flash_loan"), loan)


# ------------------------------------------------------------ ERC-4626
class V4626:
    def __init__(self, R):
        self.R = R
        self.t = T20(R)
        self.asset = R.getter("Erc4626::asset", R.fn("Erc4626", "asset", "IErc4626"), 0)
        self.off = field(R, "Erc4626", "StorageUint<8, 1>", nth=1)
        self.ud = field(R, "Erc4626", "StorageUint<8, 1>", nth=0)
        self.ok = bool(self.t.ok and self.asset and self.off and self.ud)

    def total(self, S):
        return q_balance(S, S.load(self.asset()), THIS)

    def vshares(self, S, root):
        o = S.load(("self", self.off))
        S.require(Not(mk("app", "pow_ovf", 256, Int(10), o)))
        p = mk("app", "pow", Int(10), o)
        s = S.load(self.t.sup(root=root))
        S.require(Not(ovf_add(s, p)))
        return add(256, s, p)

    def vassets(self, S):
        a = self.total(S)
        S.require(Not(ovf_add(a, ONE)))
        return add(256, a, ONE)

    def muldiv(self, S, x, y, d, up):
        S.require(nz(d))
        x, y, d = [mk("zext", 256, z) if z.op == "poly" else z for z in (x, y, d)]
        n = mul(512, x, y)
        return quotient(S, n, d, up)

    def shares(self, S, assets, root, up):
        m = self.vshares(S, root)
        d = self.vassets(S)
        return self.muldiv(S, assets, m, d, up)

    def assets(self, S, shares, root, up):
        m = self.vassets(S)
        d = self.vshares(S, root)
        return self.muldiv(S, shares, m, d, up)

    def dep(self, S, caller, rcv, a, sh, root):
        safe_transfer_from(S, S.load(self.asset()), caller, THIS, a)
        self.t.mint(S, root, rcv, sh)
        S.log("Deposit", caller, rcv, a, sh)

    def wd(self, S, caller, rcv, owner, a, sh, root):
        if not S.cond(Eq(caller, owner)):
            self.t.spend(S, root, owner, caller, sh)
        self.t.burn(S, root, owner, sh)
        safe_transfer(S, S.load(self.asset()), rcv, a)
        S.log("Withdraw", caller, rcv, owner, a, sh)


def p_4626_convert(R):
    v = V4626(R)
    if not v.ok:
        return
    F = lambda n: R.fn("Erc4626", n, "IErc4626")
    V = lambda n, s: R.verify("Erc4626::" + n, F(n), s)
    V("total_assets", lambda S: v.total(S))
    V("convert_to_shares", lambda S: v.shares(S, S.args[1], stor(S.args[2]), False))
    V("convert_to_assets", lambda S: v.assets(S, S.args[1], stor(S.args[2]), False))
    V("preview_deposit", lambda S: v.shares(S, S.args[1], stor(S.args[2]), False))
    V("preview_mint", lambda S: v.assets(S, S.args[1], stor(S.args[2]), True))
    V("preview_withdraw", lambda S: v.shares(S, S.args[1], stor(S.args[2]), True))
    V("preview_redeem", lambda S: v.assets(S, S.args[1], stor(S.args[2]), False))
    V("max_deposit", lambda S: MAX256)
    V("max_mint", lambda S: MAX256)
    V("max_withdraw", lambda S: v.assets(S, S.load(v.t.bal(S.args[1], root=stor(S.args[2]))), stor(S.args[2]), False))
    V("max_redeem", lambda S: S.load(v.t.bal(S.args[1], root=stor(S.args[2]))))

    def dec(S):
        a, b = S.load(("self", v.ud)), S.load(("self", v.off))
        S.require(Not(ovf_add(a, b, 8)))
        return add(8, a, b)
    R.verify("Erc4626::decimals", R.fn("Erc4626", "decimals"), dec)


def p_4626_move(R):
    v = V4626(R)
    if not v.ok:
        return
    F = lambda n: R.fn("Erc4626", n, "IErc4626")

    def deposit(S):
        a, rc, e = S.args[1:]
        sh = v.shares(S, a, stor(e), False)
        v.dep(S, SENDER, rc, a, sh, stor(e))
        return sh

    def mint(S):
        sh, rc, e = S.args[1:]
        a = v.assets(S, sh, stor(e), True)
        v.dep(S, SENDER, rc, a, sh, stor(e))
        return a

    def withdraw(S):
        a, rc, o, e = S.args[1:]
        root = stor(e)
        mx = v.assets(S, S.load(v.t.bal(o, root=root)), root, False)
        S.require(Not(Lt(mx, a)))
        sh = v.shares(S, a, root, True)
        v.wd(S, SENDER, rc, o, a, sh, root)
        return sh

    def redeem(S):
        sh, rc, o, e = S.args[1:]
        root = stor(e)
        S.require(Not(Lt(S.load(v.t.bal(o, root=root)), sh)))
        a = v.assets(S, sh, root, False)
        v.wd(S, SENDER, rc, o, a, sh, root)
        return a
    for n, f in (("deposit", deposit), ("mint", mint), ("withdraw", withdraw), ("redeem", redeem)):
        R.verify("Erc4626::" + n, F(n), f)
