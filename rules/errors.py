"""P36: a rejected operation reports a condition that really holds, with the actual values as arguments.

For every rejecting path of every entry point the reported error value is taken apart (error type, argument terms in
encoding order) and judged against the facts of that path: the arguments must be the accounts, stored values and
requested amounts the violated condition is about. The judgement does not depend on the order of the checks."""
from .common import *
from .structs import Undecided

TS = mk("env", "timestamp")


class Err:
    def __init__(self, st, f, args, name):
        self.st, self.f, self.args, self.name = st, f, args, name

    def c(self, x):
        return self.st.canon(x)

    def same(self, x, y):
        return x is y or self.c(x) is self.c(y) or self.st.decide(Eq(x, y)) is True

    def differ(self, x, y):
        return self.st.decide(Eq(x, y)) is False

    def zero(self, x):
        return self.st.decide(Eq(x, ZERO)) is True or (x.op == "bytes" and set(x.a[0]) <= {"0"})

    def lt(self, x, y, what):
        r = self.st.decide(Lt(x, y))
        if r is None and any(c.op == "lt" and (p and c.a[0] is x and self.plain(c.a[1], y) or not p and c.a[1] is x and self.plain(c.a[0], y)) for c, p in self.st.order):
            raise Mismatch(f"{what}: reports {show(y)[:60]}, which is not the amount that was refused")
        if r is None:
            raise Undecided(f"{what}: {show(x)[:60]} < {show(y)[:60]}")
        if r is False:
            raise Mismatch(f"{what} is reported although it does not hold")

    def plain(self, x, y):
        """x and y are plain quantities (arguments, stored values and sums of them) that differ in general"""
        return all(t.op in ("arg", "int", "poly", "sload", "env", "field", "xres") for z in (x, y) for t in subterms(z)) and not self.same(x, y)

    def keys(self, t):
        return [x[1] for x in t.a[1:] if not isinstance(x, str) and isinstance(x, tuple)]

    def loads(self, t):
        return [x for x in subterms(t) if x.op == "sload"]

    def holds(self, t, ks, n=None, last=False):
        """t is (derived from) the stored value at the keys ks (last: the last key is ks[0])"""
        if last:
            return any(self.keys(x) and len(self.keys(x)) == n and self.same(self.keys(x)[-1], ks[0]) for x in self.loads(t)) \
                or not self.loads(t) and self.holds(t, ks, n)
        for x in self.loads(t):
            have = self.keys(x)
            if (n is None or len(have) == n) and all(any(self.same(h, k) for h in have) for k in ks):
                return True
        # the stored value may be known by a term it equals
        for c, p in self.st.order:
            if p and c.op == "eq":
                for x, y in (c.a, c.a[::-1]):
                    if x.op == "sload" and self.same(y, t):
                        have = self.keys(x)
                        if (n is None or len(have) == n) and all(any(self.same(h, k) for h in have) for k in ks):
                            return True
        return False

    def fact(self, pred, pol=None):
        for c, p in self.st.order:
            if pol is None or p == pol:
                for x in (c,):
                    if pred(x):
                        return True
        return False

    def about(self, x):
        """the path made a decision about the account x: its code, or the outcome of a call to it"""
        def hit(c):
            for t in subterms(c):
                if t.op == "app" and t.a[0] == "has_code" and self.same(t.a[1], x):
                    return True
                if t.op == "xres" and any(isinstance(y, Term) and self.same(y, x) for y in t.a[2:3]):
                    return True
            return False
        return self.fact(hit)

    def owner_of(self, o, tid, deep=True):
        """o is what the contract records as owner of tid"""
        if self.holds(o, [tid], 1):
            return True
        for t in subterms(o):
            if t.op in ("app", "xres") and t.op != "sload" and any(isinstance(y, Term) and self.same(y, tid) for y in t.a):
                return True
        return deep and self.zero(o) and any(self.owner_of(x, tid, False) for c, p in self.st.order if p and c.op == "eq" and ZERO in c.a for x in c.a if x is not ZERO and not x.op == "int")


def need(ok, msg):
    if not ok:
        raise Mismatch(msg)


def insufficient_balance(e, s, b, n):
    need(e.holds(b, [s], 1), f"the reported balance {show(b)[:60]} is not the balance of the reported account {show(s)[:40]}")
    e.lt(b, n, "insufficient balance")


def insufficient_allowance(e, sp, al, n):
    need(e.holds(al, [sp], 2, last=True), f"the reported allowance {show(al)[:60]} is not an allowance of the reported spender {show(sp)[:40]}")
    e.lt(al, n, "insufficient allowance")


def bad_party(e, x):
    need(e.zero(x) or e.same(x, THIS) or e.about(x), f"reports {show(x)[:60]} as invalid although it is not the zero address and the operation was not refused because of it")


def zero(e, x):
    need(e.zero(x), f"reports {show(x)[:60]} as invalid although it is not the zero address")


def mem(*ids):
    def f(e, *a):
        pass
    return f


def b1155(e, s, b, n, tid):
    need(e.holds(b, [s, tid], 2), f"the reported balance {show(b)[:60]} is not the balance of {show(s)[:30]} for id {show(tid)[:30]}")
    e.lt(b, n, "insufficient balance")


def lengths(e, i, v):
    need(i.op == "len" and v.op == "len" or i.op == "int" or v.op == "int", f"reports {show(i)[:40]}, {show(v)[:40]} instead of the two lengths")
    need(e.differ(i, v), "reports differing lengths although they agree")
    if i.op == "len" and v.op == "len" and i.a[0] in e.args and v.a[0] in e.args:
        p, q = e.args.index(i.a[0]), e.args.index(v.a[0])
        need((p > q) == e.name.endswith("balance_of_batch"), "reports the two lengths in the wrong order")


def missing_approval(e, op, ow):
    need(e.fact(lambda c: c.op == "sload" and len(e.keys(c)) == 2 and e.same(e.keys(c)[0], ow) and e.same(e.keys(c)[1], op), False),
         f"reports a missing approval of {show(op)[:40]} by {show(ow)[:40]} although that approval was not found missing")


def nonexistent(e, tid):
    need(e.fact(lambda c: c.op == "eq" and ZERO in c.a and any(x is not ZERO and e.owner_of(x, tid) for x in c.a), True) or e.owner_of(ZERO, tid)
         or e.name.endswith("_check_authorized") and tid in e.args and e.zero(e.args[1]),
         f"reports {show(tid)[:40]} as nonexistent although its owner was not found to be zero")


def incorrect_owner(e, s, tid, o):
    need(e.owner_of(o, tid), f"the reported owner {show(o)[:60]} is not the recorded owner of {show(tid)[:40]}")
    need(e.differ(s, o), "reports a wrong owner although the accounts agree")


def no_approval(e, op, tid):
    if e.zero(op):
        return
    need(e.fact(lambda c: c.op == "eq" and any(e.same(x, op) for x in c.a), False) or e.fact(lambda c: any(t.op == "app" and op in t.a for t in subterms(c))),
         f"reports {show(op)[:40]} as not approved although it was not the account checked")
    need(e.fact(lambda c: any(e.same(t, tid) for x in subterms(c) if x.op in ("sload", "app") for t in (e.keys(x) if x.op == "sload" else x.a) if isinstance(t, Term)))
         or any(e.same(tid, a) for a in e.args), f"reports token {show(tid)[:40]}, which was not the token checked")


def approver(e, a):
    need(e.zero(a) or e.fact(lambda c: c.op == "eq" and any(e.same(x, a) for x in c.a), False), f"reports {show(a)[:40]} as invalid approver although it was not the account checked")


def role(e, acc, r):
    need(e.fact(lambda c: c.op == "sload" and len(e.keys(c)) == 2 and e.same(e.keys(c)[0], r) and e.same(e.keys(c)[1], acc), False),
         f"reports that {show(acc)[:40]} lacks role {show(r)[:40]} although that role was not found missing")


def not_owner(e, a):
    need(e.fact(lambda c: c.op == "eq" and any(e.same(x, a) for x in c.a), False), f"reports {show(a)[:40]} as unauthorized although it was not the account checked")


def ratio(e, num, den):
    need(e.holds(den, [], 0), "the reported denominator is not the stored one")
    e.lt(den, num, "royalty above the denominator")


def token_ratio(e, tid, num, den):
    need(tid in e.args and not e.same(tid, num), f"reports token {show(tid)[:40]}")
    ratio(e, num, den)


def token_receiver(e, tid, r):
    need(tid in e.args, f"reports token {show(tid)[:40]}")
    zero(e, r)


def exceeded_size(e, n, mx):
    need(not any(e.same(mx, a) for a in e.args), "the reported maximum is the requested size")
    e.lt(mx, n, "batch above the maximum")


def exceeded_vault(e, who, n, mx):
    need(any(e.same(n, a) for a in e.args), f"the reported amount {show(n)[:60]} is not the requested one")
    need(not e.loads(mx) or e.holds(mx, [who]) or all(not e.keys(x) for x in e.loads(mx)), f"the reported maximum is not that of {show(who)[:40]}")
    need(who in e.args or e.same(who, SENDER), f"reports account {show(who)[:40]}")
    e.lt(mx, n, "amount above the maximum")


def max_loan(e, m):
    if e.zero(m):
        need(e.fact(lambda c: c.op == "eq" and THIS in c.a, False), "reports a maximum loan of zero although the token is supported")
        return
    ls = e.loads(m)
    if m.op == "poly":
        want = [x for x in ls if not e.keys(x)]
        need(len(want) == 1 and m is sub(256, Int((1 << 256) - 1), want[0]), f"reports {show(m)[:60]} instead of the amount that can still be minted")
        return
    raise Mismatch(f"reports {show(m)[:60]} instead of the amount that can still be minted")


def expired(e, d):
    e.lt(d, TS, "expired deadline")


def signer(e, s, o):
    need(e.differ(s, o), "reports an invalid signer although signer and owner agree")
    need(any(t.op == "xres" for t in subterms(s)), f"the reported signer {show(s)[:60]} is not the recovered one")
    need(o in e.args, f"the reported owner is {show(o)[:60]}")


def decrease(e, sp, cur, req):
    need(any(t.op == "xres" for t in subterms(cur)), f"the reported allowance {show(cur)[:60]} is not the one read from the token")
    need(any(t.op == "xres" and contains(t, sp) for t in subterms(cur)), f"the reported allowance is not the one of {show(sp)[:40]}")
    e.lt(cur, req, "insufficient allowance")


def unsupported(e, t):
    need(e.fact(lambda c: c.op == "eq" and any(e.same(x, t) for x in c.a), False), f"reports {show(t)[:40]} as unsupported although it was not the token checked")


def confirmation(e):
    need(e.fact(lambda c: c.op == "eq" and any(e.same(x, SENDER) for x in c.a), False), "reports a bad confirmation although the confirmation matches the caller")


def bad_signature(e):
    need(not e.fact(lambda c: c.op == "eq" and ZERO in c.a and any(t.op == "xres" for t in subterms(c)), False), "reports an invalid signature although a signer was recovered")


def failed_token(e, t):
    need(e.about(t) or e.holds(t, [], 0), f"reports {show(t)[:40]} as failed although no call to it failed")


def index(e, ow, i):
    if e.zero(ow) and ow.op == "int":
        need(e.fact(lambda c: c.op == "lt" and c.a[0] is i or c.op == "eq" and i in c.a), f"reports index {show(i)[:40]}, which was not the one checked")
        return
    need(e.fact(lambda c: any(x.op == "sload" and all(any(e.same(h, k) for h in e.keys(x)) for k in (ow, i)) for x in subterms(c)) or c.op == "lt" and c.a[0] is i),
         f"reports ({show(ow)[:30]}, {show(i)[:30]}) as out of bounds although that entry was not checked")


def nonce(e, a, cur):
    need(e.holds(cur, [a], 1), f"the reported nonce {show(cur)[:60]} is not the nonce of {show(a)[:40]}")


def sig_s(e, s):
    need(s in e.args and (e.fact(lambda c: c.op == "lt" and any(x is s for x in c.a))), f"reports {show(s)[:60]} instead of the signature's s value")


def paused(e):
    need(e.fact(lambda c: c.op == "sload", True), "reports a pause although the contract was not found paused")


def not_paused(e):
    need(e.fact(lambda c: c.op == "sload", False), "reports that no pause is active although the contract was not found running")


TABLE = {
    "ERC20InsufficientBalance": insufficient_balance, "ERC20InsufficientAllowance": insufficient_allowance,
    "ERC20InvalidSender": bad_party, "ERC20InvalidReceiver": bad_party, "ERC20InvalidSpender": zero, "ERC20InvalidApprover": zero,
    "ERC3156UnsupportedToken": unsupported, "ERC3156ExceededMaxLoan": max_loan, "ERC3156InvalidReceiver": bad_party,
    "ERC2612ExpiredSignature": expired, "ERC2612InvalidSigner": signer,
    "ERC4626ExceededMaxDeposit": exceeded_vault, "ERC4626ExceededMaxMint": exceeded_vault, "ERC4626ExceededMaxWithdraw": exceeded_vault,
    "ERC4626ExceededMaxRedeem": exceeded_vault, "InvalidAsset": failed_token, "SafeErc20FailedOperation": failed_token,
    "SafeErc20FailedDecreaseAllowance": decrease,
    "ERC2981InvalidDefaultRoyalty": ratio, "ERC2981InvalidDefaultRoyaltyReceiver": zero, "ERC2981InvalidTokenRoyalty": token_ratio,
    "ERC2981InvalidTokenRoyaltyReceiver": token_receiver,
    "ERC721UnsupportedToken": unsupported, "Erc721FailedOperation": failed_token, "ERC721OutOfBoundsIndex": index,
    "ERC721ExceededMaxBatchMint": exceeded_size, "ERC721InvalidOwner": zero, "ERC721NonexistentToken": nonexistent,
    "ERC721IncorrectOwner": incorrect_owner, "ERC721InvalidSender": zero, "ERC721InvalidReceiver": bad_party,
    "ERC721InsufficientApproval": no_approval, "ERC721InvalidApprover": approver, "ERC721InvalidOperator": zero,
    "ERC1155InsufficientBalance": b1155, "ERC1155InvalidSender": zero, "ERC1155InvalidReceiver": bad_party,
    "ERC1155MissingApprovalForAll": missing_approval, "ERC1155InvalidApprover": zero, "ERC1155InvalidOperator": zero,
    "ERC1155InvalidArrayLength": lengths,
    "EnforcedPause": paused, "ExpectedPause": not_paused, "ECDSAInvalidSignatureS": sig_s, "InvalidAccountNonce": nonce,
    "OwnableUnauthorizedAccount": not_owner, "OwnableInvalidOwner": zero, "AccessControlUnauthorizedAccount": role,
    "InvalidToken": failed_token, "ERC20InvalidUnderlying": failed_token,
    "AccessControlBadConfirmation": confirmation, "ECDSAInvalidSignature": bad_signature,
}


def leaf(eng, v):
    """(error name, argument terms) of a nested error value, (None, ..) for passed-through results"""
    while v.op == "agg":
        ty = eng.T[v.a[0]] if isinstance(v.a[0], int) else {}
        path = ty.get("path", "")
        if "::sol::" in path:
            return path.rsplit("::", 1)[1], list(v.a[2:])
        if len(v.a) != 3:
            return None, []
        v = v.a[2]
    return None, []


class ErrorRule(Rule):
    """runs the entry points of the other tables, but judges the reported error of each rejecting path"""

    def __init__(self, base):
        self.__dict__ = base.__dict__
        self.sites = {}
        self.passed = 0

    def verify(self, name, body, spec, **kw):
        if body is None:
            return True
        self.cur = name
        key = (body["key"], tuple(sorted(kw.get("stubs") or ())))
        if key in self.sites:
            return True
        self.sites[key] = 0
        self.curkey = key
        self.cases_before = self.cases
        return super().verify(name, body, spec, **kw)

    def violation(self, key, msg, where=None, detail=None):
        if getattr(self, "mute", False):
            return
        super().violation(key, msg, where, detail)

    def compare(self, eng, out, args, spec, opts):
        if out.kind != "err":
            return
        name, f = leaf(eng, out.val)
        h = TABLE.get(name)
        if h is None:
            self.passed += 1
            return
        self.cases += 1
        self.sites[self.curkey] += 1
        try:
            h(Err(out.st, f, args, self.cur), *f)
        except Mismatch as m:
            raise Mismatch(f"{name}: {m.msg}")
        except Undecided as u:
            raise Unsupported(f"{name}: {u}")

    def getter(self, name, body, nkeys, prog="contracts", guarded=False):
        n = len(self.violations), len(self.obligations)
        r = super().getter(name, body, nkeys, prog, guarded)
        del self.violations[n[0]:], self.obligations[n[1]:]
        if body is not None and guarded:
            self.verify(name, body, None)
        return r


def p_errors(R):
    from . import erc20, erc20ext, erc721, erc721b, erc1155, access
    E = ErrorRule(R)
    for f in (erc20.p_conservation, erc20.p_authority, erc20ext.p_safe_erc20, erc20ext.p_ecdsa, erc20ext.p_nonces, erc20ext.p_permit, erc20ext.p_pausable,
              erc20ext.p_wrapper20, erc20ext.p_flash, erc20ext.p_4626_move, erc721.p_ledger, erc721.p_auth, erc721.p_safe, erc721.p_consecutive_full,
              erc721.p_wrapper, erc721b.p_enumerable, erc721b.p_metadata, erc1155.p_ledger, erc1155.p_auth, erc1155.p_supply,
              access.p_royalty, access.p_roles, access.p_ownable, access.p_vesting):
        try:
            f(E)
        except (AttributeError, TypeError, KeyError, IndexError, AssertionError) as e:
            R.undecided.append(f"{f.__name__}: {e!r}")
    # only what was judged here counts
    R.violations[:] = [v for v in R.violations if any(v["msg"].find(n + ": ") >= 0 for n in TABLE)]
    encodings(R)


def encodings(R):
    """the reverted data of every error is the encoding of the error it carries"""
    P = R.progs["contracts"]
    for b in list(P.bodies.values()):
        if not (b["name"] == "encode" and b["local"] and "#promoted" not in b["key"] and "impl_self" in b and "MethodError" in b["path"]):
            continue
        ty = P.types[b["impl_self"]].get("path", "?")
        try:
            eng, outs, args = R.analyse(b)
        except (Unsupported, Budget, RecursionError) as e:
            R.undecided.append(f"{ty}: {e}")
            continue
        me = args[0]
        bad = None
        und = False
        for o in outs:
            if o.kind != "ok":
                bad = f"encoding can fail ({o.msg})"
                break
            if any("MethodError" not in u and "encode" not in u and "abi" not in u for u in eng.opaque_in(o)):
                und = True
                continue
            # the variant this path is about
            want = []
            for c, p in o.st.order:
                if p and c.op == "eq":
                    d, k = (c.a[0], c.a[1]) if c.a[0].op == "discr" else (c.a[1], c.a[0])
                    if d.op == "discr" and k.op == "int":
                        want.append(mk("vfld", d.a[0], k.a[0], 0))
            if not want:
                want = [mk("vfld", me, 0, 0)]
            got = [x for x in subterms(o.val) if x.op == "vfld"]
            if contains(o.val, want[-1]):
                continue
            if want[-1] in got:
                continue
            if got and any(contains(w, g) for g in got for w in want):
                und = True
                continue
            # an error without arguments may be encoded without reading it
            bad = f"the encoded bytes {show(o.val)[:100]} do not carry the reported error {show(want[-1])}"
            break
        if bad:
            R.violation(f"{ty}:encode", f"{ty}: {bad}", f"{b['file']}:{b['line']}")
        R.obligation(f"{ty}: encoding", False if bad else None if und else True)
