"""ERC-721 enumeration, token metadata"""
from .common import *

ME = ("self",)
I721 = "token::erc721::IErc721::"


def seq(*xs):
    return xs[-1]


def p_enumerable(R):
    ty = "Erc721Enumerable"
    T = "IErc721Enumerable"
    n = {}
    for k, suf, nth in (("owned", "StorageMap", 0), ("oidx", "StorageMap", 1), ("aidx", "StorageMap", 2), ("all", "StorageVec", 0)):
        n[k] = field(R, ty, suf, nth=nth)
    owned = lambda o, i: L("self", n["owned"], o, i)
    oidx = lambda t: L("self", n["oidx"], t)
    aidx = lambda t: L("self", n["aidx"], t)
    alls = lambda i: L("self", n["all"], i)
    alen = L("self", n["all"], "#len")
    V = lambda f, sp, tr=None: R.verify(f"{ty}::{f}", R.fn(ty, f, tr), lambda S: sp(S, *S.args[1:]))

    def bal(S, e, who):
        r = S.pure(I721 + "balance_of", e, who)
        S.require(S.res_ok(r))
        return S.payload(r)
    V("total_supply", lambda S: S.load(alen), T)
    V("token_by_index", lambda S, i: seq(S.require(Lt(i, S.load(alen))), S.load(alls(i))), T)

    def at(S, o, i):
        t = S.load(owned(o, i))
        S.require(nz(t))
        return t
    V("token_of_owner_by_index", at, T)
    R.violation_if_zero_sentinel(ty + "::token_of_owner_by_index", R.fn(ty, "token_of_owner_by_index", T), owned)

    def add_o(S, to, t, e):
        k = sub(256, bal(S, e, to), ONE)
        S.store(owned(to, k), t)
        S.store(oidx(t), k)
        return UNIT
    V("_add_token_to_owner_enumeration", add_o)

    def add_a(S, t):
        k = S.load(alen)
        S.store(aidx(t), k)
        S.store(alls(k), t)
        S.store(alen, add(256, k, ONE))
        return UNIT
    V("_add_token_to_all_tokens_enumeration", add_a)

    def rem_o(S, f, t, e):
        k = S.load(oidx(t))
        S.assume(Eq(S.load(owned(f, k)), t))
        last = bal(S, e, f)
        if not S.cond(Eq(k, last)):
            lt = S.load(owned(f, last))
            S.store(owned(f, k), lt)
            S.store(oidx(lt), k)
        S.store(oidx(t), ZERO)
        S.store(owned(f, last), ZERO)
        return UNIT
    V("_remove_token_from_owner_enumeration", rem_o)

    def rem_a(S, t):
        ln = S.load(alen)
        k = S.load(aidx(t))
        S.require(nz(ln))
        S.require(Lt(k, ln))
        S.assume(Eq(S.load(alls(k)), t))
        last = sub(256, ln, ONE)
        lt = S.load(alls(last))
        if not S.cond(Eq(k, last)):
            S.store(alls(k), lt)
            S.store(aidx(lt), k)
        S.store(aidx(t), ZERO)
        S.store(alen, last)
        return UNIT
    V("_remove_token_from_all_tokens_enumeration", rem_a)
    R.verify(ty + "::_check_increase_balance", R.fn(ty, "_check_increase_balance"), lambda S: seq(S.require(is0(S.args[0])), UNIT))


def cat(a, b):
    return mk("concat", a, b)


def p_metadata(R):
    name = R.getter("Metadata::name", R.fn("Metadata", "name"), 0)
    sym = R.getter("Metadata::symbol", R.fn("Metadata", "symbol"), 0)
    base = R.getter("Erc721Metadata::base_uri", R.fn("Erc721Metadata", "base_uri"), 0)
    if not (name and sym and base):
        return
    if name() == sym():
        R.violation("Metadata", "name and symbol read the same storage")
    for ty, tr in (("Erc20Metadata", "IErc20Metadata"), ("Erc721Metadata", "IErc721Metadata")):
        m = ME + (field(R, ty, "Metadata"),)
        R.verify(ty + "::name", R.fn(ty, "name", tr), lambda S: S.load(name(root=m)))
        R.verify(ty + "::symbol", R.fn(ty, "symbol", tr), lambda S: S.load(sym(root=m)))
    R.verify("Erc20Metadata::decimals", R.fn("Erc20Metadata", "decimals", "IErc20Metadata"), lambda S: Int(18))
    R.getter("Erc20Wrapper::decimals", R.fn("Erc20Wrapper", "decimals", "IErc20Wrapper"), 0)
    V = lambda ty, f, sp, tr=None: R.verify(f"{ty}::{f}", R.fn(ty, f, tr), lambda S: sp(S, *S.args[1:]))
    empty = lambda S, s: S.cond(is0(mk("len", s)))

    def own(S, e, t):
        S.require(S.res_ok(S.pure(I721 + "owner_of", e, t)))

    def uri(S, root, t):
        b = S.load(base(root=root))
        return EMPTY if empty(S, b) else cat(b, mk("app", "to_string", t))
    V("Erc721Metadata", "token_uri", lambda S, t, e: seq(own(S, e, t), uri(S, ME, t)))
    tu = field(R, "Erc721UriStorage", "StorageMap")

    def uri2(S, t, e, m):
        own(S, e, t)
        b = S.load(base(root=stor(m)))
        u = S.load(L("self", tu, t))
        if empty(S, b):
            return u
        if empty(S, u):
            return uri(S, stor(m), t)
        return cat(b, u)
    V("Erc721UriStorage", "token_uri", uri2)
    V("Erc721UriStorage", "_set_token_uri", lambda S, t, u: seq(S.store(L("self", tu, t), u), S.log("MetadataUpdate", t), UNIT))
    b5, t5 = L("self", field(R, "Erc1155UriStorage", "StorageString")), field(R, "Erc1155UriStorage", "StorageMap")
    MU = "token::erc1155::extensions::metadata_uri::IErc1155MetadataUri::uri"

    def uri5(S, t, m):
        u = S.load(L("self", t5, t))
        return S.pure(MU, m, t) if empty(S, u) else cat(S.load(b5), u)
    V("Erc1155UriStorage", "uri", uri5)
    V("Erc1155UriStorage", "set_token_uri", lambda S, t, u, m: seq(S.store(L("self", t5, t), u), S.log("URI", uri5(S, t, m), t), UNIT))
    V("Erc1155UriStorage", "set_base_uri", lambda S, u: seq(S.store(b5, u), UNIT))
    mu = L("self", field(R, "Erc1155MetadataUri", "StorageString"))
    V("Erc1155MetadataUri", "uri", lambda S, t: S.load(mu), "IErc1155MetadataUri")
