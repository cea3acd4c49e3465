"""P30: external interface - routed selectors, ERC-165 answers, event and error encodings, outgoing call data."""
from .common import *
from .mathr import fold
from engine.keccak import selector, keccak256

A = "address"
U = "uint256"
B32 = "bytes32"


def xor(*sigs):
    r = 0
    for s in sigs:
        r ^= selector(s)
    return r


ERC20 = {"total_supply": "totalSupply()", "balance_of": "balanceOf(address)", "transfer": "transfer(address,uint256)",
         "allowance": "allowance(address,address)", "approve": "approve(address,uint256)", "transfer_from": "transferFrom(address,address,uint256)"}
META = {"name": "name()", "symbol": "symbol()"}
OWN = {"owner": "owner()", "transfer_ownership": "transferOwnership(address)", "renounce_ownership": "renounceOwnership()"}
OWN2 = dict(OWN, pending_owner="pendingOwner()", accept_ownership="acceptOwnership()")
ERC721 = {"balance_of": "balanceOf(address)", "owner_of": "ownerOf(uint256)", "safe_transfer_from": "safeTransferFrom(address,address,uint256)",
          "safe_transfer_from_with_data": "safeTransferFrom(address,address,uint256,bytes)", "transfer_from": "transferFrom(address,address,uint256)",
          "approve": "approve(address,uint256)", "set_approval_for_all": "setApprovalForAll(address,bool)", "get_approved": "getApproved(uint256)",
          "is_approved_for_all": "isApprovedForAll(address,address)"}
ERC1155 = {"balance_of": "balanceOf(address,uint256)", "balance_of_batch": "balanceOfBatch(address[],uint256[])",
           "set_approval_for_all": "setApprovalForAll(address,bool)", "is_approved_for_all": "isApprovedForAll(address,address)",
           "safe_transfer_from": "safeTransferFrom(address,address,uint256,uint256,bytes)",
           "safe_batch_transfer_from": "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)"}
ROLES = {"has_role": "hasRole(bytes32,address)", "only_role": "onlyRole(bytes32)", "get_role_admin": "getRoleAdmin(bytes32)",
         "grant_role": "grantRole(bytes32,address)", "revoke_role": "revokeRole(bytes32,address)", "renounce_role": "renounceRole(bytes32,address)"}
VEST = {"start": "start()", "duration": "duration()", "end": "end()", "released_eth": "released()", "released_erc20": "released(address)",
        "releasable_eth": "releasable()", "releasable_erc20": "releasable(address)", "release_eth": "release()", "release_erc20": "release(address)",
        "vested_amount_eth": "vestedAmount(uint64)", "vested_amount_erc20": "vestedAmount(address,uint64)"}
SAFE = {"safe_transfer": "safeTransfer(address,address,uint256)", "safe_transfer_from": "safeTransferFrom(address,address,address,uint256)",
        "safe_increase_allowance": "safeIncreaseAllowance(address,address,uint256)", "safe_decrease_allowance": "safeDecreaseAllowance(address,address,uint256)",
        "force_approve": "forceApprove(address,address,uint256)"}
ENUM = {"total_supply": "totalSupply()", "token_by_index": "tokenByIndex(uint256)", "token_of_owner_by_index": "tokenOfOwnerByIndex(address,uint256)"}
ROUTES = {
    "AccessControl": ROLES, "Ownable": OWN, "Ownable2Step": OWN2, "VestingWallet": dict(OWN, **VEST),
    "Erc2981": {"royalty_info": "royaltyInfo(uint256,uint256)"}, "Erc1155MetadataUri": {"uri": "uri(uint256)"},
    "Erc1155Supply": ERC1155, "Erc1155": ERC1155, "Capped": {"cap": "cap()"}, "Erc20Metadata": dict(META, decimals="decimals()"),
    "Erc20Permit": {"domain_separator": "DOMAIN_SEPARATOR()"}, "SafeErc20": SAFE, "Erc20": ERC20, "Erc721Consecutive": ERC721,
    "Erc721Enumerable": ENUM, "Erc721Metadata": META, "Erc721": ERC721, "Metadata": META, "Nonces": {"nonces": "nonces(address)"},
    "Pausable": {"paused": "paused()"},
}
I165 = selector("supportsInterface(bytes4)")
I721 = xor(*[v for v in ERC721.values()])
I1155 = xor(*ERC1155.values())
I20 = xor(*ERC20.values())
V4626 = ["asset()", "totalAssets()", "convertToShares(uint256)", "convertToAssets(uint256)", "maxDeposit(address)", "previewDeposit(uint256)",
         "deposit(uint256,address)", "maxMint(address)", "previewMint(uint256)", "mint(uint256,address)", "maxWithdraw(address)", "previewWithdraw(uint256)",
         "withdraw(uint256,address,address)", "maxRedeem(address)", "previewRedeem(uint256)", "redeem(uint256,address,address)"]
IDS = {
    "AccessControl": [xor(*ROLES.values())], "Ownable": [xor(*OWN.values())],
    "Ownable2Step": [xor(*OWN2.values()), xor(*OWN.values())], "VestingWallet": [xor(*OWN.values(), *VEST.values())],
    "Erc2981": [selector("royaltyInfo(uint256,uint256)")], "Erc1155MetadataUri": [selector("uri(uint256)")],
    "Erc1155Supply": [xor("totalSupply(uint256)", "totalSupply()", "exists(uint256)"), I1155], "Erc1155": [I1155],
    "Erc4626": [xor(*V4626)], "Erc20FlashMint": [xor("maxFlashLoan(address)", "flashFee(address,uint256)", "flashLoan(address,address,uint256,bytes)")],
    "Erc20Metadata": [xor("name()", "symbol()", "decimals()")],
    "Erc20Wrapper": [xor("depositFor(address,uint256)", "withdrawTo(address,uint256)", "underlying()", "decimals()")], "SafeErc20": [xor(*SAFE.values())],
    "Erc20": [I20], "Erc721Consecutive": [I721], "Erc721": [I721], "Erc721Enumerable": [xor(*ENUM.values())],
    "Erc721Metadata": [xor("name()", "symbol()", "tokenURI(uint256)")],
}
# events: i = indexed, d = data, in declaration order
EVENTS = {
    ("control", "RoleAdminChanged"): ["ibytes32", "ibytes32", "ibytes32"], ("control", "RoleGranted"): ["ibytes32", "iaddress", "iaddress"],
    ("control", "RoleRevoked"): ["ibytes32", "iaddress", "iaddress"], ("ownable", "OwnershipTransferred"): ["iaddress", "iaddress"],
    ("ownable_two_step", "OwnershipTransferStarted"): ["iaddress", "iaddress"], ("vesting_wallet", "EtherReleased"): ["duint256"],
    ("vesting_wallet", "ERC20Released"): ["iaddress", "duint256"], ("metadata_uri", "URI"): ["dstring", "iuint256"],
    ("erc1155", "TransferSingle"): ["iaddress", "iaddress", "iaddress", "duint256", "duint256"],
    ("erc1155", "TransferBatch"): ["iaddress", "iaddress", "iaddress", "duint256[]", "duint256[]"],
    ("erc1155", "ApprovalForAll"): ["iaddress", "iaddress", "dbool"],
    ("erc4626", "Deposit"): ["iaddress", "iaddress", "duint256", "duint256"],
    ("erc4626", "Withdraw"): ["iaddress", "iaddress", "iaddress", "duint256", "duint256"],
    ("erc20", "Transfer"): ["iaddress", "iaddress", "duint256"], ("erc20", "Approval"): ["iaddress", "iaddress", "duint256"],
    ("consecutive", "ConsecutiveTransfer"): ["iuint256", "duint256", "iaddress", "iaddress"],
    ("uri_storage", "MetadataUpdate"): ["duint256"], ("uri_storage", "BatchMetadataUpdate"): ["duint256", "duint256"],
    ("erc721", "Transfer"): ["iaddress", "iaddress", "iuint256"], ("erc721", "Approval"): ["iaddress", "iaddress", "iuint256"],
    ("erc721", "ApprovalForAll"): ["iaddress", "iaddress", "dbool"],
    ("pausable", "Paused"): ["daddress"], ("pausable", "Unpaused"): ["daddress"],
}
ERRORS = """AccessControlUnauthorizedAccount(address,bytes32) AccessControlBadConfirmation() OwnableUnauthorizedAccount(address) OwnableInvalidOwner(address)
ReleaseEtherFailed() InvalidToken(address) ERC2981InvalidDefaultRoyalty(uint256,uint256) ERC2981InvalidDefaultRoyaltyReceiver(address)
ERC2981InvalidTokenRoyalty(uint256,uint256,uint256) ERC2981InvalidTokenRoyaltyReceiver(uint256,address)
ERC1155InsufficientBalance(address,uint256,uint256,uint256) ERC1155InvalidSender(address) ERC1155InvalidReceiver(address)
ERC1155MissingApprovalForAll(address,address) ERC1155InvalidApprover(address) ERC1155InvalidOperator(address) ERC1155InvalidArrayLength(uint256,uint256)
ERC20ExceededCap(uint256,uint256) ERC20InvalidCap(uint256) ERC4626ExceededMaxDeposit(address,uint256,uint256) ERC4626ExceededMaxMint(address,uint256,uint256)
ERC4626ExceededMaxWithdraw(address,uint256,uint256) ERC4626ExceededMaxRedeem(address,uint256,uint256) InvalidAsset(address)
ERC3156UnsupportedToken(address) ERC3156ExceededMaxLoan(uint256) ERC3156InvalidReceiver(address) ERC2612ExpiredSignature(uint256)
ERC2612InvalidSigner(address,address) ERC20InvalidUnderlying(address) ERC20InvalidSender(address) ERC20InvalidReceiver(address)
SafeErc20FailedOperation(address) SafeErc20FailedDecreaseAllowance(address,uint256,uint256) ERC20InsufficientBalance(address,uint256,uint256)
ERC20InsufficientAllowance(address,uint256,uint256) ERC20InvalidSpender(address) ERC20InvalidApprover(address) ERC721ForbiddenBatchMint()
ERC721ExceededMaxBatchMint(uint256,uint256) ERC721ForbiddenMint() ERC721ForbiddenBatchBurn() ERC721OutOfBoundsIndex(address,uint256)
ERC721EnumerableForbiddenBatchMint() ERC721UnsupportedToken(address) Erc721FailedOperation(address) ERC721InvalidOwner(address)
ERC721NonexistentToken(uint256) ERC721IncorrectOwner(address,uint256,address) ERC721InvalidSender(address) ERC721InvalidReceiver(address)
ERC721InsufficientApproval(address,uint256) ERC721InvalidApprover(address) ERC721InvalidOperator(address) ECDSAInvalidSignature()
ECDSAInvalidSignatureS(bytes32) InvalidAccountNonce(address,uint256) EnforcedPause() ExpectedPause() CheckpointUnorderedInsertion()""".split()
ERRORS = {e.split("(")[0]: e for e in ERRORS}
CALLS = {"allowanceCall": ERC20["allowance"], "approveCall": ERC20["approve"], "transferCall": ERC20["transfer"], "transferFromCall": ERC20["transfer_from"]}
# outgoing proxies: interface -> method -> (signature, kind)
V, W = "static_call", "call"
PROXIES = {
    "Erc20Interface": {k: (s, V if k in ("total_supply", "balance_of", "allowance") else W) for k, s in ERC20.items()},
    "Erc721Interface": {"balance_of": (ERC721["balance_of"], V), "owner_of": (ERC721["owner_of"], V),
                        "safe_transfer_from": (ERC721["safe_transfer_from_with_data"], W), "transfer_from": (ERC721["transfer_from"], W),
                        "approve": (ERC721["approve"], W), "set_approval_for_all": (ERC721["set_approval_for_all"], W),
                        "get_approved": (ERC721["get_approved"], V), "is_approved_for_all": (ERC721["is_approved_for_all"], V)},
    "IERC721Receiver": {"on_erc_721_received": ("onERC721Received(address,address,uint256,bytes)", W)},
    "IERC1155Receiver": {"on_erc_1155_received": ("onERC1155Received(address,address,uint256,uint256,bytes)", W),
                         "on_erc_1155_batch_received": ("onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)", W)},
    "IERC3156FlashBorrower": {"on_flash_loan": ("onFlashLoan(address,address,uint256,uint256,bytes)", W)},
}


def last(p):
    return p.split("<")[0].split("::")[-1] if not p.startswith("<") else p


def p_abi(R):
    routes(R)
    erc165(R)
    events(R)
    errors(R)
    proxies(R)


def arm(b, bb):
    seen, st, calls, deny = set(), [bb], [], False
    while st:
        x = st.pop()
        if x in seen or b["bbs"][x].get("cl"):
            continue
        seen.add(x)
        t = b["bbs"][x]["t"]
        if t[0] == "call":
            f = t[1]
            if f.get("name") == "deny_value":
                deny = True
            elif f.get("path", "").split("::")[0].lstrip("<") not in ("stylus_sdk", "core", "alloc", "alloy_sol_types", "alloy_primitives", "stylus_core"):
                calls.append(f["name"])
        st += succ(t)
    return calls, deny


def succ(t):
    k = t[0]
    if k == "goto" or k == "drop":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def routes(R):
    P = R.progs["contracts"]
    found = {}
    for b in P.bodies.values():
        if b["name"] == "route" and b["local"] and "#promoted" not in b["key"] and "Router<" in b.get("impl_trait", ""):
            found[last(P.types[b["impl_self"]]["path"])] = b
    for ty, want in ROUTES.items():
        b = found.get(ty)
        if not b:
            R.violation(f"{ty}:router", f"{ty} does not expose an external interface any more")
            continue
        R.functions.add(b["path"])
        t = b["bbs"][0]["t"]
        if t[0] != "switch":
            R.undecided.append(f"{ty}: dispatch shape not recognised")
            continue
        got = {}
        for v, bb in t[2]:
            c, deny = arm(b, bb)
            got[int(v)] = (c, deny)
        R.paths += len(got)
        names = {selector(s): (m, s) for m, s in want.items()}
        for s, (m, sig) in names.items():
            k = f"{ty}:{sig}"
            if s not in got:
                R.violation(k, f"{ty} does not answer {sig} (selector {s:#010x})", f"{b['file']}:{b['line']}")
                continue
            c, deny = got[s]
            if c != [m]:
                R.violation(k, f"{ty} routes {sig} to {c} instead of {m}", f"{b['file']}:{b['line']}")
            elif not deny:
                R.violation(k, f"{ty}::{m} accepts native currency that nothing accounts for (payable)", f"{b['file']}:{b['line']}")
            else:
                R.obligation(k)
        for s, (c, deny) in got.items():
            if s not in names:
                R.violation(f"{ty}:{s:#010x}", f"{ty} exposes {c} (selector {s:#010x}), which is not part of its documented interface", f"{b['file']}:{b['line']}")
    for ty, b in found.items():
        if ty not in ROUTES:
            R.notes.append(f"router of {ty} is new and has no table")


def erc165(R):
    P = R.progs["contracts"]
    seen = set()
    for b in list(P.bodies.values()):
        if not (b["name"] == "supports_interface" and b["local"] and "#promoted" not in b["key"] and "impl_self" in b):
            continue
        ty = last(P.types[b["impl_self"]].get("path", "?"))
        if ty not in IDS:
            continue
        seen.add(ty)
        want = set(IDS[ty]) | {I165}
        try:
            eng, outs, args = R.analyse(b)
        except (Unsupported, Budget) as e:
            R.undecided.append(f"{ty}::supports_interface: {e}")
            continue
        R.functions.add(b["path"])
        R.paths += len(outs)
        x = args[-1]
        bad = None
        consts = set(want)

        def collect(t):
            for u in subterms(t):
                if u.op == "int":
                    consts.add(u.a[0])
        for o in outs:
            for c, _ in o.st.order:
                collect(c)
            if o.val is not None:
                collect(o.val)
        other = 0xFFFFFFFF
        while other in want:
            other -= 1
        near = {w ^ (1 << k) for w in want for k in range(32)} | {(w & ~(255 << k)) | b for w in want for k, b in ((24, 255 << 24), (24, 0), (0, 255), (0, 0))}
        for v in sorted(consts | {other, 0} | near):
            if v >> 32:
                continue
            res = set()
            for o in outs:
                if all(ev(c, x, v) in (p, None) for c, p in o.st.order):
                    r = ev(o.val, x, v) if o.kind == "ok" else "revert"
                    res.add(r)
            if res == {v in want}:
                continue
            if None in res:
                R.undecided.append(f"{ty}::supports_interface({v:#010x}): {res}")
                bad = True
                break
            R.violation(f"{ty}:supports_interface", f"{ty}: interface {v:#010x} is answered {sorted(map(str, res))}, expected {v in want}",
                        f"{b['file']}:{b['line']}")
            bad = True
            break
        if not bad:
            R.obligation(f"{ty}::supports_interface")
    for ty in IDS:
        if ty not in seen:
            R.violation(f"{ty}:erc165", f"{ty} does not answer interface queries any more")


def ev(t, x, v):
    """value of a boolean term for argument x = v (None if it depends on something else)"""
    if not isinstance(t, Term):
        return None
    def sub(u):
        if u is x:
            return Int(v)
        if u.op == "elem" and u.a[0].op == "int" and u.a[1].op == "int" and u.a[1].a[0] < 4:
            return Int(u.a[0].a[0] >> (24 - 8 * u.a[1].a[0]) & 255)
        return None
    r = rewrite(t, sub, {})
    if r is TRUE or r is FALSE:
        return r is TRUE
    try:
        return bool(fold(r, {}))
    except Exception:
        return None


def soltuple(s):
    """'(alloy_sol_types::sol_data::Uint<256>, ..)' -> ['uint256', ..]"""
    s = s.replace("alloy_sol_types::sol_data::", "").strip()
    s = s[1:-1].rstrip(",")
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [solty(o.strip()) for o in out]


def solty(o):
    import re
    m = re.fullmatch(r"Uint<(\d+)>", o)
    if m:
        return "uint" + m.group(1)
    m = re.fullmatch(r"Int<(\d+)>", o)
    if m:
        return "int" + m.group(1)
    m = re.fullmatch(r"FixedBytes<(\d+)>", o)
    if m:
        return "bytes" + m.group(1)
    m = re.fullmatch(r"Array<(.*)>", o)
    if m:
        return solty(m.group(1)) + "[]"
    return {"Address": "address", "Bool": "bool", "String": "string", "Bytes": "bytes"}.get(o, o)


def const_str(v):
    while isinstance(v, dict) and "ref" in v:
        v = v["ref"]
    return v.get("str") if isinstance(v, dict) else None


def events(R):
    P = R.progs["contracts"]
    got = {}
    for i in P.impls:
        if i["trait"] and i["trait"].startswith("alloy_sol_types::SolEvent"):
            got[i["self"]] = i
    sig, anon = {}, {}
    for c in P.consts.values() if isinstance(P.consts, dict) else P.consts:
        if c.get("trait", "").startswith("alloy_sol_types::SolEvent"):
            if c["name"] == "SIGNATURE":
                sig[c["self"]] = const_str(c["val"])
            elif c["name"] == "ANONYMOUS":
                anon[c["self"]] = c["val"]
    for (mod, name), f in EVENTS.items():
        c = [s for s in got if s.endswith(f"::{name}") and f"{mod}::" in s and s.replace("::sol", "").split("::")[-2] == mod]
        k = f"{mod}::{name}"
        if not c:
            R.violation(k, f"event {name} of {mod} is not declared any more")
            continue
        s = c[0]
        i = got[s]
        want = f"{name}({','.join(x[1:] for x in f)})"
        a = dict(i["assoc"])
        top, data = soltuple(a["TopicList"]), soltuple(a["DataTuple"])
        wt = ["bytes32"] + [x[1:] for x in f if x[0] == "i"]
        wd = [x[1:] for x in f if x[0] == "d"]
        wh = f"{i['file']}:{i['line']}"
        if sig.get(s) != want:
            R.violation(k, f"event signature is {sig.get(s)}, expected {want}", wh)
        elif top != wt:
            R.violation(k, f"event {want} has topics {top}, expected {wt}: a different set of fields is indexed", wh)
        elif data != wd:
            R.violation(k, f"event {want} carries {data} as data, expected {wd}", wh)
        elif anon.get(s) not in ({"i": "0"}, None, False):
            R.violation(k, f"event {want} is anonymous", wh)
        else:
            b = [b for b in P.bodies.values() if b["name"] == "topics" and b["local"] and b["path"].endswith(f"SolEvent for {s}>::topics")]
            adt = P.adts.get(s)
            if b and adt:
                names = [n for n, _ in adt["vis"]]
                try:
                    eng, outs, args = R.analyse(b[0])
                except (Unsupported, Budget) as e:
                    R.undecided.append(f"{k}: topics {e}")
                    continue
                wantt = [Int(int.from_bytes(keccak256(want.encode()), "big"))]
                gott = list(afields(outs[0].val)) if len(outs) == 1 and is_agg(outs[0].val) else None
                if gott is None:
                    R.undecided.append(f"{k}: topics have more than one path")
                    continue
                idx = [n for n, x in zip(names, f) if x[0] == "i"]
                sh = [show(x).split(".")[-1] for x in gott[1:]]
                if gott[0] is not wantt[0]:
                    R.violation(k, f"event {want} has topic {show(gott[0])}", wh)
                    continue
                if sh != idx:
                    R.violation(k, f"event {want} indexes the fields {sh}, expected {idx}", wh)
                    continue
            R.obligation("event " + want)


def errors(R):
    P = R.progs["contracts"]
    seen = set()
    for c in P.consts.values() if isinstance(P.consts, dict) else P.consts:
        tr = c.get("trait", "")
        if c["name"] != "SIGNATURE":
            continue
        n = c["self"].split("::")[-1]
        tab = ERRORS if tr.startswith("alloy_sol_types::SolError") else CALLS if tr.startswith("alloy_sol_types::SolCall") else None
        if tab is None or n not in tab:
            continue
        seen.add(n)
        s = const_str(c["val"])
        if s != tab[n]:
            R.violation(f"{c['self']}", f"signature is {s}, expected {tab[n]}", f"{c['file']}:{c['line']}")
        else:
            R.obligation(("error " if tab is ERRORS else "call ") + s)
    for n in ERRORS:
        if n not in seen:
            R.notes.append(f"error {n} is not declared")


def proxies(R):
    P = R.progs["contracts"]
    for b in P.bodies.values():
        if not (b["exp"] and b["local"]) or "#promoted" in b["key"]:
            continue
        kind = P.is_xcall(b)
        if not kind:
            continue
        parts = b["path"].split("::")
        it = parts[-2] if len(parts) > 1 else ""
        tab = PROXIES.get(it.split("<")[0])
        if not tab or b["name"] not in tab:
            continue
        sig, wk = tab[b["name"]]
        k = f"{it}::{b['name']}"
        wh = f"{b['file']}:{b['line']}"
        R.functions.add(b["path"])
        sel, params, enc = None, None, None
        defs = {}
        for bb in b["bbs"]:
            if bb.get("cl"):
                continue
            for s in bb["s"]:
                if s[0] == "=" and len(s[1]) == 1:
                    defs.setdefault(s[1][0], []).append(s[2])
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "array":
                    vs = [o.get("c", {}).get("val", {}).get("i") for o in s[2][2]]
                    if len(vs) == 4 and all(v is not None for v in vs):
                        sel = int.from_bytes(bytes(int(v) for v in vs), "big")
            t = bb["t"]
            if t[0] == "call" and t[1].get("name") == "abi_encode_params":
                enc = t
        if enc is not None:
            params = argorder(defs, enc[2][0])
        if sel is None:
            R.undecided.append(f"{k}: call data shape not recognised")
        elif sel != selector(sig):
            R.violation(k, f"outgoing call uses selector {sel:#010x}, the standard function {sig} has {selector(sig):#010x}", wh)
        elif kind != wk:
            R.violation(k, f"{sig} is performed as {kind}, expected {wk}", wh)
        elif params is not None and params != list(range(3, 3 + len(params))):
            R.violation(k, f"arguments of {sig} are encoded in the order {params}", wh)
        else:
            R.obligation(f"outgoing {sig}")


def argorder(defs, op):
    def chase(o, d=0):
        if d > 12 or "p" not in o:
            return None
        p = o["p"]
        l = p[0]
        if l not in defs:
            return l
        if len(defs[l]) != 1:
            return None
        r = defs[l][0]
        if r[0] == "use":
            return chase(r[1], d + 1)
        if r[0] == "ref":
            return chase({"p": r[1]}, d + 1)
        return ("agg", r) if r[0] == "agg" else None
    r = chase(op)
    if isinstance(r, tuple) and r[1][1] == "tuple":
        out = [chase(o) for o in r[1][2]]
        if all(isinstance(o, int) for o in out):
            return out
    return None
