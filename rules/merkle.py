"""Merkle proofs and the commutative pair hash (P31)."""
from .common import *
from .structs import Undecided

KEC = "tiny_keccak::Keccak::v256"


def opname(t):
    return t.a[0] if t.op == "app" and isinstance(t.a[0], str) else t.op


def digest(t):
    """(hasher origin, [chunks]) of a finished hash"""
    n = opname(t)
    if not isinstance(n, str) or "finalize" not in n:
        if t.op in ("lv", "arg", "elem", "int", "bytes"):
            raise Mismatch(f"uses {show(t)[:60]} as it is instead of a hash of the pair")
        raise Undecided(f"not a finished hash: {show(t)[:100]}")
    kids = [x for x in t.a if isinstance(x, Term)]
    cur = None
    for x in kids:
        if "update" in str(opname(x)) or is_origin(x):
            cur = x
            break
    if cur is None:
        raise Undecided(f"hash state {show(t)[:100]}")
    chunks = []
    while "update" in str(opname(cur)):
        ks = [x for x in cur.a if isinstance(x, Term)]
        if len(ks) < 2:
            raise Undecided("hash update")
        ks = ks[-2:]
        st, data = ks
        chunks[:0] = flat(data)
        cur = st
    if not is_origin(cur):
        raise Undecided(f"hasher origin {show(cur)[:100]}")
    return cur, chunks


def flat(d):
    if d.op in ("concat", "cat"):
        out = []
        for x in d.a:
            if isinstance(x, Term):
                out += flat(x)
        return out
    return [d]


def is_origin(t):
    n = str(opname(t))
    return n.startswith("tiny_keccak::") and not ("update" in n or "finalize" in n) or n.endswith("build_hasher")


def check_origin(t, builder=False):
    n = str(opname(t))
    if n.startswith("tiny_keccak::") and n != KEC:
        raise Mismatch(f"hashes with {n} instead of Keccak-256")
    return True


def sorted_pair(st, t, x, y, extra=()):
    """t is hash(min(x, y) ++ max(x, y)) under the facts of st"""
    org, ch = digest(t)
    check_origin(org)
    if len(ch) != 2:
        raise Mismatch(f"the pair hash covers {len(ch)} inputs instead of 2")
    p, q = (st.canon(c) for c in ch)
    x, y = st.canon(x), st.canon(y)
    if {p, q} != {x, y}:
        raise Mismatch(f"hashes ({show(p)[:60]}, {show(q)[:60]}) instead of the pair ({show(x)[:60]}, {show(y)[:60]})")
    if p is q:
        return
    if st.decide(Lt(q, p)) is False or st.decide(Lt(p, q)) is True:
        return
    if st.decide(Lt(q, p)) is True:
        raise Mismatch("hashes the larger value first")
    raise Mismatch("the order of the pair does not depend on its values, the hash is not commutative")


def loops_of(o):
    return [e[1][0] for e in o.st.trace if e[0] == "loop"]


def guard(R, name, body, fn, prog):
    if body is None:
        R.obligation(name + " (absent)", True)
        return
    try:
        eng, outs, args = R.analyse(body, prog=prog)
        fn(eng, outs, args)
    except Mismatch as m:
        un = [u for o in outs for u in eng.opaque_in(o) if not u.startswith(("tiny_keccak::", "<tiny_keccak::"))]
        if un:
            R.undecided.append(f"{name}: depends on unmodelled {un[:3]}: {m.msg[:120]}")
            R.obligation(name, None)
            return None
        R.violation(f"{name}: {m.msg}", f"{name} ({body['path']}): {m.msg}", f"{body['file']}:{body['line']}")
        R.obligation(name, False)
        return
    except (Undecided, Unsupported, Budget, RecursionError, TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
        R.undecided.append(f"{name}: {e!r}")
        R.obligation(name, None)
        return
    R.obligation(name, True)


def one_loop(outs):
    ls = {i for o in outs for i in loops_of(o)}
    if len(ls) > 1:
        raise Undecided("more than one loop")
    return next(iter(ls)) if ls else None


def root_check(o, v, root, acc_ok):
    """v is the comparison root == acc"""
    if v.op != "eq":
        if v in (TRUE, FALSE):
            # branch form: decided by a fact
            for c, p in o.st.order:
                if c.op == "eq" and root in c.a and p == (v is TRUE):
                    other = c.a[0] if c.a[1] is root else c.a[1]
                    if acc_ok(other):
                        return
            raise Mismatch(f"answers {show(v)} without comparing with the root")
        if v.op in ("or", "and") or opname(v) in ("contains", "any"):
            raise Mismatch(f"answers {show(v)[:100]} instead of comparing the rebuilt root with the given one")
        raise Undecided(f"result {show(v)[:100]}")
    if root not in v.a:
        raise Mismatch("does not compare with the given root")
    other = v.a[0] if v.a[1] is root else v.a[1]
    if not acc_ok(other):
        raise Mismatch(f"compares the root with {show(other)[:100]}")


def single(eng, outs, args):
    proof, root, leaf = args[:3]
    info = one_loop(outs)
    if info is None:
        raise Mismatch("the proof is not walked")
    if len(info.carried) != 1:
        raise Undecided("several carried values")
    lv, init, nexts = info.carried[0]
    if init is not leaf:
        raise Mismatch(f"starts from {show(init)[:80]} instead of the leaf")
    k = info.k
    n = mk("len", proof)
    for b, nx in zip(info.backs, nexts):
        if b.decide(Lt(k, n)) is not True:
            raise Undecided("iteration range")
        h = elem_of(proof, k)
        sorted_pair(b, nx, lv, h)
    for o in outs:
        if o.kind != "ok":
            raise Mismatch(f"can fail ({o.msg})")
        if not loops_of(o) or o.st.decide(Lt(k, n)) is not False:
            raise Mismatch("answers before the whole proof has been used")
        root_check(o, o.val, root, lambda x: x is lv)


def elem_of(s, i):
    return mk("elem", s, i)


def multi(eng, outs, args):
    proof, flags, root, leaves = args[:4]
    info = one_loop(outs)
    if info is None:
        raise Mismatch("the flags are not walked")
    np_, nf, nl = (mk("len", x) for x in (proof, flags, leaves))
    H = hp = pp = None
    rest = []
    k = info.k
    for lv, init, nexts in info.carried:
        if all(x.op == "push" and x.a[0] is lv for x in nexts):
            H = (lv, init, nexts)
        else:
            rest.append((lv, init, nexts))
    if H is None:
        raise Undecided("no growing list of hashes")
    if H[1].op == "agg" and not afields(H[1]) and any(contains(x.a[1], leaves) for x in H[2]):
        return multi2(outs, args, info, H, rest)
    if H[1] is not leaves:
        raise Mismatch(f"starts from {show(H[1])[:80]} instead of the leaves")
    lenH = mk("len", H[0])
    for lv, init, nexts in rest:
        used_h = any(contains(n.a[1], elem_of(H[0], lv)) or contains(n.a[1], elem_of(H[0], add(64, lv, ONE))) for n in H[2])
        used_p = any(contains(n.a[1], elem_of(proof, lv)) for n in H[2])
        if used_h and not used_p and hp is None:
            hp = (lv, init, nexts)
        elif used_p and not used_h and pp is None:
            pp = (lv, init, nexts)
        else:
            raise Undecided(f"carried value {show(lv)}")
    if hp is None:
        raise Mismatch("hashes are not consumed in order")
    if pp is None:
        raise Mismatch("the proof is not consumed in order")
    if hp[1] is not ZERO or pp[1] is not ZERO:
        raise Mismatch("does not start at the first leaf / first proof element")
    fl = elem_of(flags, k)
    h0, h1, p0 = hp[0], add(64, hp[0], ONE), pp[0]
    seen = set()
    for i, b in enumerate(info.backs):
        f = b.decide(fl)
        if b.decide(Lt(k, nf)) is not True:
            raise Undecided("iteration range")
        if f is None:
            raise Mismatch("an iteration does not depend on its flag")
        seen.add(f)
        if f:
            y, dh, dp = elem_of(H[0], h1), 2, 0
        else:
            y, dh, dp = elem_of(proof, p0), 1, 1
        sorted_pair(b, H[2][i].a[1], elem_of(H[0], h0), y)
        if hp[2][i] is not add(64, h0, Int(dh)):
            raise Mismatch(f"flag {f}: consumes {show(sub(64, hp[2][i], h0))} hashes instead of {dh}")
        if pp[2][i] is not add(64, p0, Int(dp)):
            raise Mismatch(f"flag {f}: consumes {show(sub(64, pp[2][i], p0))} proof elements instead of {dp}")
    if seen != {True, False}:
        raise Mismatch("one of the flag values is never processed")
    bal = Eq(add(64, nl, np_), add(64, nf, ONE))
    for o in outs:
        st = o.st
        inloop = bool(loops_of(o))
        m = st.decide(bal)
        if not inloop:
            unlooped(o, root, proof, flags, leaves)
            continue
        if o.kind == "ok":
            if m is not True:
                raise Mismatch("accepts a proof whose number of leaves, proof elements and flags does not match")
            if st.decide(Eq(nl, ZERO)) is not False:
                raise Mismatch("rebuilds a tree without any leaf")
            if st.decide(Eq(lenH, ZERO)) is True:
                continue  # unreachable: the list starts with at least one leaf and only grows
            if st.decide(Lt(k, nf)) is not False:
                raise Mismatch("answers before all flags have been used")
            # every iteration consumes two elements and adds one: the cursor ends at the last hash
            good = {elem_of(H[0], h0)} | {elem_of(H[0], sub(64, add(64, nf, nl), ONE)), elem_of(H[0], sub(64, lenH, ONE)), elem_of(H[0], add(64, nf, sub(64, nl, ONE)))}
            root_check(o, o.val, root, lambda x: x in good or (x.op == "app" and x.a[0] == "last" and x.a[1] is H[0]))
            continue
        # failures inside the walk
        if st.decide(Lt(k, nf)) is False:
            if st.decide(Eq(nl, ZERO)) is False and (st.decide(Lt(sub(64, add(64, nf, nl), ONE), lenH)) is False or st.decide(Lt(h0, lenH)) is False
                                                    or st.decide(Eq(lenH, ZERO)) is True):
                continue  # unreachable: the list has leaves + flags entries here
            raise Mismatch("rejects a rebuilt root")
        f = st.decide(fl)
        if st.decide(Lt(h0, lenH)) is False and o.kind == "panic" and st.decide(Eq(nl, ZERO)) is not False:
            raise Mismatch("panics when there is no leaf for a non-trivial tree")
        if o.kind == "panic" and st.decide(Lt(h0, lenH)) is True:
            raise Mismatch("panics when the proof runs out of elements")
        if st.decide(Lt(h0, lenH)) is False or (f is True and st.decide(Lt(h1, lenH)) is False) or (f is False and st.decide(Lt(p0, np_)) is False):
            continue
        raise Mismatch("rejects a proof whose elements are all available")


def multi2(outs, args, info, H, rest):
    """the leaves are not copied: elements are taken from the leaves first, then from the list of computed hashes"""
    proof, flags, root, leaves = args[:4]
    np_, nf, nl = (mk("len", x) for x in (proof, flags, leaves))
    k, lenH = info.k, mk("len", H[0])

    def uses(s, i):
        return any(contains(n.a[1], elem_of(s, j)) for n in H[2] for j in (i, add(64, i, ONE)))
    lp = hp = pp = None
    one = False
    for c in rest:
        lv = c[0]
        u = (uses(leaves, lv), uses(H[0], lv), uses(proof, lv))
        if u == (True, False, False) and uses(H[0], sub(64, lv, nl)) and lp is hp is None:
            lp = hp = c
            one = True
        elif u == (True, False, False) and lp is None:
            lp = c
        elif u == (False, True, False) and hp is None:
            hp = c
        elif u == (False, False, True) and pp is None:
            pp = c
        else:
            raise Undecided(f"carried value {show(lv)}")
    if lp is None or hp is None:
        raise Undecided("cursor into leaves and hashes")
    if pp is None:
        raise Mismatch("the proof is not consumed in order")
    if any(c[1] is not ZERO for c in (lp, hp, pp)):
        raise Mismatch("does not start at the first leaf / first proof element")

    def take(b, l, h):
        """(element, cursors after, available) of the next queue element"""
        d = b.decide(Lt(l, nl))
        if d is None:
            return None
        if d:
            return elem_of(leaves, l), add(64, l, ONE), add(64, h, ONE) if one else h, True
        i = sub(64, h, nl) if one else h
        return elem_of(H[0], i), add(64, l, ONE) if one else l, add(64, h, ONE), b.decide(Lt(i, lenH))
    fl, p0 = elem_of(flags, k), pp[0]
    seen = set()
    for i, b in enumerate(info.backs):
        f = b.decide(fl)
        if b.decide(Lt(k, nf)) is not True:
            raise Undecided("iteration range")
        if f is None:
            raise Mismatch("an iteration does not depend on its flag")
        seen.add(f)
        t = take(b, lp[0], hp[0])
        if t is None:
            raise Undecided("whether leaves are left")
        x, l, h, _ = t
        if f:
            t = take(b, l, h)
            if t is None:
                raise Undecided("whether leaves are left")
            y, l, h, _ = t
            dp = 0
        else:
            y, dp = elem_of(proof, p0), 1
        sorted_pair(b, H[2][i].a[1], x, y)
        if lp[2][i] is not l or hp[2][i] is not h:
            raise Mismatch(f"flag {f}: the leaves and hashes used are not all consumed")
        if pp[2][i] is not add(64, p0, Int(dp)):
            raise Mismatch(f"flag {f}: consumes {show(sub(64, pp[2][i], p0))} proof elements instead of {dp}")
    if seen != {True, False}:
        raise Mismatch("one of the flag values is never processed")
    bal = Eq(add(64, nl, np_), add(64, nf, ONE))
    # every iteration consumes two elements and adds one: the cursor ends at the last hash
    good = {elem_of(H[0], sub(64, nf, ONE)), elem_of(H[0], sub(64, lenH, ONE)), elem_of(H[0], sub(64, hp[0], nl) if one else hp[0])}
    for o in outs:
        st = o.st
        if not loops_of(o):
            unlooped(o, root, proof, flags, leaves)
            continue
        if o.kind == "ok":
            if st.decide(bal) is not True:
                raise Mismatch("accepts a proof whose number of leaves, proof elements and flags does not match")
            if st.decide(Eq(nl, ZERO)) is not False:
                raise Mismatch("rebuilds a tree without any leaf")
            if st.decide(Eq(lenH, ZERO)) is True:
                continue  # unreachable: there is at least one flag and every iteration adds a hash
            if st.decide(Lt(k, nf)) is not False:
                raise Mismatch("answers before all flags have been used")
            root_check(o, o.val, root, lambda x: x in good or (x.op == "app" and x.a[0] == "last" and x.a[1] is H[0]))
            continue
        if st.decide(Lt(k, nf)) is False:
            if st.decide(Eq(lenH, ZERO)) is True or st.decide(Lt(sub(64, nf, ONE), lenH)) is False:
                continue  # unreachable: the list has one hash for every flag here
            raise Mismatch("rejects a rebuilt root")
        f = st.decide(fl)
        t = take(st, lp[0], hp[0])
        if t is None:
            raise Undecided("whether leaves are left")
        if t[3] is False and st.decide(Eq(nl, ZERO)) is False:
            continue  # unreachable: each iteration takes at most two elements and adds one
        if o.kind == "panic":
            raise Mismatch("panics when the proof runs out of elements")
        if f is False and st.decide(Lt(p0, np_)) is False:
            continue
        if f is True:
            t = take(st, t[1], t[2])
            if t is None:
                raise Undecided("whether leaves are left")
            if t[3] is False:
                continue
        raise Mismatch("rejects a proof whose elements are all available")


def unlooped(o, root, proof, flags, leaves):
    """an outcome before any flag is processed"""
    np_, nf, nl = (mk("len", x) for x in (proof, flags, leaves))
    st = o.st
    m = st.decide(Eq(add(64, nl, np_), add(64, nf, ONE)))
    z = st.decide(Eq(nf, ZERO))
    e = st.decide(Eq(nl, ZERO))
    if e is None and z and m:
        # leaves + proof elements = 1
        q = st.decide(Eq(np_, ZERO))
        e = None if q is None else not q
    if o.kind == "panic" and m is not False and not (z and e and st.decide(Eq(np_, ZERO))):
        raise Mismatch("panics on a proof it should answer or reject with an error")
    if o.kind != "ok":
        if m is False or (z is False and e is True) or (z is True and e is True and st.decide(Eq(np_, ZERO)) is True):
            return
        raise Mismatch("rejects a well-formed proof")
    if m is not True:
        raise Mismatch("accepts a proof whose number of leaves, proof elements and flags does not match")
    if z is not True:
        raise Mismatch("answers without using the flags")
    if e is False:
        w = elem_of(leaves, ZERO)
    elif e is True:
        w = elem_of(proof, ZERO)
    else:
        raise Mismatch("the trivial tree does not distinguish leaf from proof element")
    root_check(o, o.val, root, lambda x: x is w)


def p_merkle(R):
    P = R.progs["crypto"]

    def bodies(name, tail):
        return [b for b in P.bodies.values() if b["name"] == name and b["local"] and "#promoted" not in b["key"] and tail in b["path"]]
    for nm, fn in (("verify", single), ("verify_with_builder", single), ("verify_multi_proof", multi), ("verify_multi_proof_with_builder", multi)):
        bs = bodies(nm, "merkle::Verifier")
        if not bs:
            R.violation(f"{nm}:missing", f"merkle verifier has no {nm}")
        for i, b in enumerate(bs):
            guard(R, f"Verifier::{nm}" + (f"#{i}" if i else ""), b, fn, P)

    def comm(eng, outs, args):
        a, b, s = args[:3]
        for o in outs:
            if o.kind != "ok":
                raise Mismatch("can fail")
            st = o.st
            p, q = order_in(o.val, a, b, st.canon)
            if p is q:
                continue
            if st.decide(Lt(q, p)) is False or st.decide(Lt(p, q)) is True:
                continue
            if st.decide(Lt(q, p)) is True:
                raise Mismatch("hashes the larger value first")
            raise Mismatch("the order of the pair does not depend on its values, the hash is not commutative")

    def pair(eng, outs, args):
        a, b, s = args[:3]
        for o in outs:
            if o.kind != "ok":
                raise Mismatch("can fail")
            cn = o.st.canon
            if order_in(o.val, a, b, cn) != (cn(a), cn(b)):
                raise Mismatch("hashes the pair in the wrong order")
    def one(eng, outs, args):
        for o in outs:
            if o.kind != "ok":
                raise Mismatch("can fail")
            cn = o.st.canon
            if not contains(o.val, args[1]) and not contains(o.val, cn(args[1])):
                raise Mismatch("the value does not enter the hash")
            seq = entered(o.val, {cn(args[1])}, cn)
            if len(seq) != 1:
                raise Mismatch(f"the value enters the hash {len(seq)} times instead of once")
    for nm, fn in (("hash_pair", pair), ("commutative_hash_pair", comm), ("hash_one", one)):
        bs = [b for b in bodies(nm, "hash::") if b["path"].endswith("hash::" + nm) or nm == "hash_one"]
        guard(R, nm, bs[0] if bs else None, fn, P)


def order_in(t, a, b, cn):
    """order in which a and b enter the finished hash"""
    want = {cn(a), cn(b)}
    seq = entered(t, want, cn)
    if len(seq) != 2 or {*seq} != want:
        raise Mismatch(f"hashes {[show(x)[:40] for x in seq]} instead of the pair")
    return tuple(seq)


def entered(t, want, cn):
    """the sequence of the wanted values that enters the finished hash t"""
    if "finalize" not in str(opname(t)):
        raise Undecided(f"not a finished hash: {show(t)[:100]}")
    seq = []
    cur = [x for x in t.a if isinstance(x, Term)][0]
    for _ in range(8):
        ks = [x for x in cur.a if isinstance(x, Term)]
        hit = [x for x in ks if cn(x) in want]
        if not hit:
            break
        seq[:0] = [cn(x) for x in hit]
        nx = [x for x in ks if x not in hit and any(contains(x, y) for y in want)]
        if not nx:
            break
        cur = nx[0]
    return seq
