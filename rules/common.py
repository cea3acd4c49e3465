"""Shared pieces of the effect tables."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.terms import *          # noqa
from engine.interp import Program, Unsupported, Budget  # noqa
from engine.spec import *           # noqa
from engine.spec import Rule, Mismatch


class Progs(dict):
    def __init__(self, d):
        self.d = d

    def __missing__(self, k):
        f = {"contracts": "openzeppelin_stylus", "crypto": "openzeppelin_crypto", "proc": "openzeppelin_stylus_proc"}[k]
        self[k] = Program(os.path.join(self.d, f + ".json"))
        return self[k]


def ovf_add(a, b, bits=256):
    return Ovf("a", bits, a, b)


def ovf_mul(a, b, bits=256):
    return Ovf("m", bits, a, b)


def nz(x):
    return Not(Eq(x, ZERO))


def is0(x):
    return Eq(x, ZERO)


def stor(a):
    """root path of a storage argument"""
    assert a.op == "stor", a
    return tuple(a.a[1:])


def has_code(a):
    return mk("app", "has_code", a)


class Loc:
    """location builder relative to a root"""

    def __init__(self, g):
        self.g = g

    def at(self, root):
        g = self.g
        return lambda *ks: g(*ks, root=root)


def field(R, ty, suffix, prog="contracts", nth=0):
    """name of the nth storage field of struct `ty` whose type ends with suffix"""
    P = R.progs[prog]
    for t in P.types:
        if t["k"] == "adt" and (t["path"] == ty or t["path"].endswith("::" + ty)) and t.get("variants"):
            c = [n for n, i in t["variants"][0]["f"] if P.types[i]["s"].endswith(suffix) or (P.types[i]["k"] == "adt" and P.types[i]["path"].endswith(suffix))]
            if len(c) > nth:
                return c[nth]
    R.violation(f"{ty}:{suffix}", f"storage field of type {suffix} in {ty} not found")
    return None


class T20:
    """ERC-20 ledger tables at a storage root"""

    def __init__(self, R):
        self.R = R
        self.bal = R.getter("Erc20::balance_of", R.fn("Erc20", "balance_of", "IErc20"), 1)
        self.al = R.getter("Erc20::allowance", R.fn("Erc20", "allowance", "IErc20"), 2)
        self.sup = R.getter("Erc20::total_supply", R.fn("Erc20", "total_supply", "IErc20"), 0)
        self.ok = bool(self.bal and self.al and self.sup)

    def update(self, S, root, f, t, v):
        bal, sup = self.bal, self.sup
        if S.cond(is0(f)):
            s = S.load(sup(root=root))
            S.require(Not(ovf_add(s, v)))
            S.store(sup(root=root), add(256, s, v))
        else:
            b = S.load(bal(f, root=root))
            S.require(Not(Lt(b, v)))
            S.store(bal(f, root=root), sub(256, b, v))
        if S.cond(is0(t)):
            S.store(sup(root=root), sub(256, S.load(sup(root=root)), v))
        else:
            S.store(bal(t, root=root), add(256, S.load(bal(t, root=root)), v))
        S.log("Transfer", f, t, v)

    def mint(self, S, root, a, v):
        S.require(nz(a))
        self.update(S, root, ZERO, a, v)

    def burn(self, S, root, a, v):
        S.require(nz(a))
        self.update(S, root, a, ZERO, v)

    def transfer(self, S, root, f, t, v):
        S.require(nz(f))
        S.require(nz(t))
        self.update(S, root, f, t, v)

    def approve(self, S, root, o, s, v, emit):
        S.require(nz(o))
        S.require(nz(s))
        S.store(self.al(o, s, root=root), v)
        if emit is True or (emit is not False and S.cond(emit)):
            S.log("Approval", o, s, v)

    def spend(self, S, root, o, s, v):
        c = S.load(self.al(o, s, root=root))
        if S.cond(Eq(c, MAX256)):
            return
        S.require(Not(Lt(c, v)))
        self.approve(S, root, o, s, sub(256, c, v), False)


def quotient(S, n, d, up):
    """512-bit n / d rounded down or up, which must fit 256 bits"""
    if not up:
        t = q = mk("div", 512, n, d)
    else:
        exact = S.st.decide(Eq(mk("rem", 512, n, d), ZERO))     # the code may have tested the remainder
        f, c = mk("div", 512, n, d), mk("cdiv", 512, n, d)
        t, q = (f, f) if exact else (add(512, f, ONE), c) if exact is False else (c, c)
    S.require(Lt(t, Int(1 << 256)))
    return q
