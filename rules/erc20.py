from .common import *


def ledger(R, t, nologs):
    """every entry point of the ERC-20 ledger"""
    O = dict(nologs=nologs)
    me = ("self",)
    V = R.verify
    V("Erc20::_update", R.fn("Erc20", "_update"), lambda S: t.update(S, me, *S.args[1:]) or UNIT, **O)
    V("Erc20::_mint", R.fn("Erc20", "_mint"), lambda S: t.mint(S, me, *S.args[1:]) or UNIT, **O)
    V("Erc20::_burn", R.fn("Erc20", "_burn"), lambda S: t.burn(S, me, *S.args[1:]) or UNIT, **O)
    V("Erc20::transfer", R.fn("Erc20", "transfer", "IErc20"), lambda S: t.transfer(S, me, SENDER, *S.args[1:]) or TRUE, **O)

    def tf(S):
        f, to, v = S.args[1:]
        t.spend(S, me, f, SENDER, v)
        t.transfer(S, me, f, to, v)
        return TRUE
    V("Erc20::transfer_from", R.fn("Erc20", "transfer_from", "IErc20"), tf, **O)
    V("Erc20::burn", R.fn("Erc20", "burn", "IErc20Burnable"), lambda S: t.burn(S, me, SENDER, S.args[1]) or UNIT, **O)

    def bf(S):
        a, v = S.args[1:]
        t.spend(S, me, a, SENDER, v)
        t.burn(S, me, a, v)
        return UNIT
    V("Erc20::burn_from", R.fn("Erc20", "burn_from", "IErc20Burnable"), bf, **O)


def allowances(R, t, nologs):
    O = dict(nologs=nologs)
    me = ("self",)
    R.verify("Erc20::approve", R.fn("Erc20", "approve", "IErc20"), lambda S: t.approve(S, me, SENDER, S.args[1], S.args[2], True) or TRUE, **O)
    R.verify("Erc20::_spend_allowance", R.fn("Erc20", "_spend_allowance"), lambda S: t.spend(S, me, *S.args[1:]) or UNIT, **O)


def p_conservation(R):
    t = T20(R)
    if t.ok:
        ledger(R, t, True)


def p_authority(R):
    t = T20(R)
    if t.ok:
        allowances(R, t, True)
        ledger(R, t, True)


def p_events(R):
    t = T20(R)
    if t.ok:
        allowances(R, t, False)
        ledger(R, t, False)
