from .common import Progs
from . import erc20, erc20ext, erc721, erc721b, erc1155, access, structs, mathr, abi, merkle, uintr, fpr2, curve, poseidon, errors

PROPS = {}
TB = ("trusts rustc's type checker and MIR construction, the MIR dump driver, the transfer functions for stylus-sdk/alloy/core/alloc calls, and the effect table")


def prop(pid, run, rule, floor=None, assumes=(), technique=None):
    PROPS[pid] = dict(title=pid, run=run, rule=rule + " Sound over all inputs and pre-states up to the stated assumptions; " + TB + ".",
                      assumes=["EVM/Stylus semantics: a call that returns an error or panics has no effect", "storage slots of distinct fields/keys are disjoint"] + list(assumes),
                      floor={"obligations": floor} if floor else {}, technique=technique)


ALL = "Every abstract path of the listed entry points (all callees inlined) must have exactly the revert condition, storage effects, outgoing calls and result of the table. "
prop("P01", erc20.p_conservation, ALL + "Entry points: transfer, transfer-from, mint, burn, burn-from and the update routine.", 8)
prop("P02", erc20.p_authority, ALL + "Entry points: approve, allowance spending, transfer-from, burn-from and the rest of the ledger.", 8)
def events(R):
    erc20.p_events(R)
    erc721.p_events(R)
    erc1155.p_events(R)
    erc721.p_consecutive(R)
    erc20ext.p_4626_move(R)
    erc20ext.p_permit(R)
    erc20ext.p_wrapper20(R)
    erc20ext.p_flash(R)
    erc721.p_wrapper(R)


prop("P03", events, ALL + "Here the emitted logs (event, argument provenance, order) are compared as well.", 8)
prop("P04", erc20ext.p_safe_erc20, ALL, 5)
prop("P05", erc20ext.p_ecdsa, ALL, 1)
prop("P06", erc20ext.p_eip712, ALL, 4)
prop("P07", erc20ext.p_nonces, ALL, 2)
prop("P08", erc20ext.p_permit, ALL, 1)
prop("P09", erc20ext.p_pausable, ALL, 4)
prop("P10", erc20ext.p_wrapper20, ALL, 3)
prop("P11", erc20ext.p_flash, ALL, 3)
prop("P12", erc20ext.p_4626_convert, ALL, 8)
prop("P13", erc20ext.p_4626_move, ALL, 4)
prop("P14", erc721.p_ledger, ALL, 8)
prop("P15", erc721.p_auth, ALL, 5)
prop("P16", erc721.p_safe, ALL, 3)
prop("P17", erc721.p_consecutive_full, ALL, 5, ["batches are minted before ids inside their ranges are minted individually (documented use: batch minting belongs to construction)"])
prop("P18", erc721.p_wrapper, ALL, 3)
prop("P19", erc721b.p_enumerable, ALL, 7, ["enumeration invariant: a listed token's recorded index points at it"])
prop("P20", erc1155.p_ledger, ALL, 8)
prop("P21", erc1155.p_auth, ALL, 5)
prop("P22", erc1155.p_events, ALL + "Logs and receiver callbacks are part of the table.", 8)
prop("P23", erc1155.p_supply, ALL, 8)
prop("P24", access.p_royalty, ALL, 4)
prop("P25", access.p_roles, ALL, 6)
prop("P26", access.p_ownable, ALL, 8)
prop("P27", access.p_vesting, ALL, 8)
prop("P37", erc721b.p_metadata, ALL, 10)
prop("P36", errors.p_errors, "Every rejecting path of every entry point: the reported error is taken apart and its arguments (in encoding order) are judged against the facts of that path; every error encoder is compared with the encoding of the error it carries. ", 100)
prop("P28", structs.p_checkpoints, "Push, latest and indexed reads are compared with an effect table; the lookup loops are decided by a bisection lemma (guard, midpoint inside the range, each bound moves only on the right side of the key comparison, justified initial bounds), then every exit path must return the value at the found position. ", 8, ["integer square root lemma 1 <= sqrt(n) <= n for n >= 1 (decided by P35)", "keys are strictly increasing (invariant established by push)"])
prop("P29", structs.p_bitmap, "Each operation must address bucket index/c and bit index%c' of one word with an injective pair; the written word is decided by a bit-sliced truth table over (mask bit, word bit). ", 4)
prop("P35", mathr.p_math, "Square root: per path the input interval is derived from the branch facts and a rational error bound of the integer Newton iteration must be below one before the final correction; average and multiply-divide: exact normal forms. ", 3)
prop("P30", abi.p_abi, "Dispatch table of every contract type (selector -> method, value refused, nothing else reachable), ERC-165 answers by case split on the compared constants, evaluated event/error/call signatures with the set of indexed fields, and selector, call kind and argument order of each outgoing proxy, all against keccak-256 of the standard signatures. ", 100)
prop("P31", merkle.p_merkle, "The proof walk is summarised as one generic iteration over its carried values; each iteration partition must hash exactly the next pair in sorted order and advance the cursors by the table's amounts, every accepting exit must have used all elements and compare the accumulated hash with the root, every rejecting exit must lie in the table's failure conditions. ", 6)

POLY = "Abstract interpretation over exact integers: every limb, carry and element is a polynomial in the inputs with interval bounds; "
prop("P32", lambda R: uintr.p_uint(R, getattr(R, "tier", "quick")), POLY + "each result is compared with the defining polynomial on every path, comparisons and carries by linear entailment from the path facts, plain operators by their range; loops over a symbolic length by one generic iteration. ", 1000)
prop("P33", lambda R: fpr2.p_fp2(R, getattr(R, "tier", "quick")), POLY + "Montgomery reductions by congruence of their limb polynomials, the field operations by congruence modulo the modulus plus a range bound, inversion by the relation its loops keep, operators as field polynomials, constants by their definitions. ", 300, ["the modulus is an odd prime"])
prop("P34", lambda R: curve.p_curve(R, getattr(R, "tier", "quick")), "Abstract interpretation with coordinates as polynomials over a generic field and points as elements of a generic abelian group: on each partition of the zero tests the resulting coordinates must satisfy the chord-and-tangent identities; scalar multiplication by one generic iteration over the bits. ", 200, ["field operations are exact (P33)", "characteristic other than 2 and 3"])
prop("P38", lambda R: poseidon.p_poseidon(R, getattr(R, "tier", "quick")), "Abstract interpretation with state elements as polynomials over a generic field and the power map as an opaque atom of its argument: the whole permutation of every shipped instance is unrolled and compared with the reference composition; one step from every position and mode of the sponge. ", 200, ["field operations are exact (P33)"])
