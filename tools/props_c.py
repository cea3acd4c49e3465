"""Property texts, part C (data structures, mathematics, interface conformance, cryptography)."""
from props_a import C
import props_a
P = []


def p(*a, **k):
    props_a.p(*a, **k)
    P.append(props_a.P.pop())


p("P28", "A checkpoint trace answers every lookup with the value in force at that key",
  "Pushing keeps keys strictly increasing: a new key is appended with its value, the last key has its value replaced, and a smaller key reverts without any effect; earlier entries never change. "
  "The upper lookups return the value of the last entry whose key is at most the given one, the lower lookup that of the first entry whose key is at least it, and zero when there is none.",
  ["inputs", "histories"], "every trace length and content reachable by pushes, and every key", "Binary search over traces of arbitrary length cannot be sampled exhaustively.",
  ["utils/structs/checkpoints/mod.rs", "utils/structs/checkpoints/generic_size.rs", "utils/math/alloy.rs"], [("push", C + "utils/structs/checkpoints/mod.rs: push, _insert"), ("bisection", C + "utils/structs/checkpoints/mod.rs: _upper_binary_lookup, _lower_binary_lookup")], ["lookup results", "storage writes"])
p("P29", "Setting or clearing a bit-map index changes exactly that index",
  "After setting an index it reads as set, after clearing it reads as unset, and every other index reads as before.",
  ["inputs", "histories"], "every 256-bit index, pair of indices and previous content", "Index pairs and contents are unbounded.",
  ["utils/structs/bitmap.rs"], [("set/unset/get", C + "utils/structs/bitmap.rs")], ["get", "storage writes"])
p("P35", "Integer square root, average and multiply-divide are exact for all inputs",
  "The square root is the largest integer whose square does not exceed the input; the average is the floor of the mean without overflowing. "
  "Multiply-divide returns the exact quotient of the full-width product, rounded as requested, and fails when the divisor is zero or the quotient does not fit.",
  ["inputs"], "every 256-bit operand", "The input space is 2^256 and beyond; the failing inputs of a wrong iteration count or rounding are sparse.",
  ["utils/math/alloy.rs"], [("Math trait", C + "utils/math/alloy.rs")], ["return value"])
p("P30", "Contracts speak the standard ABI: selectors, interface ids, events, errors",
  "Every contract type answers exactly the functions of its standard interface, under the selectors of their standard signatures, refuses native currency sent along, and exposes nothing else; an interface query is answered true exactly for the interfaces the type implements. "
  "Every event and error has the standard signature, an event indexes exactly the standard fields, and calls to other contracts use the selector, argument order and call kind of the standard function.",
  ["inputs"], "every selector and interface id (2^32 each), event, error and outgoing interface call of the library", "Tests go through Rust method names and never see selectors, topics or unlisted entry points.",
  ["token/erc20/mod.rs", "token/erc20/interface.rs", "token/erc721/mod.rs", "token/erc721/interface.rs", "token/erc1155/mod.rs", "access/control.rs", "access/ownable_two_step.rs", "finance/vesting_wallet.rs", "utils/introspection/erc165.rs", "contracts-proc/src/lib.rs"],
  [("dispatch", "macro-generated routers of every contract type"), ("interface ids", "contracts-proc/src/interface_id.rs, supports_interface implementations"), ("events and errors", "sol! blocks of every module")], ["selectors", "supports_interface", "event topics", "outgoing call data"])
p("P31", "A Merkle proof is accepted exactly if it rebuilds the root from all its elements",
  "A single proof is accepted exactly if hashing the leaf with every proof element in turn, each pair in sorted order, gives the root. "
  "A multi-proof is accepted exactly if the counts of leaves, proof elements and flags match and consuming leaves, intermediate hashes and proof elements in the order given by the flags rebuilds the root; a proof that runs out of elements, or has no leaf for a non-trivial tree, is rejected with an error, and verification never panics.",
  ["inputs"], "every proof length, flag sequence, leaf set and root, for Keccak-256 and for any other hasher", "Proof lengths and flag sequences are unbounded and forged proofs are adversarial.",
  ["lib/crypto/src/merkle.rs", "lib/crypto/src/hash.rs", "lib/crypto/src/keccak.rs"], [("proof walks", "lib/crypto/src/merkle.rs"), ("commutative pair hash", "lib/crypto/src/hash.rs: commutative_hash_pair"), ("hasher", "lib/crypto/src/keccak.rs")], ["return value"])
p("P32", "Multi-limb integer arithmetic is exact for every operand and limb count",
  "Addition, subtraction, doubling, halving, shifts, comparison, widening and modular reduction of fixed-size unsigned integers give the mathematically exact value together with the exact carry or borrow, and no intermediate limb operation overflows. "
  "Conversions from and to machine integers, byte strings, digit strings and bit sequences keep the value, and refuse or report what does not fit.",
  ["inputs"], "every operand of every limb count from 1 to 13 (64 to 832 bits)", "Carry chains and remainder corrections fail on sparse operands that no sample of wide integers reaches.",
  ["lib/crypto/src/arithmetic/limb.rs", "lib/crypto/src/arithmetic/uint.rs", "lib/crypto/src/arithmetic/mod.rs", "lib/crypto/src/bits.rs", "lib/crypto/src/const_helpers.rs"],
  [("limb primitives", "lib/crypto/src/arithmetic/limb.rs"), ("Uint and WideUint", "lib/crypto/src/arithmetic/uint.rs"), ("bit iteration", "lib/crypto/src/bits.rs")], ["return values", "carries"])
p("P33", "Prime field operations are the field operations, on canonical elements",
  "For every odd prime modulus, with or without a spare top bit, addition, subtraction, negation, doubling, multiplication, squaring, inversion, division, powers and sums of elements give the element the field operation defines, always reduced below the modulus; zero has no inverse and dividing by it panics. "
  "Conversion from an integer gives its residue and conversion back gives the representative below the modulus; the derived constants and the shipped fields have the values their definitions name.",
  ["inputs"], "every modulus of the size class, every pair of elements, every exponent, and all shipped fields", "Montgomery carries, conditional subtractions and the binary inversion loop fail on operands near multiples of the modulus only.",
  ["lib/crypto/src/field/fp.rs", "lib/crypto/src/field/mod.rs", "lib/crypto/src/field/group.rs", "lib/crypto/src/field/prime.rs", "lib/crypto/src/field/instance.rs"],
  [("Montgomery reduction", "lib/crypto/src/field/fp.rs: widening_montgomery_reduction, montgomery_reduction"), ("FpParams operations and inversion", "lib/crypto/src/field/fp.rs"), ("operators", "lib/crypto/src/field/fp.rs"), ("instances", "lib/crypto/src/field/instance.rs")], ["return values", "panics"])
p("P34", "Elliptic-curve operations are the group law of the curve",
  "For every short Weierstrass curve, doubling, addition (general and mixed), negation, equality, hashing and conversion between coordinate systems agree with the chord-and-tangent law for all pairs of points, including infinity, equal and opposite points; batch operations agree with the single ones. "
  "Multiplying by a scalar adds the point to itself that many times, for every scalar; a checked constructor accepts exactly points on the curve and in the prime-order subgroup.",
  ["inputs"], "every curve coefficient, point, coordinate representation and scalar", "Exceptional cases (equal, opposite, infinite operands, zero coefficients) are measure-zero for random points.",
  ["lib/crypto/src/curve/mod.rs", "lib/crypto/src/curve/helpers.rs", "lib/crypto/src/curve/sw/mod.rs", "lib/crypto/src/curve/sw/affine.rs", "lib/crypto/src/curve/sw/projective.rs", "lib/crypto/src/bits.rs"],
  [("formulas", "lib/crypto/src/curve/sw/projective.rs"), ("affine points", "lib/crypto/src/curve/sw/affine.rs"), ("scalar multiplication", "lib/crypto/src/curve/sw/mod.rs")], ["represented points"])
p("P38", "The Poseidon2 sponge applies the specified permutation and keeps its order",
  "For every shipped parameter set and every state, the permutation is the initial external layer, half the external rounds, the internal rounds and the other external rounds, each adding its own constants, applying the power map to all elements (external) or the first (internal) and multiplying by the specified matrix. "
  "The sponge adds each absorbed element to the next rate position, permutes when the rate is full and before the first output, returns rate elements in order, never touches or returns the capacity, and refuses to absorb after squeezing.",
  ["inputs", "histories"], "every input state of each shipped instance (all rounds), and every position and mode of the sponge", "Test vectors fix a few states; a schedule, position or mode error shows only at rate boundaries or for other instances.",
  ["lib/crypto/src/poseidon2/mod.rs", "lib/crypto/src/poseidon2/params.rs", "lib/crypto/src/poseidon2/instance/bls12.rs", "lib/crypto/src/poseidon2/instance/goldilocks.rs", "lib/crypto/src/poseidon2/instance/babybear.rs"],
  [("permutation", "lib/crypto/src/poseidon2/mod.rs: permute"), ("sponge", "lib/crypto/src/poseidon2/mod.rs: absorb, squeeze"), ("instances", "lib/crypto/src/poseidon2/instance")], ["state", "squeezed elements"])
