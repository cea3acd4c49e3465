"""Property texts, part B (ERC-721 extensions, ERC-1155, access control, finance, royalties)."""
from props_a import C
import props_a
P = []


def p(*a, **k):
    props_a.p(*a, **k)
    P.append(props_a.P.pop())


p("P19", "ERC-721 enumeration lists every token exactly once",
  "The global list contains every existing token exactly once, and each owner's list contains exactly the tokens added to it and not removed since, each once: adding appends at the end, and removing moves the last entry into the freed slot with both index tables updated. "
  "Reading an index at or beyond the length is an error, otherwise it returns the listed id; batch minting together with enumeration is refused.",
  ["inputs", "histories"], "every history of additions and removals, every owner, token id and index (last and not-last positions, aliasing included)",
  "List/index consistency is an invariant over all histories; swap-and-pop aliasing cases are seldom sampled.",
  ["token/erc721/extensions/enumerable.rs"], [("owner and global enumeration", C + "token/erc721/extensions/enumerable.rs: _add_token_to_*, _remove_token_from_*"), ("index lookups", C + "token/erc721/extensions/enumerable.rs: token_by_index, token_of_owner_by_index")],
  ["token_by_index", "token_of_owner_by_index", "total_supply", "storage writes on every path"])
p("P20", "ERC-1155 balances move exactly as requested, for single and batch calls",
  "Every transfer, mint or burn debits the source and credits the destination, for each (id, amount) pair in order, by exactly that amount (the same account or repeated ids included), where minting has no source and burning no destination. "
  "Lists of different lengths, an overdraft, an overflow, or a zero address where an account is required make the whole call revert; batch balance queries return the balance of each (account, id) pair in order.",
  ["inputs", "histories"], "every ledger state, pair of accounts and list of ids and amounts of any length, repeated ids included",
  "List lengths, repetition and aliasing are unbounded; tests use short lists of distinct ids.",
  ["token/erc1155/mod.rs", "token/erc1155/extensions/burnable.rs"], [("batch update", C + "token/erc1155/mod.rs: _update"), ("entry points", C + "token/erc1155/mod.rs, extensions/burnable.rs")],
  ["balance_of", "balance_of_batch", "storage writes on every path"])
p("P21", "ERC-1155 balances are moved or burned only by the holder or its operator",
  "A public transfer or burn, single or batch, succeeds only if the caller is the account losing tokens or an operator that account approved; any other caller makes it revert without any effect. "
  "Operator approval is changed only by the account itself, for itself, to exactly the requested value, and never for the zero address.",
  ["inputs", "histories"], "every caller, holder, operator and approval history", "The authorisation matrix over arbitrary histories is unbounded.",
  ["token/erc1155/mod.rs", "token/erc1155/extensions/burnable.rs"], [("authorisation", C + "token/erc1155/mod.rs: _check_authorized/authorize checks"), ("operator approval", C + "token/erc1155/mod.rs: _set_approval_for_all")], ["storage writes", "revert"])
p("P22", "ERC-1155 receivers with code must accept, and events state what moved",
  "A transfer or mint to an address with code completes only if that address answers the single (for one pair) or batch (otherwise) receiver callback, called after the balances changed with operator, source, ids, amounts and data, with the prescribed acceptance value; any other answer or failure reverts everything, and addresses without code are never called. "
  "Exactly one event, single for one pair and batch otherwise, states operator, source, destination, ids and amounts, and an approval change emits exactly its event.",
  ["inputs", "fault_sequences"], "every receiver behaviour, list length, operator and data", "Receiver behaviours and list shapes are unbounded.",
  ["token/erc1155/mod.rs"], [("acceptance check", C + "token/erc1155/mod.rs: _check_on_erc1155_received"), ("event selection", C + "token/erc1155/mod.rs: _update")], ["outgoing call", "logs", "revert"])
p("P23", "ERC-1155 supplies equal minted minus burned amounts, per id and overall",
  "Every mint adds each amount to the supply of its id and to the overall supply, every burn subtracts it from both, and a transfer changes neither. "
  "A mint that would overflow either supply reverts without any effect; an id exists exactly when its supply is non-zero.",
  ["inputs", "histories"], "every list of ids and amounts (any length, repeated ids, amounts whose sum exceeds 256 bits) and every history", "Sums over lists of arbitrary length and size cannot be sampled.",
  ["token/erc1155/extensions/supply.rs"], [("supply-tracking update", C + "token/erc1155/extensions/supply.rs: _update")], ["total_supply", "exists", "storage writes on every path"])
p("P24", "Royalty queries use the token's own royalty, else the default, never above 100%",
  "A royalty query for a token and sale price answers with the token's own receiver and fee if a receiver is set for it, else the default ones, the amount being price * fee / denominator; it reverts on overflow instead of answering wrongly. "
  "Setting a royalty refuses a fee above the denominator or a zero receiver, stores exactly the given receiver and fee for exactly that token or as default, and resetting removes exactly that entry.",
  ["inputs", "histories"], "every token, price, fee, receiver and history of settings", "256-bit prices and setting histories are unbounded.",
  ["token/common/erc2981.rs"], [("royalty_info", C + "token/common/erc2981.rs"), ("setters", C + "token/common/erc2981.rs: _set_default_royalty, _set_token_royalty")], ["royalty_info", "storage writes"])
p("P25", "Roles change only by their admin, or by renouncing one's own",
  "A public grant or revoke succeeds only if the caller holds the admin role of that role at that moment, and changes exactly that account's membership of exactly that role; renouncing removes only the caller's own membership and needs the caller's address as confirmation. "
  "A role check fails for every non-member; an event is emitted exactly when membership or an admin role changes, and granting a held role or revoking an absent one changes nothing and emits nothing.",
  ["inputs", "histories"], "every role, account, caller, admin hierarchy and history", "Role hierarchies and histories are unbounded.",
  ["access/control.rs"], [("grant/revoke/renounce", C + "access/control.rs"), ("role check", C + "access/control.rs: only_role, _check_role")], ["has_role", "get_role_admin", "logs", "revert"])
p("P26", "Ownership changes only by the owner (two-step: once the nominee accepts)",
  "Transfer and renouncing of ownership succeed only for the current owner, never install the zero address by transfer, and announce old and new owner; the owner check fails for everybody else. "
  "In the two-step variant a transfer only nominates, exactly the nominee can accept, and any completed ownership change clears the nomination.",
  ["inputs", "histories"], "every caller, nominee and history of transfers, acceptances and renouncements", "Histories of interleaved nominations are unbounded.",
  ["access/ownable.rs", "access/ownable_two_step.rs", "finance/vesting_wallet.rs"], [("single-step ownership", C + "access/ownable.rs"), ("two-step ownership", C + "access/ownable_two_step.rs")], ["owner", "pending_owner", "logs", "revert"])
p("P27", "A vesting wallet releases exactly the vested, unreleased amount to its owner",
  "The vested amount of (balance + already released) is zero before the start, everything from start + duration on, and linear, rounded down, in between; the releasable amount is vested minus released and never negative. "
  "A release records the releasable amount as released for that asset, then sends exactly it to the owner (who finds it recorded already) and announces it, or reverts as a whole; nothing else changes the released amounts.",
  ["inputs", "histories", "fault_sequences"], "every schedule, timestamp, balance and history of releases and of balance changes, for the native currency and every token", "Time, balances and release histories are unbounded; the balance of a token can also shrink.",
  ["finance/vesting_wallet.rs"], [("schedule", C + "finance/vesting_wallet.rs: vesting_schedule"), ("release", C + "finance/vesting_wallet.rs: release_eth, release_erc20")], ["releasable", "released", "outgoing transfer"])
p("P36", "A rejection reports the true reason with the true values",
  "When an operation is rejected, the reported error names a condition that really holds for the call, and its arguments are the actual values: the account concerned, its actual balance, allowance or owner, and the requested amount, id or role. "
  "The revert data returned to the caller is the encoding of exactly that error.",
  ["inputs", "histories"], "every rejected call of every contract operation, for every caller, argument and prior state", "Tests compare a few errors on fixed values; swapped or stale arguments show only on particular values and nested rejections.",
  ["token", "access", "utils", "finance"], [("error construction", C + "token, access, utils, finance: every Err return of an entry point"), ("error encoding", C + "MethodError::encode implementations")], ["revert data"])
p("P37", "Token URIs are base plus id or the stored override, for existing tokens only",
  "The URI of an ERC-721 token is an error for tokens that do not exist; otherwise it is the stored URI if no base is set, base followed by the stored URI if both are set, and base followed by the decimal id if only the base is set (empty without both). "
  "An ERC-1155 URI is the base followed by the stored token URI, or the common one when none is stored; names, symbols and decimals are returned as configured, and each setter changes exactly its own entry.",
  ["inputs", "histories"], "every token id, base and stored URI and history of settings", "String inputs and setting histories are unbounded.",
  ["token/erc721/extensions/metadata.rs", "token/erc721/extensions/uri_storage.rs", "token/erc1155/extensions/metadata_uri.rs", "token/erc1155/extensions/uri_storage.rs", "token/erc20/extensions/metadata.rs"],
  [("token_uri", C + "token/erc721/extensions/metadata.rs, uri_storage.rs"), ("uri", C + "token/erc1155/extensions/uri_storage.rs")], ["token_uri", "uri", "name", "symbol", "decimals"])
