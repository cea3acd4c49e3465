"""Property texts, part A (tokens).  Fields: id, title, statement, over, quantifier text, why, files, mechanisms, check level note, technique."""
C = "contracts/src/"
P = []


def p(i, title, st, over, q, why, files, mech, observe=None):
    P.append(dict(id=i, title=title, st=st, over=over, q=q, why=why, files=[C + f if not f.startswith(("lib/", "contracts-proc/")) else f for f in files],
                  mech=mech, observe=observe or []))


p("P01", "ERC-20 value is conserved: balances always add up to the total supply",
  "A transfer debits the sender and credits the recipient by exactly the same amount (including a transfer to oneself) and leaves the total supply alone; a mint or burn changes one balance and the total supply by the same amount. "
  "A call that would overdraw a balance, overflow the supply, or use the zero address where an account is required reverts without any effect.",
  ["inputs", "histories"], "every reachable ledger state, caller, pair of accounts (equal or not, zero or not) and 256-bit amount, for every entry point that can change a balance or the supply",
  "Unit tests sample a few accounts and small amounts; aliasing of the two accounts, boundary amounts and the combination with arbitrary previous histories are not enumerable.",
  ["token/erc20/mod.rs", "token/erc20/extensions/burnable.rs"],
  [("single balance/supply update routine", C + "token/erc20/mod.rs: _update"), ("public transfer, burn, mint wrappers", C + "token/erc20/mod.rs, extensions/burnable.rs")],
  ["balance_of", "total_supply", "storage writes on every path"])
p("P02", "ERC-20 balances move only with the owner's authority or allowance",
  "A caller can reduce somebody else's balance (by transfer-from or burn-from) only up to the allowance that owner granted to that caller, and each use reduces the allowance by exactly the amount used; an allowance of the maximum value is unlimited and is not reduced. "
  "Allowances change only through the owner's own approval or such use, and an insufficient allowance or a zero-address party makes the call revert without any effect.",
  ["inputs", "histories"], "every caller, owner, spender, amount and previous allowance, including the unlimited allowance",
  "Tests exercise a handful of (owner, spender, amount) triples; the claim is about every caller and allowance value.",
  ["token/erc20/mod.rs", "token/erc20/extensions/burnable.rs"],
  [("allowance consumption", C + "token/erc20/mod.rs: _spend_allowance"), ("approve", C + "token/erc20/mod.rs: _approve")],
  ["allowance", "balance_of", "storage writes on every path"])
p("P03", "Token events mirror token state changes exactly",
  "Every successful transfer, mint, burn, approval or operator change of an ERC-20, ERC-721 or ERC-1155 token emits exactly the event(s) the standard prescribes, with the parties, ids and amounts that were actually moved or approved. "
  "No other path of these operations emits such an event: a consumer replaying the log reconstructs the ledger.",
  ["inputs", "histories"], "every path of every state-changing entry point of the three token standards (and ERC-4626 deposits/withdrawals), for all arguments",
  "Tests look at the events of a few example calls; missing, duplicated or mis-ordered arguments on other paths stay invisible.",
  ["token/erc20/mod.rs", "token/erc20/extensions/erc4626.rs", "token/erc721/mod.rs", "token/erc721/extensions/consecutive.rs", "token/erc1155/mod.rs"],
  [("event emission beside each ledger write", C + "token/*/mod.rs: _update, _approve, _set_approval_for_all")], ["emitted logs"])
p("P04", "Safe ERC-20 calls succeed only if the token really performed the call",
  "A safe token operation succeeds only if the low-level call succeeded and the token either returned a value that decodes to true or returned nothing and has code at its address; anything else reverts. "
  "It sends exactly the requested call (function, recipient, amount) to exactly the given token; allowance increases and decreases are computed from the token's current allowance without wrapping; a forced approval falls back to a reset to zero followed by the requested value only after the direct approval failed.",
  ["inputs", "fault_sequences"], "every token address, return-data shape, call failure and amount",
  "The set of possible callee behaviours (return data, failure, missing code) is unbounded; tests use a few mocks.",
  ["token/erc20/utils/safe_erc20.rs"], [("optional-return call", C + "token/erc20/utils/safe_erc20.rs: call_optional_return, call_optional_return_bool"), ("force approve", C + "token/erc20/utils/safe_erc20.rs")],
  ["outgoing calls", "revert"])
p("P05", "Signature recovery accepts only canonical, genuine ECDSA signatures",
  "Recovery returns a signer only if the signature's s value is in the lower half of the curve order and the recovery precompile, called with exactly the given digest and signature, yields a non-zero address, which is the address returned. "
  "Every other signature makes the call revert.",
  ["inputs"], "every digest and every (v, r, s) triple", "The input space is 2^768; tests use a few signatures.",
  ["utils/cryptography/ecdsa.rs"], [("malleability bound", C + "utils/cryptography/ecdsa.rs: check_if_malleable"), ("precompile call", C + "utils/cryptography/ecdsa.rs: recover")], ["returned address", "static call"])
p("P06", "EIP-712 digests bind name, version, chain and contract",
  "The domain separator is the hash of the EIP-712 domain type hash, the hashed name, the hashed version, the current chain id and the contract's own address, and a typed-data digest is the hash of the 0x1901 prefix, that separator and the struct hash, in this order. "
  "The advertised domain description reports the same name, version, chain id and contract address.",
  ["inputs", "configurations"], "every chain id, contract address, name, version and struct hash", "Tests check one fixed chain and one address.",
  ["utils/cryptography/eip712.rs"], [("domain separator", C + "utils/cryptography/eip712.rs: domain_separator_v4"), ("typed data hash", C + "utils/cryptography/eip712.rs: to_typed_data_hash")], ["returned digests"])
p("P07", "Nonces are used once, in order",
  "Consuming an account's nonce returns its current value and advances it by exactly one, without touching any other account, and never goes back. "
  "A consumption that names an expected nonce succeeds only if it equals the current one and otherwise changes nothing.",
  ["inputs", "histories"], "every account, expected nonce and history of consumptions", "Histories are unbounded; tests run two or three steps.",
  ["utils/nonces.rs"], [("use_nonce / use_checked_nonce", C + "utils/nonces.rs")], ["nonces()"])
p("P08", "A permit sets an allowance only for a fresh, unexpired owner signature",
  "A permit succeeds only if the deadline has not passed and the signature recovers to the stated owner over the typed-data digest of (owner, spender, value, that owner's current nonce, deadline) for this contract's domain. "
  "On success exactly that owner's allowance for that spender becomes exactly that value and the owner's nonce advances by one; otherwise the call reverts, so no signature works twice, elsewhere, or for other arguments.",
  ["inputs", "histories"], "every owner, spender, value, deadline, signature, block timestamp and nonce history", "Signature forgeries, replays and field mix-ups range over unbounded inputs; the repository has no unit tests for permit at all.",
  ["token/erc20/extensions/permit.rs", "utils/nonces.rs", "utils/cryptography/ecdsa.rs", "utils/cryptography/eip712.rs"], [("permit", C + "token/erc20/extensions/permit.rs: permit")], ["allowance", "nonces", "revert"])
p("P09", "Pause flag toggles only from the opposite state and guards reject exactly then",
  "Pausing succeeds only while unpaused and unpausing only while paused, each flips the flag, and announces it with the caller's address; otherwise the call reverts. "
  "The when-not-paused guard passes exactly while unpaused and the when-paused guard exactly while paused.",
  ["inputs", "histories"], "every pause/unpause history and caller", "Short histories only are tested.",
  ["utils/pausable.rs"], [("pause/unpause and guards", C + "utils/pausable.rs")], ["paused()", "logs", "revert"])
p("P10", "ERC-20 wrapper tokens stay fully backed by the underlying token",
  "Wrapping mints to the chosen account exactly the amount that has been pulled from the caller, and unwrapping first burns from the caller exactly the amount of underlying then sent out; neither is possible for or from the wrapper itself as counterparty. "
  "Recovery mints exactly the underlying held in excess of the wrapped supply, so no sequence of calls mints wrapped tokens without backing.",
  ["inputs", "histories", "fault_sequences"], "every caller, account, amount, ledger state and behaviour of the underlying token", "Tests use a well-behaved mock token and fixed amounts.",
  ["token/erc20/extensions/wrapper.rs"], [("deposit_for / withdraw_to / _recover", C + "token/erc20/extensions/wrapper.rs")], ["outgoing calls", "balance_of", "total_supply"])
p("P11", "A flash loan is repaid with its fee in the same call, or reverts",
  "A flash loan succeeds only for this token, for an amount not above the advertised maximum, and only if the borrower's callback (called with initiator, token, amount, fee and data) returns the prescribed success value. "
  "On success the loaned amount plus fee has been taken from the borrower under its allowance to the contract, the loan amount burned, and the fee burned or paid to the configured fee receiver, so the supply never grows; the advertised maximum and fee are those applied.",
  ["inputs", "fault_sequences"], "every receiver behaviour, token address, amount, fee, fee receiver and data", "A callback can do anything; tests use at most a cooperative one.",
  ["token/erc20/extensions/flash_mint.rs"], [("flash_loan", C + "token/erc20/extensions/flash_mint.rs: flash_loan")], ["balances", "outgoing call", "revert"])
p("P12", "ERC-4626 conversions round in the vault's favour and limits are consistent",
  "Converting assets to shares uses shares = assets*(supply + 10^offset)/(total assets + 1) and the inverse formula for assets, with full-width intermediate precision, where conversions and deposit/redeem previews round down and mint/withdraw previews round up; overflowing results revert. "
  "Total assets is the vault's own balance of the underlying, and the advertised maxima are unlimited for deposit and mint, the owner's share balance for redeem, and its floor-converted value for withdraw.",
  ["inputs", "histories"], "every supply, asset balance, offset and amount", "256-bit arithmetic with rounding: tests cannot sample the boundaries.",
  ["token/erc20/extensions/erc4626.rs", "utils/math/alloy.rs"], [("conversion with rounding", C + "token/erc20/extensions/erc4626.rs: _convert_to_shares, _convert_to_assets"), ("mul_div", C + "utils/math/alloy.rs")], ["returned values"])
p("P13", "ERC-4626 deposits and withdrawals move exactly what the preview says",
  "Deposit and mint pull the stated or previewed assets from the caller and mint the previewed or stated shares to the receiver, in that order; withdraw and redeem burn the owner's shares before assets leave to the receiver, and consume the caller's share allowance when the caller is not the owner. "
  "Each refuses amounts above the corresponding maximum and reports deposits and withdrawals with the actual parties and amounts.",
  ["inputs", "histories", "fault_sequences"], "every caller, receiver, owner, amount, ledger state and behaviour of the underlying token (including reentrant calls)", "Tests use one mock and a few values; ordering against external calls is not observable in them.",
  ["token/erc20/extensions/erc4626.rs"], [("deposit, mint, withdraw, redeem", C + "token/erc20/extensions/erc4626.rs: _deposit, _withdraw")], ["outgoing calls", "balances", "logs"])
p("P14", "Every ERC-721 token has one owner and balances count owned tokens",
  "Each transfer, mint or burn of a non-fungible token changes the owner of exactly that token, takes one from the previous owner's balance and gives one to the new owner's balance, and clears the token's approval. "
  "An existing token cannot be minted again, a non-existing one cannot be transferred or burned, and a stated owner that is not the real one makes the call revert.",
  ["inputs", "histories"], "every token id, pair of accounts (equal or zero included), caller and history", "Histories and id/account aliasing are unbounded.",
  ["token/erc721/mod.rs", "token/erc721/extensions/burnable.rs"], [("single ownership update", C + "token/erc721/mod.rs: _update"), ("mint/transfer/burn wrappers", C + "token/erc721/mod.rs")], ["owner_of", "balance_of"])
p("P15", "An ERC-721 token moves only by its owner, its approvee or an operator",
  "A public transfer or burn of a token succeeds only if the caller is the owner, is approved for that token, or is an operator of the owner; a single-token approval can be given only by the owner or an operator, for existing tokens only. "
  "Operator rights are set only by the owner for itself and never for the zero address, and the per-token approval is cleared whenever the token changes hands.",
  ["inputs", "histories"], "every caller, owner, approvee, operator, token and history", "The authorisation matrix over arbitrary histories is unbounded.",
  ["token/erc721/mod.rs", "token/erc721/extensions/burnable.rs"], [("authorization check", C + "token/erc721/mod.rs: _is_authorized, _check_authorized"), ("approve", C + "token/erc721/mod.rs: _approve")], ["storage writes", "revert"])
p("P16", "Safe ERC-721 transfers reach only receivers that accept the token",
  "A safe mint or safe transfer to an address with code completes only if that address answers the receiver callback, called after the ownership change with operator, previous owner, token id and data, with the prescribed acceptance value; any other answer or failure reverts the whole operation. "
  "Addresses without code are never called.",
  ["inputs", "fault_sequences"], "every receiver behaviour, token, operator and data", "Receiver behaviours are unbounded.",
  ["token/erc721/mod.rs", "token/erc721/extensions/wrapper.rs"], [("acceptance check", C + "token/erc721/mod.rs: _check_on_erc721_received")], ["outgoing call", "revert"])
p("P17", "Consecutive batch minting gives exactly the announced ids to the receiver",
  "A batch mint, of at most the maximum batch size and never to the zero address, gives the receiver exactly the next consecutive block of ids, adds the batch size to its balance, and announces the exact range; the id space never wraps. "
  "Ownership of ids never transferred or burned individually is that of their batch; individually moved ids follow the ordinary ownership rules, and burned batch ids have no owner until minted again.",
  ["inputs", "histories"], "every sequence of batch mints, transfers, burns and every id and batch size", "Batch/individual interleavings and boundary ids are unbounded.",
  ["token/erc721/extensions/consecutive.rs", "utils/structs/checkpoints/mod.rs", "utils/structs/bitmap.rs"], [("batch mint", C + "token/erc721/extensions/consecutive.rs: _mint_consecutive"), ("owner lookup", C + "token/erc721/extensions/consecutive.rs: _owner_of"), ("update", C + "token/erc721/extensions/consecutive.rs: _update")], ["owner_of", "balance_of", "logs"])
p("P18", "ERC-721 wrapper tokens are one-to-one with underlying tokens held",
  "A wrapped token is minted only for an underlying token that the wrapper has just received (pulled from the caller, or sent to it by the underlying contract's own callback, or, for recovery, verified as held by it), and unwrapping burns the wrapped token, with the caller's authority over it, before the underlying one is sent out. "
  "Callbacks from any contract other than the underlying are refused.",
  ["inputs", "histories", "fault_sequences"], "every caller, account, list of ids and behaviour of the underlying token", "Tests use one mock token.",
  ["token/erc721/extensions/wrapper.rs"], [("deposit_for / withdraw_to / on_erc721_received / _recover", C + "token/erc721/extensions/wrapper.rs")], ["outgoing calls", "owner_of"])
