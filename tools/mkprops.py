"""Writes /verif/properties.jsonl and the checks of /verif/MANIFEST.json from one table."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "programs/presale/src/"
I = S + "instructions/"
TEST = ("The repository's runnable tests sample a handful of values of helper functions; the instruction-level tests need an SBF build and "
        "each follow one scripted history. ")
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, level_note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=TEST + why, files=files, mech=mech, note=level_note))


prop("C01", "Deposits are charged and credited exactly",
     "A successful deposit adds one and the same net amount to the buyer's escrow, to that escrow's registry and to the sale, and one and the same deposit fee to the three fee totals. "
     "The sale's recorded quote vault receives exactly net amount plus fee, after the token's own transfer fee, from the signing payer, and nothing else moves. "
     "No other registry, escrow or sale figure changes, except the schedule when the deposit ends the sale early.",
     ["inputs", "histories", "configurations"], "every sale and escrow state, mode, amount, fee rate, token transfer fee and time",
     "Equality of three ledgers and one transfer over all states, modes and fee rates is out of reach of samples.",
     [I + "process_deposit.rs", S + "presale_mode_handler", S + "state/presale.rs", S + "state/escrow.rs", S + "math/fee_math.rs"],
     [("deposit instruction", I + "process_deposit.rs"), ("ledger updates", S + "state/presale.rs"), ("transfer in", S + "token2022.rs")])
prop("C02", "Deposits respect every cap and the sale window",
     "A deposit succeeds only while the sale is ongoing, for a positive net amount no larger than requested. It never lifts a fixed-price or first-come sale above its maximum cap, nor the escrow's total above the smaller of the registry's buyer maximum and the escrow's personal cap, nor leaves it below the registry's buyer minimum. "
     "The net amount is exactly the largest admissible one (reduced to what the buyer, the sale and, in a fixed-price sale, the registry's unsold stock still allow, and then to the cost of the tokens it buys), and a deposit meeting these rules is not refused.",
     ["inputs", "histories"], "every state, mode, request and time", "The quota is a minimum of several interacting limits; tests try a few points.",
     [I + "process_deposit.rs", S + "presale_mode_handler"], [("quota and caps", S + "presale_mode_handler"), ("validation", I + "process_deposit.rs")])
prop("C03", "Deposit fees follow the registry's rate and are never changed by withdrawing",
     "The fee added by a deposit of net amount n in a registry with fee rate r (basis points) is ceil(n*10000/(10000-r)) - n, charged on top of n and added equally to the escrow, its registry and the sale. "
     "Withdrawing a deposit neither returns fees nor changes any recorded fee.",
     ["inputs"], "every net amount, rate and state", "Rounding must be right for all amounts and rates, not sampled ones.",
     [S + "math/fee_math.rs", I + "process_deposit.rs", I + "process_withdraw.rs"], [("fee formula", S + "math/fee_math.rs")])
prop("C04", "Withdrawals during the sale return exactly what leaves the ledger",
     "While a sale is ongoing, only the escrow owner can withdraw, only in pro-rata sales and in fixed-price sales that did not disable withdrawing, a positive amount at most the requested one and at most the deposit. "
     "Escrow, registry and sale totals all drop by exactly the amount paid out of the quote vault, and what remains is zero or within the registry's buyer limits. A pro-rata withdrawal pays exactly the request; a fixed-price one pays the cost of the whole tokens the request represents, or the full deposit when all of it is requested; a request meeting these rules is not refused.",
     ["inputs", "histories"], "every state, mode, amount and time", "All modes, amounts and states are quantified.",
     [I + "process_withdraw.rs", S + "presale_mode_handler", S + "state/presale.rs"], [("withdraw instruction", I + "process_withdraw.rs")])
prop("C05", "Operations are confined to their phase; the schedule moves only on early end",
     "A sale is upcoming before its start, ongoing until its end, and afterwards successful if deposits reached the minimum cap and failed otherwise; deposits, withdrawals and escrow creation need an ongoing sale, claims, fee collection and unsold-token handling a successful one, creator withdrawal an ended one, and leftover-quote refunds a failed one or a successful pro-rata one. "
     "When a deposit fills a fixed-price or first-come sale to its maximum cap and early end is not disabled, the sale ends at that instant and immediate release, vesting start and vesting end shift so that their distances from the end stay the same. In all other cases no operation changes the sale's times, caps, supply, price or mode.",
     ["histories", "inputs"], "every instruction, state and time", "Phase confinement is a property of every instruction in every state.",
     [S + "state/presale.rs", I, S + "presale_mode_handler"], [("phase function", S + "state/presale.rs"), ("early end", S + "presale_mode_handler")])
prop("C06", "Claims pay exactly the released share, no more and no less",
     "After a successful sale the escrow owner's total claimed equals, after each claim, the released share at that time: floor of (immediately released part times own deposit over the registry's deposits) from the immediate-release time on, plus floor of (linearly vested part times own deposit over the registry's deposits) from the vesting start on, all of it once vesting has ended. "
     "The part released is of the tokens the registry sold: its whole supply, or in a fixed-price sale what its deposits buy, at most its supply. The base vault pays exactly the difference to the previous total, nothing stays pending, and an eligible claim is not refused.",
     ["inputs", "histories", "schedules"], "every state, split of deposits, vesting configuration and claim time", "All claim times and configurations are quantified.",
     [I + "process_claim.rs", S + "state/escrow.rs", S + "math/claim_math.rs", S + "presale_mode_handler"], [("released amount", S + "presale_mode_handler"), ("claim instruction", I + "process_claim.rs")])
prop("C07", "The base vault can always pay all claims",
     "In a successful sale, whatever the order and times of claims, the claims of all escrows of a registry never exceed the tokens that registry sold, which never exceed its supply; together with the unsold tokens burnt or returned they never exceed the sale's total supply, and the creator never takes base tokens from a successful sale. "
     "Claimed totals never decrease.",
     ["histories", "schedules"], "every history of deposits, withdrawals, claims and closings, any number of buyers", "Solvency is a sum over unboundedly many buyers and orders.",
     [I + "process_claim.rs", I + "process_perform_unsold_base_token_action.rs", S + "presale_mode_handler"], [("floor rounding of shares", S + "presale_mode_handler")])
prop("C08", "Buyers get back exactly what they are owed, once",
     "After a failed sale an escrow owner gets back the full deposit and the full fee; after a successful pro-rata sale the owner's share of the oversubscription, floor of (own deposit times the registry's refundable deposit over the registry's deposits), plus the share of the registry's refundable fee computed in the same way. "
     "The registry's refundable deposit is floor of (excess over the maximum cap times registry deposits over all deposits) and its refundable fee is in the same proportion, rounded down. Each escrow is refunded at most once, by its signing owner, from the quote vault, and an eligible refund is not refused.",
     ["inputs", "histories"], "every state and distribution of deposits", "All proportions and roundings are quantified.",
     [I + "process_withdraw_remaining_quote.rs", S + "state/presale.rs", S + "state/escrow.rs", S + "presale_mode_handler"], [("refund computation", S + "presale_mode_handler")])
prop("C09", "The quote vault covers refunds, proceeds and fees together",
     "In every history the quote paid out by withdrawals, refunds, the creator's proceeds and the collected fees never exceeds what deposits paid in: the vault always holds the recorded deposits and fees not yet paid out. "
     "After a successful sale all refunds of a registry are at most its refundable deposit and fee, proceeds are at most the deposits kept, and fees at most the fees kept.",
     ["histories"], "every history, any number of buyers and registries", "Solvency is a sum over unboundedly many buyers.",
     [I + "process_deposit.rs", I + "process_withdraw_remaining_quote.rs", I + "process_creator_withdraw.rs", I + "process_creator_collect_fee.rs"], [("refund and fee split", S + "state/presale.rs")])
prop("C10", "The creator takes the proceeds, or the tokens back, exactly once",
     "After the end of the sale the creator, and only the creator by signature, can withdraw once: from a successful sale min(total deposits, maximum cap) of quote, from a failed sale the whole base supply. "
     "The payment leaves the matching recorded vault and the sale is marked so that no second withdrawal succeeds; nothing else changes.",
     ["inputs", "histories"], "every state, mode and time", "All states and both outcomes are quantified.", [I + "process_creator_withdraw.rs", S + "state/presale.rs"], [("creator withdraw", I + "process_creator_withdraw.rs")])
prop("C11", "The creator collects exactly the fees kept, once",
     "After a successful sale the creator, by signature, can collect once the deposit fees: all recorded fees in fixed-price and first-come sales, and in pro-rata sales the sum over registries of recorded fees minus that registry's refundable fee. "
     "The payment comes from the quote vault; nothing else changes; no fee can be collected from a failed or unfinished sale.",
     ["inputs", "histories"], "every state and mode", "All fee distributions are quantified.", [I + "process_creator_collect_fee.rs", S + "presale_mode_handler"], [("fee collection", I + "process_creator_collect_fee.rs")])
prop("C12", "Unsold tokens are burnt or returned exactly once as chosen",
     "After a successful sale exactly supply minus sold tokens (a registry without deposits sells nothing; one with deposits sells its whole supply, or in a fixed-price sale what they buy, at most its supply) can be handled once, only if positive: burnt from the base vault if the creator chose burning, otherwise sent to the creator's own associated token account. "
     "Anyone may trigger it and nothing else changes.",
     ["inputs", "histories"], "every state and registry configuration", "All registry combinations are quantified.", [I + "process_perform_unsold_base_token_action.rs", S + "presale_mode_handler"], [("unsold action", I + "process_perform_unsold_base_token_action.rs")])
prop("C13", "An escrow can be closed only when nothing is owed",
     "The owner alone can close an escrow, and only when it holds no deposit and no fee while the sale is ongoing; after a failed sale when it holds none or was refunded; after a successful sale when all tokens of the full schedule were claimed and, in a pro-rata sale, the refund was taken or is zero. "
     "Closing decreases the escrow counts of the sale and its registry by one and changes nothing else, and an escrow meeting these rules can be closed.",
     ["inputs", "histories"], "every state and time", "All states are quantified.", [I + "process_close_escrow.rs", S + "state/escrow.rs"], [("close conditions", I + "process_close_escrow.rs")])
prop("C14", "Escrows are created only as the whitelist mode allows",
     "An escrow is created only while the sale is ongoing, in an existing registry, at the address derived from sale, owner and registry so that there is at most one for each; in a permissionless sale by anyone in registry 0, in an operator-whitelisted sale only with the signature of an operator appointed by the sale's creator, in a merkle-whitelisted sale only with a valid proof against a root registered for that sale. "
     "The personal cap is the registry's buyer maximum in a permissionless sale and otherwise the approved value, which must be positive and within the registry's buyer limits. The new escrow is empty, both escrow counts grow by one, and nothing else changes.",
     ["inputs", "histories", "configurations"], "every whitelist mode, caller, proof and state", "All callers, proofs and caps are quantified.",
     [I + "create_escrow", S + "state/escrow.rs"], [("escrow creation", I)])
prop("C15", "A merkle proof admits exactly the owner, registry and cap it was issued for",
     "Escrow creation by proof succeeds only if hashing the leaf of (owner, registry index, cap) under the leaf prefix and folding every proof element in order with sorted pairs under the node prefix gives the registered root. "
     "The off-chain tree builder uses the same leaf, prefixes and pairing, so every whitelisted entry's generated proof verifies on-chain.",
     ["inputs"], "every proof of any length, leaf and root", "Proof length and contents are unbounded.",
     [I, "merkle-tree/src"], [("on-chain verification", I), ("off-chain tree", "merkle-tree/src")])
prop("C16", "Only the entitled party can act, and only on accounts that belong together",
     "Withdrawing, claiming, taking a refund and closing an escrow need the escrow owner's signature; creator withdrawal, fee collection, and managing roots, server metadata and operators need the creator's; closing fixed-price parameters needs their owner's. "
     "Every escrow, root, metadata and operator used must belong to the sale (or its creator) it is used with, vaults and mints must be the recorded ones, derived accounts must sit at their derived addresses, and only the program's own authority moves vault funds.",
     ["inputs", "configurations"], "every set of accounts and signatures passed to any instruction", "Attackers choose all accounts; tests choose a few.",
     [I], [("account constraints", I)])
prop("C17", "A sale is created only with valid parameters and recorded as given",
     "Creation succeeds only if: 0 < minimum cap <= maximum cap; start (now if earlier), end and duration are in order and within 60 s to 30 days, starting at most 30 days ahead; there are 1 to 5 registries, more than one only when permissioned, each with positive supply, buyer limits 0 < maximum, minimum <= maximum <= sale maximum, fee at most 50%; flags and modes are valid; vesting and lock stay under 10 years with a release percentage at most 100% and a consistent release time; and mode-specific price and cap rules hold. "
     "The recorded sale has exactly these parameters, the derived vesting times, total supply equal to the registries' sum and all ledgers zero, at the address derived from base key and both mints. The payer funds the base vault with exactly the total supply after transfer fees.",
     ["inputs", "configurations"], "every parameter set, mode and mint", "The parameter space is huge; tests try a few sets.",
     [I + "initialize_presale", S + "presale_mode_handler", S + "state/presale.rs"], [("parameter validation", I + "initialize_presale")])
prop("C19", "Vault funds move only by the listed operations",
     "Quote leaves a sale's vault only by withdrawal, refund, creator proceeds of a successful sale or fee collection, and base only by claim, unsold-token handling or return after a failed sale, each in one transfer of the amount its rule gives out of that sale's recorded vault under the program's authority. "
     "Every other operation moves no tokens out, creates or closes only the account it is for, and calls no other program.",
     ["inputs", "histories"], "every instruction and path", "Absence of other effects on every path is not testable.", [I, S + "token2022.rs"], [("transfers", S + "token2022.rs")])
prop("C20", "Token-2022 fees, hooks, memos and extensions are handled soundly",
     "Incoming payments are grossed up with the current epoch's transfer fee so that the vault nets exactly the owed amount, and outgoing payments state the fee correctly in the reported amount. "
     "A transfer of a mint with a transfer hook passes the hook's accounts, which are taken from the extra accounts in the order and number the request states; a request naming a kind of hook the operation does not use, naming one twice, or naming more accounts than are left is refused. A payment to an account requiring memos is preceded by a memo, and only plain mints or mints whose extensions are all among transfer fee, metadata pointer, token metadata and transfer hook are accepted at creation.",
     ["inputs", "configurations"], "every mint configuration, fee and amount", "All fee settings and amounts are quantified.", [S + "token2022.rs"], [("fee inclusion, hooks, memo", S + "token2022.rs")])
prop("C21", "Refreshing an escrow is neutral and accurate",
     "Anyone may refresh an escrow: in a successful sale it records as pending exactly the released share not yet claimed and the refresh time, in any other phase it changes nothing; it never reduces the pending amount and touches neither the sale nor any other field, and moves no tokens.",
     ["inputs", "histories"], "every state and time", "All states and times are quantified.", [I + "process_refresh_escrow.rs", S + "state/escrow.rs"], [("refresh", I + "process_refresh_escrow.rs")])
prop("C22", "Sale, registry and escrow ledgers always agree",
     "In every reachable state each sale total (deposits, fees, escrow count, claimed, refunded) equals the sum over its registries, and each registry total equals the sum over its escrows up to closed ones: every operation changes sale, registry and escrow by the same amount and leaves all other registries and escrows alone. "
     "The configuration fields fixed at creation never change afterwards.",
     ["histories"], "every history of operations", "The invariant is inductive over histories.", [S + "state/presale.rs", S + "state/escrow.rs"], [("ledger updates", S + "state/presale.rs")])
prop("C23", "Administrative accounts are created and closed only as entitled",
     "Merkle roots and server metadata are created only by the sale's creator before the sale ends and in a fitting whitelist mode, with exactly the given content at their derived address; a root cannot be closed while the sale is ongoing, and only the creator closes either. "
     "Operators are appointed and revoked only by the appointing creator; fixed-price parameters need a positive price and a boolean withdraw switch, are recorded as given at their derived address, and are closed only by their owner. Rent of operators and of fixed-price parameters returns to that owner.",
     ["inputs", "histories"], "every caller, state and content", "All callers and phases are quantified.", [I], [("admin instructions", I)])
prop("C24", "Arithmetic never wraps: it is exact or the operation fails",
     "Every checked addition, subtraction, multiplication, division and remainder helper, for every integer type, returns the exact mathematical result when it fits the type and an error otherwise, never a wrapped, truncated or saturated value; checked shifts fail exactly when the offset reaches the type's width and otherwise give the machine shift; conversions between integer types and from numbers to modes keep the value or fail. None of them panics. "
     "The fee, immediate-release, per-user share, dripped and cumulative-claim formulas return the exact value, rounded as documented, or an error when it does not fit.",
     ["inputs"], "all operand values of all integer types used", "Only boundary samples are tested.", [S + "math/safe_math.rs", S + "math/fee_math.rs", S + "math/claim_math.rs"], [("checked helpers", S + "math/safe_math.rs"), ("formulas", S + "math/claim_math.rs")])
prop("C25", "Fixed-price conversions never favour the buyer",
     "At price q (64.64 fixed point) an amount a of quote buys floor(a*2^64/q) base tokens, and a deposit is charged ceil(tokens*q/2^64), which buys exactly those tokens, is at most a, and is the least that does. "
     "The price is positive, is recorded as given and never changes.",
     ["inputs"], "every price and amount", "Rounding for all prices and amounts.", [S + "presale_mode_handler/fixed_price_presale.rs"], [("conversion", S + "presale_mode_handler/fixed_price_presale.rs")])
prop("C26", "Each operation emits exactly one event with the true figures",
     "Every successful operation emits exactly one event of its kind (revoking an operator and closing fixed-price parameters emit none or one) whose account keys, amounts and totals are those of the accounts, the amounts actually moved (net of transfer fee where tokens are received by a user) and the totals after the operation.",
     ["inputs"], "every instruction and state", "All amounts are quantified.", [S + "events.rs", I], [("events", S + "events.rs")])

CLAIMED = os.environ.get("CLAIMED", "").split() or None


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
    na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
    skip = {x["property"] for x in na}
    checks = []
    for p in PROPS:
        if p["id"] in skip:
            continue
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                       "technique": "contract-based deductive verification of the compiled program: symbolic execution of the MIR of every instruction, postconditions discharged by z3/cvc5",
                       "level": "proof",
                       "level_note": p["note"] or "Every obligation of the property's clauses on every path of the real instructions is discharged; trusted: rustc to MIR, the executor, solvers, and the listed models of library and runtime calls."})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the verifier reads the compiler's MIR of the unmodified source."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))


main()
