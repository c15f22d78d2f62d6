"""Assumptions, trusted base, and obligations that are not tied to one instruction."""
import fspec
import parsespec
import lemmas
import mtree

EXTRA = {p: [("functions", fspec.unit)] for p in ("C24", "C25", "C03", "C06")}
EXTRA["C20"] = [("hook account parser", parsespec.unit)]
EXTRA["C15"] = [("off-chain tree builder", mtree.unit)]
EXTRA["C07"] = EXTRA["C09"] = [("lemmas", lemmas.unit)]
TRUSTED = [
    "rustc nightly front end up to MIR (mir-opt-level 0)",
    "engine/ (MIR symbolic executor, obligation generator, rewriting simplifier)",
    "z3 4.x / cvc5 unsat answers",
    "models of std, anchor-lang, spl-token(-2022), solana runtime calls in engine/vbuiltins.py",
]
ASSUMPTIONS = [
    "token programs move exactly the requested amount minus the mint's transfer fee, or fail",
    "sha256 and program-derived-address derivation are uninterpreted functions (equal inputs give equal outputs)",
    "the Solana runtime enforces signer, ownership and rollback-on-error rules",
    "functions called only to format log or error messages have no effect on state",
]
