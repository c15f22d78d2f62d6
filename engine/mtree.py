"""C15, off-chain side: the tree builder of /repo/merkle-tree against the on-chain rule (bounded).

The builder is run as it is on generated whitelists; the judge is an independent statement of the contract the program
proves for proofs: leaf = H(0x00 || H(owner || registry || cap)), nodes = H(0x01 || sorted pair), folded in order.
Every entry given (the last one for an owner named twice) must come back with its registry and cap and with a proof
that folds to the published root; the account address must be the one the program derives for that version.
"""
import hashlib
import json
import os
import random
import subprocess
import time
import conc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.environ.get("MTREE", os.path.join(VERIF, "mtree"))
TARGET = os.path.join(os.environ.get("VBUILD", os.path.join(VERIF, ".build")), "mtgt")


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.87.0", CARGO_TARGET_DIR=TARGET)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=CRATE, env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stderr[-1500:]


def h(*p):
    return hashlib.sha256(b"".join(p)).digest()


def fold(owner, reg, cap, proof):
    n = h(b"\0", h(owner, bytes([reg]), cap.to_bytes(8, "little")))
    for p in proof:
        n = h(b"\1", min(n, p), max(n, p))
    return n


def trees(rng, quick):
    sizes = list(range(1, 36)) + [63, 64, 65, 100, 127, 128, 129, 200, 257]
    if not quick:
        sizes = sizes * 6 + list(range(36, 130)) + [511, 512, 513, 1000, 1025]
    for n in sizes:
        for dup in (False, True) if n in (1, 2, 3, 5, 8, 13) else (n % 7 == 3,):
            es = []
            for _ in range(n):
                owner = rng.randbytes(32) if rng.random() < .95 else bytes([rng.choice((0, 1, 255))]) * 31 + bytes([rng.randrange(256)])
                es.append((owner, rng.randrange(5), rng.choice((1, 255, 256, 1 << 32, (1 << 32) + 7, (1 << 64) - 1, rng.randrange(1, 1 << 64)))))
            if dup:
                for o, r, c in rng.sample(es, rng.randrange(1, len(es) + 1)):
                    es.insert(rng.randrange(len(es) + 1), (o, rng.randrange(5), rng.randrange(1, 1 << 64)))
            yield rng.choice((0, 1, 7, (1 << 64) - 1, rng.randrange(1 << 64))), es


def judge(version, es, out):
    if out in ("error", "panic"):
        return ["a whitelist is turned into a tree (got %s)" % out]
    f = out.split(" ")
    root, addr = bytes.fromhex(f[0]), bytes.fromhex(f[1])
    bad = []
    want = conc.kb(conc.find_pda([b"merkle_root", bytes([7]) * 32, version.to_bytes(8, "little")], int.from_bytes(bytes([9]) * 32, "big")))
    if addr != want:
        bad.append("root account address is the one derived for the version")
    last = {o: (r, c) for o, r, c in es}
    if len(f) != 2 + len(es):
        bad.append("every entry is in the tree")
    for (o, _, _), g in zip(es, f[2:]):
        x = g.split(":")
        proof = [bytes.fromhex(s) for s in x[3].split(",") if s]
        if (bytes.fromhex(x[0]), int(x[1]), int(x[2])) != (o,) + last[o]:
            bad.append("an entry keeps its owner, registry and cap")
        elif fold(o, int(x[1]), int(x[2]), proof) != root:
            bad.append("the generated proof verifies on-chain")
    return sorted(set(bad))


def unit(P, prop, tier):
    t0 = time.time()
    u = {"unit": "off-chain tree builder", "paths": 0, "kinds": {}, "clauses": {}, "bad": [], "stats": {}, "live": True, "functions": [], "contracts": [],
         "builtins": [], "loops": [], "incomplete": {}, "hits": []}
    ok, msg = build()
    if not ok:
        u["skipped"] = "merkle-tree crate does not build: " + msg[-300:]
        return u
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    ts = list(trees(rng, tier == "quick"))
    inp = "\n".join(" ".join([str(v)] + ["%s:%d:%d" % (o.hex(), r, c) for o, r, c in es]) for v, es in ts) + "\n"
    r = subprocess.run([os.path.join(TARGET, "debug", "mtree")], input=inp, capture_output=True, text=True, timeout=400)
    lines = [l[2:] for l in r.stdout.split("\n") if l.startswith("= ")]
    n = 0
    for (v, es), out in zip(ts, lines):
        n += len(es)
        b = judge(v, es, out)
        if b:
            u["hits"].append(("off-chain tree builder", b, json.dumps({"version": str(v), "entries": ["%s:%d:%d" % (o.hex(), r, c) for o, r, c in es[:40]], "output": out[:2000]}), True, None))
            if len(u["hits"]) >= 3:
                break
    if len(lines) != len(ts) and not u["hits"]:
        return dict(u, error="the tree builder stopped after %d of %d whitelists" % (len(lines), len(ts)))
    u["bounded"] = "%d whitelists of up to %d entries (%d proofs) run on the real builder" % (len(ts), max(len(e) for _, e in ts), n)
    u["wall_s"] = round(time.time() - t0, 2)
    return u


if __name__ == "__main__":
    r = unit(None, "C15", "quick")
    print(r)
