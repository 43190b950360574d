#!/usr/bin/env python3
"""Writes pbt/oracle_vectors.txt: digests from Python's hashlib (an implementation unrelated to
the crates) for random parameters, BLAKE2bp/BLAKE2sp composed from hashlib nodes, and the official
BLAKE2bp/BLAKE2sp known answers (from blake2-kat.json). Run by hand; the output is committed."""
import hashlib, json, os, random
R = random.Random(7)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hx = lambda b: b.hex() or "-"
def msg(kind, n):
    return bytes((i & 255) if kind == "seq" else ((i*7 + i//251) % 256) for i in range(n))
L = []
def edge(m): return R.choice([0, 1, m, m-1, R.randint(0, m), 1 << R.randrange(m.bit_length())])
for alg, f, out, salt, blk in (("B", hashlib.blake2b, 64, 16, 128), ("S", hashlib.blake2s, 32, 8, 64)):
    lens = [0, 1, blk-1, blk, blk+1, 2*blk-1, 2*blk, 2*blk+1, 1000, 5000] + [R.randint(0, 3000) for _ in range(120)]
    for n in lens:
        k = bytes(R.randrange(256) for _ in range(R.choice([0, 0, 1, out, R.randint(0, out)])))
        s = bytes(R.randrange(256) for _ in range(R.choice([0, salt, R.randint(0, salt)])))
        q = bytes(R.randrange(256) for _ in range(R.choice([0, salt, R.randint(0, salt)])))
        hl = R.choice([out, R.randint(1, out)])
        fan, md = R.randint(0, 255), R.randint(1, 255)
        ml, no = edge(2**32-1), edge(2**64-1 if alg == "B" else 2**48-1)
        nd, il, ln = R.randint(0, 255), R.randint(0, out), R.random() < .5
        d = f(msg("mul", n), digest_size=hl, key=k, salt=s, person=q, fanout=fan, depth=md, leaf_size=ml,
              node_offset=no, node_depth=nd, inner_size=il, last_node=ln).hexdigest()
        L.append(f"{alg} {hl} {hx(k)} {hx(s)} {hx(q)} {fan} {md} {ml} {no} {nd} {il} {int(ln)} {n} mul {d}")
for alg, f, out, blk, lanes in (("BP", hashlib.blake2b, 64, 128, 4), ("SP", hashlib.blake2s, 32, 64, 8)):
    for n in [0, 1, blk, blk*lanes-1, blk*lanes, blk*lanes+1] + [R.randint(0, 20*blk*lanes) for _ in range(40)]:
        m = msg("mul", n)
        root = f(digest_size=out, fanout=lanes, depth=2, node_depth=1, inner_size=out, last_node=True)
        for i in range(lanes):
            leaf = f(digest_size=out, fanout=lanes, depth=2, node_offset=i, inner_size=out, last_node=i == lanes-1)
            for o in range(i*blk, n, lanes*blk): leaf.update(m[o:o+blk])
            root.update(leaf.digest())
        L.append(f"{alg} {out} - - - 1 1 0 0 0 0 0 {n} mul {root.hexdigest()}")
for v in json.load(open("/repo/tests/blake2-kat.json")):
    a = {"blake2bp": "BP", "blake2sp": "SP", "blake2b": "B", "blake2s": "S"}.get(v["hash"])
    if not a: continue
    m = bytes.fromhex(v["in"])
    if len(m) % 3 and len(m) < 250: continue
    assert m == msg("seq", len(m))
    L.append(f"{a} {len(v['out'])//2} {v['key'] or '-'} - - 1 1 0 0 0 0 0 {len(m)} seq {v['out']}")
# documentation examples with short digests (blake2bp.rs, blake2sp.rs)
L.append(f"BP 16 {hx(b'The Magic Words are Squeamish Ossifrage')} - - 1 1 0 0 0 0 0 0 x{b'foobarbaz'.hex()} e69c7d2c42a5ac14948772231c68c552")
L.append(f"SP 16 {hx(b'Squeamish Ossifrage')} - - 1 1 0 0 0 0 0 0 x{b'foobarbaz'.hex()} 9a604f1653c25063debb3aeea79671c0")
with open(os.path.join(here, "pbt/oracle_vectors.txt"), "w") as o:
    o.write("# alg hash_length key salt personal fanout depth leaf_length node_offset node_depth inner_length last_node msg_len msg_kind digest\n")
    o.write("\n".join(L) + "\n")
print(len(L))
