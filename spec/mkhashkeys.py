#!/usr/bin/env python3
"""Makes hashkeys.ndjson: families of string keys whose positions in small
tables collide, with the residues of their two hash values. Only a generator:
the map is judged by FMap.tla whatever the hash values are."""
import json, random, itertools, os, sys
M = (1 << 64) - 1
rot = lambda x, b: ((x << b) | (x >> (64 - b))) & M


def siphash(key, data):
    k0, k1 = int.from_bytes(key[:8], "little"), int.from_bytes(key[8:], "little")
    v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573]

    def rnd():
        v[0] = (v[0] + v[1]) & M; v[1] = rot(v[1], 13) ^ v[0]; v[0] = rot(v[0], 32)
        v[2] = (v[2] + v[3]) & M; v[3] = rot(v[3], 16) ^ v[2]
        v[0] = (v[0] + v[3]) & M; v[3] = rot(v[3], 21) ^ v[0]
        v[2] = (v[2] + v[1]) & M; v[1] = rot(v[1], 17) ^ v[2]; v[2] = rot(v[2], 32)
    n = len(data)
    full = n - n % 8
    for i in range(0, full, 8):
        m = int.from_bytes(data[i:i + 8], "little")
        v[3] ^= m; rnd(); rnd(); v[0] ^= m
    m = (n & 255) << 56 | int.from_bytes(data[full:], "little")
    v[3] ^= m; rnd(); rnd(); v[0] ^= m
    v[2] ^= 255
    for _ in range(4):
        rnd()
    return v[0] ^ v[1] ^ v[2] ^ v[3]


SIZES = (3, 7, 17, 37, 79, 163)
KEYS = (b"someverylongpass", b"myotherverylongk")


def entry(s):
    h = [siphash(k, s.encode()) for k in KEYS]
    return {"s": s, "h1": [h[0] % c for c in SIZES], "h2": [h[1] % c for c in SIZES]}


def main():
    rng = random.Random(7)
    pool = [entry(s) for s in dict.fromkeys(
        ["", "a", "b", "ab", "apple", "english", "x" * 70] + ["".join(rng.choice("abcdefgh019:_ \u00e9") for _ in range(rng.randint(1, 12))) for _ in range(60000)])]
    fams = []
    at = lambda e, i: {e["h1"][i], e["h2"][i]}
    # all of one slot in the table of 3, of two slots in that of 7, few in 17
    for slots3, slots7, slots17, n in (({0}, {0, 1}, {0, 1, 2, 3, 4, 5}, 4), ({1, 2}, {2, 3, 4}, {0, 5, 9, 11}, 5), ({0, 1, 2}, {5, 6}, {1, 7, 8, 16}, 5),
                                      ({2}, {0, 3}, {4, 5, 6, 7, 10, 12}, 4), ({0, 1}, {1, 2, 4}, {2, 3, 13}, 5), ({0, 1, 2}, {0, 1, 2, 3}, {0, 1, 2, 3, 4}, 6),
                                      ({0, 2}, {6}, set(range(17)), 4), ({0, 1, 2}, set(range(7)), {3, 4}, 5)):
        c = [e for e in pool if at(e, 0) <= slots3 and at(e, 1) <= slots7 and at(e, 2) <= slots17]
        c = [e for e in c if len(at(e, 3)) == 2]
        if len(c) < n:
            print("only", len(c), slots3, slots7, slots17, file=sys.stderr)
        fams.append({"keys": rng.sample(c, min(n, len(c)))})
    # arbitrary keys
    for n in (4, 5, 6):
        fams.append({"keys": rng.sample(pool, n)})
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "hashkeys.ndjson"), "w") as f:
        for x in fams:
            f.write(json.dumps(x) + "\n")


if __name__ == "__main__":
    main()
