import random
def consts(words="{}", tokens="{}", n=0): return {"MCWords": words, "MCTokens": tokens, "MCTexts": n}
def codes(s): return [ord(c) for c in s]
def addr6(r):
    k = r.randrange(6)
    if k == 0: return [r.randrange(256) for _ in range(16)]
    w = [r.choice([0, 0, 0, 1, 0xffff, 0x10, 0x100, 0xff00, r.randrange(65536)]) for _ in range(8)]
    if k == 1: w[:6] = [0] * 6
    if k == 2: w[:5] = [0] * 5; w[5] = r.choice([0xffff, 0xffff, 0xfffe, 1])
    if k == 3: w = [r.choice([0, 1]) for _ in range(8)]
    return sum([[x >> 8, x & 255] for x in w], [])
def addr4(r): return [r.choice([0, 1, 9, 10, 99, 100, 199, 200, 254, 255, r.randrange(256)]) for _ in range(4)]
