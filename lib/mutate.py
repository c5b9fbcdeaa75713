"""Random damage to bytes"""
import struct

WORDS = (0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x3FFFFFFF,
         0x40000000, 1000, 100000, 0x7FFFFFF0)


def mutate(r, data, n=None):
    b = bytearray(data)
    for _ in range(n or r.choice((1, 1, 1, 2, 3, 8))):
        x = r.random()
        k = r.randrange(len(b)) if b else 0
        if r.random() < 0.4 and b:
            k = min(r.randrange(32), len(b) - 1)    # counts are at the beginning
        if x < 0.25 and b:
            b[k] ^= 1 << r.randrange(8)
        elif x < 0.4 and b:
            b[k] = r.choice((0, 1, 0x7F, 0x80, 0xFF, 0xFE, 0xF0, 0xFC, r.getrandbits(8)))
        elif x < 0.6 and len(b) >= 4:
            k = min(k, len(b) - 4) & ~1
            b[k:k + 4] = struct.pack("<I", r.choice(WORDS))
        elif x < 0.7 and len(b) >= 2:
            k = min(k, len(b) - 2)
            b[k:k + 2] = struct.pack("<H", r.choice(WORDS) & 0xFFFF)
        elif x < 0.8:
            del b[k:k + r.choice((1, 2, 4, r.randint(1, 40)))]
        elif x < 0.9:
            b[k:k] = r.randbytes(r.choice((1, 2, 4, r.randint(1, 40))))
        elif x < 0.95:
            del b[k:]
        elif b:
            j = r.randrange(len(b))
            b[k:k + 8] = b[j:j + 8]
    return bytes(b)
