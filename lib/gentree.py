"""Random eventio files: any nesting of any object types"""
import evt
import classes
import spec
from evt import Node

EXTREME_IDS = (0, 1, -1, 2**31 - 1, -2**31, 255, 256, 1000, 999999)


def rand_id(r):
    return r.choice(EXTREME_IDS) if r.random() < 0.3 else r.randint(-2**31, 2**31 - 1)


def rand_version(r):
    x = r.random()
    return r.choice((0, 1, 1000, 4095, 2048)) if x < 0.4 else r.randint(0, 4095)


def unknown_type(r):
    while True:
        t = r.choice((0, 1, 65535, 65534, 32767, 32768, 2099, 2300, 12100, 12200, 73, 74, 101, 1199, 1217, 1999, 2018, 2035)) \
            if r.random() < 0.4 else r.randint(0, 65535)
        if classes.expected_class(t) == classes.GENERIC:
            return t


def payload(r, maxlen=60):
    n = r.choice((0, 0, 1, 3, 4, 8)) if r.random() < 0.3 else r.randint(0, maxlen)
    b = r.randbytes(n)
    if r.random() < 0.1:
        b = evt.SYNC_LE + b            # a marker inside of a payload is just data
    return b


def leaf(r, nrng, maxlen=60):
    x = r.random()
    if x < 0.4:
        n = Node(unknown_type(r), rand_id(r), rand_version(r), payload(r, maxlen))
    elif x < 0.6:
        t = r.choice([k for k in classes.known_types()])
        b = payload(r, maxlen)
        if t in (1201, 1205):
            b = r.randbytes(12) + b
        n = Node(t, rand_id(r), rand_version(r), b)
    elif x < 0.7:
        tel = r.randint(0, 999)
        if r.random() < 0.5:
            n = Node(spec.telescope_type(2100, tel), spec.split_tel(tel, r.getrandbits(16) << 8 | r.getrandbits(1) << 30),
                     rand_version(r), payload(r, 20))
        else:
            n = Node(spec.telescope_type(2200, tel), rand_id(r), rand_version(r), payload(r, 20))
    else:
        t = r.choice([k for k in spec.SPECS if k != 2100])
        n = spec.SPECS[t].generate(r, nrng, hint={"n_pixels": r.randint(0, 6), "n_samples": r.randint(0, 5)})
    n.user = r.random() < 0.3
    n.extended = r.random() < 0.3
    return n


def tree(r, nrng, depth, maxlen=60, fan=4):
    if depth <= 0 or r.random() < 0.55:
        return leaf(r, nrng, maxlen)
    x = r.random()
    if x < 0.4:
        t = r.choice(classes.CONTAINERS)
    elif x < 0.6:
        t = spec.telescope_type(2200, r.randint(0, 999))
    elif x < 0.75:
        # container flag on any type whose class does not look into the payload
        t = r.choice([k for k in classes.known_types() if k not in (1201, 1205)])
    else:
        t = unknown_type(r)
    return Node(t, rand_id(r), rand_version(r),
                children=[tree(r, nrng, depth - 1, maxlen, fan) for _ in range(r.choice((0, 1, 2, r.randint(0, fan))))],
                user=r.random() < 0.3, extended=r.random() < 0.3)


def deep(r, nrng, depth):
    n = leaf(r, nrng)
    for _ in range(depth):
        kids = [n]
        if r.random() < 0.2:
            kids.insert(r.randint(0, 1), leaf(r, nrng))
        n = Node(r.choice(classes.CONTAINERS), rand_id(r), rand_version(r), children=kids)
    return n


def forest(r, nrng, n=None, depth=3, maxlen=60):
    n = r.randint(1, 8) if n is None else n
    out = []
    while len(out) < n:
        if r.random() < 0.15:
            # runs of the same type
            t = unknown_type(r) if r.random() < 0.3 else r.choice((2021, 2020, 71, 2031, 1206))
            out += [Node(t, k, 0, payload(r, 20)) for k in range(r.randint(2, 9))]
        else:
            out.append(tree(r, nrng, depth, maxlen))
    return out
