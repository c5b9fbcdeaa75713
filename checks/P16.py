"""ADC sums and samples are reproduced losslessly"""
import numpy as np

import decode
import evt
import spec
from common import raises, real_files
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: decoded ADC data checked against the encoded values by an independent encoder, unsupported modes checked for refusal"
LEVEL_NOTE = ("exploration: random traces and sums (smooth, random and extreme values, over-long integers) in every supported zero suppression mode, 0 to "
              "3000 pixels, 1 and 2 gains, 0 to 128 samples, and all ADC objects of the checked-in real files; all data reduction modes refused. "
              "Objects with one pixel (sums) or one sample are compared up to axes of length one, because the reader squeezes them.")
RULE = ("a case is a file with a batch of ADC objects of random modes, each value compared, and a number of unsupported modes; "
        "distinct by type, id and payload")
CASES = {"quick": 6000, "thorough": 200000}
TYPES = (2012, 2013)
REQUIRE = {"decoded": 40000, "real_objects": 20, "refused": 5000, "two_gains": 8000, "empty": 500,
           "sums_mode_0": 3000, "sums_mode_1": 3000, "sums_mode_2": 3000, "samples_mode_0": 3000, "samples_suppressed": 3000,
           "partly_filled_last_group": 300,
           "long_lists": 1, "many_pixels": 25, "many_pixels_two_gains": 10}


def extra(ctx, o, n):
    tel = n.id >> 12 & 0xFFFF
    ctx.check(o.telescope_id == tel, lambda: f"{n}: telescope {o.telescope_id}, stored {tel}")
    a = np.asarray(getattr(n.value, "value", n.value))
    mode = n.id & 0x1F
    if n.type == 2012:
        ctx.count(f"sums_mode_{mode}")
        if mode == 2 and np.count_nonzero(a) > 4000:
            ctx.count("long_lists")
        if mode == 1 and a.shape[1] % 16:
            ctx.count("partly_filled_last_group")
    else:
        ctx.count("samples_suppressed" if mode else "samples_mode_0")
        if mode and a.ndim == 3 and a.size and np.count_nonzero(a.any(axis=2).any(axis=0)) >= 1000:
            ctx.count("many_pixels")
            if a.shape[0] == 2:
                ctx.count("many_pixels_two_gains")
    if a.shape[0] == 2:
        ctx.count("two_gains")
    if not a.size:
        ctx.count("empty")
    ctx.peak("pixels", a.shape[1])


def refused(ctx):
    """unsupported modes in the id of otherwise valid objects"""
    from eventio import EventIOFile
    r = ctx.rng
    nodes = []
    for _ in range(6):
        t = r.choice(TYPES)
        n = decode.make(ctx, t, 3, {"n_pixels": r.randint(2, 20), "n_samples": r.randint(2, 8)})
        red = r.randint(1, 31)
        x = r.random()
        if x < 0.5:
            n.id = n.id & ~0x3FF | r.randint(0, 31) | red << 5
        elif t == 2012:
            n.id = n.id & ~0x3FF | r.randint(3, 31)
        else:
            n.id |= 0x400
        nodes.append(n)
    p = ctx.write("r", evt.encode_file([Node(2010, 1, 0, children=nodes)]))
    with EventIOFile(p) as f:
        for o, n in zip(next(f), nodes):
            raises(ctx, NotImplementedError, o.parse, f"{n} with data reduction mode {n.id >> 5 & 31}, zero suppression "
                   f"{n.id & 31}, list known {n.id >> 10 & 1}")
            ctx.count("refused")


def run_case(ctx, idx):
    files = real_files()
    if idx < len(files):
        decode.run_real(ctx, TYPES, *files[idx])
        return
    decode.run(ctx, TYPES, idx, extra, batch=8)
    refused(ctx)
