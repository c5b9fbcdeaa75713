"""Monte Carlo, monitoring and calibration objects decode exactly"""
import decode
from common import real_files

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: decoded values checked against an independent bidirectional description of every object type and version"
LEVEL_NOTE = ("exploration: random payloads (counts from zero to thousands, extreme values, over-long integers, all flag combinations), embedded between "
              "other objects, and all objects of these types in the checked-in real files. Trusts the descriptions in lib/spec.py, which are validated "
              "against the real files on every run.")
RULE = ("a case is a file with a batch of objects of these types, all supported (type, version) pairs in turn, decoded at once, late or in random "
        "order; every value is compared; distinct by type, version, id and payload")
CASES = {"quick": 16000, "thorough": 500000}
TYPES = (1215, 2020, 2021, 2022, 2023, 2026, 2033)
REQUIRE = {"decoded": 100000, "large_counts": 1500, "real_objects": 50}
REQUIRE.update({f"type_{t}_v{v}": 100 for t, v in decode.combos(TYPES)})


def run_case(ctx, idx):
    files = real_files()
    if idx < len(files):
        decode.run_real(ctx, TYPES, *files[idx])
    else:
        decode.run(ctx, TYPES, idx)
