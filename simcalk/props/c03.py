from . import _batch

LEVEL = "fault_enumeration"
BUDGET = {"quick": (900, 100), "thorough": (20000, 1500)}
REAL, STUB, ASSUME = _batch.REAL, _batch.STUB, _batch.ASSUME
RULE = (
    "a run = a generated metadata table with its files, one to three calibrate/solve/calkulate calls and seeded "
    "storage faults, corrupted contents, invalid settings and allocation failures; non-trivial if at least one "
    "fault fired or content was corrupted; distinct by the digest of the run's event trace"
)


def gen(rng, tier, i):
    return _batch.gen_batch(rng, tier, "C03")


def run(ctx, plan):
    return _batch.run_batch(ctx, plan, "C03")


shrink = _batch.shrink_batch
