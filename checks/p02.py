"""P02: a distributed layer's local result is the serial layer's result restricted to the local shard."""
from checks.dist import *  # noqa

META = {
    "level": "other",
    "explanation": "Global value numbering: the distributed layer (on a symbolic process grid) and the serial layer are abstractly interpreted into value numbers "
                   "(polynomials over named tables, finite sums and index functions); the local value number at local index i must equal the serial one at offset+i. "
                   "Different normal forms are separated by an interpretation of the value numbers in random finite structures (never by running the code), "
                   "so an alarm names index and sizes where the two value numbers differ.",
    "assumptions": ["torch and torch.distributed operators behave as their transfer functions in sa/torchops.py", "quadrature nodes/weights and Legendre tables are uninterpreted functions of their arguments", "exact real arithmetic", "grid sizes >= 3"],
}


def job(i, gi, tier):
    return compare_case(all_cases(tier)[i], gi, {"value"})


def run(tier):
    return report.run_tasks(jobs_for(job, tier))
