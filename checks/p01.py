"""P01: sharding and collective sizes of the distributed layers."""
from checks.dist import *  # noqa

META = {
    "level": "other",
    "explanation": "Abstract interpretation of every distributed layer (constructor and forward, callees inlined) over symbolic grid sizes, symbolic group "
                   "sizes and symbolic ranks; each tensor carries symbolic dimension sizes with the balanced split as a primitive. Obligations: every collective's "
                   "buffers have the sizes the peers send, every elementwise/contraction operand agrees, the result has the balanced shard of the serial "
                   "layer's result size and its dtype, and no configuration accepted by the serial layer is rejected.",
    "assumptions": ["torch and torch.distributed operators behave as their transfer functions in sa/torchops.py", "grid sizes >= 3", "a split of S over n ranks is the one computed by compute_split_shapes (its body is checked separately in P03)"],
}


def job(i, gi, tier):
    return compare_case(all_cases(tier)[i], gi, {"layout"})


def run(tier):
    return report.run_tasks(jobs_for(job, tier))
