"""P10: the compiled CPU kernels stay inside their buffers and give the same result on every thread schedule."""
from checks.p05 import *  # noqa
from checks import kern

META = {
    "level": "other",
    "explanation": "The C++ sources of the CPU operators are abstractly interpreted from clang's syntax tree with symbolic sizes. Bounds: every subscript, copy and fill adds the indicator of an access outside its buffer to a counter carried through the loops, "
                   "whose closed form must be zero. Schedules: OpenMP directives are read from the source; every iteration of a worksharing or simd loop is interpreted from the state before the loop, storage declared outside the region is shared, "
                   "a shared scalar assigned without reduction is a race, the number of iterations that write an element of a shared array must not exceed one, and the result of the isolated iterations must equal the definition of the operator.",
    "assumptions": ["precomputed index tables satisfy their definition (decided by P06 and P08)", "cache block constants replaced by small ones", "CUDA kernels are not analysed", "agreement of differing normal forms decided on sampled sizes"],
}


def run(tier):
    return report.run_tasks(kern.safety_tasks(tier))
