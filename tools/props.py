def q(over, text):
    return {"over": over, "text": text}


def a(files, mech, **kw):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    d.update(kw)
    return d


D = "torch_harmonics/distributed/"
NOTES = "Static analysis only: an abstract interpreter over the Python sources (sa/), a C++/Python rule engine, no execution of the analysed code and no solver."
AI = "abstract interpretation of the Python source with symbolic sizes and value numbering"
PROPS = [
    dict(id="P01", title="Distributed layers keep the balanced sharding and never mis-size a collective",
         statement="On every process grid, each rank of a distributed transform, quadrature, resampling, spectral or discrete-continuous (DISCO) convolution ends with exactly its balanced shard of the serial layer's result shape and its dtype. "
                   "Every collective it issues is given buffers of the sizes its peers send, and no input for which every rank owns data of each sharded dimension is rejected when the serial layer accepts it.",
         quantifier=q(["inputs", "configurations"], "all grid sizes, truncations, batch/channel counts, process-grid shapes and ranks, even and uneven splits"),
         why_tests_cant="tests run a few divisible sizes on the one process grid available; uneven splits, small batches and unequal polar/azimuth groups are combinatorial, and the distributed tests do not run on one machine",
         anchors=a([D + "distributed_sht.py", D + "distributed_quadrature.py", D + "distributed_resample.py", D + "distributed_spectral_convolution.py", D + "distributed_convolution.py", D + "kernels/distributed_convolution_kernels.py", D + "primitives.py"],
                   [("balanced splits and transposes in each layer's forward", D + "distributed_sht.py"), ("balanced split sizes", D + "primitives.py compute_split_shapes"), ("leading-dimension padding", D + "primitives.py flatten_and_pad_leading_dims")]),
         technique=AI + "; shape/collective obligations per path",
         level_note="Every path of every layer on symbolic group sizes and ranks; equality of size expressions by normal form, refutation by random interpretation of the expressions. Assumes the modelled torch operator semantics."),
    dict(id="P02", title="A distributed layer computes its shard of the serial layer's result",
         statement="For the same global input and parameters, every rank's output of a distributed transform, quadrature, resampling, spectral or discrete-continuous (DISCO) convolution equals the corresponding shard of the serial layer's output, up to rounding.",
         quantifier=q(["inputs", "configurations"], "all inputs, grid sizes, truncations, normalisations, process grids and ranks"),
         why_tests_cant="agreement on sampled sizes on one process grid says nothing about other splits, ranks, grids or options",
         anchors=a([D + "distributed_sht.py", D + "distributed_quadrature.py", D + "distributed_resample.py", D + "distributed_spectral_convolution.py", D + "distributed_convolution.py", D + "kernels/distributed_convolution_kernels.py", "torch_harmonics/sht.py", "torch_harmonics/resample.py"],
                   [("distributed forward passes", D + "distributed_sht.py"), ("serial forward passes", "torch_harmonics/sht.py")]),
         technique=AI + "; per-element value number of the distributed result against the serial one",
         level_note="Element value numbers with symbolic indices compared in normal form; a difference is confirmed by random interpretation before it is reported. Exact arithmetic, uninterpreted Legendre/quadrature tables."),
    dict(id="P03", title="Communication primitives move exactly the data they say, forward and backward",
         statement="Each public communication primitive (transpose, copy, reduce, scatter, gather, reduce-scatter, halo exchange) yields on every rank exactly its defining rearrangement or sum of the ranks' inputs, and its backward pass is the adjoint map. "
                   "Balanced splitting gives non-empty chunks in rank order that add up to the whole and differ by at most one.",
         quantifier=q(["inputs", "configurations"], "all tensor sizes, dimensions, group sizes and ranks, including sizes not divisible by the group size"),
         why_tests_cant="uneven chunks, negative dimensions, backward passes and odd group sizes multiply beyond what a multi-process test samples",
         anchors=a([D + "primitives.py", D + "utils.py"], [("autograd functions", D + "primitives.py"), ("balanced split", D + "primitives.py compute_split_shapes")]),
         technique=AI + "; forward and backward of each autograd function against its defining map",
         level_note="All paths on a symbolic group; point-to-point receives are matched with the peer's sends. Exact arithmetic."),
    dict(id="P04", title="All ranks of a group make the same collective calls in the same order",
         statement="On every process grid, the ranks sharing a communication group issue the same sequence of collectives in a distributed layer's forward pass and in each primitive's forward and backward pass. "
                   "Sends and receives pair up with equal shapes, and an error raised because of sizes or configuration is raised by all of them, so no rank waits forever.",
         quantifier=q(["inputs", "configurations", "schedules"], "all sizes, process grids, ranks and rank-local data"),
         why_tests_cant="a deadlock needs the one grid, rank and data on which two ranks branch differently; the distributed tests do not run here and never vary rank-local data",
         anchors=a([D + "primitives.py", D + "distributed_sht.py", D + "distributed_resample.py", D + "distributed_convolution.py", D + "distributed_spectral_convolution.py"],
                   [("collective call sites", D + "primitives.py"), ("data-dependent branches of the layers", D + "distributed_resample.py")]),
         technique=AI + "; collective traces per path compared across the coordinates of one process grid",
         level_note="Paths enumerated up to a limit (reported); loops over a symbolic number of pieces are assumed to issue the same calls in each iteration."),
    dict(id="P05", title="Serial transforms, quadrature rules and Legendre tables are the ones they are named after",
         statement="RealSHT, InverseRealSHT and their vector versions compute the documented sums of Legendre functions, quadrature weights and Fourier modes for every grid, normalisation, phase and truncation. "
                   "Nodes and weights of each quadrature rule, the Legendre tables and their derivatives, default truncations and surface integrals are those of the definition, including odd and even sizes and truncations beyond the grid.",
         quantifier=q(["inputs", "configurations"], "all fields, grid sizes, truncations, grids, normalisations and phase conventions"),
         why_tests_cant="tests compare a few sizes with each other or with scipy; parity of nlon, Nyquist and DC handling, non-default norms and truncations beyond the grid are rarely combined",
         anchors=a(["torch_harmonics/sht.py", "torch_harmonics/quadrature.py", "torch_harmonics/legendre.py", "torch_harmonics/fft.py", "torch_harmonics/truncation.py"],
                   [("forward passes", "torch_harmonics/sht.py"), ("recurrences", "torch_harmonics/legendre.py"), ("node and weight formulas", "torch_harmonics/quadrature.py")]),
         technique=AI + "; loops as recurrences; value number against the defining formula",
         level_note="Each path's value number is compared with the definition's; normal forms that differ are separated by interpreting both on sampled sizes (tolerance 1e-6), so agreement is probabilistic in the sizes. Exact arithmetic."),
    dict(id="P06", title="DISCO layers and their gradients are the documented contraction on every code path",
         statement="DiscreteContinuousConvS2 and its transpose, on the reference path, on each optimized, fused or k-packed Python path and in the compiled CPU contraction kernels, contract weights, filter tensor and input as documented, for all sizes, channel counts, groups, dtypes and options. "
                   "The backward pass registered for each of their operators is the derivative of its forward pass with respect to every differentiable input.",
         quantifier=q(["inputs", "configurations"], "all inputs, weights, grid sizes, integer longitude ratios, groups, bias and kernel-path options"),
         why_tests_cant="tests compare paths on a few sizes, mostly one group and one dtype; several paths (k-packed, fused backward, bf16) are not reachable on this hardware",
         anchors=a(["torch_harmonics/disco/convolution.py", "torch_harmonics/disco/kernels_torch/disco_torch.py", "torch_harmonics/disco/optimized/disco_optimized.py", "torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_fwd.cpp"],
                   [("layer forward passes", "torch_harmonics/disco/convolution.py"), ("reference contraction", "torch_harmonics/disco/kernels_torch/disco_torch.py"), ("registered operators and their backward", "torch_harmonics/disco/optimized/disco_optimized.py"), ("compiled CPU kernels", "torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_fwd.cpp")]),
         technique=AI + " and of the C++ kernels' clang syntax tree; forward against the definition, registered backward against the symbolic derivative of the forward",
         level_note="CPU kernels are interpreted from clang's AST for every dispatch path; CUDA kernels are not analysed; the filter tensor is arbitrary. Exact arithmetic; agreement of differing normal forms is probabilistic in the sampled sizes."),
    dict(id="P07", title="DISCO filter bases and the precomputed filter tensor are the ones documented",
         statement="Each filter basis (piecewise linear, harmonic, Zernike, Fourier-Bessel) lists exactly the points of its support with the documented basis value, norm, kernel size and isotropy flags. "
                   "The precomputed tensor holds, for each output latitude, those values at the rotated input points, scaled by the documented normalisation mode and quadrature weights, with row offsets that delimit each output row.",
         quantifier=q(["configurations"], "all kernel shapes, cutoffs, grids, grid sizes, normalisation modes, and both the forward and the transpose normalisation"),
         why_tests_cant="tests check a handful of kernel shapes and one cutoff; even/odd kernel shapes, periodic wrap, unequal input and output grids and normalisation modes multiply",
         anchors=a(["torch_harmonics/filter_basis.py", "torch_harmonics/disco/convolution.py"],
                   [("basis evaluation", "torch_harmonics/filter_basis.py compute_support_vals"), ("rotation and normalisation", "torch_harmonics/disco/convolution.py _precompute_convolution_tensor_s2")]),
         technique=AI + "; densified sparse result against the defining formula",
         level_note="Piecewise linear, harmonic and Zernike bases for symbolic shapes; Fourier-Bessel and isotropy flags for enumerated small shapes. Agreement is probabilistic in the sampled sizes (tolerance 1e-6); points on a support boundary up to rounding are not distinguished."),
    dict(id="P08", title="Spherical attention equals its quadrature-weighted softmax definition, forward and backward",
         statement="AttentionS2 and NeighborhoodAttentionS2 return, for every query point, the projection of the average of the projected values weighted by exp(scale * q.k) times the quadrature weight of the key's latitude, "
                   "over all key points resp. over the key points in the geodesic neighbourhood, separately for each head, in every direction (self, downsampling, upsampling), on the reference path and on the optimized path including its compiled CPU kernels. "
                   "The registered backward passes are the exact derivatives of the forward passes, and large logits do not overflow.",
         quantifier=q(["inputs", "configurations"], "all grid sizes with an integer longitude ratio, channel and head counts, neighbourhood patterns, scales, normalisation and bias options, key/value defaults and aliasing"),
         why_tests_cant="tests compare reference and optimized paths on a few shapes, so an error shared by both paths, or one that needs unequal key and value widths, several heads with upsampling, or aliased inputs, is not seen",
         anchors=a(["torch_harmonics/attention/attention.py", "torch_harmonics/attention/kernels_torch/attention_torch.py", "torch_harmonics/attention/optimized/attention_optimized.py", "torch_harmonics/attention/_layout.py", "torch_harmonics/attention/_attention_utils.py"],
                   [("layers", "torch_harmonics/attention/attention.py AttentionS2.forward, NeighborhoodAttentionS2.forward"), ("reference kernels and gradients", "torch_harmonics/attention/kernels_torch/attention_torch.py"), ("operator registration", "torch_harmonics/attention/optimized/attention_optimized.py"), ("compiled CPU kernels", "torch_harmonics/attention/optimized/kernels_cpu")]),
         technique=AI + " and of the C++ kernels' clang syntax tree; loops as recurrences, symbolic differentiation of the definition",
         level_note="Symbolic sizes; agreement is probabilistic in the sampled sizes (tolerance 1e-6). CPU kernels are interpreted from clang's AST with the cache block replaced by small ones; CUDA kernels are not analysed."),
    dict(id="P09", title="Resampling, spectral convolution and random fields follow their documented formulas",
         statement="ResampleS2 interpolates linearly (or along the arc) between the neighbouring latitudes and periodic longitudes for every pair of grids, extending the field to the poles by the mean of the nearest row, and never indexes outside its tables. "
                   "SpectralConvS2 mixes channels within each group by degree between a forward and an inverse SHT truncated to both grids, with the bias scaled by the input's integral, and keeps the input's dtype. "
                   "GaussianRandomFieldS2 scales its noise by the documented spectrum with zero mean mode.",
         quantifier=q(["inputs", "configurations"], "all grid sizes and grid types, modes, channel and group counts, field parameters"),
         why_tests_cant="tests use a few shapes and mostly smooth fields; coinciding latitudes, poles outside one grid, wrap-around longitudes, decreasing values and groups larger than one multiply",
         anchors=a(["torch_harmonics/resample.py", "torch_harmonics/spectral_convolution.py", "torch_harmonics/random_fields.py"],
                   [("interpolation tables and blending", "torch_harmonics/resample.py ResampleS2"), ("grouped contraction", "torch_harmonics/spectral_convolution.py SpectralConvS2.forward"), ("spectrum", "torch_harmonics/random_fields.py GaussianRandomFieldS2")]),
         technique=AI + "; value number against the defining formula, range of every computed index",
         level_note="Symbolic sizes; agreement of differing normal forms is probabilistic in the sampled sizes (tolerance 1e-6). Exact arithmetic; the sampler of the random noise is not analysed."),
    dict(id="P10", title="CPU kernels stay inside their buffers and do not depend on the thread schedule",
         statement="The compiled CPU operators (DISCO forward/backward, attention forward/backward in gather and upsampling geometry, layout permutations, preprocess_psi) never read or write outside a tensor or scratch buffer for any valid arguments, "
                   "and return the same values for every number of OpenMP threads and every assignment of iterations to threads: no two iterations of a parallel loop write the same element, no iteration uses what another left in scratch storage, and every reduction is declared.",
         quantifier=q(["inputs", "schedules"], "all sizes, channel and head counts, sparsity patterns; all numbers of threads and iteration orders"),
         why_tests_cant="a race or an overrun shows only for particular thread counts, sizes and heap layouts; tests run a few small shapes on one machine",
         anchors=a(["torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_fwd.h", "torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_bwd.h", "torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_fwd.h", "torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd.h", "torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd_upsample.cpp", "torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_fwd_upsample.cpp"],
                   [("per-thread scratch and worksharing loops", "disco_cpu_fwd.h disco_fwd_cpu_impl"), ("scatter accumulation", "disco_cpu_bwd.h"), ("blocked online softmax", "attention_cpu_fwd.h")]),
         technique="abstract interpretation of the C++ syntax tree: bounds counters, write-once marks and isolated-iteration semantics for OpenMP loops",
         level_note="Symbolic sizes, decided on sampled sizes; index tables as defined. CUDA kernels and the Python extension loader are not analysed."),
    dict(id="P11", title="Calls leave no trace: arguments, cached tables and other layers are unaffected",
         statement="Building or calling any layer, transform or table function never changes a tensor or list passed by the caller, nor a cached table that other callers receive (quadrature nodes, Legendre tables, filter tensors): cached results are handed out as independent copies. "
                   "A result depends only on the arguments: it is the same whatever layers were built before and whatever inputs (dtype, batch size) the layer saw before, and results do not share storage with layer state.",
         quantifier=q(["histories", "inputs"], "all sequences of constructions and calls, all sizes and options"),
         why_tests_cant="aliasing and stale caches need a particular earlier call with almost the same arguments; each test starts from fresh objects",
         anchors=a(["torch_harmonics/cache.py", "torch_harmonics/legendre.py", "torch_harmonics/quadrature.py", "torch_harmonics/sht.py", "torch_harmonics/disco/convolution.py", "torch_harmonics/resample.py"],
                   [("copying cache", "torch_harmonics/cache.py lru_cache"), ("tables", "torch_harmonics/legendre.py _precompute_legpoly"), ("layers", "torch_harmonics/sht.py RealSHT.forward")]),
         technique=AI + "; storage-origin (alias and effect) analysis, and value numbers compared between different call histories",
         level_note="Symbolic sizes; histories of two constructions (differing in one argument) and two calls. functools.lru_cache itself is trusted."),
]
NA = [
    dict(id="P90", title="Transforms are accurate to rounding and quadrature exact to its degree",
         statement="Synthesis followed by analysis of a band-limited field returns the coefficients to rounding error, and each quadrature rule integrates polynomials up to its degree exactly.",
         quantifier=q(["inputs"], "all band limits and grids"), why_tests_cant="rounding depends on every size",
         anchors=a(["torch_harmonics/legendre.py", "torch_harmonics/quadrature.py"], [("recurrences and node solvers", "torch_harmonics/legendre.py")]),
         reason="bounding rounding error of the Legendre recurrence and of iterative node solvers over all sizes needs numerical analysis or execution, not a static argument over the source"),
]
