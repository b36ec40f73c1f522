AI = "abstract interpretation of MIR: parametric array value-flow to normal forms, "
BASE = "Decided for all sizes, data and orders from the MIR of the current tree; trusts the compiler's MIR, the library models (engine/models.py) and exact real arithmetic."
CLAIMS = {
    "C01": (AI + "index intervals of every unchecked access", BASE),
    "C04": (AI + "degree and constant term of the outputs in the data", BASE),
    "C10": (AI + "equality of the conversion with the reported stencil", BASE),
    "C11": (AI + "normal equations of the stencil", BASE),
    "C12": (AI + "boundary functionals of the reported stencil", BASE),
    "C02": (AI + "path conditions of normal return", BASE),
    "C03": (AI + "dependence of outputs on previous content", BASE),
    "C05": (AI + "equality of parallel and serial normal forms", BASE + " Parallel iterators are modelled as order-free maps over disjoint lanes."),
    "C06": (AI + "equality of allocating and in-place normal forms and extents", BASE),
    "C07": (AI + "comparison with the composition of opaque per-axis operators", BASE),
    "C08": (AI + "comparison with the composition of opaque per-axis derivatives and scales", BASE),
    "C09": (AI + "per-axis query provenance", BASE),
    "C13": (AI + "rows of the banded system as rational identities over the recursive definitions", BASE + " Pivots are assumed not to vanish; identities are decided by evaluation in a 61-bit prime field (error below 1e-40)."),
    "C14": (AI + "synthesis and inversion identities of the transform kernels", BASE + " The external DCT is taken at its documented definition (C31)."),
    "C15": (AI + "synthesis, conjugate symmetry and wavenumbers of the transform kernels", BASE + " The external FFT is taken at its documented definition (C31)."),
    "C16": (AI + "the derivative recurrence and the closed forms of the matrices", BASE),
    "C17": (AI + "rows of the product of pseudo-inverse and differentiation matrix", BASE),
    "C18": (AI + "per-mode multiplier of every reported wavenumber", BASE),
    "C19": (AI + "length and entries of the reported grids", BASE),
    "C20": (AI + "intervals of every integer operation reached from constructors and matrices", BASE),
    "C21": (AI + "effect analysis of statics, thread locals, cells, locks, atomics and pointer casts reached by any operation; where there are any, equality of each call with itself after an earlier, concurrent or repeated call; auto-trait queries for sharing", BASE + " The external transform plans are taken as stateless (C31)."),
    "C22": (AI + "comparison with the composition of stencil and orthogonal operations", BASE),
    "C23": (AI + "tiling identities of the distribution tables", BASE + " Holds for every rank and process count with at least one point per process."),
    "C24": (AI + "matching of counts, displacements and packing order of both sides of the exchange", BASE + " The piece sizes are uninterpreted (C23); the message library moves block p of process q to block q of process p, as MPI defines."),
    "C25": (AI + "matching of counts, displacements and packing order of both sides of the exchange", BASE + " The piece sizes are uninterpreted (C23); the message library moves the blocks as MPI defines."),
    "C26": (AI + "comparison of the local part with the composition of opaque per-axis operators across opaque redistributions", BASE + " Uses the contracts of C23 and C24 for the redistributions."),
    "C27": (AI + "path conditions and roots of every collective call", BASE + " Termination of the local work between two calls is not part of it."),
    "C28": (AI + "association of field shapes with registered decompositions and pencils", BASE),
    "C29": (AI + "path conditions of success of the helpers", BASE + " NaN, infinities and length differences are treated by an IEEE-aware refuter."),
}
NA = {
    "C30": "A bound on accumulated floating-point rounding over all inputs and sizes quantifies over run-time values and over the internals of external FFT/DCT libraries; no sound static argument in reach bounds it.",
    "C31": "The planned algorithms are third-party crates selected at run time per size (mixed radix, Bluestein, SIMD); their numerical correctness is outside this repository and not statically decidable here.",
}
