KD = "Every function listed in the evidence is proved for all inputs (and dimensions and tree shapes, where the function has any) over an abstract scalar (rounded real arithmetic); trusts the extraction and the listed contracts of std/nalgebra."
EX = "Every function listed in the evidence is proved for all inputs over an abstract scalar whose arithmetic is exact; the compiled crate is additionally run against the same contracts on bounded samples (rounded f32/f64 included)."
CLAIMS = {
    "C01": (VERUS, "proof", KD),
    "C02": (VERUS, "proof", KD),
    "C03": (VERUS, "proof", KD),
    "C04": (VERUS, "proof", KD),
    "C05": (VERUS, "proof", KD),
    "C06": (VERUS, "proof", EX),
    "C07": (VERUS, "proof", EX),
    "C08": (VERUS, "proof", KD),
    "C09": (VERUS, "proof", KD),
    "C10": (VERUS, "proof", "Proved for every dimension and every pair of integer endpoints, rounding included: the error terms drift by at most 6 units of rounding a cell, and the line is assumed short enough for that (over 450,000 cells in the plane for f32). Trusts the extraction, the rounding model (correct rounding, integers exact) and the listed contracts of std/nalgebra; that the casts to the output type are exact is checked by the harness only."),
    "C11": (VERUS, "proof", KD),
    "C12": (VERUS, "proof", EX),
    "C13": (VERUS, "proof", KD),
    "C14": (VERUS, "proof", "Proved for every cloud (all sizes up to usize::MAX/2, duplicates and collinear runs included) with exact orientation arithmetic; that the scan ends with nothing or three or more of the points, the smallest first, is proved a second time for any rounding. Trusts the extraction and the listed contracts of std's VecDeque, sort and nalgebra's storage."),
    "C15": (VERUS, "proof", "Proved for every cloud, order and multiplicity with exact orientation arithmetic; that the march ends with nothing or three or more of the points, the smallest first, is proved a second time for any rounding. Trusts the extraction and the listed contracts of nalgebra's storage and std."),
    "C16": (VERUS, "proof", EX),
    "C17": (VERUS, "proof", EX),
    "C18": (VERUS, "proof", EX),
}
CLAIMS.update({
    "C19": (VERUS, "proof", "Proved for every covariance, centroid pair and previous transform (2D and 3D) with exact arithmetic; orthogonality of the composed estimate is proved from real matrix algebra. The laws of the 2x2 and 3x3 determinant are proved. Trusts nalgebra's SVD, product, determinant and isometry contracts."),
    "C20": (VERUS, "proof", "Great-circle meaning proved with exact arithmetic over axiomatised real trigonometry; that the result is always a number, zero for equal points, never negative and never more than half the circumference (as the type rounds it) is proved a second time for any rounding under which doubling is exact. Trusts the textbook axioms of sin, cos, atan2, sqrt."),
    "C21": (VERUS, "proof", "Proved for all inputs with exact arithmetic over axiomatised real trigonometry; that the result is a number in [0, 2*pi), 2*pi as the type rounds it, is proved a second time for any rounding. Trusts the textbook axioms."),
    "C22": ("contract proofs (Kani/CBMC, loop-free over every bit pattern) on the compiled crate", "proof", "All fourteen implementations, every value; trusts Kani's compilation and float model."),
    "C23": (VERUS, "proof", "Every function of the builder is proved for all inputs; the literal 0.01 is compared by value, its conversion to the scalar type is trusted."),
    "C26": (VERUS + "; the extraction is taken for the build without std", "proof", "Every obligation of C01-C21, C23-C25 once more over the text of the build without std (cfg evaluated by the extractor); C22 in this build by exhaustive (f32) and bounded runs only. That alloc's BTreeMap meets the contract assumed for HashMap, and libm that of std's elementary functions, is trusted; the compiled no_std crate is run against every executable contract, and the four feature combinations are compiled."),
    "C25": (VERUS, "proof", "Proved for every cloud and motion with exact arithmetic, 2D and 3D: the Kabsch theorem over the contracts of nalgebra's SVD, then the whole run. Rounding is not modelled: in floating point the accuracy is that of nalgebra's SVD, which for 3x3 matrices is a few percent per step where the squared scatter is nearly diagonal."),
    "C24": (VERUS, "proof", "All 92 pre-generated functions after macro expansion, over uninterpreted generic functions; a type that disagrees with the name is caught by compiling the wrap binary."),
})
NA = {
}
