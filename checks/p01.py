"""Weight of a packed Pauli string / bit string: all kernels, all words."""
import contextlib

from vf.harness import Case
from vf import kernels
from vf import values as V

ASSUMPTIONS = [
    "numba.vectorize is replaced by elementwise application of the decorated Python function (the JIT compiler is trusted)",
    "the fallback kernels are reached by hiding numpy.bitwise_count from the code under test",
]


def h_weight(ctx, n, kernel, homogeneous):
    bits = ctx.array("bits", (1, n if homogeneous else 2 * n))
    weight = kernels.distance(ctx, bits, kernel, homogeneous)
    row = [ctx.np.asarray(b) for b in bits[0]]
    row = [bits[0, i] for i in range(bits.shape[1])]
    if homogeneous:
        expected = kernels.total(ctx, row)
    else:
        expected = kernels.total(ctx, [row[i] | row[i + n] for i in range(n)])
    ctx.observe("weight", weight)
    ctx.check(weight == expected, "minimum weight of a single generator is its weight")


FUNCS = ["codes.distance.get_distance_classical", "codes.distance.get_distance_quantum",
         "codes.distance._rows_to_ints", "codes.distance._riffle", "codes.distance._inplace_rowsum",
         "codes.distance._hamming_weight", "codes.distance._hamming_weight_single",
         "codes.distance._symplectic_weight", "codes.distance._symplectic_weight_single"]


def cases(tier):
    out = []
    sizes_h = [1, 7, 63, 64, 65, 130] if tier == "quick" else list(range(1, 131)) + [192, 193, 255, 256]
    sizes_s = [1, 5, 31, 32, 33, 65] if tier == "quick" else list(range(1, 66)) + [96, 127, 128]
    for kernel in ("numpy", "fallback", "numba"):
        for n in sizes_h:
            out.append(Case(f"hamming-{kernel}-{n}", h_weight, n=n, kernel=kernel, homogeneous=True,
                            functions=FUNCS, bounds=f"all 2^{n} bit strings of {n} bits", cost=n,
                            stubs=kernels.stubs_for(kernel), environment=kernels.env_for(kernel)))
        for n in sizes_s:
            out.append(Case(f"symplectic-{kernel}-{n}", h_weight, n=n, kernel=kernel, homogeneous=False,
                            functions=FUNCS, bounds=f"all Pauli strings on {n} qubits", cost=2 * n,
                            stubs=kernels.stubs_for(kernel), environment=kernels.env_for(kernel)))
    return out
