"""Build configurations and the per-property plan used by check.py."""

CONFIGS = {
    # what the stable test-suite builds
    "up": dict(cmake=["-DROUND_MODE=UP", "-DFULL_ACCU=OFF"], defs=["ROUND_MODE_UP"]),
    "convergent": dict(cmake=["-DROUND_MODE=CONVERGENT", "-DFULL_ACCU=OFF"], defs=["ROUND_MODE_CONVERGENT"]),
    "up_full_dbg": dict(cmake=["-DROUND_MODE=UP", "-DFULL_ACCU=ON", "-DAVEPOOL_16BIT_MUL=ON", "-DMLI_DEBUG_MODE=DBG_MODE_FULL"],
                        defs=["ROUND_MODE_UP", "FULL_ACCU", "AVEPOOL_16BIT_MUL", "MLI_DEBUG_MODE=DBG_MODE_FULL"]),
    # the remaining combination of the two arithmetic options
    "conv_full": dict(cmake=["-DROUND_MODE=CONVERGENT", "-DFULL_ACCU=ON"], defs=["ROUND_MODE_CONVERGENT", "FULL_ACCU"]),
    # status-code build
    "ret_codes": dict(cmake=["-DROUND_MODE=UP", "-DFULL_ACCU=OFF", "-DMLI_DEBUG_MODE=DBG_MODE_RET_CODES"],
                      defs=["ROUND_MODE_UP", "VP_RET_CODES", "MLI_DEBUG_MODE=DBG_MODE_RET_CODES"]),
}
COMMON_ASSUMPTIONS = [
    "x86-64 gcc build of the reference (portable) kernels; ARC DSP/VDSP specialisations are not compiled in this environment",
    "generated inputs satisfy the conditions stated in the kernel documentation",
]
ALL4 = {"up": 2, "convergent": 2, "up_full_dbg": 2, "conv_full": 2}
Q = dict(cases=200000, budget=60)
T = dict(cases=4000000, budget=600)


def chk(src, configs=None, quick=None, thorough=None, **kw):
    return dict(src=["props/" + s for s in src], configs=configs or ALL4, quick=quick or Q, thorough=thorough or T, **kw)


CHECKS = {
    "C01": chk(["c01_conv2d.cc"]),
    "C02": chk(["c02_dw_group.cc"]),
    "C03": chk(["c03_transpose.cc"]),
    "C04": chk(["c04_dense.cc"]),
    "C05": chk(["c05_lstm.cc"]),
    "C06": chk(["c06_gru.cc"]),
    "C07": chk(["c07_pool.cc"]),
    "C08": chk(["c08_eltwise.cc"]),
    "C09": chk(["c09_relu.cc"]),
    "C10": chk(["c10_sigm_tanh.cc"]),
    "C11": chk(["c11_softmax_l2.cc"]),
    "C12": chk(["c12_argmax.cc"]),
    "C13": chk(["c13_permute.cc"]),
    "C14": chk(["c14_mov.cc"]),
    "C15": chk(["c15_dma.cc"]),
    "C16": chk(["c16_helpers.cc"], configs={"up": 2, "up_full_dbg": 3, "ret_codes": 3}),
    "C17": chk(["c17_convert.cc"], configs={"up": 2, "convergent": 2, "up_full_dbg": 2, "ret_codes": 2}),
    "C18": chk(["c18_params.cc"], configs={"ret_codes": 8}),
    "C19": chk(["c19_special.cc"]),
    "C20": chk(["c20_layout.cc"]),
    "C21": chk(["c21_conv3.cc"]),
    "C22": chk(["c22_rescale.cc"]),
    "C23": chk(["c23_pool3.cc"]),
    "C24": chk(["c24_eltwise3.cc"]),
    "C25": chk(["c25_move3.cc"]),
    "C26": chk(["c26_tiling.cc"]),
    "C27": chk(["c27_reloc.cc"]),
    "C28": chk(["c28_types.cc"]),
}

NOTE = ("Exploration: no counterexample among the generated cases (see evidence: counts, classes, samples). Trusted: the independent "
        "reference model in props/, gcc, AddressSanitizer; assumes the reference C++ build for x86-64, not the ARC-specific kernels.")
MODEL = "property-based testing: structured random generation + shrinking against an independent bit-exact reference model, AddressSanitizer"
TECH = {
    "C01": (MODEL, NOTE),
    "C02": (MODEL, NOTE),
    "C03": (MODEL, NOTE),
    "C04": (MODEL, NOTE),
    "C05": (MODEL, NOTE),
    "C06": (MODEL, NOTE),
    "C07": (MODEL, NOTE),
    "C08": (MODEL, NOTE),
    "C09": (MODEL, NOTE),
    "C10": (MODEL, NOTE),
    "C11": (MODEL, NOTE),
    "C12": (MODEL, NOTE),
    "C13": (MODEL, NOTE),
    "C14": (MODEL, NOTE),
    "C15": (MODEL, NOTE),
    "C16": (MODEL, NOTE),
    "C17": (MODEL, NOTE),
    "C18": (MODEL, NOTE),
    "C19": (MODEL, NOTE),
    "C20": (MODEL, NOTE),
    "C21": (MODEL, NOTE),
    "C22": (MODEL, NOTE),
    "C23": (MODEL, NOTE),
    "C24": (MODEL, NOTE),
    "C25": (MODEL, NOTE),
    "C26": (MODEL, NOTE),
    "C27": (MODEL, NOTE),
    "C28": (MODEL, NOTE),
}
