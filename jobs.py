"""
The proof jobs of each property.
"""
TRUSTED = [
    "CBMC 6.11 (goto-cc, goto-instrument --dfcc, cbmc) and its SAT back ends (MiniSat, CaDiCaL), z3 where stated",
    "CBMC's model of the x86_64 C semantics and of the C library functions it provides (memcpy, memset, memmove, sqrtf, fmaxf...)",
    "the compilation of the verified source text by gcc/clang preserves its meaning (no -ffast-math reasoning)",
    "the composition of the step contracts by induction on the calls, as argued in DESIGN.md",
]


class Job:
    def __init__(self, name, file, func, contract, defs=(), unwind=None, unwindset=(),
                 flags=(), drop=(), enforce=(), replace=(), loops=False, srcs=(),
                 exclude=(), only=None, leaf=False, timeout=600, mem=8, tier="quick", cost=1, ignore=(),
                 bounded=None, assumes=(), calls=(), wrap=False, no_native=False, native=(), allow_nobody=False):
        self.__dict__.update(locals())
        for k in ("defs", "unwindset", "flags", "drop", "enforce", "replace", "srcs",
                  "exclude", "ignore", "assumes", "native", "calls"):
            setattr(self, k, list(getattr(self, k)))

    def solver_name(self):
        for s in ("--cvc5", "--z3", "--bitwuzla"):
            if s in self.flags:
                return "cbmc + " + s[2:]
        if "cadical" in self.flags:
            return "cbmc SAT (CaDiCaL)"
        return "cbmc SAT (MiniSat 2.2.1 with simplifier)"


class Prop:
    def __init__(self, jobs, note, level="proof", assumptions=()):
        self.jobs, self.note, self.level = jobs, note, level
        self.assumptions = list(assumptions)


PROPS = {}

# --- P01 Frame sizing -----------------------------------------------------------

PROPS["P01"] = Prop([
    Job("frame_samples", "sizing.c", "h_frame_samples", "lc3_hr_frame_samples, lc3_frame_samples"),
    Job("delay_samples", "sizing.c", "h_delay_samples", "lc3_hr_delay_samples, lc3_delay_samples"),
] + [
    Job("block_bytes_k%d" % k, "sizing.c", "h_block_bytes", "lc3_hr_frame_block_bytes, lc3_frame_block_bytes, lc3_hr_frame_bytes, lc3_frame_bytes", defs=["K=%d" % k])
    for k in range(5)
] + [
    Job("resolve_bitrate_k%d" % k, "sizing.c", "h_resolve_bitrate", "lc3_hr_resolve_bitrate, lc3_resolve_bitrate", defs=["K=%d" % k])
    for k in range(5)
] + [
    Job("roundtrip", "sizing.c", "h_roundtrip", "lc3_hr_resolve_bitrate then lc3_hr_frame_block_bytes"),
], "All the integer arguments are unconstrained: loop free, complete.")

BITS = dict(drop=["--no-undefined-shift-check"], flags=["--no-signed-overflow-check", "--arrays-uf-always"])
BITSC = dict(drop=["--no-undefined-shift-check"], flags=["--no-signed-overflow-check", "--sat-solver", "cadical"])
CCB = "at most %d pending carry bytes"
PROPS["P07"] = Prop([
    Job("put_bits", "bits_safe.c", "h_put_bits", "lc3_put_bits", unwind=6, **BITS),
    Job("write_renorm", "bits_safe.c", "h_write_renorm", "lc3_ac_write_renorm", unwind=6, unwindset=["lc3_ac_write_renorm.0:3"], timeout=200, bounded=CCB % 4, **BITS),
    Job("put_symbol", "bits_safe.c", "h_put_symbol", "lc3_put_symbol", unwind=18, timeout=200,
        calls=["lc3_ac_write_renorm:stub_write_renorm"], **BITSC),
    Job("lemma_add", "bits_safe.c", "h_lemma_add", "lemma", drop=BITS["drop"], flags=["--z3"]),
    Job("lemma_bound", "bits_safe.c", "h_lemma_bound", "lemma", **BITSC),
    Job("flush", "bits_safe.c", "h_flush", "lc3_flush_bits", unwind=5, timeout=150,
        calls=["lc3_put_bits_generic:stub_put_bits_generic"], defs=["CC_MAX=1", "FLUSHLEN=160"], bounded=CCB % 1 + ", 160 bytes left",
        unwindset=["lc3_flush_bits.0:42", "ac_terminate.0:3", "ac_get_range_bits.0:26"], **BITS),
    Job("flush_full", "bits_safe.c", "h_flush", "lc3_flush_bits", unwind=5, timeout=850, tier="thorough",
        calls=["lc3_put_bits_generic:stub_put_bits_generic"], defs=["CC_MAX=1"], bounded=CCB % 1,
        unwindset=["lc3_flush_bits.0:162", "ac_terminate.0:3", "ac_get_range_bits.0:26"], **BITS),
    Job("flush_crossed", "bits_safe.c", "h_flush_crossed", "lc3_flush_bits", unwind=5, timeout=150,
        calls=["lc3_put_bits_generic:stub_put_bits_generic"], defs=["CC_MAX=1"], bounded=CCB % 1,
        unwindset=["lc3_flush_bits.0:3", "ac_terminate.0:3", "ac_get_range_bits.0:26"], **BITS),
    ], "")

MODELS = [("lc3_tns_order_models", i) for i in range(2)] + \
    [("lc3_tns_coeffs_models", i) for i in range(8)] + \
    [("lc3_spectrum_models", i) for i in range(64)]
QUICK_MODELS = [("lc3_tns_order_models", 0), ("lc3_tns_order_models", 1), ("lc3_tns_coeffs_models", 0),
    ("lc3_tns_coeffs_models", 7), ("lc3_spectrum_models", 0), ("lc3_spectrum_models", 63)]

PROPS["P08"] = Prop([
    Job("setup", "bits_safe.c", "h_setup", "lc3_setup_bits", unwind=6, unwindset=["ac_get_range_bits.0:26"], **BITS),
    Job("get_bits", "bits_safe.c", "h_get_bits", "lc3_get_bits", unwind=6, unwindset=["ac_get_range_bits.0:26"], **BITS),
    Job("read_renorm", "bits_safe.c", "h_read_renorm", "lc3_ac_read_renorm", unwind=6, unwindset=["ac_get_range_bits.0:26"], **BITS),
    ] + [
    Job("get_symbol_%s_%d" % (t[4:], i), "bits_safe.c", "h_get_symbol", "lc3_get_symbol", unwind=18, timeout=300,
        defs=["M_TAB=" + t, "M_LO=%d" % i, "M_HI=%d" % (i+1)], tier="quick" if (t, i) in QUICK_MODELS else "thorough",
        calls=["lc3_ac_read_renorm:stub_read_renorm"], cost=5, **BITSC)
        for t, i in MODELS
    ],"")



# --- Content of the streams -----------------------------------------------------

def rt(name, fn, contract, fl, defs=(), uset=(), **k):
    return Job(name, "bits_rt.c", fn, contract, only=[], defs=defs, unwindset=uset, **dict(dict(fl, unwind=12, timeout=400), **k))

PROPS["P09"] = Prop([
    rt("setup", "h_setup_content", "lc3_setup_bits", BITS),
    rt("put_bits", "h_put_content", "lc3_put_bits", BITS), rt("get_bits", "h_get_content", "lc3_get_bits", BITS, cost=60),
    rt("flush", "h_flush_content", "lc3_flush_bits", BITSC, ["CC_MAX=1", "FREE_MAX=4"], ["ac_get_range_bits.0:26", "ac_terminate.0:3"], bounded="at most 4 free bytes, 1 pending carry byte", cost=30),
    ], "")

P10_QUICK = [("tns_order", 0), ("tns_coeffs", 0), ("spectrum", 63)]
PROPS["P10"] = Prop([
    rt("models", "h_models", "lc3_tns_order_models, lc3_tns_coeffs_models, lc3_spectrum_models", BITS, ["SYMBOLS"], unwind=66),
    rt("put_symbol", "h_put_symbol_content", "lc3_put_symbol", BITSC, ["SYMBOLS"], cost=30),
    rt("write_renorm", "h_renorm_content", "lc3_ac_write_renorm", BITSC, ["CC_MAX=6"], ["lc3_ac_write_renorm.0:3"], bounded="at most 6 pending carry bytes", cost=30),
    rt("read_renorm", "h_read_renorm_content", "lc3_ac_read_renorm", BITS), rt("setup", "h_setup_content", "lc3_setup_bits", BITS),
    rt("flush", "h_flush_content", "lc3_flush_bits", BITSC, ["CC_MAX=3", "FREE_MAX=4"], ["ac_get_range_bits.0:26", "ac_terminate.0:3"], bounded="at most 4 free bytes, 3 pending carry bytes", cost=40),
    ] + [
    rt("get_symbol_%s%d_%d" % (m, i, s), "h_get_symbol_content", "lc3_get_symbol", BITSC, ["SYMBOLS", "M_TAB=lc3_%s_models" % m, "M_IDX=%d" % i, "M_S0=%d" % s, "M_S1=%d" % (s+1)],
        unwind=18, tier="quick" if (m, i) in P10_QUICK else "thorough", cost=5)
        for m, n in (("tns_order", 2), ("tns_coeffs", 8), ("spectrum", 64)) for i in range(n) for s in range(17)
    ], "")


# --- lc3_decode() ---------------------------------------------------------------

DEC_CALLS = ["lc3_%s:stub_%s" % (f, f) for f in (
    "setup_bits bwdet_get_bw spec_get_side tns_get_data sns_get_data ltpf_get_data spec_decode check_bits "
    "plc_suspend plc_synthesize tns_synthesize sns_synthesize mdct_inverse ltpf_synthesize").split()]

def configs():
    for hr, srs, dts in ((0, (8000, 16000, 24000, 32000, 48000), (2500, 5000, 7500, 10000)),
                         (1, (48000, 96000), (2500, 5000, 10000))):
        for dt in dts:
            for sr in srs:
                for pcm in srs:
                    if pcm >= sr:
                        yield hr, dt, sr, pcm

def cfg_defs(c): return ["HR=%d" % c[0], "DT_US=%d" % c[1], "SR_HZ=%d" % c[2], "PCM_HZ=%d" % c[3]]
def cfg_name(c): return "%s%d_%d_%d" % ("hr" if c[0] else "", c[1], c[2], c[3])
def cfg_ns(c): return c[3] // 400 * (c[1] // 2500)

QUICK_CFG = [(0,2500,8000,8000),(0,10000,16000,48000),(0,7500,24000,32000),(0,5000,48000,48000),(1,10000,48000,96000),(1,2500,48000,48000)]

PROPS["P03"] = Prop([
    Job("decode_" + cfg_name(c), "api_dec.c", "h_decode", "lc3_decode", defs=cfg_defs(c), unwind=cfg_ns(c) + 2,
        calls=DEC_CALLS, wrap=True, cost=cfg_ns(c))
    for c in configs()
    ], "")
PROPS["P05"] = Prop([
    Job("pcm_value_%d_%d" % (f, i), "api_dec.c", "h_pcm_value", "lc3_decode", defs=["FMT=%d" % f, "SAMPLE=%d" % i], unwind=22,
        calls=DEC_CALLS, wrap=True, tier="quick" if i in (0, 7, 19) else "thorough")
    for f in range(4) for i in range(20)] + [
    Job("pcm_frame", "api_dec.c", "h_pcm_frame", "lc3_decode", unwind=22, calls=DEC_CALLS, wrap=True,
        bounded="stride up to 4")
    ], "")

# --- lc3_encode() ---------------------------------------------------------------

ENC_CALLS = ["lc3_%s:stub_%s" % (f, f) for f in (
    "attdet_run ltpf_analyse ltpf_disable mdct_forward energy_compute bwdet_run sns_analyze tns_analyze spec_analyze "
    "setup_bits bwdet_put_bw spec_put_side tns_put_data put_bits_generic sns_put_data ltpf_put_data spec_encode flush_bits").split()]

PROPS["P04"] = Prop([
    Job("pcm_value_%d_%d" % (f, i), "api_enc.c", "h_pcm_value", "lc3_encode", defs=["FMT=%d" % f, "SAMPLE=%d" % i], unwind=22,
        calls=ENC_CALLS, wrap=True, tier="quick" if i in (0, 7, 19) else "thorough", bounded="stride up to 3")
    for f in range(4) for i in range(20)], "")
PROPS["P06"] = Prop([
    Job("encode_" + cfg_name(c), "api_enc.c", "h_encode", "lc3_encode", defs=cfg_defs(c), unwind=cfg_ns(c) + 2,
        calls=ENC_CALLS, wrap=True, cost=cfg_ns(c))
    for c in configs()
    ] + [
    Job("history_" + cfg_name(c), "api_enc.c", "h_history", "lc3_encode", defs=cfg_defs(c) + ["HIST_STEP=%d" % st], unwind=cfg_ns(c) + 2,
        calls=ENC_CALLS, wrap=True, cost=cfg_ns(c), bounded=None if st == 1 else "sample positions multiple of %d, and the last" % st)
    for c, st in (((0,2500,8000,8000), 1), ((0,10000,16000,16000), 7), ((0,7500,48000,48000), 23), ((1,5000,96000,96000), 50))
    ], "")

# --- Setup ----------------------------------------------------------------------

PROPS["P02"] = Prop([
    Job("sizes", "setup.c", "h_sizes", "lc3_hr_encoder_size, lc3_hr_decoder_size"),
    Job("setup_bad", "setup.c", "h_setup_bad", "lc3_hr_setup_encoder, lc3_hr_setup_decoder", unwind=2),
    ] + [
    Job("setup_%s_%s" % (f, cfg_name(c)), "setup.c", "h_setup_%scoder" % f, "lc3_hr_setup_%scoder, lc3_hr_%scoder_size" % (f, f),
        defs=cfg_defs(c), unwind=386)
    for c in configs() for f in ("en", "de")
    ], "")


# --- Side data ------------------------------------------------------------------

def side(mod, fn, contract, dt=None, bw=None, **k):
    return Job("side_" + fn[2:] + ("_%d" % dt if dt else "") + ("_%d" % bw if bw is not None else ""), "side.c", fn, contract, only=[], unwind=18,
        defs=["MOD_" + mod] + (["DT_US=%d" % dt] if dt else []) + (["BW=%d" % bw] if bw is not None else []), timeout=300, **k)

PROPS["P12"] = Prop([
    side("BW", "h_bw", "lc3_bwdet_put_bw, lc3_bwdet_get_bw"), side("BW", "h_bw_reject", "lc3_bwdet_get_bw"),
    side("SPEC", "h_spec", "lc3_spec_put_side, lc3_spec_get_side"), side("SPEC", "h_spec_reject", "lc3_spec_get_side"),
    side("LTPF", "h_ltpf", "lc3_ltpf_put_data, lc3_ltpf_get_data"),
    side("TNS", "h_tns_nbits", "lc3_tns_get_nbits", flags=["--sat-solver", "cadical"]),
    side("SNS", "h_sns", "lc3_sns_put_data, lc3_sns_get_data"), side("SNS", "h_sns_reject", "lc3_sns_get_data"),
    ] + [side("TNS", "h_tns_any", "lc3_tns_get_data", dt=dt) for dt in (2500, 5000, 7500, 10000)
    ] + [side("TNS", "h_tns", "lc3_tns_put_data, lc3_tns_get_data", dt=dt, bw=bw) for dt in (2500, 5000, 7500, 10000) for bw in range(7) if (dt != 7500 or bw < 5)
    ], "")

# --- Pulse vectors enumeration --------------------------------------------------

def pvq(f, shape, c0=None, **k):
    return Job("%s_%d" % (f[2:], shape) + ("_%d" % c0 if c0 is not None else ""), "pvq.c", f, "enumerate, deenumerate", only=[], unwind=18,
        defs=["SHAPE=%d" % shape] + (["C0=%d" % c0] if c0 is not None else []), flags=["--sat-solver", "cadical"], leaf=True, **k)

PROPS["P11"] = Prop([
    Job("table", "pvq.c", "h_table", "lc3_sns_mpvq_offsets", only=[], unwind=18),
    ] + [pvq(f, s, timeout=600, cost=3) for s in range(4) for f in ("h_deenum", "h_enum")
    ] + [pvq("h_vec_roundtrip", s, c0, timeout=800, tier="quick" if c0 >= q else "thorough", bounded="first coefficient of magnitude %d" % c0)
        for s, k, q in ((0, 10, 7), (1, 10, 6), (2, 8, 6), (3, 6, 4)) for c0 in range(3 if s == 2 else 0, k+1)
    ] + [pvq("h_roundtrip", s, timeout=3000, tier="thorough") for s in (0, 1, 3)], "")


# --- Long term post filter ------------------------------------------------------

def rates():
    for hr, dt, sr, pcm in configs():
        if sr == pcm:
            yield hr, dt, sr, pcm

LTA = ["argmax:spec_argmax", "argmax_weighted:spec_argmax_weighted", "refine_pitch:spec_refine_pitch"]
CAD = ["--sat-solver", "cadical"]
NOV = ["--no-signed-overflow-check", "--no-pointer-primitive-check"]

def ltpf(name, fn, contract, c=None, defs=(), **k):
    k = dict(dict(unwind=1500, timeout=400), **k)
    return Job("ltpf_" + name + ("_%s%d_%d" % ("hr" * c[0], c[1], c[2]) if c else ""), "ltpf.c", fn, contract, only=[],
        defs=(cfg_defs(c) if c else []) + list(defs), **k)

PROPS["P13"] = Prop([
    ltpf("analyse", "h_analyse", "lc3_ltpf_analyse, detect_pitch", c, ["LEAF_CONTRACTS"], unwind=110, calls=LTA, flags=NOV, cost=2) for c in rates()
    ] + [
    ltpf("pitch", "h_pitch", "refine_pitch", c, ["LEAF_CONTRACTS"], unwind=110, calls=["argmax:spec_argmax", "interpolate_corr:spec_interpolate_corr"], leaf=True)
        for c in ((0,2500,8000,8000), (0,5000,8000,8000), (0,7500,8000,8000), (0,10000,8000,8000))
    ] + [
    ltpf("resample", "h_resample", "resample_*_12k8, filter_hp50", c, unwind=200, tier="quick" if c[1] in (2500, 7500) else "thorough", cost=3) for c in rates()
    ] + [ltpf("resample_6k4", "h_resample_6k4", "resample_6k4", c, unwind=200, leaf=True) for c in ((0,2500,8000,8000), (0,10000,8000,8000))
    ] + [ltpf("dot_%d" % n, "h_dot", "dot", None, ["N=%d" % n], unwind=130, flags=CAD, leaf=True) for n in (16, 128)
    ] + [ltpf("interpolate", "h_interpolate", "interpolate", unwind=130, leaf=True),
         ltpf("argmax", "h_argmax", "argmax", leaf=True, unwind=130, bounded="values of the first 5 elements"),
         ltpf("argmax_weighted", "h_argmax_weighted", "argmax_weighted", unwind=130, leaf=True)
    ], "")

def ring(c): return (cfg_ns(c) * (1 if c[3] > 48000 else 0)) or ((9 if c[1] == 7500 else 8) * (c[3] // 400) + cfg_ns(c)) // cfg_ns(c)
SYN_Q = [(0,2500,8000,8000), (0,7500,24000,24000), (0,5000,32000,32000), (0,10000,16000,16000), (0,2500,48000,48000)]
PROPS["P14"] = Prop([
    ltpf("synthesize_t%d_p%d" % (t, p), "h_synthesize", "lc3_ltpf_synthesize, synthesize_template", c, ["TRANS=%d" % t, "POS=%d" % p], timeout=800,
        tier="quick" if c in SYN_Q and (p in (0, ring(c)-1) or c == SYN_Q[0]) and cfg_ns(c) <= 120 + 60 * (t < 3) else "thorough", cost=cfg_ns(c) * (1 + t) / 10)
        for c in rates() if not c[0] for t in range(5) for p in range(ring(c))
    ] + [ltpf("inactive_m%d_p%d" % (m, p), "h_inactive", "lc3_ltpf_synthesize", c, ["POS=%d" % p, "MODE=%d" % m], timeout=800,
        tier="quick" if p == ring(c)-1 and (m < 2 or c in SYN_Q) else "thorough") for c in rates() if not c[0] for p in range(ring(c)) for m in range(3)
    ] + [ltpf("filter", "h_filter", "lc3_ltpf_synthesize", c, tier="quick" if c[1] == 2500 or c[2] == 8000 else "thorough", timeout=800) for c in rates() if not c[0]
    ] + [ltpf("lag_p%d_i%d" % (p, x), "h_lag", "synthesize_template", c, ["POS=%d" % p, "IDX=%d" % x], bounded="lag of index %d" % x, timeout=800,
        tier="quick" if c[2] == 8000 and p in (0, 4, 8) and x in (100, 511) or c[2] == 16000 and p == 8 and x == 439 else "thorough") for c in rates() if not c[0] and c[1] == 2500 for p in range(ring(c)) for x in (100, 379, 439, 511)
    ], "")


# --- Spectral coefficients --------------------------------------------------------

C8, H48 = (0,2500,8000,8000), (1,2500,48000,48000)
SPU = ["spec_lookup.0:5", "spec_lookup.1:257", "cost.0:25"]
SPSRC = ["bwdet.c", "ltpf.c", "sns.c", "tns.c", "bits.c"]

def spec(name, fn, contract, c=C8, defs=(), **k):
    k = dict(dict(unwind=26, unwindset=SPU, timeout=600, leaf=True), **k)
    return Job("spec_" + name, "spec.c", fn, contract, only=SPSRC, defs=cfg_defs(c) + list(defs), **k)

# Representatives of the previous pairs: each value of the state they lead to
PAIRS = ["0,0", "0,1", "1,1", "3,0", "2,2", "3,2", "3,3", "4,0", "5,6", "6,4", "7,7", "9,3", "300,20"]
def pairs(name, fn, contract, q, **k):
    """The last of three pairs, in each half of the spectrum"""
    sets = [(a, "0,0", lsb, nq) for a in PAIRS for lsb in (0, 1) for nq in (4, 14)] + \
           [(a, b, 0, 6) for a in PAIRS for b in PAIRS[1:]]
    quick = [("0,0", "0,0", 0, 4), ("5,6", "2,1", 0, 6), ("300,20", "0,0", 0, 14), ("0,1", "0,0", 1, 4), ("3,3", "0,0", 0, 14), ("9,3", "1,1", 0, 6)]
    for s in quick + [s for s in sets if s not in quick]:
        p1, p2, lsb, nq = s
        yield spec("%s_%s_%s_%d_%d" % (name, p1.replace(",", "."), p2.replace(",", "."), lsb, nq), fn, contract, C8,
            ["NQ=%d" % nq, "QMAX=%d" % q, "P1=" + p1, "P2=" + p2] + (["LSB=1", "HIGH=1"] if lsb else ["HIGH=1"] if nq == 6 else []),
            unwind=18, flags=CAD, bounded="pair number %d, magnitude up to %d, after {%s} {%s}" % (nq // 2, q, p2, p1), tier="quick" if s in quick else "thorough", cost=3)

PROPS["P15"] = Prop([
    spec("models", "h_models", "lc3_spectrum_models", leaf=False),
    ] + [spec("lookup_%d" % h, "h_lookup", "lc3_spectrum_lookup, lc3_spectrum_bits", defs=["HIGH=%d" % h], unwind=257, leaf=False) for h in (0, 1)
    ] + list(pairs("quantized", "h_quantized", "put_quantized, get_quantized", 63)
    ) + [spec("quantized_full%d" % l, "h_quantized", "put_quantized, get_quantized", defs=["NQ=2", "QMAX=32767"] + ["LSB=1", "HIGH=1"] * l, unwind=18, flags=CAD, bounded="first pair", cost=3) for l in (0, 1)
    ] + [
    spec("quantized_hr", "h_quantized", "put_quantized, get_quantized", H48, defs=["NQ=4", "QMAX=63", "P1=3,2"], unwind=18, flags=CAD, bounded="second pair", cost=3),
    spec("lsb", "h_lsb", "put_lsb, get_lsb", defs=["NQ=4", "QMAX=32767"], bounded="first two pairs"),
    spec("residual", "h_residual", "put_residual, get_residual"), spec("residual_none", "h_residual_none", "put_residual, get_residual, put_lsb, get_lsb"),
    spec("any", "h_any", "get_quantized", defs=["NQ=2"], flags=CAD, bounded="first pair", cost=2),
    spec("any_hr", "h_any", "get_quantized", H48, defs=["NQ=2"], flags=CAD, unwind=130, bounded="first pair", cost=3),
    ] + [spec("noise_%d_%d_%d_%d" % (c[1], c[2], nq, bw), "h_noise", "fill_noise", c, defs=["NQ=%d" % nq, "BW=%d" % bw], unwind=110, tier=t, cost=2)
        for c, nq, bw, t in ((C8, 10, 0, "quick"), (C8, 20, 0, "quick"), (C8, 2, 0, "quick"), ((0,2500,16000,16000), 20, 0, "quick"), ((0,2500,16000,16000), 30, 1, "quick"),
            ((0,5000,8000,8000), 24, 0, "thorough"), ((0,7500,8000,8000), 40, 0, "thorough"), ((0,10000,8000,8000), 60, 0, "thorough"))
    ] + [spec("%s_%d" % (f, c[0]), f, contract, c, calls=calls) for c in (C8, H48) for f, contract, calls in (
        ("h_encode", "lc3_spec_encode", ["estimate_noise:stub_noise", "put_quantized:stub_putq", "put_residual:stub_putres", "put_lsb:stub_putlsb"]),
        ("h_decode", "lc3_spec_decode", ["get_quantized:stub_getq", "get_residual:stub_getres", "get_lsb:stub_getlsb", "unquantize:stub_unq", "fill_noise:stub_fill"]))
    ] + [spec("unquantize", "h_unquantize", "unquantize", calls=["unquantize_gain:stub_g2"], flags=CAD, bounded="gains 1/2 and 4")], "")

PROPS["P16"] = Prop(
    list(pairs("count", "h_nbits_count", "compute_nbits, put_quantized", 63)) + list(pairs("budget", "h_nbits", "compute_nbits", 63)) + [
    spec("count_hr", "h_nbits_count", "compute_nbits", H48, defs=["NQ=4", "QMAX=63", "P1=3,2"], unwind=18, flags=CAD, bounded="second pair", cost=3),
    spec("lookup", "h_lookup", "lc3_spectrum_bits", unwind=257, leaf=False),
    spec("quantize", "h_quantize", "quantize", calls=["unquantize_gain:stub_g2"], bounded="gains 1/2 and 4"),
    spec("estimate_noise", "h_estimate_noise", "estimate_noise", defs=["NQ=10"]),
    spec("estimate_gain", "h_estimate", "estimate_gain", calls=["lc3_db_q16:stub_db", "unquantize_gain:stub_gain"], cost=8, bounded="two first lines non null", timeout=800,
        unwindset=SPU + ["estimate_gain.%d:%d" % (i, n) for i, n in enumerate([6,6,6,6,6,9,9])]),
    ] + [spec("gain_offset_%d_%d" % c[:3:2], "h_gain_offset", "resolve_gain_offset", c) for c in ((0,2500,8000,8000),(0,2500,16000,16000),(0,2500,24000,24000),(0,2500,32000,32000),(0,2500,48000,48000),H48,(1,2500,96000,96000))
    ] + [spec("adjust_%d_%d_%d" % c[:3], "h_adjust", "adjust_gain", c) for c in ((0,10000,8000,8000),(0,2500,16000,16000),(0,2500,24000,24000),(0,2500,32000,32000),(0,7500,48000,48000),H48,(1,5000,48000,48000),(1,10000,96000,96000),(1,2500,96000,96000))
    ] + [spec("analyze_%d_%d_%d" % c[:3], "h_analyze", "lc3_spec_analyze", c, unwind=20,
        calls=["estimate_gain:stub_estimate", "quantize:stub_quantize", "compute_nbits:stub_nbits", "adjust_gain:stub_adjust", "lc3_tns_get_nbits:stub_tns_nbits"]) for c in rates()], "")


# --- Packet loss concealment ------------------------------------------------------

def plc(fn, c, contract, **k):
    return Job("%s_%s" % (fn[2:], cfg_name(c)), "plc.c", fn, contract, only=[], defs=cfg_defs(c), unwind=130, timeout=300, **k)

PROPS["P17"] = Prop([j for c in (C8, H48) for j in (
    plc("h_reset", c, "lc3_plc_reset, lc3_plc_suspend"),
    plc("h_schedule", c, "lc3_plc_synthesize"),
    plc("h_synthesize", c, "lc3_plc_synthesize", bounded="11 counts of lost frames, 6 levels", cost=2))
    ] + [plc("h_level", C8, "lc3_plc_synthesize", flags=CAD, cost=3)], "")

# --- Analysis of the bands, bandwidth and attacks ------------------------------------

def ana(fn, c, contract, defs=(), tag="", **k):
    return Job("%s_%s%s" % (fn[2:], cfg_name(c), tag), "analysis.c", fn, contract, only=["bits.c"], defs=cfg_defs(c) + list(defs),
        **dict(dict(unwind=1000, timeout=600), **k))

def kstep(c): return { 8000: 1, 16000: 1 if c[1] == 2500 else 5 }.get(c[2], c[2] * c[1] // 10000000 + 2)
SIGNALS = { "null": "0", "square8": "(i&4?-32768:32767)", "square6": "((i%6)<3?-32768:32767)", "low": "-32768" }
PROPS["P18"] = Prop([ana("h_bands", c, "lc3_band_lim, lc3_num_bands") for c in rates()
    ] + [ana("h_energy", c, "lc3_energy_compute", ["KSTEP=%d" % kstep(c)], bounded="single line spectrums", tier="quick" if kstep(c) > 1 or c[1] == 2500 else "thorough", cost=2) for c in rates()
    ] + [ana("h_bwdet_cut", c, "lc3_bwdet_run") for c in rates() if not c[0] and c[2] > 8000
    ] + [ana("h_bwdet", c, "lc3_bwdet_run", flags=CAD, bounded="two levels of energy", cost=9,
        tier="quick" if c in ((0,2500,48000,48000), (0,10000,48000,48000), (0,7500,32000,32000)) else "thorough") for c in rates() if c[2] >= 32000 and not c[0]
    ] + [ana("h_attdet", c, "lc3_attdet_run", ["SIGNAL(i)=" + SIGNALS[s]], "_" + s, bounded="signal " + s) for c in rates() for s in SIGNALS if s == "null" or (c[2] > 24000 and c[1] > 5000 and not c[0])
    ] + [ana("h_attack", c, "lc3_attdet_run", bounded="impulse in each block") for c in rates() if c[2] > 24000 and c[1] > 5000 and not c[0]], "")

# --- Transforms, temporal and spectral shaping ----------------------------------------

FS = ["--max-field-sensitivity-array-size", "2048"]
def shp(name, fn, c, contract, file="shaping.c", defs=(), tag="", flags=(), **k):
    return Job("%s_%s%s" % (name, cfg_name(c), tag), file, fn, contract, only=["bits.c"] if file == "shaping.c" else [], defs=cfg_defs(c) + list(defs),
        flags=FS + list(flags), **dict(dict(unwind=1000, timeout=850), **k))

TNS_CALLS = ["compute_lpc_coeffs:stub_lpc", "lpc_weighting:stub_weighting", "lpc_reflection:stub_reflection", "forward_filtering:stub_forward"]
SNS_CALLS = ["deenumerate:stub_deenumerate", "lc3_exp2f:stub_exp2f", "sqrtf:stub_sqrtf"]
def NBM(c): return 20 if not c[0] else 109
def mdct_quick(c): return cfg_ns(c) < 120 or c[1:3] == (7500, 24000)
PROPS["P19"] = Prop([
    shp("mdct", "h_mdct", c, "lc3_mdct_forward, lc3_mdct_inverse", "transform.c", bounded="one signal (the operations do not depend on it)",
        tier="quick" if mdct_quick(c) else "thorough", cost=cfg_ns(c) / 10) for c in rates()
    ] + [shp("mdct_resample", "h_mdct_resample", c, "lc3_mdct_forward, lc3_mdct_inverse", "transform.c", bounded="one signal (the operations do not depend on it)",
        tier="quick" if c[3] < 48000 and c[1] == 2500 else "thorough", cost=8)
        for c in configs() if c[2] < c[3]
    ] + [shp("tns_synthesize", "h_tns_synthesize", c, "lc3_tns_synthesize", cost=cfg_ns(c) / 20, bounded="5 pairs of orders of the filters",
        tier="quick" if cfg_ns(c) < 150 or c[1:3] in ((10000, 24000), (5000, 32000)) else "thorough") for c in rates()
    ] + [shp("tns_analyze", "h_tns_analyze", c, "lc3_tns_analyze", calls=TNS_CALLS, leaf=True, unwindset=["unquantize_rc.0:10"]) for c in rates()
    ] + [shp("tns_lpc", "h_tns_lpc", c, "compute_lpc_coeffs", calls=["dot:stub_dot"], leaf=True) for c in rates()
    ] + [shp("tns_inverse", "h_tns_inverse", c, "lc3_tns_analyze, lc3_tns_synthesize", defs=["CORR(i)=" + f, "NBYTES=%d" % n], tag="_" + t, bounded="signal " + t, cost=3,
        tier="quick" if cfg_ns(c) < 150 or c[1:3] in ((5000, 48000), (10000, 32000)) and t == "line" else "thorough")
        for c in rates() for t, f, n in (("line", "1000-i", 100), ("low", "1000-i", NBM(c)), ("step", "i<NE/2?1000-i:(i%3?40:-60)", 100))
    ] + [shp("sns_synthesize", "h_sns_synthesize", c, "lc3_sns_synthesize", defs=["SNS"], calls=SNS_CALLS, leaf=True) for c in rates()
    ] + [shp("sns_inverse", "h_sns_inverse", c, "lc3_sns_analyze, lc3_sns_synthesize", defs=["SNS", "CONSTANTS"], bounded="one spectrum of energies", flags=["--no-signed-overflow-check"],
        tier="quick" if cfg_ns(c) < 150 else "thorough", cost=4) for c in rates()], "")

# --- Files of the tools, fast math -------------------------------------------------------

def tool(fn, contract, **k):
    return Job(fn[2:], "tools.c", fn, contract, only=[], **dict(dict(unwind=100, timeout=600), **k))
PROPS["P21"] = Prop([
    tool("h_lc3bin_read_header", "lc3bin_read_header"), tool("h_lc3bin_header", "lc3bin_write_header, lc3bin_read_header"),
    tool("h_lc3bin_data", "lc3bin_write_data, lc3bin_read_data", bounded="blocks of 32 bytes"),
    tool("h_lc3bin_read_data", "lc3bin_read_data", bounded="file of 96 bytes"), tool("h_lc3bin_oversize", "lc3bin_read_data"),
    tool("h_wave_header", "wave_write_header, wave_read_header"),     tool("h_wave_skip", "wave_read_header", bounded="12 bytes of extension, one statement to skip"),
    tool("h_wave_pcm", "wave_write_pcm", bounded="one sample"), tool("h_wave_read_pcm", "wave_read_pcm", bounded="one sample"),
    ] + [Job("wave_read_%d_%d" % (c, f), "tools.c", "h_wave_read", "wave_read_header", only=[], defs=["NCH=%d" % c, "FRAME=%d" % f], unwind=100, timeout=400,
        bounded="%d channels, frames of %d bytes" % (c, f)) for c, f in ((1, 2), (2, 4), (2, 8), (8, 32))], "")

def fm(fn, contract, **k):
    return Job(fn[2:], "fastmath.c", fn, contract, only=[], **dict(dict(unwind=4000, timeout=600, flags=["--no-signed-overflow-check"]), **k))
PROPS["P22"] = Prop([
    fm("h_ldexpf", "lc3_ldexpf"), fm("h_frexpf", "lc3_frexpf, lc3_ldexpf"),
    fm("h_exp2f", "lc3_exp2f", defs=["FLOATS", "STEP=1"], bounded="steps of 1/16"), fm("h_log2f", "lc3_log2f", defs=["FLOATS", "STEP=9"], flags=["--no-signed-overflow-check", "--object-bits", "12"], bounded="16 values by octave"),
    fm("h_db_q16", "lc3_db_q16", bounded="powers of two"),
    ], "")
