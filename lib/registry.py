"""Which drivers, trace specifications and models decide which property (used by vf.py)."""
def P(n): return [f"-DPART={i}" for i in range(1, n + 1)]

CHECKS = {
    "C01": dict(drivers=[dict(src="c01_search.cpp", trace="Trace_C01", parts=P(4))], models=["MC_SeqSearch"]),
    "C02": dict(drivers=[dict(src="c02_sort.cpp", trace="Trace_C02", parts=P(3))], models=["MC_Sorting"]),
    "C03": dict(drivers=[dict(src="c03_heap.cpp", trace="Trace_C03", parts=P(2)), dict(src="c03_heap.cpp", trace="Trace_C03H", parts=["-DPART=3"])], models=["MC_Sorting"]),
    "C04": dict(drivers=[dict(src="c04_sets.cpp", trace="Trace_C04", parts=P(2))], models=["MC_MultiSet"]),
    "C05": dict(drivers=[dict(src="c05_partition.cpp", trace="Trace_C05", parts=P(2))], models=["MC_Partition"]),
    "C06": dict(drivers=[dict(src="c06_perm.cpp", trace="Trace_C06", parts=["-DPART=1", "-DPART=3"]), dict(src="c06_perm.cpp", trace="Trace_C06H", parts=["-DPART=2"])], models=["MC_Permutation"]),
    "C07": dict(drivers=[dict(src="c07_transform.cpp", trace="Trace_C07", parts=P(5))]),
    "C08": dict(drivers=[dict(src="c08_windows.cpp", trace="Trace_C08", parts=P(2))], models=["MC_Windows"]),
    "C09": dict(drivers=[dict(src="c09_edits.cpp", trace="Trace_C09", parts=P(3))], models=["MC_Edits"]),
    "C10": dict(drivers=[dict(src="c10_containers.cpp", trace="Trace_C10", parts=P(2), variants=["cxx11", "cxx17", "noindex17"]), dict(src="c10_containers.cpp", trace="Trace_C10H", parts=["-DPART=3"], variants=["cxx11", "cxx17", "noindex17"])], models=["MC_Containers"]),
    "C11": dict(drivers=[dict(src="c11_bitset.cpp", trace="Trace_C11", parts=P(3))], models=["MC_Bits"]),
    "C12": dict(drivers=[dict(src="c12_bits.cpp", trace="Trace_C12", parts=P(2), variants=["cxx11", "cxx17", "nobuiltin11", "nobuiltin17"])], models=["MC_Bits"]),
    "C13": dict(drivers=[dict(src="c13_string.cpp", trace="Trace_C13", parts=P(3), variants=["cxx11", "cxx17", "noindex17"]), dict(src="c13_string.cpp", trace="Trace_C13H", parts=["-DPART=4"], variants=["cxx11", "cxx17", "noindex17"])], models=["MC_Strings"]),
    "C14": dict(drivers=[dict(src="c14_views.cpp", trace="Trace_C14", parts=P(4), variants=["cxx11", "cxx17", "noindex17"])], models=["MC_Strings", "MC_CStrings"]),
    "C15": dict(drivers=[dict(src="c15_optional.cpp", trace="Trace_C15", parts=P(2))], models=["MC_Optionals", ("MC_Optionals", "MC_OptionalsRef")]),
    "C16": dict(drivers=[dict(src="c16_variant.cpp", trace="Trace_C16", parts=[""])], models=["MC_Variants"]),
    "C17": dict(drivers=[dict(src="c17_tuples.cpp", trace="Trace_C17", parts=P(2)), dict(src="c17_tuples.cpp", trace="Trace_C17H", parts=["-DPART=3"])], models=["MC_Tuples"]),
    "C18": dict(drivers=[dict(src="c18_valarray.cpp", trace="Trace_C18", parts=["-DPART=1"]), dict(src="c18_valarray.cpp", trace="Trace_C18H", parts=["-DPART=2"]), dict(src="c18_valarray.cpp", trace="Trace_C18", parts=["-DPART=3"])], models=["MC_Valarrays"]),
    "C19": dict(drivers=[dict(src="c19_iterators.cpp", trace="Trace_C19", parts=P(3))], models=["MC_Cursors"]),
    "C20": dict(drivers=[dict(src="c20_ranges.cpp", trace="Trace_C20", parts=P(6))], models=["MC_Pipelines"]),
    "C21": dict(drivers=[dict(src="c21_numeric.cpp", trace="Trace_C21", parts=P(8))], models=["MC_Scans"]),
    "C28": dict(drivers=[dict(src="c28_ctype.cpp", trace="Trace_C28", parts=[""])], models=["MC_CTypes"]),
    "C33": dict(drivers=[dict(src="c33_tribool.cpp", trace="Trace_C33", parts=["-DPART=1"]), dict(src="c33_tribool.cpp", trace="Trace_C33H", parts=["-DPART=2"])], models=["MC_Kleene"], deep_models=[("MC_Kleene", "MC_Kleene_deep")]),
    "C22": dict(drivers=[dict(src="c22_rational.cpp", trace="Trace_C22H", parts=["-DPART=1", "-DPART=2"]), dict(src="c22_rational.cpp", trace="Trace_C22", parts=["-DPART=3", "-DPART=4"])], models=["MC_Rationals", "MC_Big"], deep_models=[("MC_Rationals", "MC_Rationals_deep")]),
    "C23": dict(drivers=[dict(src="c23_complex.cpp", trace="Trace_C23", parts=["-DPART=1", "-DPART=3"]), dict(src="c23_complex.cpp", trace="Trace_C23H", parts=["-DPART=2", "-DPART=4"])], models=["MC_Hypercomplex", ("MC_Hypercomplex", "MC_Hypercomplex_q")], deep_models=[("MC_Hypercomplex", "MC_Hypercomplex_deep"), ("MC_Hypercomplex", "MC_Hypercomplex_qdeep")]),
    "C24": dict(drivers=[dict(src="c24_floats.cpp", trace="Trace_C24", parts=P(4), variants=["cxx11", "cxx17", "nobuiltin11"])], models=["MC_Floats"]),
    "C25": dict(drivers=[dict(src="c25_engines.cpp", trace="Trace_C25", parts=P(7)), dict(src="c25_engines.cpp", trace="Trace_C25S", parts=["-DPART=8"])], models=["MC_Engines"], deep_models=[("MC_Engines", "MC_Engines_deep")]),
    "C26": dict(drivers=[dict(src="c26_distributions.cpp", trace="Trace_C26", parts=P(4))], models=["MC_Distributions"], deep_models=[("MC_Distributions", "MC_Distributions_deep")]),
    "C27": dict(drivers=[dict(src="c27_text.cpp", trace="Trace_C27", parts=P(6), variants=["cxx11", "cxx17", "nobuiltin11"])], models=["MC_Text"], deep_models=[("MC_Text", "MC_Text_deep")]),
    "C31": dict(drivers=[dict(src="c31_checksums.cpp", trace="Trace_C31", parts=P(4))], models=["MC_Checksums"], technique="TLA+ (TLC): specification of MD5/SHA-1/CRC/Adler/Fletcher-sum/xor checksums over byte sequences; recorded runs of the checksum classes and free functions replayed against it"),
    "C32": dict(drivers=[dict(src="c32_uuid.cpp", trace="Trace_C32", parts=P(5))], models=["MC_Uuid"], technique="TLA+ (TLC): specification of uuid bytes, text grammar, stream form, RFC 4122 generators; recorded calls replayed against it"),
    "C30": dict(drivers=[dict(src="c30_brainfuck.cpp", trace="Trace_C30", parts=P(5))], models=["MC_Brainfuck"], deep_models=[("MC_Brainfuck","MC_Brainfuck_deep")], technique="TLA+ (TLC): the brainfuck machine as a transition system, all small programs model-checked; recorded runs of the interpreter and the ook/misa translators replayed against it"),
    "C29": dict(drivers=[dict(src="c29_weed.cpp", trace="Trace_C29", parts=P(5))], models=["MC_Peg"], deep_models=[("MC_Peg","MC_Peg_deep")], technique="TLA+ (TLC): an executable specification of parsing expressions and their attributes, the PEG laws model-checked over all small grammars; recorded parses of some two hundred grammars replayed against it"),
    "C34": dict(drivers=[dict(src="c34_types.cpp", trace="Trace_C34", parts=P(5))], models=["MC_TypeLists"], deep_models=[("MC_TypeLists","MC_TypeLists_deep")], technique="TLA+ (TLC): specification of lists, ranges and their algorithms, its laws model-checked over all small lists; the type-level results recorded from the compiled library replayed against it"),
    "C35": dict(drivers=[dict(src="c35_functional.cpp", trace="Trace_C35", parts=P(6))], models=["MC_FunctionObjects"]),
    "C36": dict(drivers=[dict(src="c36_const.cpp", trace=t, parts=["-DPART=%d" % k], flags="-fconstexpr-depth=4096 -fconstexpr-ops-limit=1000000000", variants=["cxx11", "cxx17", "nobuiltin11", "nobuiltin17"] if k in (1, 2, 10, 12, 14) else ["cxx11", "cxx17", "noindex11", "noindex17"])
        for k, t in enumerate(["Trace_C12", "Trace_C24", "Trace_C02", "Trace_C04", "Trace_C05", "Trace_C07", "Trace_C01", "Trace_C09", "Trace_C21", "Trace_C22", "Trace_C13", "Trace_C27", "Trace_C25", "Trace_C06", "Trace_C31"], 1)], models=["MC_Bits", "MC_Floats"], technique="TLA+ (TLC): the results of one expression as a constant expression and at run time, in C++11 and C++17, with and without compiler builtins and index iterators, are recorded as events of the specifications of the other properties and each is decided by them", note="SHA-1 is not evaluated as a constant (too slow)"),
    "C37": dict(drivers=[dict(src="c37_math.cpp", trace="Trace_C37", parts=P(9), variants=["cxx11", "nobuiltin17"])], models=["MC_Transcend"], deep_models=[("MC_Transcend", "MC_Transcend_deep")], technique="TLA+ (TLC): exp, ln, sine/cosine, erf and ln Gamma specified as fixed-point arithmetic on 144 bits (identities model-checked); recorded calls of the library, with and without compiler builtins, accepted within a tolerance of a few units in the last place, special values exactly"),
}

NOT_APPLICABLE = {
    "C38": "Fourier transforms and wave synthesis hold up to floating-point rounding; outside what an integer TLA+ model can decide",
    "C39": "ray tracing is floating-point geometry with no exact discrete specification",
}
