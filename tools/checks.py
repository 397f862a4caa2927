"""The registered checks: what runs for each property, and how much."""


def cc(prog, cases, rule, libs=("avx",), **kw):
    d = {"kind": "cc", "prog": prog, "cases": cases, "rule": rule, "libs": list(libs)}
    d.update(kw)
    return d


def py(prog, cases, rule, **kw):
    d = {"kind": "py", "prog": prog, "cases": cases, "rule": rule}
    d.update(kw)
    return d


RED = ("a case draws a fold, an array profile (exponent range, signs, mantissas, zeros, bin edges, ties), a length "
       "and two presentations (order, strides, cut points, merge tree, entry points); ")
CHECKS = {
    "C01": cc("red", 160000, RED + "non-trivial: at least two nonzero elements and more than two pieces in all"),
    "C02": cc("red", 200000, "a case draws a fold, data and an entry point and compares with exact arithmetic; "
              "non-trivial: at least two elements and both signs present (absolute sums: a nonzero element)"),
    "C03": cc("red", 120000, RED + "non-trivial: at least two nonzero elements and more than two pieces in all"),
    "C04": cc("red", 160000, RED + "non-trivial: at least two nonzero elements and more than two pieces in all"),
    "C05": cc("ssq", 160000, RED + "non-trivial: at least two nonzero elements, several pieces or N > 2"),
    "C15": cc("red", 160000, RED + "up to four elements are infinities or NaN; non-trivial: some component has a "
              "special input or product"),
    "C27": cc("ssq", 400000, "a case is a history of scaled accumulators (sums of squares, merges, rescalings); "
              "non-trivial: at least one merge of two non-empty accumulators or rescaling, over several scales"),
    "C06": cc("help", 800000, "a case draws vectors (lengths around the unrolled loops, position of the maximum, strides) "
              "and compares with the largest magnitude; non-trivial: at least two elements of different magnitude"),
    "C07": cc("hist", 400000, "a case is a history of legal operations on one or several accumulators, replayed on an "
              "integer model; non-trivial: at least three kinds of operation and non-zero content"),
    "C08": cc("hist", 400000, "a case draws accumulators and a merge tree or chain; non-trivial: at least two different "
              "bin positions (vector forms: N >= 2 with content)"),
    "C09": cc("conv", 3000000, "a case is a number or a reachable accumulator; non-trivial: non-zero number, or at least "
              "two non-zero bins"),
    "C10": cc("conv", 3000000, "a case is (fold, N, X, S) or an array and its sum; non-trivial: all of N, X, S non-zero, "
              "or the sum is inexact"),
    "C11": cc("help", 3000000, "a case draws a number or bin index; non-trivial: a non-zero finite number"),
    "C12": cc("hist", 400000, "a case runs one operation or reduction in the packed form and in a strided form with poisoned "
              "gaps; non-trivial: some stride above 1 and non-zero content"),
    "C13": cc("hist", 400000, "a case is a history on a complex accumulator and on two real ones; non-trivial: at least "
              "three kinds of operation and non-zero content"),
    "C16": cc("mat", 300000, "a case draws shapes, layout, transposes, leading dimensions, alpha, beta and entries and compares "
              "with the exact product and with other presentations; non-trivial: a non-empty product of more than one term "
              "with non-zero alpha"),
    "C17": cc("mat", 400000, "a case draws shapes, layout, transposes, leading dimensions, alpha, beta and entries and compares "
              "with the exact product and with other presentations; non-trivial: a non-empty product of more than one term "
              "with non-zero alpha"),
    "C18": cc("diff", 400000, "a case calls a default-fold routine and its fold-taking form on the same operands; "
              "non-trivial: several non-zero terms"),
    "C19": cc("diff", 600000, "a case runs one call in the AVX, SSE2 and plain builds; non-trivial: several non-zero terms",
              libs=["avx", "sse", "sisd"]),
    "C20": cc("diff", 400000, "a case runs one call in builds generated with different tuning arguments and in the checked-in "
              "generated text; non-trivial: several non-zero terms",
              libs=["avx", "pre", "tune-default", "tune-peters", "tune-rand1", "tune-rand2", "tune-rand3"]),
    "C21": cc("mem", 150000, "a case calls a routine built with AddressSanitizer and UndefinedBehaviorSanitizer on operands in "
              "blocks of exactly the documented size and measures live memory over repetitions; non-trivial: as in the "
              "checks whose cases are reused (several non-zero terms)", libs=["asan"]),
    "C22": cc("mpi", 2000000, "a case draws processes, vector lengths and contributions and performs one reduction tree with the "
              "registered operator; non-trivial: at least three processes with content (handle and fault cases: an error "
              "was injected, or handles compared)", libs=["mpi", "mpi-pre"]),
    "C29": cc("thr", 400000, "a case draws two to five threads, a call for each, and the points (basic blocks of the library) at "
              "which one thread is stopped and which goes on; non-trivial: two threads with content and more switches than "
              "threads", libs=["cov", "avx"]),
    "C14": cc("hist", 400000, "a case draws a reachable accumulator and negates, copies or clears it; non-trivial: "
              "non-zero content"),
    "C23": py("params", 60000, "a case draws parameter definitions, values or a sequence of target registrations; non-trivial: "
              "the value is out of range or not admissible as given, or the space or target holds several entries"),
    "C24": py("cog", 40000, "a case is a document of text and generator blocks and a history of runs with different options; "
              "non-trivial: at least one block was regenerated (imports: several files)"),
    "C25": py("cog", 50000, "a case is a document with checksummed output and a history of edits and runs, or a sequence of marker "
              "lines; non-trivial: some run had to be refused (errors: some other block is present)"),
    "C26": py("white", 150000, "a case is a block of lines (str or bytes) and a new indentation; non-trivial: at least two "
              "non-blank lines and some common or new indentation"),
    "C30": cc("conv", 1000000, "a case is a reachable accumulator, packed or with strides, real or complex, printed and read back; "
              "non-trivial: some bin holds something"),
    "C31": py("vec", 640, "a case is a batch of up to 60 emitted programs (loads, operations, a store, consolidation or maximum), a list of "
              "control words or a set of macros; non-trivial: some program has several operations, some macro is set"),
    "C32": cc("env", 600000, "a case draws a control word and a library call, or operations on reachable accumulators, and compares the "
              "control word before and after, or the results with denormals flushed and not; non-trivial: a control word other "
              "than the default, several terms or operations"),
    "C33": py("cog", 10000, "a case is a command line over one to four files (stale, fresh, without generators, failing, edited by hand, "
              "read-only), or a request for information; non-trivial: several files, or further arguments"),
    "C34": cc("far", 32200, "a case is a call on operands whose elements lie so far apart that they extend over up to 2^33 numbers, or a "
              "reduction over a vector of up to 2^31 - 1 elements; non-trivial: several terms, and an operand that extends over more than "
              "2^31 numbers, or more than one element to repeat"),
    "C28": py("codegen", 16000, "a case is an expression tree with assignments, an index request, a loop request with bounds or a "
              "sequence of code block operations; non-trivial: several nested operations"),
}

NOT_APPLICABLE = {
}
