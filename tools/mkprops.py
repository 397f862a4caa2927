#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

BLAS = "src/binnedBLAS/"
B = "src/binned/"
R = "src/reproBLAS/"
STATE = [("binned type (primary, carry)", "fold accumulators, one per bin, plus a carry count each; normalised after every library call", "include/binned.h")]

p("C01", "Sums are bitwise reproducible under order, grouping and stride",
  "For every array of finite numbers, every fold and every element type, the reproducible sum returns the same bits and leaves the same binned accumulator whatever the order of the elements, however the array is cut into consecutive or strided pieces summed into one accumulator, into separate accumulators merged in any tree, or fed in one number at a time. The accumulator holds, per bin, exactly the sum of the slices of the inputs and is left normalised.",
  ["inputs", "histories"], "all arrays (lengths around and beyond the internal block and vector widths, all exponents incl. zero, subnormal, top-of-range), permutations, partitions, strides, folds, 4 element types",
  "The suite sums N=4095 (255 for infinities) of a few fixed fills at stride 1 on one machine path; it cannot cover orders, partitions, other lengths, strides or exponent mixes.",
  [R+"rdsum.c", R+"rzsum_sub.c", BLAS+"dmdsum.ccog", BLAS+"zmzsum.ccog", BLAS+"smssum.ccog", BLAS+"cmcsum.ccog", B+"deposit.py", "src/gen/vectorizations.py"],
  [("per-block amax, update, vector deposit, renormalise", BLAS+"dmdsum.ccog"), ("slicing along fixed bin boundaries", B+"dmddeposit.c"), ("lane consolidation", "src/gen/vectorizations.py")],
  ["reproBLAS_r[dszc]sum", "binnedBLAS_[dszc]b[dszc]sum", "binned_[dszc]b[dszc]add"], STATE)
p("C02", "Sums meet the documented error bound",
  "The value returned by a reproducible sum, absolute sum or binned sum differs from the exact real sum by no more than N*2^(W(1-fold))*max|x| + 7*eps*|S| (W the bin width, plus one quantum of the lowest bin per element for underflow); when that allows overflow it is an infinity of the right sign only if the exact sum is out of range.",
  ["inputs"], "all arrays, folds, element types, including total cancellation, sums near overflow and subnormal data",
  "The accuracy harness samples random fills at the default fold and checks no bound exactly; the bound is a statement about every array.",
  ["README.md", B+"dbbound.c", B+"sbbound.c", B+"ddmconv.c", B+"ssmconv.c", R+"rdsum.c", R+"rdasum.c", R+"rdzasum.c"],
  [("bins kept relative to the largest element", B+"dmdupdate.c"), ("ordered conversion", B+"ddmconv.c")])
p("C03", "Dot products are reproducible sums of the rounded products",
  "For every pair of finite vectors the real, complex unconjugated and complex conjugated (first operand conjugated) dot products return the same bits as the reproducible sum of the individually rounded products, independent of element order, partition, operand exchange (real and unconjugated) and the two strides, and stay within the error bound of the exact dot product.",
  ["inputs", "histories"], "all vector pairs, lengths incl. many multiples of the block length with every product near the top of its bin, folds, strides",
  "The suite uses fixed fills at N=4095 with products of a handful of magnitudes and unit stride; accumulation limits, mixed strides and the conjugation of imaginary parts over all lengths are not reached.",
  [BLAS+"dmddot.ccog", BLAS+"zmzdotu.ccog", BLAS+"zmzdotc.ccog", BLAS+"smsdot.ccog", BLAS+"cmcdotu.ccog", BLAS+"cmcdotc.ccog", BLAS+"depositDot.py", BLAS+"depositDotU.py", BLAS+"depositDotC.py", R+"rzdotc_sub.c"],
  [("amaxm bound on products per block", BLAS+"damaxm.ccog"), ("renormalise before the endurance is used up", BLAS+"zmzdotc.ccog")])
p("C04", "Absolute sums equal the reproducible sum of the absolute values",
  "For every finite vector asum returns the same bits as the reproducible sum of |x| (real) or of |re| and |im| of every element (complex), independent of order, partition, stride and of the signs of the inputs; the result is never negative and is zero only if every kept slice is zero.",
  ["inputs"], "all vectors, sign patterns, lengths, strides, folds, 4 element types",
  "The suite checks a few fills; the complex variants mix lanes of real and imaginary magnitudes in ways a handful of fills cannot separate.",
  [BLAS+"dmdasum.ccog", BLAS+"dmzasum.ccog", BLAS+"smsasum.ccog", BLAS+"smcasum.ccog", BLAS+"depositASum.py", R+"rdzasum.c"],
  [("vector abs then deposit, complex accumulators merged at the end", BLAS+"dmzasum.ccog")])
p("C05", "Norms are reproducible, accurate and free of spurious over/underflow",
  "For every finite vector nrm2 returns the same bits whatever the order, partition or stride of the elements, is within a few units of roundoff (plus the fold bound) of the exact Euclidean norm whenever that is representable, and is zero only for a zero vector; scaled sums of squares accumulated piecewise describe the same scaled value as one call.",
  ["inputs", "histories"], "all vectors with magnitudes from subnormal to the largest finite, growing or shrinking scales between blocks, real and complex, all folds in normal use",
  "The suite checks nrm2 on fills of one magnitude; rescaling between blocks of different scale, and complex real/imaginary imbalance, are only reached by mixed-magnitude data in many orders.",
  [BLAS+"dmdssq.ccog", BLAS+"dmzssq.ccog", BLAS+"smsssq.ccog", BLAS+"smcssq.ccog", B+"dmdrescale.c", B+"zmdrescale.c", B+"smsrescale.c", B+"cmsrescale.c", B+"dscale.c", R+"rdnrm2.c", R+"rdznrm2.c", R+"rsnrm2.c", R+"rscnrm2.c"],
  [("power-of-two scale aligned to bins", B+"dscale.c"), ("rescale of the accumulator", B+"dmdrescale.c")])
p("C06", "amax and amaxm return the exact largest magnitude",
  "For every vector (pair) without NaN, amax returns exactly max|x| and amaxm exactly max of the magnitudes of the rounded products, componentwise for complex data as documented, zero for empty input, for every length, stride and position of the maximum.",
  ["inputs"], "all lengths 0.. beyond several unrolled iterations, every position of the maximum, strides, signed zeros, subnormals, infinities, 4 element types",
  "The suite tests 14 lengths and 3 strides with one fill.",
  [BLAS+"damax.ccog", BLAS+"damaxm.ccog", BLAS+"zamax_sub.ccog", BLAS+"zamaxm_sub.ccog", BLAS+"samax.ccog", BLAS+"camax_sub.ccog", BLAS+"camaxm_sub.ccog", BLAS+"amax.py", BLAS+"amaxm.py", "src/gen/vectorizations.py"],
  [("unrolled loop plus remainder cases", "src/gen/vectorizations.py"), ("horizontal max", BLAS+"amax.py")])
p("C07", "Any legal update/deposit/renorm/add history equals the exact model",
  "For any history of binned operations that respects the documented limits (update with a bound before deposits, at most ENDURANCE deposits between renormalisations), each accumulator holds per bin exactly the sum of the slices of what was put in, as if each number had been added alone, and is normalised after every renormalisation, addition or conversion from a number (negation keeps the value but may leave it to the next of these to normalise).",
  ["histories"], "all sequences of set, setzero, update, deposit (up to the endurance limit), renorm, add, merge, negate, conversion on several accumulators of all four types and folds",
  "The suite only runs the operations in the fixed order of its wrappers; carry propagation at the endurance limit and interleavings of updates with shifts are histories no fixed test samples.",
  [B+"dmdupdate.c", B+"dmddeposit.c", B+"dmrenorm.c", B+"dmdadd.c", B+"zmzdeposit.c", B+"zmzupdate.c", B+"smsdeposit.c", B+"cmcdeposit.c", B+"smrenorm.c"],
  [("carry-propagating renorm", B+"dmrenorm.c"), ("bin shift on update", B+"dmdupdate.c")],
  ["binned_*update", "binned_*deposit", "binned_*renorm", "binned_*add"], STATE)
p("C08", "Merging accumulators is order independent and equals one accumulation",
  "Adding binned accumulators (single or vector form) is commutative and associative bit for bit, has the zero accumulator as identity, and gives the accumulator of the union of the inputs, for any number of merges up to the documented capacity, including merging an accumulator repeatedly into others so that carries become large. The bits agree whenever the merged accumulators are normalised (which every operation but negation leaves them).",
  ["histories", "inputs"], "all pairs and trees of accumulators of any bin positions (incl. disjoint windows), self-doubling chains, vector forms with strides, 4 types, folds",
  "Existing checks merge a few blocks of one fill; bin-window offsets and carry magnitudes are unbounded families.",
  [B+"dmdmadd.c", B+"zmzmadd.c", B+"smsmadd.c", B+"cmcmadd.c", B+"dbdbaddv.c", B+"zbzbaddv.c", B+"sbsbaddv.c", B+"cbcbaddv.c"],
  [("shift of the lower window then renorm", B+"dmdmadd.c")], None, STATE)
p("C09", "Conversion between floating point and binned is accurate both ways",
  "Converting a number to binned and back returns the number itself at fold >= 3 (up to the quantum of the lowest bin), and converting any reachable accumulator to floating point is within the documented 7 eps (to first order) relative of the exact value of its bins, with no spurious overflow, underflow or sign change, for real and complex forms and any memory strides.",
  ["inputs", "histories"], "all finite numbers and all reachable accumulators, incl. intermediate sums beyond the floating-point range and heavy cancellation between bins",
  "Existing checks convert sums of simple fills; accumulator states with cancelling bins or carries near overflow are not sampled.",
  [B+"ddmconv.c", B+"ssmconv.c", B+"zzmconv_sub.c", B+"ccmconv_sub.c", B+"dmdconv.c", B+"smsconv.c", B+"zmzconv.c", B+"cmcconv.c"],
  [("scaled summation from the top bin downward", B+"ddmconv.c")])
p("C10", "Error-bound functions dominate the true error and follow the formula",
  "binned_dbbound and binned_sbbound, given N, the largest magnitude and the computed sum, return a value not below the actual error of that sum, equal to the documented formula up to roundoff (and one quantum of the lowest bin, where gradual underflow adds to the error), nonnegative, and monotone in N and in the magnitude.",
  ["inputs"], "all (fold, N, X, S) and all arrays whose sum they are asked about",
  "Bounds are only used inside tests as tolerances, never checked as values.",
  [B+"dbbound.c", B+"sbbound.c", "README.md"],
  [("closed formula", B+"dbbound.c")])
p("C11", "Index, bin, scale and unit-in-first-place helpers match their definition",
  "For every finite number the bin index is the one whose range contains it, bin values sit at that index's position and map back to it, the scale is a normal, bin-aligned power of two within the documented factors of the number, monotone, and its own scale, ufp is the leading power of two for normal numbers (zero for zero), and the denormal test reports true exactly when bits of the accumulator can be denormal.",
  ["inputs"], "every exponent and mantissa corner of both precisions, incl. subnormal, zero, largest, and every bin index",
  "Existing checks walk powers of two of part of the range.",
  [B+"dindex.c", B+"sindex.c", B+"dmindex.c", B+"dmindex0.c", B+"dmbins.c", B+"smbins.c", B+"dscale.c", B+"sscale.c", B+"ufp.c", B+"ufpf.c", B+"dmdenorm.c", B+"smdenorm.c", B+"zmdenorm.c", "src/common/common.h"],
  [("exponent extraction", "src/common/common.h")])
p("C12", "Strided (manual) forms act like packed forms and touch nothing else",
  "Every operation on accumulators with explicit primary and carry strides leaves in the addressed elements exactly what the packed form leaves in a packed accumulator, returns the same value, and reads and writes nothing between or around the addressed elements.",
  ["inputs", "histories"], "all manual-form operations, all positive stride combinations, real and complex, all folds",
  "All existing tests use packed accumulators; the strided forms are never called with strides other than those the packed forms pass.",
  [B+"dmdadd.c", B+"dmdmadd.c", B+"dmdmset.c", B+"zmzmset.c", B+"zmdmset.c", B+"zzmconv_sub.c", B+"ccmconv_sub.c", B+"dmnegate.c", B+"zmrenorm.c", BLAS+"dmdsum.ccog", BLAS+"zmzdotu.ccog", BLAS+"dmdssq.ccog"],
  [("explicit strides threaded through every call", "include/binned.h")])
p("C13", "Complex accumulators behave as two independent real accumulators",
  "Every complex binned operation leaves the real part as the real operation on the real parts leaves it and likewise for the imaginary part, whatever the relative magnitude of the two parts, including setting or updating a complex accumulator from a real one.",
  ["inputs", "histories"], "all complex histories with parts in different bins, one part at the top bin, zero or non-finite",
  "Tests use complex fills whose two parts have the same magnitude in nearly all cases.",
  [B+"zmzadd.c", B+"zmzdeposit.c", B+"zmzupdate.c", B+"zmdupdate.c", B+"zmzmadd.c", B+"zmnegate.c", B+"zmdmset.c", B+"cmcdeposit.c", B+"cmsmset.c", BLAS+"zmzsum.ccog", BLAS+"cmcsum.ccog"],
  [("interleaved storage with doubled stride", B+"zmzadd.c")])
p("C14", "Negate, set, set-zero, size and allocation agree with each other",
  "Negating an accumulator negates its exact value and, added to the original, gives exactly zero; copying reproduces every bit; set-zero yields the additive identity; num elements of the base type occupy exactly size bytes, and allocation provides that many usable bytes.",
  ["inputs", "histories"], "all reachable accumulators of the four types, all folds up to the maximum",
  "No existing test calls negate, set or the size functions as a property.",
  [B+"dmnegate.c", B+"zmnegate.c", B+"smnegate.c", B+"cmnegate.c", B+"dmdmset.c", B+"dmsetzero.c", B+"dbsize.c", B+"zbsize.c", B+"sbsbze.c", B+"cbsize.c", B+"dbnum.c", B+"dballoc.c"],
  [("reflection about the bin centre", B+"dmnegate.c")])
p("C15", "Infinities and NaNs propagate independently of order and grouping",
  "If the inputs (or rounded products) contain a NaN or infinities of both signs the result is NaN, if they contain infinities of one sign it is that infinity, and otherwise it is the finite result, whatever the position of the special values, the magnitude of the finite ones, the order, the partition or the entry point; for complex data each component follows its own inputs.",
  ["inputs", "histories"], "all placements of special values among finite values of all magnitudes, over several blocks, all reductions, element-wise and merged accumulation",
  "The suite places one or two special values in N=255 arrays of small finite values.",
  [BLAS+"dmdsum.ccog", BLAS+"zmzsum.ccog", BLAS+"dmddot.ccog", BLAS+"zmzdotu.ccog", BLAS+"zmzdotc.ccog", BLAS+"dmdasum.ccog", BLAS+"dmzasum.ccog", BLAS+"dmdssq.ccog", B+"dmddeposit.c", B+"zmzdeposit.c", B+"dmdmadd.c", B+"dmdupdate.c"],
  [("special values carried in the first primary", B+"dmddeposit.c"), ("scalar path for blocks with infinities", BLAS+"dmdsum.ccog")])
p("C16", "Matrix-vector products: right operands, reproducible, within bound",
  "gemv computes y := alpha*op(A)*x + beta*y for every storage order, transpose option (conjugate included), shape, leading dimension and stride: each entry equals bit for bit the reproducible sum of beta*y and the rounded products of op(A) with alpha*x, is within the error bound of the exact result, and is the same for the row-major and column-major presentation of the same matrix.",
  ["inputs", "configurations"], "all shapes (M != N, empty, beyond the block sizes), orders, transposes, lda, strides, alpha and beta incl. 0, 1 and complex values, folds, 4 types",
  "Existing checks use one 256-ish square-like shape set with real unit scalars, unit strides and lda = n; conjugate, rectangular column-major and scalar corner cases are not sampled.",
  [BLAS+"dbdgemv.ccog", BLAS+"zbzgemv.ccog", BLAS+"sbsgemv.ccog", BLAS+"cbcgemv.ccog", R+"rdgemv.c", R+"rzgemv.c", R+"rsgemv.c", R+"rcgemv.c"],
  [("blocked dot products into binned entries", BLAS+"dbdgemv.ccog")])
p("C17", "Matrix-matrix products: right operands, reproducible, within bound",
  "gemm computes C := alpha*op(A)*op(B) + beta*C for every storage order, all transpose pairs (conjugate included), shape and leading dimension: each entry equals bit for bit the reproducible sum of beta*c and the rounded products of alpha*op(A) with op(B), is within the error bound of the exact result, and is independent of storage order and of the position of the entry in a larger product.",
  ["inputs", "configurations"], "all shapes incl. empty and K beyond block sizes, orders, 9 transpose pairs, ld*, alpha and beta incl. 0, 1 and general complex, folds, 4 types",
  "Existing checks use a few square sizes with scalars from {-1,0,1} on both parts; general complex alpha and rectangular shapes for every transpose pair are not sampled.",
  [BLAS+"dbdgemm.ccog", BLAS+"zbzgemm.ccog", BLAS+"sbsgemm.ccog", BLAS+"cbcgemm.ccog", R+"rdgemm.c", R+"rzgemm.c", R+"rsgemm.c", R+"rcgemm.c"],
  [("blocked dot products into binned entries", BLAS+"dbdgemm.ccog")])
p("C18", "Default-fold routines are the fold-taking routines at the default fold",
  "Every BLAS-named routine (sum, asum, nrm2, dots, gemv, gemm in four types) gives bit for bit the result and side effects of its r-prefixed counterpart called with the configured default fold, for all arguments.",
  ["inputs"], "all arguments of every wrapper",
  "The suite exercises the wrappers only where fold equals the default and with fixed fills; argument mix-ups between same-typed parameters need distinct values everywhere.",
  [R+"dsum.c", R+"dasum.c", R+"dnrm2.c", R+"ddot.c", R+"zsum_sub.c", R+"dzasum.c", R+"dznrm2.c", R+"zdotu_sub.c", R+"zdotc_sub.c", R+"dgemv.c", R+"dgemm.c", R+"zgemv.c", R+"zgemm.c", R+"ssum.c", R+"csum_sub.c", R+"sgemv.c", R+"cgemm.c", "config.h"],
  [("forwarding wrappers", R+"dgemm.c")])
p("C19", "Results do not depend on the instruction set the library is built for",
  "Builds of the library for AVX, SSE2 and plain scalar code give bit-identical results and accumulators for every reduction and BLAS routine on the same finite inputs (norms: at folds whose bins stay above the underflow of the squares), and the same non-finite classification otherwise.",
  ["configurations", "inputs"], "all inputs, lengths, strides, folds for the three code paths the generator emits",
  "The test suite runs one build; the SSE2 and scalar paths of every kernel are never executed by it on this machine.",
  ["src/gen/vectorizations.py", B+"deposit.py", BLAS+"amax.py", BLAS+"amaxm.py", BLAS+"depositDotU.py", BLAS+"depositDotC.py", BLAS+"depositSSq.py"],
  [("per-vectorisation code emission", "src/gen/vectorizations.py")])
p("C20", "Results do not depend on tuning arguments or on how code was generated",
  "Any admissible assignment of the tuning arguments (block sizes, unroll and pipe widths, fold expansion), the shipped argument files, and the pre-generated code used when Python is absent all produce a library with bit-identical results for every routine (norms: at folds whose bins stay above the underflow of the squares).",
  ["configurations", "inputs"], "all values in the parameter space file, shipped argument files, pre-generated kernels; all inputs",
  "Only the shipped tuned argument file is built and tested; the parameter space has thousands of dimensions.",
  ["src/params.json", "src/tuned_args.json", "src/default_args.json", "src/gen/generate.py", "src/common/blockSize.py", B+"deposit.py", BLAS+"amax.py", "scripts/pseudocog.sh"],
  [("parameterised code generation", B+"deposit.py")])
p("C21", "No routine reads or writes outside its operands, modifies inputs or leaks",
  "On every legal call each routine accesses only the elements its dimensions, strides and leading dimensions address, leaves all input operands and the gaps of output operands unchanged, frees what it allocates and invokes no undefined behaviour.",
  ["inputs"], "all routines, shapes, strides, leading dimensions, folds",
  "The suite uses oversized contiguous buffers without sanitizers, so stray accesses and leaks are invisible.",
  [BLAS+"zbzgemv.ccog", BLAS+"dbdgemm.ccog", BLAS+"cbcgemm.ccog", "src/gen/vectorizations.py", B+"dmdmaddsq.c", B+"smsmaddsq.c", R+"rdgemm.c", BLAS+"dmzssq.ccog"],
  [("bounds of blocked loops and partial vector loads", "src/gen/vectorizations.py")])
p("C22", "MPI reduction operators give the serial result for every reduction tree",
  "Reducing per-process accumulators with the library's MPI datatypes and operators, in any process order and tree shape, vector length and supported fold, yields the accumulator (for scaled sums of squares: scale and accumulator) of all contributions together, and each datatype covers exactly one accumulator.",
  ["schedules", "inputs"], "all reduction trees and operand orders, counts, folds from 2 up to the supported maximum, 4 plain and 2 scaled operators",
  "No existing test runs any MPI operator.",
  ["src/binnedMPI/DBDBADD.ccog", "src/binnedMPI/ZBZBADD.ccog", "src/binnedMPI/SBSBADD.ccog", "src/binnedMPI/CBCBADD.ccog", "src/binnedMPI/DBDBADDSQ.ccog", "src/binnedMPI/SBSBADDSQ.ccog", "src/binnedMPI/DOUBLE_BINNED.c", "src/binnedMPI/DOUBLE_BINNED_SCALED.c", "src/binnedMPI/FLOAT_COMPLEX_BINNED.c"],
  [("per-fold operator functions calling the vector add", "src/binnedMPI/DBDBADD.ccog")])
p("C23", "Tuning parameters parse into range and round-trip through their files",
  "Parsing any value with a tuning parameter yields a value of the right kind inside its range (stepped or a power of two) and leaves admissible values unchanged; parameter spaces and argument files survive encoding, saving and loading unchanged; registering targets records every argument, metric and parameter and refuses duplicates.",
  ["inputs", "histories"], "all parameter definitions, values, and sequences of target registrations",
  "No existing test covers the generator's parameter layer.",
  ["src/gen/generate.py", "src/common/blockSize.py", "src/params.json", "src/default_args.json"],
  [("parse_value clamping", "src/gen/generate.py"), ("encode/decode", "src/gen/generate.py")])
p("C24", "The code generator preserves text, is repeatable and reversible",
  "Processing a file with embedded generators keeps every line of text outside generated output, puts exactly the generator's (reindented) output between the markers, gives the same file when processed again, and deleting output or generator code removes exactly those parts, for every option combination.",
  ["inputs", "programs"], "all documents of text, generators and stale output, with indentation, prefixes, custom markers, suffixes and option combinations",
  "The vendored unit tests sample a few documents and a fifth of them do not run here.",
  ["scripts/cogapp/cogapp.py", "scripts/cogapp/whiteutils.py"],
  [("line-oriented marker parser", "scripts/cogapp/cogapp.py")])
p("C25", "Checksummed generated output is protected from silent overwriting",
  "With checksums on, output written by the generator is accepted and regenerated, and while its checksum stands any later edit of the protected output is refused with an error that leaves the replaced file unchanged; malformed marker structure is always reported as an error, never silently mangled.",
  ["inputs", "fault_sequences"], "all documents and all single edits of the protected output or the markers",
  "The vendored tests sample two edits.",
  ["scripts/cogapp/cogapp.py"],
  [("md5 of the output line", "scripts/cogapp/cogapp.py")])
p("C26", "Reindenting text changes only the common indentation",
  "The indentation helpers find the longest whitespace prefix common to all non-blank lines and reindenting a block replaces exactly that prefix by the new one, preserving every other character, relative indentation and blank lines (which stay blank); it is idempotent and reversible.",
  ["inputs"], "all blocks of lines over spaces, tabs, text; str and bytes",
  "The unit tests list a handful of examples.",
  ["scripts/cogapp/whiteutils.py"],
  [("common prefix search", "scripts/cogapp/whiteutils.py")])
p("C27", "Scaled accumulators rescale and merge exactly",
  "Adding two scaled binned sums of squares gives the scale max of the two and an accumulator whose scaled value is the exact combination (slices below the kept window excepted), in either order and any grouping; rescaling by a bin-aligned factor preserves the scaled value, for real and complex accumulators.",
  ["histories", "inputs"], "all pairs of scaled accumulators with any scale ratio, incl. zero accumulators and scale zero, real and complex rescale, strides, folds",
  "Only exercised by the suite through nrm2 of uniform data, where scales never differ.",
  [B+"dmdmaddsq.c", B+"smsmaddsq.c", B+"dmdrescale.c", B+"smsrescale.c", B+"zmdrescale.c", B+"cmsrescale.c", B+"dbdbaddsq.c", B+"sbsbaddsq.c"],
  [("division of primaries by the squared scale ratio", B+"dmdrescale.c")])
p("C28", "Generated index arithmetic and code blocks mean what they were asked to",
  "Expressions composed by the generator's symbolic helper evaluate to the requested sum or product for every assignment of the symbols, data and partial-vector indices and loop bounds address every element exactly once, and code blocks render their pieces in order with the indentation in force, includes first and once.",
  ["inputs", "histories"], "all nested combinations of symbols and integers, all sequences of write/indent/dedent/include/sub-block",
  "Only exercised through the fixed kernels.",
  ["src/gen/utils.py", "src/gen/dataTypes.py"],
  [("constant folding", "src/gen/utils.py"), ("block assembly", "src/gen/utils.py")])
p("C29", "Threads may use the library at the same time, first use included",
  "Calls made at the same time from several threads, each on its own operands, give exactly the results of serial calls, although the tables of bins are built on first use and the products use internal scratch memory.",
  ["schedules"], "all interleavings (at basic blocks of the library, as one memory) of calls from several threads, with the tables built or not",
  "No test is multi-threaded.",
  [B+"dmbins.c", B+"smbins.c", BLAS+"dbdgemv.ccog", BLAS+"dbdgemm.ccog"],
  [("lazily initialised table guarded by a plain flag", B+"dmbins.c"), ("scratch memory of the products", BLAS+"dbdgemm.ccog")])
p("C30", "Printing an accumulator shows its contents and leaves it alone",
  "The print functions write one line per bin from the most significant down, giving for each part the exponent of the bin, the primary's offset within it, the carry and the value held there, correct to the digits printed, for any fold and (real accumulators) any strides; the accumulator is unchanged.",
  ["inputs", "histories"], "all reachable accumulators of the four types, folds, strides of the real manual forms",
  "No existing test prints an accumulator.",
  [B+"dbprint.c", B+"dmprint.c", B+"zbprint.c", B+"zmprint.c", B+"sbprint.c", B+"smprint.c", B+"cbprint.c", B+"cmprint.c"],
  [("one line per bin", B+"dmprint.c")])
p("C31", "Emitted vector code computes each operation lane by lane",
  "The code emitted by the generator's SISD, SSE and AVX classes for a load (full, strided or partial), broadcast, arithmetic, maximum, absolute value, conjugation, shuffle, last-bit or, consolidation or maximum over lanes gives in every lane exactly what that operation means on the elements, for the four types; it reads and writes only the elements named, leaves the control word as it found it, and the guards pick the best instruction set that is available and not declined.",
  ["inputs", "programs"], "all compositions of the operations over offsets, increments (numbers or symbols), partial counts, registers, values, and all combinations of the feature macros",
  "The tests run the one instruction set and the unit increments of the machine; the SSE and scalar emissions, partial loads of other types and unused operations are never executed.",
  ["src/gen/vectorizations.py", "src/gen/dataTypes.py"],
  [("per-vectorisation code emission", "src/gen/vectorizations.py")])
p("C32", "Calls leave the floating-point environment as they found it",
  "Every routine returns with the rounding mode, the flush-to-zero and denormals-as-zero modes, the exception masks and the x87 control word it was called with, and drops no exception flag raised before; where no operand, product or kept remainder underflows, and where the denormal test clears an accumulator, results do not depend on whether denormals are flushed.",
  ["inputs", "histories"], "all routines of the three libraries and operations on accumulators, operands incl. special values and N = 0, in all control words (rounding, FTZ, DAZ, raised flags, x87 precision)",
  "The tests run in the default environment and never look at it.",
  ["src/binned/deposit.py", "src/gen/vectorizations.py", "src/binnedBLAS/depositSSq.py", B+"dmdenorm.c", B+"smdenorm.c", B+"zmdenorm.c", B+"cmdenorm.c", B+"dmddeposit.c", BLAS+"dmdsum.ccog"],
  [("(disabled) setting and (emitted) restoring of the flush modes around the kernels", "src/binned/deposit.py"), ("flush mode emission", "src/gen/vectorizations.py")])
p("C33", "The generator command writes only what it must and reports what it did",
  "Run on a list of files, the generator command processes them in order and rewrites exactly those whose content changes, in full, keeping their mode; it leaves unchanged files untouched, refuses files it may not write unless the given command makes them writable, stops at the first failure with the documented status and the cause on stderr, and reports each file as the verbosity asks; asking for help or the version does nothing else.",
  ["inputs", "fault_sequences"], "all lists of files (stale, fresh, without generators, failing, edited, read-only, repeated, through list files) and all combinations of -r, -c, -e, -w, --verbosity",
  "The vendored tests of the command line use a few fixed files, run as one user, and never look at which files were written.",
  ["scripts/cogapp/cogapp.py"],
  [("replaceFile, processOneFile and callableMain", "scripts/cogapp/cogapp.py")])
p("C34", "Operands may be of any extent",
  "The result of a call depends only on the values of its elements, not on how far apart they lie: sums, dot products, norms, maxima and the matrix operations give for operands that extend over more than 2^31 numbers (a large stride or leading dimension), and for vectors of up to INT_MAX elements, what the same elements give next to each other.",
  ["inputs"], "all routines of binnedBLAS and reproBLAS; strides and leading dimensions up to the largest for which memory can be addressed, numbers of elements up to 2^31 - 1",
  "The tests use operands of some thousand elements; an index that is computed in 32 bits goes wrong only beyond 2^31.",
  [BLAS+"dbdgemv.ccog", BLAS+"zbzgemm.ccog", BLAS+"dmdsum.ccog", BLAS+"amax.py", "src/gen/dataTypes.py", "src/reproBLAS/rdgemm.c"],
  [("element offsets", BLAS+"dbdgemv.ccog"), ("strides in emitted code", "src/gen/dataTypes.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
