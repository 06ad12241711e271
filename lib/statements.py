"""The properties, in words.  gen.py writes properties.jsonl and MANIFEST.json from here and registry.py."""
S = {}

def p(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": False}
    if observe:
        a["observe_at"] = observe
    S[pid] = dict(rec={"id": pid, "title": title, "statement": statement,
                       "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
                  technique=technique, note=note)

B = "include/vif/core/bits/"
ASAN = "ASan+UBSan build of the real headers"

p("V01", "Vectors keep shape and content consistent through any edit history",
  "After any sequence of legal construction, assignment, conversion, move, resize, reshape, append, push, erase-like and iteration operations, a vector's number of elements equals the product of its dimensions and its row-major content is exactly what those operations imply. "
  "An operation whose shape is illegal is refused with a diagnostic and corrupts no memory. A vector that was moved from is empty with zero dimensions.",
  ["histories", "inputs", "programs"], "every finite sequence of vector operations, for every element type and rank, including empty vectors and zero dimensions",
  "the unit tests run one or two operations on fixed small vectors; the guarantee is over histories and shapes",
  ["include/vif/core/vec.hpp", B+"initializer_list.hpp", B+"helpers.hpp", "include/vif/utility/generic.hpp"],
  [("container with explicit dimensions", "vec.hpp: vec<Dim,Type>"), ("nested initializer lists", "initializer_list.hpp")],
  "reference-model monitor over random histories, under sanitizers",
  "every step of every generated history compared with an independent row-major model in an "+ASAN+"; held on the histories run")
p("V02", "Indexing reaches exactly the documented elements or is refused",
  "Every checked element or sub-array access (positive or negative indices of any integer type, ranges, index lists, placeholders, mixtures of these, on vectors, constant vectors and views of any rank) reads or writes exactly the elements that row-major indexing with Python-like negative indices designates, in that order and with that shape. "
  "Any index or range outside the bounds is refused with a diagnostic before memory outside the vector is touched.",
  ["inputs", "programs"], "every vector shape, every index expression and every index value, valid or not",
  "tests use a handful of constant indices; the failing ones are type-, rank- and bound-specific",
  [B+"access.hpp", B+"range.hpp", "include/vif/core/range.hpp", "include/vif/core/vec.hpp"],
  [("index resolution and bound checks", "access.hpp"), ("range expressions", "range.hpp")],
  "reference-model monitor of generated index expressions, under sanitizers",
  "each generated access is resolved by an independent model and compared, invalid ones must be refused, in an "+ASAN)
p("V03", "Assignments between overlapping selections behave as if copied first",
  "Assigning, or combining in place with any operator, a vector or a selection of it with a value that overlaps it (itself, one of its elements, a permuted, reversed or shifted selection, a view of a view, a view through a constant reference) gives the result obtained by first copying the right-hand side. "
  "Elements outside the selection are unchanged, and shapes that do not match are refused.",
  ["inputs", "programs"], "every pair of overlapping selections of the same data and every assignment operator",
  "tests try two fixed aliasing patterns; the guarantee is over all overlaps",
  ["include/vif/core/vec.hpp", B+"access.hpp", B+"helpers.hpp"],
  [("alias detection", "vec.hpp: view assignment operators"), ("view parents", "access.hpp")],
  "copy-first reference monitor over generated overlapping assignments, under sanitizers",
  "each generated assignment compared with a copy-first model in an "+ASAN)
p("V04", "Vectorised operators and functions equal the scalar operation per element",
  "For every combination of operand kinds (vector, temporary, view, constant view, scalar), element types and shapes, arithmetic, comparison, logical and mathematical operations on vectors give, element by element and in the right shape, the value of the scalar operation, without modifying any named operand. "
  "Operands with different dimensions are refused.",
  ["inputs", "programs"], "all operand values, kinds, types and shapes",
  "tests check few types and mostly named operands; optimised paths that reuse temporaries are type- and category-specific",
  [B+"operators.hpp", "include/vif/core/vec.hpp", "include/vif/core/meta.hpp", "include/vif/utility/generic.hpp", "include/vif/math/base.hpp"],
  [("operator overloads for lvalues, rvalues, views", "operators.hpp"), ("function vectorisation", "core/bits/vectorize.hpp")],
  "elementwise scalar-oracle monitor over generated operands, under sanitizers",
  "each element of each result compared with the scalar operation in an "+ASAN)
U = "include/vif/utility/"
p("G01", "Searches return exactly the matching elements",
  "where, is_any_of, match, count-like and set-membership functions, bound searches (lower, upper, bounds, equal_range) and nearest-target searches return, for any data including repeated values, NaN, infinities and empty vectors, exactly the elements an exhaustive scan designates. "
  "When several elements qualify the documented one is returned, and a missing value gives the documented 'no position' marker.",
  ["inputs"], "every data set, of every size, type and ordering",
  "the functions switch algorithm with size and the failures need ties, NaN or sizes at the switch",
  [U+"generic.hpp"], [("where/complement/match", "generic.hpp"), ("bounds, equal_range, astar_find", "generic.hpp")],
  "brute-force reference monitor over generated data, under sanitizers",
  "each search on generated data compared with an exhaustive scan in an "+ASAN)
p("G02", "Sorting and set operations preserve elements and order",
  "sort, inplace_sort, is_sorted, unique_ids, unique_values and the set operations return a permutation or subset of their input that is ordered, stable, with NaN last, complete and without repetition, for any data with ties, NaN and infinities. Inputs other than the one sorted in place are unchanged.",
  ["inputs"], "every data set of every size and type, sorted or not",
  "ties, NaN and empty inputs are where ordering guarantees break and the tests contain few",
  [U+"generic.hpp"], [("stable sort with NaN last", "generic.hpp: sort, inplace_sort"), ("unique and set functions", "generic.hpp")],
  "permutation, order and multiset monitor over generated data, under sanitizers",
  "order, stability and multiset content checked on every generated data set in an "+ASAN)
p("G03", "Rearranging functions move every element where documented",
  "shift, reverse, transpose, reform, flatten, replicate, remove, append, prepend and the flat/multi index conversions put each element exactly where their documentation says, for any rank, shape and argument including empty vectors and a vector combined with itself. "
  "Arguments that make no sense (bad indices, repeated indices, mismatched dimensions) are refused with a diagnostic without touching memory outside the vectors.",
  ["inputs"], "every shape, amount, index list and axis",
  "tests use one shape per function; the guarantee depends on rank, axis and degenerate sizes",
  [U+"generic.hpp", "include/vif/core/vec.hpp"], [("append/prepend/remove/shift", "generic.hpp"), ("mult_ids/flat_id", "generic.hpp")],
  "row-major reference monitor over generated shapes, under sanitizers",
  "each result compared element by element with a reference in an "+ASAN)
p("S01", "Text conversion of numbers is faithful both ways",
  "A number written to text by the library and read back gives the same value (to the stated precision), for the whole range of each type including extremes, infinities and NaN. "
  "Reading text that is not a number of the requested type, or that does not fit in it, reports failure instead of returning a wrong value, element by element for vectors.",
  ["inputs"], "every value of every numeric type, and every text",
  "tests parse a few literals; extremes, exponents, special values and malformed text are unbounded",
  ["include/vif/core/string_conversion.hpp", U+"string.hpp"], [("to_string/from_string and format modifiers", "core/string_conversion.hpp")],
  "round-trip and C-library reference monitor, under sanitizers",
  "each generated value and text compared with the C library in an "+ASAN)
p("S02", "String editing functions do exactly what they document on any text",
  "find, replace, erase/insert-like, split, cut, collapse, trim, wrap, case, prefix/suffix, word and block functions transform any text, including empty text, separators at the ends, adjacent or overlapping patterns and unterminated blocks, exactly as documented, terminate, and neither read nor write outside the string. Vectorised forms give the same result element by element.",
  ["inputs"], "every text, pattern and separator",
  "tests use a few sentences; the failures need patterns touching ends or overlapping",
  [U+"string.hpp"], [("split/cut/trim/wrap", "string.hpp"), ("replace_block(s)", "string.hpp")],
  "character-level reference monitor over small alphabets, under sanitizers",
  "each result compared with a character-by-character reference in an "+ASAN)
p("S03", "Regular expressions and hashes are correct and deterministic",
  "Regex matching, extraction and replacement return all and only the non-overlapping matches and groups, for any text, terminate even on empty matches, and refuse invalid expressions. "
  "hash() is the standard digest of its argument's text form: equal values hash equally however they are passed, and different values hash differently.",
  ["inputs"], "every text, expression and hashed value, of every length",
  "block-boundary lengths, empty matches and unmatched groups are not in the tests",
  [U+"string.hpp"], [("POSIX regex wrapper", "string.hpp: regex_*"), ("SHA-1", "string.hpp: hash")],
  "second-implementation monitor (other regex engine, SHA-1 from the standard), under sanitizers",
  "each match list and digest compared with an independent implementation in an "+ASAN)
T = U+"bits/thread-"
TS = "TSan and ASan builds of the real headers"
p("T01", "A parallel loop runs each index once and finishes before returning",
  "parallel_for calls its function exactly once for each index of the requested range and for no other index, whatever the number of threads, chunk size, range (empty, shorter than the threads, starting anywhere) and schedule, and all effects of the calls are visible when execute() returns. It can be reused, introduces no data race, and never hangs.",
  ["schedules", "inputs"], "every schedule of the workers, every thread count, chunk size and range",
  "the tests never run the parallel loop; the guarantee is over schedules and partitions",
  [T+"parallel-for.hpp", U+"thread.hpp"], [("chunked distribution with worker threads", "thread-parallel-for.hpp: execute")],
  "call-log monitor (range, exactly once, visibility) with injected delays, under TSan and ASan",
  "each execution's log checked in "+TS+"; holds for the schedules that ran")
p("T02", "The lock-free queue delivers every item once, in order, intact",
  "Between one producer and one consumer, items pushed into the queue are popped exactly once, in the order pushed and with their content intact, under every interleaving of the two threads, and clear() or destruction releases what remains. Neither side blocks or races.",
  ["schedules", "histories"], "every interleaving of one producer and one consumer, every number of items",
  "a unit test runs one schedule; loss or reordering needs a particular interleaving",
  [T+"queue.hpp"], [("single-producer single-consumer linked queue with atomics", "thread-queue.hpp: lock_free_queue")],
  "consumer-log monitor (order, loss, duplication, content) with injected delays, under TSan and ASan",
  "each exchange's log checked in "+TS+"; holds for the schedules that ran")
p("T03", "Background workers run each job exactly once and in order",
  "Jobs given to a background worker run exactly once, in order, and are all finished when wait() or the destructor returns. "
  "A worker pool runs every queued job exactly once on one of its workers (the chosen one if given), each with that worker's own workspace, all finished once consume_all() followed by join() (or the pool's destruction) return, across any number of starts and joins and without data races or hangs.",
  ["schedules", "histories"], "every schedule, every sequence of process/wait/start/join calls",
  "the tests never start a worker; lost or repeated jobs need particular timing",
  [T+"worker.hpp", T+"worker-pool.hpp"], [("worker thread with queue", "thread-worker.hpp"), ("pool of workers", "thread-worker-pool.hpp")],
  "job-log monitor (exactly once, order, completion) with injected delays, under TSan and ASan",
  "each execution's log checked in "+TS+"; holds for the schedules that ran")
p("A01", "ASCII tables are written exactly and read back cell for cell",
  "Writing columns of any type, shape and number to a text table produces one line per row with each cell in its place, and reading a table returns exactly the cells of its data lines, in order, whatever the comments, blank lines, spacing, delimiter, line endings, skipped or extra columns. "
  "A cell that is missing or cannot be converted, columns of different lengths, and files that do not exist or cannot be read are refused with a diagnostic instead of giving wrong data, never looping or touching memory outside the data.",
  ["inputs", "programs", "faults"], "every table content, layout, column list and file content",
  "the tests read a few well-formed files; holes, odd layouts and malformed bytes are unbounded",
  ["include/vif/io/ascii.hpp"], [("column reader and header parser", "ascii.hpp: read_table"), ("column writer", "ascii.hpp: write_table")],
  "reference-writer and generating-table monitor, under sanitizers",
  "each file written compared byte for byte, each file read compared with the table that generated it, in an "+ASAN)
p("O01", "Path functions and file operations act only as documented",
  "Path functions split and join any path consistently (directory plus base name designates the same file, extensions are removed or split at the right dot, a directory always ends with a slash). "
  "mkdir, copy, remove, exists, is_older and the directory listings report and change exactly the files they are given, and report failure when the operation did not happen.",
  ["inputs", "histories", "faults"], "every path text, every content of a directory tree, every sequence of operations",
  "tests use a few tidy paths and one directory; trailing slashes, hidden files and failing operations are not exercised",
  ["include/vif/io/filesystem.hpp"], [("path functions", "filesystem.hpp: get_directory, get_basename, split_extension"), ("file operations", "filesystem.hpp: mkdir, copy, remove, explorer")],
  "C-library path oracle and directory-model monitor in a scratch directory, under sanitizers",
  "each path compared with the C library, each operation with a model of the scratch directory, in an "+ASAN)
p("O02", "Command line arguments reach the right variables unchanged",
  "read_args gives every variable named on the command line exactly the value written there (flags, one or two dashes, quoted text, lists, any order) and leaves every other variable untouched. "
  "Unknown names and values that cannot be converted are reported by a warning naming them and modify nothing; arguments written back with program_arguments and values put in the environment read back identically.",
  ["inputs"], "every list of arguments, every set of variables and every value",
  "tests pass one command line; interactions between arguments, quoting and invalid ones are unbounded",
  ["include/vif/utility/os.hpp", "include/vif/utility/argv.hpp"], [("argument parser", "read_args"), ("program_arguments, system_var, spawn", "os.hpp / argv.hpp")],
  "generated command line oracle with captured warnings, under sanitizers",
  "each variable and each warning compared with the generating command line in an "+ASAN)
p("O03", "Durations, progress bars, help text and prompts say exactly what happened",
  "time_str and seconds_str write a duration whose parts add up to the duration given, now, profile and date/time strings agree with the system clock, and a progress bar shows a count that never decreases, never exceeds the number of iterations, matches its percentage, and ends exactly once with the full count. "
  "Messages, warnings and formatted help contain every word given, in order and within the requested width, and prompt returns exactly the first valid answer typed, reporting each invalid one and consuming nothing more.",
  ["inputs"], "every duration, number of iterations, step, message and sequence of answers",
  "tests check none of the printed output; wrapping, padding and end conditions depend on the values",
  ["include/vif/utility/time.hpp", "include/vif/core/print.hpp", "include/vif/utility/os.hpp"], [("durations and progress", "time.hpp: time_str, seconds_str, profile, progress*, print_progress"), ("messages and prompts", "print.hpp: print, error, warning, note, prompt; terminal_format")],
  "captured output compared with what was asked, under sanitizers",
  "every printed frame, message and answer compared with an independent reading of what was asked in an "+ASAN)
p("O04", "Files that cannot be written completely are reported, never silently cut",
  "Whenever a writing function - text tables, file copies, regions, saved arguments, lists of positions, FITS images, cubes, tables, and updates of existing FITS files - ends normally, the file holds everything that was written; when the disk fills up at any byte, the file grows too large, or it cannot be created, the function reports it by a diagnostic, an exception or its returned value. "
  "After a reported failure no file is left open and the library goes on working.",
  ["inputs", "faults"], "every content and every point at which the write can fail",
  "tests always have enough space and never fail a write; errors that appear when buffered data reach the disk are seen at particular sizes only",
  ["include/vif/io/ascii.hpp", "include/vif/io/filesystem.hpp", "include/vif/io/fits.hpp", "include/vif/io/fits/base.hpp", "include/vif/io/fits/image.hpp", "include/vif/io/fits/table.hpp", "include/vif/astro/ds9.hpp", "include/vif/utility/argv.hpp", "include/vif/astro/astro.hpp"], [("text files", "ascii.hpp write_table; filesystem.hpp copy; ds9.hpp write_regions; argv.hpp save_args; astro.hpp print_radec"), ("FITS files", "base.hpp: flush, close, status checks; fits.hpp: write, write_table, update_table, update_hdu")],
  "fault injection on writes with a monitor of the statuses returned by CFITSIO, under sanitizers",
  "write failures injected at seeded bytes; the file on disk, the diagnostics, and the statuses CFITSIO returned (wrapped entry points) decide, in an "+ASAN)
p("R01", "Every operation gives back the memory, files and threads it takes",
  "Repeating any operation of the library - on vectors, strings, files, tables, FITS images, matrices, fits, Fourier transforms, astrometry, catalogues, images, threads - leaves the process with the memory, open files and threads it had, whether the operation succeeds, reports failure, or ends with an exception (from the library or from a function given by the user). "
  "Objects that are moved, reopened, restarted, cleared or destroyed early release what they held exactly once.",
  ["inputs", "faults"], "every operation that returns or throws, in any number of repetitions",
  "tests call each operation a few times and end: what is not given back is never noticed, and the exceptional ways out are not tested",
  ["include/vif/utility/bits/string-regex.hpp", "include/vif/io/filesystem.hpp", "include/vif/io/fits/base.hpp", "include/vif/math/fourier.hpp", "include/vif/math/optimize.hpp", "include/vif/astro/wcs.hpp", "include/vif/astro/image.hpp", "include/vif/utility/bits/thread-queue.hpp", "include/vif/utility/bits/thread-worker-pool.hpp"], [("C resources", "regfree, closedir, fits_close_file, fftw_destroy_plan, gsl_*_free, wcsvfree"), ("threads and nodes", "lock_free_queue, worker, worker_pool, parallel_for: destructors, clear, start")],
  "process resources observed around repeated operations, under sanitizers",
  "the allocated bytes (sanitizer allocator), open descriptors and running threads are observed before and after repetitions of each operation in an "+ASAN)
M = "include/vif/math/"
p("M01", "Statistics over vectors equal their definitions for any data",
  "total, mean, median, percentiles, sigma clipping, MAD, rms, stddev, min, max, minmax, their weighted and per-axis (partial_*) and per-slice (reduce, run_dim) versions, fraction and count of booleans, and element-wise min/max return the value and position given by their definition, on vectors or views of any element type, size and rank; NaN are ignored where documented and the input is left unchanged. "
  "Empty, mismatched or otherwise impossible input is refused or gives the documented value (NaN or zero), never memory outside the data.",
  ["inputs"], "every vector content, type, shape and axis, including NaN, infinities, ties and very large integers",
  "tests use one or two short vectors; ties, NaN, empty slices and overflow are data-dependent",
  [M+"reduce.hpp", M+"base.hpp"], [("reductions over all elements", "reduce.hpp: mean, median, percentile, rms, min, max, minmax"), ("reductions along one axis", "reduce.hpp: reduce, run_dim, partial_*")],
  "brute-force definition oracle on extended precision, under sanitizers",
  "every statistic of every generated data set compared with its definition in an "+ASAN)
p("M02", "Bins, histograms and generated sequences place every value exactly",
  "Binning puts every value in the one bin whose interval contains it (lower edge included, upper excluded; open ends where asked), so that histogram counts and weights in 1-D and 2-D equal a direct count and the function versions see each bin once with exactly its members; make_bins gives contiguous bins covering the range. "
  "indgen, rgen, rgen_log, rgen_step, replicate, uindgen and cumulative sums return exactly the documented number of values with the documented ends and spacing for any integer or real arguments; impossible arguments are refused.",
  ["inputs"], "every data set, set of bins, weights, and every pair of bounds, step and number of points",
  "values on bin edges, empty bins and integer or decreasing ranges are not in the tests",
  [M+"histogram.hpp", M+"base.hpp", M+"reduce.hpp"], [("bin look-up", "in_bin, in_bin_open"), ("histograms", "histogram.hpp: histogram, histogram2d"), ("sequences", "base.hpp: rgen, rgen_log, rgen_step, indgen")],
  "direct-count oracle, under sanitizers", "every count and sequence compared with a direct evaluation in an "+ASAN)
p("M03", "Interpolation and integration follow their definition at every point",
  "interpolate (linear, cubic spline, with errors, one value or many), bilinear and bicubic interpolation and rebin, and convolve return, at every position inside, outside, on a node or exactly on the last value, the value their definition gives, exactly reproducing data of the matching polynomial degree. "
  "integrate, integrate_func, cumul and integrate_gauss equal the area under the (linear or binned) curve between any two bounds; mismatched or empty inputs are refused and no memory outside the data is read.",
  ["inputs"], "every tabulated curve or map (irregular, tiny or empty), and every position or interval",
  "tests interpolate mid-interval on regular grids; nodes, edges, irregular steps and tiny maps differ",
  [M+"interpolate.hpp", M+"reduce.hpp", M+"transform.hpp"], [("interpolation", "interpolate.hpp: interpolate, interpolate_3spline, bilinear, bicubic, rebin"), ("integration", "reduce.hpp: integrate, integrate_func, cumul")],
  "direct-evaluation oracle in extended precision, under sanitizers", "every value compared with its definition in an "+ASAN)
p("M04", "Matrix operations satisfy their defining equations or report failure",
  "Products, transposes, solving, inverting, LU and Cholesky decompositions (with or without pivoting, through LAPACK or not), determinants and symmetric eigen-decompositions satisfy their defining equations to rounding error for every regular matrix of any size, and the products equal the sum over the shared index for any shapes. "
  "Singular or non-positive matrices are reported by the return value and incompatible shapes are refused, without touching memory outside the operands.",
  ["inputs"], "every matrix content, size (including 0 and 1) and conditioning",
  "tests invert one 2x2 or 3x3 matrix; pivoting paths depend on the values",
  [M+"matrix.hpp", M+"bits/matrix-types.hpp", M+"lapack.hpp"], [("product and decompositions", "matrix.hpp: product, decompose_lu, decompose_cholesky, invert, solve, eigen_symmetric")],
  "residual and extended-precision oracle, under sanitizers", "every result inserted in its defining equation in an "+ASAN)
p("M05", "Fits return the best solution and its uncertainties, or report failure",
  "linfit, linfit_batch and linfit_pack return the weighted least-squares solution with its covariance, errors and chi2 for any number of data and model vectors; linfit_nn returns non-negative coefficients satisfying the optimality conditions; mpfit and the BFGS minimiser reach the same solution for well-posed problems, respect limits and frozen parameters and never end worse than they started. "
  "Singular problems are reported by the success flag and mismatched dimensions are refused.",
  ["inputs"], "every data set, uncertainty, model basis, starting point and set of constraints",
  "tests fit a single straight line; optimality has to hold for every data set and constraint set",
  [M+"linfit.hpp", M+"mpfit.hpp", M+"optimize.hpp"], [("linear fits", "linfit.hpp"), ("Levenberg-Marquardt with limits", "mpfit.hpp"), ("BFGS", "optimize.hpp: minimize_bfgs")],
  "normal-equation and KKT oracle, under sanitizers", "every solution checked against independently solved normal equations or optimality conditions in an "+ASAN)
p("M06", "Random numbers are reproducible, in range and follow their distribution",
  "With the same seed the same calls give the same values; uniform integers and reals stay inside the given range and are uniform over it (each end included for integers, negative ranges included), Gaussian, coin and tabulated or discrete PDF draws have the stated distribution, and shuffle and inplace_shuffle return permutations with every outcome equally likely.",
  ["inputs", "histories"], "every seed, range, shape and distribution",
  "tests only check that a call works; range edges and bias need statistics over many draws",
  [M+"random.hpp"], [("uniform integers and reals", "random.hpp: randomi, randomu"), ("shuffles", "random.hpp: shuffle, inplace_shuffle"), ("tabulated PDF", "random.hpp: random_pdf")],
  "statistical monitor (chi-square at fixed seeds) and permutation checker, under sanitizers", "every draw checked for range, every sample tested at a 1e-7 level with fixed seeds in an "+ASAN)
p("M07", "Fourier transforms equal the discrete transform and invert, in any thread",
  "fft, ifft and their complex versions of any two-dimensional array equal the discrete Fourier transform sum, and the inverse of the transform divided by the number of pixels returns the original. "
  "Transforms of any mix of sizes running at the same time in several threads give the same values as alone, with no data race.",
  ["inputs", "schedules"], "every array content and size (odd, even, 1 pixel wide), and every interleaving of transforms",
  "tests transform one array in one thread",
  [M+"fourier.hpp", M+"complex.hpp"], [("FFTW plans under a lock", "fourier.hpp: fft, ifft, fft_c2c")],
  "direct-sum oracle under sanitizers, and TSan run of concurrent transforms", "every transform compared with the direct sum in an "+ASAN+"; concurrent transforms also in a TSan build")
p("M08", "Convex hulls contain all their points and classify any position correctly",
  "build_convex_hull returns a closed, counter-clockwise, strictly convex polygon whose vertices are input points and which contains all of them; in_convex_hull and convex_hull_distance agree with the half-plane and segment-distance definitions for every position, whatever the orientation or starting vertex of a hull given by the user. "
  "Hulls that are open, empty or malformed are refused.",
  ["inputs"], "every set of points (repeated, aligned or few) and every position",
  "tests use one triangle or square; alignment, repetition and orientation are data-dependent",
  [M+"convex_hull.hpp"], [("hull construction", "build_convex_hull"), ("inclusion and distance", "in_convex_hull, convex_hull_distance")],
  "half-plane and segment-distance oracle, under sanitizers", "every hull and every position checked geometrically in an "+ASAN)
FI = "include/vif/io/fits/"
p("F01", "Images written to FITS files are exactly what is stored and read back",
  "An image of any pixel type, shape and content written to any HDU is stored as a well-formed FITS file holding exactly these pixels, and reading it (whole, one pixel, any sub-range, into any wide enough type) returns them bit for bit, including NaN and infinities; files made by other programs, with scaling or blank pixels, give the values the standard defines. "
  "After any history of moving between HDUs, writing, updating, removing, flushing, closing and reopening, the file holds exactly the HDUs, pixels and keywords of that history. "
  "Wrong ranks, narrowing, missing HDUs, positions outside the image and files that cannot be opened are refused, and the object can be used again after a refused read.",
  ["inputs", "histories"], "every pixel content, type, shape, HDU layout and history of operations",
  "tests write and read one small image; HDU bookkeeping depends on the history",
  [FI+"base.hpp", FI+"image.hpp", FI+"file.hpp", "include/vif/io/fits.hpp"], [("reading and writing pixels", "image.hpp: read, read_subset, read_pixel, write, update"), ("HDU navigation and creation", "base.hpp: reach_hdu, hdu_type, image_dims, remove_hdu")],
  "independent FITS decoder over recorded histories, under sanitizers", "bytes on disk decoded independently after every flush and close, every value read compared bit for bit, in an "+ASAN)
p("F02", "Tables written to FITS files are exactly what is stored and read back",
  "Columns of any type (numbers, booleans, text), any shape, in column- or row-oriented tables are stored as a well-formed binary table holding exactly these values, and reading a column, an element or a slice, or updating them, concerns exactly the requested values; after any history of writing, updating, allocating and removing columns, closing and reopening, the table holds exactly the columns of that history. "
  "Tables of other programs (binary or ASCII; logical, scaled, null or text columns) give the values the standard defines. "
  "A read that needs narrowing, a missing column, promotion or flattening is refused without the matching option and exact with it; wrong types, ranks, sizes, row numbers or positions are refused.",
  ["inputs", "histories"], "every column content, type, shape and orientation, read option and history",
  "tests write and read one small table of one orientation",
  [FI+"table.hpp", FI+"base.hpp", "include/vif/io/fits.hpp"], [("reading columns with options", "table.hpp: read_column, read_columns, read_column_info"), ("writing columns", "table.hpp: write_column, update_column, remove_column, allocate_column"), ("elements", "table.hpp: read_elements, update_elements, fits::at")],
  "independent FITS table decoder over recorded histories, under sanitizers", "bytes on disk decoded independently, every value read compared bit for bit, in an "+ASAN)
p("F03", "FITS keywords keep their values through any edit, copy or parse",
  "After any history of writing, replacing, adding and removing keywords (any text, integer, real or boolean, standard or long names, short or long text), reading each gives its last value, removed ones are absent, failed reads report failure, and the file on disk is well formed with these values and unchanged data. "
  "The header as text gives the same values through getkey and parse_header, setkey changes exactly one keyword and keeps the rest and the final END, and copying or serializing a header preserves the values; malformed header text never makes these functions read outside it.",
  ["inputs", "histories"], "every keyword name, value, comment, header text and history of edits",
  "tests read a few keywords; quoting, long text and card layout depend on the values",
  [FI+"base.hpp"], [("keywords in files", "base.hpp: read_keyword, write_keyword, add_keyword, remove_keyword, write_header"), ("headers as text", "base.hpp: getkey, setkey, parse_header, serialize_header")],
  "independent header decoder over recorded histories, under sanitizers", "every header decoded independently after each history, in an "+ASAN)
p("F04", "Damaged FITS files are refused or read, never corrupting memory",
  "Opening, describing and reading any file, however truncated or damaged, as an image or as a table either returns or is refused with an error, never touches memory outside the program's data, never hangs, leaves no file open, and leaves the library able to read and write other files.",
  ["inputs", "faults"], "every truncation point and every damage to headers or data of a file",
  "tests only use well-formed files",
  [FI+"base.hpp", FI+"image.hpp", FI+"table.hpp"], [("opening and dispatch on header content", "base.hpp: open, hdu_type, get_table_format_"), ("buffers sized from header content", "table.hpp: read_column, read_column_info")],
  "fault injection on files with sanitizers and a resource monitor", "each operation on each damaged file watched for sanitizer errors, undocumented outcomes and open descriptors in an "+ASAN)
AS = "include/vif/astro/"
p("X01", "Cross-matching finds the true nearest neighbours, whatever the geometry",
  "For any two catalogues (or one matched with itself), qxmatch gives for each source its nearest counterparts in the other, in order, each once, with their distances, and the nearest source of the first catalogue for each source of the second, exactly as an exhaustive search would, whether or not the fast search or several threads are used and wherever the sources lie on the sky or on a plane. "
  "Missing neighbours have no identifier and no finite distance, a source is never its own neighbour in a self-match, and invalid coordinates are refused. "
  "The best-match cleaning keeps exactly the mutual matches, each source is kept or lost once, and results survive saving to a file.",
  ["inputs", "schedules"], "every pair of catalogues, number of neighbours, search method and thread count",
  "tests match one small field; missed neighbours need particular geometries (poles, RA 0, clusters, long strips)",
  [AS+"qxmatch.hpp"], [("bucket search", "qxmatch.hpp: qxmatch, depth_cache"), ("work sharing between threads", "qxmatch.hpp: qxmatch"), ("cleaning", "qxmatch.hpp: xmatch_clean_best")],
  "exhaustive-search oracle with sanitizers and a race detector", "every neighbour compared with an exhaustive long double search in an "+ASAN+", and under TSan")
p("X02", "Image geometry moves every pixel where it says, and nothing else",
  "Enlarging, shrinking, cutting a region, flipping, shifting, translating, recentering, scaling and rotating an image give, for any size, offset, region or angle, exactly the pixels of the original at the positions the operation defines, and the default value wherever the original does not cover. "
  "Circular masks, radial profiles and Gaussian profiles give in each pixel the value of their definition. "
  "No argument, including offsets or regions far outside and empty images, makes them access memory outside the image.",
  ["inputs"], "every image size, pixel type, offset, region, factor and angle",
  "tests use a few centred cases; partial and absent overlap are where the index arithmetic fails",
  [AS+"image.hpp"], [("regions and offsets", "image.hpp: subregion, enlarge, shrink, recenter, inplace_translate_integer, inplace_shift"), ("resampling", "image.hpp: translate, scale, rotate"), ("apertures", "image.hpp: circular_mask, radial_profile")],
  "pixel-by-pixel model with sanitizers", "every pixel compared with the definition in an "+ASAN)
p("X03", "Image convolution and segmentation obey their definitions",
  "Convolution (direct, Fourier, with a prepared kernel or with a reusable convolver, padded or cyclic) gives the sum over the kernel centred on each pixel for any image and kernel sizes; windows and mask inflation use exactly the pixels within their distance. "
  "Segmentation labels exactly the connected components, lists each once with its area, centre and first pixel, and drops those below the minimum area; deblending makes one segment per peak separated by the threshold, and each listed area, flux, centre and peak is that of the labelled pixels. "
  "The distance map gives for each pixel a segment pixel, its owner and its distance consistently.",
  ["inputs", "histories"], "every image, kernel, mask, threshold and reuse of the convolver or outputs",
  "tests convolve one square image with one kernel; segmentation is never tested",
  [AS+"image.hpp", "include/vif/math/fourier.hpp"], [("Fourier convolution", "image.hpp: convolve2d, convolver2d, make_transition_kernel"), ("segmentation", "image.hpp: segment, foreach_segment, segment_deblend, segment_distance"), ("windows", "image.hpp: boxcar, mask_inflate")],
  "direct-sum and flood-fill oracles with sanitizers", "every pixel and catalogue entry compared with the definition in an "+ASAN)
p("X04", "Sky coordinates: distances, strings, areas and random positions are exact",
  "For any pair of positions the angular distance is the great circle distance (never NaN for finite positions, and consistent with the within-a-radius test), and normalising, rotating, moving or changing the representation of positions preserves the points they designate. "
  "Sexagesimal strings are read and written with their sign and value for all coordinates, and malformed ones are refused. "
  "Field areas are those of the hull or of the covered cells, and generated random positions are as many as requested, inside the requested region, in distance and clustering limits asked, or the generator reports failure.",
  ["inputs"], "every position on the sky, string, field and generator option",
  "tests use a handful of positions away from the poles, RA 0 and negative declinations between -1 and 0",
  [AS+"astro.hpp"], [("distances", "astro.hpp: angdist, angdistr, angdist_less"), ("representation", "astro.hpp: normalize_coordinates, vernal_angle, angrot_vernal, sex2deg, deg2sex"), ("fields", "astro.hpp: field_area_hull, field_area_h2d, randpos_*, angcorrel")],
  "extended-precision oracle with sanitizers", "every distance, string, area and generated position compared with its definition in long double in an "+ASAN)
p("X05", "Photometry, template fits and source models obey their definitions",
  "Cosmological distances, ages and volumes are the integrals of the chosen cosmology for one redshift or a sample of any size and order, and unit conversions are mutually inverse. "
  "The flux of a spectrum through a filter and its luminosity in a range are the integrals over the covered range and NaN (or zero) without coverage; filters are read from every supported description and bad ones are refused; template fits give for each template (or allowed combination) its best amplitude, chi2 and fluxes, and the best one. "
  "PSF models, stamps extracted around sources, and source fitting or subtraction use exactly the pixels at the source positions, at any place including the edges.",
  ["inputs"], "every redshift, spectrum, filter, cosmology, PSF model and source position",
  "tests compare a few redshifts and one filter with tables; coverage edges and sources at the edge are never tested",
  [AS+"astro.hpp", AS+"template_fit.hpp"], [("template fits", "template_fit.hpp: template_observed, template_fit, multi_template_fit"), ("cosmology", "astro.hpp: lumdist, propsize, lookback_time, vuniverse"), ("photometry", "astro.hpp: sed2flux, sed_luminosity, get_filter, mag2lsun"), ("sources", "astro.hpp: make_psf, psffit, srcsub, pick_sources")],
  "quadrature and definition oracles with sanitizers", "every value compared with its definition in long double in an "+ASAN)
p("X06", "WCS conversions and regridding put every pixel at its true sky position",
  "Converting pixel to sky coordinates and back gives the projection described by the header for any orientation, pixel scale, extra axes and argument types, and NaN where no conversion exists; axes, units and pixel scales (of a header, a file or a list of files) are those of the header, unusable or missing headers are refused or reported, and copies and moves of the projection keep it. "
  "Filtering a header keeps exactly the cards of the projection. "
  "Regridding by interpolation gives the source image interpolated at the true position of each destination pixel, drizzling gives the overlap-weighted mean of the source pixels (with their weights and conserving flux when asked), and uncovered pixels are NaN with zero weight.",
  ["inputs"], "every projection, header, position, image, method and option",
  "tests convert a few positions of one header; edges, rotated grids, linearised positions and cubes are not tested",
  [AS+"wcs.hpp", AS+"image.hpp"], [("projection", "wcs.hpp: wcs, ad2xy, xy2ad, make_wcs_header, filter_wcs"), ("regridding", "image.hpp: regrid_interpolate, regrid_drizzle")],
  "gnomonic model and overlap oracles with sanitizers", "every position and pixel compared with an independent long double projection in an "+ASAN)
p("X07", "Cutouts, stacks and region masks contain exactly the pixels they should",
  "A cutout or stack of sources contains, for each source, exactly the pixels of the image around its position with the requested size, the default (or invalid) value outside the image, and the pixels of the other images where the first ones have none; sources without coverage (or with invalid pixels, unless these are kept) are reported or left out, identifiers, offsets, weights and headers stay in step with the pixels, and averages and bootstraps use the planes of the stack. "
  "Region files are read in the coordinate system of each line, ill-formed lines are skipped without affecting others, regions converted or written designate the same area of the sky, and masks flag exactly the pixels inside the regions.",
  ["inputs", "histories"], "every set of images, source position, size, option and region file",
  "neither cutouts, stacks nor regions are tested; edges, several images and appended stacks are where indices go wrong",
  [AS+"image.hpp", AS+"qstack.hpp", AS+"ds9.hpp"], [("cutouts", "image.hpp: cutout_extractor"), ("stacks", "qstack.hpp: qstack, qstack_mean, qstack_median, qstack_bootstrap"), ("regions", "ds9.hpp: read_regions, write_regions_*, mask_region")],
  "projection model and pixel-by-pixel oracle with sanitizers", "every pixel, identifier and region compared with an independent model in an "+ASAN)
TL = "tools/"
p("C01", "Coordinate, image and matching tools write what was asked, or fail visibly",
  "deg2sex and sex2deg print the same position in the other notation, radec2pix the pixel of each position; imgtool (convolve, multiply, rotate), qconvol, qregrid and qmask write the image defined by their arguments with the coordinates of the input or of the requested grid (same center and pixel scale asked for), qxmatch2 the nearest neighbors and their distances, randsrc reproducible positions inside the hull of the input. "
  "Unreadable arguments or files end the program with a message, a non-zero status and no output file.",
  ["inputs"], "every image, catalogue, region file in sky coordinates and combination of arguments",
  "the tools have no test at all; non-square images, off-centre kernels and unreadable values are where they go wrong",
  [TL+"deg2sex/deg2sex.cpp", TL+"sex2deg/sex2deg.cpp", TL+"radec2pix/radec2pix.cpp", TL+"imgtool/imgtool.cpp", TL+"qconvol/qconvol.cpp", TL+"qregrid/qregrid.cpp", TL+"qmask/qmask.cpp", TL+"qxmatch2/qxmatch2.cpp", TL+"randsrc/randsrc.cpp"], [("tools", "vif_main of each program"), ("library behind them", "astro.hpp, image.hpp, wcs.hpp, qxmatch.hpp, ds9 parsing in qmask.cpp")],
  "real programs under sanitizers, output files checked against independent models",
  "each tool is built with the sanitizers and run as a separate process; what it prints, the files it writes and its exit status are compared with independent models")
p("C02", "Table and header tools change what was asked and nothing else, or fail visibly",
  "fits2ascii writes every selected column and row with its name, type and full value (floats to 7 digits); catinfo prints the stored texts; fitstool removes or transposes the named columns, turns row-oriented tables into column-oriented ones, moves meta columns, reads, removes and edits keywords, prints headers, copies coordinate keywords, drops dimensions of size one and extracts extensions, leaving all other columns, keywords and pixels as they were. "
  "Unreadable arguments or files, and requests that cannot be satisfied, end the program with a message and a non-zero status, and the input file is left unchanged.",
  ["inputs"], "every table, image, header and combination of arguments",
  "the tools have no test at all; the kinds and widths of the columns and the forms of the values decide which path is taken",
  [TL+"fits2ascii/fits2ascii.cpp", TL+"catinfo/catinfo.cpp", TL+"fitstool/fitstool.cpp"], [("export", "fits2ascii.cpp: vif_main, read_column"), ("editing", "fitstool.cpp: remove_columns, transpose_columns, rows_to_columns, move_meta_columns, edit_keyword, remove_keyword, read_keyword, make_2d, extract_extension")],
  "real programs under sanitizers, files decoded and compared before and after",
  "each tool is built with the sanitizers and run as a separate process; all columns, keywords and pixels are compared before and after")
p("C03", "Source tools fit, subtract, find and stack exactly the sources asked for",
  "psffit gives the weighted least-squares flux and background of the PSF at the requested position over the selected pixels, and the residual image; subsrc subtracts the PSF scaled to the flux of each selected source and keeps the header and all other pixels; findsrc lists the nearest sources in order of distance with the requested columns and regions; qstack2 stacks the requested sources at their positions into cubes, means, weighted means, medians and bootstraps. "
  "Sources without flux, position or coverage take no part, and requests that cannot be satisfied end the program with a message and a non-zero status.",
  ["inputs"], "every image, PSF, catalogue and combination of arguments",
  "the tools have no test at all; the position of the sources with respect to pixels and edges, and missing values, decide which path is taken",
  [TL+"psffit/psffit.cpp", TL+"subsrc/subsrc.cpp", TL+"findsrc/findsrc.cpp", TL+"qstack2/qstack2.cpp"], [("fit", "psffit.cpp: vif_main"), ("subtraction", "subsrc.cpp: vif_main"), ("search", "findsrc.cpp: vif_main"), ("stacking", "qstack2.cpp: vif_main")],
  "real programs under sanitizers, output files compared with models",
  "each tool is built with the sanitizers and run as a separate process; all pixels, columns and printed values are compared with a model")
