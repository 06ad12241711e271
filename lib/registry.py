# Which drivers decide which property.
PROPS = {}

def P(pid, drivers, rule, **kw):
    PROPS[pid] = dict(drivers=drivers, rule=rule, **kw)

P("V01", [dict(src="vec_history.cpp")],
  "seeded random histories of 6-22 shape-changing operations on a pool of three vectors (1-3 dimensions, 4 element types), "
  "each step compared with an independent row-major model; distinct = (operation, element type, rank, resulting size class, aliasing)",
  expect_events=["op:push_back", "op:append-axis", "op:move-assign", "op:flatten-moved", "op:reform-moved", "constructed", "empty-lists", "refused", "converted"])
P("V02", [dict(src="vec_index.cpp", flags=("-DPART=%d" % k,), tag="p%d" % k) for k in range(5)],
  "seeded index expressions (signed, unsigned, narrow integers, ranges, index vectors, mixed) on vectors and views of 1-3 dimensions, "
  "35% of them aimed out of bounds; the model resolves the same expression; distinct = (form, index kinds, valid?, result size)",
  expect_events=["valid-access", "invalid-access", "write", "safe", "ends", "by-view", "braces", "list-assigned", "stride-iterator", "iterators", "four-dim"])
P("V03", [dict(src="vec_alias.cpp")],
  "seeded assignments and compound assignments between a vector and overlapping selections of itself (index views, ranges, rows/columns/blocks, "
  "const views, views of views, elements), compared with a copy-first model; distinct = (form, operator, type, sizes, overlap)",
  expect_events=["overlapping", "whole=", "scalar-element", "2-D", "refused"])
P("V04", [dict(src="vec_ops.cpp", flags=("-DPART=%d" % k,), tag="p%d" % k) for k in range(4)],
  "seeded operands (plain, temporary, view, const view, scalar; integer, floating, string, boolean; 1-3 dimensions) through every operator and "
  "vectorised function, each element compared with the scalar operation; distinct = (operator, types, size)",
  expect_events=["op+", "op-", "op*", "op/", "op==", "op<", "logical", "chain", "functions", "refused", "lambda-forms", "functions2"])
P("G01", [dict(src="generic.cpp", flags=("-DPART=0",), tag="p0")],
  "seeded data sets with many ties, NaN and infinities, sizes 0-200 with emphasis on 0, 1, 2 and 63-66, given as vectors, views, constant views and 2-D vectors; "
  "every search compared with a brute-force scan; distinct = (function, type, tie span, size classes, outcome class)",
  expect_events=["where", "is_any_of", "match-small", "match-large", "bounds", "astar", "mixed"])
P("G02", [dict(src="generic.cpp", flags=("-DPART=1",), tag="p1")],
  "seeded data sets with many ties and NaN, sizes 0-200, as vectors, views, constant views and 2-D vectors; compared with index-based stable sort and multiset counts; "
  "distinct = (function, type, tie span, size classes)",
  expect_events=["sort", "sort-nan", "unique", "sets", "mixed-sets"])
P("G03", [dict(src="generic.cpp", flags=("-DPART=2",), tag="p2")],
  "seeded vectors of 1-4 dimensions through shift/reverse/transpose/reform/flatten/replicate/remove/append/prepend/index conversions, including illegal arguments, compared with a row-major model; "
  "distinct = (function, shapes, argument class)",
  expect_events=["rearrange", "transpose", "replicate", "remove", "append", "append-alias", "append-own", "indices", "refused"])
P("S01", [dict(src="strings.cpp", flags=("-DPART=0",), tag="p0", scale=4)],
  "seeded integers (extremes, one past the extremes), reals over the whole exponent range, special values, malformed text and vectors of these; compared with the C library's formatting and parsing, and required to survive the round trip; "
  "distinct = (kind, digits/precision, text class)",
  expect_events=["fits", "overflow", "garbage", "real", "partial-failure"])
P("S02", [dict(src="strings.cpp", flags=("-DPART=1",), tag="p1", scale=3)],
  "seeded text over tiny alphabets (so separators and patterns overlap, touch the ends or are absent), compared with character-by-character references; distinct = (lengths, number of pieces, pattern)",
  expect_events=["find-replace", "split", "trim", "wrap", "blocks", "refused"])
P("S03", [dict(src="strings.cpp", flags=("-DPART=2",), tag="p2", scale=2)],
  "seeded text against 13 expressions with a second regex engine as reference, and byte strings of 0-5000 bytes against SHA-1 written from the standard; distinct = (expression, number of matches) and lengths",
  expect_events=["matches", "empty-match", "refused", "sha1-compared", "hash"])
def _thr(k): return [dict(src="threads.cpp", variant=v, flags=("-DPART=%d" % k,), tag="p%d" % k) for v in ("tsan", "asan", "noise")]
P("T01", _thr(0),
  "seeded thread counts, ranges, chunk sizes and injected delays, several executions per object, in a TSan and an ASan build; each call is logged and the log checked for range, exactly-once and visibility; distinct = (threads, observed index-to-thread assignment)",
  expect_events=["executions", "really-parallel", "determinism"], assumptions=["TSan sees the synchronisation of the schedules that ran"])
P("T02", _thr(1),
  "one producer and one consumer with injected delays and bursts exchanging uniquely numbered items; the consumer's log is checked for order, loss and content, sizes against counters; distinct = (items, pattern of empty encounters observed)",
  expect_events=["items", "consumer-found-empty", "handovers", "cleared"], assumptions=["single producer, single consumer"])
P("T03", _thr(2),
  "seeded jobs through the background worker and the worker pool (round robin and chosen workers, restarts, workspaces) with injected delays; the execution log is checked for exactly-once, order, completion at wait; distinct = (threads, observed job-to-worker assignment)",
  expect_events=["worker-jobs", "destructor-waits", "pool-jobs", "workspace-jobs", "threads"],
  assumptions=["the pool promises completion of everything only after consume_all()"])
P("A01", [dict(src="textio.cpp", flags=("-DPART=0",), tag="p0")],
  "seeded tables written in nine forms and five layouts and compared byte for byte with a reference writer, then read back; seeded files (comments, blank lines, CRLF, no final newline, holes, extra columns, five delimiters) read with nine argument patterns, 20% with one bad cell or short line; arbitrary bytes; distinct = (form/pattern, layout, rows, fault)",
  expect_events=["written", "round-trip", "refused", "tables", "cells", "skip-first", "single-delimiter", "garbage-read", "garbage-refused", "directory"])
P("O01", [dict(src="textio.cpp", flags=("-DPART=1",), tag="p1")],
  "seeded paths over a tiny alphabet compared with the C library's basename and dirname; seeded histories of file operations in a scratch directory compared with a model of its content; distinct = path shape, operation history",
  expect_events=["paths", "copied", "removed", "listed", "explored", "ages", "mkdir-refused", "relative", "special-file"])
P("O02", [dict(src="textio.cpp", flags=("-DPART=2",), tag="p2")],
  "seeded command lines (flags, one or two dashes, quotes, lists, unknown and unconvertible arguments) compared with the values that generated them, warnings captured and counted; distinct = (number of arguments, unknown, unconvertible, first argument)",
  expect_events=["read", "unknown", "unconvertible", "round-trip", "environment", "spawned", "bare-names", "too-few-names"])
P("O03", [dict(src="textio.cpp", flags=("-DPART=3",), tag="p3")],
  "seeded durations, timed functions, iteration counts and steps of progress bars, messages, help texts and typed answers; everything printed is captured and compared with what was asked; distinct = (form, size, step)",
  expect_events=["durations", "clock", "profiled", "frames", "printed", "help", "prompted"])
_cfw = ["-Wl,--wrap=%s" % k for k in "ffclos ffflus ffrdef ffpcl ffppr ffprec ffptdm ffrsim ffuky ffiimg fficol ffmahd".split()]
P("O04", [dict(src="faults.cpp", flags=tuple(_cfw), scale=8)],
  "seeded contents written by every writing function while the space left (file-size limit of the process), the device (/dev/full) or the place (missing directory, directory of that name) makes the write fail at a seeded byte; the content on disk is compared with the content given whenever the call ends normally; distinct = (operation, outcome, space class)",
  expect_events=["reported", "reported-by-diagnostic", "reported-by-exception", "reported-by-value", "completed", "enough-space", "uncreatable", "full-device", "positions"],
  assumptions=["an error that CFITSIO itself does not report for a FITS file (its buffers may lose one) cannot be reported by the library", "the space left is imposed with RLIMIT_FSIZE, SIGXFSZ ignored"])
P("R01", [dict(src="resource.cpp", flags=("-DPART=%d" % k,), tag="p%d" % k) for k in (0, 1, 2)],
  "seeded operations of every part of the library (successful, failing, and with user functions that throw at a seeded call), each repeated; allocated bytes, descriptors and threads observed between repetitions, growth confirmed over three further rounds; distinct = operation",
  expect_events=["failing-op", "op:regular expressions", "op:regex that throws", "op:user functions that throw", "op:directories", "op:worker pool restarted", "op:queue", "op:image in a truncated file", "op:table written and read", "op:Fourier transforms", "op:fits of functions that throw", "op:astrometry that is refused", "bad-astrometry", "op:cross-matching", "full-disk"],
  assumptions=["a refusal that ends the process (vif_check) gives everything back by ending it", "growth is believed when each of three further rounds of repetitions grows again"])
def _math(k, **kw): return [dict(src="math.cpp", flags=("-DPART=%d" % k,), tag="p%d" % k, **kw)]
P("M01", _math(0), "seeded data sets (ties, NaN, infinities, huge integers; 4 element types; vectors, views, 2-4 dimensions, every axis) through every statistic, compared with the definition evaluated in long double; distinct = (type, size class, NaN class, form)",
  expect_events=["weight-on-limit", "small-scatter", "moments", "order", "some-nan", "all-nan", "weighted-exact", "spread", "pairwise", "partial", "booleans", "refused"])
P("M02", _math(1), "seeded values (many exactly on bin edges) and bins (contiguous or not), weights and functions, compared with a direct count; seeded sequence arguments of several types; distinct = (function, sizes, form)",
  expect_events=["histogram", "histogram2d", "bins", "sequence", "empty-last-bin", "refused"])
P("M03", _math(2), "seeded irregular curves and small maps with positions on nodes, edges, inside and outside; compared with direct evaluation; distinct = (function, sizes, position class)",
  expect_events=["interpolated", "extrapolated", "spline", "spline-regular", "bicubic", "tiny-map", "integrals", "binned", "starts-at-end", "convolve", "slow-convergence", "typed", "bilinear-many", "positions-2d", "refused"])
P("M04", _math(3) + [dict(src="math.cpp", flags=("-DPART=3", "-DNO_LAPACK"), tag="p3n")], "seeded matrices of 0-8 rows (random, integer, badly scaled, singular, non-positive) through every operation; residual of the defining equation in long double; distinct = (operation, sizes, class)",
  expect_events=["algebra", "transforms", "systems", "symmetric", "singular", "not-positive", "refused", "forms"])
P("M05", _math(4), "seeded linear and non-linear problems with constraints; solution compared with normal equations in long double or optimality conditions; distinct = (solver, sizes, class)",
  expect_events=["linfit", "batch", "2-D", "nn", "mpfit", "limit-reached", "inactive-limits", "minimize", "batch-repaired", "known-problem", "stopped", "singular", "refused"])
P("M06", _math(5), "seeded generators; samples of 1000-20000 draws tested by chi-square, shuffles of small sets by outcome counts; distinct = (distribution, range, shape)",
  expect_events=["draws", "negative-range", "distributions", "shuffles", "shuffle-draws", "reproducible"], assumptions=["the statistical tests run at fixed seeds with thresholds of 1e-7 or less per test"])
_fftw = ["-Wl,--wrap=fftw_%s" % k for k in ("plan_dft_2d", "plan_dft_r2c_2d", "plan_dft_c2r_2d", "destroy_plan")]
P("M07", [dict(src="math.cpp", variant=v, flags=tuple(["-DPART=6"] + _fftw), tag="p6") for v in ("asan", "tsan")], "seeded arrays of 1-24 pixels a side, compared with the direct sum, alone and from several threads (also under TSan); distinct = sizes",
  expect_events=["transforms", "parallel-transforms", "planner-calls"], assumptions=["FFTW itself is not instrumented; its documented rule (one thread at a time in the planner) is monitored at its entry points"])
P("M08", _math(7), "seeded point sets (lattice with repetitions and alignments, or Gaussian) and positions (on vertices, edges, inside, outside); hulls rotated, reversed and with extra vertices; distinct = (points, vertices, kind)",
  expect_events=["hull", "degenerate", "inside", "outside", "on-edge", "tiny", "refused"])
def _fits(k, **kw): return [dict(src="fits.cpp", flags=("-DPART=%d" % k,), tag="p%d" % k, **kw)]
P("F01", _fits(0), "seeded images of 7 pixel types, 1-3 dimensions and up to 5 HDUs, decoded from the bytes on disk by an independent reader and read back in every form; seeded foreign files (6 pixel types, scaling, blanks); seeded histories of reach/write/update/remove/flush/reopen checked at every flush; distinct = (type, shape, HDU), history outcome",
  expect_events=["written", "refused", "pixel", "pixel-outside", "subset", "subset-outside", "foreign", "narrowing", "blank", "scaled", "copied", "reach", "appended-from-inside", "removed", "updated", "flushed", "reopened", "opened", "byte-boolean"], assumptions=["CFITSIO is used as installed; its own code is not instrumented"])
P("F02", _fits(1), "seeded tables of 1-6 columns (8 element types, scalars and 1-3 dimensions, both orientations) decoded from the bytes on disk by an independent reader and read back with every conversion option; seeded histories of write/update/remove/reopen; elements and slices; foreign binary and ASCII tables; distinct = column layout, history",
  expect_events=["written", "decoded", "column-read", "scalar-read", "wider", "narrowed", "promoted", "flattened", "refused", "row-mismatch", "updated", "removed", "reopened", "row-number-changed", "element-read", "element-written", "outside", "allocated", "string-element", "free", "view", "foreign-column", "foreign-string", "foreign-logical", "foreign-null", "foreign-scaled", "byte-boolean", "strings-line", "view-line", "named-update", "named"], assumptions=["row-oriented tables of a single row, which cannot be told from column-oriented ones, are not generated"])
P("F03", _fits(2), "seeded histories of writing, replacing, adding and removing keywords (short and long names, text with quotes and slashes up to 200 characters, integers, reals, booleans, comments) on images and tables, decoded from disk by an independent reader; the header as text through getkey, setkey, parse, serialize and copy; arbitrary header text; distinct = (kind, keywords, removed)",
  expect_events=["written", "replaced", "added", "removed", "absent", "reopened", "decoded", "string", "long-string", "integer", "real", "bool", "getkey", "parsed", "serialized", "copied", "setkey", "too-long", "long-name", "garbage"])
P("F04", _fits(3), "seeded files cut at any byte, with damaged, dropped, duplicated or swapped header cards, or random bytes, opened as image and as table and read in every way; each operation must return or be refused, leave no file open and leave the library working; distinct = (kind, damage)",
  expect_events=["truncated", "damaged", "random", "read-ok", "refused"], assumptions=["headers that announce more than a million values are described but not read"])
def _astro(k, **kw): return [dict(src="astro.cpp", flags=("-DPART=%d" % k,), tag="p%d" % k, **kw)]
P("X01", _astro(0) + _astro(0, variant="tsan", scale=0.5), "seeded pairs of catalogues of 0-300 sources (clustered, aligned, repeated, disjoint, degenerate, across RA 0, at the poles, all sky, linear coordinates; self-match), 1-6 neighbours, exhaustive and bucket search, 1-6 threads; compared with an exhaustive search in long double; distinct = (geometry, layout, mode, neighbours)",
  expect_events=["neighbour", "no-neighbour", "mirror", "bucket", "exhaustive", "self", "threads", "clean", "qdist", "saved", "rejected", "lost-saved"], assumptions=["neighbours at equal distances within rounding may be given in either order"])
P("X02", _astro(1, scale=6), "seeded images of 1-9 pixels a side and three pixel types through every geometric operation with arguments inside, across and outside the image; compared pixel by pixel with the definition; distinct = (sizes, arguments)",
  expect_events=["images", "region-inside", "region-partial", "region-outside", "moved", "moved-out", "interpolated", "outside", "border", "inside", "profile", "gaussian", "shrunk-away", "bicubic", "bicubic-moved"])
P("X03", _astro(2, scale=4), "seeded images and kernels (odd, even, larger than the image), masks and blended sources; convolutions compared with the direct sum, segments with a flood fill and with the definition of the peaks; convolvers reused, resized and moved; distinct = (sizes, operation)",
  expect_events=["convolved", "even", "cyclic", "padded", "moved", "resized", "transition", "boxcar", "inflated", "segment", "too-small", "foreach", "reused-output", "deblended", "member", "island", "nearest"], assumptions=["segment_distance is an approximate propagation: the nearest pixel it reports may be up to 1.5 pixels farther than the true nearest"])
P("X04", _astro(3, scale=12), "seeded pairs of positions (anywhere, close, antipodal, at the poles, across RA 0, not finite, huge), representations, sexagesimal strings (well formed and not), fields, and random position generators with boxes, circles and hulls; compared with the definitions in long double; distinct = (geometry, operation)",
  expect_events=["close", "far", "antipodal", "within", "beyond", "not-finite", "huge", "normalized", "rotated", "vernal", "moved", "round-trip", "negative-zero-degrees", "parsed", "malformed", "hull-area", "line", "field-area", "box", "circle", "gives-up", "power", "power-circle", "correlation"], assumptions=["angular correlation bins start above zero", "hull areas are compared within the curvature of the parallels"])
P("X05", _astro(4, scale=12), "seeded cosmologies and redshift samples, units, SEDs and filters (disjoint, touching, overlapping, single point), filter data bases, PSF models and images of sources, template libraries with measured fluxes and upper limits; compared with quadrature and definitions evaluated in long double; distinct = (quantity, coverage)",
  expect_events=["scalar", "no-redshift", "short-vector", "sample", "units", "uncovered", "touching", "covered", "luminosity", "luminosity-uncovered", "fits-filter", "text-filter", "range-filter", "refused", "bands", "psf", "bad-psf", "psf-file", "psffit", "srcsub", "stamp", "limits", "measured", "renormalised", "fixed-amplitude", "redshift-list", "simulated", "combined", "no-combination", "decisive", "combination-simulated", "lir", "centred-source"], assumptions=["with upper limits the fit is judged by its chi2 (within 3 %), since the solver is iterative"])
P("X06", _astro(5, scale=1), "seeded tangential projections (rotated, flipped, non-square pixels, third axis in several units), sky and pixel positions (inside, far, behind the projection), headers (filtered, malformed), and images regridded on other grids with each method; projections compared with a long double gnomonic model, regridded pixels with the interpolated or overlap-weighted source pixels; distinct = (projection, operation)",
  expect_events=["moved", "position", "round-trip", "scalar", "mixed", "far-side", "pixel-size", "cube", "unit", "bad-unit", "axis", "made", "text", "malformed", "filtered", "no-wcs", "copied", "edge", "uncovered", "nearest", "linear", "cubic", "covered", "uncovered-drizzle", "flux", "cube-drizzle", "scale-of-file", "scale-of-extension"], assumptions=["spectral axes without CUNIT are in SI units"])
P("X07", _astro(6, scale=1.5), "seeded sets of 1-3 images (same grid or not, with invalid pixels) and sources inside, across the edges, outside and on the other side of the sky: cutouts (several pixel types, defaults, headers, distortion maps), stacks (with weights, sections, appended), averages and bootstraps of stacks; region files (both coordinate systems, sexagesimal, ill-formed lines) read, converted, written and turned into masks; compared pixel by pixel with a long double projection; distinct = (images, options)",
  expect_events=["partial", "full", "combined", "not-covered", "header", "distorted", "far-side", "default", "integers", "sections", "appended", "bad-pixel", "weights", "offsets", "section", "refused", "average", "bootstrap", "ill-formed", "switched", "sexagesimal", "physical", "sky", "read", "converted", "written", "masked", "unmasked"], assumptions=["positions within 1e-5 pixel of a half pixel may be rounded either way", "CFITSIO does not tell infinite pixels from invalid ones"])

# command line tools: built from tools/ with the same sanitizers, run as separate processes by the driver
P("C01", [dict(src="tools.cpp", flags=("-DPART=0",), tag="c1")],
  "seeded command lines, images, catalogues and region files for deg2sex, sex2deg, radec2pix, imgtool, qconvol, qmask, qregrid, qxmatch2 and randsrc; "
  "10-25% of them unreadable or impossible; output files and printed values compared with independent models, exit status observed; "
  "distinct = (tool, options, sizes)",
  tools=["deg2sex", "sex2deg", "radec2pix", "imgtool", "qconvol", "qmask", "qregrid", "qxmatch2", "randsrc"],
  expect_events=["sexagesimal", "pixels", "from-sexagesimal", "convolved", "convolved-normalized", "multiplied", "rotated", "kernel", "beam", "beam-arcsec", "masked", "regridded-drizzle",
                 "regridded-nearest", "regridded-linear", "regridded-cubic", "centered", "weight", "matched", "self-matched", "mirrored", "placed", "reproduced", "refused", "keywords-kept"])
P("C02", [dict(src="tools.cpp", flags=("-DPART=1",), tag="c2")],
  "seeded tables (double, float, integer, text and boolean columns of one or two dimensions), images and headers given to fits2ascii, catinfo and fitstool (remove, transpose, r2c, meta, "
  "readkwd, rmkwd, editkwd with arguments or with typed answers, hdr, cpwcs, make2d, extract), with unreadable or impossible requests among them; every other column, keyword and pixel of the file is compared as well; "
  "distinct = (tool, operation, sizes, kinds of values)",
  tools=["fits2ascii", "catinfo", "fitstool"],
  expect_events=["cells", "selected", "renamed", "split", "catinfo", "removed", "transposed", "column-kept", "declined", "r2c", "r2c-multi", "r2c-text", "meta-moved", "readkwd", "rmkwd", "editkwd",
                 "editkwd-interactive", "quoted", "hdr", "extracted", "cpwcs", "make2d", "keyword-kept", "refused", "extension"])
P("C03", [dict(src="tools.cpp", flags=("-DPART=2",), tag="c3")],
  "seeded images, PSFs, catalogues and command lines for psffit, subsrc, findsrc and qstack2 (sources inside, across the edges, outside, without flux or position; several extensions; selections and ranges), "
  "with unreadable or impossible requests among them; output files and printed values compared with independent models, exit status observed; distinct = (tool, options, sizes)",
  tools=["psffit", "subsrc", "findsrc", "qstack2"],
  expect_events=["bands", "bootstraps", "cubes", "fewer-than-asked", "listed", "searched", "means", "medians", "weighted-means", "subpixel", "subtracted", "unprojected", "regions", "residual", "saved", "selected", "range",
                 "refused", "with-background", "without-background", "sexagesimal-search"])
