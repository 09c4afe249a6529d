"""What each check states as its bounds (copied into the evidence and the manifest)."""
COMMON = [
    "f64 is modelled as exact real arithmetic over the values reached on a path; rounding is outside the claim. NaN, infinities "
    "and operations on constants are IEEE. Counterexamples are reported only when the native (IEEE) run of the same IR fails too, and one "
    "solver-generated input per sampled path is run natively and must agree",
    "symbolic reals are multiples of 2^-10 in the stated ranges (so that native replays start from exactly these values)",
    "the code runs at opt-level 0 with overflow checks on (an overflow of an index is a panic, hence a failure)",
        "formatting of messages, allocation and std run concretely; thread scheduling plays no part (the code is single-threaded)",
]
CORE = ["datasets are in memory behind the crate's DataManager trait (hdf5 is not available here); modules that need hdf5, vtkio or plotly are left out"]
DATA = ["hdf5, vtkio and ndarray-csv cannot be fetched here: the crate is linked against stand-ins (stubs/) that keep files in memory with the same "
        "API; they are trusted to behave as the real crates do (stored values are returned unchanged, an existing object is not created again, "
        "members are listed by name, missing objects are errors)"]
CHECKS = {}


def chk(i, bounds, level="model_checking", variant="core", assumptions=()):
    CHECKS[i] = {"level": level, "bounds": bounds, "variant": variant,
                 "assumptions": list(COMMON) + (CORE if variant == "core" else DATA) + list(assumptions)}


DS = ("datasets of 1-4 snapshots (thorough: up to 5) x 1-4 particles at uneven times; one symbolic aspect per harness: x position anywhere "
      "in/around the grid, several samples per cell along each axis, each selector criterion with symbolic bounds, symbolic time window, "
      "undefined positions/velocities and varying particle numbers, cylindrical grid with symbolic axis; velocities symbolic in [-8,8]^3 where "
      "they matter; grids of 2x3x2 Cartesian / 2x4x2 cylindrical cells; positive, zero and negative first times; large and unevenly populated scenes (`broad`), scenes of extreme values "
      "(`corner`: grids off the origin and with single cells along an axis; identifiers shared, zero or above 2^16; partly undefined velocities) "
      "and long ones (261 snapshots of 2, or 2 of 263 particles, one late sample symbolic), a scene `far` (40 km grid, particles at the origin and on the axis, late and "
      "negative times not representable in f32, an empty snapshot), single particles per snapshot, particles that come and go so that rows shift (C15, C18, C26). ")
chk("C01", "cell counts (4,2,3),(1,3,2),(5,1,4),(2,4,1) (thorough +2); position symbolic in all three coordinates for fixed limits; limits "
           "symbolic in [-8,8] with spans 1,3,8 (thorough: symbolic span) one axis at a time; "
           "larger grids ((41,2,3),(2,37,5),(3,4,50)) at other origins and spans, the position symbolic along each axis; one coordinate in steps of 2^-30; 520 cells along "
           "each axis; limits up to 2^20 from the origin; centres of cells")
chk("C02", "1-5 rings, 1-8 sectors, 1-5 layers (also (17,3,2),(2,12,5),(3,4,23) and 300 along each axis); half widths symbolic in [1,8]; axis position symbolic in [-8,8]^2, radius 1,2,4 or symbolic; position symbolic along "
           "6-8 directions or in the whole disc (2 coordinates) and height; sector faces up to 1e-6")
chk("C03", "positions symbolic in a box around a 2x1x3 Cartesian and a 2x3x2 / 2x4x2 cylindrical grid, each coordinate also NaN or infinite; a band of "
           "1e-4 in r^2 around the wall is left to rounding except along the axes, where the wall is exact; symbolic limits of either sign; steps of 2^-30 around every limit")
chk("C04", "sequences of 2 (thorough 3) operations on a grid with symbolic contents in every cell, all operations, four cells; divisors in [1,8] (vector grids: [-8,-1] too); "
           "up to 3 (4) symbolic values per mean; vector grids: one operation each, against three separate grids; 300 operations in a row, the last three symbolic; "
           "cells that are NaN, infinite or zero and divisors of zero next to symbolic ones")
chk("C05", "moves along one axis at a time with both ends symbolic in a range wider than the grid; grids 3x2x2, 1x4x3 and cylindrical 2x3x2; "
           "symbolic value and prefilled grids; all sequences of two moves between five places (corners, inside, outside, undefined) with symbolic values")
chk("C06", "grids 2x3x1, 3x1x2, 1x2x3, 2x2x2 (2x3x2) with symbolic data in [-8,8] and weights in [1,8], one NaN cell, lines without weight (large grids: some weights negative); every axis and "
           "pair of axes; grids of 60-504 cells with the last cells symbolic")
chk("C07", "slice coordinate symbolic along each axis (inside, on the limits, outside), symbolic cell contents; Cartesian and cylindrical; also (29,3,2),(2,17,3),(3,2,31) cells and 300 along each axis")
chk("C08", "one or two symbolic values against a symbolic threshold, at corners, faces and in the middle of 3x3x3-like grids; the three modes; grids of 46 and 378 cells, one of them symbolic; each component of a vector grid")
chk("C09", "all eight fields and five scalar results on datasets of 2x2 samples, template contents symbolic in every cell (data [-8,8], weights [0,8])")
chk("C10", DS + "Component conversion: axis symbolic, distance symbolic along 6 directions, velocity symbolic")
chk("C11", "criteria of 1-3 (thorough 4) symbolic values in [-2,6] against a symbolic or undefined value; three ranges at once; identifier lists of "
           "1-4 entries out of 0..4, lists of 3, 9, 40 entries; window and time symbolic; values in steps of 2^-40 and 2^-50 next to a limit; identifiers up to 2^40")
chk("C12", "1-7 (thorough 9) symbolic strictly increasing times in [-8,64], query time symbolic; 255-513 concrete times with a symbolic query; queries in steps of 2^-20 and 2^-49 next to snapshots, middles and ends")
chk("C13", DS + "All nine modes; value interval symbolic")
chk("C14", DS)
chk("C15", DS + "Minimum velocity symbolic; time steps symbolic (zero included); deposits along a move follow C05")
chk("C16", DS + "1-4, 12, 16 and 48 bins; range fixed or symbolic, requested limit symbolic in [-2,24]; lower edges count as inside where the number of bins is a power of two; speeds along one component or of a symbolic vector")
chk("C17", DS + "All modes. c17_equal: 60 speeds x 2-7 samples with concrete IEEE arithmetic (regression for a rounding defect)")
chk("C18", DS + "Later positions symbolic in all coordinates; delay symbolic in [-3,5] (ties between two snapshots excluded)")
chk("C19", DS)
chk("C20", "3 (4) snapshots with symbolic heights in and around a grid of 1 or 2 layers; 3 layers with two particles at chosen heights and symbolic time "
           "steps; every selector criterion and window; layers that are never visited with either convention for their own deviation")
chk("C21", "7 (8) snapshots of one particle, 5 (6) of two, coordinates symbolic in [-8,8], boundary symbolic in [-16,16]; every axis; tracks of 70-262 snapshots or particles with the late coordinates symbolic; later appearing particles; "
           "criteria, start and end of window symbolic; late times, windows that end at snapshots, empty snapshots, identifiers up to 70001, particles that come and go (rows shift)")
chk("C22", "6 (7) snapshots of one particle, 4 (5) of two, coordinates symbolic in [-8,8], boundaries symbolic in [-16,16]; every axis; tracks of 70-262 snapshots or particles with the late coordinates symbolic; later appearing "
           "particles; criteria, start and end of window symbolic; late times, windows that end at snapshots, empty snapshots, identifiers up to 70001, particles that come and go (rows shift)")
chk("C23", "4 (5) snapshots x 3 particles, every value symbolic, every start and end step, every particle; long tracks with a late window; undefined components, snapshots that lack a particle")
chk("C24", DS + "Types 1-3 of 4 (5) particles in every combination, thresholds 0-3; absent types")
chk("C25", DS + "Types 1-3 of 4 samples in every combination")
chk("C26", DS + "Later positions symbolic in all coordinates; delay symbolic in [-3,5] (ties excluded); lists of 2-20 times, ascending, descending and equal")
chk("C27", "arrays of 3-4 elements (helpers), up to 12 elements (flattening), 1-4 points per axis (mesh), symbolic or NaN elements; arrays of hundreds of elements with one symbolic; infinite elements; spreads of values up to 1e8 in IEEE arithmetic")
chk("C28", "1-7 snapshots (1 or 2 particles, differing between snapshots); buffers of 3 snapshots (as in /repo under cfg(up4_verify)); every sequence of 3 (thorough 4) steps through the main "
           "buffer; every sequence of 4 (5) operations out of main read, read through one of two further buffers, setting up a buffer (again), on 7 "
           "snapshots and 5 different steps; unbuffered reads between buffered ones; all contents and statistics symbolic; with and without density", variant="data")
chk("C29", "1-7 snapshots (1-3 particles); buffers of 3 snapshots (as in /repo under cfg(up4_verify)); every sequence of 3 (thorough 4) steps through the main "
           "buffer; every sequence of 4 (5) operations out of main read, read through one of two further buffers, setting up a buffer (again), on 7 "
           "snapshots and 5 different steps; unbuffered reads between buffered ones; all contents and statistics symbolic; with and without density", variant="data")
chk("C30", "1 file of 1-3 particles in every order, every division into two pieces, three sets of identifiers; series of 3 files with 1-3 particles each; "
           "3 files in every order; folders of 3 files with others beside them; legacy, PolyData and UnstructuredGrid; radius or diameter, with and "
           "without type field; all values and the time step symbolic (particle values in disjoint ranges)", variant="data")
chk("C31", "2 VTK files of 1-2 particles, 1-2 csv files of 1-3 particles, 1 csv file of 3 (4) rows; one column symbolic in [-8,8] at a time, "
           "time step or times symbolic", variant="data")
chk("C32", "1-3 (4) rows with symbolic times in [-8,8] (every order, ties, negative times) and symbolic positions; 4 layouts of columns, 2 separators, header and "
           "comment or not; 1-3 files of 1-3 rows, with and without velocities", variant="data")
chk("C33", "8 series of 5-8 times; windows of 3, 5, 7; all positions of one axis symbolic in one window, one position in any of several windows; parabolas with "
           "symbolic coefficients; interpolation with one position symbolic, and with two symbolic times between fixed ends. The fit's own "
           "matrix (from times) is concrete IEEE arithmetic", variant="data",
    assumptions=["equalities of fitted velocities up to 1e-6 (the singular value decomposition runs in IEEE arithmetic)"])
PLT = ["plotly cannot be fetched here: the crate is linked against a stand-in (stubs/plotly) that records the traces; what plotly draws from them is trusted"]
chk("C34", "grids of 2x3x4, 4x2x3, 3x4x2 cells of both kinds (also 17x5x11, 3x29x7), one or two cells symbolic in [-8,8], data in both orders in memory, every axis, "
           "first and last plane and average; undefined values in planes; up to 3 traces in one plot", variant="data", assumptions=PLT)
chk("C35", "grids as in C34 with one symbolic vector; planes of 2x3 arrows with one symbolic vector, symbolic scale factors in [-4,4], bounds in [1,4] and [4,12], "
           "cell sizes in [0,4], ratio in [0,4]; colours for fixed magnitudes", variant="data",
    assumptions=PLT + ["sine and cosine of an angle that comes from atan2 plus a constant are expanded into its two arguments (constants in IEEE)"])
chk("C36", "pairs of grids as in C34 with one cell of each symbolic (vector grids: of the reference); every pair of two changes of the shown difference",
    variant="data", assumptions=PLT)
chk("C37", "7 snapshots x 3 particles and 40 x 2 with one of 16 analyses, 5 x 2 with every ordered pair of them, buffers of 3 snapshots; varying numbers of "
           "particles for timestep-based files; one coordinate or velocity component symbolic; with and without window; both kinds of grids",
    variant="data")
PYA = ["the Python layer runs in the real interpreter (CPython 3.12), pyo3 and numpy, which are not instrumented: symbolic numbers pass through "
       "them unchanged, and an operation on one inside them is not modelled"]
chk("C38", "16 methods; both file types; 4-7 snapshots of 1-3 particles with one symbolic coordinate or velocity; every method with all arguments left out, all "
           "by keyword, all by position; windows; both kinds of grids", variant="py", assumptions=PYA)
chk("C39", "datasets of 1-7 snapshots of both file types, buffers of 3 snapshots; every index from below minus the length to above the length; every slice with "
           "start and stop omitted or in that range and steps of -3 to 3 or omitted; lists and arrays of up to 3 indices; iterations (also nested in other "
           "accesses); all contents of the accessed step symbolic", variant="py", assumptions=PYA)
SLOT = ["arithmetic and comparisons of numpy's float64 numbers in Python code are redirected to instrumented functions; those of plain Python floats are not modelled"]
chk("C40", "limits from data, limits of any set of axes, all limits, or data and limits; one limit and span symbolic (span 1-4 or 1-6, from -8); cells by default, by number or by "
           "size; lists and arrays; 9 kinds of refusals; grids of 2x3x4 and 3x3x4 cells with one symbolic cell (or undefined), every accessor, axis and index; positions symbolic along each axis",
    variant="py", assumptions=PYA + SLOT)
chk("C41", "2 VTK files of 2 particles of each of the three kinds, every set of given names; csv tables of 3 or 11 rows with every set of given options; 2 csv files of 2-3 rows; 1 csv file of 2 particles with 11 rows each; "
           "by keyword and by position; time step, radius, times and all (VTK) or two (csv) values symbolic", variant="py", assumptions=PYA)
chk("C42", "grids of 2-4 cells per axis in three shapes (Cartesian and cylindrical, both orders in memory), one symbolic cell per component where arrows are not scaled or coloured, symbolic sizes where they are; "
           "every plot, axis, selection (first and last plane), scaling mode, all 36 colour maps in three cases; by keyword and by position; planes without a vector of length zero", variant="py", assumptions=PYA + PLT)
chk("C43", "with identifiers: 1-3 particles at 1-3 times (3 particles: 1-2, thorough 1-3), all times symbolic in [-8,8] (every order, ties, negative times) with symbolic positions and radius; 4 orders of rows, 4 sets of identifiers, "
           "4 layouts of columns, 2 separators, header and comment or not; chained: 1-3 trajectories of 10-11 rows, all values of any one row of each symbolic (equal times included); one column symbolic in [-8,8] for the statistics; "
           "velocities fitted to 10 samples of 2 particles and interpolation of 11 samples of 1-2 particles at three series of times, one position of each symbolic", variant="data")
HOOKS = ["4695a0d7d174ab08f0d17e4160cc3c0e87e00b70", "21df68e03ecc3a244ed8a79ee9e75fa95b66869c"]
NOT_APPLICABLE = {}
