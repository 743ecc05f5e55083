"""single source of properties.jsonl and MANIFEST.json (python tools/spec.py)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, technique=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note, na=na, observe=observe,
                  technique=technique or "bounded symbolic execution of the Python source, z3 decides, replay"))


R = "pyebsdindex/"

prop("R01", "Quaternion arithmetic is exact rotation algebra",
     "For every input, the quaternion product is the Hamilton product (with operand order reversed under the opposite "
     "convention flag), conjugation inverts, normalisation returns a unit quaternion of the same rotation with "
     "non-negative scalar part, rotating a vector equals q v q* and preserves lengths and angles, and averaging "
     "sign-aligns before summing. Every broadcasting form (one-to-many, many-to-one, row by row, single) gives the same "
     "result per row.",
     ["inputs", "configurations"], "all real quaternions and vectors, batch shapes, both convention flags",
     "rotlib has no collected test; the quantifier is over all real inputs and broadcasting forms",
     [R + "rotlib.py"], [("product/conjugate/normalise/average/rotate kernels", R + "rotlib.py quat_*")],
     note="exact real arithmetic (float rounding outside the claim); batches up to 3 rows; unit quaternions for rotation")

prop("R02", "Rotation representations agree with each other",
     "Converting a rotation between Euler angles, orientation matrix, axis-angle, Rodrigues vector and quaternion "
     "(directly or via another representation) always describes the same rotation, for both handedness conventions, and "
     "results are in canonical form: unit quaternions with non-negative scalar part, proper orthogonal matrices, unit "
     "axes, angles within their stated range.",
     ["inputs", "configurations"], "all rotations including gimbal-lock, half-turn and identity; both conventions",
     "no collected test covers rotlib; degenerate branches (chi=0, chi=pi, w=0, identity) are measure-zero for sampling",
     [R + "rotlib.py"], [("conversion kernels", R + "rotlib.py eu2om..qu2ro")],
     note="angles as exact cos/sin algebra; identity/half-turn/gimbal branches explored as separate paths")

prop("R03", "Batch conversions treat every row independently",
     "Converting a batch of rotations gives, in every row, exactly what converting that rotation alone gives, whatever "
     "the other rows contain, and the input arrays are left unmodified.",
     ["inputs"], "batches of rows in any mixture of generic and degenerate rotations",
     "tests never mix degenerate and generic rows in one batch",
     [R + "rotlib.py"], [("row loops of every conversion", R + "rotlib.py")],
     note="batches of 2 rows, every path combination of the per-row branches")

prop("R04", "Cubochoric and homochoric maps stay in their cells and invert",
     "The ball and cube maps send every point of the cube to the ball of matching radius and back, consistently with the "
     "sign and pyramid of each coordinate, and equal-volume radii agree with the rotation angle.",
     ["inputs"], "all points of cube and ball, all six pyramids and their boundaries",
     "no test; pyramid boundaries are measure zero",
     [R + "rotlib.py"], [("Lambert cube/ball maps", R + "rotlib.py ho2cu, cu2ho, lambert3D*")],
     na="the maps chain cube roots, sqrt and sin/cos of computed arguments; no decidable arithmetic reaches them")

prop("X01", "Symmetry operators form the Laue group of the space group",
     "For every space group number the set of symmetry operators is the rotation group of its Laue class: unit "
     "quaternions, identity included, no duplicates, closed under product and inverse, with the order of that class; "
     "and symmetrising any orientation returns exactly its orbit under the group.",
     ["inputs", "configurations"], "all 230 space groups, any orientation",
     "tests use a single cubic and hexagonal phase",
     [R + "crystal_sym.py", R + "rotlib.py"], [("operator tables and space-group mapping", R + "crystal_sym.py")],
     note="space group number is symbolic 1..230; tables extracted from running code, closure decided in exact algebra of sqrt2, sqrt3")

prop("X02", "Lattice matrices are mutually consistent",
     "For every valid unit cell the direct metric, reciprocal metric, structure matrix and its inverse and transposes "
     "describe one and the same lattice: structure matrix times inverse is the identity, metric equals structure "
     "transpose times structure, reciprocal metric inverts the direct metric, and volume squared is the determinant.",
     ["inputs"], "all triclinic cells",
     "tests use cubic and hexagonal presets only",
     [R + "crystallometry.py", R + "crystal_sym.py"], [("Crystal constructor", R + "crystallometry.py Crystal.__init__")],
     note='all cell parameters real with angles as cos/sin pairs; hexagonal 3/4-index round trip for all integers in bound')

prop("B01", "Radon transform averages the pixels of each line, per pattern",
     "Each sinogram value is the mean of the pixels assigned to that line (so it lies between the smallest and largest "
     "pixel and is linear in the pattern), depends only on its own pattern and never on how many or which other patterns "
     "are transformed together, and the alternative implementation gives the same values. Masked or out-of-range pixels "
     "never contribute, a line without pixels carries the plan's missing value, and without normalisation the value is the sum.",
     ["inputs", "configurations"], "all pixel values, batch sizes, masks and small plan geometries",
     "tests index one known pattern and check only the final orientation",
     [R + "radon_fast.py"], [("plan and transform", R + "radon_fast.py Radon")],
     note="1-3 patterns of 3x3, 3x4, 4x2 and 2x3 pixels, 3-6 angles, 4-6 distances, four masks, padding up to 2, with and without "
          "background; any pixel and background values; lines on which a pixel is exactly halfway are left out")

prop("B02", "Detector geometry turns band positions into consistent unit normals",
     "A band position in the Radon transform always maps to a unit plane normal, the same physical detector expressed "
     "in any vendor's pattern-centre convention gives the same normals, and the normal is perpendicular to the two "
     "source-to-band directions it represents; the caller's pattern centre is left unmodified.",
     ["inputs", "configurations"], "all band positions, pattern centres, tilts and vendor conventions",
     "tests use one vendor and one pattern centre",
     [R + "radon_fast.py"], [("radon2pole", R + "radon_fast.py Radon.radon2pole")],
     note="1-2 patterns of 1-2 bands on four small detectors, five vendors, one centre or one per pattern; any centre, any "
          "position between the first and last distance and angle samples")

prop("B03", "Detected bands are the strongest peaks, ordered and in range",
     "Band finding returns at most the requested number of bands, ordered by decreasing strength: exactly the strongest local "
     "maxima of the smoothed transform inside the mask, where the angle axis wraps around with the distance axis reversed, each "
     "once and located within one sample of its maximum (at the vertex itself where the peak is a paraboloid), and it marks "
     "every unused slot as invalid.",
     ["inputs"], "all sinogram values on small grids, including ties and fewer peaks than slots",
     "tests check one pattern",
     [R + "band_detect.py"], [("band_label", R + "band_detect.py BandDetect.band_label")],
     note="sinograms of up to 6x7 samples moving along lines of sinograms (one real parameter), 1-2 patterns, 1-6 slots, window of 3x3; "
          "the Gaussian smoothing is replaced by the identity")

prop("B04", "Band finding is independent of chunking",
     "Detecting bands in a stack of patterns gives each pattern the same bands as detecting it alone, for every chunk "
     "size and stack length; no pattern is skipped or processed into another's slot.",
     ["inputs", "configurations"], "stack lengths and chunk sizes",
     "tests use single patterns and one chunk size",
     [R + "band_detect.py"], [("find_bands chunk loop", R + "band_detect.py BandDetect.find_bands")],
     note="stacks of 1-4 patterns of 5x5 pixels, chunks of 1-4 or one chunk, one pattern moving along a line of patterns (one real "
          "parameter), with and without background; the Gaussian smoothing is replaced by a three-point stencil")

prop("T01", "Triplet library describes exactly the crystal's interplanar angles",
     "Every angle in a phase's reference library is the true angle between symmetry-equivalent poles of the named "
     "families, sorted and indexed consistently, so each observed angle can be looked up by family.",
     ["inputs", "configurations"], "any unit cell and list of poles",
     "tests pin two libraries' sizes only",
     [R + "tripletvote.py"], [("library builder", R + "tripletvote.py")], na="the library is np.unique over rounded arccos of concrete reflections, so nothing but enumeration of phases is left for a solver; lattice and symmetry inputs are covered by X01, X02")

prop("T02", "Voting credits only triplets compatible with the library",
     "A pole family is credited to a band exactly when a triplet of observed interband angles matches a library triplet "
     "within the angular tolerance and the band takes that family's place in the match; where two observed angles are "
     "nearly equal, only assignments compatible with the angles are credited. Votes never leave the table, invalid bands "
     "receive none, and the family reported for a band is the one with the largest weight.",
     ["inputs"], "all observed angles, band counts up to a small bound",
     "tests index one pattern", [R + "tripletvote.py"], [("voting kernel", R + "tripletvote.py _tripvote_numba")],
     note="3-4 bands, 1-3 pole families, libraries of up to 3 triplets, all observed angles; the exact credit is claimed when the "
          "angles differ by more than twice the tolerance, compatibility within twice the tolerance otherwise")

prop("T03", "Accepted band assignments respect interplanar angles",
     "A band assignment is returned only if every assigned pair of bands subtends the angle of its assigned poles "
     "within tolerance; otherwise the band is left unassigned, and the reported fit and match count describe exactly the "
     "assigned bands.",
     ["inputs"], "all observed band normals", "tests index one pattern", [R + "tripletvote.py"],
     [("band assignment and refinement", R + "tripletvote.py")], na="acceptance depends on arccos and rounding of all observed angles jointly with the vote order; beyond the solvers' reach on real normals (vote: T02, refinement: T04)")

prop("T04", "Orientation refinement is exact for consistent bands and always unit",
     "For every pattern, the orientation fitted to its assigned bands is a unit quaternion, and when the observed normals "
     "of the assigned bands are exactly the crystal directions turned by one rotation it is that rotation, half turns "
     "included, with a perfect fit. It does not depend on bands that are not assigned, on the other patterns of the "
     "batch or on a common factor of the weights, and the caller's normals, matches and weights are left unmodified.",
     ["inputs", "configurations"], "all rotations, weights and positions of the assigned bands", "tests index one pattern",
     [R + "tripletvote.py"],
     [("weighted QUEST refinement", R + "tripletvote.py BandIndexer._refine_orientation_quest")],
     note="3-5 bands exactly consistent with fixed crystal directions, any rotation with scalar part 0 or at least 0.001, any "
          "positive weights or none, one or two patterns, unassigned bands in any place; inconsistent (noisy) bands are outside")

prop("I01", "The best phase wins and unindexed points are marked",
     "For every pattern the summary result equals the record of the best-scoring phase, patterns without a solution in "
     "any phase carry the unindexed marker, and each phase's own results are unchanged by the presence of others.",
     ["inputs", "configurations"], "all per-phase scores, ties and failures, any number of phases",
     "tests use one phase at a time", [R + "_ebsd_index_single.py"], [("phase loop and selection", R + "_ebsd_index_single.py")], note='1..3 phases, up to 3 patterns, 4 bands; all per-phase fits/metrics symbolic incl. ties and failures')

prop("I02", "Reported orientations share one sample frame for every vendor",
     "The rotation between detector and sample frames is proper and uses sample tilt and camera elevation with opposite "
     "signs, so equal total tilt gives equal orientations, and each vendor's convention differs only by its documented "
     "fixed rotation.",
     ["inputs", "configurations"], "all tilts, elevations, vendors, orientations", "tests use one vendor and tilt",
     [R + "_ebsd_index_single.py"], [("detector to reference frame", R + "_ebsd_index_single.py")], note='angles as cos/sin algebra; all vendors; 1..2 patterns')

prop("I03", "Indexers never share or leak state",
     "Creating, reconfiguring or running one indexer never changes another indexer, a caller's arrays, or a later "
     "indexer's defaults, and indexing a sub-range reads exactly the addressed patterns.",
     ["histories", "inputs"], "sequences of create / update / index operations", "tests build indexers independently",
     [R + "_ebsd_index_single.py"], [("indexer configuration and pattern reads", R + "_ebsd_index_single.py")], note='arrays with up to 4 patterns, symbolic start/count; histories of create/update_file/update_vendor/index up to 3 steps')

prop("D01", "Distributed indexing returns every pattern's own result",
     "Whatever the order in which workers finish, and whichever of them fail, die or (for band finding workers) stall, "
     "distributed indexing either raises an error or returns for every pattern row the result computed from that pattern, "
     "with no row lost, duplicated into another row, or left blank; without a failing worker it raises no error.",
     ["schedules", "fault_sequences", "configurations"],
     "all completion orders, worker failures up to the bound, pattern counts and chunk sizes",
     "no collected test covers distributed runs; schedules and faults cannot be sampled", [R + "_ebsd_index_parallel.py"],
     [("scheduler loop", R + "_ebsd_index_parallel.py index_pats_distributed")],
     note="2-5 patterns in 1-4 chunks, 1-3 CPU workers with their band finding workers, every completion order with up to 5 late "
          "tasks, up to 2 workers that die, fail or stall (transient failures); ray replaced by a scheduler with unknown fates; no "
          "OpenCL device")

prop("F01", "Pattern readers return exactly the addressed patterns",
     "Reading a range or rectangle of patterns from a file returns precisely those patterns, in order, with their grid "
     "positions, for every file format and version, file length, start and count; requests past the end are shortened, "
     "never wrapped or mis-addressed.",
     ["inputs", "configurations"], "symbolic file lengths, offsets, starts, counts, rectangles",
     "tests read one small fixture", [R + "ebsd_pattern.py"], [("per-format offset arithmetic", R + "ebsd_pattern.py pat_reader")],
     note="UP versions 1 and 3, EBSP versions 1-4 (stored order symbolic, uncompressed), TFPAT; file size, start and grid rows symbolic, "
          "counts 1-3 or rectangles up to 3x2, patterns up to 3x2 pixels; EBSP versions 0 and 5 and compressed patterns outside")

prop("F02", "Writing patterns changes only the addressed patterns",
     "Patterns written at a start index or rectangle are read back equal from the same place (converted to the file's type "
     "with the caller's scaling, the whole block alike), a rectangle that reaches past the scan is cut at its edge, and no "
     "byte of any other pattern, of the header or of the stored positions changes.",
     ["inputs", "histories"], "symbolic starts, counts, rectangles, file contents", "no test writes patterns",
     [R + "ebsd_pattern.py"], [("per-format writers", R + "ebsd_pattern.py pat_writer")],
     note="same files as F01; blocks of 1-3 patterns or rectangles up to 3x2; every byte of the file decided")

prop("F03", "File headers survive a write and read cycle",
     "Every header field written for a pattern file (dimensions, version, file position, grid size, steps) is read back "
     "with the same value, for each supported version; a new blank file holds every pattern, blank, where its header says, "
     "and a copied file has the header and patterns of its source.",
     ["inputs", "configurations"], "all header field values", "no test writes headers", [R + "ebsd_pattern.py"],
     [("header readers and writers", R + "ebsd_pattern.py")],
     note="UP 1 and 3, EBSP 0-4 (versions that can be written), TFPAT; all header values symbolic in their ranges, grids up to 2x2 for blank files")

prop("F04", "HDF5 readers address scan positions consistently",
     "For each HDF5 dialect and each scan of a file, the pattern returned for a scan index is the dataset entry of that "
     "index, with its position, writing changes that scan's addressed entries only, and counts, grid dimensions and steps "
     "come from that scan's own header.",
     ["inputs", "configurations"], "symbolic dataset sizes and indices, each dialect", "no HDF5 fixtures in tests",
     [R + "ebsd_pattern.py"], [("HDF5 dialects", R + "ebsd_pattern.py HDF5PatFile and subclasses")],
     note="two scans per file, rows, start and steps symbolic, blocks of 1-3 patterns or rectangles up to 3x2; h5py replaced by groups and "
          "datasets with unknown content, replay on real HDF5 files")

prop("F05", "Intensity conversion clips and scales without wrap-around",
     "Converting floating patterns to an integer file type always yields values within the type's range, preserves the "
     "order of intensities, and gives each pixel its clipped or scaled value to within rounding, saturated at the ends.",
     ["inputs", "configurations"], "all pixel values, types and scaling modes", "no test covers conversion",
     [R + "ebsd_pattern.py"], [("pat_flt2int", R + "ebsd_pattern.py")], note="up to 2 patterns of 2 pixels, all real values, 8 and 16 bit")

prop("O01", "Text map export writes each point's own record",
     "The exported text map lists every scan point once in scan order, with its own orientation, quality values and phase "
     "number, coordinates equal to column and row times the step sizes, and marks unindexed points as such.",
     ["inputs", "configurations"], "all results, grid sizes, phases", "no test writes files",
     [R + "ebsdfile.py"], [("writeang", R + "ebsdfile.py")],
     note="1-3 phases, up to 6 points and 3 columns, all results; the Euler conversion itself is R02; numbers to the printed digits")

prop("O02", "HDF5 map export writes each point's own record",
     "The exported HDF5 map contains, for every scan point in scan order, that point's own orientation, quality, phase "
     "and position, with unindexed points marked, and leaves the caller's results unmodified.",
     ["inputs", "configurations"], "all results, grid sizes, phases", "no test writes files",
     [R + "ebsdfile.py"], [("writeoh5", R + "ebsdfile.py")],
     note="1-3 phases, up to 6 points and 3 columns, both versions, all results; the Euler conversion itself is R02")

prop("N01", "Neighbour averaging does not depend on chunking",
     "Chunked neighbour-pattern averaging writes every scan position, and with a given noise map and saturation protection "
     "off the pattern written at each position is the same for every chunk size, scan size and search radius, including "
     "chunks or scans smaller than the search window: each position gets the result of its own full search window.",
     ["inputs", "configurations"], "scan dimensions, chunk sizes, search radii, all pixel values", "no test covers denoising",
     [R + "nlpar_cpu.py", R + "ebsd_pattern.py"], [("tiling of rows and halo", R + "nlpar_cpu.py calcnlpar")],
     note="scans up to 7x1, 5x2, 3x4 with every chunk size; radius up to 3; exact reals, exp any positive function")

prop("N02", "Neighbour averaging is a convex combination of the window",
     "Each denoised pattern is the weighted mean of the patterns in its search window (2r+1 wide, moved inside the scan), "
     "with non-negative weights that sum to one: 1 (plus the offset) for the pattern itself and "
     "exp(-max(d - threshold, 0) / lambda^2) for a neighbour at noise-normalised distance d measured on unmasked, "
     "unsaturated pixels only; patterns outside the window contribute nothing.",
     ["inputs"], "all pixel values, windows at edges and corners", "no test covers denoising",
     [R + "nlpar_cpu.py"], [("weight kernel", R + "nlpar_cpu.py nlpar_nb")],
     note="scans up to 5x1, 4x2, 3x3; one deciding pixel; exact reals, exp any positive function of its exact argument")

prop("N03", "Noise estimate uses each pattern's own true neighbours",
     "The noise of a pattern is the root of half the smallest mean squared difference to a neighbouring pattern inside the "
     "scan over unmasked pixels: non-negative, the same for every chunk size, and it is this map that an averaging run "
     "keeps; a noise map that is to be reset or does not fit the scan is never used.",
     ["inputs", "configurations", "histories"], "all pixel values, chunk sizes, previously set noise maps",
     "no test covers denoising", [R + "nlpar_cpu.py"],
     [("sigma kernel and chunk loop", R + "nlpar_cpu.py sigma_numba, calcsigma"), ("noise map reuse", R + "nlpar_cpu.py calcnlpar")],
     note="scans up to 4x1, 2x2, 1x3, one or two unmasked pixels, every chunk size; exact reals; neighbours not identical")

prop("P01", "Swarm search stays in bounds and reports its best",
     "Every candidate evaluated by the swarm optimiser lies within the given bounds, the first candidate is the given "
     "start, and the returned position and cost are the best ever evaluated, with cost equal to the objective at that "
     "position, for every number of iterations.",
     ["inputs", "histories"], "all objective values and random draws, any number of steps in the bound",
     "tests check one optimisation result approximately", [R + "pcopt.py"], [("particle swarm", R + "pcopt.py PSOOpt")],
     note="1-3 particles, 1-3 dimensions, 1-5 iterations, start within the bounds; any draws, or fixed draws with any costs")

prop("P02", "Pattern-centre optimisation leaves the indexer and inputs unchanged",
     "Optimising the pattern centre never modifies the caller's starting guess (array, list or none given) or the indexer's "
     "settings, and the result is expressed in the indexer's own vendor convention whichever optimiser is used, for one "
     "common centre and for one centre per pattern: every candidate costed and the result returned denote physical "
     "positions of the source according to that convention, and the search starts from the caller's guess.",
     ["inputs", "histories", "configurations"], "all pattern centres, vendors, batch options, pattern sizes",
     "tests use one vendor", [R + "pcopt.py"], [("optimize, optimize_pso", R + "pcopt.py")],
     note="1-2 patterns, both optimisers, batch or not, five vendors; any centre, pattern size and optimum; the minimiser itself "
          "is replaced by a stand-in that evaluates the start and returns an arbitrary optimum")

prop("P03", "Pattern-centre cost rewards only indexed patterns",
     "The optimisation cost is always finite, decreases when the fit of a pattern improves with equal matches and when a "
     "pattern matches more bands with equal fit, is higher when a pattern is not indexed at all, does not depend on the "
     "order of the patterns, and depends on each pattern only through its own result. Costing several centres at once "
     "gives each its own cost.",
     ["inputs"], "all fit and match results", "tests check one optimum", [R + "pcopt.py"],
     [("_optfunction", R + "pcopt.py _optfunction")],
     note="1-3 patterns, up to two centres per call, fits of 0-3 degrees (or the unindexed marker), 3-4 matched bands")

prop("C01", "Orientation colours respect crystal symmetry",
     "Symmetrically equivalent orientations always receive the same inverse-pole-figure colour, colours are valid RGB, "
     "and each map pixel's colour depends only on its own orientation and phase.",
     ["inputs", "configurations"], "all orientations, Laue classes", "no test covers colouring",
     [R + "EBSDImage/IPFcolor.py"], [("IPF colour", R + "EBSDImage/IPFcolor.py")], na="the colour is a chain of arctan2, hue modulo, power and HSV conversions of computed values; outside decidable arithmetic")

prop("C02", "Map images place every scan point at its grid position",
     "Images built from indexing results show point k of the scan at row k div columns and column k mod columns, for "
     "partial and full scans and for images smaller or larger than the scan; pixels without a point stay empty. Each pixel "
     "shows its own point's value of the field (or, in orientation images, the colour of its own orientation in its own phase, "
     "black where unindexed), and the results are left unmodified.",
     ["inputs", "configurations"], "all results, scan sizes and image sizes", "no test covers images",
     [R + "EBSDImage/IPFcolor.py", R + "EBSDImage/scalarimage.py"],
     [("image assembly", R + "EBSDImage/IPFcolor.py makeipf"), ("image assembly", R + "EBSDImage/scalarimage.py scalarimage")],
     note="1-6 points, 1-4 columns, 1-3 phases, eight fields, with and without a grey channel; any results; normalisation, colour map "
          "and the colour of one orientation (C01) replaced by fixed functions; no micron bar")

prop("G01", "GPU kernels compute the same values as the CPU path",
     "The GPU path's per-element results equal the CPU path's for every input.",
     ["inputs"], "all inputs", "no GPU in tests", [R + "opencl/clkernels.cl"], [("kernels", R + "opencl/*.cl")],
     na="no OpenCL runtime or device here to replay a counterexample on; the kernels' host code cannot be executed")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")) and not p["na"]:
            checks.append(dict(property=p["id"], quick_cmd="./check " + p["id"],
                               thorough_cmd="VERIF_TIER=thorough ./check " + p["id"], technique=p["technique"],
                               level="other", level_note=p["note"] or "bounded; see DESIGN.md"))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from vf import core; "
                                  "import numpy, z3; print(z3.get_version_string())\"", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not")


if __name__ == "__main__":
    main()
