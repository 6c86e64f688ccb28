CR = "ebsdtorch/crystallography/"
prop(
    id="C15",
    title="Every space group and point group is classified correctly",
    statement="For all 230 space groups and all 32 point groups the Laue group, point group, crystal system, lattice letter and symbol that the library reports are those of the International Tables, whichever way the symmetry is passed: "
    "as a space group number, as a point group symbol, through a unit cell or through a master pattern. The classification agrees across all of these ways, and numbers or symbols that do not exist are refused.",
    over=["inputs", "configurations"],
    qtext="all 230 space groups, all 32 point groups, every entry point",
    why="tests use two or three space groups; a wrong row of a table is only seen by the material that needs it",
    files=["ebsdtorch/utils/symmetry_classes.py", CR + "groups.py", CR + "unit_cell.py", "ebsdtorch/ebsd/master_pattern.py"],
    mechanism=[("range tables from space group to Laue group", "ebsdtorch/utils/symmetry_classes.py"), ("tables of first space group per point group and system", CR + "groups.py")],
    technique="exhaustive enumeration of the complete finite input space on the real code against an independent table derived from the symbols",
    note="Complete: every space group, point group and entry point is visited.",
    design="States: 230 space groups x entry points, 32 point group symbols, all integers from -40 to 300. The reference (mc/sgref.py) is derived from the Hermann-Mauguin symbols, not from the library tables.",
)
prop(
    id="C16",
    title="Space group operators form the group of the symbol",
    statement="For each of the 230 space groups, and for each second setting, the generated operators are pairwise distinct affine maps modulo lattice translations that are closed under product and inverse, have the order and lattice "
    "centring of the group, have rotation parts of its point group in the standard axes, contain the screw axes and glide planes named in the symbol, and put the origin where the International Tables put it. The two settings of a group describe the same group "
    "up to a change of origin or axes.",
    over=["inputs", "histories"],
    qtext="all 230 groups and 24 second settings, all products of operators",
    why="tests never generate operators; the generator strings of most groups are never decoded",
    files=[CR + "groups.py"],
    mechanism=[("decoding of generator strings and closure under multiplication", CR + "groups.py")],
    technique="explicit-state closure check (all products and inverses of all reachable operators) on the real code, symmetry elements matched against the symbol",
    note="Complete over the finite state space. The origin choice is additionally pinned by fingerprints (mc/sg_golden.json) of the operator sets on the reviewed tree.",
    design="For every group and setting: all operators, all pairwise products and inverses; reference orders and centrings; for every axis direction of the symbol all rotation, screw, mirror and glide elements are derived from the operators "
    "and compared with the letters of the symbol; inversion centre at the origin where the setting prescribes it.",
)
prop(
    id="C17",
    title="Unit cells: metric, frame changes and orbits of atoms are consistent",
    statement="A unit cell of any crystal system, given in any supported units, has mutually consistent metric tensors, structure matrices and volume. Changing the frame of a vector between direct, reciprocal and Cartesian space, along any "
    "sequence of changes, and dot products, lengths, angles and cross products in any frame agree with the geometry. The positions generated for an atom are its complete orbit under the space group without duplicates, for general and special positions and for "
    "positions next to a cell face; averages and density weigh every atom of the cell; and rhombohedral cells convert to the hexagonal cell of the same lattice.",
    over=["inputs", "configurations", "histories"],
    qtext="all lattices, all sequences of frame changes, all 230 space groups with every position of a rational grid",
    why="tests use one cubic cell, where transposed or permuted matrices and special positions are invisible",
    files=[CR + "unit_cell.py"],
    mechanism=[("metric tensors, structure matrices", CR + "unit_cell.py"), ("orbit generation with tolerance", CR + "unit_cell.py"), ("conversion of rhombohedral cells", CR + "unit_cell.py")],
    technique="explicit-state search over words of frame changes and exhaustive enumeration of orbits on the real code, judged by a reference lattice model",
    note="Complete over the enumerated lattices, words up to the depth and rational positions (multiples of 1/24, general and special positions of every group).",
    design="State = (lattice, frame, vector); transitions = frame changes, products, cross products. Second state space: (space group, setting, position), with the orbit recomputed from the operators "
    "modulo 1. Groups: frames, coordinates, units, orbits, rounded positions, averages, rhombohedral, dtype.",
)
prop(
    id="C18",
    title="Reflection lists hold exactly the allowed reflections",
    statement="For every space group and lattice, oblique cells included, the reflections listed for a smallest lattice spacing are exactly the non-zero hkl that the lattice centring allows and whose spacing is larger than that limit, each listed once and inside the "
    "index limits reported by the cell. The difference table holds the difference of any two listed reflections (and of any one with 000), and nothing the centring forbids. Single precision cells list the same reflections.",
    over=["inputs", "configurations"],
    qtext="all 230 space groups, all lattices and resolutions, every reflection of the list",
    why="tests never list reflections; a missing reflection only shows up as a slightly wrong pattern for one centring or one oblique cell",
    files=[CR + "unit_cell.py"],
    mechanism=[("index limits of the resolution sphere", CR + "unit_cell.py"), ("centring rules per lattice letter", CR + "unit_cell.py")],
    technique="exhaustive enumeration of the integer reflection space of every space group on the real code, against a brute force reference model",
    note="Complete over the integer boxes, the 230 groups, the enumerated lattices and resolutions; reflections exactly on the resolution limit (1e-6) may be listed or not.",
    design="States: (space group, lattice, resolution). For each, every hkl of a box larger than the resolution sphere is judged: listed if and only if h.t is an integer for every centring translation t and |g| < 1/dmin from an independent reciprocal metric. "
    "Difference tables are compared with all differences. Every hkl in [-7, 7]^3 is passed through the centring filter for all 230 groups.",
)
prop(
    id="C28",
    title="k-vector grids cover every direction of the crystal",
    statement="The directions at which a master pattern is computed suffice for all others: for every space group and every grid size, each node of the full grid on both hemispheres has a symmetry equivalent direction in the list. Directions are unit vectors, belong to the grid "
    "node listed with them (square grid, or hexagonal grid for trigonal and hexagonal crystals), carry the right hemisphere flag, and no node is listed twice. A forced full sampling scheme lists every node, and unknown schemes are refused.",
    over=["inputs", "configurations"],
    qtext="all 230 space groups and second settings, all grid sizes, every node of both hemispheres",
    why="tests never generate k-vectors; a sector that is too small leaves unsampled directions in the few space groups that use it",
    files=[CR + "kvectors.py"],
    mechanism=[("sampling case per point group and setting", CR + "kvectors.py"), ("asymmetric sector of every sampling case", CR + "kvectors.py")],
    technique="exhaustive reachability over the finite grid: from every node all symmetry equivalents are generated and one has to be sampled, on the real code",
    note="Complete over the 254 settings, the enumerated half widths and all nodes. That a sector is as small as possible is not claimed.",
    design="States: (space group, setting, half width). The full grids are recomputed from the equal area maps. For every node the orbit under the point group (in the Cartesian frame of the cell) is formed and must meet the listed directions.",
)
prop(
    id="C29",
    title="Structure factors have the size, phase and symmetry of the crystal",
    statement="For every crystal the Fourier coefficients of the potential and of the site weights equal the sums over all atoms of the cell of scattering factor, occupancy, thermal factor and phase, for every pair of reflections, with the refracted wavelength and the mean absorption that belong to them. "
    "They have the symmetry, the extinctions and, without absorption, the Hermitian symmetry of the crystal; they do not depend on which voltages are computed together or on how one and the same structure is described (order of sites, equivalent positions, split occupancies, P1). "
    "Each absorption flag and scattering factor model is honoured. Excitation errors are the distances to the Ewald sphere in any lattice.",
    over=["inputs", "configurations"],
    qtext="all 230 space groups, every pair of reflections, every flag combination, every equivalent description of a structure",
    why="the tests never compute a structure factor; a wrong sign or factor gives a plausible but wrong pattern",
    files=[CR + "diffraction.py", CR + "ebsd_master.py"],
    mechanism=[("coefficient table over reflection differences", CR + "diffraction.py"), ("real and absorptive sums over the orbits", CR + "diffraction.py"), ("excitation errors", CR + "ebsd_master.py")],
    technique="exhaustive enumeration of space groups, reflection pairs, flags and equivalent structure descriptions on the real code, judged by a brute force reference model",
    note="Complete over the 230 groups and the reflection pairs inside the resolution; one generic two site structure per group plus nine structures with all flags. Trusts the scattering factor models (decided by C31).",
    design="For each space group a structure with one site at the origin and one general site; S_gh and U_g are recomputed atom by atom for all pairs of reflections and compared, and transformed by every operator of the group. Second state space: nine structures x all flags x voltages x all "
    "permutations, splits, lattice shifts and equivalent positions of the sites, and their P1 expansion. Excitation errors on a lattice of directions for all crystal systems.",
)
prop(
    id="C31",
    title="Scattering factors are physical and consistent for every element",
    statement="For each of the 98 elements the three scattering factor models give positive elastic factors that fall with the scattering angle, agree with the International Tables and with each other within the accuracy of the fits, and reach the Coulomb limit. Thermal absorption equals its defining integral over "
    "the elastic factors at every displacement, voltage and momentum transfer including zero, core losses follow their model, flags switch each contribution off, and both precisions, all argument layouts and plain numbers give the same values. The exponential integrals underneath are accurate on every branch.",
    over=["inputs", "configurations"],
    qtext="all 98 elements, all momentum transfers, displacements, voltages and flags",
    why="tests do not evaluate scattering factors; a wrong table entry or branch affects a single element or range",
    files=[CR + "scattering_factors/scattering_factors_WK.py", CR + "scattering_factors/scattering_factors_Hybrid.py", CR + "scattering_factors/scattering_factors_LVD_TCB.py"],
    mechanism=[("parameter tables", CR + "scattering_factors/scattering_factors_WK.py"), ("analytic thermal diffuse integrals", CR + "scattering_factors/scattering_factors_WK.py"), ("numerical integration", CR + "scattering_factors/scattering_factors_LVD_TCB.py")],
    technique="exhaustive enumeration of elements, flags and a grid of continuous arguments on the real code, against tables, quadrature and high precision references",
    note="Complete over the elements and flags; continuous arguments on grids with the branch points of the approximations. Parameter tables are additionally pinned by mc/sf_golden.json.",
    design="States: (element, displacement, voltage, momentum transfer, model, flags). Oracles: International Tables (Z = 2 to 33), the other independent fit, Gauss quadrature of the absorption integral, a reference of the core loss formula, mpmath for Ei and E1.",
)
prop(
    id="C30",
    title="Master patterns are the dynamical solution, however the computation is cut up",
    statement="A simulated master pattern equals the solution of the dynamical (Darwin-Howie-Whelan) equations for each sampled direction, voltage and site, weighted with the depth distribution, for every space group, scattering model and absorption flag. It does not depend on how many directions are processed at a time, which voltages are computed together, the scale or "
    "type of the depth weights, or earlier calls, and leaves the caller's tensors untouched. Equivalent descriptions of a crystal (split or reordered sites, shifted origin, all atoms in P1) give the same intensity for every direction of the sphere and its symmetry equivalents.",
    over=["inputs", "configurations", "histories"],
    qtext="all 230 space groups, all sampled directions, all chunkings, voltage subsets, flags and equivalent descriptions",
    why="the simulation has no test at all; a chunking or voltage mix-up or a missing symmetry gives a plausible image",
    files=[CR + "ebsd_master.py", CR + "diffraction.py", CR + "kvectors.py"],
    mechanism=[("loops over voltages and chunks of directions", CR + "ebsd_master.py"), ("depth integration with matrix exponentials", CR + "ebsd_master.py")],
    technique="exhaustive enumeration of groups, flags, chunkings and voltage orders on the real code, against a double precision reference solution and all symmetry equivalents",
    note="Complete over the enumerated configurations with small grids (half width 2 to 6) and 14 to 40 beams; the cutoff of the depth integration at the 95 % depth is taken from the code. Only single precision cells are supported by the code.",
    design="For each space group the pattern of a generic two site crystal is compared, direction by direction, with matrix exponentials evaluated in double precision from the coefficients decided by C29. Histories: every chunk size, every ordered subset of voltages, weight scalings, halved slices. Twelve structures are expanded to P1 (with and without an origin shift) and every "
    "direction of both hemispheres is carried to its sampled equivalent by the point group.",
)
EB = "ebsdtorch/ebsd/"
prop(
    id="C11",
    title="Experimental patterns keep positions, orientations and phases in any history",
    statement="An ExperimentPatterns object returns each pattern, its scan position, orientation and deformation as they were last written, whole or by any list of indices, with any binning factor that divides the pattern, for every layout of the input and after every sequence of normalisation, background subtraction, CLAHE, NLPAR and cleaning steps, each of which does what it says to every pattern. "
    "Combining the indexing results of any phases, in any order of arrival and any number of times, gives each pattern the phase, orientation and metric of its best match; phases indexed again replace their results. Inputs of the wrong shape are refused.",
    over=["inputs", "histories"],
    qtext="all sequences of processing steps, writes and reads, all metric assignments over phases and patterns, all layouts",
    why="unit tests never combine phases or mix processing with indexed access; a misrouted index or stale result only appears after particular sequences",
    files=[EB + "experiment_pats.py"],
    mechanism=[("processing of the pattern stack in place", EB + "experiment_pats.py"), ("indexed setters and getters", EB + "experiment_pats.py"), ("merging of the raw results of the phases", EB + "experiment_pats.py")],
    state=[("per pattern data", "patterns, positions, orientations, deformations", EB + "experiment_pats.py"), ("raw results", "matches of every phase indexed so far", EB + "experiment_pats.py")],
    technique="explicit-state exploration of all operation sequences up to a depth on the real object, in lock step with a reference model",
    note="Complete over the sequences and assignments up to the stated depth for scans of 3 to 4 patterns. CLAHE and NLPAR are the functions of the preprocessing package (decided by C24). Processing in place may change the tensor of the caller: not claimed.",
    design="(1) All sequences of 3 (thorough 5) of six processing steps against a double precision model, all ordered subsets read with binning 1 and 2; (2) all sequences of reads and writes of orientations, positions and deformations with five index lists; (3) all assignments of metrics in {0, 1, 2} to up to 3 phases x 3 patterns for "
    "every order and choice of phase numbers, both senses, twice in a row and with replaced results; (4) every layout of the input (crops, transposes, strides), and refused inputs.",
)
UT = "ebsdtorch/utils/"
prop(
    id="C12",
    title="Streamed covariance and online PCA do not depend on how the data were cut up",
    statement="After any number of batches of any sizes, in any order, empty ones included, with queries in between and after saving and restoring, the streamed mean and covariance (or correlation) are those of all rows at once, its eigenvectors are an orthonormal eigenbasis in the stated order, and the number of observations is the number of rows. "
    "Oja, Oja++ and Krasulina updates follow their recurrences (a Krasulina batch adds up the steps of its rows) for every split into batches and every number of components, keep an orthonormal basis, and converge to the principal subspace on data with a gap.",
    over=["inputs", "histories"],
    qtext="all splits into batches, all orders, all positions of queries, empty batches and checkpoints",
    why="tests feed one or two batch sizes; a wrong weight of the running mean shows only for unequal batches",
    files=[UT + "pca_covmat.py", UT + "pca_online.py"],
    mechanism=[("merge of batch means and covariances", UT + "pca_covmat.py"), ("Oja and Krasulina steps with QR", UT + "pca_online.py")],
    state=[("running moments", "mean, covariance and number of rows so far", UT + "pca_covmat.py"), ("basis", "current estimate of the principal directions", UT + "pca_online.py")],
    technique="exhaustive enumeration of all ordered partitions of a data stream (and of orders, queries, checkpoints) on the real code, against the one-pass result",
    note="Complete over the splits of 8 (thorough 11) rows. Convergence of the stochastic updates is shown on enumerated deterministic streams.",
    design="Every composition of the rows into batches is a schedule: after every batch the object is queried and compared with the covariance of the rows so far in double precision. Further state spaces: all orders of five rows, empty batches and state_dict round trips at every position, dtype pairs and layouts. The online methods run in lock step with reference recurrences.",
)
prop(
    id="C13",
    title="Master pattern interpolation gives the intensity of a direction in any history",
    statement="Interpolating a master pattern returns, for every direction (a vector of any length), the bilinear value of its hemisphere in the equal area projection, continuously across the equator and independently of the layout, dtype and batch of the directions; a constant pattern gives the constant everywhere, node directions give the node value. This holds after every sequence of normalisation, CLAHE, dtype changes and requests with different binning factors: "
    "a binned request uses the binned version of the current pattern. Every space group and point group has the right Laue group.",
    over=["inputs", "histories", "configurations"],
    qtext="all operation sequences, all lattice directions of the sphere, all pattern shapes, layouts and groups",
    why="tests never query after a second binning factor or a normalisation, nor across the seam between hemispheres",
    files=[EB + "master_pattern.py", "ebsdtorch/s2_and_so3/sphere.py", UT + "symmetry_classes.py"],
    mechanism=[("interpolation of the two hemispheres", EB + "master_pattern.py"), ("cache of the binned pattern", EB + "master_pattern.py"), ("Laue group of a space group", UT + "symmetry_classes.py")],
    state=[("pattern", "the current master pattern", EB + "master_pattern.py"), ("binned pattern", "cached version and its binning factor", EB + "master_pattern.py")],
    technique="explicit-state exploration of all operation sequences up to a depth on the real object, in lock step with a reference model, plus exhaustive lattice directions and groups",
    note="Complete over the sequences up to length 4 (thorough 5) and the lattice of directions. Bicubic interpolation is not claimed.",
    design="A numpy reference holds the unbinned pattern and the equal area map. All sequences over {bin 2, bin 3, normalisations, CLAHE, to(dtype), interpolate} are run with queries after each step. A second state space checks all lattice directions plus directions next to equator and poles for every hemisphere shape, corner convention and layout; a third all groups.",
)
prop(
    id="C19",
    title="SE(3) exponential and logarithm are exact at every angle and in every layout",
    statement="For every twist the exponential map (as 4x4 matrix, as rotation and translation, or as quaternion and translation) is the matrix exponential, and the logarithm of a rigid motion exponentiates back to that motion with a rotation of at most half a turn, for all angles (zero, tiny, on both sides of every series switch, half turns, more than a turn) and axes, in both precisions, "
    "with exact derivatives, for every batch shape and memory layout including single and empty batches, without changing the inputs.",
    over=["inputs", "configurations"],
    qtext="all axes of a lattice, all angles at and around every switch of formula, all translations, representations, dtypes and layouts",
    why="the maps are the parametrisation of detector tuning and refinement; a test at a few random twists never meets the switches of formula, half turns or odd layouts",
    files=["ebsdtorch/lie_algebra/se3.py"],
    mechanism=[("series and closed forms of the exponential", "ebsdtorch/lie_algebra/se3.py"), ("logarithm of a rotation", "ebsdtorch/lie_algebra/se3.py")],
    technique="exhaustive enumeration of a lattice of twists with all branch boundaries on the real code, against the matrix exponential",
    note="Complete over the lattice of axes, angles, shifts, dtypes and layouts. Small angles of the quaternion representation lose precision by design (tolerances reflect it); its derivative at rest is not claimed.",
    design="Every combination of lattice axis, angle (both sides of every formula switch), translation, dtype and representation is pushed through exponential and logarithm and compared with torch.matrix_exp in double precision. Jacobians of both maps are compared with the one of the matrix exponential; group laws (all pairs of multiples of a twist, conjugation with the 24 cubic rotations) and all layouts follow.",
)
prop(
    id="C20",
    title="Detector geometry: rigid, invertible and the same in every part of the package",
    statement="For every projection centre, tilt, detector shape and binning, the position of a (binned) pixel in the sample frame is the rigid motion given by the Bruker parameters, back projection of any positive multiple of a ray returns the pixel, the parameters are recovered from the motion with their signs, and only the selected components of the tuned motion act and receive gradients, after any sequence of selections. "
    "Pattern centre fitting and HR-EBSD projection place pixels exactly where the geometry does. Binnings that do not divide the detector are refused.",
    over=["inputs", "configurations", "histories"],
    qtext="all shapes, binnings, centres, signed tilts, masks, sequences of mask changes and broadcasts",
    why="an off-by-half pixel, a transposed axis or a lost sign is invisible for a square, unbinned, centred detector",
    files=[EB + "geometry.py", EB + "fitting.py", EB + "project_hrebsd.py"],
    mechanism=[("detector to sample motion", EB + "geometry.py"), ("pixel coordinates", EB + "fitting.py"), ("directions of deformed crystals", EB + "project_hrebsd.py")],
    state=[("tuned motion", "twist and selection of optimised components", EB + "geometry.py")],
    technique="exhaustive enumeration of geometries, binnings, masks and mask histories on the real code, against an independent rigid motion model",
    note="Complete over the enumerated lattice of geometries; single precision tolerances scale with the detector size.",
    design="A numpy model of the detector (rotation from the tilts, translation from the projection centre, tuned motion through the matrix exponential) is compared with pixel positions, back projections, gradients and the three independent implementations in geometry, fitting and project_hrebsd, for every shape, divisor binning, centre, tilt, mask and broadcast; all sequences of two mask changes are explored.",
)
prop(
    id="C10",
    title="Dictionary indexing finds the best dictionary entry however work is cut up",
    statement="For every scan and every set of phases, dictionary indexing (full or in PCA space) assigns to each pattern the orientation and phase whose simulated pattern has the best metric over the whole dictionary of the Laue group, with that metric and the k next best entries in order: noise-free patterns of any dictionary entry or of a symmetrically equivalent orientation are found with metric 1. "
    "This does not depend on chunk sizes, order of the dictionary, number format beyond its precision, or earlier indexing runs, honours mask, binning, metric and mean subtraction, and leaves patterns and master patterns as they were. With all components PCA gives the result of the full comparison.",
    over=["inputs", "configurations", "histories"],
    qtext="all dictionary entries and equivalents of the 11 Laue groups, all chunkings, all flag combinations, all component counts, all sequences of runs",
    why="the tests index one simulated scan with one setting; a wrong offset of a chunk, a mask or mean skipped in one branch, or stale results only show in other configurations",
    files=[EB + "indexing.py", UT + "knn.py", EB + "experiment_pats.py"],
    mechanism=[("loops over dictionary and experiment chunks", EB + "indexing.py"), ("merging of the best matches", UT + "knn.py"), ("projection on principal components", EB + "indexing.py")],
    state=[("best matches so far", "k best entries of every pattern", UT + "knn.py"), ("raw results", "matches of every phase", EB + "experiment_pats.py")],
    technique="exhaustive enumeration of configurations, chunkings and run histories on the real code, against an independent exhaustive comparison",
    note="Complete over the enumerated configurations with small detectors and coarse dictionaries. Individual pattern centres (average_pattern_center=False) are not claimed: that option does not work.",
    design="A numpy reference simulates the patterns of all entries (own detector model, own equal area interpolation), and computes all metrics. Every pattern's matches, metrics, phase and combined orientation are compared without assuming an order of ties. State spaces: every entry (and all symmetric equivalents) of the dictionaries of the 11 Laue groups; all pairs of chunk sizes; metric x mask x binning x mean x k x phases x chunking; "
    "number formats and quantisation; PCA with every component count; all sequences of two (thorough three) runs of 16 kinds on one scan.",
)
PP = "ebsdtorch/preprocessing/"
prop(
    id="C24",
    title="NLPAR, CLAHE, blur and masks do to every pattern what they are defined to do",
    statement="NLPAR replaces every pattern by a convex combination of the patterns inside its window, with the weights of the method: noise from the nearest of the 8 neighbours in the scan (positions outside of the scan never count) and one width that gives the originals the requested mean weight in the 3x3 kernel, closest possible if it is unreachable; results are finite for identical patterns and follow mirrored scans, permuted pixels, gain and offset. "
    "CLAHE is the tile-wise clipped equalisation of each image alone, within [0, 1]. Gaussian blur and downsampling keep shape, centre, brightness and symmetry; radial masks are discs. Inputs are unchanged.",
    over=["inputs", "configurations"],
    qtext="all scan and image shapes, radii, coefficients, grain assignments, identical patterns, tile grids, bins, clip limits, batches and layouts",
    why="there are no tests; at the border of a scan, for zero mean patterns or next to dead pixels the weights were silently wrong or NaN",
    files=[PP + "nlpar.py", PP + "clahe.py", PP + "resampling.py", PP + "radial_mask.py"],
    mechanism=[("weights of the neighbours", PP + "nlpar.py"), ("clipped histograms of the tiles", PP + "clahe.py"), ("padding and kernel of the blur", PP + "resampling.py")],
    technique="exhaustive enumeration of scans, grain assignments, partitions into identical patterns and image configurations on the real code, against naive references",
    note="Complete over the enumerated small scans and images. The weights of NLPAR are observed through marker pixels in the patterns. Values at the borders of histogram bins and CLAHE inputs outside of [0, 1] are not claimed.",
    design="Marker pixels (one per scan position, 1e-5 high) make the full weight matrix of NLPAR visible in its output; it is compared with a direct numpy implementation of the method for every shape, radius, noise, coefficient and grain assignment. CLAHE is compared with a per pixel loop for all shapes 4..9 and grids; batches are checked for all ordered triples of images.",
)
prop(
    id="C23",
    title="Orientation refinement only improves, up to the best orientation around",
    statement="Refinement (exhaustive local grid or gradient) of an indexed scan never leaves a pattern with a worse match to the master pattern of its phase than it had; a grid step ends at the best point of the grid around the start, and from a start within its reach a noise-free pattern is brought back to its true orientation, for every Laue group. "
    "Results are unit quaternions in the fundamental zone. Batch size, other patterns in the scan, contrast of the candidates, phases without patterns, pixels that point to poles of the crystal, number format, binning and earlier runs do not matter; patterns, phases and master patterns are left alone, and scans that were not indexed are refused.",
    over=["inputs", "configurations", "histories"],
    qtext="all starts on a lattice around orientations of all Laue groups, all batch sizes, assignments of phases, grids, formats and sequences of refinements and indexing runs",
    why="refinement is judged by eye on one scan; discarding an improvement, comparing unnormalised products or mixing patterns of different phases only shows against an exhaustive search",
    files=[EB + "refining.py", EB + "experiment_pats.py", "ebsdtorch/s2_and_so3/sphere.py"],
    mechanism=[("best candidate of the local grid", EB + "refining.py"), ("gradient steps with the best so far", EB + "refining.py"), ("batches of patterns of one phase", EB + "experiment_pats.py")],
    state=[("orientations", "current orientation of every pattern", EB + "experiment_pats.py")],
    technique="exhaustive enumeration of starts, batchings, phase assignments and run histories on the real code, against an independent exhaustive local search",
    note="Complete over the enumerated lattices with small detectors and smooth master patterns. The semi-edge angle of the grid is only approximate, so the grid is judged in its own (Rodrigues) coordinates. Individual pattern centres are not claimed.",
    design="Noise-free patterns from an independent simulator; the match of every pattern with its orientation is recomputed in numpy before and after. State spaces: all local grids up to radius 6; a lattice of starts around orientations of the 11 Laue groups; all batch sizes; all 3^4 assignments of three phases to four patterns; formats x binning x geometry; all sequences of two (thorough three) operations on one scan.",
)
prop(
    id="C25",
    title="Mutual information metrics are those of the joint histogram, at every shift",
    statement="For any two images, number of bins, unit and normalisation, the mutual information is the one of their joint histogram: symmetric, zero for constant images, equal to the entropy for an image with itself, unchanged by relabelling the bins, for each pair of a batch alone. Values 0 and 1 belong to the first and last bin. "
    "Cross mutual information is that number for the overlap at every cyclic shift, counting only pixels inside both masks (whatever the others contain), with no shift in the centre, for even and odd shapes; a shifted image, also with inverted contrast, is found at its place.",
    over=["inputs", "configurations"],
    qtext="all pairs of small images, bin counts, units, normalisations, batch shapes, masks, image shapes and shifts",
    why="there are no tests; collisions of joint bin indices, lost single-pixel bins or an odd width cut by the inverse FFT give plausible but wrong maxima",
    files=[UT + "mutual_information.py", UT + "knn.py"],
    mechanism=[("joint histogram index", UT + "mutual_information.py"), ("joint histograms at all shifts by FFT", UT + "mutual_information.py")],
    technique="exhaustive enumeration of image pairs, masks, shifts and configurations on the real code, against counting",
    note="Complete over the enumerated small images. Normalised variants of constant images (0/0) and masks with the constant marginal approximation are not claimed.",
    design="A counting reference (loops over pixels and shifts) is compared with all variants: every pair of images of few pixels over two and three levels, every number of bins, every batch broadcast, every pair of masks of 2x3 images, every shape up to 7x7 with every cyclic shift, and every normalisation.",
)
prop(
    id="C27",
    title="A master pattern read from a file is the one that was simulated",
    statement="Reading an EMsoft master pattern file gives, for every number of sites and energies, number type and storage layout, the sum over sites and the mean over energies weighted with the Monte Carlo counts of that energy, northern hemisphere left and southern right, every pixel in its place, with the Laue group of the space group of the file. "
    "The value in a direction is the value simulated for it. Reading does not change the file or patterns read earlier; what is read is the current content of the file.",
    over=["inputs", "configurations", "histories"],
    qtext="every single site, energy and pixel impulse, all distributions of counts, all space groups, all file layouts and histories of two files",
    why="the only test data is one single-site file; weighting or stacking the wrong axis still gives a plausible pattern",
    files=["ebsdtorch/io/read_master_pattern.py", EB + "master_pattern.py"],
    mechanism=[("weighted mean over energies", "ebsdtorch/io/read_master_pattern.py"), ("side by side hemispheres", EB + "master_pattern.py")],
    technique="exhaustive enumeration of impulses, count distributions, file layouts and file histories on the real code",
    note="Complete over the enumerated sizes. Files are written by the check in the documented layout of EMsoft (no file of EMsoft itself is available offline).",
    design="The check writes files with h5py into a scratch folder: an impulse in each (hemisphere, site, energy, pixel), all distributions of few counts over energies, all sizes, dtypes, compressions and layouts, all 230 space groups, all sequences of reading and rewriting two files; every read pattern is compared with the weighted sum.",
)
prop(
    id="C32",
    title="Pattern centre fitting returns the best of its whole search space",
    statement="For every detector shape, range of pattern centres, tilt, binning and Laue group, fitting the pattern centre returns a member of the search space (detector shifts by whole pixels within the given limits, the given distances) whose metric, averaged over the patterns with the best dictionary orientation for each, is the maximum of the whole space, and those orientations. "
    "Noise-free patterns of a member of the space that is clearly best are answered with it. Gain and offset of the detector, dictionary batch size and earlier fits do not matter; the caller's patterns are unchanged.",
    over=["inputs", "configurations", "histories"],
    qtext="every pattern centre of the space as the true one, all shapes, one-sided ranges, tilts, binnings, batch sizes, pairs of orientations and histories",
    why="there are no tests; a mirrored axis, a shift that wraps around or an index relative to the dictionary batch all return a plausible centre",
    files=[EB + "fitting.py", UT + "mutual_information.py"],
    mechanism=[("enlarged dictionary patterns", EB + "fitting.py"), ("cross correlation over all shifts", EB + "fitting.py"), ("best orientation over dictionary batches", EB + "fitting.py")],
    technique="exhaustive enumeration of the search space and of configurations on the real code, against an independent simulation of the whole space",
    note="Complete over the enumerated small detectors and coarse dictionaries. Whether the limits of the range themselves (up to rounding) belong to it is not claimed; the dot product is not normalised by design, so the truth is only required where it is clearly best.",
    design="The check simulates the pattern of every (centre, distance, orientation) without the code under test, computes both metrics and compares the returned centre and orientations with the maximum. Every centre of seven spaces is the true one in turn; all Laue groups; all dictionary batch sizes on a lattice; pairs of orientations with different gain; all histories of two other uses.",
)
prop(
    id="C26",
    title="Monte Carlo counts every backscattered electron once, in its own bin",
    statement="For every material, beam energy, tilt, bin layout and every history of random numbers, the Monte Carlo histogram (PyTorch and OpenCL) counts each electron that leaves the sample exactly once, in the bin of its energy loss, exit depth and direction by Joy's single scattering model; electrons outside of the range, without energy or at the maximal number of collisions are not counted and do not influence later ones. "
    "How electrons are split over batches, trials and runs does not matter; simulations end as soon as the required number is reached and report how many electrons were simulated. Resampling in depth keeps densities exactly where the interpolation can represent them.",
    over=["inputs", "configurations", "histories"],
    qtext="all histories of random numbers over a lattice for up to three (thorough four) collisions, cyclic histories up to 300 collisions, materials, tilts, bin layouts, batch sizes, trials, runs, depth bins",
    why="there are no tests and the output is random: lost counts, one collision too many or a bin too far only shift a smooth histogram",
    files=["ebsdtorch/simulation/monte_carlo.py", "ebsdtorch/crystallography/ebsd_mc.py"],
    mechanism=[("scattering, reset and accumulation", "ebsdtorch/simulation/monte_carlo.py"), ("OpenCL kernel", "ebsdtorch/crystallography/ebsd_mc.py"), ("runs, symmetry and resampling", "ebsdtorch/crystallography/ebsd_mc.py")],
    state=[("electrons", "energy, depth, direction and age of every electron", "ebsdtorch/simulation/monte_carlo.py"), ("accumulator", "histogram", "ebsdtorch/simulation/monte_carlo.py")],
    technique="exhaustive exploration of all random histories up to a depth on the real code, the random numbers being chosen by the explorer, against an independent model of the electron",
    note="Complete over the lattice of random numbers within the bounds. Electrons within rounding of a decision (bin edge, surface) may fall on either side; those are counted as uncertain. The OpenCL kernel is compiled by clang for the CPU (no OpenCL driver is available) behind a stand-in for pyopencl, so work items run one after another. float32 accumulators above 2^24 counts are not claimed.",
    design="The random numbers of the PyTorch simulation are answered by a dispatch mode; for the kernel, seeds of LFSR113 are solved for over GF(2) so that the first numbers of each work item are the chosen ones. A numpy model in double precision (with a disturbed twin that measures how certain each history is) predicts each electron's fate; histograms must agree bin by bin. State spaces: all histories over lattices of free path x scattering angle x azimuth to depth 2 to 4, extreme numbers, cyclic histories to 300 collisions, all batch sizes and stopping numbers, trials, all combinations of the simulator's options, impulses and polynomials for resampling.",
)
HA = "ebsdtorch/harmonics/"
prop(
    id="C21",
    title="Wigner d tables and lookups are the Wigner d functions, at every angle",
    statement="For every maximum degree, angle in [0, pi] (ends, pi/2 and their neighbourhood included), method (logarithms below, at and above pi/2; extended exponents) and number type, the table holds d^l_{n,m}(beta) for l >= m >= n >= 0 in the documented order, finite and accurate also for large degrees and tiny angles. "
    "Index and (l, m, n) determine each other for every entry. Lookups at pi/2 give the right value and sign for all signs and orders of m and n, in both index conventions.",
    over=["inputs", "configurations"],
    qtext="every entry of every table up to a degree, all angles of a lattice, four methods, number types, all signs and orders of the indices",
    why="the tests compare one single entry at one angle; a wrong sign for one parity, an underflow beyond a degree or a lost symmetry only appears at certain indices and angles",
    files=[HA + "wigner_d_logspace.py", HA + "wigner_d_xnum.py"],
    mechanism=[("recursion in logarithms", HA + "wigner_d_logspace.py"), ("extended exponents", HA + "wigner_d_xnum.py"), ("symmetries in lookups", HA + "wigner_d_logspace.py")],
    technique="exhaustive enumeration of table entries, angles, methods and indices on the real code, against the eigendecomposition of the angular momentum",
    note="Complete over the enumerated degrees and angles. Single precision at large degrees is only claimed to the accuracy the recursion has (2e-2 at degree 300).",
    design="d^l(beta) = exp(-i beta Jy) is computed from the eigenvectors of the (2l+1) x (2l+1) matrix Jx, without recursion. Every entry of every table to degree 24 (thorough 40) is compared at 60 angles for seven method/precision pairs; degrees 100 to 365 (thorough 500, 1030) at selected degrees; every index to degree 150 and the edges of each block to 2500; all lookups to degree 10 (16); products of rotations by a + b assembled from the tables.",
)
prop(
    id="C22",
    title="Spherical harmonic transforms are exact below the bandlimit",
    statement="For every bandlimit, degree and order, the inverse transform of a single coefficient is that orthonormal spherical harmonic (Condon-Shortley phase) on the Driscoll-Healy grid and the forward transform of the harmonic is that coefficient alone, for complex and real functions, in both precisions; hence every band-limited function comes back. "
    "Real and complex transforms agree. Batch, memory layout, how weights are batched and earlier calls do not matter; inputs stay unchanged; trimmed coefficients are those of the lower bandlimit.",
    over=["inputs", "configurations", "histories"],
    qtext="all harmonics of all bandlimits up to a bound, all functions with small coefficients, batches, layouts, batch sizes of the weights, pairs of bandlimits, histories of calls",
    why="the tests only go there and back for random coefficients at bandlimits 3 to 5, which any invertible wrong convention passes; linearity makes the basis decide all inputs, and an error in one parity of the order or in the last degree is invisible in a typical reconstruction",
    files=[HA + "sht.py", HA + "wigner_d_logspace.py"],
    mechanism=[("discrete Legendre transform", HA + "sht.py"), ("sparse weights", HA + "wigner_d_logspace.py")],
    technique="exhaustive enumeration of basis functions, bandlimits, layouts and histories on the real code, against independent associated Legendre functions",
    note="The transforms are linear, so the basis functions decide every function of a bandlimit up to rounding. Complete for bandlimits to 32 (thorough 64). Coefficients that are lazily conjugated views are not claimed.",
    design="All L^2 harmonics of each bandlimit go through both directions of both transforms; redundant checks: all functions with coefficients -1, 0, 1 for small bandlimits, pairs of bandlimits (sampling finer, trimming), six memory layouts x batch sizes, all sequences of three calls of one transform, all batch sizes of the weights. Highest degrees for bandlimits 64 and 101 (thorough 90, 129, 200).",
)
prop(
    id="C33",
    title="Spherical cross correlation is the overlap at every rotation",
    statement="For functions f and g on the sphere given by their coefficients, each entry (i, j, k) of the cross correlation volume is the integral over the sphere of f with g rotated by the Euler angles (ZYZ) 2 pi (i, j, k) / (2B - 1) + (pi/2, pi, pi/2), or its magnitude for the complex variant, for every bandlimit B. "
    "The three variants agree; a function that was rotated by a rotation of the grid is found there. Batches broadcast, each pair alone; batches that do not match are refused; inputs stay unchanged and larger tables make no difference.",
    over=["inputs", "configurations"],
    qtext="all pairs of harmonics for bandlimits up to a bound at every rotation, every rotation of the grid as the true one, batches, tables, layouts",
    why="there are no tests; a lost sign or negative order leaves a volume with a plausible maximum at a wrong rotation",
    files=[HA + "sht_cc.py", HA + "wigner_d_logspace.py", HA + "sht.py"],
    mechanism=[("sum over degrees and FFT", HA + "sht_cc.py"), ("negative orders of real functions", HA + "sht_cc.py")],
    technique="exhaustive enumeration of pairs of basis functions and of all rotations of the grid on the real code, against integration of rotated functions",
    note="The correlation is bilinear, so pairs of harmonics decide all pairs of functions (the magnitude of the complex variant is also checked on sums). Complete for bandlimits to 7 (thorough 9). Output is single precision by design.",
    design="Reference one rotates the points of a quadrature rule and integrates (no Wigner functions); reference two sums D^l from the eigendecomposition. All pairs of harmonics x all (2B-1)^3 rotations; each rotation of the grid as the true one, through samples and transforms; bandlimits to 20 (thorough 32) for functions of all degrees and of each single degree; all batch sizes to 4 x 4, table sizes, number types and memory layouts.",
)
prop(
    id="C34",
    title="Array functions depend on values only: not on layout, shape, company or past",
    statement="For every conversion of orientations, quaternion operation, reduction or test for a fundamental zone or sector, (dis)orientation angle, map of the sphere and rigid motion, in single and double precision: the result of a row depends on that row alone. "
    "It is the same for every memory layout of the arguments, for every number and size of leading dimensions (a single row, maps, empty sets), whatever the order, number and validity (NaN, zero, infinite) of the other rows, and whatever was called before. "
    "Results keep the leading dimensions and the number type of the data, and arguments are never changed.",
    over=["inputs", "configurations", "histories"],
    qtext="all functions of the families, all combinations of layouts, all batch shapes, all positions of a row and of invalid company, all words of earlier calls",
    why="tests call functions with one fresh contiguous batch of valid rows; a lost dimension, a view that is written to or a mask across rows only shows up with maps, slices and dead pixels",
    files=["ebsdtorch/s2_and_so3/orientations.py", "ebsdtorch/s2_and_so3/quaternions.py", "ebsdtorch/s2_and_so3/laue_fz_ori.py", "ebsdtorch/s2_and_so3/laue_fz_misori.py", "ebsdtorch/s2_and_so3/laue_fz_s2.py", "ebsdtorch/s2_and_so3/sphere.py", UT + "rosca_lambert.py", "ebsdtorch/lie_algebra/se3.py"],
    mechanism=[("flattening and restoring of leading dimensions", "ebsdtorch/s2_and_so3/laue_fz_ori.py, laue_fz_misori.py"), ("masked assignments to rows", "ebsdtorch/s2_and_so3/orientations.py, sphere.py, lie_algebra/se3.py"), ("functions compiled and specialised by the types seen", "all files")],
    technique="explicit-state exploration of the environment of a call (layout x shape x company x words of earlier calls) on the real code, judged against the plain call",
    note="Complete over the enumerated layouts, shapes and words for one set of 12 rows per function (generic and special ones, none on a tie between symmetric equivalents). Where several equivalents have the smallest angle the angles are compared. ori_color_laue is excluded (2-D data only, marked as incorrect by its author).",
    design="A de Bruijn sequence over six kinds of calls (small, map shaped, empty, other number type, single, recording gradients) puts every word of three (thorough four) earlier calls in front of every kind of call in one process, so that every specialisation of the compiled functions is entered from every history.",
)
prop(
    id="C35",
    title="Interrupted, saved and restored work continues as if never interrupted",
    statement="At any point of any history of operations, online covariance and PCA, detector geometries, master patterns, experimental patterns, nearest neighbour searches, blurs and harmonic transforms can be saved and restored: from a state dict into a new object or into one that was used for something else, from a saved object, or from a copy. "
    "The restored object has the same results and gradients at once and after every continuation, in the wider number type too; the original is not affected; and looking at results changes nothing.",
    over=["histories", "configurations"],
    qtext="all histories of operations up to a depth, all points of interruption, all ways of saving and restoring",
    why="there are no tests; state that is kept outside of the saved state, or derived from it and cached, is only wrong after a restart at the wrong moment",
    files=[UT + "pca_covmat.py", UT + "pca_online.py", UT + "knn.py", EB + "geometry.py", EB + "master_pattern.py", EB + "experiment_pats.py", PP + "resampling.py", HA + "sht.py"],
    mechanism=[("buffers and parameters of the modules", "all files"), ("cache of the binned pattern", EB + "master_pattern.py"), ("mask of optimisable parameters", EB + "geometry.py")],
    technique="explicit-state search over all histories and all crash points on the real code, with restarts through a file, judged against the uninterrupted run",
    note="Complete for histories up to the depth. Experimental patterns and nearest neighbours keep their data outside of state dicts by design and are only saved as whole objects; Oja++ draws random columns, which are seeded identically.",
    design="States: (object, history, point of interruption, way). Each is executed twice over: the restored object continues the history and the original continues too; both are compared with the uninterrupted run, right after the restart and at the end. Thorough: deeper, and interrupted twice.",
)
prop(
    id="C36",
    title="Gradients of simulated patterns are the slopes, and finite everywhere",
    statement="For the chain that fits detector geometry, orientation, deformation and intensities to patterns (quaternion operations, rigid motions and their exponential and logarithm, rotation and reflection of directions, the square projection, interpolation of master patterns, detector coordinates, projected deformation, blurs and harmonic transforms) the gradient is the slope of the values wherever these have one. "
    "It is finite and of ordinary size everywhere else, and in single precision: at poles, edges, equators and diagonals, at no rotation and no motion, on pixel borders and outside of patterns. "
    "Exactly the optimisable components of a geometry receive gradients, whatever they are combined with.",
    over=["inputs", "configurations"],
    qtext="all lattice directions, rotations, motions and deformations incl. singular ones and their neighbourhoods, all masks of optimisable components, every component of every argument",
    why="there are no tests of gradients; a single direction at a singular point makes the gradient of all parameters not a number, which silently stops a fit",
    files=["ebsdtorch/s2_and_so3/sphere.py", "ebsdtorch/s2_and_so3/quaternions.py", "ebsdtorch/lie_algebra/se3.py", EB + "geometry.py", EB + "master_pattern.py", EB + "project_hrebsd.py", PP + "resampling.py", HA + "sht.py"],
    mechanism=[("masked branches of the projection", "ebsdtorch/s2_and_so3/sphere.py"), ("series near no rotation", "ebsdtorch/lie_algebra/se3.py"), ("mask of optimisable parameters", EB + "geometry.py"), ("sampling with gradients", EB + "master_pattern.py")],
    technique="exhaustive enumeration of bounded lattices of arguments with all singular strata on the real code, judged against two-sided difference quotients",
    note="Complete over the enumerated lattices. A slope is demanded where quotients from both sides, at two steps and along two oblique lines agree. Conversions between representations of orientations are not part of the chain and not claimed.",
    design="Per function, argument and component: automatic gradient, central quotients at two steps, oblique quotients. Where the quotients agree the gradient has to be their value; everywhere it has to be finite, in both precisions. Rotations that bring a direction to a pole up to rounding errors are enumerated separately in single precision.",
)
