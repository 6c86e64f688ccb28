"""Single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md.
Regenerate with: python3 tools/spec.py (from /verif)."""
import json, os, re, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SP = "ebsdtorch/s2_and_so3/"
P = []


def prop(**k):
    P.append(k)


prop(
    id="C01",
    title="Orientation conversions never change the rotation",
    statement="Converting an orientation between quaternions, rotation matrices, axis-angle, Rodrigues, homochoric, cubochoric, Bunge Euler angles and the "
    "6D (Zhou) representation, along any chain of conversions, yields a valid representation of the same rotation, in single and double precision. This includes the identity, "
    "180 degree rotations, gimbal lock, negative angles, either quaternion sign and the centre, faces, edges and corners of the cubochoric cube. The result does not depend on how the "
    "orientations are batched, keeps the leading shape and precision, and leaves the input untouched.",
    over=["inputs", "histories"],
    qtext="every rotation (boundary strata included), every chain of conversion functions, every leading batch shape",
    why="tests compare a few random batches against fixed values; degenerate rotations have measure zero and chains are never composed",
    files=[SP + "orientations.py"],
    mechanism=[("pairwise conversion functions with special cases at 0 and 180 degrees and pyramids of the cube", SP + "orientations.py")],
    technique="explicit-state search over conversion chains executed on the real code, judged by a reference model of rotations",
    note="Complete over the conversion graph up to the depth bound and over the stratified lattice of rotations; values between lattice points are not visited. Trusts the reference model mc/rot.py (definitions of the representations).",
    design="State = (rotation, representation, precision). Transitions = every x2y function of the module. From every start state (integer quaternions covering identity, 180 degrees about "
    "special axes, gimbal lock and generic rotations, plus native grids of every representation) every path up to depth 3 (thorough: 4) is executed and the decoded "
    "result compared with the start rotation. Groups: paths, native grids (cubochoric faces/edges/corners), unreduced angles, batch shapes, Clifford torus.",
)
prop(
    id="C02",
    title="Quaternion algebra obeys the laws of rotations",
    statement="Quaternion product, conjugate, normalisation, angles, the action on vectors, interpolation and alignment of point sets agree with the rotations they stand for: the product composes, the conjugate "
    "inverts, equal rotations of either sign act equally, interpolation moves at constant angular rate along the shorter arc and hits both end points, and an alignment carries the first point onto the second. All of this "
    "holds for identical, opposite and antiparallel arguments, for any broadcastable batch, in both precisions, without NaN and without modifying arguments.",
    over=["inputs", "histories"],
    qtext="every pair and triple of quaternions, including degenerate ones, every word over group generators, every batch layout",
    why="tests use random quaternions; identical, opposite and antiparallel inputs and long products have measure zero there",
    files=[SP + "quaternions.py"],
    mechanism=[("Hamilton product, conjugation, sandwich action, slerp, alignment", SP + "quaternions.py")],
    technique="exhaustive enumeration of an exact integer quaternion algebra and closure search over generators, executed on the real code",
    note="Products are decided exactly on all pairs of {-1,0,1}^4; group closures reach every element of the finite rotation groups through library calls. Values off the lattice are not visited.",
    design="All ordered pairs (triples) of the 80 non-zero quaternions in {-1,0,1}^4, whose products are exact in floating point; breadth-first closure of 4 finite rotation groups through the library's own product "
    "(every word is a state); all pairs of lattice directions for alignments; slerp on a grid of parameters for all pairs.",
)
prop(
    id="C03",
    title="The symmetry operators of each Laue class form its rotation group",
    statement="For each of the 11 Laue classes the library's operators are exactly the rotations of that class in its standard axis setting: distinct unit quaternions including the identity, closed under product and inverse, "
    "with the multiplicity the library reports, accurate to double precision. The classes are nested in each other as crystallography prescribes, and their orbits of directions have the right sizes.",
    over=["configurations", "histories"],
    qtext="all 11 classes, all words over their operators",
    why="tests only use the operators indirectly in single examples; a wrong axis setting or a low precision entry stays invisible",
    files=[SP + "laue_generators.py"],
    mechanism=[("table of operators", SP + "laue_generators.py")],
    technique="explicit-state closure of the operator sets (all reachable states) compared with groups generated from first principles",
    note="Complete: the state space is finite and fully enumerated.",
    design="Breadth-first closure of words over the operators through the library product; set equality with the group that mc/sym.py generates from the symmetry axes; orbits of all primitive directions; subgroup lattice.",
)
prop(
    id="C04",
    title="Reduction to the fundamental zone picks one orientation per class",
    statement="Reducing an orientation under a Laue class returns a symmetrically equivalent orientation (symmetry times orientation) with the smallest rotation angle of its class, inside the zone that the membership "
    "test accepts, and reducing twice changes nothing. All representatives of one class reduce to the same rotation up to ties on the zone boundary, the list of equivalents is the complete class, and the bijection between "
    "the cubochoric cube and the zone maps into the zone and round-trips.",
    over=["inputs", "configurations"],
    qtext="every orientation (boundary cases included) and every representative of its class, 11 Laue classes, both precisions, batch shapes",
    why="tests reduce random interior points with a single representative; boundaries and the side of the symmetry are not decided",
    files=[SP + "laue_fz_ori.py", SP + "laue_generators.py"],
    mechanism=[("product with all operators, argmax of the real part", SP + "laue_fz_ori.py")],
    technique="exhaustive enumeration of orientation classes (all representatives) on the real code against reference groups",
    note="Complete over all primitive integer quaternions up to the bound and all their representatives.",
    design="States: every primitive integer quaternion with entries up to 3 (5) times every operator; transitions: reduction, membership, enumeration of equivalents, masks, cube maps. Ties on the boundary are accepted in either "
    "direction, so that a different tie-break raises no alarm.",
)
prop(
    id="C05",
    title="Disorientation is the smallest rotation modulo both symmetries",
    statement="The disorientation between two orientations, of the same or of two different Laue classes, is the rotation of smallest angle among all misorientations obtained by replacing either orientation by a symmetric equivalent; "
    "the angle-only functions agree with it. It does not depend on which equivalents are passed, is symmetric in its arguments, vanishes for equivalent orientations, and is never NaN.",
    over=["inputs", "configurations"],
    qtext="all 121 ordered pairs of Laue classes, all pairs of orientations and all their representatives",
    why="tests cover one class pair with random data and compare the library with itself",
    files=[SP + "laue_fz_misori.py", SP + "laue_fz_ori.py"],
    mechanism=[("misorientation reduced by operators of both crystals", SP + "laue_fz_misori.py"), ("disori_angle_laue", SP + "laue_fz_ori.py")],
    technique="exhaustive enumeration of class pairs, orientation pairs and representatives on the real code against brute-force minimisation",
    note="Complete over the 121 class pairs and the lattice of orientation pairs.",
    design="For each of the 121 ordered class pairs, all pairs from two lattices of orientations and all representatives of both; oracle: brute-force maximum of the real part over both reference groups; membership of the result in the double coset.",
)
prop(
    id="C06",
    title="Every direction has exactly one image in the fundamental sector",
    statement="Reducing a direction under a Laue class (with inversion) returns a symmetrically equivalent direction inside the fundamental sector, all equivalents reduce to the same direction, and reduction is idempotent. Membership accepts exactly the sector, including its edges, corners and the pole, "
    "and the list of equivalents is the complete orbit; colours of orientations are equal for equivalent orientations and lie between zero and one.",
    over=["inputs", "configurations"],
    qtext="every direction (poles, mirror planes and sector corners included), all its images, 11 Laue classes",
    why="tests use random directions, which never lie on a mirror plane or pole",
    files=[SP + "laue_fz_s2.py", SP + "laue_fz_ori.py"],
    mechanism=[("sector inequalities and equivalents", SP + "laue_fz_s2.py"), ("ori_color_laue", SP + "laue_fz_ori.py")],
    technique="exhaustive enumeration of direction orbits on the real code against a reference sector",
    note="Complete over all primitive lattice directions up to the index bound; points within rounding of the edge may be judged either way.",
    design="All primitive directions with indices up to 6 (10), all images under group x inversion; membership judged by the reference sector margin with a tolerance band, uniqueness by comparing the reductions of all images.",
)
prop(
    id="C07",
    title="Equal-area maps between square or hexagon and hemisphere",
    statement="The square-to-hemisphere map and its inverse (in every module that provides one), and the hexagon map, return unit directions, preserve area, and invert each other on the whole closed square or hexagon including centre, "
    "edges, corners and diagonals, on both hemispheres; copies in different modules agree. Spherical coordinate conversions invert each other including at the poles for any batch shape, and no input yields NaN.",
    over=["inputs", "configurations"],
    qtext="every point of the closed square / hexagon / sphere incl. centre, seams, corners, poles",
    why="tests round-trip random interior points; centre, seams and poles are measure zero",
    files=[SP + "sphere.py", "ebsdtorch/utils/rosca_lambert.py", "ebsdtorch/crystallography/kvectors.py", "ebsdtorch/simulation/monte_carlo.py"],
    mechanism=[("rosca_lambert / inv_rosca_lambert and copies", SP + "sphere.py")],
    technique="exhaustive grid enumeration with discrete area (Jacobian) monitor on the real code against the defining formulas",
    note="Complete over grid nodes that include every special stratum. Area preservation is judged on every grid cell.",
    design="Every node of the (2N+1)^2 square and of the hexagonal grid (seams and corners are nodes), all primitive directions up to an index bound, both hemispheres; the area of each grid cell's image is compared with the constant.",
)
prop(
    id="C08",
    title="Samplers return the promised, valid and covering sets",
    statement="Grid and spiral samplers of directions and orientations return exactly the promised number of valid (unit) points, samplers of a fundamental zone or sector return points inside it only and none twice, and the zone samplers cover the zone: "
    "every orientation or direction has a sample within the advertised resolution. Random samplers return valid points for every value of their random source, mapping uniform randomness to uniform rotations, and are reproducible under a seed.",
    over=["inputs", "configurations"],
    qtext="every sample count, every resolution, 11 Laue classes, every answer of the random source (grid of draws)",
    why="tests check one or two sizes and cannot control the random source",
    files=[SP + "sampling.py"],
    mechanism=[("Fibonacci spirals, cubochoric grids, zone filters, Shoemake sampling", SP + "sampling.py")],
    technique="exhaustive enumeration of sizes and of the random source's answers (choice tree) on the real code, coverage decided over a lattice",
    note="All sizes up to the bound; the random source is replaced by an enumerated product grid of draws at the aten level.",
    design="Every n up to 130 (260), every edge up to 9 (14), 11 groups x resolutions; a dispatch-mode environment answers each random draw of scripted code from an enumerated grid (choice tree). Coverage: each lattice orientation must have a sample within the resolution modulo symmetry.",
)
prop(
    id="C09",
    title="Chunked nearest neighbours equal one brute-force search",
    statement="However the data and the queries are cut into chunks and in whatever order the chunks are presented, the nearest-neighbour search returns for every query the k best data rows of the chosen metric in best-first order with their true indices and "
    "the right distances, also when a chunk is smaller than k and when switching between whole and chunked queries. Quantised search agrees with exact search up to quantisation error; misuse of the protocol is refused with an error.",
    over=["histories", "inputs", "configurations"],
    qtext="every partition of data and queries into chunks, every order, every k, three metrics, several precisions, with ties",
    why="tests run one chunking of one random data set",
    files=["ebsdtorch/utils/knn.py"],
    mechanism=[("running top-k merge over chunks", "ebsdtorch/utils/knn.py")],
    state=[("running best distances and indices", "accumulated top-k", "ebsdtorch/utils/knn.py")],
    technique="exhaustive exploration of operation histories (all chunkings and orders) of the real object against brute force",
    note="All ordered partitions of a small data set; ties judged by distance, not by index.",
    design="States = the object's history; transitions = presenting a data chunk / query chunk / retrieving. All compositions of the data rows x all compositions and both orders of the queries x all k x metrics.",
)
prop(
    id="C14",
    title="Integer factorisation is complete and near-square sides multiply back",
    statement="Factoring any positive integer (below 3.3e24) returns its prime factorisation in ascending order with multiplicity, whatever the random source of the method answers. The near-square split returns two positive integers whose product is the number and whose ratio never exceeds the largest prime factor.",
    over=["inputs"],
    qtext="every positive integer (dense windows, semiprimes, prime powers, Carmichael numbers) and several random streams",
    why="no test exists; failures sit at sparse integers such as pseudoprimes and squares of large primes",
    files=["ebsdtorch/utils/factorize.py"],
    mechanism=[("trial division, primality test, elliptic curve method", "ebsdtorch/utils/factorize.py")],
    technique="exhaustive enumeration of integer ranges and critical families on the real code against trial division",
    note="Complete on the listed ranges; the random source is explored for a few streams only.",
    design="Every n up to 6000 (20000), windows around method switches, all products of two and three primes from a straddling set, all prime powers, all Carmichael numbers below the bound; each with several random streams.",
)
# --- more properties are appended in spec2.py -----------------------------------
NA = []
exec(open(os.path.join(HERE, "tools", "spec2.py")).read())


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if re.fullmatch(r"c\d+\.py", f)}
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
            if "state" in p:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            a["hook_needed"] = None
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                 "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], list(NA)
    for p in P:
        if p["id"] in have:
            checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}", "thorough_cmd": f"./run.sh {p['id']} --thorough",
                           "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
        elif p["id"] not in {x["property"] for x in na}:
            na.append({"property": p["id"], "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "All checks drive the real Python code of /repo directly (no model extracted from source), see DESIGN.md. known_findings.txt lists fixed and known defects."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    known = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
    d = open(os.path.join(HERE, "tools", "design_head.md")).read()
    for p in P:
        d += f"\n## {p['id']} {p['title']}\n\n{p['statement']}\n\n*How it is decided.* {p['design']}\n\n*Assurance.* {p['note']}\n\n*Why tests cannot.* {p['why']}.\n"
        f = [l for l in known if l.startswith(("fixed: property=" + p["id"], "known: property=" + p["id"]))]
        if f:
            d += "\n*Defects found.*\n" + "".join("- " + l.replace("property=" + p["id"] + " ", "") + "\n" for l in f)
    d += open(os.path.join(HERE, "tools", "design_tail.md")).read()
    sd = os.path.join(HERE, "seeded")
    rows = []
    res = {}
    rf = os.path.join(HERE, "tools", "seeded_results.json")
    if os.path.exists(rf):
        res = json.load(open(rf))
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        mf = os.path.join(sd, s, "meta.json")
        if os.path.exists(mf):
            m = json.load(open(mf))
            rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(s, 'not run')} |")
    d += "\n## Planted bugs and what catches them\n\n| bug | property | breaks | needs | result of the property's quick check |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
    open(os.path.join(HERE, "DESIGN.md"), "w").write(d)


main()
