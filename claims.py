COMMON = " Assumes: real arithmetic for floats, trusted contracts of numpy/scipy/built-ins, the pyvc verifier itself; a bounded CPython conformance stage runs alongside and is not counted as proved."
CLAIM = {
    "C01": ("proof", "matrix_function and _core_general for strings of any length, any state indices below 64, any ascending bases of any size and any coefficient, in both output forms, including the KeyError condition; the matrix_repr methods hand over exactly their string, coefficient and bases." + COMMON),
    "C02": ("proof", "The hopping, number and Coulomb computations equal the canonical action of C01 (hence the general computation) for all indices, bases and coefficients; check_compatibility for operator tuples of any length." + COMMON),
    "C03": ("proof", "All products, conjugates and matrix hand-overs of AoC, NumberOperator and ParticleTerm for operator strings of any length; that concatenation of strings is the matrix product follows from the string action (C01); anticommutation and conjugation lemmas proved for 64-bit occupation numbers." + COMMON),
    "C04": ("proof", "ParticleTerm.normalize for strings of any length over the order contract of C07 and the exchange lemma of C03." + COMMON),
    "C05": ("proof", "All three basis generators for any number of subspaces with any states below 64, any specifier form, particle number, container and order (itertools.combinations/chain/product, sum of distinct powers of two, set and sort are trusted contracts over families of state sets); specifier validation for all forms." + COMMON),
    "C06": ("proof", "IndexTable for any number of arbitrary objects: construction, lookups in both directions, iteration, views, rejections; objects are identified with their equality class (their own __eq__/__hash__ coherence is C07)." + COMMON),
    "C07": ("proof", "All comparison, hash, derive and conjugation contracts of SiteID/StateID/AoC/NumberOperator/SpinOperator discharged for arbitrary coordinates, labels and precision." + COMMON),
    "C08": ("proof", "matrix_function and matrix_repr of operators and interactions for any number of spins and operators; sparse matrices as tensor layouts (kron/identity trusted to be the Kronecker product and identity)." + COMMON),
    "C09": ("proof", "Products and conjugates for interactions of any length (sorting by site as a stable sort), operator matrices, constants and Schwinger terms of single operators; the Schwinger terms of interactions of any length (over the contract of the operators' Schwinger and of C03's products)." + COMMON),
    "C10": ("proof", "Every factory function for arbitrary coordinates, spins, orbitals and coefficients (1-3 dimensions)." + COMMON),
    "C11": ("proof", "All public methods of Bond under contract for arbitrary real endpoints in 1-3 dimensions and any precision." + COMMON),
    "C12": ("proof", "Duality and span for 1-3 arbitrary independent vectors in 1-3 dimensions (exact linear solve trusted); every database constant is decided by exact evaluation of the module's own expressions in Q(sqrt 3)[pi]." + COMMON),
    "C13": ("proof", "decompose, getIndex, getSite, in_cluster for any number of points, 1-3 vectors in 1-3 dimensions, all integer translations, any earlier query; distances are an uninterpreted function of lattice coordinates with the separation of inequivalent points, KD-tree queries trusted, projection and Cauchy-Schwarz lemmas proved." + COMMON),
    "C14": ("proof", "_sites_factory, _guess_scope, neighbor_distance (any earlier queries: class invariant of the table of distances) and bonds (both flags) for any number of points, 1-3 vectors in 1-3 dimensions, any n; distances are an uninterpreted function of lattice coordinates, cdist/unique/query_pairs trusted; bonds assumes that different distances differ by more than the precision; termination is not proved." + COMMON),
    "C15": ("proof", "lattice_generator for any cell counts and all names (that the constructor accepts the generated points is assumed); the special clusters by exact evaluation in Q(sqrt 3)." + COMMON),
    "C16": ("proof", "KPath for any number of 2D/3D anchors (list, tuple or array), any min_num, both flags; lengths are an uninterpreted norm, concatenate/linspace/cumsum/min trusted." + COMMON),
    "C17": ("proof", "All rotation constructors for arbitrary angles and axes (axes with 0 < sqrt(x^2+y^2) < 1e-10 excluded: treated as parallel to z by design) and all named constants." + COMMON),
    "C18": ("proof", "Line2D for arbitrary points and tolerances; Polygon.LocationRelation for any number of vertices over the contract of Line2D; that half planes characterise a convex polygon is assumed geometry. PointsFactory: 1-3 ratios and the default grid." + COMMON),
    "C19": ("proof", "KrylovRepresentation for any dimension, any number of keys, any requested size >= 1, over abstract Hilbert-space vectors and a Hermitian operator (ghost Krylov sequence, three-term relation as loop invariant); MultiKrylov over its contract." + COMMON),
    "C20": ("proof", "All Green-function entry points (single, row, batched, multi-pair; both signs; Lanczos and exact resolvents) for any dimension, any number of frequencies/operators, over abstract Hilbert-space vectors; linear solves and adjoints are trusted." + COMMON),
    "C21": ("proof", "QuantumAverages and the calculator for any state and operator of any dimension (abstract inner-product space), TotalSpinMatrices and tools.TotalSpin for any number of spins (tensor layouts; a sparse matrix by its value at an arbitrary entry)." + COMMON),
    "C22": ("proof", "Frame, ownership (disjoint mutable storage, or overwriting it provably changes nothing observable) and stability contracts of every constructor and query, for arbitrary values, any number of lattice points, operators, vertices and states; every query is also asked first of a fresh twin whose reports must agree; the concrete arrays of Hilbert bases and the ownership of Schwinger terms are additionally checked at small sizes, labelled bounded; Lattice.bonds and neighbor_distance only in the conformance stage." + COMMON),
    "C23": ("proof", "Both functions for arbitrary n, k; math.factorial trusted; divisibility of factorials assumed as mathematics." + COMMON),
}
NOTCLAIMED = {}
