"""What is checked, with what workload. tools/gen.py writes properties.jsonl and MANIFEST.json from
this file; check.py runs it.

jobs: driver = harness/<driver>.cpp, variant = instrumented build (check.py VARIANTS), cases = number
of generated cases (never a time limit), shards = processes over which the cases are divided.
"""


def jobs(driver, asan, asrt, plain=0, shards=4, msan=0, san="asan", **kw):
    ret = [dict(driver=driver, variant=san, cases=asan, shards=shards, **kw)]
    if asrt:
        ret.append(dict(driver=driver, variant="assert", cases=asrt, shards=shards, seed_offset=1000, **kw))
    if plain:
        ret.append(dict(driver=driver, variant="plain", cases=plain, shards=shards, seed_offset=2000, **kw))
    if msan:
        ret.append(dict(driver=driver, variant="msan", cases=msan, shards=shards, seed_offset=3000, **kw))
    return ret


def deep(driver, n, **kw):
    """thorough tier: every kind of build, disjoint seeds"""
    ret = []
    for i, (v, f) in enumerate((("asan", 1.0), ("assert", 1.0), ("plain", 2.0), ("fast", 2.0), ("clang", 1.0), ("msan", 0.5))):
        ret.append(dict(driver=driver, variant=v, cases=int(n * f), shards=8, seed_offset=10000 * (i + 1), **kw))
    return ret


MESH = ["include/GooseFEM/Mesh.h", "include/GooseFEM/MeshQuad4.h", "include/GooseFEM/MeshTri3.h", "include/GooseFEM/MeshHex8.h"]
I = "include/GooseFEM/"


def P(title, statement, over, text, tests, files, mech, quick, thorough, rule, note, must_see=(), technique=None, state=(), observe=(), assumptions=(), build_is_property=(), only_crash=False):
    return dict(
        title=title, statement=statement, over=over, text=text, tests=tests, files=files,
        mech=mech, quick=quick, thorough=thorough, rule=rule, note=note, must_see=list(must_see),
        technique=technique or "runtime monitoring: seeded workloads under ASan+UBSan and assertion builds, online oracles against an independent model",
        state=list(state), observe=list(observe), assumptions=list(assumptions), build_is_property=list(build_is_property), only_crash=only_crash,
    )


TRUST = "Trusts the compilers, xtensor and Eigen, and the harness's own plain-C++ reference code; floating-point results are compared with tolerances several orders above rounding."

CHECKS = {}

# --- meshes -------------------------------------------------------------------------------------
CHECKS["C01"] = P(
    "Regular 2-d meshes tile their rectangle",
    "For every number of elements and every element size, a regular quadrilateral or triangular mesh covers exactly its rectangle: all elements are positively oriented and conforming, no node is duplicated or unused, and neighbouring elements share nodes. Reported sizes, degrees of freedom and the grid of element numbers agree with that geometry.",
    ["inputs"], "all (nx, ny, h) with nx, ny >= 1, h > 0",
    "tests compare two or three hard-coded small meshes entry by entry; they say nothing about other shapes (single rows or columns, strongly anisotropic counts, other element sizes)",
    MESH[:3], [dict(name="node and element numbering formulas", where="MeshQuad4.h Regular::coor_impl/conn_impl, MeshTri3.h Regular::coor_impl/conn_impl")],
    jobs("c01_mesh2d", 4000, 4000), deep("c01_mesh2d", 30000),
    "a mesh of a distinct (type, nx, ny, h)",
    "Every generated mesh is checked completely (each edge, each element); coverage is over sampled sizes up to the workload's limits. " + TRUST,
    must_see=["quad4_elements", "tri3_elements", "single_row_or_column"])
CHECKS["C02"] = P(
    "Refined quad meshes are conforming, fine in the middle and coarsen outwards",
    "For every width, height, element size and fine-zone height, the refined quadrilateral mesh tiles its box conformingly, is mirror symmetric, has square elements of the requested size in the middle and elements that only get coarser outwards. The reported per-row element counts, sizes, directions and offsets describe exactly the rows that are really there.",
    ["inputs"], "all (nx, ny, h, nfine), including widths for which the coarsening pattern cannot fit and sizes for which no coarsening happens",
    "tests look at a handful of sizes; the coarsening bookkeeping depends on divisibility of nx by powers of 3 and on the remaining height, so each size is its own code path",
    [I + "MeshQuad4.h"], [dict(name="layer construction", where="MeshQuad4.h FineLayer::init"), dict(name="coordinates and connectivity per layer type", where="MeshQuad4.h FineLayer::coor_impl/conn_impl")],
    jobs("c02_finelayer2d", 400, 800, shards=8), deep("c02_finelayer2d", 4000),
    "a refined mesh of a distinct (nx, ny, h, nfine)",
    "Each mesh is checked completely; sizes are sampled with emphasis on divisibility by 3, 9, 27. " + TRUST,
    must_see=["meshes_refined", "meshes_refined_twice", "levels.3", "levels.4"])
CHECKS["C03"] = P(
    "Hexahedral meshes tile their box",
    "For every number of elements and element size, regular and refined hexahedral meshes fill exactly their box with positively oriented elements that share complete faces; no node is duplicated or unused. Refined meshes have cubic elements in the middle, coarsen only outwards and are mirror symmetric.",
    ["inputs"], "all (nx, ny, nz, h, nfine) >= 1",
    "tests check one tiny hard-coded mesh; three coarsening element patterns in two directions are combined differently for each size",
    [I + "MeshHex8.h"], [dict(name="layer construction", where="MeshHex8.h FineLayer::FineLayer"), dict(name="coordinates and connectivity per layer type", where="MeshHex8.h FineLayer::coor_impl/conn_impl")],
    jobs("c03_mesh3d", 240, 300, shards=8), deep("c03_mesh3d", 1500),
    "a mesh of a distinct (type, nx, ny, nz, h, nfine)",
    "Each mesh is checked completely (every face), sizes up to a few thousand elements. " + TRUST,
    must_see=["meshes_refined", "regular_elements", "finelayer_elements"])
CHECKS["C04"] = P(
    "Named boundary node sets are geometrically exact",
    "Every named set of boundary nodes (side, edge, face, corner, with or without end points, under each of its aliases) of every regular or refined mesh contains exactly the nodes at that geometric location, each once, and sets of opposite sides correspond node by node.",
    ["inputs"], "all mesh types and sizes, all named sets",
    "tests compare a few named sets of one or two sizes; there are over a hundred named sets per 3-d mesh type and their index formulas differ per refinement pattern",
    MESH[1:], [dict(name="node set formulas and aliases", where="MeshQuad4.h/MeshTri3.h/MeshHex8.h nodes*_impl, Mesh.h RegularBase2d/RegularBase3d")],
    jobs("c04_nodesets", 1200, 1500, shards=8, san="asan0"), deep("c04_nodesets", 4000),
    "a mesh of a distinct (type, sizes) whose complete family of named sets was compared with the coordinates",
    "All named sets of each generated mesh are compared with a selection by coordinates. " + TRUST,
    must_see=["quad4", "quad4fine", "tri3", "hex8", "hex8fine", "nodes_selected"])
CHECKS["C05"] = P(
    "Periodic node pairs and periodic degrees of freedom match opposite sides",
    "For every mesh with periodic boundaries, each node on a side is paired with exactly the node at the same position on the opposite side and every boundary node is accounted for once; the periodic degrees of freedom identify exactly these pairs and remain contiguous.",
    ["inputs"], "all mesh types and sizes",
    "tests compare the pairs of one small mesh; corner and edge cases of 3-d meshes and refined sides are not covered",
    MESH, [dict(name="construction of the pairs", where="Mesh.h RegularBase2d/RegularBase3d::nodesPeriodic, dofsPeriodic, MeshHex8.h nodesPeriodic_impl")],
    jobs("c05_periodic", 900, 1200, shards=8), deep("c05_periodic", 4000),
    "a mesh of a distinct (type, sizes) whose periodic pairs and DOFs were compared with the coordinates",
    TRUST, must_see=["periodic_pairs"])
CHECKS["C06"] = P(
    "Element selections on refined quad meshes are geometrically exact",
    "Selecting a layer, the middle layer, a rectangular region, the neighbourhood of an element or the elements left and right of an element returns exactly the elements with that geometric relation, wrapping around periodically where documented, and rolling the mesh is an exact periodic shift.",
    ["inputs"], "all refined meshes, all elements, all regions and widths",
    "tests use hard-coded selections of one or two meshes; the index arithmetic depends on the refinement of each layer and on how close the element is to an edge",
    [I + "MeshQuad4.h"], [dict(name="selections", where="MeshQuad4.h FineLayer::elementsLayer, elementgrid_ravel, elementgrid_around_ravel, elementgrid_leftright, roll")],
    jobs("c06_selections", 4000, 5000, shards=8), deep("c06_selections", 8000),
    "a (mesh, element or region) query",
    TRUST, must_see=["layers", "region_nonempty", "region_unaligned_nonempty", "leftright_wraps", "roll", "levels.3"])
CHECKS["C07"] = P(
    "A refined quad mesh is reconstructed exactly from its arrays",
    "Constructing a refined mesh from coordinates and connectivity that describe such a mesh gives back the identical mesh with all its bookkeeping; arrays that do not describe such a mesh are rejected with an exception.",
    ["inputs"], "all refined meshes; all kinds of other meshes and corrupted arrays",
    "tests reconstruct a few sizes; neither rounding of arbitrary element sizes nor rejection is covered",
    [I + "MeshQuad4.h"], [dict(name="reconstruction", where="MeshQuad4.h FineLayer::map(coor, conn), init_by_mapping")],
    jobs("c07_replica", 3600, 4800, shards=8), deep("c07_replica", 8000),
    "a distinct mesh (or corrupted mesh) handed to the reconstruction",
    TRUST, must_see=["refined", "levels.3", "levels.4", "replica.reject", "rejected.single_element", "nfine.accepted", "nfine.refused"] + [f"rejected_{k}" for k in range(10)])
CHECKS["C08"] = P(
    "Maps between coarse and fine meshes are consistent and conserve data",
    "The map from a regular mesh to its refinement assigns to each coarse element exactly the fine elements inside it, and the map from a refined mesh to a regular one uses fractions that are the true area overlaps; mapping data with these maps keeps constants constant and totals conserved, for data of any tensor rank.",
    ["inputs"], "all mesh sizes, refinement factors and data of rank 0, 1, 2",
    "tests map one or two small meshes",
    [I + "MeshQuad4.h"], [dict(name="maps", where="MeshQuad4.h Map::RefineRegular, Map::FineLayer2Regular")],
    jobs("c08_maps", 2400, 3200, shards=8, san="asan0"), deep("c08_maps", 6000),
    "a distinct pair of meshes",
    "One known finding (the refined mesh keeps the coarse element size) is listed, see DESIGN.md. " + TRUST,
    must_see=["refine", "layer2regular", "element_1toN", "levels.3"])
CHECKS["C09"] = P(
    "Combining meshes loses and duplicates nothing",
    "Stitching or stacking any meshes gives one mesh in which every element of every input appears exactly once at its own position, coinciding nodes and only those are merged (if that was asked for), and all maps of nodes, elements and sets lead back to the same geometric entities.",
    ["inputs", "histories"], "all sequences of meshes, positions, overlaps and permutations of nodes",
    "tests stitch two or three meshes with hard-coded overlaps; the order of nodes, repeated interfaces and maps over more than two pieces are not covered",
    [I + "Mesh.h"], [dict(name="stitching", where="Mesh.h ManualStitch, Stitch::push_back, Vstack::push_back, overlapping")],
    jobs("c09_stitch", 4000, 5000, shards=8), deep("c09_stitch", 8000),
    "a distinct sequence of meshes combined",
    TRUST, must_see=["manual", "stitched_pieces", "vstack_layers", "shared_nodes"])
CHECKS["C10"] = P(
    "Renumbering is a contiguous, structure-preserving bijection",
    "Renumbering degrees of freedom to the lowest possible index keeps which entries share a number, keeps their order, leaves no gaps and is idempotent; reordering puts the requested numbers at the end (in the requested order) and only permutes.",
    ["inputs"], "all integer arrays, with gaps, repeats and any partition",
    "tests renumber two small arrays",
    [I + "Mesh.h"], [dict(name="renumbering", where="Mesh.h Renumber, renumber, Reorder")],
    jobs("c10_renumber", 15000, 15000), deep("c10_renumber", 40000),
    "a distinct array (and partition)",
    TRUST, must_see=["renumber_values", "reorder_values"])
CHECKS["C11"] = P(
    "Topology queries agree with the connectivity",
    "The number of elements per node, the list of elements per node (also across periodic boundaries), the nodes per degree of freedom and the tied nodes reported for any connectivity are exactly those found by inspecting the connectivity itself.",
    ["inputs"], "all connectivities, including permuted ones and periodic degrees of freedom",
    "tests query one small mesh",
    [I + "Mesh.h"], [dict(name="topology", where="Mesh.h coordination, elem2node, node2dof, nodaltyings")],
    jobs("c11_topology", 4500, 4500), deep("c11_topology", 20000),
    "a distinct (connectivity, degrees of freedom)",
    TRUST, must_see=["tied_nodes", "permuted", "nodes_without_elements", "tied_without_elements"])
CHECKS["C12"] = P(
    "Geometric queries agree with the element geometry",
    "Edge lengths, element centres, nodal masses, the centre of gravity and the element type deduced from the arrays are those of the actual elements, for distorted elements and any numbering; a map of elements induces the corresponding map of nodes.",
    ["inputs"], "all meshes of the supported element types, distorted or not",
    "tests use regular meshes of unit elements",
    [I + "Mesh.h"], [dict(name="geometry", where="Mesh.h edgesize, centers, nodal_mass, center_of_gravity, defaultElementType, elemmap2nodemap")],
    jobs("c12_geometry", 4800, 4800), deep("c12_geometry", 15000),
    "a distinct mesh geometry",
    TRUST, must_see=["cog_exact", "nodemap"])

# --- vectors ------------------------------------------------------------------------------------
CHECKS["C13"] = P(
    "Switching storage follows the connectivity and never mixes entries",
    "Converting any field between storage per degree of freedom, per node and per element returns for each entry the value of the entry it stands for, for any connectivity, numbering and shared degrees of freedom, for every input container type, and round trips are the identity.",
    ["inputs"], "all connectivities, DOF-numberings, fields and container types",
    "tests convert one small mesh with standard numbering",
    [I + "Vector.h"], [dict(name="gather/scatter", where="Vector.h asDofs_impl*, asNode_impl*, asElement_impl*")],
    jobs("c13_vector", 10000, 10000), deep("c13_vector", 30000),
    "a distinct discretisation",
    TRUST, must_see=["dofs.shared", "containers.xarray"])
CHECKS["C14"] = P(
    "Assembly adds every contribution exactly once",
    "Assembling fields stored per element or per node adds each contribution exactly once to its own degree of freedom (or node), whatever the connectivity, numbering or number of shared entries, so totals are conserved and assembly is the transpose of gathering.",
    ["inputs"], "all connectivities, DOF-numberings and fields",
    "tests assemble one small mesh with a constant field",
    [I + "Vector.h"], [dict(name="assembly", where="Vector.h assembleDofs_impl*, assembleNode_impl*")],
    jobs("c14_assembly", 10000, 10000), deep("c14_assembly", 30000),
    "a distinct discretisation and integer-valued field (sums are exact)",
    TRUST, must_see=["dofs.shared", "contributions"])
CHECKS["C15"] = P(
    "Partitioning splits fields into unknown and prescribed parts without loss",
    "For every set of prescribed degrees of freedom, in any order and including none or all, splitting a field, joining the parts and copying one part between fields keep every entry at its place and touch nothing else.",
    ["inputs"], "all partitions (empty, full, unsorted), DOF-numberings and fields",
    "tests use one sorted partition of one mesh",
    [I + "VectorPartitioned.h"], [dict(name="partition", where="VectorPartitioned.h asDofs_u/p, dofs_from_parts, nodeFromParts, copy_u/copy_p")],
    jobs("c15_vecpart", 10000, 10000), deep("c15_vecpart", 30000),
    "a distinct (discretisation, partition)",
    TRUST, must_see=["iip.empty", "iip.all", "iip.unsorted", "dofs.shared"])
CHECKS["C16"] = P(
    "Periodic ties express dependent degrees of freedom in independent ones",
    "For every set of tied node pairs and control nodes, the tying relations give each dependent node the displacement of its partner plus the prescribed macroscopic deformation times their separation; degrees of freedom are partitioned completely, and condensing loads is the transpose of that relation (virtual work is preserved).",
    ["inputs"], "all periodic meshes, partitions of prescribed degrees of freedom and control deformations",
    "tests compare one small periodic mesh with hard-coded numbers",
    [I + "TyingsPeriodic.h", I + "VectorPartitionedTyings.h"], [dict(name="ties", where="TyingsPeriodic.h Periodic::Cdi/Cdu/Cdp, Control"), dict(name="condensation", where="VectorPartitionedTyings.h asDofs_i, copy_p")],
    jobs("c16_tyings", 6000, 6000), deep("c16_tyings", 15000),
    "a distinct tied discretisation",
    TRUST, must_see=["ties", "iip.unsorted", "virtual_work"])

# --- elements -----------------------------------------------------------------------------------
EL = [I + "Element.h", I + "ElementQuad4.h", I + "ElementQuad4Planar.h", I + "ElementQuad4Axisymmetric.h", I + "ElementHex8.h"]
ELS = ["element.Quad4", "element.Hex8", "element.Quad4Planar", "element.Quad4Axisymmetric", "rule.custom"]
CHECKS["C17"] = P(
    "Gradients of nodal fields are exact on distorted elements",
    "For every valid element shape and every integration rule, the gradient (plain, transposed, symmetric) of a linear nodal field equals the exact gradient at each integration point, and that of any nodal field equals the gradient of its interpolation, for all element types including planar and axisymmetric ones.",
    ["inputs"], "all element geometries with positive Jacobian, all integration rules, all nodal fields",
    "tests use regular meshes whose elements are aligned with the axes, for which several index mistakes cancel",
    EL, [dict(name="shape function gradients", where="Element.h compute_dN_impl and the overrides in ElementQuad4*.h"), dict(name="gradient operators", where="gradN_vector_impl, gradN_vector_T_impl, symGradN_vector_impl")],
    jobs("c17_gradient", 12000, 12000), deep("c17_gradient", 40000),
    "a distinct set of element geometries and integration points",
    TRUST, must_see=ELS)
CHECKS["C18"] = P(
    "Integration-point volumes and interpolation are exact",
    "For every element geometry the integration-point volumes are weight times Jacobian (times thickness or circumference), they sum to the exact element volume for the built-in rules, these rules integrate the polynomials they promise exactly, nodal fields with any number of components are interpolated exactly, and arrays allocated or expanded per integration point have the right shape and content.",
    ["inputs"], "all element geometries, integration rules, numbers of components and tensor ranks",
    "tests check the total volume of regular meshes for the default rule only",
    EL + [I + "Allocate.h"], [dict(name="volumes", where="compute_dN_impl"), dict(name="integration rules", where="ElementQuad4.h Gauss, Nodal, MidPoint; ElementHex8.h Gauss, Nodal"), dict(name="interpolation", where="Element.h interpQuad_vector_impl")],
    jobs("c18_quadrature", 9000, 9000, shards=8, san="asan0"), deep("c18_quadrature", 40000),
    "a distinct set of element geometries and integration points",
    TRUST, must_see=ELS + ["rule_checked.Quad4.MidPoint", "rule_checked.Hex8.Nodal"])
CHECKS["C19"] = P(
    "Internal forces are work-conjugate to the gradient and in equilibrium",
    "For every stress field and element geometry, the nodal forces do the same virtual work as the stress on the gradient of any virtual displacement; they have no net force (nor net moment if the stress is symmetric), and a uniform stress on a conforming mesh leaves no force on interior nodes.",
    ["inputs"], "all element geometries, integration rules and (non-symmetric) stress fields",
    "tests compare one stress state on a regular mesh",
    EL, [dict(name="internal force", where="int_gradN_dot_tensor2_dV_impl in each element header")],
    jobs("c19_force", 12000, 12000), deep("c19_force", 40000),
    "a distinct set of element geometries and integration points, random stress",
    TRUST, must_see=ELS + ["uniform_stress_meshes"])
CHECKS["C20"] = P(
    "Stiffness matrices are the derivative of the internal force",
    "For every material tangent and element geometry, the element stiffness times any nodal displacement equals the internal force of the stress that the tangent gives for that displacement; it is symmetric if the tangent has major symmetry, has the rigid-body motions as null modes and non-negative energy for positive tangents.",
    ["inputs"], "all element geometries, integration rules and fourth-order tensors (with and without symmetries)",
    "tests use one isotropic tangent on a regular mesh, for which index transpositions cancel",
    EL, [dict(name="stiffness", where="int_gradN_dot_tensor4_dot_gradNT_dV_impl in Element.h and ElementQuad4Axisymmetric.h")],
    jobs("c20_stiffness", 6000, 6000), deep("c20_stiffness", 15000),
    "a distinct set of element geometries and integration points, random tangent",
    TRUST, must_see=ELS + ["symmetry0", "symmetry1", "symmetry2", "symmetry3"])
CHECKS["C21"] = P(
    "Mass matrices and distributed loads conserve mass and force",
    "For every density, load and element geometry, the element mass matrix is symmetric, couples only equal directions, contains the total mass per direction, and is diagonal under nodal integration; distributed loads with any number of components sum to the total load and do the same work as the load on the interpolated field.",
    ["inputs"], "all element geometries, integration rules, densities and loads",
    "tests check a constant density on a regular mesh with nodal integration",
    EL, [dict(name="mass", where="int_N_scalar_NT_dV_impl"), dict(name="load", where="Element.h int_N_vector_dV_impl")],
    jobs("c21_mass", 10000, 10000, shards=8, san="asan0"), deep("c21_mass", 30000),
    "a distinct set of element geometries and integration points, random density",
    TRUST, must_see=ELS + ["lumped"])
CHECKS["C22"] = P(
    "Updated positions leave nothing of the old geometry behind",
    "After any sequence of position updates (and copies taken in between), an element object gives the same volumes, gradients, forces and masses as one freshly created on the current positions, and copies keep the positions they had.",
    ["histories", "inputs"], "all sequences of updates, copies and assignments on all element types",
    "tests update positions at most once",
    EL, [dict(name="update", where="Element.h QuadratureBaseCartesian::update_x, compute_dN_impl")],
    jobs("c22_update", 3600, 3600, shards=8, san="asan0"), deep("c22_update", 12000),
    "a distinct history of updates (with its geometries)",
    TRUST, must_see=ELS + ["update", "copy", "back_to_start"])

# --- matrices -----------------------------------------------------------------------------------
CHECKS["C23"] = P(
    "The sparse matrix is the operator its assembly history defines",
    "After any sequence of assembling, setting and adding entries, the matrix multiplied with any vector, and its dense form, equal the plain dense matrix with the same history, for any connectivity and shared degrees of freedom.",
    ["histories", "inputs"], "all sequences of assemble/set/add on all discretisations",
    "tests assemble once on a small mesh and compare one product",
    [I + "Matrix.h"], [dict(name="assembly", where="Matrix.h Matrix::assemble, set, add, dot_*, todense")],
    jobs("c23_matrix", 6000, 6000), deep("c23_matrix", 15000),
    "a distinct (discretisation, history)",
    TRUST, must_see=["op.assemble", "op.set", "op.add", "op.copy", "dofs.shared"])
CHECKS["C24"] = P(
    "A solve always uses the current matrix",
    "Whatever sequence of assembling, modifying, copying and solving preceded, with any number of matrices sharing any number of solvers, each solve returns the solution of the system given by the current content of the matrix it is called with.",
    ["histories"], "all interleavings of modifications, copies and solves over several matrices and solvers, for plain, partitioned, tied and diagonal matrices",
    "tests use one matrix with one solver and a single solve",
    [I + "Matrix.h", I + "MatrixPartitioned.h", I + "MatrixPartitionedTyings.h", I + "MatrixDiagonal.h", I + "MatrixDiagonalPartitioned.h"],
    [dict(name="caching of the factorisation", where="Matrix.h MatrixSolverBase/MatrixBase version, MatrixSolver::factorize, MatrixDiagonal::factorize")],
    jobs("c24_solver", 500, 500, shards=8, san="asan0"), deep("c24_solver", 5000),
    "a distinct history of operations",
    TRUST, must_see=["op.change", "op.solve", "op.copy_matrix"])
CHECKS["C25"] = P(
    "Partitioned matrices and solves satisfy the full system",
    "For every partition in any order, the blocks of a partitioned matrix are those of the unpartitioned matrix, a solve keeps the prescribed entries and balances all unknown ones, and the reaction on the prescribed entries equals the full product.",
    ["inputs", "histories"], "all partitions, discretisations, sequences of assemble/set/add and linear solvers",
    "tests use one sorted partition and one right-hand side",
    [I + "MatrixPartitioned.h", I + "Matrix.h"], [dict(name="blocks", where="MatrixPartitioned.h assemble, set, add"), dict(name="solve and reaction", where="MatrixPartitionedSolver, Matrix.h MatrixPartitionedBase")],
    jobs("c25_matpart", 3000, 3000, shards=8, san="asan0"), deep("c25_matpart", 10000),
    "a distinct (discretisation, partition, history)",
    TRUST, must_see=["iip.empty", "iip.unsorted", "solve.lu", "solve.ldlt"])
CHECKS["C26"] = P(
    "Diagonal matrices agree with the general ones",
    "Assembling, setting, multiplying, solving and computing reactions with a diagonal matrix, partitioned or not, gives what the general sparse matrix with the same diagonal gives, and every entry that is returned is defined.",
    ["inputs", "histories"], "all discretisations, partitions and histories",
    "tests compare one small mesh without partition",
    [I + "MatrixDiagonal.h", I + "MatrixDiagonalPartitioned.h"], [dict(name="diagonal", where="MatrixDiagonal.h, MatrixDiagonalPartitioned.h assemble, dot*, solve*, reaction*")],
    jobs("c26_diagonal", 6000, 6000), deep("c26_diagonal", 15000),
    "a distinct (discretisation, partition, history)",
    TRUST, must_see=["op.assemble", "op.set", "iip.empty", "iip.all", "iip.unsorted"])
CHECKS["C27"] = P(
    "Tied systems are solved as the constrained problem",
    "For every set of ties and prescribed degrees of freedom, and loads on independent and dependent ones alike, the solution satisfies the ties, keeps the prescribed entries and balances the condensed system of the unknown ones.",
    ["inputs"], "all tied discretisations, partitions, loads and linear solvers",
    "tests solve one periodic mesh without loads on dependent degrees of freedom",
    [I + "MatrixPartitionedTyings.h"], [dict(name="elimination", where="MatrixPartitionedTyings.h MatrixPartitionedTyingsSolver::factorize, solve_*")],
    jobs("c27_mattyings", 1000, 1000, shards=8, san="asan0"), deep("c27_mattyings", 8000),
    "a distinct tied system",
    "Ill-conditioned condensed systems are skipped. " + TRUST, must_see=["load.everywhere", "load.unknown_only", "iip.empty", "solve.lu", "solve.ldlt"])

# --- the rest -----------------------------------------------------------------------------------
CHECKS["C28"] = P(
    "Convergence is only reported if all recent residuals are below tolerance",
    "For any sequence of residuals (including infinite and not-a-number ones), resets and window sizes, the monitor holds exactly the last n residuals in order, reports convergence only if each of them really is below the tolerance, and reports a descending sequence only if it is one.",
    ["histories"], "all sequences of residuals, resets, copies and window sizes",
    "tests insert two short finite sequences",
    [I + "Iterate.h"], [dict(name="residual list", where="Iterate.h StopList")],
    jobs("c28_stoplist", 24000, 24000), deep("c28_stoplist", 60000),
    "a distinct sequence of residuals",
    TRUST, must_see=["converged", "with_nan", "reset", "descending"])
CHECKS["C29"] = P(
    "Array helpers and predicates say what is true of the arrays",
    "For arrays of any rank and shape, expanding to tensors repeats each entry over exactly its own block, padding to three dimensions adds zeros only, per-element storage and its assembly follow the connectivity, and the predicates for contiguous numbering, uniqueness and diagonal matrices are true exactly when the array has that property.",
    ["inputs"], "all shapes, ranks, container types and contents, with violations at any position",
    "tests check each predicate on a positive example and the expansion on one shape",
    [I + "Allocate.h", I + "Element.h", I + "assertions.h"], [dict(name="helpers", where="Allocate.h AsTensor, asTensor, as3d; Element.h asElementVector, assembleNodeVector, isSequential, isDiagonal; assertions.h is_unique")],
    jobs("c29_helpers", 12000, 12000, shards=8, san="asan0"), deep("c29_helpers", 40000),
    "a distinct (discretisation, shape)",
    TRUST, must_see=["holes", "sequential", "off_diagonal"])
CHECKS["C30"] = P(
    "Boundary value problems built from the parts are physically right",
    "A problem assembled from mesh, quadrature, vectors, matrices and solver behaves as mechanics demands: uniform strain is reproduced exactly on any mesh, internal forces balance reactions and are self-equilibrated, work and energy agree, periodic averages satisfy the Hill-Mandel condition, and free dynamics conserve momentum and are time reversible. A body follows a rigid displacement of its supports, responses superpose and are reciprocal, and at finite strain the initial and the deformed mesh give the same forces.",
    ["inputs", "histories"], "all element kinds, distorted meshes, material fields, partitions, ties, loads and time-step histories",
    "tests compare each part with stored numbers; none checks that the parts are consistent with each other in a solved problem",
    [I + "Matrix.h", I + "MatrixPartitioned.h", I + "MatrixPartitionedTyings.h", I + "VectorPartitioned.h", I + "VectorPartitionedTyings.h", I + "Element.h", I + "MeshQuad4.h"],
    [dict(name="the chain gradient -> stress -> force -> residual -> solve -> reaction", where="Element.h, Vector*.h, Matrix*.h, Tyings*.h")],
    jobs("c30_problem", 700, 3000, shards=4, san="asan0") + jobs("c30_finite", 800, 4000, shards=4, san="asan0"), deep("c30_problem", 8000) + deep("c30_finite", 12000),
    "a distinct boundary value problem",
    "Linear elastic and neo-Hookean materials; ill-conditioned systems are skipped. " + TRUST,
    must_see=["patch", "patch.interior", "loaded", "periodic.heterogeneous", "dynamics.Quad4", "dynamics.Hex8", "time_steps",
              "supported.determinate", "supported.shared_dofs", "finite.Quad4", "finite.Quad4Planar", "finite.Hex8", "finite.patch", "newton_steps"])
CHECKS["C31"] = P(
    "Operations depend on their arguments only and leave them alone",
    "Every query and operation gives the same result wherever it is called in any interleaving of calls on any number of objects, whether it allocates its result or writes in a caller's buffer and whatever that buffer held before. Arguments are never modified, and objects are not affected by later changes to the arrays they were created from.",
    ["histories", "inputs"], "all interleavings of calls over objects of different size, all previous contents of output buffers (including not-a-number and infinite values)",
    "tests call each function once, on zero-initialised or fresh buffers, with arguments that nobody changes afterwards",
    [I + f for f in ("Vector.h", "VectorPartitioned.h", "VectorPartitionedTyings.h", "Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "Element.h", "Mesh.h", "MeshQuad4.h")],
    [dict(name="initialisation of output buffers", where="all in-place operations: asDofs, asNode, assembleDofs, dot, solve, interpQuad_vector, gradN_vector, int_*"), dict(name="storage of constructor arguments", where="constructors of Vector*, Matrix*, Quadrature*, Stitch")],
    jobs("c31_pure", 1500, 6000, shards=8, san="asan0"), deep("c31_pure", 20000),
    "a distinct order of calls over distinct objects",
    "Results that involve a linear solver or sparse product are compared with a tolerance, all others bit for bit. " + TRUST,
    must_see=["Matrix", "MatrixPartitioned", "MatrixDiagonal", "MatrixDiagonalPartitioned", "Tyings", "Vector", "VectorPartitioned", "element.Quad4", "element.Hex8", "element.Quad4Planar", "element.Quad4Axisymmetric", "mesh.Stitch", "mesh.Quad4::FineLayer", "calls.into",
              "arrays.tyings", "arrays.stack", "arrays.triangles", "arrays.replica", "arrays.helpers", "arrays.assembly"])

# every driver: (name, cases that take about a second in a sanitized unoptimised build)
ALL = dict(
    c01_mesh2d=400, c02_finelayer2d=60, c03_mesh3d=40, c04_nodesets=40, c05_periodic=40, c06_selections=150, c07_replica=100, c08_maps=100,
    c09_stitch=200, c10_renumber=400, c11_topology=200, c12_geometry=300, c13_vector=200, c14_assembly=300, c15_vecpart=300, c16_tyings=300,
    c17_gradient=150, c18_quadrature=300, c19_force=300, c20_stiffness=150, c21_mass=200, c22_update=80, c23_matrix=60, c24_solver=40,
    c25_matpart=40, c26_diagonal=150, c27_mattyings=40, c28_stoplist=1000, c29_helpers=400, c30_problem=60, c31_pure=60,
)


def every(variants, factor=1.0, seed0=50000, shards=2, drivers=None):
    ret = []
    for i, v in enumerate(variants):
        for d in drivers or ALL:
            ret.append(dict(driver=d, variant=v, cases=max(8, int(ALL[d] * factor)), shards=shards, seed_offset=seed0 + 100 * i))
    return ret


CHECKS["C32"] = P(
    "Valid use never reads or writes outside its data",
    "For every valid input and history, no operation of the library reads or writes outside the arrays it works on, uses freed or uninitialised memory, overflows or otherwise depends on undefined behaviour, and every operation terminates.",
    ["inputs", "histories"], "all valid inputs and histories of all classes and functions (the union of all workloads)",
    "tests run without sanitizers on a few inputs: out-of-bounds reads mostly return plausible numbers, uninitialised buffers are mostly zero",
    ["include/GooseFEM/"], [dict(name="unchecked element access", where="all loops: xtensor's operator() has no bounds check in release builds"), dict(name="uninitialised allocation", where="xt::empty, xt::empty_like, from_shape in all allocating functions")],
    every(["asan0", "msan0"]), every(["asan", "msan", "asan0", "msan0"], 20.0, shards=4),
    "a distinct case of any of the workloads",
    "Only reports of the instrumentation (AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, MemorySanitizer, crashes, CPU budget) count here; wrong results belong to the other properties. " + TRUST,
    technique="compiler sanitizers: ASan+UBSan+LSan and MSan builds of all workloads", only_crash=True)

OMP = ["c13_vector", "c14_assembly", "c15_vecpart", "c16_tyings", "c17_gradient", "c18_quadrature", "c19_force", "c20_stiffness", "c21_mass", "c22_update", "c23_matrix", "c25_matpart", "c26_diagonal", "c27_mattyings", "c29_helpers", "c30_problem"]
CHECKS["C35"] = P(
    "Parallel builds link, have no data races and give the serial results",
    "Compiled with OpenMP, the library gives the results of the serial build for any number of threads and any division of its loops, without data races. It can be used from several translation units of one program, serial or parallel, which all obtain the same results.",
    ["schedules", "inputs"], "all numbers of threads and divisions of the loops, all inputs (also those where degrees of freedom are shared), all operations that contain a parallel loop",
    "tests build one translation unit without OpenMP",
    [I + f for f in ("Element.h", "ElementQuad4.h", "ElementHex8.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "Vector.h", "VectorPartitioned.h", "VectorPartitionedTyings.h", "Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h")],
    [dict(name="parallel loops", where="all '#pragma omp' in include/GooseFEM"), dict(name="linkage of functions defined in headers", where="non-template functions in Element.h, Mesh.h, MeshTri3.h, Allocate.h, version.h")],
    every(["omptsan"], 0.6, 60000, 2, OMP) + every(["omp"], 2.0, 61000, 2, ["c13_vector", "c20_stiffness", "c26_diagonal", "c29_helpers"])
    + [dict(driver="c35_link", variant=v, cases=400, shards=1, seed_offset=62000) for v in ("plain", "omp")],
    every(["omptsan", "omp", "ompasan"], 15.0, 60000, 4, OMP) + [dict(driver="c35_link", variant=v, cases=4000, shards=4, seed_offset=62000) for v in ("plain", "omp", "ompasan", "assert", "clang")],
    "a distinct input (each executed with several numbers of threads)",
    "Races are detected by ThreadSanitizer on the code that gcc generates for the OpenMP pragmas, with libgomp replaced by a small runtime on plain threads (harness/omp_shim.h) so that all synchronisation is visible. " + TRUST,
    must_see=["omp.regions", "omp.threads", "units_compared"],
    technique="race detection (ThreadSanitizer under an instrumented OpenMP runtime) and comparison with serial reference results",
    build_is_property=["omp", "omptsan", "plain"])

C33D = dict(c33_vector=300, c33_matrix=150, c33_element=150, c33_mesh=300, c33_mattyings=150)
CHECKS["C33"] = P(
    "Assertion builds refuse malformed arguments before touching memory",
    "With assertions enabled, every operation refuses arguments of a shape or content it cannot handle (wrong sizes, numbers that do not exist, duplicates, off-diagonal terms, inconsistent tyings) with an exception, before it reads or writes out of bounds and without any effect on its object and output. It never refuses well-formed arguments. Checks that do not depend on assertions work in every build.",
    ["inputs"], "all well-formed calls, and all calls of which one argument has the wrong size, rank or content, of all classes",
    "tests contain no malformed calls at all; assertions that are missing, too strict, placed too late or index wrongly go unnoticed",
    ["include/GooseFEM/"], [dict(name="assertions", where="GOOSEFEM_ASSERT in all headers (constructors and *_impl functions)"), dict(name="permanent checks", where="GOOSEFEM_CHECK, GOOSEFEM_REQUIRE and throw statements")],
    [dict(driver=d, variant="assertsan", cases=n, shards=2, seed_offset=70000) for d, n in C33D.items()] + [dict(driver="c33_mesh", variant="plain", cases=600, shards=2, seed_offset=71000)],
    [dict(driver=d, variant="assertsan", cases=n * 40, shards=8, seed_offset=70000) for d, n in C33D.items()] + [dict(driver="c33_mesh", variant="plain", cases=20000, shards=8, seed_offset=71000)],
    "a distinct object with one well-formed and several malformed calls per operation",
    "The library's assertions are on and xtensor's own are off, so that they cannot hide a missing one; ASan watches the reads and writes before the refusal. One argument at a time is malformed. " + TRUST,
    must_see=["malformed_calls", "valid_calls", "prescribed_twice", "prescribed_unknown", "off_diagonal", "blocks", "unknown_rank", "tying_matrices", "not_implemented", "update_x", "asTensor", "another_mesh", "not_in_middle_layer", "not_overlapping"],
    technique="fault injection (malformed arguments) with an exception and no-effect monitor, under ASan+UBSan")

CHECKS["C34"] = P(
    "Threads can share objects that nobody modifies",
    "Any number of threads can call read-only operations (everything but assembling, adding, setting, updating and solving) on the same objects at the same time, without data races and with the results of a serial program. Threads that each work on objects of their own never affect each other.",
    ["schedules", "inputs"], "all schedules of read-only operations on shared objects and of arbitrary operations on private objects",
    "tests are serial",
    ["include/GooseFEM/"], [dict(name="absence of hidden state", where="const operations of all classes; function-local statics (MatrixBase::version)")],
    [dict(driver="c34_threads", variant="tsan", cases=1000, shards=3, seed_offset=80000), dict(driver="c34_threads", variant="plain", cases=1500, shards=3, seed_offset=81000)],
    [dict(driver="c34_threads", variant="tsan", cases=30000, shards=4, seed_offset=80000), dict(driver="c34_threads", variant="plain", cases=60000, shards=4, seed_offset=81000), dict(driver="c34_threads", variant="asan", cases=10000, shards=4, seed_offset=82000)],
    "a distinct set of shared objects with a distinct plan of calls for each thread",
    "Schedules are those that the operating system produces for 2 to 5 threads started together; ThreadSanitizer reports accesses that are not ordered, also when they did not collide. " + TRUST,
    must_see=["objects.shared", "objects.private", "simulations", "mesh", "Vector", "VectorPartitioned", "Matrix", "MatrixPartitioned", "MatrixDiagonal", "MatrixDiagonalPartitioned", "Tyings", "element.Quad4", "element.Hex8"],
    technique="race detection (ThreadSanitizer) and comparison with serial reference results")

CHECKS["C36"] = P(
    "The Python module behaves like the library",
    "Every class and function of the Python module does what the part of the library of the same name does: the same results, objects and refusals for every input, whether arguments are given by position, by keyword or left out, and outputs are written into the array that is passed. Everything that a class inherits is available on it, and a property of one object never depends on another object.",
    ["inputs", "histories"], "all classes, functions, properties, keywords, defaults and overloads that python/ registers, with the inputs and histories of the other properties",
    "the Python module is not part of the tested build; a binding to the wrong member, a swapped keyword or a wrong default compiles",
    ["python/"], [dict(name="bindings", where="python/*.hpp and python/main.cpp: .def, .def_property_readonly, py::arg, py::init, inheritance in py::class_")],
    [dict(driver="c36_python", variant="asan0", cases=2400, shards=6, seed_offset=90000)],
    [dict(driver="c36_python", variant="asan0", cases=80000, shards=8, seed_offset=91000), dict(driver="c36_python", variant="plain", cases=160000, shards=8, seed_offset=92000)],
    "a distinct set of objects made through the module, with every member called",
    "The bindings are compiled against a stand-in for pybind11 and xtensor-python (neither is installed) that records what is registered and calls it with pybind11's rules for overloads, keywords, defaults and inheritance; conversions and lifetimes of the real pybind11 are not observed. " + TRUST,
    must_see=["outputs_written", "arguments.keyword", "arguments.positional", "defaults_omitted", "inherited", "refused_by_both", "manual.accepted", "manual.refused", "stack.accepted", "stack.refused", "replica", "tyings.matrix", "geometry", "reorder.1", "reorder.2", "reorder.3", "reorder.4", "properties.set", "rule.default", "rule.custom", "rule.Nodal", "rule.MidPoint",
              "class.Element.Hex8.Quadrature", "class.Element.Quad4.Quadrature", "class.Element.Quad4.QuadratureAxisymmetric", "class.Element.Quad4.QuadraturePlanar", "class.Iterate.StopList", "class.Matrix", "class.MatrixDiagonal", "class.MatrixDiagonalPartitioned", "class.MatrixPartitioned", "class.MatrixPartitionedSolver", "class.MatrixPartitionedTyings", "class.MatrixPartitionedTyingsSolver", "class.MatrixSolver", "class.Mesh.Hex8.FineLayer", "class.Mesh.Hex8.Regular", "class.Mesh.ManualStitch", "class.Mesh.Quad4.FineLayer", "class.Mesh.Quad4.Map.FineLayer2Regular", "class.Mesh.Quad4.Map.RefineRegular", "class.Mesh.Quad4.Regular", "class.Mesh.Renumber", "class.Mesh.Reorder", "class.Mesh.Stitch", "class.Mesh.Tri3.Regular", "class.Mesh.Vstack", "class.Tyings.Control", "class.Tyings.Periodic", "class.Vector", "class.VectorPartitioned", "class.VectorPartitionedTyings"],
    technique="differential monitoring of the registered bindings against the library, under ASan+UBSan")
CHECKS["C37"] = P(
    "Results do not depend on how arrays are stored",
    "Every function and object gives the same results for the same values, however the arrays passed to it are stored: row by row or column by column, contiguous, or as every n-th item or transpose of a bigger array. This holds for all arguments, including those of constructors, and for the buffers in which results are written, of which nothing but the items themselves is touched.",
    ["inputs"], "all values, shapes and strides of the arguments and of the output buffers, for all functions of the C++ interface and with the arrays of the Python module",
    "tests pass contiguous row-major arrays only; Fortran-ordered, transposed and sliced NumPy arrays reach the same code through the Python module",
    [I + f for f in ("Allocate.h", "Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h", "Vector.h", "VectorPartitioned.h", "VectorPartitionedTyings.h", "Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "Mesh.h", "MeshQuad4.h", "TyingsPeriodic.h", "detail.h")],
    [dict(name="functions that work on raw memory", where="ElementQuad4*.h, ElementHex8.h and Element.h: *_impl with xt::adapt(&array(e, 0, 0)); detail::call_row_major"), dict(name="exchange with Eigen", where="Matrix.h, MatrixPartitioned.h, MatrixPartitionedTyings.h: dot, solve, reaction"), dict(name="broadcast to tensors", where="Allocate.h: asTensor")],
    [dict(driver="c37_layout", variant="asan0", cases=1600, shards=6), dict(driver="c37_quadrature", variant="asan0", cases=600, shards=4, seed_offset=1000), dict(driver="c37_mesh", variant="asan0", cases=800, shards=4, seed_offset=2000)],
    deep("c37_layout", 20000) + deep("c37_quadrature", 8000) + deep("c37_mesh", 8000),
    "a distinct set of objects and arguments, stored in several ways",
    "For the arrays of the Python module the library is compiled with xtensor arrays of run-time strides in place of xtensor-python (not installed); negative strides are not generated. Views and expressions are passed to the functions that accept them. " + TRUST,
    must_see=["Matrix", "MatrixPartitioned", "MatrixDiagonal", "MatrixDiagonalPartitioned", "Tyings", "Vector", "VectorPartitioned", "element.Quad4", "element.Hex8", "element.Quad4Planar", "element.Quad4Axisymmetric", "mesh.Stitch", "mesh.Quad4::FineLayer",
              "arrays.tyings", "arrays.stack", "arrays.triangles", "arrays.replica", "arrays.helpers", "arrays.assembly", "calls.into", "buffers_with_gaps",
              "storage.column_major", "storage.permuted", "storage.gaps", "storage.permuted_gaps", "in.column_major", "in.xarray", "in.xarray_column_major", "in.view", "in.expression", "out.column_major", "out.view", "out.xarray", "out.xarray_column_major", "gaps"],
    technique="differential monitoring: the same calls with the same values stored differently, under ASan+UBSan, memory between the items poisoned")
CHECKS["C38"] = P(
    "What holds for small problems holds for large ones",
    "The guarantees do not depend on size: with more nodes, elements and degrees of freedom than 65536, meshes, numbering, topology, geometric queries, vectors, matrices, quadrature, maps between meshes, tyings and iteration history satisfy the same specifications as small ones.",
    ["inputs"], "all problems of any size that fits in memory (observed: up to a few 100 000 nodes, elements and DOFs)",
    "the tests use meshes of at most a few hundred elements: a counter that is too narrow, a tile that is left out or a tolerance that does not scale goes unnoticed",
    MESH + [I + f for f in ("Vector.h", "VectorPartitioned.h", "Matrix.h", "MatrixPartitioned.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h", "TyingsPeriodic.h", "Iterate.h")],
    [dict(name="numbering", where="Mesh.h: Renumber, Reorder, elem2node, node2dof, nodaltyings"), dict(name="counters", where="MeshQuad4.h, MeshTri3.h, MeshHex8.h: start indices of layers; maps"), dict(name="loops over elements", where="Vector.h, Matrix*.h, Element*.h")],
    [dict(driver="c38_large", variant="plain", cases=800, shards=8), dict(driver="c38_large", variant="asan", cases=64, shards=8, seed_offset=1000)],
    [dict(driver="c38_large", variant="plain", cases=6000, shards=8, seed_offset=10000), dict(driver="c38_large", variant="fast", cases=4000, shards=8, seed_offset=20000), dict(driver="c38_large", variant="asan", cases=1200, shards=8, seed_offset=30000), dict(driver="c38_large", variant="assert", cases=600, shards=8, seed_offset=40000)],
    "a distinct large problem",
    "Sizes of 2^32 and more are out of reach. " + TRUST,
    must_see=["large.quad", "large.tri", "large.fine", "large.hex", "large.hexfine", "large.numbering", "large.geometry", "large.vectors", "large.Matrix", "large.MatrixPartitioned", "large.MatrixDiagonal", "large.MatrixDiagonalPartitioned", "large.Quad4", "large.Hex8", "large.Planar", "large.Axisymmetric", "large.refine", "large.fine2regular", "large.ties", "large.StopList", "fine_beyond_16_bits", "regular_beyond_16_bits"],
    technique="monitoring of large problems with oracles of linear cost, partly under ASan+UBSan")
