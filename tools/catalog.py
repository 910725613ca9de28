"""Which harness decides which property, how it is built, and what in it is real."""
SIMFLAGS = ["-O1", "-g", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG"]
JB = ["libdiskpp/contrib/jburkardt/src/%s.cpp" % f for f in ("jb_common", "simplex_gm_rule", "tetrahedron_arbq_rule", "triangle_dunavant_rule")]
HARNESSES = {
    "h_load": {"tus": ["h_load.cpp"], "repo_srcs": ["libdiskpp/src/common/mapped_file.cpp"], "flags": SIMFLAGS},
    "h_thread": {"tus": ["h_thread.cpp"], "repo_srcs": ["libdiskpp/src/common/mapped_file.cpp"], "flags": SIMFLAGS},
    "h_ops": {"tus": ["h_ops.cpp"] + [["ops_mesh.cpp", "-DMESH=%d" % k] for k in (4, 0, 1, 5, 2, 3)], "repo_srcs": ["libdiskpp/src/common/mapped_file.cpp", "libdiskpp/contrib/triangle/triangle_mesher.c"] + JB,
              "flags": [f if f != "-g" else "-g1" for f in SIMFLAGS], "src_flags": SIMFLAGS + ["-DTRILIBRARY", "-DREDUCED", "-DCDT_ONLY"]},
    # what is judged keeps the shipped optimization flags; the judge does not
    "h_newton": {"tus": [["newton_mesh.cpp", "-DMESH=%d" % k, "-O3", "-ffast-math", "-DHAVE_INTEL_MKL", "-fsanitize-coverage=trace-pc"] for k in (3, 2, 0, 1)] + [["h_newton.cpp", "-O1"]], "repo_srcs": ["libdiskpp/contrib/triangle/triangle_mesher.c"] + JB,
                 "flags": ["-g1", "-DNDEBUG"], "src_flags": ["-O2", "-DNDEBUG", "-DTRILIBRARY", "-DREDUCED", "-DCDT_ONLY"], "instrument": False},
}
HARNESSES["h_param"] = {"tus": ["h_param.cpp"], "repo_srcs": [], "flags": SIMFLAGS}
HARNESSES["h_solver"] = {"tus": [["solver_tu.cpp", "-O3", "-ffast-math", "-DHAVE_INTEL_MKL", "-DHAVE_AGMG", "-fsanitize-coverage=trace-pc"], ["h_solver.cpp", "-O1"]], "repo_srcs": [], "flags": ["-g1", "-DNDEBUG"], "instrument": False}
HARNESSES["h_qp"] = {"tus": [["qp_tu.cpp", "-DQDIM=3", "-ffast-math"], ["qp_tu.cpp", "-DQDIM=2", "-ffast-math"], "h_qp.cpp"], "repo_srcs": ["libdiskpp/contrib/triangle/triangle_mesher.c"] + JB, "flags": [f if f != "-g" else "-g1" for f in SIMFLAGS], "src_flags": SIMFLAGS + ["-DTRILIBRARY", "-DREDUCED", "-DCDT_ONLY"]}
HARNESSES["h_silo"] = {"tus": ["h_silo.cpp"], "repo_srcs": ["libdiskpp/src/common/mapped_file.cpp", "libdiskpp/contrib/triangle/triangle_mesher.c"], "flags": SIMFLAGS, "src_flags": SIMFLAGS + ["-DTRILIBRARY", "-DREDUCED", "-DCDT_ONLY"], "libs": ["-lsiloh5"]}
HARNESSES["h_gen"] = {"tus": ["h_gen.cpp"], "repo_srcs": ["libdiskpp/src/common/mapped_file.cpp", "libdiskpp/contrib/triangle/triangle_mesher.c"], "flags": SIMFLAGS, "src_flags": SIMFLAGS + ["-DTRILIBRARY", "-DREDUCED", "-DCDT_ONLY"]}
HARNESSES["h_asm"] = {"tus": [["asm_tu.cpp", "-DMESH=%d" % k] for k in (3, 2, 1, 0, 4)] + ["h_asm.cpp"], "repo_srcs": ["libdiskpp/src/common/mapped_file.cpp", "libdiskpp/contrib/triangle/triangle_mesher.c"] + JB, "flags": [f if f != "-g" else "-g1" for f in SIMFLAGS], "src_flags": SIMFLAGS + ["-DTRILIBRARY", "-DREDUCED", "-DCDT_ONLY"]}
COMPONENTS = {
    "h_load": {"real": ["loaders of all formats", "mapped_file", "mesh data structures", "mesh dispatch", "dump_netgen_format", "std::thread workers (scheduled one at a time)", "libstdc++ streams"],
               "simulated": ["open/read/write/fstat/mmap/munmap/close", "page protection around mappings", "malloc", "pthread scheduling", "clocks"], "stubbed": ["sol2 (Lua binding, not used here)"]},
    "h_thread": {"real": ["Netgen, cartesian, FVCA5, Medit and poly loaders", "simple_mesher, fvca5_hex_mesher, mesh_hierarchy", "disk::priv::worker / THREAD / WAIT_THREAD", "mesh data structures", "std::thread"],
                 "simulated": ["pthread scheduling and thread creation", "malloc", "file system calls", "clocks"], "stubbed": ["sol2 (Lua binding, not used here)"]},
    "h_ops": {"real": ["geometry, quadratures, bases, projections", "HHO reconstructions, stabilizations, condensation (scalar, vector, matrix, curl)", "VEM, DGA, conforming FEM and new-style HHO local operators", "Triangle (C)", "Eigen", "mesh generators and loaders"],
              "simulated": ["pthread scheduling", "malloc", "file system calls", "clocks"], "stubbed": ["sol2 (Lua binding, not used here)"]},
    "h_newton": {"real": ["NewtonSolver, NewtonStep, NewtonIteration, TimeManager, StabilizationManager, timecounter", "material laws (Hooke, isotropic/kinematic hardening, von Mises, Hencky-Mises, logarithmic strain, neo-Hookean, cavitation)", "HHO operators, condensation and assembly", "boundary conditions", "mkl_pardiso wrapper", "mesh generators", "post-processing", "Eigen", "compiled with the shipped -O3 -ffast-math"],
                 "simulated": ["clocks", "malloc", "file system calls"], "stubbed": ["Intel MKL Pardiso (Eigen SparseLU that fails on demand)", "gmsh_tools (text writer)"]},
}
COMPONENTS["h_param"] = {"real": ["NewtonSolverParameter", "libstdc++ streams"], "simulated": ["open/read/close", "malloc", "clocks"], "stubbed": []}
COMPONENTS["h_solver"] = {"real": ["conjugated_gradient, mkl_pardiso, mkl_pardiso_ldlt, linear_solver, agmg_solver", "feast, generalized_eigenvalue_solver, eigen_sparse_raw", "Eigen, libstdc++ streams", "compiled with the shipped -O3 -ffast-math"], "simulated": ["open/write/close", "malloc", "random start vectors (seeded)"], "stubbed": ["Intel MKL Pardiso and external FEAST, AGMG (dense or Eigen solvers that fail on demand)", "sol2 (tree of options)"]}
COMPONENTS["h_qp"] = {"real": ["Behavior, LawTypeBones, LawTypeCellBones, every quadrature-point law except MFront", "LogarithmicStrain", "MaterialData", "quadratures, mesh generators, Eigen", "std::thread workers (scheduled one at a time)"], "simulated": ["pthread scheduling", "malloc"], "stubbed": []}
COMPONENTS["h_silo"] = {"real": ["silo_database, silo_variable", "Silo library (PDB driver)", "mesh data structures, generators and loaders"], "simulated": ["files of the database", "failures reported by every Silo entry point", "malloc outside the Silo library"], "stubbed": ["sol2 (Lua binding, not used here)"]}
COMPONENTS["h_asm"] = {"real": ["every assembler of libdiskpp (diffusion, scalar and vector primal, mechanics, Stokes, basic condensed, discontinuous Galerkin)", "BoundaryConditions, MeshDegreeInfo", "projections, bases, quadratures, Eigen", "mesh loaders and data structures", "std::thread worker tasks (scheduled one at a time)"], "simulated": ["pthread scheduling", "malloc", "file system calls"], "stubbed": ["sol2 (Lua binding, not used here)"]}
COMPONENTS["h_gen"] = {"real": ["simple_mesher (triangles, tetrahedra, quadrangles), fvca5_hex_mesher, uniform_mesh_loader, make_single_element_mesh, load_single_element_csv", "mesh_hierarchy", "Netgen loader", "mesh data structures", "std::thread (scheduled one at a time)"], "simulated": ["pthread scheduling", "malloc", "file system calls"], "stubbed": ["sol2 (Lua binding, not used here)"]}
A_FILES = "Files are regular files delivered by read/mmap; file-system metadata operations are atomic."
A_SEQ = "Threads interleave at instrumented memory accesses under sequential consistency; weaker memory effects are covered through the race detector only."
A_AMBIG = "Damaged files whose meaning the format does not define (duplicated cells, non-convex cells with the unit-square convention, numbers that overflow, ...) are judged for termination and memory safety, not for the mesh."
A_NEWTON = "Attempts are told apart by the end times the load function is called with; the linear solver is a stand-in for Intel MKL Pardiso that solves exactly unless told to fail; only std::invalid_argument is thrown by failing laws and loads, as the shipped laws do."
PROPS = {
    "C01": {"harness": "h_load", "assumptions": [A_FILES, A_SEQ], "rule": "A plan is one or two generated well-formed files of any of the ten formats (random topology, numbering, layout, size relative to the page size), each loaded under short, interrupted and slow reads and preempted workers, and compared with the reference model through the public mesh interface."},
    "C02": {"harness": "h_load", "assumptions": [A_FILES, A_SEQ, A_AMBIG], "rule": "A plan is a generated file, possibly damaged (cut, torn, overwritten, renumbered), loaded while open/fstat/mmap/read fail or end early; the reference reader decides from the bytes that were visible whether success was allowed, and with which mesh."},
    "C03": {"harness": "h_load", "assumptions": [A_FILES, A_SEQ], "rule": "As C02 with more damage and failing allocations; judged by process death, invalid memory accesses (checked heap, guarded mappings), an instrumented-step budget linear in the file size, and threads left behind."},
    "C04": {"harness": "h_load", "assumptions": [A_FILES], "rule": "A plan is a history of 2 to 14 operations on up to three mapped_file objects (construct, open, re-open, close, destroy, mem, get_line, end) and loads, with failing open/fstat/mmap/close/allocation; judged by the simulated kernel's resource ledger and a reference line reader."},
    "C05": {"harness": "h_load", "assumptions": [A_FILES, A_SEQ, A_AMBIG], "rule": "A plan is a history of up to five loads (damaged files, faults, same or different loader and mesh objects), after which faults stop and a good file is loaded and compared with the reference model."},
    "C06": {"harness": "h_load", "assumptions": [A_FILES, A_AMBIG], "rule": "A plan dispatches one or two files under varied names with user functions that return or throw; judged by a call ledger and the mesh the function saw."},
    "C07": {"harness": "h_thread", "assumptions": [A_SEQ], "rule": "A plan loads meshes with the threaded loaders, loads two files from two callers at once, or generates meshes from two callers at once, under up to nine preemptions placed at instrumented memory accesses and a seeded choice of the next thread; judged by a vector-clock race detector, thread accounting, and the reference model (generated meshes: the mesh generated alone)."},
    "C08": {"harness": "h_thread", "assumptions": [A_SEQ], "rule": "As C07 without concurrent callers, with refused thread starts and allocations; afterwards faults stop, everything is repeated and must be right."},
    "C09": {"harness": "h_ops", "assumptions": [A_SEQ], "rule": "A plan shares one mesh (six kinds, non-convex cells included) between two to five threads, each calling up to two of about thirty read-only operations on seeded cells and degrees, under up to twelve preemptions and sometimes a failing allocation in one caller; judged by a vector-clock race detector, bitwise comparison with the same call alone on a fresh mesh, and the mesh being unchanged."},
    "C10": {"harness": "h_asm", "assumptions": [A_SEQ, "Assemblers are not thread-safe: tasks hand in contributions under a lock, as an application must; which task comes next is decided by the scheduler.", "Assemblers defined inside applications are not covered."], "rule": "A plan is a mesh, one of seventeen kinds of assembler use with generated boundary conditions (full, partial and overriding Dirichlet, Neumann, Robin, contact, per-face degrees), and a history of up to six rounds of integer-valued contributions handed in by up to four worker tasks in scheduled order, aborted by failing allocations, throwing boundary functions or at will, and restarted by re-initialization (whole, matrix only, right-hand side only) or construction; judged by an uncompressed model of the system and by every local and expanded solution."},
    "C11": {"harness": "h_newton", "assumptions": [A_NEWTON], "rule": "A plan is a history of splits and acceptances on a list of time steps with arbitrary times, and a small nonlinear problem whose load throws or returns NaN in chosen windows of time or whose linear solver fails at chosen calls; judged by a reference stack of time steps driven by the end times the load function saw, and by the counters."},
    "C12": {"harness": "h_newton", "assumptions": [A_NEWTON], "rule": "A plan is a small static or dynamic problem (four kinds of meshes, six laws, three deformation measures) with one to four failures of the law, the load or one of the three phases of the linear solver, besides failures that come from too few iterations; the final state (eight result sets, plastic strains and stabilization coefficients included) is compared with a fault-free run that takes the accepted steps directly."},
    "C13": {"harness": "h_newton", "assumptions": [A_NEWTON], "rule": "As C12 with NaN, infinite, damaged or vanishing answers of the linear solver and load, transient or permanent; accepted steps are checked against the increment criterion on the very vectors the linear solver returned, against the fully converged solution, and, for linear patch problems, against the exact one."},
    "C14": {"harness": "h_newton", "assumptions": [A_NEWTON], "rule": "As C12 with failures that last for chosen numbers of attempts or forever; attempts, iterations and levels are counted from outside, and every attempt without a fault that was rejected must also fail in a fault-free run."},
    "C15": {"harness": "h_newton", "assumptions": [A_NEWTON], "rule": "As C12; the time the load function sees in every attempt is compared with the reference stack, and elastic end states after rejections, or after a second solve, are compared with those of one single step to that time and with the exact solution."},
    "C16": {"harness": "h_qp", "assumptions": [A_SEQ, "MFront laws are not built (MGIS is not installed).", "Small strains above 10, nearly singular deformations and hydrostatic states 1e5 times the plastic flow may be refused; hardening curves start at p = 0 and do not soften."], "rule": "A plan is a history of up to sixty evaluations (any strain, refused ones included), commits and copies on up to six quadrature points of a law, distributed over up to four tasks with preemptions and failing allocations; judged against the same law replayed from its committed strains only, and against an independent model of every law."},
    "C17": {"harness": "h_param", "assumptions": [A_FILES, "A word that names no known choice of an option (e.g. StabType HH0, as in the shipped PFS.dat) may be refused or ignored; values glued together without a blank may be refused or read as stream extraction reads them."], "rule": "A plan is a history of up to six reads of generated parameter files (damaged, torn, with impossible counts) into up to two objects, delivered in chunks, cut or failing at any read, with failing opens, closes and allocations; judged by two reference readers on the bytes that were visible."},
    "C18": {"harness": "h_solver", "assumptions": ["The back ends (Pardiso, AGMG) are stand-ins that solve exactly unless told to fail, as MKL and the AGMG library are not installed.", "Right-hand sides whose squares overflow or vanish are judged for termination and finiteness only."], "rule": "A plan is a history of up to eight solves (conjugate gradient, LU and LDLT Pardiso, AGMG, directly and through linear_solver options) of generated systems (definite, indefinite, singular, badly scaled, with numbers that are not finite, of wrong sizes) with right-hand sides that may be zero, while phases of the back ends, allocations and the writes of the iteration history fail; judged by true residuals, iteration counts from the history, equality with the run without history, and the caller's matrix."},
    "C19": {"harness": "h_newton", "assumptions": [A_NEWTON], "rule": "As C12 with up to five requested save times and failing opens, writes and closes of the result files; judged by the sequence of saved files against a reference schedule and their contents against fault-free runs cut at that time."},
    "C20": {"harness": "h_silo", "assumptions": ["Failures of the disk are those the Silo library reports: its PDB driver hides some write errors (and damages its own heap on others), which no caller can see."], "rule": "A plan is a history of up to twenty-four create, open, close, destroy, mesh, variable and expression operations on up to two database objects and four files, with the Silo entry points refusing or failing late at chosen calls, failing opens and failing allocations; judged by reading every file back through the Silo library and by a ledger of database handles, descriptors and option lists."},
    "C21": {"harness": "h_newton", "assumptions": [A_NEWTON], "rule": "A plan is a history of timer operations under arbitrary clock advances and wall-clock jumps, and a nonlinear solve whose load and linear solver take simulated time; judged by a timer model and by inequalities between the reported times."},
    "C22": {"harness": "h_load", "assumptions": [A_FILES], "rule": "A plan dumps a loaded 2D simplicial mesh, possibly over an older dump, under write errors, a full disk or a crash after any byte, and reloads what is on disk."},
    "C23": {"harness": "h_solver", "assumptions": ["Completeness of the returned eigenvalues is judged for spectra separated from the ends of the interval.", "The external FEAST is a stand-in."], "rule": "A plan is one to four generalized eigenvalue problems of known spectrum solved from seeded random subspaces with chosen intervals, subspace sizes, tolerances and iteration limits, under failing allocations, or handed to a stand-in of the external FEAST that fails on demand; judged by residuals, the known spectrum, the status and the caller's matrices."},
    "C24": {"harness": "h_gen", "assumptions": ["Points within a relative distance of 1e-9 of the boundary of the domain may be reported as outside."], "rule": "A plan is up to three triangle meshes (generated and mapped affinely, or loaded) and a history of up to eight builds of a hierarchy on one object, under failing allocations, and point locations (inside, on edges and vertices of any level, a rounding error beside an edge, outside, levels that do not exist); judged by an independent refinement and by the triangles returned."},
    "C33": {"harness": "h_gen", "assumptions": [A_SEQ, "Mesh objects are handles: a mesh is not refined while a copy of it is in use."], "rule": "A plan is up to four meshes made and refined, re-made and mapped affinely in up to three threads at once (six generators, six single elements, polygons read from CSV files), with preemptions, failing allocations, short or failing reads; judged by a conformity checker (proper cells covering the domain, every face shared by two cells or flagged with the number of its side, nothing unused or twice) and by equality with the mesh made alone."},
}
