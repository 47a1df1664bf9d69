import json
P=[]
OV={'S01': ['schedules', 'configurations', 'inputs'], 'S02': ['schedules', 'histories', 'fault_sequences'], 'S03': ['schedules', 'fault_sequences', 'configurations'], 'S04': ['schedules', 'inputs'], 'S05': ['schedules', 'inputs', 'configurations'], 'S06': ['inputs', 'fault_sequences', 'crash_points'], 'S07': ['fault_sequences', 'crash_points'], 'S08': ['fault_sequences', 'crash_points', 'inputs'], 'S09': ['schedules', 'fault_sequences'], 'S10': ['fault_sequences', 'inputs'], 'S11': ['fault_sequences', 'inputs'], 'S12': ['fault_sequences', 'inputs', 'configurations'], 'S13': ['fault_sequences', 'inputs'], 'S14': ['histories', 'inputs', 'fault_sequences'], 'S15': ['fault_sequences', 'histories'], 'S16': ['configurations', 'schedules', 'histories'], 'S17': ['histories', 'inputs'], 'S18': ['crash_points', 'fault_sequences', 'histories']}
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":OV.get(id,over),"text":qtext},"why_tests_cant":why,"anchors":a})

G="src/fem_problem/galerkin.rs"; L="src/fem_problem/linalg.rs"; SM="src/fem_problem/linalg/sparse_matrix.rs"; SL="src/fem_problem/linalg/slepc_solve.rs"
B="src/fem_domain/basis.rs"; D="src/fem_domain/domain.rs"; M="src/fem_domain/domain/mesh.rs"; F="src/fem_domain/domain/fields.rs"; H="src/fem_domain/domain/mesh/h_refinement.rs"; PR="src/fem_domain/domain/mesh/p_refinement.rs"; E="src/fem_domain/domain/mesh/elem.rs"; ED="src/fem_domain/domain/mesh/edge.rs"

p("S01","Parallel assembly integrates every overlapping basis pair exactly once",
 "For any refined H(Curl) domain, pool size and thread schedule, system assembly returns two square symmetric matrices of the number of degrees of freedom whose entries are exactly the sums, over all elements, of the integral of each unordered pair of basis functions on that element once, plus the integral of each basis function of the element with each basis function of each of its strict descendants once (sampled over the descendant, with the element's materials). No contribution is lost, duplicated, taken from the wrong element or added to the wrong degree of freedom, and assembly always completes, also when the basis space or the integrals use the thread pool themselves. Domains without degrees of freedom, with another continuity condition or with too few quadrature points are refused with an error.",
 ["thread schedules","thread-pool sizes","nested use of the pool","meshes and refinement histories","polynomial orders","quadrature settings"],
 "every interleaving of the pool's workers at basic-block granularity, for every mesh, refinement and expansion order",
 "a test runs one mesh under whatever schedule the machine happens to give; lost or doubled contributions appear only for particular orders of completion, pool sizes and refinement shapes",
 [G,L,SM,B,D],[("galerkin_sample_gep_hcurl per-element closure",G),("GEP::par_extend",L),("Domain::descendant_basis_specs",D)],["returned GEP matrices"])
p("S02","Shared basis-sample cache returns the right sample under any interleaving",
 "Whenever several threads sample basis functions through clones of one shared sampler, each call returns a sample equal to the one computed directly for exactly that element (and exactly that descendant, if one is given), whatever other threads request, insert or are in the middle of computing, however many elements have been sampled before, and every call finishes. If computing one sample panics, only that call panics: the sampler stays usable and later and concurrent calls, for the same or other elements, still return correct samples.",
 ["thread schedules","request sequences","panic points"],"every interleaving of requests from any number of clones, and every point at which a sample's computation panics",
 "the cache is exercised by tests only through one assembly on one schedule, never with a panic in flight or with checks on what each call got",
 [B],[("BasisFnSampler::sample_basis_fn","%s"%B),("poisoned-lock fallback",B)],["returned samples"],[("computed","cache from sample description to shared sample",B)])
p("S03","A panic during assembly reaches the caller and leaves nothing behind",
 "If a user-supplied basis space or integral panics on any element, at any call and under any schedule, the assembly call panics in its caller (it never returns a partially filled system and never hangs), and the domain and thread pool stay usable: the next assembly of the same domain on the same pool is complete and correct.",
 ["panic points","thread schedules","thread-pool sizes"],"every callback invocation at which a panic can occur, alone or on several workers at once, under every interleaving",
 "no test injects a panic into the workers; the outcome depends on which other workers are running, sending or waiting on the cache lock at that moment",
 [G,L,B],[("for_each_with channel sender",L),("sampler lock poisoning",B)],["panic at the caller","result of the next assembly"])
p("S04","Concurrent assemblies and readers of shared domains do not interfere",
 "When several threads assemble systems from the same or different domains at once, on one shared pool and while other threads read the same domains, evaluate fields on them or sample bases, every assembly returns exactly the system it would return alone, every reader gets the same answers as on a quiescent system, and everyone finishes, also when their basis spaces and integrals use the pool.",
 ["thread schedules","numbers of clients","domains"],"every interleaving of any mix of assembling and reading clients",
 "tests run each assembly on its own; cross-talk through shared caches, channels or pool work-stealing needs a particular overlap",
 [G,L,B,D,F],[("per-call channel and cache",L),("work stealing across nested jobs",G)],["returned systems and values"])
p("S05","Parallel accumulation adds every sub-matrix pair exactly once",
 "Extending an eigenproblem in parallel from any source of sub-matrix pairs (of any length, emptiness, order, granularity or parallel iterator kind, repeatedly, onto empty or filled matrices) adds each entry of each pair exactly once to the matching matrix, keeps the A and B sides apart, keeps what was there before, and leaves symmetric matrices listed once per coordinate in ascending order, whatever the dimension. A source that panics makes that call panic in its caller and affects no other extension, later or concurrent.",
 ["thread schedules","source shapes","thread-pool sizes"],"every interleaving of producers with the accumulator and every source shape",
 "unit tests merge two fixed matrices on one thread",
 [L,SM],[("GEP::par_extend",L),("SparseMatrix::insert / insert_group / consume_matrix",SM)],["matrix entries"])
p("S06","An external solve succeeds only with this problem's complete solution",
 "The external solver call returns success only if the solver process succeeded and both solution files are present and well formed for this problem; it then returns exactly the eigenvalue and the eigenvector (one component per degree of freedom, in order) that the solver wrote. Missing, torn, empty, corrupt, mislabelled or wrong-length solution files, and I/O errors while reading them, give an error: never a panic, an abort, a hang or a made-up solution, and interrupted or partial reads never change the answer.",
 ["solver outputs and their damage points","I/O faults","thread schedules"],"every truncation point and corruption of either solution file, every failing, short or interrupted read",
 "the external solver is not even installed where the tests run, so no path after the solver's exit is ever executed by them",
 [SL],[("retrieve_eigenvector / retrieve_eigenvalue",SL)],["returned Result"])
p("S07","Every solver failure is reported as the matching error",
 "When the solver directory variable is unset, the solver cannot be started or awaited, or the solver exits with a failure code or is killed by a signal, the call returns an error, never success, a panic or a hang; the documented exit codes 1, 2, 3, 4-6, 7 and 8 give their own error kinds, any other code or signal the unknown-error kind, and failure to start the kind for failed execution, whether or not the solver left output files behind. The solver is started with the problem's own prefix and target, in the configured directory and with the environment of the caller, and is waited for however long it runs.",
 ["exit codes and signals","spawn and wait faults","process crash points"],"every exit status, every point at which the solver dies and every failing process call",
 "tests have no solver to fail; each exit path needs a controlled child process",
 [SL],[("exit status mapping",SL),("Command invocation",SL)],["returned error","solver command line"])
p("S08","A solve leaves no files behind and deletes nobody else's",
 "Whatever the outcome of a solve (success, any solver failure, a failed matrix write, an unreadable solution), once it returns, none of the files it or its solver created remain in the exchange directory unless deleting them was itself refused by the system, and no file it did not create was deleted or changed, even with names that resemble its own. Open file handles are not leaked either.",
 ["fault points","solver outcomes","directory contents"],"every outcome and fault point of a solve and every content of the exchange directory",
 "needs failing I/O and a controlled solver process, and a look at the directory after every failure path",
 [SL,SM],[("clean_directory",SL),("unique_prefix",SL)],["exchange directory contents"])
p("S09","Concurrent solves sharing a directory are isolated from each other",
 "Any number of solves running at once in several threads and several processes against one exchange directory each return the solution of their own problem, and none reads, overwrites or deletes another's files, whatever the wall clock does (equal readings, steps backwards, readings before the epoch, skew between processes) and however their steps interleave.",
 ["thread and process schedules","clock behaviours"],"every interleaving of solves and every wall-clock history",
 "a collision needs two clock readings to agree or a directory scan to fall between another solve's steps; tests run one solve at a time",
 [SL],[("unique_prefix",SL),("clean_directory scan",SL)],["returned solutions","file operations"])
p("S10","Matrix files handed to the solver are complete or the write is an error",
 "Writing a system (or one matrix) in the solver's binary format either reports success with both files holding exactly the system's dimension, per-row counts, ascending column indices and values of the full symmetric matrices, or reports an error. Short, interrupted, failing or out-of-space writes never yield success with an incomplete file, a solver is never started on incomplete files, and a retry after the fault clears writes complete files.",
 ["disk faults and their positions","matrices"],"every write at which the disk is short, interrupted, failing or full, including the last one, and every matrix",
 "tests write one small matrix to a healthy disk and never read it back",
 [SM,L,SL],[("AIJMatrixBinary::print_to_petsc_binary_file",SM),("GEP::print_to_petsc_binary_files",L)],["file contents","returned Result"])
p("S11","Mesh export reports success only for a complete document",
 "Exporting a mesh to JSON reports success only if the file then holds one complete document describing every element, edge and node of the mesh; any short, failing or out-of-space write gives an error (never a panic) and leaves the mesh unchanged and exportable again once the fault clears. Re-exporting an unchanged mesh gives the same document.",
 ["disk faults and their positions","meshes"],"every write at which the disk is short, interrupted, failing or full, for meshes of every size",
 "tests export one mesh to a healthy disk and ignore the content",
 [M,E,ED],[("Mesh::export_to_json",M)],["file contents","returned Result"])
p("S12","Field export reports success only for a complete, consistent VTK file",
 "Printing fields to a VTK file reports success only if the file is complete and self-consistent: one grid per leaf element at the requested densities (equal or not) whose points, cells, and per-point values match the domain and the computed quantities. Disk faults give an error and no clock reading makes it fail or panic; a retry after the fault clears gives the same file up to the date line.",
 ["disk faults and their positions","clock readings","grid densities","domains"],"every failing write position, every wall-clock reading and every pair of densities",
 "tests write equal-density grids to a healthy disk and never look inside",
 [F],[("UniformFieldSpace::print_quantities_to_vkt",F),("xy_fields / map_to_quantity / expression_2arg",F)],["file contents","returned Result"])
p("S13","Mesh loading survives read faults and refuses damaged files",
 "Loading a mesh file gives exactly the mesh the file describes, however the reads are split or interrupted; a failing open or read gives an error; and a file torn or damaged so that it is no longer a complete document is refused (by an error or the documented panic), never accepted as a smaller or different mesh. After a failed load, loading again once the fault clears gives the right mesh and no handle is leaked.",
 ["read faults and their positions","truncation points","mesh files"],"every split, interruption, failure or truncation of the input",
 "tests read intact files from a healthy disk in one read",
 [M],[("Mesh::from_file",M)],["returned mesh"])
p("S14","Refinement batches are all-or-nothing",
 "A batch of h-refinements, p-refinements or expansion-order settings either succeeds and applies exactly the requested change to exactly the requested elements (several requests for one element combining as documented), or fails and leaves the mesh exactly as it was. It fails (with an error, or a panic for the methods that return nothing) whenever any element of the batch is missing, already refined, too small to be split, or would leave the allowed order range, wherever in the batch the bad request stands; filter callbacks that panic leave the mesh untouched.",
 ["rejected operations and their position","callback panic points","refinement histories"],"every batch content and every position of an invalid request or panicking callback, after every history",
 "tests check that errors are returned but not that nothing changed, and never place the failure in the middle of a batch or inside a callback",
 [M,H,PR],[("Mesh::execute_h_refinements",M),("Mesh::execute_p_refinements / set_expansion_orders",M)],["mesh state after the call"])
p("S15","Interrupted field evaluation leaves the field space unchanged",
 "If a user-supplied basis space or expression panics or a request is refused while a quantity is being computed, every quantity already in the field space keeps its name and values and no partial quantity becomes visible under the new name; the same request can then be repeated and gives the values of an undisturbed evaluation.",
 ["panic points","rejected requests","operation sequences"],"every callback invocation at which a panic can occur in any sequence of field operations",
 "no test interrupts a field computation",
 [F],[("UniformFieldSpace::xy_fields / map_to_quantity / expression_2arg",F)],["field values and exported files"])
p("S16","Results do not depend on hash seeds, threads, clocks or process history",
 "Running the same pipeline (load, refine, number degrees of freedom, assemble, evaluate fields, export) in processes that differ only in hash seeds, CPU count, pool size, thread schedule, clock and earlier work gives the same numbering, the same matrices (up to rounding of the summation order), the same field values and the same exported files (up to the date line).",
 ["hash seeds","thread counts and schedules","clocks","process histories"],"every pair of environments in which the same program may run",
 "a test process sees one environment; iteration-order or timing dependence only shows between runs",
 [D,M,G,F],[("DoF numbering",D),("refinement batch ordering",M)],["degrees of freedom, matrices, files"])
p("S17","The mesh stays a valid nested discretisation through any history",
 "After any history of accepted, rejected and interrupted refinement calls, the mesh is a valid nested discretisation: ids match positions, children tile their parent exactly and inherit its orders and material, neighbouring elements share their edges and nodes (no duplicates), and every edge carries the right boundary flag, parent, children and active element pair. It equals the mesh obtained by the accepted calls alone; and building a domain from it, the degrees of freedom are exactly those the discretisation has (one per interior function and one per matched pair on an active edge) and each degree of freedom and each basis function refer to each other exactly once. Queries about elements, edges and basis functions answer for what exists and give an error for what does not.",
 ["refinement histories","rejected and interrupted operations"],"every sequence of global, per-element, filtered, anisotropic, extended and rejected refinements",
 "tests check a few fixed refinement patterns; corruption needs particular neighbour, direction and depth combinations or a failed call in between",
 [M,E,ED,D],[("Mesh::execute_h_refinement",M),("Domain::from_mesh",D),("Edge activation",ED)],["mesh and domain structure"])
p("S18","A crashed run leaves nothing that breaks or changes a restarted one",
 "If the process is killed at any point of a pipeline (load, refine, export, assemble, solve, print fields) and run again against the same directories, the restarted run finishes and produces the same solution and files as a run that was never interrupted, whatever partial files the earlier run and its solver left; the input mesh file is never modified.",
 ["crash points","leftover files","thread schedules"],"every point at which the process dies, once or repeatedly",
 "tests never kill a run half-way or start from leftovers",
 [SL,SM,M,F],[("File::create truncation",SM),("prefix naming",SL)],["files and solution of the restarted run"])
NA=[]
def n(id,title,st,files,why): 
    p(id,title,st,["inputs"],"every input",why,files,[("see files",files[0])]); NA.append(id)
n("N01","Matched basis functions are tangentially continuous across element interfaces",
 "Any two basis functions grouped in one degree of freedom have equal tangential components along their shared edge, and no function with a nonzero tangential trace on an unmatched or boundary edge is part of a degree of freedom.",
 [D,"src/fem_domain/domain/dof/basis_spec.rs"],"it quantifies over all meshes and orders; tests use a few")
n("N02","Quadrature, shape functions and their derivatives are mathematically exact",
 "Gauss-Legendre rules integrate polynomials up to their degree exactly, and the hierarchical shape functions and their derivatives equal their definitions at every point of every (sub-)range up to the maximum order.",
 ["src/fem_problem/integration/glq.rs","src/fem_domain/basis/hierarchical_basis_fns.rs"],"numerical identities over all orders and ranges")
n("N03","Curl-curl and inner-product integrals equal their mathematical definitions",
 "The two supplied integrals equal the material-weighted curl-curl and mass integrals of the two basis functions, and the by-parts forms equal the direct ones.",
 ["src/fem_problem/integration/integrals.rs"],"numerical identities over all bases and geometries")
n("N04","The dense eigen-solver returns the eigenpair nearest the target",
 "For a well-posed generalized eigenproblem the dense solver returns an eigenpair satisfying the problem to rounding, nearest to the target; singular B gives an error.",
 ["src/fem_problem/linalg/nalgebra_solve.rs"],"numerical statement over all matrices")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
