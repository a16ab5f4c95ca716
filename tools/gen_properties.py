#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that entries stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)
S='src/spatial/';M='src/mesh/'
p('C01','Interior fluxes are conserved: the total residual depends on boundaries only',
 "For every valid mesh, admissible state, equation set and scheme combination, what leaves one cell through an interior face enters its neighbour exactly, so the residuals summed over all cells equal the net flux through the domain boundary. Hence changing the solution only in cells far from the boundary leaves the summed residual unchanged to rounding, for one process or many.",
 ['inputs','configurations'],"all hybrid tri/quad meshes, admissible states, flux x gradient x limiter x order x viscous combinations, 1..n ranks",
 "The tests converge a few cases to an error norm; none sums residuals or perturbs the interior, and one mesh/scheme pair says nothing about the others.",
 [S+'flow_spatial.cpp',S+'diffusion.cpp',S+'agradientschemes.cpp'],
 [('one flux per face, subtracted from the left cell and added to the right',S+'flow_spatial.cpp compute_fluxes'),('ghost-residual accumulation',S+'flow_spatial.cpp compute_residual')],['residual vector returned by the spatial discretisation'])
p('C02','A uniform flow is preserved exactly by every scheme on every mesh',
 "If every cell holds the free-stream state and every boundary is a farfield, in/outflow or extrapolation boundary, then every cell residual is zero to rounding for every inviscid flux, gradient scheme, reconstruction, order of accuracy, viscous model, flow angle and Mach number, on any valid mesh.",
 ['inputs','configurations'],"all meshes including distorted and hybrid ones, all scheme combinations, sub- and supersonic free streams",
 "Tests start from the free stream but never look at its residual; it is an identity over meshes x schemes.",
 [S+'flow_spatial.cpp',S+'anumericalflux.cpp',S+'abc.cpp',M+'mesh.cpp'],
 [('geometric closure of each cell',M+'mesh.cpp compute_face_data'),('flux consistency',S+'anumericalflux.cpp'),('boundary conditions transparent to the free stream',S+'abc.cpp')],['residual vector'])
p('C03','The flow residual is the finite-volume sum of numerical fluxes over cell faces',
 "For every mesh, state and configuration the residual of each cell equals the sum over its faces of face length times the numerical flux of the two face states (cell values at first order; linearly or MUSCL-reconstructed values at second order; boundary-condition ghost state outside boundary faces), plus the viscous flux where enabled. The selected flux, gradient, limiter, boundary type and order are the ones actually applied, and evaluating the residual changes neither the state nor the contents already accumulated in the output.",
 ['inputs','configurations'],"all meshes, states, boundary assignments and scheme combinations",
 "Tests only see converged error norms or lift/drag of a few runs, which many wrong schemes also approach.",
 [S+'flow_spatial.cpp',S+'musclreconstruction.cpp',S+'limitedlinearreconstruction.cpp',S+'areconstruction.cpp',S+'abc.cpp'],
 [('residual assembly',S+'flow_spatial.cpp compute_residual/compute_fluxes')],['residual vector compared with an independent face-by-face recomputation'])
p('C04','Inviscid fluxes are consistent, conservative, rotation-equivariant and upwind',
 "For every admissible pair of states and every unit normal, each available inviscid numerical flux equals the physical normal flux when both states agree, changes only sign when the states are exchanged and the normal reversed, and co-rotates with states and normal. The upwind fluxes (Van Leer, Roe, HLL, HLLC, AUSM, AUSM+) return the purely upstream physical flux in supersonic flow, HLLC and Roe resolve a stationary contact exactly, and each flux equals its published formula.",
 ['inputs'],"all admissible state pairs incl. supersonic, stagnant, near-vacuum-ratio jumps, shear and contacts, all unit normals",
 "Wall-flux tests check one wall state per flux; there is no test of a flux between different states.",
 [S+'anumericalflux.cpp',S+'anumericalflux.hpp','src/physics/aphysics_defs.hpp'],
 [('flux classes',S+'anumericalflux.cpp'),('physical flux','src/physics/aphysics_defs.hpp getDirectionalFlux')],['flux returned by InviscidFlux objects'])
p('C05','Inviscid flux Jacobians are the derivatives of the fluxes they linearise',
 "For every admissible state pair and normal, the left and right Jacobian blocks returned for the Roe and HLLC fluxes equal the derivatives of the numerical flux with respect to the left and right states (with the documented signs), and for the frozen-dissipation variants (local Lax-Friedrichs, HLL) they equal the documented linearisation, which is exact for equal states.",
 ['inputs'],"all smooth admissible state pairs and normals, all Jacobian-capable fluxes",
 "No test differentiates the inviscid fluxes; implicit runs converge (slowly) even with wrong Jacobians.",
 [S+'anumericalflux.cpp'],[('get_jacobian',S+'anumericalflux.cpp')],['dfdl/dfdr blocks vs finite differences of the flux'])
p('C06','The assembled implicit matrix is the derivative of the first-order residual',
 "For every mesh, state and assignment of boundary conditions that offer a Jacobian, the assembled sparse matrix times any vector equals the directional derivative of the first-order residual computed with the Jacobian flux (with the documented linearisation where a flux Jacobian is an approximate one), and adding the pseudo-time term adds exactly cell area over (CFL x time step) to each diagonal entry. Assembling repeatedly replaces, never accumulates, and its result does not depend on the number of threads or processes.",
 ['inputs','configurations','histories'],"all meshes, boundary conditions, states, ranks, repeated assemblies",
 "Only solver convergence exercises the matrix; a wrong block changes iteration counts, which no test bounds tightly.",
 [S+'aspatial.cpp',S+'flow_spatial.cpp','src/ode/aodesolver.cpp','src/linalg/petscutils.cpp'],
 [('assemble_jacobian',S+'aspatial.cpp'),('local face/boundary Jacobians',S+'flow_spatial.cpp'),('addPseudoTimeTerm','src/ode/aodesolver.cpp')],['PETSc matrix vs finite-differenced residual'])
p('C07','Boundary conditions impose their documented ghost states',
 "For every admissible interior state and wall normal: a slip wall mirrors the normal velocity (zero mass flux), farfield and extrapolation return the free stream and the interior state, an in/outflow boundary follows its inflow/subsonic/supersonic outflow rule, and viscous walls give mean face velocity equal to the wall velocity with zero normal heat flux (adiabatic) or the prescribed wall temperature (isothermal, given in Kelvin in the control file). A subsonic inflow imposes the given non-dimensional total pressure and temperature with the flow entering normal to the face. The ghost density stays positive, and each boundary face uses the condition configured for its own marker.",
 ['inputs','configurations'],"all admissible interior states, normals, wall velocities/temperatures and marker assignments",
 "Tests check walls for one interior state; in/outflow, subsonic inflow, extrapolation and moving walls are unchecked.",
 [S+'abc.cpp',S+'abc.hpp',S+'flow_spatial.cpp'],[('FlowBC classes',S+'abc.cpp computeGhostState'),('marker to condition map',S+'abc.cpp create_const_flowBCs')],['ghost states from the BC objects and from the flow discretisation'])
p('C08','Boundary-condition Jacobians are the derivatives of the ghost states',
 "For every boundary condition that offers a Jacobian and every admissible interior state and normal, the derivative block returned with the ghost state equals the derivative of the ghost state with respect to the interior state, and the ghost state returned alongside equals the one returned without it.",
 ['inputs'],"all conditions, states away from switching points, normals, wall speeds and temperatures",
 "One wall test differentiates two conditions at a single state.",
 [S+'abc.cpp'],[('computeGhostStateAndJacobian',S+'abc.cpp')],['Jacobian block vs finite differences'])
p('C09','Gas-physics conversions are mutually consistent and their derivatives correct',
 "For every admissible state and free-stream configuration, conversions between conserved, primitive (pressure or temperature based) variables are mutual inverses and all routes to a quantity (pressure, temperature, sound speed, energy, enthalpy, entropy, viscosity, conductivity) agree with the ideal-gas, non-dimensionalisation and Sutherland laws. Every offered derivative equals the derivative of the function it accompanies, and the pressure change between two states equals the difference of their pressures.",
 ['inputs'],"all admissible states, gamma, Mach, Reynolds, Prandtl, reference temperatures",
 "No unit test touches the physics class; only combinations of it inside solver runs.",
 ['src/physics/aphysics.hpp','src/physics/aphysics_defs.hpp','src/physics/aphysics.cpp'],[('IdealGasPhysics','src/physics/aphysics_defs.hpp')],['public physics functions'])
p('C10','Viscous fluxes obey the Navier-Stokes law; their Jacobians differentiate them',
 "For every pair of states with gradients and every face normal, the viscous flux equals minus the Newtonian stress (with Stokes' hypothesis) and Fourier heat flux contracted with the normal, never touches the continuity equation and vanishes for uniform flow. Face-averaged gradients reproduce linear fields exactly, and the viscous Jacobian equals the derivative of the thin-layer viscous flux with respect to both states.",
 ['inputs','configurations'],"states, gradients, normals, Reynolds/Prandtl numbers, constant or Sutherland viscosity",
 "Viscous tests only compare drag of one coarse airfoil against a stored number.",
 ['src/physics/viscousphysics.cpp',S+'flow_spatial.cpp',S+'aspatial.cpp'],[('computeViscousFlux(Jacobian)','src/physics/viscousphysics.cpp'),('getFaceGradient_modifiedAverage',S+'aspatial.cpp')],['viscous flux and Jacobian values'])
p('C11','Cell gradients are exact for linear (least squares) and constant fields',
 "On every valid mesh the least-squares gradient of an affine field equals its exact gradient in every cell including boundary cells and cells at subdomain borders, the Green-Gauss gradient of a constant is zero and equals the area-normalised boundary integral of face averages, and the zero scheme returns zeros. Gradients are linear in the data, independent for each variable, and complete after a single call.",
 ['inputs','configurations'],"all meshes, fields, numbers of variables, ranks",
 "Tests check one-exactness on three meshes for one function, in serial.",
 [S+'agradientschemes.cpp'],[('compute_gradients',S+'agradientschemes.cpp')],['gradient arrays'])
p('C12','Reconstruction is linear-exact unlimited, bounded limited, constant-preserving',
 "For every mesh and data: unlimited linear reconstruction gives u + grad.(xf-xc) on both sides of each face; with the Barth-Jespersen limiter no face value exceeds the range of the cell and its neighbours; WENO, Van Albada, Barth-Jespersen and Venkatakrishnan limiters all reproduce constants exactly and equal their published formulae. No limiter reads data other than that of the cell, its neighbours and its boundary ghosts.",
 ['inputs','configurations'],"all meshes, smooth/discontinuous/extremal data, limiter parameters",
 "No limiter has a unit test; WENO and MUSCL are covered through one stored drag value each.",
 [S+'limitedlinearreconstruction.cpp',S+'musclreconstruction.cpp',S+'areconstruction.cpp',S+'reconstruction_utils.hpp'],[('compute_face_values',S+'limitedlinearreconstruction.cpp')],['left/right face values'])
p('C13','Mesh connectivity derived from a mesh is complete and mutually consistent',
 "For every valid 2D mesh of counter-clockwise triangles and quadrilaterals, the derived structure contains each edge exactly once as a boundary or interior face, lists boundary faces before interior ones with their markers, relates every face to its two cells with left index smaller than right, and agrees in all directions among cell-to-cell, cell-to-face, face-to-point and point-to-cell maps. Euler's formula and face counts hold, and boundary faces end up directed with the domain on their left whatever their direction in the file.",
 ['inputs'],"all manifold tri/quad/hybrid meshes, any node/element numbering and boundary-edge direction",
 "Tests check a couple of fixed meshes and relations.",
 [M+'mesh.cpp',M+'mesh.hpp'],[('compute_topological / correctBoundaryFaceOrientation / compute_elementsSurroundingPoints',M+'mesh.cpp')],['public accessors of the mesh object'])
p('C14','Mesh metrics are geometrically exact',
 "For every valid mesh, cell areas are positive and sum to the domain area, face normals are unit, orthogonal to their face and point from the left to the right cell (outward at boundaries), face lengths are exact, each cell's face vectors close to zero, and cell centres, face mid-points and ghost centres are the documented points.",
 ['inputs'],"all valid meshes incl. stretched, skewed, scaled, translated ones",
 "No test checks areas, normals or centres.",
 [M+'mesh.cpp',S+'aspatial.cpp'],[('compute_areas, compute_face_data',M+'mesh.cpp'),('cell/ghost centres',S+'aspatial.cpp, mesh.cpp')],['areas, face metrics, centres'])
p('C15','Partitioning covers the mesh disjointly with matching inter-domain connectivity',
 "For every mesh and number of processes, each global cell belongs to exactly one subdomain with its own shape, coordinates and region, each physical boundary face stays with its cell and marker, and each interior face between subdomains appears on exactly the two ranks concerned, each naming the other's rank, global cell and a common face number. Local and global cell numbers translate consistently.",
 ['inputs','configurations'],"all meshes and 1..n ranks, cells with several inter-domain or boundary faces",
 "Tests check one hybrid mesh on three ranks against stored files.",
 [M+'meshpartitioning.cpp',M+'mesh.cpp'],[('restrictMeshToPartitions',M+'meshpartitioning.cpp')],['subdomain meshes gathered over ranks'])
p('C16','Results do not depend on the number of MPI processes',
 "For every mesh, configuration and number of processes, residuals, gradients, time steps, matrix action and surface integrals mapped to global cell numbers equal the single-process values to rounding, all collective calls match so that no run hangs, and steady runs stop at the same step with the same residual history and functionals up to solver tolerance.",
 ['inputs','configurations','schedules'],"all meshes, schemes, rank counts incl. few cells per rank",
 "MPI tests check convergence order of a few cases on fixed ranks, not agreement with serial.",
 [S+'flow_spatial.cpp',S+'agradientschemes.cpp',S+'limitedlinearreconstruction.cpp','src/linalg/tracevector.cpp','src/ode/aodesolver.cpp',M+'meshpartitioning.cpp','src/utilities/mpiutils.cpp'],
 [('ghost updates and trace exchange','src/linalg/tracevector.cpp, '+S+'flow_spatial.cpp')],['per-cell values keyed by global number'])
p('C17','Face-trace exchange delivers each neighbour its own face data',
 "For every partitioned mesh, variable count and number of rounds, after a completed exchange each inter-domain face holds on its far side exactly what the neighbouring process stored on its near side of that same face, all other entries are unchanged, and overlapping further work or repeating the exchange never mixes rounds.",
 ['inputs','histories','schedules'],"all partitions, 1 or 4 variables, repeated rounds with delays between begin and end",
 "Two tests exchange one pattern once on a fixed mesh and rank count.",
 ['src/linalg/tracevector.cpp','src/linalg/tracevector.hpp'],[('updateSharedFacesBegin/End','src/linalg/tracevector.cpp')],['trace vector contents'])
p('C18','Multi-threaded execution is race-free and gives single-thread results',
 "For every mesh, configuration and number of threads, no two threads access the same memory without synchronisation with at least one writing, and residuals, gradients, reconstruction, time steps, Jacobians, solver updates and orderings equal the single-thread results to rounding.",
 ['schedules','inputs','configurations'],"all thread counts and interleavings, meshes, schemes",
 "Tests run with two threads and loose tolerances; a lost update is rare and invisible to them.",
 [S+'agradientschemes.cpp',S+'flow_spatial.cpp',S+'aspatial.cpp',S+'diffusion.cpp','src/ode/aodesolver.cpp',M+'meshordering.cpp'],
 [('atomic/critical updates of shared cells',S+'*.cpp')],['ThreadSanitizer over a pthread OpenMP runtime; results per thread count'])
p('C19','Cell reordering and line detection are bijective and physically neutral',
 "For every mesh and every available ordering option the reordered mesh is the same mesh with cells permuted bijectively: each cell keeps its points, region, faces and neighbours, and residuals are the permuted ones. Detected lines are disjoint chains of adjacent cells that only grow through anisotropic cells, and line orderings number each line contiguously while covering every cell once. A named ordering numbers the cells (or the lines and the remaining cells) as the PETSc ordering of that name of their adjacency graph does.",
 ['inputs','configurations'],"all meshes, permutations, orderings (natural, rcm, line, line+rcm...), anisotropy thresholds",
 "Tests compare one small anisotropic mesh with stored orderings.",
 [M+'meshordering.cpp',M+'ameshutils.cpp',M+'mesh.cpp'],[('reorder_cells',M+'mesh.cpp'),('lineReorder/hybridLineReorder/findLines',M+'meshordering.cpp')],['mesh before and after reordering'])
p('C20','Level scheduling yields independent, exhaustive levels',
 "For every mesh, the computed levels partition the cells into consecutive non-empty ranges in which no two cells share a face, and a cell's level begins only where a dependence on an earlier-numbered cell of the previous level forces it.",
 ['inputs'],"all meshes and cell orderings",
 "One stored mesh is compared.",
 [M+'ameshutils.cpp'],[('levelSchedule',M+'ameshutils.cpp')],['level array'])
p('C21','Periodic boundaries pair faces one-to-one across the domain',
 "For every mesh whose two periodic sides match, each periodic boundary face is paired with exactly one other whose transverse position agrees, the pairing is an involution without fixed points, and other boundary faces are untouched.",
 ['inputs','configurations'],"both axes, any numbering, spacing and mesh position",
 "One stored mesh.",
 [M+'mesh.cpp'],[('compute_periodic_map',M+'mesh.cpp')],['periodic map and face-cell table'])
p('C22','Steady solvers report convergence only when the residual really dropped enough',
 "A steady solve returns normally only if the energy residual norm fell below tolerance times its starting value within the allowed steps; otherwise it raises a tolerance error, or a numerical error as soon as the residual becomes NaN or infinite. A problem whose residual is already zero counts as converged, a limit of zero steps returns at once without steps. It performs no more than the allowed number of steps, leaves in the solution the last iterate, and its step and residual records equal what was actually computed.",
 ['inputs','configurations','fault_sequences'],"explicit and implicit solvers on convergent, stalling, diverging, already-converged and NaN-producing problems, all tolerances and step limits",
 "One test provokes a NaN; the rest are runs that converge.",
 ['src/ode/aodesolver.cpp','src/ode/aodesolver.hpp'],[('solve loops and their error raising','src/ode/aodesolver.cpp')],['every residual evaluation seen by an instrumented spatial discretisation, return/exception'])
p('C23','Each pseudo-time step is the scheme it claims, with CFL inside its bounds',
 "Every explicit step changes each cell by CFL x local time step / cell area times its residual with the configured CFL; every implicit step solves (area/(CFL x time step) I + J) du = -r to the linear tolerance and applies du through the relaxation rule. The CFL number starts at its initial value, never leaves the interval from initial to final value, is unchanged if both are equal, and grows only as the residual falls.",
 ['histories','inputs','configurations'],"all problems, CFL ranges, linear solver settings, relaxation rules",
 "No test observes individual steps or the CFL number.",
 ['src/ode/aodesolver.cpp'],[('expResidualRamp, addPseudoTimeTerm, solve','src/ode/aodesolver.cpp')],['successive states handed to an instrumented spatial discretisation'])
p('C24','The matrix-free Jacobian product is the directional derivative of the residual',
 "For every mesh, state, vector and number of processes the matrix-free operator returns the pseudo-time diagonal times the vector plus a finite-difference directional derivative of the full residual, is zero for a zero vector, is homogeneous to differencing error, and leaves the base state and vector unchanged.",
 ['inputs','configurations','histories'],"all meshes, states, vectors incl. zero and badly scaled, repeated applications, rank counts",
 "One test checks a single product on one mesh.",
 ['src/linalg/alinalg.cpp'],[('MatrixFreeSpatialJacobian::apply','src/linalg/alinalg.cpp')],['operator output vs residual differences'])
p('C25','Nonlinear update relaxation keeps states physical and within its bounds',
 "For every state and update the full-update rule returns one, and the robust flow rule returns a factor between the configured minimum and one which is one only for vanishing changes (for a minimum below one), equals one minus the larger relative change of pressure or density when that exceeds the minimum, and otherwise the minimum. Invalid minimum factors and unknown rule names are rejected.",
 ['inputs'],"all states and updates incl. ones giving negative density or pressure",
 "No test touches it.",
 ['src/ode/nonlinearrelaxation.cpp','src/utilities/afactory.cpp','src/physics/aphysics_defs.hpp'],[('FlowSimpleUpdate','src/ode/nonlinearrelaxation.cpp')],['relaxation factor'])
p('C26','Local time steps equal area over summed wave speeds and are positive',
 "For every mesh, state and configuration the local time step returned with a residual is positive and finite and equals cell area divided by the sum over its faces of length times (normal speed plus sound speed, plus the viscous contribution where enabled) evaluated with the cell's own state at each face (its cell value at first order, its reconstructed face value at second order); when not requested no time step is written.",
 ['inputs','configurations'],"all meshes, states, viscous models",
 "No test inspects time steps.",
 [S+'flow_spatial.cpp',S+'diffusion.cpp'],[('compute_max_timestep',S+'flow_spatial.cpp')],['time step vector'])
p('C27','Mesh files round-trip and formats agree',
 "For every valid mesh, writing it and reading it back gives the same points, cells, cell regions, boundary faces and markers; the same mesh supplied in Gmsh (boundary elements first) or SU2 form, with any cell order, boundary-edge direction or number of tags, yields the same geometry and markers. The conversion tool preserves the mesh and reports bad usage with a non-zero exit status.",
 ['inputs'],"all tri/quad/hybrid meshes, tag counts, orderings, both formats",
 "Tests read a few files and never write or compare formats.",
 [M+'meshreaders.cpp',M+'mesh.cpp','src/utilities/convertformat.cpp'],[('readMesh, writeGmsh2',M+'meshreaders.cpp, mesh.cpp')],['mesh contents after write/read; exit status'])
p('C28','Control files are parsed faithfully and bad ones rejected',
 "Every setting given in a control file or its documented command-line override reaches the solver with exactly the given value, angles are converted to radians, optional settings that are absent take a fixed default rather than an arbitrary value, and a missing mandatory setting or unrecognised boundary or scheme name ends in an error instead of a run with something else.",
 ['inputs','configurations'],"all combinations of present/absent keys, values, boundary lists",
 "One control file is compared with expected values.",
 ['src/utilities/controlparser.cpp','src/utilities/aoptionparser.cpp',S+'abctypemap.cpp'],[('parse_flow_controlfile','src/utilities/controlparser.cpp')],['parsed option structure'])
p('C29','Surface integrals give the true aerodynamic coefficients',
 "For every mesh, flow state and marker the reported lift, pressure-drag and friction-drag coefficients equal the integrals over that marker's faces, divided by its length and the free-stream dynamic pressure, of pressure and of wall shear stress, resolved along and across the free stream (friction along the face tangent, in the sign convention of the existing regression values), uniform pressure on a closed body gives zero, friction vanishes for inviscid flow, and the result is the same on any number of processes.",
 ['inputs','configurations'],"all meshes, states, flow angles, markers incl. absent ones, ranks",
 "Tests compare lift/drag of one airfoil with stored numbers within loose tolerances.",
 [S+'flow_spatial.cpp'],[('computeSurfaceData',S+'flow_spatial.cpp')],['returned coefficients and per-face table'])
p('C30','Output files and derived fields represent the computed solution',
 "For every mesh and state the exported point fields are density, velocity, pressure, temperature and Mach number of the area-weighted nodal average of the conserved variables, the cell fields are those of the cell values, the entropy error is the documented norm, the exported unstructured-grid file is well formed with the mesh's points and cells (also for hybrid meshes), and each exported surface table lists every face of its marker with the correct coefficients.",
 ['inputs','configurations'],"all meshes, states, marker lists",
 "Tests use only the entropy norm; no test reads an output file.",
 [S+'aoutput.cpp',S+'aoutput.hpp'],[('postprocess_point/cell, export*, writeMeshToVtu',S+'aoutput.cpp')],['parsed output files'])
p('C31','The diffusion discretisation and its Jacobian are consistent',
 "For every mesh, diffusivity, source and Dirichlet value, the source-free residual vanishes for linear fields in cells away from the boundary (with an exact gradient scheme), equals the face sum of diffusive fluxes plus the source, and is conservative; the assembled Jacobian is the derivative of the first-order (thin-layer) diffusive residual, including its boundary faces, and a steady solve converges to the discrete solution.",
 ['inputs','configurations'],"all meshes, diffusivities, sources",
 "Tests check convergence order on one grid family.",
 [S+'diffusion.cpp'],[('DiffusionMA',S+'diffusion.cpp')],['residual, Jacobian'])
p('C32','Valid workloads are free of memory errors and undefined behaviour',
 "On every valid mesh, configuration, state, thread and process count, no operation reads or writes outside its objects, uses uninitialised or freed data, or executes behaviour the language leaves undefined.",
 ['inputs','configurations','histories'],"the union of all workloads of the other properties",
 "Tests are not run under sanitizers and sample a few configurations.",
 ['src'],[('index arithmetic over cells, ghosts and faces','src/**')],['AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck reports'])
p('C33','Malformed mesh and control files are refused cleanly',
 "For every truncated, corrupted or inconsistent mesh or control file, loading either succeeds or ends promptly with an error raised to the caller or a non-zero exit; it never hangs, crashes on a signal, or reads or writes out of bounds.",
 ['inputs','fault_sequences'],"truncations at every point, token corruptions, wrong counts and indices, missing sections",
 "No test gives a bad file.",
 [M+'meshreaders.cpp','src/utilities/aoptionparser.cpp','src/utilities/controlparser.cpp','src/utilities/convertformat.cpp'],[('readers and stream checks',M+'meshreaders.cpp, src/utilities/aerrorhandling.cpp')],['exit status, exceptions, sanitizer reports'])
p('C34','A steady run does what its control file says and reports its outcome honestly',
 "For every valid control file the steady flow program runs the configured starter and main phases within their step limits, writes the requested outputs and a residual history whose rows match the steps taken and whose final residual is below tolerance exactly when it reports convergence, gives identical functionals when repeated, and when the main phase fails to converge or breaks down numerically says so and writes no residual history instead of reporting a success.",
 ['configurations','histories','fault_sequences'],"solver types, starter on/off, tolerances, step limits, diverging set-ups, outputs",
 "One test checks that a history file exists and one that an exception is thrown.",
 ['src/utilities/casesolvers.cpp','src/fvens_steady.cpp','src/ode/aodesolver.cpp'],[('SteadyFlowCase, run_output','src/utilities/casesolvers.cpp')],['exit status, stdout, files'])
p('C35','Discretisation respects rotation, translation, reflection and scaling',
 "Rotating, translating, reflecting or uniformly scaling the mesh together with the flow state and free-stream direction rotates, keeps, reflects or scales the residuals, time steps, gradients and surface coefficients accordingly, for every scheme combination with equivariant components.",
 ['inputs','configurations'],"all meshes, states, rotation angles, shifts, reflections, scale factors, schemes",
 "A metamorphic relation between runs; tests only look at single runs.",
 [S+'flow_spatial.cpp',S+'agradientschemes.cpp',S+'abc.cpp',M+'mesh.cpp'],[('coordinate-free formulation','src/spatial, src/mesh')],['residuals of transformed problems'])
p('C36','Schemes are selected by name and unknown names are rejected',
 "Every documented name of an inviscid flux, gradient scheme, limiter, boundary type and update rule selects that very scheme, and any other name is refused with an error before any computation, never silently replaced or left to crash.",
 ['configurations','inputs'],"all documented names and arbitrary other strings",
 "Tests only use valid names, and not all of them.",
 ['src/utilities/afactory.cpp',S+'abc.cpp',S+'abctypemap.cpp'],[('factories','src/utilities/afactory.cpp')],['objects produced, their behaviour, error raised'])
p('C37','The explicit unsteady integrator is the TVD Runge-Kutta scheme of its order',
 "For every problem du/dt = -r(u)/area, the unsteady solver of order 1, 2 or 3 advances each step by the strong-stability-preserving Runge-Kutta formula of that order with a time step no larger than CFL times the smallest local one, so that its error falls at that order and linear problems are integrated by the exact amplification polynomial, until the requested final time.",
 ['inputs','histories'],"orders, CFL numbers, linear and nonlinear problems, meshes",
 "The isentropic-vortex program is not run as a test.",
 ['src/ode/aodesolver.cpp'],[('TVDRKSolver','src/ode/aodesolver.cpp')],['successive residual evaluations and final state'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
