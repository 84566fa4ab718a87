import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Checkpoints survive crashes",
"Once saving a state checkpoint (with its metadata) or the solver configuration has returned, it loads back bit for bit after a process kill or a power loss at any later instant, including in the middle of saving the same step again. A save that was cut off by the crash leaves under its name either what was there before (or nothing) or the complete new content, never a partial or mixed file.",
["crash_points","histories"],"every sequence of saves (new steps, repeated steps, configuration saves, recorder re-creation without overwrite) and every instant of a kill or power loss between or inside the file-system operations those saves perform",
"The repository has no test of SimIO at all; a crash between two system calls of a save, or lost page cache, cannot be produced by calling the API.",
["hydraxmpm/common/sim_io.py"],[("SimIO.save_step / SimIO.save_solver","hydraxmpm/common/sim_io.py"),("load_simulation","hydraxmpm/common/sim_io.py")],["file-system operations of the run directory","load_simulation after restart"],
[dict(name="state_<step>.eqx, solver_config.eqx, metadata.json",meaning="the durable checkpoint of a run",where="recorder output directory")])

p("C02","Failed checkpoint writes are reported and contained",
"When the storage refuses, shortens or interrupts an operation during a checkpoint or configuration save (disk full, I/O error, short write, EINTR), the save either returns with exactly the saved content readable back, or raises; it never returns normally with the checkpoint missing, partial or altered. Whatever happens, every other checkpoint of the run still loads bit for bit, this one loads as its complete previous or its complete new content, and once the fault is gone repeating the save succeeds.",
["fault_sequences","histories"],"every history of saves and every placement of ENOSPC (with any number of bytes left), EIO, short writes, EINTR, failing open/rename/fsync/close inside them",
"No test injects a storage error; a real full disk hits an arbitrary byte of an arbitrary file.",
["hydraxmpm/common/sim_io.py"],[("SimIO.save_step / SimIO.save_solver error propagation","hydraxmpm/common/sim_io.py")],["return/raise of the save call","load_simulation afterwards"])

p("C03","Checkpoint round trip is exact",
"Loading step N from a run directory yields exactly what was last saved there as step N - every array leaf identical in shape, dtype and bits, every number equal - and the solver configuration that was saved, whatever else was saved before, after or in between, in whatever order, by however many recorders. When reading is disturbed (short reads, EINTR, I/O errors, a truncated or missing file) loading returns exactly that content or raises, and never returns anything else.",
["histories","inputs","fault_sequences"],"all histories of saves and loads over several directories, step numbers of any size, states and solver configurations of every material law, solver scheme, force and collider the builder can produce, and read faults anywhere in a load",
"No test saves or loads anything; sampling one state of one law would not show mix-ups between steps, directories or leaf kinds.",
["hydraxmpm/common/sim_io.py","hydraxmpm/common/simstate.py","hydraxmpm/material_points/material_points.py","hydraxmpm/constitutive_laws","hydraxmpm/solvers/usl_asflip.py"],[("file naming by step, tree_serialise_leaves/tree_deserialise_leaves","hydraxmpm/common/sim_io.py"),("state classes are pytrees that carry all mutable data as leaves","hydraxmpm/common/simstate.py")],["load_simulation result"])

p("C04","Resuming from a checkpoint changes nothing",
"A simulation that is stopped at any step, checkpointed, torn down and resumed - solver and state skeletons rebuilt by the same setup code and filled from the checkpoint, any number of times - continues through exactly the same states, bit for bit, as one that was never stopped. This holds for every solver scheme, shape function, constitutive law, force and collider, and includes the simulation clock.",
["crash_points","histories","configurations"],"all set-ups the builder accepts, all dt histories, all stop points and numbers of stop/resume cycles",
"Needs state that is missing from the checkpoint (hidden in Python objects, static fields, closures) to matter later; no test steps a solver, let alone resumes one.",
["hydraxmpm/common/simstate.py","hydraxmpm/common/sim_io.py","hydraxmpm/common/builder.py","hydraxmpm/solvers","hydraxmpm/forces","hydraxmpm/constitutive_laws","hydraxmpm/sdf"],[("SimState holds every mutable quantity; solver objects are immutable logic","hydraxmpm/common/simstate.py"),("solver(state) -> state","hydraxmpm/solvers/usl.py")],["state after every step, before/after resume"])

p("C05","Output does not depend on delivery order",
"Output callbacks (checkpoint saves and VTK particle frames) that arrive late, out of order, several at once or more than once leave the run directory exactly as in-order delivery would: one checkpoint and one frame per distinct step, each holding the data of its own step and time.",
["schedules","histories"],"all orders, delays, duplications and thread interleavings in which the output callbacks of a run can be delivered",
"JAX debug callbacks are unordered, but a test run delivers them in order; only a controlled scheduler reorders, duplicates and overlaps them.",
["hydraxmpm/common/sim_io.py","hydraxmpm/common/vtk_io.py"],[("file name derived from state.step / step argument","hydraxmpm/common/sim_io.py"),("VTKVisualizer.log_particles","hydraxmpm/common/vtk_io.py")],["content of the run directory after all deliveries"])

p("C06","Simulations in one process do not disturb each other",
"Building, stepping and saving any number of simulations in one process, interleaved in any way including from concurrently scheduled threads, gives each of them exactly the states it would have reached alone. Advancing a simulation never modifies an existing state or solver: stepping a kept old state again reproduces the same successor bit for bit.",
["schedules","histories"],"all interleavings of build, step, save, rollback and replay events of several simulations, down to a thread switch between any two lines of the library",
"Tests run one object at a time in one thread; shared mutable module or class state only shows when two simulations overlap.",
["hydraxmpm/common/builder.py","hydraxmpm/solvers/usl.py","hydraxmpm/solvers/usl_asflip.py","hydraxmpm/forces","hydraxmpm/shapefunctions/mapping.py","hydraxmpm/common/sim_io.py"],[("immutable eqx.Module state and per-call SimCache","hydraxmpm/solvers/usl.py"),("per-instance registries","hydraxmpm/common/builder.py")],["state after every event of every simulation"])

p("C07","Run directories are reset or preserved as asked",
"Opening a recorder with overwrite leaves no checkpoint of an earlier run loadable from its directory; opening it without overwrite leaves every earlier checkpoint bit for bit intact; if the directory cannot be cleared or created the constructor raises. A recorder never creates, changes or deletes anything outside its own output directory, and after a crash during opening the next opening succeeds with the same guarantees.",
["histories","crash_points","fault_sequences"],"all histories of opening recorders (nested, sibling and prefix-named directories, absolute or relative to a script, foreign files and sub-directories inside) with crashes and I/O errors anywhere in the opening",
"No test constructs SimIO; deletion half done by a crash or an error needs fault injection.",
["hydraxmpm/common/sim_io.py"],[("SimIO.__init__ rmtree/makedirs","hydraxmpm/common/sim_io.py")],["directory tree before/after opening"])

p("C08","The simulation clock counts every step once",
"After any number of steps, with dt changed at will between steps and with stops, resumes and rollbacks anywhere, the step counter equals the start value plus the number of steps taken, the time equals the start time plus the sum of the dt values used (to round-off), and dt is never changed by the solver. In the AFLIP scheme no particle leaves a step faster than the CFL fraction of a cell per dt of that step.",
["histories","schedules","crash_points"],"all sequences of steps, dt jumps over several orders of magnitude, resumes from checkpoints and rollbacks, in every solver scheme",
"No test runs a solver step; drift, double counting or a stale dt only show over a history in which dt changes.",
["hydraxmpm/solvers/usl.py","hydraxmpm/solvers/usl_asflip.py","hydraxmpm/common/simstate.py","hydraxmpm/common/builder.py"],[("time = time + dt; step = step + 1","hydraxmpm/solvers/usl.py"),("CFL clamping","hydraxmpm/solvers/usl_asflip.py")],["state.time, state.step, state.dt, particle speeds after every step"])

p("C09","Collider motion depends only on elapsed time",
"A rigid collider with constant linear and angular velocity is, after any history of steps, exactly where rigid motion over the elapsed simulation time puts it: position, orientation (2D angle or 3D unit quaternion) and surface velocity do not depend on how the time was sliced into dt values or on resumes in between (to round-off; the 3D rotation angle only to within the integrator's third-order error (|w| dt)^3/12 per step). Its velocities never change by themselves, a static domain boundary never moves, and every collider moves exactly once per step however many bodies, grids and forces there are.",
["histories","schedules","crash_points"],"all slicings of the time axis into dt values, all resume points, 2D and 3D colliders of every shape with any initial pose and velocities, any number of bodies",
"Needs long histories with uneven dt; no test moves a collider.",
["hydraxmpm/sdf/sdfobject.py","hydraxmpm/sdf/sdfcollection.py","hydraxmpm/utils/math_helpers.py","hydraxmpm/solvers/usl.py"],[("SDFObjectBase.update_kinematics / get_velocity","hydraxmpm/sdf/sdfobject.py"),("integrate_quaternion","hydraxmpm/utils/math_helpers.py"),("_kinematic_update","hydraxmpm/solvers/usl.py")],["SDF states and point velocities after every step"])

p("C10","Mass and momentum are conserved over every history",
"In a simulation without colliders, damping or dynamic blending, with the material at least two cells away from the grid edge and below the CFL limit, every particle's mass is constant, and each step changes the total linear momentum by exactly total mass times gravity times that step's dt (to round-off), whatever the stresses, velocities, shape function, solver scheme, number of bodies and law. A body in uniform motion under gravity stays undeformed and stress free and follows the ballistic path of the dt values used.",
["histories","configurations","schedules"],"all histories of steps with changing dt, gravity changes and resumes, over every shape function, dimension, solver scheme and elastic/plastic/fluid law",
"No test couples particles to a grid; conservation is a statement about all states and all step sequences.",
["hydraxmpm/solvers/usl.py","hydraxmpm/solvers/usl_asflip.py","hydraxmpm/shapefunctions","hydraxmpm/forces/gravity.py","hydraxmpm/grid/grid.py"],[("P2G / grid integration / G2P","hydraxmpm/solvers/usl.py"),("partition of unity of the shape functions","hydraxmpm/shapefunctions/mapping.py"),("Gravity","hydraxmpm/forces/gravity.py")],["particle mass and momentum sums after every step"])

p("C11","Registration order does not matter",
"A simulation assembled through the builder behaves the same whatever the order in which its grids, bodies, laws, colliders and forces were registered, as long as the couplings name the right indices (and forces that act on each other's result keep their relative order): each body follows the same trajectory (to round-off), with its own law, its own grid, its own solver state and every force (gravity, damping) and signed-distance collider in effect with the parameters it was given. Bodies coupled to one shared grid all take part in that grid, and a force restricted to some grids leaves bodies on the others alone. A solver set up for only some of the bodies or forces moves just these bodies, under just these forces, and gives them the states that belong to them.",
["schedules","programs","configurations"],"all interleavings of the registration calls of several set-up tasks, over one to three bodies on shared or separate grids with different laws, forces and colliders",
"Tests never use the builder; a wrong index only shows when registration order and coupling order differ.",
["hydraxmpm/common/builder.py","hydraxmpm/solvers/usl.py","hydraxmpm/solvers/usl_asflip.py","hydraxmpm/solvers/coupling.py","hydraxmpm/forces"],[("SimBuilder registries and index defaults","hydraxmpm/common/builder.py"),("c_idx/g_idx/s_idx/f_idx lookups","hydraxmpm/solvers/usl.py")],["per-body trajectories of differently ordered builds"])

p("C12","Material stays outside colliders",
"Material that starts outside a collider or inside the domain boundary never ends up deeper than half a grid cell inside the collider or beyond the boundary, through any history of steps within the CFL limit, with dt changes, collider motion, gravity reversals, and stops and resumes. In every step a plane wall only pushes: the momentum it gives the material along its outward normal is never negative, what it gives along the wall is at most its friction coefficient times that (so nothing without friction), and a boundary out of reach of the material gives nothing.",
["histories","schedules","configurations"],"all histories of steps with dt, gravity and collider velocity changes and resumes over planes, boxes, spheres and domain boundaries in every solver scheme",
"No test applies a collider during a simulation; leaking through a wall takes many steps and particular approach angles.",
["hydraxmpm/forces/sdf_collider.py","hydraxmpm/sdf/sdfcollection.py","hydraxmpm/solvers/usl.py","hydraxmpm/solvers/usl_asflip.py"],[("SDFCollider.apply_grid_moments","hydraxmpm/forces/sdf_collider.py"),("_get_nodes_sdfs","hydraxmpm/solvers/usl.py")],["signed distance of all particles and total momentum after every step"])

p("C13","Frame export is exact, contained and honest about failures",
"Each VTK frame that an export call returned from (particles, domain box or SDF surface) reads back with what that call was given - particle positions, radii and the requested property (nothing in its place if none is requested or the state does not have it), the box corners, the zero level of the SDF - and with the time of that call, and stays so whatever is exported later under other labels and steps. When the disk is full or fails during an export, the call raises or the frame is complete; a failure or a kill in the middle leaves the frame as it was before or complete, never partial, and frames of other steps and labels are never affected. Nothing outside the output directory is touched.",
["histories","fault_sequences","crash_points"],"all histories of frame exports over labels, steps, 2D/3D bodies and properties, with ENOSPC/EIO/short writes/EINTR or a kill at any file operation",
"No test exports a frame; error returns of the native VTK writer only occur on failing disks.",
["hydraxmpm/common/vtk_io.py"],[("VTKVisualizer._save_vtk / log_particles / log_static_domain / log_sdf","hydraxmpm/common/vtk_io.py")],["vtp files read back","return/raise of the export call"])

NA=[]
def na(id,title,statement,text,files,mech,why):
    p(id,title,statement,["inputs"],text,why,files,mech)
na("C21","Shape functions reproduce constants and linear fields","For every particle position inside the grid the weights are non-negative, sum to one and reproduce linear fields; gradients are the derivatives of the weights and sum to zero.","all positions and cell sizes, each kernel, 2D and 3D",["hydraxmpm/shapefunctions"],[("kernels","hydraxmpm/shapefunctions/mapping.py")],"The tests sample a few positions.")
na("C22","Signed distance functions describe their shapes","Each shape's signed distance is negative exactly inside the shape, 1-Lipschitz, invariant under rigid motion of the object, and its normal is the outward unit gradient.","all shapes, parameters, poses and query points",["hydraxmpm/sdf"],[("signed_distance_local","hydraxmpm/sdf/sdfcollection.py")],"No test evaluates them.")
na("C23","Generated particles lie inside the shape","Particles generated for a body lie inside its shape and bounds, are laid out with the requested density, and depend only on the arguments (including the random key).","all shapes, bounds, densities and keys",["hydraxmpm/utils/generate_body.py"],[("generate_particles_in_sdf","hydraxmpm/utils/generate_body.py")],"No test generates particles.")
na("C24","Grid contact obeys Coulomb","A collider node's corrected velocity does not approach the wall and its tangential change never exceeds friction times the normal impulse.","all node velocities, normals, wall velocities and friction values",["hydraxmpm/forces/sdf_collider.py"],[("apply_frictional_contact","hydraxmpm/forces/sdf_collider.py")],"No test calls it.")
na("C25","Element tests follow their prescribed path","Driver and triaxial element tests keep the prescribed strain or stress components at their targets along the whole path.","all laws, paths and step counts",["hydraxmpm/element_tests"],[("ElementTestDriver, TriaxialTest","hydraxmpm/element_tests")],"Tests of it fail at the pinned commit.")
na("C26","Simulations are differentiable","Gradients of a simulation's outcome with respect to material parameters and initial conditions are finite and match finite differences.","all set-ups and parameters",["hydraxmpm/solvers","hydraxmpm/utils/math_helpers.py"],[("safe_norm etc.","hydraxmpm/utils/math_helpers.py")],"No test differentiates a step.")
na("C27","Tensor helpers satisfy their identities","Volumetric/deviatoric split, invariants, triaxial reconstruction, rotations and quaternions satisfy their defining identities.","all tensors and rotations",["hydraxmpm/utils/math_helpers.py"],[("math helpers","hydraxmpm/utils/math_helpers.py")],"Tests sample single tensors and partly fail at the pinned commit.")
p("C14","Every step moves the material by the momentum balance of its grid",
"In every history (steps, dt changes, gravity and damping changes, resumes, rollbacks), with the material at least two cells from the grid edge, every step of USL and of APIC/AFLIP gives each particle the velocity, position, velocity gradient and volume that the documented scheme gives for the state before it, to round-off: mass, momentum (with the affine part APIC carries from step to step) and forces gathered by the coupling's own kernel from every body on the grid, stress divergence with compression positive, gravity and Cundall damping as parametrised and in their order, momentum advanced by that step's dt, then at every node within one cell of a collider's surface or inside it (the shape it documents, in its pose of that step) the velocity relative to the moving surface freed of its part into the collider and of as much of the tangential part as friction (collider times local coefficient) allows, other nodes untouched and colliders in the order they were added, and the result interpolated back with the solver's own blending factors, support range, position correction and speed limit (alpha 1 is FLIP, 0 is PIC or APIC). With the pure affine transfer (APIC, alpha 0, quadratic or cubic kernel) the first moment of momentum, angular momentum included, changes away from colliders exactly by the work of stress and gravity, so spin is never lost.",
["histories","configurations","inputs"],"all states and step/dt/force/resume/rollback histories x solver schemes and parameters, kernels, laws, several bodies on shared grids, static, moving and turning colliders of every analytic shape and of voxel grids, 2D and 3D",
"No passing test runs a solver step; the scheme is a statement about every state and about what is carried from one step to the next.",
["hydraxmpm/solvers/usl.py","hydraxmpm/solvers/usl_asflip.py","hydraxmpm/shapefunctions","hydraxmpm/forces","hydraxmpm/sdf"],[("SDFCollider.apply_grid_moments","hydraxmpm/forces/sdf_collider.py"),("signed_distance_local, get_normal, get_velocity, get_surface_friction","hydraxmpm/sdf"),("_p2g / _integrate_grid / _g2p","hydraxmpm/solvers/usl.py"),("USLAFLIP._p2g / _g2p, Bp_stack","hydraxmpm/solvers/usl_asflip.py"),("Damping.apply_grid_forces / apply_pre_p2g","hydraxmpm/forces/damping.py"),("kernels","hydraxmpm/shapefunctions")],["particle velocities, positions, velocity gradients, volumes before/after each step","affine matrices"])
p("C15","Deformation, volume and stress follow the motion",
"After every step of every history (steps, dt changes, resumes, rollbacks) of a body in affine motion, the kinematic state agrees with what the particles really did: the deformation gradient (F_stack, or F_store_stack for laws that reset F) is the map the neighbouring particles have made, turning and shearing the way they turned and sheared; the volume is det F times the initial volume and density times volume is the mass; a 2D simulation has no out-of-plane rates; the stress stays symmetric; and the stress deviator of Drucker-Prager and modified Cam-Clay material turns with the body. Tolerances are those of the discretisation.",
["histories","inputs"],"all affine motions (turning, shear, stretch) x laws, solvers, kernels, 2D and 3D x step/dt/resume/rollback histories",
"The stable tests call laws with hand-made gradients; none compares a gradient, F, volume or stress rotation with the motion of the particles.",
["hydraxmpm/solvers/usl.py","hydraxmpm/solvers/usl_asflip.py","hydraxmpm/constitutive_laws"],[("USLSolver._g2p","hydraxmpm/solvers/usl.py"),("USLAFLIP._g2p","hydraxmpm/solvers/usl_asflip.py"),("remove_accumulated_shear","hydraxmpm/constitutive_laws/constitutive_law.py"),("get_jaumann_increment","hydraxmpm/utils/math_helpers.py")],["F_stack / F_store_stack","volume_stack, density_stack","stress_stack"])
p("C20","Stress stays admissible and follows the law over every history",
"Over every loading history (loading, unloading, reversal, turning, rest, dt changes, resumes, rollbacks), driven directly or inside whole simulations, after each step the stress is finite and symmetric and lies on or inside its yield surface: sqrt(J2) <= mu_1 p + mu_2 c for Drucker-Prager, (q/M)^2 + p(p - p_c) <= 0 for modified Cam-Clay, shear stress mu(I) p along the shear rate for mu(I), where pressure follows the equation of state; loose material (below the law's density limit) carries no stress and cohesionless material no tension. Inside the surface the response is the elastic law and the hardening variables do not move; when the trial state is outside, the stress ends on the surface, plastic flow follows the law's flow rule (associated for Cam-Clay, dilatancy mu_1_hat for Drucker-Prager), hardening follows the plastic strain, accumulated plastic strain never falls, and plastic flow never gives back work. Drucker-Prager's stress is that of its stored elastic strain. Linear elastic stress is the sum of its increments; fluid stress is EOS pressure plus 2 viscosity x deviatoric rate.",
["histories","inputs"],"all loading histories the explicit solvers' step limits allow x law parameters, for populations of points and for whole simulations",
"The stable tests call two laws at one input each; none follows a law over a history.",
["hydraxmpm/constitutive_laws"],[("DruckerPrager._update_stress","hydraxmpm/constitutive_laws/druckerprager.py"),("ModifiedCamClay._update_stress","hydraxmpm/constitutive_laws/modifiedcamclay.py"),("MuI_LC._update_stress","hydraxmpm/constitutive_laws/mu_i_rheology.py"),("LinearElasticLaw / NewtonFluid","hydraxmpm/constitutive_laws")],["stress_stack before/after each step","law states (elastic strain, p_c, accumulated plastic strain)"])
p("C28","Live viewer frames carry their own step and time",
"What the Rerun recording holds at a step is the data of that step: however late, often, out of order or interleaved the output callbacks (time, particles, SDF surface) are delivered, every label of every delivered step has one entry at that step and its simulation time, with exactly that step's particle positions (y flipped in 2D views), radii and colours (the requested property over its own range or the given limits; grey if the state lacks it; the given colour), and the zero level of the SDF in its pose of that step. Static objects are timeless, and in save mode everything logged ends up in the recording file.",
["schedules","histories"],"all orders, delays, duplications and thread interleavings in which the output callbacks of a run can be delivered to one visualizer",
"No test logs to a viewer; JAX debug callbacks are unordered, but a test run delivers them in order.",
["hydraxmpm/common/rerun.py"],[("RerunVisualizer.log_time","hydraxmpm/common/rerun.py"),("RerunVisualizer.log_material_points / log_sdf / log_static_domain","hydraxmpm/common/rerun.py")],["content of the saved recording"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
