NOTE = ('Exact equality of normal forms for a generic grid point / wavenumber and symbolic parameters; trusts the models of '
        'numpy, mpi4py and shenfun in sa/models.py and treats floating point as exact arithmetic.')

P('C01', 'Periodic Navier-Stokes solvers advance the Navier-Stokes equations',
  'For any velocity, viscosity, domain size and source, the rate of change used by the NS and VV solvers equals the spectrally '
  'transformed incompressible Navier-Stokes (or vorticity transport) equations: the selected form of the nonlinear term, '
  'dealiased by the selected rule, Nyquist mask, projection to a divergence-free field, viscous term and source. This holds for '
  'every convection form, dealiasing rule, mask setting, decomposition and precision, whatever the work arrays held before.',
  ['inputs', 'configurations', 'histories'],
  'all solution fields, parameters, sources; NS x {Vortex, Standard, Divergence, Skewed}, VV x {Vortex}; all dealias, mask, decomposition, precision settings; all work array contents',
  'The tests run Taylor-Green flow on one or two meshes and compare a kinetic energy; most convection forms, sources and asymmetric mistakes vanish for that symmetric flow.',
  [SOL+'NS.py', SOL+'VV.py', 'spectralDNS/maths/cross.py', 'spectralDNS/maths/maths.py'],
  [('ComputeRHS, getConvection, add_pressure_diffusion', SOL+'NS.py'), ('ComputeRHS', SOL+'VV.py')], NOTE)

P('C02', 'The MHD solver advances the incompressible MHD equations',
  'For any velocity and magnetic field, viscosity and resistivity, the rate of change used by the MHD solver equals the '
  'transformed incompressible magnetohydrodynamic equations (momentum with Maxwell stress and pressure projection, induction '
  'equation), for every dealiasing rule, mask setting, decomposition and precision and whatever the work arrays held before.',
  ['inputs', 'configurations', 'histories'],
  'all fields, nu, eta; all dealias, mask, decomposition, precision settings',
  'One Taylor-Green MHD run with one viscosity and one resistivity is compared with two energies.',
  [SOL+'MHD.py'], [('ComputeRHS, getConvection', SOL+'MHD.py')], NOTE)

P('C03', 'The 2D solvers advance the 2D Navier-Stokes and Boussinesq equations',
  'For any velocity and density field and parameters (viscosity, Richardson and Prandtl number, source for NS2D), the rate of '
  'change used by NS2D and Bq2D equals the transformed two-dimensional Navier-Stokes / Boussinesq equations, for every '
  'dealiasing rule, mask setting and precision and whatever the work arrays held before.',
  ['inputs', 'configurations', 'histories'],
  'all fields and parameters; all dealias, mask, precision settings',
  'NS2D is tested on a Taylor-Green flow whose nonlinear term is a pure gradient; Bq2D is never imported by a test.',
  [SOL+'NS2D.py', SOL+'Bq2D.py'], [('ComputeRHS', SOL+'NS2D.py'), ('ComputeRHS', SOL+'Bq2D.py')], NOTE)

P('C05', 'Explicit time integrators have their formal order on every path',
  'ForwardEuler, RK4 (classical), AB2 (Euler start) and BS5 (order 5 with embedded order 4) advance the solution by exactly the '
  'named method, time and step count advance accordingly, and rejected adaptive steps leave no trace. This holds for every '
  'solver, precision, right-hand side, number of steps, starting step count and after changes of the step size, and the adaptive '
  'step size depends only on global quantities.',
  ['inputs', 'histories', 'configurations'],
  'all right-hand sides, all step sequences incl. rejected steps, restarts at nonzero step count and changed step sizes; 5 solvers x 5 integrators',
  'Tests check energies after a few steps to 7 digits from step 0 at constant step size; rejected steps, restarts and errors below the tolerance are never seen.',
  ['spectralDNS/maths/integrators.py', 'spectralDNS/__init__.py'],
  [('getintegrator, RK4, AB2, ForwardEuler, adaptiveRK', 'spectralDNS/maths/integrators.py')],
  'Butcher tableau reconstructed from the abstract values of stage arguments and new solution, checked against the order '
  'conditions of rooted trees; the time loop is unrolled to 4 steps (2 with up to two rejections for the adaptive method).',
  technique='abstract interpretation of the time loop; Butcher tableau extraction and rooted-tree order conditions')

P('C12', 'The time loop takes every step once, in order, and ends at T',
  'For every solver, spectralDNS.solve repeats: one integrator step, advance t by the step actually taken and tstep by one, '
  'update(context), output, end_of_tstep(context); each of these sees the new solution and the new t, tstep, dt. It goes on '
  'exactly while a full step fits before T (up to round-off), the explicit solvers shorten the last step to hit T and then '
  'stop, a hook returning True stops the run, afterwards dt is restored, regression_test(context) is called once and files are '
  'closed, also when no step was taken. get_solver installs the given callbacks and returns the selected solver.',
  ['histories', 'inputs', 'configurations'],
  'all t, T, dt, tstep, step counts, adaptive step sizes, hook results; 12 solvers',
  'Tests run whole numbers of equal steps from t=0 and look at final energies only.',
  ['spectralDNS/__init__.py', 'spectralDNS/maths/integrators.py', SOL+'NS.py'],
  [('solve, get_solver', 'spectralDNS/__init__.py'), ('end_of_tstep', SOL+'NS.py')],
  'Loop unrolled to 0, 1 and 3 steps with a stub integrator and symbolic t, dt, T; guards decided by signs of linear forms.',
  technique='abstract interpretation with event-order (typestate) contract')

P('C18', 'Configured parameter values reach the solver as given',
  'For every mesh type, solver and declared parameter, params holds the value from the command line if given, else the one '
  'given to config.update, else the documented default; giving one parameter changes no other. Undocumented choices, '
  'ill-typed values, unknown options and solvers are rejected, every documented choice is accepted and every offered solver '
  'can be selected. N is 2**M unless N is given, L entries may be expressions in pi, dx = L/N, params.x and params["x"] are '
  'the same, and nu, dt, eta, Ri, Pr are delivered in the selected precision.',
  ['configurations', 'inputs'],
  'all declared parameters of 3 mesh types and 13 solvers; symbolic values for numeric parameters',
  'Tests set a few parameters to one value each, through one of the routes.',
  ['spectralDNS/config.py', 'spectralDNS/__init__.py'],
  [('Params, parsers, update', 'spectralDNS/config.py'), ('get_solver', 'spectralDNS/__init__.py')],
  'argparse is modelled after its documentation; numeric values given to config.update are symbolic, command line tokens are '
  'one representative per option.',
  technique='constant and symbol propagation through config.py with a model of argparse')

P('C13', 'Result and checkpoint files hold exactly the solution that is due',
  'For every solver, the run appends to the results file the physical-space fields of the current solution (velocity, and '
  'where offered pressure, vorticity, magnetic field, density or temperature) at exactly the steps divisible by write_result, '
  'labelled with that step, and overwrites the checkpoint with the current (and, for two-level schemes, previous) spectral '
  'solution together with time and step count at exactly the steps divisible by checkpoint. Earlier '
  'snapshots are never altered, append mode keeps what an existing file holds, and a user-supplied file name, field list and '
  'update_components is honoured.',
  ['histories', 'inputs', 'configurations'],
  'all solution values; 12 solvers x schedules of write_result, checkpoint and start step; write and append mode; custom fields',
  'The tests never read a file back, and switch output off.',
  ['spectralDNS/h5io/HDF5File.py', SOL+'NS.py', SOL+'KMM.py'],
  [('HDF5File', 'spectralDNS/h5io/HDF5File.py'), ('NSFile, KMMFile, ... .update_components', SOL)],
  'Schedules are a finite grid of (start, write_result, checkpoint, number of steps); HDF5 and shenfun HDF5File are modelled '
  'by an abstract disk.',
  technique='abstract interpretation with an abstract disk: contents as symbolic snapshots')

P('C15', 'The stop file ends a run cleanly on all ranks after a checkpoint',
  'When a file killspectraldns is present in the working directory as seen by any rank, every rank leaves at the end of the '
  'same step, with nonzero exit status, after a complete checkpoint of that step was written whether or not one was due; rank 0 '
  'alone removes the file. Without the file no run is stopped and no checkpoint is written that is not due.',
  ['schedules', 'histories'],
  'all ranks and file system views, all steps, due/not due output and checkpoints; 12 solvers',
  'No test creates the file or runs on several ranks.',
  ['spectralDNS/h5io/HDF5File.py', 'spectralDNS/__init__.py'],
  [('HDF5File.update, check_if_kill', 'spectralDNS/h5io/HDF5File.py')],
  'Rank 0 and one other rank; uniformity is shown by the decision depending on a reduction only.',
  technique='abstract interpretation with rank-uniformity taint and event-order contract')

P('C07', 'KMM and KMMr take the Crank-Nicolson/Adams-Bashforth channel flow step',
  'For any velocity, wall normal vorticity, history, viscosity, step size and forcing, every time step of KMM and KMMr yields '
  'the solution of the velocity-vorticity form of the channel flow equations: fourth order equation for the wall normal '
  'velocity, Helmholtz equation for the wall normal vorticity, other components from continuity and vorticity, and the momentum '
  'equations with forcing for the mean mode; linear terms by Crank-Nicolson, convection by second order Adams-Bashforth '
  'with the history of the previous step, over any number of steps, for every quadrature, dealiasing rule, mask setting, '
  'decomposition and rank.',
  ['inputs', 'histories', 'configurations'],
  'all solution fields, histories, nu, dt, forcing; KMM, KMMr x quadrature x dealias x mask x decomposition x rank; three consecutive steps',
  'Tests follow one Orr-Sommerfeld wave for which one Fourier mode is nonzero, and accept its growth to a tolerance.',
  [SOL+'KMM.py', SOL+'KMMr.py'],
  [('solve_linear, assembleAB, add_linear, compute_vw, ComputeRHS, end_of_tstep', SOL+'KMM.py'), ('same, wall normal last', SOL+'KMMr.py')], NOTE)

P('C08', 'KMMRK3 takes the three stage low-storage channel flow step',
  'For any velocity, wall normal vorticity, viscosity, step size and forcing, every stage of every time step of KMMRK3 yields '
  'the stage solution of the low-storage third order Runge-Kutta/Crank-Nicolson scheme (Spalart, Moser, Rogers) of the '
  'velocity-vorticity form of the channel flow equations, including the mean mode with forcing, for every quadrature, '
  'dealiasing rule, mask setting, decomposition and rank, with no influence of data left by earlier steps.',
  ['inputs', 'histories', 'configurations'],
  'all solution fields, nu, dt, forcing; quadrature x dealias x mask x decomposition x rank; six consecutive stages',
  'Tests follow one Orr-Sommerfeld wave for which one Fourier mode is nonzero, and accept its growth to a tolerance.',
  [SOL+'KMMRK3.py', SOL+'KMM.py'],
  [('RKStage, solve_linear, assembleAB', SOL+'KMMRK3.py')], NOTE)

P('C09', 'The coupled channel solvers solve the implicit velocity-pressure step',
  'For any velocity, history, viscosity, step size and forcing, each time step of Coupled and each Runge-Kutta stage of '
  'CoupledRK3 solves exactly one block system, whose matrix and right-hand side are those of the implicit step of the '
  'Navier-Stokes equations in velocity and pressure (momentum with Crank-Nicolson diffusion, second order Adams-Bashforth or '
  'low-storage Runge-Kutta convection, constant forcing, and continuity), with the pressure level fixed, and takes its solution '
  'as the new state, for every quadrature, dealiasing rule, mask setting, decomposition and rank.',
  ['inputs', 'histories', 'configurations'],
  'all solution fields, histories, nu, dt, forcing; Coupled, CoupledRK3 x quadrature x dealias x mask x decomposition x rank; three steps or six stages',
  'No test imports these solvers.',
  [SOL+'Coupled.py', SOL+'CoupledRK3.py'],
  [('assembleAB, add_linear, solve_linear, ComputeRHS', SOL+'Coupled.py'), ('RKStage', SOL+'CoupledRK3.py')],
  NOTE + ' The block solver itself is shenfun\'s and is trusted.')

P('C10', 'The Rayleigh-Benard solvers advance momentum and temperature together',
  'For any velocity, temperature, history, viscosity, thermal diffusivity kappa, step size and forcing, every step of KMM_RB and '
  'every Runge-Kutta stage of KMMRK3_RB yields the solution of the Boussinesq equations of a channel heated at one wall: the '
  'channel flow step of KMM/KMMRK3 with the temperature as buoyancy in the wall normal momentum, and a Helmholtz equation for '
  'the temperature with Crank-Nicolson diffusion and explicit advection by the velocity (divergence form with the extrapolated temperature in '
  'KMM_RB, u.grad T with low-storage Runge-Kutta weights in KMMRK3_RB), using the wall temperatures and the history of the '
  'previous steps, for every quadrature, dealiasing rule, mask setting, decomposition and rank.',
  ['inputs', 'histories', 'configurations'],
  'all solution fields, temperatures, histories, nu, kappa, dt, forcing; KMM_RB, KMMRK3_RB x quadrature x dealias x mask x decomposition x rank; three steps or six stages',
  'No test imports these solvers.',
  [SOL+'KMM_RB.py', SOL+'KMMRK3_RB.py', SOL+'KMM.py', SOL+'KMMRK3.py'],
  [('ComputeRHS, solve_linear, DivRBConvection, end_of_tstep', SOL+'KMM_RB.py'), ('ComputeRHS, StandardRBConvection', SOL+'KMMRK3_RB.py')], NOTE)

P('C11', 'Channel solvers evaluate the selected convection form',
  'For any velocity field, get_convection and every convection evaluation of a time step of the channel solvers (KMM, KMMr, '
  'KMMRK3, KMM_RB, KMMRK3_RB, Coupled, CoupledRK3) give, for convection Standard -(u.grad)u, for Divergence -div(uu), for Skew '
  'their mean and for Vortex u x curl(u) (the convective part up to a gradient), in every component and every '
  'direction including the wall normal one, with all products formed in the dealiased space, and leave the solution unchanged.',
  ['inputs', 'configurations'],
  'all velocity fields; 7 solvers x 4 forms x dealias x quadrature x decomposition x rank',
  'The channel tests only use Vortex, for which a single Fourier mode is nonzero.',
  [SOL+'KMM.py', SOL+'KMMr.py', SOL+'KMMRK3.py', SOL+'Coupled.py'],
  [('getConvection, standardConvection, divergenceConvection, compute_curl, Cross', SOL+'KMM.py')], NOTE)

P('C06', 'Optimised kernels compute what the reference implementation computes',
  'For every solver, selecting optimization numba, cython or pythran changes neither the rate of change, the convection terms, the '
  'linear step, the time integrators, nor the derived fields (velocity, vorticity, divergence, pressure): each compiled kernel that is '
  'selected for a function gives, for all field values, parameters and step counts, in both precisions, the same result as the '
  'NumPy implementation, accepts the arrays and scalars it is called with, never indexes outside an array, and functions without a '
  'compiled kernel fall back to NumPy.',
  ['inputs', 'configurations', 'histories'],
  'all field values; 12 solvers x numba, cython, pythran x precision x dealias x mask x integrators x convection forms',
  'Tests reload the solver module only, so kernels bound in spectralDNS.maths stay unoptimised; single precision, 2D kernels, rotational '
  'and padded variants are hardly reached, and results are compared to a tolerance on one flow.',
  ['spectralDNS/optimization/__init__.py', 'spectralDNS/optimization/numba_module.py', 'spectralDNS/optimization/cython_maths.in',
   'spectralDNS/optimization/cython_integrators.in', 'spectralDNS/optimization/cython_solvers.in', 'spectralDNS/optimization/pythran_maths.py'],
  [('optimizer', 'spectralDNS/optimization/__init__.py'), ('the kernels', 'spectralDNS/optimization/')],
  'The Cython templates (.in) are parsed by an own front end (declared types, C integer and loop semantics, boundscheck off); native code '
  'generation by Cython, numba and pythran is trusted.',
  technique='abstract interpretation of kernel and reference implementation to a common normal form; type and index range checks')

P('C19', 'Derived fields are those of the current solution',
  'For every solver and any solution, get_velocity, get_curl, get_divergence and get_pressure (the pressure of NS, NS2D and Bq2D '
  'after an evaluation of the rate of change), get_rho, get_Ur, set_velocity and compute_derivatives return the physical-space '
  'velocity, vorticity, divergence, pressure, density, velocity and magnetic field, or velocity gradients of the '
  'current solution, in every component and direction, on the nominal mesh, whatever the work arrays held before, and '
  'change neither the solution nor the history of the time integrator.',
  ['inputs', 'configurations', 'histories'],
  'all solution fields; 12 solvers x dealias x quadrature x decomposition x mask; all stale contents of work arrays',
  'The derived fields are only used by the tests through energies in a few regression functions.',
  [SOL+'NS.py', SOL+'VV.py', SOL+'MHD.py', SOL+'NS2D.py', SOL+'Bq2D.py', SOL+'KMM.py', SOL+'KMMr.py', SOL+'Coupled.py'],
  [('get_velocity, get_curl, get_divergence, get_pressure, set_velocity', SOL+'NS.py'), ('compute_derivatives, get_curl', SOL+'KMM.py')],
  NOTE + ' The pressure of the channel solvers is not covered (three of them raise).')

P('C04', 'The velocity field stays divergence free',
  'For every solver the discrete flow is incompressible: for the periodic solvers the divergence of the evaluated rate of change of the '
  'velocity (and of the vorticity of VV and the magnetic field of MHD) is, for any fields, exactly -nu k^2 (eta k^2) times the divergence '
  'of the solution plus the divergence of the source, and every integrator advances all components by one common combination of these '
  'rates; for the channel solvers every step and Runge-Kutta stage ends with a velocity whose discrete divergence vanishes in every '
  'mode, including a zero mean wall normal velocity, or, for the coupled solvers, continuity is part of the block system solved.',
  ['inputs', 'configurations', 'histories'],
  'all fields, sources, parameters; 12 solvers x dealias x mask x decomposition x quadrature x rank x integrators x convection forms',
  'No test looks at the divergence; the tested flows are two-dimensional or satisfy it by symmetry.',
  [SOL+'NS.py', SOL+'VV.py', SOL+'MHD.py', SOL+'NS2D.py', SOL+'Bq2D.py', SOL+'KMM.py', SOL+'KMMr.py', SOL+'Coupled.py', 'spectralDNS/maths/integrators.py'],
  [('add_pressure_diffusion', SOL+'NS.py'), ('compute_vw, solve_linear', SOL+'KMM.py'), ('getintegrator', 'spectralDNS/maths/integrators.py')], NOTE)

P('C16', 'All ranks take the same sequence of collective operations',
  'In every parallel run all ranks perform the same sequence of collective operations (creation of function spaces, transforms, '
  'reductions, broadcasts, file operations, termination) through setup, time stepping with any integrator including rejected adaptive '
  'steps, derived fields, output, checkpoints, the stop file and the final timings, so that a run cannot deadlock. No collective '
  'operation is reached only on ranks selected by rank number, local field values, local array sizes, clock times or local directory '
  'listings; step sizes and stop decisions are equal on all ranks.',
  ['schedules', 'inputs', 'configurations'],
  'all ranks, field values, clock times; 12 solvers x dealias x decomposition x convection forms x integrators, rejected steps, stop file',
  'The tests run on one rank.',
  ['spectralDNS/__init__.py', 'spectralDNS/maths/integrators.py', 'spectralDNS/h5io/HDF5File.py', 'spectralDNS/utilities/__init__.py', SOL],
  [('adaptiveRK (reduce, bcast)', 'spectralDNS/maths/integrators.py'), ('HDF5File.update', 'spectralDNS/h5io/HDF5File.py'),
   ('Timer.final, MemoryUsage, dx', 'spectralDNS/utilities/__init__.py')],
  'Rank 0 and one other rank stand for all; make_profile (whose reductions follow the local profile) is not covered.',
  technique='abstract interpretation per rank: comparison of collective event sequences, control-dependence taint of rank-local values')

P('C17', 'Results do not depend on rank, number of ranks or decomposition',
  'For every solver the rates of change, integrator and channel steps, step sizes, convection terms, derived fields and the contents of '
  'result and checkpoint files are the same functions of the global input on every rank, for any number of ranks and for slab and '
  'pencil decomposition. Nothing computed depends on the local extent of an array, the rank number or an unreduced local sum; the '
  'mean Fourier mode of the channel solvers is treated exactly by the rank that holds it.',
  ['configurations', 'schedules', 'inputs'],
  'all fields and parameters; 12 solvers x rank 0 / another rank x slab / pencil x dealias x mask x forms x integrators',
  'The tests run on one rank.',
  [SOL, 'spectralDNS/maths/integrators.py', 'spectralDNS/h5io/HDF5File.py'],
  [('solve_linear (mean mode)', SOL+'KMM.py'), ('adaptiveRK (error norm)', 'spectralDNS/maths/integrators.py')],
  'Rank 0 and one other rank stand for all; that the transforms themselves are decomposition independent is shenfun\'s guarantee and trusted.',
  technique='relational abstract interpretation: normal forms per rank and decomposition compared, taint of rank-local values')

P('C14', 'Computed flows converge to the solution of the equations',
  'As the mesh is refined and the time step is reduced, the computed velocity, magnetic field and temperature of every solver converge '
  'to the exact solution, spectrally in space and with the order of the chosen integrator in time, as long as the step is inside the '
  'stability region.',
  ['inputs', 'configurations'], 'all smooth initial states, meshes, step sizes',
  'A test measures the error of one flow on one mesh.',
  [SOL, 'spectralDNS/maths/integrators.py'], [('solve', 'spectralDNS/__init__.py')], '',
  na='Accuracy, stability and convergence are bounds on run time quantities (norms of discretisation errors along a nonlinear flow); '
     'no static argument in reach bounds them. What is decidable from the source, consistency of the semi-discrete right-hand sides '
     'and the formal order of the schemes, is claimed in C01-C05 and C07-C10.')

P('C20', 'A restarted run continues bit for bit',
  'A run that is stopped, written to a checkpoint and restarted from it produces the same numbers, to the last bit, as the run that was '
  'not stopped.',
  ['histories', 'crash_points'], 'all stop times and solvers',
  'No test restarts a run.',
  ['spectralDNS/h5io/HDF5File.py'], [('HDF5File.update', 'spectralDNS/h5io/HDF5File.py')], '',
  na='Round-off level reproducibility depends on the FFT planner, the reduction order of MPI and the floating point arithmetic of '
     'compiled kernels, none of which the source determines; the repository also has no reader that restores a checkpoint, only demo '
     'code. That the checkpoint holds exactly the fields that are due is claimed in C13 and C15.')

P('C21', 'A crash while writing leaves the previous files readable',
  'When a run is killed while it writes a snapshot or checkpoint, the snapshots written earlier can still be read.',
  ['crash_points'], 'all points at which the process can die',
  'No test kills a run.',
  ['spectralDNS/h5io/HDF5File.py'], [('HDF5File.update', 'spectralDNS/h5io/HDF5File.py')], '',
  na='Decided by HDF5\'s write ordering, which is not in /repo (spectralDNS issues plain writes to an open file and makes no attempt at '
     'atomic replacement), so there is nothing in this source to decide it from.')

P('C22', 'The optimised kernels are faster and the code scales',
  'Selecting an optimisation reduces the run time of a step, and run time scales with the number of ranks up to the limit of the '
  'decomposition.',
  ['configurations'], 'all optimisations, mesh sizes and numbers of ranks',
  'Timing is not tested.',
  ['spectralDNS/optimization/__init__.py'], [('optimizer', 'spectralDNS/optimization/__init__.py')], '',
  na='Performance is a run time quantity of machine, compiler and MPI library; static analysis of the source does not determine it.')
