"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, observe=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}}
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append((d, claim, na))


prop('C01', 'Runs and solutions sharing one process do not disturb each other',
     'Any number of simulations built and advanced in one process - one after the other, alternately or in preempted '
     'threads, from their own decks, from snapshots, or as copies of a common solution - each end in exactly the state and '
     'write exactly the files they produce when alone. Advancing or changing a copy leaves the solution it was copied from '
     'as it was, and the other way round.',
     ['schedules', 'configurations', 'histories'],
     'for every set of decks, every way of starting them and every interleaving of their execution at line or bytecode granularity',
     'The tests build one object at a time and the regressions start one process per case, so nothing ever shares a process; '
     'the schedule quantifier is untouched.',
     ['dg1d/solution.py', 'dg1d/euler_physics.py', 'dg1d/constants.py', 'dg1d/rk.py', 'dg1d/dg.py', 'dg1d/limiting.py',
      'dg1d/enhance.py', 'dg1d/sensor.py'],
     [('per-solution constants bound to the physics functions', 'dg1d/solution.py: Solution.bind'),
      ('deep copies', 'dg1d/solution.py: Solution.copy'), ('work arrays owned by each object', 'dg1d/dg.py, dg1d/limiting.py, dg1d/enhance.py')],
     claim=('simulated threads preempted by seeded schedules, each compared with its solo run',
            'Two or three real solver threads under a cooperative scheduler that preempts at dg1d line/bytecode events by a '
            'seeded schedule; states and files compared to the byte with solo runs. Sampled schedules; preemption inside '
            'numpy calls is not modelled.'))

prop('C02', 'The output is a function of the input deck alone',
     'Running the program twice on the same deck gives the same output files to the byte, whatever the directory already '
     'holds, wherever the deck is, what the clock and the entropy source say, what uninitialised memory holds, whether git is '
     'there, and what was run earlier in the same process. Files which are not outputs of the run are left alone.',
     ['configurations', 'histories', 'fault_sequences'],
     'for every deck and every environment: leftovers of earlier or interrupted runs, clock jumps, hash seeds, recycled memory, missing git, earlier runs in the same process that succeeded, failed or were interrupted',
     'The regressions run once in one environment and compare to a tolerance of 1e-10; no test varies the environment or the past.',
     ['dg1d/main.py', 'dg1d/solution.py', 'dg1d/rk.py', 'dg1d/dg.py'],
     [('git version is informative only', 'dg1d/main.py: get_git_revision_hash'), ('wall clock is informative only', 'dg1d/main.py'),
      ('outputs named by field and output number', 'dg1d/solution.py: format_fnames')],
     claim=('differential simulation of a clean and a disturbed environment, seeded disturbances',
            'Byte comparison of every output between a clean and a disturbed simulated process. The environment (clock, '
            'entropy, allocations, directory, git, process history) is simulated; other machines and numpy builds are not.'))

prop('C03', 'Exactly the requested outputs, at the requested times, with that content',
     'A successful run writes exactly the requested number of snapshots, numbered from zero and evenly spaced in time from the '
     'start to the final time, both included, each labelled with its own time and step number. The content of a snapshot is the '
     'state of the solution at that step, step numbers never decrease, and the run ends at the final time.',
     ['inputs', 'histories', 'configurations'],
     'for every number of outputs (at least two), final time, starting time and step, scheme and every history of the wave speed, that is, of the time steps',
     'Three unit tests call the helper that shortens one time step with three hand-made numbers; the loop of outputs over a changing time step is never checked, the regressions have two outputs.',
     ['dg1d/rk.py', 'dg1d/solution.py', 'dg1d/main.py'],
     [('shortening a step for an output', 'dg1d/rk.py: adjust_for_output'), ('loop over outputs', 'dg1d/rk.py: classic_rk, low_storage_rk4'),
      ('writing', 'dg1d/solution.py: printer')],
     claim=('seeded search over scripted time-step histories, outputs read back and compared',
            'The integrator and writer are real; in most scenarios the spatial operator is scripted to steer the time step '
            'through arbitrary histories, in others everything is real. Times checked to rounding.'))

prop('C04', 'Every time step respects the CFL condition, is maximal, and makes progress',
     'No time step is larger than the CFL number times the cell size over the largest signal speed (from the cell averages of the '
     'state it starts from) over 2p+1, nor passes the next output time. No step is smaller than both limits require either (except '
     'one of length zero at an output), each advances the step number by one, and a run takes a bounded number of steps.',
     ['inputs', 'histories', 'configurations'],
     'for every history of the wave speed, location of the fastest cell, order, mesh, CFL number, starting time and output schedule',
     'The maximal wave speed is unit-tested on one state; how the step follows a changing state over a run is never tested.',
     ['dg1d/rk.py', 'dg1d/euler_physics.py', 'dg1d/advection_physics.py', 'dg1d/solution.py'],
     [('CFL step', 'dg1d/rk.py: cfl_time_step'), ('wave speed', 'dg1d/euler_physics.py: max_wave_speed'),
      ('next step', 'dg1d/rk.py: get_next_time_step')],
     claim=('seeded search over scripted wave-speed histories, every step checked as an invariant',
            'Each step of each simulated run is compared with an independently computed limit; runs are bounded by a step '
            'budget (liveness). Sampled histories.'))

prop('C05', 'A snapshot gives back exactly what was written, or refuses to load',
     'Loading a snapshot gives back step number, time (to the printed digits that make it exact), boundary conditions, mesh, order and every coefficient '
     'exactly as written, also into an object that held something else, and what is loaded behaves as what was saved. A '
     'snapshot of which a field is missing, damaged or can not be read, belongs to another instant, mesh or order, or names an unknown boundary condition is refused with an error '
     'before it is used.',
     ['inputs', 'histories', 'fault_sequences'],
     'for every finite content of a solution, every sequence of saves, loads and overwrites under numbers of any size, short reads and writes, read errors, missing or mixed field files',
     'No test loads a snapshot (or writes one and reads it back).',
     ['dg1d/solution.py'],
     [('writing', 'dg1d/solution.py: printer, save_table'), ('reading', 'dg1d/solution.py: loader')],
     claim=('seeded histories of saves, loads and disk faults against an in-memory model, exact comparison',
            'Bit-exact round trips of arbitrary doubles through the real writer and reader over a fault-injecting disk. Bit rot '
            'inside a file which keeps it well-formed is not detectable by the format and not claimed.'))

prop('C06', 'Stopping and restarting does not change the trajectory',
     'A simulation that is stopped, killed, copied, and continued from its snapshots in new processes (any number of times, also '
     'from the last snapshot a crash left) follows the same trajectory, with the same outputs, as one that is advanced through the same output times in one go; '
     'differences stay at rounding level.',
     ['histories', 'crash_points', 'configurations'],
     'for every deck, every division of the run into segments, every crash instant and every mixture of reloading, copying and continuing in memory',
     'Restart is not tested at all; it needs histories of several processes.',
     ['dg1d/solution.py', 'dg1d/rk.py', 'dg1d/dg.py', 'dg1d/limiting.py'],
     [('loading', 'dg1d/solution.py: loader'), ('boundary conditions of a loaded solution', 'dg1d/solution.py: apply_bc'),
      ('scaled inverse mass matrix of a loaded solution', 'dg1d/solution.py: loader'), ('copying', 'dg1d/solution.py: copy')],
     claim=('simulated crashes and restarts in forked processes against an uninterrupted run',
            'Crash = process death at an arbitrary I/O event; only what reached the simulated disk survives. Compared to 1e-9 '
            'of the field scale; ill-conditioned cases (perturbation ensemble) are not decided.'))

prop('C07', 'A crash never leaves a partial snapshot, and a rerun repairs everything',
     'At every instant, and after the program was killed at any instant, each visible snapshot file is a complete file of the '
     'present or of an earlier run, and no earlier one has disappeared. Running the program again afterwards gives the outputs '
     'of an undisturbed run.',
     ['crash_points', 'histories'],
     'for every deck, every crash instant (before, after, in the middle of every I/O call, between any two lines), several crashes in a row, in clean directories and over earlier results',
     'No test kills a run.',
     ['dg1d/solution.py', 'dg1d/main.py', 'dg1d/rk.py'],
     [('temporary file and rename', 'dg1d/solution.py: save_table')],
     claim=('seeded crash injection at I/O calls (also torn writes) and code lines, disk state checked after each event',
            'Process-crash model (data given to the OS survives; loss of the OS page cache is not modelled, the program makes no '
            'fsync promise). Checks after every mutating system call.'))

prop('C08', 'A failed disk, allocation or interrupt never passes as success',
     'If the program reports success then every output is there and right, whatever system call, memory allocation or interrupt '
     'failed on the way. If it fails, whatever snapshot files are visible are complete and right; a missing or failing git does '
     'not make it fail.',
     ['fault_sequences', 'inputs'],
     'for every deck and every sequence of injected failures of open, read, write (also after partial writes), close, rename, standard output, memory allocation at any line, keyboard interrupt at any line',
     'No test injects a failure.',
     ['dg1d/solution.py', 'dg1d/main.py', 'dg1d/rk.py', 'dg1d/deck.py'],
     [('exceptions propagate', 'dg1d/solution.py: printer, save_table; initial conditions'), ('git is optional', 'dg1d/main.py: get_git_revision_hash')],
     claim=('seeded fault injection at the system-call and line level, outcome compared with the undisturbed run',
            'Faults at the Python file layer seam and at line events; C-level allocation failures inside numpy are represented by MemoryError at lines.'))

prop('C09', 'A solution that is no longer finite never passes as a result',
     'Once a coefficient of the solution is not a finite number, from an unstable or unphysical run, its initial data, a snapshot or a '
     'corruption, no further time step starts, no snapshot with such values is written by the integration, and the run ends with an error. It neither '
     'completes nor goes on forever.',
     ['inputs', 'fault_sequences', 'histories'],
     'for every deck (stable or not) and every corruption (NaN, infinities, bit flips) of increments, state, initial data or loaded data at any step, cell, mode and field',
     'No test runs an unstable case to its end.',
     ['dg1d/rk.py', 'dg1d/solution.py'],
     [('sanity checks', 'dg1d/rk.py: sanity_check_dt, sanity_check_solution')],
     claim=('seeded corruption of increments, states and data during simulated runs',
            'Every step start, every file and the exit status are checked. Corruptions which stay finite are only required not to hang.'))

prop('C10', 'Mass, momentum and energy are conserved over every history',
     'On periodic domains the integral of every conserved field stays what it was at the start, and on open domains it changes by '
     'exactly the flow through the ends, at every step and output; differences stay at rounding level. This holds with limiting, enhancement and across restarts.',
     ['inputs', 'histories', 'configurations'],
     'for every initial data, scheme, Riemann solver, order, limiter and enhancement setting, number of steps and history of reloads, copies and crashes',
     'The regressions compare six end states; conservation over arbitrary data and histories is not examined.',
     ['dg1d/dg.py', 'dg1d/solution.py', 'dg1d/limiting.py', 'dg1d/rk.py', 'dg1d/euler_physics.py', 'dg1d/enhance.py'],
     [('one flux per interface, added with opposite signs', 'dg1d/dg.py: residual, add_interior_face_fluxes'),
      ('limiter preserves averages', 'dg1d/limiting.py: limit_monomial'), ('ghost cells', 'dg1d/solution.py: apply_bc')],
     claim=('conservation invariant checked at every step and stage of seeded histories with restarts and crashes',
            'Sums checked to rounding at each stage, step, snapshot. Open domains only while no wave has reached the ends.'))

prop('C11', 'A uniform flow stays uniform',
     'A constant state stays that constant state (to rounding) at every step and output, whatever the scheme, order, Riemann solver, '
     'limiter, enhancement, boundary conditions, mesh and history of restarts, and running it never fails.',
     ['inputs', 'histories', 'configurations'],
     'for every constant state (at rest, sub- and supersonic, both directions) and every deck, over histories of integrations, reloads, copies, crashes',
     'Unit tests evaluate single functions at single states.',
     ['dg1d/dg.py', 'dg1d/solution.py', 'dg1d/euler_physics.py', 'dg1d/enhance.py', 'dg1d/limiting.py', 'dg1d/basis.py', 'dg1d/rk.py'],
     [('consistent fluxes', 'dg1d/euler_physics.py: riemann_*'), ('enhancement reproduces constants', 'dg1d/enhance.py'), ('boundary conditions', 'dg1d/solution.py: apply_bc')],
     claim=('fixed-point invariant checked at every step of seeded histories with restarts and crashes', 'Deviation bounded by 1e-10 per step of the state scale.'))

prop('C12', 'The trajectory is that of the discretisation, whatever the history',
     'At every output the coefficients are those which the documented discontinuous Galerkin discretisation (projection of the initial '
     'condition, chosen Riemann solver, enhancement, sensors and hierarchical limiting after every stage, chosen Runge-Kutta scheme, CFL-limited steps) '
     'gives for the deck. This holds for every history of outputs, integrations, reloads, copies, crashes.',
     ['inputs', 'histories', 'configurations', 'crash_points'],
     'for every deck within the supported options, original or disturbed initial data, and every history of segments, reloads, copies, crashes',
     'Six regressions compare one end state each (Euler, one scheme); unit tests check single helper functions; advection runs, enhancement in runs, most schemes, and any history are untested.',
     ['dg1d/main.py', 'dg1d/rk.py', 'dg1d/rk_coeffs.py', 'dg1d/dg.py', 'dg1d/solution.py', 'dg1d/basis.py', 'dg1d/enhance.py',
      'dg1d/limiting.py', 'dg1d/sensor.py', 'dg1d/euler_physics.py', 'dg1d/advection_physics.py'],
     [('time loop', 'dg1d/rk.py'), ('spatial operator', 'dg1d/dg.py: residual'), ('initial conditions', 'dg1d/solution.py'), ('limiting', 'dg1d/limiting.py')],
     claim=('refinement check of simulated histories against an independently written reference model',
            'An independent scalar implementation is stepped alongside; agreement to 1e-8 of the field scale (1e-5 with the iterative '
            'Godunov solver). Ill-conditioned cases are recognised by a perturbation ensemble and not decided.'))

prop('C13', 'A run does what its deck says, however the deck is laid out or delivered',
     'A deck means the same in any order of its sections, with comments, unknown sections, blanks at line ends, other line ends, repeated sections (the last counts) and defaults left out, '
     'read in pieces of any size, written by hand or by the deck writer. A deck which can not be read, ends right after a section title, or '
     'has an unknown initial condition or a word where a number belongs makes the run fail without any output, and a deck writer that '
     'reports success has written all of it.',
     ['inputs', 'fault_sequences', 'configurations'],
     'for every problem definition, layout, division into read and write calls, and disk error',
     'The deck reader is only used through six fixed decks of one layout.',
     ['dg1d/deck.py', 'dg1d/main.py', 'dg1d/solution.py'],
     [('parser', 'dg1d/deck.py: Deck.parser'), ('defaults', 'dg1d/deck.py: Deck.__init__'), ('writer', 'dg1d/deck.py: write_deck')],
     claim=('seeded layouts and disk faults, runs compared to the byte with the same settings given through the API',
            'Layouts as listed; malformed decks beyond those listed (e.g. a cut inside a value) can not be recognised by the format and are not claimed.'))

prop('C14', 'Limiting is memoryless, local, and keeps every cell average',
     'Limiting a state gives a result which depends on that state alone, not on what the limiter or solution did before, changes only cells '
     'flagged by the sensors of that state, keeps every cell average, and depends on a cell and its two neighbors only. The sensor '
     'output of a limited run holds the flags of the snapshot it accompanies.',
     ['histories', 'inputs', 'configurations', 'fault_sequences'],
     'for every history of states, copies, reloads and interrupted limitings, and every order, mesh and threshold',
     'Unit tests limit one hand-made state once with a new object; interplay over a history is not tested.',
     ['dg1d/limiting.py', 'dg1d/sensor.py', 'dg1d/euler_physics.py', 'dg1d/advection_physics.py', 'dg1d/solution.py'],
     [('sensors cleared', 'dg1d/sensor.py: sensing'), ('limiting into a fresh array', 'dg1d/limiting.py: adaptive_hr'),
      ('average preserved', 'dg1d/limiting.py: limit_monomial'), ('sensor output', 'dg1d/solution.py: printer')],
     claim=('seeded state histories through one limiter against fresh objects and a reference model',
            'Exact flags, values to 1e-12 against fresh objects and 1e-9 against the model where well-conditioned.'))

prop('C15', 'No place and no direction is special',
     'On a periodic domain, shifting the initial data by whole cells shifts the result, and for the Euler equations with a symmetric Riemann solver, mirroring the '
     'initial data (momentum with its sign) mirrors the result, on periodic and open domains; differences stay at rounding level. This holds over histories with limiting, enhancement '
     'and restarts (except, for mirroring, flags of the shock detector, whose published criterion looks at one family of waves).',
     ['inputs', 'histories', 'configurations'],
     'for every disturbed initial data, shift, deck and history',
     'Tests examine one position and one direction.',
     ['dg1d/dg.py', 'dg1d/solution.py', 'dg1d/euler_physics.py', 'dg1d/enhance.py', 'dg1d/limiting.py', 'dg1d/rk.py'],
     [('same operations in every cell', 'dg1d/dg.py: residual'), ('boundary cells', 'dg1d/solution.py: apply_bc, add_ghosts'),
      ('left and right enhancement', 'dg1d/enhance.py')],
     claim=('metamorphic comparison of simulated histories under shifts and mirrors of the initial data',
            'Agreement to 1e-9; ill-conditioned cases not decided. Roe and Rusanov for mirrors.'))

prop('C16', 'The integrator follows its Runge-Kutta scheme for any operator',
     'For any spatial operator, also one that depends on time, any starting step and time, any output schedule and repeated integrations, each '
     'snapshot and the final state are those the chosen Runge-Kutta scheme gives for the steps taken, every stage being evaluated at its own time and state.',
     ['programs', 'inputs', 'histories', 'configurations'],
     'for generated operators (time-dependent, coupled, nonlinear), all nine schemes and the default, arbitrary schedules',
     'The integrators themselves have no test; regressions use an operator that does not depend on time and one scheme.',
     ['dg1d/rk.py', 'dg1d/rk_coeffs.py', 'dg1d/solution.py'],
     [('stages', 'dg1d/rk.py: classic_rk, low_storage_rk4'), ('coefficients', 'dg1d/rk_coeffs.py'), ('vector operations', 'dg1d/solution.py: smart_axpy, copy_data_only')],
     claim=('simulated integrations of generated time-dependent operators against an independent Runge-Kutta model',
            'Tables of the schemes are those of the literature, checked against the order conditions by `python -m sim tables`.'))

prop('C17', 'The convergence study has run every case it announces, or fails',
     'The convergence study (advection_convergence/run.py) runs, in whatever directory it is started and whatever earlier studies left '
     'there, one solver process per order and resolution in a directory of its own, with the deck of this case. If it reports success, each of these '
     'directories holds the deck, the log and all results of one complete, successful run of this case and nothing else, and nothing is left of earlier studies of the order unless it could not be removed; if a run fails, is killed or can '
     'not be started, the study fails. It touches nothing outside the directories of its cases, and a study which was killed can be started again.',
     ['fault_sequences', 'crash_points', 'configurations', 'histories'],
     'for every starting directory, remains of earlier studies, failure of a run or of a system call of the study, and point where the study is killed',
     'The study has no test; it had been running nothing at all and reporting success.',
     ['advection_convergence/run.py', 'dg1d/deck.py', 'dg1d/main.py'],
     [('starting the code', 'advection_convergence/run.py: runcode'), ('loop over cases', 'advection_convergence/run.py'), ('decks of the cases', 'dg1d/deck.py: write_deck')],
     claim=('simulated studies with failing child processes, I/O faults, crashes and restarts',
            'The study is the real script; the solver processes it starts are imitated (they parse the real deck and write outputs and log, or fail as the '
            'schedule says), in part of the scenarios the solver itself runs for the small cases.'))

prop('C18', 'A run needs no more memory, files or work the longer it goes on',
     'However many time steps and outputs a run has behind it, and however many simulations a process has built, advanced, copied, written, loaded '
     'and dropped before (also ones which failed), the memory, open files and threads held do not keep growing, and a step or an output costs no more than the earlier ones.',
     ['histories', 'configurations'],
     'for every deck and every history of steps, outputs, copies, loads and failures',
     'Tests and regressions are short and look only at results.',
     ['dg1d/rk.py', 'dg1d/solution.py', 'dg1d/dg.py', 'dg1d/limiting.py', 'dg1d/enhance.py', 'dg1d/sensor.py'],
     [('work arrays allocated once', 'dg1d/rk.py: integrate; dg1d/dg.py: DG.__init__'), ('files closed after writing', 'dg1d/solution.py: printer')],
     claim=('long simulated lives with scarce file descriptors, sampled for growth',
            'Memory is measured as bytes held after garbage collection (tracemalloc); growth below 100 bytes per step, 1.5 kB per output or 6 kB per '
            'round of a process is not counted.'))

NA = [
    ('D01', 'Riemann solvers are consistent, conservative and upwind',
     'For every pair of physical states each Riemann solver returns a flux that equals the physical flux for equal states and takes the upwind side in supersonic flow.',
     'for every pair of states', ['dg1d/euler_physics.py', 'dg1d/advection_physics.py'], [('fluxes', 'dg1d/euler_physics.py: riemann_*')],
     'Pure functions of two states: no concurrency, time, I/O or multi-party behaviour for a simulator to decide. Their use inside runs is covered by C10, C11, C12, C15.'),
    ('D02', 'The Runge-Kutta coefficients satisfy their order conditions',
     'Each coefficient table satisfies the order conditions of the order in its name.', 'for every order condition', ['dg1d/rk_coeffs.py'],
     [('tables', 'dg1d/rk_coeffs.py')],
     'Constants: a static numerical fact without schedule, fault or history. Runs using them are decided by C12 and C16.'),
    ('D03', 'Basis, quadrature and projection are exact for polynomials',
     'Projection onto the basis reproduces every polynomial up to its order, and the quadrature integrates the fluxes of advection exactly.', 'for every order and polynomial',
     ['dg1d/basis.py'], [('projection', 'dg1d/basis.py: Basis.projection')],
     'Pure linear algebra; nothing nondeterministic to simulate. Effects on runs are covered by C12.'),
    ('D04', 'Enhancement matrices satisfy the recovery identities',
     'The enhanced polynomial has all moments of its cell and the chosen moments of its neighbor, for every order and choice of modes.', 'for every order and set of modes',
     ['dg1d/enhance.py'], [('matrices', 'dg1d/enhance.py: enhancement_matrices')],
     'Pure linear algebra at construction; nothing nondeterministic to simulate. Enhanced runs are covered by C10, C11, C12, C15.'),
    ('D05', 'Runs converge at the design order and shocks end up in the right place',
     'Errors of smooth runs decrease at the design order under mesh refinement and captured shocks move at the right speed.', 'in the limit of fine meshes',
     ['dg1d/dg.py', 'regressions/regressions.py'], [('discretisation', 'dg1d/dg.py')],
     'An asymptotic statement of numerical analysis about the scheme, not about schedules, faults or histories; seeded simulation can not decide a limit.'),
    ('D06', 'The analysis and plotting scripts show what the data say',
     'The stability analysis and plotting scripts display the loaded data and computed spectra faithfully.', 'for every data set', ['analysis/dg_stability.py', 'analysis/rk_stability.py', 'dg1d/plot.py', 'regressions/plot.py'],
     [('scripts', 'analysis/, dg1d/plot.py')],
     'Straight-line scripts producing pictures (with LaTeX, not installed here): no schedule, time, fault or history to simulate and no machine-readable result.'),
]

out = open(os.path.join(V, 'properties.jsonl'), 'w')
checks, na = [], []
PY = '/opt/venv/bin/python -W ignore -m sim check %s %s'
for d, claim, reason in P:
    out.write(json.dumps(d) + '\n')
    checks.append({'property': d['id'], 'quick_cmd': PY % (d['id'], 'quick'), 'thorough_cmd': PY % (d['id'], 'thorough'),
                   'evidence_file': 'evidence/%s.json' % d['id'],
                   'technique': 'deterministic simulation with fault injection: ' + claim[0],
                   'level': 'exploration', 'level_note': claim[1]})
for id, title, st, text, files, mech, reason in NA:
    out.write(json.dumps({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': ['inputs'], 'text': text},
                          'why_tests_cant': 'The tests sample a few values.',
                          'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}) + '\n')
    na.append({'property': id, 'reason': reason})
out.close()
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -W ignore -m sim setup', 'checks': checks,
               'not_applicable': na,
               'notes': 'No hooks in /repo: every seam is external (sim/seams.py). The checks import dg1d from /repo\'s '
                        'working tree at run time; nothing is built. `python -m sim replay FILE` reproduces a violation exactly.'},
              f, indent=1)
    f.write('\n')
