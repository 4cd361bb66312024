import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': ['pySailingVLM/' + f for f in files],
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': observe,
                          'hook_needed': None}})


API = ['runner/container.py', 'runner/sail.py', 'runner/aircraft.py', 'rotations/csys_transformations.py', 'inlet/winds.py',
       'inlet/inlet_conditions.py', 'yacht_geometry/sail_factory.py', 'yacht_geometry/sail_geometry.py',
       'yacht_geometry/hull_geometry.py', 'thin_airfoil/vlm_airfoil.py', 'solver/vlm.py', 'solver/coefs.py', 'solver/forces.py',
       'solver/velocity.py', 'solver/panels.py', 'solver/mesher.py', 'solver/interpolator.py', 'solver/additional_functions.py',
       'results/inviscid_flow.py']
SAVE = ['results/save_utils.py', 'results/inviscid_flow.py', 'solver/additional_functions.py', 'inlet/inlet_conditions.py',
        'inlet/winds.py']
CLI = ['runner/cli.py', '__main__.py', 'runner/container.py', 'results/save_utils.py', 'solver/panels_plotter.py']

p('C01', 'Analyses running concurrently in one process do not affect each other',
  'When several threads of one process each run analyses (sail sets, free wings, result tables, saves into directories of their own), '
  'every thread gets the same numbers as if its analyses had run alone, whatever the interleaving, also when the threads share the '
  'same input objects. No analysis fails, hangs or changes a shared input because another one is running.',
  ['schedules', 'inputs'], 'every interleaving of 2-4 threads at source-line or bytecode granularity; every sailing case',
  'The tests run one analysis at a time in one thread; no test starts a thread.',
  API + ['results/save_utils.py'],
  [('no module-level mutable state: every stage returns fresh arrays', 'solver/*.py, yacht_geometry/*.py'),
   ('settings objects are only read', 'runner/sail.py')],
  ['values returned by Vlm, InviscidFlowResults, Aircraft, get_data_for_coeff_plot, save_results_to_file'])

p('C02', 'An analysis depends only on its own inputs, whatever ran before it',
  'The numbers an analysis returns are those it returns in a fresh process, whatever sequence of analyses, saves, refused inputs, '
  'failed analyses and in-place edits of earlier inputs or returned arrays came before it in the same process. An analysis never '
  'modifies the settings and arrays handed to it, never changes a result returned earlier, and a refused input is refused whatever '
  'came before; process-wide settings (working directory, environment, random state, floating-point error handling) stay as they were.',
  ['histories', 'inputs'], 'every sequence of operations of one session, with reuse and mutation of input objects between them',
  'Each test makes its inputs once, looks at one result, and never repeats an analysis in a session that did something else before.',
  API + ['results/save_utils.py'],
  [('results are computed from the arguments only, nothing is cached', 'solver/vlm.py'),
   ('default arrays of the settings are made per object', 'runner/container.py')],
  ['returned values; the caller\'s settings objects; process-wide state'],
  [('Output/MainSail/JibSail/Csys/Keel defaults', 'must not be shared between objects', 'runner/container.py')])

p('C03', 'An interrupted analysis or save can simply be repeated',
  'If an analysis, a save or a section plot is interrupted at any point (the user presses Ctrl-C, memory runs out) and the same call is '
  'repeated in the same session with the same objects, it succeeds and gives the same result as in an undisturbed session. The '
  'interruption reaches the caller, the caller\'s inputs are unchanged, and the output directory holds no temporary files or damaged '
  'workbook.',
  ['crash_points', 'inputs'], 'an interruption (KeyboardInterrupt or MemoryError) before any line the program executes, once or twice in a row',
  'No test interrupts anything: an exception arriving between two statements is outside what a unit test can place.',
  API + ['results/save_utils.py', 'solver/panels_plotter.py'],
  [('no partially updated shared state', 'solver/*.py'), ('temporary directory and rename around the workbook', 'results/save_utils.py')],
  ['result of the repeated call, inputs, output directory'])

p('C04', 'No wrong flow solution is ever returned as a result',
  'If the linear solve at the heart of an analysis goes wrong (fails, or hands back a circulation that is NaN, infinite, stale, scaled '
  'or off by any amount on any single panel), the analysis raises an error instead of returning. Whenever an analysis of a sail set or a '
  'free wing does return, the air velocity rebuilt independently from the returned circulation has no component through any panel at its '
  'control point (below 1e-9 of the wind speed), above and below the water, also under python -O, and the returned loads are those of '
  'that circulation.',
  ['fault_sequences', 'configurations', 'inputs'],
  'every numerical fault of the linear solver (kind, panel, magnitude, sign, which call), with and without python -O, compiled and '
  'interpreted kernels',
  'The tests only ever see a correct linear solve, so the guard against a wrong one is never exercised, and never under -O.',
  ['solver/vlm.py', 'solver/coefs.py', 'solver/forces.py', 'solver/velocity.py', 'runner/aircraft.py'],
  [('is_no_flux_BC_satisfied: absolute flux < 1e-12 on every panel, NaN refused', 'solver/forces.py'),
   ('Kutta-Joukowski loads from the returned circulation', 'solver/forces.py')],
  ['returned circulation, velocities, forces, pressures; raised errors'])

p('C05', 'A save that reports success has written the complete and faithful workbook',
  'If saving results returns normally, the workbook exists under the requested name and holds exactly the analysis it was given: one row '
  'per above-water panel in panel order with the right sail name, height, girth, velocities, pressures and loads, totals equal to the '
  'sums over those rows, and the wind at reference height. Whatever disk error occurs while saving, the save either still achieves that '
  'or raises an error; it never reports success otherwise.',
  ['fault_sequences', 'inputs'],
  'every error, short write and full disk a kernel may answer to any disk operation of the save, singly and in combination; every sailing case',
  'The tests save to a healthy disk once and compare one case; they cannot make the disk fail.',
  SAVE, [('pandas/xlsxwriter write, then rename', 'results/save_utils.py'), ('above-water half selected per sail', 'results/save_utils.py')],
  ['the workbook on disk, read back by an independent reader; the returned tables; the raised error'])

p('C06', 'A results workbook is never torn: readers see the old or the new one, complete',
  'At every instant, and after the process dies at any instant or any disk error occurs during a save, the workbook under its published '
  'name is either absent (only if it was absent before), or the complete previous workbook, or the complete new one. A failed save never '
  'destroys the results saved earlier under that name, and after a save that returned the new one is there.',
  ['crash_points', 'fault_sequences', 'histories'],
  'process death before, after or in the middle of any disk operation; any disk error; any history of saves over the same name',
  'A unit test cannot kill the process between two writes nor look at the directory at every instant.',
  SAVE[:1], [('written in a temporary directory beside the target, moved by os.replace', 'results/save_utils.py')],
  ['content of the output directory after each disk operation'])

p('C07', 'Simultaneous saves into one results directory all succeed and never mix',
  'When several processes or threads save results into the same directory (which none, one or all of them may have to create) at the '
  'same time, every save succeeds. Saves under different names each leave their own complete workbook; saves under the same name leave '
  'one complete workbook that is exactly one of those saved, and nothing else remains in the directory.',
  ['schedules', 'crash_points'], 'every interleaving of 2-4 savers at disk-operation granularity (threads: also at source lines), with and '
  'without one of them dying on the way',
  'The tests save once at a time.',
  SAVE[:1], [('os.makedirs(exist_ok=True), private temporary directories, atomic rename', 'results/save_utils.py')],
  ['return or error of each save; the directory afterwards'])

p('C08', 'The exit status of the command line program tells the truth',
  'The program exits with status 0 only if the analysis was done and every artefact of the run is complete in the output directory: the '
  'workbook, the copy of the settings file, the pressure plot and the lift and drag section plots. Missing or refused settings, a failed '
  'analysis and any disk error that costs an artefact end with a non-zero status.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every disk error on any operation of the run; every kind of missing, malformed or refused settings; with and without python -O',
  'No test runs the command line program.',
  CLI, [('errors propagate out of main(), sys.exit(1) for refused input', 'runner/cli.py, runner/sail.py, solver/*.py')],
  ['exit status, files in the output directory'])

p('C09', 'A run uses, and archives, exactly the settings file it was pointed at',
  'Every run analyses exactly the content that variables.py in the directory named by that invocation had when the run read it, and the '
  'copy it leaves among the results is byte for byte that content. Earlier runs in the same process, other modules or files called '
  'variables, the working directory, left-over compiled files and edits made while the run proceeds change neither.',
  ['histories', 'configurations', 'schedules'],
  'every sequence of runs with different directories in one process, same-second edits, decoys, relative or absolute paths, and edits '
  'landing between any two disk operations of a run',
  'No test runs the command line program, let alone twice or with decoys.',
  ['runner/cli.py'], [('source read once, executed as a fresh module, the same bytes archived', 'runner/cli.py: load_variable_module, main')],
  ['numbers in the workbook, bytes of the archived settings file'],
  [('vr', 'the settings of the current run', 'runner/cli.py module global')])

p('C10', 'Runs started at different times get different default output directories',
  'Two runs that start in different seconds of local time and use the default or the shipped template output directory never write into '
  'the same directory, whether in one process or in several, and the name carries the local date and time of the start of that run. So '
  'no run silently overwrites the results of an earlier one.',
  ['schedules', 'histories'], 'every pair of start times (1 s to years apart, across midnight, month, year and 12-hour boundaries), same or '
  'different process, any time zone',
  'The tests never look at the default directory; a wall clock cannot be moved in a unit test of this repository.',
  ['runner/container.py', 'variables.py', 'examples/variables.py', 'examples/rectangle_variables.py', 'examples/sweep_variables.py',
   'runner/cli.py'],
  [('strftime("%Y-%m-%d_%Hh%Mm%Ss") when the settings are made', 'runner/container.py: Output; variables.py')],
  ['Output().name, the directory a run created'])

p('C11', 'After a crash or disk error a rerun in the same place succeeds completely',
  'Whatever state an earlier run left when it died at any instant or failed with any disk error, running the program again on the same '
  'settings and the same output directory, once the disk is healthy, ends with status 0 and leaves every artefact complete and with the '
  'same content as a run into an untouched directory.',
  ['crash_points', 'fault_sequences'], 'process death or disk error at any disk operation of one or two earlier runs',
  'No test kills a run or reruns in its remains.',
  CLI, [('existing directories and files are accepted and replaced', 'results/save_utils.py, runner/cli.py')],
  ['exit status and artefacts of the rerun, compared with an undisturbed run'])

p('C12', 'A run touches nothing but its own output directory',
  'A run of the program creates, changes and removes files only inside its output directory and the system\'s temporary directory: '
  'settings directory, working directory and the results of other runs stay as they are. A run that succeeded leaves in its output '
  'directory exactly its own artefacts, without temporary files, and keeps unrelated files already there; also when it fails, it touches '
  'nothing outside.',
  ['fault_sequences', 'histories', 'configurations'],
  'every run, successful, refused, faulted or killed; relative or absolute output directories; settings directory equal to or different '
  'from the working directory',
  'No test looks at the file system beyond the workbook it reads back.',
  CLI, [('all paths are built from the output directory', 'runner/cli.py, results/save_utils.py, solver/panels_plotter.py')],
  ['every file operation of the process, and the tree before and after'])

p('C13', 'Compiled kernels give the same numbers whatever the state of their cache',
  'An analysis gives the same numbers with compiled as with interpreted kernels, with a cold, warm, shared, unwritable, partly deleted '
  'or truncated kernel cache, whatever the number of threads the compiler may use, and when several processes fill the same cache at '
  'once or one of them died while filling it. Where the cache is unusable the program recompiles or fails loudly; it never computes '
  'something else.',
  ['crash_points', 'fault_sequences', 'schedules', 'configurations'],
  'process death and disk errors at any operation on the cache, concurrent first imports, compiled/interpreted',
  'The tests disable the compiler, so they never run a compiled kernel and never touch the cache.',
  ['solver/velocity.py', 'solver/coefs.py'], [('explicitly typed numba kernels with cache=True', 'solver/velocity.py, solver/coefs.py')],
  ['numbers returned in a fresh process'])

p('C14', 'Graphics show the data of the run they belong to',
  'Each plot file of a run shows that run\'s own data: the lift file the lift coefficients, the drag file the drag coefficients, one '
  'correctly labelled series per sail against the height of its sections, and the pressure plot one polygon per panel with its pressure '
  'coefficient. This holds whatever was plotted, saved, interrupted or left open earlier in the same process.',
  ['histories', 'inputs'], 'every sequence of runs and plots in one process',
  'No test makes a plot.',
  ['solver/panels_plotter.py', 'runner/cli.py', 'solver/coefs.py'], [('a new figure per plot', 'solver/panels_plotter.py')],
  ['the figure at the moment it is written, the written files'])

p('C15', 'Results do not depend on the surroundings of the process',
  'The same settings give the same numbers and the same workbook cells whatever the time, time zone, locale, working directory, random '
  'seeds, hash seed, optimisation flag, environment variables of unrelated programs, and speed or order in which the clock advances.',
  ['configurations', 'schedules'], 'every combination of surroundings the simulator controls',
  'The tests run in one environment.',
  API + ['results/save_utils.py'], [('no use of clock, randomness, environment or iteration over unordered sets in the computation', 'solver, results')],
  ['returned values and workbook cells'])

# pure functions of their input: not decided here
p('C20', 'Forces and moments are consistent: totals, centre of effort, keel moment',
  'Totals are sums over the above-water panels, the centre of effort carries the total force to the total moment, and the keel moment '
  'balances the side force at the centre of lateral resistance.',
  ['inputs'], 'every sailing case', 'The tests compare one case with stored numbers.',
  ['results/inviscid_flow.py', 'solver/forces.py'], [('calc_moments, determine_vector_from_its_dot_and_cross_product', 'solver/forces.py')],
  ['InviscidFlowResults'])
p('C21', 'Loads scale with air density and with the square of the wind speed',
  'Scaling all speeds by k scales velocities by k and loads by k squared; scaling the density scales the loads alone.',
  ['inputs'], 'every sailing case and factor', 'The tests have no two related cases.', ['solver/vlm.py', 'solver/forces.py'],
  [('linear system, Kutta-Joukowski', 'solver/vlm.py')], ['Vlm'])
p('C22', 'The rotations to heel and leeway and back are inverse to each other',
  'Rotating a point into the heeled and leeway frame and back gives the point, and lengths are preserved, above and below the water.',
  ['inputs'], 'every point and angle', 'The tests sample a few points.', ['rotations/csys_transformations.py', 'rotations/geometry_calc.py'],
  [('rotate_point_with_mirror / reverse_rotations_with_mirror', 'rotations/csys_transformations.py')], ['CSYS_transformations'])
p('C23', 'Wind profiles give the reference wind and a closed wind triangle',
  'At the reference height the true wind has the given speed, it follows the chosen law elsewhere, and apparent wind is true wind plus '
  'the headwind of the boat speed.',
  ['inputs'], 'every profile, height and wind', 'The tests check a few heights.', ['inlet/winds.py', 'inlet/inlet_conditions.py'],
  [('get_true_wind_speed_at_h, get_app_infs_at_h', 'inlet/winds.py')], ['WindBase'])
p('C24', 'The panels cover each sail once and the mirror image below the water',
  'Panels tile the sail between luff and leech without gaps or overlap, follow the given chords, twist and camber at the given girths, '
  'and have a mirror image in the upright water plane.',
  ['inputs'], 'every geometry', 'The tests check a few small meshes.',
  ['yacht_geometry/sail_geometry.py', 'solver/mesher.py', 'solver/panels.py', 'solver/interpolator.py'],
  [('make_airfoil_mesh, make_panels_from_mesh_spanwise', 'solver/mesher.py, solver/panels.py')], ['SailSet.panels'])
p('C25', 'Induced velocities follow the Biot-Savart law',
  'The velocity induced by a vortex segment, ring, half-line and horseshoe is that of the Biot-Savart law, and zero on the vortex itself.',
  ['inputs'], 'every point and segment', 'The tests sample a few points.', ['solver/velocity.py'],
  [('vortex_line, vortex_infinite_line, vortex_ring, vortex_horseshoe', 'solver/velocity.py')], ['the kernels'])
p('C26', 'Camber lines follow the NACA four digit definition',
  'The camber line has the given maximum at the given position, vanishes at both ends and is smooth at the maximum; parameters out of '
  'range are refused.',
  ['inputs'], 'every camber, position and thickness', 'The tests compare a few profiles.', ['thin_airfoil/vlm_airfoil.py'],
  [('VlmAirfoil', 'thin_airfoil/vlm_airfoil.py')], ['VlmAirfoil'])
p('C27', 'Inconsistent sail definitions are refused',
  'Settings whose arrays have different lengths or that miss a value the chosen sails need are refused with a message.',
  ['inputs'], 'every combination of missing and mismatched settings', 'No test passes a bad definition.',
  ['runner/sail.py'], [('check_list_for_none, check_input_arr_shapes', 'runner/sail.py')], ['Sail, Wind'])

with open('properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
