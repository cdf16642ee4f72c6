"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = 'src/pyg2p/'
props = []


def add(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    props.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                              'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                              'observe_at': observe, 'hook_needed': hook}})


add('C01', 'A run that reports success has written every map, complete and correct',
    'If a conversion run returns success and the input holds matching messages, every output map or file it owes exists under its documented name and holds the selected, converted, aggregated, interpolated and corrected values, whatever I/O calls failed, were cut short or ran out of disk on the way. '
    'A run that cannot deliver that ends with a non-zero status or an exception, never with success; without any fault a run over valid input succeeds. '
    'Success without output is allowed only when no message matches the request.',
    ['fault_sequences', 'inputs', 'configurations'],
    'every sequence of failing, short or disk-full file operations at any point of a run, over generated inputs, modes, aggregations, conversions, corrections and output formats',
    'The tests convert a few large real files on a healthy disk and compare values; no test makes one file operation fail, and the number of failure points in a run is in the hundreds.',
    [P + 'main/__init__.py', P + 'main/controller.py', P + 'main/writers/pcr.py', P + 'main/writers/netcdf.py', P + 'main/writers/__init__.py', P + 'main/readers/grib.py', P + 'main/interpolation/__init__.py'],
    [('exit status decided from the exceptions of one execution', P + 'main/__init__.py execute'), ('map files written through GDAL/netCDF4', P + 'main/writers')],
    ['exit status / raised exception', 'content of the output directory'])

add('C02', "A crash or failed write never destroys the user's configuration",
    "At every instant, and after a crash, power loss, or failed write at any point of any command, each file of the user's configuration is either absent because it never existed or a complete document that keeps every entry it had before the command started. "
    'Only an entry whose table the user asked to be dropped because its file is gone, or a geopotential the user removed, may disappear. '
    'No temporary left-over of an interrupted command is ever read as configuration.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every point between two file operations of a command that creates or updates configuration, with torn, short, failed and unsynced writes',
    'Tests never interrupt a command; a torn configuration write needs a crash between truncation and the last byte.',
    [P + 'main/config.py'],
    [('configuration written as one document per file', P + 'main/config.py BaseConfiguration.dump'), ('first-run creation of default documents', P + 'main/config.py BaseConfiguration.merge_with_user_conf')],
    ['content of ~/.pyg2p/*.json after every mutating file operation and after every crash'],
    state=[('user configuration documents', 'registered tables, geopotentials, parameters, FTP settings', '~/.pyg2p/*.json')])

add('C03', "Concurrent runs never lose each other's registrations or results",
    'When several commands run at the same time for the same user, every table or geopotential registered by a command that reported success is still registered when all have ended, with the file belonging to it. '
    'Each command produces the same output as it would alone.',
    ['schedules', 'configurations'],
    'every interleaving of the file operations of two to four concurrently running commands sharing the same user configuration and table folder',
    'Tests run one command at a time; a lost update needs one process to rewrite the configuration between another one\'s read and write.',
    [P + 'main/config.py', P + 'main/interpolation/__init__.py'],
    [('registration merges with the document on disk', P + 'main/config.py BaseConfiguration.dump'), ('table file names reserved per registration', P + 'main/interpolation/__init__.py Interpolator._intertable_filename')],
    ['~/.pyg2p/intertables.json, geopotentials.json and the table folder after all processes ended', 'outputs of every process'],
    state=[('registered tables', 'id -> file name', '~/.pyg2p/intertables.json')])

add('C04', 'A registered interpolation table is always complete and the right one',
    'At every instant, and after any crash, failed write or concurrent creation, each registered interpolation table whose file exists is a complete table for exactly the source grid, target grid and method it is registered for. '
    'No run ever interpolates with a partial table or with the table of another registration.',
    ['crash_points', 'schedules', 'fault_sequences'],
    'every point between two file operations of commands that create, recreate or register tables, alone or concurrently, with crashes and failed or short writes',
    'Tests create tables undisturbed and one at a time; partial tables exist only between file operations.',
    [P + 'main/interpolation/__init__.py', P + 'main/config.py'],
    [('table saved before it is registered', P + 'main/interpolation/__init__.py Interpolator.update_intertable_conf'), ('free file name chosen for a new table', P + 'main/interpolation/__init__.py Interpolator._intertable_filename')],
    ['table folder and intertables.json after every mutating file operation', 'values of later runs'],
    state=[('interpolation tables', 'source indexes and weights per target cell', 'INTERTABLES folder')])

add('C05', 'What ran before in the same process never changes a result',
    'In one Python process, the result of a conversion through the command API or the array API depends only on its own arguments and the files it names, not on which conversions ran before it, succeeded or failed. '
    'It equals the result of the same conversion in a fresh process started on the same files.',
    ['histories', 'fault_sequences'],
    'every sequence of conversions, API executions and failing executions (bad arguments, missing messages, injected I/O failures) in one process, over generated inputs and settings',
    'Each test uses its own grids and clears the caches by hand; in-memory caches are shared by all executions of a process and the sequences are unbounded.',
    [P + 'main/interpolation/__init__.py', P + 'main/manipulation/correction.py', P + 'main/config.py', P + 'main/api.py', P + 'main/__init__.py'],
    [('in-memory table cache keyed by table path', P + 'main/interpolation/__init__.py Interpolator._LOADED_INTERTABLES'), ('in-memory corrector cache', P + 'main/manipulation/correction.py Corrector.get_instance')],
    ['outputs and returned arrays of the last execution of a history against the same execution in a fresh process'],
    state=[('corrector cache', 'interpolated geopotential and formulas', P + 'main/manipulation/correction.py'), ('table cache', 'loaded tables', P + 'main/interpolation/__init__.py')])

add('C06', 'Results do not depend on how the interpolation table was obtained',
    'For the same input, target and method, the output is the same whether the table was computed in this run, taken from memory, or read from a file stored by an earlier run in the user folder, an alternative folder or the shared folder, compressed or not, or recreated because its file was lost. '
    'A run that may not create tables and finds none fails and creates nothing.',
    ['histories', 'configurations'],
    'every history of runs that create, reuse, move, decompress or lose the table file between runs, for every interpolation method',
    'Tests check a method once right after creation; the equality is over pairs of histories.',
    [P + 'main/interpolation/__init__.py', P + 'main/config.py'],
    [('table look-up in user and global folders with and without .gz', P + 'main/interpolation/__init__.py Interpolator._intertable_filename, _read_intertable')],
    ['outputs of consecutive processes on one disk state'])

add('C07', 'Parallel or split computation gives the serial result',
    'Computing an interpolation in parallel, in any number of splits of the target, or with broadcasting yields the same table and output maps as the serial computation, whatever the order in which parallel pieces are executed and completed. '
    'If a parallel worker dies or fails, the run fails and registers nothing.',
    ['schedules', 'configurations', 'fault_sequences'],
    'every execution order of the parallel pieces and every failing piece, for every interpolation method and number of splits',
    'Tests run one schedule, chosen by the operating system, on one machine, and never lose a worker.',
    [P + 'main/interpolation/grib_interpolation_lib.py', P + 'main/interpolation/scipy_interpolation_lib.py'],
    [('chunk results concatenated by chunk position', P + 'main/interpolation/grib_interpolation_lib.py concatenate_nearest_result, concatenate_invdist_result'), ('row blocks written back by offset', P + 'main/interpolation/scipy_interpolation_lib.py ScipyInterpolation.interpolate')],
    ['tables and outputs of serial and parallel runs'])

add('C08', 'Message order, retrieval path and damaged input never change results silently',
    'For input whose messages share one grid, the output does not depend on the order of messages in the file nor on whether they are found through an index or by scanning the file. '
    'Input (messages, or maps of the target area) that cannot be read completely makes the run fail; it never yields success with fewer, other or no maps.',
    ['inputs', 'fault_sequences'],
    'every permutation of the messages, every failure of index creation, and every truncation point or read error of the input files',
    'Test files are intact, in step order, and always indexable, so the scanning path and error paths never run.',
    [P + 'main/readers/grib.py', P + 'main/__init__.py'],
    [('fall-back from index to file scan', P + 'main/readers/grib.py GRIBReader.__init__, scan_grib')],
    ['exit status and outputs for permuted, unindexable, truncated and unreadable inputs'])

add('C09', 'An interrupted download never leaves a file that looks complete',
    'Whatever happens to the connection or the disk during a download of tables or geopotentials, no file under a final data name holds partial content, and files already present are left untouched. '
    'Once the faults stop, one further download command completes and every listed file equals the server\'s.',
    ['fault_sequences', 'crash_points', 'histories'],
    'every point at which the control or data connection, the disk or the process can fail, over any number of retries',
    'No test downloads anything; interruption points are every network receive and file write.',
    [P + 'main/config.py', P + 'main/__init__.py'],
    [('existing local files are skipped', P + 'main/config.py Configuration.download_data')],
    ['data folder after each attempt, against the simulated server'])

add('C10', 'Adding a geopotential is all or nothing and never damages another one',
    'Adding a geopotential either registers its grid with a complete copy of the given file or leaves the registered ones exactly as they were, whatever fails or crashes on the way. '
    'It never alters or replaces the file of an already registered geopotential, and after a failed or interrupted attempt the same command can be repeated successfully.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every crash point and failing operation of an add command, over histories of adds of files with equal and different names and grids',
    'One test adds one file once, on a healthy disk.',
    [P + 'main/config.py', P + 'main/__init__.py', P + 'main/context.py', P + 'util/files.py'],
    [('copy first, register afterwards', P + 'main/config.py GeopotentialsConfiguration.add')],
    ['geopotentials.json and the geopotential folder'],
    state=[('registered geopotentials', 'grid id -> file name', '~/.pyg2p/geopotentials.json')])

add('C11', 'Every message handle and file opened by a run is released exactly once',
    'When an execution ends, successfully or by any failure, in a process that goes on living, all message handles, indexes and files it opened have been released, each exactly once.',
    ['fault_sequences', 'histories'],
    'every failing operation of an execution and every sequence of executions in one process',
    'Tests end their process or never count handles; leaks and double releases on error paths need a failure at the right operation.',
    [P + 'main/readers/grib.py', P + 'main/controller.py', P + 'main/api.py', P + 'main/__init__.py', P + 'main/manipulation/correction.py'],
    [('reader close releases selected messages and index', P + 'main/readers/grib.py GRIBReader.close'), ('close in a finally clause', P + 'main/__init__.py execute')],
    ['ledger of handles and descriptors at the message-library and file-system seams'])

add('C12', 'A run changes only what it owns',
    'A run never modifies, creates or removes a file outside its output folder, the user configuration folder and, when asked to create tables, add or download data, the corresponding data folder; input files, maps and command files stay byte-identical, under faults too. '
    'Without the create option no table file and no table registration is created or changed.',
    ['fault_sequences', 'inputs', 'configurations'],
    'every command, with any failing operation or crash',
    'Tests look only at the files they expect.',
    [P + 'main/config.py', P + 'main/interpolation/__init__.py', P + 'main/writers/pcr.py', P + 'main/writers/netcdf.py', P + 'main/context.py'],
    [('create option checked before a table is computed', P + 'main/interpolation/__init__.py'), ('input maps opened read-only', P + 'main/readers/pcr.py')],
    ['every mutating file operation at the file-system seam', 'hashes of all other files'])

add('C13', 'Clock, directory order, hashing and process identity never change a result',
    'Two runs on the same files with the same arguments produce the same output values, tables and registrations whatever the wall clock shows or jumps to, in whatever order directories are listed, and whatever hash seed, process id or random state the process has. '
    'Only the creation time recorded in a netCDF history may differ.',
    ['schedules', 'configurations'],
    'every clock reading and jump, every directory order, hash seed, pid and random state',
    'Tests run under one environment; directory order in particular is chosen by the file system.',
    [P + 'main/config.py', P + 'main/interpolation/__init__.py', P + 'main/writers/netcdf.py'],
    [('settings files merged into one set of variables', P + 'main/config.py UserConfiguration')],
    ['outputs, tables and configuration of two simulated environments'])

add('C14', 'After any failure or crash one undisturbed re-run completes',
    'After runs that failed, were killed or lost power at any point, one fault-free repetition of the same command succeeds and leaves exactly the outputs a first undisturbed run would have left, without manual clean-up. '
    'Left-overs of interrupted runs never block or alter later runs.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every history of up to several interrupted runs followed by one undisturbed run',
    'Tests never interrupt a run.',
    [P + 'main/config.py', P + 'main/interpolation/__init__.py', P + 'main/writers/pcr.py', P + 'main/writers/netcdf.py'],
    [('tables recreated when their file is missing', P + 'main/interpolation/__init__.py Interpolator._intertable_filename')],
    ['exit status and outputs of the re-run against an undisturbed first run'])

# -- properties that are pure functions of the input ------------------------------------------
pure = [
    ('C15', 'Aggregation computes the documented accumulation, average and instant values',
     'For every set of messages, steps and aggregation settings, each output step holds the accumulation, average or instantaneous value the documentation defines for its interval, in the requested unit time.',
     [P + 'main/manipulation/aggregator.py'], 'range loops over steps', 'Aggregator.do_manipulation'),
    ('C16', 'Conversion applies the configured formula to every valid value only',
     'Every valid value is transformed by the configured function and negative results are cut to zero when asked; missing values stay missing.',
     [P + 'main/manipulation/conversion.py'], 'masked expression evaluation', 'Converter.convert, cut_off_negative'),
    ('C17', 'Interpolation assigns each target cell the value its method defines',
     'For every source grid, target map and method, each target cell inside the source area receives the value the method defines from the neighbouring source points with weights that sum to one, and cells outside are missing.',
     [P + 'main/interpolation/scipy_interpolation_lib.py', P + 'main/interpolation/grib_interpolation_lib.py'], 'neighbour search and weights', 'ScipyInterpolation, grib_nearest, grib_invdist'),
    ('C18', 'Missing values are never turned into numbers',
     'A target cell that is masked by the clone map or depends on a missing source value is missing in the output, in both output formats.',
     [P + 'main/writers/pcr.py', P + 'main/writers/netcdf.py', P + 'util/numeric.py'], 'mask union', '_mask_values, get_masks'),
    ('C19', 'NetCDF output encodes values, times and coordinates so that readers recover them',
     'Decoding the netCDF output by its own scale, offset, fill value and time units gives back the values and valid times of the messages for every supported value format and step unit.',
     [P + 'main/writers/netcdf.py'], 'scale/offset/fill attributes', 'NetCDFWriter.write'),
    ('C20', 'Command line arguments take precedence over the command file',
     'For every option available in both places the command line value is used, otherwise the command file value, otherwise the documented default.',
     [P + 'main/context.py'], 'precedence in option merging', 'ExecutionContext._define_exec_params'),
    ('C21', 'Exactly the requested messages are used',
     'A message is used if and only if its short name, level, perturbation number, date, time and step range match the request.',
     [P + 'main/readers/grib.py', P + 'main/context.py'], 'selector predicates', 'GRIBReader._find, Context.create_select_cmd_for_reader'),
    ('C22', 'Grids and targets that need different tables have different identifiers',
     'Two source grids or two targets that differ in any coordinate never share a table identifier, so a stored table is never applied to a grid it was not computed for.',
     [P + '__init__.py', P + 'main/readers/pcr.py', P + 'main/readers/netcdf.py'], 'identifier built from grid description', 'GribGridDetails._build_id, identifier'),
]
for id, title, st, files, mech, where in pure:
    add(id, title, st, ['inputs', 'configurations'], 'every input and setting; no schedule, clock, fault or interleaving takes part',
        'Tests sample a handful of inputs out of an unbounded input space.', files, [(mech, where)], ['output values'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
