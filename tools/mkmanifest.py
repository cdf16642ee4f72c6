"""writes MANIFEST.json and the fixed list of known_findings.json"""
import json
import subprocess

TECH = 'deterministic simulation with fault injection: '
LEVEL = {
    'C01': ('seeded search over I/O errors, short transfers and full disks at any call of a run; outputs compared with an independent model of the whole conversion',
            'Every successful run (faulted or not) is compared with an independent numpy model of selection, aggregation, conversion, interpolation and correction, and with its own undisturbed run. '
            'Assumes faults at system call granularity and small grids; the model leaves out adw, cdd, bilinear and triangulation modes, which are compared with their undisturbed run only.'),
    'C02': ('seeded search over interleavings, write errors, full disks, kills, torn writes and power losses while commands update the user configuration; documents checked after every operation',
            'The user documents are parsed and compared with what they held after every single mutating system call of every simulated process. Assumes atomic rename and no loss of directory entries at power loss.'),
    'C03': ('seeded scheduling (random, PCT, mutating-operation biased) of two to four concurrent commands with faults in some; registrations checked against acknowledged ones, outputs against each command alone',
            'Interleavings at system call granularity, real flock/rename semantics. Registration loss and result changes are checked for every command that reported success.'),
    'C04': ('seeded search over schedules, kills, torn writes, errors and power losses during table creation; every registered table compared with an independently created one after every operation',
            'Each registered table is loaded and compared with a table created alone after every mutating call that touches tables or the registry. Two limits of the identifier itself are recorded as known findings.'),
    'C05': ('seeded histories of commands and API calls (failing and faulted ones included) in one simulated process; every result compared with a fresh process on the same files',
            'Histories of up to about ten executions per process; results, arrays and created tables compared exactly with a fresh simulated process.'),
    'C06': ('seeded state machine over where the table is (computed, memory, user, alternative, shared folder, compressed, deleted) with cold and warm processes; outputs and permissions checked against a reference model of the registry',
            'Outputs must be identical for all ways a table is obtained and a run without the create option must fail and change nothing when the model says there is none.'),
    'C07': ('seeded order, slicing and death of parallel workers (process pools, thread pools, KDTree threads) against the serial run',
            'Pools are replaced by a seeded scheduler which forks one task at a time; real pool start-up code is not run. Worker death is simulated as a broken pool or a killed task.'),
    'C08': ('seeded message permutations, index or scan retrieval and read faults or truncation of input files, against the undisturbed run',
            'Read errors, early end of file and truncation at any message; permutations compared with tolerance only for weights which pyg2p rounds.'),
    'C09': ('simulated FTP server with seeded disconnects, stalls, refusals and short transfers plus disk faults and kills; folder content compared with the server after every operation',
            'The real pyg2p client and ftplib run against a simulated server in virtual time; only the socket module is replaced.'),
    'C10': ('seeded search over errors, kills, power losses and concurrent commands while geopotentials are added; registrations and files compared after every operation',
            'Copies are compared byte by byte with the given files after every mutating call.'),
    'C11': ('seeded faults in any call of a run with a ledger of every ecCodes handle, index and open file of the simulated process',
            'Handles are counted at the ecCodes boundary, files at the system call boundary. Outputs whose writes were made to fail are left out: HDF5 and libcsf keep those files open themselves.'),
    'C12': ('seeded runs with faults; every mutating system call is attributed to an owner and the world outside is compared before and after',
            'Every mutating call of every simulated process is seen by the interposed C library; calls outside the scratch world are refused and reported.'),
    'C13': ('the same commands under different seeded clocks, clock jumps, time zones, directory orders, hash seeds, process ids and random states; outputs compared exactly',
            'Two interpreters with different hash seeds; directory order, clock, pid and randomness come from the simulator. Clocks before 1970 are left out.'),
    'C14': ('seeded sequences of failed, killed and powered-off runs followed by one undisturbed run, whose success and outputs are compared with a first run on clean files',
            'The last phase must succeed without clean-up and leave what an undisturbed first run leaves, tables and registrations included.'),
}
NA = {
    'C15': 'Pure arithmetic on arrays in memory: no scheduling, time, I/O or other party influences it, so there is nothing for a simulator to decide. (The model used by C01 computes it as an oracle for runs under faults.)',
    'C16': 'Pure function of its arguments; no nondeterminism or fault can reach it.',
    'C17': 'Pure numerical function of grid, target and method; no nondeterminism or fault can reach it. Independence of order and parallelism is C07.',
    'C18': 'Pure function of masks; no schedule or fault can influence it.',
    'C19': 'Encoding is a pure function of values and options; the part that depends on I/O (write errors, partial files) is C01.',
    'C20': 'Pure function of the command line and the command file.',
    'C21': 'Pure selection by keys; the parts that depend on message order, retrieval path or damaged input are C08.',
    'C22': 'Injectivity of a naming function: decided by two inputs, not by a schedule or fault. It does not hold (two known findings, shown by the C04 check as histories in which a run reads another grid\'s table).',
}
FIXED = {   # subject prefix -> property
    'netCDF output failed for clone': 'C01', 'closing an execution': 'C01', 'missing source values': 'C01', 'correction turned': 'C01', 'array API could not create': 'C01',
    'missing cells became': 'C01', 'user configuration was written': 'C02', 'interpolation tables were written': 'C04', 'a table file replaced': 'C05', 'a corrector of': 'C05',
    'write errors of PCRaster': 'C01', 'command line options': 'C09', 'interrupted downloads': 'C09', 'values of variables': 'C13', 'interpolation of small': 'C07',
    'split interpolation': 'C07', "GRIB files that can't": 'C08', 'messages and files': 'C11', 'adding a geopotential': 'C10', 'parallel interpolation': 'C07',
    'compressed tables': 'C06', 'write errors of netCDF': 'C01', 'messages that could not': 'C08', 'user files that could': 'C02', 'an interpolation table another': 'C03', 'a global configuration that': 'C05', 'truncated PCRaster maps': 'C08', 'unit and type of step': 'C08',
    'date of the first message': 'C01', 'time step was not': 'C01', 'accumulation on steps finer': 'C01', 'grib_invdist cells': 'C01', 'maps were left out for files': 'C01',
    'files having two resolutions': 'C01', 'messages of the second input': 'C01', 'no output at all': 'C01', 'halfweights': 'C01', 'cells without coordinates': 'C01',
    'message of the first resolution': 'C08', 'netCDF maps are closed': 'C05', 'geopotential of an ensemble': 'C01',
    'cells missing in one message': 'C01', 'requests for step 0': 'C01', 'second resolution was corrected': 'C01',
}


def main():
    man = {'version': 1, 'setup_cmd': './check setup', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'No hooks in /repo: the seams are the C library (LD_PRELOAD shim), the process pools, sockets and ecCodes bindings, replaced or wrapped inside the simulated processes. '
                    'Replay: ./check replay <file>. Knobs: SIM_WORLDS, SIM_ALL, SIM_CAP, VERIF_SEED.'}
    for k, (t, n) in LEVEL.items():
        man['checks'].append({'property': k, 'quick_cmd': f'./check {k} quick', 'thorough_cmd': f'./check {k} thorough', 'evidence_file': f'evidence/{k}.json',
                              'technique': TECH + t, 'level': 'exploration', 'level_note': n})
    with open('/verif/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '48f4186..'], capture_output=True, text=True).stdout.split('\n')
    fixed = []
    for line in log:
        if ' fix: ' not in line:
            continue
        h, s = line.split(' fix: ', 1)
        p, = [v for k, v in FIXED.items() if s.startswith(k)]
        fixed.append(f'fixed: property={p} {h} {s}')
    with open('/verif/known_findings.json') as f:
        d = json.load(f)
    d['fixed'] = fixed
    with open('/verif/known_findings.json', 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
