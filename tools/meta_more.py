C0 = 'glompo/'
C = 'glompo/core/'
MAN, LOG, BACK, CHK = C + 'manager.py', C + 'optimizerlogger.py', C + '_backends.py', C + 'checkpointing.py'
BASE = 'glompo/optimizers/baseoptimizer.py'
HIST = 'property-based testing of generated histories against a reference model (Hypothesis)'
PURE = 'property-based testing of generated inputs against an independent reference model (Hypothesis)'
CK_NOTE = ('Randomised search over complete sessions with checkpoints (threads backend, in-process stand-ins for the '
           'multiprocessing services, scripted optimizers), at most about 100 evaluations and 7 optimizers each. No proof.')


def more(prop):
    prop('P08', 'A checkpoint restores the manager exactly as it was',
         'Loading a checkpoint gives a manager whose counters (evaluations, optimizers started, converged, killed, hunts), '
         'best result, settings, plug-ins with their state (selector position, checkers, generators), log and history of '
         'checkpoints are those of the session when the checkpoint was complete, however many results were in flight when '
         'it was requested; the log agrees with the counters. Settings given when loading replace the saved ones and '
         'nothing else. Making the checkpoint does not change the course of the session which made it.',
         ['histories', 'schedules', 'crash_points'],
         'all moments at which a checkpoint can be made (start, periodic, on convergence, during hunts and with results '
         'queued), all interleavings, all states of several optimizers',
         'Tests load checkpoints made in a quiet state and look at a few attributes.',
         [MAN, CHK, LOG], [('construction', MAN + ' GloMPOManager.checkpoint'),
                           ('synchronisation', MAN + ' GloMPOManager._checkpoint_optimizers'),
                           ('restoring', MAN + ' GloMPOManager.load_checkpoint')],
         'property-based testing: snapshot of the session at the checkpoint against what loading it gives (Hypothesis)', CK_NOTE)

    prop('P09', 'A resumed optimization loses, repeats and revives nothing',
         'After resuming from a checkpoint every optimizer which was running continues exactly after its last recorded '
         'evaluation: over both sessions together each evaluation is recorded once, in order, numbered without gaps, with '
         'the same accounting, best result, kill and slot rules as in an uninterrupted session. Optimizers which had '
         'ended, crashed, been killed or been told to stop when the checkpoint was made are not started again; new '
         'optimizers get the next ids.',
         ['histories', 'schedules', 'crash_points'],
         'all checkpoints of generated sessions, all interleavings before and after, all ends of both sessions',
         'Losing a result needs one in flight while optimizers are paused, reviving needs one ending or killed at that '
         'moment; tests have neither.',
         [MAN, BASE], [('synchronisation', MAN + ' GloMPOManager._checkpoint_optimizers'),
                       ('resuming', MAN + ' GloMPOManager._setup_new_optimizer'),
                       ('saving of an optimizer', BASE + ' BaseOptimizer.checkpoint_save')],
         'property-based testing of two-session histories against the scripts actually executed (Hypothesis)', CK_NOTE)

    prop('P10', 'A checkpoint is made completely or not at all, and only the oldest are deleted',
         'Whatever fails while a checkpoint is made (unpicklable parts, full disk, compression, an optimizer which cannot '
         'be saved, missing directory), or if the process dies at any moment, no unreadable or partial archive is left '
         'under a checkpoint name, all earlier checkpoints and other files remain unchanged, and the failed one is not '
         'listed as made. By default a failure only warns and the session goes on undisturbed; with raise_checkpoint_fail '
         'it ends in error. After a success at most keep_past earlier checkpoints remain, the newest ones, and only files '
         'which match the naming format are deleted. A task which cannot be pickled is saved through its own '
         'checkpoint_save or left out.',
         ['crash_points', 'fault_sequences', 'histories'],
         'all steps of the construction as points of failure or of process death, all contents of the directory',
         'Tests provoke one failure (an unpicklable checker); the other points and what is left on disk are not looked at.',
         [MAN, CHK], [('construction', MAN + ' GloMPOManager.checkpoint'),
                      ('optimizers', MAN + ' GloMPOManager._checkpoint_optimizers'),
                      ('task', MAN + ' GloMPOManager._checkpoint_task')],
         'property-based fault injection: errors and process death at generated points, oracle on the directory (Hypothesis)',
         CK_NOTE + ' Process death is simulated by ending a forked process at a generated line of the package (or tarfile).')

    prop('P11', 'Checkpoint names follow the format, are recognised and count upwards',
         'A new checkpoint name is the naming format with every key replaced by the date, time or count it stands for, all '
         'other characters literal. A name is recognised as matching (with or without .tar.gz) if and only if it could '
         'have been made from the format. The count is one above the largest among matching names in the directory, '
         'written with at least three digits, also beyond 999, and starts at 000.',
         ['inputs', 'histories'],
         'all formats mixing keys and arbitrary literal characters, all directory contents, counts beyond 999',
         'Tests use a handful of plain formats; special characters, near matches and large counts are not tried.',
         [CHK], [('name', CHK + ' CheckpointingControl.get_name'),
                 ('recognition', CHK + ' CheckpointingControl.matches_naming_format')], PURE,
         'Randomised search; the reference parses names token by token without regular expressions.')

    prop('P14', 'Combined conditions are evaluated lazily, left to right, and report truthfully',
         'Hunters, and convergence checkers, combined with & and | in any nesting evaluate like the logical expression, '
         'from left to right, lazily (parts which cannot change the answer are not called), and call every part with the '
         'arguments of the whole. After each evaluation last_result, the printed expression and its nested formatting show '
         'the answer of each part evaluated this time and None for every part which was not; reset clears them. Iterating '
         'gives the parts in order. Exceptions of a part reach the caller. Combining with anything else is a TypeError.',
         ['inputs', 'histories'],
         'all expressions of up to 8 parts, all sequences of answers (including exceptions) of the parts',
         'Tests evaluate a few fixed expressions once; stale results of an earlier evaluation need sequences.',
         [C0 + 'common/corebase.py', C0 + 'common/helpers.py'],
         [('combinations', C0 + 'common/corebase.py _CombiCore'), ('formatting', C0 + 'common/helpers.py nested_string_formatting')],
         PURE, 'Randomised search over expressions and answers. No proof.')

    prop('P15', 'Built-in convergence conditions hold exactly when documented',
         'MaxFuncCalls, MaxOptsStarted, NOptConverged, MaxKills: true if and only if the counter has reached the limit. '
         'TargetCost: if and only if the best value is within atol (default 1e-6) of the target or below it, false without a '
         'best value. KillsAfterConvergence: if and only if the given number of kills happened since the moment the given '
         'number of optimizers had converged (seen at an evaluation). MaxSeconds: by the time of this session, or of all '
         'sessions of a resumed optimization; exactly one of both must be given. They remain usable over any sequence of '
         'states, and last_result and text agree with the answer.',
         ['inputs', 'histories'],
         'all sequences of counters, best values (also none, infinite) and times',
         'Tests evaluate each condition in one or two states; conditions with memory need sequences.',
         [C0 + 'convergence/'], [('conditions', C0 + 'convergence/*.py __call__')], PURE,
         'Randomised search with states given directly to the conditions. Times are not nearer than 5 s to the limits.')

    prop('P16', 'Built-in kill conditions hold exactly when documented',
         'For any history of evaluations (with nan and infinite values, few evaluations) of hunter and victim: BestUnmoving '
         'if the best value of the victim changed by at most tol (relative) over the last calls evaluations; '
         'EvaluationsUnmoving if the standard deviation of the last calls values is within tol of the last one; '
         'LastPointsInvalid if the last calls values are all not finite; MinFuncCalls if the victim made at least that many; '
         'ParameterDistance if the latest points of victim and hunter (or any other optimizer, also those which have '
         'ended) are within a relative distance; StepSize if the mean of the last steps is within a relative size; '
         'TypeHunter by type of victim. TimeAnnealing kills with probability 1 - n_hunter/n_victim/crit_ratio, '
         'ValueAnnealing with 1 - (1 - med_kill_chance)^(relative difference of the bests). With too few evaluations the '
         'answer is False, never an error. Invalid settings are rejected.',
         ['inputs', 'histories'],
         'all histories of several optimizers in memory or in a log file, all settings',
         'Tests use mocked logs of a few hand-made trajectories; nan, ties, cleared optimizers and probabilities are not tried.',
         [C0 + 'hunters/', LOG], [('conditions', C0 + 'hunters/*.py __call__')], PURE,
         'Randomised search; rounding margins of 1e-9 are left undecided, probabilities are tested with 300 repetitions '
         'against a bound of 1e-12.')

    prop('P12', 'The log file holds exactly the recorded history, also over several sessions',
         'With summary_files=3 the file glompo_log.h5 has one group per optimizer started, whose table holds every accepted '
         'evaluation in order (call id, x, fx and each extra of the detailed call in the column of its header), its '
         'messages, type, start and end times, end condition and best iteration; the attributes of the file give the '
         'counters, best iteration, bounds and exit reason of the session. What is read through the log is the same before '
         'and after data is cleared from memory or written. On resuming, the same file is continued as it was at the '
         'checkpoint: anything after it (rows, optimizers, end conditions, messages) is removed with a warning, and nothing '
         'is lost or twice. This holds if the first session was interrupted after the checkpoint. Without the file a new one '
         'is begun with a warning; the file of another optimization is refused and not changed.',
         ['histories', 'crash_points', 'inputs'],
         'all sequences of operations on the log, complete sessions with several optimizers, all checkpoints to resume from',
         'Tests fill a log once and look at a prepared file; misplaced columns, rollback and lost rows need generated histories.',
         [LOG, MAN], [('file log', LOG + ' FileLogger'), ('rollback', MAN + ' GloMPOManager.start_manager'),
                      ('metadata', MAN + ' GloMPOManager._save_log')],
         'property-based testing: operation sequences against a reference model, sessions against the file read back '
         '(Hypothesis)', CK_NOTE + ' An interrupted session is represented by a copy of the file made right after a checkpoint.')

    prop('P13', 'The log answers every query from exactly what was put in',
         'For any sequence of optimizers added, evaluations, metadata and messages put in, and data cleared: length, number '
         'of optimizers, largest finite value, best iteration overall and of each optimizer (the earliest of the lowest '
         'values; nan never counts) and every column of every history (call_id, x, fx, extras by header) are exactly what '
         'was put in. Clearing removes only the histories of the optimizers named, never the totals or bests; if a trajectory '
         'plot is wanted nothing is cleared. Saving and loading gives an equal, independent log. Trajectory plots show every '
         'evaluation of every optimizer in memory at its call id, with the mark of its end condition.',
         ['histories', 'inputs'], 'all sequences of up to 30 operations on several optimizers, with nan and infinite values',
         'Tests fill a log with one fixed pattern and query a few values.',
         [LOG], [('log', LOG + ' BaseLogger'), ('plots', LOG + ' BaseLogger.plot_trajectory')],
         'property-based testing of operation sequences against a reference model (Hypothesis)',
         'Randomised search over operation sequences. Plots are compared by the data of their lines.')

    prop('P17', 'Generators give vectors inside the bounds by their documented rule',
         'RandomGenerator: independent uniform samples in the bounds. IncumbentGenerator: the best vector so far, a random '
         'one before there is any. SinglePointGenerator: always the vector provided, or always the same random one. '
         'ExploitExploreGenerator: alpha * best of an optimizer + (1 - alpha) * random vector, alpha = (calls / f_calls_max)'
         '**focus at most 1, the optimizer selected with weights of how far its best is below the worst best; optimizers '
         'without usable values are never selected. BasinHoppingGenerator: within step_size of the best vector of an '
         'optimizer, moving to others by the Metropolis criterion, the step size growing or shrinking by factor every '
         'interval optimizers, never above the maximum. Changing a returned vector changes neither the log, the incumbent '
         'nor later vectors. Invalid bounds and settings are rejected.',
         ['inputs', 'histories'],
         'all bounds (1 to 5 parameters, wide, tiny, negative), settings and sequences of optimizers and evaluations with '
         'nan and infinite values',
         'Tests draw a few vectors in one fixed state; distributions, tied or missing values and aliasing are not tried.',
         [C0 + 'generators/'], [('generators', C0 + 'generators/*.py generate')], PURE,
         'Randomised search; distributions are compared with bounds of 7 standard deviations (false alarm below 1e-11).')

    prop('P18', 'Selectors give the documented type with its settings, or refuse',
         'CycleSelector goes through its options in order, one per optimizer started; RandomSelector picks uniformly among '
         'the options which fit into the free slots; ChainSelector uses the option of the number of evaluations reached and '
         'stops after the last threshold. An option which does not fit gives None and is next in turn again; if allow_spawn '
         '(also IterSpawnStop, NOptimizersSpawnStop) refuses, the answer is False. The settings are exactly those given '
         '(workers 1 by default), and the objects given by the user are never changed. Invalid options are rejected.',
         ['inputs', 'histories'],
         'all lists of options, thresholds, and sequences of counters, free slots and answers of allow_spawn',
         'Tests select a few times from one list; the interplay of thresholds, slots and spawn control over a history is not tried.',
         [C0 + 'opt_selectors/'], [('selectors', C0 + 'opt_selectors/*.py select_optimizer'),
                                   ('spawn control', C0 + 'opt_selectors/spawncontrol.py')], PURE,
         'Randomised search; the uniformity of RandomSelector is compared with bounds of 7 standard deviations.')

    prop('P20', 'The queue of results neither loses, repeats nor reorders',
         'ChunkingQueue: for any sequence of put, put_nowait, put_incache, flush and get, every item put successfully comes '
         'out once, in order; the queue never holds more than max_queue_size chunks; put_nowait never fails but begins to '
         'collect chunks of max_chunk_size when the queue is full, and blocks when both are full until the consumer takes a '
         'chunk; has_cache and Full/Empty tell the truth. With several threads the items of each producer stay in order, '
         'nothing is lost or twice and nobody blocks forever while the consumer takes chunks.',
         ['histories', 'schedules'],
         'all sequences of up to about 30 operations, 1 to 4 producer threads with random speed of the consumer',
         'Tests put a fixed number of items with one order of operations.',
         [BACK], [('queue', BACK + ' ChunkingQueue')],
         'property-based testing of operation sequences against a reference model and of real threads (Hypothesis)',
         'Randomised search. Thread schedules are those of the interpreter with a switch interval of 10 microseconds.')

    prop('P24', 'Benchmark functions compute their documented formulas and minima',
         'Each function returns the value of its documented formula, for lists, tuples and arrays, of floats or integers, '
         'without changing the vector; dims, bounds, min_x and min_fx are as documented: min_x is inside the bounds, its '
         'value is min_fx and no vector within the bounds has a lower one. Noise stays within its documented size, gradients '
         'and individual contributions agree with the formula, shift_positive moves the minimum, delay is respected and '
         'invalid arguments are rejected.',
         ['inputs'], 'all functions, dimensions 1 to 10, settings, vectors inside the bounds, at edges, near the minimum',
         'Tests evaluate the minimum of default instances only.',
         [C0 + 'benchmark_fncs/'], [('functions', C0 + 'benchmark_fncs/')],
         'property-based testing against an independent transcription of the formulas (Hypothesis)',
         'Randomised search; formulas are compared with a relative tolerance of 1e-9. The approximate minimum of Shekel is '
         'not checked. Known finding: rana-min.')

    prop('P21', 'Optimizers obey the messages of the manager',
         'An optimizer handles the messages of the manager in order (stop, with or without reason; incumbents; save; pass), '
         'warns of and ignores others. After a stop it makes no further evaluation (CMA: none after the running '
         'population), announces its end once and reports every evaluation once, in order, followed by its id, also if the '
         'task fails (with the traceback) or is interrupted. While paused or waiting for a checkpoint it evaluates nothing. '
         'A checkpoint restores all public attributes; RandomOptimizer and CMAOptimizer continue from it exactly as they '
         'would have without it, without arguments. RandomOptimizer makes the given number of evaluations; CMAOptimizer '
         'evaluates x0, uses the documented population size, injects a better incumbent into the next population when '
         'forced, reports the best evaluation, stops on request of its callback and can be used repeatedly without manager.',
         ['histories', 'inputs', 'schedules'],
         'all sequences of messages at all evaluations, settings, values with nan, failures of the task',
         'Tests send one message at one moment and check that something stops.',
         [BASE, 'glompo/optimizers/random.py', 'glompo/optimizers/cmawrapper.py'],
         [('protocol', BASE + ' BaseOptimizer.check_messages'), ('evaluations', BASE + ' _MessagingWrapper'),
          ('CMA', 'glompo/optimizers/cmawrapper.py CMAOptimizer.minimize')],
         'property-based testing of histories: a simulated manager sends generated messages during real minimisations '
         '(Hypothesis)',
         'Randomised search; threads only. The optimizers which need packages not installed here (Nevergrad, GFLS, SciPy) '
         'are not run.')

    prop('P22', 'Summary files tell the truth about a session and respect other files',
         'With summary_files 0 to 3 a session (first or resumed, ended or crashed) leaves exactly the documented files in '
         'the working directory: the manager log from level 1, the plot of the trajectories from 2, the HDF5 log from 3. '
         'The manager log can be loaded and its counters, solution, exit condition, settings, optimizers, periods and '
         'checkpoints are those of the session, whatever the settings contain; so are the attributes of the HDF5 log. '
         'Old results are overwritten only if this is allowed, otherwise nothing is changed and nothing is run; files '
         'which are not results are never touched. write_summary_file gives the state at any moment, also of a loaded '
         'checkpoint, without disturbing the session.',
         ['inputs', 'histories', 'schedules'],
         'all summary levels, contents of the directory before, settings of optimizers and generators of various types, ends '
         'of sessions, moments of write_summary_file',
         'Tests check that some files exist after one session with default settings.',
         [MAN, C0 + 'common/helpers.py'], [('summary', MAN + ' GloMPOManager._save_log'),
                                           ('old results', MAN + ' GloMPOManager._purge_old_results'),
                                           ('on request', MAN + ' GloMPOManager.write_summary_file')],
         'property-based testing: files after generated sessions against the session itself (Hypothesis)',
         'Randomised search; threads backend. The content of the plots is not checked.')

    prop('P25', 'Setting up a manager takes every setting as given or refuses it',
         'setup (and new_manager) raises TypeError or ValueError for invalid arguments (task, selector, bounds, max_jobs, '
         'plug-ins of the wrong type or classes instead of objects), accepts all others and takes each as given, with the '
         'documented defaults for those left out and warnings for ignored ones. A refused setup leaves the manager '
         'uninitialised, so that it can be set up again; an initialised manager is not changed by another setup or '
         'load_checkpoint, by changes to the arguments made later or by changing the directory. Setting up makes no files. '
         'A manager which was not set up returns an empty result when started.',
         ['inputs', 'histories'],
         'all combinations of valid, invalid and omitted arguments, sequences of attempts',
         'Tests try single invalid arguments with everything else valid.',
         [MAN], [('settings', MAN + ' GloMPOManager.setup')], PURE,
         'Randomised search. The sessions which follow are the subject of the other properties.')

    prop('P29', 'Helpers documented for users do what they say for all inputs',
         'is_bounds_valid, distance, rolling_min, unravel, present_memory and infer_headers give the documented result for '
         'all inputs and leave their arguments unchanged; inferred headers hold the values they were inferred from. '
         'WorkInDirectory makes the directory and always returns to the one before. SplitOptimizerLogs puts every message '
         'and traceback of an optimizer in its own file and none anywhere else. Functions needing an absent package only '
         'warn; with the package present all their errors come through. glompo_colors gives valid and consistent colors.',
         ['inputs', 'histories'],
         'all arguments up to a size, nested contexts with errors, all interleavings of records of several optimizers',
         'Tests use one or two examples of each helper.',
         [C0 + 'common/helpers.py', C0 + 'common/wrappers.py'],
         [('helpers', C0 + 'common/helpers.py'), ('wrappers', C0 + 'common/wrappers.py')], PURE,
         'Randomised search. Known finding: split-logs-below-level.')

    prop('P30', 'Sessions with real processes obey the same rules',
         'With the process backends each optimizer runs in a process of its own (daemon or not as the backend says, also '
         'when resumed). Every evaluation made before an optimizer ended is recorded once, in order, unaltered, with its '
         'details, and the result is the best. Optimizers killed, converged, silent, raising, or dead by exit code or '
         'signal are recorded as such and counted once, without effect on others. New incumbents reach the others. '
         'Checkpoints resume exactly where each optimizer was. No process is left running when the session returns.',
         ['schedules', 'faults', 'histories'],
         'all mixtures of optimizers in processes, ways they end or die, kills, backends, checkpoints to resume from',
         'Tests start few processes, with fixed behaviour.',
         [C0 + 'core/manager.py', C0 + 'optimizers/baseoptimizer.py', C0 + 'core/_backends.py'],
         [('start of processes', C0 + 'core/manager.py'), ('messages of optimizers', C0 + 'optimizers/baseoptimizer.py')], (
             'model-based property testing of generated sessions with real processes and injected deaths (Hypothesis)'),
         'Randomised search over real processes; schedules are those of the operating system, so replays may differ.')

    prop('P27', 'Users can stop optimizers and request checkpoints by files at any time',
         'A file STOP_x (x the id, leading zeros allowed) in the working directory makes the manager stop exactly that '
         'optimizer in its next pass if it is running: it is told to stop, recorded as terminated by the user, counted as '
         'killed, its slots are freed, and the file is deleted. Files for optimizers which do not run stay; files with other '
         'names are never touched. A file CHKPT gives exactly one complete checkpoint in the next pass and is deleted; it '
         'also does so, in checkpoints within the working directory, if checkpointing was not set up, which it is not '
         'afterwards either. Optimizers stopped by the user are not part of checkpoints. Nothing else changes.',
         ['histories', 'schedules'],
         'all files at all passes of all sessions, several at once, with hunts and periodic checkpoints going on',
         'Tests stop one optimizer once and make one checkpoint.',
         [MAN], [('stop files', MAN + ' GloMPOManager._is_manual_shutdowns'),
                 ('checkpoint file', MAN + ' GloMPOManager._is_manual_checkpoints')],
         'property-based testing of histories: files left by a simulated user in generated sessions (Hypothesis)', CK_NOTE)

    prop('P23', 'What optimizers print reaches their own files, and nothing else does',
         'With split_printstreams, everything an optimizer (thread or process) prints or writes to its standard streams, '
         'and its traceback if it fails, is completely and in order in its printstream_xxxx.out and .err files, there is '
         'one pair of files per optimizer, and everything printed elsewhere (manager, other threads, also those which come '
         'later) goes to the console. Optimizers can use the streams like any other. A resumed session rewrites only the '
         'files of the optimizers it runs. Without split_printstreams everything goes to the console and no files are made. '
         'After a session the streams are those of before.',
         ['histories', 'schedules', 'inputs'],
         'all sequences of output of several optimizers in all interleavings, failures, nested redirections',
         'Tests print one line in one thread.',
         [BACK, 'glompo/common/wrappers.py', MAN],
         [('threads', BACK + ' ThreadPrintRedirect'), ('threads which redirect', BACK + ' CustomThread'),
          ('processes', 'glompo/common/wrappers.py process_print_redirect')],
         'property-based testing of histories of output against what was said (Hypothesis)',
         'Randomised search. Output of subprocesses and of threads started by optimizers is not covered.')

    prop('P28', 'What is due after some time happens then, and only then',
         'Periodic checkpoints are made in exactly the passes in which the time or the number of evaluations since the last '
         'one exceeds its limit (one per pass). Status messages appear in exactly the passes in which they are due and give '
         'the time, evaluations, slots, best value and last values of that moment. MaxSeconds ends the session in the first '
         'pass in which its limit is reached, counting earlier sessions for the overall limit. With force_terminations_after '
         'and processes, exactly those optimizers are terminated which give no result (or do not react to being killed) for '
         'longer than that, and recorded so; never otherwise. Aggressive kills terminate processes at once. At the end '
         'optimizers get end_timeout to finish, then processes are terminated.',
         ['histories', 'schedules'],
         'all passages of time between passes, all sessions with hanging, killed and ending optimizers',
         'Tests wait real seconds for one event.',
         [MAN, 'glompo/convergence/tmax.py'],
         [('hanging optimizers', MAN + ' GloMPOManager._inspect_children'), ('periodic events', MAN + ' GloMPOManager.start_manager'),
          ('limits', 'glompo/convergence/tmax.py MaxSeconds'), ('status', MAN + ' GloMPOManager._build_status_message')],
         'property-based testing of histories with a simulated clock and stand-ins for processes (Hypothesis)',
         'Randomised search. time.time is replaced by a simulated clock and processes by threads which can be terminated '
         'between two operations. Resource usage in status messages is not checked.')

    prop('P26', 'The scope shows exactly what happened in the session',
         'With visualisation, every optimizer has one stream in its own color showing exactly its accepted evaluations at '
         'their numbers (the best so far with elitism, logarithms with log_scale, the last x_range evaluations if given). '
         'Every kill, convergence, crash, pause and checkpoint is marked at the last shown evaluation of the optimizer '
         'concerned, once per event, and at no other. The axes show what is to be seen and keep given limits. Saved scopes '
         'continue as they were; resumed sessions continue or begin a picture. Movies are set up once in the working '
         'directory and finished unless the session crashed. Invalid limits are refused, the settings of the user unchanged, '
         'and no figures are left open.',
         ['inputs', 'histories', 'schedules'],
         'all sequences of points and events for all settings; all sessions with crashes, kills, checkpoints and resumption',
         'Tests feed a handful of points to a scope, and use none in sessions.',
         ['glompo/core/scope.py', MAN],
         [('scope', 'glompo/core/scope.py GloMPOScope'), ('events', MAN + ' GloMPOManager (calls of self.scope)')],
         'property-based testing of histories: picture data against the evaluations and events which happened (Hypothesis)',
         'Randomised search. Data of the artists are compared, not pixels; the movie writer is replaced by a recorder and '
         'canvases are not drawn.')
