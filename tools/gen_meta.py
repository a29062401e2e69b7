#!/usr/bin/env python3
""" Writes properties.jsonl and MANIFEST.json from the single list below. Run after editing it. """
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'glompo/core/'
MAN, LOG, BACK, CHK = C + 'manager.py', C + 'optimizerlogger.py', C + '_backends.py', C + 'checkpointing.py'
BASE = 'glompo/optimizers/baseoptimizer.py'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, claimed=True, reason=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, claimed=claimed, reason=reason))


E2E_NOTE = ('Randomised search over complete sessions of the real manager (selection, slots, queue, log, hunts, clean-up) '
            'with scripted optimizers. The interleaving of optimizers and manager is part of the generated case; threads '
            'backend, in-process stand-ins for the multiprocessing service objects. No proof: bounded number of cases, at '
            'most 4 scripts, 7 optimizers, about 100 evaluations per session.')
E2E_TECH = 'property-based testing of generated sessions and schedules against the scripts actually executed (Hypothesis)'

prop('P01', 'The incumbent is always the best evaluation accepted so far',
     'At every moment of an optimization the reported best solution is the lowest function value (NaN never counts) among '
     'all evaluations recorded so far over all optimizers, running, finished or killed, together with exactly the vector '
     'which produced it and the id and type of the optimizer which evaluated it. It never gets worse during a session, '
     'and the result which is returned at the end obeys the same rule however the session ended. As long as no '
     'evaluation gave a usable value, no solution vector is reported.',
     ['schedules', 'histories', 'inputs'],
     'all scripts of evaluations (negative, tied, infinite, NaN values, vectors as lists or arrays), all interleavings of '
     'optimizers and manager, with and without hunting, sharing and discarding of histories',
     'Tests follow one or two fixed trajectories; ties, NaN/inf, late results of dead optimizers and results of killed '
     'optimizers only appear for particular schedules.',
     [MAN, LOG], [('best result update after every accepted evaluation', MAN + ' GloMPOManager._update_best_result'),
                  ('best iteration per optimizer and overall', LOG + ' BaseLogger.put_iteration')], E2E_TECH, E2E_NOTE)

prop('P02', 'Every evaluation is recorded exactly once, in order, unaltered',
     'Each evaluation an optimizer makes is recorded at most once, in its own history, in the order in which it made them, '
     'with its own vector, function value and detailed outputs; if the optimizer is not killed and the session ends '
     'because all optimizers have ended, none is missing. Recorded evaluations are numbered 1 to N without gaps or repeats '
     'across optimizers, and the evaluation counter, the size of the log and the reported statistics all equal N at any '
     'time. The optimizer itself is always handed the function value of its own evaluation.',
     ['schedules', 'histories', 'inputs'],
     'all sequences of evaluations by concurrent optimizers, bursts larger than the results queue, all interleavings, '
     'detailed and plain logging',
     'Loss, duplication or mis-attribution of results depends on how full the queue is and who runs when; tests use few '
     'evaluations and never compare the log with what each optimizer did.',
     [MAN, LOG, BACK, BASE], [('results processing loop', MAN + ' GloMPOManager._process_results'),
                              ('chunked queue', BACK + ' ChunkingQueue'),
                              ('function wrapper sending results', BASE + ' _MessagingWrapper'),
                              ('storage', LOG + ' BaseLogger.put_iteration')], E2E_TECH, E2E_NOTE)

prop('P03', 'Worker slots, unique ids and the configured start of every optimizer',
     'The workers of the optimizers running at any moment never exceed the allowed number of jobs, and the selector is '
     'offered exactly the slots which are free. Every optimizer started gets the next id (1, 2, 3, ...), never reused, '
     'and is started exactly once with the class and the initialisation and call settings chosen by the selector, the '
     'starting point generated for it and the configured bounds. While spawning is allowed and a selected optimizer fits '
     'into the free slots, it is started; once the selector says stop, no other optimizer is ever started.',
     ['schedules', 'configurations', 'histories'],
     'all sets of optimizer configurations (1 to 6 workers each), job limits 1 to 6, all orders in which optimizers end, '
     'crash or are killed',
     'Tests start fixed sets of optimizers which fit exactly; oversubscription and misconfiguration show only when '
     'differently sized optimizers end in a particular order.',
     [MAN, 'glompo/opt_selectors/baseselector.py'],
     [('slot filling', MAN + ' GloMPOManager._fill_optimizer_slots'),
      ('optimizer construction', MAN + ' GloMPOManager._setup_new_optimizer'),
      ('job start', MAN + ' GloMPOManager._start_new_job')], E2E_TECH, E2E_NOTE)

prop('P04', 'A session ends exactly when its condition is met, and leaves nothing running',
     'A session keeps going until its convergence condition is true or no optimizer is running and none may be started '
     'any more; at the first time the condition is true after a pass over signals and results it ends, and never before. '
     'The reported reason is the condition with its results, or that no optimizers are left. When the call returns, every '
     'optimizer has ended or has been told to stop and, within the configured time limit, been waited for; an optimizer '
     'which is slow to react or full of pending results cannot block the return.',
     ['schedules', 'configurations', 'histories'],
     'all conditions on evaluations or passes, optimizers which end early, lag behind the stop signal, hang, or produce '
     'more results than the queue can hold',
     'Premature or missed termination and deadlocks at shutdown need results in flight at the wrong moment; tests check '
     'only the end state of a few prepared runs.',
     [MAN], [('main loop', MAN + ' GloMPOManager.start_manager'),
             ('shutdown', MAN + ' GloMPOManager._stop_all_children')], E2E_TECH, E2E_NOTE)

prop('P05', 'Hunts take place when due and ask about exactly the right optimizers',
     'If a kill condition is configured, it is evaluated as soon as the configured number of evaluations has been recorded '
     'since the previous hunt and a usable best value exists, and at no other time. In each hunt the optimizer holding the '
     'best value is the hunter, and every other optimizer which has recorded evaluations and has not ended or been killed '
     'is considered exactly once as victim; the hunter, ended and killed optimizers never are. Without a kill condition '
     'no optimizer is ever hunted.',
     ['schedules', 'histories', 'configurations'],
     'all interleavings of results of up to 7 optimizers, hunting frequencies 1 to 7, all answer sequences of the condition',
     'Which optimizers are alive, have points or are already dead at a hunt depends on the schedule; tests call the hunt '
     'with one prepared state.',
     [MAN], [('hunt trigger', MAN + ' GloMPOManager._process_results'), ('hunt', MAN + ' GloMPOManager._start_hunt')],
     E2E_TECH, E2E_NOTE)

prop('P06', 'A kill is final, justified, recorded, and hits only its target',
     'An optimizer is killed exactly when the kill condition answered true for it (or the user asked for it): it is told '
     'to stop, counted once as killed, its log names hunter and reason and an end time, and from that moment no further '
     'evaluation of it is recorded, however many it still delivers. No other optimizer is told to stop before the session '
     'ends. The reported statistics of optimizers started, killed and converged equal the final counts.',
     ['schedules', 'histories'],
     'all interleavings in which a killed optimizer still has results queued, reacts late to the signal, ends at the same '
     'time or has sent its end signal already',
     'The race between kill, queued results and normal end is schedule dependent; tests kill optimizers in a quiet state.',
     [MAN], [('shutdown of one optimizer', MAN + ' GloMPOManager._shutdown_job'),
             ('late results ignored', MAN + ' GloMPOManager._process_results')], E2E_TECH, E2E_NOTE)

prop('P07', 'Incumbent sharing tells every other running optimizer about each new best, once',
     'With sharing on, whenever an evaluation improves the best value of the session, every other optimizer which is '
     'running is sent exactly that vector and value, once, in the order of the improvements. The optimizer which found it '
     'is not sent its own solution, values which are not a strict improvement are never sent, also if the best value is '
     'zero, infinite or NaN. With sharing off nothing is ever sent.',
     ['schedules', 'histories', 'inputs'],
     'all sequences of values including zero, ties, NaN and infinities by concurrent optimizers',
     'Tests inject one improvement; repetition for particular values (zero) or orders shows only over sequences.',
     [MAN, BASE], [('sharing', MAN + ' GloMPOManager._update_best_result'), ('receipt', BASE + ' BaseOptimizer.inject')],
     E2E_TECH, E2E_NOTE)

prop('P19', 'One failing part never corrupts the session',
     'If an optimizer raises, ends without notice or sends odd messages, only that optimizer ends: one which raised is '
     'recorded as failed, never as converged, and all others go on. If a checker, hunter, generator or selector raises, or the user '
     'interrupts, the session still returns normally with the best result recorded so far, a warning, a crash (or '
     'interrupt) as end condition, and every running optimizer told to stop. In both cases every optimizer started has '
     'an end time and a truthful end condition in the log.',
     ['fault_sequences', 'schedules'],
     'all placements of failures of scripted optimizers and of the plug-ins at any call, all interleavings',
     'Tests let a few components fail at their first call; failures after many steps, or several together, are not '
     'covered.',
     [MAN, BASE], [('crash handling', MAN + ' GloMPOManager.start_manager'),
                   ('dead children', MAN + ' GloMPOManager._inspect_children'),
                   ('error capture', BASE + ' BaseOptimizer._minimize')], E2E_TECH, E2E_NOTE)

# ---- further properties are appended here -----------------------------------------------------------------------
from meta_more import more  # noqa: E402
more(prop)

PROPS.sort(key=lambda p: p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'],
                                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': p['id'], 'quick_cmd': f"./check.sh {p['id']} --tier quick",
                   'thorough_cmd': f"./check.sh {p['id']} --tier thorough", 'technique': p['technique'],
                   'level': 'exploration', 'level_note': p['note']} for p in PROPS if p['claimed']],
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in PROPS if not p['claimed']],
       'notes': 'Hypothesis (python3-vt) generates and shrinks the cases, PyPy workers (/opt/venv-pypy) run them against '
                '/repo. No hooks in /repo. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print(len(PROPS), 'properties,', len(man['checks']), 'claimed')
