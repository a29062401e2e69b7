""" Hypothesis strategies (CPython side): one entry of SPECS per property. """
from hypothesis import strategies as st

INF, NAN = float('inf'), float('nan')
SPECS = {}


def spec(pid, strategy, quick, thorough, rule, **kw):
    SPECS[pid] = dict(id=pid, strategy=strategy, quick=quick, thorough=thorough, rule=rule, **kw)


# ---------------------------------------------------------------------------------------------------------- e2e runs
FX = st.one_of(st.integers(-3, 6).map(float), st.sampled_from([0.0, -0.0, 1e-9, INF, -INF, NAN, 1e308, -1e-300, 0.5]),
               st.floats(-100, 100))
PLAIN_FX = st.one_of(st.integers(-3, 9).map(float), st.floats(-10, 10))


def ops(fx=FX, raising=True, max_ops=8, multi=True, odd=False, min_ops=0):
    ev = st.tuples(st.just('e'), fx).map(list)
    evn = st.tuples(st.just('e'), fx, st.integers(2, 14)).map(list)
    alts = [ev, ev, ev, st.tuples(st.just('m'), st.sampled_from(['note', 'Warning: odd', ''])).map(list),
            st.just(['nop'])]
    if odd:
        alts += [st.just(['none9']), st.tuples(st.just('badmsg'), st.sampled_from([1, 3, 5, -1])).map(list)]
    if multi:
        alts.append(evn)
    body = st.lists(st.one_of(*alts), min_size=min_ops, max_size=max_ops)
    ends = [[]] * 4
    if raising:
        ends += [[['raise']], [['silent']]]
    # Without any evaluation an optimizer is of little interest: most scripts start with one
    first = st.one_of(ev.map(lambda e: [e]), ev.map(lambda e: [e]), st.just([]))
    return st.tuples(first, body, st.sampled_from(ends)).map(lambda t: t[0] + t[1] + t[2])


def script(fx=FX, raising=True, max_workers=3, **kw):
    return st.fixed_dictionaries({'ops': ops(fx, raising, **kw), 'workers': st.integers(1, max_workers),
                                  'lag': st.sampled_from([0, 0, 0, 1, 3]), 'alt': st.booleans()})


SCHED = st.lists(st.tuples(st.integers(0, 5), st.sampled_from([1, 1, 1, 2, 3, 8, 30])).map(list), min_size=1, max_size=10)


@st.composite
def e2e(draw, hunter=None, fx=FX, share=None, faults=False, keep=None, hang=False, detailed=True, stop=None,
        raising=True, max_workers=3, multi=True, odd=False, long=False, resume=True):
    mj = draw(st.integers(1, 6))
    scripts = draw(st.lists(script(fx, raising, max_workers=min(mj, max_workers), multi=multi, odd=odd,
                                 **({'max_ops': 24, 'min_ops': 6} if long else {})), min_size=1, max_size=4))
    case = {'scripts': scripts, 'max_jobs': mj, 'max_opts': draw(st.integers(1, 18 if faults else 7)), 'sched': draw(SCHED),
            'as_array': draw(st.booleans()), 'inplace': draw(st.sampled_from([False, False, True])), 'closing': draw(st.sampled_from([0, 1, 1, 2, 3])), 'verbose': draw(st.sampled_from([False, False, True])),
            'n_parms': draw(st.sampled_from([3, 3, 5]))}
    if draw(st.integers(0, 2)) == 0:
        case['busy'] = sorted(draw(st.sets(st.sampled_from(['select', 'hunt', 'x0', 'check']), min_size=1)))
    h = draw(st.booleans()) if hunter is None else hunter
    if h:
        case['hunter'] = draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=1, max_size=6))
        case['hunt_freq'] = draw(st.integers(1, 7))
    case['keep_log'] = draw(st.sampled_from([True, True, False])) if keep is None else keep
    case['share'] = draw(st.booleans()) if share is None else share
    if stop is not False:
        s = draw(st.integers(0, 3)) if stop is None else 1
        if s == 1:
            case['stop'] = {'f': draw(st.integers(1, 40))}
        elif s == 2:
            case['stop'] = {'loop': draw(st.integers(1, 12))}
    if detailed and draw(st.integers(0, 3)) == 0:
        case['detailed'] = True
        case['extras'] = draw(st.integers(0, 3))
        if draw(st.booleans()) and case['extras']:
            case['heads'] = draw(st.sampled_from([[], ['fx']])) + ['zeta', 'beta', 'gamma'][:case['extras']]
    if faults:
        kind = draw(st.sampled_from(['hunter', 'checker', 'generator', 'selector', 'interrupt', None, None, None]))
        if kind:
            case['faults'] = {kind: draw(st.integers(0, 6))}
            if kind == 'hunter' and not h:
                case['hunter'], case['hunt_freq'] = [0], 1
    if hang and draw(st.booleans()):
        scripts[0]['ops'] = scripts[0]['ops'][:draw(st.integers(0, 3))] + [['hang']]
        case['end_timeout'] = 0.15
        case['stop'] = {'loop': draw(st.integers(2, 15)), **case.get('stop', {})}  # Nothing else ends such a run
    elif resume and draw(st.integers(0, 3)) == 0:
        # Another session continues from a checkpoint of this one
        case['resume'], case['keep_log'] = True, True
        case.pop('faults', None)
        for s in scripts:
            s['late'] = draw(st.sampled_from([0, 0, 1, 4]))
            s['ops'] = [o for o in s['ops'] if o[0] != 'badmsg']  # No such message is provided for in a checkpoint
            if len(s['ops']) < 6 and draw(st.booleans()):
                s['ops'] = s['ops'] + draw(ops(fx, raising, max_ops=14, multi=False, min_ops=4))
        case['ckpt'] = {'every': draw(st.integers(1, 12))} if draw(st.integers(0, 2)) == 0 else \
            {'at': sorted(draw(st.sets(st.integers(1, 8), min_size=1, max_size=3)))}
        case['pick'] = draw(st.integers(0, 4))
        case['sched2'] = draw(SCHED)
        k = draw(st.integers(0, 3))
        if k == 1:
            case['stop2'] = {'f': draw(st.integers(1, 60))}
        elif k == 2:
            case['stop2'] = {'loop': draw(st.integers(1, 12))}
    return case


RUN_RULE = 'a complete run in which '
E2E_ASSUME = ['threads backend with in-process queue and pause events; the order in which optimizers and manager act is '
              'part of the generated case']
spec('P01', lambda: e2e(), 2400, 60000, RUN_RULE + 'at least 2 optimizers start and at least 3 evaluations are accepted',
     assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)
spec('P02', lambda: e2e(), 2400, 60000, RUN_RULE + 'at least 2 optimizers start and at least 3 evaluations are accepted',
     assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)
spec('P03', lambda: e2e(max_workers=6), 2400, 60000, RUN_RULE + 'at least 2 optimizers start', assumptions=E2E_ASSUME,
     hang_is_violation=True, timeout=40)
spec('P04', lambda: e2e(hang=True), 1500, 60000, RUN_RULE + 'at least 2 optimizers start and 2 evaluations are accepted',
     assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)
spec('P05', lambda: e2e(hunter=True, keep=True, fx=PLAIN_FX, share=False), 2400, 60000,
     RUN_RULE + 'the kill condition is asked at least twice', assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)
spec('P06', lambda: e2e(hunter=True, share=False), 2400, 60000, RUN_RULE + 'at least one optimizer is killed',
     assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)
spec('P07', lambda: e2e(share=True, keep=True), 2400, 60000, RUN_RULE + 'at least one incumbent is delivered',
     assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)
spec('P19', lambda: e2e(faults=True, odd=True), 2400, 60000,
     RUN_RULE + 'an optimizer or a plug-in fails or ends without notice', assumptions=E2E_ASSUME, hang_is_violation=True,
     timeout=40)


# ------------------------------------------------------------------------------------------------------- checkpoints
OVER = {'hunt_frequency': [17], 'max_jobs': [1, 2, 3, 4, 6, 9], 'summary_files': [0, 1, 2, 3], 'status_frequency': [77],
        'share_best_solutions': [True, False], 'end_timeout': [3.5], 'aggressive_kill': [True, False],
        'split_printstreams': [True, False], 'is_log_detailed': [True, False], 'overwrite_existing': [True, False],
        'force_terminations_after': [-1, 0, 30], 'backend': ['threads', 'processes', 'processes_forced'], 'convergence_checker': [1],
        'x0_generator': [1], 'killing_conditions': [0, 1], 'opt_selector': [1], 'checkpoint_control': [0, 1], 'working_dir': [1]}


@st.composite
def checkpoints(draw, second=True):
    case = draw(e2e(keep=True, fx=PLAIN_FX, long=draw(st.integers(0, 4)) > 0, resume=False))
    for s in case['scripts']:
        s['late'] = draw(st.sampled_from([0, 0, 0, 1, 4]))
        if draw(st.integers(0, 5)) == 0:
            s['ckpt'] = 'dir'
    kind = draw(st.integers(0, 3))
    c = {}
    if kind == 0:
        c['every'] = draw(st.integers(1, 12))
    else:
        c['at'] = sorted(draw(st.sets(st.integers(1, 5), min_size=1, max_size=3)))
    if draw(st.integers(0, 4)) == 0:
        c['conv'] = True
    if draw(st.integers(0, 6)) == 0:
        c['init'] = True
    case['ckpt'] = c
    case['pick'] = draw(st.integers(0, 4))
    if second:
        case['sched2'] = draw(SCHED)
        if draw(st.integers(0, 3)) == 0:
            case['jobs2'] = max([draw(st.integers(1, 7))] + [s['workers'] for s in case['scripts']])
        k = draw(st.integers(0, 3))
        if k == 1:
            case['stop2'] = {'f': draw(st.integers(1, 60))}
        elif k == 2:
            case['stop2'] = {'loop': draw(st.integers(1, 12))}
    else:
        if draw(st.booleans()):
            keys = draw(st.sets(st.sampled_from(sorted(OVER)), min_size=1, max_size=5))
            case['over'] = {k: draw(st.sampled_from(OVER[k])) for k in sorted(keys)}
        if draw(st.booleans()):
            case['task_from'] = {'saved': draw(st.sampled_from([True, False, False])), 'task': draw(st.booleans()),
                                 'loader': draw(st.sampled_from([None, 'ok', 'raise', 'bad']))}
    return case


spec('P08', lambda: checkpoints(second=False), 800, 30000, 'a checkpoint with evaluations and running optimizers was '
     'loaded', assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)
spec('P09', lambda: checkpoints(), 800, 30000, 'an optimizer was resumed from a checkpoint and the second session '
     'evaluated the task', assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)


# ------------------------------------------------------------------------------------------------------------ naming
LIT = st.text(alphabet='ab_-.s[]{}()$^+*|?\\%0 e', min_size=1, max_size=5)
KEYS = ['date', 'year', 'yr', 'month', 'day', 'time', 'hour', 'min', 'sec']


@st.composite
def name_tokens(draw, count=None):
    toks = draw(st.lists(st.one_of(LIT.map(lambda s: ['lit', s]), st.sampled_from(KEYS).map(lambda k: ['key', k])),
                         min_size=0, max_size=4))
    if count is not False and (count or draw(st.integers(0, 3))):
        toks.insert(draw(st.integers(0, len(toks))), ['key', 'count'])
    if not any(t[0] == 'lit' for t in toks):
        toks.insert(0, ['lit', 'c'])
    # A literal must not read as a key by accident, nor continue the one before it
    out = []
    for t in toks:
        if out and out[-1][0] == 'lit' and t[0] == 'lit':
            out.append(['lit', '_'])
        out.append(t)
    merged = []
    for t in out:
        if merged and merged[-1][0] == 'lit' and t[0] == 'lit':
            merged[-1] = ['lit', merged[-1][1] + t[1]]
        else:
            merged.append(list(t))
    return merged


@st.composite
def naming_case(draw):
    return {'tokens': draw(name_tokens()), 'rounds': draw(st.integers(1, 4)), 'nodir': draw(st.booleans()),
            'files': draw(st.lists(st.tuples(st.one_of(st.integers(0, 12), st.integers(97, 103), st.sampled_from([998, 999, 1000, 1001, 12345])),
                                             st.sampled_from(['', '.tar.gz', '.tar.gz', '.tar', '_old', 'x']),
                                             st.sampled_from([None, None, None, 'del', 'ins', 'sub']), st.integers(0, 30),
                                             st.sampled_from(list('ab0_.1')), st.booleans()).map(list), max_size=6))}


spec('P11', naming_case, 6000, 200000, 'the directory holds names which match the format and names which do not', timeout=30)


# ------------------------------------------------------------------------------------------------ checkpoint failures
EXISTING = st.lists(st.tuples(st.integers(0, 12), st.sampled_from(['.tar.gz', '.tar.gz', '.tar.gz', '', '_notes.txt', '1.tar.gz', '.tar']),
                              st.integers(0, 9), st.sampled_from([False, False, False, True])).map(list), max_size=6)
RETAIN_TOKENS = st.one_of(st.sampled_from([[['lit', 'c'], ['key', 'count']], [['lit', 'fixed']], [['lit', 'v1.5']],
                                           [['lit', 'v1.5_'], ['key', 'count']],
                                           [['key', 'day'], ['lit', '_'], ['key', 'count']],
                                           [['lit', 'c'], ['key', 'count'], ['lit', '.b']]]), name_tokens())


@st.composite
def chk_fail(draw):
    if draw(st.integers(0, 2)) == 0:
        case = {'kind': 'crash', 'scripts': [{'ops': [['e', 1.0]], 'workers': 1}], 'max_jobs': 1, 'max_opts': 1,
                'ckpt': {'keep': draw(st.sampled_from([-1, -1, 0, 1, 2]))}, 'made': draw(st.integers(0, 3)),
                'tokens': draw(RETAIN_TOKENS), 'existing': draw(EXISTING), 'fine': draw(st.sampled_from([False, False, True])),
                'crash_at': draw(st.one_of(st.floats(0, 1), st.floats(0.8, 1), st.floats(0.95, 1)))}
        return case
    case = draw(checkpoints(second=False))
    case.pop('over', None)
    case['tokens'] = draw(RETAIN_TOKENS)
    case['existing'] = draw(EXISTING)
    case['ckpt']['keep'] = draw(st.sampled_from([-1, -1, 0, 1, 2, 3]))
    kind = draw(st.sampled_from([None, None, None, 'tar', 'tar-os', 'plugin', 'nodir', 'dill0', 'dill1', 'dill2', 'opt']))
    if kind == 'opt':
        s = draw(st.sampled_from(case['scripts']))
        s['ckpt'] = draw(st.sampled_from(['fail', 'raise']))
    elif kind:
        case['cfault'] = kind
        case['cwhen'] = draw(st.sampled_from([[0], [1], [0, 1], [2], [1, 2]]))
    if kind:
        case['ckpt']['raise'] = draw(st.sampled_from([False, False, True]))
    else:
        case['task_kind'] = draw(st.sampled_from([None, None, 'type', 'pickle', 'type-save', 'pickle-save', 'type-fail', 'pickle-fail']))
        if (case['task_kind'] or '').endswith('fail'):
            case['task_kind'] += '-' + draw(st.sampled_from(['value', 'os', 'attr', 'own', 'rt', 'type', 'pickle', 'ni']))
        case['ckpt']['force_task'] = draw(st.sampled_from([False, False, True])) if case['task_kind'] and case['task_kind'].endswith('save') else False
    return case


spec('P10', chk_fail, 800, 30000, 'a checkpoint failed, or was made (or interrupted) in a directory which held files already',
     assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)


# --------------------------------------------------------------------------------------------------------- conditions
TREE = st.recursive(st.just(['leaf']), lambda c: st.tuples(st.sampled_from(['and', 'or']), c, c).map(list), max_leaves=8)


@st.composite
def condition(draw):
    t = draw(st.one_of(TREE, st.tuples(st.sampled_from(['and', 'or']), TREE, TREE).map(list)))
    ans = st.sampled_from([True, True, False, False, False, True, True, False, True, False, 'raise'])
    return {'kind': draw(st.sampled_from(['checker', 'hunter'])), 'tree': t, 'reset': draw(st.booleans()),
            'rounds': draw(st.lists(st.lists(ans, min_size=1, max_size=8), min_size=1, max_size=6))}


spec('P14', condition, 5000, 200000, 'several evaluations of an expression, in at least one of which parts are skipped', timeout=20)


@st.composite
def checker_case(draw):
    if draw(st.integers(0, 24)) == 0:
        sec = st.integers(0, 6).map(lambda k: 50.0 * k)
        return {'periods': draw(st.lists(st.tuples(sec, sec).map(list), min_size=1, max_size=4)),
                'elapsed': draw(st.lists(sec, min_size=1, max_size=4)), 't': draw(st.integers(0, 8)) * 50.0 + 25.0}
    name = draw(st.sampled_from(['fmax', 'omax', 'nconv', 'nkills', 'target', 'target0', 'after', 'after', 'session', 'overall']))
    n = draw(st.integers(0, 6))
    tgt = draw(st.sampled_from([0.0, -2.0, 1.5, 3.0, 1e6]))
    atol = draw(st.sampled_from([0.0, 1e-6, 0.5, 2.0]))
    near = [tgt, tgt + atol, tgt - atol, tgt + atol * 1.001 + 1e-9, tgt + 1e-7, tgt + 2e-6, tgt + 10, tgt - 10]
    hist = []
    f = o = conv = kills = 0
    grow = st.sampled_from([0, 0, 1, 1, 2])
    for _ in range(draw(st.integers(1, 10))):
        f, o, conv, kills = f + draw(grow), o + draw(grow), conv + draw(grow), kills + draw(grow)
        hist.append({'f': f, 'o': o, 'conv': conv, 'kills': kills, 'fx': draw(st.sampled_from(near + ['none', INF, -INF])),
                     't': draw(st.sampled_from([None, 10.0, 50.0, 95.0, 105.0, 190.0, 210.0, 500.0])),
                     'used': draw(st.sampled_from([0.0, 40.0, 100.0, 300.0]))})
    return {'checker': name, 'args': {'n': n, 'm': draw(st.integers(0, 5)), 'target': tgt, 'atol': atol,
                                      't': draw(st.sampled_from([100.0, 200.0]))}, 'history': hist}


spec('P15', checker_case, 8000, 300000, 'the condition is false in some of the states and true in others', timeout=20)


@st.composite
def hunter_case(draw):
    name = draw(st.sampled_from(['best', 'best', 'evals', 'evals', 'invalid', 'min', 'distance', 'distance', 'step', 'step',
                                 'time', 'value', 'value', 'type']))
    n = draw(st.integers(2, 4))
    d = draw(st.integers(1, 3))
    bounds = [draw(st.sampled_from([[0.0, 1.0], [-5.0, 5.0], [2.0, 10.0], [-3.0, -1.0]])) for _ in range(d)]
    val = draw(st.sampled_from([st.one_of(st.integers(-4, 8).map(float), st.sampled_from([NAN, INF, -INF, 0.0])),
                                st.integers(-4, 8).map(float), st.floats(-20, 20), st.floats(90, 100),
                                st.sampled_from([2.0, 2.0, 2.0, 2.1, 1.9]), st.sampled_from([NAN, INF, 1.0])]))
    pos = draw(st.sampled_from([st.integers(0, 8), st.integers(3, 5), st.sampled_from([4, 4, 4, 5])]))
    ev = st.tuples(st.integers(0, 3), val, st.lists(pos, min_size=d, max_size=d)).map(list)
    calls = draw(st.integers(2 if name in ('step',) else 1, 6))
    return {'hunter': name, 'n_opts': n, 'bounds': bounds, 'evals': draw(st.lists(ev, min_size=2, max_size=24)),
            'types': [draw(st.sampled_from(['Quick', 'Slow', 'Quicker'])) for _ in range(n)], 'seed': draw(st.integers(0, 10 ** 6)),
            'file': draw(st.integers(0, 1 if name == 'distance' else 19)) == 0, 'cleared': draw(st.lists(st.integers(1, 4), max_size=2)),
            'args': {'calls': calls, 'tol': draw(st.sampled_from([0.0, 0.01, 0.1, 0.25, 0.5, 1.0])) if name not in ('distance',)
                     else draw(st.sampled_from([0.01, 0.1, 0.25, 0.5, 1.0])), 'all': draw(st.booleans()),
                     'ratio': draw(st.sampled_from([0.5, 1.0, 2.0, 4])), 'med': draw(st.sampled_from([0.5, 0.2, 0.8, 0.05])),
                     'type': draw(st.sampled_from(['Quick', 'Slow', 'Quicker']))}}


spec('P16', hunter_case, 4000, 150000, 'the condition was asked about a victim with several evaluations (random ones: with '
     'a probability between 0.05 and 0.95)', timeout=20)


# ------------------------------------------------------------------------------------------------------ optimizer log
@st.composite
def log_case(draw, fx=FX):
    opi = st.integers(0, 5)
    it = st.one_of(st.tuples(st.just('it'), opi, fx, st.integers(-3, 3)).map(list),
                   st.tuples(st.just('it'), opi, fx, st.integers(-3, 3), st.integers(2, 7)).map(list))
    op = st.one_of(it, it, it, it, st.tuples(st.just('add'), st.integers(0, 8)).map(list),
                   st.tuples(st.just('meta'), opi, st.integers(0, 2), st.integers(0, 9)).map(list),
                   st.tuples(st.just('msg'), opi, st.sampled_from(['stop', 'a b', '\u00e9\u03b1', '', 'line\nline'])).map(list),
                   st.tuples(st.just('clear'), opi).map(list), st.just(['look']),
                   st.tuples(st.sampled_from(['flush', 'ckpt']), opi).map(list))
    if draw(st.integers(0, 4)) == 0:
        op = st.one_of(op, op, op, op, st.just(['clearall']))
    names = draw(st.permutations(['zeta', 'fx2', 'beta', 'Alpha', 'm']))[:draw(st.sampled_from([0, 0, 1, 2, 3]))]
    heads = [[n, draw(st.sampled_from(['float', 'int', 'bool', 'str', 'vec']))] for n in names]
    if heads and draw(st.booleans()):
        heads.insert(0, ['fx', 'float'])
    plot = draw(st.sampled_from([None] * 10 + ['lin', 'log']))
    if plot:
        it2 = st.tuples(st.just('it'), opi, PLAIN_FX, st.integers(-3, 3), st.integers(1, 5)).map(list)
        op = st.one_of(it2, it2, it2, *[st.tuples(st.just('meta'), opi, st.just(0), st.integers(0, 9)).map(list)],
                       st.tuples(st.just('add'), st.integers(0, 8)).map(list), st.tuples(st.just('clear'), opi).map(list))
    return {'ops': [['add', 0]] + draw(st.lists(op, min_size=4, max_size=30)), 'n_parms': draw(st.integers(1, 3)),
            'heads': heads, 'pos': draw(st.booleans()), 'keep': draw(st.booleans()), 'array': draw(st.booleans()),
            'big': draw(st.integers(0, 3)) == 0, 'plot': plot, 'plot_best': draw(st.booleans())}


spec('P13', log_case, 4000, 150000, 'at least 3 evaluations of at least 2 optimizers, with one cleared from memory or '
     'a checkpoint in between', timeout=20)


@st.composite
def log_file(draw):
    k = draw(st.integers(0, 5))
    if k < 2:
        return draw(log_case())
    if k == 2:
        return draw(e2e(keep=True, faults=True, odd=True))
    case = draw(checkpoints())
    case['mode'] = draw(st.sampled_from(['closed', 'closed', 'killed', 'killed', 'missing', 'foreign', 'switch']))
    if case['mode'] == 'switch':
        case.update({'to': draw(st.sampled_from([0, 1, 2, 3, 3, 3])), 'from': draw(st.integers(0, 2)), 'keep': draw(st.booleans())})
    return case


spec('P12', log_file, 480, 40000, 'a log with at least 3 evaluations of at least 2 optimizers and a clearing or checkpoint '
     'in between, a session with as many, or a second session which evaluated the task (or was refused)',
     assumptions=E2E_ASSUME, timeout=40)


# --------------------------------------------------------------------------------------------------------- generators
GEN_BOUNDS = st.lists(st.sampled_from([[0.0, 1.0], [-5.0, 5.0], [2.0, 10.0], [-3.0, -1.0], [0.0, 1e-3], [-1e6, 1e6], [-7, 3]]),
                      min_size=1, max_size=4)


@st.composite
def generator_case(draw):
    kind = draw(st.sampled_from(['random', 'incumbent', 'single', 'blend', 'blend', 'basin', 'basin', 'basin', 'reject']))
    bounds = draw(GEN_BOUNDS)
    d = len(bounds)
    val = draw(st.sampled_from([st.integers(-4, 8).map(float), st.one_of(st.integers(-4, 8).map(float), st.sampled_from([NAN, INF])),
                                st.sampled_from([NAN, INF, 1.0, 2.0]), st.floats(-3, 3)]))
    ev = st.tuples(st.integers(0, 3), val, st.lists(st.integers(0, 8), min_size=d, max_size=d)).map(list)
    case = {'gen': kind, 'bounds': bounds, 'seed': draw(st.integers(0, 10 ** 6)), 'draws': 120,
            'mutate': draw(st.booleans())}
    if kind == 'single':
        case.update(x=draw(st.one_of(st.none(), st.lists(st.integers(0, 8), min_size=d, max_size=d))),
                    kind=draw(st.sampled_from(['list', 'array', 'tuple'])))
    if kind == 'reject':
        case.update(where=draw(st.integers(0, 3)), bad=draw(st.sampled_from([[1.0, 1.0], [2.0, 1.0], [0.0, INF], [-INF, 0.0],
                                                                             [NAN, 1.0], [0.0, NAN], [0, 0]])))
    if kind in ('incumbent', 'blend', 'basin'):
        opts, f, o, steps = 0, 0, 0, []
        fmax = draw(st.sampled_from([2, 10, 100, 1000]))
        for k in range(draw(st.integers(1, 4 if kind != 'basin' else 8))):
            opts = min(4, opts + draw(st.integers(0, 2)))
            f += draw(st.sampled_from([0, 0, fmax // 10, fmax // 2, fmax]))
            o += draw(st.integers(1, 3))
            steps.append({'evals': draw(st.lists(ev, min_size=0, max_size=6 if kind != 'basin' else 4)) if k or draw(st.booleans()) else [],
                          'opts': opts, 'kind': draw(st.sampled_from(['list', 'array', 'tuple', 'empty'])).replace('empty', 'empty'),
                          'f': f, 'draws': 80 if kind == 'blend' else draw(st.sampled_from([1, 1, 1, 60])), 'start': o})
        case.update(steps=steps, fmax=fmax, focus=draw(st.sampled_from([1, 1, 0.5, 2, 3.5])))
        if kind == 'basin':
            # Distinct places and a small step make it certain where a vector comes from
            scale = min(hi - lo for lo, hi in bounds)
            case.update(T=draw(st.sampled_from([0, 0.1, 1, 1, 3, 3, 100, INF])), step=scale * draw(st.sampled_from([0.01, 0.03, 0.06, 0.5])),
                        interval=draw(st.integers(1, 6)), factor=draw(st.sampled_from([0.9, 0.5, 0.99])),
                        target=draw(st.sampled_from([0.5, 0.1, 0.9, 0.0, 1.0])))
        for s in steps:
            if kind == 'incumbent' and s['kind'] == 'empty' and s['evals']:
                s['kind'] = 'list'
    return case


spec('P17', generator_case, 1600, 60000, 'random vectors in several dimensions, an incumbent which appears after random vectors, a '
     'constant point whose copies are changed, a blend with an optimizer, or a basin-hopping decision or adjustment', timeout=40)


# ---------------------------------------------------------------------------------------------------------- selectors
@st.composite
def selector_case(draw):
    kind = draw(st.sampled_from(['cycle', 'cycle', 'chain', 'chain', 'random', 'random', 'reject']))
    if kind == 'reject' and draw(st.integers(0, 3)) == 0:
        return {'kind': 'reject', 'where': draw(st.integers(0, 2)),
                'bad': draw(st.sampled_from(['instance', 'class', 'pair', 'four', 'init', 'call', 'other', 'none', 'int', 'list']))}
    if kind == 'reject':
        kind = 'chain'
    opt = st.fixed_dictionaries({'cls': st.sampled_from(['A', 'A', 'B', 'C']), 'form': st.sampled_from(['class', 'tuple', 'tuple']),
                                 'init': st.one_of(st.none(), st.just({}), st.integers(1, 4).map(lambda w: {'workers': w}),
                                                   st.integers(1, 4).map(lambda w: {'workers': w, 'a': 2}), st.just({'b': 'x'})),
                                 'call': st.one_of(st.none(), st.just({}), st.just({'c': [1]}))})
    opts = draw(st.lists(opt, min_size=1, max_size=4))
    f = o = 0
    steps = []
    for _ in range(draw(st.integers(1, 12))):
        f += draw(st.sampled_from([0, 0, 1, 1, 2, 5, 20]))
        o += draw(st.sampled_from([0, 1, 1, 2]))
        steps.append({'f': f, 'o': o, 'ok': draw(st.sampled_from([True, True, True, False])), 'slots': draw(st.integers(0, 5)),
                      'draws': draw(st.sampled_from([1, 1, 1, 150]))})
    th = sorted(draw(st.lists(st.one_of(st.integers(0, 20), st.integers(0, 20), st.sampled_from([1.5, 7.0, INF])), min_size=4, max_size=4)))
    return {'kind': kind, 'opts': opts, 'steps': steps, 'thresholds': th, 'last': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6)),
            'spawn': draw(st.sampled_from([['none', 0], ['none', 0], ['none', 0], ['custom', 0], ['iter', 3], ['iter', 10], ['iter', 0], ['nopt', 2],
                                           ['nopt', 4], ['nopt', 0]]))}


spec('P18', selector_case, 6000, 200000, 'a history in which selections succeed and are refused or the selection advances, or an '
     'invalid option', timeout=20)


# ------------------------------------------------------------------------------------------------ benchmark functions
PLAIN_FNS = ['Ackley', 'Alpine01', 'Alpine02', 'Easom', 'Griewank', 'Langermann', 'Levy', 'Michalewicz', 'Qing', 'Rana', 'Rastrigin',
             'Rosenbrock', 'Schwefel', 'Shekel', 'Shubert', 'StyblinskiTang', 'Trigonometric', 'Vincent', 'ZeroSum']


@st.composite
def benchmark(draw):
    fn = draw(st.sampled_from(PLAIN_FNS + ['Deceptive', 'Stochastic', 'ExpLeastSquaresCost', 'LennardJones', 'LennardJones']))
    d = draw(st.integers(1, 5))
    par = {}
    if fn in ('Easom', 'Langermann'):
        d = 2
    if fn in ('Easom', 'Langermann', 'Schwefel', 'Shekel', 'Shubert', 'Deceptive') and draw(st.booleans()):
        par['shift'] = draw(st.sampled_from([True, True, False]))
    if fn == 'Ackley':
        par.update(a=draw(st.sampled_from([20, 5.5])), b=draw(st.sampled_from([0.2, 1.0])), c=draw(st.sampled_from([6.283185307179586, 1.5])))
    if fn == 'Michalewicz':
        par['m'] = draw(st.sampled_from([10, 10, 1, 3.5]))
        d = draw(st.sampled_from([1, 2, 2, 3, 5, 5, 10]))
        if par['m'] == 3.5:
            par['m'] = 4
    if fn == 'Shekel':
        par['m'] = draw(st.sampled_from([5, 7, 10]))
        d = min(d, 4)
    if fn == 'Shubert':
        par['style'] = draw(st.sampled_from([1, 3, 4]))
        d = draw(st.sampled_from([1, 2, 2, 3]))
    if fn == 'Deceptive':
        par['b'] = draw(st.sampled_from([2, 1, 0.5, 3.5]))
    if fn == 'ExpLeastSquaresCost':
        par.update(n_train=draw(st.sampled_from([1, 4, 10])), sigma_eval=draw(st.sampled_from([0, 0, 0.1])),
                   sigma_fixed=draw(st.sampled_from([0, 0, 0.1])), p_range=draw(st.sampled_from([[-2, 2], [0.5, 1.5]])),
                   u=draw(st.sampled_from([['int', 0], ['pair', 0], ['list', 3], ['list', 10], ['list', 14]])))
    case = {'fn': fn, 'dims': d, 'par': par, 'seed': draw(st.integers(0, 10 ** 6)), 'slow': draw(st.integers(0, 7)) == 0,
            'forms': draw(st.lists(st.sampled_from(['list', 'array', 'tuple', 'array']), min_size=1, max_size=4)),
            'points': draw(st.lists(st.sampled_from(['rand', 'rand', 'rand', 'edge', 'int', 'dyadic', 'near', 'best']), min_size=6, max_size=24))}
    if fn == 'Vincent':
        case['points'] = [p if p != 'int' else 'rand' for p in case['points']]
    if fn == 'Shekel' and draw(st.integers(0, 4)) == 0:
        case['bad'] = True
    if fn == 'LennardJones':
        par.update(eps=draw(st.sampled_from([1, 1, 2.5])), sigma=draw(st.sampled_from([1, 1.3, 0.5, 2])))
        case.update(atoms=draw(st.integers(1, 6)), dims=draw(st.integers(1, 3)))
        if par['sigma'] == 0.5 and case['atoms'] < 3:
            case['points'] = [p if p != 'int' else 'rand' for p in case['points']]
    return case


spec('P24', benchmark, 4000, 150000, 'at least three points with different values (several atoms, several noise values)', timeout=20)


# -------------------------------------------------------------------------------------------------------------- queue
@st.composite
def queue_case(draw):
    size, chunk = draw(st.sampled_from([0, 1, 2, 3, 5])), draw(st.sampled_from([1, 1, 2, 3, 5]))
    if draw(st.integers(0, 4)) == 0:
        return {'kind': 'threads', 'size': size, 'chunk': chunk, 'seed': draw(st.integers(0, 10 ** 6)), 'producers': draw(st.integers(1, 5)),
                'items': draw(st.integers(1, 40)), 'pause': draw(st.sampled_from([0, 0.1, 1])),
                'how': draw(st.sampled_from([['now'], ['now'], ['now', 'put'], ['put'], ['now'] * 5 + ['cache'], ['now', 'put', 'cache']]))}
    op = st.one_of(st.tuples(st.just('now'), st.integers(1, 6)).map(list), st.tuples(st.just('now'), st.integers(1, 6)).map(list),
                   st.tuples(st.just('put'), st.sampled_from(['nb', 'to'])).map(list), st.just(['incache']),
                   st.tuples(st.just('flush'), st.sampled_from(['nb', 'nb', 'to'])).map(list), st.tuples(st.just('get'), st.integers(1, 4)).map(list),
                   st.tuples(st.just('get'), st.integers(1, 4)).map(list))
    return {'kind': 'model', 'size': size, 'chunk': chunk, 'ops': draw(st.lists(op, min_size=1, max_size=14))}


spec('P20', queue_case, 4000, 150000, 'the cache was used and more than two items passed, or several threads made the queue cache',
     timeout=40, hang_is_violation=True)


# ----------------------------------------------------------------------------------------------------- optimizers
SMALLF = st.integers(-20, 20).map(lambda i: i / 4)
TELL = st.one_of(st.tuples(st.just('stop'), st.sampled_from([None, None, 'because', 'GloMPO Crash', 'Manager termination signal'])),
                 st.tuples(st.just('inject'), st.lists(SMALLF, min_size=1, max_size=3), SMALLF),
                 st.tuples(st.just('pass'), st.booleans()), st.tuples(st.just('save'), st.sampled_from(['a', 'b/c'])),
                 st.tuples(st.just('odd'), st.sampled_from(['int', 'neg', 'str', 'none', 'float', 'list', 'tuple', 'key']))).map(list)


@st.composite
def optimizer_case(draw):
    kind = draw(st.sampled_from(['messages', 'state', 'random', 'random', 'random', 'cma', 'cma', 'cma', 'standalone']))
    c = {'kind': kind, 'seed': draw(st.integers(0, 10 ** 6))}
    if kind == 'messages':
        c.update(id=draw(st.integers(1, 2000)), workers=draw(st.integers(1, 5)),
                 batches=draw(st.lists(st.lists(TELL, max_size=6), min_size=1, max_size=4)),
                 out=draw(st.lists(st.tuples(st.sampled_from([0, 1, 9]), st.sampled_from([None, '', 'text', 'Traceback'])).map(list), max_size=4)))
        return c
    if kind == 'state':
        name = st.sampled_from(['alpha', 'beta', 'gamma', '_hidden', '_priv', 'n_iter', 'steps', 'xbest', 'zeta_1', 'incum'])
        val = st.one_of(st.integers(-5, 5), SMALLF, st.none(), st.booleans(), st.text('ab', max_size=3), st.lists(SMALLF, max_size=3),
                        st.dictionaries(st.sampled_from(['p', 'q']), st.integers(0, 3)))
        c.update(attrs=draw(st.lists(st.tuples(name, val).map(list), max_size=6)), arrays=draw(st.booleans()), detailed=draw(st.booleans()),
                 force=draw(st.lists(st.sampled_from(['_hidden', '_priv', 'n_iter', 'alpha']), max_size=2)))
        return c
    if kind == 'standalone':
        c.update(workers=draw(st.sampled_from([1, 1, 4, 5])), maxiter=draw(st.integers(1, 4)), keep=draw(st.booleans()),
                 every=draw(st.sampled_from([None, 1, 3])),
                 rounds=draw(st.lists(st.tuples(st.integers(2, 5), st.sampled_from([0, 0, 0, 1, 2])).map(list), min_size=1, max_size=3)))
        return c
    d = draw(st.integers(2 if kind == 'cma' else 1, 4))
    lo = draw(st.lists(st.integers(-40, 40).map(lambda i: i / 4), min_size=d, max_size=d))
    w = draw(st.lists(st.sampled_from([0.5, 1.0, 2.0, 8.0]), min_size=d, max_size=d))
    c['bounds'] = [[a, a + b] for a, b in zip(lo, w)]
    c['x0'] = draw(st.lists(st.integers(0, 16), min_size=d, max_size=d))
    c['values'] = draw(st.sampled_from(['sphere', 'sphere', 'ties', 'const'] + (['holes', 'nan'] if kind == 'random' else [])))
    c['low'] = draw(st.booleans())
    c['detailed'] = draw(st.booleans())
    c['extras'] = draw(st.integers(0, 3))
    c['pick'] = draw(st.integers(0, 3))
    c['workers'] = 1
    c['maxiter'] = draw(st.integers(1, 6))
    total = draw(st.integers(1, 25)) if kind == 'random' else 5 * c['maxiter']
    unit = st.lists(st.integers(1, 15), min_size=d, max_size=d)
    stop = st.tuples(st.just('stop'), st.sampled_from([None, None, 'because', 'GloMPO Crash', 'Manager termination signal'])).map(list)
    inj = st.tuples(st.just('inject'), unit, st.sampled_from([-5.0, -5.0, 0.0, 100.0])).map(list)
    plain = st.one_of(inj, inj, st.just(['pass']), st.just(['odd']), st.integers(3, 8).map(lambda i: ['pause', i]))
    point = st.integers(1, max(1, total))
    acts = draw(st.lists(st.tuples(point, plain).map(lambda t: [t[0], *t[1]]), max_size=3))
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        extra = draw(st.lists(st.one_of(inj, stop), max_size=1)) if draw(st.integers(0, 3)) == 0 else []
        acts.append([draw(point), 'checkpoint', draw(st.sampled_from([True, True, True, False])), extra])
    if draw(st.integers(0, 2)) == 2:
        acts.append([draw(point), *draw(stop)])
    if any(q[1] == 'checkpoint' for q in acts):    # The manager lets pass only optimizers which wait for it
        acts = [q for q in acts if q[1] != 'pass']
    c['acts'] = acts
    if draw(st.integers(0, 7)) == 5:
        c['raise_at'], c['raise'] = draw(point), draw(st.sampled_from(['value', 'interrupt', 'pipe']))
    if kind == 'random':
        c['iters'] = total
    else:
        c['workers'] = draw(st.sampled_from([1, 1, 1, 1, 4]))
        c['settings'] = draw(st.sampled_from([{}, {}, {'popsize': 4}, {'popsize': 7}]))
        c.update(sigma=draw(st.sampled_from([0.1, 0.3, 0.5])) * min(w), keep=draw(st.booleans()), verbose=draw(st.booleans()),
                 force=draw(st.sampled_from([True, True, False, None])), every=draw(st.sampled_from([None, 1, 1, 2])),
                 callback=draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3])))
        if draw(st.integers(0, 4)) == 4:
            c.update(values='sphere', force=True, every=draw(st.integers(1, 2)), maxiter=draw(st.integers(4, 6)), callback=0, workers=1)
            c['acts'] = [[draw(st.integers(1, 12)), 'inject', draw(st.lists(st.integers(4, 12), min_size=d, max_size=d)), -5.0]] + acts[:1]
    return c


spec('P21', optimizer_case, 2400, 60000, 'messages of different kinds arrived, a checkpoint was made, or several optimizations were made',
     timeout=60, hang_is_violation=True)


# --------------------------------------------------------------------------------------------------------------- setup
def setup_args(bad):
    """ Arguments of GloMPOManager.setup. About half of them are wrong somewhere if bad. """
    PLUG = st.sampled_from(['none', 'ok', 'ok', 'ok'])
    num = st.one_of(st.integers(-50, 50), st.floats(-1e3, 1e3))

    @st.composite
    def f(draw):
        pairs = []
        for _ in range(draw(st.integers(1, 5))):
            lo = draw(num)
            pairs.append([lo, lo + draw(st.one_of(st.integers(1, 20), st.sampled_from([1e-6, 0.5])))])
        a = {'task': draw(st.sampled_from(['lambda', 'object', 'method', 'class', 'builtin'])), 'sel': 'ok', 'bounds': pairs,
             'bkind': draw(st.sampled_from(['list', 'tuples', 'array', 'bound']))}
        every = {'max_jobs': st.one_of(st.none(), st.integers(1, 64)), 'convergence_checker': PLUG, 'x0_generator': PLUG,
                 'killing_conditions': PLUG, 'overwrite_existing': st.booleans(), 'hunt_frequency': st.integers(1, 1000),
                 'summary_files': st.integers(0, 4), 'is_log_detailed': st.booleans(), 'split_printstreams': st.booleans(),
                 'share_best_solutions': st.booleans(), 'aggressive_kill': st.booleans(),
                 'status_frequency': st.one_of(st.integers(0, 1000), st.floats(0, 1000)),
                 'force': st.one_of(st.integers(-2, 100), st.floats(0.01, 50)),
                 'backend': st.sampled_from(['processes', 'threads', 'threads', 'processes_forced', 'thread', 'PROCESSES', '']),
                 'end_timeout': st.one_of(st.none(), st.integers(1, 100), st.floats(0.5, 100)),
                 'control': st.sampled_from(['ok', 'none', 'dict', 'true', 'class']),
                 'wd': st.sampled_from([['rel', 'out'], ['rel', 'a/b'], ['relpath', 'out'], ['abs', 'x/y'], ['up', 'z'],
                                        ['odd', 'number'], ['odd', 'list'], ['rel', '.']])}
        keys = draw(st.sets(st.sampled_from(sorted(every)), max_size=9))
        a['opt'] = {k: draw(every[k]) for k in sorted(keys)}
        if bad:
            for _ in range(draw(st.integers(1, 2))):
                what = draw(st.sampled_from(['task', 'sel', 'bounds', 'bounds', 'max_jobs', 'max_jobs', 'convergence_checker',
                                             'x0_generator', 'killing_conditions']))
                if what == 'task':
                    a['task'] = draw(st.sampled_from(['none', 'number', 'text']))
                elif what == 'sel':
                    a['sel'] = draw(st.sampled_from(['none', 'class', 'opt', 'list']))
                elif what == 'bounds':
                    p = pairs[draw(st.integers(0, len(pairs) - 1))]
                    v = p[0]
                    p[:] = draw(st.sampled_from([[v, v], [v + 1, v], [v, INF], [-INF, v], [NAN, v], [v, NAN], [-INF, INF], [INF, -INF]]))
                elif what == 'max_jobs':
                    a['opt'][what] = draw(st.one_of(st.integers(-5, -1), st.sampled_from(['4', 2.5, 3.0, [2]])))
                else:
                    a['opt'][what] = draw(st.sampled_from(['class', 'text', 'call', 'swap']))
        return a
    return f()


@st.composite
def setup_case(draw):
    n_bad = draw(st.sampled_from([0, 0, 1, 1, 2]))
    c = {'attempts': [draw(setup_args(True)) for _ in range(n_bad)], 'again': [], 'new': draw(st.booleans()),
         'start_early': draw(st.booleans()), 'load': draw(st.booleans())}
    if n_bad == 0 or draw(st.booleans()):
        c['attempts'].append(draw(setup_args(False)))
    for _ in range(draw(st.sampled_from([0, 0, 1]))):
        c['again'].append(draw(setup_args(draw(st.booleans()))))
    return c


spec('P25', setup_case, 4000, 300000, 'at least 3 optional arguments, a refused attempt or a second setup', timeout=20)


# ------------------------------------------------------------------------------------------------------------- helpers
@st.composite
def helper_case(draw):
    kind = draw(st.sampled_from(['bounds', 'dist', 'rolling', 'unrav', 'headers', 'headers', 'memory', 'workdir', 'split', 'split',
                                 'optional', 'decorated', 'colors']))
    c = {'kind': kind}
    num = st.one_of(st.integers(-5, 5), st.floats(-1e6, 1e6), st.sampled_from([1e-12, -1e-12, 1e200]))
    odd = st.one_of(num, num, num, st.sampled_from([INF, -INF, NAN]))
    if kind == 'bounds':
        good = st.tuples(num, st.floats(1e-3, 1e3)).map(lambda t: [t[0], t[0] + t[1]])
        anyb = st.tuples(odd, odd).map(list)
        c['bounds'] = draw(st.lists(st.one_of(good, good, good, anyb), min_size=1, max_size=6))
        c['as'] = draw(st.sampled_from(['list', 'tuples', 'array']))
    elif kind == 'dist':
        n = draw(st.integers(1, 6))
        v = st.lists(st.floats(-1e100, 1e100), min_size=n, max_size=n)
        c.update(a=draw(v), b=draw(v), **{'as': draw(st.sampled_from(['list', 'tuple', 'array']))})
    elif kind == 'rolling':
        c['x'] = draw(st.lists(st.one_of(odd if draw(st.integers(0, 3)) == 0 else num, num), min_size=0, max_size=30))
        if draw(st.integers(0, 9)) == 0:
            c['x'].append(draw(st.sampled_from(['a', None])))
        c['as'] = draw(st.sampled_from(['list', 'tuple']))
    elif kind == 'unrav':
        leaf = st.one_of(st.integers(-9, 9), st.text(max_size=3), st.floats(-1, 1), st.none(), st.booleans())
        c['tree'] = draw(st.recursive(leaf, lambda k: st.tuples(st.sampled_from(['tuple', 'list', 'gen']), st.lists(k, max_size=4)).map(
            lambda t: [t[0], *t[1]]), max_leaves=12))
    elif kind == 'headers':
        fl = st.one_of(st.floats(-1e9, 1e9), st.sampled_from([INF, -INF, NAN, 1e308]))
        i64 = st.integers(-2 ** 62, 2 ** 62)
        txt = st.text(alphabet='abcxyzäß_ 0123', max_size=40)

        def arr(draw):
            el = draw(st.sampled_from(['i', 'f', 'b']))
            shape = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))

            def fill(s):
                if not s:
                    return draw({'i': st.integers(-99, 99), 'f': st.floats(-9, 9), 'b': st.booleans()}[el])
                return [fill(s[1:]) for _ in range(s[0])]
            return lambda: fill(shape)
        makers = []
        for _ in range(draw(st.integers(1, 6))):
            t = draw(st.sampled_from(['float', 'int', 'bool', 'str', 'none', 'np', 'array', 'tuple', 'list', 'complex']))
            if t == 'float':
                makers.append(lambda: ['v', draw(fl)])
            elif t == 'int':
                makers.append(lambda: ['v', draw(i64)])
            elif t == 'bool':
                makers.append(lambda: ['v', draw(st.booleans())])
            elif t == 'str':
                makers.append(lambda: ['v', draw(txt)])
            elif t == 'none':
                makers.append(lambda: ['v', None])
            elif t == 'complex':
                makers.append(lambda: ['complex', [draw(st.floats(-9, 9)), draw(st.floats(-9, 9))]])
            elif t == 'np':
                dt = draw(st.sampled_from(['float64', 'float32', 'int64', 'int32', 'bool_', 'int8']))
                vals = {'f': st.integers(-1000, 1000).map(float), 'i': st.integers(-100, 100), 'b': st.booleans()}[dt[0]]
                makers.append(lambda dt=dt, vals=vals: ['np', [dt.rstrip('_'), draw(vals)]])
            else:
                mk = arr(draw)
                makers.append(lambda t=t, mk=mk: [t if t != 'list' else 'v', mk()])
        c['rows'] = [[m() for m in makers] for _ in range(draw(st.integers(1, 4)))]
    elif kind == 'memory':
        c['n'] = draw(st.one_of(st.integers(0, 5000), st.integers(0, 2 ** 60), st.integers(0, 8).map(lambda k: 1024 ** k),
                                st.integers(1, 7).map(lambda k: 1024 ** k + 1), st.integers(1, 7).map(lambda k: 1024 ** k - 1)))
        c['digits'] = draw(st.one_of(st.none(), st.integers(0, 5)))
    elif kind == 'workdir':
        names = st.sampled_from(['a', 'b', 'a/b', '..', '../c', '.', 'd/e/f'])
        leaf = st.one_of(st.sampled_from([['touch', 'f'], ['touch', 'g']]), st.sampled_from([['touch', 'h'], ['touch', 'f'], ['raise']]))
        inner = st.lists(leaf, max_size=3)
        for _ in range(3):
            op = st.one_of(leaf, st.tuples(st.just('in'), names.filter(lambda n: '..' not in n), st.sampled_from(['str', 'path', 'abs']),
                                           inner, st.booleans()).map(list))
            inner = st.lists(op, max_size=3)
        c['ops'] = draw(inner)
    elif kind == 'split':
        c['fmt'] = draw(st.sampled_from([None, '%(message)s', '%(levelname)s : %(name)s :: %(message)s']))
        c['propagate'] = draw(st.booleans())
        c['text_path'] = draw(st.booleans())
        c['level'] = draw(st.sampled_from([10, 10, 20]))
        c['handler_level'] = draw(st.sampled_from([0, 0, 10, 20, 30]))
        c['records'] = draw(st.lists(st.tuples(st.integers(1, 4), st.sampled_from([10, 20, 30, 40]), st.integers(0, 99),
                                               st.one_of(st.just(''), st.just(''), st.sampled_from(['oops', 'bad']))).map(list),
                                     max_size=12))
    elif kind == 'optional':
        c.update(package=draw(st.sampled_from(['os', 'json', 'xml.dom', 'no_such_package', 'os.nothing', 'no.such'])),
                 raises=draw(st.sampled_from(['', '', 'import', 'key'])), value=draw(st.integers(0, 9)))
    elif kind == 'decorated':
        c['names'] = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'run', '__call__']), unique=True, max_size=4))
    else:
        c['ids'] = draw(st.lists(st.integers(0, 250), min_size=1, max_size=3))
    return c


spec('P29', helper_case, 4000, 200000, 'by helper: several bounds with an invalid one, different points, several values, nested directories '
     'with files, records of several optimizers, several columns, and the like', timeout=20)


# ------------------------------------------------------------------------------------------------------- summary files
PRE = ['glompo_manager_log.yml', 'trajectories.png', 'trajectories_best.png', 'trajectories_log.png', 'opt1_parms.png', 'opt12_parms.png',
       'glompo_log.h5', 'notes.txt', 'my_trajectories.png', 'glompo_log.h5.bak', 'sub/trajectories.png', 'data.yml', 'sub/glompo_manager_log.yml',
       'glompo_optimizer_printstreams/printstream_0099.out', 'opt_parms.txt', 'trajectories', 'glompo_manager_log.yaml']


@st.composite
def outputs(draw):
    case = draw(e2e(faults=draw(st.integers(0, 3)) == 0, keep=False, long=draw(st.integers(0, 3)) == 0))
    case['summary'] = draw(st.sampled_from([0, 1, 1, 1, 1, 1, 1, 2, 3, 4]))
    if case.get('resume'):
        case['keep_log'] = True
        return case
    case['pre'] = draw(st.one_of(st.none(), st.lists(st.sampled_from(PRE), unique=True, max_size=6)))
    case['overwrite'] = draw(st.booleans())
    case['control'] = draw(st.sampled_from([None, None, 'plain', 'conv', 'often', 'often']))
    if case['control']:
        case['ckpt'] = {'conv': case['control'] == 'conv'}
    kinds = st.lists(st.sampled_from(['array', 'scalar', 'npint', 'npbool', 'none', 'text', 'nan', 'nested', 'empty', 'big', 'tuple']),
                     unique=True, max_size=3)
    case['odd'] = draw(kinds)
    case['gen'] = draw(kinds)
    if draw(st.integers(0, 3)) == 0:
        case['spawn'] = draw(st.integers(1, 50))
    if draw(st.integers(0, 2)) == 0:
        case['dump_at'] = draw(st.integers(1, 8))
    return case


spec('P22', outputs, 900, 40000, 'a session with at least 3 evaluations and summary files, one which met old results, or a second session',
     assumptions=E2E_ASSUME, timeout=60)


# ------------------------------------------------------------------------------------------------- user interventions
@st.composite
def interventions(draw):
    case = draw(e2e(keep=True, fx=PLAIN_FX, long=draw(st.integers(0, 3)) > 0, resume=False, share=False, raising=draw(st.booleans())))
    for s in case['scripts']:
        s['late'] = draw(st.sampled_from([0, 0, 0, 1, 4]))
    ours = st.builds(lambda z, k: f'STOP_{"0" * z}{k}', st.sampled_from([0, 0, 1, 2, 3]), st.sampled_from([1, 1, 1, 2, 2, 3, 4, 0, 7]))
    other = st.sampled_from(['STOP_', 'STOP_x', 'STOP_1.txt', 'STOP_1_2', 'stop_1', 'STOP1', 'STOP-1', 'OLD_STOP_1', 'STOP_1.0', 'chkpt',
                             'CHKPT_1', 'CHKPT.txt', 'STOPPED', 'STOP_all', '1_STOP'])
    name = st.one_of(ours, ours, ours, st.just('CHKPT'), other)
    loop = st.integers(1, 7) if draw(st.booleans()) else st.sampled_from(draw(st.lists(st.integers(1, 7), min_size=1, max_size=2)))
    case['acts'] = draw(st.lists(st.tuples(loop, name).map(list), min_size=1, max_size=8))
    if draw(st.integers(0, 3)):
        case.pop('stop', None)
        case['max_opts'] = min(case['max_opts'], 4)
        for s in case['scripts']:
            s['ops'] = s['ops'][:1] + draw(st.lists(st.one_of(PLAIN_FX.map(lambda v: ['e', v]), st.just(['nop'])), min_size=8, max_size=20)) + s['ops'][1:]
        case['sched'] = [[a, min(b, 2)] for a, b in case['sched']]
    case['control'] = draw(st.sampled_from([None, None, {'at': []}, {'every': 5}]))
    case['pick'] = draw(st.integers(0, 4))
    case['sched2'] = draw(st.one_of(st.none(), SCHED))
    case['loop2'] = draw(st.integers(1, 8))
    return case


spec('P27', interventions, 1000, 40000, 'an optimizer was stopped or a checkpoint made on request of the user', assumptions=E2E_ASSUME,
     hang_is_violation=True, timeout=40)


# ------------------------------------------------------------------------------------------------------ print streams
SAY = st.tuples(st.sampled_from(['out', 'out', 'err']), st.sampled_from(['print', 'print', 'flush', 'several', 'write', 'lines', 'tty']),
                st.one_of(st.sampled_from(['', 'iteration 5', 'two\nlines', 'ä β', '{} %s', '\ttab', 'x' * 9000]),
                          st.text('abc \n', max_size=6))).map(list)


@st.composite
def prints(draw):
    kind = draw(st.sampled_from(['session', 'session', 'session', 'threads', 'threads', 'processes']))
    if kind == 'processes':
        spec_ = st.fixed_dictionaries({'texts': st.lists(SAY, max_size=5), 'end': st.sampled_from(['normal', 'normal', 'raise', 'exit'])})
        return {'kind': kind, 'procs': draw(st.dictionaries(st.integers(1, 12000).map(str), spec_, min_size=1, max_size=3))}
    if kind == 'threads':
        spec_ = st.fixed_dictionaries({'redirect': st.sampled_from([True, True, False]), 'texts': st.lists(SAY, min_size=1, max_size=4),
                                       'end': st.sampled_from(['normal', 'normal', 'raise'])})
        n = draw(st.integers(1, 5))
        base = draw(st.sampled_from([0, 0, 996, 9998]))
        return {'kind': kind, 'layers': draw(st.sampled_from([1, 1, 2, 0])), 'named': draw(st.booleans()),
                'threads': {str(base + i): draw(spec_) for i in range(1, n + 1)},
                'order': draw(st.lists(st.tuples(st.integers(0, n).map(lambda i: i and base + i), SAY).map(list), max_size=16))}
    case = draw(e2e(keep=True, fx=PLAIN_FX, resume=False, multi=False))
    for s in case['scripts']:
        for _ in range(draw(st.integers(0, 4))):
            s['ops'].insert(draw(st.integers(0, len(s['ops']))), ['p', *draw(SAY)])
    case['kind'] = kind
    case['split'] = draw(st.sampled_from([True, True, False]))
    if draw(st.integers(0, 2)) == 0:
        case['ckpt'] = {'at': sorted(draw(st.sets(st.integers(1, 5), min_size=1, max_size=2)))}
        case['pick'], case['loop2'] = draw(st.integers(0, 4)), draw(st.integers(1, 8))
        case['sched2'] = draw(SCHED)
    return case


spec('P23', prints, 1500, 40000, 'several optimizers, threads or processes print', assumptions=E2E_ASSUME, hang_is_violation=True, timeout=40)


# --------------------------------------------------------------------------------------------------------------- time
@st.composite
def timed(draw):
    backend = draw(st.sampled_from(['processes', 'processes', 'processes_forced', 'threads']))
    case = draw(e2e(keep=True, fx=PLAIN_FX, share=False, stop=False, resume=False, raising=draw(st.booleans()), detailed=False,
                    long=draw(st.booleans())))
    procs = backend != 'threads'
    for s in case['scripts']:
        s['ops'] = [o for o in s['ops'] if o[0] not in ('m', 'none9', 'badmsg')]
    case['backend'] = backend
    case['dt'] = draw(st.lists(st.sampled_from([0, 1, 5, 10, 30, 100]), min_size=1, max_size=6))
    case['force'] = draw(st.sampled_from([-1, 20, 20, 60])) if procs else -1
    case['aggressive'] = draw(st.sampled_from([False, False, True]))
    case['status'] = draw(st.sampled_from([600, 40, 0, 95]))
    case['loop'] = draw(st.integers(3, 25))
    case['end_timeout'] = 3
    if draw(st.integers(0, 2)) == 0:
        case['limit'] = [draw(st.sampled_from(['session', 'overall'])), draw(st.sampled_from([1, 35, 100, 170, 400]))]
    if draw(st.booleans()):
        c = {}
        kind = draw(st.integers(0, 2))
        if kind != 1:
            c['secs'] = draw(st.sampled_from([7, 35, 90]))
        if kind != 0:
            c['every'] = draw(st.integers(1, 10))
        case['ckpt'] = c
        case['pick'], case['loop2'], case['sched2'], case['gap'] = draw(st.integers(0, 4)), draw(st.integers(2, 12)), draw(SCHED), \
            draw(st.sampled_from([0, 50, 5000]))
    elif procs and draw(st.booleans()):
        s = case['scripts'][draw(st.integers(0, len(case['scripts']) - 1))]
        s['ops'] = s['ops'][:draw(st.integers(0, 4))] + [['hang']]
        if draw(st.booleans()):   # Hung for some time before it is killed
            s['ops'] = [['e', 50.0 + i] for i in range(draw(st.integers(1, 2)))] + [['hang']]
            other = [['e', 9.0 - i] if i % 3 else ['nop'] for i in range(draw(st.integers(6, 16)))]
            case['scripts'] = [s, {**s, 'ops': other}]
            case['hunter'] = [0] * draw(st.integers(0, 6)) + [1]
            case['hunt_freq'], case['max_jobs'], case['loop'] = draw(st.integers(1, 2)), 4, 25
            case['dt'] = draw(st.lists(st.sampled_from([1, 5, 5, 10]), min_size=1, max_size=4))
            case['force'] = 20
            case['aggressive'] = draw(st.sampled_from([False, False, False, True]))
    return case


spec('P28', timed, 1200, 40000, 'a termination by force, a status message, a periodic checkpoint or a time limit was due', assumptions=E2E_ASSUME +
     ['time.time is replaced by a clock which the case advances', 'processes are replaced by threads which can be terminated between two operations'],
     hang_is_violation=True, timeout=60)


# ------------------------------------------------------------------------------------------------------------- scope
def scope_args():
    return st.fixed_dictionaries({}, optional={
        'x_range': st.one_of(st.none(), st.none(), st.integers(2, 40), st.tuples(st.integers(0, 20), st.integers(21, 90)).map(list)),
        'y_range': st.one_of(st.none(), st.tuples(st.integers(-9, 0), st.integers(1, 20)).map(list)),
        'log_scale': st.booleans(), 'elitism': st.booleans(), 'events_per_flush': st.integers(1, 12)})


@st.composite
def scoped(draw):
    kind = draw(st.sampled_from(['direct', 'direct', 'session', 'session', 'session', 'bad']))
    if kind == 'bad':
        if draw(st.booleans()):
            x = draw(st.one_of(st.integers(-5, 1), st.tuples(st.integers(0, 9), st.integers(-9, 0)).map(list), st.sampled_from(['a', 2.5])))
            return {'kind': kind, 'args': {'x_range': x}}
        return {'kind': kind, 'args': {'y_range': draw(st.one_of(st.tuples(st.integers(0, 9), st.integers(-9, 0)).map(list),
                                                               st.sampled_from(['a', 2.5, 7])))}}
    args = draw(scope_args())
    if kind == 'direct':
        if draw(st.booleans()):
            args['x_range'], args['events_per_flush'] = draw(st.integers(2, 15)), draw(st.integers(1, 4))
        i = st.integers(0, 5)
        y = st.one_of(FX, PLAIN_FX)
        op = st.one_of(*[st.tuples(st.just('pt'), i, y, st.sampled_from([1, 1, 1, 1, 7])).map(list)] * 5,
                       st.tuples(st.just('add'), st.sampled_from([None, 'Scripted', ''])).map(list),
                       st.tuples(st.sampled_from(['kill', 'norm', 'crash', 'pause', 'chkpt']), i).map(list),
                       st.tuples(st.sampled_from(['kill', 'norm', 'crash', 'pause', 'chkpt']), i).map(list))
        ops_ = [['add', 'T']] + draw(st.lists(op, min_size=draw(st.sampled_from([0, 30])), max_size=60))
        if draw(st.integers(0, 3)) == 0:
            ops_.insert(draw(st.integers(1, len(ops_))), ['save'])
        elif draw(st.integers(0, 4)) == 0:
            args['record_movie'] = True
            path = draw(st.sampled_from([None, 'str', 'path']))
            if draw(st.booleans()):
                args['movie_kwargs'] = {'outfile': draw(st.sampled_from(['film.mp4', 'film', 'a.b.avi']))}
            return {'kind': kind, 'args': args, 'ops': ops_, 'path': path}
        return {'kind': kind, 'args': args, 'ops': ops_}
    c = draw(e2e(keep=True, resume=False, detailed=False, long=draw(st.booleans()), faults=draw(st.integers(0, 3)) == 0))
    c['kind'] = kind
    if draw(st.integers(0, 2)):
        args.update(x_range=None)
    c['args'] = args
    if draw(st.booleans()) and not c.get('faults'):
        c['ckpt'] = {'every': draw(st.integers(1, 12))} if draw(st.integers(0, 2)) == 0 else \
            {'at': sorted(draw(st.sets(st.integers(1, 8), min_size=1, max_size=3)))}
        c['pick'], c['sched2'] = draw(st.integers(0, 4)), draw(SCHED)
        if draw(st.integers(0, 1)) == 0:
            c['later'], c['args'] = True, {}
        for s in c['scripts']:
            s['late'] = draw(st.sampled_from([0, 0, 1, 4]))
            s['ops'] = [o for o in s['ops'] if o[0] != 'badmsg']
    elif draw(st.booleans()):
        args['record_movie'] = True
        if draw(st.booleans()):
            args['movie_kwargs'] = draw(st.fixed_dictionaries({}, optional={'outfile': st.sampled_from(['film.mp4', 'film', 'a.b.avi']),
                                                                            'dpi': st.just(50), 'nonsense': st.just(1)}))
        if draw(st.booleans()):
            args['writer_kwargs'] = draw(st.sampled_from([{'fps': 10}, {'nonsense': 1}, {}]))
    return c


spec('P26', scoped, 700, 30000, 'the picture shows evaluations, or invalid settings were refused', assumptions=E2E_ASSUME +
     ['pictures are not rendered and movies are not encoded'], hang_is_violation=True, timeout=60)


# ------------------------------------------------------------------------------------------------------------- real processes
@st.composite
def processes(draw):
    n = draw(st.integers(1, 4))
    mj = draw(st.integers(1, 4))
    share = draw(st.booleans())
    listen = draw(st.integers(0, 2)) == 0
    ckpt = draw(st.integers(0, 2)) == 0
    nap = st.sampled_from([0.0, 0.005, 0.02])
    scripts = []
    for k in range(n):
        op = st.one_of(*[st.tuples(st.just('e'), FX).map(list)] * 5, st.tuples(st.just('sleep'), nap).map(list),
                       st.tuples(st.just('m'), st.sampled_from(['note', 'two words'])).map(list), st.just(['child']))
        body = draw(st.lists(op, min_size=draw(st.sampled_from([1, 6])), max_size=14))
        ends = [None] * 5 + [['raise'], ['silent'], ['exit', 0], ['exit', 3], ['signal', 9], ['signal', 15]]
        end = draw(st.sampled_from([None] * 8 + ends if ckpt else ends))
        scripts.append({'ops': body + ([end] if end else []), 'workers': draw(st.integers(1, mj))})
    case = {'scripts': scripts, 'max_jobs': mj, 'share': share,
            'backend': draw(st.sampled_from(['processes'] * 4 + ['processes_forced'] * 3 + ['threads']))}
    if case['backend'] == 'threads':
        for s in scripts:
            s['ops'] = [o for o in s['ops'] if o[0] not in ('exit', 'signal')]
    elif not ckpt and draw(st.integers(0, 6)) == 0:
        scripts[-1]['ops'].append(['hang'])
        case['end_timeout'] = 0.3
    if listen and 'end_timeout' not in case:
        s = scripts[draw(st.integers(0, n - 1))]
        s['ops'] = [o for o in s['ops'] if o[0] in ('e', 'm', 'sleep')] + [['listen']]
        case['max_jobs'] = max(mj, sum(s['workers'] for s in scripts))
    elif draw(st.integers(0, 3)) == 0:
        case['f'] = draw(st.integers(1, 20))
    if draw(st.booleans()):
        case['victims'] = sorted(draw(st.sets(st.integers(1, n), min_size=1, max_size=2)))
        case['after'], case['freq'] = draw(st.integers(0, 3)), draw(st.integers(1, 3))
        case['aggressive'] = draw(st.booleans())
        if draw(st.booleans()):    # Give the manager time to notice that they are bad
            case['max_jobs'] = max(mj, sum(s['workers'] for s in scripts))
            for v in case['victims']:
                s = scripts[v - 1]
                s['ops'] = [['e', 50.0]] * 3 + [['sleep', 0.02], ['e', 49.0]] * 8 + s['ops']
                if case['aggressive']:
                    s['deaf'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        case['detailed'] = True
    case['split'] = draw(st.booleans())
    if ckpt and 'end_timeout' not in case:
        case['ckpt'] = {'conv': True} if draw(st.integers(0, 2)) == 0 else {'every': draw(st.integers(1, 8)), 'conv': draw(st.booleans())}
        case['pick'] = draw(st.integers(0, 4))
        if draw(st.integers(0, 3)) == 0:
            case['backend2'] = draw(st.sampled_from(['processes', 'processes_forced']))
    return case


spec('P30', processes, 200, 9000, 'at least two optimizers ran and more than one evaluation was recorded',
     assumptions=['the operating system decides when processes run, so cases are not entirely reproducible'], hang_is_violation=True, timeout=90)
