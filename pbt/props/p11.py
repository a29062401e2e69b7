import datetime

import engine as E
import naming
from verdict import need


def run(case):
    tokens = case['tokens']
    f = naming.fmt(tokens)
    has_count = any(t == ['key', 'count'] for t in tokens)
    with E.scratch() as base:
        d = base / 'chk'
        c = E.CheckpointingControl(naming_format=f, checkpointing_dir=d)
        names = []
        t0 = datetime.datetime(2021, 3, 4, 5, 6, 7)
        if case['files'] or not case.get('nodir'):
            d.mkdir()
        for idx, suffix, edit, pos, ch, as_dir in case['files']:
            n = naming.render(tokens, t0, idx)
            if edit == 'del' and n:
                p = pos % len(n)
                n = n[:p] + n[p + 1:]
            elif edit == 'ins':
                p = pos % (len(n) + 1)
                n = n[:p] + ch + n[p:]
            elif edit == 'sub' and n:
                p = pos % len(n)
                n = n[:p] + ch + n[p + 1:]
            n += suffix
            if not n or n in ('.', '..') or '/' in n or (d / n).exists():
                continue
            names.append(n)
            if as_dir:
                (d / n).mkdir()
            else:
                (d / n).touch()
        hits = 0
        for n in names:
            want = bool(naming.counts(tokens, n))
            hits += want
            need(c.matches_naming_format(n) == want, 'name "{}" {} the format "{}" but is reported otherwise', n,
                 'matches' if want else 'does not match', f)
        made = []
        for k in range(case['rounds']):
            sets = [s for s in (naming.counts(tokens, n) for n in names + made) if s]
            if any(len(s) > 1 for s in sets):
                return {'ok': True, 'nt': False, 'tags': ['ambiguous']}
            idx = max([i for s in sets for i in s if i is not None], default=-1) + 1
            if not has_count:
                idx = 0
            a = datetime.datetime.now()
            got = c.get_name()
            b = datetime.datetime.now()
            want = {naming.render(tokens, a, idx), naming.render(tokens, b, idx)}
            need(got in want, 'the next name is "{}" instead of "{}" (format "{}", existing {})', got, sorted(want)[0], f,
                 sorted(names + made))
            need(c.matches_naming_format(got) and c.matches_naming_format(got + '.tar.gz'),
                 'the name "{}" does not match its own format "{}"', got, f)
            if has_count:
                need(got not in made and got + '.tar.gz' not in names and got not in names,
                     'the name "{}" is already in use', got)
                need(c.count == idx + 1, 'the counter is {} after checkpoint {}', c.count, idx)
            d.mkdir(exist_ok=True)
            try:
                (d / (got + '.tar.gz')).touch()
            except OSError:
                return {'ok': True, 'nt': False, 'tags': ['bad-name']}
            if got + '.tar.gz' not in made:
                made.append(got + '.tar.gz')
    return {'ok': True, 'nt': hits > 0 and hits < len(names), 'tags': ['count' if has_count else 'no-count'] +
            (['over-999'] if any(x[0] > 998 for x in case['files']) else [])}
