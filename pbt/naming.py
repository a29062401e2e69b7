""" Reference model of checkpoint names. """
DIGITS = {'date': 8, 'year': 4, 'yr': 2, 'month': 2, 'day': 2, 'time': 6, 'hour': 2, 'min': 2, 'sec': 2}
STRF = {'date': '%Y%m%d', 'year': '%Y', 'yr': '%y', 'month': '%m', 'day': '%d', 'time': '%H%M%S', 'hour': '%H',
        'min': '%M', 'sec': '%S'}


def fmt(tokens):
    """ tokens: [['lit', text] | ['key', name]] """
    return ''.join(t[1] if t[0] == 'lit' else f'%({t[1]})' for t in tokens)


def render(tokens, now, count):
    return ''.join(t[1] if t[0] == 'lit' else f'{count:03}' if t[1] == 'count' else now.strftime(STRF[t[1]])
                   for t in tokens)


def counts(tokens, name):
    """ All values the counter may have if name matches; empty set if it does not match. None: there is no counter. """
    res = set()

    def go(i, s, c):
        if i == len(tokens):
            if s in ('', '.tar.gz'):
                res.add(c)
            return
        kind, v = tokens[i]
        if kind == 'lit':
            if s.startswith(v):
                go(i + 1, s[len(v):], c)
        elif v == 'count':
            for n in range(3, len(s) + 1):
                d = s[:n]
                if not (d.isascii() and d.isdigit()):
                    break
                if n == 3 or d[0] != '0':
                    go(i + 1, s[n:], int(d))
        else:
            n = DIGITS[v]
            d = s[:n]
            if len(d) == n and d.isascii() and d.isdigit():
                go(i + 1, s[n:], c)
    go(0, name, None)
    return res
