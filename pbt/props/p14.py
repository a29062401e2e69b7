""" Combinations of conditions. """
import re

import numpy as np

import engine as E
from verdict import need
from glompo.common.helpers import nested_string_formatting
from glompo.convergence import BaseChecker
from glompo.hunters import BaseHunter


class Boom(Exception):
    pass


class World:
    """ The answers of the conditions in the present round and the calls made. """

    def __init__(self):
        self.answers, self.calls = [], []


class _Leaf:
    def answer(self, args):
        w = self._world
        w.calls.append((self.i, args))
        a = w.answers[self.i]
        if a == 'raise':
            raise Boom()
        self.last_result = np.bool_(a) if self.i % 3 == 2 else a
        return self.last_result


class Check(_Leaf, BaseChecker):
    def __init__(self, i, world):
        super().__init__()
        self.i, self._world = i, world

    def __call__(self, manager):
        return self.answer((manager,))


class Hunt(_Leaf, BaseHunter):
    def __init__(self, i, world):
        super().__init__()
        self.i, self._world = i, world

    def __call__(self, log, hunter_opt_id, victim_opt_id):
        return self.answer((log, hunter_opt_id, victim_opt_id))


def build(tree, cls, w, leaves, nodes):
    if tree[0] == 'leaf':
        q = cls(len(leaves), w)
        leaves.append(q)
        nodes.append((tree, q))
        return q
    a = build(tree[1], cls, w, leaves, nodes)
    b = build(tree[2], cls, w, leaves, nodes)
    q = a & b if tree[0] == 'and' else a | b
    nodes.append((tree, q))
    return q


def number(tree, n=None):
    """ Tree with numbered leaves. """
    n = n if n is not None else [0]
    if tree[0] == 'leaf':
        n[0] += 1
        return ('leaf', n[0] - 1)
    return (tree[0], number(tree[1], n), number(tree[2], n))


def evaluate(tree, answers, seen):
    """ Reference: lazy evaluation from left to right. """
    if tree[0] == 'leaf':
        seen.append(tree[1])
        a = answers[tree[1]]
        if a == 'raise':
            raise Boom()
        return a
    a = evaluate(tree[1], answers, seen)
    if (tree[0] == 'and') != a:
        return a
    return evaluate(tree[2], answers, seen)


def text(tree, cls, results=None):
    if tree[0] == 'leaf':
        s = f'{cls.__name__}(i={tree[1]},world)'
        return s if results is None else f'{s}={results.get(tree[1])}'
    return '[' + text(tree[1], cls, results) + ('&' if tree[0] == 'and' else '|') + text(tree[2], cls, results) + ']'


def squeeze(s):
    return re.sub(r'\s', '', s)


def run(case):
    cls = Check if case['kind'] == 'checker' else Hunt
    w = World()
    leaves, nodes = [], []
    cond = build(case['tree'], cls, w, leaves, nodes)
    tree = number(case['tree'])
    base = BaseChecker if case['kind'] == 'checker' else BaseHunter
    need(isinstance(cond, base), 'a combination of {}s is a {}', case['kind'], type(cond).__name__)
    need([id(q) for q in cond] == [id(q) for q in leaves], 'iterating over {} gives {} instead of the parts in order',
         text(tree, cls), [str(q) for q in cond])
    need(squeeze(str(cond)) == text(tree, cls), '{} is printed as {}', text(tree, cls), squeeze(str(cond)))
    need(squeeze(cond.str_with_result()) == text(tree, cls, {}), 'before the first evaluation results are shown: {}',
         squeeze(cond.str_with_result()))
    for other in (3, None, True, lambda *a: True):
        for op in ('&', '|'):
            try:
                q = cond & other if op == '&' else cond | other
            except TypeError:
                continue
            need(False, 'combining a condition with {!r} was accepted: {!r}', other, q)
    lazy = 0
    for k, row in enumerate(case['rounds']):
        answers = [row[i % len(row)] for i in range(len(leaves))]
        w.answers, w.calls = answers, []
        seen = []
        try:
            want = evaluate(tree, answers, seen)
        except Boom:
            want = 'raise'
        args = (object(),) if cls is Check else (object(), k, k + 1)
        try:
            got = cond(*args)
        except Boom:
            got = 'raise'
        need((got == 'raise') == (want == 'raise') and bool(got) == bool(want), 'round {}: {} with answers {} gives {} '
             'instead of {}', k, text(tree, cls), answers, got, want)
        need([c[0] for c in w.calls] == seen, 'round {}: {} with answers {} evaluated {} instead of {}', k,
             text(tree, cls), answers, [c[0] for c in w.calls], seen)
        need(all(len(c[1]) == len(args) and all(a is b or a == b for a, b in zip(c[1], args)) for c in w.calls),
             'the parts were called with other arguments: {}', w.calls)
        if len(seen) < len(leaves):
            lazy += 1
        if got == 'raise':
            continue
        need(bool(cond.last_result) == want, 'round {}: last_result is {} after the evaluation gave {}', k,
             cond.last_result, want)
        shown = {i: answers[i] for i in seen}
        for leaf in leaves:
            r = leaf.last_result
            if leaf.i in shown:
                need(r is not None and bool(r) == shown[leaf.i], 'part {} was {} but shows {}', leaf.i, shown[leaf.i], r)
            else:
                need(r is None, 'part {} was not evaluated in round {} ({}) but shows {}', leaf.i, k, answers, r)
        s = cond.str_with_result()
        need(squeeze(s) == text(tree, cls, shown), 'results are printed as {} instead of {}', squeeze(s),
             text(tree, cls, shown))
        if tree[0] != 'leaf':
            nice = nested_string_formatting(s)
            need('[' + squeeze(nice) + ']' == squeeze(s), 'formatting changed "{}" into "{}"', squeeze(s), squeeze(nice))
            depth = 0
            for line in nice.split('\n'):
                t = line.strip()
                if t.startswith(']'):
                    depth -= 1
                need(len(line) - len(line.lstrip(' ')) == depth, 'bad nesting in:\n{}', nice)
                if t == '[':
                    depth += 1
        if case.get('reset') and k % 2:
            cond.reset()
            need(all(q.last_result is None for q in leaves), 'after reset parts show {}', [q.last_result for q in leaves])
    return {'ok': True, 'nt': lazy > 0 and len(case['rounds']) > 1, 'tags': [case['kind'], f'leaves{min(len(leaves), 6)}'] +
            (['lazy'] if lazy else [])}
