"""C21: texts with substitutions and command lines (spec Text)."""
import itertools

import simple
import vp

NAMES = ['v', 'w-1', 'sp', 'e', 'Bx_2']
TOKENS = ['v', ' ', '\\', '$', '$(v', ')', "'", '(']
MORE = TOKENS + ['"', '$(v ', '$(sp)', '$(e)', '$(w-1 ', '\t', 'a', 'é', '$$', '#', '{', ',', '\\"',
                 "\\'", '\\)', '\\ ', "''", '""', '\\\\', '$(nope)', '$(', '$()', '$(v$', '  ']
PLAIN = ['a', 'bc', 'é', '-', '/x', '10', '.', ',', '#', '=', '*', 'v', '${}', '[', ';', '&', '|']


def short(n, alphabet):
    for k in range(n + 1):
        for c in itertools.product(alphabet, repeat=k):
            yield ''.join(c)


def esc(t, special, r, extra=0.0):
    return ''.join('\\' + c if c in special or (r.random() < extra and c not in ' \t\n') else c
                   for c in t)


def literal(r):
    return ''.join(r.choice(PLAIN + [' ', "'", '"', '\\', '$', '(', ')', ' '])
                   for _ in range(r.choice([1, 1, 2, 3, 6])))


def value(r, depth, q):
    """One argument; q: the quotation it is in."""
    if not q and r.random() < .45:
        z = r.choice(['"', "'"])
        return z + frags(r, depth, z) + z
    out = ''
    for _ in range(r.choice([1, 1, 2, 3])):
        if depth > 0 and r.random() < .4:
            out += sub(r, depth - 1, q)
        else:
            t = literal(r).replace(' ', '_')
            out += esc(t, '\\$()' + (q or '\'"'), r, .1)
    return out


def sub(r, depth, q):
    return '$(' + r.choice(NAMES) + ''.join(
        ' ' + value(r, depth, q) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))) + ')'


def frags(r, depth, q):
    out = ''
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        if depth > 0 and r.random() < .5:
            out += sub(r, depth - 1, q)
        else:
            out += esc(literal(r), '\\$' + q, r, .1)
    return out


def broken(r, t):
    """A change at one place."""
    if not t:
        return t
    i = r.randrange(len(t) + 1)
    x = r.random()
    if x < .4:
        return t[:i] + t[i + 1:]
    if x < .8:
        return t[:i] + r.choice(MORE) + t[i:]
    j = r.randrange(len(t) + 1)
    return t[:min(i, j)] + t[max(i, j):]


def command(r):
    words = []
    for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6])):
        w = ''
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if x < .35:
                w += sub(r, r.choice([0, 0, 1]), '')
            elif x < .5:
                w += "'" + literal(r).replace("'", '').replace('$', '').replace('\\', '') + "'"
            elif x < .65:
                w += '"' + literal(r).replace('"', '').replace('$', '').replace('\\', '') + '"'
            elif x < .75:
                # (escaped for the shell, and each backslash of that for the front end)
                w += '\\\\' + r.choice([' ', 'a', "'", '"', '\\\\'])
            else:
                w += r.choice(PLAIN)
        words.append(w)
    sep = [r.choice([' ', ' ', '  ', '\t', ' \t ']) for _ in range(len(words) + 1)]
    return (sep[0] if r.random() < .25 else '') + ''.join(
        w + (s if i < len(words) - 1 or r.random() < .25 else '')
        for i, (w, s) in enumerate(zip(words, sep[1:])))


def run_text(prop, res, scratch):
    th = vp.TIER == 'thorough'
    texts = [('parse', t) for t in short(6 if th else 5, TOKENS)]
    cmds = [('cmd', t) for t in short(5 if th else 4, ['v', ' ', '\\\\', '$(sp)', '$(e)', "'", '"'])]
    rnd = []
    for i in range(120000 if th else 9000):
        r = vp.rng('C21', 'text', i)
        x = r.random()
        t = frags(r, r.choice([1, 2, 3]), '') if x < .6 else \
            ''.join(r.choice(MORE) for _ in range(r.choice([3, 6, 9])))
        if r.random() < .3:
            t = broken(r, t)
        rnd.append((r.choice(['parse', 'parse', 'eval']), t))
    for i in range(60000 if th else 5000):
        r = vp.rng('C21', 'cmd', i)
        t = command(r)
        if r.random() < .25:
            t = broken(r, t)
        rnd.append(('cmd', t))
    ops = [{'o': o, 'text': t} for o, t in texts + cmds + rnd if len(t) < 160]
    n = 150
    jobs = [{'ops': ops[k:k + n]} for k in range(0, len(ops), n)]
    simple.run('text', prop, res, scratch, 'text_driver', jobs, 'TextTrace',
               lambda j, r: {'ops': r['ops']},
               mc=[('TextMC', 'TextMCdeep.cfg' if th else 'TextMC.cfg')],
               bound='all texts of up to %d tokens, %d random ones; all command lines of up to %d '
               'tokens' % (6 if th else 5, len(rnd), 5 if th else 4))
