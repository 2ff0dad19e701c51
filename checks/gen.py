"""Random valid definitions (lists of dictionaries), and walkers that read them independently of the code."""
import copy

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'on', 'off', 'yes', 'null', '1', '007', 'a b', "it's", 'x:y', '50%', 'ümlaut']
TEXTS = ['help text', 'Uses a "quote"', "it's", 'a: b', '# no comment', '- dash', '{braces} [x]', 'back\\slash', 'tab\there',
         '', ' lead', 'trail ', 'two\nlines', 'null', 'true', 'no', '1.5', '012', '~', '@at', '`tick`', '%percent', '&anchor', '*star',
         '!bang', '|pipe', '> fold', 'unicode ä ß 漢字', 'emoji \U0001f600', 'nbsp\u00a0x', 'del\x7f', 'ls\u2028x', 'bom\ufeff',
         'INHERIT', 'nel\u0085x', 'esc\x1b', '=', 'e\u0301', '---', '...', '\ttab', 'x' * 200, ':', '?', "''", '""']
VARS = ['VAR', 'my_var', '_x', 'V2']
WHENS = ['option_is --w -- a b', 'has_option --w', '!has_option --w', '(has_option --w || positional_count >= 1) && has_option -z',
         'positional_contains 1 foo "b r"', "option_is nocase any --w -- 'x y'", "option_match --w -- '^a.*'"]


def simple_completer(rng, text):
    k = rng.randrange(30)
    w = lambda: rng.choice(WORDS)
    t = lambda: rng.choice(text)
    if k == 0: return ['none']
    if k == 1: return ['choices', [w() for _ in range(rng.randint(1, 4))]]
    if k == 2: return ['choices', {w(): t() for _ in range(rng.randint(1, 4))}]
    if k == 3: return ['choices', [1, 22, 'x']]
    if k == 4: return ['range', 1, 5]
    if k == 5: return ['range', 9, 1, -2]
    if k == 6: return ['file']
    if k == 7: return ['file', {'extensions': ['txt', 'tar.gz'], 'fuzzy': rng.choice([True, False])}]
    if k == 8: return ['file', {'directory': '/tmp', 'ignore_globs': ['*.o']}]
    if k == 9: return ['directory', {'directory': '/tmp'}]
    if k == 10: return ['directory']
    if k == 11: return ['file_list', {'separator': ':', 'duplicates': True}]
    if k == 12: return ['directory_list', {'separator': ';'}]
    if k == 13: return ['value_list', {'values': [w() for _ in range(3)], 'separator': ',', 'duplicates': rng.choice([True, False])}]
    if k == 14: return ['value_list', {'values': {w(): t() for _ in range(2)}}]
    if k == 15: return ['integer', {'min': -3, 'max': 100, 'help': 'a number', 'suffixes': {'k': 'kilo', 'M': 'mega'}}]
    if k == 16: return ['float', {'min': 0.5, 'max': 1e30}]
    if k == 17: return ['exec', 'printf "a\\tb\\n"']
    if k == 18: return ['date', '%Y-%m-%d']
    if k == 19: return ['command', {'path_append': '/opt/bin'}]
    if k == 20: return ['ip_address', 'ipv4+']
    if k == 21: return ['history', '[a-z]+']
    if k == 22: return ['mime_file', 'image/.*']
    if k == 23: return ['exec_internal', 'my_func']
    if k == 24: return ['key_value_list_exec', ',', '=', 'my_kv']
    if k == 25: return ['environment']
    if k == 26: return [rng.choice(['user', 'group', 'pid', 'process', 'signal', 'uid', 'gid', 'hostname', 'service', 'timezone',
                                    'variable', 'locale', 'charset', 'login_shell', 'mountpoint', 'net_interface',
                                    'filesystem_type', 'alsa_card', 'alsa_device', 'date_format', 'commandline_string'])]
    if k == 27: return ['key_value_pair_exec', '=', 'my_kv']
    if k == 28: return ['exec_fast', 'my_fast']
    return ['integer']


def completer(rng, text, depth=2):
    k = rng.randrange(12)
    if depth and k == 0:
        c = completer(rng, text, depth - 1)
        return ['list', c if c[0] != 'none' else ['user'], {'separator': ':', 'duplicates': rng.choice([True, False])}]
    if depth and k == 1:
        cs = [completer(rng, text, depth - 1) for _ in range(2)]
        return ['combine', [c if c[0] != 'none' else ['user'] for c in cs]]
    if depth and k == 2:
        c = completer(rng, text, depth - 1)
        return ['prefix', 'pre:', c if c[0] != 'none' else ['user']]
    if depth and k == 3:
        return ['key_value_list', ',', '=', [['key1', rng.choice(text), completer(rng, text, depth - 1)],
                                            ['*key2', None, None, ['key1']], ['key3', 'd', ['none']]]]
    if depth and k == 4:
        return ['key_value_pair', '=', [['key1', rng.choice(text), completer(rng, text, depth - 1)], ['key2', None, None]]]
    return simple_completer(rng, text)


def maybe(rng, d, key, f, p=0.35):
    if rng.random() < p:
        d[key] = f()


class Names:
    """option strings, unique within one command line and its parents"""

    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def strings(self):
        self.n += 1
        n = self.n
        r = []
        if n <= 52 and self.rng.random() < 0.5:
            r.append('-' + 'abcdefghijklmnopqrstuvwxyABCDEFGHIJKLMNOPQRSTUVWXYz0123456789'[n - 1])
        if self.rng.random() < 0.7 or not r:
            r.append('--opt%d' % n + self.rng.choice(['', '-name', '_x']))
        if self.rng.random() < 0.2:
            r.append('-old%d' % n)
        self.rng.shuffle(r)
        return r


def option(rng, names, text, whens=WHENS, full=True):
    o = {'option_strings': names.strings()}
    if rng.random() < 0.6:
        o['complete'] = completer(rng, text)
        maybe(rng, o, 'metavar', lambda: rng.choice(text))
        maybe(rng, o, 'optional_arg', lambda: rng.choice([True, False]))
    maybe(rng, o, 'help', lambda: rng.choice(text), 0.7)
    maybe(rng, o, 'groups', lambda: rng.choice([[], ['g1'], ['g1', 'g2'], ['g2']]))
    maybe(rng, o, 'final', lambda: rng.choice([True, False]))
    h = rng.random()
    if h < 0.2:
        o['hidden'] = rng.choice([True, False])
    elif h < 0.5:
        o['repeatable'] = rng.choice([True, False, 'INHERIT'])
    maybe(rng, o, 'nosort', lambda: rng.choice([True, False]))
    maybe(rng, o, 'when', lambda: rng.choice(whens), 0.2)
    maybe(rng, o, 'capture', lambda: rng.choice(VARS), 0.2)
    maybe(rng, o, 'long_opt_arg_sep', lambda: rng.choice(['space', 'equals', 'both', 'INHERIT']), 0.25)
    items = list(o.items())
    rng.shuffle(items)
    return dict(items)


def positional(rng, number, text, repeatable=False, whens=WHENS):
    p = {'number': number}
    maybe(rng, p, 'metavar', lambda: rng.choice(text), 0.5)
    maybe(rng, p, 'help', lambda: rng.choice(text), 0.5)
    maybe(rng, p, 'complete', lambda: completer(rng, text), 0.8)
    if repeatable:
        p['repeatable'] = True
    elif rng.random() < 0.2:
        p['repeatable'] = False
    maybe(rng, p, 'nosort', lambda: rng.choice([True, False]), 0.2)
    maybe(rng, p, 'when', lambda: rng.choice(whens), 0.2)
    maybe(rng, p, 'capture', lambda: rng.choice(VARS), 0.2)
    return p


def command(rng, path, names, text, has_sub, aliases, whens=WHENS):
    d = {'prog': ' '.join(path)}
    maybe(rng, d, 'help', lambda: rng.choice(text), 0.7)
    if aliases is not None:
        maybe(rng, d, 'aliases', lambda: aliases, 0.4)
    if len(path) == 1:
        maybe(rng, d, 'wraps', lambda: rng.choice(['ls', 'gcc']), 0.1)
    for k in ('abbreviate_commands', 'abbreviate_options', 'inherit_options'):
        maybe(rng, d, k, lambda: rng.choice([True, False, 'INHERIT']), 0.3)
    n = rng.randint(0, 4)
    if n or rng.random() < 0.2:
        d['options'] = [option(rng, names, text, whens) for _ in range(n)]
    n = rng.randint(0, 3)
    if n or rng.random() < 0.2:
        d['positionals'] = [positional(rng, i + 1, text, i == n - 1 and not has_sub and rng.random() < 0.4, whens)
                            for i in range(n)]
        if rng.random() < 0.2:
            d['positionals'].reverse()
    return d


SUBS = ['add', 'remove', 'commit-all', 'list', 'sub_x', 'x1', 'add2']


def definition(rng, text=TEXTS, depth=2, prog='mytool', whens=WHENS):
    """a valid definition: parents come before their children"""
    out = []

    def build(path, level):
        nsub = rng.choice([0, 0, 1, 2, 3]) if level < depth else 0
        if level == 0 and rng.random() < 0.5:
            nsub = 2
        out.append(command(rng, path, Names(rng), text, nsub > 0,
                           ['al%d%s' % (len(out), rng.choice(['', '-x']))] if rng.random() < .8 else [], whens))
        subs = rng.sample(SUBS, nsub)
        for s in subs:
            build(path + [s], level + 1)
    build([prog], 0)
    if rng.random() < 0.3:
        # another valid order: all commands of one level together
        out.sort(key=lambda d: d['prog'].count(' '))
    return out


# ------------------------------------------------------------------ oracles

OPTION_DEFAULTS = {'metavar': None, 'help': None, 'optional_arg': False, 'groups': None, 'repeatable': 'INHERIT', 'final': False,
                   'hidden': False, 'complete': None, 'nosort': False, 'when': None, 'capture': None, 'long_opt_arg_sep': 'INHERIT'}
POSITIONAL_DEFAULTS = {'metavar': None, 'help': None, 'repeatable': False, 'complete': ['none'], 'nosort': False, 'when': None,
                       'capture': None}
COMMAND_DEFAULTS = {'help': None, 'aliases': [], 'wraps': None, 'abbreviate_commands': 'INHERIT', 'abbreviate_options': 'INHERIT',
                    'inherit_options': 'INHERIT'}


def plain(x):
    """lists for tuples, text for dictionary keys"""
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, dict) or hasattr(x, 'items'):
        return {str(k): plain(i) for k, i in x.items()}
    return x


def with_defaults(d, defaults, *required):
    r = {k: plain(d[k]) for k in required}
    for k, v in defaults.items():
        x = d.get(k)
        r[k] = plain(v if x is None else x)
    return r


def normal(dicts):
    """the definition with every default written out: {path: command}, and the order of siblings"""
    cmds, order = {}, {}
    for d in dicts:
        path = tuple(d['prog'].split())
        c = with_defaults(d, COMMAND_DEFAULTS)
        c['options'] = [with_defaults(o, OPTION_DEFAULTS, 'option_strings') for o in d.get('options') or []]
        c['positionals'] = [with_defaults(p, POSITIONAL_DEFAULTS, 'number') for p in d.get('positionals') or []]
        assert path not in cmds
        cmds[path] = c
        order.setdefault(path[:-1], []).append(path[-1])
    return cmds, order


def read(cmdline):
    """the same from a CommandLine object, reading its attributes"""
    cmds, order = {}, {}

    def walk(c, path):
        path = path + (c.prog,)
        order.setdefault(path[:-1], []).append(c.prog)
        r = {k: plain(getattr(c, k)) for k in COMMAND_DEFAULTS}
        r['options'] = [dict({k: plain(getattr(o, k)) for k in OPTION_DEFAULTS}, option_strings=plain(o.option_strings))
                        for o in c.options]
        r['positionals'] = [dict({k: plain(getattr(p, k)) for k in POSITIONAL_DEFAULTS}, number=p.number)
                            for p in c.positionals]
        cmds[path] = r
        if c.subcommands:
            for s in c.subcommands.subcommands:
                if s.parent is not c:
                    cmds[path + (s.prog, 'parent')] = 'wrong parent'
                walk(s, path)
    walk(cmdline, ())
    return cmds, order


def diff(a, b, where=''):
    """first difference of two nested values"""
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and
                                      not isinstance(a, bool) and not isinstance(b, bool)):
        return '%s: %r became %r' % (where, a, b)
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return '%s: %r is lost (%r)' % (where, k, a[k])
            r = diff(a[k], b[k], '%s.%s' % (where, k))
            if r:
                return r
        for k in b:
            if k not in a:
                return '%s: %r appeared' % (where, k)
        if '.complete' in where and list(a) != list(b):
            return '%s: order of keys %r became %r' % (where, list(a), list(b))
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %r became %r' % (where, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (where, i))
            if r:
                return r
        return None
    return None if a == b else '%s: %r became %r' % (where, a, b)


def clone(x):
    return copy.deepcopy(x)


def tests_of(d):
    """conditions that a command can use: their options exist"""
    opts = [s for o in d.get('options') or [] for s in o['option_strings'] if ' ' not in s]
    args = [s for o in d.get('options') or [] if o.get('complete') for s in o['option_strings']]
    r = ['positional_count >= 1', 'positional_count == 0', "positional_contains 1 foo 'b r'", '!positional_contains 1 foo']
    for s in opts[:3]:
        r += ['has_option ' + s, '!has_option ' + s, '(has_option %s || positional_count > 1) && !positional_contains 1 x' % s]
    for s in args[:3]:
        r += ['option_is %s -- a b' % s, "option_is nocase any %s -- 'x y'" % s, "option_match %s -- '^a.*'" % s]
    return r


def generatable(rng, text=TEXTS, depth=2, prog='mytool', whens=True):
    """a definition that scripts can be generated from: conditions refer to existing options"""
    dicts = definition(rng, text, depth, prog, [None])
    for d in dicts:
        for o in (d.get('options') or []) + (d.get('positionals') or []):
            if 'when' in o:
                if whens:
                    o['when'] = rng.choice(tests_of(d))
                else:
                    del o['when']
    return dicts
