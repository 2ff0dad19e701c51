"""C11: invalid completers are rejected wherever they are nested, valid ones accepted."""
import copy
import functools
import json
import os
import re
import subprocess
import tempfile

from pydv import instrument, vc
from checks import gen
from checks.common import commandline, config, quiet, real

sv = instrument.mod('scheme_validator')
V = instrument.mod('value_with_trace').ValueWithTrace
CrazyError = instrument.mod('errors').CrazyError

TRUSTED = ['is_valid_extended_regex asks grep (as does the oracle of the bounded part)']
ASSUMPTIONS = ['booleans where integers are expected and null for optional parameters are left open']
RULE = ('random valid completers of every command, nested up to depth 4, and random mutations of them (junk values, missing, additional and '
        'repeated arguments, unknown options, forbidden nestings), on options and positionals of any command of a tree; an independent predicate '
        'says whether the definition is valid')


def val(x):
    return V(x, 'src', 1, 1)


def rejected(f, *a):
    try:
        f(*a)
        return False
    except CrazyError:
        return True


def _args(items):
    a = sv.Arguments(val([val('name')] + items))
    a.get_required_arg('command')
    return a


def ctxt(v, trace=()):
    c = sv.Context()
    c.trace = list(trace)
    c.type = c.TYPE_OPTION
    return c


# ---------------------------------------------------------------- contracts

NO_ARGS = ('alsa_card alsa_device charset commandline_string date_format environment filesystem_type gid group hostname locale '
           'login_shell mountpoint net_interface pid process service signal timezone uid user variable').split()


def no_arguments(v):
    """the completers without arguments are accepted alone, and rejected with arguments of any kind and number"""
    v.covers('scheme_validator._check_void', 'scheme_validator.Arguments.require_no_more', 'scheme_validator._check_complete')
    name = v.choose('completer', NO_ARGS)
    extra = v.choose('arguments', [0, 1, 2])
    a = val([val(name)] + [val(v.str('a%d' % i)) for i in range(extra)])
    v.prove(rejected(sv._check_complete, ctxt(v), a) == (extra > 0), 'accepted exactly without arguments')


def ranges(v):
    """range: accepted exactly if the step is not zero and stop is reachable from start, for all integers"""
    v.covers('scheme_validator._check_range')
    start, stop = v.int('start'), v.int('stop')
    has_step = v.choose('has_step', [False, True])
    step = v.int('step') if has_step else 1
    a = _args([val(start), val(stop)] + ([val(step)] if has_step else []))
    got = rejected(sv._check_range, ctxt(v), a)
    ok = (start <= stop if step > 0 else start >= stop) if step != 0 else False
    v.prove(got == (not ok), 'accepted exactly if the range is not empty')


def numbers(v):
    """integer, float: accepted exactly if not min > max, for all integers, given or not"""
    v.covers('scheme_validator._check_integer_float', 'scheme_validator._check_integer', 'scheme_validator._check_float')
    f = v.choose('check', ['_check_integer', '_check_float'])
    lo, hi = v.int('min'), v.int('max')
    given = v.choose('given', ['', 'min', 'max', 'minmax'])
    d = {}
    if 'min' in given:
        d[val('min')] = val(lo)
    if 'max' in given:
        d[val('max')] = val(hi)
    got = rejected(getattr(sv, f), ctxt(v), _args([val(d)]))
    ok = True if given != 'minmax' else lo <= hi
    v.prove(got == (not ok), 'accepted exactly if min <= max')


def types(v):
    """_check_type accepts exactly the values of the given types"""
    v.covers('scheme_validator._check_type')
    samples = [('s', str), (3, int), (1.5, float), ([], list), ({}, dict), (None, type(None)), (True, bool)]
    value, t = v.choose('value', samples)
    allowed = v.choose('types', [(str,), (int,), (str, int), (list, dict), (str, type(None)), (bool,), (float, int), (list,), (dict,)])
    v.prove(rejected(sv._check_type, val(value), allowed) == (not isinstance(value, allowed)), 'accepted exactly with one of the types')


def characters(v):
    """_check_char accepts exactly one character, the other text checks exactly what they say, for any text"""
    v.covers('scheme_validator._check_char', 'scheme_validator._check_no_spaces')
    s = v.str('s')
    v.patch(sv, '_error', lambda *a: CrazyError('error'))
    v.prove(rejected(sv._check_char, val(s), 'p') == (not vc.BI.len(s) == 1), 'exactly one character')
    v.prove(rejected(sv._check_no_spaces, val(s), 'p') == bool(vc.API.contains(' ', s) or vc.API.contains('\t', s) or vc.API.contains('\n', s)), 'exactly texts without blanks')


def containers(v):
    """combine, list, prefix, key_value_list and key_value_pair check every completer in them, nested in them, for any number of completers"""
    v.covers('scheme_validator._check_combine', 'scheme_validator._check_list', 'scheme_validator._check_prefix',
             'scheme_validator._check_key_value_list', 'scheme_validator._check_key_value_pair')
    kind = v.choose('container', ['combine', 'list', 'prefix', 'key_value_list', 'key_value_pair'])
    outer = v.choose('outer', [(), ('prefix',), ('list', 'key_value_list')])
    calls = []
    v.patch(sv, '_check_complete', lambda c, args: calls.append((list(c.trace), args)))
    c = ctxt(v, outer)
    one = val([val('x')])
    if kind == 'combine':
        many = v.list('commands', lambda n: val([val(vc.SymStr.var(n))]), minlen=2)
        sv._check_combine(c, _args([val(many)]))
        want = [many.elem]
    elif kind == 'list':
        sv._check_list(c, _args([one]))
        want = [one]
    elif kind == 'prefix':
        sv._check_prefix(c, _args([val(v.str('prefix')), one]))
        want = [one]
    elif kind == 'key_value_list':
        two = val([val('y')])
        keys = val([val([val('k'), val(None), one]), val([val('l'), val('d'), val(None)]), val([val('m'), val(None), two, val([val('k')])])])
        sv._check_key_value_list(c, _args([val(','), val('='), keys]))
        want = [one, two]
    else:
        two = val([val('y')])
        keys = val([val([val('k'), val(None), one]), val([val('l'), val('d'), val(None)]), val([val('m'), val('x'), two])])
        sv._check_key_value_pair(c, _args([val('='), keys]))
        want = [one, two]
    v.prove([a for _t, a in calls] == want and all(a is b for (_t, a), b in zip(calls, want)), 'every completer is checked')
    v.prove(all(t[:len(outer) + 1] == list(outer) + [kind] for t, _a in calls), 'as nested in the container')


def nesting(v):
    """what follows a completer is not nested in it: the trace is as before after any completer, and none and command_arg are allowed exactly where they make sense"""
    v.covers('scheme_validator._check_complete', 'scheme_validator._check_none', 'scheme_validator._check_command_arg')
    outer = v.choose('outer', [(), ('combine',), ('list',), ('prefix',), ('key_value_list',), ('key_value_pair',), ('list', 'key_value_list'),
                               ('key_value_list', 'combine'), ('combine', 'prefix'), ('prefix', 'prefix'), ('list', 'prefix'), ('key_value_pair', 'prefix')])
    what = v.choose('completer', ['none', 'command_arg', 'file', 'prefix'])
    c = ctxt(v, outer)
    c.type = c.TYPE_POSITIONAL
    before = val({val('number'): val(1), val('complete'): val([val('command')])})
    c.positional = val({val('number'): val(2), val('repeatable'): val(True), val('complete'): val([val('command_arg')])})
    c.definition = val({val('positionals'): val([before, c.positional])})
    got = rejected(sv._check_complete, c, val([val(what)] + ([val('p'), val(['file'] and [val('file')])] if what == 'prefix' else [])))
    if what == 'none':
        ok = not outer or outer[-1] not in ('combine', 'list', 'prefix')
    elif what == 'command_arg':
        ok = all(t == 'prefix' for t in outer)
    else:
        ok = True
    v.prove(got == (not ok), 'allowed exactly where it makes sense')
    if ok:
        v.prove(c.trace == list(outer), 'the nesting is as before')


def dictionaries(v):
    """_check_dictionary accepts exactly the known keys with the right type that pass their own check, and no missing required key"""
    v.covers('scheme_validator._check_dictionary')
    key = v.choose('key', ['a', 'b', 'unknown', None])
    value = v.choose('value', ['text', 5, None])
    required = v.choose('required', [False, True])
    passes = v.choose('passes', [True, False])
    other = v.choose('other', [False, True])

    def check(x, name):
        if not passes:
            raise CrazyError('no')
    d = {}
    if other:
        d[val('c')] = val('x')
    if key is not None:
        d[val(key)] = val(value)
    got = rejected(sv._check_dictionary, val(d), {'a': (required, (str,), check), 'b': (False, (int, type(None)), None), 'c': (False, (str,), None)})
    ok = {'a': value == 'text' and passes, 'b': value != 'text', 'unknown': False, None: True}[key] and (not required or key == 'a')
    v.prove(got == (not ok), 'accepted exactly if every key is right')


def command_arguments(v):
    """command_arg is accepted exactly for a repeatable positional that follows a command, whatever the numbers and the order of the positionals are"""
    v.covers('scheme_validator._check_command_arg')
    c = ctxt(v, v.choose('trace', [(), ('prefix',)]))
    c.type = v.choose('type', [c.TYPE_POSITIONAL, c.TYPE_OPTION])
    n, m = v.int('number'), v.int('other')
    rep = v.choose('repeatable', [None, True, False, 'null'])
    first = v.choose('first', ['command', 'file', None, 'null'])
    before = val({val('number'): val(m)})
    if first:
        before.value[val('complete')] = val(None) if first == 'null' else val([val(first)])
    c.positional = val({val('number'): val(n), val('complete'): val([val('command_arg')])})
    if rep is not None:
        c.positional.value[val('repeatable')] = val(None if rep == 'null' else rep)
    ps = [before, c.positional]
    c.definition = val({val('positionals'): val(ps if v.choose('order', [0, 1]) else ps[::-1])})
    got = rejected(sv._check_command_arg, c, _args([]))
    ok = c.type == c.TYPE_POSITIONAL and rep is True and first == 'command' and bool(m + 1 == n)
    v.prove(got == (not ok), 'accepted exactly after a command')


def every_completer(v):
    """the completers of every option and positional are checked, for any number of options and positionals"""
    v.covers('scheme_validator._check_commandline_definition0')
    seen = []
    v.patch(sv, '_check_option', lambda c, o: seen.append(o))
    v.patch(sv, '_check_positional', lambda c, o: seen.append(o))
    opts = v.list('options', lambda n: val({}))
    poss = v.list('positionals', lambda n: val({}))
    has_o, has_p = bool(opts), bool(poss)
    sv._check_commandline_definition0(ctxt(v), val({val('prog'): val('prog'), val('options'): val(opts), val('positionals'): val(poss)}))
    if has_o:
        v.prove(any(x is opts.elem for x in _flat(seen)), 'options')
    if has_p:
        v.prove(any(x is poss.elem for x in _flat(seen)), 'positionals')


def _flat(l):
    out = []
    for x in l:
        out += list(x.outs) if isinstance(x, vc.Seg) else [x]
    return out


CONTRACTS = [no_arguments, ranges, numbers, types, characters, containers, nesting, dictionaries, command_arguments, every_completer]


# ---------------------------------------------------------------- an independent predicate

class Open(Exception):
    """not specified"""


class Bad(Exception):
    pass


def need(cond, why=''):
    if not cond:
        raise Bad(why)


def integer(x):
    if isinstance(x, bool):
        raise Open()
    need(isinstance(x, int), 'integer')


def number(x):
    if isinstance(x, bool):
        raise Open()
    need(isinstance(x, (int, float)), 'number')


def text(x):
    need(isinstance(x, str), 'text')


def nonempty(x):
    text(x)
    need(x.strip(), 'empty')


def char(x):
    text(x)
    need(len(x) == 1, 'one character')


def boolean(x):
    need(isinstance(x, bool), 'boolean')


def label(x):
    if isinstance(x, bool):
        raise Open()
    need(isinstance(x, (str, int)), 'label')


@functools.lru_cache(None)
def is_regex(x):
    return subprocess.run(['grep', '-q', '-E', '--', x], input=b'', stderr=subprocess.DEVNULL).returncode != 2


def regex(x):
    text(x)
    if '\0' in x:
        raise Open()
    need(is_regex(x), 'regex')


def options(spec, required=()):
    def check(d):
        need(isinstance(d, dict), 'options')
        for k, x in d.items():
            need(k in spec, 'unknown option')
            spec[k](x)
        need(all(k in d for k in required), 'required option')
    return check


def listof(f, minlen=1):
    def check(l):
        need(isinstance(l, list) and len(l) >= minlen, 'list')
        for x in l:
            f(x)
    return check


def glob(x):
    from checks import c10
    nonempty(x)
    try:
        seq = c10.parse(x)
    except c10.Unsupported:
        raise Bad('glob')
    if '[' in x or '\\' in x or '!(' in x or any(c in x for c in ('*(', '+(', '?(')):
        raise Open()


def extension(x):
    nonempty(x)
    need(not any(c in x for c in ' \t\n'), 'blank')


FILE = {'directory': nonempty, 'extensions': listof(extension), 'fuzzy': boolean, 'ignore_globs': listof(glob)}
LIST = {'separator': char, 'duplicates': boolean}


def args(*required, optional=()):
    def check(c, a, where):
        need(len(required) <= len(a) <= len(required) + len(optional), 'number of arguments')
        for f, x in zip(list(required) + list(optional), a):
            f(x)
    return check


def command(c, a, where):
    args(optional=[options({'path': nonempty, 'path_append': nonempty, 'path_prepend': nonempty})])(c, a, where)
    need(not (a and 'path' in a[0] and len(a[0]) > 1), 'exclusive')


def range_(c, a, where):
    args(integer, integer, optional=[integer])(c, a, where)
    start, stop, step = (a + [1])[:3]
    need(step and (start <= stop if step > 0 else start >= stop), 'empty range')


def choices(c, a, where):
    need(len(a) == 1 and isinstance(a[0], (list, dict)), 'choices')
    for x in a[0]:
        label(x)
        if isinstance(a[0], dict):
            label(a[0][x])


def numeric(f):
    def suffixes(d):
        need(isinstance(d, dict) and d, 'suffixes')
        for k, x in d.items():
            nonempty(k)
            nonempty(x)

    def check(c, a, where):
        args(optional=[options({'min': f, 'max': f, 'help': nonempty, 'suffixes': suffixes})])(c, a, where)
        if a and 'min' in a[0] and 'max' in a[0]:
            need(a[0]['min'] <= a[0]['max'], 'min > max')
    return check


def value_list(c, a, where):
    def values(x):
        need(isinstance(x, (list, dict)) and x, 'values')
        for k in x:
            text(k)
            if isinstance(x, dict):
                text(x[k])
    args(options({'values': values, **LIST}, ['values']))(c, a, where)


def ip_address(c, a, where):
    args(optional=[lambda x: need(isinstance(x, str) and x in ('ipv4', 'ipv6', 'all', 'ipv4+', 'ipv6+', 'all+'))])(c, a, where)


def nested(name, checks, which):
    def check(c, a, where):
        args(*checks[0], optional=checks[1])(c, a, where)
        for x in which(a):
            completer(x, where._replace(trace=where.trace + (name,)))
    return check


def keys(n):
    def check(l):
        need(isinstance(l, list) and l, 'keys')
        defined = []
        for d in l:
            need(isinstance(d, list) and 3 <= len(d) <= n, 'key definition')
            nonempty(d[0])
            need(not any(c in d[0] for c in ' \t\n'), 'blank')
            need(d[1] is None or isinstance(d[1], str), 'description')
            need(d[2] is None or isinstance(d[2], list), 'completer')
            if len(d) == 4:
                listof(nonempty, 0)(d[3])
            defined.append(d[0])
        if n == 4:
            need(len(set(defined)) == len(defined), 'duplicate key')
            need(all(e in defined for d in l if len(d) == 4 for e in d[3]), 'no such key')
    return check


def maybe_name(x):
    need(x is None or isinstance(x, str) and x.strip(), 'name')


def none(c, a, where):
    need(not a)
    need(not where.trace or where.trace[-1] not in ('combine', 'list', 'prefix'), 'none is nested')


def command_arg(c, a, where):
    need(not a)
    need(all(t == 'prefix' for t in where.trace), 'command_arg is nested')
    need(where.positional is not None, 'option')
    p = where.positional
    need(p.get('repeatable'), 'repeatable')
    need(any(q.get('complete') and q['complete'][0] == 'command' and q['number'] + 1 == p['number'] for q in where.definition['positionals']), 'no command')


def is_list(x):
    need(isinstance(x, list), 'list')


def values_of(n):
    return lambda a: [d[2] for d in a[n] if d[2] is not None]


SPEC = {n: args() for n in NO_ARGS}
SPEC.update({
    'none': none, 'command_arg': command_arg, 'command': command, 'range': range_, 'choices': choices, 'value_list': value_list, 'ip_address': ip_address,
    'file': args(optional=[options(FILE)]), 'directory': args(optional=[options({'directory': nonempty})]),
    'file_list': args(optional=[options({**FILE, **LIST})]), 'directory_list': args(optional=[options({'directory': nonempty, **LIST})]),
    'mime_file': args(regex), 'history': args(regex), 'exec': args(text), 'exec_fast': args(text), 'exec_internal': args(text), 'date': args(nonempty),
    'integer': numeric(integer), 'float': numeric(number),
    'key_value_list_exec': args(char, char, nonempty), 'key_value_pair_exec': args(char, nonempty),
    'combine': nested('combine', ([listof(is_list, 2)], []), lambda a: a[0]),
    'list': nested('list', ([is_list], [options(LIST)]), lambda a: [a[0]]),
    'prefix': nested('prefix', ([text, is_list], []), lambda a: [a[1]]),
    'key_value_list': nested('key_value_list', ([char, char, keys(4)], [maybe_name]), values_of(2)),
    'key_value_pair': nested('key_value_pair', ([char, keys(3)], [maybe_name]), values_of(1)),
})


def completer(c, where):
    if c == [] and not where.trace:
        raise Open()
    need(isinstance(c, list) and c and isinstance(c[0], str) and c[0] in SPEC, 'unknown completer')
    SPEC[c[0]](c, c[1:], where)


import collections
Where = collections.namedtuple('Where', 'trace positional definition')


def valid(c, where):
    """-> True, False or None if it is left open"""
    try:
        completer(c, where)
        return True
    except Open:
        return None
    except Bad:
        return False


# ---------------------------------------------------------------- random completers and mutations

JUNK = ['', ' ', 'x', 'ab', ',', 'a b', '[', '(', '%Y', 'file', 'none', 0, 1, -1, 7, 2.5, None, True, False, [], {}, ['x'], ['file'], ['none'], ['user', 1],
        {'x': 1}, {'separator': ','}, {'directory': 'd'}, [[]], [['file'], ['user']], {'values': ['a']}, 'ipv4', 'ä', '\t']


def spots(x, path=()):
    yield path
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from spots(y, path + (i,))
    elif isinstance(x, dict):
        for k in x:
            yield from spots(x[k], path + (k,))


def at(x, path):
    for p in path:
        x = x[p]
    return x


def put(x, path, y):
    if not path:
        return y
    at(x, path[:-1])[path[-1]] = y
    return x


def mutate(rng, c, fresh):
    c = copy.deepcopy(c)
    path = rng.choice(list(spots(c)))
    x = at(c, path)
    k = rng.randrange(9)
    if k <= 2 and path:
        return put(c, path, copy.deepcopy(rng.choice(JUNK)))
    if isinstance(x, list) and k == 3:
        x.insert(rng.randint(0, len(x)), copy.deepcopy(rng.choice(JUNK)))
    elif isinstance(x, list) and x and k == 4:
        del x[rng.randrange(len(x))]
    elif isinstance(x, list) and x and k == 5:
        x.append(copy.deepcopy(rng.choice(x)))
    elif isinstance(x, list) and x and k == 6 and isinstance(x[0], str):
        x[0] = rng.choice(sorted(SPEC) + ['unknown', 'Files'])
    elif isinstance(x, dict):
        if k < 6 or not x:
            x[rng.choice(['separator', 'duplicates', 'directory', 'min', 'max', 'unknown', 'values', 'path', 'help', 'fuzzy', 1])] = copy.deepcopy(rng.choice(JUNK))
        else:
            del x[rng.choice(list(x))]
    elif isinstance(x, list) and x and isinstance(x[0], str) and x[0] in SPEC:
        return put(c, path, rng.choice([['list', x], ['prefix', 'p', x], ['combine', [x, fresh()]], ['combine', [fresh(), x]], ['key_value_pair', '=', [['k', None, x]]],
                                        ['key_value_list', ',', '=', [['k', None, x], ['l', 'd', ['none']]]], ['none'], ['command_arg']]))
    return c


def no_surprise(x):
    """plain data with string keys (JSON)"""
    if isinstance(x, dict):
        return all(isinstance(k, str) and no_surprise(y) for k, y in x.items())
    if isinstance(x, list):
        return all(map(no_surprise, x))
    return True


def definitions(rng, c, cat):
    """a command line with the completer somewhere -> dicts, where"""
    other = lambda: {'option_strings': ['-%s' % next(cat)], 'complete': gen.completer(rng, ['t'])}
    prog = rng.choice(['mytool', 'mytool', 'mytool sub', 'mytool sub deep', 'mytool sub2'])
    dicts = [{'prog': 'mytool'}, {'prog': 'mytool sub'}, {'prog': 'mytool sub deep'}, {'prog': 'mytool sub2'}]
    if prog == 'mytool' and rng.random() < .6:
        dicts = dicts[:1]
    d = next(d for d in dicts if d['prog'] == prog)
    leaf = not any(e['prog'].startswith(prog + ' ') for e in dicts)
    opts = [other() for _ in range(rng.randint(0, 3))]
    pos = None
    positionals = []
    if rng.random() < .5:
        opts.insert(rng.randint(0, len(opts)), {'option_strings': ['--target'], 'complete': c})
    else:
        pos = {'number': 2, 'complete': c}
        if leaf and rng.random() < .6:
            pos['repeatable'] = True
        positionals = [pos]
        if rng.random() < .7:
            positionals.insert(rng.randint(0, 1), {'number': 1, 'complete': rng.choice([['command'], ['command', {'path': '/x'}], ['file'], ['none']])})
    if opts:
        d['options'] = opts
    if positionals:
        d['positionals'] = positionals
    return dicts, Where((), pos, d)


def as_yaml(value):
    """`value` as JSON, with numbers such as 1e+30 written the way YAML 1.1 knows them (1.0e+30)"""
    return re.sub(r'"(?:\\.|[^"\\])*"|(?<![.\d])\d+e[+-]\d+', lambda m: m[0] if m[0][0] == '"' else m[0].replace('e', '.0e'),
                  json.dumps(value))


def accepted_yaml(dicts):
    """does the YAML file pass? -> True/False"""
    y = real('yaml_source')
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'f.yaml')
        with open(f, 'w') as fh:
            fh.write('\n---\n'.join(map(as_yaml, dicts)))
        try:
            with quiet():
                y.load_from_file(f)
            return True
        except real('errors').CrazyError:
            return False


def accepted_objects(dicts):
    """does a command line made of objects pass?"""
    try:
        with quiet():
            real('generation').enhance_commandline(commandline(dicts), config())
        return True
    except real('errors').CrazyError:
        return False


def compare(b, name, dicts, want, c, bad):
    for how, f in (('yaml', accepted_yaml), ('objects', accepted_objects)):
        try:
            got = f(dicts)
        except RecursionError:
            raise
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, e)
        if got != want:
            sig = '%s:%s:%s' % (name, how, 'accepted' if got is True else 'rejected' if got is False else 'crash')
            if sig not in bad:
                bad.add(sig)
                b.fail(sig, '%s definition with the completer %r is %s%s' % (
                    'valid' if want else 'invalid', c, 'accepted' if got is True else 'rejected' if got is False else 'answered with ' + got,
                    ' (%s)' % how), definition=dicts)


def random_definitions(b):
    rng = b.rng
    b.begin('random completers', 'random completers of all kinds with 0-3 mutations on options and positionals in trees of commands, as YAML file and as objects')
    bad = set()
    for _ in range(12000 if b.thorough() else 2500):
        cat = iter('abcdefghijk')
        c = gen.completer(rng, ['text', 'é', ''], depth=rng.choice([0, 1, 2, 3]))
        fresh = lambda: gen.completer(rng, ['t'], depth=1)
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
            c = mutate(rng, c, fresh)
        if rng.random() < .06:
            c = ['command_arg']
        if not isinstance(c, list) or not no_surprise(c):
            continue
        dicts, where = definitions(rng, c, cat)
        want = valid(c, where)
        if want is None:
            continue
        if any(valid(o['complete'], Where((), None, where.definition)) is not True for d in dicts for o in d.get('options', []) if o['complete'] is not c):
            continue
        if where.positional is not None and where.positional.get('repeatable') and len(dicts) > 1 and any(e['prog'].startswith(where.definition['prog'] + ' ') for e in dicts):
            continue
        b.case(key=(json.dumps(dicts),))
        compare(b, 'random', dicts, want, c, bad)


def systematic(b):
    b.begin('nestings', 'every completer in every container (two levels) and with 0-4 arguments of every kind')
    rng = b.rng
    bad = set()
    wrap = [lambda x: x, lambda x: ['list', x], lambda x: ['prefix', 'p', x], lambda x: ['combine', [['user'], x]], lambda x: ['combine', [x, ['user']]],
            lambda x: ['key_value_pair', '=', [['k', None, x]]], lambda x: ['key_value_list', ',', '=', [['a', None, None], ['k', 'd', x]]]]
    cs = []
    base = {}
    while set(base) != set(SPEC) - {'command_arg'}:
        c = gen.completer(rng, ['t'], depth=1)
        if valid(c, Where((), None, {})):
            base[c[0]] = c
    base['command_arg'] = ['command_arg']
    for c in base.values():
        for f in wrap:
            for g in wrap:
                cs.append(f(g(c)))
        for junk in JUNK:
            cs.append(c + [junk])
            for i in range(1, len(c)):
                cs.append(c[:i] + [junk] + c[i + 1:])
            for i in range(1, len(c)):
                if isinstance(c[i], dict):
                    for k in c[i]:
                        cs.append(c[:i] + [{**c[i], k: junk}] + c[i + 1:])
        for i in range(1, len(c)):
            cs.append(c[:i])
            cs.append(c[:i] + c[i + 1:])
    if not b.thorough():
        cs = rng.sample(cs, min(len(cs), 1500))
    for c in cs:
        if not no_surprise(c):
            continue
        dicts, where = definitions(rng, c, iter('abcdefghijk'))
        want = valid(c, where)
        if want is None or not isinstance(c, list):
            continue
        if where.positional is not None and where.positional.get('repeatable') and len(dicts) > 1 and any(e['prog'].startswith(where.definition['prog'] + ' ') for e in dicts):
            continue
        b.case(key=(json.dumps(dicts),))
        compare(b, 'nesting', dicts, want, c, bad)


BOUNDED = [systematic, random_definitions]
