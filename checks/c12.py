"""C12: bad input ends in a clear error, and output files are replaced completely or not at all."""
import copy
import datetime
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import traceback

import yaml

from pydv import instrument, vc
from checks import gen
from checks.common import quiet, real
from pydv.instrument import REPO
from checks.c11 import JUNK, at, mutate, put, spots

app = instrument.mod('application')
sv = instrument.mod('scheme_validator')
ds = instrument.mod('dictionary_source')
V = instrument.mod('value_with_trace').ValueWithTrace
CrazyError = instrument.mod('errors').CrazyError
RULE = ('mutations of random definitions (junk values of every type at every place, missing, additional and duplicated parts), mutations of the '
        'text of YAML, JSON and help files (tokens, bytes, truncation, encodings), and command lines with valid and invalid switches; the '
        'crazy-complete script is run with each')
TRUSTED = ['argparse, json, PyYAML: the exceptions they raise are those the bounded part meets']
ASSUMPTIONS = ['the file system accepts what is written (a full disk leaves a part of the output)', 'python definition files are programs of their own: they may print, exit or raise what is not an Exception']


# ---------------------------------------------------------------- contracts

class Opts:
    pass


def generation(v):
    """generate: the output of the right generator is written once, as the last step, to the right file - and not at all if anything fails"""
    v.covers('application.generate')
    log = []
    steps = ['load', 'convert', 'config', 'path']
    failing = v.choose('failing', [None] + steps)

    def step(name, result):
        def f(*a):
            if name == failing:
                raise CrazyError(name)
            log.append((name, a))
            return result
        return f
    cmd = Opts()
    cmd.prog = v.str('prog')
    texts = {s: v.str('text_' + s) for s in ('json', 'yaml', 'bash', 'fish', 'zsh', 'help')}
    v.patch(app, 'load_definition_file', step('load', cmd))
    v.patch(app.json_source, 'commandline_to_json', step('convert', texts['json']))
    v.patch(app.yaml_source, 'commandline_to_yaml', step('convert', texts['yaml']))
    v.patch(app.help_converter, 'from_file_to_yaml', step('convert', texts['help']))
    for shell in ('bash', 'fish', 'zsh'):
        v.patch(getattr(app, shell), 'generate_completion', step('convert', texts[shell]))
        v.patch(app.paths, 'get_%s_completion_file' % shell, step('path', 'path ' + shell))
    v.patch(app, '_get_config_from_options', step('config', 'conf'))
    v.patch(app, 'write_string_to_file', lambda s, f: log.append(('write', s, f)))
    v.patch(app.utils, 'print_err', lambda *a: None)
    v.patch(app.os, 'remove', lambda f: log.append(('remove', f)))
    o = Opts()
    o.shell = v.choose('shell', ['bash', 'fish', 'zsh', 'json', 'yaml'])
    o.input_type = v.choose('input_type', ['auto', 'yaml', 'json', 'python', 'help'])
    o.definition_file = 'def'
    o.output_file = v.choose('output', [None, 'out'])
    o.install_system_wide = v.choose('install', [False, True])
    o.uninstall_system_wide = v.choose('uninstall', [False, True]) if not o.install_system_wide else False
    shell = o.shell in ('bash', 'fish', 'zsh')
    try:
        app.generate(o)
        failed = False
    except CrazyError:
        failed = True
    effects = [e for e in log if e[0] in ('write', 'remove')]
    systemwide = shell and (o.install_system_wide or o.uninstall_system_wide)
    is_help = o.input_type == 'help'
    must_fail = (is_help and o.shell != 'yaml') or failing == 'convert' or (not is_help and failing == 'load') or \
        (not is_help and shell and failing == 'config') or (systemwide and not is_help and failing == 'path')
    v.prove(failed == must_fail, 'fails exactly if a step fails')
    if failed:
        v.prove(effects == [], 'nothing is written when a step fails')
        return
    v.prove(len(effects) == 1 and log[-1] is effects[0], 'written once, at the end')
    if is_help:
        v.prove(effects[0][0] == 'write' and effects[0][2] == o.output_file, 'written to the destination')
        v.same(effects[0][1], texts['help'], 'the converted help')
    elif systemwide and o.uninstall_system_wide:
        v.prove(effects[0] == ('remove', 'path ' + o.shell), 'the file of the shell is removed')
    elif systemwide:
        v.prove(effects[0][0] == 'write' and effects[0][2] == 'path ' + o.shell, 'installed')
        v.same(effects[0][1], texts[o.shell], 'the generated script')
    else:
        v.prove(effects[0][0] == 'write' and effects[0][2] == o.output_file, 'written to the destination')
        v.same(effects[0][1], texts[o.shell], 'the output of the generator')


generation.timeout = 600


class Unencodable(Exception):
    pass


def writing(v):
    """write_string_to_file: a file is not opened for writing before its contents are known to be encodable, and gets exactly the contents"""
    v.covers('application.write_string_to_file')
    good = v.choose('encodable', [True, False])
    dest = v.choose('file', ['out', None])
    log = []

    class Text:
        def encode(self, *a, **k):
            if not good:
                raise Unencodable()
            return Data()

    class Data:
        pass

    class Handle:
        def __init__(self, binary):
            self.binary = binary

        def write(self, x):
            if isinstance(x, Text):
                x.encode()
            log.append(('write', isinstance(x, Data) == self.binary))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            log.append(('close',))

        def close(self):
            log.append(('close',))

    def fake_open(file, mode='r', *a, **k):
        log.append(('open', file, mode))
        return Handle('b' in mode)

    def fake_print(x, *a, **k):
        if isinstance(x, Text):
            x.encode()
        log.append(('print', isinstance(x, Text)))
    app.open, app.print = fake_open, fake_print
    try:
        app.write_string_to_file(Text(), dest)
        failed = False
    except Unencodable:
        failed = True
    finally:
        del app.open, app.print
    v.prove(failed == (not good), 'fails exactly if the contents cannot be encoded')
    if failed:
        v.prove(not any(e[0] == 'open' and e[2][0] in 'wax+' for e in log), 'an existing file is left alone')
    elif dest is None:
        v.prove(log == [('print', True)], 'printed')
    else:
        v.prove([e[0] for e in log] == ['open', 'write', 'close'] and log[0][1] == 'out' and log[1][1], 'written to the file')


SHAPES = [None, True, 5, -1, 1.5, float('inf'), 'text', '', [], ['a'], [['a']], {}, {'a': 1}]


def _wrap(x):
    if isinstance(x, list):
        return V([_wrap(i) for i in x], 'src', 1, 1)
    if isinstance(x, dict):
        return V({_wrap(k): _wrap(i) for k, i in x.items()}, 'src', 1, 1)
    return V(x, 'src', 1, 1)


def _outcome(f, *a):
    """'ok', 'error' for an error of crazy-complete, else the name of the exception"""
    try:
        f(*a)
        return 'ok'
    except CrazyError:
        return 'error'
    except (AttributeError, KeyError, IndexError, TypeError, ValueError, OverflowError, AssertionError) as e:
        return type(e).__name__


def options_of_any_shape(v):
    """checking an option whose parts have any type either succeeds or raises an error of crazy-complete"""
    v.covers('scheme_validator._check_option', 'scheme_validator._check_option0', 'scheme_validator._check_dictionary', 'scheme_validator._check_type')
    if v.choose('dictionary', [True, False]):
        key = v.choose('key', ['option_strings', 'metavar', 'help', 'optional_arg', 'group', 'groups', 'repeatable', 'final', 'hidden', 'nosort', 'complete',
                               'when', 'capture', 'long_opt_arg_sep', 'unknown'])
        o = {'option_strings': ['--x']}
        o[key] = v.choose('value', SHAPES)
        if v.choose('incomplete', [False, True]) and key != 'option_strings':
            del o['option_strings']
    else:
        o = v.choose('option', SHAPES)
    c = sv.Context()
    c.trace = []
    v.prove(_outcome(sv._check_option, c, _wrap(o)) in ('ok', 'error'), 'no other exception')


def positionals_of_any_shape(v):
    """checking a positional whose parts have any type either succeeds or raises an error of crazy-complete"""
    v.covers('scheme_validator._check_positional', 'scheme_validator._check_positional0', 'scheme_validator._check_dictionary')
    if v.choose('dictionary', [True, False]):
        p = {'number': v.int('number')}
        k1 = v.choose('key', ['number', 'metavar', 'help', 'repeatable', 'nosort', 'complete', 'when', 'capture', 'unknown'])
        p[k1] = v.choose('value', SHAPES)
        if v.choose('incomplete', [False, True]) and k1 != 'number':
            del p['number']
    else:
        p = v.choose('positional', SHAPES)
    c = sv.Context()
    c.trace = []
    v.prove(_outcome(sv._check_positional, c, _wrap(p)) in ('ok', 'error'), 'no other exception')


def siblings_of_any_shape(v):
    """looking for the command of command_arg copes with other positionals of any shape"""
    v.covers('scheme_validator._check_command_arg')
    n = v.int('number')
    me = _wrap({'number': n, 'repeatable': True, 'complete': ['command_arg']})
    if v.choose('dictionary', [True, False]):
        sib = {'number': n - 1, 'complete': ['command']}
        sib[v.choose('key', ['number', 'complete'])] = v.choose('value', SHAPES)
        missing = v.choose('missing', [None, 'number', 'complete'])
        if missing:
            del sib[missing]
    else:
        sib = v.choose('sibling', SHAPES)
    c = sv.Context()
    c.trace = []
    c.type = c.TYPE_POSITIONAL
    c.positional = me
    both = [_wrap(sib), me]
    c.definition = V({V('positionals', 's', 1, 1): V(both if v.choose('order', [0, 1]) else both[::-1], 's', 1, 1)}, 's', 1, 1)
    a = sv.Arguments(_wrap(['command_arg']))
    a.get_required_arg('command')
    v.prove(_outcome(sv._check_command_arg, c, a) in ('ok', 'error'), 'no other exception')


def trees_of_any_shape(v):
    """building the tree of commands copes with documents of any shape"""
    v.covers('scheme_validator.DefinitionTree.add_definition', 'scheme_validator.validate', 'scheme_validator._check_commandline_definition')
    if v.choose('dictionary', [True, False]):
        d = {'prog': 'x'}
        k1 = v.choose('key', ['prog', 'help', 'aliases', 'wraps', 'abbreviate_commands', 'options', 'positionals', 'unknown'])
        d[k1] = v.choose('value', SHAPES)
        if v.choose('incomplete', [False, True]) and k1 != 'prog':
            del d['prog']
    else:
        d = v.choose('document', SHAPES)
    docs = [_wrap(d)]
    if v.choose('second', [False, True]):
        docs.insert(v.choose('place', [0, 1]), _wrap({'prog': 'x sub'}))
    v.prove(_outcome(sv.validate, docs) in ('ok', 'error'), 'no other exception')


def dictionaries_of_any_shape(v):
    """converting dictionaries of any shape (JSON files, library users) either succeeds or raises an error of crazy-complete"""
    v.covers('dictionary_source.dictionaries_to_commandline', 'dictionary_source.dictionary_to_commandline', 'dictionary_source._validate_keys',
             'dictionary_source._check_prog_in_dictionary', 'compat.fix_commandline_dictionaries')
    v.patch(ds, 'deepcopy', lambda x: x)
    where = v.choose('where', ['all', 'document', 'key', 'option', 'positional', 'option key', 'positional key'])
    x = v.choose('value', SHAPES)
    opt, pos = {'option_strings': ['--x']}, {'number': 1}
    d = {'prog': 'x', 'options': [opt], 'positionals': [pos]}
    docs = [d]
    if where == 'all':
        docs = x
    elif where == 'document':
        docs = [d, x] if v.choose('order', [0, 1]) else [x, d]
    elif where == 'key':
        d[v.choose('key', ['prog', 'help', 'aliases', 'wraps', 'abbreviate_commands', 'abbreviate_options', 'inherit_options', 'options', 'positionals', 'unknown'])] = x
    elif where == 'option':
        d['options'] = [opt, x]
    elif where == 'positional':
        d['positionals'] = [pos, x]
    elif where == 'option key':
        opt[v.choose('key', ['option_strings', 'metavar', 'help', 'optional_arg', 'group', 'groups', 'repeatable', 'final', 'hidden', 'complete', 'nosort',
                             'when', 'capture', 'long_opt_arg_sep', 'unknown'])] = x
    else:
        pos[v.choose('key', ['number', 'metavar', 'help', 'repeatable', 'complete', 'nosort', 'when', 'capture', 'unknown'])] = x
    with quiet():
        v.prove(_outcome(ds.dictionaries_to_commandline, docs) in ('ok', 'error'), 'no other exception')


CONTRACTS = [generation, writing, options_of_any_shape, positionals_of_any_shape, siblings_of_any_shape, trees_of_any_shape, dictionaries_of_any_shape]

# ----------------------------------------------------------------- the script

_CODE = compile(open(REPO + '/crazy-complete').read(), REPO + '/crazy-complete', 'exec')


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def problem(self, debug=False):
        if self.rc == 'uncaught' or self.rc == 3:
            return 'traceback: ' + crash(self.err)
        if 'Traceback (most recent call last)' in self.err and not debug:
            return 'traceback printed: ' + crash(self.err)
        if self.rc not in (0, 1, 2):
            return 'exit status %r' % (self.rc,)
        if self.rc != 0 and not self.err.strip():
            return 'no error message'
        return None


def crash(err):
    lines = [l for l in err.split('\n') if l.strip() and not l.startswith('!!!')]
    files = [l.strip() for l in lines if l.strip().startswith('File "')]
    where = [l for l in files if '/crazy' in l] or files or ['']
    w = where[-1].split(', ')
    return '%s in %s %s' % (lines[-1][:100] if lines else '', os.path.basename(w[0].strip('File "')), w[-1])


class Stdout(io.BytesIO):
    def fileno(self):
        return 0        # /dev/null

    def close(self):
        pass


def run(args, stub_paths=None):
    """run the script in this process"""
    real('application')
    paths = real('paths')
    saved = sys.argv, sys.stdout, sys.stderr, {n: getattr(paths, n) for n in vars(paths) if n.endswith('_completion_file')}
    out = Stdout()
    sys.argv = ['crazy-complete'] + list(args)
    sys.stdout = io.TextIOWrapper(out, 'utf-8', write_through=True)
    sys.stderr = err = io.StringIO()
    for n in saved[3]:
        # never touch the completion directories of the system
        setattr(paths, n, lambda prog: stub_paths or '/nonexistent/completions')
    try:
        exec(_CODE, {'__name__': '__main__', '__file__': _CODE.co_filename})
        rc = 0
    except SystemExit as e:
        rc = 0 if e.code is None else e.code
    except BaseException:
        rc = 'uncaught'
        traceback.print_exc(file=err)
    finally:
        try:
            sys.stdout.flush()
        except Exception:
            rc = 'flush'
        data = out.getvalue()
        sys.argv, sys.stdout, sys.stderr = saved[:3]
        for n, f in saved[3].items():
            setattr(paths, n, f)
    return Result(rc, data, err.getvalue())


class Case:
    """one scratch directory with an existing output file"""

    OLD = b'previous contents of the output file\n' * 100

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='c12.')
        self.out = self.dir + '/out'

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, name, data):
        with open(self.dir + '/' + name, 'wb') as fh:
            fh.write(data if isinstance(data, bytes) else data.encode('utf-8', 'surrogatepass'))
        return self.dir + '/' + name

    def check(self, b, label, args, file, data, switch='-o'):
        """the three requirements for one invocation"""
        self.write('out', self.OLD)
        extra = [switch] if switch != '-o' else ['-o', self.out]
        r = run(args + [file] + extra, self.out)
        b.case(key=(label, tuple(args), data))
        info = dict(args=args, file=os.path.basename(file), content=repr(data)[:1500], stderr=r.err[-700:], exit=r.rc)
        p = r.problem()
        if p and os.environ.get('C12_ALL'):
            SEEN.setdefault(p, []).append((args, data))
        if p:
            b.fail(p, '%s: %s' % (label, p), **info)
            return r
        after = open(self.out, 'rb').read()
        if r.rc != 0:
            if after != self.OLD:
                b.fail('output changed on error', '%s: the run failed, but the output file was changed' % label, **info)
            if r.out:
                b.fail('stdout on error', '%s: the run failed, but something was printed on stdout' % label, **info)
            return r
        plain = run(args + [file])
        if plain.rc != 0:
            b.fail('differs to stdout', '%s: succeeds with %s only' % (label, switch), **info)
        elif plain.out != after + b'\n':
            b.fail('output incomplete', '%s: the output file differs from what is printed' % label, **info)
        elif not after.strip() or after == self.OLD:
            b.fail('no output', '%s: the run succeeded without output' % label, **info)
        return r


SEEN = {}
SHELLS = ['bash', 'fish', 'zsh', 'json', 'yaml']

# ----------------------------------------------------- mutated definitions

KEYS = ['prog', 'help', 'aliases', 'wraps', 'abbreviate_commands', 'abbreviate_options', 'inherit_options', 'options', 'positionals',
        'option_strings', 'metavar', 'optional_arg', 'group', 'groups', 'repeatable', 'final', 'hidden', 'complete', 'nosort', 'when',
        'capture', 'long_opt_arg_sep', 'number', 'unknown']

VALUES = [None, True, False, 0, 1, -1, 2 ** 70, 1.5, 1e300, float('inf'), float('nan'), '', ' ', 'x', 'a b', 'a\nb', '\x00', '\ud800', '\x1b[0m',
          'INHERIT', '%defines%', '-', '--', '--x', '-x', '--x=1', '/', '../x', 'prog', [], {}, [[]], [{}], {'': ''}, [None], [1], ['x'], ['--x'],
          ['file'], ['choices', ['a']], ['list', ['file']], ['command_arg'], ['none'], {'x': 'y'}, {'prog': 'x'}, {'1': [2]}, [['x'], {'y': 1}],
          ['-x', '-x'], ['x'] * 3, 'option_is', 'option_is -x --', '(', '[', '\\', '$(x)', 'é', '\U0001f600', '2001-01-01', '1e5', 'null', 'on']

YAML_VALUES = [datetime.date(2001, 1, 1), datetime.datetime(2001, 1, 1, 1, 1), b'\xff', {1, 2}, {1: 2}, {None: 1}, {True: [1]}, {('a', 'b'): 1}]


def mutate_definition(rng, dicts, yaml_only):
    d = copy.deepcopy(dicts)
    values = VALUES + JUNK + (YAML_VALUES if yaml_only else [])
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        places = list(spots(d))
        path = rng.choice(places)
        k = rng.randrange(9)
        new = copy.deepcopy(rng.choice(values))
        old = at(d, path)
        if k <= 2:
            pass
        elif k == 3:
            new = [old]
        elif k == 4 and isinstance(old, list) and old:
            new = list(old)
            rng.choice([lambda: new.pop(rng.randrange(len(new))), lambda: new.append(copy.deepcopy(rng.choice(new))),
                        lambda: new.insert(rng.randrange(len(new) + 1), copy.deepcopy(rng.choice(values)))])()
        elif k == 5 and isinstance(old, dict) and old:
            new = dict(old)
            key = rng.choice(sorted(new, key=str))
            rng.choice([lambda: new.pop(key), lambda: new.update({rng.choice(KEYS): new.pop(key)})])()
        elif k == 6 and isinstance(old, dict):
            new = dict(old)
            new[rng.choice(KEYS)] = copy.deepcopy(rng.choice(values))
        elif k == 7 and isinstance(old, (list, dict)):
            new = old[0] if isinstance(old, list) and old else list(old.values()) if isinstance(old, dict) else {str(i): x for i, x in enumerate(old)}
        elif k == 8:
            new = copy.deepcopy(at(d, rng.choice(places)))
        d = put(d, path, new) if path else new
    return d


def dump_yaml(d, rng):
    r = rng.random()
    if r < 0.7 and isinstance(d, list):
        return yaml.safe_dump_all(d, allow_unicode=rng.random() < .5, default_flow_style=rng.choice([None, True, False]))
    return yaml.safe_dump(d, allow_unicode=True)


def mutated_definitions(b):
    """random definitions with 1-3 mutations, as JSON and as YAML, for every output format"""
    b.begin('mutated definitions', 'random definitions with 1-3 mutations, as JSON and as YAML, for every output format')
    rng = b.rng
    with quiet():
        case = Case()
        try:
            for _ in range(5000 if b.thorough() else 900):
                is_yaml = rng.random() < 0.6
                d = gen.definition(rng, gen.TEXTS, rng.choice([0, 1, 2]))
                if rng.random() < 0.15:
                    d.insert(rng.randrange(len(d) + 1), {'prog': '%defines%', 'x': rng.choice(VALUES), 'INHERIT': 1})
                d = mutate_definition(rng, d, is_yaml)
                try:
                    data = dump_yaml(d, rng) if is_yaml else json.dumps(d, ensure_ascii=rng.random() < .5)
                except (yaml.YAMLError, TypeError, ValueError, UnicodeError):
                    continue
                file = case.write('def.yaml' if is_yaml else 'def.json', data)
                case.check(b, 'definition', [rng.choice(SHELLS)], file, data)
        finally:
            case.close()
    return {}


# ------------------------------------------------------------ mutated text

TOKENS = ['&a ', '*a', '!!int x', '!!float "x"', '!!bool maybe', '!!timestamp x', '!!binary "/"', '!!python/object:os.system x', '!!set {a, b}',
          '!!omap [a: 1]', '!!null x', '!!str 1', '!!map []', '!!seq {}', '!local x', '? ', '<<: ', '<<: {a: b}', '---\n', '...\n', '\t', '%YAML 1.1\n---\n',
          '%TAG ! x\n', '\x00', '\x07', '\ufeff', '\u2028', '\x85', '0x10', '0o17', '012', '1_000', '12:30:45', '2001-01-01', '2001-99-99', '.nan', '.inf',
          '1e5', '1.0e+5', '~', 'null', 'on', 'No', '{', '}', '[', ']', ',', ':', ': ', '- ', '#', '"', "'", '\\', '|', '>', '|\n  x', '@', '`', '%', '=',
          '9' * 5000, 'NaN', 'Infinity', '-Infinity', '1e999', '"\\ud800"', '"\\x"', '\\u12', '/* */', '\n', '\r', ' ', '  ', '-', '--x', '<', '[=', '=[',
          'x' * 10, '%defines%', '"prog": 1,', '[' * 3000, '{"a":' * 2000, '- ' * 1500]
BYTES = [b'\xff', b'\xc3', b'\x00', b'\xed\xa0\x80', b'\xef\xbb\xbf', b'\x80']
HELP = ['Usage: tool [OPTIONS] FILE\n\nOptions:\n  -h, --help            Show help\n  -o FILE, --output=FILE\n                        Output file\n'
        '  --color[=WHEN]  Colour (always|never)\n  --fmt {a,b,c}    Format\n  -I<dir>, --include <dir>  Include\n\nText at the end.\n',
        '  -a | --all\n    --long-only METAVAR\n', 'usage:', '-', '', 'usage: x', '\n\n', 'prog -x\n-x', '--opt=', '-o "quoted', '--opt [', '--x, ', '--x [=']


def mutate_text(rng, text):
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        i = rng.randrange(len(text) + 1)
        j = min(len(text), i + rng.choice([0, 1, 1, 3, 20]))
        k = rng.randrange(6)
        if k == 0:
            text = text[:i] + text[j:]
        elif k <= 3:
            text = text[:i] + rng.choice(TOKENS) + text[j:]
        elif k == 4:
            text = text[:i]
        else:
            p = text.find(rng.choice([': ', ', ', '\n', '"']), i)
            if p >= 0:
                text = text[:p + 2] + rng.choice(TOKENS) + text[p + 2:]
    data = text.encode('utf-8', 'surrogatepass')
    r = rng.random()
    if r < 0.08:
        i = rng.randrange(len(data) + 1)
        data = data[:i] + rng.choice(BYTES) + data[i:]
    elif r < 0.1:
        data = text.encode(rng.choice(['utf-16', 'utf-32']), 'replace')
    elif r < 0.12:
        data = bytes(rng.randrange(256) for _ in range(rng.randrange(200)))
    return data


def mutated_texts(b):
    """YAML, JSON and help files with random edits of their text"""
    b.begin('mutated texts', 'YAML, JSON and help files with random edits of their text, and every odd token at typical places')
    rng = b.rng
    with quiet():
        case = Case()
        try:
            for _ in range(6000 if b.thorough() else 1100):
                kind = rng.choice(['yaml', 'yaml', 'json', 'help'])
                d = gen.definition(rng, gen.TEXTS, rng.choice([0, 1]))
                if kind == 'help':
                    data = mutate_text(rng, rng.choice(HELP))
                elif kind == 'yaml':
                    data = mutate_text(rng, dump_yaml(d, rng))
                else:
                    data = mutate_text(rng, json.dumps(d))
                file = case.write('def.' + kind, data)
                args = ['yaml', '--input-type=help'] if kind == 'help' else [rng.choice(SHELLS)]
                case.check(b, kind + ' text', args, file, data)
            for token in TOKENS:
                for text in ('%s', 'prog: %s\n', 'prog: x\nhelp: %s\n', 'prog: x\noptions:\n- option_strings: [--x]\n  complete: [choices, [%s]]\n',
                             'prog: x\noptions: %s\n', 'prog: x\npositionals:\n- {number: 1, repeatable: %s}\n', '%s: x\n', '[%s]',
                             'prog: x\npositionals:\n- {number: %s, complete: [range, %s, 5]}\n'):
                    data = (text.replace('%s', token)).encode('utf-8', 'surrogatepass')
                    case.check(b, 'yaml token', ['bash'], case.write('t.yaml', data), data)
                for text in ('%s', '[{"prog": %s}]', '[{"prog": "x", "options": [{"option_strings": ["--x"], "complete": ["choices", [%s]]}]}]',
                             '[{"prog": "x", "positionals": [{"number": 1, "complete": ["range", 1, %s]}]}]'):
                    data = (text.replace('%s', token)).encode('utf-8', 'surrogatepass')
                    case.check(b, 'json token', ['fish'], case.write('t.json', data), data)
                for text in ('%s', '--x %s\n', '--x=%s desc', 'usage: %s\n\n  -a', '-%s'):
                    data = (text.replace('%s', token)).encode('utf-8', 'surrogatepass')
                    case.check(b, 'help token', ['yaml', '--input-type=help'], case.write('t.txt', data), data)
        finally:
            case.close()
    return {}


# -------------------------------------------------------------- switches

BOOLS = ['true', 'False', 'TRUE', 'yes', '', '1', 'tru e']
SWITCHES = {'--parser-variable': ['p', ''], '--input-type': ['yaml', 'json', 'python', 'help', 'auto', 'xml', ''],
            '--long-option-argument-separator': ['space', 'equals', 'both', 'none', ''],
            '--disable': ['hidden', 'final,groups', 'hidden,final,groups,repeatable,when', '', ',', 'x'], '--bash-completions-version': ['2', '2.12', '', 'x', '2.', '-1', '٣'],
            '--include-file': ['INC', 'DIR', '/nonexistent/x', '', 'BIN'], '--comment': ['text', '', 'two\nlines', '# x', '\udcff', 'é'],
            '--max-line-length': ['80', '1', '0', '-5', 'x', '', '9' * 5000, '1e3'],
            '--function-prefix': ['_$PROG', 'x', '', 'a b', '$PROG', '$', '-', "'", '/', 'é', '$PROG$PROG'], '--manual': ['topic', 'file', 'all', ''],
            '--batch': ['BATCH0', 'BATCH1', 'BATCH2', 'DIR', '/nonexistent/x', 'BIN', '']}
for _s in ('--abbreviate-commands', '--abbreviate-options', '--repeatable-options', '--inherit-options', '--option-stacking', '--vim-modeline',
           '--zsh-compdef', '--fish-inline-conditions'):
    SWITCHES[_s] = BOOLS
FLAGS = ['--debug', '--keep-comments', '-x', '--unknown', '-h', '--version', '--', '']
RARE = ('--manual', '--batch', '-h', '--version')
OUTPUTS = [['-o', 'OUT'], ['-o', 'OUT'], ['-i'], ['-u'], ['-o', 'DIR'], ['-o', '/nonexistent/dir/x'], ['-o', ''], ['-i', '-o', 'OUT'], ['-i', '-u'], []]


def switches(b):
    """random command lines with valid and invalid switches, kinds of files and destinations"""
    b.begin('switches', 'random command lines with valid and invalid switches, kinds of files and destinations, batch files, and the manual')
    rng = b.rng
    with quiet():
        case = Case()
        try:
            files = {'good.yaml': 'prog: tool\noptions:\n- option_strings: [-a, --all]\n  complete: [file]\n', 'good.json': '[{"prog": "tool"}]',
                     'good': 'prog: tool', 'upper.YML': 'prog: tool', 'bad.yaml': 'prog: [', 'bad.json': '{', 'empty.yaml': '', 'empty.json': '', 'x.py': 'import sys\n',
                     'x.txt': '  -h  help\n', 'INC': 'included\n', 'BIN': b'\xff\xfe', 'BATCH0': '# comment\n\nbash good.yaml -o OUT2\n',
                     'BATCH1': 'bash "good.yaml\n', 'BATCH2': 'bash good.yaml -o OUT2\nbash bad.yaml -o OUT2\n', 'uni\u00e9.yaml': 'prog: "t\u00e9"\n',
                     'slash.yaml': 'prog: a/b\n', 'sur.json': '[{"prog": "x", "help": "\\ud800"}]'}
            for n, c in files.items():
                if n.startswith('BATCH'):
                    c = c.replace('good.yaml', case.dir + '/good.yaml').replace('bad.yaml', case.dir + '/bad.yaml').replace('OUT2', case.dir + '/OUT2')
                case.write(n, c)
            os.mkdir(case.dir + '/DIR')
            os.mkdir(case.dir + '/DIR.yaml')
            names = list(files) + ['DIR', 'DIR.yaml', 'missing.yaml', '', '\udcff.yaml', '\udcff']

            def expand(x):
                if x in ('INC', 'DIR', 'BIN', 'BATCH0', 'BATCH1', 'BATCH2', 'OUT'):
                    return case.dir + '/' + ('out' if x == 'OUT' else x)
                return x

            for n in range(4000 if b.thorough() else 900):
                args = [rng.choice(SHELLS + ['ksh'] * (rng.random() < .1))]
                name = rng.choice(names[:4]) if rng.random() < .5 else rng.choice(names)
                args.append(case.dir + '/' + name if name else '')
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    s = rng.choice(sorted(SWITCHES) + FLAGS)
                    if s in RARE and rng.random() < .8:
                        continue
                    at_ = rng.randrange(len(args) + 1)
                    if s in SWITCHES:
                        v = expand(rng.choice(SWITCHES[s]))
                        args[at_:at_] = rng.choice([[s, v], [s + '=' + v], [s, v], [s, v], [s]])
                    else:
                        args.insert(at_, s)
                if '--input-type=python' in args or 'python' in args:
                    continue
                dest = [expand(x) for x in rng.choice(OUTPUTS)]
                case.write('out', case.OLD)
                r = run(args + dest, case.out)
                b.case(key=(tuple(args), tuple(dest)))
                info = dict(args=args + dest, stderr=r.err[-700:], exit=r.rc, stdout=repr(r.out[:200]))
                p = r.problem('--debug' in args)
                after = open(case.out, 'rb').read() if os.path.exists(case.out) else None
                if p:
                    if os.environ.get('C12_ALL'):
                        SEEN.setdefault(p, []).append((args + dest, b''))
                    b.fail(p, 'switches: %s' % p, **info)
                elif r.rc != 0 and (after != case.OLD or r.out):
                    b.fail('written on error', 'switches: the run failed, but something was written', **info)
                elif r.rc == 0 and not r.out and after == case.OLD and not (any('--batch' in a for a in args)):
                    b.fail('no output', 'switches: the run succeeded without output', **info)
                elif r.rc == 0 and after is None and '-u' not in dest:
                    b.fail('removed', 'switches: the output file was removed', **info)
                elif r.rc == 0 and after is not None and after != case.OLD and r.out:
                    b.fail('written twice', 'switches: written to the file and to stdout', **info)
        finally:
            case.close()


PYTHON = {'good': 'import argparse\np = argparse.ArgumentParser("tool")\np.add_argument("--x")\n', 'syntax': 'x = (\n', 'raises': 'raise ValueError("x")\n',
          'exits': 'import sys\nsys.exit(0)\n', 'exits_with_parser': 'import argparse, sys\np = argparse.ArgumentParser("tool")\nsys.exit(0)\n',
          'no_parser': 'x = 1\n', 'two': 'import argparse\na = argparse.ArgumentParser("a")\nb = argparse.ArgumentParser("b")\n', 'empty': '',
          'binary': b'\xff\xfe\x00', 'null': 'x = 1\x00', 'import': 'import nonexistent_module_x\n', 'assert': 'assert False\n',
          'recursion': 'def f(): f()\nf()\n', 'os': 'open("/nonexistent/x")\n'}


def python_files(b):
    """python files: correct ones, without or with several parsers, that raise, exit, or can't be compiled"""
    b.begin('python files', 'python files: correct ones, without or with several parsers, that raise, exit, or cannot be compiled, in a process of their own')
    case = Case()
    try:
        for name, text in sorted(PYTHON.items()):
            for var in (None, 'p', 'argparse', 'unknown'):
                case.write('out', case.OLD)
                args = ['bash', '--input-type=python', case.write('t_%s.py' % name, text), '-o', case.out] + (['--parser-variable', var] if var else [])
                p = subprocess.run([sys.executable, '-B', REPO + '/crazy-complete'] + args, capture_output=True, timeout=120, cwd=case.dir)
                r = Result(p.returncode, p.stdout, p.stderr.decode())
                b.case(key=(name, var))
                after = open(case.out, 'rb').read()
                info = dict(content=repr(text), args=args, stderr=r.err[-700:], exit=r.rc)
                if r.problem():
                    b.fail(name + ' ' + r.problem(), 'python file %s: %s' % (name, r.problem()), **info)
                elif (r.rc != 0) != (after == case.OLD) or r.out:
                    b.fail('written ' + name, 'python file %s: exit status %s, output written: %s' % (name, r.rc, after != case.OLD), **info)
                elif r.rc and name in ('good', 'exits_with_parser') and var in (None, 'p'):
                    b.fail('rejected ' + name, 'python file %s was rejected' % name, **info)
    finally:
        case.close()


def unwrap(x):
    x = x.value
    if isinstance(x, list):
        return [unwrap(i) for i in x]
    if isinstance(x, dict):
        return {unwrap(k): unwrap(y) for k, y in x.items()}
    return x


def parsers_agree(b):
    """what is validated is what is used: both YAML parsers return the same"""
    b.begin('parsers agree', 'YAML texts with random edits and every odd scalar: the validating parser returns what the loading one does, or rejects the text')
    rng = b.rng
    E = real('extended_yaml_parser').ExtendedYAMLParser
    err = real('errors').CrazyError
    texts = []
    for t in TOKENS:
        texts += [p.replace('%s', t) for p in ('%s', 'a: %s', '- %s', '{x: %s, %s: y}', '[%s, [%s]]', 'a\n---\nb: %s\n', '? %s\n: x', '---\n%s\n---\nx: y', '"%s"', 'a: !!str %s')]
    for _ in range(6000 if b.thorough() else 1500):
        t = dump_yaml(gen.definition(rng, gen.TEXTS, rng.choice([0, 1])), rng)
        texts.append(mutate_text(rng, t[:rng.choice([50, 300, 10000])]).decode('utf-8', 'replace'))
    for t in texts:
        if len(t) > 20000:
            continue
        try:
            want = list(yaml.safe_load_all(t))
        except (yaml.YAMLError, ValueError, TypeError, LookupError, AttributeError, RecursionError):
            continue
        b.case(key=t)
        try:
            got = [unwrap(x) for x in E().parse(t)]
        except (err, yaml.YAMLError):
            continue
        except TypeError as e:
            if 'unhashable' in str(e):
                continue
            raise
        if any(w in t for w in ('!!set', '!!omap', '!!pairs', '<<', '!!map', '!!seq')):
            continue
        if repr(got) != repr(want):
            b.fail('parsers differ', 'the validating YAML parser reads another value than the loading one', text=t[:800], loaded=repr(want)[:500], validated=repr(got)[:500])


BOUNDED = [mutated_definitions, mutated_texts, switches, python_files, parsers_agree]
