"""C04: explicit settings win over the configuration, INHERIT follows it, disabled features vanish."""
import copy
import itertools
import os
import sys
import types

from pydv import instrument, vc
from . import gen, shells
from .c02 import OPTION, POSITIONAL, COMMAND, make_object
from .c03 import text_diff
from .common import SHELLS, commandline, config, generate, quiet, real

generation = instrument.mod('generation')
cli = instrument.mod('cli')
cfg = instrument.mod('config')

RULE = ('settings x configurations x random definitions; a case is one generated script compared with the script of the '
        'definition in which every setting is written out')
ASSUMPTIONS = ['CommandLine.copy and the validation are used by contract (C03, C11)']

CMD = ('abbreviate_commands', 'abbreviate_options', 'inherit_options')
SEPS = ('space', 'equals', 'both')


def sym_config(v):
    c = object.__new__(cfg.Config)
    for k, x in cfg.Config().__dict__.items():
        setattr(c, k, v.bool('config.' + k) if isinstance(x, bool) else x)
    c.long_opt_arg_sep = v.choose('config.long_opt_arg_sep', list(SEPS))
    return c


def follow(v, got, explicit, from_config, name):
    """got is the explicit value, or the value of the configuration if that is INHERIT"""
    if v.holds(explicit == 'INHERIT'):
        v.same(got, from_config, name + ': INHERIT follows the configuration')
    else:
        v.same(got, explicit, name + ': an explicit value wins')


def setup(v):
    # by contract: copy() returns an equal command line (C03), validation changes nothing
    v.patch(generation.completion_validator, 'validate_commandlines', lambda c: None)
    v.patch(generation.when, 'parse_when', lambda s: ('parsed', s))
    v.patch(cli.CommandLine, 'copy', lambda self: self)


def settings_of_commands(v):
    """at every depth: abbreviate_commands, abbreviate_options and inherit_options are the explicit ones, or else those of the configuration"""
    setup(v)
    conf = sym_config(v)
    deep = v.choose('depth', [0, 1, 2])
    root = c = cli.CommandLine('p')
    for i in range(deep):
        s = cli.CommandLine('s%d' % i)
        c.add_subcommands().add_commandline_object(s)
        c = s
    before = {}
    for k in CMD:
        before[k] = v.xbool(k)
        setattr(c, k, before[k])
    out = generation.enhance_commandline(root, conf)
    got = out.get_all_commandlines()[-1]
    for k in CMD:
        follow(v, getattr(got, k), before[k], getattr(conf, k), k)


def settings_of_options(v):
    """every attribute of an option after the configuration is applied: repeatable and long_opt_arg_sep are explicit or inherited, disabled features are gone, everything else is unchanged"""
    setup(v)
    conf = sym_config(v)
    c = cli.CommandLine('p')
    o = make_object(v, cli.Option, OPTION)
    o.option_strings = ['-o', '--oo']
    o.groups = v.choose('groups', [None, ['g'], []])
    o.long_opt_arg_sep = v.choose('long_opt_arg_sep', ['INHERIT'] + list(SEPS))
    o.when = v.choose('when', [None, 'has_option -x'])
    o.parent = c
    old = dict(o.__dict__)
    c.options = [o]
    got = generation.enhance_commandline(c, conf).options[0]
    follow(v, got.long_opt_arg_sep, old['long_opt_arg_sep'], conf.long_opt_arg_sep, 'long_opt_arg_sep')
    if v.holds(conf.disabled_repeatable):
        v.same(got.repeatable, True, 'disabled repeatable: every option may be repeated')
    else:
        follow(v, got.repeatable, old['repeatable'], conf.repeatable_options, 'repeatable')
    for k in ('hidden', 'final'):
        if v.holds(getattr(conf, 'disabled_' + k)):
            v.same(getattr(got, k), False, k + ' disabled')
        else:
            v.same(getattr(got, k), old[k], k + ' kept')
    if v.holds(conf.disabled_groups):
        v.prove(not got.groups, 'groups disabled')
    else:
        v.same(got.groups, old['groups'], 'groups kept')
    when_of(v, conf, got, old)
    for k in ('option_strings', 'metavar', 'help', 'optional_arg', 'complete', 'nosort', 'capture', 'parent'):
        v.prove(getattr(got, k) is old[k], k + ' is unchanged')


def when_of(v, conf, got, old):
    if v.holds(conf.disabled_when):
        v.prove(got.when is None and got.when_parsed is None, 'when disabled')
    elif old['when'] is None:
        v.prove(got.when is None and got.when_parsed is None, 'no condition appears')
    else:
        v.prove(got.when == old['when'] and list(got.when_parsed) == ['parsed', old['when']], 'the condition is kept and parsed')


def settings_of_positionals(v):
    """a positional loses its condition exactly when conditions are disabled, and keeps everything else"""
    setup(v)
    conf = sym_config(v)
    c = cli.CommandLine('p')
    o = make_object(v, cli.Positional, POSITIONAL)
    o.when = v.choose('when', [None, 'has_option -x'])
    o.parent = c
    old = dict(o.__dict__)
    c.positionals = [o]
    got = generation.enhance_commandline(c, conf).positionals[0]
    when_of(v, conf, got, old)
    for k in ('number', 'metavar', 'help', 'repeatable', 'complete', 'nosort', 'capture', 'parent'):
        v.prove(getattr(got, k) is old[k], k + ' is unchanged')


# setter -> attribute
SETTERS = {'set_debug': 'debug', 'set_abbreviate_commands': 'abbreviate_commands', 'set_abbreviate_options': 'abbreviate_options',
           'set_repeatable_options': 'repeatable_options', 'set_inherit_options': 'inherit_options',
           'set_option_stacking': 'option_stacking', 'set_vim_modeline': 'vim_modeline', 'set_zsh_compdef': 'zsh_compdef',
           'set_keep_comments': 'keep_comments', 'set_fish_inline_conditions': 'fish_inline_conditions',
           'disable_hidden': 'disabled_hidden', 'disable_final': 'disabled_final', 'disable_groups': 'disabled_groups',
           'disable_repeatable': 'disabled_repeatable', 'disable_when': 'disabled_when'}


def setters(v):
    """every setter of Config changes exactly its own setting to exactly the given value"""
    name = v.choose('setter', sorted(SETTERS))
    c = cfg.Config()
    before = dict(c.__dict__)
    x = v.bool('x')
    getattr(c, name)(x)
    for k, y in c.__dict__.items():
        if k == SETTERS[name]:
            v.prove(y is x or y == x, name + ' sets its setting')
        else:
            v.prove(y is before[k], name + ' leaves %s alone' % k)
    v.prove(set(c.__dict__) == set(before), 'no other attribute appears')


def line_length(v):
    """set_line_length keeps every positive length and means no limit otherwise"""
    c = cfg.Config()
    x = v.int('x')
    c.set_line_length(x)
    if v.holds(x > 0):
        v.same(c.line_length, x, 'a positive length is kept')
    else:
        v.prove(c.line_length >= 1000000, 'no limit')


CONTRACTS = [settings_of_commands, settings_of_options, settings_of_positionals, setters, line_length]


# ------------------------------------------------------------------ bounded

BOOLS = ('abbreviate_commands', 'abbreviate_options', 'repeatable_options', 'inherit_options')
DISABLE = ('hidden', 'final', 'groups', 'repeatable', 'when')


def written_out(dicts, conf):
    """the definition with every setting made explicit, independent of the code"""
    out = copy.deepcopy(dicts)
    for d in out:
        for k in CMD:
            if d.get(k, 'INHERIT') in ('INHERIT', None):
                d[k] = conf[k]
        for o in d.get('options') or []:
            if o.get('repeatable', 'INHERIT') in ('INHERIT', None):
                o['repeatable'] = conf['repeatable_options']
            if o.get('long_opt_arg_sep', 'INHERIT') in ('INHERIT', None):
                o['long_opt_arg_sep'] = conf['long_opt_arg_sep']
            if 'repeatable' in conf['disable']:
                o['repeatable'] = True
            for k in ('hidden', 'final', 'groups', 'when'):
                if k in conf['disable']:
                    o.pop(k, None)
            if o['repeatable'] is True and o.get('hidden') is True:
                o['hidden'] = True
                return None                # not a valid definition when written out
        for p in d.get('positionals') or []:
            if 'when' in conf['disable']:
                p.pop('when', None)
    return out


def setter_calls(conf):
    kw = {'set_' + k: conf[k] for k in BOOLS}
    kw['set_long_option_argument_separator'] = conf['long_opt_arg_sep']
    for f in conf['disable']:
        kw['disable_' + f] = True
    return kw


def opposite(conf):
    kw = {'set_' + k: not conf[k] for k in BOOLS}
    kw['set_long_option_argument_separator'] = {'space': 'equals', 'equals': 'both', 'both': 'space'}[conf['long_opt_arg_sep']]
    return kw


def random_conf(rng):
    c = {k: rng.choice([True, False]) for k in BOOLS}
    c['long_opt_arg_sep'] = rng.choice(SEPS)
    c['disable'] = [f for f in DISABLE if rng.random() < 0.25]
    return c


def settings(b):
    rng = b.rng
    n = 150 if b.thorough() else 50
    b.begin('settings written out', '%d random definitions x configurations x 3 shells' % n)
    done = 0
    while done < n:
        dicts = gen.generatable(rng)
        conf = random_conf(rng)
        w = written_out(dicts, conf)
        if w is None:
            continue
        done += 1
        for sh in SHELLS:
            b.case(key=(done, sh), sample={'configuration': conf, 'shell': sh} if done < 3 else None)
            a = generate(sh, dicts, config(**setter_calls(conf)))
            e = generate(sh, w, config(**opposite(conf)))
            if a != e:
                b.fail('settings:%s' % sh, 'the %s script with configuration %s differs from that of the definition with the settings '
                       'written out (generated with the opposite configuration): %s' % (sh, conf, text_diff(e, a)),
                       definition=dicts, configuration=conf, shell=sh)
                return


# switch -> (values, setter calls, needed shell)
def switches():
    for name, setter in (('--abbreviate-commands', 'set_abbreviate_commands'), ('--abbreviate-options', 'set_abbreviate_options'),
                         ('--repeatable-options', 'set_repeatable_options'), ('--inherit-options', 'set_inherit_options'),
                         ('--option-stacking', 'set_option_stacking'), ('--vim-modeline', 'set_vim_modeline'),
                         ('--zsh-compdef', 'set_zsh_compdef'), ('--fish-inline-conditions', 'set_fish_inline_conditions')):
        for text, val in (('True', True), ('False', False), ('true', True), ('FALSE', False)):
            yield [name, text], {setter: val}
            yield ['%s=%s' % (name, text)], {setter: val}
    for s in SEPS:
        yield ['--long-option-argument-separator', s], {'set_long_option_argument_separator': s}
    yield ['--debug'], {'set_debug': True}
    yield ['--keep-comments'], {'set_keep_comments': True}
    for n in (1, 40, 120, 0, -5):
        yield ['--max-line-length=%d' % n], {'set_line_length': n}
    for ver in ((2,), (2, 12), (2, 9), (2, 11), (3, 0), (2, 12, 1)):
        yield ['--bash-completions-version', '.'.join(map(str, ver))], {'set_bash_completions_version': ver}
    for p in ('my_$PROG', '_x', 'a_$PROG_b'):
        yield ['--function-prefix', p], {'set_function_prefix': p}
    yield ['--comment', 'a comment'], {'add_comments': ['a comment']}
    yield ['--comment', 'one', '--comment', 'two'], {'add_comments': ['one', 'two']}
    for r in range(1, 6):
        for fs in itertools.combinations(DISABLE, r):
            yield ['--disable', ','.join(fs)], {'disable_' + f: True for f in fs}


RICH = [{'prog': 'mytool', 'help': 'h', 'aliases': ['mt'], 'options': [
    {'option_strings': ['-v', '--verbose'], 'help': 'v', 'groups': ['g'], 'hidden': True},
    {'option_strings': ['-q', '--quiet-mode'], 'groups': ['g'], 'final': True},
    {'option_strings': ['-o', '--output'], 'complete': ['file'], 'repeatable': False, 'when': 'has_option -q'},
    {'option_strings': ['--input'], 'complete': ['pid'], 'optional_arg': True, 'help': 'a long help text that is longer than forty characters'},
    {'option_strings': ['-s'], 'complete': ['service'], 'capture': 'S'},
    {'option_strings': ['-old'], 'complete': ['value_list', {'values': ['one', 'two']}], 'long_opt_arg_sep': 'equals'}],
    'positionals': [{'number': 1, 'complete': ['choices', ['a', 'b']], 'when': 'has_option -q'}]},
    {'prog': 'mytool subcommand', 'options': [{'option_strings': ['--deep', '-d'], 'help': 'd', 'complete': ['user']}]},
    {'prog': 'mytool second', 'inherit_options': True, 'abbreviate_commands': False,
     'options': [{'option_strings': ['--deep', '-d'], 'help': 'd', 'complete': ['process']}]}]


def command_line(b):
    import yaml
    rng = b.rng
    app = real('application')
    b.begin('command line switches', 'every switch with every value, and random combinations, 3 shells')
    singles = list(switches())
    combos = [([], {})] + singles
    for _ in range(200 if b.thorough() else 60):
        a, k = [], {}
        for args, kw in rng.sample(singles, rng.randint(2, 5)):
            if any(x in k for x in kw) or args[0].split('=')[0] in [y.split('=')[0] for y in a]:
                continue
            a += args
            k.update(kw)
        combos.append((a, k))
    with shells.Scratch() as s:
        path = s.write('def.yaml', '\n---\n'.join(yaml.safe_dump(d, sort_keys=False) for d in RICH))
        out = os.path.join(s.dir, 'out')
        for i, (args, kw) in enumerate(combos):
            for sh in (SHELLS if i % 7 == 0 or b.thorough() else [SHELLS[i % 3]]):
                b.case(key=(tuple(args), sh))
                want = generate(sh, RICH, config(**kw))
                argv = [sh, path, '-o', out] + args if i % 2 else args + [sh, path, '-o', out]
                try:
                    with quiet():
                        a = app.Application()
                        a.parse_args(argv)
                        a.run()
                    with open(out, encoding='utf-8') as f:
                        got = f.read()
                except (Exception, SystemExit) as e:      # pylint: disable=broad-except
                    got = 'raised %s %s' % (type(e).__name__, e)
                if got != want:
                    b.fail('switch:%s' % ' '.join(args), 'crazy-complete %s: %s' % (' '.join(argv), text_diff(want, got)),
                           arguments=argv, definition=RICH)
                    return


def setters_alone(b):
    """each setter has an effect on some script: the settings are not confused with each other"""
    b.begin('setters', 'every setter against every setting')
    conf = real('config')
    for name, attr in SETTERS.items():
        for x in (True, False):
            b.case(key=(name, x))
            c = conf.Config()
            before = dict(c.__dict__)
            getattr(c, name)(x)
            d = {k: y for k, y in c.__dict__.items() if y != before.get(k)}
            if d not in ({}, {attr: x}) or (before.get(attr) != x and attr in before and not d):
                b.fail('setter:%s' % name, '%s(%r) changes %r' % (name, x, d), setter=name, value=x)


BOUNDED = [settings, command_line, setters_alone]
