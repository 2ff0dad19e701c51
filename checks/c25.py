"""C25: every switch sets exactly the setting it names, and comments, included files and marker lines leave the code alone."""
import os

from pydv import instrument
from . import shells
from .common import SHELLS, config, generate, quiet, real

TRUSTED = ['argparse']
ASSUMPTIONS = ['comments and prefixes are valid text']
RULE = 'switches with values in every order; random comments, included files and marker settings; the script without them is the same text'
app = instrument.mod('application')
cf = instrument.mod('config')
op = instrument.mod('output')

SWITCHES = {'debug': 'debug', 'function_prefix': 'function_prefix', 'abbreviate_commands': 'abbreviate_commands', 'abbreviate_options': 'abbreviate_options',
            'repeatable_options': 'repeatable_options', 'inherit_options': 'inherit_options', 'option_stacking': 'option_stacking', 'long_opt_arg_sep': 'long_opt_arg_sep',
            'vim_modeline': 'vim_modeline', 'zsh_compdef': 'zsh_compdef', 'fish_inline_conditions': 'fish_inline_conditions', 'keep_comments': 'keep_comments'}
FEATURES = ['hidden', 'final', 'groups', 'repeatable', 'when']
SETTERS = {'set_debug': 'debug', 'set_abbreviate_commands': 'abbreviate_commands', 'set_abbreviate_options': 'abbreviate_options', 'set_repeatable_options': 'repeatable_options',
           'set_inherit_options': 'inherit_options', 'set_option_stacking': 'option_stacking', 'set_vim_modeline': 'vim_modeline', 'set_zsh_compdef': 'zsh_compdef',
           'set_keep_comments': 'keep_comments', 'set_fish_inline_conditions': 'fish_inline_conditions', 'disable_hidden': 'disabled_hidden', 'disable_final': 'disabled_final',
           'disable_groups': 'disabled_groups', 'disable_repeatable': 'disabled_repeatable', 'disable_when': 'disabled_when'}


# ---------------------------------------------------------------- contracts
class Opts:
    pass


def switches(v):
    """the options of the command line become exactly the settings of their names, and exactly the given features are disabled"""
    v.covers('application._get_config_from_options')
    o = Opts()
    for s in SWITCHES:
        setattr(o, s, False)
    o.function_prefix = v.str('prefix')
    o.long_opt_arg_sep = v.choose('separator', ['space', 'equals', 'both'])
    one = v.choose('switch', [None] + [s for s in SWITCHES if s not in ('function_prefix', 'long_opt_arg_sep')])
    for s in SWITCHES:
        if s not in ('function_prefix', 'long_opt_arg_sep'):
            setattr(o, s, s == one)
    o.bash_completions_version = v.choose('version', [(2,), (2, 12)])
    o.include_file = v.choose('files', [None, ['a'], ['b', 'a']])
    o.comment = v.choose('comments', [None, ['x'], ['y', 'x']])
    o.max_line_length = v.int('length')
    which = v.choose('features', range(32)) if one is None and o.include_file is None and o.comment is None else 0
    o.disable = [f for i, f in enumerate(FEATURES) if which >> i & 1]
    c = app._get_config_from_options(o)
    for s, attr in SWITCHES.items():
        v.same(getattr(c, attr), getattr(o, s), attr)
    v.prove(c.bash_completions_version == o.bash_completions_version, 'version')
    v.prove(list(c.include_files) == (o.include_file or []), 'files')
    v.prove(list(c.comments) == (o.comment or []), 'comments')
    for f in FEATURES:
        v.prove(getattr(c, 'disabled_' + f) is (f in o.disable), 'feature ' + f)
    if o.max_line_length > 0:
        v.prove(c.line_length == o.max_line_length, 'length')
    else:
        v.prove(c.line_length >= 1000000, 'unlimited length')


def setters(v):
    """every setter sets exactly its own setting to the value and rejects values of other types"""
    v.covers('config.Config')
    name = v.choose('setter', sorted(SETTERS))
    c = cf.Config()
    for attr in SETTERS.values():
        if attr != SETTERS[name]:
            setattr(c, attr, v.bool(attr))
    before = dict(vars(c))
    value = v.choose('value', [False, True, 'yes', None, 1])
    try:
        getattr(c, name)(value)
        failed = False
    except AssertionError:
        failed = True
    v.prove(failed == (not isinstance(value, bool)), 'rejected exactly if it is no bool')
    after = vars(c)
    v.prove(set(after) == set(before), 'the same settings')
    for attr in before:
        if attr == SETTERS[name] and not failed:
            v.prove(after[attr] is value, 'its value')
        else:
            v.same(after[attr], before[attr], 'the others are unchanged')


def separate(v):
    """two configurations share no setting: what is added to one does not appear in another"""
    v.covers('config.Config')
    a, b = cf.Config(), cf.Config()
    files = v.choose('files', [['a'], ['a', 'b']])
    if v.choose('how', [0, 1]):
        a.include_many_files(list(files))
        a.add_comments(list(files))
    else:
        for f in files:
            a.include_file(f)
            a.add_comments([f])
    v.prove(list(a.include_files) == files and list(a.comments) == files, 'in the given order')
    for c in (b, cf.Config()):
        v.prove(list(c.include_files) == [] and list(c.comments) == [], 'the other one is unchanged')


def modeline(v):
    """the modeline is added exactly if it is enabled"""
    v.covers('output.Output.add_vim_modeline', 'output.Output.get')

    class conf:
        vim_modeline = v.choose('modeline', [False, True])
        include_files = []
        comments = []
    o = op.Output(conf, None)
    first = v.choose('code', ['f() {\n}', 'x', 'a # vim\n'])
    o.add(first)
    o.add_vim_modeline('zsh')
    text = o.get()
    if conf.vim_modeline:
        v.prove(text.startswith(first) and text != first, 'added')
        v.prove(('ft=zsh' in text[len(first):]), 'of this shell')
    else:
        v.prove(text == first, 'not added')


CONTRACTS = [switches, setters, separate, modeline]


# ------------------------------------------------------------------ bounded
RICH = [{'prog': 'mytool', 'aliases': ['mt'], 'options': [{'option_strings': ['--file', '-f'], 'metavar': 'F', 'complete': ['file'], 'when': 'option_is --mode -- a'},
                                                         {'option_strings': ['--mode'], 'metavar': 'M', 'complete': ['choices', ['a', 'b']], 'capture': 'MODE'}]},
        {'prog': 'mytool sub', 'positionals': [{'number': 1, 'metavar': 'x', 'complete': ['value_list', {'values': ['p', 'q']}]}]}]
COMMENTS = ['plain', '', ' indented', 'a # b', "it's", '"', '$(touch HURT)', '`touch HURT`', 'two\nlines', '\ntouch HURT', 'x\n\ny\n', 'touch HURT;', 'back\\', '%s', 'ü', 'EOF', '#!/bin/sh', '*', 'a\\\ntouch HURT']
FILES = ['', '\n', 'included() { :; }\n', '# only a comment', "x='%s \\n'\n\n\ny=1", 'alias q=":"\n', '\n\n  z=2  \n\n', 'ü="ä"']


def body(shell, text):
    """-> the lines of code, without comments and blank lines"""
    return [l for l in text.split('\n') if l.strip() and not l.startswith('#')]


def surroundings(b):
    """comments, included files, modeline and #compdef"""
    rng = b.rng
    n = 400 if b.thorough() else 80
    b.begin('surroundings', '%d random choices of comments, included files, modeline and #compdef: the comments are comments of the script in their order, the files are in it as they are, '
                            'and the remaining lines of code are those of the plain script; in all three shells' % n)
    plain = {s: body(s, generate(s, RICH)) for s in SHELLS}
    with shells.Scratch() as s:
        for i in range(n):
            comments = [rng.choice(COMMENTS) for _ in range(rng.randint(0, 3))]
            texts = [rng.choice(FILES) for _ in range(rng.randint(0, 2))]
            files = [s.write('inc%d' % k, t) for k, t in enumerate(texts)]
            c = config(set_vim_modeline=rng.random() < .5, set_zsh_compdef=rng.random() < .6)
            cut, one = rng.randint(0, len(comments)), rng.random() < .5
            c.add_comments(comments[:cut])
            c.include_many_files(files[:0 if one else len(files)])
            for f in files[0 if one else len(files):]:
                c.include_file(f)
            c.add_comments(comments[cut:])
            for shell in SHELLS:
                b.case(key=(shell, tuple(comments), tuple(texts), c.vim_modeline, c.zsh_compdef))
                with quiet():
                    out = real(shell).generate_completion(real('dictionary_source').dictionaries_to_commandline(RICH), c)
                info = {'comments': comments, 'files': texts, 'vim_modeline': c.vim_modeline, 'zsh_compdef': c.zsh_compdef, 'shell': shell}
                pos = 0
                for t in texts:
                    at = out.find(t.strip(), pos)
                    if at < 0:
                        b.fail('file:' + shell, 'the included text %r is not in the script in its order' % t, **info)
                        break
                    pos = at + len(t.strip())
                lines = body(shell, out)
                for t in texts:
                    for l in body(shell, t.strip()):
                        if l in lines:
                            lines.remove(l)
                want = list(plain[shell])
                if shell == 'zsh' and not c.zsh_compdef:
                    lines, want = lines[:-1] if lines[-1].startswith('compdef ') else lines, want[:-1]
                    if out.startswith('#compdef'):
                        b.fail('compdef', '#compdef is written though it is disabled', **info)
                elif shell == 'zsh' and out.split('\n')[0].split() != ['#compdef', 'mytool', 'mt']:
                    b.fail('compdef', 'the first line is %r' % out.split('\n')[0], **info)
                if lines != want:
                    extra = [l for l in lines if l not in want] or [l for l in want if l not in lines]
                    b.fail('code:' + shell, 'the code of the script changes with comments %r and files %r: %r' % (comments, texts, extra[:4]), **info)
                head = out.split('\n')
                at = 0
                for l in [l for t in comments for l in t.split('\n')]:
                    for k in range(at, len(head)):
                        if head[k].startswith('#') and head[k][1:].strip() == l.strip():
                            at = k + 1
                            break
                    else:
                        b.fail('comment:' + shell, 'the comment %r is not in the script' % l, **info)
                        break
                if ('# vim:' in out) != c.vim_modeline:
                    b.fail('modeline:' + shell, 'vim_modeline is %r, but the script does%s have one' % (c.vim_modeline, '' if '# vim:' in out else ' not'), **info)


WORDS = {'true': True, 'True': True, 'TRUE': True, 'false': False, 'False': False, 'fAlse': False}


def values(b):
    """values of switches"""
    b.begin('values', 'every switch with valid and invalid values: accepted exactly if valid, the others keep their defaults')
    a = real('application')
    bools = ['abbreviate-commands', 'abbreviate-options', 'repeatable-options', 'inherit-options', 'option-stacking', 'vim-modeline', 'zsh-compdef', 'fish-inline-conditions']
    cases = [('--%s' % s, w, s.replace('-', '_'), x) for s in bools for w, x in list(WORDS.items()) + [(w, ValueError) for w in ('', 'yes', '1', 'truee', 'true ', 'none')]]
    cases += [('--bash-completions-version', w, 'bash_completions_version', x) for w, x in (('2', (2,)), ('2.12', (2, 12)), ('2.11.1', (2, 11, 1)), ('', ValueError), ('2.', ValueError), ('x', ValueError))]
    cases += [('--max-line-length', w, 'line_length', x) for w, x in (('40', 40), ('1', 1), ('x', ValueError), ('', ValueError))]
    cases += [('--long-option-argument-separator', w, 'long_opt_arg_sep', x) for w, x in (('space', 'space'), ('equals', 'equals'), ('both', 'both'), ('none', ValueError), ('', ValueError))]
    cases += [('--function-prefix', w, 'function_prefix', w) for w in ('_x_$PROG', 'p', '$PROG')]
    cases += [('--disable', w, None, x) for w, x in (('hidden', ['hidden']), ('final,groups', ['final', 'groups']), ('when,repeatable,hidden', ['when', 'repeatable', 'hidden']), ('hidden,', ValueError), ('', ValueError), ('all', ValueError))]
    default = vars(real('config').Config())
    bash = real('bash')
    original, seen = bash.generate_completion, []

    def record(cmdline, conf=None):
        seen.append(dict(vars(conf)))
        return original(cmdline, conf)
    with shells.Scratch() as s:
        path = s.write('x.yaml', 'prog: mytool\n')
        bash.generate_completion = record
        try:
            results = []
            for switch, word, attr, want in cases:
                b.case(key=(switch, word))
                del seen[:]
                try:
                    with quiet():
                        x = a.Application()
                        x.parse_args(['bash', path, '-o', os.path.join(s.dir, 'out'), '%s=%s' % (switch, word)])
                        x.run()
                except (Exception, SystemExit):      # pylint: disable=broad-except
                    results.append(None)
                    continue
                results.append(seen[0] if seen else 'unknown')
        finally:
            bash.generate_completion = original
    for (switch, word, attr, want), got in zip(cases, results):
        if got == 'unknown':
            b.skip('the configuration is not passed to bash.generate_completion')
            continue
        if (got is None) != (want is ValueError):
            b.fail('accepted', '%s=%s is %s' % (switch, word, 'rejected' if got is None else 'accepted'), switch=switch, word=word)
            continue
        if got is None:
            continue
        exp = dict(default)
        if attr:
            exp[attr] = want
        else:
            exp.update(('disabled_' + f, True) for f in want)
        if got != exp:
            b.fail('value', '%s=%s sets %r' % (switch, word, {k: x for k, x in got.items() if x != exp.get(k)}), switch=switch, word=word)


BOUNDED = [surroundings, values]
