"""C21: scripts load cleanly and offer exactly the declared candidates."""
import os
import re
import shutil
import tempfile

from pydv import instrument, vc
from pydv.lexers import Lexer
from . import gen, model, shells
from .common import SHELLS, config, generate, quiet, real


# ------------------------------------------------------------------ bounded

WORDS = ['foo', 'foobar', 'bar', 'baz', 'a', 'ab', 'x1', 'b-c', 'UPPER', 'd.e', 'f_g', 'q', 'foo1']


class Offer:
    """what may be offered for a text: `must` (extends it), `may` (also fine) and `pool` (everything declared at this place)"""

    def __init__(self, must=(), may=(), pool=()):
        self.must, self.may, self.pool = set(must), set(may) | set(must), set(pool) | set(may) | set(must)
        self.listed = set()             # values that a `list` has already (Zsh offers them again, see `lists`)

    def after(self, head, without=()):
        f = lambda xs: {head + x for x in xs if x not in without}
        r = Offer(f(self.must), f(self.may), f(self.pool))
        r.listed = {head + x for x in self.listed}
        return r

    def __or__(self, o):
        return Offer(self.must | o.must, self.may | o.may, self.pool | o.pool)


def of_words(words, typed):
    words = [str(w) for w in words]
    return Offer([w for w in words if w.startswith(typed) and w != typed], [w for w in words if w == typed], words)


def numbers(a, b, s=1):
    return list(range(a, b + (1 if s > 0 else -1), s))


def offer(c, typed):
    kind, args = c[0], c[1:]
    if kind == 'none':
        return Offer()
    if kind == 'choices':
        return of_words(args[0], typed)
    if kind == 'range':
        return of_words(numbers(*args), typed)
    if kind in ('value_list', 'list'):
        opts = args[0] if kind == 'value_list' else (args[1] if len(args) > 1 else {})
        sep, dup = opts.get('separator', ','), opts.get('duplicates', False)
        head, _, last = typed.rpartition(sep)
        done = head.split(sep) if _ else []
        every = set(map(str, opts['values'])) if kind == 'value_list' else offer(args[0], '').pool
        if any(d not in every for d in done):
            return None                 # no history of declared values
        o = of_words(list(opts['values']), last) if kind == 'value_list' else offer(args[0], last)
        given = () if dup else done
        r = o.after(head + _, given)
        r.listed |= {head + _ + x for x in given} if kind == 'list' else set()
        r.may |= {x + sep for x in r.may} | ({typed, typed + sep} if last in o.pool else set())
        r.pool |= {x + sep for x in r.pool}
        return r
    if kind == 'prefix':
        p, inner = args
        if typed.startswith(p):
            r = offer(inner, typed[len(p):])
            if r is None:
                return None
            r = r.after(p)
            r.may |= {p}
            return r
        if p.startswith(typed):
            return Offer([p], offer(inner, '').after(p).may, [p])
        return Offer()
    if kind == 'combine':
        r = Offer()
        for x in args[0]:
            r = r | offer(x, typed)
        return r
    if kind == 'key_value_pair':
        return pair({k: v for k, _, v in args[1]}, args[0], typed)
    if kind == 'key_value_list':
        sep, eq, values = args
        head, s, last = typed.rpartition(sep)
        keys, excludes, repeatable = {}, {}, set()
        for k, _, v, *ex in values:
            ex, rep = (ex or [[]])[0], False
            if k.startswith('*'):
                k, rep = k[1:], True
            keys[k], excludes[k] = v, ex
            if rep:
                repeatable.add(k)
        gone = set()
        for p in (head.split(sep) if s else []):
            k, e, value = p.partition(eq)
            if k not in keys or bool(e) != bool(keys[k]) or (e and keys[k][0] != 'none' and value not in offer(keys[k], '').pool):
                return None
            if k in keys:
                gone |= set(excludes[k]) | ({k} if k not in repeatable else set())
        if eq in last:
            k = last.partition(eq)[0]
            r = pair(keys, eq, last) if k not in gone and keys.get(k) else None
            return r.after(head + s) if r else None
        r = pair({k: v for k, v in keys.items() if k not in gone}, eq, last).after(head + s)
        if last in keys:            # the last pair may be complete
            r.may |= {typed + sep, typed + eq, typed}
            r.must -= {head + s + x for x in excludes[last]}
        r.may |= {x + y for x in r.may for y in (sep, eq)}
        return r
    raise ValueError(kind)


def pair(keys, eq, typed):
    k, e, value = typed.partition(eq)
    if e:
        c = keys.get(k)
        r = offer(c, value) if c and (eq not in value or c[0] == 'choices') else None
        return r.after(k + eq) if r else None
    r = of_words(keys, typed)
    r.may |= {x + eq for x in r.may}
    r.pool |= {x + eq for x in r.pool}
    return r


def judge(c, typed, got, shell):
    """-> None or what is wrong"""
    o = offer(c, typed)
    if o is None:
        return None
    got = set(got)
    missing = {m for m in o.must if m not in got and not any(g[:-1] == m and g[-1] in ',:;=/+' for g in got)}
    if missing:
        return 'missing', sorted(missing)
    allowed = o.may if o.must or shell != 'fish' else o.pool
    extra = {g for g in got if g not in allowed}
    if shell == 'zsh':
        extra = {g for g in extra if g.rstrip(',:+/@') not in o.listed and g not in o.listed}
        if '-' in typed or '_' in typed:    # _describe completes the parts of words with - and _
            extra -= o.pool
    if shell == 'fish' and not o.must:
        extra = {g for g in extra if g[:-1] not in allowed}
    if extra:
        return 'extra', sorted(extra)
    return None


def full(shell, name, form, typed, replies):
    """the whole words that the replies of a shell stand for"""
    if shell == 'bash':
        i = max(typed.rfind(ch) for ch in '=:') + 1
        return [typed[:i] + r for r in replies]
    head = '--%s=' % name
    return [w[len(head):] if form == 'eq' and w.startswith(head) else w for w, *_ in replies]


def words(rng, n=None):
    return rng.sample(WORDS, n or rng.randint(1, 6))


def plain(rng):
    k = rng.randrange(5)
    if k < 3:
        w = words(rng)
        return ['choices', w if rng.random() < .6 else {x: rng.choice(['', 'text', 'more text']) for x in w}]
    a, n, s = rng.randint(-5, 12), rng.randint(0, 15), rng.choice([1, 1, 2, 3, 5, -1, -2])
    return ['range', a, a + (n if s > 0 else -n)] + ([s] if s != 1 or rng.random() < .2 else [])


def some_list(rng, sep, inner=None):
    opts = {}
    if sep != ',' or rng.random() < .3:
        opts['separator'] = sep
    if rng.random() < .3:
        opts['duplicates'] = rng.choice([True, True, False])
    if rng.random() < .5:
        w = words(rng)
        opts['values'] = w if rng.random() < .6 else {x: rng.choice(['text', 'more text']) for x in w}
        return ['value_list', opts]
    return ['list', inner or plain(rng)] + ([opts] if opts else [])


def combination(rng):
    return ['combine', [plain(rng) for _ in range(rng.randint(2, 3))]]


def pairs(rng, more, eq):
    r = []
    for k in words(rng, rng.randint(1, 4)):
        c = rng.choice([None, ['none'], plain(rng), plain(rng), more()])
        r.append([k, rng.choice([None, 'a key', 'the key']), c])
    return r


def completer(rng):
    k = rng.randrange(12)
    if k < 3:
        return plain(rng)
    if k < 6:
        return some_list(rng, rng.choice([',', ',', ':', '+', '/', '@']))
    if k == 6:
        return combination(rng)
    if k == 7:
        return ['prefix', rng.choice(['pre:', 'x', 'x=', 'no-', '@']), rng.choice([plain(rng), plain(rng), some_list(rng, ',')])]
    if k == 8:
        return ['list', combination(rng)]
    if k in (9, 10):
        eq = rng.choice(['=', '=', ':'])
        sep = rng.choice([',', ',', '+', ':']) if eq == '=' else ','
        values = pairs(rng, lambda: some_list(rng, rng.choice(['+', '/'])), eq)
        keys = [v[0] for v in values]
        if rng.random() < .6:
            for v in values:
                if rng.random() < .3:
                    v[0] = '*' + v[0]
                if rng.random() < .3:
                    v.append(rng.sample(keys, rng.randint(1, len(keys))))
        return ['key_value_list', sep, eq, values]
    eq = rng.choice(['=', '=', ':'])
    return ['key_value_pair', eq, pairs(rng, lambda: some_list(rng, ','), eq)]


def typing(rng, c):
    """a text that someone could have typed"""
    text = ''
    for _ in range(rng.randint(0, 4)):
        o = offer(c, text)
        if o is None or not o.pool:
            break
        text = rng.choice(sorted(o.pool))
        kind = c[0]
        if rng.random() < .8 and kind not in ('choices', 'range', 'combine'):
            seps = {'value_list': lambda: c[1].get('separator', ','), 'list': lambda: (c[2:] + [{}])[0].get('separator', ','), 'prefix': lambda: rng.choice(['', '', ',']),
                    'key_value_list': lambda: rng.choice(c[1:3]), 'key_value_pair': lambda: c[1]}[kind]()
            if seps and not text.endswith(seps):
                text += seps
    if rng.random() < .5 and text:
        text = text[:rng.randint(1, len(text))]
    if rng.random() < .05:
        text += rng.choice(['zz', 'f', 'b', '1'])
    return text


def candidates(b):
    """exactly the declared candidates are offered"""
    rng = b.rng
    rounds, per, tries = (30, 30, 10) if b.thorough() else (3, 24, 7)
    b.begin('candidates', '%d definitions with %d random completers each (choices, ranges, lists, keys with values, prefixes, combinations; nested), %d typed texts each, as separate '
                          'and as joined arguments, in all three shells' % (rounds, per, tries))
    bad = set()
    for _ in range(rounds):
        cs = {'o%d-' % i: completer(rng) for i in range(per)}
        typed = {n: sorted({''} | {typing(rng, c) for _ in range(tries)}) for n, c in cs.items()}
        dicts = [{'prog': 'mytool', 'options': [{'option_strings': ['--' + n], 'metavar': 'M', 'complete': c} for n, c in cs.items()]}]
        keys = [(n, t, f) for n in cs for t in typed[n] for f in ('sp', 'eq') if not (f == 'sp' and t[:1] == '-')]
        qs = [['mytool', '--' + n, t] if f == 'sp' else ['mytool', '--%s=%s' % (n, t)] for n, t, f in keys]
        for shell in SHELLS:
            script = generate(shell, dicts)
            out, err, _left = getattr(shells, shell + '_complete')(script, 'mytool', qs)
            b.case(key=(shell, script))
            if err.strip():
                b.fail('stderr:' + shell, '%s prints %r' % (shell, err[:300]), definition=dicts)
            if out is None:
                b.fail('broken:' + shell, '%s: the script does not answer' % shell, definition=dicts)
                continue
            for (n, t, f), replies in zip(keys, out):
                b.case(key=(shell, n, t, f))
                got = full(shell, n, f, t, replies)
                r = judge(cs[n], t, got, shell)
                if r:
                    sig = 'offer:%s:%s:%s' % (shell, cs[n][0], r[0])
                    if sig not in bad:
                        bad.add(sig)
                        b.fail(sig, '%s: completing %r of %r offers %r: %s %r' % (shell, t, cs[n], sorted(got)[:12], r[0], r[1][:12]), completer=cs[n], typed=t, form=f)


def separators(b):
    """values may contain what separates keys from values"""
    b.begin('separators', 'lists of keys and single keys whose values contain the separator of keys and values; every prefix of every value, alone and after another key; in all three shells')
    values = ['fast', 'fast1', 'slow2', 'fast=1', 'fast=2', 'slow=1=2', 'fast:1', 'fast:2', 'x::y', ':x']
    for eq in '=:':
        inner = ['choices', [v for v in values if v[0] != eq or eq == ':']]
        cs = {'list-': ['key_value_list', ',', eq, [['mode', 'a key', inner], ['other', None, ['choices', ['a' + eq + 'b']]], ['flag', None, None]]],
              'pair-': ['key_value_pair', eq, [['mode', 'a key', inner], ['flag', None, None]]]}
        dicts = [{'prog': 'mytool', 'options': [{'option_strings': ['--' + n], 'metavar': 'M', 'complete': c} for n, c in cs.items()]}]
        some = sorted({v[:k] for v in inner[1] for k in range(len(v) + 1)})
        keys = [(n, h + 'mode' + eq + t, f) for n in cs for h in (['', 'flag,', 'other' + eq + 'a' + eq + 'b,'] if n == 'list-' else ['']) for t in some for f in ('sp', 'eq')]
        qs = [['mytool', '--' + n, t] if f == 'sp' else ['mytool', '--%s=%s' % (n, t)] for n, t, f in keys]
        for shell in SHELLS:
            out, err, _left = getattr(shells, shell + '_complete')(generate(shell, dicts), 'mytool', qs)
            if out is None:
                b.fail('broken:' + shell, '%s: the script does not answer' % shell, definition=dicts)
                continue
            for (n, t, f), replies in zip(keys, out):
                b.case(key=(shell, n, t, f))
                if shell == 'bash' and any(x in t.partition('mode' + eq)[2] for x in '=:'):
                    continue            # see wordbreaks
                got = full(shell, n, f, t, replies)
                r = judge(cs[n], t, got, shell)
                if r:
                    b.fail('separator:%s:%s:%s' % (shell, cs[n][0], eq), '%s: completing %r of %r offers %r: %s %r' % (shell, t, cs[n], sorted(got)[:12], r[0], r[1][:12]),
                           completer=cs[n], typed=t, form=f)


def wordbreaks(b):
    """Bash: values with = or :, which separate words there"""
    b.begin('word breaks', 'values of choices, lists and keys with = and :, typed up to or beyond that character; Bash')
    words = ['fast:1', 'fast:2', 'slow=1', 'slow=2']
    cs = {'choices-': ['choices', words], 'list-': ['value_list', {'values': words}], 'key-': ['key_value_list', ',', '=', [['k', None, ['choices', words]]]]}
    dicts = [{'prog': 'mytool', 'options': [{'option_strings': ['--' + n], 'metavar': 'M', 'complete': c} for n, c in cs.items()]}]
    keys = [(n, ('k=' if n == 'key-' else '') + t) for n in cs for t in ('', 'f', 'fast', 'fast:', 'slow=', 'fast:1')]
    out, _err, _left = shells.bash_complete(generate('bash', dicts), 'mytool', [['mytool', '--' + n, t] for n, t in keys])
    for (n, t), replies in zip(keys, out or []):
        b.case(key=(n, t))
        got = full('bash', n, 'sp', t, replies)
        r = judge(cs[n], t, got, 'bash')
        if r:
            b.fail('wordbreak:%s' % cs[n][0] if t.rstrip('1')[-1:] in ('=', ':') and t != 'k=' else 'candidates:bash', 'bash: completing %r of %r offers %r: %s %r' % (
                t, cs[n], sorted(got), r[0], r[1]), completer=cs[n], typed=t)


def lists(b):
    """`list` offers no value twice"""
    b.begin('lists', 'a list without duplicates whose first value is given, in all three shells')
    words = ['one', 'two', 'three']
    for c in (['list', ['choices', words]], ['list', ['choices', dict.fromkeys(words, 'text')]], ['list', ['range', 1, 3]], ['value_list', {'values': words}]):
        first = '1' if 'range' in c[1] else 'one'
        for shell in SHELLS:
            script = generate(shell, [{'prog': 'mytool', 'options': [{'option_strings': ['--opt'], 'metavar': 'M', 'complete': c}]}])
            out, _err, _left = getattr(shells, shell + '_complete')(script, 'mytool', [['mytool', '--opt', first + ',']])
            got = full(shell, 'opt', 'sp', first + ',', out[0] if out else [])
            b.case(key=(shell, repr(c)))
            if any(g.rstrip(',').split(',')[-1] == first for g in got):
                b.fail('twice:%s:%s' % (shell, c[0]), '%s: completing %r of %r offers %r: a value is offered twice' % (shell, first + ',', c, sorted(got)))


# completers that run a program or read data that the sandbox may lack
OUTSIDE = {'exec', 'exec_fast', 'exec_internal', 'key_value_list_exec', 'key_value_pair_exec', 'user', 'group', 'pid', 'process', 'signal', 'uid', 'gid', 'hostname', 'service', 'timezone',
           'variable', 'locale', 'charset', 'login_shell', 'mountpoint', 'net_interface', 'filesystem_type', 'alsa_card', 'alsa_device', 'date_format', 'commandline_string', 'command',
           'mime_file', 'history', 'ip_address', 'environment', 'date'}


def inside(c):
    if isinstance(c, (list, tuple)):
        return not (c and isinstance(c[0], str) and c[0] in OUTSIDE) and all(map(inside, c))
    return True


def settings(rng):
    r = {}
    pick = lambda k, *values: r.update({k: rng.choice(values)}) if rng.random() < .3 else None
    for k in ('set_abbreviate_commands', 'set_abbreviate_options', 'set_repeatable_options', 'set_inherit_options', 'set_option_stacking', 'set_long_option_argument_separator',
              'set_vim_modeline', 'set_zsh_compdef', 'set_keep_comments', 'set_debug', 'set_fish_inline_conditions'):
        values = (True, False) if k != 'set_long_option_argument_separator' else ('space', 'equals', 'both')
        pick(k, *values)
    pick('set_line_length', 20, 40, 80, 200)
    pick('set_function_prefix', '_a', 'my_prefix_PROG', '_')
    return r


def loads(b):
    """every script is free of syntax errors and completes without messages"""
    rng = b.rng
    n = 150 if b.thorough() else 12
    b.begin('loads', '%d random definitions with every completer, attribute and kind of text, random configurations; in all three shells: syntax check of the script; completion of the '
                     'first words without a message (definitions without completers that run programs)' % n)
    bad = set()
    for _ in range(n):
        dicts = gen.generatable(rng, depth=2)
        conf = settings(rng)
        for shell in SHELLS:
            try:
                script = generate(shell, dicts, config(**conf))
            except Exception as e:
                if type(e).__name__ == 'CrazyError':
                    b.skip()
                    continue
                raise
            ok, err = shells.syntax_ok(shell, script)
            b.case(key=(shell, script))
            if not ok and ('syntax:' + shell) not in bad:
                bad.add('syntax:' + shell)
                b.fail('syntax:' + shell, '%s: the script has syntax errors: %s' % (shell, err[:300]), definition=dicts, configuration=conf)
        dicts = [gen.clone(d) for d in dicts]
        for d in dicts:
            for o in (d.get('options') or []) + (d.get('positionals') or []):
                if not inside(o.get('complete')):
                    o['complete'] = ['choices', ['q']]
                o.pop('capture', None)
            d.pop('wraps', None)
        options = [s for d in dicts for o in d.get('options') or [] for s in o['option_strings']]
        qs = [['mytool', ''], ['mytool', '-'], ['mytool', '--'], ['mytool', 'x', '']]
        qs += [d['prog'].split() + [x] for d in dicts[1:] for x in ('', '-')]
        qs += [['mytool', o, ''] for o in options[:5]] + [['mytool', o + '='] for o in options[:5] if o.startswith('--')]
        for shell in SHELLS:
            try:
                script = generate(shell, dicts, config(**conf))
            except Exception as e:
                if type(e).__name__ == 'CrazyError':
                    b.skip()
                    continue
                raise
            out, err, _left = getattr(shells, shell + '_complete')(script, 'mytool', qs)
            b.case(len(qs))
            if (out is None or err.strip()) and ('message:' + shell) not in bad:
                bad.add('message:' + shell)
                b.fail('message:' + shell, '%s: completing prints %r' % (shell, err[:300]), definition=dicts, configuration=conf, script=script)


def conditions(b):
    """keys are offered where their condition holds"""
    b.begin('conditions', 'key_value_list and key_value_pair with a condition function that allows two of three keys, in all three shells')
    allow = {'bash': 'allow() { [[ "$1" == k* ]]; }\n', 'zsh': 'allow() { [[ "$1" == k* ]]; }\n', 'fish': "function allow; string match -q 'k*' -- $argv[1]; end\n"}
    keys = [['k1', 'text', None], ['other', None, None], ['k2', None, ['choices', ['x']]]]
    for c in (['key_value_list', ',', '=', keys, 'allow'], ['key_value_pair', '=', keys, 'allow']):
        for shell in SHELLS:
            script = generate(shell, [{'prog': 'mytool', 'options': [{'option_strings': ['--opt'], 'metavar': 'M', 'complete': c}]}])
            out, err, _left = getattr(shells, shell + '_complete')(script, 'mytool', [['mytool', '--opt', '']], extra=allow[shell])
            got = {g.rstrip('=') for g in full(shell, 'opt', 'sp', '', out[0] if out else [])}
            b.case(key=(shell, c[0]))
            if got != {'k1', 'k2'} or err.strip():
                b.fail('condition:%s:%s' % (shell, c[0]), '%s: %r offers %r (the condition holds for k1 and k2) %s' % (shell, c, sorted(got), err[:200]))


FUNCTIONS = {
    'bash': r"""
gen() { printf '%s\t%s\n' one 'the first' two 'the second' 'three' ''; }
args() { printf '%s\t%s\n' "$1" '' "$2" ''; }
_quote_readline_by_ref() { printf -v $2 %s "$1"; }
own() { COMPREPLY=( $(compgen -W "read write append" -- "$cur") ); }
""",
    'zsh': r"""
gen() { printf '%s\t%s\n' one 'the first' two 'the second' 'three' ''; }
own() { local items=(read:'Read data' write:'Write data' append:'Append data'); _describe 'my items' items; }
""",
    'fish': r"""
function gen; printf '%s\t%s\n' one 'the first' two 'the second' three ''; end
function own; printf '%s\t%s\n' read 'Read data' write 'Write data' append 'Append data'; end
"""}
KEYS = {'bash': r"""
keys() {
  if (( $# == 0 )); then printf '%s\t%s\t%s\n' flag text '' argument= text '' '*again' text '' gone text 'flag argument'
  else case "$1" in argument) printf '%s\t%s\n' foo text bar text;; esac; fi
}
pairs() {
  if (( $# == 0 )); then printf '%s\t%s\n' flag text argument= text
  else case "$1" in argument) printf '%s\t%s\n' foo text bar text;; esac; fi
}
""", 'fish': r"""
function keys
  if test (count $argv) -eq 0; printf '%s\t%s\t%s\n' flag text '' argument= text '' '*again' text '' gone text 'flag argument'
  else if test $argv[1] = argument; printf '%s\t%s\n' foo text bar text; end
end
function pairs
  if test (count $argv) -eq 0; printf '%s\t%s\n' flag text argument= text
  else if test $argv[1] = argument; printf '%s\t%s\n' foo text bar text; end
end
"""}
KEYS['zsh'] = KEYS['bash']


def outside(b):
    """files, programs, the output of functions and system data"""
    b.begin('outside', 'commands in given paths; files and directories with all options, in a scratch directory; the output of functions (exec, exec_fast, exec_internal, '
                       'key_value_list_exec, key_value_pair_exec); users, groups, variables, signals: expected candidates are offered, others are not; in all three shells')
    root = tempfile.mkdtemp(prefix='verif-c21-')
    try:
        for f in ('one/ppone', 'two/pptwo', 'one/other', 'two/other2'):
            path = os.path.join(root, f)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w', encoding='utf-8') as fh:
                fh.write('#!/bin/sh\n')
            os.chmod(path, 0o755)
        os.mkdir(os.path.join(root, 'three'))
        with open(os.path.join(root, 'three/aplay'), 'w', encoding='utf-8') as fh:
            fh.write("#!/bin/sh\nprintf '%s\\n' '**** List of PLAYBACK Hardware Devices ****' 'card 0: PCH [HDA Intel PCH], device 0: ALC [ALC Analog]' '  Subdevices: 1/1' "
                     "'card 0: PCH [HDA Intel PCH], device 3: HDMI [HDMI]' 'card 1: USB [USB Audio], device 0: x [y]'\n")
        os.chmod(os.path.join(root, 'three/aplay'), 0o755)
        for f in ('sub/a.txt', 'sub/b.TXT', 'sub/c.c', 'sub/d', 'sub/my file.c', 'sub/e.c.bak', 'sub/in/x', 'sub/under it/x', 'sp ace/q.txt', "sp ace/it's/x"):
            os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
            open(os.path.join(root, f), 'w', encoding='utf-8').close()
        for d, _ds, _fs in os.walk(root):
            os.chmod(d, 0o755)
        _outside(b, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def relative(scratch):
    os.makedirs(os.path.join(scratch.dir, 'rel/deep/er'))
    for f in ('rel/r.c', 'rel/r.txt'):
        scratch.write(f, '')


def _outside(b, root):
    at = lambda *d: os.path.join(root, *d)
    files, dirs = {'a.txt', 'b.TXT', 'c.c', 'd', 'my file.c', 'e.c.bak'}, {'in', 'under it'}
    # completer, typed, offered exactly (or None), offered at least, never offered
    cases = [
        (['command', {'path': at('one')}], 'pp', {'ppone'}, (), ()),
        (['command', {'path_append': at('one')}], 'pp', None, {'ppone'}, {'pptwo'}),
        (['command', {'path_prepend': at('two')}], 'pp', None, {'pptwo'}, {'ppone'}),
        (['command', {'path_prepend': at('two'), 'path_append': at('one')}], 'pp', None, {'ppone', 'pptwo'}, ()),
        (['command', {'path_append': at('one')}], 'bas', None, {'bash'}, ()),
        (['command'], 'pp', None, (), {'ppone', 'pptwo'}),
        (['directory', {'directory': at('sub')}], '', dirs, (), ()),
        (['directory', {'directory': at('sp ace')}], '', {"it's"}, (), ()),
        (['directory', {'directory': at('sub')}], 'i', {'in'}, (), ()),
        (['file', {'directory': at('sub')}], '', files | dirs, (), ()),
        (['file', {'directory': at('sp ace')}], 'q', {'q.txt'}, (), ()),
        (['file', {'directory': at('sub'), 'extensions': ['c']}], '', {'c.c', 'my file.c'} | dirs, (), ()),
        (['file', {'directory': at('sub'), 'extensions': ['c', 'txt']}], '', {'c.c', 'my file.c', 'a.txt', 'b.TXT'} | dirs, (), ()),
        (['file', {'directory': at('sub'), 'extensions': ['c'], 'fuzzy': True}], '', {'c.c', 'my file.c', 'e.c.bak'} | dirs, (), ()),
        (['file', {'directory': at('sub'), 'ignore_globs': ['*.c', 'd']}], '', {'a.txt', 'b.TXT', 'e.c.bak'} | dirs, (), ()),
        (['file', {'directory': at('sub'), 'extensions': ['c'], 'ignore_globs': ['my*']}], '', {'c.c'} | dirs, (), ()),
        (['file'], at('sub') + '/a', {at('sub', 'a.txt')}, (), ()),
        (['directory'], at('sub') + '/i', {at('sub', 'in')}, (), ()),
        (['file', {'directory': 'rel'}], '', {'r.c', 'r.txt', 'deep'}, (), ()),
        (['file', {'directory': 'rel', 'extensions': ['c']}], '', {'r.c', 'deep'}, (), ()),
        (['file', {'directory': 'rel', 'ignore_globs': ['*.c']}], '', {'r.txt', 'deep'}, (), ()),
        (['directory', {'directory': 'rel'}], '', {'deep'}, (), ()),
        (['directory', {'directory': './rel/deep'}], '', {'er'}, (), ()),
        (['exec', 'gen'], '', {'one', 'two', 'three'}, (), ()),
        (['exec', 'gen'], 't', {'two', 'three'}, (), ()),
        (['exec_fast', 'gen'], '', {'one', 'two', 'three'}, (), ()),
        (['exec_fast', 'gen'], 't', {'two', 'three'}, (), ()),
        (['exec_internal', 'own'], '', {'read', 'write', 'append'}, (), ()),
        (['exec_internal', 'own'], 'w', {'write'}, (), ()),
        (['combine', [['exec', 'gen'], ['choices', ['five']]]], '', {'one', 'two', 'three', 'five'}, (), ()),
        (['prefix', 'p-', ['exec', 'gen']], 'p-t', {'p-two', 'p-three'}, (), ()),
        (['list', ['exec', 'gen']], 'one,tw', {'one,two'}, (), ()),
        (['key_value_list_exec', ',', '=', 'keys'], '', {'flag', 'argument', 'again', 'gone'}, (), ()),
        (['key_value_list_exec', ',', '=', 'keys'], 'argument=', {'argument=foo', 'argument=bar'}, (), ()),
        (['key_value_list_exec', ',', '=', 'keys'], 'flag,', {'flag,argument', 'flag,again', 'flag,gone'}, (), ()),
        (['key_value_list_exec', ',', '=', 'keys'], 'again,argument=f', {'again,argument=foo'}, (), ()),
        (['key_value_list_exec', ',', '=', 'keys'], 'again,', {'again,flag', 'again,argument', 'again,again', 'again,gone'}, (), ()),
        (['key_value_list_exec', ',', '=', 'keys'], 'gone,', {'gone,again'}, (), ()),
        (['key_value_pair_exec', '=', 'pairs'], '', {'flag', 'argument'}, (), ()),
        (['key_value_pair_exec', '=', 'pairs'], 'f', {'flag'}, (), ()),
        (['key_value_pair_exec', '=', 'pairs'], 'argument=b', {'argument=bar'}, (), ()),
        (['user'], 'roo', {'root'}, (), ()),
        (['group'], 'roo', {'root'}, (), ()),
        (['environment'], 'VERIF_ENV', {'VERIF_ENVIRONMENT'}, (), ()),
        (['variable'], 'VERIF_ENV', {'VERIF_ENVIRONMENT'}, (), ()),
        (['signal'], '', None, {'HUP', 'TERM'}, {'root'}),
        (['uid'], '', None, {'0'}, {'root'}),
        (['gid'], '', None, {'0'}, {'root'}),
        (['login_shell'], '/bin/ba', {'/bin/bash'}, (), ()),
        (['timezone'], 'Europe/Ber', {'Europe/Berlin'}, (), ()),
        (['mime_file', 'text/*'], at('one') + '/', {at('one','ppone'), at('one','other')}, (), ()),
        (['charset'], 'UTF-8', None, {'UTF-8'}, ()),
        (['locale'], '', None, {'C'}, ()),
        (['filesystem_type'], '', None, {'tmpfs'}, ()),
        (['net_interface'], '', None, {'lo'}, ()),
        (['alsa_card'], '', {'0', '1'}, (), ()),
        (['alsa_device'], '', {'hw:0', 'hw:1'}, (), ()),
        (['integer'], '', set(), (), ()),
        (['none'], '', set(), (), ()),
        (['integer', {'suffixes': {'kB': 'x', 'MB': 'y'}}], '5', None, {'5kB', '5MB'}, {'kB', '5x'}),
        (['integer', {'min': 0, 'max': 9, 'suffixes': {'kB': 'x', 'MB': 'y'}}], '12k', None, {'12kB'}, {'12kkB'}),
        (['float', {'suffixes': {'kB': 'x', 'MB': 'y'}}], '1.5', None, {'1.5kB', '1.5MB'}, ()),
    ]
    completers = []
    for c in cases:
        if c[0] not in completers:
            completers.append(c[0])
    dicts = [{'prog': 'mytool', 'options': [{'option_strings': ['--o%d' % i], 'metavar': 'M', 'complete': c} for i, c in enumerate(completers)]}]
    for shell in SHELLS:
        script = generate(shell, dicts)
        qs = [['mytool', '--o%d' % completers.index(c[0]), c[1]] for c in cases]
        env = ('set -gx VERIF_ENVIRONMENT x\nset -gx PATH $PATH %s\n' if shell == 'fish' else 'export VERIF_ENVIRONMENT=x PATH=$PATH:%s\n') % at('three')
        out, err, _left = getattr(shells, shell + '_complete')(script, 'mytool', qs, sandbox=relative, extra=env + FUNCTIONS[shell] + KEYS[shell])
        if out is None:
            b.fail('broken:' + shell, '%s: the script does not answer' % shell, definition=dicts)
            continue
        if err.strip():
            b.fail('stderr:' + shell, '%s prints %r' % (shell, err[:300]), definition=dicts)
        for (c, typed, exactly, least, never), replies in zip(cases, out):
            b.case(key=(shell, str(c), typed))
            got = {re.sub(r'\\(.)', r'\1', g) if shell == 'zsh' or c[0] in ('file', 'directory') else g for g in full(shell, 'o', 'sp', typed, replies)}
            got = {g.rstrip('/= ,') for g in got} - {''}
            if '/' in typed:            # Zsh offers the last part of a path
                got, exactly = (x and {os.path.basename(g) for g in x} for x in (got, exactly))
            bad = (exactly is not None and got != exactly) or not set(least) <= got or got & set(never)
            if bad:
                sig = 'outside:%s:%s' % (shell, c[0])
                b.fail(sig, '%s: completing %r of %r offers %r%s' % (
                    shell, typed, c, sorted(got)[:12], '' if exactly is None else ', not %r' % sorted(exactly)), completer=c, typed=typed)


WRAPPED = {
    'fish': "complete -c wrapped -f -a 'alpha beta'\ncomplete -c wrapped -l other -xa 'c d'\n",
    'zsh': "_wrapped() { _arguments '--other[x]:m:(c d)' '1:p:(alpha beta)' }\ncompdef _wrapped wrapped\n",
    'bash': """_completion_loader() { echo "$1" >> loaded; }
_command_offset() { local cur=${COMP_WORDS[COMP_CWORD]}; COMPREPLY=(); [[ ${COMP_WORDS[0]} == wrapped ]] || return
COMPREPLY=($(compgen -W '--other= alpha beta' -- "$cur")); [[ ${COMP_WORDS[COMP_CWORD-1]} == --other ]] && COMPREPLY=($(compgen -W 'c d' -- "$cur")); }
"""}


def wraps(b):
    """a command that wraps another one"""
    rng = b.rng
    n = 20 if b.thorough() else 5
    b.begin('wraps', '%d random sets of options of a command that wraps another one: after any of its own options the candidates of both are offered; nothing of the other one '
                     'without `wraps`; in all three shells' % n)
    for _ in range(n):
        kinds = rng.sample([('1', ['-o', '--own']), ('0', ['-x', '--xx']), ('?', ['-p', '--opt']), ('1', ['-q']), ('0', ['-y']), ('1', ['--long.name']), ('0', ['--n+n']), ('0', ['-old'])], rng.randint(2, 6))
        kinds.append(('1', ['-older']))
        options = []
        for kind, strings in kinds:
            o = {'option_strings': strings, 'repeatable': True}
            if kind != '0':
                o.update(metavar='M', complete=['choices', ['a', 'b']])
            if kind == '?':
                o['optional_arg'] = True
            options.append(o)
        queries, want = [], []

        def own(kind, strings):
            s = rng.choice(strings)
            short, forms = len(s) == 2, []
            if kind == '0':
                return [s]
            if kind == '?':
                return [s + ('' if rng.random() < .5 else 'a' if short else '=a')]
            return rng.choice([[s, 'a'], [s + 'a'] if short else [s + '=a'], [s, 'alpha']])
        for _q in range(20):
            before = [w for k in rng.sample(kinds, rng.randint(0, min(3, len(kinds)))) for w in own(*k)]
            tail, exp = rng.choice([(['al'], {'alpha'}), (['--other', ''], {'c', 'd'}), (['--oth'], {'--other'}), (['be'], {'beta'})])
            queries.append(['mytool'] + before + tail)
            want.append(exp)
        for kind, strings in kinds:
            if kind == '1':
                queries.append(['mytool', strings[0], ''])
                want.append({'a', 'b'})
        conf = {'set_function_prefix': '_p_$PROG'} if rng.random() < .3 else {}
        for other in (True, False):
            dicts = [{'prog': 'mytool', 'options': options}]
            if other:
                dicts[0]['wraps'] = 'wrapped'
            for shell in SHELLS:
                script = generate(shell, dicts, config(**conf))
                out, err, left = getattr(shells, shell + '_complete')(script, 'mytool', queries, extra=WRAPPED[shell])
                if out is None:
                    b.skip('%s gave no answer' % shell)
                    continue
                if err.strip():
                    b.fail('stderr:wraps:' + shell, '%s prints %r' % (shell, err[:300]), definition=dicts)
                if not other and 'loaded' in left:
                    b.fail('wraps:loaded', 'Bash: the completion of a command is loaded though there is none wrapped', definition=dicts)
                for words, exp, replies in zip(queries, want, out):
                    b.case(key=(shell, str(dicts), tuple(words)))
                    got = {(r if isinstance(r, str) else r[0]).rstrip('= ') for r in replies}
                    foreign = {'alpha', 'beta', 'c', 'd', '--other'}
                    if other and not exp <= got:
                        b.fail('wraps:' + shell, '%s: `%s` offers %r, without %r' % (shell, ' '.join(words), sorted(got), sorted(exp - got)), definition=dicts, words=words)
                    if not other and got & foreign:
                        b.fail('wraps:none:' + shell, '%s: `%s` offers %r' % (shell, ' '.join(words), sorted(got & foreign)), definition=dicts, words=words)


BOUNDED = [outside, wraps, candidates, separators, wordbreaks, lists, conditions, loads]

# ------------------------------------------------------------------ contracts

bc = instrument.mod('bash_complete')
fc = instrument.mod('fish_complete')
zc = instrument.mod('zsh_complete')
sh = instrument.mod('shell')
utils = instrument.mod('utils')


class Helpers:
    """helper functions by name; dynamic functions keep their code"""

    def __init__(self):
        self.used, self.code = [], {}

    def use_function(self, name, *defines):
        self.used.append((name,) + defines)
        return '_' + name

    def add_dynamic_func(self, _ctxt, code):
        name = '_dyn%d' % len(self.code)
        self.code[name] = code
        return name


class Ctxt:
    def __init__(self):
        self.helpers = Helpers()

        class option:
            metavar = 'M'
            help = 'h'
        self.option = option

        class config:
            line_length = 80
        self.config = config


class Inner:
    """a completer inside of another one"""

    def __init__(self, n, empty=False):
        self.n, self.empty = n, empty

    def get_code(self, append=None):
        return '' if self.empty else 'code%s%s' % (self.n, '' if append is None else ' append' if append else ' set')

    def get_function(self):
        return 'true' if self.empty else 'func%s' % self.n

    get_sequence_function = get_function

    def get_action_string(self):
        return 'action%s' % self.n


class Completer:
    """complete_from_def gives the inner completer of a definition"""

    def complete_from_def(self, _ctxt, _trace, c):
        return c[1]


def key_definitions(v):
    """get_key_value_list_definitions: for any number of definitions, each keeps its key (without the star), description, completer and excludes; it is repeatable exactly if it has a star"""
    v.covers('utils.get_key_value_list_definitions')
    n = v.choose('fields', [3, 4])
    excludes = ['a', 'b']

    def mk(name):
        return [v.str(name + '.key'), v.str(name + '.desc'), ['choices', name]] + ([excludes] if n == 4 else [])
    defs = v.list('definitions', mk)
    got = utils.get_key_value_list_definitions(defs)
    if not bool(defs):
        v.prove(not [s for s in got if not isinstance(s, vc.Seg)], 'nothing')
        return
    outs = [o for s in got if isinstance(s, vc.Seg) for o in s.outs]
    v.prove(len(outs) == 1, 'one definition for each')
    if len(outs) != 1:
        return
    d, e = outs[0], defs.elem
    if v.holds(e[0].startswith('*')):
        v.prove(d.repeatable is True, 'repeatable')
        v.same('*' + d.key, e[0], 'key')
    else:
        v.prove(d.repeatable is False, 'not repeatable')
        v.same(d.key, e[0], 'key')
    v.same(d.description, e[1], 'description')
    v.prove(d.completer is e[2], 'completer')
    v.prove(list(d.excludes) == (excludes if n == 4 else []), 'excludes')


def _range(shell):
    def c(v):
        a, z, s = v.int('start'), v.int('stop'), v.int('step')
        args = [a, z] + ([s] if v.choose('with step', [True, False]) else [])
        one = len(args) == 2 or v.holds(s == 1)
        ctxt = Ctxt()
        t = lambda x: vc.SymStr.of('') + str_of(x)
        if shell == 'bash':
            v.covers('bash_complete.BashCompleter.range')
            got = bc.BashCompleter().range(ctxt, [], *args).compgen_args
            want = "-W '{" + t(a) + '..' + t(z) + ('' if one else '..' + t(s)) + "}'"
            v.same(got, want, 'the numbers')
        elif shell == 'fish':
            v.covers('fish_complete.FishCompleter.range')
            got = fc.FishCompleter().range(ctxt, [], *args).args
            want = ['seq', t(a)] + ([] if one else [t(s)]) + [t(z)]
            v.prove(len(got) == len(want), 'arguments of seq')
            for g, w in zip(got, want):
                v.same(g, w, 'argument of seq')
        else:
            v.covers('zsh_complete.ZshCompleteRange.get_action_string', 'zsh_complete.ZshCompleteRange.get_function')
            r = zc.ZshCompleter().range(ctxt, [], *args)
            v.same(r.get_action_string(), "'({" + t(a) + '..' + t(z) + ('' if one else '..' + t(s)) + "})'", 'the numbers')
            code = ctxt.helpers.code[r.get_function()]
            v.same(code, 'compadd -- $(command seq ' + t(a) + ('' if one else ' ' + t(s)) + ' ' + t(z) + ')', 'the numbers of the function')
    c.__name__ = 'range_' + shell
    c.__doc__ = '%s: any range becomes its first number, last number and step, in this order; the step is left out only if it is 1' % shell
    return c


def str_of(x):
    return vc.API.tostr(x)


def _value_list(shell):
    def c(v):
        words = v.list('values', lambda n: v.str(n), minlen=1) if shell == 'bash' else v.choose('values', [['a'], ["it's", 'b c'], ['x', '$y', '\\z', 'n']])
        sep = v.str('separator')
        opts = {'values': words}
        dup = False
        if v.choose('separator', [True, False]):
            opts['separator'] = sep
        else:
            sep = ','
        if v.choose('duplicates', [True, False]):
            opts['duplicates'] = dup = v.choose('value', [True, False])
        ctxt = Ctxt()
        v.patch(bc if shell == 'bash' else fc, 'is_dict_type', lambda x: False)
        if shell == 'bash':
            v.covers('bash_complete.BashCompleter.value_list')
            got = bc.BashCompleter().value_list(ctxt, [], opts).args
            head = ['_value_list'] + (['-d'] if dup else [])
            v.prove(list(got[:len(head)]) == head, 'the helper, -d for duplicates')
            v.same(got[len(head)], sep, 'separator')
            rest = list(got[len(head) + 1:])
            v.prove(len(rest) == 1 and isinstance(rest[0], vc.Seg) and rest[0].src is words and len(rest[0].outs) == 1 and rest[0].outs[0] is words.elem, 'all values, in order')
            v.prove((('value_list', 'duplicates') in ctxt.helpers.used) == dup, 'the helper knows -d')
        else:
            v.covers('fish_complete.FishCompleteValueList.__init__')
            got = fc.FishCompleter().value_list(ctxt, [], opts)
            for args in (got.args, *([got._get_nested().args] if dup and hasattr(got, '_get_nested') else [])):
                k = list(args)
                v.prove(('-d' in [x for x in k if isinstance(x, str)] or k[0] == '__fish_complete_list') == dup, 'duplicates')
                v.same(k[-2], sep, 'separator')
                code = ctxt.helpers.code[k[-1]]
                v.prove(Lexer('fish').words(code.replace('\\\n', ' ')) == ['printf', '%s\\n'] + words, 'all values, in order')
    c.__name__ = 'value_list_' + shell
    c.__doc__ = '%s: a value list gets its separator (a comma, if it has none), its values in order, and offers values again exactly if it has duplicates' % shell
    return c


def _combine(shell):
    def c(v):
        n = v.choose('completers', [1, 2, 3, 4])
        inner = [Inner(i) for i in range(n)]
        ctxt = Ctxt()
        defs = [['c', i] for i in inner]
        if shell == 'bash':
            v.covers('bash_complete.BashCompleteCombine.get_code')
            got = bc.BashCompleteCombine(ctxt, [], Completer(), defs)
            append = v.choose('append', [True, False])
            want = [i.get_code(append=append if k == 0 else True) for k, i in enumerate(inner)]
            v.prove(got.get_code(append=append).split('\n') == want, 'every completer; all but the first keep what the others offer')
        elif shell == 'fish':
            v.covers('fish_complete.FishCompleteCombine.get_code', 'fish_complete.FishCompleteCombine.get_args')
            got = fc.FishCompleteCombine(ctxt, [], Completer(), defs)
            v.prove(got.get_code().split('\n') == [i.get_code() for i in inner], 'every completer')
            v.prove(got.get_args() == ['-f', '-a', '(%s)' % '; '.join(i.get_code() for i in inner)], 'every completer, inline')
        else:
            v.covers('zsh_complete.ZshCompleteCombine.__init__')
            got = zc.ZshCompleteCombine(ctxt, [], Completer(), defs)
            code = ctxt.helpers.code[got.get_function()]
            v.prove([x for x in code.replace('\\\n', ' ').split() if x] == ['_alternative'] + ['::' + i.get_action_string() for i in inner], 'every completer')
    c.__name__ = 'combine_' + shell
    c.__doc__ = '%s: combine runs every completer (up to four), none removes what another one offers' % shell
    return c


def _keys(shell, kind):
    def c(v):
        """every key with its function and the keys that it excludes"""
        condition = v.choose('condition', [None] if (shell, kind) == ('fish', 'pair') else [None, 'cond'])     # (see known_findings.json: conditions of Fish)
        n = v.choose('keys', [1, 2])
        keys, defs = [], []
        for i in range(n):
            k = v.str('key%d' % i)
            star = kind == 'list' and v.choose('star%d' % i, [True, False])
            if not star and kind == 'list':
                v.assume(vc.API.not_(k.startswith('*')))
            how = v.choose('completer%d' % i, ['nothing', 'none', 'some'])
            comp = {'nothing': None, 'none': ['none'], 'some': ['c', Inner(i)]}[how]
            ex = ['e%d' % i] if kind == 'list' and v.choose('excludes%d' % i, [True, False]) else []
            keys.append((k, star, how, ex))
            defs.append([('*' + k) if star else k, 'text', comp] + ([ex] if ex else []))
        ctxt = Ctxt()
        mod, name = {'bash': (bc, 'BashComplete'), 'fish': (fc, 'FishComplete')}[shell]
        cls = getattr(mod, name + ('KeyValueList' if kind == 'list' else 'KeyValuePair'))
        v.covers('%s.%s.__init__' % (mod.__name__.rpartition('.')[2], cls.__name__))
        seps = [',', '='] if kind == 'list' else ['=']
        quoted = []
        def quote(x, *a):               # (C01: the shells read it as x)
            quoted.append(x)
            return 'quoted'
        v.patch(mod.shell, 'quote', quote)
        obj = cls(ctxt, [], Completer(), *seps, defs, condition)
        want = []
        for i, (k, star, how, ex) in enumerate(keys):
            func = {'nothing': 'false', 'none': 'true', 'some': 'func%d' % i}[how]
            excluded = ([] if star else [k]) + ex
            if condition is not None:
                want.append(k)
            want += [k] + (['text'] if shell == 'fish' else []) + [func]
            if kind == 'list':
                want.append(join(excluded))
        tail = ([condition] if condition is not None else []) + seps
        v.prove(len(quoted) == len(want) + len(tail), 'nothing else is passed')
        for g, w in zip(quoted, want + tail):
            v.same(g, w, 'what the helper gets: keys, functions, excluded keys, separators')
    c.__name__ = 'keys_%s_%s' % (kind, shell)
    c.__doc__ = ('%s, key_value_%s: the helper gets every key with its own function (false without a value, true for any value) and the keys that it excludes (itself, unless it is '
                 'repeatable)' % (shell, kind))
    return c


def join(xs):
    r = xs[0] if xs else ''
    for x in xs[1:]:
        r = r + ' ' + x
    return r


def _prefix(shell):
    def c(v):
        p = v.str('prefix')
        ctxt = Ctxt()
        mod, name = {'bash': (bc, 'BashCompleter'), 'fish': (fc, 'FishCompleter'), 'zsh': (zc, 'ZshCompleter')}[shell]
        v.covers('%s_complete.%s.prefix' % (shell, name))
        comp = getattr(mod, name)()
        comp.complete_from_def = Completer().complete_from_def
        got = comp.prefix(ctxt, [], p, ['c', Inner('X')])
        v.prove(len(got.args) == 3 and got.args[0] == '_prefix' and got.args[2] == 'funcX', 'the helper and the function of the completer')
        v.same(got.args[1], p, 'the prefix')
    c.__name__ = 'prefix_' + shell
    c.__doc__ = '%s: prefix passes its text and the function of its completer to the helper' % shell
    return c


def _list(shell):
    def c(v):
        sep = v.str('separator')
        opts = {}
        with_sep = v.choose('separator', [True, False])
        if with_sep:
            opts['separator'] = sep
        dup = False
        if v.choose('duplicates', [True, False]):
            opts['duplicates'] = dup = v.choose('value', [True, False])
        ctxt = Ctxt()
        mod, name = {'fish': (fc, 'FishCompleter'), 'zsh': (zc, 'ZshCompleter')}[shell]
        v.covers('%s_complete.%s.list' % (shell, name))
        comp = getattr(mod, name)()
        comp.complete_from_def = Completer().complete_from_def
        got = comp.list(ctxt, [], ['c', Inner('X')], *([opts] if opts or v.choose('no options', [True, False]) else []))
        args = list(got.args)
        v.prove(args[-1] == 'funcX', 'the function of the completer')
        flags = [a for a in args if isinstance(a, str)]
        v.prove(('-d' in flags) == dup, 'duplicates')
        if shell == 'fish':
            v.prove(args[0] == '_list' and len(args) == (4 if dup else 3), 'the helper')
            v.same(args[-2], sep if with_sep else ',', 'separator')
        else:
            v.prove(args[0] == '_sequence', '_sequence')
            if '-s' in flags:
                v.same(args[flags.index('-s') + 1], sep if with_sep else ',', 'separator')
            else:
                v.same(sep if with_sep else ',', ',', 'a comma')
    c.__name__ = 'list_' + shell
    c.__doc__ = '%s: list passes its separator, whether values may be repeated, and the function of its completer' % shell
    return c


def zsh_files(v):
    """Zsh: file and directory pass their directory (relative ones to the helper), the pattern of their extensions and their ignored patterns in order, and nothing else"""
    v.covers('zsh_complete.ZshCompleter.file', 'zsh_complete.ZshCompleter.directory')
    what = v.choose('what', ['file', 'directory'])
    v.patch(zc, 'make_file_extension_pattern', lambda e, f: ('PATTERN', e, f))
    v.patch(zc, 'bash_glob_to_zsh_glob', lambda g: 'G' + g)
    opts = {}
    where = v.choose('directory', ['none', 'empty', 'absolute', 'relative'])
    d = v.str('d')
    if where == 'empty':
        opts['directory'] = v.choose('empty value', [None, ''])
    elif where != 'none':
        v.assume(d.startswith('/') if where == 'absolute' else vc.API.not_(d.startswith('/')))
        v.assume(vc.API.not_(d == ''))
        opts['directory'] = d
    ext = globs = None
    fuzzy = False
    if what == 'file':
        ext = v.choose('extensions', [None, ['c', 'h']])
        globs = v.choose('ignore', [None, ['a*'], ['a*', 'b']])
        if ext:
            opts['extensions'] = ext
        if v.choose('with fuzzy', [False, True]):
            opts['fuzzy'] = fuzzy = v.choose('fuzzy', [False, True])
        if globs:
            opts['ignore_globs'] = globs
    got = getattr(zc.ZshCompleter(), what)(Ctxt(), [], *([opts] if opts or v.choose('empty options', [False, True]) else []))
    args = list(got.args)
    helper = where == 'relative'
    v.prove(args.pop(0) == ('_path_files_relative' if helper else '_files' if what == 'file' else '_directories'), 'the function')
    if helper:
        v.same(args.pop(0), d, 'directory')
        if what == 'directory':
            v.prove('-/' in args, 'only directories')
            args.remove('-/')
    seen = {}
    while args:
        v.prove(args[0] in ('-W', '-g', '-F') and len(args) > 1 and args[0] not in seen, 'known flags')
        seen[args[0]] = args[1]
        del args[:2]
    v.prove(('-W' in seen) == (where == 'absolute'), 'flag of the directory')
    if '-W' in seen:
        v.same(seen['-W'], d, 'directory')
    v.prove(seen.get('-g') == (('PATTERN', ext, fuzzy) if ext else None), 'extensions')
    v.prove(seen.get('-F') == ('(%s)' % ' '.join('G' + g for g in globs) if globs else None), 'ignored patterns')


CONTRACTS = [zsh_files, key_definitions] + [_range(s) for s in SHELLS] + [_value_list('bash'), _value_list('fish')] + [_combine(s) for s in SHELLS] + [
    _keys(s, k) for s in ('bash', 'fish') for k in ('list', 'pair')] + [_prefix(s) for s in SHELLS] + [_list(s) for s in ('fish', 'zsh')]
RULE = ('a case is one completion: a random completer (choices, ranges, lists, keys with values, prefixes, combinations; nested), a text that could have been typed, and one shell; the '
        'candidates are compared with an independent model of the completers. Scripts of random definitions are checked for syntax errors and messages')
TRUSTED = ['the helper functions in the generated scripts and the shells themselves (bounded part)']
ASSUMPTIONS = ['Fish offers words that contain the typed text when no word begins with it, and Zsh words whose parts (at - and _) begin with it: both are left to the shell',
               'completers that run programs or read system data are generated and checked for syntax, but not run',
               'in lists, only typed texts whose completed parts are declared are judged']
