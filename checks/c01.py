"""C01: text put into a script as a quoted word is read back as exactly that word."""
import itertools

from pydv import instrument
from pydv.lexers import Lexer, reads_back
from . import hostile, shells
from .common import generate, SHELLS, real

shell = instrument.mod('shell')
fish_utils = instrument.mod('fish_utils')
fish_conditions = instrument.mod('fish_conditions')
bash_complete = instrument.mod('bash_complete')

TRUSTED = ['word lexers of Bash, Zsh and Fish (pydv/lexers.py), compared with the installed shells in the bounded part']
ASSUMPTIONS = ['texts contain no NUL character (no shell word can)']
RULE = ('quoted words: every string over a 33 character alphabet up to length 2 (thorough: 3), the hostile word list and '
        'random strings, evaluated by the real shells; scripts: definitions whose choices, keys, values, help and metavar '
        'texts are hostile, completed in the real shells; a case is non-trivial when its text needs quoting')


def _quote(sh):
    def c(v):
        s = v.str('s')
        reads_back(v, Lexer(sh), shell.quote(s), s, 'quote')
    c.__name__ = 'quote_%s' % sh
    c.__doc__ = 'for every text s: %s reads quote(s) as exactly the one word s' % sh
    return c


def _double(sh):
    def c(v):
        s = v.str('s')
        reads_back(v, Lexer(sh), '"' + fish_conditions.escape_in_double(s) + '"', s, 'escape_in_double')
    c.__name__ = 'escape_in_double_%s' % sh
    c.__doc__ = 'for every text s: %s reads "<escape_in_double(s)>" as the one word s' % sh
    return c


def fish_string(v):
    """a FishString is written raw when it is marked raw, and reads back as its text otherwise"""
    s = v.str('s')
    raw = v.choose('raw', [True, False])
    out = fish_utils.FishString(s, raw).escape()
    if raw:
        v.same(out, s, 'raw text is unchanged')
    else:
        reads_back(v, Lexer('fish'), out, s, 'escape')


def quote_empty(v):
    """quote('', False) is empty; otherwise the flag changes nothing"""
    s = v.str('s')
    a = shell.quote(s, quote_empty_string=False)
    if bool(s == ''):
        v.same(a, '', 'empty')
    else:
        v.same(a, shell.quote(s), 'same as with the flag')


def _condition(n):
    def c(v):
        xs = [v.str('a%d' % i) for i in range(n)]
        out = fish_conditions.make_condition_command('$cmd', xs)
        # "<out>" is evaluated twice, as a double quoted word and then as a command: by the contracts
        # escape_in_double_fish and quote_fish every argument survives both readings
        want = '$cmd'
        for x in xs:
            want = want + ' ' + fish_conditions.escape_in_double(shell.quote(x))
        v.same(out, want, 'every argument is quoted, then escaped for the double quotes')
    c.__name__ = 'make_condition_command_%d' % n
    c.__doc__ = 'a fish condition inside double quotes keeps each of its %d arguments, whatever their text' % n
    return c


CONTRACTS = [_quote(s) for s in SHELLS] + [_double('fish'), fish_string, quote_empty, _condition(1), _condition(2)]


# ---------------------------------------------------------------------------

def check_words(b, quote, texts, what, conv=lambda t: t):
    for sh in SHELLS:
        for chunk in itertools.batched(texts, 4000):
            if not chunk:
                continue
            out, err = shells.words_of(sh, [quote(t) for t in chunk])
            for i, t in enumerate(chunk):
                b.case(key=(what, sh, t))
                got = out[i] if i < len(out) else None
                if got != [conv(t)]:
                    # make sure it is this text and not its neighbour
                    one, err1 = shells.words_of(sh, [quote(t)])
                    if one != [[conv(t)]]:
                        b.fail('%s:%s:%s' % (what, sh, t), '%s(%r) = %s is read by %s as %r %s' % (
                            what, t, quote(t), sh, one, err1[:200]), shell=sh, text=t, quoted=quote(t))
                        return
                    if got is None:
                        b.fail('%s:%s' % (what, sh), 'the script stopped before %r: %s' % (t, err[:300]), shell=sh, text=t)
                        return


def replay(name, hints):
    quote = real('shell').quote
    texts = [h for h in hints.values() if isinstance(h, str) and '\0' not in h]
    texts += list(hostile.short_strings(2)) + hostile.WORDS
    for sh in SHELLS:
        lex = Lexer(sh)
        for t in texts:
            if lex.words(quote(t)) != [t]:
                got, err = shells.words_of(sh, [quote(t)])
                if got != [[t]]:
                    return ('quote:%s:%s' % (sh, t), 'quote(%r) = %s is read by %s as %r %s' % (t, quote(t), sh, got, err[:200]),
                            {'shell': sh, 'text': t, 'quoted': quote(t)})
    return None


def bounded(b):
    rng = b.rng
    quote = real('shell').quote
    maxlen = 3 if b.thorough() else 2
    texts = list(hostile.short_strings(maxlen)) + hostile.WORDS
    texts += [hostile.random_string(rng) for _ in range(20000 if b.thorough() else 3000)]
    b.begin('quote in the real shells', 'all strings <= %d over %d characters + random <= 12' % (maxlen, len(hostile.ALPHA)))
    b.case(sample={'text': "it's $HOME", 'quoted': quote("it's $HOME")})
    check_words(b, quote, texts, 'quote')
    b.begin('join_quoted in the real shells', 'lists of 0-4 hostile words')
    jq = real('shell').join_quoted
    lists = [[rng.choice(hostile.WORDS) for _ in range(rng.randint(1, 4))] for _ in range(800)]
    for sh in SHELLS:
        out, err = shells.words_of(sh, [jq(l) for l in lists])
        for i, l in enumerate(lists):
            b.case(key=('join', sh, tuple(l)))
            if i >= len(out) or out[i] != l:
                b.fail('join_quoted:%s' % sh, 'join_quoted(%r) is read by %s as %r %s' % (
                    l, sh, out[i] if i < len(out) else None, err[:200]), shell=sh, words=l)
                break
    scripts(b)


# kinds of completer: (name, excluded texts, completer definition)
def completers(h, other):
    yield 'choices', ['choices', [h, other]]
    yield 'choices-dict', ['choices', {h: 'D ' + h, other: h}]
    yield 'choices-long', ['choices', [h, other] + ['filler%02d' % i for i in range(40)]]
    yield 'choices-dict-long', ['choices', dict([(h, h), (other, 'x')] + [('filler%02d' % i, 'f') for i in range(40)])]
    if ',' not in h:
        yield 'value_list', ['value_list', {'values': [h, other]}]
        yield 'value_list-dict', ['value_list', {'values': {h: h, other: 'z'}}]
    if not any(c in h for c in ' \t=,\u00a0') and h and not h.startswith('*'):
        yield 'key_value_list', ['key_value_list', ',', '=', [[h, h, ['choices', ['q']]], [other, 'z', None]]]
        yield 'key_value_pair', ['key_value_pair', '=', [[h, h, ['choices', ['q']]], [other, 'z', None]]]


DRIVERS = {'bash': shells.bash_complete, 'fish': shells.fish_complete, 'zsh': shells.zsh_complete}


def unescape(s):
    out, i = '', 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            i += 1
        out += s[i]
        i += 1
    return out


def scripts(b):
    b.begin('hostile definitions completed in the real shells', 'one option per hostile word and completer kind')
    words = hostile.WORDS if b.thorough() else hostile.WORDS[:46]
    per_kind = {}
    for i, h in enumerate(words):
        for kind, compl in completers(h, 'zz'):
            per_kind.setdefault(kind, []).append((h, {
                'option_strings': ['--o%d' % i], 'help': h, 'metavar': h, 'complete': compl}))
    for kind, items in per_kind.items():
        ds = [{'prog': 'mytool', 'help': items[0][0], 'options': [o for _, o in items]}]
        for sh in SHELLS:
            script = generate(sh, ds)
            queries = [['mytool', o['option_strings'][0], ''] for _, o in items]
            out, err, left = DRIVERS[sh](script, 'mytool', queries)
            if left:
                b.fail('canary:%s:%s' % (sh, kind), 'completing %s in %s executed text of the definition: %s' % (kind, sh, left),
                       shell=sh, kind=kind)
            if out is None:
                b.fail('script:%s:%s' % (sh, kind), 'the %s script for hostile %s does not load: %s' % (sh, kind, err[:300]),
                       shell=sh, kind=kind)
                continue
            for (h, o), r in zip(items, out):
                b.case(key=(sh, kind, h))
                got = [x[0] if isinstance(x, tuple) else x for x in r]
                if sh == 'zsh' or (sh == 'bash' and 'value_list' not in kind):
                    got = [unescape(x) for x in got]
                want = {h, 'zz'}
                if kind.startswith('key') :
                    got = [x[:-1] if x.endswith('=') and x not in want else x for x in got]
                got = {x for x in got if not x.startswith('filler')}
                if sh == 'bash' and 'value_list' in kind and {unescape(x) for x in got} == want:
                    got = want          # inserted with or without backslashes
                if got != want:
                    b.fail('%s:%s:%s' % (sh, kind, h), '%s completes %s of %r as %r' % (sh, kind, h, sorted(got)),
                           shell=sh, kind=kind, text=h, offered=r)
