"""C20: help texts are parsed without losing options, and never fail."""
import os
import re
import tempfile

from pydv import instrument, vc
from . import gen, hostile
from .common import quiet, real

RULE = 'a case is one help text, converted to YAML, which is loaded again'
TRUSTED = ['PyYAML']
ASSUMPTIONS = []

hp = instrument.mod('help_parser')
hc = instrument.mod('help_converter')

BREAK = ' \t\n,|=['
PROBES = BREAK + ']<>(){}\'"-'
CS = vc.CharSet


def stream(v):
    """the real CharStream, on any text"""
    v.covers('help_parser.CharStream.get', 'help_parser.CharStream.peek', 'help_parser.CharStream.peek_str', 'help_parser.CharStream.is_end',
             'help_parser.CharStream.is_space', 'help_parser.CharStream.copy')
    s = hp.CharStream(vc.Tape())
    v.prove(s.pos == 0, 'starts at the first character')
    return s


def kept(s, skip=''):
    t, out = s.string, vc.SymStr([])
    for i in range(s.pos):
        if skip and t.cells[i][0] == 'char' and vc.refined(t.cells[i][1]) <= CS(skip):
            continue
        out = out + t.read(i, i + 1)
    return out


def all_of(v, s, result, allowed=''):
    """what is returned is what was read, apart from characters in `allowed`"""
    v.same(result, kept(s, allowed), 'the result is what was read')
    v.prove(s.string.dropped(0, s.pos) <= CS(allowed), 'nothing else is skipped')


class Stubs:
    """the contracts of the functions that are called, used instead of their bodies"""

    def __init__(self, v, *names):
        self.v, self.n = v, 0
        for n in names:
            v.patch(hp, n, getattr(self, n))

    def name(self, base):
        self.n += 1
        return vc.CTX.fresh(base)

    def var(self, base, charset=None, nonempty=False):
        x = vc.SymStr.var(self.name(base), charset if charset is not None else CS.all())
        if nonempty:
            vc.CTX.assume(x.z != vc.z3.StringVal(''))
        return x

    def maybe(self, what):
        return vc.CTX.decide(vc.z3.Bool(self.name(what)))

    def take(self, s, kind, x):
        s.pos = s.string.put(s.pos, (kind, x))
        return x

    def eat_space(self, s):
        t = s.string
        c = t.cell(s.pos)
        if c is None:
            return ''
        if c[0] == 'dropped':
            s.pos += 1
            return c[1]
        if c[0] != 'char':
            raise vc.Unsupported('spaces in what was read as a whole')
        if not vc.API.truth(vc.API.contains(c[1], (' ', '\t'))):
            return ''
        x = self.take(s, 'dropped', c[1] + self.var('spaces', CS(' \t')))
        n = t.cell(s.pos)
        if n is not None:
            for ch in ' \t':
                self.v.assume(vc.API.not_(n[1] == ch))
        return x

    def eat_line(self, s):
        if s.string.cell(s.pos) is None:
            return ''
        x = self.take(s, 'kept', self.var('line', None, True))
        return x

    def parse_option_string(self, s):
        if not self.maybe('is option'):
            return None
        self.take(s, 'dropped', self.var('spaces', CS(' \t')))
        return self.take(s, 'kept', self.var('option', CS(BREAK, True), True))

    def parse_bracket(self, s):
        return self.take(s, 'kept', self.var('bracket', None, True))

    parse_quoted_string = parse_bracket

    def parse_metavar(self, s):
        return self.take(s, 'kept', self.var('metavar'))

    def is_option_delimiter(self, s):
        return self.maybe('is delimiter')

    def parse_option_delimiter(self, s):
        if not self.maybe('is delimiter'):
            return False
        self.take(s, 'dropped', self.var('delimiter', CS(' \t,|'), True))
        return True

    def parse_trailing_description_line(self, s):
        if s.string.cell(s.pos) is None or not self.maybe('is trailing'):
            return None
        self.take(s, 'dropped', self.var('spaces', CS(' \t'), True))
        return self.take(s, 'kept', self.var('line'))

    def parse_description(self, s):
        self.take(s, 'dropped', self.var('spaces', CS(' \t')))
        return self.take(s, 'kept', self.var('description'))

    def parse_option_with_metavar(self, s):
        if not self.maybe('is option'):
            return None
        self.take(s, 'dropped', self.var('structure', CS(' \t=')))
        o = hp.OptionWithMetavar(self.var('option', None, True), self.var('metavar') if self.maybe('metavar') else None, self.maybe('optional'))
        self.take(s, 'kept', text_of(o))
        return o

    def parse_options_with_description(self, s):
        if not self.maybe('is option'):
            return None
        self.take(s, 'dropped', self.var('structure', CS(' \t=,|')))
        o = hp.OptionsWithDescription([hp.OptionWithMetavar(self.var('option', None, True), None, False)], self.var('description'))
        self.take(s, 'kept', text_of(o))
        return o


def text_of(x):
    """the text that a result consists of"""
    if isinstance(x, vc.LBase):
        return vc.CTX.base_text[id(x)]
    if isinstance(x, hp.OptionWithMetavar):
        return vc.SymStr.of(x.option) + (x.metavar if x.metavar is not None else '')
    if isinstance(x, hp.OptionsWithDescription):
        r = vc.SymStr([])
        for o in x.options:
            r = r + text_of(o)
        return r + (x.description if x.description is not None else '')
    if isinstance(x, hp.Unparsed):
        return vc.SymStr.of(x.text)
    raise vc.Unsupported('text of %s' % type(x).__name__)


def lines_are_read(v):
    """eat_line returns all it reads: everything up to and including the end of the line, or to the end"""
    v.covers('help_parser.eat_line')
    v.cut(PROBES)
    s = stream(v)
    r = hp.eat_line(s)
    all_of(v, s, r)
    cells = s.string.cells[:s.pos]
    inner = [c for c in cells if c[0] == 'loop']
    v.prove(all('\n' not in c[1].charset() for c in inner), 'one line only')
    if cells and cells[-1][0] == 'char':
        v.prove(cells[-1][1] == '\n', 'up to the end of the line')
    else:
        v.prove(s.string.cell(s.pos) is None, 'up to the end')


def spaces_are_read(v):
    """eat_space returns all it reads: spaces and tabs, as many as there are"""
    v.covers('help_parser.eat_space')
    v.cut(PROBES)
    s = stream(v)
    r = hp.eat_space(s)
    all_of(v, s, r)
    v.prove(vc.refined(r) <= CS(' \t'), 'only spaces and tabs')
    n = s.string.cell(s.pos)
    v.prove(n is None or vc.API.not_(vc.API.contains(n[1], (' ', '\t'))), 'all of them')


def option_strings_are_read(v):
    """parse_option_string returns an option string of permitted characters, and reads nothing else but spaces; or reads nothing"""
    v.covers('help_parser.parse_option_string')
    v.cut(PROBES)
    Stubs(v, 'eat_space')
    s = stream(v)
    r = hp.parse_option_string(s)
    if r is None:
        v.prove(s.pos == 0, 'nothing is read')
        return
    all_of(v, s, r, ' \t')
    r = vc.SymStr.of(r)
    v.prove(r.charset() <= CS(BREAK, True), 'no character that ends options')
    v.prove(r.startswith('-'), 'starts with a hyphen')
    v.prove(vc.API.not_(r == '-'), 'not just a hyphen')
    v.prove(vc.API.not_(r == '--'), 'not just two hyphens')


def brackets_are_read(v):
    """parse_bracket and parse_quoted_string return all they read, within one line; it ends with the closing character or is one character"""
    v.covers('help_parser.parse_bracket', 'help_parser.parse_quoted_string')
    v.cut(PROBES)
    s = stream(v)
    f, pairs = v.choose('function', [(hp.parse_bracket, ('<>', '[]', '()', '{}')), (hp.parse_quoted_string, ('""', "''"))])
    r = f(s)
    if r is None:
        v.prove(s.pos == 0, 'nothing is read')
        return
    all_of(v, s, r)
    r = vc.SymStr.of(r)
    v.prove('\n' not in vc.refined(r), 'within the line')
    first = s.string.cells[0]
    v.prove(any(bool(vc.API.truth(r.startswith(a))) and bool(vc.API.truth(r.endswith(b))) for a, b in pairs) or s.pos == 1 and first[0] == 'char', 'a bracketed expression or one character')


def metavars_are_read(v):
    """parse_metavar returns all it reads, and stops at a space, the end of the line, a delimiter or the end"""
    v.covers('help_parser.parse_metavar')
    v.cut(PROBES)
    Stubs(v, *[n for n in ('parse_bracket', 'parse_quoted_string', 'is_option_delimiter') if hasattr(hp, n)])
    s = stream(v)
    r = hp.parse_metavar(s)
    all_of(v, s, r)


def trailing_lines_are_read(v):
    """parse_trailing_description_line returns all it reads but the indentation, or reads nothing"""
    v.covers('help_parser.parse_trailing_description_line')
    v.cut(PROBES)
    Stubs(v, 'eat_space', 'eat_line')
    s = stream(v)
    r = hp.parse_trailing_description_line(s)
    if r is None:
        v.prove(s.pos == 0, 'nothing is read')
        return
    all_of(v, s, r, ' \t')


def descriptions_are_read(v):
    """parse_description returns all it reads but the indentation, for any number of lines"""
    v.covers('help_parser.parse_description')
    v.cut(PROBES)
    Stubs(v, 'eat_space', 'eat_line', 'parse_trailing_description_line')
    s = stream(v)
    r = hp.parse_description(s)
    all_of(v, s, r, ' \t')


def options_are_read(v):
    """parse_option_with_metavar returns all it reads but spaces and =; a metavar in brackets is optional, others aren't"""
    v.covers('help_parser.parse_option_with_metavar')
    v.cut(PROBES)
    Stubs(v, *[n for n in ('parse_option_string', 'parse_metavar', 'is_option_delimiter', 'parse_option_delimiter') if hasattr(hp, n)])
    s = stream(v)
    r = hp.parse_option_with_metavar(s)
    if r is None:
        v.prove(s.pos == 0, 'nothing is read')
        return
    all_of(v, s, text_of(r), ' \t=')
    v.same(r.option, s.string.cells[1][1], 'the option string')
    v.prove(r.metavar is not None if r.optional else True, 'only a metavar is optional')


def delimiters_are_read(v):
    """parse_option_delimiter reads spaces and one delimiter, or nothing"""
    v.covers('help_parser.parse_option_delimiter')
    v.cut(PROBES)
    Stubs(v, 'eat_space')
    s = stream(v)
    if not hp.parse_option_delimiter(s):
        v.prove(s.pos == 0, 'nothing is read')
        return
    v.prove(vc.API.contains(s.string.cells[s.pos - 1][1], (',', '|')), 'a delimiter')
    v.prove(s.string.dropped(0, s.pos) <= CS(' \t'), 'and spaces')
    v.prove(s.pos <= 2, 'one delimiter')


def delimiters_are_followed(v):
    """is_option_delimiter reads nothing"""
    if not hasattr(hp, 'is_option_delimiter'):
        raise vc.Unsupported('no function is_option_delimiter')
    v.covers('help_parser.is_option_delimiter')
    v.cut(PROBES)
    Stubs(v, 'parse_option_delimiter', 'parse_option_string')
    s = stream(v)
    hp.is_option_delimiter(s)
    v.prove(s.pos == 0, 'nothing is read')


def option_lines_are_read(v):
    """parse_options_with_description returns all options and the description, of all it reads only spaces, = and delimiters are left out; for any number of options"""
    v.covers('help_parser.parse_options_with_description')
    v.cut(PROBES, text_of)
    Stubs(v, *[n for n in ('parse_option_with_metavar', 'is_option_delimiter', 'parse_option_delimiter', 'parse_description') if hasattr(hp, n)])
    s = stream(v)
    r = hp.parse_options_with_description(s)
    if r is None:
        v.same(kept(s), '', 'nothing is lost')
        return
    all_of(v, s, text_of(r), ' \t=,|')


def texts_are_read(v):
    """parse reads the whole text and returns all of it, except for spaces, = and delimiters of option lines; for any number of lines; and terminates"""
    v.covers('help_parser.parse')
    v.cut(PROBES, text_of)
    Stubs(v, 'parse_options_with_description', 'eat_line')
    s = stream(v)
    r = hp.parse(s)
    v.prove(s.string.cell(s.pos) is None, 'everything is read')
    t = vc.SymStr([])
    for x in r:
        t = t + text_of(x)
    all_of(v, s, t, ' \t=,|')


CONTRACTS = [lines_are_read, spaces_are_read, option_strings_are_read, brackets_are_read, metavars_are_read, trailing_lines_are_read,
             descriptions_are_read, options_are_read, delimiters_are_read, delimiters_are_followed, option_lines_are_read, texts_are_read]


# ------------------------------------------------------------------ bounded

def parse(text):
    p = real('help_parser')
    return p.parse(p.CharStream(text))


def convert(text, tmp):
    """-> YAML, the loaded options, prog"""
    f = os.path.join(tmp, 'help.txt')
    with open(f, 'w', encoding='utf-8', newline='') as fh:
        fh.write(text)
    with quiet():
        y = real('help_converter').from_file_to_yaml(f)
        g = os.path.join(tmp, 'out.yaml')
        with open(g, 'w', encoding='utf-8', newline='') as fh:
            fh.write(y)
        c = real('yaml_source').load_from_file(g)
    return y, c


STRUCTURE = re.compile(r'[\s,|=]')


def squeeze(text, more=''):
    return ''.join(c for c in STRUCTURE.sub('', text) if c not in more)


def metavar_of(option):
    return [o.metavar for o in option.options if o.metavar]


def judge_text(text, tmp):
    """anything: total, lossless, and the YAML loads with the options that were recognised -> None or (kind, what)"""
    text = text.replace('\r\n', '\n').replace('\r', '\n')       # as text files are read
    try:
        parsed = parse(text)
    except RecursionError:
        raise
    except Exception as e:                                      # pylint: disable=broad-except
        return 'crash', '%s: %s' % (type(e).__name__, e)
    tokens, comments, options = '', [], []
    for p in parsed:
        if hasattr(p, 'text'):
            tokens += p.text
            comments.append(p.text)
        else:
            for o in p.options:
                tokens += o.option + (o.metavar or '')
            tokens += p.description or ''
            options.append(p)
    if squeeze(tokens) != squeeze(text):
        return 'lost', 'the parsed parts are %r' % tokens[:300]
    try:
        y, c = convert(text, tmp)
    except RecursionError:
        raise
    except Exception as e:                                      # pylint: disable=broad-except
        return 'convert', '%s: %s' % (type(e).__name__, str(e)[:300])
    if len(c.options) != len(options):
        return 'options', '%d options are loaded, %d were recognised' % (len(c.options), len(options))
    for o, p in zip(c.options, options):
        if o.option_strings != [x.option for x in p.options]:
            return 'option strings', '%r instead of %r' % (o.option_strings, [x.option for x in p.options])
        if squeeze(o.help or '') != squeeze(p.description or ''):
            return 'description', '%r instead of %r' % (o.help, p.description)
        m = metavar_of(p)
        if squeeze(o.metavar or '', '[]=<>') != squeeze((m or [''])[-1], '[]=<>'):
            return 'metavar', '%r instead of %r' % (o.metavar, m)
        if bool(o.optional_arg) != any(x.optional for x in p.options):
            return 'optional', '%r is wrong for %r' % (o.optional_arg, p.options)
    have = [l[2:] for l in y.split('\n') if l.startswith('# ')]
    for n, t in enumerate(comments):
        want = t.rstrip()
        if n >= len(have) or not same_comment(have[n], want):
            return 'comment', '%r is not kept (%r)' % (want, have[n:n + 1])
    return None


def same_comment(got, want):
    """characters that YAML comments can't contain are written as escapes"""
    return got == want or re.sub(r'\\(x..|u....|U........)', '?', got) == re.sub(
        r'\\(x..|u....|U........)', '?', re.sub('[^\t -~\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe\uff00-\ufffd\U00010000-\U0010ffff]', '?', want))


FRAGMENTS = ['-', '--', '-a', '--foo', '--foo-bar', '-x', ' ', '  ', '   ', '\t', '\n', '\n', '\n  ', '\n          ', '\n              ', ',', ', ', '|', ' | ', '=', '[', ']', '[=',
             '<', '>', '<a b>', '(', ')', '{', '}', '{a,b}', '{a|b}', '"', "'", "it's", '"x y"', 'FILE', 'X', 'word', 'two words', '#', '# x', ':', ': ', '%',
             '-1', '---', '-----', '--=', '-=x', '\\', '\\n', '$x', '`', 'usage:', 'Usage: prog [-h]', '\n\n', 'CMD', 'SIG', 'é', '漢', '\u2028', '\x85', '\x1b[1m',
             '\x00', '\xa0', '\x0b', '\x0c', '\u3000', '\ufeff', '\x7f', '\U0001f600', '\r', '\r\n', '*', '&a', '!x', '@', '...', '[a]', '[=X]', '[X]', '=X', '=<X>', '[=<X Y>]',
             '-\n', 'hy-\n      phen', '<x', '(y', '{z', '[w', "='", '="', 'a,b', 'a|b', '--[no-]x', '-I<dir>', '+x', '/x', '--opt=', '--opt[=', '--opt[=]', '=[]', '=<>', '={}', '={,}']


def any_text(b):
    rng = b.rng
    n = 30000 if b.thorough() else 3000
    b.begin('any text', '%d texts of up to 14 fragments of help texts and odd characters, %d hostile texts' % (n, len(gen.TEXTS) + len(hostile.WORDS)))
    bad = set()
    texts = gen.TEXTS + hostile.WORDS
    with tempfile.TemporaryDirectory() as tmp:
        def one(text):
            b.case(key=text)
            r = judge_text(text, tmp)
            if r and r[0] not in bad:
                bad.add(r[0])
                text = shrink(text, lambda t: (judge_text(t, tmp) or [None])[0] == r[0])
                r = judge_text(text, tmp)
                b.fail('text:' + r[0], 'the help text %r: %s: %s' % (text, r[0], r[1]), text=text)
        for t in texts:
            for form in ('%s', '--x=%s', '--x %s', '-x, --y%s  foo', '--x  %s', '--x\n              %s\n-y', 'usage: %s', '  %s\n'):
                one(form % t)
        for t in FRAGMENTS:
            for form in ('%s', '%s\n', '--a%s', '--a%s desc\n  --b  desc', '-%s', 'usage: %s', '--x=a%s b\n--c  d', '--x a%sb c\n--c  d', '-a %s-b', '--a  de%ssc\n  --b', '%s--a',
                         '  -a, %s--b  x'):
                one(form % t)
        for _ in range(n):
            one(''.join(rng.choice(FRAGMENTS) for _ in range(rng.randint(1, 14))))


def shrink(text, bad):
    changed = True
    while changed:
        changed = False
        for size in (8, 4, 2, 1):
            i = 0
            while i < len(text):
                t = text[:i] + text[i + size:]
                if bad(t):
                    text, changed = t, True
                else:
                    i += size
    return text


METAVARS = ['X', 'FILE', 'file-name', '<x>', '<two words>', '{a,b,c}', '{a|b}', 'a|b|c', 'WHEN,HOW', '"q x"', "'q'", 'N:M', '(a b)', 'x=y', 'FILE...', '[X]...', '/path', '%s', '<a>[,<b>]', 'CMD', 'DIR']
DESCRIPTIONS = ['do something', 'a, b | c', 'see --other', 'x = y', "it's (default: [x])", 'uses -x', '"quoted"', '# hash', 'colon: x', 'ends.', '<x>', 'back\\slash', 'ümlaut', '100%', 'e.g. {a,b}', 'a  b',
                'long' * 30, '[default]', 'A', '1', "'", '"', '(', '[', '=x', 'some hyphen-', '- item', '--see this', '-1 for none', '-x, --y']
OTHER = ['Usage: tool [-h] [--x X]', 'Options:', '', '', 'Some text, see --help for more', '  indented text', '* item', '[x] -y', '(-a)', 'a -b', '\tx', '# comment', '"x" --y', '    - item']


def spec_text(rng):
    """a help text that is written from known options -> text, [(strings, metavar, optional, description)], other lines"""
    lines, want, other = [], [], []
    used = 0
    if rng.random() < .5:
        lines.append('usage: my-tool [options]')
        other.append(lines[-1])
    for _ in range(rng.randint(0, 7)):
        if rng.random() < .3:
            t = rng.choice(OTHER)
            if t[:1] in (' ', '\t') and lines and lines[-1] and want:
                t = 'Heading:'              # indented text after an option belongs to its description
            lines.append(t)
            other.append(t)
            continue
        strings = []
        for _n in range(rng.randint(1, 3)):
            used += 1
            strings.append(rng.choice(['-%s' % chr(97 + used % 26), '--long%d' % used, '--with-dash%d' % used, '-old%d' % used, '-%d' % (used % 10), '--x.y_%d' % used, '-?', '-@', '--ü%d' % used, '--a:b%d' % used]))
        sep = rng.choice([', ', ',', '|', ' | ', ', '])
        meta, form = None, rng.choice(['', '', ' %s', '=%s', '[=%s]', '[%s]'])
        optional = form[:1] == '['
        where = rng.choice(['last', 'all', 'all'])
        if form:
            meta = rng.choice(METAVARS)
            if optional and (']' in meta):
                meta = 'X'
            if form in (' %s', '=%s') and meta[0] in '[=' or form == '[%s]' and meta[0] == '=':
                meta = 'X'
        tail = form % meta if form else ''
        text = sep.join(s + (tail if where == 'all' or i == len(strings) - 1 else '') for i, s in enumerate(strings))
        indent = ' ' * rng.choice([0, 1, 2, 4, 6, 9])
        desc = []
        for _n in range(rng.choice([0, 1, 1, 1, 2, 3])):
            desc.append(rng.choice(DESCRIPTIONS))
        line = indent + text
        if desc:
            k = rng.random()
            if k < .7:
                line += ' ' * rng.randint(2, 12) + desc[0] if form or k < .65 else '\t' * 2 + desc[0]
                rest = desc[1:]
            else:
                rest = desc
            lines.append(line + rng.choice(['', '', ' ', '  ']) if not rest and k < .7 else line)
            for d in rest:
                pad = rng.choice([' ' * 12, ' ' * 24, '\t\t', ' ' * 10])
                if d[0] == '-' and len(pad) < 10:
                    pad = ' ' * 12
                lines.append(pad + d)
        else:
            lines.append(line + rng.choice(['', '', ' ', '   ']))
        stripped = meta
        if meta and meta[0] == '<' and meta[-1] == '>':
            stripped = meta[1:-1]
        want.append((strings, stripped, bool(form) and optional, ''.join(d + ('' if d.endswith('-') else ' ') for d in desc[:-1]) + ''.join(desc[-1:])))
    return '\n'.join(lines) + rng.choice(['\n', '', '\n\n']), want, other


def written_options(b):
    """every recognised option line yields all its option strings, its metavar and its whole description"""
    rng = b.rng
    n = 20000 if b.thorough() else 2500
    b.begin('option lines', '%d help texts written from known options: separators, forms of metavars, descriptions on the same and on further lines, other text' % n)
    bad = set()
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(n):
            text, want, other = spec_text(rng)
            b.case(key=text, sample=text if len(b.samples) < 2 else None)
            r = judge_spec(text, want, other, tmp)
            if r and r[0] not in bad:
                bad.add(r[0])
                b.fail('lines:' + r[0], '%s: %s in the help text\n%s' % (r[0], r[1], text), text=text, options=want)


def judge_spec(text, want, other, tmp):
    try:
        y, c = convert(text, tmp)
    except Exception as e:                                      # pylint: disable=broad-except
        return 'convert', '%s: %s' % (type(e).__name__, str(e)[:300])
    got = [(o.option_strings, o.metavar, bool(o.optional_arg), o.help or '') for o in c.options]
    if len(got) != len(want):
        return 'options', '%d options instead of %d: %r' % (len(got), len(want), got)
    for g, w in zip(got, want):
        for i, name in enumerate(('option strings', 'metavar', 'optional argument', 'description')):
            if g[i] != w[i]:
                return name, '%r instead of %r' % (g[i], w[i])
    for o in c.options:
        if (o.complete is None) != (o.metavar is None):
            return 'argument', '%r takes %s' % (o.option_strings, 'no argument' if o.complete is None else 'an argument')
    have = [l[2:] for l in y.split('\n') if l.startswith('# ')]
    if [h for h in have if h] != [o.rstrip() for o in other if o.strip()]:
        return 'other text', '%r instead of %r' % (have, other)
    words = text.split()
    prog = 'my-tool' if text.startswith('usage:') else re.match(r'usage:\s+(\S+)', text, re.I)
    prog = prog[1] if isinstance(prog, re.Match) else prog or (words[0] if words else 'program')
    if c.prog != prog:
        return 'program', '%r instead of %r' % (c.prog, prog)
    return None


BOUNDED = [any_text, written_options]
