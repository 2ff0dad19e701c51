"""C07: preprocessing keeps exactly the lines whose conditions hold."""
import itertools
import subprocess
import tempfile
import os

from pydv import instrument, vc
from .common import real

pp = instrument.mod('preprocessor')
RULE = 'a case is one text with one set of defines, against the C preprocessor or an independent recursive evaluator'
TRUSTED = ['str.lstrip/startswith/split/splitlines as uninterpreted (deterministic) functions of the line',
           'GNU cpp as oracle of the bounded part']
ASSUMPTIONS = ['a directive is a line whose first non-blank characters are #ifdef, #else or #endif; '
               'a second #else in one block is outside the domain']


# ------------------------------------------------------------------ contract

class Text:
    """the text: only its list of lines is used"""

    def __init__(self, lines):
        self.lines = lines

    def splitlines(self, keepends=False):
        if not keepends:
            raise vc.Unsupported('lines without line ends')
        return self.lines


def keeps_exactly_the_active_lines(v):
    """preprocess: for every number of lines and every nesting depth, each line is output, unchanged and in order, exactly if it is no directive and all enclosing branches are active; unbalanced directives raise an error exactly in the state where the specification rejects"""
    v.covers('preprocessor.preprocess')
    defines = v.set('defines')
    lines = v.list('lines', lambda n: vc.SymStr.var(n))

    def kind(line):
        s = line.lstrip()
        for k in ('ifdef', 'else', 'endif'):
            if vc.API.truth(s.startswith('#' + k)):
                return k
        return None

    def active(stack):
        return vc.BI.all(stack)

    def step(st, line):
        stack = st['stack']
        k = kind(line)
        if k == 'ifdef':
            return {'stack': stack + [defines.contains(line.lstrip().split().getitem(1))]}
        if k is None:
            return st
        if not vc.API.truth(stack):
            raise vc.SpecReject('#%s without #ifdef' % k)
        top = vc.API._top(stack, True)
        return {'stack': stack if k == 'endif' else stack + [vc.API.not_(top)]}

    def emit(st, line, added):
        k = kind(line)
        keep = k is None and (not vc.API.truth(st['stack']) or bool(vc.API.truth(active(st['stack']))))
        v.prove(len(added) == (1 if keep else 0), 'a line is output exactly if it is active text')
        if keep and len(added) == 1:
            v.same(added[0], line, 'the line is output unchanged')

    lines.fold = vc.Fold({'stack': []}, step, {'stack': 'stack'})
    lines.fold.emit = emit
    try:
        got = pp.preprocess(Text(lines), defines)
    except SyntaxError:
        f = lines.fold
        if f.final is not None:
            v.prove(bool(vc.API.truth(f.final['stack'])), 'an error after the last line: a block is still open')
            return
        try:
            f.step({'stack': list(f.cur['stack'])}, lines.elem)
        except vc.SpecReject:
            v.prove(True, 'an error where the specification rejects')
            return
        v.prove(False, 'an error where the specification goes on')
        return
    except IndexError:
        v.prove(kind(lines.elem) == 'ifdef', 'an error only for #ifdef without a name')
        return
    if lines.fold.final is None:
        v.prove(got == '', 'no lines, no output')
        return
    v.prove(not vc.API.truth(lines.fold.final['stack']), 'unclosed blocks never produce output')
    v.same(got, vc.SymStr.of('').join([vc.Seg(lines, ['<emitted>'])]), 'the output is the sequence of the kept lines')


CONTRACTS = [keeps_exactly_the_active_lines]


# ------------------------------------------------------------------ bounded

class Bad(Exception):
    pass


def oracle(text, defines):
    """independent evaluator: recursive descent over the blocks"""
    lines = text.splitlines(keepends=True)

    def kind(line):
        s = line.lstrip()
        return next((k for k in ('#ifdef', '#else', '#endif') if s.startswith(k)), None)

    def block(i, depth):
        """-> kept lines, index of the terminating directive"""
        out = []
        while i < len(lines):
            k = kind(lines[i])
            if k is None:
                out.append(lines[i])
                i += 1
            elif k == '#ifdef':
                name = lines[i].split()[1]
                yes, i = block(i + 1, depth + 1)
                no = []
                if i < len(lines) and kind(lines[i]) == '#else':
                    no, i = block(i + 1, depth + 1)
                if i >= len(lines) or kind(lines[i]) != '#endif':
                    raise Bad
                out += yes if name in defines else no
                i += 1
            else:
                if depth == 0:
                    raise Bad
                return out, i
        return out, i
    out, i = block(0, 0)
    return ''.join(out)


def check(b, text, defines, tag):
    m = real('preprocessor')
    b.case(key=(text, tuple(sorted(defines))))
    try:
        want = oracle(text, set(defines))
    except Bad:
        want = None
    try:
        got = m.preprocess(text, defines)
    except Exception:      # pylint: disable=broad-except
        got = None
    if got != want:
        b.fail('preprocess:%s' % tag, 'defines %r, text %r: %s, expected %s' % (
            sorted(defines), text, 'rejected' if got is None else 'output %r' % got,
            'an error' if want is None else repr(want)), text=text, defines=sorted(defines))
        return False
    return True


def small_texts(b):
    n = 6 if b.thorough() else 5
    b.begin('all small texts', 'all texts of up to %d lines over text, #ifdef A, #ifdef B, #else, #endif, under all sets of defines' % n)
    alphabet = ['x%d', '#ifdef A', '#ifdef B', '#else', '#endif']
    for k in range(n + 1):
        for ws in itertools.product(alphabet, repeat=k):
            if any(a == '#else' and c == '#else' for a, c in zip(ws, ws[1:])):
                continue
            text = ''.join((w % i if '%' in w else w) + '\n' for i, w in enumerate(ws))
            if double_else(ws):
                continue
            for d in ((), ('A',), ('B',), ('A', 'B')):
                if not check(b, text, d, 'small'):
                    return


def double_else(ws):
    st = []
    for w in ws:
        w = w.strip()
        if w.startswith('#ifdef'):
            st.append(0)
        elif w.startswith('#else') and st:
            st[-1] += 1
            if st[-1] > 1:
                return True
        elif w.startswith('#endif') and st:
            st.pop()
    return False


def random_texts(b):
    rng = b.rng
    b.begin('random texts', 'nested blocks to depth 8, indentation, blanks, odd line ends, names that are prefixes of each other, every kind of iterable of defines')
    names = ['A', 'AB', 'A_B', 'B', 'short_options', 'nocase', '#ifdef', 'else']
    filler = ['', 'text', '  indented', '\tx', '# comment', '#', 'a #ifdef A', '"#else"', '##ifdef A', 'x \\', 'ä', '# ifdef A', '#if A', '#define A', '#end']

    def block(depth):
        out = []
        for _ in range(rng.randint(0, 4)):
            if depth and rng.random() < 0.45:
                ind = rng.choice(['', '  ', '\t', '    '])
                out.append(ind + '#ifdef' + rng.choice([' ', '  ', '\t']) + rng.choice(names) + rng.choice(['', ' ', ' # why', ' A']))
                out += block(depth - 1)
                if rng.random() < 0.5:
                    out.append(rng.choice(['', '  ']) + '#else' + rng.choice(['', ' ', ' # x']))
                    out += block(depth - 1)
                out.append(rng.choice(['', '   ']) + '#endif' + rng.choice(['', ' # A']))
            else:
                out.append(rng.choice(filler))
        return out
    for n in range(12000 if b.thorough() else 3000):
        ls = block(rng.choice([1, 3, 8]))
        if rng.random() < 0.3 and ls:            # unbalance it
            i = rng.randrange(len(ls))
            if rng.random() < 0.5:
                del ls[i]
            else:
                ls.insert(i, rng.choice(['#endif', '#ifdef A', '#else']))
        if double_else(ls):
            continue
        text = '\n'.join(ls) + rng.choice(['', '\n'])
        if n % 10 == 0:
            text = text.replace('\n', '\r\n')
        d = rng.sample(names, rng.randint(0, len(names)))
        if not check(b, text, rng.choice([list, tuple, set, frozenset])(d), 'random'):
            return


def against_cpp(b):
    """the same against GNU cpp, where available, on texts without quotes and comments"""
    rng = b.rng
    if subprocess.run(['sh', '-c', 'command -v cpp'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False).returncode:
        return
    b.begin('GNU cpp', 'random balanced texts, output of cpp -P')
    m = real('preprocessor')
    n = 0
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(60 if b.thorough() else 25):
            def block(depth):
                nonlocal n
                out = []
                for _ in range(rng.randint(1, 4)):
                    if depth and rng.random() < 0.5:
                        out.append('#ifdef ' + rng.choice('PQR'))
                        out += block(depth - 1)
                        if rng.random() < 0.5:
                            out.append('#else')
                            out += block(depth - 1)
                        out.append('#endif')
                    else:
                        n += 1
                        out.append('w%d' % n)
                return out
            text = '\n'.join(block(6)) + '\n'
            d = [x for x in 'PQR' if rng.random() < 0.5]
            f = os.path.join(tmp, 'x')
            with open(f, 'w', encoding='utf-8') as fh:
                fh.write(text)
            r = subprocess.run(['cpp', '-P', '-undef'] + ['-D%s=%s' % (x, x) for x in d] + [f], capture_output=True, text=True, check=False)
            b.case(key=text)
            got = m.preprocess(text, d)
            if r.returncode == 0 and got.split() != r.stdout.split():
                b.fail('preprocess:cpp', 'defines %r, text %r: output %r, cpp gives %r' % (d, text, got, r.stdout), text=text, defines=d)
                return


BOUNDED = [small_texts, random_texts, against_cpp]
