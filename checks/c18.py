"""C18: scripts contain every helper function they call, renamed consistently."""
import functools
import itertools
import os
import re
import subprocess

from pydv import instrument, vc
from . import c07, gen, shells
from .common import SHELLS, commandline, config, quiet, real

RULE = ('a case is one set of requested functions (with defines, prefix, comment setting) in one shell, or one generated script; '
        'functions are compared by their parsed form as the shell itself prints it')
TRUSTED = ['Bash and Zsh print a parsed function in a normal form (declare -f, functions), aliases apply to command words only; '
           'fish_indent --dump-parse-tree prints the parsed form (Fish)']
ASSUMPTIONS = ['helper functions call each other by command words only']

MODS = {'bash': ('bash_helpers', 'BashHelpers'), 'fish': ('fish_helpers', 'FishHelpers'), 'zsh': ('zsh_helpers', 'ZshHelpers')}


def repository(shell, conf=None, prog='prog', get=real):
    m, c = MODS[shell]
    h = getattr(get(m), c)(conf or real('config').Config(), prog)
    return h


# ------------------------------------------------------------ normal forms

def called_fish(text, rename):
    """the parse tree of Fish code as a list; command words are mapped by `rename`, substitutions are parsed recursively"""
    out, command = [], False
    for line in dump(text).splitlines():
        m = re.match(r"(?:! )*(\w+): '(.*)'$", line, re.S)
        if not m:
            command = line.endswith('decorated_statement')
            out.append(line)
            continue
        kind, word = m[1], m[2].replace("\\'", "'")
        if kind == 'string' and command:
            out.append('CMD ' + rename.get(word, word))
        elif kind == 'keyword':
            out.append(line)
            continue
        else:
            out.append([kind] + substitutions(word, rename))
        command = False
    return out


@functools.lru_cache(None)
def dump(text):
    r = subprocess.run(['fish_indent', '--dump-parse-tree'], input=text.encode(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, check=False,
                       env=dict(os.environ, LC_ALL='C.UTF-8', HOME='/nonexistent'), timeout=60, **shells.unprivileged())
    return r.stderr.decode('utf-8', 'replace')


def substitutions(word, rename):
    out, i, text, quote = [], 0, '', None
    while i < len(word):
        c = word[i]
        if c == '\\' and i + 1 < len(word):
            text += word[i:i + 2]
            i += 2
            continue
        if quote:
            if c == quote:
                quote = None
        elif c in '\'"':
            quote = c
        if c == '(' and (quote is None or quote == '"' and word[i - 1:i] == '$'):
            j, depth = i + 1, 1
            q = None
            while j < len(word) and depth:
                d = word[j]
                if d == '\\':
                    j += 1
                elif q:
                    q = None if d == q else q
                elif d in '\'"':
                    q = d
                elif d in '()':
                    depth += 1 if d == '(' else -1
                j += 1
            out += [text, called_fish(word[i + 1:j - 1] + '\n', rename)]
            text = ''
            i = j
            continue
        text += c
        i += 1
    return out + [text]


def normal_forms(shell, functions, rename):
    """functions: [(name, definition)]; -> {name: normal form}, error text"""
    if shell == 'fish':
        return {n: called_fish(d + '\n', rename) for n, d in functions}, ''
    with shells.Scratch() as s:
        t = 'shopt -s expand_aliases extglob\n' if shell == 'bash' else ''
        t += ''.join("alias -- %s=%s\n" % (shells.q(k), shells.q(v)) for k, v in rename.items()) if shell == 'zsh' else \
            ''.join("alias %s=%s\n" % (shells.q(k), shells.q(v)) for k, v in rename.items())
        for _n, d in functions:
            t += d + '\n'
        t += '\\unalias -a\n' if shell == 'bash' else "\\unalias -a\n"
        show = 'declare -f --' if shell == 'bash' else 'functions --'
        for n, _d in functions:
            t += '\\printf "\\1%%s\\n" %s\n\\builtin %s %s\n' % (shells.q(n), show, shells.q(n))
        r = s.run(shells.shell_argv(shell, s.write('t', t)))
        parts = r.stdout.decode('utf-8', 'replace').split('\1')[1:]
        return dict(p.split('\n', 1) for p in parts), r.stderr.decode('utf-8', 'replace')


def definition(shell, name, code):
    return ('function %s\n%s\nend' if shell == 'fish' else '%s() {\n%s\n}') % (name, code)


def expected(shell, h, name, defines):
    """the function as it should be, before its calls are renamed: only preprocessing and the two placeholders"""
    code = c07.oracle(h.functions[name].code + '\n', defines)
    real_name = h.get_real_function_name(name)
    return real_name, definition(shell, real_name, code.replace('%FUNCNAME%', real_name).replace('%PREFIX%', h.function_prefix))


def closure(h, names):
    out, todo = [], list(names)
    while todo:
        n = todo.pop(0)
        if n not in out:
            out.append(n)
            todo += h.functions[n].dependencies
    return out


def compare(b, shell, h, requested, codes, what, data, strict=True):
    """codes: the code of the functions in the script; requested: {name: defines}"""
    names = closure(h, requested)
    found = {}
    for c in codes:
        m = re.match(r'(?:function )?([^\s()]+)', c)
        if m[1] in found:
            b.fail('%s:double' % shell, '%s: %s is defined twice (%s)' % (shell, m[1], what), **data)
        found[m[1]] = c
    want = {}
    for n in names:
        r, d = expected(shell, h, n, set(requested.get(n, ())) | h.global_defines)
        want[r] = d
    missing = [n for n in want if n not in found]
    extra = [n for n in found if n not in want]
    if missing:
        b.fail('%s:missing' % shell, '%s: %s called but not defined (%s)' % (shell, missing, what), **data)
    if strict and extra:
        b.fail('%s:extra' % shell, '%s: %s defined but not requested (%s)' % (shell, extra, what), **data)
    both = [n for n in want if n in found]
    rename = {n: h.get_real_function_name(n) for n in h.functions}
    return [(n, want[n], found[n]) for n in both], rename


def judge(b, shell, jobs, rename, what, data):
    if not jobs:
        return
    w, err = normal_forms(shell, [(n, a) for n, a, _c in jobs], rename)
    if shell != 'fish':
        # command substitutions in double quotes and actions of `_values` aren't part of the parsed form
        w = {n: re.sub(r'(\$\(|:\{)(%s)(?![\w-])' % '|'.join(sorted(rename, key=len, reverse=True)), lambda m: m[1] + rename[m[2]], t)
             for n, t in w.items()}
    g, err2 = normal_forms(shell, [(n, c) for n, _a, c in jobs], {})
    if err2.strip():
        b.fail('%s:syntax' % shell, '%s: the functions are rejected: %s (%s)' % (shell, err2[:300], what), **data)
        return
    for n, a, c in jobs:
        if w.get(n) != g.get(n):
            b.fail('%s:code' % shell, '%s: %s does not do what its source says (%s): %s' % (shell, n, what, first_difference(w.get(n), g.get(n))), **data)


def first_difference(a, b):
    if not isinstance(a, list):
        a, b = (a or '').split('\n'), (b or '').split('\n')
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            return '%r vs %r' % (x, y)
    return ''


# ---------------------------------------------------------------- contracts

helpers = instrument.mod('helpers')
sutils = instrument.mod('str_utils')


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def helper_set(v, shell='bash'):
    h = repository(shell, get=instrument.mod)
    h.function_prefix = v.str('prefix')
    return h


def requests_are_complete(v):
    """helpers.GeneralHelpers.use_function: the function is recorded with exactly the defines requested so far, every dependency is requested in the same way (so, by induction over the dependencies, everything reachable is recorded), and the prefixed name is returned; an unknown function is an error"""
    v.covers('helpers.GeneralHelpers.use_function', 'helpers.GeneralHelpers.get_real_function_name')
    h = helper_set(v)
    deps = v.list('deps', lambda n: vc.SymStr.var(n))
    seen = v.choose('seen', [None, [], ['one'], ['one', 'two']])
    defines = v.choose('defines', [[], ['one'], ['two', 'three']])
    h.functions = {'fn': Obj(dependencies=deps)}
    h.used_functions = {'other': {'x'}}
    if seen is not None:
        h.used_functions['fn'] = set(seen)
    asked = []
    h.use_function = lambda *a: asked.append(a)
    if v.choose('unknown', [False, True]):
        try:
            type(h).use_function(h, 'gn', *defines)
        except KeyError:
            v.prove(asked == [] and 'gn' not in h.used_functions, 'nothing is recorded')
            return
        v.prove(False, 'an unknown function is an error')
        return
    r = type(h).use_function(h, 'fn', *defines)
    v.same(r, h.function_prefix + '__fn', 'the prefixed name')
    v.prove(set(h.used_functions) == {'other', 'fn'} and h.used_functions['other'] == {'x'}, 'nothing else is recorded')
    v.prove(h.used_functions['fn'] == set(seen or []) | set(defines), 'recorded with all defines')
    if bool(deps):
        v.prove(len(asked) == 1 and len(asked[0]) == 1, 'every dependency is requested, without defines')
        v.same(asked[0][0], deps.elem, 'every dependency is requested')
    else:
        v.prove(asked == [], 'nothing else is requested')


def definitions_are_complete(v):
    """helpers.GeneralHelpers.get_used_functions_code: for any number of recorded functions exactly one definition each, made from its code under its prefixed name with the global and its own defines, all dependencies renamed to their prefixed names, the prefix filled in and comments removed exactly if they aren't kept; then the dynamic functions"""
    v.covers('helpers.GeneralHelpers.get_used_functions_code')
    h = helper_set(v)
    deps = v.choose('deps', [[], ['d1'], ['d1', 'd2']])
    own = v.choose('own', [set(), {'A'}])
    h.global_defines = v.choose('global', [set(), {'DEBUG'}])
    keep = v.choose('keep', [False, True])
    h.config = Obj(keep_comments=keep)
    used = v.list('used', lambda n: vc.SymStr.var(n))
    fn = vc.SymStr

    def app(name, *a):
        return fn.of(a[0])._fn(name, *a[1:])

    def get_code(name):
        return lambda realname, defines: app('code', name, realname, ' '.join(sorted(defines)))

    class Functions:
        def getitem(self, name):
            return Obj(dependencies=deps, get_code=get_code(name))
        __getitem__ = getitem

    class Used:
        def items(self):
            return vc.items_of(MAPPED)
    h.functions = Functions()
    MAPPED = v.list('entries', lambda n: (vc.SymStr.var(n), own))
    h.used_functions = Used()
    dyn = v.list('dyn', lambda n: vc.SymStr.var(n))
    h.get_all_dynamic_functions = lambda: dyn.as_items()
    v.patch(helpers, 'replace_function_name', lambda a, b, c: app('rename', c, a, b))
    v.patch(helpers, 'strip_comments', lambda c: app('nocomments', c))
    v.patch(helpers, 'strip_double_empty_lines', lambda c: app('noempty', c))
    got = h.get_used_functions_code()

    def want(name):
        c = app('code', name, h.function_prefix + '__' + name, ' '.join(sorted(h.global_defines | own)))
        for d in deps:
            c = app('rename', c, d, h.function_prefix + '__' + d)
        c = c.replace('%PREFIX%', h.function_prefix)
        if not keep:
            c = app('nocomments', c)
        return app('noempty', c)
    out = []
    if bool(MAPPED):
        out.append(vc.Seg(MAPPED, [want(MAPPED.elem[0])]))
    if bool(dyn):
        out.append(vc.Seg(dyn, [dyn.elem]))
    v.same(got, out, 'the definitions')


class Lines(c07.Text):
    """the text: only its list of lines is used"""

    def split(self, sep=None):
        if sep != '\n':
            raise vc.Unsupported('split by another separator')
        return self.lines


def only_comment_lines_are_stripped(v):
    """str_utils.strip_comments: for any number of lines exactly the lines whose first non-blank character is # are dropped, all others are kept unchanged and in order"""
    v.covers('str_utils.strip_comments')
    lines = v.list('lines', lambda n: vc.SymStr.var(n))

    def step(st, line):
        return st

    def emit(st, line, added):
        keep = not vc.API.truth(line.lstrip().startswith('#'))
        v.prove(len(added) == (1 if keep else 0), 'a line is kept exactly if it is no comment')
        if keep and len(added) == 1:
            v.same(added[0], line, 'unchanged')
    lines.fold = vc.Fold({}, step, {})
    lines.fold.emit = emit
    got = sutils.strip_comments(Lines(lines))
    if not bool(lines):
        v.prove(got == '', 'no lines')
        return
    v.same(got, vc.SymStr.of('\n').join([vc.Seg(lines, ['<emitted>'])]), 'the kept lines, in order')


def dynamic_functions_are_defined(v):
    """helpers.GeneralHelpers.get_all_dynamic_functions: one definition under its name for every dynamic function"""
    v.covers('helpers.GeneralHelpers.get_all_dynamic_functions', 'helpers.ShellFunction.make_definition', 'helpers.FishFunction.make_definition')
    shell = v.choose('shell', list(SHELLS))
    h = helper_set(v, shell)
    entries = v.list('entries', lambda n: (vc.SymStr.var(n + '.code'), vc.SymStr.var(n + '.name')))

    class Dyn:
        def items(self):
            return vc.items_of(entries)
    h.dynamic_functions_code_to_funcname = Dyn()
    v.patch(helpers, 'indent', lambda s, n: vc.SymStr.of(s)._fn('indent', str(n)))
    got = h.get_all_dynamic_functions()
    if not bool(entries):
        v.prove(got == [], 'no functions')
        return
    code, name = entries.elem
    body = code.strip()._fn('indent', '2').rstrip()
    want = ('function ' + name + '\n' + body + '\nend') if shell == 'fish' else (name + '() {\n' + body + '\n}')
    v.same(got, [vc.Seg(entries, [want])], 'one definition each')


# ------------------------------------------------------------------ bounded

PREFIXES = ['_prog', 'f.x', '_my-tool', 'query', 'äö', '_exec', 'a@b:c', '_1', 'prefix', 'git-exec-x', 'a.get_completing_arg-b',
            'dequote-words', 'x@array_contains', 'my-query_init-prefix', 'get_prefix_suffix_len-strip_prefix_keep_quoting']


def defines_of(f):
    return sorted(set(re.findall(r'#ifdef\s+(\S+)', f.code)))


def every_function(b):
    b.begin('functions', 'every helper function of every shell with sets of its defines (all sets up to 4 defines, otherwise single, all, none and '
            'random ones), prefixes, with and without comments and debugging: exactly the functions it needs, each parsed as its source')
    for shell in SHELLS:
        for name in repository(shell).functions:
            ds = defines_of(repository(shell).functions[name])
            sets = [[], ds] + [[d] for d in ds]
            if len(ds) <= (8 if b.thorough() else 4):
                sets = [list(c) for k in range(len(ds) + 1) for c in itertools.combinations(ds, k)]
            else:
                sets += [[d for d in ds if b.rng.random() < .5] for _ in range(60 if b.thorough() else 6)]
            # several variants per run of the shell: the prefixes make the names different
            jobs, rename = [], {}
            for k, defs in enumerate(sets):
                prefix = b.rng.choice(PREFIXES)
                keep, debug = b.rng.random() < .5, b.rng.random() < .3
                h = repository(shell, config(set_function_prefix=prefix, set_keep_comments=keep, set_debug=debug))
                h.use_function(name, *defs)
                b.case(key=(shell, name, tuple(defs), prefix, keep, debug))
                data = {'shell': shell, 'function': name, 'defines': defs, 'function_prefix': prefix, 'keep_comments': keep, 'debug': debug}
                j, r = compare(b, shell, h, {name: defs}, h.get_used_functions_code(), '%s, defines %s' % (name, defs), data)
                judge(b, shell, j, r, '%s, defines %s, prefix %r, comments %s' % (name, defs, prefix, keep), data)


def sets_of_functions(b):
    b.begin('sets', 'random sequences of requests (functions with defines, repeatedly): every function once, with all its defines')
    for _ in range(150 if b.thorough() else 15):
        for shell in SHELLS:
            conf = config(set_function_prefix=b.rng.choice(PREFIXES), set_keep_comments=b.rng.random() < .5)
            h = repository(shell, conf)
            requested, log = {}, []
            for _k in range(b.rng.randint(1, 12)):
                n = b.rng.choice(list(h.functions))
                ds = [d for d in defines_of(h.functions[n]) if b.rng.random() < .3]
                log.append([n] + ds)
                r = h.use_function(n, *ds)
                requested.setdefault(n, set()).update(ds)
                if r != h.get_real_function_name(n):
                    b.fail('%s:name' % shell, '%s: use_function(%r) returns %r' % (shell, n, r), requests=log)
            b.case(key=(shell, repr(log)))
            data = {'shell': shell, 'requests': log}
            j, rename = compare(b, shell, h, requested, h.get_used_functions_code(), 'requests %s' % log, data)
            judge(b, shell, j, rename, 'requests %s' % log, data)


def generated_scripts(b):
    b.begin('scripts', 'random definitions with all completers and random settings: every function the script mentions is defined once, and every helper is as requested')
    for k in range(120 if b.thorough() else 16):
        dicts = gen.generatable(b.rng)
        settings = {'set_function_prefix': b.rng.choice(['_$PROG', 'x-$PROG', '_query', 'a.b']), 'set_keep_comments': b.rng.random() < .4,
                    'set_debug': b.rng.random() < .3, 'set_inherit_options': b.rng.random() < .5, 'set_option_stacking': b.rng.random() < .6}
        for shell in SHELLS:
            conf = config(**settings)
            helpers = real('helpers').GeneralHelpers
            log, made, orig, orig_dyn = {}, [], helpers.use_function, helpers.add_dynamic_func

            depth = [0]

            def use(self, name, *defines):
                if not depth[0]:
                    log.setdefault(name, set()).update(defines)
                if self not in made:
                    made.append(self)
                depth[0] += 1
                try:
                    return orig(self, name, *defines)
                finally:
                    depth[0] -= 1
            dyn = {}

            def add_dyn(self, ctxt, code):
                r = orig_dyn(self, ctxt, code)
                dyn[r] = code
                return r
            helpers.use_function, helpers.add_dynamic_func = use, add_dyn
            try:
                with quiet():
                    text = real(shell).generate_completion(commandline(dicts), conf)
            finally:
                helpers.use_function, helpers.add_dynamic_func = orig, orig_dyn
            b.case(key=(shell, repr(settings), repr(dicts)))
            data = {'shell': shell, 'definition': dicts, 'settings': settings}
            found = re.findall(r'^function (\S+)' if shell == 'fish' else r'^([^\s()]+)\(\) \{', text, re.M)
            for n in sorted(set(found)):
                if found.count(n) > 1:
                    b.fail('%s:double' % shell, '%s: %s is defined twice' % (shell, n), **data)
            for n in dyn:
                if n not in found:
                    b.fail('%s:dynamic' % shell, '%s: the function %s is not in the script' % (shell, n), **data)
            if not made:
                continue
            bodies = {re.match(r'(?:function )?([^\s()]+)', c)[1]: [l.strip() for l in c.split('\n')[1:-1]] for c in blocks(shell, text)}
            for n, code in dyn.items():
                if bodies.get(n) != [l.strip() for l in code.strip().split('\n')]:
                    b.fail('%s:text' % shell, '%s: the function %s is not in the script as it was requested: %s' % (shell, n, bodies.get(n)),
                           code=code, **data)
            h = made[0]
            if len(made) > 1:
                b.fail('%s:helpers' % shell, '%s: several sets of helper functions' % shell, **data)
            for n in h.functions:
                real_name = h.get_real_function_name(n)
                if re.search(r'(?<![\w.-])%s(?![\w.-])' % re.escape(real_name), text) and real_name not in found:
                    b.fail('%s:missing' % shell, '%s: %s is called but not defined' % (shell, real_name), **data)
            codes = [c for c in blocks(shell, text) if re.match(r'(?:function )?([^\s()]+)', c)[1] in
                     {h.get_real_function_name(n) for n in h.functions}]
            j, rename = compare(b, shell, h, log, codes, 'script', data, strict=False)
            judge(b, shell, j, rename, 'script', data)


def placeholders_of_the_templates(b):
    b.begin('placeholders', 'texts that look like the placeholders and directives of the helper functions: every candidate is offered as declared')
    texts = ['%FUNCNAME%', '%PREFIX%', '#ifdef', '#endif', '#else', 'a%FUNCNAME%b', '%FUNCNAME%%PREFIX%', '_mytool__exec', 'exec', 'prefix']
    for shell in SHELLS:
        for kind in ('choices', 'described', 'list', 'combine'):
            c = {'choices': ['choices', texts], 'described': ['choices', {t: 'about ' + t for t in texts}], 'list': ['list', ['choices', texts]],
                 'combine': ['combine', [['choices', texts[:5]], ['choices', texts[5:]]]]}[kind]
            dicts = [{'prog': 'mytool', 'positionals': [{'number': 1, 'complete': c}]}]
            with quiet():
                text = real(shell).generate_completion(commandline(dicts), config())
            got, err, _left = getattr(shells, shell + '_complete')(text, 'mytool', [['mytool', '']])
            b.case(key=(shell, kind))
            g = sorted({re.sub(r'\\(.)', r'\1', (x if isinstance(x, str) else x[0]).rstrip(', ')) for x in (got or [[]])[0]})
            if g != sorted(texts) or err.strip():
                b.fail('%s:placeholders' % shell, '%s: %s offers %s, declared are %s %s' % (shell, kind, g, sorted(texts), err[:200]), definition=dicts, shell=shell)


def blocks(shell, text):
    """the function definitions of a script (they start and end at the beginning of a line)"""
    pat = r'^function \S+\n.*?^end$' if shell == 'fish' else r'^[^\s()]+\(\) \{\n.*?^\}$'
    return re.findall(pat, text, re.M | re.S)


CONTRACTS = [requests_are_complete, definitions_are_complete, only_comment_lines_are_stripped, dynamic_functions_are_defined]
BOUNDED = [every_function, sets_of_functions, placeholders_of_the_templates, generated_scripts]
