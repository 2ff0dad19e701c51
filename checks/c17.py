"""C17: names of functions and variables are valid and never clash."""
import itertools
import re
import string

from pydv import instrument, vc
from pydv.charset import CharSet
from . import shells
from .common import SHELLS, commandline, config, generate, quiet, real

RULE = ('a case is one definition with look-alike names in one shell: functions defined once, valid names, no syntax errors, '
        'and every option and command completes with its own values')
TRUSTED = ['re.sub with a class of characters replaces exactly the characters of that class',
           'a set or dict of names is a function of the name (membership, value)']
ASSUMPTIONS = ['loops that look for a free name end (there are finitely many names in use)',
               'options of different commands with the same option strings share a variable: only one command is active']

sh = instrument.mod('shell')
helpers = instrument.mod('helpers')
futils = instrument.mod('fish_utils')
butils = instrument.mod('bash_utils')

IDENT = CharSet(string.ascii_letters + string.digits + '_')
WORD = CharSet(''.join(c for c in map(chr, range(0x110000)) if re.match(r'\w', c)))
FUNC = WORD | CharSet('@%+:,.-')


# ---------------------------------------------------------------- contracts

def identifiers_are_valid(v):
    """shell.make_identifier: the result consists of ASCII letters, digits and underscores and doesn't begin with a digit, whatever the input"""
    v.covers('shell.make_identifier')
    r = sh.make_identifier(v.str('s'))
    r = vc.SymStr.of(r)
    v.prove(r.charset().subset(IDENT), 'only letters, digits and underscores')
    if v.holds(r != ''):
        first = vc.API.getitem(r, 0)
        v.prove(vc.API.not_(vc.API.contains(first, '0123456789')), 'no digit at the beginning')


def function_names_are_plain_words(v):
    """helpers.make_function_name: no character of the result is special in Bash, Fish or Zsh"""
    v.covers('helpers.make_function_name')
    r = vc.SymStr.of(helpers.make_function_name(v.str('s')))
    v.prove(r.charset().subset(FUNC), 'only word characters and @%+:,.-')


class Map:
    """a dict from strings to strings of which nothing is known; remembers what is stored"""

    def __init__(self, v, name):
        self.keys_ = v.set(name + '.keys')
        self.values_ = v.set(name + '.values')
        self.f = vc.z3.Function(name + '.at', vc.z3.StringSort(), vc.z3.StringSort())
        self.stored = []

    def _at(self, k):
        x = vc.SymStr([vc.Fn('at', ('at', self.f.name(), vc.skey(vc.SymStr.of(k))), self.f(vc.SymStr.of(k).z))])
        return x

    def _pure(self):
        if self.stored:
            raise vc.Unsupported('reads after writes')

    def contains(self, k):
        self._pure()
        return self.keys_.contains(k)

    def get(self, k, d=None):
        self._pure()
        return self._at(k) if vc.API.truth(self.contains(k)) else d

    def getitem(self, k):
        self._pure()
        if not vc.API.truth(self.contains(k)):
            raise KeyError(k)
        return self._at(k)

    def setitem(self, k, x):
        self.stored.append((k, x))

    def __contains__(self, k):
        raise vc.Unsupported('membership outside the instrumented code')

    __getitem__ = getitem
    __setitem__ = setitem

    def values(self):
        self._pure()
        return self.values_

    def __deepcopy__(self, memo):
        return self


class Opt:
    """stands for an option: three lists of option strings, at least one of which isn't empty"""

    def __init__(self, v):
        self.lists = []
        n = v.choose('longs', [0, 1, 2]), v.choose('olds', [0, 1]), v.choose('shorts', [0, 1])
        if not any(n):
            raise vc.PathEnd('no option strings')
        self.l, self.o, self.s = [[v.str('o%d%d' % (k, i)) for i in range(c)] for k, c in enumerate(n)]
        self.capture = None

    def get_long_option_strings(self):
        return list(self.l)

    def get_old_option_strings(self):
        return list(self.o)

    def get_short_option_strings(self):
        return list(self.s)


def variables_belong_to_one_option(v):
    """bash_utils.VariableManager.make_variable: the variable is a valid name, not reserved, and either new or already that of the same option; nothing else is stored. By induction over the calls two options with different names never share a variable"""
    v.covers('bash_utils.VariableManager.make_variable', 'bash_utils.make_option_variable_name', 'bash_utils.get_naming_option_string')
    v.cut()
    o = Opt(v)
    key = (o.l + o.o + o.s)[0]
    prefix = v.str('prefix', IDENT)
    m = butils.VariableManager(prefix)
    reserved = m.reserved = v.set('reserved')
    old = m.variables = Map(v, 'variables')
    var = vc.SymStr.of(m.make_variable(o))
    v.prove(var.charset().subset(IDENT), 'a valid name')
    v.prove(vc.API.not_(reserved.contains(var)), 'not a reserved name')
    v.prove(len(old.stored) == 1, 'one variable is stored')
    k, x = old.stored[0]
    v.same(k, var, 'the returned variable is stored')
    v.same(x, key, 'it belongs to the option')
    if v.holds(old.keys_.contains(var)):
        v.prove(old._at(var) == key, 'a known variable is only given to its own option')


def capture_is_made_once(v):
    """bash_utils.VariableManager.capture_variable: an option keeps its variable; only an option without one gets a new one"""
    v.covers('bash_utils.VariableManager.capture_variable')
    o = Opt(v)
    m = butils.VariableManager('')
    made = []

    def make(x):
        made.append(x)
        return 'OPT'
    m.make_variable = make
    o.capture = v.choose('capture', [None, 'VAR'])
    before = o.capture
    r = m.capture_variable(o)
    v.prove(r is o.capture and r is not None, 'the variable of the option is returned')
    v.prove(made == ([] if before else [o]), 'a variable is made only if there is none')
    v.prove(r == (before or 'OPT'), 'the variable')


def fish_variables_belong_to_one_value(v):
    """fish_utils.VariableManager.add: a known value gives its variable; a new one gets the variable of the counter, which is stored and counted up, so that by induction different values have different variables (see next)"""
    v.covers('fish_utils.VariableManager.add')
    m = futils.VariableManager('opts')
    old = m.value_to_variable = Map(v, 'variables')
    n = m.counter = v.int('counter')
    v.assume(n >= 0)
    value = v.str('value')
    r = m.add(value)
    if v.holds(old.keys_.contains(value)):
        v.same(r, '$' + old._at(value), 'the variable of the value')
        v.prove(old.stored == [], 'nothing is stored')
        v.prove(m.counter == n, 'the counter stays')
        return
    v.prove(len(old.stored) == 1, 'one variable is stored')
    v.same(old.stored[0][0], value, 'for the value')
    v.same(r, '$' + old.stored[0][1], 'which is returned')
    v.prove(m.counter > n, 'the counter is counted up')
    other = futils.VariableManager('opts')
    later = other.value_to_variable = Map(v, 'later')
    k = other.counter = v.int('k')
    v.assume(k >= m.counter)
    value2 = v.str('value2')
    v.assume(vc.API.not_(later.keys_.contains(value2)))
    r2 = other.add(value2)
    v.prove(vc.API.not_(vc.SymStr.of(r) == r2), 'any later value gets another variable')


class Ctxt:
    pass


def general(v, shell):
    conf = real('config').Config()
    h = instrument.mod(shell + '_helpers')
    cls = {'bash': 'BashHelpers', 'fish': 'FishHelpers', 'zsh': 'ZshHelpers'}[shell]
    return getattr(h, cls)(conf, 'prog')


def dynamic_functions_get_free_names(v):
    """helpers.GeneralHelpers.get_dynamic_funcname: the name of a new function is none of the names in use, of no helper function of that shell (used or not), no wrapper and no function of the generators"""
    v.covers('helpers.GeneralHelpers.get_dynamic_funcname', 'helpers.GeneralHelpers._is_free_dynamic_funcname',
             'helpers.GeneralHelpers.get_real_function_name')
    v.cut()
    shell = v.choose('shell', list(SHELLS))
    h = general(v, shell)
    h.function_prefix = v.str('prefix', FUNC)
    h.dynamic_functions_code_to_funcname = Map(v, 'used')
    base = v.str('base')
    v.patch(helpers, 'make_completion_funcname_for_context', lambda ctxt, prefix: base)
    name = h.get_dynamic_funcname(Ctxt())
    v.prove(vc.API.not_(h.dynamic_functions_code_to_funcname.values_.contains(name)), 'not in use')
    for other in list(h.functions) + ['parse_commandline', 'prepare']:
        v.prove(vc.API.not_(vc.SymStr.of(name) == h.function_prefix + ('__' + other)), 'not the name of the helper %s' % other)
    v.prove(vc.API.not_(vc.SymStr.of(name).endswith('__wrapper')), 'not the name of a wrapper')


def dynamic_functions_are_shared_by_code_only(v):
    """helpers.GeneralHelpers.add_dynamic_func: equal code gives the same function, other code a new one under a fresh name; nothing else changes"""
    v.covers('helpers.GeneralHelpers.add_dynamic_func')
    h = general(v, 'bash')
    used = h.dynamic_functions_code_to_funcname = Map(v, 'used')
    fresh = v.str('fresh')
    h.get_dynamic_funcname = lambda ctxt: fresh
    code = v.str('code')
    r = h.add_dynamic_func(Ctxt(), code)
    if v.holds(used.keys_.contains(code)):
        v.same(r, used._at(code), 'the function with that code')
        v.prove(used.stored == [], 'nothing is stored')
    else:
        v.same(r, fresh, 'the fresh name')
        v.prove(len(used.stored) == 1, 'one function is stored')
        v.same(used.stored[0][0], code, 'the code')
        v.same(used.stored[0][1], fresh, 'under its name')


class Names:
    """the dict of the completion functions: keys are tuples"""

    def __init__(self, v):
        self.known = v.bool('known')
        self.values_ = v.set('names')
        self.old = v.str('old')
        self.stored = None
        self.path = None

    def contains(self, k):
        if self.stored is not None:
            return vc.BI.len(k) == 2 and k[0] == self.path[0] and k[1] == self.path[1]
        self.path = k
        return self.known

    def getitem(self, k):
        if self.stored is not None:
            return self.stored[1]
        if not vc.API.truth(self.contains(k)):
            raise KeyError(k)
        return self.old

    def get(self, k, d=None):
        return self.getitem(k) if vc.API.truth(self.contains(k)) else d

    def setitem(self, k, x):
        if self.stored is not None:
            raise vc.Unsupported('stored twice')
        self.stored = (k, x)

    __getitem__ = getitem
    __setitem__ = setitem

    def values(self):
        return self.values_

    def __deepcopy__(self, memo):
        return self


def commands_get_free_names(v):
    """helpers.GeneralHelpers.make_completion_funcname: the function of a command (path, suffix) that has no name yet gets one that is not in use and is stored under its whole path and suffix, otherwise the stored one is returned"""
    v.covers('helpers.GeneralHelpers.make_completion_funcname')
    v.cut()
    h = general(v, 'bash')
    h.function_prefix = v.str('prefix', FUNC)
    cli = instrument.mod('cli')
    depth = v.choose('depth', [0, 1, 2])
    cmds, c = [], None
    for k in range(depth + 1):
        n = cli.CommandLine('prog')
        n.prog = v.str('prog%d' % k)
        cmds.append(n)
        n.get_parents = lambda include_self=False, k=k: cmds[:k + bool(include_self)]
    suffix = v.choose('suffix', ['', '__wrapper'])
    names = h.completion_funcnames = Names(v)
    r = vc.SymStr.of(h.make_completion_funcname(cmds[-1], suffix) if suffix else h.make_completion_funcname(cmds[-1]))
    if v.holds(names.known):
        v.same(r, names.old, 'the stored name')
        v.prove(names.stored is None, 'nothing is stored')
        return
    v.prove(names.stored is not None, 'the name is stored')
    v.prove(r.charset().subset(IDENT), 'a valid name')
    v.prove(r != '', 'not empty')
    v.prove(vc.API.not_(names.values_.contains(r)), 'not in use')
    v.same(names.stored[1], r, 'the stored name is returned')
    (path, suf) = names.stored[0]
    v.prove(suf == suffix, 'stored with its suffix')
    v.prove(len(path) == depth + 1, 'stored with its whole path')
    for k in range(1, depth + 1):
        v.same(path[k], cmds[k].prog, 'the path names command %d' % k)


CONTRACTS = [identifiers_are_valid, function_names_are_plain_words, variables_belong_to_one_option, capture_is_made_once, fish_variables_belong_to_one_value,
             dynamic_functions_get_free_names, dynamic_functions_are_shared_by_code_only, commands_get_free_names]

# ------------------------------------------------------------------ bounded

PROGS = ['mytool', 'my-tool', 'my_tool', 'my.tool', '1tool', 'tool+', 'tööl', 'α', '_', 'my--tool', 'Parse_Commandline']
PREFIXES = ['_$PROG', '_comp_$PROG', '$PROG', 'a-b', '_', 'ä_$PROG', '__x__', 'f.$PROG', '', '%FUNCNAME%', '%PREFIX%', '-', '9']
WORDS = [['a-b', 'a_b', 'a.b', 'ab', 'A-b', 'a--b', 'a__b', 'a-b-', 'a-b2', 'a_b__2'], ['α', 'β', 'é', 'αβ', 'α-', 'ß'],
         ['+', '@', '.', '+-', '@@'], ['1', '_1', '1_', '01', '1-1'], ['prepare', 'parse-commandline', 'query', 'filedir', 'wrapper', '_wrapper', 'arg1'],
         ['end-of-options', 'prog', 'words', 'cmd', 'opts', 'cur', 'i', 'COMP_WORDS', 'cword', 'positionals', 'PATH', 'IFS', 'HAVE', 'foo']]


def completer(rng, values):
    """a completer that needs a function in some shell and offers exactly `values`"""
    k = rng.randrange(5)
    if k == 0:
        return ['choices', values]
    if k == 1:
        return ['choices', {v: 'about %s' % v for v in values}]
    if k == 2:
        return ['combine', [['choices', values[:1]], ['choices', values[1:]]]]
    if k == 3:
        return ['value_list', {'values': values}]
    return ['list', ['choices', values]]


class Names2:
    """a definition made of look-alike names, with the values of each option and positional"""

    def __init__(self, rng):
        self.rng = rng
        self.prog = rng.choice(PROGS)
        self.n = 0
        self.queries = []            # (words, values)
        self.dicts = []
        self.build([self.prog], rng.choice([0, 1, 1, 2]))

    def values(self):
        self.n += 1
        return ['v%dx' % self.n, 'v%dy' % self.n]

    def build(self, path, depth):
        rng = self.rng
        d = {'prog': ' '.join(path)}
        pool = rng.choice(WORDS)
        opts, seen = [], set()
        for w in rng.sample(pool, min(len(pool), rng.randint(0, 4))):
            strings = []
            for s in rng.sample(['--' + w, '-' + w, '-' + w[0]], rng.choice([1, 1, 2])):
                if s not in seen and not re.fullmatch('-+', s):
                    seen.add(s)
                    strings.append(s)
            if not strings:
                continue
            v = self.values()
            opts.append({'option_strings': strings, 'complete': completer(rng, v), 'repeatable': rng.random() < .4})
            self.queries += [(path[1:] + [s, ''], v) for s in strings]
        if opts:
            d['options'] = opts
        self.dicts.append(d)
        if depth and rng.random() < .9:
            pool = rng.choice(WORDS)
            for w in rng.sample(pool, rng.randint(1, min(4, len(pool)))):
                self.build(path + [w], depth - 1)
        else:
            pos = []
            for k in range(rng.choice([0, 1, 2, 2, 3])):
                v = self.values()
                pos.append({'number': k + 1, 'complete': completer(rng, v)})
                if rng.random() < .8:
                    pos[-1]['metavar'] = rng.choice(rng.choice(WORDS)).upper()
                self.queries.append((path[1:] + ['x%d' % i for i in range(k)] + [''], v))
            if pos:
                d['positionals'] = pos


DEFINED = {'bash': r'^(\S*)\(\) \{', 'zsh': r'^(\S*)\(\) \{', 'fish': r'^function (\S*)'}
VALID = {'bash': r'[^\W0-9][\w@%+:,.-]*|[\w@%+:,.-]+', 'zsh': r'[\w@%+:,.-]+', 'fish': r'[\w@%+:,.-]+'}


def functions_are_defined_once(b):
    b.begin('functions', 'random definitions of look-alike names, progs and function prefixes: every function of the script is defined once, '
            'under a valid name, and the script is free of syntax errors')
    for _ in range(400 if b.thorough() else 70):
        n = Names2(b.rng)
        for prefix in b.rng.sample(PREFIXES, 2):
            for shell in SHELLS:
                try:
                    text = generate(shell, n.dicts, config(set_function_prefix=prefix))
                except real('errors').CrazyError:
                    continue
                b.case(key=(shell, prefix, repr(n.dicts)))
                found = re.findall(DEFINED[shell], text, re.M)
                double = sorted({f for f in found if found.count(f) > 1})
                data = {'definition': n.dicts, 'shell': shell, 'function_prefix': prefix}
                if double:
                    b.fail('double:%s' % shell, '%s: functions defined twice: %s (function prefix %r)' % (shell, double, prefix), **data)
                odd = [f for f in found if not re.fullmatch(VALID[shell], f)]
                if odd:
                    b.fail('invalid:%s' % shell, '%s: invalid function names %s (function prefix %r)' % (shell, odd, prefix), **data)
                ok, err = shells.syntax_ok(shell, text)
                if not ok:
                    b.fail('syntax:%s' % shell, '%s: syntax error (function prefix %r): %s' % (shell, prefix, err[:300]), **data)


def everything_completes_with_its_own_values(b):
    b.begin('values', 'random definitions of look-alike names: each option and positional of each command offers exactly its own values')
    for _ in range(150 if b.thorough() else 22):
        n = Names2(b.rng)
        if not n.queries:
            continue
        prefix = b.rng.choice(PREFIXES)
        for shell in SHELLS:
            with quiet():
                text = generate(shell, n.dicts, config(set_function_prefix=prefix))
            got, err, _left = getattr(shells, shell + '_complete')(text, n.prog, [[n.prog] + q for q, _v in n.queries])
            data = {'definition': n.dicts, 'shell': shell, 'function_prefix': prefix}
            if got is None:
                b.fail('nothing:%s' % shell, '%s: no answer: %s' % (shell, err[:300]), **data)
                continue
            if err.strip():
                b.fail('stderr:%s' % shell, '%s: completing printed %s' % (shell, err[:400]), **data)
            for (q, want), g in zip(n.queries, got):
                b.case(key=(shell, prefix, repr(n.dicts), tuple(q)))
                g = sorted({(x if isinstance(x, str) else x[0]).rstrip(', ') for x in g})
                if g != sorted(want):
                    b.fail('values:%s' % shell, '%s: %s %s offers %s, declared are %s' % (shell, n.prog, ' '.join(q), g, want), query=q, **data)


BOUNDED = [functions_are_defined_once, everything_completes_with_its_own_values]
