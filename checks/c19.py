"""C19: defines are substituted exactly where they are referenced."""
import json
import os
import tempfile
import types

from pydv import instrument, vc
from . import gen
from .c11 import as_yaml
from .common import SHELLS, commandline, generate, quiet, real

RULE = ('a case is one definition, some parts of which are replaced by names of defines, as YAML, JSON and dictionaries; it is compared with '
        'the definition in which the parts are written out')
TRUSTED = ['PyYAML, the json module']
ASSUMPTIONS = []

ds = instrument.mod('dictionary_source')
ys = instrument.mod('yaml_source')
vt = instrument.mod('value_with_trace')


# ---------------------------------------------------------------- contracts

class Opaque:
    """a value of which nothing is known"""

    def __init__(self, name):
        self.name = name


class Defines:
    """any set of defines: a string is the name of one or isn't"""

    def __init__(self, v, key=lambda k: k):
        self.names, self.value, self.key = v.set('names'), Opaque('defined value'), key

    def get(self, k, default=None):
        return self.value if vc.API.truth(self.names.contains(self.key(k))) else default

    def contains(self, k):
        return self.names.contains(self.key(k))

    def getitem(self, k):
        if not vc.API.truth(self.contains(k)):
            raise KeyError(k)
        return self.value

    __getitem__ = getitem

    def __contains__(self, k):
        raise vc.Unsupported('membership outside the instrumented code')


class Trace:
    """stands for a ValueWithTrace"""

    def __init__(self, value):
        self.value = value


def inner(v, module, defines, recursion):
    """the function replace_defines inside of replace_defines_in_documents, its recursive calls replaced by `recursion`"""
    outer = module.replace_defines_in_documents.__code__
    codes = [c for c in outer.co_consts if isinstance(c, types.CodeType) and c.co_name == 'replace_defines']
    if len(codes) != 1 or not set(codes[0].co_freevars) <= {'defines', 'replace_defines'}:
        raise vc.Unsupported('replace_defines is not a local function')
    cells = {'defines': defines, 'replace_defines': recursion}
    return types.FunctionType(codes[0], module.__dict__, 'replace_defines', None,
                              tuple(types.CellType(cells[n]) for n in codes[0].co_freevars))


def shape(v, wrap):
    """a value: a string, a list or a dictionary of any size, or something else"""
    kind = v.choose('kind', ['string', 'list', 'dict', 'number', 'null', 'bool'])
    if kind == 'string':
        return kind, v.str('string')
    if kind == 'list':
        return kind, v.list('items', lambda n: Opaque(n))
    if kind == 'dict':
        pairs = v.list('pairs', lambda n: (v.str('key'), Opaque(n)))
        return kind, vc.GenDict(pairs)
    return kind, {'number': 5, 'null': None, 'bool': True}[kind]


def replacement(v):
    """the replacement of a value, given that of its parts: a string is replaced by the defined value itself if it is a name, and
    stays otherwise; lists and dictionaries keep their keys and their order, with every part replaced; other values stay"""
    v.covers('dictionary_source.replace_defines_in_documents')
    defines = Defines(v)
    replaced, asked = {}, []

    def recursion(x):
        asked.append(x)
        return replaced.setdefault(id(x), Opaque('replaced'))
    kind, x = shape(v, None)
    judge_replacement(v, kind, x, inner(v, ds, defines, recursion)(x), defines, asked, replaced, x)


def replacement_with_trace(v):
    """the same for values with a position (YAML)"""
    v.covers('yaml_source.replace_defines_in_documents')
    defines = types.SimpleNamespace(value=Defines(v))
    replaced, asked = {}, []

    def recursion(x):
        asked.append(x)
        return replaced.setdefault(id(x), Opaque('replaced'))
    kind, x = shape(v, None)
    t = Trace(x)
    r = inner(v, ys, defines, recursion)(t)
    if kind == 'string' and r is not t:
        v.prove(r is defines.value.value, 'only replaced by the defined value')
        v.prove(defines.value.names.contains(x), 'only a name is replaced')
        return
    if kind == 'string':
        v.prove(vc.API.not_(defines.value.names.contains(x)), 'a name is replaced')
    judge_replacement(v, kind, x, r.value, defines.value, asked, replaced, x)


def judge_replacement(v, kind, x, r, defines, asked, replaced, before):
    if kind == 'string':
        if v.holds(defines.names.contains(x)):
            v.prove(r is defines.value, 'a name is replaced by the defined value')
        else:
            v.prove(r is x, 'another string stays')
        v.prove(not asked, 'what is defined is not replaced again')
        return
    if kind in ('number', 'null', 'bool'):
        v.prove(r is x, 'other values stay')
        return
    source = x if kind == 'list' else x.items()
    if not bool(source):
        n = vc.items_of(r.items() if kind == 'dict' else r)
        v.prove(all(isinstance(s, vc.Seg) for s in n) or not n, 'nothing is added')
        return
    out = vc.items_of(r.items() if kind == 'dict' else r)
    v.prove(len(out) == 1 and isinstance(out[0], vc.Seg) and len(out[0].outs) == 1 and out[0].src is source, 'one for one, in the same order')
    got = out[0].outs[0]
    elem = source.elem
    if kind == 'dict':
        v.same(got[0], elem[0], 'keys stay')
        got, elem = got[1], elem[1]
    v.prove(got is replaced.get(id(elem)), 'every part is replaced')


def documents_are_kept(v):
    """for every position of the definitions document among three others: it is taken out, and all other documents are replaced, in the same order; without it nothing is replaced"""
    v.covers('dictionary_source.replace_defines_in_documents', 'yaml_source.replace_defines_in_documents')
    yaml = v.choose('yaml', [False, True])
    where = v.choose('position', [None, 0, 1, 2, 3])
    kinds = [v.choose('document %d' % i, ['command', 'no prog', 'text', 'null']) for i in range(3)]
    w = vt_value if yaml else lambda x: x
    docs, want = [], []
    for i, k in enumerate(kinds):
        for put_, name in ((docs.append, 'NAME'), (want.append, 'value' if where is not None else 'NAME')):
            make = lambda z, name=name, i=i, k=k: {
                'command': lambda: z({z('prog'): z('NAME ' + str(i)), z('help'): z([z(name), z('NAMES'), z(5)])}),
                'no prog': lambda: z({z('NAME'): z({z('NAME'): z(name)})}),
                'text': lambda: z(name), 'null': lambda: z(None)}[k]()
            put_(make(w) if name == 'NAME' and put_.__self__ is docs else make(lambda x: x))
    if where is not None:
        docs.insert(where, w({w('prog'): w('%defines%'), w('NAME'): w('value'), w('value'): w('again')}))
    m = ys if yaml else ds
    out = m.replace_defines_in_documents(list(docs))
    v.prove(len(out) == 3, 'the definitions document is taken out, the others are kept')
    got = list(map(plain_trace, out)) if yaml else out
    v.prove(got == want, 'every other document is replaced, in the same order')


def vt_value(x):
    return vt.ValueWithTrace(x, 'src', 1, 1)


def plain_trace(x):
    x = x.value
    if type(x) is list:
        return [plain_trace(y) for y in x]
    if type(x) is dict:
        return {plain_trace(k): plain_trace(y) for k, y in x.items()}
    return x


def the_definition_is_replaced_once(v):
    """dictionaries_to_commandline replaces a copy of what it is given, before anything else looks at it"""
    v.covers('dictionary_source.dictionaries_to_commandline')
    seen = []

    class Stop(Exception):
        pass

    def fix(x):
        seen.append(x)
        raise Stop
    replaced = [{'prog': 'x'}]
    given = []
    v.patch(ds, 'replace_defines_in_documents', lambda d: given.append(d) or replaced)
    v.patch(ds.compat, 'fix_commandline_dictionaries', fix)
    dicts = [{'prog': '%defines%', 'a': 1}, {'prog': 'a'}]
    try:
        ds.dictionaries_to_commandline(dicts)
    except Stop:
        pass
    v.prove(len(seen) == 1 and seen[0] is replaced, 'the replaced definition is used')
    v.prove(len(given) == 1 and given[0] == dicts, 'the whole definition is given')
    v.prove(given[0] is not dicts and given[0][0] is not dicts[0], 'the definition of the caller is not changed')


CONTRACTS = [replacement, replacement_with_trace, documents_are_kept, the_definition_is_replaced_once]


# ------------------------------------------------------------------ bounded

def spots(x, path=()):
    """the places of all values (not keys)"""
    yield path
    if isinstance(x, dict):
        for k, y in x.items():
            yield from spots(y, path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from spots(y, path + (i,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, y):
    at(x, path[:-1])[path[-1]] = y


def strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for k, y in x.items():
            if isinstance(k, str):
                yield k
            yield from strings(y)
    elif isinstance(x, list):
        for y in x:
            yield from strings(y)


def expand(x, defines):
    """what the documentation says: every string value that is a name becomes the value, once"""
    if type(x) is str:
        return gen.clone(defines[x]) if x in defines else x
    if type(x) is list:
        return [expand(y, defines) for y in x]
    if type(x) is dict:
        return {k: expand(y, defines) for k, y in x.items()}
    return x


def outcome(f):
    try:
        with quiet():
            return 'ok', gen.read(f())
    except real('errors').CrazyError as e:
        return 'error', str(e)
    except RecursionError:
        raise
    except Exception as e:                          # pylint: disable=broad-except
        return 'crash', '%s: %s' % (type(e).__name__, e)


def load(kind, docs, tmp):
    if kind == 'dictionaries':
        return lambda: commandline(docs)
    if kind == 'yaml':
        f, text, m = os.path.join(tmp, 'd.yaml'), '\n---\n'.join(map(as_yaml, docs)), 'yaml_source'
    else:
        f, text, m = os.path.join(tmp, 'd.json'), json.dumps(docs), 'json_source'
    with open(f, 'w', encoding='utf-8') as fh:
        fh.write(text)
    return lambda: real(m).load_from_file(f)


def block_yaml(docs):
    import yaml
    return yaml.safe_dump_all(docs, sort_keys=False, allow_unicode=True)


def judge(docs, defines, tmp, where):
    """-> None or (kind, text)"""
    full = docs[:where] + [dict({'prog': '%defines%'}, **{str(k): x for k, x in defines.items()})] + docs[where:]
    written = [expand(d, defines) for d in docs]
    for kind in ('dictionaries', 'json', 'yaml'):
        if kind == 'json' and not jsonable(docs + [defines]):
            continue
        want, got = outcome(load(kind, written, tmp)), outcome(load(kind, full, tmp))
        if want[0] != got[0]:
            return kind + ':outcome', '%s: expected %s, got %s' % (kind, str(want)[:200] if want[0] != 'ok' else 'success', str(got)[:200] if got[0] != 'ok' else 'success')
        if want[0] == 'ok' and want != got:
            return kind + ':different', '%s: %s' % (kind, gen.diff(want[1][0], got[1][0]) or 'order of commands')
    return None


def scripts(docs, defines):
    """a value that is used at several places must not be shared in a way that changes the scripts"""
    full, written = [dict({'prog': '%defines%'}, **defines)] + docs, [expand(d, defines) for d in docs]
    results = []
    for d in (full, written):
        try:
            results.append([generate(s, commandline(d)) for s in SHELLS])
        except real('errors').CrazyError as e:
            results.append('error')
    if results[0] != results[1]:
        return 'scripts', 'the scripts differ from those of the definition that is written out'
    return None


def jsonable(x):
    if isinstance(x, dict):
        return all(isinstance(k, str) and jsonable(y) for k, y in x.items())
    return all(map(jsonable, x)) if isinstance(x, list) else True


NAMES = ['name', 'my_completer', 'a b', 'option_strings', 'complete', 'prog', 'help', 'choices', 'ümlaut', '1', 'true', 'x', 'NAME', 'name ', 'nam', '%x%', '"q"',
         'options', '%', 'null', '']


def random_defines(b):
    rng = b.rng
    n = 1500 if b.thorough() else 350
    b.begin('random definitions', '%d definitions; 0-5 defines; references at random places and everywhere the value occurs; names that occur elsewhere '
            'as keys, parts of strings and inside of defined values' % n)
    bad = set()
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(n):
            docs = gen.definition(rng, text=['help', 'name x', 'NAME', 'xnamex', 'Name', 'x'], depth=1, prog='mytool')
            plain_docs = gen.clone(docs)
            used = set(strings(docs))
            defines = {}
            names = [x for x in NAMES if x not in used and x != 'prog']
            for _k in range(rng.randint(0, 5)):
                if not names:
                    break
                places = [(i,) + p for i, d in enumerate(docs) for p in spots(d) if p and not (p == ('prog',) and rng.random() < .6)]
                p = rng.choice(places)
                value = at(docs, p)
                name = names.pop(rng.randrange(len(names)))
                defines[name] = gen.clone(value)
                for q in places:
                    try:
                        if q == p or rng.random() < .7 and type(at(docs, q)) is type(value) and at(docs, q) == value:
                            put(docs, q, name)
                    except (KeyError, IndexError, TypeError):
                        pass                # inside of what was replaced
            for _k in range(rng.choice([0, 0, 1, 2])):
                # defines that are not (only) references: their names or values occur in the text
                k = rng.choice([x for x in sorted(used) if x != 'mytool'] + NAMES[:4])
                if k != 'prog' and k not in defines and not any(k == d.get('prog') for d in docs):
                    defines[k] = rng.choice(['other', 'help', 'name', k, k + 'x', 5, None, ['choices', ['a']]])
            b.case(key=repr(docs), sample=(docs, defines) if len(b.samples) < 2 else None)
            r = judge(docs, defines, tmp, rng.randint(0, len(docs)))
            r = r or (scripts(docs, defines) if rng.random() < .25 else None)
            if r and r[0] not in bad:
                bad.add(r[0])
                b.fail('defines:' + r[0], '%s with the defines %s' % (r[1], str(defines)[:300]), documents=docs, defines=defines, written_out=plain_docs)


def places(b):
    """every kind of value, at every place, with every position of the definitions document, as block YAML too"""
    b.begin('places', 'a whole value of every kind at every place of a definition with all fields')
    base = [
        {'prog': 'mytool', 'help': 'h', 'aliases': [], 'wraps': 'ls', 'abbreviate_commands': True, 'inherit_options': False,
         'options': [{'option_strings': ['-a', '--aa'], 'metavar': 'M', 'help': 'x', 'optional_arg': True, 'groups': ['g', 'h'], 'repeatable': False,
                      'hidden': True, 'complete': ['combine', [['choices', {'k': 'v', 'l': 'w'}], ['range', 1, 5]]], 'nosort': True,
                      'when': 'has_option -b', 'capture': 'C', 'long_opt_arg_sep': 'both'},
                     {'option_strings': ['-b'], 'group': 'g'}],
         'positionals': [{'number': 1, 'metavar': 'P', 'help': 'p', 'complete': ['key_value_list', ',', '=', [['k', 'd', ['choices', ['k', 'd']]], ['l', None, None]]]}]},
        {'prog': 'mytool sub', 'aliases': ['s'], 'options': [{'option_strings': ['-a', '--aa'], 'complete': ['list', ['integer', {'min': 0, 'max': 9}]]}]},
    ]
    bad = set()
    with tempfile.TemporaryDirectory() as tmp:
        for n, p in enumerate(q for i, d in enumerate(base) for q in ((i,) + s for s in spots(d))):
            docs = gen.clone(base)
            value = at(docs, p)
            if p[1:]:
                put(docs, p, 'NAME')
            else:
                docs[p[0]] = 'NAME'
            for where in range(3):
                b.case(key=(p, where))
                r = judge(docs, {'NAME': value, 'x': 'other', 'unused': ['NAME']}, tmp, where)
                if r and r[0] not in bad:
                    bad.add(r[0])
                    b.fail('places:' + r[0], '%s: the define at %s of the definition, definitions at %d' % (r[1], list(p), where), documents=docs)
            # the same definition twice, as block style YAML
            f = os.path.join(tmp, 'b.yaml')
            full = [{'prog': '%defines%', 'NAME': value}] + docs
            with open(f, 'w', encoding='utf-8') as fh:
                fh.write(block_yaml(gen.clone(full)))
            want = outcome(lambda: commandline(base))
            got = outcome(lambda: real('yaml_source').load_from_file(f))
            if want != got and 'block' not in bad:
                bad.add('block')
                b.fail('places:block', 'block style YAML with a define at %s: %s' % (list(p), str(got)[:300]), documents=full)


def not_commands(b):
    """the definitions document is never a command, and no error of the definition gets lost"""
    b.begin('definitions document', 'odd contents of the definitions document, with valid and invalid commands')
    bad = set()
    commands = [[{'prog': 'mytool', 'help': 'A'}, {'prog': 'mytool sub', 'options': [{'option_strings': ['-A'], 'complete': 'A'}]}],
                [{'prog': 'mytool', 'options': 'A'}], [{'prog': 'A'}], [{'prog': 'mytool', 'A': 'x'}], ['A'], [None], [],
                [{'prog': 'mytool', 'positionals': [{'number': 'A'}]}], [{'prog': 'mytool', 'options': ['A', 'A']}],
                [{'prog': 'mytool', 'options': [{'option_strings': 'A'}]}], [{'prog': ['A']}], [{'prog': 'mytool A'}],
                [{'prog': 'mytool'}, {'prog': 'A'}], [{'prog': 'mytool', 'help': 'A', 'aliases': ['A', 'B']}]]
    values = ['x', 'A', 'B', 'mytool', 'mytool sub', 5, None, True, 1.5, [], {}, ['choices', ['A', 'B']], {'option_strings': ['-x'], 'group': 'A'},
              [{'option_strings': ['-x'], 'group': 'A'}], ['none'], ['-x', '--A'], '%defines%', {'prog': 'mytool'}]
    with tempfile.TemporaryDirectory() as tmp:
        for docs in commands:
            for value in values:
                for where in range(len(docs) + 1):
                    if value == '%defines%' and {'prog': 'A'} in docs:
                        continue                # a program of that name: not a definition of the documentation
                    b.case(key=(repr(docs), repr(value), where))
                    r = judge(gen.clone(docs), {'A': value, 'B': 'second'}, tmp, where)
                    if r and r[0] not in bad:
                        bad.add(r[0])
                        b.fail('contents:' + r[0], '%s: A is %r, definitions at %d' % (r[1], value, where), documents=docs)


BOUNDED = [random_defines, places, not_commands]
