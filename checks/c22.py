"""C22: option arguments are recognised in exactly the configured forms."""
import z3
from pydv import instrument, vc
from checks import model
from checks.common import SHELLS

TRUSTED = ['the shells and _arguments of Zsh (bounded part)']
ASSUMPTIONS = ['in Zsh a final option also excludes a repeatable positional (fixed by existing tests): not demanded there',
               'long_opt_arg_sep is not implemented for Fish (documented): only Bash and Zsh are run with it',
               'Fish itself completes the optional argument of an old-style option in the next word: known limit of complete -o, not demanded']
RULE = ('random command trees; every allowed option is completed in all forms (next word, =, attached, at the end of a cluster) after random command '
        'lines; words that look like options after --')
zu = instrument.mod('zsh_utils')
utils = instrument.mod('utils')
bop = instrument.mod('bash_option_completion')
NOT_FISH = [s for s in SHELLS if s != 'fish']


bp1 = instrument.mod('bash_parser')
bp2 = instrument.mod('bash_parser_v2')
cli = instrument.mod('cli')


def zsh_forms(v):
    """_arguments gets for each option string exactly the form of its argument: none, - and =- for attached only (optional), + and = for both, =- for equals only, nothing for a space only; + for every short option with a required argument"""
    v.covers('zsh_utils.make_option_spec')
    strings = [v.str('string%d' % i) for i in range(v.choose('strings', [1, 2]))]
    complete = v.choose('complete', [None, ['c']])
    optional = v.choose('optional', [True, False])
    sep = v.choose('sep', ['both', 'equals', 'space'])
    v.patch(zu.shell, 'quote', lambda x, quote_empty_string=True: vc.SymStr.of(x)._fn('quote'))
    v.patch(zu, 'escape_spec_message', lambda x: vc.SymStr.of(x)._fn('message'))
    v.patch(zu, 'escape_colon_in_quoted_string', lambda x: vc.SymStr.of(x)._fn('action'))
    metavar, action = v.str('metavar'), v.str('action')
    got = zu.make_option_spec(strings, complete=complete, optional_arg=optional, repeatable=True, metavar=metavar, action=action, long_opt_arg_sep=sep)
    want = []
    for s in strings:
        short = v.holds(vc.BI.len(s) == 2)
        if not complete:
            want.append(s)
        elif optional:
            want.append(s + ('-' if short else '=-'))
        elif short:
            want.append(s + '+')
        else:
            want.append(s + {'both': '=', 'equals': '=-', 'space': ''}[sep])
    w = want[0] if len(want) == 1 else '{' + want[0] + ',' + want[1] + '}'
    w = "'*'" + w
    if complete:
        w = w + ':' + metavar._fn('message')._fn('quote') + ':' + action._fn('action')
    v.same(got, w, 'spec')


class O:
    """an option of some kind, with strings of any text"""

    def __init__(self, v, n):
        self.shorts = [v.str(n + '.short')][:v.choose(n + '.shorts', [0, 1])]
        self.longs = [v.str(n + '.long')][:v.choose(n + '.longs', [0, 1])]
        self.kind = v.choose(n + '.kind', '01?')
        self.long_opt_arg_sep = v.choose(n + '.sep', ['both', 'equals', 'space'])
        self.var = v.str(n + '.variable')

    def get_short_option_strings(self):
        return list(self.shorts)

    def get_long_option_strings(self):
        return list(self.longs)

    def get_old_option_strings(self):
        return []

    def has_required_arg(self):
        return self.kind == '1'

    def has_optional_arg(self):
        return self.kind == '?'


class Abbrev:
    @staticmethod
    def get_many_abbreviations(strings):
        return list(strings)


class Variables:
    @staticmethod
    def capture_variable(o):
        return o.var


def _command(v):
    class C:
        opts = v.list('options', lambda n: O(v, n))

        def get_options(self):
            return self.opts
    return C()


def bash_find_option(v):
    """__find_option tells for each string of any number of options, whether its argument is in the next word: required arguments, unless the option is long and only = is allowed; optional ones never"""
    v.covers('bash_parser_v2._generate_option_cases')
    c = _command(v)
    v.patch(bp2.utils, 'get_option_abbreviator', lambda cmd: Abbrev)
    got = bp2._generate_option_cases(c, Variables)
    got = [o for s in got if isinstance(s, vc.Seg) and bool(s.src) for o in s.outs]
    if not bool(c.opts):
        v.prove(not got, 'nothing without options')
        return
    o = c.opts.elem
    for strings, long_ in ((o.shorts, False), (o.longs, True)):
        for s in strings:
            cases = [g for g in got if any(x is s for x in g.option_strings)]
            v.prove(len(cases) == 1, 'one case for each option string')
            want = '0' if o.kind == '0' or (o.kind == '1' and long_ and o.long_opt_arg_sep == 'equals') else '1' if o.kind == '1' else "'?'"
            v.prove(cases[0].args == want, 'number of arguments')
            v.same(cases[0].variable, o.var, 'variable')
    for g in got:
        v.prove(all(any(x is s for s in o.shorts + o.longs) for x in g.option_strings), 'no other option strings')


def bash_parser_cases(v):
    """the cases of the other parser: only a required argument is read from the next word, for long options not if only = is allowed, and for short ones only if nothing is attached"""
    v.covers('bash_parser._make_long_option_case', 'bash_parser._make_short_option_case')
    o = O(v, 'option')
    strings = [v.str('string')]
    v.patch(bp1.CasePatterns, 'for_short', lambda s: s[0]._fn('short'))
    v.patch(bp1.CasePatterns, 'for_long_without_arg', lambda s: s[0]._fn('alone'))
    v.patch(bp1.CasePatterns, 'for_long_with_arg', lambda s: s[0]._fn('equals'))
    var, pat = o.var, strings[0]
    if v.choose('long', [True, False]):
        got = bp1._make_long_option_case(strings, o, var)
        next_ = o.kind == '1' and o.long_opt_arg_sep != 'equals'
        want = pat._fn('alone') + ')\n  ' + var + ('+=("${words_dequoted[++argi]}")\n' if next_ else '+=("");\n' if o.kind == '?' else '+=("")\n') + '  continue;;'
        if o.kind != '0':
            want = want + '\n' + pat._fn('equals') + ')\n  ' + var + '+=("${arg#*=}")\n  continue;;'
    else:
        got = bp1._make_short_option_case(strings, o, var)
        if o.kind == '0':
            want = pat._fn('short') + ')\n  ' + var + '+=("");;'
        else:
            want = (pat._fn('short') + ')\n  if [[ -n "$trailing_chars" ]]\n  then ' + var + '+=("$trailing_chars")\n  else ' + var +
                    ('+=("${words_dequoted[++argi]}")\n' if o.kind == '1' else '+=("")\n') + '  fi\n  continue 2;;')
    v.same(got, want, 'case')


class Info:
    pass


def bash_dispatcher(v):
    """the word before is only completed as option if it awaits its argument, and only for required arguments; the current word for all kinds that exist, attached arguments included"""
    v.covers('bash_option_completion._get_dispatcher', 'bash_option_completion._get_prev_completion', 'bash_option_completion._get_cur_completion')
    info = Info()
    flags = {}
    for n in ('short', 'long', 'old'):
        for k in ('required', 'optional'):
            flags[n, k] = v.choose(n + '_' + k, [True, False])
            setattr(info, n + '_' + k, flags[n, k])
    info.old_option_strings = v.choose('old', ['', '-old|-older'])
    info.short_no_args_pattern = v.choose('flags', ['', '*([ab])'])
    info.short_required_args = 'rs' if info.short_required else ''
    info.short_optional_args = 'o' if info.short_optional else ''
    info.space_only = v.choose('space only', [[], ['--sp']])

    class Ctxt:
        class helpers:
            use_function = staticmethod(lambda n: 'PREFIX')
    info.ctxt = Ctxt
    got = bop._get_dispatcher(info)
    required = any(flags[n, 'required'] for n in ('short', 'long', 'old'))
    prev, _, cur = got.rpartition('case "$cur" in')
    lines = [l.strip() for l in prev.split('\n')]
    v.prove(('if (( OPTION_PENDING )); then' in lines) == required, 'the word before is only looked at if it awaits its argument')
    v.prove('WITHOUT_OPTIONAL' not in cur and all('WITH_OPTIONAL' not in l for l in lines), 'optional arguments are only completed when attached')
    # the first matching cases of the word before and the current word
    def rules(text):
        out, ls = [], [l.strip() for l in text.split('\n')]
        body = []
        for l in ls:
            body.append(l)
            if l.endswith((';;', ';;&')):
                out.append('\n'.join(body).strip())
                body = []
        return out
    p = rules(prev.partition('case "$prev" in')[2])
    c = rules(cur)
    done = lambda rs, start: [r for r in rs if r.startswith(start) and '__complete_option' in r]
    v.prove(bool(done(p, '--*)')) == flags['long', 'required'], 'long options')
    v.prove(bool([r for r in p if r.startswith('-*)') and '"$prev" "$cur"' in r]) == flags['old', 'required'], 'old-style options')
    short = [r for r in p if '"-${prev: -1}" "$cur"' in r]
    v.prove(bool(short) == flags['short', 'required'], 'short options')
    for r in short:
        v.prove(r.startswith('-' + info.short_no_args_pattern + '[rs])'), 'a cluster of flags that ends with an option that requires an argument')
    v.prove(bool(done(c, '--*=*)')) == (flags['long', 'required'] or flags['long', 'optional']), 'long options with =')
    v.prove(bool(done(c, '-*=*)')) == (flags['old', 'required'] or flags['old', 'optional']), 'old-style options with =')
    short = [r for r in c if '"-${pre: -1}" "$value"' in r]
    v.prove(bool(short) == (flags['short', 'required'] or flags['short', 'optional']), 'attached to short options')
    for r in short:
        v.prove(r.startswith('-%s[%s]*)' % (info.short_no_args_pattern, info.short_required_args + info.short_optional_args)), 'a cluster of flags and one with an argument')
    longs = [i for i, r in enumerate(c) if r.startswith('--sp=*)')]
    if info.space_only and done(c, '--*=*)'):
        v.prove(len(longs) == 1 and '__complete_option' not in c[longs[0]] and longs[0] < [i for i, r in enumerate(c) if r.startswith('--*=*)')][0],
                'nothing after = if only a space is allowed')


def bash_master(v):
    """__complete_option: required arguments are completed in both modes, optional ones only with WITH_OPTIONAL, by the own completion code, and flags not at all"""
    v.covers('bash_option_completion.MasterCompletionFunctionNoWhen', 'bash_option_completion.MasterCompletionFunction',
             'bash_option_completion.MasterCompletionFunctionBase.get_all_option_strings')
    opts = []
    when = v.choose('when', [False, True])
    for n in 'abc':
        o = object.__new__(cli.Option)
        kind = v.choose(n + '.kind', '01?')
        o.option_strings = ['-' + n, '--' + n * 2, '-' + n * 3]
        o.complete = None if kind == '0' else ['none']
        o.optional_arg = kind == '?'
        o.when = 'W' if when and n == 'b' else None
        o.parent = None
        o.kind, o.code = kind, v.choose(n + '.code', ['X', '', 'Y'])
        opts.append(o)

    class G:
        ctxt = commandline = variable_manager = None

        @staticmethod
        def complete_option(o):
            return o.code
    v.patch(bop.bash_patterns, 'make_pattern', lambda o: '|'.join(o))
    v.patch(bop, 'make_overriding_command_pattern', lambda o: None)
    v.patch(bop.bash_when, 'generate_when_conditions', lambda *a: 'COND-' + a[3])
    f = bop._get_master_completion_obj(opts, Abbrev, G)
    code = f.get('fn')
    if all(o.kind == '0' for o in opts):
        v.prove(code is None, 'nothing to complete')
        return
    lines = [l.strip() for l in code.split('\n')]
    guard = [i for i, l in enumerate(lines) if l == '[[ "$mode" == WITH_OPTIONAL ]] || return 1']
    v.prove(len(guard) == (1 if any(o.kind == '?' for o in opts) else 0) and f.optionals == bool(guard), 'one guard of the optional arguments')
    for o in opts:
        at = [i for i, l in enumerate(lines) if o.option_strings[0] in l.replace('case "$opt" in ', '').rstrip(';)').split('|')]
        v.prove(len(at) == (0 if o.kind == '0' else 1), 'one case for each option with argument')
        if not at:
            continue
        l = lines[at[0]].replace('case "$opt" in ', '').rstrip(';)').split('|')
        v.prove(all(s in l for s in o.option_strings), 'all its strings')
        v.prove(not guard or (at[0] < guard[0]) == (o.kind == '1'), 'before the guard if required, after it if optional')
        body = []
        if not lines[at[0]].endswith(';;'):
            for l in lines[at[0] + 1:]:
                body.append(l.rstrip(';'))
                if l.endswith(';;'):
                    break
        v.prove(([b for b in body if b in 'XY' and b] == ([o.code] if o.code else [])), 'its completion code')
        v.prove(('if COND-W; then' in body) == bool(o.when), 'under its condition')


class TypedOption:
    """an option by what get_defined_option_types may ask of it"""
    def __init__(self, kinds, arg):
        self.kinds, self.arg = kinds, arg

    def get_short_option_strings(self):
        return ['-s'] if 's' in self.kinds else []

    def get_long_option_strings(self):
        return ['--long'] if 'l' in self.kinds else []

    def get_old_option_strings(self):
        return ['-old'] if 'o' in self.kinds else []

    def has_required_arg(self):
        return self.arg == '1'

    def has_optional_arg(self):
        return self.arg == '?'


FLAGS = [w + '_' + k for w in ('short', 'long', 'old') for k in ('required', 'optional', 'flag')]


def types_of(st, o):
    """the types that are defined once option `o` is seen"""
    kind = {'1': 'required', '?': 'optional', '0': 'flag'}[o.arg]
    st = dict(st)
    for word in ('short', 'long', 'old'):
        if word[0] in o.kinds:
            st[word + '_' + kind] = True
    return st


def option_types(v):
    """get_defined_option_types: a type of option is defined exactly if an option of some command is of that type, for any number of options; positionals and subcommands likewise"""
    v.covers('utils.get_defined_option_types')

    class Subcommands:
        def __init__(self, subcommands):
            self.subcommands = subcommands

    class Command:
        def __init__(self, name, options):
            self.options = options
            self.positionals = ['P'] * (v.choose(name + '.positionals', [0, 1]) if structure else 0)
            self.sub = v.choose(name + '.subcommands', [None, Subcommands([]), Subcommands(['S'])]) if structure else None

        def get_positionals(self):
            return self.positionals

        def get_subcommands(self):
            return self.sub

        def get_all_commandlines(self):
            return commands
    structure = v.choose('structure', [True, False])
    st = dict.fromkeys(FLAGS, False)
    commands = []
    if v.choose('two commands', [False, True]):
        o = TypedOption(*v.choose('option', [('s', '1'), ('l', '?'), ('o', '0')]))
        commands.append(Command('c0', [o]))
        st = types_of(st, o)
    options = v.list('options', lambda m: TypedOption(v.choose(m + '.kinds', ['s', 'l', 'o', 'slo']), v.choose(m + '.arg', '1?0')))
    options.fold = vc.Fold(st, types_of, dict.fromkeys(FLAGS, 'bool'))
    commands.append(Command('c1', [] if structure else options))
    got = utils.get_defined_option_types(commands[0])
    want = options.fold.final if options.fold.final else st
    for f in FLAGS:
        v.same(getattr(got, f), want[f], f)
    for w in ('short', 'long', 'old'):
        v.prove(vc.SymBool(vc.zb(getattr(got, w)) == z3.Or(*[vc.zb(want[w + k]) for k in ('_required', '_optional', '_flag')])), w)
    sub = any(c.sub and c.sub.subcommands for c in commands)
    v.prove(got.subcommands is sub and got.positionals is (sub or any(c.positionals for c in commands)), 'positionals and subcommands')


CONTRACTS = [option_types, bash_master, zsh_forms, bash_find_option, bash_parser_cases, bash_dispatcher]


def vals(c):
    return c.startswith('val.')


def queries(rng, root, inherit, n, seps):
    out = []
    for _ in range(n):
        w = model.random_words(rng, root, inherit, n=5, double_dash=.03)
        st = model.State(root, w, inherit)
        if st.pending or not st.valid or st.cmd.scope(inherit) == []:
            continue
        scope = st.cmd.scope(inherit)
        shells = NOT_FISH if seps else SHELLS
        longer = [x for o in scope for x in o.strings if len(x) > 2]
        if st.end:
            o = rng.choice(scope)
            w2 = w + [rng.choice(o.strings)]
            out.append((w2 + [''], model.State(root, w2, inherit).values(), lambda c: not c.startswith('-'), 'after --', [s for s in shells if s != 'zsh']))
            continue
        for o in scope:
            if not st.allowed(o) or o.kind == '0':
                continue
            mine = {'val.' + o.id}
            is_mine = lambda c, m=mine: c in m
            for s in o.strings:
                long_ = len(s) > 2
                ambiguous = long_ and s[1] != '-' and any(x == s[:2] and p.kind != '0' for p in scope for x in p.strings)
                if o.kind == '1':
                    if not long_ or o.sep != 'equals':
                        out.append((w + [s, ''], mine, vals, 'required:next word', shells))
                        out.append((w + [s, '-'], set(), lambda c: c.startswith('-'), 'required:options as argument', [x for x in shells if x != 'fish']))
                    else:
                        out.append((w + [s, ''], set(), is_mine, 'required:next word, though only = is allowed', shells))
                else:
                    w2 = w + [s]
                    sh = [x for x in shells if x != ('zsh' if o.final else '') and x != 'fish' or x == 'fish' and not model.fish_takes_next(model.State(root, w2, inherit), w2)]
                    out.append((w2 + [''], model.State(root, w2, inherit).values(), lambda c: not c.startswith('-'), 'optional:next word', sh))
                if long_ and not ambiguous:
                    if o.kind == '?' or o.sep != 'space':
                        out.append((w + [s + '='], mine, vals, o.kind + ':after =', shells))
                        out.append((w + [s + '=val.'], mine, vals, o.kind + ':after = with text', shells))
                    else:
                        out.append((w + [s + '='], set(), is_mine, 'required:after =, though only a space is allowed', shells))
                if not long_ and not any(x.startswith(s + 'v') for x in longer):
                    out.append((w + [s + 'v'], mine, vals, o.kind + ':attached', shells))
                    if not any(x.startswith(s) for x in longer):
                        out.append((w + [s], mine, vals, o.kind + ':attached, nothing typed', shells))
                    flags = [x for p in scope if p.kind == '0' and st.allowed(p) and not (set(p.groups or []) & set(o.groups or []))
                             and not p.final for x in p.strings if len(x) == 2]
                    if flags:
                        c = rng.choice(flags) + s[1]
                        elsewhere = {x for k in root.all() for p in k.opts if p.kind != '0' for x in p.strings}
                        csh = [x for x in shells if x != 'fish' or c[:2] not in elsewhere]     # Fish doesn't look at the command there
                        if not any(x.startswith(c[:2]) for x in longer):
                            out.append((w + [c + 'v'], mine, vals, o.kind + ':attached in a cluster', csh))
                            out.append((w + [c], mine, vals, o.kind + ':attached in a cluster, nothing typed', csh))
                            if o.kind == '1':
                                out.append((w + [c, ''], mine, vals, 'required:next word after a cluster', csh))
    return out


def forms(b):
    rng = b.rng
    b.begin('forms', 'random trees of up to 3 levels, random command lines, every allowed option in every form, all separators; 3 shells')
    r = model.Runner(b)
    for i in range(400 if b.thorough() else 60):
        seps = [None, 'space', 'equals', 'both'] if i % 2 else None
        root = model.random_tree(rng, override=False, options=4, kinds='0011?', seps=seps)
        conf = {'set_inherit_options': rng.random() < .6}
        if seps:
            conf['set_long_option_argument_separator'] = rng.choice(['space', 'equals', 'both'])
        real = [(o, o.sep) for c in root.all() for o in c.opts]
        dicts = root.dictionaries()
        for o, s in real:
            if o.kind == '1':
                o.sep = s or conf.get('set_long_option_argument_separator', 'both')
        qs = queries(rng, root, conf['set_inherit_options'], 6, seps)
        r.run(root, conf, qs, dicts=dicts)
    r.finish()


BOUNDED = [forms]
