"""An independent model of what a definition means: which candidates belong to a command line.

A definition is a tree of commands. Every completer of it is ['choices', ['val.<id>']], so that a candidate tells whose it is.
"""
import concurrent.futures

from checks import c05
from checks.common import config, generate, SHELLS


class Opt:
    def __init__(self, oid, strings, kind='0', repeatable=False, hidden=False, final=False, groups=None, sep=None, when=None, order=None):
        self.id, self.strings, self.kind, self.repeatable = oid, strings, kind, repeatable
        self.hidden, self.final, self.groups, self.sep, self.when = hidden, final, groups, sep, when

    def dictionary(self):
        d = {'option_strings': list(self.strings)}
        if self.kind != '0':
            d['complete'] = ['choices', ['val.' + self.id]]
        if self.kind == '?':
            d['optional_arg'] = True
        if self.repeatable:
            d['repeatable'] = True
        for k in ('hidden', 'final'):
            if getattr(self, k):
                d[k] = True
        if self.groups:
            d['groups'] = list(self.groups)
        if self.sep:
            d['long_opt_arg_sep'] = self.sep
        if self.when:
            d['when'] = self.when
        return d


class Cmd:
    def __init__(self, name, parent=None, aliases=()):
        self.name, self.parent, self.aliases = name, parent, list(aliases)
        self.opts, self.pos, self.subs = [], [], []       # pos: [(number, id, repeatable)]
        if parent:
            parent.subs.append(self)

    def path(self):
        return ([] if not self.parent else self.parent.path()) + [self.name]

    def parents(self):
        return [] if not self.parent else self.parent.parents() + [self.parent]

    def all(self):
        return [self] + [x for s in self.subs for x in s.all()]

    def dictionaries(self):
        out = []
        for c in self.all():
            d = {'prog': ' '.join(c.path())}
            if c.aliases:
                d['aliases'] = list(c.aliases)
            if c.opts:
                d['options'] = [o.dictionary() for o in c.opts]
            if c.pos:
                d['positionals'] = [dict({'number': n, 'complete': ['choices', ['val.' + i]]}, **({'repeatable': True} if r else {}))
                                    for n, i, r in c.pos]
            out.append(d)
        return out

    def scope(self, inherit):
        """options in scope: a deeper command's option replaces one of its parents with the same option strings"""
        found = {}
        for c in (self.parents() if inherit else []) + [self]:
            level = {}
            for o in c.opts:
                level.setdefault(frozenset(o.strings), []).append(o)
            found.update(level)
        return [o for os in found.values() for o in os]

    def highest(self):
        return max([n for n, _i, _r in self.pos] or [0])


class State:
    """what the words of a command line mean"""

    def __init__(self, root, words, inherit):
        self.root, self.inherit = root, inherit
        self.cmd, self.base = root, 0          # current command, number of positionals before its first
        self.given, self.pos = [], []
        self.end, self.pending = False, None
        self.valid = True                      # no option was given that isn't allowed there
        self.given_at = []                     # commands at which the options were given
        for w in words:
            self.read(w)

    def lookup(self, s):
        for o in self.cmd.scope(self.inherit):
            if s in o.strings:
                return o
        return None

    def give(self, o):
        self.valid = self.valid and self.allowed(o)
        self.given.append(o)
        self.given_at.append(self.cmd)

    def read(self, w):
        if self.pending:
            self.pending = None
        elif self.end or not w.startswith('-') or w == '-':
            self.positional(w)
        elif w == '--':
            self.end = True
        else:
            name, eq, _val = w.partition('=')
            o = self.lookup(name)
            if o and (len(name) > 2 or not eq):
                self.give(o)
                if o.kind == '1' and not eq:
                    self.pending = o
                return
            if w.startswith('--'):
                return
            for i in range(1, len(w)):
                o = self.lookup('-' + w[i])
                if not o:
                    return
                self.give(o)
                if o.kind != '0':
                    if o.kind == '1' and i == len(w) - 1:
                        self.pending = o
                    return

    def positional(self, w):
        self.pos.append(w)
        n = len(self.pos) - self.base
        if self.cmd.subs and n == self.cmd.highest() + 1:
            for s in self.cmd.subs:
                if w == s.name or w in s.aliases:
                    self.cmd, self.base = s, len(self.pos)

    def values(self):
        """candidates for a new word"""
        if self.pending:
            return {'val.' + self.pending.id}
        n = len(self.pos) - self.base + 1
        out = {'val.' + i for m, i, r in self.cmd.pos if m == n or (r and n >= m)}
        if self.cmd.subs and n == self.cmd.highest() + 1:
            out |= {x for s in self.cmd.subs for x in [s.name] + s.aliases}
        return out

    def suggested(self, o):
        if self.end or o.hidden:
            return False
        return self.allowed(o)

    def allowed(self, o):
        """not suppressed by what was given before"""
        if any(g.final for g in self.given):
            return False
        strings = {s for g in self.given for s in g.strings}
        if not o.repeatable and strings & set(o.strings):
            return False
        for g in self.given:
            if g is not o and g.groups and o.groups and set(g.groups) & set(o.groups):
                return False
        return True

    def option_strings(self, prefix):
        return {s for o in self.cmd.scope(self.inherit) if self.suggested(o) for s in o.strings if s.startswith(prefix)}


# ------------------------------------------------------------------ random definitions and command lines

LONG = ['--alpha', '--beta', '--gamma', '--delta', '--alphabet', '--al-pha', '--be', '--epsilon', '--zeta', '--eta', '--theta', '--iota',
        '--kappa', '--lambda', '--mu', '--nu', '--xi', '--pi']
OLD = ['-old', '-older', '-alpha', '-x11', '-zz', '-eta', '-yes', '-quiet']
SHORT = ['-' + c for c in 'abcdefghijklmnopqrstuwxyzABC12']


def random_tree(rng, depth=None, options=4, kinds='001?', positionals=True, override=True, hidden=.12, final=.08, groups=.4, repeatable=.3,
                old=.2, seps=None, sub_positionals=None, alias=.3, branch=3):
    used = set()
    ids = [0]

    def nid(p):
        ids[0] += 1
        return '%s%d' % (p, ids[0])

    def strings(taken):
        out = []
        kinds_ = rng.choice(['s', 'l', 'sl', 'ls', 'l', 'sl', 'll', 'sll']) if rng.random() > old else rng.choice(['o', 'so', 'lo', 'slo', 'ol', 'os'])
        for k in kinds_:
            pool = [x for x in {'s': SHORT, 'l': LONG, 'o': OLD}[k] if x not in taken]
            if pool:
                s = rng.choice(pool)
                taken.add(s)
                out.append(s)
        return out

    def option(cmd, taken, strs=None, kind=None):
        strs = strs or strings(taken)
        if not strs:
            return
        o = Opt(nid('o'), strs, kind or rng.choice(kinds))
        if rng.random() < hidden:
            o.hidden = True
        elif rng.random() < repeatable:
            o.repeatable = True
        if rng.random() < final:
            o.final = True
        if rng.random() < groups:
            o.groups = rng.sample(['%s.%s' % ('.'.join(cmd.path()), g) for g in 'xyz'], rng.choice([1, 1, 1, 2]))
        if seps and o.kind == '1':
            o.sep = rng.choice(seps)
        cmd.opts.append(o)

    def fill(cmd, d, taken):
        for _ in range(rng.randint(0, options)):
            option(cmd, taken)
        if override and cmd.parent and rng.random() < .5:
            cands = [o for p in cmd.parents() for o in p.opts]
            for o in rng.sample(cands, min(len(cands), 1)):
                s = list(o.strings)
                rng.shuffle(s)
                if not any(set(s) & set(x.strings) for x in cmd.opts):
                    option(cmd, taken, s, o.kind if override == 'same' else None)
        rng.shuffle(cmd.opts)
        have_subs = d > 0 and rng.random() < (.8 if not cmd.parent else .6)
        if positionals:
            n = rng.choice([0, 0, 1, 2]) if have_subs else rng.choice([0, 1, 2, 3])
            for i in range(1, n + 1):
                cmd.pos.append((i, nid('p'), False))
            if n and not have_subs and rng.random() < .4:
                cmd.pos[-1] = (n, cmd.pos[-1][1], True)
            rng.shuffle(cmd.pos)
        if have_subs:
            names = rng.sample(['add', 'addall', 'rm', 'list', 'ls', 'go', 'sub', 'x', 'status', 'st'], 9)
            for _ in range(rng.randint(1, branch)):
                s = Cmd(names.pop(), cmd, [names.pop()] if rng.random() < alias else [])
                fill(s, d - 1, set(taken))
        return cmd

    return fill(Cmd('mytool'), rng.choice([0, 1, 1, 2, 2]) if depth is None else depth, used)


def random_words(rng, root, inherit, n=6, double_dash=.05, space=True, equals=True, optional=True, odd_values=True, ok=None):
    """a valid command line (without the program); may end with an option awaiting its argument"""
    words = []
    for _ in range(rng.randint(0, n)):
        st = State(root, words, inherit)
        value = rng.choice(['v', 'val.x', 'some', 'a/b'] + ([c.name for c in root.all()] if odd_values else []))
        if st.pending:
            words.append(value)
            continue
        k = rng.random()
        opts = [o for o in st.cmd.scope(inherit) if (st.allowed(o) or rng.random() < .05) and (ok is None or ok(o))]
        if not st.end and opts and k < .55:
            o = rng.choice(opts)
            s = rng.choice(o.strings)
            if o.kind == '0':
                if len(s) == 2 and rng.random() < .4:         # a cluster
                    more = [p for p in opts if p is not o and p.kind == '0' and any(len(x) == 2 for x in p.strings)]
                    if more:
                        w = s + [x for x in rng.choice(more).strings if len(x) == 2][0][1]
                        if not any(w.startswith(x) or x.startswith(w) for p in st.cmd.scope(inherit) for x in p.strings if len(x) > 2):
                            s = w
                words.append(s)
            elif len(s) == 2:
                attached = s + rng.choice(['v', 'some', 'val.y'])
                safe = not any(x.startswith(attached[:3]) for p in st.cmd.scope(inherit) for x in p.strings if len(x) > 2)
                if rng.random() < .5 and safe:
                    words.append(attached)
                elif o.kind == '1':
                    words += [s, value]
                elif optional:
                    words.append(s)
            elif o.kind == '1' and (o.sep == 'space' or (rng.random() < .5 and o.sep != 'equals')):
                words += [s, value]
            elif o.kind == '1' or rng.random() < .5:
                if s[1] == '-' or not any(x == s[:2] and p.kind != '0' for c in root.all() for p in c.opts for x in p.strings):
                    words.append(s + '=' + value)      # -old=value is ambiguous if -o takes an argument
            elif optional:
                words.append(s)
        elif not st.end and k < .55 + double_dash:
            words.append('--')
        else:
            n_ = len(st.pos) - st.base + 1
            if st.cmd.subs and n_ == st.cmd.highest() + 1:
                s = rng.choice(st.cmd.subs)
                words.append(rng.choice([s.name] + s.aliases))
            elif any(m == n_ or (r and n_ >= m) for m, _i, r in st.cmd.pos):
                words.append(value)
    return words


def tidy(cands):
    """the candidates without attached option, description and separator"""
    out = set()
    for c in cands:
        c = c.strip()
        i = c.find('val.')
        if i >= 0 and c.startswith('-'):
            c = c[i:]
        if c.startswith('-'):
            c = c.rstrip('=')
        out.add(c)
    return out


class Runner:
    """runs batches of queries in the shells, several at the same time"""

    def __init__(self, b):
        self.b = b
        self.jobs = []
        self.bad = set()

    def run(self, root, conf, queries, shells=SHELLS, dicts=None):
        """queries: [(words, expected set, keep(candidate), signature[, shells])]"""
        dicts = dicts or root.dictionaries()
        for sh in shells:
            mine = [q for q in queries if len(q) < 5 or sh in q[4]]
            if mine:
                self.jobs.append((sh, generate(sh, dicts, config(**conf)), mine, dicts, conf))

    def finish(self):
        b = self.b
        prog = [j[3][0]['prog'] for j in self.jobs]
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            results = list(ex.map(lambda jp: c05.complete(jp[0][0], jp[0][1], [[jp[1]] + q[0] for q in jp[0][2]], jp[1]), zip(self.jobs, prog)))
        for (sh, _script, mine, dicts, conf), res in zip(self.jobs, results):
            if res is None:
                b.skip('%s gave no answer' % sh)
                continue
            for q, r in zip(mine, res):
                words, want, keep, sig = q[:4]
                b.case(key=(sh, str(conf), str(dicts), tuple(words)))
                got = {c for c in tidy(r) if keep(c)}
                if got != want:
                    s = '%s:%s' % (sig, sh)
                    if s in self.bad:
                        continue
                    self.bad.add(s)
                    b.fail(s, '%s: `%s` is completed as %s, not %s (settings %r)' % (
                        sh, ' '.join([dicts[0]['prog']] + words), sorted(got), sorted(want), conf), definition=dicts, words=words, shell=sh,
                        settings=conf)
        self.jobs = []


def fish_takes_next(st, words):
    """Fish itself completes the optional argument of an old-style option in the next word"""
    return bool(words and st.given and st.given[-1].kind == '?' and words[-1] in st.given[-1].strings and
                len(words[-1]) > 2 and words[-1][1] != '-')
