#!/usr/bin/env python3-vt
"""Runs the instrumented modules and the original ones on the same concrete inputs and compares everything they return
(python3-vt pydv/selftest.py [N [SEED]]; run by tools/setup.py).  The instrumented text is what the contracts are proved of."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)

from pydv import instrument           # noqa: E402
from checks import gen                # noqa: E402
from checks.common import quiet, SHELLS   # noqa: E402

SETTERS = {'set_abbreviate_commands': (True, False), 'set_abbreviate_options': (True, False), 'set_repeatable_options': (True, False),
           'set_inherit_options': (True, False), 'set_option_stacking': (True, False), 'set_fish_inline_conditions': (True, False),
           'set_keep_comments': (True, False), 'set_debug': (True, False), 'set_line_length': (20, 80)}


def outcome(f, *a):
    try:
        with quiet():
            return f(*a)
    except RecursionError:
        return 'RecursionError'
    except Exception as e:             # pylint: disable=broad-except
        return '%s: %s' % (type(e).__name__, e)


def jobs(rng, n):
    """functions of a module getter"""
    for _ in range(n):
        dicts = gen.generatable(rng, depth=2)
        conf = {k: rng.choice(v) for k, v in SETTERS.items() if rng.random() < .4}
        shell = rng.choice(SHELLS)

        def generate(get):
            c = get('config').Config()
            for k, v in conf.items():
                getattr(c, k)(v)
            cl = get('dictionary_source').dictionaries_to_commandline(gen.clone(dicts))
            return get(shell).generate_completion(cl, c)

        def convert(get):
            cl = get('dictionary_source').dictionaries_to_commandline(gen.clone(dicts))
            return get('yaml_source').commandline_to_yaml(cl), get('json_source').commandline_to_json(cl), get('dictionary_source').commandline_to_dictionaries(cl)
        yield generate
        yield convert
    for _ in range(20 * n):
        s = ''.join(rng.choice('ab-.*?[]!^\\()|+@ "\'$&\t\n=:,#') for _ in range(rng.randrange(12)))
        for mod, f in (('shell', 'quote'), ('shell', 'make_identifier'), ('helpers', 'make_function_name'), ('fish_conditions', 'escape_in_double'),
                       ('zsh_utils', 'escape_colon_in_quoted_string'), ('bash_patterns', 'escape')):
            yield lambda get, mod=mod, f=f, s=s: getattr(get(mod), f)(s)
        yield lambda get, s=s: get('bash_patterns').make_pattern([s, s + 'a', 'a', 'b' + s])
        yield lambda get, s=s: get('preprocessor').preprocess('#ifdef A\n%s\n#else\n#ifdef B\nx\n#endif\n%s#endif\n' % (s, s[1:]), {'A'} if len(s) % 2 else {'B'})
        yield lambda get, s=s: [str(t) for t in get('string_stream').StringStream(s).parse_shell_single_quote() or '']
    for _ in range(10 * n):
        text = ''.join(rng.choice(['-a', '--all', ' ', '  ', '=', 'FILE', '[X]', '\n', '\t', ',', '|', 'text ', '<f>', '-', '--o-p', '"']) for _ in range(rng.randrange(14)))
        yield lambda get, text=text: [(type(x).__name__, repr(getattr(x, '__dict__', x))) for x in shallow(get('help_parser').parse(get('string_stream').StringStream(text)))]
        when = ' '.join(rng.choice(['option_is', '-a', '--', 'x', '&&', '||', '!', '(', ')', 'has_option', 'positional_count', '>', '1', '"q"']) for _ in range(rng.randrange(9)))
        yield lambda get, when=when: [type(x).__name__ for x in shallow(get('when').parse_when(when))]


def shallow(x):
    if isinstance(x, (list, tuple)):
        return x
    return [x] + [v for v in getattr(x, '__dict__', {}).values() if isinstance(v, (list, str, int))]


def compare(n, seed, show=False):
    """-> evaluations, those that returned a value, those where the two versions differ"""
    total = values = bad = 0
    for job in jobs(random.Random(seed), n):
        a, b = (outcome(job, get) for get in (instrument.mod, instrument.real))
        total += 1
        values += not (isinstance(b, str) and 'Error: ' in b[:40])
        if repr(a) != repr(b):
            bad += 1
            if show and bad < 6:
                print('DIFFERENT %s\n  instrumented: %.300r\n  original:     %.300r' % (job.__qualname__, a, b))
    return total, values, bad


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    instrument.install()
    total, values, bad = compare(n, int(sys.argv[2]) if len(sys.argv) > 2 else 1, True)
    print('selftest: %d evaluations (%d with a value), %d different' % (total, values, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
