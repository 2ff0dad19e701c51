"""show.py Cxx [n]: the replay files of a property with compact definitions"""
import glob
import json
import sys
for i in sorted(glob.glob('evidence/replay/%s-*.json' % sys.argv[1]))[:int((sys.argv + ['3'])[2])]:
    d = json.load(open(i))
    print(d['failing'], d['message'][:700])
    inp = d['input'] if isinstance(d['input'], dict) else {}
    for c in inp.get('definition') or []:
        try:
            print('    %s%s (%s) %s' % (c['prog'], ''.join('|' + a for a in c.get('aliases', [])),
                  ' '.join('%s' % p['number'] + '*' * bool(p.get('repeatable')) + ':' + str(p.get('complete', ['', ''])[1]) for p in c.get('positionals', [])),
                  ' '.join(','.join(o['option_strings']) + ('' if 'complete' not in o else '?' if o.get('optional_arg') else '=') + '*' * bool(o.get('repeatable'))
                           + 'H' * bool(o.get('hidden')) + 'F' * bool(o.get('final')) + ''.join('@' + g.split('.')[-1] for g in o.get('groups', [])) + (o.get('long_opt_arg_sep') or '')
                           + (':' + str(o['complete'][1])[2:-2] if 'complete' in o else '') for o in c.get('options', []))))
        except Exception:
            print('   ', json.dumps(c)[:400])
    print()
