import sys; sys.path.insert(0,'/verif')
from checks.shells import *
from checks.common import *
from checks import hostile
for h in hostile.WORDS:
  for k in ('help','metavar'):
    s=generate('zsh',[{'prog':'mytool','options':[{'option_strings':['--o'],k:h,'complete':['choices',['x','y']]}]}])
    o,e,l=zsh_complete(s,'mytool',[['mytool','--o','']])
    if not o or len(o[0])!=2: print(k,repr(h),o,e[:200],l,[x for x in s.split('\n') if '--o=' in x])
