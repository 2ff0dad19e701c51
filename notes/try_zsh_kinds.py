import sys; sys.path.insert(0,'/verif')
from checks.shells import *
from checks.common import *
HOST=["a b","c'd",'e"f',"$(touch canary1)","`touch canary2`","x;touch canary3","$HOME","~","*","back\\slash","t\\","a:b","[x]","{a,b}","#h","=ls","%1","a=b","ü","-n","--foo","!!","a&b","(p)","<x","x|y","^c","\"","'","?","tab\\t","x\\:y", "a,b"]
bad={}
import itertools
defs=[];
if set(sys.argv[2])&set("fg"): HOST=[h for h in HOST if " " not in h and h]
for i,h in enumerate(HOST):
    defs+= [{'option_strings':['--a%d'%i],'complete':['choices',[h,'zz']]},
     {'option_strings':['--b%d'%i],'complete':['choices',{h:'D','zz':'E'}]},
     {'option_strings':['--c%d'%i],'complete':['choices',{h:h,'zz':'E:'}]},
     {'option_strings':['--d%d'%i],'complete':['value_list',{'values':[h,'zz']}]},
     {'option_strings':['--e%d'%i],'complete':['value_list',{'values':{h:h,'zz':'E'}}]},
     {'option_strings':['--f%d'%i],'complete':['key_value_list',',','=',[[h,h,['choices',['q']]],['zz','z',None]]]},
     {'option_strings':['--g%d'%i],'complete':['key_value_pair','=',[[h,h,['choices',['q']]],['zz','z',None]]]}]
import re
for k in sys.argv[2]:
    ds=[d for d in defs if d['option_strings'][0][2]==k]
    try: s=generate(sys.argv[1],[{'prog':'mytool','options':ds}])
    except Exception as e: print(k,e); continue
    qs=[['mytool',d['option_strings'][0]+' '] if 0 else ['mytool',d['option_strings'][0],''] for d in ds]
    o,e,l=globals()[sys.argv[1]+'_complete'](s,'mytool',qs)
    print(k,e[:300],l)
    for h,q,r in zip(HOST,qs,o or []):
        def unq(x):
            try:
                import shlex
                if sys.argv[1]!='zsh' : return x
                return re.sub(r'\\(.)',r'\1',x)
            except: return x
        got=[unq(x[0] if isinstance(x,tuple) else x) for x in r]
        if sorted(got)!=sorted([h,'zz']): print('   ',q[1],repr(h),r)
