import json,os
p='/verif/DESIGN.md'; s=open(p).read()
k=json.load(open('/verif/known_findings.json'))
fix=''
for f in k['fixed']:
    prop=f.split('property=')[1].split()[0]; h=f.split()[2]; fix+='* %s %s: %s\n'%(prop,h,f.split(h,1)[1].strip())
miss={'S15':'missed at first; the `shared` grammars were added to the generator','S07':'missed at first; lexer symbols are now built up from blocks of differing case and texts change the case of letters','S07b':'missed at first; definitions with conflicts and attributes that do or do not resolve them were added'}
seeds=''
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/'+d+'/meta.json')); seeds+='* %s (%s): %s%s\n'%(d,m.get('caught_by','caught by '+m['property']),m['needs'],' — '+miss[d] if d in miss else '')
if 'FIXLIST' in s:
    s=s.replace('FIXLIST\n','<!--fix-->\n<!--/fix-->\n').replace('SEEDLIST\n','<!--seed-->\n<!--/seed-->\n').replace('SENSLIST\n','<!--sens-->\n<!--/sens-->\n')
import re
s=re.sub(r'<!--fix-->\n.*?<!--/fix-->\n',lambda m:'<!--fix-->\n'+fix+'<!--/fix-->\n',s,flags=re.S)
s=re.sub(r'<!--seed-->\n.*?<!--/seed-->\n',lambda m:'<!--seed-->\n'+seeds+'<!--/seed-->\n',s,flags=re.S)
open(p,'w').write(s)
