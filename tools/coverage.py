#!/usr/bin/env python3
# Which function definitions of /repo/include/boost/variant are entered by at least one contract (from evidence/*.json; informative, decides nothing).
import json,re,glob,os
cov={}
for f in glob.glob('/verif/evidence/C*.json'):
    for k in json.load(open(f))['coverage']['functions']:
        p,l=k.split(' ')[0].rsplit(':',1); cov.setdefault(p,set()).add(int(l))
n=0; miss=0
for p in sorted(glob.glob('/repo/include/boost/variant/**/*.hpp',recursive=True)):
    rel=p[6:]; L=open(p).read().split('\n'); c=cov.get(rel,set())
    for i,s in enumerate(L):
        one=re.match(r'^\s*(?!if|for|while|switch|else|return|struct|class|enum|namespace|typedef|//)[\w:<>,&\s\*~]*\(.*\).*\{',s) and not re.match(r'\s*(BOOST_(TRY|CATCH)|if|for|while|switch|\} else|struct|class)\b',s)
        if s.strip()=='{' or one:
            j=i
            if s.strip()=='{':
                j=i-1
                while j>0 and L[j].strip() and not re.search(r'[;}{]\s*(//.*)?$',L[j]) and not re.match(r'\s*(//|public:|private:|#)',L[j]): j-=1
                j+=1
            txt=' '.join(x.strip() for x in L[j:i+1])
            if '(' not in txt or re.match(r'(template\s*<.*>\s*)?(struct|class|namespace|enum)\b',txt) or re.match(r'(if|for|while|switch|else|BOOST_TRY|BOOST_CATCH|do)\b',txt): continue
            n+=1
            if not any(j+1<=x<=i+1 for x in c): miss+=1; print(rel[22:],i+1,txt[:150])
print('definitions %d, entered by a contract %d' % (n, n-miss))
