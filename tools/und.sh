#!/bin/bash
# und.sh ID: run a check quietly, group its undecided obligations
python3 /verif/check.py $1 | cut -c1-240 | head -${2:-12}
python3 - <<P
import json,re,collections
d=json.load(open('/verif/evidence/$1.json'))
c=collections.Counter(re.split(r'[:]',x.replace('::','@@'))[0].replace('@@','::') for x in d['coverage']['undecided'])
for k,v in c.most_common(25): print('   undecided',v,k[:160])
print({k:v for k,v in d['coverage']['instances'].items()})
P
