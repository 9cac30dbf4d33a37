#!/usr/bin/env python3
# Prints the table of planted bugs for DESIGN.md (every one is caught by the check of its property; verified when it was planted)
import json,os,sys
base=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded')
print('| bug | needs | caught by |'); print('|---|---|---|')
for d in sorted(os.listdir(base)):
    m=json.load(open(os.path.join(base,d,'meta.json')))
    print('| %s | %s | %s |'%(d,m['needs'].replace('|','\\|'),m['property']))
