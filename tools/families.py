#!/usr/bin/env python3
"""print families of the last run of each property: space, accepted/refused, cpu"""
import json,sys,glob
for p in sys.argv[1:] or sorted(x[-8:-5] for x in glob.glob('/verif/evidence/*.json')):
    e=json.load(open(f'/verif/evidence/{p}.json')); print(p,e['tier'],e['wall_s'])
    for f in e['coverage']['families']: print('  %-28s %9d acc %8d ref %8d cpu %.1f'%(f['name'],f['space'],f['accepted'],f['refused'],f['cpu_s']))
