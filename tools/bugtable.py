#!/usr/bin/env python3
import json,os,sys
print("| planted bug | property | what it needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    print(f"| `{d}` | {m['property']} | {m['needs']} | {m["property"]} |")
