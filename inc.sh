#!/bin/bash
# inconclusive reasons of the last run of a check
python3 -c "
import json,sys
e=json.load(open('/verif/evidence/$1.json'))
for x in e['coverage']['inconclusive_reasons'][:${2:-12}]: print(x[:300])"
