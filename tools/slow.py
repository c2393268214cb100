#!/usr/bin/env python3
# per-case times of the last run of a check
import json, sys
for i in sys.argv[1:]:
    d = json.load(open(f'/verif/evidence/{i}.json'))
    print(i, d['wall_s'], 'build', d.get('build_s'), ' '.join(f"{c['case']}:{c['wall_s']:.0f}s/{c['paths']}p" for c in d['case_detail']))
