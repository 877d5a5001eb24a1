#!/usr/bin/env python3
"""gen_coverage.py QUICK_DIR THOROUGH_DIR: write COVERAGE.md from evidence files of both tiers."""
import glob, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    titles[p['id']] = p['title']
def load(d, pid):
    f = os.path.join(d, pid + '.json')
    return {s['name']: s for s in json.load(open(f))['coverage']['spaces']} if os.path.exists(f) else {}
out = ['# Coverage', '', 'Generated by `tools/gen_coverage.py` from evidence files of runs of both tiers on the unchanged tree. Counts are those of one run: '
       'cases executed on the implementation, distinct states (inputs, histories or points of schedules), seconds of all workers together. '
       '"partly" marks a space that its time limit cut short in that run.', '']
for pid in sorted(titles):
    quick, deep = load(sys.argv[1], pid), load(sys.argv[2], pid)
    out += ['## %s %s' % (pid, titles[pid]), '', '| space | tier | cases | states | worker s | bound |', '|---|---|---|---|---|---|']
    names = list(quick) + [n for n in deep if n not in quick]
    for n in names:
        for tier, spaces in (('quick', quick), ('thorough', deep)):
            s = spaces.get(n)
            if not s:
                continue
            b = s['bound'].replace('|', '\\|').replace('\n', ' ')
            if tier == 'thorough' and n in quick and quick[n]['bound'] == s['bound']:
                b = 'the same'
            if len(b) > 700:
                b = b[:700] + '…'
            out.append('| %s | %s%s | %d | %d | %d | %s |' % (n, tier, '' if s['complete'] else ', partly', s['cases'], s['states'], round(s.get('worker_s', 0)), b))
    out.append('')
open(os.path.join(here, 'COVERAGE.md'), 'w').write('\n'.join(out))
