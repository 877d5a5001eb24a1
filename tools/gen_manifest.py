#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and validates it."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
EXH = 'bounded-exhaustive state exploration of the real code against a reference model (every case enumerated, none sampled)'
SCHED = 'stateless model checking of the real code: controlled scheduler, preemption-bounded enumeration of interleavings from a cold process, with the race detector as monitor'
T = {  # property -> (technique, note)
 'C01': (EXH, 'every rune value times every option combination; trusts the Unicode 15.0 data derived in tools/gen_unicode.py'),
 'C02': (EXH, 'every rune, every sequence up to a depth over all width classes, lengths across powers of two; every option'),
 'C03': (SCHED + '; plus every call history up to a length, cold and warm', 'atomicity: scheduling points before every statement of the woven sources and at every synchronisation; weaker memory orders are covered only through the race detector'),
 'C04': (EXH, 'every sequence up to a depth, every rune; trusts unicode.IsSpace and strings.FieldsFunc'),
 'C05': (EXH, 'every sequence up to a depth, every rune; trusts the unicode package tables'),
 'C06': (EXH, 'every sequence up to a depth, every rune; trusts the unicode package tables'),
 'C07': (EXH, 'every short word, every pattern in context, every rune, a grid of minima, long words'),
 'C08': (EXH, 'compared with an independent implementation of Liang hyphenation on the published pattern files (copied in ref/tex)'),
 'C09': (EXH, 'every language x region tag, every language code; trusts golang.org/x/text/language as the CLDR matcher'),
 'C10': (SCHED + '; plus every history of hyphenators up to a length, cold and warm', 'as C03'),
 'C11': (EXH, 'every operation history up to a depth over a key universe, against a map'),
 'C12': (EXH, 'every operation sequence up to a depth against a reference reader'),
 'C13': (EXH, 'every pair of boundary offsets of every slice up to a length over runes of each encoded size'),
 'C14': (EXH, 'every write sequence up to a depth, every fault point of the underlying writer'),
 'C15': (EXH, 'every token up to a length over an alphabet with every lexical class of escape sequences, and of whole sequences'),
 'C16': (EXH, 'as C15, against an independent lexer of the grammar in the statement'),
 'C17': (EXH, 'every push history up to a depth, against a stack'),
 'C18': (EXH, 'every properly nested push history up to a depth, every position, against a stack'),
 'C19': (SCHED + '; plus every input up to a length over the alphabets of all functions, between sentinels', 'as C03'),
 'C20': (EXH, 'every paragraph over a small lexicon times widths and settings, against an independent box model and a full dynamic program over its break graph'),
 'C21': (EXH, 'as C20: the rendered lines are parsed back and aligned with the tokens'),
 'C22': (EXH, 'as C20: the demerits of the lines returned against the least ones over every way of setting the paragraph'),
 'C23': (SCHED + '; plus every history of paragraphs up to a length on a reused line breaker and every order of map iteration up to a bound', 'as C03'),
 'C24': (EXH, 'every placement of properly nested styles over short paragraphs, rune by rune'),
}
PENDING = 'no check yet: under construction'
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level='model_checking',
                           level_note='Holds on everything within the bounds given in the evidence file: ' + note + '.'))
    else:
        na.append(dict(property=i, reason=PENDING))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks are committed in /repo: what the schedulers need is woven into a copy at build time (go build -overlay).')
open(root + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(checks), 'checks', len(na), 'not applicable')
