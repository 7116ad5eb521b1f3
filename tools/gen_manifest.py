#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties in properties.jsonl."""
import json, os, sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
DONE=os.environ.get('DONE','').split() or [p['id'] for p in props]
TECH={
'C06':'metamorphic and differential property-based testing over generated journals, plus a reference model',
'C10':'metamorphic property-based testing (permutations and splits) plus a reference model',
'C11':'metamorphic property-based testing (file trees against pasted text) plus a reference model',
'C15':'metamorphic property-based testing (two renderings of one journal) plus a reference model',
'C16':'structure-aware fuzzing and mutation of journals with verdict oracles',
'C17':'differential property-based testing (repeated runs in fresh processes)',
'C18':'metamorphic property-based testing (two spellings of one journal) plus a reference model',
'C20':'metamorphic property-based testing (virtual postings deleted) plus a reference model',
'C23':'metamorphic property-based testing (init file against command line)',
'C26':'property-based testing of algebraic laws against exact rational arithmetic, stateful',
'C27':'model-based stateful property-based testing of operation sequences',
'C29':'fault-injecting property-based testing: one wrong line or transaction in a generated journal',
'C30':'metamorphic property-based testing (equivalent command lines)',
'C31':'metamorphic property-based testing (with and without colours), real binary',
'C33':'metamorphic property-based testing (pipe against pseudo-terminals of random widths), real binary',
'C34':'property-based testing with injected faults (standard output that fails at a random byte or write), real binary',
'C35':'property-based testing with injected faults (opening, reading and listing that fail), real binary',
'C36':'metamorphic property-based testing (the same report in other environments, at other times and concurrently), real binary',
'C32':'property-based testing: what the library reads against the generated journal (round trip from text to structure)',
'C28':'property-based testing against a reference shortest-path model',
}
checks=[]
na=[]
for p in props:
    i=p['id']
    if i not in DONE:
        na.append(dict(property=i,reason='check under construction')); continue
    checks.append(dict(property=i,quick_cmd='./check.sh '+i,thorough_cmd='VERIF_TIER=thorough ./check.sh '+i,
        evidence_file='evidence/%s.json'%i,
        technique=TECH.get(i,'property-based testing: generated journals against an independent reference model'),
        level='exploration',
        level_note='Random search with shrinking; every failure is confirmed with the real binary in fresh processes before it is reported. Nothing is shown about inputs that are not generated; the model, the generators and the report readers are trusted. Bounds and assumptions are in DESIGN.md and in the evidence.'))
json.dump(dict(version=1,setup_cmd='./build.sh',checks=checks,not_applicable=na,
  notes='No hooks are used: the checks run the program and its public library as they are. known_findings.txt lists the repaired defects.'),
  open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
