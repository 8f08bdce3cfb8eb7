#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development tool; no check runs it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/gcem_incl/'
P = []   # id, title, statement, quantifier over, text, why, files, mechanisms, technique, note
def p(*a): P.append(a)
TB = ' Trusts clang\'s front end, the transfer functions in /verif/engine and, for long double, this host\'s x87 format.'
exec(open(os.path.join(V, 'tools', 'table.py')).read())
def main():
    with open(os.path.join(V,'properties.jsonl'),'w') as f:
        for id,title,st,over,txt,why,files,mech,tech,note in P:
            assert len(title) <= 80, (id, len(title)); 
            f.write(json.dumps({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':txt},'why_tests_cant':why,
              'anchors':{'files':[I+x if '/' not in x else x for x in files],'mechanism':[{'name':n,'where':I+w if '/' not in w else w} for n,w in mech]}})+'\n')
    M = {'version':1,'setup_cmd':'bash engine/build.sh',
      'checks':[{'property':x[0],'quick_cmd':f'python3 check.py {x[0]}','thorough_cmd':f'python3 check.py {x[0]} --thorough','evidence_file':f'evidence/{x[0]}.json','technique':x[8],'level':'proof' if x[0] not in OTHER else 'other','level_note':x[9]+TB} for x in P if x[8]],
      'not_applicable':[{'property':x[0],'reason':x[9]} for x in P if not x[8]],
      'notes':'Static analysis only: abstract interpretation over LLVM IR compiled from /repo on every run, plus compile-time witnesses. See DESIGN.md.'}
    json.dump(M, open(os.path.join(V,'MANIFEST.json'),'w'), indent=1)
main()
