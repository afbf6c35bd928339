#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
'P01':('model-based PBT: generated trees and rows against a reference evaluator','complete rows'),
'P02':('model-based PBT: generated trees and incomplete rows against a reference evaluator','all six strategies; cases where PMML 4.3 leaves the result open are skipped and counted'),
'P03':('model-based PBT: random predicate terms and assignments against a three-valued reference','outcomes observed through node choice'),
'P04':('metamorphic PBT: same row in different Go representations','exactly representable values only'),
'P05':('model-based PBT plus invariants over the returned distribution','ties between classes accept either winner'),
'P06':('model-based PBT: non-exhaustive trees against a reference evaluator','explicit strategies only'),
'P07':('differential PBT: ensembles against their members and a reference','floating sums compared with relative tolerance 1e-9'),
'P08':('differential PBT: chains against their members and a reference',''),
'P09':('differential PBT: selections against their members and a reference',''),
'P10':('metamorphic PBT: missing value versus the declared replacement supplied',''),
'P11':('model-based PBT: regression tables against a reference formula','relative tolerance 1e-9'),
'P12':('model-based PBT plus invariants over the returned probabilities','finite linear scores'),
'P13':('model-based PBT: expression trees against a reference evaluator','relative tolerance 1e-9'),
'P14':('model-based PBT: lookup tables against a reference lookup',''),
'P15':('stateful PBT: random histories of calls on shared documents and models','purity judged by DeepEqual snapshots and bit-equal results'),
'P16':('concurrent PBT under the race detector: random rows from many goroutines','the race detector reports races on the schedules that ran'),
'P17':('metamorphic PBT: verification records derived from the model and perturbed',''),
'P18':('round-trip PBT: rendered documents lifted back from the decoded structures','no encoder exists in the repository, so the writer is the harness'),
'P19':('metamorphic PBT: semantics-preserving XML rewrites',''),
'P20':('mutation fuzzing with a crash and termination oracle','termination judged by a generous time limit'),
'P21':('round-trip PBT over arrays plus malformed mutations',''),
'P22':('PBT over random sequences of element kinds with a type-dispatch oracle',''),
'P23':('metamorphic PBT: default omitted versus written out',''),
'P24':('fault-injection PBT: one unsupported construct planted in a valid model','the faulty construct lies on the path the row takes'),
'P25':('PBT over Go values with exact big-number oracles',''),
'P26':('schema-driven PBT: random elements compared by reflection with the schema table','table extracted once from the XSD comments, embedded in the harness'),
'P28':('PBT of every exported name against a table of the schema texts, in decoded random elements','the table of names is extracted once from the source and checked against the XSD comments'),
'P29':('fault-injection PBT: one attribute of a random element made invalid, decoding must fail',''),
'P30':('metamorphic PBT: consistent renaming of everything named in a random document',''),
'P31':('metamorphic PBT: random additions that cannot matter to a random document',''),
'P32':('stateful metamorphic PBT: overwrite one decoded document, compare the others; concurrent decoding and building under the race detector','schedules are those the Go scheduler takes in the run; the race detector generalises over them'),
'P33':('metamorphic PBT: random reorderings of a random document',''),
'P34':('metamorphic PBT: random equivalent rewritings of a random document',''),
'P35':('model-based PBT of the transformation functions against the reference evaluator',''),
'P36':('metamorphic PBT: random order-preserving changes of values, units and record counts of a random document',''),
'P27':('model-based PBT: nested ensembles against a recursive reference evaluator',''),
}
TODO=os.environ.get('TODO','').split()
checks=[];na=[]
for i in sorted(T):
    tech,note=T[i]
    if i in TODO: na.append(dict(property=i,reason='check not built yet')); continue
    checks.append(dict(property=i,quick_cmd=f'bash check.sh {i} quick',thorough_cmd=f'bash check.sh {i} thorough',technique=tech,level='exploration',
      level_note='Holds on every generated case; no claim beyond them.'+(' '+note[0].upper()+note[1:]+'.' if note else '')))
json.dump(dict(version=1,setup_cmd='bash check.sh setup',checks=checks,not_applicable=na,
  notes='No hooks: the checks use the exported API only. /repo carries fix: commits, listed in known-findings.txt.'),open(ROOT+'/MANIFEST.json','w'),indent=1)
