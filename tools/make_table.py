#!/usr/bin/env python3
"""Pairs the schema (extract_schema.py) with the struct fields of /repo/models
and writes harness/schema.json: per modelled element its attributes and children
with the schema type and the name of the Go field. Run by hand once."""
import json,re,sys
s=json.load(open(sys.argv[1])); g=json.load(open(sys.argv[2]))
norm=lambda x:re.sub(r'[^a-z0-9]','',x.lower())
special={('Alternate','CONTINUOUS-DISTRIBUTION-TYPES'):'Distribution',('Anova','AnovaRow'):'Rows',('ChildParent','InlineTable'):'Table',('ChildParent','TableLocator'):'Table',
 ('ContStats','FrequenciesType'):'Frequencies',('DataDictionary','Taxonomy'):'Taxonomies',('Lambda','REAL-ARRAY'):'Array',('Output','OutputField'):'Fields',
 ('PMML','MODEL-ELEMENT'):'Models',('RegressionModel','@normalizationMethod'):'RegressionNormalizationMethod',('Segment','MODEL-ELEMENT'):'Models',
 ('Value','@property'):'Valid',('VerificationFields','VerificationField'):'Fields',('InlineTable','row'):'Rows'}
skip={('Attribute','PREDICATE')}
text={'Annotation':'Data','Constant':'Value'}
mod=[e for e in sorted(s['elements']) if e in g and any(f[0]!='Extensions' for f in g[e])]
out={}
groups={k:[p['name'] for p in v if p['name']!='Extension' and p['kind']=='element'] for k,v in s['groups'].items()}
groups['TABLE']=['InlineTable','TableLocator']
simple={k:v['enum'] for k,v in s['simple'].items() if v['enum']}
left=[]
for e in mod:
    el=s['elements'][e]; fs={f[0]:f for f in g[e]}
    d=dict(attrs=[],kids=[])
    def find(n,plural=True):
        if (e,n) in special: return special[(e,n)]
        k=norm(n)
        for f in fs:
            if norm(f)==k or plural and norm(f) in(k+'s',k+'es'): return f
        return None
    for a in el['attrs']:
        f=special.get((e,'@'+a['name'])) or find(a['name'],False)
        if not f: left.append(e+'@'+a['name']); continue
        t=a['type'].replace('xs:','')
        enum=a.get('enum') or simple.get(t)
        x=dict(x=a['name'],f=f,t=t)
        if a['name']=='isMultiValued': enum=['0','1']  # untyped in the schema, a number in the specification
        if enum: x['enum']=enum
        if 'default' in a: x['def']=a['default']
        if a['use']=='required': x['req']=True
        d['attrs'].append(x)
    seen=set()
    for p in el['parts']:
        n=p['name']
        if n in seen or (e,n) in skip or n.startswith('xs:'): continue
        seen.add(n)
        f=find(n)
        if n=='TableLocator' and e=='ChildParent': continue
        if not f: left.append(e+'/'+n); continue
        gt=fs[f][1]
        k=dict(f=f,many=gt.startswith('[]'))
        if (e,n)==('ChildParent','InlineTable'): k['group']='TABLE'
        elif n.endswith('ARRAY') or n in('Array','FrequenciesType'): k['array']={'INT-ARRAY':'int','REAL-ARRAY':'real','STRING-ARRAY':'string'}.get(n,'')
        elif p['kind']=='group': k['group']=n
        elif n=='row': k['rows']=True
        else: k['x']=n
        d['kids'].append(k)
    if e in text: d['text']=text[e]
    out[e]=d
json.dump(dict(elements=out,groups=groups),open('harness/schema.json','w'),indent=0,sort_keys=True)
go='package main\n\n// Written by tools/make_table.py.\n\nimport (\n\t"reflect"\n\n\t"github.com/flukeish/pmml/models"\n)\n\nvar modelTypes = map[string]reflect.Type{\n'
for e in mod: go+='\t"%s": reflect.TypeOf(models.%s{}),\n'%(e,e)
go+='}\n'
open('harness/registry.go','w').write(go)
print('unmodelled:',left)
