#!/usr/bin/env python3
# Writes harness/const_table.go: the text each exported enumeration constant
# stands for, one entry per constant, checked against the XSD comments and the
# naming rule (type name followed by the text).
import re
rows=[]
xsd=set()
for fn in ['simpleTypes.go','elements.go','complexTypes.go','groups.go','helpers.go']:
    s=open('/repo/models/'+fn).read()
    xsd|=set(re.findall(r'enumeration value="([^"]*)"',s))
    rows+=[(t,v,n) for n,t,v in re.findall(r'^\s*(\w+)\s*=\s*(\w+)\("([^"]*)"\)',s,re.M)]
strip=lambda t:re.sub(r'[^A-Za-z0-9]','',t).lower()
for t,v,n in rows:
    if v not in xsd: print('not in the XSD:',t,v,n)
    if n.lower()!=strip(t+v): print('odd name:',t,v,n)
with open('/verif/harness/const_table.go','w') as f:
    f.write('//go:build p28\n\npackage main\n\n// Written by tools/make_consts.py.\n\nimport (\n\t"reflect"\n\n\t"github.com/flukeish/pmml/models"\n)\n\nfunc init() {\n\tconstTable = []constEntry{\n')
    for t,v,n in rows:
        f.write('\t\t{"%s", "%s", "%s", reflect.ValueOf(models.%s)},\n'%(t,v,n,n))
    f.write('\t}\n}\n')
