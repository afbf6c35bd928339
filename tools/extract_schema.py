#!/usr/bin/env python3
"""Reads the XSD fragments that models/*.go carries as comments and writes
harness/schema.json: per element its attributes, children and text. Run by hand
once; the output is committed and no check runs this."""
import re, json, sys, xml.etree.ElementTree as ET
XS='{http://www.w3.org/2001/XMLSchema}'
out={'elements':{},'groups':{},'types':{},'simple':{}}
def particles(node, minf=1, maxf=1):
    """flat list of (kind, name, min, max, inchoice)"""
    res=[]
    def walk(n, inchoice, rep):
        for c in n:
            t=c.tag.replace(XS,'')
            mn=int(c.get('minOccurs','1')); mx=c.get('maxOccurs','1')
            mx=99 if mx=='unbounded' else int(mx)
            if t in('sequence','choice','all'):
                walk(c, inchoice or t=='choice', rep or mx>1)
            elif t=='element':
                nm=c.get('ref') or c.get('name')
                res.append(dict(kind='element',name=nm,min=mn,max=99 if rep else mx,choice=inchoice))
            elif t=='group':
                res.append(dict(kind='group',name=c.get('ref'),min=mn,max=99 if rep else mx,choice=inchoice))
            elif t in('complexContent','simpleContent','extension','restriction','complexType'):
                if c.get('base'): res.append(dict(kind='base',name=c.get('base')))
                walk(c,inchoice,rep)
    walk(node,False,False)
    return res
def attrs(node):
    r=[]
    for a in node.iter(XS+'attribute'):
        enum=[e.get('value') for e in a.iter(XS+'enumeration')]
        d=dict(name=a.get('name'),type=a.get('type') or ('enum' if enum else 'string'),use=a.get('use','optional'))
        if enum: d['enum']=enum
        if a.get('default') is not None: d['default']=a.get('default')
        r.append(d)
    return r
for fn in ['/repo/models/elements.go','/repo/models/groups.go','/repo/models/complexTypes.go','/repo/models/simpleTypes.go']:
    src=open(fn).read()
    for m in re.finditer(r'/\*(.*?)\*/',src,re.S):
        body=m.group(1).strip()
        if '<xs:' not in body: continue
        try: root=ET.fromstring('<r xmlns:xs="http://www.w3.org/2001/XMLSchema">'+body+'</r>')
        except ET.ParseError as e:
            print('unparsable',fn,src[:m.start()].count('\n')+1,e,file=sys.stderr); continue
        for n in root:
            t=n.tag.replace(XS,''); name=n.get('name')
            if t=='element':
                ct=n.get('type')
                out['elements'][name]=dict(attrs=attrs(n),parts=particles(n),mixed=any(c.get('mixed')=='true' for c in n.iter(XS+'complexType')))
                if ct: out['elements'][name]['type']=ct
            elif t=='group': out['groups'][name]=particles(n)
            elif t=='complexType': out['types'][name]=dict(attrs=attrs(n),parts=particles(n),mixed=n.get('mixed')=='true')
            elif t=='simpleType':
                out['simple'][name]=dict(enum=[e.get('value') for e in n.iter(XS+'enumeration')],base=next((r.get('base') for r in n.iter(XS+'restriction')),None))
json.dump(out,open(sys.argv[1],'w'),indent=1,sort_keys=True)
print({k:len(v) for k,v in out.items()})
