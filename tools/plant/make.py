#!/usr/bin/env python3
"""make.py FILE...: writes /verif/seeded/<id>/ from descriptions: a python file per bug defining
ID, PROP, NEEDS, BREAKS, EDITS=[(file,[(old,new),...])], TEST (body of the demonstration) and optionally RACE."""
import sys,os,json,subprocess,shutil,tempfile
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(os.path.dirname(HERE))
HELP='''package evaluation_test

import (
%s
	"encoding/xml"

	"testing"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

func planted(t *testing.T, doc string) *models.PMML {
	p := new(models.PMML)
	if err := xml.Unmarshal([]byte(doc), p); err != nil {
		t.Fatal(err)
	}
	return p
}

func plantedModel(t *testing.T, doc string) evaluation.Model {
	p := planted(t, doc)
	m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0])
	if err != nil {
		t.Fatal(err)
	}
	return m
}

func plantedRow(kv ...interface{}) evaluation.DataRow {
	r := evaluation.DataRow{}
	for i := 0; i < len(kv); i += 2 {
		r[kv[i].(string)] = evaluation.NewValue(kv[i+1])
	}
	return r
}

var _ = plantedModel
var _ = plantedRow
var _ evaluation.Model

'''
for f in sys.argv[1:]:
    ns={'IMPORTS':[]}; exec(open(f).read(),ns)
    d=f"{ROOT}/seeded/{ns['ID']}"; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp()
    subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q . && git add -A && git -c user.email=a@b -c user.name=n commit -qm base",shell=True)
    for path,reps in ns['EDITS']:
        s=open(f'{w}/{path}').read()
        for old,new in reps:
            at=None
            if isinstance(old,tuple): start,old=old; at=s.index(start); 
            if at is None: assert s.count(old)==1,(ns['ID'],s.count(old),old); s=s.replace(old,new)
            else: i=s.index(old,at); s=s[:i]+new+s[i+len(old):]
        open(f'{w}/{path}','w').write(s)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff'],text=True))
    subprocess.call(['rm','-rf',w])
    json.dump(dict(property=ns['PROP'],needs=ns['NEEDS'],what_it_breaks=ns['BREAKS']),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.go','w').write(HELP%''.join(f'\t"{i}"\n' for i in ns['IMPORTS'])+ns['TEST'].strip()+'\n')
    subprocess.call(['gofmt','-w',d+'/demo.go'])
    sh=open(HERE+'/demo.sh').read().replace('go test RACE','go test -race' if ns.get('RACE') else 'go test')
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
