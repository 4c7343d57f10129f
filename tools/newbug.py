#!/usr/bin/env python3
"""newbug.py: read spec python file: ID, PROP, NEEDS, BREAKS, PKG, EDITS=[(file,old,new)], TEST=go source"""
import sys,subprocess,os,json,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
d='/verif/seeded/'+spec['ID']; os.makedirs(d,exist_ok=True)
w=tempfile.mkdtemp(dir='/tmp')
subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
for f,o,n in spec['EDITS']:
    p=w+'/r/'+f; s=open(p).read(); assert s.count(o)==1,(f,s.count(o),o); open(p,'w').write(s.replace(o,n))
subprocess.call(['/opt/vp/go1.18.10/bin/gofmt','-l']+[w+'/r/'+f for f,_,_ in spec['EDITS']])
open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',w+'/r','diff']).decode())
shutil.rmtree(w)
open(d+'/demo_test.go','w').write(spec['TEST'])
open(d+'/demo.sh','w').write('''#!/bin/bash
# Exits 0 when the behaviour is right. Run with the repository as cwd.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$repo" || exit 2
ov=$(mktemp -d)
trap 'rm -rf "$ov"' EXIT
echo "{\\"Replace\\":{\\"$repo/%s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$ov/o.json"
go test -overlay "$ov/o.json" -vet=off -count=1 -timeout 200s -run '^TestDemo' ./%s
'''%(spec['PKG'],spec['PKG']))
json.dump(dict(property=spec['PROP'],needs=spec['NEEDS'],what_it_breaks=spec['BREAKS']),open(d+'/meta.json','w'),indent=1)
sys.exit(subprocess.call(['/verif/tools/mkbug.sh',spec['ID']]))
