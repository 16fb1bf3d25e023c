#!/usr/bin/env python3
# mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS  (OLD must occur exactly once, or 'N@@' prefix for Nth occurrence); demo.cpp must be created beside
import sys,os,subprocess,json
ID,PROP,FILE,OLD,NEW,NEEDS,BR=sys.argv[1:8]
W='/tmp/sc_seed'
if not os.path.isdir(W): subprocess.check_call(['git','clone','-q','/repo',W])
subprocess.check_call(['git','-C',W,'fetch','-q','/repo','HEAD']); subprocess.check_call(['git','-C',W,'checkout','-q','--detach',subprocess.check_output(['git','-C','/repo','rev-parse','HEAD'],text=True).strip()])
subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
p=os.path.join(W,FILE); s=open(p).read()
n=1
if '@@' in OLD[:4]:
    n,OLD=OLD.split('@@',1); n=int(n)
    i=-1
    for _ in range(n):
        i=s.index(OLD,i+1)
else:
    assert s.count(OLD)==1,(s.count(OLD))
    i=s.index(OLD)
s=s[:i]+NEW+s[i+len(OLD):]
open(p,'w').write(s)
d='/verif/seeded/'+ID; os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',W,'diff'],text=True))
json.dump({"property":PROP,"needs":NEEDS,"what_it_breaks":BR},open(d+'/meta.json','w'),indent=1)
if not os.path.exists(d+'/demo.sh'):
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -O1 -march=haswell -fopenmp -w -I. -I_build "$here/demo.cpp" -o "$tmp/demo" -lgivaro -lgmpxx -lgmp -lopenblas || exit 2
timeout 120 "$tmp/demo"
''')
    os.chmod(d+'/demo.sh',0o755)
subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
print(open(d+'/patch.diff').read())
