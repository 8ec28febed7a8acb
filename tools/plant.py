#!/usr/bin/env python3
"""plant.py ID PROP FILE NEEDS BREAKS: reads pairs old/new from stdin separated by lines '=====' and '-----'; writes patch+meta"""
import sys,subprocess,json,os
idn,prop,needs,breaks=sys.argv[1:5]
d='/verif/seeded/'+idn
os.makedirs(d,exist_ok=True)
txt=sys.stdin.read()
for part in txt.split('\n-----\n'):
    fn,rest=part.lstrip('\n').split('\n',1)
    old,new=rest.split('\n=====\n')
    p='/repo/'+fn
    s=open(p).read()
    old=old.strip('\n'); new=new.strip('\n')
    assert s.count(old)==1,(fn,s.count(old),old)
    open(p,'w').write(s.replace(old,new))
open(d+'/patch.diff','w').write(subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout)
subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'))
