#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS FILE <<< 'python edits' : builds seeded/<id> from (file,old,new) triples + demo.cpp body"""
import sys,os,subprocess,json
DEMO='''#!/bin/bash
# builds the demonstration against the sources of the tree it runs in; 0 = behaves as specified
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 9
trap 'rm -r "$T"' EXIT
I=""; for m in utils features2d imgproc datasets video vptz world test; do I="$I -I$R/modules/$m/include"; done
g++ -O1 -std=gnu++14 -fopenmp -march=native -w -DNDEBUG -DLV_EXPORT_API= -DLITIV_DEBUG=0 @FLAGS@ $I -I$R -I$R/_build/modules/utils/include -I$R/3rdparty/ofdis/include -I/usr/include/eigen3 \\
  -isystem /usr/include/opencv4 -include /opt/vp/support/compat/opencv4_compat.hpp "$D/demo.cpp" -o "$T/demo" @LIBS@ -lopencv_core -lopencv_imgproc -lopencv_imgcodecs -lpthread || exit 9
"$T/demo"
'''
def mk(id,prop,needs,breaks,edits,demo,flags='',libs=''):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout=='' , 'dirty'
    try:
        for f,o,n in edits:
            p='/repo/'+f; t=open(p).read(); assert t.count(o)==1,(f,o,t.count(o)); open(p,'w').write(t.replace(o,n))
        diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    finally: subprocess.run(['git','-C','/repo','checkout','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO.replace('@FLAGS@',flags).replace('@LIBS@',libs)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
