#!/usr/bin/env python3
"""mkbug.py ID PROP FILE  (stdin: JSON {old,new,needs,breaks,demo,[edits:[[file,old,new]]],[files:{name:text}]}) -> seeded/ID"""
import sys,json,subprocess,os
R=os.environ.get('MKREPO','/repo')
def mk(id,prop,edits,needs,breaks,demo,files=None):
    assert subprocess.run(['git','-C',R,'diff','--quiet']).returncode==0,'repo dirty'
    try:
        for f,o,n in edits:
            p=R+'/'+f;s=open(p).read();assert s.count(o)==1,(f,s.count(o),o);open(p,'w').write(s.replace(o,n))
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    finally: subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    d='/verif/seeded/'+id;os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff);open(d+'/demo.sh','w').write(demo)
    for k,v in (files or {}).items(): open(d+'/'+k,'w').write(v)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
CDEMO='''#!/bin/bash
# compile a small program against the repository's current sources and run it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=c11 -O1 -w -fwrapv -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -D_FILE_OFFSET_BITS=64 -I/repo/include -I/repo/src -o "$t/d" "$here/demo.c" $(ls /repo/src/hob3lbase/*.c | grep -v test) %s -lm || exit 3
ASAN_OPTIONS=detect_leaks=0 "$t/d"
'''
def cdemo(extra=''): return CDEMO%extra
OP="$(ls /repo/src/hob3lop/*.c /repo/src/hob3lmat/*.c | grep -v test)"
