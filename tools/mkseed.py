#!/usr/bin/env python3
"""mkseed.py SPEC.py [id…]: turn seed specifications into confirmed folders of /verif/seeded.
A spec file defines SEEDS: id -> dict(property, needs, breaks, edits=[(file, old, new)…], demo=C++ text, flags=, libs=, sh=extra shell).
Every step happens in a scratch copy; a seed is written only if the patch builds, passes the stable tests, and the
demonstration passes on the unchanged tree and fails with the patch."""
import sys,os,subprocess,shutil,json,importlib.util
SC='/tmp/seedw'; TESTS=json.load(open('/opt/vp/BASELINE.json'))
stable=TESTS.get('passed') or TESTS.get('stable') or TESTS.get('tests')
HEAD='''#!/bin/bash
# run in /repo after the build; everything it writes goes to a scratch directory
export R=$(pwd); D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 9; trap 'rm -rf "$W"' EXIT
'''
CXX='''g++ -g -w -include numeric %(flags)s -I"$R/TestingFramework" -I"$R/FileUtilities" -I"$R" -I"$R/_build" -I"$R/_build/TestingFramework" -I"$R/_build/FileUtilities" "$D/demo.cpp" %(src)s -o "$W/demo" || exit 9
cd "$W" && timeout 60 ./demo
'''
LIBS='"$R/_build/TestingFramework/libtestingframework.a" "$R/_build/FileUtilities/libfileutil.a" -lexpat'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main():
  sp=importlib.util.spec_from_file_location('spec',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
  for sid,s in m.SEEDS.items():
    if len(sys.argv)>2 and sid not in sys.argv[2:]: continue
    w=SC+'/'+sid; shutil.rmtree(w,ignore_errors=True); os.makedirs(w+'/d')
    open(w+'/d/demo.cpp','w').write(s['demo']) if s.get('demo') else None
    open(w+'/d/demo.sh','w').write(HEAD+s.get('sh',CXX)%dict(flags=s.get('flags',''),src=s.get('libs',LIBS))); os.chmod(w+'/d/demo.sh',0o755)
    for n,t in s.get('files',{}).items(): open(w+'/d/'+n,'w').write(t)
    r0=sh(f'cd /repo && bash {w}/d/demo.sh')
    if r0.returncode: print(sid,'DEMO FAILS UNCHANGED',r0.returncode,r0.stdout[-500:],r0.stderr[-800:]); continue
    sh(f'git -C /repo worktree prune; rm -rf {w}/repo; cp -a /repo {w}/repo')
    ok=True
    for f,a,b in s['edits']:
      p=f'{w}/repo/{f}'; t=open(p).read()
      if t.count(a)!=1: print(sid,'EDIT',f,repr(a[:60]),'matches',t.count(a)); ok=False; break
      open(p,'w').write(t.replace(a,b))
    if not ok: continue
    diff=sh(f'git -C {w}/repo diff').stdout; open(w+'/patch.diff','w').write(diff)
    # only lines of the original repository may change
    # the build directory has absolute paths: bind the copy to /repo in a private mount namespace
    t=sh(f'unshare -m bash -c "mount --bind {w}/repo /repo && bash /opt/vp/test.sh {w}/out.json >{w}/test.log 2>&1; cd /repo && bash {w}/d/demo.sh >{w}/demo.log 2>&1; echo RC=\\$?"')
    out=json.load(open(w+'/out.json')); failed=[x for x in stable if x not in out['passed']]
    rc=t.stdout.strip().split('RC=')[-1]
    if failed or rc=='0' or not rc: print(sid,'REJECTED failed tests',failed,'demo rc',rc,t.stderr[-300:],open(w+'/demo.log').read()[-300:]); continue
    d='/verif/seeded/'+sid; shutil.rmtree(d,ignore_errors=True); shutil.copytree(w+'/d',d); shutil.copy(w+'/patch.diff',d+'/patch.diff')
    json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    print(sid,'kept; demo rc',rc,'|',open(w+'/demo.log').read().strip()[-160:].replace('\n',' / '))
    shutil.rmtree(w,ignore_errors=True)
main()
