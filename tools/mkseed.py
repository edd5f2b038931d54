#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/seedsrc/<id>.py after confirming it in a scratch copy of /repo:
the patch applies and builds, the stable tests pass, the demonstration passes without it and fails with it.
A spec defines: prop, needs, breaks, edits=[(file, old, new)], demo (C++ text, main body helper included), optional sample=True, flags."""
import sys,os,json,subprocess,shutil,tempfile,runpy
V='/verif'; R='/repo'
DEMO_SH='''#!/bin/bash
# Builds the demonstration from the sources in the current directory and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$W"' EXIT
set -e
mkdir "$W/o" "$W/tmp"
( cd "$W/o" && for f in "$R"/src/*.c %(extra)s; do gcc -g -w -c %(san)s -I"$R/include" -I"$R/sample" -I"$R/src" "$f" & done; wait )
%(cfiles)sg++ -std=c++17 -g -w %(san)s %(flags)s -I"$R/include" -I"$R/sample" -I"$D" "$D/demo.cpp" "$W"/o/*.o -lz -lpthread -ldl -o "$W/demo"
set +e
cd "$W"
TMPDIR="$W/tmp" ASAN_OPTIONS=detect_leaks=%(leaks)d timeout -k 5 200 "$W/demo" > "$W/out" 2>&1
rc=$?
tail -n 15 "$W/out"
exit $rc
'''
DEMO_H='''// Helpers of the demonstrations.
#pragma once
extern "C" {
#include "squash.h"
#include "squash/traverse.h"
}
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "sqimg.hpp"
#define CHECK(c, ...) do { if (!(c)) { printf("FAILED: " __VA_ARGS__); printf(" [%s]\\n", #c); fflush(stdout); exit(1); } } while (0)
struct Mount { sqfs fs; sq::ImageP im; explicit Mount(sq::ImageP i) : im(i) { memset(&fs, 0, sizeof fs); CHECK(sqfs_init(&fs, i->base(), i->off()) == SQFS_OK, "image refused"); } ~Mount() { sqfs_destroy(&fs); } };
inline std::string expect(const sq::Node &n, uint64_t pos, size_t len, uint32_t bs = 4096) { std::string s(len, 0); sq::content(n, pos, len, bs, (uint8_t *)&s[0]); return s; }
inline std::string readall(int fd) { std::string s; char b[8192]; ssize_t n; while ((n = squash_read(fd, b, sizeof b)) > 0) s.append(b, n); return n < 0 ? std::string("error") : s; }
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main(sid):
    s=runpy.run_path(f'{V}/tools/seedsrc/{sid}.py')
    d=f'{V}/seeded/{sid}'; c=tempfile.mkdtemp(prefix='seed.',dir='/tmp'); 
    try:
        sh(f'cp -a {R}/. {c}/r && cd {c}/r && git checkout -q -- .')
        for t in ('build','test'): open(f'{c}/{t}.sh','w').write(open(f'/opt/vp/{t}.sh').read().replace('/repo',f'{c}/r').replace('/opt/vp/build.sh',f'{c}/build.sh'))
        sh(f'rm -rf {c}/r/_build')
        for f,o,n in s['edits']:
            p=f'{c}/r/{f}'; t=open(p).read()
            assert t.count(o)==1,(f,o,t.count(o)); open(p,'w').write(t.replace(o,n))
        patch=sh(f'cd {c}/r && git diff').stdout; sh(f'cd {c}/r && git checkout -q -- .')
        # lines of the original repository only
        base=sh(f'git -C {R} rev-list --max-parents=0 HEAD').stdout.split()[0]
        added=set(l[1:].strip() for l in sh(f'git -C {R} diff {base} HEAD').stdout.splitlines() if l.startswith('+') and not l.startswith('+++'))
        orig=0
        for l in patch.splitlines():
            if l.startswith('-') and not l.startswith('---'):
                if l[1:].strip() and l[1:].strip() in added: print('   note: changes a line my commits added:',l)
                else: orig+=1
        os.makedirs(d,exist_ok=True)
        for f in os.listdir(d): os.remove(f'{d}/{f}')
        open(f'{d}/patch.diff','w').write(patch)
        open(f'{d}/meta.json','w').write(json.dumps(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),indent=1)+'\n')
        extra='' if not s.get('sample') else '"$R"/sample/enclose_io_unix.c'
        open(f'{d}/demo.sh','w').write(DEMO_SH%dict(extra=extra,cfiles=''.join('gcc -g -w -c %s -I"$R/include" -I"$R/sample" "$D/%s" -o "$W/o/demo_%s.o"\n'%(s.get('san','-fsanitize=address'),x,x[:-2]) for x in s.get('files',{}) if x.endswith('.c')),san=s.get('san','-fsanitize=address'),flags=s.get('flags',''),leaks=s.get('leaks',0)))
        os.chmod(f'{d}/demo.sh',0o755)
        open(f'{d}/demo.hpp','w').write(DEMO_H); shutil.copy(f'{V}/harness/sqimg.hpp',d); open(f'{d}/demo.cpp','w').write('#include "demo.hpp"\n'+s['demo'])
        for x in s.get('files',{}): open(f'{d}/{x}','w').write(s['files'][x])
        a=sh(f'cd {c}/r && bash {d}/demo.sh'); ok0=a.returncode==0
        print(sid,'unchanged:',a.returncode,a.stdout[-800:] if not ok0 else '')
        p=sh(f'cd {c}/r && git apply {d}/patch.diff'); assert p.returncode==0,p.stdout
        t=sh(f'bash {c}/test.sh {c}/t.json'); stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); got=set(json.load(open(f'{c}/t.json'))['passed'])
        okt=stable<=got
        if not okt: print('   tests fail:',stable-got,t.stdout[-1500:])
        b=sh(f'cd {c}/r && bash {d}/demo.sh'); ok1=b.returncode!=0
        print('   patched:',b.returncode,b.stdout[-300:].strip())
        if ok0 and ok1 and okt: print('   OK')
        else: print('   REJECTED'); shutil.rmtree(d)
        if len(sys.argv)>2 and sys.argv[1]=='--check' and ok0 and ok1:
            e=dict(os.environ,VF_REPO=f'{c}/r',VF_BUILD=f'{c}/b')
            for ch in s.get('checks',[s['prop']]):
                r=subprocess.run([f'{V}/bin/check',ch],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'violation' in l.lower()]
                print('   check',ch,'exit',r.returncode,(v or r.stdout.splitlines()[-3:])[:2])
    finally: shutil.rmtree(c,ignore_errors=True)
for x in [a for a in sys.argv[1:] if not a.startswith('--')]: main(x)
