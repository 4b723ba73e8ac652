#!/usr/bin/env python3
"""cand.py LIST.py OUT [nocheck]: tries hand-written changes (C = [(id, props, file, old, new), ...]) in /tmp/mt:
do the repository's tests of crate rerecast pass, and do the checks notice?"""
import sys,os,json,time
sys.argv=[sys.argv[0],'x','1','1']+sys.argv[1:]
import mutate as m
lst,out=sys.argv[4],sys.argv[5]; nocheck='nocheck' in sys.argv
ns={}; exec(open(lst).read(),ns)
m.setup()
B=m.B
env=dict(m.ENV,CARGO_TARGET_DIR=f'{B}/mct',CARGO_PROFILE_RELEASE_INCREMENTAL='true')
tenv=dict(m.ENV,CARGO_TARGET_DIR=f'{B}/tt')
done={l.split()[0] for l in open(out)} if os.path.exists(out) else set()
for id,props,f,old,new in ns['C']:
    if id in done: continue
    edits=[(f,old,new)] if isinstance(old,str) else [(f,a,b) for a,b in zip(old,new)]
    m.sh(f'git -C {B}/repo checkout -q -- crates/rerecast/src')
    bad=None
    for f,a,b in edits:
        p=m.SRC+f; s=open(p).read()
        if s.count(a)!=1: bad=f'{s.count(a)} matches'; break
        open(p,'w').write(s.replace(a,b))
    line=f'{id} '
    if bad: line+='BADEDIT '+bad
    else:
        rc,o=m.sh('cargo test -q -p rerecast --offline',600,B+'/repo',tenv)
        line+='tests='+('ok' if rc==0 else 'FAIL('+o.strip().split(chr(10))[-1][:80]+')')
        if rc==0 and not nocheck:
            rc,o=m.sh('cargo build -q --release --offline',600,B+'/mc',env)
            if rc: line+=' nobuild'
            else:
                for pr in props.split():
                    t=time.time()
                    rc,o=m.sh(f'MC_EVIDENCE={B}/e.json timeout 600 {B}/mct/release/mc check {pr} quick',620,env=dict(m.ENV,VERIF_SEED='1',MC_EVIDENCE=B+'/e.json'))
                    line+=f' {pr}={rc}({time.time()-t:.0f}s)'
    m.sh(f'git -C {B}/repo checkout -q -- crates/rerecast/src')
    open(out,'a').write(line+'\n'); print(line,flush=True)
