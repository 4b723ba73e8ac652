#!/usr/bin/env python3
"""Mutation sweep used while building the checks (not a registered check).
mutate.py OUT.jsonl PER_FILE SEED [file...] - works in /tmp/mt (clone of /repo, copy of /verif/mc)."""
import os,re,random,subprocess,sys,json,time,shutil
OUT,PER,SEED=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); ONLY=sys.argv[4:]
B=os.environ.get('MUT_B','/tmp/mt')
ENV=dict(os.environ,CARGO_NET_OFFLINE='true',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
def sh(c,t=None,cwd=None,env=None):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,env=env or ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e: return 124,''
def setup():
    sh(f'mkdir -p {B}; [ -d {B}/repo ] || git clone -q /repo {B}/repo; git -C {B}/repo fetch -q; git -C {B}/repo checkout -q -f origin/HEAD; rm -rf {B}/repo/crates/rerecast/tests/reference_data/chainboom; mkdir -p {B}/mc; cp -a /verif/mc/src /verif/mc/Cargo.toml /verif/mc/Cargo.lock {B}/mc/; sed -i "s#/repo/crates#{B}/repo/crates#" {B}/mc/Cargo.toml')
SRC=f'{B}/repo/crates/rerecast/src/'
PROPS={
'compact_cell.rs':['C29','C05','C08'],'compact_heightfield.rs':['C29','C05','C10','C16'],'compact_span.rs':['C29','C05','C19','C08'],'config.rs':['C16','C14','C19'],
'contours.rs':['C10','C11','C12','C25','C18','C16'],'detail_mesh.rs':['C15','C14','C26','C16','C17'],'erosion.rs':['C06','C16'],
'heightfield.rs':['C01','C02','C04','C19','C16'],'mark_convex_poly_area.rs':['C07'],'math.rs':['C02','C03','C12','C05','C14','C16'],
'poly_mesh.rs':['C12','C13','C18','C25','C16'],'pre_filter.rs':['C04','C16'],'rasterize.rs':['C02','C16','C03'],'region.rs':['C09','C10'],
'span.rs':['C01','C19','C02'],'trimesh.rs':['C03','C16'],'watershed_build_regions.rs':['C09','C16','C18'],'watershed_distance_field.rs':['C08','C09'],'lib.rs':['C16']}
OPS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),
(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / ',' * '),(r'\.min\(','.max('),(r'\.max\(','.min('),(r' \+= ',' -= '),(r' -= ',' += '),
(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bcontinue;','break;'),(r'\bbreak;','{}'),(r'\bcontinue;','{}'),(r'!(?=[a-z_]+[.(])',''),
(r'(?<![\w.])0(?![\w.])','1'),(r'(?<![\w.])1(?![\w.])','2'),(r'(?<![\w.])1(?![\w.])','0'),(r'(?<![\w.])2(?![\w.])','3'),(r'(?<![\w.])3(?![\w.])','2'),(r'(?<![\w.])4(?![\w.])','3'),
(r'\.floor\(\)',''),(r'\.ceil\(\)','.floor()'),(r'\bif (?!let)(.+) \{$',r'if !(\1) {'),(r'\bif (?!let)(.+) \{$',r'if false && (\1) {'),(r'\.rev\(\)',''),
(r'^(\s+)([\w.\[\]*]+ [+\-|&]?= .*;)$',r'\1{ let _ = || { \2 }; }'),(r'^(\s+)([\w.]+\(.*\);)$',r'\1'),(r'abs_diff\((\w+)\)',r'wrapping_sub(\1)'),(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\bdir\b','dir.wrapping_add(1)'),(r'\.x\b','.z'),(r'\.z\b','.x'),(r'0\.5','0.0')]
def sites(f):
    L=open(SRC+f).read().split('\n'); out=[]
    for n,l in enumerate(L):
        if '#[cfg(test)]' in l: break
        s=l.strip()
        if not s or s.startswith(('//','#','use ','pub use','mod ','assert','debug_assert','pub fn','fn ','pub(crate) fn')): continue
        code=l.split('//')[0].rstrip()
        for k,(a,b) in enumerate(OPS):
            for m in re.finditer(a,code):
                if '->' in code and a in(r' > ',): continue
                new=code[:m.start()]+m.expand(b)+code[m.end():]
                if new!=code: out.append((f,n,code,new,k))
    return out
def main():
    setup(); rnd=random.Random(SEED)
    files=ONLY or sorted(PROPS)
    done=set()
    if os.path.exists(OUT):
        for l in open(OUT):
            j=json.loads(l); done.add((j['file'],j['line'],j['new']))
    todo=[]
    for f in files:
        s=sites(f); rnd.shuffle(s)
        # at most one mutant per line and round
        seen=set(); pick=[]
        for x in s:
            if (x[1]) in seen: continue
            seen.add(x[1]); pick.append(x)
        todo+=pick[:PER]
    rnd.shuffle(todo)
    env=dict(ENV,CARGO_TARGET_DIR=f'{B}/mct',CARGO_PROFILE_RELEASE_INCREMENTAL='true')
    tenv=dict(ENV,CARGO_TARGET_DIR=f'{B}/tt')
    for f,n,old,new,k in todo:
        if (f,n+1,new.strip()) in done: continue
        t0=time.time()
        text=open(SRC+f).read(); L=text.split('\n'); 
        if L[n].split('//')[0].rstrip()!=old: continue
        L[n]=new; open(SRC+f,'w').write('\n'.join(L))
        r=dict(file=f,line=n+1,old=old.strip(),new=new.strip())
        try:
            rc,o=sh('cargo build -q --release --offline',300,B+'/mc',env)
            if rc: r['res']='nocompile'
            else:
                r['kills']=[];r['quiet']=[]
                for p in PROPS[f]:
                    rc,o=sh(f'MC_EVIDENCE={B}/e.json timeout 300 {B}/mct/release/mc check {p} quick',320,env=dict(ENV,VERIF_SEED='1',MC_EVIDENCE=B+'/e.json'))
                    if rc==0: r['quiet'].append(p)
                    else: r['kills'].append([p,rc]); break
                if not r['kills']:
                    rc,o=sh('cargo test -q -p rerecast --offline',400,B+'/repo',tenv)
                    r['test']=rc
                r['res']='killed' if r['kills'] else ('testkilled' if r.get('test') else 'SURVIVED')
        finally:
            open(SRC+f,'w').write(text)
        r['s']=round(time.time()-t0)
        open(OUT,'a').write(json.dumps(r)+'\n')
if __name__=="__main__": main()
