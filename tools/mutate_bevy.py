#!/usr/bin/env python3
"""mutate_bevy.py OUT.jsonl PER_FILE SEED [substring...]: as mutate.py, for the crates around the library (works in /tmp/mb)."""
import os,sys,re,json,random,time
os.environ['MUT_B']='/tmp/mb'
args=sys.argv[1:]; sys.argv=[sys.argv[0]]+args[:3]
import mutate as m
B=m.B; ENV=m.ENV
OUT,PER,SEED=args[0],int(args[1]),int(args[2]); ONLY=args[3:]
C='/repo/crates/'
F={
'avian_rerecast/src/collider_to_trimesh.rs':('mcbevy',['C22']),'avian_rerecast/src/lib.rs':('mcbevy',['C22']),
'bevy_rerecast_core/src/mesh.rs':('mcbevy',['C23']),'bevy_rerecast_core/src/backend.rs':('mcbevy',['C24','C21']),'bevy_rerecast_core/src/generator.rs':('mcbevy',['C24']),'bevy_rerecast_core/src/lib.rs':('mcbevy',['C24']),
'bevy_rerecast_editor_integration/src/brp.rs':('mcbevy',['C21']),'bevy_rerecast_editor_integration/src/lib.rs':('mcbevy',['C21','C24']),
'bevy_rerecast_editor_integration/src/transmission/serialization.rs':('mcbevy',['C20']),'bevy_rerecast_editor_integration/src/transmission/serialized_image.rs':('mcbevy',['C20','C21']),
'bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs':('mcbevy',['C20']),'bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs':('mcbevy',['C20']),
'bevy_rerecast_editor/src/build.rs':('mcedit',['C27']),'bevy_rerecast_editor/src/get_navmesh_input.rs':('mcedit',['C27']),'bevy_rerecast_editor/src/ui.rs':('mcedit',['C28']),
'bevy_rerecast_editor/src/visualization.rs':('mcedit',['C27','C28']),'bevy_rerecast_editor/src/camera/camera_controller.rs':('mcedit',['C28']),'bevy_rerecast_editor/src/theme/widget.rs':('mcedit',['C28']),'bevy_rerecast_editor/src/theme/interaction.rs':('mcedit',['C28']),
}
m.SRC=B+C
m.OPS+= [(r'^(\s+)(\w.*;)$',r'\1'),(r'^(\s+)([A-Z][\w:]+(?:\(.*\))?,)$',r'\1'),(r'^(\s+)(\w+: .*,)$',r'\1\2 ..default(),'),(r'\bSome\((\w+)\)',r'None'),(r'\.chain\(\)',''),(r'\bWith<','Without<'),(r'\bWithout<','With<'),(r'Changed<','With<'),(r'PolyMesh','DetailMesh'),(r'DetailMesh','PolyMesh'),(r'Visibility::Hidden','Visibility::Inherited')]
def setup():
    m.sh(f'mkdir -p {B}; [ -d {B}/repo ] || git clone -q /repo {B}/repo; git -C {B}/repo fetch -q; git -C {B}/repo checkout -q -f origin/HEAD')
    for h in ('mcbevy','mcedit'):
        m.sh(f'mkdir -p {B}/{h}; cp -a /verif/{h}/. {B}/{h}/; cp -a /verif/mc/src {B}/mc_src; mkdir -p {B}/mc; cp -a /verif/mc/. {B}/mc/; grep -rlI "/repo/crates" {B}/{h} {B}/mc | xargs sed -i "s#\\"/repo/crates#\\"{B}/repo/crates#g"; grep -rlI "/verif/" {B}/{h} | xargs -r sed -i "s#/verif/#{B}/#g"')
        t={'mcbevy':'/tmp/mcbt','mcedit':'/tmp/mcet'}[h]
        m.sh(f'[ -d {B}/t-{h} ] || cp -a {t} {B}/t-{h}')
        print(h,m.sh('cargo build -q --release --offline',1500,f'{B}/{h}',dict(ENV,CARGO_TARGET_DIR=f'{B}/t-{h}'))[1][-500:],flush=True)
setup()
rnd=random.Random(SEED); todo=[]
for f in F:
    if ONLY and not any(o in f for o in ONLY): continue
    s=m.sites(f); rnd.shuffle(s); seen=set()
    for x in s:
        if x[1] in seen: continue
        seen.add(x[1]); todo.append(x)
        if len(seen)>=PER: break
rnd.shuffle(todo)
done=set()
if os.path.exists(OUT):
    for l in open(OUT): j=json.loads(l); done.add((j['file'],j['line'],j['new']))
print(len(todo),'mutants',flush=True)
for f,n,old,new,k in todo:
    if (f,n+1,new.strip()) in done: continue
    t0=time.time(); text=open(m.SRC+f).read(); L=text.split('\n')
    if L[n].split('//')[0].rstrip()!=old: continue
    L[n]=new; open(m.SRC+f,'w').write('\n'.join(L))
    h,props=F[f]; r=dict(file=f,line=n+1,old=old.strip(),new=new.strip(),kills=[],quiet=[])
    rc,o=m.sh('cargo build -q --release --offline',600,f'{B}/{h}',dict(ENV,CARGO_TARGET_DIR=f'{B}/t-{h}'))
    if rc: r['res']='nocompile'
    else:
        for p in props:
            rc,o=m.sh(f"MC_EVIDENCE={B}/e.json unshare -Urn sh -c 'ip link set lo up; exec timeout 300 {B}/t-{h}/release/{h} check {p} quick'",320,env=dict(ENV,VERIF_SEED='1'))
            if rc==0: r['quiet'].append(p)
            else: r['kills'].append([p,rc]); break
        r['res']='killed' if r['kills'] else 'SURVIVED'
    open(m.SRC+f,'w').write(text); r['s']=round(time.time()-t0)
    open(OUT,'a').write(json.dumps(r)+'\n'); print(r['res'],f,n+1,old.strip(),'->',new.strip(),flush=True)
