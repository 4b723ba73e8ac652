//! C21: the answer to the editor's request.
use crate::fw::{Dec, Local as Run, Property, R, Space, Tier};
use crate::p_transport::{image_text, material_text, mesh_text, pixel, slots_mut};
use crate::scene::*;
use bevy_app::prelude::*;
use bevy_asset::prelude::*;
use bevy_ecs::prelude::*;
use bevy_image::Image;
use bevy_mesh::Mesh;
use bevy_pbr::{MeshMaterial3d, StandardMaterial};
use bevy_platform::collections::HashMap;
use bevy_remote::{BrpResult, RemoteMethodSystemId, RemoteMethods};
use bevy_render::mesh::Mesh3d;
use bevy_render::view::InheritedVisibility;
use bevy_rerecast_core::{Mesh3dNavmeshPlugin, NavmeshAffectorBackend, NavmeshApp};
use bevy_rerecast_editor_integration::brp::{BRP_GET_NAVMESH_INPUT_METHOD, NavmeshInputResponse};
use bevy_rerecast_editor_integration::transmission::deserialize;
use bevy_rerecast_editor_integration::{EditorVisibilitySettings, EditorVisible, RerecastEditorIntegrationPlugin};
use bevy_transform::prelude::GlobalTransform;
use glam::{UVec3, Vec3A};
use rerecast::{AreaType, TriMesh};
use std::collections::HashSet;

pub fn property() -> Property {
    Property {
        id: "C21",
        spaces,
        assumptions: &[
            "an object whose mesh is not loaded is left out; a material that is not loaded, or one of whose textures is not loaded, is left out while its object is kept",
            "the order of objects, meshes, materials and images in the answer is not specified; entries nobody refers to are allowed",
        ],
    }
}

const MESHES: usize = 3; // 0, 1 loaded, 2 missing
const MATS: usize = 6; // 0: plain, 1: image 0, 2: images 0 and 1, 3: not loaded, 4: image 1 and a missing one, 5: a missing image first

struct Fx {
    app: App,
    meshes: Vec<Handle<Mesh>>,
    mats: Vec<Handle<StandardMaterial>>,
    mesh_text: Vec<Option<String>>,
    mat_text: Vec<Option<String>>,
    backend: bool,
}
#[derive(Resource, Default)]
struct Obstacles(Vec<Item>);
fn source(o: Res<Obstacles>) -> Vec<Item> {
    o.0.clone()
}
fn obstacle(k: usize) -> Item {
    (transforms()[k % 4], TriMesh { vertices: (0..3 + k).map(|i| Vec3A::new(i as f32, k as f32, -0.5)).collect(), indices: vec![UVec3::new(0, 1, 2); k + 1], area_types: vec![if k == 2 { AreaType(7) } else { AreaType::NOT_WALKABLE }; k + 1] })
}
fn image(k: u8) -> Image {
    pixel(10 + k)
}
fn material(k: usize, img: &[Handle<Image>]) -> StandardMaterial {
    let mut m = StandardMaterial { metallic: 0.125 * (k as f32 + 1.0), ..Default::default() };
    {
        let mut s = slots_mut(&mut m);
        match k {
            1 => *s[0].1 = Some(img[0].clone()),
            2 => {
                *s[6].1 = Some(img[0].clone());
                *s[14].1 = Some(img[1].clone());
            }
            4 => {
                *s[0].1 = Some(img[1].clone());
                *s[14].1 = Some(img[2].clone());
            }
            5 => {
                *s[0].1 = Some(img[2].clone());
                *s[1].1 = Some(img[0].clone());
            }
            _ => {}
        }
    }
    m
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Backend {
    None,
    Fixed(usize),
    Meshes,
}

impl Fx {
    fn new(auto: bool, backend: Backend) -> Fx {
        let mut app = App::new();
        app.init_resource::<RemoteMethods>().insert_resource(Assets::<Mesh>::default()).insert_resource(Assets::<Image>::default()).insert_resource(Assets::<StandardMaterial>::default());
        // the plugin's settings are public, the plugin is not constructible otherwise
        let mut p = RerecastEditorIntegrationPlugin::default();
        if !auto {
            p.visibility_settings = EditorVisibilitySettings::Manual;
        }
        app.add_plugins(p);
        match backend {
            Backend::None => {}
            Backend::Fixed(n) => {
                app.insert_resource(Obstacles((0..n).map(obstacle).collect()));
                app.set_navmesh_affector_backend(source);
            }
            Backend::Meshes => {
                app.add_plugins(Mesh3dNavmeshPlugin::default());
            }
        }
        app.update(); // start-up registers the method
        let w = app.world_mut();
        let mut ms = w.resource_mut::<Assets<Mesh>>();
        let meshes: Vec<_> = (0..MESHES).map(|_| ms.reserve_handle()).collect();
        let mut texts = vec![];
        for k in 0..MESHES {
            if k < 2 {
                let m = crate::p_mesh::tri(k);
                texts.push(Some(mesh_text(&m)));
                ms.insert(&meshes[k], m);
            } else {
                texts.push(None);
            }
        }
        let mut is = w.resource_mut::<Assets<Image>>();
        let img = [is.add(image(0)), is.add(image(1)), is.reserve_handle()];
        let all: Vec<StandardMaterial> = (0..MATS).map(|k| material(k, &img)).collect();
        let mat_text = all.iter().enumerate().map(|(k, m)| (k < 3).then(|| material_text(m, &is))).collect();
        let mut st = w.resource_mut::<Assets<StandardMaterial>>();
        let mats: Vec<_> = (0..MATS).map(|_| st.reserve_handle()).collect();
        for (k, m) in all.into_iter().enumerate() {
            if k != 3 {
                st.insert(&mats[k], m);
            }
        }
        Fx { app, meshes, mats, mesh_text: texts, mat_text, backend: backend != Backend::None }
    }
    fn request(&mut self, params: Option<serde_json::Value>) -> Result<BrpResult, String> {
        let Some(RemoteMethodSystemId::Instant(id)) = self.app.world().resource::<RemoteMethods>().get(BRP_GET_NAVMESH_INPUT_METHOD) else {
            return Err("the request method is not available".into());
        };
        let id = *id;
        self.app.world_mut().run_system_with(id, params).map_err(|e| format!("the request method does not run: {e}"))
    }
}

/// What an object looks like to the editor: transform, mesh and material content.
fn look(t: &GlobalTransform, mesh: &str, mat: Option<&str>) -> String {
    format!("{} mesh {mesh} material {mat:?}", key(&(*t, TriMesh::default())))
}

/// Compares an answer with the expected objects and obstacles.
fn check_answer(ans: &NavmeshInputResponse, objs: &[String], obstacles: &[Item]) -> R {
    let aff: Vec<Item> = ans.affector_meshes.iter().map(|a| (a.transform, a.mesh.clone())).collect();
    same_items("obstacle geometry", &aff, obstacles)?;
    let meshes: Vec<String> = ans.meshes.iter().map(|m| mesh_text(&m.clone().into_mesh())).collect();
    let images: Vec<String> = ans.images.iter().map(|i| image_text(&i.clone().into_image())).collect();
    let mut handles = HashMap::new();
    let mut store = Assets::<Image>::default();
    let mut mats = vec![];
    for m in &ans.materials {
        let m = m.clone().into_standard_material(&mut handles, &mut store, &ans.images);
        mats.push(material_text(&m, &store));
    }
    for (what, v) in [("mesh", &meshes), ("image", &images), ("material", &mats)] {
        let s: HashSet<&String> = v.iter().collect();
        if s.len() != v.len() {
            return Err(format!("a {what} is sent more than once"));
        }
    }
    let mut got = vec![];
    for v in &ans.visual_meshes {
        let mesh = meshes.get(v.mesh as usize).ok_or_else(|| format!("mesh {} of {} referred to", v.mesh, meshes.len()))?;
        let mat = match v.material {
            None => None,
            Some(k) => Some(mats.get(k as usize).ok_or_else(|| format!("material {k} of {} referred to", mats.len()))?.as_str()),
        };
        got.push(look(&v.transform, mesh, mat));
    }
    got.sort();
    let mut want = objs.to_vec();
    want.sort();
    if got != want {
        return Err(format!("{} objects instead of {}: got {:.1500} wanted {:.1500}", got.len(), want.len(), format!("{got:?}"), format!("{want:?}")));
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
struct Obj {
    mesh: Option<usize>,
    mat: Option<usize>,
    vis: u8, // 0 visible, 1 hidden, 2 no visibility
    opt: u8, // 0 nothing, 1 opted in, 2 opted in and out again
    place: usize,
}
fn spawn(fx: &mut Fx, o: &Obj) -> Entity {
    let (m, t) = (o.mesh.map(|k| fx.meshes[k].clone()), o.mat.map(|k| fx.mats[k].clone()));
    let mut e = fx.app.world_mut().spawn_empty();
    if let Some(m) = m {
        e.insert(Mesh3d(m));
    }
    if let Some(t) = t {
        e.insert(MeshMaterial3d(t));
    }
    match o.vis {
        0 => {
            e.insert(InheritedVisibility::VISIBLE);
        }
        1 => {
            e.insert(InheritedVisibility::HIDDEN);
        }
        _ => {
            e.remove::<InheritedVisibility>();
        }
    }
    e.insert(transforms()[o.place]);
    match o.opt {
        1 => {
            e.insert(EditorVisible);
        }
        2 => {
            e.insert(EditorVisible).remove::<EditorVisible>();
        }
        _ => {}
    }
    e.id()
}
fn expected(fx: &Fx, objs: &[Obj], opted: impl Fn(&Obj) -> bool) -> Vec<String> {
    objs.iter()
        .filter(|o| o.vis == 0 && opted(o))
        .filter_map(|o| {
            let m = fx.mesh_text[o.mesh?].as_ref()?;
            Some(look(&transforms()[o.place], m, o.mat.and_then(|k| fx.mat_text[k].as_deref())))
        })
        .collect()
}
fn full(d: &mut Dec) -> Obj {
    let mesh = d.take(MESHES as u64 + 1) as usize;
    let mat = d.take(MATS as u64 + 1) as usize;
    Obj { mesh: (mesh < MESHES).then_some(mesh), mat: (mat < MATS).then_some(mat), vis: d.take(3) as u8, opt: d.take(3) as u8, place: d.take(2) as usize * 2 }
}
fn small(d: &mut Dec) -> Obj {
    let mesh = d.take(3) as usize;
    let mat = d.take(6) as usize;
    Obj { mesh: Some([0, 1, 2][mesh]), mat: [None, Some(0), Some(1), Some(2), Some(4), Some(5)][mat], vis: d.take(2) as u8, opt: 1, place: 1 }
}

fn answer(fx: &mut Fx) -> Result<NavmeshInputResponse, String> {
    let v = fx.request(None)?.map_err(|e| format!("error {}", e.message))?;
    deserialize(&v).map_err(|e| format!("the answer cannot be read: {e}"))
}

fn worlds(name: &str, n: u32, base: u64, gen_obj: fn(&mut Dec) -> Obj, auto: bool) -> Space {
    let dec = move |i| {
        let mut d = Dec(i);
        (0..n).map(|_| gen_obj(&mut d)).collect::<Vec<_>>()
    };
    let tag = (n as u64) << 50 | (auto as u64) << 55;
    Space::new(name, base.pow(n), move |i| format!("opt-in {}: {:?}", if auto { "automatic" } else { "manual" }, dec(i)), move |i, l| {
        let objs = dec(i);
        let mut fx = Fx::new(auto, Backend::Fixed(2));
        for o in &objs {
            spawn(&mut fx, o);
        }
        let want = expected(&fx, &objs, |o| if auto { o.mesh.is_some() && o.opt != 2 } else { o.opt == 1 });
        l.steps(n as u64 + 1);
        l.trace();
        l.state(i ^ tag);
        if !want.is_empty() {
            l.nontrivial += 1;
        }
        let a = answer(&mut fx)?;
        check_answer(&a, &want, &[obstacle(0), obstacle(1)])
    })
}

// ---- histories ------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum Op {
    Spawn(Obj),
    Despawn(usize),
    Hide(usize),
    Show(usize),
    OptIn(usize),
    OptOut(usize),
    Remesh(usize, usize),
    Rematerial(usize, usize),
    Move(usize, usize),
    Unload(usize),
    Load(usize),
    Obstacles(usize),
}
fn hist_ops() -> Vec<Op> {
    let o = |mesh, mat, opt| Obj { mesh: Some(mesh), mat, vis: 0, opt, place: 1 };
    vec![
        Op::Spawn(o(0, Some(1), 1)), Op::Spawn(o(1, Some(2), 1)), Op::Spawn(o(2, Some(0), 1)), Op::Spawn(o(1, None, 0)),
        Op::Despawn(0), Op::Hide(0), Op::Show(0), Op::OptIn(1), Op::OptOut(0), Op::Remesh(0, 1), Op::Rematerial(0, 2), Op::Move(0, 3), Op::Unload(0), Op::Load(2), Op::Obstacles(0), Op::Obstacles(3),
    ]
}
fn histories(depth: u32, auto: bool) -> Space {
    let ops = hist_ops();
    let n = ops.len() as u64;
    let o2 = ops.clone();
    let dec = move |i, o: &[Op]| {
        let mut d = Dec(i);
        (0..depth).map(|_| *d.pick(o)).collect::<Vec<_>>()
    };
    Space::new(format!("histories-{depth}-{}", if auto { "automatic" } else { "manual" }), n.pow(depth), move |i| format!("{:?}", dec(i, &ops)), move |i, l| {
        let mut fx = Fx::new(auto, Backend::Fixed(1));
        let mut objs: Vec<Obj> = vec![];
        let mut opted: Vec<bool> = vec![];
        let mut ents: Vec<Entity> = vec![];
        let mut obst = 1;
        for op in dec(i, &o2) {
            let w = fx.app.world_mut();
            match op {
                Op::Spawn(o) => {
                    ents.push(spawn(&mut fx, &o));
                    objs.push(o);
                    opted.push(auto || o.opt == 1);
                }
                Op::Despawn(k) | Op::Hide(k) | Op::Show(k) | Op::OptIn(k) | Op::OptOut(k) | Op::Remesh(k, _) | Op::Rematerial(k, _) | Op::Move(k, _) if k >= ents.len() => continue,
                Op::Despawn(k) => {
                    w.despawn(ents.remove(k));
                    objs.remove(k);
                    opted.remove(k);
                }
                Op::Hide(k) => {
                    w.entity_mut(ents[k]).insert(InheritedVisibility::HIDDEN);
                    objs[k].vis = 1;
                }
                Op::Show(k) => {
                    w.entity_mut(ents[k]).insert(InheritedVisibility::VISIBLE);
                    objs[k].vis = 0;
                }
                Op::OptIn(k) => {
                    w.entity_mut(ents[k]).insert(EditorVisible);
                    opted[k] = true;
                }
                Op::OptOut(k) => {
                    w.entity_mut(ents[k]).remove::<EditorVisible>();
                    opted[k] = false;
                }
                Op::Remesh(k, m) => {
                    w.entity_mut(ents[k]).insert(Mesh3d(fx.meshes[m].clone()));
                    objs[k].mesh = Some(m);
                }
                Op::Rematerial(k, m) => {
                    w.entity_mut(ents[k]).insert(MeshMaterial3d(fx.mats[m].clone()));
                    objs[k].mat = Some(m);
                }
                Op::Move(k, p) => {
                    w.entity_mut(ents[k]).insert(transforms()[p]);
                    objs[k].place = p;
                }
                Op::Unload(k) => {
                    w.resource_mut::<Assets<Mesh>>().remove(&fx.meshes[k]);
                    fx.mesh_text[k] = None;
                }
                Op::Load(k) => {
                    let m = crate::p_mesh::tri(k);
                    fx.mesh_text[k] = Some(mesh_text(&m));
                    w.resource_mut::<Assets<Mesh>>().insert(&fx.meshes[k], m);
                }
                Op::Obstacles(n) => {
                    w.resource_mut::<Obstacles>().0 = (0..n).map(obstacle).collect();
                    obst = n;
                }
            }
            l.step();
            let live: Vec<Obj> = objs.iter().zip(&opted).filter(|x| *x.1).map(|x| *x.0).collect();
            let want = expected(&fx, &live, |_| true);
            if !want.is_empty() {
                l.nontrivial += 1;
            }
            let a = answer(&mut fx)?;
            check_answer(&a, &want, &(0..obst).map(obstacle).collect::<Vec<_>>()).map_err(|e| format!("after {op:?}: {e}"))?;
        }
        l.trace();
        l.state(i ^ (depth as u64) << 45 ^ (auto as u64) << 60);
        Ok(())
    })
}

// ---- missing parts ----------------------------------------------------------------------------

fn errors() -> Space {
    let params = [None, Some(serde_json::Value::Null), Some(serde_json::json!({})), Some(serde_json::json!([1])), Some(serde_json::json!("x"))];
    let np = params.len() as u64;
    let show = |i: u64, np: u64| {
        let mut d = Dec(i);
        let p = d.take(np);
        format!("parameters {p}, backend {}, missing stores {:03b}, {} objects", d.take(5), d.take(8), d.take(3))
    };
    Space::new("missing-parts", np * 5 * 8 * 3, move |i| show(i, np), move |i, l| {
        let mut d = Dec(i);
        let p = params[d.take(np) as usize].clone();
        let b = d.take(5);
        let (miss, n) = (d.take(8), d.take(3));
        let backend = [Backend::None, Backend::Fixed(0), Backend::Fixed(3), Backend::Meshes, Backend::Fixed(1)][b as usize];
        let mut fx = Fx::new(true, backend);
        let objs: Vec<Obj> = (0..n as usize).map(|k| Obj { mesh: Some(k), mat: Some(2), vis: 0, opt: 0, place: k }).collect();
        for o in &objs {
            spawn(&mut fx, o);
        }
        let mut source_ok = fx.backend;
        let w = fx.app.world_mut();
        if miss & 1 != 0 {
            w.remove_resource::<Assets<Mesh>>();
        }
        if miss & 2 != 0 {
            w.remove_resource::<Assets<Image>>();
        }
        if miss & 4 != 0 {
            w.remove_resource::<Assets<StandardMaterial>>();
        }
        if b == 4 {
            // the registered source is gone
            let id = w.resource::<NavmeshAffectorBackend>().clone();
            w.unregister_system(*id).map_err(|e| e.to_string())?;
            source_ok = false;
        }
        l.steps(2);
        l.trace();
        l.state(i ^ 3 << 60);
        let r = fx.request(p.clone())?;
        let must_fail = p.is_some() || !source_ok || miss != 0;
        match r {
            Err(_) if must_fail => Ok(()),
            Err(e) => Err(format!("an error although nothing is missing: {}", e.message)),
            Ok(_) if must_fail => Err("an answer although something is missing".into()),
            Ok(v) => {
                l.nontrivial += 1;
                let a: NavmeshInputResponse = deserialize(&v).map_err(|e| e.to_string())?;
                let obst: Vec<Item> = match backend {
                    Backend::Fixed(n) => (0..n).map(obstacle).collect(),
                    _ => run_backend(fx.app.world_mut())?,
                };
                if backend == Backend::Meshes && obst.len() != (n as usize).min(2) {
                    return Err(format!("{} obstacles for {n} meshes", obst.len()));
                }
                let want = expected(&fx, &objs, |_| true);
                check_answer(&a, &want, &obst)
            }
        }
    })
}

/// Many objects over many distinct assets, in every rotation of the spawn order.
fn crowd(t: Tier) -> Space {
    let n: usize = t.pick(12, 40);
    Space::new("crowds", (n * n) as u64, move |i| format!("{n} objects, order rotated by {}, {} meshes", i as usize / n, i as usize % n + 1), move |i, l: &mut Run| {
        let (rot, distinct) = (i as usize / n, i as usize % n + 1);
        let mut fx = Fx::new(false, Backend::Fixed(1));
        let mut want = vec![];
        let w = fx.app.world_mut();
        let mut handles = vec![];
        for k in 0..distinct {
            let m = crate::p_mesh::tri(k);
            let im = w.resource_mut::<Assets<Image>>().add(pixel(100 + (k % 3) as u8));
            let mat = StandardMaterial { metallic: k as f32, base_color_texture: if k % 3 == 0 { None } else { Some(im) }, ..Default::default() };
            let mt = material_text(&mat, w.resource::<Assets<Image>>());
            let t = mesh_text(&m);
            handles.push((w.resource_mut::<Assets<Mesh>>().add(m), t, w.resource_mut::<Assets<StandardMaterial>>().add(mat), mt));
        }
        for q in 0..n {
            let k = (q + rot) % n;
            let (a, b) = (k % distinct, (k * 5 + 1) % distinct);
            let tf = GlobalTransform::from_xyz(k as f32, rot as f32, 0.0);
            w.spawn((Mesh3d(handles[a].0.clone()), MeshMaterial3d(handles[b].2.clone()), InheritedVisibility::VISIBLE, tf, EditorVisible));
            want.push(look(&tf, &handles[a].1, Some(&handles[b].3)));
        }
        l.steps(n as u64 + 1);
        l.trace();
        l.state(i ^ 5 << 58);
        l.nontrivial += 1;
        let ans = answer(&mut fx)?;
        // images with equal content but different handles are different assets here: compare objects only
        let meshes: Vec<String> = ans.meshes.iter().map(|m| mesh_text(&m.clone().into_mesh())).collect();
        let (mut hs, mut store) = (HashMap::new(), Assets::<Image>::default());
        let mats: Vec<String> = ans.materials.iter().map(|m| material_text(&m.clone().into_standard_material(&mut hs, &mut store, &ans.images), &store)).collect();
        if meshes.len() > distinct || mats.len() > distinct || ans.images.len() > distinct {
            return Err(format!("{} meshes, {} materials and {} images are sent for {distinct}", meshes.len(), mats.len(), ans.images.len()));
        }
        let mut got: Vec<String> = ans.visual_meshes.iter().map(|v| look(&v.transform, &meshes[v.mesh as usize], v.material.map(|k| mats[k as usize].as_str()))).collect();
        got.sort();
        want.sort();
        if got != want { Err("objects differ".into()) } else { Ok(()) }
    })
}

fn spaces(t: Tier) -> Vec<Space> {
    let full_n = (MESHES as u64 + 1) * (MATS as u64 + 1) * 3 * 3 * 2;
    let mut v = vec![
        worlds("worlds-1-automatic", 1, full_n, full, true),
        worlds("worlds-1-manual", 1, full_n, full, false),
        worlds("worlds-3-manual", 3, 36, small, false),
        histories(3, false),
        histories(3, true),
        errors(),
        crowd(t),
    ];
    if t.thorough() {
        v.push(worlds("worlds-2-automatic", 2, full_n, full, true));
        v.push(worlds("worlds-2-manual", 2, full_n, full, false));
        v.push(worlds("worlds-4-manual", 4, 36, small, false));
        v.push(histories(4, false));
        v.push(histories(4, true));
        v.push(histories(5, false));
    }
    v
}
