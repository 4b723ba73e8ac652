//! C24: which geometry source is in effect, and navmesh requests.
use crate::fw::{Dec, Property, Space, Tier};
use bevy_app::prelude::*;
use bevy_asset::prelude::*;
use bevy_asset::AssetPlugin;
use bevy_ecs::prelude::*;
use bevy_ecs::system::RunSystemOnce;
use bevy_rerecast_core::generator::NavmeshGenerator;
use bevy_rerecast_core::{Navmesh, NavmeshAffectorBackend, NavmeshApp, RerecastPlugin};
use bevy_transform::prelude::GlobalTransform;
use glam::Vec3A;
use rerecast::{NavmeshConfig, NavmeshConfigBuilder, TriMesh};
use std::collections::HashSet;

pub fn property() -> Property {
    Property { id: "C24", spaces, assumptions: &["what becomes of queued requests is not observable yet: the repository has no consumer for the queue"] }
}

#[derive(Resource, Default)]
struct Calls([u32; 3]);
#[derive(Resource)]
struct Value(f32);
#[derive(Component)]
struct Thing(f32);

fn answer(k: usize, v: f32, things: &[f32]) -> Vec<(GlobalTransform, TriMesh)> {
    let mut out = vec![(GlobalTransform::from_xyz(k as f32, v, 0.0), TriMesh::default())];
    for t in things {
        out.push((GlobalTransform::IDENTITY, TriMesh { vertices: vec![Vec3A::splat(*t)], ..Default::default() }));
    }
    out
}
fn backend<const K: usize>(mut c: ResMut<Calls>, v: Res<Value>, q: Query<&Thing>) -> Vec<(GlobalTransform, TriMesh)> {
    c.0[K] += 1;
    let mut t: Vec<f32> = q.iter().map(|t| t.0).collect();
    t.sort_by(f32::total_cmp);
    answer(K, v.0, &t)
}
/// A source with memory: says how often this registration has been asked.
fn counting(mut n: Local<u32>, mut c: ResMut<Calls>) -> Vec<(GlobalTransform, TriMesh)> {
    *n += 1;
    c.0[2] += 1;
    answer(2, *n as f32, &[])
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Register(usize),
    Consult,
    ConsultCopy,
    Edit,
    Spawn,
    Update,
}
const OPS: [Op; 8] = [Op::Register(0), Op::Register(1), Op::Register(2), Op::Consult, Op::ConsultCopy, Op::Edit, Op::Spawn, Op::Update];

fn sources(depth: u32) -> Space {
    let dec = move |i| {
        let mut d = Dec(i);
        (0..depth).map(|_| *d.pick(&OPS)).collect::<Vec<_>>()
    };
    Space::new(format!("sources-{depth}"), 8u64.pow(depth), move |i| format!("{:?}", dec(i)), move |i, l| {
        let mut app = App::empty();
        app.init_resource::<Calls>().insert_resource(Value(0.0));
        if app.world().get_resource::<NavmeshAffectorBackend>().is_some() {
            return Err("a geometry source before any was registered".into());
        }
        let mut current: Option<usize> = None;
        let mut memory = 0u32;
        let mut calls = [0u32; 3];
        let mut value = 0.0f32;
        let mut things: Vec<f32> = vec![];
        for op in dec(i) {
            l.step();
            match op {
                Op::Register(k) => {
                    match k {
                        0 => app.set_navmesh_affector_backend(backend::<0>),
                        1 => app.set_navmesh_affector_backend(backend::<1>),
                        _ => app.set_navmesh_affector_backend(counting),
                    };
                    current = Some(k);
                    memory = 0;
                }
                Op::Consult | Op::ConsultCopy => {
                    let r = app.world().get_resource::<NavmeshAffectorBackend>().cloned();
                    if r.is_some() != current.is_some() {
                        return Err(format!("a geometry source is {}available, although {current:?} was registered", if r.is_some() { "" } else { "not " }));
                    }
                    let (Some(id), Some(k)) = (r, current) else { continue };
                    let got = if matches!(op, Op::Consult) {
                        app.world_mut().run_system(*id)
                    } else {
                        // from within another system, as the editor request does
                        app.world_mut().run_system_once(|w: &mut World| {
                            let id = w.resource::<NavmeshAffectorBackend>().clone();
                            w.run_system(*id)
                        })
                        .map_err(|e| e.to_string())?
                    }
                    .map_err(|e| format!("source {k} does not run: {e}"))?;
                    calls[k] += 1;
                    memory += 1;
                    let want = if k == 2 { answer(2, memory as f32, &[]) } else { answer(k, value, &things) };
                    l.nontrivial += 1;
                    crate::scene::same_items(&format!("source {k}"), &got, &want)?;
                }
                Op::Edit => {
                    value += 1.0;
                    app.world_mut().resource_mut::<Value>().0 = value;
                }
                Op::Spawn => {
                    let x = 10.0 + things.len() as f32;
                    things.push(x);
                    app.world_mut().spawn(Thing(x));
                }
                Op::Update => app.update(),
            }
            let c = app.world().resource::<Calls>().0;
            if c != calls {
                return Err(format!("after {op:?}: sources were consulted {c:?} times, expected {calls:?}"));
            }
        }
        l.trace();
        l.state(i);
        Ok(())
    })
}

#[derive(Clone, Copy, Debug)]
enum Req {
    Generate,
    GenerateTwice,
    DropFirst,
    DropAll,
    Fill,
    AddOther,
    Remove,
    Update,
}
const REQS: [Req; 8] = [Req::Generate, Req::GenerateTwice, Req::DropFirst, Req::DropAll, Req::Fill, Req::AddOther, Req::Remove, Req::Update];

fn config() -> NavmeshConfig {
    NavmeshConfigBuilder::default().build()
}

struct Marker;
fn requests(depth: u32) -> Space {
    let dec = move |i| {
        let mut d = Dec(i);
        (0..depth).map(|_| *d.pick(&REQS)).collect::<Vec<_>>()
    };
    Space::new(format!("requests-{depth}"), 8u64.pow(depth), move |i| format!("{:?}", dec(i)), move |i, l| {
        let mut app = App::new();
        app.add_plugins((bevy_app::TaskPoolPlugin::default(), AssetPlugin::default(), RerecastPlugin::default()));
        let mut ever: HashSet<AssetId<Navmesh>> = HashSet::new();
        let mut held: Vec<(Handle<Navmesh>, bool)> = vec![];
        for op in dec(i) {
            l.step();
            let n = match op {
                Req::Generate => 1,
                Req::GenerateTwice => 2,
                _ => 0,
            };
            if n > 0 {
                let hs: Vec<Handle<Navmesh>> = app.world_mut().run_system_once(move |mut g: NavmeshGenerator<Marker>| (0..n).map(|_| g.generate(config())).collect()).map_err(|e| e.to_string())?;
                for h in hs {
                    if !ever.insert(h.id()) {
                        return Err(format!("a request was given the handle {:?} of an earlier navmesh", h.id()));
                    }
                    if h.is_weak() {
                        return Err("a request was given a handle that does not keep its navmesh".into());
                    }
                    if app.world().resource::<Assets<Navmesh>>().get(&h).is_some() {
                        return Err("a new request already has a navmesh".into());
                    }
                    l.nontrivial += 1;
                    held.push((h, false));
                }
            }
            match op {
                Req::DropFirst if !held.is_empty() => drop(held.remove(0)),
                Req::DropAll => held.clear(),
                Req::Fill => {
                    if let Some((h, f)) = held.iter_mut().find(|h| !h.1) {
                        app.world_mut().resource_mut::<Assets<Navmesh>>().insert(h.id(), Navmesh::default());
                        *f = true;
                    }
                }
                Req::AddOther => {
                    let h = app.world_mut().resource_mut::<Assets<Navmesh>>().add(Navmesh::default());
                    if !ever.insert(h.id()) {
                        return Err(format!("an added navmesh was given the handle {:?} of an earlier request", h.id()));
                    }
                    held.push((h, true));
                }
                Req::Remove => {
                    if let Some((h, f)) = held.iter_mut().find(|h| h.1) {
                        app.world_mut().resource_mut::<Assets<Navmesh>>().remove(h.id());
                        *f = false;
                    }
                }
                Req::Update => app.update(),
                _ => {}
            }
            for (h, f) in &held {
                if app.world().resource::<Assets<Navmesh>>().get(h).is_some() != *f {
                    return Err(format!("after {op:?}: navmesh of {:?} is {}there", h.id(), if *f { "not " } else { "" }));
                }
            }
        }
        l.trace();
        l.state(i ^ 1 << 60);
        Ok(())
    })
}

fn spaces(t: Tier) -> Vec<Space> {
    vec![sources(t.pick(5, 6)), requests(t.pick(3, 5)), requests(t.pick(4, 6))]
}
