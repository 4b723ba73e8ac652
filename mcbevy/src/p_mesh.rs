//! C23: render meshes become obstacle geometry.
use crate::fw::{Dec, Property, R, Space, Tier};
use crate::scene::*;
use bevy_app::prelude::*;
use bevy_asset::prelude::*;
use bevy_asset::RenderAssetUsages;
use bevy_ecs::prelude::*;
use bevy_mesh::{Indices, Mesh, MeshVertexAttribute, PrimitiveTopology, VertexAttributeValues};
use bevy_render::mesh::Mesh3d;
use bevy_rerecast_core::{Mesh3dNavmeshPlugin, TriMeshFromBevyMesh};
use bevy_transform::prelude::GlobalTransform;
use glam::{UVec3, Vec3A};
use rerecast::{AreaType, TriMesh};
use wgpu_types::VertexFormat;

pub fn property() -> Property {
    Property {
        id: "C23",
        spaces,
        assumptions: &["indices refer to existing vertices", "the order of contributions of different objects is not specified"],
    }
}

const TOPO: [PrimitiveTopology; 5] = [PrimitiveTopology::TriangleList, PrimitiveTopology::TriangleStrip, PrimitiveTopology::LineList, PrimitiveTopology::LineStrip, PrimitiveTopology::PointList];
const POS: [[f32; 3]; 5] = [[0.0, 0.25, -0.0], [1.5, -2.0, 3.0], [-4.0, 1e-30, 7.0], [f32::MAX, 8.0, -1e-3], [0.1, 0.2, 0.3]];

#[derive(Clone, Copy, Debug)]
enum PosKind {
    None,
    F3,
    F4,
    F2,
    I3,
}

fn set_positions(m: &mut Mesh, k: PosKind, n: usize) {
    let p = &POS[..n];
    match k {
        PosKind::None => {}
        PosKind::F3 => m.insert_attribute(Mesh::ATTRIBUTE_POSITION, p.to_vec()),
        PosKind::F4 => m.insert_attribute(MeshVertexAttribute::new("Vertex_Position", 0, VertexFormat::Float32x4), p.iter().map(|v| [v[0], v[1], v[2], 1.0]).collect::<Vec<_>>()),
        PosKind::F2 => m.insert_attribute(MeshVertexAttribute::new("Vertex_Position", 0, VertexFormat::Float32x2), p.iter().map(|v| [v[0], v[1]]).collect::<Vec<_>>()),
        PosKind::I3 => m.insert_attribute(MeshVertexAttribute::new("Vertex_Position", 0, VertexFormat::Sint32x3), VertexAttributeValues::Sint32x3(p.iter().map(|v| [v[0] as i32, 1, 2]).collect())),
    }
}

/// The index sequence with the given rank among all sequences over `n` vertices of length <= max.
fn sequence(mut i: u64, n: u64, max: u32) -> Vec<u32> {
    for len in 0..=max {
        let c = n.pow(len);
        if i < c {
            let mut d = Dec(i);
            return (0..len).map(|_| d.take(n) as u32).collect();
        }
        i -= c;
    }
    unreachable!()
}
fn sequences(n: u64, max: u32) -> u64 {
    (0..=max).map(|l| n.pow(l)).sum()
}

struct MeshCase {
    topo: PrimitiveTopology,
    pos: PosKind,
    n: usize,
    width: u64,
    idx: Vec<u32>,
    extra: bool,
}
fn mesh_case(i: u64, n: u64, max: u32) -> MeshCase {
    let mut d = Dec(i);
    let topo = *d.pick(&TOPO);
    let pos = *d.pick(&[PosKind::F3, PosKind::None, PosKind::F4, PosKind::F2, PosKind::I3]);
    let width = d.take(3);
    let extra = d.take(2) == 1;
    MeshCase { topo, pos, n: n as usize, width, idx: sequence(d.0, n, max), extra }
}
impl MeshCase {
    fn show(&self) -> String {
        format!("{:?}, positions {:?} x {}, {} indices {:?}, other attributes: {}", self.topo, self.pos, self.n, ["16-bit", "32-bit", "no"][self.width as usize], self.idx, self.extra)
    }
    fn build(&self) -> Mesh {
        let mut m = Mesh::new(self.topo, RenderAssetUsages::all());
        set_positions(&mut m, self.pos, self.n);
        if self.extra {
            m.insert_attribute(Mesh::ATTRIBUTE_NORMAL, vec![[0.0f32, -1.0, 0.0]; self.n]);
            m.insert_attribute(Mesh::ATTRIBUTE_UV_0, vec![[0.5f32, 9.0]; self.n]);
            m.insert_attribute(Mesh::ATTRIBUTE_COLOR, vec![[0.5f32, 9.0, 1.0, 2.0]; self.n]);
        }
        match self.width {
            0 => m.insert_indices(Indices::U16(self.idx.iter().map(|&x| x as u16).collect())),
            1 => m.insert_indices(Indices::U32(self.idx.clone())),
            _ => {}
        }
        m
    }
    /// What the mesh must contribute.
    fn expected(&self) -> Option<TriMesh> {
        if self.topo != PrimitiveTopology::TriangleList || !matches!(self.pos, PosKind::F3) || self.width == 2 || self.idx.len() % 3 != 0 {
            return None;
        }
        let mut t = TriMesh::default();
        for p in &POS[..self.n] {
            t.vertices.push(Vec3A::new(p[0], p[1], p[2]));
        }
        for k in 0..self.idx.len() / 3 {
            t.indices.push(UVec3::new(self.idx[3 * k], self.idx[3 * k + 1], self.idx[3 * k + 2]));
            t.area_types.push(AreaType::NOT_WALKABLE);
        }
        Some(t)
    }
}

/// The triangles of a mesh as corner positions: what the mesh contributes, irrespective of numbering.
fn corners(t: &TriMesh) -> Result<Vec<[[u32; 3]; 3]>, String> {
    if t.area_types.len() != t.indices.len() {
        return Err(format!("{} areas for {} triangles", t.area_types.len(), t.indices.len()));
    }
    if t.area_types.iter().any(|a| *a != AreaType::NOT_WALKABLE) {
        return Err("a triangle starts out walkable".into());
    }
    t.indices
        .iter()
        .map(|i| {
            let mut c = [[0u32; 3]; 3];
            for (k, v) in i.to_array().iter().enumerate() {
                let p = t.vertices.get(*v as usize).ok_or(format!("index {v} out of range"))?;
                c[k] = [p.x.to_bits(), p.y.to_bits(), p.z.to_bits()];
            }
            Ok(c)
        })
        .collect()
}
fn same_mesh(got: &Option<TriMesh>, want: &Option<TriMesh>) -> R {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(_), None) => Err(format!("not an indexed triangle list, yet contributes {got:?}")),
        (None, Some(_)) => Err("a triangle list contributes nothing".into()),
        (Some(g), Some(w)) => {
            if corners(g)? != corners(w)? {
                return Err(format!("triangles {g:?} instead of {w:?}"));
            }
            Ok(())
        }
    }
}

fn conversion_space(name: &str, n: u64, max: u32) -> Space {
    let size = 5 * 5 * 3 * 2 * sequences(n, max);
    Space::new(name, size, move |i| mesh_case(i, n, max).show(), move |i, l| {
        let c = mesh_case(i, n, max);
        let mesh = c.build();
        let got = TriMesh::from_mesh(&mesh);
        l.step();
        l.trace();
        let want = c.expected();
        if want.as_ref().is_some_and(|w| !w.indices.is_empty()) {
            l.nontrivial += 1;
        }
        l.state(i);
        same_mesh(&got, &want)
    })
}

/// Meshes with more vertices than a 16-bit index can name.
fn large_space(t: Tier) -> Space {
    let sizes: Vec<usize> = t.pick(vec![255, 256, 257, 65534, 65535, 65536, 65537, 70000], vec![255, 256, 257, 65534, 65535, 65536, 65537, 70000, 131073]);
    let n = sizes.len() as u64 * 2;
    let sz = sizes.clone();
    Space::new("large", n, move |i| format!("{} vertices, {} indices", sizes[(i / 2) as usize], ["32-bit", "16-bit"][(i % 2) as usize]), move |i, l| {
        let nv = sz[(i / 2) as usize];
        let pos: Vec<[f32; 3]> = (0..nv).map(|k| [k as f32, (k % 7) as f32, (k / 3) as f32]).collect();
        let mut idx: Vec<u32> = vec![];
        let top = if i % 2 == 1 { nv.min(65536) } else { nv };
        for k in 0..top as u32 {
            idx.extend([k, (k + 1) % top as u32, (k * 7 + 3) % top as u32]);
        }
        let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
        m.insert_attribute(Mesh::ATTRIBUTE_POSITION, pos.clone());
        if i % 2 == 1 {
            m.insert_indices(Indices::U16(idx.iter().map(|&x| x as u16).collect()));
        } else {
            m.insert_indices(Indices::U32(idx.clone()));
        }
        let want = TriMesh {
            vertices: pos.iter().map(|p| Vec3A::from_array(*p)).collect(),
            indices: idx.chunks(3).map(|c| UVec3::new(c[0], c[1], c[2])).collect(),
            area_types: vec![AreaType::NOT_WALKABLE; idx.len() / 3],
        };
        l.step();
        l.trace();
        l.nontrivial += 1;
        l.state(i);
        let got = TriMesh::from_mesh(&m);
        match (&got, &want) {
            (Some(g), w) if corners(g)? == corners(w)? => Ok(()),
            _ => Err("the triangles of a large mesh differ".into()),
        }
    })
}

// ---- worlds -------------------------------------------------------------------------------

pub fn tri(k: usize) -> Mesh {
    let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
    m.insert_attribute(Mesh::ATTRIBUTE_POSITION, vec![[k as f32, 0.0, 0.0], [0.0, k as f32 + 0.5, 1.0], [2.0, 0.0, -1.0 - k as f32]]);
    if k % 2 == 0 {
        m.insert_indices(Indices::U32(vec![0, 1, 2]));
    } else {
        m.insert_indices(Indices::U16(vec![2, 0, 1, 0, 1, 2]));
    }
    m
}
fn tri_expected(k: usize) -> TriMesh {
    let idx: Vec<u32> = if k % 2 == 0 { vec![0, 1, 2] } else { vec![2, 0, 1, 0, 1, 2] };
    TriMesh {
        vertices: vec![Vec3A::new(k as f32, 0.0, 0.0), Vec3A::new(0.0, k as f32 + 0.5, 1.0), Vec3A::new(2.0, 0.0, -1.0 - k as f32)],
        indices: idx.chunks(3).map(|c| UVec3::new(c[0], c[1], c[2])).collect(),
        area_types: vec![AreaType::NOT_WALKABLE; idx.len() / 3],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Asset {
    Tri(usize),
    Lines,
    Unindexed,
    Missing,
}
struct Fix {
    app: App,
    handles: Vec<Handle<Mesh>>,
    assets: Vec<Asset>,
}
fn put(app: &mut App, h: &Handle<Mesh>, a: Asset) {
    let mut ms = app.world_mut().resource_mut::<Assets<Mesh>>();
    match a {
        Asset::Tri(k) => {
            ms.insert(h, tri(k));
        }
        Asset::Lines => {
            let mut m = tri(0);
            let mut n = Mesh::new(PrimitiveTopology::LineList, RenderAssetUsages::all());
            n.insert_attribute(Mesh::ATTRIBUTE_POSITION, m.remove_attribute(Mesh::ATTRIBUTE_POSITION).unwrap());
            n.insert_indices(Indices::U32(vec![0, 1, 2]));
            ms.insert(h, n);
        }
        Asset::Unindexed => {
            let mut m = tri(1);
            m.remove_indices();
            ms.insert(h, m);
        }
        Asset::Missing => {
            ms.remove(h);
        }
    }
}
impl Fix {
    fn new(assets: &[Asset]) -> Fix {
        let mut app = App::empty();
        app.insert_resource(Assets::<Mesh>::default());
        app.add_plugins(Mesh3dNavmeshPlugin::default());
        let handles: Vec<_> = assets.iter().map(|_| app.world().resource::<Assets<Mesh>>().reserve_handle()).collect();
        for (h, a) in handles.iter().zip(assets) {
            put(&mut app, h, *a);
        }
        Fix { app, handles, assets: assets.to_vec() }
    }
    fn expected(&self, objs: &[Obj]) -> Vec<Item> {
        let ts = transforms();
        objs.iter()
            .filter_map(|o| {
                let t = ts[o.place?];
                match self.assets[o.mesh?] {
                    Asset::Tri(k) => Some((t, tri_expected(k))),
                    _ => None,
                }
            })
            .collect()
    }
}
#[derive(Clone, Copy, Debug)]
struct Obj {
    mesh: Option<usize>,
    place: Option<usize>,
}
fn spawn(w: &mut World, f: &[Handle<Mesh>], o: Obj) -> Entity {
    let mut e = w.spawn_empty();
    if let Some(m) = o.mesh {
        e.insert(Mesh3d(f[m].clone()));
    }
    if let Some(p) = o.place {
        e.insert(transforms()[p]);
    } else {
        e.remove::<GlobalTransform>();
    }
    e.id()
}

const ASSETS: [Asset; 5] = [Asset::Tri(0), Asset::Tri(1), Asset::Lines, Asset::Unindexed, Asset::Missing];
fn obj(d: &mut Dec) -> Obj {
    let mesh = d.take(6);
    let place = d.take(5);
    Obj { mesh: (mesh < 5).then_some(mesh as usize), place: (place < 4).then_some(place as usize) }
}
fn worlds(n: u32) -> Space {
    let dec = move |i| {
        let mut d = Dec(i);
        (0..n).map(|_| obj(&mut d)).collect::<Vec<_>>()
    };
    Space::new(format!("worlds-{n}"), 30u64.pow(n), move |i| format!("assets {ASSETS:?}; objects {:?}", dec(i)), move |i, l| {
        let objs = dec(i);
        let mut f = Fix::new(&ASSETS);
        for o in &objs {
            spawn(f.app.world_mut(), &f.handles, *o);
        }
        let want = f.expected(&objs);
        let got = run_backend(f.app.world_mut())?;
        l.steps(n as u64 + 1);
        l.trace();
        l.state(i ^ (n as u64) << 50);
        if !want.is_empty() {
            l.nontrivial += 1;
        }
        same_items("mesh backend", &got, &want)
    })
}

/// Histories of edits; the source is consulted after every one.
#[derive(Clone, Copy, Debug)]
enum Op {
    Spawn(usize, usize),
    Despawn(usize),
    Move(usize, usize),
    Change(usize, usize),
    Asset(usize, Asset),
    Unmesh(usize),
}
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for m in 0..2 {
        for p in 0..2 {
            v.push(Op::Spawn(m, p));
        }
    }
    for k in 0..2 {
        v.extend([Op::Despawn(k), Op::Move(k, 2), Op::Change(k, 1), Op::Unmesh(k)]);
        v.extend([Op::Asset(k, Asset::Missing), Op::Asset(k, Asset::Lines), Op::Asset(k, Asset::Tri(2 + k))]);
    }
    v
}
fn histories(depth: u32) -> Space {
    let o = ops();
    let n = o.len() as u64;
    let o2 = o.clone();
    let dec = move |i, o: &[Op]| {
        let mut d = Dec(i);
        (0..depth).map(|_| *d.pick(o)).collect::<Vec<_>>()
    };
    Space::new(format!("edits-{depth}"), n.pow(depth), move |i| format!("{:?}", dec(i, &o)), move |i, l| {
        let mut f = Fix::new(&[Asset::Tri(0), Asset::Missing]);
        let mut objs: Vec<Obj> = vec![];
        let mut ents: Vec<Entity> = vec![];
        for op in dec(i, &o2) {
            let w = f.app.world_mut();
            match op {
                Op::Spawn(m, p) => {
                    let o = Obj { mesh: Some(m), place: Some(p) };
                    ents.push(spawn(w, &f.handles, o));
                    objs.push(o);
                }
                Op::Despawn(k) if k < ents.len() => {
                    w.despawn(ents.remove(k));
                    objs.remove(k);
                }
                Op::Move(k, p) if k < ents.len() => {
                    w.entity_mut(ents[k]).insert(transforms()[p]);
                    objs[k].place = Some(p);
                }
                Op::Change(k, m) if k < ents.len() => {
                    w.entity_mut(ents[k]).insert(Mesh3d(f.handles[m].clone()));
                    objs[k].mesh = Some(m);
                }
                Op::Unmesh(k) if k < ents.len() => {
                    w.entity_mut(ents[k]).remove::<Mesh3d>();
                    objs[k].mesh = None;
                }
                Op::Asset(k, a) => {
                    let h = f.handles[k].clone();
                    put(&mut f.app, &h, a);
                    f.assets[k] = a;
                }
                _ => continue,
            }
            let want = f.expected(&objs);
            l.step();
            let got = run_backend(f.app.world_mut())?;
            same_items(&format!("after {op:?}"), &got, &want)?;
            if !want.is_empty() {
                l.nontrivial += 1;
            }
        }
        l.trace();
        l.state(i ^ (depth as u64) << 50);
        Ok(())
    })
}

fn spaces(t: Tier) -> Vec<Space> {
    let mut v = vec![conversion_space("conversions-3", 3, t.pick(6, 9)), conversion_space("conversions-5", 5, t.pick(4, 6)), large_space(t), worlds(1), worlds(2), histories(t.pick(3, 4))];
    if t.thorough() {
        v.push(worlds(3));
        v.push(histories(5));
    } else {
        v.push(histories(4));
    }
    v
}
