from mkseed import mkseed
import re
H="crates/rerecast/src/"
PRE=re.search(r"PRE='''(.*?)'''",open(__file__.replace('seeds2','seeds1')).read(),re.S).group(1)
PLAN=PRE+'''
/// floor plan: '.' floor, '#' nothing, letters a.. floor with area 1.., digits: floor at that height
#[allow(dead_code)]
fn plan(p: &[&str], h: u16, c: u16) -> CompactHeightfield {
    let (w, d) = (p[0].len() as u16, p.len() as u16);
    let p: Vec<Vec<u8>> = p.iter().map(|r| r.bytes().collect()).collect();
    columns(w, d, |x, z| match p[z as usize][x as usize] { b'.' => vec![(0, 1, 63)], b'#' => vec![], k @ b'0'..=b'9' => vec![(0, 1 + (k - b'0') as u16, 63)], k => vec![(0, 1, k - b'a' + 1)] }).into_compact(h, c).unwrap()
}
'''
# the demo runs as an extra integration test of one workspace crate, in a copy of the sources
WS='''#!/bin/bash
# Runs test.rs as an integration test of CRATE in a scratch copy of the sources.
D=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
cp -r "$REPO/Cargo.toml" "$REPO/Cargo.lock" "$REPO/crates" "$REPO/scenes" "$REPO"/*.md "$T/" || exit 3
mkdir -p "$T/crates/CRATE/tests" && cp "$D/test.rs" "$T/crates/CRATE/tests/planted_demo.rs" || exit 3
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
mkdir "$T/target"; export CARGO_TARGET_DIR="$REPO/target"
cd "$T" || exit 3
cargo test -q --workspace --all-features --features bevy/x11 --offline --test planted_demo --no-run >"$T/log" 2>&1 || { tail -n 30 "$T/log"; exit 3; }
timeout 100 cargo test -q --workspace --all-features --features bevy/x11 --offline --test planted_demo
'''
def ws(id,prop,crate,edits,needs,breaks,test):
    mkseed(id,prop,edits,needs,breaks,test,demo_sh=WS.replace('CRATE',crate))
    import os
    os.rename(f'/verif/seeded/{id}/main.rs',f'/verif/seeded/{id}/test.rs')

mkseed("c04-high-floors","C04",[(H+"pre_filter.rs","const MAX_HEIGHTFIELD_HEIGHT: u16 = u16::MAX;","const MAX_HEIGHTFIELD_HEIGHT: u16 = i16::MAX as u16;")],
"floors more than 32767 voxels above the bottom of the field (a tall scene with thin voxels)",
"such floors lose their walkability although nothing is above them",
PRE+'''fn main() {
    let mut hf = HeightfieldBuilder { aabb: Aabb3d { min: glam::Vec3::ZERO, max: glam::Vec3::new(3.0, 40000.0, 3.0) }, cell_size: 1.0, cell_height: 1.0 }.build().unwrap();
    for z in 0..3 { for x in 0..3 { slab(&mut hf, x as f32, z as f32, 33000.0, 33008.0, 63, 1); } }
    hf.filter_walkable_low_height_spans(4);
    println!("{:?}", column(&hf, 1, 1));
    assert!(column(&hf, 1, 1)[0].2 == 63);
}
''')
mkseed("c07-range-top","C07",[(H+"mark_convex_poly_area.rs","(span.y as i32) > max.y","(span.y as i32) >= max.y")],
"a floor exactly at the upper end of a volume's vertical range",
"that floor keeps its area",
PLAN+'''fn main() {
    let mut chf = plan(&["...", "...", "..."], 2, 1);
    chf.mark_convex_poly_area(ConvexVolume { vertices: vec![Vec2::new(0.0, 0.0), Vec2::new(3.0, 0.0), Vec2::new(3.0, 3.0), Vec2::new(0.0, 3.0)], min_y: 0.0, max_y: 1.5, area: AreaType(5) });
    assert_eq!(chf.spans[0].y, 1);
    for a in &chf.areas { assert_eq!(a.0, 5); }
}
''')
mkseed("c14-vertex-limit","C14",[(H+"detail_mesh.rs","""            if *nverts >= DetailNavmesh::MAX_VERTICES_PER_SUBMESH {
                break;""","""            if *nverts > DetailNavmesh::MAX_VERTICES_PER_SUBMESH {
                break;""")],
"a large polygon over ground so rough that all permitted vertices are used up",
"the sub-mesh gets one vertex more than the documented limit",
PRE+'''fn main() {
    let n = 40u16;
    // one region: gentle bumps, steps of 2
    let hf = columns(n, n, |x, z| vec![(0, 2 + 2 * (((x * 7 + z * 13) / 3) % 3), 63)]);
    let mut chf = hf.into_compact(2, 5).unwrap();
    chf.build_distance_field();
    chf.build_regions(0, 0, 60000).unwrap();
    let cs = chf.build_contours(20.0, 0, BuildContoursFlags::empty());
    let mesh = cs.into_polygon_mesh(6).unwrap();
    let d = DetailNavmesh::new(&mesh, &chf, 1.0, 0.1).unwrap();
    let m = d.meshes.iter().map(|m| m.vertex_count).max().unwrap();
    println!("{} polygons, at most {m} vertices", mesh.polygon_count());
    assert!(m > 100, "not enough vertices for the demonstration");
    assert!(m as usize <= DetailNavmesh::MAX_VERTICES_PER_SUBMESH);
}
''')
mkseed("c19-no-distances","C19",[(H+"compact_heightfield.rs","""    /// Vector containing border distance data. [Size: `spans.len()`]
    pub dist: Vec<u16>,""","""    /// Vector containing border distance data. [Size: `spans.len()`]
    #[cfg_attr(feature = "serialize", serde(default, skip_serializing_if = "Vec::is_empty"))]
    pub dist: Vec<u16>,""")],
"a compact heightfield without distances yet (before build_distance_field), written in a binary format",
"the field cannot be read back (text formats still work)",
PLAN+'''fn main() {
    let chf = plan(&["...", "...", "..."], 2, 1);
    let b = bincode::serde::encode_to_vec(&chf, bincode::config::standard()).unwrap();
    let back: CompactHeightfield = bincode::serde::decode_from_slice(&b, bincode::config::standard()).expect("reads back").0;
    assert_eq!(back.areas, chf.areas);
    assert_eq!(back.dist, chf.dist);
    assert_eq!(back.spans, chf.spans);
}
''',features=', features = ["serialize"]',deps='glam = "*"\nbincode = { version = "2", features = ["serde"] }')
mkseed("c17-absolute-top","C17",[(H+"rasterize.rs","let by = self.aabb.max[1] - self.aabb.min[1];","let by = self.aabb.max[1];")],
"a scene that extends below height zero (any scene moved down)",
"the upper part of the scene is cut off: the same scene yields another navmesh at another height",
PRE+'''fn top(shift: f32) -> Vec<(u16, u16, u8)> {
    let mut hf = HeightfieldBuilder { aabb: Aabb3d { min: glam::Vec3::new(0.0, shift, 0.0), max: glam::Vec3::new(1.0, shift + 8.0, 1.0) }, cell_size: 1.0, cell_height: 1.0 }.build().unwrap();
    slab(&mut hf, 0.0, 0.0, shift + 1.25, shift + 5.75, 63, 1);
    column(&hf, 0, 0)
}
fn main() {
    for s in -12..12 { assert_eq!(top(s as f32), top(0.0), "shift {s}"); }
}
''')
mkseed("c16-flat-scene","C16",[(H+"math.rs","self.min.cmple(other.max).all() && self.max.cmpge(other.min).all()","self.min.cmplt(other.max).all() && self.max.cmpgt(other.min).all()")],
"a completely flat scene (all triangles at one height, bounds without thickness)",
"nothing is voxelised, the navmesh is empty",
PRE+'''fn main() {
    let mut m = TriMesh { vertices: [[0.0, 1.0, 0.0], [0.0, 1.0, 10.0], [10.0, 1.0, 10.0], [10.0, 1.0, 0.0]].iter().map(|v: &[f32; 3]| Vec3A::from(*v)).collect(), indices: vec![UVec3::new(0, 1, 2), UVec3::new(0, 2, 3)], area_types: vec![AreaType(0); 2] };
    m.mark_walkable_triangles(0.8);
    let mut hf = HeightfieldBuilder { aabb: m.compute_aabb().unwrap(), cell_size: 1.0, cell_height: 1.0 }.build().unwrap();
    hf.populate_from_trimesh(m, 3, 1).unwrap();
    let mut chf = hf.into_compact(3, 1).unwrap();
    chf.erode_walkable_area(1);
    chf.build_distance_field();
    chf.build_regions(0, 1, 1).unwrap();
    let n = chf.build_contours(1.0, 0, BuildContoursFlags::empty()).into_polygon_mesh(6).unwrap().polygon_count();
    assert!(n > 0);
}
''')
mkseed("c18-corner-portal","C18",[(H+"poly_mesh.rs","""                    let nj = j + 1;
                    let nj = if nj >= nvp || p[nj] == PolygonNavmesh::NO_INDEX {
                        0
                    } else {
                        nj
                    };
                    let va""","""                    let nj = j + 1;
                    if nj >= nvp {
                        continue;
                    }
                    let nj = if p[nj] == PolygonNavmesh::NO_INDEX {
                        0
                    } else {
                        nj
                    };
                    let va""")],
"a polygon with the maximum number of corners whose closing edge lies on the tile's boundary",
"that edge is not marked as a portal: the neighbouring tile cannot be reached there",
PLAN+'''fn main() {
    // every boundary edge must be a portal
    for nvp in 3..=6 {
        let mut chf = plan(&["........", "........", "........", "........", "........", "........", "........", "........"], 2, 1);
        chf.build_distance_field();
        chf.build_regions(2, 0, 0).unwrap();
        let cs = chf.build_contours(1.0, 0, BuildContoursFlags::empty());
        let mesh = cs.into_polygon_mesh(nvp).unwrap();
        let n = nvp as usize;
        let mut portals = 0;
        for p in 0..mesh.polygon_count() {
            let v: Vec<u16> = mesh.polygons[p * n..][..n].iter().copied().take_while(|v| *v != PolygonNavmesh::NO_INDEX).collect();
            for j in 0..v.len() {
                let (a, b) = (mesh.vertices[v[j] as usize], mesh.vertices[v[(j + 1) % v.len()] as usize]);
                let on = (a.x == 0 && b.x == 0) || (a.z == 0 && b.z == 0) || (a.x == 4 && b.x == 4) || (a.z == 4 && b.z == 4);
                let c = mesh.polygon_neighbors[p * n + j];
                if on { portals += 1; assert!(c & 0x8000 != 0 && c != 0xffff, "nvp {nvp}: edge {a:?} {b:?} of polygon {p} has {c:#x}"); }
            }
        }
        println!("{portals} portals");
        assert!(portals >= 4);
    }
}
''')
I="crates/bevy_rerecast_editor_integration/src/"
ws("c20-short-tangents","C20","bevy_rerecast_editor_integration",[(I+"transmission/serialized_mesh.rs","""            Mesh::ATTRIBUTE_TANGENT,
            Mesh::ATTRIBUTE_COLOR,
            Mesh::ATTRIBUTE_JOINT_WEIGHT,
            Mesh::ATTRIBUTE_JOINT_INDEX,""","""            Mesh::ATTRIBUTE_TANGENT,
            Mesh::ATTRIBUTE_JOINT_WEIGHT,
            Mesh::ATTRIBUTE_JOINT_INDEX,""")],
"a mesh with vertex colours","vertex colours are lost on the way to the editor",
'''use bevy_rerecast_editor_integration::transmission::*;
use bevy_render::mesh::{Mesh, PrimitiveTopology};
use bevy_asset::RenderAssetUsages;
#[test]
fn colours_arrive() {
    let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
    m.insert_attribute(Mesh::ATTRIBUTE_POSITION, vec![[0.0f32, 1.0, 2.0]; 3]);
    m.insert_attribute(Mesh::ATTRIBUTE_COLOR, vec![[0.0f32, 1.0, 0.5, 1.0]; 3]);
    let v = serialize(&SerializedMesh::from_mesh(&m)).unwrap();
    let back = deserialize::<SerializedMesh>(&v).unwrap().into_mesh();
    assert_eq!(back.attribute(Mesh::ATTRIBUTE_COLOR).map(|v| v.len()), Some(3));
    assert_eq!(back.attribute(Mesh::ATTRIBUTE_POSITION).map(|v| v.len()), Some(3));
}
''')
ws("c20-failed-texture","C20","bevy_rerecast_editor_integration",[(I+"transmission/serialized_standard_material.rs","""                        let Some(image) = images.get(&image_handle) else {
                            return Err(SerializedStandardMaterialError::ImageNotFound(name));
                        };
                        let index = cache.len() as u32;
                        cache.push(SerializedImage::from_image(image.clone()));
                        indices.insert(image_handle, index);
                        index""","""                        let index = cache.len() as u32;
                        let image = images.get(&image_handle);
                        indices.insert(image_handle, index);
                        let Some(image) = image else {
                            return Err(SerializedStandardMaterialError::ImageNotFound(name));
                        };
                        cache.push(SerializedImage::from_image(image.clone()));
                        index""")],
"two materials that use the same image which is not loaded, sent with one index map (the first fails, the second is then given a wrong image)",
"the second material is not refused; its texture points at another image or at none",
'''use bevy_rerecast_editor_integration::transmission::*;
use bevy_asset::{Assets, Handle, prelude::*};
use bevy_image::Image;
use bevy_pbr::StandardMaterial;
use bevy_platform::collections::HashMap;
#[test]
fn missing_images_stay_missing() {
    let mut images = Assets::<Image>::default();
    let gone: Handle<Image> = images.reserve_handle();
    let there: Handle<Image> = images.add(Image::default());
    let (mut idx, mut cache) = (HashMap::new(), Vec::new());
    let mut go = |h: &Handle<Image>| SerializedStandardMaterial::try_from_standard_material(StandardMaterial { base_color_texture: Some(h.clone()), ..Default::default() }, &mut idx, &images, &mut cache).is_ok();
    assert!(!go(&gone));
    assert!(go(&there));
    assert!(!go(&gone));
    assert_eq!(cache.len(), 1);
    assert_eq!(idx[&there], 0);
}
''')
ws("c21-cached-failure","C21","bevy_rerecast_editor_integration",[(I+"brp.rs","""                        Some(material) => {
                            let index = serialized_materials.len() as u32;
""","""                        Some(material) => {
                            let index = serialized_materials.len() as u32;
                            material_indices.insert(material_handle.0.clone(), index);
"""),(I+"brp.rs","""                                    serialized_materials.push(serialized_material);
                                    material_indices.insert(material_handle.0.clone(), index);
""","""                                    serialized_materials.push(serialized_material);
""")],
"two visible objects sharing a material one of whose textures is not loaded",
"the second object refers to a material entry that does not exist or belongs to another material",
'''use bevy_app::prelude::*;
use bevy_asset::prelude::*;
use bevy_ecs::prelude::*;
use bevy_image::Image;
use bevy_pbr::{MeshMaterial3d, StandardMaterial};
use bevy_remote::{RemoteMethodSystemId, RemoteMethods};
use bevy_render::mesh::{Mesh, Mesh3d, PrimitiveTopology};
use bevy_render::view::InheritedVisibility;
use bevy_rerecast_core::NavmeshApp as _;
use bevy_rerecast_editor_integration::{RerecastEditorIntegrationPlugin, brp::*, transmission::*};
use bevy_transform::prelude::GlobalTransform;
use rerecast::TriMesh;
fn nothing() -> Vec<(GlobalTransform, TriMesh)> { vec![] }
#[test]
fn references_exist() {
    let mut app = App::new();
    app.add_plugins(bevy_asset::AssetPlugin::default()).init_asset::<Mesh>().init_asset::<Image>().init_asset::<StandardMaterial>().init_resource::<RemoteMethods>().add_plugins(RerecastEditorIntegrationPlugin::default());
    app.set_navmesh_affector_backend(nothing);
    app.update();
    let w = app.world_mut();
    let mesh = w.resource_mut::<Assets<Mesh>>().add(Mesh::new(PrimitiveTopology::TriangleList, bevy_asset::RenderAssetUsages::all()));
    let gone = w.resource_mut::<Assets<Image>>().reserve_handle();
    let mat = w.resource_mut::<Assets<StandardMaterial>>().add(StandardMaterial { base_color_texture: Some(gone), ..Default::default() });
    for _ in 0..2 { w.spawn((GlobalTransform::IDENTITY, Mesh3d(mesh.clone()), InheritedVisibility::VISIBLE, MeshMaterial3d(mat.clone()))); }
    let RemoteMethodSystemId::Instant(id) = w.resource::<RemoteMethods>().get(BRP_GET_NAVMESH_INPUT_METHOD).unwrap().clone() else { panic!() };
    let v = w.run_system_with(id, None).unwrap().unwrap();
    let r: NavmeshInputResponse = deserialize(&v).unwrap();
    assert_eq!(r.visual_meshes.len(), 2);
    for o in &r.visual_meshes { assert_eq!(o.material, None); assert!((o.mesh as usize) < r.meshes.len()); }
}
''')
A="crates/avian_rerecast/src/"
ws("c22-lost-parts","C22","avian_rerecast",[(A+"collider_to_trimesh.rs","                return compound_trimesh;\n","                return TriMesh::default();\n")],
"a compound collider in which an unsupported part (segment, polyline, half-space) follows supported ones",
"the parts before the unsupported one contribute nothing",
'''use avian3d::prelude::*;
use avian_rerecast::AvianRerecastPlugin;
use bevy::prelude::*;
use bevy_rerecast_core::NavmeshAffectorBackend;
#[test]
fn all_parts_count() {
    let mut app = App::new();
    app.add_plugins(AvianRerecastPlugin::default());
    let c = Collider::compound(vec![(Vec3::ZERO, Quat::IDENTITY, Collider::cuboid(1.0, 1.0, 1.0)), (Vec3::X, Quat::IDENTITY, Collider::segment(Vec3::ZERO, Vec3::Y))]);
    let b = app.world_mut().spawn(RigidBody::Static).id();
    app.world_mut().spawn((GlobalTransform::IDENTITY, c, ColliderOf { body: b }));
    let id = app.world().resource::<NavmeshAffectorBackend>().clone();
    let out = app.world_mut().run_system(*id).unwrap();
    assert_eq!(out.len(), 1);
    assert_eq!(out[0].1.indices.len(), 12);
}
''')
ws("c22-kinematic","C22","avian_rerecast",[(A+"lib.rs","if !body.is_static() {","if body.is_dynamic() {")],
"a kinematic body with a collider","a moving (kinematic) body contributes obstacle geometry",
'''use avian3d::prelude::*;
use avian_rerecast::AvianRerecastPlugin;
use bevy::prelude::*;
use bevy_rerecast_core::NavmeshAffectorBackend;
#[test]
fn only_static() {
    for (b, n) in [(RigidBody::Static, 1), (RigidBody::Dynamic, 0), (RigidBody::Kinematic, 0)] {
        let mut app = App::new();
        app.add_plugins(AvianRerecastPlugin::default());
        let b = app.world_mut().spawn(b).id();
        app.world_mut().spawn((GlobalTransform::IDENTITY, Collider::cuboid(1.0, 1.0, 1.0), ColliderOf { body: b }));
        let id = app.world().resource::<NavmeshAffectorBackend>().clone();
        assert_eq!(app.world_mut().run_system(*id).unwrap().len(), n);
    }
}
''')
C="crates/bevy_rerecast_core/src/"
ws("c23-many-vertices","C23","bevy_rerecast_editor_integration",[(C+"mesh.rs","UVec3::from_array([indices[0] as u32, indices[1] as u32, indices[2] as u32])","UVec3::from_array([indices[0], indices[1], indices[2]].map(|i| i as u16 as u32))")],
"a render mesh with more than 65536 vertices","triangles refer to wrong vertices",
'''use bevy_render::mesh::{Indices, Mesh, PrimitiveTopology};
use bevy_asset::RenderAssetUsages;
use bevy_rerecast_core::{TriMeshFromBevyMesh as _, rerecast::TriMesh};
#[test]
fn large_meshes() {
    let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
    m.insert_attribute(Mesh::ATTRIBUTE_POSITION, vec![[0.0f32, 1.0, 2.0]; 70000]);
    m.insert_indices(Indices::U32(vec![0, 69998, 69999]));
    let t = TriMesh::from_mesh(&m).unwrap();
    assert_eq!(t.indices[0].to_array(), [0, 69998, 69999]);
}
''')
ws("c24-same-request","C24","bevy_rerecast_core",[(C+"generator.rs","""        let handle = self.navmeshes.reserve_handle();
""","""        if let Some((handle, queued)) = self.queue.back()
            && format!("{queued:?}") == format!("{config:?}")
        {
            return handle.clone();
        }
        let handle = self.navmeshes.reserve_handle();
""")],
"two requests in a row with equal settings","the second request gets the first one's handle instead of a new one",
'''use bevy_app::prelude::*;
use bevy_asset::prelude::*;
use bevy_ecs::prelude::*;
use bevy_ecs::system::RunSystemOnce as _;
use bevy_rerecast_core::{RerecastPlugin, generator::NavmeshGenerator, rerecast::NavmeshConfigBuilder};
#[test]
fn new_handles() {
    let mut app = App::new();
    app.add_plugins((bevy_asset::AssetPlugin::default(), RerecastPlugin::default()));
    let (a, b) = app.world_mut().run_system_once(|mut g: NavmeshGenerator<()>| { let c = || NavmeshConfigBuilder::default().build(); (g.generate(c()), g.generate(c())) }).unwrap();
    assert_ne!(a.id(), b.id());
}
''')
ws("c24-first-stays","C24","bevy_rerecast_core",[(C+"backend.rs","self.world_mut().insert_resource(NavmeshAffectorBackend(id));","self.world_mut().get_resource_or_insert_with(|| NavmeshAffectorBackend(id));")],
"a second geometry source is registered (e.g. by a plugin added later)","the first registered source stays in effect",
'''use bevy_app::prelude::*;
use bevy_rerecast_core::{NavmeshAffectorBackend, NavmeshApp as _, rerecast::TriMesh};
use bevy_transform::prelude::GlobalTransform;
fn one() -> Vec<(GlobalTransform, TriMesh)> { vec![(GlobalTransform::IDENTITY, TriMesh::default())] }
fn none() -> Vec<(GlobalTransform, TriMesh)> { vec![] }
#[test]
fn last_wins() {
    let mut app = App::new();
    app.set_navmesh_affector_backend(none);
    app.set_navmesh_affector_backend(one);
    let id = app.world().resource::<NavmeshAffectorBackend>().clone();
    assert_eq!(app.world_mut().run_system(*id).unwrap().len(), 1);
}
''')
