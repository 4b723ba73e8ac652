//! C27: the editor holds and shows exactly the scene it loaded and the navmesh it built.
use crate::build::{BuildNavmesh, NavmeshAffector};
use crate::ensure;
use crate::fw::{Dec, Local as Run, Property, R, Space, Tier};
use crate::get_navmesh_input::GetNavmeshInput;
use crate::server::{Answer, answering};
use crate::visualization::{AvailableGizmos, GizmosToDraw, Navmesh, VisualMesh};
use bevy::asset::RenderAssetUsages;
use bevy::math::{Affine3A, Mat3A, Vec3A};
use bevy::prelude::*;
use bevy::render::mesh::{Indices, PrimitiveTopology, VertexAttributeValues};
use bevy::render::view::VisibilityPlugin;
use bevy::transform::TransformPlugin;
use bevy_rerecast::editor_integration::brp::{AffectorMesh, BRP_GET_NAVMESH_INPUT_METHOD, NavmeshInputResponse, VisualMesh as SentVisual};
use bevy_rerecast::editor_integration::transmission::{SerializedMesh, SerializedStandardMaterial, serialize};
use bevy_rerecast::rerecast::{AreaType, DetailNavmesh, HeightfieldBuilder, NavmeshConfigBuilder, PolygonNavmesh, TriMesh};
use std::cell::Cell;
use std::collections::HashMap;

pub fn property() -> Property {
    Property {
        id: "C27",
        spaces,
        assumptions: &[
            "at least one frame passes between loading a scene and building",
            "the game's answers refer to existing meshes and materials (C21)",
            "the lines and surface of a navmesh built before the scene was replaced may stay or go until the next build or switch",
        ],
    }
}

thread_local! {
    static ERRORS: Cell<u32> = const { Cell::new(0) };
}
pub fn error_seen() {
    ERRORS.with(|e| e.set(e.get() + 1));
}
pub fn errors(f: impl FnOnce()) -> u32 {
    let n = ERRORS.with(|e| e.get());
    f();
    ERRORS.with(|e| e.get()) - n
}

// ---- what can be sent ----

fn place(k: usize) -> GlobalTransform {
    let m = |s: Vec3, r: Quat, t: Vec3| GlobalTransform::from(Affine3A::from_scale_rotation_translation(s, r, t));
    match k {
        0 => GlobalTransform::IDENTITY,
        1 => m(Vec3::ONE, Quat::IDENTITY, Vec3::new(4.0, 0.5, -2.0)),
        2 => m(Vec3::new(2.0, 1.0, 0.5), Quat::IDENTITY, Vec3::new(-1.0, 1.0, 0.25)),
        // mirrored
        3 => m(Vec3::new(-1.0, 1.0, 1.0), Quat::IDENTITY, Vec3::new(8.0, 0.0, 0.0)),
        // sheared, as below a turned child of a stretched parent
        4 => GlobalTransform::from(Affine3A { matrix3: Mat3A::from_cols(Vec3A::new(1.0, 0.0, 0.5), Vec3A::new(0.0, 1.0, 0.0), Vec3A::new(0.25, 0.0, 1.0)), translation: Vec3A::new(2.0, 0.0, 1.0) }),
        _ => m(Vec3::new(2.0, 0.5, 3.0), Quat::from_rotation_y(0.7) * Quat::from_rotation_x(0.3), Vec3::new(-1.0, 4.0, 0.25)),
    }
}
const PLACES: u64 = 6;
/// those without rounding, so that a build can be compared exactly
const EXACT: u64 = 5;

fn obstacle(k: usize) -> TriMesh {
    let quad = |x0: f32, z0: f32, x1: f32, z1: f32, y: f32| TriMesh {
        vertices: vec![Vec3A::new(x0, y, z0), Vec3A::new(x0, y, z1), Vec3A::new(x1, y, z1), Vec3A::new(x1, y, z0)],
        indices: vec![UVec3::new(0, 1, 2), UVec3::new(0, 2, 3)],
        area_types: vec![AreaType::NOT_WALKABLE; 2],
    };
    match k {
        0 => quad(0.0, 0.0, 12.0, 12.0, 0.0),
        1 => quad(2.0, 3.0, 9.0, 6.0, 1.5),
        2 => {
            // a ramp, facing either way
            let mut t = quad(0.0, 0.0, 8.0, 9.0, 0.0);
            t.vertices[2].y = 3.0;
            t.vertices[3].y = 3.0;
            t.indices.push(UVec3::new(0, 2, 1));
            t.area_types.push(AreaType::NOT_WALKABLE);
            t
        }
        _ => TriMesh::default(),
    }
}
const OBSTACLES: u64 = 4;

fn visual_mesh(k: usize) -> Mesh {
    Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all())
        .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, (0..3 + k).map(|i| [i as f32, k as f32, -0.5]).collect::<Vec<_>>())
        .with_inserted_indices(Indices::U32(vec![0, 1, 2]))
}
const MESHES: u64 = 2;
const MATS: u64 = 3; // the last one has the texture of the second

#[derive(Clone, Default)]
pub struct Scene {
    /// obstacle, place
    affectors: Vec<(usize, usize)>,
    /// mesh, material, place
    visuals: Vec<(usize, Option<usize>, usize)>,
    /// how many further bytes its textures have
    bytes: usize,
}

/// The bytes of a texture, which do not compress.
fn texture(k: u8, more: usize) -> Vec<u8> {
    let mut x = k as u64 | 1 << 40;
    let mut v = vec![k; 4];
    v.extend((0..more).map(|_| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x as u8
    }));
    v
}

impl Scene {
    fn answer(&self) -> Answer {
        let mut images = Assets::<Image>::default();
        let img = [7u8, 9].map(|k| images.add(Image { data: Some(texture(k, self.bytes)), ..Image::default() }));
        let mut cache = vec![];
        let mut idx = Default::default();
        let materials = (0..MATS)
            .map(|k| {
                let m = StandardMaterial { metallic: 0.125 * (k as f32 + 1.0), base_color_texture: [None, Some(img[1].clone()), Some(img[1].clone())][k as usize].clone(), emissive_texture: (k == 2).then(|| img[0].clone()), ..default() };
                SerializedStandardMaterial::try_from_standard_material(m, &mut idx, &images, &mut cache).unwrap()
            })
            .collect();
        let r = NavmeshInputResponse {
            affector_meshes: self.affectors.iter().map(|&(o, p)| AffectorMesh { transform: place(p), mesh: obstacle(o) }).collect(),
            visual_meshes: self.visuals.iter().map(|&(m, t, p)| SentVisual { transform: place(p), mesh: m as u32, material: t.map(|t| t as u32) }).collect(),
            materials,
            meshes: (0..MESHES).map(|k| SerializedMesh::from_mesh(&visual_mesh(k as usize))).collect(),
            images: cache,
        };
        let v = serialize(&r).unwrap();
        Answer::Body(200, serde_json::json!({"jsonrpc": "2.0", "id": 1, "result": v}).to_string())
    }
}

/// Everything that is not a scene.
fn failure(k: usize) -> Answer {
    let ok = match (Scene { affectors: vec![(0, 0)], visuals: vec![(0, None, 0)], bytes: 0 }).answer() {
        Answer::Body(_, t) => t,
        _ => unreachable!(),
    };
    match k {
        0 => Answer::HangUp,
        1 => Answer::Body(500, ok),
        2 => Answer::Body(200, String::new()),
        3 => Answer::Body(200, ok[..ok.len() / 2].into()),
        4 => Answer::Body(200, r#"{"jsonrpc":"2.0","id":1,"error":{"code":-23402,"message":"no backend"}}"#.into()),
        5 => Answer::Body(200, r#"{"jsonrpc":"2.0","id":1,"result":null}"#.into()),
        6 => Answer::Body(200, r#"{"jsonrpc":"2.0","id":1,"result":"AAAA"}"#.into()),
        7 => Answer::Body(404, "not found".into()),
        8 => Answer::Body(200, "[]".into()),
        _ => Answer::Body(200, r#"{"jsonrpc":"2.0","id":1,"result":{"affector_meshes":[],"visual_meshes":[],"materials":[],"meshes":[],"images":[]}}"#.into()),
    }
}
const FAILURES: u64 = 10;

// ---- the model ----

const KINDS: [AvailableGizmos; 4] = [AvailableGizmos::Visual, AvailableGizmos::Affector, AvailableGizmos::PolyMesh, AvailableGizmos::DetailMesh];
const NAMES: [&str; 4] = ["visual objects", "obstacles", "polygon mesh", "detail mesh"];

pub struct Model {
    scene: Scene,
    navmesh: Option<(PolygonNavmesh, DetailNavmesh)>,
    pub on: [bool; 4],
    /// the navmesh is newer than the scene, or its display was switched since
    fresh: [bool; 2],
}

/// The library's way from triangles in world space to a navmesh.
fn pipeline(mut t: TriMesh) -> Option<(PolygonNavmesh, DetailNavmesh)> {
    let c = NavmeshConfigBuilder::default().build();
    t.mark_walkable_triangles(c.walkable_slope_angle);
    let mut hf = HeightfieldBuilder { aabb: t.compute_aabb()?, cell_size: c.cell_size, cell_height: c.cell_height }.build().ok()?;
    hf.rasterize_triangles(&t, c.walkable_climb).ok()?;
    hf.filter_low_hanging_walkable_obstacles(c.walkable_climb);
    hf.filter_ledge_spans(c.walkable_height, c.walkable_climb);
    hf.filter_walkable_low_height_spans(c.walkable_height);
    let mut chf = hf.into_compact(c.walkable_height, c.walkable_climb).ok()?;
    chf.erode_walkable_area(c.walkable_radius);
    chf.build_distance_field();
    chf.build_regions(c.border_size, c.min_region_area, c.merge_region_area).ok()?;
    let p = chf.build_contours(c.max_simplification_error, c.max_edge_len, c.contour_flags).into_polygon_mesh(c.max_vertices_per_polygon).ok()?;
    let d = DetailNavmesh::new(&p, &chf, c.detail_sample_dist, c.detail_sample_max_error).ok()?;
    Some((p, d))
}

impl Model {
    fn world_geometry(&self) -> TriMesh {
        let mut t = TriMesh::default();
        for &(o, p) in &self.scene.affectors {
            let base = t.vertices.len() as u32;
            let m = obstacle(o);
            t.vertices.extend(m.vertices.iter().map(|v| place(p).affine().transform_point3a(*v)));
            t.indices.extend(m.indices.iter().map(|i| *i + UVec3::splat(base)));
            t.area_types.extend(m.indices.iter().map(|_| AreaType::NOT_WALKABLE));
        }
        t
    }
}

// ---- the editor ----

type Seg = [[u32; 3]; 2];
fn segment(a: Vec3, b: Vec3) -> Seg {
    let f = |v: Vec3| v.to_array().map(|c| (c + 0.0).to_bits());
    let (a, b) = (f(a), f(b));
    if a < b { [a, b] } else { [b, a] }
}
/// All lines of a gizmo.
fn lines(g: &GizmoAsset) -> Vec<Seg> {
    let b = g.buffer();
    let mut out: Vec<Seg> = b.strip_positions.windows(2).filter(|w| !w[0].is_nan() && !w[1].is_nan()).map(|w| segment(w[0], w[1])).collect();
    out.extend(b.list_positions.chunks_exact(2).map(|w| segment(w[0], w[1])));
    out.retain(|s| s[0] != s[1]);
    out.sort();
    out
}
fn sorted(mut v: Vec<Seg>) -> Vec<Seg> {
    v.retain(|s| s[0] != s[1]);
    v.sort();
    v
}
fn positions(m: &Mesh) -> Result<Vec<Vec3>, String> {
    match m.attribute(Mesh::ATTRIBUTE_POSITION) {
        Some(VertexAttributeValues::Float32x3(v)) => Ok(v.iter().map(|v| Vec3::from(*v)).collect()),
        _ => Err("a mesh without positions".into()),
    }
}
fn triangles(m: &Mesh) -> Result<Vec<[Vec3; 3]>, String> {
    let p = positions(m)?;
    let i: Vec<usize> = m.indices().map(|i| i.iter().collect()).unwrap_or((0..p.len()).collect());
    ensure!(m.primitive_topology() == PrimitiveTopology::TriangleList && i.len() % 3 == 0 && i.iter().all(|i| *i < p.len()), "a mesh whose {} indices refer beyond {} vertices", i.len(), p.len());
    Ok(i.chunks_exact(3).map(|t| [p[t[0]], p[t[1]], p[t[2]]]).collect())
}
fn rotated(t: [Vec3; 3]) -> [[u32; 3]; 3] {
    let b = t.map(|v| v.to_array().map(|c| (c + 0.0).to_bits()));
    (0..3).map(|k| [b[k], b[(k + 1) % 3], b[(k + 2) % 3]]).min().unwrap()
}

pub struct Editor {
    pub app: App,
    pub m: Model,
}

impl Editor {
    fn new() -> Editor {
        Self::with(|_| {})
    }
    pub fn with(more: impl FnOnce(&mut App)) -> Editor {
        let mut app = App::new();
        app.add_plugins((TransformPlugin, VisibilityPlugin));
        app.insert_resource(Assets::<Mesh>::default()).insert_resource(Assets::<Image>::default()).insert_resource(Assets::<StandardMaterial>::default()).insert_resource(Assets::<GizmoAsset>::default());
        app.add_plugins((crate::get_navmesh_input::plugin, crate::build::plugin, crate::visualization::plugin));
        more(&mut app);
        app.update();
        let g = app.world().resource::<GizmosToDraw>();
        let on = KINDS.map(|k| g.contains(&k));
        Editor { app, m: Model { scene: Scene::default(), navmesh: None, on, fresh: [true; 2] } }
    }

    /// As the buttons of the user interface do.
    fn trigger(&mut self, e: impl Event) {
        let w = self.app.world_mut();
        w.commands().trigger(e);
        w.flush();
    }

    pub fn load(&mut self, s: &Scene) -> R {
        self.load_by(s, |e| e.trigger(GetNavmeshInput))
    }
    /// Loads a scene in the given way.
    pub fn load_by(&mut self, s: &Scene, mut way: impl FnMut(&mut Editor)) -> R {
        // a failed load changes nothing, so a hiccup of the network can be told from a failure by asking again
        let mut tries = 0;
        let (n, asked) = loop {
            let r = answering(s.answer(), || errors(|| way(self)));
            tries += 1;
            if r.0 == 0 || tries == 3 {
                break r;
            }
        };
        ensure!(n == 0, "loading a scene failed");
        ensure!(asked.len() == 1, "{} requests to load a scene", asked.len());
        let v: serde_json::Value = serde_json::from_str(&asked[0]).map_err(|e| format!("the request is not JSON: {e}"))?;
        ensure!(v["method"] == BRP_GET_NAVMESH_INPUT_METHOD && v["jsonrpc"] == "2.0" && v.get("params").is_none_or(|p| p.is_null()), "the request is {v}");
        self.m.scene = s.clone();
        self.m.fresh = [false; 2];
        Ok(())
    }
    fn load_failing(&mut self, k: usize) -> R {
        self.load_failing_by(k, |e| e.trigger(GetNavmeshInput))
    }
    pub fn load_failing_by(&mut self, k: usize, way: impl FnOnce(&mut Editor)) -> R {
        let (n, _) = answering(failure(k), || errors(|| way(self)));
        ensure!(n > 0, "loading reports success although the game gave no scene (answer {k})");
        Ok(())
    }
    pub fn build(&mut self, l: &mut Run) -> R {
        self.build_by(l, |e| e.trigger(BuildNavmesh))
    }
    pub fn build_by(&mut self, l: &mut Run, way: impl FnOnce(&mut Editor)) -> R {
        let want = pipeline(self.m.world_geometry());
        let n = errors(|| way(self));
        match want {
            None => {
                l.label("builds without ground");
                ensure!(n > 0, "building reports success without geometry");
            }
            Some(w) => {
                l.label(if w.0.polygon_count() > 0 { "builds with a navmesh" } else { "builds with an empty navmesh" });
                ensure!(n == 0, "building failed");
                self.m.navmesh = Some(w);
                self.m.fresh = [true; 2];
            }
        }
        Ok(())
    }
    fn toggle(&mut self, k: usize) {
        self.app.world_mut().resource_mut::<GizmosToDraw>().toggle(KINDS[k]);
        self.toggled(k);
    }
    /// A display was switched.
    pub fn toggled(&mut self, k: usize) {
        self.m.on[k] = !self.m.on[k];
        if k >= 2 {
            self.m.fresh[k - 2] = true;
        }
    }

    /// Lets a frame pass and compares everything with the model.
    pub fn check(&mut self, l: &mut Run) -> R {
        self.app.update();
        l.step();
        let m = &self.m;
        let w = self.app.world_mut();
        for k in 0..4 {
            ensure!(w.resource::<GizmosToDraw>().contains(&KINDS[k]) == m.on[k], "the display of {} is not switched as asked", NAMES[k]);
        }
        // the objects
        let mut q = w.query_filtered::<(&GlobalTransform, &Mesh3d, &MeshMaterial3d<StandardMaterial>, &InheritedVisibility), With<VisualMesh>>();
        let (meshes, mats, images) = (w.resource::<Assets<Mesh>>(), w.resource::<Assets<StandardMaterial>>(), w.resource::<Assets<Image>>());
        let mut rest = m.scene.visuals.clone();
        let [seven, nine] = [7, 9].map(|k| texture(k, m.scene.bytes));
        let mut shared: [HashMap<usize, AssetId<Mesh>>; 1] = Default::default();
        for (t, mesh, mat, vis) in q.iter(w) {
            let got = meshes.get(&mesh.0).ok_or("the mesh of a visual object is not there")?;
            let mat = mats.get(&mat.0).ok_or("the material of a visual object is not there")?;
            let pixel = |h: &Option<Handle<Image>>| h.as_ref().map(|h| images.get(h).and_then(|i| i.data.as_ref()).map_or(0, |d| if *d == seven { 7 } else if *d == nine { 9 } else { 1 }));
            let (p, tris) = (positions(got)?, triangles(got)?);
            let at = rest.iter().position(|&(k, c, pl)| {
                let e = visual_mesh(k);
                let (metallic, base, emissive) = match c {
                    None => (StandardMaterial::default().metallic, None, None),
                    Some(c) => (0.125 * (c as f32 + 1.0), [None, Some(9), Some(9)][c], [None, None, Some(7)][c]),
                };
                // a Transform cannot stretch across its axes, so sheared visual objects are shown approximately
                let near = pl == 4 || t.affine().abs_diff_eq(place(pl).affine(), 1e-4);
                positions(&e).unwrap() == p && triangles(&e).unwrap() == tris && near && mat.metallic == metallic && pixel(&mat.base_color_texture) == base && pixel(&mat.emissive_texture) == emissive && (c.is_some() || mat.base_color == Color::WHITE)
            });
            let Some(at) = at else { return Err(format!("a visual object with {} vertices, metallic {}, textures {:?}/{:?}, at {:?} that the scene does not have", p.len(), mat.metallic, pixel(&mat.base_color_texture), pixel(&mat.emissive_texture), t.affine())) };
            let (k, ..) = rest.remove(at);
            let id = *shared[0].entry(k).or_insert(mesh.0.id());
            ensure!(id == mesh.0.id(), "objects of one mesh hold separate copies");
            ensure!(vis.get() == m.on[0], "a visual object is {} although their display is {}", if vis.get() { "visible" } else { "hidden" }, if m.on[0] { "on" } else { "off" });
            l.label("visual objects compared");
        }
        ensure!(rest.is_empty(), "{} visual objects of the scene are missing", rest.len());

        // the obstacles
        let mut q = w.query_filtered::<(&GlobalTransform, &Mesh3d, Option<&Gizmo>, &InheritedVisibility), With<NavmeshAffector>>();
        let (meshes, gizmos) = (w.resource::<Assets<Mesh>>(), w.resource::<Assets<GizmoAsset>>());
        let mut rest = m.scene.affectors.clone();
        for (t, mesh, gizmo, vis) in q.iter(w) {
            let got = meshes.get(&mesh.0).ok_or("the mesh of an obstacle is not there")?;
            let tris = triangles(got)?;
            let world: Vec<[Vec3; 3]> = tris.iter().map(|c| c.map(|v| t.transform_point(v))).collect();
            let at = rest.iter().position(|&(o, p)| {
                let e = obstacle(o);
                let e: Vec<[Vec3; 3]> = e.indices.iter().map(|i| i.to_array().map(|i| place(p).affine().transform_point3a(e.vertices[i as usize]).into())).collect();
                e.len() == world.len() && e.iter().zip(&world).all(|(e, g)| (0..3).all(|k| e[k].abs_diff_eq(g[k], 1e-4)))
            });
            let Some(at) = at else { return Err(format!("an obstacle {world:?} that the scene does not have (it has {:?})", m.scene.affectors)) };
            rest.remove(at);
            ensure!(!vis.get(), "the surface of an obstacle is visible");
            let drawn = gizmo.and_then(|g| gizmos.get(&g.handle)).map(lines).unwrap_or_default();
            let want = if m.on[1] { sorted(tris.iter().flat_map(|t| (0..3).map(|k| segment(t[k], t[(k + 1) % 3]))).collect()) } else { vec![] };
            ensure!(drawn == want, "of an obstacle with {} triangles {} lines are drawn while their display is {}", tris.len(), drawn.len(), if m.on[1] { "on" } else { "off" });
            l.label("obstacles compared");
        }
        ensure!(rest.is_empty(), "{} obstacles of the scene are missing", rest.len());

        // the navmesh
        match (w.get_resource::<Navmesh>(), &m.navmesh) {
            (None, None) => {}
            (Some(n), Some((p, d))) => ensure!(n.poly_mesh == *p && n.detail_mesh == *d, "the navmesh ({} polygons, {} detail triangles) is not that of the obstacles ({}, {})", n.poly_mesh.polygon_count(), n.detail_mesh.triangles.len(), p.polygon_count(), d.triangles.len()),
            (n, _) => return Err(if n.is_some() { "there is a navmesh although none was built" } else { "there is no navmesh although one was built" }.into()),
        }
        let mut q = w.query_filtered::<(&GlobalTransform, &Gizmo, Option<&Mesh3d>, &InheritedVisibility), Without<NavmeshAffector>>();
        let (meshes, gizmos) = (w.resource::<Assets<Mesh>>(), w.resource::<Assets<GizmoAsset>>());
        let mut shown = vec![];
        for (t, g, mesh, vis) in q.iter(w) {
            ensure!(t.affine() == Affine3A::IDENTITY, "the navmesh is displayed at another place");
            if vis.get() {
                shown.push((gizmos.get(&g.handle).map(lines).unwrap_or_default(), mesh.and_then(|m| meshes.get(&m.0)).map(triangles).transpose()?.unwrap_or_default()));
            }
        }
        let want: Vec<usize> = (0..2).filter(|k| m.on[2 + k] && m.navmesh.is_some()).collect();
        ensure!(shown.len() == want.len(), "{} displays of the navmesh are visible instead of {}", shown.len(), want.len());
        if let Some((p, d)) = &m.navmesh {
            let mut shown: Vec<_> = shown.into_iter().map(Some).collect();
            for k in want {
                if !m.fresh[k] {
                    l.label("displays of an older scene's navmesh");
                    continue;
                }
                let (segs, surface) = if k == 0 { poly_display(p) } else { detail_display(d) };
                let at = shown.iter().position(|s| s.as_ref().is_some_and(|(l, t)| *l == segs && same_surface(t, &surface, k == 0)));
                let Some(at) = at else {
                    return Err(format!("no display shows the {}: {} lines, {} triangles expected, displays have {:?}", NAMES[k + 2], segs.len(), surface.len(), shown.iter().flatten().map(|s| (s.0.len(), s.1.len())).collect::<Vec<_>>()));
                };
                shown[at] = None;
                l.label("displays compared");
            }
        }
        Ok(())
    }
}

/// Outlines of the polygons and their surface.
fn poly_display(p: &PolygonNavmesh) -> (Vec<Seg>, Vec<[Vec3; 3]>) {
    let nvp = p.max_vertices_per_polygon as usize;
    let (mut s, mut t) = (vec![], vec![]);
    for i in 0..p.polygon_count() {
        let c: Vec<Vec3> = p.polygons[i * nvp..(i + 1) * nvp].iter().take_while(|v| **v != PolygonNavmesh::NO_INDEX).map(|v| p.aabb.min + p.vertices[*v as usize].as_vec3() * vec3(p.cell_size, p.cell_height, p.cell_size)).collect();
        for k in 0..c.len() {
            s.push(segment(c[k], c[(k + 1) % c.len()]));
        }
        for k in 2..c.len() {
            t.push([c[0], c[k - 1], c[k]]);
        }
    }
    (sorted(s), t)
}
fn detail_display(d: &DetailNavmesh) -> (Vec<Seg>, Vec<[Vec3; 3]>) {
    let (mut s, mut t) = (vec![], vec![]);
    for m in &d.meshes {
        for c in &d.triangles[m.base_triangle_index as usize..][..m.triangle_count as usize] {
            let c = c.map(|k| d.vertices[m.base_vertex_index as usize + k as usize]);
            t.push(c);
            for k in 0..3 {
                s.push(segment(c[k], c[(k + 1) % 3]));
            }
        }
    }
    (sorted(s), t)
}
/// The same triangles or, where they may be divided otherwise, as much area on the same corners.
fn same_surface(a: &[[Vec3; 3]], b: &[[Vec3; 3]], divided: bool) -> bool {
    let key = |v: &[[Vec3; 3]]| {
        let mut k: Vec<_> = v.iter().map(|t| rotated(*t)).collect();
        k.sort();
        k
    };
    if key(a) == key(b) {
        return true;
    }
    let corners = |v: &[[Vec3; 3]]| v.iter().flatten().map(|v| v.to_array().map(f32::to_bits)).collect::<std::collections::BTreeSet<_>>();
    let area = |v: &[[Vec3; 3]]| v.iter().map(|t| ((t[1] - t[0]).cross(t[2] - t[0]).y / 2.0) as f64).sum::<f64>();
    divided && a.len() == b.len() && corners(a) == corners(b) && (area(a) - area(b)).abs() < 1e-3
}

// ---- spaces ----

pub fn fixed(k: usize) -> Scene {
    match k {
        0 => Scene { affectors: vec![(0, 0)], visuals: vec![(0, Some(1), 0)], bytes: 0 },
        1 => Scene { affectors: vec![(0, 2), (1, 1)], visuals: vec![(1, None, 1), (0, Some(2), 2), (0, Some(2), 3)], bytes: 0 },
        _ => Scene::default(),
    }
}
const OPS: u64 = 10;
fn op(e: &mut Editor, o: u64, l: &mut Run) -> R {
    match o {
        0..=2 => e.load(&fixed(o as usize))?,
        3 => e.load_failing(4)?,
        4 => {
            e.app.update();
            e.build(l)?
        }
        5..=8 => e.toggle(o as usize - 5),
        _ => e.app.update(),
    }
    Ok(())
}
fn op_name(o: u64) -> String {
    match o {
        0..=2 => format!("load scene {o}"),
        3 => "failing load".into(),
        4 => "frame, build".into(),
        5..=8 => format!("switch {}", NAMES[o as usize - 5]),
        _ => "frame".into(),
    }
}

fn spaces(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    // every scene of two obstacles
    let items = OBSTACLES * EXACT + 1;
    let scene = move |i: u64| {
        let mut d = Dec(i);
        let mut s = Scene::default();
        for _ in 0..2 {
            let k = d.take(items);
            if k > 0 {
                s.affectors.push((((k - 1) % OBSTACLES) as usize, ((k - 1) / OBSTACLES) as usize));
            }
        }
        s
    };
    out.push(Space::new("obstacles", items * items, move |i| format!("{:?}", scene(i).affectors), move |i, l| {
        let mut e = Editor::new();
        e.load(&scene(i))?;
        e.check(l)?;
        e.build(l)?;
        e.check(l)?;
        for k in [1, 2, 3, 1] {
            e.toggle(k);
            e.check(l)?;
        }
        l.trace();
        l.state(i);
        l.nontrivial += e.m.navmesh.as_ref().is_some_and(|n| n.0.polygon_count() > 0) as u64;
        Ok(())
    }));
    // every scene of two visual objects anywhere, of three in one place, and one obstacle anywhere
    let kinds = MESHES * (MATS + 1);
    for (name, n, places) in [("visuals-2", 2, PLACES), ("visuals-3", 3, t.pick(1, PLACES))] {
        let one = kinds * places + 1;
        let scene = move |i: u64| {
            let mut d = Dec(i);
            let mut s = Scene::default();
            for _ in 0..n {
                let k = d.take(one);
                if k > 0 {
                    let k = k - 1;
                    let c = (k / MESHES) % (MATS + 1);
                    s.visuals.push(((k % MESHES) as usize, (c > 0).then(|| c as usize - 1), (k / kinds) as usize));
                }
            }
            s.affectors.push(((i % 3) as usize, (i % PLACES) as usize));
            s
        };
        out.push(Space::new(name, one.pow(n), move |i| format!("{:?} {:?}", scene(i).affectors, scene(i).visuals), move |i, l| {
            let mut e = Editor::new();
            e.load(&scene(i))?;
            e.check(l)?;
            l.trace();
            l.state(i | (n as u64) << 50);
            l.nontrivial += 1;
            Ok(())
        }));
    }
    // every history
    let depth = t.pick(4, 5u32);
    let ops = move |i: u64| {
        let mut d = Dec(i);
        (0..depth).map(|_| d.take(OPS)).collect::<Vec<_>>()
    };
    out.push(Space::new("histories", OPS.pow(depth), move |i| ops(i).into_iter().map(op_name).collect::<Vec<_>>().join("; "), move |i, l| {
        let mut e = Editor::new();
        for o in ops(i) {
            op(&mut e, o, l)?;
            if o != 9 {
                e.check(l)?;
            }
        }
        l.trace();
        l.state(i | 2 << 40);
        l.nontrivial += 1;
        Ok(())
    }));
    // several operations between two frames
    let depth2 = t.pick(3, 5u32);
    let ops = move |i: u64| {
        let mut d = Dec(i);
        (0..depth2).map(|_| d.take(OPS)).collect::<Vec<_>>()
    };
    out.push(Space::new("bursts", OPS.pow(depth2), move |i| format!("scene 1; build; {}", ops(i).into_iter().map(op_name).collect::<Vec<_>>().join("; ")), move |i, l| {
        let mut e = Editor::new();
        e.load(&fixed(1))?;
        e.app.update();
        e.build(l)?;
        for o in ops(i) {
            op(&mut e, o, l)?;
        }
        e.check(l)?;
        l.trace();
        l.state(i | 3 << 40);
        l.nontrivial += 1;
        Ok(())
    }));
    // two builds with anything between, in every state of the displays
    let parts = |i: u64| {
        let mut d = Dec(i);
        (d.take(16), d.take(3), d.take(OPS), d.take(OPS), d.take(3))
    };
    let per = if t.thorough() { OPS * OPS } else { OPS };
    let parts = move |i: u64| if per == OPS { let mut d = Dec(i); (d.take(16), d.take(3), d.take(OPS), 9, d.take(3)) } else { parts(i) };
    out.push(Space::new("rebuilds", 16 * 9 * per, move |i| { let (s, a, o, q, b) = parts(i); format!("displays {s:04b}; load scene {a}; build; {}; {}; load scene {b}; build", op_name(o), op_name(q)) }, move |i, l| {
        let (s, a, o, q, b) = parts(i);
        let mut e = Editor::new();
        for k in 0..4 {
            if s >> k & 1 == 1 {
                e.toggle(k);
            }
        }
        e.load(&fixed(a as usize))?;
        e.check(l)?;
        e.build(l)?;
        e.check(l)?;
        for o in [o, q] {
            op(&mut e, o, l)?;
            e.check(l)?;
        }
        e.load(&fixed(b as usize))?;
        e.check(l)?;
        e.build(l)?;
        e.check(l)?;
        l.trace();
        l.state(i | 5 << 40);
        l.nontrivial += 1;
        Ok(())
    }));
    // scenes of every size
    let sizes = t.pick(7, 9u64);
    let parts = move |i: u64| (((1usize << (2 * (i % sizes) + 10)) + i as usize / sizes as usize) & !3, i / sizes % 2 == 1);
    out.push(Space::new("sizes", sizes * 2, move |i| format!("textures of {} bytes, built {}", parts(i).0, parts(i).1), move |i, l| {
        let (bytes, built) = parts(i);
        let mut e = Editor::new();
        if built {
            e.load(&fixed(0))?;
            e.app.update();
            e.build(l)?;
            e.check(l)?;
        }
        e.load(&Scene { bytes, ..fixed(1) })?;
        e.check(l)?;
        e.build(l)?;
        e.check(l)?;
        e.load(&fixed(2))?;
        e.check(l)?;
        l.trace();
        l.state(i | 6 << 40);
        l.nontrivial += 1;
        Ok(())
    }));
    // every failing answer in every state of the displays
    out.push(Space::new("failures", FAILURES * 16 * 2, |i| format!("failing answer {}, displays {:04b}, built {}", i % FAILURES, i / FAILURES % 16, i / FAILURES / 16), |i, l| {
        let mut d = Dec(i);
        let (f, s, b) = (d.take(FAILURES), d.take(16), d.take(2));
        let mut e = Editor::new();
        for k in 0..4 {
            if s >> k & 1 == 1 {
                e.toggle(k);
            }
        }
        e.load(&fixed(1))?;
        e.check(l)?;
        if b == 1 {
            e.build(l)?;
            e.check(l)?;
        }
        e.load_failing(f as usize)?;
        e.check(l)?;
        e.build(l)?;
        e.check(l)?;
        e.load(&fixed(0))?;
        e.check(l)?;
        l.trace();
        l.state(i | 4 << 40);
        l.nontrivial += 1;
        Ok(())
    }));
    out
}
