from mkseed import mkseed
import sys
_f=__file__.replace('seeds3','seeds2')
exec(open(_f).read().split('mkseed("c04-high-floors"')[0].replace('__file__','_f'))
_all=(ws,mkseed)
# names on the command line select what is written
def ws(id,*a,**k):
    if len(sys.argv)<2 or id in sys.argv[1:]: _all[0](id,*a,**k)
def mkseed(id,*a,**k):
    if len(sys.argv)<2 or id in sys.argv[1:]: _all[1](id,*a,**k)
E_="crates/bevy_rerecast_editor/src/"
# the editor is a binary crate: the test compiles its modules
ED='''#![allow(dead_code)]
#[path = "../src/build.rs"]
mod build;
#[path = "../src/get_navmesh_input.rs"]
mod get_navmesh_input;
#[path = "../src/theme/mod.rs"]
mod theme;
#[path = "../src/ui.rs"]
mod ui;
#[path = "../src/visualization.rs"]
mod visualization;
#[path = "../src/camera/camera_controller.rs"]
mod camera_controller;
use bevy::asset::RenderAssetUsages;
use bevy::prelude::*;
use bevy::render::mesh::{Indices, PrimitiveTopology};
use build::{BuildNavmesh, NavmeshAffector};
use visualization::{AvailableGizmos, GizmosToDraw, Navmesh, VisualMesh};
fn editor() -> App {
    let mut app = App::new();
    app.add_plugins((bevy::transform::TransformPlugin, bevy::render::view::VisibilityPlugin));
    app.insert_resource(Assets::<Mesh>::default()).insert_resource(Assets::<Image>::default()).insert_resource(Assets::<StandardMaterial>::default()).insert_resource(Assets::<GizmoAsset>::default());
    app.add_plugins((get_navmesh_input::plugin, build::plugin, visualization::plugin));
    app.update();
    app
}
fn ground(app: &mut App, x: f32, size: f32) -> Entity {
    let m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all())
        .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, vec![[x, 0.0, 0.0], [x, 0.0, size], [x + size, 0.0, size], [x + size, 0.0, 0.0]])
        .with_inserted_indices(Indices::U32(vec![0, 1, 2, 0, 2, 3]));
    let m = app.world_mut().resource_mut::<Assets<Mesh>>().add(m);
    let g = app.world_mut().resource_mut::<Assets<GizmoAsset>>().add(GizmoAsset::new());
    app.world_mut().spawn((Transform::IDENTITY, Mesh3d(m), NavmeshAffector, Visibility::Hidden, Gizmo { handle: g, ..default() })).id()
}
fn build(app: &mut App) {
    app.update();
    app.world_mut().commands().trigger(BuildNavmesh);
    app.world_mut().flush();
    app.update();
}
/// positions of the visible displays of the navmesh
fn shown(app: &mut App) -> Vec<Vec<Vec3>> {
    let w = app.world_mut();
    let mut q = w.query_filtered::<(&Gizmo, &InheritedVisibility), Without<NavmeshAffector>>();
    let g = w.resource::<Assets<GizmoAsset>>();
    q.iter(w).filter(|(_, v)| v.get()).map(|(h, _)| g.get(&h.handle).unwrap().buffer().strip_positions.iter().copied().filter(|p| !p.is_nan()).collect()).collect()
}
fn toggle(app: &mut App, k: AvailableGizmos) {
    app.world_mut().resource_mut::<GizmosToDraw>().toggle(k);
    app.update();
}
'''
SERVE='''use std::io::{Read, Write};
/// Answers one request of the editor.
fn answer_once(status: u16, body: String) {
    let l = std::net::TcpListener::bind("127.0.0.1:15702").unwrap();
    std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut data = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let t = String::from_utf8_lossy(&data).to_string();
            if let Some(p) = t.find("\\r\\n\\r\\n") {
                let n = t.to_lowercase().lines().find_map(|l| l.strip_prefix("content-length:").map(|v| v.trim().parse::<usize>().unwrap())).unwrap_or(0);
                if t.len() >= p + 4 + n && (n > 0 || t.ends_with("0\\r\\n\\r\\n")) { break; }
            }
            let n = s.read(&mut buf).unwrap();
            if n == 0 { break; }
            data.extend(&buf[..n]);
        }
        write!(s, "HTTP/1.1 {status} Answer\\r\\ncontent-type: application/json\\r\\ncontent-length: {}\\r\\nconnection: close\\r\\n\\r\\n{body}", body.len()).unwrap();
        s.flush().unwrap();
    });
}
'''
def ed(id,prop,edits,needs,breaks,test,pre=''):
    ws(id,prop,"bevy_rerecast_editor",edits,needs,breaks,ED+pre+test)

ed("c27-second-build","C27",[(E_+"visualization.rs","resource_changed::<Navmesh>.or(toggled_gizmo_on(AvailableGizmos::PolyMesh))","resource_added::<Navmesh>.or(toggled_gizmo_on(AvailableGizmos::PolyMesh))")],
"the navmesh is built a second time, after a change of the obstacles, while the polygon mesh is displayed",
"the display keeps showing the polygon mesh of the first build",
'''#[test]
fn second_build() {
    let mut app = editor();
    toggle(&mut app, AvailableGizmos::DetailMesh);
    toggle(&mut app, AvailableGizmos::PolyMesh);
    let e = ground(&mut app, 0.0, 10.0);
    build(&mut app);
    let a = shown(&mut app);
    assert_eq!(a.len(), 1);
    app.world_mut().despawn(e);
    ground(&mut app, 50.0, 20.0);
    build(&mut app);
    let b = shown(&mut app);
    println!("{a:?} {b:?}");
    assert!(b.len() == 1 && b[0].iter().all(|p| p.x > 40.0) && !b[0].is_empty());
}
''')
ed("c27-failed-load","C27",[(E_+"get_navmesh_input.rs","""    let result = response
        .get("result")
        .context("Failed to get `result` from response")?;
    let response: NavmeshInputResponse = deserialize(result)?;

    for entity in mesh_handles.iter() {
        commands.entity(entity).despawn();
    }
""","""    for entity in mesh_handles.iter() {
        commands.entity(entity).despawn();
    }
    let result = response
        .get("result")
        .context("Failed to get `result` from response")?;
    let response: NavmeshInputResponse = deserialize(result)?;
""")],
"a scene is loaded, then a second load to which the game answers with an error instead of a scene",
"the loaded scene disappears although the load failed",
'''#[test]
fn failed_load() {
    let _ = bevy::ecs::error::GLOBAL_ERROR_HANDLER.set(|_, _| ());
    let mut app = editor();
    let e = ground(&mut app, 0.0, 10.0);
    app.update();
    answer_once(200, r#"{"jsonrpc":"2.0","id":1,"error":{"code":-23402,"message":"no backend"}}"#.into());
    app.world_mut().commands().trigger(get_navmesh_input::GetNavmeshInput);
    app.world_mut().flush();
    app.update();
    assert!(app.world().get_entity(e).is_ok());
}
''',SERVE)
ed("c27-empty-build","C27",[(E_+"build.rs","""    let contours = compact_heightfield""","""    if compact_heightfield
        .areas
        .iter()
        .all(|area| *area == rerecast::AreaType::NOT_WALKABLE)
    {
        // nothing walkable is left
        return Ok(());
    }
    let contours = compact_heightfield""")],
"a build of obstacles without any walkable ground after one that gave a navmesh",
"the old navmesh stays, and stays on display, although the build succeeded",
'''#[test]
fn nothing_walkable() {
    let mut app = editor();
    let e = ground(&mut app, 0.0, 10.0);
    build(&mut app);
    assert!(app.world().resource::<Navmesh>().poly_mesh.polygon_count() > 0);
    app.world_mut().despawn(e);
    ground(&mut app, 50.0, 0.5);
    build(&mut app);
    assert_eq!(app.world().resource::<Navmesh>().poly_mesh.polygon_count(), 0);
}
''')
CLICK='''use bevy::picking::{backend::HitData, pointer::{Location, PointerId}};
use bevy::render::camera::NormalizedRenderTarget;
use bevy::window::WindowRef;
fn window_and_ui() -> (App, Entity) {
    let mut app = App::new();
    app.insert_resource(Assets::<Mesh>::default()).insert_resource(Assets::<Image>::default()).insert_resource(Assets::<StandardMaterial>::default()).insert_resource(Assets::<GizmoAsset>::default());
    app.add_plugins((get_navmesh_input::plugin, build::plugin, visualization::plugin, ui::plugin, theme::plugin));
    let w = app.world_mut().spawn(Window::default()).id();
    app.update();
    (app, w)
}
fn click(app: &mut App, window: Entity, label: &str) {
    let w = app.world_mut();
    let b = w.query::<(&Text, &ChildOf)>().iter(w).find(|(t, p)| t.0 == label && w.get::<Button>(p.parent()).is_some()).map(|(_, p)| p.parent()).expect("button");
    let at = Location { target: NormalizedRenderTarget::Window(WindowRef::Entity(window).normalize(None).unwrap()), position: Vec2::ZERO };
    let c = Click { button: PointerButton::Primary, hit: HitData::new(window, 0.0, None, None), duration: std::time::Duration::from_millis(100) };
    w.trigger_targets(Pointer::new(PointerId::Mouse, at, b, c), b);
    w.flush();
    app.update();
}
'''
ed("c28-backdrop","C28",[(E_+"ui.rs","    commands.entity(*modal).try_despawn();","    commands.entity(*modal).despawn_related::<Children>();")],
"the dialog is opened and closed",
"its invisible backdrop stays and covers everything below, and a second dialog can no longer be closed",
'''#[test]
fn closed_dialog() {
    let (mut app, w) = window_and_ui();
    let n = app.world_mut().query::<&Node>().iter(app.world()).count();
    click(&mut app, w, "Load Scene");
    click(&mut app, w, "x");
    assert_eq!(app.world_mut().query::<&Node>().iter(app.world()).count(), n);
}
''',CLICK)
CAM='''use bevy::input::mouse::{AccumulatedMouseMotion, AccumulatedMouseScroll, MouseScrollUnit};
use camera_controller::*;
fn camera() -> (App, Entity) {
    let mut app = App::new();
    app.init_resource::<Time>().init_resource::<AccumulatedMouseMotion>().init_resource::<AccumulatedMouseScroll>().init_resource::<ButtonInput<MouseButton>>().init_resource::<ButtonInput<KeyCode>>();
    app.add_plugins(CameraControllerPlugin);
    let c = app.world_mut().spawn((Camera::default(), CameraController::default(), Transform::IDENTITY)).id();
    app.world_mut().spawn(Window { focused: true, ..default() });
    (app, c)
}
fn frame(app: &mut App) {
    app.world_mut().resource_mut::<Time>().advance_by(std::time::Duration::from_millis(125));
    app.update();
    app.world_mut().resource_mut::<ButtonInput<KeyCode>>().clear();
    app.world_mut().resource_mut::<ButtonInput<MouseButton>>().clear();
    app.world_mut().resource_mut::<AccumulatedMouseScroll>().delta = Vec2::ZERO;
    app.world_mut().resource_mut::<AccumulatedMouseMotion>().delta = Vec2::ZERO;
}
fn key(app: &mut App, k: KeyCode, down: bool) {
    let mut b = app.world_mut().resource_mut::<ButtonInput<KeyCode>>();
    if down { b.press(k) } else { b.release(k) }
}
fn right(app: &mut App, down: bool) {
    let mut b = app.world_mut().resource_mut::<ButtonInput<MouseButton>>();
    if down { b.press(MouseButton::Right) } else { b.release(MouseButton::Right) }
}
'''
ed("c28-two-grabs","C28",[(E_+"camera/camera_controller.rs","        *mouse_cursor_grab = false;\n","        *mouse_cursor_grab = false;\n        *toggle_cursor_grab = false;\n")],
"the view is grabbed by M, then the right button is pressed and released",
"the release ends the grab that M switched on",
'''#[test]
fn two_grabs() {
    let (mut app, c) = camera();
    key(&mut app, KeyCode::KeyM, true);
    frame(&mut app);
    right(&mut app, true);
    frame(&mut app);
    right(&mut app, false);
    frame(&mut app);
    let a = app.world().get::<Transform>(c).unwrap().translation;
    key(&mut app, KeyCode::KeyW, true);
    frame(&mut app);
    let b = app.world().get::<Transform>(c).unwrap().translation;
    assert!((b - a).length() > 1.0);
}
''',CAM)
ed("c28-run-speed","C28",[(E_+"camera/camera_controller.rs","    controller.run_speed = controller.walk_speed * 3.0;\n","    controller.run_speed = controller.run_speed.max(controller.walk_speed * 3.0);\n")],
"the speed is lowered with the wheel, then shift is held",
"running keeps the higher speed instead of three times the walking speed",
'''#[test]
fn slower_running() {
    let (mut app, c) = camera();
    *app.world_mut().resource_mut::<AccumulatedMouseScroll>() = AccumulatedMouseScroll { unit: MouseScrollUnit::Line, delta: Vec2::new(0.0, -5.0) };
    key(&mut app, KeyCode::KeyM, true);
    frame(&mut app);
    key(&mut app, KeyCode::KeyW, true);
    key(&mut app, KeyCode::ShiftLeft, true);
    frame(&mut app);
    let v = app.world().get::<CameraController>(c).unwrap().velocity.length();
    println!("{v}");
    assert!((v - 22.5).abs() < 0.01);
}
''',CAM)
