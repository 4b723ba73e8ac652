//! C28: the editor's buttons, switches and camera do what they say.
use crate::camera_controller::{CameraController, CameraControllerPlugin};
use crate::ensure;
use crate::fw::{Dec, Local as Run, Property, R, Space, Tier};
use crate::p_editor::{Editor, errors, fixed};
use crate::server::answering;
use crate::theme::interaction::InteractionPalette;
use bevy::input::mouse::{AccumulatedMouseMotion, AccumulatedMouseScroll, MouseScrollUnit};
use bevy::picking::backend::HitData;
use bevy::picking::pointer::{Location, PointerId};
use bevy::prelude::*;
use bevy::render::camera::NormalizedRenderTarget;
use bevy::window::{CursorGrabMode, WindowRef};
use std::time::Duration;

pub fn property() -> Property {
    Property {
        id: "C28",
        spaces,
        assumptions: &[
            "a click arrives at the button (layout and picking are the engine's); buttons below the open dialog cannot be reached",
            "camera movement is compared with a tolerance of 1e-3 (single precision)",
        ],
    }
}

// ---- buttons ----

/// The buttons that carry this text or stand next to it.
fn buttons(w: &mut World, label: &str) -> Vec<Entity> {
    let texts: Vec<Entity> = w.query::<(Entity, &Text)>().iter(w).filter(|(_, t)| t.0 == label).map(|(e, _)| e).collect();
    let mut out = vec![];
    for t in texts {
        let Some(p) = w.get::<ChildOf>(t).map(|c| c.parent()) else { continue };
        if w.get::<Button>(p).is_some() {
            out.push(p);
        } else if label.starts_with("Show") {
            let mut todo = vec![p];
            while let Some(e) = todo.pop() {
                if w.get::<Button>(e).is_some() {
                    out.push(e);
                }
                todo.extend(w.get::<Children>(e).map(|c| c.iter().collect::<Vec<_>>()).unwrap_or_default());
            }
        }
    }
    out
}

fn click(e: &mut Editor, label: &str) {
    let w = e.app.world_mut();
    let window = w.query_filtered::<Entity, With<Window>>().single(w).unwrap();
    for b in buttons(w, label) {
        let at = Location { target: NormalizedRenderTarget::Window(WindowRef::Entity(window).normalize(None).unwrap()), position: Vec2::ZERO };
        let c = Click { button: PointerButton::Primary, hit: HitData::new(window, 0.0, None, None), duration: Duration::from_millis(100) };
        w.trigger_targets(Pointer::new(PointerId::Mouse, at, b, c), b);
        w.flush();
    }
}

const SHOW: [&str; 4] = ["Show Visual", "Show Affector", "Show Polygon Mesh", "Show Detail Mesh"];

struct Ui {
    e: Editor,
    open: bool,
    nodes: usize,
}

impl Ui {
    fn new() -> Ui {
        let mut e = Editor::with(|a| {
            a.add_plugins((crate::ui::plugin, crate::theme::plugin));
            a.world_mut().spawn(Window::default());
        });
        let nodes = Self::nodes(&mut e);
        Ui { e, open: false, nodes }
    }
    fn nodes(e: &mut Editor) -> usize {
        let w = e.app.world_mut();
        w.query::<&Node>().iter(w).count()
    }

    /// Operations that the user can reach.
    fn op(&mut self, o: u64, l: &mut Run) -> R {
        match o {
            0 => {
                if !self.open {
                    click(&mut self.e, "Load Scene");
                    self.open = true;
                }
            }
            1 => {
                if self.open {
                    click(&mut self.e, "x");
                    self.open = false;
                }
            }
            2 | 3 => {
                if self.open {
                    let mut again = false;
                    self.e.load_by(&fixed(o as usize - 2), |e| {
                        if std::mem::replace(&mut again, true) {
                            click(e, "Load Scene");
                        }
                        click(e, "Load")
                    })?;
                    self.open = false;
                    l.label("scenes loaded");
                }
            }
            4 => {
                if self.open {
                    self.e.load_failing_by(4, |e| click(e, "Load"))?;
                    self.open = false;
                    l.label("failing loads");
                }
            }
            5 => {
                if !self.open {
                    self.e.app.update();
                    self.e.build_by(l, |e| click(e, "Build Navmesh"))?;
                }
            }
            _ => {
                if !self.open {
                    let k = o as usize - 6;
                    click(&mut self.e, SHOW[k]);
                    self.e.toggled(k);
                }
            }
        }
        Ok(())
    }

    fn check(&mut self, l: &mut Run) -> R {
        // nothing but the load button asks the game
        let (r, asked) = answering(crate::server::Answer::HangUp, || {
            let mut r = Ok(());
            let n = errors(|| r = self.e.check(l));
            r.and(if n > 0 { Err(format!("{n} errors while a frame passes")) } else { Ok(()) })
        });
        r?;
        ensure!(asked.is_empty(), "the game is asked without the load button");
        let w = self.e.app.world_mut();
        for b in ["Load Scene", "Build Navmesh", "Show Visual", "Show Affector", "Show Polygon Mesh", "Show Detail Mesh"] {
            let n = buttons(w, b).len();
            ensure!(n == 1, "{n} buttons \"{b}\"");
        }
        for b in ["x", "Load"] {
            let n = buttons(w, b).len();
            ensure!(n == self.open as usize, "{n} buttons \"{b}\" while the dialog is {}", if self.open { "open" } else { "closed" });
        }
        let n = Self::nodes(&mut self.e);
        ensure!((n > self.nodes) == self.open && n >= self.nodes, "{n} elements on the screen while the dialog is {} ({} without dialog)", if self.open { "open" } else { "closed" }, self.nodes);
        Ok(())
    }
}
const OPS: u64 = 10;
fn op_name(o: u64) -> &'static str {
    ["Load Scene", "x", "Load (scene 0)", "Load (scene 1)", "Load (failing)", "Build Navmesh", SHOW[0], SHOW[1], SHOW[2], SHOW[3]][o as usize]
}

// ---- camera ----

/// What the user does in one frame.
#[derive(Clone, Debug)]
struct Input {
    /// W S D A E Q Shift
    held: u8,
    right: bool,
    m: bool,
    motion: Vec2,
    scroll: f32,
    pixels: bool,
    dt: f32,
}
const KEYS: [KeyCode; 7] = [KeyCode::KeyW, KeyCode::KeyS, KeyCode::KeyD, KeyCode::KeyA, KeyCode::KeyE, KeyCode::KeyQ, KeyCode::ShiftLeft];
const IDLE: Input = Input { held: 0, right: false, m: false, motion: Vec2::ZERO, scroll: 0.0, pixels: false, dt: 0.125 };

struct Camera3 {
    app: App,
    cam: Entity,
    windows: [Entity; 2],
    last: Input,
    // the model
    pos: Vec3,
    yaw: f32,
    pitch: f32,
    speed: f32,
    vel: Vec3,
    toggled: bool,
}

impl Camera3 {
    fn new(pos: Vec3, yaw: f32, pitch: f32) -> Camera3 {
        let mut app = App::new();
        app.init_resource::<Time>().init_resource::<AccumulatedMouseMotion>().init_resource::<AccumulatedMouseScroll>().init_resource::<ButtonInput<MouseButton>>().init_resource::<ButtonInput<KeyCode>>();
        app.add_plugins(CameraControllerPlugin);
        let w = app.world_mut();
        let cam = w.spawn((Camera::default(), CameraController::default(), Transform::from_translation(pos).with_rotation(Quat::from_rotation_y(yaw) * Quat::from_rotation_x(pitch)))).id();
        let windows = [true, false].map(|focused| w.spawn(Window { focused, ..default() }).id());
        Camera3 { app, cam, windows, last: IDLE, pos, yaw, pitch, speed: 15.0, vel: Vec3::ZERO, toggled: false }
    }

    fn frame(&mut self, i: &Input, l: &mut Run) -> R {
        let w = self.app.world_mut();
        {
            let mut k = w.resource_mut::<ButtonInput<KeyCode>>();
            k.clear();
            for (b, key) in KEYS.into_iter().enumerate() {
                match (i.held >> b & 1, self.last.held >> b & 1) {
                    (1, 0) => k.press(key),
                    (0, 1) => k.release(key),
                    _ => {}
                }
            }
            match (i.m, self.last.m) {
                (true, false) => k.press(KeyCode::KeyM),
                (false, true) => k.release(KeyCode::KeyM),
                _ => {}
            }
            let mut b = w.resource_mut::<ButtonInput<MouseButton>>();
            b.clear();
            match (i.right, self.last.right) {
                (true, false) => b.press(MouseButton::Right),
                (false, true) => b.release(MouseButton::Right),
                _ => {}
            }
            w.resource_mut::<AccumulatedMouseMotion>().delta = i.motion;
            *w.resource_mut::<AccumulatedMouseScroll>() = AccumulatedMouseScroll { unit: if i.pixels { MouseScrollUnit::Pixel } else { MouseScrollUnit::Line }, delta: Vec2::new(0.0, i.scroll * if i.pixels { 16.0 } else { 1.0 }) };
            w.resource_mut::<Time>().advance_by(Duration::from_secs_f32(i.dt));
        }
        self.app.update();
        l.step();

        // the model
        if i.m && !self.last.m {
            self.toggled = !self.toggled;
        }
        let grabbed = self.toggled || i.right;
        self.speed *= 1.0 + 0.1 * i.scroll;
        let k = |b: u8| (i.held >> b & 1) as f32;
        let dir = Vec3::new(k(2) - k(3), k(4) - k(5), k(0) - k(1));
        if grabbed && dir != Vec3::ZERO {
            self.vel = dir / dir.length() * self.speed * if k(6) == 1.0 { 3.0 } else { 1.0 };
            l.label("frames of flight");
        } else {
            self.vel /= 2.0;
        }
        let (sy, cy) = self.yaw.sin_cos();
        let (sp, cp) = self.pitch.sin_cos();
        let forward = Vec3::new(-sy * cp, sp, -cy * cp);
        let right = Vec3::new(cy, 0.0, -sy);
        self.pos += (right * self.vel.x + Vec3::Y * self.vel.y + forward * self.vel.z) * i.dt;
        if grabbed {
            self.yaw -= i.motion.x / 360.0;
            self.pitch = (self.pitch - i.motion.y / 360.0).clamp(-std::f32::consts::FRAC_PI_2, std::f32::consts::FRAC_PI_2);
        }
        let before = std::mem::replace(&mut self.last, i.clone());
        let _ = before;

        // comparison
        let w = self.app.world();
        let t = w.get::<Transform>(self.cam).unwrap();
        let tol = 1e-3 * (1.0 + self.pos.length() * 0.01 + self.speed * 0.01);
        ensure!(t.translation.abs_diff_eq(self.pos, tol), "the camera is at {} instead of {} ({i:?}, {})", t.translation, self.pos, if grabbed { "grabbed" } else { "not grabbed" });
        let want = Quat::from_rotation_y(self.yaw) * Quat::from_rotation_x(self.pitch);
        ensure!((0..3).all(|k| (t.rotation * Vec3::AXES[k]).abs_diff_eq(want * Vec3::AXES[k], 1e-3)), "the camera looks to {} (up {}) instead of {} (up {}) after {i:?}", t.forward().as_vec3(), t.up().as_vec3(), want * Vec3::NEG_Z, want * Vec3::Y);
        for (k, win) in self.windows.into_iter().enumerate() {
            let o = &w.get::<Window>(win).unwrap().cursor_options;
            let lock = grabbed && k == 0;
            ensure!((o.grab_mode == CursorGrabMode::Locked) == lock && (o.grab_mode == CursorGrabMode::None) != lock && o.visible != lock, "the cursor of the {} window is {:?}, visible {}, while the view is {}grabbed", ["focused", "other"][k], o.grab_mode, o.visible, if grabbed { "" } else { "not " });
        }
        Ok(())
    }
}

const VIEWS: [(f32, f32); 6] = [(0.0, 0.0), (0.9, -0.4), (-2.5, 1.2), (3.0, -1.5), (1.5, 0.3), (-0.7, 0.0)];

fn spaces(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    // every sequence of clicks
    let depth = t.pick(4, 5u32);
    let ops = move |i: u64| {
        let mut d = Dec(i);
        (0..depth).map(|_| d.take(OPS)).collect::<Vec<_>>()
    };
    out.push(Space::new("clicks", OPS.pow(depth), move |i| ops(i).into_iter().map(op_name).collect::<Vec<_>>().join("; "), move |i, l| {
        let mut u = Ui::new();
        u.check(l)?;
        for o in ops(i) {
            u.op(o, l)?;
            u.check(l)?;
        }
        l.trace();
        l.state(i);
        l.nontrivial += 1;
        Ok(())
    }));
    // clicks before the next frame
    let ops = move |i: u64| {
        let mut d = Dec(i);
        (0..3).map(|_| 5 + d.take(5)).collect::<Vec<_>>()
    };
    out.push(Space::new("quick-clicks", 125, move |i| ops(i).into_iter().map(op_name).collect::<Vec<_>>().join("; "), move |i, l| {
        let mut u = Ui::new();
        u.op(0, l)?;
        u.op(2, l)?;
        for o in ops(i) {
            u.op(o, l)?;
        }
        u.check(l)?;
        l.trace();
        l.state(i | 1 << 40);
        l.nontrivial += 1;
        Ok(())
    }));
    // the colours of buttons
    let n = 6u64;
    out.push(Space::new("colours", n.pow(4) * 6, |i| format!("button {}, history {}", i % 6, i / 6), move |i, l| {
        let mut d = Dec(i);
        let which = ["Load Scene", "Build Navmesh", SHOW[0], SHOW[1], SHOW[2], SHOW[3]][d.take(6) as usize];
        let mut u = Ui::new();
        let all: Vec<Entity> = ["Load Scene", "Build Navmesh", SHOW[0], SHOW[1], SHOW[2], SHOW[3]].into_iter().flat_map(|b| buttons(u.e.app.world_mut(), b)).collect();
        let b = buttons(u.e.app.world_mut(), which)[0];
        let (mut touch, mut blocked) = (Interaction::None, false);
        for _ in 0..4 {
            let w = u.e.app.world_mut();
            match d.take(n) {
                k @ 0..=2 => {
                    touch = [Interaction::None, Interaction::Hovered, Interaction::Pressed][k as usize];
                    *w.get_mut::<Interaction>(b).unwrap() = touch;
                }
                k @ 3..=4 => {
                    blocked = k == 3;
                    w.entity_mut(b).insert(Pickable { should_block_lower: !blocked, is_hoverable: true });
                }
                _ => {}
            }
            u.e.app.update();
            l.step();
            let w = u.e.app.world();
            for o in &all {
                let p = w.get::<InteractionPalette>(*o).unwrap();
                let want = match touch {
                    _ if *o != b => p.none,
                    _ if blocked => p.disabled,
                    Interaction::None => p.none,
                    Interaction::Hovered => p.hovered,
                    Interaction::Pressed => p.pressed,
                };
                let got = w.get::<BackgroundColor>(*o).unwrap().0;
                ensure!(got == want, "a button has the colour {got:?} instead of {want:?} ({touch:?}, disabled {blocked}, the one in use: {})", *o == b);
            }
        }
        l.trace();
        l.state(i | 2 << 40);
        l.nontrivial += 1;
        Ok(())
    }));
    // every set of keys, way of grabbing and view
    out.push(Space::new("flight", 128 * 4 * 6 * 3, |i| format!("keys {:07b}, grab {}, view {}, scroll {}", i % 128, i / 128 % 4, i / 512 % 6, i / 3072), |i, l| {
        let mut d = Dec(i);
        let (held, grab, view, scroll) = (d.take(128) as u8, d.take(4), VIEWS[d.take(6) as usize], [0.0, 1.0, -2.0][d.take(3) as usize]);
        let mut c = Camera3::new(Vec3::new(3.0, 10.0, -4.0), view.0, view.1);
        let a = Input { held, right: grab & 1 == 1, m: grab & 2 == 2, scroll, ..IDLE };
        c.frame(&IDLE, l)?;
        c.frame(&a, l)?;
        c.frame(&Input { motion: Vec2::new(40.0, -25.0), scroll: 0.0, ..a.clone() }, l)?;
        c.frame(&Input { dt: 0.03125, scroll: 0.0, pixels: true, ..a.clone() }, l)?;
        for _ in 0..3 {
            c.frame(&Input { held: 0, scroll: 0.0, ..a.clone() }, l)?;
        }
        c.frame(&Input { held, ..IDLE }, l)?;
        c.frame(&IDLE, l)?;
        l.trace();
        l.state(i | 3 << 40);
        l.nontrivial += 1;
        Ok(())
    }));
    // every history of keys, buttons, mouse and wheel
    const MOVES: u64 = 12;
    let depth = t.pick(5, 6u32);
    let ops = move |i: u64| {
        let mut d = Dec(i);
        (0..depth).map(|_| d.take(MOVES)).collect::<Vec<_>>()
    };
    out.push(Space::new("camera-histories", MOVES.pow(depth), move |i| format!("{:?} (press or release: 0 M, 1 right button, 2 W, 3 A, 4 E, 5 shift; 6 mouse, 7 mouse far up, 8 wheel up, 9 wheel down by pixels, 10 nothing, 11 M twice)", ops(i)), move |i, l| {
        let mut c = Camera3::new(Vec3::new(1.0, 2.0, 3.0), 0.7, -0.4);
        let mut s = IDLE;
        for o in ops(i) {
            let mut now = s.clone();
            match o {
                0 => now.m = !now.m,
                1 => now.right = !now.right,
                2 => now.held ^= 1,
                3 => now.held ^= 8,
                4 => now.held ^= 16,
                5 => now.held ^= 64,
                6 => now.motion = Vec2::new(-90.0, 33.0),
                7 => now.motion = Vec2::new(7.0, -2000.0),
                8 => now.scroll = 1.0,
                9 => (now.scroll, now.pixels) = (-2.0, true),
                11 => {
                    now.m = !now.m;
                    c.frame(&now, l)?;
                    now.m = !now.m;
                }
                _ => {}
            }
            c.frame(&now, l)?;
            s = Input { motion: Vec2::ZERO, scroll: 0.0, pixels: false, ..now };
        }
        c.frame(&s, l)?;
        l.trace();
        l.state(i | 4 << 40);
        l.nontrivial += 1;
        Ok(())
    }));
    out
}
