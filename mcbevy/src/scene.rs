//! Small helpers shared by the world-based properties.
use crate::fw::R;
use bevy_ecs::prelude::*;
use bevy_math::{Affine3A, Mat3A, Quat, Vec3, Vec3A};
use bevy_rerecast_core::NavmeshAffectorBackend;
use bevy_transform::prelude::GlobalTransform;
use rerecast::TriMesh;

/// World transforms used for objects: identity, moved, turned, and scaled with a turn.
pub fn transforms() -> Vec<GlobalTransform> {
    let m = |s: Vec3, r: Quat, t: Vec3| GlobalTransform::from(Affine3A::from_scale_rotation_translation(s, r, t));
    vec![
        GlobalTransform::IDENTITY,
        m(Vec3::ONE, Quat::IDENTITY, Vec3::new(3.0, -2.0, 5.5)),
        m(Vec3::new(2.0, 0.5, 3.0), Quat::from_rotation_y(0.7) * Quat::from_rotation_x(0.3), Vec3::new(-1.0, 4.0, 0.25)),
        GlobalTransform::from(Affine3A { matrix3: Mat3A::from_cols(Vec3A::new(1.0, 0.5, 0.0), Vec3A::new(0.0, 1.0, 0.25), Vec3A::new(0.0, 0.0, 2.0)), translation: Vec3A::new(9.0, 0.0, 1.0) }),
    ]
}

pub type Item = (GlobalTransform, TriMesh);

/// A total description of one contribution: all bits of the transform and of the mesh.
pub fn key(i: &Item) -> String {
    let a = i.0.affine();
    let mut s = String::new();
    for c in [a.matrix3.x_axis, a.matrix3.y_axis, a.matrix3.z_axis, a.translation] {
        for f in c.to_array() {
            s += &format!("{:08x}", f.to_bits());
        }
    }
    s.push('|');
    for v in &i.1.vertices {
        s += &format!("{:08x}{:08x}{:08x},", v.x.to_bits(), v.y.to_bits(), v.z.to_bits());
    }
    s + &format!("|{:?}|{:?}", i.1.indices, i.1.area_types)
}

/// Compares two lists of contributions irrespective of order.
pub fn same_items(what: &str, got: &[Item], want: &[Item]) -> R {
    let mut g: Vec<String> = got.iter().map(key).collect();
    let mut w: Vec<String> = want.iter().map(key).collect();
    g.sort();
    w.sort();
    if g != w {
        let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).collect();
        let missing: Vec<_> = w.iter().filter(|x| !g.contains(x)).collect();
        return Err(format!("{what}: {} contributions instead of {}; not expected {extra:?}; missing {missing:?}", g.len(), w.len()));
    }
    Ok(())
}

/// Runs the geometry source that is in effect.
pub fn run_backend(w: &mut World) -> Result<Vec<Item>, String> {
    let id = w.get_resource::<NavmeshAffectorBackend>().cloned().ok_or("no backend resource")?;
    w.run_system(*id).map_err(|e| format!("backend did not run: {e}"))
}
