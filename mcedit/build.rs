//! Modules the editor declares beyond those named in src/main.rs (e.g. a helper moved to a file of its own) are compiled in too.
use std::{env, fs, path::Path};

fn main() {
    let dir = Path::new("/repo/crates/bevy_rerecast_editor/src");
    println!("cargo:rerun-if-changed={}", dir.join("main.rs").display());
    let mut out = String::new();
    for l in fs::read_to_string(dir.join("main.rs")).unwrap_or_default().lines() {
        let l = l.trim();
        let name = l.rsplit("mod ").next().unwrap_or("").trim_end_matches(';').trim();
        let declares = l.ends_with(';') && (l.starts_with("mod ") || (l.starts_with("pub") && l.contains(" mod ")));
        if !declares || ["build", "camera", "get_navmesh_input", "theme", "ui", "visualization"].contains(&name) {
            continue;
        }
        for f in [dir.join(format!("{name}.rs")), dir.join(name).join("mod.rs")] {
            if f.exists() {
                out += &format!("#[path = {f:?}]\nmod {name};\n");
            }
        }
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("extra.rs"), out).unwrap();
}
