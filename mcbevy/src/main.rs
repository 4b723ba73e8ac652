//! Model checking harness for the Bevy side of the repository (C20-C24).
#[path = "../../mc/src/fw.rs"]
mod fw;
mod p_backend;
mod p_collider;
mod p_mesh;
mod p_remote;
mod p_transport;
mod scene;

use fw::*;
use std::time::Duration;

fn properties() -> Vec<Property> {
    vec![p_transport::property(), p_remote::property(), p_collider::property(), p_mesh::property(), p_backend::property()]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = properties();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = &a[2];
            let tier = match a.get(3).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let budget = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(420, 6 * 3600));
            let ev = std::env::var("MC_EVIDENCE").unwrap_or(format!("/verif/evidence/{id}.json"));
            std::process::exit(run_property(find(id), tier, seed, Duration::from_secs(budget), "/verif/out", &ev, a.get(4).map(|s| s.as_str()), 1));
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            std::process::exit(replay(find(j["property"].as_str().unwrap()), j["space"].as_str().unwrap(), j["index"].as_u64().unwrap()));
        }
        Some("case") => std::process::exit(replay(find(&a[2]), &a[3], a[4].parse().unwrap())),
        Some("list") => {
            for p in &props {
                for t in [Tier::Quick, Tier::Thorough] {
                    println!("{} {t:?}: {}", p.id, (p.spaces)(t).iter().map(|s| format!("{}({})", s.name, s.size)).collect::<Vec<_>>().join(" "));
                }
            }
        }
        _ => {
            eprintln!("usage: mcbevy check ID quick|thorough | replay FILE | case ID SPACE INDEX | list");
            std::process::exit(2);
        }
    }
}
