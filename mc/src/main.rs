mod fw;
mod model;
mod p_access;
mod p_contours;
mod p_detail;
mod p_e2e;
mod p_field;
mod p_geometry;
mod p_heightfield;
mod p_place;
mod p_poly;
mod p_regions;
mod p_scene;
mod p_serde;
mod plans;

use fw::*;
use std::time::Duration;

fn properties() -> Vec<Property> {
    let mut v = vec![];
    v.extend(p_heightfield::properties());
    v.extend(p_geometry::properties());
    v.extend(p_field::properties());
    v.extend(p_regions::properties());
    v.extend(p_contours::properties());
    v.extend(p_poly::properties());
    v.extend(p_detail::properties());
    v.extend(p_e2e::properties());
    v.extend(p_scene::properties());
    v.extend(p_place::properties());
    v.extend(p_serde::properties());
    v.extend(p_access::properties());
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = properties();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = &a[2];
            let tier = match a.get(3).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let only = a.get(4).map(|s| s.as_str());
            let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            });
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let budget = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(420, 6 * 3600));
            let ev = std::env::var("MC_EVIDENCE").unwrap_or(format!("/verif/evidence/{id}.json"));
            std::process::exit(run_property(p, tier, seed, Duration::from_secs(budget), "/verif/out", &ev, only, 1));
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let p = props.iter().find(|p| p.id == j["property"].as_str().unwrap()).unwrap();
            std::process::exit(replay(p, j["space"].as_str().unwrap(), j["index"].as_u64().unwrap()));
        }
        Some("case") => {
            let p = props.iter().find(|p| p.id == a[2]).unwrap();
            std::process::exit(replay(p, &a[3], a[4].parse().unwrap()));
        }
        Some("debug-poly") => {
            // debug-poly PLAN INDEX border min merge err len nvp
            let t = if std::env::var("MC_T").is_ok() { Tier::Thorough } else { Tier::Quick };
            let p = p_regions::region_plans(t).into_iter().find(|p| p.name == a[2]).unwrap();
            let n = |i: usize| a[i].parse::<u16>().unwrap();
            println!("{}", p.show(a[3].parse().unwrap()));
            p_poly::debug(&p, a[3].parse().unwrap(), &p_poly::Cfg { border: n(4), min: n(5), merge: n(6), err: a[7].parse().unwrap(), len: n(8), nvp: n(9) });
        }
        Some("debug-detail") => p_detail::debug(&a[2], a[3].parse().unwrap()),
        Some("list") => {
            for p in props {
                for t in [Tier::Quick, Tier::Thorough] {
                    let s = (p.spaces)(t);
                    println!("{} {t:?}: {}", p.id, s.iter().map(|s| format!("{}({})", s.name, s.size)).collect::<Vec<_>>().join(" "));
                }
            }
        }
        _ => {
            eprintln!("usage: mc check ID quick|thorough | replay FILE | case ID SPACE INDEX | list");
            std::process::exit(2);
        }
    }
}
