mod docs;
mod engine;
mod lsp;
mod model;
mod props;
mod session;
use engine::*;

/// Removes the scratch directory if this process made it.
fn finish(code: i32, mine: &Option<String>) -> ! {
    if let Some(d) = mine {
        let _ = std::fs::remove_dir_all(d);
    }
    std::process::exit(code)
}

fn main() {
    let mut mine = None;
    if std::env::var("MC_SCRATCH").is_err() {
        let d = std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id())).to_string_lossy().to_string();
        std::env::set_var("MC_SCRATCH", &d);
        mine = Some(d);
    }
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: mc check|child <ID> <quick|thorough> | mc replay <file> | mc list");
        std::process::exit(2)
    };
    session::install_panic_hook();
    if a.get(1).map(|s| s.as_str()) == Some("list") {
        for id in props::IDS {
            for t in [Tier::Quick, Tier::Thorough] {
                let c = props::build(id, t).unwrap();
                for s in c.spaces {
                    println!("{id} {:<9} {:<28} {:>10}  {}", tier_name(t), s.name, s.size, s.what.chars().take(110).collect::<String>());
                }
            }
        }
        finish(0, &mine);
    }
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        let f = a.get(2).unwrap_or_else(|| usage());
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        let c = props::build(j["property"].as_str().unwrap(), tier).unwrap();
        finish(child(c, tier, None, Some((j["space"].as_str().unwrap().to_string(), j["index"].as_u64().unwrap()))), &mine);
    }
    if a.len() < 4 {
        usage()
    }
    let tier = match a[3].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    };
    let Some(check) = props::build(&a[2], tier) else {
        eprintln!("no check {}", a[2]);
        std::process::exit(2)
    };
    let code = match a[1].as_str() {
        "check" => {
            let names: Vec<String> = check.spaces.iter().map(|s| s.name.clone()).collect();
            supervise(check.id, tier, &names)
        }
        "child" => {
            let mut progress = None;
            let mut only = None;
            let mut i = 4;
            while i < a.len() {
                match a[i].as_str() {
                    "--progress" => {
                        progress = Some(a[i + 1].clone());
                        i += 2;
                    }
                    "--only" => {
                        only = Some((a[i + 1].clone(), a[i + 2].parse().unwrap()));
                        i += 3;
                    }
                    _ => usage(),
                }
            }
            child(check, tier, progress, only)
        }
        _ => usage(),
    };
    finish(code, &mine);
}
