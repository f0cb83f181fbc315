//! mc CHECK quick|thorough OUT.json [--only KEY]: explores one property on one protocol version.
mod checks;
mod env;
#[cfg(feature = "v2024_11_05")]
#[path = "gen/v2024_11_05.rs"]
mod gen;
#[cfg(feature = "v2025_03_26")]
#[path = "gen/v2025_03_26.rs"]
mod gen;
#[cfg(feature = "v2025_06_18")]
#[path = "gen/v2025_06_18.rs"]
mod gen;
#[cfg(feature = "v2025_11_25")]
#[path = "gen/v2025_11_25.rs"]
mod gen;
#[cfg(feature = "v2026_07_28")]
#[path = "gen/v2026_07_28.rs"]
mod gen;
#[cfg(feature = "vdraft")]
#[path = "gen/vdraft.rs"]
mod gen;
mod hand;
mod reg;

use checks::*;
use mccore::ctx::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: mc CHECK quick|thorough OUT.json [--only KEY]");
        std::process::exit(2);
    }
    let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
    if std::env::var("MC_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let e = env::Env::load();
            let mut c = Ctx::new(&a[1], e.version, a[2] == "thorough", only);
            if let Some(i) = a.iter().position(|x| x == "--part") {
                c.part = (a[i + 1].parse().unwrap(), a[i + 2].parse().unwrap());
            }
            match a[1].as_str() {
                "C01" => schema::round_trip(&e, &mut c),
                "C02" => schema::damaged(&e, &mut c, false),
                "C03" => {
                    schema::damaged(&e, &mut c, true);
                    build::constant_accessors(&e, &mut c);
                    errors::code_table(&mut c)
                }
                "C04" => messages::messages(&e, &mut c, true),
                "C05" => messages::messages(&e, &mut c, false),
                "C06" => results::results(&e, &mut c),
                "C08" => {
                    convert::into(&e, &mut c);
                    batch::batches(&e, &mut c, true);
                    build::plain(&mut c)
                }
                "C09" => convert::extract(&e, &mut c),
                #[cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))]
                "C10" => gating::gating(&e, &mut c, true),
                #[cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))]
                "C11" => gating::gating(&e, &mut c, false),
                #[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
                "C21" => flow::sessions(&e, &mut c),
                #[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
                "C22" => flow::meta(&e, &mut c),
                "C23" => flow::helpers(&e, &mut c),
                "C12" => values::versions(&e, &mut c),
                "C15" => values::text(&e, &mut c),
                "C16" => values::ids(&e, &mut c),
                "C17" => values::primitives(&e, &mut c),
                "C18" => values::enums(&e, &mut c),
                "C24" => session::sessions(&e, &mut c),
                "C25" => same::observe(&e, &mut c),
                "C13" => batch::batches(&e, &mut c, false),
                "C14" => errors::errors(&e, &mut c),
                "C20" => errors::tool_errors(&e, &mut c),
                "C19" => build::constructors(&e, &mut c),
                "C07" => assembly::assembly(&e, &mut c),
                "probe" => {
                    for l in std::io::stdin().lines() {
                        let l = l.unwrap();
                        let (side, doc) = l.split_once(' ').unwrap();
                        let d: serde_json::Value = serde_json::from_str(doc).unwrap();
                        println!("{:?}", mccore::ctx::guard(|| hand::message(side == "c", &d).map(|v| v.to_string())));
                    }
                }
                x => {
                    eprintln!("no check {x}");
                    std::process::exit(2)
                }
            }
            std::fs::write(&a[3], serde_json::to_string_pretty(&c.report()).unwrap()).unwrap();
        })
        .unwrap();
    if let Err(e) = t.join() {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("the check itself failed: {m}");
        std::process::exit(3);
    }
}
