//! All properties.

use crate::engine::{self, Prop};

pub fn props() -> &'static [Prop] {
    let mut v = crate::front::props();
    v.extend(crate::run::props());
    v.extend(crate::cli::props());
    v.extend(crate::rt::props());
    Box::leak(v.into_boxed_slice())
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("emit-one") => {
            // with an ordinary stack
            print!("{}", crate::front::emit_outcome(&args[2]));
        }
        Some("emit-many") => {
            let f = args[2].clone();
            engine::big_stack(move || {
                let v: Vec<String> = serde_json::from_str(&std::fs::read_to_string(&f).expect("file")).expect("json");
                for p in v {
                    println!("{}", crate::util::hash(&crate::front::emit_outcome(&p)));
                }
            });
        }
        Some("prepare") => {
            // builds what setups build, so that later runs find it ready
            let sc = engine::Scratch::new("prepare");
            let r = crate::batch::setup_rt(&sc.0).and_then(|()| crate::batch::setup_bins(&sc.0));
            drop(sc);
            if let Err(m) = r {
                eprintln!("ERROR: {}", m);
                std::process::exit(2);
            }
        }
        _ => engine::main(props()),
    }
}
