mod arena;
mod call;
mod chunk;
mod engine;
mod faults;
mod gen;
mod json;
mod lang;
mod model;
mod props;
mod rng;
mod sched;
mod seams;
mod sys;
mod vm;

use std::sync::atomic::Ordering::Relaxed;

fn props() -> Vec<engine::Prop> {
    use props::*;
    // Built with tracing, the simulator decides only C10.
    #[cfg(feature = "trace")]
    return vec![c10::PROP];
    // Built with serialization support, only C12.
    #[cfg(feature = "stored")]
    return vec![c12::PROP];
    #[cfg(not(any(feature = "trace", feature = "stored")))]
    vec![c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    call::install_panic_hook();
    // lunify's callers get the default stack of a Rust thread.
    unsafe { sys::setrlimit(3, &[2 << 20, 2 << 20]) };
    seams::COVERAGE.store(sys::shared(seams::MAX_EDGES), Relaxed);
    arena::map();
    #[cfg(feature = "trace")]
    props::c10::plain();
    #[cfg(not(any(feature = "trace", feature = "stored")))]
    vm::load_all(&root);
    let props = props();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| engine::fatal("unknown property"));
    let code = match args.get(1).map(|x| x.as_str()) {
        Some("check") => engine::check(find(&args[2]), &root),
        Some("replay") => engine::replay(&props, &args[2]),
        Some("show") => {
            engine::show(find(&args[2]), engine::env_u64("VERIF_SEED", 1), args[3].parse().unwrap());
            0
        }
        Some("repeat") => {
            engine::repeat(find(&args[2]), engine::env_u64("VERIF_SEED", 1), args[3].parse().unwrap());
            0
        }
        Some("survey") => {
            engine::survey(find(&args[2]), engine::env_u64("VERIF_SEED", 1), args[3].parse().unwrap());
            0
        }
        // Development: a source file as a byte code file of luac on the host.
        #[cfg(not(feature = "trace"))]
        Some("compile") => {
            use chunk::*;
            let v50 = args[3] == "50";
            let machine = vm::machine(if v50 { "vm50_32" } else { "vm50" });
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let bytes = machine.compile(&text, args.get(5).is_some()).unwrap_or_else(|e| engine::fatal(&e));
            let f = decode(&bytes, &Sets::default()).root.unwrap();
            let mut f = f;
            f.walk_mut(&mut |f| if v50 { f.vararg = (f.vararg != 0) as u8 });
            let sets = Sets::default();
            let (ver, consts) = if v50 { (Ver::L50, &sets.lua50) } else { (Ver::L51, &sets.lua51) };
            std::fs::write(&args[4], encode(ver, Fmt::HOST, consts, &f)).unwrap();
            0
        }
        _ => engine::fatal("usage: lunify-sim check ID | replay FILE | show ID INDEX"),
    };
    unsafe { sys::_exit(code) }
}
