mod engine;
mod exact;
mod gen;
mod p_conv;
mod p_io;
mod p_more;
mod p_flux;
mod p_state;
mod p_time;
mod refsol;
mod sim;

use engine::{Env, Property, Stop, Tier};
use std::io::Write;
use std::os::fd::FromRawFd;

/// The properties by id, in order
const PROPS: &[(&str, fn() -> Property)] = &[
    ("C01", p_state::c01),
    ("C02", p_state::c02),
    ("C03", p_state::c03),
    ("C04", p_state::c04),
    ("C05", p_flux::c05),
    ("C06", p_flux::c06),
    ("C07", p_flux::c07),
    ("C08", p_flux::c08),
    ("C09", p_flux::c09),
    ("C10", p_flux::c10),
    ("C11", p_flux::c11),
    ("C12", p_time::c12),
    ("C13", p_time::c13),
    ("C14", p_time::c14),
    ("C15", p_time::c15),
    ("C16", p_io::c16),
    ("C17", p_io::c17),
    ("C18", p_io::c18),
    ("C19", p_io::c19),
    ("C20", p_io::c20),
    ("C21", p_io::c21),
    ("C22", p_io::c22),
    ("C23", p_io::c23),
    ("C24", p_time::c24),
    ("C25", p_state::c25),
    ("C26", p_conv::c26),
    ("C27", p_conv::c27),
    ("C28", p_state::c28),
    ("C29", p_state::c29),
    ("C30", p_io::c30),
    ("C31", p_time::c31),
    ("C32", p_state::c32),
    ("C33", p_state::c33),
    ("C34", p_io::c34),
    ("C35", p_flux::c35),
    ("C36", p_flux::c36),
    ("C37", p_flux::c37),
    ("C38", p_io::c38),
    ("C39", p_io::c39),
    ("C40", p_io::c40),
    ("C41", p_more::c41),
    ("C42", p_more::c42),
    ("C43", p_more::c43),
    ("C44", p_more::c44),
    ("C45", p_more::c45),
    ("C46", p_more::c46),
    ("C47", p_more::c47),
];

fn usage() -> ! {
    eprintln!("usage: verif run <ID> <quick|thorough> <work dir> <out dir> <replay dir> | replay <file> <work dir>");
    std::process::exit(3)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        usage()
    }
    if args[1] == "child" && (5..=6).contains(&args.len()) {
        engine::install_panic_hook();
        let code = p_io::child(&args[2..]);
        std::process::exit(code);
    }
    if args[1] == "trace" && args.len() == 5 {
        engine::install_panic_hook();
        let code = p_io::trace_child(&args[2..]);
        std::process::exit(code);
    }
    // keep the real stdout for reports; whatever corries prints goes nowhere
    let mut report = unsafe {
        let saved = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        if saved < 0 || null < 0 || libc::dup2(null, 1) < 0 {
            eprintln!("cannot redirect stdout");
            std::process::exit(3);
        }
        std::fs::File::from_raw_fd(saved)
    };
    engine::install_panic_hook();
    let find = |id: &str| PROPS.iter().find(|x| x.0 == id).map(|x| (x.1)());
    let env = |work: &str, out: &str, replay_dir: &str, tier| {
        let abs = |p: &str| std::fs::canonicalize(p).unwrap_or_else(|e| panic!("{p}: {e}"));
        let shards = 8;
        Env {
            seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
            tier,
            work: abs(work),
            out: abs(out),
            replay_dir: replay_dir.to_string(),
            shards,
            scale: std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0),
            current: std::sync::Arc::new((0..shards).map(|_| std::sync::Mutex::new(None)).collect()),
        }
    };
    let code = match args[1].as_str() {
        "list" => {
            for p in PROPS {
                let _ = writeln!(report, "{}", p.0);
            }
            0
        },
        "run" if args.len() == 7 => {
            let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let env = env(&args[4], &args[5], &args[6], tier);
            let Some(prop) = find(&args[2]) else { usage() };
            std::env::set_current_dir(&env.work).expect("working directory");
            engine::watch(&env, prop.id, report.try_clone().unwrap());
            engine::run_property(&prop, &env, &mut report)
        },
        "replay" if args.len() == 4 => {
            let doc: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let id = doc["property"].as_str().unwrap().to_string();
            let Some(prop) = find(&id) else { usage() };
            let env = env(&args[3], &args[3], "", Tier::Quick);
            let part = doc["part"].as_str().unwrap();
            let p = prop.parts.iter().find(|p| p.name() == part).expect("unknown part");
            std::env::set_current_dir(&env.work).expect("working directory");
            let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(16 << 20).build().unwrap();
            match pool.install(|| p.replay(&env, &doc["case"])) {
                Err(Stop::Fail(m)) => {
                    let _ = writeln!(report, "# {m}\nVIOLATION property={id} replay={}", args[2]);
                    1
                },
                Err(Stop::Harness(m)) => {
                    let _ = writeln!(report, "# HARNESS ERROR {m}");
                    2
                },
                r => {
                    let _ = writeln!(report, "# {r:?}: the property holds for this case");
                    0
                },
            }
        },
        _ => usage(),
    };
    let _ = report.flush();
    std::process::exit(code);
}
