#![allow(dead_code)]
mod common;
mod fw;
mod gen_;
mod grapheme;
mod json;
mod model;
mod p_cli;
mod p_damage;
mod p_page;
mod p_session;
mod p_thread;
mod proc;
mod render;
mod rng;
mod rt;
mod serve;
mod sut;

use fw::Prop;

#[global_allocator]
static A: rt::Counting = rt::Counting;

const BIN: &str = "the whitespace binary (main, library, std), built from /repo";
const LIB: &str = "the whitespace library (scanner, parser, resolver), built from /repo with basic-block callbacks";
const SHIM: &str = "file descriptors 0-2 and the script file, stat, getrandom and malloc, by an LD_PRELOAD shim";
const WASM: &str = "the whitespace library built from /repo for wasm32 (parser, resolver, serde and wasm-bindgen code), in V8";
const WSTUB: &str = "the JavaScript half of wasm-bindgen (page/glue.mjs), whose generator is not installed";
const PAGE: &str = "the script of /repo/index.html and the wasm32 library, in V8";
const PSTUB: &str = "document, textarea, console, timers, module loading (page/main.mjs) and the JavaScript half of wasm-bindgen (page/glue.mjs)";
const T_OBS: &str = "distinct logs of intercepted calls (operation, stream, result, data) with the exit status";
const T_EDGE: &str = "distinct sets of basic-block edges of the crate reached by a run";

fn props() -> Vec<Prop> {
    let p = |id, generate, exec, quick, thorough, level, rule, real, stub, states_are| Prop { id, generate, exec, quick, thorough, level, rule, real, stub, states_are };
    vec![
        p("C01", p_cli::gen_c01, Some(p_cli::exec_c01 as _), 32000, 600000, "exploration", "a fault (interrupted read, short read, false size) fired in the run", BIN, SHIM, T_OBS),
        p("C02", p_cli::gen_c02, Some(p_cli::exec_c02 as _), 60000, 1200000, "exploration", "at least one injected fault fired", BIN, SHIM, T_OBS),
        p("C03", p_cli::gen_c03, Some(p_cli::exec_c03 as _), 50000, 1200000, "exploration", "a read was cut or interrupted", BIN, SHIM, T_OBS),
        p("C04", p_cli::gen_c04, Some(p_cli::exec_c04 as _), 60000, 1200000, "exploration", "a fault other than a short read fired, or the input ended inside a line", BIN, SHIM, T_OBS),
        p("C05", p_cli::gen_c05, Some(p_cli::exec_c05 as _), 60000, 1200000, "exploration", "a session of more than one line delivered in more than one read", BIN, SHIM, T_OBS),
        p("C06", p_session::gen_c06, Some(p_session::exec_c06 as _), 30000, 800000, "exploration", "the session contains a rejected entry", LIB, "randomness; one case in eleven runs the binary under the shim", T_EDGE),
        p("C07", p_session::gen_c07, Some(p_session::exec_c07 as _), 80000, 2000000, "exploration", "a session of several entries or lines", LIB, "randomness", T_EDGE),
        p("C08", p_session::gen_c08, Some(p_session::exec_c08 as _), 160000, 4000000, "exploration", "a session of several entries or lines", LIB, "randomness", T_EDGE),
        p("C09", p_session::gen_c09, Some(p_session::exec_c09 as _), 30000, 800000, "exploration", "every run compares at least four executions of one text", LIB, "randomness, stale memory; one case in eleven runs the binary under the shim", T_EDGE),
        p("C10", p_thread::gen_c10, Some(p_thread::exec_c10 as _), 8000, 150000, "exploration", "threads were switched inside calls", LIB, "the thread scheduler, futexes, sleeping, randomness", "distinct schedules (sequence of switches with the step at which each happened)"),
        p("C11", p_thread::gen_c11, Some(p_thread::exec_c11 as _), 6000, 200000, "exploration", "a thread was paused inside a call", LIB, "the thread scheduler, futexes, sleeping, randomness", "distinct schedules (sequence of switches with the step at which each happened)"),
        p("C12", p_damage::gen_c12, Some(p_damage::exec_c12 as _), 100000, 3000000, "exploration", "every distinct text", LIB, "the disk: the generator writes what a fault leaves; one case in thirteen runs the binary under the shim", T_EDGE),
        p("C13", p_damage::gen_c13, Some(p_damage::exec_c13 as _), 180000, 3000000, "exploration", "the text is rejected", LIB, "the disk: the generator writes what a fault leaves; one case in thirteen runs the binary under the shim", T_EDGE),
        p("C14", p_cli::gen_c14, Some(p_cli::exec_c14 as _), 60000, 1200000, "exploration", "a program of more than one line", BIN, SHIM, T_OBS),
        p("C15", p_page::gen_c15, None, 8000, 300000, "exploration", "at least one edit, or the module loading before the document is ready", PAGE, PSTUB, "distinct event orders with the displayed texts"),
        p("C16", p_page::gen_c16, None, 6000, 300000, "exploration", "every distinct list of texts", WASM, WSTUB, "distinct sets of basic-block edges of the native library reached by the texts, with the results"),
        p("C17", p_session::gen_c17, Some(p_session::exec_c17 as _), 4500, 300000, "exploration", "every distinct list of entries", LIB, "randomness, the counting allocator; one case in seven runs the binary under the shim, which counts the live heap", T_EDGE),
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let all = props();
    let find = |id: &str| all.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("HARNESS ERROR: unknown property {id}"); std::process::exit(2) });
    let num = |s: &str| s.parse::<u64>().expect("number");
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&a[1]);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = a.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            fw::check(p, seed, &tier, std::env::var("DST_COUNT").ok().and_then(|s| s.parse().ok()))
        }
        Some("worker") => fw::worker(find(&a[1]), &fw::WorkerArgs {
            seed: num(&a[2]), w: num(&a[3]), of: num(&a[4]), count: num(&a[5]), dir: a[6].clone(),
            cap: a[7].parse().expect("cap"), traces: a[8] == "1",
        }),
        Some("exec") => {
            let t = std::fs::read_to_string(&a[2]).expect("case");
            match json::J::parse(&t) {
                Ok(j) => fw::exec_one(find(&a[1]), j.get("case").unwrap_or(&j)),
                Err(e) => { eprintln!("HARNESS ERROR: {e}"); 2 }
            }
        }
        Some("replay") => fw::replay(&all, &a[1]),
        Some("determinism") => fw::determinism(&all, &a[3..].to_vec(), num(&a[1]), num(&a[2])),
        Some("case") => { println!("{}", fw::make_case(find(&a[1]), num(&a[2]), num(&a[3])).text()); 0 }
        Some("stack") => {
            let t = std::fs::read_to_string(&a[1]).expect("text");
            rt::reset_run(u64::MAX / 2);
            let n = sut::on_thread(1, || { let n = sut::stack_of(|| sut::Session::new().submit_fmt(&t, sut::Mode::Script, false)); n });
            println!("{n}"); 0
        }
        Some("serve") => serve::serve(&all),
        _ => { eprintln!("check|worker|exec|replay|determinism|case|serve"); 2 }
    };
    std::process::exit(code)
}
