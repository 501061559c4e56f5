//! Runs cases in this process, under Miri. See ../../DESIGN.md.
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/alias.rs"]
mod alias;
#[path = "../../harness/src/arb.rs"]
mod arb;
#[path = "../../harness/src/builder.rs"]
mod builder;
#[path = "../../harness/src/bytes_x.rs"]
mod bytes_x;
#[path = "../../harness/src/bufx.rs"]
mod bufx;
#[path = "../../harness/src/chunk.rs"]
mod chunk;
#[path = "../../harness/src/cmp.rs"]
mod cmp;
#[path = "../../harness/src/consts.rs"]
mod consts;
#[path = "../../harness/src/fmtx.rs"]
mod fmtx;
#[path = "../../harness/src/http.rs"]
mod http;
#[path = "../../harness/src/intern.rs"]
mod intern;
#[path = "../../harness/src/io.rs"]
mod io;
#[path = "../../harness/src/iter.rs"]
mod iter;
#[path = "../../harness/src/nomx.rs"]
mod nomx;
#[path = "../../harness/src/panics.rs"]
mod panics;
#[path = "../../harness/src/queue.rs"]
mod queue;
#[path = "../../harness/src/search.rs"]
mod search;
#[path = "../../harness/src/serdex.rs"]
mod serdex;
#[path = "../../harness/src/squeue.rs"]
mod squeue;
#[path = "../../harness/src/string.rs"]
mod string;
#[path = "../../harness/src/value.rs"]
mod value;
mod threads;
use covrt::engine::{run_inline, run_tape, Module, Outcome};
use std::io::Write;

fn show(k: &str, o: &Outcome) -> bool {
    if let Some((kind, m)) = &o.fail {
        println!("FAIL {k} {kind:?} {m}");
        let t: Vec<String> = o.tape.iter().map(|x| x.to_string()).collect();
        println!("TAPE {}", t.join(","));
        return true;
    }
    let h = o.tape.iter().fold(7_u64, |h, x| (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29));
    println!("OK {k} {} {h:016x} {}", u8::from(o.nontrivial), o.log.join("; "));
    false
}
const MODULES: &[&Module] = &[
    &threads::THREADS, &threads::INTERNRACE, &value::VALUE, &builder::BUILDER, &builder::STRBUILDER, &queue::QUEUE, &squeue::SQUEUE, &string::STRING, &string::UTF8IN, &search::SEARCH, &cmp::CMP,
    &consts::CONSTS, &consts::UTF8, &io::READ, &io::WRITE, &bytes_x::CONV, &bufx::BUF, &bytes_x::BUFMUT, &http::HTTP, &nomx::PARSE, &nomx::OPS, &serdex::SERDE, &serdex::TOKENS,
    &serdex::FOREIGN, &intern::INTERN, &fmtx::RENDER, &fmtx::WRITE, &iter::ITER, &alias::ALIAS, &arb::ARB, &chunk::CHUNK, &panics::PANICS,
];
/// `run MODULE SEED FIRST COUNT`: random cases; `tape MODULE 1,2,3`: one case; `list FILE`: many; `rule MODULE`: prints the rule.
fn main() {
    covrt::engine::install_hook();
    covrt::engine::ECHO.store(std::env::var_os("VERIF_ECHO").is_some(), std::sync::atomic::Ordering::Relaxed);
    let a: Vec<String> = std::env::args().skip(1).collect();
    let m = MODULES.iter().find(|m| m.name == a[1]).unwrap_or(&MODULES[0]);
    let mut bad = false;
    match a[0].as_str() {
        "run" => {
            let (seed, first, n): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
            for c in first..first + n {
                println!("CASE {c}");
                let _ = std::io::stdout().flush();
                for o in run_inline(m, seed, c, 1, c % 50 == 0) {
                    bad |= show(&c.to_string(), &o);
                }
            }
        }
        "tape" => {
            let t = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let o = run_tape(m, t, true);
            bad = show("tape", &o);
        }
        // `list FILE`: cases from lines `steps edges module tape`
        "list" => {
            for (c, l) in std::fs::read_to_string(&a[1]).unwrap().lines().enumerate() {
                println!("CASE {c}");
                let _ = std::io::stdout().flush();
                let mut w = l.split(' ').skip(2);
                let n = w.next().unwrap();
                let m = MODULES.iter().find(|m| m.name == n).unwrap();
                let t = w.next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                bad |= show(&c.to_string(), &run_tape(m, t, false));
            }
        }
        "rule" => println!("{}", m.rule),
        _ => std::process::exit(2),
    }
    let _ = std::io::stdout().flush();
    std::process::exit(i32::from(bad));
}
