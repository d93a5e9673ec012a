#![allow(unexpected_cfgs)]

mod alloc;
mod auto_checks;
mod char_checks;
mod dbg;
mod dot;
mod engine;
mod gram;
mod gram_checks;
mod lex_checks;
mod lexdrv;
mod life_checks;
mod nfa_checks;
mod pardrv;
mod parse_checks;
mod pattern_checks;
mod pure_checks;
mod re;
mod seed;
mod token_checks;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use std::path::{Path, PathBuf};

fn check(id: &str, thorough: bool) -> engine::Check {
    match id {
        "C01" => lex_checks::c01(thorough),
        "C02" => char_checks::c02(thorough),
        "C03" => pattern_checks::c03_c04(false, thorough),
        "C04" => pattern_checks::c03_c04(true, thorough),
        "C05" => token_checks::c05(thorough),
        "C06" => token_checks::c06(thorough),
        "C07" => token_checks::c07(thorough),
        "C08" => token_checks::c08(thorough),
        "C10" => auto_checks::c10(thorough),
        "C11" => auto_checks::c11(thorough),
        "C16" => parse_checks::c16(thorough),
        "C17" => parse_checks::c17(thorough),
        "C18" => parse_checks::c18(thorough),
        "C19" => life_checks::c19(thorough),
        "C20" => auto_checks::c20(thorough),
        "C21" => pure_checks::c21(thorough),
        "C22" => pure_checks::c22(thorough),
        "C23" => nfa_checks::c23(thorough),
        "C12" => gram_checks::c12(thorough),
        "C13" => gram_checks::c13(thorough),
        "C14" => gram_checks::c14(thorough),
        "C15" => gram_checks::c15(thorough),
        _ => {
            eprintln!("unknown check {}", id);
            std::process::exit(2);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let code = match arg(1) {
        "run" => engine::run(&check(arg(2), arg(3) == "thorough"), arg(3), &verif),
        "worker" => {
            engine::worker(
                &check(arg(2), arg(3) == "thorough"),
                num(4),
                num(5),
                Path::new(arg(6)),
            );
            0
        }
        "one" => engine::one(
            &check(arg(2), arg(3) == "thorough"),
            num(4) as usize,
            num(5),
            num(6) as u32,
        ),
        "replay" => {
            let body = std::fs::read_to_string(arg(2)).expect("replay file");
            let id = engine::json_str(&body, "property").expect("property");
            let tier = engine::json_str(&body, "tier").expect("tier");
            let seed = engine::json_int(&body, "seed").expect("seed");
            std::env::set_var("VERIF_SEED", seed.to_string());
            engine::one(
                &check(&id, tier == "thorough"),
                engine::json_int(&body, "domain_index").expect("domain") as usize,
                engine::json_int(&body, "index").expect("index"),
                engine::json_int(&body, "seed_no").expect("seed_no") as u32,
            )
        }
        _ => {
            eprintln!("usage: mc run ID quick|thorough | replay FILE");
            2
        }
    };
    engine::flush();
    std::process::exit(code);
}
