#![allow(dead_code)]
mod engine;
mod tgen;
mod lzwref;
mod exp;
mod p01;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p20;
mod p21;
mod p22;
mod p23;
mod p24;
mod p25;
mod p26;
mod p27;
mod p28;
mod sysfault;
mod curve;
mod p02;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod pixx;
mod scene;
mod stock;
mod gltfx;
mod objx;
mod tape;
mod tmp;
mod wire;
mod world;

use engine::*;
use std::time::Instant;

fn load_known(verif: &str, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) {
        for l in s.lines() {
            // finding: property=P01 id=<id> <what fails>
            let Some(rest) = l.strip_prefix("finding: property=") else { continue };
            let mut it = rest.splitn(3, ' ');
            let (p, id, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == prop {
                if let Some(id) = id.strip_prefix("id=") {
                    v.push((id.to_string(), what.to_string()));
                }
            }
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|x| x == "stock") {
        return stock::print();
    }
    if args.first().is_some_and(|x| x == "defaults") {
        return p03::print_defaults();
    }
    if args.len() < 2 {
        eprintln!("usage: vpharness <property> quick|thorough|replay [file] [--only sub] [--scale x]");
        std::process::exit(2);
    }
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut ctx = Ctx::new(&args[0], &args[1], seed, &verif);
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--only" => {
                ctx.only = args.get(i + 1).cloned();
                i += 1;
            }
            "--scale" => {
                ctx.scale = args[i + 1].parse().unwrap();
                i += 1;
            }
            f if args[1] == "replay" => {
                let v: serde_json::Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("json");
                let tape = v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
                ctx.replay = Some((v["sub"].as_str().unwrap_or("").to_string(), tape));
            }
            _ => {}
        }
        i += 1;
    }
    ctx.trace = std::env::var("VERIF_TRACE").is_ok();
    ctx.known = load_known(&verif, &args[0]);
    install_panic_hook();
    start_watchdog();
    let _ = Instant::now();
    match args[0].as_str() {
        "P01" => p01::run(&mut ctx),
        "P03" => p03::run(&mut ctx),
        "P04" => p04::run(&mut ctx),
        "P05" => p05::run(&mut ctx),
        "P06" => p06::run(&mut ctx),
        "P07" => p07::run(&mut ctx),
        "P15" => p15::run(&mut ctx),
        "P16" => p16::run(&mut ctx),
        "P17" => p17::run(&mut ctx),
        "P18" => p18::run(&mut ctx),
        "P19" => p19::run(&mut ctx),
        "P20" => p20::run(&mut ctx),
        "P21" => p21::run(&mut ctx),
        "P22" => p22::run(&mut ctx),
        "P23" => p23::run(&mut ctx),
        "P24" => p24::run(&mut ctx),
        "P25" => p25::run(&mut ctx),
        "P26" => p26::run(&mut ctx),
        "P27" => p27::run(&mut ctx),
        "P28" => p28::run(&mut ctx),
        "P02" => p02::run(&mut ctx),
        "P08" => p08::run(&mut ctx),
        "P09" => p09::run(&mut ctx),
        "P10" => p10::run(&mut ctx),
        "P11" => p11::run(&mut ctx),
        "P12" => p12::run(&mut ctx),
        "P13" => p13::run(&mut ctx),
        "P14" => p14::run(&mut ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
