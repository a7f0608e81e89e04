//! P07: scripts.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p06::gen_text;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use vpin::vpx::{self, ExtractResult};

/// what a script says, as text
fn text(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => b.iter().map(|x| *x as char).collect(),
    }
}
/// the code record, framing checked independently
fn code_of(s: &Streams) -> Result<Vec<u8>, String> {
    let g = s.get("/GameStg/GameData").ok_or("no game data")?;
    let w = walk(g)?;
    let c: Vec<_> = w.iter().filter(|x| x.0 == "CODE").collect();
    ensure!(c.len() == 1, "{} code records", c.len());
    Ok(c[0].1[4..].to_vec())
}
fn gen_code(t: &mut Tape) -> Vec<u8> {
    match t.below(4) {
        0 => {
            // legacy single byte text
            let n = t.small_len(400);
            let mut v: Vec<u8> = (0..n).map(|_| *t.pick(&[b'a', 0xe9, 0xff, 0x80, 0x92, b'\r', b'\n', b' ', 0xc3, 0xa9, 0x9f, 1])).collect();
            v.push(0xe9);
            v
        }
        1 => gen_script(t),
        _ => gen_text(t).into_bytes(),
    }
}

fn history(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = gen_table(t, &Prof { max_items: 2, max_res: 1, ..Default::default() });
    crate::p08::canonical(&mut tb, c);
    let mut code = gen_code(t);
    tb.gd_set("CODE", Val::Code(code.clone()));
    let d = crate::tmp::Dir::new();
    let names = ["t.vpx", "a.b.vpx", "noext", "ünï.VPX"];
    let p = d.path(*t.pick(&names));
    std::fs::write(&p, build_cfb(&tb.streams())).unwrap();
    let side = {
        let f = p.file_name().unwrap().to_string_lossy().to_string();
        let stem = f.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or(f);
        d.path(&format!("{stem}.vbs"))
    };
    ensure!(vpx::vbs_path_for(&p) == side, "script path {:?}", vpx::vbs_path_for(&p));
    ensure!(vpx::ini_path_for(&p) == p.with_extension("ini"), "settings path {:?}", vpx::ini_path_for(&p));
    let other = d.path("x.txt");
    // contents of the two script files
    let mut files: [Option<Vec<u8>>; 2] = [None, None];
    let mut log = vec![];
    c.class_if(std::str::from_utf8(&code).is_err(), "legacy script");
    c.class_if(code.is_empty(), "empty script");
    c.class_if(code.len() > 4096, "long script");
    c.hash = crate::tape::hash_bytes(&code);
    let n = t.usize(2, 8);
    for step in 0..n {
        let e = |e: std::io::Error| format!("step {step}: {e}");
        let w = t.below(2) as usize;
        let path = if w == 0 { side.clone() } else { other.clone() };
        let arg = if w == 0 && t.bool() { None } else { Some(path.clone()) };
        match t.below(6) {
            0 | 1 => {
                let ow = t.bool();
                let r = vpx::extractvbs(&p, arg, ow).map_err(e)?;
                let exists = files[w].is_some();
                match r {
                    ExtractResult::Extracted(q) => {
                        ensure!(q == path, "extracted to {q:?}");
                        ensure!(!exists || ow, "step {step}: existing script file overwritten without being asked to");
                        files[w] = Some(text(&code).into_bytes());
                    }
                    ExtractResult::Existed(q) => {
                        ensure!(q == path, "existed at {q:?}");
                        ensure!(exists && !ow, "step {step}: extraction says the file existed");
                    }
                }
                log.push(format!("extract {} overwrite {ow}", w));
            }
            2 => {
                // someone edits the file
                let b = gen_text(t).into_bytes();
                std::fs::write(&path, &b).unwrap();
                files[w] = Some(b);
                log.push(format!("edit {w}"));
            }
            3 | 4 => {
                let r = vpx::importvbs(&p, arg);
                match (&files[w], r) {
                    (Some(b), Ok(q)) => {
                        ensure!(q == path, "imported from {q:?}");
                        code = b.clone();
                    }
                    (Some(_), Err(x)) => return Err(format!("step {step}: import fails: {x}")),
                    (None, Ok(_)) => return Err(format!("step {step}: import of a missing file succeeds")),
                    (None, Err(x)) => ensure!(x.kind() == std::io::ErrorKind::NotFound, "step {step}: {x}"),
                }
                log.push(format!("import {w}"));
            }
            _ => {
                // through the expanded form
                let v = vpx::read(&p).map_err(e)?;
                let fs = expand(&v, 0, false)?;
                let s = fs.get("/t/script.vbs").ok_or("no script.vbs")?;
                ensure!(text(s) == text(&code), "step {step}: script.vbs differs from the script");
                let v2 = assemble(&fs)?;
                vpx::write(&p, &v2).map_err(e)?;
                log.push("expand and assemble".into());
            }
        }
        for (i, f) in [&side, &other].iter().enumerate() {
            let now = std::fs::read(f).ok();
            ensure!(now == files[i], "step {step} ({}): script file {i} has {:?} bytes, expected {:?}", log[step], now.map(|x| short(&x)), files[i].as_ref().map(|x| short(x)));
        }
        let bytes = std::fs::read(&p).unwrap();
        let got = code_of(&dump_cfb(&bytes)?)?;
        ensure!(got == code, "step {step} ({}): script is {}, expected {}", log[step], short(&got), short(&code));
        // every reader sees it
        let gd = vpx::open(&p).map_err(e)?.read_gamedata().map_err(e)?;
        ensure!(gd.code.string == text(&code), "step {step}: read_gamedata shows another script");
        ensure!(vpx::from_bytes(&bytes).map_err(e)?.gamedata.code == gd.code, "step {step}: readers differ");
    }
    // nothing else changed
    tb.gd_set("CODE", Val::Code(code));
    diff_streams(&normalise(&tb.streams()), &normalise(&dump_cfb(&std::fs::read(&p).unwrap())?))?;
    c.evals = n as u64;
    c.nontrivial = log.iter().any(|x| x.starts_with("import") || x.starts_with("extract"));
    c.sample = Some(json!({"operations": log}));
    Ok(())
}

/// set_script and a save
fn set(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = Table { version: 1081, gd: crate::p01::base_gd(), ..Default::default() };
    let code = gen_code(t);
    tb.gd_set("CODE", Val::Code(code.clone()));
    let mut v = parse(&tb.streams())?;
    ensure!(v.gamedata.code.string == text(&code), "script read differs");
    let s = gen_text(t);
    v.set_script(s.clone());
    let st = save(&v)?;
    ensure!(code_of(&st)? == s.as_bytes(), "script set is not the script saved");
    ensure!(parse(&st)?.gamedata.code.string == s, "script set is not the script read back");
    let d = crate::tmp::Dir::new();
    let f = d.path("s.vbs");
    vpx::extract_script(&v.gamedata, &f).map_err(|e| e.to_string())?;
    ensure!(std::fs::read(&f).unwrap() == s.as_bytes(), "extract_script writes something else");
    c.hash = crate::tape::hash_bytes(s.as_bytes());
    c.nontrivial = !s.is_empty();
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("a script that is not valid UTF-8 is a legacy Latin-1 script: its file is the same text in UTF-8, and importing that file stores UTF-8 (documented at extract_script)".into());
    ctx.sub("history", ctx.n(4000, 100000), "a history with at least one extraction or import; distinct by initial script", history);
    ctx.sub("set", ctx.n(8000, 200000), "a non-empty script set through the API; distinct by script", set);
}
