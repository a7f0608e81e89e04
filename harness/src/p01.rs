//! P01: open + save reproduces every stream.

use crate::engine::*;
use crate::ensure;
use crate::tgen::*;
use crate::tape::Tape;
use crate::wire::*;
use serde_json::json;
use vpin::vpx;

pub fn summary(tb: &Table) -> serde_json::Value {
    json!({"version": tb.version, "items": tb.items.iter().map(|i| format!("{}:{}({} records)", type_name(i.ty), i.name(), i.recs.len())).collect::<Vec<_>>(),
        "images": tb.images.len(), "sounds": tb.sounds.len(), "fonts": tb.fonts.len(), "collections": tb.colls.len(),
        "info": tb.info.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "custom_info": tb.cust, "gamedata_records": tb.gd.len(), "script_bytes": tb.script().len()})
}

pub fn classes(tb: &Table, c: &mut Case) {
    c.class_if(tb.items.is_empty(), "no items");
    c.class_if(tb.items.len() > 9, "more than nine items");
    c.class_if(!tb.images.is_empty(), "images");
    c.class_if(!tb.sounds.is_empty(), "sounds");
    c.class_if(!tb.fonts.is_empty(), "fonts");
    c.class_if(!tb.colls.is_empty(), "collections");
    c.class_if(tb.colls.len() > 9, "more than nine collections");
    c.class_if(!tb.cust.is_empty(), "custom info");
    c.class_if(tb.gd_get("MATR").is_some(), "modern materials");
    c.class_if(tb.gd_get("RPRB").is_some(), "render probes");
    c.class_if(tb.gd_get("EFSS").is_some(), "fss record");
    c.class_if(tb.gd_get("TLCK").is_some(), "lock record");
    c.class_if(std::str::from_utf8(&tb.script()).is_err(), "legacy script");
    c.class_if(tb.version < 1031, "old version");
    for i in &tb.items {
        c.class(type_name(i.ty));
        c.class_if(i.recs.iter().any(|x| x.tag == "M3AX"), "mesh animation");
        c.class_if(i.recs.iter().any(|x| x.tag == "M3CX"), "mesh");
        c.class_if(i.recs.iter().any(|x| x.tag == "DPNT"), "drag points");
    }
    c.classes.sort();
    c.classes.dedup();
    c.nontrivial = !tb.items.is_empty() || !tb.images.is_empty() || !tb.sounds.is_empty();
}

fn prof() -> Prof {
    Prof { finite: false, raw_blobs: true, ..Default::default() }
}

fn roundtrip(t: &mut Tape, c: &mut Case) -> Res {
    let tb = gen_table(t, &prof());
    classes(&tb, c);
    c.sample = Some(summary(&tb));
    let want = tb.streams();
    c.hash = streams_hash(&want);
    c.evals = want.len() as u64;
    let bytes = build_cfb(&want);
    let vpx = vpx::from_bytes(&bytes).map_err(|e| format!("from_bytes: {e}"))?;
    let out = vpx::to_bytes(&vpx).map_err(|e| format!("to_bytes: {e}"))?;
    diff_streams(&want, &dump_cfb(&out)?)
}

/// one item of a chosen type in a minimal table, many values
fn item_roundtrip(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { max_items: 4, max_res: 0, ..prof() };
    let mut tb = Table { version: 1081, ..Default::default() };
    tb.gd = base_gd();
    for i in 0..8 {
        let ty = ALL_TYPES[(t.below(21)) as usize];
        tb.items.push(gen_item_of(t, &p, i, ty));
    }
    tb.fix_counts();
    classes(&tb, c);
    c.sample = Some(summary(&tb));
    let want = tb.streams();
    c.hash = streams_hash(&want);
    c.evals = tb.items.len() as u64;
    let vpx = vpx::from_bytes(&build_cfb(&want)).map_err(|e| format!("from_bytes: {e}"))?;
    let out = vpx::to_bytes(&vpx).map_err(|e| format!("to_bytes: {e}"))?;
    diff_streams(&want, &dump_cfb(&out)?)
}

/// game data with every mandatory record, fixed values
pub fn base_gd() -> Vec<Rec> {
    let mut t = Tape::replay(vec![]);
    gen_gamedata(&mut t, &Prof::default(), 1081)
}

/// through files, twice, and with extremes of size
fn big(t: &mut Tape, c: &mut Case) -> Res {
    let mut p = prof();
    p.mesh_max = 40;
    let mut tb = gen_table(t, &p);
    match t.below(5) {
        0 => {
            // one resource beyond the size where the container uses normal sectors, many points
            let n = t.usize(4000, 70000);
            tb.fonts.push(FontF { name: "big".into(), path: "big.ttf".into(), data: t.bytes(n) });
            c.class("large resource");
        }
        1 => {
            let k = t.usize(100, 160);
            for i in 0..k {
                let it = gen_item(t, &p, i);
                tb.items.push(it);
            }
            c.class("more than a hundred items");
        }
        2 => {
            let mut it = gen_item_of(t, &p, 0, 0);
            let k = t.usize(200, 600);
            for _ in 0..k {
                let d = gen_fields(t, &p, &schema().dragpoint);
                it.recs.push(r("DPNT", "drag_points", Val::Sub(d)));
            }
            tb.items.push(it);
            c.class("hundreds of drag points");
        }
        3 => {
            let k = t.usize(50, 300);
            let mut s = b"Option Explicit\r\n".to_vec();
            for _ in 0..k {
                s.extend(gen_script(t));
            }
            tb.gd_set("CODE", Val::Code(s.into_iter().filter(|b| *b != 0).collect()));
            c.class("long script");
        }
        _ => {
            let n = t.usize(5000, 60000);
            let d = t.bytes(n);
            tb.sounds.push(Sound { name: "s".into(), path: "s.wav".into(), internal: "s".into(), fmt: (1, 2, 44100, 176400, 4, 16, 0), data: d, target: 1, volume: 1, balance: 2, fade: 3 });
            c.class("large sound");
        }
    }
    tb.fix_counts();
    classes(&tb, c);
    let want = tb.streams();
    c.hash = streams_hash(&want);
    c.evals = want.len() as u64;
    let dir = crate::tmp::Dir::new();
    let a = dir.path("a.vpx");
    let b = dir.path("b.vpx");
    std::fs::write(&a, build_cfb(&want)).map_err(|e| e.to_string())?;
    let v = vpx::read(&a).map_err(|e| format!("read: {e}"))?;
    vpx::write(&b, &v).map_err(|e| format!("write: {e}"))?;
    let got = dump_cfb(&std::fs::read(&b).unwrap())?;
    diff_streams(&want, &got)?;
    // reading what was written gives an equal table
    let v2 = vpx::read(&b).map_err(|e| format!("read 2: {e}"))?;
    let s = vpx::to_bytes(&v2).map_err(|e| e.to_string())?;
    diff_streams(&want, &dump_cfb(&s)?)?;
    ensure!(vpx::verify(&b) == vpx::VerifyResult::Ok(b.clone()), "written table does not verify");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("well-formed means: records in the order the program writes them, strings without NUL, booleans 0 or 1, enumerations within the documented range, counters equal to the number of parts".into());
    ctx.sub("table", ctx.n(25000, 150000), "a whole table with at least one part, image or sound; distinct by stream contents", roundtrip);
    ctx.sub("items", ctx.n(25000, 200000), "eight parts of random types with random optional records; distinct by stream contents", item_roundtrip);
    ctx.sub("big", ctx.n(300, 6000), "a table with one dimension made large, through files and saved twice; distinct by contents", big);
}
