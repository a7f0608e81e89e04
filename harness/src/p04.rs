//! P04: the integrity signature.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p01::{classes, summary};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use vpin::vpx::{self, VerifyResult};

fn prof() -> Prof {
    Prof { finite: false, raw_blobs: true, max_items: 3, max_res: 2, ..Default::default() }
}

fn verdict(s: &Streams, d: &crate::tmp::Dir) -> Result<bool, String> {
    let p = d.path("t.vpx");
    std::fs::write(&p, build_cfb(s)).map_err(|e| e.to_string())?;
    match vpx::verify(&p) {
        VerifyResult::Ok(q) => {
            ensure!(q == p, "verify names another file");
            Ok(true)
        }
        VerifyResult::Failed(q, _) => {
            ensure!(q == p, "verify names another file");
            Ok(false)
        }
    }
}

/// A table saved by the library carries the signature Visual Pinball computes.
fn saved(t: &mut Tape, c: &mut Case) -> Res {
    let tb = gen_table(t, &prof());
    classes(&tb, c);
    c.sample = Some(summary(&tb));
    let mut s = tb.streams();
    c.hash = streams_hash(&s);
    // a wrong or missing signature in the file that is read must not matter
    match t.below(3) {
        0 => {}
        1 => {
            let b = t.bytes(16);
            s.insert("/GameStg/MAC".into(), b);
        }
        _ => {
            s.remove("/GameStg/MAC");
        }
    }
    let d = crate::tmp::Dir::new();
    let p = d.path("o.vpx");
    let v = parse(&s)?;
    vpx::write(&p, &v).map_err(|e| e.to_string())?;
    ensure!(vpx::verify(&p) == VerifyResult::Ok(p.clone()), "saved table does not verify");
    let got = dump_cfb(&std::fs::read(&p).unwrap())?;
    let m = mac(&got);
    ensure!(got.get("/GameStg/MAC") == Some(&m), "signature {:?}, Visual Pinball computes {:?}", got.get("/GameStg/MAC").map(hex::encode), hex::encode(&m));
    // rewriting the game data in place signs it again
    let mut f = vpx::open_rw(&p).map_err(|e| e.to_string())?;
    let gd = f.read_gamedata().map_err(|e| e.to_string())?;
    f.write_gamedata(&gd).map_err(|e| e.to_string())?;
    drop(f);
    ensure!(vpx::verify(&p) == VerifyResult::Ok(p.clone()), "table does not verify after writing the game data");
    // the reference verifier and the library agree on the file as generated
    let good = s.get("/GameStg/MAC") == Some(&mac(&s));
    ensure!(verdict(&s, &d)? == good, "verify says {} for a file whose signature is {}", !good, if good { "right" } else { "wrong" });
    Ok(())
}

/// positions in a record stream whose bytes are covered: tags and values, not sizes
fn covered_bytes(d: &[u8]) -> Vec<usize> {
    let mut out = vec![];
    let mut p = 0;
    while p + 8 <= d.len() {
        let size = u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as usize;
        let tag = &d[p + 4..p + 8];
        let mut end = p + 4 + size;
        let mut from = p + 8;
        if size == 4 && tag == b"CODE" && p + 12 <= d.len() {
            from = p + 12;
            end = from + u32::from_le_bytes(d[p + 8..p + 12].try_into().unwrap()) as usize;
        }
        if tag == b"CUST" {
            // the length in front of the name is framing
            from += 4;
        }
        out.extend(from..end.min(d.len()));
        p = end;
    }
    out
}

fn flip(t: &mut Tape, v: &mut [u8], pos: usize) {
    let x = v[pos];
    v[pos] = match t.below(3) {
        0 => x ^ (1 << t.below(8)),
        1 => x.wrapping_add(1),
        _ => {
            let n = t.any() as u8;
            if n == x { !x } else { n }
        }
    };
}

fn tamper(t: &mut Tape, c: &mut Case) -> Res {
    let tb = gen_table(t, &prof());
    let d = crate::tmp::Dir::new();
    let s = tb.streams();
    c.hash = streams_hash(&s);
    ensure!(verdict(&s, &d)?, "a correctly signed table does not verify");
    let mut log = vec![];
    let cust: Vec<String> = tb.cust.iter().map(|x| format!("/TableInfo/{x}").to_uppercase()).collect();
    for _ in 0..6 {
        let mut m = s.clone();
        let keys: Vec<String> = m.keys().filter(|k| *k != "/GameStg/MAC").cloned().collect();
        let mut k = t.pick(&keys).clone();
        if t.chance(1, 3) {
            k = t.pick(&["/GameStg/GameData", "/GameStg/CustomInfoTags", "/GameStg/Version"]).to_string();
        }
        if let Some(i) = k.strip_prefix("/TableInfo/") {
            // a covered entry may be listed as a custom tag too, it stays covered
            let cov = HASHED_INFO.contains(&i) || cust.contains(&k.to_uppercase());
            let v = m.get_mut(&k).unwrap();
            let what;
            match t.below(4) {
                0 => {
                    if v.is_empty() {
                        continue;
                    }
                    m.remove(&k);
                    what = "removed";
                }
                1 => {
                    v.extend([b'x', 0]);
                    what = "extended";
                }
                2 if v.len() >= 2 => {
                    v.pop();
                    v.pop();
                    what = "shortened";
                }
                _ => {
                    if v.is_empty() {
                        continue;
                    }
                    let p = t.usize(0, v.len() - 1);
                    flip(t, v, p);
                    what = "changed";
                }
            }
            // a removal or shift that leaves the concatenation of covered bytes the same
            let same = mac(&m) == s["/GameStg/MAC"];
            ensure!(same != cov || what != "changed", "reference signature disagrees about {k}");
            let ok = verdict(&m, &d)?;
            ensure!(ok == same, "{k} {what}: verify says {ok}, expected {same}");
            log.push(format!("{k} {what}"));
            c.class(if cov { "covered table info" } else { "uncovered table info" });
        } else if k == "/GameStg/Version" {
            let p = t.usize(0, 3);
            flip(t, m.get_mut(&k).unwrap(), p);
            ensure!(!verdict(&m, &d)?, "changed version verifies");
            c.class("version");
        } else if k.contains("GameData") || k.contains("CustomInfoTags") || k.contains("Collection") {
            let pos = covered_bytes(&m[&k]);
            if pos.is_empty() {
                continue;
            }
            let p = *t.pick(&pos);
            flip(t, m.get_mut(&k).unwrap(), p);
            // the change of a custom tag name can only be judged by the reference
            let ok = verdict(&m, &d)?;
            ensure!(!ok, "changed byte {p} of {k} verifies");
            log.push(format!("{k} byte {p}"));
            c.class(if k.contains("GameData") { "game data" } else if k.contains("Coll") { "collection" } else { "custom info tags" });
        } else {
            let v = m.get_mut(&k).unwrap();
            if v.is_empty() {
                continue;
            }
            let p = t.usize(0, v.len() - 1);
            flip(t, v, p);
            ensure!(verdict(&m, &d)?, "changing uncovered stream {k} breaks the signature");
            log.push(format!("{k} byte {p}"));
            c.class("uncovered stream");
        }
    }
    // the signature itself
    let mut m = s.clone();
    let p = t.usize(0, 15);
    flip(t, m.get_mut("/GameStg/MAC").unwrap(), p);
    ensure!(!verdict(&m, &d)?, "changed signature verifies");
    m.remove("/GameStg/MAC");
    ensure!(!verdict(&m, &d)?, "missing signature verifies");
    // whole covered parts added or taken away
    let mut m = s.clone();
    let n = tb.colls.len();
    m.insert(format!("/GameStg/Collection{n}"), enc_stream(&[r("NAME", "", Val::WStr("added".into()))]));
    ensure!(!verdict(&m, &d)?, "added collection verifies");
    let mut m = s.clone();
    m.insert("/GameStg/Unknown".into(), vec![1, 2, 3]);
    m.insert("/TableInfo/NotListed_".into(), vec![65, 0]);
    ensure!(verdict(&m, &d)?, "an unknown stream breaks the signature");
    c.evals = 11;
    c.nontrivial = true;
    c.sample = Some(json!({"table": summary(&tb), "changes": log}));
    Ok(())
}

fn minimal(t: &mut Tape, c: &mut Case) -> Res {
    let d = crate::tmp::Dir::new();
    let p = d.path("min.vpx");
    let existed = t.bool();
    if existed {
        let n = t.usize(0, 9000);
        std::fs::write(&p, t.bytes(n)).unwrap();
    }
    vpx::new_minimal_vpx(&p).map_err(|e| e.to_string())?;
    ensure!(vpx::verify(&p) == VerifyResult::Ok(p.clone()), "new table does not verify");
    let got = dump_cfb(&std::fs::read(&p).unwrap())?;
    ensure!(got.get("/GameStg/MAC") == Some(&mac(&got)), "signature of a new table is wrong");
    let v = vpx::read(&p).map_err(|e| e.to_string())?;
    ensure!(v.gameitems.is_empty() && v.images.is_empty(), "new table is not empty");
    let again = save(&v)?;
    ensure!(again.get("/GameStg/MAC") == Some(&mac(&again)), "signature of a saved new table is wrong");
    // not a table at all
    let n = t.usize(0, 2000);
    let junk = t.bytes(n);
    std::fs::write(&p, junk).unwrap();
    ensure!(matches!(vpx::verify(&p), VerifyResult::Failed(..)), "junk verifies");
    c.nontrivial = existed;
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("saved", ctx.n(10000, 150000), "a table with at least one part, image or sound; distinct by stream contents", saved);
    ctx.sub("tamper", ctx.n(2500, 60000), "a signed table with up to eleven separate modifications; distinct by contents of the table", tamper);
    ctx.sub("minimal", ctx.n(200, 2000), "a new table written over existing contents", minimal);
}
