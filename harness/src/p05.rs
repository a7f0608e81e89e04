//! P05: lock histories.

use crate::engine::*;
use crate::ensure;
use crate::p01::summary;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use vpin::vpx::{self, VerifyResult};

fn history(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = gen_table(t, &Prof { finite: false, raw_blobs: true, max_items: 3, max_res: 2, ..Default::default() });
    let start = match t.below(6) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        3 => Some(t.below(1000) as u32),
        4 => Some(u32::MAX - t.below(4) as u32),
        _ => Some(t.any() as u32),
    };
    tb.gd.retain(|x| x.tag != "TLCK");
    if let Some(n) = start {
        tb.gd.push(r("TLCK", "locked", Val::U32(n)));
    }
    let mut extra = Streams::new();
    if t.bool() {
        extra.insert("/GameStg/Strange".into(), t.bytes(30));
        extra.insert("/Other/Sub/Thing".into(), t.bytes(5000));
        c.class("unknown streams");
    }
    let streams = |tb: &Table| {
        let mut s = tb.streams();
        s.extend(extra.clone());
        s
    };
    let d = crate::tmp::Dir::new();
    let p = d.path("t.vpx");
    std::fs::write(&p, build_cfb(&streams(&tb))).unwrap();
    c.hash = streams_hash(&streams(&tb));
    let mut count = start;
    let mut f = vpx::open_rw(&p).map_err(|e| e.to_string())?;
    let mut log = vec![];
    let n = t.usize(1, 14);
    for step in 0..n {
        let locked = count.unwrap_or(0) % 2 == 1;
        let before = std::fs::read(&p).unwrap();
        let op = t.below(5);
        let e = |e: std::io::Error| format!("step {step}: {e}");
        let mut change = false;
        match op {
            0 => {
                log.push("lock");
                let r = f.lock().map_err(e)?;
                ensure!(r != locked, "step {step}: lock says {r} on a table that is {}", if locked { "locked" } else { "unlocked" });
                change = !locked;
            }
            1 => {
                log.push("unlock");
                let r = f.unlock().map_err(e)?;
                ensure!(r == locked, "step {step}: unlock says {r} on a table that is {}", if locked { "locked" } else { "unlocked" });
                change = locked;
            }
            2 => {
                log.push("query");
                let r = f.is_locked().map_err(e)?;
                ensure!(r == locked, "step {step}: is_locked says {r}, history says {locked}");
            }
            3 => {
                log.push("reopen");
                f = vpx::open_rw(&p).map_err(e)?;
                let r = f.is_locked().map_err(e)?;
                ensure!(r == locked, "step {step}: is_locked after reopening says {r}, history says {locked}");
            }
            _ => {
                log.push("read only query");
                let mut g = vpx::open(&p).map_err(e)?;
                let r = g.is_locked().map_err(e)?;
                ensure!(r == locked, "step {step}: is_locked of a second reader says {r}, history says {locked}");
                let gd = vpx::read(&p).map_err(e)?.gamedata;
                ensure!(gd.locked == count, "step {step}: counter {:?}, history says {count:?}", gd.locked);
            }
        }
        let after = std::fs::read(&p).unwrap();
        if change {
            count = Some(count.unwrap_or(0).wrapping_add(1));
            tb.gd.retain(|x| x.tag != "TLCK");
            tb.gd.push(r("TLCK", "locked", Val::U32(count.unwrap())));
            diff_streams(&streams(&tb), &dump_cfb(&after)?).map_err(|e| format!("step {step}: {e}"))?;
            c.class_if(step > 0, "state changed twice or later");
        } else {
            ensure!(before == after, "step {step} ({}) changed the file", log[step]);
        }
        ensure!(vpx::verify(&p) == VerifyResult::Ok(p.clone()), "step {step}: file does not verify after {}", log[step]);
    }
    c.evals = n as u64;
    c.nontrivial = count != start;
    c.class(if start.is_none() { "no counter" } else if start.unwrap() % 2 == 1 { "starts locked" } else { "starts unlocked" });
    c.class_if(start.is_some_and(|x| x > u32::MAX - 20), "counter near its end");
    c.sample = Some(json!({"start": start, "operations": log, "table": summary(&tb)}));
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("history", ctx.n(5000, 100000), "a history that changes the lock state at least once; distinct by table contents", history);
}
