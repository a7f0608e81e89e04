//! P03: unknown records, record order and missing records.

use crate::engine::*;
use crate::exp::*;
use crate::p01::{base_gd, classes, summary};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use std::collections::HashMap;

fn prof() -> Prof {
    Prof { finite: false, raw_blobs: true, ..Default::default() }
}

const UNKNOWN: &[&str] = &["ZZZZ", "QQ1", "XAZQ", "NEWF", "AAAA", "0123", "zz", "PLOK", "ENDX", "NAMX"];

fn unknown(t: &mut Tape) -> Rec {
    let tag = *t.pick(UNKNOWN);
    let mut d = match t.below(4) {
        0 => vec![],
        1 => t.bytes(4),
        2 => {
            // bytes that look like records of their own
            let mut d = vec![4, 0, 0, 0];
            d.extend(b"ENDB");
            d
        }
        _ => {
            let n = t.usize(0, 60);
            t.bytes(n)
        }
    };
    if t.chance(1, 12) {
        let n = t.usize(1000, 9000);
        d = t.bytes(n);
    }
    r(tag, "", Val::Bytes(d))
}

/// insert unknown records, also into nested record lists
fn disturb(t: &mut Tape, rs: &mut Vec<Rec>, n: &mut u64, c: &mut Case) {
    for x in rs.iter_mut() {
        match &mut x.val {
            Val::Sub(s) if t.chance(1, 2) => {
                disturb(t, s, n, c);
                c.class("in a control point");
            }
            Val::Nested(s, _) if t.chance(1, 2) => {
                disturb(t, s, n, c);
                c.class("in a material or probe");
            }
            Val::Jpeg(s) if t.chance(1, 2) => {
                disturb(t, s, n, c);
                c.class("in an image file block");
            }
            _ => {}
        }
    }
    for _ in 0..t.small_len(6) {
        let at = t.usize(0, rs.len());
        // the version dependent position of one record is decided by its neighbours
        let u = unknown(t);
        // a size record and its data, and image bits with their end marker, belong together
        if at > 0 && at < rs.len() && rs[at - 1].tag == "BITS" {
            continue;
        }
        rs.insert(at, u);
        *n += 1;
    }
}

fn extra(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = gen_table(t, &prof());
    classes(&tb, c);
    c.nontrivial = false;
    let want = tb.streams();
    let mut n = 0;
    for i in 0..tb.items.len() {
        disturb(t, &mut tb.items[i].recs, &mut n, c);
    }
    for i in 0..tb.images.len() {
        disturb(t, &mut tb.images[i], &mut n, c);
    }
    for i in 0..tb.colls.len() {
        disturb(t, &mut tb.colls[i], &mut n, c);
    }
    disturb(t, &mut tb.gd, &mut n, c);
    c.classes.sort();
    c.classes.dedup();
    c.nontrivial = n > 0;
    c.evals = n;
    c.sample = Some(serde_json::json!({"table": summary(&tb), "unknown records": n}));
    let dis = tb.streams();
    c.hash = streams_hash(&dis);
    let got = save(&parse(&dis)?)?;
    diff_streams(&loose(&want), &loose(&got))
}

/// The place of one game data record is chosen by what stands next to it; its place is not a value.
fn loose(s: &Streams) -> Streams {
    let mut s = s.clone();
    s.remove("/GameStg/MAC");
    if let Some(d) = s.get_mut("/GameStg/GameData") {
        let e = b"\x08\0\0\0EFSS";
        let hits: Vec<usize> = d.windows(8).enumerate().filter(|(_, w)| w == e).map(|x| x.0).collect();
        if hits.len() == 1 && hits[0] + 12 <= d.len() {
            let x: Vec<u8> = d.drain(hits[0]..hits[0] + 12).collect();
            d.extend(x);
        }
    }
    s
}

/// a permutation that keeps the order among records of one group
fn permute(t: &mut Tape, rs: &[Rec]) -> Vec<Rec> {
    let pm = t.perm(rs.len());
    let grp = |x: &Rec| match x.tag {
        "M3AY" | "M3AX" => "M3A",
        "M3VN" | "M3CY" | "M3CX" | "M3FN" | "M3CJ" | "M3CI" => "M3",
        a => a,
    };
    let mut pos: HashMap<&str, Vec<usize>> = HashMap::new();
    for (slot, &i) in pm.iter().enumerate() {
        pos.entry(grp(&rs[i])).or_default().push(slot);
    }
    let mut out: Vec<Option<Rec>> = vec![None; rs.len()];
    let mut used: HashMap<&str, usize> = HashMap::new();
    for x in rs {
        let g = grp(x);
        let k = used.entry(g).or_default();
        out[pos[g][*k]] = Some(x.clone());
        *k += 1;
    }
    out.into_iter().map(|x| x.unwrap()).collect()
}

fn eight(t: &mut Tape) -> Table {
    let p = Prof { max_items: 4, max_res: 0, ..prof() };
    let mut tb = Table { version: 1081, ..Default::default() };
    tb.gd = base_gd();
    for i in 0..8 {
        let ty = ALL_TYPES[(t.below(21)) as usize];
        tb.items.push(gen_item_of(t, &p, i, ty));
    }
    tb.fix_counts();
    tb
}

fn order(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = eight(t);
    classes(&tb, c);
    let want = tb.streams();
    for it in tb.items.iter_mut() {
        let mut p = permute(t, &it.recs);
        for x in p.iter_mut() {
            if let Val::Sub(s) = &mut x.val {
                *s = permute(t, s);
            }
        }
        it.recs = p;
    }
    c.evals = 8;
    c.sample = Some(summary(&tb));
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let got = save(&parse(&s)?)?;
    diff_streams(&want, &got)
}

/// The records of a part about which nothing is stored, by type: Visual Pinball's defaults as this version has them.
fn defaults(ty: u32) -> &'static [(String, Vec<u8>)] {
    type All = HashMap<u32, Vec<(String, Vec<u8>)>>;
    static D: std::sync::OnceLock<All> = std::sync::OnceLock::new();
    let d = D.get_or_init(|| {
        let mut m = All::new();
        for l in include_str!("defaults.txt").lines() {
            let mut w = l.split(' ');
            let (ty, tag, data) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap_or(""));
            m.entry(ty.parse().unwrap()).or_default().push((tag.replace('_', " "), hex::decode(data).unwrap()));
        }
        m
    });
    d.get(&ty).map_or(&[], |x| x)
}
/// Prints defaults.txt.
pub fn print_defaults() {
    for ty in ALL_TYPES {
        let mut tb = Table { version: 1081, ..Default::default() };
        tb.gd = base_gd();
        tb.items.push(Item { ty, recs: vec![] });
        tb.fix_counts();
        let got = save(&parse(&tb.streams()).unwrap()).unwrap();
        for (tag, data) in walk(&got["/GameStg/GameItem0"][4..]).unwrap() {
            println!("{ty} {} {}", tag.replace(' ', "_"), hex::encode(data));
        }
    }
    // game data: each record left out alone
    let mut seen = vec![];
    for x in base_gd() {
        if seen.contains(&x.tag) {
            continue;
        }
        seen.push(x.tag);
        let mut tb = Table { version: 1081, ..Default::default() };
        tb.gd = base_gd();
        tb.fix_counts();
        tb.gd.retain(|y| y.tag != x.tag);
        match guard(|| save(&parse(&tb.streams())?)).and_then(|x| x) {
            Ok(got) => {
                for (tag, data) in walk(&got["/GameStg/GameData"]).unwrap() {
                    if tag == x.tag {
                        println!("{GD} {} {}", tag.replace(' ', "_"), hex::encode(data));
                    }
                }
            }
            Err(e) => eprintln!("{}: {e}", x.tag),
        }
    }
}

/// Stands for the game data among the types in defaults.txt.
const GD: u32 = 1000;

/// A record left out: all others keep their value, its own is the default.
fn missing(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = eight(t);
    classes(&tb, c);
    let mut gone = vec![];
    for it in tb.items.iter_mut() {
        let cand: Vec<usize> = (0..it.recs.len()).filter(|i| !matches!(it.recs[*i].val, Val::Sub(_)) && !it.recs[*i].tag.starts_with("M3")).collect();
        let mut tags = vec![];
        if !cand.is_empty() {
            for _ in 0..t.usize(1, 3) {
                tags.push(it.recs[*t.pick(&cand)].tag);
            }
        }
        if tags.iter().any(|x| *x == "BMIN" || *x == "BMAX") {
            tags.extend(["BMIN", "BMAX"]);
        }
        it.recs.retain(|x| !tags.contains(&x.tag));
        gone.push(tags);
    }
    c.sample = Some(serde_json::json!({"table": summary(&tb), "left out": gone}));
    let s = tb.streams();
    c.hash = streams_hash(&s);
    c.evals = 8;
    let got = save(&parse(&s)?)?;
    for (i, it) in tb.items.iter().enumerate() {
        let k = format!("/GameStg/GameItem{i}");
        let g = got.get(&k).ok_or("item lost")?;
        if g.get(..4) != Some(&it.ty.to_le_bytes()[..]) {
            return Err(format!("{k}: type changed"));
        }
        let strip = |d: &[u8]| -> Result<Vec<(String, Vec<u8>)>, String> { Ok(walk(&d[4..])?.into_iter().filter(|(t, _)| !gone[i].contains(&t.as_str())).collect()) };
        // what was left out is at its default
        let all = walk(&g[4..])?;
        for tag in &gone[i] {
            // control points have records of that name, too
            if it.recs.iter().any(|x| matches!(&x.val, Val::Sub(s) if s.iter().any(|y| y.tag == *tag))) {
                continue;
            }
            let have: Vec<&Vec<u8>> = all.iter().filter(|x| x.0 == *tag).map(|x| &x.1).collect();
            let want: Vec<&Vec<u8>> = defaults(it.ty).iter().filter(|x| x.0 == *tag).map(|x| &x.1).collect();
            if have != want {
                return Err(format!("{} without {tag}: it is saved with {:?}, the default is {:?}", type_name(it.ty), have.iter().map(|x| short(x)).collect::<Vec<_>>(), want.iter().map(|x| short(x)).collect::<Vec<_>>()));
            }
        }
        let (a, b) = (strip(&s[&k])?, strip(g)?);
        for j in 0..a.len().max(b.len()) {
            if a.get(j) != b.get(j) {
                return Err(format!("{} without {:?}: record {j} want {:?} got {:?}", type_name(it.ty), gone[i], a.get(j).map(|x| (x.0.clone(), short(&x.1))), b.get(j).map(|x| (x.0.clone(), short(&x.1)))));
            }
        }
    }
    Ok(())
}

/// The same for the settings of the table.
fn settings(t: &mut Tape, c: &mut Case) -> Res {
    const KEPT: &[&str] = &["SEDT", "SSND", "SIMG", "SFNT", "SCOL", "MASI", "MATE", "PHMA", "CODE"];
    let mut tb = Table { version: *t.pick(&prof().versions), ..Default::default() };
    tb.gd = gen_gamedata(t, &prof(), tb.version);
    tb.fix_counts();
    let cand: Vec<&str> = tb.gd.iter().map(|x| x.tag).filter(|x| !KEPT.contains(x))
        // in 10.8.0 this record tells the first betas by where the next one is
        .filter(|x| tb.version != 1080 || *x != "BOTM").collect();
    let mut gone = vec![];
    for _ in 0..t.usize(1, 4) {
        gone.push(*t.pick(&cand));
    }
    c.sample = Some(serde_json::json!({"table": summary(&tb), "left out": gone}));
    tb.gd.retain(|x| !gone.contains(&x.tag));
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let k = "/GameStg/GameData";
    let got = save(&parse(&s)?)?;
    let have = walk(got.get(k).ok_or("no game data")?)?;
    for tag in &gone {
        let have: Vec<&Vec<u8>> = have.iter().filter(|x| x.0 == *tag).map(|x| &x.1).collect();
        let want: Vec<&Vec<u8>> = defaults(GD).iter().filter(|x| x.0 == *tag).map(|x| &x.1).collect();
        if have != want {
            return Err(format!("game data without {tag}: it is saved with {:?}, the default is {:?}", have.iter().map(|x| short(x)).collect::<Vec<_>>(), want.iter().map(|x| short(x)).collect::<Vec<_>>()));
        }
    }
    let strip = |x: Vec<(String, Vec<u8>)>| x.into_iter().filter(|x| !gone.contains(&x.0.as_str())).collect::<Vec<_>>();
    let (a, b) = (strip(walk(&s[k])?), strip(have));
    for j in 0..a.len().max(b.len()) {
        if a.get(j) != b.get(j) {
            return Err(format!("game data without {gone:?}: record {j} want {:?} got {:?}", a.get(j).map(|x| (x.0.clone(), short(&x.1))), b.get(j).map(|x| (x.0.clone(), short(&x.1)))));
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("control points and mesh frames keep their order among themselves; record order is only permuted in game items and control points".into());
    ctx.sub("extra", ctx.n(15000, 200000), "a table with at least one unknown record; distinct by stream contents", extra);
    ctx.sub("order", ctx.n(12000, 200000), "eight parts with permuted records; distinct by stream contents", order);
    ctx.sub("missing", ctx.n(12000, 200000), "eight parts, each with one to three records left out; distinct by stream contents", missing);
    ctx.sub("settings", ctx.n(8000, 200000), "a table with one to four of its settings left out; distinct by stream contents", settings);
}
