//! P10: expanding is deterministic and independent of storage and parallelism.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p01::{classes, summary};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use std::io::Write as _;
use std::path::Path;
use std::process::{Command, Stdio};
use vpin::vpx::VPX;
use vpin::vpx::expanded;

pub fn same_files(what: &str, a: &Files, b: &Files) -> Res {
    for (k, v) in a {
        let Some(w) = b.get(k) else { return Err(format!("{what}: {k} is missing")) };
        if v != w {
            let at = v.iter().zip(w).position(|(x, y)| x != y).unwrap_or(v.len().min(w.len()));
            let lo = at.saturating_sub(60);
            let s = |d: &[u8]| String::from_utf8_lossy(&d[lo.min(d.len())..(at + 40).min(d.len())]).to_string();
            return Err(format!("{what}: {k} differs at byte {at}: {:?} and {:?}", s(v), s(w)));
        }
    }
    for k in b.keys() {
        ensure!(a.contains_key(k), "{what}: {k} appears");
    }
    Ok(())
}
fn table(t: &mut Tape, c: &mut Case, sized: bool) -> Table {
    let p = Prof { table_sized: sized, max_items: 10, max_res: 5, ..Prof::default() };
    let mut tb = gen_table(t, &p);
    if t.chance(1, 2) {
        crate::p09::rename(t, &mut tb);
    }
    derive_legacy_tables(&mut tb);
    classes(&tb, c);
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams());
    tb
}
fn threads(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}
fn jittered(v: &VPX, fmt: u64, derived: bool, n: usize) -> Result<Files, String> {
    threads(n).install(|| expand(v, fmt, derived))
}

fn repeat(t: &mut Tape, c: &mut Case) -> Res {
    let derived = t.chance(1, 3);
    let tb = table(t, c, derived);
    let fmt = t.below(3);
    c.class_if(derived, "generated meshes");
    let s = tb.streams();
    let file = build_cfb(&s);
    let read = || vpin::vpx::from_bytes(&file).map_err(|e| format!("from_bytes: {e}"));
    let v = read()?;
    let a = expand(&v, fmt, derived)?;
    c.evals = a.len() as u64;
    same_files("expanding again", &a, &expand(&v, fmt, derived)?)?;
    same_files("reading and expanding again", &a, &expand(&read()?, fmt, derived)?)?;
    let n = t.usize(1, 4);
    same_files(&format!("expanding with {n} threads"), &a, &jittered(&v, fmt, derived, n)?)?;
    diff_streams(&save(&v)?, &save(&v)?).map_err(|e| format!("saving again: {e}"))?;
    diff_streams(&save(&v)?, &save(&read()?)?).map_err(|e| format!("reading and saving again: {e}"))?;
    let x = vpin::vpx::to_bytes(&v).map_err(|e| e.to_string())?;
    let p = threads(n).install(|| vpin::vpx::to_bytes(&v)).map_err(|e| e.to_string())?;
    diff_streams(&dump_cfb(&x)?, &dump_cfb(&p)?).map_err(|e| format!("saving with {n} threads: {e}"))
}

fn storage(t: &mut Tape, c: &mut Case) -> Res {
    let derived = t.chance(1, 4);
    let tb = table(t, c, derived);
    let fmt = t.below(3);
    let v = parse(&tb.streams())?;
    let a = expand(&v, fmt, derived)?;
    c.evals = a.len() as u64;
    let d = crate::tmp::Dir::new();
    let dir = d.path("t");
    std::fs::create_dir_all(&dir).unwrap();
    expanded::write(&v, &dir, &opts(fmt, derived)).map_err(|e| format!("expanding to disk fails: {e}"))?;
    let mut raw = Files::new();
    crate::p09::collect(&dir, &dir, &mut raw);
    let b: Files = raw.into_iter().map(|(k, v)| (format!("{ROOT}/{k}"), v)).collect();
    same_files("on the real file system", &a, &b)?;
    let x = expanded::read(&dir).map_err(|e| format!("assembling from disk fails: {e}"))?;
    let y = assemble(&a)?;
    ensure!(x == y, "the table read from disk differs from the one read from memory");
    // another place
    let fs = vpin::filesystem::MemoryFileSystem::new();
    expanded::write_fs(&v, &Path::new("/some/other place"), &opts(fmt, derived), &fs).map_err(|e| e.to_string())?;
    let b: Files = files_of(&fs).into_iter().map(|(k, v)| (k.replacen("/some/other place", ROOT, 1), v)).collect();
    same_files("in another directory", &a, &b)
}

fn generated(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = table(t, c, true);
    for (i, it) in tb.items.iter_mut().enumerate() {
        // names that meet the names of generated meshes
        if t.chance(1, 6) {
            let n = format!("{}-generated", t.pick(&["a", "Wall", "x"]));
            it.set("NAME", Val::WStr(n));
        } else if t.chance(1, 4) {
            it.set("NAME", Val::WStr(format!("a{i}")));
        }
    }
    let fmt = t.below(3);
    let v = parse(&tb.streams())?;
    let plain = expand(&v, fmt, false)?;
    let full = expand(&v, fmt, true)?;
    c.evals = full.len() as u64;
    c.class_if(full.len() > plain.len(), "with generated meshes");
    c.nontrivial = full.len() > plain.len();
    let kept: Files = full.iter().filter(|(k, _)| plain.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
    same_files("with generated meshes", &plain, &kept)?;
    for k in full.keys() {
        let mesh = [".obj", ".glb", ".gltf", ".bin", ".mtl"].iter().any(|e| k.ends_with(e));
        ensure!(plain.contains_key(k) || (k.starts_with(&format!("{ROOT}/gameitems/")) && mesh), "generating meshes adds {k}");
    }
    let a = save(&assemble(&plain)?)?;
    let b = save(&assemble(&full)?)?;
    diff_streams(&normalise(&a), &normalise(&b)).map_err(|e| format!("assembled with generated meshes present: {e}"))
}

fn sequential(t: &mut Tape, c: &mut Case) -> Res {
    let exe = format!("{}/harness-seq/target/debug/vpharness-seq", std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let d = crate::tmp::Dir::new();
    let mut jobs = vec![];
    let mut input = String::new();
    for i in 0..20 {
        let derived = t.chance(1, 3);
        let tb = table(t, c, derived);
        let fmt = t.below(3);
        let f = d.path(&format!("{i}.vpx"));
        std::fs::write(&f, tb.to_vpx()).unwrap();
        let o = d.path(&format!("{i}.out"));
        input.push_str(&format!("{} {} {fmt} {}\n", f.display(), o.display(), derived as u8));
        jobs.push((tb, fmt, derived, o));
    }
    let mut ch = Command::new(&exe).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().map_err(|e| format!("cannot run {exe}: {e}"))?;
    ch.stdin.take().unwrap().write_all(input.as_bytes()).ok();
    let r = ch.wait_with_output().map_err(|e| e.to_string())?;
    ensure!(r.status.success(), "the library without parallelism crashes: {}", String::from_utf8_lossy(&r.stderr));
    for (tb, fmt, derived, o) in jobs {
        let a = expand(&parse(&tb.streams())?, fmt, derived)?;
        c.evals += a.len() as u64;
        let d = std::fs::read(&o).map_err(|e| e.to_string())?;
        let mut b = Files::new();
        let mut p = 0;
        let num = |p: &mut usize| {
            *p += 4;
            u32::from_le_bytes(d[*p - 4..*p].try_into().unwrap())
        };
        while p < d.len() {
            let n = num(&mut p);
            ensure!(n != u32::MAX, "without parallelism expanding fails: {}", String::from_utf8_lossy(&d[p..]));
            let name = String::from_utf8_lossy(&d[p..p + n as usize]).to_string();
            p += n as usize;
            let n = num(&mut p) as usize;
            b.insert(name, d[p..p + n].to_vec());
            p += n;
        }
        let saved = b.remove("").ok_or("no table is assembled without parallelism")?;
        same_files("without parallelism", &a, &b)?;
        diff_streams(&tb.streams(), &dump_cfb(&saved)?).map_err(|e| format!("assembled without parallelism: {e}"))?;
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("repeat", ctx.n(5000, 100000), "a table with at least one part, image or sound, expanded four times and saved four times; distinct by stream contents", repeat);
    ctx.sub("storage", ctx.n(3000, 50000), "as above, expanded in memory, on disk and elsewhere", storage);
    ctx.sub("generated", ctx.n(4000, 80000), "a table for which meshes are generated", generated);
    ctx.sub("sequential", ctx.n(200, 5000), "twenty tables expanded by a build of the library without parallelism", sequential);
}
