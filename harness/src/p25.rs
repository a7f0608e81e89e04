//! P25: compaction survives crashes, and operations keep to their own files.

use crate::engine::*;
use crate::ensure;
use crate::exp::parse;
use crate::p01::summary;
use crate::p06::build;
use crate::sysfault::{self, Kind};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vpin::vpx::{self, expanded, ExtractResult, VerifyResult};

/// Every file below the directory, by path.
pub fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut o = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                todo.push(p);
            } else {
                o.insert(p.to_string_lossy().to_string(), std::fs::read(&p).unwrap());
            }
        }
    }
    o
}

pub fn reset(dir: &Path, files: &BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            std::fs::remove_dir_all(p).unwrap();
        } else {
            std::fs::remove_file(p).unwrap();
        }
    }
    for (k, v) in files {
        std::fs::write(k, v).unwrap();
    }
}

const NAMES: &[&str] = &["t.vpx", "t.vpx", "a.b.vpx", "noext", "t.compacting", ".vpx", "T.VPX", "Name with space (v1.2).vpx", "täble.vpx", "t.vpx.compacting", "t..vpx"];

/// A table below a name, with other files around it.
fn place(t: &mut Tape, c: &mut Case, p: &Prof) -> (crate::tmp::Dir, PathBuf, Table, BTreeMap<String, Vec<u8>>) {
    let tb = gen_table(t, p);
    let file = build(t, &tb.streams());
    let dir = crate::tmp::Dir::new();
    let name = *t.pick(NAMES);
    c.class_if(name.contains("compacting"), "named like a temporary file");
    let path = dir.path(name);
    let mut files = BTreeMap::new();
    for n in ["t.vpx", "t.vbs", "t", "t.vpx.bak", "u.vpx", "t.ini", "u.compacting", "tmp"] {
        if n != name && t.chance(1, 3) {
            files.insert(dir.path(n).to_string_lossy().to_string(), format!("bystander {n}").into_bytes());
        }
    }
    files.insert(path.to_string_lossy().to_string(), file);
    (dir, path, tb, files)
}

fn compaction(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { max_items: 3, max_res: 2, ..Prof::default() };
    let (dir, path, tb, mut files) = place(t, c, &p);
    c.hash = streams_hash(&tb.streams());
    let key = path.to_string_lossy().to_string();
    let want = tb.streams();
    let left = t.chance(1, 4);
    reset(&dir.0, &files);
    let (r, calls) = sysfault::with(Kind::Watch, 0, || guard(|| vpx::compact(&path)));
    r?.map_err(|e| format!("compact: {e}"))?;
    let done = snapshot(&dir.0);
    ensure!(done.keys().eq(files.keys()), "compact leaves {:?} of {:?}", done.keys(), files.keys());
    let temps: Vec<String> = calls.touched().into_iter().filter(|x| !files.contains_key(x)).collect();
    for (k, v) in &done {
        ensure!(*k == key || files[k] == *v, "compacting {key} changes {k}");
    }
    diff_streams(&want, &dump_cfb(&done[&key])?).map_err(|e| format!("after compacting: {e}"))?;
    if left {
        // an earlier attempt left something behind
        for k in &temps {
            let n = t.usize(0, 20000);
            files.insert(k.clone(), t.bytes(n));
            c.class("left-over temporary file");
        }
    }
    let n = calls.calls.len() as u64;
    let kind = *t.pick(&[Kind::Crash, Kind::Crash, Kind::Crash, Kind::Torn, Kind::Once, Kind::Sticky]);
    let mut points: Vec<u64> = if n <= 60 || n <= 600 && t.chance(1, 20) { (0..n).collect() } else { (0..24).map(|_| t.below(n)).collect() };
    // the decisive steps are the last ones
    points.extend(n.saturating_sub(8)..n);
    points.sort();
    points.dedup();
    c.sample = Some(json!({"file": path.file_name().unwrap().to_string_lossy(), "fault": format!("{kind:?}"), "system calls": n, "points": points.len(), "table": summary(&tb)}));
    c.class(match kind {
        Kind::Crash => "crash",
        Kind::Torn => "crash within a write",
        Kind::Once => "one failing call",
        _ => "failing calls",
    });
    for at in points {
        let what = format!("{kind:?} at call {at} of {n} ({})", calls.calls[at as usize].name);
        reset(&dir.0, &files);
        let (r, rep) = sysfault::with(kind, at, || guard(|| vpx::compact(&path)));
        c.evals += 1;
        let r = r.map_err(|p| format!("{what}: {p}"))?;
        let now = snapshot(&dir.0);
        let Some(got) = now.get(&key) else {
            return Err(format!("{what}: the table is gone, there is {:?}", now.keys()));
        };
        if *got != files[&key] {
            c.class("the new table is in place");
            diff_streams(&want, &dump_cfb(got).map_err(|e| format!("{what}: the table is damaged: {e}"))?).map_err(|e| format!("{what}: {e}"))?;
        }
        if matches!(kind, Kind::Once | Kind::Sticky) && r.is_ok() {
            ensure!(got == &done[&key], "{what}: success is reported, but the table is not the compacted one");
        }
        c.nontrivial |= rep.hit;
        for (k, v) in &files {
            ensure!(*k == key || temps.contains(k) || now.get(k) == Some(v), "{what}: {k} is changed");
        }
        // and again, whatever was left behind
        if at % 3 == 0 || at + 8 >= n {
            guard(|| vpx::compact(&path))?.map_err(|e| format!("{what}, then compacting again: {e}"))?;
            let again = snapshot(&dir.0);
            diff_streams(&want, &dump_cfb(again.get(&key).ok_or_else(|| format!("{what}, then compacting again: the table is gone"))?)?).map_err(|e| format!("{what}, then compacting again: {e}"))?;
            ensure!(again[&key].len() <= files[&key].len(), "{what}, then compacting again: the table is larger than before");
            for (k, v) in &files {
                ensure!(*k == key || temps.contains(k) || again.get(k) == Some(v), "{what}, then compacting again: {k} is changed");
            }
        }
    }
    Ok(())
}

/// Which files an operation opens for writing, creates, renames or removes.
fn footprint(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { max_items: 5, max_res: 3, images_decodable: true, ..Prof::default() };
    let (dir, path, mut tb, _) = place(t, c, &p);
    let n = [0, 100, 5000][t.below(3) as usize];
    let script: Vec<u8> = t.bytes(n).iter().map(|b| b' ' + b % 90).collect();
    tb.gd_set("CODE", Val::Code(script.clone()));
    tb.gd.retain(|x| x.tag != "TLCK");
    let odd = t.bool();
    tb.gd.push(r("TLCK", "locked", Val::U32(odd as u32)));
    let key = path.to_string_lossy().to_string();
    let mut files = BTreeMap::from([(key.clone(), build(t, &tb.streams()))]);
    let vbs = vpx::vbs_path_for(&path);
    let vk = vbs.to_string_lossy().to_string();
    let sidecar = vbs != path && t.bool();
    if sidecar {
        files.insert(vk.clone(), b"' other script\r\n".to_vec());
    }
    reset(&dir.0, &files);
    c.hash = streams_hash(&tb.streams());
    let op = t.below(12);
    let name = ["read", "open and read all", "verify", "list", "extract, keep", "extract, overwrite", "import", "lock", "unlock", "is locked", "expand in memory", "extract elsewhere"][op as usize];
    c.class(name);
    c.sample = Some(json!({"operation": name, "file": path.file_name().unwrap().to_string_lossy(), "script beside it": sidecar, "table": summary(&tb)}));
    let e = |e: std::io::Error| format!("{name}: {e}");
    let other = dir.path("elsewhere.vbs");
    if op == 6 && !sidecar {
        std::fs::write(&other, b"' new").unwrap();
        files.insert(other.to_string_lossy().to_string(), b"' new".to_vec());
    }
    if vbs == path && matches!(op, 4 | 5) {
        return Ok(());
    }
    let run = || -> Result<Vec<String>, String> {
        Ok(match op {
            0 => {
                vpx::read(&path).map_err(e)?;
                vec![]
            }
            1 => {
                let mut f = vpx::open(&path).map_err(e)?;
                f.read_version().map_err(e)?;
                f.read_tableinfo().map_err(e)?;
                f.read_gamedata().map_err(e)?;
                f.read_gameitems().map_err(e)?;
                f.read_images().map_err(e)?;
                f.read_sounds().map_err(e)?;
                f.read_fonts().map_err(e)?;
                f.read_collections().map_err(e)?;
                f.read_custominfotags().map_err(e)?;
                vec![]
            }
            2 => {
                ensure!(vpx::verify(&path) == VerifyResult::Ok(path.clone()), "does not verify");
                vec![]
            }
            3 => {
                ensure!(!expanded::extract_directory_list(&path).is_empty(), "empty list");
                vec![]
            }
            4 => {
                let r = vpx::extractvbs(&path, None, false).map_err(e)?;
                ensure!(if sidecar { matches!(r, ExtractResult::Existed(_)) } else { matches!(r, ExtractResult::Extracted(_)) }, "extract reports the wrong thing");
                if sidecar { vec![] } else { vec![vk.clone()] }
            }
            5 => {
                vpx::extractvbs(&path, None, true).map_err(e)?;
                vec![vk.clone()]
            }
            6 => {
                vpx::importvbs(&path, if sidecar { None } else { Some(other.clone()) }).map_err(e)?;
                vec![key.clone()]
            }
            7 | 8 => {
                let mut f = vpx::open_rw(&path).map_err(e)?;
                let done = if op == 7 { f.lock() } else { f.unlock() }.map_err(e)?;
                ensure!(done == ((op == 7) != odd), "{name} reports {done}");
                vec![key.clone()]
            }
            9 => {
                ensure!(vpx::open(&path).map_err(e)?.is_locked().map_err(e)? == odd, "wrong lock state");
                vec![]
            }
            10 => {
                let v = vpx::read(&path).map_err(e)?;
                let fs = vpin::filesystem::MemoryFileSystem::new();
                expanded::write_fs(&v, &dir.path("ex"), &expanded::ExpandOptions::new(), &fs).map_err(|e| e.to_string())?;
                expanded::read_fs(&dir.path("ex"), &fs).map_err(e)?;
                vec![]
            }
            _ => {
                vpx::extractvbs(&path, Some(other.clone()), true).map_err(e)?;
                vec![other.to_string_lossy().to_string()]
            }
        })
    };
    let (r, rep) = sysfault::with(Kind::Watch, 0, || guard(run));
    let allowed = r??;
    for x in rep.touched() {
        ensure!(allowed.contains(&x), "{name} opens {x} for writing, creates or removes it");
    }
    let now = snapshot(&dir.0);
    for (k, v) in &now {
        ensure!(allowed.contains(k) || files.get(k) == Some(v), "{name} changes {k}");
    }
    for k in files.keys() {
        ensure!(now.contains_key(k), "{name} removes {k}");
    }
    if matches!(op, 7 | 8) && (op == 7) == odd {
        ensure!(now[&key] == files[&key], "{name} changes the file although there is nothing to do");
    }
    if matches!(op, 5 | 11) || op == 4 && !sidecar {
        ensure!(now.get(&allowed[0]) == Some(&script), "{name} writes another script");
    }
    c.nontrivial = true;
    c.evals = rep.calls.len() as u64;
    Ok(())
}

/// Whole-table exports to the real file system.
fn exports(t: &mut Tape, c: &mut Case) -> Res {
    use vpin::filesystem::{FileSystem, MemoryFileSystem, RealFileSystem};
    use vpin::vpx::export::gltf_export::*;
    use vpin::vpx::export::obj_export::*;
    let tb = crate::p18::table(t, 4);
    let v = parse(&tb.streams())?;
    c.hash = streams_hash(&tb.streams());
    let dir = crate::tmp::Dir::new();
    let files: BTreeMap<String, Vec<u8>> = ["t.vpx", "notes.txt", "t.vbs"].iter().map(|n| (dir.path(n).to_string_lossy().to_string(), n.as_bytes().to_vec())).collect();
    let kind = t.below(3);
    let name = ["x.glb", "x y.gltf", "x.obj"][kind as usize];
    c.class(name);
    let out = dir.path("out");
    let target = out.join(name);
    let run = |fs: &dyn FileSystem| -> Result<(), String> {
        match kind {
            0 => export_gltf(&v, &target, fs, &GltfExportOptions::glb()).map_err(|e| e.to_string()),
            1 => export_gltf(&v, &target, fs, &GltfExportOptions::gltf()).map_err(|e| e.to_string()),
            _ => export_obj(&v, &target, fs, &ObjExportOptions::default()).map_err(|e| e.to_string()),
        }
    };
    let mem = MemoryFileSystem::new();
    mem.create_dir_all(&out).unwrap();
    guard(|| run(&mem))?.map_err(|e| format!("{name}: {e}"))?;
    let start = || {
        reset(&dir.0, &files);
        std::fs::create_dir(&out).unwrap();
    };
    start();
    let (r, calls) = sysfault::with(Kind::Watch, 0, || guard(|| run(&RealFileSystem)));
    r?.map_err(|e| format!("{name}: {e}"))?;
    for x in calls.touched() {
        ensure!(Path::new(&x).starts_with(&out), "exporting {name} touches {x}");
    }
    let done = snapshot(&dir.0);
    let mut want = files.clone();
    for k in mem.list_files() {
        want.insert(k.clone(), mem.get_file(&k).ok_or("listed file is missing")?);
    }
    ensure!(done.keys().eq(want.keys()), "{name}: files on disk {:?}, in memory {:?}", done.keys(), want.keys());
    for (k, d) in &want {
        ensure!(done[k] == *d, "{name}: {k} differs between disk and memory");
    }
    let n = calls.calls.len() as u64;
    c.sample = Some(json!({"export": name, "files": done.len(), "system calls": n, "table": summary(&tb)}));
    for i in 0..t.usize(1, 4) as u64 {
        let at = if i == 0 { n - 1 } else { t.below(n) };
        let kind = *t.pick(&[Kind::Once, Kind::Once, Kind::Sticky, Kind::Slow]);
        let what = format!("exporting {name} with {kind:?} at call {at} of {n} ({})", calls.calls[at as usize].name);
        start();
        let (r, rep) = sysfault::with(kind, at, || guard(|| run(&RealFileSystem)));
        c.evals += 1;
        let now = snapshot(&dir.0);
        match r.map_err(|p| format!("{what}: {p}"))? {
            Ok(()) => ensure!(now == done, "{what}: success is reported, but the files are not what they should be"),
            Err(e) => ensure!(rep.hit, "{what}: {e}"),
        }
        c.nontrivial |= rep.hit;
        for (k, d) in &files {
            ensure!(now.get(k) == Some(d), "{what}: {k} is changed");
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.extend([
        "a crash is the end of the process: what it had handed to the operating system stays, nothing after it happens (power loss, where the system's own caches are lost, is not modelled)".into(),
        "system calls of one thread, made through the C library (open, read, write, seek, truncate, copy, sync, rename, link, unlink, mkdir, rmdir, chmod)".into(),
    ]);
    ctx.sub("compaction", ctx.n(600, 20000), "compaction is disturbed at one of its system calls; distinct by table contents", compaction);
    ctx.sub("footprint", ctx.n(3000, 60000), "an operation on a table file; distinct by table contents", footprint);
    ctx.sub("exports", ctx.n(500, 8000), "a system call of an export fails; distinct by table contents", exports);
}
