//! P22: the in-memory file system against the real one and a map of files.

use crate::engine::*;
use crate::ensure;
use crate::tape::{hash_bytes, Tape};
use crate::tmp;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{ErrorKind, IoSlice, Read, Write};
use std::path::{Path, PathBuf};
use vpin::filesystem::{FileSystem, MemoryFileSystem, RealFileSystem};

const NAMES: [&str; 16] = ["a", "A", "a.txt", "ab", "a b", "a.txt.bak", "ä", "a\u{308}", "b", "gameitems.json", ".hidden", "日本", "x\\y", "-", "a~", "aa"];
const DIRS: [&str; 7] = ["", "d", "D", "d/e", "d/e/f", "a_dir", "d e"];

struct Open {
    writers: Vec<Box<dyn Write>>,
    /// everything written
    data: Vec<u8>,
    /// nothing written since the last flush, and flushed at least once
    settled: bool,
}
fn gen_data(t: &mut Tape) -> Vec<u8> {
    let n = match t.below(8) {
        0 => 0,
        1 => 1,
        2 => t.usize(8000, 8400),
        3 => t.usize(2000, 40000),
        _ => t.usize(0, 60),
    };
    t.bytes(n)
}
/// Reads everything in pieces.
fn read_all(t: &mut Tape, r: &mut dyn Read, cap: usize) -> std::io::Result<Vec<u8>> {
    let mut o = vec![];
    if t.chance(1, 3) {
        r.read_to_end(&mut o)?;
        return Ok(o);
    }
    let step = *t.pick(&[1usize, 3, 64, 5000, 100000]);
    let step = if cap / step > 3000 { 5000 } else { step };
    let mut b = vec![0; step];
    loop {
        let k = r.read(&mut b)?;
        if k == 0 {
            // the end stays the end
            return match r.read(&mut b)? {
                0 => Ok(o),
                k => Err(std::io::Error::other(format!("{k} bytes after the end"))),
            };
        }
        o.extend_from_slice(&b[..k]);
    }
}
fn kind<T>(r: &std::io::Result<T>) -> String {
    match r {
        Ok(_) => "success".into(),
        Err(e) => format!("{:?}", e.kind()),
    }
}

fn history(t: &mut Tape, c: &mut Case) -> Res {
    let dir = tmp::Dir::new();
    let mem = MemoryFileSystem::new();
    let other = mem.clone();
    let real = RealFileSystem;
    let roots: [PathBuf; 2] = [dir.0.clone(), PathBuf::from("/t")];
    let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut dirs: BTreeSet<&str> = BTreeSet::from([""]);
    let mut open: BTreeMap<String, Open> = BTreeMap::new();
    let n = t.usize(3, 24);
    let mut log = vec![];
    let mut streamed = 0;
    for _ in 0..n {
        let known: Vec<&str> = dirs.iter().copied().collect();
        let d = *t.pick(&known);
        let few = if t.bool() { 4 } else { NAMES.len() as u64 };
        let name = NAMES[t.below(few) as usize];
        let rel = if d.is_empty() { name.to_string() } else { format!("{d}/{name}") };
        let fss: [(&str, &dyn FileSystem, PathBuf); 2] = [("real", &real, roots[0].join(&rel)), ("memory", if t.bool() { &mem } else { &other }, roots[1].join(&rel))];
        let op = t.below(10);
        log.push(format!("{op}:{rel}"));
        let busy = open.get(&rel).is_some_and(|o| !o.settled);
        match op {
            0 | 1 if !open.contains_key(&rel) => {
                c.class("write");
                let data = gen_data(t);
                for (w, fs, p) in &fss {
                    fs.write_file(p, &data).map_err(|e| format!("{w}: writing {rel}: {e}"))?;
                }
                model.insert(rel, data);
            }
            2 if !open.contains_key(&rel) => {
                c.class("open a writer");
                let buffered = t.bool();
                let mut writers = vec![];
                for (w, fs, p) in &fss {
                    writers.push(if buffered { fs.create_buffered_file(p) } else { fs.create_file(p) }.map_err(|e| format!("{w}: creating {rel}: {e}"))?);
                }
                open.insert(rel, Open { writers, data: vec![], settled: false });
            }
            3 | 4 if !open.is_empty() => {
                let k = t.usize(0, open.len() - 1);
                let o = open.values_mut().nth(k).unwrap();
                let data = gen_data(t);
                match t.below(4) {
                    0 => {
                        for w in &mut o.writers {
                            w.flush().map_err(|e| e.to_string())?;
                        }
                        o.settled = true;
                        c.class("flush");
                    }
                    1 => {
                        let cut = t.usize(0, data.len());
                        for w in &mut o.writers {
                            let mut rest: &[u8] = &data;
                            // several buffers, the rest if not all was taken
                            let k = w.write_vectored(&[IoSlice::new(&data[..cut]), IoSlice::new(&data[cut..])]).map_err(|e| e.to_string())?;
                            ensure!(k <= data.len(), "{k} of {} bytes written", data.len());
                            rest = &rest[k..];
                            w.write_all(rest).map_err(|e| e.to_string())?;
                        }
                        o.data.extend(data);
                        o.settled = false;
                        streamed += 1;
                    }
                    _ => {
                        for w in &mut o.writers {
                            w.write_all(&data).map_err(|e| e.to_string())?;
                        }
                        o.data.extend(data);
                        o.settled = false;
                        streamed += 1;
                    }
                }
            }
            5 if !open.is_empty() => {
                c.class("close a writer");
                let k = t.usize(0, open.len() - 1);
                let rel = open.keys().nth(k).unwrap().clone();
                let mut o = open.remove(&rel).unwrap();
                if t.bool() {
                    for w in &mut o.writers {
                        w.flush().map_err(|e| e.to_string())?;
                    }
                }
                drop(o.writers);
                model.insert(rel.clone(), o.data);
                for (w, root) in roots.iter().enumerate() {
                    let fs: &dyn FileSystem = if w == 0 { &real } else { &mem };
                    let got = fs.read_file(&root.join(&rel)).map_err(|e| format!("after closing {rel}: {e}"))?;
                    ensure!(got == model[&rel], "{} bytes read of {rel} after writing {} bytes", got.len(), model[&rel].len());
                }
            }
            6 => {
                c.class("create directories");
                let d = *t.pick(&DIRS);
                for (k, root) in roots.iter().enumerate() {
                    let fs: &dyn FileSystem = if k == 0 { &real } else { &mem };
                    fs.create_dir_all(&if d.is_empty() { root.clone() } else { root.join(d) }).map_err(|e| format!("creating directory {d:?}: {e}"))?;
                }
                let mut at = Some(Path::new(d));
                while let Some(p) = at {
                    dirs.insert(DIRS.iter().find(|x| Path::new(x) == p).unwrap());
                    at = p.parent();
                }
            }
            7 if !open.contains_key(&rel) => {
                c.class("delete");
                mem.delete_file(roots[1].join(&rel).to_str().unwrap());
                let _ = std::fs::remove_file(roots[0].join(&rel));
                model.remove(&rel);
            }
            _ if busy => {}
            _ => {
                c.class("read");
                let want = match open.get(&rel) {
                    Some(o) => Some(&o.data),
                    None => model.get(&rel),
                };
                for (w, fs, p) in &fss {
                    let e = fs.exists(p);
                    ensure!(e == want.is_some(), "{w}: {rel} exists: {e}");
                    let cap = want.map_or(0, |x| x.len());
                    let r: [(&str, std::io::Result<Vec<u8>>); 3] =
                        [("read_file", fs.read_file(p)), ("open_file", fs.open_file(p).and_then(|mut r| read_all(t, &mut *r, cap))), ("open_buffered_file", fs.open_buffered_file(p).and_then(|mut r| read_all(t, &mut *r, cap)))];
                    for (how, r) in r {
                        match (&r, want) {
                            (Ok(x), Some(y)) => ensure!(x == y, "{w}: {how} of {rel} gives {} bytes instead of {}", x.len(), y.len()),
                            (Err(e), None) => ensure!(e.kind() == ErrorKind::NotFound, "{w}: {how} of the missing {rel}: {:?}", e.kind()),
                            _ => return Err(format!("{w}: {how} of {rel}: {}, but it has {:?} bytes", kind(&r), want.map(|x| x.len()))),
                        }
                    }
                }
                ensure!(mem.get_file(roots[1].join(&rel).to_str().unwrap()).as_ref() == want, "get_file of {rel} differs");
            }
        }
        // all files that are not being written
        let mut listed: Vec<String> = mem.list_files();
        listed.sort();
        let of = |r: &String| format!("/t/{r}");
        let mut expect: BTreeSet<String> = model.keys().map(of).collect();
        let mut unsure: BTreeSet<String> = BTreeSet::new();
        for (r, o) in &open {
            if o.settled {
                expect.insert(of(r));
            } else {
                expect.remove(&of(r));
                unsure.insert(of(r));
            }
        }
        let got: BTreeSet<String> = listed.into_iter().filter(|x| !unsure.contains(x)).collect();
        ensure!(got == expect, "files {got:?} instead of {expect:?}");
    }
    drop(open.into_iter().map(|(r, o)| model.insert(r, o.data)).count());
    for (r, want) in &model {
        let (a, b) = (real.read_file(&roots[0].join(r)), mem.read_file(&roots[1].join(r)));
        ensure!(a.as_ref().is_ok_and(|x| x == want), "real: {r} at the end: {}", kind(&a));
        ensure!(b.as_ref().is_ok_and(|x| x == want), "memory: {r} at the end: {}", kind(&b));
    }
    c.nontrivial = streamed > 0 && model.len() >= 2;
    c.hash = hash_bytes(log.join(",").as_bytes());
    c.sample = Some(json!({"operations (kind:path)": log, "files at the end": model.len()}));
    mem.clear();
    ensure!(mem.list_files().is_empty() && other.list_files().is_empty(), "files after clearing");
    Ok(())
}

/// Threads writing files of their own at the same time do not disturb each other.
fn threads(t: &mut Tape, c: &mut Case) -> Res {
    let dir = tmp::Dir::new();
    let mem = MemoryFileSystem::new();
    let n = t.usize(2, 6);
    let plans: Vec<Vec<(String, Vec<Vec<u8>>, bool)>> = (0..n)
        .map(|k| {
            (0..t.usize(1, 5))
                .map(|i| {
                    let name = format!("{k}-{}", NAMES[i]);
                    (name, (0..t.usize(0, 5)).map(|_| gen_data(t)).collect(), t.bool())
                })
                .collect()
        })
        .collect();
    c.hash = hash_bytes(format!("{plans:?}").as_bytes());
    c.nontrivial = plans.iter().filter(|p| p.iter().any(|f| f.1.len() > 1)).count() >= 2;
    c.sample = Some(json!({"threads": n, "files": plans.iter().map(|p| p.iter().map(|f| json!([f.0, f.1.iter().map(|x| x.len()).collect::<Vec<_>>()])).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    let real = RealFileSystem;
    for (root, fs) in [(dir.0.clone(), &real as &dyn FileSystem), (PathBuf::from("/t"), &mem as &dyn FileSystem)] {
        let errors: Vec<String> = std::thread::scope(|s| {
            let h: Vec<_> = plans
                .iter()
                .map(|plan| {
                    let root = &root;
                    s.spawn(move || -> Res {
                        // all of them open together
                        let mut w = vec![];
                        for f in plan {
                            let p = root.join(&f.0);
                            w.push(if f.2 { fs.create_buffered_file(&p) } else { fs.create_file(&p) }.map_err(|e| e.to_string())?);
                        }
                        let most = plan.iter().map(|f| f.1.len()).max().unwrap_or(0);
                        for k in 0..most {
                            for (f, w) in plan.iter().zip(&mut w) {
                                if let Some(x) = f.1.get(k) {
                                    w.write_all(x).map_err(|e| e.to_string())?;
                                }
                                std::thread::yield_now();
                            }
                        }
                        drop(w);
                        for f in plan {
                            let got = fs.read_file(&root.join(&f.0)).map_err(|e| format!("{}: {e}", f.0))?;
                            if got != f.1.concat() {
                                return Err(format!("{} has {} bytes of {}", f.0, got.len(), f.1.concat().len()));
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            h.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Err("a thread crashed".into())).err()).collect()
        });
        ensure!(errors.is_empty(), "{}", errors.join("; "));
        for f in plans.iter().flatten() {
            ensure!(fs.read_file(&root.join(&f.0)).is_ok_and(|x| x == f.1.concat()), "{} differs after all threads", f.0);
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("history", ctx.n(240000, 4000000), "histories with streamed writes and at least two files at the end; distinct by operations", history);
    ctx.sub("threads", ctx.n(3000, 60000), "at least two threads with a file written in several pieces; distinct by plan", threads);
}
