//! P09: expanded files are distinct, contained and complete.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p01::{classes, summary};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Read, Write};
use std::path::Path;
use std::sync::Mutex;
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::expanded;

/// An in-memory file system that notes every path it is asked to write.
#[derive(Default)]
pub struct Recording {
    pub fs: MemoryFileSystem,
    pub written: Mutex<Vec<String>>,
    pub dirs: Mutex<Vec<String>>,
}
impl Recording {
    fn note(&self, p: &Path) {
        self.written.lock().unwrap().push(p.to_string_lossy().to_string());
    }
}
impl FileSystem for Recording {
    fn create_file(&self, p: &Path) -> io::Result<Box<dyn Write>> {
        self.note(p);
        self.fs.create_file(p)
    }
    fn open_file(&self, p: &Path) -> io::Result<Box<dyn Read>> {
        self.fs.open_file(p)
    }
    fn read_file(&self, p: &Path) -> io::Result<Vec<u8>> {
        self.fs.read_file(p)
    }
    fn write_file(&self, p: &Path, d: &[u8]) -> io::Result<()> {
        self.note(p);
        self.fs.write_file(p, d)
    }
    fn create_dir_all(&self, p: &Path) -> io::Result<()> {
        self.dirs.lock().unwrap().push(p.to_string_lossy().to_string());
        self.fs.create_dir_all(p)
    }
    fn exists(&self, p: &Path) -> bool {
        self.fs.exists(p)
    }
}

fn contained(p: &str, root: &str) -> Res {
    let Some(rel) = p.strip_prefix(&format!("{root}/")) else {
        return Err(format!("{p:?} is outside the target directory"));
    };
    for c in rel.split('/') {
        ensure!(!c.is_empty() && c != "." && c != "..", "{p:?} has a component {c:?}");
        ensure!(!c.chars().any(|x| "\\:*?\"<>|".contains(x) || (x as u32) < 32), "{p:?} has a reserved character in {c:?}");
        ensure!(c.len() <= 255, "{p:?} has a component of {} bytes", c.len());
    }
    ensure!(rel.split('/').count() <= 2, "{p:?} is nested deeper than the format has directories");
    Ok(())
}

/// names that are likely to meet each other after sanitising
fn close_names(t: &mut Tape, tb: &mut Table, latin: bool) -> Vec<String> {
    let _ = tb;
    let base = match t.below(4) {
        0 => t.pick(NASTY).to_string(),
        1 => "a".to_string(),
        2 => t.pick(&["wall", "L1", "..", "con", "x.y", "json", "n_dedup1", "x__1"]).to_string(),
        _ => gen_str(t).chars().take(8).collect(),
    };
    let mut v = vec![base.clone(), base.to_uppercase(), base.to_lowercase()];
    for s in ["_dedup1", "_dedup2", "__1", "__2", "_1", ".", " ", "/", "\\", ":", "?", "*", "\n", ".json", ".obj", "_anim_1", "_anim_0", "-generated", "\"", "|", "\u{80}"] {
        v.push(format!("{base}{s}"));
        v.push(format!("{s}{base}"));
        v.push(format!("{}{s}", base.to_uppercase()));
    }
    v.push(format!("../{base}"));
    v.push(format!("C:\\{base}"));
    v.push(base.repeat(60));
    v.push(format!("{}x", base.repeat(60)));
    if latin {
        for s in v.iter_mut() {
            *s = s.chars().filter(|c| (*c as u32) < 256).collect();
        }
    }
    v
}
pub fn rename(t: &mut Tape, tb: &mut Table) {
    let names = close_names(t, tb, false);
    let few = t.usize(2, names.len());
    let pick = |t: &mut Tape| names[t.below(few as u64) as usize].clone();
    let latin = |s: String| s.chars().filter(|c| (*c as u32) < 256).collect::<String>();
    for it in tb.items.iter_mut() {
        if t.chance(5, 6) {
            let n = pick(t);
            it.set("NAME", Val::WStr(n));
        }
    }
    for im in tb.images.iter_mut() {
        if t.chance(5, 6) {
            let n = latin(pick(t));
            let x = im.iter_mut().find(|x| x.tag == "NAME").unwrap();
            x.val = Val::Str(n);
        }
    }
    for s in tb.sounds.iter_mut() {
        if t.chance(5, 6) {
            s.name = latin(pick(t));
        }
    }
    for s in tb.fonts.iter_mut() {
        if t.chance(5, 6) {
            s.name = latin(pick(t));
        }
    }
}
fn table(t: &mut Tape, c: &mut Case) -> Table {
    let types = if t.bool() { ALL_TYPES.to_vec() } else { vec![*t.pick(&ALL_TYPES), 19] };
    let p = Prof { max_items: 8, max_res: 6, types, ..Prof::default() };
    let mut tb = gen_table(t, &p);
    // every resource has contents of its own
    for (i, s) in tb.sounds.iter_mut().enumerate() {
        s.data.extend_from_slice(format!("sound {i:05}").as_bytes());
    }
    for (i, s) in tb.fonts.iter_mut().enumerate() {
        s.data.extend_from_slice(format!("font {i:05}").as_bytes());
    }
    for (i, im) in tb.images.iter_mut().enumerate() {
        for x in im.iter_mut() {
            if let Val::Jpeg(j) = &mut x.val {
                let d = j.iter().position(|y| y.tag == "DATA").unwrap();
                let Val::Bytes(b) = &mut j[d].val else { unreachable!() };
                b.extend_from_slice(format!("image {i:05}").as_bytes());
                let n = b.len() as u32;
                j.iter_mut().find(|y| y.tag == "SIZE").unwrap().val = Val::U32(n);
            }
        }
    }
    rename(t, &mut tb);
    derive_legacy_tables(&mut tb);
    classes(&tb, c);
    tb
}

fn in_dir(files: &Files, dir: &str) -> Vec<(String, Vec<u8>)> {
    files.iter().filter_map(|(k, v)| k.strip_prefix(&format!("{ROOT}/{dir}/")).map(|n| (n.to_string(), v.clone()))).collect()
}

pub fn complete(tb: &Table, f: &Files) -> Res {
    // parts
    let ix = json(f, "gameitems.json")?;
    let ix = ix.as_array().ok_or("gameitems.json is not a list")?;
    ensure!(ix.len() == tb.items.len(), "gameitems.json lists {} of {} parts", ix.len(), tb.items.len());
    let mut listed = BTreeSet::new();
    for (i, (e, it)) in ix.iter().zip(&tb.items).enumerate() {
        let n = e["file_name"].as_str().ok_or("no file_name")?;
        ensure!(listed.insert(n.to_string()), "gameitems.json lists {n} twice");
        let v = json(f, &format!("gameitems/{n}")).map_err(|x| format!("entry {i} of gameitems.json: {x}"))?;
        let o = v.as_object().and_then(|o| o.iter().next()).ok_or("empty part file")?;
        ensure!(o.0.to_lowercase() == type_name(it.ty), "entry {i} of gameitems.json is a {} instead of a {}", o.0, type_name(it.ty));
        ensure!(o.1["name"].as_str() == Some(&it.name()), "entry {i} of gameitems.json is part {} instead of {:?}", o.1["name"], it.name());
    }
    let have: BTreeSet<String> = in_dir(f, "gameitems").into_iter().map(|x| x.0).collect();
    for h in &have {
        if h.ends_with(".json") {
            ensure!(listed.contains(h), "gameitems/{h} is not listed in gameitems.json");
        }
    }
    // every mesh of its own
    let meshes = tb.items.iter().filter(|i| i.ty == 19 && i.get("M3CX").is_some()).count();
    let frames: usize = tb.items.iter().filter(|i| i.ty == 19 && i.get("M3CX").is_some()).map(|i| i.recs.iter().filter(|r| r.tag == "M3AX").count()).sum();
    let mesh_files = have.iter().filter(|n| [".obj", ".glb", ".gltf"].iter().any(|e| n.ends_with(e))).count();
    ensure!(mesh_files == meshes + frames, "{mesh_files} mesh files for {meshes} meshes and {frames} animation frames: {have:?}");
    // images
    let ix = json(f, "images.json")?;
    let ix = ix.as_array().ok_or("images.json is not a list")?;
    ensure!(ix.len() == tb.images.len(), "images.json lists {} of {} images", ix.len(), tb.images.len());
    let mut want: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut bits = 0;
    for (i, im) in tb.images.iter().enumerate() {
        let n = im.iter().find(|x| x.tag == "NAME").unwrap();
        ensure!(json!(ix[i]["name"]) == json!(str_of(&n.val)), "entry {i} of images.json is {} instead of {:?}", ix[i]["name"], n.val);
        for x in im {
            match &x.val {
                Val::Jpeg(j) => {
                    let Val::Bytes(b) = &j.iter().find(|y| y.tag == "DATA").unwrap().val else { unreachable!() };
                    *want.entry(b.clone()).or_default() += 1;
                }
                Val::NoSize(_) => bits += 1,
                _ => {}
            }
        }
    }
    let have = in_dir(f, "images");
    let n: usize = want.values().sum();
    ensure!(have.len() == n + bits, "{} files in images/ for {} images: {:?}", have.len(), n + bits, have.iter().map(|x| &x.0).collect::<Vec<_>>());
    let mut others = 0;
    for (name, d) in &have {
        match want.get_mut(d) {
            Some(k) if *k > 0 => *k -= 1,
            _ => {
                others += 1;
                ensure!(name.to_lowercase().ends_with(".bmp"), "images/{name} is no image of the table");
            }
        }
    }
    ensure!(others == bits, "{others} bitmap files for {bits} bitmaps");
    // sounds: the data of each is in exactly one file
    let ix = json(f, "sounds.json")?;
    ensure!(ix.as_array().map(|a| a.len()) == Some(tb.sounds.len()), "sounds.json does not list {} sounds", tb.sounds.len());
    let have = in_dir(f, "sounds");
    ensure!(have.len() == tb.sounds.len(), "{} files in sounds/ for {} sounds", have.len(), tb.sounds.len());
    for (i, s) in tb.sounds.iter().enumerate() {
        ensure!(ix[i]["name"].as_str() == Some(&s.name), "entry {i} of sounds.json is {} instead of {:?}", ix[i]["name"], s.name);
        let k = have.iter().filter(|(_, d)| d.ends_with(&s.data)).count();
        ensure!(k == 1, "the data of sound {i} ({:?}) is in {k} files", s.name);
    }
    let ix = json(f, "fonts.json")?;
    ensure!(ix.as_array().map(|a| a.len()) == Some(tb.fonts.len()), "fonts.json does not list {} fonts", tb.fonts.len());
    let have = in_dir(f, "fonts");
    ensure!(have.len() == tb.fonts.len(), "{} files in fonts/ for {} fonts", have.len(), tb.fonts.len());
    for (i, s) in tb.fonts.iter().enumerate() {
        ensure!(ix[i]["name"].as_str() == Some(&s.name), "entry {i} of fonts.json is {} instead of {:?}", ix[i]["name"], s.name);
        let k = have.iter().filter(|(_, d)| *d == s.data).count();
        ensure!(k == 1, "the data of font {i} ({:?}) is in {k} files", s.name);
    }
    Ok(())
}
fn str_of(v: &Val) -> String {
    match v {
        Val::Str(s) | Val::WStr(s) => s.clone(),
        _ => unreachable!(),
    }
}

fn memory(t: &mut Tape, c: &mut Case) -> Res {
    let tb = table(t, c);
    c.sample = Some(json!({"table": summary(&tb), "names": tb.items.iter().map(|i| i.name()).collect::<Vec<_>>(), "images": tb.images.iter().map(|i| str_of(&i[0].val)).collect::<Vec<_>>()}));
    let s = tb.streams();
    c.hash = streams_hash(&s);
    c.nontrivial = tb.items.len() + tb.images.len() + tb.sounds.len() + tb.fonts.len() >= 2;
    let v = parse(&s)?;
    let fs = Recording::default();
    expanded::write_fs(&v, &Path::new(ROOT), &opts(t.below(3), false), &fs).map_err(|e| format!("expanding fails: {e}"))?;
    let f = files_of(&fs.fs);
    let written = fs.written.into_inner().unwrap();
    c.evals = written.len() as u64;
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for w in &written {
        contained(w, ROOT)?;
        if let Some(o) = seen.insert(w.to_lowercase(), w.clone()) {
            return Err(format!("{w:?} is written after {o:?}"));
        }
    }
    for d in fs.dirs.into_inner().unwrap() {
        if d != ROOT {
            contained(&d, ROOT)?;
        }
    }
    ensure!(f.len() == written.len(), "{} files after writing {}", f.len(), written.len());
    complete(&tb, &f)
}

/// On disk: nothing appears beside the target directory.
fn disk(t: &mut Tape, c: &mut Case) -> Res {
    let tb = table(t, c);
    c.sample = Some(summary(&tb));
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let v = parse(&s)?;
    let fmt = t.below(3);
    let d = crate::tmp::Dir::new();
    let target = d.path("a/b/t");
    std::fs::create_dir_all(&target).unwrap();
    expanded::write(&v, &target, &opts(fmt, false)).map_err(|e| format!("expanding fails: {e}"))?;
    let mut f = Files::new();
    collect(&d.0, &d.0, &mut f);
    let mut g = Files::new();
    for (k, v) in f {
        let Some(r) = k.strip_prefix("a/b/t/") else {
            return Err(format!("{k:?} is written outside the target directory"));
        };
        g.insert(format!("{ROOT}/{r}"), v);
    }
    c.evals = g.len() as u64;
    complete(&tb, &g)?;
    let back = expanded::read(&target).map_err(|e| format!("assembling from disk fails: {e}"))?;
    diff_streams(&normalise(&s), &normalise(&save(&back)?)).map_err(|e| format!("assembled from disk: {e}"))
}
pub fn collect(base: &Path, at: &Path, f: &mut Files) {
    let mut es: Vec<_> = std::fs::read_dir(at).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() {
            collect(base, &e, f);
        } else {
            f.insert(e.strip_prefix(base).unwrap().to_string_lossy().to_string(), std::fs::read(&e).unwrap());
        }
    }
}

/// The list of the files of a table, asked for without expanding it.
fn listing(t: &mut Tape, c: &mut Case) -> Res {
    let tb = table(t, c);
    c.sample = Some(summary(&tb));
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let d = crate::tmp::Dir::new();
    let name = *t.pick(&["t.vpx", "a.b.vpx", "noext", "My Table (v1.2).vpx", "tä.vpx"]);
    let file = d.path(name);
    std::fs::write(&file, tb.to_vpx()).unwrap();
    let got = guard(|| expanded::extract_directory_list(&file))?;
    let v = parse(&s)?;
    let fs = MemoryFileSystem::new();
    expanded::write_fs(&v, &Path::new(ROOT), &opts(0, false), &fs).map_err(|e| format!("expanding fails: {e}"))?;
    let stem = match name.rfind('.') {
        Some(i) => &name[..i],
        None => name,
    };
    let mut want: Vec<String> = files_of(&fs).keys().map(|k| format!("{stem}{}", &k[ROOT.len()..])).collect();
    want.sort();
    c.evals = want.len() as u64;
    c.nontrivial = want.len() > 8;
    ensure!(got.windows(2).all(|w| w[0] <= w[1]), "the list is not sorted");
    ensure!(got == want, "the list of {name} is {got:?}, an expansion writes {want:?}");
    ensure!(std::fs::read_dir(&d.0).unwrap().count() == 1, "listing leaves files behind");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("reserved device names of Windows (CON, NUL) are not avoided by the library on other systems and are not demanded".into());
    ctx.sub("memory", ctx.n(12000, 300000), "at least two parts, images, sounds or fonts with colliding or difficult names; distinct by stream contents", memory);
    ctx.sub("disk", ctx.n(2500, 40000), "the same on the real file system in a scratch directory", disk);
    ctx.sub("listing", ctx.n(3000, 60000), "the list of the files of a table file, compared with an expansion; distinct by stream contents", listing);
}
