//! P23: failing storage and damaged files.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p01::{classes, summary};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::path::Path;
use std::sync::{Arc, Mutex};
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::export::gltf_export::{export_gltf, GltfExportOptions};
use vpin::vpx::export::obj_export::{export_obj, ObjExportOptions};
use vpin::vpx::{expanded, VpxFile, VPX};

/// One storage operation of a run: what, where and the how manieth of its kind there.
type Op = (&'static str, String, usize);

#[derive(Default)]
struct State {
    counts: HashMap<(&'static str, String), usize>,
    log: Vec<Op>,
    target: Option<Op>,
    /// all operations after the target fail as well
    sticky: bool,
    hit: bool,
    /// accept only parts of what is written and read
    slow: u64,
    /// a write takes nothing instead of failing
    zero: bool,
}
#[derive(Clone, Default)]
struct Faults(Arc<Mutex<State>>);
impl Faults {
    fn op(&self, kind: &'static str, path: &str) -> io::Result<()> {
        let mut s = self.0.lock().unwrap();
        let k = s.counts.entry((kind, path.to_string())).or_default();
        *k += 1;
        let op = (kind, path.to_string(), *k);
        let fail = s.hit && s.sticky || s.target.as_ref() == Some(&op);
        s.log.push(op);
        if fail {
            s.hit = true;
            return Err(io::Error::new(io::ErrorKind::StorageFull, "injected failure"));
        }
        Ok(())
    }
    /// How much of a transfer of n bytes is done at once.
    fn part(&self, n: usize) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap();
        if s.slow == 0 || n == 0 {
            return Ok(n);
        }
        s.slow = crate::tape::mix(s.slow) | 1;
        match s.slow >> 8 & 7 {
            0 => Err(io::ErrorKind::Interrupted.into()),
            1 | 2 => Ok(1),
            3..=5 => Ok(1 + (s.slow >> 20) as usize % n),
            _ => Ok(n),
        }
    }
    fn zero(&self) -> bool {
        self.0.lock().unwrap().zero
    }
}
struct FaultFs {
    inner: MemoryFileSystem,
    f: Faults,
}
impl FaultFs {
    fn new(inner: MemoryFileSystem) -> FaultFs {
        FaultFs { inner, f: Faults::default() }
    }
}
struct Wr(Box<dyn Write>, Faults, String);
impl Write for Wr {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if let Err(e) = self.1.op("write", &self.2) {
            return if self.1.zero() { Ok(0) } else { Err(e) };
        }
        let k = self.1.part(b.len())?;
        self.0.write(&b[..k])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.1.op("flush", &self.2)?;
        self.0.flush()
    }
}
struct Rd(Box<dyn Read>, Faults, String);
impl Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.1.op("read", &self.2)?;
        let k = self.1.part(b.len())?;
        self.0.read(&mut b[..k])
    }
}
impl FileSystem for FaultFs {
    fn create_file(&self, p: &Path) -> io::Result<Box<dyn Write>> {
        let s = p.to_string_lossy().to_string();
        self.f.op("create file", &s)?;
        Ok(Box::new(Wr(self.inner.create_file(p)?, self.f.clone(), s)))
    }
    fn open_file(&self, p: &Path) -> io::Result<Box<dyn Read>> {
        let s = p.to_string_lossy().to_string();
        self.f.op("open file", &s)?;
        Ok(Box::new(Rd(self.inner.open_file(p)?, self.f.clone(), s)))
    }
    fn read_file(&self, p: &Path) -> io::Result<Vec<u8>> {
        self.f.op("read file", &p.to_string_lossy())?;
        self.inner.read_file(p)
    }
    fn write_file(&self, p: &Path, d: &[u8]) -> io::Result<()> {
        self.f.op("write file", &p.to_string_lossy())?;
        self.inner.write_file(p, d)
    }
    fn create_dir_all(&self, p: &Path) -> io::Result<()> {
        self.f.op("create directory", &p.to_string_lossy())?;
        self.inner.create_dir_all(p)
    }
    fn exists(&self, p: &Path) -> bool {
        self.inner.exists(p)
    }
}

fn table(t: &mut Tape, c: &mut Case, sized: bool) -> Result<VPX, String> {
    let p = Prof { table_sized: sized, max_items: 6, max_res: 4, mesh_max: 30, images_decodable: t.bool(), ..Prof::default() };
    let mut tb = gen_table(t, &p);
    if t.bool() {
        crate::p09::rename(t, &mut tb);
    }
    derive_legacy_tables(&mut tb);
    classes(&tb, c);
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams());
    parse(&tb.streams())
}

/// Runs `f` once undisturbed and then with single operations failing; every such run has to fail.
fn each_fault(t: &mut Tape, c: &mut Case, start: &Files, max: usize, f: &dyn Fn(&dyn FileSystem) -> Result<(), String>) -> Res {
    let fs = FaultFs::new(load(start));
    guard(|| f(&fs))?.map_err(|e| format!("without any failure: {e}"))?;
    let ops = std::mem::take(&mut fs.f.0.lock().unwrap().log);
    let clean = files_of(&fs.inner);
    let n = ops.len();
    ensure!(n > 0, "no storage operations");
    // every operation if there are few, else the ones of the rare kinds and some of the others
    let mut order: Vec<usize> = t.perm(n.min(400));
    if n > max {
        let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
        order.retain(|i| {
            let k = seen.entry(ops[*i].0).or_default();
            *k += 1;
            *k <= max / 3
        });
        order.truncate(max);
    }
    let sticky = t.chance(1, 4);
    let zero = t.chance(1, 4);
    for i in order {
        let op = ops[i].clone();
        let fs = FaultFs::new(load(start));
        {
            let mut s = fs.f.0.lock().unwrap();
            s.target = Some(op.clone());
            s.sticky = sticky;
            s.zero = zero;
        }
        let what = format!("{} #{} of {}", op.0, op.2, op.1);
        let r = guard(|| f(&fs)).map_err(|p| format!("failing {what}: {p}"))?;
        c.evals += 1;
        c.class(op.0);
        if fs.f.0.lock().unwrap().hit {
            ensure!(r.is_err(), "the storage fails at {what} and the call reports success");
            c.nontrivial = true;
        } else {
            r.map_err(|e| format!("{what} is not reached: {e}"))?;
            c.class("operation not reached");
        }
    }
    // transfers in parts
    let fs = FaultFs::new(load(start));
    fs.f.0.lock().unwrap().slow = t.any() | 1;
    guard(|| f(&fs))?.map_err(|e| format!("with transfers in parts: {e}"))?;
    crate::p10::same_files("with transfers in parts", &clean, &files_of(&fs.inner))
}

fn expand_faults(t: &mut Tape, c: &mut Case) -> Res {
    let derived = t.chance(1, 3);
    let v = table(t, c, derived)?;
    let o = opts(t.below(3), derived);
    c.class_if(derived, "generated meshes");
    each_fault(t, c, &Files::new(), 60, &|fs| expanded::write_fs(&v, &Path::new(ROOT), &o, fs).map_err(|e| e.to_string()))
}
fn assemble_faults(t: &mut Tape, c: &mut Case) -> Res {
    let v = table(t, c, false)?;
    let files = expand(&v, t.below(3), false)?;
    let want = assemble(&files)?;
    each_fault(t, c, &files, 60, &|fs| match expanded::read_fs(&Path::new(ROOT), fs) {
        Err(e) => Err(e.to_string()),
        Ok(v) if v == want => Ok(()),
        Ok(_) => panic!("another table is assembled"),
    })
}
fn export_faults(t: &mut Tape, c: &mut Case) -> Res {
    let types = [0u32, 1, 2, 3, 5, 6, 9, 10, 12, 19, 21, 22];
    let n = t.usize(1, 4);
    let p = Prof { table_sized: true, types: types.to_vec(), unique_names: true, opt8: 7, ..Prof::default() };
    let items = (0..n)
        .map(|i| {
            let mut it = gen_item(t, &p, i);
            crate::scene::tame(t, &mut it);
            it
        })
        .collect();
    let mut tb = crate::scene::base(t, items);
    let k = t.usize(0, 2);
    for i in 0..k {
        let im = gen_image(t, &Prof { images_decodable: true, ..Prof::default() }, i);
        tb.images.push(im);
    }
    tb.fix_counts();
    classes(&tb, c);
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams());
    let v = parse(&tb.streams())?;
    match t.below(3) {
        0 => {
            c.class("GLB export");
            each_fault(t, c, &Files::new(), 12, &|fs| export_gltf(&v, Path::new("/t/x.glb"), fs, &GltfExportOptions::glb()).map_err(|e| e.to_string()))
        }
        1 => {
            c.class("glTF export");
            each_fault(t, c, &Files::new(), 12, &|fs| export_gltf(&v, Path::new("/t/x.gltf"), fs, &GltfExportOptions::gltf()).map_err(|e| e.to_string()))
        }
        _ => {
            c.class("OBJ export");
            each_fault(t, c, &Files::new(), 16, &|fs| export_obj(&v, Path::new("/t/x.obj"), fs, &ObjExportOptions::default()).map_err(|e| e.to_string()))
        }
    }
}

/// Storage below a table opened in place.
struct FaultFile {
    inner: Arc<Mutex<Cursor<Vec<u8>>>>,
    f: Faults,
}
impl FaultFile {
    fn new(d: &[u8]) -> FaultFile {
        FaultFile { inner: Arc::new(Mutex::new(Cursor::new(d.to_vec()))), f: Faults::default() }
    }
    fn handle(&self) -> FaultFile {
        FaultFile { inner: self.inner.clone(), f: self.f.clone() }
    }
    fn contents(&self) -> Vec<u8> {
        self.inner.lock().unwrap().get_ref().clone()
    }
}
impl Read for FaultFile {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.f.op("read", "")?;
        let k = self.f.part(b.len())?;
        self.inner.lock().unwrap().read(&mut b[..k])
    }
}
impl Write for FaultFile {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if let Err(e) = self.f.op("write", "") {
            return if self.f.zero() { Ok(0) } else { Err(e) };
        }
        let k = self.f.part(b.len())?;
        self.inner.lock().unwrap().write(&b[..k])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.f.op("flush", "")
    }
}
impl Seek for FaultFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.f.op("seek", "")?;
        self.inner.lock().unwrap().seek(p)
    }
}
fn in_place(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { max_items: 3, max_res: 3, images_decodable: true, ..Prof::default() };
    let mut tb = gen_table(t, &p);
    if t.bool() {
        let n = t_len(t.below(4));
        let s = t.bytes(n);
        tb.gd_set("CODE", Val::Code(s));
    }
    let op = t.below(8);
    let name = ["lock", "unlock", "write_gamedata", "images_to_webp", "read everything", "lock and unlock", "read_gamedata", "is_locked"][op as usize];
    let odd = op == 1;
    tb.gd.retain(|x| x.tag != "TLCK");
    tb.gd.push(r("TLCK", "locked", Val::U32(odd as u32)));
    let file = build_cfb(&tb.streams());
    classes(&tb, c);
    c.class(name);
    c.sample = Some(json!({"operation": name, "table": summary(&tb)}));
    c.hash = streams_hash(&tb.streams());
    let gd = vpin::vpx::from_bytes(&file).map_err(|e| e.to_string())?.gamedata;
    let run = |h: FaultFile| -> io::Result<()> {
        let mut f = if op == 4 || op > 5 { VpxFile::open(h)? } else { VpxFile::open_rw(h)? };
        match op {
            0 => assert!(f.lock()?, "nothing locked"),
            1 => assert!(f.unlock()?, "nothing unlocked"),
            2 => f.write_gamedata(&gd)?,
            3 => drop(f.images_to_webp()?),
            4 => {
                f.read_version()?;
                f.read_tableinfo()?;
                f.read_custominfotags()?;
                f.read_gameitems()?;
                f.read_images()?;
                f.read_sounds()?;
                f.read_fonts()?;
                f.read_collections()?;
            }
            5 => {
                assert!(f.lock()?, "nothing locked");
                assert!(f.unlock()?, "nothing unlocked");
            }
            6 => drop(f.read_gamedata()?),
            _ => drop(f.is_locked()?),
        }
        Ok(())
    };
    let d = FaultFile::new(&file);
    guard(|| run(d.handle()))?.map_err(|e| format!("{name} without any failure: {e}"))?;
    let ops = std::mem::take(&mut d.f.0.lock().unwrap().log);
    let mut order = t.perm(ops.len().min(3000));
    order.truncate(40);
    // the last ones write back what was buffered
    order.extend(ops.len().saturating_sub(6)..ops.len());
    let sticky = t.bool();
    let zero = t.chance(1, 4);
    for i in order {
        let op = ops[i].clone();
        let d = FaultFile::new(&file);
        {
            let mut s = d.f.0.lock().unwrap();
            s.target = Some(op.clone());
            s.sticky = sticky;
            s.zero = zero;
        }
        let what = format!("{} #{} of {}", op.0, op.2, ops.iter().filter(|x| x.0 == op.0).count());
        let r = guard(|| run(d.handle())).map_err(|p| format!("{name}, failing {what}: {p}"))?;
        c.evals += 1;
        c.class(op.0);
        if d.f.0.lock().unwrap().hit {
            ensure!(r.is_err(), "{name} succeeds although the storage fails at {what}");
            c.nontrivial = true;
        }
    }
    let e = FaultFile::new(&file);
    e.f.0.lock().unwrap().slow = t.any() | 1;
    guard(|| run(e.handle()))?.map_err(|e| format!("{name} with transfers in parts: {e}"))?;
    diff_streams(&dump_cfb(&d.contents())?, &dump_cfb(&e.contents())?).map_err(|e| format!("{name} with transfers in parts: {e}"))
}
fn t_len(k: u64) -> usize {
    [0, 100, 5000, 60000][k as usize]
}

mod limit {
    //! A limit on the size of files stands for a full disk.
    #[repr(C)]
    struct Rlimit {
        cur: u64,
        max: u64,
    }
    unsafe extern "C" {
        fn getrlimit(r: i32, l: *mut Rlimit) -> i32;
        fn setrlimit(r: i32, l: *const Rlimit) -> i32;
        fn signal(s: i32, h: usize) -> usize;
    }
    const FSIZE: i32 = 1;
    const SIGXFSZ: i32 = 25;
    pub fn with<T>(size: u64, f: impl FnOnce() -> T) -> T {
        unsafe {
            signal(SIGXFSZ, 1);
            let mut l = Rlimit { cur: 0, max: 0 };
            assert_eq!(getrlimit(FSIZE, &mut l), 0);
            assert_eq!(setrlimit(FSIZE, &Rlimit { cur: size, max: l.max }), 0);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            assert_eq!(setrlimit(FSIZE, &l), 0);
            match r {
                Ok(v) => v,
                Err(p) => std::panic::resume_unwind(p),
            }
        }
    }
}

fn disk_full(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { max_items: 5, max_res: 4, images_decodable: true, ..Prof::default() };
    let mut tb = gen_table(t, &p);
    let script = {
        let n = t_len(t.below(4));
        let s = t.bytes(n);
        s.iter().map(|b| b' ' + b % 90).collect::<Vec<u8>>()
    };
    tb.gd_set("CODE", Val::Code(script));
    tb.gd.retain(|x| x.tag != "TLCK");
    let file = build_cfb(&tb.streams());
    let op = t.below(6);
    let name = ["write", "compact", "importvbs", "extractvbs", "lock", "expand"][op as usize];
    classes(&tb, c);
    c.class(name);
    c.sample = Some(json!({"operation": name, "table": summary(&tb)}));
    c.hash = streams_hash(&tb.streams());
    let v = vpin::vpx::from_bytes(&file).map_err(|e| e.to_string())?;
    let dir = crate::tmp::Dir::new();
    let (vpx, vbs, ex) = (dir.path("t.vpx"), dir.path("t.vbs"), dir.path("ex"));
    let text: Vec<u8> = {
        let n = t_len(t.below(4));
        t.bytes(n).iter().map(|b| b' ' + b % 90).collect()
    };
    let start = || {
        std::fs::remove_dir_all(&ex).ok();
        for e in std::fs::read_dir(&dir.0).unwrap() {
            std::fs::remove_file(e.unwrap().path()).ok();
        }
        std::fs::create_dir(&ex).unwrap();
        if op != 0 && op != 5 {
            std::fs::write(&vpx, &file).unwrap();
        }
        if op == 2 {
            std::fs::write(&vbs, &text).unwrap();
        }
    };
    let run = || -> Result<(), String> {
        let e = |e: io::Error| e.to_string();
        match op {
            0 => vpin::vpx::write(&vpx, &v).map_err(e),
            1 => vpin::vpx::compact(&vpx).map_err(e),
            2 => vpin::vpx::importvbs(&vpx, None).map(drop).map_err(e),
            3 => vpin::vpx::extractvbs(&vpx, None, true).map(drop).map_err(e),
            4 => vpin::vpx::open_rw(&vpx).and_then(|mut f| f.lock()).map(drop).map_err(e),
            _ => expanded::write(&v, &ex, &opts(0, false)).map_err(|e| e.to_string()),
        }
    };
    let snapshot = || -> BTreeMap<String, Vec<u8>> {
        let mut o = BTreeMap::new();
        let mut todo = vec![dir.0.clone()];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(d).unwrap() {
                let p = e.unwrap().path();
                if p.is_dir() {
                    todo.push(p);
                } else {
                    o.insert(p.to_string_lossy().to_string(), std::fs::read(&p).unwrap());
                }
            }
        }
        o
    };
    // what is written when there is room
    start();
    guard(run)?.map_err(|e| format!("{name} without any failure: {e}"))?;
    let done = snapshot();
    let largest = done.values().map(|d| d.len()).max().unwrap_or(0) as u64;
    for _ in 0..t.usize(6, 12) {
        let size = match t.below(4) {
            0 => t.below(largest + 600),
            1 => t.below(largest / 512 + 2) * 512,
            2 => largest.saturating_sub(t.below(1500)),
            _ => largest.saturating_sub(t.below(9) * 512),
        };
        start();
        let r = limit::with(size, || guard(run)).map_err(|p| format!("{name} with room for {size} bytes: {p}"))?;
        c.evals += 1;
        let got = snapshot();
        if r.is_ok() {
            c.class("enough room");
            let same = done.iter().all(|(k, d)| got.get(k).is_some_and(|g| g == d || k.ends_with(".vpx") && dump_cfb(g).ok().is_some_and(|g| dump_cfb(d).ok() == Some(g))));
            ensure!(same, "{name} reports success with room for {size} bytes of {largest}, but not all is written");
        } else {
            c.class("not enough room");
            c.nontrivial = true;
            if op == 1 {
                let g = got.get(&vpx.to_string_lossy().to_string());
                ensure!(g == Some(&file), "compact fails with room for {size} bytes and the table is {}", if g.is_none() { "gone" } else { "changed" });
            }
        }
    }
    Ok(())
}

/// System calls that fail while a table file on disk is written or edited.
fn calls_fail(t: &mut Tape, c: &mut Case) -> Res {
    use crate::sysfault::{self, Kind};
    let p = Prof { max_items: 3, max_res: 2, images_decodable: true, ..Prof::default() };
    let mut tb = gen_table(t, &p);
    let script = {
        let n = t_len(t.below(3));
        let s = t.bytes(n);
        s.iter().map(|b| b' ' + b % 90).collect::<Vec<u8>>()
    };
    tb.gd_set("CODE", Val::Code(script));
    tb.gd.retain(|x| x.tag != "TLCK");
    let file = build_cfb(&tb.streams());
    let op = t.below(9);
    let name = ["write", "write over a table", "importvbs", "extractvbs", "lock", "images_to_webp", "new_minimal_vpx", "read", "verify"][op as usize];
    classes(&tb, c);
    c.class(name);
    c.hash = streams_hash(&tb.streams());
    let v = vpin::vpx::from_bytes(&file).map_err(|e| e.to_string())?;
    let dir = crate::tmp::Dir::new();
    let (vpx, vbs) = (dir.path("t.vpx"), dir.path("t.vbs"));
    let text: Vec<u8> = {
        let n = t_len(t.below(3));
        t.bytes(n).iter().map(|b| b' ' + b % 90).collect()
    };
    let mut files = BTreeMap::new();
    if op != 0 && op != 6 {
        files.insert(vpx.to_string_lossy().to_string(), file.clone());
    }
    if op == 2 {
        files.insert(vbs.to_string_lossy().to_string(), text);
    }
    let run = || -> Result<(), String> {
        let e = |e: io::Error| e.to_string();
        match op {
            0 | 1 => vpin::vpx::write(&vpx, &v).map_err(e),
            2 => vpin::vpx::importvbs(&vpx, None).map(drop).map_err(e),
            3 => vpin::vpx::extractvbs(&vpx, None, true).map(drop).map_err(e),
            4 => vpin::vpx::open_rw(&vpx).and_then(|mut f| f.lock()).map(drop).map_err(e),
            5 => vpin::vpx::open_rw(&vpx).and_then(|mut f| f.images_to_webp()).map(drop).map_err(e),
            6 => vpin::vpx::new_minimal_vpx(&vpx).map_err(e),
            7 => vpin::vpx::read(&vpx).map_err(e).and_then(|x| if x == v { Ok(()) } else { panic!("another table is read") }),
            _ => match vpin::vpx::verify(&vpx) {
                vpin::vpx::VerifyResult::Ok(_) => Ok(()),
                vpin::vpx::VerifyResult::Failed(_, e) => Err(e),
            },
        }
    };
    crate::p25::reset(&dir.0, &files);
    let (r, calls) = sysfault::with(Kind::Watch, 0, || guard(run));
    r?.map_err(|e| format!("{name} without any failure: {e}"))?;
    let done = crate::p25::snapshot(&dir.0);
    let n = calls.calls.len() as u64;
    c.sample = Some(json!({"operation": name, "system calls": n, "table": summary(&tb)}));
    let mut points: Vec<u64> = (0..20).map(|_| t.below(n)).collect();
    points.extend(n.saturating_sub(6)..n);
    for at in points {
        let kind = *t.pick(&[Kind::Once, Kind::Once, Kind::Sticky, Kind::Slow]);
        let what = format!("{name} with {kind:?} at call {at} of {n} ({})", calls.calls[at as usize].name);
        crate::p25::reset(&dir.0, &files);
        let (r, rep) = sysfault::with(kind, at, || guard(run));
        c.evals += 1;
        let now = crate::p25::snapshot(&dir.0);
        match r.map_err(|p| format!("{what}: {p}"))? {
            Ok(()) => {
                for (k, d) in &done {
                    let same = now.get(k).is_some_and(|g| g == d || k.ends_with(".vpx") && dump_cfb(g).ok().is_some_and(|g| dump_cfb(d).ok() == Some(g)));
                    ensure!(same, "{what}: success is reported, but {k} is not what it should be");
                }
            }
            Err(e) => ensure!(rep.hit, "{what}: {e}"),
        }
        c.nontrivial |= rep.hit;
    }
    Ok(())
}

/// How many elements the outer array of a JSON text has. (Not by way of a JSON
/// value: a damaged byte may lie in a field nobody reads, which a reader may skip.)
fn elements(d: &[u8]) -> Option<usize> {
    let (mut depth, mut commas, mut any, mut string, mut escaped) = (0i64, 0usize, false, false, false);
    for &b in d {
        if string {
            match b {
                _ if escaped => escaped = false,
                b'\\' => escaped = true,
                b'"' => string = false,
                _ => {}
            }
            continue;
        }
        if depth == 0 && !b.is_ascii_whitespace() && b != b'[' {
            return None;
        }
        if depth >= 1 && !b.is_ascii_whitespace() && !(depth == 1 && b == b']') {
            any = true;
        }
        match b {
            b'[' | b'{' => depth += 1,
            b']' | b'}' => depth -= 1,
            b'"' => string = true,
            b',' if depth == 1 => commas += 1,
            _ => {}
        }
    }
    Some(if any { commas + 1 } else { 0 })
}

/// What the listings name.
fn listed(files: &Files) -> Option<[usize; 5]> {
    let n = |rel: &str| -> Option<usize> {
        match files.get(&format!("{ROOT}/{rel}")) {
            None => Some(0),
            Some(d) => elements(d),
        }
    };
    Some([n("gameitems.json")?, n("images.json")?, n("sounds.json")?, n("fonts.json")?, n("collections.json")?])
}
fn damage_json(t: &mut Tape, v: &mut serde_json::Value, depth: usize) {
    use serde_json::Value;
    let deeper = depth < 12 && t.chance(7, 8);
    match v {
        Value::Array(a) if deeper && !a.is_empty() => {
            let k = t.usize(0, a.len() - 1);
            return damage_json(t, &mut a[k], depth + 1);
        }
        Value::Object(o) if deeper && !o.is_empty() => {
            let k = o.keys().nth(t.usize(0, o.len() - 1)).unwrap().clone();
            if t.chance(1, 5) {
                o.remove(&k);
                return;
            }
            return damage_json(t, o.get_mut(&k).unwrap(), depth + 1);
        }
        _ => {}
    }
    *v = match t.below(14) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(-1),
        3 => json!(0),
        4 => json!(1e300),
        5 => json!(4294967296u64),
        6 => json!(9999),
        7 => json!(""),
        8 => json!("#ü00"),
        9 => json!("../x"),
        10 => json!([]),
        11 => json!({}),
        12 => json!("a_very_unusual_value"),
        _ => json!(0.5),
    };
}
fn damage(t: &mut Tape, c: &mut Case) -> Res {
    let v = table(t, c, false)?;
    let files = expand(&v, t.below(3), false)?;
    let names: Vec<&String> = files.keys().collect();
    for _ in 0..12 {
        let mut f = files.clone();
        let k = {
            // resources and parts more often than their listings
            let k = t.usize(0, names.len() - 1);
            names[k].clone()
        };
        let old = f[&k].clone();
        let is_json = k.ends_with(".json") || k.ends_with(".gltf");
        let kind = match t.below(10) {
            0 | 1 => {
                f.remove(&k);
                "file missing"
            }
            2 => {
                f.insert(k.clone(), vec![]);
                "file empty"
            }
            3 | 4 => {
                let n = if old.is_empty() { 0 } else { t.usize(0, old.len() - 1) };
                f.insert(k.clone(), old[..n].to_vec());
                "file truncated"
            }
            5 if !is_json => {
                let k2 = names[t.usize(0, names.len() - 1)];
                f.insert(k.clone(), files[k2].clone());
                "file replaced by another"
            }
            6..=8 if is_json && serde_json::from_slice::<serde_json::Value>(&old).is_ok() => {
                let mut j = serde_json::from_slice(&old).unwrap();
                damage_json(t, &mut j, 0);
                f.insert(k.clone(), serde_json::to_vec_pretty(&j).unwrap());
                "value damaged"
            }
            _ => {
                let mut d = old.clone();
                for _ in 0..t.usize(1, 4) {
                    if d.is_empty() {
                        break;
                    }
                    let i = t.usize(0, d.len() - 1);
                    match t.below(5) {
                        0 => d[i] ^= 1 << t.below(8),
                        1 => d[i] = t.below(256) as u8,
                        2 => drop(d.remove(i)),
                        3 => d.insert(i, *t.pick(b"-0 9\n#/.eE\xff")),
                        _ => {
                            let n = t.usize(1, 40).min(d.len() - i);
                            d.drain(i..i + n);
                        }
                    }
                }
                f.insert(k.clone(), d);
                "bytes damaged"
            }
        };
        if f == files {
            continue;
        }
        let want = listed(&f);
        let r = guard(|| assemble(&f)).map_err(|p| format!("{kind}: {k}: {p}"))?;
        c.evals += 1;
        c.class(kind);
        let Ok(w) = r else {
            c.class("refused");
            c.nontrivial = true;
            continue;
        };
        c.class("assembled");
        let got = [w.gameitems.len(), w.images.len(), w.sounds.len(), w.fonts.len(), w.collections.len()];
        ensure!(Some(got) == want, "{kind}: {k}: {got:?} parts, images, sounds, fonts and collections are assembled, listed are {want:?}");
        if kind == "file missing" {
            let rel = k.strip_prefix(&format!("{ROOT}/")).unwrap_or(&k);
            let needed = rel.starts_with("images/") || rel.starts_with("sounds/") || rel.starts_with("fonts/") || rel.starts_with("gameitems/") && rel.ends_with(".json") || rel == "script.vbs" || rel == "gamedata.json" || rel == "version.txt" || rel.ends_with(".bin");
            ensure!(!needed, "{rel} is missing and a table is assembled all the same");
        }
        if !k.ends_with(".json") {
            // nothing else is affected
            ensure!(w.images.len() == v.images.len() && w.gamedata.name == v.gamedata.name, "{kind}: {k}: other parts of the table change");
            for (i, (a, b)) in v.gameitems.iter().zip(&w.gameitems).enumerate() {
                ensure!(a.name() == b.name() && a.type_name() == b.type_name(), "{kind}: {k}: part {i} becomes another");
            }
        }
    }
    Ok(())
}

/// Damaged mesh, image and sound files on their own, many of them.
fn damage_binaries(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { max_res: 0, ..Prof::default() };
    let nv = t.usize(1, 8);
    let nf = t.usize(1, 8);
    let m = gen_mesh(t, &p, nv, nf);
    let it = crate::p11::primitive(t, "mesh", Some(&m));
    let mut tb = crate::p11::table_of(t, vec![it]);
    for i in 0..2 {
        let im = gen_image(t, &Prof { images_decodable: true, ..Prof::default() }, i);
        tb.images.push(im);
        let s = gen_sound(t, &p, i);
        tb.sounds.push(s);
    }
    tb.fix_counts();
    let v = parse(&tb.streams())?;
    let files = expand(&v, t.below(3), false)?;
    let names: Vec<&String> = files.keys().filter(|k| k.contains("/gameitems/") && !k.ends_with(".json") || k.contains("/images/") || k.contains("/sounds/")).collect();
    c.hash = streams_hash(&tb.streams());
    c.sample = Some(json!({"files": names, "vertices": nv}));
    if names.is_empty() {
        return Ok(());
    }
    for _ in 0..24 {
        let k = names[t.usize(0, names.len() - 1)];
        let mut f = files.clone();
        let old = &files[k];
        let text = k.ends_with(".obj") || k.ends_with(".gltf");
        let d = if text && t.bool() {
            // whole tokens of the text
            let s = String::from_utf8_lossy(old).to_string();
            let mut tok: Vec<&str> = s.split_inclusive([' ', '\n', '/', ',', ':']).collect();
            let i = t.usize(0, tok.len() - 1);
            let words = ["-1 ", "0 ", "99999999999 ", "NaN ", "1e999 ", "# vpx zz\n", "# vpx \n", "f 1 2\n", "vn 0 0 0\n", "v 1\n", "o x\n", "/", "//", "\n", "g x\n", "4294967297 ", "\"\",", "null,", "[],", "18446744073709551615,", "-5,", "1.5,"];
            match t.below(4) {
                0 => drop(tok.remove(i)),
                1 => tok.insert(i, words[t.usize(0, words.len() - 1)]),
                2 => tok[i] = words[t.usize(0, words.len() - 1)],
                _ => {
                    let j = t.usize(0, tok.len() - 1);
                    tok.swap(i, j);
                }
            }
            tok.concat().into_bytes()
        } else {
            let mut d = old.clone();
            if d.is_empty() {
                continue;
            }
            // headers matter most
            let i = if t.bool() { t.usize(0, d.len().min(60) - 1) } else { t.usize(0, d.len() - 1) };
            match t.below(4) {
                0 => d[i] = *t.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
                1 => {
                    for (j, b) in [0xffu8, 0xff, 0xff, 0x7f].iter().enumerate() {
                        if i + j < d.len() {
                            d[i + j] = *b;
                        }
                    }
                }
                2 => d.truncate(i),
                _ => {
                    for b in d.iter_mut().skip(i).take(4) {
                        *b = t.below(256) as u8;
                    }
                }
            }
            d
        };
        f.insert(k.clone(), d);
        c.evals += 1;
        match guard(|| assemble(&f)).map_err(|p| format!("{k} damaged: {p}"))? {
            Err(_) => {
                c.class("refused");
                c.nontrivial = true;
            }
            Ok(w) => {
                c.class("assembled");
                if k.ends_with(".obj") {
                    let s = String::from_utf8_lossy(&f[k]).to_string();
                    let far = s.lines().filter(|l| l.starts_with("f ")).flat_map(|l| l[2..].split(['/', ' '])).any(|x| x.parse::<u64>().is_ok_and(|x| x > 4_000_000_000));
                    ensure!(!far, "{k} damaged: a corner far out of range is accepted");
                }
                ensure!(w.gameitems.len() == v.gameitems.len() && w.images.len() == v.images.len() && w.sounds.len() == v.sounds.len(), "{k} damaged: parts are lost");
                // what is taken can be saved and exported
                guard(|| save(&w)).map_err(|p| format!("{k} damaged, assembled, saving: {p}"))??;
                guard(|| expand(&w, 0, false)).map_err(|p| format!("{k} damaged, assembled, expanding: {p}"))?.ok();
            }
        }
        c.class(match k.rsplit('.').next().unwrap_or("") {
            "obj" => "OBJ",
            "glb" => "GLB",
            "gltf" => "glTF",
            "bin" => "glTF buffer",
            "wav" => "WAV",
            _ => "image or other sound",
        });
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("expanding", ctx.n(200, 6000), "a storage operation of the run fails; distinct by table contents", expand_faults);
    ctx.sub("assembling", ctx.n(200, 6000), "a storage operation of the run fails; distinct by table contents", assemble_faults);
    ctx.sub("exporting", ctx.n(120, 3000), "a storage operation of the run fails; distinct by table contents", export_faults);
    ctx.sub("editing in place", ctx.n(200, 6000), "a storage operation of the run fails; distinct by table contents", in_place);
    ctx.sub_threads("full disk", ctx.n(120, 2000), "the room runs out; distinct by table contents", 1, disk_full);
    ctx.sub("system calls", ctx.n(1000, 20000), "a system call of the run fails; distinct by table contents", calls_fail);
    ctx.sub("damaged files", ctx.n(3000, 40000), "a damaged table is refused; distinct by table contents", damage);
    ctx.sub("damaged meshes, images and sounds", ctx.n(3000, 40000), "a damaged table is refused; distinct by table contents", damage_binaries);
}
