//! Expanding and assembling through the library's file system abstraction.

use crate::wire::*;
use std::collections::BTreeMap;
use std::path::Path;
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::VPX;
use vpin::vpx::expanded::{self, ExpandOptions, PrimitiveMeshFormat};

pub type Files = BTreeMap<String, Vec<u8>>;
pub const ROOT: &str = "/t";

pub fn fmt_of(i: u64) -> PrimitiveMeshFormat {
    match i {
        0 => PrimitiveMeshFormat::Obj,
        1 => PrimitiveMeshFormat::Glb,
        _ => PrimitiveMeshFormat::Gltf,
    }
}
pub fn opts(fmt: u64, derived: bool) -> ExpandOptions {
    ExpandOptions::new().mesh_format(fmt_of(fmt)).generate_derived_meshes(derived)
}
pub fn expand(vpx: &VPX, fmt: u64, derived: bool) -> Result<Files, String> {
    let fs = MemoryFileSystem::new();
    expanded::write_fs(vpx, &Path::new(ROOT), &opts(fmt, derived), &fs).map_err(|e| format!("expanding fails: {e}"))?;
    Ok(files_of(&fs))
}
pub fn files_of(fs: &MemoryFileSystem) -> Files {
    fs.list_files().into_iter().map(|p| (p.clone(), fs.get_file(&p).unwrap_or_default())).collect()
}
pub fn load(files: &Files) -> MemoryFileSystem {
    let fs = MemoryFileSystem::new();
    for (k, v) in files {
        fs.write_file(Path::new(k), v).unwrap();
    }
    fs
}
pub fn assemble(files: &Files) -> Result<VPX, String> {
    expanded::read_fs(&Path::new(ROOT), &load(files)).map_err(|e| format!("assembling fails: {e}"))
}
pub fn json(files: &Files, rel: &str) -> Result<serde_json::Value, String> {
    let p = format!("{ROOT}/{rel}");
    let b = files.get(&p).ok_or_else(|| format!("no file {p}"))?;
    serde_json::from_slice(b).map_err(|e| format!("{p}: {e}"))
}
pub fn set_json(files: &mut Files, rel: &str, v: &serde_json::Value) {
    files.insert(format!("{ROOT}/{rel}"), serde_json::to_vec_pretty(v).unwrap());
}
pub fn parse(s: &Streams) -> Result<VPX, String> {
    vpin::vpx::from_bytes(&build_cfb(s)).map_err(|e| format!("from_bytes: {e}"))
}
pub fn save(v: &VPX) -> Result<Streams, String> {
    dump_cfb(&vpin::vpx::to_bytes(v).map_err(|e| format!("to_bytes: {e}"))?)
}
