//! Expands tables with the library built without parallelism.
//! stdin: one line per job: <in.vpx> <out> <format> <derived>
//! out: for each file, length and bytes of the path, length and bytes of the contents;
//! the last one, without a path, is the table assembled from them and saved.
use std::io::{BufRead, Write};
use std::path::Path;
use vpin::filesystem::MemoryFileSystem;
use vpin::vpx::expanded::{self, ExpandOptions, PrimitiveMeshFormat};

fn main() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let p: Vec<&str> = l.split_whitespace().collect();
        let fmt = match p[2] {
            "0" => PrimitiveMeshFormat::Obj,
            "1" => PrimitiveMeshFormat::Glb,
            _ => PrimitiveMeshFormat::Gltf,
        };
        let opts = ExpandOptions::new().mesh_format(fmt).generate_derived_meshes(p[3] == "1");
        let mut out = std::fs::File::create(p[1]).unwrap();
        let bytes = std::fs::read(p[0]).unwrap();
        let r = vpin::vpx::from_bytes(&bytes).map_err(|e| e.to_string()).and_then(|v| {
            let fs = MemoryFileSystem::new();
            expanded::write_fs(&v, &Path::new("/t"), &opts, &fs).map_err(|e| e.to_string())?;
            let back = expanded::read_fs(&Path::new("/t"), &fs).map_err(|e| e.to_string())?;
            Ok((fs, vpin::vpx::to_bytes(&back).map_err(|e| e.to_string())?))
        });
        let mut o = vec![];
        match r {
            Ok((fs, saved)) => {
                let mut files = fs.list_files();
                files.sort();
                for f in files {
                    let d = fs.get_file(&f).unwrap();
                    o.extend_from_slice(&(f.len() as u32).to_le_bytes());
                    o.extend_from_slice(f.as_bytes());
                    o.extend_from_slice(&(d.len() as u32).to_le_bytes());
                    o.extend_from_slice(&d);
                }
                o.extend_from_slice(&0u32.to_le_bytes());
                o.extend_from_slice(&(saved.len() as u32).to_le_bytes());
                o.extend_from_slice(&saved);
            }
            Err(e) => {
                o.extend_from_slice(&u32::MAX.to_le_bytes());
                o.extend_from_slice(e.as_bytes());
            }
        }
        out.write_all(&o).unwrap();
    }
}
