//! P13: pixels and bytes of images in every representation.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::gltfx::Doc;
use crate::lzwref;
use crate::objx;
use crate::p11::table_of;
use crate::pixx::*;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use std::path::Path;
use vpin::filesystem::MemoryFileSystem;
use vpin::vpx;
use vpin::vpx::export::gltf_export::{export_gltf, GltfExportOptions};
use vpin::vpx::export::obj_export::{export_obj, ObjExportOptions};
use vpin::vpx::image::image_has_transparency;
use vpin::vpx::lzw::{from_lzw_blocks, to_lzw_blocks};

fn gen_data(t: &mut Tape) -> Vec<u8> {
    let n = match t.below(8) {
        0 => t.usize(0, 4),
        1 => t.usize(4, 64),
        2 => *t.pick(&[253usize, 254, 255, 256, 257, 508, 509, 3837, 3838, 3839, 3840, 4094, 4095, 4096, 4097]),
        3 | 4 => t.usize(64, 3000),
        5 => t.usize(3000, 20000),
        6 => t.usize(0, 400),
        _ => t.usize(20000, 60000),
    };
    match t.below(6) {
        0 => vec![t.any() as u8; n],
        1 => t.bytes(n),
        2 => {
            let k = t.usize(1, 40);
            let p = t.bytes(k);
            (0..n).map(|i| p[i % k]).collect()
        }
        3 => {
            // long runs with rare changes
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let b = t.any() as u8;
                let k = t.usize(1, 900).min(n - v.len());
                v.extend(std::iter::repeat_n(b, k));
            }
            v
        }
        4 => {
            let k = t.usize(1, 4);
            let p = t.bytes(n);
            p.iter().map(|b| b % (k as u8 + 1)).collect()
        }
        _ => (0..n).map(|i| if i % 4 == 3 { 255 } else { (i / 7) as u8 }).collect(),
    }
}

fn lzw(t: &mut Tape, c: &mut Case) -> Res {
    let d = gen_data(t);
    c.hash = crate::tape::hash_bytes(&d);
    c.nontrivial = d.len() > 1;
    c.class_if(d.len() > 5000, "dictionary fills up");
    let z = to_lzw_blocks(&d);
    // sub-blocks
    let mut at = 0;
    while at < z.len() {
        let n = z[at] as usize;
        ensure!(n > 0 && at + 1 + n <= z.len(), "a block of {n} bytes at {at} of {}", z.len());
        at += 1 + n;
    }
    let back = lzwref::decode(&z)?;
    ensure!(back == d, "{} bytes compressed by the library decode to {} bytes elsewhere{}", d.len(), back.len(), first_diff(&d, &back));
    let own = from_lzw_blocks(&z);
    ensure!(own == d, "{} bytes do not survive compression{}", d.len(), first_diff(&d, &own));
    // compressed elsewhere, blocks of any size
    let raw = lzwref::encode_raw(&d);
    let max = *t.pick(&[255usize, 254, 1, 77]);
    let other = from_lzw_blocks(&lzwref::block(&raw, max));
    ensure!(other == d, "{} bytes compressed elsewhere decode to {} bytes{}", d.len(), other.len(), first_diff(&d, &other));
    if d.len() > 100 {
        c.sample = Some(json!({"bytes": d.len(), "compressed": z.len(), "starts": hex::encode(&d[..16])}));
    }
    Ok(())
}
fn first_diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!(", first difference at {i}"),
        None => String::new(),
    }
}

fn pixels(t: &mut Tape, max: usize) -> Pix {
    let (w, h) = (t.usize(1, max), t.usize(1, max));
    let opaque = t.chance(1, 3);
    let px = gen_pixels(t, w as u32, h as u32);
    let mut o: Vec<[u16; 4]> = px.chunks_exact(4).map(|p| [p[2], p[1], p[0], if opaque { 255 } else { p[3] }].map(|x| x as u16 * 257)).collect();
    if !opaque && t.chance(1, 3) {
        // opaque but for one pixel
        for p in &mut o {
            p[3] = 65535;
        }
        let k = t.usize(0, o.len() - 1);
        o[k][3] = t.below(255) as u16 * 257;
    }
    Pix { w, h, px: o }
}
fn bgra(p: &Pix) -> Vec<u8> {
    p.to8().iter().flat_map(|q| [q[2], q[1], q[0], q[3]]).collect()
}
fn same_pix(what: &str, want: &Pix, got: &Pix) -> Res {
    ensure!((want.w, want.h) == (got.w, got.h), "{what}: {}x{} became {}x{}", want.w, want.h, got.w, got.h);
    let (a, b) = (want.to8(), got.to8());
    for i in 0..a.len() {
        ensure!(a[i] == b[i], "{what}: pixel {},{} is {:?}, expected {:?}", i % want.w, i / want.w, b[i], a[i]);
    }
    Ok(())
}

/// One image of the generated table.
enum Kind {
    Bits(Pix),
    Png(Pix, Vec<u8>),
    Raw(Vec<u8>),
    Link,
}
struct Img {
    name: String,
    path: String,
    ext: String,
    kind: Kind,
    recs: Vec<Rec>,
    opaque: Option<bool>,
}
/// `known`: only contents that are what the extension says
fn gen_img(t: &mut Tape, i: usize, known: bool, c: &mut Case) -> Img {
    let name = match t.below(8) {
        0 => format!("im g/{i}"),
        1 => format!("Im:g{i}.png"),
        2 => format!("пик{i}"),
        _ => format!("img{i}"),
    };
    let name: String = name.chars().map(|x| if (x as u32) < 256 { x } else { 'é' }).collect();
    let base = t.pick(&["C:\\tables\\pic", "/home/u/pic.one", "pic", "a b.c d\\x"]).to_string();
    let (ext, kind) = match t.below(if known { 6 } else { 10 }) {
        0 | 1 => {
            c.class("stored as bits");
            (t.pick(&["bmp", "BMP", "Bmp"]).to_string(), Kind::Bits(pixels(t, 14)))
        }
        2 | 3 => {
            let (p, d, class) = gen_png(t, 10);
            c.class(class);
            (t.pick(&["png", "PNG", "png"]).to_string(), Kind::Png(p, d))
        }
        4 => {
            let (_, _, d) = encode_image(t, image::ImageFormat::Jpeg);
            (t.pick(&["jpg", "jpeg", "JPG"]).to_string(), Kind::Raw(d))
        }
        5 => {
            let (_, _, d) = encode_image(t, image::ImageFormat::WebP);
            ("webp".into(), Kind::Raw(d))
        }
        6 => {
            // a file of another kind under an extension that is converted
            c.class("file that is not what its extension says");
            let d = if t.bool() {
                encode_image(t, image::ImageFormat::Jpeg).2
            } else {
                let n = t.usize(0, 60);
                t.bytes(n)
            };
            ("png".into(), Kind::Raw(d))
        }
        7 => {
            c.class("bmp stored as a file");
            let p = pixels(t, 8);
            ("bmp".into(), Kind::Raw(gen_bmp(t, &p)))
        }
        8 => {
            c.class("link");
            (t.pick(&["png", "bmp"]).to_string(), Kind::Link)
        }
        _ => {
            let n = t.usize(1, 300);
            (t.pick(&["hdr", "exr", "dat", "tga", "gif"]).to_string(), Kind::Raw(t.bytes(n)))
        }
    };
    let path = format!("{base}.{ext}");
    let (w, h) = match &kind {
        Kind::Bits(p) => (p.w, p.h),
        Kind::Png(p, _) => (p.w, p.h),
        _ => (t.usize(1, 4000), t.usize(1, 4000)),
    };
    let mut v = vec![r("NAME", "name", Val::Str(name.clone()))];
    if t.chance(1, 5) {
        v.push(r("INME", "internal_name", Val::Str(format!("in{i}"))));
    }
    v.push(r("PATH", "path", Val::Str(path.clone())));
    v.push(r("WDTH", "width", Val::U32(w as u32)));
    v.push(r("HGHT", "height", Val::U32(h as u32)));
    match &kind {
        Kind::Bits(p) => {
            let z = if t.bool() { lzwref::encode(&bgra(p)) } else { lzwref::block(&lzwref::encode_raw(&bgra(p)), 255) };
            v.push(r("BITS", "", Val::NoSize(z)));
        }
        Kind::Png(_, d) | Kind::Raw(d) => {
            let jp = if t.chance(1, 5) { format!("D:\\other.{ext}") } else { path.clone() };
            let mut j = vec![r("NAME", "", Val::Str(if t.chance(1, 5) { "other".into() } else { name.clone() }))];
            if t.chance(1, 6) {
                j.push(r("INME", "", Val::Str("inner".into())));
            }
            j.push(r("PATH", "", Val::Str(jp)));
            j.push(r("SIZE", "", Val::U32(d.len() as u32)));
            j.push(r("DATA", "", Val::Bytes(d.clone())));
            v.push(r("JPEG", "", Val::Jpeg(j)));
        }
        Kind::Link => v.push(r("LINK", "link", Val::U32(1))),
    }
    v.push(r("ALTV", "alpha_test_value", Val::F32(t.pick(&[-1f32, 1.0, 128.0]).to_bits())));
    if t.chance(1, 5) {
        v.push(r("MD5H", "md5_hash", Val::Bytes(t.bytes(16))));
    }
    let mut opaque = None;
    if t.chance(1, 5) {
        opaque = Some(t.bool());
        v.push(r("OPAQ", "is_opaque", Val::Bool(opaque.unwrap())));
    }
    if t.chance(1, 5) {
        v.push(r("SIGN", "is_signed", Val::Bool(t.bool())));
    }
    Img { name, path, ext, kind, recs: v, opaque }
}
fn table(t: &mut Tape, items: Vec<Item>, imgs: &[Img]) -> Table {
    let mut tb = table_of(t, items);
    tb.images = imgs.iter().map(|x| x.recs.clone()).collect();
    tb.fix_counts();
    tb
}
fn describe_imgs(imgs: &[Img]) -> serde_json::Value {
    imgs.iter()
        .map(|x| {
            json!({"name": x.name, "path": x.path, "kind": match &x.kind {
                Kind::Bits(p) => format!("bits {}x{}{}", p.w, p.h, if p.transparent() { " with alpha" } else { "" }),
                Kind::Png(p, d) => format!("png {}x{} of {} bytes", p.w, p.h, d.len()),
                Kind::Raw(d) => format!("{} bytes", d.len()),
                Kind::Link => "link".into(),
            }})
        })
        .collect()
}

/// The image file of an expanded table.
fn file_of<'a>(files: &'a Files, jf: &serde_json::Value, im: &Img) -> Result<&'a Vec<u8>, String> {
    let stem = jf["name_dedup"].as_str().unwrap_or(&im.name);
    let k = format!("{ROOT}/images/{stem}.{}", im.ext);
    files.get(&k).ok_or_else(|| format!("no file {k}"))
}

/// Expanding, editing and assembling.
fn expanded(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.usize(1, 4);
    let imgs: Vec<Img> = (0..n).map(|i| gen_img(t, i, false, c)).collect();
    let tb = table(t, vec![], &imgs);
    c.hash = streams_hash(&tb.streams());
    c.nontrivial = true;
    c.sample = Some(describe_imgs(&imgs));
    let v = parse(&tb.streams())?;
    // transparency as computed from the pixels
    for (i, im) in imgs.iter().enumerate() {
        let want = match (&im.opaque, &im.kind) {
            (Some(o), _) => !*o,
            (None, Kind::Bits(p)) => p.transparent(),
            (None, Kind::Png(p, _)) => p.transparent(),
            (None, Kind::Link) => false,
            (None, Kind::Raw(_)) => continue,
        };
        let got = image_has_transparency(&v.images[i]);
        ensure!(got == want, "image {i} ({}): transparency reported as {got}", describe_imgs(&imgs)[i]);
    }
    let mut files = expand(&v, t.below(3), false)?;
    let index = json(&files, "images.json")?;
    let mut edited = vec![];
    for (i, im) in imgs.iter().enumerate() {
        match &im.kind {
            Kind::Link => edited.push(None),
            Kind::Bits(p) => {
                let d = file_of(&files, &index[i], im)?;
                same_pix("exported BMP", p, &read_bmp(d)?)?;
                edited.push(None);
            }
            Kind::Png(_, d) | Kind::Raw(d) => {
                ensure!(file_of(&files, &index[i], im)? == d, "image {i} exported with other bytes");
                edited.push(None);
            }
        }
    }
    // replace some bitmaps by ones another program wrote
    for (i, im) in imgs.iter().enumerate() {
        if let Kind::Bits(_) = im.kind {
            if t.bool() {
                let p = pixels(t, 10);
                let stem = index[i]["name_dedup"].as_str().unwrap_or(&im.name);
                files.insert(format!("{ROOT}/images/{stem}.{}", im.ext), gen_bmp(t, &p));
                edited[i] = Some(p);
                c.class("bitmap replaced by another program's");
            }
        }
    }
    let back = assemble(&files)?;
    ensure!(back.images.len() == imgs.len(), "{} images assembled", back.images.len());
    for (i, im) in imgs.iter().enumerate() {
        let b = &back.images[i];
        match &im.kind {
            Kind::Bits(p) => {
                let p = edited[i].as_ref().unwrap_or(p);
                let bits = b.bits.as_ref().ok_or("bits lost")?;
                ensure!(b.jpeg.is_none(), "bits became a file");
                ensure!((b.width, b.height) == (p.w as u32, p.h as u32), "image {i} is {}x{}, expected {}x{}", b.width, b.height, p.w, p.h);
                ensure!(lzwref::decode(&bits.lzw_compressed_data)? == bgra(p), "image {i}: assembled bitmap has other pixels");
            }
            Kind::Png(_, d) | Kind::Raw(d) => {
                ensure!(b.jpeg.as_ref().is_some_and(|j| j.data == *d) && b.bits.is_none(), "image {i} assembled with other bytes");
            }
            Kind::Link => ensure!(b.jpeg.is_none() && b.bits.is_none() && b.is_link(), "link {i} changed"),
        }
    }
    Ok(())
}

/// Conversion to WebP in the file.
fn webp(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.usize(1, 4);
    let imgs: Vec<Img> = (0..n).map(|i| gen_img(t, i, false, c)).collect();
    let mut tb = table(t, vec![], &imgs);
    if t.chance(1, 3) {
        let k = t.usize(1, 5000);
        tb.fonts.push(FontF { name: "f".into(), path: "f.ttf".into(), data: t.bytes(k) });
        tb.fix_counts();
    }
    let before = tb.streams();
    c.hash = streams_hash(&before);
    c.sample = Some(describe_imgs(&imgs));
    let dir = crate::tmp::Dir::new();
    let p = dir.path("t.vpx");
    std::fs::write(&p, tb.to_vpx()).unwrap();
    let got = {
        let mut f = vpx::open_rw(&p).map_err(|e| e.to_string())?;
        f.images_to_webp().map_err(|e| format!("conversion fails: {e}"))?
    };
    let mut want = vec![];
    for im in &imgs {
        match &im.kind {
            Kind::Bits(_) => want.push((im.name.clone(), "bmp".to_string(), "webp".to_string())),
            Kind::Png(..) => want.push((im.name.clone(), "png".to_string(), "webp".to_string())),
            _ => {}
        }
    }
    let got: Vec<_> = got.into_iter().map(|x| (x.name, x.old_extension, x.new_extension)).collect();
    ensure!(got == want, "conversions reported {got:?}, expected {want:?}");
    c.nontrivial = !want.is_empty();
    let after = dump_cfb(&std::fs::read(&p).unwrap())?;
    let mut rest = before.clone();
    for (i, im) in imgs.iter().enumerate() {
        let k = format!("/GameStg/Image{i}");
        let (pix, png) = match &im.kind {
            Kind::Bits(p) => (p, false),
            Kind::Png(p, _) => (p, true),
            _ => continue,
        };
        let s = after.get(&k).ok_or("image stream lost")?;
        rest.insert(k.clone(), s.clone());
        // the records of the file are nested in the JPEG record, up to an ENDB of their own
        let mut recs = vec![];
        let mut sub = vec![];
        let mut inside = false;
        for x in walk(s)? {
            if inside && x.0 == "ENDB" {
                inside = false;
            } else if inside {
                sub.push(x);
            } else {
                inside = x.0 == "JPEG";
                recs.push(x);
            }
        }
        let cut = |p: &str| format!("{}.webp", &p[..p.len() - 1 - im.ext.len()]);
        let new_path = cut(&im.path);
        let mut seen = 0;
        for (tag, data) in &recs {
            match tag.as_str() {
                "JPEG" => {
                    seen += 1;
                    let one = |t: &str| sub.iter().find(|x| x.0 == t).map(|x| x.1.clone());
                    let d = one("DATA").ok_or("no data")?;
                    ensure!(one("SIZE").as_deref() == Some(&(d.len() as u32).to_le_bytes()[..]), "the size is not that of the data");
                    let (jn, jp) = if png {
                        match &im.recs.iter().find(|x| x.tag == "JPEG").unwrap().val {
                            Val::Jpeg(j) => {
                                let s = |t: &str| match &j.iter().find(|x| x.tag == t).unwrap().val {
                                    Val::Str(s) => s.clone(),
                                    _ => unreachable!(),
                                };
                                (s("NAME"), cut(&s("PATH")))
                            }
                            _ => unreachable!(),
                        }
                    } else {
                        (im.name.clone(), new_path.clone())
                    };
                    let text = |t: &str| one(t).map(|d| d[4..].to_vec());
                    ensure!(text("NAME") == Some(latin1(&jn)), "the file of image {i} has another name");
                    ensure!(text("PATH") == Some(latin1(&jp)), "the file of image {i} has the path {:?}", text("PATH").map(|x| String::from_utf8_lossy(&x).to_string()));
                    ensure!(d.starts_with(b"RIFF") && d.get(8..12) == Some(b"WEBP"), "not WebP");
                    let img = image::load_from_memory_with_format(&d, image::ImageFormat::WebP).map_err(|e| format!("WebP does not decode: {e}"))?;
                    let q = img.to_rgba8();
                    let got = Pix { w: q.width() as usize, h: q.height() as usize, px: q.pixels().map(|p| p.0.map(|x| x as u16 * 257)).collect() };
                    same_pix(&format!("image {i} as WebP"), pix, &got)?;
                }
                "BITS" => return Err(format!("image {i} keeps its bits")),
                "PATH" => ensure!(data[4..] == latin1(&new_path), "image {i} has the path {:?}", String::from_utf8_lossy(&data[4..])),
                "ENDB" => {}
                _ => {
                    let want = im.recs.iter().find(|x| x.tag == tag).map(|x| payload(&x.val));
                    ensure!(want.as_ref() == Some(data), "image {i}: record {tag} changed");
                }
            }
        }
        ensure!(seen == 1, "image {i} has {seen} files");
        for x in &im.recs {
            ensure!(matches!(x.tag, "BITS" | "JPEG") || recs.iter().any(|y| y.0 == x.tag), "image {i} lost its record {}", x.tag);
        }
    }
    rest.insert("/GameStg/MAC".into(), after.get("/GameStg/MAC").cloned().unwrap_or_default());
    diff_streams(&rest, &after).map_err(|e| format!("something else changed: {e}"))?;
    // once more changes nothing
    let bytes = std::fs::read(&p).unwrap();
    let again = {
        let mut f = vpx::open_rw(&p).map_err(|e| e.to_string())?;
        f.images_to_webp().map_err(|e| format!("second conversion fails: {e}"))?
    };
    ensure!(again.is_empty(), "a second conversion reports {again:?}");
    diff_streams(&after, &dump_cfb(&std::fs::read(&p).unwrap())?).map_err(|e| format!("a second conversion changes the file: {e}"))?;
    drop(bytes);
    // and the converted file expands to the WebP bytes
    let v = vpx::read(&p).map_err(|e| e.to_string())?;
    for (i, im) in imgs.iter().enumerate() {
        let w = matches!(im.kind, Kind::Bits(_) | Kind::Png(..));
        ensure!(!w || v.images[i].ext() == "webp", "image {i} reads with extension {}", v.images[i].ext());
    }
    Ok(())
}

/// Textures of whole-table exports.
fn exports(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.usize(1, 4);
    let imgs: Vec<Img> = (0..n).map(|i| gen_img(t, i, true, c)).collect();
    let mut items = vec![];
    let mut refs = vec![];
    for k in 0..t.usize(1, 5) {
        let mut it = gen_item_of(t, &Prof { table_sized: true, ..Default::default() }, k, 19);
        it.recs.retain(|x| !x.tag.starts_with("M3"));
        it.set("NAME", Val::WStr(format!("Prim{k}")));
        it.set("U3DM", Val::Bool(false));
        it.set("TVIS", Val::Bool(true));
        it.set("SIDS", Val::U32(4));
        it.set("MATR", Val::Str(String::new()));
        let i = t.usize(0, n - 1);
        let nm = if t.chance(1, 4) { imgs[i].name.to_ascii_uppercase() } else { imgs[i].name.clone() };
        it.set("IMAG", Val::Str(nm));
        crate::scene::tame(t, &mut it);
        items.push(it);
        refs.push(i);
    }
    let mut tb = crate::scene::base(t, items);
    tb.images = imgs.iter().map(|x| x.recs.clone()).collect();
    tb.fix_counts();
    let pf = t.bool().then(|| t.usize(0, n - 1));
    tb.gd_set("IMAG", Val::Str(pf.map(|i| imgs[i].name.clone()).unwrap_or_default()));
    c.hash = streams_hash(&tb.streams());
    c.nontrivial = true;
    c.sample = Some(json!({"images": describe_imgs(&imgs), "used": refs, "playfield": pf}));
    let v = parse(&tb.streams())?;
    let check = |what: &str, i: usize, d: &[u8], png: bool| -> Res {
        match &imgs[i].kind {
            Kind::Bits(p) => same_pix(what, p, &if png { read_png(d)? } else { read_bmp(d)? }),
            Kind::Png(_, w) | Kind::Raw(w) => {
                ensure!(d == w, "{what}: image {i} written with other bytes");
                Ok(())
            }
            Kind::Link => Ok(()),
        }
    };
    // glTF
    let fs = MemoryFileSystem::default();
    let gltf = t.bool();
    let path = Path::new(if gltf { "/o/x.gltf" } else { "/o/x.glb" });
    let o = if gltf { GltfExportOptions::gltf() } else { GltfExportOptions::glb() };
    export_gltf(&v, path, &fs, &o).map_err(|e| format!("glTF export fails: {e}"))?;
    let main = fs.get_file(&path.to_string_lossy()).ok_or("no glTF file")?;
    let doc = if gltf { Doc::from_gltf(&main, &|u: &str| fs.get_file(&format!("/o/{u}")).ok_or_else(|| format!("no {u}")))? } else { Doc::from_glb(&main)? };
    let texture = |name: &str| -> Result<Option<Vec<u8>>, String> {
        let node = doc.arr("nodes").iter().find(|x| x["name"] == name && x["mesh"].is_u64()).ok_or(format!("no node {name}"))?;
        let m = &doc.arr("meshes")[node["mesh"].as_u64().unwrap() as usize]["primitives"][0]["material"];
        let Some(m) = m.as_u64() else { return Ok(None) };
        let tx = &doc.arr("materials")[m as usize]["pbrMetallicRoughness"]["baseColorTexture"]["index"];
        let Some(tx) = tx.as_u64() else { return Ok(None) };
        let im = &doc.arr("images")[doc.arr("textures")[tx as usize]["source"].as_u64().unwrap() as usize];
        Ok(Some(doc.view(im["bufferView"].as_u64().ok_or("no view")? as usize)?.to_vec()))
    };
    for (k, &i) in refs.iter().enumerate() {
        let d = texture(&format!("Prim{k}"))?.ok_or_else(|| format!("primitive {k} has no texture in the glTF export"))?;
        check("glTF texture", i, &d, true)?;
    }
    if let Some(i) = pf {
        let d = texture("playfield_mesh")?.ok_or("the playfield has no texture")?;
        check("glTF playfield texture", i, &d, true)?;
        c.class("playfield image");
    }
    // OBJ
    let fs = MemoryFileSystem::default();
    export_obj(&v, Path::new("/o/x.obj"), &fs, &ObjExportOptions::default()).map_err(|e| format!("OBJ export fails: {e}"))?;
    let obj = objx::parse(&fs.get_file("/o/x.obj").ok_or("no obj")?)?;
    let mtl = objx::parse_mtl(&fs.get_file("/o/x.mtl").ok_or("no mtl")?)?;
    let mut want: Vec<(String, usize)> = refs.iter().enumerate().map(|(k, &i)| (format!("Prim{k}"), i)).collect();
    want.extend(pf.map(|i| ("playfield_mesh".to_string(), i)));
    for (nm, i) in want {
        let Some(ob) = obj.objects.iter().find(|x| x.name == nm) else {
            ensure!(nm == "playfield_mesh", "no object {nm}");
            continue;
        };
        let m = ob.faces[0].0.clone().ok_or_else(|| format!("object {nm} has no material"))?;
        let def = &mtl.iter().find(|x| x.0 == m).ok_or_else(|| format!("material {m} undefined"))?.1;
        let f = def.maps.get("map_Kd").ok_or_else(|| format!("material {m} of {nm} has no texture"))?;
        let d = fs.get_file(&format!("/o/{f}")).ok_or_else(|| format!("texture {f} not written"))?;
        check(&format!("OBJ texture {f}"), i, &d, false)?;
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("lzw", ctx.n(6000, 200000), "byte sequences of at least two bytes; distinct by contents", lzw);
    ctx.sub("expand-assemble", ctx.n(8000, 200000), "every table has images; distinct by streams", expanded);
    ctx.sub("to-webp", ctx.n(4000, 100000), "tables with an image to convert; distinct by streams", webp);
    ctx.sub("exports", ctx.n(4000, 100000), "every table has textured parts; distinct by streams", exports);
}
