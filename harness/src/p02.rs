//! P02: every stored value appears under its own name in the expanded form and back.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p01::{classes, summary};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::{Map, Value, json};

/// names of the values of enumerated fields, as Visual Pinball numbers them
pub(crate) fn enum_name(key: &str, v: u32, ty: &str) -> Value {
    let names: &[&str] = match (ty, key) {
        (_, "decal_type") => &["text", "image"],
        (_, "sizing_type") => &["auto_size", "auto_width", "manual_size"],
        (_, "render_mode") => &["flasher", "dmd", "display", "alpha_seg", "ext_render"],
        (_, "image_alignment") => &["world", "wrap", "unknown"],
        (_, "filter") => &["none", "additive", "overlay", "multiply", "screen"],
        (_, "gate_type") if !(1..5).contains(&v) => return json!(v),
        (_, "gate_type") => &["?", "wire_w", "wire_rectangle", "plate", "long_plate"],
        (_, "target_type") => &["?", "drop_target_beveled", "drop_target_simple", "hit_target_round", "hit_target_rectangle", "hit_fat_target_rectangle", "hit_fat_target_square", "drop_target_flat_simple", "hit_fat_target_slim", "hit_target_slim"],
        (_, "kicker_type") => &["invisible", "hole", "cup", "hole_simple", "williams", "gottlieb", "cup2"],
        (_, "shadows") => &["none", "raytraced_ball_shadows"],
        (_, "fader") => &["none", "linear", "incandescent"],
        (_, "space_reference") => &["playfield", "cabinet", "cabinet_feet", "room", "inherit"],
        (_, "plunger_type") => &["unknown", "modern", "flat", "custom"],
        (_, "ramp_type") => &["flat", "four_wire", "two_wire", "three_wire_left", "three_wire_right", "one_wire"],
        (_, "align") => &["left", "center", "right"],
        (_, "shape") => &["none", "wire_a", "star", "wire_b", "button", "wire_c", "wire_d", "inder"],
        ("probe", "type") => &["plane_reflection", "screen_space_transparency"],
        ("probe", "reflection_mode") => &["none", "balls", "static", "static_and_balls", "static_and_dynamic", "dynamic", "unknown"],
        _ => panic!("enum {ty} {key}"),
    };
    json!(names[v as usize])
}
fn num(b: u32) -> Value {
    json!(f32::from_bits(b) as f64)
}
pub fn color(c: u32) -> Value {
    let (r, g, b, a) = (c & 255, c >> 8 & 255, c >> 16 & 255, c >> 24);
    json!(if a == 0 { format!("#{r:02x}{g:02x}{b:02x}") } else { format!("{a:02x}#{r:02x}{g:02x}{b:02x}") })
}
fn font(f: &FontV) -> Value {
    let mut st = vec![];
    for (bit, n) in [(1u8, "Normal"), (2, "Bold"), (4, "Italic"), (8, "Underline"), (16, "Strikethrough")] {
        if f.style & bit != 0 {
            st.push(n);
        }
    }
    let mut o = json!({"style": st, "weight": f.weight, "size": f.size, "name": f.name});
    if f.charset != 0 {
        o["charset"] = json!(f.charset);
    }
    o
}
/// How a record is to be shown.
pub(crate) fn shown(x: &Rec, ty: &str) -> Value {
    let key = x.key;
    match &x.val {
        Val::U32(v) if key.starts_with("bg_view_mode") => json!(["legacy", "camera", "window"][*v as usize]),
        Val::U32(v) if key == "tone_mapper" => match v {
            0..=4 => json!(["reinhard", "agx", "filmic", "neutral", "agx_punchy"][*v as usize]),
            _ => json!(v),
        },
        Val::I32(v) if ty == "material" => json!(match v {
            0 => "basic",
            1 => "metal",
            _ => "unknown",
        }),
        Val::Bool(b) => json!(b),
        Val::U32(v) => json!(v),
        Val::I32(v) => json!(v),
        Val::F32(b) => num(*b),
        Val::Str(s) | Val::WStr(s) => json!(s),
        Val::Color(c) => color(*c),
        Val::V2(v) => json!({"x": num(v[0]), "y": num(v[1])}),
        Val::V3(v) | Val::V3u(v) => json!({"x": num(v[0]), "y": num(v[1]), "z": num(v[2])}),
        Val::V4(v) => json!({"x": num(v[0]), "y": num(v[1]), "z": num(v[2]), "w": num(v[3])}),
        Val::Q8(v) => json!((*v as f64 / 255.0) as f32 as f64),
        Val::Enum(v) => enum_name(key, *v, ty),
        Val::Font(f) => font(f),
        Val::Bytes(b) if key == "custom_colors" => Value::Array(b.chunks(4).map(|c| color(u32::from_le_bytes(c.try_into().unwrap()))).collect()),
        Val::Bytes(b) if key == "md5_hash" => json!(b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
        Val::Bytes(b) => json!(b),
        _ => panic!("{x:?}"),
    }
}
fn put(o: &mut Map<String, Value>, x: &Rec, ty: &str) {
    if let Some((k, i)) = x.key.strip_suffix(']').and_then(|k| k.split_once('[')) {
        let a = o.entry(k).or_insert(json!([]));
        assert_eq!(a.as_array().unwrap().len().to_string(), i);
        a.as_array_mut().unwrap().push(shown(x, ty));
    } else if x.key == "xy" {
        let v = shown(x, ty);
        o.insert("x".into(), v["x"].clone());
        o.insert("y".into(), v["y"].clone());
    } else if !x.key.is_empty() && x.key != "-" {
        o.insert(x.key.trim_start_matches('#').into(), shown(x, ty));
    }
}
/// (item file, index entry) of a part
fn want_item(it: &Item) -> (Map<String, Value>, Map<String, Value>) {
    let (mut o, mut ix) = (Map::new(), Map::new());
    let ty = type_name(it.ty);
    for x in &it.recs {
        match &x.val {
            Val::Sub(p) => {
                let mut d = Map::new();
                for y in p {
                    put(&mut d, y, "dragpoint");
                }
                o.entry("drag_points").or_insert(json!([])).as_array_mut().unwrap().push(Value::Object(d));
            }
            Val::Marker => {}
            _ if x.key.starts_with('#') => put(&mut ix, x, ty),
            _ => put(&mut o, x, ty),
        }
    }
    if schema().items.iter().any(|s| s.0 == it.ty && s.2.iter().any(|f| f.kind == Kind::Points)) {
        o.entry("drag_points").or_insert(json!([]));
    }
    (o, ix)
}
fn simple(rs: &[Rec], ty: &str) -> Map<String, Value> {
    let mut o = Map::new();
    for x in rs {
        put(&mut o, x, ty);
    }
    o
}

fn same(want: &Value, got: &Value) -> bool {
    match (want, got) {
        (Value::Number(a), Value::Number(b)) => {
            if a.is_f64() {
                (a.as_f64().unwrap() as f32).to_bits() == (b.as_f64().unwrap_or(f64::NAN) as f32).to_bits()
            } else {
                a == b
            }
        }
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Value::Object(a), Value::Object(b)) => cmp_obj("", a, b, &[]).is_ok(),
        _ => want == got,
    }
}
/// The same keys with the same values; a key whose value is null is an absent one.
fn cmp_obj(at: &str, want: &Map<String, Value>, got: &Map<String, Value>, free: &[&str]) -> Res {
    for (k, w) in want {
        let mut g = got.get(k).cloned().unwrap_or(Value::Null);
        let mut w = w.clone();
        if k == "style" || k == "font" {
            for v in [&mut g, &mut w] {
                let l = if k == "font" { v.get_mut("style") } else { Some(v) };
                if let Some(Value::Array(a)) = l {
                    a.sort_by_key(|x| x.to_string());
                }
            }
        }
        ensure!(same(&w, &g), "{at}: key {k} is {g}, the table has {w}");
    }
    for (k, g) in got {
        ensure!(want.contains_key(k) || g.is_null() || free.contains(&k.as_str()), "{at}: unexpected key {k} = {g}");
    }
    Ok(())
}
fn obj(v: &Value) -> Result<&Map<String, Value>, String> {
    v.as_object().ok_or_else(|| format!("not an object: {v}"))
}
fn arr(v: &Value, n: usize, at: &str) -> Result<Vec<Value>, String> {
    let a = v.as_array().ok_or_else(|| format!("{at}: not an array"))?;
    if a.len() != n {
        return Err(format!("{at}: {} entries, the table has {n}", a.len()));
    }
    Ok(a.clone())
}
fn nested<'a>(tb: &'a Table, tag: &str) -> Vec<(&'a Vec<Rec>, &'a Vec<u8>)> {
    tb.gd
        .iter()
        .filter(|x| x.tag == tag)
        .map(|x| match &x.val {
            Val::Nested(r, t) => (r, t),
            _ => unreachable!(),
        })
        .collect()
}
fn gd_want(tb: &Table) -> Map<String, Value> {
    let mut o = Map::new();
    for x in &tb.gd {
        if x.key.is_empty() || x.key == "materials_size" || x.key == "-" {
            continue;
        }
        o.insert(x.key.into(), shown(x, "gamedata"));
    }
    o
}
fn text(b: &[u8]) -> String {
    let u: Vec<u16> = b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    String::from_utf16_lossy(&u)
}
pub(crate) const INFO: [(&str, &str); 11] = [
    ("TableName", "table_name"),
    ("AuthorName", "author_name"),
    ("TableBlurb", "table_blurb"),
    ("TableRules", "table_rules"),
    ("AuthorEmail", "author_email"),
    ("ReleaseDate", "release_date"),
    ("TableSaveRev", "table_save_rev"),
    ("TableVersion", "table_version"),
    ("AuthorWebSite", "author_website"),
    ("TableSaveDate", "table_save_date"),
    ("TableDescription", "table_description"),
];

pub(crate) fn item_file(files: &Files, i: usize) -> Result<String, String> {
    let ix = json(files, "gameitems.json")?;
    Ok(format!("gameitems/{}", ix[i]["file_name"].as_str().ok_or("no file_name")?))
}

/// every value of the table against the JSON files
fn check_shown(tb: &Table, f: &Files) -> Result<u64, String> {
    let mut n = 0;
    let ix = arr(&json(f, "gameitems.json")?, tb.items.len(), "gameitems.json")?;
    for (i, it) in tb.items.iter().enumerate() {
        let ty = type_name(it.ty);
        let (mut o, w) = want_item(it);
        let g = obj(&ix[i])?;
        let mut w2 = w.clone();
        if ty == "partgroup" {
            for k in ["is_locked", "editor_layer_visibility", "editor_layer_name"] {
                if let Some(v) = o.get(k) {
                    w2.insert(k.into(), v.clone());
                }
            }
        }
        cmp_obj(&format!("gameitems.json entry {i} ({ty})"), &w2, g, &["file_name", "name_dedup"])?;
        let file = item_file(f, i)?;
        let v = json(f, &file)?;
        let top = obj(&v)?;
        ensure!(top.len() == 1 && top.keys().next().unwrap().to_lowercase() == ty, "{file}: type {:?} for a {ty}", top.keys().collect::<Vec<_>>());
        n += o.len() as u64;
        let g = obj(top.values().next().unwrap())?;
        if let (Some(Value::Array(w)), Some(g)) = (o.remove("drag_points"), g.get("drag_points")) {
            let g = arr(g, w.len(), &file)?;
            for (k, (a, b)) in w.iter().zip(&g).enumerate() {
                n += 8;
                cmp_obj(&format!("{file} control point {k}"), obj(a)?, obj(b)?, &[])?;
            }
            cmp_obj(&file, &o, g_without(top).as_object().unwrap(), &[])?;
        } else {
            cmp_obj(&file, &o, g, &["drag_points"])?;
        }
    }
    n += tb.gd.len() as u64;
    cmp_obj("gamedata.json", &gd_want(tb), obj(&json(f, "gamedata.json")?)?, &["is_10_8_0_beta1_to_beta4"])?;
    let m = nested(tb, "MATR");
    if !m.is_empty() {
        let a = arr(&json(f, "materials.json")?, m.len(), "materials.json")?;
        for (i, ((w, _), g)) in m.iter().zip(&a).enumerate() {
            n += 18;
            cmp_obj(&format!("materials.json entry {i}"), &simple(w, "material"), obj(g)?, &[])?;
        }
    }
    let m = nested(tb, "RPRB");
    if !m.is_empty() {
        let a = arr(&json(f, "renderprobes.json")?, m.len(), "renderprobes.json")?;
        for (i, ((w, t), g)) in m.iter().zip(&a).enumerate() {
            n += 7;
            let mut o = simple(w, "probe");
            if !t.is_empty() {
                o.insert("trailing_data".into(), json!(t));
            }
            cmp_obj(&format!("renderprobes.json entry {i}"), &o, obj(g)?, &[])?;
        }
    }
    let a = arr(&json(f, "images.json")?, tb.images.len(), "images.json")?;
    for (i, (im, g)) in tb.images.iter().zip(&a).enumerate() {
        let o = want_image(im);
        n += o.len() as u64;
        cmp_obj(&format!("images.json entry {i}"), &o, obj(g)?, &["width", "height", "name_dedup", "jpeg_path"])?;
        for (k, tag) in [("width", "WDTH"), ("height", "HGHT")] {
            if let Some(v) = g.get(k) {
                let w = im.iter().find(|x| x.tag == tag).unwrap();
                ensure!(same(&shown(w, ""), v), "images.json entry {i}: {k} is {v}, the table has {:?}", w.val);
            }
        }
    }
    let a = arr(&json(f, "sounds.json")?, tb.sounds.len(), "sounds.json")?;
    for (i, (s, g)) in tb.sounds.iter().zip(&a).enumerate() {
        n += 7;
        cmp_obj(&format!("sounds.json entry {i}"), &want_sound(s, tb.version), obj(g)?, &["name_dedup"])?;
    }
    let a = arr(&json(f, "fonts.json")?, tb.fonts.len(), "fonts.json")?;
    for (i, (s, g)) in tb.fonts.iter().zip(&a).enumerate() {
        n += 2;
        let w = json!({"name": s.name, "path": s.path});
        cmp_obj(&format!("fonts.json entry {i}"), obj(&w)?, obj(g)?, &["name_dedup"])?;
    }
    let a = arr(&json(f, "collections.json")?, tb.colls.len(), "collections.json")?;
    for (i, (c, g)) in tb.colls.iter().zip(&a).enumerate() {
        n += 5;
        cmp_obj(&format!("collections.json entry {i}"), &want_coll(c), obj(g)?, &[])?;
    }
    let info = json(f, "info.json")?;
    let mut w = Map::new();
    let mut props = Map::new();
    for (k, b) in &tb.info {
        n += 1;
        if let Some((_, j)) = INFO.iter().find(|x| x.0 == k) {
            w.insert(j.to_string(), json!(text(b)));
        } else if k != "Screenshot" {
            props.insert(k.clone(), json!(text(b)));
        } else {
            ensure!(f.get(&format!("{ROOT}/screenshot.png")) == Some(b), "screenshot.png is not the stored screenshot");
        }
    }
    w.insert("properties".into(), Value::Object(props));
    w.insert("properties_order".into(), json!(tb.cust));
    cmp_obj("info.json", &w, obj(&info)?, &[])?;
    ensure!(f.get(&format!("{ROOT}/version.txt")) == Some(&tb.version.to_string().into_bytes()), "version.txt does not show {}", tb.version);
    Ok(n)
}
fn g_without(top: &Map<String, Value>) -> Value {
    let mut g = top.values().next().unwrap().clone();
    g.as_object_mut().unwrap().remove("drag_points");
    g
}
fn want_image(im: &[Rec]) -> Map<String, Value> {
    let mut o = Map::new();
    let get = |rs: &[Rec], t: &str| {
        rs.iter().find(|x| x.tag == t).map(|x| match &x.val {
            Val::Str(s) => s.clone(),
            _ => unreachable!(),
        })
    };
    for x in im {
        match x.tag {
            "WDTH" | "HGHT" | "BITS" => {}
            "ALTV" if x.val == Val::F32((-1f32).to_bits()) => {}
            "JPEG" => {
                let Val::Jpeg(j) = &x.val else { unreachable!() };
                for y in j {
                    let differs = match y.tag {
                        "NAME" => get(im, "NAME") != get(j, "NAME"),
                        "PATH" => get(im, "PATH") != get(j, "PATH"),
                        "INME" => true,
                        _ => false,
                    };
                    if differs {
                        put(&mut o, y, "image");
                    }
                }
            }
            _ => put(&mut o, x, "image"),
        }
    }
    o
}
fn want_sound(s: &Sound, version: u32) -> Map<String, Value> {
    let mut w = json!({"name": s.name, "path": s.path, "internal_name": s.internal, "output_target": (["table", "backglass"][s.target as usize])});
    if version >= 1031 {
        w["fade"] = json!(s.fade);
        w["volume"] = json!(s.volume);
        w["balance"] = json!(s.balance);
    }
    w.as_object().unwrap().clone()
}
fn want_coll(c: &[Rec]) -> Map<String, Value> {
    let mut o = Map::new();
    o.insert("items".into(), json!([]));
    for x in c {
        if x.tag == "ITEM" {
            o["items"].as_array_mut().unwrap().push(shown(x, ""));
        } else {
            put(&mut o, x, "");
        }
    }
    o
}

pub(crate) fn profile(t: &mut Tape) -> Prof {
    Prof { weird_names: false, unique_names: true, max_items: 4, max_res: 3, versions: vec![1031, 1060, 1072, 1080, 1081], opt8: *t.pick(&[2, 4, 6, 7]), ..Prof::default() }
}
fn table(t: &mut Tape, c: &mut Case) -> Table {
    let p = profile(t);
    let mut tb = gen_table(t, &p);
    derive_legacy_tables(&mut tb);
    classes(&tb, c);
    tb
}

fn shown_case(t: &mut Tape, c: &mut Case) -> Res {
    let tb = table(t, c);
    c.sample = Some(summary(&tb));
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let f = expand(&parse(&s)?, t.below(3), false)?;
    c.evals = check_shown(&tb, &f)?;
    Ok(())
}

// ---- editing ----

enum Edit {
    Set(Value),
    Remove,
}
fn set_key(v: &mut Value, key: &str, e: &Edit) {
    let o = v.as_object_mut().unwrap();
    match e {
        Edit::Set(n) => {
            o.insert(key.into(), n.clone());
        }
        Edit::Remove => {
            o.remove(key);
        }
    }
}
/// edit one field of a record list; None when there is nothing to edit
fn edit_recs(t: &mut Tape, p: &Prof, recs: &mut Vec<Rec>, fields: &[Field], ty: &str, skip: &[&str], c: &mut Case) -> Option<(String, Edit, String)> {
    let fs: Vec<&Field> = fields.iter().filter(|f| !matches!(f.kind, Kind::Points | Kind::Mesh | Kind::Anim | Kind::Marker) && !skip.contains(&f.tag)).collect();
    let f = *t.pick(&fs);
    let pos = recs.iter().position(|x| x.tag == f.tag);
    let key = f.key.trim_start_matches('#').to_string();
    let newv = gen_val(t, p, f);
    let rec = Rec { tag: f.tag, key: f.key, val: newv, optional: f.opt };
    match pos {
        Some(i) => {
            if f.opt && t.chance(1, 4) {
                recs.remove(i);
                c.class("value removed");
                return Some((key, Edit::Remove, format!("{ty} {} removed", f.tag)));
            }
            c.class("value changed");
            recs[i].val = rec.val.clone();
        }
        None if ty == "gamedata" && f.tag.ends_with('0') => return None, // next to the record whose place depends on the version
        None => {
            // insert where the record belongs
            let me = fields.iter().position(|x| x.tag == f.tag).unwrap();
            let at = recs.iter().position(|r| fields.iter().position(|x| x.tag == r.tag || (x.kind == Kind::Points && r.tag == "DPNT") || (x.kind == Kind::Mesh && r.tag.starts_with("M3") && r.tag != "M3DN")).is_some_and(|k| k > me)).unwrap_or(recs.len());
            recs.insert(at, rec.clone());
            c.class("value added");
        }
    }
    Some((key, Edit::Set(shown(&rec, ty)), format!("{ty} {} set to {:?}", f.tag, rec.val)))
}

fn edit_case(t: &mut Tape, c: &mut Case) -> Res {
    let tb = table(t, c);
    let p = profile(t);
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let mut f = expand(&parse(&s)?, t.below(3), false)?;
    let mut nt = tb.clone();
    let mut what = vec![];
    for _ in 0..t.usize(1, 4) {
        what.push(edit_one(t, &p, &mut nt, &mut f, c)?);
    }
    c.sample = Some(json!({"table": summary(&tb), "edits": what}));
    c.evals = s.len() as u64;
    derive_legacy_tables(&mut nt);
    let want = normalise(&nt.streams());
    let got = assemble(&f).map_err(|e| format!("after {what:?}: {e}"))?;
    let got = normalise(&save(&got)?);
    diff_streams(&want, &got).map_err(|e| format!("after {what:?}: {e}"))
}

fn edit_one(t: &mut Tape, p: &Prof, nt: &mut Table, f: &mut Files, c: &mut Case) -> Result<String, String> {
    let none = Ok("nothing".to_string());
    match t.below(10) {
        0..=3 => {
            if nt.items.is_empty() {
                return none;
            }
            let i = t.usize(0, nt.items.len() - 1);
            let it = &mut nt.items[i];
            let fs = &schema().items.iter().find(|x| x.0 == it.ty).unwrap().2;
            let ty = type_name(it.ty);
            let file = item_file(f, i)?;
            let pts: Vec<usize> = it.recs.iter().enumerate().filter(|(_, x)| matches!(x.val, Val::Sub(_))).map(|x| x.0).collect();
            if !pts.is_empty() && t.chance(1, 3) {
                let k = t.usize(0, pts.len() - 1);
                let Val::Sub(d) = &mut it.recs[pts[k]].val else { unreachable!() };
                if let Some((key, e, w)) = edit_recs(t, p, d, &schema().dragpoint, "dragpoint", &[], c) {
                    let mut v = json(f, &file)?;
                    let o = v.as_object_mut().unwrap().values_mut().next().unwrap();
                    let d = &mut o["drag_points"][k];
                    if key == "xy" {
                        let Edit::Set(n) = e else { unreachable!() };
                        d["x"] = n["x"].clone();
                        d["y"] = n["y"].clone();
                    } else {
                        set_key(d, &key, &e);
                    }
                    set_json(f, &file, &v);
                    c.class("control point edited");
                    return Ok(format!("item {i} point {k}: {w}"));
                }
                return none;
            }
            let (key, e, w) = match edit_recs(t, p, &mut it.recs, fs, ty, &["BMIN", "BMAX"], c) {
                Some(x) => x,
                None => return none,
            };
            let is_index = fs.iter().any(|x| x.key.strip_prefix('#') == Some(&key));
            if is_index || (ty == "partgroup" && ["is_locked", "editor_layer_name", "editor_layer_visibility"].contains(&key.as_str())) {
                let mut v = json(f, "gameitems.json")?;
                set_key(&mut v[i], &key, &e);
                set_json(f, "gameitems.json", &v);
                c.class("index value edited");
            }
            if !is_index {
                let mut v = json(f, &file)?;
                let o = v.as_object_mut().unwrap().values_mut().next().unwrap();
                if let Some((k, ix)) = key.strip_suffix(']').and_then(|k| k.split_once('[')) {
                    let Edit::Set(n) = e else { unreachable!() };
                    o[k][ix.parse::<usize>().unwrap()] = n;
                } else {
                    set_key(o, &key, &e);
                }
                set_json(f, &file, &v);
                c.class("part edited");
            }
            Ok(format!("item {i}: {w}"))
        }
        4 | 5 => {
            let skip = ["EFSS", "CLMO", "VSM0", "VSM1", "VSM2", "TMAP"];
            match edit_recs(t, p, &mut nt.gd, &schema().gamedata, "gamedata", &skip, c) {
                Some((key, e, w)) => {
                    let mut v = json(f, "gamedata.json")?;
                    set_key(&mut v, &key, &e);
                    set_json(f, "gamedata.json", &v);
                    c.class("game setting edited");
                    Ok(w)
                }
                None => none,
            }
        }
        6 => {
            // materials and render probes
            let tag = *t.pick(&["MATR", "RPRB"]);
            let (file, ty) = if tag == "MATR" { ("materials.json", "material") } else { ("renderprobes.json", "probe") };
            let at: Vec<usize> = nt.gd.iter().enumerate().filter(|(_, x)| x.tag == tag).map(|x| x.0).collect();
            if at.is_empty() {
                return none;
            }
            let k = t.usize(0, at.len() - 1);
            let (mut fresh, mut trail) = (gen_material(t, p), vec![]);
            if tag == "RPRB" {
                let Val::Nested(a, b) = gen_probe(t, p) else { unreachable!() };
                fresh = a;
                trail = b;
            }
            let Val::Nested(rs, tr) = &mut nt.gd[at[k]].val else { unreachable!() };
            let mut v = json(f, file)?;
            let o = &mut v[k];
            if tag == "RPRB" && t.chance(1, 4) {
                *tr = trail;
                o["trailing_data"] = json!(tr);
                set_json(f, file, &v);
                return Ok(format!("probe {k} trailing data"));
            }
            let n = t.pick(&fresh).clone();
            let Some(r) = rs.iter_mut().find(|x| x.tag == n.tag) else { return none };
            r.val = n.val.clone();
            set_key(o, n.key, &Edit::Set(shown(&n, ty)));
            set_json(f, file, &v);
            c.class("material or probe edited");
            Ok(format!("{ty} {k}: {} set to {:?}", n.tag, n.val))
        }
        7 => {
            if nt.colls.is_empty() {
                return none;
            }
            let i = t.usize(0, nt.colls.len() - 1);
            let n = gen_collection(t, p, i);
            let key = *t.pick(&["name", "items", "fire_events", "stop_single_events", "group_elements"]);
            let mut v = json(f, "collections.json")?;
            v[i][key] = want_coll(&n)[key].clone();
            set_json(f, "collections.json", &v);
            let l = &mut nt.colls[i];
            if key == "items" {
                l.retain(|x| x.tag != "ITEM");
                for x in n.iter().filter(|x| x.tag == "ITEM").rev() {
                    l.insert(1, x.clone());
                }
            } else {
                let x = n.iter().find(|x| x.key == key).unwrap();
                l.iter_mut().find(|x| x.key == key).unwrap().val = x.val.clone();
            }
            c.class("collection edited");
            Ok(format!("collection {i}: {key}"))
        }
        8 => {
            // images and sounds
            if t.bool() && !nt.sounds.is_empty() {
                let i = t.usize(0, nt.sounds.len() - 1);
                let s = &mut nt.sounds[i];
                let n = gen_sound(t, p, i);
                let key = *t.pick(&["internal_name", "fade", "volume", "balance", "output_target"]);
                let mut v = json(f, "sounds.json")?;
                v[i][key] = want_sound(&n, 1081)[key].clone();
                match key {
                    "internal_name" => s.internal = n.internal,
                    "fade" => s.fade = n.fade,
                    "volume" => s.volume = n.volume,
                    "balance" => s.balance = n.balance,
                    _ => s.target = n.target,
                }
                set_json(f, "sounds.json", &v);
                c.class("sound edited");
                return Ok(format!("sound {i}: {key}"));
            }
            if nt.images.is_empty() {
                return none;
            }
            let i = t.usize(0, nt.images.len() - 1);
            let im = &mut nt.images[i];
            let tag = *t.pick(&["INME", "WDTH", "HGHT", "ALTV", "OPAQ", "SIGN", "MD5H"]);
            if !im.iter().any(|x| x.tag == tag) {
                return none;
            }
            if matches!(tag, "WDTH" | "HGHT") && im_has_bits(&nt.images[i]) {
                return none;
            }
            let r = nt.images[i].iter_mut().find(|x| x.tag == r_tag(tag)).unwrap();
            r.val = match &r.val {
                Val::Str(_) => Val::Str(gen_str(t)),
                Val::U32(_) => Val::U32(gen_u32(t)),
                Val::F32(_) => Val::F32(gen_f32(t, p)),
                Val::Bool(_) => Val::Bool(t.bool()),
                _ => Val::Bytes(t.bytes(16)),
            };
            let r = r.clone();
            let mut v = json(f, "images.json")?;
            set_key(&mut v[i], r.key, &Edit::Set(shown(&r, "image")));
            set_json(f, "images.json", &v);
            c.class("image edited");
            Ok(format!("image {i}: {tag} set to {:?}", r.val))
        }
        _ => {
            let fixed: Vec<usize> = (0..nt.info.len()).filter(|i| nt.info[*i].0 != "Screenshot").collect();
            if fixed.is_empty() {
                return none;
            }
            let i = *t.pick(&fixed);
            let s = gen_wide(t);
            let name = nt.info[i].0.clone();
            nt.info[i].1 = utf16(&s);
            let mut v = json(f, "info.json")?;
            match INFO.iter().find(|x| x.0 == name) {
                Some((_, k)) => v[*k] = json!(s),
                None => v["properties"][&name] = json!(s),
            }
            set_json(f, "info.json", &v);
            c.class("table info edited");
            Ok(format!("info {name} set to {s:?}"))
        }
    }
}
fn r_tag(t: &'static str) -> &'static str {
    t
}
fn im_has_bits(im: &[Rec]) -> bool {
    im.iter().any(|x| x.tag == "BITS")
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("shown", ctx.n(24000, 400000), "a table with at least one part, image or sound, every value of which is looked up in the JSON; distinct by stream contents", shown_case);
    ctx.sub("edited", ctx.n(40000, 600000), "as above, with one to four keys changed, added or removed before assembling", edit_case);
}
