//! P24: the cameras of whole-table glTF exports.

use crate::engine::*;
use crate::ensure;
use crate::exp::parse;
use crate::gltfx::Doc;
use crate::p01::summary;
use crate::p18::{UNITS, glb, gltf, gltf_doc, near, table};
use crate::tape::Tape;
use vpin::vpx::VPX;
use vpin::vpx::gamedata::ViewLayoutMode;

const NAMES: [&str; 3] = ["DesktopCamera", "FullscreenCamera", "FssCamera"];

/// The settings of one view.
#[derive(Clone, Debug, PartialEq)]
struct View {
    layout: Option<u8>,
    fov: Option<f32>,
    look: Option<f32>,
    off: [Option<f32>; 3],
    scale: [Option<f32>; 2],
    /// rotation, layback, z scale
    rest: [f32; 3],
}

impl View {
    fn legacy(&self) -> bool {
        self.layout.unwrap_or(0) == 0
    }
    fn fov(&self) -> f64 {
        self.fov.unwrap_or(45.0).max(1.0) as f64
    }
    fn look(&self) -> f64 {
        self.look.unwrap_or(52.0) as f64
    }
    fn off(&self) -> [f64; 3] {
        let d = [0.0, 30.0, -50.0];
        [0, 1, 2].map(|k| self.off[k].unwrap_or(d[k]) as f64)
    }
    fn scale(&self) -> f64 {
        (self.scale[0].unwrap_or(1.2) as f64 + self.scale[1].unwrap_or(1.1) as f64) / 2.0
    }
    /// Down from the horizon, in radians.
    fn pitch(&self) -> f64 {
        (90.0 * (1.0 - self.look() / 100.0)).to_radians()
    }
    /// Where the offsets move the camera, in the table's axes.
    fn moved(&self) -> [f64; 3] {
        let (s, c) = self.pitch().sin_cos();
        let [x, y, z] = self.off();
        if self.legacy() { [x, y * s + z * c, y * c + z * s] } else { [x, y * c, y * s + z] }
    }
    fn centred(&self) -> View {
        View { off: [Some(0.0); 3], ..self.clone() }
    }
    /// With what may be absent written out.
    fn full(&self) -> View {
        let o = self.off();
        View {
            layout: Some(self.layout.unwrap_or(0)),
            fov: Some(self.fov.unwrap_or(45.0)),
            look: Some(self.look.unwrap_or(52.0)),
            off: o.map(|x| Some(x as f32)),
            scale: [Some(self.scale[0].unwrap_or(1.2)), Some(self.scale[1].unwrap_or(1.1))],
            rest: self.rest,
        }
    }
}

fn gen_view(t: &mut Tape, k: usize) -> View {
    let maybe = |t: &mut Tape, v: f32| if k == 2 && t.chance(1, 3) { None } else { Some(v) };
    let fov = match t.below(6) {
        0 => *t.pick(&[0.0, 0.5, 1.0, -20.0, 1.25]),
        1 => *t.pick(&[45.0, 90.0, 120.0, 150.0]),
        _ => t.range(2, 130) as f32 + t.range(0, 3) as f32 / 4.0,
    };
    let fov = maybe(t, fov);
    let look = match t.below(4) {
        0 => *t.pick(&[0.0, 100.0, 50.0]),
        _ => t.range(0, 400) as f32 / 4.0,
    };
    let look = maybe(t, look);
    let off = [0, 1, 2].map(|_| {
        let v = match t.below(4) {
            0 => 0.0,
            1 => t.range(-2000, 2000) as f32,
            _ => t.range(-4000, 4000) as f32 / 8.0,
        };
        maybe(t, v)
    });
    let scale = [0, 1].map(|_| {
        let v = if t.chance(1, 3) { 1.0 } else { t.range(20, 300) as f32 / 100.0 };
        maybe(t, v)
    });
    View { layout: if t.chance(1, 4) { None } else { Some(t.below(3) as u8) }, fov, look, off, scale, rest: [t.range(0, 359) as f32, t.range(-60, 60) as f32, t.range(20, 300) as f32 / 100.0] }
}

fn layout(x: Option<u8>) -> Option<ViewLayoutMode> {
    x.map(|x| match x {
        0 => ViewLayoutMode::Legacy,
        1 => ViewLayoutMode::Camera,
        _ => ViewLayoutMode::Window,
    })
}

fn set(v: &mut VPX, k: usize, x: &View) {
    let g = &mut v.gamedata;
    let o = |i: usize| x.off[i].unwrap_or(0.0);
    match k {
        0 => {
            g.bg_view_mode_desktop = layout(x.layout);
            g.bg_fov_desktop = x.fov.unwrap_or(0.0);
            g.bg_inclination_desktop = x.look.unwrap_or(0.0);
            (g.bg_offset_x_desktop, g.bg_offset_y_desktop, g.bg_offset_z_desktop) = (o(0), o(1), o(2));
            (g.bg_scale_x_desktop, g.bg_scale_y_desktop) = (x.scale[0].unwrap_or(1.0), x.scale[1].unwrap_or(1.0));
            (g.bg_rotation_desktop, g.bg_layback_desktop, g.bg_scale_z_desktop) = (x.rest[0], x.rest[1], x.rest[2]);
        }
        1 => {
            g.bg_view_mode_fullscreen = layout(x.layout);
            g.bg_fov_fullscreen = x.fov.unwrap_or(0.0);
            g.bg_inclination_fullscreen = x.look.unwrap_or(0.0);
            (g.bg_offset_x_fullscreen, g.bg_offset_y_fullscreen, g.bg_offset_z_fullscreen) = (o(0), o(1), o(2));
            (g.bg_scale_x_fullscreen, g.bg_scale_y_fullscreen) = (x.scale[0].unwrap_or(1.0), x.scale[1].unwrap_or(1.0));
            (g.bg_rotation_fullscreen, g.bg_layback_fullscreen, g.bg_scale_z_fullscreen) = (x.rest[0], x.rest[1], x.rest[2]);
        }
        _ => {
            g.bg_view_mode_full_single_screen = layout(x.layout);
            g.bg_fov_full_single_screen = x.fov;
            g.bg_inclination_full_single_screen = x.look;
            g.bg_offset_x_full_single_screen = x.off[0];
            g.bg_offset_y_full_single_screen = x.off[1];
            g.bg_offset_z_full_single_screen = x.off[2];
            g.bg_scale_x_full_single_screen = x.scale[0];
            g.bg_scale_y_full_single_screen = x.scale[1];
            g.bg_rotation_full_single_screen = Some(x.rest[0]);
            g.bg_layback_full_single_screen = Some(x.rest[1]);
            g.bg_scale_z_full_single_screen = Some(x.rest[2]);
        }
    }
}

fn all(v: &mut VPX, x: &[View; 3]) {
    for k in 0..3 {
        set(v, k, &x[k]);
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Camera {
    /// in the table's axes and in table units
    at: [f64; 3],
    /// where it looks, in the table's axes
    forward: [f64; 3],
    right: [f64; 3],
    yfov: f64,
    near: f64,
    far: f64,
}

fn spin(q: [f64; 4], v: [f64; 3]) -> [f64; 3] {
    let [x, y, z, w] = q;
    let c = |a: [f64; 3], b: [f64; 3]| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let u = [x, y, z];
    let t = c(u, v).map(|k| 2.0 * k);
    let s = c(u, t);
    [0, 1, 2].map(|k| v[k] + w * t[k] + s[k])
}

fn cameras(d: &Doc, unit: f64) -> Result<[Camera; 3], String> {
    let world = crate::world::nodes(d, unit)?;
    let all = d.arr("nodes");
    let with: Vec<usize> = (0..all.len()).filter(|i| !all[*i]["camera"].is_null()).collect();
    ensure!(with.len() == 3 && d.arr("cameras").len() == 3, "{} nodes with cameras and {} cameras", with.len(), d.arr("cameras").len());
    let mut out = vec![];
    for (k, name) in NAMES.iter().enumerate() {
        let of: Vec<usize> = with.iter().copied().filter(|i| all[*i]["name"] == *name).collect();
        ensure!(of.len() == 1, "{} nodes for {name}", of.len());
        let place = world.iter().find(|n| n.camera.is_some() && n.name == *name).ok_or("no camera node")?;
        let n = &all[of[0]];
        let cam = &d.arr("cameras")[n["camera"].as_u64().ok_or("no camera index")? as usize];
        ensure!(cam["name"] == *name, "node {name} has the camera {}", cam["name"]);
        let nums = |v: &serde_json::Value| v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect::<Vec<f64>>()).unwrap_or_default();
        let (p, q) = (nums(&n["translation"]), nums(&n["rotation"]));
        ensure!(p.len() == 3 && q.len() == 4 && n["scale"].is_null() && n["matrix"].is_null(), "{name}: {n}");
        let l = q.iter().map(|x| x * x).sum::<f64>();
        ensure!(near(l, 1.0, 1e-5), "{name}: rotation of length {l}");
        let q = [q[0], q[1], q[2], q[3]];
        let (f, r) = (spin(q, [0.0, 0.0, -1.0]), spin(q, [1.0, 0.0, 0.0]));
        let g = &cam["perspective"];
        let z = |x: &str| g[x].as_f64().ok_or(format!("camera {k}: {x} is {}", g[x]));
        out.push(Camera { at: place.at, forward: [f[0], f[2], f[1]], right: [r[0], r[2], r[1]], yfov: z("yfov")?, near: z("znear")? / unit, far: z("zfar")? / unit });
    }
    out.try_into().map_err(|_| "three cameras".into())
}

fn seen(v: &VPX, unit: usize) -> Result<[Camera; 3], String> {
    let d = Doc::from_glb(&glb(v, unit, false)?).map_err(|e| format!("GLB: {e}"))?;
    cameras(&d, UNITS[unit].1)
}

fn close(a: [f64; 3], b: [f64; 3], tol: f64) -> bool {
    (0..3).all(|k| near(a[k], b[k], tol))
}

fn settings(t: &mut Tape, c: &mut Case) -> Res {
    // any table, with parts or without
    let mut v = if t.chance(1, 4) {
        let tb = table(t, 4);
        c.class_if(!tb.items.is_empty(), "table with parts");
        c.sample = Some(summary(&tb));
        parse(&tb.streams())?
    } else {
        VPX::default()
    };
    let (w, h, glass) = (t.range(100, 3000) as f32, t.range(100, 5000) as f32, if t.chance(1, 6) { 0.0 } else { t.range(1, 1000) as f32 });
    let (l, tp) = (0.0f32, 0.0f32);
    let put = |v: &mut VPX, k: f32| {
        let g = &mut v.gamedata;
        (g.left, g.top, g.right, g.bottom, g.glass_top_height) = (l * k, tp * k, (l + w) * k, (tp + h) * k, glass * k);
    };
    put(&mut v, 1.0);
    let views = [0, 1, 2].map(|k| gen_view(t, k));
    all(&mut v, &views);
    c.hash = crate::tape::hash_str(&format!("{w} {h} {glass} {l} {tp} {views:?}"));
    c.sample = Some(format!("{w} by {h}, glass {glass}, {views:?}").into());
    c.class_if(views[2].layout.is_none(), "no layout");
    c.class_if(views[2].fov.is_none() || views[2].look.is_none(), "absent settings");
    c.class_if(views.iter().any(|x| x.legacy()), "legacy layout");
    c.class_if(views.iter().any(|x| !x.legacy()), "camera or window layout");
    c.class_if(views.iter().any(|x| x.fov.is_some_and(|f| f < 1.0)), "field of view below one degree");
    c.nontrivial = views.iter().any(|x| x.moved() != [0.0; 3]);
    let unit = t.usize(0, 3);
    let got = seen(&v, unit)?;
    c.evals += 3;

    // where it looks, and how wide
    for k in 0..3 {
        let (x, g) = (&views[k], &got[k]);
        let p = x.pitch();
        ensure!(near(g.yfov, x.fov().to_radians(), 1e-5), "{}: field of view {} for {}", NAMES[k], g.yfov.to_degrees(), x.fov());
        ensure!(close(g.forward, [0.0, -p.cos(), -p.sin()], 1e-5), "{}: looks to {:?}, {} degrees below the horizon expected", NAMES[k], g.forward, p.to_degrees());
        ensure!(close(g.right, [1.0, 0.0, 0.0], 1e-5), "{}: its right is {:?}", NAMES[k], g.right);
    }
    // without offsets
    let mid = [(l + w / 2.0) as f64, (tp + h / 2.0) as f64, 0.0];
    let centred = [0, 1, 2].map(|k| views[k].centred());
    all(&mut v, &centred);
    let base = seen(&v, unit)?;
    let mut dist = [0.0; 3];
    for k in 0..3 {
        let g = &base[k];
        let to = [0, 1, 2].map(|i| mid[i] - g.at[i]);
        let d = (0..3).map(|i| to[i] * g.forward[i]).sum::<f64>();
        dist[k] = d;
        let tol = 1e-4 * d.abs() + 0.01;
        ensure!(d > 0.0, "{}: the playfield is behind the camera, {g:?}", NAMES[k]);
        ensure!(close(to, g.forward.map(|x| x * d), tol), "{}: looks past the middle of the playfield: at {:?}, to {:?}", NAMES[k], g.at, g.forward);
        // the offsets move it
        let m = views[k].moved();
        let tol = tol + 1e-4 * m.iter().map(|x| x.abs()).sum::<f64>();
        ensure!(close([0, 1, 2].map(|i| got[k].at[i] - g.at[i]), m, tol), "{}: offsets {:?} move it from {:?} to {:?}, expected by {m:?}", NAMES[k], views[k].off(), g.at, got[k].at);
        ensure!(got[k].near == g.near && got[k].far == g.far, "{}: offsets change the clipping planes", NAMES[k]);
    }
    all(&mut v, &views);
    // in another unit
    let u2 = (unit + t.usize(1, 3)) % 4;
    for (k, g) in seen(&v, u2)?.iter().enumerate() {
        let size = got[k].at.iter().map(|x| x.abs()).sum::<f64>();
        ensure!(close(g.at, got[k].at, 1e-4 * size + 0.01), "{}: the unit moves it from {:?} to {:?}", NAMES[k], got[k].at, g.at);
        ensure!(near(g.near, got[k].near, 1e-4 * g.near) && near(g.far, got[k].far, 1e-4 * g.far), "{}: the unit changes the clipping planes", NAMES[k]);
        ensure!(g.forward == got[k].forward && g.yfov == got[k].yfov, "{}: the unit turns it", NAMES[k]);
    }
    // as glTF with files
    let files = gltf_doc(&gltf(&v, unit, true)?).map_err(|e| format!("glTF: {e}"))?;
    ensure!(cameras(&files, UNITS[unit].1)? == got, "glTF and GLB have different cameras");
    // a larger table
    let s = *t.pick(&[0.5f32, 2.0, 3.0, 10.0]);
    all(&mut v, &centred);
    put(&mut v, s);
    let big = seen(&v, unit)?;
    put(&mut v, 1.0);
    for (k, g) in big.iter().enumerate() {
        let want = base[k].at.map(|x| x * s as f64);
        ensure!(close(g.at, want, (1e-4 * dist[k] + 0.01) * s.max(1.0) as f64), "{}: a table {s} times as large puts it at {:?}, expected {want:?}", NAMES[k], g.at);
    }
    // a wider view
    let wide = [0, 1, 2].map(|k| View { fov: Some((views[k].fov() + t.range(1, 20) as f64) as f32), ..views[k].centred() });
    all(&mut v, &wide);
    let d2 = |g: &Camera| (0..3).map(|i| (mid[i] - g.at[i]) * g.forward[i]).sum::<f64>();
    for (k, g) in seen(&v, unit)?.iter().enumerate() {
        ensure!(d2(g) <= dist[k] * 1.0001 + 0.01, "{}: a wider view moves it from {} to {}", NAMES[k], dist[k], d2(g));
    }
    // another scale
    let other = [0, 1, 2].map(|k| View { scale: [Some(t.range(20, 300) as f32 / 100.0), Some(t.range(20, 300) as f32 / 100.0)], ..views[k].centred() });
    all(&mut v, &other);
    for (k, g) in seen(&v, unit)?.iter().enumerate() {
        let want = if views[k].legacy() { dist[k] * other[k].scale() / views[k].scale() } else { dist[k] };
        ensure!(near(d2(g), want, 1e-4 * want + 0.01), "{}: a scale of {} instead of {} changes the distance from {} to {}, expected {want}", NAMES[k], other[k].scale(), views[k].scale(), dist[k], d2(g));
    }
    // the settings of another view
    let j = t.usize(0, 2);
    let nv = gen_view(t, j);
    all(&mut v, &views);
    set(&mut v, j, &nv);
    for (k, g) in seen(&v, unit)?.iter().enumerate() {
        ensure!(k == j || *g == got[k], "{}: the settings of {} change it from {:?} to {g:?}", NAMES[k], NAMES[j], got[k]);
    }
    // defaults
    for k in 0..3 {
        let mut f = views[k].full();
        if k < 2 {
            f = View { layout: f.layout, ..views[k].clone() };
        }
        set(&mut v, k, &f);
    }
    ensure!(seen(&v, unit)? == got, "written-out defaults change a camera: {got:?}");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("how far a camera stands for one table is not fixed, only how that distance changes with the table, its settings and the unit of the export".into());
    ctx.assumptions.push("look-at values lie between 0 and 100, fields of view end at 150 degrees, table sizes and offsets are ordinary, and the playfield starts at the origin".into());
    ctx.sub("settings", ctx.n(12000, 600000), "offsets that move a camera; distinct by table size and view settings", settings);
}
