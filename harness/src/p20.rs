//! P20: numeric conversions.

use crate::engine::*;
use crate::ensure;
use crate::tape::{hash_bytes, Tape};
use serde_json::json;
use vpin::vpx::biff::{BiffReader, BiffWriter};
use vpin::vpx::color::Color;
use vpin::vpx::math::*;
use vpin::vpx::units::*;

fn code_bits<const B: u8>(t: &mut Tape) -> Res {
    let n = (1u32 << B) - 1;
    let check = |i: u32| -> Res {
        let x = dequantize_unsigned::<B>(i);
        ensure!((0.0..=1.0).contains(&x), "code {i} of {B} bits decodes to {x}");
        ensure!((x as f64 - i as f64 / n as f64).abs() < 1e-6, "code {i} of {B} bits decodes to {x}");
        // single precision holds the product of wider codes only roughly
        let back = quantize_unsigned::<B>(x);
        ensure!(B > 11 && back.abs_diff(i) <= 1 || back == i, "code {i} of {B} bits comes back as {}", quantize_unsigned::<B>(x));
        Ok(())
    };
    if B <= 8 {
        for i in 0..=n {
            check(i)?;
            ensure!(dequantize_u8(B, i as u8) == dequantize_unsigned::<B>(i), "the decoders of {B} bits differ on {i}");
            ensure!(quantize_u8(B, dequantize_u8(B, i as u8)) == i as u8, "code {i} of {B} bits comes back as {}", quantize_u8(B, dequantize_u8(B, i as u8)));
        }
    } else {
        for _ in 0..300 {
            check(t.range(0, n as i64) as u32)?;
        }
        check(0)?;
        check(n)?;
    }
    // codes beyond the range
    for i in [n + 1, n + 77] {
        ensure!(dequantize_unsigned::<B>(i) == 1.0, "code {i} of {B} bits decodes to {}", dequantize_unsigned::<B>(i));
    }
    // values
    for _ in 0..40 {
        let x = unit_value(t);
        let q = quantize_unsigned::<B>(x);
        ensure!(q <= n, "{x} becomes code {q} of {B} bits");
        let want = ((x as f64 * (n as f64 + 1.0)).floor()).min(n as f64) as u32;
        ensure!(q == want, "{x} becomes code {q} of {B} bits instead of {want}");
        let back = dequantize_unsigned::<B>(q) as f64;
        ensure!((back - (x as f64).min(1.0)).abs() <= 1.0 / n as f64 + 1e-6, "{x} becomes {back} with {B} bits");
        if B <= 8 {
            ensure!(quantize_u8(B, x) as u32 == q, "the encoders of {B} bits differ on {x}");
        }
        if B == 8 {
            ensure!(quantize_unsigned_8(x) as u32 == q && dequantize_unsigned_8(q as u8) == dequantize_unsigned::<8>(q), "the 8 bit forms differ on {x}");
        }
        let y = unit_value(t);
        ensure!((quantize_unsigned::<B>(y) >= q) == (y >= x) || quantize_unsigned::<B>(y) == q || x == y, "the order of {x} and {y} is lost with {B} bits");
    }
    Ok(())
}
fn unit_value(t: &mut Tape) -> f32 {
    match t.below(6) {
        0 => t.range(0, 256) as f32 / *t.pick(&[255.0, 256.0, 127.0, 128.0, 100.0, 101.0]),
        1 => {
            let x = (t.range(1, 65536) as f32 / 65536.0).to_bits();
            f32::from_bits(if t.bool() { x - 1 } else { x + 1 })
        }
        2 => *t.pick(&[0.0, 1.0, f32::MIN_POSITIVE, 1e-40, 0.99999994, 1.0000001, 2.0, 1e30, f32::MAX, f32::INFINITY, -0.0]),
        _ => (t.any() >> 40) as f32 / (1u64 << 24) as f32,
    }
}
fn quantised(t: &mut Tape, c: &mut Case) -> Res {
    let b = t.range(1, 16);
    c.class(["up to 8 bits", "more than 8 bits"][(b > 8) as usize]);
    c.nontrivial = true;
    c.hash = t.any();
    c.sample = Some(json!({"bits": b}));
    c.evals = 100;
    match b {
        1 => code_bits::<1>(t),
        2 => code_bits::<2>(t),
        3 => code_bits::<3>(t),
        4 => code_bits::<4>(t),
        5 => code_bits::<5>(t),
        6 => code_bits::<6>(t),
        7 => code_bits::<7>(t),
        8 => code_bits::<8>(t),
        9 => code_bits::<9>(t),
        10 => code_bits::<10>(t),
        11 => code_bits::<11>(t),
        12 => code_bits::<12>(t),
        13 => code_bits::<13>(t),
        14 => code_bits::<14>(t),
        15 => code_bits::<15>(t),
        _ => code_bits::<16>(t),
    }?;
    // percentages
    for i in 0..=100u32 {
        let x = dequantize_unsigned_percent(i);
        ensure!((x as f64 - i as f64 / 100.0).abs() < 1e-7, "{i} % decodes to {x}");
        ensure!(quantize_unsigned_percent(x) == i, "{i} % comes back as {}", quantize_unsigned_percent(x));
    }
    for i in [101, 1000, u32::MAX] {
        ensure!(dequantize_unsigned_percent(i) == 1.0, "{i} % decodes to {}", dequantize_unsigned_percent(i));
    }
    for _ in 0..20 {
        let x = unit_value(t);
        let q = quantize_unsigned_percent(x);
        ensure!(q <= 100, "{x} becomes {q} %");
        let back = dequantize_unsigned_percent(q) as f64;
        ensure!((back - (x as f64).min(1.0)).abs() <= 0.01 + 1e-6, "{x} becomes {back}");
    }
    Ok(())
}

fn colours(t: &mut Tape, c: &mut Case) -> Res {
    let w = t.any() as u32;
    let w = if t.bool() { w & 0xffffff } else { w };
    let b = w.to_le_bytes();
    c.nontrivial = b[0] != b[1] && b[1] != b[2] && b[0] != b[2];
    c.hash = w as u64;
    c.sample = Some(json!(format!("{w:#010x}")));
    c.class_if(b[3] != 0, "with the unused byte");
    let x = Color::from_win_color(w);
    ensure!((x.r, x.g, x.b) == (b[0], b[1], b[2]), "components of {w:#x}: {x:?}");
    ensure!(x.to_win_color() == w, "{w:#x} comes back as {:#x}", x.to_win_color());
    let rgb = (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32;
    ensure!(x.to_rgb() == rgb, "{w:#x} is {:#x} as rgb", x.to_rgb());
    let plain = Color::from_win_color(w & 0xffffff);
    ensure!(Color::from_rgb(rgb) == plain && Color::rgb(b[0], b[1], b[2]) == plain, "{rgb:#x} from components");
    ensure!(Color::from_rgb(rgb | w & 0xff000000) == plain, "{rgb:#x} with bits above");
    // text
    let text = serde_json::to_string(&x).map_err(|e| e.to_string())?;
    let want = if b[3] == 0 { format!("\"#{:02x}{:02x}{:02x}\"", b[0], b[1], b[2]) } else { format!("\"{:02x}#{:02x}{:02x}{:02x}\"", b[3], b[0], b[1], b[2]) };
    ensure!(text == want, "{w:#x} as text is {text}");
    ensure!(format!("{x}") == format!("#{rgb:06x}"), "{w:#x} shows as {x}");
    let back: Color = serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
    ensure!(back == x, "{text} comes back as {back:?}");
    let upper: Color = serde_json::from_str(&text.to_uppercase()).map_err(|e| format!("{text}: {e}"))?;
    ensure!(upper == x, "{} is {upper:?}", text.to_uppercase());
    // stored
    let mut wr = BiffWriter::new();
    x.biff_write(&mut wr);
    ensure!(wr.get_data() == b, "{w:#x} is stored as {:?}", wr.get_data());
    let bytes = wr.get_data().to_vec();
    let mut rd = BiffReader::with_remaining(&bytes, 4);
    ensure!(Color::biff_read(&mut rd) == x, "{w:#x} is not read back");
    // other text is refused, not misread
    let mut s: Vec<char> = want.trim_matches('"').chars().collect();
    let k = t.usize(0, s.len() - 1);
    match t.below(3) {
        0 => {
            s.remove(k);
        }
        1 => s.insert(k, *t.pick(&['0', '#', 'g', 'é'])),
        _ => s[k] = *t.pick(&['g', 'x', 'é', '日', '😀', ' ', '-']),
    }
    let s: String = s.into_iter().collect();
    let again = serde_json::from_str::<Color>(&json!(s).to_string());
    ensure!(again.is_err(), "{s:?} is read as {again:?}");
    Ok(())
}

fn near(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()) + 1e-37
}
fn units(t: &mut Tape, c: &mut Case) -> Res {
    let pick = |t: &mut Tape| match t.below(4) {
        0 => t.range(-100000, 100000) as f32 / 16.0,
        1 => t.range(-3000, 3000) as f32,
        2 => f32::from_bits(((t.any() as u32) & 0x807fffff) | (t.range(40, 215) as u32) << 23),
        _ => *t.pick(&[0.0f32, 1.0, 50.0, -50.0, 1e-20, 1e20]),
    };
    let (x, y) = (pick(t), pick(t));
    c.nontrivial = x != 0.0;
    c.hash = x.to_bits() as u64 | (y.to_bits() as u64) << 32;
    c.sample = Some(json!([x, y]));
    // 50 units are 1 1/16 inches
    let mm = 25.4 * 1.0625 / 50.0;
    type F = fn(f32) -> f32;
    let ways: [(&str, F, F, f64, ExportUnits); 3] = [("mm", vpu_to_mm, mm_to_vpu, mm, ExportUnits::Mm), ("cm", vpu_to_cm, cm_to_vpu, mm / 10.0, ExportUnits::Cm), ("m", vpu_to_m, m_to_vpu, mm / 1000.0, ExportUnits::M)];
    for (n, to, from, k, unit) in ways {
        ensure!(near(to(x) as f64, x as f64 * k, 3e-7), "{x} units are {} {n}", to(x));
        ensure!(near(from(x) as f64, x as f64 / k, 3e-7), "{x} {n} are {} units", from(x));
        ensure!(near(from(to(x)) as f64, x as f64, 4e-7), "{x} units come back from {n} as {}", from(to(x)));
        ensure!(near(to(from(x)) as f64, x as f64, 4e-7), "{x} {n} come back as {}", to(from(x)));
        ensure!((to(x) + to(y)) as f64 - to(x + y) as f64 <= 1e-6 * k * (x.abs() + y.abs()) as f64 + 1e-37, "{n} is not linear for {x} and {y}");
        ensure!(to(-x) == -to(x) && from(-x) == -from(x), "{n} of {x} negated");
        ensure!(near(unit.scale() as f64, k, 1e-7) && near(vpu_to_units(x, unit) as f64, to(x) as f64, 2e-7), "the export unit {n} has scale {}", unit.scale());
    }
    ensure!(near(vpu_to_cm(x) as f64 * 10.0, vpu_to_mm(x) as f64, 5e-7) && near(vpu_to_m(x) as f64 * 1000.0, vpu_to_mm(x) as f64, 5e-7), "units of {x} disagree");
    ensure!(ExportUnits::Vpu.scale() == 1.0 && vpu_to_units(x, ExportUnits::Vpu) == x && ExportUnits::default() == ExportUnits::Vpu, "own units scale by {}", ExportUnits::Vpu.scale());
    Ok(())
}

type M = [[f64; 4]; 4];
fn mul(a: &M, b: &M) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..4).map(|k| a[i][k] * b[k][j]).sum()))
}
/// rows times matrix
fn apply(m: &M, v: [f64; 3], w: f64) -> [f64; 3] {
    std::array::from_fn(|j| (0..3).map(|k| v[k] * m[k][j]).sum::<f64>() + w * m[3][j])
}
fn gen_part(t: &mut Tape) -> (Matrix3D, M, String) {
    let id: M = std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u32 as f64));
    let deg = match t.below(3) {
        0 => t.range(-4, 4) as f32 * 90.0,
        1 => t.range(-720, 720) as f32,
        _ => t.range(-36000, 36000) as f32 / 100.0,
    };
    let a = deg.to_radians();
    let (s, c) = (a as f64).sin_cos();
    let mut m = id;
    match t.below(6) {
        // turns x to y, y to z, z to x
        0 => {
            (m[1][1], m[1][2], m[2][1], m[2][2]) = (c, s, -s, c);
            (Matrix3D::rotate_x(a), m, format!("turn x {deg}"))
        }
        1 => {
            (m[2][2], m[2][0], m[0][2], m[0][0]) = (c, s, -s, c);
            (Matrix3D::rotate_y(a), m, format!("turn y {deg}"))
        }
        2 => {
            (m[0][0], m[0][1], m[1][0], m[1][1]) = (c, s, -s, c);
            (Matrix3D::rotate_z(a), m, format!("turn z {deg}"))
        }
        3 => {
            let v: [f32; 3] = std::array::from_fn(|_| t.range(-300, 300) as f32 / 100.0);
            for k in 0..3 {
                m[k][k] = v[k] as f64;
            }
            (Matrix3D::scale(v[0], v[1], v[2]), m, format!("scale {v:?}"))
        }
        4 => {
            let v: [f32; 3] = std::array::from_fn(|_| t.range(-100000, 100000) as f32 / 64.0);
            for k in 0..3 {
                m[3][k] = v[k] as f64;
            }
            (Matrix3D::translate(v[0], v[1], v[2]), m, format!("move {v:?}"))
        }
        _ => {
            let f = t.range(-300, 300) as f32 / 100.0;
            for k in 0..3 {
                m[k][k] = f as f64;
            }
            (Matrix3D::scale_uniform(f), m, format!("scale {f}"))
        }
    }
}
fn matrices(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.usize(1, 6);
    let parts: Vec<_> = (0..n).map(|_| gen_part(t)).collect();
    let v: [f32; 3] = std::array::from_fn(|_| t.range(-32000, 32000) as f32 / 32.0);
    c.nontrivial = n >= 2;
    let log: Vec<&String> = parts.iter().map(|p| &p.2).collect();
    c.hash = hash_bytes(format!("{log:?}{v:?}").as_bytes());
    c.sample = Some(json!({"steps": log, "point": v}));
    let mut want = parts[0].1;
    let (mut by_val, mut by_ref) = (parts[0].0, parts[0].0);
    let vx = |v: [f32; 3]| Vertex3D::new(v[0], v[1], v[2]);
    let arr = |v: Vertex3D| [v.x as f64, v.y as f64, v.z as f64];
    // sizes that the rounding errors are relative to
    let grow = |m: &M| m.iter().take(3).flatten().fold(1.0, |a: f64, x| a.max(x.abs()));
    let mut scale = 1.0;
    let mut far = v.iter().fold(1.0, |a: f64, x| a.max(x.abs() as f64));
    let mut steps = vx(v);
    let mut dir = vx(v);
    for (k, (a, m, _)) in parts.iter().enumerate() {
        steps = a.transform_vertex(steps);
        dir = a.transform_vector(dir);
        scale *= grow(m);
        far = far * grow(m) * 1.8 + m[3].iter().fold(0.0, |a: f64, x| a.max(x.abs()));
        if k > 0 {
            want = mul(&want, m);
            by_val = by_val * *a;
            by_ref = &by_ref * a;
        }
    }
    ensure!(by_val == by_ref, "the two forms of the product differ");
    let tol = 4e-6 * far;
    let close = |a: [f64; 3], b: [f64; 3]| (0..3).all(|k| (a[k] - b[k]).abs() <= tol);
    let v64 = [v[0] as f64, v[1] as f64, v[2] as f64];
    let (p, d) = (apply(&want, v64, 1.0), apply(&want, v64, 0.0));
    let got = arr(by_val.transform_vertex(vx(v)));
    ensure!(close(got, p), "the product moves the point to {got:?} instead of {p:?}");
    ensure!(close(arr(steps), p), "the steps move the point to {steps:?} instead of {p:?}");
    let got = arr(by_val.transform_vector(vx(v)));
    ensure!(close(got, d) && close(arr(dir), d), "the product turns the direction to {got:?}, the steps to {dir:?} instead of {d:?}");
    let got = arr(by_val.transform_normal(v[0], v[1], v[2]));
    ensure!(close(got, d), "the product turns the normal to {got:?} instead of {d:?}");
    let id = Matrix3D::identity();
    ensure!(id * by_val == by_val && by_val * id == by_val && Matrix3D::default() == id, "the identity changes a matrix");
    let _ = scale;
    Ok(())
}

/// Any matrices, also those that project: entries in eighths, so that sums and products are exact.
fn projections(t: &mut Tape, c: &mut Case) -> Res {
    let mut full = |t: &mut Tape| -> [[f32; 4]; 4] { std::array::from_fn(|_| std::array::from_fn(|_| if t.chance(1, 5) { 0.0 } else { t.range(-64, 64) as f32 / 8.0 })) };
    let (a, b) = (full(t), full(t));
    let v: [f32; 3] = std::array::from_fn(|_| t.range(-640, 640) as f32 / 8.0);
    c.hash = hash_bytes(format!("{a:?}{b:?}{v:?}").as_bytes());
    c.sample = Some(json!({"left": a, "right": b, "point": v}));
    let make = |m: [[f32; 4]; 4]| Matrix3D::new(m[0][0], m[0][1], m[0][2], m[0][3], m[1][0], m[1][1], m[1][2], m[1][3], m[2][0], m[2][1], m[2][2], m[2][3], m[3][0], m[3][1], m[3][2], m[3][3]);
    let wide = |m: [[f32; 4]; 4]| -> M { m.map(|r| r.map(|x| x as f64)) };
    let (ma, mb) = (make(a), make(b));
    ensure!(ma.m == a, "the entries of a matrix are {:?}, given were {a:?}", ma.m);
    let want = mul(&wide(a), &wide(b));
    ensure!(wide((ma * mb).m) == want && wide((&ma * &mb).m) == want, "the product is {:?} instead of {want:?}", (ma * mb).m);
    let p = Vertex3D::new(v[0], v[1], v[2]);
    let v64 = v.map(|x| x as f64);
    let (x, d) = (apply(&wide(a), v64, 1.0), apply(&wide(a), v64, 0.0));
    let w: f64 = (0..3).map(|k| v64[k] * a[k][3] as f64).sum::<f64>() + a[3][3] as f64;
    let got = ma.transform_vector(p);
    ensure!([got.x as f64, got.y as f64, got.z as f64] == d, "the direction is {got:?} instead of {d:?}");
    let got = ma.transform_normal(v[0], v[1], v[2]);
    ensure!([got.x as f64, got.y as f64, got.z as f64] == d, "the normal is {got:?} instead of {d:?}");
    if w != 0.0 {
        c.nontrivial = true;
        c.class_if(w < 0.0, "behind the eye");
        let got = ma.transform_vertex(p);
        let got = [got.x as f64, got.y as f64, got.z as f64];
        ensure!((0..3).all(|k| (got[k] - x[k] / w).abs() <= 1e-6 * (x[k] / w).abs()), "the point is {got:?} instead of {x:?} divided by {w}");
    }
    Ok(())
}

fn vectors(t: &mut Tape, c: &mut Case) -> Res {
    let mut g = |t: &mut Tape| -> [f32; 3] {
        let s = *t.pick(&[1e-3f32, 1.0, 30.0, 1000.0]);
        std::array::from_fn(|_| if t.chance(1, 6) { 0.0 } else { s * t.range(-1000, 1000) as f32 / 1000.0 })
    };
    let (a, b) = (g(t), g(t));
    let k = t.range(-400, 400) as f32 / 8.0;
    let deg = t.range(-7200, 7200) as f32 / 10.0;
    c.nontrivial = a != [0.0; 3] && b != [0.0; 3];
    c.hash = hash_bytes(format!("{a:?}{b:?}{k}{deg}").as_bytes());
    c.sample = Some(json!({"a": a, "b": b, "factor": k, "degrees": deg}));
    let f = |v: [f32; 3]| v.map(|x| x as f64);
    let (fa, fb) = (f(a), f(b));
    let v3 = |v: [f32; 3]| Vec3::new(v[0], v[1], v[2]);
    let a3 = |v: Vec3| [v.x as f64, v.y as f64, v.z as f64];
    let len = |v: [f64; 3]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    let close = |g: [f64; 3], w: [f64; 3], size: f64| (0..3).all(|i| (g[i] - w[i]).abs() <= 2e-6 * size + 1e-12);
    let (la, lb) = (len(fa), len(fb));
    ensure!(close(a3(v3(a) + v3(b)), std::array::from_fn(|i| fa[i] + fb[i]), la + lb), "sum");
    ensure!(close(a3(v3(a) - v3(b)), std::array::from_fn(|i| fa[i] - fb[i]), la + lb), "difference");
    ensure!(close(a3(v3(a) * k), fa.map(|x| x * k as f64), la * k.abs() as f64), "multiple");
    let cross = [fa[1] * fb[2] - fa[2] * fb[1], fa[2] * fb[0] - fa[0] * fb[2], fa[0] * fb[1] - fa[1] * fb[0]];
    ensure!(close(a3(Vec3::cross(&v3(a), &v3(b))), cross, la * lb), "cross product {:?} instead of {cross:?}", Vec3::cross(&v3(a), &v3(b)));
    let unit = if la == 0.0 { [0.0; 3] } else { fa.map(|x| x / la) };
    ensure!((v3(a).length() as f64 - la).abs() <= 1e-6 * la, "length {} instead of {la}", v3(a).length());
    ensure!(close(a3(v3(a).normalize()), unit, 1.0), "unit vector {:?} instead of {unit:?}", v3(a).normalize());
    let vx = Vertex3D::new(a[0], a[1], a[2]);
    let mut inplace = vx;
    inplace.normalize();
    ensure!(inplace == vx.normalized() && close([inplace.x as f64, inplace.y as f64, inplace.z as f64], unit, 1.0), "unit vertex {inplace:?} instead of {unit:?}");
    ensure!((vx.length() as f64 - la).abs() <= 1e-6 * la, "length {} instead of {la}", vx.length());
    // two dimensions
    let (p, q) = (Vec2::new(a[0], a[1]), Vec2::new(b[0], b[1]));
    let a2 = |v: Vec2| [v.x as f64, v.y as f64, 0.0];
    let l2 = (fa[0] * fa[0] + fa[1] * fa[1]).sqrt();
    ensure!(close(a2(p + q), [fa[0] + fb[0], fa[1] + fb[1], 0.0], la + lb) && close(a2(p - q), [fa[0] - fb[0], fa[1] - fb[1], 0.0], la + lb), "sum or difference in the plane");
    ensure!(close(a2(p * k), [fa[0] * k as f64, fa[1] * k as f64, 0.0], la * k.abs() as f64), "multiple in the plane");
    ensure!((p.length() as f64 - l2).abs() <= 1e-6 * l2, "length {} in the plane instead of {l2}", p.length());
    ensure!(close(a2(p.normalize()), if l2 == 0.0 { [0.0; 3] } else { [fa[0] / l2, fa[1] / l2, 0.0] }, 1.0), "unit vector in the plane");
    // turning around z
    let rad = deg.to_radians();
    let (s, co) = (rad as f64).sin_cos();
    let m = Mat3::rotate_z(rad);
    let w = [co * fa[0] - s * fa[1], s * fa[0] + co * fa[1], fa[2]];
    ensure!(close(a3(m.multiply_vector(v3(a))), w, la) && close(a3(m.multiply_vector_no_translate(v3(a))), w, la), "turned around z: {:?} instead of {w:?}", m.multiply_vector(v3(a)));
    let m4 = Matrix3D::rotate_z(rad).transform_vector(vx);
    ensure!(close([m4.x as f64, m4.y as f64, m4.z as f64], w, la), "the matrices around z disagree: {m4:?} and {w:?}");
    // around any axis
    if lb > 1e-6 {
        c.class("around an axis");
        let u = fb.map(|x| x / lb);
        let dot = u[0] * fa[0] + u[1] * fa[1] + u[2] * fa[2];
        let cr = [u[1] * fa[2] - u[2] * fa[1], u[2] * fa[0] - u[0] * fa[2], u[0] * fa[1] - u[1] * fa[0]];
        let (s, co) = (deg as f64).to_radians().sin_cos();
        let w: [f64; 3] = std::array::from_fn(|i| fa[i] * co + cr[i] * s + u[i] * dot * (1.0 - co));
        let got = a3(get_rotated_axis(deg, &v3(b), &v3(a)));
        ensure!(close(got, w, la * 3.0 + la * deg.abs() as f64 / 300.0), "turned by {deg} around {b:?}: {got:?} instead of {w:?}");
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("quantised", ctx.n(600000, 20000000), "all codes of a width and values in between; distinct by values", quantised);
    ctx.sub("colours", ctx.n(4000000, 60000000), "three different components; distinct by colour", colours);
    ctx.sub("units", ctx.n(4000000, 60000000), "a length that is not zero; distinct by lengths", units);
    ctx.sub("projections", ctx.n(300_000, 10_000_000), "a point that is projected; distinct by matrices and point", projections);
    ctx.sub("matrices", ctx.n(3000000, 60000000), "a product of at least two steps; distinct by steps and point", matrices);
    ctx.sub("vectors", ctx.n(3000000, 60000000), "two vectors that are not zero; distinct by vectors", vectors);
}
