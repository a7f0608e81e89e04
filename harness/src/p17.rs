//! P17: smoothed outlines.

use crate::curve::*;
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use serde_json::json;
use vpin::vpx::gameitem::dragpoint::DragPoint;
use vpin::vpx::mesh::smooth_drag_points_2d;

pub type Pt = [f64; 2];

/// Control points of an outline, exactly representable in single precision.
pub fn gen_points(t: &mut Tape, c: &mut Case) -> Vec<Pt> {
    let n = match t.below(6) {
        0 => 2,
        1 => 3,
        2 => t.usize(8, 40),
        _ => t.usize(3, 10),
    };
    let f = |x: f64| x as f32 as f64;
    let (cx, cy) = (t.range(-200, 1200) as f64, t.range(-200, 2400) as f64);
    let r = *t.pick(&[0.5, 5.0, 40.0, 300.0, 900.0]);
    let mut p: Vec<Pt> = match t.below(5) {
        // around a centre
        0 | 1 => {
            c.class("around a centre");
            let wob = t.range(0, 60) as f64 / 100.0;
            (0..n)
                .map(|i| {
                    let a = (i as f64 + t.range(0, 60) as f64 / 100.0) / n as f64 * std::f64::consts::TAU;
                    let rr = r * (1.0 - wob * t.range(0, 100) as f64 / 100.0);
                    [f(cx + rr * a.cos()), f(cy + rr * a.sin())]
                })
                .collect()
        }
        // grid points, often in line
        2 => {
            c.class("on a grid");
            (0..n).map(|_| [f(cx + t.range(-4, 4) as f64 * r / 4.0), f(cy + t.range(-4, 4) as f64 * r / 4.0)]).collect()
        }
        // a walk
        3 => {
            c.class("walk");
            let mut at = [cx, cy];
            (0..n)
                .map(|_| {
                    at = [at[0] + r * t.range(-100, 100) as f64 / 100.0, at[1] + r * t.range(-100, 100) as f64 / 100.0];
                    [f(at[0]), f(at[1])]
                })
                .collect()
        }
        _ => {
            c.class("anywhere");
            (0..n).map(|_| [f(t.range(-300000, 300000) as f64 / 100.0), f(t.range(-300000, 300000) as f64 / 100.0)]).collect()
        }
    };
    if t.chance(1, 8) {
        c.class("coinciding points");
        let k = t.usize(0, n - 1);
        let q = p[k];
        p.insert(k, q);
        if t.chance(1, 3) {
            p.push(p[0]);
        }
    }
    if t.chance(1, 12) {
        c.class("nearly coinciding points");
        let k = t.usize(0, p.len() - 1);
        let q = [f(p[k][0] + 0.001), p[k][1]];
        p.insert(k, q);
    }
    p
}
fn gen_smooth(t: &mut Tape, n: usize) -> Vec<bool> {
    match t.below(4) {
        0 => vec![true; n],
        1 => vec![false; n],
        _ => (0..n).map(|_| t.bool()).collect(),
    }
}
fn gen_accuracy(t: &mut Tape) -> f32 {
    match t.below(4) {
        0 => *t.pick(&[0.01f32, 0.5, 1.0, 40.0, 400.0, 1e5, 1.8e7]),
        1 => t.range(1, 100000) as f32 / 100.0,
        _ => 4.0,
    }
}
fn run_lib(p: &[Pt], smooth: &[bool], accuracy: f32, closed: bool) -> Vec<Pt> {
    let d: Vec<DragPoint> = p.iter().zip(smooth).map(|(q, s)| DragPoint { x: q[0] as f32, y: q[1] as f32, smooth: *s, ..Default::default() }).collect();
    smooth_drag_points_2d(&d, accuracy, closed).into_iter().map(|(x, y)| [x as f64, y as f64]).collect()
}
/// The control points appear in order.
fn visits(out: &[Pt], p: &[Pt], closed: bool) -> Res {
    let mut pos = 0;
    for (i, q) in p.iter().enumerate() {
        let prev = if i > 0 { Some(p[i - 1]) } else if closed { p.last().copied() } else { None };
        // coinciding control points are visited together
        if i > 0 && prev.is_some_and(|x| (0..2).all(|k| (x[k] - q[k]).abs() < 1e-6)) {
            continue;
        }
        match out[pos..].iter().position(|x| dist(*x, *q) < 2e-6) {
            Some(k) => pos += k + 1,
            // the last point of a closed outline may coincide with the first
            None if closed && p[i..].iter().all(|q| dist(*q, p[0]) < 2e-6) => {}
            None => return Err(format!("control point {i} {q:?} is not visited in order")),
        }
    }
    Ok(())
}
fn describe(p: &[Pt], s: &[bool], acc: f32, closed: bool) -> serde_json::Value {
    json!({"points": p.iter().zip(s).map(|(q, s)| format!("{:.2},{:.2}{}", q[0], q[1], if *s { " smooth" } else { "" })).collect::<Vec<_>>(), "accuracy": acc, "closed": closed})
}
fn all_same(p: &[Pt]) -> bool {
    p.windows(2).all(|w| (0..2).all(|k| (w[0][k] - w[1][k]).abs() < 1e-6))
}

fn outline(t: &mut Tape, c: &mut Case) -> Res {
    let p = gen_points(t, c);
    let s = gen_smooth(t, p.len());
    let acc = gen_accuracy(t);
    let closed = t.bool();
    c.hash = crate::tape::hash_bytes(format!("{p:?}{s:?}{acc}{closed}").as_bytes());
    c.sample = Some(describe(&p, &s, acc, closed));
    c.class(if closed { "closed" } else { "open" });
    if all_same(&p) {
        c.exclude("all points coincide");
        return Ok(());
    }
    let out = run_lib(&p, &s, acc, closed);
    ensure!(out.iter().all(|x| x[0].is_finite() && x[1].is_finite()), "the outline is not finite");
    visits(&out, &p, closed).map_err(|e| format!("{e}; outline {:?}", &out[..out.len().min(12)]))?;
    follow(&out, &p, &s, closed, acc as f64)?;
    // straight corners are joined by straight lines
    if s.iter().all(|x| !x) {
        let distinct = segments(&p, &s, closed).len() + if closed { 0 } else { 1 };
        // (rounding may make the middle of a long line look off it)
        let longest = p.iter().zip(p.iter().skip(1).chain(&p[..1])).map(|(a, b)| dist(*a, *b)).fold(0.0, f64::max);
        let far = p.iter().flatten().fold(1.0, |m: f64, x| m.max(x.abs()));
        ensure!(out.len() == distinct || out.len() > distinct && longest * far * 4e-6 > (acc as f64).sqrt(), "{} corners became {} points", distinct, out.len());
    } else {
        c.nontrivial = out.len() > p.len();
    }
    // finer accuracy never gives fewer points
    let finer = acc / *t.pick(&[1.5f32, 4.0, 100.0]);
    let more = run_lib(&p, &s, finer, closed);
    ensure!(more.len() >= out.len(), "accuracy {finer} gives {} points, {acc} gives {}", more.len(), out.len());
    Ok(())
}

/// Moving, scaling, turning, mirroring, reversing and renumbering the points.
fn relations(t: &mut Tape, c: &mut Case) -> Res {
    let p = gen_points(t, c);
    let s = gen_smooth(t, p.len());
    let acc = gen_accuracy(t);
    let closed = t.bool();
    if all_same(&p) {
        c.exclude("all points coincide");
        return Ok(());
    }
    let n = p.len();
    let r32 = |q: Pt| [q[0] as f32 as f64, q[1] as f32 as f64];
    let (mut q, mut qs, mut qa) = (p.clone(), s.clone(), acc);
    let what = t.below(if closed { 6 } else { 5 });
    match what {
        0 => {
            c.class("moved");
            let d = [t.range(-500, 500) as f64, t.range(-500, 500) as f64];
            q = p.iter().map(|x| r32([x[0] + d[0], x[1] + d[1]])).collect();
        }
        1 => {
            c.class("scaled");
            let k = *t.pick(&[0.5, 2.0, 0.25]);
            q = p.iter().map(|x| [x[0] * k, x[1] * k]).collect();
            qa = (acc as f64 * k.powi(4)) as f32;
        }
        2 => {
            c.class("turned");
            q = p.iter().map(|x| [-x[1], x[0]]).collect();
        }
        3 => {
            c.class("mirrored");
            q = p.iter().map(|x| [-x[0], x[1]]).collect();
        }
        4 => {
            c.class("reversed");
            q.reverse();
            qs.reverse();
        }
        _ => {
            c.class("renumbered");
            let k = t.usize(1, n - 1);
            q.rotate_left(k);
            qs.rotate_left(k);
        }
    }
    c.hash = crate::tape::hash_bytes(format!("{p:?}{s:?}{acc}{closed}{what}").as_bytes());
    c.sample = Some(json!({"from": describe(&p, &s, acc, closed), "change": what}));
    let a = run_lib(&p, &s, acc, closed);
    let b = run_lib(&q, &qs, qa, closed);
    c.nontrivial = a.len() > n;
    // both follow the curve of the changed points, and the same curve changed
    follow(&b, &q, &qs, closed, qa as f64)?;
    // turning and mirroring only changes signs and the order of coordinates
    if what == 2 || what == 3 {
        ensure!(a.len() == b.len(), "{} points became {}", a.len(), b.len());
        for (x, y) in a.iter().zip(&b) {
            let w = if what == 2 { [-x[1], x[0]] } else { [-x[0], x[1]] };
            ensure!(dist(w, *y) < 1e-3 * (1.0 + len(w) * 1e-3), "a point at {y:?}, expected {w:?}");
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("outline", ctx.n(600000, 30000000), "outlines with points added between control points; distinct by points", outline);
    ctx.sub("relations", ctx.n(600000, 30000000), "outlines with points added between control points; distinct by points and change", relations);
}
