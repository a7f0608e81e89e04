//! Reference for smoothed outlines: non-uniform Catmull-Rom segments in double precision,
//! split in halves until the triangle of ends and middle is small.

pub struct Seg<const D: usize> {
    /// coefficients of 1, t, t^2, t^3
    pub c: [[f64; D]; 4],
    /// how far a single precision evaluation may be off
    pub tol: f64,
    /// number of the control point at its start
    pub from: usize,
}
impl<const D: usize> Seg<D> {
    pub fn at(&self, t: f64) -> [f64; D] {
        std::array::from_fn(|k| self.c[0][k] + t * (self.c[1][k] + t * (self.c[2][k] + t * self.c[3][k])))
    }
}
pub fn sub<const D: usize>(a: [f64; D], b: [f64; D]) -> [f64; D] {
    std::array::from_fn(|k| a[k] - b[k])
}
pub fn len<const D: usize>(a: [f64; D]) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}
pub fn dist<const D: usize>(a: [f64; D], b: [f64; D]) -> f64 {
    len(sub(a, b))
}
/// Twice the area of the triangle a, m, b.
fn area<const D: usize>(a: [f64; D], b: [f64; D], m: [f64; D]) -> f64 {
    let (u, v) = (sub(m, a), sub(b, a));
    let mut s = 0.0;
    for i in 0..D {
        for j in i + 1..D {
            s += (u[i] * v[j] - u[j] * v[i]).powi(2);
        }
    }
    s.sqrt()
}

/// The segments between control points. Coinciding neighbours have none between them.
pub fn segments<const D: usize>(p: &[[f64; D]], smooth: &[bool], closed: bool) -> Vec<Seg<D>> {
    let n = p.len();
    let mut o = vec![];
    if n < 2 {
        return o;
    }
    for i in 0..if closed { n } else { n - 1 } {
        let j = (i + 1) % n;
        if (0..D).all(|k| (p[i][k] - p[j][k]).abs() < 1e-6) {
            continue;
        }
        let prev = if !smooth[i] || (!closed && i == 0) { i } else { (i + n - 1) % n };
        let next = if !smooth[j] || (!closed && j == n - 1) { j } else { (j + 1) % n };
        let (a, b, c, d) = (p[prev], p[i], p[j], p[next]);
        let mut t = [dist(a, b), dist(b, c), dist(c, d)].map(f64::sqrt);
        if t[1] < 1e-4 {
            t[1] = 1.0;
        }
        for k in [0, 2] {
            if t[k] < 1e-4 {
                t[k] = t[1];
            }
        }
        let m1: [f64; D] = std::array::from_fn(|k| t[1] * ((b[k] - a[k]) / t[0] - (c[k] - a[k]) / (t[0] + t[1]) + (c[k] - b[k]) / t[1]));
        let m2: [f64; D] = std::array::from_fn(|k| t[1] * ((c[k] - b[k]) / t[1] - (d[k] - b[k]) / (t[1] + t[2]) + (d[k] - c[k]) / t[2]));
        let c2: [f64; D] = std::array::from_fn(|k| 3.0 * (c[k] - b[k]) - 2.0 * m1[k] - m2[k]);
        let c3: [f64; D] = std::array::from_fn(|k| 2.0 * (b[k] - c[k]) + m1[k] + m2[k]);
        let big = |x: &[f64; D]| x.iter().fold(0f64, |m, y| m.max(y.abs()));
        let scale = [&a, &b, &c, &d].iter().map(|x| big(x)).fold(0.0, f64::max);
        let ratio = (t[1] / t[0]).max(t[1] / t[2]).max(1.0);
        let tol = 6e-7 * (scale * (4.0 + 2.0 * ratio) + big(&m1) + big(&m2)) + 1e-6;
        o.push(Seg { c: [b, m1, c2, c3], tol, from: i });
    }
    o
}

struct Matcher<'a, const D: usize> {
    out: &'a [[f64; D]],
    /// threshold of the squared double area
    accuracy: f64,
    budget: usize,
}
impl<const D: usize> Matcher<'_, D> {
    /// The ends of the parts of the output that are this piece of the curve, by their starts.
    /// There may be several where rounding decides about another point.
    fn piece(&mut self, s: &Seg<D>, t1: f64, t2: f64, from: &[usize]) -> Vec<usize> {
        self.budget = self.budget.saturating_sub(from.len().max(1));
        let a = s.at(t1);
        let from: Vec<usize> = from.iter().copied().filter(|p| self.out.get(*p).is_some_and(|x| dist(*x, a) <= s.tol)).collect();
        if from.is_empty() || self.budget == 0 {
            return vec![];
        }
        let tm = (t1 + t2) / 2.0;
        let (b, m) = (s.at(t2), s.at(tm));
        let d = area(a, b, m);
        let l = dist(a, b) + dist(a, m) + s.tol;
        let e = 2.0 * l * s.tol + d * 1e-5;
        let thr = self.accuracy.sqrt();
        let last = t2 - t1 <= 1.0 / 65536.0;
        let mut ends = vec![];
        if !last && d + e >= thr {
            let mid = self.piece(s, t1, tm, &from);
            ends = self.piece(s, tm, t2, &mid);
        }
        if last || d - e < thr {
            ends.extend(from.iter().map(|p| p + 1));
            ends.sort_unstable();
            ends.dedup();
        }
        ends
    }
    /// Whether the output is this curve.
    fn matches(&mut self, segs: &[Seg<D>]) -> Result<(), String> {
        let mut pos = vec![0];
        for s in segs {
            let next = self.piece(s, 0.0, 1.0, &pos);
            if self.budget == 0 {
                return Ok(());
            }
            if next.is_empty() {
                let p = pos[0];
                return Err(format!("the outline of {} points does not follow the curve after control point {} (output from number {p}: {:?}, start of the segment {:?})", self.out.len(), s.from, &self.out[p.min(self.out.len())..(p + 3).min(self.out.len())], s.c[0]));
            }
            pos = next;
        }
        if !pos.contains(&self.out.len()) {
            return Err(format!("an outline of {} points where the curve has {:?}", self.out.len(), pos));
        }
        Ok(())
    }
}
/// Matches an outline with the curve of control points; a closed one does not repeat its start,
/// an open one ends with the last control point. 
pub fn follow<const D: usize>(out: &[[f64; D]], p: &[[f64; D]], smooth: &[bool], closed: bool, accuracy: f64) -> Result<(), String> {
    follow_within(out, p, smooth, closed, accuracy, 0.0)
}
/// The same with a tolerance on top of that of the computation.
pub fn follow_within<const D: usize>(out: &[[f64; D]], p: &[[f64; D]], smooth: &[bool], closed: bool, accuracy: f64, extra: f64) -> Result<(), String> {
    let mut segs = segments(p, smooth, closed);
    for s in segs.iter_mut() {
        s.tol += extra;
    }
    let mut body = out;
    if !closed {
        let Some((l, rest)) = out.split_last() else { return Err("an empty outline".into()) };
        let want = *p.last().unwrap();
        let tol = extra + 1e-6 * want.iter().fold(1.0, |m: f64, x| m.max(x.abs()));
        if dist(*l, want) > tol {
            return Err(format!("the outline ends at {l:?} instead of {want:?}"));
        }
        body = rest;
    }
    let mut m = Matcher { out: body, accuracy, budget: 20_000_000 };
    m.matches(&segs)
}
