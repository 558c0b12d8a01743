//! Scenarios for the geometric predicates and constructions and for lines in space.
//! Points are integers; the library sees them multiplied by a power of two (or, where the input is
//! said to be rounded, computed in double precision and rounded to single precision).
use crate::rt::*;
use kami::geometry::line::Line;
use kami::geometry::polygon as pg;
use kami::geometry::utils as ut;
use kami::glm::Vec2;
use kami::math::vector::Vector3;
use serde_json::{json, Map, Value};

type P = (i64, i64);
const SCALES: [f64; 6] = [1.0, 0.5, 0.015625, 64.0, 1024.0, 0.25];

struct Ctx {
    r: Rng,
    s: f64,
    t: usize,
}
impl Ctx {
    fn v(&self, p: P) -> Vec2 {
        Vec2::new((p.0 as f64 * self.s) as f32, (p.1 as f64 * self.s) as f32)
    }
    /// A result relative to the point o, in units of 1/k.
    fn rel(&self, x: &Vec2, o: P, k: f64) -> Value {
        let o = self.v(o);
        json!([
            fix((x.x as f64 - o.x as f64) / self.s, k),
            fix((x.y as f64 - o.y as f64) / self.s, k)
        ])
    }
    fn log(&mut self, op: &str, base: Value, f: impl FnOnce(&Ctx) -> Value) {
        let mut ev = json!({"op": op, "t": self.t, "k": "?"});
        let o = ev.as_object_mut().unwrap();
        o.extend(base.as_object().unwrap().clone());
        begin(&ev);
        let got = guard(|| f(self));
        let o = ev.as_object_mut().unwrap();
        o.insert("k".into(), json!(if got.is_some() { "ok" } else { "panic" }));
        if let Some(Value::Object(m)) = got {
            let m: Map<String, Value> = m;
            o.extend(m);
        }
        emit(&ev);
        self.t += 1;
    }
    fn scale(&mut self, pool: &[f64]) {
        self.s = if self.r.chance(50) { 1.0 } else { *self.r.pick(pool) };
    }
    fn pt(&mut self, w: i64) -> P {
        (self.r.int(-w, w), self.r.int(-w, w))
    }
}
fn list(v: &[P]) -> Value {
    json!(v.iter().map(|p| json!([p.0, p.1])).collect::<Vec<_>>())
}
fn mag(v: &[P]) -> i64 {
    v.iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(0)
}
fn grid(w: i64, h: i64) -> Vec<P> {
    (0..w).flat_map(|x| (0..h).map(move |y| (x, y))).collect()
}

// ---- S01 ---------------------------------------------------------------------------------------

fn pred3(c: &mut Ctx, a: [P; 3]) {
    c.log("pred3", json!({"a": list(&a)}), |c| {
        let (p, q, r) = (&c.v(a[0]), &c.v(a[1]), &c.v(a[2]));
        json!({"r": {"A": int_of(pg::area2(p, q, r) as f64 / (c.s * c.s)), "left": pg::left(p, q, r),
            "leftOn": pg::left_on(p, q, r), "col": pg::collinear(p, q, r), "btw": pg::between(p, q, r)}})
    });
}
fn pred4(c: &mut Ctx, a: [P; 4]) {
    c.log("pred4", json!({"a": list(&a)}), |c| {
        let (p, q, r, s) = (&c.v(a[0]), &c.v(a[1]), &c.v(a[2]), &c.v(a[3]));
        json!({"r": {"prop": pg::intersect_prop(p, q, r, s), "int": pg::intersect(p, q, r, s)}})
    });
}
/// Points related to earlier ones often enough for every degenerate position to occur.
fn related(c: &mut Ctx, v: &[P], w: i64) -> P {
    if v.is_empty() {
        return c.pt(w);
    }
    let (p, q) = (*c.r.pick(v), *c.r.pick(v));
    match c.r.int(0, 6) {
        0 if c.r.chance(40) => p,
        1 | 2 if p != q => {
            let k = c.r.int(-2, 3);
            (p.0 + k * (q.0 - p.0), p.1 + k * (q.1 - p.1))
        }
        3 if p != q && (q.0 - p.0) % 2 == 0 && (q.1 - p.1) % 2 == 0 => ((p.0 + q.0) / 2, (p.1 + q.1) / 2),
        4 => (p.0 + c.r.int(-1, 1), p.1 + c.r.int(-1, 1)),
        // parallel to the first two, or at a right angle to them
        5 if v.len() >= 3 => {
            let k = *c.r.pick(&[-2, -1, 1, 2]);
            let (dx, dy) = (v[1].0 - v[0].0, v[1].1 - v[0].1);
            let l = v[v.len() - 1];
            if c.r.chance(60) { (l.0 + k * dx, l.1 + k * dy) } else { (l.0 - k * dy, l.1 + k * dx) }
        }
        _ => c.pt(w),
    }
}
fn some_points(c: &mut Ctx, n: usize, w: i64) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    while v.len() < n {
        let q = related(c, &v, w);
        if q.0.abs() <= w && q.1.abs() <= w {
            v.push(q);
        }
    }
    if c.r.chance(40) {
        let k = c.r.int(0, n as i64 - 1) as usize;
        v.rotate_left(k);
    }
    v
}
/// A point almost, but not, on the line of a and b (large coordinates).
fn nearly(c: &mut Ctx, a: P, b: P) -> P {
    let k = c.r.int(-50, 150);
    (a.0 + (b.0 - a.0) * k / 100 + c.r.int(-1, 1), a.1 + (b.1 - a.1) * k / 100 + c.r.int(-1, 1))
}

fn s01(c: &mut Ctx, n: usize, exhaustive: i64) {
    let g = grid(exhaustive, 3);
    let g3 = grid(4, 4);
    for &p in &g3 {
        for &q in &g3 {
            for &r in &g3 {
                c.scale(&SCALES);
                pred3(c, [p, q, r]);
            }
        }
    }
    for &p in &g {
        for &q in &g {
            for &r in &g {
                for &s in &g {
                    pred4(c, [p, q, r, s]);
                }
            }
        }
    }
    for _ in 0..n {
        c.scale(&SCALES);
        let w = *c.r.pick(&[4, 30, 1000]);
        let v = some_points(c, 4, w);
        pred3(c, [v[0], v[1], v[2]]);
        pred4(c, [v[0], v[1], v[2], v[3]]);
        // coordinates whose products need more than 24 bits: only the decisions are judged
        let w = 7000;
        let (a, b) = (c.pt(w), c.pt(w));
        let (d, e) = (nearly(c, a, b), nearly(c, a, b));
        if mag(&[d, e]) <= 8000 {
            pred4(c, [a, b, d, e]);
            let f = c.pt(w);
            pred4(c, [a, b, d, f]);
            pred4(c, [f, d, b, a]);
        }
    }
}

// ---- S02 ---------------------------------------------------------------------------------------

type Cut = fn(&Vec2, &Vec2, &Vec2, &Vec2) -> Option<Vec2>;
fn cut(c: &mut Ctx, op: &str, f: Cut, a: &[P]) {
    let [p, q, r, s] = [a[0], a[1], a[2], a[3]];
    c.log(op, json!({"a": list(a), "mag": mag(a)}), |c| {
        let orders = [[p, q, r, s], [q, p, r, s], [p, q, s, r], [q, p, s, r], [r, s, p, q], [s, r, p, q], [r, s, q, p], [s, r, q, p]];
        let rs = orders
            .iter()
            .map(|o| match f(&c.v(o[0]), &c.v(o[1]), &c.v(o[2]), &c.v(o[3])) {
                None => json!([0, 0, 0]),
                Some(x) => {
                    let x = c.rel(&x, p, 1000.0);
                    json!([1, x[0], x[1]])
                }
            })
            .collect::<Vec<_>>();
        json!({"R": rs})
    });
}
fn s02(c: &mut Ctx, n: usize, side: i64) {
    let g = grid(side, 3);
    for &p in &g {
        for &q in &g {
            for &r in &g {
                for &s in &g {
                    // all eight orders are tried anyway
                    if p < q && r < s && (p, q) <= (r, s) {
                        c.scale(&SCALES);
                        cut(c, "seg", ut::calculate_line_segment_intersection, &[p, q, r, s]);
                        cut(c, "line", ut::calculate_line_intersection, &[p, q, r, s]);
                    }
                }
            }
        }
    }
    for _ in 0..n {
        c.scale(&[1.0, 0.5, 0.015625, 64.0, 1024.0, 9.5367431640625e-7, 1048576.0]);
        let w = *c.r.pick(&[3, 10, 30]);
        let mut v = some_points(c, 4, w);
        if v[0] == v[1] || v[2] == v[3] {
            continue;
        }
        if c.r.chance(30) {
            let o = c.pt(1000);
            v = v.iter().map(|p| (p.0 + o.0, p.1 + o.1)).collect();
        }
        cut(c, "seg", ut::calculate_line_segment_intersection, &v);
        cut(c, "line", ut::calculate_line_intersection, &v);
    }
}

// ---- S03 ---------------------------------------------------------------------------------------

fn s03(c: &mut Ctx, n: usize, _side: i64) {
    let g = grid(4, 4);
    for &p in &g {
        for &q in &g {
            for &r in &g {
                if p != q {
                    c.scale(&SCALES);
                    on(c, [p, q, r]);
                }
            }
        }
    }
    for i in 0..n {
        c.scale(&SCALES);
        let o = if c.r.chance(30) { c.pt(1000) } else { (0, 0) };
        let sh = |v: &[P]| v.iter().map(|p| (p.0 + o.0, p.1 + o.1)).collect::<Vec<P>>();
        let v = sh(&some_points(c, 3, 30));
        if v[0] != v[1] {
            on(c, [v[0], v[1], v[2]]);
        }
        // points at fractions of the way, rounded
        let e = sh(&[c.pt(30), c.pt(30)]);
        if e[0] != e[1] {
            let m = c.r.int(2, 16);
            let (k, j) = (c.r.int(-2, m + 2), if c.r.chance(60) { 0 } else { c.r.int(-3, 3) });
            c.log("frac", json!({"a": list(&e), "n": k, "m": m, "j": j}), |c| {
                let (dx, dy) = ((e[1].0 - e[0].0) as f64, (e[1].1 - e[0].1) as f64);
                let (k, m, j) = (k as f64, m as f64, j as f64);
                let p = Vec2::new(
                    ((e[0].0 as f64 + (dx * k - dy * j) / m) * c.s) as f32,
                    ((e[0].1 as f64 + (dy * k + dx * j) / m) * c.s) as f32,
                );
                let (a, b) = (c.v(e[0]), c.v(e[1]));
                json!({"incl": ut::is_on_line_segment(&a, &b, &p, true), "excl": ut::is_on_line_segment(&a, &b, &p, false)})
            });
        }
        let m = c.r.int(1, 8) as usize;
        let ps = some_points(c, m, 40);
        let t = related(c, &ps, 40);
        if t.0.abs().max(t.1.abs()) <= 80 {
            c.log("closest", json!({"a": list(&ps), "p": [t.0, t.1]}), |c| {
                let l = ps.iter().map(|p| c.v(*p)).collect::<Vec<_>>();
                let (i, d) = ut::find_closest_to(&c.v(t), &l);
                json!({"i": clamp_u(i), "dist": fix(d as f64 / c.s, 100.0)})
            });
        }
        // coincident up to the last bits
        let ulp = |x: f32, k: i64| if x == 0.0 || k == 0 { x } else { f32::from_bits((x.to_bits() as i64 + k) as u32) };
        let m = c.r.int(0, 9) as usize;
        let base = sh(&some_points(c, m.max(2), 6));
        let bits: Vec<(i64, i64)> = base.iter().map(|_| (c.r.int(-2, 2), c.r.int(-2, 2))).collect();
        let fl: Vec<Vec2> = base
            .iter()
            .zip(&bits)
            .map(|(p, b)| {
                let v = c.v(*p);
                Vec2::new(ulp(v.x, b.0), ulp(v.y, b.1))
            })
            .collect();
        c.log("close", json!({"a": list(&base[0..2])}), |_| json!({"r": ut::close_to(&fl[0], &fl[1])}));
        let m = if i % 50 == 0 { 0 } else { base.len() };
        c.log("unique", json!({"a": list(&base[0..m])}), |c| {
            let out = ut::unique_points_among(&fl[0..m].to_vec());
            let near = |x: f32| int_of((x as f64 / c.s * 1000.0).round() / 1000.0);
            json!({"out": out.iter().map(|p| json!([near(p.x), near(p.y)])).collect::<Vec<_>>()})
        });
    }
}
fn on(c: &mut Ctx, a: [P; 3]) {
    c.log("on", json!({"a": list(&a)}), |c| {
        let (p, q, r) = (&c.v(a[0]), &c.v(a[1]), &c.v(a[2]));
        json!({"incl": ut::is_on_line_segment(p, q, r, true), "excl": ut::is_on_line_segment(p, q, r, false)})
    });
}

// ---- S04 ---------------------------------------------------------------------------------------

fn s04(c: &mut Ctx, n: usize, side: i64) {
    let g = grid(side, 4);
    for &p in &g {
        for &q in &g {
            for &r in &g {
                c.scale(&SCALES);
                s04_one(c, [p, q, r, (0, 0)]);
            }
        }
    }
    for _ in 0..n {
        let small = 9.5367431640625e-7;
        c.scale(&[1.0, 0.5, 0.015625, 64.0, 1024.0, small, 1048576.0]);
        let w = *c.r.pick(&[2, 8, 15]);
        let mut v = some_points(c, 4, w);
        if c.r.chance(30) {
            let o = c.pt(1000);
            v = v.iter().map(|p| (p.0 + o.0, p.1 + o.1)).collect();
        }
        s04_one(c, [v[0], v[1], v[2], v[3]]);
    }
}
fn s04_one(c: &mut Ctx, a: [P; 4]) {
    let [p, q, r, s] = a;
    let m = mag(&a);
    c.log("incenter", json!({"a": list(&a[0..3]), "mag": m}), |c| {
        let (p1, q1, r1) = (&c.v(p), &c.v(q), &c.v(r));
        let deg = ut::is_degenerate_triangle(p1, q1, r1);
        match ut::calculate_triangle_incenter(p1, q1, r1) {
            None => json!({"found": "none", "x": [0, 0], "rad": 0, "deg": deg}),
            Some((x, rad)) => json!({"found": "some", "x": c.rel(&x, p, 1000.0), "rad": fix(rad as f64 / c.s, 1000.0), "deg": deg}),
        }
    });
    if p != q {
        c.log("mid", json!({"a": list(&a[0..2])}), |c| json!({"x": c.rel(&ut::calculate_midpoint(&c.v(p), &c.v(q)), p, 2.0)}));
        c.log("foot", json!({"a": list(&a[0..3]), "mag": m}), |c| {
            json!({"x": c.rel(&ut::calculate_perpendicular_point(&c.v(p), &c.v(q), &c.v(r)), p, 1000.0)})
        });
        let off = c.r.int(-20, 20);
        c.log("bisect", json!({"a": list(&a[0..2]), "mag": m, "off": off}), |c| {
            let (x, y) = ut::calculate_perpendicular_bisector(&c.v(p), &c.v(q), (off as f64 * c.s) as f32);
            json!({"x": c.rel(&x, p, 2.0), "e": [
                fix((y.x as f64 - x.x as f64) / c.s, 1000.0), fix((y.y as f64 - x.y as f64) / c.s, 1000.0)]})
        });
    }
    if p != q && r != s {
        c.log("parallel", json!({"a": list(&a)}), |c| json!({"r": ut::parallel(&c.v(p), &c.v(q), &c.v(r), &c.v(s))}));
    }
}

// ---- S05 ---------------------------------------------------------------------------------------

type Q = (i64, i64, i64);
fn s05(c: &mut Ctx, n: usize, _side: i64) {
    let v3 = |c: &Ctx, q: Q| Vector3::new((q.0 as f64 * c.s) as f32, (q.1 as f64 * c.s) as f32, (q.2 as f64 * c.s) as f32);
    let l3 = |q: Q| json!([q.0, q.1, q.2]);
    let mut dirs: Vec<Q> = vec![];
    for x in -1..=1 {
        for y in -1..=1 {
            for z in -1..=1 {
                dirs.push((x, y, z));
            }
        }
    }
    // every direction and every offset with components -1, 0, 1 (and -2, 2 for the offset)
    let zero = (0, 0, 0);
    for &u in dirs.iter().filter(|d| **d != zero) {
        for x in -2..=2 {
            for y in -2..=2 {
                for z in -2..=2 {
                    let p = (c.r.int(-3, 3), c.r.int(-3, 3), c.r.int(-3, 3));
                    let q = (p.0 + x, p.1 + y, p.2 + z);
                    c.scale(&SCALES);
                    c.log("contains", json!({"a": [l3(p), l3(u), l3(q)]}), |c| {
                        json!({"r": Line::new(&v3(c, p), &v3(c, u)).contains(&v3(c, q))})
                    });
                }
            }
        }
    }
    for _ in 0..n {
        c.scale(&[1.0, 0.5, 0.015625, 64.0, 1024.0, 9.5367431640625e-7, 1048576.0]);
        let w = *c.r.pick(&[2, 10, 100]);
        let tri = |c: &mut Ctx, w: i64| (c.r.int(-w, w), c.r.int(-w, w), c.r.int(-w, w));
        let p = tri(c, w);
        let wu = if c.r.chance(50) { 2 } else { 30 };
        let u = tri(c, wu);
        if u == zero {
            continue;
        }
        let k = c.r.int(-4, 4);
        let d = match c.r.int(0, 3) {
            0 => tri(c, w),
            1 => tri(c, 1),
            _ => zero,
        };
        let q = (p.0 + k * u.0 + d.0, p.1 + k * u.1 + d.1, p.2 + k * u.2 + d.2);
        c.log("contains", json!({"a": [l3(p), l3(u), l3(q)]}), |c| {
            json!({"r": Line::new(&v3(c, p), &v3(c, u)).contains(&v3(c, q))})
        });
        // the same line given with a direction of another length
        let f = *c.r.pick(&[0.001953125f32, 1024.0, -8.0, 1.0e-3, 3.3]);
        c.log("contains", json!({"a": [l3(p), l3(u), l3(q)], "factor": format!("{}", f)}), |c| {
            json!({"r": Line::new(&v3(c, p), &(v3(c, u) * f)).contains(&v3(c, q))})
        });
        // points at a fraction of the way, rounded; moved off the line along an axis on which the
        // direction is not the only nonzero one
        let (n7, m7) = (c.r.int(-40, 40), c.r.int(1, 16));
        let off = if c.r.chance(50) { 0 } else { 1 };
        let ax = if u.1 != 0 || u.2 != 0 { 0 } else { 1 };
        c.log("cfrac", json!({"a": [l3(p), l3(u)], "n": n7, "m": m7, "off": off}), |c| {
            let t = n7 as f64 / m7 as f64;
            let f = |a: i64, b: i64, i: i64| ((a as f64 + b as f64 * t + (if i == ax { off } else { 0 }) as f64) * c.s) as f32;
            let x = Vector3::new(f(p.0, u.0, 0), f(p.1, u.1, 1), f(p.2, u.2, 2));
            json!({"r": Line::new(&v3(c, p), &v3(c, u)).contains(&x)})
        });
    }
}

// ---- points of any position (judged by FineGeo) ---------------------------------------------------

/// Coordinates of up to 23 bits; the unit is a power of two.
fn far_pt(c: &mut Ctx, w: i64) -> P {
    (c.r.int(-w, w), c.r.int(-w, w))
}
fn along(p: P, q: P, k: i64, m: i64) -> P {
    let f = |a: i64, b: i64| a + (((b - a) * k) as f64 / m as f64).round() as i64;
    (f(p.0, q.0), f(p.1, q.1))
}
/// A displacement of roughly w / 2^k, in any direction or exactly one axis.
fn nudge(c: &mut Ctx, w: i64) -> P {
    let d = (w >> c.r.int(0, 16)).max(1);
    match c.r.int(0, 3) {
        0 => (d, 0),
        1 => (0, -d),
        _ => (c.r.int(-d, d), c.r.int(-d, d)),
    }
}
fn plus(p: P, q: P) -> P {
    (p.0 + q.0, p.1 + q.1)
}
fn minus(p: P, q: P) -> P {
    (p.0 - q.0, p.1 - q.1)
}
/// Four points, often almost on a line, almost parallel, almost the same.
fn far_points(c: &mut Ctx) -> (Vec<P>, i64) {
    let w = *c.r.pick(&[1 << 14, 1 << 18, 1 << 21]);
    let mut v: Vec<P> = vec![far_pt(c, w), far_pt(c, w)];
    if c.r.chance(15) {
        v[1] = if c.r.chance(50) { (v[1].0, v[0].1) } else { (v[0].0, v[1].1) };
    }
    while v.len() < 4 {
        let (p, q) = (*c.r.pick(&v), *c.r.pick(&v));
        let m = c.r.int(1, 12);
        let k = c.r.int(-4, m + 4);
        let q = match c.r.int(0, 5) {
            0 | 1 => {
                let d = if c.r.chance(50) { (0, 0) } else { nudge(c, w) };
                plus(along(p, q, k, m), d)
            }
            2 => plus(p, nudge(c, w)),
            // almost parallel, or almost at a right angle, to the first two
            3 if v.len() == 3 => {
                let d = minus(along(v[0], v[1], k, m), v[0]);
                let d = if c.r.chance(70) { d } else { (-d.1, d.0) };
                plus(plus(v[2], d), nudge(c, w))
            }
            _ => far_pt(c, w),
        };
        if q.0.abs() <= 2 * w && q.1.abs() <= 2 * w {
            v.push(q);
        }
    }
    if c.r.chance(30) {
        let k = c.r.int(1, 3) as usize;
        v.rotate_left(k);
    }
    (v, w)
}
/// A result relative to the point o, as limbs, in units.
fn rel_fine(c: &Ctx, x: &Vec2, o: P) -> [Vec<i64>; 2] {
    [fine(x.x as f64 / c.s - o.0 as f64, 0), fine(x.y as f64 / c.s - o.1 as f64, 0)]
}
fn fine_cut(c: &mut Ctx, op: &str, f: Cut, a: &[P]) {
    let [p, q, r, s] = [a[0], a[1], a[2], a[3]];
    c.log(op, json!({"a": list(a)}), |c| {
        let orders = [[p, q, r, s], [q, p, s, r], [r, s, p, q], [s, r, p, q]];
        let rs = orders
            .iter()
            .map(|o| match f(&c.v(o[0]), &c.v(o[1]), &c.v(o[2]), &c.v(o[3])) {
                None => json!([0, [0], [0]]),
                Some(x) => {
                    let x = rel_fine(c, &x, p);
                    json!([1, x[0], x[1]])
                }
            })
            .collect::<Vec<_>>();
        json!({"R": rs})
    });
}
/// Units of coordinates of up to 22 bits (23 for differences).
const UNITS: [f64; 5] = [1.52587890625e-5, 1.0, 9.765625e-4, 16.0, 3.725290298461914e-9];
fn fine_run(c: &mut Ctx, which: &str, n: usize) {
    for _ in 0..n {
        // points are multiples of 16, so that results are recorded in 16ths of their unit
        c.s = *c.r.pick(&UNITS[..if which == "s03" { 4 } else { 5 }]) / 16.0;
        let g = |p: P| (16 * p.0, 16 * p.1);
        let (v, w) = far_points(c);
        let mut v: Vec<P> = v.into_iter().map(g).collect();
        let mut sized = true;
        if which == "s01" && c.r.chance(50) {
            // all 24 bits (exactly on a line becomes almost, mostly)
            let m = if c.r.chance(80) { 3 } else { 0 };
            for p in v.iter_mut() {
                let f = |x: i64, d: i64| (x / 4 + d).max(-(1 << 24)).min(1 << 24);
                *p = (f(p.0, c.r.int(0, m)), f(p.1, c.r.int(0, m)));
            }
            // (the area, a single precision number itself, is recorded in all but extreme units)
            sized = c.r.chance(60);
            if !sized {
                c.s = 2f64.powi(*c.r.pick(&[-120, -100, -75, -45, 40, 70, 90]));
            }
        }
        let [p, q, r, s] = [v[0], v[1], v[2], v[3]];
        match which {
            "s01" => {
                c.log("fpred3", json!({"a": list(&v[..3])}), |c| {
                    let (p, q, r) = (&c.v(p), &c.v(q), &c.v(r));
                    let area = pg::area2(p, q, r);
                    json!({"r": {"A": if sized { fine(area as f64 / (c.s * c.s), 0) } else { vec![0] }, "sized": sized, "left": pg::left(p, q, r),
                        "leftOn": pg::left_on(p, q, r), "col": pg::collinear(p, q, r), "btw": pg::between(p, q, r)}})
                });
                c.log("fpred4", json!({"a": list(&v)}), |c| {
                    let (p, q, r, s) = (&c.v(p), &c.v(q), &c.v(r), &c.v(s));
                    json!({"r": {"prop": pg::intersect_prop(p, q, r, s), "int": pg::intersect(p, q, r, s)}})
                });
            }
            "s02" if p != q && r != s => {
                fine_cut(c, "fseg", ut::calculate_line_segment_intersection, &v);
                fine_cut(c, "fline", ut::calculate_line_intersection, &v);
            }
            "s03" => {
                if p != q {
                    c.log("fon", json!({"a": list(&v[..3])}), |c| {
                        let (p, q, r) = (&c.v(p), &c.v(q), &c.v(r));
                        json!({"incl": ut::is_on_line_segment(p, q, r, true), "excl": ut::is_on_line_segment(p, q, r, false)})
                    });
                }
                let mut ps = vec![q, r];
                for _ in 0..c.r.int(0, 6) {
                    // almost as far away as another one
                    let o = minus(*c.r.pick(&ps), p);
                    let o = *c.r.pick(&[o, (-o.0, o.1), (o.1, o.0), (-o.1, -o.0)]);
                    let d = g(nudge(c, w));
                    ps.push(plus(p, if c.r.chance(50) { o } else { plus(o, d) }));
                }
                c.log("fclosest", json!({"a": list(&ps), "p": [p.0, p.1]}), |c| {
                    let l = ps.iter().map(|p| c.v(*p)).collect::<Vec<_>>();
                    let (i, d) = ut::find_closest_to(&c.v(p), &l);
                    json!({"i": clamp_u(i), "dist": fine(d as f64 / c.s, 0)})
                });
                c.log("fclose", json!({"a": list(&v[2..4])}), |c| json!({"r": ut::close_to(&c.v(r), &c.v(s))}));
                c.log("funique", json!({"a": list(&ps)}), |c| {
                    json!({"n": ut::unique_points_among(&ps.iter().map(|p| c.v(*p)).collect()).len()})
                });
            }
            "s04" => {
                c.log("fincenter", json!({"a": list(&v[..3])}), |c| {
                    let (p1, q1, r1) = (&c.v(p), &c.v(q), &c.v(r));
                    let deg = ut::is_degenerate_triangle(p1, q1, r1);
                    match ut::calculate_triangle_incenter(p1, q1, r1) {
                        None => json!({"found": "none", "x": [[0], [0]], "rad": [0], "deg": deg}),
                        Some((x, rad)) => json!({"found": "some", "x": rel_fine(c, &x, p), "rad": fine(rad as f64 / c.s, 0), "deg": deg}),
                    }
                });
                if p != q {
                    c.log("fmid", json!({"a": list(&v[..2])}), |c| json!({"x": rel_fine(c, &ut::calculate_midpoint(&c.v(p), &c.v(q)), p)}));
                    c.log("ffoot", json!({"a": list(&v[..3])}), |c| {
                        json!({"x": rel_fine(c, &ut::calculate_perpendicular_point(&c.v(p), &c.v(q), &c.v(r)), p)})
                    });
                    let off = 16 * nudge(c, 2 * w).0;
                    c.log("fbisect", json!({"a": list(&v[..2]), "off": off}), |c| {
                        let (x, y) = ut::calculate_perpendicular_bisector(&c.v(p), &c.v(q), (off as f64 * c.s) as f32);
                        let e = |a: f32, b: f32| fine((b as f64 - a as f64) / c.s, 0);
                        json!({"x": rel_fine(c, &x, p), "e": [e(x.x, y.x), e(x.y, y.y)]})
                    });
                    if r != s {
                        c.log("fparallel", json!({"a": list(&v)}), |c| {
                            json!({"r": ut::parallel(&c.v(p), &c.v(q), &c.v(r), &c.v(s))})
                        });
                    }
                }
            }
            "s05" => {
                let z = [16 * c.r.int(-w, w), 16 * c.r.int(-w, w)];
                let u = [q.0 - p.0, q.1 - p.1, if c.r.chance(20) { 0 } else { z[0] }];
                if u == [0, 0, 0] {
                    continue;
                }
                let m = c.r.int(1, 12);
                let k = c.r.int(-6, 6);
                let b = [p.0, p.1, z[1]];
                let (d1, d2) = (g(nudge(c, w)), g(nudge(c, w)));
                let d = *c.r.pick(&[[0, 0, d1.0], [d1.0, d1.1, 0], [d1.0, d1.1, d2.0], [d1.0, d2.1, d2.0]]);
                let x: Vec<i64> = (0..3).map(|i| b[i] + 16 * ((u[i] * k) as f64 / (16 * m) as f64).round() as i64 + d[i]).collect();
                if x.iter().any(|y| y.abs() > 1 << 27) {
                    continue;
                }
                c.log("fcontains", json!({"a": [b, u, [x[0], x[1], x[2]]]}), |c| {
                    let f = |q: &[i64]| Vector3::new((q[0] as f64 * c.s) as f32, (q[1] as f64 * c.s) as f32, (q[2] as f64 * c.s) as f32);
                    json!({"r": Line::new(&f(&b), &f(&u)).contains(&f(&x))})
                });
            }
            _ => {}
        }
    }
}

pub fn run(which: &str, seed: u64, n: usize, side: i64) {
    let mut c = Ctx { r: Rng::new(seed ^ 0x5151), s: 1.0, t: 0 };
    if let Some(w) = which.strip_prefix("fine-") {
        return fine_run(&mut c, w, n);
    }
    match which {
        "s01" => s01(&mut c, n, side),
        "s02" => s02(&mut c, n, side),
        "s03" => s03(&mut c, n, side),
        "s04" => s04(&mut c, n, side),
        _ => s05(&mut c, n, side),
    }
}
