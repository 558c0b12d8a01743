//! Scenarios for polygons: orientation, area, center, diagonals, triangulation, transforms.
//! Polygons are given by integer vertices; the library sees them multiplied by a power of two.
use crate::rt::*;
use kami::geometry::polygon::Polygon;
use kami::glm::Vec2;
use serde_json::{json, Value};

pub type P = (i64, i64);

const SCALES: [f32; 7] = [1.0, 0.5, 0.015625, 64.0, 1024.0, 0.25, 9.5367431640625e-7];

fn vecs(v: &[P], s: f32) -> Vec<Vec2> {
    v.iter().map(|p| Vec2::new(p.0 as f32 * s, p.1 as f32 * s)).collect()
}
fn back(p: &Vec2, s: f32) -> P {
    (int_of(p.x as f64 / s as f64), int_of(p.y as f64 / s as f64))
}
fn pts(v: &[P]) -> Value {
    json!(v.iter().map(|p| json!([p.0, p.1])).collect::<Vec<_>>())
}
fn verts(p: &Polygon, s: f32) -> Value {
    pts(&p.get_vertices().iter().map(|q| back(q, s)).collect::<Vec<_>>())
}

// ---- random simple polygons (only the inputs are made here; the specification checks that they
// are simple) ------------------------------------------------------------------------------------

fn cross(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}
fn on(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}
fn meet(a: P, b: P, c: P, d: P) -> bool {
    let s = |x: i64| x.signum();
    (s(cross(a, b, c)) * s(cross(a, b, d)) < 0 && s(cross(c, d, a)) * s(cross(c, d, b)) < 0)
        || on(a, b, c)
        || on(a, b, d)
        || on(c, d, a)
        || on(c, d, b)
}
/// Whether q may be inserted into the simple polygon v after position i.
fn insertable(v: &[P], i: usize, q: P) -> bool {
    let n = v.len();
    let (a, b) = (v[i], v[(i + 1) % n]);
    if v.contains(&q) {
        return false;
    }
    let (p, f) = (v[(i + n - 1) % n], v[(i + 2) % n]);
    if on(a, q, p) || on(p, a, q) || on(q, b, f) || on(b, f, q) || on(a, q, b) || on(q, b, a) {
        return false;
    }
    for k in 0..n {
        if k == i {
            continue;
        }
        let (c, d) = (v[k], v[(k + 1) % n]);
        if d != a && meet(c, d, a, q) && c != b {
            return false;
        }
        if c == b && meet(c, d, a, q) {
            return false;
        }
        if c != b && meet(c, d, q, b) && d != a {
            return false;
        }
        if d == a && meet(c, d, q, b) {
            return false;
        }
    }
    true
}
fn area2(v: &[P]) -> i64 {
    (1..v.len() - 1).map(|i| cross(v[0], v[i], v[i + 1])).sum()
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
/// A point between a and b that is as close to their line as a lattice point can be (times m).
fn beside(a: P, b: P, m: i64) -> P {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    // x * dx' + y * dy' = 1
    let (mut r0, mut r1, mut s0, mut s1, mut t0, mut t1) = (dx, dy, 1, 0, 0, 1);
    while r1 != 0 {
        let q = r0.div_euclid(r1);
        (r0, r1) = (r1, r0 - q * r1);
        (s0, s1) = (s1, s0 - q * s1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    let g = r0;
    let (px, py, ex, ey) = (-t0 * m, s0 * m, dx / g, dy / g);
    // shift it along the side until it lies between the ends
    let k = if ex.abs() >= ey.abs() { -(px.div_euclid(ex)) } else { -(py.div_euclid(ey)) };
    (a.0 + px + k * ex, a.1 + py + k * ey)
}
fn grow(r: &mut Rng, n: usize, w: i64, flat: i64) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    while v.len() < 3 || cross(v[0], v[1], v[2]) == 0 {
        v = (0..3).map(|_| (r.int(0, w), r.int(0, w))).collect();
    }
    let mut tries = 0;
    while v.len() < n && tries < 40 * n {
        tries += 1;
        let i = r.int(0, v.len() as i64 - 1) as usize;
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        if r.chance(flat) {
            // a vertex in the middle of a straight side
            let g = gcd(b.0 - a.0, b.1 - a.1);
            if g > 1 {
                let k = r.int(1, g - 1);
                v.insert(i + 1, (a.0 + (b.0 - a.0) / g * k, a.1 + (b.1 - a.1) / g * k));
            }
            continue;
        }
        let q = match r.int(0, 4) {
            0 | 1 => (r.int(0, w), r.int(0, w)),
            // on the line of a side, or near another vertex
            2 => {
                let k = r.int(0, v.len() as i64 - 1) as usize;
                let (c, d) = (v[k], v[(k + 1) % v.len()]);
                let g = gcd(d.0 - c.0, d.1 - c.1);
                let m = r.int(-3, 6);
                (d.0 + (d.0 - c.0) / g * m, d.1 + (d.1 - c.1) / g * m)
            }
            3 => {
                let c = *r.pick(&v);
                (c.0 + r.int(-2, 2), c.1 + r.int(-2, 2))
            }
            _ => {
                let c = *r.pick(&v);
                if r.chance(50) { (c.0, r.int(0, w)) } else { (r.int(0, w), c.1) }
            }
        };
        if q.0 < 0 || q.1 < 0 || q.0 > w || q.1 > w {
            continue;
        }
        if insertable(&v, i, q) {
            v.insert(i + 1, q);
        }
    }
    v
}
/// Points sorted around a center.
fn star(r: &mut Rng, n: usize, w: i64) -> Vec<P> {
    let c = (w / 2, w / 2);
    let mut v: Vec<P> = vec![];
    for _ in 0..200 {
        if v.len() >= n {
            break;
        }
        let q = (r.int(0, w), r.int(0, w));
        let dir = |p: P| {
            let g = gcd(p.0 - c.0, p.1 - c.1);
            ((p.0 - c.0) / g, (p.1 - c.1) / g)
        };
        if q == c || v.iter().any(|p| dir(*p) == dir(q)) {
            continue;
        }
        v.push(q);
    }
    v.sort_by(|a, b| {
        let f = |p: &P| ((p.1 - c.1) as f64).atan2((p.0 - c.0) as f64);
        f(a).partial_cmp(&f(b)).unwrap()
    });
    v
}
/// A comb: teeth with straight gaps; many collinear vertices.
fn comb(r: &mut Rng, teeth: i64, shear: i64) -> Vec<P> {
    let mut v = vec![(0, 0), (4 * teeth, 0)];
    for k in (0..teeth).rev() {
        let h = r.int(2, 9);
        v.push((4 * k + 3, h));
        if r.chance(50) {
            v.push((4 * k + 1, h));
        }
        if k > 0 {
            v.push((4 * k, 1));
        }
    }
    v.iter().map(|p| (p.0 + shear * p.1, p.1)).collect()
}
/// A spiral corridor of width 1.
fn spiral(turns: i64) -> Vec<P> {
    let l = 4 * turns + 1;
    let mut path = vec![(0, 0)];
    for t in 0..turns {
        if t > 0 {
            path.push((2 * (t - 1), 2 * t));
        }
        path.extend([(l - 2 * t, 2 * t), (l - 2 * t, l - 2 * t), (2 * t, l - 2 * t)]);
    }
    let left = |i: usize| {
        let d = ((path[i + 1].0 - path[i].0).signum(), (path[i + 1].1 - path[i].1).signum());
        (-d.1, d.0)
    };
    let m = path.len();
    let mut inner: Vec<P> = (0..m)
        .map(|i| {
            let a = if i > 0 { left(i - 1) } else { (0, 0) };
            let b = if i + 1 < m { left(i) } else { (0, 0) };
            (path[i].0 + a.0 + b.0, path[i].1 + a.1 + b.1)
        })
        .collect();
    inner.reverse();
    let mut v = path.clone();
    v.extend(inner);
    v
}
fn is_simple(v: &[P]) -> bool {
    let n = v.len();
    if n < 3 || area2(v) == 0 {
        return false;
    }
    for i in 0..n {
        for j in 0..n {
            let (a, b, c, d) = (v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]);
            if i == j {
                if a == b {
                    return false;
                }
            } else if (i + 1) % n == j {
                if d == a && n > 3 || on(a, b, d) && d != a || on(c, d, a) && d != a {
                    return false;
                }
            } else if (j + 1) % n != i && meet(a, b, c, d) {
                return false;
            }
        }
    }
    true
}

/// A random simple polygon, at most `max` vertices, in a random placement and order.
fn polygon(r: &mut Rng, max: i64) -> (Vec<P>, &'static str) {
    loop {
        let n = if max > 80 { r.int(max / 2, max) } else if r.chance(70) { r.int(3, max.min(12)) } else { r.int(3, max) } as usize;
        let (mut v, kind) = match r.int(0, 9) {
            0..=2 => { let w = r.int(3, 9); (grow(r, n, w, 20), "grown, tight") }
            3 | 4 => { let w = r.int(10, 200); (grow(r, n, w, 10), "grown, wide") }
            5 => { let w = r.int(6, 60) & !1; (star(r, n, w), "star-shaped") }
            6 => { let (a, b) = (r.int(2, (max / 4).max(2)), r.int(-2, 2)); (comb(r, a, b), "comb") }
            7 => (spiral(r.int(1, (max / 6).max(1))), "spiral"),
            8 => { let w = r.int(12, 40); (grow(r, n, w, 50), "flat vertices") }
            // coordinates so large that products need more than 24 bits
            _ => { let n = n.min(14); (grow(r, n, 10000, 10), "large coordinates") }
        };
        if v.len() > max as usize || !is_simple(&v) {
            continue;
        }
        if kind == "large coordinates" && r.chance(60) {
            // almost flat vertices
            for _ in 0..4 {
                let i = r.int(0, v.len() as i64 - 1) as usize;
                let (a, b) = (v[i], v[(i + 1) % v.len()]);
                let q = beside(a, b, *r.pick(&[-2, -1, 1, 2]));
                if q.0.min(q.1) >= 0 && q.0.max(q.1) <= 10000 && insertable(&v, i, q) {
                    v.insert(i + 1, q);
                }
            }
        }
        let k = r.int(0, v.len() as i64 - 1) as usize;
        v.rotate_left(k);
        if r.chance(50) {
            v.reverse();
        }
        if r.chance(30) {
            for p in v.iter_mut() {
                *p = (-p.1, p.0);
            }
        }
        if kind != "large coordinates" {
            let (dx, dy) = match r.int(0, 3) {
                0 => (0, 0),
                1 => (r.int(-50, 50), r.int(-50, 50)),
                2 => (-v[0].0, -v[0].1),
                _ => (r.int(-3000, 3000), r.int(-3000, 3000)),
            };
            for p in v.iter_mut() {
                *p = (p.0 + dx, p.1 + dy);
            }
        }
        return (v, kind);
    }
}

/// Placements with coordinates that are not exactly representable: straight angles become almost
/// straight ones.
fn decimal(t: usize, v: &[P], r: &mut Rng) {
    let s = *r.pick(&[0.1f32, 0.3, 0.7, 1.1, 1.0 / 3.0, 12.3]);
    let o = *r.pick(&[(0.0f32, 0.0f32), (0.1, 0.7), (33.3, -12.7), (-4.2, 1000.1)]);
    let f: Vec<Vec2> = v.iter().map(|p| Vec2::new(p.0 as f32 * s + o.0, p.1 as f32 * s + o.1)).collect();
    let lat = |p: &Vec2| {
        // the vertex with exactly these coordinates
        match f.iter().position(|q| q == p) {
            Some(i) => json!([v[i].0, v[i].1]),
            None => json!([BIG, BIG]),
        }
    };
    let mut ev = json!({"op": "round", "t": t, "a": pts(v), "kind": "decimal", "k": "?", "P": [], "T": [], "D": [], "A": 0, "c": [0, 0],
        "scale": format!("{} + ({}, {})", s, o.0, o.1)});
    begin(&ev);
    let g = guard(|| {
        let p = Polygon::new(&f).unwrap();
        ev["T"] = json!(p
            .triangulate()
            .iter()
            .map(|t| json!(t.get_vertices().iter().map(|q| lat(q)).collect::<Vec<_>>()))
            .collect::<Vec<_>>());
    });
    ev["k"] = json!(if g.is_some() { "ok" } else { "panic" });
    emit(&ev);
}

/// Reads polygons printed by the specification; every rotation and both orientations in turn.
fn read(path: &str, r: &mut Rng, all: bool) -> Vec<Vec<P>> {
    let text = std::fs::read_to_string(path).expect("polygons");
    let mut out = vec![];
    for line in text.lines() {
        let j: Value = serde_json::from_str(line).expect("json");
        let j: Value = if j.is_string() { serde_json::from_str(j.as_str().unwrap()).unwrap() } else { j };
        let v: Vec<P> = j["V"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap()))
            .collect();
        let n = v.len();
        let rots: Vec<usize> = if all { (0..n).collect() } else { vec![r.int(0, n as i64 - 1) as usize] };
        for k in rots {
            let mut w = v.clone();
            w.rotate_left(k);
            if r.chance(50) {
                w.reverse();
            }
            out.push(w);
        }
    }
    out
}

/// The center relative to the first vertex, in thousandths.
fn center(p: &Polygon, s: f32) -> Value {
    let (c, o) = (p.center(), p.get_vertices()[0]);
    json!([
        fix((c.x as f64 - o.x as f64) / s as f64, 1000.0),
        fix((c.y as f64 - o.y as f64) / s as f64, 1000.0)
    ])
}
fn area(p: &Polygon, s: f32) -> i64 {
    int_of((2.0 * p.area() as f64 / (s as f64 * s as f64)).round())
}

// ---- all digits of single precision numbers -------------------------------------------------------

/// There and back again: a corridor along a path, a few units wide.
fn corridor(r: &mut Rng, w: i64) -> Vec<P> {
    let k = r.int(1, 4);
    let mut path: Vec<P> = (0..k + 2).map(|_| (r.int(0, w), r.int(0, w))).collect();
    if r.chance(40) {
        // nearly straight
        let (a, b) = (path[0], path[path.len() - 1]);
        let d = r.int(1, 3);
        let m = path.len() as i64 - 1;
        for i in 1..m {
            let f = |x: i64, y: i64| x + (y - x) / m * i;
            path[i as usize] = (f(a.0, b.0) + r.int(-d, d), f(a.1, b.1) + r.int(-d, d));
        }
    }
    let d = if r.chance(70) { 1 } else { r.int(1, 40) };
    let mut v = path.clone();
    let last = path.len() - 1;
    let ends = r.int(0, 3);
    for (i, p) in path.iter().enumerate().rev() {
        if i == last && ends & 1 == 0 || i == 0 && ends & 2 == 0 {
            continue;
        }
        v.push((p.0 + r.int(-d, d), p.1 + r.int(-d, d)));
    }
    v
}
/// Adds vertices as close to a side as possible.
fn shave(r: &mut Rng, v: &mut Vec<P>, times: i64, w: i64) {
    for _ in 0..times {
        let i = r.int(0, v.len() as i64 - 1) as usize;
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        if a == b {
            continue;
        }
        let q = beside(a, b, *r.pick(&[-2, -1, -1, 1, 1, 2]));
        if q.0.min(q.1) >= 0 && q.0.max(q.1) <= w && insertable(v, i, q) {
            v.insert(i + 1, q);
        }
    }
}
fn fine_polygon(r: &mut Rng) -> (Vec<P>, &'static str) {
    loop {
        let w = 1i64 << *r.pick(&[14, 18, 20, 22, 23, 24, 24]);
        let n = r.int(3, 10) as usize;
        let (mut v, kind) = match r.int(0, 5) {
            0..=2 => (corridor(r, w), "fine, corridor"),
            3 => (grow(r, n, w, 10), "fine, grown"),
            4 => (star(r, n, w), "fine, star-shaped"),
            _ => {
                let mut v: Vec<P> = (0..3).map(|_| (r.int(0, w), r.int(0, w))).collect();
                shave(r, &mut v, 12, w);
                (v, "fine, shaved")
            }
        };
        if r.chance(40) && v.len() >= 3 && is_simple(&v) {
            shave(r, &mut v, 3, w);
        }
        if v.len() > 12 || v.iter().any(|p| p.0.min(p.1) < 0 || p.0.max(p.1) > w) || !is_simple(&v) {
            continue;
        }
        let k = r.int(0, v.len() as i64 - 1) as usize;
        v.rotate_left(k);
        if r.chance(50) {
            v.reverse();
        }
        let o = match r.int(0, 3) {
            0 => (0, 0),
            1 => (w / 2, w / 2),
            2 => v[0],
            _ => (w, r.int(0, w)),
        };
        for p in v.iter_mut() {
            *p = (p.0 - o.0, p.1 - o.1);
        }
        return (v, kind);
    }
}
/// A random unit; the area (itself a single precision number) is recorded in all but extreme ones.
fn fine_unit(r: &mut Rng) -> (f32, bool) {
    let k = *r.pick(&[0, 0, 0, -3, -20, -30, 20, -45, -75, -100, -120, 40, 70, 90]);
    (2f32.powi(k), k.abs() <= 30)
}
fn fine_area(p: &Polygon, s: f32, sized: bool) -> Vec<i64> {
    if sized { fine(2.0 * p.area() as f64 / (s as f64 * s as f64), 0) } else { vec![0] }
}
fn fine_center(p: &Polygon, s: f32) -> Value {
    let (c, o) = (p.center(), p.get_vertices()[0]);
    json!([fine((c.x as f64 - o.x as f64) / s as f64, 0), fine((c.y as f64 - o.y as f64) / s as f64, 0)])
}
pub fn fine_run(mode: &str, seed: u64, n: usize) {
    for t in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(9_000_011).wrapping_add(t as u64));
        let (v, kind) = fine_polygon(&mut r);
        let (s, sized) = fine_unit(&mut r);
        if mode == "ops" {
            fine_ops(&mut r, t, &v, s, sized);
            continue;
        }
        let mut ev = json!({"op": format!("fine-{}", mode), "t": t, "a": pts(&v), "kind": kind, "k": "?", "P": [], "T": [], "D": [],
            "A": [0], "c": [[0], [0]], "sized": sized, "unit": format!("{:e}", s)});
        begin(&ev);
        let g = guard(|| match Polygon::new(&vecs(&v, s)) {
            Err(_) => ev["k"] = json!("err"),
            Ok(p) => {
                ev["P"] = verts(&p, s);
                match mode {
                    "new" => {
                        ev["A"] = json!(fine_area(&p, s, sized));
                        ev["c"] = fine_center(&p, s);
                    }
                    "diag" => {
                        let n = p.get_vertices().len();
                        ev["D"] = json!((0..n)
                            .map(|i| (0..n).map(|j| p.diagonal(i, j) as i64).collect::<Vec<_>>())
                            .collect::<Vec<_>>());
                    }
                    _ => ev["T"] = json!(p.triangulate().iter().map(|t| verts(t, s)).collect::<Vec<_>>()),
                }
                ev["k"] = json!("ok");
            }
        });
        if g.is_none() {
            ev["k"] = json!("panic");
        }
        emit(&ev);
    }
}
fn fine_ops(r: &mut Rng, t: usize, v: &[P], u: f32, sized: bool) {
    const F: [(i64, i64); 6] = [(2, 1), (1, 2), (-1, 1), (-1, 2), (3, 1), (1, 1)];
    let most = 1i64 << 24;
    let mut p = Polygon::new(&vecs(v, u)).unwrap();
    for _ in 0..r.int(1, 8) {
        let pre: Vec<P> = p.get_vertices().iter().map(|q| back(q, u)).collect();
        let q = *r.pick(&pre);
        let (op, a) = match r.int(0, 5) {
            0 => ("fine-move", (-q.0, -q.1)),
            1 => ("fine-move", (r.int(-9, 9) - q.0, r.int(-9, 9) - q.1)),
            2 => ("fine-move", (r.int(-most, most), r.int(-most, most))),
            3 => ("fine-move", (r.int(-99, 99), 0)),
            _ => ("fine-scale", *r.pick(&F)),
        };
        let ok = |x: i64, y: i64| {
            let z = if op == "fine-move" { x + y } else { x * a.0 / a.1 };
            z.abs() <= most && (op == "fine-move" || x * a.0 % a.1 == 0)
        };
        if a.0.abs().max(a.1.abs()) > most || !pre.iter().all(|q| ok(q.0, a.0) && ok(q.1, a.1)) {
            continue;
        }
        let mut ev = json!({"op": op, "t": t, "a": [a.0, a.1], "k": "?", "V": pts(&pre), "P": [], "A": [0], "c": [[0], [0]],
            "sized": sized, "unit": format!("{:e}", u)});
        begin(&ev);
        let g = guard(|| {
            if op == "fine-move" {
                p.translate(&Vec2::new(a.0 as f32 * u, a.1 as f32 * u));
            } else {
                p.uniform_scale(a.0 as f32 / a.1 as f32);
            }
            ev["P"] = verts(&p, u);
            ev["A"] = json!(fine_area(&p, u, sized));
            ev["c"] = fine_center(&p, u);
        });
        ev["k"] = json!(if g.is_some() { "ok" } else { "panic" });
        emit(&ev);
        if g.is_none() {
            break;
        }
    }
}

fn one(mode: &str, t: usize, v: &[P], kind: &str, r: &mut Rng) {
    let s = if r.chance(50) { 1.0 } else { *r.pick(&SCALES) };
    let mut ev = json!({"op": mode, "t": t, "a": pts(v), "kind": kind, "k": "?", "P": [], "T": [], "D": [], "A": 0, "c": [0, 0]});
    begin(&ev);
    let r = guard(|| match Polygon::new(&vecs(v, s)) {
        Err(_) => ev["k"] = json!("err"),
        Ok(p) => {
            ev["P"] = verts(&p, s);
            match mode {
                "new" => {
                    ev["A"] = json!(area(&p, s));
                    ev["c"] = center(&p, s);
                }
                "diag" => {
                    let n = p.get_vertices().len();
                    ev["D"] = json!((0..n)
                        .map(|i| (0..n).map(|j| p.diagonal(i, j) as i64).collect::<Vec<_>>())
                        .collect::<Vec<_>>());
                }
                _ => {
                    let ts = p.triangulate();
                    ev["T"] = json!(ts.iter().map(|t| verts(t, s)).collect::<Vec<_>>());
                    ev["A"] = json!(ts.iter().map(|t| area(t, s)).sum::<i64>().min(BIG));
                }
            }
            ev["k"] = json!("ok");
        }
    });
    if r.is_none() {
        ev["k"] = json!("panic");
    }
    emit(&ev);
}

pub fn run(mode: &str, seed: u64, n: usize, max: i64, path: &str, all: bool) {
    let mut r = Rng::new(seed ^ 0x70);
    let mut t = 0;
    if !path.is_empty() {
        for v in read(path, &mut r, all) {
            one(mode, t, &v, "on a small grid", &mut r);
            t += 1;
        }
    }
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
        let (v, kind) = polygon(&mut r, max);
        if mode == "tri" && kind != "large coordinates" && r.chance(40) {
            decimal(t, &v, &mut r);
        } else {
            one(mode, t, &v, kind, &mut r);
        }
        t += 1;
        if mode == "new" && i % 4 == 0 {
            // too few vertices, and vertex lists that are not simple polygons
            let m = r.int(0, 6);
            let v: Vec<P> = (0..m).map(|_| (r.int(-5, 5), r.int(-5, 5))).collect();
            one(mode, t, &v, "arbitrary list", &mut r);
            t += 1;
        }
    }
}

// ---- transforms and regular polygons -------------------------------------------------------------

/// Coordinates are multiples of a unit, a power of two.
const UNITS: [f32; 7] = [1.0 / 64.0, 1.0 / 64.0, 1.0, 1.0 / 1048576.0, 9.313225746154785e-10, 64.0, 33554432.0];
fn step(p: &mut Polygon, t: usize, op: &str, a: P, u: f32) -> bool {
    let pre: Vec<P> = p.get_vertices().iter().map(|q| back(q, u)).collect();
    let mut ev = json!({"op": op, "t": t, "a": [a.0, a.1], "k": "?", "V": pts(&pre), "P": [], "A": 0, "c": [0, 0]});
    begin(&ev);
    let g = guard(|| {
        if op == "move" {
            p.translate(&Vec2::new(a.0 as f32 * u, a.1 as f32 * u));
        } else {
            p.uniform_scale(a.0 as f32 / a.1 as f32);
        }
        ev["P"] = verts(p, u);
        ev["A"] = json!(area(p, u));
        ev["c"] = center(p, u);
    });
    ev["k"] = json!(if g.is_some() { "ok" } else { "panic" });
    emit(&ev);
    g.is_some()
}
/// Histories of the specification PolyMoves.
pub fn replay_ops(path: &str) {
    let text = std::fs::read_to_string(path).expect("histories");
    for (t, line) in text.lines().enumerate() {
        let j: Value = serde_json::from_str(line).expect("json");
        let j: Value = if j.is_string() { serde_json::from_str(j.as_str().unwrap()).unwrap() } else { j };
        let pair = |p: &Value| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap());
        let v: Vec<P> = j["V"].as_array().unwrap().iter().map(pair).collect();
        let u = UNITS[t % UNITS.len()];
        let mut p = Polygon::new(&vecs(&v, u)).unwrap();
        for h in j["H"].as_array().unwrap() {
            if !step(&mut p, t, h["op"].as_str().unwrap(), pair(&h["a"]), u) {
                break;
            }
        }
    }
}
/// Random histories of translations and scalings.
pub fn ops(seed: u64, n: usize) {
    const F: [(i64, i64); 12] =
        [(2, 1), (1, 2), (3, 1), (-1, 1), (3, 2), (5, 4), (-2, 1), (1, 4), (4, 1), (-1, 2), (1, 1), (8, 1)];
    for t in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(7_000_003).wrapping_add(t as u64));
        let (mut v, _) = loop {
            let (v, kind) = polygon(&mut r, 10);
            if kind != "large coordinates" {
                break (v, kind);
            }
        };
        for p in v.iter_mut() {
            *p = (p.0 * 16, p.1 * 16);
        }
        let u = *r.pick(&UNITS);
        let mut p = Polygon::new(&vecs(&v, u)).unwrap();
        let steps = r.int(1, 10);
        for _ in 0..steps {
            let pre: Vec<P> = p.get_vertices().iter().map(|q| back(q, u)).collect();
            let (op, a) = if r.chance(20) {
                // a vertex to the origin, next to it, or onto an axis
                let q = *r.pick(&pre);
                ("move", match r.int(0, 3) {
                    0 => (-q.0, -q.1),
                    1 => (-q.0 + r.int(-3, 3), -q.1 + r.int(-3, 3)),
                    2 => (-q.0, 0),
                    _ => (0, -q.1),
                })
            } else if r.chance(50) {
                ("move", (r.int(-20000, 20000), r.int(-20000, 20000)))
            } else {
                ("scale", *r.pick(&F))
            };
            let fits = pre.iter().all(|q| {
                let ok = |x: i64, y: i64| match op {
                    "move" => (x + y).abs() < 200_000,
                    _ => (x * a.0) % a.1 == 0 && (x * a.0 / a.1).abs() < 200_000,
                };
                ok(q.0, a.0) && ok(q.1, a.1)
            });
            if !fits {
                continue;
            }
            if !step(&mut p, t, op, a, u) {
                break;
            }
        }
    }
}

pub fn regular(seed: u64, n: usize) {
    let mut r = Rng::new(seed ^ 0x4E4E);
    for t in 0..n {
        let sides = if t < 120 { 3 + t as i64 } else { match r.int(0, 19) { 0 => r.int(301, 1000), 1..=3 => r.int(41, 300), _ => r.int(3, 40) } };
        let radius = [1.0, 2.5, 0.01, 400.0, 37.25, 1e-5, 1e6][r.int(0, 6) as usize] as f32;
        let (cx, cy) = match r.int(0, 3) {
            0 => (0.0, 0.0),
            _ => (r.int(-160, 160) as f32 / 8.0 * radius, r.int(-160, 160) as f32 / 8.0 * radius),
        };
        let mut ev = json!({"op": "regular", "t": t, "a": [sides, radius, cx, cy], "sides": sides, "k": "?", "P": [], "c": [0, 0]});
        begin(&ev);
        let g = guard(|| {
            let p = Polygon::regular(sides as usize, radius, &Vec2::new(cx, cy));
            let rel = |x: f32, c: f32| fix((x as f64 - c as f64) / radius as f64, 10000.0);
            ev["P"] = pts(&p.get_vertices().iter().map(|q| (rel(q.x, cx), rel(q.y, cy))).collect::<Vec<_>>());
            let c = p.center();
            ev["c"] = json!([rel(c.x, cx), rel(c.y, cy)]);
        });
        ev["k"] = json!(if g.is_some() { "ok" } else { "panic" });
        // floating-point arguments are only for the reader: the specification sees `sides`
        ev["a"] = json!([sides, format!("{}", radius), format!("{}", cx), format!("{}", cy)]);
        emit(&ev);
    }
}
