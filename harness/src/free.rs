//! Drives PlanarGraph with nodes at any position (FreeGraph judges the record). Positions are
//! recorded as integers in a unit of 2^-26 of the drawing's size.
use crate::graph::Tag;
use crate::rt::*;
use kami::glm::Vec2;
use kami::graph::planar_graph::PlanarGraph;
use serde_json::{json, Value};
use std::collections::HashMap;

type G = PlanarGraph<Tag, i32>;
type P = (f64, f64);

fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
fn det(u: P, v: P) -> f64 {
    u.0 * v.1 - v.0 * u.1
}
fn cross(a: P, b: P, c: P) -> f64 {
    det(sub(b, a), sub(c, a))
}
fn dot(a: P, b: P, c: P) -> f64 {
    let (u, v) = (sub(b, a), sub(c, a));
    u.0 * v.0 + u.1 * v.1
}
fn n1(a: P, b: P) -> f64 {
    (b.0 - a.0).abs() + (b.1 - a.1).abs()
}
fn bits(k: i32) -> f64 {
    (2.0f64).powi(-k)
}

// Which requests are clear (the specification decides that; these are the same margins, a little
// wider, so that few histories end early).
fn apart(a: P, b: P, m: f64) -> bool {
    n1(a, b) >= 1.1 * m * bits(12)
}
fn same(a: P, b: P, m: f64) -> bool {
    n1(a, b) <= 0.9 * m * bits(20)
}
fn is_on(a: P, b: P, p: P, m: f64) -> bool {
    apart(a, p, m)
        && apart(b, p, m)
        && dot(a, b, p) > 0.0
        && dot(b, a, p) > 0.0
        && cross(a, b, p).abs() <= 0.9 * bits(20) * n1(a, b) * m
}
fn is_off(a: P, b: P, p: P, m: f64) -> bool {
    let t = 1.1 * m * n1(a, b) * bits(13);
    cross(a, b, p).abs() >= t || -dot(a, b, p) >= t || -dot(b, a, p) >= t
}
fn sides(a: P, b: P, c: P, d: P, m: f64, k: i32) -> i32 {
    let (x, y) = (cross(a, b, c), cross(a, b, d));
    let t = 1.1 * m * n1(a, b) * bits(k);
    if x.abs() < t || y.abs() < t {
        0
    } else if (x > 0.0) == (y > 0.0) {
        1
    } else {
        -1
    }
}
fn den(a: P, b: P, c: P, d: P) -> f64 {
    det(sub(b, a), sub(d, c))
}
fn mag(v: &[P]) -> f64 {
    v.iter().fold(0.0, |m: f64, p| m.max(p.0.abs()).max(p.1.abs()))
}
fn apart2(a: P, b: P, c: P, d: P, m: f64) -> bool {
    let end = |p: P| is_off(a, b, p, m) || same(a, p, m) || same(b, p, m);
    sides(a, b, c, d, m, 14) == 1
        || sides(c, d, a, b, m, 14) == 1
        || (den(a, b, c, d).abs() <= 0.9 * bits(20) * mag(&[a, b, c, d]) * (n1(a, b) + n1(c, d)) && end(c) && end(d))
}
fn cross2(a: P, b: P, c: P, d: P, m: f64) -> bool {
    let x = den(a, b, c, d).abs();
    sides(a, b, c, d, m, 13) == -1
        && sides(c, d, a, b, m, 13) == -1
        && x >= 1.1 * bits(5) * n1(a, b) * n1(c, d)
        && x >= 1.1 * bits(16) * m * (n1(a, b) + n1(c, d))
}
fn far_from(a: P, b: P, t: f64, c: P, d: P, m: f64) -> bool {
    let (x, y) = (cross(c, d, a), cross(c, d, b));
    (x + t * (y - x)).abs() >= 1.1 * bits(14) * m * n1(c, d)
}

pub struct Free {
    g: G,
    unit: f64,
    ids: HashMap<(u32, u32), i64>,
    trace: i64,
    pub broken: bool,
    pub pos: Vec<P>,
    pub edges: Vec<(usize, usize)>,
}

impl Free {
    /// `size`: no coordinate is larger
    pub fn new(trace: i64, size: f64) -> Free {
        let mut r = Free {
            g: PlanarGraph::new(),
            unit: bits(26 - size.log2().ceil() as i32),
            ids: HashMap::new(),
            trace,
            broken: false,
            pos: vec![],
            edges: vec![],
        };
        let st = r.observe();
        emit(&json!({"t": trace, "op": "init", "a": [], "k": "ok", "i": -1, "n": [], "e": [], "N": st.0, "E": st.1, "q": []}));
        r
    }

    fn id(&mut self, v: &Vec2) -> i64 {
        let n = self.ids.len() as i64;
        let key = (if v.x == 0.0 { 0 } else { v.x.to_bits() }, if v.y == 0.0 { 0 } else { v.y.to_bits() });
        *self.ids.entry(key).or_insert(n)
    }
    fn units(&self, v: &Vec2) -> (i64, i64, i64) {
        let (x, y) = ((v.x as f64 / self.unit).round(), (v.y as f64 / self.unit).round());
        let most = (1u64 << 27) as f64;
        if x.is_finite() && y.is_finite() && x.abs() <= most && y.abs() <= most {
            (x as i64, y as i64, 0)
        } else {
            (0, 0, 1)
        }
    }

    fn observe(&mut self) -> (Value, Value) {
        let raw: Vec<(Vec2, i64)> = self
            .g
            .get_nodes()
            .iter()
            .map(|n| {
                let s = format!("{:?}", n);
                let d = s
                    .split("<<")
                    .nth(1)
                    .and_then(|r| r.split(">>").next())
                    .and_then(|t| t.parse::<i64>().ok())
                    .unwrap_or(-9999);
                (*n.get_position(), d)
            })
            .collect();
        self.pos = raw.iter().map(|(v, _)| (v.x as f64, v.y as f64)).collect();
        let mut ns = vec![];
        for (v, d) in raw.iter() {
            let (x, y, off) = self.units(v);
            self.broken |= off != 0;
            let id = self.id(v);
            ns.push(json!([x, y, d, off, id]));
        }
        self.edges = self.g.get_edges().iter().map(|e| e.get_node_indices()).collect();
        let n = self.pos.len();
        self.broken |= self.edges.iter().any(|e| e.0 >= n || e.1 >= n);
        let es: Vec<Value> = self
            .g
            .get_edges()
            .iter()
            .map(|e| {
                let (s, d) = e.get_node_indices();
                json!([clamp_u(s), clamp_u(d), clamp_i(*e.get_data() as i64)])
            })
            .collect();
        (Value::from(ns), Value::from(es))
    }

    fn call(&mut self, op: &str, args: Value, f: impl FnOnce(&mut G) -> (String, i64, Vec<usize>, Vec<usize>)) {
        let mut ev = json!({"t": self.trace, "op": op, "a": args, "k": "dead", "i": -1, "n": [], "e": [], "N": [], "E": [], "q": []});
        begin(&ev);
        let g = &mut self.g;
        match guard(|| f(g)) {
            Some((k, i, n, e)) => {
                ev["k"] = json!(k);
                ev["i"] = json!(i);
                ev["n"] = Value::from(n.into_iter().map(clamp_u).collect::<Vec<_>>());
                ev["e"] = Value::from(e.into_iter().map(clamp_u).collect::<Vec<_>>());
            }
            None => {
                ev["k"] = json!("panic");
                self.broken = true;
            }
        }
        let st = self.observe();
        ev["N"] = st.0;
        ev["E"] = st.1;
        emit(&ev);
    }

    /// Adds a node if it is clear what that means.
    pub fn node(&mut self, v: Vec2, data: i32) {
        if self.broken || !self.node_clear((v.x as f64, v.y as f64)) {
            return;
        }
        let (x, y, _) = self.units(&v);
        let id = self.id(&v);
        self.call("add_node", json!([x, y, data, id]), |g| {
            let (i, e) = g.add_node(&v, Tag(data));
            ("ok".into(), clamp_u(i), vec![], e)
        });
    }
    /// The same for an edge; returns whether it was asked for.
    pub fn edge(&mut self, s: usize, d: usize, data: i32) -> bool {
        if self.broken || !self.edge_clear(s, d) {
            return false;
        }
        self.call("add_edge", json!([clamp_u(s), clamp_u(d), data]), |g| match g.add_edge(s, d, data) {
            Ok((n, e)) => ("ok".into(), -1, n, e),
            Err(_) => ("err".into(), -1, vec![], vec![]),
        });
        true
    }
    pub fn remove_node(&mut self, i: usize) {
        self.call("remove_node", json!([clamp_u(i)]), |g| {
            let (n, e) = g.remove_node(i);
            ("ok".into(), -1, n, e)
        });
    }
    pub fn remove_edge(&mut self, i: usize) {
        self.call("remove_edge", json!([clamp_u(i)]), |g| {
            let (n, e) = g.remove_edge(i);
            ("ok".into(), -1, n, e)
        });
    }

    pub fn query(&mut self, rng: &mut Rng) {
        let (n, m) = (self.pos.len(), self.edges.len());
        let mut ev = json!({"t": self.trace, "op": "query", "a": [], "k": "dead", "i": -1, "n": [], "e": [], "N": [], "E": [], "q": []});
        begin(&ev);
        let mut node_ids: Vec<usize> = (0..n + 2).collect();
        let mut edge_ids: Vec<usize> = (0..m + 2).collect();
        node_ids.push(n + 1000);
        edge_ids.push(m + 1000);
        let mut pairs: Vec<(usize, usize)> = vec![];
        for _ in 0..40 {
            pairs.push((rng.int(0, n as i64) as usize, rng.int(0, n as i64) as usize));
            if m > 0 {
                let e = *rng.pick(&self.edges);
                pairs.push(if rng.chance(50) { e } else { (e.1, e.0) });
            }
        }
        let g = &self.g;
        let this = &*self;
        let res = guard(|| {
            let nodes: Vec<Value> = node_ids
                .iter()
                .map(|&i| {
                    let v = g.get_vertex(i).map(|n| this.units(n.get_position()));
                    json!([
                        i,
                        g.has_node_at_index(i) as i64,
                        v.is_some() as i64,
                        v.map_or(0, |p| p.0),
                        v.map_or(0, |p| p.1),
                        g.number_of_edges_incident_to(i).map_or(-1, clamp_u)
                    ])
                })
                .collect();
            let edges: Vec<Value> = edge_ids
                .iter()
                .map(|&i| {
                    let e = g.get_edge(i).map(|e| (e.get_node_indices(), *e.get_data()));
                    let ends: Vec<usize> = (0..n).filter(|&k| g.get_edge(i).map_or(false, |e| e.includes(k))).collect();
                    json!([
                        i,
                        g.has_edge_at_index(i) as i64,
                        e.is_some() as i64,
                        e.map_or(0, |x| clamp_u((x.0).0)),
                        e.map_or(0, |x| clamp_u((x.0).1)),
                        e.map_or(0, |x| x.1),
                        ends
                    ])
                })
                .collect();
            let between: Vec<Value> =
                pairs.iter().map(|&(a, b)| json!([a, b, g.has_edge_between_nodes(a, b) as i64])).collect();
            json!([{"nc": clamp_u(g.node_count()), "ec": clamp_u(g.edge_count()), "nodes": nodes, "edges": edges, "pairs": between}])
        });
        match res {
            Some(q) => {
                ev["k"] = json!("ok");
                ev["q"] = q;
            }
            None => {
                ev["k"] = json!("panic");
                self.broken = true;
            }
        }
        let st = self.observe();
        ev["N"] = st.0;
        ev["E"] = st.1;
        emit(&ev);
    }

    // ---- which requests are clear ----

    fn node_clear(&self, p: P) -> bool {
        let m = mag(&self.pos).max(mag(&[p]));
        if m < self.unit * bits(-24) {
            return false;
        }
        let near: Vec<P> = self.pos.iter().cloned().filter(|&q| !apart(q, p, m)).collect();
        if !near.is_empty() {
            return near.len() == 1 && same(near[0], p, m);
        }
        let at = |e: &(usize, usize)| (self.pos[e.0], self.pos[e.1]);
        let on: Vec<(P, P)> = self.edges.iter().map(at).filter(|&(a, b)| !is_off(a, b, p, m)).collect();
        on.len() <= 1 && on.iter().all(|&(a, b)| is_on(a, b, p, m))
    }

    fn edge_clear(&self, i: usize, j: usize) -> bool {
        let n = self.pos.len();
        if i >= n || j >= n || i == j || self.edges.contains(&(i, j)) || self.edges.contains(&(j, i)) {
            return true;
        }
        let m = mag(&self.pos);
        let (a, b) = (self.pos[i], self.pos[j]);
        if m < self.unit * bits(-24) || !apart(a, b, m) {
            return false;
        }
        let mut stops: Vec<usize> = (0..n).filter(|&k| k != i && k != j && !is_off(a, b, self.pos[k], m)).collect();
        if !stops.iter().all(|&k| is_on(a, b, self.pos[k], m)) {
            return false;
        }
        stops.sort_by(|&x, &y| dot(a, b, self.pos[x]).partial_cmp(&dot(a, b, self.pos[y])).unwrap());
        stops.insert(0, i);
        stops.push(j);
        stops.windows(2).all(|w| self.piece_clear(w[0], w[1], m))
    }

    fn piece_clear(&self, u: usize, v: usize, m: f64) -> bool {
        let (a, b) = (self.pos[u], self.pos[v]);
        let joint = |e: &(usize, usize)| e.0 == u || e.1 == u || e.0 == v || e.1 == v;
        if self.edges.contains(&(u, v)) || self.edges.contains(&(v, u)) {
            return true;
        }
        if !apart(a, b, m) {
            return false;
        }
        let mut met = vec![];
        for (k, e) in self.edges.iter().enumerate() {
            let (c, d) = (self.pos[e.0], self.pos[e.1]);
            if joint(e) || apart2(a, b, c, d, m) {
                continue;
            }
            if !cross2(a, b, c, d, m) {
                return false;
            }
            met.push((k, det(sub(d, c), sub(a, c)) / den(a, b, c, d)));
        }
        met.iter().all(|&(k, t)| {
            self.edges.iter().enumerate().all(|(f, e)| {
                f == k
                    || !(joint(e) || met.iter().any(|x| x.0 == f))
                    || far_from(a, b, t, self.pos[e.0], self.pos[e.1], m)
            })
        })
    }
}

fn f(x: f64, y: f64) -> Vec2 {
    Vec2::new(x as f32, y as f32)
}
/// The next single precision numbers
fn nudge(x: f32, k: i64) -> f32 {
    if x == 0.0 {
        return x;
    }
    f32::from_bits((x.to_bits() as i64 + k) as u32)
}

pub fn random(seed: u64, traces: usize, max_ops: i64, only: i64, first: i64) {
    for t in 0..traces {
        let mut rng = Rng::new((seed ^ 0xF2EE).wrapping_mul(1_000_003).wrapping_add(first as u64 + t as u64));
        let size = *rng.pick(&[1.0f64, 1.0, 10.0, 500.0, 500.0, 0.1, 37.5, 1000.0, 80000.0, 3.0e6]);
        let away = *rng.pick(&[0.0, 0.0, 0.0, 0.0, 1.0, 2.0, 3.0, 10.0, 30.0]);
        let centred = rng.chance(40);
        let mut r = Free::new(first + t as i64, size * (1.0 + away));
        // a random position
        let style = rng.int(0, 3);
        let pt = |rng: &mut Rng| -> Vec2 {
            let k = match style {
                0 => 1000,
                1 => 20,
                2 => 7,
                _ => 1 << 20,
            };
            let u = |rng: &mut Rng| {
                let z = rng.int(0, k) as f64 / k as f64;
                size * (if centred { 2.0 * z - 1.0 } else { z } + away)
            };
            f(u(rng), u(rng))
        };
        let mut data = 1;
        // the size of the drawing is that of its first node
        let full = size * (1.0 + away);
        let z = size * rng.int(0, 100) as f64 / 100.0;
        r.node(if rng.chance(50) { f(full, z) } else { f(z, full) }, 1);
        // the segments asked for
        let mut drawn: Vec<(P, P)> = vec![];
        let crossing = |s: (P, P), e: (P, P)| -> Option<Vec2> {
            let ((a, b), (c, g)) = (s, e);
            let z = den(a, b, c, g);
            let x = det(sub(g, c), sub(a, c)) / z;
            if z != 0.0 && x > 0.0 && x < 1.0 {
                Some(f(a.0 + x * (b.0 - a.0), a.1 + x * (b.1 - a.1)))
            } else {
                None
            }
        };
        let profile = if only >= 0 { only } else { rng.int(0, 9) };
        match profile {
            0 | 6 | 7 => {
                // a fan: edges from one node at small angles to each other
                let c = pt(&mut rng);
                r.node(c, 1);
                let hub = r.pos.len() - 1;
                let k = rng.int(3, 12);
                let turn = rng.int(0, 3);
                let dir = (rng.int(-100, 100) as f64, rng.int(-100, 100) as f64 + 0.5);
                let len = (dir.0 * dir.0 + dir.1 * dir.1).sqrt();
                let dir = (dir.0 / len, dir.1 / len);
                for _ in 0..k {
                    let s = size * rng.int(2, 20) as f64 / 20.0;
                    let w = bits(rng.int(1, 12) as i32) * rng.int(-100, 100) as f64 / 100.0;
                    let p = f(c.x as f64 + s * (dir.0 - w * dir.1), c.y as f64 + s * (dir.1 + w * dir.0));
                    let lim = size * (1.0 + away);
                    if (p.x.abs() as f64) < lim && (p.y.abs() as f64) < lim {
                        r.node(p, 2);
                    }
                }
                for i in 0..r.pos.len() {
                    if turn == 0 || turn == 1 && rng.chance(50) {
                        r.edge(hub, i, i as i32);
                    } else {
                        r.edge(i, hub, i as i32);
                    }
                }
            }
            1 | 2 => {
                // nodes on one line, edges between any of them, then the whole
                let (a, b) = (pt(&mut rng), pt(&mut rng));
                r.node(a, 1);
                r.node(b, 1);
                let (i, j) = (r.pos.len() - 1, r.pos.len().max(2) - 2);
                if rng.chance(40) {
                    r.edge(i, j, 9);
                }
                let q = *rng.pick(&[3i64, 7, 10, 12, 100, 1000]);
                for _ in 0..rng.int(1, 14) {
                    let z = rng.int(1, q - 1) as f64 / q as f64;
                    let p = f(
                        a.x as f64 + z * (b.x as f64 - a.x as f64),
                        a.y as f64 + z * (b.y as f64 - a.y as f64),
                    );
                    r.node(p, 2);
                    let n = r.pos.len() as i64;
                    if rng.chance(40) && n > 2 {
                        r.edge(rng.int(0, n - 1) as usize, rng.int(0, n - 1) as usize, 3);
                    }
                }
                for _ in 0..rng.int(0, 12) {
                    let n = r.pos.len() as i64;
                    r.edge(rng.int(1, n - 1) as usize, rng.int(1, n - 1) as usize, 7);
                }
                for _ in 0..rng.int(0, 3) {
                    let p = pt(&mut rng);
                    r.node(p, 4);
                    let n = r.pos.len() as i64;
                    r.edge(n as usize - 1, rng.int(0, n - 1) as usize, 5);
                }
                if rng.chance(50) {
                    r.edge(i, j, 6);
                } else {
                    r.edge(j, i, 6);
                }
            }
            3 => {
                // long edges that cross near one point (the origin, if centred)
                let c = if centred { f(0.0, 0.0) } else { pt(&mut rng) };
                for i in 0..rng.int(2, 6) {
                    let s = size * *rng.pick(&[1.0, 1.0, 0.3, 0.05, 0.01, 0.002]) * rng.int(5, 10) as f64 / 10.0;
                    let u = (rng.int(-50, 50) as f64 / 50.0, rng.int(-50, 50) as f64 / 50.0);
                    let h = size * *rng.pick(&[0.0, 0.1, 0.01, 0.001, 0.0003]);
                    let w = (h * rng.int(-10, 10) as f64 / 10.0, h * rng.int(-10, 10) as f64 / 10.0);
                    let lim = size * (1.0 + away);
                    let cl = |x: f64| x.max(-lim).min(lim);
                    let p = f(cl(c.x as f64 + w.0 + s * u.0), cl(c.y as f64 + w.1 + s * u.1));
                    let q = f(cl(c.x as f64 + w.0 - s * u.0), cl(c.y as f64 + w.1 - s * u.1));
                    r.node(p, 1);
                    r.node(q, 1);
                    let near = |r: &Free, v: Vec2| {
                        r.pos.iter().position(|z| z.0 == v.x as f64 && z.1 == v.y as f64)
                    };
                    if let (Some(a), Some(b)) = (near(&r, p), near(&r, q)) {
                        if r.edge(a, b, i as i32 + 1) {
                            drawn.push((r.pos[a], r.pos[b]));
                        }
                    }
                }
                // the crossings again, recomputed from the ends of what was drawn
                for i in 0..drawn.len() {
                    for j in 0..i {
                        if let Some(x) = crossing(drawn[i], drawn[j]) {
                            if rng.chance(50) {
                                r.node(x, 8);
                            }
                        }
                    }
                }
            }
            4 | 8 => {
                // many nodes first
                for _ in 0..rng.int(4, 12) {
                    let p = pt(&mut rng);
                    r.node(p, 1);
                }
            }
            9 => {
                // pieces of one line that don't touch
                let (a, b) = (pt(&mut rng), pt(&mut rng));
                let k = rng.int(4, 9);
                let q = *rng.pick(&[10i64, 12, 100, 997]);
                let mut zs: Vec<i64> = (0..k).map(|_| rng.int(0, q)).collect();
                zs.sort();
                let base = r.pos.len();
                for z in zs {
                    let z = z as f64 / q as f64;
                    r.node(
                        f(a.x as f64 + z * (b.x as f64 - a.x as f64), a.y as f64 + z * (b.y as f64 - a.y as f64)),
                        2,
                    );
                }
                let n = r.pos.len();
                let all = rng.chance(30);
                for i in base..n {
                    if i + 1 < n && (all || rng.chance(60)) {
                        let (i, j) = if rng.chance(50) { (i, i + 1) } else { (i + 1, i) };
                        r.edge(i, j, 3);
                    }
                }
                if n > base && rng.chance(50) {
                    r.edge(base, n - 1, 5);
                }
            }
            _ => {}
        }
        let more = if profile > 5 && rng.chance(70) { 0 } else { rng.int(4, max_ops) };
        for _ in 0..more {
            if r.broken {
                break;
            }
            let (n, m) = (r.pos.len(), r.edges.len());
            data = data % 9 + 1;
            let any = |rng: &mut Rng| rng.int(0, n.max(1) as i64 - 1) as usize;
            let lerp = |a: P, b: P, z: f64| f(a.0 + z * (b.0 - a.0), a.1 + z * (b.1 - a.1));
            match rng.int(0, 29) {
                _ if n < 2 => {
                    let p = pt(&mut rng);
                    r.node(p, data);
                }
                0..=4 if n < 40 => {
                    let p = pt(&mut rng);
                    r.node(p, data);
                }
                5 | 6 if m > 0 => {
                    // on an edge, up to rounding
                    let e = *rng.pick(&r.edges);
                    let z = rng.int(1, 99) as f64 / 100.0;
                    let p = lerp(r.pos[e.0], r.pos[e.1], z);
                    r.node(p, data);
                }
                7 => {
                    // beyond an edge, on its line
                    if m > 0 {
                        let e = *rng.pick(&r.edges);
                        let p = lerp(r.pos[e.0], r.pos[e.1], rng.int(105, 150) as f64 / 100.0);
                        let lim = (size * (1.0 + away)) as f32;
                        if p.x.abs() < lim && p.y.abs() < lim {
                            r.node(p, data);
                        }
                    }
                }
                8 => {
                    // a node that is there, up to rounding
                    let p = r.pos[any(&mut rng)];
                    let v = Vec2::new(
                        nudge(p.0 as f32, rng.int(-2, 2)),
                        nudge(p.1 as f32, rng.int(-2, 2)),
                    );
                    r.node(v, data);
                }
                9 => {
                    // where two edges would cross: recomputed from their ends
                    let (s, d) = (any(&mut rng), any(&mut rng));
                    let x = if drawn.len() > 1 && rng.chance(70) {
                        crossing(*rng.pick(&drawn), *rng.pick(&drawn))
                    } else if m > 0 && s != d {
                        let e = *rng.pick(&r.edges);
                        crossing((r.pos[s], r.pos[d]), (r.pos[e.0], r.pos[e.1]))
                    } else {
                        None
                    };
                    if let Some(x) = x {
                        r.node(x, data);
                    }
                }
                10 if m > 0 => r.remove_edge(rng.int(0, m as i64 - 1) as usize),
                11 => r.remove_node(any(&mut rng)),
                12 if m > 0 => {
                    let e = *rng.pick(&r.edges);
                    r.edge(e.1, e.0, data);
                }
                13 => r.query(&mut rng),
                14 => {
                    // far ones
                    match rng.int(0, 3) {
                        0 => {
                            r.edge(n, 0, data);
                        }
                        1 => r.remove_node(n + 1),
                        2 => r.remove_edge(m),
                        _ => {
                            r.edge(0, n + 5, data);
                        }
                    }
                }
                15 | 16 if m > 1 => {
                    // the same segment again after removing a piece of it
                    let k = rng.int(0, m as i64 - 1) as usize;
                    let e = r.edges[k];
                    let (p, q) = (r.pos[e.0], r.pos[e.1]);
                    r.remove_edge(k);
                    let at = |r: &Free, z: P| r.pos.iter().position(|w| *w == z);
                    if let (Some(a), Some(b)) = (at(&r, p), at(&r, q)) {
                        r.edge(a, b, data);
                    }
                }
                17 | 18 if m > 0 => {
                    // from an end of an edge along it, or to another node that is almost on its line
                    let e = *rng.pick(&r.edges);
                    let (a, b) = (r.pos[e.0], r.pos[e.1]);
                    let best = (0..n)
                        .filter(|&k| k != e.0 && k != e.1 && dot(a, b, r.pos[k]) > 0.0)
                        .min_by(|&x, &y| {
                            cross(a, b, r.pos[x]).abs().partial_cmp(&cross(a, b, r.pos[y]).abs()).unwrap()
                        });
                    if let Some(k) = best {
                        r.edge(e.0, k, data);
                    }
                }
                _ => {
                    for _ in 0..10 {
                        let (s, d) = (any(&mut rng), any(&mut rng));
                        let (p, q) = (r.pos[s], r.pos[d]);
                        if s != d && r.edge(s, d, data) {
                            drawn.push((p, q));
                            break;
                        }
                    }
                }
            }
        }
        if !r.broken {
            r.query(&mut rng);
        }
    }
}
