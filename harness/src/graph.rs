//! Drives PlanarGraph and records, for every call, its result and the full state after it.
use crate::rt::*;
use kami::glm::Vec2;
use kami::graph::planar_graph::PlanarGraph;
use serde_json::{json, Value};
use std::collections::HashMap;

/// Node data whose debug form can be recognized whatever surrounds it (there is no getter).
#[derive(Copy, Clone, Default, PartialEq)]
pub struct Tag(pub i32);
impl std::fmt::Debug for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<<{}>>", self.0)
    }
}

type G = PlanarGraph<Tag, i32>;

/// The lattice the scenario is laid out on: position = (lattice + offset) * unit, per axis.
#[derive(Copy, Clone, Debug)]
pub struct Frame {
    pub unit: f64,
    pub ox: i64,
    pub oy: i64,
}
impl Frame {
    pub fn pos(&self, p: (i64, i64)) -> Vec2 {
        Vec2::new(
            ((p.0 + self.ox) as f64 * self.unit) as f32,
            ((p.1 + self.oy) as f64 * self.unit) as f32,
        )
    }
    /// Nearest lattice point, and 1 if the position is not at it (within 1/50 of the lattice).
    pub fn lattice(&self, v: &Vec2) -> (i64, i64, i64) {
        let x = v.x as f64 / self.unit - self.ox as f64;
        let y = v.y as f64 / self.unit - self.oy as f64;
        if !(x.is_finite() && y.is_finite() && x.abs() < 2000.0 && y.abs() < 2000.0) {
            return (-5000, -5000, 1);
        }
        let (rx, ry) = (x.round(), y.round());
        let off = (x - rx).abs() > 0.02 || (y - ry).abs() > 0.02;
        (rx as i64, ry as i64, off as i64)
    }
}

pub struct Run {
    g: G,
    pub frame: Frame,
    bits: HashMap<(u32, u32), i64>,
    trace: i64,
    pub broken: bool,
    silent: bool,
    /// Observed nodes and edges (lattice units), for choosing the next call
    pub nodes: Vec<(i64, i64, i64)>,
    pub edges: Vec<(usize, usize)>,
}

impl Run {
    pub fn new(trace: i64, frame: Frame) -> Run {
        let mut r = Run::new_silent(trace, frame);
        r.silent = false;
        let st = r.observe();
        emit(&json!({"t": trace, "op": "init", "a": [], "k": "ok", "i": -1, "n": [], "e": [], "N": st.0, "E": st.1, "q": []}));
        r
    }

    /// Starts recording in the middle of a history: the first event is the state reached so far.
    fn start(&mut self) {
        self.silent = false;
        let st = self.observe();
        emit(&json!({"t": self.trace, "op": "state", "a": [], "k": "ok", "i": -1, "n": [], "e": [], "N": st.0, "E": st.1, "q": []}));
    }

    fn new_silent(trace: i64, frame: Frame) -> Run {
        Run {
            g: PlanarGraph::new(),
            frame,
            bits: HashMap::new(),
            trace,
            broken: false,
            silent: true,
            nodes: vec![],
            edges: vec![],
        }
    }

    fn intern(&mut self, v: &Vec2) -> i64 {
        let n = self.bits.len() as i64;
        *self.bits.entry((v.x.to_bits(), v.y.to_bits())).or_insert(n)
    }

    /// Positions and edges only, for choosing the next call.
    fn refresh(&mut self) {
        let frame = self.frame;
        self.nodes = self.g.get_nodes().iter().map(|n| frame.lattice(n.get_position())).collect();
        self.edges = self.g.get_edges().iter().map(|e| e.get_node_indices()).collect();
        for i in 0..self.nodes.len() {
            let v = *self.g.get_nodes()[i].get_position();
            self.intern(&v);
        }
    }

    fn observe(&mut self) -> (Value, Value) {
        let raw: Vec<(Vec2, i64)> = self
            .g
            .get_nodes()
            .iter()
            .map(|n| {
                let s = format!("{:?}", n);
                let d = s
                    .split("<<")
                    .nth(1)
                    .and_then(|r| r.split(">>").next())
                    .and_then(|t| t.parse::<i64>().ok())
                    .unwrap_or(-9999);
                (*n.get_position(), d)
            })
            .collect();
        self.nodes.clear();
        let mut ns = vec![];
        for (v, d) in raw.iter() {
            let (x, y, off) = self.frame.lattice(v);
            let b = self.intern(v);
            self.nodes.push((x, y, off));
            ns.push(json!([x, y, d, off, b]));
        }
        self.edges = self.g.get_edges().iter().map(|e| e.get_node_indices()).collect();
        let es: Vec<Value> = self
            .g
            .get_edges()
            .iter()
            .map(|e| {
                let (s, d) = e.get_node_indices();
                json!([clamp_u(s), clamp_u(d), clamp_i(*e.get_data() as i64)])
            })
            .collect();
        (Value::from(ns), Value::from(es))
    }

    fn call(
        &mut self,
        op: &str,
        args: Value,
        f: impl FnOnce(&mut G) -> (String, i64, Vec<usize>, Vec<usize>),
    ) {
        let mut ev = json!({"t": self.trace, "op": op, "a": args, "k": "dead", "i": -1, "n": [], "e": [], "N": [], "E": [], "q": []});
        if !self.silent {
            begin(&ev);
        }
        let g = &mut self.g;
        match guard(|| f(g)) {
            Some((k, i, n, e)) => {
                ev["k"] = json!(k);
                ev["i"] = json!(i);
                ev["n"] = Value::from(n.into_iter().map(clamp_u).collect::<Vec<_>>());
                ev["e"] = Value::from(e.into_iter().map(clamp_u).collect::<Vec<_>>());
            }
            None => {
                ev["k"] = json!("panic");
                self.broken = true;
            }
        }
        if self.silent {
            self.refresh();
        } else {
            let st = self.observe();
            ev["N"] = st.0;
            ev["E"] = st.1;
            emit(&ev);
        }
        // The domain of the trace specification ends where the state leaves the lattice or refers
        // to nothing; that state itself has been recorded and is judged.
        let n = self.nodes.len();
        if self.nodes.iter().any(|p| p.2 != 0) || self.edges.iter().any(|e| e.0 >= n || e.1 >= n) {
            self.broken = true;
        }
    }

    pub fn add_node(&mut self, p: (i64, i64), data: i32) {
        let v = self.frame.pos(p);
        let b = self.intern(&v);
        self.call("add_node", json!([p.0, p.1, data, b]), |g| {
            let (i, e) = g.add_node(&v, Tag(data));
            ("ok".into(), clamp_u(i), vec![], e)
        });
    }
    pub fn add_edge(&mut self, s: usize, d: usize, data: i32) {
        self.call("add_edge", json!([clamp_u(s), clamp_u(d), data]), |g| match g.add_edge(s, d, data) {
            Ok((n, e)) => ("ok".into(), -1, n, e),
            Err(_) => ("err".into(), -1, vec![], vec![]),
        });
    }
    pub fn remove_node(&mut self, i: usize) {
        self.call("remove_node", json!([clamp_u(i)]), |g| {
            let (n, e) = g.remove_node(i);
            ("ok".into(), -1, n, e)
        });
    }
    pub fn remove_edge(&mut self, i: usize) {
        self.call("remove_edge", json!([clamp_u(i)]), |g| {
            let (n, e) = g.remove_edge(i);
            ("ok".into(), -1, n, e)
        });
    }

    /// Asks every query about the current state; all answers go into one event.
    pub fn query(&mut self, rng: &mut Rng) {
        let n = self.nodes.len();
        let m = self.edges.len();
        let mut ev = json!({"t": self.trace, "op": "query", "a": [], "k": "dead", "i": -1, "n": [], "e": [], "N": [], "E": [], "q": []});
        begin(&ev);
        let mut node_ids: Vec<usize> = (0..n + 2).collect();
        let mut edge_ids: Vec<usize> = (0..m + 2).collect();
        node_ids.push(n + 1000);
        edge_ids.push(m + 1000);
        let mut pairs = vec![];
        if n <= 9 {
            for a in 0..=n {
                for b in 0..=n {
                    pairs.push((a, b));
                }
            }
        } else {
            for _ in 0..50 {
                pairs.push((rng.int(0, n as i64) as usize, rng.int(0, n as i64 - 1) as usize));
            }
            for _ in 0..30 {
                if m > 0 {
                    let e = *rng.pick(&self.edges);
                    pairs.push(if rng.chance(50) { e } else { (e.1, e.0) });
                }
            }
        }
        let g = &self.g;
        let frame = self.frame;
        let res = guard(|| {
            let nodes: Vec<Value> = node_ids
                .iter()
                .map(|&i| {
                    let v = g.get_vertex(i).map(|n| frame.lattice(n.get_position()));
                    json!([
                        i,
                        g.has_node_at_index(i) as i64,
                        v.is_some() as i64,
                        v.map_or(0, |p| p.0),
                        v.map_or(0, |p| p.1),
                        g.number_of_edges_incident_to(i).map_or(-1, clamp_u)
                    ])
                })
                .collect();
            let edges: Vec<Value> = edge_ids
                .iter()
                .map(|&i| {
                    let e = g.get_edge(i).map(|e| (e.get_node_indices(), *e.get_data()));
                    let ends: Vec<usize> = (0..n).filter(|&k| g.get_edge(i).map_or(false, |e| e.includes(k))).collect();
                    json!([
                        i,
                        g.has_edge_at_index(i) as i64,
                        e.is_some() as i64,
                        e.map_or(0, |x| clamp_u((x.0).0)),
                        e.map_or(0, |x| clamp_u((x.0).1)),
                        e.map_or(0, |x| x.1),
                        ends
                    ])
                })
                .collect();
            let between: Vec<Value> = pairs
                .iter()
                .map(|&(a, b)| json!([a, b, g.has_edge_between_nodes(a, b) as i64]))
                .collect();
            json!([{"nc": clamp_u(g.node_count()), "ec": clamp_u(g.edge_count()), "nodes": nodes, "edges": edges, "pairs": between}])
        });
        match res {
            Some(q) => {
                ev["k"] = json!("ok");
                ev["q"] = q;
            }
            None => {
                ev["k"] = json!("panic");
                self.broken = true;
            }
        }
        let st = self.observe();
        ev["N"] = st.0;
        ev["E"] = st.1;
        emit(&ev);
    }

    // ---- domain filter: which calls keep features separated by more than rounding error ----

    fn pt(&self, i: usize) -> (i64, i64) {
        (self.nodes[i].0, self.nodes[i].1)
    }

    pub fn node_ok(&self, p: (i64, i64)) -> bool {
        self.edges.iter().all(|&(s, d)| clear_of(p, self.pt(s), self.pt(d)))
    }

    pub fn edge_ok(&self, s: usize, d: usize, size: i64) -> bool {
        let (a, b) = (self.pt(s), self.pt(d));
        if s == d {
            return true;
        }
        if !(0..self.nodes.len()).all(|i| i == s || i == d || clear_of(self.pt(i), a, b)) {
            return false;
        }
        let mut crossings: Vec<(i64, i64)> = vec![];
        for &(p, q) in self.edges.iter() {
            let (c, e) = (self.pt(p), self.pt(q));
            let (d1, d2) = (cross(a, b, c), cross(a, b, e));
            let (d3, d4) = (cross(c, e, a), cross(c, e, b));
            if (d1 > 0) == (d2 > 0) || d1 == 0 || d2 == 0 || (d3 > 0) == (d4 > 0) || d3 == 0 || d4 == 0 {
                continue;
            }
            let den = d4 - d3; // (b - a) x (e - c), up to sign
            let la = (((b.0 - a.0).pow(2) + (b.1 - a.1).pow(2)) as f64).sqrt();
            let lc = (((e.0 - c.0).pow(2) + (e.1 - c.1).pow(2)) as f64).sqrt();
            if (den as f64).abs() < 0.15 * la * lc {
                return false; // too shallow for single precision
            }
            // crossing at a + (b - a) * d3 / (d3 - d4)
            let (nx, ny) = ((b.0 - a.0) * d3, (b.1 - a.1) * d3);
            let dd = d3 - d4;
            if nx % dd != 0 || ny % dd != 0 {
                return false;
            }
            let x = (a.0 + nx / dd, a.1 + ny / dd);
            // the crossing itself must be clear of every other edge and node
            if !self.node_ok(x) {
                return false;
            }
            crossings.push(x);
        }
        let _ = size;
        true
    }
}

pub fn cross(a: (i64, i64), b: (i64, i64), c: (i64, i64)) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}

/// p is on segment ab or at least 1/8 of a lattice unit away from it
fn clear_of(p: (i64, i64), a: (i64, i64), b: (i64, i64)) -> bool {
    let c = cross(a, b, p).abs() as f64;
    let len = (((b.0 - a.0).pow(2) + (b.1 - a.1).pow(2)) as f64).sqrt();
    c == 0.0 || c > 0.125 * len || {
        let d = (p.0 - a.0) * (b.0 - a.0) + (p.1 - a.1) * (b.1 - a.1);
        let l2 = (len * len) as i64;
        d < 0 || d > l2
    }
}

const FRAMES: &[(f64, i64, i64)] = &[
    (1.0, 0, 0),
    (1.0, -120, -120),
    (0.1, 0, 0),
    (1.0 / 3.0, -120, 0),
    (0.0041666666, 0, 0), // unit square
    (2.0833333, 0, 0),    // 500 x 500 canvas, as in the examples
    (0.015625, 300, -500),
    (1.0, 700, 900),
    (37.0, -60, -200),
    (0.1, -120, -120),
    (1.0 / 3.0, -120, -120),
    (0.7, -60, -60),
    (0.0001, 0, 0), // the whole drawing is smaller than 1/40
    (0.0001, -120, -60),
    (4000.0, 0, 0), // nearly a million wide
    (4096.0, -240, -10),
    (1.0 / 240.0, -120, -240),
];

pub fn random(seed: u64, traces: usize, max_ops: i64, first: i64) {
    for t in 0..traces {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(first as u64 + t as u64));
        let f = if rng.chance(30) { FRAMES[0] } else { *rng.pick(FRAMES) };
        let frame = Frame { unit: f.0, ox: f.1, oy: f.2 };
        let mut r = Run::new(first + t as i64, frame);
        let profile = rng.int(0, 9);
        // spacing of the coarse grid that new nodes are usually taken from
        let step = *rng.pick(&[60i64, 60, 48, 40, 30, 24, 80, 120, 20, 12]);
        let cap_nodes = *rng.pick(&[8usize, 14, 25, 40]);
        let ops = rng.int(6, max_ops);
        let fine = rng.chance(15);
        let point = |rng: &mut Rng| -> (i64, i64) {
            if fine || rng.chance(8) {
                (rng.int(0, 240), rng.int(0, 240))
            } else {
                (rng.int(0, 240 / step) * step, rng.int(0, 240 / step) * step)
            }
        };
        let mut data = 1;
        if profile == 0 {
            // hub: a star around one node, added first or last
            let c = (120, 120);
            let first_hub = rng.chance(50);
            if first_hub {
                r.add_node(c, 1);
            }
            for _ in 0..rng.int(3, 9) {
                let p = point(&mut rng);
                if p != c {
                    r.add_node(p, 2);
                }
            }
            if !first_hub {
                r.add_node(c, 1);
            }
            if let Some(h) = r.nodes.iter().position(|p| (p.0, p.1) == c) {
                for i in 0..r.nodes.len() {
                    if !r.broken && i != h && i < r.nodes.len() && r.edge_ok(h, i, 240) {
                        r.add_edge(h, i, 1);
                    }
                }
            }
        } else if profile == 1 {
            // one long edge with many nodes placed on it, in random order
            r.add_node((0, 0), 1);
            let end = *rng.pick(&[(240, 0), (0, 240), (240, 240), (240, 120), (240, 80)]);
            r.add_node(end, 1);
            if rng.chance(60) {
                r.add_edge(0, 1, 7);
            }
            for _ in 0..rng.int(2, 8) {
                let k = rng.int(1, 11);
                r.add_node((end.0 * k / 12, end.1 * k / 12), 3);
            }
            if !r.broken && r.nodes.len() > 1 {
                r.add_edge(1, 0, 8);
            }
        } else if profile == 2 {
            // grid lines crossed by diagonals
            let k = rng.int(1, 3);
            for i in 0..=k {
                let c = 240 * i / k;
                r.add_node((c, 0), 1);
                r.add_node((c, 240), 1);
                if !r.broken {
                    let n = r.nodes.len();
                    if r.edge_ok(n - 2, n - 1, 240) {
                        r.add_edge(n - 2, n - 1, 2);
                    }
                }
            }
        }
        for _ in 0..ops {
            if r.broken {
                break;
            }
            let n = r.nodes.len();
            let m = r.edges.len();
            data = data % 9 + 1;
            let x = rng.int(0, 99);
            let grow = n < cap_nodes && m < 2 * cap_nodes;
            let (wn, we) = if grow { (30, 72) } else { (5, 25) };
            if x < wn || n < 2 {
                let y = rng.int(0, 99);
                let p = if y < 20 && m > 0 {
                    // a lattice point on an existing edge
                    let e = *rng.pick(&r.edges.clone());
                    let (a, b) = (r.nodes[e.0], r.nodes[e.1]);
                    let k = rng.int(1, 5);
                    let q = *rng.pick(&[2i64, 3, 4, 5, 6]);
                    let k = k % q;
                    if ((b.0 - a.0) * k) % q == 0 && ((b.1 - a.1) * k) % q == 0 {
                        (a.0 + (b.0 - a.0) * k / q, a.1 + (b.1 - a.1) * k / q)
                    } else {
                        point(&mut rng)
                    }
                } else if y < 30 && n > 0 {
                    let p = rng.pick(&r.nodes).clone();
                    (p.0, p.1)
                } else {
                    point(&mut rng)
                };
                if r.node_ok(p) {
                    r.add_node(p, data);
                }
            } else if x < we {
                let mut done = false;
                for _ in 0..12 {
                    let s = rng.int(0, n as i64 - 1) as usize;
                    let d = rng.int(0, n as i64 - 1) as usize;
                    if (s != d || rng.chance(10)) && r.edge_ok(s, d, 240) {
                        r.add_edge(s, d, data);
                        done = true;
                        break;
                    }
                }
                if !done && r.broken {
                    break;
                }
            } else if x < we + 9 {
                let over = if rng.chance(90) { 1 } else { 0 };
                r.remove_edge(rng.int(0, m.max(1) as i64 - over) as usize);
            } else if x < we + 16 {
                let over = if rng.chance(92) { 1 } else { 0 };
                r.remove_node(rng.int(0, n as i64 - over) as usize);
            } else if x < we + 19 && m > 0 {
                // an edge that exists, in either direction
                let e = *rng.pick(&r.edges.clone());
                if rng.chance(50) {
                    r.add_edge(e.0, e.1, data)
                } else {
                    r.add_edge(e.1, e.0, data)
                }
            } else if x < we + 21 {
                let far = n + *rng.pick(&[0usize, 0, 1, 5, 1000000]);
                let near = rng.int(0, n as i64 - 1) as usize;
                match rng.int(0, 4) {
                    0 => r.add_edge(far, near, data),
                    1 => r.add_edge(near, far, data),
                    2 => r.add_edge(far, far, data),
                    3 => r.remove_node(far),
                    _ => r.remove_edge(m + far - n),
                }
            } else if x < we + 24 {
                r.query(&mut rng);
            } else if m > 2 && rng.chance(30) {
                // the last or first slots
                match rng.int(0, 3) {
                    0 => r.remove_edge(m - 1),
                    1 => r.remove_edge(0),
                    2 => r.remove_node(n - 1),
                    _ => r.remove_node(0),
                }
            }
        }
        if !r.broken {
            r.query(&mut rng);
        }
        // often tear the whole drawing down again
        if rng.chance(35) {
            let by_edge = rng.chance(50);
            for _ in 0..400 {
                if r.broken || r.nodes.is_empty() {
                    break;
                }
                if by_edge && !r.edges.is_empty() {
                    r.remove_edge(rng.int(0, r.edges.len() as i64 - 1) as usize);
                } else {
                    r.remove_node(rng.int(0, r.nodes.len() as i64 - 1) as usize);
                }
            }
        }
    }
}

/// Large drawings: many nodes and edges on axis-parallel and diagonal lines, then removals.
pub fn large(seed: u64, traces: usize, first: i64) {
    for t in 0..traces {
        let mut rng = Rng::new((seed ^ 0x1A26E).wrapping_mul(1_000_003).wrapping_add(first as u64 + t as u64));
        let f = *rng.pick(FRAMES);
        let mut r = Run::new(first + t as i64, Frame { unit: f.0, ox: f.1, oy: f.2 });
        let k = rng.int(4, 9);
        let step = 240 / 12;
        for i in 0..k {
            let c = (i * 12 / k) * step;
            let (p, q) = if rng.chance(50) { ((c, 0), (c, 240)) } else { ((0, c), (240, c)) };
            for z in [p, q].iter() {
                if !r.broken && r.node_ok(*z) {
                    r.add_node(*z, 1);
                }
            }
            let a = r.nodes.iter().position(|n| (n.0, n.1) == p);
            let b = r.nodes.iter().position(|n| (n.0, n.1) == q);
            if let (Some(a), Some(b)) = (a, b) {
                if !r.broken && r.edge_ok(a, b, 240) {
                    r.add_edge(a, b, i as i32 + 1);
                }
            }
        }
        let mut tries = 0;
        while !r.broken && tries < 30 && r.nodes.len() < 150 {
            tries += 1;
            let n = r.nodes.len() as i64;
            let s = rng.int(0, n - 1) as usize;
            let d = rng.int(0, n - 1) as usize;
            if s != d && r.edge_ok(s, d, 240) {
                r.add_edge(s, d, tries);
            }
        }
        for _ in 0..25 {
            if r.broken || r.nodes.len() < 2 {
                break;
            }
            match rng.int(0, 3) {
                0 => r.remove_node(rng.int(0, r.nodes.len() as i64 - 1) as usize),
                1 if !r.edges.is_empty() => r.remove_edge(rng.int(0, r.edges.len() as i64 - 1) as usize),
                2 => {
                    let s = rng.int(0, r.nodes.len() as i64 - 1) as usize;
                    let d = rng.int(0, r.nodes.len() as i64 - 1) as usize;
                    if r.edge_ok(s, d, 240) {
                        r.add_edge(s, d, 5);
                    }
                }
                _ => {
                    let p = (rng.int(0, 12) * step, rng.int(0, 12) * step);
                    if r.node_ok(p) {
                        r.add_node(p, 6);
                    }
                }
            }
        }
        if !r.broken {
            r.query(&mut rng);
        }
    }
}

/// Drawings in which one edge meets many others: bundles of parallel edges cut by long edges, in
/// random order, then edges through the crossings, repeated requests, and removals.
pub fn comb(seed: u64, traces: usize, first: i64) {
    for t in 0..traces {
        let mut rng = Rng::new((seed ^ 0xC0_4B).wrapping_mul(1_000_003).wrapping_add(first as u64 + t as u64));
        let f = *rng.pick(FRAMES);
        let mut r = Run::new(first + t as i64, Frame { unit: f.0, ox: f.1, oy: f.2 });
        let step = *rng.pick(&[10i64, 12, 20, 20, 24, 30]);
        let most = 240 / step;
        let (down, across) = (rng.int(2, most), rng.int(1, (160 / most).min(12)));
        let flip = rng.chance(50);
        let at = |a: i64, b: i64| if flip { (b, a) } else { (a, b) };
        // the lines: (ends, data), in one bundle the same data for all, in the other different ones
        let mut lines: Vec<((i64, i64), (i64, i64), i32)> = vec![];
        let late = rng.chance(50); // the long edges come last (each crosses all) or anywhere
        for i in 0..down {
            let c = step * i + if step == 10 { 0 } else { rng.int(0, 1) * (step / 2) };
            lines.push((at(c, 0), at(c, 240), 1 + (i % 5) as i32));
        }
        let mut cutters = vec![];
        for _ in 0..across {
            let y = rng.int(1, most - 1) * step;
            cutters.push(match rng.int(0, 3) {
                0 => (at(0, 0), at(240, 240), 7),
                1 => (at(240, 0), at(0, 240), 8),
                _ => (at(0, y), at(240, y), 6),
            });
        }
        if !late {
            lines.append(&mut cutters);
        }
        for i in (1..lines.len()).rev() {
            let j = rng.int(0, i as i64) as usize;
            lines.swap(i, j);
        }
        lines.append(&mut cutters);
        if rng.chance(40) {
            // nodes first, edges later
            for l in lines.iter() {
                for z in [l.0, l.1].iter() {
                    if !r.broken && r.node_ok(*z) {
                        r.add_node(*z, 1);
                    }
                }
            }
        }
        for l in lines.iter() {
            for z in [l.0, l.1].iter() {
                if !r.broken && !r.nodes.iter().any(|n| (n.0, n.1) == *z) && r.node_ok(*z) {
                    r.add_node(*z, 2);
                }
            }
            let a = r.nodes.iter().position(|n| (n.0, n.1) == l.0);
            let b = r.nodes.iter().position(|n| (n.0, n.1) == l.1);
            if let (Some(a), Some(b)) = (a, b) {
                let (a, b) = if rng.chance(50) { (a, b) } else { (b, a) };
                if !r.broken && r.edge_ok(a, b, 240) {
                    r.add_edge(a, b, l.2);
                }
            }
        }
        for k in 0..rng.int(5, 25) {
            if r.broken || r.nodes.len() < 2 {
                break;
            }
            let (n, m) = (r.nodes.len() as i64, r.edges.len() as i64);
            match rng.int(0, 9) {
                0 | 1 => r.remove_node(rng.int(0, n - 1) as usize),
                2 | 3 if m > 0 => r.remove_edge(rng.int(0, m - 1) as usize),
                4 if m > 0 => {
                    let e = *rng.pick(&r.edges.clone());
                    if rng.chance(50) {
                        r.add_edge(e.0, e.1, 9)
                    } else {
                        r.add_edge(e.1, e.0, 9)
                    }
                }
                5 => {
                    let p = *rng.pick(&r.nodes.clone());
                    r.add_node((p.0, p.1), 9)
                }
                6 => {
                    let p = (rng.int(0, 2 * most) * step / 2, rng.int(0, 2 * most) * step / 2);
                    if r.node_ok(p) {
                        r.add_node(p, 4);
                    }
                }
                _ => {
                    for _ in 0..10 {
                        let (s, d) = (rng.int(0, n - 1) as usize, rng.int(0, n - 1) as usize);
                        if s != d && r.edge_ok(s, d, 240) {
                            r.add_edge(s, d, 3 + k as i32);
                            break;
                        }
                    }
                }
            }
        }
        if !r.broken {
            r.query(&mut rng);
        }
        // sometimes down to nothing, newest or oldest first
        if rng.chance(30) {
            let newest = rng.chance(50);
            while !r.broken && !r.nodes.is_empty() {
                let n = r.nodes.len();
                r.remove_node(if newest { n - 1 } else { 0 });
            }
        }
    }
}

/// Replays histories written by the model checker: one JSON object `{"h": [call, ...]}` per line,
/// each call `["add_node",x,y,data(,_)]`, and either by position (CreaseGraph has no indices)
/// `["add_edge",x1,y1,x2,y2,data]`, `["remove_node",x,y]`, `["remove_edge",x1,y1,x2,y2]`, or by
/// index (CreaseGraphIndexed) `["add_edge",i,j,data]`, `["remove_node",i]`, `["remove_edge",i]`.
/// Only the last call of each history is recorded, after an event with the state before it (its
/// prefix is the end of another history). `queries`: ask all queries after it.
pub fn replay(input: &str, first: i64, seed: u64, queries: bool) {
    let text = std::fs::read_to_string(input).expect("histories");
    let mut rng = Rng::new(seed);
    for (k, line) in text.lines().enumerate() {
        let v: Value = serde_json::from_str(line).expect("history");
        let ops = v["h"].as_array().expect("calls").clone();
        let f = if k % 3 == 0 { FRAMES[0] } else { FRAMES[(k + seed as usize) % FRAMES.len()] };
        let mut r = Run::new_silent(first + k as i64, Frame { unit: f.0, ox: f.1, oy: f.2 });
        for (j, op) in ops.iter().enumerate() {
            if r.broken {
                break;
            }
            if j + 1 == ops.len() {
                r.start();
            }
            let a: Vec<i64> = op.as_array().unwrap()[1..].iter().map(|v| v.as_i64().unwrap()).collect();
            let at = |r: &Run, x: i64, y: i64| r.nodes.iter().position(|n| (n.0, n.1) == (x, y));
            let inside = |r: &Run, i: usize, j: usize| i < r.nodes.len() && j < r.nodes.len();
            match (op[0].as_str().unwrap(), a.len()) {
                ("add_node", _) => {
                    if r.node_ok((a[0], a[1])) {
                        r.add_node((a[0], a[1]), a[2] as i32)
                    }
                }
                ("add_edge", 5) => {
                    if let (Some(s), Some(d)) = (at(&r, a[0], a[1]), at(&r, a[2], a[3])) {
                        if r.edge_ok(s, d, 240) {
                            r.add_edge(s, d, a[4] as i32)
                        }
                    }
                }
                ("add_edge", 3) => {
                    let (s, d) = (a[0] as usize, a[1] as usize);
                    if !inside(&r, s, d) || r.edge_ok(s, d, 240) {
                        r.add_edge(s, d, a[2] as i32)
                    }
                }
                ("remove_node", 2) => {
                    if let Some(s) = at(&r, a[0], a[1]) {
                        r.remove_node(s)
                    }
                }
                ("remove_node", 1) => r.remove_node(a[0] as usize),
                ("remove_edge", 4) => {
                    if let (Some(s), Some(d)) = (at(&r, a[0], a[1]), at(&r, a[2], a[3])) {
                        if let Some(e) = r.edges.iter().position(|&e| e == (s, d) || e == (d, s)) {
                            r.remove_edge(e)
                        }
                    }
                }
                ("remove_edge", 1) => r.remove_edge(a[0] as usize),
                x => panic!("unknown call {:?}", x),
            }
        }
        if queries && !r.broken {
            r.query(&mut rng);
        }
    }
}
