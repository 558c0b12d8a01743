//! Scenarios for the math module.  Operands are small integers (scaled by powers of two where the
//! operation is homogeneous), in three number types.
use crate::rt::*;
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use kami::math::bivector::Bivector3;
use kami::math::blade;
use kami::math::rotor::Rotor3;
use kami::math::space::{Contraction, Exterior, Norm};
use kami::math::trivector::Trivector3;
use kami::math::vector::Vector3;
use num_traits::{One, Zero};
use serde_json::{json, Map, Value};

static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn log(op: &str, base: Value, f: impl FnOnce() -> Value) -> Option<Value> {
    let t = COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let mut ev = json!({"op": op, "t": t, "k": "?"});
    ev.as_object_mut().unwrap().extend(base.as_object().unwrap().clone());
    begin(&ev);
    let got = guard(f);
    let o = ev.as_object_mut().unwrap();
    o.insert("k".into(), json!(if got.is_some() { "ok" } else { "panic" }));
    if let Some(Value::Object(m)) = &got {
        let m: Map<String, Value> = m.clone();
        o.extend(m);
    }
    emit(&ev);
    got
}
fn ints(r: &mut Rng, n: usize, w: i64) -> Vec<i64> {
    (0..n).map(|_| if r.chance(20) { 0 } else { r.int(-w, w) }).collect()
}

/// Component access without relying on the operations under test.
pub trait Num: Copy + std::fmt::Debug {
    fn from_i(x: i64) -> Self;
    fn to_i(self) -> i64;
    fn chunks(self) -> Vec<i64>;
    fn parse(s: &str) -> Self;
}
impl Num for i64 {
    fn from_i(x: i64) -> i64 { x }
    fn to_i(self) -> i64 { clamp_i(self) }
    fn chunks(self) -> Vec<i64> { (0..4).map(|k| ((self as u64) >> (16 * k) & 0xffff) as i64).collect() }
    fn parse(s: &str) -> i64 { s.parse().unwrap_or(BIG) }
}
impl Num for f32 {
    fn from_i(x: i64) -> f32 { x as f32 }
    fn to_i(self) -> i64 { int_of(self as f64) }
    fn chunks(self) -> Vec<i64> { (0..2).map(|k| (self.to_bits() >> (16 * k) & 0xffff) as i64).collect() }
    fn parse(s: &str) -> f32 { s.parse().unwrap_or(f32::MAX) }
}
impl Num for f64 {
    fn from_i(x: i64) -> f64 { x as f64 }
    fn to_i(self) -> i64 { int_of(self) }
    fn chunks(self) -> Vec<i64> { (0..4).map(|k| (self.to_bits() >> (16 * k) & 0xffff) as i64).collect() }
    fn parse(s: &str) -> f64 { s.parse().unwrap_or(f64::MAX) }
}

fn v<T: Copy>(c: &[T]) -> Vector3<T> { Vector3 { a1: c[0], a2: c[1], a3: c[2] } }
fn b<T: Copy>(c: &[T]) -> Bivector3<T> { Bivector3 { b1: c[0], b2: c[1], b3: c[2] } }
fn t<T: Copy>(c: &[T]) -> Trivector3<T> { Trivector3::new(c[0]) }
fn r<T: Copy>(c: &[T]) -> Rotor3<T> { Rotor3 { scalar: c[0], bivector: b(&c[1..4]) } }
fn cv<T: Copy>(x: &Vector3<T>) -> Vec<T> { vec![x.a1, x.a2, x.a3] }
fn cb<T: Copy>(x: &Bivector3<T>) -> Vec<T> { vec![x.b1, x.b2, x.b3] }
fn cr<T: Copy>(x: &Rotor3<T>) -> Vec<T> { vec![x.scalar, x.bivector.b1, x.bivector.b2, x.bivector.b3] }
/// The component of a trivector has no accessor: it is read from the Debug form.
fn ct<T: Num>(x: &Trivector3<T>) -> Vec<T> {
    let s = format!("{:?}", x);
    let num: String = s[s.find(['{', '(']).unwrap_or(0)..]
        .rsplit(|c: char| c == ':' || c == '(' || c == ' ')
        .find(|w| w.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == 'i' || c == 'N'))
        .unwrap_or("")
        .trim_end_matches(|c: char| c == ')' || c == '}' || c == ',')
        .to_string();
    vec![T::parse(&num)]
}
fn is<T: Num>(c: Vec<T>) -> Value { json!(c.iter().map(|x| x.to_i()).collect::<Vec<_>>()) }
fn cat<T>(mut a: Vec<T>, b: Vec<T>) -> Vec<T> { a.extend(b); a }
fn bits<T: Num>(c: Vec<T>) -> Value { json!(c.iter().map(|x| x.chunks()).collect::<Vec<_>>()) }

const PRODUCTS: [(&str, usize, usize); 14] = [
    ("vv_mul", 3, 3), ("vv_dot", 3, 3), ("vv_wedge", 3, 3), ("vb_mul", 3, 3), ("bb_mul", 3, 3),
    ("bb_dot", 3, 3), ("bb_wedge", 3, 3), ("bv_wedge", 3, 3), ("tt_mul", 1, 1), ("tt_dot", 1, 1),
    ("tt_wedge", 1, 1), ("rr_mul", 4, 4), ("rr_dot", 4, 4), ("rv_mul", 4, 3),
];

macro_rules! exact {
    ($m:ident, $t:ty) => {
        mod $m {
            use super::*;
            pub fn product(f: &str, x: &[i64], y: &[i64]) -> Option<Value> {
                let (xs, ys): (Vec<$t>, Vec<$t>) =
                    (x.iter().map(|i| <$t>::from_i(*i)).collect(), y.iter().map(|i| <$t>::from_i(*i)).collect());
                log("prod", json!({"f": f, "a": [x, y], "kind": stringify!($t)}), || {
                    let (x, y) = (&xs[..], &ys[..]);
                    json!({"r": is(match f {
                        "vv_mul" => cr(&(v(x) * v(y))),
                        "vv_dot" => vec![v(x).dot(v(y))],
                        "vv_wedge" => cb(&v(x).wedge(v(y))),
                        "vb_mul" => { let (p, q) = v(x) * b(y); cat(cv(&p), ct(&q)) }
                        "bb_mul" => cr(&(b(x) * b(y))),
                        "bb_dot" => vec![b(x).dot(b(y))],
                        "bb_wedge" => cb(&b(x).wedge(b(y))),
                        "bv_wedge" => ct(&b(x).wedge(v(y))),
                        "tt_mul" => vec![t(x) * t(y)],
                        "tt_dot" => vec![t(x).dot(t(y))],
                        "tt_wedge" => vec![t(x).wedge(t(y))],
                        "rr_mul" => cr(&(r(x) * r(y))),
                        "rr_dot" => vec![r(x).dot(r(y))],
                        _ => { let (p, q) = r(x) * v(y); cat(cv(&p), ct(&q)) }
                    })})
                })
            }
            /// The plain and the assigning form of every operator.
            pub fn linear(kind: &str, f: &str, x: &[i64], y: &[i64]) {
                let (xs, ys): (Vec<$t>, Vec<$t>) =
                    (x.iter().map(|i| <$t>::from_i(*i)).collect(), y.iter().map(|i| <$t>::from_i(*i)).collect());
                log("lin", json!({"f": f, "a": [x, y], "kind": format!("{} {}", kind, stringify!($t))}), || {
                    let (p, a) = forms(kind, f, &xs, &ys);
                    json!({"r": is(p), "asg": is(a)})
                });
            }
            pub fn forms(kind: &str, f: &str, x: &[$t], y: &[$t]) -> (Vec<$t>, Vec<$t>) {
                macro_rules! both {
                    ($mk:ident, $un:ident) => {{
                        let (x, s) = ($mk(x), y[0]);
                        let mut a = x;
                        let p = match f {
                            "add" => { a += $mk(y); x + $mk(y) }
                            "sub" => { a -= $mk(y); x - $mk(y) }
                            "mul" => { a *= s; x * s }
                            "div" => { a /= s; x / s }
                            _ => { a = -x; -x }
                        };
                        ($un(&p), $un(&a))
                    }};
                }
                match kind {
                    "v" => both!(v, cv),
                    "b" => both!(b, cb),
                    "r" => both!(r, cr),
                    _ => {
                        let (x, s) = (t(x), y[0]);
                        let mut a = x;
                        let p = match f {
                            "add" => { a += t(y); x + t(y) }
                            "sub" => { a -= t(y); x - t(y) }
                            "mul" => { a *= s; let mut c = x; c *= s; c }
                            "div" => { a /= s; x / s }
                            _ => { a = -x; -x }
                        };
                        (ct(&p), ct(&a))
                    }
                }
            }
            pub fn constants() {
                let c: Vec<(&str, fn() -> Vec<$t>)> = vec![
                    ("vector zero", || cv(&Vector3::<$t>::zero())),
                    ("unit_x", || cv(&Vector3::<$t>::unit_x())),
                    ("unit_y", || cv(&Vector3::<$t>::unit_y())),
                    ("unit_z", || cv(&Vector3::<$t>::unit_z())),
                    ("bivector zero", || cb(&Bivector3::<$t>::zero())),
                    ("unit_xy", || cb(&Bivector3::<$t>::unit_xy())),
                    ("unit_xz", || cb(&Bivector3::<$t>::unit_xz())),
                    ("unit_yz", || cb(&Bivector3::<$t>::unit_yz())),
                    ("trivector zero", || ct(&Trivector3::<$t>::zero())),
                    ("unit_xyz", || ct(&Trivector3::<$t>::unit_xyz())),
                    ("identity", || cr(&Rotor3::<$t>::identity())),
                ];
                for (name, f) in c {
                    log("const", json!({"a": name, "kind": stringify!($t)}), || json!({"r": is(f())}));
                }
            }
            pub fn zero_and_eq(x: &[i64], y: &[i64]) {
                let xs: Vec<$t> = x.iter().map(|i| <$t>::from_i(*i)).collect();
                let ys: Vec<$t> = y.iter().map(|i| <$t>::from_i(*i)).collect();
                log("iszero", json!({"a": &x[0..3], "kind": "v"}), || json!({"r": v(&xs).is_zero()}));
                log("iszero", json!({"a": &x[0..3], "kind": "b"}), || json!({"r": b(&xs).is_zero()}));
                log("iszero", json!({"a": &x[0..1], "kind": "t"}), || json!({"r": t(&xs).is_zero()}));
                log("eq", json!({"a": [&x[0..3], &y[0..3]], "kind": "v"}), || json!({"r": v(&xs) == v(&ys)}));
                log("eq", json!({"a": [&x[0..3], &y[0..3]], "kind": "b"}), || json!({"r": b(&xs) == b(&ys)}));
                log("eq", json!({"a": [&x[0..1], &y[0..1]], "kind": "t"}), || json!({"r": t(&xs) == t(&ys)}));
                log("eq", json!({"a": [&x[0..4], &y[0..4]], "kind": "r"}), || json!({"r": r(&xs) == r(&ys)}));
            }
        }
    };
}
exact!(int, i64);
exact!(single, f32);
exact!(double, f64);

macro_rules! real {
    ($m:ident, $t:ty, $ex:ident, $max:expr) => {
        mod $m {
            use super::*;
            fn f(c: &[i64], s: f64) -> Vec<$t> { c.iter().map(|x| (*x as f64 * s) as $t).collect() }
            fn fx(c: Vec<$t>, s: f64) -> Value { json!(c.iter().map(|x| fix(*x as f64, s)).collect::<Vec<_>>()) }
            const NAME: &str = stringify!($t);
            type Un = fn(&[$t]) -> Vec<$t>;

            /// Arbitrary operands: only componentwise behavior is compared, bit by bit.
            pub fn any_bits(rng: &mut Rng) {
                let any = |rng: &mut Rng| -> $t {
                    let m = rng.int(-1_000_000_000, 1_000_000_000) as $t / rng.int(1, 1_000_000) as $t;
                    match rng.int(0, 9) { 0 => 0.0, 1 => -0.0, 2 => m * 1e-30, 3 => m * 1e25, _ => m }
                };
                for kind in ["v", "b", "t", "r"] {
                    let n = match kind { "t" => 1, "r" => 4, _ => 3 };
                    let x: Vec<$t> = (0..n).map(|_| any(rng)).collect();
                    let mut y: Vec<$t> = (0..n).map(|_| any(rng)).collect();
                    if y[0] == 0.0 { y[0] = 3.7; }
                    for op in ["add", "sub", "mul", "div", "neg"] {
                        log("bits", json!({"f": op, "kind": format!("{} {}", kind, NAME), "a": format!("{:?} {:?}", x, y)}), || {
                            let (p, a) = $ex::forms(kind, op, &x, &y);
                            let c: Vec<$t> = (0..n).map(|i| match op {
                                "add" => x[i] + y[i],
                                "sub" => x[i] - y[i],
                                "mul" => x[i] * y[0],
                                "div" => x[i] / y[0],
                                _ => -x[i],
                            }).collect();
                            json!({"r": bits(p), "asg": bits(a), "comps": bits(c)})
                        });
                    }
                }
            }
            /// Tolerance comparisons; comps: the same comparison of each component.
            pub fn close(rng: &mut Rng) {
                let e = <$t>::EPSILON;
                let x: Vec<$t> = (0..4).map(|_| rng.int(-40, 40) as $t / 8.0).collect();
                let eps = *rng.pick(&[0.0, e, 0.5, 0.125, 1.0]);
                let rel = *rng.pick(&[0.0, e, 0.1, 0.5]);
                let ulps = rng.int(0, 8) as u32;
                let mut y = x.clone();
                for i in 0..4 {
                    if rng.chance(35) {
                        y[i] = match rng.int(0, 4) {
                            0 => y[i] + eps,
                            1 => y[i] - 0.125,
                            2 => y[i] * (1.0 + e),
                            3 => y[i] * (1.0 + 4.0 * e),
                            _ => -y[i],
                        };
                    }
                }
                let a = format!("{:?} {:?} eps {} rel {} ulps {}", x, y, eps, rel, ulps);
                macro_rules! all {
                    ($kind:expr, $mk:ident, $n:expr) => {
                        let (p, q) = ($mk(&x), $mk(&y));
                        let n: usize = $n;
                        let base = |f: &str| json!({"f": f, "kind": $kind, "a": a});
                        let one = |g: &dyn Fn($t, $t) -> bool| (0..n).map(|i| g(x[i], y[i])).collect::<Vec<_>>();
                        log("approx", base("abs"), || json!({"r": p.abs_diff_eq(&q, eps), "comps": one(&|u, w| u.abs_diff_eq(&w, eps))}));
                        log("approx", base("rel"), || json!({"r": p.relative_eq(&q, eps, rel), "comps": one(&|u, w| u.relative_eq(&w, eps, rel))}));
                        log("approx", base("ulps"), || json!({"r": p.ulps_eq(&q, eps * e, ulps), "comps": one(&|u, w| u.ulps_eq(&w, eps * e, ulps))}));
                        log("approx", base("abs default"), || json!({"r": approx::abs_diff_eq!(p, q), "comps": one(&|u, w| approx::abs_diff_eq!(u, w))}));
                        log("approx", base("rel default"), || json!({"r": approx::relative_eq!(p, q), "comps": one(&|u, w| approx::relative_eq!(u, w))}));
                        log("approx", base("ulps default"), || json!({"r": approx::ulps_eq!(p, q), "comps": one(&|u, w| approx::ulps_eq!(u, w))}));
                    };
                }
                all!("v", v, 3);
                all!("b", b, 3);
                all!("t", t, 1);
                all!("r", r, 4);
            }

            pub fn norms(kind: &str, x: &[i64], s: f64) {
                let xs = f(x, s);
                let mil = 1_000_000.0;
                log("norm", json!({"f": kind, "a": x, "kind": format!("{} {}", kind, NAME)}), || {
                    macro_rules! go {
                        ($mk:ident, $un:ident, $prod:expr, $inv:expr, $one:expr) => {{
                            let x = $mk(&xs);
                            let i = x.inverse();
                            json!({"n2": int_of(x.norm_squared() as f64 / (s * s)), "n": fix(x.norm() as f64 / s, 1000.0),
                                "unit": fx($un(&x.normalize()), 10000.0), "inv": fx($un(&i), mil * $inv),
                                "left": fx($prod(i * x), mil * $one), "right": fx($prod(x * i), mil * $one)})
                        }};
                    }
                    match kind {
                        "v" => go!(v, cv, |p: Rotor3<$t>| cr(&p), s, 1.0),
                        "b" => go!(b, cb, |p: Rotor3<$t>| cr(&p), s, 1.0),
                        "t" => go!(t, ct, |p: $t| vec![p], s, 1.0),
                        _ => go!(r, cr, |p: Rotor3<$t>| cr(&p), 1.0 / s, 1.0 / (s * s)),
                    }
                });
            }

            fn unit(q: &[i64]) -> Rotor3<$t> {
                let n = (q.iter().map(|x| x * x).sum::<i64>() as f64).sqrt();
                r(&q.iter().map(|x| (*x as f64 / n) as $t).collect::<Vec<_>>())
            }
            pub fn rotate(q: &[i64], x: &[i64], s: f64) {
                log("rot", json!({"a": [q, x], "kind": NAME}), || {
                    let (q, x) = (unit(q), v(&f(x, s)));
                    let y = q.rotate(x);
                    json!({"r": fx(cv(&y), 1000.0 / s), "undone": fx(cv(&q.inverse().rotate(y)), 1000.0 / s),
                        "negated": fx(cv(&(-q).rotate(x)), 1000.0 / s)})
                });
            }
            pub fn compose(qs: &[Vec<i64>], x: &[i64]) {
                log("comp", json!({"a": qs, "v": x, "kind": NAME}), || {
                    let x = v(&f(x, 1.0));
                    let q = qs.iter().skip(1).fold(unit(&qs[0]), |p, q| p * unit(q));
                    let y = qs.iter().rev().fold(x, |y, q| unit(q).rotate(y));
                    json!({"r": fx(cv(&q.rotate(x)), 1000.0), "turns": fx(cv(&y), 1000.0)})
                });
            }
            pub fn from_vectors(u: &[i64], w: &[i64], su: f64, sw: f64) {
                log("fromvec", json!({"a": [u, w], "kind": NAME}), || {
                    let n = vec![u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]];
                    let q = Rotor3::<$t>::from_vectors(v(&f(u, su)), v(&f(w, sw)));
                    let c = cr(&q);
                    json!({"r": fx(cv(&q.rotate(v(&f(u, 1.0)))), 1000.0), "normal": fx(cv(&q.rotate(v(&f(&n, 1.0)))), 1000.0),
                        "unit": fix(c.iter().map(|x| *x as f64 * *x as f64).sum::<f64>(), 1_000_000.0)})
                });
            }
            /// The rotor that turns in the plane of two axes of the frame that q makes of the basis.
            pub fn plane(q: &[i64], i: usize, j: usize, x: i64, y: i64, h: i64, turns: i64, named: bool) {
                log("plane", json!({"a": q, "i": i + 1, "j": j + 1, "x": x, "y": y, "h": h,
                    "kind": format!("{} {}", NAME, if named { "coordinate plane" } else { "any plane" })}), || {
                    let angle = ((y as f64).atan2(x as f64) + turns as f64 * 2.0 * std::f64::consts::PI) as $t;
                    // the columns of the rotation matrix of q (R e R~ with R = a + b e12 + c e13 + d e23)
                    let n = q.iter().map(|x| x * x).sum::<i64>() as f64;
                    let (a, b1, b2, b3) = (q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64);
                    let turn = |u: [f64; 3]| {
                        let p = [a * u[0] + b1 * u[1] + b2 * u[2], a * u[1] - b1 * u[0] + b3 * u[2], a * u[2] - b2 * u[0] - b3 * u[1]];
                        let t = b1 * u[2] - b2 * u[1] + b3 * u[0];
                        [(a * p[0] + p[1] * b1 + p[2] * b2 + t * b3) / n, (a * p[1] - p[0] * b1 - t * b2 + p[2] * b3) / n,
                         (a * p[2] + t * b1 - p[0] * b2 - p[1] * b3) / n]
                    };
                    let e = [turn([1.0, 0.0, 0.0]), turn([0.0, 1.0, 0.0]), turn([0.0, 0.0, 1.0])];
                    let (u, w) = (e[i], e[j]);
                    let area = [u[0] * w[1] - u[1] * w[0], u[0] * w[2] - u[2] * w[0], u[1] * w[2] - u[2] * w[1]];
                    let rotor = match (named, i, j) {
                        (true, 0, 1) => Rotor3::from_xy_rotation(angle),
                        (true, 0, 2) => Rotor3::from_xz_rotation(angle),
                        (true, 1, 2) => Rotor3::from_yz_rotation(angle),
                        _ => Rotor3::from_angle_plane(angle, b(&area.iter().map(|x| *x as $t).collect::<Vec<_>>())),
                    };
                    json!({"r": e.iter().map(|c| fx(cv(&rotor.rotate(v(&c.iter().map(|x| *x as $t).collect::<Vec<_>>()))), 1000.0)).collect::<Vec<_>>()})
                });
            }
            pub fn vectors(u: &[i64], w: &[i64], s: f64, sw: f64) {
                log("project", json!({"a": [u, w], "kind": NAME}), || {
                    json!({"r": fx(cv(&v(&f(u, s)).project(v(&f(w, sw)))), 1000.0 / s)})
                });
                log("reflect", json!({"a": [u, w], "kind": NAME}), || {
                    let (x, y) = (v(&f(u, s)), v(&f(w, sw)));
                    json!({"r": fx(cv(&x.reflect(y)), 1000.0 / s), "twice": fx(cv(&x.reflect(y).reflect(y)), 1000.0 / s)})
                });
                if u.iter().any(|x| *x != 0) {
                    log("angle", json!({"a": [u, w], "kind": NAME}), || {
                        let (x, y) = (v(&f(u, s)), v(&f(w, sw)));
                        let a = x.angle(y) as f64;
                        let a2 = v(&f(w, 3.0)).angle(v(&f(u, 0.7))) as f64;
                        json!({"c": fix(a.cos(), 10000.0), "s": fix(a.sin(), 10000.0), "ang": fix(a, 10000.0), "ang2": fix(a2, 10000.0)})
                    });
                }
            }
        }
    };
}
macro_rules! precise {
    ($m:ident, $t:ty, $bits:expr) => {
        /// Operands of any size (integers times 2^e), results in units of 2^-40.
        mod $m {
            use super::*;
            const NAME: &str = stringify!($t);
            const TB: i64 = $bits;
            fn f(c: &[i64], e: i32) -> Vec<$t> { c.iter().map(|x| (*x as f64 * 2f64.powi(e)) as $t).collect() }
            fn fw(c: Vec<$t>, bits: i32) -> Value { json!(c.iter().map(|x| fine(*x as f64, bits)).collect::<Vec<_>>()) }
            fn unit(q: &[i64]) -> Rotor3<$t> {
                let n = (q.iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>()).sqrt();
                r(&q.iter().map(|x| (*x as f64 / n) as $t).collect::<Vec<_>>())
            }
            pub fn norms(kind: &str, x: &[i64], e: i32) {
                let xs = f(x, e);
                log("fine norm", json!({"f": kind, "a": x, "tb": TB, "kind": format!("{} {} 2^{}", kind, NAME, e)}), || {
                    macro_rules! go {
                        ($mk:ident, $un:ident, $prod:expr, $ib:expr, $ob:expr) => {{
                            let x = $mk(&xs);
                            let i = x.inverse();
                            json!({"n2": fine(x.norm_squared() as f64, -2 * e), "n": fine(x.norm() as f64, 40 - e),
                                "unit": fw($un(&x.normalize()), 40), "inv": fw($un(&i), $ib),
                                "left": fw($prod(i * x), $ob), "right": fw($prod(x * i), $ob)})
                        }};
                    }
                    match kind {
                        "v" => go!(v, cv, |p: Rotor3<$t>| cr(&p), 60 + e, 40),
                        "b" => go!(b, cb, |p: Rotor3<$t>| cr(&p), 60 + e, 40),
                        "t" => go!(t, ct, |p: $t| vec![p], 60 + e, 40),
                        _ => go!(r, cr, |p: Rotor3<$t>| cr(&p), -e, -2 * e),
                    }
                });
            }
            pub fn rotate(q: &[i64], x: &[i64], e: i32) {
                log("fine rot", json!({"a": [q, x], "tb": TB - 1, "kind": format!("{} 2^{}", NAME, e)}), || {
                    let (q, x) = (unit(q), v(&f(x, e)));
                    let y = q.rotate(x);
                    json!({"r": fw(cv(&y), 40 - e), "undone": fw(cv(&q.inverse().rotate(y)), 40 - e),
                        "negated": fw(cv(&(-q).rotate(x)), 40 - e)})
                });
            }
            pub fn compose(qs: &[Vec<i64>], x: &[i64]) {
                log("fine comp", json!({"a": qs, "v": x, "tb": TB - 4, "kind": NAME}), || {
                    let x = v(&f(x, 0));
                    let q = qs.iter().skip(1).fold(unit(&qs[0]), |p, q| p * unit(q));
                    let y = qs.iter().rev().fold(x, |y, q| unit(q).rotate(y));
                    let n2: f64 = cr(&q).iter().map(|x| *x as f64 * *x as f64).sum();
                    json!({"r": fw(cv(&q.rotate(x)), 40), "turns": fw(cv(&y), 40), "n2": fine(n2, 40)})
                });
            }
            pub fn from_vectors(u: &[i64], w: &[i64], eu: i32, ew: i32) {
                log("fine fromvec", json!({"a": [u, w], "tb": TB - 4, "kind": format!("{} 2^{} 2^{}", NAME, eu, ew)}), || {
                    let q = Rotor3::<$t>::from_vectors(v(&f(u, eu)), v(&f(w, ew)));
                    json!({"r": fw(cv(&q.rotate(v(&f(u, 0)))), 40), "c": fw(cr(&q), 40)})
                });
            }
            pub fn plane(i: usize, j: usize, x: i64, y: i64, h: i64, named: bool) {
                log("fine plane", json!({"i": i + 1, "j": j + 1, "x": x, "y": y, "h": h, "tb": TB,
                    "kind": format!("{} {}", NAME, if named { "coordinate plane" } else { "any plane" })}), || {
                    let angle = (y as f64).atan2(x as f64) as $t;
                    let e = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
                    let mut area = [0i64; 3];
                    area[i + j - 1] = if i < j { 1 } else { -1 };
                    let rotor = match (named, i, j) {
                        (true, 0, 1) => Rotor3::from_xy_rotation(angle),
                        (true, 0, 2) => Rotor3::from_xz_rotation(angle),
                        (true, 1, 2) => Rotor3::from_yz_rotation(angle),
                        _ => Rotor3::from_angle_plane(angle, b(&f(&area, 0))),
                    };
                    json!({"r": e.iter().map(|c| fw(cv(&rotor.rotate(v(&f(c, 0)))), 40)).collect::<Vec<_>>()})
                });
            }
            pub fn vectors(u: &[i64], w: &[i64], e: i32, ew: i32) {
                let kind = format!("{} 2^{} 2^{}", NAME, e, ew);
                log("fine project", json!({"a": [u, w], "tb": TB - 1, "kind": kind}), || {
                    json!({"r": fw(cv(&v(&f(u, e)).project(v(&f(w, ew)))), 40 - e)})
                });
                log("fine reflect", json!({"a": [u, w], "tb": TB - 2, "kind": kind}), || {
                    let (x, y) = (v(&f(u, e)), v(&f(w, ew)));
                    json!({"r": fw(cv(&x.reflect(y)), 40 - e), "twice": fw(cv(&x.reflect(y).reflect(y)), 40 - e)})
                });
                if u.iter().any(|x| *x != 0) {
                    log("fine angle", json!({"a": [u, w], "tb": TB - 1, "kind": kind}), || {
                        let (x, y) = (v(&f(u, e)), v(&f(w, ew)));
                        let a = x.angle(y) as f64;
                        let a2 = v(&f(w, e + 1)).angle(v(&f(u, ew - 2))) as f64;
                        json!({"c": fine(a.cos(), 40), "s": fine(a.sin(), 40), "c2": fine(a2.cos(), 40)})
                    });
                }
            }
        }
    };
}
precise!(fine32, f32, 19);
precise!(fine64, f64, 33);
macro_rules! either {
    ($double:expr, $f:ident($($a:expr),*)) => { if $double { fine64::$f($($a),*) } else { fine32::$f($($a),*) } };
}
/// Components that make special cases nearly true: norm nearly a power of two, one component far
/// larger than the others, all equal but one unit, or anything.
fn nearly(rng: &mut Rng, n: usize) -> (Vec<i64>, i32) {
    let bits = *rng.pick(&[3i32, 6, 8, 10, 12, 16, 20]);
    let big = 1i64 << bits;
    let mut x: Vec<i64> = match rng.int(0, 3) {
        0 => { let mut x = vec![0; n]; let k = rng.int(0, n as i64 - 1) as usize; x[k] = big; x }
        1 => vec![big; n],
        2 => (0..n).map(|_| rng.int(-big, big)).collect(),
        _ => { let mut x = vec![0; n]; let k = rng.int(0, n as i64 - 1) as usize; x[k] = big * 3; x[(k + 1) % n] += big * 4; x }
    };
    for _ in 0..rng.int(0, 3) {
        let k = rng.int(0, n as i64 - 1) as usize;
        x[k] += rng.int(-3, 3);
    }
    for c in x.iter_mut() { if rng.chance(30) { *c = -*c } }
    if x.iter().all(|c| *c == 0) { x[0] = big }
    (x, -bits)
}
/// A vector that is nearly a multiple of u, nearly orthogonal to it, or anything.
fn beside(rng: &mut Rng, u: &[i64]) -> Vec<i64> {
    let mut x: Vec<i64> = match rng.int(0, 4) {
        0 => u.to_vec(),
        1 => u.iter().map(|c| -c).collect(),
        2 => vec![-u[1], u[0], 0],
        3 => u.iter().map(|c| c / 2).collect(),
        _ => nearly(rng, 3).0,
    };
    for _ in 0..rng.int(0, 2) {
        let k = rng.int(0, 2) as usize;
        x[k] += rng.int(-2, 2);
    }
    if x.iter().all(|c| *c == 0) { x[2] = 1 }
    x
}
fn exponent(rng: &mut Rng, bits: i32, double: bool) -> i32 {
    let far = if double { 300 } else { 35 };
    match rng.int(0, 3) { 0 => 0, 1 => bits, 2 => rng.int(-20, 20) as i32, _ => rng.int(-far, far) as i32 }
}
fn fine_norms(rng: &mut Rng, n: usize) {
    for i in 0..n {
        for (kind, len) in [("v", 3), ("b", 3), ("t", 1), ("r", 4)] {
            let (x, bits) = nearly(rng, len);
            let e = exponent(rng, bits, i % 2 == 0);
            either!(i % 2 == 0, norms(kind, &x, e));
        }
    }
}
fn fine_rotors(rng: &mut Rng, n: usize) {
    for i in 0..n {
        let double = i % 2 == 0;
        let ((q, _), (x, bits)) = (nearly(rng, 4), nearly(rng, 3));
        let e = exponent(rng, bits, double);
        either!(double, rotate(&q, &x, e));
        let m = rng.int(2, 10);
        let qs: Vec<Vec<i64>> = (0..m).map(|_| if rng.chance(50) { nonzero(rng, 4, 9) } else { nearly(rng, 4).0.iter().map(|c| c % 60).collect() })
            .map(|q: Vec<i64>| if q.iter().all(|c| *c == 0) { vec![1, 0, 0, 0] } else { q }).collect();
        let x = nonzero(rng, 3, 30);
        either!(double, compose(&qs, &x));
        let (u, eu) = nearly(rng, 3);
        let w = beside(rng, &u);
        let dot = |a: &[i64], b: &[i64]| (0..3).map(|i| a[i] as f64 * b[i] as f64).sum::<f64>();
        // not opposite, nor nearly so
        if dot(&u, &w) > -0.9 * (dot(&u, &u) * dot(&w, &w)).sqrt() {
            let (eu, ew) = (exponent(rng, eu, double), exponent(rng, eu, double));
            either!(double, from_vectors(&u, &w, eu, ew));
        }
        let k = *rng.pick(&[2i64, 3, 7, 10, 31, 100, 1000, 10000]);
        let (mut x, mut y, h) = (k * k - 1, 2 * k, k * k + 1);
        if rng.chance(30) { std::mem::swap(&mut x, &mut y) }
        if rng.chance(50) { y = -y }
        if rng.chance(50) { x = -x }
        let (mut a, mut b) = (rng.int(0, 2) as usize, rng.int(0, 2) as usize);
        if a == b { b = (a + 1) % 3 }
        let named = rng.chance(50);
        if named && a > b { std::mem::swap(&mut a, &mut b) }
        either!(double, plane(a, b, x, y, h, named));
    }
}
fn fine_vectors(rng: &mut Rng, n: usize) {
    for i in 0..n {
        let double = i % 2 == 0;
        let (w, bits) = nearly(rng, 3);
        let u = beside(rng, &w);
        let (e, ew) = (exponent(rng, bits, double), exponent(rng, bits, double));
        either!(double, vectors(&u, &w, e, ew));
    }
}

real!(real32, f32, single, 1000);
real!(real64, f64, double, 1000);

fn bounded(c: &[i64], w: i64) -> bool { c.iter().all(|x| x.abs() <= w) }

fn product(ty: i64, f: &str, x: &[i64], y: &[i64]) -> Option<Value> {
    match ty { 0 => int::product(f, x, y), 1 => single::product(f, x, y), _ => double::product(f, x, y) }
}
fn a01(rng: &mut Rng, n: usize) {
    // every pair of operands with components -1, 0, 1
    for (f, nx, ny) in PRODUCTS {
        for i in 0..3usize.pow(nx as u32) {
            for j in 0..3usize.pow(ny as u32) {
                let mk = |m: usize, n: usize| (0..n).map(|k| (m / 3usize.pow(k as u32) % 3) as i64 - 1).collect::<Vec<_>>();
                product(((i + j) % 3) as i64, f, &mk(i, nx), &mk(j, ny));
            }
        }
    }
    // programs: results become operands
    for _ in 0..n {
        let ty = rng.int(0, 2);
        let limit = if ty == 1 { 1000 } else { 9000 };
        let mut pool: Vec<Vec<Vec<i64>>> = vec![vec![], vec![], vec![], vec![]];   // by length 1, 3, 4
        for len in [1, 3, 3, 4, 4] {
            let width = *rng.pick(&[1, 3, 20]).min(&limit);
            let c = ints(rng, len, width);
            pool[len - 1].push(c);
        }
        for _ in 0..8 {
            let (f, nx, ny) = *rng.pick(&PRODUCTS);
            let (x, y) = (rng.pick(&pool[nx - 1]).clone(), rng.pick(&pool[ny - 1]).clone());
            if let Some(o) = product(ty, f, &x, &y) {
                let c: Vec<i64> = o["r"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                if bounded(&c, limit) && c.iter().any(|x| *x != 0) {
                    match c.len() {
                        4 => { pool[2].push(c[0..3].to_vec()); pool[3].push(c) }
                        k => pool[k - 1].push(c),
                    }
                }
            }
        }
        let (f, nx, ny) = *rng.pick(&PRODUCTS);
        let (x, y) = (ints(rng, nx, limit), ints(rng, ny, limit));
        product(ty, f, &x, &y);
    }
}
fn a02(rng: &mut Rng, n: usize) {
    int::constants();
    single::constants();
    double::constants();
    for i in 0..n {
        let w = *rng.pick(&[1, 30, 5000]);
        for kind in ["v", "b", "t", "r"] {
            let len = match kind { "t" => 1, "r" => 4, _ => 3 };
            let (x, y) = (ints(rng, len, w), ints(rng, len, w));
            let d = *rng.pick(&[1, -1, 2, -3, 5, 8]);
            let m: Vec<i64> = x.iter().map(|v| v * d).collect();
            for (f, x, y) in [("add", &x, &y), ("sub", &x, &y), ("neg", &x, &y), ("mul", &x, &vec![d]), ("div", &m, &vec![d])] {
                match (i + len) % 3 { 0 => int::linear(kind, f, x, y), 1 => single::linear(kind, f, x, y), _ => double::linear(kind, f, x, y) }
            }
        }
        let width = *rng.pick(&[0, 1, 1, 5]);
        let x = ints(rng, 4, width);
        let mut y = x.clone();
        if rng.chance(60) { let k = rng.int(0, 3) as usize; y[k] += rng.int(-1, 1); }
        match i % 3 { 0 => int::zero_and_eq(&x, &y), 1 => single::zero_and_eq(&x, &y), _ => double::zero_and_eq(&x, &y) }
        if i % 2 == 0 { real32::any_bits(rng); real32::close(rng) } else { real64::any_bits(rng); real64::close(rng) }
    }
}
const SCALES: [f64; 5] = [1.0, 0.5, 64.0, 0.0009765625, 1048576.0];
fn a03(rng: &mut Rng, n: usize) {
    for i in 0..n {
        let s = *rng.pick(&SCALES);
        for kind in ["v", "b", "t", "r"] {
            let len = match kind { "t" => 1, "r" => 4, _ => 3 };
            let width = *rng.pick(&[1, 3, 12]);
            let x = ints(rng, len, width);
            if x.iter().all(|c| *c == 0) || x.iter().map(|c| c * c).sum::<i64>() > 1000 { continue; }
            if i % 2 == 0 { real32::norms(kind, &x, s) } else { real64::norms(kind, &x, s) }
        }
    }
}
fn nonzero(rng: &mut Rng, n: usize, w: i64) -> Vec<i64> {
    loop {
        let x = ints(rng, n, w);
        if x.iter().any(|c| *c != 0) { return x; }
    }
}
fn a04(rng: &mut Rng, n: usize) {
    const ANGLES: [(i64, i64, i64); 9] = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (15, 8, 17), (7, 24, 25), (-3, 4, 5)];
    for i in 0..n {
        let double = i % 2 == 0;
        let width = *rng.pick(&[1, 2, 6]);
        let (q, x) = (nonzero(rng, 4, width), ints(rng, 3, 20));
        let s = *rng.pick(&SCALES);
        if double { real64::rotate(&q, &x, s) } else { real32::rotate(&q, &x, s) }
        let m = rng.int(1, 4) as usize;
        let w = [6, 6, 3, 2][m - 1];
        let qs: Vec<Vec<i64>> = (0..m).map(|_| nonzero(rng, 4, w)).collect();
        let x = ints(rng, 3, if m <= 2 { 12 } else { 8 });
        if qs.iter().map(|q| q.iter().map(|x| x * x).sum::<i64>()).product::<i64>() <= 40_000 {
            if double { real64::compose(&qs, &x) } else { real32::compose(&qs, &x) }
        }
        // two vectors that are not opposite
        let (u, v) = (nonzero(rng, 3, 8), if rng.chance(10) { vec![] } else { nonzero(rng, 3, 8) });
        let v = if v.is_empty() { let k = rng.int(1, 2); u.iter().map(|x| x * k).collect() } else { v };
        let dot: i64 = (0..3).map(|i| u[i] * v[i]).sum();
        let (nu, nv): (i64, i64) = (u.iter().map(|x| x * x).sum(), v.iter().map(|x| x * x).sum());
        if !(dot < 0 && dot * dot == nu * nv) {
            let (su, sv) = (*rng.pick(&SCALES), *rng.pick(&SCALES));
            if double { real64::from_vectors(&u, &v, su, sv) } else { real32::from_vectors(&u, &v, su, sv) }
        }
        let named = rng.chance(30);
        let q = if named { vec![1, 0, 0, 0] } else { nonzero(rng, 4, 4) };
        let (mut a, mut b) = (rng.int(0, 2) as usize, rng.int(0, 2) as usize);
        if a == b { b = (a + 1) % 3; }
        if named && a > b { std::mem::swap(&mut a, &mut b); }
        let (x, y, h) = *rng.pick(&ANGLES);
        let y = if rng.chance(50) { -y } else { y };
        let turns = if rng.chance(30) { rng.int(-2, 2) } else { 0 };
        if double { real64::plane(&q, a, b, x, y, h, turns, named) } else { real32::plane(&q, a, b, x, y, h, turns, named) }
    }
}
fn a05(rng: &mut Rng, n: usize) {
    for i in 0..n {
        let w = *rng.pick(&[1, 4, 10]);
        let v = nonzero(rng, 3, w);
        let u = match rng.int(0, 4) {
            // parallel and opposite, orthogonal
            0 => { let k = rng.int(-3, 3); v.iter().map(|x| x * k).collect() }
            1 => vec![-v[1], v[0], 0],
            _ => ints(rng, 3, w),
        };
        if !bounded(&u, 10) { continue; }
        let (s, sv) = (*rng.pick(&SCALES), *rng.pick(&SCALES));
        if i % 2 == 0 { real32::vectors(&u, &v, s, sv) } else { real64::vectors(&u, &v, s, sv) }
    }
}
/// Every count that fits a machine word: all grades up to 67 dimensions, the smallest and largest
/// grades of more.
fn a06(rng: &mut Rng, n: usize) {
    let count = |n: usize, k: usize| {
        log("blades", json!({"a": [n, k]}), || json!({"r": wide(blade::number_of_basis_blades(n, k) as i128)}));
    };
    for n in 0..=67usize {
        for k in 0..=(n + 3) {
            count(n, k);
        }
        if n <= 63 {
            log("total", json!({"a": [n]}), || json!({"r": wide(blade::total_number_of_basis_blades(n) as i128)}));
        }
    }
    let fits = |n: usize, k: usize| {
        let mut c: u128 = 1;
        for i in 0..k {
            c = c * (n - i) as u128 / (i + 1) as u128;
            if c > usize::MAX as u128 { return false; }
        }
        true
    };
    for _ in 0..n {
        let d = *rng.pick(&[80i64, 100, 130, 256, 1000, 4096, 65535, 65536, 65537, 1_000_000, 100_000_000]);
        let d = (d + rng.int(-3, 3)) as usize;
        let mut k = rng.int(0, 12) as usize;
        while !fits(d, k) { k -= 1 }
        count(d, if rng.chance(50) { k } else { d - k });
        count(d, d + rng.int(1, 5) as usize);
    }
}

pub fn run(which: &str, seed: u64, n: usize) {
    let mut rng = Rng::new(seed ^ 0xA16);
    match which {
        "a01" => a01(&mut rng, n),
        "a02" => a02(&mut rng, n),
        "a03" => a03(&mut rng, n),
        "a04" => a04(&mut rng, n),
        "a05" => a05(&mut rng, n),
        "fine-a03" => fine_norms(&mut rng, n),
        "fine-a04" => fine_rotors(&mut rng, n),
        "fine-a05" => fine_vectors(&mut rng, n),
        _ => a06(&mut rng, n),
    }
}
