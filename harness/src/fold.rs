//! Scenarios for the fold module: files are written (whole, damaged, missing), imported with
//! Fold::from_file, exported with serde_json and imported again.  All files live in the scratch
//! directory given by the caller.
use crate::rt::*;
use kami::fold::fold::Fold;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn event(op: &str) -> Value {
    json!({"op": op, "t": COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst), "k": "ok"})
}

/// A JSON value in the form of the specification, and one way of writing it.
#[derive(Clone)]
struct J {
    t: &'static str,
    s: String,
    e: Vec<J>,
    text: Option<String>,
}
fn scalar(t: &'static str, s: &str) -> J { J { t, s: s.into(), e: vec![], text: None } }
fn list(e: Vec<J>) -> J { J { t: "list", s: String::new(), e, text: None } }
fn number(x: f32) -> J {
    if !x.is_finite() {
        scalar("big", &x.to_string())
    } else if x == x.round() && x.abs() <= 16777216.0 && !(x == 0.0 && x.is_sign_negative()) {
        scalar("int", &(x as i64).to_string())
    } else {
        scalar("num", &format!("{:08x}", x.to_bits()))
    }
}
fn spelled(x: f32, text: String) -> J {
    let mut j = number(x);
    j.text = Some(text);
    j
}
impl J {
    fn value(&self) -> Value {
        json!({"t": self.t, "s": self.s, "e": self.e.iter().map(|x| x.value()).collect::<Vec<_>>()})
    }
    fn write(&self, rng: &mut Rng, out: &mut String) {
        match (self.t, &self.text) {
            (_, Some(t)) => out.push_str(t),
            ("list", _) => {
                out.push('[');
                for (i, x) in self.e.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    space(rng, out);
                    x.write(rng, out);
                    space(rng, out);
                }
                out.push(']');
            }
            ("str", _) => string(&self.s, rng, out),
            ("num", _) => {
                let x = f32::from_bits(u32::from_str_radix(&self.s, 16).unwrap());
                out.push_str(&if x.abs() >= 1e7 || x.abs() < 1e-5 { format!("{:e}", x) } else { format!("{}", x) });
            }
            _ => out.push_str(&self.s),
        }
    }
    fn of(v: &Value) -> J {
        J {
            t: match v["t"].as_str().unwrap() {
                "null" => "null", "bool" => "bool", "obj" => "obj", "str" => "str",
                "int" => "int", "num" => "num", "big" => "big", _ => "list",
            },
            s: v["s"].as_str().unwrap().into(),
            e: v["e"].as_array().unwrap().iter().map(J::of).collect(),
            text: None,
        }
    }
}
fn space(rng: &mut Rng, out: &mut String) {
    for _ in 0..*rng.pick(&[0, 0, 0, 0, 0, 1, 1, 3]) {
        out.push(*rng.pick(&[' ', '\n', '\t', '\r']));
    }
}
fn string(s: &str, rng: &mut Rng, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' if rng.chance(50) => out.push_str("\\n"),
            '\t' if rng.chance(50) => out.push_str("\\t"),
            '\r' if rng.chance(50) => out.push_str("\\r"),
            '\u{8}' if rng.chance(50) => out.push_str("\\b"),
            '\u{c}' if rng.chance(50) => out.push_str("\\f"),
            '/' if rng.chance(50) => out.push_str("\\/"),
            c if (c as u32) < 32 || rng.chance(5) => {
                let mut b = [0; 2];
                let upper = rng.chance(50);
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&if upper { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) });
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
type Object = Vec<(String, J)>;
fn text(o: &Object, rng: &mut Rng) -> String {
    let mut out = String::new();
    space(rng, &mut out);
    out.push('{');
    for (i, (k, v)) in o.iter().enumerate() {
        if i > 0 { out.push(','); }
        space(rng, &mut out);
        string(k, rng, &mut out);
        space(rng, &mut out);
        out.push(':');
        space(rng, &mut out);
        v.write(rng, &mut out);
        space(rng, &mut out);
    }
    out.push('}');
    out
}
fn pairs(o: &Object) -> Value {
    json!(o.iter().map(|(k, v)| json!([k, v.value()])).collect::<Vec<_>>())
}

// What the library holds and writes, in the form of the specification.
// (Generic, so that a change of a field's type is judged by what it does.)
trait Shown { fn shown(&self) -> Value; }
macro_rules! shown_int { ($($t:ty),*) => { $(impl Shown for $t { fn shown(&self) -> Value { scalar("int", &self.to_string()).value() } })* } }
shown_int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl Shown for f32 { fn shown(&self) -> Value { number(*self).value() } }
impl Shown for f64 { fn shown(&self) -> Value { number(*self as f32).value() } }
impl Shown for String { fn shown(&self) -> Value { scalar("str", self).value() } }
impl Shown for bool { fn shown(&self) -> Value { scalar("bool", &self.to_string()).value() } }
impl<T: Shown> Shown for Option<T> {
    fn shown(&self) -> Value { self.as_ref().map_or_else(|| scalar("null", "null").value(), |x| x.shown()) }
}
impl<T: Shown> Shown for [T] {
    fn shown(&self) -> Value { json!({"t": "list", "s": "", "e": self.iter().map(|x| x.shown()).collect::<Vec<_>>()}) }
}
impl<T: Shown> Shown for Vec<T> { fn shown(&self) -> Value { self[..].shown() } }
impl<T: Shown, const N: usize> Shown for [T; N] { fn shown(&self) -> Value { self[..].shown() } }
impl<T: Shown, U: Shown> Shown for (T, U) {
    fn shown(&self) -> Value { json!({"t": "list", "s": "", "e": [self.0.shown(), self.1.shown()]}) }
}
impl<T: Shown, U: Shown, V: Shown> Shown for (T, U, V) {
    fn shown(&self) -> Value { json!({"t": "list", "s": "", "e": [self.0.shown(), self.1.shown(), self.2.shown()]}) }
}
fn fields(d: &Fold) -> Value {
    let mut o = serde_json::Map::new();
    macro_rules! all { ($($f:ident)*) => { $(o.insert(stringify!($f).into(), d.$f.shown());)* } }
    all!(file_spec file_creator file_author file_title file_description file_classes
        frame_author frame_title frame_description frame_classes frame_attributes frame_unit
        vertices_coords vertices_vertices vertices_faces edges_vertices edges_faces edges_assignment
        edges_foldangles edges_lengths faces_vertices faces_edges faceorders edgeorders);
    Value::Object(o)
}
fn parsed(v: &Value) -> J {
    match v {
        Value::Null => scalar("null", "null"),
        Value::Bool(b) => scalar("bool", &b.to_string()),
        Value::String(s) => scalar("str", s),
        Value::Array(a) => list(a.iter().map(parsed).collect()),
        Value::Object(_) => scalar("obj", "{}"),
        Value::Number(n) => match n.as_i64() {
            Some(i) => scalar("int", &i.to_string()),
            None => number(n.as_f64().unwrap_or(f64::MAX) as f32),
        },
    }
}

struct Session {
    path: PathBuf,
    doc: Option<(u64, Fold)>,
    shown: String,
}
impl Session {
    fn new(dir: &Path) -> Session {
        let path = dir.join("doc.fold");
        clear(&path);
        emit(&event("new"));
        Session { path, doc: None, shown: "absent".into() }
    }
    fn put(&mut self, class: &str, how: &str, obj: Value, bytes: Option<&[u8]>) {
        clear(&self.path);
        if let Some(b) = bytes { std::fs::write(&self.path, b).expect("write scratch file"); }
        let mut e = event("put");
        let o = e.as_object_mut().unwrap();
        o.insert("class".into(), json!(class));
        o.insert("kind".into(), json!(how));
        o.insert("obj".into(), obj);
        self.shown = match bytes {
            None => how.to_string(),
            Some(b) => {
                let tail = if b.len() > 160 { format!(" ... ({} bytes)", b.len()) } else { String::new() };
                format!("{}: {}{}", how, String::from_utf8_lossy(&b[..b.len().min(160)]), tail)
            }
        };
        emit(&e);
    }
    fn import(&mut self) {
        let mut e = event("import");
        e.as_object_mut().unwrap().insert("a".into(), json!(self.shown));
        begin(&e);
        let r = guard(|| Fold::from_file(&self.path));
        let o = e.as_object_mut().unwrap();
        match r {
            None => { o.insert("k".into(), json!("panic")); }
            Some(Err(_)) => { o.insert("k".into(), json!("err")); }
            Some(Ok(d)) => {
                o.insert("doc".into(), fields(&d));
                o.insert("rest".into(), json!(d.file_frames));
                self.doc = Some((o["t"].as_u64().unwrap(), d));
            }
        }
        emit(&e);
    }
    fn export(&mut self, pretty: bool) {
        let Some((at, d)) = &self.doc else { return };
        let mut e = event("export");
        let back = e["t"].as_u64().unwrap() - at;
        e.as_object_mut().unwrap().insert("back".into(), json!(back));
        e.as_object_mut().unwrap().insert("a".into(), json!(self.shown));
        begin(&e);
        let r = guard(|| if pretty { serde_json::to_string_pretty(d) } else { serde_json::to_string(d) });
        let o = e.as_object_mut().unwrap();
        match r {
            None => { o.insert("k".into(), json!("panic")); }
            Some(Err(_)) => { o.insert("k".into(), json!("err")); }
            Some(Ok(t)) => {
                let obj: Vec<Value> = match serde_json::from_str::<Value>(&t) {
                    Ok(Value::Object(m)) => m.iter().map(|(k, v)| json!([k, parsed(v).value()])).collect(),
                    _ => vec![json!(["not an object", scalar("str", "").value()])],
                };
                o.insert("obj".into(), json!(obj));
                clear(&self.path);
                std::fs::write(&self.path, t.as_bytes()).expect("write scratch file");
                self.shown = format!("exported: {}", t.chars().take(160).collect::<String>());
            }
        }
        emit(&e);
    }
}
fn clear(p: &Path) {
    if let Ok(m) = std::fs::symlink_metadata(p) {
        let _ = if m.is_dir() { std::fs::remove_dir(p) } else { std::fs::remove_file(p) };
    }
}

// ---- random values ---------------------------------------------------------------------------
const KEYS: [(&str, &str); 24] = [
    ("file_spec", "num"), ("file_creator", "str"), ("file_author", "str"), ("file_title", "str"),
    ("file_description", "str"), ("file_classes", "strs"), ("frame_author", "str"), ("frame_title", "str"),
    ("frame_description", "str"), ("frame_classes", "strs"), ("frame_attributes", "strs"), ("frame_unit", "str"),
    ("vertices_coords", "numss"), ("vertices_vertices", "intss"), ("vertices_faces", "intss"),
    ("edges_vertices", "intss"), ("edges_faces", "intss"), ("edges_assignment", "strs"),
    ("edges_foldAngles", "nums"), ("edges_lengths", "nums"), ("faces_vertices", "intss"), ("faces_edges", "intss"),
    ("faceOrders", "triples"), ("edgeOrders", "triples"),
];
fn any_num(rng: &mut Rng) -> J {
    match rng.int(0, 9) {
        0 => number(rng.int(-16777216, 16777216) as f32),
        1 => number(rng.int(-20, 20) as f32),
        2 => number(rng.int(-100000, 100000) as f32 / 1024.0),
        3 => loop {
            let x = f32::from_bits(rng.next() as u32);
            if x.is_finite() { break number(x); }
        },
        4 => { let x = rng.int(-999, 999); spelled(x as f32, format!("{}.0", x)) }
        5 => { let (m, e) = (rng.int(1, 999), rng.int(0, 4)); spelled(m as f32 * 10f32.powi(e as i32), format!("{}{}{}{}", m, rng.pick(&["e", "E"]), rng.pick(&["", "+"]), e)) }
        6 => number(*rng.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1, 1.1, 0.3333333, std::f32::consts::PI])),
        7 => if rng.chance(80) { number(-0.0) } else { spelled(f32::MAX, (*rng.pick(&["3.40282356e38", "340282350000000000000000000000000000000"])).into()) },
        8 => { let x = rng.int(1, 99999); let s = format!("{}.{:05}", rng.int(0, 99), x); spelled(s.parse().unwrap(), s) }
        _ => spelled(3e9, "3000000000".into()),
    }
}
fn any_int(rng: &mut Rng) -> J {
    let x = match rng.int(0, 5) {
        0 => *rng.pick(&[0, -1, 1, i32::MAX as i64, i32::MIN as i64]),
        1 => rng.int(i32::MIN as i64, i32::MAX as i64),
        _ => rng.int(-1, 60),
    };
    scalar("int", &x.to_string())
}
fn any_str(rng: &mut Rng) -> J {
    const WORDS: [&str; 26] = ["", "M", "V", "crane", "a b", "\"quoted\"", "back\\slash", "line\nbreak\ttab", "折り紙", "é", "🦢",
        "\u{0}\u{1f}", "null", "{\"file_spec\":2}", "C:\\temp\\new", "\r\n\u{8}\u{c}", "//", "/* a */", "# x", "  two  ", "\u{feff}", "\u{7f}\u{80}",
        "\u{2028}\u{2029}", "\u{10ffff}\u{e000}\u{fffd}", "e\u{301}", "'NaN,],}'"];
    let mut s = String::new();
    for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 5]) { s.push_str(*rng.pick(&WORDS[..])); }
    scalar("str", &s)
}
fn length(rng: &mut Rng) -> i64 {
    match rng.int(0, 19) { 0 => 40, 1..=3 => 0, 4..=7 => 1, _ => rng.int(2, 6) }
}
fn many(rng: &mut Rng, f: fn(&mut Rng) -> J) -> J {
    let n = length(rng);
    list((0..n).map(|_| f(rng)).collect())
}
fn any(rng: &mut Rng, ty: &str) -> J {
    match ty {
        "num" => any_num(rng),
        "str" => any_str(rng),
        "strs" => many(rng, any_str),
        "nums" => many(rng, any_num),
        "numss" => many(rng, |r| many(r, any_num)),
        "intss" => many(rng, |r| many(r, any_int)),
        _ => many(rng, |r| list((0..3).map(|_| any_int(r)).collect())),
    }
}
fn junk(rng: &mut Rng) -> J {
    // anything at all, to stand under an unrecognized key
    match rng.int(0, 8) {
        0 => scalar("null", "null"),
        1 => scalar("bool", "true"),
        2 => J { text: Some("{\"file_spec\": 7, \"edges_vertices\": [[1, 2]], \"a\": {\"b\": []}}".into()), ..scalar("obj", "{}") },
        3 => any(rng, "numss"),
        4 => any_str(rng),
        5 => scalar("num", "3f8ccccd"),
        6 => { let d = *rng.pick(&[1, 3, 126, 127, 128, 4000]); J { text: Some(format!("{}{}", "[".repeat(d), "]".repeat(d))), ..list(vec![]) } }
        _ => any(rng, "triples"),
    }
}
fn object(rng: &mut Rng, density: i64) -> Object {
    let mut o: Object = vec![];
    for (k, ty) in KEYS {
        if rng.chance(density) { let v = any(rng, ty); o.push((k.to_string(), v)); }
    }
    const OTHER: [&str; 12] = ["file_frames", "edges_foldangles", "faceorders", "edgeorders", "FILE_SPEC", "file_spec ", "",
        "edges_length", "vertices_edges", "x:y", "frame_parent", "fileSpec"];
    for _ in 0..*rng.pick(&[0, 0, 1, 3]) { let v = junk(rng); o.push((rng.pick(&OTHER).to_string(), v)); }
    for i in (1..o.len()).rev() { let j = rng.int(0, i as i64) as usize; o.swap(i, j); }
    o
}
/// A value that is not of the type, made by spoiling one that is.
fn spoil(rng: &mut Rng, v: &J, ty: &str, depth: usize) -> J {
    let leaf_is_str = ty.starts_with("str");
    if v.t != "list" || v.e.is_empty() || rng.chance(20) {
        if v.t == "list" || depth > 0 {
            // inside (or instead of) a list
            return match rng.int(0, 4) {
                0 => scalar("null", "null"),
                1 => scalar("bool", "false"),
                2 => scalar("obj", "{}"),
                3 if v.t == "list" => if leaf_is_str { scalar("str", "x") } else { scalar("int", "1") },
                _ => if v.t == "list" { scalar("str", "[]") } else { list(vec![v.clone()]) },
            };
        }
        return match rng.int(0, 3) {
            0 => scalar("null", "null"),
            1 => list(vec![v.clone()]),
            2 => scalar("obj", "{}"),
            _ => if leaf_is_str { scalar("int", "3") } else { scalar("str", "3") },
        };
    }
    let i = rng.int(0, v.e.len() as i64 - 1) as usize;
    let mut w = v.clone();
    if (ty == "nums" || ty == "numss" && depth == 1) && rng.chance(50) {
        w.e[i] = scalar("big", *rng.pick(&["1e39", "-3.5e38", "3.4028236e38", "1e308", "-2e400", "4000000000000000000000000000000000000000"]));
        return w;
    }
    if ty == "triples" && depth == 0 && rng.chance(40) {
        if rng.chance(50) { w.e[i].e.pop(); } else { w.e[i].e.push(scalar("int", "1")); }
    } else if (ty == "triples" || ty == "intss") && depth == 1 && rng.chance(40) {
        w.e[i] = match rng.int(0, 2) { 0 => scalar("num", "3fc00000"), 1 => scalar("num", "4f32d05e"), _ => scalar("str", "1") };
    } else {
        w.e[i] = spoil(rng, &v.e[i], ty, depth + 1);
    }
    w
}

fn damage(s: &mut Session, how: &str, full: &str, rng: &mut Rng, dir: &Path) {
    let none = json!([]);
    let b = full.as_bytes();
    let put = |s: &mut Session, bytes: &[u8]| s.put("bad", how, none.clone(), Some(bytes));
    match how {
        "cut" => { let n = rng.int(0, full.trim_end().len() as i64 - 1) as usize; put(s, &b[..n]) }
        "garbage" => {
            let g = match rng.int(0, 7) {
                0 => format!("{} x", full),
                1 => format!("{}}}", full),
                2 => format!("{},", full),
                3 => format!("{}{}", full, full),
                4 => format!("// fold\n{}", full),
                5 => full.replacen('{', "{,", 1),
                6 => full.replacen('{', "{'a':1,", 1),
                _ => format!("{}\u{0}", full),
            };
            // an empty object may absorb nothing: "{,}" and "{'a':1,}" are still not JSON
            put(s, g.as_bytes())
        }
        "not UTF-8" => {
            // bytes that are not text, inside a string
            let bad: &[u8] = *rng.pick(&[&b"\xff"[..], &b"\xc3"[..], &b"\xe3\x81"[..], &b"\xc0\x80"[..], &b"\xed\xa0\x80"[..], &b"\xf5\x80\x80\x80"[..]]);
            let mut x = b"{\"file_title\": \"a".to_vec();
            if rng.chance(30) { x = b"{\"other\": \"a".to_vec(); }
            x.extend_from_slice(bad);
            x.extend_from_slice(b"b\"");
            let rest = full.trim_start()[1..].trim_start();
            if !rest.starts_with('}') && !full.contains("file_title") { x.push(b','); x.extend_from_slice(rest.as_bytes()); } else { x.push(b'}'); }
            put(s, &x)
        }
        "UTF-16" => {
            let mut x = vec![0xff, 0xfe];
            for u in full.encode_utf16() { x.extend_from_slice(&u.to_le_bytes()); }
            put(s, &x)
        }
        "array" => {
            let x = match rng.int(0, 6) {
                0 => "[]".to_string(), 1 => format!("[{}]", full), 2 => "null".into(), 3 => "1.1".into(),
                4 => "\"{}\"".into(), 5 => "[1.1, \"kami\", \"me\"]".into(), _ => "true".into(),
            };
            put(s, x.as_bytes())
        }
        "empty" => put(s, if rng.chance(50) { b"" } else { b" \n" }),
        "absent" => s.put("bad", how, none, None),
        "directory" => { s.put("bad", how, none, None); std::fs::create_dir(&s.path).expect("scratch directory") }
        "dangling link" => {
            s.put("bad", how, none, None);
            std::os::unix::fs::symlink(dir.join("nothing-here"), &s.path).expect("scratch link")
        }
        "link loop" => { s.put("bad", how, none, None); std::os::unix::fs::symlink(&s.path, &s.path).expect("scratch link") }
        x => panic!("unknown damage {}", x),
    }
}
const DAMAGES: [&str; 10] = ["cut", "garbage", "not UTF-8", "UTF-16", "array", "empty", "absent", "directory", "dangling link", "link loop"];

pub fn run(which: &str, seed: u64, n: usize, input: &str) {
    let dir = PathBuf::from(std::env::var("KAMI_EXEC_SCRATCH").expect("KAMI_EXEC_SCRATCH")).join("fold-files");
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut rng = Rng::new(seed ^ 0xF01D);
    let rng = &mut rng;
    match which {
        "replay" => {
            for line in std::fs::read_to_string(input).expect("histories").lines() {
                let h: Value = serde_json::from_str(line).unwrap();
                let mut s = Session::new(&dir);
                let mut full = String::from("{\"file_title\":\"crane\",\"edges_vertices\":[[0,1]]}");
                for step in h["H"].as_array().unwrap() {
                    match (step["op"].as_str().unwrap(), step["how"].as_str().unwrap()) {
                        ("put", "object") => {
                            let o: Object = step["obj"].as_array().unwrap().iter()
                                .map(|p| (p[0].as_str().unwrap().to_string(), J::of(&p[1]))).collect();
                            full = text(&o, rng);
                            s.put("object", "object", pairs(&o), Some(full.as_bytes()));
                        }
                        ("put", how) => damage(&mut s, how, &full, rng, &dir),
                        ("import", _) => s.import(),
                        _ => s.export(rng.chance(50)),
                    }
                }
            }
        }
        "random" => {
            for i in 0..n {
                let mut s = Session::new(&dir);
                let density = *rng.pick(&[5, 30, 60, 100]);
                for _ in 0..rng.int(1, 3) {
                    let o = if i < 2 { long(rng, i) } else { object(rng, density) };
                    let full = text(&o, rng);
                    let tail = if rng.chance(30) { "\n" } else { "" };
                    s.put("object", "object", pairs(&o), Some(format!("{}{}", full, tail).as_bytes()));
                    s.import();
                    for _ in 0..rng.int(0, 2) {
                        s.export(rng.chance(50));
                        s.import();
                    }
                    if rng.chance(40) {
                        // one value of a wrong type
                        let known: Vec<usize> = (0..o.len()).filter(|k| KEYS.iter().any(|(x, _)| *x == o[*k].0)).collect();
                        if !known.is_empty() {
                            let k = *rng.pick(&known);
                            let ty = KEYS.iter().find(|(x, _)| *x == o[k].0).unwrap().1;
                            let mut o2 = o.clone();
                            o2[k].1 = spoil(rng, &o[k].1, ty, 0);
                            let t2 = text(&o2, rng);
                            s.put("object", "spoiled", pairs(&o2), Some(t2.as_bytes()));
                            s.import();
                            if rng.chance(50) { s.export(rng.chance(50)); s.import(); }
                        }
                    }
                    for _ in 0..(if i < 2 { 6 } else { rng.int(0, 1) }) {
                        let how = *rng.pick(&DAMAGES[..if i < 2 { 4 } else { DAMAGES.len() }]);
                        damage(&mut s, how, &full, rng, &dir);
                        s.import();
                    }
                }
            }
        }
        // every way of cutting a file short
        _ => {
            for i in 0..n {
                let o = match i { 0 => object(rng, 100), 1 | 2 => long(rng, i - 1), _ => object(rng, 12) };
                let full = text(&o, rng);
                let mut s = Session::new(&dir);
                let stride = full.len() / (if i == 1 || i == 2 { 30 } else { 1500 }) + 1;
                for cut in (0..full.len()).step_by(stride) {
                    s.put("bad", "cut", json!([]), Some(&full.as_bytes()[..cut]));
                    s.import();
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
/// A document with very long lists.
fn long(rng: &mut Rng, shape: usize) -> Object {
    if shape == 1 {
        return vec![
            ("edges_lengths".into(), list((0..24000).map(|_| scalar("int", &rng.int(0, 9999999).to_string())).collect())),
            ("file_title".into(), scalar("str", "last")),
        ];
    }
    let pairs = |rng: &mut Rng, n: i64| list((0..n).map(|i| list(vec![scalar("int", &i.to_string()), scalar("int", &rng.int(0, n).to_string())])).collect());
    vec![
        ("edges_vertices".into(), pairs(rng, 3000)),
        ("faces_vertices".into(), list(vec![list((0..2500).map(|i| scalar("int", &i.to_string())).collect()), list(vec![])])),
        ("edges_assignment".into(), list((0..3000).map(|_| scalar("str", *rng.pick(&["M", "V", "B", "F", "U"]))).collect())),
        ("file_description".into(), scalar("str", &"折り紙 ".repeat(3000))),
        ("edges_lengths".into(), list((0..3000).map(|_| any_num(rng)).collect())),
    ]
}
