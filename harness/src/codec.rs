//! Events as the specification writes them (see Conf.tla), and comparison.
use crate::obs::*;
use serde_json::{json, Value};

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn text(v: &Value) -> String {
    v.as_array().map_or(String::new(), |a| {
        a.iter().filter_map(|x| x.as_u64()).map(|x| char::from_u32(x as u32).unwrap_or('\u{FFFD}')).collect()
    })
}

fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
fn u(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}
fn b(v: &Value) -> bool {
    v.as_bool().unwrap_or(false)
}

fn opt_text(v: &Value) -> Option<String> {
    let a = v.as_array()?;
    a.first().map(text)
}
fn opt_tag(v: &Value) -> Option<Tag> {
    let a = v.as_array()?;
    if a.is_empty() {
        return None;
    }
    Some(Tag { handle: text(&a[0]), suffix: text(&a[1]), own: b(&a[2]) })
}

fn default_tags() -> Vec<(String, String)> {
    vec![("!".into(), "!".into()), ("!!".into(), "tag:yaml.org,2002:".into())]
}

/// An event, or the failure which ends the stream
pub enum Op {
    Ev(Ev),
    Fail(Fail, usize),
    End,
}

pub fn decode(v: &Value) -> Op {
    let a = v.as_array().expect("op");
    let rd = u(&a[0]);
    let k = s(&a[1]);
    match k.as_str() {
        "N" => return Op::End,
        "X" => return Op::Fail(Fail { code: s(&a[2]), cat: s(&a[3]), io: s(&a[4]) }, rd),
        _ => {}
    }
    let mut e = Ev { a: u(&a[2]), b: u(&a[3]), rd, ..Ev::default() };
    match k.as_str() {
        "D+" => {
            e.ver = (u(&a[4]) as u32, u(&a[5]) as u32);
            e.imp = b(&a[6]);
            e.tags = a[7]
                .as_array()
                .map_or(vec![], |t| t.iter().map(|p| (text(&p[0]), text(&p[1]))).collect());
            if e.tags.is_empty() {
                e.tags = default_tags();
            }
            e.tags.sort();
            e.own = b(&a[8]);
        }
        "D-" => e.imp = b(&a[4]),
        "A" => e.name = text(&a[4]),
        "Q+" | "M+" | "V" => {
            e.anchor = opt_text(&a[4]);
            e.tag = opt_tag(&a[5]);
            e.kind = s(&a[6]);
            if k == "V" {
                e.style = s(&a[7]);
                e.lz = b(&a[8]);
                e.val = Val(if s(&a[9]) == "ok" { Ok(text(&a[10])) } else { Err(s(&a[10])) });
                e.own = b(&a[11]);
            }
        }
        _ => {}
    }
    e.k = k;
    Op::Ev(e)
}

pub fn decode_all(v: &Value) -> Outcome {
    let mut o = Outcome::default();
    for op in v.as_array().expect("ops") {
        match decode(op) {
            Op::Ev(e) => o.evs.push(e),
            Op::Fail(f, rd) => o.err = Some((f, rd)),
            Op::End => {}
        }
    }
    o
}

pub fn encode(e: &Ev) -> Value {
    let mut a = vec![json!(e.rd), json!(e.k), json!(e.a), json!(e.b)];
    match e.k.as_str() {
        "D+" => {
            a.push(json!(e.ver.0));
            a.push(json!(e.ver.1));
            a.push(json!(e.imp));
            // none: the default ones
            let tags = if e.tags == default_tags() { &[][..] } else { &e.tags[..] };
            a.push(Value::Array(tags.iter().map(|(h, p)| json!([cps(h), cps(p)])).collect()));
            a.push(json!(e.own));
        }
        "D-" => a.push(json!(e.imp)),
        "A" => a.push(cps(&e.name)),
        "Q+" | "M+" | "V" => {
            a.push(e.anchor.as_ref().map_or(json!([]), |x| json!([cps(x)])));
            a.push(e.tag.as_ref().map_or(json!([]), |t| json!([cps(&t.handle), cps(&t.suffix), t.own])));
            a.push(json!(e.kind));
            if e.k == "V" {
                a.push(json!(e.style));
                a.push(json!(e.lz));
                match &e.val.0 {
                    Ok(v) => {
                        a.push(json!("ok"));
                        a.push(cps(v));
                    }
                    Err(c) => {
                        a.push(json!("err"));
                        a.push(json!(c));
                    }
                }
                a.push(json!(e.own));
            }
        }
        _ => {}
    }
    Value::Array(a)
}

pub fn encode_all(o: &Outcome) -> Value {
    let mut ops: Vec<Value> = o.evs.iter().map(encode).collect();
    match &o.err {
        Some((f, rd)) => ops.push(json!([rd, "X", f.code, f.cat, f.io])),
        None => ops.push(json!([0, "N"])),
    }
    Value::Array(ops)
}

/// Which aspects of a run are compared. The kinds of events and their order,
/// and whether and where the run fails, always are.
#[derive(Debug, Clone, Default)]
pub struct Aspects {
    pub kinds: bool,   // the role of nodes: root, entry, key, value
    pub values: bool,  // content of scalars
    pub styles: bool,
    pub lz: bool,      // deferred or not
    pub names: bool,   // anchors and aliases
    pub tags: bool,
    pub docs: bool,    // directives, explicit or implied
    pub marks: bool,
    pub own: bool,     // borrowed if it can be
    pub reads: bool,   // no more input than necessary is asked for
    pub cats: bool,    // the category of errors
    pub codes: bool,
    pub total: bool,   // nothing of what it comes to, only that it comes to something
    pub prefix: bool,  // where a run fails does not matter, only that it does
}

impl Aspects {
    pub fn parse(s: &str) -> Self {
        let mut a = Aspects::default();
        for w in s.split(',').filter(|w| !w.is_empty()) {
            match w {
                "kinds" => a.kinds = true,
                "values" => a.values = true,
                "styles" => a.styles = true,
                "lz" => a.lz = true,
                "names" => a.names = true,
                "tags" => a.tags = true,
                "docs" => a.docs = true,
                "marks" => a.marks = true,
                "own" => a.own = true,
                "reads" => a.reads = true,
                "cats" => a.cats = true,
                "codes" => a.codes = true,
                "total" => a.total = true,
                "prefix" => a.prefix = true,
                _ => panic!("unknown aspect {}", w),
            }
        }
        a
    }
}

fn diff_ev(e: &Ev, o: &Ev, p: &Aspects) -> Option<String> {
    macro_rules! same {
        ($c:expr, $what:expr, $x:expr, $y:expr) => {
            if $c && $x != $y {
                return Some(format!("{}: {:?} expected, got {:?}", $what, $x, $y));
            }
        };
    }
    same!(true, "event", e.k, o.k);
    same!(p.own, "copied names", false, o.nown);
    same!(p.kinds, "node kind", e.kind, o.kind);
    same!(p.names, "anchor", e.anchor, o.anchor);
    same!(p.names, "alias", e.name, o.name);
    same!(p.tags, "tag", e.tag.as_ref().map(|t| (&t.handle, &t.suffix)), o.tag.as_ref().map(|t| (&t.handle, &t.suffix)));
    same!(p.docs, "implied", e.imp, o.imp);
    same!(p.docs, "version", e.ver, o.ver);
    same!(p.docs, "directives", e.tags, o.tags);
    same!(p.marks, "marks", (e.a, e.b), (o.a, o.b));
    same!(p.lz, "deferred", e.lz, o.lz);
    if p.values {
        match (&e.val.0, &o.val.0) {
            (Ok(x), Ok(y)) => same!(true, "content", x, y),
            (Err(x), Err(y)) => same!(p.codes, "evaluation error", x, y),
            (x, y) => return Some(format!("evaluation: {:?} expected, got {:?}", x, y)),
        }
    }
    if e.val.0.is_ok() && o.val.0.is_ok() {
        same!(p.styles, "style", e.style, o.style);
        if p.own && !e.own && o.own {
            return Some(format!("copied: {:?}, which is a slice of the input", o.val));
        }
    }
    if p.own && e.k == "D+" && !e.own && o.own {
        return Some(format!("copied: directives {:?}, which are slices of the input", o.tags));
    }
    if p.own {
        if let (Some(x), Some(y)) = (&e.tag, &o.tag) {
            if !x.own && y.own {
                return Some(format!("copied: tag {:?}, which is made of slices of the input", (&y.handle, &y.suffix)));
            }
        }
    }
    if p.reads && o.rd > e.rd {
        return Some(format!("reads: {} are enough for this, got {}", e.rd, o.rd));
    }
    None
}

pub fn diff(e: &Outcome, o: &Outcome, p: &Aspects) -> Option<String> {
    if let Some(b) = &o.broken {
        return Some(b.clone());
    }
    if p.total {
        return match (&o.err, o.evs.last()) {
            (None, Some(e)) if e.k != "S-" => Some(format!("nothing followed {}", e.k)),
            (None, None) => Some("nothing at all".into()),
            _ => None,
        };
    }
    for (i, (x, y)) in e.evs.iter().zip(&o.evs).enumerate() {
        if let Some(d) = diff_ev(x, y, p) {
            return Some(format!("event {}: {}", i + 1, d));
        }
    }
    if o.evs.len() > e.evs.len() && !(p.prefix && e.err.is_some() && o.err.is_some()) {
        return Some(format!(
            "event {}: {} expected, got {}",
            e.evs.len() + 1,
            e.err.as_ref().map_or("the end".into(), |(f, _)| format!("error {}", f.code)),
            o.evs[e.evs.len()].k
        ));
    }
    if o.evs.len() < e.evs.len() && !(p.prefix && e.err.is_some() && o.err.is_some()) {
        return Some(format!(
            "event {}: {} expected, got {}",
            o.evs.len() + 1,
            e.evs[o.evs.len()].k,
            o.err.as_ref().map_or("the end".into(), |(f, _)| format!("error {}", f.code))
        ));
    }
    match (&e.err, &o.err) {
        (None, None) => None,
        (Some((x, xr)), Some((y, yr))) => {
            if p.cats && x.cat != y.cat {
                Some(format!("category: {} ({}) expected, got {}", x.cat, x.code, y.cat))
            } else if p.cats && x.io != y.io {
                Some(format!("io error: {} expected, got {}", x.io, y.io))
            } else if p.codes && x.code != y.code && y.code != "?" {
                Some(format!("error: {} expected, got {}", x.code, y.code))
            } else if p.reads && yr > xr {
                Some(format!("reads: {} are enough to fail, got {}", xr, yr))
            } else {
                None
            }
        }
        (Some((x, _)), None) => Some(format!("accepted: error {} expected", x.code)),
        (None, Some((y, _))) => Some(format!("rejected: with {}", y.code)),
    }
}
