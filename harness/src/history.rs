//! Histories of what a caller does with a stream.
use crate::codec::text;
use crate::obs::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yary::event::flag::{O_LAZY, O_NIL};
use yary::event::types::*;
use yary::event::{from_reader_with, EventIter, Events};
use yary::reader::{from_read, from_utf8, try_from_bytes, Read};

enum Stream<'de, R> {
    Events(Events<'de, R>),
    Iter(EventIter<'de, R>),
    Gone,
}

fn name(e: &EventData<'_>) -> &'static str {
    match e {
        EventData::StreamStart(_) => "S+",
        EventData::StreamEnd => "S-",
        EventData::DocumentStart(_) => "D+",
        EventData::DocumentEnd(_) => "D-",
        EventData::Alias(_) => "A",
        EventData::Scalar(_) => "V",
        EventData::MappingStart(_) => "M+",
        EventData::MappingEnd => "M-",
        EventData::SequenceStart(_) => "Q+",
        EventData::SequenceEnd => "Q-",
    }
}

fn value(s: &Scalar<'_>) -> Value {
    json!(["ok", s.data().to_string(), style(s.style())])
}

fn expected_value(v: &Value) -> Value {
    if v[0] == "ok" {
        json!(["ok", text(&v[1]), v[2]])
    } else {
        v.clone()
    }
}

fn got<'de>(next: Option<yary::error::Result<Event<'de>>>, slots: &mut Vec<Option<ScalarLike<'de>>>) -> Value {
    match next {
        None => json!(["N"]),
        Some(Err(e)) => json!(["X", fail(e).cat]),
        Some(Ok(mut e)) => {
            let r = json!([name(e.data()), e.start()]);
            if let EventData::Scalar(n) = e.data_mut() {
                slots.push(Some(std::mem::take(&mut n.content)));
            }
            r
        }
    }
}

fn play<'de, R: Read>(src: &'de R, lazy: bool, ops: &[Value]) -> Option<String> {
    let flags = if lazy { O_LAZY } else { O_NIL };
    let mut stream = Stream::Events(from_reader_with(src, flags));
    let mut slots: Vec<Option<ScalarLike<'de>>> = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        let slot = |k: usize| op[k].as_u64().unwrap() as usize - 1;
        let (want, is) = match op[0].as_str().unwrap() {
            "next" => {
                let mut r = Vec::new();
                for _ in 0..op[1].as_u64().unwrap() {
                    if let Stream::Iter(it) = &mut stream {
                        r.push(got(it.next(), &mut slots));
                    }
                }
                (op[2].clone(), Value::Array(r))
            }
            "ref" => {
                let mut r = Vec::new();
                if let Stream::Events(ev) = &mut stream {
                    let mut it = ev.iter();
                    for _ in 0..op[1].as_u64().unwrap() {
                        r.push(got(it.next(), &mut slots));
                    }
                }
                (op[2].clone(), Value::Array(r))
            }
            "into" => {
                if let Stream::Events(ev) = std::mem::replace(&mut stream, Stream::Gone) {
                    stream = Stream::Iter(if i % 2 == 0 { ev.into_iter() } else { EventIter::new(ev) });
                }
                (Value::Null, Value::Null)
            }
            "inner" => {
                if let Stream::Iter(it) = std::mem::replace(&mut stream, Stream::Gone) {
                    stream = Stream::Events(it.into_inner());
                }
                (Value::Null, Value::Null)
            }
            "drop" => {
                stream = Stream::Gone;
                let junk: Vec<Vec<u8>> = (0..8).map(|i| vec![b'#'; 64 << i]).collect();
                drop(junk);
                (Value::Null, Value::Null)
            }
            "by" => {
                let x = slots[slot(1)].as_mut().unwrap();
                let r = match x.evaluate_by_ref() {
                    Ok(s) => value(s),
                    Err(_) => json!(["err"]),
                };
                (expected_value(&op[2]), r)
            }
            "take" => {
                let r = match slots[slot(1)].take().unwrap() {
                    // either way
                    ScalarLike::Lazy(l) if i % 2 == 0 => l.evaluate(),
                    x => x.evaluate(),
                };
                let r = match r {
                    Ok(s) => value(&s),
                    Err(_) => json!(["err"]),
                };
                (expected_value(&op[2]), r)
            }
            "free" => {
                slots[slot(1)] = None;
                (Value::Null, Value::Null)
            }
            "is" => {
                let x = slots[slot(1)].as_ref().unwrap();
                if x.is_evaluated() == x.is_unevaluated() {
                    return Some(format!("op {}: both evaluated and not, or neither", i + 1));
                }
                (op[2].clone(), json!(x.is_evaluated()))
            }
            "set" => {
                if let Some(ScalarLike::Eager(s)) = &mut slots[slot(1)] {
                    s.data_mut().to_mut().push('!');
                    (Value::Null, Value::Null)
                } else {
                    (json!("evaluated"), json!("not"))
                }
            }
            "copy" => {
                let x = slots[slot(1)].clone();
                slots.push(x);
                (Value::Null, Value::Null)
            }
            "same" => {
                let (s, t) = (slots[slot(1)].as_ref().unwrap(), slots[slot(2)].as_ref().unwrap());
                (op[3].clone(), json!(s == t))
            }
            x => panic!("unknown operation {}", x),
        };
        if want != is {
            return Some(format!("op {} ({}): {} expected, got {}", i + 1, op[0], want, is));
        }
    }
    None
}

/// The first difference, if there is any
pub fn history(case: &Value, from: &From) -> Option<String> {
    let doc = text(&case["d"]);
    let lazy = case["lz"].as_bool() == Some(true);
    let ops = case["ops"].as_array().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| match from {
        From::Str => play(&from_utf8(&doc), lazy, ops),
        From::Bytes => play(&try_from_bytes(doc.as_bytes()).expect("utf8"), lazy, ops),
        From::Read { steps, hiccup } => {
            let (source, _) = Source::new(doc.as_bytes().to_vec(), steps.clone(), *hiccup);
            play(&from_read(source), lazy, ops)
        }
        From::Padded { .. } => None,
    }));
    r.unwrap_or_else(|p| {
        let what = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        Some(format!("panic: {}", what))
    })
}
