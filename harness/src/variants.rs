//! The ways in which a document is given to the real code.
use crate::obs::*;
use crate::rng::Rng;

/// Chunk schedules for a document of n bytes. Boundaries may be in the middle
/// of a character.
pub fn schedules(doc: &[u8], rng: &mut Rng, family: &str) -> Vec<Vec<Step>> {
    let n = doc.len();
    let mut out: Vec<Vec<Step>> = Vec::new();
    // rescanning a token for every byte of a long document is quadratic
    let one = 1 + n / 160;
    let single = |k: usize| (0..n / k + 1).map(|_| Step::Bytes(k)).collect::<Vec<_>>();
    let random = |rng: &mut Rng| {
        let mut v = Vec::new();
        let mut left = n;
        while left > 0 {
            let k = 1 + if rng.chance(1, 3) { rng.below(3) } else { rng.below(left.min(24 + n / 8)) };
            v.push(Step::Bytes(k.min(left)));
            left -= k.min(left);
        }
        v
    };
    match family {
        // everything at once
        "whole" => out.push(vec![]),
        "bytes" => out.push(single(one)),
        "random" => out.push(random(rng)),
        // every single boundary, and a boundary everywhere
        "all" => {
            out.push(vec![]);
            out.push(single(one));
            if n <= 24 {
                for k in 1..n {
                    out.push(vec![Step::Bytes(k)]);
                }
            } else {
                for _ in 0..8 {
                    out.push(vec![Step::Bytes(1 + rng.below(n - 1))]);
                }
            }
            out.push(random(rng));
            out.push(random(rng));
        }
        // a few
        "some" => {
            out.push(single(one));
            if n > 1 {
                out.push(vec![Step::Bytes(1 + rng.below(n - 1))]);
            }
            out.push(random(rng));
        }
        _ => panic!("unknown schedule family {}", family),
    }
    out
}

/// Lengths of what is put before a document of n bytes, so that the buffers of
/// the reader (of 8 KiB at first) end somewhere in it
fn edges(n: usize, rng: &mut Rng, family: &str) -> Vec<usize> {
    const BUF: usize = 8192;
    match family {
        "all" if n > 1 && n <= 24 => (1..n).map(|k| BUF - k).collect(),
        "all" => {
            let mut v: Vec<usize> = (0..8).map(|_| BUF - 1 - rng.below(n.clamp(1, BUF - 2))).collect();
            v.push(1 + rng.below(60_000));
            v
        }
        "far" => vec![1 + rng.below(60_000)],
        _ if n < 2 => vec![BUF - rng.below(2)],
        _ => vec![BUF - 1 - rng.below((n - 1).min(BUF - 2))],
    }
}

/// The steps which deliver doc in the given chunks of characters (-1 an error
/// of the source, 0 only a part of a character)
pub fn steps(doc: &str, chunks: &[i64]) -> Vec<Step> {
    let ends: Vec<usize> = doc.char_indices().map(|(i, c)| i + c.len_utf8()).collect();
    let mut out = Vec::new();
    let (mut chars, mut at) = (0usize, 0usize);
    for &k in chunks {
        if k < 0 {
            out.push(Step::Fail(0));
            continue;
        }
        chars = (chars + k as usize).min(ends.len());
        let whole = if chars == 0 { 0 } else { ends[chars - 1] };
        let mut to = whole.max(at);
        // the first byte of the next character comes with a chunk of none
        if k == 0 && to == at && chars < ends.len() && ends[chars] > to + 1 {
            to += 1;
        }
        out.push(Step::Bytes(to - at));
        at = to;
    }
    out
}

/// A variant set is a list of  reader eagerness pull eval : family
///   reader     b (str), y (bytes), o (a stream), p (a plain one, with padding)
///   eagerness  e (eager), l (lazy)
///   pull       i (by value), r (by reference), m (mixed), k (kept), d (kept, dropped)
///   eval       v (evaluate), f (evaluate_by_ref)
pub fn variants(list: &str, doc: &[u8], rng: &mut Rng) -> Vec<(String, Variant)> {
    let mut out = Vec::new();
    for w in list.split(',') {
        let (head, family) = match w.split_once(':') {
            Some((h, f)) => (h, f),
            None => (w, "whole"),
        };
        let c: Vec<char> = head.chars().collect();
        let lazy = c.get(1) == Some(&'l');
        let pull = match c.get(2) {
            None | Some('i') => Pull::Into,
            Some('r') => Pull::Iter,
            Some('m') => Pull::Mixed,
            Some('k') => Pull::Keep,
            Some('d') => Pull::KeepDrop,
            _ => panic!("pull {}", head),
        };
        let by_ref = c.get(3) == Some(&'f');
        let froms = match c[0] {
            'b' => vec![From::Str],
            'y' => vec![From::Bytes],
            'o' => schedules(doc, rng, family)
                .into_iter()
                .map(|steps| From::Read { steps, hiccup: if rng.chance(1, 4) { rng.next() | 1 } else { 0 } })
                .collect(),
            'p' => edges(doc.len(), rng, family)
                .into_iter()
                .map(|pad| From::Padded { pad, seed: rng.next() })
                .collect(),
            _ => panic!("reader {}", head),
        };
        for from in froms {
            out.push((w.to_string(), Variant { from, lazy, pull, by_ref }));
        }
    }
    out
}

pub fn describe(v: &Variant) -> String {
    let from = match &v.from {
        From::Padded { pad, seed } => format!("from_read behind a comment of {} bytes ({})", pad, seed),
        From::Str => "from_utf8".to_string(),
        From::Bytes => "try_from_bytes".to_string(),
        From::Read { steps, hiccup } => {
            let s: Vec<String> = steps
                .iter()
                .take(64)
                .map(|s| match s {
                    Step::Bytes(n) => n.to_string(),
                    Step::Fail(n) => format!("{}!", n),
                })
                .collect();
            format!("from_read in chunks of [{}]{}", s.join(" "), if *hiccup != 0 { " with interruptions" } else { "" })
        }
    };
    format!("{}{}, {:?}{}", from, if v.lazy { ", lazy" } else { "" }, v.pull, if v.by_ref { ", by_ref" } else { "" })
}
