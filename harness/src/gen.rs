//! Random documents. Nothing here knows what a document means: that is for
//! the specification to say.
use crate::obs::{From, Step, Variant};
use crate::rng::Rng;
use serde_json::{json, Value};

const WORDS: &[&str] = &[
    "a", "b", "key", "value", "foo bar", "x-y", "a:b", "c#d", "-z", "?q", ":w", "1.5", "null", "é", "日本", "𝄞x",
    "long word in a row", "it's", "a\"b", "http://e.x/?a=b&c", "~", "=", "<<", "a,b", "a]b", "a}b", "--", "..", "0x1F",
];

const SOUP: &[&str] = &[
    "a", "b", "key", "é", "日", "𝄞", " ", "  ", "\n", "\n", "\n  ", "\n ", "\n    ", "\t", "\r\n", "\r", "\u{85}", "\u{2028}",
    "\u{2029}", "- ", "-", "? ", "?", ": ", ":", ",", ", ", "[", "]", "{", "}", "[ ", " ]", "{ ", " }", "#", " # c", "&a", "&a ", "*a", "*a ",
    "!", "!!", "!!str ", "!t ", "!e!x ", "!<tag:x> ", "!<", ">", "|", "|-\n", "|+\n", ">-\n ", "|2\n  ", ">1+\n ", "'", "''", "'x'", "\"",
    "\"y\"", "\\", "\\n", "\\x41", "\\u00e9", "\\U0001F600", "\\\n", "%", "%YAML 1.2\n", "%TAG ! x:\n", "%TAG !e! y:\n", "---", "\n---\n", "\n--- ",
    "...", "\n...\n", "@", "`", "--- ", "k: ", "k: v\n", "- x\n", "\"a b\"", "'c d'", "0", "9", "+", "%41", "%C3%A9", "\u{feff}", "\0", "\u{7f}", "<", "=",
];

struct W<'r> {
    out: String,
    rng: &'r mut Rng,
    nl: &'static str,
    budget: i32,
    tags: bool,
}

impl<'r> W<'r> {
    fn p(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn nl(&mut self) {
        let n = self.nl;
        if self.rng.chance(1, 12) {
            self.p(" # a comment");
        } else if self.rng.chance(1, 20) {
            self.p("  ");
        }
        self.p(n);
        while self.rng.chance(1, 14) {
            match self.rng.below(3) {
                0 => self.p("# note: - [x\n"),
                1 => self.p("   "),
                _ => {}
            }
            self.p(n);
        }
    }
    fn pad(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    fn gap(&mut self) {
        if self.rng.chance(1, 10) {
            self.p("\t");
        } else {
            let n = 1 + self.rng.below(2) * self.rng.below(3);
            self.pad(n);
        }
    }
    fn props(&mut self) {
        let anchor = self.rng.chance(1, 12);
        let tag = self.rng.chance(1, 12);
        let first = self.rng.chance(1, 2);
        for i in 0..2 {
            if (i == 0) == first {
                if anchor {
                    let a = *self.rng.pick(&["&a ", "&anchor1 ", "&B2 ", "&a  "]);
                    self.p(a);
                }
            } else if tag {
                let t = if self.tags {
                    *self.rng.pick(&["!!str ", "!!map ", "!local ", "! ", "!<tag:yaml.org,2002:str> ", "!e!x ", "!e!a%21b ", "!foo/bar ", "!!%C3%A9 ", "!<!x> "])
                } else {
                    *self.rng.pick(&["!!str ", "!local ", "! ", "!<x:y> ", "!a%20b "])
                };
                self.p(t);
            }
        }
    }
    fn word(&mut self) -> String {
        self.rng.pick(WORDS).to_string()
    }
    fn quoted(&mut self, indent: usize, multi: bool) {
        let single = self.rng.chance(1, 2);
        let q = if single { "'" } else { "\"" };
        let mut s = String::from(q);
        for _ in 0..self.rng.below(6) {
            let piece = match self.rng.below(if multi { 9 } else { 7 }) {
                0 => " ".into(),
                1 if single => "''".into(),
                1 => self
                    .rng
                    .pick(&["\\n", "\\t", "\\\\", "\\\"", "\\x7E", "\\u263A", "\\U0001F600", "\\/", "\\0", "\\a", "\\b", "\\e", "\\f", "\\r", "\\v", "\\N", "\\_", "\\L", "\\P", "\\ ", "\\\t"])
                    .to_string(),
                2 => "#".into(),
                3 => ": ".into(),
                4 => "  ".into(),
                7 => {
                    let mut x = self.nl.repeat(1 + self.rng.below(3));
                    x.push_str(&" ".repeat(indent + self.rng.below(3)));
                    x
                }
                8 if !single => format!("\\{}{}", self.nl, " ".repeat(indent)),
                _ => self.word().replace('\'', "").replace('"', ""),
            };
            s.push_str(&piece);
        }
        s.push_str(q);
        self.p(&s);
    }
    fn plain(&mut self, indent: usize, multi: bool, flow: bool) {
        let n = 1 + self.rng.below(3);
        for i in 0..n {
            if i > 0 {
                if multi && self.rng.chance(1, 3) {
                    let k = 1 + self.rng.below(2);
                    let nl = self.nl.repeat(k);
                    self.p(&nl);
                    let k = indent + self.rng.below(3);
                    self.pad(k);
                } else {
                    self.gap();
                }
            }
            let mut w = self.word();
            if flow {
                w = w.replace([',', ']', '}'], "");
                if w.starts_with(['-', '?', ':']) {
                    w.insert(0, 'f');
                }
            }
            self.p(&w);
        }
    }
    /// A block scalar whose content is indented by at least indent
    fn block_scalar(&mut self, indent: usize) {
        let c = *self.rng.pick(&["|", ">"]);
        self.p(c);
        let chomp = *self.rng.pick(&["", "-", "+", ""]);
        let extra = self.rng.below(3);
        let base = indent.saturating_sub(1) + 1 + extra;
        let explicit = self.rng.chance(1, 4);
        let digit = if explicit { (1 + extra).to_string() } else { String::new() };
        if self.rng.chance(1, 2) {
            self.p(&format!("{}{}", chomp, digit));
        } else {
            self.p(&format!("{}{}", digit, chomp));
        }
        if self.rng.chance(1, 10) {
            self.p(" # header");
        }
        let nl = self.nl;
        self.p(nl);
        for _ in 0..self.rng.below(5) {
            match self.rng.below(6) {
                0 => {
                    let k = self.rng.below(base + 1);
                    self.pad(k);
                    self.p(nl);
                }
                1 => {
                    self.pad(base + 1);
                    let w = self.word();
                    self.p(&w);
                    self.p(nl);
                }
                _ => {
                    self.pad(base);
                    let w = self.word();
                    self.p(&w);
                    if self.rng.chance(1, 5) {
                        self.p("  ");
                    }
                    self.p(nl);
                }
            }
        }
    }
    fn flow(&mut self, indent: usize, depth: usize) {
        self.budget -= 1;
        let ws = |w: &mut Self| {
            if w.rng.chance(1, 10) {
                let n = w.nl;
                w.p(n);
                w.pad(indent + 1);
            } else if w.rng.chance(1, 2) {
                w.p(" ");
            }
        };
        match self.rng.below(if depth > 3 || self.budget < 0 { 3 } else { 7 }) {
            0 | 1 => {
                self.props();
                self.plain(indent + 1, false, true)
            }
            2 => self.quoted(indent + 1, self.budget > 3),
            3 if self.rng.chance(1, 3) => self.p("*a "),
            k => {
                let seq = k % 2 == 0;
                self.props();
                self.p(if seq { "[" } else { "{" });
                let n = self.rng.below(4);
                for i in 0..n {
                    ws(self);
                    if self.rng.chance(1, 8) {
                        self.p("? ");
                    }
                    if !self.rng.chance(1, 14) {
                        self.flow(indent, depth + 1);
                    }
                    if !seq || self.rng.chance(1, 6) {
                        if self.rng.chance(1, 6) {
                            self.p(":");
                        } else if self.rng.chance(5, 6) {
                            self.p(": ");
                            if !self.rng.chance(1, 8) {
                                self.flow(indent, depth + 1);
                            }
                        }
                    }
                    ws(self);
                    if i + 1 < n || self.rng.chance(1, 6) {
                        self.p(",");
                    }
                }
                self.p(if seq { "]" } else { "}" });
            }
        }
    }
    fn key(&mut self, indent: usize) {
        match self.rng.below(8) {
            0 | 1 => self.quoted(indent, false),
            2 if self.rng.chance(1, 4) => self.p("*a "),
            _ => {
                self.props();
                let w = self.word();
                self.p(&w);
            }
        }
    }
    /// What follows "- ", "key:", "? " or "--- ": on the same line or the next
    fn node(&mut self, indent: usize, depth: usize, in_seq: bool, in_map: bool) {
        self.budget -= 1;
        let leaf = depth > 5 || self.budget < 0;
        match self.rng.below(if leaf { 8 } else { 14 }) {
            0 => {
                // nothing at all
                self.nl();
            }
            1 | 2 | 3 => {
                self.gap();
                self.props();
                self.plain(indent + 1, self.budget > 3, false);
                self.nl();
            }
            4 => {
                self.gap();
                self.props();
                self.quoted(indent + 1, true);
                self.nl();
            }
            5 => {
                self.gap();
                self.props();
                self.block_scalar(indent + 1);
            }
            6 => {
                self.gap();
                self.flow(indent, 1);
                self.nl();
            }
            7 => {
                self.gap();
                self.p("*a");
                self.nl();
            }
            k => {
                let seq = k % 2 == 0;
                let step = 1 + self.rng.below(3);
                if in_seq && self.rng.chance(1, 2) {
                    // compact, on the same line
                    self.pad(step);
                    let at = indent + 1 + step;
                    self.coll(at, depth + 1, seq, true);
                } else {
                    self.gap();
                    self.props();
                    self.nl();
                    let at = if seq && in_map && self.rng.chance(1, 3) { indent } else { indent + step };
                    self.coll(at, depth + 1, seq, false);
                }
            }
        }
    }
    fn coll(&mut self, at: usize, depth: usize, seq: bool, mut inline: bool) {
        let n = 1 + self.rng.below(3);
        for _ in 0..n {
            if !inline {
                self.pad(at);
            }
            inline = false;
            if seq {
                self.p("-");
                self.node(at, depth, true, false);
            } else if self.rng.chance(1, 8) {
                self.p("?");
                self.node(at, depth, true, true);
                if self.rng.chance(3, 4) {
                    self.pad(at);
                    self.p(":");
                    self.node(at, depth, true, true);
                }
            } else {
                self.key(at);
                if self.rng.chance(1, 10) {
                    self.p(" ");
                }
                self.p(":");
                self.node(at, depth, false, true);
            }
        }
    }
    fn directives(&mut self) {
        for _ in 0..self.rng.below(3) {
            let d = match self.rng.below(6) {
                0 | 1 => format!("%YAML {}.{}", self.rng.below(4), self.rng.below(300)),
                2 => "%TAG ! !local/".to_string(),
                3 => "%TAG !! tag:example.com,2000:".to_string(),
                4 => "%TAG !e! tag:e%21x/".to_string(),
                _ => "%TAG   !e!   !e-".to_string(),
            };
            self.p(&d);
            self.nl();
        }
    }
    fn stream(&mut self) {
        let docs = 1 + self.rng.below(3) * self.rng.below(2);
        for i in 0..docs {
            let explicit = i > 0 || self.rng.chance(1, 3);
            if explicit {
                if self.rng.chance(1, 3) {
                    self.directives();
                    self.tags = true;
                }
                self.p("---");
                if self.rng.chance(1, 3) {
                    self.node(0, 0, false, false);
                } else {
                    self.nl();
                }
            }
            match self.rng.below(8) {
                0 => {
                    self.plain(1, true, false);
                    self.nl();
                }
                1 => {
                    self.flow(0, 0);
                    self.nl();
                }
                2 => {
                    let at = self.rng.below(3);
                    self.coll(at, 0, true, false)
                }
                3 if self.rng.chance(1, 2) => {}
                _ => {
                    let at = self.rng.below(2) * self.rng.below(4);
                    self.coll(at, 0, false, false)
                }
            }
            if self.rng.chance(1, 4) {
                self.p("...");
                self.nl();
            }
        }
        if self.rng.chance(1, 4) {
            while self.out.ends_with(['\n', '\r', ' ']) {
                self.out.pop();
            }
        }
    }
}

fn tree(rng: &mut Rng, budget: i32) -> String {
    let nl = *rng.pick(&["\n", "\n", "\n", "\n", "\n", "\r\n", "\r", "\u{85}", "\u{2028}"]);
    let mut w = W { out: String::new(), rng, nl, budget, tags: false };
    w.stream();
    w.out
}

fn soup(rng: &mut Rng, max: usize) -> String {
    let n = 1 + rng.below(max);
    // a few favourites make repetition likely
    let fav: Vec<&str> = (0..6).map(|_| *rng.pick(SOUP)).collect();
    (0..n).map(|_| if rng.chance(1, 2) { *rng.pick(&fav) } else { *rng.pick(SOUP) }).collect()
}

fn mutate(rng: &mut Rng, s: String) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + rng.below(3) {
        if c.is_empty() {
            break;
        }
        let i = rng.below(c.len());
        match rng.below(5) {
            0 => {
                c.remove(i);
            }
            1 => {
                let x: Vec<char> = rng.pick(SOUP).chars().collect();
                for (k, y) in x.into_iter().enumerate() {
                    c.insert(i + k, y);
                }
            }
            2 => {
                let j = rng.below(c.len());
                c.swap(i, j);
            }
            3 => {
                c.truncate(i.max(1));
            }
            _ => {
                let x: Vec<char> = rng.pick(SOUP).chars().collect();
                c[i] = x[0];
            }
        }
    }
    c.into_iter().collect()
}

/// Scalars of one style, in various places
fn scalar(rng: &mut Rng, which: usize) -> String {
    let nl = *rng.pick(&["\n", "\n", "\n", "\r\n", "\r", "\u{85}"]);
    let mut w = W { out: String::new(), rng, nl, budget: 6, tags: false };
    let place = w.rng.below(7);
    let (before, indent, after) = match place {
        0 => ("", 0, ""),
        1 => ("- ", 1, "\n- z"),
        2 => ("k: ", 1, "\nl: m"),
        3 if which < 2 => ("[", 0, ", z]"),
        4 if which < 2 => ("{k: ", 0, ", l: m}"),
        5 => ("a:\n  - b: ", 5, "\n  - c"),
        6 if which < 2 => ("  ", 1, ": v"),
        _ => ("--- ", 0, "\n..."),
    };
    w.p(before);
    for _ in 0..1 {
        match which {
            0 => {
                for i in 0..1 + w.rng.below(4) {
                    if i > 0 {
                        let g = *w.rng.pick(&[" ", "  ", "\t", "\n", "\n\n", "\n \n", " # ", "#", ": ", " - ", "? ", "\n  ", "\n    ", "\n\t"]);
                        w.p(&g.replace('\n', nl));
                        if g.contains('\n') {
                            w.pad(indent);
                        }
                    }
                    let x = w.word();
                    w.p(&x);
                }
            }
            1 => w.quoted(indent, true),
            _ => {
                w.block_scalar(indent);
                if w.rng.chance(1, 2) {
                    while w.out.ends_with(['\n', '\r', ' ', '\u{85}']) {
                        w.out.pop();
                    }
                }
            }
        }
    }
    w.p(after);
    w.out
}

/// Implicit keys of about the greatest length there may be
fn long_key(rng: &mut Rng) -> String {
    let n = 1015 + rng.below(18);
    let unit = *rng.pick(&["k", "k", "é", "ab "]);
    let mut k = String::new();
    while k.len() < n {
        k.push_str(unit);
    }
    let k = k.trim_end().to_string();
    let k = match rng.below(4) {
        0 => format!("'{}'", k),
        1 => format!("\"{}\"", k),
        _ => k,
    };
    let props = *rng.pick(&["", "", "&a ", "!t ", "&a !t "]);
    let gap = " ".repeat(rng.below(3) * rng.below(2));
    match rng.below(6) {
        0 => format!("{}{}{}: v\n", props, k, gap),
        1 => format!("a: b\n{}{}{}: v\n", props, k, gap),
        2 => format!("{{{}{}{}: v, w: x}}", props, k, gap),
        3 => format!("[{}{}{}: v, w]", props, k, gap),
        4 => format!("- {}{}{}: v\n- w", props, k, gap),
        _ => format!("? {}{}{}\n: v\n", props, k, gap),
    }
}

fn deep(rng: &mut Rng) -> String {
    let n = 20 + rng.below(300);
    match rng.below(4) {
        0 => format!("{}x{}", "[".repeat(n), "]".repeat(n)),
        1 => format!("{}x{}", "- ".repeat(n), "\n- y"),
        2 => format!("{}x{}", "{a: ".repeat(n), "}".repeat(n)),
        _ => (0..n.min(60)).map(|i| format!("{}k:\n", " ".repeat(i))).collect(),
    }
}

/// Longer than any buffer a reader is likely to have
fn long(rng: &mut Rng) -> String {
    let target = 8000 + rng.below(1200) + rng.below(2) * 8192;
    let mut s = String::new();
    if rng.chance(1, 3) {
        // one scalar across the boundary
        // (few words: the specification takes its time for each)
        let w = rng.pick(&["word", "é", "日本", "𝄞𝄞"]).repeat(10 + rng.below(40)) + " ";
        let body = w.repeat(target / w.len() + 1);
        return match rng.below(4) {
            0 => format!("a: '{}'\nb: c\n", body),
            1 => format!("a: \"{}\\n\"\nb: c\n", body),
            2 => format!("a: |\n  {}\nb: c\n", body.replacen("word ", "word\n  ", 9)),
            _ => format!("a: {}\nb: c\n", body),
        };
    }
    while s.len() < target {
        match rng.below(4) {
            0 => s.push_str("- some: thing\n  else: [1, 2, {a: é}]\n"),
            1 => s.push_str("- 'quoted ''text'''\n"),
            2 => s.push_str("- |\n  literal 日本\n  text\n"),
            _ => s.push_str("- \"esc \\u263A aped\"\n"),
        }
    }
    s
}

pub fn document(profile: &str, rng: &mut Rng) -> String {
    match profile {
        "soup" => soup(rng, 14),
        "tree" | "faults" => {
            let n = 3 + rng.below(16) as i32;
            tree(rng, n)
        }
        "big" => {
            let n = 20 + rng.below(60) as i32;
            tree(rng, n)
        }
        "mut" => {
            let n = 2 + rng.below(10) as i32;
            let t = tree(rng, n);
            mutate(rng, t)
        }
        "plain" => scalar(rng, 0),
        "quoted" => scalar(rng, 1),
        "block" => scalar(rng, 2),
        "scalars" => {
            let k = rng.below(3);
            let s = scalar(rng, k);
            if rng.chance(1, 4) {
                mutate(rng, s)
            } else {
                s
            }
        }
        "keys" => long_key(rng),
        "deep" => deep(rng),
        "long" => long(rng),
        "mix" => match rng.below(12) {
            0..=2 => soup(rng, 14),
            3..=6 => document("tree", rng),
            7..=9 => document("mut", rng),
            _ => document("scalars", rng),
        },
        _ => panic!("unknown profile {}", profile),
    }
}

/// What the specification is told of the chunks: how many characters each
/// completes. The profile "faults" also has sources which fail.
pub fn faults(profile: &str, doc: &str, v: Variant, rng: &mut Rng) -> (Vec<u8>, Variant, Value) {
    let mut bytes = doc.as_bytes().to_vec();
    let mut v = v;
    let mut chunks: Vec<i64> = Vec::new();
    if let From::Read { steps, .. } = &mut v.from {
        let chars = |upto: usize| -> i64 {
            // characters which end at or before this byte
            doc.char_indices().filter(|(i, c)| i + c.len_utf8() <= upto).count() as i64
        };
        // no source ends a chunk which is empty but for its end
        let mut used = Vec::new();
        let mut at = 0;
        for s in steps.iter() {
            if let Step::Bytes(n) = s {
                if at >= bytes.len() {
                    break;
                }
                let to = (at + n).min(bytes.len());
                chunks.push(chars(to) - chars(at));
                used.push(Step::Bytes(to - at));
                at = to;
            }
        }
        if at < bytes.len() {
            chunks.push(chars(bytes.len()) - chars(at));
            used.push(Step::Bytes(bytes.len() - at));
        }
        *steps = used;
        if profile == "faults" && !steps.is_empty() {
            let k = rng.below(steps.len() + 1);
            if rng.chance(1, 2) {
                // the k-th read fails
                let n = match steps.get(k) {
                    Some(Step::Bytes(n)) => rng.below(*n + 1),
                    _ => 0,
                };
                steps.truncate(k);
                chunks.truncate(k);
                steps.push(Step::Fail(n));
                chunks.push(-1);
            } else if k < steps.len() {
                // bytes which aren't UTF-8, somewhere in the k-th chunk, on a
                // character boundary
                let start: usize = steps[..k].iter().map(|s| if let Step::Bytes(n) = s { *n } else { 0 }).sum();
                if let Step::Bytes(n) = steps[k] {
                    let mut i = start + rng.below(n);
                    while !doc.is_char_boundary(i) {
                        i -= 1;
                    }
                    if i >= start {
                        let bad: &[u8] = *rng.pick(&[&[0xFF][..], &[0xC0, 0x80][..], &[0xED, 0xA0, 0x80][..], &[0x80][..], &[0xF5, 0x80, 0x80, 0x80][..]]);
                        bytes.splice(i..i, bad.iter().copied());
                        steps[k] = Step::Bytes(n + bad.len());
                        chunks.truncate(k);
                        chunks.push(-2);
                        steps.truncate(k + 1);
                    }
                }
            } else {
                // cut off in the middle of a character
                let bad: &[u8] = *rng.pick(&[&[0xC3][..], &[0xE6, 0x97][..], &[0xF0, 0x9D, 0x84][..]]);
                bytes.extend_from_slice(bad);
                if let Some(Step::Bytes(n)) = steps.last_mut() {
                    *n += bad.len();
                }
                chunks.push(-2);
            }
        }
    }
    (bytes, v, json!(chunks))
}
