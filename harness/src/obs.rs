//! Running the real code, and what is observed of it.
use std::borrow::Cow;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

use yary::event::flag::{O_LAZY, O_NIL};
use yary::event::types::*;
use yary::event::Events;
use yary::reader::{from_read, from_utf8, try_from_bytes, Read};

/// What is observed of a node's tag.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Tag {
    pub handle: String,
    pub suffix: String,
    pub own: bool,
}

/// What a scalar evaluates to: its content, or an error code
#[derive(Debug, Clone, PartialEq)]
pub struct Val(pub Result<String, String>);
impl Default for Val {
    fn default() -> Self {
        Val(Ok(String::new()))
    }
}

/// An event, in the terms of the specification.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Ev {
    pub k: String,
    pub a: usize,
    pub b: usize,
    pub anchor: Option<String>,
    pub tag: Option<Tag>,
    pub kind: String,
    // scalars
    pub style: String,
    pub lz: bool,
    pub val: Val,
    pub own: bool,
    // a name was copied
    pub nown: bool,
    // documents
    pub ver: (u32, u32),
    pub tags: Vec<(String, String)>,
    pub imp: bool,
    // alias
    pub name: String,
    // how much of the input had been asked for
    pub rd: usize,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Fail {
    pub code: String,
    pub cat: String,
    pub io: String,
}

#[derive(Debug, Clone, Default)]
pub struct Outcome {
    pub evs: Vec<Ev>,
    pub err: Option<(Fail, usize)>,
    /// Something no caller should ever see: a panic, an endless stream, an
    /// event after the last, ...
    pub broken: Option<String>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Step {
    /// This many bytes, and then a pause
    Bytes(usize),
    /// An IO error, after this many bytes
    Fail(usize),
}

/// How sources fail
const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::NotFound,
];
const PLANNED: &str = "planned";
thread_local! {
    /// The last failure
    static GIVEN: std::cell::Cell<Option<io::ErrorKind>> = const { std::cell::Cell::new(None) };
}

/// A source which hands out its bytes in given chunks. Between two chunks it
/// reports that there is nothing at the moment.
pub struct Source {
    data: Vec<u8>,
    pos: usize,
    steps: Vec<Step>,
    at: usize,
    left: usize,
    fresh: bool,
    hiccup: u64,
    asked: Arc<AtomicUsize>,
}

impl Source {
    pub fn new(data: Vec<u8>, steps: Vec<Step>, hiccup: u64) -> (Self, Arc<AtomicUsize>) {
        let asked = Arc::new(AtomicUsize::new(0));
        let s = Source { data, pos: 0, steps, at: 0, left: 0, fresh: true, hiccup, asked: asked.clone() };
        (s, asked)
    }
}

impl io::Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.hiccup != 0 {
            self.hiccup = self.hiccup.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if self.hiccup >> 62 == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        if self.fresh {
            self.asked.fetch_add(1, Ordering::SeqCst);
            self.fresh = false;
            self.left = match self.steps.get(self.at) {
                Some(Step::Bytes(n)) | Some(Step::Fail(n)) => *n,
                None => self.data.len() - self.pos,
            };
            self.left = self.left.min(self.data.len() - self.pos);
        }
        if self.left == 0 {
            let step = self.steps.get(self.at).copied();
            self.at += 1;
            self.fresh = true;
            return match step {
                Some(Step::Fail(_)) => {
                    let kind = KINDS[(self.data.len() + self.at) % KINDS.len()];
                    GIVEN.with(|g| g.set(Some(kind)));
                    Err(io::Error::new(kind, PLANNED))
                }
                _ => Ok(0),
            };
        }
        let n = buf.len().min(self.left);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.left -= n;
        Ok(n)
    }
}

#[derive(Debug, Clone)]
pub enum From {
    Str,
    Bytes,
    Read { steps: Vec<Step>, hiccup: u64 },
    /// As any file or socket: behind a comment of so many bytes, in reads of
    /// some size, and with one end
    Padded { pad: usize, seed: u64 },
}

/// A source of the plain kind: reads may be short, or interrupted
struct Honest {
    data: Vec<u8>,
    pos: usize,
    seed: u64,
}

impl io::Read for Honest {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (self.seed >> 33) as usize;
        let most = match (self.seed >> 30) & 7 {
            0 => return Err(io::ErrorKind::Interrupted.into()),
            1 => 1 + r % 7,
            2 | 3 => 1 + r % 3000,
            _ => usize::MAX,
        };
        let n = buf.len().min(self.data.len() - self.pos).min(most);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// How events are pulled and kept.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Pull {
    /// By value, looked at immediately
    Into,
    /// A new borrowing iterator for every event
    Iter,
    /// Changing between the two
    Mixed,
    /// All are kept, and only looked at once the stream has ended
    Keep,
    /// As Keep, after also dropping the stream
    KeepDrop,
}

#[derive(Debug, Clone)]
pub struct Variant {
    pub from: From,
    pub lazy: bool,
    pub pull: Pull,
    /// evaluate_by_ref instead of evaluate
    pub by_ref: bool,
}

fn own(s: &Cow<'_, str>) -> bool {
    matches!(s, Cow::Owned(_))
}

/// Is s a part of base?
fn inside(s: &str, base: &str) -> bool {
    let (a, b) = (s.as_ptr() as usize, base.as_ptr() as usize);
    s.is_empty() || (a >= b && a + s.len() <= b + base.len())
}

fn kind(k: NodeKind) -> String {
    match k {
        NodeKind::Root => "R",
        NodeKind::Entry => "E",
        NodeKind::Key => "K",
        NodeKind::Value => "V",
    }
    .into()
}

pub fn style(s: ScalarStyle) -> String {
    match s {
        ScalarStyle::Plain => "plain",
        ScalarStyle::SingleQuote => "single",
        ScalarStyle::DoubleQuote => "double",
        ScalarStyle::Literal => "literal",
        ScalarStyle::Folded => "folded",
    }
    .into()
}

/// The name of an error; ? if it isn't known
fn code_of(e: &yary::Error) -> String {
    let dbg = format!("{:?}", e);
    if let Some(i) = dbg.find("Code(") {
        dbg[i + 5..].chars().take_while(|c| c.is_alphanumeric()).collect()
    } else if let Some(i) = dbg.find("Source(") {
        dbg[i + 7..].chars().take_while(|c| c.is_alphanumeric()).collect()
    } else {
        String::from("?")
    }
}

pub fn fail(e: yary::Error) -> Fail {
    use yary::error::Category::*;
    let code = code_of(&e);
    let cat = match e.classify() {
        IO => "IO",
        Syntax => "Syntax",
        Data => "Data",
        EOF => "EOF",
    };
    let shown = e.to_string();
    let io: io::Error = e.into();
    let mut kind = format!("{:?}", io.kind());
    if cat == "IO" {
        if GIVEN.with(|g| g.get()) != Some(io.kind()) {
            kind.push_str("(another)");
        } else if io.get_ref().map(|e| e.to_string()).as_deref() != Some(PLANNED) {
            kind.push_str("(another error)");
        } else {
            kind = String::from("AsGiven");
        }
    }
    if shown.is_empty() || (cat != "IO" && io.get_ref().is_none()) {
        kind.push_str("(lost)");
    }
    Fail { code, cat: cat.into(), io: kind }
}

struct Look<'x, 'e> {
    base: Option<&'x str>,
    by_ref: bool,
    broken: Option<String>,
    /// The last scalars there were, evaluated and as they came
    scalars: Vec<(Scalar<'e>, ScalarLike<'e>)>,
}

/// Scalars are the same if their contents and styles are
fn same(a: &Scalar<'_>, b: &Scalar<'_>) -> bool {
    a.data() == b.data() && style(a.style()) == style(b.style())
}

impl<'x, 'e> Look<'x, 'e> {
    fn slice(&mut self, s: &Cow<'_, str>, what: &str) -> (String, bool) {
        if let (Cow::Borrowed(b), Some(base)) = (s, self.base) {
            if !inside(b, base) {
                self.broken.get_or_insert(format!("outside: {} {:?} is borrowed, but not from the input", what, b));
            }
        }
        (s.to_string(), own(s))
    }

    fn node<T>(&mut self, ev: &mut Ev, n: &Node<'_, T>) {
        ev.anchor = n.anchor.as_ref().map(|a| {
            let (s, o) = self.slice(a, "anchor");
            ev.nown |= o;
            s
        });
        ev.kind = kind(n.kind);
        ev.tag = n.tag.as_ref().map(|(h, s)| {
            let (handle, o) = self.slice(h, "tag handle");
            let (suffix, own) = self.slice(s, "tag suffix");
            Tag { handle, suffix, own: own | o }
        });
    }

    fn scalar(&mut self, ev: &mut Ev, s: &Scalar<'_>) {
        ev.style = style(s.style());
        let (v, o) = self.slice(s.data(), "scalar");
        if &**s != v || s.as_ref() != v {
            self.broken.get_or_insert(format!("views: of scalar {:?} differ", v));
        }
        ev.val = Val(Ok(v));
        ev.own = o;
    }

    fn compare(&mut self, s: Scalar<'e>, like: ScalarLike<'e>) {
        for (t, other) in &self.scalars {
            let eq = same(&s, t);
            let lazy = matches!(like, ScalarLike::Lazy(_)) || matches!(other, ScalarLike::Lazy(_));
            if (s == *t) != eq || (*t == s) != eq {
                self.broken.get_or_insert(format!("equal: {:?} and {:?}: {}", s, t, s == *t));
            }
            if (like == *other) != (eq && !lazy) || (*other == like) != (eq && !lazy) {
                self.broken.get_or_insert(format!("equal: {:?} and {:?}: {}", like, other, like == *other));
            }
        }
        if self.scalars.len() == 4 {
            self.scalars.remove(0);
        }
        self.scalars.push((s, like));
    }

    fn event(&mut self, mut e: Event<'e>, rd: usize) -> Ev {
        let mut ev = Ev { a: e.start(), b: e.end(), rd, ..Ev::default() };
        let by_ref = self.by_ref;
        if let EventData::Scalar(n) = e.data_mut() {
            ev.lz = n.content.is_unevaluated();
            if ev.lz == n.content.is_evaluated() || ev.lz != matches!(n.content, ScalarLike::Lazy(_)) {
                self.broken.get_or_insert("evaluated: both or neither".into());
            }
            // a copy is another scalar, which is evaluated for itself
            let twin = n.content.clone();
            if let Ok(s) = n.content.clone().evaluate() {
                self.compare(s, n.content.clone());
            }
            if ev.lz && n.content == twin {
                self.broken.get_or_insert("equal: an unevaluated scalar".into());
            }
            if by_ref {
                match n.content.evaluate_by_ref() {
                    Ok(s) => {
                        let s = s.clone();
                        self.scalar(&mut ev, &s)
                    }
                    Err(err) => {
                        ev.val = Val(Err(fail(err).code));
                        match &n.content {
                            ScalarLike::Eager(s) if s.data().is_empty() => {}
                            _ => {
                                self.broken.get_or_insert("residue: a failed evaluation left something".into());
                            }
                        }
                    }
                }
                if !n.content.is_evaluated() || !matches!(n.content, ScalarLike::Eager(_)) {
                    self.broken.get_or_insert("evaluated: not after evaluation".into());
                }
                // again changes nothing
                let again = n.content.evaluate_by_ref().map(|s| s.clone());
                match (&ev.val.0, again) {
                    (Ok(v), Ok(s)) if s.data() == v && style(s.style()) == ev.style => {}
                    (Err(_), Ok(s)) if s.data().is_empty() => {}
                    (v, s) => {
                        self.broken.get_or_insert(format!("again: {:?} then {:?}", v, s.map(|s| s.data().to_string()).ok()));
                    }
                }
                // and the copy agrees
                match (&ev.val.0, twin.evaluate()) {
                    (Ok(v), Ok(s)) if s.data() == v => {}
                    (Err(c), Err(e)) if *c == fail_code(&e) => {}
                    (v, _) => {
                        self.broken.get_or_insert(format!("copy: evaluates to something else than {:?}", v));
                    }
                }
            } else {
                match twin {
                    ScalarLike::Eager(s) => self.scalar(&mut ev, &s),
                    ScalarLike::Lazy(l) => match l.evaluate() {
                        Ok(s) => self.scalar(&mut ev, &s),
                        Err(err) => ev.val = Val(Err(fail(err).code)),
                    },
                }
                if ev.lz != n.content.is_unevaluated() {
                    self.broken.get_or_insert("evaluated: through a copy".into());
                }
                match (&ev.val.0, n.content.clone().evaluate()) {
                    (Ok(v), Ok(s)) if s.data() == v && style(s.style()) == ev.style => {}
                    (Err(c), Err(e)) if *c == fail_code(&e) => {}
                    (v, _) => {
                        self.broken.get_or_insert(format!("twice: evaluates to something else than {:?}", v));
                    }
                }
            }
        }
        match e.data() {
            EventData::StreamStart(s) => {
                ev.k = "S+".into();
                if s.encoding != StreamEncoding::UTF8 {
                    self.broken.get_or_insert("encoding".into());
                }
            }
            EventData::StreamEnd => ev.k = "S-".into(),
            EventData::DocumentStart(d) => {
                ev.k = "D+".into();
                ev.imp = d.implicit;
                ev.ver = (d.directives.version.major as u32, d.directives.version.minor as u32);
                for (h, p) in d.directives.tags.iter() {
                    // those which are always there needn't be from the input
                    let default = matches!((&**h, &**p), ("!", "!") | ("!!", "tag:yaml.org,2002:"));
                    let (handle, a) = if default { (h.to_string(), own(h)) } else { self.slice(h, "directive handle") };
                    let (prefix, b) = if default { (p.to_string(), own(p)) } else { self.slice(p, "directive prefix") };
                    ev.own |= a | b;
                    ev.tags.push((handle, prefix));
                }
                ev.tags.sort();
            }
            EventData::DocumentEnd(d) => {
                ev.k = "D-".into();
                ev.imp = d.implicit;
            }
            EventData::Alias(a) => {
                ev.k = "A".into();
                let (s, o) = self.slice(&a.name, "alias");
                ev.name = s;
                ev.nown |= o;
            }
            EventData::Scalar(n) => {
                ev.k = "V".into();
                self.node(&mut ev, n);
            }
            EventData::MappingStart(n) => {
                ev.k = "M+".into();
                self.node(&mut ev, n);
            }
            EventData::MappingEnd => ev.k = "M-".into(),
            EventData::SequenceStart(n) => {
                ev.k = "Q+".into();
                self.node(&mut ev, n);
            }
            EventData::SequenceEnd => ev.k = "Q-".into(),
        }
        ev
    }
}

fn fail_code(e: &yary::Error) -> String {
    code_of(e)
}

fn drive<'de, R: Read>(src: &'de R, v: &Variant, base: Option<&str>, limit: usize, asked: Option<Arc<AtomicUsize>>) -> Outcome {
    let rd = || asked.as_ref().map_or(0, |a| a.load(Ordering::SeqCst));
    let mut look = Look { base, by_ref: v.by_ref, broken: None, scalars: Vec::new() };
    let mut out = Outcome::default();
    let mut kept: Vec<(Event<'de>, usize)> = Vec::new();
    let mut events = Some(Events::new(src, if v.lazy { O_LAZY } else { O_NIL }));
    let mut by_value = None;
    let mut n = 0usize;
    let mut over = 0usize;
    if rd() != 0 {
        out.broken = Some("eager: input was read before an event was asked for".into());
    }
    while over < 4 {
        let value = match v.pull {
            Pull::Into | Pull::Keep | Pull::KeepDrop => true,
            Pull::Iter => false,
            Pull::Mixed => n % 3 != 0,
        };
        let next = if value {
            if by_value.is_none() {
                by_value = events.take().map(IntoIterator::into_iter);
            }
            by_value.as_mut().unwrap().next()
        } else {
            if events.is_none() {
                events = by_value.take().map(|i| i.into_inner());
            }
            events.as_mut().unwrap().iter().next()
        };
        n += 1;
        match next {
            None => over += 1,
            Some(_) if over > 0 => {
                out.broken.get_or_insert("resumed: something followed the end of the stream".into());
                break;
            }
            Some(_) if out.err.is_some() => {
                out.broken.get_or_insert("resumed: something followed an error".into());
                break;
            }
            Some(Err(e)) => out.err = Some((fail(e), rd())),
            Some(Ok(e)) => {
                if matches!(v.pull, Pull::Keep | Pull::KeepDrop) {
                    kept.push((e, rd()));
                } else {
                    let ev = look.event(e, rd());
                    out.evs.push(ev);
                }
            }
        }
        if n > limit {
            out.broken.get_or_insert("endless: far more events than the input can have".into());
            break;
        }
    }
    if v.pull == Pull::KeepDrop {
        drop(by_value);
        drop(events);
        // overwrite whatever was freed
        let junk: Vec<Vec<u8>> = (0..8).map(|i| vec![b'#'; 64 << i]).collect();
        drop(junk);
    }
    for (e, rd) in kept {
        let ev = look.event(e, rd);
        out.evs.push(ev);
    }
    if out.broken.is_none() {
        out.broken = look.broken;
    }
    out
}

/// Run the real code over the given bytes.
pub fn run(doc: &[u8], v: &Variant) -> Outcome {
    let limit = 6 * doc.len() + 64;
    let r = catch_unwind(AssertUnwindSafe(|| match &v.from {
        From::Str => {
            let s = std::str::from_utf8(doc).expect("not utf8").to_string();
            let src = from_utf8(&s);
            drive(&src, v, Some(&s), limit, None)
        }
        From::Bytes => match try_from_bytes(doc) {
            Ok(src) => drive(&src, v, std::str::from_utf8(doc).ok(), limit, None),
            Err(e) => Outcome { err: Some((fail(e), 0)), ..Outcome::default() },
        },
        From::Read { steps, hiccup } => {
            let (source, asked) = Source::new(doc.to_vec(), steps.clone(), *hiccup);
            let src = from_read(source);
            drive(&src, v, None, limit, Some(asked))
        }
        From::Padded { pad, seed } => {
            let mut data = Vec::with_capacity(pad + doc.len());
            if *pad > 0 {
                data.resize(pad - 1, b'#');
                data.push(b'\n');
            }
            data.extend_from_slice(doc);
            let src = from_read(Honest { data, pos: 0, seed: *seed });
            let mut o = drive(&src, v, None, limit, None);
            // as it were without the comment
            for e in o.evs.iter_mut().filter(|e| e.k != "S+") {
                e.a = e.a.saturating_sub(*pad);
                e.b = e.b.saturating_sub(*pad);
            }
            o
        }
    }));
    match r {
        Ok(o) => o,
        Err(p) => {
            let what = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Outcome { broken: Some(format!("panic: {}", what)), ..Outcome::default() }
        }
    }
}
