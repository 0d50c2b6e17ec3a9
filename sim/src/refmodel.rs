//! Reference model of reading: the event stream of the bytes actually delivered (straight from
//! xml-rs, which is not under test) interpreted by a small, direct implementation of the documented
//! semantics, for derived shapes and for scripted user code.

use std::io::Read;
use std::sync::Arc;

use xml::attribute::OwnedAttribute;
use xml::common::{Position, TextPosition};
use xml::name::OwnedName;
use xml::namespace::Namespace;

use crate::io::Terminal;
use crate::schema::*;
use crate::script::{fmt_ns, fmt_pos, nested_types, Act, After, Leaf, Script};

#[derive(Debug)]
pub enum REv {
    Start { name: OwnedName, attrs: Vec<OwnedAttribute>, ns: Namespace, pos: TextPosition },
    End { name: OwnedName, pos: TextPosition },
    Text(String, TextPosition),
    Blank(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    /// Source I/O error of this kind.
    Io(std::io::ErrorKind),
    /// Malformed or truncated markup.
    Xml,
    /// Library-detected semantic error (missing, duplicate, unparsable...).
    Sem(&'static str),
    /// Error raised by scripted user code.
    User(String),
    Panic,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RErr {
    pub class: Class,
    /// `None` where the model does not define it.
    pub path: Option<Vec<(String, TextPosition)>>,
}

pub struct RefDoc {
    pub evs: Vec<REv>,
    /// What stands after the last event: `None` = proper end of document.
    pub term: Option<Class>,
    /// Index of the root's End event, if reached.
    pub complete: bool,
    pub n_elements: usize,
    /// Bytes needed to tell each event.
    pub evs_pos: Vec<usize>,
    /// Bytes needed to tell the end.
    pub term_pos: usize,
    /// Where in the text each is.
    pub evs_at: Vec<TextPosition>,
    pub term_at: TextPosition,
    /// The error has a position of its own.
    pub term_exact: bool,
}

struct MiniSource<'a> {
    data: &'a [u8],
    pos: std::rc::Rc<std::cell::Cell<usize>>,
    end: usize,
    terminal: Terminal,
}
impl<'a> Read for MiniSource<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let pos = self.pos.get();
        if pos >= self.end {
            return match self.terminal {
                Terminal::Eof => Ok(0),
                Terminal::Error { shape, nonce } => Err(shape.build(nonce)),
                Terminal::Panic => panic!("{}", crate::script::USER_PANIC),
            };
        }
        // As little as possible, to tell what was needed.
        let n = buf.len().min(1);
        buf[..n].copy_from_slice(&self.data[pos..pos + n]);
        self.pos.set(pos + n);
        Ok(n)
    }
}

/// Events of `data[..end]` followed by `terminal`. `None` if xml-rs itself panics on them.
pub fn parse_ref(data: &[u8], end: usize, terminal: Terminal) -> Option<RefDoc> {
    let src = MiniSource { data, pos: Default::default(), end, terminal };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_inner(src))).ok()
}

fn parse_inner(src: MiniSource<'_>) -> RefDoc {
    use xml::reader::XmlEvent as X;
    let pos = src.pos.clone();
    let mut r = xml::reader::EventReader::new(src);
    let mut d = RefDoc { evs: Vec::new(), term: None, complete: false, n_elements: 0, evs_pos: Vec::new(), term_pos: 0, evs_at: Vec::new(), term_at: TextPosition::new(), term_exact: false };
    let mut depth = 0usize;
    loop {
        let next = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.next())) {
            Ok(n) => n,
            Err(p) if p.downcast_ref::<String>().map(|s| s.as_str()) == Some(crate::script::USER_PANIC) => {
                d.term = Some(Class::Panic);
                break;
            }
            Err(p) => std::panic::resume_unwind(p),
        };
        match next {
            Ok(X::StartElement { name, attributes, namespace }) => {
                depth += 1;
                d.n_elements += 1;
                d.evs.push(REv::Start { name, attrs: attributes, ns: namespace, pos: r.position() });
            }
            Ok(X::EndElement { name }) => {
                depth -= 1;
                if depth == 0 {
                    d.complete = true;
                }
                d.evs.push(REv::End { name, pos: r.position() });
            }
            Ok(X::Characters(s)) | Ok(X::CData(s)) => d.evs.push(REv::Text(s, r.position())),
            Ok(X::Whitespace(s)) => d.evs.push(REv::Blank(s)),
            Ok(X::StartDocument { .. }) | Ok(X::ProcessingInstruction { .. }) | Ok(X::Comment(_)) => {}
            Ok(X::EndDocument) => break,
            Err(e) => {
                d.term_at = match e.kind() {
                    xml::reader::ErrorKind::Syntax(_) => e.position(),
                    _ => r.position(),
                };
                d.term_exact = matches!(e.kind(), xml::reader::ErrorKind::Syntax(_));
                d.term = Some(match e.kind() {
                    xml::reader::ErrorKind::Io(io) => Class::Io(io.kind()),
                    _ => Class::Xml,
                });
                break;
            }
        }
        d.evs_pos.resize(d.evs.len(), pos.get());
        d.evs_at.resize(d.evs.len(), r.position());
    }
    d.term_pos = pos.get();
    if d.term.is_none() {
        d.term_at = r.position();
    }
    d
}

pub type R<T> = Result<T, RErr>;

#[derive(Clone)]
struct El {
    depth: usize,
    /// Index of its Start event.
    ev: usize,
}

pub struct RefReader<'d> {
    doc: &'d RefDoc,
    i: usize,
    stack: Vec<(String, TextPosition)>,
    depth: usize,
    script: Arc<Script>,
    pub log: Vec<String>,
    /// Bytes needed, as of each line of the log.
    pub at: Vec<usize>,
    /// Whatever ended the stream was met.
    over: bool,
}

enum Pull {
    Start(El),
    End(usize),
    Text(usize),
    Blank(usize),
}

fn exp(name: &OwnedName) -> (&str, &str) {
    (
        match &name.namespace {
            Some(n) => n,
            None if name.prefix.as_deref() == Some("xml") => "http://www.w3.org/XML/1998/namespace",
            None => "",
        },
        &name.local_name,
    )
}
fn fmt_exp(name: &OwnedName) -> String {
    let (n, l) = exp(name);
    format!("{{{}}}{}", n, l)
}

trait RVisitor {
    /// `Ok(true)` = taken.
    fn attribute(&mut self, rd: &mut RefReader, el: &El, name: &OwnedName, value: &str) -> R<bool>;
    fn element(&mut self, rd: &mut RefReader, child: El) -> R<bool>;
    fn characters(&mut self, rd: &mut RefReader, el: &El, s: &str, pos: TextPosition) -> R<bool>;
}

impl<'d> RefReader<'d> {
    pub fn new(doc: &'d RefDoc, script: Arc<Script>) -> Self {
        RefReader { doc, i: 0, stack: Vec::new(), depth: 0, script, log: Vec::new(), at: Vec::new(), over: false }
    }

    fn lg(&mut self, s: String) {
        self.log.push(s);
        self.at.push(self.needed());
    }
    /// Where in the text this is.
    pub fn here(&self) -> TextPosition {
        if self.over {
            self.doc.term_at
        } else if self.i == 0 {
            TextPosition::new()
        } else {
            self.doc.evs_at[self.i - 1]
        }
    }
    pub fn exact(&self) -> bool {
        self.over && self.doc.term_exact
    }
    /// Bytes needed to get here.
    pub fn needed(&self) -> usize {
        if self.over {
            self.doc.term_pos
        } else if self.i == 0 {
            0
        } else {
            self.doc.evs_pos[self.i - 1]
        }
    }

    fn start(&self, el: &El) -> (&'d OwnedName, &'d [OwnedAttribute], &'d Namespace, TextPosition) {
        match &self.doc.evs[el.ev] {
            REv::Start { name, attrs, ns, pos } => (name, attrs, ns, *pos),
            _ => unreachable!(),
        }
    }

    fn err(&self, depth: usize, class: Class) -> RErr {
        RErr { class, path: Some(self.stack[..depth].to_vec()) }
    }
    fn path_str(e: &RErr) -> String {
        match &e.path {
            Some(p) => p.iter().map(|(n, pos)| format!("{}@{}", n, fmt_pos(*pos))).collect::<Vec<_>>().join("/"),
            None => "?".into(),
        }
    }

    fn next(&mut self) -> R<Pull> {
        if self.i >= self.doc.evs.len() {
            self.over = true;
            // Whatever ended the stream is sticky. (A proper end here means the model over-read.)
            let class = self.doc.term.clone().expect("model read past the end of a complete document");
            return Err(self.err(self.depth, class));
        }
        let i = self.i;
        self.i += 1;
        match &self.doc.evs[i] {
            REv::Start { name, pos, .. } => {
                self.stack.truncate(self.depth);
                self.stack.push((name.to_string(), *pos));
                self.depth += 1;
                Ok(Pull::Start(El { depth: self.depth, ev: i }))
            }
            REv::End { .. } => {
                self.depth -= 1;
                Ok(Pull::End(i))
            }
            REv::Text(..) => Ok(Pull::Text(i)),
            REv::Blank(..) => Ok(Pull::Blank(i)),
        }
    }

    fn skip_to(&mut self, depth: usize) -> R<()> {
        while self.depth > depth {
            self.next()?;
        }
        Ok(())
    }

    fn read_string(&mut self, el: &El) -> R<String> {
        let mut s = String::new();
        loop {
            match self.next()? {
                Pull::Start(c) => return Err(self.err(c.depth, Class::Sem("element in string"))),
                Pull::End(_) => break,
                Pull::Text(i) | Pull::Blank(i) => match &self.doc.evs[i] {
                    REv::Text(t, _) | REv::Blank(t) => s.push_str(t),
                    _ => unreachable!(),
                },
            }
        }
        let _ = el;
        Ok(s)
    }

    /// Returns the index of the End event.
    fn read_to(&mut self, el: &El, v: &mut dyn RVisitor) -> R<usize> {
        let (_, attrs, _, _) = self.start(el);
        for a in attrs {
            v.attribute(self, el, &a.name, &a.value)?;
        }
        loop {
            match self.next()? {
                Pull::Start(c) => {
                    v.element(self, c)?;
                    self.skip_to(el.depth)?;
                }
                Pull::End(i) => return Ok(i),
                Pull::Text(i) => {
                    if let REv::Text(s, pos) = &self.doc.evs[i] {
                        v.characters(self, el, s, *pos)?;
                    }
                }
                Pull::Blank(_) => {}
            }
        }
    }

    /// Whole-document read of `target`.
    pub fn read(&mut self, target: &Target) -> R<Val> {
        let root = loop {
            match self.next()? {
                Pull::Start(e) => break e,
                _ => return Err(RErr { class: Class::Xml, path: None }),
            }
        };
        let v = match target {
            Target::Script => {
                let (name, _, ns, _) = self.start(&root);
                self.lg(format!("ROOT {} q={} d={} ns={}", fmt_exp(name), name, root.depth, fmt_ns(ns)));
                let a = self.script.act(&name.local_name);
                self.apply("ROOT", a, root)?;
                Val::U
            }
            Target::Ty(ty) => self.de(ty, root)?,
        };
        self.skip_to(0)?;
        self.over = true;
        if self.i < self.doc.evs.len() {
            // A second root element: xml-rs lets it pass, but it is no document.
            return Err(RErr { class: Class::Xml, path: None });
        }
        if let Some(c) = &self.doc.term {
            return Err(self.err(0, c.clone()));
        }
        Ok(v)
    }

    fn de(&mut self, ty: &Ty, el: El) -> R<Val> {
        match ty {
            Ty::Text(t) => {
                let s = self.read_string(&el)?;
                self.parse_text(t, &s, el.depth).map(Val::T)
            }
            Ty::Struct(s) => {
                let mut v = StructV::new(s);
                self.read_to(&el, &mut v)?;
                v.finalize(self, &el)
            }
            Ty::Enum(e) => {
                let mut v = EnumV { e, cur: None };
                self.read_to(&el, &mut v)?;
                v.finalize(self, &el)
            }
        }
    }

    fn parse_text(&mut self, t: &TextTy, s: &str, depth: usize) -> R<String> {
        if matches!(t, TextTy::Tok) && s.contains("!panic") {
            return Err(RErr { class: Class::Panic, path: None });
        }
        t.parse(s).ok_or_else(|| self.err(depth, Class::Sem("unparsable")))
    }

    /// Mirrors script::apply.
    fn apply(&mut self, tag: &str, act: Act, el: El) -> R<bool> {
        let (name, _, ns, _) = self.start(&el);
        let local = &name.local_name;
        let r: R<String> = match act {
            Act::Drop => return Ok(true),
            Act::Pass => return Ok(false),
            Act::ErrBefore => return Err(self.err(el.depth, Class::User(format!("{} before {}", tag, local)))),
            Act::Panic => return Err(RErr { class: Class::Panic, path: None }),
            Act::Read(_) => {
                let mut v = ScriptV { attrs: 0, texts: 0 };
                self.read_to(&el, &mut v).map(|end| match &self.doc.evs[end] {
                    REv::End { name, pos } => format!("{} [{}] end={}", name, fmt_ns(ns), fmt_pos(*pos)),
                    _ => unreachable!(),
                })
            }
            Act::ReadStr(_) => self.read_string(&el).map(|s| format!("{:?}", s)),
            Act::ReadTy(i, _) => {
                let ty = nested_types()[i as usize];
                self.de(&ty.ty, el.clone()).map(|v| format!("{} {:?}", ty.name, v))
            }
        };
        if let Err(RErr { class: Class::Panic, .. }) = r {
            if matches!(act, Act::Read(After::Catch) | Act::ReadTy(_, After::Catch)) {
                self.lg(format!("{} R {} caught", tag, local));
                return Ok(true);
            }
            return r.map(|_| true);
        }
        match &r {
            Err(_) if matches!(act, Act::ReadTy(..)) => self.lg(format!("{} R {} err", tag, local)),
            Ok(s) => self.lg(format!("{} R {} ok {}", tag, local, s)),
            Err(e) => self.lg(format!("{} R {} err at {}", tag, local, Self::path_str(e))),
        }
        let after = match act {
            Act::Read(a) | Act::ReadStr(a) | Act::ReadTy(_, a) => a,
            _ => unreachable!(),
        };
        match (after, r) {
            (After::Swallow | After::Catch, _) => Ok(true),
            (_, Err(e)) => Err(e),
            (After::Return, Ok(_)) => Ok(true),
            (After::ErrAfter, Ok(_)) => Err(self.err(el.depth, Class::User(format!("{} after {}", tag, local)))),
        }
    }

    fn leaf(&self, l: Leaf, depth: usize, what: String) -> R<bool> {
        match l {
            Leaf::Take => Ok(true),
            Leaf::Pass => Ok(false),
            Leaf::Err => Err(self.err(depth, Class::User(what))),
            Leaf::Panic => Err(RErr { class: Class::Panic, path: None }),
        }
    }
}

pub enum Target {
    Script,
    Ty(Ty),
}

struct ScriptV {
    attrs: usize,
    texts: usize,
}
impl RVisitor for ScriptV {
    fn attribute(&mut self, rd: &mut RefReader, el: &El, name: &OwnedName, value: &str) -> R<bool> {
        let local = rd.start(el).0.local_name.clone();
        rd.lg(format!("V A {} {}={:?}", local, fmt_exp(name), value));
        let l = rd.script.attr(&local, self.attrs);
        self.attrs += 1;
        rd.leaf(l, el.depth, format!("attr of {}", local))
    }
    fn element(&mut self, rd: &mut RefReader, child: El) -> R<bool> {
        let (name, _, ns, _) = rd.start(&child);
        // The parent's local name, from the stack.
        let parent = &rd.stack[child.depth - 2].0;
        let parent = parent.rsplit(|c| c == ':' || c == '}').next().unwrap().to_owned();
        rd.lg(format!("V C {} {} q={} d={} ns={}", parent, fmt_exp(name), name, child.depth, fmt_ns(ns)));
        let a = rd.script.act(&name.local_name);
        rd.apply("V", a, child)
    }
    fn characters(&mut self, rd: &mut RefReader, el: &El, s: &str, pos: TextPosition) -> R<bool> {
        let local = rd.start(el).0.local_name.clone();
        rd.lg(format!("V T {} {:?} @{}", local, s, fmt_pos(pos)));
        let l = rd.script.text(&local, self.texts);
        self.texts += 1;
        rd.leaf(l, el.depth, format!("text of {}", local))
    }
}

struct EnumV {
    e: &'static EnumS,
    cur: Option<(usize, Val)>,
}
impl RVisitor for EnumV {
    fn attribute(&mut self, _: &mut RefReader, _: &El, _: &OwnedName, _: &str) -> R<bool> {
        Ok(false)
    }
    fn element(&mut self, rd: &mut RefReader, child: El) -> R<bool> {
        let (name, ..) = rd.start(&child);
        let n = exp(name);
        let i = match self.e.variants.iter().position(|v| !v.skip && (v.ns, v.local) == n) {
            None => return Ok(false),
            Some(i) => i,
        };
        let var = &self.e.variants[i];
        match &mut self.cur {
            None => {
                let payload = match &var.payload {
                    None => Val::U,
                    Some((card, ty)) => init(rd, *card, ty, child)?,
                };
                self.cur = Some((i, payload));
                Ok(true)
            }
            Some((j, _)) if *j != i => Err(rd.err(child.depth, Class::Sem("second choice"))),
            Some((_, payload)) => match &var.payload {
                None => Ok(true),
                Some((card, ty)) => {
                    update(rd, *card, ty, child, payload)?;
                    Ok(true)
                }
            },
        }
    }
    fn characters(&mut self, _: &mut RefReader, _: &El, _: &str, _: TextPosition) -> R<bool> {
        Ok(false)
    }
}
impl EnumV {
    fn finalize(self, rd: &mut RefReader, el: &El) -> R<Val> {
        match self.cur {
            Some((i, v)) => Ok(Val::E(i, Box::new(v))),
            None => Err(rd.err(el.depth, Class::Sem("choice missing"))),
        }
    }
}

fn init(rd: &mut RefReader, card: Card, ty: &Ty, child: El) -> R<Val> {
    let v = rd.de(ty, child)?;
    Ok(match card {
        Card::One => v,
        Card::Opt => Val::O(Some(Box::new(v))),
        Card::Many => Val::L(vec![v]),
    })
}
fn update(rd: &mut RefReader, card: Card, ty: &Ty, child: El, cur: &mut Val) -> R<()> {
    match card {
        Card::Many => {
            let v = rd.de(ty, child)?;
            match cur {
                Val::L(l) => l.push(v),
                _ => unreachable!(),
            }
            Ok(())
        }
        _ => Err(rd.err(child.depth, Class::Sem("duplicate element"))),
    }
}

enum FlatV {
    Enum(EnumV),
    Script { i: usize, attrs: usize, texts: usize },
}
struct StructV {
    s: &'static StructS,
    slots: Vec<Option<Val>>,
    flats: Vec<(usize, FlatV)>,
}
impl StructV {
    fn new(s: &'static StructS) -> Self {
        let flats = s
            .fields
            .iter()
            .enumerate()
            .filter_map(|(i, f)| match (f.kind, &f.ty) {
                (Kind::FlatEnum, Ty::Enum(e)) => Some((i, FlatV::Enum(EnumV { e, cur: None }))),
                (Kind::FlatScript(k), _) => Some((i, FlatV::Script { i: k, attrs: 0, texts: 0 })),
                _ => None,
            })
            .collect();
        StructV { s, slots: s.fields.iter().map(|_| None).collect(), flats }
    }
    fn finalize(mut self, rd: &mut RefReader, el: &El) -> R<Val> {
        let mut out = Vec::new();
        for (i, f) in self.s.fields.iter().enumerate() {
            match f.kind {
                Kind::FlatEnum => {
                    let p = self.flats.iter().position(|x| x.0 == i).unwrap();
                    match self.flats.remove(p).1 {
                        FlatV::Enum(e) => match f.default {
                            Some(d) if e.cur.is_none() => out.push(d()),
                            _ => out.push(e.finalize(rd, el)?),
                        },
                        _ => unreachable!(),
                    }
                }
                Kind::FlatScript(_) => out.push(Val::U),
                _ => match self.slots[i].take() {
                    Some(v) => out.push(v),
                    None => match (f.default, f.card) {
                        (Some(d), _) => out.push(d()),
                        (None, Card::Opt) => out.push(Val::O(None)),
                        (None, Card::Many) => out.push(Val::L(Vec::new())),
                        (None, Card::One) => return Err(rd.err(el.depth, Class::Sem("missing"))),
                    },
                },
            }
        }
        Ok(Val::S(out))
    }
}
impl RVisitor for StructV {
    fn attribute(&mut self, rd: &mut RefReader, el: &El, name: &OwnedName, value: &str) -> R<bool> {
        let n = exp(name);
        if let Some(i) = self.s.fields.iter().position(|f| f.kind == Kind::Attr && (f.ns, f.local) == n) {
            if self.slots[i].is_some() {
                return Err(rd.err(el.depth, Class::Sem("duplicate attribute")));
            }
            let f = &self.s.fields[i];
            let t = match &f.ty {
                Ty::Text(t) => t,
                _ => unreachable!(),
            };
            let v = Val::T(rd.parse_text(t, value, el.depth)?);
            self.slots[i] = Some(match f.card {
                Card::One => v,
                Card::Opt => Val::O(Some(Box::new(v))),
                Card::Many => unreachable!(),
            });
            return Ok(true);
        }
        for (_, f) in &mut self.flats {
            let taken = match f {
                FlatV::Enum(e) => e.attribute(rd, el, name, value)?,
                FlatV::Script { i, attrs, .. } => {
                    rd.lg(format!("F{} A {}={:?}", i, fmt_exp(name), value));
                    let l = rd.script.flat(*i).attr(*attrs);
                    *attrs += 1;
                    rd.leaf(l, el.depth, format!("flat {} attr", i))?
                }
            };
            if taken {
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn element(&mut self, rd: &mut RefReader, child: El) -> R<bool> {
        let (name, ..) = rd.start(&child);
        let n = exp(name);
        if let Some(i) = self.s.fields.iter().position(|f| f.kind == Kind::Elem && (f.ns, f.local) == n) {
            let f = &self.s.fields[i];
            match &mut self.slots[i] {
                None => self.slots[i] = Some(init(rd, f.card, &f.ty, child)?),
                Some(cur) => update(rd, f.card, &f.ty, child, cur)?,
            }
            return Ok(true);
        }
        for (_, f) in &mut self.flats {
            let taken = match f {
                FlatV::Enum(e) => e.element(rd, child.clone())?,
                FlatV::Script { i, .. } => {
                    rd.lg(format!("F{} C {} d={}", i, fmt_exp(name), child.depth));
                    let a = rd.script.flat(*i).act(&name.local_name);
                    let tag = format!("F{}", i);
                    rd.apply(&tag, a, child.clone())?
                }
            };
            if taken {
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn characters(&mut self, rd: &mut RefReader, el: &El, s: &str, pos: TextPosition) -> R<bool> {
        for (_, f) in &mut self.flats {
            let taken = match f {
                FlatV::Enum(_) => false,
                FlatV::Script { i, texts, .. } => {
                    rd.lg(format!("F{} T {:?} @{}", i, s, fmt_pos(pos)));
                    let l = rd.script.flat(*i).text(*texts);
                    *texts += 1;
                    rd.leaf(l, el.depth, format!("flat {} text", i))?
                }
            };
            if taken {
                return Ok(true);
            }
        }
        Ok(false)
    }
}
