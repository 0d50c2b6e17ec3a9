//! Scripted user code for writing: trees of builder/writer calls drawn up front, including calls that
//! are rejected, elements that are abandoned, code that fails or panics, and code that ignores it.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

use static_xml::ser::{ElementBuilder, ElementWriter, Error, Serialize, SerializeAttr, SerializeField, ToText};
use static_xml::ExpandedNameRef;

use crate::docgen::{DAttr, DEl, DNode};
use crate::io::SinkState;
use crate::ops::TypeOps;
use crate::props::{plant_skipped, root_name, val_tree};
use crate::schema::{gen_text, gen_ty, Val};
use crate::script::USER_PANIC;
use crate::state::{self, fault, Fault};
use crate::tape::Tape;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
/// Long, and different only at their ends.
const LONG: &str = "lllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllll";
/// The last two get a long beginning.
pub const URLS: &[&str] = &[
    "",
    "http://example.com/a",
    "http://example.com/b",
    "urn:c",
    "http://e.x/?p=1&q=<2>\"'",
    "urn:\u{e9}",
    "x",
    "http://example.com/A",
    "long:1",
    "long:2",
];
/// The last is the default namespace.
pub const PREFIXES: &[&str] = &["a", "b", "ns1", "a2", "x", "p-q", "\u{e9}", "ns", "A", "long-1", "long-2", ""];
pub const LOCALS: &[&str] = &["x", "y", "v", "root", "data-1", "_u", "\u{e9}", "A.b", "a", "X", "long-1", "long-2"];

#[derive(Clone, Debug)]
pub enum AVal {
    /// `ElementBuilder::attribute`.
    Direct(String),
    /// `SerializeAttr for T`.
    Field(String),
    /// `SerializeAttr for Option<T>`.
    Opt(Option<String>),
    /// A field whose conversion to text fails.
    Bad,
}
#[derive(Clone, Debug)]
pub enum AStep {
    Ns { prefix: usize, url: usize },
    Attr { xml: bool, ns: usize, local: usize, val: AVal, swallow: bool },
    /// An attribute in a namespace that is not declared: the element cannot be started.
    Unnameable,
    Err,
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    /// By hand: builder, start, writer, finish.
    Manual,
    Field,
    Opt,
    Vec,
    /// By hand, then failing after the element was finished.
    ThenErr,
}
#[derive(Clone, Debug)]
pub enum CStep {
    Text { s: String, swallow: bool },
    Child { nodes: Vec<SNode>, via: Via, swallow: bool, catch: bool },
    /// A text-only element, as fields of text types are written.
    TextChild { ns: usize, local: usize, vals: Vec<Option<String>>, swallow: bool },
    /// A value of a derived type.
    Val { ty: &'static TypeOps, val: Arc<Val>, bad: bool, swallow: bool },
    AbandonBuilder(SNode),
    AbandonWriter(SNode),
    Err,
    Panic,
}
#[derive(Clone, Debug, Default)]
pub struct SNode {
    pub ns: usize,
    pub local: usize,
    pub attrs: Vec<AStep>,
    pub kids: Vec<CStep>,
}

// ---- execution ------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Mark {
    sink: Option<Rc<RefCell<SinkState>>>,
    /// Bytes in the sink when the serialization was first spoiled.
    pub spoiled_at: Option<usize>,
}
thread_local! {
    static MARK: RefCell<Mark> = RefCell::new(Mark::default());
}
pub fn swap_mark(sink: Option<Rc<RefCell<SinkState>>>) -> Mark {
    MARK.with(|m| std::mem::replace(&mut *m.borrow_mut(), Mark { sink, spoiled_at: None }))
}
pub fn restore_mark(old: Mark) -> Mark {
    MARK.with(|m| std::mem::replace(&mut *m.borrow_mut(), old))
}
fn spoiled() {
    MARK.with(|m| {
        let mut m = m.borrow_mut();
        if m.spoiled_at.is_none() {
            m.spoiled_at = Some(m.sink.as_ref().map_or(0, |s| s.borrow().bytes.len()));
        }
    });
}

struct T(Option<String>);
impl ToText for T {
    fn to_text(&self) -> Result<String, Error> {
        state::step(0);
        match &self.0 {
            Some(s) => Ok(s.clone()),
            None => {
                fault(Fault::SerError);
                Err(user_err("to_text"))
            }
        }
    }
}
struct R<'n>(&'n SNode);
impl Serialize for R<'_> {
    fn write_attributes(&self, e: &mut ElementBuilder) -> Result<(), Error> {
        self.0.write_attributes(e)
    }
    fn write_children(&self, e: &mut ElementWriter) -> Result<(), Error> {
        self.0.write_children(e)
    }
}
fn user_err(what: &str) -> Error {
    Error(format!("user-error[{}]", what))
}
fn long(s: &'static str) -> &'static str {
    static V: OnceLock<Vec<(&'static str, String)>> = OnceLock::new();
    if !s.starts_with("long") {
        return s;
    }
    let v = V.get_or_init(|| {
        let all = URLS.iter().chain(PREFIXES).chain(LOCALS).filter(|s| s.starts_with("long"));
        all.map(|s| (*s, format!("{}{}", if s.contains(':') { "urn:" } else { "" }, LONG) + s)).collect()
    });
    &v.iter().find(|x| x.0 == s).unwrap().1
}
/// The pools, and numbered names past their ends.
pub fn url(i: usize) -> &'static str {
    static V: OnceLock<Vec<String>> = OnceLock::new();
    if i == XML {
        return XML_NS;
    }
    match URLS.get(i) {
        Some(u) => long(u),
        None => &V.get_or_init(|| (0..MORE).map(|i| format!("urn:more:{}", i)).collect())[i - URLS.len()],
    }
}
pub fn local(i: usize) -> &'static str {
    static V: OnceLock<Vec<String>> = OnceLock::new();
    match LOCALS.get(i) {
        Some(u) => long(u),
        None => &V.get_or_init(|| (0..MORE).map(|i| format!("more{}", i)).collect())[i - LOCALS.len()],
    }
}
const MORE: usize = 4096;
/// The namespace of names such as `xml:lang`, which needs no declaration.
const XML: usize = usize::MAX;
fn name(ns: usize, l: usize) -> ExpandedNameRef<'static> {
    ExpandedNameRef { namespace: url(ns), local_name: local(l) }
}
impl SNode {
    pub fn name(&self) -> ExpandedNameRef<'static> {
        name(self.ns, self.local)
    }
    fn attrs_inner(&self, e: &mut ElementBuilder) -> Result<(), Error> {
        for a in &self.attrs {
            state::step(0);
            match a {
                AStep::Ns { prefix, url: u } => e.namespace(long(PREFIXES[*prefix]), url(*u)),
                AStep::Attr { xml, ns, local: l, val, swallow } => {
                    let n = if *xml {
                        ExpandedNameRef { namespace: XML_NS, local_name: local(*l) }
                    } else {
                        name(*ns, *l)
                    };
                    let r = match val {
                        AVal::Direct(s) => e.attribute(n, s.clone()),
                        AVal::Field(s) => SerializeAttr::write(&T(Some(s.clone())), e, n),
                        AVal::Opt(s) => SerializeAttr::write(&s.as_ref().map(|s| T(Some(s.clone()))), e, n),
                        AVal::Bad => SerializeAttr::write(&T(None), e, n),
                    };
                    if r.is_err() {
                        fault(Fault::DupAttrCall);
                    }
                    ignore(r, *swallow)?;
                }
                AStep::Unnameable => {
                    fault(Fault::Unnameable);
                    spoiled();
                    e.attribute(ExpandedNameRef { namespace: "urn:nobody:declares", local_name: "u" }, String::new())?;
                }
                AStep::Err => {
                    fault(Fault::SerError);
                    return Err(user_err("attributes"));
                }
                AStep::Panic => {
                    fault(Fault::SerPanic);
                    spoiled();
                    panic!("{}", USER_PANIC);
                }
            }
        }
        Ok(())
    }
    fn kids_inner(&self, w: &mut ElementWriter) -> Result<(), Error> {
        for k in &self.kids {
            state::step(0);
            match k {
                CStep::Text { s, swallow } => ignore(w.text(s), *swallow)?,
                CStep::TextChild { ns, local: l, vals, swallow } => {
                    let n = name(*ns, *l);
                    let ts: Vec<T> = vals.iter().map(|v| T(v.clone())).collect();
                    // A failing conversion strikes after the element's start tag was written; the
                    // library abandons the element.
                    let bad = vals.iter().any(|v| v.is_none());
                    let r = match (ts.len(), ns % 2) {
                        (1, 0) => SerializeField::write(&ts[0], w, n),
                        (1, _) => SerializeField::write(&ts.into_iter().next(), w, n),
                        _ => SerializeField::write(&ts, w, n),
                    };
                    if r.is_err() && bad {
                        spoiled();
                    }
                    ignore(r, *swallow)?
                }
                CStep::Child { nodes, via, swallow, catch } => {
                    let n = nodes[0].name();
                    let mut go = || match via {
                        Via::Manual => manual(&nodes[0], w),
                        Via::ThenErr => manual(&nodes[0], w).and_then(|_| {
                            fault(Fault::SerError);
                            Err(user_err("after finish"))
                        }),
                        Via::Field => SerializeField::write(&R(&nodes[0]), w, n),
                        Via::Opt => {
                            let absent: Option<R> = None;
                            SerializeField::write(&absent, w, n)?;
                            SerializeField::write(&Some(R(&nodes[0])), w, n)
                        }
                        Via::Vec => SerializeField::write(&nodes.iter().map(R).collect::<Vec<_>>(), w, n),
                    };
                    let r = if *catch {
                        match catch_unwind(AssertUnwindSafe(go)) {
                            Ok(r) => r,
                            Err(_) => Err(user_err("caught panic")),
                        }
                    } else {
                        go()
                    };
                    ignore(r, *swallow)?
                }
                CStep::Val { ty, val, swallow, .. } => {
                    fault(Fault::DerivedChildWritten);
                    let (namespace, local_name) = root_name(&ty.ty);
                    let r = (ty.ser.unwrap())(val, w, ExpandedNameRef { namespace, local_name });
                    if r.is_err() {
                        spoiled();
                    }
                    ignore(r, *swallow)?
                }
                CStep::AbandonBuilder(n) => {
                    let mut b = w.element(n.name());
                    // Whatever happens, it is dropped unstarted.
                    let _ = n.attrs_inner(&mut b);
                    fault(Fault::BuilderAbandoned);
                    drop(b);
                    spoiled();
                }
                CStep::AbandonWriter(n) => {
                    let mut b = w.element(n.name());
                    if n.attrs_inner(&mut b).is_err() {
                        fault(Fault::BuilderAbandoned);
                        drop(b);
                        spoiled();
                        continue;
                    }
                    if let Ok(mut w2) = b.start() {
                        let _ = n.kids_inner(&mut w2);
                        fault(Fault::WriterAbandoned);
                        drop(w2);
                        spoiled();
                    }
                }
                CStep::Err => {
                    fault(Fault::SerError);
                    return Err(user_err("children"));
                }
                CStep::Panic => {
                    fault(Fault::SerPanic);
                    spoiled();
                    panic!("{}", USER_PANIC);
                }
            }
        }
        Ok(())
    }
}
fn ignore(r: Result<(), Error>, swallow: bool) -> Result<(), Error> {
    match r {
        Err(_) if swallow => {
            fault(Fault::SerSwallow);
            Ok(())
        }
        r => r,
    }
}
fn manual(n: &SNode, w: &mut ElementWriter) -> Result<(), Error> {
    let mut b = w.element(n.name());
    n.write_attributes(&mut b)?;
    let mut w = b.start()?;
    n.write_children(&mut w)?;
    w.finish()
}
impl Serialize for SNode {
    fn write_attributes(&self, e: &mut ElementBuilder) -> Result<(), Error> {
        let r = self.attrs_inner(e);
        if r.is_err() {
            spoiled();
        }
        r
    }
    fn write_children(&self, e: &mut ElementWriter) -> Result<(), Error> {
        let r = self.kids_inner(e);
        if r.is_err() {
            spoiled();
        }
        r
    }
}

// ---- the model --------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MRes {
    Ok,
    Err,
    Panic,
}
pub struct Model {
    pub res: MRes,
    pub tree: DEl,
    /// Code tried what has no meaning: how it fails is up to the library.
    pub loose: bool,
}

struct M {
    spoiled: bool,
    loose: bool,
}

/// What the calls of `root` (as the root's code) amount to, with a sink that does not fail.
pub fn model(root: &SNode) -> Model {
    let mut m = M { spoiled: false, loose: false };
    let mut holder = DEl::default();
    let mut res = m.element(root, &mut holder);
    if m.spoiled && res == MRes::Ok {
        res = MRes::Err;
    }
    let tree = match holder.kids.pop() {
        Some(DNode::El(e)) => e,
        _ => DEl::default(),
    };
    Model { res, tree, loose: m.loose }
}
impl M {
    fn attrs(&mut self, n: &SNode, out: &mut DEl) -> MRes {
        for a in &n.attrs {
            match a {
                AStep::Ns { .. } => {}
                AStep::Unnameable => {
                    self.loose = true;
                    self.spoiled = true;
                }
                AStep::Attr { xml, ns, local: l, val, swallow } => {
                    let value = match val {
                        AVal::Direct(s) | AVal::Field(s) | AVal::Opt(Some(s)) => Some(s),
                        AVal::Opt(None) => continue,
                        AVal::Bad => None,
                    };
                    let nsu = if *xml { XML_NS } else { url(*ns) };
                    let dup = out.attrs.iter().any(|o| o.ns == nsu && o.local == local(*l));
                    match value {
                        Some(v) if !dup => out.attrs.push(DAttr {
                            ns: nsu.to_owned(),
                            local: local(*l).to_owned(),
                            value: v.clone(),
                        }),
                        _ if *swallow => {}
                        _ => return MRes::Err,
                    }
                }
                AStep::Err => return MRes::Err,
                AStep::Panic => return MRes::Panic,
            }
        }
        MRes::Ok
    }
    fn element(&mut self, n: &SNode, out: &mut DEl) -> MRes {
        let mut el = DEl { ns: url(n.ns).to_owned(), local: local(n.local).to_owned(), ..Default::default() };
        match self.attrs(n, &mut el) {
            MRes::Ok => {}
            r => {
                self.spoiled = true;
                return r;
            }
        }
        if self.spoiled {
            return MRes::Err;
        }
        let r = self.kids(n, &mut el);
        out.kids.push(DNode::El(el));
        match r {
            MRes::Ok if self.spoiled => MRes::Err,
            MRes::Ok => MRes::Ok,
            r => {
                self.spoiled = true;
                r
            }
        }
    }
    fn kids(&mut self, n: &SNode, out: &mut DEl) -> MRes {
        for k in &n.kids {
            match k {
                CStep::Text { s, swallow } => {
                    if self.spoiled {
                        if !swallow {
                            return MRes::Err;
                        }
                    } else if !s.is_empty() {
                        out.kids.push(DNode::Text(s.clone()));
                    }
                }
                CStep::TextChild { ns, local: l, vals, swallow } => {
                    for v in vals {
                        let r = if self.spoiled {
                            MRes::Err
                        } else {
                            match v {
                                None => {
                                    self.spoiled = true;
                                    MRes::Err
                                }
                                Some(s) => {
                                    let mut c = DEl {
                                        ns: url(*ns).to_owned(),
                                        local: local(*l).to_owned(),
                                        ..Default::default()
                                    };
                                    if !s.is_empty() {
                                        c.kids.push(DNode::Text(s.clone()));
                                    }
                                    out.kids.push(DNode::El(c));
                                    MRes::Ok
                                }
                            }
                        };
                        if r == MRes::Err {
                            if !swallow {
                                return MRes::Err;
                            }
                            break;
                        }
                    }
                }
                CStep::Child { nodes, via, swallow, catch } => {
                    let mut r = MRes::Ok;
                    for n in if *via == Via::Vec { &nodes[..] } else { &nodes[..1] } {
                        r = self.element(n, out);
                        if r != MRes::Ok {
                            break;
                        }
                    }
                    if r == MRes::Ok && *via == Via::ThenErr {
                        r = MRes::Err;
                    }
                    if r == MRes::Panic && *catch {
                        r = MRes::Err;
                    }
                    match r {
                        MRes::Ok => {}
                        MRes::Err if *swallow => {}
                        r => return r,
                    }
                }
                CStep::Val { ty, val, bad, swallow } => {
                    let ok = !self.spoiled && !bad;
                    if ok {
                        let tree = val_tree(&ty.ty, val, root_name(&ty.ty));
                        out.kids.push(DNode::El(DEl { loose: true, ..tree }));
                    } else {
                        self.spoiled = true;
                        if !swallow {
                            return MRes::Err;
                        }
                    }
                }
                CStep::AbandonBuilder(n) => {
                    let mut el = DEl::default();
                    let r = self.attrs(n, &mut el);
                    self.spoiled = true;
                    if r == MRes::Panic {
                        return MRes::Panic;
                    }
                }
                CStep::AbandonWriter(n) => {
                    let mut el = DEl::default();
                    match self.attrs(n, &mut el) {
                        MRes::Ok => {
                            if !self.spoiled {
                                let r = self.kids(n, &mut el);
                                self.spoiled = true;
                                if r == MRes::Panic {
                                    return MRes::Panic;
                                }
                            }
                        }
                        MRes::Err => self.spoiled = true,
                        MRes::Panic => {
                            self.spoiled = true;
                            return MRes::Panic;
                        }
                    }
                }
                CStep::Err => return MRes::Err,
                CStep::Panic => return MRes::Panic,
            }
        }
        MRes::Ok
    }
}

// ---- generation ---------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct SerCfg {
    /// Rejected calls that are recovered from.
    pub rejects: bool,
    /// Abandonment, failures, panics.
    pub spoil: bool,
    /// Only errors (no abandonment) are ignored by enclosing code.
    pub swallow: bool,
    pub max: usize,
}

fn written_types() -> &'static [&'static TypeOps] {
    static V: OnceLock<Vec<&'static TypeOps>> = OnceLock::new();
    V.get_or_init(|| crate::gen_types::TYPES.iter().filter(|t| t.ser.is_some() && !t.tok).collect())
}

struct G {
    left: usize,
    /// Default namespaces are in play, so every element has a namespace.
    default_ns: bool,
    cfg: SerCfg,
}

pub fn draw_snode(t: &mut Tape, cfg: SerCfg) -> SNode {
    let default_ns = t.chance(1, 3);
    let mut g = G { left: t.range(1, cfg.max), default_ns, cfg };
    let mut n = g.node(t, &[], 0);
    if t.rare(60) {
        let plain = |url: usize, prefix: usize| if url == 0 { Vec::new() } else { vec![AStep::Ns { prefix, url }] };
        match t.below(4) {
            0 => {
                // Deep.
                for i in 0..*t.pick(&[20usize, 70, 140, 300]) {
                    let (ns, prefix) = if default_ns || i % 16 == 7 { (1 + i % (URLS.len() - 1), i % (PREFIXES.len() - 1)) } else { (0, 0) };
                    let via = if i % 8 == 5 { Via::Manual } else { Via::Field };
                    let c = CStep::Child { nodes: vec![n], via, swallow: false, catch: false };
                    n = SNode { ns, local: i % LOCALS.len(), attrs: plain(ns, prefix), kids: vec![c] };
                }
            }
            1 => {
                let k = if n.ns == 0 && t.rare(6) { 65_530 + t.below(12) } else { *t.pick(&[20usize, 100, 300, 700]) };
                let at = t.below(n.kids.len() + 1);
                let vals = (0..k).map(|i| Some(if i % 32 == 5 && i < 1000 { gen_text(t) } else { "w".into() })).collect();
                n.kids.insert(at, CStep::TextChild { ns: n.ns, local: 0, vals, swallow: false });
            }
            2 => {
                let swallow = true;
                for i in 0..*t.pick(&[9usize, 17, 33, 65, 150, 300]) + t.below(2) {
                    let val = AVal::Direct(if i % 16 == 3 { gen_text(t) } else { i.to_string() });
                    n.attrs.push(AStep::Attr { xml: false, ns: n.ns, local: LOCALS.len() + i, val, swallow });
                    if cfg.rejects && i % 8 == 6 {
                        let local = LOCALS.len() + t.below(i + 1);
                        n.attrs.push(AStep::Attr { xml: false, ns: n.ns, local, val: AVal::Direct("again".into()), swallow });
                    }
                }
            }
            _ => {
                // Many namespaces wanting one prefix.
                let prefix = t.below(PREFIXES.len() - 1);
                for i in 0..*t.pick(&[9usize, 12, 40, 101, 300]) {
                    let u = URLS.len() + i;
                    n.attrs.push(AStep::Ns { prefix, url: u });
                    if i % 4 == 1 {
                        n.attrs.push(AStep::Attr { xml: false, ns: u, local: i % 2, val: AVal::Direct(i.to_string()), swallow: false });
                    }
                    if i % 8 == 2 {
                        n.kids.push(CStep::TextChild { ns: u, local: 0, vals: vec![Some(i.to_string())], swallow: false });
                    }
                }
            }
        }
    }
    n
}
impl G {
    fn pick_ns(&self, t: &mut Tape, inherited: &[usize]) -> usize {
        if t.chance(1, 40) {
            return XML;
        }
        if !inherited.is_empty() && t.chance(1, 2) {
            return *t.pick(inherited);
        }
        if self.default_ns {
            1 + t.below(URLS.len() - 1)
        } else if t.draw(2) == 0 {
            0
        } else {
            t.below(URLS.len())
        }
    }
    fn pick_prefix(&self, t: &mut Tape) -> usize {
        if self.default_ns && t.chance(1, 3) {
            PREFIXES.len() - 1
        } else {
            t.below(PREFIXES.len() - 1)
        }
    }
    fn swallow(&self, t: &mut Tape) -> bool {
        self.cfg.swallow && t.draw(2) == 1
    }
    fn node(&mut self, t: &mut Tape, inherited: &[usize], depth: usize) -> SNode {
        self.left = self.left.saturating_sub(1);
        let ns = self.pick_ns(t, inherited);
        let local = t.below(LOCALS.len());
        self.node_named(t, ns, local, inherited, depth)
    }
    fn node_named(&mut self, t: &mut Tape, ns: usize, local: usize, inherited: &[usize], depth: usize) -> SNode {
        let mut scope: Vec<usize> = inherited.to_vec();
        let mut attrs = Vec::new();
        let declare = |g: &G, t: &mut Tape, url: usize, attrs: &mut Vec<AStep>, scope: &mut Vec<usize>| {
            attrs.push(AStep::Ns { prefix: g.pick_prefix(t), url });
            if !scope.contains(&url) {
                scope.push(url);
            }
        };
        if ns != 0 && ns != XML && (!scope.contains(&ns) || t.chance(1, 3)) {
            declare(self, t, ns, &mut attrs, &mut scope);
        }
        for _ in 0..t.small(3) {
            let url = 1 + t.below(URLS.len() - 1);
            declare(self, t, url, &mut attrs, &mut scope);
        }
        let mut have: Vec<AStep> = Vec::new();
        for _ in 0..t.small(5) {
            let xml = t.chance(1, 12);
            let mut ans = if scope.is_empty() || t.draw(2) == 0 { 0 } else { *t.pick(&scope) };
            let mut local = t.below(LOCALS.len());
            let mut x = xml;
            if self.cfg.rejects && !have.is_empty() && t.chance(1, 4) {
                // Again.
                if let AStep::Attr { xml, ns, local: l, .. } = t.pick(&have) {
                    x = *xml;
                    ans = *ns;
                    local = *l;
                }
            }
            let dup = have.iter().any(|h| matches!(h, AStep::Attr { xml, ns, local: l, .. } if *xml == x && (*ns == ans || x) && *l == local));
            let val = match t.weighted(&[4, 2, 2, 1, self.cfg.rejects as u32]) {
                0 => AVal::Direct(gen_text(t)),
                1 => AVal::Field(gen_text(t)),
                2 => AVal::Opt(Some(gen_text(t))),
                3 => AVal::Opt(None),
                _ => AVal::Bad,
            };
            if dup && !self.cfg.rejects {
                continue;
            }
            // Recovered from, unless failing is allowed.
            let swallow = if self.cfg.spoil { t.draw(4) != 3 } else { true };
            let s = AStep::Attr { xml: x, ns: ans, local, val, swallow };
            have.push(s.clone());
            attrs.push(s);
            // Further namespaces may be asked for in between.
            if t.chance(1, 4) {
                let url = if ans != 0 && t.draw(2) == 1 { ans } else { 1 + t.below(URLS.len() - 1) };
                declare(self, t, url, &mut attrs, &mut scope);
            }
        }
        if self.cfg.spoil && t.chance(1, 14) {
            let at = t.below(attrs.len() + 1);
            let s = match t.weighted(&[3, 2, 1]) {
                0 => AStep::Err,
                1 => AStep::Panic,
                _ => AStep::Unnameable,
            };
            attrs.insert(at, s);
        }
        let mut kids = Vec::new();
        let n = if depth > 8 { t.below(2) } else { t.small(5) };
        for _ in 0..n {
            match t.weighted(&[6, 4, 3, 1, !self.default_ns as u32]) {
                4 => {
                    let ty = *t.pick(written_types());
                    let mut val = gen_ty(t, &ty.ty, 1);
                    let bad = self.cfg.spoil && t.chance(1, 3) && plant_skipped(t, &ty.ty, &mut val);
                    kids.push(CStep::Val { ty, val: Arc::new(val), bad, swallow: self.swallow(t) });
                }
                0 if self.left > 0 => {
                    let first = self.node(t, &scope, depth + 1);
                    let (ns, local) = (first.ns, first.local);
                    let mut nodes = vec![first];
                    let via = *t.pick(&[Via::Field, Via::Manual, Via::Opt, Via::Vec]);
                    let via = if self.cfg.spoil && t.chance(1, 16) { Via::ThenErr } else { via };
                    if via == Via::Vec {
                        for _ in 0..t.small(2) {
                            self.left = self.left.saturating_sub(1);
                            nodes.push(self.node_named(t, ns, local, &scope, depth + 1));
                        }
                    }
                    let catch = self.cfg.spoil && t.chance(2, 3);
                    kids.push(CStep::Child { nodes, via, swallow: self.swallow(t), catch });
                }
                1 => kids.push(CStep::Text { s: gen_text(t), swallow: self.swallow(t) }),
                2 => {
                    // The element is named in a namespace already in scope: a text type declares none.
                    let ns = if scope.is_empty() || (!self.default_ns && t.draw(2) == 0) { 0 } else { *t.pick(&scope) };
                    if ns == 0 && self.default_ns {
                        continue;
                    }
                    let n = *t.pick(&[1usize, 1, 0, 2, 3]);
                    let vals = (0..n)
                        .map(|_| if self.cfg.spoil && t.chance(1, 12) { None } else { Some(gen_text(t)) })
                        .collect();
                    kids.push(CStep::TextChild { ns, local: t.below(LOCALS.len()), vals, swallow: self.swallow(t) });
                }
                _ => {}
            }
        }
        if self.cfg.spoil && t.chance(1, 10) {
            let at = t.below(kids.len() + 1);
            let s = match t.weighted(&[3, 3, 2, 1]) {
                0 => CStep::AbandonBuilder(self.node(t, &scope, depth + 1)),
                1 => CStep::AbandonWriter(self.node(t, &scope, depth + 1)),
                2 => CStep::Err,
                _ => CStep::Panic,
            };
            kids.insert(at, s);
        }
        SNode { ns, local, attrs, kids }
    }
}
impl SNode {
    pub fn count(&self) -> usize {
        1 + self
            .kids
            .iter()
            .map(|k| match k {
                CStep::Child { nodes, .. } => nodes.iter().map(|n| n.count()).sum(),
                CStep::TextChild { vals, .. } => vals.len(),
                CStep::Val { .. } => 1,
                _ => 0,
            })
            .sum::<usize>()
    }
}
