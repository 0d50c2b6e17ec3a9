//! Scripted user code for reading: visitors whose every decision comes from a table drawn up front,
//! so that the reference model can make the same decisions.

use std::cell::RefCell;
use std::mem::MaybeUninit;
use std::sync::{Arc, OnceLock};

use static_xml::de::{
    Deserialize, ElementReader, ElementVisitor, RawDeserialize, RawDeserializeVisitor, VisitorError,
};
use static_xml::{ExpandedNameRef, TextPosition};

use crate::ops::TypeOps;
use crate::schema::{Modeled, Val};
use crate::state::{self, fault, Fault};
use crate::tape::Tape;

/// What user code does with a child element it is offered.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    /// Consume it without reading.
    Drop,
    /// Hand it back.
    Pass,
    /// Read it with a nested scripted visitor.
    Read(After),
    /// Read it as text.
    ReadStr(After),
    /// Read it into a derived type (by number, of `nested_types`).
    ReadTy(u16, After),
    /// Fail without reading it.
    ErrBefore,
    /// Panic without reading it.
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum After {
    /// Return whatever happened.
    Return,
    /// Pretend nothing went wrong.
    Swallow,
    /// Pretend nothing went wrong, even if it panicked.
    Catch,
    /// If it went well, fail now.
    ErrAfter,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Leaf {
    Take,
    Pass,
    Err,
    Panic,
}

#[derive(Clone, Debug)]
pub struct Script {
    /// Reads on through elements named d<number>, mostly.
    pub through: bool,
    pub acts: Vec<Act>,
    pub attrs: Vec<Leaf>,
    pub texts: Vec<Leaf>,
    /// Decisions of flattened scripted fields, by field index.
    pub flat: Vec<FlatScript>,
}
#[derive(Clone, Debug, Default)]
pub struct FlatScript {
    pub acts: Vec<Act>,
    pub attrs: Vec<Leaf>,
    pub texts: Vec<Leaf>,
}

pub fn key(local: &str) -> usize {
    if let Some(n) = local.strip_prefix('e') {
        if let Ok(n) = n.parse::<usize>() {
            return n;
        }
    }
    (state::fnv(7, local.as_bytes()) % 1_000_003) as usize
}

impl Script {
    pub fn benign() -> Self {
        Script {
            through: false,
            acts: vec![Act::Read(After::Return)],
            attrs: vec![Leaf::Take],
            texts: vec![Leaf::Take],
            flat: vec![FlatScript { acts: vec![Act::Drop], attrs: vec![Leaf::Take], texts: vec![Leaf::Take] }],
        }
    }
    pub fn act(&self, local: &str) -> Act {
        let k = key(local);
        // Otherwise deep chains (see `draw_tree`) would never be followed far.
        if self.through && k % 61 != 60 && local.len() > 1 && local.starts_with('d') && local[1..].bytes().all(|b| b.is_ascii_digit()) {
            return Act::Read(After::Return);
        }
        self.acts[k % self.acts.len()]
    }
    /// Decision for the `k`-th attribute of an element.
    pub fn attr(&self, local: &str, k: usize) -> Leaf {
        self.attrs[(key(local) * 3 + k) % self.attrs.len()]
    }
    pub fn text(&self, local: &str, k: usize) -> Leaf {
        self.texts[(key(local) * 3 + k) % self.texts.len()]
    }
    pub fn flat(&self, i: usize) -> &FlatScript {
        &self.flat[i % self.flat.len()]
    }
}
impl FlatScript {
    pub fn act(&self, local: &str) -> Act {
        self.acts[key(local) % self.acts.len()]
    }
    pub fn attr(&self, k: usize) -> Leaf {
        self.attrs[k % self.attrs.len()]
    }
    pub fn text(&self, k: usize) -> Leaf {
        self.texts[k % self.texts.len()]
    }
}

/// How nasty scripted user code may be.
#[derive(Clone, Copy, Debug)]
pub struct Nasty {
    pub errors: bool,
    pub swallow: bool,
    pub panics: bool,
}

fn draw_act(t: &mut Tape, n: Nasty) -> Act {
    let e = n.errors as u32;
    let s = n.swallow as u32;
    let p = n.panics as u32;
    match t.weighted(&[10, 6, 2, 4, 3 * s, 3 * s, e, e, e, p, 2 * p * s, 2, 2 * s]) {
        0 => Act::Read(After::Return),
        1 => Act::Drop,
        2 => Act::Pass,
        3 => Act::ReadStr(if s > 0 { After::Swallow } else { After::Return }),
        4 => Act::Read(After::Swallow),
        5 => Act::ReadStr(After::Swallow),
        6 => Act::ErrBefore,
        7 => Act::Read(After::ErrAfter),
        8 => Act::ReadStr(After::ErrAfter),
        9 => Act::Panic,
        10 => Act::Read(After::Catch),
        w => {
            let after = match t.weighted(&[4, 0, e, p * s * 2]) {
                2 => After::ErrAfter,
                3 => After::Catch,
                _ if w == 12 => After::Swallow,
                _ => After::Return,
            };
            Act::ReadTy(t.below(nested_types().len()) as u16, after)
        }
    }
}
fn draw_leaf(t: &mut Tape, n: Nasty) -> Leaf {
    match t.weighted(&[12, 6, n.errors as u32, n.panics as u32]) {
        0 => Leaf::Take,
        1 => Leaf::Pass,
        2 => Leaf::Err,
        _ => Leaf::Panic,
    }
}

pub fn draw_script(t: &mut Tape, n: Nasty) -> Script {
    let na = t.range(1, 12);
    let acts = (0..na).map(|_| draw_act(t, n)).collect();
    let nl = t.range(1, 9);
    let attrs = (0..nl).map(|_| draw_leaf(t, n)).collect();
    let nt = t.range(1, 9);
    let texts = (0..nt).map(|_| draw_leaf(t, n)).collect();
    let through = t.chance(2, 3);
    Script { through, acts, attrs, texts, flat: Vec::new() }
}
pub fn draw_flat(t: &mut Tape, n: Nasty, fields: usize) -> Vec<FlatScript> {
    (0..fields)
        .map(|_| {
            let na = t.range(1, 7);
            let acts = (0..na)
                .map(|_| if t.chance(1, 2) { Act::Pass } else { draw_act(t, n) })
                .collect();
            let nl = t.range(1, 5);
            let leaf = |t: &mut Tape| if t.chance(1, 2) { Leaf::Pass } else { draw_leaf(t, n) };
            let attrs = (0..nl).map(|_| leaf(t)).collect();
            let nt = t.range(1, 5);
            let texts = (0..nt).map(|_| leaf(t)).collect();
            FlatScript { acts, attrs, texts }
        })
        .collect()
}

thread_local! {
    static SCRIPT: RefCell<Arc<Script>> = RefCell::new(Arc::new(Script::benign()));
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static AT: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

pub struct Saved(Arc<Script>, Vec<String>, Vec<usize>);
/// Installs a script and an empty log for one operation (which may be nested in another).
pub fn swap(s: Arc<Script>) -> Saved {
    Saved(
        SCRIPT.with(|c| std::mem::replace(&mut *c.borrow_mut(), s)),
        LOG.with(|l| std::mem::take(&mut *l.borrow_mut())),
        AT.with(|l| std::mem::take(&mut *l.borrow_mut())),
    )
}
/// Undoes `swap`, returning the operation's log, and how much its source had delivered then.
pub fn restore(s: Saved) -> (Vec<String>, Vec<usize>) {
    SCRIPT.with(|c| *c.borrow_mut() = s.0);
    (LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), s.1)), AT.with(|l| std::mem::replace(&mut *l.borrow_mut(), s.2)))
}
pub fn script() -> Arc<Script> {
    SCRIPT.with(|c| c.borrow().clone())
}
thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// While quiet, nothing is logged (so that the log's own memory is not counted).
pub fn set_quiet(q: bool) {
    QUIET.with(|c| c.set(q));
}
fn log(s: String) {
    if QUIET.with(|c| c.get()) {
        return;
    }
    state::ev(|| format!("cb {}", s));
    state::untracked(|| {
        AT.with(|l| l.borrow_mut().push(crate::io::DELIVERED.with(|d| d.get())));
        LOG.with(|l| l.borrow_mut().push(s))
    });
}

/// Error raised by scripted user code.
#[derive(Debug)]
pub struct UserErr(pub String);
impl std::fmt::Display for UserErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "user-error[{}]", self.0)?;
        if state::fnv(3, self.0.as_bytes()) % 16 == 1 {
            // At length.
            for i in 0..60 {
                write!(f, "\n{}: {{}} <caf\u{e9} '&amp;'>", i)?;
            }
        }
        Ok(())
    }
}
impl std::error::Error for UserErr {
    /// Half of them have a cause of their own.
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        if state::fnv(7, self.0.as_bytes()) % 2 == 0 {
            Some(&std::fmt::Error)
        } else {
            None
        }
    }
}

/// Fails on every text.
#[derive(Debug)]
struct Fails;
impl static_xml::de::ParseText for Fails {
    fn parse(text: String) -> Result<Self, static_xml::BoxedStdError> {
        Err(Box::new(UserErr(text)))
    }
}
/// The error as user code would raise it: its own, one of I/O it did, or one of another document it read.
fn user_err(what: String) -> static_xml::BoxedStdError {
    match state::fnv(5, what.as_bytes()) % 10 {
        0 => Box::new(std::io::Error::new(std::io::ErrorKind::InvalidData, UserErr(what))),
        1 => Box::new(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, UserErr(what))),
        2 => {
            let other = format!("<!-- other -->\n\n<other><![CDATA[{}]]></other>", what);
            Box::new(static_xml::de::from_str::<Fails>(&other).unwrap_err())
        }
        _ => Box::new(UserErr(what)),
    }
}
/// What user code raised, if it is in the chain of sources.
pub fn raised(mut e: &(dyn std::error::Error + 'static)) -> Option<String> {
    loop {
        if let Some(u) = e.downcast_ref::<UserErr>() {
            return Some(u.0.clone());
        }
        // An io::Error passes its payload over.
        e = match e.downcast_ref::<std::io::Error>().and_then(|i| i.get_ref()) {
            Some(inner) => inner,
            None => e.source()?,
        };
    }
}

pub const USER_PANIC: &str = "SIM-USER-PANIC";

pub fn fmt_name(n: &ExpandedNameRef<'_>) -> String {
    format!("{{{}}}{}", n.namespace, n.local_name)
}
pub fn fmt_ns(ns: &xml::namespace::Namespace) -> String {
    let mut s = String::new();
    for (p, u) in ns {
        if p == "xml" || p == "xmlns" || (p.is_empty() && u.is_empty()) {
            continue;
        }
        s.push_str(p);
        s.push('=');
        s.push_str(u);
        s.push(';');
    }
    s
}
pub fn fmt_pos(p: TextPosition) -> String {
    format!("{}:{}", p.row, p.column)
}
pub fn fmt_stack(st: &[static_xml::de::StackElement]) -> String {
    st.iter().map(|e| format!("{}@{}", e.name, fmt_pos(e.pos))).collect::<Vec<_>>().join("/")
}

fn leaf_effect(l: Leaf, what: &str) -> Result<bool, static_xml::BoxedStdError> {
    state::step(0);
    match l {
        Leaf::Take => Ok(true),
        Leaf::Pass => Ok(false),
        Leaf::Err => {
            fault(Fault::CbError);
            Err(user_err(what.to_owned()))
        }
        Leaf::Panic => {
            fault(Fault::CbPanic);
            panic!("{}", USER_PANIC)
        }
    }
}

fn read_one(act: Act, local: &str, el: ElementReader<'_>) -> Result<String, VisitorError> {
    match act {
        Act::Read(_) => {
            let mut v = ScriptVisitor::new(local.to_owned());
            el.read_to(&mut v).map(|(n, ns, pos)| format!("{} [{}] end={}", n, fmt_ns(&ns), fmt_pos(pos)))
        }
        Act::ReadStr(_) => el.read_string().map(|s| format!("{:?}", s)),
        Act::ReadTy(i, _) => {
            fault(Fault::DerivedChild);
            let ty = nested_types()[i as usize];
            (ty.de)(el).map(|v| format!("{} {:?}", ty.name, v.to_val()))
        }
        _ => unreachable!(),
    }
}
/// Types which scripted code may read its children into.
pub fn nested_types() -> &'static [&'static TypeOps] {
    static V: OnceLock<Vec<&'static TypeOps>> = OnceLock::new();
    V.get_or_init(|| crate::gen_types::TYPES.iter().filter(|t| t.flats == 0).collect())
}

/// Applies `act` to an element. `Ok(Some(..))` hands it back.
fn apply<'a>(tag: &str, act: Act, el: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
    state::step(0);
    let local = el.name().local_name.to_owned();
    let r = match act {
        Act::Drop => {
            fault(Fault::ChildDropped);
            return Ok(None);
        }
        Act::Pass => {
            fault(Fault::ChildPassed);
            return Ok(Some(el));
        }
        Act::ErrBefore => {
            fault(Fault::CbError);
            return Err(VisitorError::Wrap(user_err(format!("{} before {}", tag, local))));
        }
        Act::Panic => {
            fault(Fault::CbPanic);
            panic!("{}", USER_PANIC)
        }
        Act::Read(After::Catch) | Act::ReadTy(_, After::Catch) => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read_one(act, &local, el)));
            match r {
                Ok(r) => r,
                Err(p) => {
                    // Only scripted panics are user code's to catch.
                    if p.downcast_ref::<String>().map(|s| s.as_str()) != Some(USER_PANIC) {
                        std::panic::resume_unwind(p);
                    }
                    drop(p);
                    fault(Fault::CbCatch);
                    log(format!("{} R {} caught", tag, local));
                    return Ok(None);
                }
            }
        }
        Act::Read(_) | Act::ReadStr(_) | Act::ReadTy(..) => read_one(act, &local, el),
    };
    match &r {
        Err(_) if matches!(act, Act::ReadTy(..)) => log(format!("{} R {} err", tag, local)),
        Ok(s) => log(format!("{} R {} ok {}", tag, local, s)),
        Err(VisitorError::Propagate(e)) => {
            log(format!("{} R {} err at {}", tag, local, fmt_stack(e.stack())))
        }
        Err(VisitorError::Wrap(_)) => log(format!("{} R {} err WRAP", tag, local)),
    }
    let after = match act {
        Act::Read(a) | Act::ReadStr(a) | Act::ReadTy(_, a) => a,
        _ => unreachable!(),
    };
    match (after, r) {
        (After::Return, Ok(_)) => Ok(None),
        (After::Return, Err(e)) => Err(e),
        (After::Swallow | After::Catch, Ok(_)) => Ok(None),
        (After::Swallow | After::Catch, Err(_)) => {
            fault(Fault::CbSwallow);
            Ok(None)
        }
        (After::ErrAfter, Ok(_)) => {
            fault(Fault::CbError);
            Err(VisitorError::Wrap(user_err(format!("{} after {}", tag, local))))
        }
        (After::ErrAfter, Err(e)) => Err(e),
    }
}

pub struct ScriptVisitor {
    local: String,
    attrs: usize,
    texts: usize,
    script: Arc<Script>,
}
impl ScriptVisitor {
    fn new(local: String) -> Self {
        ScriptVisitor { local, attrs: 0, texts: 0, script: script() }
    }
}
impl ElementVisitor for ScriptVisitor {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        log(format!("V A {} {}={:?}", self.local, fmt_name(name), value));
        let l = self.script.attr(&self.local, self.attrs);
        self.attrs += 1;
        match leaf_effect(l, &format!("attr of {}", self.local)) {
            Ok(true) => Ok(None),
            Ok(false) => Ok(Some(value)),
            Err(e) => Err(VisitorError::Wrap(e)),
        }
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        log(format!(
            "V C {} {} q={} d={} ns={}",
            self.local,
            fmt_name(&child.expanded_name()),
            child.name(),
            child.depth(),
            fmt_ns(child.namespace())
        ));
        let a = self.script.act(child.name().local_name);
        apply("V", a, child)
    }
    fn characters(&mut self, s: String, pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        log(format!("V T {} {:?} @{}", self.local, s, fmt_pos(pos)));
        let l = self.script.text(&self.local, self.texts);
        self.texts += 1;
        match leaf_effect(l, &format!("text of {}", self.local)) {
            Ok(true) => Ok(None),
            Ok(false) => Ok(Some(s)),
            Err(e) => Err(e),
        }
    }
}

/// Root (or child) type whose deserialization is scripted.
#[derive(Debug)]
pub struct ScriptRoot;
impl Deserialize for ScriptRoot {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        log(format!(
            "ROOT {} q={} d={} ns={}",
            fmt_name(&element.expanded_name()),
            element.name(),
            element.depth(),
            fmt_ns(element.namespace())
        ));
        let a = script().act(element.name().local_name);
        apply("ROOT", a, element)?;
        Ok(ScriptRoot)
    }
}
impl Modeled for ScriptRoot {
    fn to_val(&self) -> Val {
        Val::U
    }
    fn from_val(_: &Val) -> Self {
        ScriptRoot
    }
}

/// Flattened scripted field number `N` of a derived host.
#[derive(Debug)]
pub struct Flat<const N: usize> {
    _p: (),
}
pub struct FlatVisitor<'out, const N: usize> {
    out: &'out mut MaybeUninit<Flat<N>>,
    attrs: usize,
    texts: usize,
    script: Arc<Script>,
}
impl<'out, const N: usize> ElementVisitor for FlatVisitor<'out, N> {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        log(format!("F{} A {}={:?}", N, fmt_name(name), value));
        let l = self.script.flat(N).attr(self.attrs);
        self.attrs += 1;
        match leaf_effect(l, &format!("flat {} attr", N)) {
            Ok(true) => Ok(None),
            Ok(false) => Ok(Some(value)),
            Err(e) => Err(VisitorError::Wrap(e)),
        }
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        log(format!("F{} C {} d={}", N, fmt_name(&child.expanded_name()), child.depth()));
        let a = self.script.flat(N).act(child.name().local_name);
        apply(&format!("F{}", N), a, child)
    }
    fn characters(&mut self, s: String, pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        log(format!("F{} T {:?} @{}", N, s, fmt_pos(pos)));
        let l = self.script.flat(N).text(self.texts);
        self.texts += 1;
        match leaf_effect(l, &format!("flat {} text", N)) {
            Ok(true) => Ok(None),
            Ok(false) => Ok(Some(s)),
            Err(e) => Err(e),
        }
    }
}
unsafe impl<'out, const N: usize> RawDeserializeVisitor<'out> for FlatVisitor<'out, N> {
    type Out = Flat<N>;
    fn new(out: &'out mut MaybeUninit<Self::Out>) -> Self {
        FlatVisitor { out, attrs: 0, texts: 0, script: script() }
    }
    fn finalize(self, _default: Option<fn() -> Self::Out>) -> Result<(), VisitorError> {
        self.out.write(Flat { _p: () });
        Ok(())
    }
}
impl<'out, const N: usize> RawDeserialize<'out> for Flat<N> {
    type Visitor = FlatVisitor<'out, N>;
}
impl<const N: usize> Modeled for Flat<N> {
    fn to_val(&self) -> Val {
        Val::U
    }
    fn from_val(_: &Val) -> Self {
        Flat { _p: () }
    }
}
