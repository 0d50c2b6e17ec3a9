//! Operations on the real library: one read or one serialization, with everything observable about
//! its outcome.

use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

use static_xml::{de, ser, ExpandedNameRef, TextPosition};

use crate::io::{Injected, SimSink, SimSource, SinkPlan, SinkState, SourcePlan, SourceStats};
use crate::refmodel::{self, Class, RErr, RefReader, Target};
use crate::schema::*;
use crate::script::{self, Script, ScriptRoot};
use crate::serscript::{restore_mark, swap_mark, SNode};
use crate::state;

pub trait DynVal {
    fn to_val(&self) -> Val;
}
impl<T: Modeled> DynVal for T {
    fn to_val(&self) -> Val {
        Modeled::to_val(self)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Opts {
    pub indent: bool,
    pub no_decl: bool,
    /// Use `serialize_with_name` with this name rather than `serialize`.
    pub name: Option<(&'static str, &'static str)>,
}
pub enum Dest<'a> {
    Sink(&'a mut dyn Write),
    Str(&'a mut String),
}

pub struct TypeOps {
    pub name: &'static str,
    pub ty: Ty,
    pub read: fn(&mut dyn Read) -> Result<Box<dyn DynVal>, de::Error>,
    pub read_str: fn(&str) -> Result<Box<dyn DynVal>, de::Error>,
    /// As an element within other user code's.
    pub de: for<'a> fn(de::ElementReader<'a>) -> Result<Box<dyn DynVal>, de::VisitorError>,
    pub write: Option<fn(&Val, Opts, Dest<'_>) -> Result<(), ser::Error>>,
    pub ser: Option<fn(&Val, &mut ser::ElementWriter<'_>, ExpandedNameRef<'static>) -> Result<(), ser::Error>>,
    /// Number of distinct scripted flattened fields.
    pub flats: usize,
    pub tok: bool,
}

impl std::fmt::Debug for TypeOps {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}
pub fn read_as<T: de::Deserialize + Modeled + 'static>(r: &mut dyn Read) -> Result<Box<dyn DynVal>, de::Error> {
    de::read::<_, T>(r).map(|v| Box::new(v) as Box<dyn DynVal>)
}
pub fn str_as<T: de::Deserialize + Modeled + 'static>(s: &str) -> Result<Box<dyn DynVal>, de::Error> {
    de::from_str::<T>(s).map(|v| Box::new(v) as Box<dyn DynVal>)
}
pub fn de_as<T: de::Deserialize + Modeled + 'static>(e: de::ElementReader<'_>) -> Result<Box<dyn DynVal>, de::VisitorError> {
    T::deserialize(e).map(|v| Box::new(v) as Box<dyn DynVal>)
}
pub fn ser_as<T: ser::Serialize + Modeled>(v: &Val, w: &mut ser::ElementWriter<'_>, n: ExpandedNameRef<'static>) -> Result<(), ser::Error> {
    ser::SerializeField::write(&T::from_val(v), w, n)
}
pub fn finish(s: ser::Serializer<'_>, o: Opts, d: Dest<'_>) -> Result<(), ser::Error> {
    let s = s.perform_indent(o.indent).write_document_declaration(!o.no_decl);
    match d {
        Dest::Sink(w) => s.to(w),
        Dest::Str(out) => {
            *out = s.to_string()?;
            Ok(())
        }
    }
}
pub fn write_as<T: ser::SerializeRoot + Modeled>(v: &Val, o: Opts, d: Dest<'_>) -> Result<(), ser::Error> {
    let v = T::from_val(v);
    let s = match o.name {
        None => static_xml::serialize(&v),
        Some((namespace, local_name)) => {
            static_xml::serialize_with_name(&v, ExpandedNameRef { namespace, local_name })
        }
    };
    finish(s, o, d)
}

pub fn type_named(n: &str) -> &'static TypeOps {
    crate::gen_types::TYPES.iter().find(|t| t.name == n).unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
    pub display: String,
    pub stack: Vec<(String, TextPosition)>,
    /// Kind of the first io::Error in the source chain.
    pub io: Option<io::ErrorKind>,
    /// Nonce, if that error carries the injected payload.
    pub nonce: Option<u64>,
    pub os: Option<i32>,
    /// Does the message show each element of the stack, innermost first?
    pub shows_stack: bool,
    /// The first io::Error's own message.
    pub io_msg: Option<String>,
    /// The position the message gives.
    pub pos: Option<TextPosition>,
    /// What user code raised, if the chain of sources has it.
    pub raised: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ROut {
    Ok(Val),
    Err(ErrInfo),
    /// Message and location.
    Panic(String),
}
impl ROut {
    pub fn short(&self) -> String {
        match self {
            ROut::Ok(v) => format!("Ok({})", clip(&format!("{:?}", v), 400)),
            ROut::Err(e) => format!("Err({})", clip(&e.display.replace('\n', " | "), 300)),
            ROut::Panic(p) => format!("panic({})", clip(p, 300)),
        }
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let mut r: String = s.chars().take(n).collect();
        r.push('…');
        r
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        state::untracked(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", short_path(l.file()), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        })
    }));
}
fn short_path(p: &str) -> &str {
    for m in ["/xml-rs-", "/repo/", "/src/"] {
        if let Some(i) = p.rfind(m) {
            return &p[i + 1..];
        }
    }
    p
}
/// Runs `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| state::untracked(|| LAST_PANIC.with(|p| p.borrow().clone())))
}

pub fn err_info(e: &de::Error) -> ErrInfo {
    use std::error::Error;
    let mut cur: Option<&(dyn Error + 'static)> = e.source();
    let (mut io, mut nonce, mut os, mut io_msg) = (None, None, None, None);
    let mut hops = 0;
    while let Some(c) = cur {
        if let Some(i) = c.downcast_ref::<io::Error>() {
            io = Some(i.kind());
            io_msg = Some(i.to_string());
            os = i.raw_os_error();
            nonce = i.get_ref().and_then(|r| r.downcast_ref::<Injected>()).map(|i| i.0);
            break;
        }
        cur = c.source();
        hops += 1;
        if hops > 50 {
            break;
        }
    }
    let display = e.to_string();
    // (The message itself may be another such error's.)
    let own = if e.stack().is_empty() { None } else { display.rsplit_once("\n\nXML element stack:") };
    let pos = own.map_or(display.as_str(), |x| x.0).rsplit_once(" @ ").and_then(|(_, p)| {
        let (r, c) = p.trim_end().split_once(':')?;
        // Displayed from 1.
        Some(TextPosition { row: r.parse::<u64>().ok()?.checked_sub(1)?, column: c.parse::<u64>().ok()?.checked_sub(1)? })
    });
    let mut rest = display.as_str();
    let shows_stack = e.stack().iter().rev().all(|s| {
        let entry = format!("<{}> @ {}", s.name.borrow().repr_display(), s.pos);
        let r = rest;
        let end = r.match_indices(&entry).map(|(i, _)| i + entry.len()).find(|&i| !r[i..].starts_with(|c: char| c.is_ascii_digit()));
        rest = &r[end.unwrap_or(0)..];
        end.is_some()
    });
    ErrInfo {
        display,
        shows_stack,
        io_msg,
        pos,
        raised: script::raised(e),
        stack: e.stack().iter().map(|s| (s.name.to_string(), s.pos)).collect(),
        io,
        nonce,
        os,
    }
}

fn rout(r: Result<Result<Val, de::Error>, String>) -> ROut {
    match r {
        Ok(Ok(v)) => ROut::Ok(v),
        Ok(Err(e)) => ROut::Err(err_info(&e)),
        Err(p) => ROut::Panic(p),
    }
}

/// What to read and with what user code.
#[derive(Clone)]
pub struct ReadOp {
    /// `None` = wholly scripted.
    pub ty: Option<&'static TypeOps>,
    pub script: Arc<Script>,
    pub data: Arc<[u8]>,
}
/// How many bytes the reference needed.
pub struct RefPos {
    /// For each line of its log.
    pub log: Vec<usize>,
    /// For its outcome.
    pub out: usize,
    /// How far into the text that is.
    pub here: TextPosition,
    /// It is an error with a position.
    pub exact: bool,
}
pub struct ReadRun {
    pub out: ROut,
    pub log: Vec<String>,
    /// Bytes delivered, as of each line of the log.
    pub at: Vec<usize>,
    pub stats: SourceStats,
}

impl ReadOp {
    pub fn name(&self) -> &'static str {
        self.ty.map_or("script", |t| t.name)
    }
    pub fn run(&self, plan: SourcePlan) -> ReadRun {
        let (mut src, stats) = SimSource::new(&self.data, plan);
        let saved = script::swap(self.script.clone());
        let f = self.ty.map_or(read_as::<ScriptRoot> as fn(&mut dyn Read) -> _, |t| t.read);
        let out = rout(guarded(|| f(&mut src).map(|v| v.to_val())));
        let (log, at) = script::restore(saved);
        let stats = stats.borrow().clone();
        state::ev(|| format!("read {} -> {}", self.name(), out.short()));
        ReadRun { out, log, at, stats }
    }
    /// By way of `from_str`, if the bytes are a string.
    pub fn run_str(&self) -> Option<ReadRun> {
        let s = std::str::from_utf8(&self.data).ok()?;
        let saved = script::swap(self.script.clone());
        let f = self.ty.map_or(str_as::<ScriptRoot> as fn(&str) -> _, |t| t.read_str);
        let out = rout(guarded(|| f(s).map(|v| v.to_val())));
        let (log, at) = script::restore(saved);
        Some(ReadRun { out, log, at, stats: SourceStats::default() })
    }
    pub fn plain(&self) -> ReadRun {
        self.run(SourcePlan::plain(self.data.len()))
    }
    /// The reference outcome for the bytes this plan delivers. `None` if xml-rs can't be used to
    /// tell, because it panics on these bytes.
    pub fn reference(&self, plan: &SourcePlan) -> Option<(Result<Val, RErr>, Vec<String>, RefPos)> {
        let doc = refmodel::parse_ref(&self.data, plan.end, plan.terminal)?;
        let target = match self.ty {
            None => Target::Script,
            Some(t) => Target::Ty(t.ty),
        };
        let mut rd = RefReader::new(&doc, self.script.clone());
        let r = rd.read(&target);
        let log = std::mem::take(&mut rd.log);
        let at = RefPos { log: std::mem::take(&mut rd.at), out: rd.needed(), here: rd.here(), exact: rd.exact() };
        Some((r, log, at))
    }
}

/// Is the outcome the one the reference gives (values; failure or not; kind of failure)?
pub fn agrees(real: &ROut, reference: &Result<Val, RErr>) -> Result<(), (&'static str, String)> {
    let d = || format!("got {}, the bytes mean {:?}", real.short(), reference);
    match (real, reference) {
        (ROut::Panic(p), Err(RErr { class: Class::Panic, .. })) if p.contains(script::USER_PANIC) => Ok(()),
        (ROut::Panic(_), _) => Err(("panic", d())),
        (_, Err(RErr { class: Class::Panic, .. })) => Err(("panic-lost", d())),
        (ROut::Ok(a), Ok(b)) if a == b => Ok(()),
        (ROut::Ok(_), Ok(_)) => Err(("wrong-value", d())),
        (ROut::Ok(_), Err(_)) => Err(("accepted", d())),
        (ROut::Err(_), Ok(_)) => Err(("rejected", d())),
        (ROut::Err(e), Err(RErr { class: Class::Io(k), .. })) => {
            if e.io == Some(*k) {
                Ok(())
            } else {
                Err(("io-error-lost", d()))
            }
        }
        (ROut::Err(e), Err(RErr { class: Class::User(m), .. })) => {
            if e.display.contains(&script::UserErr(m.clone()).to_string()) {
                Ok(())
            } else {
                Err(("user-error-lost", d()))
            }
        }
        (ROut::Err(_), Err(_)) => Ok(()),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum WOut {
    Ok,
    Err(String),
    Panic(String),
}
pub struct WriteRun {
    pub out: WOut,
    pub sink: SinkState,
    /// Bytes in the sink when user code first spoiled the serialization.
    pub spoiled_at: Option<usize>,
}

/// What to serialize.
#[derive(Clone)]
pub enum What {
    Val(&'static TypeOps, Arc<Val>),
    Script(Arc<SNode>),
}
#[derive(Clone)]
pub struct WriteOp {
    pub what: What,
    pub opts: Opts,
}
impl WriteOp {
    pub fn to(&self, d: Dest<'_>) -> Result<(), ser::Error> {
        match &self.what {
            What::Val(t, v) => t.write.unwrap()(v, self.opts, d),
            What::Script(n) => {
                let s = static_xml::serialize_with_name(&**n, n.name());
                finish(s, self.opts, d)
            }
        }
    }
    pub fn name(&self) -> &'static str {
        match &self.what {
            What::Val(t, _) => t.name,
            What::Script(_) => "script",
        }
    }
    pub fn run(&self, plan: SinkPlan) -> WriteRun {
        let (mut sink, st) = SimSink::new(plan);
        self.run_into(&mut sink, &st)
    }
    /// Serializes into `w`, which eventually leads to the sink whose state is `st`.
    pub fn run_into(&self, w: &mut dyn Write, st: &Rc<RefCell<SinkState>>) -> WriteRun {
        let saved = swap_mark(Some(st.clone()));
        let out = wout(guarded(|| self.to(Dest::Sink(w))));
        let mark = restore_mark(saved);
        let s = st.borrow().clone();
        state::ev(|| format!("write {} -> {:?}, {} bytes", self.name(), out, s.bytes.len()));
        WriteRun { out, sink: s, spoiled_at: mark.spoiled_at }
    }
    pub fn string(&self) -> (WOut, String) {
        let mut s = String::new();
        let saved = swap_mark(None);
        let out = wout(guarded(|| self.to(Dest::Str(&mut s))));
        restore_mark(saved);
        state::ev(|| format!("write {} -> {:?}, string of {} bytes", self.name(), out, s.len()));
        (out, s)
    }
}
pub fn wout(r: Result<Result<(), ser::Error>, String>) -> WOut {
    match r {
        Ok(Ok(())) => WOut::Ok,
        Ok(Err(e)) => WOut::Err(e.to_string()),
        Err(p) => WOut::Panic(p),
    }
}
