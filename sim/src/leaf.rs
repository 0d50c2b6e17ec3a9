//! Hand-written text types: newtypes over std formatting, and drop-counting tokens.

use std::cell::RefCell;
use std::mem::ManuallyDrop;

use static_xml_derive::{ParseText, ToText};

use crate::schema::{Modeled, Val};
use crate::script::USER_PANIC;
use crate::state::{self, fault, probe, Fault};

#[derive(Debug)]
pub struct BadText;
impl std::fmt::Display for BadText {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("bad text")
    }
}
impl std::error::Error for BadText {}

macro_rules! hex {
    ($t:ident, $($ws:tt)*) => {
        #[derive(Debug, ParseText, ToText)]
        #[static_xml(mode = "std" $($ws)*)]
        pub struct $t(u32);
        impl std::str::FromStr for $t {
            type Err = std::num::ParseIntError;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                u32::from_str_radix(s, 16).map($t)
            }
        }
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:x}", self.0)
            }
        }
        impl Modeled for $t {
            fn to_val(&self) -> Val {
                Val::T(self.to_string())
            }
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::T(s) => s.parse().unwrap(),
                    _ => unreachable!("{:?}", v),
                }
            }
        }
    };
}
hex!(HexC, , whitespace = "collapse");
hex!(HexP,);

macro_rules! upper {
    ($t:ident, $($ws:tt)*) => {
        #[derive(Debug, ParseText, ToText)]
        #[static_xml(mode = "std" $($ws)*)]
        pub struct $t(String);
        impl std::str::FromStr for $t {
            type Err = BadText;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                if s.chars().any(|c| c.is_ascii_lowercase()) {
                    Err(BadText)
                } else {
                    Ok($t(s.to_owned()))
                }
            }
        }
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(&self.0)
            }
        }
        impl Modeled for $t {
            fn to_val(&self) -> Val {
                Val::T(self.0.clone())
            }
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::T(s) => $t(s.clone()),
                    _ => unreachable!("{:?}", v),
                }
            }
        }
    };
}
upper!(UpperR, , whitespace = "replace");
upper!(UpperP,);

const MAGIC: u64 = 0x70CE_11AB_5EED_F00D;

#[derive(Default)]
pub struct Registry {
    /// 1 = live, 2 = dropped.
    state: Vec<u8>,
    pub problems: Vec<String>,
    pub created: u64,
    pub dropped: u64,
}
thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
}

/// Text that counts its constructions and drops.
pub struct Tok {
    magic: u64,
    id: u64,
    text: ManuallyDrop<String>,
}

impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tok#{}", self.id)
    }
}

thread_local! {
    static DEFAULTS_LEFT: std::cell::Cell<u32> = const { std::cell::Cell::new(u32::MAX) };
}
/// How many more defaults can be made before one panics.
pub fn set_defaults(n: u32) {
    DEFAULTS_LEFT.with(|d| d.set(n));
}
pub fn reg_reset() {
    state::untracked(|| REG.with(|r| *r.borrow_mut() = Registry::default()));
}
/// (created, live, problems)
pub fn reg_report() -> (u64, usize, Vec<String>) {
    state::untracked(|| {
        REG.with(|r| {
            let r = r.borrow();
            (r.created, r.state.iter().filter(|&&s| s == 1).count(), r.problems.clone())
        })
    })
}

impl Tok {
    pub fn new(text: String) -> Self {
        let id = state::untracked(|| {
            REG.with(|r| {
                let mut r = r.borrow_mut();
                r.state.push(1);
                r.created += 1;
                r.state.len() as u64 - 1
            })
        });
        Tok { magic: MAGIC ^ id, id, text: ManuallyDrop::new(text) }
    }
    fn problem(&self, s: &str) {
        state::untracked(|| REG.with(|r| r.borrow_mut().problems.push(s.to_owned())));
    }
    /// Is this memory a live token?
    fn live(&self) -> bool {
        self.magic == MAGIC ^ self.id
            && state::untracked(|| REG.with(|r| r.borrow().state.get(self.id as usize) == Some(&1)))
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.magic != MAGIC ^ self.id {
            self.problem("drop of something that was never initialised");
            return;
        }
        if !self.live() {
            self.problem("value dropped twice");
            return;
        }
        state::untracked(|| {
            REG.with(|r| {
                let mut r = r.borrow_mut();
                r.state[self.id as usize] = 2;
                r.dropped += 1;
            })
        });
        // SAFETY: live, so the string is initialised and was not dropped.
        unsafe { ManuallyDrop::drop(&mut self.text) };
    }
}
impl Default for Tok {
    fn default() -> Self {
        let left = DEFAULTS_LEFT.with(|d| d.get());
        DEFAULTS_LEFT.with(|d| d.set(left.wrapping_sub(1)));
        if left == 0 {
            fault(Fault::CbPanic);
            probe("default panics");
            panic!("{}", USER_PANIC);
        }
        Tok::new("dflt".to_owned())
    }
}
impl static_xml::de::ParseText for Tok {
    fn parse(text: String) -> Result<Self, static_xml::BoxedStdError> {
        state::step(0);
        if text.contains("!panic") {
            fault(Fault::CbPanic);
            panic!("{}", USER_PANIC);
        }
        if text.contains("!err") {
            fault(Fault::CbError);
            return Err(Box::new(BadText));
        }
        Ok(Tok::new(text))
    }
}
impl static_xml::ser::ToText for Tok {
    fn to_text(&self) -> Result<String, static_xml::ser::Error> {
        state::step(0);
        Ok((*self.text).clone())
    }
}
impl Modeled for Tok {
    fn to_val(&self) -> Val {
        if !self.live() {
            self.problem("dead or uninitialised value handed to the caller");
            return Val::T("<dead>".into());
        }
        Val::T((*self.text).clone())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::T(s) => Tok::new(s.clone()),
            _ => unreachable!("{:?}", v),
        }
    }
}
