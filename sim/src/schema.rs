//! Shapes of derived types, generic values, and the reference semantics of text types.

use crate::tape::Tape;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ws {
    Preserve,
    Replace,
    Collapse,
}

#[derive(Clone, Copy, Debug)]
pub enum TextTy {
    Str,
    Bool,
    Int(&'static str),
    Float(u8),
    Restr(&'static RestrS),
    Union(&'static UnionS),
    /// Newtype over u32, hexadecimal text, via FromStr/Display.
    Hex(Ws),
    /// Newtype over String accepting only text without lower-case letters, via FromStr/Display.
    Upper(Ws),
    /// Drop-counting text with scripted behaviour.
    Tok,
}

#[derive(Debug)]
pub struct RestrS {
    pub ws: Ws,
    pub known: &'static [&'static str],
    pub unknown: bool,
}
#[derive(Debug)]
pub struct UnionS {
    pub ws: Ws,
    pub members: &'static [TextTy],
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Card {
    One,
    Opt,
    Many,
}

#[derive(Clone, Copy, Debug)]
pub enum Ty {
    Text(TextTy),
    Struct(&'static StructS),
    Enum(&'static EnumS),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Attr,
    Elem,
    FlatEnum,
    /// Flattened scripted field with this index.
    FlatScript(usize),
}

pub struct FieldS {
    pub name: &'static str,
    pub ns: &'static str,
    pub local: &'static str,
    pub kind: Kind,
    pub card: Card,
    pub default: Option<fn() -> Val>,
    pub ty: Ty,
}
impl std::fmt::Debug for FieldS {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}:{:?}{:?}", self.name, self.kind, self.card)
    }
}

#[derive(Debug)]
pub struct StructS {
    pub name: &'static str,
    pub root: (&'static str, &'static str),
    pub fields: &'static [FieldS],
}
#[derive(Debug)]
pub struct VariantS {
    pub name: &'static str,
    pub ns: &'static str,
    pub local: &'static str,
    pub payload: Option<(Card, Ty)>,
    pub skip: bool,
}
#[derive(Debug)]
pub struct EnumS {
    pub name: &'static str,
    pub root: (&'static str, &'static str),
    pub variants: &'static [VariantS],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    /// Canonical text of a text value.
    T(String),
    S(Vec<Val>),
    E(usize, Box<Val>),
    O(Option<Box<Val>>),
    L(Vec<Val>),
    U,
}

/// Types the generated code can convert.
pub trait Modeled: Sized {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}

impl<T: Modeled> Modeled for Option<T> {
    fn to_val(&self) -> Val {
        Val::O(self.as_ref().map(|v| Box::new(v.to_val())))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::O(o) => o.as_ref().map(|v| T::from_val(v)),
            _ => unreachable!("{:?}", v),
        }
    }
}
impl<T: Modeled> Modeled for Vec<T> {
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(T::to_val).collect())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::L(l) => l.iter().map(T::from_val).collect(),
            _ => unreachable!("{:?}", v),
        }
    }
}
macro_rules! modeled_display {
    ($($t:ident)*) => { $(
        impl Modeled for $t {
            fn to_val(&self) -> Val { Val::T(self.to_string()) }
            fn from_val(v: &Val) -> Self {
                match v { Val::T(s) => s.parse().unwrap(), _ => unreachable!("{:?}", v) }
            }
        }
    )* }
}
modeled_display!(bool i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 f32 f64 String);

fn is_ws(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' ')
}

/// Reference whitespace normalization, straight from the XML Schema text.
pub fn normalize(s: &str, ws: Ws) -> String {
    match ws {
        Ws::Preserve => s.to_owned(),
        Ws::Replace => s.chars().map(|c| if is_ws(c) { ' ' } else { c }).collect(),
        Ws::Collapse => s.split(is_ws).filter(|p| !p.is_empty()).collect::<Vec<_>>().join(" "),
    }
}

impl TextTy {
    /// Reference parse: canonical value of `text`, or None when it must be rejected.
    pub fn parse(&self, text: &str) -> Option<String> {
        let trimmed = text.trim_matches(is_ws);
        match self {
            TextTy::Str => Some(text.to_owned()),
            TextTy::Tok => {
                if text.contains("!err") {
                    None
                } else {
                    Some(text.to_owned())
                }
            }
            TextTy::Bool => match trimmed {
                "true" | "1" => Some("true".into()),
                "false" | "0" => Some("false".into()),
                _ => None,
            },
            TextTy::Int(k) => {
                macro_rules! go { ($($t:ident)*) => { match *k { $(stringify!($t) => trimmed.parse::<$t>().ok().map(|v| v.to_string()),)* _ => unreachable!() } } }
                go!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128)
            }
            TextTy::Float(32) => trimmed.parse::<f32>().ok().map(|v| v.to_string()),
            TextTy::Float(_) => trimmed.parse::<f64>().ok().map(|v| v.to_string()),
            TextTy::Restr(r) => {
                let n = normalize(text, r.ws);
                match r.known.iter().position(|k| *k == n) {
                    Some(i) => Some(format!("k{}", i)),
                    None if r.unknown => Some(format!("u:{}", n)),
                    None => None,
                }
            }
            TextTy::Union(u) => {
                let n = normalize(text, u.ws);
                u.members.iter().enumerate().find_map(|(i, m)| m.parse(&n).map(|c| format!("{}|{}", i, c)))
            }
            TextTy::Hex(ws) => u32::from_str_radix(&normalize(text, *ws), 16).ok().map(|v| format!("{:x}", v)),
            TextTy::Upper(ws) => {
                let n = normalize(text, *ws);
                if n.chars().any(|c| c.is_ascii_lowercase()) {
                    None
                } else {
                    Some(n)
                }
            }
        }
    }

    /// Reference formatting of a canonical value.
    pub fn format(&self, canon: &str) -> String {
        match self {
            TextTy::Restr(r) => match canon.strip_prefix("u:") {
                Some(t) => t.to_owned(),
                None => r.known[canon[1..].parse::<usize>().unwrap()].to_owned(),
            },
            TextTy::Union(u) => {
                let (i, c) = canon.split_once('|').unwrap();
                u.members[i.parse::<usize>().unwrap()].format(c)
            }
            _ => canon.to_owned(),
        }
    }

    /// A canonical value that survives format-then-parse (checked by construction).
    pub fn gen(&self, t: &mut Tape) -> String {
        for _ in 0..4 {
            let c = self.gen_raw(t);
            if self.parse(&self.format(&c)).as_deref() == Some(&c[..]) {
                return c;
            }
        }
        self.fallback()
    }
    fn fallback(&self) -> String {
        match self {
            TextTy::Str | TextTy::Tok => "x".into(),
            TextTy::Bool => "true".into(),
            TextTy::Int(_) | TextTy::Float(_) => "7".into(),
            TextTy::Restr(_) => "k0".into(),
            TextTy::Union(u) => {
                // The last member's fallback, attributed to whichever member claims it.
                let text = u.members[u.members.len() - 1].format(&u.members[u.members.len() - 1].fallback());
                self.parse(&text).expect("union fallback")
            }
            TextTy::Hex(_) => "7".into(),
            TextTy::Upper(_) => "X".into(),
        }
    }
    fn gen_raw(&self, t: &mut Tape) -> String {
        match self {
            TextTy::Str => gen_text(t),
            TextTy::Tok => format!("k{}", t.below(100)),
            TextTy::Bool => t.pick(&["true", "false"]).to_string(),
            TextTy::Int(k) => {
                let v = t.below(8);
                let any = if v == 7 { (0..7).fold(0u128, |a, _| a << 20 ^ t.seed() as u128) >> t.below(128) } else { 0 };
                macro_rules! go { ($($t:ident)*) => { match *k { $(stringify!($t) => match v {
                    0 => 7 as $t, 1 => $t::MIN, 2 => $t::MAX, 3 => 0, 4 => $t::MAX / 3, 5 => $t::MIN / 5 + 1, 6 => 42, _ => any as $t }.to_string(),)* _ => unreachable!() } } }
                go!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128)
            }
            TextTy::Float(b) => {
                let s = *t.pick(&[
                    "7", "0", "-0", "1.5", "-2.25", "0.1", "1e300", "1e-300", "inf", "-inf", "NaN", "3.4028235e38", "16777217", "5e-324", "123456.789", "1e-45", "1.1e-38", "-1e-40", "1e21",
                    "1e16", "1e-7", "0.30000000000000004", "bits",
                ]);
                if s == "bits" {
                    let (hi, lo) = (t.seed() << 44 | t.seed() << 24, t.seed() << 4);
                    return if *b == 32 { f32::from_bits((hi >> 32) as u32).to_string() } else { f64::from_bits(hi | lo).to_string() };
                }
                if *b == 32 {
                    s.parse::<f32>().unwrap().to_string()
                } else {
                    s.parse::<f64>().unwrap().to_string()
                }
            }
            TextTy::Restr(r) => {
                let n = r.known.len() + r.unknown as usize;
                let i = t.below(n);
                if i < r.known.len() {
                    format!("k{}", i)
                } else {
                    format!("u:{}", gen_text(t))
                }
            }
            TextTy::Union(u) => {
                let i = t.below(u.members.len());
                format!("{}|{}", i, u.members[i].gen(t))
            }
            TextTy::Hex(_) => format!("{:x}", *t.pick(&[7u32, 0, 255, 0xdead_beef, u32::MAX])),
            TextTy::Upper(_) => gen_text(t).to_uppercase(),
        }
    }
}

/// Text with the characters that matter to XML.
pub fn gen_text(t: &mut Tape) -> String {
    const FRAG: &[&str] = &[
        "x", "abc", "", " ", "<", "&", ">", "\"", "'", "]]>", "é", "日本", "\u{1F600}", "&amp;", "\n", "\t", "  ", "a b",
        "<!--", "-->", "<?", "?>", "/>", "%", "#", "0", "=", "\u{a0}", "\u{2028}", "<![CDATA[", "\r", "\u{7f}", ";",
        "\u{85}", "\u{feff}", "\u{fffd}", "\u{200b}", "\u{e000}", "\u{10ffff}", "\u{d7ff}", "\u{300}", "]", "]]",
    ];
    match t.weighted(&[6, 1, 6, 3, 1]) {
        0 => (*t.pick(&["x", "abc", "Foo", "hello world", "42", "true", "null", "NaN", "-0"])).to_owned(),
        1 => String::new(),
        2 => (0..1 + t.below(4)).map(|_| *t.pick(FRAG)).collect(),
        3 => (0..2 + t.below(10)).map(|_| *t.pick(FRAG)).collect(),
        _ => {
            let f = *t.pick(FRAG);
            if t.rare(60) {
                // Larger than the buffers around.
                let n = *t.pick(&[4096usize, 8192, 16384, 65536, 131072, 300000]) - 5 + t.below(10);
                if t.draw(2) == 1 {
                    return format!("{}{}{}", f, "x".repeat(n), f);
                }
                // At and around the ends of blocks.
                let block = *t.pick(&[64usize, 256, 1024, 4096]);
                let mut r = String::with_capacity(n + 16);
                while r.len() < n.min(40_000) {
                    let next = (r.len() / block + 1) * block;
                    r.push_str(&"x".repeat(next.saturating_sub(r.len() + t.below(4))));
                    r.push_str(f);
                }
                return r;
            }
            f.repeat(20 + t.below(300))
        }
    }
}

/// Generates a value of a struct.
pub fn gen_struct(t: &mut Tape, s: &'static StructS, depth: usize) -> Val {
    Val::S(s.fields.iter().map(|f| gen_field(t, f.kind, f.card, &f.ty, depth)).collect())
}
pub fn gen_enum(t: &mut Tape, e: &'static EnumS, depth: usize) -> Val {
    let usable: Vec<usize> = (0..e.variants.len()).filter(|&i| !e.variants[i].skip).collect();
    let i = *t.pick(&usable);
    let v = &e.variants[i];
    let payload = match &v.payload {
        None => Val::U,
        Some((c, ty)) => {
            // An empty list or absent option would write no element at all, so the choice could not
            // be recognised on reading: not representable, so not generated.
            match c {
                Card::One => gen_ty(t, ty, depth + 1),
                Card::Opt => Val::O(Some(Box::new(gen_ty(t, ty, depth + 1)))),
                Card::Many => Val::L((0..1 + t.small(3)).map(|_| gen_ty(t, ty, depth + 1)).collect()),
            }
        }
    };
    Val::E(i, Box::new(payload))
}
fn gen_field(t: &mut Tape, kind: Kind, card: Card, ty: &Ty, depth: usize) -> Val {
    if kind == Kind::FlatEnum {
        return gen_ty(t, ty, depth);
    }
    if let Kind::FlatScript(_) = kind {
        return Val::U;
    }
    match card {
        Card::One => gen_ty(t, ty, depth + 1),
        Card::Opt => {
            if t.chance(if depth > 4 { 1 } else { 3 }, 5) {
                Val::O(Some(Box::new(gen_ty(t, ty, depth + 1))))
            } else {
                Val::O(None)
            }
        }
        Card::Many => {
            let max = if depth > 3 { 1 } else { 4 };
            let n = if depth > 5 {
                0
            } else if depth == 0 && t.rare(300) {
                *t.pick(&[50usize, 130, 300, 1100, 4200]) + t.below(50)
            } else {
                t.small(max)
            };
            // Many items are small items.
            let depth = if n > 4 { 6 } else { depth };
            Val::L((0..n).map(|_| gen_ty(t, ty, depth + 1)).collect())
        }
    }
}
/// A value of `ty`; sometimes one that is deeply nested.
pub fn gen_root(t: &mut Tape, ty: &Ty) -> Val {
    let mut v = gen_ty(t, ty, 0);
    if let Ty::Struct(s) = ty {
        let again = s.fields.iter().position(|f| f.card == Card::Many && matches!(f.ty, Ty::Struct(x) if std::ptr::eq(x, *s)));
        if let (Some(i), true) = (again, t.rare(40)) {
            let shell = gen_struct(&mut Tape::from_vals(Vec::new()), s, 6);
            for _ in 0..*t.pick(&[20usize, 70, 130, 280]) {
                let inner = std::mem::replace(&mut v, shell.clone());
                if let Val::S(f) = &mut v {
                    f[i] = Val::L(vec![inner]);
                }
            }
        }
    }
    v
}
pub fn gen_ty(t: &mut Tape, ty: &Ty, depth: usize) -> Val {
    match ty {
        Ty::Text(x) => Val::T(x.gen(t)),
        Ty::Struct(s) => gen_struct(t, s, depth),
        Ty::Enum(e) => gen_enum(t, e, depth),
    }
}
