// Generated by gen_types.py; do not edit.
#![allow(non_snake_case, clippy::all)]
#![cfg_attr(rustfmt, rustfmt_skip)]

use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};

use crate::leaf::*;
use crate::ops::{de_as, read_as, ser_as, str_as, write_as, TypeOps};
use crate::schema::*;
use crate::script::Flat;

fn text_of<T: Modeled>(i: usize, m: &T) -> Val {
    match m.to_val() {
        Val::T(s) => Val::T(format!("{}|{}", i, s)),
        v => unreachable!("{:?}", v),
    }
}
fn untext(v: &Val) -> (usize, Val) {
    match v {
        Val::T(s) => {
            let (i, c) = s.split_once('|').unwrap();
            (i.parse().unwrap(), Val::T(c.to_owned()))
        }
        v => unreachable!("{:?}", v),
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum Size {
    #[static_xml(rename = "small")]
    V0,
    #[static_xml(rename = "medium")]
    V1,
    #[static_xml(rename = "large")]
    V2,
    #[static_xml(rename = "extra large")]
    V3,
}
static SIZE_R: RestrS = RestrS { ws: Ws::Collapse, known: &["small", "medium", "large", "extra large"], unknown: false };
impl Modeled for Size {
    fn to_val(&self) -> Val {
        Val::T(match self {
            Size::V0 => "k0".into(),
            Size::V1 => "k1".into(),
            Size::V2 => "k2".into(),
            Size::V3 => "k3".into(),
        })
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::T(s) if s == "k0" => Size::V0,
            Val::T(s) if s == "k1" => Size::V1,
            Val::T(s) if s == "k2" => Size::V2,
            Val::T(s) if s == "k3" => Size::V3,
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum SizeU {
    #[static_xml(rename = "small")]
    V0,
    #[static_xml(rename = "medium")]
    V1,
    #[static_xml(rename = "large")]
    V2,
    #[static_xml(unknown)]
    Unknown(String),
}
static SIZEU_R: RestrS = RestrS { ws: Ws::Collapse, known: &["small", "medium", "large"], unknown: true };
impl Modeled for SizeU {
    fn to_val(&self) -> Val {
        Val::T(match self {
            SizeU::V0 => "k0".into(),
            SizeU::V1 => "k1".into(),
            SizeU::V2 => "k2".into(),
            SizeU::Unknown(s) => format!("u:{}", s),
        })
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::T(s) if s == "k0" => SizeU::V0,
            Val::T(s) if s == "k1" => SizeU::V1,
            Val::T(s) if s == "k2" => SizeU::V2,
            Val::T(s) => SizeU::Unknown(s[2..].to_owned()),
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum Color {
    #[static_xml(rename = "red")]
    V0,
    #[static_xml(rename = "Red")]
    V1,
    #[static_xml(rename = "dark  blue")]
    V2,
    #[static_xml(rename = " spaced ")]
    V3,
    #[static_xml(rename = "<&>")]
    V4,
}
static COLOR_R: RestrS = RestrS { ws: Ws::Preserve, known: &["red", "Red", "dark  blue", " spaced ", "<&>"], unknown: false };
impl Modeled for Color {
    fn to_val(&self) -> Val {
        Val::T(match self {
            Color::V0 => "k0".into(),
            Color::V1 => "k1".into(),
            Color::V2 => "k2".into(),
            Color::V3 => "k3".into(),
            Color::V4 => "k4".into(),
        })
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::T(s) if s == "k0" => Color::V0,
            Val::T(s) if s == "k1" => Color::V1,
            Val::T(s) if s == "k2" => Color::V2,
            Val::T(s) if s == "k3" => Color::V3,
            Val::T(s) if s == "k4" => Color::V4,
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "replace")]
pub enum ColorU {
    #[static_xml(rename = "a b")]
    V0,
    #[static_xml(rename = "")]
    V1,
    #[static_xml(rename = "x")]
    V2,
    #[static_xml(unknown)]
    Unknown(String),
}
static COLORU_R: RestrS = RestrS { ws: Ws::Replace, known: &["a b", "", "x"], unknown: true };
impl Modeled for ColorU {
    fn to_val(&self) -> Val {
        Val::T(match self {
            ColorU::V0 => "k0".into(),
            ColorU::V1 => "k1".into(),
            ColorU::V2 => "k2".into(),
            ColorU::Unknown(s) => format!("u:{}", s),
        })
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::T(s) if s == "k0" => ColorU::V0,
            Val::T(s) if s == "k1" => ColorU::V1,
            Val::T(s) if s == "k2" => ColorU::V2,
            Val::T(s) => ColorU::Unknown(s[2..].to_owned()),
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum OnlyU {
    #[static_xml(unknown)]
    Unknown(String),
}
static ONLYU_R: RestrS = RestrS { ws: Ws::Preserve, known: &[], unknown: true };
impl Modeled for OnlyU {
    fn to_val(&self) -> Val {
        Val::T(match self {
            OnlyU::Unknown(s) => format!("u:{}", s),
        })
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::T(s) => OnlyU::Unknown(s[2..].to_owned()),
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum U1 {
    M0(i32),
    M1(bool),
    M2(String),
}
static U1_U: UnionS = UnionS { ws: Ws::Preserve, members: &[TextTy::Int("i32"), TextTy::Bool, TextTy::Str] };
impl Modeled for U1 {
    fn to_val(&self) -> Val {
        match self {
            U1::M0(m) => text_of(0, m),
            U1::M1(m) => text_of(1, m),
            U1::M2(m) => text_of(2, m),
        }
    }
    fn from_val(v: &Val) -> Self {
        let (i, inner) = untext(v);
        match i {
            0 => U1::M0(Modeled::from_val(&inner)),
            1 => U1::M1(Modeled::from_val(&inner)),
            2 => U1::M2(Modeled::from_val(&inner)),
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum U2 {
    M0(Size),
    M1(HexC),
}
static U2_U: UnionS = UnionS { ws: Ws::Collapse, members: &[TextTy::Restr(&SIZE_R), TextTy::Hex(Ws::Collapse)] };
impl Modeled for U2 {
    fn to_val(&self) -> Val {
        match self {
            U2::M0(m) => text_of(0, m),
            U2::M1(m) => text_of(1, m),
        }
    }
    fn from_val(v: &Val) -> Self {
        let (i, inner) = untext(v);
        match i {
            0 => U2::M0(Modeled::from_val(&inner)),
            1 => U2::M1(Modeled::from_val(&inner)),
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "replace")]
pub enum U3 {
    M0(U2),
    M1(f64),
    M2(UpperR),
}
static U3_U: UnionS = UnionS { ws: Ws::Replace, members: &[TextTy::Union(&U2_U), TextTy::Float(64), TextTy::Upper(Ws::Replace)] };
impl Modeled for U3 {
    fn to_val(&self) -> Val {
        match self {
            U3::M0(m) => text_of(0, m),
            U3::M1(m) => text_of(1, m),
            U3::M2(m) => text_of(2, m),
        }
    }
    fn from_val(v: &Val) -> Self {
        let (i, inner) = untext(v);
        match i {
            0 => U3::M0(Modeled::from_val(&inner)),
            1 => U3::M1(Modeled::from_val(&inner)),
            2 => U3::M2(Modeled::from_val(&inner)),
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum U4 {
    M0(u8),
    M1(Color),
}
static U4_U: UnionS = UnionS { ws: Ws::Preserve, members: &[TextTy::Int("u8"), TextTy::Restr(&COLOR_R)] };
impl Modeled for U4 {
    fn to_val(&self) -> Val {
        match self {
            U4::M0(m) => text_of(0, m),
            U4::M1(m) => text_of(1, m),
        }
    }
    fn from_val(v: &Val) -> Self {
        let (i, inner) = untext(v);
        match i {
            0 => U4::M0(Modeled::from_val(&inner)),
            1 => U4::M1(Modeled::from_val(&inner)),
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum Words {
    Plain,
    r#yield,
    r#type,
    #[static_xml(rename = "r#match")]
    V3,
    Été,
    _x1,
}
static WORDS_R: RestrS = RestrS { ws: Ws::Collapse, known: &["Plain", "yield", "type", "r#match", "Été", "_x1"], unknown: false };
impl Modeled for Words {
    fn to_val(&self) -> Val {
        Val::T(match self {
            Words::Plain => "k0".into(),
            Words::r#yield => "k1".into(),
            Words::r#type => "k2".into(),
            Words::V3 => "k3".into(),
            Words::Été => "k4".into(),
            Words::_x1 => "k5".into(),
        })
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::T(s) if s == "k0" => Words::Plain,
            Val::T(s) if s == "k1" => Words::r#yield,
            Val::T(s) if s == "k2" => Words::r#type,
            Val::T(s) if s == "k3" => Words::V3,
            Val::T(s) if s == "k4" => Words::Été,
            Val::T(s) if s == "k5" => Words::_x1,
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Empty {
}
pub static EMPTY_S: StructS = StructS { name: "Empty", root: ("", "Empty"), fields: &[
] };
impl Modeled for Empty {
    fn to_val(&self) -> Val {
        Val::S(vec![])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Empty {  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Basic {
    #[static_xml(attribute)]
    pub id: String,
    #[static_xml(attribute)]
    pub n: Option<i32>,
    pub name: String,
    pub note: Option<String>,
    pub tag: Vec<String>,
}
pub static BASIC_S: StructS = StructS { name: "Basic", root: ("", "Basic"), fields: &[
    FieldS { name: "id", ns: "", local: "id", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "n", ns: "", local: "n", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "name", ns: "", local: "name", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "note", ns: "", local: "note", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "tag", ns: "", local: "tag", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Basic {
    fn to_val(&self) -> Val {
        Val::S(vec![self.id.to_val(), self.n.to_val(), self.name.to_val(), self.note.to_val(), self.tag.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Basic { id: Modeled::from_val(&f[0]), n: Modeled::from_val(&f[1]), name: Modeled::from_val(&f[2]), note: Modeled::from_val(&f[3]), tag: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Nums {
    pub i8: i8,
    pub u8: u8,
    pub i16: i16,
    pub u16: u16,
    pub i32: i32,
    pub u32: u32,
    pub i64: i64,
    pub u64: u64,
    pub i128: i128,
    pub u128: u128,
    pub f32: f32,
    pub f64: f64,
    pub bool: bool,
}
pub static NUMS_S: StructS = StructS { name: "Nums", root: ("", "Nums"), fields: &[
    FieldS { name: "i8", ns: "", local: "i8", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("i8")) },
    FieldS { name: "u8", ns: "", local: "u8", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "i16", ns: "", local: "i16", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("i16")) },
    FieldS { name: "u16", ns: "", local: "u16", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("u16")) },
    FieldS { name: "i32", ns: "", local: "i32", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "u32", ns: "", local: "u32", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("u32")) },
    FieldS { name: "i64", ns: "", local: "i64", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("i64")) },
    FieldS { name: "u64", ns: "", local: "u64", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("u64")) },
    FieldS { name: "i128", ns: "", local: "i128", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("i128")) },
    FieldS { name: "u128", ns: "", local: "u128", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("u128")) },
    FieldS { name: "f32", ns: "", local: "f32", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Float(32)) },
    FieldS { name: "f64", ns: "", local: "f64", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Float(64)) },
    FieldS { name: "bool", ns: "", local: "bool", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Bool) },
] };
impl Modeled for Nums {
    fn to_val(&self) -> Val {
        Val::S(vec![self.i8.to_val(), self.u8.to_val(), self.i16.to_val(), self.u16.to_val(), self.i32.to_val(), self.u32.to_val(), self.i64.to_val(), self.u64.to_val(), self.i128.to_val(), self.u128.to_val(), self.f32.to_val(), self.f64.to_val(), self.bool.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Nums { i8: Modeled::from_val(&f[0]), u8: Modeled::from_val(&f[1]), i16: Modeled::from_val(&f[2]), u16: Modeled::from_val(&f[3]), i32: Modeled::from_val(&f[4]), u32: Modeled::from_val(&f[5]), i64: Modeled::from_val(&f[6]), u64: Modeled::from_val(&f[7]), i128: Modeled::from_val(&f[8]), u128: Modeled::from_val(&f[9]), f32: Modeled::from_val(&f[10]), f64: Modeled::from_val(&f[11]), bool: Modeled::from_val(&f[12]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct AttrNums {
    #[static_xml(attribute)]
    pub i8: i8,
    #[static_xml(attribute)]
    pub u64: u64,
    #[static_xml(attribute)]
    pub i128: i128,
    #[static_xml(attribute)]
    pub f32: f32,
    #[static_xml(attribute)]
    pub f64: f64,
    #[static_xml(attribute)]
    pub bool: bool,
    #[static_xml(attribute)]
    pub o_u8: Option<u8>,
    #[static_xml(attribute)]
    pub o_i64: Option<i64>,
    #[static_xml(attribute)]
    pub o_u128: Option<u128>,
    #[static_xml(attribute)]
    pub o_f64: Option<f64>,
    #[static_xml(attribute)]
    pub o_bool: Option<bool>,
}
pub static ATTRNUMS_S: StructS = StructS { name: "AttrNums", root: ("", "AttrNums"), fields: &[
    FieldS { name: "i8", ns: "", local: "i8", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("i8")) },
    FieldS { name: "u64", ns: "", local: "u64", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("u64")) },
    FieldS { name: "i128", ns: "", local: "i128", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("i128")) },
    FieldS { name: "f32", ns: "", local: "f32", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Float(32)) },
    FieldS { name: "f64", ns: "", local: "f64", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Float(64)) },
    FieldS { name: "bool", ns: "", local: "bool", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Bool) },
    FieldS { name: "o_u8", ns: "", local: "o_u8", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "o_i64", ns: "", local: "o_i64", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i64")) },
    FieldS { name: "o_u128", ns: "", local: "o_u128", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("u128")) },
    FieldS { name: "o_f64", ns: "", local: "o_f64", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Float(64)) },
    FieldS { name: "o_bool", ns: "", local: "o_bool", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Bool) },
] };
impl Modeled for AttrNums {
    fn to_val(&self) -> Val {
        Val::S(vec![self.i8.to_val(), self.u64.to_val(), self.i128.to_val(), self.f32.to_val(), self.f64.to_val(), self.bool.to_val(), self.o_u8.to_val(), self.o_i64.to_val(), self.o_u128.to_val(), self.o_f64.to_val(), self.o_bool.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                AttrNums { i8: Modeled::from_val(&f[0]), u64: Modeled::from_val(&f[1]), i128: Modeled::from_val(&f[2]), f32: Modeled::from_val(&f[3]), f64: Modeled::from_val(&f[4]), bool: Modeled::from_val(&f[5]), o_u8: Modeled::from_val(&f[6]), o_i64: Modeled::from_val(&f[7]), o_u128: Modeled::from_val(&f[8]), o_f64: Modeled::from_val(&f[9]), o_bool: Modeled::from_val(&f[10]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Texts {
    pub hex: HexC,
    pub hexp: Option<HexP>,
    pub up: Vec<UpperR>,
    pub upp: Option<UpperP>,
    pub size: Size,
    pub sizeu: Vec<SizeU>,
    pub color: Color,
    pub coloru: Option<ColorU>,
    pub u1: Vec<U1>,
    pub u2: U2,
    pub u3: Option<U3>,
    pub u4: Vec<U4>,
    pub onlyu: Option<OnlyU>,
}
pub static TEXTS_S: StructS = StructS { name: "Texts", root: ("", "Texts"), fields: &[
    FieldS { name: "hex", ns: "", local: "hex", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Hex(Ws::Collapse)) },
    FieldS { name: "hexp", ns: "", local: "hexp", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Hex(Ws::Preserve)) },
    FieldS { name: "up", ns: "", local: "up", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Upper(Ws::Replace)) },
    FieldS { name: "upp", ns: "", local: "upp", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Upper(Ws::Preserve)) },
    FieldS { name: "size", ns: "", local: "size", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Restr(&SIZE_R)) },
    FieldS { name: "sizeu", ns: "", local: "sizeu", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Restr(&SIZEU_R)) },
    FieldS { name: "color", ns: "", local: "color", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Restr(&COLOR_R)) },
    FieldS { name: "coloru", ns: "", local: "coloru", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Restr(&COLORU_R)) },
    FieldS { name: "u1", ns: "", local: "u1", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Union(&U1_U)) },
    FieldS { name: "u2", ns: "", local: "u2", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Union(&U2_U)) },
    FieldS { name: "u3", ns: "", local: "u3", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Union(&U3_U)) },
    FieldS { name: "u4", ns: "", local: "u4", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Union(&U4_U)) },
    FieldS { name: "onlyu", ns: "", local: "onlyu", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Restr(&ONLYU_R)) },
] };
impl Modeled for Texts {
    fn to_val(&self) -> Val {
        Val::S(vec![self.hex.to_val(), self.hexp.to_val(), self.up.to_val(), self.upp.to_val(), self.size.to_val(), self.sizeu.to_val(), self.color.to_val(), self.coloru.to_val(), self.u1.to_val(), self.u2.to_val(), self.u3.to_val(), self.u4.to_val(), self.onlyu.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Texts { hex: Modeled::from_val(&f[0]), hexp: Modeled::from_val(&f[1]), up: Modeled::from_val(&f[2]), upp: Modeled::from_val(&f[3]), size: Modeled::from_val(&f[4]), sizeu: Modeled::from_val(&f[5]), color: Modeled::from_val(&f[6]), coloru: Modeled::from_val(&f[7]), u1: Modeled::from_val(&f[8]), u2: Modeled::from_val(&f[9]), u3: Modeled::from_val(&f[10]), u4: Modeled::from_val(&f[11]), onlyu: Modeled::from_val(&f[12]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct AttrTexts {
    #[static_xml(attribute)]
    pub hex: HexC,
    #[static_xml(attribute)]
    pub hexp: Option<HexP>,
    #[static_xml(attribute)]
    pub up: UpperR,
    #[static_xml(attribute)]
    pub size: Size,
    #[static_xml(attribute)]
    pub sizeu: Option<SizeU>,
    #[static_xml(attribute)]
    pub color: Color,
    #[static_xml(attribute)]
    pub coloru: ColorU,
    #[static_xml(attribute)]
    pub u1: U1,
    #[static_xml(attribute)]
    pub u2: Option<U2>,
    #[static_xml(attribute)]
    pub u3: U3,
    #[static_xml(attribute)]
    pub u4: Option<U4>,
}
pub static ATTRTEXTS_S: StructS = StructS { name: "AttrTexts", root: ("", "AttrTexts"), fields: &[
    FieldS { name: "hex", ns: "", local: "hex", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Hex(Ws::Collapse)) },
    FieldS { name: "hexp", ns: "", local: "hexp", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Hex(Ws::Preserve)) },
    FieldS { name: "up", ns: "", local: "up", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Upper(Ws::Replace)) },
    FieldS { name: "size", ns: "", local: "size", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Restr(&SIZE_R)) },
    FieldS { name: "sizeu", ns: "", local: "sizeu", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Restr(&SIZEU_R)) },
    FieldS { name: "color", ns: "", local: "color", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Restr(&COLOR_R)) },
    FieldS { name: "coloru", ns: "", local: "coloru", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Restr(&COLORU_R)) },
    FieldS { name: "u1", ns: "", local: "u1", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Union(&U1_U)) },
    FieldS { name: "u2", ns: "", local: "u2", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Union(&U2_U)) },
    FieldS { name: "u3", ns: "", local: "u3", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Union(&U3_U)) },
    FieldS { name: "u4", ns: "", local: "u4", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Union(&U4_U)) },
] };
impl Modeled for AttrTexts {
    fn to_val(&self) -> Val {
        Val::S(vec![self.hex.to_val(), self.hexp.to_val(), self.up.to_val(), self.size.to_val(), self.sizeu.to_val(), self.color.to_val(), self.coloru.to_val(), self.u1.to_val(), self.u2.to_val(), self.u3.to_val(), self.u4.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                AttrTexts { hex: Modeled::from_val(&f[0]), hexp: Modeled::from_val(&f[1]), up: Modeled::from_val(&f[2]), size: Modeled::from_val(&f[3]), sizeu: Modeled::from_val(&f[4]), color: Modeled::from_val(&f[5]), coloru: Modeled::from_val(&f[6]), u1: Modeled::from_val(&f[7]), u2: Modeled::from_val(&f[8]), u3: Modeled::from_val(&f[9]), u4: Modeled::from_val(&f[10]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Defaults {
    #[static_xml(attribute, default)]
    pub da: i32,
    #[static_xml(attribute, default)]
    pub ds: String,
    #[static_xml(attribute, default)]
    pub dob: Option<bool>,
    #[static_xml(default)]
    pub ea: u64,
    #[static_xml(default)]
    pub es: String,
    #[static_xml(default)]
    pub ev: Vec<i32>,
    #[static_xml(default)]
    pub eo: Option<String>,
    #[static_xml(default)]
    pub f: f64,
}
pub static DEFAULTS_S: StructS = StructS { name: "Defaults", root: ("", "Defaults"), fields: &[
    FieldS { name: "da", ns: "", local: "da", kind: Kind::Attr, card: Card::One, default: Some(|| <i32 as Default>::default().to_val()), ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "ds", ns: "", local: "ds", kind: Kind::Attr, card: Card::One, default: Some(|| <String as Default>::default().to_val()), ty: Ty::Text(TextTy::Str) },
    FieldS { name: "dob", ns: "", local: "dob", kind: Kind::Attr, card: Card::Opt, default: Some(|| <Option<bool> as Default>::default().to_val()), ty: Ty::Text(TextTy::Bool) },
    FieldS { name: "ea", ns: "", local: "ea", kind: Kind::Elem, card: Card::One, default: Some(|| <u64 as Default>::default().to_val()), ty: Ty::Text(TextTy::Int("u64")) },
    FieldS { name: "es", ns: "", local: "es", kind: Kind::Elem, card: Card::One, default: Some(|| <String as Default>::default().to_val()), ty: Ty::Text(TextTy::Str) },
    FieldS { name: "ev", ns: "", local: "ev", kind: Kind::Elem, card: Card::Many, default: Some(|| <Vec<i32> as Default>::default().to_val()), ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "eo", ns: "", local: "eo", kind: Kind::Elem, card: Card::Opt, default: Some(|| <Option<String> as Default>::default().to_val()), ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f", ns: "", local: "f", kind: Kind::Elem, card: Card::One, default: Some(|| <f64 as Default>::default().to_val()), ty: Ty::Text(TextTy::Float(64)) },
] };
impl Modeled for Defaults {
    fn to_val(&self) -> Val {
        Val::S(vec![self.da.to_val(), self.ds.to_val(), self.dob.to_val(), self.ea.to_val(), self.es.to_val(), self.ev.to_val(), self.eo.to_val(), self.f.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Defaults { da: Modeled::from_val(&f[0]), ds: Modeled::from_val(&f[1]), dob: Modeled::from_val(&f[2]), ea: Modeled::from_val(&f[3]), es: Modeled::from_val(&f[4]), ev: Modeled::from_val(&f[5]), eo: Modeled::from_val(&f[6]), f: Modeled::from_val(&f[7]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Nested {
    pub one: Basic,
    pub opt: Option<Basic>,
    pub many: Vec<Basic>,
    #[static_xml(attribute)]
    pub z: Option<String>,
}
pub static NESTED_S: StructS = StructS { name: "Nested", root: ("", "Nested"), fields: &[
    FieldS { name: "one", ns: "", local: "one", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Struct(&BASIC_S) },
    FieldS { name: "opt", ns: "", local: "opt", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&BASIC_S) },
    FieldS { name: "many", ns: "", local: "many", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&BASIC_S) },
    FieldS { name: "z", ns: "", local: "z", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Nested {
    fn to_val(&self) -> Val {
        Val::S(vec![self.one.to_val(), self.opt.to_val(), self.many.to_val(), self.z.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Nested { one: Modeled::from_val(&f[0]), opt: Modeled::from_val(&f[1]), many: Modeled::from_val(&f[2]), z: Modeled::from_val(&f[3]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Tree {
    #[static_xml(attribute)]
    pub label: String,
    pub node: Vec<Tree>,
    pub leaf: Option<String>,
}
pub static TREE_S: StructS = StructS { name: "Tree", root: ("", "Tree"), fields: &[
    FieldS { name: "label", ns: "", local: "label", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "node", ns: "", local: "node", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&TREE_S) },
    FieldS { name: "leaf", ns: "", local: "leaf", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Tree {
    fn to_val(&self) -> Val {
        Val::S(vec![self.label.to_val(), self.node.to_val(), self.leaf.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Tree { label: Modeled::from_val(&f[0]), node: Modeled::from_val(&f[1]), leaf: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(rename = "re-named.root")]
pub struct Ren {
    #[static_xml(rename = "data-x")]
    pub f0: String,
    #[static_xml(rename = "_y")]
    pub f1: Option<String>,
    #[static_xml(rename = "a.b")]
    pub f2: Vec<i32>,
    #[static_xml(attribute, rename = "É")]
    pub f3: Option<String>,
    #[static_xml(attribute, rename = "data-x")]
    pub f4: String,
    #[static_xml(rename = "A.B")]
    pub f5: Option<String>,
    pub _under_: Option<bool>,
    #[static_xml(rename = "self")]
    pub self_: Option<String>,
    pub out: Option<String>,
    pub child: Option<String>,
    pub value: Option<String>,
    #[static_xml(attribute)]
    pub name: Option<String>,
}
pub static REN_S: StructS = StructS { name: "Ren", root: ("", "re-named.root"), fields: &[
    FieldS { name: "f0", ns: "", local: "data-x", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f1", ns: "", local: "_y", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f2", ns: "", local: "a.b", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f3", ns: "", local: "É", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f4", ns: "", local: "data-x", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f5", ns: "", local: "A.B", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "_under_", ns: "", local: "_under_", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Bool) },
    FieldS { name: "self_", ns: "", local: "self", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "out", ns: "", local: "out", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "child", ns: "", local: "child", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "value", ns: "", local: "value", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "name", ns: "", local: "name", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Ren {
    fn to_val(&self) -> Val {
        Val::S(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self._under_.to_val(), self.self_.to_val(), self.out.to_val(), self.child.to_val(), self.value.to_val(), self.name.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Ren { f0: Modeled::from_val(&f[0]), f1: Modeled::from_val(&f[1]), f2: Modeled::from_val(&f[2]), f3: Modeled::from_val(&f[3]), f4: Modeled::from_val(&f[4]), f5: Modeled::from_val(&f[5]), _under_: Modeled::from_val(&f[6]), self_: Modeled::from_val(&f[7]), out: Modeled::from_val(&f[8]), child: Modeled::from_val(&f[9]), value: Modeled::from_val(&f[10]), name: Modeled::from_val(&f[11]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Order {
    pub z: Option<String>,
    pub a: Option<String>,
    pub m: Vec<String>,
    pub Z: Option<String>,
    #[static_xml(attribute)]
    pub zz: Option<String>,
    #[static_xml(attribute)]
    pub aa: Option<String>,
    #[static_xml(rename = "aa")]
    pub aa2: Option<String>,
}
pub static ORDER_S: StructS = StructS { name: "Order", root: ("", "Order"), fields: &[
    FieldS { name: "z", ns: "", local: "z", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "a", ns: "", local: "a", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "m", ns: "", local: "m", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "Z", ns: "", local: "Z", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "zz", ns: "", local: "zz", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "aa", ns: "", local: "aa", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "aa2", ns: "", local: "aa", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Order {
    fn to_val(&self) -> Val {
        Val::S(vec![self.z.to_val(), self.a.to_val(), self.m.to_val(), self.Z.to_val(), self.zz.to_val(), self.aa.to_val(), self.aa2.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Order { z: Modeled::from_val(&f[0]), a: Modeled::from_val(&f[1]), m: Modeled::from_val(&f[2]), Z: Modeled::from_val(&f[3]), zz: Modeled::from_val(&f[4]), aa: Modeled::from_val(&f[5]), aa2: Modeled::from_val(&f[6]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: http://example.com/a", prefix = "a")]
pub struct Ns1 {
    #[static_xml(attribute, prefix = "a")]
    pub id: String,
    #[static_xml(attribute, rename = "id")]
    pub id0: Option<String>,
    #[static_xml(prefix = "a")]
    pub x: String,
    pub y: Option<String>,
}
pub static NS1_S: StructS = StructS { name: "Ns1", root: ("http://example.com/a", "Ns1"), fields: &[
    FieldS { name: "id", ns: "http://example.com/a", local: "id", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "id0", ns: "", local: "id", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "x", ns: "http://example.com/a", local: "x", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "y", ns: "", local: "y", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Ns1 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.id.to_val(), self.id0.to_val(), self.x.to_val(), self.y.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Ns1 { id: Modeled::from_val(&f[0]), id0: Modeled::from_val(&f[1]), x: Modeled::from_val(&f[2]), y: Modeled::from_val(&f[3]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: http://example.com/a", namespace = "b: http://example.com/b", prefix = "b", rename = "two")]
pub struct Ns2 {
    #[static_xml(prefix = "a", rename = "v")]
    pub av: String,
    #[static_xml(prefix = "b", rename = "v")]
    pub bv: Vec<String>,
    pub v: Option<i32>,
    #[static_xml(attribute, prefix = "a", rename = "at")]
    pub aat: Option<String>,
    #[static_xml(attribute, prefix = "b", rename = "at")]
    pub bat: Option<String>,
    #[static_xml(attribute)]
    pub at: Option<String>,
}
pub static NS2_S: StructS = StructS { name: "Ns2", root: ("http://example.com/b", "two"), fields: &[
    FieldS { name: "av", ns: "http://example.com/a", local: "v", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "bv", ns: "http://example.com/b", local: "v", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "v", ns: "", local: "v", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "aat", ns: "http://example.com/a", local: "at", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "bat", ns: "http://example.com/b", local: "at", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at", ns: "", local: "at", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Ns2 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.av.to_val(), self.bv.to_val(), self.v.to_val(), self.aat.to_val(), self.bat.to_val(), self.at.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Ns2 { av: Modeled::from_val(&f[0]), bv: Modeled::from_val(&f[1]), v: Modeled::from_val(&f[2]), aat: Modeled::from_val(&f[3]), bat: Modeled::from_val(&f[4]), at: Modeled::from_val(&f[5]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "q: http://e.x/?p=1&q=<2>\"'", prefix = "q")]
pub struct NsAmp {
    #[static_xml(prefix = "q")]
    pub v: String,
    #[static_xml(attribute, prefix = "q")]
    pub w: Option<String>,
    #[static_xml(prefix = "q")]
    pub inner: Option<Ns1>,
}
pub static NSAMP_S: StructS = StructS { name: "NsAmp", root: ("http://e.x/?p=1&q=<2>\"'", "NsAmp"), fields: &[
    FieldS { name: "v", ns: "http://e.x/?p=1&q=<2>\"'", local: "v", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "w", ns: "http://e.x/?p=1&q=<2>\"'", local: "w", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "inner", ns: "http://e.x/?p=1&q=<2>\"'", local: "inner", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&NS1_S) },
] };
impl Modeled for NsAmp {
    fn to_val(&self) -> Val {
        Val::S(vec![self.v.to_val(), self.w.to_val(), self.inner.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                NsAmp { v: Modeled::from_val(&f[0]), w: Modeled::from_val(&f[1]), inner: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: http://example.com/a", namespace = "b: http://example.com/b", prefix = "a")]
pub struct NsClashA {
    #[static_xml(prefix = "a")]
    pub v: Option<String>,
    #[static_xml(attribute, prefix = "b")]
    pub w: Option<String>,
    #[static_xml(prefix = "a")]
    pub other: Vec<NsClashB>,
    #[static_xml(prefix = "b")]
    pub same: Vec<NsClashA>,
}
pub static NSCLASHA_S: StructS = StructS { name: "NsClashA", root: ("http://example.com/a", "NsClashA"), fields: &[
    FieldS { name: "v", ns: "http://example.com/a", local: "v", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "w", ns: "http://example.com/b", local: "w", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "other", ns: "http://example.com/a", local: "other", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&NSCLASHB_S) },
    FieldS { name: "same", ns: "http://example.com/b", local: "same", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&NSCLASHA_S) },
] };
impl Modeled for NsClashA {
    fn to_val(&self) -> Val {
        Val::S(vec![self.v.to_val(), self.w.to_val(), self.other.to_val(), self.same.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                NsClashA { v: Modeled::from_val(&f[0]), w: Modeled::from_val(&f[1]), other: Modeled::from_val(&f[2]), same: Modeled::from_val(&f[3]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: http://example.com/b", namespace = "b: urn:c", prefix = "b")]
pub struct NsClashB {
    #[static_xml(prefix = "a")]
    pub v: Option<String>,
    #[static_xml(attribute, prefix = "b")]
    pub w: Option<String>,
    #[static_xml(prefix = "a")]
    pub other: Vec<NsClashA>,
    #[static_xml(prefix = "b")]
    pub same: Vec<NsClashB>,
}
pub static NSCLASHB_S: StructS = StructS { name: "NsClashB", root: ("urn:c", "NsClashB"), fields: &[
    FieldS { name: "v", ns: "http://example.com/b", local: "v", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "w", ns: "urn:c", local: "w", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "other", ns: "http://example.com/b", local: "other", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&NSCLASHA_S) },
    FieldS { name: "same", ns: "urn:c", local: "same", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&NSCLASHB_S) },
] };
impl Modeled for NsClashB {
    fn to_val(&self) -> Val {
        Val::S(vec![self.v.to_val(), self.w.to_val(), self.other.to_val(), self.same.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                NsClashB { v: Modeled::from_val(&f[0]), w: Modeled::from_val(&f[1]), other: Modeled::from_val(&f[2]), same: Modeled::from_val(&f[3]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: urn:c", namespace = "a2: http://example.com/b", namespace = "ns1: http://example.com/default", namespace = "ns2: http://example.com/e", prefix = "a2")]
pub struct NsNum {
    #[static_xml(prefix = "a2")]
    pub v: Option<String>,
    #[static_xml(prefix = "a")]
    pub u: Option<NsClashB>,
    #[static_xml(attribute, prefix = "ns1")]
    pub w: Option<String>,
}
pub static NSNUM_S: StructS = StructS { name: "NsNum", root: ("http://example.com/b", "NsNum"), fields: &[
    FieldS { name: "v", ns: "http://example.com/b", local: "v", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "u", ns: "urn:c", local: "u", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&NSCLASHB_S) },
    FieldS { name: "w", ns: "http://example.com/default", local: "w", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for NsNum {
    fn to_val(&self) -> Val {
        Val::S(vec![self.v.to_val(), self.u.to_val(), self.w.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                NsNum { v: Modeled::from_val(&f[0]), u: Modeled::from_val(&f[1]), w: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "xml: http://www.w3.org/XML/1998/namespace")]
pub struct XmlAttr {
    #[static_xml(attribute, prefix = "xml")]
    pub lang: Option<String>,
    #[static_xml(attribute, prefix = "xml")]
    pub space: String,
    pub p: Vec<Ns1>,
    #[static_xml(attribute, rename = "lang")]
    pub lang0: Option<String>,
}
pub static XMLATTR_S: StructS = StructS { name: "XmlAttr", root: ("", "XmlAttr"), fields: &[
    FieldS { name: "lang", ns: "http://www.w3.org/XML/1998/namespace", local: "lang", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "space", ns: "http://www.w3.org/XML/1998/namespace", local: "space", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "p", ns: "", local: "p", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&NS1_S) },
    FieldS { name: "lang0", ns: "", local: "lang", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for XmlAttr {
    fn to_val(&self) -> Val {
        Val::S(vec![self.lang.to_val(), self.space.to_val(), self.p.to_val(), self.lang0.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                XmlAttr { lang: Modeled::from_val(&f[0]), space: Modeled::from_val(&f[1]), p: Modeled::from_val(&f[2]), lang0: Modeled::from_val(&f[3]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "p: http://example.com/a", namespace = "r: http://example.com/a", prefix = "r")]
pub struct SameUrl {
    #[static_xml(prefix = "p")]
    pub v: Option<String>,
    #[static_xml(prefix = "r")]
    pub w: Option<String>,
    #[static_xml(attribute, prefix = "p")]
    pub x: Option<String>,
    #[static_xml(attribute, prefix = "r")]
    pub y: Option<String>,
    #[static_xml(prefix = "p")]
    pub inner: Vec<Ns1>,
}
pub static SAMEURL_S: StructS = StructS { name: "SameUrl", root: ("http://example.com/a", "SameUrl"), fields: &[
    FieldS { name: "v", ns: "http://example.com/a", local: "v", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "w", ns: "http://example.com/a", local: "w", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "x", ns: "http://example.com/a", local: "x", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "y", ns: "http://example.com/a", local: "y", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "inner", ns: "http://example.com/a", local: "inner", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&NS1_S) },
] };
impl Modeled for SameUrl {
    fn to_val(&self) -> Val {
        Val::S(vec![self.v.to_val(), self.w.to_val(), self.x.to_val(), self.y.to_val(), self.inner.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                SameUrl { v: Modeled::from_val(&f[0]), w: Modeled::from_val(&f[1]), x: Modeled::from_val(&f[2]), y: Modeled::from_val(&f[3]), inner: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: http://example.com/a", namespace = "b: http://example.com/b", namespace = "c: urn:c", prefix = "c")]
pub struct MultiNs {
    #[static_xml(attribute, prefix = "a")]
    pub z: Option<String>,
    #[static_xml(attribute, prefix = "b")]
    pub a: Option<String>,
    #[static_xml(attribute)]
    pub m: Option<i32>,
    #[static_xml(attribute, prefix = "c")]
    pub b: Option<String>,
    #[static_xml(attribute, prefix = "c")]
    pub zz: Option<String>,
    #[static_xml(attribute)]
    pub aa: Option<String>,
    #[static_xml(attribute, prefix = "a")]
    pub y: String,
    #[static_xml(prefix = "a", rename = "z")]
    pub ez: Option<String>,
    #[static_xml(prefix = "b", rename = "a")]
    pub ea: Vec<String>,
    #[static_xml(rename = "m")]
    pub em: Option<i32>,
    #[static_xml(prefix = "c", rename = "b")]
    pub eb: Option<Ns1>,
    #[static_xml(rename = "zz")]
    pub ezz: Option<String>,
    #[static_xml(prefix = "a", rename = "aa")]
    pub eaa: Vec<i32>,
}
pub static MULTINS_S: StructS = StructS { name: "MultiNs", root: ("urn:c", "MultiNs"), fields: &[
    FieldS { name: "z", ns: "http://example.com/a", local: "z", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "a", ns: "http://example.com/b", local: "a", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "m", ns: "", local: "m", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "b", ns: "urn:c", local: "b", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "zz", ns: "urn:c", local: "zz", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "aa", ns: "", local: "aa", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "y", ns: "http://example.com/a", local: "y", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "ez", ns: "http://example.com/a", local: "z", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "ea", ns: "http://example.com/b", local: "a", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "em", ns: "", local: "m", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "eb", ns: "urn:c", local: "b", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&NS1_S) },
    FieldS { name: "ezz", ns: "", local: "zz", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "eaa", ns: "http://example.com/a", local: "aa", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("i32")) },
] };
impl Modeled for MultiNs {
    fn to_val(&self) -> Val {
        Val::S(vec![self.z.to_val(), self.a.to_val(), self.m.to_val(), self.b.to_val(), self.zz.to_val(), self.aa.to_val(), self.y.to_val(), self.ez.to_val(), self.ea.to_val(), self.em.to_val(), self.eb.to_val(), self.ezz.to_val(), self.eaa.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                MultiNs { z: Modeled::from_val(&f[0]), a: Modeled::from_val(&f[1]), m: Modeled::from_val(&f[2]), b: Modeled::from_val(&f[3]), zz: Modeled::from_val(&f[4]), aa: Modeled::from_val(&f[5]), y: Modeled::from_val(&f[6]), ez: Modeled::from_val(&f[7]), ea: Modeled::from_val(&f[8]), em: Modeled::from_val(&f[9]), eb: Modeled::from_val(&f[10]), ezz: Modeled::from_val(&f[11]), eaa: Modeled::from_val(&f[12]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Wide {
    pub f0: Option<i32>,
    pub f1: Vec<u8>,
    pub f2: Option<String>,
    pub f3: Option<i32>,
    pub f4: Vec<u8>,
    pub f5: Option<String>,
    pub f6: Option<i32>,
    pub f7: Vec<u8>,
    pub f8: Option<String>,
    pub f9: Option<i32>,
    pub f10: Vec<u8>,
    pub f11: Option<String>,
    pub f12: Option<i32>,
    pub f13: Vec<u8>,
    pub f14: Option<String>,
    pub f15: Option<i32>,
    pub f16: Vec<u8>,
    pub f17: Option<String>,
    pub f18: Option<i32>,
    pub f19: Vec<u8>,
    pub f20: Option<String>,
    pub f21: Option<i32>,
    pub f22: Vec<u8>,
    pub f23: Option<String>,
    pub f24: Option<i32>,
    pub f25: Vec<u8>,
    pub f26: Option<String>,
    pub f27: Option<i32>,
    pub f28: Vec<u8>,
    pub f29: Option<String>,
    pub f30: Option<i32>,
    pub f31: Vec<u8>,
    pub f32: Option<String>,
    pub f33: Option<i32>,
    pub f34: Vec<u8>,
    pub f35: Option<String>,
    pub f36: Option<i32>,
    pub f37: Vec<u8>,
    pub f38: Option<String>,
    pub f39: Option<i32>,
    pub f40: Vec<u8>,
    pub f41: Option<String>,
    pub f42: Option<i32>,
    pub f43: Vec<u8>,
    pub f44: Option<String>,
    pub f45: Option<i32>,
    pub f46: Vec<u8>,
    pub f47: Option<String>,
    pub f48: Option<i32>,
    pub f49: Vec<u8>,
    pub f50: Option<String>,
    pub f51: Option<i32>,
    pub f52: Vec<u8>,
    pub f53: Option<String>,
    pub f54: Option<i32>,
    pub f55: Vec<u8>,
    pub f56: Option<String>,
    pub f57: Option<i32>,
    pub f58: Vec<u8>,
    pub f59: Option<String>,
    pub f60: Option<i32>,
    pub f61: Vec<u8>,
    pub f62: Option<String>,
    pub f63: Option<i32>,
    pub f64: Vec<u8>,
    pub f65: Option<String>,
    pub f66: Option<i32>,
    pub f67: Vec<u8>,
    pub f68: Option<String>,
    pub f69: Option<i32>,
    #[static_xml(attribute, rename = "f0")]
    pub at0: Option<i32>,
    #[static_xml(attribute, rename = "f1")]
    pub at1: Option<String>,
    #[static_xml(attribute, rename = "f2")]
    pub at2: Option<i32>,
    #[static_xml(attribute, rename = "f3")]
    pub at3: Option<String>,
    #[static_xml(attribute, rename = "f4")]
    pub at4: Option<i32>,
    #[static_xml(attribute, rename = "f5")]
    pub at5: Option<String>,
    #[static_xml(attribute, rename = "f6")]
    pub at6: Option<i32>,
    #[static_xml(attribute, rename = "f7")]
    pub at7: Option<String>,
    #[static_xml(attribute, rename = "f8")]
    pub at8: Option<i32>,
    #[static_xml(attribute, rename = "f9")]
    pub at9: Option<String>,
    #[static_xml(attribute, rename = "f10")]
    pub at10: Option<i32>,
    #[static_xml(attribute, rename = "f11")]
    pub at11: Option<String>,
    #[static_xml(attribute, rename = "f12")]
    pub at12: Option<i32>,
    #[static_xml(attribute, rename = "f13")]
    pub at13: Option<String>,
    #[static_xml(attribute, rename = "f14")]
    pub at14: Option<i32>,
    #[static_xml(attribute, rename = "f15")]
    pub at15: Option<String>,
    #[static_xml(attribute, rename = "f16")]
    pub at16: Option<i32>,
    #[static_xml(attribute, rename = "f17")]
    pub at17: Option<String>,
    #[static_xml(attribute, rename = "f18")]
    pub at18: Option<i32>,
    #[static_xml(attribute, rename = "f19")]
    pub at19: Option<String>,
    #[static_xml(attribute, rename = "f20")]
    pub at20: Option<i32>,
    #[static_xml(attribute, rename = "f21")]
    pub at21: Option<String>,
    #[static_xml(attribute, rename = "f22")]
    pub at22: Option<i32>,
    #[static_xml(attribute, rename = "f23")]
    pub at23: Option<String>,
    #[static_xml(attribute, rename = "f24")]
    pub at24: Option<i32>,
    #[static_xml(attribute, rename = "f25")]
    pub at25: Option<String>,
    #[static_xml(attribute, rename = "f26")]
    pub at26: Option<i32>,
    #[static_xml(attribute, rename = "f27")]
    pub at27: Option<String>,
    #[static_xml(attribute, rename = "f28")]
    pub at28: Option<i32>,
    #[static_xml(attribute, rename = "f29")]
    pub at29: Option<String>,
    #[static_xml(attribute, rename = "f30")]
    pub at30: Option<i32>,
    #[static_xml(attribute, rename = "f31")]
    pub at31: Option<String>,
    #[static_xml(attribute, rename = "f32")]
    pub at32: Option<i32>,
    #[static_xml(attribute, rename = "f33")]
    pub at33: Option<String>,
    #[static_xml(attribute, rename = "f34")]
    pub at34: Option<i32>,
    #[static_xml(attribute, rename = "f35")]
    pub at35: Option<String>,
    pub last: String,
    #[static_xml(attribute)]
    pub must: bool,
}
pub static WIDE_S: StructS = StructS { name: "Wide", root: ("", "Wide"), fields: &[
    FieldS { name: "f0", ns: "", local: "f0", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f1", ns: "", local: "f1", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f2", ns: "", local: "f2", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f3", ns: "", local: "f3", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f4", ns: "", local: "f4", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f5", ns: "", local: "f5", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f6", ns: "", local: "f6", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f7", ns: "", local: "f7", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f8", ns: "", local: "f8", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f9", ns: "", local: "f9", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f10", ns: "", local: "f10", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f11", ns: "", local: "f11", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f12", ns: "", local: "f12", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f13", ns: "", local: "f13", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f14", ns: "", local: "f14", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f15", ns: "", local: "f15", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f16", ns: "", local: "f16", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f17", ns: "", local: "f17", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f18", ns: "", local: "f18", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f19", ns: "", local: "f19", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f20", ns: "", local: "f20", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f21", ns: "", local: "f21", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f22", ns: "", local: "f22", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f23", ns: "", local: "f23", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f24", ns: "", local: "f24", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f25", ns: "", local: "f25", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f26", ns: "", local: "f26", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f27", ns: "", local: "f27", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f28", ns: "", local: "f28", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f29", ns: "", local: "f29", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f30", ns: "", local: "f30", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f31", ns: "", local: "f31", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f32", ns: "", local: "f32", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f33", ns: "", local: "f33", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f34", ns: "", local: "f34", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f35", ns: "", local: "f35", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f36", ns: "", local: "f36", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f37", ns: "", local: "f37", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f38", ns: "", local: "f38", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f39", ns: "", local: "f39", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f40", ns: "", local: "f40", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f41", ns: "", local: "f41", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f42", ns: "", local: "f42", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f43", ns: "", local: "f43", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f44", ns: "", local: "f44", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f45", ns: "", local: "f45", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f46", ns: "", local: "f46", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f47", ns: "", local: "f47", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f48", ns: "", local: "f48", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f49", ns: "", local: "f49", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f50", ns: "", local: "f50", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f51", ns: "", local: "f51", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f52", ns: "", local: "f52", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f53", ns: "", local: "f53", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f54", ns: "", local: "f54", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f55", ns: "", local: "f55", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f56", ns: "", local: "f56", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f57", ns: "", local: "f57", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f58", ns: "", local: "f58", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f59", ns: "", local: "f59", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f60", ns: "", local: "f60", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f61", ns: "", local: "f61", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f62", ns: "", local: "f62", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f63", ns: "", local: "f63", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f64", ns: "", local: "f64", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f65", ns: "", local: "f65", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f66", ns: "", local: "f66", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "f67", ns: "", local: "f67", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "f68", ns: "", local: "f68", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f69", ns: "", local: "f69", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at0", ns: "", local: "f0", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at1", ns: "", local: "f1", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at2", ns: "", local: "f2", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at3", ns: "", local: "f3", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at4", ns: "", local: "f4", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at5", ns: "", local: "f5", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at6", ns: "", local: "f6", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at7", ns: "", local: "f7", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at8", ns: "", local: "f8", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at9", ns: "", local: "f9", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at10", ns: "", local: "f10", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at11", ns: "", local: "f11", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at12", ns: "", local: "f12", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at13", ns: "", local: "f13", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at14", ns: "", local: "f14", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at15", ns: "", local: "f15", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at16", ns: "", local: "f16", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at17", ns: "", local: "f17", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at18", ns: "", local: "f18", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at19", ns: "", local: "f19", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at20", ns: "", local: "f20", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at21", ns: "", local: "f21", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at22", ns: "", local: "f22", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at23", ns: "", local: "f23", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at24", ns: "", local: "f24", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at25", ns: "", local: "f25", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at26", ns: "", local: "f26", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at27", ns: "", local: "f27", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at28", ns: "", local: "f28", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at29", ns: "", local: "f29", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at30", ns: "", local: "f30", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at31", ns: "", local: "f31", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at32", ns: "", local: "f32", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at33", ns: "", local: "f33", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "at34", ns: "", local: "f34", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "at35", ns: "", local: "f35", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "last", ns: "", local: "last", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "must", ns: "", local: "must", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Bool) },
] };
impl Modeled for Wide {
    fn to_val(&self) -> Val {
        Val::S(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val(), self.f21.to_val(), self.f22.to_val(), self.f23.to_val(), self.f24.to_val(), self.f25.to_val(), self.f26.to_val(), self.f27.to_val(), self.f28.to_val(), self.f29.to_val(), self.f30.to_val(), self.f31.to_val(), self.f32.to_val(), self.f33.to_val(), self.f34.to_val(), self.f35.to_val(), self.f36.to_val(), self.f37.to_val(), self.f38.to_val(), self.f39.to_val(), self.f40.to_val(), self.f41.to_val(), self.f42.to_val(), self.f43.to_val(), self.f44.to_val(), self.f45.to_val(), self.f46.to_val(), self.f47.to_val(), self.f48.to_val(), self.f49.to_val(), self.f50.to_val(), self.f51.to_val(), self.f52.to_val(), self.f53.to_val(), self.f54.to_val(), self.f55.to_val(), self.f56.to_val(), self.f57.to_val(), self.f58.to_val(), self.f59.to_val(), self.f60.to_val(), self.f61.to_val(), self.f62.to_val(), self.f63.to_val(), self.f64.to_val(), self.f65.to_val(), self.f66.to_val(), self.f67.to_val(), self.f68.to_val(), self.f69.to_val(), self.at0.to_val(), self.at1.to_val(), self.at2.to_val(), self.at3.to_val(), self.at4.to_val(), self.at5.to_val(), self.at6.to_val(), self.at7.to_val(), self.at8.to_val(), self.at9.to_val(), self.at10.to_val(), self.at11.to_val(), self.at12.to_val(), self.at13.to_val(), self.at14.to_val(), self.at15.to_val(), self.at16.to_val(), self.at17.to_val(), self.at18.to_val(), self.at19.to_val(), self.at20.to_val(), self.at21.to_val(), self.at22.to_val(), self.at23.to_val(), self.at24.to_val(), self.at25.to_val(), self.at26.to_val(), self.at27.to_val(), self.at28.to_val(), self.at29.to_val(), self.at30.to_val(), self.at31.to_val(), self.at32.to_val(), self.at33.to_val(), self.at34.to_val(), self.at35.to_val(), self.last.to_val(), self.must.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Wide { f0: Modeled::from_val(&f[0]), f1: Modeled::from_val(&f[1]), f2: Modeled::from_val(&f[2]), f3: Modeled::from_val(&f[3]), f4: Modeled::from_val(&f[4]), f5: Modeled::from_val(&f[5]), f6: Modeled::from_val(&f[6]), f7: Modeled::from_val(&f[7]), f8: Modeled::from_val(&f[8]), f9: Modeled::from_val(&f[9]), f10: Modeled::from_val(&f[10]), f11: Modeled::from_val(&f[11]), f12: Modeled::from_val(&f[12]), f13: Modeled::from_val(&f[13]), f14: Modeled::from_val(&f[14]), f15: Modeled::from_val(&f[15]), f16: Modeled::from_val(&f[16]), f17: Modeled::from_val(&f[17]), f18: Modeled::from_val(&f[18]), f19: Modeled::from_val(&f[19]), f20: Modeled::from_val(&f[20]), f21: Modeled::from_val(&f[21]), f22: Modeled::from_val(&f[22]), f23: Modeled::from_val(&f[23]), f24: Modeled::from_val(&f[24]), f25: Modeled::from_val(&f[25]), f26: Modeled::from_val(&f[26]), f27: Modeled::from_val(&f[27]), f28: Modeled::from_val(&f[28]), f29: Modeled::from_val(&f[29]), f30: Modeled::from_val(&f[30]), f31: Modeled::from_val(&f[31]), f32: Modeled::from_val(&f[32]), f33: Modeled::from_val(&f[33]), f34: Modeled::from_val(&f[34]), f35: Modeled::from_val(&f[35]), f36: Modeled::from_val(&f[36]), f37: Modeled::from_val(&f[37]), f38: Modeled::from_val(&f[38]), f39: Modeled::from_val(&f[39]), f40: Modeled::from_val(&f[40]), f41: Modeled::from_val(&f[41]), f42: Modeled::from_val(&f[42]), f43: Modeled::from_val(&f[43]), f44: Modeled::from_val(&f[44]), f45: Modeled::from_val(&f[45]), f46: Modeled::from_val(&f[46]), f47: Modeled::from_val(&f[47]), f48: Modeled::from_val(&f[48]), f49: Modeled::from_val(&f[49]), f50: Modeled::from_val(&f[50]), f51: Modeled::from_val(&f[51]), f52: Modeled::from_val(&f[52]), f53: Modeled::from_val(&f[53]), f54: Modeled::from_val(&f[54]), f55: Modeled::from_val(&f[55]), f56: Modeled::from_val(&f[56]), f57: Modeled::from_val(&f[57]), f58: Modeled::from_val(&f[58]), f59: Modeled::from_val(&f[59]), f60: Modeled::from_val(&f[60]), f61: Modeled::from_val(&f[61]), f62: Modeled::from_val(&f[62]), f63: Modeled::from_val(&f[63]), f64: Modeled::from_val(&f[64]), f65: Modeled::from_val(&f[65]), f66: Modeled::from_val(&f[66]), f67: Modeled::from_val(&f[67]), f68: Modeled::from_val(&f[68]), f69: Modeled::from_val(&f[69]), at0: Modeled::from_val(&f[70]), at1: Modeled::from_val(&f[71]), at2: Modeled::from_val(&f[72]), at3: Modeled::from_val(&f[73]), at4: Modeled::from_val(&f[74]), at5: Modeled::from_val(&f[75]), at6: Modeled::from_val(&f[76]), at7: Modeled::from_val(&f[77]), at8: Modeled::from_val(&f[78]), at9: Modeled::from_val(&f[79]), at10: Modeled::from_val(&f[80]), at11: Modeled::from_val(&f[81]), at12: Modeled::from_val(&f[82]), at13: Modeled::from_val(&f[83]), at14: Modeled::from_val(&f[84]), at15: Modeled::from_val(&f[85]), at16: Modeled::from_val(&f[86]), at17: Modeled::from_val(&f[87]), at18: Modeled::from_val(&f[88]), at19: Modeled::from_val(&f[89]), at20: Modeled::from_val(&f[90]), at21: Modeled::from_val(&f[91]), at22: Modeled::from_val(&f[92]), at23: Modeled::from_val(&f[93]), at24: Modeled::from_val(&f[94]), at25: Modeled::from_val(&f[95]), at26: Modeled::from_val(&f[96]), at27: Modeled::from_val(&f[97]), at28: Modeled::from_val(&f[98]), at29: Modeled::from_val(&f[99]), at30: Modeled::from_val(&f[100]), at31: Modeled::from_val(&f[101]), at32: Modeled::from_val(&f[102]), at33: Modeled::from_val(&f[103]), at34: Modeled::from_val(&f[104]), at35: Modeled::from_val(&f[105]), last: Modeled::from_val(&f[106]), must: Modeled::from_val(&f[107]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "d: http://example.com/default", prefix = "d")]
pub struct DLeaf {
    #[static_xml(prefix = "d")]
    pub v: Option<String>,
    #[static_xml(attribute, prefix = "d")]
    pub w: Option<String>,
    #[static_xml(attribute)]
    pub plain: Option<String>,
}
pub static DLEAF_S: StructS = StructS { name: "DLeaf", root: ("http://example.com/default", "DLeaf"), fields: &[
    FieldS { name: "v", ns: "http://example.com/default", local: "v", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "w", ns: "http://example.com/default", local: "w", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "plain", ns: "", local: "plain", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for DLeaf {
    fn to_val(&self) -> Val {
        Val::S(vec![self.v.to_val(), self.w.to_val(), self.plain.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                DLeaf { v: Modeled::from_val(&f[0]), w: Modeled::from_val(&f[1]), plain: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(default_namespace = "http://example.com/e", prefix = "")]
pub struct DOther {
    #[static_xml(prefix = "")]
    pub v: Vec<String>,
    #[static_xml(prefix = "")]
    pub leaf: Option<DLeaf>,
}
pub static DOTHER_S: StructS = StructS { name: "DOther", root: ("http://example.com/e", "DOther"), fields: &[
    FieldS { name: "v", ns: "http://example.com/e", local: "v", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "leaf", ns: "http://example.com/e", local: "leaf", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&DLEAF_S) },
] };
impl Modeled for DOther {
    fn to_val(&self) -> Val {
        Val::S(vec![self.v.to_val(), self.leaf.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                DOther { v: Modeled::from_val(&f[0]), leaf: Modeled::from_val(&f[1]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(default_namespace = "http://example.com/default", prefix = "")]
pub struct DRoot {
    #[static_xml(prefix = "")]
    pub p: String,
    #[static_xml(attribute)]
    pub x: Option<String>,
    #[static_xml(attribute, prefix = "")]
    pub y: Option<String>,
    #[static_xml(prefix = "")]
    pub leaf: Vec<DLeaf>,
    #[static_xml(prefix = "")]
    pub other: Option<DOther>,
}
pub static DROOT_S: StructS = StructS { name: "DRoot", root: ("http://example.com/default", "DRoot"), fields: &[
    FieldS { name: "p", ns: "http://example.com/default", local: "p", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "x", ns: "", local: "x", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "y", ns: "http://example.com/default", local: "y", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "leaf", ns: "http://example.com/default", local: "leaf", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&DLEAF_S) },
    FieldS { name: "other", ns: "http://example.com/default", local: "other", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&DOTHER_S) },
] };
impl Modeled for DRoot {
    fn to_val(&self) -> Val {
        Val::S(vec![self.p.to_val(), self.x.to_val(), self.y.to_val(), self.leaf.to_val(), self.other.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                DRoot { p: Modeled::from_val(&f[0]), x: Modeled::from_val(&f[1]), y: Modeled::from_val(&f[2]), leaf: Modeled::from_val(&f[3]), other: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "e: http://example.com/e", default_namespace = "http://example.com/default", prefix = "")]
pub struct DMix {
    #[static_xml(prefix = "e")]
    pub o: Vec<DOther>,
    #[static_xml(prefix = "")]
    pub r: Option<DRoot>,
    #[static_xml(attribute, prefix = "e")]
    pub y: Option<String>,
}
pub static DMIX_S: StructS = StructS { name: "DMix", root: ("http://example.com/default", "DMix"), fields: &[
    FieldS { name: "o", ns: "http://example.com/e", local: "o", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&DOTHER_S) },
    FieldS { name: "r", ns: "http://example.com/default", local: "r", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&DROOT_S) },
    FieldS { name: "y", ns: "http://example.com/e", local: "y", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for DMix {
    fn to_val(&self) -> Val {
        Val::S(vec![self.o.to_val(), self.r.to_val(), self.y.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                DMix { o: Modeled::from_val(&f[0]), r: Modeled::from_val(&f[1]), y: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub enum Choice {
    Alpha(String),
    Beta(Vec<i32>),
    Gamma(Option<Basic>),
    Delta(Basic),
    Unit,
}
pub static CHOICE_S: EnumS = EnumS { name: "Choice", root: ("", "Choice"), variants: &[
    VariantS { name: "Alpha", ns: "", local: "Alpha", payload: Some((Card::One, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "Beta", ns: "", local: "Beta", payload: Some((Card::Many, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "Gamma", ns: "", local: "Gamma", payload: Some((Card::Opt, Ty::Struct(&BASIC_S))), skip: false },
    VariantS { name: "Delta", ns: "", local: "Delta", payload: Some((Card::One, Ty::Struct(&BASIC_S))), skip: false },
    VariantS { name: "Unit", ns: "", local: "Unit", payload: None, skip: false },
] };
impl Modeled for Choice {
    fn to_val(&self) -> Val {
        match self {
            Choice::Alpha(f) => Val::E(0, Box::new(f.to_val())),
            Choice::Beta(f) => Val::E(1, Box::new(f.to_val())),
            Choice::Gamma(f) => Val::E(2, Box::new(f.to_val())),
            Choice::Delta(f) => Val::E(3, Box::new(f.to_val())),
            Choice::Unit => Val::E(4, Box::new(Val::U)),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => Choice::Alpha(Modeled::from_val(p)),
                1 => Choice::Beta(Modeled::from_val(p)),
                2 => Choice::Gamma(Modeled::from_val(p)),
                3 => Choice::Delta(Modeled::from_val(p)),
                4 => Choice::Unit,
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub enum Choice2 {
    Zed(u32),
    Eta(Vec<Basic>),
    #[static_xml(rename = "a-y-e")]
    Aye,
}
pub static CHOICE2_S: EnumS = EnumS { name: "Choice2", root: ("", "Choice2"), variants: &[
    VariantS { name: "Zed", ns: "", local: "Zed", payload: Some((Card::One, Ty::Text(TextTy::Int("u32")))), skip: false },
    VariantS { name: "Eta", ns: "", local: "Eta", payload: Some((Card::Many, Ty::Struct(&BASIC_S))), skip: false },
    VariantS { name: "Aye", ns: "", local: "a-y-e", payload: None, skip: false },
] };
impl Modeled for Choice2 {
    fn to_val(&self) -> Val {
        match self {
            Choice2::Zed(f) => Val::E(0, Box::new(f.to_val())),
            Choice2::Eta(f) => Val::E(1, Box::new(f.to_val())),
            Choice2::Aye => Val::E(2, Box::new(Val::U)),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => Choice2::Zed(Modeled::from_val(p)),
                1 => Choice2::Eta(Modeled::from_val(p)),
                2 => Choice2::Aye,
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: http://example.com/a", namespace = "b: http://example.com/b", prefix = "a", rename = "choice")]
pub enum ChoiceNs {
    #[static_xml(prefix = "a", rename = "v")]
    AV(String),
    #[static_xml(prefix = "b", rename = "v")]
    BV(Vec<Ns1>),
    #[static_xml(rename = "v")]
    PV(i32),
    #[static_xml(prefix = "b", rename = "u")]
    BU,
}
pub static CHOICENS_S: EnumS = EnumS { name: "ChoiceNs", root: ("http://example.com/a", "choice"), variants: &[
    VariantS { name: "AV", ns: "http://example.com/a", local: "v", payload: Some((Card::One, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "BV", ns: "http://example.com/b", local: "v", payload: Some((Card::Many, Ty::Struct(&NS1_S))), skip: false },
    VariantS { name: "PV", ns: "", local: "v", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "BU", ns: "http://example.com/b", local: "u", payload: None, skip: false },
] };
impl Modeled for ChoiceNs {
    fn to_val(&self) -> Val {
        match self {
            ChoiceNs::AV(f) => Val::E(0, Box::new(f.to_val())),
            ChoiceNs::BV(f) => Val::E(1, Box::new(f.to_val())),
            ChoiceNs::PV(f) => Val::E(2, Box::new(f.to_val())),
            ChoiceNs::BU => Val::E(3, Box::new(Val::U)),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => ChoiceNs::AV(Modeled::from_val(p)),
                1 => ChoiceNs::BV(Modeled::from_val(p)),
                2 => ChoiceNs::PV(Modeled::from_val(p)),
                3 => ChoiceNs::BU,
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub enum ChoiceSkip {
    #[static_xml(skip)]
    Hidden(u32),
    Seen(Vec<String>),
    #[static_xml(skip)]
    Never,
    One(i32),
}
pub static CHOICESKIP_S: EnumS = EnumS { name: "ChoiceSkip", root: ("", "ChoiceSkip"), variants: &[
    VariantS { name: "Hidden", ns: "", local: "Hidden", payload: Some((Card::One, Ty::Text(TextTy::Int("u32")))), skip: true },
    VariantS { name: "Seen", ns: "", local: "Seen", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "Never", ns: "", local: "Never", payload: None, skip: true },
    VariantS { name: "One", ns: "", local: "One", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
] };
impl Modeled for ChoiceSkip {
    fn to_val(&self) -> Val {
        match self {
            ChoiceSkip::Hidden(f) => Val::E(0, Box::new(f.to_val())),
            ChoiceSkip::Seen(f) => Val::E(1, Box::new(f.to_val())),
            ChoiceSkip::Never => Val::E(2, Box::new(Val::U)),
            ChoiceSkip::One(f) => Val::E(3, Box::new(f.to_val())),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => ChoiceSkip::Hidden(Modeled::from_val(p)),
                1 => ChoiceSkip::Seen(Modeled::from_val(p)),
                2 => ChoiceSkip::Never,
                3 => ChoiceSkip::One(Modeled::from_val(p)),
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: http://example.com/a", namespace = "b: http://example.com/b", namespace = "c: urn:c", prefix = "b", rename = "multi")]
pub enum ChoiceMulti {
    #[static_xml(prefix = "a", rename = "z")]
    AZ(String),
    #[static_xml(prefix = "b", rename = "a")]
    BA(Vec<i32>),
    #[static_xml(rename = "m")]
    PM,
    #[static_xml(prefix = "c", rename = "b")]
    CB(Basic),
    #[static_xml(rename = "aa")]
    PA(Option<i32>),
    #[static_xml(prefix = "a", rename = "zz")]
    AZZ,
    #[static_xml(prefix = "c", rename = "a")]
    CA(i32),
}
pub static CHOICEMULTI_S: EnumS = EnumS { name: "ChoiceMulti", root: ("http://example.com/b", "multi"), variants: &[
    VariantS { name: "AZ", ns: "http://example.com/a", local: "z", payload: Some((Card::One, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "BA", ns: "http://example.com/b", local: "a", payload: Some((Card::Many, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "PM", ns: "", local: "m", payload: None, skip: false },
    VariantS { name: "CB", ns: "urn:c", local: "b", payload: Some((Card::One, Ty::Struct(&BASIC_S))), skip: false },
    VariantS { name: "PA", ns: "", local: "aa", payload: Some((Card::Opt, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "AZZ", ns: "http://example.com/a", local: "zz", payload: None, skip: false },
    VariantS { name: "CA", ns: "urn:c", local: "a", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
] };
impl Modeled for ChoiceMulti {
    fn to_val(&self) -> Val {
        match self {
            ChoiceMulti::AZ(f) => Val::E(0, Box::new(f.to_val())),
            ChoiceMulti::BA(f) => Val::E(1, Box::new(f.to_val())),
            ChoiceMulti::PM => Val::E(2, Box::new(Val::U)),
            ChoiceMulti::CB(f) => Val::E(3, Box::new(f.to_val())),
            ChoiceMulti::PA(f) => Val::E(4, Box::new(f.to_val())),
            ChoiceMulti::AZZ => Val::E(5, Box::new(Val::U)),
            ChoiceMulti::CA(f) => Val::E(6, Box::new(f.to_val())),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => ChoiceMulti::AZ(Modeled::from_val(p)),
                1 => ChoiceMulti::BA(Modeled::from_val(p)),
                2 => ChoiceMulti::PM,
                3 => ChoiceMulti::CB(Modeled::from_val(p)),
                4 => ChoiceMulti::PA(Modeled::from_val(p)),
                5 => ChoiceMulti::AZZ,
                6 => ChoiceMulti::CA(Modeled::from_val(p)),
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub enum ChoiceWide {
    V0,
    V1(i32),
    V2(Vec<String>),
    V3,
    V4(i32),
    V5(Vec<String>),
    V6,
    V7(i32),
    V8(Vec<String>),
    V9,
    V10(i32),
    V11(Vec<String>),
    V12,
    V13(i32),
    V14(Vec<String>),
    V15,
    V16(i32),
    V17(Vec<String>),
    V18,
    V19(i32),
    V20(Vec<String>),
    V21,
    V22(i32),
    V23(Vec<String>),
    V24,
    V25(i32),
    V26(Vec<String>),
    V27,
    V28(i32),
    V29(Vec<String>),
    V30,
    V31(i32),
    V32(Vec<String>),
    V33,
    V34(i32),
    V35(Vec<String>),
    V36,
    V37(i32),
    V38(Vec<String>),
    V39,
}
pub static CHOICEWIDE_S: EnumS = EnumS { name: "ChoiceWide", root: ("", "ChoiceWide"), variants: &[
    VariantS { name: "V0", ns: "", local: "V0", payload: None, skip: false },
    VariantS { name: "V1", ns: "", local: "V1", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V2", ns: "", local: "V2", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V3", ns: "", local: "V3", payload: None, skip: false },
    VariantS { name: "V4", ns: "", local: "V4", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V5", ns: "", local: "V5", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V6", ns: "", local: "V6", payload: None, skip: false },
    VariantS { name: "V7", ns: "", local: "V7", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V8", ns: "", local: "V8", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V9", ns: "", local: "V9", payload: None, skip: false },
    VariantS { name: "V10", ns: "", local: "V10", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V11", ns: "", local: "V11", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V12", ns: "", local: "V12", payload: None, skip: false },
    VariantS { name: "V13", ns: "", local: "V13", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V14", ns: "", local: "V14", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V15", ns: "", local: "V15", payload: None, skip: false },
    VariantS { name: "V16", ns: "", local: "V16", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V17", ns: "", local: "V17", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V18", ns: "", local: "V18", payload: None, skip: false },
    VariantS { name: "V19", ns: "", local: "V19", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V20", ns: "", local: "V20", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V21", ns: "", local: "V21", payload: None, skip: false },
    VariantS { name: "V22", ns: "", local: "V22", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V23", ns: "", local: "V23", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V24", ns: "", local: "V24", payload: None, skip: false },
    VariantS { name: "V25", ns: "", local: "V25", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V26", ns: "", local: "V26", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V27", ns: "", local: "V27", payload: None, skip: false },
    VariantS { name: "V28", ns: "", local: "V28", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V29", ns: "", local: "V29", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V30", ns: "", local: "V30", payload: None, skip: false },
    VariantS { name: "V31", ns: "", local: "V31", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V32", ns: "", local: "V32", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V33", ns: "", local: "V33", payload: None, skip: false },
    VariantS { name: "V34", ns: "", local: "V34", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V35", ns: "", local: "V35", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V36", ns: "", local: "V36", payload: None, skip: false },
    VariantS { name: "V37", ns: "", local: "V37", payload: Some((Card::One, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "V38", ns: "", local: "V38", payload: Some((Card::Many, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "V39", ns: "", local: "V39", payload: None, skip: false },
] };
impl Modeled for ChoiceWide {
    fn to_val(&self) -> Val {
        match self {
            ChoiceWide::V0 => Val::E(0, Box::new(Val::U)),
            ChoiceWide::V1(f) => Val::E(1, Box::new(f.to_val())),
            ChoiceWide::V2(f) => Val::E(2, Box::new(f.to_val())),
            ChoiceWide::V3 => Val::E(3, Box::new(Val::U)),
            ChoiceWide::V4(f) => Val::E(4, Box::new(f.to_val())),
            ChoiceWide::V5(f) => Val::E(5, Box::new(f.to_val())),
            ChoiceWide::V6 => Val::E(6, Box::new(Val::U)),
            ChoiceWide::V7(f) => Val::E(7, Box::new(f.to_val())),
            ChoiceWide::V8(f) => Val::E(8, Box::new(f.to_val())),
            ChoiceWide::V9 => Val::E(9, Box::new(Val::U)),
            ChoiceWide::V10(f) => Val::E(10, Box::new(f.to_val())),
            ChoiceWide::V11(f) => Val::E(11, Box::new(f.to_val())),
            ChoiceWide::V12 => Val::E(12, Box::new(Val::U)),
            ChoiceWide::V13(f) => Val::E(13, Box::new(f.to_val())),
            ChoiceWide::V14(f) => Val::E(14, Box::new(f.to_val())),
            ChoiceWide::V15 => Val::E(15, Box::new(Val::U)),
            ChoiceWide::V16(f) => Val::E(16, Box::new(f.to_val())),
            ChoiceWide::V17(f) => Val::E(17, Box::new(f.to_val())),
            ChoiceWide::V18 => Val::E(18, Box::new(Val::U)),
            ChoiceWide::V19(f) => Val::E(19, Box::new(f.to_val())),
            ChoiceWide::V20(f) => Val::E(20, Box::new(f.to_val())),
            ChoiceWide::V21 => Val::E(21, Box::new(Val::U)),
            ChoiceWide::V22(f) => Val::E(22, Box::new(f.to_val())),
            ChoiceWide::V23(f) => Val::E(23, Box::new(f.to_val())),
            ChoiceWide::V24 => Val::E(24, Box::new(Val::U)),
            ChoiceWide::V25(f) => Val::E(25, Box::new(f.to_val())),
            ChoiceWide::V26(f) => Val::E(26, Box::new(f.to_val())),
            ChoiceWide::V27 => Val::E(27, Box::new(Val::U)),
            ChoiceWide::V28(f) => Val::E(28, Box::new(f.to_val())),
            ChoiceWide::V29(f) => Val::E(29, Box::new(f.to_val())),
            ChoiceWide::V30 => Val::E(30, Box::new(Val::U)),
            ChoiceWide::V31(f) => Val::E(31, Box::new(f.to_val())),
            ChoiceWide::V32(f) => Val::E(32, Box::new(f.to_val())),
            ChoiceWide::V33 => Val::E(33, Box::new(Val::U)),
            ChoiceWide::V34(f) => Val::E(34, Box::new(f.to_val())),
            ChoiceWide::V35(f) => Val::E(35, Box::new(f.to_val())),
            ChoiceWide::V36 => Val::E(36, Box::new(Val::U)),
            ChoiceWide::V37(f) => Val::E(37, Box::new(f.to_val())),
            ChoiceWide::V38(f) => Val::E(38, Box::new(f.to_val())),
            ChoiceWide::V39 => Val::E(39, Box::new(Val::U)),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => ChoiceWide::V0,
                1 => ChoiceWide::V1(Modeled::from_val(p)),
                2 => ChoiceWide::V2(Modeled::from_val(p)),
                3 => ChoiceWide::V3,
                4 => ChoiceWide::V4(Modeled::from_val(p)),
                5 => ChoiceWide::V5(Modeled::from_val(p)),
                6 => ChoiceWide::V6,
                7 => ChoiceWide::V7(Modeled::from_val(p)),
                8 => ChoiceWide::V8(Modeled::from_val(p)),
                9 => ChoiceWide::V9,
                10 => ChoiceWide::V10(Modeled::from_val(p)),
                11 => ChoiceWide::V11(Modeled::from_val(p)),
                12 => ChoiceWide::V12,
                13 => ChoiceWide::V13(Modeled::from_val(p)),
                14 => ChoiceWide::V14(Modeled::from_val(p)),
                15 => ChoiceWide::V15,
                16 => ChoiceWide::V16(Modeled::from_val(p)),
                17 => ChoiceWide::V17(Modeled::from_val(p)),
                18 => ChoiceWide::V18,
                19 => ChoiceWide::V19(Modeled::from_val(p)),
                20 => ChoiceWide::V20(Modeled::from_val(p)),
                21 => ChoiceWide::V21,
                22 => ChoiceWide::V22(Modeled::from_val(p)),
                23 => ChoiceWide::V23(Modeled::from_val(p)),
                24 => ChoiceWide::V24,
                25 => ChoiceWide::V25(Modeled::from_val(p)),
                26 => ChoiceWide::V26(Modeled::from_val(p)),
                27 => ChoiceWide::V27,
                28 => ChoiceWide::V28(Modeled::from_val(p)),
                29 => ChoiceWide::V29(Modeled::from_val(p)),
                30 => ChoiceWide::V30,
                31 => ChoiceWide::V31(Modeled::from_val(p)),
                32 => ChoiceWide::V32(Modeled::from_val(p)),
                33 => ChoiceWide::V33,
                34 => ChoiceWide::V34(Modeled::from_val(p)),
                35 => ChoiceWide::V35(Modeled::from_val(p)),
                36 => ChoiceWide::V36,
                37 => ChoiceWide::V37(Modeled::from_val(p)),
                38 => ChoiceWide::V38(Modeled::from_val(p)),
                39 => ChoiceWide::V39,
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: http://example.com/a", namespace = "b: http://example.com/b", namespace = "c: urn:c", prefix = "a")]
pub struct FlatMulti {
    #[static_xml(flatten)]
    pub c: ChoiceMulti,
    #[static_xml(attribute, prefix = "c")]
    pub z: Option<String>,
    #[static_xml(attribute)]
    pub a: Option<String>,
    #[static_xml(prefix = "c", rename = "z")]
    pub ez: Option<String>,
    #[static_xml(prefix = "a", rename = "a")]
    pub ea: Option<String>,
    #[static_xml(flatten)]
    pub w: ChoiceWide,
}
pub static FLATMULTI_S: StructS = StructS { name: "FlatMulti", root: ("http://example.com/a", "FlatMulti"), fields: &[
    FieldS { name: "c", ns: "", local: "c", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICEMULTI_S) },
    FieldS { name: "z", ns: "urn:c", local: "z", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "a", ns: "", local: "a", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "ez", ns: "urn:c", local: "z", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "ea", ns: "http://example.com/a", local: "a", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "w", ns: "", local: "w", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICEWIDE_S) },
] };
impl Modeled for FlatMulti {
    fn to_val(&self) -> Val {
        Val::S(vec![self.c.to_val(), self.z.to_val(), self.a.to_val(), self.ez.to_val(), self.ea.to_val(), self.w.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                FlatMulti { c: Modeled::from_val(&f[0]), z: Modeled::from_val(&f[1]), a: Modeled::from_val(&f[2]), ez: Modeled::from_val(&f[3]), ea: Modeled::from_val(&f[4]), w: Modeled::from_val(&f[5]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct FlatE {
    pub fixed: String,
    #[static_xml(flatten)]
    pub choice: Choice,
    #[static_xml(attribute)]
    pub id: Option<i32>,
}
pub static FLATE_S: StructS = StructS { name: "FlatE", root: ("", "FlatE"), fields: &[
    FieldS { name: "fixed", ns: "", local: "fixed", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "choice", ns: "", local: "choice", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICE_S) },
    FieldS { name: "id", ns: "", local: "id", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
] };
impl Modeled for FlatE {
    fn to_val(&self) -> Val {
        Val::S(vec![self.fixed.to_val(), self.choice.to_val(), self.id.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                FlatE { fixed: Modeled::from_val(&f[0]), choice: Modeled::from_val(&f[1]), id: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct FlatE2 {
    #[static_xml(flatten)]
    pub first: Choice,
    pub mid: Vec<String>,
    #[static_xml(flatten)]
    pub second: Choice2,
}
pub static FLATE2_S: StructS = StructS { name: "FlatE2", root: ("", "FlatE2"), fields: &[
    FieldS { name: "first", ns: "", local: "first", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICE_S) },
    FieldS { name: "mid", ns: "", local: "mid", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "second", ns: "", local: "second", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICE2_S) },
] };
impl Modeled for FlatE2 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.first.to_val(), self.mid.to_val(), self.second.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                FlatE2 { first: Modeled::from_val(&f[0]), mid: Modeled::from_val(&f[1]), second: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: urn:c", namespace = "c: http://example.com/default", prefix = "a")]
pub struct FlatNs {
    #[static_xml(attribute, prefix = "a")]
    pub w: Option<String>,
    #[static_xml(flatten)]
    pub c: ChoiceNs,
    #[static_xml(prefix = "c")]
    pub v: Option<String>,
}
pub static FLATNS_S: StructS = StructS { name: "FlatNs", root: ("urn:c", "FlatNs"), fields: &[
    FieldS { name: "w", ns: "urn:c", local: "w", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "c", ns: "", local: "c", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICENS_S) },
    FieldS { name: "v", ns: "http://example.com/default", local: "v", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for FlatNs {
    fn to_val(&self) -> Val {
        Val::S(vec![self.w.to_val(), self.c.to_val(), self.v.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                FlatNs { w: Modeled::from_val(&f[0]), c: Modeled::from_val(&f[1]), v: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct FlatSkip {
    pub x: Option<String>,
    #[static_xml(flatten)]
    pub c: ChoiceSkip,
}
pub static FLATSKIP_S: StructS = StructS { name: "FlatSkip", root: ("", "FlatSkip"), fields: &[
    FieldS { name: "x", ns: "", local: "x", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "c", ns: "", local: "c", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICESKIP_S) },
] };
impl Modeled for FlatSkip {
    fn to_val(&self) -> Val {
        Val::S(vec![self.x.to_val(), self.c.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                FlatSkip { x: Modeled::from_val(&f[0]), c: Modeled::from_val(&f[1]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub enum ChoiceLong {
    #[static_xml(rename = "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmx")]
    A(String),
    #[static_xml(rename = "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmy")]
    B(Option<String>),
    #[static_xml(rename = "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm")]
    C,
}
pub static CHOICELONG_S: EnumS = EnumS { name: "ChoiceLong", root: ("", "ChoiceLong"), variants: &[
    VariantS { name: "A", ns: "", local: "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmx", payload: Some((Card::One, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "B", ns: "", local: "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmy", payload: Some((Card::Opt, Ty::Text(TextTy::Str))), skip: false },
    VariantS { name: "C", ns: "", local: "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm", payload: None, skip: false },
] };
impl Modeled for ChoiceLong {
    fn to_val(&self) -> Val {
        match self {
            ChoiceLong::A(f) => Val::E(0, Box::new(f.to_val())),
            ChoiceLong::B(f) => Val::E(1, Box::new(f.to_val())),
            ChoiceLong::C => Val::E(2, Box::new(Val::U)),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => ChoiceLong::A(Modeled::from_val(p)),
                1 => ChoiceLong::B(Modeled::from_val(p)),
                2 => ChoiceLong::C,
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Deep {
    pub f: Vec<FlatE>,
    pub c: Option<Choice>,
    pub t: Option<Tree>,
    pub ns: Vec<FlatNs>,
    pub cs: Vec<ChoiceNs>,
    pub f2: Option<FlatE2>,
    pub sk: Vec<FlatSkip>,
}
pub static DEEP_S: StructS = StructS { name: "Deep", root: ("", "Deep"), fields: &[
    FieldS { name: "f", ns: "", local: "f", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&FLATE_S) },
    FieldS { name: "c", ns: "", local: "c", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Enum(&CHOICE_S) },
    FieldS { name: "t", ns: "", local: "t", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&TREE_S) },
    FieldS { name: "ns", ns: "", local: "ns", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&FLATNS_S) },
    FieldS { name: "cs", ns: "", local: "cs", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Enum(&CHOICENS_S) },
    FieldS { name: "f2", ns: "", local: "f2", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&FLATE2_S) },
    FieldS { name: "sk", ns: "", local: "sk", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&FLATSKIP_S) },
] };
impl Modeled for Deep {
    fn to_val(&self) -> Val {
        Val::S(vec![self.f.to_val(), self.c.to_val(), self.t.to_val(), self.ns.to_val(), self.cs.to_val(), self.f2.to_val(), self.sk.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Deep { f: Modeled::from_val(&f[0]), c: Modeled::from_val(&f[1]), t: Modeled::from_val(&f[2]), ns: Modeled::from_val(&f[3]), cs: Modeled::from_val(&f[4]), f2: Modeled::from_val(&f[5]), sk: Modeled::from_val(&f[6]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(rename = "choice-raw")]
pub enum ChoiceRaw {
    r#impl(Words),
    r#loop(Vec<i32>),
    r#fn,
    #[static_xml(rename = "where.")]
    r#where(Option<String>),
}
pub static CHOICERAW_S: EnumS = EnumS { name: "ChoiceRaw", root: ("", "choice-raw"), variants: &[
    VariantS { name: "impl", ns: "", local: "impl", payload: Some((Card::One, Ty::Text(TextTy::Restr(&WORDS_R)))), skip: false },
    VariantS { name: "loop", ns: "", local: "loop", payload: Some((Card::Many, Ty::Text(TextTy::Int("i32")))), skip: false },
    VariantS { name: "fn", ns: "", local: "fn", payload: None, skip: false },
    VariantS { name: "where", ns: "", local: "where.", payload: Some((Card::Opt, Ty::Text(TextTy::Str))), skip: false },
] };
impl Modeled for ChoiceRaw {
    fn to_val(&self) -> Val {
        match self {
            ChoiceRaw::r#impl(f) => Val::E(0, Box::new(f.to_val())),
            ChoiceRaw::r#loop(f) => Val::E(1, Box::new(f.to_val())),
            ChoiceRaw::r#fn => Val::E(2, Box::new(Val::U)),
            ChoiceRaw::r#where(f) => Val::E(3, Box::new(f.to_val())),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => ChoiceRaw::r#impl(Modeled::from_val(p)),
                1 => ChoiceRaw::r#loop(Modeled::from_val(p)),
                2 => ChoiceRaw::r#fn,
                3 => ChoiceRaw::r#where(Modeled::from_val(p)),
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct r#Raw {
    #[static_xml(attribute)]
    pub r#fn: Option<String>,
    #[static_xml(attribute, default)]
    pub r#in: i32,
    #[static_xml(attribute)]
    pub r#ref: Words,
    pub r#type: String,
    pub r#struct: Vec<Words>,
    pub r#move: Option<i32>,
    #[static_xml(default)]
    pub r#use: u8,
    #[static_xml(flatten)]
    pub r#enum: ChoiceRaw,
}
pub static RAW_S: StructS = StructS { name: "Raw", root: ("", "Raw"), fields: &[
    FieldS { name: "fn", ns: "", local: "fn", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "in", ns: "", local: "in", kind: Kind::Attr, card: Card::One, default: Some(|| <i32 as Default>::default().to_val()), ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "ref", ns: "", local: "ref", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Restr(&WORDS_R)) },
    FieldS { name: "type", ns: "", local: "type", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "struct", ns: "", local: "struct", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Restr(&WORDS_R)) },
    FieldS { name: "move", ns: "", local: "move", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "use", ns: "", local: "use", kind: Kind::Elem, card: Card::One, default: Some(|| <u8 as Default>::default().to_val()), ty: Ty::Text(TextTy::Int("u8")) },
    FieldS { name: "enum", ns: "", local: "enum", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICERAW_S) },
] };
impl Modeled for r#Raw {
    fn to_val(&self) -> Val {
        Val::S(vec![self.r#fn.to_val(), self.r#in.to_val(), self.r#ref.to_val(), self.r#type.to_val(), self.r#struct.to_val(), self.r#move.to_val(), self.r#use.to_val(), self.r#enum.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                r#Raw { r#fn: Modeled::from_val(&f[0]), r#in: Modeled::from_val(&f[1]), r#ref: Modeled::from_val(&f[2]), r#type: Modeled::from_val(&f[3]), r#struct: Modeled::from_val(&f[4]), r#move: Modeled::from_val(&f[5]), r#use: Modeled::from_val(&f[6]), r#enum: Modeled::from_val(&f[7]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "r: http://example.com/b")]
pub struct r#struct {
    pub r#struct: Vec<r#struct>,
    #[static_xml(attribute, rename = "struct")]
    pub r#struct_: Option<String>,
    pub r#match: Option<r#Raw>,
    #[static_xml(prefix = "r")]
    pub r#else: Option<ChoiceRaw>,
}
pub static STRUCT_S: StructS = StructS { name: "struct", root: ("", "struct"), fields: &[
    FieldS { name: "struct", ns: "", local: "struct", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&STRUCT_S) },
    FieldS { name: "struct_", ns: "", local: "struct", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "match", ns: "", local: "match", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&RAW_S) },
    FieldS { name: "else", ns: "http://example.com/b", local: "else", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Enum(&CHOICERAW_S) },
] };
impl Modeled for r#struct {
    fn to_val(&self) -> Val {
        Val::S(vec![self.r#struct.to_val(), self.r#struct_.to_val(), self.r#match.to_val(), self.r#else.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                r#struct { r#struct: Modeled::from_val(&f[0]), r#struct_: Modeled::from_val(&f[1]), r#match: Modeled::from_val(&f[2]), r#else: Modeled::from_val(&f[3]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "http://example.com/e", prefix = "")]
pub struct DBare {
    #[static_xml(prefix = "")]
    pub v: Vec<String>,
    #[static_xml(prefix = "")]
    pub leaf: Option<DLeaf>,
    #[static_xml(attribute, prefix = "")]
    pub y: Option<String>,
}
pub static DBARE_S: StructS = StructS { name: "DBare", root: ("http://example.com/e", "DBare"), fields: &[
    FieldS { name: "v", ns: "http://example.com/e", local: "v", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "leaf", ns: "http://example.com/e", local: "leaf", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&DLEAF_S) },
    FieldS { name: "y", ns: "http://example.com/e", local: "y", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for DBare {
    fn to_val(&self) -> Val {
        Val::S(vec![self.v.to_val(), self.leaf.to_val(), self.y.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                DBare { v: Modeled::from_val(&f[0]), leaf: Modeled::from_val(&f[1]), y: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "  e :  http://example.com/e  ", default_namespace = "  http://example.com/b ", prefix = "")]
pub struct DSpaced {
    #[static_xml(prefix = "")]
    pub v: Vec<String>,
    #[static_xml(prefix = "")]
    pub bare: Option<DBare>,
    #[static_xml(prefix = "e")]
    pub w: Vec<DOther>,
    #[static_xml(attribute, prefix = "e")]
    pub y: Option<String>,
}
pub static DSPACED_S: StructS = StructS { name: "DSpaced", root: ("http://example.com/b", "DSpaced"), fields: &[
    FieldS { name: "v", ns: "http://example.com/b", local: "v", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "bare", ns: "http://example.com/b", local: "bare", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&DBARE_S) },
    FieldS { name: "w", ns: "http://example.com/e", local: "w", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&DOTHER_S) },
    FieldS { name: "y", ns: "http://example.com/e", local: "y", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for DSpaced {
    fn to_val(&self) -> Val {
        Val::S(vec![self.v.to_val(), self.bare.to_val(), self.w.to_val(), self.y.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                DSpaced { v: Modeled::from_val(&f[0]), bare: Modeled::from_val(&f[1]), w: Modeled::from_val(&f[2]), y: Modeled::from_val(&f[3]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
#[static_xml(namespace = "a: http://example.com/a")]
pub struct LongNames {
    #[static_xml(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnna")]
    pub a: Option<String>,
    #[static_xml(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnb")]
    pub b: Vec<String>,
    #[static_xml(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub c: Option<String>,
    #[static_xml(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub d: Option<String>,
    #[static_xml(attribute, rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnna")]
    pub e: Option<String>,
    #[static_xml(attribute, rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnb")]
    pub f: Option<String>,
    #[static_xml(attribute, prefix = "a", rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub g: Option<i32>,
    #[static_xml(flatten)]
    pub h: ChoiceLong,
}
pub static LONGNAMES_S: StructS = StructS { name: "LongNames", root: ("", "LongNames"), fields: &[
    FieldS { name: "a", ns: "", local: "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnna", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "b", ns: "", local: "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnb", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "c", ns: "", local: "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "d", ns: "", local: "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "e", ns: "", local: "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnna", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f", ns: "", local: "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnb", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "g", ns: "http://example.com/a", local: "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Int("i32")) },
    FieldS { name: "h", ns: "", local: "h", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICELONG_S) },
] };
impl Modeled for LongNames {
    fn to_val(&self) -> Val {
        Val::S(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.g.to_val(), self.h.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                LongNames { a: Modeled::from_val(&f[0]), b: Modeled::from_val(&f[1]), c: Modeled::from_val(&f[2]), d: Modeled::from_val(&f[3]), e: Modeled::from_val(&f[4]), f: Modeled::from_val(&f[5]), g: Modeled::from_val(&f[6]), h: Modeled::from_val(&f[7]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub enum TokEnum {
    A(Tok),
    B(Vec<Tok>),
    O(Option<Tok>),
    U,
}
pub static TOKENUM_S: EnumS = EnumS { name: "TokEnum", root: ("", "TokEnum"), variants: &[
    VariantS { name: "A", ns: "", local: "A", payload: Some((Card::One, Ty::Text(TextTy::Tok))), skip: false },
    VariantS { name: "B", ns: "", local: "B", payload: Some((Card::Many, Ty::Text(TextTy::Tok))), skip: false },
    VariantS { name: "O", ns: "", local: "O", payload: Some((Card::Opt, Ty::Text(TextTy::Tok))), skip: false },
    VariantS { name: "U", ns: "", local: "U", payload: None, skip: false },
] };
impl Modeled for TokEnum {
    fn to_val(&self) -> Val {
        match self {
            TokEnum::A(f) => Val::E(0, Box::new(f.to_val())),
            TokEnum::B(f) => Val::E(1, Box::new(f.to_val())),
            TokEnum::O(f) => Val::E(2, Box::new(f.to_val())),
            TokEnum::U => Val::E(3, Box::new(Val::U)),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => TokEnum::A(Modeled::from_val(p)),
                1 => TokEnum::B(Modeled::from_val(p)),
                2 => TokEnum::O(Modeled::from_val(p)),
                3 => TokEnum::U,
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub enum TokEnum2 {
    X(Vec<Tok>),
    Y(Tok),
}
pub static TOKENUM2_S: EnumS = EnumS { name: "TokEnum2", root: ("", "TokEnum2"), variants: &[
    VariantS { name: "X", ns: "", local: "X", payload: Some((Card::Many, Ty::Text(TextTy::Tok))), skip: false },
    VariantS { name: "Y", ns: "", local: "Y", payload: Some((Card::One, Ty::Text(TextTy::Tok))), skip: false },
] };
impl Modeled for TokEnum2 {
    fn to_val(&self) -> Val {
        match self {
            TokEnum2::X(f) => Val::E(0, Box::new(f.to_val())),
            TokEnum2::Y(f) => Val::E(1, Box::new(f.to_val())),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => TokEnum2::X(Modeled::from_val(p)),
                1 => TokEnum2::Y(Modeled::from_val(p)),
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct TokBox {
    #[static_xml(attribute)]
    pub a: Tok,
    #[static_xml(attribute)]
    pub b: Option<Tok>,
    pub c: Tok,
    pub d: Vec<Tok>,
    pub e: Option<Tok>,
}
pub static TOKBOX_S: StructS = StructS { name: "TokBox", root: ("", "TokBox"), fields: &[
    FieldS { name: "a", ns: "", local: "a", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "b", ns: "", local: "b", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "c", ns: "", local: "c", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "d", ns: "", local: "d", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "e", ns: "", local: "e", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Tok) },
] };
impl Modeled for TokBox {
    fn to_val(&self) -> Val {
        Val::S(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                TokBox { a: Modeled::from_val(&f[0]), b: Modeled::from_val(&f[1]), c: Modeled::from_val(&f[2]), d: Modeled::from_val(&f[3]), e: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct TokNest {
    pub head: Tok,
    pub inner: TokBox,
    pub many: Vec<TokBox>,
    pub tail: Option<TokBox>,
    pub last: Tok,
}
pub static TOKNEST_S: StructS = StructS { name: "TokNest", root: ("", "TokNest"), fields: &[
    FieldS { name: "head", ns: "", local: "head", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "inner", ns: "", local: "inner", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Struct(&TOKBOX_S) },
    FieldS { name: "many", ns: "", local: "many", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&TOKBOX_S) },
    FieldS { name: "tail", ns: "", local: "tail", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&TOKBOX_S) },
    FieldS { name: "last", ns: "", local: "last", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Tok) },
] };
impl Modeled for TokNest {
    fn to_val(&self) -> Val {
        Val::S(vec![self.head.to_val(), self.inner.to_val(), self.many.to_val(), self.tail.to_val(), self.last.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                TokNest { head: Modeled::from_val(&f[0]), inner: Modeled::from_val(&f[1]), many: Modeled::from_val(&f[2]), tail: Modeled::from_val(&f[3]), last: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub enum TokBig {
    N(TokNest),
    L(Vec<TokBox>),
    T(Tok),
}
pub static TOKBIG_S: EnumS = EnumS { name: "TokBig", root: ("", "TokBig"), variants: &[
    VariantS { name: "N", ns: "", local: "N", payload: Some((Card::One, Ty::Struct(&TOKNEST_S))), skip: false },
    VariantS { name: "L", ns: "", local: "L", payload: Some((Card::Many, Ty::Struct(&TOKBOX_S))), skip: false },
    VariantS { name: "T", ns: "", local: "T", payload: Some((Card::One, Ty::Text(TextTy::Tok))), skip: false },
] };
impl Modeled for TokBig {
    fn to_val(&self) -> Val {
        match self {
            TokBig::N(f) => Val::E(0, Box::new(f.to_val())),
            TokBig::L(f) => Val::E(1, Box::new(f.to_val())),
            TokBig::T(f) => Val::E(2, Box::new(f.to_val())),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
                0 => TokBig::N(Modeled::from_val(p)),
                1 => TokBig::L(Modeled::from_val(p)),
                2 => TokBig::T(Modeled::from_val(p)),
                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct TokFlat {
    #[static_xml(attribute)]
    pub a: Tok,
    #[static_xml(flatten)]
    pub e: TokEnum,
    pub z: Tok,
}
pub static TOKFLAT_S: StructS = StructS { name: "TokFlat", root: ("", "TokFlat"), fields: &[
    FieldS { name: "a", ns: "", local: "a", kind: Kind::Attr, card: Card::One, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "e", ns: "", local: "e", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&TOKENUM_S) },
    FieldS { name: "z", ns: "", local: "z", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Tok) },
] };
impl Modeled for TokFlat {
    fn to_val(&self) -> Val {
        Val::S(vec![self.a.to_val(), self.e.to_val(), self.z.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                TokFlat { a: Modeled::from_val(&f[0]), e: Modeled::from_val(&f[1]), z: Modeled::from_val(&f[2]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct TokFlat2 {
    #[static_xml(flatten)]
    pub e1: TokEnum,
    pub m: Vec<Tok>,
    #[static_xml(flatten)]
    pub e2: TokEnum2,
    #[static_xml(attribute)]
    pub q: Option<Tok>,
    pub s: String,
}
pub static TOKFLAT2_S: StructS = StructS { name: "TokFlat2", root: ("", "TokFlat2"), fields: &[
    FieldS { name: "e1", ns: "", local: "e1", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&TOKENUM_S) },
    FieldS { name: "m", ns: "", local: "m", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "e2", ns: "", local: "e2", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&TOKENUM2_S) },
    FieldS { name: "q", ns: "", local: "q", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "s", ns: "", local: "s", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for TokFlat2 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.e1.to_val(), self.m.to_val(), self.e2.to_val(), self.q.to_val(), self.s.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                TokFlat2 { e1: Modeled::from_val(&f[0]), m: Modeled::from_val(&f[1]), e2: Modeled::from_val(&f[2]), q: Modeled::from_val(&f[3]), s: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct TokDef {
    #[static_xml(attribute, default)]
    pub a: Tok,
    #[static_xml(default)]
    pub b: Tok,
    #[static_xml(default)]
    pub c: Vec<Tok>,
    pub req: Tok,
    #[static_xml(attribute, default)]
    pub o: Option<Tok>,
}
pub static TOKDEF_S: StructS = StructS { name: "TokDef", root: ("", "TokDef"), fields: &[
    FieldS { name: "a", ns: "", local: "a", kind: Kind::Attr, card: Card::One, default: Some(|| <Tok as Default>::default().to_val()), ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "b", ns: "", local: "b", kind: Kind::Elem, card: Card::One, default: Some(|| <Tok as Default>::default().to_val()), ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "c", ns: "", local: "c", kind: Kind::Elem, card: Card::Many, default: Some(|| <Vec<Tok> as Default>::default().to_val()), ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "req", ns: "", local: "req", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "o", ns: "", local: "o", kind: Kind::Attr, card: Card::Opt, default: Some(|| <Option<Tok> as Default>::default().to_val()), ty: Ty::Text(TextTy::Tok) },
] };
impl Modeled for TokDef {
    fn to_val(&self) -> Val {
        Val::S(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.req.to_val(), self.o.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                TokDef { a: Modeled::from_val(&f[0]), b: Modeled::from_val(&f[1]), c: Modeled::from_val(&f[2]), req: Modeled::from_val(&f[3]), o: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct TokDef2 {
    #[static_xml(attribute, default)]
    pub a: Tok,
    #[static_xml(flatten)]
    pub e: TokEnum2,
    #[static_xml(default)]
    pub b: Tok,
    pub v: Vec<TokDef>,
    pub req: Tok,
    #[static_xml(default)]
    pub l: Tok,
}
pub static TOKDEF2_S: StructS = StructS { name: "TokDef2", root: ("", "TokDef2"), fields: &[
    FieldS { name: "a", ns: "", local: "a", kind: Kind::Attr, card: Card::One, default: Some(|| <Tok as Default>::default().to_val()), ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "e", ns: "", local: "e", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&TOKENUM2_S) },
    FieldS { name: "b", ns: "", local: "b", kind: Kind::Elem, card: Card::One, default: Some(|| <Tok as Default>::default().to_val()), ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "v", ns: "", local: "v", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&TOKDEF_S) },
    FieldS { name: "req", ns: "", local: "req", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "l", ns: "", local: "l", kind: Kind::Elem, card: Card::One, default: Some(|| <Tok as Default>::default().to_val()), ty: Ty::Text(TextTy::Tok) },
] };
impl Modeled for TokDef2 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.a.to_val(), self.e.to_val(), self.b.to_val(), self.v.to_val(), self.req.to_val(), self.l.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                TokDef2 { a: Modeled::from_val(&f[0]), e: Modeled::from_val(&f[1]), b: Modeled::from_val(&f[2]), v: Modeled::from_val(&f[3]), req: Modeled::from_val(&f[4]), l: Modeled::from_val(&f[5]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct TokDeep {
    pub f: Vec<TokFlat>,
    pub n: Option<TokNest>,
    pub g: Vec<TokFlat2>,
    pub big: Option<TokBig>,
    pub must: i32,
}
pub static TOKDEEP_S: StructS = StructS { name: "TokDeep", root: ("", "TokDeep"), fields: &[
    FieldS { name: "f", ns: "", local: "f", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&TOKFLAT_S) },
    FieldS { name: "n", ns: "", local: "n", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&TOKNEST_S) },
    FieldS { name: "g", ns: "", local: "g", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&TOKFLAT2_S) },
    FieldS { name: "big", ns: "", local: "big", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Enum(&TOKBIG_S) },
    FieldS { name: "must", ns: "", local: "must", kind: Kind::Elem, card: Card::One, default: None, ty: Ty::Text(TextTy::Int("i32")) },
] };
impl Modeled for TokDeep {
    fn to_val(&self) -> Val {
        Val::S(vec![self.f.to_val(), self.n.to_val(), self.g.to_val(), self.big.to_val(), self.must.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                TokDeep { f: Modeled::from_val(&f[0]), n: Modeled::from_val(&f[1]), g: Modeled::from_val(&f[2]), big: Modeled::from_val(&f[3]), must: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize)]
pub struct Host1 {
    #[static_xml(flatten)]
    pub f: Flat<0>,
}
pub static HOST1_S: StructS = StructS { name: "Host1", root: ("", "Host1"), fields: &[
    FieldS { name: "f", ns: "", local: "f", kind: Kind::FlatScript(0), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Host1 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.f.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Host1 { f: Modeled::from_val(&f[0]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize)]
pub struct Host2 {
    pub x: Option<String>,
    #[static_xml(flatten)]
    pub f0: Flat<0>,
    #[static_xml(flatten)]
    pub f1: Flat<1>,
    #[static_xml(attribute)]
    pub y: Option<String>,
}
pub static HOST2_S: StructS = StructS { name: "Host2", root: ("", "Host2"), fields: &[
    FieldS { name: "x", ns: "", local: "x", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f0", ns: "", local: "f0", kind: Kind::FlatScript(0), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f1", ns: "", local: "f1", kind: Kind::FlatScript(1), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "y", ns: "", local: "y", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Host2 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.x.to_val(), self.f0.to_val(), self.f1.to_val(), self.y.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Host2 { x: Modeled::from_val(&f[0]), f0: Modeled::from_val(&f[1]), f1: Modeled::from_val(&f[2]), y: Modeled::from_val(&f[3]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize)]
pub struct Host3 {
    #[static_xml(flatten)]
    pub f0: Flat<0>,
    #[static_xml(flatten)]
    pub c: Choice,
    #[static_xml(flatten)]
    pub f1: Flat<1>,
    #[static_xml(flatten)]
    pub f2: Flat<2>,
    pub many: Vec<Basic>,
}
pub static HOST3_S: StructS = StructS { name: "Host3", root: ("", "Host3"), fields: &[
    FieldS { name: "f0", ns: "", local: "f0", kind: Kind::FlatScript(0), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "c", ns: "", local: "c", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICE_S) },
    FieldS { name: "f1", ns: "", local: "f1", kind: Kind::FlatScript(1), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f2", ns: "", local: "f2", kind: Kind::FlatScript(2), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "many", ns: "", local: "many", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&BASIC_S) },
] };
impl Modeled for Host3 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.f0.to_val(), self.c.to_val(), self.f1.to_val(), self.f2.to_val(), self.many.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Host3 { f0: Modeled::from_val(&f[0]), c: Modeled::from_val(&f[1]), f1: Modeled::from_val(&f[2]), f2: Modeled::from_val(&f[3]), many: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize)]
#[static_xml(namespace = "a: urn:c", namespace = "c: http://example.com/default")]
pub struct Host4 {
    #[static_xml(flatten)]
    pub c: ChoiceNs,
    #[static_xml(flatten)]
    pub f0: Flat<0>,
    #[static_xml(attribute, prefix = "a")]
    pub w: Option<String>,
    #[static_xml(prefix = "c")]
    pub v: Option<String>,
    #[static_xml(flatten)]
    pub f1: Flat<1>,
}
pub static HOST4_S: StructS = StructS { name: "Host4", root: ("", "Host4"), fields: &[
    FieldS { name: "c", ns: "", local: "c", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICENS_S) },
    FieldS { name: "f0", ns: "", local: "f0", kind: Kind::FlatScript(0), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "w", ns: "urn:c", local: "w", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "v", ns: "http://example.com/default", local: "v", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f1", ns: "", local: "f1", kind: Kind::FlatScript(1), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Host4 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.c.to_val(), self.f0.to_val(), self.w.to_val(), self.v.to_val(), self.f1.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Host4 { c: Modeled::from_val(&f[0]), f0: Modeled::from_val(&f[1]), w: Modeled::from_val(&f[2]), v: Modeled::from_val(&f[3]), f1: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize)]
pub struct Host5 {
    #[static_xml(flatten)]
    pub f0: Flat<0>,
    #[static_xml(flatten)]
    pub f1: Flat<1>,
    #[static_xml(flatten)]
    pub f2: Flat<2>,
    #[static_xml(flatten)]
    pub f3: Flat<3>,
    #[static_xml(flatten)]
    pub c: Choice,
    pub x: Option<String>,
    #[static_xml(flatten)]
    pub f4: Flat<4>,
    #[static_xml(flatten)]
    pub f5: Flat<5>,
    #[static_xml(flatten)]
    pub f6: Flat<6>,
    #[static_xml(flatten)]
    pub f7: Flat<7>,
    #[static_xml(flatten)]
    pub f8: Flat<8>,
}
pub static HOST5_S: StructS = StructS { name: "Host5", root: ("", "Host5"), fields: &[
    FieldS { name: "f0", ns: "", local: "f0", kind: Kind::FlatScript(0), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f1", ns: "", local: "f1", kind: Kind::FlatScript(1), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f2", ns: "", local: "f2", kind: Kind::FlatScript(2), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f3", ns: "", local: "f3", kind: Kind::FlatScript(3), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "c", ns: "", local: "c", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&CHOICE_S) },
    FieldS { name: "x", ns: "", local: "x", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f4", ns: "", local: "f4", kind: Kind::FlatScript(4), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f5", ns: "", local: "f5", kind: Kind::FlatScript(5), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f6", ns: "", local: "f6", kind: Kind::FlatScript(6), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f7", ns: "", local: "f7", kind: Kind::FlatScript(7), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "f8", ns: "", local: "f8", kind: Kind::FlatScript(8), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
] };
impl Modeled for Host5 {
    fn to_val(&self) -> Val {
        Val::S(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.c.to_val(), self.x.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                Host5 { f0: Modeled::from_val(&f[0]), f1: Modeled::from_val(&f[1]), f2: Modeled::from_val(&f[2]), f3: Modeled::from_val(&f[3]), c: Modeled::from_val(&f[4]), x: Modeled::from_val(&f[5]), f4: Modeled::from_val(&f[6]), f5: Modeled::from_val(&f[7]), f6: Modeled::from_val(&f[8]), f7: Modeled::from_val(&f[9]), f8: Modeled::from_val(&f[10]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize)]
pub struct HostTok {
    #[static_xml(attribute)]
    pub a: Option<Tok>,
    #[static_xml(flatten)]
    pub e: TokEnum,
    #[static_xml(flatten)]
    pub f: Flat<0>,
    pub m: Vec<Tok>,
    pub n: Option<TokBox>,
}
pub static HOSTTOK_S: StructS = StructS { name: "HostTok", root: ("", "HostTok"), fields: &[
    FieldS { name: "a", ns: "", local: "a", kind: Kind::Attr, card: Card::Opt, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "e", ns: "", local: "e", kind: Kind::FlatEnum, card: Card::One, default: None, ty: Ty::Enum(&TOKENUM_S) },
    FieldS { name: "f", ns: "", local: "f", kind: Kind::FlatScript(0), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "m", ns: "", local: "m", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Text(TextTy::Tok) },
    FieldS { name: "n", ns: "", local: "n", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&TOKBOX_S) },
] };
impl Modeled for HostTok {
    fn to_val(&self) -> Val {
        Val::S(vec![self.a.to_val(), self.e.to_val(), self.f.to_val(), self.m.to_val(), self.n.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                HostTok { a: Modeled::from_val(&f[0]), e: Modeled::from_val(&f[1]), f: Modeled::from_val(&f[2]), m: Modeled::from_val(&f[3]), n: Modeled::from_val(&f[4]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

#[derive(Debug, Deserialize)]
pub struct HostNest {
    pub h: Vec<Host2>,
    pub t: Option<HostTok>,
    #[static_xml(flatten)]
    pub f: Flat<2>,
    pub b: Option<Basic>,
}
pub static HOSTNEST_S: StructS = StructS { name: "HostNest", root: ("", "HostNest"), fields: &[
    FieldS { name: "h", ns: "", local: "h", kind: Kind::Elem, card: Card::Many, default: None, ty: Ty::Struct(&HOST2_S) },
    FieldS { name: "t", ns: "", local: "t", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&HOSTTOK_S) },
    FieldS { name: "f", ns: "", local: "f", kind: Kind::FlatScript(2), card: Card::One, default: None, ty: Ty::Text(TextTy::Str) },
    FieldS { name: "b", ns: "", local: "b", kind: Kind::Elem, card: Card::Opt, default: None, ty: Ty::Struct(&BASIC_S) },
] };
impl Modeled for HostNest {
    fn to_val(&self) -> Val {
        Val::S(vec![self.h.to_val(), self.t.to_val(), self.f.to_val(), self.b.to_val(), ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                HostNest { h: Modeled::from_val(&f[0]), t: Modeled::from_val(&f[1]), f: Modeled::from_val(&f[2]), b: Modeled::from_val(&f[3]),  }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}

pub static TYPES: &[TypeOps] = &[
    TypeOps { name: "Empty", ty: Ty::Struct(&EMPTY_S), read: read_as::<Empty>, read_str: str_as::<Empty>, de: de_as::<Empty>, write: Some(write_as::<Empty>), ser: Some(ser_as::<Empty>), flats: 0, tok: false },
    TypeOps { name: "Basic", ty: Ty::Struct(&BASIC_S), read: read_as::<Basic>, read_str: str_as::<Basic>, de: de_as::<Basic>, write: Some(write_as::<Basic>), ser: Some(ser_as::<Basic>), flats: 0, tok: false },
    TypeOps { name: "Nums", ty: Ty::Struct(&NUMS_S), read: read_as::<Nums>, read_str: str_as::<Nums>, de: de_as::<Nums>, write: Some(write_as::<Nums>), ser: Some(ser_as::<Nums>), flats: 0, tok: false },
    TypeOps { name: "AttrNums", ty: Ty::Struct(&ATTRNUMS_S), read: read_as::<AttrNums>, read_str: str_as::<AttrNums>, de: de_as::<AttrNums>, write: Some(write_as::<AttrNums>), ser: Some(ser_as::<AttrNums>), flats: 0, tok: false },
    TypeOps { name: "Texts", ty: Ty::Struct(&TEXTS_S), read: read_as::<Texts>, read_str: str_as::<Texts>, de: de_as::<Texts>, write: Some(write_as::<Texts>), ser: Some(ser_as::<Texts>), flats: 0, tok: false },
    TypeOps { name: "AttrTexts", ty: Ty::Struct(&ATTRTEXTS_S), read: read_as::<AttrTexts>, read_str: str_as::<AttrTexts>, de: de_as::<AttrTexts>, write: Some(write_as::<AttrTexts>), ser: Some(ser_as::<AttrTexts>), flats: 0, tok: false },
    TypeOps { name: "Defaults", ty: Ty::Struct(&DEFAULTS_S), read: read_as::<Defaults>, read_str: str_as::<Defaults>, de: de_as::<Defaults>, write: Some(write_as::<Defaults>), ser: Some(ser_as::<Defaults>), flats: 0, tok: false },
    TypeOps { name: "Nested", ty: Ty::Struct(&NESTED_S), read: read_as::<Nested>, read_str: str_as::<Nested>, de: de_as::<Nested>, write: Some(write_as::<Nested>), ser: Some(ser_as::<Nested>), flats: 0, tok: false },
    TypeOps { name: "Tree", ty: Ty::Struct(&TREE_S), read: read_as::<Tree>, read_str: str_as::<Tree>, de: de_as::<Tree>, write: Some(write_as::<Tree>), ser: Some(ser_as::<Tree>), flats: 0, tok: false },
    TypeOps { name: "Ren", ty: Ty::Struct(&REN_S), read: read_as::<Ren>, read_str: str_as::<Ren>, de: de_as::<Ren>, write: Some(write_as::<Ren>), ser: Some(ser_as::<Ren>), flats: 0, tok: false },
    TypeOps { name: "Order", ty: Ty::Struct(&ORDER_S), read: read_as::<Order>, read_str: str_as::<Order>, de: de_as::<Order>, write: Some(write_as::<Order>), ser: Some(ser_as::<Order>), flats: 0, tok: false },
    TypeOps { name: "Ns1", ty: Ty::Struct(&NS1_S), read: read_as::<Ns1>, read_str: str_as::<Ns1>, de: de_as::<Ns1>, write: Some(write_as::<Ns1>), ser: Some(ser_as::<Ns1>), flats: 0, tok: false },
    TypeOps { name: "Ns2", ty: Ty::Struct(&NS2_S), read: read_as::<Ns2>, read_str: str_as::<Ns2>, de: de_as::<Ns2>, write: Some(write_as::<Ns2>), ser: Some(ser_as::<Ns2>), flats: 0, tok: false },
    TypeOps { name: "NsAmp", ty: Ty::Struct(&NSAMP_S), read: read_as::<NsAmp>, read_str: str_as::<NsAmp>, de: de_as::<NsAmp>, write: Some(write_as::<NsAmp>), ser: Some(ser_as::<NsAmp>), flats: 0, tok: false },
    TypeOps { name: "NsClashA", ty: Ty::Struct(&NSCLASHA_S), read: read_as::<NsClashA>, read_str: str_as::<NsClashA>, de: de_as::<NsClashA>, write: Some(write_as::<NsClashA>), ser: Some(ser_as::<NsClashA>), flats: 0, tok: false },
    TypeOps { name: "NsClashB", ty: Ty::Struct(&NSCLASHB_S), read: read_as::<NsClashB>, read_str: str_as::<NsClashB>, de: de_as::<NsClashB>, write: Some(write_as::<NsClashB>), ser: Some(ser_as::<NsClashB>), flats: 0, tok: false },
    TypeOps { name: "NsNum", ty: Ty::Struct(&NSNUM_S), read: read_as::<NsNum>, read_str: str_as::<NsNum>, de: de_as::<NsNum>, write: Some(write_as::<NsNum>), ser: Some(ser_as::<NsNum>), flats: 0, tok: false },
    TypeOps { name: "XmlAttr", ty: Ty::Struct(&XMLATTR_S), read: read_as::<XmlAttr>, read_str: str_as::<XmlAttr>, de: de_as::<XmlAttr>, write: Some(write_as::<XmlAttr>), ser: Some(ser_as::<XmlAttr>), flats: 0, tok: false },
    TypeOps { name: "SameUrl", ty: Ty::Struct(&SAMEURL_S), read: read_as::<SameUrl>, read_str: str_as::<SameUrl>, de: de_as::<SameUrl>, write: Some(write_as::<SameUrl>), ser: Some(ser_as::<SameUrl>), flats: 0, tok: false },
    TypeOps { name: "MultiNs", ty: Ty::Struct(&MULTINS_S), read: read_as::<MultiNs>, read_str: str_as::<MultiNs>, de: de_as::<MultiNs>, write: Some(write_as::<MultiNs>), ser: Some(ser_as::<MultiNs>), flats: 0, tok: false },
    TypeOps { name: "Wide", ty: Ty::Struct(&WIDE_S), read: read_as::<Wide>, read_str: str_as::<Wide>, de: de_as::<Wide>, write: Some(write_as::<Wide>), ser: Some(ser_as::<Wide>), flats: 0, tok: false },
    TypeOps { name: "DLeaf", ty: Ty::Struct(&DLEAF_S), read: read_as::<DLeaf>, read_str: str_as::<DLeaf>, de: de_as::<DLeaf>, write: Some(write_as::<DLeaf>), ser: Some(ser_as::<DLeaf>), flats: 0, tok: false },
    TypeOps { name: "DOther", ty: Ty::Struct(&DOTHER_S), read: read_as::<DOther>, read_str: str_as::<DOther>, de: de_as::<DOther>, write: Some(write_as::<DOther>), ser: Some(ser_as::<DOther>), flats: 0, tok: false },
    TypeOps { name: "DRoot", ty: Ty::Struct(&DROOT_S), read: read_as::<DRoot>, read_str: str_as::<DRoot>, de: de_as::<DRoot>, write: Some(write_as::<DRoot>), ser: Some(ser_as::<DRoot>), flats: 0, tok: false },
    TypeOps { name: "DMix", ty: Ty::Struct(&DMIX_S), read: read_as::<DMix>, read_str: str_as::<DMix>, de: de_as::<DMix>, write: Some(write_as::<DMix>), ser: Some(ser_as::<DMix>), flats: 0, tok: false },
    TypeOps { name: "Choice", ty: Ty::Enum(&CHOICE_S), read: read_as::<Choice>, read_str: str_as::<Choice>, de: de_as::<Choice>, write: Some(write_as::<Choice>), ser: Some(ser_as::<Choice>), flats: 0, tok: false },
    TypeOps { name: "Choice2", ty: Ty::Enum(&CHOICE2_S), read: read_as::<Choice2>, read_str: str_as::<Choice2>, de: de_as::<Choice2>, write: Some(write_as::<Choice2>), ser: Some(ser_as::<Choice2>), flats: 0, tok: false },
    TypeOps { name: "ChoiceNs", ty: Ty::Enum(&CHOICENS_S), read: read_as::<ChoiceNs>, read_str: str_as::<ChoiceNs>, de: de_as::<ChoiceNs>, write: Some(write_as::<ChoiceNs>), ser: Some(ser_as::<ChoiceNs>), flats: 0, tok: false },
    TypeOps { name: "ChoiceSkip", ty: Ty::Enum(&CHOICESKIP_S), read: read_as::<ChoiceSkip>, read_str: str_as::<ChoiceSkip>, de: de_as::<ChoiceSkip>, write: Some(write_as::<ChoiceSkip>), ser: Some(ser_as::<ChoiceSkip>), flats: 0, tok: false },
    TypeOps { name: "ChoiceMulti", ty: Ty::Enum(&CHOICEMULTI_S), read: read_as::<ChoiceMulti>, read_str: str_as::<ChoiceMulti>, de: de_as::<ChoiceMulti>, write: Some(write_as::<ChoiceMulti>), ser: Some(ser_as::<ChoiceMulti>), flats: 0, tok: false },
    TypeOps { name: "ChoiceWide", ty: Ty::Enum(&CHOICEWIDE_S), read: read_as::<ChoiceWide>, read_str: str_as::<ChoiceWide>, de: de_as::<ChoiceWide>, write: Some(write_as::<ChoiceWide>), ser: Some(ser_as::<ChoiceWide>), flats: 0, tok: false },
    TypeOps { name: "FlatMulti", ty: Ty::Struct(&FLATMULTI_S), read: read_as::<FlatMulti>, read_str: str_as::<FlatMulti>, de: de_as::<FlatMulti>, write: Some(write_as::<FlatMulti>), ser: Some(ser_as::<FlatMulti>), flats: 0, tok: false },
    TypeOps { name: "FlatE", ty: Ty::Struct(&FLATE_S), read: read_as::<FlatE>, read_str: str_as::<FlatE>, de: de_as::<FlatE>, write: Some(write_as::<FlatE>), ser: Some(ser_as::<FlatE>), flats: 0, tok: false },
    TypeOps { name: "FlatE2", ty: Ty::Struct(&FLATE2_S), read: read_as::<FlatE2>, read_str: str_as::<FlatE2>, de: de_as::<FlatE2>, write: Some(write_as::<FlatE2>), ser: Some(ser_as::<FlatE2>), flats: 0, tok: false },
    TypeOps { name: "FlatNs", ty: Ty::Struct(&FLATNS_S), read: read_as::<FlatNs>, read_str: str_as::<FlatNs>, de: de_as::<FlatNs>, write: Some(write_as::<FlatNs>), ser: Some(ser_as::<FlatNs>), flats: 0, tok: false },
    TypeOps { name: "FlatSkip", ty: Ty::Struct(&FLATSKIP_S), read: read_as::<FlatSkip>, read_str: str_as::<FlatSkip>, de: de_as::<FlatSkip>, write: Some(write_as::<FlatSkip>), ser: Some(ser_as::<FlatSkip>), flats: 0, tok: false },
    TypeOps { name: "ChoiceLong", ty: Ty::Enum(&CHOICELONG_S), read: read_as::<ChoiceLong>, read_str: str_as::<ChoiceLong>, de: de_as::<ChoiceLong>, write: Some(write_as::<ChoiceLong>), ser: Some(ser_as::<ChoiceLong>), flats: 0, tok: false },
    TypeOps { name: "Deep", ty: Ty::Struct(&DEEP_S), read: read_as::<Deep>, read_str: str_as::<Deep>, de: de_as::<Deep>, write: Some(write_as::<Deep>), ser: Some(ser_as::<Deep>), flats: 0, tok: false },
    TypeOps { name: "ChoiceRaw", ty: Ty::Enum(&CHOICERAW_S), read: read_as::<ChoiceRaw>, read_str: str_as::<ChoiceRaw>, de: de_as::<ChoiceRaw>, write: Some(write_as::<ChoiceRaw>), ser: Some(ser_as::<ChoiceRaw>), flats: 0, tok: false },
    TypeOps { name: "Raw", ty: Ty::Struct(&RAW_S), read: read_as::<r#Raw>, read_str: str_as::<r#Raw>, de: de_as::<r#Raw>, write: Some(write_as::<r#Raw>), ser: Some(ser_as::<r#Raw>), flats: 0, tok: false },
    TypeOps { name: "struct", ty: Ty::Struct(&STRUCT_S), read: read_as::<r#struct>, read_str: str_as::<r#struct>, de: de_as::<r#struct>, write: Some(write_as::<r#struct>), ser: Some(ser_as::<r#struct>), flats: 0, tok: false },
    TypeOps { name: "DBare", ty: Ty::Struct(&DBARE_S), read: read_as::<DBare>, read_str: str_as::<DBare>, de: de_as::<DBare>, write: Some(write_as::<DBare>), ser: Some(ser_as::<DBare>), flats: 0, tok: false },
    TypeOps { name: "DSpaced", ty: Ty::Struct(&DSPACED_S), read: read_as::<DSpaced>, read_str: str_as::<DSpaced>, de: de_as::<DSpaced>, write: Some(write_as::<DSpaced>), ser: Some(ser_as::<DSpaced>), flats: 0, tok: false },
    TypeOps { name: "LongNames", ty: Ty::Struct(&LONGNAMES_S), read: read_as::<LongNames>, read_str: str_as::<LongNames>, de: de_as::<LongNames>, write: Some(write_as::<LongNames>), ser: Some(ser_as::<LongNames>), flats: 0, tok: false },
    TypeOps { name: "TokEnum", ty: Ty::Enum(&TOKENUM_S), read: read_as::<TokEnum>, read_str: str_as::<TokEnum>, de: de_as::<TokEnum>, write: Some(write_as::<TokEnum>), ser: Some(ser_as::<TokEnum>), flats: 0, tok: true },
    TypeOps { name: "TokEnum2", ty: Ty::Enum(&TOKENUM2_S), read: read_as::<TokEnum2>, read_str: str_as::<TokEnum2>, de: de_as::<TokEnum2>, write: Some(write_as::<TokEnum2>), ser: Some(ser_as::<TokEnum2>), flats: 0, tok: true },
    TypeOps { name: "TokBox", ty: Ty::Struct(&TOKBOX_S), read: read_as::<TokBox>, read_str: str_as::<TokBox>, de: de_as::<TokBox>, write: Some(write_as::<TokBox>), ser: Some(ser_as::<TokBox>), flats: 0, tok: true },
    TypeOps { name: "TokNest", ty: Ty::Struct(&TOKNEST_S), read: read_as::<TokNest>, read_str: str_as::<TokNest>, de: de_as::<TokNest>, write: Some(write_as::<TokNest>), ser: Some(ser_as::<TokNest>), flats: 0, tok: true },
    TypeOps { name: "TokBig", ty: Ty::Enum(&TOKBIG_S), read: read_as::<TokBig>, read_str: str_as::<TokBig>, de: de_as::<TokBig>, write: Some(write_as::<TokBig>), ser: Some(ser_as::<TokBig>), flats: 0, tok: true },
    TypeOps { name: "TokFlat", ty: Ty::Struct(&TOKFLAT_S), read: read_as::<TokFlat>, read_str: str_as::<TokFlat>, de: de_as::<TokFlat>, write: Some(write_as::<TokFlat>), ser: Some(ser_as::<TokFlat>), flats: 0, tok: true },
    TypeOps { name: "TokFlat2", ty: Ty::Struct(&TOKFLAT2_S), read: read_as::<TokFlat2>, read_str: str_as::<TokFlat2>, de: de_as::<TokFlat2>, write: Some(write_as::<TokFlat2>), ser: Some(ser_as::<TokFlat2>), flats: 0, tok: true },
    TypeOps { name: "TokDef", ty: Ty::Struct(&TOKDEF_S), read: read_as::<TokDef>, read_str: str_as::<TokDef>, de: de_as::<TokDef>, write: Some(write_as::<TokDef>), ser: Some(ser_as::<TokDef>), flats: 0, tok: true },
    TypeOps { name: "TokDef2", ty: Ty::Struct(&TOKDEF2_S), read: read_as::<TokDef2>, read_str: str_as::<TokDef2>, de: de_as::<TokDef2>, write: Some(write_as::<TokDef2>), ser: Some(ser_as::<TokDef2>), flats: 0, tok: true },
    TypeOps { name: "TokDeep", ty: Ty::Struct(&TOKDEEP_S), read: read_as::<TokDeep>, read_str: str_as::<TokDeep>, de: de_as::<TokDeep>, write: Some(write_as::<TokDeep>), ser: Some(ser_as::<TokDeep>), flats: 0, tok: true },
    TypeOps { name: "Host1", ty: Ty::Struct(&HOST1_S), read: read_as::<Host1>, read_str: str_as::<Host1>, de: de_as::<Host1>, write: None, ser: None, flats: 1, tok: false },
    TypeOps { name: "Host2", ty: Ty::Struct(&HOST2_S), read: read_as::<Host2>, read_str: str_as::<Host2>, de: de_as::<Host2>, write: None, ser: None, flats: 2, tok: false },
    TypeOps { name: "Host3", ty: Ty::Struct(&HOST3_S), read: read_as::<Host3>, read_str: str_as::<Host3>, de: de_as::<Host3>, write: None, ser: None, flats: 3, tok: false },
    TypeOps { name: "Host4", ty: Ty::Struct(&HOST4_S), read: read_as::<Host4>, read_str: str_as::<Host4>, de: de_as::<Host4>, write: None, ser: None, flats: 2, tok: false },
    TypeOps { name: "Host5", ty: Ty::Struct(&HOST5_S), read: read_as::<Host5>, read_str: str_as::<Host5>, de: de_as::<Host5>, write: None, ser: None, flats: 9, tok: false },
    TypeOps { name: "HostTok", ty: Ty::Struct(&HOSTTOK_S), read: read_as::<HostTok>, read_str: str_as::<HostTok>, de: de_as::<HostTok>, write: None, ser: None, flats: 1, tok: true },
    TypeOps { name: "HostNest", ty: Ty::Struct(&HOSTNEST_S), read: read_as::<HostNest>, read_str: str_as::<HostNest>, de: de_as::<HostNest>, write: None, ser: None, flats: 3, tok: false },
];
