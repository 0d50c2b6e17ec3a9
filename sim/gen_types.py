#!/usr/bin/env python3
"""Writes src/gen_types.rs: the derived types the simulation exercises, with their schemas.

Run by hand when the type zoo changes; the result is committed.
"""
import os

out = []
types = {}   # name -> ('text', rust TextTy expr) | ('struct', ...) | ('enum', ...)
ops = []
XML = "http://www.w3.org/XML/1998/namespace"

PRIM = {"String": "TextTy::Str", "bool": "TextTy::Bool", "f32": "TextTy::Float(32)", "f64": "TextTy::Float(64)",
        "Tok": "TextTy::Tok", "HexC": "TextTy::Hex(Ws::Collapse)", "HexP": "TextTy::Hex(Ws::Preserve)",
        "UpperR": "TextTy::Upper(Ws::Replace)", "UpperP": "TextTy::Upper(Ws::Preserve)"}
for k in "i8 u8 i16 u16 i32 u32 i64 u64 i128 u128".split():
    PRIM[k] = 'TextTy::Int("%s")' % k
WS = {"preserve": "Ws::Preserve", "replace": "Ws::Replace", "collapse": "Ws::Collapse"}


def unraw(s):
    return s[2:] if s.startswith("r#") else s


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def text_ty(t):
    if t in PRIM:
        return PRIM[t]
    return types[t][1]


def restriction(name, ws, known, unknown=False):
    # A known text of the form ("Ident",) is that variant without a rename.
    v, tv, fv = [], [], []
    for i, k in enumerate(known):
        vn = k[0] if isinstance(k, tuple) else "V%d" % i
        v.append(("    %s,\n" % vn) if isinstance(k, tuple) else "    #[static_xml(rename = %s)]\n    %s,\n" % (q(k), vn))
        tv.append("            %s::%s => \"k%d\".into(),\n" % (name, vn, i))
        fv.append("            Val::T(s) if s == \"k%d\" => %s::%s,\n" % (i, name, vn))
    known = [unraw(k[0]) if isinstance(k, tuple) else k for k in known]
    if unknown:
        v.append("    #[static_xml(unknown)]\n    Unknown(String),\n")
        tv.append("            %s::Unknown(s) => format!(\"u:{}\", s),\n" % name)
        fv.append("            Val::T(s) => %s::Unknown(s[2..].to_owned()),\n" % name)
    wsa = "" if ws == "preserve" else ', whitespace = "%s"' % ws
    out.append("""#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "restriction"%s)]
pub enum %s {
%s}
static %s_R: RestrS = RestrS { ws: %s, known: &[%s], unknown: %s };
impl Modeled for %s {
    fn to_val(&self) -> Val {
        Val::T(match self {
%s        })
    }
    fn from_val(v: &Val) -> Self {
        match v {
%s            _ => unreachable!("{:?}", v),
        }
    }
}
""" % (wsa, name, "".join(v), name.upper(), WS[ws], ", ".join(q(k) for k in known), str(unknown).lower(), name, "".join(tv), "".join(fv)))
    types[name] = ("text", "TextTy::Restr(&%s_R)" % name.upper())


def union(name, ws, members):
    wsa = "" if ws == "preserve" else ', whitespace = "%s"' % ws
    v = "".join("    M%d(%s),\n" % (i, m) for i, m in enumerate(members))
    tv = "".join("            %s::M%d(m) => text_of(%d, m),\n" % (name, i, i) for i in range(len(members)))
    fv = "".join("            %d => %s::M%d(Modeled::from_val(&inner)),\n" % (i, name, i) for i in range(len(members)))
    out.append("""#[derive(Debug, ParseText, ToText)]
#[static_xml(mode = "union"%s)]
pub enum %s {
%s}
static %s_U: UnionS = UnionS { ws: %s, members: &[%s] };
impl Modeled for %s {
    fn to_val(&self) -> Val {
        match self {
%s        }
    }
    fn from_val(v: &Val) -> Self {
        let (i, inner) = untext(v);
        match i {
%s            _ => unreachable!("{:?}", v),
        }
    }
}
""" % (wsa, name, v, name.upper(), WS[ws], ", ".join(text_ty(m) for m in members), name, tv, fv))
    types[name] = ("text", "TextTy::Union(&%s_U)" % name.upper())


def rty(t):
    """Schema expression of an element type."""
    if t in PRIM or types.get(t, ("",))[0] == "text":
        return "Ty::Text(%s)" % text_ty(t)
    kind = types[t][0]
    return "Ty::%s(&%s_S)" % ("Struct" if kind == "struct" else "Enum", unraw(t).upper())


def split_card(t):
    for c, p in (("Opt", "Option<"), ("Many", "Vec<")):
        if t.startswith(p):
            return c, t[len(p):-1]
    return "One", t


class F:
    def __init__(self, name, ty, attr=False, prefix=None, rename=None, default=False, flat=False):
        self.__dict__.update(locals())


def a(name, ty, **k):
    return F(name, ty, attr=True, **k)


def e(name, ty, **k):
    return F(name, ty, **k)


def flat(name, ty, **k):
    return F(name, ty, flat=True, **k)


def container(rename, prefix, ns, default_ns, ns_style=None):
    at = []
    for p, u in ns:
        at.append("namespace = %s" % q("%s: %s" % (p, u)))
    if default_ns and ns_style == "bare":
        at.append("namespace = %s" % q(default_ns))
    elif default_ns and ns_style == "spaced":
        at.append("default_namespace = %s" % q("  " + default_ns + " "))
    elif default_ns:
        at.append("default_namespace = %s" % q(default_ns))
    if prefix is not None:
        at.append("prefix = %s" % q(prefix))
    if rename:
        at.append("rename = %s" % q(rename))
    return "#[static_xml(%s)]\n" % ", ".join(at) if at else ""


def ns_of(prefix, ns, default_ns):
    if prefix is None:
        return ""
    if prefix == "":
        return default_ns
    if prefix == "xml":
        return XML
    return {p.strip(): u.strip() for p, u in ns}[prefix]


def struct(name, fields, rename=None, prefix=None, ns=(), default_ns=None, ser=True, tags=(), ns_style=None):
    types[name] = ("struct",)
    body, sch, tv, fv = [], [], [], []
    for f in fields:
        at = []
        if f.attr:
            at.append("attribute")
        if f.flat:
            at.append("flatten")
        if f.default:
            at.append("default")
        if f.prefix is not None:
            at.append("prefix = %s" % q(f.prefix))
        if f.rename:
            at.append("rename = %s" % q(f.rename))
        body.append("%s    pub %s: %s,\n" % ("    #[static_xml(%s)]\n" % ", ".join(at) if at else "", f.name, f.ty))
        card, inner = split_card(f.ty)
        if f.flat:
            kind = "Kind::FlatScript(%s)" % f.ty[5:-1] if f.ty.startswith("Flat<") else "Kind::FlatEnum"
            ty = "Ty::Text(TextTy::Str)" if f.ty.startswith("Flat<") else rty(inner)
        else:
            kind = "Kind::Attr" if f.attr else "Kind::Elem"
            ty = rty(inner)
        d = "Some(|| <%s as Default>::default().to_val())" % f.ty if f.default else "None"
        sch.append("    FieldS { name: %s, ns: %s, local: %s, kind: %s, card: Card::%s, default: %s, ty: %s },\n" % (
            q(unraw(f.name)), q(ns_of(f.prefix, ns, default_ns)), q(f.rename or unraw(f.name)), kind, card, d, ty))
        tv.append("self.%s.to_val(), " % f.name)
        fv.append("%s: Modeled::from_val(&f[%d]), " % (f.name, len(fv)))
    out.append("""#[derive(Debug, %s)]
%spub struct %s {
%s}
pub static %s_S: StructS = StructS { name: "%s", root: (%s, %s), fields: &[
%s] };
impl Modeled for %s {
    fn to_val(&self) -> Val {
        Val::S(vec![%s])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(f) => {
                let _ = f;
                %s { %s }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}
""" % ("Deserialize, Serialize" if ser else "Deserialize", container(rename, prefix, ns, default_ns, ns_style), name, "".join(body), unraw(name).upper(), unraw(name),
       q(ns_of(prefix, ns, default_ns)), q(rename or unraw(name)), "".join(sch), name, "".join(tv), name, "".join(fv)))
    ops.append((name, "Ty::Struct(&%s_S)" % unraw(name).upper(), ser, tags))


class V:
    def __init__(self, name, ty=None, prefix=None, rename=None, skip=False):
        self.__dict__.update(locals())


def enum(name, variants, rename=None, prefix=None, ns=(), default_ns=None, tags=(), root=True, ns_style=None):
    types[name] = ("enum",)
    body, sch, tv, fv = [], [], [], []
    for i, v in enumerate(variants):
        at = []
        if v.skip:
            at.append("skip")
        if v.prefix is not None:
            at.append("prefix = %s" % q(v.prefix))
        if v.rename:
            at.append("rename = %s" % q(v.rename))
        body.append("%s    %s%s,\n" % ("    #[static_xml(%s)]\n" % ", ".join(at) if at else "", v.name, "(%s)" % v.ty if v.ty else ""))
        if v.ty:
            card, inner = split_card(v.ty)
            payload = "Some((Card::%s, %s))" % (card, rty(inner))
            tv.append("            %s::%s(f) => Val::E(%d, Box::new(f.to_val())),\n" % (name, v.name, i))
            fv.append("                %d => %s::%s(Modeled::from_val(p)),\n" % (i, name, v.name))
        else:
            payload = "None"
            tv.append("            %s::%s => Val::E(%d, Box::new(Val::U)),\n" % (name, v.name, i))
            fv.append("                %d => %s::%s,\n" % (i, name, v.name))
        sch.append("    VariantS { name: %s, ns: %s, local: %s, payload: %s, skip: %s },\n" % (
            q(unraw(v.name)), q(ns_of(v.prefix, ns, default_ns)), q(v.rename or unraw(v.name)), payload, str(v.skip).lower()))
    out.append("""#[derive(Debug, Deserialize, Serialize)]
%spub enum %s {
%s}
pub static %s_S: EnumS = EnumS { name: "%s", root: (%s, %s), variants: &[
%s] };
impl Modeled for %s {
    fn to_val(&self) -> Val {
        match self {
%s        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(i, p) => {
                let _ = p;
                match i {
%s                _ => unreachable!("{:?}", v),
                }
            }
            _ => unreachable!("{:?}", v),
        }
    }
}
""" % (container(rename, prefix, ns, default_ns, ns_style), name, "".join(body), unraw(name).upper(), unraw(name), q(ns_of(prefix, ns, default_ns)),
       q(rename or unraw(name)), "".join(sch), name, "".join(tv), "".join(fv)))
    if root:
        ops.append((name, "Ty::Enum(&%s_S)" % unraw(name).upper(), True, tags))


A = "http://example.com/a"
B = "http://example.com/b"
C = "urn:c"
AMP = "http://e.x/?p=1&q=<2>\"'"
D = "http://example.com/default"
L0 = "m" * 256
E = "http://example.com/e"

# ---- text types -------------------------------------------------------------------------------
restriction("Size", "collapse", ["small", "medium", "large", "extra large"])
restriction("SizeU", "collapse", ["small", "medium", "large"], True)
restriction("Color", "preserve", ["red", "Red", "dark  blue", " spaced ", "<&>"])
restriction("ColorU", "replace", ["a b", "", "x"], True)
restriction("OnlyU", "preserve", [], True)
union("U1", "preserve", ["i32", "bool", "String"])
union("U2", "collapse", ["Size", "HexC"])
union("U3", "replace", ["U2", "f64", "UpperR"])
union("U4", "preserve", ["u8", "Color"])

restriction("Words", "collapse", [("Plain",), ("r#yield",), ("r#type",), "r#match", ("Été",), ("_x1",)])

# ---- plain structs ----------------------------------------------------------------------------
struct("Empty", [])
struct("Basic", [a("id", "String"), a("n", "Option<i32>"), e("name", "String"), e("note", "Option<String>"), e("tag", "Vec<String>")])
struct("Nums", [e(k, k) for k in "i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 f32 f64 bool".split()])
struct("AttrNums", [a(k, k) for k in "i8 u64 i128 f32 f64 bool".split()] + [a("o_" + k, "Option<%s>" % k) for k in "u8 i64 u128 f64 bool".split()])
struct("Texts", [e("hex", "HexC"), e("hexp", "Option<HexP>"), e("up", "Vec<UpperR>"), e("upp", "Option<UpperP>"), e("size", "Size"),
                 e("sizeu", "Vec<SizeU>"), e("color", "Color"), e("coloru", "Option<ColorU>"), e("u1", "Vec<U1>"), e("u2", "U2"), e("u3", "Option<U3>"),
                 e("u4", "Vec<U4>"), e("onlyu", "Option<OnlyU>")])
struct("AttrTexts", [a("hex", "HexC"), a("hexp", "Option<HexP>"), a("up", "UpperR"), a("size", "Size"), a("sizeu", "Option<SizeU>"),
                     a("color", "Color"), a("coloru", "ColorU"), a("u1", "U1"), a("u2", "Option<U2>"), a("u3", "U3"), a("u4", "Option<U4>")])
struct("Defaults", [a("da", "i32", default=True), a("ds", "String", default=True), a("dob", "Option<bool>", default=True),
                    e("ea", "u64", default=True), e("es", "String", default=True), e("ev", "Vec<i32>", default=True),
                    e("eo", "Option<String>", default=True), e("f", "f64", default=True)])
struct("Nested", [e("one", "Basic"), e("opt", "Option<Basic>"), e("many", "Vec<Basic>"), a("z", "Option<String>")])
struct("Tree", [a("label", "String"), e("node", "Vec<Tree>"), e("leaf", "Option<String>")])
struct("Ren", [e("f0", "String", rename="data-x"), e("f1", "Option<String>", rename="_y"), e("f2", "Vec<i32>", rename="a.b"),
               a("f3", "Option<String>", rename="É"), a("f4", "String", rename="data-x"), e("f5", "Option<String>", rename="A.B"),
               e("_under_", "Option<bool>"), e("self_", "Option<String>", rename="self"), e("out", "Option<String>"), e("child", "Option<String>"), e("value", "Option<String>"), a("name", "Option<String>")],
       rename="re-named.root")
struct("Order", [e("z", "Option<String>"), e("a", "Option<String>"), e("m", "Vec<String>"), e("Z", "Option<String>"), a("zz", "Option<String>"), a("aa", "Option<String>"), e("aa2", "Option<String>", rename="aa")])

# ---- namespaces -------------------------------------------------------------------------------
struct("Ns1", [a("id", "String", prefix="a"), a("id0", "Option<String>", rename="id"), e("x", "String", prefix="a"), e("y", "Option<String>")],
       ns=[("a", A)], prefix="a")
struct("Ns2", [e("av", "String", prefix="a", rename="v"), e("bv", "Vec<String>", prefix="b", rename="v"), e("v", "Option<i32>"),
               a("aat", "Option<String>", prefix="a", rename="at"), a("bat", "Option<String>", prefix="b", rename="at"), a("at", "Option<String>")],
       ns=[("a", A), ("b", B)], prefix="b", rename="two")
struct("NsAmp", [e("v", "String", prefix="q"), a("w", "Option<String>", prefix="q"), e("inner", "Option<Ns1>", prefix="q")], ns=[("q", AMP)], prefix="q")
# NsClashA and NsClashB use each other's prefixes for different namespaces.
types["NsClashA"] = ("struct",)
types["NsClashB"] = ("struct",)
struct("NsClashA", [e("v", "Option<String>", prefix="a"), a("w", "Option<String>", prefix="b"), e("other", "Vec<NsClashB>", prefix="a"), e("same", "Vec<NsClashA>", prefix="b")],
       ns=[("a", A), ("b", B)], prefix="a")
struct("NsClashB", [e("v", "Option<String>", prefix="a"), a("w", "Option<String>", prefix="b"), e("other", "Vec<NsClashA>", prefix="a"), e("same", "Vec<NsClashB>", prefix="b")],
       ns=[("a", B), ("b", C)], prefix="b")
struct("NsNum", [e("v", "Option<String>", prefix="a2"), e("u", "Option<NsClashB>", prefix="a"), a("w", "Option<String>", prefix="ns1")],
       ns=[("a", C), ("a2", B), ("ns1", D), ("ns2", E)], prefix="a2")
struct("XmlAttr", [a("lang", "Option<String>", prefix="xml"), a("space", "String", prefix="xml"), e("p", "Vec<Ns1>"), a("lang0", "Option<String>", rename="lang")],
       ns=[("xml", XML)])
struct("SameUrl", [e("v", "Option<String>", prefix="p"), e("w", "Option<String>", prefix="r"), a("x", "Option<String>", prefix="p"), a("y", "Option<String>", prefix="r"),
                   e("inner", "Vec<Ns1>", prefix="p")], ns=[("p", A), ("r", A)], prefix="r")

# Sorting by namespace and by local name disagree, for attributes, elements and variants.
struct("MultiNs", [a("z", "Option<String>", prefix="a"), a("a", "Option<String>", prefix="b"), a("m", "Option<i32>"), a("b", "Option<String>", prefix="c"),
                   a("zz", "Option<String>", prefix="c"), a("aa", "Option<String>"), a("y", "String", prefix="a"),
                   e("ez", "Option<String>", prefix="a", rename="z"), e("ea", "Vec<String>", prefix="b", rename="a"), e("em", "Option<i32>", rename="m"),
                   e("eb", "Option<Ns1>", prefix="c", rename="b"), e("ezz", "Option<String>", rename="zz"), e("eaa", "Vec<i32>", prefix="a", rename="aa")],
       ns=[("a", A), ("b", B), ("c", C)], prefix="c")
# More fields than fit in a machine word.
struct("Wide", [e("f%d" % i, ["Option<i32>", "Vec<u8>", "Option<String>"][i % 3]) for i in range(70)]
       + [a("at%d" % i, ["Option<i32>", "Option<String>"][i % 2], rename="f%d" % i) for i in range(36)] + [e("last", "String"), a("must", "bool")])

# ---- default namespaces: everything below them is namespaced ------------------------------------
struct("DLeaf", [e("v", "Option<String>", prefix="d"), a("w", "Option<String>", prefix="d"), a("plain", "Option<String>")], ns=[("d", D)], prefix="d")
struct("DOther", [e("v", "Vec<String>", prefix=""), e("leaf", "Option<DLeaf>", prefix="")], default_ns=E, prefix="")
struct("DRoot", [e("p", "String", prefix=""), a("x", "Option<String>"), a("y", "Option<String>", prefix=""), e("leaf", "Vec<DLeaf>", prefix=""),
                 e("other", "Option<DOther>", prefix="")], default_ns=D, prefix="")
struct("DMix", [e("o", "Vec<DOther>", prefix="e"), e("r", "Option<DRoot>", prefix=""), a("y", "Option<String>", prefix="e")], ns=[("e", E)], default_ns=D, prefix="")

# ---- enums ------------------------------------------------------------------------------------
enum("Choice", [V("Alpha", "String"), V("Beta", "Vec<i32>"), V("Gamma", "Option<Basic>"), V("Delta", "Basic"), V("Unit")])
enum("Choice2", [V("Zed", "u32"), V("Eta", "Vec<Basic>"), V("Aye", rename="a-y-e")])
enum("ChoiceNs", [V("AV", "String", prefix="a", rename="v"), V("BV", "Vec<Ns1>", prefix="b", rename="v"), V("PV", "i32", rename="v"), V("BU", prefix="b", rename="u")],
     ns=[("a", A), ("b", B)], prefix="a", rename="choice")
enum("ChoiceSkip", [V("Hidden", "u32", skip=True), V("Seen", "Vec<String>"), V("Never", skip=True), V("One", "i32")])
enum("ChoiceMulti", [V("AZ", "String", prefix="a", rename="z"), V("BA", "Vec<i32>", prefix="b", rename="a"), V("PM", rename="m"), V("CB", "Basic", prefix="c", rename="b"),
                    V("PA", "Option<i32>", rename="aa"), V("AZZ", prefix="a", rename="zz"), V("CA", "i32", prefix="c", rename="a")],
     ns=[("a", A), ("b", B), ("c", C)], prefix="b", rename="multi")
enum("ChoiceWide", [V("V%d" % i, [None, "i32", "Vec<String>"][i % 3]) for i in range(40)])
struct("FlatMulti", [flat("c", "ChoiceMulti"), a("z", "Option<String>", prefix="c"), a("a", "Option<String>"), e("ez", "Option<String>", prefix="c", rename="z"), e("ea", "Option<String>", prefix="a", rename="a"), flat("w", "ChoiceWide")],
       ns=[("a", A), ("b", B), ("c", C)], prefix="a")
struct("FlatE", [e("fixed", "String"), flat("choice", "Choice"), a("id", "Option<i32>")])
struct("FlatE2", [flat("first", "Choice"), e("mid", "Vec<String>"), flat("second", "Choice2")])
struct("FlatNs", [a("w", "Option<String>", prefix="a"), flat("c", "ChoiceNs"), e("v", "Option<String>", prefix="c")], ns=[("a", C), ("c", D)], prefix="a")
struct("FlatSkip", [e("x", "Option<String>"), flat("c", "ChoiceSkip")])
enum("ChoiceLong", [V("A", "String", rename=L0 + "x"), V("B", "Option<String>", rename=L0 + "y"), V("C", rename=L0)])
struct("Deep", [e("f", "Vec<FlatE>"), e("c", "Option<Choice>"), e("t", "Option<Tree>"), e("ns", "Vec<FlatNs>"), e("cs", "Vec<ChoiceNs>"), e("f2", "Option<FlatE2>"), e("sk", "Vec<FlatSkip>")])

# ---- names which are Rust keywords, and other ways to declare a default namespace -------------------
enum("ChoiceRaw", [V("r#impl", "Words"), V("r#loop", "Vec<i32>"), V("r#fn"), V("r#where", "Option<String>", rename="where.")], rename="choice-raw")
struct("r#Raw", [a("r#fn", "Option<String>"), a("r#in", "i32", default=True), a("r#ref", "Words"), e("r#type", "String"), e("r#struct", "Vec<Words>"), e("r#move", "Option<i32>"),
                 e("r#use", "u8", default=True), flat("r#enum", "ChoiceRaw")])
struct("r#struct", [e("r#struct", "Vec<r#struct>"), a("r#struct_", "Option<String>", rename="struct"), e("r#match", "Option<r#Raw>"), e("r#else", "Option<ChoiceRaw>", prefix="r")], ns=[("r", B)])
struct("DBare", [e("v", "Vec<String>", prefix=""), e("leaf", "Option<DLeaf>", prefix=""), a("y", "Option<String>", prefix="")], default_ns=E, prefix="", ns_style="bare")
struct("DSpaced", [e("v", "Vec<String>", prefix=""), e("bare", "Option<DBare>", prefix=""), e("w", "Vec<DOther>", prefix="e"), a("y", "Option<String>", prefix="e")],
       ns=[("  e ", " " + E + "  ")], default_ns=B, prefix="", ns_style="spaced")

# ---- long names which differ late -----------------------------------------------------------------
L = "n" * 300
struct("LongNames", [e("a", "Option<String>", rename=L + "a"), e("b", "Vec<String>", rename=L + "b"), e("c", "Option<String>", rename=L[:255]), e("d", "Option<String>", rename=L[:256]),
                     a("e", "Option<String>", rename=L + "a"), a("f", "Option<String>", rename=L + "b"), a("g", "Option<i32>", rename=L[:255], prefix="a"), flat("h", "ChoiceLong")], ns=[("a", A)])

# ---- drop-counting types ----------------------------------------------------------------------
enum("TokEnum", [V("A", "Tok"), V("B", "Vec<Tok>"), V("O", "Option<Tok>"), V("U")], tags=["tok"])
enum("TokEnum2", [V("X", "Vec<Tok>"), V("Y", "Tok")], tags=["tok"])
struct("TokBox", [a("a", "Tok"), a("b", "Option<Tok>"), e("c", "Tok"), e("d", "Vec<Tok>"), e("e", "Option<Tok>")], tags=["tok"])
struct("TokNest", [e("head", "Tok"), e("inner", "TokBox"), e("many", "Vec<TokBox>"), e("tail", "Option<TokBox>"), e("last", "Tok")], tags=["tok"])
enum("TokBig", [V("N", "TokNest"), V("L", "Vec<TokBox>"), V("T", "Tok")], tags=["tok"])
struct("TokFlat", [a("a", "Tok"), flat("e", "TokEnum"), e("z", "Tok")], tags=["tok"])
struct("TokFlat2", [flat("e1", "TokEnum"), e("m", "Vec<Tok>"), flat("e2", "TokEnum2"), a("q", "Option<Tok>"), e("s", "String")], tags=["tok"])
struct("TokDef", [a("a", "Tok", default=True), e("b", "Tok", default=True), e("c", "Vec<Tok>", default=True), e("req", "Tok"), a("o", "Option<Tok>", default=True)], tags=["tok"])
struct("TokDef2", [a("a", "Tok", default=True), flat("e", "TokEnum2"), e("b", "Tok", default=True), e("v", "Vec<TokDef>"), e("req", "Tok"), e("l", "Tok", default=True)], tags=["tok"])
struct("TokDeep", [e("f", "Vec<TokFlat>"), e("n", "Option<TokNest>"), e("g", "Vec<TokFlat2>"), e("big", "Option<TokBig>"), e("must", "i32")], tags=["tok"])

# ---- structs with hand-written flattened fields (reading only) ----------------------------------
struct("Host1", [flat("f", "Flat<0>")], ser=False, tags=["host1"])
struct("Host2", [e("x", "Option<String>"), flat("f0", "Flat<0>"), flat("f1", "Flat<1>"), a("y", "Option<String>")], ser=False, tags=["host2"])
struct("Host3", [flat("f0", "Flat<0>"), flat("c", "Choice"), flat("f1", "Flat<1>"), flat("f2", "Flat<2>"), e("many", "Vec<Basic>")], ser=False, tags=["host3"])
struct("Host4", [flat("c", "ChoiceNs"), flat("f0", "Flat<0>"), a("w", "Option<String>", prefix="a"), e("v", "Option<String>", prefix="c"), flat("f1", "Flat<1>")],
       ns=[("a", C), ("c", D)], ser=False, tags=["host2"])
struct("Host5", [flat("f%d" % i, "Flat<%d>" % i) for i in range(4)] + [flat("c", "Choice"), e("x", "Option<String>")] + [flat("f%d" % i, "Flat<%d>" % i) for i in range(4, 9)], ser=False, tags=["host9"])
struct("HostTok", [a("a", "Option<Tok>"), flat("e", "TokEnum"), flat("f", "Flat<0>"), e("m", "Vec<Tok>"), e("n", "Option<TokBox>")], ser=False, tags=["tok", "host1"])
struct("HostNest", [e("h", "Vec<Host2>"), e("t", "Option<HostTok>"), flat("f", "Flat<2>"), e("b", "Option<Basic>")], ser=False, tags=["host3"])

head = """// Generated by gen_types.py; do not edit.
#![allow(non_snake_case, clippy::all)]
#![cfg_attr(rustfmt, rustfmt_skip)]

use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};

use crate::leaf::*;
use crate::ops::{de_as, read_as, ser_as, str_as, write_as, TypeOps};
use crate::schema::*;
use crate::script::Flat;

fn text_of<T: Modeled>(i: usize, m: &T) -> Val {
    match m.to_val() {
        Val::T(s) => Val::T(format!("{}|{}", i, s)),
        v => unreachable!("{:?}", v),
    }
}
fn untext(v: &Val) -> (usize, Val) {
    match v {
        Val::T(s) => {
            let (i, c) = s.split_once('|').unwrap();
            (i.parse().unwrap(), Val::T(c.to_owned()))
        }
        v => unreachable!("{:?}", v),
    }
}

"""
tail = "pub static TYPES: &[TypeOps] = &[\n"
for name, ty, ser, tags in ops:
    flats = max([int(t[4:]) for t in tags if t.startswith("host")] or [0])
    tail += "    TypeOps { name: \"%s\", ty: %s, read: read_as::<%s>, read_str: str_as::<%s>, de: de_as::<%s>, write: %s, ser: %s, flats: %d, tok: %s },\n" % (
        unraw(name), ty, name, name, name, "Some(write_as::<%s>)" % name if ser else "None", "Some(ser_as::<%s>)" % name if ser else "None", flats, str("tok" in tags).lower())
tail += "];\n"
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "gen_types.rs")
open(path, "w").write(head + "\n".join(out) + "\n" + tail)
