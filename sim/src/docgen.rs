//! Documents: trees built from values (or freely), decorated, damaged at element level, rendered in
//! one of the many ways the same infoset can be written.

use crate::schema::*;
use crate::state::{fault, Fault};
use crate::tape::Tape;

#[derive(Clone, Debug, PartialEq)]
pub struct DAttr {
    pub ns: String,
    pub local: String,
    pub value: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum DNode {
    El(DEl),
    Text(String),
    CData(String),
    /// Comment or processing instruction, verbatim.
    Misc(String),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct DEl {
    /// Made by derived code: the order of different children, and of attributes, is not promised.
    pub loose: bool,
    pub ns: String,
    pub local: String,
    pub attrs: Vec<DAttr>,
    pub kids: Vec<DNode>,
    /// Content is text that matters.
    pub text: bool,
}

const URLS: &[&str] = &["", "http://example.com/a", "http://example.com/b", "urn:c", "http://e.x/?p=1&q=<2>\"'", "urn:unknown"];

impl DEl {
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| if let DNode::El(e) = k { e.count() } else { 0 }).sum::<usize>()
    }
    /// The `n`-th element in document order.
    pub fn nth(&mut self, n: usize) -> &mut DEl {
        fn go<'a>(e: &'a mut DEl, n: &mut usize) -> Option<&'a mut DEl> {
            if *n == 0 {
                return Some(e);
            }
            *n -= 1;
            for k in &mut e.kids {
                if let DNode::El(c) = k {
                    if let Some(r) = go(c, n) {
                        return Some(r);
                    }
                }
            }
            None
        }
        let mut n = n;
        go(self, &mut n).unwrap()
    }
}

// ---- values to trees ----------------------------------------------------------------------------

/// A lexical form of a canonical text value; mostly the canonical one.
fn lexical(t: &mut Tape, ty: &TextTy, canon: &str, vary: bool) -> String {
    let base = ty.format(canon);
    if !vary || !t.chance(1, 4) {
        return base;
    }
    let pad = |t: &mut Tape, s: &str| {
        let w = [" ", "\n", "\t ", "  ", ""];
        format!("{}{}{}", t.pick(&w), s, t.pick(&w))
    };
    let alt = match ty {
        TextTy::Bool => match (canon, t.draw(2)) {
            ("true", 1) => pad(t, "1"),
            ("false", 1) => pad(t, "0"),
            (c, _) => pad(t, c),
        },
        TextTy::Int(_) => {
            if t.draw(2) == 1 && !canon.starts_with('-') {
                pad(t, &format!("+00{}", canon))
            } else {
                pad(t, canon)
            }
        }
        TextTy::Float(_) => pad(t, canon),
        TextTy::Hex(Ws::Collapse) => pad(t, &base),
        TextTy::Restr(r) if r.ws == Ws::Collapse => {
            let s = base.replace(' ', "\n ");
            pad(t, &s)
        }
        TextTy::Restr(r) if r.ws == Ws::Replace => base.replace(' ', "\t"),
        _ => base.clone(),
    };
    if ty.parse(&alt).as_deref() == Some(canon) {
        alt
    } else {
        base
    }
}

pub fn build(t: &mut Tape, ty: &Ty, v: &Val, ns: &str, local: &str, vary: bool) -> DEl {
    let mut el = DEl { ns: ns.into(), local: local.into(), ..Default::default() };
    fill(t, ty, v, &mut el, vary);
    el
}
fn fill(t: &mut Tape, ty: &Ty, v: &Val, el: &mut DEl, vary: bool) {
    match (ty, v) {
        (Ty::Text(x), Val::T(c)) => {
            el.text = true;
            let s = lexical(t, x, c, vary);
            if !s.is_empty() {
                el.kids.push(DNode::Text(s));
            }
        }
        (Ty::Struct(s), Val::S(f)) => {
            for (i, fs) in s.fields.iter().enumerate() {
                let v = &f[i];
                if let Some(d) = fs.default {
                    // An absent field means its default.
                    if d() == *v && t.chance(2, 3) {
                        continue;
                    }
                }
                match fs.kind {
                    Kind::Attr => {
                        let x = match &fs.ty {
                            Ty::Text(x) => x,
                            _ => unreachable!(),
                        };
                        let c = match v {
                            Val::T(c) => c,
                            Val::O(None) => continue,
                            Val::O(Some(b)) => match &**b {
                                Val::T(c) => c,
                                _ => unreachable!(),
                            },
                            _ => unreachable!(),
                        };
                        let value = lexical(t, x, c, vary);
                        el.attrs.push(DAttr { ns: fs.ns.into(), local: fs.local.into(), value });
                    }
                    Kind::Elem => push_card(t, fs.card, &fs.ty, v, fs.ns, fs.local, el, vary),
                    Kind::FlatEnum => fill(t, &fs.ty, v, el, vary),
                    Kind::FlatScript(_) => {}
                }
            }
        }
        (Ty::Enum(e), Val::E(i, p)) => {
            let var = &e.variants[*i];
            match &var.payload {
                None => el.kids.push(DNode::El(DEl { ns: var.ns.into(), local: var.local.into(), ..Default::default() })),
                Some((card, ty)) => push_card(t, *card, ty, p, var.ns, var.local, el, vary),
            }
        }
        _ => unreachable!("{:?} {:?}", ty, v),
    }
}
#[allow(clippy::too_many_arguments)]
fn push_card(t: &mut Tape, card: Card, ty: &Ty, v: &Val, ns: &str, local: &str, el: &mut DEl, vary: bool) {
    match (card, v) {
        (Card::One, v) => {
            let c = build(t, ty, v, ns, local, vary);
            el.kids.push(DNode::El(c));
        }
        (Card::Opt, Val::O(None)) => {}
        (Card::Opt, Val::O(Some(b))) => {
            let c = build(t, ty, b, ns, local, vary);
            el.kids.push(DNode::El(c));
        }
        (Card::Many, Val::L(l)) => {
            for x in l {
                let c = build(t, ty, x, ns, local, vary);
                el.kids.push(DNode::El(c));
            }
        }
        _ => unreachable!(),
    }
}

// ---- free trees -----------------------------------------------------------------------------------

/// A tree of elements named e0, e1, ... in document order.
pub fn draw_tree(t: &mut Tape, max: usize) -> DEl {
    let mut left = t.range(1, max);
    let mut n = 0;
    let mut el = gen_el(t, &mut left, &mut n, 0);
    if max > 6 && t.rare(70) {
        match t.below(3) {
            0 => {
                // Deep, around or below what is there.
                let mut c = if t.draw(2) == 0 { std::mem::take(&mut el) } else { DEl { local: "bottom".into(), ..Default::default() } };
                let d = *t.pick(&[20usize, 70, 140, 300]) + t.below(3);
                for i in 0..d {
                    let mut p = DEl { local: format!("d{}", d - i), ..Default::default() };
                    if t.chance(1, 12) {
                        p.kids.push(misc(t));
                    }
                    if i % 16 == 9 {
                        p.kids.push(DNode::Text(format!("at {}", i)));
                    }
                    p.kids.push(DNode::El(c));
                    if i % 16 == 1 {
                        p.kids.push(DNode::Text("after".into()));
                    }
                    c = p;
                }
                if el.local.is_empty() {
                    el = c;
                } else {
                    let at = t.below(el.kids.len() + 1);
                    el.kids.insert(at, DNode::El(c));
                }
            }
            1 => {
                let m = *t.pick(&[20usize, 100, 300, 700]) + t.below(3);
                for i in 0..m {
                    el.kids.push(DNode::El(DEl { local: format!("w{}", i), attrs: if i % 16 == 3 { draw_attrs(t, 2) } else { Vec::new() }, ..Default::default() }));
                    if i % 32 == 5 {
                        el.kids.push(DNode::Text(nonempty(gen_text(t))));
                    }
                }
            }
            _ => many_attrs(t, &mut el),
        }
    }
    el
}
fn many_attrs(t: &mut Tape, el: &mut DEl) {
    for i in 0..*t.pick(&[9usize, 17, 33, 65, 150]) + t.below(2) {
        let ns = *t.pick(&["", "", "http://example.com/a", "urn:unknown"]);
        el.attrs.push(DAttr { ns: ns.into(), local: format!("m{}", i), value: if i % 8 == 3 { gen_text(t) } else { i.to_string() } });
    }
}
fn gen_el(t: &mut Tape, left: &mut usize, n: &mut usize, depth: usize) -> DEl {
    let mut el = DEl { local: format!("e{}", n), ns: (*t.pick(&["", "", "urn:c", "http://example.com/a", "http://example.com/b"])).into(), ..Default::default() };
    *n += 1;
    *left = left.saturating_sub(1);
    el.attrs = draw_attrs(t, 4);
    let kids = if depth > 7 { t.below(2) } else { t.small(5) };
    for _ in 0..kids {
        match t.weighted(&[5, 3, 1, 1]) {
            0 if *left > 0 => {
                let c = gen_el(t, left, n, depth + 1);
                el.kids.push(DNode::El(c));
            }
            1 => el.kids.push(DNode::Text(nonempty(gen_text(t)))),
            2 => el.kids.push(DNode::CData(gen_text(t).replace("]]>", "").replace("]]", ""))),
            _ => el.kids.push(misc(t)),
        }
    }
    el
}
fn nonempty(s: String) -> String {
    if s.is_empty() {
        "t".into()
    } else {
        s
    }
}
const XSI: &str = "http://www.w3.org/2001/XMLSchema-instance";
const XML: &str = "http://www.w3.org/XML/1998/namespace";
/// Attributes which mean something to other XML software, and nothing here.
const FAMOUS: &[(&str, &str, &[&str])] = &[
    (XSI, "nil", &["true", "false", "1"]),
    (XSI, "type", &["xs:string", "Foo"]),
    (XSI, "schemaLocation", &["urn:c c.xsd"]),
    (XSI, "noNamespaceSchemaLocation", &["c.xsd"]),
    (XML, "space", &["preserve", "default"]),
    (XML, "lang", &["en", ""]),
    (XML, "base", &["http://example.com/"]),
    (XML, "id", &["i1"]),
    ("http://www.w3.org/1999/xlink", "href", &["#i1"]),
    ("http://www.w3.org/2003/05/soap-envelope", "mustUnderstand", &["true", "1"]),
    ("", "nil", &["true"]),
    ("", "href", &["#i1"]),
    ("", "type", &["x"]),
];
/// Namespaces one could mistake for those which the types use.
const NEAR: &[&str] = &[
    "urn:unknown", "http://example.com/", "http://example.com/a/", "http://example.com/A", "HTTP://example.com/a", "http://example.com/a#", "http://example.com/b ", "urn:C", "urn:",
    "http://example.com/aa", "http://example.com",
];
pub fn draw_attrs(t: &mut Tape, max: usize) -> Vec<DAttr> {
    let n = t.small(max);
    let mut v: Vec<DAttr> = Vec::new();
    for _ in 0..n {
        if t.chance(1, 8) {
            let (ns, local, values) = t.pick(FAMOUS);
            if !v.iter().any(|o| o.ns == *ns && o.local == *local) {
                v.push(DAttr { ns: (*ns).into(), local: (*local).into(), value: (*t.pick(values)).into() });
            }
            continue;
        }
        let a = DAttr {
            ns: (*t.pick(&["", "", "http://example.com/a", "urn:unknown"])).into(),
            local: (*t.pick(&["p", "q", "r", "s", "id", "w"])).into(),
            value: gen_text(t),
        };
        if !v.iter().any(|o| o.ns == a.ns && o.local == a.local) {
            v.push(a);
        }
    }
    v
}
fn misc(t: &mut Tape) -> DNode {
    DNode::Misc(
        (*t.pick(&["<!-- c -->", "<?pi data?>", "<!-- <fake a='1'> ]]> -->", "<?x?>", "<!---->", "<?target some </x> data?>", "<?xml-stylesheet href='a.xsl'?>", "<?php echo 1 ?>"])).to_owned(),
    )
}

// ---- decoration ---------------------------------------------------------------------------------

/// Adds things that must not matter, everywhere in the tree.
pub fn decorate(t: &mut Tape, el: &mut DEl, rate: u32, known: &dyn Fn(&str, &str) -> bool) {
    let mut n = 0;
    dec(t, el, rate, known, &mut n);
    if rate > 0 && t.rare(60) {
        // The same, but a lot of it.
        let cnt = el.count();
        let at = t.below(cnt);
        let e = el.nth(at);
        if t.rare(80) {
            // More than a 16-bit count of elements.
            fault(Fault::HugeContent);
            let one = || DEl { local: "h".into(), ..Default::default() };
            let c = DEl { kids: (0..66_000).map(|_| DNode::El(one())).collect(), ..one() };
            let at = t.below(e.kids.len() + 1);
            if !e.text {
                e.kids.insert(at, DNode::El(c));
            }
            return;
        }
        let node = match t.below(6) {
            0 => {
                let mut c = DEl { local: "bottom".into(), ..Default::default() };
                for i in 0..*t.pick(&[20usize, 70, 257, 600]) + t.below(3) {
                    c = DEl { local: format!("deep{}", i), kids: vec![DNode::El(c)], ..Default::default() };
                }
                DNode::El(c)
            }
            1 => {
                let kids = (0..*t.pick(&[20usize, 257, 600])).map(|i| DNode::El(DEl { local: format!("wide{}", i), ..Default::default() })).collect();
                DNode::El(DEl { local: "wide".into(), kids, ..Default::default() })
            }
            2 => DNode::Misc(format!("<!--{}-->", "- ".repeat(*t.pick(&[2000usize, 4096, 9000, 33000])))),
            3 => DNode::Misc(format!("<?long {}?>", "x".repeat(*t.pick(&[4096usize, 8190, 20000])))),
            4 => {
                many_attrs(t, e);
                DNode::Misc("<!-- many -->".into())
            }
            _ => {
                // Text in many pieces.
                let mut out = Vec::new();
                for k in std::mem::take(&mut e.kids) {
                    match k {
                        DNode::Text(s) if e.text => {
                            for (i, c) in s.chars().enumerate() {
                                out.push(if i % 5 == 4 && !"\r]".contains(c) { DNode::CData(c.into()) } else { DNode::Text(c.into()) });
                                out.push(DNode::Misc(if i % 7 == 3 { "<?x?>" } else { "<!---->" }.into()));
                            }
                        }
                        k => out.push(k),
                    }
                }
                e.kids = out;
                DNode::Misc("<!-- pieces -->".into())
            }
        };
        if !(e.text && matches!(node, DNode::El(_))) {
            let at = t.below(e.kids.len() + 1);
            e.kids.insert(at, node);
        }
    }
}
fn dec(t: &mut Tape, el: &mut DEl, rate: u32, known: &dyn Fn(&str, &str) -> bool, n: &mut usize) {
    // Unknown attributes.
    if t.chance(rate, 12) {
        for a in draw_attrs(t, 3) {
            if !known(&a.ns, &a.local) && !el.attrs.iter().any(|o| o.ns == a.ns && o.local == a.local) {
                let at = t.below(el.attrs.len() + 1);
                el.attrs.insert(at, a);
            }
        }
    }
    if !el.attrs.is_empty() && t.chance(rate, 60) {
        // A local name that is known, in a namespace that is not.
        let a = DAttr { ns: (*t.pick(NEAR)).into(), local: t.pick(&el.attrs).local.clone(), value: gen_text(t) };
        if !el.attrs.iter().any(|o| o.ns == a.ns && o.local == a.local) {
            el.attrs.push(a);
        }
    }
    if t.chance(1, 3) && el.attrs.len() > 1 {
        // The order of attributes is the writer's business.
        let i = t.below(el.attrs.len());
        let j = t.below(el.attrs.len());
        el.attrs.swap(i, j);
    }
    if el.text {
        if t.chance(rate, 8) {
            // Split the text with comments, instructions and CDATA.
            let mut out = Vec::new();
            for k in std::mem::take(&mut el.kids) {
                match k {
                    DNode::Text(s) => {
                        let chars: Vec<char> = s.chars().collect();
                        let cut = t.below(chars.len() + 1);
                        let (a, b): (String, String) = (chars[..cut].iter().collect(), chars[cut..].iter().collect());
                        if !a.is_empty() {
                            out.push(DNode::Text(a));
                        }
                        out.push(misc(t));
                        if !b.is_empty() {
                            if !b.contains("]]") && !b.contains('\r') && t.draw(2) == 1 {
                                out.push(DNode::CData(b));
                            } else {
                                out.push(DNode::Text(b));
                            }
                        }
                    }
                    k => out.push(k),
                }
            }
            el.kids = out;
        }
        return;
    }
    for k in &mut el.kids {
        if let DNode::El(c) = k {
            dec(t, c, rate, known, n);
        }
    }
    let extra = if t.chance(rate, 10) { 1 + t.below(3) } else { 0 };
    for _ in 0..extra {
        let node = match t.weighted(&[3, 2, 3, 1]) {
            0 => misc(t),
            1 => DNode::Text((*t.pick(&[" ", "\n  ", "stray", "a & b"])).to_owned()),
            2 => {
                let mut left = 1 + t.below(6);
                DNode::El(rename_unknown(gen_el(t, &mut left, n, 3), known))
            }
            _ => {
                // A local name that is known, in a namespace that is not.
                let mine: Vec<&str> = el.kids.iter().filter_map(|k| if let DNode::El(c) = k { Some(&c.local[..]) } else { None }).collect();
                let local = if mine.is_empty() || t.draw(2) == 0 { *t.pick(&["v", "name", "id", "Alpha", "x", "c"]) } else { *t.pick(&mine) }.to_owned();
                DNode::El(DEl {
                    ns: (*t.pick(NEAR)).into(),
                    local,
                    kids: vec![DNode::Text("zz".into())],
                    ..Default::default()
                })
            }
        };
        let at = t.below(el.kids.len() + 1);
        el.kids.insert(at, node);
    }
}
fn rename_unknown(mut e: DEl, known: &dyn Fn(&str, &str) -> bool) -> DEl {
    // Names e<n> are never known; their attributes don't matter because nothing reads them.
    debug_assert!(!known(&e.ns, &e.local));
    e.text = false;
    e
}

/// Reorders children of different names (field order must not matter) keeping same-name order.
pub fn shuffle_fields(t: &mut Tape, el: &mut DEl) {
    for k in &mut el.kids {
        if let DNode::El(c) = k {
            shuffle_fields(t, c);
        }
    }
    if el.text || el.kids.len() < 2 || !t.chance(1, 2) {
        return;
    }
    for _ in 0..el.kids.len() {
        let i = t.below(el.kids.len() - 1);
        let differ = match (&el.kids[i], &el.kids[i + 1]) {
            (DNode::El(a), DNode::El(b)) => a.local != b.local || a.ns != b.ns,
            _ => true,
        };
        if differ {
            el.kids.swap(i, i + 1);
        }
    }
}

/// Loses, doubles, moves or spoils elements, attributes and text.
pub fn element_faults(t: &mut Tape, root: &mut DEl, n: usize) {
    for _ in 0..n {
        let cnt = root.count();
        let i = t.below(cnt);
        let el = root.nth(i);
        match t.weighted(&[3, 3, 2, 2, 1, 1, 3, 1]) {
            0 if !el.kids.is_empty() => {
                let k = t.below(el.kids.len());
                el.kids.remove(k);
                fault(Fault::NodeLost);
            }
            1 if !el.kids.is_empty() => {
                let k = t.below(el.kids.len());
                let c = el.kids[k].clone();
                let at = if t.draw(2) == 0 { k + 1 } else { t.below(el.kids.len() + 1) };
                el.kids.insert(at, c);
                fault(Fault::NodeDup);
            }
            2 if el.kids.len() > 1 => {
                let a = t.below(el.kids.len());
                let b = t.below(el.kids.len());
                el.kids.swap(a, b);
                fault(Fault::NodeSwap);
            }
            3 if !el.attrs.is_empty() => {
                let k = t.below(el.attrs.len());
                el.attrs.remove(k);
                fault(Fault::AttrLost);
            }
            4 if !el.attrs.is_empty() => {
                let k = t.below(el.attrs.len());
                let a = el.attrs[k].clone();
                el.attrs.push(a);
                fault(Fault::AttrDup);
            }
            5 if el.attrs.len() > 1 => {
                let a = t.below(el.attrs.len());
                let b = t.below(el.attrs.len());
                el.attrs.swap(a, b);
                fault(Fault::AttrSwap);
            }
            6 => {
                fault(Fault::TextDamage);
                let junk = match t.below(5) {
                    0 => String::new(),
                    1 => "!err".to_owned(),
                    2 => "   ".to_owned(),
                    3 => gen_text(t),
                    _ => "99999999999999999999999999999999999999999999".to_owned(),
                };
                if !el.attrs.is_empty() && t.draw(2) == 1 {
                    let k = t.below(el.attrs.len());
                    el.attrs[k].value = junk;
                } else {
                    let at = el.kids.iter().position(|k| matches!(k, DNode::Text(_)));
                    match (at, junk.is_empty()) {
                        (Some(p), true) => {
                            el.kids.remove(p);
                        }
                        (Some(p), false) => el.kids[p] = DNode::Text(junk),
                        (None, false) => el.kids.push(DNode::Text(junk)),
                        _ => {}
                    }
                }
            }
            _ => {
                // Moved under another element: a subtree delivered to the wrong place.
                if !el.kids.is_empty() {
                    let k = t.below(el.kids.len());
                    let c = el.kids[k].clone();
                    let j = t.below(cnt);
                    root.nth(j).kids.push(c);
                    fault(Fault::NodeDup);
                }
            }
        }
    }
}

// ---- rendering ----------------------------------------------------------------------------------

pub struct Rendered {
    pub bytes: Vec<u8>,
    /// Interesting offsets.
    pub marks: Vec<usize>,
    /// Starts with a byte order mark, which xml-rs does not know.
    pub bom: bool,
}

struct Out<'t> {
    s: String,
    marks: Vec<usize>,
    scope: Vec<(String, String)>,
    t: &'t mut Tape,
    pretty: bool,
    odd: bool,
}

pub fn render(t: &mut Tape, root: &DEl) -> Rendered {
    let pretty = t.chance(1, 4);
    let odd = t.chance(1, 2);
    let mut o = Out { s: String::new(), marks: vec![0], scope: Vec::new(), t, pretty, odd };
    let mut bom = false;
    match o.t.weighted(&[24, 16, 8, 8, 3, 3, 3, 3, 1, 1]) {
        0 => o.s.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>"),
        1 => {}
        2 => o.s.push_str("<?xml version='1.1'?>\n"),
        4 => o.s.push_str("<?pre data?>"),
        5 => o.s.push_str("<!-- no declaration -->\n<?a b?> <?c?>"),
        6 => o.s.push_str("\n \n"),
        7 => o.s.push_str("<?xml version=\"1.0\"?><!DOCTYPE root>\n"),
        8 => o.s.push_str("<!DOCTYPE root>"),
        // xml-rs doesn't know this mark; what matters is that it is the same however it arrives.
        9 => {
            bom = true;
            o.s.push_str("\u{feff}<?xml version=\"1.0\"?>")
        }
        _ => o.s.push_str("<?xml version=\"1.0\" standalone=\"yes\"?>\n<!-- start -->\n<?pre data?>"),
    }
    o.marks.push(o.s.len());
    o.el(root, 0);
    o.marks.push(o.s.len());
    match o.t.weighted(&[4, 1, 1, 1]) {
        0 => {}
        1 => o.s.push('\n'),
        2 => o.s.push_str("\n<!-- end -->\n"),
        _ => o.s.push_str("<?post data?>"),
    }
    o.marks.push(o.s.len());
    o.marks.sort_unstable();
    o.marks.dedup();
    Rendered { bytes: o.s.into_bytes(), marks: o.marks, bom }
}

const PREFIXES: &[&str] = &["a", "b", "", "ns1", "x", "a2", "q"];

impl<'t> Out<'t> {
    fn mark(&mut self) {
        self.marks.push(self.s.len());
    }
    fn in_scope(&self, prefix: &str) -> Option<&str> {
        self.scope.iter().rev().find(|(p, _)| p == prefix).map(|(_, u)| &u[..])
    }
    /// Finds or declares a prefix for `url`; `used` are prefixes already relied on by this element.
    fn prefix(&mut self, url: &str, attr: bool, used: &mut Vec<String>, decls: &mut Vec<(String, String)>) -> String {
        if url == "http://www.w3.org/XML/1998/namespace" {
            return "xml".into();
        }
        if url.is_empty() {
            if attr {
                return String::new();
            }
            if self.in_scope("").map_or(false, |u| !u.is_empty()) {
                // The element's own prefix is chosen first, so nothing has claimed "" yet.
                decls.push((String::new(), String::new()));
                self.scope.push((String::new(), String::new()));
            }
            used.push(String::new());
            return String::new();
        }
        let mut have: Vec<String> = Vec::new();
        for (p, _) in self.scope.iter() {
            if self.in_scope(p) == Some(url) && !have.contains(p) && !(attr && p.is_empty()) {
                have.push(p.clone());
            }
        }
        if !have.is_empty() && !(self.odd && self.t.chance(1, 5)) {
            let i = self.t.below(have.len());
            used.push(have[i].clone());
            return have[i].clone();
        }
        let start = self.t.below(PREFIXES.len());
        for k in 0..PREFIXES.len() {
            let p = PREFIXES[(start + k) % PREFIXES.len()];
            if (attr && p.is_empty()) || used.iter().any(|u| u == p) || decls.iter().any(|d| d.0 == p) {
                continue;
            }
            decls.push((p.to_owned(), url.to_owned()));
            self.scope.push((p.to_owned(), url.to_owned()));
            used.push(p.to_owned());
            return p.to_owned();
        }
        for k in 0.. {
            let p = format!("p{}", k);
            if decls.iter().any(|d| d.0 == p) || used.contains(&p) {
                continue;
            }
            decls.push((p.clone(), url.to_owned()));
            self.scope.push((p.clone(), url.to_owned()));
            used.push(p.clone());
            return p;
        }
        unreachable!()
    }

    fn text(&mut self, s: &str) {
        let odd = self.odd && s.len() < 2000;
        for c in s.chars() {
            match c {
                '<' => self.s.push_str("&lt;"),
                '&' => self.s.push_str(if odd { "&#38;" } else { "&amp;" }),
                '>' => self.s.push_str("&gt;"),
                '\r' => self.s.push_str("&#xD;"),
                c if odd && !c.is_whitespace() && self.t.chance(1, 16) => {
                    if self.t.draw(2) == 0 {
                        self.s.push_str(&format!("&#{};", c as u32))
                    } else {
                        self.s.push_str(&format!("&#x{:x};", c as u32))
                    }
                }
                c => self.s.push(c),
            }
        }
    }
    fn value(&mut self, s: &str) -> char {
        let quote = if self.t.draw(2) == 0 { '"' } else { '\'' };
        self.s.push(quote);
        for c in s.chars() {
            match c {
                '<' => self.s.push_str("&lt;"),
                '&' => self.s.push_str("&amp;"),
                '"' if quote == '"' => self.s.push_str("&quot;"),
                '\'' if quote == '\'' => self.s.push_str("&#39;"),
                '\r' => self.s.push_str("&#13;"),
                '\n' => self.s.push_str("&#10;"),
                '\t' => self.s.push_str("&#9;"),
                c => self.s.push(c),
            }
        }
        self.s.push(quote);
        quote
    }
    fn newline(&mut self, depth: usize) {
        self.s.push('\n');
        for _ in 0..depth {
            self.s.push_str("  ");
        }
    }

    fn el(&mut self, e: &DEl, depth: usize) {
        let scope_len = self.scope.len();
        let mut used = Vec::new();
        let mut decls = Vec::new();
        // Gratuitous declarations first.
        if self.odd && self.t.chance(1, 6) {
            let p = *self.t.pick(PREFIXES);
            let u = *self.t.pick(&URLS[1..]);
            if !(p.is_empty() && e.ns.is_empty()) {
                decls.push((p.to_owned(), u.to_owned()));
                self.scope.push((p.to_owned(), u.to_owned()));
            }
        }
        let p = self.prefix(&e.ns, false, &mut used, &mut decls);
        let name = qname(&p, &e.local);
        let attrs: Vec<(String, &str)> = e
            .attrs
            .iter()
            .map(|a| {
                let p = self.prefix(&a.ns, true, &mut used, &mut decls);
                (qname(&p, &a.local), &a.value[..])
            })
            .collect();
        self.mark();
        self.s.push('<');
        self.mark();
        self.s.push_str(&name);
        self.mark();
        let decl_first = self.t.draw(2) == 0;
        if decl_first {
            self.decls(&decls);
        }
        for (n, v) in &attrs {
            self.s.push_str(if self.odd && self.t.chance(1, 4) { "\n  " } else { " " });
            self.s.push_str(n);
            self.s.push_str(if self.odd && self.t.chance(1, 6) { " = " } else { "=" });
            self.mark();
            self.value(v);
            self.mark();
        }
        if !decl_first {
            self.decls(&decls);
        }
        if e.kids.is_empty() && self.t.draw(3) > 0 {
            self.s.push_str(if self.t.draw(2) == 0 { "/>" } else { " />" });
            self.marks.push(self.s.len() - 1);
        } else {
            self.mark();
            self.s.push('>');
            self.mark();
            let mixed = e.text || e.kids.iter().any(|k| matches!(k, DNode::Text(_) | DNode::CData(_)));
            let mut last_text = false;
            for k in &e.kids {
                if self.pretty && !mixed {
                    self.newline(depth + 1);
                }
                match k {
                    DNode::El(c) => self.el(c, depth + 1),
                    DNode::Text(s) => {
                        self.text(s);
                        if s.len() > 1 {
                            let at = self.s.len() - s.chars().last().unwrap().len_utf8();
                            if self.s.is_char_boundary(at) {
                                self.marks.push(at);
                            }
                        }
                    }
                    DNode::CData(s) => {
                        self.s.push_str("<![CDATA[");
                        self.mark();
                        self.s.push_str(s);
                        self.mark();
                        self.s.push_str("]]>");
                    }
                    DNode::Misc(s) => self.s.push_str(s),
                }
                last_text = matches!(k, DNode::Text(_));
                self.mark();
            }
            let _ = last_text;
            if self.pretty && !mixed && !e.kids.is_empty() {
                self.newline(depth);
            }
            self.mark();
            self.s.push_str("</");
            self.s.push_str(&name);
            self.mark();
            if self.odd && self.t.chance(1, 8) {
                self.s.push(' ');
            }
            self.s.push('>');
        }
        self.mark();
        self.scope.truncate(scope_len);
    }
    fn decls(&mut self, decls: &[(String, String)]) {
        for (p, u) in decls {
            self.s.push(' ');
            self.s.push_str("xmlns");
            if !p.is_empty() {
                self.s.push(':');
                self.s.push_str(p);
            }
            self.s.push('=');
            self.value(u);
        }
    }
}
fn qname(p: &str, l: &str) -> String {
    if p.is_empty() {
        l.to_owned()
    } else {
        format!("{}:{}", p, l)
    }
}

/// An offset at which something may strike: often at a token boundary.
pub fn pick_offset(t: &mut Tape, r: &Rendered) -> usize {
    if t.draw(2) == 0 {
        *t.pick(&r.marks)
    } else {
        t.below(r.bytes.len() + 1)
    }
}
