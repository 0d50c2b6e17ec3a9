//! A small strict XML 1.0 + namespaces parser, independent of xml-rs: what does this output denote?

use crate::docgen::{DAttr, DEl, DNode};

pub type P<T> = Result<T, String>;

struct Parser<'a> {
    s: &'a [char],
    i: usize,
    scope: Vec<(String, String)>,
}

fn is_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r') || ('\u{20}'..='\u{d7ff}').contains(&c) || ('\u{e000}'..='\u{fffd}').contains(&c) || c >= '\u{10000}'
}
fn is_name_start(c: char) -> bool {
    c.is_ascii_alphabetic()
        || c == '_'
        || matches!(c, '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{2ff}' | '\u{370}'..='\u{37d}'
            | '\u{37f}'..='\u{1fff}' | '\u{200c}'..='\u{200d}' | '\u{2070}'..='\u{218f}' | '\u{2c00}'..='\u{2fef}'
            | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}' | '\u{10000}'..='\u{effff}')
}
fn is_name(c: char) -> bool {
    is_name_start(c) || c.is_ascii_digit() || matches!(c, '-' | '.' | '\u{b7}' | '\u{300}'..='\u{36f}' | '\u{203f}'..='\u{2040}')
}
fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

/// Parses a whole document. Character data is merged; comments and instructions are dropped.
pub fn parse(bytes: &[u8]) -> P<DEl> {
    let text = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {}", e))?;
    // Line-end normalisation comes before anything else.
    let text = text.replace("\r\n", "\n").replace('\r', "\n");
    let chars: Vec<char> = text.chars().collect();
    if let Some(c) = chars.iter().find(|c| !is_char(**c)) {
        return Err(format!("character {:?} is not allowed", c));
    }
    let mut p = Parser { s: &chars, i: 0, scope: vec![("xml".into(), crate::serscript::XML_NS.into())] };
    if p.looking_at("<?xml") && p.s.get(5).map_or(false, |c| is_ws(*c)) {
        p.decl()?;
    }
    p.misc()?;
    let root = p.element()?;
    p.misc()?;
    if p.i != p.s.len() {
        return Err(format!("something after the root: {:?}", p.rest()));
    }
    Ok(root)
}

impl<'a> Parser<'a> {
    fn rest(&self) -> String {
        self.s[self.i.min(self.s.len())..].iter().take(30).collect()
    }
    fn looking_at(&self, w: &str) -> bool {
        w.chars().enumerate().all(|(k, c)| self.s.get(self.i + k) == Some(&c))
    }
    fn eat(&mut self, w: &str) -> P<()> {
        if !self.looking_at(w) {
            return Err(format!("expected {:?} at {:?}", w, self.rest()));
        }
        self.i += w.chars().count();
        Ok(())
    }
    fn peek(&self) -> P<char> {
        self.s.get(self.i).copied().ok_or_else(|| "unexpected end".to_owned())
    }
    fn ws(&mut self) -> bool {
        let i = self.i;
        while self.s.get(self.i).map_or(false, |c| is_ws(*c)) {
            self.i += 1;
        }
        self.i > i
    }
    fn until(&mut self, w: &str) -> P<String> {
        let start = self.i;
        while self.i < self.s.len() {
            if self.looking_at(w) {
                let r = self.s[start..self.i].iter().collect();
                self.eat(w)?;
                return Ok(r);
            }
            self.i += 1;
        }
        Err(format!("no {:?} found", w))
    }
    fn quoted(&mut self) -> P<String> {
        let q = self.peek()?;
        if q != '"' && q != '\'' {
            return Err(format!("expected a quote at {:?}", self.rest()));
        }
        self.i += 1;
        self.until(&q.to_string())
    }
    fn decl(&mut self) -> P<()> {
        self.eat("<?xml")?;
        for (k, required) in [("version", true), ("encoding", false), ("standalone", false)] {
            let save = self.i;
            if !self.ws() || !self.looking_at(k) {
                if required {
                    return Err("no version in the declaration".into());
                }
                self.i = save;
                continue;
            }
            self.eat(k)?;
            self.ws();
            self.eat("=")?;
            self.ws();
            let v = self.quoted()?;
            match k {
                "version" if v != "1.0" && v != "1.1" => return Err(format!("version {:?}", v)),
                "encoding" if !v.eq_ignore_ascii_case("utf-8") => return Err(format!("encoding {:?}", v)),
                _ => {}
            }
        }
        self.ws();
        self.eat("?>")
    }
    fn misc(&mut self) -> P<()> {
        loop {
            self.ws();
            if self.looking_at("<!--") {
                self.comment()?;
            } else if self.looking_at("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> P<()> {
        self.eat("<!--")?;
        self.until("--")?;
        self.eat(">")
    }
    fn pi(&mut self) -> P<()> {
        self.eat("<?")?;
        let n = self.nc_name()?;
        if n.eq_ignore_ascii_case("xml") {
            return Err("misplaced declaration".into());
        }
        self.until("?>").map(|_| ())
    }
    fn nc_name(&mut self) -> P<String> {
        let start = self.i;
        if !is_name_start(self.peek()?) {
            return Err(format!("expected a name at {:?}", self.rest()));
        }
        while self.s.get(self.i).map_or(false, |c| is_name(*c)) {
            self.i += 1;
        }
        Ok(self.s[start..self.i].iter().collect())
    }
    fn qname(&mut self) -> P<(String, String)> {
        let a = self.nc_name()?;
        if self.looking_at(":") {
            self.i += 1;
            Ok((a, self.nc_name()?))
        } else {
            Ok((String::new(), a))
        }
    }
    fn reference(&mut self) -> P<char> {
        self.eat("&")?;
        let r = self.until(";")?;
        let c = match &r[..] {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            r => {
                let n = if let Some(h) = r.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok().filter(|_| h.bytes().all(|b| b.is_ascii_hexdigit()))
                } else if let Some(d) = r.strip_prefix('#') {
                    d.parse().ok().filter(|_| d.bytes().all(|b| b.is_ascii_digit()))
                } else {
                    None
                };
                n.and_then(char::from_u32).filter(|c| is_char(*c)).ok_or_else(|| format!("bad reference &{};", r))?
            }
        };
        Ok(c)
    }
    fn att_value(&mut self) -> P<String> {
        let q = self.peek()?;
        if q != '"' && q != '\'' {
            return Err(format!("expected a quote at {:?}", self.rest()));
        }
        self.i += 1;
        let mut v = String::new();
        loop {
            match self.peek()? {
                c if c == q => {
                    self.i += 1;
                    return Ok(v);
                }
                '<' => return Err("< in an attribute value".into()),
                '&' => v.push(self.reference()?),
                c => {
                    v.push(if is_ws(c) { ' ' } else { c });
                    self.i += 1;
                }
            }
        }
    }
    fn resolve(&self, prefix: &str) -> P<String> {
        match self.scope.iter().rev().find(|(p, _)| p == prefix) {
            Some((_, u)) => Ok(u.clone()),
            None if prefix.is_empty() => Ok(String::new()),
            None => Err(format!("prefix {:?} is not declared", prefix)),
        }
    }
    fn element(&mut self) -> P<DEl> {
        self.eat("<")?;
        let (prefix, local) = self.qname()?;
        let depth = self.scope.len();
        let mut raw: Vec<(String, String, String)> = Vec::new();
        let empty = loop {
            let sp = self.ws();
            if self.looking_at("/>") {
                self.eat("/>")?;
                break true;
            }
            if self.looking_at(">") {
                self.eat(">")?;
                break false;
            }
            if !sp {
                return Err(format!("expected white space at {:?}", self.rest()));
            }
            let (p, l) = self.qname()?;
            self.ws();
            self.eat("=")?;
            self.ws();
            let v = self.att_value()?;
            if raw.iter().any(|r| r.0 == p && r.1 == l) {
                return Err(format!("attribute {}:{} twice", p, l));
            }
            raw.push((p, l, v));
        };
        for (p, l, v) in &raw {
            let declared = if p == "xmlns" {
                if v.is_empty() {
                    return Err(format!("prefix {} undeclared", l));
                }
                l.clone()
            } else if p.is_empty() && l == "xmlns" {
                String::new()
            } else {
                continue;
            };
            if declared == "xmlns" || (declared == "xml") != (v == crate::serscript::XML_NS) || v == "http://www.w3.org/2000/xmlns/" {
                return Err(format!("reserved name in xmlns:{}={:?}", declared, v));
            }
            self.scope.push((declared, v.clone()));
        }
        let mut el = DEl { ns: self.resolve(&prefix)?, local: local.clone(), ..Default::default() };
        for (p, l, v) in raw {
            if p == "xmlns" || (p.is_empty() && l == "xmlns") {
                continue;
            }
            let ns = if p.is_empty() { String::new() } else { self.resolve(&p)? };
            if el.attrs.iter().any(|a| a.ns == ns && a.local == l) {
                return Err(format!("attribute {{{}}}{} twice", ns, l));
            }
            el.attrs.push(DAttr { ns, local: l, value: v });
        }
        if !empty {
            self.content(&mut el)?;
            let (p, l) = self.qname()?;
            if (&p, &l) != (&prefix, &local) {
                return Err(format!("</{}:{}> ends <{}:{}>", p, l, prefix, local));
            }
            self.ws();
            self.eat(">")?;
        }
        self.scope.truncate(depth);
        Ok(el)
    }
    fn content(&mut self, el: &mut DEl) -> P<()> {
        let mut text = String::new();
        let flush = |text: &mut String, el: &mut DEl| {
            if !text.is_empty() {
                el.kids.push(DNode::Text(std::mem::take(text)));
            }
        };
        loop {
            if self.looking_at("</") {
                self.eat("</")?;
                flush(&mut text, el);
                return Ok(());
            } else if self.looking_at("<![CDATA[") {
                self.eat("<![CDATA[")?;
                text.push_str(&self.until("]]>")?);
            } else if self.looking_at("<!--") {
                self.comment()?;
            } else if self.looking_at("<?") {
                self.pi()?;
            } else if self.looking_at("<") {
                flush(&mut text, el);
                let c = self.element()?;
                el.kids.push(DNode::El(c));
            } else if self.looking_at("&") {
                text.push(self.reference()?);
            } else if self.looking_at("]]>") {
                return Err("]]> in character data".into());
            } else {
                text.push(self.peek()?);
                self.i += 1;
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spaces {
    Exact,
    /// The writer was asked to indent, so white space around elements is its business.
    Indented,
}

fn norm(el: &DEl, sp: Spaces) -> Vec<DNode> {
    let mut out: Vec<DNode> = Vec::new();
    for k in &el.kids {
        match (out.last_mut(), k) {
            (_, DNode::Text(s)) if s.is_empty() => {}
            (Some(DNode::Text(a)), DNode::Text(b)) => a.push_str(b),
            (_, k) => out.push(k.clone()),
        }
    }
    if sp == Spaces::Indented && out.iter().any(|k| matches!(k, DNode::El(_))) {
        for k in &mut out {
            if let DNode::Text(s) = k {
                *s = s.trim_matches(is_ws).to_owned();
            }
        }
        out.retain(|k| !matches!(k, DNode::Text(s) if s.is_empty()));
    }
    out
}

/// Do `want` and `got` denote the same tree?
pub fn same(want: &DEl, got: &DEl, sp: Spaces, attr_order: bool) -> Result<(), String> {
    if want.loose {
        let mut w = unordered(want);
        w.loose = false;
        return same(&w, &unordered(got), sp, false);
    }
    let at = |s: String| Err(format!("in {{{}}}{}: {}", want.ns, want.local, s));
    if (&want.ns, &want.local) != (&got.ns, &got.local) {
        return at(format!("found {{{}}}{} instead", got.ns, got.local));
    }
    let show = |v: &[DAttr]| v.iter().map(|a| format!("{{{}}}{}={:?}", a.ns, a.local, a.value)).collect::<Vec<_>>().join(" ");
    let key = |v: &[DAttr]| {
        let mut k: Vec<_> = v.iter().map(|a| (a.ns.clone(), a.local.clone(), a.value.clone())).collect();
        if !attr_order {
            k.sort();
        }
        k
    };
    if key(&want.attrs) != key(&got.attrs) {
        return at(format!("attributes should be {} but are {}", show(&want.attrs), show(&got.attrs)));
    }
    let (a, b) = (norm(want, sp), norm(got, sp));
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(DNode::El(x)), Some(DNode::El(y))) => same(x, y, sp, attr_order)?,
            (Some(DNode::Text(x)), Some(DNode::Text(y))) if x == y => {}
            (x, y) => return at(format!("child {} should be {} but is {}", i, show_node(x), show_node(y))),
        }
    }
    Ok(())
}
fn show_node(n: Option<&DNode>) -> String {
    match n {
        None => "nothing".into(),
        Some(DNode::El(e)) => format!("<{{{}}}{}>", e.ns, e.local),
        Some(n) => format!("{:?}", n),
    }
}

/// The tree with child elements of different names in a fixed order. Derived types say nothing about
/// the order of different fields, only about the order within one.
pub fn unordered(e: &DEl) -> DEl {
    let mut r = e.clone();
    for k in &mut r.kids {
        if let DNode::El(c) = k {
            *c = unordered(c);
        }
    }
    r.kids.sort_by_key(|k| match k {
        DNode::El(c) => (0, c.ns.clone(), c.local.clone()),
        _ => (1, String::new(), String::new()),
    });
    r
}
