//! The properties: for each, one simulated run (workload, faults, schedule, oracle).

use std::sync::OnceLock;
use std::sync::Arc;

use crate::docgen::{self, DEl, Rendered};
use crate::io;
use crate::ops::{clip, Opts, ReadOp, TypeOps, What, WriteOp};
use crate::schema::*;
use crate::script::{draw_flat, draw_script, Nasty};
use crate::serscript::{self, SerCfg};
use crate::tape::Tape;

mod isolation;
mod memory;
mod reading;
mod writing;
pub use writing::plant_skipped;

pub struct Ctx {
    /// The run did something the property is about.
    pub nontrivial: bool,
    /// One line describing the run.
    pub note: String,
    pub hash_seed: u64,
}
#[derive(Clone, Debug)]
pub struct Bad {
    pub class: String,
    pub detail: String,
}
pub type Res = Result<(), Bad>;
pub fn bad<T>(class: &str, detail: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { class: class.to_owned(), detail: detail.into() })
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Tape, &mut Ctx) -> Res,
    /// Number of runs per tier.
    pub quick: u64,
    pub thorough: u64,
    /// How a run is made, and what makes it non-trivial.
    pub rule: &'static str,
    /// Faults and conditions which must have been reached for the check to mean anything.
    pub expect: &'static [&'static str],
}

pub fn all() -> Vec<Prop> {
    let mut v = reading::props();
    v.extend(writing::props());
    v.extend(isolation::props());
    v.extend(memory::props());
    v.sort_by_key(|p| p.id);
    v
}

/// For the properties which compare with a process without a past.
pub fn start_zygote(id: &str) {
    match id {
        "C12" => crate::zygote::start(|t, seed| isolation::pristine(t, seed, 8, true)),
        "C16" => crate::zygote::start(|t, seed| isolation::pristine(t, seed, 20, false)),
        _ => {}
    }
}

// ---- drawing operations -------------------------------------------------------------------------------

pub const KIND: Nasty = Nasty { errors: false, swallow: false, panics: false };
pub const RUDE: Nasty = Nasty { errors: true, swallow: true, panics: false };
pub const WILD: Nasty = Nasty { errors: true, swallow: true, panics: true };

fn types(pred: fn(&TypeOps) -> bool) -> Vec<&'static TypeOps> {
    crate::gen_types::TYPES.iter().filter(|t| pred(t)).collect()
}
pub fn plain_types() -> &'static [&'static TypeOps] {
    static V: OnceLock<Vec<&'static TypeOps>> = OnceLock::new();
    V.get_or_init(|| types(|t| t.flats == 0))
}
pub fn host_types() -> &'static [&'static TypeOps] {
    static V: OnceLock<Vec<&'static TypeOps>> = OnceLock::new();
    V.get_or_init(|| types(|t| t.flats > 0))
}
pub fn tok_types() -> &'static [&'static TypeOps] {
    static V: OnceLock<Vec<&'static TypeOps>> = OnceLock::new();
    V.get_or_init(|| types(|t| t.tok))
}
pub fn ser_types() -> &'static [&'static TypeOps] {
    static V: OnceLock<Vec<&'static TypeOps>> = OnceLock::new();
    V.get_or_init(|| types(|t| t.write.is_some()))
}

/// Attribute names any type knows: never used as decoration.
pub fn known_attr(ns: &str, local: &str) -> bool {
    static V: OnceLock<Vec<(&'static str, &'static str)>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = Vec::new();
        for t in crate::gen_types::TYPES {
            if let Ty::Struct(s) = t.ty {
                v.extend(s.fields.iter().filter(|f| f.kind == Kind::Attr).map(|f| (f.ns, f.local)));
            }
        }
        v
    })
    .contains(&(ns, local))
}

pub struct Drawn {
    pub op: ReadOp,
    pub r: Rendered,
    /// The value the document was made from, if nothing was damaged.
    pub val: Option<Val>,
    pub damaged: bool,
}

#[derive(Clone, Copy)]
pub struct DrawCfg {
    /// Weights of: scripted root, derived type, derived host with scripted fields.
    pub mix: [u32; 3],
    pub nasty: Nasty,
    /// Out of 12, how often elements are lost, doubled, moved...
    pub el_faults: u32,
    /// Out of 12, how often bytes are damaged.
    pub byte_faults: u32,
    pub tok: bool,
    pub max: usize,
}

pub fn draw_read(t: &mut Tape, c: DrawCfg) -> Drawn {
    let which = t.weighted(&c.mix);
    let mut script = draw_script(t, c.nasty);
    let mut val = None;
    let mut damaged = false;
    let (ty, mut root) = match which {
        0 => (None, docgen::draw_tree(t, c.max)),
        w => {
            let pool = match (c.tok, w) {
                (true, _) => tok_types(),
                (_, 1) => plain_types(),
                _ => host_types(),
            };
            let ty = *t.pick(pool);
            if ty.flats > 0 {
                script.flat = draw_flat(t, c.nasty, ty.flats);
            }
            let v = gen_root(t, &ty.ty);
            let (ns, local) = match ty.ty {
                Ty::Struct(s) => s.root,
                Ty::Enum(e) => e.root,
                Ty::Text(_) => ("", "text"),
            };
            let mut el = docgen::build(t, &ty.ty, &v, ns, local, true);
            let rate = *t.pick(if ty.flats > 0 { &[6u32, 9, 2, 0] } else { &[0u32, 2, 5, 9] });
            docgen::decorate(t, &mut el, rate, &known_attr);
            docgen::shuffle_fields(t, &mut el);
            // A duplicate-free reshuffle of list items was avoided, so the value is unchanged.
            val = Some(v);
            (Some(ty), el)
        }
    };
    embed(t, &mut root, &script);
    if script.flat.is_empty() {
        script.flat = vec![Default::default()];
        script.flat[0].acts = vec![crate::script::Act::Drop];
        script.flat[0].attrs = vec![crate::script::Leaf::Take];
        script.flat[0].texts = vec![crate::script::Leaf::Take];
    }
    if c.el_faults > 0 && t.chance(c.el_faults, 12) {
        let n = 1 + t.below(3);
        docgen::element_faults(t, &mut root, n);
        damaged = true;
    }
    let mut r = docgen::render(t, &root);
    if c.byte_faults > 0 && t.chance(c.byte_faults, 12) {
        let n = 1 + t.below(3);
        io::damage(t, &mut r.bytes, n);
        damaged = true;
        let len = r.bytes.len();
        for m in &mut r.marks {
            *m = (*m).min(len);
        }
    }
    if damaged || r.bom {
        val = None;
    }
    let data: Arc<[u8]> = r.bytes.clone().into();
    Drawn { op: ReadOp { ty, script: Arc::new(script), data }, r, val, damaged }
}

/// Gives scripted code which reads children into derived types some that fit.
fn embed(t: &mut Tape, root: &mut DEl, script: &crate::script::Script) {
    use crate::script::{key, nested_types, Act};
    let tables = script.flat.iter().map(|f| &f.acts).chain(std::iter::once(&script.acts));
    let mut makers = Vec::new();
    for acts in tables {
        for (i, a) in acts.iter().enumerate() {
            if let Act::ReadTy(ty, _) = a {
                makers.push((format!("e{}", i), nested_types()[*ty as usize]));
            }
        }
    }
    for (local, ty) in makers {
        if key(&local) > 12 || t.chance(1, 3) {
            continue;
        }
        let v = gen_ty(t, &ty.ty, 1);
        let el = DEl { loose: false, ..docgen::build(t, &ty.ty, &v, "", &local, true) };
        // Into some element of the top.
        let mut at = &mut *root;
        while t.chance(1, 2) {
            let els: Vec<usize> = (0..at.kids.len()).filter(|&i| matches!(at.kids[i], docgen::DNode::El(_))).collect();
            if els.is_empty() {
                break;
            }
            at = match &mut at.kids[*t.pick(&els)] {
                docgen::DNode::El(e) => e,
                _ => unreachable!(),
            };
        }
        if at.text {
            continue;
        }
        let i = t.below(at.kids.len() + 1);
        at.kids.insert(i, docgen::DNode::El(el));
    }
}

pub fn show_doc(d: &[u8]) -> String {
    clip(&String::from_utf8_lossy(d).replace('\n', "\\n"), 700)
}

pub fn draw_opts(t: &mut Tape) -> Opts {
    Opts { indent: t.chance(1, 4), no_decl: t.chance(1, 5), name: None }
}

pub fn draw_write_val(t: &mut Tape) -> WriteOp {
    let ty = *t.pick(ser_types());
    let v = gen_root(t, &ty.ty);
    let mut opts = draw_opts(t);
    if t.chance(1, 6) {
        opts.name = Some(("", "other-root"));
        if let Ty::Struct(s) = ty.ty {
            // Inside a default namespace an element without one cannot be named.
            if s.name.starts_with('D') && s.name != "Deep" && s.name != "Defaults" {
                opts.name = None;
            }
        }
    }
    WriteOp { what: What::Val(ty, Arc::new(v)), opts }
}
pub fn draw_write_script(t: &mut Tape, cfg: SerCfg) -> WriteOp {
    let n = serscript::draw_snode(t, cfg);
    let opts = draw_opts(t);
    WriteOp { what: What::Script(Arc::new(n)), opts }
}
/// The tree a value denotes when written.
pub fn val_tree(ty: &Ty, v: &Val, name: (&str, &str)) -> DEl {
    let mut t = Tape::from_vals(Vec::new());
    docgen::build(&mut t, ty, v, name.0, name.1, false)
}
pub fn root_name(ty: &Ty) -> (&'static str, &'static str) {
    match ty {
        Ty::Struct(s) => s.root,
        Ty::Enum(e) => e.root,
        Ty::Text(_) => ("", "text"),
    }
}
