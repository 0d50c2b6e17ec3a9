//! Memory: what an operation holds on to, while it runs and after.

use super::*;
use crate::io::{ErrShape, SimSink, SimSource, SinkFail, SinkPlan, SourcePlan, Terminal, ERR_SHAPES};
use crate::ops::{guarded, read_as, Dest};
use crate::script::{self, ScriptRoot};
use crate::serscript::{AStep, CStep, SNode, Via, LOCALS, URLS};
use crate::state::{self, ev, probe};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        run: c21,
        quick: 60_000,
        thorough: 2_000_000,
        rule: "one in five: content no type knows, or siblings that user code drops or reads, put 150-300 and then eight times as often into one document, or as many children into one tree of builder calls, and the most memory held compared; otherwise one operation with any faults, failing, abandoning or panicking code, after which all memory must have come back; non-trivial when both sizes ended alike, or when the operation did not succeed",
        expect: &["passed content read", "passed content written", "read_error", "callback_panic", "source_panics", "write_error", "sink_panics", "builder_abandoned", "writer_abandoned", "serialize_code_panic"],
    }]
}

/// Runs `f`; the most it held, and what it kept.
fn held<T>(f: impl FnOnce() -> T) -> (isize, isize, T) {
    state::ALLOC_BALANCE.with(|b| b.set(0));
    state::ALLOC_PEAK.with(|b| b.set(0));
    state::ALLOC_TRACK.with(|b| b.set(true));
    let r = f();
    state::ALLOC_TRACK.with(|b| b.set(false));
    (state::ALLOC_PEAK.with(|b| b.get()), state::ALLOC_BALANCE.with(|b| b.get()), r)
}
/// Past this, memory grows.
const SLACK: isize = 1024;

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Ok,
    Err,
    Panic,
}
fn end<T, E>(r: Result<Result<T, E>, String>) -> End {
    match r {
        Ok(Ok(_)) => End::Ok,
        Ok(Err(_)) => End::Err,
        Err(message) => {
            // Made by the simulator.
            state::untracked(|| drop(message));
            End::Panic
        }
    }
}

fn read_held(op: &ReadOp, plan: SourcePlan) -> (isize, isize, End) {
    let (mut src, stats) = SimSource::new(&op.data, plan);
    let saved = script::swap(op.script.clone());
    script::set_quiet(true);
    let f = op.ty.map_or(read_as::<ScriptRoot> as fn(&mut dyn std::io::Read) -> _, |t| t.read);
    let (peak, kept, e) = held(|| end(guarded(|| f(&mut src).map(drop).map_err(drop))));
    script::set_quiet(false);
    script::restore(saved);
    drop(src);
    drop(stats);
    (peak, kept, e)
}
fn write_held(op: &WriteOp, plan: Option<SinkPlan>) -> (isize, isize, End) {
    let (peak, kept, e) = match plan {
        Some(p) => {
            let (mut sink, st) = SimSink::new(p);
            let saved = serscript::swap_mark(Some(st));
            let r = held(|| end(guarded(|| op.to(Dest::Sink(&mut sink)).map_err(drop))));
            serscript::restore_mark(saved);
            r
        }
        None => {
            let saved = serscript::swap_mark(None);
            let r = held(|| {
                let mut s = String::new();
                end(guarded(|| op.to(Dest::Str(&mut s)).map_err(drop)))
            });
            serscript::restore_mark(saved);
            r
        }
    };
    (peak, kept, e)
}

/// Something kept for later is not a leak, unless every time more is kept.
fn every_time(mut f: impl FnMut() -> (isize, isize, End)) -> (isize, isize, End) {
    let first = f();
    if first.1 > 0 {
        for _ in 0..3 {
            let again = f();
            if again.1 <= 0 {
                return again;
            }
        }
    }
    first
}

fn compare(ctx: &mut Ctx, what: &str, n: usize, a: (isize, isize, End), b: (isize, isize, End)) -> Res {
    ev(|| format!("{} {:?} {:?}", what, a, b));
    if a.2 != b.2 {
        return Ok(());
    }
    ctx.nontrivial = true;
    if b.0 > a.0 + SLACK {
        return bad("grows", format!("holds up to {} bytes with {} pieces, {} with {}: {}", a.0, n, b.0, 8 * n, what));
    }
    Ok(())
}

fn grow_read(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut d = draw_read(t, DrawCfg { mix: [3, 5, 2], nasty: Nasty { swallow: true, ..KIND }, el_faults: 0, byte_faults: 0, tok: false, max: 12 });
    const P: &[&str] = &[
        "<zzq/>", "<zzq a='1' b=\"22\">text</zzq>", "<z:zzq xmlns:z='urn:zz'><z:y/></z:zzq>", "<!-- comment -->", "<?pi some thing?>", " text ", "<![CDATA[data]]>", "<e0>x</e0>", "<e1><e2 a='b'/></e1>", "<e3/>t<e4/>",
        "<n#/>", "<zzq xmlns='urn:#'/>", "<zzq a#='#'>#</zzq>", "<p#:zzq xmlns:p#='u'/>", "<e5>&lt;#&amp;</e5>", "<q><q><q><q/>t</q></q></q>", "<!-- # -->",
    ];
    let mut unit = String::new();
    for _ in 0..1 + t.below(3) {
        unit.push_str(*t.pick(P));
    }
    if !unit.contains("/>") && !unit.contains("</") {
        // Or else it is all one run of text.
        unit.push_str("<x/>");
    }
    let at = *t.pick(&d.r.marks);
    let n = 150 + 50 * t.below(4);
    let base = d.r.bytes.clone();
    let mut make = |n: usize| {
        let mut b = base[..at].to_vec();
        for i in 0..n {
            b.extend_from_slice(unit.replace('#', &format!("{:06}", i)).as_bytes());
        }
        b.extend_from_slice(&base[at..]);
        d.op.data = b.into();
        let len = d.op.data.len();
        // (The first time, what is set up once and for all is.)
        let (peak, kept, e) = read_held(&d.op, SourcePlan::plain(len));
        let elements = if n > 1000 { None } else { crate::refmodel::parse_ref(&d.op.data, len, Terminal::Eof).map(|d| d.n_elements) };
        (peak, kept, e, elements)
    };
    let (_, _, _, none) = make(2);
    let (b, a) = (make(8 * n), make(n));
    // Within a comment, say, it is one piece however long.
    match (none, a.3) {
        (Some(e), Some(f)) if f >= e + n - 2 => {}
        _ => return Ok(()),
    }
    let (a, b) = ((a.0, a.1, a.2), (b.0, b.1, b.2));
    if a.2 == End::Ok && b.2 == End::Ok {
        probe("passed content read");
    }
    ctx.note = format!("{} <- {} x {} at {} of {} => {:?} {:?}", d.op.name(), n, unit, at, clip(&show_doc(&base), 160), a, b);
    compare(ctx, &format!("{} at {} in {} read as {}", unit, at, show_doc(&base), d.op.name()), n, a, b)
}

fn grow_write(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let root = serscript::draw_snode(t, SerCfg { rejects: true, spoil: false, swallow: true, max: 4 });
    let n = 150 + 50 * t.below(4);
    let spread = t.draw(2) == 1;
    let opts = draw_opts(t);
    let extra = SNode { ns: 0, local: t.below(LOCALS.len()), ..Default::default() };
    let make = |n: usize| {
        let mut r = root.clone();
        let kids = std::mem::take(&mut r.kids);
        for i in 0..n {
            let mut e = extra.clone();
            if spread {
                e.local = LOCALS.len() + i;
                e.ns = URLS.len() + i;
                e.attrs.push(AStep::Ns { prefix: i % 9, url: e.ns });
            }
            r.kids.push(CStep::Child { nodes: vec![e], via: Via::Manual, swallow: false, catch: false });
            if !kids.is_empty() {
                r.kids.push(kids[i % kids.len()].clone());
            }
        }
        let op = WriteOp { what: What::Script(Arc::new(r)), opts };
        write_held(&op, Some(SinkPlan::plain()))
    };
    make(2);
    let a = make(n);
    let b = make(8 * n);
    if a.2 == End::Ok && b.2 == End::Ok {
        probe("passed content written");
    }
    ctx.note = format!("{} x {:?} => {:?} {:?}", n, clip(&format!("{:?}", root), 200), a, b);
    compare(ctx, &format!("children of {}", clip(&format!("{:?}", root), 700)), n, a, b)
}

fn c21(t: &mut Tape, ctx: &mut Ctx) -> Res {
    match t.weighted(&[8, 8, 2, 1]) {
        0 => {
            let d = draw_read(t, DrawCfg { mix: [3, 4, 3], nasty: WILD, el_faults: 3, byte_faults: 2, tok: false, max: 24 });
            let mut plan = if t.draw(2) == 0 { SourcePlan::plain(d.op.data.len()) } else { SourcePlan::draw_delivery(t, d.op.data.len()) };
            if t.draw(2) == 1 {
                plan.end = docgen::pick_offset(t, &d.r);
                if t.chance(1, 4) {
                    plan.terminal = Terminal::Panic;
                } else if t.draw(2) == 1 {
                    plan.terminal = Terminal::Error { shape: *t.pick(ERR_SHAPES), nonce: 1 };
                }
            }
            read_held(&d.op, plan.clone());
            let (peak, kept, e) = every_time(|| read_held(&d.op, plan.clone()));
            ev(|| format!("kept {} of {}", kept, peak));
            ctx.nontrivial = e != End::Ok;
            ctx.note = format!("{} <- {} => {:?}, {} bytes held, {} kept", d.op.name(), clip(&show_doc(&d.op.data), 200), e, peak, kept);
            if kept > 0 {
                return bad("leaked-by-read", format!("{} bytes not freed after {:?}; {} <- {} under {:?}", kept, e, d.op.name(), show_doc(&d.op.data), plan));
            }
        }
        1 => {
            let op = if t.chance(1, 4) { draw_write_val(t) } else { draw_write_script(t, SerCfg { rejects: true, spoil: true, swallow: true, max: 16 }) };
            let plan = if t.chance(1, 6) {
                None
            } else {
                let mut p = SinkPlan::draw_delivery(t, 300);
                if t.draw(2) == 1 {
                    let kind = match t.draw(3) {
                        0 => SinkFail::Error { shape: *t.pick(ERR_SHAPES), nonce: 1 },
                        1 => SinkFail::Error { shape: ErrShape::Os(28), nonce: 28 },
                        _ => SinkFail::Panic,
                    };
                    p.fail = Some((t.below(300), kind));
                    p.recover = t.draw(2) == 1;
                }
                Some(p)
            };
            write_held(&op, plan.clone());
            let (peak, kept, e) = every_time(|| write_held(&op, plan.clone()));
            ev(|| format!("kept {} of {}", kept, peak));
            ctx.nontrivial = e != End::Ok;
            ctx.note = format!("{} => {:?}, {} bytes held, {} kept", op.name(), e, peak, kept);
            if kept > 0 {
                return bad("leaked-by-write", format!("{} bytes not freed after {:?}; {} under {:?}", kept, e, super::writing::show_op(&op), plan));
            }
        }
        2 => grow_read(t, ctx)?,
        _ => grow_write(t, ctx)?,
    }
    Ok(())
}
