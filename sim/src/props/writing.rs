use super::*;
use crate::io::{ErrShape, SimSink, SinkFail, SinkPlan, SourcePlan, ERR_SHAPES};
use crate::ops::{ROut, WOut};
use crate::refxml::{self, Spaces};
use crate::script::{Script, USER_PANIC};
use crate::serscript::{model, MRes};
use crate::state::{ev, fault, probe, Fault};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            run: c08,
            quick: 800_000,
            thorough: 18_000_000,
            rule: "one value or tree of builder calls serialized to a string and then to 2-3 sinks with short and interrupted writes, directly or through std buffering writers of several sizes, some of which fail only when flushed; non-trivial when a write was short or interrupted or buffered",
            expect: &["short_write", "write_interrupted", "flush_error", "buffered", "write_error"],
        },
        Prop {
            id: "C09",
            run: c09,
            quick: 800_000,
            thorough: 18_000_000,
            rule: "one value or tree of builder calls (error-ignoring code included) serialized to a well-behaved sink and then to 2-4 sinks that fail at a byte offset, at a write call, or on flush, some recovering afterwards; non-trivial when the failure struck",
            expect: &["write_error", "write_accepts_nothing", "disk_full", "serialize_code_ignores_error", "flush_error"],
        },
        Prop {
            id: "C10",
            run: c10,
            quick: 1_500_000,
            thorough: 32_000_000,
            rule: "one tree of builder calls in which builders and writers are abandoned and code fails or panics at drawn points, with enclosing code that ignores or catches it, under a slow sink; non-trivial when something was abandoned, failed or panicked",
            expect: &["builder_abandoned", "writer_abandoned", "serialize_code_error", "serialize_code_panic", "serialize_code_ignores_error", "ignored and carried on", "sink_panics", "undeclared_namespace_used"],
        },
        Prop {
            id: "C11",
            run: c11,
            quick: 800_000,
            thorough: 18_000_000,
            rule: "one value of a derived type written through a faulty sink into a store, which may be torn at any offset by a crash, and read back through a faulty source; non-trivial when the value has at least two parts",
            expect: &["crash_torn_store", "disk_full", "short_write", "read_interrupted", "skipped variant", "round trip"],
        },
        Prop {
            id: "C15",
            run: c15,
            quick: 850_000,
            thorough: 20_000_000,
            rule: "one tree of builder calls (or one derived value) with namespace requests from a pool that clashes, rejected calls that are recovered from, and hard text, under a slow sink; the bytes are parsed by an independent parser and compared with the tree described; non-trivial when there are at least two elements",
            expect: &["duplicate_attribute_call", "serialize_code_ignores_error", "short_write", "compared"],
        },
    ]
}

const CLEAN: SerCfg = SerCfg { rejects: false, spoil: false, swallow: false, max: 14 };

fn draw_write(t: &mut Tape, cfg: SerCfg) -> WriteOp {
    if t.draw(2) == 0 {
        draw_write_val(t)
    } else {
        draw_write_script(t, cfg)
    }
}
pub fn show_op(o: &WriteOp) -> String {
    match &o.what {
        What::Val(t, v) => format!("{} {} {:?}", t.name, clip(&format!("{:?}", v), 500), o.opts),
        What::Script(n) => format!("script {} {:?}", clip(&format!("{:?}", n), 900), o.opts),
    }
}

fn c08(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let op = draw_write(t, SerCfg { rejects: true, swallow: true, ..CLEAN });
    let (sout, want) = op.string();
    ctx.note = clip(&format!("{} -> {:?} {}", show_op(&op), sout, want), 400);
    if let WOut::Panic(p) = &sout {
        return bad("panic", format!("{}; {}", p, show_op(&op)));
    }
    if sout == WOut::Ok {
        if let Err(e) = refxml::parse(want.as_bytes()) {
            return bad("not-a-document", format!("{}: {}; {}", e, clip(&want, 700), show_op(&op)));
        }
    }
    let n = 2 + t.below(2);
    for _ in 0..n {
        let mut plan = SinkPlan::draw_delivery(t, want.len());
        let buffered = t.chance(1, 2);
        let fl = buffered && t.chance(1, 3);
        if !buffered {
            let r = op.run(plan.clone());
            ctx.nontrivial |= r.sink.calls > 4;
            let what = |m: &str| format!("{} under {:?}: sink has {}; whole document is {}; {}", m, plan, show_doc(&r.sink.bytes), show_doc(want.as_bytes()), show_op(&op));
            match (&r.out, &sout) {
                (WOut::Ok, WOut::Ok) => {
                    if r.sink.bytes != want.as_bytes() {
                        return bad("wrong-bytes", what("bytes differ"));
                    }
                    if r.sink.flushed_len != r.sink.bytes.len() {
                        return bad("not-flushed", what("the sink was not flushed"));
                    }
                }
                (WOut::Err(_), WOut::Err(_)) => {}
                (a, b) => return bad("outcome-differs", what(&format!("{:?} rather than {:?}", a, b))),
            }
            continue;
        }
        probe("buffered");
        ctx.nontrivial = true;
        let cap = *t.pick(&[8192usize, 1, 16, 200, 100_000]);
        let line = t.chance(1, 4);
        // A device that fails only once the buffer is written out.
        let mut doomed = false;
        if fl && sout == WOut::Ok && !want.is_empty() {
            doomed = true;
            let at = t.below(want.len());
            let shape = *t.pick(ERR_SHAPES);
            if t.draw(2) == 0 {
                plan.fail = Some((at, SinkFail::Error { shape, nonce: 1 }));
            } else {
                plan.flush_fail = Some((shape, 2));
            }
        }
        let (sink, st) = SimSink::new(plan.clone());
        let (r, left) = if line {
            let mut w = std::io::LineWriter::with_capacity(cap, sink);
            let r = op.run_into(&mut w, &st);
            (r, Vec::new())
        } else {
            let mut w = std::io::BufWriter::with_capacity(cap, sink);
            let r = op.run_into(&mut w, &st);
            let left = w.buffer().to_vec();
            let (_, _) = w.into_parts();
            (r, left)
        };
        let what = |m: &str| {
            format!("{} (buffer of {}, {:?}): {:?}, sink has {} bytes, {} left in the buffer, document has {}; {}", m, cap, plan, r.out, r.sink.bytes.len(), left.len(), want.len(), show_op(&op))
        };
        match &r.out {
            WOut::Ok if doomed => return bad("lost-in-buffer", what("Ok although the device failed")),
            WOut::Ok => {
                if sout != WOut::Ok {
                    return bad("outcome-differs", what("Ok, though to_string failed"));
                }
                if !left.is_empty() || r.sink.bytes != want.as_bytes() || r.sink.flushed_len != want.len() {
                    return bad("not-flushed", what("Ok before everything arrived"));
                }
            }
            WOut::Err(e) if doomed => {
                if r.sink.failed || r.sink.flush_failed {
                    if !r.sink.fail_msg.is_empty() && !e.contains(&r.sink.fail_msg) {
                        return bad("message-lost", what(&format!("{:?} does not mention {:?}", e, r.sink.fail_msg)));
                    }
                } else {
                    return bad("outcome-differs", what("failed without a reason"));
                }
            }
            WOut::Err(_) => {
                if sout == WOut::Ok {
                    return bad("outcome-differs", what("failed without a reason"));
                }
            }
            WOut::Panic(p) => return bad("panic", what(p)),
        }
    }
    Ok(())
}

fn c09(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let op = draw_write(t, SerCfg { rejects: true, swallow: true, ..CLEAN });
    let base = op.run(SinkPlan::plain());
    if let WOut::Panic(p) = &base.out {
        return bad("panic", format!("{}; {}", p, show_op(&op)));
    }
    let n = 2 + t.below(3);
    for _ in 0..n {
        let mut plan = if t.draw(2) == 0 { SinkPlan::plain() } else { SinkPlan::draw_delivery(t, base.sink.bytes.len()) };
        let shape = *t.pick(ERR_SHAPES);
        let kind = match t.weighted(&[10, 4, 2, 1]) {
            3 => SinkFail::Panic,
            0 => SinkFail::Error { shape, nonce: t.seed() },
            1 => SinkFail::Zero,
            _ => SinkFail::Error { shape: ErrShape::Os(28), nonce: 28 },
        };
        match t.weighted(&[5, 4, 1]) {
            0 => plan.fail = Some((t.below(base.sink.bytes.len() + 1), kind)),
            1 => plan.fail_call = Some((t.below(base.sink.calls as usize + 1) as u64, kind)),
            _ => plan.flush_fail = Some((shape, t.seed())),
        }
        plan.recover = t.chance(1, 3);
        let r = op.run(plan.clone());
        ctx.note = clip(&format!("{:?} {:?} {:?} -> {:?} after {} bytes; {}", plan.fail, plan.fail_call, plan.flush_fail, r.out, r.sink.bytes.len(), show_op(&op)), 400);
        let what = |m: &str| {
            format!("{}: {:?}; sink failed with {:?} and has {}; the document is {}; plan {:?}; {}", m, r.out, r.sink.fail_msg, show_doc(&r.sink.bytes), show_doc(&base.sink.bytes), plan, show_op(&op))
        };
        if !base.sink.bytes.starts_with(&r.sink.bytes) {
            return bad("not-a-prefix", what("bytes accepted are not a prefix"));
        }
        if r.sink.failed || r.sink.flush_failed {
            ctx.nontrivial = true;
            match &r.out {
                WOut::Ok => return bad("failure-masked", what("Ok although the sink failed")),
                WOut::Panic(p) if r.sink.panicked && p.contains(USER_PANIC) => {}
                WOut::Panic(p) => return bad("panic", what(p)),
                WOut::Err(_) if r.sink.panicked => return bad("panic-lost", what("the sink's panic was lost")),
                WOut::Err(e) => {
                    if base.out == WOut::Ok && !r.sink.fail_msg.is_empty() && !e.contains(&r.sink.fail_msg) {
                        return bad("message-lost", what("the sink's message is missing"));
                    }
                }
            }
            if r.sink.failed && r.sink.calls_after_fail > 0 {
                return bad("writes-after-failure", what("written to after it failed"));
            }
        } else if r.out != base.out {
            return bad("outcome-differs", what("no failure struck"));
        } else if r.sink.bytes != base.sink.bytes {
            return bad("wrong-bytes", what("no failure struck"));
        }
    }
    Ok(())
}

fn c10(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let op = draw_write_script(t, SerCfg { rejects: true, spoil: true, swallow: true, max: 16 });
    let node = match &op.what {
        What::Script(n) => n.clone(),
        _ => unreachable!(),
    };
    let m = model(&node);
    let mut plan = if t.draw(2) == 0 { SinkPlan::plain() } else { SinkPlan::draw_delivery(t, 300) };
    let to_string = t.chance(1, 6);
    let sink_panics = !to_string && t.chance(1, 8);
    if sink_panics {
        plan.fail = Some((t.below(300), SinkFail::Panic));
        plan.recover = t.draw(2) == 1;
    }
    let (out, r) = if to_string {
        (op.string().0, None)
    } else {
        let r = op.run(plan);
        (r.out.clone(), Some(r))
    };
    ctx.nontrivial = m.res != MRes::Ok;
    ctx.note = clip(&format!("expect {:?}, got {:?}; {}", m.res, out, show_op(&op)), 400);
    let what = |s: &str| format!("{}: {:?}, expected {:?}; sink {:?}; {}", s, out, m.res, r.as_ref().map(|r| show_doc(&r.sink.bytes)), show_op(&op));
    if let (true, Some(r)) = (sink_panics, &r) {
        if r.sink.failed {
            // Code in between may have caught the panic.
            ctx.nontrivial = true;
            if out == WOut::Ok {
                return bad("spoiled-but-ok", what("success although the sink panicked"));
            }
            if r.sink.calls_after_fail > 0 {
                return bad("output-continues", what("written to after the sink panicked"));
            }
            return Ok(());
        }
    }
    match (&out, m.res) {
        (WOut::Err(_) | WOut::Panic(_), _) if m.loose => {}
        (WOut::Ok, MRes::Ok) => {}
        (WOut::Err(_), MRes::Err) => {}
        (WOut::Panic(p), MRes::Panic) if p.contains(USER_PANIC) => {}
        (WOut::Ok, _) => return bad("spoiled-but-ok", what("success after a failure")),
        (WOut::Panic(_), _) => return bad("panic", what("panicked")),
        (WOut::Err(_), MRes::Ok) => return bad("failed-without-reason", what("nothing was spoiled")),
        (WOut::Err(_), _) => return bad("panic-lost", what("the panic was lost")),
    }
    if let Some(r) = &r {
        if let Some(at) = r.spoiled_at {
            if m.res == MRes::Err && r.sink.calls > 0 {
                probe("ignored and carried on");
            }
            if m.res == MRes::Ok {
                return bad("model", what("spoiled, yet expected to succeed"));
            }
            if r.sink.bytes.len() != at {
                return bad("output-continues", what(&format!("{} bytes were added after it was spoiled at {}", r.sink.bytes.len() - at, at)));
            }
        }
    }
    Ok(())
}

/// Puts a variant that cannot be written somewhere into the value; false if there is no place.
pub fn plant_skipped(t: &mut Tape, ty: &Ty, v: &mut Val) -> bool {
    match (ty, v) {
        (_, Val::O(Some(b))) => plant_skipped(t, ty, b),
        (_, Val::L(l)) if !l.is_empty() => {
            let i = t.below(l.len());
            plant_skipped(t, ty, &mut l[i])
        }
        (Ty::Struct(s), Val::S(f)) => {
            let start = t.below(f.len().max(1));
            (0..f.len()).any(|k| {
                let i = (start + k) % f.len();
                plant_skipped(t, &s.fields[i].ty, &mut f[i])
            })
        }
        (Ty::Enum(e), v @ Val::E(..)) => {
            let skips: Vec<usize> = (0..e.variants.len()).filter(|&i| e.variants[i].skip).collect();
            if skips.is_empty() {
                return match v {
                    Val::E(i, p) => match &e.variants[*i].payload {
                        Some((_, ty)) => plant_skipped(t, ty, p),
                        None => false,
                    },
                    _ => false,
                };
            }
            let i = *t.pick(&skips);
            let p = match &e.variants[i].payload {
                None => Val::U,
                Some((_, ty)) => gen_ty(t, ty, 0),
            };
            *v = Val::E(i, Box::new(p));
            true
        }
        _ => false,
    }
}

fn c11(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut op = draw_write_val(t);
    let (ty, v) = match &op.what {
        What::Val(t, v) => (*t, v.clone()),
        _ => unreachable!(),
    };
    if t.chance(1, 12) {
        let mut v2 = (*v).clone();
        if plant_skipped(t, &ty.ty, &mut v2) {
            probe("skipped variant");
            op.what = What::Val(ty, Arc::new(v2));
            let r = op.run(SinkPlan::plain());
            return match r.out {
                WOut::Err(_) => Ok(()),
                o => bad("unwritable-accepted", format!("{:?}, wrote {}; {}", o, show_doc(&r.sink.bytes), show_op(&op))),
            };
        }
    }
    let mut plan = SinkPlan::draw_delivery(t, 400);
    let full = t.chance(1, 6);
    if full {
        plan.fail = Some((t.below(600), SinkFail::Error { shape: ErrShape::Os(28), nonce: 28 }));
    }
    let w = op.run(plan);
    let mut store = w.sink.bytes.clone();
    match &w.out {
        WOut::Ok => {}
        WOut::Err(_) if w.sink.failed => {}
        o => return bad("cannot-write", format!("{:?}; {}", o, show_op(&op))),
    }
    let mut torn = w.out != WOut::Ok;
    if t.chance(1, 2) && !store.is_empty() {
        let k = t.below(store.len());
        fault(Fault::Crash);
        ev(|| format!("crash at {} of {}", k, store.len()));
        let lost_only_space = w.out == WOut::Ok && store[k..].iter().all(|b| b.is_ascii_whitespace());
        store.truncate(k);
        torn |= !lost_only_space;
    }
    let rd = ReadOp { ty: Some(ty), script: Arc::new(Script::benign()), data: store.clone().into() };
    let plan = SourcePlan::draw_delivery(t, store.len());
    let r = rd.run(plan);
    ctx.note = clip(&format!("{} torn={} -> {}", show_op(&op), torn, r.out.short()), 400);
    ctx.nontrivial = w.sink.bytes.len() > 60;
    let what = |m: &str| format!("{}: wrote {:?}, read {}; store {}; {}", m, v, r.out.short(), show_doc(&store), show_op(&op));
    match (&r.out, torn) {
        (ROut::Ok(x), false) if *x == *v => {
            probe("round trip");
            Ok(())
        }
        (ROut::Err(_), true) => Ok(()),
        (ROut::Panic(_), _) => bad("panic", what("panicked")),
        (ROut::Ok(_), true) => bad("torn-accepted", what("a torn store was accepted")),
        (ROut::Ok(_), false) => bad("value-changed", what("another value came back")),
        (ROut::Err(_), false) => bad("unreadable", what("cannot be read back")),
    }
}

fn c15(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let op = if t.chance(1, 4) { draw_write_val(t) } else { draw_write_script(t, SerCfg { rejects: true, swallow: true, max: 20, spoil: false }) };
    let want = match &op.what {
        What::Script(n) => model(n).tree,
        What::Val(ty, v) => DEl { loose: true, ..val_tree(&ty.ty, v, op.opts.name.unwrap_or(root_name(&ty.ty))) },
    };
    let plan = if t.draw(2) == 0 { SinkPlan::plain() } else { SinkPlan::draw_delivery(t, 300) };
    let r = op.run(plan);
    ctx.note = clip(&format!("{} => {}", show_op(&op), show_doc(&r.sink.bytes)), 500);
    ctx.nontrivial = want.count() > 1;
    let what = |m: &str| format!("{}: {:?} {}; {}", m, r.out, show_doc(&r.sink.bytes), show_op(&op));
    match &r.out {
        WOut::Ok => {}
        WOut::Err(_) => return bad("refused", what("a valid sequence of calls was refused")),
        WOut::Panic(_) => return bad("panic", what("panicked")),
    }
    let got = match refxml::parse(&r.sink.bytes) {
        Ok(d) => d,
        Err(e) => return bad("not-well-formed", what(&e)),
    };
    probe("compared");
    let sp = if op.opts.indent { Spaces::Indented } else { Spaces::Exact };
    if let Err(e) = refxml::same(&want, &got, sp, true) {
        return bad("wrong-tree", what(&e));
    }
    Ok(())
}
