use super::*;
use crate::io::{Chunking, SourcePlan, Terminal, ERR_SHAPES};
use crate::leaf;
use crate::ops::{agrees, guarded, ROut, ReadRun};
use crate::refmodel::{parse_ref, Class, RErr};
use crate::script::{self, USER_PANIC};
use crate::state::{self, ev, probe};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: c01,
            quick: 280_000,
            thorough: 8_000_000,
            rule: "one document, target and user code, with a fixed end (complete, cut, or failing source), read once from a source that delivers everything at once and then under 2-4 other deliveries (chunking, interrupted reads, latency); non-trivial when a read was interrupted or short and the document had at least two elements",
            expect: &["short_read", "read_interrupted", "stall", "read_error", "source_truncated", "as a string"],
        },
        Prop {
            id: "C02",
            run: c02,
            quick: 350_000,
            thorough: 10_000_000,
            rule: "one document cut at 1-4 offsets (half of them at token boundaries) before its root end tag is complete, read by derived, scripted (dropping, passing, swallowing) and host targets; non-trivial when the cut left a non-empty incomplete document",
            expect: &["source_truncated", "callback_swallows_error", "child_dropped_unread"],
        },
        Prop {
            id: "C03",
            run: c03,
            quick: 500_000,
            thorough: 14_000_000,
            rule: "one document whose source fails at 1-4 offsets with one of 37 error shapes, sometimes delivering again afterwards; non-trivial when the source failed before reading had failed for another reason",
            expect: &["read_error", "read_error_then_resumes", "callback_swallows_error", "child_dropped_unread"],
        },
        Prop {
            id: "C04",
            run: c04,
            quick: 220_000,
            thorough: 6_400_000,
            rule: "one document with a failing source, a cut, damage, or failing user code after a history of dropped/swallowed siblings; the error's stack (and those of swallowed errors) is compared with the reference model's; non-trivial when an error was returned or swallowed",
            expect: &["read_error", "source_truncated", "callback_error", "callback_swallows_error", "stored_byte_garbage", "position checked", "cause checked"],
        },
        Prop {
            id: "C05",
            run: c05,
            quick: 900_000,
            thorough: 24_000_000,
            rule: "one tree read by scripted user code that drops, passes, half-reads, fails on and swallows children, sometimes over a failing or damaged source; the full callback log and outcome are compared with the reference model's; non-trivial when a child was dropped, passed or swallowed",
            expect: &["child_dropped_unread", "child_passed_on", "callback_swallows_error", "callback_error", "callback_catches_panic", "source_panics"],
        },
        Prop {
            id: "C06",
            run: c06,
            quick: 750_000,
            thorough: 20_000_000,
            rule: "one document read into derived types whose leaves count their constructions and drops, with element-level and byte-level damage, cuts, failing source, failing and panicking leaf parsers and user code; repeated once under allocation accounting; non-trivial when at least one value was built and the read failed, or at least three were built",
            expect: &["read_error", "source_truncated", "callback_error", "callback_panic", "default panics", "source_panics", "element_lost", "element_duplicated"],
        },
        Prop {
            id: "C07",
            run: c07,
            quick: 350_000,
            thorough: 10_000_000,
            rule: "one heavily damaged document, garbage, or deeply nested unread content, with any source fault, and user code that never panics (1 in 40: unknown content 60-900 levels deep at a random place, whose stack use is compared with the same elements side by side); no panic, reads bounded by bytes plus interruptions plus a constant; non-trivial when something was damaged or faulted",
            expect: &["stored_byte_garbage", "stored_block_lost", "read_error", "eof_then_more_data", "deep", "deep unknown content skipped"],
        },
        Prop {
            id: "C13",
            run: c13,
            quick: 850_000,
            thorough: 24_000_000,
            rule: "one document with unclaimed attributes, children and text read by a derived host with several flattened fields that take, pass, fail and swallow (or by a scripted visitor); the log of every offer is compared with the reference model's; non-trivial when something was offered to a flattened field or passed on",
            expect: &["child_passed_on", "flat offers"],
        },
        Prop {
            id: "C14",
            run: c14,
            quick: 320_000,
            thorough: 8_800_000,
            rule: "one rendering of a value (random prefixes, redeclarations, quotes, references, CDATA, comments, unknown content, order) with element-level and byte-level damage; the outcome is compared with the reference interpretation of the bytes, and with the value when nothing was damaged; non-trivial when damaged or when the document has at least four elements",
            expect: &["element_lost", "element_duplicated", "attribute_lost", "text_damaged", "stored_byte_garbage", "stored_block_swapped", "value read back", "damaged but accepted", "rejected"],
        },
        Prop {
            id: "C20",
            run: c20,
            quick: 400_000,
            thorough: 12_000_000,
            rule: "one tree, host or derived document delivered in small chunks with waits between them, to user code that drops, half-reads, fails and swallows, over a source that may fail or end early; the bytes delivered when each callback was made, and when reading failed, are compared with the bytes the reference needed; non-trivial when callbacks were made after at least three chunks",
            expect: &["short_read", "stall", "read_error", "callback_error", "callback_swallows_error", "callback seen while waiting", "gave up early"],
        },
    ]
}

const ANY: DrawCfg = DrawCfg { mix: [3, 4, 2], nasty: RUDE, el_faults: 2, byte_faults: 1, tok: false, max: 24 };

fn is_user_panic(o: &ROut) -> bool {
    matches!(o, ROut::Panic(p) if p.contains(USER_PANIC))
}

fn draw_end(t: &mut Tape, d: &Drawn, nasty: Nasty) -> SourcePlan {
    let mut p = SourcePlan::plain(d.r.bytes.len());
    match t.weighted(&[12, 3, 3, nasty.panics as u32]) {
        0 => {}
        3 => {
            p.end = docgen::pick_offset(t, &d.r);
            p.terminal = Terminal::Panic;
        }
        1 => {
            p.end = docgen::pick_offset(t, &d.r);
            p.cut_is_fault = p.end < d.r.bytes.len();
        }
        _ => {
            p.end = docgen::pick_offset(t, &d.r);
            p.terminal = Terminal::Error { shape: *t.pick(ERR_SHAPES), nonce: t.seed() };
        }
    }
    p
}
fn redeliver(t: &mut Tape, p: &SourcePlan, len: usize) -> SourcePlan {
    let mut q = SourcePlan::draw_delivery(t, len);
    q.end = p.end;
    q.terminal = p.terminal;
    q.resume = p.resume;
    q.cut_is_fault = p.cut_is_fault;
    q
}

fn note(ctx: &mut Ctx, d: &Drawn, plan: &SourcePlan, r: &ReadRun) {
    ctx.note = format!(
        "{} <- {} ({} bytes, end {} {:?}, {:?}, {} interruptions) => {}",
        d.op.name(),
        clip(&show_doc(&d.r.bytes), 160),
        d.r.bytes.len(),
        plan.end,
        plan.terminal,
        plan.chunking,
        r.stats.interrupts,
        clip(&r.out.short(), 160)
    );
}

fn c01(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let nasty = if t.chance(1, 8) { WILD } else { RUDE };
    let d = draw_read(t, DrawCfg { nasty, ..ANY });
    let base_plan = draw_end(t, &d, nasty);
    let base = d.op.run(base_plan.clone());
    if base_plan.end == d.op.data.len() && base_plan.terminal == Terminal::Eof && t.draw(2) == 1 {
        if let Some(r) = d.op.run_str() {
            probe("as a string");
            if r.out != base.out || r.log != base.log {
                return bad("result-differs", format!("from a source: {}; from a string: {} {}; document {}", base.out.short(), r.out.short(), first_diff(&base.log, &r.log), show_doc(&d.r.bytes)));
            }
        }
    }
    let n = 2 + t.below(3);
    for _ in 0..n {
        let plan = redeliver(t, &base_plan, d.r.bytes.len());
        let r = d.op.run(plan.clone());
        if r.stats.interrupts > 0 && d.op.data.len() > 40 {
            ctx.nontrivial = true;
        }
        note(ctx, &d, &plan, &r);
        if r.out != base.out {
            return bad(
                "result-differs",
                format!("delivered whole: {}; with {:?}: {}; document {}", base.out.short(), plan, r.out.short(), show_doc(&d.r.bytes)),
            );
        }
        if r.log != base.log {
            return bad("callbacks-differ", format!("{} under {:?}; document {}", first_diff(&base.log, &r.log), plan, show_doc(&d.r.bytes)));
        }
    }
    Ok(())
}

pub fn first_diff(a: &[String], b: &[String]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!("event {}: expected {:?}, got {:?}", i, a.get(i).map(|s| clip(s, 300)), b.get(i).map(|s| clip(s, 300)));
        }
    }
    "same".into()
}

fn c02(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let nasty = if t.chance(1, 5) { WILD } else { RUDE };
    let d = draw_read(t, DrawCfg { nasty, el_faults: 1, byte_faults: 0, ..ANY });
    let n = 1 + t.below(4);
    for _ in 0..n {
        let end = docgen::pick_offset(t, &d.r);
        let cut = match parse_ref(&d.op.data, end, Terminal::Eof) {
            Some(x) => x,
            None => continue,
        };
        if cut.complete {
            probe("cut after the root");
            continue;
        }
        let mut p = if t.draw(2) == 0 { SourcePlan::plain(d.op.data.len()) } else { SourcePlan::draw_delivery(t, d.op.data.len()) };
        p.end = end;
        p.cut_is_fault = true;
        p.resume = t.chance(1, 10);
        ctx.nontrivial |= cut.n_elements > 0;
        let r = d.op.run(p.clone());
        note(ctx, &d, &p, &r);
        if let ROut::Ok(v) = &r.out {
            return bad(
                "truncated-accepted",
                format!("cut at {} of {}: accepted as {}; what was delivered: {}", end, d.op.data.len(), clip(&format!("{:?}", v), 200), show_doc(&d.op.data[..end])),
            );
        }
    }
    Ok(())
}

fn c03(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let nasty = if t.chance(1, 6) { WILD } else { RUDE };
    let d = draw_read(t, DrawCfg { nasty, el_faults: 1, byte_faults: 0, ..ANY });
    let n = 1 + t.below(4);
    for _ in 0..n {
        let mut p = if t.draw(2) == 0 { SourcePlan::plain(d.op.data.len()) } else { SourcePlan::draw_delivery(t, d.op.data.len()) };
        p.end = docgen::pick_offset(t, &d.r);
        let shape = *t.pick(ERR_SHAPES);
        p.terminal = Terminal::Error { shape, nonce: t.seed() };
        p.resume = t.chance(1, 4);
        let r = d.op.run(p.clone());
        note(ctx, &d, &p, &r);
        let what = || format!("source fails at {} of {} with {:?}: {}; document {}", p.end, d.op.data.len(), shape, r.out.short(), show_doc(&d.op.data));
        if let ROut::Ok(_) = r.out {
            return bad("failure-masked", what());
        }
        if !r.stats.failed {
            continue;
        }
        ctx.nontrivial = true;
        match &r.out {
            ROut::Err(e) if e.io == Some(shape.kind()) => {
                if !e.io_msg.as_ref().map_or(false, |m| e.display.contains(m.as_str())) {
                    return bad("message-lost", what());
                }
            }
            o if is_user_panic(o) => {}
            _ => return bad("failure-not-reported", what()),
        }
        if r.stats.reads_after_fail > 0 {
            return bad("read-after-failure", what());
        }
    }
    Ok(())
}

/// Compares outcome and log with the reference model.
fn against_reference(d: &Drawn, plan: &SourcePlan, r: &ReadRun, stacks: bool, outcome: bool, log: bool) -> Res {
    let (want, want_log, need) = match d.op.reference(plan) {
        Some(x) => x,
        None => {
            probe("event source itself panics");
            return Ok(());
        }
    };
    let ctxt = || format!("; {} from {:?} bytes {}", d.op.name(), plan.terminal, show_doc(&d.op.data[..plan.end]));
    if log && r.log != want_log {
        return bad("wrong-callbacks", first_diff(&want_log, &r.log) + &ctxt());
    }
    if outcome {
        if let Err((c, m)) = agrees(&r.out, &want) {
            return bad(c, m + &ctxt());
        }
    }
    if stacks {
        if let (ROut::Err(e), Err(w)) = (&r.out, &want) {
            if let Some(p) = &w.path {
                if *p != e.stack {
                    let f = |s: &[(String, static_xml::TextPosition)]| s.iter().map(|x| format!("{}@{}", x.0, script::fmt_pos(x.1))).collect::<Vec<_>>().join("/");
                    return bad("wrong-stack", format!("stack should be [{}], is [{}], for {}{}", f(p), f(&e.stack), clip(&e.display, 200), ctxt()));
                }
            }
        }
        if let ROut::Err(e) = &r.out {
            if let (Some(p), Err(w)) = (e.pos, &want) {
                let k = |p: static_xml::TextPosition| (p.row, p.column);
                let from = e.stack.last().map_or((0, 0), |s| k(s.1));
                let exact = need.exact && w.class == Class::Xml && w.path.is_some();
                if k(p) > k(need.here) || k(p) < from || (exact && p != need.here) {
                    return bad("wrong-position", format!("the message says {}; the innermost element is at {:?}, reading had got to {}: {}{}", p, from, need.here, clip(&e.display, 300), ctxt()));
                }
                probe("position checked");
            }
            if let Err(RErr { class: Class::User(m), .. }) = &want {
                if e.raised.as_ref() != Some(m) {
                    return bad("cause-lost", format!("user code raised {:?}, the chain of sources has {:?}: {}{}", m, e.raised, clip(&e.display, 400), ctxt()));
                }
                probe("cause checked");
            }
            if !e.shows_stack {
                return bad("stack-not-shown", format!("the message does not show the element stack {:?}: {}{}", e.stack, clip(&e.display, 400), ctxt()));
            }
        }
    }
    Ok(())
}

fn c04(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let nasty = if t.chance(1, 5) { WILD } else { RUDE };
    let d = draw_read(t, DrawCfg { nasty, el_faults: 4, byte_faults: 2, ..ANY });
    let n = 1 + t.below(3);
    for _ in 0..n {
        let plan = {
            let e = draw_end(t, &d, nasty);
            if t.draw(2) == 0 {
                e
            } else {
                redeliver(t, &e, d.op.data.len())
            }
        };
        let r = d.op.run(plan.clone());
        note(ctx, &d, &plan, &r);
        ctx.nontrivial |= matches!(r.out, ROut::Err(_)) || r.log.iter().any(|l| l.contains(" err at "));
        if matches!(r.out, ROut::Err(_)) {
            probe("error returned");
        }
        let stacks_of_swallowed = |l: &[String]| l.iter().filter(|x| x.contains(" err at ")).cloned().collect::<Vec<_>>();
        if let Some((_, want_log, _)) = d.op.reference(&plan) {
            let (a, b) = (stacks_of_swallowed(&want_log), stacks_of_swallowed(&r.log));
            if a != b {
                return bad("wrong-stack-seen-by-user-code", first_diff(&a, &b) + "; document " + &show_doc(&d.op.data[..plan.end]));
            }
        }
        against_reference(&d, &plan, &r, true, false, false)?;
    }
    Ok(())
}

fn c05(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let nasty = if t.chance(1, 3) { WILD } else { RUDE };
    let d = draw_read(t, DrawCfg { nasty, mix: [5, 0, 2], el_faults: 1, byte_faults: 1, max: 40, ..ANY });
    let plan = draw_end(t, &d, nasty);
    let r = d.op.run(plan.clone());
    note(ctx, &d, &plan, &r);
    ctx.nontrivial = state::with(|s| {
        s.faults[state::Fault::ChildDropped as usize] + s.faults[state::Fault::ChildPassed as usize] + s.faults[state::Fault::CbSwallow as usize] + s.faults[state::Fault::CbCatch as usize] > 0
    });
    against_reference(&d, &plan, &r, false, true, true)
}

fn c13(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let nasty = *t.pick(&[Nasty { errors: false, swallow: true, panics: false }, KIND, RUDE, WILD]);
    let d = draw_read(t, DrawCfg { mix: [1, 0, 5], nasty, el_faults: 3, byte_faults: 1, max: 24, tok: false });
    let plan = draw_end(t, &d, nasty);
    let r = d.op.run(plan.clone());
    note(ctx, &d, &plan, &r);
    let offers = r.log.iter().filter(|l| l.starts_with('F')).count();
    if offers > 0 {
        probe("flat offers");
    }
    ctx.nontrivial = offers > 0 || state::with(|s| s.faults[state::Fault::ChildPassed as usize] > 0);
    against_reference(&d, &plan, &r, false, true, true)
}

fn c20(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let nasty = if t.chance(1, 4) { WILD } else { RUDE };
    let d = draw_read(t, DrawCfg { nasty, mix: [5, 2, 3], el_faults: 2, byte_faults: 1, max: 30, ..ANY });
    let end = draw_end(t, &d, nasty);
    let mut plan = redeliver(t, &end, d.op.data.len());
    plan.chunking = match t.draw(3) {
        0 => Chunking::Fixed(*t.pick(&[1, 2, 5, 16, 64])),
        _ => Chunking::Random { seed: t.seed(), max: *t.pick(&[3, 12, 40, 120]) },
    };
    let r = d.op.run(plan.clone());
    note(ctx, &d, &plan, &r);
    let (want, want_log, need) = match d.op.reference(&plan) {
        Some(x) => x,
        None => return Ok(()),
    };
    // Waiting for more is right only while what came before does not do.
    let ends = &r.stats.chunk_ends;
    let waited = |needed: usize, delivered: usize| ends.get(ends.partition_point(|&e| e < needed)).copied().filter(|&e| e < delivered);
    let what = |m: String| format!("{}; {} <- {} under {:?}", m, d.op.name(), show_doc(&d.op.data[..plan.end]), plan);
    for (i, (a, b)) in r.log.iter().zip(&want_log).enumerate() {
        if a != b {
            return Ok(());
        }
        if r.at[i] < d.op.data.len() && r.stats.chunk_ends.len() > 2 {
            probe("callback seen while waiting");
            ctx.nontrivial = true;
        }
        if let Some(e) = waited(need.log[i], r.at[i]) {
            return bad("shown-late", what(format!("callback {} {:?} needs {} bytes; {} were there, but it was made after {} bytes", i, clip(a, 200), need.log[i], e, r.at[i])));
        }
    }
    if r.log.len() != want_log.len() || matches!(r.out, ROut::Ok(_)) || want.is_ok() {
        return Ok(());
    }
    if need.out < plan.end {
        probe("gave up early");
    }
    if let Some(e) = waited(need.out, r.stats.delivered) {
        return bad("reads-on-after-failure", what(format!("{} needs {} bytes; {} were there, but {} were read", r.out.short(), need.out, e, r.stats.delivered)));
    }
    Ok(())
}

fn c14(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let d = draw_read(t, DrawCfg { mix: [0, 1, 0], nasty: KIND, el_faults: 5, byte_faults: 3, tok: false, max: 0 });
    let plan = SourcePlan::plain(d.op.data.len());
    let r = d.op.run(plan.clone());
    note(ctx, &d, &plan, &r);
    ctx.nontrivial = d.damaged || d.r.marks.len() > 16;
    match (&r.out, d.damaged) {
        (ROut::Ok(_), true) => probe("damaged but accepted"),
        (ROut::Err(_), true) => probe("rejected"),
        _ => {}
    }
    against_reference(&d, &plan, &r, false, true, false)?;
    if let Some(v) = &d.val {
        match &r.out {
            ROut::Ok(x) if x == v => probe("value read back"),
            o => return bad("not-the-value", format!("the document says {:?}, but {}; document {}", v, o.short(), show_doc(&d.op.data))),
        }
    }
    Ok(())
}

fn count_toks(ty: &Ty, v: &Val) -> u64 {
    match (ty, v) {
        (Ty::Text(TextTy::Tok), Val::T(_)) => 1,
        (_, Val::O(Some(b))) => count_toks(ty, b),
        (_, Val::L(l)) => l.iter().map(|x| count_toks(ty, x)).sum(),
        (Ty::Struct(s), Val::S(f)) => s.fields.iter().zip(f).map(|(fs, v)| count_toks(&fs.ty, v)).sum(),
        (Ty::Enum(e), Val::E(i, p)) => e.variants[*i].payload.as_ref().map_or(0, |(_, ty)| count_toks(ty, p)),
        _ => 0,
    }
}

fn c06(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let nasty = if t.chance(1, 3) { WILD } else { RUDE };
    let mut d = draw_read(
        t,
        DrawCfg { mix: [0, 1, 0], nasty, el_faults: 6, byte_faults: 1, tok: true, max: 0 },
    );
    // Leaf parsers that fail or panic: spoil a token's text.
    if t.chance(1, 3) {
        let tag: &[u8] = if t.chance(1, 3) { b"!panic" } else { b"!err" };
        let mut bytes = d.op.data.to_vec();
        let spots: Vec<usize> = (1..bytes.len()).filter(|&i| bytes[i] == b'k' && matches!(bytes[i - 1], b'>' | b'"' | b'\'')).collect();
        if !spots.is_empty() {
            let i = *t.pick(&spots);
            bytes.splice(i..i, tag.iter().copied());
            d.op.data = bytes.into();
            d.r.bytes = d.op.data.to_vec();
            d.val = None;
        }
    }
    let ty = d.op.ty.unwrap();
    let plan = {
        let e = draw_end(t, &d, nasty);
        if t.draw(3) < 2 {
            e
        } else {
            redeliver(t, &e, d.op.data.len())
        }
    };
    let defaults = if t.chance(1, 4) { t.below(4) as u32 } else { u32::MAX };
    // First pass: who was built, who was dropped.
    leaf::reg_reset();
    leaf::set_defaults(defaults);
    let r = d.op.run(plan.clone());
    leaf::set_defaults(u32::MAX);
    note(ctx, &d, &plan, &r);
    let (created, live, problems) = leaf::reg_report();
    let what = |m: String| format!("{}; {} => {}; plan end {} {:?}; document {}", m, ty.name, r.out.short(), plan.end, plan.terminal, show_doc(&d.op.data));
    if let Some(p) = problems.first() {
        return bad("bad-drop", what(p.clone()));
    }
    // `run` has dropped the value by now.
    if live > 0 {
        return bad("leaked-value", what(format!("{} of {} values never dropped", live, created)));
    }
    if let ROut::Ok(v) = &r.out {
        let n = count_toks(&ty.ty, v);
        // Everything built is in the value: fields can't be overwritten or read twice. (Swallowing
        // user code may legitimately lose values.)
        if ty.flats == 0 && created < n {
            return bad("value-from-nowhere", what(format!("{} values returned, {} built", n, created)));
        }
    }
    ctx.nontrivial = created > 0 && (created > 2 || !matches!(r.out, ROut::Ok(_)));
    // Second pass: does all memory come back?
    let mut balance = 0;
    for _ in 0..4 {
        let (mut src, stats) = crate::io::SimSource::new(&d.op.data, plan.clone());
        let saved = script::swap(d.op.script.clone());
        script::set_quiet(true);
        leaf::set_defaults(defaults);
        state::ALLOC_BALANCE.with(|b| b.set(0));
        state::ALLOC_TRACK.with(|b| b.set(true));
        let out = guarded(|| drop((ty.read)(&mut src)));
        state::ALLOC_TRACK.with(|b| b.set(false));
        balance = state::ALLOC_BALANCE.with(|b| b.get());
        leaf::set_defaults(u32::MAX);
        script::set_quiet(false);
        script::restore(saved);
        drop(src);
        drop(stats);
        drop(out);
        // Something kept for later is not a leak, unless every time more is kept.
        if balance <= 0 {
            break;
        }
    }
    ev(|| format!("balance {}", balance));
    if balance > 0 {
        return bad("leaked-memory", what(format!("{} bytes not freed", balance)));
    }
    Ok(())
}

fn garbage(t: &mut Tape) -> Vec<u8> {
    const P: &[&str] = &[
        "<a>", "</a>", "<a ", "x='1'", "/>", "<", ">", "&", "&amp;", "&#0;", "&#x110000;", "&#xD800;", "&nope;", ";", "<!--", "-->", "--", "<?xml version='1.0'?>", "<?", "?>",
        "<![CDATA[", "]]>", "<!DOCTYPE a [<!ENTITY x 'y'>]>", "<!DOCTYPE", "text", " ", "\n", "\u{feff}", "<é>", "xmlns=''", "xmlns:a=''", "xmlns:a='u'", "<a:b>", "</a:b>", "<:>", "a:b:c", "'", "\"", "=",
        "<root>", "</root>", "xmlns:xml='x'", "xml:lang=''", "<a a='1' a='2'>", "<x xmlns='u'/>",
    ];
    let n = 1 + t.below(30);
    let mut v = Vec::new();
    for _ in 0..n {
        if t.chance(1, 12) {
            v.push(t.below(256) as u8);
        } else {
            v.extend_from_slice(t.pick(P).as_bytes());
        }
    }
    v
}

/// `depth` elements no type knows: one in the other, or one after the other.
fn chain(r: &mut Vec<u8>, depth: usize, style: u32, nested: bool) {
    let close: &[u8] = if style == 2 { b"</z:zzq>" } else { b"</zzq>" };
    for i in 0..depth {
        r.extend_from_slice(match style {
            0 => b"<zzq>",
            1 if i % 3 == 0 => b"<zzq>t<x/>",
            1 => b"<zzq a='1'>",
            _ => b"<z:zzq xmlns:z='urn:zz'>",
        });
        if !nested {
            r.extend_from_slice(close);
        }
    }
    if nested {
        for _ in 0..depth {
            r.extend_from_slice(close);
        }
    }
}

/// Content that the target does not look into costs no stack, however deep.
fn c07_stack(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let d = draw_read(t, DrawCfg { mix: [0, 1, 0], nasty: KIND, el_faults: 0, byte_faults: 0, tok: false, max: 0 });
    let ty = d.op.ty.unwrap();
    let depth = *t.pick(&[60usize, 150, 400, 900, 3000]);
    let style = t.draw(3) as u32;
    let at = *t.pick(&d.r.marks);
    let run = |nested: bool| {
        let mut b = d.r.bytes[..at].to_vec();
        chain(&mut b, depth, style, nested);
        b.extend_from_slice(&d.r.bytes[at..]);
        let n = b.len();
        let op = crate::ops::ReadOp { ty: Some(ty), script: d.op.script.clone(), data: b.into() };
        let r = op.run(SourcePlan::plain(n));
        (op, r)
    };
    // As many bytes, so that a buffer in between is filled at the same places.
    let (_, a) = run(false);
    let (op, b) = run(true);
    ctx.note = format!("{} <- {} levels at {} of {} => {}", ty.name, depth, at, clip(&show_doc(&d.r.bytes), 160), clip(&b.out.short(), 160));
    if let (ROut::Ok(_), ROut::Ok(_)) = (&a.out, &b.out) {
        ctx.nontrivial = true;
        probe("deep unknown content skipped");
        let grown = a.stats.stack_low.saturating_sub(b.stats.stack_low);
        if grown > 2048 {
            return bad("stack-grows", format!("{} bytes of stack more for {} levels of content that is skipped; {} <- {}", grown, depth, ty.name, show_doc(&op.data)));
        }
    }
    // Outcomes may differ in positions and stacks, not in kind.
    if matches!(a.out, ROut::Ok(_)) != matches!(b.out, ROut::Ok(_)) || matches!(b.out, ROut::Panic(_)) {
        return bad("depth-matters", format!("side by side: {}; {} levels: {}; {} <- {}", a.out.short(), depth, b.out.short(), ty.name, show_doc(&op.data)));
    }
    Ok(())
}

fn c07(t: &mut Tape, ctx: &mut Ctx) -> Res {
    if t.chance(1, 40) {
        return c07_stack(t, ctx);
    }
    let mut d = draw_read(t, DrawCfg { el_faults: 3, byte_faults: 9, ..ANY });
    match t.weighted(&[8, 3, 1]) {
        0 => {}
        1 => {
            let g = garbage(t);
            if t.draw(2) == 0 {
                d.r.bytes = g;
            } else {
                let at = t.below(d.r.bytes.len() + 1);
                d.r.bytes.splice(at..at, g);
            }
            d.r.marks = vec![0];
            ctx.nontrivial = true;
        }
        _ => {
            // Deep content that the target does not look into.
            let depth = 50 + t.below(1500);
            let mut s = String::from("<r>");
            for _ in 0..depth {
                s.push_str("<q>");
            }
            let close = if t.draw(2) == 0 { depth } else { t.below(depth) };
            for _ in 0..close {
                s.push_str("</q>");
            }
            s.push_str("</r>");
            d.r.bytes = s.into_bytes();
            d.r.marks = vec![0];
            d.op.ty = Some(*t.pick(plain_types()));
            probe("deep");
            ctx.nontrivial = true;
        }
    }
    d.op.data = d.r.bytes.clone().into();
    ctx.nontrivial |= d.damaged;
    let end = draw_end(t, &d, RUDE);
    let mut plan = redeliver(t, &end, d.op.data.len());
    plan.resume = t.chance(1, 6);
    let before = state::with(|s| s.steps);
    let limit = 200_000 + 60 * d.op.data.len() as u64;
    state::with(|s| {
        s.step_limit = s.steps + limit;
        s.tight = true;
    });
    let r = d.op.run(plan.clone());
    let steps = state::with(|s| {
        s.step_limit = u64::MAX;
        s.tight = false;
        s.steps - before
    });
    note(ctx, &d, &plan, &r);
    let what = |m: &str| format!("{}: {}; {} under {:?}; bytes {}", m, r.out.short(), d.op.name(), plan, show_doc(&d.op.data));
    if let ROut::Panic(p) = &r.out {
        if p.contains(state::STEP_PANIC) {
            return bad("never-ends", what("step budget exhausted"));
        }
        // Which code panicked.
        let at = p.rsplit(" at ").next().unwrap_or("").to_owned();
        return bad(&format!("panic@{}", at), what("panic"));
    }
    let st = &r.stats;
    let bound = st.delivered as u64 + st.interrupts + 32;
    if st.reads > bound {
        return bad("too-many-reads", what(&format!("{} reads for {} bytes and {} interruptions", st.reads, st.delivered, st.interrupts)));
    }
    if st.reads_after_fail > 4 || st.reads_after_end > 4 {
        return bad("polls-a-dead-source", what(&format!("{} reads after failure, {} after the end", st.reads_after_fail, st.reads_after_end)));
    }
    let _ = (steps, Class::Xml);
    Ok(())
}
