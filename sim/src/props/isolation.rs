use std::cell::RefCell;
use std::rc::Rc;
use std::sync::mpsc;
use std::time::Duration;

use super::*;
use crate::io::{ErrShape, SimSink, SinkFail, SinkPlan, SourcePlan, Terminal, ERR_SHAPES};
use crate::ops::{ROut, WOut};
use crate::refxml;
use crate::sched::Sched;
use crate::serscript::model;
use crate::state::{self, ev, fault, probe, Fault};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            run: c12,
            quick: 70_000,
            thorough: 1_800_000,
            rule: "1-4 tasks on their own threads, each 1-3 operations in succession (reads, serializations; failing, panicking or succeeding), with further operations nested inside their callbacks and I/O; the schedule switches tasks at every I/O and callback; each outcome must equal the operation's outcome alone in a fresh thread; non-trivial when operations interleaved, nested or followed one that failed",
            expect: &["preemption", "logger_listens", "source_panics", "nested_operation", "callback_panic", "read_error", "write_error", "after a failure", "after a panic", "process without a past", "long history"],
        },
        Prop {
            id: "C16",
            run: c16,
            quick: 130_000,
            thorough: 5_200_000,
            rule: "one operation repeated under other hash keys, on other threads and after other operations; outcomes must be identical, and attributes must come in the order they were written; non-trivial when the operation produced output or callbacks",
            expect: &["hash_keys_reseeded", "logger_listens", "after history", "attribute order", "process without a past", "long history"],
        },
    ]
}

#[derive(Clone)]
enum Op {
    Read(ReadOp, SourcePlan),
    Write(WriteOp, SinkPlan),
    Str(WriteOp),
}
#[derive(Clone, PartialEq, Debug)]
enum Out {
    Read(ROut, Vec<String>, usize),
    Write(WOut, Vec<u8>),
}
impl Op {
    fn run(&self) -> Out {
        match self {
            Op::Read(o, p) => {
                let r = o.run(p.clone());
                Out::Read(r.out, r.log, r.stats.delivered)
            }
            Op::Write(o, p) => {
                let r = o.run(p.clone());
                Out::Write(r.out, r.sink.bytes)
            }
            Op::Str(o) => {
                let (out, s) = o.string();
                Out::Write(out, s.into_bytes())
            }
        }
    }
    fn show(&self) -> String {
        match self {
            Op::Read(o, p) => format!("read {} from {} {:?}@{}", o.name(), clip(&show_doc(&o.data), 200), p.terminal, p.end),
            Op::Write(o, p) => format!("write {} {:?} fail {:?} {:?}", o.name(), o.opts, p.fail, p.fail_call),
            Op::Str(o) => format!("write {} {:?} to a string", o.name(), o.opts),
        }
    }
}
impl Out {
    fn short(&self) -> String {
        match self {
            Out::Read(o, l, n) => format!("{} ({} callbacks, {} bytes)", o.short(), l.len(), n),
            Out::Write(o, b) => format!("{:?} {}", o, clip(&show_doc(b), 300)),
        }
    }
    fn failed(&self) -> bool {
        !matches!(self, Out::Read(ROut::Ok(_), ..) | Out::Write(WOut::Ok, _))
    }
    fn panicked(&self) -> bool {
        matches!(self, Out::Read(ROut::Panic(_), ..) | Out::Write(WOut::Panic(_), _))
    }
}

fn draw_op(t: &mut Tape, max: usize, wild: bool) -> Op {
    if t.draw(2) == 0 {
        let d = draw_read(
            t,
            DrawCfg { mix: [3, 3, 2], nasty: if wild { WILD } else { RUDE }, el_faults: 2, byte_faults: 1, tok: false, max },
        );
        let mut p = SourcePlan::draw_delivery(t, d.op.data.len());
        match t.weighted(&[12, 2, 2, wild as u32]) {
            0 => {}
            3 => {
                p.end = docgen::pick_offset(t, &d.r);
                p.terminal = Terminal::Panic;
            }
            1 => {
                p.end = docgen::pick_offset(t, &d.r);
                p.cut_is_fault = true;
            }
            _ => {
                p.end = docgen::pick_offset(t, &d.r);
                p.terminal = Terminal::Error { shape: *t.pick(ERR_SHAPES), nonce: t.seed() };
            }
        }
        Op::Read(d.op, p)
    } else {
        let spoil = t.chance(1, 3);
        let w = if t.draw(2) == 0 {
            draw_write_val(t)
        } else {
            draw_write_script(t, SerCfg { rejects: true, spoil: spoil && wild, swallow: true, max: max.min(10) })
        };
        if t.chance(1, 5) {
            return Op::Str(w);
        }
        let mut p = SinkPlan::draw_delivery(t, 300);
        if t.chance(1, 6) {
            p.fail = Some((t.below(300), SinkFail::Error { shape: *t.pick(&[ErrShape::Os(28), ErrShape::Os(5)]), nonce: 28 }));
        }
        Op::Write(w, p)
    }
}

/// Runs `f` on a fresh thread whose hash maps are keyed from `seed`.
fn fresh<T: Send + 'static>(seed: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    let (r, sim) = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            state::RAND_SEED.with(|s| s.set(seed));
            state::reset(false);
            let r = f();
            (r, state::take())
        })
        .unwrap()
        .join()
        .unwrap();
    state::absorb(sim);
    r
}

/// Runs the operation drawn from `t`, as the first thing its process does.
pub fn pristine(mut t: Tape, seed: u64, max: usize, wild: bool) -> String {
    let op = draw_op(&mut t, max, wild);
    format!("{:?}", fresh(seed, move || op.run()))
}
/// Compares with what the operation drawn from `vals` does in a process without a past.
fn against_pristine(vals: &[u32], seed: u64, got: &Out, op: &Op) -> Res {
    probe("process without a past");
    match crate::zygote::ask(vals, seed) {
        Some(s) if s == format!("{:?}", got) => Ok(()),
        Some(s) => bad("depends-on-process", format!("in a new process {}; in one with a past {}; {}", clip(&s, 500), clip(&format!("{:?}", got), 500), op.show())),
        None => panic!("the zygote is gone"),
    }
}

struct Task {
    ops: Vec<Op>,
    /// Operation, index of the step at which it starts.
    nested: Vec<(u64, Op)>,
}

fn c12(t: &mut Tape, ctx: &mut Ctx) -> Res {
    // The first operation, by itself on the tape.
    let before = t.used().len();
    let mut first = Some(draw_op(t, 8, true));
    let first_vals = t.used()[before..].to_vec();
    let ask = t.chance(1, 20);
    let n_tasks = *t.pick(&[1usize, 2, 3, 2, 4]);
    let mut tasks = Vec::new();
    for _ in 0..n_tasks {
        let mut ops: Vec<Op> = (0..1 + t.small(2)).map(|_| first.take().unwrap_or_else(|| draw_op(t, 8, true))).collect();
        if t.rare(40) {
            // A thread which has seen a lot.
            let (n, len) = (1 + t.below(40), ops.len());
            for k in 0..n {
                ops.push(ops[k % len].clone());
            }
            probe("long history");
        }
        let nested: Vec<(u64, Op)> = (0..t.small(3))
            .map(|_| {
                let at = t.range(1, 60) as u64;
                (at, draw_op(t, 5, true))
            })
            .collect();
        tasks.push(Task { ops, nested });
    }
    // Each operation on its own.
    let mut solo: Vec<(Vec<Out>, Vec<Out>)> = Vec::new();
    for task in &tasks {
        let mut alone = |o: &Op| {
            let o = o.clone();
            fresh(t.seed(), move || o.run())
        };
        solo.push((task.ops.iter().map(&mut alone).collect(), task.nested.iter().map(|x| alone(&x.1)).collect()));
    }
    if ask {
        against_pristine(&first_vals, t.seed(), &solo[0].0[0], &tasks[0].ops[0])?;
    }
    // All of them together.
    let sched = Arc::new(Sched::new(std::mem::replace(t, Tape::from_vals(Vec::new())), n_tasks));
    let (tx, rx) = mpsc::channel();
    let mut threads = Vec::new();
    let hash_seed = ctx.hash_seed;
    for (i, task) in tasks.iter().enumerate() {
        let (tx, sched) = (tx.clone(), sched.clone());
        let ops = task.ops.clone();
        let nested = task.nested.clone();
        let thread = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                state::RAND_SEED.with(|s| s.set(hash_seed ^ i as u64));
                state::reset(false);
                sched.wait_turn(i);
                state::with(|s| s.sched = Some((sched.clone(), i)));
                let nested_out: Rc<RefCell<Vec<Option<Out>>>> = Rc::new(RefCell::new(vec![None; nested.len()]));
                state::set_nest(
                    nested
                        .into_iter()
                        .enumerate()
                        .map(|(k, (at, op))| {
                            let out = nested_out.clone();
                            (at, Box::new(move || {
                                let r = op.run();
                                out.borrow_mut()[k] = Some(r);
                            }) as Box<dyn FnOnce()>)
                        })
                        .collect(),
                );
                let outs: Vec<Out> = ops.iter().map(|o| o.run()).collect();
                drop(state::take_nest());
                state::with(|s| s.sched = None);
                let nested_out = nested_out.borrow().clone();
                let sim = state::take();
                sched.finish(i);
                let _ = tx.send((i, outs, nested_out, sim));
            })
            .unwrap();
        threads.push(thread);
    }
    drop(tx);
    sched.start();
    let mut results = Vec::new();
    for _ in 0..n_tasks {
        match rx.recv_timeout(Duration::from_secs(crate::HANG_SECS / 2)) {
            Ok(r) => results.push(r),
            Err(mpsc::RecvTimeoutError::Disconnected) => return bad("task-died", "a task's thread died"),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                return bad("blocked", format!("an operation waits for another: {}", tasks.iter().map(|t| t.ops.iter().chain(t.nested.iter().map(|x| &x.1)).map(|o| o.show()).collect::<Vec<_>>().join(" + ")).collect::<Vec<_>>().join(" || ")));
            }
        }
    }
    for t in threads {
        let _ = t.join();
    }
    results.sort_by_key(|r| r.0);
    let (tape, switches, trail, now) = sched.into_parts();
    *t = tape;
    if switches > 0 {
        state::with(|s| s.faults[Fault::Preempt as usize] += switches);
    }
    state::with(|s| {
        s.log_hash = crate::tape::mix(s.log_hash, trail);
        s.time_ns += now;
    });
    ctx.nontrivial = switches > 0;
    ctx.note = format!("{} tasks, {} switches: {}", n_tasks, switches, clip(&tasks.iter().map(|t| format!("[{} ops, {} nested]", t.ops.len(), t.nested.len())).collect::<Vec<_>>().join(" "), 300));
    for (i, outs, nested, sim) in results {
        state::absorb(sim);
        let task = &tasks[i];
        let (mut failed, mut panicked) = (false, false);
        for (k, (got, want)) in outs.iter().zip(&solo[i].0).enumerate() {
            if failed {
                probe("after a failure");
                ctx.nontrivial = true;
            }
            if panicked {
                probe("after a panic");
            }
            if got != want {
                return bad("influenced", format!("task {} operation {}: alone {}; together {}; {}", i, k, want.short(), got.short(), task.ops[k].show()));
            }
            failed |= got.failed();
            panicked |= got.panicked();
        }
        for (k, got) in nested.iter().enumerate() {
            let got = match got {
                Some(g) => g,
                None => continue,
            };
            ctx.nontrivial = true;
            let want = &solo[i].1[k];
            if got != want {
                return bad("nested-influenced", format!("task {} nested {}: alone {}; nested {}; {}", i, k, want.short(), got.short(), task.nested[k].1.show()));
            }
        }
    }
    Ok(())
}

fn c16(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let before = t.used().len();
    let op = draw_op(t, 20, false);
    let vals = t.used()[before..].to_vec();
    let ask = t.chance(1, 8);
    let base = {
        let o = op.clone();
        fresh(ctx.hash_seed, move || o.run())
    };
    ctx.note = clip(&format!("{} => {}", op.show(), base.short()), 400);
    ctx.nontrivial = match &base {
        Out::Read(_, l, _) => !l.is_empty() || !base.failed(),
        Out::Write(_, b) => b.len() > 40,
    };
    for _ in 0..2 {
        fault(Fault::HashReseed);
        let o = op.clone();
        let got = fresh(t.seed() + 1, move || o.run());
        if got != base {
            return bad("depends-on-hash-keys", format!("{} or {}; {}", base.short(), got.short(), op.show()));
        }
    }
    if t.draw(2) == 1 {
        let (o, was) = (op.clone(), log::max_level());
        state::listen(was == log::LevelFilter::Off);
        let got = fresh(ctx.hash_seed, move || o.run());
        log::set_max_level(was);
        if got != base {
            return bad("depends-on-logger", format!("{} or {}; {}", base.short(), got.short(), op.show()));
        }
    }
    // On a thread with a past.
    let mut past: Vec<Op> = (0..1 + t.below(4)).map(|_| draw_op(t, 6, true)).collect();
    let times = if t.rare(48) {
        if t.chance(1, 50) {
            // Whatever is counted in 16 bits goes round.
            probe("very long history");
            past = vec![draw_op(t, 1, true)];
            65_530 + t.below(12)
        } else {
            probe("long history");
            1 + t.below(400)
        }
    } else {
        1
    };
    let o = op.clone();
    let seed = t.seed();
    let got = fresh(seed, move || {
        let from = state::with(|s| s.steps);
        for _ in 0..times {
            for p in &past {
                p.run();
            }
            if state::with(|s| s.steps) > from + 8_000_000 {
                break;
            }
        }
        o.run()
    });
    probe("after history");
    if got != base {
        return bad("depends-on-history", format!("{} or {}; {}", base.short(), got.short(), op.show()));
    }
    if ask {
        against_pristine(&vals, t.seed(), &base, &op)?;
    }
    if let (Op::Write(w, _) | Op::Str(w), Out::Write(WOut::Ok, bytes)) = (&op, &base) {
        if let What::Script(n) = &w.what {
            if let Ok(d) = refxml::parse(bytes) {
                probe("attribute order");
                if let Err(e) = order(&model(n).tree, &d) {
                    return bad("attribute-order", format!("{}; {}", e, show_doc(bytes)));
                }
            }
        }
    }
    ev(|| base.short());
    let _ = SimSink::new;
    Ok(())
}

/// Attributes in the order they were written (where both trees have the element).
fn order(want: &DEl, got: &DEl) -> Result<(), String> {
    if want.loose {
        return Ok(());
    }
    let k = |e: &DEl| e.attrs.iter().map(|a| format!("{{{}}}{}", a.ns, a.local)).collect::<Vec<_>>();
    let (a, b) = (k(want), k(got));
    let (mut sa, mut sb) = (a.clone(), b.clone());
    sa.sort();
    sb.sort();
    if sa == sb && a != b {
        return Err(format!("attributes were written as {:?} but come as {:?}", a, b));
    }
    let els = |e: &DEl| e.kids.iter().filter_map(|k| if let docgen::DNode::El(e) = k { Some(e.clone()) } else { None }).collect::<Vec<_>>();
    for (x, y) in els(want).iter().zip(&els(got)) {
        order(x, y)?;
    }
    Ok(())
}
