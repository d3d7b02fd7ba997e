//! The scheduler: real threads, one baton. Only the holder runs; every hand-over is decided here
//! from the plan and recorded.

use crate::env::*;
use crate::plan::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::thread::Thread;

static CUR: AtomicUsize = AtomicUsize::new(0);
thread_local!(static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });

pub fn cur() -> usize {
    CUR.load(Ordering::SeqCst)
}
pub fn on_baton() -> bool {
    ME.try_with(|m| m.get() == cur()).unwrap_or(false)
}
pub fn set_me(i: usize) {
    ME.with(|m| m.set(i));
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Run,
    Blocked(u8),
    Frozen,
    Done,
}
#[derive(Clone, Copy)]
struct Lock {
    readers: u32,
    writer: bool,
}
struct S {
    n: usize, // clients are 1..=n
    st: [T; 9],
    thr: [Option<Thread>; 9],
    mode: Sched,
    rng: Rng,
    carry: [u64; 9],
    cap: [u64; 9],
    lists: [Vec<Sw>; 9],
    pos: [usize; 9],
    locks: [Lock; 64],
    multi: bool,
    rec: bool,
    in_op: [bool; 9],
    /// times a running client was asked whether to switch
    asked: u64,
}
static mut ST: S = S {
    n: 0,
    st: [T::Done; 9],
    thr: [const { None }; 9],
    mode: Sched::Seq,
    rng: Rng(1),
    carry: [0; 9],
    cap: [u64::MAX; 9],
    lists: [const { Vec::new() }; 9],
    pos: [0; 9],
    locks: [Lock {
        readers: 0,
        writer: false,
    }; 64],
    multi: false,
    rec: true,
    in_op: [false; 9],
    asked: 0,
};
fn s() -> &'static mut S {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}

pub fn init(mode: &Sched) {
    let x = s();
    x.mode = mode.clone();
    if let Sched::Rand(seed, _, _) = mode {
        x.rng = Rng::new(*seed);
    }
    set_me(0);
}

fn record(sw: Sw, who: usize, lib_step: bool) {
    let m = shm();
    bump(C::Switches);
    if sw.freeze {
        bump(C::Freezes);
    }
    if lib_step {
        m.nontrivial |= 2;
    }
    m.sched_hash = mix(m.sched_hash ^ mix(sw.op as u64 | (sw.to as u64) << 32 | (who as u64) << 48) ^ sw.step);
    if (m.nsw as usize) < MAXSW {
        m.sw[m.nsw as usize] = sw;
        m.nsw += 1;
    }
}

fn switch_to(t: usize) {
    let me = cur();
    if t == me {
        return;
    }
    CUR.store(t, Ordering::SeqCst);
    shm().cur_client = t as u32;
    shm().cur_op = ctx_of(t).op;
    s().thr[t].as_ref().unwrap().unpark();
    wait_turn(me);
}
pub fn wait_turn(me: usize) {
    while CUR.load(Ordering::SeqCst) != me {
        std::thread::park();
    }
}

/// Another client that can run; unfreezes frozen ones when nobody else is left.
fn choose(me: usize, want: Option<u8>, include_me: bool) -> Option<usize> {
    let x = s();
    let can = |i: usize| x.st[i] == T::Run && (include_me || i != me);
    if let Some(w) = want {
        let w = w as usize;
        if w >= 1 && w <= x.n && can(w) {
            return Some(w);
        }
    }
    let list: Vec<usize> = (1..=x.n).filter(|i| can(*i)).collect();
    if list.is_empty() {
        let all: Vec<usize> = (1..=x.n).filter(|i| x.st[*i] == T::Frozen).collect();
        if let Some(f) = all.first() {
            if !include_me && x.st[me] == T::Run {
                return None;
            }
            x.st[*f] = T::Run;
            return Some(*f);
        }
        return None;
    }
    match x.mode {
        Sched::Rand(..) if want.is_none() => Some(*{
            let k = x.rng.below(list.len());
            &list[k]
        }),
        _ => Some(list[0]),
    }
}

fn next_entry(me: usize, op: u32, step: u64) -> Option<Sw> {
    let x = s();
    let l = &x.lists[me];
    while x.pos[me] < l.len() {
        let e = l[x.pos[me]];
        if e.op == op && e.step <= step {
            x.pos[me] += 1;
            if e.step == step {
                return Some(e);
            }
            continue;
        }
        break;
    }
    None
}
fn take_special(me: usize, op: u32, step: u64) -> Option<Sw> {
    let x = s();
    let l = &mut x.lists[me];
    if let Some(i) = l.iter().position(|e| e.op == op && e.step == step) {
        let e = l.remove(i);
        if x.pos[me] > i {
            x.pos[me] -= 1;
        }
        return Some(e);
    }
    None
}

fn arm(me: usize, op: u32) {
    let x = s();
    let step = unsafe { sim_get_step() };
    let mut next = u64::MAX;
    if x.multi && me > 0 {
        match &x.mode {
            Sched::Seq => {}
            Sched::Rand(_, mean, _) => {
                if x.carry[me] == 0 {
                    // gaps grow as switches accumulate, so that a run has a few thousand at most
                    x.carry[me] = x.rng.gap(*mean) << (shm().nsw as u64 / 400 + x.asked / 20_000).min(30);
                }
                next = step + x.carry[me];
            }
            Sched::Explicit(_) => {
                if let Some(e) = x.lists[me].get(x.pos[me]) {
                    if e.op == op && e.step < BLOCKED {
                        next = e.step.max(step + 1);
                    }
                }
            }
        }
    }
    unsafe { sim_set_next(next.min(x.cap[me])) }
}

pub fn op_begin(op: u32, cap: u64) {
    let me = cur();
    let x = s();
    ctx().op = op;
    shm().cur_op = op;
    if x.multi && me > 0 {
        match x.mode.clone() {
            Sched::Seq => {}
            Sched::Rand(_, _, p) => {
                if x.rng.chance(p) {
                    if let Some(t) = choose(me, None, false) {
                        record(
                            Sw {
                                op,
                                to: t as u8,
                                freeze: false,
                                step: 0,
                            },
                            me,
                            false,
                        );
                        switch_to(t);
                    }
                }
            }
            Sched::Explicit(all) => {
                x.lists[me] = all.iter().filter(|e| e.op == op).cloned().collect();
                x.lists[me].sort_by_key(|e| e.step);
                x.pos[me] = 0;
                while let Some(e) = next_entry(me, op, 0) {
                    if e.freeze {
                        x.st[me] = T::Frozen;
                    }
                    if let Some(t) = choose(me, Some(e.to), false) {
                        record(e, me, false);
                        switch_to(t);
                    } else if x.st[me] == T::Frozen {
                        x.st[me] = T::Run;
                    }
                }
            }
        }
    }
    x.cap[me] = cap;
    x.in_op[me] = true;
    unsafe { sim_set_step(0) };
    arm(me, op);
}

/// Returns the number of steps the operation took.
pub fn op_end() -> u64 {
    let me = cur();
    let x = s();
    let st = unsafe { sim_get_step() };
    x.in_op[me] = false;
    if let Sched::Rand(..) = x.mode {
        if x.multi && me > 0 {
            let used = st - OPBASE[me].swap(0, Ordering::Relaxed) as u64;
            x.carry[me] = x.carry[me].saturating_sub(used).max(1);
        }
    }
    unsafe { sim_set_next(u64::MAX) };
    ctx().op = u32::MAX;
    st
}
static OPBASE: [AtomicUsize; 9] = [const { AtomicUsize::new(0) }; 9];

/// Called from the instrumented code (or a callback) when the step counter reaches its limit.
#[no_mangle]
pub extern "C" fn sim_preempt() {
    let me = cur();
    let x = s();
    let step = unsafe { sim_get_step() };
    let op = ctx().op;
    if step >= x.cap[me] {
        violate(
            "steps/over-limit",
            format!("operation {op} has executed {step} steps without finishing, its limit is {}", x.cap[me]),
        );
    }
    if !x.multi || me == 0 {
        unsafe { sim_set_next(x.cap[me]) };
        return;
    }
    match &x.mode {
        Sched::Seq => {}
        Sched::Rand(..) => {
            x.carry[me] = 0;
            x.asked += 1;
            OPBASE[me].store(step as usize, Ordering::Relaxed);
            if let Some(t) = choose(me, None, true) {
                if t != me {
                    record(
                        Sw {
                            op,
                            to: t as u8,
                            freeze: false,
                            step,
                        },
                        me,
                        true,
                    );
                    bump(C::Overlaps);
                    switch_to(t);
                }
            }
        }
        Sched::Explicit(_) => {
            if let Some(e) = next_entry(me, op, step) {
                if e.freeze {
                    x.st[me] = T::Frozen;
                }
                if let Some(t) = choose(me, Some(e.to), false) {
                    record(e, me, true);
                    bump(C::Overlaps);
                    switch_to(t);
                } else if x.st[me] == T::Frozen {
                    x.st[me] = T::Run;
                }
            }
        }
    }
    arm(me, op);
}

/// A callback that stalls: everybody else runs as far as they can first.
pub fn stall() {
    let me = cur();
    let x = s();
    if !x.multi || me == 0 {
        return;
    }
    let op = ctx().op;
    x.st[me] = T::Frozen;
    let want = take_special(me, op, STALLED).map(|e| e.to);
    match choose(me, want, false) {
        Some(t) if t != me => {
            record(
                Sw {
                    op,
                    to: t as u8,
                    freeze: false,
                    step: STALLED,
                },
                me,
                true,
            );
            bump(C::Freezes);
            bump(C::Overlaps);
            switch_to(t);
        }
        _ => x.st[me] = T::Run,
    }
}

pub fn lock(slot: u8, write: bool) {
    let me = cur();
    let x = s();
    if !x.multi || me == 0 {
        return;
    }
    loop {
        let l = &mut x.locks[slot as usize];
        if !l.writer && (!write || l.readers == 0) {
            if write {
                l.writer = true
            } else {
                l.readers += 1
            }
            return;
        }
        bump(C::LockWaits);
        x.st[me] = T::Blocked(slot);
        let op = ctx().op;
        let want = take_special(me, op, BLOCKED).map(|e| e.to);
        match choose(me, want, false) {
            Some(t) => {
                record(
                    Sw {
                        op,
                        to: t as u8,
                        freeze: false,
                        step: BLOCKED,
                    },
                    me,
                    false,
                );
                switch_to(t)
            }
            None => harness_error("all clients wait for each other's turn"),
        }
    }
}
pub fn unlock(slot: u8, write: bool) {
    let me = cur();
    let x = s();
    if !x.multi || me == 0 {
        return;
    }
    let l = &mut x.locks[slot as usize];
    if write {
        l.writer = false
    } else {
        l.readers -= 1
    }
    for i in 1..=x.n {
        if x.st[i] == T::Blocked(slot) {
            x.st[i] = T::Run;
        }
    }
}

/// Runs the client phase; returns when all clients have finished.
pub fn run_clients(n: usize, body: fn(usize)) {
    let x = s();
    x.n = n;
    x.multi = n > 1;
    if n == 0 {
        return;
    }
    let mut hs = Vec::new();
    for i in 1..=n {
        let h = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                set_me(i);
                wait_turn(i);
                body(i);
                done(i);
            })
            .unwrap();
        x.thr[i] = Some(h.thread().clone());
        x.st[i] = T::Run;
        hs.push(h);
    }
    x.thr[0] = Some(std::thread::current());
    let first = match x.mode.clone() {
        Sched::Rand(..) => {
            let k = x.rng.below(n) + 1;
            record(
                Sw {
                    op: DONE_OP,
                    to: k as u8,
                    freeze: false,
                    step: 0,
                },
                0,
                false,
            );
            k
        }
        Sched::Explicit(l) => l
            .iter()
            .find(|e| e.op == DONE_OP)
            .map(|e| (e.to as usize).clamp(1, n))
            .unwrap_or(1),
        Sched::Seq => 1,
    };
    switch_to(first);
    for h in hs {
        let _ = h.join();
    }
    x.multi = false;
    shm().cur_client = 0;
}
fn done(me: usize) {
    let x = s();
    x.st[me] = T::Done;
    let pseudo = DONE_OP + me as u32;
    let want = match &x.mode {
        Sched::Explicit(l) => l.iter().find(|e| e.op == pseudo).map(|e| e.to),
        _ => None,
    };
    let t = match choose(me, want, false) {
        Some(t) => {
            record(
                Sw {
                    op: pseudo,
                    to: t as u8,
                    freeze: false,
                    step: 0,
                },
                me,
                false,
            );
            t
        }
        None => {
            if (1..=x.n).any(|i| x.st[i] != T::Done) {
                harness_error("clients left waiting");
            }
            0
        }
    };
    CUR.store(t, Ordering::SeqCst);
    shm().cur_client = t as u32;
    x.thr[t].as_ref().unwrap().unpark();
}

/// Runs part of the harness's own bookkeeping through the library without counting its steps.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let step = unsafe { sim_get_step() };
    let next = unsafe { sim_get_next() };
    let me = cur();
    let x = s();
    let (cap, multi) = (x.cap[me], x.multi);
    let nested = std::mem::replace(&mut ctx().nested, true);
    x.cap[me] = step + 400_000_000;
    x.multi = false;
    unsafe { sim_set_next(x.cap[me]) };
    let r = f();
    let x = s();
    x.multi = multi;
    x.cap[me] = cap;
    ctx().nested = nested;
    unsafe {
        sim_set_step(step);
        sim_set_next(next);
    }
    r
}
/// True when the slot may be read now without waiting.
pub fn readable(slot: u8) -> bool {
    let x = s();
    !x.multi || !x.locks[slot as usize].writer
}
