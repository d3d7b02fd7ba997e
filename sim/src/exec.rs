//! Executes the operations of a plan and judges every answer against a small reference model.

use crate::coll::*;
use crate::env::*;
use crate::plan::*;
use crate::sched;
use std::collections::{BTreeMap, BTreeSet};

pub struct Obj {
    pub c: Box<dyn Coll>,
    pub kind: &'static Kind,
    pub model: BTreeMap<Lit, u64>,
    pub order: Vec<Lit>,
    /// the hash contract was broken while it was built: only containment is checked from then on
    pub taint: bool,
}
impl Obj {
    fn std(&self) -> bool {
        self.kind.fam == Fam::Std
    }
    fn val(&self, k: &Lit) -> Option<u64> {
        self.model.get(k).copied()
    }
    fn has_val(&self, t: u64) -> bool {
        self.model.values().any(|v| *v == t)
    }
    fn expect(&self, k: &Lit, which: u8) -> Item {
        let v = if self.c.is_map() { self.val(k) } else { None };
        match which {
            1 => Item { k: Some(k.clone()), v: None },
            2 => Item { k: None, v },
            _ => Item { k: Some(k.clone()), v },
        }
    }
}
pub const NSLOT: usize = 64;
static mut SLOTS: [Option<Obj>; NSLOT] = [const { None }; NSLOT];
pub fn slot(i: u8) -> &'static mut Option<Obj> {
    unsafe { &mut (*std::ptr::addr_of_mut!(SLOTS))[i as usize] }
}
static mut PLAN: *const Plan = std::ptr::null();
fn plan() -> &'static Plan {
    unsafe { &*PLAN }
}
static mut HELD: [Vec<u8>; 9] = [const { Vec::new() }; 9];
fn held(i: usize) -> &'static mut Vec<u8> {
    unsafe { &mut (*std::ptr::addr_of_mut!(HELD))[i] }
}

fn note(x: u64) {
    let s = shm();
    s.fingerprint = mix(s.fingerprint.rotate_left(5) ^ x);
}
fn note_s(x: &str) {
    let mut h = x.len() as u64;
    for b in x.bytes() {
        h = mix(h ^ b as u64)
    }
    note(h)
}
fn note_lit(l: &Lit) {
    match l {
        Lit::I(i) => note(*i as u64 ^ 77),
        Lit::S(s) => note_s(s),
    }
}
fn bad(class: &str, op: &Op, msg: String) -> ! {
    violate(class, format!("operation {} {}: {}", op.id, short(op), msg))
}
pub fn short(op: &Op) -> String {
    let s = match &op.k {
        OpK::Build { slot, spec } => format!("build slot {slot}: {} from {} entries", spec.kind, spec.keys.len()),
        k => format!("{k:?}"),
    };
    s.chars().take(300).collect()
}

/// Sorts out how a library call ended; None when an injected failure ended it.
fn fin<T>(op: &Op, r: LR<T>, relaxed: bool, what: &str) -> Option<T> {
    let c = ctx();
    match r {
        Ok(v) => {
            if c.fired_panic {
                bad("panic/swallowed", op, format!("a panic raised by user code during {what} did not reach the caller"));
            }
            if c.fired_oom {
                bump(C::Ooms);
            }
            note(1);
            Some(v)
        }
        Err(Pan::Sim) => {
            c.fired_panic = false;
            note(2);
            None
        }
        Err(Pan::Oom) => {
            if !c.fired_oom {
                bad("panic/unexpected", op, format!("{what} asked for an impossible amount of memory"));
            }
            bump(C::Ooms);
            note(3);
            None
        }
        Err(Pan::Lib) => {
            if relaxed || c.fired_lie || c.fired_oom {
                note(4);
                None
            } else {
                bad("panic/unexpected", op, format!("{what} panicked"))
            }
        }
    }
}

fn lock_set(k: &OpK) -> Vec<(u8, bool)> {
    let mut v = match k {
        OpK::Build { slot, .. } | OpK::Drop { slot } | OpK::IntoIter { slot, .. } | OpK::Many { slot, .. } => vec![(*slot, true)],
        OpK::CloneTo { slot, to } => vec![(*slot, false), (*to, true)],
        OpK::Look { slot, how, .. } => vec![(*slot, matches!(how, How::GetMut | How::IndexMut))],
        OpK::IterP { slot, .. } | OpK::Dbg { slot, .. } | OpK::Audit { slot, .. } => vec![(*slot, false)],
        OpK::AlgP { a, b, .. } | OpK::Oper { a, b, .. } | OpK::Rel { a, b, .. } | OpK::Eq { a, b } => {
            if a == b {
                vec![(*a, false)]
            } else {
                vec![(*a, false), (*b, false)]
            }
        }
    };
    v.sort();
    v.dedup_by_key(|x| x.0);
    v
}

pub fn run_op(op: &Op) {
    let p = plan();
    let me = sched::cur();
    let c = ctx();
    c.counts = [0; NK];
    c.faults = p.faults.iter().filter(|f| f.op == op.id).cloned().collect();
    c.nested = false;
    c.reentered = 0;
    c.fired_panic = false;
    c.fired_oom = false;
    c.fired_lie = false;
    c.fired_err = false;
    // (the standard library's sets lose what is left when a drop panics)
    c.strict_drop = matches!(op.k, OpK::Drop { slot: s } if slot(s).as_ref().is_some_and(|o| !o.std()));
    sched::op_begin(op.id, crate::bounds::cap(p, op));
    let locks = lock_set(&op.k);
    for (s, w) in &locks {
        sched::lock(*s, *w);
    }
    *held(me) = locks.iter().filter(|x| !x.1).map(|x| x.0).collect();
    note(0x0b ^ (op.id as u64) << 8);
    exec(op);
    let c = ctx();
    if c.fired_panic {
        bad("panic/swallowed", op, "a panic raised by user code did not reach the caller".into());
    }
    held(me).clear();
    let steps = sched::op_end();
    let m = shm();
    note(steps);
    m.cnt[C::MaxSteps as usize] = m.cnt[C::MaxSteps as usize].max(steps);
    if let Some(pr) = m.prof.get_mut(op.id as usize) {
        pr.steps = steps.min(u32::MAX as u64) as u32;
        pr.cb = ctx().counts;
    }
    if !ctx().fired_lie {
        crate::bounds::judge(p, op, steps, &ctx().counts);
    }
    for (s, w) in locks.iter().rev() {
        sched::unlock(*s, *w);
    }
}

fn exec(op: &Op) {
    match &op.k {
        OpK::Build { slot, spec } => build(op, *slot, spec),
        OpK::Drop { slot: s } => {
            if let Some(o) = slot(*s).take() {
                bump(C::Drops);
                let r = o.c.drop_in();
                fin(op, r, o.taint, "dropping");
            }
        }
        OpK::CloneTo { slot: s, to } => {
            if s == to || slot(*to).is_some() {
                return;
            }
            if let Some(o) = slot(*s) {
                bump(C::Clones);
                let r = o.c.clone_box();
                if let Some(c) = fin(op, r, o.taint, "cloning") {
                    let taint = o.taint || ctx().fired_lie;
                    let mut n = Obj {
                        c,
                        kind: o.kind,
                        model: o.model.clone(),
                        order: vec![],
                        taint,
                    };
                    order_pass(op, &mut n, "the clone");
                    *slot(*to) = Some(n);
                }
            }
        }
        OpK::Look { slot: s, how, key, w } => {
            if let Some(o) = slot(*s) {
                look(op, o, *how, key, *w)
            }
        }
        OpK::Many { slot: s, keys, w } => {
            if let Some(o) = slot(*s) {
                many(op, o, keys, *w)
            }
        }
        OpK::IterP { slot: s, steps } => {
            if let Some(o) = slot(*s) {
                bump(C::IterPrograms);
                iter_prog(op, o, steps)
            }
        }
        OpK::IntoIter { slot: s, steps } => {
            if let Some(o) = slot(*s).take() {
                let Obj { c, kind, model, order, taint } = o;
                match c.into_it() {
                    Err(c) => *slot(*s) = Some(Obj { c, kind, model, order, taint }),
                    Ok(r) => {
                        bump(C::Consumed);
                        if let Some(it) = fin(op, r, taint, "into_iter") {
                            own_prog(op, &model, &order, it, steps)
                        }
                    }
                }
            }
        }
        OpK::AlgP { a, b, alg, steps } => {
            if let (Some(x), Some(y)) = (slot(*a), slot(*b)) {
                bump(C::AlgPrograms);
                alg_prog(op, x, y, *alg, steps)
            }
        }
        OpK::Oper { a, b, alg } => {
            if let (Some(x), Some(y)) = (slot(*a), slot(*b)) {
                if let Some(r) = x.c.oper(&*y.c, *alg) {
                    bump(C::Operators);
                    let relaxed = x.taint || y.taint;
                    if let Some(v) = fin(op, r, relaxed, "the operator") {
                        if relaxed || ctx().fired_lie {
                            return;
                        }
                        let want = expected(x, y, *alg);
                        let got: BTreeSet<Lit> = v.iter().cloned().collect();
                        if got.len() != v.len() {
                            bad("algebra/duplicate", op, format!("the result {} has duplicates", lits(&v)));
                        }
                        if got != want {
                            bad("algebra/wrong", op, format!("result {}, expected {}", lits(&got), lits(&want)));
                        }
                    }
                }
            }
        }
        OpK::Rel { a, b, rel } => {
            if let (Some(x), Some(y)) = (slot(*a), slot(*b)) {
                if let Some(r) = x.c.rel(&*y.c, *rel) {
                    bump(C::Relations);
                    let relaxed = x.taint || y.taint;
                    if let Some(v) = fin(op, r, relaxed, "the comparison") {
                        note(v as u64);
                        if relaxed || ctx().fired_lie {
                            return;
                        }
                        let sub = x.model.keys().all(|k| y.model.contains_key(k));
                        let sup = y.model.keys().all(|k| x.model.contains_key(k));
                        let want = match rel {
                            Rel::Subset => sub,
                            Rel::Superset => sup,
                            Rel::SetEq => sub && sup,
                            Rel::Disjoint => x.model.keys().all(|k| !y.model.contains_key(k)),
                        };
                        if v != want {
                            bad(
                                "relation/wrong",
                                op,
                                format!("{rel:?} answered {v}, expected {want}; {} against {}", lits(x.model.keys()), lits(y.model.keys())),
                            );
                        }
                    }
                }
            }
        }
        OpK::Eq { a, b } => {
            if let (Some(x), Some(y)) = (slot(*a), slot(*b)) {
                let relaxed = x.taint || y.taint;
                for (p, q, n) in [(&*x, &*y, "a == b"), (&*y, &*x, "b == a")] {
                    let r = match p.c.equal(&*q.c) {
                        None => match if p.c.is_map() { None } else { p.c.rel(&*q.c, Rel::SetEq) } {
                            None => continue,
                            Some(r) => r,
                        },
                        Some(r) => r,
                    };
                    if p.std() {
                        continue;
                    }
                    bump(C::Equalities);
                    if let Some(v) = fin(op, r, relaxed, n) {
                        note(v as u64);
                        if relaxed || ctx().fired_lie {
                            continue;
                        }
                        let want = p.model == q.model;
                        if v != want {
                            bad(
                                "equality/wrong",
                                op,
                                format!("{n} answered {v}, expected {want}; {} entries against {}", p.model.len(), q.model.len()),
                            );
                        }
                    }
                }
            }
        }
        OpK::Dbg { slot: s, alt, limit } => {
            if let Some(o) = slot(*s) {
                let mut sink = Sink::new(*limit);
                if let Some(r) = o.c.fmt(&mut sink, *alt) {
                    bump(C::Formats);
                    let items: Vec<Item> = o.model.keys().map(|k| o.expect(k, 0)).collect();
                    judge_fmt(op, r, &sink, &items, o.taint);
                }
            }
        }
        OpK::Audit { slot: s, probes } => {
            if let Some(o) = slot(*s) {
                audit(op, o, probes)
            }
        }
    }
}

fn lits<'a>(v: impl IntoIterator<Item = &'a Lit>) -> String {
    let v: Vec<String> = v
        .into_iter()
        .map(|l| match l {
            Lit::I(i) => i.to_string(),
            Lit::S(s) => format!("{s:?}"),
        })
        .collect();
    let n = v.len();
    let s = v.into_iter().take(40).collect::<Vec<_>>().join(",");
    if n > 40 {
        format!("{{{s},... {n} in all}}")
    } else {
        format!("{{{s}}}")
    }
}

// ---------------------------------------------------------------------------------------------

fn build(op: &Op, s: u8, spec: &BuildSpec) {
    if slot(s).is_some() {
        return;
    }
    let k = kind(&spec.kind);
    bump(C::Builds);
    let r = (k.build)(&BuildIn { spec });
    let n = spec.delivered();
    if let (Err(Pan::Lib), true) = (&r, spec.refuse) {
        bump(C::BuildRefused);
        note(5);
        return;
    }
    let c = match fin(op, r, false, "construction") {
        None => return,
        Some(c) => c,
    };
    let lied = ctx().fired_lie;
    if spec.refuse {
        if !lied {
            bad("build/accepted", op, "construction accepted entries it has to refuse".into());
        }
        if let Err(_) = sched::quiet(|| c.drop_in()) {}
        return;
    }
    bump(match n {
        0..=6 => C::BuiltSmall,
        7..=255 => C::BuiltMedium,
        _ => C::BuiltLarge,
    });
    let model: BTreeMap<Lit, u64> = spec
        .keys
        .iter()
        .take(n)
        .enumerate()
        .map(|(i, l)| (l.clone(), if k.set { 0 } else { spec.val(i) }))
        .collect();
    if model.len() != n {
        harness_error("duplicate keys in a plan");
    }
    let mut o = Obj {
        c,
        kind: k,
        model,
        order: vec![],
        taint: lied,
    };
    order_pass(op, &mut o, "the new collection");
    *slot(s) = Some(o);
}

/// First pass over a new collection: its contents, and the order every later pass has to repeat.
fn order_pass(op: &Op, o: &mut Obj, what: &str) {
    let mut v = Vec::new();
    sched::quiet(|| {
        let mut it = match o.c.iters(0) {
            Ok(i) => i,
            Err(_) => bad("panic/unexpected", op, format!("iterating over {what} panicked")),
        };
        loop {
            match it.next() {
                Ok(Some(i)) => {
                    v.push(i);
                    if v.len() > o.model.len() {
                        break;
                    }
                }
                Ok(None) => break,
                Err(_) => bad("panic/unexpected", op, format!("iterating over {what} panicked")),
            }
        }
    });
    check_contents(op, o, &v, what);
    o.order = v.into_iter().map(|i| i.k.unwrap()).collect();
}

fn check_contents(op: &Op, o: &Obj, v: &[Item], what: &str) {
    let mut left = o.model.clone();
    for i in v {
        let k = i.k.as_ref().unwrap();
        note_lit(k);
        match left.remove(k) {
            None => bad(
                "contents/extra",
                op,
                format!("{what} ({}, {} entries expected) yields {} twice or though it was never given", o.kind.name, o.model.len(), lits([k])),
            ),
            Some(x) => {
                if let Some(t) = i.v {
                    if t != x {
                        bad("contents/value", op, format!("{what} ({}) holds value {t} for {}, expected {x}", o.kind.name, lits([k])));
                    }
                }
            }
        }
    }
    if !left.is_empty() {
        bad("contents/missing", op, format!("{what} ({}) lacks {}", o.kind.name, lits(left.keys())));
    }
}

// ---------------------------------------------------------------------------------------------

fn own_value(op: &Op, o: &Obj, t: u64) {
    if !o.has_val(t) {
        bad("containment/foreign", op, format!("a lookup returned value {t}, which is not one of the collection's own"));
    }
}

fn write_relaxed(o: &mut Obj, old: u64, new: u64) {
    if let Some(k) = o.model.iter().find(|e| *e.1 == old).map(|e| e.0.clone()) {
        o.model.insert(k, new);
    }
}

fn look(op: &Op, o: &mut Obj, how: How, key: &Lit, w: Option<u64>) {
    bump(C::Lookups);
    let present = o.model.contains_key(key);
    bump(if present { C::Hits } else { C::Misses });
    let mut how = how;
    if !o.c.is_map() && !matches!(how, How::Contains | How::Len | How::IsEmpty) {
        how = How::Get;
    }
    let want = o.val(key);
    let wrong = |o: &Obj, got: String| -> ! {
        bad(
            "lookup/wrong",
            op,
            format!("{} ({} entries): {how:?} of {} gave {got}, expected {want:?}", o.kind.name, o.model.len(), lits([key])),
        )
    };
    let taint = o.taint;
    match how {
        How::Get => {
            let r = o.c.get(key);
            if let Some(g) = fin(op, r, taint, "get") {
                let relaxed = taint || ctx().fired_lie;
                note(g.is_some() as u64);
                match &g {
                    None => {
                        if present && !relaxed {
                            wrong(o, "nothing".into())
                        }
                    }
                    Some((l, v)) => {
                        if relaxed {
                            if let Some(l) = l {
                                if !o.model.contains_key(l) {
                                    bad("containment/foreign", op, format!("a lookup returned {}, which is not an element of the set", lits([l])));
                                }
                            }
                            if let Some(v) = v {
                                own_value(op, o, *v)
                            }
                        } else {
                            if !present || (v.is_some() && *v != want) {
                                wrong(o, format!("value {v:?}"))
                            }
                            if let Some(l) = l {
                                if l != key {
                                    wrong(o, format!("element {}", lits([l])))
                                }
                            }
                        }
                    }
                }
            }
        }
        How::GetKv => {
            if let Some(r) = o.c.get_kv(key) {
                if let Some(g) = fin(op, r, taint, "get_key_value") {
                    let relaxed = taint || ctx().fired_lie;
                    match g {
                        None => {
                            if present && !relaxed {
                                wrong(o, "nothing".into())
                            }
                        }
                        Some((l, v)) => {
                            if o.val(&l) != Some(v) {
                                bad("containment/foreign", op, format!("get_key_value returned the pair {} = {v}, which is not an entry of the map", lits([&l])));
                            }
                            if !relaxed && (&l != key || !present) {
                                wrong(o, format!("the entry of {}", lits([&l])))
                            }
                        }
                    }
                }
            }
        }
        How::GetMut | How::IndexMut => {
            if w.is_some() {
                bump(C::Writes);
            }
            let r = if how == How::GetMut {
                o.c.get_mut(key, w)
            } else {
                match o.c.index_mut(key, w) {
                    None => None,
                    Some(Ok(v)) => Some(Ok(Some(v))),
                    Some(Err(Pan::Lib)) if !present => Some(Ok(None)),
                    Some(Err(e)) => Some(Err(e)),
                }
            };
            if let Some(r) = r {
                if let Some(g) = fin(op, r, taint, "mutable lookup") {
                    let relaxed = taint || ctx().fired_lie;
                    match g {
                        None => {
                            if present && !relaxed {
                                wrong(o, "nothing".into())
                            }
                        }
                        Some(t) => {
                            if relaxed {
                                own_value(op, o, t);
                                if let Some(w) = w {
                                    write_relaxed(o, t, w)
                                }
                            } else {
                                if want != Some(t) {
                                    wrong(o, format!("value {t}"))
                                }
                                if let Some(w) = w {
                                    o.model.insert(key.clone(), w);
                                }
                            }
                        }
                    }
                }
            }
        }
        How::Index => {
            if let Some(r) = o.c.index(key) {
                let r = match r {
                    Err(Pan::Lib) if !present => Ok(None),
                    Ok(v) => Ok(Some(v)),
                    Err(e) => Err(e),
                };
                if let Some(g) = fin(op, r, taint, "indexing") {
                    if taint || ctx().fired_lie {
                        if let Some(v) = g {
                            own_value(op, o, v)
                        }
                    } else if g != want {
                        wrong(o, format!("{g:?}"))
                    }
                }
            }
        }
        How::Contains => {
            let r = o.c.contains(key);
            if let Some(g) = fin(op, r, taint, "contains") {
                note(g as u64);
                if !(taint || ctx().fired_lie) && g != present {
                    wrong(o, format!("{g}"))
                }
            }
        }
        How::Len => {
            let r = o.c.len();
            if let Some(g) = fin(op, r, false, "len") {
                if g != o.model.len() {
                    wrong(o, format!("length {g}, it has {} entries", o.model.len()))
                }
            }
        }
        How::IsEmpty => {
            let r = o.c.is_empty();
            if let Some(g) = fin(op, r, false, "is_empty") {
                if g != o.model.is_empty() {
                    wrong(o, format!("is_empty {g}, it has {} entries", o.model.len()))
                }
            }
        }
    }
}

fn many(op: &Op, o: &mut Obj, keys: &[Lit], w: u64) {
    let distinct = keys.iter().collect::<BTreeSet<_>>().len() == keys.len();
    let want: Option<Vec<u64>> = if distinct { keys.iter().map(|k| o.val(k)).collect() } else { None };
    let taint = o.taint;
    if let Some(r) = o.c.many(keys, w) {
        bump(C::Many);
        if let Some(g) = fin(op, r, taint, "get_many_mut") {
            let relaxed = taint || ctx().fired_lie;
            if let Some(v) = &g {
                let mut ps: Vec<usize> = v.iter().map(|x| x.1).collect();
                ps.sort_unstable();
                ps.dedup();
                if ps.len() != v.len() {
                    bad("aliasing/two-mutable", op, format!("get_many_mut({}) returned two mutable references to one value", lits(keys)));
                }
            }
            if relaxed {
                if let Some(v) = g {
                    for (i, (t, _)) in v.iter().enumerate() {
                        own_value(op, o, *t);
                        if w != 0 {
                            write_relaxed(o, *t, w + i as u64);
                        }
                    }
                }
                return;
            }
            let got: Option<Vec<u64>> = g.map(|v| v.iter().map(|x| x.0).collect());
            note(got.is_some() as u64);
            if got != want {
                bad("many/wrong", op, format!("{}: get_many_mut({}) gave {got:?}, expected {want:?}", o.kind.name, lits(keys)));
            }
            if got.is_some() && w != 0 {
                bump(C::Writes);
                for (i, k) in keys.iter().enumerate() {
                    o.model.insert(k.clone(), w + i as u64);
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

struct Reg<'a> {
    it: Box<dyn DynIt<'a> + 'a>,
    pos: usize,
    which: u8,
}
const NREG: usize = 8;

/// What a consumer sees of `rest` when it drains an iterator the given way.
fn drain_expect(how: Drain, rest: &[Item]) -> (Vec<Item>, Option<usize>) {
    let n = rest.len();
    let at = |i: usize| rest.get(i).cloned();
    match how {
        Drain::ForEach | Drain::Collect => (rest.to_vec(), None),
        Drain::Fold => (rest.to_vec(), Some(n)),
        Drain::Last => (rest.last().cloned().into_iter().collect(), None),
        Drain::Count => (vec![], Some(n)),
        Drain::Nth(k) => (
            // past the end the iterator is finished
            at(k).into_iter().chain(at(k + 1)).collect(),
            None,
        ),
        Drain::All(k) => (rest.iter().take(k + 2).cloned().collect(), None),
        Drain::StepBy(k) => (rest.iter().step_by(k + 1).cloned().collect(), None),
        Drain::Skip(k) => (rest.iter().skip(k).cloned().collect(), None),
        Drain::Drop => (vec![], None),
    }
}

/// What moving on the given way hands out of `rest`, what it returns, and how many items it takes.
fn adv_expect(how: Adv, rest: &[Item]) -> (Vec<Item>, Option<usize>, usize) {
    let n = rest.len();
    let upto = |k: usize| rest.iter().take(k).cloned().collect::<Vec<_>>();
    let at = |k: usize| rest.get(k).cloned().into_iter().collect::<Vec<_>>();
    match how {
        Adv::Nth(k) | Adv::Find(k) | Adv::SkipOne(k) => (at(k), None, n.min(k + 1)),
        Adv::All(k) => (upto(k + 1), None, n.min(k + 1)),
        Adv::Position(k) => (upto(k + 1), if k < n { Some(k) } else { None }, n.min(k + 1)),
        Adv::TryFold(k) => (upto(k + 1), Some(n.min(k + 1)), n.min(k + 1)),
        Adv::Take(k) => (upto(k), None, n.min(k)),
        Adv::Count => (vec![], Some(n), n),
        Adv::Last => (rest.last().cloned().into_iter().collect(), None, n),
    }
}

fn seq_prog<'a>(op: &Op, order: &[Lit], exp: &dyn Fn(&Lit, u8) -> Item, std: bool, steps: &[St], mut open: impl FnMut(u8) -> Option<LR<Box<dyn DynIt<'a> + 'a>>>) {
    let mut regs: Vec<Option<Reg<'a>>> = (0..NREG).map(|_| None).collect();
    let n = order.len();
    let mut nopen = 0;
    for st in steps {
        bump(C::IterSteps);
        match st {
            St::Open(w) => {
                let i = nopen % NREG;
                nopen += 1;
                if let Some(r) = open(*w) {
                    if let Some(it) = fin(op, r, false, "opening an iterator") {
                        regs[i] = Some(Reg { it, pos: 0, which: *w });
                    }
                }
            }
            St::Next(r) => {
                if let Some(g) = &mut regs[*r as usize % NREG] {
                    let v = g.it.next();
                    let which = g.which;
                    let pos = g.pos;
                    match fin(op, v, false, "next") {
                        None => {
                            regs[*r as usize % NREG] = None;
                        }
                        Some(v) => {
                            let want = order.get(pos).map(|k| exp(k, which));
                            if v != want {
                                bad("iteration/wrong", op, format!("step {pos} of iterator kind {which} yielded {v:?}, expected {want:?} ({n} entries)"));
                            }
                            if v.is_some() {
                                regs[*r as usize % NREG].as_mut().unwrap().pos += 1;
                            }
                        }
                    }
                }
            }
            St::Adv(r, how) => {
                let r = *r as usize % NREG;
                if let Some(g) = &mut regs[r] {
                    let (pos, which) = (g.pos, g.which);
                    let rest: Vec<Item> = order[pos..].iter().map(|k| exp(k, which)).collect();
                    let (want, cnt, took) = adv_expect(*how, &rest);
                    let mut seen = Vec::new();
                    let d = g.it.adv(*how, &mut seen);
                    let d = fin(op, d, false, "moving an iterator on");
                    if seen.len() > want.len() || seen[..] != want[..seen.len()] || (d.is_some() && seen.len() != want.len()) {
                        bad("iteration/wrong", op, format!("{how:?} from position {pos} of {n} (kind {which}) saw {} items {:?}..., expected {}", seen.len(), seen.iter().take(4).collect::<Vec<_>>(), want.len()));
                    }
                    match d {
                        None => regs[r] = None,
                        Some(c) => {
                            if c != cnt {
                                bad("iteration/count", op, format!("{how:?} from position {pos} of {n} (kind {which}) returned {c:?}, expected {cnt:?}"));
                            }
                            g.pos += took;
                        }
                    }
                }
            }
            St::Clone(r) => {
                let i = nopen % NREG;
                if let Some(g) = &regs[*r as usize % NREG] {
                    let d = g.it.dup();
                    let (pos, which) = (g.pos, g.which);
                    nopen += 1;
                    if let Some(it) = fin(op, d, false, "cloning an iterator") {
                        regs[i] = Some(Reg { it, pos, which });
                    }
                }
            }
            St::Hint(r) => {
                if let Some(g) = &regs[*r as usize % NREG] {
                    let left = n - g.pos;
                    if let Some(h) = fin(op, g.it.hint(), false, "size_hint") {
                        if !std && h != (left, Some(left)) {
                            bad("iteration/size-hint", op, format!("size_hint {h:?} with {left} of {n} items still to come (kind {})", g.which));
                        }
                    }
                    if let Some(l) = g.it.len() {
                        if let Some(l) = fin(op, l, false, "len of an iterator") {
                            if l != left {
                                bad("iteration/len", op, format!("len {l} with {left} of {n} items still to come (kind {})", g.which));
                            }
                        }
                    }
                }
            }
            St::Fin(r, how) => {
                if let Some(g) = regs[*r as usize % NREG].take() {
                    let rest: Vec<Item> = order[g.pos..].iter().map(|k| exp(k, g.which)).collect();
                    let (pos, which) = (g.pos, g.which);
                    let mut seen = Vec::new();
                    let d = g.it.drain(*how, &mut seen);
                    let (want, cnt) = drain_expect(*how, &rest);
                    if let Some(c) = fin(op, d, false, "consuming an iterator") {
                        if seen != want {
                            bad("iteration/wrong", op, format!("{how:?} from position {pos} of {n} (kind {which}) saw {} items {:?}..., expected {}", seen.len(), seen.iter().take(4).collect::<Vec<_>>(), want.len()));
                        }
                        if !std && c.is_some() && c != cnt {
                            bad("iteration/count", op, format!("{how:?} from position {pos} of {n} (kind {which}) returned {c:?}, expected {cnt:?}"));
                        }
                    } else {
                        // cut short: what was seen must be a prefix
                        if seen.len() > want.len() || seen[..] != want[..seen.len()] {
                            bad("iteration/wrong", op, format!("{how:?} from position {pos} of {n} (kind {which}), cut short, saw {seen:?}"));
                        }
                    }
                }
            }
            St::Dbg(r, alt, lim) => {
                if let Some(g) = &regs[*r as usize % NREG] {
                    if !std {
                        let rest: Vec<Item> = order[g.pos..].iter().map(|k| exp(k, g.which)).collect();
                        let mut sink = Sink::new(*lim);
                        bump(C::Formats);
                        let f = g.it.fmt(&mut sink, *alt);
                        judge_fmt(op, f, &sink, &rest, false);
                    }
                }
            }
        }
    }
}

fn iter_prog(op: &Op, o: &Obj, steps: &[St]) {
    let c: &dyn Coll = &*o.c;
    seq_prog(op, &o.order, &|k, w| o.expect(k, w), o.std(), steps, |w| Some(c.iters(w)));
}

fn own_prog(op: &Op, model: &BTreeMap<Lit, u64>, order: &[Lit], it: Box<dyn DynIt<'static>>, steps: &[St]) {
    let _ = model;
    let mut it = Some(it);
    let exp = |k: &Lit, _w: u8| Item { k: Some(k.clone()), v: None };
    seq_prog(op, order, &exp, false, steps, |_| it.take().map(Ok));
}

// ---------------------------------------------------------------------------------------------

fn expected(x: &Obj, y: &Obj, alg: Alg) -> BTreeSet<Lit> {
    let a: BTreeSet<Lit> = x.model.keys().cloned().collect();
    let b: BTreeSet<Lit> = y.model.keys().cloned().collect();
    match alg {
        Alg::Union => a.union(&b).cloned().collect(),
        Alg::Inter => a.intersection(&b).cloned().collect(),
        Alg::Diff => a.difference(&b).cloned().collect(),
        Alg::Sym => a.symmetric_difference(&b).cloned().collect(),
    }
}

fn alg_prog(op: &Op, x: &Obj, y: &Obj, alg: Alg, steps: &[St]) {
    struct A<'a> {
        it: Box<dyn DynIt<'a> + 'a>,
        left: BTreeSet<Lit>,
    }
    let want = expected(x, y, alg);
    let taint = x.taint || y.taint;
    let relaxed = || taint || ctx().fired_lie;
    let mut regs: Vec<Option<A>> = (0..NREG).map(|_| None).collect();
    let mut nopen = 0;
    let take = |a: &mut BTreeSet<Lit>, i: &Item| {
        let k = i.k.as_ref().unwrap();
        note_lit(k);
        if !a.remove(k) && !relaxed() {
            let why = if want.contains(k) { "a second time" } else { "which does not belong to it" };
            bad("algebra/wrong", op, format!("{alg:?} yielded {} {why}; operands {} and {}", lits([k]), lits(x.model.keys()), lits(y.model.keys())));
        }
        if relaxed() && !x.model.contains_key(k) && !y.model.contains_key(k) {
            bad("containment/foreign", op, format!("{alg:?} yielded {}, which is in neither set", lits([k])));
        }
    };
    for st in steps {
        bump(C::IterSteps);
        match st {
            St::Open(_) => {
                let i = nopen % NREG;
                nopen += 1;
                if let Some(r) = x.c.alg(&*y.c, alg) {
                    if let Some(it) = fin(op, r, taint, "opening a set iterator") {
                        regs[i] = Some(A { it, left: want.clone() });
                    }
                }
            }
            St::Next(r) => {
                let r = *r as usize % NREG;
                if let Some(g) = &mut regs[r] {
                    match fin(op, g.it.next(), taint, "next") {
                        None => regs[r] = None,
                        Some(None) => {
                            note(9);
                            if !g.left.is_empty() && !relaxed() {
                                bad("algebra/missing", op, format!("{alg:?} ended without {}; operands {} and {}", lits(&g.left), lits(x.model.keys()), lits(y.model.keys())));
                            }
                        }
                        Some(Some(i)) => take(&mut g.left, &i),
                    }
                }
            }
            St::Adv(r, how) => {
                let r = *r as usize % NREG;
                if let Some(g) = &mut regs[r] {
                    // `skip` and the like take items that are not seen: only those that are all seen, or all not
                    let n = g.left.len();
                    let mut how = *how;
                    if let Adv::Nth(k) | Adv::Find(k) | Adv::SkipOne(k) = how {
                        if k < n {
                            how = Adv::Take(k);
                        }
                    }
                    let dummy = vec![Item { k: None, v: None }; n];
                    let (want_n, cnt, took) = adv_expect(how, &dummy);
                    let mut seen = Vec::new();
                    let d = g.it.adv(how, &mut seen);
                    let d = fin(op, d, taint, "moving a set iterator on");
                    for i in &seen {
                        take(&mut g.left, i);
                    }
                    if !relaxed() {
                        if let Some(c) = d {
                            if seen.len() != want_n.len() {
                                bad("algebra/missing", op, format!("{how:?} of {alg:?} with {n} items to come saw {}, expected {}; operands {} and {}", seen.len(), want_n.len(), lits(x.model.keys()), lits(y.model.keys())));
                            }
                            if c != cnt {
                                bad("algebra/count", op, format!("{how:?} of {alg:?} with {n} items to come returned {c:?}, expected {cnt:?}"));
                            }
                            if took == n {
                                g.left.clear();
                            }
                        }
                    }
                    if d.is_none() {
                        regs[r] = None;
                    }
                }
            }
            St::Clone(r) => {
                let i = nopen % NREG;
                if let Some(g) = &regs[*r as usize % NREG] {
                    nopen += 1;
                    let left = g.left.clone();
                    if let Some(it) = fin(op, g.it.dup(), taint, "cloning an iterator") {
                        regs[i] = Some(A { it, left });
                    }
                }
            }
            St::Hint(r) => {
                if let Some(g) = &regs[*r as usize % NREG] {
                    if let Some((lo, hi)) = fin(op, g.it.hint(), taint, "size_hint") {
                        let left = g.left.len();
                        if !relaxed() && (lo > left || hi.is_some_and(|h| h < left)) {
                            bad("algebra/size-hint", op, format!("size_hint {:?} with {left} items still to come ({alg:?} of {} and {} elements)", (lo, hi), x.model.len(), y.model.len()));
                        }
                    }
                }
            }
            St::Fin(r, how) => {
                if let Some(mut g) = regs[*r as usize % NREG].take() {
                    let n = g.left.len();
                    let dummy = vec![Item { k: None, v: None }; n];
                    let (want_n, cnt) = drain_expect(*how, &dummy);
                    let mut seen = Vec::new();
                    let d = g.it.drain(*how, &mut seen);
                    let d = fin(op, d, taint, "consuming a set iterator");
                    for i in &seen {
                        take(&mut g.left, i);
                    }
                    if relaxed() {
                        continue;
                    }
                    if let Some(c) = d {
                        if seen.len() != want_n.len() {
                            bad("algebra/missing", op, format!("{how:?} of {alg:?} with {n} items to come saw {}, expected {}; operands {} and {}", seen.len(), want_n.len(), lits(x.model.keys()), lits(y.model.keys())));
                        }
                        if c.is_some() && c != cnt {
                            bad("algebra/count", op, format!("{how:?} of {alg:?} returned {c:?}, expected {cnt:?}"));
                        }
                    }
                }
            }
            St::Dbg(r, alt, lim) => {
                if let Some(g) = &regs[*r as usize % NREG] {
                    let rest: Vec<Item> = g.left.iter().map(|k| Item { k: Some(k.clone()), v: None }).collect();
                    let mut sink = Sink::new(*lim);
                    bump(C::Formats);
                    let f = g.it.fmt(&mut sink, *alt);
                    let rx = relaxed();
                    judge_fmt(op, f, &sink, &rest, rx);
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

fn tokens(t: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '"' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            cur.push('"');
            while let Some(d) = it.next() {
                cur.push(d);
                if d == '\\' {
                    if let Some(e) = it.next() {
                        cur.push(e);
                    }
                } else if d == '"' {
                    break;
                }
            }
            out.push(std::mem::take(&mut cur));
        } else if c.is_alphanumeric() || c == '-' || c == '<' || c == '>' || c == '_' {
            cur.push(c);
        } else if !cur.is_empty() {
            out.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    // names of types and fields do not count
    out.retain(|s| {
        let c = s.chars().next().unwrap();
        !(c.is_alphabetic() || c == '_') || s.starts_with("K<") || s.starts_with("V<")
    });
    out
}

fn judge_fmt(op: &Op, r: LR<std::fmt::Result>, sink: &Sink, items: &[Item], taint: bool) {
    if sink.after_fail > 0 {
        bad("format/after-error", op, format!("formatting went on writing ({} times) after the sink had reported an error", sink.after_fail));
    }
    let r = match fin(op, r, taint, "formatting") {
        None => return,
        Some(r) => r,
    };
    let c = ctx();
    let injected = sink.failed || c.fired_err;
    note(r.is_ok() as u64);
    match r {
        Err(_) => {
            if !injected {
                bad("format/spurious-error", op, "formatting reported an error although nothing failed".into());
            }
            c.fired_err = false;
        }
        Ok(()) => {
            if injected {
                bad("format/swallowed-error", op, format!("formatting succeeded although {} failed; {} bytes were written", if sink.failed { "the sink" } else { "an entry's formatter" }, sink.text.len()));
            }
            if taint {
                return;
            }
            note_s(&sink.text);
            let tk = |l: &Lit| match l {
                Lit::I(i) => i.to_string(),
                Lit::S(s) => format!("{s:?}"),
            };
            let got = tokens(&sink.text);
            // SimKey prints as K<n>, plain integers as n
            let norm = |s: &String| s.strip_prefix("K<").and_then(|x| x.strip_suffix('>')).map(|x| x.to_string()).unwrap_or_else(|| s.clone());
            let mut want: BTreeMap<String, i64> = BTreeMap::new();
            let mut n = 0;
            let pairs = items.iter().any(|i| i.k.is_some() && i.v.is_some());
            for i in items {
                let mut s = String::new();
                if let Some(k) = &i.k {
                    s.push_str(&tk(k));
                    n += 1;
                }
                if let Some(v) = &i.v {
                    s.push_str(&format!("=V<{v}>"));
                    n += 1;
                }
                *want.entry(s).or_default() += 1;
            }
            if got.len() != n {
                bad("format/incomplete", op, format!("the output has {} keys and values, expected {n}: {}", got.len(), sink.text.chars().take(300).collect::<String>()));
            }
            let step = if pairs { 2 } else { 1 };
            for g in got.chunks(step) {
                let s = if step == 2 {
                    format!("{}={}", norm(&g[0]), g[1])
                } else {
                    let s = norm(&g[0]);
                    if s.starts_with("V<") {
                        format!("={s}")
                    } else {
                        s
                    }
                };
                let e = want.entry(s.clone()).or_default();
                *e -= 1;
                if *e < 0 {
                    bad("format/wrong", op, format!("the output lists {s} too often or wrongly: {}", sink.text.chars().take(300).collect::<String>()));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// Everything the collection can be asked, against the model.
fn audit(op: &Op, o: &mut Obj, probes: &[Lit]) {
    bump(C::Audits);
    for h in [How::Len, How::IsEmpty] {
        look(op, o, h, &Lit::I(0), None);
    }
    let n = o.model.len();
    let heavy = matches!(o.kind.fam, Fam::Scan) || n > 300;
    let stride = if heavy { (n / 120).max(1) } else { 1 };
    let keys: Vec<Lit> = o.order.iter().enumerate().filter(|(i, _)| i % stride == 0 || n - i <= 3).map(|e| e.1.clone()).collect();
    for (i, k) in keys.iter().chain(probes.iter()).enumerate() {
        look(op, o, How::Get, k, None);
        look(op, o, How::Contains, k, None);
        if i % 4 == 0 || n < 40 {
            look(op, o, How::GetKv, k, None);
        }
        if i % 8 == 0 {
            look(op, o, How::Index, k, None);
        }
    }
    let full = [St::Open(0), St::Hint(0), St::Fin(0, Drain::ForEach)];
    iter_prog(op, o, &full);
    let v: Vec<Item> = o.order.iter().map(|k| o.expect(k, 0)).collect();
    check_contents(op, o, &v, "the collection");
}

/// A callback calls back into the library: it puts read-only questions to collections it can reach,
/// repeats the very operation it is called from, and builds, uses and drops a collection of its own.
pub fn reenter() {
    let me = sched::cur();
    let op = Op {
        id: u32::MAX,
        k: OpK::Drop { slot: 255 },
    };
    let mut ss: Vec<u8> = held(me).clone();
    for i in 0..NSLOT as u8 {
        if ss.len() < 3 && !ss.contains(&i) && slot(i).is_some() && sched::readable(i) && plan().clients.len() < 2 {
            ss.push(i);
        }
    }
    // the operation under way may hold its own collection exclusively
    let busy: Vec<u8> = plan_op_writes(ctx().op);
    let c = ctx();
    let was = (c.fired_panic, c.fired_lie, c.fired_err, c.fired_oom);
    (c.fired_panic, c.fired_lie, c.fired_err, c.fired_oom) = (false, false, false, false);
    c.reentered += 1;
    let times = c.reentered;
    for s in ss {
        if busy.contains(&s) {
            continue;
        }
        if let Some(o) = slot(s) {
            let o = o as *mut Obj;
            // read-only: look() takes &mut for the writing variants only
            let o = unsafe { &mut *o };
            let ks: Vec<Lit> = o.order.iter().take(3).cloned().collect();
            for k in ks {
                look(&op, o, How::Get, &k, None);
                look(&op, o, How::Contains, &k, None);
            }
            look(&op, o, How::Len, &Lit::I(0), None);
        }
    }
    if times <= 2 {
        if let Some(under_way) = plan_op(ctx().op) {
            if busy.is_empty() && !matches!(under_way.k, OpK::Audit { .. }) {
                bump(C::NestedOps);
                exec(under_way);
            }
            nested_build(under_way);
        }
    }
    let c = ctx();
    (c.fired_panic, c.fired_lie, c.fired_err, c.fired_oom) = was;
}
/// A small collection of the kind the operation works on, built, read and dropped inside a callback.
fn nested_build(op: &Op) {
    let p = plan();
    let spec = match &op.k {
        OpK::Build { spec, .. } => spec,
        k => {
            let Some((s, _)) = lock_set(k).first().cloned() else { return };
            let all = p.setup.iter().chain(p.clients.iter().flatten());
            match all.filter_map(|o| match &o.k { OpK::Build { slot, spec } if *slot == s => Some(spec), _ => None }).next() {
                None => return,
                Some(x) => x,
            }
        }
    };
    let k = kind(&spec.kind);
    if k.fam == Fam::Std || k.fam == Fam::Range && spec.refuse {
        return;
    }
    let mut sp = spec.clone();
    sp.keys.sort();
    sp.keys.truncate(3.min(k.cap));
    sp.vals = vec![];
    sp.end_at = None;
    sp.refuse = false;
    if sp.ctor != Ctor::Default {
        sp.ctor = Ctor::Iter;
        sp.hint = HintLie::Exact;
    }
    if sp.ctor == Ctor::Default && !sp.keys.is_empty() {
        return;
    }
    bump(C::NestedBuilds);
    let c = match (k.build)(&BuildIn { spec: &sp }) {
        Ok(c) => c,
        Err(_) => bad("panic/unexpected", op, "building a collection inside a callback panicked".into()),
    };
    let model: BTreeMap<Lit, u64> = sp.keys.iter().enumerate().map(|(i, l)| (l.clone(), if k.set { 0 } else { sp.val(i) })).collect();
    let mut o = Obj {
        c,
        kind: k,
        model,
        order: vec![],
        taint: false,
    };
    order_pass(op, &mut o, "a collection built inside a callback");
    let ks: Vec<Lit> = o.order.clone();
    for x in ks.iter().chain(spec.keys.iter().filter(|x| !ks.contains(x)).take(1)) {
        look(op, &mut o, How::Get, x, None);
        look(op, &mut o, How::Contains, x, None);
    }
    if o.c.drop_in().is_err() {
        bad("panic/unexpected", op, "dropping a collection inside a callback panicked".into());
    }
}
fn plan_op(id: u32) -> Option<&'static Op> {
    let p = plan();
    p.setup.iter().chain(p.clients.iter().flatten()).chain(p.teardown.iter()).find(|o| o.id == id)
}
fn plan_op_writes(id: u32) -> Vec<u8> {
    plan_op(id).map(|o| lock_set(&o.k).into_iter().filter(|x| x.1).map(|x| x.0).collect()).unwrap_or_default()
}

// ---------------------------------------------------------------------------------------------

fn client(i: usize) {
    for op in &plan().clients[i - 1] {
        run_op(op);
    }
}

fn once(p: &Plan) {
    unsafe { PLAN = p }
    set_os_rand(p.os.0, p.os.1);
    set_default_bh(p.def_bh.0, p.def_bh.1);
    sched::init(&p.sched);
    shm().phase = 0;
    for op in &p.setup {
        run_op(op);
    }
    shm().phase = 1;
    sched::run_clients(p.clients.len(), client);
    shm().phase = 2;
    for op in &p.teardown {
        run_op(op);
    }
    shm().phase = 3;
    for i in 0..NSLOT as u8 {
        if let Some(o) = slot(i).take() {
            let taint = o.taint;
            let r = sched::quiet(|| o.c.drop_in());
            if r.is_err() && !taint {
                violate("panic/unexpected", "dropping a collection panicked".into());
            }
        }
    }
    let l = ledger().live();
    if l != 0 && unsafe { !LENIENT } {
        violate("leak/entries", format!("{l} keys or values were never dropped"));
    }
}

/// Runs a plan to its end; ends the process through `violate` when a check fails.
pub fn run_plan(p: &Plan) {
    if std::env::var_os("FSIM_LEAKS").is_some() {
        unsafe { DBG = true }
    }
    track_forget();
    once(p);
    if track_live() > 0 && unsafe { !LENIENT } {
        // memory kept on purpose for the life of the process does not grow with every repetition
        let m = shm();
        let keep = (m.nsw, m.fingerprint, m.sched_hash);
        for _ in 0..2 {
            track_forget();
            m.nsw = 0;
            once(p);
            if track_live() == 0 {
                break;
            }
        }
        if track_live() > 0 {
            if std::env::var_os("FSIM_VERBOSE").is_some() {
                eprintln!("leaked {}", track_dump());
            }
            violate("leak/memory", format!("{} blocks allocated by the library were never freed, on every repetition", track_live()));
        }
        m.nsw = keep.0;
        m.fingerprint = keep.1;
        m.sched_hash = keep.2;
    }
}
