//! The simulated environment: callbacks with fault points, the ownership ledger, the allocator,
//! the hash builder, the sources and sinks. Everything here is owned by the simulator; the code
//! under test only ever sees it through the traits a user would implement.

use crate::plan::*;
use crate::sched;
use frozen_collections::len::Len;
use frozen_collections::slice_hash::SliceHash;
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::{self, Debug, Formatter};
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

extern "C" {
    fn sim_get_active() -> i32;
    fn sim_set_active(a: i32) -> i32;
    pub fn sim_get_step() -> u64;
    pub fn sim_set_step(s: u64);
    pub fn sim_set_next(s: u64);
    pub fn sim_get_next() -> u64;
    fn sim_tick();
    pub fn sim_set_shared(cov: *mut u8, total: *mut u64);
}

pub fn set_active(a: bool) -> bool {
    unsafe { sim_set_active(a as i32) != 0 }
}
pub fn is_active() -> bool {
    unsafe { sim_get_active() != 0 }
}

// ---------------------------------------------------------------------------------------------
// shared memory with the parent process

pub const MAXOPS: usize = 768;
pub const MAXSW: usize = 8192;
pub const COVSZ: usize = 1 << 20;
pub const NCNT: usize = 32;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct OpProf {
    pub steps: u32,
    pub cb: [u32; NK],
}

#[repr(C)]
pub struct Shm {
    pub total: u64,
    pub status: u32, // 0 running, 1 done, 2 violation, 3 harness error
    pub cur_client: u32,
    pub cur_op: u32,
    pub phase: u32,
    pub nsw: u32,
    pub sw: [Sw; MAXSW],
    pub class: [u8; 96],
    pub msg: [u8; 6000],
    pub fired: [[u32; NACT]; NK],
    pub prof: [OpProf; MAXOPS],
    pub fingerprint: u64,
    pub sched_hash: u64,
    pub cnt: [u64; NCNT],
    pub nops: u32,
    pub nontrivial: u32,
    pub panic_msg: [u8; 400],
    pub maxratio: [f32; 16],
}

pub static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

pub fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
pub fn gets(src: &[u8]) -> String {
    let n = src.iter().position(|c| *c == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

/// Counters for the evidence file.
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub enum C {
    Builds,
    BuildRefused,
    Lookups,
    Hits,
    Misses,
    Writes,
    Many,
    Clones,
    IterSteps,
    IterPrograms,
    AlgPrograms,
    Relations,
    Operators,
    Equalities,
    Formats,
    Audits,
    Switches,
    Freezes,
    LockWaits,
    Panics,
    Ooms,
    BuiltSmall,
    BuiltMedium,
    BuiltLarge,
    Drops,
    Consumed,
    MaxSteps,
    Overlaps,
    NestedOps,
    NestedBuilds,
}
pub const CNT_NAMES: [&str; 30] = [
    "collections_built",
    "builds_refused",
    "lookups",
    "lookup_hits",
    "lookup_misses",
    "writes",
    "multi_key_calls",
    "clones",
    "iterator_steps",
    "iterator_programs",
    "set_algebra_programs",
    "set_relations",
    "set_operators",
    "equality_tests",
    "formats",
    "full_audits",
    "thread_switches",
    "threads_frozen",
    "turn_waits",
    "panics_caught",
    "allocation_failures_survived",
    "built_0_to_6",
    "built_7_to_255",
    "built_256_up",
    "collections_dropped",
    "collections_consumed",
    "max_steps_of_one_operation",
    "operations_preempted",
    "operations_repeated_inside_a_callback",
    "collections_built_inside_a_callback",
];
pub fn bump(c: C) {
    shm().cnt[c as usize] += 1;
}

/// Records a violation and ends the run at once.
pub fn violate(class: &str, msg: String) -> ! {
    set_active(false);
    let s = shm();
    put(&mut s.class, class);
    let pm = gets(&s.panic_msg);
    let m = if pm.is_empty() {
        msg
    } else {
        format!("{msg} [last library panic: {pm}]")
    };
    put(&mut s.msg, &m);
    s.status = 2;
    unsafe { libc::_exit(10) }
}
pub fn harness_error(msg: &str) -> ! {
    set_active(false);
    let s = shm();
    put(&mut s.class, "harness");
    put(&mut s.msg, msg);
    s.status = 3;
    unsafe { libc::_exit(11) }
}

// ---------------------------------------------------------------------------------------------
// running library code

#[derive(Clone, Debug, PartialEq)]
pub enum Pan {
    Sim,
    Oom,
    Lib,
}
pub struct SimPanic;
pub struct SimOom;
pub type LR<T> = Result<T, Pan>;

/// Runs one library call: scheduling points, callbacks and fault points are live inside.
#[inline(always)]
pub fn lib<T, F: FnOnce() -> T>(f: F) -> LR<T> {
    let mut f = Some(f);
    let mut out = None;
    let k = lib_dyn(&mut || {
        if let Some(f) = f.take() {
            out = Some(f())
        }
    });
    match (out, k) {
        (Some(v), _) => Ok(v),
        (None, Some(k)) => Err(k),
        (None, None) => Err(Pan::Lib),
    }
}
#[inline(never)]
fn lib_dyn(f: &mut dyn FnMut()) -> Option<Pan> {
    let old = set_active(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_active(false);
    let r = match r {
        Ok(()) => None,
        Err(p) => {
            let k = if p.is::<SimPanic>() {
                Pan::Sim
            } else if p.is::<SimOom>() {
                Pan::Oom
            } else {
                Pan::Lib
            };
            drop(p);
            bump(C::Panics);
            Some(k)
        }
    };
    set_active(old);
    r
}

pub struct Ctx {
    pub op: u32,
    pub counts: [u32; NK],
    pub faults: Vec<Fault>,
    pub nested: bool,
    /// times a callback of this operation called back into the library
    pub reentered: u32,
    pub fired_panic: bool,
    pub fired_oom: bool,
    pub fired_lie: bool,
    pub fired_err: bool,
    /// what is being dropped is dropped by the library alone, so a panic in a drop must not lose anything
    pub strict_drop: bool,
}
impl Ctx {
    const fn new() -> Ctx {
        Ctx {
            op: u32::MAX,
            counts: [0; NK],
            faults: Vec::new(),
            nested: false,
            reentered: 0,
            fired_panic: false,
            fired_oom: false,
            fired_lie: false,
            fired_err: false,
            strict_drop: false,
        }
    }
}
static mut CTX: [Ctx; 9] = [const { Ctx::new() }; 9];
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut (*std::ptr::addr_of_mut!(CTX))[sched::cur()] }
}
pub fn ctx_of(i: usize) -> &'static mut Ctx {
    unsafe { &mut (*std::ptr::addr_of_mut!(CTX))[i] }
}

/// Held while a callback runs: scheduling points are off until it ends.
pub struct CbGuard {
    was: bool,
    pub act: Act,
}
impl Drop for CbGuard {
    fn drop(&mut self) {
        set_active(self.was);
    }
}

/// Leaks are not judged in this run.
pub static mut LENIENT: bool = false;

/// Entry of every callback: a scheduling point and a fault point.
pub fn cb(kind: Cb) -> CbGuard {
    let was = set_active(false);
    let mut g = CbGuard {
        was,
        act: Act::None,
    };
    if !was {
        return g;
    }
    let c = ctx();
    if c.nested {
        return g;
    }
    unsafe { sim_tick() };
    let n = c.counts[kind as usize];
    c.counts[kind as usize] += 1;
    for f in &c.faults {
        if f.kind as u8 == kind as u8 && n >= f.nth && n < f.nth.saturating_add(f.len) {
            g.act = f.act.clone();
            break;
        }
    }
    match &g.act {
        Act::None => {}
        Act::Panic => {
            // a second panic while one is unwinding would abort by Rust's own rules
            if std::thread::panicking() || kind as u8 == Cb::BhClone as u8 && false {
                g.act = Act::None;
            } else {
                fired(kind, &Act::Panic);
                c.fired_panic = true;
                if !matches!(kind, Cb::KeyDrop | Cb::ValDrop) {
                    panic_any(SimPanic);
                }
                if !c.strict_drop {
                    // rustc leaks a return value when an argument's drop panics, and std's adaptors do
                    // drop items on the way; that is not the library's doing
                    unsafe { LENIENT = true }
                }
            }
        }
        Act::Stall => {
            fired(kind, &Act::Stall);
            sched::stall();
        }
        Act::Reenter => {
            fired(kind, &Act::Reenter);
            c.nested = true;
            crate::exec::reenter();
            ctx().nested = false;
        }
        Act::Lie(m) => {
            let a = Act::Lie(*m);
            fired(kind, &a);
            c.fired_lie = true;
        }
        Act::Err => {
            fired(kind, &Act::Err);
            c.fired_err = true;
        }
        Act::Oom => {}
    }
    g
}
fn fired(kind: Cb, act: &Act) {
    let s = shm();
    s.fired[kind as usize][act.idx()] += 1;
    s.nontrivial |= 1;
}

// ---------------------------------------------------------------------------------------------
// ownership ledger

pub struct Ledger {
    st: Vec<u8>, // 1 live, 2 dropped
    live: i64,
}
static mut LEDGER: Ledger = Ledger {
    st: Vec::new(),
    live: 0,
};
pub fn ledger() -> &'static mut Ledger {
    unsafe { &mut *std::ptr::addr_of_mut!(LEDGER) }
}
impl Ledger {
    pub fn new_id(&mut self) -> u32 {
        // the ledger's own memory is not the library's
        let f = unsafe { std::mem::replace(&mut FORCE, false) };
        self.st.push(1);
        unsafe { FORCE = f }
        self.live += 1;
        (self.st.len() - 1) as u32
    }
    fn check(&self, id: u32, what: &str) {
        if self.st.get(id as usize) != Some(&1) {
            violate(
                "ledger/use-after-drop",
                format!("{what} used after it was dropped (token {id})"),
            );
        }
    }
    fn dropped(&mut self, id: u32, what: &str) {
        match self.st.get(id as usize) {
            Some(1) => {
                self.st[id as usize] = 2;
                self.live -= 1;
            }
            _ => violate(
                "ledger/double-drop",
                format!("{what} dropped twice (token {id})"),
            ),
        }
    }
    pub fn live(&self) -> i64 {
        self.live
    }
    pub fn is_live(&self, id: u32) -> bool {
        self.st.get(id as usize) == Some(&1)
    }
}

// ---------------------------------------------------------------------------------------------
// keys and values

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum KTy {
    U8,
    I8,
    U16,
    U32,
    I64,
    U64,
    Usize,
    I128,
    Str,
    Key,
    SStr,
}

pub trait SimK: Clone + Debug + Eq + Hash + Ord + 'static {
    const TY: KTy;
    fn mk(l: &Lit) -> Self;
    fn lit(&self) -> Lit;
    fn check(&self) {}
    /// ledger id, if the key carries one
    fn id(&self) -> Option<u32> {
        None
    }
}
macro_rules! intk {
    ($($t:ty, $v:ident);*) => {$(
        impl SimK for $t {
            const TY: KTy = KTy::$v;
            fn mk(l: &Lit) -> Self { match l { Lit::I(i) => *i as $t, Lit::S(_) => harness_error("string literal for an integer key") } }
            fn lit(&self) -> Lit { Lit::I(*self as i128) }
        }
    )*};
}
intk!(u8, U8; i8, I8; u16, U16; u32, U32; i64, I64; u64, U64; usize, Usize; i128, I128);
impl SimK for String {
    const TY: KTy = KTy::Str;
    fn mk(l: &Lit) -> Self {
        match l {
            Lit::S(s) => s.clone(),
            Lit::I(i) => i.to_string(),
        }
    }
    fn lit(&self) -> Lit {
        Lit::S(self.clone())
    }
}

const MAGIC: u64 = 0x5eed_f00d_cafe_1234;

pub struct SimKey {
    tok: u64,
    id: u32,
    heap: Box<u64>,
}
impl SimKey {
    fn chk(&self) {
        ledger().check(self.id, "key");
        if *self.heap != self.tok ^ MAGIC {
            violate(
                "memory/corrupt-key",
                format!("key {} has a corrupted body", self.tok),
            );
        }
    }
}
impl SimK for SimKey {
    const TY: KTy = KTy::Key;
    fn mk(l: &Lit) -> Self {
        let tok = match l {
            Lit::I(i) => *i as u64,
            Lit::S(_) => harness_error("string literal for SimKey"),
        };
        SimKey {
            tok,
            id: ledger().new_id(),
            heap: Box::new(tok ^ MAGIC),
        }
    }
    fn lit(&self) -> Lit {
        Lit::I(self.tok as i128)
    }
    fn check(&self) {
        self.chk()
    }
    fn id(&self) -> Option<u32> {
        Some(self.id)
    }
}
impl Hash for SimKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let g = cb(Cb::KeyHash);
        self.chk();
        if let Act::Lie(m) = g.act {
            h.write_u64(self.tok ^ m)
        } else {
            h.write_u64(self.tok)
        }
    }
}
impl PartialEq for SimKey {
    fn eq(&self, o: &Self) -> bool {
        let g = cb(Cb::KeyEq);
        self.chk();
        o.chk();
        let r = self.tok == o.tok;
        if let Act::Lie(_) = g.act {
            !r
        } else {
            r
        }
    }
}
impl Eq for SimKey {}
impl PartialOrd for SimKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SimKey {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        let _g = cb(Cb::KeyCmp);
        self.tok.cmp(&o.tok)
    }
}
impl Clone for SimKey {
    fn clone(&self) -> Self {
        let _g = cb(Cb::KeyClone);
        self.chk();
        SimKey {
            tok: self.tok,
            id: ledger().new_id(),
            heap: Box::new(*self.heap),
        }
    }
}
impl Debug for SimKey {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let g = cb(Cb::KeyFmt);
        self.chk();
        if g.act == Act::Err {
            return Err(fmt::Error);
        }
        write!(f, "K<{}>", self.tok)
    }
}
impl Drop for SimKey {
    fn drop(&mut self) {
        let g = cb(Cb::KeyDrop);
        ledger().dropped(self.id, "key");
        if g.act == Act::Panic {
            panic_any(SimPanic)
        }
    }
}

/// A string key with instrumented callbacks.
pub struct SimStr {
    s: String,
    id: u32,
}
impl SimStr {
    fn chk(&self) {
        ledger().check(self.id, "key");
    }
}
impl SimK for SimStr {
    const TY: KTy = KTy::SStr;
    fn mk(l: &Lit) -> Self {
        SimStr {
            s: String::mk(l),
            id: ledger().new_id(),
        }
    }
    fn lit(&self) -> Lit {
        Lit::S(self.s.clone())
    }
    fn check(&self) {
        self.chk()
    }
    fn id(&self) -> Option<u32> {
        Some(self.id)
    }
}
impl Hash for SimStr {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let g = cb(Cb::KeyHash);
        self.chk();
        h.write(self.s.as_bytes());
        if let Act::Lie(m) = g.act {
            h.write_u64(m)
        }
    }
}
impl PartialEq for SimStr {
    fn eq(&self, o: &Self) -> bool {
        let g = cb(Cb::KeyEq);
        self.chk();
        o.chk();
        let r = self.s == o.s;
        if let Act::Lie(_) = g.act {
            !r
        } else {
            r
        }
    }
}
impl Eq for SimStr {}
impl PartialOrd for SimStr {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SimStr {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        let _g = cb(Cb::KeyCmp);
        self.s.cmp(&o.s)
    }
}
impl Clone for SimStr {
    fn clone(&self) -> Self {
        let _g = cb(Cb::KeyClone);
        self.chk();
        SimStr {
            s: self.s.clone(),
            id: ledger().new_id(),
        }
    }
}
impl Debug for SimStr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let g = cb(Cb::KeyFmt);
        self.chk();
        if g.act == Act::Err {
            return Err(fmt::Error);
        }
        write!(f, "{:?}", self.s)
    }
}
impl Drop for SimStr {
    fn drop(&mut self) {
        let g = cb(Cb::KeyDrop);
        ledger().dropped(self.id, "key");
        if g.act == Act::Panic {
            panic_any(SimPanic)
        }
    }
}
impl Len for SimStr {
    fn len(&self) -> usize {
        let _g = cb(Cb::KeyLen);
        self.chk();
        self.s.len()
    }
}
impl SliceHash for SimStr {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: std::ops::Range<usize>) -> u64 {
        let g = cb(Cb::KeyHash);
        self.chk();
        let b = self.s.as_bytes();
        if range.start > range.end || range.end > b.len() {
            violate(
                "memory/slice-range",
                format!(
                    "the library asked a key of {} bytes to hash bytes {}..{}",
                    b.len(),
                    range.start,
                    range.end
                ),
            );
        }
        let mut h = {
            let _on = On::new(g.was_active());
            bh.build_hasher()
        };
        h.write(&b[range]);
        if let Act::Lie(m) = g.act {
            h.write_u64(m)
        }
        h.finish()
    }
}
impl CbGuard {
    fn was_active(&self) -> bool {
        self.was
    }
}
/// Switches fault and scheduling points back on inside a callback.
struct On(bool);
impl On {
    fn new(was: bool) -> On {
        On(set_active(was))
    }
}
impl Drop for On {
    fn drop(&mut self) {
        set_active(self.0);
    }
}

pub struct SimVal {
    tok: u64,
    id: u32,
    heap: Box<u64>,
}
impl SimVal {
    pub fn new(tok: u64) -> SimVal {
        SimVal {
            tok,
            id: ledger().new_id(),
            heap: Box::new(tok ^ MAGIC),
        }
    }
    pub fn get(&self) -> u64 {
        ledger().check(self.id, "value");
        if *self.heap != self.tok ^ MAGIC {
            violate(
                "memory/corrupt-value",
                format!("value {} has a corrupted body", self.tok),
            );
        }
        self.tok
    }
    pub fn set(&mut self, tok: u64) {
        self.get();
        self.tok = tok;
        *self.heap = tok ^ MAGIC;
    }
}
impl PartialEq for SimVal {
    fn eq(&self, o: &Self) -> bool {
        let g = cb(Cb::ValEq);
        let r = self.get() == o.get();
        if let Act::Lie(_) = g.act {
            !r
        } else {
            r
        }
    }
}
impl Eq for SimVal {}
impl Clone for SimVal {
    fn clone(&self) -> Self {
        let _g = cb(Cb::ValClone);
        let tok = self.get();
        SimVal {
            tok,
            id: ledger().new_id(),
            heap: Box::new(tok ^ MAGIC),
        }
    }
}
impl Debug for SimVal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let g = cb(Cb::ValFmt);
        let t = self.get();
        if g.act == Act::Err {
            return Err(fmt::Error);
        }
        write!(f, "V<{t}>")
    }
}
impl Drop for SimVal {
    fn drop(&mut self) {
        let g = cb(Cb::ValDrop);
        ledger().dropped(self.id, "value");
        if g.act == Act::Panic {
            panic_any(SimPanic)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// hash builder

pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

#[derive(Debug)]
pub struct SimBH {
    pub mode: u8,
    pub seed: u64,
}
pub const BH_MODES: u8 = 12;
static mut DEF_BH: (u8, u64) = (0, 0);
pub fn set_default_bh(mode: u8, seed: u64) {
    unsafe { DEF_BH = (mode, seed) }
}
impl Default for SimBH {
    fn default() -> Self {
        let (mode, seed) = unsafe { DEF_BH };
        SimBH { mode, seed }
    }
}
impl Clone for SimBH {
    fn clone(&self) -> Self {
        let _g = cb(Cb::BhClone);
        SimBH {
            mode: self.mode,
            seed: self.seed,
        }
    }
}
pub struct SimHasher {
    acc: u64,
    last: u64,
    mode: u8,
    seed: u64,
}
impl BuildHasher for SimBH {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        let g = cb(Cb::BhBuild);
        let mut seed = self.seed;
        let mut mode = self.mode;
        if let Act::Lie(m) = g.act {
            seed ^= m;
            mode = 0;
        }
        SimHasher {
            acc: mix(seed ^ 0x9e37_79b9_7f4a_7c15),
            last: 0,
            mode,
            seed,
        }
    }
}
impl Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) {
        let was = set_active(false);
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            let v = u64::from_le_bytes(x);
            self.acc = mix(self.acc.wrapping_add(v).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (c.len() as u64) << 56);
            self.last = self.last.rotate_left(8).wrapping_add(v);
        }
        set_active(was);
    }
    fn finish(&self) -> u64 {
        let g = cb(Cb::HashFinish);
        let m = mix(self.acc);
        let r = match self.mode {
            0 | 1 => m,
            2 => self.seed,                          // all keys collide
            3 => m & 7,                              // few low bits
            4 => m << 40,                            // only high bits
            5 => self.last,                          // nearly the identity
            6 => (m % 13).wrapping_mul(720_720 * 17), // multiples of many table sizes
            7 => u64::MAX - (m & 3),
            8 => m % 37,
            9 => self.last.wrapping_mul(64).wrapping_add(self.seed & 63),
            10 => m & 1,
            _ => (m % 300).wrapping_add(self.seed & 0xffff),
        };
        if let Act::Lie(l) = g.act {
            mix(r ^ l)
        } else {
            r
        }
    }
}

// ---------------------------------------------------------------------------------------------
// source iterator

/// The iterator a constructor consumes. It may misreport its size, end early and resume, panic or
/// stall, as the plan says.
pub struct Source<T> {
    items: std::vec::IntoIter<T>,
    hint: HintLie,
    end_at: Option<usize>,
    given: usize,
    polled_after_end: usize,
    ended: bool,
}
impl<T> Source<T> {
    pub fn new(items: Vec<T>, hint: HintLie, end_at: Option<usize>) -> Self {
        Source {
            items: items.into_iter(),
            hint,
            end_at,
            given: 0,
            polled_after_end: 0,
            ended: false,
        }
    }
}
impl<T> Iterator for Source<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let _g = cb(Cb::SrcNext);
        if !self.ended && self.end_at == Some(self.given) {
            self.ended = true;
            self.polled_after_end += 1;
            return None;
        }
        let r = self.items.next();
        if r.is_some() {
            self.given += 1
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let _g = cb(Cb::SrcHint);
        let n = self.items.len();
        match self.hint {
            HintLie::Exact => (n, Some(n)),
            HintLie::Zero => (0, Some(0)),
            HintLie::None => (0, None),
            HintLie::Low => (n / 2, Some(n / 2)),
            HintLie::High => (n + 37, Some(n + 37)),
            HintLie::Max => (n, Some(usize::MAX)),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// formatting sink

pub struct Sink {
    pub text: String,
    pub limit: Option<usize>,
    pub failed: bool,
    pub after_fail: usize,
}
impl Sink {
    pub fn new(limit: Option<usize>) -> Sink {
        Sink {
            text: String::new(),
            limit,
            failed: false,
            after_fail: 0,
        }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let g = cb(Cb::Sink);
        if self.failed {
            self.after_fail += 1;
            return Err(fmt::Error);
        }
        if g.act == Act::Err {
            self.failed = true;
            return Err(fmt::Error);
        }
        if let Some(l) = self.limit {
            if self.text.len() + s.len() > l {
                self.failed = true;
                if g.was_active() {
                    fired(Cb::Sink, &Act::Err);
                }
                return Err(fmt::Error);
            }
        }
        self.text.push_str(s);
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// allocator

pub struct SimAlloc;
const TBL: usize = 1 << 19;
static mut TRACK: bool = false;
static mut TAB: [usize; TBL] = [0; TBL];
static mut TAB_N: usize = 0;
static mut FORCE: bool = false;
/// While held, allocations count as the library's own although no library code runs.
pub struct Tracked;
impl Tracked {
    pub fn new() -> Tracked {
        unsafe { FORCE = true }
        Tracked
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        unsafe { FORCE = false }
    }
}
#[global_allocator]
static GA: SimAlloc = SimAlloc;

pub fn track_start() {
    unsafe { TRACK = true }
}
/// Allocations made inside library calls that are still there.
pub fn track_live() -> usize {
    unsafe { TAB_N }
}
pub fn track_forget() {
    unsafe {
        TRACK = false;
        let t = &mut *std::ptr::addr_of_mut!(TAB);
        if TAB_N > 0 {
            t.fill(0);
        }
        TAB_N = 0;
        TRACK = true;
    }
}
#[inline]
fn slot_of(p: usize) -> usize {
    (mix(p as u64) as usize) & (TBL - 1)
}
unsafe fn tab_add(p: usize) {
    let t = &mut *std::ptr::addr_of_mut!(TAB);
    if TAB_N > TBL / 2 {
        return;
    }
    let mut i = slot_of(p);
    while t[i] != 0 {
        i = (i + 1) & (TBL - 1);
    }
    t[i] = p;
    TAB_N += 1;
    if DBG {
        let was = set_active(false);
        let f = std::mem::replace(&mut FORCE, false);
        eprintln!("track {p:#x} {}", std::backtrace::Backtrace::force_capture());
        FORCE = f;
        set_active(was);
    }
}
pub static mut DBG: bool = false;
pub fn track_dump() -> String {
    unsafe {
        let t = &*std::ptr::addr_of!(TAB);
        t.iter().filter(|x| **x != 0).take(5).map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(" ")
    }
}
unsafe fn tab_del(p: usize) {
    let t = &mut *std::ptr::addr_of_mut!(TAB);
    let mut i = slot_of(p);
    loop {
        if t[i] == 0 {
            return;
        }
        if t[i] == p {
            break;
        }
        i = (i + 1) & (TBL - 1);
    }
    TAB_N -= 1;
    // backward-shift deletion
    let mut j = i;
    loop {
        j = (j + 1) & (TBL - 1);
        if t[j] == 0 {
            break;
        }
        let h = slot_of(t[j]);
        let dist_h = j.wrapping_sub(h) & (TBL - 1);
        let dist_i = j.wrapping_sub(i) & (TBL - 1);
        if dist_h >= dist_i {
            t[i] = t[j];
            i = j;
        }
    }
    t[i] = 0;
}
/// True when this allocation has to fail.
unsafe fn alloc_point() -> bool {
    let c = ctx();
    if c.nested || std::thread::panicking() {
        return false;
    }
    let n = c.counts[Cb::Alloc as usize];
    c.counts[Cb::Alloc as usize] += 1;
    if c.fired_oom {
        return false;
    }
    for f in &c.faults {
        if f.kind as u8 == Cb::Alloc as u8 && n == f.nth && f.act == Act::Oom {
            c.fired_oom = true;
            fired(Cb::Alloc, &Act::Oom);
            return true;
        }
    }
    false
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !is_active() {
            let p = System.alloc(l);
            if FORCE && TRACK && sched::on_baton() {
                tab_add(p as usize);
            }
            return p;
        }
        set_active(false);
        let r = if alloc_point() {
            std::ptr::null_mut()
        } else {
            let p = System.alloc(l);
            if TRACK {
                tab_add(p as usize);
            }
            p
        };
        set_active(true);
        r
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK && TAB_N > 0 {
            let was = set_active(false);
            if sched::on_baton() {
                tab_del(p as usize);
            }
            set_active(was);
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !is_active() {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let was = set_active(false);
        let fail = was && alloc_point();
        let r = if fail {
            std::ptr::null_mut()
        } else {
            let q = System.realloc(p, l, n);
            if TRACK && sched::on_baton() {
                if TAB_N > 0 {
                    tab_del(p as usize);
                }
                if was || FORCE {
                    tab_add(q as usize);
                }
            }
            q
        };
        set_active(was);
        r
    }
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let was = set_active(false);
        let p = info.payload();
        if !p.is::<SimPanic>() && !p.is::<SimOom>() && unsafe { !SHM.is_null() } {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let at = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            put(&mut shm().panic_msg, &format!("{m} at {at}"));
            if std::env::var_os("FSIM_VERBOSE").is_some() {
                eprintln!("panic: {m} at {at}");
            }
        }
        set_active(was);
    }));
    std::alloc::set_alloc_error_hook(|_| panic_any(SimOom));
}

// ---------------------------------------------------------------------------------------------
// operating-system randomness

static mut OS: (u8, u64, u64) = (0, 0, 0);
pub fn set_os_rand(mode: u8, seed: u64) {
    unsafe { OS = (mode, seed, 0) }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    let (mode, seed, k) = OS;
    OS.2 += 1;
    for i in 0..n {
        *p.add(i) = match mode {
            0 => mix(seed ^ mix(k << 32 | i as u64)) as u8,
            1 => 0,
            2 => 0xff,
            _ => seed as u8,
        };
    }
    n as isize
}
