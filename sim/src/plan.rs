//! The plan of one simulated run: collections, client programs, faults and schedule. A plan plus the
//! code under test determines the run completely; it is also the replay file.

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Lit {
    I(i128),
    S(String),
}

macro_rules! kinds {
    ($($k:ident),*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
        #[repr(u8)]
        pub enum Cb { $($k),* }
        pub const CB_ALL: &[Cb] = &[$(Cb::$k),*];
        pub const CB_NAMES: &[&str] = &[$(stringify!($k)),*];
    };
}
kinds!(
    KeyHash, KeyEq, KeyClone, KeyDrop, KeyFmt, KeyCmp, KeyLen, ValEq, ValClone, ValDrop, ValFmt, BhBuild,
    BhClone, HashFinish, SrcNext, SrcHint, Sink, Closure, SetIter, SetContains, SetLen, Alloc
);
pub const NK: usize = 22;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    None,
    Panic,
    Lie(u64),
    Stall,
    Reenter,
    Err,
    Oom,
}
pub const NACT: usize = 7;
pub const ACT_NAMES: [&str; NACT] = ["none", "panic", "lie", "stall", "reenter", "error", "out_of_memory"];
impl Act {
    pub fn idx(&self) -> usize {
        match self {
            Act::None => 0,
            Act::Panic => 1,
            Act::Lie(_) => 2,
            Act::Stall => 3,
            Act::Reenter => 4,
            Act::Err => 5,
            Act::Oom => 6,
        }
    }
}

/// In operation `op`, from the `nth` occurrence of callback `kind` on, `len` times: do `act`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub op: u32,
    pub kind: Cb,
    pub nth: u32,
    pub len: u32,
    pub act: Act,
}

/// When operation `op` has executed `step` of its own steps its thread hands over to client `to`;
/// with `freeze` it does not run again until every other client has finished.
/// step 0: before the operation starts; BLOCKED: while waiting for its turn; DONE: client finished.
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sw {
    pub op: u32,
    pub to: u8,
    pub freeze: bool,
    pub step: u64,
}
pub const BLOCKED: u64 = 1 << 60;
pub const STALLED: u64 = 1 << 61;
pub const DONE_OP: u32 = 0xffff_0000;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sched {
    /// clients run one after the other
    Seq,
    /// random switches: seed, mean number of steps between switches, permille of switching before an operation
    Rand(u64, u32, u32),
    /// exactly these switches
    Explicit(Vec<Sw>),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum HintLie {
    Exact,
    Zero,
    None,
    Low,
    High,
    Max,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ctor {
    Vec,
    Iter,
    Array,
    Default,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BuildSpec {
    pub kind: String,
    pub keys: Vec<Lit>,
    /// value token of keys[i]: vals[i], or v0 + i where vals is empty
    pub v0: u64,
    pub vals: Vec<u64>,
    pub ctor: Ctor,
    pub bh: (u8, u64),
    /// slice range for the slice collections
    pub range: (usize, usize),
    pub hint: HintLie,
    /// the source says it has ended after this many items (and would go on if asked again)
    pub end_at: Option<usize>,
    /// the constructor must refuse this payload (documented precondition)
    pub refuse: bool,
}

impl BuildSpec {
    pub fn val(&self, i: usize) -> u64 {
        self.vals.get(i).copied().unwrap_or(self.v0 + i as u64)
    }
    /// number of entries the source delivers
    pub fn delivered(&self) -> usize {
        if self.ctor == Ctor::Iter {
            self.end_at.unwrap_or(usize::MAX).min(self.keys.len())
        } else {
            self.keys.len()
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    Get,
    GetKv,
    GetMut,
    Contains,
    Index,
    IndexMut,
    Len,
    IsEmpty,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Drain {
    ForEach,
    Fold,
    Collect,
    Last,
    Count,
    Nth(usize),
    All(usize),
    StepBy(usize),
    Skip(usize),
    Drop,
}

/// Ways of moving an iterator on without giving it away.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Adv {
    Nth(usize),
    /// `all` with a closure that says no at this item; likewise the next three
    All(usize),
    Find(usize),
    Position(usize),
    TryFold(usize),
    /// by_ref().take(k)
    Take(usize),
    /// by_ref().skip(k).next()
    SkipOne(usize),
    /// by_ref().count() or last(): up to the end
    Count,
    Last,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum St {
    /// 0 iter, 1 keys, 2 values, 3 IntoIterator for &collection; for set algebra always the algebra iterator
    Open(u8),
    Next(u8),
    Adv(u8, Adv),
    Clone(u8),
    Hint(u8),
    Fin(u8, Drain),
    Dbg(u8, bool, Option<usize>),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Alg {
    Union,
    Inter,
    Diff,
    Sym,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rel {
    Subset,
    Superset,
    Disjoint,
    SetEq,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum OpK {
    Build { slot: u8, spec: BuildSpec },
    Drop { slot: u8 },
    CloneTo { slot: u8, to: u8 },
    Look { slot: u8, how: How, key: Lit, w: Option<u64> },
    Many { slot: u8, keys: Vec<Lit>, w: u64 },
    IterP { slot: u8, steps: Vec<St> },
    IntoIter { slot: u8, steps: Vec<St> },
    AlgP { a: u8, b: u8, alg: Alg, steps: Vec<St> },
    Oper { a: u8, b: u8, alg: Alg },
    Rel { a: u8, b: u8, rel: Rel },
    Eq { a: u8, b: u8 },
    Dbg { slot: u8, alt: bool, limit: Option<usize> },
    Audit { slot: u8, probes: Vec<Lit> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    pub id: u32,
    pub k: OpK,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub variant: u32,
    pub os: (u8, u64),
    pub def_bh: (u8, u64),
    pub setup: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    pub teardown: Vec<Op>,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    /// run with freed memory handed out again at once (no AddressSanitizer quarantine)
    #[serde(default)]
    pub reuse: bool,
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(crate::env::mix(s ^ 0x1234_5678_9abc_def1) | 1)
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        crate::env::mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, permille: u32) -> bool {
        self.below(1000) < permille as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// geometric gap with the given mean
    pub fn gap(&mut self, mean: u32) -> u64 {
        let u = ((self.u() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
        ((-u.ln()) * mean as f64) as u64 + 1
    }
}
