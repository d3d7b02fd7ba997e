//! Seeded generation of plans, and of fault and schedule variants of a plan.

use crate::coll::*;
use crate::env::*;
use crate::plan::*;
use std::collections::{BTreeMap, BTreeSet};

pub const PROPS: [&str; 12] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"];

// ---------------------------------------------------------------------------------------------
// keys

fn int_range(t: KTy) -> Option<(i128, i128)> {
    Some(match t {
        KTy::U8 => (0, u8::MAX as i128),
        KTy::I8 => (i8::MIN as i128, i8::MAX as i128),
        KTy::U16 => (0, u16::MAX as i128),
        KTy::U32 => (0, u32::MAX as i128),
        KTy::I64 => (i64::MIN as i128, i64::MAX as i128),
        KTy::U64 | KTy::Usize => (0, u64::MAX as i128),
        KTy::I128 => (i128::MIN, i128::MAX),
        KTy::Key => (0, (1 << 62) - 1),
        KTy::Str | KTy::SStr => return None,
    })
}
fn rand_in(r: &mut Rng, lo: i128, hi: i128) -> i128 {
    let span = hi.wrapping_sub(lo) as u128;
    let x = (r.u() as u128) << 64 | r.u() as u128;
    if span == u128::MAX {
        x as i128
    } else {
        lo.wrapping_add((x % (span + 1)) as i128)
    }
}
fn contiguous(r: &mut Rng, lo: i128, hi: i128, n: usize) -> Vec<i128> {
    let n = n as i128;
    if n == 0 {
        return vec![];
    }
    let last = hi - (n - 1); // largest start
    let start = match r.below(6) {
        0 => lo,
        1 => last,
        2 => (-(n / 2)).clamp(lo, last),
        3 => 0.clamp(lo, last),
        4 => rand_in(r, 0.clamp(lo, last), 1000.clamp(lo, last)),
        _ => rand_in(r, lo, last),
    };
    (0..n).map(|i| start + i).collect()
}
fn ints(r: &mut Rng, t: KTy, n: usize) -> Vec<Lit> {
    let (lo, hi) = int_range(t).unwrap();
    let span = (hi as u128).wrapping_sub(lo as u128).saturating_add(1);
    let n = n.min(span.min(1 << 20) as usize);
    let mut s: BTreeSet<i128> = BTreeSet::new();
    let mode = r.below(10);
    match mode {
        0 | 1 => s.extend(contiguous(r, lo, hi, n)),
        2 => {
            // a run with holes
            let c = contiguous(r, lo, hi, (n + 1 + n / 8).min(span.min(1 << 20) as usize));
            s.extend(c);
            while s.len() > n {
                let k = *s.iter().nth(r.below(s.len())).unwrap();
                s.remove(&k);
            }
        }
        3 => {
            let stride = *r.pick(&[2i128, 3, 4, 7, 8, 16, 64, 131, 256, 1000, 4096, 65536]);
            let base = rand_in(r, lo, hi);
            for i in 0..n as i128 {
                if let Some(x) = base.checked_add(i * stride) {
                    if x >= lo && x <= hi {
                        s.insert(x);
                    }
                }
            }
        }
        4 => {
            // both ends of the type
            for i in 0..(n as i128) {
                s.insert(if i % 2 == 0 { lo + i / 2 } else { hi - i / 2 });
            }
        }
        5 => {
            // powers of two and their neighbours
            for b in 0..120u32 {
                for d in [-1i128, 0, 1] {
                    let x = (1i128 << b) + d;
                    if x >= lo && x <= hi && s.len() < n {
                        s.insert(x);
                    }
                }
            }
        }
        6 => {
            let w = (n as i128 * 2).max(4);
            let base = 0.clamp(lo, hi);
            for _ in 0..4 * n {
                let x = rand_in(r, base.saturating_sub(w).max(lo), base.saturating_add(w).min(hi));
                if s.len() < n {
                    s.insert(x);
                }
            }
        }
        _ => {}
    }
    let mut tries = 0;
    while s.len() < n {
        tries += 1;
        let x = if tries > 20 * n { lo + (tries - 20 * n) as i128 } else { rand_in(r, lo, hi) };
        s.insert(x.clamp(lo, hi));
    }
    while s.len() > n {
        s.pop_last();
    }
    s.into_iter().map(Lit::I).collect()
}

fn word(r: &mut Rng, len: usize, alpha: &[char]) -> String {
    (0..len).map(|_| *r.pick(alpha)).collect()
}
fn strings(r: &mut Rng, n: usize) -> Vec<Lit> {
    const LOW: &[char] = &['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z'];
    const FEW: &[char] = &['a', 'b'];
    const UNI: &[char] = &['a', 'é', '中', 'ß', '0', '\u{1F600}', ' ', '"', '\\'];
    let alpha = *r.pick(&[LOW, LOW, LOW, FEW, UNI]);
    let mut s: BTreeSet<String> = BTreeSet::new();
    let mode = r.below(10);
    let pre = {
        let l = r.below(6);
        word(r, l, alpha)
    };
    let post = {
        let l = r.below(6);
        word(r, l, alpha)
    };
    let mut i = 0usize;
    let fixed_tail = r.below(12);
    let klen = match n {
        0..=20 => r.range(1, 3),
        21..=400 => r.range(2, 4),
        _ => r.range(3, 5),
    };
    while s.len() < n {
        i += 1;
        let stuck = i > 30 * n + 100;
        let num = |w: usize| format!("{i:0w$}");
        let tail_len = r.below(8);
        let k = if stuck {
            format!("{pre}#{i}{post}")
        } else {
            match mode {
                // unique piece on the left, tails of varying length
                0 | 1 => format!("{pre}{}{}", word(r, klen, LOW), word(r, tail_len, alpha)),
                // unique piece on the right, heads of varying length
                2 | 3 => format!("{}{}{post}", word(r, tail_len, FEW), word(r, klen, LOW)),
                // many lengths
                4 => word(r, i % (n + 3), alpha),
                // equal lengths
                5 => format!("{pre}{}{}", num(4), word(r, fixed_tail, FEW)),
                6 => num(0),
                // unique piece in the middle of long common ends
                7 => format!("{}{}{}", "x".repeat(tail_len), word(r, klen + 1, LOW), "y".repeat(r.below(5))),
                8 => {
                    let l = r.below(14);
                    word(r, l, alpha)
                }
                _ => {
                    let l = r.below(40);
                    word(r, l, LOW)
                }
            }
        };
        s.insert(k);
    }
    if n > 0 && r.chance(150) {
        // an extreme key: empty, or one byte, or long
        let k = match r.below(3) {
            0 => String::new(),
            1 => "q".into(),
            _ => "z".repeat(r.range(60, 300)),
        };
        if !s.contains(&k) {
            s.pop_last();
            s.insert(k);
        }
    }
    s.into_iter().map(Lit::S).collect()
}

/// `n` distinct keys fit for a collection type, in random arrival order.
pub fn keys(r: &mut Rng, k: &Kind, n: usize) -> Vec<Lit> {
    let mut v = match int_range(k.kty) {
        None => strings(r, n),
        Some((lo, hi)) => {
            if k.fam == Fam::Range {
                let n = n.min(((hi as u128).wrapping_sub(lo as u128).saturating_add(1)).min(1 << 20) as usize);
                contiguous(r, lo, hi, n).into_iter().map(Lit::I).collect()
            } else {
                ints(r, k.kty, n)
            }
        }
    };
    r.shuffle(&mut v);
    v
}

/// Keys that are absent but close to present ones.
pub fn probes(r: &mut Rng, k: &Kind, ks: &[Lit], n: usize) -> Vec<Lit> {
    let have: BTreeSet<&Lit> = ks.iter().collect();
    let mut out = BTreeSet::new();
    match int_range(k.kty) {
        Some((lo, hi)) => {
            let mut c = vec![lo, hi, lo + 1, hi - 1, 0.clamp(lo, hi)];
            let (mn, mx) = (ks.iter().min(), ks.iter().max());
            for e in [mn, mx].into_iter().flatten() {
                if let Lit::I(x) = e {
                    c.extend([x.saturating_sub(1), x.saturating_add(1)]);
                }
            }
            for _ in 0..2 * n {
                if !ks.is_empty() {
                    if let Lit::I(x) = r.pick(ks).clone() {
                        let d = *r.pick(&[1i128, -1, 2, -2, 8, 64, 255, 256, -256, 65536, 1 << 32, -(1 << 32), 1 << 64, ks.len() as i128]);
                        c.push(x.saturating_add(d));
                        c.push(x ^ (1i128 << r.below(64)));
                    }
                }
                c.push(rand_in(r, lo, hi));
            }
            for x in c {
                if x >= lo && x <= hi && !have.contains(&Lit::I(x)) {
                    out.insert(Lit::I(x));
                }
            }
        }
        None => {
            let mut c = vec![String::new(), "a".into(), "zzzz".into(), "x".repeat(70), "中".into()];
            for _ in 0..2 * n {
                if !ks.is_empty() {
                    if let Lit::S(s) = r.pick(ks).clone() {
                        let mut ch: Vec<char> = s.chars().collect();
                        c.push(format!("{s}a"));
                        c.push(format!("a{s}"));
                        if !ch.is_empty() {
                            let i = r.below(ch.len());
                            let old = ch[i];
                            ch[i] = 'q';
                            c.push(ch.iter().collect());
                            ch[i] = old;
                            c.push(ch[1..].iter().collect());
                            c.push(ch[..ch.len() - 1].iter().collect());
                            c.push(ch.iter().rev().collect());
                            let i = r.below(ch.len());
                            ch.remove(i);
                            c.push(ch.iter().collect());
                        }
                        if let Lit::S(t) = r.pick(ks).clone() {
                            c.push(format!("{s}{t}"));
                            let h: String = s.chars().take(s.chars().count() / 2).collect();
                            let g: String = t.chars().skip(t.chars().count() / 2).collect();
                            c.push(h + &g);
                        }
                    }
                }
                let l = r.below(12);
                c.push(word(r, l, &['a', 'b', 'c', 'x']));
            }
            for x in c {
                if !have.contains(&Lit::S(x.clone())) {
                    out.insert(Lit::S(x));
                }
            }
        }
    }
    let mut v: Vec<Lit> = out.into_iter().collect();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}

// ---------------------------------------------------------------------------------------------
// plans

pub struct G {
    pub r: Rng,
    id: u32,
    tok: u64,
    thorough: bool,
    built: BTreeMap<u8, BuildSpec>,
    p: Plan,
}

const SMALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 31];
const EDGE: &[usize] = &[0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 12, 16, 20, 33, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 260, 300];
const BIG: &[usize] = &[500, 999, 1000, 1001, 1500, 3000, 6000];

fn pick_kind(r: &mut Rng, f: impl Fn(&Kind) -> bool) -> &'static Kind {
    let v: Vec<&'static Kind> = kinds().filter(|k| f(k)).collect();
    // all families alike, so that the facades are not drowned by the specialised types
    let fams: Vec<Fam> = {
        let mut x: Vec<Fam> = Vec::new();
        for k in &v {
            if !x.contains(&k.fam) {
                x.push(k.fam)
            }
        }
        x
    };
    let mut fam = *r.pick(&fams);
    if fams.contains(&Fam::Frozen) && r.chance(330) {
        fam = Fam::Frozen;
    }
    let w: Vec<&'static Kind> = v.into_iter().filter(|k| k.fam == fam).collect();
    w[r.below(w.len())]
}

fn bh(r: &mut Rng) -> (u8, u64) {
    let m = r.below(BH_MODES as usize + 6) as u8;
    let m = if m >= BH_MODES { 0 } else { m };
    let seed = match r.below(4) {
        0 => r.below(300) as u64,
        1 => u64::MAX - r.below(300) as u64,
        _ => r.u(),
    };
    (m, seed)
}

impl G {
    fn new(prop: &str, seed: u64, thorough: bool) -> G {
        let mut h = seed;
        for b in prop.bytes() {
            h = mix(h ^ b as u64)
        }
        let mut r = Rng::new(h);
        let os = (*r.pick(&[0u8, 0, 0, 1, 2, 3]), r.u());
        let def_bh = bh(&mut r);
        G {
            r,
            id: 0,
            tok: 1000,
            thorough,
            built: BTreeMap::new(),
            p: Plan {
                prop: prop.into(),
                seed,
                variant: 0,
                os,
                def_bh,
                setup: vec![],
                clients: vec![],
                teardown: vec![],
                faults: vec![],
                sched: Sched::Seq,
                reuse: false,
            },
        }
    }
    fn op(&mut self, k: OpK) -> Op {
        self.id += 1;
        Op { id: self.id - 1, k }
    }
    fn toks(&mut self, n: usize) -> u64 {
        let t = self.tok;
        self.tok += n as u64 + 1;
        t
    }
    fn size(&mut self, cap: usize) -> usize {
        let l = match self.r.below(20) {
            0..=8 => SMALL,
            9..=18 => EDGE,
            _ => {
                if self.thorough || self.r.chance(400) {
                    BIG
                } else {
                    EDGE
                }
            }
        };
        (*self.r.pick(l)).min(cap)
    }
    fn range(&mut self, ks: &[Lit]) -> (usize, usize) {
        let max = ks
            .iter()
            .map(|k| if let Lit::S(s) = k { s.len() } else { 0 })
            .max()
            .unwrap_or(0);
        let a = self.r.below(4);
        let b = a + self.r.below(5);
        if self.r.chance(100) {
            (0, max + 1)
        } else {
            (a, b)
        }
    }
    fn spec_keys(&mut self, k: &Kind, ks: Vec<Lit>) -> BuildSpec {
        let range = self.range(&ks);
        let r = &mut self.r;
        let mut ctor = *r.pick(&[Ctor::Vec, Ctor::Vec, Ctor::Iter, Ctor::Array]);
        if ks.is_empty() && r.chance(300) {
            ctor = Ctor::Default;
        }
        let b = bh(r);
        let v0 = self.toks(ks.len());
        BuildSpec {
            kind: k.name.into(),
            keys: ks,
            v0,
            vals: vec![],
            ctor,
            bh: b,
            range,
            hint: HintLie::Exact,
            end_at: None,
            refuse: false,
        }
    }
    fn spec(&mut self, k: &Kind, n: usize) -> BuildSpec {
        let ks = keys(&mut self.r, k, n.min(k.cap));
        self.spec_keys(k, ks)
    }
    fn build(&mut self, slot: u8, spec: BuildSpec) -> Op {
        self.built.insert(slot, spec.clone());
        self.op(OpK::Build { slot, spec })
    }
    fn keys_of(&self, slot: u8) -> Vec<Lit> {
        self.built
            .get(&slot)
            .map(|s| s.keys[..s.delivered()].to_vec())
            .unwrap_or_default()
    }
    /// a key of the slot, or an absent one
    fn some_key(&mut self, slot: u8, hit: u32) -> Lit {
        let ks = self.keys_of(slot);
        if !ks.is_empty() && self.r.chance(hit) {
            return self.r.pick(&ks).clone();
        }
        let k = kind(&self.built[&slot].kind);
        let p = probes(&mut self.r, k, &ks, 3);
        if let Some(x) = p.first() {
            return x.clone();
        }
        if ks.is_empty() {
            match int_range(k.kty) {
                Some(_) => Lit::I(5),
                None => Lit::S("five".into()),
            }
        } else {
            self.r.pick(&ks).clone()
        }
    }
    fn audit(&mut self, slot: u8, np: usize) -> Op {
        let ks = self.keys_of(slot);
        let k = kind(&self.built[&slot].kind);
        let probes = probes(&mut self.r, k, &ks, np);
        self.op(OpK::Audit { slot, probes })
    }
    fn teardown(&mut self, np: usize) {
        let slots: Vec<u8> = self.built.keys().cloned().collect();
        for s in &slots {
            let o = self.audit(*s, np);
            self.p.teardown.push(o);
        }
        for s in slots {
            if self.r.chance(800) {
                let o = self.op(OpK::Drop { slot: s });
                self.p.teardown.push(o);
            }
        }
    }
    fn drain(&mut self, n: usize) -> Drain {
        let m = n + 3;
        match self.r.below(12) {
            0 | 1 => Drain::ForEach,
            2 => Drain::Fold,
            3 => Drain::Collect,
            4 => Drain::Last,
            5 | 6 => Drain::Count,
            7 => Drain::Nth(self.r.below(m)),
            8 => Drain::All(self.r.below(m)),
            9 => Drain::StepBy(self.r.below(4)),
            10 => Drain::Skip(self.r.below(m)),
            _ => Drain::Drop,
        }
    }
    fn adv(&mut self, n: usize) -> Adv {
        // often a little, sometimes exactly to the end, or past it
        let k = match self.r.below(6) {
            0 | 1 => self.r.below(4),
            2 => n,
            3 => n.saturating_sub(1),
            _ => self.r.below(n + 3),
        };
        match self.r.below(12) {
            0..=2 => Adv::Nth(k),
            3 => Adv::All(k),
            4 => Adv::Find(k),
            5 => Adv::Position(k),
            6 => Adv::TryFold(k),
            7 | 8 => Adv::Take(k),
            9 => Adv::SkipOne(k),
            10 => Adv::Count,
            _ => Adv::Last,
        }
    }
    /// A program over several iterators: advanced in turn, cloned, abandoned, consumed.
    fn steps(&mut self, n: usize, which: &[u8], len: usize, dbg: u32) -> Vec<St> {
        let mut v = vec![St::Open(*self.r.pick(which)), St::Hint(0)];
        let mut regs = 1u8;
        for _ in 0..len {
            let reg = self.r.below(regs.min(8) as usize) as u8;
            match self.r.below(20) {
                0 | 1 => {
                    let w = *self.r.pick(which);
                    v.push(St::Open(w));
                    regs += 1;
                }
                2 | 3 => {
                    v.push(St::Clone(reg));
                    regs += 1;
                }
                4..=6 => v.push(St::Hint(reg)),
                7 => {
                    let d = self.drain(n);
                    v.push(St::Fin(reg, d));
                }
                8 => {
                    // up to the end and past it
                    let k = if n < 40 && self.r.chance(500) { n + 2 } else { self.r.below(n.min(60) + 1) };
                    for i in 0..k {
                        v.push(St::Next(reg));
                        if i % 3 == 0 {
                            v.push(St::Hint(reg));
                        }
                    }
                    v.push(St::Hint(reg));
                }
                10..=12 if self.r.chance(600) => {
                    let a = self.adv(n);
                    v.push(St::Adv(reg, a));
                    if self.r.chance(700) {
                        v.push(St::Hint(reg));
                    }
                    if self.r.chance(300) {
                        v.push(St::Next(reg));
                        v.push(St::Hint(reg));
                    }
                }
                9 if self.r.chance(dbg) => {
                    let alt = self.r.chance(300);
                    v.push(St::Dbg(reg, alt, None));
                }
                _ => v.push(St::Next(reg)),
            }
        }
        for reg in 0..regs.min(8) {
            if self.r.chance(600) {
                v.push(St::Hint(reg));
                let d = self.drain(n);
                v.push(St::Fin(reg, d));
            }
        }
        v
    }
    fn which(&self, slot: u8) -> &'static [u8] {
        if kind(&self.built[&slot].kind).set {
            &[0, 3]
        } else {
            &[0, 1, 2, 3]
        }
    }
    fn rel(&mut self) -> Rel {
        *self.r.pick(&[Rel::Subset, Rel::Superset, Rel::Disjoint, Rel::SetEq])
    }
    fn alg(&mut self) -> Alg {
        *self.r.pick(&[Alg::Union, Alg::Inter, Alg::Diff, Alg::Sym])
    }
    fn how(&mut self, write: bool) -> How {
        if write {
            *self.r.pick(&[How::GetMut, How::GetMut, How::IndexMut])
        } else {
            *self.r.pick(&[How::Get, How::Get, How::GetKv, How::Contains, How::Index, How::Len, How::IsEmpty])
        }
    }
    fn many_op(&mut self, slot: u8) -> Op {
        let n = *self.r.pick(&[0usize, 1, 2, 2, 2, 3, 3, 5]);
        let mut ks: Vec<Lit> = (0..n).map(|_| self.some_key(slot, 920)).collect();
        if n >= 2 && self.r.chance(120) {
            let (i, j) = (self.r.below(n), self.r.below(n));
            ks[i] = ks[j].clone();
        }
        let w = if self.r.chance(850) { self.toks(8) } else { 0 };
        self.op(OpK::Many { slot, keys: ks, w })
    }
    /// One read-only operation on some of the slots; clones go to `tmp`.
    fn read_op(&mut self, slots: &[u8], tmp: u8) -> Vec<Op> {
        let s = *self.r.pick(slots);
        let n = self.keys_of(s).len();
        let set = kind(&self.built[&s].kind).set;
        match self.r.below(20) {
            0..=8 => {
                let how = self.how(false);
                let key = self.some_key(s, 650);
                vec![self.op(OpK::Look { slot: s, how, key, w: None })]
            }
            9..=11 => {
                let w = self.which(s);
                let l = self.r.range(2, 12);
                let steps = self.steps(n, w, l, 300);
                vec![self.op(OpK::IterP { slot: s, steps })]
            }
            12 => {
                let alt = self.r.chance(300);
                vec![self.op(OpK::Dbg { slot: s, alt, limit: None })]
            }
            13 | 14 => {
                let same: Vec<u8> = slots.iter().cloned().filter(|t| self.built[t].kind == self.built[&s].kind).collect();
                let b = *self.r.pick(&same);
                vec![self.op(OpK::Eq { a: s, b })]
            }
            15 => {
                let a = self.op(OpK::CloneTo { slot: s, to: tmp });
                self.built.insert(tmp, self.built[&s].clone());
                let mut v = vec![a];
                if self.r.chance(500) {
                    v.push(self.audit(tmp, 1));
                } else {
                    let how = self.how(false);
                    let key = self.some_key(tmp, 700);
                    v.push(self.op(OpK::Look { slot: tmp, how, key, w: None }));
                    v.push(self.op(OpK::Eq { a: tmp, b: s }));
                }
                v.push(self.op(OpK::Drop { slot: tmp }));
                self.built.remove(&tmp);
                v
            }
            16..=18 if set => {
                let kt = kind(&self.built[&s].kind).kty;
                let same: Vec<u8> = slots.iter().cloned().filter(|t| kind(&self.built[t].kind).set && kind(&self.built[t].kind).kty == kt).collect();
                let b = *self.r.pick(&same);
                match self.r.below(3) {
                    0 => {
                        let rel = self.rel();
                        vec![self.op(OpK::Rel { a: s, b, rel })]
                    }
                    1 => {
                        let alg = self.alg();
                        vec![self.op(OpK::Oper { a: s, b, alg })]
                    }
                    _ => {
                        let alg = self.alg();
                        let l = self.r.range(2, 10);
                        let steps = self.steps(n, &[0], l, 150);
                        vec![self.op(OpK::AlgP { a: s, b, alg, steps })]
                    }
                }
            }
            _ => vec![self.audit(s, 2)],
        }
    }
    /// operations of one kind only
    fn theme_op(&mut self, theme: usize, slots: &[u8], tmp: u8) -> Vec<Op> {
        let s = *self.r.pick(slots);
        let n = self.keys_of(s).len();
        let sets: Vec<u8> = slots.iter().cloned().filter(|t| kind(&self.built[t].kind).set).collect();
        match theme {
            0 | 1 => {
                let same: Vec<u8> = slots.iter().cloned().filter(|t| self.built[t].kind == self.built[&s].kind).collect();
                let b = *self.r.pick(&same);
                vec![self.op(OpK::Eq { a: s, b })]
            }
            2 => {
                let alt = self.r.chance(300);
                vec![self.op(OpK::Dbg { slot: s, alt, limit: None })]
            }
            3 => {
                let w = self.which(s);
                let l = self.r.range(2, 12);
                let steps = self.steps(n, w, l, 300);
                vec![self.op(OpK::IterP { slot: s, steps })]
            }
            4 => {
                let a = self.op(OpK::CloneTo { slot: s, to: tmp });
                self.built.insert(tmp, self.built[&s].clone());
                let v = vec![a, self.audit(tmp, 1), self.op(OpK::Drop { slot: tmp })];
                self.built.remove(&tmp);
                v
            }
            5 if !sets.is_empty() => {
                let a = *self.r.pick(&sets);
                let kt = kind(&self.built[&a].kind).kty;
                let same: Vec<u8> = sets.iter().cloned().filter(|t| kind(&self.built[t].kind).kty == kt).collect();
                let b = *self.r.pick(&same);
                if self.r.chance(500) {
                    let rel = self.rel();
                    vec![self.op(OpK::Rel { a, b, rel })]
                } else {
                    let alg = self.alg();
                    let l = self.r.range(2, 10);
                    let steps = self.steps(n, &[0], l, 150);
                    vec![self.op(OpK::AlgP { a, b, alg, steps })]
                }
            }
            _ => {
                let how = self.how(false);
                let key = self.some_key(s, 650);
                vec![self.op(OpK::Look { slot: s, how, key, w: None })]
            }
        }
    }
    /// A collection comes, is asked, goes, and another one takes its place, possibly in the same memory.
    fn churn(&mut self, slot: u8, list: &mut Vec<Op>) {
        let k = pick_kind(&mut self.r, |k| k.fam != Fam::Std);
        let n = *self.r.pick(&[1usize, 2, 3, 4, 5, 8, 20]);
        let both = keys(&mut self.r, k, (2 * n).min(k.cap));
        let mut all = both.clone();
        let rounds = self.r.range(2, 4);
        for i in 0..rounds {
            let mut ks = both.clone();
            if k.fam != Fam::Range {
                self.r.shuffle(&mut ks);
                ks.truncate(n);
            }
            let sp = self.spec_keys(k, ks);
            let o = self.build(slot, sp);
            list.push(o);
            self.r.shuffle(&mut all);
            let keys: Vec<Lit> = all.iter().take(6).cloned().collect();
            for key in keys.into_iter().chain(all.first().cloned()) {
                let how = if self.r.chance(700) { How::Get } else { self.how(false) };
                list.push(self.op(OpK::Look { slot, how, key, w: None }));
            }
            if self.r.chance(400) {
                let w = self.which(slot);
                let l = self.r.range(1, 6);
                let steps = self.steps(n, w, l, 300);
                list.push(self.op(OpK::IterP { slot, steps }));
            }
            if self.r.chance(300) {
                list.push(self.op(OpK::Eq { a: slot, b: slot }));
            }
            if i + 1 < rounds || self.r.chance(800) {
                list.push(self.op(OpK::Drop { slot }));
                self.built.remove(&slot);
            }
        }
    }
    fn rand_sched(&mut self) -> Sched {
        let mean = *self.r.pick(&[2u32, 4, 10, 25, 60, 200, 1000, 5000]);
        let p = *self.r.pick(&[0u32, 100, 500]);
        Sched::Rand(self.r.u(), mean, p)
    }
}

pub fn is_cb(k: &Kind) -> bool {
    matches!(k.kty, KTy::Key | KTy::SStr) || k.sim_bh
}

pub fn plan(prop: &str, seed: u64, thorough: bool) -> Plan {
    let mut g = G::new(prop, seed, thorough);
    match prop {
        "C01" => c01(&mut g),
        "C02" => c02(&mut g),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g),
        "C08" => c08(&mut g),
        "C09" => c09(&mut g),
        "C10" => c10(&mut g),
        "C11" => c11(&mut g),
        "C12" => c12(&mut g),
        _ => harness_error("unknown property"),
    }
    if g.id as usize > MAXOPS {
        harness_error("plan too long");
    }
    g.p
}

/// the faults and schedules a property's plans are run with
pub fn variants(prop: &str) -> usize {
    match prop {
        "C01" => 1,
        "C02" => 10,
        "C03" => 8,
        "C04" => 8,
        "C05" => 8,
        "C06" => 4,
        "C07" => 4,
        "C08" => 4,
        "C09" => 4,
        "C10" => 6,
        "C11" => 8,
        "C12" => 4,
        _ => 1,
    }
}

/// Sizes around the edges of a 16-bit index.
const HUGE: &[usize] = &[65534, 65535, 65535, 65536, 65536, 65537, 66000, 70000, 131073];

/// Many keys for one collection; None for types whose layout makes that many keys quadratic or impossible.
fn huge_spec(g: &mut G, over: bool) -> Option<BuildSpec> {
    let k = pick_kind(&mut g.r, |k| !matches!(k.fam, Fam::Std | Fam::Length | Fam::Scan) && k.cap >= 65535 && !matches!(k.kty, KTy::U8 | KTy::I8));
    let mut n = *g.r.pick(HUGE);
    if !over {
        n = n.min(k.cap);
    } else if k.cap == 65535 && n > 70000 {
        n = 65536;
    }
    let mut ks: Vec<Lit> = match int_range(k.kty) {
        None => {
            let w = if matches!(k.fam, Fam::Left | Fam::Right) { 6 } else { g.r.range(1, 7) };
            let post = if g.r.chance(500) { "tail" } else { "" };
            (0..n).map(|i| Lit::S(format!("{i:0w$}{post}"))).collect()
        }
        Some((lo, hi)) => {
            if k.fam == Fam::Range || g.r.chance(300) {
                contiguous(&mut g.r, lo, hi, n).into_iter().map(Lit::I).collect()
            } else {
                let stride = *g.r.pick(&[1i128, 2, 3, 7, 1000]);
                let top = hi - stride * (n as i128 + 4);
                let base = rand_in(&mut g.r, lo, top.min(lo.saturating_add(1 << 40)));
                // a hole keeps it from being one range
                (0..n as i128).map(|i| Lit::I(base + (i + if i > n as i128 / 2 { 2 } else { 0 }) * stride)).collect()
            }
        }
    };
    g.r.shuffle(&mut ks);
    let mut sp = g.spec_keys(k, ks);
    // a hash that keeps this many keys apart
    sp.bh.0 = 0;
    let len = sp.keys.iter().map(|k| if let Lit::S(s) = k { s.len() } else { 0 }).min().unwrap_or(0);
    sp.range = (0, len);
    Some(sp)
}

fn c01_huge(g: &mut G) {
    let Some(sp) = huge_spec(g, false) else { return };
    let o = g.build(0, sp);
    g.p.setup.push(o);
    let o = g.audit(0, 24);
    g.p.setup.push(o);
    for _ in 0..40 {
        let w = g.r.chance(150);
        let how = g.how(w);
        let key = g.some_key(0, 700);
        let o = g.op(OpK::Look { slot: 0, how, key, w: None });
        g.p.setup.push(o);
    }
    if g.r.chance(300) {
        let o = g.op(OpK::CloneTo { slot: 0, to: 40 });
        g.p.setup.push(o);
        let b = g.built[&0].clone();
        g.built.insert(40, b);
    }
    g.teardown(4);
}

fn c01(g: &mut G) {
    if g.r.below(1000) < 3 || std::env::var_os("FSIM_HUGE").is_some() {
        return c01_huge(g);
    }
    let nb = g.r.range(1, 4);
    let mut first: Option<(&'static Kind, Vec<Lit>)> = None;
    for s in 0..nb as u8 {
        // often the same keys again under another seed or constructor
        let (k, ks) = match &first {
            Some((k, ks)) if g.r.chance(500) => {
                let mut ks = ks.clone();
                // or as many others, some of them the same
                if k.fam != Fam::Range && g.r.chance(500) {
                    let fresh = if g.r.chance(500) { probes(&mut g.r, k, &ks, ks.len()) } else { keys(&mut g.r, k, ks.len()) };
                    let mut have: BTreeSet<Lit> = ks.iter().cloned().collect();
                    for x in fresh {
                        if g.r.chance(500) && !have.contains(&x) {
                            let i = g.r.below(ks.len());
                            have.remove(&ks[i]);
                            have.insert(x.clone());
                            ks[i] = x;
                        }
                    }
                }
                g.r.shuffle(&mut ks);
                (*k, ks)
            }
            _ => {
                let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
                let n = g.size(k.cap);
                let ks = keys(&mut g.r, k, n);
                (k, ks)
            }
        };
        first = Some((k, ks.clone()));
        let sp = g.spec_keys(k, ks);
        let o = g.build(s, sp);
        g.p.setup.push(o);
        let o = g.audit(s, 24);
        g.p.setup.push(o);
    }
    // interleaved questions to all of them
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    let n = g.r.range(10, 60);
    for _ in 0..n {
        let s = *g.r.pick(&slots);
        let w = g.r.chance(150);
        let how = g.how(w);
        let key = g.some_key(s, 600);
        let o = g.op(OpK::Look { slot: s, how, key: key.clone(), w: None });
        g.p.setup.push(o);
        if g.r.chance(300) {
            // the same question to its siblings
            for t in &slots {
                if *t != s && kind(&g.built[t].kind).kty == kind(&g.built[&s].kind).kty && g.p.setup.len() < 300 {
                    let o = g.op(OpK::Look { slot: *t, how, key: key.clone(), w: None });
                    g.p.setup.push(o);
                }
            }
        }
    }
    if g.r.chance(250) {
        let mut l = Vec::new();
        g.churn(45, &mut l);
        g.p.setup.append(&mut l);
    }
    if g.r.chance(200) {
        let s = *g.r.pick(&slots);
        let t = 40;
        let o = g.op(OpK::CloneTo { slot: s, to: t });
        g.p.setup.push(o);
        g.built.insert(t, g.built[&s].clone());
        if g.r.chance(500) {
            let o = g.op(OpK::Drop { slot: s });
            g.p.setup.push(o);
            g.built.remove(&s);
        }
    }
    g.teardown(12);
}

fn set_group(g: &mut G, slots: std::ops::Range<u8>, std_ok: bool) {
    // sets over one key type with overlapping contents
    let k0 = pick_kind(&mut g.r, |k| k.set && k.fam != Fam::Std);
    let kty = k0.kty;
    let m = g.size(260).max(1);
    let uni_n = m + m / 2 + 2;
    let base: Vec<Lit> = match int_range(kty) {
        Some((lo, hi)) => {
            let n = uni_n.min(((hi - lo) as u128).min(1 << 20) as usize + 1);
            if g.r.chance(500) {
                contiguous(&mut g.r, lo, hi, n).into_iter().map(Lit::I).collect()
            } else {
                ints(&mut g.r, kty, n)
            }
        }
        None => strings(&mut g.r, uni_n),
    };
    let mut prev: Vec<Lit> = vec![];
    for s in slots {
        let k = if s == 0 {
            k0
        } else {
            pick_kind(&mut g.r, |k| k.set && k.kty == kty && (std_ok || k.fam != Fam::Std))
        };
        let mut ks: Vec<Lit> = if k.fam == Fam::Range {
            // a contiguous piece around the base
            let (lo, hi) = int_range(kty).unwrap();
            let start = match &base[g.r.below(base.len())] {
                Lit::I(x) => *x,
                _ => 0,
            };
            let len = g.r.range(0, m.min(250)) as i128;
            (0..len).map(|i| start + i).filter(|x| *x >= lo && *x <= hi).map(Lit::I).collect()
        } else {
            match g.r.below(8) {
                0 => prev.clone(),
                1 => prev.iter().filter(|_| g.r.chance(700)).cloned().collect(),
                2 => {
                    let mut v = prev.clone();
                    for x in base.iter() {
                        if g.r.chance(200) && !v.contains(x) {
                            v.push(x.clone())
                        }
                    }
                    v
                }
                3 => base.iter().filter(|x| !prev.contains(x)).cloned().collect(),
                4 => vec![],
                _ => {
                    let p = *g.r.pick(&[100u32, 300, 500, 700, 950]);
                    base.iter().filter(|_| g.r.chance(p)).cloned().collect()
                }
            }
        };
        ks.truncate(k.cap);
        g.r.shuffle(&mut ks);
        prev = ks.clone();
        let sp = g.spec_keys(k, ks);
        let o = g.build(s, sp);
        g.p.setup.push(o);
    }
}

fn c02(g: &mut G) {
    // shared collections
    let shape = g.r.below(4);
    if shape == 0 {
        set_group(g, 0..3, false);
    } else {
        let nb = g.r.range(1, 3) as u8;
        for s in 0..nb {
            let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
            let n = g.size(k.cap.min(300));
            let sp = g.spec(k, n);
            let o = g.build(s, sp.clone());
            g.p.setup.push(o);
            if g.r.chance(300) {
                // a second collection with the same contents, to compare with
                let mut t = sp;
                t.bh = bh(&mut g.r);
                if !t.keys.is_empty() && g.r.chance(400) {
                    t.v0 += 1; // same keys, other values
                }
                let o = g.build(s + 10, t);
                g.p.setup.push(o);
            }
        }
    }
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    let nc = *g.r.pick(&[2usize, 2, 2, 3, 4]);
    // sometimes everybody hammers the same few keys: where caches and counters would collide
    let hot: Option<(u8, Vec<Lit>)> = if g.r.chance(400) {
        let s = *g.r.pick(&slots);
        let ks: Vec<Lit> = (0..3).map(|_| g.some_key(s, 800)).collect();
        Some((s, ks))
    } else {
        None
    };
    // and sometimes everybody does the same kind of thing
    let theme = if hot.is_none() && g.r.chance(450) { Some(g.r.below(7)) } else { None };
    let nc = if theme.is_some() && g.r.chance(500) { g.r.range(3, 6) } else { nc };
    for c in 0..nc {
        let mut v = Vec::new();
        let n = g.r.range(3, 10);
        for _ in 0..n {
            match &hot {
                _ if theme.is_some() && g.r.chance(900) => {
                    let mut o = g.theme_op(theme.unwrap(), &slots, 48 + c as u8);
                    v.append(&mut o);
                }
                Some((s, ks)) if g.r.chance(800) => {
                    let how = g.how(false);
                    let key = g.r.pick(ks).clone();
                    let o = g.op(OpK::Look { slot: *s, how, key, w: None });
                    v.push(o);
                }
                _ => {
                    let mut o = g.read_op(&slots, 48 + c as u8);
                    v.append(&mut o);
                }
            }
        }
        // operations on a collection of its own, which must not disturb the readers
        if g.r.chance(120) {
            let own = 56 + c as u8;
            g.churn(own, &mut v);
            if g.built.remove(&own).is_some() {
                let o = g.op(OpK::Drop { slot: own });
                v.push(o);
            }
        } else if g.r.chance(250) {
            let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
            let sz = g.r.range(0, 12);
            let own = 56 + c as u8;
            let sp = g.spec(k, sz);
            let o = g.build(own, sp);
            let at = g.r.below(v.len() + 1);
            v.insert(at, o);
            let o = g.audit(own, 2);
            v.push(o);
            let o = g.op(OpK::Drop { slot: own });
            v.push(o);
            g.built.remove(&own);
        }
        g.p.clients.push(v);
    }
    g.teardown(3);
}

/// collections whose keys, values or hashers call back into the simulator
fn cb_slots(g: &mut G, nb: u8, cap: usize, all: bool) {
    if g.r.chance(250) {
        let before = g.p.setup.len();
        set_group(g, 0..2, false);
        let _ = before;
        return;
    }
    for s in 0..nb {
        let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std && (all || !k.set || is_cb(k)));
        let n = g.size(k.cap.min(cap));
        let sp = g.spec(k, n);
        let o = g.build(s, sp.clone());
        g.p.setup.push(o);
        if g.r.chance(400) {
            let mut t = sp;
            t.bh = bh(&mut g.r);
            if !t.keys.is_empty() && g.r.chance(500) {
                t.v0 += 1; // same keys, other values
            }
            let o = g.build(s + 10, t);
            g.p.setup.push(o);
        }
    }
}

fn c03(g: &mut G) {
    cb_slots(g, 2, 300, false);
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    let n = g.r.range(4, 12);
    let mut body = Vec::new();
    for _ in 0..n {
        let s = *g.r.pick(&slots);
        let map = !kind(&g.built[&s].kind).set;
        let mut v = match g.r.below(10) {
            0..=2 if map => {
                let key = g.some_key(s, 800);
                let how = g.how(true);
                let w = Some(g.toks(1));
                vec![g.op(OpK::Look { slot: s, how, key, w })]
            }
            3 if map => vec![g.many_op(s)],
            _ => g.read_op(&slots, 40),
        };
        body.append(&mut v);
        if g.r.chance(500) {
            // ask again soon after: state left half-done shows here
            let how = g.how(false);
            let key = g.some_key(s, 850);
            let o = g.op(OpK::Look { slot: s, how, key, w: None });
            body.push(o);
        }
    }
    let a = body.len() / 2;
    let second: Vec<Op> = body.split_off(a);
    g.p.setup.append(&mut body);
    for s in &slots {
        let o = g.audit(*s, 3);
        g.p.setup.push(o);
    }
    g.p.setup.extend(second);
    if g.r.chance(250) {
        let mut l = Vec::new();
        g.churn(45, &mut l);
        g.p.setup.append(&mut l);
    }
    g.teardown(4);
}

fn c04(g: &mut G) {
    let nb = g.r.range(1, 3) as u8;
    for s in 0..nb {
        let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
        let n = g.size(k.cap.min(300));
        let mut sp = g.spec(k, n);
        if sp.ctor == Ctor::Vec && g.r.chance(200) {
            sp.ctor = Ctor::Iter;
        }
        let o = g.build(s, sp);
        g.p.setup.push(o);
        let m = g.r.below(5);
        for j in 0..m {
            let t = 10 + s * 5 + j as u8;
            match g.r.below(6) {
                0 | 1 => {
                    let o = g.op(OpK::CloneTo { slot: s, to: t });
                    g.p.setup.push(o);
                    g.built.insert(t, g.built[&s].clone());
                }
                2 => {
                    if let Some(t) = g.built.keys().cloned().find(|x| *x != s) {
                        let o = g.op(OpK::Eq { a: s, b: t });
                        g.p.setup.push(o);
                    }
                }
                3 => {
                    let o = g.many_op(s);
                    g.p.setup.push(o);
                }
                4 => {
                    let key = g.some_key(s, 700);
                    let how = if g.r.chance(500) { How::Index } else { How::Get };
                    let o = g.op(OpK::Look { slot: s, how, key, w: None });
                    g.p.setup.push(o);
                }
                _ => {
                    let w = g.which(s);
                    let steps = g.steps(n, w, 5, 300);
                    let o = g.op(OpK::IterP { slot: s, steps });
                    g.p.setup.push(o);
                }
            }
        }
    }
    // constructions that are refused must give everything back
    if g.r.chance(300) {
        for _ in 0..g.r.range(1, 2) {
            let sp = refused_spec(g);
            let o = g.build(50, sp);
            g.p.setup.push(o);
            g.built.remove(&50);
        }
    }
    // operators make new sets of clones
    if g.r.chance(150) {
        set_group(g, 30..32, true);
        for _ in 0..g.r.range(1, 3) {
            let (a, b) = if g.r.chance(500) { (30, 31) } else { (31, 30) };
            let alg = *g.r.pick(&[Alg::Union, Alg::Inter, Alg::Diff, Alg::Sym]);
            let o = g.op(OpK::Oper { a, b, alg });
            g.p.setup.push(o);
        }
    }
    // some are consumed, some dropped, the rest go at the end
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    for s in slots {
        let n = g.keys_of(s).len();
        let std = kind(&g.built[&s].kind).fam == Fam::Std;
        match if std { 2 } else { g.r.below(4) } {
            0 | 1 => {
                let l = g.r.range(1, 8);
                let mut steps: Vec<St> = vec![St::Open(0)];
                let mut regs = 1;
                for _ in 0..l {
                    match g.r.below(6) {
                        0 => {
                            steps.push(St::Clone(0));
                            regs += 1;
                        }
                        1 => steps.push(St::Hint(0)),
                        _ => steps.push(St::Next(g.r.below(regs) as u8)),
                    }
                }
                for q in 0..regs.min(8) {
                    if g.r.chance(700) {
                        let d = g.drain(n);
                        steps.push(St::Fin(q as u8, d));
                    }
                }
                let o = g.op(OpK::IntoIter { slot: s, steps });
                g.p.teardown.push(o);
                let o = g.op(OpK::Drop { slot: s });
                g.p.teardown.push(o);
            }
            2 => {
                let o = g.op(OpK::Drop { slot: s });
                g.p.teardown.push(o);
            }
            _ => {
                let o = g.audit(s, 2);
                g.p.teardown.push(o);
            }
        }
    }
    // now and then by two clients, each its own
    if g.r.chance(150) {
        let ops = std::mem::take(&mut g.p.teardown);
        let mut l = vec![Vec::new(), Vec::new()];
        for o in ops {
            let s = match &o.k {
                OpK::IntoIter { slot, .. } | OpK::Drop { slot } | OpK::Audit { slot, .. } => *slot,
                _ => 0,
            };
            l[s as usize % 2].push(o);
        }
        g.p.clients = l;
    }
}

fn c05(g: &mut G) {
    let nb = g.r.range(1, 3) as u8;
    for s in 0..nb {
        let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std && is_cb(k));
        let n = g.size(k.cap.min(300)).max(2);
        let sp = g.spec(k, n);
        let o = g.build(s, sp);
        g.p.setup.push(o);
    }
    // one collection with lawful keys that must not notice
    let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
    let sp = g.spec(k, 8);
    let o = g.build(30, sp);
    g.p.setup.push(o);
    let slots: Vec<u8> = (0..nb).collect();
    let n = g.r.range(6, 16);
    for _ in 0..n {
        let s = *g.r.pick(&slots);
        let map = !kind(&g.built[&s].kind).set;
        let mut v = match g.r.below(10) {
            0..=3 if map => vec![g.many_op(s)],
            4 | 5 if map => {
                let key = g.some_key(s, 800);
                let how = g.how(true);
                let w = Some(g.toks(1));
                vec![g.op(OpK::Look { slot: s, how, key, w })]
            }
            6 => {
                let key = g.some_key(30, 500);
                let how = g.how(false);
                vec![g.op(OpK::Look { slot: 30, how, key, w: None })]
            }
            _ => g.read_op(&slots, 40),
        };
        g.p.setup.append(&mut v);
    }
    g.teardown(4);
}

fn c06(g: &mut G) {
    let nb = g.r.range(1, 3) as u8;
    for s in 0..nb {
        let k = pick_kind(&mut g.r, |k| !k.set);
        let n = g.size(k.cap.min(300)).max(1);
        let sp = g.spec(k, n);
        let o = g.build(s, sp);
        g.p.setup.push(o);
    }
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    let nc = *g.r.pick(&[1usize, 1, 2, 3]);
    for c in 0..nc {
        let mut v = Vec::new();
        let n = g.r.range(6, 24);
        let mut clone_n = 0u8;
        let mut mine = slots.clone();
        for _ in 0..n {
            let s = *g.r.pick(&mine);
            match g.r.below(12) {
                0..=3 => {
                    let key = g.some_key(s, 850);
                    let how = g.how(true);
                    let w = Some(g.toks(1));
                    let o = g.op(OpK::Look { slot: s, how, key, w });
                    v.push(o);
                }
                4..=6 => {
                    let o = g.many_op(s);
                    v.push(o);
                }
                7 if clone_n < 3 => {
                    let t = 16 + (c as u8) * 8 + clone_n;
                    clone_n += 1;
                    let o = g.op(OpK::CloneTo { slot: s, to: t });
                    v.push(o);
                    g.built.insert(t, g.built[&s].clone());
                    mine.push(t);
                }
                8 => {
                    let o = g.audit(s, 1);
                    v.push(o);
                }
                _ => {
                    let how = g.how(false);
                    let key = g.some_key(s, 850);
                    let o = g.op(OpK::Look { slot: s, how, key, w: None });
                    v.push(o);
                }
            }
        }
        g.p.clients.push(v);
    }
    g.teardown(2);
}

fn c07(g: &mut G) {
    let huge = g.r.below(1000) < 2 || std::env::var_os("FSIM_HUGE").is_some();
    let nb = if huge { 1 } else { g.r.range(1, 2) as u8 };
    for s in 0..nb {
        let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
        let n = g.size(k.cap);
        let sp = match huge {
            true => huge_spec(g, false).unwrap(),
            false => g.spec(k, n),
        };
        let o = g.build(s, sp);
        g.p.setup.push(o);
    }
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    let nc = if huge { 1 } else { *g.r.pick(&[1usize, 1, 2]) };
    for _ in 0..nc {
        let mut v = Vec::new();
        let m = if huge { 1 } else { g.r.range(1, 4) };
        for _ in 0..m {
            let s = *g.r.pick(&slots);
            let n = g.keys_of(s).len();
            let w = g.which(s);
            let l = g.r.range(4, 30);
            let steps = g.steps(n, w, l, 100);
            let o = g.op(OpK::IterP { slot: s, steps });
            v.push(o);
        }
        g.p.clients.push(v);
    }
    for s in &slots {
        if g.r.chance(400) {
            let n = g.keys_of(*s).len();
            let l = g.r.range(2, 14);
            let mut steps = g.steps(n, &[0], l, 50);
            steps.insert(0, St::Open(0));
            let o = g.op(OpK::IntoIter { slot: *s, steps });
            g.p.teardown.push(o);
        }
    }
    g.teardown(1);
}

fn c08(g: &mut G) {
    set_group(g, 0..3, true);
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    let nc = *g.r.pick(&[1usize, 1, 2]);
    for _ in 0..nc {
        let mut v = Vec::new();
        let m = g.r.range(3, 9);
        for _ in 0..m {
            let a = *g.r.pick(&slots);
            let b = *g.r.pick(&slots);
            let n = g.keys_of(a).len() + g.keys_of(b).len();
            let o = match g.r.below(8) {
                0..=3 => {
                    let alg = g.alg();
                    let l = g.r.range(2, 16);
                    let steps = g.steps(n, &[0], l, 40);
                    OpK::AlgP { a, b, alg, steps }
                }
                4 => {
                    let alg = g.alg();
                    OpK::Oper { a, b, alg }
                }
                _ => {
                    let rel = g.rel();
                    OpK::Rel { a, b, rel }
                }
            };
            let o = g.op(o);
            v.push(o);
        }
        g.p.clients.push(v);
    }
    g.teardown(1);
}

fn c09(g: &mut G) {
    if g.r.chance(300) {
        set_group(g, 0..3, false);
    } else {
        let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
        let n = g.size(k.cap.min(600));
        let sp = g.spec(k, n);
        let ks = sp.keys.clone();
        let vs: Vec<u64> = (0..ks.len()).map(|i| sp.val(i)).collect();
        let o = g.build(0, sp);
        g.p.setup.push(o);
        let m = g.r.range(1, 4) as u8;
        for s in 1..=m {
            let mut pairs: Vec<(Lit, u64)> = ks.iter().cloned().zip(vs.iter().cloned()).collect();
            g.r.shuffle(&mut pairs);
            if !pairs.is_empty() {
                let i = g.r.below(pairs.len());
                match g.r.below(6) {
                    0 => pairs[i].1 += 500_000,
                    1 => {
                        if k.fam != Fam::Range {
                            pairs.remove(i);
                        }
                    }
                    2 => {
                        if k.fam != Fam::Range {
                            if let Some(x) = probes(&mut g.r, k, &ks, 1).pop() {
                                pairs[i].0 = x;
                            }
                        }
                    }
                    3 => {
                        // two values exchanged
                        let j = g.r.below(pairs.len());
                        let t = pairs[i].1;
                        pairs[i].1 = pairs[j].1;
                        pairs[j].1 = t;
                    }
                    _ => {}
                }
            }
            let kk: Vec<Lit> = pairs.iter().map(|p| p.0.clone()).collect();
            let mut sp = g.spec_keys(k, kk);
            sp.vals = pairs.iter().map(|p| p.1).collect();
            let o = g.build(s, sp);
            g.p.setup.push(o);
        }
        if g.r.chance(500) {
            let o = g.op(OpK::CloneTo { slot: 0, to: 20 });
            g.p.setup.push(o);
            g.built.insert(20, g.built[&0].clone());
        }
    }
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    let nc = *g.r.pick(&[1usize, 1, 2]);
    for c in 0..nc {
        let mut v = Vec::new();
        for _ in 0..8 {
            let a = *g.r.pick(&slots);
            let b = *g.r.pick(&slots);
            let o = if g.r.chance(800) { OpK::Eq { a, b } } else { OpK::Rel { a, b, rel: Rel::SetEq } };
            let o = g.op(o);
            v.push(o);
            // a write makes two equal maps differ, and back again
            if nc == 1 && c == 0 && !kind(&g.built[&a].kind).set && g.r.chance(200) {
                let key = g.some_key(a, 1000);
                let w = Some(g.toks(1));
                let o = g.op(OpK::Look { slot: a, how: How::GetMut, key, w });
                v.push(o);
            }
        }
        g.p.clients.push(v);
    }
    g.teardown(0);
}

/// A payload that breaks a documented precondition of its collection.
fn refused_spec(g: &mut G) -> BuildSpec {
    if g.r.chance(500) {
        let k = pick_kind(&mut g.r, |k| k.fam == Fam::Range);
        let n = g.r.range(3, 40);
        let ks = keys(&mut g.r, k, n);
        let mut sp = g.spec_keys(k, ks);
        sp.ctor = if g.r.chance(500) { Ctor::Iter } else { Ctor::Vec };
        let mut sorted = sp.keys.clone();
        sorted.sort();
        let victim = sorted[g.r.range(1, sorted.len() - 2)].clone();
        if g.r.chance(700) {
            sp.keys.retain(|x| *x != victim);
        } else {
            // a repeated key
            sp.keys.push(victim);
        }
        sp.refuse = true;
        sp
    } else {
        let k = pick_kind(&mut g.r, |k| k.cap == 255 && !matches!(k.kty, KTy::U8 | KTy::I8));
        let n = g.r.range(256, 300);
        let ks = keys(&mut g.r, k, n);
        let mut sp = g.spec_keys(k, ks);
        sp.ctor = if g.r.chance(500) { Ctor::Iter } else { Ctor::Vec };
        sp.refuse = true;
        sp
    }
}

fn c10_spec(g: &mut G) -> BuildSpec {
    let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
    let n = match g.r.below(6) {
        0 if k.cap <= 255 => *g.r.pick(&[253usize, 254, 255, 256, 257, 300]),
        _ => g.size(k.cap.min(3000)),
    };
    let ks = keys(&mut g.r, k, n);
    let n = ks.len();
    let mut sp = g.spec_keys(k, ks);
    if g.r.chance(650) && sp.ctor != Ctor::Default {
        sp.ctor = Ctor::Iter;
    }
    if sp.ctor == Ctor::Iter {
        sp.hint = *g.r.pick(&[HintLie::Exact, HintLie::Zero, HintLie::None, HintLie::Low, HintLie::High, HintLie::Max]);
        if g.r.chance(300) && k.fam != Fam::Range && !k.name.contains("LengthMap<SimStr") {
            sp.end_at = Some(g.r.below(n + 1));
        }
    }
    if k.fam == Fam::Range && n >= 3 && g.r.chance(250) {
        // a hole: documented to be refused
        let mut s: Vec<Lit> = sp.keys.clone();
        s.sort();
        let victim = s[g.r.range(1, n - 2)].clone();
        sp.keys.retain(|x| *x != victim);
        sp.refuse = true;
    }
    if sp.delivered() > k.cap {
        sp.refuse = true;
    }
    sp
}

fn c10_huge(g: &mut G) {
    let Some(mut sp) = huge_spec(g, true) else { return };
    let k = kind(&sp.kind);
    if g.r.chance(600) {
        sp.ctor = Ctor::Iter;
        sp.hint = *g.r.pick(&[HintLie::Exact, HintLie::Zero, HintLie::None, HintLie::Low, HintLie::High, HintLie::Max]);
        if k.fam != Fam::Range && g.r.chance(400) {
            sp.end_at = Some(sp.keys.len() - g.r.below(3));
        }
    }
    sp.refuse = sp.delivered() > k.cap;
    let refuse = sp.refuse;
    let o = g.build(0, sp);
    g.p.setup.push(o);
    if refuse {
        g.built.remove(&0);
    } else {
        let o = g.audit(0, 4);
        g.p.setup.push(o);
        let o = g.op(OpK::Drop { slot: 0 });
        g.p.setup.push(o);
        g.built.remove(&0);
    }
}

fn c10(g: &mut G) {
    if g.r.below(1000) < 3 || std::env::var_os("FSIM_HUGE").is_some() {
        return c10_huge(g);
    }
    // a bystander
    let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
    let n = g.size(k.cap.min(64));
    let sp = g.spec(k, n);
    let o = g.build(60, sp);
    g.p.setup.push(o);
    let nc = *g.r.pick(&[1usize, 1, 2]);
    let mut s = 0u8;
    for c in 0..nc {
        let mut v = Vec::new();
        let m = g.r.range(1, 4);
        for _ in 0..m {
            let sp = c10_spec(g);
            let refuse = sp.refuse;
            let o = g.build(s, sp);
            v.push(o);
            if refuse {
                g.built.remove(&s);
            } else {
                let o = g.audit(s, 4);
                v.push(o);
            }
            s += 1;
            if g.r.chance(400) {
                let how = g.how(false);
                let key = g.some_key(60, 600);
                let o = g.op(OpK::Look { slot: 60, how, key, w: None });
                v.push(o);
            }
        }
        if c > 0 {
            let o = g.audit(60, 2);
            v.push(o);
        }
        g.p.clients.push(v);
    }
    g.teardown(2);
}

fn c11(g: &mut G) {
    if g.r.chance(300) {
        set_group(g, 0..2, false);
    } else {
        let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
        let n = g.size(k.cap.min(200));
        let sp = g.spec(k, n);
        let o = g.build(0, sp);
        g.p.setup.push(o);
    }
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    let m = g.r.range(2, 6);
    for _ in 0..m {
        let s = *g.r.pick(&slots);
        let n = g.keys_of(s).len();
        let alt = g.r.chance(400);
        let limit = if g.r.chance(250) { Some(g.r.below(10 + 8 * n)) } else { None };
        let o = match g.r.below(5) {
            0 | 1 => OpK::Dbg { slot: s, alt, limit },
            2 | 3 => {
                let w = g.which(s);
                let mut st = vec![St::Open(*g.r.pick(w))];
                let adv = g.r.below(n.min(10) + 2);
                for _ in 0..adv {
                    st.push(St::Next(0));
                }
                st.push(St::Dbg(0, alt, limit));
                st.push(St::Next(0));
                st.push(St::Hint(0));
                st.push(St::Dbg(0, !alt, None));
                OpK::IterP { slot: s, steps: st }
            }
            _ => {
                if slots.len() < 2 || !kind(&g.built[&s].kind).set {
                    OpK::Dbg { slot: s, alt, limit }
                } else {
                    let alg = g.alg();
                    let b = *g.r.pick(&slots);
                    let mut st = vec![St::Open(0)];
                    let adv = g.r.below(n.min(10) + 2);
                    for _ in 0..adv {
                        st.push(St::Next(0));
                    }
                    st.push(St::Dbg(0, alt, limit));
                    st.push(St::Fin(0, Drain::Collect));
                    OpK::AlgP { a: s, b, alg, steps: st }
                }
            }
        };
        let o = g.op(o);
        g.p.setup.push(o);
    }
    for s in &slots {
        let n = g.keys_of(*s).len();
        if g.r.chance(300) && kind(&g.built[s].kind).set {
            let mut st = vec![St::Open(0)];
            let adv = g.r.below(n.min(10) + 2);
            for _ in 0..adv {
                st.push(St::Next(0));
            }
            st.push(St::Dbg(0, false, None));
            st.push(St::Fin(0, Drain::Collect));
            let o = g.op(OpK::IntoIter { slot: *s, steps: st });
            g.p.teardown.push(o);
        }
    }
    g.teardown(1);
}

fn c12(g: &mut G) {
    let sets = g.r.chance(250);
    if sets {
        set_group(g, 0..2, false);
    } else {
        let nb = g.r.range(1, 2) as u8;
        for s in 0..nb {
            let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
            let n = if g.r.chance(250) { *g.r.pick(&[100usize, 255, 256, 700, 1200, 2000]) } else { g.size(k.cap.min(400)) };
            let n = n.min(k.cap);
            let sp = g.spec(k, n);
            let o = g.build(s, sp.clone());
            g.p.setup.push(o);
            if g.r.chance(300) {
                let mut t = sp;
                t.bh = bh(&mut g.r);
                let o = g.build(s + 10, t);
                g.p.setup.push(o);
            }
        }
    }
    let slots: Vec<u8> = g.built.keys().cloned().collect();
    let nc = *g.r.pick(&[1usize, 2, 2, 3]);
    for c in 0..nc {
        let mut v = Vec::new();
        let n = g.r.range(4, 12);
        for _ in 0..n {
            let mut o = if g.r.chance(150) {
                let k = pick_kind(&mut g.r, |k| k.fam != Fam::Std);
                let sz = g.size(k.cap.min(100));
                let own = 50 + c as u8;
                let sp = g.spec(k, sz);
                let mut l = vec![g.build(own, sp)];
                if !k.set && g.r.chance(600) {
                    for _ in 0..g.r.range(1, 4) {
                        if g.r.chance(500) {
                            let o = g.many_op(own);
                            l.push(o);
                        } else {
                            let how = g.how(true);
                            let key = g.some_key(own, 800);
                            let w = g.toks(1);
                            let o = g.op(OpK::Look { slot: own, how, key, w: Some(w) });
                            l.push(o);
                        }
                    }
                }
                let b = g.op(OpK::Drop { slot: own });
                g.built.remove(&own);
                l.push(b);
                l
            } else {
                g.read_op(&slots, 40 + c as u8)
            };
            v.append(&mut o);
        }
        g.p.clients.push(v);
    }
    g.teardown(1);
}

// ---------------------------------------------------------------------------------------------
// variants: faults and schedules, placed with the help of the fault-free run's profile

pub struct Prof<'a>(pub &'a [OpProf]);

fn all_ops(p: &Plan) -> Vec<&Op> {
    p.setup.iter().chain(p.clients.iter().flatten()).chain(p.teardown.iter()).collect()
}

pub fn variant(base: &Plan, prof: &Prof, v: u32) -> Plan {
    let mut p = base.clone();
    p.variant = v;
    let mut r = Rng::new(mix(base.seed) ^ mix(v as u64 + 77));
    let multi = p.clients.len() > 1;
    let clients: BTreeSet<u32> = p.clients.iter().flatten().map(|o| o.id).collect();
    let ops: Vec<Op> = all_ops(base).into_iter().cloned().collect();
    let is_build = |o: &Op| matches!(o.k, OpK::Build { .. });
    let is_end = |o: &Op| matches!(o.k, OpK::Audit { .. });
    let cbs = |o: &Op, ks: &[Cb]| -> Vec<(Cb, u32)> {
        let c = &prof.0[o.id as usize].cb;
        ks.iter().filter(|k| c[**k as usize] > 0).map(|k| (*k, c[*k as usize])).collect()
    };
    // nth occurrence: the first, the last, or any
    fn nth(r: &mut Rng, n: u32) -> u32 {
        match r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => r.below(n as usize) as u32,
        }
    }
    const USER: &[Cb] = &[
        Cb::KeyHash, Cb::KeyEq, Cb::KeyClone, Cb::KeyFmt, Cb::KeyCmp, Cb::KeyLen, Cb::ValEq, Cb::ValClone, Cb::ValFmt, Cb::BhBuild, Cb::BhClone, Cb::HashFinish, Cb::Sink, Cb::Closure, Cb::SetIter, Cb::SetContains,
        Cb::SetLen,
    ];
    const DROPS: &[Cb] = &[Cb::KeyDrop, Cb::ValDrop];
    const SRC: &[Cb] = &[Cb::SrcNext, Cb::SrcHint];
    const LIARS: &[Cb] = &[Cb::KeyHash, Cb::KeyEq, Cb::HashFinish, Cb::BhBuild];
    let place = |p: &mut Plan, r: &mut Rng, ops: &[&Op], ks: &[Cb], act: Act, len: u32| {
        // prefer operations where the chosen kind of callback occurs at all
        let c: Vec<&&Op> = ops.iter().filter(|o| !cbs(o, ks).is_empty()).collect();
        if c.is_empty() {
            return;
        }
        let o = c[r.below(c.len())];
        let l = cbs(o, ks);
        let (k, n) = l[r.below(l.len())];
        let at = nth(r, n);
        p.faults.push(Fault { op: o.id, kind: k, nth: at, len, act });
    };
    let alloc_fault = |p: &mut Plan, r: &mut Rng, ops: &[&Op]| {
        let c: Vec<&&Op> = ops.iter().filter(|o| prof.0[o.id as usize].cb[Cb::Alloc as usize] > 0).collect();
        if c.is_empty() {
            return;
        }
        let o = c[r.below(c.len())];
        let n = prof.0[o.id as usize].cb[Cb::Alloc as usize];
        let at = nth(r, n);
        p.faults.push(Fault { op: o.id, kind: Cb::Alloc, nth: at, len: 1, act: Act::Oom });
    };
    let std_slot = |s: u8| {
        ops.iter().any(|o| matches!(&o.k, OpK::Build { slot, spec } if *slot == s && kind(&spec.kind).fam == Fam::Std))
    };
    let touches_std = |o: &Op| match &o.k {
        OpK::AlgP { a, .. } | OpK::Rel { a, .. } | OpK::Oper { a, .. } => std_slot(*a),
        OpK::Eq { a, b } => std_slot(*a) || std_slot(*b),
        OpK::Build { slot, .. } | OpK::CloneTo { slot, .. } | OpK::Drop { slot } | OpK::Look { slot, .. } | OpK::IterP { slot, .. } | OpK::Dbg { slot, .. } => std_slot(*slot),
        _ => false,
    };
    if multi {
        let mean = *r.pick(&[2u32, 4, 10, 25, 60, 200, 1000, 5000]);
        let pm = *r.pick(&[0u32, 100, 500]);
        p.sched = Sched::Rand(r.u(), mean, pm);
    }
    let freeze = |p: &mut Plan, r: &mut Rng, times: usize| {
        let c: Vec<&Op> = ops.iter().filter(|o| clients.contains(&o.id) && prof.0[o.id as usize].steps > 0).collect();
        if c.is_empty() {
            return;
        }
        let mut l = Vec::new();
        let nc = p.clients.len();
        for _ in 0..times {
            let o = c[r.below(c.len())];
            let st = 1 + r.below(prof.0[o.id as usize].steps as usize) as u64;
            l.push(Sw { op: o.id, to: r.range(1, nc) as u8, freeze: r.chance(600), step: st });
        }
        l.push(Sw { op: DONE_OP, to: r.range(1, nc) as u8, freeze: false, step: 0 });
        p.sched = Sched::Explicit(l);
    };
    match base.prop.as_str() {
        "C01" => {
            if r.chance(300) {
                let target: Vec<&Op> = ops.iter().filter(|o| !is_end(o) && !touches_std(o)).collect();
                for _ in 0..3 {
                    place(&mut p, &mut r, &target, USER, Act::Reenter, 2);
                }
            }
        }
        "C02" => {
            let target: Vec<&Op> = ops.iter().filter(|o| clients.contains(&o.id) && !is_build(o) && !is_end(o)).collect();
            match v % 10 {
                0..=4 => {}
                5 | 6 => {
                    let t = r.range(1, 6);
                    freeze(&mut p, &mut r, t)
                }
                7 => {
                    let n = r.range(1, 3);
                    for _ in 0..n {
                        place(&mut p, &mut r, &target, USER, Act::Panic, 1);
                    }
                }
                8 => {
                    let n = r.range(2, 6);
                    for _ in 0..n {
                        place(&mut p, &mut r, &target, USER, Act::Stall, 1);
                    }
                    if r.chance(400) {
                        place(&mut p, &mut r, &target, USER, Act::Panic, 1);
                    }
                }
                _ => {
                    for _ in 0..3 {
                        let len = if r.chance(500) { 1 } else { 1000 };
                        place(&mut p, &mut r, &target, USER, Act::Reenter, len);
                    }
                }
            }
        }
        "C03" => {
            let target: Vec<&Op> = ops.iter().filter(|o| !is_build(o) && !is_end(o) && !matches!(o.k, OpK::Drop { .. })).collect();
            let n = r.range(1, 4);
            for _ in 0..n {
                place(&mut p, &mut r, &target, USER, Act::Panic, 1);
            }
            if r.chance(150) {
                place(&mut p, &mut r, &target, DROPS, Act::Panic, 1);
            }
        }
        "C04" => {
            let target: Vec<&Op> = ops.iter().filter(|o| !is_end(o)).collect();
            let builds: Vec<&Op> = ops.iter().filter(|o| is_build(o)).collect();
            let others: Vec<&Op> = ops.iter().filter(|o| !is_build(o) && !is_end(o)).collect();
            let all: Vec<Cb> = USER.iter().chain(DROPS).chain(SRC).cloned().collect();
            match v % 8 {
                0 => {}
                1 => alloc_fault(&mut p, &mut r, &builds),
                2 => alloc_fault(&mut p, &mut r, &others),
                3 => place(&mut p, &mut r, &builds, &all, Act::Panic, 1),
                4 => place(&mut p, &mut r, &others, &all, Act::Panic, 1),
                5 => {
                    let c: Vec<&Op> = others.iter().filter(|o| matches!(o.k, OpK::CloneTo { .. } | OpK::IntoIter { .. } | OpK::Drop { .. })).cloned().collect();
                    place(&mut p, &mut r, &c, &all, Act::Panic, 1)
                }
                6 => {
                    let n = r.range(2, 4);
                    for _ in 0..n {
                        place(&mut p, &mut r, &target, &all, Act::Panic, 1);
                    }
                }
                _ => {
                    alloc_fault(&mut p, &mut r, &target);
                    place(&mut p, &mut r, &target, &all, Act::Panic, 1);
                }
            }
        }
        "C05" => {
            let target: Vec<&Op> = ops.iter().filter(|o| !is_build(o) && !is_end(o)).collect();
            let builds: Vec<&Op> = ops.iter().filter(|o| is_build(o) && !matches!(o.k, OpK::Build { slot: 30, .. })).collect();
            let many: Vec<&Op> = ops.iter().filter(|o| matches!(o.k, OpK::Many { .. })).collect();
            let n = r.range(1, 5);
            for _ in 0..n {
                let m = match r.below(4) {
                    0 => 0,
                    1 => 1,
                    _ => r.u(),
                };
                let len = *r.pick(&[1u32, 1, 2, 5, 100_000]);
                match v % 8 {
                    0 | 1 => place(&mut p, &mut r, &many, &[Cb::KeyEq], Act::Lie(m), len),
                    2 => place(&mut p, &mut r, &builds, LIARS, Act::Lie(m), len),
                    3 => {
                        // an eq that answers yes (or no) to everything
                        place(&mut p, &mut r, &target, &[Cb::KeyEq], Act::Lie(m), 100_000)
                    }
                    4 => {
                        place(&mut p, &mut r, &target, LIARS, Act::Lie(m), len);
                        if r.chance(300) {
                            place(&mut p, &mut r, &target, USER, Act::Panic, 1);
                        }
                    }
                    5 => {
                        place(&mut p, &mut r, &builds, LIARS, Act::Lie(m), len);
                        let m2 = r.u();
                        place(&mut p, &mut r, &target, LIARS, Act::Lie(m2), len);
                    }
                    _ => place(&mut p, &mut r, &target, LIARS, Act::Lie(m), len),
                }
            }
        }
        "C06" => {
            let target: Vec<&Op> = ops.iter().filter(|o| matches!(o.k, OpK::Look { .. } | OpK::Many { .. } | OpK::CloneTo { .. })).collect();
            if v >= 1 {
                let n = r.below(3);
                for _ in 0..n {
                    place(&mut p, &mut r, &target, USER, Act::Panic, 1);
                }
            }
            if v == 3 && r.chance(500) {
                place(&mut p, &mut r, &target, USER, Act::Reenter, 2);
            }
        }
        "C07" => {
            let target: Vec<&Op> = ops.iter().filter(|o| matches!(o.k, OpK::IterP { .. } | OpK::IntoIter { .. })).collect();
            match v % 4 {
                0 => {}
                1 | 2 => {
                    let n = r.range(1, 3);
                    for _ in 0..n {
                        place(&mut p, &mut r, &target, &[Cb::Closure], Act::Panic, 1);
                    }
                }
                _ => {
                    if r.chance(500) {
                        place(&mut p, &mut r, &target, &[Cb::Closure], Act::Reenter, 1000);
                    } else if multi {
                        freeze(&mut p, &mut r, 2);
                    }
                }
            }
        }
        "C08" => {
            let target: Vec<&Op> = ops.iter().filter(|o| matches!(o.k, OpK::AlgP { .. } | OpK::Rel { .. } | OpK::Oper { .. }) && !touches_std(o)).collect();
            match v % 4 {
                0 => {}
                1 | 2 => {
                    let n = r.range(1, 3);
                    for _ in 0..n {
                        place(&mut p, &mut r, &target, USER, Act::Panic, 1);
                    }
                }
                _ => place(&mut p, &mut r, &target, USER, Act::Reenter, 50),
            }
        }
        "C09" => {
            let target: Vec<&Op> = ops.iter().filter(|o| matches!(o.k, OpK::Eq { .. }) && !touches_std(o)).collect();
            match v % 4 {
                0 => {}
                3 => place(&mut p, &mut r, &target, USER, Act::Reenter, 2),
                _ => place(&mut p, &mut r, &target, &[Cb::KeyEq, Cb::KeyHash, Cb::ValEq, Cb::HashFinish], Act::Panic, 1),
            }
        }
        "C10" => {
            let builds: Vec<&Op> = ops.iter().filter(|o| is_build(o) && clients.contains(&o.id)).collect();
            let all: Vec<Cb> = USER.iter().chain(DROPS).chain(SRC).cloned().collect();
            match v % 6 {
                0 => {}
                1 => place(&mut p, &mut r, &builds, SRC, Act::Panic, 1),
                2 => place(&mut p, &mut r, &builds, &all, Act::Panic, 1),
                3 => alloc_fault(&mut p, &mut r, &builds),
                4 => {
                    for _ in 0..2 {
                        place(&mut p, &mut r, &builds, &all, Act::Stall, 1);
                    }
                    for _ in 0..2 {
                        let at: &[Cb] = if r.chance(700) { SRC } else { &all };
                        place(&mut p, &mut r, &builds, at, Act::Reenter, 100);
                    }
                }
                _ => {
                    if multi {
                        freeze(&mut p, &mut r, 3);
                    } else {
                        alloc_fault(&mut p, &mut r, &builds);
                    }
                }
            }
        }
        "C11" => {
            let target: Vec<&Op> = ops.iter().filter(|o| !is_build(o) && !is_end(o)).collect();
            let n = r.range(1, 3);
            for _ in 0..n {
                match v % 8 {
                    0..=2 => {
                        let len = *r.pick(&[1u32, 1, 1_000_000]);
                        place(&mut p, &mut r, &target, &[Cb::Sink], Act::Err, len)
                    }
                    3..=5 => place(&mut p, &mut r, &target, &[Cb::KeyFmt, Cb::ValFmt], Act::Err, 1),
                    6 => place(&mut p, &mut r, &target, &[Cb::KeyFmt, Cb::ValFmt, Cb::Sink], Act::Panic, 1),
                    _ => place(&mut p, &mut r, &target, &[Cb::KeyFmt, Cb::ValFmt, Cb::Sink], Act::Reenter, 1),
                }
            }
        }
        "C12" => {
            if multi {
                match v % 4 {
                    0 | 1 => {
                        let t = r.range(1, 5);
                        freeze(&mut p, &mut r, t)
                    }
                    2 => {
                        let target: Vec<&Op> = ops.iter().filter(|o| clients.contains(&o.id)).collect();
                        let all: Vec<Cb> = USER.iter().chain(SRC).cloned().collect();
                        for _ in 0..3 {
                            place(&mut p, &mut r, &target, &all, Act::Stall, 1);
                        }
                    }
                    _ => {}
                }
            } else if v == 3 {
                let target: Vec<&Op> = ops.iter().collect();
                let all: Vec<Cb> = USER.iter().chain(SRC).cloned().collect();
                for _ in 0..2 {
                    place(&mut p, &mut r, &target, &all, Act::Reenter, 2);
                }
            } else if v > 0 {
                p.os = (*r.pick(&[0u8, 1, 2, 3]), r.u());
            }
        }
        _ => {}
    }
    if r.chance(300) {
        repeat(&mut p, &mut r);
    }
    p
}

/// The same failing operation several times in a row, then the same kind of operation on whatever is there:
/// what an operation leaves behind when it is cut short may add up.
fn repeat(p: &mut Plan, r: &mut Rng) {
    let failing: Vec<Fault> = p.faults.iter().filter(|f| matches!(f.act, Act::Panic | Act::Err | Act::Oom)).cloned().collect();
    if failing.is_empty() {
        return;
    }
    let op = failing[r.below(failing.len())].op;
    let mut next = all_ops(p).iter().map(|o| o.id).max().unwrap_or(0) + 1;
    let others: Vec<OpK> = all_ops(p).into_iter().filter(|o| o.id != op).map(|o| o.k.clone()).collect();
    let slots: Vec<u8> = p
        .setup
        .iter()
        .filter_map(|o| match &o.k {
            OpK::Build { slot, spec } if kind(&spec.kind).fam != Fam::Std => Some(*slot),
            _ => None,
        })
        .collect();
    let times = *r.pick(&[1u32, 2, 2, 3, 3, 4, 6, 9]);
    let lists = p.clients.iter().position(|c| c.iter().any(|o| o.id == op));
    let list: &mut Vec<Op> = match lists {
        Some(i) => &mut p.clients[i],
        None if p.setup.iter().any(|o| o.id == op) => &mut p.setup,
        None => &mut p.teardown,
    };
    let Some(mut at) = list.iter().position(|o| o.id == op) else { return };
    let k = list[at].k.clone();
    for _ in 0..times {
        if next as usize >= MAXOPS - 8 {
            break;
        }
        at += 1;
        list.insert(at, Op { id: next, k: k.clone() });
        for f in failing.iter().filter(|f| f.op == op) {
            p.faults.push(Fault { op: next, ..f.clone() });
        }
        next += 1;
    }
    // afterwards: the same operation unhindered, and its like on others
    let mut after = vec![k.clone()];
    let same: Vec<&OpK> = others.iter().filter(|o| std::mem::discriminant(*o) == std::mem::discriminant(&k) && !matches!(o, OpK::Build { .. } | OpK::CloneTo { .. } | OpK::Drop { .. } | OpK::IntoIter { .. })).collect();
    for _ in 0..r.below(3) {
        if !same.is_empty() {
            after.push((*r.pick(&same)).clone());
        }
    }
    if !slots.is_empty() {
        for _ in 0..r.below(3) {
            let s = *r.pick(&slots);
            let t = *r.pick(&slots);
            match &k {
                OpK::Dbg { .. } => after.push(OpK::Dbg { slot: s, alt: r.chance(300), limit: None }),
                OpK::Rel { rel, .. } => after.push(OpK::Rel { a: s, b: t, rel: *rel }),
                OpK::Eq { .. } => after.push(OpK::Eq { a: s, b: t }),
                OpK::Oper { alg, .. } => after.push(OpK::Oper { a: s, b: t, alg: *alg }),
                _ => {}
            }
        }
    }
    for k in after {
        if next as usize >= MAXOPS - 1 {
            break;
        }
        at += 1;
        list.insert(at, Op { id: next, k });
        next += 1;
    }
}
