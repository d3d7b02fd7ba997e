//! Step bounds (C12): fixed polynomials in the number of entries and the key length.

use crate::env::*;
use crate::exec::slot;
use crate::plan::*;

fn lit_len(l: &Lit) -> f64 {
    match l {
        Lit::I(_) => 8.0,
        Lit::S(s) => s.len() as f64,
    }
}
fn size(s: u8) -> f64 {
    slot(s).as_ref().map(|o| o.model.len() as f64).unwrap_or(0.0)
}
/// longest key of a collection
fn klen(s: u8) -> f64 {
    slot(s)
        .as_ref()
        .map(|o| o.model.keys().map(lit_len).fold(0.0, f64::max))
        .unwrap_or(0.0)
}

pub const NCLASS: usize = 9;
pub const CLASS_NAMES: [&str; NCLASS] = ["lookup", "multi-key", "construction", "iteration", "set algebra", "relation", "equality", "clone or drop", "formatting"];
/// steps allowed per unit of the class's polynomial
const LIMIT: [f64; NCLASS] = [350.0, 400.0, 1000.0, 90.0, 150.0, 50.0, 90.0, 600.0, 1500.0];

/// class, polynomial, lookups' comparison limit
fn base(op: &Op) -> Option<(usize, f64)> {
    Some(match &op.k {
        OpK::Build { spec, .. } => {
            let n = spec.keys.len() as f64;
            let l = spec.keys.iter().map(lit_len).fold(0.0, f64::max);
            (2, (n + 16.0) * (n + 16.0) + (n + 4.0) * (l + 2.0) * (l + 2.0) * 8.0)
        }
        OpK::Look { slot, key, .. } => (0, size(*slot) + lit_len(key) / 4.0 + 32.0),
        OpK::Many { slot, keys, .. } => (1, (keys.len() as f64 + 1.0) * (size(*slot) + keys.iter().map(lit_len).sum::<f64>() / 4.0 + 32.0)),
        OpK::IterP { slot, steps } => {
            if steps.iter().any(|s| matches!(s, St::Dbg(..))) {
                return None;
            }
            (3, (steps.len() as f64 + 1.0) * (size(*slot) + 16.0))
        }
        OpK::AlgP { a, b, steps, .. } => {
            if steps.iter().any(|s| matches!(s, St::Dbg(..))) {
                return None;
            }
            let n = size(*a) + size(*b) + 16.0;
            (4, (steps.len() as f64 + 1.0) * n * (n + klen(*a).max(klen(*b)) / 4.0))
        }
        OpK::Oper { a, b, .. } => {
            let n = size(*a) + size(*b) + 16.0;
            (4, n * (n + klen(*a).max(klen(*b))))
        }
        OpK::Rel { a, b, .. } => {
            let n = size(*a) + size(*b) + 16.0;
            (5, n * (n + klen(*a).max(klen(*b)) / 4.0))
        }
        OpK::Eq { a, b } => {
            let n = size(*a) + size(*b) + 16.0;
            (6, n * (n + klen(*a).max(klen(*b)) / 4.0))
        }
        OpK::CloneTo { slot, .. } => (7, size(*slot) * 4.0 + 64.0),
        OpK::Drop { .. } | OpK::IntoIter { .. } | OpK::Dbg { .. } | OpK::Audit { .. } => return None,
    })
}

/// Steps of the calls user code makes from inside a callback are not the operation's own.
fn calls_back(p: &Plan, op: &Op) -> bool {
    p.faults.iter().any(|f| f.op == op.id && f.act == Act::Reenter)
}

/// Step limit at which a run is stopped.
pub fn cap(p: &Plan, op: &Op) -> u64 {
    if p.prop == "C12" && !calls_back(p, op) {
        if let OpK::IntoIter { .. } | OpK::Drop { .. } | OpK::Audit { .. } | OpK::Dbg { .. } = &op.k {
            return 600_000_000;
        }
        if let Some((c, b)) = base(op) {
            return (b * LIMIT[c]) as u64 + 20_000;
        }
    }
    600_000_000
}

pub fn judge(p: &Plan, op: &Op, steps: u64, cb: &[u32; NK]) {
    if p.prop != "C12" || calls_back(p, op) {
        return;
    }
    if let Some((c, b)) = base(op) {
        let r = (steps as f64 / b) as f32;
        let m = &mut shm().maxratio[c];
        if r > *m {
            *m = r;
        }
        if steps as f64 > b * LIMIT[c] + 20_000.0 {
            violate(
                "steps/over-limit",
                format!("operation {} {}: took {steps} steps, the bound is {}", op.id, crate::exec::short(op), (b * LIMIT[c]) as u64 + 20_000),
            );
        }
    }
    if let OpK::Look { slot, .. } = &op.k {
        let n = size(*slot);
        let eq = cb[Cb::KeyEq as usize] as f64;
        let h = (cb[Cb::KeyHash as usize] + cb[Cb::BhBuild as usize] + cb[Cb::HashFinish as usize]) as f64;
        if eq > 2.0 * n + 8.0 || h > 32.0 {
            violate(
                "callbacks/over-limit",
                format!("operation {} {}: a lookup among {n} entries compared {eq} keys and called the hasher {h} times", op.id, crate::exec::short(op)),
            );
        }
    }
}
