//! Shrinks a failing plan: fewer operations, clients, faults, hand-overs and entries, as long as the
//! same kind of failure remains.

use crate::env::*;
use crate::plan::*;
use crate::run::*;
use crate::{with_recorded_schedule, Replay};
use std::time::{Duration, Instant};

struct M {
    r: Runner,
    class: String,
    end: Instant,
    best: Plan,
    msg: String,
    tries: u32,
}
impl M {
    fn over(&self) -> bool {
        Instant::now() > self.end
    }
    fn fails(&mut self, p: &Plan) -> bool {
        if self.over() {
            return false;
        }
        self.tries += 1;
        let o = self.r.run(p);
        if o.class.as_ref() == Some(&self.class) {
            self.msg = o.msg;
            true
        } else {
            false
        }
    }
    /// Takes `p` if it fails the same way, with its own schedule or a freshly searched one.
    fn take(&mut self, p: Plan) -> bool {
        if self.fails(&p) {
            self.best = with_recorded_schedule(&p);
            return true;
        }
        if p.clients.len() > 1 && p.sched != Sched::Seq {
            for (i, mean) in [3u32, 10, 40, 200].into_iter().enumerate() {
                let mut q = p.clone();
                q.sched = Sched::Rand(i as u64 * 77 + 5, mean, 300);
                if self.fails(&q) {
                    self.best = with_recorded_schedule(&q);
                    return true;
                }
            }
        }
        false
    }
}

fn drop_chunks<T: Clone>(m: &mut M, get: &dyn Fn(&Plan) -> Vec<T>, put: &dyn Fn(&mut Plan, Vec<T>)) {
    let mut size = get(&m.best).len().div_ceil(2).max(1);
    loop {
        let mut i = 0;
        while i < get(&m.best).len() && !m.over() {
            let v = get(&m.best);
            let mut w = v.clone();
            w.drain(i..(i + size).min(v.len()));
            let mut p = m.best.clone();
            put(&mut p, w);
            if !m.take(p) {
                i += size;
            }
        }
        if size == 1 || m.over() {
            break;
        }
        size /= 2;
    }
}

fn builds(p: &mut Plan) -> Vec<&mut Op> {
    p.setup.iter_mut().chain(p.clients.iter_mut().flatten()).chain(p.teardown.iter_mut()).collect()
}

pub fn minimise(input: &str, output: &str, secs: f64) -> i32 {
    let Some(rep) = std::fs::read_to_string(input).ok().and_then(|s| serde_json::from_str::<Replay>(&s).ok()) else {
        return 3;
    };
    let mut m = M {
        r: Runner::new("min"),
        class: rep.class.clone(),
        end: Instant::now() + Duration::from_secs_f64(secs),
        best: rep.plan.clone(),
        msg: rep.message.clone(),
        tries: 0,
    };
    if !m.fails(&rep.plan.clone()) {
        return 2;
    }
    if rep.class.starts_with("hang") {
        // each try costs seconds; leave it
        m.end = Instant::now();
    }
    for round in 0..3 {
        let before = serde_json::to_string(&m.best).unwrap().len();
        // whole clients
        let mut c = 0;
        while c < m.best.clients.len() && !m.over() {
            let mut p = m.best.clone();
            p.clients[c].clear();
            if m.best.clients[c].is_empty() || !m.take(p) {
                c += 1;
            }
        }
        if m.best.sched != Sched::Seq && m.best.clients.len() > 1 {
            let mut p = m.best.clone();
            p.sched = Sched::Seq;
            if m.fails(&p) {
                m.best = p;
            }
        }
        drop_chunks(&mut m, &|p| p.faults.clone(), &|p, v| p.faults = v);
        drop_chunks(&mut m, &|p| p.teardown.clone(), &|p, v| p.teardown = v);
        for c in 0..m.best.clients.len() {
            drop_chunks(&mut m, &|p| p.clients[c].clone(), &|p, v| p.clients[c] = v);
        }
        drop_chunks(&mut m, &|p| p.setup.clone(), &|p, v| p.setup = v);
        if let Sched::Explicit(_) = m.best.sched {
            let get = |p: &Plan| match &p.sched {
                Sched::Explicit(l) => l.clone(),
                _ => vec![],
            };
            // hand-overs are dropped without looking for another schedule
            let mut size = get(&m.best).len().div_ceil(2).max(1);
            loop {
                let mut i = 0;
                while i < get(&m.best).len() && !m.over() {
                    let mut w = get(&m.best);
                    let e = (i + size).min(w.len());
                    w.drain(i..e);
                    let mut p = m.best.clone();
                    p.sched = Sched::Explicit(w);
                    if m.fails(&p) {
                        m.best = p;
                    } else {
                        i += size;
                    }
                }
                if size == 1 || m.over() {
                    break;
                }
                size /= 2;
            }
        }
        // programs inside operations
        let n = builds(&mut m.best.clone()).len();
        for j in 0..n {
            let steps = |p: &Plan| -> Vec<St> {
                let mut p = p.clone();
                match &builds(&mut p)[j].k {
                    OpK::IterP { steps, .. } | OpK::IntoIter { steps, .. } | OpK::AlgP { steps, .. } => steps.clone(),
                    _ => vec![],
                }
            };
            if !steps(&m.best).is_empty() {
                drop_chunks(&mut m, &steps, &|p, v| match &mut builds(p)[j].k {
                    OpK::IterP { steps, .. } | OpK::IntoIter { steps, .. } | OpK::AlgP { steps, .. } => *steps = v,
                    _ => {}
                });
            }
            let probes = |p: &Plan| -> Vec<Lit> {
                let mut p = p.clone();
                match &builds(&mut p)[j].k {
                    OpK::Audit { probes, .. } => probes.clone(),
                    _ => vec![],
                }
            };
            if !probes(&m.best).is_empty() {
                drop_chunks(&mut m, &probes, &|p, v| {
                    if let OpK::Audit { probes, .. } = &mut builds(p)[j].k {
                        *probes = v
                    }
                });
            }
            // entries; a gap in consecutive keys would be another case altogether
            let keys = |p: &Plan| -> Vec<(Lit, u64)> {
                let mut p = p.clone();
                match &builds(&mut p)[j].k {
                    OpK::Build { spec, .. } if !spec.refuse && spec.end_at.is_none() && !spec.kind.contains("Range") => spec.keys.iter().cloned().enumerate().map(|(i, k)| (k, spec.val(i))).collect(),
                    _ => vec![],
                }
            };
            if keys(&m.best).len() > 1 {
                drop_chunks(&mut m, &keys, &|p, v| {
                    if let OpK::Build { spec, .. } = &mut builds(p)[j].k {
                        spec.vals = v.iter().map(|x| x.1).collect();
                        spec.keys = v.into_iter().map(|x| x.0).collect();
                    }
                });
            }
        }
        let after = serde_json::to_string(&m.best).unwrap().len();
        if m.over() || after == before || round == 2 {
            break;
        }
    }
    // the final word, with what it has to reproduce
    m.end = Instant::now() + Duration::from_secs(60);
    let p = m.best.clone();
    if !m.fails(&p) {
        return 2;
    }
    let s = shm();
    let r = Replay {
        class: m.class.clone(),
        message: m.msg.clone(),
        fingerprint: s.fingerprint,
        schedule_hash: s.sched_hash,
        steps: s.total,
        plan: p,
        ..rep
    };
    eprintln!("minimised in {} tries", m.tries);
    if std::fs::write(output, serde_json::to_string_pretty(&r).unwrap()).is_err() {
        return 3;
    }
    0
}
