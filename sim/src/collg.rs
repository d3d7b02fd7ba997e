// Included once per group of collection types, so that the groups compile in parallel.
pub struct It<I: Iterator> {
    it: I,
    conv: fn(I::Item) -> Item,
    len: Option<fn(&I) -> usize>,
}

fn in_closure<T>(f: impl FnOnce() -> T) -> T {
    let _g = cb(Cb::Closure);
    f()
}

impl<'a, I> DynIt<'a> for It<I>
where
    I: Iterator + Clone + Debug + 'a,
{
    fn next(&mut self) -> LR<Option<Item>> {
        let c = self.conv;
        lib(|| self.it.next()).map(|o| o.map(c))
    }
    fn adv(&mut self, how: Adv, seen: &mut Vec<Item>) -> LR<Option<usize>> {
        let c = self.conv;
        let it = &mut self.it;
        let mut n = 0;
        let mut stop = |k: usize| {
            n += 1;
            n > k
        };
        match how {
            Adv::Nth(k) => {
                let v = lib(|| it.nth(k))?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
            Adv::All(k) => lib(|| {
                it.all(|x| {
                    in_closure(|| seen.push(c(x)));
                    !stop(k)
                })
            })
            .map(|_| None),
            Adv::Find(k) => {
                let v = lib(|| it.find(|_| in_closure(|| stop(k))))?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
            Adv::Position(k) => lib(|| {
                it.position(|x| {
                    in_closure(|| seen.push(c(x)));
                    stop(k)
                })
            }),
            Adv::TryFold(k) => lib(|| {
                let r: Result<usize, usize> = it.try_fold(0usize, |m, x| {
                    in_closure(|| seen.push(c(x)));
                    if stop(k) {
                        Err(m + 1)
                    } else {
                        Ok(m + 1)
                    }
                });
                Some(r.unwrap_or_else(|e| e))
            }),
            Adv::Take(k) => {
                let v = lib(|| it.by_ref().take(k).collect::<Vec<_>>())?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
            Adv::SkipOne(k) => {
                let v = lib(|| it.by_ref().skip(k).next())?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
            Adv::Count => lib(|| it.by_ref().count()).map(Some),
            Adv::Last => {
                let v = lib(|| it.by_ref().last())?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
        }
    }
    fn hint(&self) -> LR<(usize, Option<usize>)> {
        lib(|| self.it.size_hint())
    }
    fn len(&self) -> Option<LR<usize>> {
        self.len.map(|f| lib(|| f(&self.it)))
    }
    fn dup(&self) -> LR<Box<dyn DynIt<'a> + 'a>> {
        let it = lib(|| self.it.clone())?;
        Ok(Box::new(It {
            it,
            conv: self.conv,
            len: self.len,
        }))
    }
    fn fmt(&self, sink: &mut Sink, alt: bool) -> LR<fmt::Result> {
        lib(|| {
            if alt {
                write!(sink, "{:#?}", self.it)
            } else {
                write!(sink, "{:?}", self.it)
            }
        })
    }
    fn drain(self: Box<Self>, how: Drain, seen: &mut Vec<Item>) -> LR<Option<usize>> {
        let s = *self;
        let (c, it) = (s.conv, s.it);
        match how {
            Drain::ForEach => lib(|| it.for_each(|x| in_closure(|| seen.push(c(x))))).map(|_| None),
            Drain::Fold => lib(|| {
                it.fold(0usize, |n, x| {
                    in_closure(|| seen.push(c(x)));
                    n + 1
                })
            })
            .map(Some),
            Drain::Collect => {
                let v = lib(|| it.collect::<Vec<_>>())?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
            Drain::Last => {
                let v = lib(|| it.last())?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
            Drain::Count => lib(|| it.count()).map(Some),
            Drain::Nth(k) => {
                let mut it = it;
                let v = lib(|| {
                    let v = it.nth(k);
                    let w = it.next();
                    drop(it);
                    (v, w)
                })?;
                seen.extend(v.0.into_iter().map(c));
                seen.extend(v.1.into_iter().map(c));
                Ok(None)
            }
            Drain::All(k) => {
                let mut n = 0;
                let mut it = it;
                lib(|| {
                    it.all(|x| {
                        in_closure(|| seen.push(c(x)));
                        n += 1;
                        n <= k
                    })
                })?;
                let v = lib(|| {
                    let v = it.next();
                    drop(it);
                    v
                })?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
            Drain::StepBy(k) => {
                let v = lib(|| it.step_by(k + 1).collect::<Vec<_>>())?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
            Drain::Skip(k) => {
                let v = lib(|| it.skip(k).collect::<Vec<_>>())?;
                seen.extend(v.into_iter().map(c));
                Ok(None)
            }
            Drain::Drop => {
                ctx().strict_drop = true;
                let r = lib(|| drop(it)).map(|_| None);
                ctx().strict_drop = false;
                r
            }
        }
    }
}

fn mk_it<'a, I>(it: I, conv: fn(I::Item) -> Item, len: Option<fn(&I) -> usize>) -> Box<dyn DynIt<'a> + 'a>
where
    I: Iterator + Clone + Debug + 'a,
{
    Box::new(It { it, conv, len })
}
fn c_kv<K: SimK>((k, v): (&K, &SimVal)) -> Item {
    k.check();
    Item {
        k: Some(k.lit()),
        v: Some(v.get()),
    }
}
fn c_k<K: SimK>(k: &K) -> Item {
    k.check();
    Item {
        k: Some(k.lit()),
        v: None,
    }
}
fn c_v(v: &SimVal) -> Item {
    Item {
        k: None,
        v: Some(v.get()),
    }
}
fn c_own<K: SimK>(k: K) -> Item {
    k.check();
    Item {
        k: Some(k.lit()),
        v: None,
    }
}

// ---------------------------------------------------------------------------------------------
// maps

pub trait MapLike: Sized + Clone + 'static {
    type K: SimK;
    fn m_get(&self, k: &Self::K) -> Option<&SimVal>;
    fn m_get_kv(&self, k: &Self::K) -> Option<(&Self::K, &SimVal)>;
    fn m_get_mut(&mut self, k: &Self::K) -> Option<&mut SimVal>;
    fn m_many<const N: usize>(&mut self, k: [&Self::K; N]) -> Option<[&mut SimVal; N]>;
    fn m_contains(&self, k: &Self::K) -> bool;
    fn m_len(&self) -> usize;
    fn m_is_empty(&self) -> bool;
    fn m_iter(&self) -> sm::Iter<'_, Self::K, SimVal>;
    fn m_into(&self) -> sm::Iter<'_, Self::K, SimVal>;
    fn m_keys(&self) -> sm::Keys<'_, Self::K, SimVal>;
    fn m_values(&self) -> sm::Values<'_, Self::K, SimVal>;
    fn m_index(&self, k: Self::K) -> &SimVal;
    fn m_index_mut(&mut self, k: Self::K) -> &mut SimVal;
    fn m_eq(&self, o: &Self) -> bool;
    fn m_fmt(&self, s: &mut Sink, alt: bool) -> fmt::Result;
}

pub struct MObj<M>(M);

fn many_n<M: MapLike, const N: usize>(m: &mut M, keys: &[M::K], w: u64) -> LR<Option<Vec<(u64, usize)>>> {
    let arr: [&M::K; N] = std::array::from_fn(|i| &keys[i]);
    let r = lib(|| m.m_many::<N>(arr))?;
    Ok(r.map(|mut a| {
        let mut out = Vec::new();
        for r in a.iter_mut() {
            let p = &mut **r as *mut SimVal as usize;
            out.push((r.get(), p));
        }
        // write in reverse order: every write must survive the writes that follow it
        let mut ps: Vec<usize> = out.iter().map(|x| x.1).collect();
        ps.sort_unstable();
        ps.dedup();
        if w != 0 && ps.len() == out.len() {
            for (i, r) in a.iter_mut().enumerate().rev() {
                r.set(w + i as u64);
            }
        }
        out
    }))
}

impl<M: MapLike> Coll for MObj<M> {
    fn is_map(&self) -> bool {
        true
    }
    fn get(&self, k: &Lit) -> LR<Option<(Option<Lit>, Option<u64>)>> {
        let key = M::K::mk(k);
        lib(|| self.0.m_get(&key)).map(|o| o.map(|v| (None, Some(v.get()))))
    }
    fn get_kv(&self, k: &Lit) -> Option<LR<Option<(Lit, u64)>>> {
        let key = M::K::mk(k);
        Some(lib(|| self.0.m_get_kv(&key)).map(|o| {
            o.map(|(k, v)| {
                k.check();
                (k.lit(), v.get())
            })
        }))
    }
    fn get_mut(&mut self, k: &Lit, w: Option<u64>) -> Option<LR<Option<u64>>> {
        let key = M::K::mk(k);
        Some(lib(|| self.0.m_get_mut(&key)).map(|o| {
            o.map(|v| {
                let t = v.get();
                if let Some(w) = w {
                    v.set(w)
                }
                t
            })
        }))
    }
    fn index(&self, k: &Lit) -> Option<LR<u64>> {
        let key = M::K::mk(k);
        Some(lib(|| self.0.m_index(key)).map(|v| v.get()))
    }
    fn index_mut(&mut self, k: &Lit, w: Option<u64>) -> Option<LR<u64>> {
        let key = M::K::mk(k);
        Some(lib(|| self.0.m_index_mut(key)).map(|v| {
            let t = v.get();
            if let Some(w) = w {
                v.set(w)
            }
            t
        }))
    }
    fn many(&mut self, ks: &[Lit], w: u64) -> Option<LR<Option<Vec<(u64, usize)>>>> {
        let keys: Vec<M::K> = ks.iter().map(M::K::mk).collect();
        Some(match keys.len() {
            0 => many_n::<M, 0>(&mut self.0, &keys, w),
            1 => many_n::<M, 1>(&mut self.0, &keys, w),
            2 => many_n::<M, 2>(&mut self.0, &keys, w),
            3 => many_n::<M, 3>(&mut self.0, &keys, w),
            _ => many_n::<M, 5>(&mut self.0, &keys, w),
        })
    }
    fn contains(&self, k: &Lit) -> LR<bool> {
        let key = M::K::mk(k);
        lib(|| self.0.m_contains(&key))
    }
    fn len(&self) -> LR<usize> {
        lib(|| self.0.m_len())
    }
    fn is_empty(&self) -> LR<bool> {
        lib(|| self.0.m_is_empty())
    }
    fn iters<'a>(&'a self, which: u8) -> LR<Box<dyn DynIt<'a> + 'a>> {
        Ok(match which {
            1 => mk_it(lib(|| self.0.m_keys())?, c_k::<M::K>, Some(ExactSizeIterator::len)),
            2 => mk_it(lib(|| self.0.m_values())?, c_v, Some(ExactSizeIterator::len)),
            3 => mk_it(lib(|| self.0.m_into())?, c_kv::<M::K>, Some(ExactSizeIterator::len)),
            _ => mk_it(lib(|| self.0.m_iter())?, c_kv::<M::K>, Some(ExactSizeIterator::len)),
        })
    }
    fn clone_box(&self) -> LR<Box<dyn Coll>> {
        let m = lib(|| self.0.clone())?;
        Ok(Box::new(MObj(m)))
    }
    fn equal(&self, o: &dyn Coll) -> Option<LR<bool>> {
        let o = o.as_any().downcast_ref::<Self>()?;
        Some(lib(|| self.0.m_eq(&o.0)))
    }
    fn fmt(&self, sink: &mut Sink, alt: bool) -> Option<LR<fmt::Result>> {
        Some(lib(|| self.0.m_fmt(sink, alt)))
    }
    fn into_it(self: Box<Self>) -> Result<LR<Box<dyn DynIt<'static>>>, Box<dyn Coll>> {
        Err(self)
    }
    fn drop_in(self: Box<Self>) -> LR<()> {
        let m = self.0;
        lib(|| drop(m))
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

// ---------------------------------------------------------------------------------------------
// sets

pub trait SetLike: Sized + Clone + 'static + Set<Self::K>
where
    for<'a> <Self as Set<Self::K>>::Iterator<'a>: Clone + Debug,
{
    type K: SetK;
    const EXACT: bool;
    fn s_get(&self, k: &Self::K) -> Option<&Self::K>;
    fn s_contains(&self, k: &Self::K) -> bool;
    fn s_is_empty(&self) -> bool;
    fn s_into(&self) -> <Self as Set<Self::K>>::Iterator<'_>;
    fn s_len_it(i: &<Self as Set<Self::K>>::Iterator<'_>) -> usize;
    fn s_eq(&self, o: &Self) -> bool;
    fn s_eq_any(&self, o: &DynSet<'_, Self::K>) -> Option<bool>;
    fn s_fmt(&self, s: &mut Sink, alt: bool) -> Option<fmt::Result>;
    fn s_oper(&self, o: &DynSet<'_, Self::K>, w: Alg) -> Option<Vec<Self::K>>;
    fn s_consume(self) -> Result<Box<dyn DynIt<'static>>, Self>;
}

pub struct SObj<S>(S);

impl<S: SetLike> Coll for SObj<S>
where
    for<'a> <S as Set<S::K>>::Iterator<'a>: Clone + Debug,
{
    fn is_map(&self) -> bool {
        false
    }
    fn get(&self, k: &Lit) -> LR<Option<(Option<Lit>, Option<u64>)>> {
        let key = S::K::mk(k);
        lib(|| self.0.s_get(&key)).map(|o| {
            o.map(|e| {
                e.check();
                (Some(e.lit()), None)
            })
        })
    }
    fn contains(&self, k: &Lit) -> LR<bool> {
        let key = S::K::mk(k);
        let a = lib(|| self.0.s_contains(&key))?;
        Ok(a)
    }
    fn len(&self) -> LR<usize> {
        lib(|| Len::len(&self.0))
    }
    fn is_empty(&self) -> LR<bool> {
        lib(|| self.0.s_is_empty())
    }
    fn iters<'a>(&'a self, which: u8) -> LR<Box<dyn DynIt<'a> + 'a>> {
        let len: Option<fn(&<S as Set<S::K>>::Iterator<'a>) -> usize> = if S::EXACT { Some(S::s_len_it) } else { None };
        Ok(match which {
            3 => mk_it(lib(|| self.0.s_into())?, c_k::<S::K>, len),
            _ => mk_it(lib(|| Set::iter(&self.0))?, c_k::<S::K>, len),
        })
    }
    fn clone_box(&self) -> LR<Box<dyn Coll>> {
        let m = lib(|| self.0.clone())?;
        Ok(Box::new(SObj(m)))
    }
    fn equal(&self, o: &dyn Coll) -> Option<LR<bool>> {
        let o = o.as_any().downcast_ref::<Self>()?;
        Some(lib(|| self.0.s_eq(&o.0)))
    }
    fn fmt(&self, sink: &mut Sink, alt: bool) -> Option<LR<fmt::Result>> {
        match lib(|| self.0.s_fmt(sink, alt)) {
            Ok(None) => None,
            Ok(Some(r)) => Some(Ok(r)),
            Err(e) => Some(Err(e)),
        }
    }
    fn into_it(self: Box<Self>) -> Result<LR<Box<dyn DynIt<'static>>>, Box<dyn Coll>> {
        let s = self.0;
        match lib(|| s.s_consume()) {
            Err(e) => Ok(Err(e)),
            Ok(Ok(i)) => Ok(Ok(i)),
            Ok(Err(s)) => Err(Box::new(SObj(s))),
        }
    }
    fn drop_in(self: Box<Self>) -> LR<()> {
        let m = self.0;
        lib(|| drop(m))
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn erased(&self) -> Option<ERef<'_>> {
        Some(<S::K as SetK>::wrap(&self.0))
    }
    fn alg<'a>(&'a self, o: &'a dyn Coll, w: Alg) -> Option<LR<Box<dyn DynIt<'a> + 'a>>> {
        let e = <S::K as SetK>::unwrap(o.erased()?)?;
        let d: &'a DynSet<'a, S::K> = Box::leak(Box::new(DynSet(e)));
        Some((|| {
            Ok(match w {
                Alg::Union => mk_it(lib(|| self.0.union(d))?, c_k::<S::K> as fn(&'a S::K) -> Item, None),
                Alg::Inter => mk_it(lib(|| self.0.intersection(d))?, c_k::<S::K> as fn(&'a S::K) -> Item, None),
                Alg::Diff => mk_it(lib(|| self.0.difference(d))?, c_k::<S::K> as fn(&'a S::K) -> Item, None),
                Alg::Sym => mk_it(
                    lib(|| self.0.symmetric_difference(d))?,
                    c_k::<S::K> as fn(&'a S::K) -> Item,
                    None,
                ),
            })
        })())
    }
    fn rel(&self, o: &dyn Coll, w: Rel) -> Option<LR<bool>> {
        let e = <S::K as SetK>::unwrap(o.erased()?)?;
        let d = DynSet(e);
        Some(match w {
            Rel::Subset => lib(|| self.0.is_subset(&d)),
            Rel::Superset => lib(|| self.0.is_superset(&d)),
            Rel::Disjoint => lib(|| self.0.is_disjoint(&d)),
            Rel::SetEq => match lib(|| self.0.s_eq_any(&d)) {
                Ok(None) => return None,
                Ok(Some(b)) => Ok(b),
                Err(e) => Err(e),
            },
        })
    }
    fn oper(&self, o: &dyn Coll, w: Alg) -> Option<LR<Vec<Lit>>> {
        let e = <S::K as SetK>::unwrap(o.erased()?)?;
        let d = DynSet(e);
        match lib(|| self.0.s_oper(&d, w)) {
            Ok(None) => None,
            Ok(Some(v)) => Some(Ok(v
                .iter()
                .map(|k| {
                    k.check();
                    k.lit()
                })
                .collect())),
            Err(e) => Some(Err(e)),
        }
    }
}
