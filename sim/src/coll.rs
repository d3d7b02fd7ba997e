//! Object-safe view of every collection type of the crate, so that one executor drives them all.
//! Every call into the crate goes through `lib`.

use crate::env::*;
use crate::plan::*;
use frozen_collections::len::Len;
use frozen_collections::slice_hash::SliceHash;
use frozen_collections::specialized_maps as sm;
use frozen_collections::specialized_sets as ss;
use frozen_collections::specialized_sets::Set;
use frozen_collections::{FrozenMap, FrozenSet};
use std::any::Any;
use std::collections::{BTreeSet, HashSet};
use std::fmt::{self, Debug, Write};
use std::hash::RandomState;

// ---------------------------------------------------------------------------------------------
// iterators

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub k: Option<Lit>,
    pub v: Option<u64>,
}

pub trait DynIt<'a> {
    fn next(&mut self) -> LR<Option<Item>>;
    /// moves on the given way; the items handed out, and the number returned
    fn adv(&mut self, how: Adv, seen: &mut Vec<Item>) -> LR<Option<usize>>;
    fn hint(&self) -> LR<(usize, Option<usize>)>;
    fn len(&self) -> Option<LR<usize>>;
    fn dup(&self) -> LR<Box<dyn DynIt<'a> + 'a>>;
    fn fmt(&self, sink: &mut Sink, alt: bool) -> LR<fmt::Result>;
    /// consumes the iterator the given way; the items seen by the consumer, and the number returned
    fn drain(self: Box<Self>, how: Drain, seen: &mut Vec<Item>) -> LR<Option<usize>>;
}

// ---------------------------------------------------------------------------------------------
// erased set operand

pub trait CloneIt<'a, T: 'a>: Iterator<Item = &'a T> {
    fn dup(&self) -> Box<dyn CloneIt<'a, T> + 'a>;
}
impl<'a, T: 'a, I: Iterator<Item = &'a T> + Clone + 'a> CloneIt<'a, T> for I {
    fn dup(&self) -> Box<dyn CloneIt<'a, T> + 'a> {
        Box::new(self.clone())
    }
}
pub struct BoxIt<'a, T: 'a>(Box<dyn CloneIt<'a, T> + 'a>);
impl<'a, T> Iterator for BoxIt<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, T> Clone for BoxIt<'a, T> {
    fn clone(&self) -> Self {
        BoxIt(self.0.dup())
    }
}
pub trait ErasedSet<T> {
    fn e_len(&self) -> usize;
    fn e_contains(&self, v: &T) -> bool;
    fn e_iter(&self) -> BoxIt<'_, T>;
}
impl<T, S> ErasedSet<T> for S
where
    S: Set<T>,
    for<'a> S::Iterator<'a>: Clone,
{
    fn e_len(&self) -> usize {
        Len::len(self)
    }
    fn e_contains(&self, v: &T) -> bool {
        Set::contains(self, v)
    }
    fn e_iter(&self) -> BoxIt<'_, T> {
        BoxIt(Box::new(Set::iter(self)))
    }
}
/// A user-implemented set: forwards to another one, with callbacks of its own that can fail.
pub struct DynSet<'x, T>(&'x dyn ErasedSet<T>);
impl<'x, T> Len for DynSet<'x, T> {
    fn len(&self) -> usize {
        {
            let _g = cb(Cb::SetLen);
        }
        self.0.e_len()
    }
}
impl<'x, T> Set<T> for DynSet<'x, T> {
    type Iterator<'a>
        = BoxIt<'a, T>
    where
        Self: 'a,
        T: 'a;
    fn iter(&self) -> BoxIt<'_, T> {
        {
            let _g = cb(Cb::SetIter);
        }
        self.0.e_iter()
    }
    fn contains(&self, v: &T) -> bool {
        {
            let _g = cb(Cb::SetContains);
        }
        self.0.e_contains(v)
    }
}

pub enum ERef<'a> {
    U8(&'a dyn ErasedSet<u8>),
    I8(&'a dyn ErasedSet<i8>),
    U32(&'a dyn ErasedSet<u32>),
    I64(&'a dyn ErasedSet<i64>),
    Str(&'a dyn ErasedSet<String>),
    Key(&'a dyn ErasedSet<SimKey>),
    SStr(&'a dyn ErasedSet<SimStr>),
}
pub trait SetK: SimK {
    fn wrap(r: &dyn ErasedSet<Self>) -> ERef<'_>;
    fn unwrap<'a>(r: ERef<'a>) -> Option<&'a dyn ErasedSet<Self>>;
}
macro_rules! setk {
    ($($t:ty, $v:ident);*) => {$(
        impl SetK for $t {
            fn wrap(r: &dyn ErasedSet<Self>) -> ERef<'_> { ERef::$v(r) }
            fn unwrap<'a>(r: ERef<'a>) -> Option<&'a dyn ErasedSet<Self>> { if let ERef::$v(x) = r { Some(x) } else { None } }
        }
    )*};
}
setk!(u8, U8; i8, I8; u32, U32; i64, I64; String, Str; SimKey, Key; SimStr, SStr);

// ---------------------------------------------------------------------------------------------
// the object-safe collection

pub trait Coll {
    fn is_map(&self) -> bool;
    /// value token (map) of the entry found; for sets the token is 0 and the literal is that of the element
    fn get(&self, k: &Lit) -> LR<Option<(Option<Lit>, Option<u64>)>>;
    fn get_kv(&self, _k: &Lit) -> Option<LR<Option<(Lit, u64)>>> {
        None
    }
    fn get_mut(&mut self, _k: &Lit, _w: Option<u64>) -> Option<LR<Option<u64>>> {
        None
    }
    fn index(&self, _k: &Lit) -> Option<LR<u64>> {
        None
    }
    fn index_mut(&mut self, _k: &Lit, _w: Option<u64>) -> Option<LR<u64>> {
        None
    }
    fn many(&mut self, _k: &[Lit], _w: u64) -> Option<LR<Option<Vec<(u64, usize)>>>> {
        None
    }
    fn contains(&self, k: &Lit) -> LR<bool>;
    fn len(&self) -> LR<usize>;
    fn is_empty(&self) -> LR<bool>;
    fn iters<'a>(&'a self, which: u8) -> LR<Box<dyn DynIt<'a> + 'a>>;
    fn clone_box(&self) -> LR<Box<dyn Coll>>;
    /// equality with a collection of the very same type
    fn equal(&self, o: &dyn Coll) -> Option<LR<bool>>;
    fn fmt(&self, sink: &mut Sink, alt: bool) -> Option<LR<fmt::Result>>;
    fn into_it(self: Box<Self>) -> Result<LR<Box<dyn DynIt<'static>>>, Box<dyn Coll>>;
    fn drop_in(self: Box<Self>) -> LR<()>;
    fn as_any(&self) -> &dyn Any;
    fn erased(&self) -> Option<ERef<'_>> {
        None
    }
    fn alg<'a>(&'a self, _o: &'a dyn Coll, _w: Alg) -> Option<LR<Box<dyn DynIt<'a> + 'a>>> {
        None
    }
    fn rel(&self, _o: &dyn Coll, _w: Rel) -> Option<LR<bool>> {
        None
    }
    fn oper(&self, _o: &dyn Coll, _w: Alg) -> Option<LR<Vec<Lit>>> {
        None
    }
    fn hint_bounds(&self) {}
}

macro_rules! maplike {
    ($t:ty, $k:ty) => {
        impl MapLike for $t {
            type K = $k;
            fn m_get(&self, k: &$k) -> Option<&SimVal> {
                self.get(k)
            }
            fn m_get_kv(&self, k: &$k) -> Option<(&$k, &SimVal)> {
                self.get_key_value(k)
            }
            fn m_get_mut(&mut self, k: &$k) -> Option<&mut SimVal> {
                self.get_mut(k)
            }
            fn m_many<const N: usize>(&mut self, k: [&$k; N]) -> Option<[&mut SimVal; N]> {
                self.get_many_mut(k)
            }
            fn m_contains(&self, k: &$k) -> bool {
                self.contains_key(k)
            }
            fn m_len(&self) -> usize {
                self.len()
            }
            fn m_is_empty(&self) -> bool {
                self.is_empty()
            }
            fn m_iter(&self) -> sm::Iter<'_, $k, SimVal> {
                self.iter()
            }
            fn m_into(&self) -> sm::Iter<'_, $k, SimVal> {
                self.into_iter()
            }
            fn m_keys(&self) -> sm::Keys<'_, $k, SimVal> {
                self.keys()
            }
            fn m_values(&self) -> sm::Values<'_, $k, SimVal> {
                self.values()
            }
            fn m_index(&self, k: $k) -> &SimVal {
                &self[k]
            }
            fn m_index_mut(&mut self, k: $k) -> &mut SimVal {
                &mut self[k]
            }
            fn m_eq(&self, o: &Self) -> bool {
                *self == *o
            }
            fn m_fmt(&self, s: &mut Sink, alt: bool) -> fmt::Result {
                if alt {
                    write!(s, "{:#?}", self)
                } else {
                    write!(s, "{:?}", self)
                }
            }
        }
    };
}

macro_rules! setlike {
    ($t:ty, $k:ty, $($opt:ident),*) => {
        impl SetLike for $t {
            type K = $k;
            const EXACT: bool = setlike!(@exact $($opt),*);
            fn s_get(&self, k: &$k) -> Option<&$k> {
                self.get(k)
            }
            fn s_contains(&self, k: &$k) -> bool {
                self.contains(k)
            }
            fn s_is_empty(&self) -> bool {
                self.is_empty()
            }
            fn s_into(&self) -> <Self as Set<$k>>::Iterator<'_> {
                self.into_iter()
            }
            fn s_len_it(i: &<Self as Set<$k>>::Iterator<'_>) -> usize {
                setlike!(@len i, $($opt),*)
            }
            fn s_eq(&self, o: &Self) -> bool {
                *self == *o
            }
            fn s_eq_any(&self, o: &DynSet<'_, $k>) -> Option<bool> {
                let _ = o;
                setlike!(@eqany self, o, $($opt),*)
            }
            fn s_fmt(&self, s: &mut Sink, alt: bool) -> Option<fmt::Result> {
                let _ = (&s, alt);
                setlike!(@fmt self, s, alt, $($opt),*)
            }
            fn s_oper(&self, o: &DynSet<'_, $k>, w: Alg) -> Option<Vec<$k>> {
                let _ = (o, w);
                setlike!(@oper self, o, w, $($opt),*)
            }
            fn s_consume(self) -> Result<Box<dyn DynIt<'static>>, Self> {
                setlike!(@consume self, $k, $($opt),*)
            }
        }
    };
    (@exact std $(,$o:ident)*) => { false };
    (@exact $($o:ident),*) => { true };
    (@len $i:ident, $($o:ident),*) => { ExactSizeIterator::len($i) };
    (@eqany $s:ident, $d:ident, spec) => { Some(*$s == *$d) };
    (@eqany $s:ident, $d:ident, $($o:ident),*) => { None };
    (@fmt $s:ident, $w:ident, $a:ident, spec) => { Some(if $a { write!($w, "{:#?}", $s) } else { write!($w, "{:?}", $s) }) };
    (@fmt $s:ident, $w:ident, $a:ident, $($o:ident),*) => { None };
    (@oper $s:ident, $d:ident, $w:ident, std) => { None };
    (@oper $s:ident, $d:ident, $w:ident, $($o:ident),*) => { Some(match $w {
        Alg::Union => ($s | $d).into_iter().collect(),
        Alg::Inter => ($s & $d).into_iter().collect(),
        Alg::Diff => ($s - $d).into_iter().collect(),
        Alg::Sym => ($s ^ $d).into_iter().collect(),
    }) };
    (@consume $s:ident, $k:ty, spec) => { {
        let i = $s.into_iter();
        let was = set_active(false);
        let b: Box<dyn DynIt<'static>> = mk_it(i, c_own::<$k>, Some(ExactSizeIterator::len));
        set_active(was);
        Ok(b)
    } };
    (@consume $s:ident, $k:ty, $($o:ident),*) => { Err($s) };
}

// ---------------------------------------------------------------------------------------------

// construction

pub struct BuildIn<'a> {
    pub spec: &'a BuildSpec,
}
fn payload<K: SimK>(s: &BuildSpec) -> Vec<(K, SimVal)> {
    let _t = Tracked::new();
    s.keys
        .iter()
        .enumerate()
        .map(|(i, l)| (K::mk(l), SimVal::new(s.val(i))))
        .collect()
}
fn payload_k<K: SimK>(s: &BuildSpec) -> Vec<K> {
    let _t = Tracked::new();
    s.keys.iter().map(K::mk).collect()
}
macro_rules! with_array {
    ($v:expr, $a:ident => $e:expr, $fallback:ident => $f:expr) => {{
        let v = $v;
        macro_rules! arm {
            ($n:literal) => {{
                let $a: [_; $n] = v.try_into().ok().unwrap();
                $e
            }};
        }
        match v.len() {
            0 => arm!(0),
            1 => arm!(1),
            3 => arm!(3),
            4 => arm!(4),
            6 => arm!(6),
            _ => {
                let $fallback = v;
                $f
            }
        }
    }};
}
fn bh(s: &BuildSpec) -> SimBH {
    SimBH {
        mode: s.bh.0,
        seed: s.bh.1,
    }
}
type B = LR<Box<dyn Coll>>;

macro_rules! ctor {
    // collection with an explicit hash builder
    (hashed, $t:ty, $k:ty, $w:ident, $pl:ident) => {
        |i: &BuildIn| -> B {
            let s = i.spec;
            let b = bh(s);
            let m = match s.ctor {
                Ctor::Vec => {
                    let p = $pl::<$k>(s);
                    lib(|| <$t>::from_vec_with_hasher(p, b))?
                }
                Ctor::Array => {
                    let p = $pl::<$k>(s);
                    with_array!(p, a => lib(|| <$t>::with_hasher(a, b))?, p => lib(|| <$t>::from_vec_with_hasher(p, b))?)
                }
                _ => {
                    let src = Source::new($pl::<$k>(s), s.hint, s.end_at);
                    lib(|| <$t>::from_iter_with_hasher(src, b))?
                }
            };
            Ok(Box::new($w(m)))
        }
    };
    // as above with Default
    (hashed_d, $t:ty, $k:ty, $w:ident, $pl:ident) => {
        |i: &BuildIn| -> B {
            if i.spec.ctor == Ctor::Default && i.spec.keys.is_empty() {
                let m = lib(|| <$t>::default())?;
                return Ok(Box::new($w(m)));
            }
            (ctor!(hashed, $t, $k, $w, $pl))(i)
        }
    };
    // RandomState constructors
    (plain, $t:ty, $k:ty, $w:ident, $pl:ident) => {
        |i: &BuildIn| -> B {
            let s = i.spec;
            let m = match s.ctor {
                Ctor::Vec => {
                    let p = $pl::<$k>(s);
                    lib(|| <$t>::from_vec(p))?
                }
                Ctor::Array => {
                    let p = $pl::<$k>(s);
                    with_array!(p, a => lib(|| <$t>::from(a))?, p => lib(|| <$t>::from_vec(p))?)
                }
                _ => {
                    let src = Source::new($pl::<$k>(s), s.hint, s.end_at);
                    lib(|| <$t>::from_iter(src))?
                }
            };
            Ok(Box::new($w(m)))
        }
    };
    // no array / iterator constructors
    (vec, $t:ty, $k:ty, $w:ident, $pl:ident) => {
        |i: &BuildIn| -> B {
            let p = $pl::<$k>(i.spec);
            let m = lib(|| <$t>::from_vec(p))?;
            Ok(Box::new($w(m)))
        }
    };
    (slice_h, $t:ty, $k:ty, $w:ident, $pl:ident) => {
        |i: &BuildIn| -> B {
            let s = i.spec;
            let b = bh(s);
            let r = s.range.0..s.range.1;
            let m = match s.ctor {
                Ctor::Vec => {
                    let p = $pl::<$k>(s);
                    lib(|| <$t>::from_vec_with_hasher(p, r, b))?
                }
                Ctor::Array => {
                    let p = $pl::<$k>(s);
                    with_array!(p, a => lib(|| <$t>::with_hasher(a, r, b))?, p => lib(|| <$t>::from_vec_with_hasher(p, r, b))?)
                }
                _ => {
                    let src = Source::new($pl::<$k>(s), s.hint, s.end_at);
                    lib(|| <$t>::from_iter_with_hasher(src, r, b))?
                }
            };
            Ok(Box::new($w(m)))
        }
    };
    (slice, $t:ty, $k:ty, $w:ident, $pl:ident) => {
        |i: &BuildIn| -> B {
            let s = i.spec;
            let r = s.range.0..s.range.1;
            let m = match s.ctor {
                Ctor::Vec => {
                    let p = $pl::<$k>(s);
                    lib(|| <$t>::from_vec(p, r))?
                }
                Ctor::Array => {
                    let p = $pl::<$k>(s);
                    with_array!(p, a => lib(|| <$t>::from(a, r))?, p => lib(|| <$t>::from_vec(p, r))?)
                }
                _ => {
                    let src = Source::new($pl::<$k>(s), s.hint, s.end_at);
                    lib(|| <$t>::from_iter(src, r))?
                }
            };
            Ok(Box::new($w(m)))
        }
    };
    // standard sets as operands
    (std, $t:ty, $k:ty, $w:ident, $pl:ident) => {
        |i: &BuildIn| -> B {
            let p = $pl::<$k>(i.spec);
            let m: $t = p.into_iter().collect();
            Ok(Box::new($w(m)))
        }
    };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fam {
    Frozen,
    Common,
    Int,
    Range,
    Left,
    Right,
    Length,
    Scan,
    Std,
}

pub struct Kind {
    pub name: &'static str,
    pub kty: KTy,
    pub fam: Fam,
    pub set: bool,
    /// uses the simulator's hash builder
    pub sim_bh: bool,
    pub cap: usize,
    pub build: fn(&BuildIn) -> B,
}

macro_rules! registry {
    ($( $kind:ident $how:ident $cap:literal $simbh:literal $fam:ident : $t:ty , $k:ty $(, $opt:ident)* ;)*) => {
        $( registry!(@imp $kind $t, $k $(, $opt)*); )*
        pub static KINDS: &[Kind] = &[
            $( Kind {
                name: stringify!($t),
                kty: <$k as SimK>::TY,
                fam: Fam::$fam,
                set: registry!(@set $kind),
                sim_bh: $simbh,
                cap: $cap,
                build: registry!(@ctor $kind $how $t, $k),
            } ),*
        ];
    };
    (@imp map $t:ty, $k:ty) => { maplike!($t, $k); };
    (@imp set $t:ty, $k:ty, $($opt:ident),*) => { setlike!($t, $k, $($opt),*); };
    (@set map) => { false };
    (@set set) => { true };
    (@ctor map $how:ident $t:ty, $k:ty) => { ctor!($how, $t, $k, MObj, payload) };
    (@ctor set $how:ident $t:ty, $k:ty) => { ctor!($how, $t, $k, SObj, payload_k) };
}


macro_rules! group {
    ($m:ident { $($t:tt)* }) => {
        mod $m {
            use super::*;
            include!("collg.rs");
            registry! { $($t)* }
        }
    };
}
group!(g0 {
    map hashed_d 0xffffffff true Frozen: FrozenMap<u32, SimVal, SimBH>, u32;
    map hashed 0xffffffff true Common: sm::CommonMap<SimKey, SimVal, usize, SimBH>, SimKey;
    map plain 255 false Int: sm::IntegerMap<usize, SimVal, u8>, usize;
    map slice_h 65535 true Left: sm::LeftSliceMap<SimStr, SimVal, u16, SimBH>, SimStr;
    set hashed_d 0xffffffff true Frozen: FrozenSet<u32, SimBH>, u32, frozen;
    set plain 65535 false Int: ss::IntegerSet<i64, u16>, i64, spec;
    set slice_h 255 true Right: ss::RightSliceSet<SimStr, u8, SimBH>, SimStr, spec;
});
group!(g1 {
    map plain 0xffffffff false Frozen: FrozenMap<u32, SimVal>, u32;
    map plain 255 false Common: sm::CommonMap<String, SimVal, u8>, String;
    map plain 0xffffffff false Range: sm::IntegerRangeMap<u8, SimVal>, u8;
    map slice_h 255 true Right: sm::RightSliceMap<String, SimVal, u8, SimBH>, String;
    set plain 0xffffffff false Frozen: FrozenSet<u32>, u32, frozen;
    set plain 255 false Int: ss::IntegerSet<u32, u8>, u32, spec;
    set plain 255 false Length: ss::LengthSet<String, u8>, String, spec;
});
group!(g2 {
    map hashed_d 0xffffffff true Frozen: FrozenMap<String, SimVal, SimBH>, String;
    map plain 0xffffffff false Common: sm::CommonMap<u32, SimVal, usize>, u32;
    map plain 0xffffffff false Range: sm::IntegerRangeMap<i8, SimVal>, i8;
    map slice 0xffffffff false Right: sm::RightSliceMap<String, SimVal, usize>, String;
    set hashed_d 0xffffffff true Frozen: FrozenSet<String, SimBH>, String, frozen;
    set plain 0xffffffff false Range: ss::IntegerRangeSet<u8>, u8, spec;
    set plain 65535 false Length: ss::LengthSet<SimStr, u16>, SimStr, spec;
});
group!(g3 {
    map plain 0xffffffff false Frozen: FrozenMap<String, SimVal>, String;
    map plain 255 false Int: sm::IntegerMap<u8, SimVal, u8>, u8;
    map plain 0xffffffff false Range: sm::IntegerRangeMap<u32, SimVal>, u32;
    map slice_h 65535 true Right: sm::RightSliceMap<SimStr, SimVal, u16, SimBH>, SimStr;
    set plain 0xffffffff false Frozen: FrozenSet<String>, String, frozen;
    set plain 0xffffffff false Range: ss::IntegerRangeSet<i8>, i8, spec;
    set plain 0xffffffff false Scan: ss::ScanningSet<SimKey>, SimKey, spec;
});
group!(g4 {
    map hashed_d 0xffffffff true Frozen: FrozenMap<SimKey, SimVal, SimBH>, SimKey;
    map plain 65535 false Int: sm::IntegerMap<i8, SimVal, u16>, i8;
    map plain 0xffffffff false Range: sm::IntegerRangeMap<i64, SimVal>, i64;
    map plain 255 false Length: sm::LengthMap<String, SimVal, u8>, String;
    set hashed_d 0xffffffff true Frozen: FrozenSet<SimKey, SimBH>, SimKey, frozen;
    set plain 0xffffffff false Range: ss::IntegerRangeSet<u32>, u32, spec;
    set plain 0xffffffff false Scan: ss::ScanningSet<u32>, u32, spec;
});
group!(g5 {
    map plain 0xffffffff false Frozen: FrozenMap<SimKey, SimVal>, SimKey;
    map plain 255 false Int: sm::IntegerMap<u32, SimVal, u8>, u32;
    map plain 0xffffffff false Range: sm::IntegerRangeMap<u64, SimVal>, u64;
    map vec 65535 false Length: sm::LengthMap<SimStr, SimVal, u16>, SimStr;
    set plain 0xffffffff false Frozen: FrozenSet<i64>, i64, frozen;
    set plain 0xffffffff false Range: ss::IntegerRangeSet<i64>, i64, spec;
    set std 0xffffffff true Std: HashSet<SimKey, SimBH>, SimKey, std;
});
group!(g6 {
    map hashed_d 0xffffffff true Frozen: FrozenMap<i64, SimVal, SimBH>, i64;
    map plain 0xffffffff false Int: sm::IntegerMap<i64, SimVal, usize>, i64;
    map plain 0xffffffff false Range: sm::IntegerRangeMap<i128, SimVal>, i128;
    map plain 0xffffffff false Scan: sm::ScanningMap<SimKey, SimVal>, SimKey;
    set hashed 255 true Common: ss::CommonSet<SimKey, u8, SimBH>, SimKey, spec;
    set slice_h 255 true Left: ss::LeftSliceSet<String, u8, SimBH>, String, spec;
    set std 0xffffffff true Std: HashSet<String, RandomState>, String, std;
});
group!(g7 {
    map hashed 255 true Common: sm::CommonMap<SimKey, SimVal, u8, SimBH>, SimKey;
    map plain 65535 false Int: sm::IntegerMap<u64, SimVal, u16>, u64;
    map slice_h 255 true Left: sm::LeftSliceMap<String, SimVal, u8, SimBH>, String;
    map plain 0xffffffff false Scan: sm::ScanningMap<String, SimVal>, String;
    set plain 0xffffffff false Common: ss::CommonSet<String, usize>, String, spec;
    set slice_h 65535 true Left: ss::LeftSliceSet<SimStr, u16, SimBH>, SimStr, spec;
    set std 0xffffffff true Std: BTreeSet<u32>, u32, std;
});
group!(g8 {
    map hashed 65535 true Common: sm::CommonMap<SimKey, SimVal, u16, SimBH>, SimKey;
    map plain 255 false Int: sm::IntegerMap<i128, SimVal, u8>, i128;
    map slice 0xffffffff false Left: sm::LeftSliceMap<String, SimVal, usize>, String;
    set plain 255 false Int: ss::IntegerSet<u8, u8>, u8, spec;
    set slice 0xffffffff false Right: ss::RightSliceSet<String, usize>, String, spec;
    set std 0xffffffff true Std: BTreeSet<SimKey>, SimKey, std;
});

/// Every collection type the simulator drives.
pub fn kinds() -> impl Iterator<Item = &'static Kind> {
    g0::KINDS.iter().chain(g1::KINDS.iter()).chain(g2::KINDS.iter()).chain(g3::KINDS.iter()).chain(g4::KINDS.iter()).chain(g5::KINDS.iter()).chain(g6::KINDS.iter()).chain(g7::KINDS.iter()).chain(g8::KINDS.iter())
}
pub fn kind(name: &str) -> &'static Kind {
    kinds()
       
        .find(|k| k.name == name)
        .unwrap_or_else(|| harness_error(&format!("unknown collection type {name}")))
}
#[allow(dead_code)]
fn _unused<K: SliceHash>(_: &K) {}

// ---------------------------------------------------------------------------------------------
// thread-safety probe: the types must stay shareable and sendable

pub struct Probe<T>(std::marker::PhantomData<T>);
pub trait NotSync {
    fn ok(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<T> {}
impl<T: Sync + Send> Probe<T> {
    pub fn ok(&self) -> bool {
        true
    }
}
macro_rules! probes {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), (&Probe::<$t>(std::marker::PhantomData)).ok())),*] };
}
/// Names of types that can no longer be shared between threads.
pub fn sync_probe() -> Vec<(&'static str, bool)> {
    #[allow(unused_imports)]
    use NotSync as _;
    probes![
        FrozenMap<u32, u64>,
        FrozenMap<String, u64>,
        FrozenSet<u32>,
        FrozenSet<String>,
        sm::CommonMap<u32, u64, u8>,
        sm::IntegerMap<u32, u64, u8>,
        sm::IntegerRangeMap<u32, u64>,
        sm::LeftSliceMap<String, u64, u8>,
        sm::RightSliceMap<String, u64, u8>,
        sm::LengthMap<String, u64, u8>,
        sm::ScanningMap<u32, u64>,
        ss::CommonSet<u32, u8>,
        ss::IntegerSet<u32, u8>,
        ss::IntegerRangeSet<u32>,
        ss::LeftSliceSet<String, u8>,
        ss::RightSliceSet<String, u8>,
        ss::LengthSet<String, u8>,
        ss::ScanningSet<u32>,
        sm::Iter<'static, u32, u64>,
        sm::Keys<'static, u32, u64>,
        sm::Values<'static, u32, u64>,
        ss::Iter<'static, u32>,
        ss::IntoIter<u32>,
    ]
}
