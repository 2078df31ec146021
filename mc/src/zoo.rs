//! Families of element types, by what can go wrong with them.
pub use crate::newt::*;
pub use crate::structs_few as few;
pub use crate::tok::*;
pub use varlen::prelude::*;
pub use varlen::seq::{CheckedIndexing as C, UncheckedIndexing as U};

/// one of each kind: byte-sized, tokens, over-aligned, zero-size, strings, tuples, wrappers, macro structs
#[macro_export]
macro_rules! zoo_small {
    ($f:ident $(, $a:expr)*) => {
        $f::<FixedLen<[u8; 3]>>($($a),*);
        $f::<FixedLen<TZ>>($($a),*);
        $f::<Array<u8, u8>>($($a),*);
        $f::<Array<T8, u16>>($($a),*);
        $f::<Str>($($a),*);
        $f::<Array<A64, u8>>($($a),*);
        $f::<Tup2<FixedLen<T16>, Array<T8, u8>>>($($a),*);
        $f::<Tup3<FixedLen<u8>, Array<u64, u16>, Str<u8>>>($($a),*);
        $f::<W<Array<T12, u8>>>($($a),*);
        $f::<few::SAe>($($a),*);
    };
}
#[macro_export]
macro_rules! zoo_rest {
    ($f:ident $(, $a:expr)*) => {
        $f::<FixedLen<u8>>($($a),*);
        $f::<FixedLen<u64>>($($a),*);
        $f::<FixedLen<T8>>($($a),*);
        $f::<FixedLen<T1>>($($a),*);
        $f::<FixedLen<()>>($($a),*);
        $f::<FixedLen<TZ16>>($($a),*);
        $f::<FixedLen<T64>>($($a),*);
        $f::<Array<u64, u8>>($($a),*);
        $f::<Array<u16, u32>>($($a),*);
        $f::<Array<T2, u64>>($($a),*);
        $f::<Array<[u8; 3], usize>>($($a),*);
        $f::<Array<(), u8>>($($a),*);
        $f::<Array<TZ, u16>>($($a),*);
        $f::<Array<T16, u8>>($($a),*);
        $f::<Str<u8>>($($a),*);
        $f::<Str<u16>>($($a),*);
        $f::<Str<u32>>($($a),*);
        $f::<Tup2<FixedLen<u32>, Str<u8>>>($($a),*);
        $f::<Tup2<Array<u16, u8>, Array<T8, u8>>>($($a),*);
        $f::<Tup4<Str<u8>, Array<T2, u8>, FixedLen<A64>, Array<u8, u8>>>($($a),*);
        $f::<Tup5<FixedLen<u8>, Array<T8, u8>, Str<u16>, FixedLen<T12>, Array<u64, u8>>>($($a),*);
        $f::<Tup2<Tup2<FixedLen<u8>, Array<T8, u8>>, Tup2<Str<u8>, FixedLen<u64>>>>($($a),*);
        $f::<Words>($($a),*);
        $f::<Pair<u8, T8>>($($a),*);
        $f::<few::SAa>($($a),*);
        $f::<few::SAb>($($a),*);
        $f::<few::SAc>($($a),*);
        $f::<few::SAd>($($a),*);
        $f::<few::SAf>($($a),*);
        $f::<few::SAg>($($a),*);
    };
}
/// types that hold values with destructors
#[macro_export]
macro_rules! zoo_tok {
    ($f:ident $(, $a:expr)*) => {
        $f::<FixedLen<T8>>($($a),*);
        $f::<FixedLen<TZ>>($($a),*);
        $f::<Array<T8, u16>>($($a),*);
        $f::<Array<T12, u8>>($($a),*);
        $f::<Tup2<FixedLen<T16>, Array<T8, u8>>>($($a),*);
        $f::<Tup3<FixedLen<u8>, Array<T8, u16>, Str<u8>>>($($a),*);
        $f::<W<Array<T12, u8>>>($($a),*);
        $f::<few::SAd>($($a),*);
    };
}
#[macro_export]
macro_rules! zoo_tok_rest {
    ($f:ident $(, $a:expr)*) => {
        $f::<FixedLen<T1>>($($a),*);
        $f::<FixedLen<T2>>($($a),*);
        $f::<FixedLen<T12>>($($a),*);
        $f::<FixedLen<T16>>($($a),*);
        $f::<FixedLen<T64>>($($a),*);
        $f::<FixedLen<TZ16>>($($a),*);
        $f::<Array<T2, u8>>($($a),*);
        $f::<Array<T16, usize>>($($a),*);
        $f::<Array<TZ, u16>>($($a),*);
        $f::<Array<T64, u8>>($($a),*);
        $f::<Tup2<Array<T8, u8>, FixedLen<T12>>>($($a),*);
        $f::<Tup2<FixedLen<u8>, FixedLen<T8>>>($($a),*);
        $f::<Tup2<FixedLen<T8>, FixedLen<u8>>>($($a),*);
        $f::<Tup3<FixedLen<T8>, Str<u8>, FixedLen<T2>>>($($a),*);
        $f::<Tup3<Str<u8>, Array<u16, u8>, Array<T8, u8>>>($($a),*);
        $f::<Tup3<Array<T2, u8>, Str<u8>, Str<u8>>>($($a),*);
        $f::<Tup4<FixedLen<T8>, Array<T2, u8>, FixedLen<T16>, Array<T8, u8>>>($($a),*);
        $f::<Tup4<Str<u8>, Str<u8>, FixedLen<T8>, Str<u8>>>($($a),*);
        $f::<Tup4<Str<u8>, FixedLen<T8>, Str<u8>, FixedLen<u64>>>($($a),*);
        $f::<Tup5<FixedLen<u8>, Array<T8, u8>, Str<u16>, FixedLen<T12>, Array<u64, u8>>>($($a),*);
        $f::<Tup5<FixedLen<T2>, FixedLen<T8>, FixedLen<T12>, FixedLen<T16>, FixedLen<T64>>>($($a),*);
        $f::<Tup5<Str<u8>, Str<u8>, Str<u8>, FixedLen<T8>, Str<u8>>>($($a),*);
        $f::<Tup2<Tup2<FixedLen<u8>, Array<T8, u8>>, Tup2<Str<u8>, FixedLen<T2>>>>($($a),*);
        $f::<W<FixedLen<T8>>>($($a),*);
        $f::<W<W<Tup2<Str<u8>, Array<T8, u8>>>>>($($a),*);
        $f::<Words>($($a),*);
        $f::<Pair<u8, T8>>($($a),*);
        $f::<few::SAf>($($a),*);
        $f::<few::SAg>($($a),*);
    };
}
/// every pair, and triples, of kinds of part with different alignment needs
#[macro_export]
macro_rules! zoo_layout {
    ($f:ident $(, $a:expr)*) => {
        $f::<Tup2<FixedLen<u8>, FixedLen<u8>>>($($a),*);
        $f::<Tup2<FixedLen<u8>, FixedLen<u64>>>($($a),*);
        $f::<Tup2<FixedLen<u8>, Array<u16, u8>>>($($a),*);
        $f::<Tup2<FixedLen<u8>, Array<u8, u32>>>($($a),*);
        $f::<Tup2<FixedLen<u8>, Array<A16, u8>>>($($a),*);
        $f::<Tup2<FixedLen<u8>, Str<u8>>>($($a),*);
        $f::<Tup2<FixedLen<u64>, FixedLen<u8>>>($($a),*);
        $f::<Tup2<FixedLen<u64>, FixedLen<u64>>>($($a),*);
        $f::<Tup2<FixedLen<u64>, Array<u16, u8>>>($($a),*);
        $f::<Tup2<FixedLen<u64>, Array<u8, u32>>>($($a),*);
        $f::<Tup2<FixedLen<u64>, Array<A16, u8>>>($($a),*);
        $f::<Tup2<FixedLen<u64>, Str<u8>>>($($a),*);
        $f::<Tup2<Array<u16, u8>, FixedLen<u8>>>($($a),*);
        $f::<Tup2<Array<u16, u8>, FixedLen<u64>>>($($a),*);
        $f::<Tup2<Array<u16, u8>, Array<u16, u8>>>($($a),*);
        $f::<Tup2<Array<u16, u8>, Array<u8, u32>>>($($a),*);
        $f::<Tup2<Array<u16, u8>, Array<A16, u8>>>($($a),*);
        $f::<Tup2<Array<u16, u8>, Str<u8>>>($($a),*);
        $f::<Tup2<Array<u8, u32>, FixedLen<u8>>>($($a),*);
        $f::<Tup2<Array<u8, u32>, FixedLen<u64>>>($($a),*);
        $f::<Tup2<Array<u8, u32>, Array<u16, u8>>>($($a),*);
        $f::<Tup2<Array<u8, u32>, Array<u8, u32>>>($($a),*);
        $f::<Tup2<Array<u8, u32>, Array<A16, u8>>>($($a),*);
        $f::<Tup2<Array<u8, u32>, Str<u8>>>($($a),*);
        $f::<Tup2<Array<A16, u8>, FixedLen<u8>>>($($a),*);
        $f::<Tup2<Array<A16, u8>, FixedLen<u64>>>($($a),*);
        $f::<Tup2<Array<A16, u8>, Array<u16, u8>>>($($a),*);
        $f::<Tup2<Array<A16, u8>, Array<u8, u32>>>($($a),*);
        $f::<Tup2<Array<A16, u8>, Array<A16, u8>>>($($a),*);
        $f::<Tup2<Array<A16, u8>, Str<u8>>>($($a),*);
        $f::<Tup2<Str<u8>, FixedLen<u8>>>($($a),*);
        $f::<Tup2<Str<u8>, FixedLen<u64>>>($($a),*);
        $f::<Tup2<Str<u8>, Array<u16, u8>>>($($a),*);
        $f::<Tup2<Str<u8>, Array<u8, u32>>>($($a),*);
        $f::<Tup2<Str<u8>, Array<A16, u8>>>($($a),*);
        $f::<Tup2<Str<u8>, Str<u8>>>($($a),*);
        $f::<Tup3<FixedLen<u16>, FixedLen<u16>, FixedLen<u16>>>($($a),*);
        $f::<Tup3<FixedLen<u16>, FixedLen<u16>, Array<u32, u8>>>($($a),*);
        $f::<Tup3<FixedLen<u16>, FixedLen<u16>, Array<u8, u16>>>($($a),*);
        $f::<Tup3<FixedLen<u16>, Array<u32, u8>, FixedLen<u16>>>($($a),*);
        $f::<Tup3<FixedLen<u16>, Array<u32, u8>, Array<u32, u8>>>($($a),*);
        $f::<Tup3<FixedLen<u16>, Array<u32, u8>, Array<u8, u16>>>($($a),*);
        $f::<Tup3<FixedLen<u16>, Array<u8, u16>, FixedLen<u16>>>($($a),*);
        $f::<Tup3<FixedLen<u16>, Array<u8, u16>, Array<u32, u8>>>($($a),*);
        $f::<Tup3<FixedLen<u16>, Array<u8, u16>, Array<u8, u16>>>($($a),*);
        $f::<Tup3<Array<u32, u8>, FixedLen<u16>, FixedLen<u16>>>($($a),*);
        $f::<Tup3<Array<u32, u8>, FixedLen<u16>, Array<u32, u8>>>($($a),*);
        $f::<Tup3<Array<u32, u8>, FixedLen<u16>, Array<u8, u16>>>($($a),*);
        $f::<Tup3<Array<u32, u8>, Array<u32, u8>, FixedLen<u16>>>($($a),*);
        $f::<Tup3<Array<u32, u8>, Array<u32, u8>, Array<u32, u8>>>($($a),*);
        $f::<Tup3<Array<u32, u8>, Array<u32, u8>, Array<u8, u16>>>($($a),*);
        $f::<Tup3<Array<u32, u8>, Array<u8, u16>, FixedLen<u16>>>($($a),*);
        $f::<Tup3<Array<u32, u8>, Array<u8, u16>, Array<u32, u8>>>($($a),*);
        $f::<Tup3<Array<u32, u8>, Array<u8, u16>, Array<u8, u16>>>($($a),*);
        $f::<Tup3<Array<u8, u16>, FixedLen<u16>, FixedLen<u16>>>($($a),*);
        $f::<Tup3<Array<u8, u16>, FixedLen<u16>, Array<u32, u8>>>($($a),*);
        $f::<Tup3<Array<u8, u16>, FixedLen<u16>, Array<u8, u16>>>($($a),*);
        $f::<Tup3<Array<u8, u16>, Array<u32, u8>, FixedLen<u16>>>($($a),*);
        $f::<Tup3<Array<u8, u16>, Array<u32, u8>, Array<u32, u8>>>($($a),*);
        $f::<Tup3<Array<u8, u16>, Array<u32, u8>, Array<u8, u16>>>($($a),*);
        $f::<Tup3<Array<u8, u16>, Array<u8, u16>, FixedLen<u16>>>($($a),*);
        $f::<Tup3<Array<u8, u16>, Array<u8, u16>, Array<u32, u8>>>($($a),*);
        $f::<Tup3<Array<u8, u16>, Array<u8, u16>, Array<u8, u16>>>($($a),*);
        $f::<Tup4<Array<u8, u8>, Array<u16, u8>, Array<u32, u16>, FixedLen<A16>>>($($a),*);
        $f::<Tup5<Array<u8, u8>, Array<u16, u8>, Array<u32, u16>, FixedLen<A16>, Str<u16>>>($($a),*);
        $f::<Tup2<Array<u8, u8>, Tup2<Array<u16, u8>, Array<u32, u16>>>>($($a),*);
        $f::<Tup3<Tup2<Array<u8, u8>, Array<u16, u8>>, Array<u32, u16>, W<FixedLen<A16>>>>($($a),*);
        $f::<Tup4<Array<u16, u8>, Array<u32, u16>, FixedLen<A16>, Str<u16>>>($($a),*);
        $f::<Tup5<Array<u16, u8>, Array<u32, u16>, FixedLen<A16>, Str<u16>, Array<u8, u8>>>($($a),*);
        $f::<Tup2<Array<u16, u8>, Tup2<Array<u32, u16>, FixedLen<A16>>>>($($a),*);
        $f::<Tup3<Tup2<Array<u16, u8>, Array<u32, u16>>, FixedLen<A16>, W<Str<u16>>>>($($a),*);
        $f::<Tup4<Array<u32, u16>, FixedLen<A16>, Str<u16>, Array<u8, u8>>>($($a),*);
        $f::<Tup5<Array<u32, u16>, FixedLen<A16>, Str<u16>, Array<u8, u8>, Array<u16, u8>>>($($a),*);
        $f::<Tup2<Array<u32, u16>, Tup2<FixedLen<A16>, Str<u16>>>>($($a),*);
        $f::<Tup3<Tup2<Array<u32, u16>, FixedLen<A16>>, Str<u16>, W<Array<u8, u8>>>>($($a),*);
        $f::<Tup4<FixedLen<A16>, Str<u16>, Array<u8, u8>, Array<u16, u8>>>($($a),*);
        $f::<Tup5<FixedLen<A16>, Str<u16>, Array<u8, u8>, Array<u16, u8>, Array<u32, u16>>>($($a),*);
        $f::<Tup2<FixedLen<A16>, Tup2<Str<u16>, Array<u8, u8>>>>($($a),*);
        $f::<Tup3<Tup2<FixedLen<A16>, Str<u16>>, Array<u8, u8>, W<Array<u16, u8>>>>($($a),*);
        $f::<Tup4<Str<u16>, Array<u8, u8>, Array<u16, u8>, Array<u32, u16>>>($($a),*);
        $f::<Tup5<Str<u16>, Array<u8, u8>, Array<u16, u8>, Array<u32, u16>, FixedLen<A16>>>($($a),*);
        $f::<Tup2<Str<u16>, Tup2<Array<u8, u8>, Array<u16, u8>>>>($($a),*);
        $f::<Tup3<Tup2<Str<u16>, Array<u8, u8>>, Array<u16, u8>, W<Array<u32, u16>>>>($($a),*);
    };
}

use crate::subj::{Kind, Subj};
/// Shapes of T with the lengths of the variable parts drawn from a set as large as `cap` allows.
pub fn shapes_upto<T: Subj>(cap: usize) -> Vec<Vec<usize>> {
    crate::alloc::host(|| {
        let mut ks = vec![];
        T::kinds(&mut ks);
        let n = ks.iter().filter(|k| matches!(k, Kind::Arr(..) | Kind::Str(..) | Kind::Ctl)).count().max(1) as u32;
        let all: Vec<usize> = (0..=70).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 1023, 1025, 4097, 32767, 32769, 65535, 65537]).collect();
        // small values with destructors have few identities to tell them apart by
        let mut tk = vec![];
        T::toks(&mut tk);
        let all: Vec<usize> = if tk.contains(&true) { all.into_iter().filter(|&l| l <= 300).collect() } else { all };
        let sets: [&[usize]; 9] = [&all, &all[..40], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13], &[0, 1, 2, 3, 4, 7, 8], &[0, 1, 2, 3, 5], &[0, 1, 2, 5], &[0, 1, 3], &[0, 1]];
        for s in sets {
            if s.len().checked_pow(n).map_or(false, |x| x <= cap) {
                let v = T::shapes(s);
                if v.len() <= cap {
                    return v;
                }
            }
        }
        T::shapes(&[0, 1])
    })
}
