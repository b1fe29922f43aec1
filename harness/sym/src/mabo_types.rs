//! The runtime's own types.
use crate::wire::{Mark, Wire, prefixed};
use crate::{Same, Sym, assume};
use bytes::Bytes;
use mabo::NonZero;
use std::collections::{HashMap, HashSet};

impl Sym for Bytes {
    fn sym() -> Self {
        Bytes::from(Vec::<u8>::sym())
    }
}
impl Same for Bytes {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Wire for Bytes {
    fn wire(&self, out: &mut Vec<u8>) {
        prefixed(self, out)
    }
}
impl Mark for Bytes {
    const MARK: u32 = 1;
}
macro_rules! nz {
    ($([$($g:tt)*] $t:ty),*) => {$(
        impl<$($g)*> Sym for NonZero<$t> {
            fn sym() -> Self {
                let v = <$t>::sym();
                assume(!v.is_empty());
                let r = NonZero::<$t>::new(v);
                assume(r.is_some());
                r.unwrap()
            }
        }
    )*};
}
nz!([] String, [T: Sym] Vec<T>, [] Bytes, [K: Sym + Eq + std::hash::Hash, V: Sym] HashMap<K, V>, [T: Sym + Eq + std::hash::Hash] HashSet<T>);
impl<T: Same> Same for NonZero<T> {
    fn same(&self, o: &Self) -> bool {
        self.get().same(o.get())
    }
}
impl<T: Wire> Wire for NonZero<T> {
    fn wire(&self, out: &mut Vec<u8>) {
        self.get().wire(out)
    }
}
impl<T: Mark> Mark for NonZero<T> {
    const MARK: u32 = T::MARK;
}
