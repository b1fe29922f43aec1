//! The declarations of the schema, written down a second time as the oracle.

pub use sym::wire::{Composite, Mark, Part, Parts, Wire};
pub use sym::{Focus, Same, Sym};

pub fn same_type<A: 'static, B: 'static>(_: &A) -> bool {
    std::any::TypeId::of::<A>() == std::any::TypeId::of::<B>()
}

pub fn part<T: Mark>(v: &T, id: u32, name: Option<&'static str>) -> Part {
    let mut bytes = Vec::new();
    v.field(id, &mut bytes);
    Part { id, name, optional: T::OPTIONAL, slack: v.slack(), bytes }
}

/// A field whose type is a type parameter: always marked as a composite, whatever it stands for.
pub struct Param<'a, T>(pub &'a T);
impl<T: Wire> Wire for Param<'_, T> {
    fn wire(&self, out: &mut Vec<u8>) {
        self.0.wire(out)
    }
}
impl<T: Wire> Mark for Param<'_, T> {
    const MARK: u32 = 1;
}
macro_rules! as_field {
    ($f:expr, param) => { &Param($f) };
    ($f:expr, option) => { &$f.as_ref().map(Param) };
    ($f:expr,) => { $f };
}

/// What a type parameter can be.
pub trait Val: Sym + Same + Wire + Mark + 'static {}
impl<T: Sym + Same + Wire + Mark + 'static> Val for T {}

/// Structs: `[generics] type { field: type = number, .. }`, unnamed ones with `(index name: ..)`.
macro_rules! structs {
    ($([$($g:ident),*] $t:ty { $($f:ident : $ft:ty = $id:literal $($p:ident)?),* $(,)? })*) => {$(
        impl<$($g: Val),*> Sym for $t {
            fn sym() -> Self {
                let mut focus = Focus::of([$($id as u32),*].len());
                Self { $($f: focus.part()),* }
            }
        }
        impl<$($g: Val),*> Same for $t {
            fn same(&self, o: &Self) -> bool { true $(&& self.$f.same(&o.$f))* }
        }
        impl<$($g: Val),*> Composite for $t {
            fn parts(&self) -> Parts {
                Parts { variant: None, ended: true, fields: vec![$(part(as_field!(&self.$f, $($p)?), $id, Some(stringify!($f)))),*] }
            }
            fn variants() -> &'static [u32] { &[] }
            fn typed(&self) -> bool { true $(&& same_type::<_, $ft>(&self.$f))* }
        }
        composite!([$($g),*] $t);
    )*};
}
macro_rules! tuple_structs {
    ($([$($g:ident),*] $t:ty = $c:path { $($f:tt $v:ident : $ft:ty = $id:literal),* $(,)? })*) => {$(
        impl<$($g: Val),*> Sym for $t {
            fn sym() -> Self {
                let mut focus = Focus::of([$($id as u32),*].len());
                $(let $v = focus.part();)*
                $c($($v),*)
            }
        }
        impl<$($g: Val),*> Same for $t {
            fn same(&self, o: &Self) -> bool { true $(&& self.$f.same(&o.$f))* }
        }
        impl<$($g: Val),*> Composite for $t {
            fn parts(&self) -> Parts {
                Parts { variant: None, ended: true, fields: vec![$(part(&self.$f, $id, None)),*] }
            }
            fn variants() -> &'static [u32] { &[] }
            fn typed(&self) -> bool { true $(&& same_type::<_, $ft>(&self.$f))* }
        }
        composite!([$($g),*] $t);
    )*};
}
macro_rules! unit_structs {
    ($($t:path;)*) => {$(
        impl Sym for $t {
            fn sym() -> Self { $t }
        }
        impl Same for $t {
            fn same(&self, _: &Self) -> bool { true }
        }
        impl Composite for $t {
            fn parts(&self) -> Parts { Parts { variant: None, ended: false, fields: vec![] } }
            fn variants() -> &'static [u32] { &[] }
            fn typed(&self) -> bool { true }
        }
        composite!([] $t);
    )*};
}
/// Enums: `[generics] type { number Name, number Name(a: type = number), number Name { field: type = number } }`.
macro_rules! enums {
    ($([$($g:ident),*] $t:ty { $($vid:literal $v:ident $(($($a:ident : $at:ty = $aid:literal $($ap:ident)?),*))? $({$($b:ident : $bt:ty = $bid:literal $($bp:ident)?),*})?),* $(,)? })*) => {$(
        impl<$($g: Val),*> Sym for $t {
            fn sym() -> Self {
                let k = sym::below([$($vid as u32),*].len() as u8);
                let mut i = 0;
                $(
                    if k == i {
                        #[allow(unused)]
                        let mut focus = Focus::of(0 $( + [$($aid as u32),*].len())? $( + [$($bid as u32),*].len())?);
                        $($(let $a: $at = focus.part();)*)?
                        return Self::$v $(($($a),*))? $({$($b: focus.part()),*})?;
                    }
                    i += 1;
                )*
                let _ = i;
                unreachable!()
            }
        }
        impl<$($g: Val),*> Same for $t {
            fn same(&self, o: &Self) -> bool {
                let (p, q) = (self.parts(), o.parts());
                // Same variant, and every field the same on the wire (which is injective).
                p.variant == q.variant && p.fields.len() == q.fields.len() && p.fields.iter().zip(&q.fields).all(|(a, b)| a.bytes == b.bytes)
            }
        }
        impl<$($g: Val),*> Composite for $t {
            fn parts(&self) -> Parts {
                match self {
                    $(Self::$v $(($($a),*))? $({$($b),*})? => {
                        #[allow(unused_mut)]
                        let mut fields = vec![];
                        #[allow(unused_mut)]
                        let mut ended = false;
                        $($(fields.push(part(as_field!($a, $($ap)?), $aid, None));)* ended = true;)?
                        $($(fields.push(part(as_field!($b, $($bp)?), $bid, Some(stringify!($b))));)* ended = true;)?
                        Parts { variant: Some($vid), fields, ended }
                    })*
                }
            }
            fn variants() -> &'static [u32] { &[$($vid),*] }
            fn typed(&self) -> bool {
                match self {
                    $(Self::$v $(($($a),*))? $({$($b),*})? => true $($(&& same_type::<_, $at>($a))*)? $($(&& same_type::<_, $bt>($b))*)?,)*
                }
            }
        }
        composite!([$($g),*] $t);
    )*};
}
macro_rules! composite {
    ([$($g:ident),*] $t:ty) => {
        impl<$($g: Val),*> Wire for $t {
            fn wire(&self, out: &mut Vec<u8>) { self.parts().wire(out) }
        }
        impl<$($g: Val),*> Mark for $t {
            const MARK: u32 = 1;
        }
    };
}
