//! Properties of the parser and the printer.

use crate::{errors::Places, same, texts::*, walk::Walk};
use mabo_parser::Schema;

fn s01<const N: usize>(t: &[Text]) {
    fill_upto::<N>("", t, s01_one)
}
fn s01_ascii<const N: usize>(t: &[Text]) {
    fill_ascii::<N>("", t, s01_one)
}
fn s01_one(s: &str) {
    match Schema::parse(s, None) {
        Ok(x) => {
            sym::cover("accepted");
            let p = x.to_string();
            sym::observe(p.len() as u64);
        }
        Err(e) => {
            sym::cover("rejected");
            sym::observe(e.to_string().len() as u64);
        }
    }
}

/// A definition in front of the rejected one moves the locations away from the start.
const LEAD: &str = "/// \u{e9}\u{20ac}\nconst Z: u8 = 1;\n";

fn s02<const N: usize>(t: &[Text]) {
    let lead = if sym::bool() { LEAD } else { "" };
    fill_upto::<N>(lead, t, |s| match Schema::parse(s, None) {
        Ok(_) => sym::cover("accepted"),
        Err(e) => {
            sym::cover("rejected");
            Places { text: s, from: lead.len().saturating_sub(1) }.schema(&e);
        }
    })
}

fn s03<const N: usize>(t: &[Text]) {
    fill_upto::<N>(LEAD, t, |s| {
        if let Ok(x) = Schema::parse(s, None) {
            sym::cover("accepted");
            Walk::new(s).schema(&x);
        }
    })
}

fn s04<const N: usize>(t: &[Text]) {
    fill_upto::<N>("", t, s04_one)
}
fn s04_ascii<const N: usize>(t: &[Text]) {
    fill_ascii::<N>("", t, s04_one)
}
fn s04_one(s: &str) {
    if let Ok(a) = Schema::parse(s, None) {
        sym::cover("accepted");
        let p = a.to_string();
        let b = Schema::parse(&p, None);
        sym::check(b.is_ok(), "the printed schema is accepted");
        let b = b.unwrap();
        sym::check(same::schema(&a, &b), "the printed schema is the same");
        sym::check(b.to_string() == p, "printing again changes nothing");
    }
}

macro_rules! groups {
    ($f:ident, $($name:ident $n:literal $long:ident $m:literal $t:ident,)*) => {
        sym::harness! {
            $(fn $name() { $f::<$n>($t) }
            fn $long() { $f::<$m>($t) })*
        }
    };
}

pub mod total {
    use super::*;
    groups! { s01,
        s01_top 4 t_s01_top 5 TOP,
        s01_structs 4 t_s01_structs 5 STRUCTS,
        s01_generics 4 t_s01_generics 5 GENERICS,
        s01_enums 4 t_s01_enums 5 ENUMS,
        s01_modules 4 t_s01_modules 5 MODULES,
        s01_consts 3 t_s01_consts 4 CONSTS,
        s01_literals 3 t_s01_literals 4 LITERALS,
        s01_aliases 4 t_s01_aliases 5 ALIASES,
        s01_imports 4 t_s01_imports 5 IMPORTS,
        s01_comments 4 t_s01_comments 5 COMMENTS,
        s01_attributes 3 t_s01_attributes 4 ATTRIBUTES,
        s01_types 4 t_s01_types 5 TYPES,
        s01_compound 4 t_s01_compound 5 COMPOUND,
    }
}
pub mod total_strings {
    use super::*;
    sym::harness! {
        fn s01_strings() { s01_ascii::<2>(STRINGS) }
        fn s01_characters() { s01::<1>(STRINGS) }
        fn t_s01_strings() { s01::<2>(STRINGS) }
        fn s04_strings() { s04_ascii::<2>(STRINGS) }
        fn s04_characters() { s04::<1>(STRINGS) }
        fn t_s04_strings() { s04::<2>(STRINGS) }
    }
}
pub mod places {
    use super::*;
    groups! { s02,
        s02_top 4 t_s02_top 5 TOP,
        s02_structs 4 t_s02_structs 5 STRUCTS,
        s02_generics 4 t_s02_generics 5 GENERICS,
        s02_enums 4 t_s02_enums 5 ENUMS,
        s02_modules 4 t_s02_modules 5 MODULES,
        s02_consts 3 t_s02_consts 4 CONSTS,
        s02_literals 3 t_s02_literals 4 LITERALS,
        s02_strings 3 t_s02_strings 4 STRINGS,
        s02_aliases 4 t_s02_aliases 5 ALIASES,
        s02_imports 4 t_s02_imports 5 IMPORTS,
        s02_comments 4 t_s02_comments 5 COMMENTS,
        s02_attributes 3 t_s02_attributes 4 ATTRIBUTES,
        s02_types 4 t_s02_types 5 TYPES,
        s02_compound 4 t_s02_compound 5 COMPOUND,
    }
}
pub mod spans {
    use super::*;
    groups! { s03,
        s03_top 4 t_s03_top 5 TOP,
        s03_structs 4 t_s03_structs 5 STRUCTS,
        s03_generics 4 t_s03_generics 5 GENERICS,
        s03_enums 4 t_s03_enums 5 ENUMS,
        s03_modules 4 t_s03_modules 5 MODULES,
        s03_consts 3 t_s03_consts 4 CONSTS,
        s03_literals 3 t_s03_literals 4 LITERALS,
        s03_strings 3 t_s03_strings 4 STRINGS,
        s03_aliases 4 t_s03_aliases 5 ALIASES,
        s03_imports 4 t_s03_imports 5 IMPORTS,
        s03_comments 4 t_s03_comments 5 COMMENTS,
        s03_attributes 3 t_s03_attributes 4 ATTRIBUTES,
        s03_types 4 t_s03_types 5 TYPES,
        s03_compound 4 t_s03_compound 5 COMPOUND,
    }
}
pub mod print {
    use super::*;
    groups! { s04,
        s04_top 4 t_s04_top 5 TOP,
        s04_structs 4 t_s04_structs 5 STRUCTS,
        s04_generics 4 t_s04_generics 5 GENERICS,
        s04_enums 4 t_s04_enums 5 ENUMS,
        s04_modules 4 t_s04_modules 5 MODULES,
        s04_consts 3 t_s04_consts 4 CONSTS,
        s04_literals 3 t_s04_literals 4 LITERALS,
        s04_aliases 4 t_s04_aliases 5 ALIASES,
        s04_imports 4 t_s04_imports 5 IMPORTS,
        s04_comments 4 t_s04_comments 5 COMMENTS,
        s04_attributes 3 t_s04_attributes 4 ATTRIBUTES,
        s04_types 4 t_s04_types 5 TYPES,
        s04_compound 4 t_s04_compound 5 COMPOUND,
    }
}
