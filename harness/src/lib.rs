//! Harnesses: each entry point runs code of kul on inputs that are symbolic
//! when the symbolic executor runs it, and asserts part of a property.

#![allow(dead_code, unused_imports, unused_macros)]

pub mod sym;
pub mod model;
pub mod combs;
pub mod sources;
pub mod inmem;
pub mod trees;

type Table = &'static [(&'static str, fn(&[usize]))];

macro_rules! properties {
    ($($feature:literal $name:ident)*) => {
        $(#[cfg(feature = $feature)] pub mod $name;)*
        pub fn entries() -> Vec<(&'static str, fn(&[usize]))> {
            #[allow(unused_mut)]
            let mut v: Vec<Table> = vec![];
            $(#[cfg(feature = $feature)] v.push($name::ENTRIES);)*
            v.into_iter().flatten().copied().collect()
        }
    };
}

properties! {
    "k01" k01
    "k02" k02
    "k03" k03
    "k04" k04
    "k05" k05
    "k06" k06
    "k07" k07
    "k08" k08
    "k09" k09
    "k10" k10
    "k11" k11
    "k12" k12
    "k13" k13
    "k14" k14
    "k15" k15
    "k16" k16
    "k17" k17
    "k18" k18
    "k19" k19
    "k20" k20
    "k21" k21
    "k22" k22
    "k23" k23
    "k24" k24
    "k25" k25
    "k26" k26
    "k27" k27
}
