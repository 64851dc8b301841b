//! Symbolic harnesses. One module per property (feature p01, p02, ...).
#![allow(dead_code, unused_imports, unused_macros, static_mut_refs)]
pub mod common;
pub mod dialect;
pub mod kw;
pub mod p02ref;
pub mod patterns;
#[cfg(feature = "p21")]
pub mod sched;
pub mod sym;
macro_rules! entries {
    ($($f:literal $m:ident : $($e:ident),*;)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        /// (name, entry point) used by the native replay driver
        pub static ENTRIES: &[(&str, fn())] = &[
            $($(#[cfg(feature = $f)] (stringify!($e), $m::$e as fn()),)*)*
        ];
        pub mod c_entries {
            $($(#[cfg(feature = $f)] #[no_mangle] pub extern "C" fn $e() { super::$m::$e() })*)*
        }
    };
}
entries! {
    "p01" p01: p01_apply, p01_regex;
    "p02" p02: p02_overlap, p02_wide, p02_many;
    "p03" p03: p03_replacement, p03_config, p03_scan;
    "p04" p04: p04_scope, p04_regex, p04_many;
    "p05" p05: p05_included, p05_distance, p05_limits;
    "p06" p06: p06_excluded, p06_distance;
    "p07" p07: p07_luhn, p07_chinese, p07_nir, p07_nhs, p07_scan;
    "p08" p08: p08_github, p08_github_free, p08_iban, p08_jwt_exp, p08_jwt_shape;
    "p09" p09: p09_verdict, p09_quantifier, p09_depth, p09_total;
    "p10" p10: p10_pattern, p10_tokens, p10_posix, p10_range, p10_flags;
    "p11" p11: p11_scan, p11_large;
    "p12" p12: p12_path;
    "p13" p13: p13_rules;
    "p14" p14: p14_history, p14_events, p14_gc;
    "p15" p15: p15_http, p15_aws, p15_scan, p15_pair;
    "p16" p16: p16_multipass, p16_keywords;
    "p17" p17: p17_simple, p17_json, p17_hashmap;
    "p18" p18: p18_roundtrip, p18_wire, p18_scan, p18_refuse;
    "p19" p19: p19_history, p19_errors, p19_scan, p19_release, p19_paths;
    "p21" p21: p21_threads;
    "p20" p20: p20_scan, p20_life;
}
