pub mod checks_lang;
pub mod explore;
pub mod families;
pub mod lang;
pub mod run;
pub mod term;
pub mod utf8;
pub mod c03_lookahead;
pub mod c05_contain;
pub mod c09_alphabet;
pub mod c18_words;
pub mod util;
pub mod pat;
pub mod c02_patterns;
pub mod c11_unicode;
pub mod c20_flags;
pub mod c10_json;
pub mod c22_mapper;
pub mod c24_hints;
pub mod c25_entry;
pub mod c27_stats;
pub mod c07_history;
pub mod c08_builder;
pub mod c14_repro;
pub mod c17_large;
