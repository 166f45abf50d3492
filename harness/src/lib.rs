#![allow(non_snake_case)]
#![allow(dead_code)]
#![cfg_attr(feature = "wf", feature(const_raw_ptr_to_usize_cast, label_break_value, main, ptr_wrapping_offset_from, register_tool))]
#[macro_use]
pub mod rt;
pub mod ctx;
pub mod names;
pub mod oracle;
pub mod dtd;
pub mod tpl;
pub mod env;
pub mod h_split;
pub mod h_doc;
pub mod h_enc;
pub mod h_susp;
pub mod h_reset;
pub mod h_oom;
pub mod h_pos;
pub mod h_api;
pub mod h_unk;
pub mod h_long;
pub mod h_ext;
pub mod h_mut;
pub mod h_raw;
pub mod h_nest;
pub mod h_count;
#[cfg(feature = "wf")]
#[macro_use]
pub mod vfs;
#[cfg(feature = "wf")]
#[path = "../../build/xmlwf/xmlwf.rs"]
pub mod xmlwf;
#[cfg(feature = "wf")]
pub mod h_wf;
