//! Entry points (`s_*`) into fawkes-crypto and independent statements of what they must compute
//! (`r_*`).  Nothing here is ever executed: both sides are only type-checked and analysed.
#![allow(dead_code, unused_variables, non_snake_case)]
pub mod prim;
pub mod raw;
pub mod gadget;
pub mod bits;
pub mod cecc;
pub mod necc;
pub mod hash;
pub mod composite;
pub mod numc;
pub mod groth;
pub mod param;
pub mod bindings;
