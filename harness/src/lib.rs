//! Symbolic harnesses, compiled to LLVM bitcode and executed symbolically by /verif/engine.
#![allow(unexpected_cfgs, dead_code, unused_imports, unused_macros)]
#[path = "../../props/sx_sym.rs"]
#[macro_use]
mod sx;
#[path = "../../props/props.rs"]
mod props;
