//! Analysis-only counters driven by callback answers.
use crate::interp::*;
use crate::state::*;
pub fn result(_i: &mut Interp<'_>, _st: &mut State, _name: &str, _args: &[Val], _r: i32) {}
