//! The analyses /repo exposes under `--cfg doodle_verif`; without it they are absent.
#![allow(unexpected_cfgs)]
use doodle::bounds::Bounds;
use doodle::{Expr, Format, FormatModule, ValueType};

#[cfg(doodle_verif)]
mod imp {
    use super::*;
    use doodle::verif;
    pub const PRESENT: bool = true;
    pub fn bounds_rem(a: Bounds, b: Bounds) -> Option<Bounds> {
        Some(verif::bounds_rem(a, b))
    }
    pub fn match_bounds(m: &FormatModule, f: &Format) -> Bounds {
        verif::match_bounds(m, f)
    }
    pub fn lookahead_bounds(m: &FormatModule, f: &Format) -> Bounds {
        verif::lookahead_bounds(m, f)
    }
    pub fn is_nullable(m: &FormatModule, f: &Format) -> bool {
        verif::is_nullable(m, f)
    }
    pub fn expr_bounds(e: &Expr) -> Bounds {
        verif::expr_bounds(e)
    }
    pub fn typed_bounds(m: &FormatModule, f: &Format) -> Option<(Bounds, Bounds)> {
        verif::typed_bounds(m, f)
    }
    pub fn infer_format_type(m: &FormatModule, f: &Format) -> Result<ValueType, String> {
        verif::infer_format_type(m, f)
    }
    pub fn name_history(h: &[(usize, Vec<(char, String)>)]) -> Vec<(String, String)> {
        verif::name_history(h)
    }
    pub fn show_expr(m: &FormatModule, e: &Expr) -> String {
        verif::show_expr(m, e)
    }
    pub fn show_num_expr(e: &doodle::numeric::core::Expr) -> String {
        verif::show_num_expr(e)
    }
}

#[cfg(not(doodle_verif))]
mod imp {
    use super::*;
    pub const PRESENT: bool = false;
    pub fn bounds_rem(_: Bounds, _: Bounds) -> Option<Bounds> {
        None
    }
    pub fn match_bounds(_: &FormatModule, _: &Format) -> Bounds {
        panic!("built without hooks")
    }
    pub fn lookahead_bounds(_: &FormatModule, _: &Format) -> Bounds {
        panic!("built without hooks")
    }
    pub fn is_nullable(_: &FormatModule, _: &Format) -> bool {
        panic!("built without hooks")
    }
    pub fn expr_bounds(_: &Expr) -> Bounds {
        panic!("built without hooks")
    }
    pub fn typed_bounds(_: &FormatModule, _: &Format) -> Option<(Bounds, Bounds)> {
        panic!("built without hooks")
    }
    pub fn infer_format_type(_: &FormatModule, _: &Format) -> Result<ValueType, String> {
        panic!("built without hooks")
    }
    pub fn name_history(_: &[(usize, Vec<(char, String)>)]) -> Vec<(String, String)> {
        panic!("built without hooks")
    }
    pub fn show_expr(_: &FormatModule, _: &Expr) -> String {
        panic!("built without hooks")
    }
    pub fn show_num_expr(_: &doodle::numeric::core::Expr) -> String {
        panic!("built without hooks")
    }
}
pub use imp::*;
