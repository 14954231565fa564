//! The checks, one per property.

pub mod cost;
pub mod meta;
pub mod more;
pub mod multi;
pub mod num;
pub mod parse;
pub mod pure;
pub mod round;

use crate::mon::Ctx;

pub fn run(ctx: &'static Ctx) -> bool {
    match ctx.id.as_str() {
        "C01" => parse::c01(ctx),
        "C02" => meta::c02(ctx),
        "C03" => num::c03(ctx),
        "C04" => parse::c04(ctx),
        "C05" => meta::c05(ctx),
        "C06" => meta::c06(ctx),
        "C07" => meta::c07(ctx),
        "C08" => meta::c08(ctx),
        "C09" => multi::c09(ctx),
        "C10" => num::c10(ctx),
        "C11" => num::c11(ctx),
        "C12" => num::c12(ctx),
        "C13" => round::c13(ctx),
        "C14" => round::c14(ctx),
        "C15" => round::c15(ctx),
        "C16" => num::c16(ctx),
        "C17" => num::c17(ctx),
        "C18" => parse::c18(ctx),
        "C19" => parse::c19(ctx),
        "C20" => parse::c20(ctx),
        "C21" => parse::c21(ctx),
        "C22" => num::c22(ctx),
        "C23" => num::c23(ctx),
        "C24" => multi::c24(ctx),
        "C25" => multi::c25(ctx),
        "C26" => parse::c26(ctx),
        "C27" => parse::c27(ctx),
        "C28" => parse::c28(ctx),
        "C29" => more::c29(ctx),
        "C30" => more::c30(ctx),
        "C31" => more::c31(ctx),
        "C32" => more::c32(ctx),
        "C33" => cost::c33(ctx),
        "C34" => cost::c34(ctx),
        "C35" => pure::c35(ctx),
        _ => return false,
    }
    true
}
