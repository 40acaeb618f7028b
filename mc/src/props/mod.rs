use crate::case::{Case, Ext, Op};
use crate::run::Ctx;
mod arith;
mod basic;
pub mod chain;
mod conv;
pub mod fmt;
pub mod math;
pub mod parse;

pub const ALL: &[&str] = &["A01","A02","A03","A04","A05","A06","A07","A08","A09","B01","B02","B03","B04","C01","C02","D01","D02","E01","E02","F01","F02","F03","F04","F05","F06","G01","H01","H02","H03","H04","H05","H06","S01","S02","N01"];

pub fn exts() -> Vec<&'static dyn Ext> {
    vec![&parse::Parse, &parse::ParseAll, &parse::ParseMid, &fmt::Fmt, &fmt::FmtF64, &fmt::RoundTrip, &fmt::FmtFault, &fmt::Dbg, &math::Fun1, &math::SinCos, &math::Atan2, &math::Const, &chain::Eft]
}
pub fn run(ctx: &Ctx) -> bool {
    if ctx.prop == "N01" {
        for p in ALL.iter().filter(|p| **p != "N01") {
            *ctx.part.lock().unwrap() = format!("{p}: ");
            one(ctx, p);
        }
        ctx.settle_suspects(&std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
        return true;
    }
    one(ctx, &ctx.prop)
}
fn one(ctx: &Ctx, prop: &str) -> bool {
    match prop {
        "A01" => arith::add_sub(ctx),
        "A02" => arith::mul(ctx),
        "A03" => arith::div(ctx),
        "A04" => arith::rem(ctx),
        "A05" => arith::fma(ctx),
        "A06" => arith::sos(ctx),
        "A07" => arith::sqrt(ctx),
        "A08" => arith::scale(ctx),
        "B01" => basic::compare(ctx),
        "B02" => basic::total(ctx),
        "B03" => basic::classify(ctx),
        "B04" => basic::select(ctx),
        "C01" => basic::integral(ctx),
        "C02" => basic::ulp(ctx),
        "A09" => conv::forms(ctx),
        "D01" => conv::from_prim(ctx),
        "D02" => conv::repr(ctx),
        "E01" => parse::decimal(ctx),
        "E02" => parse::grammar(ctx),
        "F01" => fmt::shortest(ctx),
        "F02" => fmt::precision(ctx),
        "F03" => fmt::flags(ctx),
        "F04" => fmt::round_trip(ctx),
        "F05" => fmt::debug(ctx),
        "F06" => fmt::faults(ctx),
        "G01" => math::constants(ctx),
        "H01" => math::logs(ctx),
        "H02" => math::sines(ctx),
        "H03" => math::tangent(ctx),
        "H04" => math::inverse(ctx),
        "H05" => math::atan2(ctx),
        "H06" => math::degrees(ctx),
        "S01" => chain::machine(ctx),
        "S02" => chain::identities(ctx),
        _ => return false,
    }
    true
}
pub fn c1(op: Op, a: crate::model::Bits) -> Case {
    Case::F(op, [a, (0, 0), (0, 0)], 0)
}
pub fn c2(op: Op, a: crate::model::Bits, b: crate::model::Bits) -> Case {
    Case::F(op, [a, b, (0, 0)], 0)
}
pub fn c3(op: Op, a: crate::model::Bits, b: crate::model::Bits, c: crate::model::Bits) -> Case {
    Case::F(op, [a, b, c], 0)
}
pub fn cn(op: Op, a: crate::model::Bits, n: u32) -> Case {
    Case::F(op, [a, (0, 0), (0, 0)], n)
}
