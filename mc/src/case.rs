//! One case = one operation of the public API with concrete arguments; it can
//! be evaluated on the implementation and on the reference model.
use crate::model::{self as m, Bits, Rm};
use core::cmp::Ordering;
use f256::f256;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// a float; all NaNs are the same
    F(Bits),
    /// a float, NaN payload and sign included
    Raw(Bits),
    F2(Bits, Bits),
    B(bool),
    O(Option<Ordering>),
    I(i64),
    S(String),
    E(String),
    V(Vec<u8>),
    /// the documented panic
    Panics,
    Panic(String),
    /// model only: either zero is fine
    AnyZero,
    /// model only: one of several texts
    OneOf(Vec<String>),
    /// model only: one of two floats
    Either(Bits, Bits),
    /// model only: a float of the same sign, at most n places away
    Near(Bits, u64),
}
fn canon(b: Bits) -> Bits {
    if m::is_nan(b) {
        m::NAN
    } else {
        b
    }
}
pub fn bt(b: Bits) -> String {
    format!("{:032x}:{:032x}", b.0, b.1)
}
pub fn show(b: Bits) -> String {
    if m::is_nan(b) {
        return format!("NaN<{}>", bt(b));
    }
    let s = if m::sgn(b) { "-" } else { "+" };
    if m::is_inf(b) {
        return format!("{s}inf");
    }
    if m::is_zero(b) {
        return format!("{s}0");
    }
    bt(b)
}
pub fn parse_bits(s: &str) -> Option<Bits> {
    let (h, l) = s.split_once(':')?;
    Some((u128::from_str_radix(h, 16).ok()?, u128::from_str_radix(l, 16).ok()?))
}
impl Out {
    pub fn accepts(&self, got: &Out) -> bool {
        match (self, got) {
            (Out::F(a), Out::F(b)) => canon(*a) == canon(*b),
            (Out::Raw(a), Out::F(b)) | (Out::Raw(a), Out::Raw(b)) => a == b,
            // second component of split: f64's fract() does not fix the sign of a zero
            (Out::F2(a, b), Out::F2(c, d)) => {
                canon(*a) == canon(*c)
                    && (canon(*b) == canon(*d) || m::is_zero(*b) && m::is_zero(*d))
            }
            (Out::AnyZero, Out::F(b)) => m::is_zero(*b),
            (Out::Either(a, b), Out::F(c)) => *c == *a || *c == *b,
            (Out::Near(a, n), Out::F(c)) => {
                use crate::big::Big;
                let v = |x: &Bits| Big::from_hilo(m::abs(*x).0, x.1);
                let (x, y) = (v(a), v(c));
                let d = if x.cmp(&y) == Ordering::Less { y.sub(&x) } else { x.sub(&y) };
                m::sgn(*a) == m::sgn(*c) && !m::is_nan(*c) && d.cmp(&Big::from_u64(*n)) != Ordering::Greater
            }
            (Out::OneOf(v), Out::S(t)) => v.contains(t),
            (Out::Panics, Out::Panic(_)) => true,
            (Out::E(a), Out::E(b)) => a == b,
            (a, b) => a == b,
        }
    }
    pub fn hash(&self) -> u64 {
        match self {
            Out::F(b) | Out::Raw(b) => crate::run::fnv(&[b.0.to_le_bytes(), b.1.to_le_bytes()].concat()),
            o => crate::run::fnv(format!("{o:?}").as_bytes()),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Out::F(b) => show(*b),
            Out::Raw(b) => bt(*b),
            Out::F2(a, b) => format!("({}, {})", show(*a), show(*b)),
            Out::Either(a, b) => format!("one of {} {}", show(*a), show(*b)),
            Out::S(s) => format!("{s:?}"),
            o => format!("{o:?}"),
        }
    }
}

macro_rules! ops {
    ($($n:ident = $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum Op { $($n),* }
        impl Op {
            pub fn name(self) -> &'static str { match self { $(Op::$n => $s),* } }
            pub fn parse(s: &str) -> Option<Op> { match s { $($s => Some(Op::$n),)* _ => None } }
        }
    }
}
ops! {
    Add = "add", Sub = "sub", Mul = "mul", Div = "div", Rem = "rem",
    Fma = "fma", Sos = "sos", Square = "square", SquareAdd = "square_add",
    Sqrt = "sqrt", Recip = "recip",
    Mul2 = "mul2", Div2 = "div2", MulPow2 = "mul_pow2", DivPow2 = "div_pow2",
    Eq = "eq", Ne = "ne", Cmp = "partial_cmp", Lt = "lt", Le = "le", Gt = "gt", Ge = "ge",
    TotalCmp = "total_cmp",
    Min = "min", Max = "max", Clamp = "clamp", Abs = "abs", Neg = "neg", NegRef = "neg_ref",
    Trunc = "trunc", Fract = "fract", Split = "split", Ceil = "ceil", Floor = "floor",
    Round = "round", RoundEven = "round_tie_even", Ulp = "ulp",
    IsNan = "is_nan", IsInf = "is_infinite", IsFin = "is_finite", IsSub = "is_subnormal",
    IsNorm = "is_normal", Classify = "classify", EqZero = "eq_zero", IsSpecial = "is_special",
    SignPos = "is_sign_positive", SignNeg = "is_sign_negative",
    AddForms = "add_forms", SubForms = "sub_forms", MulForms = "mul_forms",
    DivForms = "div_forms", RemForms = "rem_forms", NumTraits = "num_traits",
    FromF32 = "from_f32", FromF64 = "from_f64", FromU8 = "from_u8", FromU16 = "from_u16",
    FromU32 = "from_u32", FromU64 = "from_u64", FromU128 = "from_u128", FromI8 = "from_i8",
    FromI16 = "from_i16", FromI32 = "from_i32", FromI64 = "from_i64", FromI128 = "from_i128",
    BitsRt = "bits_round_trip", BytesBe = "to_be_bytes", BytesLe = "to_le_bytes",
    BytesNe = "to_ne_bytes", Ses = "as_sign_exp_signif", FromSes = "from_sign_exp_signif",
}

/// all the ways to write one binary operation; they have to agree
macro_rules! forms {
    ($x:expr, $y:expr, $op:tt, $asg:tt) => {{
        let (x, y) = ($x, $y);
        let mut a = x;
        a $asg y;
        let mut b = x;
        b $asg &y;
        let all = [x $op y, &x $op y, x $op &y, &x $op &y, a, b].map(|f| f.to_bits());
        if all.iter().all(|f| *f == all[0]) {
            Out::F(all[0])
        } else {
            Out::S(format!("forms differ: {}", all.map(bt).join(" ")))
        }
    }};
}

#[derive(Clone, Debug)]
pub enum Case {
    /// operation on floats, with an integer argument
    F(Op, [Bits; 3], u32),
    /// anything else: a named evaluator with a textual argument
    X(&'static dyn Ext, String),
}
/// further case families (strings, formatting, conversions, ...)
pub trait Ext: Sync {
    fn name(&self) -> &'static str;
    fn model(&self, arg: &str) -> Out;
    fn impl_eval(&self, arg: &str) -> Out;
    fn deviant(&self, _class: &str, _arg: &str) -> Option<Out> {
        None
    }
}
impl core::fmt::Debug for dyn Ext {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str(self.name())
    }
}

#[inline]
pub fn fb(b: Bits) -> f256 {
    f256::from_bits(b)
}
#[inline]
fn o(x: f256) -> Out {
    Out::F(x.to_bits())
}

/// offset of the exponent argument of from_sign_exp_signif cases
pub const SES_OFF: i32 = 300000;
fn bytes(v: [u8; 32], back: fn([u8; 32]) -> f256) -> Out {
    let r = back(v).to_bits();
    Out::V([v.to_vec(), be_bytes(r)].concat())
}
fn be_bytes(a: Bits) -> Vec<u8> {
    [a.0.to_be_bytes(), a.1.to_be_bytes()].concat()
}
fn from_uint(s: bool, u: u128) -> Out {
    Out::F(m::round(s, &crate::big::Big::from_u128(u), 0, false))
}
fn from_sint(i: i128) -> Out {
    from_uint(i < 0, i.unsigned_abs())
}
/// binary32 / binary64 to binary256
fn from_small(b: u128, eb: u32, fb: u32) -> Out {
    let s = b >> (eb + fb) & 1 == 1;
    let e = (b >> fb & ((1 << eb) - 1)) as i64;
    let f = b & ((1 << fb) - 1);
    let emax = (1i64 << eb) - 1;
    let bias = emax >> 1;
    if e == emax {
        return Out::F(if f == 0 { m::inf(s) } else { m::NAN });
    }
    let (mant, ex) = if e == 0 { (f, 1) } else { (f | 1 << fb, e) };
    Out::F(m::round(s, &crate::big::Big::from_u128(mant), ex - bias - fb as i64, false))
}

impl Case {
    pub fn text(&self) -> String {
        match self {
            Case::F(op, a, n) => {
                let mut s = format!("{} {}", op.name(), bt(a[0]));
                let ar = op.arity();
                for x in &a[1..ar.max(1)] {
                    s.push(' ');
                    s.push_str(&bt(*x));
                }
                if matches!(op, Op::MulPow2 | Op::DivPow2 | Op::FromSes) {
                    s.push_str(&format!(" {n}"));
                }
                s
            }
            Case::X(e, a) => format!("{} {}", e.name(), a),
        }
    }
    pub fn parse(t: &str, exts: &[&'static dyn Ext]) -> Option<Case> {
        let (h, rest) = t.trim_end_matches('\n').split_once(' ')?;
        if let Some(op) = Op::parse(h) {
            let w: Vec<&str> = rest.split_whitespace().collect();
            let mut a = [m::ZERO; 3];
            for i in 0..op.arity() {
                a[i] = parse_bits(w.get(i)?)?;
            }
            let n = w.get(op.arity()).and_then(|x| x.parse().ok()).unwrap_or(0);
            return Some(Case::F(op, a, n));
        }
        exts.iter().find(|e| e.name() == h).map(|e| Case::X(*e, rest.to_string()))
    }
    pub fn impl_eval(&self) -> Out {
        let (op, [a, b, c], n) = match self {
            Case::F(op, a, n) => (*op, *a, *n),
            Case::X(e, a) => return e.impl_eval(a),
        };
        let (x, y, z) = (fb(a), fb(b), fb(c));
        match op {
            Op::Add => o(x + y),
            Op::Sub => o(x - y),
            Op::Mul => o(x * y),
            Op::Div => o(x / y),
            Op::Rem => o(x % y),
            Op::Fma => o(x.mul_add(y, z)),
            Op::Sos => o(x.sum_of_squares(y)),
            Op::Square => o(x.square()),
            Op::SquareAdd => o(x.square_add(y)),
            Op::Sqrt => o(x.sqrt()),
            Op::Recip => o(x.recip()),
            Op::Mul2 => o(x.mul2()),
            Op::Div2 => o(x.div2()),
            Op::MulPow2 => o(x.mul_pow2(n)),
            Op::DivPow2 => o(x.div_pow2(n)),
            Op::Eq => Out::B(x == y),
            Op::Ne => Out::B(x != y),
            Op::Cmp => Out::O(x.partial_cmp(&y)),
            Op::Lt => Out::B(x < y),
            Op::Le => Out::B(x <= y),
            Op::Gt => Out::B(x > y),
            Op::Ge => Out::B(x >= y),
            Op::TotalCmp => Out::O(Some(x.total_cmp(&y))),
            Op::Min => o(x.min(y)),
            Op::Max => o(x.max(y)),
            Op::Clamp => o(x.clamp(y, z)),
            Op::Abs => o(x.abs()),
            Op::Neg => o(-x),
            Op::NegRef => o(-&x),
            Op::Trunc => o(x.trunc()),
            Op::Fract => o(x.fract()),
            Op::Split => {
                let (i, f) = x.split();
                Out::F2(i.to_bits(), f.to_bits())
            }
            Op::Ceil => o(x.ceil()),
            Op::Floor => o(x.floor()),
            Op::Round => o(x.round()),
            Op::RoundEven => o(x.round_tie_even()),
            Op::Ulp => o(x.ulp()),
            Op::IsNan => Out::B(x.is_nan()),
            Op::IsInf => Out::B(x.is_infinite()),
            Op::IsFin => Out::B(x.is_finite()),
            Op::IsSub => Out::B(x.is_subnormal()),
            Op::IsNorm => Out::B(x.is_normal()),
            Op::Classify => Out::S(format!("{:?}", x.classify())),
            Op::EqZero => Out::B(x.eq_zero()),
            Op::IsSpecial => Out::B(x.is_special()),
            Op::SignPos => Out::B(x.is_sign_positive()),
            Op::SignNeg => Out::B(x.is_sign_negative()),
            Op::AddForms => forms!(x, y, +, +=),
            Op::SubForms => forms!(x, y, -, -=),
            Op::MulForms => forms!(x, y, *, *=),
            Op::DivForms => forms!(x, y, /, /=),
            Op::RemForms => forms!(x, y, %, %=),
            Op::NumTraits => {
                use num_traits::{One, Zero};
                let mut z = x;
                z.set_zero();
                let mut w = x;
                w.set_one();
                Out::S(format!(
                    "{} {} {} {} {} {}",
                    Zero::is_zero(&x),
                    One::is_one(&x),
                    bt(<f256 as Zero>::zero().to_bits()),
                    bt(<f256 as One>::one().to_bits()),
                    bt(z.to_bits()),
                    bt(w.to_bits())
                ))
            }
            Op::FromF32 => o(f256::from(f32::from_bits(a.1 as u32))),
            Op::FromF64 => o(f256::from(f64::from_bits(a.1 as u64))),
            Op::FromU8 => o(f256::from(a.1 as u8)),
            Op::FromU16 => o(f256::from(a.1 as u16)),
            Op::FromU32 => o(f256::from(a.1 as u32)),
            Op::FromU64 => o(f256::from(a.1 as u64)),
            Op::FromU128 => o(f256::from(a.1)),
            Op::FromI8 => o(f256::from(a.1 as i8)),
            Op::FromI16 => o(f256::from(a.1 as i16)),
            Op::FromI32 => o(f256::from(a.1 as i32)),
            Op::FromI64 => o(f256::from(a.1 as i64)),
            Op::FromI128 => o(f256::from(a.1 as i128)),
            Op::BitsRt => Out::Raw(f256::from_bits(x.to_bits()).to_bits()),
            Op::BytesBe => bytes(x.to_be_bytes(), f256::from_be_bytes),
            Op::BytesLe => bytes(x.to_le_bytes(), f256::from_le_bytes),
            Op::BytesNe => bytes(x.to_ne_bytes(), f256::from_ne_bytes),
            Op::Ses => {
                let (s, t, c) = x.as_sign_exp_signif();
                let v = [(s as u128), t as u128, c.0, c.1].map(|w| w.to_be_bytes()).concat();
                let back = f256::from_sign_exp_signif(s, t, c).to_bits();
                Out::V([v, back.0.to_be_bytes().to_vec(), back.1.to_be_bytes().to_vec()].concat())
            }
            Op::FromSes => {
                o(f256::from_sign_exp_signif(n & 1, (n >> 1) as i32 - SES_OFF, a))
            }
        }
    }
    /// What the code is known to answer instead of `model()`, for the call
    /// sites described by the named known finding; None elsewhere.
    pub fn deviant(&self, class: &str) -> Option<Out> {
        let (op, [a, b, c], _) = match self {
            Case::F(op, a, n) => (*op, *a, *n),
            Case::X(e, a) => return e.deviant(class, a),
        };
        use Ordering::*;
        match class {
            // the order of two unequal negative values is reversed
            "reversed-negatives" => {
                let rev = |x, y, o: Option<Ordering>| {
                    if m::sgn(x) && m::sgn(y) { o.map(Ordering::reverse) } else { o }
                };
                let pc = |x, y| rev(x, y, m::partial_cmp(x, y));
                Some(match op {
                    Op::TotalCmp => Out::O(rev(a, b, Some(m::total_cmp(a, b)))),
                    Op::Cmp => Out::O(pc(a, b)),
                    Op::Lt => Out::B(pc(a, b) == Some(Less)),
                    Op::Le => Out::B(matches!(pc(a, b), Some(Less | Equal))),
                    Op::Gt => Out::B(pc(a, b) == Some(Greater)),
                    Op::Ge => Out::B(matches!(pc(a, b), Some(Greater | Equal))),
                    Op::Min if m::sgn(a) && m::sgn(b) && !m::is_nan(a) && !m::is_nan(b) => {
                        Out::F(if pc(b, a) == Some(Less) { b } else { a })
                    }
                    Op::Max if m::sgn(a) && m::sgn(b) && !m::is_nan(a) && !m::is_nan(b) => {
                        Out::F(if pc(b, a) == Some(Greater) { b } else { a })
                    }
                    Op::Clamp => match pc(b, c) {
                        Some(Less | Equal) => Out::F(if pc(a, b) == Some(Less) {
                            b
                        } else if pc(a, c) == Some(Greater) {
                            c
                        } else {
                            a
                        }),
                        _ => Out::Panics,
                    },
                    _ => return None,
                })
            }
            _ => None,
        }
    }
    pub fn model(&self) -> Out {
        let (op, [a, b, c], n) = match self {
            Case::F(op, a, n) => (*op, *a, *n),
            Case::X(e, a) => return e.model(a),
        };
        use Ordering::*;
        let pc = || m::partial_cmp(a, b);
        match op {
            Op::Add => Out::F(m::add(a, b)),
            Op::Sub => Out::F(m::sub(a, b)),
            Op::Mul => Out::F(m::mul(a, b)),
            Op::Div => Out::F(m::div(a, b)),
            Op::Rem => Out::F(m::rem(a, b)),
            Op::Fma => Out::F(m::fma(a, b, c)),
            Op::Sos => Out::F(m::sos(a, b)),
            Op::Square => Out::F(m::mul(a, a)),
            Op::SquareAdd => Out::F(m::fma(a, a, b)),
            Op::Sqrt => Out::F(m::sqrt(a)),
            Op::Recip => Out::F(m::div(m::ONE, a)),
            Op::Mul2 => Out::F(m::scale(a, 1)),
            Op::Div2 => Out::F(m::scale(a, -1)),
            Op::MulPow2 => Out::F(m::scale(a, n as i64)),
            Op::DivPow2 => Out::F(m::scale(a, -(n as i64))),
            Op::Eq => Out::B(pc() == Some(Equal)),
            Op::Ne => Out::B(pc() != Some(Equal)),
            Op::Cmp => Out::O(pc()),
            Op::Lt => Out::B(pc() == Some(Less)),
            Op::Le => Out::B(matches!(pc(), Some(Less | Equal))),
            Op::Gt => Out::B(pc() == Some(Greater)),
            Op::Ge => Out::B(matches!(pc(), Some(Greater | Equal))),
            Op::TotalCmp => Out::O(Some(m::total_cmp(a, b))),
            Op::Min | Op::Max => {
                if m::is_nan(a) {
                    return Out::F(b);
                }
                if m::is_nan(b) {
                    return Out::F(a);
                }
                if m::is_zero(a) && m::is_zero(b) {
                    return Out::Either(a, b);
                }
                let less = pc() == Some(Less);
                Out::F(if less == (op == Op::Min) { a } else { b })
            }
            Op::Clamp => match m::partial_cmp(b, c) {
                Some(Less | Equal) => {
                    if m::partial_cmp(a, b) == Some(Less) {
                        Out::F(b)
                    } else if m::partial_cmp(a, c) == Some(Greater) {
                        Out::F(c)
                    } else {
                        Out::F(a)
                    }
                }
                _ => Out::Panics,
            },
            Op::Abs => Out::Raw(m::abs(a)),
            Op::Neg | Op::NegRef => Out::Raw(m::neg(a)),
            Op::Trunc => Out::F(m::rint(a, Rm::Trunc)),
            Op::Fract => {
                let f = m::fract(a);
                if m::is_zero(f) { Out::AnyZero } else { Out::F(f) }
            }
            Op::Split => Out::F2(m::rint(a, Rm::Trunc), m::fract(a)),
            Op::Ceil => Out::F(m::rint(a, Rm::Ceil)),
            Op::Floor => Out::F(m::rint(a, Rm::Floor)),
            Op::Round => Out::F(m::rint(a, Rm::HalfAway)),
            Op::RoundEven => Out::F(m::rint(a, Rm::HalfEven)),
            Op::Ulp => Out::F(m::ulp(a)),
            Op::IsNan => Out::B(m::is_nan(a)),
            Op::IsInf => Out::B(m::is_inf(a)),
            Op::IsFin => Out::B(m::is_fin(a)),
            Op::IsSub => Out::B(m::bexp(a) == 0 && !m::is_zero(a)),
            Op::IsNorm => Out::B(m::bexp(a) != 0 && m::is_fin(a)),
            Op::Classify => Out::S(
                if m::is_nan(a) {
                    "Nan"
                } else if m::is_inf(a) {
                    "Infinite"
                } else if m::is_zero(a) {
                    "Zero"
                } else if m::bexp(a) == 0 {
                    "Subnormal"
                } else {
                    "Normal"
                }
                .into(),
            ),
            Op::EqZero => Out::B(m::is_zero(a)),
            Op::IsSpecial => Out::B(m::is_zero(a) || !m::is_fin(a)),
            Op::SignPos => Out::B(!m::sgn(a)),
            Op::SignNeg => Out::B(m::sgn(a)),
            Op::AddForms => Out::F(m::add(a, b)),
            Op::SubForms => Out::F(m::sub(a, b)),
            Op::MulForms => Out::F(m::mul(a, b)),
            Op::DivForms => Out::F(m::div(a, b)),
            Op::RemForms => Out::F(m::rem(a, b)),
            Op::NumTraits => Out::S(format!(
                "{} {} {} {} {} {}",
                m::is_zero(a),
                a == m::ONE,
                bt(m::ZERO),
                bt(m::ONE),
                bt(m::ZERO),
                bt(m::ONE)
            )),
            Op::FromF32 => from_small(a.1 & 0xffff_ffff, 8, 23),
            Op::FromF64 => from_small(a.1 & 0xffff_ffff_ffff_ffff, 11, 52),
            Op::FromU8 => from_uint(false, a.1 & 0xff),
            Op::FromU16 => from_uint(false, a.1 & 0xffff),
            Op::FromU32 => from_uint(false, a.1 & 0xffff_ffff),
            Op::FromU64 => from_uint(false, a.1 & 0xffff_ffff_ffff_ffff),
            Op::FromU128 => from_uint(false, a.1),
            Op::FromI8 => from_sint(a.1 as i8 as i128),
            Op::FromI16 => from_sint(a.1 as i16 as i128),
            Op::FromI32 => from_sint(a.1 as i32 as i128),
            Op::FromI64 => from_sint(a.1 as i64 as i128),
            Op::FromI128 => from_sint(a.1 as i128),
            Op::BitsRt => Out::Raw(a),
            Op::BytesBe => Out::V([be_bytes(a), be_bytes(a)].concat()),
            Op::BytesLe => {
                let mut v = be_bytes(a);
                v.reverse();
                Out::V([v, be_bytes(a)].concat())
            }
            Op::BytesNe => {
                let mut v = be_bytes(a);
                if cfg!(target_endian = "little") {
                    v.reverse();
                }
                Out::V([v, be_bytes(a)].concat())
            }
            Op::Ses => {
                let (s, mm, e) = m::dec(a);
                let tz = if mm.is_zero() { 0 } else { mm.tz() };
                let (t, c) = if mm.is_zero() { (0, (0, 0)) } else { (e + tz, mm.shr(tz).to_hilo()) };
                let v = [s as u128, t as i32 as u128, c.0, c.1, a.0, a.1];
                Out::V(v.map(|w| w.to_be_bytes()).concat())
            }
            Op::FromSes => {
                let c = crate::big::Big::from_hilo(a.0, a.1);
                Out::F(m::round(n & 1 == 1, &c, ((n >> 1) as i32 - SES_OFF) as i64, false))
            }
        }
    }
}
impl Op {
    pub fn arity(self) -> usize {
        match self {
            Op::Fma | Op::Clamp => 3,
            Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Rem | Op::Sos | Op::SquareAdd | Op::Eq
            | Op::Ne | Op::Cmp | Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::TotalCmp | Op::Min
            | Op::Max | Op::AddForms | Op::SubForms | Op::MulForms | Op::DivForms | Op::RemForms => 2,
            _ => 1,
        }
    }
}
