//@@ props P12
//@@ include head.rs
use vstd::string::*;
use vstd::std_specs::cmp::*;

// ---- specification

/// The integer a double denotes, if it is one.
pub uninterp spec fn ival(v: f64) -> Option<int>;
pub open spec fn integral(v: f64) -> bool { ival(v) is Some }
//@@ include decimal.rs

// ---- assumed contracts: doubles

/// `v.fract() != 0.0`: NaN and the infinities have a NaN fraction.
#[verifier::external_body]
fn has_fraction(v: f64) -> (r: bool) ensures r == !integral(v) { unimplemented!() }
/// An integer as a double: exact up to 2^53, otherwise rounded to nearest.
#[verifier::external_body]
fn to_f64(c: i128) -> (r: f64)
    ensures
        integral(r),
        -0x20_0000_0000_0000 <= c <= 0x20_0000_0000_0000 ==> ival(r) == Some(c as int),
        c == 0x7fff_ffff_ffff_ffff ==> ival(r) == Some(0x8000_0000_0000_0000int),
        c == -0x8000_0000_0000_0000 ==> ival(r) == Some(-0x8000_0000_0000_0000int),
        c == 0xffff_ffff_ffff_ffff ==> ival(r) == Some(0x1_0000_0000_0000_0000int),
{ unimplemented!() }
/// Comparing doubles which are integers compares the integers.
pub broadcast axiom fn lt_axiom(a: f64, b: f64, r: bool)
    requires #[trigger] lt_ensures(a, b, r), integral(a), integral(b)
    ensures r == (ival(a).unwrap() < ival(b).unwrap());
pub broadcast axiom fn le_axiom(a: f64, b: f64, r: bool)
    requires #[trigger] le_ensures(a, b, r), integral(a), integral(b)
    ensures r == (ival(a).unwrap() <= ival(b).unwrap());
pub broadcast axiom fn gt_axiom(a: f64, b: f64, r: bool)
    requires #[trigger] gt_ensures(a, b, r), integral(a), integral(b)
    ensures r == (ival(a).unwrap() > ival(b).unwrap());
pub broadcast axiom fn ge_axiom(a: f64, b: f64, r: bool)
    requires #[trigger] ge_ensures(a, b, r), integral(a), integral(b)
    ensures r == (ival(a).unwrap() >= ival(b).unwrap());
/// serde's Error
pub trait Error: Sized { fn custom<T>(m: T) -> Self; }
pub struct ConvError;

/// `v as i32` of a double: truncated and saturated.
#[verifier::external_body]
fn f64_as_i32(v: f64) -> (r: i32)
    ensures integral(v) ==> r as int == (if ival(v).unwrap() < i32::MIN { i32::MIN as int } else if ival(v).unwrap() > i32::MAX { i32::MAX as int } else { ival(v).unwrap() }),
{ unimplemented!() }
/// `str::parse::<i32>` (assumed contract of core::num)
#[verifier::external_body]
fn parse_i32(s: &str) -> (r: Result<i32, ConvError>)
    ensures
        r is Ok <==> dec_int(s@) is Some && i32::MIN <= dec_int(s@).unwrap() <= i32::MAX,
        r is Ok ==> r->Ok_0 as int == dec_int(s@).unwrap(),
{ unimplemented!() }
#[verifier::external_body]
fn i64_to_i32(v: i64) -> (r: Result<i32, ConvError>)
    ensures r is Ok <==> i32::MIN <= v <= i32::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }
#[verifier::external_body]
fn u64_to_i32(v: u64) -> (r: Result<i32, ConvError>)
    ensures r is Ok <==> i32::MIN <= v <= i32::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }

/// `v as i64` of a double: truncated and saturated.
#[verifier::external_body]
fn f64_as_i64(v: f64) -> (r: i64)
    ensures integral(v) ==> r as int == (if ival(v).unwrap() < i64::MIN { i64::MIN as int } else if ival(v).unwrap() > i64::MAX { i64::MAX as int } else { ival(v).unwrap() }),
{ unimplemented!() }
/// `str::parse::<i64>` (assumed contract of core::num)
#[verifier::external_body]
fn parse_i64(s: &str) -> (r: Result<i64, ConvError>)
    ensures
        r is Ok <==> dec_int(s@) is Some && i64::MIN <= dec_int(s@).unwrap() <= i64::MAX,
        r is Ok ==> r->Ok_0 as int == dec_int(s@).unwrap(),
{ unimplemented!() }
#[verifier::external_body]
fn u64_to_i64(v: u64) -> (r: Result<i64, ConvError>)
    ensures r is Ok <==> i64::MIN <= v <= i64::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }

/// `v as u32` of a double: truncated and saturated.
#[verifier::external_body]
fn f64_as_u32(v: f64) -> (r: u32)
    ensures integral(v) ==> r as int == (if ival(v).unwrap() < u32::MIN { u32::MIN as int } else if ival(v).unwrap() > u32::MAX { u32::MAX as int } else { ival(v).unwrap() }),
{ unimplemented!() }
/// `str::parse::<u32>` (assumed contract of core::num)
#[verifier::external_body]
fn parse_u32(s: &str) -> (r: Result<u32, ConvError>)
    ensures
        r is Ok <==> dec_uint(s@) is Some && u32::MIN <= dec_uint(s@).unwrap() <= u32::MAX,
        r is Ok ==> r->Ok_0 as int == dec_int(s@).unwrap(),
{ unimplemented!() }
#[verifier::external_body]
fn i64_to_u32(v: i64) -> (r: Result<u32, ConvError>)
    ensures r is Ok <==> u32::MIN <= v <= u32::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }
#[verifier::external_body]
fn u64_to_u32(v: u64) -> (r: Result<u32, ConvError>)
    ensures r is Ok <==> u32::MIN <= v <= u32::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }

/// `v as u64` of a double: truncated and saturated.
#[verifier::external_body]
fn f64_as_u64(v: f64) -> (r: u64)
    ensures integral(v) ==> r as int == (if ival(v).unwrap() < u64::MIN { u64::MIN as int } else if ival(v).unwrap() > u64::MAX { u64::MAX as int } else { ival(v).unwrap() }),
{ unimplemented!() }
/// `str::parse::<u64>` (assumed contract of core::num)
#[verifier::external_body]
fn parse_u64(s: &str) -> (r: Result<u64, ConvError>)
    ensures
        r is Ok <==> dec_uint(s@) is Some && u64::MIN <= dec_uint(s@).unwrap() <= u64::MAX,
        r is Ok ==> r->Ok_0 as int == dec_int(s@).unwrap(),
{ unimplemented!() }
#[verifier::external_body]
fn i64_to_u64(v: i64) -> (r: Result<u64, ConvError>)
    ensures r is Ok <==> u64::MIN <= v <= u64::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }

// ---- the code

pub struct Int32Visitor;
impl Int32Visitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int32Visitor::visit_str
//@@ subst? Self :: Value => i32
//@@ subst? v . parse ( ) => parse_i32(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> dec_int($p1@) is Some && i32::MIN <= dec_int($p1@).unwrap() <= i32::MAX,
        r is Ok ==> r->Ok_0 as int == dec_int($p1@).unwrap(),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int32Visitor::visit_i64
//@@ subst? Self :: Value => i32
//@@ subst? v . try_into ( ) => i64_to_i32(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> i32::MIN <= $p1 <= i32::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int32Visitor::visit_u64
//@@ subst? Self :: Value => i32
//@@ subst? v . try_into ( ) => u64_to_i32(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> i32::MIN <= $p1 <= i32::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int32Visitor::visit_i32
//@@ subst? Self :: Value => i32
//@@ subst? v . try_into ( ) => i32_to_i32(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> i32::MIN <= $p1 <= i32::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int32Visitor::visit_f64
//@@ subst? Self :: Value => i32
//@@ subst? $v:id . fract ( ) != 0.0 => has_fraction($v)
//@@ subst? $a:id :: MIN as f64 => to_f64($a::MIN as i128)
//@@ subst? $a:id :: MAX as f64 => to_f64($a::MAX as i128)
//@@ subst? $v:id as i32 => f64_as_i32($v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> integral($p1) && i32::MIN <= ival($p1).unwrap() <= i32::MAX,
        r is Ok ==> r->Ok_0 as int == ival($p1).unwrap(),
//@@ start
        broadcast use {lt_axiom, le_axiom, gt_axiom, ge_axiom};
//@@ end
}

pub struct Int64Visitor;
impl Int64Visitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int64Visitor::visit_str
//@@ subst? Self :: Value => i64
//@@ subst? v . parse ( ) => parse_i64(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> dec_int($p1@) is Some && i64::MIN <= dec_int($p1@).unwrap() <= i64::MAX,
        r is Ok ==> r->Ok_0 as int == dec_int($p1@).unwrap(),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int64Visitor::visit_i64
//@@ subst? Self :: Value => i64
//@@ subst? v . try_into ( ) => i64_to_i64(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> i64::MIN <= $p1 <= i64::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int64Visitor::visit_u64
//@@ subst? Self :: Value => i64
//@@ subst? v . try_into ( ) => u64_to_i64(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> i64::MIN <= $p1 <= i64::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int64Visitor::visit_f64
//@@ subst? Self :: Value => i64
//@@ subst? $v:id . fract ( ) != 0.0 => has_fraction($v)
//@@ subst? $a:id :: MIN as f64 => to_f64($a::MIN as i128)
//@@ subst? $a:id :: MAX as f64 => to_f64($a::MAX as i128)
//@@ subst? $v:id as i64 => f64_as_i64($v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> integral($p1) && i64::MIN <= ival($p1).unwrap() <= i64::MAX,
        r is Ok ==> r->Ok_0 as int == ival($p1).unwrap(),
//@@ start
        broadcast use {lt_axiom, le_axiom, gt_axiom, ge_axiom};
//@@ end
}

pub struct Uint32Visitor;
impl Uint32Visitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint32Visitor::visit_str
//@@ subst? Self :: Value => u32
//@@ subst? v . parse ( ) => parse_u32(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> dec_uint($p1@) is Some && u32::MIN <= dec_uint($p1@).unwrap() <= u32::MAX,
        r is Ok ==> r->Ok_0 as int == dec_int($p1@).unwrap(),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint32Visitor::visit_i64
//@@ subst? Self :: Value => u32
//@@ subst? v . try_into ( ) => i64_to_u32(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> u32::MIN <= $p1 <= u32::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint32Visitor::visit_u64
//@@ subst? Self :: Value => u32
//@@ subst? v . try_into ( ) => u64_to_u32(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> u32::MIN <= $p1 <= u32::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint32Visitor::visit_u32
//@@ subst? Self :: Value => u32
//@@ subst? v . try_into ( ) => u32_to_u32(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> u32::MIN <= $p1 <= u32::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint32Visitor::visit_f64
//@@ subst? Self :: Value => u32
//@@ subst? $v:id . fract ( ) != 0.0 => has_fraction($v)
//@@ subst? $a:id :: MIN as f64 => to_f64($a::MIN as i128)
//@@ subst? $a:id :: MAX as f64 => to_f64($a::MAX as i128)
//@@ subst? $v:id as u32 => f64_as_u32($v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> integral($p1) && u32::MIN <= ival($p1).unwrap() <= u32::MAX,
        r is Ok ==> r->Ok_0 as int == ival($p1).unwrap(),
//@@ start
        broadcast use {lt_axiom, le_axiom, gt_axiom, ge_axiom};
//@@ end
}

pub struct Uint64Visitor;
impl Uint64Visitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint64Visitor::visit_str
//@@ subst? Self :: Value => u64
//@@ subst? v . parse ( ) => parse_u64(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> dec_uint($p1@) is Some && u64::MIN <= dec_uint($p1@).unwrap() <= u64::MAX,
        r is Ok ==> r->Ok_0 as int == dec_int($p1@).unwrap(),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint64Visitor::visit_i64
//@@ subst? Self :: Value => u64
//@@ subst? v . try_into ( ) => i64_to_u64(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> u64::MIN <= $p1 <= u64::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint64Visitor::visit_u64
//@@ subst? Self :: Value => u64
//@@ subst? v . try_into ( ) => u64_to_u64(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> u64::MIN <= $p1 <= u64::MAX,
        r is Ok ==> r->Ok_0 as int == $p1 as int,
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint64Visitor::visit_f64
//@@ subst? Self :: Value => u64
//@@ subst? $v:id . fract ( ) != 0.0 => has_fraction($v)
//@@ subst? $a:id :: MIN as f64 => to_f64($a::MIN as i128)
//@@ subst? $a:id :: MAX as f64 => to_f64($a::MAX as i128)
//@@ subst? $v:id as u64 => f64_as_u64($v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> integral($p1) && u64::MIN <= ival($p1).unwrap() <= u64::MAX,
        r is Ok ==> r->Ok_0 as int == ival($p1).unwrap(),
//@@ start
        broadcast use {lt_axiom, le_axiom, gt_axiom, ge_axiom};
//@@ end
}

} // verus!
fn main() {}
