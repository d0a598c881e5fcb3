// written by tools/gen_autofrom.py
#![allow(clippy::all, dead_code, unused_imports, non_camel_case_types, non_snake_case)]
use mina_serialization_types_macros::AutoFrom;
#[derive(Debug, Clone, PartialEq)]
pub struct W(pub u64);
impl From<u64> for W { fn from(v: u64) -> Self { W(v) } }
impl From<W> for u64 { fn from(v: W) -> Self { v.0 } }
#[derive(Debug, Clone, PartialEq)]
pub struct S(pub String);
impl From<String> for S { fn from(v: String) -> Self { S(v) } }
impl From<S> for String { fn from(v: S) -> Self { v.0 } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(InnerT)]
pub struct Inner { pub a: u64, pub b: Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct InnerT { pub b: Vec<W>, pub a: W }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T60)]
#[auto_from(m60::U60)]
pub struct S60 { pub field_15: Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T60 { pub field_15: Vec<W> }
pub mod m60 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U60 { pub field_15: Vec<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T61)]
#[auto_from(m61::U61)]
pub struct S61 { pub t_22: u64, pub other_9: u64, pub a29: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct T61 { pub a29: W, pub other_9: W, pub t_22: W }
pub mod m61 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U61 { pub a29: W, pub t_22: W, pub other_9: W } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T62)]
#[auto_from(m62::U62)]
pub struct S62 { pub vec12: String, pub option3: std::boxed::Box<u64>, pub f16: u64, pub option27: (u64, u64), pub zz27: Vec<u64>, pub field_11: Box<u64>, pub vec13: [u64; 3], pub option31: Inner, pub f18: u64, pub option28: ::std::option::Option<u64>, pub item7: Option<u64>, pub item36: std::vec::Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T62 { pub f18: W, pub option27: (u64, u64), pub option28: Option<W>, pub option3: Box<W>, pub zz27: Vec<W>, pub item36: Vec<W>, pub vec13: [u64; 3], pub item7: Option<W>, pub option31: InnerT, pub field_11: Box<W>, pub f16: u64, pub vec12: S }
pub mod m62 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U62 { pub f18: W, pub zz27: Vec<W>, pub option31: InnerT, pub field_11: Box<W>, pub option27: (u64, u64), pub vec12: S, pub item7: Option<W>, pub option28: Option<W>, pub item36: Vec<W>, pub f16: u64, pub option3: Box<W>, pub vec13: [u64; 3] } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T63)]
#[auto_from(m63::U63)]
pub struct S63 { pub v32: [u64; 3], pub zz39: ::std::option::Option<u64>, pub a9: (u64, u64), pub zz4: std::boxed::Box<u64>, pub item11: Box<u64>, pub vec4: Vec<u64>, pub field_22: u64, pub other_5: Option<u64>, pub a1: std::vec::Vec<u64>, pub v20: String, pub v35: Inner, pub vec11: u64, pub x_last: Vec<u64>, pub a_last: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct T63 { pub zz39: Option<W>, pub v35: InnerT, pub a9: (u64, u64), pub item11: Box<W>, pub other_5: Option<W>, pub field_22: W, pub vec11: u64, pub x_last: Vec<W>, pub a_last: u64, pub a1: Vec<W>, pub v20: S, pub zz4: Box<W>, pub vec4: Vec<W>, pub v32: [u64; 3] }
pub mod m63 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U63 { pub x_last: Vec<W>, pub zz4: Box<W>, pub a9: (u64, u64), pub other_5: Option<W>, pub field_22: W, pub a1: Vec<W>, pub v20: S, pub item11: Box<W>, pub vec4: Vec<W>, pub vec11: u64, pub zz39: Option<W>, pub a_last: u64, pub v35: InnerT, pub v32: [u64; 3] } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T64)]
#[auto_from(m64::U64)]
pub struct S64 { pub r#type: u64, pub r#match: u64, pub r#fn: Vec<u64>, pub self_: Option<u64>, pub item: Box<u64>, pub other: std::vec::Vec<u64>, pub t: ::std::option::Option<u64>, pub v0: std::boxed::Box<u64>, pub v1: (u64, u64), pub v2: [u64; 3], pub v10: Inner }
#[derive(Debug, Clone, PartialEq)]
pub struct T64 { pub v0: Box<W>, pub r#fn: Vec<W>, pub v2: [u64; 3], pub t: Option<W>, pub other: Vec<W>, pub r#type: W, pub v10: InnerT, pub r#match: u64, pub item: Box<W>, pub self_: Option<W>, pub v1: (u64, u64) }
pub mod m64 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U64 { pub v0: Box<W>, pub v2: [u64; 3], pub r#match: u64, pub self_: Option<W>, pub v1: (u64, u64), pub v10: InnerT, pub t: Option<W>, pub item: Box<W>, pub r#type: W, pub r#fn: Vec<W>, pub other: Vec<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T65)]
pub struct S65(pub Option<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T65(pub Option<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T66)]
pub struct S66(pub Option<u64>, pub [u64; 3], pub ::std::option::Option<u64>, pub Box<u64>, pub std::vec::Vec<u64>, pub std::boxed::Box<u64>, pub (u64, u64), pub Inner, pub String, pub u64, pub u64, pub Vec<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T66(pub Option<W>, pub [u64; 3], pub Option<W>, pub Box<W>, pub Vec<W>, pub Box<W>, pub (u64, u64), pub InnerT, pub S, pub W, pub u64, pub Vec<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T67)]
pub struct S67(pub Inner, pub u64, pub Option<u64>, pub Vec<u64>, pub std::boxed::Box<u64>, pub [u64; 3], pub String, pub ::std::option::Option<u64>, pub u64, pub (u64, u64), pub Box<u64>, pub std::vec::Vec<u64>, pub u64, pub [u64; 3], pub std::vec::Vec<u64>, pub ::std::option::Option<u64>, pub Box<u64>, pub Vec<u64>, pub Option<u64>, pub std::boxed::Box<u64>, pub (u64, u64), pub String, pub Inner, pub u64);
#[derive(Debug, Clone, PartialEq)]
pub struct T67(pub InnerT, pub u64, pub Option<W>, pub Vec<W>, pub Box<W>, pub [u64; 3], pub S, pub Option<W>, pub W, pub (u64, u64), pub Box<W>, pub Vec<W>, pub W, pub [u64; 3], pub Vec<W>, pub Option<W>, pub Box<W>, pub Vec<W>, pub Option<W>, pub Box<W>, pub (u64, u64), pub S, pub InnerT, pub u64);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T68)]
pub enum S68 { Item20 }
#[derive(Debug, Clone, PartialEq)]
pub enum T68 { Item20 }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T69)]
pub enum S69 { Z47 { zz13: Box<u64>, zz22: std::boxed::Box<u64>, vec37: std::vec::Vec<u64>, item30: [u64; 3], option35: (u64, u64), option24: (u64, u64), other_25: [u64; 3], zz29: Vec<u64>, option37: u64, f25: [u64; 3], vec0: String, other_12: ::std::option::Option<u64> }, V3 { f5: std::boxed::Box<u64> }, Item1(Inner, ::std::option::Option<u64>), Item29((u64, u64)), V19(std::boxed::Box<u64>) }
#[derive(Debug, Clone, PartialEq)]
pub enum T69 { Item1(InnerT, Option<W>), V19(Box<W>), Z47 { option37: u64, option35: (u64, u64), other_12: Option<W>, item30: [u64; 3], f25: [u64; 3], vec0: S, vec37: Vec<W>, other_25: [u64; 3], zz22: Box<W>, option24: (u64, u64), zz13: Box<W>, zz29: Vec<W> }, V3 { f5: Box<W> }, Item29((u64, u64)) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T70)]
pub enum S70 { Vec27, Z12, V38(std::boxed::Box<u64>, Vec<u64>), Option3 { option21: [u64; 3] }, Z56((u64, u64)), Option38(::std::option::Option<u64>, Box<u64>, [u64; 3]), V56 { zz16: std::vec::Vec<u64>, zz9: ::std::option::Option<u64> }, Z19, Some_51 { option35: std::boxed::Box<u64>, item35: Vec<u64>, v11: Inner } }
#[derive(Debug, Clone, PartialEq)]
pub enum T70 { Z56((u64, u64)), V38(Box<W>, Vec<W>), Option38(Option<W>, Box<W>, [u64; 3]), Vec27, Option3 { option21: [u64; 3] }, Some_51 { option35: Box<W>, item35: Vec<W>, v11: InnerT }, Z12, Z19, V56 { zz9: Option<W>, zz16: Vec<W> } }
fn main() {}
