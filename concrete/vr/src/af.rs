// written by tools/gen_autofrom.py
#![allow(clippy::all, dead_code, unused_imports, non_camel_case_types, non_snake_case)]
#![cfg(feature = "full")]
use mina_serialization_types_macros::AutoFrom;
#[derive(Debug, Clone, PartialEq)]
pub struct W(pub u64);
impl From<u64> for W { fn from(v: u64) -> Self { W(v) } }
impl From<W> for u64 { fn from(v: W) -> Self { v.0 } }
#[derive(Debug, Clone, PartialEq)]
pub struct S(pub String);
impl From<String> for S { fn from(v: String) -> Self { S(v) } }
impl From<S> for String { fn from(v: S) -> Self { v.0 } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(InnerT)]
pub struct Inner { pub a: u64, pub b: Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct InnerT { pub b: Vec<W>, pub a: W }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T0)]
#[auto_from(m0::U0)]
pub struct S0 { pub item13: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct T0 { pub item13: W }
pub mod m0 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U0 { pub item13: W } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T1)]
#[auto_from(m1::U1)]
pub struct S1 { pub a2: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct T1 { pub a2: u64 }
pub mod m1 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U1 { pub a2: u64 } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T2)]
#[auto_from(m2::U2)]
pub struct S2 { pub item24: Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T2 { pub item24: Vec<W> }
pub mod m2 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U2 { pub item24: Vec<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T3)]
#[auto_from(m3::U3)]
pub struct S3 { pub field_27: Option<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T3 { pub field_27: Option<W> }
pub mod m3 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U3 { pub field_27: Option<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T4)]
#[auto_from(m4::U4)]
pub struct S4 { pub vec0: Box<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T4 { pub vec0: Box<W> }
pub mod m4 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U4 { pub vec0: Box<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T5)]
#[auto_from(m5::U5)]
pub struct S5 { pub a23: std::vec::Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T5 { pub a23: Vec<W> }
pub mod m5 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U5 { pub a23: Vec<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T6)]
#[auto_from(m6::U6)]
pub struct S6 { pub item17: ::std::option::Option<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T6 { pub item17: Option<W> }
pub mod m6 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U6 { pub item17: Option<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T7)]
#[auto_from(m7::U7)]
pub struct S7 { pub v36: std::boxed::Box<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T7 { pub v36: Box<W> }
pub mod m7 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U7 { pub v36: Box<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T8)]
#[auto_from(m8::U8)]
pub struct S8 { pub field_24: (u64, u64) }
#[derive(Debug, Clone, PartialEq)]
pub struct T8 { pub field_24: (u64, u64) }
pub mod m8 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U8 { pub field_24: (u64, u64) } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T9)]
#[auto_from(m9::U9)]
pub struct S9 { pub vec37: [u64; 3] }
#[derive(Debug, Clone, PartialEq)]
pub struct T9 { pub vec37: [u64; 3] }
pub mod m9 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U9 { pub vec37: [u64; 3] } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T10)]
#[auto_from(m10::U10)]
pub struct S10 { pub zz31: Inner }
#[derive(Debug, Clone, PartialEq)]
pub struct T10 { pub zz31: InnerT }
pub mod m10 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U10 { pub zz31: InnerT } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T11)]
#[auto_from(m11::U11)]
pub struct S11 { pub t_3: String }
#[derive(Debug, Clone, PartialEq)]
pub struct T11 { pub t_3: S }
pub mod m11 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U11 { pub t_3: S } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T12)]
pub struct S12(pub u64);
#[derive(Debug, Clone, PartialEq)]
pub struct T12(pub W);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T13)]
pub struct S13(pub u64);
#[derive(Debug, Clone, PartialEq)]
pub struct T13(pub u64);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T14)]
pub struct S14(pub Vec<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T14(pub Vec<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T15)]
pub struct S15(pub Option<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T15(pub Option<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T16)]
pub struct S16(pub Box<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T16(pub Box<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T17)]
pub struct S17(pub std::vec::Vec<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T17(pub Vec<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T18)]
pub struct S18(pub ::std::option::Option<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T18(pub Option<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T19)]
pub struct S19(pub std::boxed::Box<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T19(pub Box<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T20)]
pub struct S20(pub (u64, u64));
#[derive(Debug, Clone, PartialEq)]
pub struct T20(pub (u64, u64));
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T21)]
pub struct S21(pub [u64; 3]);
#[derive(Debug, Clone, PartialEq)]
pub struct T21(pub [u64; 3]);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T22)]
pub struct S22(pub Inner);
#[derive(Debug, Clone, PartialEq)]
pub struct T22(pub InnerT);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T23)]
pub struct S23(pub String);
#[derive(Debug, Clone, PartialEq)]
pub struct T23(pub S);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T24)]
#[auto_from(m24::U24)]
pub struct S24 { pub item3: u64, pub t_6: u64, pub zz34: u64, pub f12: u64, pub a10: u64, pub a30: u64, pub field_9: u64, pub field_33: u64, pub option25: u64, pub item11: u64, pub a37: u64, pub other_37: u64, pub item12: u64, pub field_14: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct T24 { pub a37: u64, pub item12: u64, pub f12: u64, pub a30: u64, pub zz34: u64, pub t_6: u64, pub item3: u64, pub field_33: u64, pub field_14: u64, pub option25: u64, pub item11: u64, pub other_37: u64, pub a10: u64, pub field_9: u64 }
pub mod m24 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U24 { pub zz34: u64, pub a37: u64, pub t_6: u64, pub option25: u64, pub item3: u64, pub item12: u64, pub field_33: u64, pub a30: u64, pub field_14: u64, pub field_9: u64, pub f12: u64, pub item11: u64, pub other_37: u64, pub a10: u64 } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T25)]
#[auto_from(m25::U25)]
pub struct S25 { pub field_36: u64, pub other_13: u64, pub vec33: u64, pub other_25: u64, pub v26: u64, pub t_31: u64, pub vec32: u64, pub field_18: u64, pub other_35: u64, pub other_39: u64, pub item7: u64, pub zz10: u64, pub field_25: u64, pub item34: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct T25 { pub v26: W, pub field_25: W, pub vec32: W, pub field_36: W, pub item7: W, pub zz10: W, pub t_31: W, pub other_35: W, pub field_18: W, pub other_39: W, pub item34: W, pub other_25: W, pub vec33: W, pub other_13: W }
pub mod m25 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U25 { pub v26: W, pub field_18: W, pub item34: W, pub other_25: W, pub field_25: W, pub vec32: W, pub other_39: W, pub t_31: W, pub other_13: W, pub field_36: W, pub vec33: W, pub item7: W, pub other_35: W, pub zz10: W } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T26)]
#[auto_from(m26::U26)]
pub struct S26 { pub field_0: Vec<u64>, pub f18: Vec<u64>, pub v9: Vec<u64>, pub item8: Vec<u64>, pub f28: Vec<u64>, pub other_4: Vec<u64>, pub field_5: Vec<u64>, pub option29: Vec<u64>, pub vec1: Vec<u64>, pub f7: Vec<u64>, pub field_33: Vec<u64>, pub f2: Vec<u64>, pub t_29: Vec<u64>, pub field_34: Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T26 { pub other_4: Vec<W>, pub t_29: Vec<W>, pub f7: Vec<W>, pub vec1: Vec<W>, pub f2: Vec<W>, pub field_33: Vec<W>, pub field_5: Vec<W>, pub v9: Vec<W>, pub f28: Vec<W>, pub item8: Vec<W>, pub field_0: Vec<W>, pub field_34: Vec<W>, pub option29: Vec<W>, pub f18: Vec<W> }
pub mod m26 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U26 { pub v9: Vec<W>, pub item8: Vec<W>, pub other_4: Vec<W>, pub field_0: Vec<W>, pub vec1: Vec<W>, pub f7: Vec<W>, pub field_34: Vec<W>, pub f28: Vec<W>, pub field_5: Vec<W>, pub f18: Vec<W>, pub option29: Vec<W>, pub t_29: Vec<W>, pub f2: Vec<W>, pub field_33: Vec<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T27)]
#[auto_from(m27::U27)]
pub struct S27 { pub zz15: Option<u64>, pub f1: Option<u64>, pub field_30: Option<u64>, pub field_0: Option<u64>, pub v39: Option<u64>, pub f35: Option<u64>, pub t_13: Option<u64>, pub option37: Option<u64>, pub t_28: Option<u64>, pub field_36: Option<u64>, pub item18: Option<u64>, pub field_37: Option<u64>, pub vec16: Option<u64>, pub vec31: Option<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T27 { pub field_36: Option<W>, pub item18: Option<W>, pub option37: Option<W>, pub f35: Option<W>, pub field_37: Option<W>, pub t_28: Option<W>, pub vec16: Option<W>, pub f1: Option<W>, pub field_30: Option<W>, pub zz15: Option<W>, pub v39: Option<W>, pub t_13: Option<W>, pub field_0: Option<W>, pub vec31: Option<W> }
pub mod m27 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U27 { pub field_30: Option<W>, pub t_28: Option<W>, pub field_36: Option<W>, pub field_0: Option<W>, pub item18: Option<W>, pub t_13: Option<W>, pub vec31: Option<W>, pub vec16: Option<W>, pub f1: Option<W>, pub option37: Option<W>, pub field_37: Option<W>, pub f35: Option<W>, pub v39: Option<W>, pub zz15: Option<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T28)]
#[auto_from(m28::U28)]
pub struct S28 { pub v2: Box<u64>, pub other_1: Box<u64>, pub option0: Box<u64>, pub field_12: Box<u64>, pub v37: Box<u64>, pub item23: Box<u64>, pub f11: Box<u64>, pub zz5: Box<u64>, pub field_33: Box<u64>, pub vec20: Box<u64>, pub item36: Box<u64>, pub zz27: Box<u64>, pub field_10: Box<u64>, pub field_32: Box<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T28 { pub field_12: Box<W>, pub other_1: Box<W>, pub field_10: Box<W>, pub item36: Box<W>, pub zz27: Box<W>, pub item23: Box<W>, pub zz5: Box<W>, pub option0: Box<W>, pub v37: Box<W>, pub vec20: Box<W>, pub v2: Box<W>, pub f11: Box<W>, pub field_33: Box<W>, pub field_32: Box<W> }
pub mod m28 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U28 { pub item36: Box<W>, pub f11: Box<W>, pub v37: Box<W>, pub other_1: Box<W>, pub vec20: Box<W>, pub item23: Box<W>, pub v2: Box<W>, pub zz5: Box<W>, pub field_33: Box<W>, pub option0: Box<W>, pub field_10: Box<W>, pub field_32: Box<W>, pub field_12: Box<W>, pub zz27: Box<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T29)]
pub struct S29(pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64);
#[derive(Debug, Clone, PartialEq)]
pub struct T29(pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T30)]
pub struct S30(pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64, pub u64);
#[derive(Debug, Clone, PartialEq)]
pub struct T30(pub W, pub W, pub W, pub W, pub W, pub W, pub W, pub W, pub W, pub W, pub W, pub W, pub W, pub W);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T31)]
pub struct S31(pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>, pub Vec<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T31(pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>, pub Vec<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T32)]
pub struct S32(pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>, pub Option<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T32(pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>, pub Option<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T33)]
pub struct S33(pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>, pub Box<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T33(pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>, pub Box<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T34)]
#[auto_from(m34::U34)]
pub struct S34 { pub option18: u64, pub v16: Box<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T34 { pub option18: u64, pub v16: Box<W> }
pub mod m34 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U34 { pub v16: Box<W>, pub option18: u64 } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T35)]
#[auto_from(m35::U35)]
pub struct S35 { pub field_27: Vec<u64>, pub zz35: std::vec::Vec<u64>, pub t_34: std::vec::Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T35 { pub t_34: Vec<W>, pub zz35: Vec<W>, pub field_27: Vec<W> }
pub mod m35 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U35 { pub field_27: Vec<W>, pub t_34: Vec<W>, pub zz35: Vec<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T36)]
#[auto_from(m36::U36)]
pub struct S36 { pub field_39: u64, pub zz34: ::std::option::Option<u64>, pub field_32: Option<u64>, pub item8: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct T36 { pub item8: u64, pub field_32: Option<W>, pub zz34: Option<W>, pub field_39: u64 }
pub mod m36 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U36 { pub field_39: u64, pub item8: u64, pub zz34: Option<W>, pub field_32: Option<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T37)]
#[auto_from(m37::U37)]
pub struct S37 { pub zz29: (u64, u64), pub vec20: [u64; 3], pub v12: std::boxed::Box<u64>, pub a5: std::boxed::Box<u64>, pub v19: (u64, u64) }
#[derive(Debug, Clone, PartialEq)]
pub struct T37 { pub a5: Box<W>, pub zz29: (u64, u64), pub v12: Box<W>, pub vec20: [u64; 3], pub v19: (u64, u64) }
pub mod m37 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U37 { pub v19: (u64, u64), pub v12: Box<W>, pub zz29: (u64, u64), pub a5: Box<W>, pub vec20: [u64; 3] } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T38)]
#[auto_from(m38::U38)]
pub struct S38 { pub item29: std::vec::Vec<u64>, pub option21: Box<u64>, pub item30: u64, pub option12: [u64; 3], pub option31: Vec<u64>, pub a9: std::vec::Vec<u64>, pub option1: String }
#[derive(Debug, Clone, PartialEq)]
pub struct T38 { pub option21: Box<W>, pub a9: Vec<W>, pub option12: [u64; 3], pub option1: S, pub option31: Vec<W>, pub item29: Vec<W>, pub item30: u64 }
pub mod m38 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U38 { pub option21: Box<W>, pub option31: Vec<W>, pub item30: u64, pub item29: Vec<W>, pub option12: [u64; 3], pub option1: S, pub a9: Vec<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T39)]
#[auto_from(m39::U39)]
pub struct S39 { pub v30: [u64; 3], pub field_9: Vec<u64>, pub t_21: ::std::option::Option<u64>, pub option0: std::boxed::Box<u64>, pub f37: std::boxed::Box<u64>, pub other_12: u64, pub vec17: ::std::option::Option<u64>, pub v2: String, pub field_28: std::vec::Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T39 { pub f37: Box<W>, pub v2: S, pub t_21: Option<W>, pub option0: Box<W>, pub field_28: Vec<W>, pub vec17: Option<W>, pub other_12: W, pub field_9: Vec<W>, pub v30: [u64; 3] }
pub mod m39 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U39 { pub v2: S, pub field_28: Vec<W>, pub field_9: Vec<W>, pub vec17: Option<W>, pub other_12: W, pub option0: Box<W>, pub v30: [u64; 3], pub t_21: Option<W>, pub f37: Box<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T40)]
#[auto_from(m40::U40)]
pub struct S40 { pub other_26: [u64; 3], pub a18: u64, pub f15: std::vec::Vec<u64>, pub other_1: Box<u64>, pub field_6: (u64, u64), pub field_23: u64, pub other_39: Vec<u64>, pub zz20: Inner, pub option26: (u64, u64), pub a21: String, pub v2: std::vec::Vec<u64>, pub other_10: std::boxed::Box<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T40 { pub other_10: Box<W>, pub a21: S, pub f15: Vec<W>, pub v2: Vec<W>, pub field_6: (u64, u64), pub other_26: [u64; 3], pub a18: u64, pub option26: (u64, u64), pub field_23: u64, pub zz20: InnerT, pub other_1: Box<W>, pub other_39: Vec<W> }
pub mod m40 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U40 { pub zz20: InnerT, pub option26: (u64, u64), pub other_10: Box<W>, pub a18: u64, pub a21: S, pub field_23: u64, pub f15: Vec<W>, pub field_6: (u64, u64), pub other_39: Vec<W>, pub other_26: [u64; 3], pub v2: Vec<W>, pub other_1: Box<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T41)]
#[auto_from(m41::U41)]
pub struct S41 { pub option8: String, pub f8: u64, pub a23: Inner, pub f23: std::boxed::Box<u64>, pub f2: Box<u64>, pub t_22: Vec<u64>, pub f26: u64, pub field_33: std::vec::Vec<u64>, pub item15: ::std::option::Option<u64>, pub t_3: u64, pub item8: [u64; 3], pub option21: std::vec::Vec<u64>, pub zz11: std::boxed::Box<u64>, pub a30: Option<u64>, pub zz19: u64, pub field_37: u64, pub option36: Option<u64>, pub t_39: Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T41 { pub option36: Option<W>, pub f8: u64, pub option8: S, pub field_33: Vec<W>, pub item8: [u64; 3], pub field_37: u64, pub option21: Vec<W>, pub t_39: Vec<W>, pub t_3: W, pub f26: u64, pub a23: InnerT, pub item15: Option<W>, pub a30: Option<W>, pub f23: Box<W>, pub t_22: Vec<W>, pub zz19: W, pub zz11: Box<W>, pub f2: Box<W> }
pub mod m41 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U41 { pub f8: u64, pub option8: S, pub item15: Option<W>, pub t_3: W, pub t_39: Vec<W>, pub option36: Option<W>, pub a30: Option<W>, pub t_22: Vec<W>, pub field_33: Vec<W>, pub zz19: W, pub f23: Box<W>, pub f2: Box<W>, pub a23: InnerT, pub field_37: u64, pub zz11: Box<W>, pub option21: Vec<W>, pub item8: [u64; 3], pub f26: u64 } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T42)]
#[auto_from(m42::U42)]
pub struct S42 { pub zz20: ::std::option::Option<u64>, pub v24: Option<u64>, pub item27: Box<u64>, pub other_2: ::std::option::Option<u64>, pub t_16: (u64, u64), pub a24: String, pub zz11: Vec<u64>, pub vec38: Box<u64>, pub vec2: Option<u64>, pub other_9: Inner, pub f15: Inner, pub vec4: std::vec::Vec<u64>, pub a7: Option<u64>, pub a38: Option<u64>, pub v14: Option<u64>, pub f22: std::boxed::Box<u64>, pub t_35: Vec<u64>, pub a3: (u64, u64), pub option31: Option<u64>, pub f24: std::boxed::Box<u64>, pub f19: ::std::option::Option<u64>, pub v19: std::vec::Vec<u64>, pub option20: [u64; 3], pub vec13: std::vec::Vec<u64>, pub other_4: (u64, u64), pub field_34: [u64; 3] }
#[derive(Debug, Clone, PartialEq)]
pub struct T42 { pub f15: InnerT, pub a3: (u64, u64), pub zz11: Vec<W>, pub a24: S, pub vec38: Box<W>, pub f19: Option<W>, pub a38: Option<W>, pub v19: Vec<W>, pub f24: Box<W>, pub f22: Box<W>, pub other_2: Option<W>, pub zz20: Option<W>, pub v24: Option<W>, pub item27: Box<W>, pub t_35: Vec<W>, pub other_4: (u64, u64), pub v14: Option<W>, pub vec4: Vec<W>, pub option20: [u64; 3], pub vec2: Option<W>, pub vec13: Vec<W>, pub a7: Option<W>, pub other_9: InnerT, pub option31: Option<W>, pub field_34: [u64; 3], pub t_16: (u64, u64) }
pub mod m42 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U42 { pub option20: [u64; 3], pub other_4: (u64, u64), pub t_35: Vec<W>, pub t_16: (u64, u64), pub f15: InnerT, pub other_2: Option<W>, pub f19: Option<W>, pub option31: Option<W>, pub a3: (u64, u64), pub vec38: Box<W>, pub vec2: Option<W>, pub vec4: Vec<W>, pub f22: Box<W>, pub a24: S, pub v14: Option<W>, pub field_34: [u64; 3], pub item27: Box<W>, pub zz11: Vec<W>, pub a7: Option<W>, pub vec13: Vec<W>, pub v19: Vec<W>, pub zz20: Option<W>, pub v24: Option<W>, pub other_9: InnerT, pub f24: Box<W>, pub a38: Option<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T43)]
pub struct S43(pub Box<u64>, pub u64);
#[derive(Debug, Clone, PartialEq)]
pub struct T43(pub Box<W>, pub u64);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T44)]
pub struct S44(pub std::vec::Vec<u64>, pub Vec<u64>, pub String);
#[derive(Debug, Clone, PartialEq)]
pub struct T44(pub Vec<W>, pub Vec<W>, pub S);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T45)]
pub struct S45(pub (u64, u64), pub u64, pub Option<u64>, pub std::boxed::Box<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T45(pub (u64, u64), pub W, pub Option<W>, pub Box<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T46)]
pub struct S46(pub Inner, pub Option<u64>, pub std::vec::Vec<u64>, pub std::boxed::Box<u64>, pub std::boxed::Box<u64>, pub Option<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T46(pub InnerT, pub Option<W>, pub Vec<W>, pub Box<W>, pub Box<W>, pub Option<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T47)]
pub struct S47(pub String, pub Box<u64>, pub ::std::option::Option<u64>, pub std::vec::Vec<u64>, pub (u64, u64), pub u64, pub std::vec::Vec<u64>, pub u64, pub [u64; 3]);
#[derive(Debug, Clone, PartialEq)]
pub struct T47(pub S, pub Box<W>, pub Option<W>, pub Vec<W>, pub (u64, u64), pub W, pub Vec<W>, pub W, pub [u64; 3]);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T48)]
pub struct S48(pub Box<u64>, pub String, pub Option<u64>, pub ::std::option::Option<u64>, pub Inner, pub Box<u64>, pub [u64; 3], pub ::std::option::Option<u64>, pub std::vec::Vec<u64>, pub std::boxed::Box<u64>, pub u64);
#[derive(Debug, Clone, PartialEq)]
pub struct T48(pub Box<W>, pub S, pub Option<W>, pub Option<W>, pub InnerT, pub Box<W>, pub [u64; 3], pub Option<W>, pub Vec<W>, pub Box<W>, pub W);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T49)]
pub struct S49(pub [u64; 3], pub (u64, u64), pub Inner, pub u64, pub Vec<u64>, pub String, pub String, pub std::boxed::Box<u64>, pub u64, pub ::std::option::Option<u64>, pub Vec<u64>, pub Option<u64>, pub Option<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T49(pub [u64; 3], pub (u64, u64), pub InnerT, pub u64, pub Vec<W>, pub S, pub S, pub Box<W>, pub W, pub Option<W>, pub Vec<W>, pub Option<W>, pub Option<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T50)]
pub struct S50(pub std::vec::Vec<u64>, pub (u64, u64), pub ::std::option::Option<u64>, pub u64, pub std::vec::Vec<u64>, pub ::std::option::Option<u64>, pub String, pub u64, pub Inner, pub Vec<u64>, pub [u64; 3], pub (u64, u64), pub Box<u64>, pub Box<u64>, pub Box<u64>, pub [u64; 3], pub Option<u64>, pub Box<u64>, pub Box<u64>, pub std::vec::Vec<u64>, pub [u64; 3], pub [u64; 3]);
#[derive(Debug, Clone, PartialEq)]
pub struct T50(pub Vec<W>, pub (u64, u64), pub Option<W>, pub W, pub Vec<W>, pub Option<W>, pub S, pub u64, pub InnerT, pub Vec<W>, pub [u64; 3], pub (u64, u64), pub Box<W>, pub Box<W>, pub Box<W>, pub [u64; 3], pub Option<W>, pub Box<W>, pub Box<W>, pub Vec<W>, pub [u64; 3], pub [u64; 3]);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T51)]
pub enum S51 { Option19([u64; 3], String, [u64; 3], u64, String, ::std::option::Option<u64>, String, Option<u64>, Option<u64>, Option<u64>, u64, u64) }
#[derive(Debug, Clone, PartialEq)]
pub enum T51 { Option19([u64; 3], S, [u64; 3], u64, S, Option<W>, S, Option<W>, Option<W>, Option<W>, u64, u64) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T52)]
pub enum S52 { Some_13(::std::option::Option<u64>, Box<u64>, u64, Inner, u64, String, std::boxed::Box<u64>, Inner, Option<u64>, Inner, Box<u64>, Box<u64>), Item1 }
#[derive(Debug, Clone, PartialEq)]
pub enum T52 { Item1, Some_13(Option<W>, Box<W>, W, InnerT, W, S, Box<W>, InnerT, Option<W>, InnerT, Box<W>, Box<W>) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T53)]
pub enum S53 { Item29 { other_5: ::std::option::Option<u64>, item25: (u64, u64), t_30: std::boxed::Box<u64>, option10: Inner, a30: Inner }, A19([u64; 3], String, (u64, u64), Box<u64>, ::std::option::Option<u64>, ::std::option::Option<u64>, Vec<u64>, Vec<u64>, Vec<u64>, Box<u64>, u64, Box<u64>), Option32(u64, Inner, Option<u64>, ::std::option::Option<u64>, Box<u64>, Option<u64>, Inner, Box<u64>, ::std::option::Option<u64>, Vec<u64>, [u64; 3], Inner) }
#[derive(Debug, Clone, PartialEq)]
pub enum T53 { Item29 { item25: (u64, u64), a30: InnerT, t_30: Box<W>, option10: InnerT, other_5: Option<W> }, Option32(W, InnerT, Option<W>, Option<W>, Box<W>, Option<W>, InnerT, Box<W>, Option<W>, Vec<W>, [u64; 3], InnerT), A19([u64; 3], S, (u64, u64), Box<W>, Option<W>, Option<W>, Vec<W>, Vec<W>, Vec<W>, Box<W>, u64, Box<W>) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T54)]
pub enum S54 { Item38 { t_3: [u64; 3] }, Some_23 { other_0: Option<u64>, v6: Box<u64>, a31: Box<u64>, vec31: [u64; 3], vec21: std::boxed::Box<u64> }, A51(u64), Vec0 { vec39: u64, vec4: String, field_20: std::boxed::Box<u64> } }
#[derive(Debug, Clone, PartialEq)]
pub enum T54 { Item38 { t_3: [u64; 3] }, Some_23 { vec31: [u64; 3], a31: Box<W>, vec21: Box<W>, other_0: Option<W>, v6: Box<W> }, Vec0 { vec39: u64, field_20: Box<W>, vec4: S }, A51(u64) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T55)]
pub enum S55 { Option43 { item36: ::std::option::Option<u64> }, A44 { field_14: Inner, t_17: std::vec::Vec<u64>, option20: [u64; 3] }, Option20 { zz27: ::std::option::Option<u64>, a6: std::boxed::Box<u64>, v18: (u64, u64), field_23: u64, v30: u64 }, Z58(Inner, Vec<u64>), Z43(Inner, std::vec::Vec<u64>, ::std::option::Option<u64>, Option<u64>, u64, (u64, u64), ::std::option::Option<u64>, [u64; 3], std::vec::Vec<u64>, u64, u64, u64), Item59 }
#[derive(Debug, Clone, PartialEq)]
pub enum T55 { Option43 { item36: Option<W> }, Z43(InnerT, Vec<W>, Option<W>, Option<W>, W, (u64, u64), Option<W>, [u64; 3], Vec<W>, W, u64, W), A44 { option20: [u64; 3], t_17: Vec<W>, field_14: InnerT }, Z58(InnerT, Vec<W>), Item59, Option20 { a6: Box<W>, v30: W, v18: (u64, u64), zz27: Option<W>, field_23: u64 } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T56)]
pub enum S56 { Z29, A25 { a11: (u64, u64), field_24: std::boxed::Box<u64>, v28: Vec<u64>, option30: Inner, zz29: Vec<u64>, vec15: Option<u64>, item30: u64, v8: u64, t_19: Box<u64>, other_9: Inner, a34: u64, other_39: (u64, u64) }, Vec18 { field_33: (u64, u64), item28: String }, V33 { field_21: String }, Some_43 { v26: u64, a9: u64, zz31: (u64, u64) }, Vec21(u64, Inner, (u64, u64)), Vec43(Box<u64>), Item19(Inner, String) }
#[derive(Debug, Clone, PartialEq)]
pub enum T56 { Vec43(Box<W>), Some_43 { zz31: (u64, u64), v26: u64, a9: W }, A25 { field_24: Box<W>, option30: InnerT, a11: (u64, u64), vec15: Option<W>, other_39: (u64, u64), zz29: Vec<W>, v28: Vec<W>, t_19: Box<W>, a34: u64, v8: W, item30: u64, other_9: InnerT }, Z29, Vec18 { item28: S, field_33: (u64, u64) }, Vec21(W, InnerT, (u64, u64)), V33 { field_21: S }, Item19(InnerT, S) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T57)]
pub enum S57 { A25, Item30 { field_35: std::vec::Vec<u64>, other_7: u64 }, Vec38, V15 { field_32: [u64; 3], f19: u64, v13: [u64; 3] }, Vec58 { other_8: u64, other_9: u64, vec13: (u64, u64), other_20: [u64; 3], other_13: std::vec::Vec<u64> }, A35 { a39: std::vec::Vec<u64>, t_12: Vec<u64>, other_1: std::boxed::Box<u64>, option35: (u64, u64), vec2: (u64, u64), a1: String, t_21: u64, zz15: std::vec::Vec<u64>, t_30: Box<u64>, zz18: (u64, u64), f26: std::vec::Vec<u64>, option8: u64 }, A16(std::boxed::Box<u64>, Inner, Option<u64>), Some_29(Vec<u64>, Inner), Vec1(String), Vec55 { vec35: std::boxed::Box<u64> }, Z11(std::boxed::Box<u64>, Inner, String) }
#[derive(Debug, Clone, PartialEq)]
pub enum T57 { Z11(Box<W>, InnerT, S), Vec55 { vec35: Box<W> }, Vec1(S), Vec58 { vec13: (u64, u64), other_8: W, other_9: W, other_20: [u64; 3], other_13: Vec<W> }, A16(Box<W>, InnerT, Option<W>), V15 { v13: [u64; 3], field_32: [u64; 3], f19: W }, A35 { a1: S, a39: Vec<W>, zz15: Vec<W>, t_21: u64, option35: (u64, u64), t_30: Box<W>, zz18: (u64, u64), f26: Vec<W>, option8: W, vec2: (u64, u64), t_12: Vec<W>, other_1: Box<W> }, Vec38, Item30 { other_7: u64, field_35: Vec<W> }, A25, Some_29(Vec<W>, InnerT) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T58)]
pub enum S58 { A57(Vec<u64>, Box<u64>), V20 { option38: u64, vec19: ::std::option::Option<u64>, item7: (u64, u64) }, A14 { vec27: u64 }, A39 { f36: ::std::option::Option<u64>, a21: Vec<u64>, zz15: std::boxed::Box<u64>, f30: Vec<u64>, vec27: u64, option5: u64, a34: std::boxed::Box<u64>, v5: Box<u64>, zz36: Box<u64>, option28: u64, option8: ::std::option::Option<u64>, a18: [u64; 3] }, A21(u64, (u64, u64), [u64; 3]), Vec42((u64, u64), Inner, std::vec::Vec<u64>, Inner, ::std::option::Option<u64>), Some_53(u64, u64, [u64; 3], String, Inner), Item19(Option<u64>, [u64; 3], Option<u64>), Some_30([u64; 3], u64), Z25(Vec<u64>, ::std::option::Option<u64>, ::std::option::Option<u64>, String, std::vec::Vec<u64>), Option23 { option14: u64 }, Some_48 { item33: (u64, u64), t_8: u64, t_26: u64, v3: ::std::option::Option<u64>, a14: Vec<u64>, f32: std::boxed::Box<u64>, v0: std::vec::Vec<u64>, item2: [u64; 3], a27: Inner, option35: (u64, u64), vec2: std::vec::Vec<u64>, vec19: std::boxed::Box<u64> }, Z33((u64, u64), (u64, u64), u64), Item28(Box<u64>), A20(u64, u64, u64, std::vec::Vec<u64>, u64), Some_11 }
#[derive(Debug, Clone, PartialEq)]
pub enum T58 { Some_30([u64; 3], u64), Item19(Option<W>, [u64; 3], Option<W>), A57(Vec<W>, Box<W>), V20 { item7: (u64, u64), option38: u64, vec19: Option<W> }, A20(u64, W, u64, Vec<W>, W), A39 { a34: Box<W>, option8: Option<W>, f36: Option<W>, option28: u64, vec27: W, option5: W, f30: Vec<W>, a21: Vec<W>, zz36: Box<W>, zz15: Box<W>, a18: [u64; 3], v5: Box<W> }, Some_48 { v3: Option<W>, t_26: W, v0: Vec<W>, vec19: Box<W>, option35: (u64, u64), a14: Vec<W>, t_8: u64, a27: InnerT, vec2: Vec<W>, item33: (u64, u64), item2: [u64; 3], f32: Box<W> }, A14 { vec27: W }, Z33((u64, u64), (u64, u64), u64), Item28(Box<W>), Z25(Vec<W>, Option<W>, Option<W>, S, Vec<W>), Some_11, Some_53(W, u64, [u64; 3], S, InnerT), Option23 { option14: u64 }, Vec42((u64, u64), InnerT, Vec<W>, InnerT, Option<W>), A21(W, (u64, u64), [u64; 3]) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T59)]
pub enum S59 { Z56 { field_27: String, f20: Option<u64>, zz34: [u64; 3], item26: String, v20: u64, field_5: Vec<u64>, a13: Option<u64>, t_19: u64, vec14: Box<u64>, a7: u64, other_7: u64, item3: u64 }, Vec36(Box<u64>, (u64, u64), ::std::option::Option<u64>, Vec<u64>, String), Some_7 { t_16: Vec<u64>, f33: Box<u64>, f8: u64, vec37: Inner, other_11: std::boxed::Box<u64>, v38: u64, t_13: std::vec::Vec<u64>, vec39: std::boxed::Box<u64>, t_10: Inner, other_19: [u64; 3], v29: [u64; 3], other_31: u64 }, Item4, Option46(Box<u64>, Option<u64>), A28(std::boxed::Box<u64>, [u64; 3], std::boxed::Box<u64>), V12, V11(std::boxed::Box<u64>), Option58(Option<u64>), Item28 { other_0: Inner, field_21: u64 }, Option35, V35(u64), Some_41, A29, Item44 { other_14: u64, v12: u64 }, Vec39 { zz10: [u64; 3], option35: u64, vec7: u64 }, Some_48 { option25: String }, Item12 { field_22: Option<u64>, field_34: (u64, u64), other_4: (u64, u64), a26: Inner, v8: std::boxed::Box<u64> }, Some_28 { field_34: Inner, item0: [u64; 3], other_11: [u64; 3], field_29: Option<u64>, vec0: String, vec15: ::std::option::Option<u64>, v36: std::vec::Vec<u64>, zz11: Box<u64>, t_20: std::boxed::Box<u64>, item15: ::std::option::Option<u64>, item14: [u64; 3], vec4: Vec<u64> }, Item35(Vec<u64>, Box<u64>, Inner), Option37(std::boxed::Box<u64>, [u64; 3], String, [u64; 3], [u64; 3]), Option16(Inner, Vec<u64>, (u64, u64), u64, String, u64, u64, std::boxed::Box<u64>, String, u64, u64, Vec<u64>), V16 { other_24: Option<u64>, vec26: [u64; 3], f6: Vec<u64>, zz1: std::boxed::Box<u64>, field_3: (u64, u64), option22: String, v10: ::std::option::Option<u64>, item32: ::std::option::Option<u64>, item36: String, vec6: u64, option35: ::std::option::Option<u64>, other_26: std::vec::Vec<u64> }, Item37(::std::option::Option<u64>, ::std::option::Option<u64>, Option<u64>, String, [u64; 3], Vec<u64>, u64, Vec<u64>, Inner, (u64, u64), Vec<u64>, [u64; 3]), Option25 { a39: std::vec::Vec<u64>, t_8: std::boxed::Box<u64>, option11: Box<u64>, zz39: Inner, f24: std::vec::Vec<u64> } }
#[derive(Debug, Clone, PartialEq)]
pub enum T59 { Z56 { t_19: W, f20: Option<W>, v20: u64, item3: u64, field_27: S, item26: S, zz34: [u64; 3], a13: Option<W>, field_5: Vec<W>, vec14: Box<W>, other_7: u64, a7: W }, V11(Box<W>), Item44 { v12: u64, other_14: W }, Item28 { other_0: InnerT, field_21: u64 }, Item12 { other_4: (u64, u64), v8: Box<W>, field_22: Option<W>, a26: InnerT, field_34: (u64, u64) }, Vec39 { vec7: u64, option35: W, zz10: [u64; 3] }, V16 { v10: Option<W>, item36: S, item32: Option<W>, zz1: Box<W>, option35: Option<W>, field_3: (u64, u64), vec6: W, f6: Vec<W>, vec26: [u64; 3], other_26: Vec<W>, other_24: Option<W>, option22: S }, Option16(InnerT, Vec<W>, (u64, u64), W, S, u64, W, Box<W>, S, W, W, Vec<W>), Some_41, V12, Item4, Option37(Box<W>, [u64; 3], S, [u64; 3], [u64; 3]), Some_28 { t_20: Box<W>, field_29: Option<W>, item0: [u64; 3], field_34: InnerT, other_11: [u64; 3], item15: Option<W>, vec15: Option<W>, vec0: S, vec4: Vec<W>, item14: [u64; 3], v36: Vec<W>, zz11: Box<W> }, Option25 { a39: Vec<W>, option11: Box<W>, f24: Vec<W>, zz39: InnerT, t_8: Box<W> }, Option58(Option<W>), V35(W), Vec36(Box<W>, (u64, u64), Option<W>, Vec<W>, S), Item37(Option<W>, Option<W>, Option<W>, S, [u64; 3], Vec<W>, W, Vec<W>, InnerT, (u64, u64), Vec<W>, [u64; 3]), Some_48 { option25: S }, A29, Some_7 { other_31: u64, f8: W, other_11: Box<W>, t_10: InnerT, vec37: InnerT, other_19: [u64; 3], vec39: Box<W>, f33: Box<W>, v38: u64, v29: [u64; 3], t_13: Vec<W>, t_16: Vec<W> }, Item35(Vec<W>, Box<W>, InnerT), Option46(Box<W>, Option<W>), Option35, A28(Box<W>, [u64; 3], Box<W>) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T60)]
#[auto_from(m60::U60)]
pub struct S60 { pub field_15: Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T60 { pub field_15: Vec<W> }
pub mod m60 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U60 { pub field_15: Vec<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T61)]
#[auto_from(m61::U61)]
pub struct S61 { pub t_22: u64, pub other_9: u64, pub a29: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct T61 { pub a29: W, pub other_9: W, pub t_22: W }
pub mod m61 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U61 { pub a29: W, pub t_22: W, pub other_9: W } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T62)]
#[auto_from(m62::U62)]
pub struct S62 { pub vec12: String, pub option3: std::boxed::Box<u64>, pub f16: u64, pub option27: (u64, u64), pub zz27: Vec<u64>, pub field_11: Box<u64>, pub vec13: [u64; 3], pub option31: Inner, pub f18: u64, pub option28: ::std::option::Option<u64>, pub item7: Option<u64>, pub item36: std::vec::Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct T62 { pub f18: W, pub option27: (u64, u64), pub option28: Option<W>, pub option3: Box<W>, pub zz27: Vec<W>, pub item36: Vec<W>, pub vec13: [u64; 3], pub item7: Option<W>, pub option31: InnerT, pub field_11: Box<W>, pub f16: u64, pub vec12: S }
pub mod m62 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U62 { pub f18: W, pub zz27: Vec<W>, pub option31: InnerT, pub field_11: Box<W>, pub option27: (u64, u64), pub vec12: S, pub item7: Option<W>, pub option28: Option<W>, pub item36: Vec<W>, pub f16: u64, pub option3: Box<W>, pub vec13: [u64; 3] } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T63)]
#[auto_from(m63::U63)]
pub struct S63 { pub v32: [u64; 3], pub zz39: ::std::option::Option<u64>, pub a9: (u64, u64), pub zz4: std::boxed::Box<u64>, pub item11: Box<u64>, pub vec4: Vec<u64>, pub field_22: u64, pub other_5: Option<u64>, pub a1: std::vec::Vec<u64>, pub v20: String, pub v35: Inner, pub vec11: u64, pub x_last: Vec<u64>, pub a_last: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct T63 { pub zz39: Option<W>, pub v35: InnerT, pub a9: (u64, u64), pub item11: Box<W>, pub other_5: Option<W>, pub field_22: W, pub vec11: u64, pub x_last: Vec<W>, pub a_last: u64, pub a1: Vec<W>, pub v20: S, pub zz4: Box<W>, pub vec4: Vec<W>, pub v32: [u64; 3] }
pub mod m63 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U63 { pub x_last: Vec<W>, pub zz4: Box<W>, pub a9: (u64, u64), pub other_5: Option<W>, pub field_22: W, pub a1: Vec<W>, pub v20: S, pub item11: Box<W>, pub vec4: Vec<W>, pub vec11: u64, pub zz39: Option<W>, pub a_last: u64, pub v35: InnerT, pub v32: [u64; 3] } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T64)]
#[auto_from(m64::U64)]
pub struct S64 { pub r#type: u64, pub r#match: u64, pub r#fn: Vec<u64>, pub self_: Option<u64>, pub item: Box<u64>, pub other: std::vec::Vec<u64>, pub t: ::std::option::Option<u64>, pub v0: std::boxed::Box<u64>, pub v1: (u64, u64), pub v2: [u64; 3], pub v10: Inner }
#[derive(Debug, Clone, PartialEq)]
pub struct T64 { pub v0: Box<W>, pub r#fn: Vec<W>, pub v2: [u64; 3], pub t: Option<W>, pub other: Vec<W>, pub r#type: W, pub v10: InnerT, pub r#match: u64, pub item: Box<W>, pub self_: Option<W>, pub v1: (u64, u64) }
pub mod m64 { use super::*; #[derive(Debug, Clone, PartialEq)]
pub struct U64 { pub v0: Box<W>, pub v2: [u64; 3], pub r#match: u64, pub self_: Option<W>, pub v1: (u64, u64), pub v10: InnerT, pub t: Option<W>, pub item: Box<W>, pub r#type: W, pub r#fn: Vec<W>, pub other: Vec<W> } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T65)]
pub struct S65(pub Option<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T65(pub Option<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T66)]
pub struct S66(pub Option<u64>, pub [u64; 3], pub ::std::option::Option<u64>, pub Box<u64>, pub std::vec::Vec<u64>, pub std::boxed::Box<u64>, pub (u64, u64), pub Inner, pub String, pub u64, pub u64, pub Vec<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct T66(pub Option<W>, pub [u64; 3], pub Option<W>, pub Box<W>, pub Vec<W>, pub Box<W>, pub (u64, u64), pub InnerT, pub S, pub W, pub u64, pub Vec<W>);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T67)]
pub struct S67(pub Inner, pub u64, pub Option<u64>, pub Vec<u64>, pub std::boxed::Box<u64>, pub [u64; 3], pub String, pub ::std::option::Option<u64>, pub u64, pub (u64, u64), pub Box<u64>, pub std::vec::Vec<u64>, pub u64, pub [u64; 3], pub std::vec::Vec<u64>, pub ::std::option::Option<u64>, pub Box<u64>, pub Vec<u64>, pub Option<u64>, pub std::boxed::Box<u64>, pub (u64, u64), pub String, pub Inner, pub u64);
#[derive(Debug, Clone, PartialEq)]
pub struct T67(pub InnerT, pub u64, pub Option<W>, pub Vec<W>, pub Box<W>, pub [u64; 3], pub S, pub Option<W>, pub W, pub (u64, u64), pub Box<W>, pub Vec<W>, pub W, pub [u64; 3], pub Vec<W>, pub Option<W>, pub Box<W>, pub Vec<W>, pub Option<W>, pub Box<W>, pub (u64, u64), pub S, pub InnerT, pub u64);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T68)]
pub enum S68 { Item20 }
#[derive(Debug, Clone, PartialEq)]
pub enum T68 { Item20 }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T69)]
pub enum S69 { Z47 { zz13: Box<u64>, zz22: std::boxed::Box<u64>, vec37: std::vec::Vec<u64>, item30: [u64; 3], option35: (u64, u64), option24: (u64, u64), other_25: [u64; 3], zz29: Vec<u64>, option37: u64, f25: [u64; 3], vec0: String, other_12: ::std::option::Option<u64> }, V3 { f5: std::boxed::Box<u64> }, Item1(Inner, ::std::option::Option<u64>), Item29((u64, u64)), V19(std::boxed::Box<u64>) }
#[derive(Debug, Clone, PartialEq)]
pub enum T69 { Item1(InnerT, Option<W>), V19(Box<W>), Z47 { option37: u64, option35: (u64, u64), other_12: Option<W>, item30: [u64; 3], f25: [u64; 3], vec0: S, vec37: Vec<W>, other_25: [u64; 3], zz22: Box<W>, option24: (u64, u64), zz13: Box<W>, zz29: Vec<W> }, V3 { f5: Box<W> }, Item29((u64, u64)) }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(T70)]
pub enum S70 { Vec27, Z12, V38(std::boxed::Box<u64>, Vec<u64>), Option3 { option21: [u64; 3] }, Z56((u64, u64)), Option38(::std::option::Option<u64>, Box<u64>, [u64; 3]), V56 { zz16: std::vec::Vec<u64>, zz9: ::std::option::Option<u64> }, Z19, Some_51 { option35: std::boxed::Box<u64>, item35: Vec<u64>, v11: Inner } }
#[derive(Debug, Clone, PartialEq)]
pub enum T70 { Z56((u64, u64)), V38(Box<W>, Vec<W>), Option38(Option<W>, Box<W>, [u64; 3]), Vec27, Option3 { option21: [u64; 3] }, Some_51 { option35: Box<W>, item35: Vec<W>, v11: InnerT }, Z12, Z19, V56 { zz9: Option<W>, zz16: Vec<W> } }
