// written by tools/gen_autofrom.py
pub open spec fn Inner_InnerT(v: Inner) -> InnerT { InnerT { a: W(v.a), b: mapped::<u64, W>(v.b) } }
pub open spec fn InnerT_Inner(v: InnerT) -> Inner { Inner { a: v.a.0, b: mapped::<W, u64>(v.b) } }
impl FromSpecImpl<Inner> for InnerT { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Inner) -> Self { Inner_InnerT(v) } }
impl FromSpecImpl<InnerT> for Inner { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: InnerT) -> Self { InnerT_Inner(v) } }
impl<const G0: u16> FromSpecImpl<Inner> for Versioned<InnerT, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Inner) -> Self { w1::<InnerT, G0>(Inner_InnerT(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<InnerT, G0>> for Inner { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<InnerT, G0>) -> Self { InnerT_Inner(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Inner> for Versioned<Versioned<InnerT, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Inner) -> Self { w2::<InnerT, G0, G1>(Inner_InnerT(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<InnerT, G0>, G1>> for Inner { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<InnerT, G0>, G1>) -> Self { InnerT_Inner(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Inner> for Versioned<Versioned<Versioned<InnerT, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Inner) -> Self { w3::<InnerT, G0, G1, G2>(Inner_InnerT(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<InnerT, G0>, G1>, G2>> for Inner { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<InnerT, G0>, G1>, G2>) -> Self { InnerT_Inner(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Inner> for Versioned<Versioned<Versioned<Versioned<InnerT, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Inner) -> Self { w4::<InnerT, G0, G1, G2, G3>(Inner_InnerT(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<InnerT, G0>, G1>, G2>, G3>> for Inner { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<InnerT, G0>, G1>, G2>, G3>) -> Self { InnerT_Inner(v.t.t.t.t) } }
pub struct S60 { pub field_15: Vec<u64> }
pub struct T60 { pub field_15: Vec<W> }
pub open spec fn S60_T60(v: S60) -> T60 { T60 { field_15: mapped::<u64, W>(v.field_15) } }
pub open spec fn T60_S60(v: T60) -> S60 { S60 { field_15: mapped::<W, u64>(v.field_15) } }
impl FromSpecImpl<S60> for T60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { S60_T60(v) } }
impl FromSpecImpl<T60> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T60) -> Self { T60_S60(v) } }
impl<const G0: u16> FromSpecImpl<S60> for Versioned<T60, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { w1::<T60, G0>(S60_T60(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T60, G0>> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T60, G0>) -> Self { T60_S60(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S60> for Versioned<Versioned<T60, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { w2::<T60, G0, G1>(S60_T60(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T60, G0>, G1>> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T60, G0>, G1>) -> Self { T60_S60(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S60> for Versioned<Versioned<Versioned<T60, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { w3::<T60, G0, G1, G2>(S60_T60(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T60, G0>, G1>, G2>> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T60, G0>, G1>, G2>) -> Self { T60_S60(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S60> for Versioned<Versioned<Versioned<Versioned<T60, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { w4::<T60, G0, G1, G2, G3>(S60_T60(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T60, G0>, G1>, G2>, G3>> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T60, G0>, G1>, G2>, G3>) -> Self { T60_S60(v.t.t.t.t) } }
pub struct U60 { pub field_15: Vec<W> }
pub open spec fn S60_U60(v: S60) -> U60 { U60 { field_15: mapped::<u64, W>(v.field_15) } }
pub open spec fn U60_S60(v: U60) -> S60 { S60 { field_15: mapped::<W, u64>(v.field_15) } }
impl FromSpecImpl<S60> for U60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { S60_U60(v) } }
impl FromSpecImpl<U60> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: U60) -> Self { U60_S60(v) } }
impl<const G0: u16> FromSpecImpl<S60> for Versioned<U60, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { w1::<U60, G0>(S60_U60(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<U60, G0>> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<U60, G0>) -> Self { U60_S60(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S60> for Versioned<Versioned<U60, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { w2::<U60, G0, G1>(S60_U60(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<U60, G0>, G1>> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<U60, G0>, G1>) -> Self { U60_S60(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S60> for Versioned<Versioned<Versioned<U60, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { w3::<U60, G0, G1, G2>(S60_U60(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<U60, G0>, G1>, G2>> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<U60, G0>, G1>, G2>) -> Self { U60_S60(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S60> for Versioned<Versioned<Versioned<Versioned<U60, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S60) -> Self { w4::<U60, G0, G1, G2, G3>(S60_U60(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<U60, G0>, G1>, G2>, G3>> for S60 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<U60, G0>, G1>, G2>, G3>) -> Self { U60_S60(v.t.t.t.t) } }
pub struct S61 { pub t_22: u64, pub other_9: u64, pub a29: u64 }
pub struct T61 { pub t_22: W, pub other_9: W, pub a29: W }
pub open spec fn S61_T61(v: S61) -> T61 { T61 { t_22: W(v.t_22), other_9: W(v.other_9), a29: W(v.a29) } }
pub open spec fn T61_S61(v: T61) -> S61 { S61 { t_22: v.t_22.0, other_9: v.other_9.0, a29: v.a29.0 } }
impl FromSpecImpl<S61> for T61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { S61_T61(v) } }
impl FromSpecImpl<T61> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T61) -> Self { T61_S61(v) } }
impl<const G0: u16> FromSpecImpl<S61> for Versioned<T61, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { w1::<T61, G0>(S61_T61(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T61, G0>> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T61, G0>) -> Self { T61_S61(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S61> for Versioned<Versioned<T61, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { w2::<T61, G0, G1>(S61_T61(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T61, G0>, G1>> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T61, G0>, G1>) -> Self { T61_S61(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S61> for Versioned<Versioned<Versioned<T61, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { w3::<T61, G0, G1, G2>(S61_T61(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T61, G0>, G1>, G2>> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T61, G0>, G1>, G2>) -> Self { T61_S61(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S61> for Versioned<Versioned<Versioned<Versioned<T61, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { w4::<T61, G0, G1, G2, G3>(S61_T61(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T61, G0>, G1>, G2>, G3>> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T61, G0>, G1>, G2>, G3>) -> Self { T61_S61(v.t.t.t.t) } }
pub struct U61 { pub t_22: W, pub other_9: W, pub a29: W }
pub open spec fn S61_U61(v: S61) -> U61 { U61 { t_22: W(v.t_22), other_9: W(v.other_9), a29: W(v.a29) } }
pub open spec fn U61_S61(v: U61) -> S61 { S61 { t_22: v.t_22.0, other_9: v.other_9.0, a29: v.a29.0 } }
impl FromSpecImpl<S61> for U61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { S61_U61(v) } }
impl FromSpecImpl<U61> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: U61) -> Self { U61_S61(v) } }
impl<const G0: u16> FromSpecImpl<S61> for Versioned<U61, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { w1::<U61, G0>(S61_U61(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<U61, G0>> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<U61, G0>) -> Self { U61_S61(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S61> for Versioned<Versioned<U61, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { w2::<U61, G0, G1>(S61_U61(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<U61, G0>, G1>> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<U61, G0>, G1>) -> Self { U61_S61(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S61> for Versioned<Versioned<Versioned<U61, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { w3::<U61, G0, G1, G2>(S61_U61(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<U61, G0>, G1>, G2>> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<U61, G0>, G1>, G2>) -> Self { U61_S61(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S61> for Versioned<Versioned<Versioned<Versioned<U61, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S61) -> Self { w4::<U61, G0, G1, G2, G3>(S61_U61(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<U61, G0>, G1>, G2>, G3>> for S61 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<U61, G0>, G1>, G2>, G3>) -> Self { U61_S61(v.t.t.t.t) } }
pub struct S62 { pub vec12: String, pub option3: std::boxed::Box<u64>, pub f16: u64, pub option27: (u64, u64), pub zz27: Vec<u64>, pub field_11: Box<u64>, pub vec13: [u64; 3], pub option31: Inner, pub f18: u64, pub option28: ::std::option::Option<u64>, pub item7: Option<u64>, pub item36: std::vec::Vec<u64> }
pub struct T62 { pub vec12: S, pub option3: Box<W>, pub f16: u64, pub option27: (u64, u64), pub zz27: Vec<W>, pub field_11: Box<W>, pub vec13: [u64; 3], pub option31: InnerT, pub f18: W, pub option28: Option<W>, pub item7: Option<W>, pub item36: Vec<W> }
pub open spec fn S62_T62(v: S62) -> T62 { T62 { vec12: S(v.vec12), option3: Box::new(W(*v.option3)), f16: v.f16, option27: v.option27, zz27: mapped::<u64, W>(v.zz27), field_11: Box::new(W(*v.field_11)), vec13: v.vec13, option31: Inner_InnerT(v.option31), f18: W(v.f18), option28: (match v.option28 { Some(x) => Some(W(x)), None => None }), item7: (match v.item7 { Some(x) => Some(W(x)), None => None }), item36: mapped::<u64, W>(v.item36) } }
pub open spec fn T62_S62(v: T62) -> S62 { S62 { vec12: v.vec12.0, option3: Box::new((*v.option3).0), f16: v.f16, option27: v.option27, zz27: mapped::<W, u64>(v.zz27), field_11: Box::new((*v.field_11).0), vec13: v.vec13, option31: InnerT_Inner(v.option31), f18: v.f18.0, option28: (match v.option28 { Some(x) => Some(x.0), None => None }), item7: (match v.item7 { Some(x) => Some(x.0), None => None }), item36: mapped::<W, u64>(v.item36) } }
impl FromSpecImpl<S62> for T62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { S62_T62(v) } }
impl FromSpecImpl<T62> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T62) -> Self { T62_S62(v) } }
impl<const G0: u16> FromSpecImpl<S62> for Versioned<T62, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { w1::<T62, G0>(S62_T62(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T62, G0>> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T62, G0>) -> Self { T62_S62(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S62> for Versioned<Versioned<T62, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { w2::<T62, G0, G1>(S62_T62(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T62, G0>, G1>> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T62, G0>, G1>) -> Self { T62_S62(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S62> for Versioned<Versioned<Versioned<T62, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { w3::<T62, G0, G1, G2>(S62_T62(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T62, G0>, G1>, G2>> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T62, G0>, G1>, G2>) -> Self { T62_S62(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S62> for Versioned<Versioned<Versioned<Versioned<T62, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { w4::<T62, G0, G1, G2, G3>(S62_T62(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T62, G0>, G1>, G2>, G3>> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T62, G0>, G1>, G2>, G3>) -> Self { T62_S62(v.t.t.t.t) } }
pub struct U62 { pub vec12: S, pub option3: Box<W>, pub f16: u64, pub option27: (u64, u64), pub zz27: Vec<W>, pub field_11: Box<W>, pub vec13: [u64; 3], pub option31: InnerT, pub f18: W, pub option28: Option<W>, pub item7: Option<W>, pub item36: Vec<W> }
pub open spec fn S62_U62(v: S62) -> U62 { U62 { vec12: S(v.vec12), option3: Box::new(W(*v.option3)), f16: v.f16, option27: v.option27, zz27: mapped::<u64, W>(v.zz27), field_11: Box::new(W(*v.field_11)), vec13: v.vec13, option31: Inner_InnerT(v.option31), f18: W(v.f18), option28: (match v.option28 { Some(x) => Some(W(x)), None => None }), item7: (match v.item7 { Some(x) => Some(W(x)), None => None }), item36: mapped::<u64, W>(v.item36) } }
pub open spec fn U62_S62(v: U62) -> S62 { S62 { vec12: v.vec12.0, option3: Box::new((*v.option3).0), f16: v.f16, option27: v.option27, zz27: mapped::<W, u64>(v.zz27), field_11: Box::new((*v.field_11).0), vec13: v.vec13, option31: InnerT_Inner(v.option31), f18: v.f18.0, option28: (match v.option28 { Some(x) => Some(x.0), None => None }), item7: (match v.item7 { Some(x) => Some(x.0), None => None }), item36: mapped::<W, u64>(v.item36) } }
impl FromSpecImpl<S62> for U62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { S62_U62(v) } }
impl FromSpecImpl<U62> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: U62) -> Self { U62_S62(v) } }
impl<const G0: u16> FromSpecImpl<S62> for Versioned<U62, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { w1::<U62, G0>(S62_U62(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<U62, G0>> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<U62, G0>) -> Self { U62_S62(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S62> for Versioned<Versioned<U62, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { w2::<U62, G0, G1>(S62_U62(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<U62, G0>, G1>> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<U62, G0>, G1>) -> Self { U62_S62(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S62> for Versioned<Versioned<Versioned<U62, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { w3::<U62, G0, G1, G2>(S62_U62(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<U62, G0>, G1>, G2>> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<U62, G0>, G1>, G2>) -> Self { U62_S62(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S62> for Versioned<Versioned<Versioned<Versioned<U62, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S62) -> Self { w4::<U62, G0, G1, G2, G3>(S62_U62(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<U62, G0>, G1>, G2>, G3>> for S62 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<U62, G0>, G1>, G2>, G3>) -> Self { U62_S62(v.t.t.t.t) } }
pub struct S63 { pub v32: [u64; 3], pub zz39: ::std::option::Option<u64>, pub a9: (u64, u64), pub zz4: std::boxed::Box<u64>, pub item11: Box<u64>, pub vec4: Vec<u64>, pub field_22: u64, pub other_5: Option<u64>, pub a1: std::vec::Vec<u64>, pub v20: String, pub v35: Inner, pub vec11: u64, pub x_last: Vec<u64>, pub a_last: u64 }
pub struct T63 { pub v32: [u64; 3], pub zz39: Option<W>, pub a9: (u64, u64), pub zz4: Box<W>, pub item11: Box<W>, pub vec4: Vec<W>, pub field_22: W, pub other_5: Option<W>, pub a1: Vec<W>, pub v20: S, pub v35: InnerT, pub vec11: u64, pub x_last: Vec<W>, pub a_last: u64 }
pub open spec fn S63_T63(v: S63) -> T63 { T63 { v32: v.v32, zz39: (match v.zz39 { Some(x) => Some(W(x)), None => None }), a9: v.a9, zz4: Box::new(W(*v.zz4)), item11: Box::new(W(*v.item11)), vec4: mapped::<u64, W>(v.vec4), field_22: W(v.field_22), other_5: (match v.other_5 { Some(x) => Some(W(x)), None => None }), a1: mapped::<u64, W>(v.a1), v20: S(v.v20), v35: Inner_InnerT(v.v35), vec11: v.vec11, x_last: mapped::<u64, W>(v.x_last), a_last: v.a_last } }
pub open spec fn T63_S63(v: T63) -> S63 { S63 { v32: v.v32, zz39: (match v.zz39 { Some(x) => Some(x.0), None => None }), a9: v.a9, zz4: Box::new((*v.zz4).0), item11: Box::new((*v.item11).0), vec4: mapped::<W, u64>(v.vec4), field_22: v.field_22.0, other_5: (match v.other_5 { Some(x) => Some(x.0), None => None }), a1: mapped::<W, u64>(v.a1), v20: v.v20.0, v35: InnerT_Inner(v.v35), vec11: v.vec11, x_last: mapped::<W, u64>(v.x_last), a_last: v.a_last } }
impl FromSpecImpl<S63> for T63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { S63_T63(v) } }
impl FromSpecImpl<T63> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T63) -> Self { T63_S63(v) } }
impl<const G0: u16> FromSpecImpl<S63> for Versioned<T63, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { w1::<T63, G0>(S63_T63(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T63, G0>> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T63, G0>) -> Self { T63_S63(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S63> for Versioned<Versioned<T63, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { w2::<T63, G0, G1>(S63_T63(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T63, G0>, G1>> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T63, G0>, G1>) -> Self { T63_S63(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S63> for Versioned<Versioned<Versioned<T63, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { w3::<T63, G0, G1, G2>(S63_T63(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T63, G0>, G1>, G2>> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T63, G0>, G1>, G2>) -> Self { T63_S63(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S63> for Versioned<Versioned<Versioned<Versioned<T63, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { w4::<T63, G0, G1, G2, G3>(S63_T63(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T63, G0>, G1>, G2>, G3>> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T63, G0>, G1>, G2>, G3>) -> Self { T63_S63(v.t.t.t.t) } }
pub struct U63 { pub v32: [u64; 3], pub zz39: Option<W>, pub a9: (u64, u64), pub zz4: Box<W>, pub item11: Box<W>, pub vec4: Vec<W>, pub field_22: W, pub other_5: Option<W>, pub a1: Vec<W>, pub v20: S, pub v35: InnerT, pub vec11: u64, pub x_last: Vec<W>, pub a_last: u64 }
pub open spec fn S63_U63(v: S63) -> U63 { U63 { v32: v.v32, zz39: (match v.zz39 { Some(x) => Some(W(x)), None => None }), a9: v.a9, zz4: Box::new(W(*v.zz4)), item11: Box::new(W(*v.item11)), vec4: mapped::<u64, W>(v.vec4), field_22: W(v.field_22), other_5: (match v.other_5 { Some(x) => Some(W(x)), None => None }), a1: mapped::<u64, W>(v.a1), v20: S(v.v20), v35: Inner_InnerT(v.v35), vec11: v.vec11, x_last: mapped::<u64, W>(v.x_last), a_last: v.a_last } }
pub open spec fn U63_S63(v: U63) -> S63 { S63 { v32: v.v32, zz39: (match v.zz39 { Some(x) => Some(x.0), None => None }), a9: v.a9, zz4: Box::new((*v.zz4).0), item11: Box::new((*v.item11).0), vec4: mapped::<W, u64>(v.vec4), field_22: v.field_22.0, other_5: (match v.other_5 { Some(x) => Some(x.0), None => None }), a1: mapped::<W, u64>(v.a1), v20: v.v20.0, v35: InnerT_Inner(v.v35), vec11: v.vec11, x_last: mapped::<W, u64>(v.x_last), a_last: v.a_last } }
impl FromSpecImpl<S63> for U63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { S63_U63(v) } }
impl FromSpecImpl<U63> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: U63) -> Self { U63_S63(v) } }
impl<const G0: u16> FromSpecImpl<S63> for Versioned<U63, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { w1::<U63, G0>(S63_U63(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<U63, G0>> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<U63, G0>) -> Self { U63_S63(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S63> for Versioned<Versioned<U63, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { w2::<U63, G0, G1>(S63_U63(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<U63, G0>, G1>> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<U63, G0>, G1>) -> Self { U63_S63(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S63> for Versioned<Versioned<Versioned<U63, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { w3::<U63, G0, G1, G2>(S63_U63(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<U63, G0>, G1>, G2>> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<U63, G0>, G1>, G2>) -> Self { U63_S63(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S63> for Versioned<Versioned<Versioned<Versioned<U63, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S63) -> Self { w4::<U63, G0, G1, G2, G3>(S63_U63(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<U63, G0>, G1>, G2>, G3>> for S63 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<U63, G0>, G1>, G2>, G3>) -> Self { U63_S63(v.t.t.t.t) } }
pub struct S64 { pub r#type: u64, pub r#match: u64, pub r#fn: Vec<u64>, pub self_: Option<u64>, pub item: Box<u64>, pub other: std::vec::Vec<u64>, pub t: ::std::option::Option<u64>, pub v0: std::boxed::Box<u64>, pub v1: (u64, u64), pub v2: [u64; 3], pub v10: Inner }
pub struct T64 { pub r#type: W, pub r#match: u64, pub r#fn: Vec<W>, pub self_: Option<W>, pub item: Box<W>, pub other: Vec<W>, pub t: Option<W>, pub v0: Box<W>, pub v1: (u64, u64), pub v2: [u64; 3], pub v10: InnerT }
pub open spec fn S64_T64(v: S64) -> T64 { T64 { r#type: W(v.r#type), r#match: v.r#match, r#fn: mapped::<u64, W>(v.r#fn), self_: (match v.self_ { Some(x) => Some(W(x)), None => None }), item: Box::new(W(*v.item)), other: mapped::<u64, W>(v.other), t: (match v.t { Some(x) => Some(W(x)), None => None }), v0: Box::new(W(*v.v0)), v1: v.v1, v2: v.v2, v10: Inner_InnerT(v.v10) } }
pub open spec fn T64_S64(v: T64) -> S64 { S64 { r#type: v.r#type.0, r#match: v.r#match, r#fn: mapped::<W, u64>(v.r#fn), self_: (match v.self_ { Some(x) => Some(x.0), None => None }), item: Box::new((*v.item).0), other: mapped::<W, u64>(v.other), t: (match v.t { Some(x) => Some(x.0), None => None }), v0: Box::new((*v.v0).0), v1: v.v1, v2: v.v2, v10: InnerT_Inner(v.v10) } }
impl FromSpecImpl<S64> for T64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { S64_T64(v) } }
impl FromSpecImpl<T64> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T64) -> Self { T64_S64(v) } }
impl<const G0: u16> FromSpecImpl<S64> for Versioned<T64, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { w1::<T64, G0>(S64_T64(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T64, G0>> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T64, G0>) -> Self { T64_S64(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S64> for Versioned<Versioned<T64, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { w2::<T64, G0, G1>(S64_T64(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T64, G0>, G1>> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T64, G0>, G1>) -> Self { T64_S64(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S64> for Versioned<Versioned<Versioned<T64, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { w3::<T64, G0, G1, G2>(S64_T64(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T64, G0>, G1>, G2>> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T64, G0>, G1>, G2>) -> Self { T64_S64(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S64> for Versioned<Versioned<Versioned<Versioned<T64, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { w4::<T64, G0, G1, G2, G3>(S64_T64(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T64, G0>, G1>, G2>, G3>> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T64, G0>, G1>, G2>, G3>) -> Self { T64_S64(v.t.t.t.t) } }
pub struct U64 { pub r#type: W, pub r#match: u64, pub r#fn: Vec<W>, pub self_: Option<W>, pub item: Box<W>, pub other: Vec<W>, pub t: Option<W>, pub v0: Box<W>, pub v1: (u64, u64), pub v2: [u64; 3], pub v10: InnerT }
pub open spec fn S64_U64(v: S64) -> U64 { U64 { r#type: W(v.r#type), r#match: v.r#match, r#fn: mapped::<u64, W>(v.r#fn), self_: (match v.self_ { Some(x) => Some(W(x)), None => None }), item: Box::new(W(*v.item)), other: mapped::<u64, W>(v.other), t: (match v.t { Some(x) => Some(W(x)), None => None }), v0: Box::new(W(*v.v0)), v1: v.v1, v2: v.v2, v10: Inner_InnerT(v.v10) } }
pub open spec fn U64_S64(v: U64) -> S64 { S64 { r#type: v.r#type.0, r#match: v.r#match, r#fn: mapped::<W, u64>(v.r#fn), self_: (match v.self_ { Some(x) => Some(x.0), None => None }), item: Box::new((*v.item).0), other: mapped::<W, u64>(v.other), t: (match v.t { Some(x) => Some(x.0), None => None }), v0: Box::new((*v.v0).0), v1: v.v1, v2: v.v2, v10: InnerT_Inner(v.v10) } }
impl FromSpecImpl<S64> for U64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { S64_U64(v) } }
impl FromSpecImpl<U64> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: U64) -> Self { U64_S64(v) } }
impl<const G0: u16> FromSpecImpl<S64> for Versioned<U64, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { w1::<U64, G0>(S64_U64(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<U64, G0>> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<U64, G0>) -> Self { U64_S64(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S64> for Versioned<Versioned<U64, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { w2::<U64, G0, G1>(S64_U64(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<U64, G0>, G1>> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<U64, G0>, G1>) -> Self { U64_S64(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S64> for Versioned<Versioned<Versioned<U64, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { w3::<U64, G0, G1, G2>(S64_U64(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<U64, G0>, G1>, G2>> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<U64, G0>, G1>, G2>) -> Self { U64_S64(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S64> for Versioned<Versioned<Versioned<Versioned<U64, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S64) -> Self { w4::<U64, G0, G1, G2, G3>(S64_U64(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<U64, G0>, G1>, G2>, G3>> for S64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<U64, G0>, G1>, G2>, G3>) -> Self { U64_S64(v.t.t.t.t) } }
pub struct S65(pub Option<u64>);
pub struct T65(pub Option<W>);
pub open spec fn S65_T65(v: S65) -> T65 { T65((match v.0 { Some(x) => Some(W(x)), None => None })) }
pub open spec fn T65_S65(v: T65) -> S65 { S65((match v.0 { Some(x) => Some(x.0), None => None })) }
impl FromSpecImpl<S65> for T65 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S65) -> Self { S65_T65(v) } }
impl FromSpecImpl<T65> for S65 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T65) -> Self { T65_S65(v) } }
impl<const G0: u16> FromSpecImpl<S65> for Versioned<T65, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S65) -> Self { w1::<T65, G0>(S65_T65(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T65, G0>> for S65 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T65, G0>) -> Self { T65_S65(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S65> for Versioned<Versioned<T65, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S65) -> Self { w2::<T65, G0, G1>(S65_T65(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T65, G0>, G1>> for S65 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T65, G0>, G1>) -> Self { T65_S65(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S65> for Versioned<Versioned<Versioned<T65, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S65) -> Self { w3::<T65, G0, G1, G2>(S65_T65(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T65, G0>, G1>, G2>> for S65 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T65, G0>, G1>, G2>) -> Self { T65_S65(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S65> for Versioned<Versioned<Versioned<Versioned<T65, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S65) -> Self { w4::<T65, G0, G1, G2, G3>(S65_T65(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T65, G0>, G1>, G2>, G3>> for S65 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T65, G0>, G1>, G2>, G3>) -> Self { T65_S65(v.t.t.t.t) } }
pub struct S66(pub Option<u64>, pub [u64; 3], pub ::std::option::Option<u64>, pub Box<u64>, pub std::vec::Vec<u64>, pub std::boxed::Box<u64>, pub (u64, u64), pub Inner, pub String, pub u64, pub u64, pub Vec<u64>);
pub struct T66(pub Option<W>, pub [u64; 3], pub Option<W>, pub Box<W>, pub Vec<W>, pub Box<W>, pub (u64, u64), pub InnerT, pub S, pub W, pub u64, pub Vec<W>);
pub open spec fn S66_T66(v: S66) -> T66 { T66((match v.0 { Some(x) => Some(W(x)), None => None }), v.1, (match v.2 { Some(x) => Some(W(x)), None => None }), Box::new(W(*v.3)), mapped::<u64, W>(v.4), Box::new(W(*v.5)), v.6, Inner_InnerT(v.7), S(v.8), W(v.9), v.10, mapped::<u64, W>(v.11)) }
pub open spec fn T66_S66(v: T66) -> S66 { S66((match v.0 { Some(x) => Some(x.0), None => None }), v.1, (match v.2 { Some(x) => Some(x.0), None => None }), Box::new((*v.3).0), mapped::<W, u64>(v.4), Box::new((*v.5).0), v.6, InnerT_Inner(v.7), v.8.0, v.9.0, v.10, mapped::<W, u64>(v.11)) }
impl FromSpecImpl<S66> for T66 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S66) -> Self { S66_T66(v) } }
impl FromSpecImpl<T66> for S66 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T66) -> Self { T66_S66(v) } }
impl<const G0: u16> FromSpecImpl<S66> for Versioned<T66, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S66) -> Self { w1::<T66, G0>(S66_T66(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T66, G0>> for S66 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T66, G0>) -> Self { T66_S66(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S66> for Versioned<Versioned<T66, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S66) -> Self { w2::<T66, G0, G1>(S66_T66(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T66, G0>, G1>> for S66 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T66, G0>, G1>) -> Self { T66_S66(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S66> for Versioned<Versioned<Versioned<T66, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S66) -> Self { w3::<T66, G0, G1, G2>(S66_T66(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T66, G0>, G1>, G2>> for S66 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T66, G0>, G1>, G2>) -> Self { T66_S66(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S66> for Versioned<Versioned<Versioned<Versioned<T66, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S66) -> Self { w4::<T66, G0, G1, G2, G3>(S66_T66(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T66, G0>, G1>, G2>, G3>> for S66 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T66, G0>, G1>, G2>, G3>) -> Self { T66_S66(v.t.t.t.t) } }
pub struct S67(pub Inner, pub u64, pub Option<u64>, pub Vec<u64>, pub std::boxed::Box<u64>, pub [u64; 3], pub String, pub ::std::option::Option<u64>, pub u64, pub (u64, u64), pub Box<u64>, pub std::vec::Vec<u64>, pub u64, pub [u64; 3], pub std::vec::Vec<u64>, pub ::std::option::Option<u64>, pub Box<u64>, pub Vec<u64>, pub Option<u64>, pub std::boxed::Box<u64>, pub (u64, u64), pub String, pub Inner, pub u64);
pub struct T67(pub InnerT, pub u64, pub Option<W>, pub Vec<W>, pub Box<W>, pub [u64; 3], pub S, pub Option<W>, pub W, pub (u64, u64), pub Box<W>, pub Vec<W>, pub W, pub [u64; 3], pub Vec<W>, pub Option<W>, pub Box<W>, pub Vec<W>, pub Option<W>, pub Box<W>, pub (u64, u64), pub S, pub InnerT, pub u64);
pub open spec fn S67_T67(v: S67) -> T67 { T67(Inner_InnerT(v.0), v.1, (match v.2 { Some(x) => Some(W(x)), None => None }), mapped::<u64, W>(v.3), Box::new(W(*v.4)), v.5, S(v.6), (match v.7 { Some(x) => Some(W(x)), None => None }), W(v.8), v.9, Box::new(W(*v.10)), mapped::<u64, W>(v.11), W(v.12), v.13, mapped::<u64, W>(v.14), (match v.15 { Some(x) => Some(W(x)), None => None }), Box::new(W(*v.16)), mapped::<u64, W>(v.17), (match v.18 { Some(x) => Some(W(x)), None => None }), Box::new(W(*v.19)), v.20, S(v.21), Inner_InnerT(v.22), v.23) }
pub open spec fn T67_S67(v: T67) -> S67 { S67(InnerT_Inner(v.0), v.1, (match v.2 { Some(x) => Some(x.0), None => None }), mapped::<W, u64>(v.3), Box::new((*v.4).0), v.5, v.6.0, (match v.7 { Some(x) => Some(x.0), None => None }), v.8.0, v.9, Box::new((*v.10).0), mapped::<W, u64>(v.11), v.12.0, v.13, mapped::<W, u64>(v.14), (match v.15 { Some(x) => Some(x.0), None => None }), Box::new((*v.16).0), mapped::<W, u64>(v.17), (match v.18 { Some(x) => Some(x.0), None => None }), Box::new((*v.19).0), v.20, v.21.0, InnerT_Inner(v.22), v.23) }
impl FromSpecImpl<S67> for T67 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S67) -> Self { S67_T67(v) } }
impl FromSpecImpl<T67> for S67 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T67) -> Self { T67_S67(v) } }
impl<const G0: u16> FromSpecImpl<S67> for Versioned<T67, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S67) -> Self { w1::<T67, G0>(S67_T67(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T67, G0>> for S67 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T67, G0>) -> Self { T67_S67(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S67> for Versioned<Versioned<T67, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S67) -> Self { w2::<T67, G0, G1>(S67_T67(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T67, G0>, G1>> for S67 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T67, G0>, G1>) -> Self { T67_S67(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S67> for Versioned<Versioned<Versioned<T67, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S67) -> Self { w3::<T67, G0, G1, G2>(S67_T67(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T67, G0>, G1>, G2>> for S67 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T67, G0>, G1>, G2>) -> Self { T67_S67(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S67> for Versioned<Versioned<Versioned<Versioned<T67, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S67) -> Self { w4::<T67, G0, G1, G2, G3>(S67_T67(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T67, G0>, G1>, G2>, G3>> for S67 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T67, G0>, G1>, G2>, G3>) -> Self { T67_S67(v.t.t.t.t) } }
pub enum S68 { Item20 }
pub enum T68 { Item20 }
pub open spec fn S68_T68(v: S68) -> T68 { match v { S68::Item20 => T68::Item20 } }
pub open spec fn T68_S68(v: T68) -> S68 { match v { T68::Item20 => S68::Item20 } }
impl FromSpecImpl<S68> for T68 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S68) -> Self { S68_T68(v) } }
impl FromSpecImpl<T68> for S68 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T68) -> Self { T68_S68(v) } }
impl<const G0: u16> FromSpecImpl<S68> for Versioned<T68, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S68) -> Self { w1::<T68, G0>(S68_T68(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T68, G0>> for S68 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T68, G0>) -> Self { T68_S68(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S68> for Versioned<Versioned<T68, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S68) -> Self { w2::<T68, G0, G1>(S68_T68(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T68, G0>, G1>> for S68 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T68, G0>, G1>) -> Self { T68_S68(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S68> for Versioned<Versioned<Versioned<T68, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S68) -> Self { w3::<T68, G0, G1, G2>(S68_T68(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T68, G0>, G1>, G2>> for S68 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T68, G0>, G1>, G2>) -> Self { T68_S68(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S68> for Versioned<Versioned<Versioned<Versioned<T68, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S68) -> Self { w4::<T68, G0, G1, G2, G3>(S68_T68(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T68, G0>, G1>, G2>, G3>> for S68 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T68, G0>, G1>, G2>, G3>) -> Self { T68_S68(v.t.t.t.t) } }
pub enum S69 { Z47 { zz13: Box<u64>, zz22: std::boxed::Box<u64>, vec37: std::vec::Vec<u64>, item30: [u64; 3], option35: (u64, u64), option24: (u64, u64), other_25: [u64; 3], zz29: Vec<u64>, option37: u64, f25: [u64; 3], vec0: String, other_12: ::std::option::Option<u64> }, V3 { f5: std::boxed::Box<u64> }, Item1(Inner, ::std::option::Option<u64>), Item29((u64, u64)), V19(std::boxed::Box<u64>) }
pub enum T69 { Z47 { zz13: Box<W>, zz22: Box<W>, vec37: Vec<W>, item30: [u64; 3], option35: (u64, u64), option24: (u64, u64), other_25: [u64; 3], zz29: Vec<W>, option37: u64, f25: [u64; 3], vec0: S, other_12: Option<W> }, V3 { f5: Box<W> }, Item1(InnerT, Option<W>), Item29((u64, u64)), V19(Box<W>) }
pub open spec fn S69_T69(v: S69) -> T69 { match v { S69::Z47 { zz13: x0, zz22: x1, vec37: x2, item30: x3, option35: x4, option24: x5, other_25: x6, zz29: x7, option37: x8, f25: x9, vec0: x10, other_12: x11 } => T69::Z47 { zz13: Box::new(W(*x0)), zz22: Box::new(W(*x1)), vec37: mapped::<u64, W>(x2), item30: x3, option35: x4, option24: x5, other_25: x6, zz29: mapped::<u64, W>(x7), option37: x8, f25: x9, vec0: S(x10), other_12: (match x11 { Some(x) => Some(W(x)), None => None }) }, S69::V3 { f5: x0 } => T69::V3 { f5: Box::new(W(*x0)) }, S69::Item1(x0, x1) => T69::Item1(Inner_InnerT(x0), (match x1 { Some(x) => Some(W(x)), None => None })), S69::Item29(x0) => T69::Item29(x0), S69::V19(x0) => T69::V19(Box::new(W(*x0))) } }
pub open spec fn T69_S69(v: T69) -> S69 { match v { T69::Z47 { zz13: x0, zz22: x1, vec37: x2, item30: x3, option35: x4, option24: x5, other_25: x6, zz29: x7, option37: x8, f25: x9, vec0: x10, other_12: x11 } => S69::Z47 { zz13: Box::new((*x0).0), zz22: Box::new((*x1).0), vec37: mapped::<W, u64>(x2), item30: x3, option35: x4, option24: x5, other_25: x6, zz29: mapped::<W, u64>(x7), option37: x8, f25: x9, vec0: x10.0, other_12: (match x11 { Some(x) => Some(x.0), None => None }) }, T69::V3 { f5: x0 } => S69::V3 { f5: Box::new((*x0).0) }, T69::Item1(x0, x1) => S69::Item1(InnerT_Inner(x0), (match x1 { Some(x) => Some(x.0), None => None })), T69::Item29(x0) => S69::Item29(x0), T69::V19(x0) => S69::V19(Box::new((*x0).0)) } }
impl FromSpecImpl<S69> for T69 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S69) -> Self { S69_T69(v) } }
impl FromSpecImpl<T69> for S69 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T69) -> Self { T69_S69(v) } }
impl<const G0: u16> FromSpecImpl<S69> for Versioned<T69, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S69) -> Self { w1::<T69, G0>(S69_T69(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T69, G0>> for S69 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T69, G0>) -> Self { T69_S69(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S69> for Versioned<Versioned<T69, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S69) -> Self { w2::<T69, G0, G1>(S69_T69(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T69, G0>, G1>> for S69 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T69, G0>, G1>) -> Self { T69_S69(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S69> for Versioned<Versioned<Versioned<T69, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S69) -> Self { w3::<T69, G0, G1, G2>(S69_T69(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T69, G0>, G1>, G2>> for S69 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T69, G0>, G1>, G2>) -> Self { T69_S69(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S69> for Versioned<Versioned<Versioned<Versioned<T69, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S69) -> Self { w4::<T69, G0, G1, G2, G3>(S69_T69(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T69, G0>, G1>, G2>, G3>> for S69 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T69, G0>, G1>, G2>, G3>) -> Self { T69_S69(v.t.t.t.t) } }
pub enum S70 { Vec27, Z12, V38(std::boxed::Box<u64>, Vec<u64>), Option3 { option21: [u64; 3] }, Z56((u64, u64)), Option38(::std::option::Option<u64>, Box<u64>, [u64; 3]), V56 { zz16: std::vec::Vec<u64>, zz9: ::std::option::Option<u64> }, Z19, Some_51 { option35: std::boxed::Box<u64>, item35: Vec<u64>, v11: Inner } }
pub enum T70 { Vec27, Z12, V38(Box<W>, Vec<W>), Option3 { option21: [u64; 3] }, Z56((u64, u64)), Option38(Option<W>, Box<W>, [u64; 3]), V56 { zz16: Vec<W>, zz9: Option<W> }, Z19, Some_51 { option35: Box<W>, item35: Vec<W>, v11: InnerT } }
pub open spec fn S70_T70(v: S70) -> T70 { match v { S70::Vec27 => T70::Vec27, S70::Z12 => T70::Z12, S70::V38(x0, x1) => T70::V38(Box::new(W(*x0)), mapped::<u64, W>(x1)), S70::Option3 { option21: x0 } => T70::Option3 { option21: x0 }, S70::Z56(x0) => T70::Z56(x0), S70::Option38(x0, x1, x2) => T70::Option38((match x0 { Some(x) => Some(W(x)), None => None }), Box::new(W(*x1)), x2), S70::V56 { zz16: x0, zz9: x1 } => T70::V56 { zz16: mapped::<u64, W>(x0), zz9: (match x1 { Some(x) => Some(W(x)), None => None }) }, S70::Z19 => T70::Z19, S70::Some_51 { option35: x0, item35: x1, v11: x2 } => T70::Some_51 { option35: Box::new(W(*x0)), item35: mapped::<u64, W>(x1), v11: Inner_InnerT(x2) } } }
pub open spec fn T70_S70(v: T70) -> S70 { match v { T70::Vec27 => S70::Vec27, T70::Z12 => S70::Z12, T70::V38(x0, x1) => S70::V38(Box::new((*x0).0), mapped::<W, u64>(x1)), T70::Option3 { option21: x0 } => S70::Option3 { option21: x0 }, T70::Z56(x0) => S70::Z56(x0), T70::Option38(x0, x1, x2) => S70::Option38((match x0 { Some(x) => Some(x.0), None => None }), Box::new((*x1).0), x2), T70::V56 { zz16: x0, zz9: x1 } => S70::V56 { zz16: mapped::<W, u64>(x0), zz9: (match x1 { Some(x) => Some(x.0), None => None }) }, T70::Z19 => S70::Z19, T70::Some_51 { option35: x0, item35: x1, v11: x2 } => S70::Some_51 { option35: Box::new((*x0).0), item35: mapped::<W, u64>(x1), v11: InnerT_Inner(x2) } } }
impl FromSpecImpl<S70> for T70 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S70) -> Self { S70_T70(v) } }
impl FromSpecImpl<T70> for S70 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: T70) -> Self { T70_S70(v) } }
impl<const G0: u16> FromSpecImpl<S70> for Versioned<T70, G0> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S70) -> Self { w1::<T70, G0>(S70_T70(v)) } }
impl<const G0: u16> FromSpecImpl<Versioned<T70, G0>> for S70 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<T70, G0>) -> Self { T70_S70(v.t) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<S70> for Versioned<Versioned<T70, G0>, G1> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S70) -> Self { w2::<T70, G0, G1>(S70_T70(v)) } }
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<T70, G0>, G1>> for S70 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<T70, G0>, G1>) -> Self { T70_S70(v.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<S70> for Versioned<Versioned<Versioned<T70, G0>, G1>, G2> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S70) -> Self { w3::<T70, G0, G1, G2>(S70_T70(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<Versioned<T70, G0>, G1>, G2>> for S70 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<T70, G0>, G1>, G2>) -> Self { T70_S70(v.t.t.t) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<S70> for Versioned<Versioned<Versioned<Versioned<T70, G0>, G1>, G2>, G3> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S70) -> Self { w4::<T70, G0, G1, G2, G3>(S70_T70(v)) } }
impl<const G0: u16, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<T70, G0>, G1>, G2>, G3>> for S70 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<T70, G0>, G1>, G2>, G3>) -> Self { T70_S70(v.t.t.t.t) } }
//@sub m60 :: U60 =>> U60
//@sub m61 :: U61 =>> U61
//@sub m62 :: U62 =>> U62
//@sub m63 :: U63 =>> U63
//@sub m64 :: U64 =>> U64
//@sub m65 :: U65 =>> U65
//@sub m66 :: U66 =>> U66
//@sub m67 :: U67 =>> U67
//@sub m68 :: U68 =>> U68
//@sub m69 :: U69 =>> U69
//@sub m70 :: U70 =>> U70
