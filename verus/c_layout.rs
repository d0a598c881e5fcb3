//@include prelude_core.rs
broadcast use vx_bits;
use vstd::std_specs::convert::*;
// serde_json: parsing a sub-value of the JSON text as a T is a function of that sub-value
#[verifier::external_body]
pub struct Json { x: u8 }
#[verifier::external_body]
pub struct JsonError { x: u8 }
impl JsonError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
pub uninterp spec fn parsed<T>(v: Json) -> Option<T>;
#[verifier::external_body]
pub fn from_value<T>(v: Json) -> (r: Result<T, JsonError>)
    ensures match r { Ok(t) => parsed::<T>(v) == Some(t), Err(_) => parsed::<T>(v) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// ------------------------------------------------------------ what a tagged list denotes
/// the rules without arguments
pub open spec fn plain(t: Seq<char>) -> Option<BinProtRule> {
    if t == "Nat0"@ { Some(BinProtRule::Nat0) }
    else if t == "Unit"@ { Some(BinProtRule::Unit) }
    else if t == "Bool"@ { Some(BinProtRule::Bool) }
    else if t == "String"@ { Some(BinProtRule::String) }
    else if t == "Char"@ { Some(BinProtRule::Char) }
    else if t == "Int"@ { Some(BinProtRule::Int) }
    else if t == "Int32"@ { Some(BinProtRule::Int32) }
    else if t == "Int64"@ { Some(BinProtRule::Int64) }
    else if t == "Native_int"@ { Some(BinProtRule::NativeInt) }
    else if t == "Float"@ { Some(BinProtRule::Float) }
    else if t == "Bigstring"@ { Some(BinProtRule::Bigstring) }
    else { None }
}
pub open spec fn opt<T>(a: Option<T>, f: spec_fn(T) -> BinProtRule) -> Option<BinProtRule> { match a { Some(x) => Some(f(x)), None => None } }
pub open spec fn opt2<T, U>(a: Option<T>, b: Option<U>, f: spec_fn(T, U) -> BinProtRule) -> Option<BinProtRule> { match (a, b) { (Some(x), Some(y)) => Some(f(x, y)), _ => None } }
/// the rules with one argument
pub open spec fn unary(t: Seq<char>, v: Json) -> Option<BinProtRule> {
    if t == "Option"@ { opt(parsed::<Box<BinProtRule>>(v), |x| BinProtRule::Option(x)) }
    else if t == "Record"@ { opt(parsed::<Vec<RecordField>>(v), |x| BinProtRule::Record(x)) }
    else if t == "Tuple"@ { opt(parsed::<Vec<BinProtRule>>(v), |x| BinProtRule::Tuple(x)) }
    else if t == "Sum"@ { opt(parsed::<Vec<Summand>>(v), |x| BinProtRule::Sum(x)) }
    else if t == "Polyvar"@ { opt(parsed::<Vec<Polyvar>>(v), |x| BinProtRule::Polyvar(x)) }
    else if t == "List"@ { opt(parsed::<Box<BinProtRule>>(v), |x| BinProtRule::List(x)) }
    else if t == "Hashtable"@ { opt(parsed::<HashTblEntry>(v), |x| BinProtRule::Hashtable(x)) }
    else if t == "Reference"@ { opt(parsed::<RuleRef>(v), |x| BinProtRule::Reference(x)) }
    else if t == "Type_var"@ { opt(parsed::<String>(v), |x| BinProtRule::TypeVar(x)) }
    else if t == "Self_reference"@ { opt(parsed::<Vec<BinProtRule>>(v), |x| BinProtRule::SelfReference(x)) }
    else if t == "Custom"@ { opt(parsed::<Vec<BinProtRule>>(v), |x| BinProtRule::Custom(x)) }
    else { None }
}
/// the rules with two
pub open spec fn binary(t: Seq<char>, v: Json, w: Json) -> Option<BinProtRule> {
    if t == "Vec"@ { opt2(parsed::<usize>(v), parsed::<Box<BinProtRule>>(w), |x, y| BinProtRule::Vec(x, y)) }
    else if t == "Type_abstraction"@ { opt2(parsed::<Vec<String>>(v), parsed::<Box<BinProtRule>>(w), |x, y| BinProtRule::TypeAbstraction(x, y)) }
    else if t == "Type_closure"@ { opt2(parsed::<Vec<(String, BinProtRule)>>(v), parsed::<Box<BinProtRule>>(w), |x, y| BinProtRule::TypeClosure(x, y)) }
    else { None }
}
pub open spec fn rule_of(v: ListTaggedEnum) -> Option<BinProtRule> {
    match v { ListTaggedEnum::None(a) => plain(a.0@), ListTaggedEnum::One(a) => unary(a.0@, a.1), ListTaggedEnum::Two(a) => binary(a.0@, a.1, a.2) }
}
pub open spec fn polyvar_of(v: ListTaggedEnum) -> Option<Polyvar> {
    match v { ListTaggedEnum::One(a) =>
        if a.0@ == "Tagged"@ { match parsed::<TaggedPolyvar>(a.1) { Some(x) => Some(Polyvar::Tagged(x)), None => None } }
        else if a.0@ == "Inherited"@ { match parsed::<BinProtRule>(a.1) { Some(x) => Some(Polyvar::Inherited(x)), None => None } }
        else { None },
      _ => None }
}
pub open spec fn ref_of(v: ListTaggedEnum) -> Option<RuleRef> {
    match v { ListTaggedEnum::One(a) =>
        if a.0@ == "Unresolved"@ { match parsed::<UnresolvedPayload>(a.1) { Some(x) => Some(RuleRef::Unresolved(x)), None => None } }
        else if a.0@ == "Resolved"@ { match parsed::<ResolvedPayload>(a.1) { Some(x) => Some(RuleRef::Resolved(x)), None => None } }
        else { None },
      _ => None }
}
/// the letters of the tags: different tags are different texts
pub proof fn tags_differ()
    ensures
        "Nat0"@.len() == 4, "Nat0"@[0] == 'N', "Nat0"@[1] == 'a', "Nat0"@[2] == 't', "Nat0"@[3] == '0',
        "Unit"@.len() == 4, "Unit"@[0] == 'U', "Unit"@[1] == 'n', "Unit"@[2] == 'i', "Unit"@[3] == 't',
        "Bool"@.len() == 4, "Bool"@[0] == 'B', "Bool"@[1] == 'o', "Bool"@[2] == 'o', "Bool"@[3] == 'l',
        "String"@.len() == 6, "String"@[0] == 'S', "String"@[1] == 't', "String"@[2] == 'r', "String"@[3] == 'i', "String"@[4] == 'n', "String"@[5] == 'g',
        "Char"@.len() == 4, "Char"@[0] == 'C', "Char"@[1] == 'h', "Char"@[2] == 'a', "Char"@[3] == 'r',
        "Int"@.len() == 3, "Int"@[0] == 'I', "Int"@[1] == 'n', "Int"@[2] == 't',
        "Int32"@.len() == 5, "Int32"@[0] == 'I', "Int32"@[1] == 'n', "Int32"@[2] == 't', "Int32"@[3] == '3', "Int32"@[4] == '2',
        "Int64"@.len() == 5, "Int64"@[0] == 'I', "Int64"@[1] == 'n', "Int64"@[2] == 't', "Int64"@[3] == '6', "Int64"@[4] == '4',
        "Native_int"@.len() == 10, "Native_int"@[0] == 'N', "Native_int"@[1] == 'a', "Native_int"@[2] == 't', "Native_int"@[3] == 'i', "Native_int"@[4] == 'v', "Native_int"@[5] == 'e', "Native_int"@[6] == '_', "Native_int"@[7] == 'i', "Native_int"@[8] == 'n', "Native_int"@[9] == 't',
        "Float"@.len() == 5, "Float"@[0] == 'F', "Float"@[1] == 'l', "Float"@[2] == 'o', "Float"@[3] == 'a', "Float"@[4] == 't',
        "Bigstring"@.len() == 9, "Bigstring"@[0] == 'B', "Bigstring"@[1] == 'i', "Bigstring"@[2] == 'g', "Bigstring"@[3] == 's', "Bigstring"@[4] == 't', "Bigstring"@[5] == 'r', "Bigstring"@[6] == 'i', "Bigstring"@[7] == 'n', "Bigstring"@[8] == 'g',
        "Option"@.len() == 6, "Option"@[0] == 'O', "Option"@[1] == 'p', "Option"@[2] == 't', "Option"@[3] == 'i', "Option"@[4] == 'o', "Option"@[5] == 'n',
        "Record"@.len() == 6, "Record"@[0] == 'R', "Record"@[1] == 'e', "Record"@[2] == 'c', "Record"@[3] == 'o', "Record"@[4] == 'r', "Record"@[5] == 'd',
        "Tuple"@.len() == 5, "Tuple"@[0] == 'T', "Tuple"@[1] == 'u', "Tuple"@[2] == 'p', "Tuple"@[3] == 'l', "Tuple"@[4] == 'e',
        "Sum"@.len() == 3, "Sum"@[0] == 'S', "Sum"@[1] == 'u', "Sum"@[2] == 'm',
        "Polyvar"@.len() == 7, "Polyvar"@[0] == 'P', "Polyvar"@[1] == 'o', "Polyvar"@[2] == 'l', "Polyvar"@[3] == 'y', "Polyvar"@[4] == 'v', "Polyvar"@[5] == 'a', "Polyvar"@[6] == 'r',
        "List"@.len() == 4, "List"@[0] == 'L', "List"@[1] == 'i', "List"@[2] == 's', "List"@[3] == 't',
        "Hashtable"@.len() == 9, "Hashtable"@[0] == 'H', "Hashtable"@[1] == 'a', "Hashtable"@[2] == 's', "Hashtable"@[3] == 'h', "Hashtable"@[4] == 't', "Hashtable"@[5] == 'a', "Hashtable"@[6] == 'b', "Hashtable"@[7] == 'l', "Hashtable"@[8] == 'e',
        "Reference"@.len() == 9, "Reference"@[0] == 'R', "Reference"@[1] == 'e', "Reference"@[2] == 'f', "Reference"@[3] == 'e', "Reference"@[4] == 'r', "Reference"@[5] == 'e', "Reference"@[6] == 'n', "Reference"@[7] == 'c', "Reference"@[8] == 'e',
        "Type_var"@.len() == 8, "Type_var"@[0] == 'T', "Type_var"@[1] == 'y', "Type_var"@[2] == 'p', "Type_var"@[3] == 'e', "Type_var"@[4] == '_', "Type_var"@[5] == 'v', "Type_var"@[6] == 'a', "Type_var"@[7] == 'r',
        "Self_reference"@.len() == 14, "Self_reference"@[0] == 'S', "Self_reference"@[1] == 'e', "Self_reference"@[2] == 'l', "Self_reference"@[3] == 'f', "Self_reference"@[4] == '_', "Self_reference"@[5] == 'r', "Self_reference"@[6] == 'e', "Self_reference"@[7] == 'f', "Self_reference"@[8] == 'e', "Self_reference"@[9] == 'r', "Self_reference"@[10] == 'e', "Self_reference"@[11] == 'n', "Self_reference"@[12] == 'c', "Self_reference"@[13] == 'e',
        "Custom"@.len() == 6, "Custom"@[0] == 'C', "Custom"@[1] == 'u', "Custom"@[2] == 's', "Custom"@[3] == 't', "Custom"@[4] == 'o', "Custom"@[5] == 'm',
        "Vec"@.len() == 3, "Vec"@[0] == 'V', "Vec"@[1] == 'e', "Vec"@[2] == 'c',
        "Type_abstraction"@.len() == 16, "Type_abstraction"@[0] == 'T', "Type_abstraction"@[1] == 'y', "Type_abstraction"@[2] == 'p', "Type_abstraction"@[3] == 'e', "Type_abstraction"@[4] == '_', "Type_abstraction"@[5] == 'a', "Type_abstraction"@[6] == 'b', "Type_abstraction"@[7] == 's', "Type_abstraction"@[8] == 't', "Type_abstraction"@[9] == 'r', "Type_abstraction"@[10] == 'a', "Type_abstraction"@[11] == 'c', "Type_abstraction"@[12] == 't', "Type_abstraction"@[13] == 'i', "Type_abstraction"@[14] == 'o', "Type_abstraction"@[15] == 'n',
        "Type_closure"@.len() == 12, "Type_closure"@[0] == 'T', "Type_closure"@[1] == 'y', "Type_closure"@[2] == 'p', "Type_closure"@[3] == 'e', "Type_closure"@[4] == '_', "Type_closure"@[5] == 'c', "Type_closure"@[6] == 'l', "Type_closure"@[7] == 'o', "Type_closure"@[8] == 's', "Type_closure"@[9] == 'u', "Type_closure"@[10] == 'r', "Type_closure"@[11] == 'e',
        "Tagged"@.len() == 6, "Tagged"@[0] == 'T', "Tagged"@[1] == 'a', "Tagged"@[2] == 'g', "Tagged"@[3] == 'g', "Tagged"@[4] == 'e', "Tagged"@[5] == 'd',
        "Inherited"@.len() == 9, "Inherited"@[0] == 'I', "Inherited"@[1] == 'n', "Inherited"@[2] == 'h', "Inherited"@[3] == 'e', "Inherited"@[4] == 'r', "Inherited"@[5] == 'i', "Inherited"@[6] == 't', "Inherited"@[7] == 'e', "Inherited"@[8] == 'd',
        "Unresolved"@.len() == 10, "Unresolved"@[0] == 'U', "Unresolved"@[1] == 'n', "Unresolved"@[2] == 'r', "Unresolved"@[3] == 'e', "Unresolved"@[4] == 's', "Unresolved"@[5] == 'o', "Unresolved"@[6] == 'l', "Unresolved"@[7] == 'v', "Unresolved"@[8] == 'e', "Unresolved"@[9] == 'd',
        "Resolved"@.len() == 8, "Resolved"@[0] == 'R', "Resolved"@[1] == 'e', "Resolved"@[2] == 's', "Resolved"@[3] == 'o', "Resolved"@[4] == 'l', "Resolved"@[5] == 'v', "Resolved"@[6] == 'e', "Resolved"@[7] == 'd',
{ reveal_strlit("Nat0"); reveal_strlit("Unit"); reveal_strlit("Bool"); reveal_strlit("String"); reveal_strlit("Char"); reveal_strlit("Int"); reveal_strlit("Int32"); reveal_strlit("Int64"); reveal_strlit("Native_int"); reveal_strlit("Float"); reveal_strlit("Bigstring"); reveal_strlit("Option"); reveal_strlit("Record"); reveal_strlit("Tuple"); reveal_strlit("Sum"); reveal_strlit("Polyvar"); reveal_strlit("List"); reveal_strlit("Hashtable"); reveal_strlit("Reference"); reveal_strlit("Type_var"); reveal_strlit("Self_reference"); reveal_strlit("Custom"); reveal_strlit("Vec"); reveal_strlit("Type_abstraction"); reveal_strlit("Type_closure"); reveal_strlit("Tagged"); reveal_strlit("Inherited"); reveal_strlit("Unresolved"); reveal_strlit("Resolved"); }
//@fn RuleFrom::try_from
    ensures match r { Ok(x) => rule_of(v) == Some(x), Err(_) => rule_of(v) is None },
//@entry
    proof { tags_differ(); }
//@end
//@fn PolyvarFrom::try_from
    ensures match r { Ok(x) => polyvar_of(v) == Some(x), Err(_) => polyvar_of(v) is None },
//@entry
    proof { tags_differ(); }
//@end
//@fn RefFrom::try_from
    ensures match r { Ok(x) => ref_of(v) == Some(x), Err(_) => ref_of(v) is None },
//@entry
    proof { tags_differ(); }
//@end
//@rw str_match
//@rw iter
//@sub Value =>> Json
//@emit protocol/bin-prot/src/value/layout/list_tagged_enum.rs enum:ListTaggedEnum
//@nosub
//@emit protocol/bin-prot/src/value/layout/mod.rs enum:BinProtRule
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:RecordField
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:Summand
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:HashTblEntry
//@emit protocol/bin-prot/src/value/layout/mod.rs enum:Polyvar
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:TaggedPolyvar
//@emit protocol/bin-prot/src/value/layout/mod.rs enum:RuleRef
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:UnresolvedPayload
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:ResolvedPayload
//@emit protocol/bin-prot/src/value/layout/mod.rs impl:TryFrom<ListTaggedEnum>forBinProtRule as=RuleFrom
//@emit protocol/bin-prot/src/value/layout/mod.rs impl:TryFrom<ListTaggedEnum>forPolyvar as=PolyvarFrom
//@emit protocol/bin-prot/src/value/layout/mod.rs impl:TryFrom<ListTaggedEnum>forRuleRef as=RefFrom
// (the trait's own specification is left open: the contracts are on the methods)
impl TryFromSpecImpl<ListTaggedEnum> for BinProtRule { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: ListTaggedEnum) -> Result<Self, Self::Error> { arbitrary() } }
impl TryFromSpecImpl<ListTaggedEnum> for Polyvar { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: ListTaggedEnum) -> Result<Self, Self::Error> { arbitrary() } }
impl TryFromSpecImpl<ListTaggedEnum> for RuleRef { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: ListTaggedEnum) -> Result<Self, Self::Error> { arbitrary() } }
} // verus!
fn main() {}
