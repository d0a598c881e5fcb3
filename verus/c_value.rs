//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include prelude_read.rs
//@include part_read.rs
//@nosub
//@include part_bufreader.rs
//@include part_rules.rs
//@include part_traverse.rs
//@include part_loose.rs
//@rw option_map
//@rw extend
//@rw iter
//@rw str_match
//@rw owned_iter
//@sub seed . deserialize ( name . into_deserializer ( ) ) =>> seed . vx_deserialize_name ( name )
//@sub seed . deserialize ( "" . into_deserializer ( ) ) =>> seed . vx_deserialize_name ( "" )
//@sub < Self as IntoIterator > :: IntoIter =>> BinProtRuleIterator
//@sub pub ( crate ) =>> pub
//@sub Option < Self :: Item > =>> Option < BinProtRule >
//@sub path . to_string ( ) =>> vx_text ( path )
//@sub serde :: de :: =>> de ::
//@sub let mut buf = Vec :: < u8 > :: new ( ) ; crate :: to_writer ( & mut buf , & enum_data ) . unwrap ( ) ; let mut de = DS :: from_reader ( buf . as_slice ( ) ) ; let v = seed . deserialize ( & mut de ) ? ; =>> let v = seed . vx_from_data ( enum_data ) ? ;
//@sub summand . ctor_args . clone ( ) =>> vx_cl ( & summand . ctor_args )
//@sub rules . first ( ) =>> vx_first ( & rules )
//@sub summand . index . try_into ( ) . unwrap ( ) =>> vx_i32_u8 ( summand . index )
//@sub visit_bytes ( & self . rdr . bin_read_bytes ( ) ? ) =>> visit_bytes ( vx_bytes ( & self . rdr . bin_read_bytes ( ) ? ) )
//@emit protocol/bin-prot/src/value/layout/mod.rs enum:BinProtRule
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:RecordField
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:Summand
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:HashTblEntry
//@emit protocol/bin-prot/src/value/layout/mod.rs enum:Polyvar
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:TaggedPolyvar
//@emit protocol/bin-prot/src/value/layout/mod.rs enum:RuleRef
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:UnresolvedPayload
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:ResolvedPayload
//@emit protocol/bin-prot/src/value/layout/traverse.rs struct:BinProtRuleIterator
//@emit protocol/bin-prot/src/value/layout/traverse.rs impl:IteratorforBinProtRuleIterator as=RuleIter
//@emit protocol/bin-prot/src/value/layout/traverse.rs impl:=implBinProtRuleIterator
//@emit protocol/bin-prot/src/value/layout/traverse.rs impl:IntoIteratorforBinProtRule as=RuleInto
//@rw -option_map
//@rw result_map
//@emit protocol/bin-prot/src/de.rs struct:LooselyTyped
//@emit protocol/bin-prot/src/de.rs struct:StronglyTyped
//@emit protocol/bin-prot/src/de.rs struct:Deserializer
//@emit protocol/bin-prot/src/de.rs impl:=impl<R:Read>Deserializer<R,StronglyTyped> only=from_reader,with_layout
//@emit protocol/bin-prot/src/de.rs struct:SeqAccess
//@emit protocol/bin-prot/src/de.rs impl:SeqAccess<'a,R,Mode>
//@emit protocol/bin-prot/src/de.rs struct:MapAccess
//@emit protocol/bin-prot/src/de.rs impl:MapAccess<'a,R,Mode> only=new
//@emit protocol/bin-prot/src/de.rs struct:Enum
//@emit protocol/bin-prot/src/de.rs impl:Mode>Enum<'a,R,Mode>
//@emit protocol/bin-prot/src/loose_deserializer.rs enum:VariantType
//@emit protocol/bin-prot/src/loose_deserializer.rs enum:EnumData
//@emit protocol/bin-prot/src/loose_deserializer.rs struct:ValueEnum
//@emit protocol/bin-prot/src/loose_deserializer.rs impl:=impl<'a,R:Read,Mode>ValueEnum<'a,R,Mode>
//@rw iter_ref
//@emit protocol/bin-prot/src/loose_deserializer.rs impl:impl<'de,R:Read>DS<R,LooselyTyped> as=LooseDe
//@rw -iter_ref
//@emit protocol/bin-prot/src/loose_deserializer.rs impl:EnumAccess<'de>forValueEnum as=ValEnum
//@emit protocol/bin-prot/src/de.rs impl:de::Deserializer<'de>for&'amutDeserializer<R,LooselyTyped> as=LooseAny
//@emit protocol/bin-prot/src/de.rs macro:impl_variant_access(LooselyTyped;Enum) as=VarAcc
//@emit protocol/bin-prot/src/de.rs macro:impl_seq_access(LooselyTyped) as=SeqAcc
//@emit protocol/bin-prot/src/de.rs macro:impl_map_access(LooselyTyped) as=MapAcc
//@nosub
//@include part_value.rs
//@include part_visitor.rs
//@rw iter
//@sub where E : serde :: de :: Error , =>>
//@sub where D : serde :: Deserializer < 'de > , =>>
//@sub where V : SeqAccess < 'de > , =>>
//@sub where V : MapAccess < 'de > , =>>
//@sub where A : EnumAccess < 'de > , =>>
//@sub visit_seq < V > ( self , visitor : V ) =>> visit_seq < 'a , R : Read > ( self , visitor : SeqAccess < 'a , R , LooselyTyped > )
//@sub visit_map < V > ( self , visitor : V ) =>> visit_map < 'a , R : Read > ( self , visitor : MapAccess < 'a , R , LooselyTyped > )
//@sub visit_some < D > ( self , deserializer : D ) =>> visit_some < 'a , R : Read > ( self , deserializer : & 'a mut Deserializer < R , LooselyTyped > )
//@sub visit_enum < A > ( self , data : A ) =>> visit_enum < 'a , R : Read > ( self , data : ValueEnum < 'a , R , LooselyTyped > )
//@sub deserialize < D > ( deserializer : D ) =>> deserialize < 'a , R : Read > ( deserializer : & 'a mut Deserializer < R , LooselyTyped > )
//@sub Result < Value , V :: Error > =>> Result < Value >
//@sub Result < Value , D :: Error > =>> Result < Value >
//@sub Result < Self :: Value , A :: Error > =>> Result < Value >
//@sub visitor . next_element ( ) ? =>> visitor . next_element_seed ( ValueSeed ) ?
//@sub visitor . next_entry ( ) ? =>> vx_next_entry ( & mut visitor ) ?
//@sub data . variant :: < EnumData > ( ) ? =>> data . variant_seed ( EnumDataSeed ) ?
//@sub Deserialize :: deserialize ( deserializer , ) =>> vx_value ( deserializer )
//@sub Deserialize :: deserialize ( deserializer ) =>> vx_value ( deserializer )
//@sub variant_access . tuple_variant ( len , self ) =>> vx_variant_body ( variant_access , len , self )
//@sub < E > ( self =>> ( self
//@sub Result < Value , E > =>> Result < Value >
//@emit protocol/bin-prot/src/value/mod.rs enum:Value
//@emit protocol/bin-prot/src/value/visitor.rs struct:ValueVisitor
//@emit protocol/bin-prot/src/value/visitor.rs impl:forValueVisitor as=VV
//@emit protocol/bin-prot/src/value/mod.rs impl:Deserialize<'de>forValue as=ValueDe
} // verus!
fn main() {}
