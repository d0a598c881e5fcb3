//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include prelude_read.rs
//@include part_write.rs
//@include part_ser.rs
//@nosub
//@emit protocol/bin-prot/src/value/layout/mod.rs enum:BinProtRule
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:RecordField
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:Summand
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:HashTblEntry
//@emit protocol/bin-prot/src/value/layout/mod.rs enum:Polyvar
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:TaggedPolyvar
//@emit protocol/bin-prot/src/value/layout/mod.rs enum:RuleRef
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:UnresolvedPayload
//@emit protocol/bin-prot/src/value/layout/mod.rs struct:ResolvedPayload
//@emit protocol/bin-prot/src/value/mod.rs enum:Value
//@include part_rules.rs
//@include part_value.rs
//@include part_valser.rs
//@rw for_ref
//@sub serialize < S > ( & self , serializer : S ) =>> serialize < W : Write > ( & self , serializer : & mut Serializer < W > )
//@sub std :: result :: Result < S :: Ok , S :: Error > =>> Result < ( ) >
//@sub where S : :: serde :: Serializer , =>>
//@sub crate :: integers :: nat0 :: serialize ( v , serializer ) =>> nat0_serialize ( v , serializer )
//@sub Value :: String ( ref s ) => s . serialize ( serializer ) =>> Value :: String ( ref s ) => vx_bytes_seq ( s , serializer )
//@sub Value :: List ( ref v ) => v . serialize ( serializer ) =>> Value :: List ( ref v ) => vx_value_seq ( v , serializer )
//@sub serializer . serialize_some ( v ) =>> serializer . serialize_some ( & vx_rec ( v ) )
//@sub map . serialize_field ( "" , v ) =>> ser :: SerializeStruct :: serialize_field ( & mut map , "" , & vx_rec ( v ) )
//@sub map . end ( ) =>> ser :: SerializeStruct :: end ( map )
//@sub t . serialize_element ( v ) =>> ser :: SerializeTuple :: serialize_element ( & mut t , & vx_rec ( v ) )
//@sub t . end ( ) =>> ser :: SerializeTuple :: end ( t )
//@sub serialize_newtype_variant ( "" , * index as u32 , "" , value ) =>> serialize_newtype_variant ( "" , * index as u32 , "" , & vx_rec ( value ) )
//@sub serialize_newtype_variant ( POLYVAR_TAG , * tag , "" , value ) =>> serialize_newtype_variant ( POLYVAR_TAG , * tag , "" , & vx_rec ( value ) )
//@sub let mut map = serializer . serialize_struct ( "" , m . len ( ) ) ? ; =>> let mut map = serializer . serialize_struct ( "" , m . len ( ) ) ? ; let ghost fin = * final ( map ) ;
//@sub let mut t = serializer . serialize_tuple ( vals . len ( ) ) ? ; =>> let mut t = serializer . serialize_tuple ( vals . len ( ) ) ? ; let ghost fin = * final ( t ) ;
//@emit protocol/bin-prot/src/value/ser.rs impl:SerializeforValue as=ValSer
//@nosub
//@sub serialize < T , S > ( n : & T , s : S ) =>> nat0_serialize < T : IntoU64 + Copy , W : Write > ( n : & T , s : & mut Serializer < W > )
//@sub Result < S :: Ok , S :: Error > =>> Result < ( ) >
//@sub where S : Serializer , T : Unsigned + Into < u64 > + Copy , =>>
//@sub bytes . bin_write_nat0 ( * n ) . unwrap ( ) =>> vx_unwrap ( bytes . bin_write_nat0 ( * n ) )
//@sub let mut bytes = Vec :: new ( ) =>> let mut bytes : Vec < u8 > = Vec :: new ( )
//@sub serialize_bytes ( & bytes ) =>> serialize_bytes ( vx_slice ( & bytes ) )
//@emit protocol/bin-prot/src/integers/nat0.rs fn:serialize
} // verus!
fn main() {}
