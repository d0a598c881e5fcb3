use ser::Serializer as _;
// ------------------------------------------------------------ the bytes of a value
pub open spec fn e(v: SV) -> Seq<u8>
    decreases v, 0nat
{
    match v {
        SV::Unit => seq![0u8],
        SV::Nat0(n) => enc_nat0(n as int),
        SV::Bool(b) => seq![if b { 1u8 } else { 0u8 }],
        SV::String(s) => enc_nat0(s.len() as int) + s,
        SV::Char(c) => seq![c],
        SV::Int(n) => enc_int(n as int),
        SV::Float(f) => le(f64_bits(f), 8),
        SV::Nothing => seq![0u8],
        SV::Just(b) => seq![1u8] + e(*b),
        SV::Record(ms) => e_fields(ms, ms.len()),
        SV::Tuple(vs) => e_last(vs, vs.len()),
        SV::Sum { name, index, value } => seq![index] + e(*value),
        SV::Polyvar { name, tag, value } => enc_tag(tag as int) + e(*value),
        SV::List(vs) => enc_nat0(vs.len() as int) + e_last(vs, vs.len()),
    }
}
/// the last n elements
pub open spec fn e_last(vs: Seq<SV>, n: nat) -> Seq<u8> decreases vs, n via e_last_d { if n == 0 || n > vs.len() { seq![] } else { e(vs[vs.len() - n]) + e_last(vs, (n - 1) as nat) } }
pub open spec fn e_fields(vs: Seq<(Seq<char>, SV)>, n: nat) -> Seq<u8> decreases vs, n via e_fields_d { if n == 0 || n > vs.len() { seq![] } else { e(vs[vs.len() - n].1) + e_fields(vs, (n - 1) as nat) } }
#[via_fn] proof fn e_last_d(vs: Seq<SV>, n: nat) { if n > 0 && n <= vs.len() { vstd::seq::lemma_seq_index_decreases(vs, vs.len() - n); } }
#[via_fn] proof fn e_fields_d(vs: Seq<(Seq<char>, SV)>, n: nat) { if n > 0 && n <= vs.len() { vstd::seq::lemma_seq_index_decreases(vs, vs.len() - n); } }

// ------------------------------------------------------------ Serialize for Value
/// a recursive call of Value::serialize, taken by contract (the contract proved of Value::serialize below)
pub struct VxRec<'a> { pub v: &'a Value }
impl<'a> Serialize for VxRec<'a> {
    open spec fn enc(&self) -> Seq<u8> { e(sv(*self.v)) }
    #[verifier::external_body]
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { unimplemented!() }
}
pub fn vx_rec<'a>(v: &'a Value) -> (r: VxRec<'a>) ensures r.v == v { VxRec { v } }
// serde's impls
impl Serialize for i64 { open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) } fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { s.serialize_i64(*self) } }
impl Serialize for f64 { open spec fn enc(&self) -> Seq<u8> { le(f64_bits(*self), 8) } fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { s.serialize_f64(*self) } }
impl Serialize for u8 { open spec fn enc(&self) -> Seq<u8> { seq![*self] } fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { s.serialize_u8(*self) } }
/// Vec<T>::serialize: serialize_seq(Some(len)), the elements, end
pub fn vx_bytes_seq<W: Write>(v: &Vec<u8>, s: &mut Serializer<W>) -> (r: Result<()>)
    ensures r is Ok ==> final(s).out() == old(s).out() + (enc_nat0(v@.len() as int) + v@)
{
    broadcast use cat_assoc, cat_none;
    let ghost pre = s.out();
    let mut q = s.serialize_seq(Some(v.len()))?;
    let ghost fin = *final(q);
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), q.out() == pre + (enc_nat0(v@.len() as int) + v@.take(i as int)), *final(q) == fin,
        decreases v@.len() - i
    {
        proof { assert(v@.take(i as int + 1) =~= v@.take(i as int) + seq![v@[i as int]]); }
        ser::SerializeSeq::serialize_element(&mut q, &v[i])?;
        i = i + 1;
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    ser::SerializeSeq::end(q)
}
pub fn vx_value_seq<W: Write>(v: &Vec<Value>, s: &mut Serializer<W>) -> (r: Result<()>)
    ensures r is Ok ==> final(s).out() == old(s).out() + (enc_nat0(v@.len() as int) + e_last(ssv(v@), v@.len()))
{
    broadcast use cat_assoc, cat_none;
    let ghost pre = s.out();
    let mut q = s.serialize_seq(Some(v.len()))?;
    let ghost fin = *final(q);
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), q.out() + e_last(ssv(v@), (v@.len() - i) as nat) == pre + (enc_nat0(v@.len() as int) + e_last(ssv(v@), v@.len())), *final(q) == fin,
        decreases v@.len() - i
    {
        broadcast use cat_assoc;
        ser::SerializeSeq::serialize_element(&mut q, &vx_rec(&v[i]))?;
        i = i + 1;
    }
    ser::SerializeSeq::end(q)
}
//@impl ValSer
    open spec fn enc(&self) -> Seq<u8> { e(sv(*self)) }
//@end
//@fn ValSer::serialize
//@attr #[verifier::loop_isolation(false)]
//@entry
    broadcast use sv_list, sv_tuple, sv_record, cat_assoc, cat_none;
    let ghost pre = serializer.out();
    proof {
        reveal_strlit("Polyvar"); reveal_strlit("PolyvarTag"); reveal_strlit("");
        assert(""@.len() == 0 && "Polyvar"@.len() == 7 && "PolyvarTag"@.len() == 10);
        if let Value::Char(c) = *self { assert((c as char) as u8 == c); }
    }
//@loop 0
    invariant vx_i0 <= m@.len(), vx_s0@ == m@, map.out() + e_fields(ssm(m@), (m@.len() - vx_i0) as nat) == pre + e_fields(ssm(m@), m@.len()), *final(map) == fin,
    decreases m@.len() - vx_i0
//@loop 1
    invariant vx_i1 <= vals@.len(), vx_s1@ == vals@, t.out() + e_last(ssv(vals@), (vals@.len() - vx_i1) as nat) == pre + e_last(ssv(vals@), vals@.len()), *final(t) == fin,
    decreases vals@.len() - vx_i1
//@end
//@fn serialize
    ensures r is Ok ==> final(s).out() == old(s).out() + enc_nat0(n.int()),
//@entry
    broadcast use cat_empty;
//@end
/// std: a Vec<u8> takes every byte
impl Write for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_u8(&mut self, n: u8) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_i8(&mut self, n: i8) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_u16<B: ByteOrder>(&mut self, n: u16) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_i16<B: ByteOrder>(&mut self, n: i16) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_u32<B: ByteOrder>(&mut self, n: u32) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_i32<B: ByteOrder>(&mut self, n: i32) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_u64<B: ByteOrder>(&mut self, n: u64) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_i64<B: ByteOrder>(&mut self, n: i64) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
}
/// r.unwrap(): panics (never answers) on Err
#[verifier::external_body]
pub fn vx_unwrap<T>(r: core::result::Result<T, io::Error>) -> (v: T) ensures r is Ok, v == r->Ok_0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_slice(v: &Vec<u8>) -> (r: &[u8]) ensures r@ == v@ { unimplemented!() }
// ------------------------------------------------------------ lossless
/// v is a value the layout rule r describes; the result is the path the traversal is left with
pub open spec fn conf(r: BinProtRule, p: Path, v: SV) -> Option<Path>
    decreases r, 0int
{
    match (r, v) {
        (BinProtRule::Unit, SV::Unit) => Some(p),
        (BinProtRule::Bool, SV::Bool(_)) => Some(p),
        (BinProtRule::Char, SV::Char(_)) => Some(p),
        (BinProtRule::Float, SV::Float(_)) => Some(p),
        (BinProtRule::Int, SV::Int(_)) | (BinProtRule::Int32, SV::Int(_)) | (BinProtRule::Int64, SV::Int(_)) | (BinProtRule::NativeInt, SV::Int(_)) => Some(p),
        (BinProtRule::String, SV::List(vs)) => if all_chars(vs) && vs.len() <= u64::MAX { Some(p) } else { None },
        (BinProtRule::Record(fs), SV::Record(ms)) => if ms.len() == fs@.len() { conf_fields(fs, fs@.len(), p, ms) } else { None },
        (BinProtRule::Tuple(rs), SV::Tuple(vs)) => if vs.len() == rs@.len() { conf_rules(rs, rs@.len(), p, vs) } else { None },
        (BinProtRule::Option(b), SV::Nothing) => Some(p),
        (BinProtRule::Option(b), SV::Just(w)) => conf(*b, p, *w),
        (BinProtRule::List(b), SV::List(vs)) => if vs.len() <= usize::MAX { conf_n(*b, vs.len(), p, vs) } else { None },
        (BinProtRule::Sum(ss), SV::Sum { name, index, value }) => match *value { SV::Tuple(vs) => conf_sum(ss, ss@.len(), index, name, p, vs), _ => None },
        (BinProtRule::Polyvar(ps), SV::Polyvar { name, tag, value }) => match *value { SV::Tuple(vs) => if tag < 0x8000_0000 { conf_poly(ps, ps@.len(), tag, name, p, vs) } else { None }, _ => None },
        (BinProtRule::Reference(RuleRef::Resolved(x)), _) => conf(*x.ref_rule, Some(x.source_module_path@), v),
        (BinProtRule::Custom(rs), SV::Tuple(vs)) => match p { None => None, Some(path) => match vector_len(path) {
            Some(k) => if rs@.len() > 0 && vs.len() == k + 1 && vs.last() == SV::Unit { conf_first(rs, k as nat, p, vs.drop_last()) } else { None },
            None => if field_element(path) && vs.len() == 32 && all_chars(vs) { Some(p) } else { None },
        } },
        _ => None,
    }
}
pub open spec fn all_chars(vs: Seq<SV>) -> bool { forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]) is Char }
pub open spec fn conf_rules(rs: Vec<BinProtRule>, n: nat, p: Path, vs: Seq<SV>) -> Option<Path> decreases rs, n via conf_rules_d {
    if n == 0 || n > rs@.len() || vs.len() != rs@.len() { Some(p) } else { match conf(rs@[rs@.len() - n], p, vs[vs.len() - n]) { None => None, Some(q) => conf_rules(rs, (n - 1) as nat, q, vs) } }
}
pub open spec fn conf_fields(fs: Vec<RecordField>, n: nat, p: Path, vs: Seq<(Seq<char>, SV)>) -> Option<Path> decreases fs, n via conf_fields_d {
    if n == 0 || n > fs@.len() || vs.len() != fs@.len() { Some(p) } else if fs@[fs@.len() - n].field_name@ != vs[vs.len() - n].0 { None } else { match conf(fs@[fs@.len() - n].field_rule, p, vs[vs.len() - n].1) { None => None, Some(q) => conf_fields(fs, (n - 1) as nat, q, vs) } }
}
pub open spec fn conf_n(b: BinProtRule, n: nat, p: Path, vs: Seq<SV>) -> Option<Path> decreases b, n + 1 {
    if n == 0 || n > vs.len() { Some(p) } else { match conf(b, p, vs[vs.len() - n]) { None => None, Some(q) => conf_n(b, (n - 1) as nat, q, vs) } }
}
pub open spec fn conf_first(rs: Vec<BinProtRule>, k: nat, p: Path, vs: Seq<SV>) -> Option<Path> decreases rs, 0nat via conf_first_d { if rs@.len() == 0 { None } else { conf_n(rs@[0], k, p, vs) } }
pub open spec fn conf_sum(ss: Vec<Summand>, n: nat, i: u8, name: Seq<char>, p: Path, vs: Seq<SV>) -> Option<Path> decreases ss, n via conf_sum_d {
    if n == 0 || n > ss@.len() { None }
    else { let c = ss@[ss@.len() - n]; if c.index == i { if c.ctor_name@ == name && vs.len() == c.ctor_args@.len() { conf_rules(c.ctor_args, vs.len(), p, vs) } else { None } }
    else { conf_sum(ss, (n - 1) as nat, i, name, p, vs) } }
}
pub open spec fn conf_poly(ps: Vec<Polyvar>, n: nat, h: u32, name: Seq<char>, p: Path, vs: Seq<SV>) -> Option<Path> decreases ps, n via conf_poly_d {
    if n == 0 || n > ps@.len() { None }
    else { match ps@[ps@.len() - n] {
        Polyvar::Tagged(t) => if t.hash == h { if t.polyvar_name@ == name && vs.len() == t.polyvar_args@.len() { conf_rules(t.polyvar_args, vs.len(), p, vs) } else { None } } else { conf_poly(ps, (n - 1) as nat, h, name, p, vs) },
        Polyvar::Inherited(_) => None } }
}
#[via_fn] proof fn conf_rules_d(rs: Vec<BinProtRule>, n: nat, p: Path, vs: Seq<SV>) { if n > 0 && n <= rs@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(rs, rs@.len() - n); } }
#[via_fn] proof fn conf_fields_d(fs: Vec<RecordField>, n: nat, p: Path, vs: Seq<(Seq<char>, SV)>) { if n > 0 && n <= fs@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(fs, fs@.len() - n); } }
#[via_fn] proof fn conf_first_d(rs: Vec<BinProtRule>, k: nat, p: Path, vs: Seq<SV>) { if rs@.len() > 0 { vstd::std_specs::vec::axiom_vec_index_decreases(rs, 0); } }
#[via_fn] proof fn conf_sum_d(ss: Vec<Summand>, n: nat, i: u8, name: Seq<char>, p: Path, vs: Seq<SV>) { if n > 0 && n <= ss@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(ss, ss@.len() - n); } }
#[via_fn] proof fn conf_poly_d(ps: Vec<Polyvar>, n: nat, h: u32, name: Seq<char>, p: Path, vs: Seq<SV>) { if n > 0 && n <= ps@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(ps, ps@.len() - n); } }
/// std: f64::from_bits inverts to_bits
#[verifier::external_body]
pub proof fn f64_bits_inverse(f: f64) ensures f64_of(f64_bits(f)) == f, 0 <= f64_bits(f) < 0x1_0000_0000_0000_0000 { unimplemented!() }
proof fn cat_skip(a: Seq<u8>, b: Seq<u8>) ensures (a + b).skip(a.len() as int) == b { assert((a + b).skip(a.len() as int) =~= b); }
proof fn cat3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
/// characters are written as they are
proof fn chars_written(vs: Seq<SV>, n: nat) -> (b: Seq<u8>)
    requires all_chars(vs), n <= vs.len()
    ensures e_last(vs, n) == b, b.len() == n, chars(b) == vs.skip(vs.len() - n)
    decreases n
{
    if n == 0 { assert(e_last(vs, 0) =~= seq![]); assert(chars(seq![]) =~= vs.skip(vs.len() as int)); seq![] } else {
        let t = chars_written(vs, (n - 1) as nat);
        let x = vs[vs.len() - n];
        assert(x is Char);
        let c = x->Char_0;
        let b = seq![c] + t;
        assert(e(x) == seq![c]);
        assert(chars(b) =~= vs.skip(vs.len() - n)) by {
            assert forall|i: int| 0 <= i < n implies chars(b)[i] == vs.skip(vs.len() - n)[i] by { if i > 0 { assert(chars(t)[i - 1] == vs.skip(vs.len() - (n - 1))[i - 1]); } }
        }
        b
    }
}
/// encode a value the layout describes, decode it along the layout: the same value, and exactly its bytes consumed
pub proof fn lossless(r: BinProtRule, p: Path, v: SV, m: Seq<u8>)
    requires conf(r, p, v) is Some
    ensures ld(r, p, e(v) + m) == Some((v, conf(r, p, v)->Some_0, m))
    decreases r, 0int
{
    broadcast use le_len;
    let s = e(v) + m;
    cat_skip(e(v), m);
    match (r, v) {
        (BinProtRule::Float, SV::Float(f)) => { f64_bits_inverse(f); unle_le(f64_bits(f), 8); pow256_vals(); assert(s.take(8) =~= le(f64_bits(f), 8)); }
        (BinProtRule::Int, SV::Int(n)) | (BinProtRule::Int32, SV::Int(n)) | (BinProtRule::Int64, SV::Int(n)) | (BinProtRule::NativeInt, SV::Int(n)) => { int_roundtrip(n as int, m); }
        (BinProtRule::String, SV::List(vs)) => { let b = chars_written(vs, vs.len()); bytes_roundtrip(b, m); assert(vs.skip(0) =~= vs); }
        (BinProtRule::Record(fs), SV::Record(ms)) => { lossless_fields(fs, fs@.len(), p, ms, m); assert(ms.skip(0) =~= ms); }
        (BinProtRule::Tuple(rs), SV::Tuple(vs)) => { lossless_rules(rs, rs@.len(), p, vs, m); assert(vs.skip(0) =~= vs); }
        (BinProtRule::Option(b), SV::Just(w)) => { lossless(*b, p, *w, m); cat3(seq![1u8], e(*w), m); cat_skip(seq![1u8], e(*w) + m); }
        (BinProtRule::List(b), SV::List(vs)) => {
            let h = enc_nat0(vs.len() as int); let t = e_last(vs, vs.len());
            cat3(h, t, m); cat_skip(h, t + m); nat0_roundtrip(vs.len() as int, t + m);
            lossless_n(*b, vs.len(), p, vs, m); assert(vs.skip(0) =~= vs);
        }
        (BinProtRule::Sum(ss), SV::Sum { name, index, value }) => {
            let vs = value->Tuple_0; let t = e_last(vs, vs.len());
            assert(e(*value) == t);
            cat3(seq![index], t, m); cat_skip(seq![index], t + m);
            lossless_sum(ss, ss@.len(), index, name, p, vs, m);
        }
        (BinProtRule::Polyvar(ps), SV::Polyvar { name, tag, value }) => {
            let vs = value->Tuple_0; let t = e_last(vs, vs.len());
            assert(e(*value) == t);
            cat3(enc_tag(tag as int), t, m); cat_skip(enc_tag(tag as int), t + m);
            tag_roundtrip(tag as int, t + m);
            lossless_poly(ps, ps@.len(), tag, name, p, vs, m);
        }
        (BinProtRule::Reference(RuleRef::Resolved(x)), _) => { lossless(*x.ref_rule, Some(x.source_module_path@), v, m); }
        (BinProtRule::Custom(rs), SV::Tuple(vs)) => { lossless_custom(rs, p, vs, m); }
        _ => {}
    }
}
proof fn lossless_custom(rs: Vec<BinProtRule>, p: Path, vs: Seq<SV>, m: Seq<u8>)
    requires conf(BinProtRule::Custom(rs), p, SV::Tuple(vs)) is Some
    ensures ld(BinProtRule::Custom(rs), p, e(SV::Tuple(vs)) + m) == Some((SV::Tuple(vs), conf(BinProtRule::Custom(rs), p, SV::Tuple(vs))->Some_0, m))
    decreases rs, 1nat
{
    let s = e(SV::Tuple(vs)) + m;
    cat_skip(e(SV::Tuple(vs)), m);
    let path = p->Some_0;
    match vector_len(path) {
        Some(k) => {
            let d = vs.drop_last();
            e_drop_last(vs, vs.len());
            cat3(e_last(d, d.len()), seq![0u8], m);
            lossless_first(rs, k as nat, p, d, seq![0u8] + m);
            cat_skip(seq![0u8], m);
            assert(d.push(SV::Unit) =~= vs);
        }
        None => { let b = chars_written(vs, 32); assert(s.take(32) =~= b); assert(vs.skip(0) =~= vs); }
    }
}
/// the last element's bytes come last
proof fn e_drop_last(vs: Seq<SV>, n: nat)
    requires 0 < n <= vs.len()
    ensures e_last(vs, n) == e_last(vs.drop_last(), (n - 1) as nat) + e(vs.last())
    decreases n
{
    let d = vs.drop_last();
    if n == 1 { assert(e_last(vs, 0) =~= seq![]); assert(e_last(d, 0) =~= seq![]); assert(e(vs.last()) + seq![] =~= seq![] + e(vs.last())); } else {
        e_drop_last(vs, (n - 1) as nat);
        assert(d[d.len() - (n - 1)] == vs[vs.len() - n]);
        cat3(e(vs[vs.len() - n]), e_last(d, (n - 2) as nat), e(vs.last()));
    }
}
proof fn lossless_rules(rs: Vec<BinProtRule>, n: nat, p: Path, vs: Seq<SV>, m: Seq<u8>)
    requires n <= rs@.len(), vs.len() == rs@.len(), conf_rules(rs, n, p, vs) is Some
    ensures ld_rules(rs, n, p, e_last(vs, n) + m) == Some((vs.skip(vs.len() - n), conf_rules(rs, n, p, vs)->Some_0, m))
    decreases rs, n
{
    if n == 0 { assert(e_last(vs, 0) + m =~= m); assert(vs.skip(vs.len() as int) =~= seq![]); } else {
        vstd::std_specs::vec::axiom_vec_index_decreases(rs, rs@.len() - n);
        let x = vs[vs.len() - n];
        cat3(e(x), e_last(vs, (n - 1) as nat), m);
        lossless(rs@[rs@.len() - n], p, x, e_last(vs, (n - 1) as nat) + m);
        let q = conf(rs@[rs@.len() - n], p, x)->Some_0;
        lossless_rules(rs, (n - 1) as nat, q, vs, m);
        assert(seq![x] + vs.skip(vs.len() - (n - 1)) =~= vs.skip(vs.len() - n));
    }
}
proof fn lossless_fields(fs: Vec<RecordField>, n: nat, p: Path, vs: Seq<(Seq<char>, SV)>, m: Seq<u8>)
    requires n <= fs@.len(), vs.len() == fs@.len(), conf_fields(fs, n, p, vs) is Some
    ensures ld_fields(fs, n, p, e_fields(vs, n) + m) == Some((vs.skip(vs.len() - n), conf_fields(fs, n, p, vs)->Some_0, m))
    decreases fs, n
{
    if n == 0 { assert(e_fields(vs, 0) + m =~= m); assert(vs.skip(vs.len() as int) =~= seq![]); } else {
        vstd::std_specs::vec::axiom_vec_index_decreases(fs, fs@.len() - n);
        let x = vs[vs.len() - n];
        cat3(e(x.1), e_fields(vs, (n - 1) as nat), m);
        lossless(fs@[fs@.len() - n].field_rule, p, x.1, e_fields(vs, (n - 1) as nat) + m);
        let q = conf(fs@[fs@.len() - n].field_rule, p, x.1)->Some_0;
        lossless_fields(fs, (n - 1) as nat, q, vs, m);
        assert(seq![x] + vs.skip(vs.len() - (n - 1)) =~= vs.skip(vs.len() - n));
    }
}
proof fn lossless_n(b: BinProtRule, n: nat, p: Path, vs: Seq<SV>, m: Seq<u8>)
    requires n <= vs.len(), conf_n(b, n, p, vs) is Some
    ensures ld_n(b, n, p, e_last(vs, n) + m) == Some((vs.skip(vs.len() - n), conf_n(b, n, p, vs)->Some_0, m))
    decreases b, n + 1
{
    if n == 0 { assert(e_last(vs, 0) + m =~= m); assert(vs.skip(vs.len() as int) =~= seq![]); } else {
        let x = vs[vs.len() - n];
        cat3(e(x), e_last(vs, (n - 1) as nat), m);
        lossless(b, p, x, e_last(vs, (n - 1) as nat) + m);
        let q = conf(b, p, x)->Some_0;
        lossless_n(b, (n - 1) as nat, q, vs, m);
        assert(seq![x] + vs.skip(vs.len() - (n - 1)) =~= vs.skip(vs.len() - n));
    }
}
proof fn lossless_first(rs: Vec<BinProtRule>, k: nat, p: Path, vs: Seq<SV>, m: Seq<u8>)
    requires rs@.len() > 0, k == vs.len(), conf_first(rs, k, p, vs) is Some
    ensures ld_first(rs, k, p, e_last(vs, k) + m) == Some((vs, conf_first(rs, k, p, vs)->Some_0, m))
    decreases rs, 0nat
{
    vstd::std_specs::vec::axiom_vec_index_decreases(rs, 0);
    lossless_n(rs@[0], k, p, vs, m);
    assert(vs.skip(0) =~= vs);
}
proof fn lossless_sum(ss: Vec<Summand>, n: nat, i: u8, name: Seq<char>, p: Path, vs: Seq<SV>, m: Seq<u8>)
    requires conf_sum(ss, n, i, name, p, vs) is Some
    ensures ld_sum(ss, n, i, p, e_last(vs, vs.len()) + m) == Some((SV::Sum { name, index: i, value: Box::new(SV::Tuple(vs)) }, conf_sum(ss, n, i, name, p, vs)->Some_0, m))
    decreases ss, n
{
    if n > 0 && n <= ss@.len() {
        vstd::std_specs::vec::axiom_vec_index_decreases(ss, ss@.len() - n);
        let c = ss@[ss@.len() - n];
        if c.index == i { lossless_rules(c.ctor_args, vs.len(), p, vs, m); assert(vs.skip(0) =~= vs); } else { lossless_sum(ss, (n - 1) as nat, i, name, p, vs, m); }
    }
}
proof fn lossless_poly(ps: Vec<Polyvar>, n: nat, h: u32, name: Seq<char>, p: Path, vs: Seq<SV>, m: Seq<u8>)
    requires conf_poly(ps, n, h, name, p, vs) is Some
    ensures ld_poly(ps, n, h, p, e_last(vs, vs.len()) + m) == Some((SV::Polyvar { name, tag: h, value: Box::new(SV::Tuple(vs)) }, conf_poly(ps, n, h, name, p, vs)->Some_0, m))
    decreases ps, n
{
    if n > 0 && n <= ps@.len() {
        vstd::std_specs::vec::axiom_vec_index_decreases(ps, ps@.len() - n);
        match ps@[ps@.len() - n] {
            Polyvar::Tagged(t) => if t.hash == h { lossless_rules(t.polyvar_args, vs.len(), p, vs, m); assert(vs.skip(0) =~= vs); } else { lossless_poly(ps, (n - 1) as nat, h, name, p, vs, m); },
            Polyvar::Inherited(_) => {}
        }
    }
}
