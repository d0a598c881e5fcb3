// ------------------------------------------------------------ values as they are observed
pub enum SV { Unit, Nat0(u32), Bool(bool), String(Seq<u8>), Char(u8), Int(i64), Float(f64), Nothing, Just(Box<SV>), Record(Seq<(Seq<char>, SV)>), Tuple(Seq<SV>),
    Sum { name: Seq<char>, index: u8, value: Box<SV> }, Polyvar { name: Seq<char>, tag: u32, value: Box<SV> }, List(Seq<SV>) }
pub open spec fn sv(v: Value) -> SV
    decreases v, 0int
{
    match v {
        Value::Unit => SV::Unit, Value::Nat0(n) => SV::Nat0(n), Value::Bool(b) => SV::Bool(b), Value::String(s) => SV::String(s@), Value::Char(c) => SV::Char(c),
        Value::Int(n) => SV::Int(n), Value::Float(f) => SV::Float(f),
        Value::Option(o) => match o { None => SV::Nothing, Some(b) => SV::Just(Box::new(sv(*b))) },
        Value::Record(m) => SV::Record(svm(m, m@.len())),
        Value::Tuple(l) => SV::Tuple(svs(l, l@.len())),
        Value::List(l) => SV::List(svs(l, l@.len())),
        Value::Sum { name, index, value } => SV::Sum { name: name@, index, value: Box::new(sv(*value)) },
        Value::Polyvar { name, tag, value } => SV::Polyvar { name: name@, tag, value: Box::new(sv(*value)) },
    }
}
pub open spec fn svs(l: Vec<Value>, n: nat) -> Seq<SV> decreases l, n via svs_d { if n == 0 || n > l@.len() { seq![] } else { svs(l, (n - 1) as nat).push(sv(l@[n - 1])) } }
pub open spec fn svm(l: Vec<(String, Value)>, n: nat) -> Seq<(Seq<char>, SV)> decreases l, n via svm_d { if n == 0 || n > l@.len() { seq![] } else { svm(l, (n - 1) as nat).push((l@[n - 1].0@, sv(l@[n - 1].1))) } }
#[via_fn] proof fn svs_d(l: Vec<Value>, n: nat) { if n > 0 && n <= l@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(l, n - 1); } }
#[via_fn] proof fn svm_d(l: Vec<(String, Value)>, n: nat) { if n > 0 && n <= l@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(l, n - 1); } }
/// svs, element by element
pub open spec fn ssv(s: Seq<Value>) -> Seq<SV> { Seq::new(s.len(), |i: int| sv(s[i])) }
pub open spec fn ssm(s: Seq<(String, Value)>) -> Seq<(Seq<char>, SV)> { Seq::new(s.len(), |i: int| (s[i].0@, sv(s[i].1))) }
pub proof fn svs_is(l: Vec<Value>, n: nat) requires n <= l@.len() ensures svs(l, n) == ssv(l@.take(n as int)) decreases n
{ if n == 0 { assert(svs(l, 0) =~= ssv(l@.take(0))); } else { svs_is(l, (n - 1) as nat); assert(svs(l, n) =~= ssv(l@.take(n as int))); } }
pub proof fn svm_is(l: Vec<(String, Value)>, n: nat) requires n <= l@.len() ensures svm(l, n) == ssm(l@.take(n as int)) decreases n
{ if n == 0 { assert(svm(l, 0) =~= ssm(l@.take(0))); } else { svm_is(l, (n - 1) as nat); assert(svm(l, n) =~= ssm(l@.take(n as int))); } }
pub broadcast proof fn sv_list(l: Vec<Value>) ensures #[trigger] sv(Value::List(l)) == SV::List(ssv(l@)) { svs_is(l, l@.len()); assert(l@.take(l@.len() as int) =~= l@); }
pub broadcast proof fn sv_tuple(l: Vec<Value>) ensures #[trigger] sv(Value::Tuple(l)) == SV::Tuple(ssv(l@)) { svs_is(l, l@.len()); assert(l@.take(l@.len() as int) =~= l@); }
pub broadcast proof fn sv_record(l: Vec<(String, Value)>) ensures #[trigger] sv(Value::Record(l)) == SV::Record(ssm(l@)) { svm_is(l, l@.len()); assert(l@.take(l@.len() as int) =~= l@); }

// ------------------------------------------------------------ the value a layout rule gives for a byte string: by structure of the rule
pub type LR = Option<(SV, Path, Seq<u8>)>;
pub type LRs = Option<(Seq<SV>, Path, Seq<u8>)>;
pub type LRm = Option<(Seq<(Seq<char>, SV)>, Path, Seq<u8>)>;
pub open spec fn sc(v: SV, p: Path, m: Seq<u8>, n: int) -> LR { Some((v, p, m.skip(n))) }
pub open spec fn as_tuple(o: LRs) -> LR { match o { Some((vs, p, m)) => Some((SV::Tuple(vs), p, m)), None => None } }
pub open spec fn ld(r: BinProtRule, p: Path, m: Seq<u8>) -> LR
    decreases r, 0int
{
    match r {
        BinProtRule::Unit => if m.len() >= 1 && m[0] == 0 { sc(SV::Unit, p, m, 1) } else { None },
        BinProtRule::Bool => if m.len() >= 1 && m[0] <= 1 { sc(SV::Bool(m[0] == 1), p, m, 1) } else { None },
        BinProtRule::Char => if m.len() >= 1 { sc(SV::Char(m[0]), p, m, 1) } else { None },
        BinProtRule::Float => if m.len() >= 8 { sc(SV::Float(f64_of(unle(m.take(8)))), p, m, 8) } else { None },
        BinProtRule::String => match dec_bytes(m) { Some((b, k)) => sc(SV::List(chars(b)), p, m, k as int), None => None },
        BinProtRule::Int | BinProtRule::Int32 | BinProtRule::Int64 | BinProtRule::NativeInt => match dec_int(m) { Some((n, k)) => if i64::MIN <= n <= i64::MAX { sc(SV::Int(n as i64), p, m, k as int) } else { None }, None => None },
        BinProtRule::Record(fs) => match ld_fields(fs, fs@.len(), p, m) { Some((vs, q, t)) => Some((SV::Record(vs), q, t)), None => None },
        BinProtRule::Tuple(rs) => as_tuple(ld_rules(rs, rs@.len(), p, m)),
        BinProtRule::Sum(ss) => if m.len() >= 1 { ld_sum(ss, ss@.len(), m[0], p, m.skip(1)) } else { None },
        BinProtRule::Polyvar(ps) => if m.len() >= 4 { ld_poly(ps, ps@.len(), (unle(m.take(4)) / 2) as u32, p, m.skip(4)) } else { None },
        BinProtRule::Option(b) => if m.len() < 1 { None } else if m[0] == 0 { sc(SV::Nothing, p, m, 1) } else if m[0] == 1 { match ld(*b, p, m.skip(1)) { Some((v, q, t)) => Some((SV::Just(Box::new(v)), q, t)), None => None } } else { None },
        BinProtRule::List(b) => match dec_nat0(m) { Some((n, k)) => if n <= usize::MAX { match ld_n(*b, n as nat, p, m.skip(k as int)) { Some((vs, q, t)) => Some((SV::List(vs), q, t)), None => None } } else { None }, None => None },
        BinProtRule::Reference(rr) => match rr { RuleRef::Resolved(x) => ld(*x.ref_rule, Some(x.source_module_path@), m), RuleRef::Unresolved(_) => None },
        BinProtRule::Custom(rs) => match p { None => None, Some(path) => match vector_len(path) {
            Some(k) => if rs@.len() == 0 { None } else { match ld_first(rs, k as nat, p, m) { Some((vs, q, t)) => if t.len() >= 1 && t[0] == 0 { Some((SV::Tuple(vs.push(SV::Unit)), q, t.skip(1))) } else { None }, None => None } },
            None => if field_element(path) && m.len() >= 32 { sc(SV::Tuple(chars(m.take(32))), p, m, 32) } else { None },
        } },
        BinProtRule::CustomForPath(path, rs) => match vector_len(path@) {
            Some(k) => if rs@.len() == 0 { None } else { match ld_first(rs, k as nat, p, m) { Some((vs, q, t)) => if t.len() >= 1 && t[0] == 0 { Some((SV::Tuple(vs.push(SV::Unit)), q, t.skip(1))) } else { None }, None => None } },
            None => if field_element(path@) && m.len() >= 32 { sc(SV::Tuple(chars(m.take(32))), p, m, 32) } else { None },
        },
        // rules that are not supported are refused
        _ => None,
    }
}
pub open spec fn chars(b: Seq<u8>) -> Seq<SV> { Seq::new(b.len(), |i: int| SV::Char(b[i])) }
/// the last n rules of rs
pub open spec fn ld_rules(rs: Vec<BinProtRule>, n: nat, p: Path, m: Seq<u8>) -> LRs decreases rs, n via ld_rules_d {
    if n == 0 || n > rs@.len() { Some((seq![], p, m)) } else { match ld(rs@[rs@.len() - n], p, m) { None => None, Some((v, q, t)) => match ld_rules(rs, (n - 1) as nat, q, t) { None => None, Some((vs, o, u)) => Some((seq![v] + vs, o, u)) } } }
}
pub open spec fn ld_fields(fs: Vec<RecordField>, n: nat, p: Path, m: Seq<u8>) -> LRm decreases fs, n via ld_fields_d {
    if n == 0 || n > fs@.len() { Some((seq![], p, m)) } else { match ld(fs@[fs@.len() - n].field_rule, p, m) { None => None, Some((v, q, t)) => match ld_fields(fs, (n - 1) as nat, q, t) { None => None, Some((vs, o, u)) => Some((seq![(fs@[fs@.len() - n].field_name@, v)] + vs, o, u)) } } }
}
/// n times b
pub open spec fn ld_n(b: BinProtRule, n: nat, p: Path, m: Seq<u8>) -> LRs decreases b, n + 1 {
    if n == 0 { Some((seq![], p, m)) } else { match ld(b, p, m) { None => None, Some((v, q, t)) => match ld_n(b, (n - 1) as nat, q, t) { None => None, Some((vs, o, u)) => Some((seq![v] + vs, o, u)) } } }
}
pub open spec fn ld_first(rs: Vec<BinProtRule>, k: nat, p: Path, m: Seq<u8>) -> LRs decreases rs, 0nat via ld_first_d { if rs@.len() == 0 { None } else { ld_n(rs@[0], k, p, m) } }
/// the first of the last n variants with index i
pub open spec fn ld_sum(ss: Vec<Summand>, n: nat, i: u8, p: Path, m: Seq<u8>) -> LR decreases ss, n via ld_sum_d {
    if n == 0 || n > ss@.len() { None }
    else { let c = ss@[ss@.len() - n]; if c.index == i { match ld_rules(c.ctor_args, c.ctor_args@.len(), p, m) { Some((vs, q, t)) => Some((SV::Sum { name: c.ctor_name@, index: i, value: Box::new(SV::Tuple(vs)) }, q, t)), None => None } }
    else { ld_sum(ss, (n - 1) as nat, i, p, m) } }
}
/// the first of the last n variants with hash h
pub open spec fn ld_poly(ps: Vec<Polyvar>, n: nat, h: u32, p: Path, m: Seq<u8>) -> LR decreases ps, n via ld_poly_d {
    if n == 0 || n > ps@.len() { None }
    else { match ps@[ps@.len() - n] {
        Polyvar::Tagged(t) => if t.hash == h { match ld_rules(t.polyvar_args, t.polyvar_args@.len(), p, m) { Some((vs, q, u)) => Some((SV::Polyvar { name: t.polyvar_name@, tag: h, value: Box::new(SV::Tuple(vs)) }, q, u)), None => None } } else { ld_poly(ps, (n - 1) as nat, h, p, m) },
        Polyvar::Inherited(_) => None } }
}
#[via_fn] proof fn ld_rules_d(rs: Vec<BinProtRule>, n: nat, p: Path, m: Seq<u8>) { if n > 0 && n <= rs@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(rs, rs@.len() - n); } }
#[via_fn] proof fn ld_fields_d(fs: Vec<RecordField>, n: nat, p: Path, m: Seq<u8>) { if n > 0 && n <= fs@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(fs, fs@.len() - n); } }
#[via_fn] proof fn ld_first_d(rs: Vec<BinProtRule>, k: nat, p: Path, m: Seq<u8>) { if rs@.len() > 0 { vstd::std_specs::vec::axiom_vec_index_decreases(rs, 0); } }
#[via_fn] proof fn ld_sum_d(ss: Vec<Summand>, n: nat, i: u8, p: Path, m: Seq<u8>) { if n > 0 && n <= ss@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(ss, ss@.len() - n); } }
#[via_fn] proof fn ld_poly_d(ps: Vec<Polyvar>, n: nat, h: u32, p: Path, m: Seq<u8>) { if n > 0 && n <= ps@.len() { vstd::std_specs::vec::axiom_vec_index_decreases(ps, ps@.len() - n); } }

