// The mathematical view of the real types.
/// Mathematical view of a value.
pub open spec fn sv(s: SimpleValue) -> int { match s { SimpleValue::FalseValue => 20, SimpleValue::TrueValue => 21, SimpleValue::NullValue => 22, SimpleValue::Undefined => 23 } }
pub open spec fn vw(v: Value) -> V decreases v {
    match v {
        Value::Unsigned(n) => V::U(n as int),
        Value::Negative(n) => V::N(n as int),
        Value::ByteString(b) => V::B(b@),
        Value::TextString(t) => V::T(encode_utf8(t@)),
        Value::Array(a) => V::A(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { vw(a@[i]) } else { arbitrary() })),
        Value::Map(m) => V::M(Seq::new(m@.len(), |i: int| if 0 <= i < m@.len() { (vw(m@[i].0), vw(m@[i].1)) } else { arbitrary() })),
        Value::Tag(t, x) => V::Tag(t as int, Box::new(vw(*x))),
        Value::Simple(s) => V::S(sv(s)),
    }
}
pub open spec fn vseq(s: Seq<Value>) -> Seq<V> { Seq::new(s.len(), |i: int| vw(s[i])) }
pub open spec fn vmap(s: Seq<(Value, Value)>) -> Seq<(V, V)> { Seq::new(s.len(), |i: int| (vw(s[i].0), vw(s[i].1))) }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Value {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { ord(vw(*self), vw(*other)) is Equal }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Value {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(ord(vw(*self), vw(*other))) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Value {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { ord(vw(*self), vw(*other)) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SimpleValue {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { sv(*self) == sv(*other) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for SimpleValue {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(int_ord(sv(*self), sv(*other))) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for SimpleValue {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { int_ord(sv(*self), sv(*other)) }
}

/// Nesting limit as mathematics.
pub open spec fn lim(d: Option<i8>) -> Option<int> { match d { None => None, Some(n) => Some(n as int) } }
pub open spec fn rv(r: Result<Value, DecoderError>) -> Result<V, DecoderError> { match r { Ok(v) => Ok(vw(v)), Err(e) => Err(e) } }
/// What decoding has read and what is left to read agree with the model.
pub open spec fn step(d: D, r: Result<Value, DecoderError>, rest: Seq<u8>) -> bool {
    match d { Ok((v, s)) => r is Ok && vw(r->Ok_0) == v && rest == s, Err(e) => r == Result::<Value, DecoderError>::Err(e) }
}


/// What encoding promises: success exactly without duplicate keys and excess nesting, the
/// canonical encoding appended; otherwise the error that applies. Nothing already there changes.
pub open spec fn written(v: V, limit: Option<int>, before: Seq<u8>, r: Result<(), EncoderError>, after: Seq<u8>) -> bool {
    &&& before.is_prefix_of(after)
    &&& match r {
        Ok(_) => !has_dup(v) && within(v, limit) && after == before + cenc(v),
        Err(EncoderError::TooMuchNesting) => !within(v, limit),
        Err(EncoderError::DuplicateMapKey) => has_dup(v),
    }
}
