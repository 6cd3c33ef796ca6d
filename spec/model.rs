// Mathematical model of CBOR items: independent of the implementation.

/// A CBOR item as mathematics: integers unbounded, strings as byte sequences.
#[verifier::ext_equal]
pub enum V {
    U(int),
    N(int),
    B(Seq<u8>),
    T(Seq<u8>),
    A(Seq<V>),
    M(Seq<(V, V)>),
    Tag(int, Box<V>),
    S(int),
}

/// The item that denotes an integer.
pub open spec fn v_int(i: int) -> V { if i >= 0 { V::U(i) } else { V::N(i) } }

pub open spec fn two64() -> int { 0x1_0000_0000_0000_0000 }

/// Values that denote a CBOR item (everything else, e.g. Negative(5), has no encoding).
pub open spec fn wf(v: V) -> bool
    decreases v
{
    match v {
        V::U(n) => 0 <= n < two64(),
        V::N(n) => -two64() <= n < 0,
        V::B(b) => b.len() < two64(),
        V::T(b) => b.len() < two64() && valid_utf8(b),
        V::A(a) => a.len() < two64() && wf_arr(a, a.len()),
        V::M(m) => m.len() < two64() && wf_map(m, m.len()),
        V::Tag(t, x) => 0 <= t < two64() && wf(*x),
        V::S(n) => 20 <= n <= 23,
    }
}

/// The first n elements are well formed.
pub open spec fn wf_arr(a: Seq<V>, n: nat) -> bool
    decreases a, n
{
    if n == 0 || n > a.len() { true } else { wf_arr(a, (n - 1) as nat) && wf(a[n - 1]) }
}

/// The first n entries are well formed.
pub open spec fn wf_map(m: Seq<(V, V)>, n: nat) -> bool
    decreases m, n
{
    if n == 0 || n > m.len() { true } else { wf_map(m, (n - 1) as nat) && wf(m[n - 1].0) && wf(m[n - 1].1) }
}

// ------------------------------------------------------------------ nesting depth

/// Deepest level of any item inside `v`; the item itself is level 0.
pub open spec fn depth(v: V) -> nat
    decreases v
{
    match v {
        V::A(a) => depth_arr(a, a.len()),
        V::M(m) => depth_map(m, m.len()),
        V::Tag(t, x) => depth(*x) + 1,
        _ => 0,
    }
}

/// One more than the deepest of the first n elements, 0 if there is none.
pub open spec fn depth_arr(a: Seq<V>, n: nat) -> nat
    decreases a, n
{
    if n == 0 || n > a.len() { 0 } else { max2(depth_arr(a, (n - 1) as nat), depth(a[n - 1]) + 1) }
}

pub open spec fn depth_map(m: Seq<(V, V)>, n: nat) -> nat
    decreases m, n
{
    if n == 0 || n > m.len() { 0 } else { max2(depth_map(m, (n - 1) as nat), max2(depth(m[n - 1].0), depth(m[n - 1].1)) + 1) }
}

pub open spec fn max2(a: nat, b: nat) -> nat { if a >= b { a } else { b } }

pub open spec fn within(v: V, limit: Option<int>) -> bool {
    match limit { None => true, Some(n) => depth(v) <= n }
}

// ------------------------------------------------------------------ encoding

/// `k` bytes, big endian.
pub open spec fn be(n: int, k: nat) -> Seq<u8>
    decreases k
{
    if k == 0 { Seq::empty() } else { be(n / 256, (k - 1) as nat).push((n % 256) as u8) }
}

/// Value of a big-endian byte string.
pub open spec fn be_val(b: Seq<u8>) -> int
    decreases b.len()
{
    if b.len() == 0 { 0 } else { be_val(b.drop_last()) * 256 + b.last() as int }
}

/// Additional-information code of the shortest head for `n`.
pub open spec fn head_ai(n: int) -> int {
    if n < 24 { n } else if n < 0x100 { 24 } else if n < 0x1_0000 { 25 } else if n < 0x1_0000_0000 { 26 } else { 27 }
}

/// Number of extra bytes for additional information `ai` (28..31 are reserved).
pub open spec fn ai_bytes(ai: int) -> nat {
    if ai < 24 { 0 } else if ai == 24 { 1 } else if ai == 25 { 2 } else if ai == 26 { 4 } else { 8 }
}

/// The shortest head: major type and argument.
pub open spec fn head(major: int, n: int) -> Seq<u8> {
    seq![(major * 32 + head_ai(n)) as u8] + be(n, ai_bytes(head_ai(n)))
}

/// Structural encoding, map entries in the order given.
pub open spec fn enc(v: V) -> Seq<u8>
    decreases v
{
    match v {
        V::U(n) => head(0, n),
        V::N(n) => head(1, -1 - n),
        V::B(b) => head(2, b.len() as int) + b,
        V::T(b) => head(3, b.len() as int) + b,
        V::A(a) => head(4, a.len() as int) + enc_arr(a, a.len()),
        V::M(m) => head(5, m.len() as int) + enc_map(m, m.len()),
        V::Tag(t, x) => head(6, t) + enc(*x),
        V::S(n) => head(7, n),
    }
}

/// Encodings of the first n elements, one after the other.
pub open spec fn enc_arr(a: Seq<V>, n: nat) -> Seq<u8>
    decreases a, n
{
    if n == 0 || n > a.len() { Seq::empty() } else { enc_arr(a, (n - 1) as nat) + enc(a[n - 1]) }
}

/// Encodings of the first n entries (key, value), one after the other.
pub open spec fn enc_map(m: Seq<(V, V)>, n: nat) -> Seq<u8>
    decreases m, n
{
    if n == 0 || n > m.len() { Seq::empty() } else { enc_map(m, (n - 1) as nat) + enc(m[n - 1].0) + enc(m[n - 1].1) }
}

// ------------------------------------------------------------------ orders

/// Bytewise lexicographic order.
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}

pub open spec fn int_ord(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }
}

pub open spec fn then(a: Ordering, b: Ordering) -> Ordering {
    if a is Equal { b } else { a }
}

pub open spec fn rev(a: Ordering) -> Ordering {
    match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}

pub open spec fn major(v: V) -> int {
    match v { V::U(_) => 0, V::N(_) => 1, V::B(_) => 2, V::T(_) => 3, V::A(_) => 4, V::M(_) => 5, V::Tag(_, _) => 6, V::S(_) => 7 }
}

/// The order on items: major type, then argument or length, then content.
pub open spec fn ord(a: V, b: V) -> Ordering
    decreases a
{
    match (a, b) {
        (V::U(x), V::U(y)) => int_ord(x, y),
        (V::N(x), V::N(y)) => int_ord(y, x),
        (V::B(x), V::B(y)) => then(int_ord(x.len() as int, y.len() as int), lex(x, y)),
        (V::T(x), V::T(y)) => then(int_ord(x.len() as int, y.len() as int), lex(x, y)),
        (V::A(x), V::A(y)) => then(int_ord(x.len() as int, y.len() as int), ord_arr(x, y, x.len())),
        (V::M(x), V::M(y)) => then(int_ord(x.len() as int, y.len() as int), ord_map(x, y, x.len())),
        (V::Tag(s, x), V::Tag(t, y)) => then(int_ord(s, t), ord(*x, *y)),
        (V::S(x), V::S(y)) => int_ord(x, y),
        _ => int_ord(major(a), major(b)),
    }
}

/// First difference among the first n elements.
pub open spec fn ord_arr(a: Seq<V>, b: Seq<V>, n: nat) -> Ordering
    decreases a, n
{
    if n == 0 || n > a.len() || n > b.len() { Ordering::Equal }
    else { then(ord_arr(a, b, (n - 1) as nat), ord(a[n - 1], b[n - 1])) }
}

/// First difference among the first n entries, key before value.
pub open spec fn ord_map(a: Seq<(V, V)>, b: Seq<(V, V)>, n: nat) -> Ordering
    decreases a, n
{
    if n == 0 || n > a.len() || n > b.len() { Ordering::Equal }
    else { then(ord_map(a, b, (n - 1) as nat), then(ord(a[n - 1].0, b[n - 1].0), ord(a[n - 1].1, b[n - 1].1))) }
}

// ------------------------------------------------------------------ canonical items

/// Every map at every depth is strictly sorted by key.
pub open spec fn canon(v: V) -> bool
    decreases v
{
    match v {
        V::A(a) => canon_arr(a, a.len()),
        V::M(m) => canon_map(m, m.len()),
        V::Tag(t, x) => canon(*x),
        _ => true,
    }
}

/// The first n elements are canonical.
pub open spec fn canon_arr(a: Seq<V>, n: nat) -> bool
    decreases a, n
{
    if n == 0 || n > a.len() { true } else { canon_arr(a, (n - 1) as nat) && canon(a[n - 1]) }
}

/// The first n entries are canonical and each key exceeds the one before.
pub open spec fn canon_map(m: Seq<(V, V)>, n: nat) -> bool
    decreases m, n
{
    if n == 0 || n > m.len() { true }
    else {
        &&& canon_map(m, (n - 1) as nat)
        &&& canon(m[n - 1].0)
        &&& canon(m[n - 1].1)
        &&& n > 1 ==> ord(m[n - 2].0, m[n - 1].0) is Less
    }
}

// ------------------------------------------------------------------ canonical encoding of any item

/// Byte-level map entry: encoded key, encoded value.
pub type E2 = (Seq<u8>, Seq<u8>);

/// Insert keeping keys in bytewise order (after equal keys).
pub open spec fn ins(e: E2, s: Seq<E2>) -> Seq<E2>
    decreases s.len()
{
    if s.len() == 0 { seq![e] }
    else if lex(s.last().0, e.0) is Greater { ins(e, s.drop_last()).push(s.last()) }
    else { s.push(e) }
}

pub open spec fn isort(s: Seq<E2>) -> Seq<E2>
    decreases s.len()
{
    if s.len() == 0 { s } else { ins(s.last(), isort(s.drop_last())) }
}

pub open spec fn flat2(s: Seq<E2>, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 || n > s.len() { Seq::empty() } else { flat2(s, (n - 1) as nat) + s[n - 1].0 + s[n - 1].1 }
}

/// The canonical encoding: as `enc`, with the entries of every map sorted by encoded key.
pub open spec fn cenc(v: V) -> Seq<u8>
    decreases v
{
    match v {
        V::A(a) => head(4, a.len() as int) + cenc_arr(a, a.len()),
        V::M(m) => head(5, m.len() as int) + flat2(isort(centries(m)), m.len()),
        V::Tag(t, x) => head(6, t) + cenc(*x),
        _ => enc(v),
    }
}

pub open spec fn cenc_arr(a: Seq<V>, n: nat) -> Seq<u8>
    decreases a, n
{
    if n == 0 || n > a.len() { Seq::empty() } else { cenc_arr(a, (n - 1) as nat) + cenc(a[n - 1]) }
}

pub open spec fn centries(m: Seq<(V, V)>) -> Seq<E2>
    decreases m
{
    Seq::new(m.len(), |i: int| if 0 <= i < m.len() { (cenc(m[i].0), cenc(m[i].1)) } else { arbitrary() })
}

/// Some map has two entries whose keys encode identically.
pub open spec fn has_dup(v: V) -> bool
    decreases v
{
    match v {
        V::A(a) => dup_arr(a, a.len()),
        V::M(m) => dup_keys(m) || dup_map(m, m.len()),
        V::Tag(t, x) => has_dup(*x),
        _ => false,
    }
}

pub open spec fn dup_arr(a: Seq<V>, n: nat) -> bool
    decreases a, n
{
    if n == 0 || n > a.len() { false } else { dup_arr(a, (n - 1) as nat) || has_dup(a[n - 1]) }
}

pub open spec fn dup_map(m: Seq<(V, V)>, n: nat) -> bool
    decreases m, n
{
    if n == 0 || n > m.len() { false } else { dup_map(m, (n - 1) as nat) || has_dup(m[n - 1].0) || has_dup(m[n - 1].1) }
}

pub open spec fn dup_keys(m: Seq<(V, V)>) -> bool {
    exists|i: int, j: int| 0 <= i < j < m.len() && cenc((#[trigger] m[i]).0) == cenc((#[trigger] m[j]).0)
}

// ------------------------------------------------------------------ decoding

pub type D = Result<(V, Seq<u8>), DecoderError>;

pub open spec fn down(limit: Option<int>) -> Option<int> {
    match limit { None => None, Some(n) => Some(n - 1) }
}

/// The argument of the head whose additional information is `ai`, and what follows it.
pub open spec fn dec_arg(ai: int, b: Seq<u8>, strict: bool) -> Result<(int, Seq<u8>), DecoderError> {
    if ai < 24 { Ok((ai, b)) }
    else if ai > 27 { Err(DecoderError::UnknownAdditionalInfo) }
    else if b.len() < ai_bytes(ai) { Err(DecoderError::IncompleteCborData) }
    else {
        let n = be_val(b.subrange(0, ai_bytes(ai) as int));
        if strict && head_ai(n) != ai { Err(DecoderError::NonMinimalCborEncoding) }
        else { Ok((n, b.subrange(ai_bytes(ai) as int, b.len() as int))) }
    }
}

/// Decode one item from the front of `b`; the result carries the unread rest.
pub open spec fn dec(b: Seq<u8>, limit: Option<int>, strict: bool) -> D
    decreases b.len(), 0nat
{
    if limit is Some && limit->0 < 0 { Err(DecoderError::TooMuchNesting) }
    else if b.len() == 0 { Err(DecoderError::IncompleteCborData) }
    else {
        let mt = b[0] as int / 32;
        let ai = b[0] as int % 32;
        match dec_arg(ai, b.drop_first(), strict) {
            Err(e) => Err(e),
            Ok((n, r)) =>
                if r.len() >= b.len() { arbitrary() }
                else if mt == 0 { Ok((V::U(n), r)) }
                else if mt == 1 { Ok((V::N(-1 - n), r)) }
                else if mt == 2 {
                    if r.len() < n { Err(DecoderError::IncompleteCborData) }
                    else { Ok((V::B(r.subrange(0, n)), r.subrange(n, r.len() as int))) }
                }
                else if mt == 3 {
                    if r.len() < n { Err(DecoderError::IncompleteCborData) }
                    else if !valid_utf8(r.subrange(0, n)) { Err(DecoderError::InvalidUtf8) }
                    else { Ok((V::T(r.subrange(0, n)), r.subrange(n, r.len() as int))) }
                }
                else if mt == 4 {
                    match dec_arr(r, n as nat, down(limit), strict) { Err(e) => Err(e), Ok((a, r2)) => Ok((V::A(a), r2)) }
                }
                else if mt == 5 {
                    match dec_map(r, n as nat, down(limit), strict) { Err(e) => Err(e), Ok((m, r2)) => Ok((V::M(m), r2)) }
                }
                else if mt == 6 {
                    match dec(r, down(limit), strict) { Err(e) => Err(e), Ok((x, r2)) => Ok((V::Tag(n, Box::new(x)), r2)) }
                }
                else {
                    // Simple values and floating point.
                    if ai > 24 { if strict { Err(DecoderError::UnsupportedFloatingPointValue) } else { Ok((V::S(23), r)) } }
                    else if 20 <= n <= 23 { Ok((V::S(n), r)) }
                    else if strict { Err(DecoderError::UnsupportedSimpleValue) }
                    else { Ok((V::S(23), r)) }
                },
        }
    }
}

/// Decode n items one after the other.
pub open spec fn dec_arr(b: Seq<u8>, n: nat, limit: Option<int>, strict: bool) -> Result<(Seq<V>, Seq<u8>), DecoderError>
    decreases b.len(), n + 1
{
    if n == 0 { Ok((Seq::empty(), b)) }
    else {
        match dec_arr(b, (n - 1) as nat, limit, strict) {
            Err(e) => Err(e),
            Ok((a, r)) => if r.len() > b.len() { arbitrary() } else {
                match dec(r, limit, strict) { Err(e) => Err(e), Ok((v, r2)) => Ok((a.push(v), r2)) }
            },
        }
    }
}

/// Decode n entries; in strict mode each key must exceed the one before.
pub open spec fn dec_map(b: Seq<u8>, n: nat, limit: Option<int>, strict: bool) -> Result<(Seq<(V, V)>, Seq<u8>), DecoderError>
    decreases b.len(), n + 1
{
    if n == 0 { Ok((Seq::empty(), b)) }
    else {
        match dec_map(b, (n - 1) as nat, limit, strict) {
            Err(e) => Err(e),
            Ok((m, r)) => if r.len() > b.len() { arbitrary() } else {
                match dec(r, limit, strict) {
                    Err(e) => Err(e),
                    Ok((k, r2)) =>
                        if r2.len() > r.len() { arbitrary() }
                        else if strict && m.len() > 0 && !(ord(m.last().0, k) is Less) { Err(DecoderError::OutOfOrderKey) }
                        else {
                            match dec(r2, limit, strict) { Err(e) => Err(e), Ok((v, r3)) => Ok((m.push((k, v)), r3)) }
                        },
                }
            },
        }
    }
}

/// Decode a whole document: one item and nothing after it.
pub open spec fn dec_doc(b: Seq<u8>, limit: Option<int>) -> Result<V, DecoderError> {
    match dec(b, limit, true) {
        Err(e) => Err(e),
        Ok((v, r)) => if r.len() > 0 { Err(DecoderError::ExtraneousData) } else { Ok(v) },
    }
}

/// Lenient decoding ignores what follows the first item.
pub open spec fn dec_lenient(b: Seq<u8>, limit: Option<int>) -> Result<V, DecoderError> {
    match dec(b, limit, false) { Err(e) => Err(e), Ok((v, r)) => Ok(v) }
}
