"""C24: parameters survive serialisation."""
from common import *

TITLE = 'Parameters written and read back through serde are the same parameters'
SERDE = True
# Two data formats in a few lines each: named fields (like JSON: newtypes transparent, the
# fields of a record in any order, arrays with an end) and positional (like bincode).
HELPERS = '''
use crate::*;
use crate::univariate as uv;
use crate::params as pa;
use crate::normal as no;
use serde_crate as sd;
use sd::{Serialize, Serializer, Deserializer, Deserialize, de::{Visitor, SeqAccess, MapAccess, DeserializeSeed, IntoDeserializer}};
#[derive(Clone, Copy, Debug)]
pub enum Tok { F(f64), U(u64), I(i64), B(bool), Rec, Key(&'static str), Arr, End }
#[derive(Debug)] pub struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl sd::ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
impl sd::de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E { E }
    fn invalid_type(_: sd::de::Unexpected, _: &dyn sd::de::Expected) -> E { E }
    fn invalid_value(_: sd::de::Unexpected, _: &dyn sd::de::Expected) -> E { E }
    fn invalid_length(_: usize, _: &dyn sd::de::Expected) -> E { E }
    fn missing_field(_: &'static str) -> E { E }
    fn duplicate_field(_: &'static str) -> E { E }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> E { E }
}
pub struct S { pub t: [Tok; 64], pub n: usize }
impl S { fn put(&mut self, t: Tok) { self.t[self.n] = t; self.n += 1; } }
macro_rules! no { ($($f:ident($($a:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $a),*) -> Result<$r, E> { Err(E) })* } }
type Im<T> = sd::ser::Impossible<T, E>;
impl<'a> Serializer for &'a mut S {
    type Ok = (); type Error = E;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeStruct = Self; type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Im<()>; type SerializeMap = Im<()>; type SerializeStructVariant = Im<()>;
    fn serialize_f64(self, v: f64) -> Result<(), E> { self.put(Tok::F(v)); Ok(()) }
    fn serialize_u64(self, v: u64) -> Result<(), E> { self.put(Tok::U(v)); Ok(()) }
    fn serialize_i64(self, v: i64) -> Result<(), E> { self.put(Tok::I(v)); Ok(()) }
    fn serialize_bool(self, v: bool) -> Result<(), E> { self.put(Tok::B(v)); Ok(()) }
    no! { serialize_i8(i8) -> (); serialize_i16(i16) -> (); serialize_i32(i32) -> (); serialize_u8(u8) -> (); serialize_u16(u16) -> (); serialize_u32(u32) -> ();
          serialize_f32(f32) -> (); serialize_char(char) -> (); serialize_str(&str) -> (); serialize_bytes(&[u8]) -> (); serialize_none() -> (); serialize_unit() -> ();
          serialize_unit_struct(&'static str) -> (); serialize_unit_variant(&'static str, u32, &'static str) -> (); serialize_map(Option<usize>) -> Im<()>;
          serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Im<()>; serialize_struct_variant(&'static str, u32, &'static str, usize) -> Im<()>; }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> { v.serialize(self) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, E> { self.put(Tok::Arr); Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> { self.put(Tok::Arr); Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> { self.put(Tok::Arr); Ok(self) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> { self.put(Tok::Rec); Ok(self) }
}
macro_rules! seqs { ($($t:ident $f:ident;)*) => { $(impl<'a> sd::ser::$t for &'a mut S {
    type Ok = (); type Error = E;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), E> { self.put(Tok::End); Ok(()) }
})* } }
seqs! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; }
impl<'a> sd::ser::SerializeStruct for &'a mut S {
    type Ok = (); type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> { self.put(Tok::Key(k)); v.serialize(&mut **self) }
    fn end(self) -> Result<(), E> { self.put(Tok::End); Ok(()) }
}
// pos: records are read by position
pub struct D<'a> { t: &'a [Tok], p: usize, pos: bool }
impl<'a> D<'a> { fn next(&mut self) -> Tok { self.p += 1; self.t[self.p - 1] } }
impl<'a, 'b, 'de> Deserializer<'de> for &'b mut D<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.next() {
            Tok::F(x) => v.visit_f64(x), Tok::U(x) => v.visit_u64(x), Tok::I(x) => v.visit_i64(x), Tok::B(x) => v.visit_bool(x),
            Tok::Arr => { let r = v.visit_seq(&mut *self)?; match self.next() { Tok::End => Ok(r), _ => Err(E) } }
            Tok::Rec => { let r = if self.pos { v.visit_seq(&mut *self)? } else { v.visit_map(&mut *self)? }; match self.next() { Tok::End => Ok(r), _ => Err(E) } }
            _ => Err(E),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    sd::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'a, 'b, 'de> SeqAccess<'de> for &'b mut D<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if let Tok::Key(_) = self.t[self.p] { self.p += 1; }
        if let Tok::End = self.t[self.p] { return Ok(None) }
        s.deserialize(&mut **self).map(Some)
    }
}
impl<'a, 'b, 'de> MapAccess<'de> for &'b mut D<'a> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        match self.t[self.p] { Tok::Key(k) => { self.p += 1; s.deserialize(IntoDeserializer::<E>::into_deserializer(k)).map(Some) } _ => Ok(None) }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, E> { s.deserialize(&mut **self) }
}
fn ser<P: Serialize>(p: &P) -> Option<S> { let mut s = S { t: [Tok::End; 64], n: 0 }; match p.serialize(&mut s) { Ok(()) => Some(s), Err(_) => None } }
fn de<P>(t: &[Tok], pos: bool) -> Option<P> where P: for<'de> Deserialize<'de> {
    let mut d = D { t, p: 0, pos };
    match P::deserialize(&mut d) { Ok(p) if d.p == t.len() => Some(p), _ => None }
}
// end of the value that starts at i
fn skip(t: &[Tok], i: usize) -> usize {
    let (mut d, mut i) = (0, i);
    loop { match t[i] { Tok::Rec | Tok::Arr => d += 1, Tok::End => d -= 1, _ => {} } i += 1; if d == 0 { if let Tok::Key(_) = t[i - 1] { continue } return i } }
}
// the same record with its fields in the reverse order
fn reversed(t: &[Tok]) -> S {
    let mut s = S { t: [Tok::End; 64], n: 0 };
    match t[0] { Tok::Rec => {}, _ => { for x in t { s.put(*x) } return s } }
    let (mut st, mut k, mut i) = ([0; 9], 0, 1);
    while let Tok::Key(_) = t[i] { st[k] = i; k += 1; i = skip(t, i + 1); }
    st[k] = i;
    s.put(Tok::Rec);
    for j in (0..k).rev() { for x in &t[st[j]..st[j + 1]] { s.put(*x) } }
    s.put(Tok::End);
    s
}
unsafe fn words<P>(p: &P, q: &P) -> bool { let mut ok = true; for i in 0..std::mem::size_of::<P>() / 8 { ok = ok & (*(p as *const P as *const i64).add(i) == *(q as *const P as *const i64).add(i)) } ok }
// 1: read back the same; each number written goes to the place of its field, in whatever order the fields are written
unsafe fn rt<P>(p: P, names: &[(&str, usize)], o: *mut f64) -> i64 where P: Serialize + for<'de> Deserialize<'de> {
    let s = match ser(&p) { Some(s) => s, None => return -1 };
    let t = &s.t[..s.n];
    match de::<P>(t, false) { Some(q) => if !words(&p, &q) { return -12 }, None => return -2 }
    match de::<P>(t, true) { Some(q) => if !words(&p, &q) { return -13 }, None => return -3 }
    let r = reversed(t);
    match de::<P>(&r.t[..r.n], false) { Some(q) => if !words(&p, &q) { return -14 }, None => return -4 }
    let (mut k, mut j) = (0, 0);
    for x in t { match x {
        Tok::Key(n) => { k += 1; match names.iter().find(|m| m.0 == *n) { Some(m) => j = m.1, None => return -5 } }
        Tok::F(v) => { O(o, j, *v); j += 1 } Tok::U(v) => { OI(o, j, *v as i64); j += 1 } Tok::I(v) => { OI(o, j, *v); j += 1 } _ => {}
    } }
    if k != names.len() { return -6 }
    // a record without its first field is refused
    if k > 0 {
        let mut s = S { t: [Tok::End; 64], n: 0 };
        s.put(Tok::Rec);
        for x in &t[skip(t, 2)..] { s.put(*x) }
        if let Some(_) = de::<P>(&s.t[..s.n], false) { return -7 }
    }
    1
}
unsafe fn arr<const K: usize>(a: *const f64, b: usize) -> [f64; K] { let mut r = [0.0; K]; for i in 0..K { r[i] = A(a, b + i) } r }
unsafe fn put<const K: usize>(o: *mut f64, b: usize, v: &[f64; K]) { for i in 0..K { O(o, b + i, v[i]) } }
'''
CORE = False

# name, constructor, field names, slots ('a' float, 'n' integer) in the order they are written
U = lambda m, s, *f: (m, 'uv::%s::Params::new_unchecked' % m, f, s)
RECORDS = [U('arcsine', 'aa', 'a', 'w'), U('beta', 'aa', 'alpha', 'beta'), U('beta_binomial', 'naa', 'n', 'alpha', 'beta'), U('beta_prime', 'aa', 'alpha', 'beta'),
           U('bernoulli', 'a', 'p'), U('binomial', 'na', 'n', 'p'), U('cauchy', 'aa', 'x0', 'gamma'), U('chi', 'n', 'k'), U('chi_sq', 'n', 'k'), U('cosine', 'aa', 'mu', 's'),
           U('erlang', 'na', 'k', 'lambda'), U('exponential', 'a', 'lambda'), U('f_dist', 'nn', 'd1', 'd2'), U('folded_normal', 'aa', 'mu', 'sigma'), U('frechet', 'a', 'alpha'),
           U('gamma', 'aa', 'alpha', 'beta'), U('geometric', 'a', 'p'), U('gev', 'aaa', 'mu', 'sigma', 'zeta'), U('gpd', 'aaa', 'mu', 'sigma', 'zeta'), U('gumbel', 'aa', 'mu', 'beta'),
           U('inverse_gamma', 'aa', 'alpha', 'beta'), U('inverse_normal', 'aa', 'mu', 'lambda'), U('kumaraswamy', 'aa', 'a', 'b'), U('laplace', 'aa', 'mu', 'b'), U('levy', 'aa', 'mu', 'c'),
           U('logistic', 'aa', 'mu', 's'), U('pareto', 'aa', 'x_m', 'alpha'), U('poisson', 'a', 'lambda'), U('rayleigh', 'a', 'sigma'), U('student_t', 'a', 'nu'),
           U('triangular', 'aaa', 'a', 'a2c', 'c2b'), U('weibull', 'aa', 'lambda', 'k'),
           ('uniform_f64', 'uv::uniform::Params::<f64>::new_unchecked', ('lb', 'width'), 'aa'), ('uniform_i64', 'uv::uniform::Params::<i64>::new_unchecked', ('lb', 'width'), 'nn'),
           ('normal_params', '(|m, s| no::Params { mu: pa::Loc(m), Sigma: no::Covariance(s) })', ('mu', 'Sigma'), 'aa'),
           ('normal_grad', '(|m, s| no::Grad { mu: m, Sigma: s })', ('mu', 'Sigma'), 'aa')]
NEWTYPES = [('loc', 'pa::Loc'), ('scale', 'pa::Scale'), ('rate', 'pa::Rate'), ('shape', 'pa::Shape'), ('dof', 'pa::DOF'), ('count', 'pa::Count'), ('covariance', 'no::Covariance')]


def cases(tier):
    out = []

    def post(c, leaves):
        return [('written and read back the same in both formats and in reverse order, under its own names', retis(c, 1))] + \
               [('value %d written' % j, (fsame(c, j, c.a[v]) if t == 'a' else same(c.oi(j), c.n[v])) if c.oi(j) is not None else FALSE) for j, (t, v) in enumerate(leaves)]

    def add(name, expr, names, na, nn, leaves, at=range(9)):
        out.append(Case(name, 'rt(%s, &[%s], o)' % (expr, ', '.join('("%s", %d)' % (n, i) for n, i in zip(names, at))), na=na, nn=nn, no=len(leaves), core=False,
                        post=lambda c: post(c, leaves)))
    for name, ctor, names, slots in RECORDS:
        args, leaves, ia, in_ = [], [], 0, 0
        for f, s in zip(names, slots):
            if s == 'a':
                args.append('A(a,%d)' % ia)
                leaves.append(('a', ia))
                ia += 1
            else:
                args.append('N(n,%d)%s' % (in_, '' if name == 'uniform_i64' else ' as usize'))
                leaves.append(('n', in_))
                in_ += 1
        add(name, '%s(%s)' % (ctor, ', '.join(args)), names, ia, in_, leaves)
    for name, ty in NEWTYPES:
        add(name + '_f64', '%s(A(a,0))' % ty, (), 1, 0, [('a', 0)])
        add(name + '_usize', '%s(N(n,0) as usize)' % ty, (), 0, 1, [('n', 0)])
        add(name + '_i64', '%s(N(n,0))' % ty, (), 0, 1, [('n', 0)])
    add('corr', 'pa::Corr(A(a,0))', (), 1, 0, [('a', 0)])
    add('probability', 'Probability::new_unchecked(A(a,0))', (), 1, 0, [('a', 0)])
    for m, S, shape in [('params', 'no::Covariance', '(|m, s| no::Params { mu: pa::Loc(m), Sigma: %s(s) })'), ('grad', '', '(|m, s| no::Grad { mu: m, Sigma: %s(s) })')]:
        shape = shape.replace('%s', S)
        for K in (2, 3):
            add('paired_%s_%d' % (m, K), '%s(arr::<%d>(a, 0), arr::<%d>(a, %d))' % (shape, K, K, K), ('mu', 'Sigma'), 2 * K, 0, [('a', i) for i in range(2 * K)], (0, K))
            add('full_%s_%d' % (m, K), '%s(arr::<%d>(a, 0), [%s])' % (shape, K, ', '.join('arr::<%d>(a, %d)' % (K, K + K * i) for i in range(K))), ('mu', 'Sigma'), K + K * K, 0,
                [('a', i) for i in range(K + K * K)], (0, K))
            add('isotropic_%s_%d' % (m, K), '%s(arr::<%d>(a, 0), A(a, %d))' % (shape, K, K), ('mu', 'Sigma'), K + 1, 0, [('a', i) for i in range(K + 1)], (0, K))
        add('bivariate_%s' % m, '%s(arr::<2>(a, 0), (arr::<2>(a, 2), A(a, 4)))' % shape, ('mu', 'Sigma'), 5, 0, [('a', i) for i in range(5)], (0, 2))
    top = 9 if tier == 'quick' else 16
    for K in range(0, top + 1):
        lv = [('a', i) for i in range(K)]
        add('concentrations_%d' % K, 'pa::Concentrations(arr::<%d>(a, 0))' % K, (), K, 0, lv)
        add('simplex_%d' % K, 'SimplexVector::new_unchecked(arr::<%d>(a, 0))' % K, (), K, 0, lv)
        add('categorical_%d' % K, 'uv::categorical::Params::<%d>::new_unchecked(arr(a, 0))' % K, ('ps',), K, 0, lv)
        add('multinomial_%d' % K, 'crate::multivariate::multinomial::Params::<%d>::new_unchecked(N(n,0) as usize, arr(a, 0))' % K, ('n', 'ps'), K, 1, [('n', 0)] + lv)
        # arrays of the wrong length are refused
        for ty, get in (('pa::Concentrations::<%d>' % K, 'q.0'), ('SimplexVector::<%d>' % K, 'q.unwrap()')):
            for L in sorted({max(0, K - 1), K, K + 1, 2 * K}):
                nm = 'length_%s_%d_from_%d' % ('conc' if 'Conc' in ty else 'simplex', K, L)
                out.append(Case(nm, 'let mut s = S { t: [Tok::End; 64], n: 0 }; s.put(Tok::Arr); for i in 0..%d { s.put(Tok::F(A(a, i))) } s.put(Tok::End); '
                                'match de::<%s>(&s.t[..s.n], false) { Some(q) => { put(o, 0, &%s); 1 } None => 0 }' % (L, ty, get), na=L, no=max(K, 1), core=False,
                                post=lambda c, K=K, L=L: [('read exactly when the length fits', retis(c, 1 if L == K else 0))] +
                                ([('element %d' % i, fsame(c, i, c.a[i])) for i in range(K)] if L == K else [])))
    # mixtures keep a list of component parameters
    for K in range(1, 5 if tier == 'quick' else 8):
        comps = ', '.join('uv::gamma::Params::new_unchecked(A(a,%d), A(a,%d))' % (K + 2 * i, K + 2 * i + 1) for i in range(K))
        out.append(Case('mixture_%d' % K, """let p = crate::mixture::Params { ps: SimplexVector::new_unchecked(arr::<@K>(a, 0)), component_params: vec![@C] };
            let s = match ser(&p) { Some(s) => s, None => return -1 };
            let r = reversed(&s.t[..s.n]);
            for (k, pos) in [(0usize, false), (1, true), (2, false)] {
                let q = match de::<crate::mixture::Params<@K, uv::gamma::Params>>(if k == 2 { &r.t[..r.n] } else { &s.t[..s.n] }, pos) { Some(q) => q, None => return -2 - k as i64 };
                if q.component_params.len() != @K { return -9 }
                let b = k * 3 * @K;
                put(o, b, &q.ps.clone().unwrap());
                for i in 0..@K { O(o, b + @K + 2 * i, q.component_params[i].alpha.0); O(o, b + @K + 2 * i + 1, q.component_params[i].beta.0) }
            } 1""".replace('@K', str(K)).replace('@C', comps), na=3 * K, no=9 * K, core=False,
                        post=lambda c, K=K: [('read back', retis(c, 1))] + [('value %d (%d)' % (i, k), fsame(c, 3 * K * k + i, c.a[i])) for k in range(3) for i in range(3 * K)]))
    return out


BOUNDS = 'every f64 bit pattern and every 64-bit integer; arrays of 0 to 9 elements (16 in the thorough tier), array lengths off by one and doubled; mixtures of 1 to 4 components (7)'
ASSUME = ['two small data formats stand for the real ones: self-describing with fields in any order, and positional', 'the real serde and serde_derive crates; floats are passed through unrounded']
