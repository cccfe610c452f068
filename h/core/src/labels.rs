//! C01 derived label groups, C02 composed sets, C03 label enums, C26 the label
//! names a group lists.
use crate::model::*;
use crate::nd;
use measured::label::*;
use measured::{FixedCardinalityLabel, LabelGroup};
use std::sync::Arc;

// ------------------------------------------------------------ label sets
/// `Num(base)..Num(base + n)`, numbered from 0
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Num(pub u64);
impl LabelValue for Num {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0 as i64)
    }
}
#[derive(Clone, Copy, Default)]
pub struct Range {
    base: u64,
    n: usize,
}
impl LabelSet for Range {
    type Value<'a> = Num;
    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.n)
    }
    fn encode(&self, v: Num) -> Option<usize> {
        let i = v.0.wrapping_sub(self.base);
        if i < self.n as u64 { Some(i as usize) } else { None }
    }
    fn decode(&self, i: usize) -> Num {
        assert!(i < self.n, "decode outside the set");
        Num(self.base.wrapping_add(i as u64))
    }
}
impl FixedCardinalitySet for Range {}

/// a dynamic set: every value but one is numbered, by an arbitrary bijection
#[derive(Clone, Copy, Default)]
pub struct Dyn {
    mask: u64,
    full: u64,
}
impl LabelSet for Dyn {
    type Value<'a> = Num;
    fn dynamic_cardinality(&self) -> Option<usize> {
        None
    }
    fn encode(&self, v: Num) -> Option<usize> {
        if v.0 == self.full { None } else { Some((v.0 ^ self.mask) as usize) }
    }
    fn decode(&self, i: usize) -> Num {
        Num(i as u64 ^ self.mask)
    }
}
impl DynamicLabelSet for Dyn {}

// ------------------------------------------------------------ label groups
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = OneSet)]
pub struct One {
    #[label(fixed_with = Range)]
    a: Num,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = PairSet)]
pub struct Pair {
    #[label(fixed_with = Range)]
    a: Num,
    #[label(fixed_with = Range)]
    b: Num,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = TripleSet)]
pub struct Triple {
    #[label(fixed_with = Range)]
    a: Num,
    #[label(fixed_with = Range)]
    b: Num,
    #[label(fixed_with = Range)]
    c: Num,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = QuadSet)]
pub struct Quad {
    k: Kind,
    #[label(fixed_with = Range)]
    b: Num,
    t: Two,
    #[label(fixed_with = Range, rename = "dd")]
    d: Num,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = MixedSet)]
pub struct Mixed {
    #[label(fixed_with = Range)]
    a: Num,
    #[label(dynamic_with = Dyn)]
    d: Num,
    k: Kind,
    #[label(dynamic_with = Dyn)]
    e: Num,
    #[label(fixed_with = Range)]
    b: Num,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = DynOnlySet)]
pub struct DynOnly {
    #[label(dynamic_with = Dyn)]
    d: Num,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = DefaultsSet)]
pub struct Defaults {
    #[label(fixed_with = Range, default)]
    a: Num,
    k: Kind,
    #[label(fixed_with = Range)]
    b: Num,
    #[label(dynamic_with = Dyn, default)]
    d: Num,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = EnumsSet)]
pub struct Enums {
    k: Kind,
    t: Two,
    l: Kind,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = SharedSet)]
pub struct Shared {
    #[label(fixed_with = Arc<Range>)]
    a: Num,
    #[label(dynamic_with = Arc<Dyn>)]
    d: Num,
}

fn two(i: usize) -> Two {
    if i == 0 { Two::X } else { Two::Y }
}
/// a set of 1 to `m` values (`m` a mask) at any place
fn range(m: u8) -> Range {
    let n = (nd::u8() & m) as usize + 1;
    // far from the wrap-around, so that membership is a plain interval
    Range { base: nd::u32() as u64, n }
}
fn sized(n: usize) -> Range {
    Range { base: nd::u32() as u64, n }
}
/// an arbitrary member of a set
fn member(r: &Range) -> Num {
    let i = nd::u32() as usize;
    nd::assume(i < r.n);
    Num(r.base + i as u64)
}
fn within(r: &Range, v: Num) -> bool {
    v.0 >= r.base && v.0 - r.base < r.n as u64
}

/// The round trip of one contained group, the bound and the dense forms.
fn dense_roundtrip<S: LabelGroupSet<Unique = usize>>(s: &S, card: usize, g: impl Fn() -> S::Group<'static>, eq: impl Fn(S::Group<'_>) -> bool)
where
    for<'a> S::Group<'a>: Copy,
    S: 'static,
{
    assert!(s.cardinality() == Some(card), "cardinality is the product");
    // the group type of these sets does not borrow
    let g2: S::Group<'_> = unsafe { core::mem::transmute_copy(&g()) };
    match s.encode(g2) {
        None => assert!(false, "a contained group has no identifier"),
        Some(id) => {
            assert!(id < card, "identifier below the cardinality");
            assert!(eq(s.decode(&id)), "identifier decodes to the encoded group");
            assert!(s.encode_dense(id) == Some(id) || s.encode_dense(id).is_some_and(|d| d < card));
            if let Some(d) = s.encode_dense(id) {
                assert!(eq(s.decode_dense(d)), "dense index decodes to the encoded group");
            }
        }
    }
}

fn pair(ca: Range, cb: Range) {
    let s = PairSet::new(ca, cb);
    let g = Pair { a: member(&ca), b: member(&cb) };
    dense_roundtrip(&s, ca.n * cb.n, || g, |h| h == g);
    witness!(g.a.0 > ca.base && g.b.0 > cb.base, "neither member is the first");
}
fn triple(ca: Range, cb: Range, cc: Range) {
    let s = TripleSet::new(ca, cb, cc);
    let g = Triple { a: member(&ca), b: member(&cb), c: member(&cc) };
    dense_roundtrip(&s, ca.n * cb.n * cc.n, || g, |h| h == g);
}

// ------------------------------------------------------------ composed sets
/// a set of groups with any cardinality, known or not
#[derive(Clone, Copy)]
pub struct GSet {
    base: u64,
    n: usize,
    known: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct G(u64);
impl LabelGroup for G {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("g"), &Num(self.0));
    }
}
impl LabelGroupSet for GSet {
    type Group<'a> = G;
    type Unique = u64;
    fn cardinality(&self) -> Option<usize> {
        if self.known { Some(self.n) } else { None }
    }
    // the identifier and the dense index differ
    fn encode(&self, v: G) -> Option<u64> {
        let i = v.0.wrapping_sub(self.base);
        if i < self.n as u64 { Some(!i) } else { None }
    }
    fn decode(&self, v: &u64) -> G {
        G(self.base.wrapping_add(!*v))
    }
    fn encode_dense(&self, v: u64) -> Option<usize> {
        if self.known { Some(!v as usize) } else { None }
    }
    fn decode_dense(&self, i: usize) -> G {
        assert!(i < self.n, "decode outside the set");
        G(self.base.wrapping_add(i as u64))
    }
}
fn gset(n: usize) -> GSet {
    GSet { base: nd::u32() as u64, n, known: true }
}
fn gmember(s: &GSet) -> G {
    let i = nd::u32() as usize;
    nd::assume(i < s.n);
    G(s.base + i as u64)
}
fn composed<S>(s: S, na: usize, nb: usize, a: G, b: G)
where
    S: for<'a> LabelGroupSet<Group<'a> = ComposedGroup<G, G>>,
{
    assert!(s.cardinality() == Some(na * nb), "cardinality is the product");
    let g = ComposedGroup(a, b);
    let Some(id) = s.encode(g) else { panic!("a contained pair has no identifier") };
    assert!(s.decode(&id) == g, "identifier decodes to the pair");
    let Some(i) = s.encode_dense(id) else { panic!("a contained pair has no dense index") };
    assert!(i < na * nb, "dense index below the cardinality");
    assert!(s.decode_dense(i) == g, "dense index decodes to the pair");
}
fn composed_sizes(na: usize, nb: usize) {
    let (sa, sb) = (gset(na), gset(nb));
    let (a, b) = (gmember(&sa), gmember(&sb));
    composed(ComposedGroup(sa, sb), na, nb, a, b);
    witness!(a.0 > sa.base && b.0 > sb.base, "neither member is the first");
}

// ------------------------------------------------------------ label enums
macro_rules! conventions {
    ($($t:ident $c:literal)*) => {$(
        #[derive(Clone, Copy, PartialEq, Eq, Debug, FixedCardinalityLabel)]
        #[label(rename_all = $c)]
        pub enum $t { One, TwoWords, HTTPCode4, #[label(rename = "x Y-z")] Given, Num = 42, After }
        impl ByIndex for $t {
            const ALL: [Self; 6] = [$t::One, $t::TwoWords, $t::HTTPCode4, $t::Given, $t::Num, $t::After];
        }
    )*};
}
pub trait ByIndex: Sized + Copy {
    const ALL: [Self; 6];
}
conventions! {
    UpperCamel "UpperCamelCase" LowerCamel "lowerCamelCase" Snake "snake_case" Kebab "kebab-case"
    ShoutySnake "SHOUTY_SNAKE_CASE" ShoutyKebab "SHOUTY-KEBAB-CASE" Title "Title Case" Train "Train-Case"
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, FixedCardinalityLabel)]
pub enum Plain { One, TwoWords, HTTPCode4, #[label(rename = "x Y-z")] Given, Num = 42, After }
impl ByIndex for Plain {
    const ALL: [Self; 6] = [Plain::One, Plain::TwoWords, Plain::HTTPCode4, Plain::Given, Plain::Num, Plain::After];
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, FixedCardinalityLabel)]
#[label(rename_all = "kebab-case", singleton = "status_code")]
pub enum Codes { Zero = 0, #[label(rename = "ignored")] Ok = 200, Max = 9223372036854775807, NotFound = 404, TeaPot, Hex = 0x1f }

/// what a label value was written as
#[derive(Clone, Copy)]
pub struct Val {
    kind: u8,
    int: i64,
    text: [u8; 16],
    n: usize,
}
pub struct ValVisitor;
impl LabelVisitor for ValVisitor {
    type Output = Val;
    fn write_int(self, x: i64) -> Val {
        Val { kind: 1, int: x, text: [0; 16], n: 0 }
    }
    fn write_float(self, x: f64) -> Val {
        Val { kind: 2, int: x.to_bits() as i64, text: [0; 16], n: 0 }
    }
    fn write_str(self, x: &str) -> Val {
        let mut text = [0; 16];
        let mut i = 0;
        while i < x.len() {
            text[i] = x.as_bytes()[i];
            i += 1;
        }
        Val { kind: 3, int: 0, text, n: x.len() }
    }
}
fn is_text(v: &Val, s: &str) -> bool {
    let mut ok = v.kind == 3 && v.n == s.len();
    let mut i = 0;
    while i < s.len() {
        ok &= v.text[i] == s.as_bytes()[i];
        i += 1;
    }
    ok
}

/// `k` is symbolic: the variant, its number and its text
fn enum_numbers<T: FixedCardinalityLabel + ByIndex + PartialEq>() -> usize {
    assert!(T::cardinality() == 6, "cardinality is the number of variants");
    let k = nd::below(6);
    let v = T::ALL[k];
    assert!(v.encode() == k, "variants are numbered in declaration order");
    assert!(T::decode(k) == v, "a number decodes to its variant");
    let s = StaticLabelSet::<T>::new();
    assert!(FixedCardinalitySet::cardinality(&s) == 6 && LabelSet::dynamic_cardinality(&s) == Some(6));
    assert!(LabelSet::encode(&s, v) == Some(k) && LabelSet::decode(&s, k) == v);
    k
}
fn enum_texts<T: FixedCardinalityLabel + ByIndex + PartialEq>(names: [&str; 6]) {
    let k = enum_numbers::<T>();
    let v = T::ALL[k].visit(ValVisitor);
    let mut i = 0;
    while i < 6 {
        if i == k {
            if i == 4 {
                assert!(v.kind == 1 && v.int == 42, "a discriminant is written as an integer");
            } else {
                assert!(is_text(&v, names[i]), "text of a variant");
            }
        }
        i += 1;
    }
    // through a reference as well
    let w = (&T::ALL[k]).visit(ValVisitor);
    assert!(w.kind == v.kind && w.n == v.n && w.int == v.int);
}

/// the labels a group lists
pub struct Listed {
    n: usize,
    name: [[u8; 12]; 6],
    len: [usize; 6],
    val: [Val; 6],
}
impl Listed {
    fn of(g: &impl LabelGroup) -> Self {
        let mut l = Listed {
            n: 0,
            name: [[0; 12]; 6],
            len: [0; 6],
            val: [Val { kind: 0, int: 0, text: [0; 16], n: 0 }; 6],
        };
        g.visit_values(&mut l);
        l
    }
    fn is(&self, i: usize, name: &str) -> bool {
        let mut ok = self.len[i] == name.len();
        let mut j = 0;
        while j < name.len() {
            ok &= self.name[i][j] == name.as_bytes()[j];
            j += 1;
        }
        ok
    }
    fn int(&self, i: usize, name: &str, v: u64) {
        assert!(self.is(i, name), "label name");
        assert!(self.val[i].kind == 1 && self.val[i].int == v as i64, "label value");
    }
    fn text(&self, i: usize, name: &str, v: &str) {
        assert!(self.is(i, name), "label name");
        assert!(is_text(&self.val[i], v), "label value");
    }
}
impl LabelGroupVisitor for Listed {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        let i = self.n;
        let s = name.as_str();
        let mut j = 0;
        while j < s.len() {
            self.name[i][j] = s.as_bytes()[j];
            j += 1;
        }
        self.len[i] = s.len();
        self.val[i] = x.visit(ValVisitor);
        self.n = i + 1;
    }
}
#[derive(Clone, Copy, LabelGroup)]
#[label(set = BorrowSet)]
pub struct Borrow {
    #[label(fixed_with = Range, rename = "first")]
    z: Num,
    #[label(dynamic_with = Dyn, rename = "Mid_2")]
    y: Num,
    #[label(rename = "type")]
    r#type: Two,
    #[label(fixed_with = Range)]
    a: Num,
}

proof! {
// ---------------------------------------------------------------- C01
[] 4 fn c01_one() {
    let r = Range { base: nd::u64() >> 1, n: nd::usize() >> 1 };
    let s = OneSet::new(r);
    let i = nd::usize();
    nd::assume(i < r.n);
    let g = One { a: Num(r.base + i as u64) };
    dense_roundtrip(&s, r.n, || g, |h| h == g);
    witness!(i > 1 << 40, "large index");
}
[] 4 fn c01_pair_small() { pair(range(15), range(15)); }
[] 4 fn c01_pair_large() { pair(sized(1000), sized(1 << 24)); }
[] 4 fn c01_pair_odd() { pair(sized(251), sized(37)); }
[] 4 fn c01_triple_small() { triple(range(3), range(3), range(3)); }
[] 4 fn c01_triple_odd() { triple(sized(7), sized(5), sized(11)); }
[] 4 fn c01_enums() {
    let s = EnumsSet::new();
    let g = Enums { k: kind(nd::below(3)), t: two(nd::below(2)), l: kind(nd::below(3)) };
    dense_roundtrip(&s, 18, || g, |h| h == g);
    // every number below the cardinality belongs to some group
    let i = nd::below(18);
    assert!(s.encode(s.decode_dense(i)) == Some(i));
}
[] 4 fn c01_quad() {
    let (cb, cd) = (sized(5), sized(3));
    let s = QuadSet::new(cb, cd);
    let g = Quad { k: kind(nd::below(3)), b: member(&cb), t: two(nd::below(2)), d: member(&cd) };
    dense_roundtrip(&s, 90, || g, |h| h == g);
    let i = nd::below(90);
    assert!(s.encode(s.decode_dense(i)) == Some(i));
}
[] 4 fn c01_outside() {
    // any values at all: an identifier exactly for the contained groups
    let (ca, cb) = (range(15), range(15));
    let s = PairSet::new(ca, cb);
    let g = Pair { a: Num(nd::u64()), b: Num(nd::u64()) };
    assert!(s.encode(g).is_some() == (within(&ca, g.a) && within(&cb, g.b)));
    witness!(s.encode(g).is_none() && within(&ca, g.a), "one field outside");
}
[] 4 fn c01_injective() {
    let (ca, cb) = (range(15), range(15));
    let s = PairSet::new(ca, cb);
    let (g, h) = (Pair { a: member(&ca), b: member(&cb) }, Pair { a: member(&ca), b: member(&cb) });
    assert!((s.encode(g) == s.encode(h)) == (g == h), "different groups have different identifiers");
}
[] 4 fn c01_empty_set() {
    // a field without any value
    let cb = range(15);
    let s = PairSet::new(Range { base: nd::u32() as u64, n: 0 }, cb);
    assert!(s.cardinality() == Some(0));
    assert!(s.encode(Pair { a: Num(nd::u64()), b: Num(nd::u64()) }).is_none());
}
[] 4 fn c01_cardinality() {
    // the cardinality of large sets: exact or unknown
    let (ca, cb) = (1usize << (nd::u8() & 63), 1usize << (nd::u8() & 63));
    let s = PairSet::new(Range { base: 0, n: ca }, Range { base: 0, n: cb });
    let sh = ca.trailing_zeros() + cb.trailing_zeros();
    let want = if sh < 64 { Some(1usize << sh) } else { None };
    assert!(s.cardinality() == want);
    witness!(want.is_none(), "too large");
}
[] 4 fn c01_mixed() {
    let (ca, cb) = (sized(5), sized(3));
    let d = Dyn { mask: nd::u64(), full: nd::u64() };
    let e = Dyn { mask: nd::u64(), full: nd::u64() };
    // dynamic fields come first, then the others, each in declaration order
    let s = MixedSet { a: ca, b: cb, d, e, k: StaticLabelSet::new() };
    assert!(s.cardinality().is_none(), "unknown cardinality");
    let g = Mixed { a: member(&ca), d: Num(nd::u64()), k: kind(nd::below(3)), e: Num(nd::u64()), b: member(&cb) };
    let r = s.encode(g);
    assert!(r.is_some() == (g.d.0 != d.full && g.e.0 != e.full));
    if let Some((i, x, y)) = r {
        assert!(i < 45, "fixed part below the product of the fixed sets");
        assert!(s.decode(&(i, x, y)) == g, "identifier decodes to the encoded group");
        // carried unchanged, in whichever order
        let (p, q) = ((g.d.0 ^ d.mask) as usize, (g.e.0 ^ e.mask) as usize);
        assert!((x == p && y == q) || (x == q && y == p), "dynamic indices are carried unchanged");
        assert!(s.encode_dense((i, x, y)).is_none());
    }
}
[] 4 fn c01_mixed_outside() {
    let (ca, cb) = (sized(5), sized(3));
    let d = Dyn { mask: 0, full: nd::u64() };
    let s = MixedSet { a: ca, b: cb, d, e: d, k: StaticLabelSet::new() };
    let g = Mixed { a: Num(nd::u64()), d: Num(nd::u64()), k: kind(nd::below(3)), e: Num(nd::u64()), b: Num(nd::u64()) };
    assert!(s.encode(g).is_some() == (within(&ca, g.a) && within(&cb, g.b) && g.d.0 != d.full && g.e.0 != d.full));
}
[] 4 fn c01_dynamic_only() {
    let d = Dyn { mask: nd::u64(), full: nd::u64() };
    let s = DynOnlySet::new(d);
    let g = DynOnly { d: Num(nd::u64()) };
    assert!(s.cardinality().is_none());
    let r = s.encode(g);
    assert!(r.is_some() == (g.d.0 != d.full));
    if let Some(id) = r {
        assert!(id.1 == (g.d.0 ^ d.mask) as usize);
        assert!(s.decode(&id) == g);
    }
}
[] 4 fn c01_constructor() {
    // sets given to the constructor end up at their fields; the others are default
    let cb = sized(6);
    let s = DefaultsSet::new(cb);
    assert!(s.b.base == cb.base && s.b.n == 6 && s.a.n == 0 && s.d.mask == 0);
    let p = PairSet::new(sized(2), cb);
    assert!(p.a.n == 2 && p.b.n == 6);
    let a = sized(3);
    let d = Dyn { mask: nd::u64(), full: nd::u64() };
    let m = MixedSet::new(d, Dyn { mask: !d.mask, full: 0 }, a, cb);
    assert!(m.d.mask == d.mask && m.e.mask == !d.mask && m.a.n == 3 && m.b.n == 6);
}
[] 4 fn c01_shared_sets() {
    let ca = sized(9);
    let d = Dyn { mask: nd::u64(), full: nd::u64() };
    let s = SharedSet { a: Arc::new(ca), d: Arc::new(d) };
    let g = Shared { a: Num(nd::u64()), d: Num(nd::u64()) };
    let r = s.encode(g);
    assert!(r.is_some() == (within(&ca, g.a) && g.d.0 != d.full));
    if let Some(id) = r {
        assert!(id.0 < 9 && s.decode(&id) == g);
    }
    assert!(FixedCardinalitySet::cardinality(&s.a) == 9);
    assert!(LabelSet::dynamic_cardinality(&s.a) == Some(9) && LabelSet::dynamic_cardinality(&s.d).is_none());
}
[] 4 fn c01_pair_mid_thorough() { pair(range(63), range(63)); }
[] 4 fn c01_triple_mid_thorough() { triple(range(7), range(7), range(7)); }
[] 4 fn c01_triple_large_thorough() { triple(sized(1000), sized(60), sized(4096)); }
// ---------------------------------------------------------------- C02
[] 4 fn c02_small() {
    composed_sizes((nd::u8() & 15) as usize + 1, (nd::u8() & 15) as usize + 1);
}
[] 4 fn c02_large() { composed_sizes(1 << 12, 100); }
[] 4 fn c02_larger_thorough() { composed_sizes(1 << 20, 1000); }
[] 4 fn c02_odd() { composed_sizes(37, 251); }
[] 4 fn c02_empty() {
    let n = nd::u32() as usize;
    let s = ComposedGroup(gset(n), gset(0));
    assert!(s.cardinality() == Some(0));
    assert!(s.encode(ComposedGroup(G(nd::u64()), G(nd::u64()))).is_none());
}
[] 4 fn c02_cardinality() {
    // exact, or unknown when a side is unknown or the product is too large
    let (ka, kb) = (nd::u8() & 63, nd::u8() & 63);
    let (ua, ub) = (nd::bool(), nd::bool());
    let s = ComposedGroup(
        GSet { base: 0, n: 1 << ka, known: ua },
        GSet { base: 0, n: 1 << kb, known: ub },
    );
    let sh = ka as u32 + kb as u32;
    let want = if ua && ub && sh < 64 { Some(1usize << sh) } else { None };
    assert!(s.cardinality() == want);
    witness!(ua && ub && sh >= 64, "too large");
}
[] 4 fn c02_cardinality_any_thorough() {
    let (a, b) = (nd::u32() as usize, nd::u32() as usize);
    let s = ComposedGroup(GSet { base: 0, n: a, known: true }, GSet { base: 0, n: b, known: true });
    assert!(s.cardinality() == Some(a * b));
}
[] 4 fn c02_membership() {
    let (sa, sb) = (gset(nd::u32() as usize), gset(nd::u32() as usize));
    let s = ComposedGroup(sa, sb);
    let g = ComposedGroup(G(nd::u64()), G(nd::u64()));
    let ina = g.0 .0 >= sa.base && g.0 .0 - sa.base < sa.n as u64;
    let inb = g.1 .0 >= sb.base && g.1 .0 - sb.base < sb.n as u64;
    let r = s.encode(g);
    assert!(r.is_some() == (ina && inb), "an identifier exactly for contained pairs");
    if let Some(id) = r {
        assert!(s.decode(&id) == g);
    }
    witness!(ina && !inb, "one member outside");
}
[] 4 fn c02_unknown() {
    // a side without a known size has no dense index
    let n = nd::u32() as usize;
    let (ua, ub) = (nd::bool(), nd::bool());
    let sa = GSet { base: nd::u32() as u64, n, known: ua };
    let sb = GSet { base: nd::u32() as u64, n: 5, known: ub };
    let s = ComposedGroup(sa, sb);
    let g = ComposedGroup(gmember(&sa), gmember(&sb));
    let id = s.encode(g).unwrap();
    assert!(s.encode_dense(id).is_some() == (ua && ub));
    assert!(s.decode(&id) == g);
}
[] 4 fn c02_injective() {
    let (na, nb) = ((nd::u8() & 15) as usize + 1, (nd::u8() & 15) as usize + 1);
    let (sa, sb) = (gset(na), gset(nb));
    let s = ComposedGroup(sa, sb);
    let (g, h) = (ComposedGroup(gmember(&sa), gmember(&sb)), ComposedGroup(gmember(&sa), gmember(&sb)));
    let (x, y) = (s.encode(g).unwrap(), s.encode(h).unwrap());
    assert!((x == y) == (g == h), "different pairs have different identifiers");
    assert!((s.encode_dense(x) == s.encode_dense(y)) == (g == h), "different pairs have different dense indices");
}
[] 4 fn c02_onto() {
    let (sa, sb) = (gset(7), gset(5));
    let s = ComposedGroup(sa, sb);
    let i = nd::below(35);
    let g = s.decode_dense(i);
    assert!(s.encode_dense(s.encode(g).unwrap()) == Some(i), "every index below the cardinality belongs to a pair");
}
[] 4 fn c02_nested() {
    let (sa, sb, sc) = (gset(5), gset(3), gset(7));
    let g = ComposedGroup(ComposedGroup(gmember(&sa), gmember(&sb)), gmember(&sc));
    let s = ComposedGroup(ComposedGroup(sa, sb), sc);
    assert!(s.cardinality() == Some(105));
    let id = s.encode(g).unwrap();
    let i = s.encode_dense(id).unwrap();
    assert!(i < 105 && s.decode_dense(i) == g && s.decode(&id) == g);
    let g = ComposedGroup(g.0 .0, ComposedGroup(g.0 .1, g.1));
    let s = ComposedGroup(sa, ComposedGroup(sb, sc));
    assert!(s.cardinality() == Some(105));
    let id = s.encode(g).unwrap();
    let i = s.encode_dense(id).unwrap();
    assert!(i < 105 && s.decode_dense(i) == g && s.decode(&id) == g);
}
[] 4 fn c02_nested_symbolic_thorough() {
    let (na, nb, nc) = ((nd::u8() & 7) as usize + 1, (nd::u8() & 7) as usize + 1, (nd::u8() & 7) as usize + 1);
    let (sa, sb, sc) = (gset(na), gset(nb), gset(nc));
    let g = ComposedGroup(ComposedGroup(gmember(&sa), gmember(&sb)), gmember(&sc));
    let s = ComposedGroup(ComposedGroup(sa, sb), sc);
    let i = s.encode_dense(s.encode(g).unwrap()).unwrap();
    assert!(i < na * nb * nc && s.decode_dense(i) == g);
}
[] 4 fn c02_reference() {
    let (sa, sb) = (gset(6), gset(4));
    let (a, b) = (gmember(&sa), gmember(&sb));
    let s: &'static ComposedGroup<GSet, GSet> = Box::leak(Box::new(ComposedGroup(sa, sb)));
    composed(s, 6, 4, a, b);
}
[] 4 fn c02_shared() {
    let (sa, sb) = (gset(6), gset(4));
    let (a, b) = (gmember(&sa), gmember(&sb));
    composed(Arc::new(ComposedGroup(sa, sb)), 6, 4, a, b);
    composed(ComposedGroup(Arc::new(sa), sb), 6, 4, a, b);
}
[] 4 fn c02_shared_unknown() {
    let u = nd::bool();
    let sa = GSet { base: 0, n: 9, known: u };
    assert!(Arc::new(sa).cardinality() == if u { Some(9) } else { None });
    let r: &'static GSet = Box::leak(Box::new(sa));
    assert!(LabelGroupSet::cardinality(&r) == if u { Some(9) } else { None });
    let g = G(nd::u64());
    assert!(LabelGroupSet::encode(&r, g).is_some() == (g.0 < 9));
    assert!(Arc::new(sa).encode(g).is_some() == (g.0 < 9));
}
[] 4 fn c02_derived_members() {
    let (ca, cb, cc) = (sized(3), sized(5), sized(4));
    let s = ComposedGroup(PairSet::new(ca, cb), OneSet::new(cc));
    let g = ComposedGroup(Pair { a: member(&ca), b: member(&cb) }, One { a: member(&cc) });
    assert!(s.cardinality() == Some(60));
    let id = s.encode(g).unwrap();
    let i = s.encode_dense(id).unwrap();
    assert!(i < 60 && s.decode_dense(i) == g && s.decode(&id) == g);
}
[] 4 fn c02_static_set() {
    let s = ComposedGroup(StaticLabelSet::<Kind>::new(), StaticLabelSet::<Codes>::new());
    let (i, j) = (nd::below(3), nd::below(6));
    assert!(s.cardinality() == Some(18));
    let g = ComposedGroup(kind(i), Codes::decode(j));
    let id = s.encode(g).unwrap();
    let n = s.encode_dense(id).unwrap();
    let (h, k) = (s.decode_dense(n), s.decode(&id));
    assert!(n < 18 && h.0 == g.0 && h.1 == g.1 && k.0 == g.0 && k.1 == g.1);
}
// ---------------------------------------------------------------- C03
[] 18 fn c03_plain() { enum_texts::<Plain>(["one", "two_words", "http_code4", "x Y-z", "", "after"]); }
[] 18 fn c03_snake() { enum_texts::<Snake>(["one", "two_words", "http_code4", "x Y-z", "", "after"]); }
[] 18 fn c03_upper_camel() { enum_texts::<UpperCamel>(["One", "TwoWords", "HttpCode4", "x Y-z", "", "After"]); }
[] 18 fn c03_lower_camel() { enum_texts::<LowerCamel>(["one", "twoWords", "httpCode4", "x Y-z", "", "after"]); }
[] 18 fn c03_kebab() { enum_texts::<Kebab>(["one", "two-words", "http-code4", "x Y-z", "", "after"]); }
[] 18 fn c03_shouty_snake() { enum_texts::<ShoutySnake>(["ONE", "TWO_WORDS", "HTTP_CODE4", "x Y-z", "", "AFTER"]); }
[] 18 fn c03_shouty_kebab() { enum_texts::<ShoutyKebab>(["ONE", "TWO-WORDS", "HTTP-CODE4", "x Y-z", "", "AFTER"]); }
[] 18 fn c03_title() { enum_texts::<Title>(["One", "Two Words", "Http Code4", "x Y-z", "", "After"]); }
[] 18 fn c03_train() { enum_texts::<Train>(["One", "Two-Words", "Http-Code4", "x Y-z", "", "After"]); }
[] 18 fn c03_discriminants() {
    const ALL: [Codes; 6] = [Codes::Zero, Codes::Ok, Codes::Max, Codes::NotFound, Codes::TeaPot, Codes::Hex];
    const WANT: [i64; 6] = [0, 200, i64::MAX, 404, 0, 0x1f];
    let k = nd::below(6);
    assert!(Codes::cardinality() == 6 && ALL[k].encode() == k && Codes::decode(k) == ALL[k]);
    let v = ALL[k].visit(ValVisitor);
    if k == 4 {
        assert!(is_text(&v, "tea-pot"), "only explicit discriminants are integers");
    } else {
        assert!(v.kind == 1 && v.int == WANT[k], "a discriminant is written as an integer");
    }
}
[] 18 fn c03_singleton() {
    let k = nd::below(6);
    let c = Codes::decode(k);
    let l = Listed::of(&c);
    assert!(l.n == 1 && l.is(0, "status_code"), "exactly one label under the chosen name");
    let v = c.visit(ValVisitor);
    assert!(l.val[0].kind == v.kind && l.val[0].int == v.int && l.val[0].n == v.n);
    let l = Listed::of(&&kind(nd::below(3)));
    assert!(l.n == 1 && l.is(0, "kind"));
}
[panics] 18 fn c03_decode_rejects() {
    let k = nd::usize();
    nd::assume(k >= 6);
    let _ = Codes::decode(k);
    never!("NEVER: a number outside the enum was decoded");
}
[] 18 fn c03_static_group_set() {
    let s = StaticLabelSet::<Codes>::new();
    let k = nd::below(6);
    let c = Codes::decode(k);
    assert!(LabelGroupSet::cardinality(&s) == Some(6));
    assert!(LabelGroupSet::encode(&s, c) == Some(k));
    assert!(LabelGroupSet::encode_dense(&s, k) == Some(k));
    assert!(LabelGroupSet::decode(&s, &k) == c && LabelGroupSet::decode_dense(&s, k) == c);
}
// ---------------------------------------------------------------- C26
[] 18 fn c26_declaration_order() {
    let g = Mixed { a: Num(nd::u64()), d: Num(nd::u64()), k: kind(nd::below(3)), e: Num(nd::u64()), b: Num(nd::u64()) };
    let l = Listed::of(&g);
    assert!(l.n == 5, "every field exactly once");
    l.int(0, "a", g.a.0);
    l.int(1, "d", g.d.0);
    assert!(l.is(2, "k") && l.val[2].kind == 3);
    l.int(3, "e", g.e.0);
    l.int(4, "b", g.b.0);
}
[] 18 fn c26_renames() {
    let g = Borrow { z: Num(nd::u64()), y: Num(nd::u64()), r#type: Two::Y, a: Num(nd::u64()) };
    let l = Listed::of(&g);
    assert!(l.n == 4);
    l.int(0, "first", g.z.0);
    l.int(1, "Mid_2", g.y.0);
    l.text(2, "type", "y");
    l.int(3, "a", g.a.0);
}
[] 18 fn c26_renamed_fixed() {
    let g = Quad { k: Kind::B, b: Num(nd::u64()), t: Two::X, d: Num(nd::u64()) };
    let l = Listed::of(&g);
    assert!(l.n == 4);
    l.text(0, "k", "b");
    l.int(1, "b", g.b.0);
    l.text(2, "t", "x");
    l.int(3, "dd", g.d.0);
}
[] 18 fn c26_composed() {
    // members in order, the first group first, also by reference and nested
    let p = Pair { a: Num(nd::u64()), b: Num(nd::u64()) };
    let o = One { a: Num(nd::u64()) };
    let l = Listed::of(&p.compose_with(o).compose_with(Kind::C));
    assert!(l.n == 4);
    l.int(0, "a", p.a.0);
    l.int(1, "b", p.b.0);
    l.int(2, "a", o.a.0);
    l.text(3, "kind", "c");
    let l = Listed::of(&o.compose_with(p.by_ref()));
    assert!(l.n == 3);
    l.int(0, "a", o.a.0);
    l.int(1, "a", p.a.0);
    l.int(2, "b", p.b.0);
    assert!(Listed::of(&NoLabels).n == 0);
    assert!(Listed::of(&NoLabels.compose_with(NoLabels)).n == 0);
}
[] 18 fn c26_decoded() {
    // the group decoded from an identifier lists what the encoded one listed
    let (ca, cb) = (sized(5), sized(3));
    let d = Dyn { mask: nd::u64(), full: 0 };
    let s = MixedSet { a: ca, b: cb, d, e: d, k: StaticLabelSet::new() };
    let g = Mixed { a: member(&ca), d: Num(nd::u64()), k: Kind::B, e: Num(nd::u64()), b: member(&cb) };
    nd::assume(g.d.0 != 0 && g.e.0 != 0);
    let id = s.encode(g).unwrap();
    let l = Listed::of(&s.decode(&id));
    assert!(l.n == 5);
    l.int(0, "a", g.a.0);
    l.int(1, "d", g.d.0);
    l.text(2, "k", "b");
    l.int(3, "e", g.e.0);
    l.int(4, "b", g.b.0);
}
[] 18 fn c26_text_values() {
    // strings, by value and by reference
    let s = String::from("v 1");
    assert!(is_text(&s.visit(ValVisitor), "v 1"));
    assert!(is_text(&s.as_str().visit(ValVisitor), "v 1"));
    assert!(is_text(&(&s).visit(ValVisitor), "v 1"));
    assert!(is_text(&"v 1".visit(ValVisitor), "v 1"));
}
}
