//! C23 label sets backed by lasso, indexmap and phf.
use crate::nd;
use indexmap::IndexSet;
use lasso::{Key, MicroSpur, Rodeo, RodeoReader, Spur, ThreadedRodeo};
use measured::label::{DynamicLabelSet, FixedCardinalitySet, LabelGroupSet, LabelSet, LabelValue, LabelVisitor};
use measured::LabelGroup;
use std::sync::Arc;

/// a label value that is a number
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Num(u64);
impl LabelValue for Num {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0 as i64)
    }
}
/// a text of one byte
struct One([u8; 1]);
impl One {
    fn any() -> Self {
        let c = nd::u8();
        nd::assume(c < 128);
        One([c])
    }
    fn get(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.0) }
    }
}
fn same(a: &str, b: &One) -> bool {
    a.len() == 1 && a.as_bytes()[0] == b.0[0]
}
/// A key for two strings.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Two(u8);
unsafe impl Key for Two {
    fn into_usize(self) -> usize {
        (self.0 ^ 0x55) as usize
    }
    fn try_from_usize(i: usize) -> Option<Self> {
        if i < 2 {
            Some(Two(i as u8 ^ 0x55))
        } else {
            None
        }
    }
}
/// A set of `n` texts, some of them perhaps equal, and a value.
fn fixed_texts(s: &(impl FixedCardinalitySet + for<'a> LabelSet<Value<'a> = &'a str>), m: &[One]) {
    let v = One::any();
    let mut member = false;
    let mut distinct = 0;
    let mut i = 0;
    while i < m.len() {
        member |= m[i].0[0] == v.0[0];
        let mut new = true;
        let mut j = 0;
        while j < i {
            new &= m[i].0[0] != m[j].0[0];
            j += 1;
        }
        distinct += new as usize;
        i += 1;
    }
    let c = FixedCardinalitySet::cardinality(s);
    assert!(c == distinct, "the size reported");
    assert!(s.dynamic_cardinality() == Some(c), "both sizes agree");
    match LabelSet::encode(s, v.get()) {
        Some(i) => {
            assert!(member, "a foreign value has no index");
            assert!(i < c, "index below the size");
            assert!(same(LabelSet::decode(s, i), &v), "round trip");
        }
        None => assert!(!member, "every member has an index"),
    }
}
fn reader<K: Key + std::hash::Hash>(m: &[One]) -> RodeoReader<K> {
    m.iter().map(|x| x.get()).collect::<Rodeo<K>>().into_reader()
}
fn index_set(m: &[u64]) -> IndexSet<Num> {
    m.iter().map(|x| Num(*x)).collect()
}
fn fixed_nums(s: &(impl FixedCardinalitySet + for<'a> LabelSet<Value<'a> = Num>), m: &[u64]) {
    let v = nd::u64();
    let mut member = false;
    let mut distinct = 0;
    for (i, x) in m.iter().enumerate() {
        member |= *x == v;
        let mut new = true;
        for y in &m[..i] {
            new &= x != y;
        }
        distinct += new as usize;
    }
    let c = FixedCardinalitySet::cardinality(s);
    assert!(c == distinct, "the size reported");
    assert!(s.dynamic_cardinality() == Some(c), "both sizes agree");
    match LabelSet::encode(s, Num(v)) {
        Some(i) => {
            assert!(member, "a foreign value has no index");
            assert!(i < c, "index below the size");
            assert!(LabelSet::decode(s, i) == Num(v), "round trip");
        }
        None => assert!(!member, "every member has an index"),
    }
}
/// `n` values into a dynamic set.
fn dynamic(s: &(impl DynamicLabelSet + for<'a> LabelSet<Value<'a> = &'a str>), n: usize) {
    assert!(s.dynamic_cardinality().is_none(), "no fixed size");
    let (a, b, c) = (One::any(), One::any(), One::any());
    let i = LabelSet::encode(s, a.get()).expect("a new value gets an index");
    assert!(same(LabelSet::decode(s, i), &a), "round trip");
    let j = LabelSet::encode(s, b.get()).expect("a new value gets an index");
    assert!(same(LabelSet::decode(s, j), &b), "round trip");
    assert!((i == j) == (a.0[0] == b.0[0]), "one index per value");
    if n > 2 {
        let k = LabelSet::encode(s, c.get()).expect("a new value gets an index");
        assert!(same(LabelSet::decode(s, k), &c), "round trip");
        assert!((k == j) == (c.0[0] == b.0[0]) && (k == i) == (c.0[0] == a.0[0]), "one index per value");
    }
    assert!(LabelSet::encode(s, a.get()) == Some(i), "the same value again");
    assert!(same(LabelSet::decode(s, i), &a), "still there");
}
/// (the derive needs a path without arguments)
type Micro = RodeoReader<MicroSpur>;
#[derive(Clone, Copy, LabelGroup)]
#[label(set = PairSet)]
struct Pair<'a> {
    #[label(dynamic_with = ThreadedRodeo)]
    user: &'a str,
    #[label(fixed_with = Micro)]
    path: &'a str,
}

const WORDS: phf::OrderedSet<&'static str> = phf::phf_ordered_set! { "fn", "b", "as" };

proof! {
[] 8 fn c23_reader() { let m = [One::any(), One::any(), One::any()]; fixed_texts(&reader::<Spur>(&m), &m); }
[] 8 fn c23_reader_micro() { let m = [One::any(), One::any()]; fixed_texts(&reader::<MicroSpur>(&m), &m); }
[] 8 fn c23_reader_odd_key() { let m = [One::any(), One::any()]; fixed_texts(&reader::<Two>(&m), &m); }
[] 8 fn c23_reader_empty() { fixed_texts(&reader::<Spur>(&[]), &[]); }
[] 8 fn c23_reader_shared() { let m = [One::any(), One::any()]; fixed_texts(&Arc::new(reader::<Spur>(&m)), &m); }
[] 8 fn c23_index() { let m = [nd::u64(), nd::u64(), nd::u64()]; fixed_nums(&index_set(&m), &m); }
[] 8 fn c23_index_empty() { fixed_nums(&index_set(&[]), &[]); }
[] 8 fn c23_index_shared() { let m = [nd::u64(), nd::u64()]; fixed_nums(&Arc::new(index_set(&m)), &m); }
[] 8 fn c23_perfect() {
    let s = &WORDS;
    let b = [nd::u8(), nd::u8()];
    nd::assume(b[0] < 128 && b[1] < 128);
    let v = unsafe { core::str::from_utf8_unchecked(&b) };
    assert!(FixedCardinalitySet::cardinality(s) == 3 && s.dynamic_cardinality() == Some(3), "the size reported");
    match LabelSet::encode(s, v) {
        Some(i) => {
            assert!(b == *b"fn" || b == *b"as", "a foreign value has no index");
            assert!(i < 3, "index below the size");
            assert!(LabelSet::decode(s, i).as_bytes() == b, "round trip");
        }
        None => assert!(b != *b"fn" && b != *b"as", "every member has an index"),
    }
    let i = LabelSet::encode(s, "b").unwrap();
    assert!(LabelSet::decode(s, i) == "b");
}
[] 8 fn c23_threaded() { dynamic(&ThreadedRodeo::<Spur>::new(), 3); }
[] 8 fn c23_threaded_micro() { dynamic(&ThreadedRodeo::<MicroSpur>::new(), 2); }
[] 8 fn c23_threaded_shared() { dynamic(&Arc::new(ThreadedRodeo::<Spur>::new()), 2); }
[] 8 fn c23_threaded_full() {
    // a value that finds no room has no index, and the others keep theirs
    let s = ThreadedRodeo::<Two>::new();
    dynamic(&s, 2);
    let v = One::any();
    if let Some(i) = LabelSet::encode(&s, v.get()) {
        assert!(same(LabelSet::decode(&s, i), &v), "round trip");
    }
}
[] 8 fn c23_group() {
    let m = [One::any(), One::any()];
    let s = PairSet::new(ThreadedRodeo::new(), reader::<MicroSpur>(&m));
    assert!(s.cardinality().is_none());
    let (p, u, w) = (One::any(), One::any(), One::any());
    let member = m[0].0[0] == p.0[0] || m[1].0[0] == p.0[0];
    match s.encode(Pair { path: p.get(), user: u.get() }) {
        Some(id) => {
            assert!(member);
            let g = s.decode(&id);
            assert!(same(g.path, &p) && same(g.user, &u), "round trip");
            let other = s.encode(Pair { path: p.get(), user: w.get() }).unwrap();
            assert!((other == id) == (u.0[0] == w.0[0]), "one identifier per group");
        }
        None => assert!(!member),
    }
}
}
