//! C13 metric and label names.
use crate::nd;
use measured::label::LabelName;
use measured::metric::name::{Bucket, Count, MetricName, MetricNameEncoder, Sum, Total, WithNamespace};
use std::io::Write;

const MAX: usize = 4;

/// `[a-zA-Z_:][a-zA-Z0-9_:]*`, without the colon for label names
fn matches(s: &[u8], colon: bool) -> bool {
    let mut ok = !s.is_empty();
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        let letter = (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || b == b'_' || (colon && b == b':');
        let digit = b >= b'0' && b <= b'9';
        ok &= letter || (digit && i > 0);
        i += 1;
    }
    ok
}
/// an arbitrary string of up to 4 bytes: ASCII, or with a two-byte character
struct Text {
    b: [u8; MAX],
    n: usize,
}
impl Text {
    fn ascii() -> Self {
        let mut b = [0; MAX];
        let mut i = 0;
        while i < MAX {
            b[i] = nd::u8();
            nd::assume(b[i] < 0x80);
            i += 1;
        }
        let n = nd::below(MAX + 1);
        Text { b, n }
    }
    fn wide() -> Self {
        let mut t = Self::ascii();
        let at = nd::below(MAX - 1);
        t.b[at] = 0xc2 + (nd::u8() & 15);
        t.b[at + 1] = 0x80 | (nd::u8() & 63);
        t.n = MAX;
        t
    }
    fn str(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.b[..self.n]) }
    }
    fn stat(&self) -> &'static str {
        // only dereferenced while `self` is alive
        unsafe { &*(self.str() as *const str) }
    }
}

struct Rec {
    b: [u8; 64],
    n: usize,
}
impl Write for Rec {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        self.b[self.n..self.n + s.len()].copy_from_slice(s);
        self.n += s.len();
        Ok(s.len())
    }
    fn write_all(&mut self, s: &[u8]) -> std::io::Result<()> {
        self.write(s).map(|_| ())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn writes(n: impl MetricNameEncoder, want: &[u8]) {
    let mut r = Rec { b: [0; 64], n: 0 };
    n.encode_utf8(&mut r).unwrap();
    assert!(n.encode_len() == r.n, "announced length");
    assert!(r.n == want.len());
    let mut i = 0;
    while i < want.len() {
        assert!(r.b[i] == want[i], "name bytes");
        i += 1;
    }
    // and through a reference
    assert!((&n).by_ref().encode_len() == want.len());
}
fn writes_unchanged(t: &Text, n: &MetricName) {
    let mut r = Rec { b: [0; 64], n: 0 };
    n.encode_utf8(&mut r).unwrap();
    assert!(n.encode_len() == t.n && r.n == t.n);
    let mut i = 0;
    while i < MAX {
        assert!(i >= t.n || r.b[i] == t.b[i]);
        i += 1;
    }
}
/// a valid name with arbitrary characters and a fixed length
fn name3() -> Text {
    let mut t = Text::ascii();
    t.n = 3;
    nd::assume(matches(&t.b[..3], true));
    t
}

macro_rules! with_names {
    ($n:ident $ns:ident [$p:ident $q:ident $r:ident] [$x:ident $y:ident $z:ident]) => {
        let (a, b) = (name3(), name3());
        let $n = MetricName::try_from_str(a.str()).unwrap();
        let $ns = b.stat();
        let [$p, $q, $r] = [a.b[0], a.b[1], a.b[2]];
        let [$x, $y, $z] = [b.b[0], b.b[1], b.b[2]];
        let _ = ($ns, $x, $y, $z);
    };
}

proof! {
[] 8 fn c13_metric_try() {
    let t = Text::ascii();
    let r = MetricName::try_from_str(t.str());
    assert!(r.is_ok() == matches(&t.b[..t.n], true), "accepted exactly when the pattern matches");
    if let Ok(n) = r { writes_unchanged(&t, n); }
    witness!(t.n == MAX && matches(&t.b[..t.n], true), "accepted name");
}
[] 8 fn c13_metric_try_wide() {
    let t = Text::wide();
    assert!(MetricName::try_from_str(t.str()).is_err(), "non-ASCII name");
}
[] 8 fn c13_metric_from_str() {
    let t = Text::ascii();
    nd::assume(matches(&t.b[..t.n], true));
    writes_unchanged(&t, MetricName::from_str(t.stat()));
}
[panics] 8 fn c13_metric_from_str_rejects() {
    let t = Text::ascii();
    nd::assume(!matches(&t.b[..t.n], true));
    let _ = MetricName::from_str(t.stat());
    never!("NEVER: an invalid metric name was accepted");
}
[panics] 8 fn c13_metric_from_str_wide_rejects() {
    let t = Text::wide();
    let _ = MetricName::from_str(t.stat());
    never!("NEVER: a non-ASCII metric name was accepted");
}
[] 8 fn c13_label_from_str() {
    let t = Text::ascii();
    nd::assume(matches(&t.b[..t.n], false));
    let l = LabelName::from_str(t.str());
    assert!(l.as_str().len() == t.n);
    let mut i = 0;
    while i < MAX {
        assert!(i >= t.n || l.as_str().as_bytes()[i] == t.b[i]);
        i += 1;
    }
}
[panics] 8 fn c13_label_from_str_rejects() {
    let t = Text::ascii();
    nd::assume(!matches(&t.b[..t.n], false));
    let _ = LabelName::from_str(t.str());
    never!("NEVER: an invalid label name was accepted");
}
[panics] 8 fn c13_label_from_str_wide_rejects() {
    let t = Text::wide();
    let _ = LabelName::from_str(t.str());
    never!("NEVER: a non-ASCII label name was accepted");
}
[] 8 fn c13_namespace_new() {
    let t = Text::ascii();
    nd::assume(matches(&t.b[..t.n], true));
    assert!(WithNamespace::new(t.stat(), MetricName::from_str("x")).encode_len() == t.n + 2);
    assert!(MetricName::from_str("x").in_namespace(t.stat()).encode_len() == t.n + 2);
}
[panics] 8 fn c13_namespace_new_rejects() {
    let t = Text::ascii();
    nd::assume(!matches(&t.b[..t.n], true));
    let _ = WithNamespace::new(t.stat(), 0u8);
    never!("NEVER: an invalid namespace was accepted");
}
[panics] 8 fn c13_in_namespace_rejects() {
    let t = Text::ascii();
    nd::assume(!matches(&t.b[..t.n], true));
    let _ = MetricName::from_str("x").in_namespace(t.stat());
    never!("NEVER: an invalid namespace was accepted");
}
[] 30 fn c13_compose_plain() {
    with_names!(n ns [p q r] [x y z]);
    writes(n, &[p, q, r]);
}
[] 30 fn c13_compose_namespace() {
    with_names!(n ns [p q r] [x y z]);
    writes(n.in_namespace(ns), &[x, y, z, b'_', p, q, r]);
}
[] 30 fn c13_compose_total() {
    with_names!(n ns [p q r] [x y z]);
    writes(n.with_suffix(Total), &[p, q, r, b'_', b't', b'o', b't', b'a', b'l']);
}
[] 30 fn c13_compose_count() {
    with_names!(n ns [p q r] [x y z]);
    writes(n.with_suffix(Count), &[p, q, r, b'_', b'c', b'o', b'u', b'n', b't']);
}
[] 30 fn c13_compose_sum() {
    with_names!(n ns [p q r] [x y z]);
    writes(n.with_suffix(Sum), &[p, q, r, b'_', b's', b'u', b'm']);
}
[] 30 fn c13_compose_bucket() {
    with_names!(n ns [p q r] [x y z]);
    writes(n.with_suffix(Bucket), &[p, q, r, b'_', b'b', b'u', b'c', b'k', b'e', b't']);
}
[] 30 fn c13_compose_both() {
    with_names!(n ns [p q r] [x y z]);
    writes(n.in_namespace(ns).with_suffix(Sum), &[x, y, z, b'_', p, q, r, b'_', b's', b'u', b'm']);
}
[] 30 fn c13_compose_nested() {
    with_names!(n ns [p q r] [x y z]);
    writes(WithNamespace::new("n", n.in_namespace(ns)), &[b'n', b'_', x, y, z, b'_', p, q, r]);
}
[] 30 fn c13_compose_outer() {
    with_names!(n ns [p q r] [x y z]);
    writes(WithNamespace::new("n", n.with_suffix(Sum)), &[b'n', b'_', p, q, r, b'_', b's', b'u', b'm']);
}
[] 30 fn c13_compose_double() {
    with_names!(n ns [p q r] [x y z]);
    writes(MetricNameEncoder::with_suffix(n.with_suffix(Sum), Count), &[p, q, r, b'_', b's', b'u', b'm', b'_', b'c', b'o', b'u', b'n', b't']);
}
[] 30 fn c13_compose_by_ref() {
    with_names!(n ns [p q r] [x y z]);
    writes(&&n.in_namespace(ns), &[x, y, z, b'_', p, q, r]);
}
}
