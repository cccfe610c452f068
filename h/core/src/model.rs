//! Small label types and helpers shared by the harnesses.
use measured::{FixedCardinalityLabel, LabelGroup};

#[derive(Clone, Copy, PartialEq, Eq, Debug, FixedCardinalityLabel)]
#[label(singleton = "kind")]
pub enum Kind {
    A,
    B,
    C,
}

pub fn kind(i: usize) -> Kind {
    match i {
        0 => Kind::A,
        1 => Kind::B,
        _ => Kind::C,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, FixedCardinalityLabel)]
pub enum Two {
    X,
    Y,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = KindSet)]
pub struct KindGroup {
    pub kind: Kind,
}

pub fn kg(i: usize) -> KindGroup {
    KindGroup { kind: kind(i) }
}

/// Encoders that keep the one value they are given.
pub struct CountRec(pub Option<u64>);
pub struct GaugeRec(pub Option<i64>);
pub struct FloatRec(pub Option<u64>);
use core::sync::atomic::Ordering::SeqCst;
use measured::metric::group::Encoding;
use measured::metric::name::MetricNameEncoder;
use measured::metric::MetricEncoding;
macro_rules! rec {
    ($t:ident, $s:ty, |$m:ident| $e:expr) => {
        impl Encoding for $t {
            type Err = ();
            fn write_help(&mut self, _: impl MetricNameEncoder, _: &str) -> Result<(), ()> {
                Ok(())
            }
        }
        impl MetricEncoding<$t> for $s {
            fn write_type(_: impl MetricNameEncoder, _: &mut $t) -> Result<(), ()> {
                Ok(())
            }
            fn collect_into(
                &self,
                _: &(),
                _: impl LabelGroup,
                _: impl MetricNameEncoder,
                enc: &mut $t,
            ) -> Result<(), ()> {
                let $m = self;
                enc.0 = Some($e);
                Ok(())
            }
        }
    };
}
rec!(CountRec, measured::metric::counter::CounterState, |m| m.count.load(SeqCst));
rec!(GaugeRec, measured::metric::gauge::GaugeState, |m| m.count.load(SeqCst));
rec!(FloatRec, measured::metric::gauge::FloatGaugeState, |m| m.count.get().to_bits());
