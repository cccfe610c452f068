"""Per-property configuration of check.py."""
CRATES = {
    "core": {},
    "proto": {"cbmc": ["--max-field-sensitivity-array-size", "200"], "replay_env": {"RUSTFLAGS": "--cfg measured_verif"}},
    "ext": {"cbmc": ["--max-field-sensitivity-array-size", "200"]},
    "tokio": {"cbmc": ["--max-field-sensitivity-array-size", "200"]},
    "process": {"cbmc": ["--max-field-sensitivity-array-size", "200"]},
}
COMMON_ASSUMPTIONS = [
    "Kani 0.68 / CBMC 6.11 / CaDiCaL are trusted; Kani's own toolchain compiles /repo (dev profile, debug assertions on)",
    "allocation succeeds; memory-safety checks of the encoding are off (the property is the assertion)",
    "parking_lot's slow paths (parking, wake-up) are replaced: a sequential harness fails if it would block",
    "available_parallelism is 1 (4 shards)",
]
PROPS = {
    "C01": dict(crates=["core"], functions=["LabelGroupSet::{encode,decode,cardinality,encode_dense,decode_dense} generated by derive(LabelGroup)", "StaticLabelSet", "LabelSet for Arc"],
        bounds="groups of 1 to 5 fields in nine layouts (fixed, fixed_with, dynamic_with, default, shared sets, enums); every member of sets placed anywhere with symbolic sizes 1..16 (two fields) and 1..4 (three fields), 64 and 8 in the thorough tier, any size for one field, and with the sizes 1000x2^24, 251x37, 7x5x11; any 64-bit field values for membership; cardinalities of all powers of two",
        outside="derived groups of more than 5 fields; encoding through sets whose product of cardinalities exceeds the platform word (encode overflows there, see DESIGN.md)"),
    "C02": dict(crates=["core"], functions=["LabelGroupSet for ComposedGroup", "LabelGroupSet for &T", "LabelGroupSet for Arc<T>", "StaticLabelSet"],
        bounds="two sets with symbolic sizes 1..16 each and with the sizes 2^12x100, 37x251 (2^20x1000 in the thorough tier), any 32-bit size for membership, nestings of three sets both ways (sizes 5,3,7; symbolic up to 8 in the thorough tier), known or unknown sizes, references and shared pointers, derived and enum member sets; cardinalities of all powers of two (all 32-bit pairs in the thorough tier)",
        outside="other large sizes for the dense index"),
    "C03": dict(crates=["core"], functions=["FixedCardinalityLabel::{cardinality,encode,decode}", "LabelValue::visit", "LabelGroup::visit_values generated by derive(FixedCardinalityLabel)", "StaticLabelSet"],
        bounds="ten enums of six variants: the default and each of the eight case conventions with acronym, digit, rename, discriminant and implicit variants, and one with explicit discriminants and a singleton label; the variant is symbolic",
        outside="identifiers beyond those of the catalogue (case conversion happens at compile time, in the heck crate)"),
    "C19": dict(crates=["core"], functions=["MetricGroup::collect_group_into and new generated by derive(MetricGroup)", "MetricGroup for &G, Option, Arc, ComposedGroup, WithNamespace", "Encoding and MetricEncoding for WithNamespace<E> and &mut E", "MetricFamilyEncoding for Metric, MetricVec, Option"],
        bounds="derived groups of 1 to 6 members covering rename, namespace, flatten, help, init, metadata, label_set, optional members (all presence patterns), generics and borrowed, shared and composed members; namespaces up to three deep; any recorded 64-bit values",
        outside="other group layouts"),
    "C26": dict(crates=["core"], functions=["LabelGroup::visit_values generated by derive(LabelGroup)", "LabelGroup for ComposedGroup, &T, NoLabels", "LabelValue for str, String, &T"],
        bounds="derived groups of 4 and 5 fields with every field kind and renames, compositions of up to three groups; all 64-bit field values",
        outside="other layouts"),
    "C05": dict(crates=["core"], functions=["Counter::{inc,inc_by,inc_mut,inc_by_mut}", "CounterVec::{inc,inc_by,inc_mut,inc_by_mut}", "CounterState::{new,inc,inc_by}", "CounterMut::{inc,inc_by}"],
        bounds="2 operations of symbolic kind and 64-bit amount per path; dense and sparse vectors of 3 label groups",
        outside="longer sequences (each operation is checked from an arbitrary reached value); overflow through exclusive access, which panics in debug builds by design"),
    "C06": dict(crates=["core"], functions=["Gauge::*", "GaugeVec::*", "GaugeState::*", "GaugeMut::*"],
        bounds="2 operations of symbolic kind (15 access paths) and 64-bit amount on a gauge; one operation per vector access path from a symbolic previous value, dense and sparse",
        outside="longer sequences (each operation is checked from an arbitrary reached value); overflow through exclusive access, which panics in debug builds by design"),
    "C07": dict(crates=["core"], functions=["FloatGauge::*", "FloatGaugeState::*", "AtomicF64::*", "FloatGaugeMut::*"],
        bounds="one operation of every access path from an arbitrary 64-bit value with an arbitrary 64-bit amount; vector shorthands over a table of 12 float classes",
        outside="NaN payloads; longer sequences (each operation is checked from an arbitrary reached value)"),
    "C09": dict(crates=["core"], functions=["Histogram::observe", "HistogramVec::observe", "HistogramLockGuard::observe", "HistogramMut::observe", "HistogramStateInner::{observe,observe_mut}", "observe_duration"],
        bounds="one observation of an arbitrary 64-bit float from arbitrary (32-bit) bucket counts with 0, 1, 2 and 3 arbitrary strictly increasing bounds (5 and 8 in the thorough tier), every access path, dense and sparse; sums over a table of 12 float classes (all 64-bit pairs in the thorough tier); sparse vectors: the float classes of the table against the bounds 0 and 1.5; two observations in sequence",
        outside="more buckets; longer sequences (each observation is checked from arbitrary counts)"),
    "C11": dict(crates=["core"], functions=["Thresholds::{with_buckets,linear_buckets,exponential_buckets,get}"],
        bounds="0, 1, 2 and 4 arbitrary 64-bit bounds (8 in the thorough tier); acceptance of linear and exponential parameters for all 64-bit floats; computed bounds for 3 buckets over all 28-bit integer starts and 16-bit widths, and over all 32-bit starts with the factors 1.5, 2 and 10 (exactly representable results)",
        outside="rounding of results that are not exactly representable; more than 3 computed bounds", assumptions=["f64::powi is modelled by repeated multiplication"]),
    "C12": dict(crates=["core"], functions=["Histogram::start_timer", "HistogramVec::start_timer", "HistogramTimer::{observe,forget,drop}", "HistogramVecTimer::{observe,forget,drop}", "observe_duration", "observe_duration_since"],
        bounds="one timer over symbolic start and end seconds (24 and 20 bits) with and without a nanosecond borrow, dropped, observed or forgotten, on a histogram and on dense and sparse vectors",
        outside="nanosecond parts other than the sampled representable ones", assumptions=["Instant::now is a clock set by the harness"]),
    "C13": dict(crates=["core"], functions=["MetricName::{from_str,try_from_str,in_namespace,with_suffix}", "LabelName::from_str", "WithNamespace", "WithSuffix", "MetricNameEncoder"],
        bounds="all strings of up to 4 bytes made of ASCII characters or containing one two-byte character; compositions of 3-character names with up to two namespaces and two suffixes",
        outside="longer names (the validation is uniform per byte); three- and four-byte characters"),
    "C14": dict(crates=["core"], functions=["TextEncoder::write_metric_value", "write_label_str_value", "LabelVisitor::{write_int,write_float,write_str}"],
        bounds="all ASCII label values of up to 3 bytes (5 in the thorough tier), all two-byte characters followed by any ASCII byte, all 64-bit integers and floats",
        outside="longer values; three- and four-byte characters", assumptions=["itoa and ryu are replaced by injective tokens", "memchr is replaced by its specification"]),
    "C15": dict(crates=["core"], functions=["TextEncoder::{write_help,write_type,write_metric_value,flush}", "MetricEncoding<TextEncoder> for CounterState, GaugeState, FloatGaugeState, HistogramState", "BufferedTextEncoder"],
        bounds="all counts, gauge values, finite sums and finite bounds (64 bits); histograms with 0, 1 and 2 buckets; up to two families per export, with and without flush in between; ASCII help texts of up to 3 bytes (5 in the thorough tier)",
        outside="non-finite sample values (spelling left to ryu); longer help texts; more families", assumptions=["itoa and ryu are replaced by injective tokens", "memchr is replaced by its specification"]),
    "C16": dict(crates=["core", "proto"], functions=["TextEncoder::*", "MetricEncoding<TextEncoder<W>>", "ProtoEncoder::*", "MetricEncoding<ProtoEncoder<W>>", "MetricVec::collect_family_into"],
        bounds="a writer that accepts one byte per call, fails at any byte position (for good, or once and then recovers, with one of six kinds of error) and is interrupted once at any byte position, over eight text exports covering help, type, labels, escapes, histograms, vectors and namespaces and five protobuf exports of one and two families; a group encoder that fails at any of its calls",
        outside="writers that fail more than once; other exports", assumptions=["itoa and ryu are replaced by one-byte tokens"]),
    "C04": dict(crates=["core"], jobs=5, functions=["MetricVec::{dense,sparse,new,with_labels,try_with_labels,get_metric,get_metric_mut,remove_metric}", "ShardedMap::*", "CounterVec::{inc_by}", "GaugeVec::set", "FloatGaugeVec::set"],
        bounds="sequences of 3 and 4 operations (up to 7 in the thorough tier) over 3 label groups, every access path, symbolic label group and amount in each operation, against a map model; a sequence over 6 label groups in different shards with symbolic amounts",
        outside="longer sequences; more label groups; histogram vectors (see C09)", assumptions=["hashbrown::HashTable is replaced by a model of its documented contract"]),
    "C24": dict(crates=["core"], jobs=6, functions=["MetricVec::{get_cardinality,remove_metric,init_all_dense}", "ShardedMap::{get_cardinality,remove_metric}"],
        bounds="sequences of 3 and 4 operations over 3 label groups with symbolic label groups, the reported cardinality compared with a map model after every operation; 6 label groups in different shards; a set of 1025",
        outside="longer sequences", assumptions=["hashbrown::HashTable is replaced by a model of its documented contract"]),
    "C25": dict(crates=["core"], jobs=4, functions=["MetricVec::collect_family_into", "Metric::collect_family_into", "Option::collect_family_into", "MetricVec::init_all_dense"],
        bounds="scrapes after sequences of 2 and 3 operations over 3 label groups with symbolic label groups and amounts, and over 6 label groups spread over the shards with related 8-bit amounts, collected by an encoder that records every sample",
        outside="longer sequences", assumptions=["hashbrown::HashTable is replaced by a model of its documented contract"]),
}
SCHED = ["interleavings are sequentially consistent: an interrupting operation runs, whole, immediately before an atomic access (lock operations included) of the interrupted one",
    "fetch_*, compare_exchange, load, store and swap of the standard atomics are replaced by their sequential meaning plus the interruption; compare_exchange_weak may fail spuriously"]
PROPS["C08"] = dict(crates=["core"], functions=["Counter::{inc,inc_by}", "Gauge::{inc,dec,inc_by,dec_by,set}", "FloatGauge::{inc,dec,inc_by,dec_by,set}", "AtomicF64::inc_by", "Histogram::observe"],
    bounds="every update operation, interrupted before any of its atomic accesses by up to 2 increments or sets of the same cell (all 64-bit amounts for integers), with up to 1 spurious compare-exchange failure, and up to 6 failures without interference",
    outside="other float amounts (see C07); weak memory effects; more interruptions (each retry starts from the same state)", assumptions=SCHED)
PROPS["C10"] = dict(crates=["core"], functions=["HistogramLockGuard::observe", "HistogramStateInner::{observe,sample}", "MetricEncoding<TextEncoder> for HistogramState"],
    bounds="an observation below or above the bound of a one-bucket histogram (arbitrary 32-bit bucket count), interrupted by a whole text scrape before any of its atomic accesses or lock operations; a text scrape interrupted by up to two observations at any of its lock operations and atomic accesses",
    outside="more buckets; weak memory effects beyond what the lock orders", assumptions=SCHED + ["itoa and ryu are replaced by injective tokens"])
PROPS["C22"] = dict(crates=["core"], jobs=5, functions=["MetricVec::{with_labels,get_metric,remove_metric,collect_family_into}", "VecInner::get_metric", "ShardedMap::{get_metric,remove_metric}", "CounterVec::inc_by"],
    bounds="an update, a removal or a scrape of a counter vector, interrupted once by a whole update, removal or scrape of the same or another label group in the same shard, before any lock operation, one-time initialisation step or atomic access; fresh and used label groups; dense and sparse",
    outside="more than one interruption; scrapes of sparse vectors interrupted by first uses", assumptions=SCHED + ["hashbrown::HashTable is replaced by a model of its documented contract", "std::sync::Once is replaced by its contract (a thread that meets a running initialisation waits)"])
PROPS["C17"] = dict(crates=["proto"], functions=["encoding::{encode_varint,encoded_len_varint,encode_key,key_len}", "encoding::int32::encode", "encoding::double::{encode,encoded_len}", "encoding::string::{encode,encoded_len}"],
    bounds="all 64-bit varints, all field numbers 1 to 2^29-1, all 32-bit integers and doubles; strings of 0, 1, 127 and 128 bytes (16384 in the thorough tier) with arbitrary ASCII ends; announced lengths of strings up to 69999 bytes",
    outside="contents of other lengths; announced lengths of longer strings")
PROPS["C18"] = dict(crates=["proto"], functions=["ProtoEncoder::{write_help,flush,start_family,flush_buf}", "MetricEncoding<ProtoEncoder<W>> for CounterState, GaugeState, FloatGaugeState", "MetricGroup::collect_group_into"],
    bounds="exports of up to five families (with and without help, type and samples, in front of, between and after one another, with and without a flush between, names that are prefixes of each other), up to two samples and two labels each, all 64-bit sample values, ASCII label values of 3, 100, 121 and 128 bytes with an arbitrary last byte, all 64-bit integer labels",
    outside="longer sequences; families of 16 kB and more (their length prefix is covered by C17)", assumptions=["itoa and ryu are replaced by injective tokens"])
PROPS["C21"] = dict(crates=["process"], functions=["ProcessCollector::{new,for_self}", "MetricGroup::collect_group_into for ProcessCollector"],
    bounds="a process other than the caller with every statistic present, each one missing, all missing, no boot time, missing when the collector is made, gone; the caller itself; two collections with different values; any 32-bit process id; utime, stime and start time of 30 bits, boot time of 40 bits, memory sizes of 62 bits, resident pages of 50 bits, limits of 62 bits or unlimited, any 32-bit thread count",
    outside="reading /proc (the procfs crate); larger statistics", assumptions=["procfs is replaced by a stand-in that serves the harness's table of processes, in the replay as well", "libc::sysconf reports 100 ticks per second and pages of 4096 bytes, libc::getpid is constant"])
PROPS["C20"] = dict(crates=["tokio"], functions=["RuntimeCollector::{new,current,with_name}", "NamedRuntimesCollector::{new,default,add,add_current}", "MetricGroup::collect_group_into for both", "collect", "histogram_le"],
    bounds="no runtime, one unnamed runtime with 0, 1 and 2 workers and 0, 1 and 3 histogram buckets, two named ones (with 2 and 1 workers and 2 and 3 buckets in the thorough tier), the current one, two collections; counts of 64 bits, depths of 62 bits, bucket counts of 60 bits, durations of 31 bits of seconds and a half; the io metrics are on",
    outside="more workers, buckets or runtimes; fractions of a second other than a half", assumptions=["tokio is replaced by a stand-in whose runtimes report what the harness sets, in the replay as well"])
PROPS["C23"] = dict(crates=["ext"], functions=["LabelSet, FixedCardinalitySet and DynamicLabelSet for lasso::RodeoReader, lasso::ThreadedRodeo, indexmap::IndexSet, phf::OrderedSet and Arc<T>"],
    bounds="readers and index sets built from 0, 2 and 3 arbitrary members (one-byte texts, 64-bit numbers, repetitions allowed), a perfect hash set of three texts, any value; three arbitrary values into a threaded interner; 32-bit and 8-bit keys, a key with its own numbering and room for two; all of it shared through Arc; a derived group over a reader and a threaded interner",
    outside="longer texts and larger sets; concurrent interning (the sets are one call each)", assumptions=["lasso, indexmap and phf are replaced by stand-ins of their documented behaviour; the replay uses the real ones"])
NOT_APPLICABLE = {}
