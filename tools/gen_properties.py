#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

CORE = "core/src/"
p("C01", "Derived label groups round-trip through their label set",
  "For a label group derived from a struct of fixed-cardinality fields, encoding a group that is contained in its set yields an identifier below the set's reported cardinality, decoding that identifier gives back exactly the group that was encoded, and two different groups never share an identifier. A group with a field value that is not in that field's set has no identifier. The same holds when fields are mixed with dynamic ones, whose indices are carried unchanged.",
  ["inputs", "configurations"],
  "All values of every field, all cardinalities of each field's set (any sizes whose product fits the platform word), 1 to 4 fields in any order, fixed and dynamic kinds mixed.",
  "Tests encode a handful of groups over sets of 2-6 values; the claim ranges over every set size and every value, where a wrong multiplier or order is only visible for particular combinations.",
  ["derive/src/label_group/to_tokens.rs", "derive/src/label_group/mod.rs", "derive/src/label_group/attr.rs", CORE+"label/group.rs", CORE+"label/value.rs"],
  "the generated mixed-radix encode/decode and cardinality of the label group set")
p("C02", "Composed label sets index densely without collisions",
  "Composing two label sets gives a set whose cardinality is the product of the two and is unknown when either is unknown or the product cannot be represented. Every pair of contained groups maps to its own dense index below that cardinality, the dense index and the identifier both decode back to exactly that pair, and a pair with a member outside its set has no identifier.",
  ["inputs", "configurations"],
  "All pairs of member sets of any size and all pairs of members, including nested compositions and references or shared pointers to sets.",
  "The test composes one 2x3 set and checks two members.",
  [CORE+"label/group.rs"], "composed group set encode/decode, dense and sparse")
p("C03", "Derived label enums are a bijection with the right text",
  "A derived label enum with k variants reports cardinality k, numbers its variants 0..k-1 in declaration order, and decoding a number gives the variant with that number. Each variant is written as its integer discriminant if it has one, otherwise as its explicit rename, otherwise as its name in the chosen case convention (snake_case by default), and a singleton enum writes exactly one label under the chosen name.",
  ["inputs", "programs"],
  "All variants of a catalogue of enums covering every case convention, renames, integer discriminants and singleton names; every number below the cardinality.",
  "Doc tests check four enums and three of the eight conventions; existing unit tests only look at rendered snapshots.",
  ["derive/src/value/to_tokens.rs", "derive/src/value/parse.rs", "derive/src/value/attr.rs", "derive/src/value/mod.rs", CORE+"label/value.rs"],
  "the generated encode, decode, cardinality and visit functions")
p("C04", "A metric vector keeps one independent metric per label group",
  "After any sequence of updates, removals and reads, the value held for a label group is the result of applying, in order, exactly the operations addressed to that label group since it was last created; operations addressed to other groups never affect it. This does not depend on whether the vector is dense or sparse or chosen automatically, nor on which access path (shared or exclusive) is used; removal returns the state it removes, and a removed or never-used group starts again from zero.",
  ["inputs", "histories", "configurations"],
  "All sequences of get/update/remove operations up to the bound, over any label groups, both storage layouts, any placement of keys in shards (including hash collisions).",
  "Unit tests touch three label groups once; aliasing between groups needs particular hash or index collisions and histories with removals.",
  [CORE+"metric.rs", CORE+"metric/sparse.rs"], "dense slot index / sharded map lookup keyed by the label identifier")
p("C05", "Counters add exactly what was recorded",
  "The value of a counter after any sequence of increments is the sum of its initial value and all recorded amounts, modulo 2^64, whichever API path performed them: single metric or vector entry, shared or exclusive access.",
  ["inputs", "histories"],
  "All amounts (64-bit) and all sequences of operations over every access path up to the bound.",
  "Tests increment by small constants on one path.",
  [CORE+"metric/counter.rs", CORE+"metric.rs"], "counter state arithmetic")
p("C06", "Integer gauges follow their increments, decrements and sets",
  "The value of an integer gauge after any sequence of set, increment and decrement operations equals the last set value (or the initial value) plus later increments minus later decrements, with two's-complement wrap-around, on every API path.",
  ["inputs", "histories"],
  "All amounts (signed 64-bit) and all sequences over every access path up to the bound.",
  "Tests set one gauge to 42.",
  [CORE+"metric/gauge.rs", CORE+"metric.rs"], "gauge state arithmetic")
p("C07", "Float gauges follow IEEE-754 arithmetic on every path",
  "Setting a float gauge stores exactly that value, and each increment or decrement changes it to the correctly rounded sum or difference of the current value and the amount; the shared and the exclusive access paths and the vector shorthand agree bit for bit for all non-NaN results, and NaN stays NaN.",
  ["inputs", "histories"],
  "All pairs of 64-bit floats including signed zeros, infinities, NaN and subnormals, on every access path.",
  "No existing test exercises a float gauge's arithmetic.",
  [CORE+"metric/gauge.rs"], "atomic float update and exclusive-path arithmetic")
p("C08", "Concurrent updates are never lost or applied twice",
  "When several threads update the same counter, gauge or float gauge, or observe into the same histogram, the result equals that of applying every update exactly once in some order. No schedule loses an update, applies one twice, or lets an increment overwrite a concurrent set that happened after the value it was computed from.",
  ["schedules", "inputs"],
  "All interleavings of one update's atomic steps with arbitrary interference on the same cell by any number of other threads, up to the bounded number of retries; all amounts.",
  "No existing test is concurrent; lost updates need a particular interleaving between the read and the write of one update.",
  [CORE+"metric/counter.rs", CORE+"metric/gauge.rs", CORE+"metric/histogram.rs"],
  "atomic read-modify-write and compare-exchange loops")
p("C09", "Histograms account every observation to the right buckets",
  "Each observation raises the cumulative count of exactly the buckets whose upper bound is at least the observed value, and raises the +Inf bucket and the total count by exactly one; the sum is the sum of all observed values in order. This holds on every access path and for every float: infinities fall where their order puts them and NaN is counted only in +Inf.",
  ["inputs", "histories", "configurations"],
  "All observed floats (including signed zeros, infinities, NaN, values equal to a bound), all strictly increasing bucket bounds, 0 to several buckets, sequences up to the bound.",
  "One test observes four ordinary values into eight fixed buckets; boundary and non-finite values are never tried.",
  [CORE+"metric/histogram.rs", CORE+"text.rs"], "bucket search, per-bucket counters, and the cumulative export",
  )
p("C10", "A scrape sees only whole histogram observations",
  "A scrape that runs concurrently with observations reports a histogram in which every observation is either entirely included or entirely absent: the buckets, the sum and the count always describe the same set of observations, and every observation that completed before the scrape began is included.",
  ["schedules", "inputs"],
  "All placements of a whole scrape between the atomic steps of an observation and of a whole observation between the steps of a scrape, all observed values.",
  "Nothing concurrent is tested; a torn snapshot appears only when a scrape lands between two steps of one observation.",
  [CORE+"metric/histogram.rs", CORE+"text.rs"], "shared lock for observing, exclusive lock for sampling")
p("C11", "Histogram thresholds are validated and computed as documented",
  "Explicit bucket bounds are accepted exactly when every bound is strictly less than the next, and are kept unchanged. Linear bounds are rejected exactly when the width is not positive and otherwise are start + i*width; exponential bounds are rejected exactly when the start is not positive or the factor is not above one and otherwise are start * factor^i.",
  ["inputs", "configurations"],
  "All floats for every argument, any bucket count from 0 up to the bound.",
  "Tests only construct exponential buckets from benign constants.",
  [CORE+"metric/histogram.rs"], "threshold constructors")
p("C12", "A timer records exactly one elapsed time, in the right histogram",
  "Dropping a running timer, or stopping it explicitly, records exactly one observation equal to the time elapsed since it started, in seconds, in the histogram (and label group) it was started on; a timer stopped explicitly also returns that duration and records nothing more when dropped. A forgotten timer records nothing, and duration observations record the duration in seconds.",
  ["inputs", "histories"],
  "All clock readings and durations, both timer kinds, every way to end a timer.",
  "No existing test ends a timer at all.",
  [CORE+"metric/histogram.rs"], "timer drop, observe and forget")
p("C13", "Metric and label names are validated and composed faithfully",
  "A string is accepted as a metric name exactly when it matches [a-zA-Z_:][a-zA-Z0-9_:]* and as a label name exactly when it matches [a-zA-Z_][a-zA-Z0-9_]*, whichever constructor is used, and an accepted name is written unchanged. A namespaced or suffixed name is written as namespace, underscore, inner name, suffix, in that order and nesting, and the announced length is always the number of bytes written.",
  ["inputs", "configurations"],
  "All strings up to the bound (every byte position and value), all nestings of namespaces and suffixes up to the bound.",
  "No existing test feeds an invalid name to the run-time constructor.",
  [CORE+"metric/name.rs", CORE+"label/name.rs"], "name validators and name encoders")
p("C14", "Label values survive text exposition for every string",
  "The text written for a label value contains no raw newline and no unescaped double quote or backslash, and un-escaping it according to the Prometheus text format gives back exactly the original value. Integer label values are written in decimal, and float values with +Inf, -Inf and NaN for the non-finite ones.",
  ["inputs"],
  "All label value strings up to the bound (every byte at every position), all 64-bit integers and floats.",
  "One test escapes one string; adjacent, leading and trailing special characters are not sampled.",
  [CORE+"text.rs", CORE+"label/impls.rs"], "label string escaping and number formatting in the text encoder")
p("C15", "Text exposition is well formed and carries the recorded values",
  "Every family is written as its optional HELP line and TYPE line followed by one line per sample with name, labels and the recorded value, families are separated by one blank line, and a help text never spills out of its line. Counter and histogram counts are written as non-negative decimal integers for every possible count, and histogram buckets are written with their bounds, cumulative counts, a final +Inf bucket, sum and count. The output does not depend on what the encoder wrote before it was last finished.",
  ["inputs", "histories", "configurations"],
  "All metric kinds and values (all 64-bit counts), all help strings up to the bound, label groups of 0 to several labels, sequences of families and encoder reuse.",
  "Snapshot tests check two exposition documents with small values and harmless help texts.",
  [CORE+"text.rs", CORE+"metric.rs"], "text encoder state machine and value formatting")
p("C16", "A failing writer is reported and never hidden",
  "If the destination of a text or protobuf export fails at any point, the export returns an error and does not report success; bytes accepted by the destination before the failure are a prefix of what a fault-free export writes. Without failure the export succeeds, also when the destination accepts only a part of the bytes per call or is interrupted.",
  ["fault_sequences", "inputs"],
  "Every byte offset at which the destination can fail, every pattern of short writes up to the bound, all metric kinds and label groups.",
  "No test uses a writer that can fail.",
  [CORE+"text.rs", "prometheus-proto/src/lib.rs", CORE+"metric.rs", CORE+"metric/group.rs"], "error propagation from the writer through encoders, visitors and groups")
p("C17", "Protobuf primitives are valid wire encoding",
  "Varints, field keys, integers, doubles and strings written by the protobuf exporter decode, by the protobuf wire-format rules, to exactly the value and field number that was written, use the shortest varint form, and have exactly the length announced for them.",
  ["inputs"],
  "All 64-bit values, all field numbers the format allows, all doubles, strings up to the bound.",
  "Tests decode two small families with small values; length boundaries at 2^7, 2^14, ... are not reached.",
  ["prometheus-proto/src/encoding.rs"], "varint, key, int32, double, string encoders and their length functions")
p("C18", "Protobuf export delivers every family whole under its own name",
  "The byte stream written by the protobuf exporter is a sequence of length-delimited metric family messages, one per family that has samples, each with that family's own name, help, type and every sample with its labels and value. Families without samples, and the order in which families are written, never change what is delivered for another family, and reusing an encoder after a flush starts afresh.",
  ["inputs", "histories", "configurations"],
  "All sequences of families up to the bound (with or without help, with zero or more samples), all counter, gauge and float values, label strings across length-prefix boundaries.",
  "Tests export a single well-behaved family; leftovers from an empty family or a length-prefix boundary are not sampled.",
  ["prometheus-proto/src/lib.rs", "prometheus-proto/src/encoding.rs"], "family buffering, length computation and flushing")
p("C19", "Metric groups export every member once, under the right name",
  "Collecting a metric group exports each of its members exactly once, in declaration order, under its own or renamed name, prefixed by the namespaces of all enclosing groups outermost first, with its documentation as help text; flattening adds no prefix, absent optional members export no type line and no sample, and wrapping a group by reference, shared pointer or composition changes nothing. Members constructed through the generated constructor get the metadata, label set or initial value given for them.",
  ["configurations", "programs", "inputs"],
  "A catalogue of groups covering every field attribute and nesting, any recorded values, and any presence pattern of optional members.",
  "One snapshot test collects one group with one nested namespace.",
  ["derive/src/metric_group/to_tokens.rs", "derive/src/metric_group/attr.rs", "derive/src/metric_group/parse.rs", CORE+"metric/group.rs", CORE+"metric.rs"], "generated group collection and namespace forwarding")
p("C20", "The tokio collector reports what the runtime reports",
  "For every runtime it holds, the tokio collector exports each runtime metric under its documented name with exactly the value the runtime reports at that time, labelled with the runtime's name (if given) and, where applicable, worker, queue or kind. Poll-time histograms are cumulative with the bucket upper bounds in seconds and +Inf for the last one, and mean and busy times are in seconds.",
  ["inputs", "configurations"],
  "All values of every runtime statistic, 0 to several runtimes, named or not, any number of workers and histogram buckets up to the bound.",
  "Tests only check that collecting does not panic or a snapshot of one idle runtime.",
  ["tokio/src/lib.rs"], "runtime metrics sampling into counters and gauges")
p("C21", "The process collector reports the monitored process",
  "All values exported by a process collector are those the operating system reports for the process it was created for, not for another process: descriptor count and limit, virtual and resident memory in bytes, CPU time, thread count, and start time in seconds since the epoch. A statistic that is unavailable is omitted, and a process that is gone exports nothing.",
  ["inputs", "fault_sequences"],
  "All values of each statistic, any process id, each subset of failing or unlimited statistics.",
  "Tests only run the collector against the test process itself.",
  ["process/src/lib.rs"], "procfs sampling and unit conversion")
p("C22", "Racing first uses of a label group share one metric",
  "When several threads use a label group of a metric vector for the first time, or one removes it while another updates it, all of them act on the same single metric per lifetime: every update is either present in the metric afterwards or in the state returned by a removal, never in a discarded copy, and no group is ever exported twice.",
  ["schedules", "histories"],
  "All placements of a whole competing operation (update, removal, read) at each lock acquisition and release of an update of the same label group, both storage layouts.",
  "The race between the shared lookup and the exclusive insert needs a schedule that sequential tests never produce.",
  [CORE+"metric.rs", CORE+"metric/sparse.rs"], "shared lookup, exclusive insert with re-check, lock downgrade; once-initialised dense cells")
p("C23", "Library-backed label sets round-trip and report their size",
  "For each supported label set backed by an interner, an ordered set or a perfect hash set, a contained value encodes to an index below the reported cardinality that decodes back to the same value; a value that is not contained has no index in a fixed set, and gets one that decodes back to it in a dynamic set. Sharing a set through a pointer changes none of this.",
  ["inputs", "configurations"],
  "All values and all set contents up to the bound, each supported set type.",
  "Tests check five keywords in one order per set type.",
  [CORE+"label/impls.rs", CORE+"label/value.rs"], "adapter implementations over the set types")
p("C24", "Reported cardinality and removal match the live label groups",
  "The reported current cardinality of a metric vector is the number of label groups that have been used (or initialised in advance) and not removed, and the reported upper bound is the label set's cardinality. Removal makes exactly the addressed label group disappear from a sparse vector, and initialising in advance makes every label group of a dense vector present with its initial value without touching values already recorded.",
  ["inputs", "histories", "configurations"],
  "All sequences of first uses, removals and bulk initialisations up to the bound, both layouts, all label groups.",
  "Two tests check two insertions and one removal.",
  [CORE+"metric.rs", CORE+"metric/sparse.rs"], "cardinality queries, removal, and dense initialisation")
p("C25", "A scrape exports each live label group exactly once with its own value",
  "Collecting a metric vector writes its type once and then exactly one sample set for each live label group, with that group's own labels in declaration order and that group's current value, and nothing for label groups never used or removed.",
  ["inputs", "histories", "configurations"],
  "All contents reachable by update/removal sequences up to the bound, both layouts, all values and label groups.",
  "Snapshot tests export two or eighteen label groups written once each.",
  [CORE+"metric.rs", CORE+"metric/sparse.rs", CORE+"label/group.rs"], "iteration over dense cells or shards with identifier decoding")
p("C26", "A label group lists every label exactly once",
  "Visiting a label group presents each of its fields exactly once, in declaration order, under the field's own or renamed label name and with that field's value. Composing groups lists the first group's labels and then the second's, references change nothing, the empty group lists nothing, and a group decoded from its identifier lists what the encoded group listed.",
  ["inputs", "programs"],
  "All field values of a catalogue of derived groups covering every field kind and rename, and their compositions.",
  "Snapshot tests look at two groups of two labels; a swapped or repeated field shows only for particular layouts.",
  ["derive/src/label_group/to_tokens.rs", CORE+"label/group.rs", CORE+"label/impls.rs"], "generated visit_values and composition of groups")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
