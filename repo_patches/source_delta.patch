From 633f83ee2e70fb5a1873a73c505663e78cbe937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 01/10] fix: reject '-' in MetricName::try_from_str

The run-time validator accepted names such as `a-b` that the documented
regex and the const validator reject, producing an unparsable exposition.
---
 core/src/metric/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/metric/name.rs b/core/src/metric/name.rs
index 8a4aa4c..92d10c3 100644
--- a/core/src/metric/name.rs
+++ b/core/src/metric/name.rs
@@ -83,7 +83,7 @@ fn try_assert_metric_name(value: &str) -> Result<(), InvalidMetricName> {
     }
 
     value.bytes().try_fold((), |(), b| match b {
-        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'_' | b':' => Ok(()),
+        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
         _ => Err(InvalidMetricName::InvalidChars),
     })?;
 
-- 
2.43.0


From 5509e82de9ca6f636a59b6b948306f49350e5e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 02/10] fix: count NaN observations only in the +Inf bucket

NaN compared false with every bound, so it landed in the lowest bucket and
was reported as less than or equal to every threshold.
---
 core/src/metric/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 8937b77..aa6662c 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -155,7 +155,7 @@ impl<const N: usize> Thresholds<N> {
 impl<const N: usize> HistogramLockGuard<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().le.partition_point(|le| x > *le || x.is_nan());
         self.inner.read().observe(bucket, x);
     }
 
@@ -175,7 +175,7 @@ impl<const N: usize> HistogramLockGuard<'_, N> {
 impl<const N: usize> HistogramMut<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(mut self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().le.partition_point(|le| x > *le || x.is_nan());
         self.inner.get_mut().observe(bucket, x);
     }
 
-- 
2.43.0


From 08463668a7f48e3b0de468f76ab33019fb224090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 03/10] fix: allow Thresholds::with_buckets with no buckets

`0..N - 1` underflowed for N = 0, although a histogram with only the +Inf
bucket is valid and the other constructors build it.
---
 core/src/metric/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index aa6662c..37d4c3f 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -137,9 +137,9 @@ impl<const N: usize> Thresholds<N> {
     /// # Panics
     /// Will panic if the buckets are not strictly monotonically increasing
     pub fn with_buckets(buckets: [f64; N]) -> Self {
-        for i in 0..N - 1 {
+        for i in 1..N {
             assert!(
-                buckets[i] < buckets[i + 1],
+                buckets[i - 1] < buckets[i],
                 "consecutive histogram buckets must not decrease or be equal",
             );
         }
-- 
2.43.0


From 4364530f821539a15d3a971198c9d6f47fbb5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 04/10] fix: take the start time from the monitored process

ProcessCollector::new(pid) read the start time of the calling process.
---
 process/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index c3707c8..f81fe58 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -58,7 +58,7 @@ impl ProcessCollector {
         let mut start_time = None;
         #[cfg(target_os = "linux")]
         if let Ok(boot_time) = procfs::boot_time_secs() {
-            if let Ok(stat) = procfs::process::Process::myself().and_then(|p| p.stat()) {
+            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
                 start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
             }
         }
-- 
2.43.0


From 929187d4722a92a9e78910b3f862f384e4e0d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 05/10] fix: escape backslashes and line feeds in HELP text

A help text with a line feed spilled out of its comment line and corrupted
the exposition; the text format requires both characters to be escaped.
---
 core/src/text.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 8d4aa75..48cec0a 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use bytes::{BufMut, Bytes, BytesMut};
-use memchr::memchr3_iter;
+use memchr::{memchr2_iter, memchr3_iter};
 
 use crate::{
     label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor},
@@ -65,7 +65,7 @@ impl<W: Write> Encoding for TextEncoder<W> {
         self.writer.write_all(b"# HELP ")?;
         name.encode_utf8(&mut self.writer)?;
         self.writer.write_all(b" ")?;
-        self.writer.write_all(help.as_bytes())?;
+        write_help_str(help, &mut self.writer)?;
         self.writer.write_all(b"\n")?;
         Ok(())
     }
@@ -416,6 +416,20 @@ pub(crate) fn write_label_str_value(s: &str, b: &mut impl Write) -> io::Result<(
     b.write_all(&s.as_bytes()[i..])
 }
 
+pub(crate) fn write_help_str(s: &str, b: &mut impl Write) -> io::Result<()> {
+    let mut i = 0;
+    for j in memchr2_iter(b'\\', b'\n', s.as_bytes()) {
+        b.write_all(&s.as_bytes()[i..j])?;
+        match s.as_bytes()[j] {
+            b'\\' => b.write_all(b"\\\\")?,
+            b'\n' => b.write_all(b"\\n")?,
+            _ => unreachable!(),
+        }
+        i = j + 1;
+    }
+    b.write_all(&s.as_bytes()[i..])
+}
+
 struct BytesWriter {
     buf: BytesMut,
 }
-- 
2.43.0


From a02715a6f3aca30a6d6e0d86e0151ec343b96d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 06/10] fix: write counts above i64::MAX as unsigned in the
 text format

---
 core/src/metric/group.rs |  1 +
 core/src/text.rs         | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/metric/group.rs b/core/src/metric/group.rs
index 7d8a26c..9d2d860 100644
--- a/core/src/metric/group.rs
+++ b/core/src/metric/group.rs
@@ -13,6 +13,7 @@ use super::{
 #[derive(Clone, Copy, Debug)]
 pub enum MetricValue {
     Int(i64),
+    Uint(u64),
     Float(f64),
 }
 
diff --git a/core/src/text.rs b/core/src/text.rs
index 48cec0a..3916ee1 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -192,6 +192,9 @@ impl<W: Write> TextEncoder<W> {
             MetricValue::Int(x) => self
                 .writer
                 .write_all(itoa::Buffer::new().format(x).as_bytes())?,
+            MetricValue::Uint(x) => self
+                .writer
+                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
             MetricValue::Float(x) => self
                 .writer
                 .write_all(ryu::Buffer::new().format(x).as_bytes())?,
@@ -243,7 +246,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-                MetricValue::Int(val as i64),
+                MetricValue::Uint(val),
             )?;
         }
         let count = val + inf;
@@ -252,7 +255,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             labels
                 .by_ref()
                 .compose_with(HistogramLabelLe { le: f64::INFINITY }),
-            MetricValue::Int(count as i64),
+            MetricValue::Uint(count),
         )?;
         enc.write_metric_value(
             name.by_ref().with_suffix(Sum),
@@ -262,7 +265,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         enc.write_metric_value(
             name.by_ref().with_suffix(Count),
             labels,
-            MetricValue::Int(count as i64),
+            MetricValue::Uint(count),
         )?;
         Ok(())
     }
@@ -285,7 +288,7 @@ impl<W: Write> MetricEncoding<TextEncoder<W>> for CounterState {
         enc.write_metric_value(
             &name,
             labels,
-            MetricValue::Int(self.count.load(core::sync::atomic::Ordering::Relaxed) as i64),
+            MetricValue::Uint(self.count.load(core::sync::atomic::Ordering::Relaxed)),
         )
     }
 }
-- 
2.43.0


From 697533fab207a21457f7ed5e4ea6e1b5b2600b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 07/10] fix: report writer errors while writing labels in the
 text format

---
 core/src/text.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 3916ee1..7a7c798 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -155,10 +155,11 @@ impl<W: Write> TextEncoder<W> {
         struct GroupVisitor<'a, W> {
             first: bool,
             writer: &'a mut W,
+            // label groups do not propagate the visitor output
+            result: Result<(), std::io::Error>,
         }
-        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
-            type Output = Result<(), std::io::Error>;
-            fn write_value(
+        impl<W: Write> GroupVisitor<'_, W> {
+            fn try_write_value(
                 &mut self,
                 name: &LabelName,
                 x: &impl LabelValue,
@@ -175,6 +176,14 @@ impl<W: Write> TextEncoder<W> {
                 })
             }
         }
+        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
+            type Output = ();
+            fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
+                if self.result.is_ok() {
+                    self.result = self.try_write_value(name, x);
+                }
+            }
+        }
 
         self.state = State::Metrics;
         name.encode_utf8(&mut self.writer)?;
@@ -182,8 +191,10 @@ impl<W: Write> TextEncoder<W> {
         let mut visitor = GroupVisitor {
             first: true,
             writer: &mut self.writer,
+            result: Ok(()),
         };
         labels.visit_values(&mut visitor);
+        visitor.result?;
         if !visitor.first {
             self.writer.write_all(b"}")?;
         }
-- 
2.43.0


From 942eecfe5422887c7195a3541c49372451121c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 08/10] fix: keep protobuf metric families apart when one is
 empty or fails

---
 prometheus-proto/src/lib.rs | 94 +++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 40 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 6aa7b06..c8563e1 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -40,29 +40,56 @@ impl<W: Write> ProtoEncoder<W> {
         self.writer.flush()
     }
 
+    /// Write out the current metric family, if it has any metrics, and forget it.
     fn flush_buf(&mut self) -> Result<(), std::io::Error> {
+        let mut res = Ok(());
         if self.state == State::Metrics {
-            self.state = State::Init;
-
             let len = self.buf.len() - 10;
             let varint_len = encoded_len_varint(len as u64);
             let offset = 10 - varint_len;
             encode_varint(len as u64, &mut &mut self.buf[offset..]);
-            self.writer.write_all(&self.buf[offset..])?;
+            res = self.writer.write_all(&self.buf[offset..]);
+        }
+        self.state = State::Init;
+        self.buf.clear();
+        self.buf.resize(10, 0);
+        res
+    }
 
-            self.buf.resize(10, 0);
-        } else if self.buf.is_empty() {
-            self.buf.resize(10, 0);
+    /// Start the metric family with this name, unless it is already the current one.
+    fn start_family(&mut self, name: impl MetricNameEncoder) -> Result<(), std::io::Error> {
+        if self.state != State::Init {
+            let end = self.buf.len();
+            self.encode_name(&name)?;
+            let (family, field) = self.buf.split_at(end);
+            let same = family[10..].starts_with(field);
+            self.buf.truncate(end);
+            if same {
+                return Ok(());
+            }
         }
-        debug_assert!(self.buf.len() >= 10);
+
+        self.flush_buf()?;
+        self.encode_name(&name)?;
+        self.state = State::Info;
         Ok(())
     }
+
+    // optional string     name   = 1;
+    fn encode_name(&mut self, name: &impl MetricNameEncoder) -> Result<(), std::io::Error> {
+        encode_key(1, LengthDelimited, &mut self.buf);
+        encode_varint(name.encode_len() as u64, &mut self.buf);
+        name.encode_utf8(&mut self.buf)
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq)]
 enum State {
+    /// No metric family started
     Init,
-    Help,
+    /// Metric family started, without metrics so far
+    Info,
+    /// Metric family has metrics
     Metrics,
 }
 
@@ -90,18 +117,14 @@ impl<W: Write> Encoding for ProtoEncoder<W> {
         name: impl MetricNameEncoder,
         help: &str,
     ) -> Result<(), std::io::Error> {
-        self.flush_buf()?;
-
-        // optional string     name   = 1;
-        encode_key(1, LengthDelimited, &mut self.buf);
-        encode_varint(name.encode_len() as u64, &mut self.buf);
-        name.encode_utf8(&mut self.buf)?;
+        if self.state == State::Metrics {
+            self.flush_buf()?;
+        }
+        self.start_family(name)?;
 
         // optional string     help   = 2;
         encoding::string::encode(2, help, &mut self.buf);
 
-        self.state = State::Help;
-
         Ok(())
     }
 }
@@ -221,14 +244,10 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
+        if enc.state == State::Metrics {
+            enc.flush_buf()?;
         }
+        enc.start_family(name)?;
 
         // optional MetricType type   = 3;
         // COUNTER = 0;
@@ -241,9 +260,10 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         &self,
         _m: &(),
         labels: impl LabelGroup,
-        _name: impl MetricNameEncoder,
+        name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
+        enc.start_family(name)?;
         enc.state = State::Metrics;
 
         let mut metric_len = 0;
@@ -276,14 +296,10 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
+        if enc.state == State::Metrics {
+            enc.flush_buf()?;
         }
+        enc.start_family(name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
@@ -296,9 +312,10 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         &self,
         _m: &(),
         labels: impl LabelGroup,
-        _name: impl MetricNameEncoder,
+        name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
+        enc.start_family(name)?;
         enc.state = State::Metrics;
 
         let mut metric_len = 0;
@@ -331,14 +348,10 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
+        if enc.state == State::Metrics {
+            enc.flush_buf()?;
         }
+        enc.start_family(name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
@@ -351,9 +364,10 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         &self,
         _m: &(),
         labels: impl LabelGroup,
-        _name: impl MetricNameEncoder,
+        name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
+        enc.start_family(name)?;
         enc.state = State::Metrics;
 
         let mut metric_len = 0;
-- 
2.43.0


From 25b20952c06692965663d0d07c5840b0dc773ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 09/10] hook: make label and metric name constants local under
 cfg(kani)

---
 core/src/lib.rs                      | 16 ++++++++++++++++
 core/src/text.rs                     |  2 +-
 derive/src/label_group/to_tokens.rs  |  2 +-
 derive/src/metric_group/to_tokens.rs |  2 +-
 derive/src/value/to_tokens.rs        |  2 +-
 tokio/src/lib.rs                     | 14 +++++++-------
 6 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 027cf26..a679a7f 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -2,9 +2,25 @@
 //!
 //! Getting started? See [`docs`]
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
+#![allow(unexpected_cfgs)]
 
 extern crate alloc;
 
+// Kani cannot encode constants of type `&LabelName` or `&MetricName`; under it
+// they become local variables. In any other build this is a plain `const`.
+#[doc(hidden)]
+#[macro_export]
+#[cfg(not(kani))]
+macro_rules! __name_const {
+    ($($item:tt)*) => { $($item)* };
+}
+#[doc(hidden)]
+#[macro_export]
+#[cfg(kani)]
+macro_rules! __name_const {
+    (const $($item:tt)*) => { #[allow(non_snake_case)] let $($item)* };
+}
+
 use metric::{
     counter::CounterState,
     gauge::{FloatGaugeState, GaugeState},
diff --git a/core/src/text.rs b/core/src/text.rs
index 7a7c798..f7dd3bb 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -242,7 +242,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
 
         impl LabelGroup for HistogramLabelLe {
             fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
-                const LE: &LabelName = LabelName::from_str("le");
+                crate::__name_const! { const LE: &LabelName = LabelName::from_str("le"); }
                 v.write_value(LE, &F64(self.le));
             }
         }
diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 827ef0d..913da37 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -22,7 +22,7 @@ impl ToTokens for LabelGroup {
             let name_string = attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value());
             let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
             quote_spanned! { x.span =>
-                const #ident: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
+                #krate::__name_const! { const #ident: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string); }
                 #krate::label::LabelGroupVisitor::write_value(v, #ident, &self.#name);
             }
         });
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index e2a4f0c..133f122 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -63,7 +63,7 @@ impl ToTokens for MetricGroup {
                     });
 
                     quote_spanned! { x.span =>
-                        const #ident: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#name_string);
+                        #krate::__name_const! { const #ident: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#name_string); }
                         #help
                         <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, #ident, enc)?;
                     }
diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 53a29fa..5b13951 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -37,7 +37,7 @@ impl ToTokens for FixedCardinalityLabel {
             quote!{
                 impl #krate::label::LabelGroup for #ident {
                     fn visit_values(&self, v: &mut impl #krate::label::LabelGroupVisitor) {
-                        const NAME: &#krate::label::LabelName = #krate::label::LabelName::from_str(#s);
+                        #krate::__name_const! { const NAME: &#krate::label::LabelName = #krate::label::LabelName::from_str(#s); }
                         v.write_value(NAME, self);
                     }
                 }
diff --git a/tokio/src/lib.rs b/tokio/src/lib.rs
index b4ddd29..270a6b4 100644
--- a/tokio/src/lib.rs
+++ b/tokio/src/lib.rs
@@ -151,7 +151,7 @@ where
     macro_rules! metric {
         ($name:literal, $help:literal, |$rt:ident| $expr:expr) => {{
             #![allow(unused_macros)]
-            const NAME: &MetricName = MetricName::from_str($name);
+            measured::__name_const! { const NAME: &MetricName = MetricName::from_str($name); }
             enc.write_help(NAME, $help)?;
             for rt in runtimes {
                 let rt_name = &rt.name;
@@ -374,7 +374,7 @@ struct Worker(usize);
 
 impl LabelGroup for Worker {
     fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
-        const LE: &LabelName = LabelName::from_str("worker");
+        measured::__name_const! { const LE: &LabelName = LabelName::from_str("worker"); }
         v.write_value(LE, &I64(self.0 as i64));
     }
 }
@@ -384,7 +384,7 @@ struct Remote;
 
 impl LabelGroup for Remote {
     fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
-        const LE: &LabelName = LabelName::from_str("worker");
+        measured::__name_const! { const LE: &LabelName = LabelName::from_str("worker"); }
         v.write_value(LE, &Str("remote"));
     }
 }
@@ -395,7 +395,7 @@ struct HistogramLabelLe {
 
 impl LabelGroup for HistogramLabelLe {
     fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
-        const LE: &LabelName = LabelName::from_str("le");
+        measured::__name_const! { const LE: &LabelName = LabelName::from_str("le"); }
         v.write_value(LE, &F64(self.le));
     }
 }
@@ -413,7 +413,7 @@ struct RuntimeName {
 
 impl LabelGroup for RuntimeName {
     fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
-        const LE: &LabelName = LabelName::from_str("runtime");
+        measured::__name_const! { const LE: &LabelName = LabelName::from_str("runtime"); }
         if let Some(name) = self.name.as_deref() {
             v.write_value(LE, &Str(name));
         }
@@ -424,7 +424,7 @@ struct Overflow(bool);
 
 impl LabelGroup for Overflow {
     fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
-        const OVERFLOW: &LabelName = LabelName::from_str("overflow");
+        measured::__name_const! { const OVERFLOW: &LabelName = LabelName::from_str("overflow"); }
         v.write_value(OVERFLOW, if self.0 { &Str("true") } else { &Str("false") });
     }
 }
@@ -456,7 +456,7 @@ impl LabelValue for QueueKind {
 
 impl LabelGroup for QueueKind {
     fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
-        const NAME: &LabelName = LabelName::from_str("kind");
+        measured::__name_const! { const NAME: &LabelName = LabelName::from_str("kind"); }
         v.write_value(NAME, self);
     }
 }
-- 
2.43.0


From 67102eee30fe76d89fd9400808f93a32c5d66832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:17 +0000
Subject: [PATCH 10/10] hook: protobuf primitives public under cfg(kani) or
 cfg(measured_verif)

---
 prometheus-proto/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index c8563e1..e406d11 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 use std::io::Write;
 
 use encoding::{encode_key, encode_varint, encoded_len_varint, key_len, WireType::LengthDelimited};
@@ -13,7 +14,12 @@ use measured::{
     LabelGroup,
 };
 
+#[cfg(not(any(kani, measured_verif)))]
 mod encoding;
+// the wire primitives, checked on their own
+#[cfg(any(kani, measured_verif))]
+#[doc(hidden)]
+pub mod encoding;
 
 /// The prometheus text encoder helper
 pub struct ProtoEncoder<W> {
-- 
2.43.0

