From 3f3bc4457d46a7948a2fa2ca4d912c92700c0060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 01/18] fix: huber gradients use the same sign convention as
 the other objectives

---
 src/objective.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/objective.rs b/src/objective.rs
index 5b21e9c..ac2d618 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -292,9 +292,9 @@ impl Objective for Huber {
             let err = targets[i] - self.predictions[i];
             let err_abs = err.abs();
             if err_abs <= self.delta {
-                self.gradients[i] = err;
+                self.gradients[i] = -err;
             } else {
-                self.gradients[i] = self.delta * err.signum();
+                self.gradients[i] = -self.delta * err.signum();
             }
         }
     }
-- 
2.43.0


From baefeec0723e7ab50340eff60c31ed7c1c96494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 02/18] fix: small bins keep their gradient sum so sibling
 histograms stay exact

---
 src/tree/learner.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 052f369..945c6ae 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -723,7 +723,6 @@ macro_rules! build_histograms {
             let mask_store = &this.ctx.mask_store;
             let grad_store = &this.ctx.grad_store;
             let idx_store = &this.ctx.idx_store;
-            let config = this.ctx.config;
 
             //for &feat_id in this.dataset.active_features() {
             //    // For each possible split, compute left grad & count stats
@@ -750,7 +749,7 @@ macro_rules! build_histograms {
                     let fmask = dataset.get_bitvec(feat_id, split_id);
                     let (grad_sum, example_count) = get_grad_sum(n2s, &fmask,
                                                                  mask_store, grad_store, idx_store,
-                                                                 grad_bounds, config);
+                                                                 grad_bounds);
                     let histval = HistVal { grad_sum, example_count };
                     (feat_id, split_id, histval)
                 })
@@ -806,8 +805,7 @@ macro_rules! get_grad_sum {
               mask_store: &BitBlockStore,
               grad_store: &BitBlockStore,
               idx_store: &BitBlockStore,
-              grad_bounds: (NumT, NumT),
-              config: &Config)
+              grad_bounds: (NumT, NumT))
             -> (NumT, u32)
         {
             let ems = mask_store.get_bitvec(n2s.mask_range);
@@ -815,7 +813,6 @@ macro_rules! get_grad_sum {
 
             if !n2s.compressed {
                 let count = ems.count_ones_and(&fmask) as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
                 let sum = unsafe { grads.sum_all_masked2_unsafe(&ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
@@ -823,7 +820,6 @@ macro_rules! get_grad_sum {
             } else {
                 let indices = idx_store.get_bitvec(n2s.idx_range);
                 let count = unsafe { ems.count_ones_and_compr_unsafe(&indices, &fmask) } as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
                 let sum = unsafe { grads.sum_all_masked2_compr_unsafe(&indices, &ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
-- 
2.43.0


From dd2c64cf7b59ab91b8d704331dcf1c7ff9653740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 03/18] fix: the first dataset update always happens, also when
 resampling is off

---
 src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 79e5b2e..545c325 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -354,8 +354,8 @@ impl <'a> Dataset<'a> {
         self.inner.initialize_supercats();
 
         // only fully update every `config.sample_freq` updates
-        if config.sample_freq == 0 || (self.update_count > 1 &&
-                                       self.update_count % config.sample_freq != 0) { return; }
+        if self.update_count > 1 && (config.sample_freq == 0 ||
+                                     self.update_count % config.sample_freq != 0) { return; }
 
         self.inner.sample_features();
 
-- 
2.43.0


From 65de1ea96f1ea3e64a6c233eba0475146911c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 04/18] fix: category weights use the gradients of the examples
 in the bag

---
 src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 545c325..0465c87 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -122,10 +122,10 @@ impl <'a> InnerDataset<'a> {
 
         // collect gradient sums & counts per categorical value
         let mut grad_stat_pairs: Vec<(NumT, u32)> = vec![(0.0, 0); card];
-        for (i, j) in example_iter.into_iter().enumerate() {
+        for j in example_iter.into_iter() {
             let category = into_cat(data[j]) as usize;
             let entry = &mut grad_stat_pairs[category];
-            entry.0 += grad[i];
+            entry.0 += grad[j];
             entry.1 += 1;
         }
 
-- 
2.43.0


From 71127d3a99ec71774c86be9e7b84e2ad0a456069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 05/18] fix: quantile ranks do not underflow with fewer
 examples than bins

---
 src/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 0465c87..c799760 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -143,7 +143,7 @@ impl <'a> InnerDataset<'a> {
         // extract quantiles
         let extractor = |bin: &u32| *bin;
         let rank_step = self.nactive_examples as NumT / (config.max_nbins + 1) as NumT;
-        let ranks = (1..=config.max_nbins).map(|i| (i as NumT * rank_step).round() as u32 - 1);
+        let ranks = (1..=config.max_nbins).map(|i| ((i as NumT * rank_step).round() as u32).saturating_sub(1));
         let qbins = binner.rank_iter(ranks, extractor);
         let mut last_bin = usize::max_value();
         let mut split_weights = Vec::with_capacity(config.max_nbins);
-- 
2.43.0


From 1d1444503cafe77898fa55a058fa7b795e7f79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 06/18] fix: without sampling every example is active, also
 beyond f32 precision

---
 src/dataset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index c799760..66aa6a5 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -43,7 +43,9 @@ impl <'a> InnerDataset<'a> {
 
         let nfeatures = data.nfeatures();
         let nexamples = data.nexamples();
-        let nactive_examples = (nexamples as NumT * config.example_fraction).round() as usize;
+        let nactive_examples = if config.example_fraction < 1.0 {
+            ((nexamples as NumT * config.example_fraction).round() as usize).min(nexamples)
+        } else { nexamples };
 
         let mut bitvecs      = vec![Vec::new(); nfeatures];
         let split_candidates = vec![Vec::new(); nfeatures];
-- 
2.43.0


From a7624810330d93b411e593759061542c2ad44e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 07/18] fix: constant values are binned into the first bin

---
 src/binner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binner.rs b/src/binner.rs
index c6c443e..3939722 100644
--- a/src/binner.rs
+++ b/src/binner.rs
@@ -18,7 +18,7 @@ impl <'a, BinT> Binner<'a, BinT> {
     pub fn new(bins: &'a mut [BinT], limits: (NumT, NumT)) -> Binner<'a, BinT> {
         assert!(limits.0.is_finite());
         assert!(limits.1.is_finite());
-        assert!(limits.0 < limits.1);
+        assert!(limits.0 <= limits.1);
         assert!(!bins.is_empty());
 
         let delta = (limits.1 - limits.0) / bins.len() as NumT;
-- 
2.43.0


From 4f4ce988d0906fcf28015c540f45b82d5b08b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:12 +0000
Subject: [PATCH 08/18] fix: keep everything after the first '=' of an option
 record

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 2523bd0..f80c327 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -66,7 +66,7 @@ macro_rules! parse_config {
             }
 
             fn parse_record_str<'a>(&mut self, line: &'a str) -> Result<(), String> {
-                let mut iter = line.split('=');
+                let mut iter = line.splitn(2, '='); // the value can contain '='
                 let name = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 let value = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 self.parse_record(name.trim(), value.trim())?;
-- 
2.43.0


From 06c45e6ed6f677e12b688fd61711eb79dcdbbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 09/18] fix: data without any records is an error, not a panic

---
 src/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index d457d67..42435a5 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -92,6 +92,10 @@ impl Data {
             record_count += 1;
         }
 
+        if record_count == 0 {
+            return Err("CSV error: no records".to_string());
+        }
+
         // update feature types to high cardinality categorical if cards exceeds max_nbins
         for j in 0..record_len {
             if cards[j] > config.max_nbins {
-- 
2.43.0


From 9793a91699f33d7afc6763ec63446de9867140fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 10/18] fix: limits and cardinality of a replaced column
 describe its new values

---
 src/data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index 42435a5..5b072b6 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -158,6 +158,8 @@ impl Data {
         let flim = &mut self.limits[feat_id];
         let card = &mut self.cards[feat_id];
         assert_eq!(feat.len(), self.nexamples);
+        *flim = (POS_INF, NEG_INF);
+        *card = 0;
         for i in 0..self.nexamples {
             let value = data[i];
             feat[i] = value;
-- 
2.43.0


From 7ced7e1014b71c006e3325cea8c04ee0c02413d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 11/18] fix: a column replaced by numerical values becomes
 numerical

---
 src/data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index 5b072b6..e6c7f08 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -176,6 +176,8 @@ impl Data {
             } else {
                 self.ftypes[feat_id] = FeatType::LoCardCat;
             }
+        } else {
+            self.ftypes[feat_id] = FeatType::Numerical;
         }
         Ok(())
     }
-- 
2.43.0


From 4343f459e0d02b6c946f3ad0ca8a37e5ea0cfe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 12/18] fix: infinite and too large categorical values are
 errors

---
 src/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index e6c7f08..c573212 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -10,7 +10,7 @@ use std::fs::File;
 
 use csv;
 
-use crate::{NumT, POS_INF, NEG_INF, into_cat};
+use crate::{NumT, CatT, POS_INF, NEG_INF, into_cat};
 use crate::config::Config;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -212,7 +212,7 @@ impl Data {
     }
 
     fn check_categorical_value(value: NumT) -> Result<(), String> {
-        if value.round() != value || value < 0.0 {
+        if value.round() != value || value < 0.0 || value >= CatT::max_value() as NumT {
             Err(format!("Invalid categorical value {}", value))
         } else {
             Ok(())
-- 
2.43.0


From 09b252154f85a06f8b0bb61f7e04c0f37fa5067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 13/18] fix: bb_alloc returns null when the context cannot be
 allocated

---
 src/c_api.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c_api.rs b/src/c_api.rs
index 76c9eee..17d341d 100644
--- a/src/c_api.rs
+++ b/src/c_api.rs
@@ -41,6 +41,7 @@ impl Context {
     unsafe fn alloc(nfeatures: usize) -> *mut Context {
         let layout = Layout::new::<Context>();
         let ptr = alloc(layout) as *mut c_void;
+        assert!(!ptr.is_null(), "out of memory");
 
         let config = Config::new();
 
-- 
2.43.0


From 0ded1d4cf653a979277f8939916649ee630c80d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 14/18] fix: report non-UTF-8 command line arguments as an
 error instead of panicking

---
 src/bin/run.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/run.rs b/src/bin/run.rs
index 969a3c3..2350ad6 100644
--- a/src/bin/run.rs
+++ b/src/bin/run.rs
@@ -24,7 +24,9 @@ use bitboost::boost::Booster;
 pub fn main() -> Result<(), String> {
     pretty_env_logger::init();
 
-    let args: Vec<String> = env::args().collect();
+    let args = env::args_os().map(|x| x.into_string())
+        .collect::<Result<Vec<String>, _>>()
+        .map_err(|x| format!("argument is not valid UTF-8: {:?}", x))?;
     match args.get(1).map(|x| x.as_str()) {
         Some("tree")  => {
             let (conf, d_train, d_test, mut obj, ms) = parse(&args[2..])?;
-- 
2.43.0


From 39526619fe161d88742f71ed05ec8930f2f82f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:05 +0000
Subject: [PATCH 15/18] fix: reject data files without features, or with fewer
 columns than the training file

---
 src/bin/run.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bin/run.rs b/src/bin/run.rs
index 2350ad6..4dfba84 100644
--- a/src/bin/run.rs
+++ b/src/bin/run.rs
@@ -89,8 +89,17 @@ fn load_data(config: &Config) -> Result<(Data, Option<Data>), String> {
     //}).map_err(|_| "thread error".to_string())?;
 
     let train_data = train_data_res?;
+    if train_data.nfeatures() == 0 {
+        return Err(format!("no feature columns in '{}'", config.train));
+    }
     let test_data = match test_data_res {
-        Some(res) => Some(res?),
+        Some(res) => {
+            let data = res?;
+            if data.nfeatures() < train_data.nfeatures() {
+                return Err(format!("fewer columns in '{}' than in '{}'", config.test, config.train));
+            }
+            Some(data)
+        },
         None => None
     };
 
-- 
2.43.0


From 534013635f32af772b359414b59a7a802a864871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:12 +0000
Subject: [PATCH 16/18] fix: Python binding reports failures of the library and
 checks data lengths

---
 python/bitboost/bitboost.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 39fc3ee..18adb61 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -97,6 +97,8 @@ class RawBitBoost:
         self._nfeatures = nfeatures
         self._nexamples = -1 # set by set_data
         self._ctx_ptr = self._rust_alloc(self._nfeatures)
+        if not self._ctx_ptr:
+            raise Exception("could not create BitBoost context")
 
     def __del__(self):
         if self._ctx_ptr:
@@ -111,16 +113,21 @@ class RawBitBoost:
         if not self._ctx_ptr:
             raise Exception("no BitBoost context")
 
+    def _check_result(self, result):
+        if result != 0:
+            raise Exception("BitBoost library call failed")
+
     def set_feature_data(self, feat_id, data, is_categorical):
         self._check()
         assert isinstance(data, np.ndarray)
         assert data.dtype == self.numt
+        assert data.shape == (self._nexamples,)
         assert 0 <= feat_id and feat_id <= self._nfeatures
         assert isinstance(is_categorical, bool) 
         data = data.copy() # make copy to ensure congiguous, not optimal
         data_ptr = data.ctypes.data_as(self.numt_p)
         is_cat = 1 if is_categorical else 0
-        self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat)
+        self._check_result(self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat))
 
     def set_data(self, data, cat_features = set()):
         self._check()
@@ -128,8 +135,8 @@ class RawBitBoost:
         assert data.dtype == self.numt
         assert data.shape[1] == self._nfeatures
 
+        self._check_result(self._rust_refresh_data(self._ctx_ptr, data.shape[0]))
         self._nexamples = data.shape[0]
-        self._rust_refresh_data(self._ctx_ptr, self._nexamples)
 
         for feat_id in range(self._nfeatures):
             is_cat = feat_id in cat_features
@@ -146,7 +153,7 @@ class RawBitBoost:
                 value = ",".join(map(str, value))
         n = c_char_p(bytes(str(name), "utf8"))
         v = c_char_p(bytes(str(value), "utf8"))
-        self._rust_set_config_field(self._ctx_ptr, n, v)
+        self._check_result(self._rust_set_config_field(self._ctx_ptr, n, v))
 
     def set_config(self, values):
         self._check()
@@ -156,14 +163,14 @@ class RawBitBoost:
 
     def train(self):
         self._check()
-        self._rust_train(self._ctx_ptr)
+        self._check_result(self._rust_train(self._ctx_ptr))
 
     def predict(self):
         self._check()
         assert self._nexamples > 0
         output = np.zeros(self._nexamples, dtype=self.numt)
         output_ptr = output.ctypes.data_as(self.numt_p)
-        self._rust_predict(self._ctx_ptr, output_ptr)
+        self._check_result(self._rust_predict(self._ctx_ptr, output_ptr))
         return output
 
     def write_model(self):
-- 
2.43.0


From 5d838ffa72b77c256056344b1c486cd86c80262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 17/18] fix: SliceStore views cover only the initialised part
 of the buffer, not its whole capacity

---
 src/slice_store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slice_store.rs b/src/slice_store.rs
index 0be79c9..38c4b10 100644
--- a/src/slice_store.rs
+++ b/src/slice_store.rs
@@ -124,11 +124,11 @@ where T: Clone {
     }
 
     fn buffer(&self) -> &[T] {
-        unsafe { slice::from_raw_parts(self.ptr, self.capacity) }
+        unsafe { slice::from_raw_parts(self.ptr, self.len) }
     }
 
     fn buffer_mut(&mut self) -> &mut [T] {
-        unsafe { slice::from_raw_parts_mut(self.ptr, self.capacity) }
+        unsafe { slice::from_raw_parts_mut(self.ptr, self.len) }
     }
 }
 
-- 
2.43.0


From f3139f3feb5d3f91ecf334062dc8b5c83b767d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:51 +0000
Subject: [PATCH 18/18] fix: Bitset::disable_bit enabled the bit

---
 src/bitset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitset.rs b/src/bitset.rs
index 3e36f45..046dfc5 100644
--- a/src/bitset.rs
+++ b/src/bitset.rs
@@ -49,7 +49,7 @@ impl Bitset {
     pub fn disable_bit(&mut self, index: usize) {
         let i = index / BitBlock::nbits();
         let j = index % BitBlock::nbits();
-        self.blocks[i].enable_bit(j)
+        self.blocks[i].disable_bit(j)
     }
 }
 
-- 
2.43.0

