From 44dd4e70d6bca0c6d548d06386a42f58bfc213ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 01/11] fix: keep the newest blocks when the maximum history is
 changed

Setting a maximum history larger than the current number of blocks filled
the history up with energies of 0.0, which lowered the relative threshold
and the loudness range, and setting a smaller one did not drop any blocks
and disabled the limit altogether.
---
 src/history.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index de97a0e..6461901 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -179,9 +179,10 @@ impl Queue {
     }
 
     fn set_max_size(&mut self, max: usize) {
-        if self.queue.len() < max {
-            // FIXME: Use shrink() once stabilized
-            self.queue.resize(max, 0.0);
+        // Only keep the newest elements if there are more than the new maximum
+        if self.queue.len() > max {
+            let excess = self.queue.len() - max;
+            self.queue.drain(..excess);
             self.queue.shrink_to_fit();
         }
         self.max = max;
-- 
2.43.0


From 83526284e2853c2018d1abd7dc9153f22b73e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 02/11] fix: make the audio buffer large enough for all blocks
 at very low sample rates

At sample rates below 150Hz the buffer could be smaller than the 400ms or 3s
blocks, counted in multiples of the rounded 100ms block size. This caused
adding frames to panic or return an error.
---
 src/ebur128.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index ff7b88c..886fedf 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -265,6 +265,14 @@ impl EbuR128 {
         let samples_in_100ms = (rate as usize + 5) / 10;
 
         let mut audio_data_frames = (rate as usize).checked_mul(window).ok_or(Error::NoMem)? / 1000;
+        // samples_in_100ms might be rounded up, and with very low rates this would make the window
+        // smaller than the blocks that are measured over it
+        audio_data_frames = std::cmp::max(
+            audio_data_frames,
+            samples_in_100ms
+                .checked_mul(window / 100)
+                .ok_or(Error::NoMem)?,
+        );
         if audio_data_frames % samples_in_100ms != 0 {
             // round up to multiple of samples_in_100ms
             audio_data_frames = audio_data_frames
-- 
2.43.0


From 647023e3d5029a5caa5966cae3f94582d4a2ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 03/11] fix: return an error instead of panicking on planar
 input with a wrong channel count

---
 src/ebur128.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 886fedf..235f9fc 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -580,7 +580,7 @@ impl EbuR128 {
             return Ok(());
         }
 
-        if self.channels == 0 {
+        if src.channels() != self.channels as usize {
             return Err(Error::NoMem);
         }
 
@@ -668,8 +668,17 @@ impl EbuR128 {
         Ok(())
     }
 
-    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(&mut self, src: S) {
+    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(
+        &mut self,
+        src: S,
+    ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         self.filter.seed(src, &self.channel_map);
+
+        Ok(())
     }
 
     /// Add interleaved frames to be processed.
@@ -715,57 +724,49 @@ impl EbuR128 {
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i16(&mut self, frames: &[i16]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i32(&mut self, frames: &[i32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f32(&mut self, frames: &[f32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f64(&mut self, frames: &[f64]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i16(&mut self, frames: &[&[i16]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i32(&mut self, frames: &[&[i32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f32(&mut self, frames: &[&[f32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f64(&mut self, frames: &[&[f64]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Get global integrated loudness in LUFS.
-- 
2.43.0


From 5586875cdc98baca282afad20391935e7ce1b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 04/11] fix: return NoMem if the audio buffer can't be
 allocated

Previously the process was aborted, e.g. when setting a very long maximum
window.
---
 src/ebur128.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 235f9fc..1b31fd0 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -281,15 +281,17 @@ impl EbuR128 {
                 - (audio_data_frames % samples_in_100ms);
         }
 
-        let audio_data = vec![
-            0.0;
-            audio_data_frames
-                .checked_mul(channels as usize)
-                .ok_or(Error::NoMem)?
-        ]
-        .into_boxed_slice();
+        let audio_data_len = audio_data_frames
+            .checked_mul(channels as usize)
+            .ok_or(Error::NoMem)?;
+
+        let mut audio_data = Vec::new();
+        audio_data
+            .try_reserve_exact(audio_data_len)
+            .map_err(|_| Error::NoMem)?;
+        audio_data.resize(audio_data_len, 0.0);
 
-        Ok(audio_data)
+        Ok(audio_data.into_boxed_slice())
     }
 
     /// Create a new instance with the given configuration.
-- 
2.43.0


From 5ad53f1fa86804d25e82a4264ea3c78fcfc0b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 05/11] fix: only require 3s of maximum history if the loudness
 range is measured

This is what the documentation says and what the C implementation does.
---
 src/ebur128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 1b31fd0..11ef8c3 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -532,7 +532,7 @@ impl EbuR128 {
     /// Default is `ULONG_MAX` (at least ~50 days). Minimum is 3000ms for `Mode::LRA` and 400ms
     /// for `Mode::M`.
     pub fn set_max_history(&mut self, history: u32) -> Result<(), Error> {
-        let history = if self.mode.contains(Mode::S) {
+        let history = if self.mode.contains(Mode::LRA) {
             std::cmp::max(history, 3000)
         } else if self.mode.contains(Mode::M) {
             std::cmp::max(history, 400)
-- 
2.43.0


From 647e71ad7812202639cdabcc5b5ee9197493429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 06/11] fix: don't access the rolling buffer via a pointer to a
 single element

The pointer was derived from a reference to one element only, so reading the
other elements through it was undefined behaviour.
---
 src/interp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/interp.rs b/src/interp.rs
index 2111e67..c1cc695 100644
--- a/src/interp.rs
+++ b/src/interp.rs
@@ -65,7 +65,12 @@ impl<T, const N: usize> AsRef<[T; N]> for RollingBuffer<T, N> {
     fn as_ref(&self) -> &[T; N] {
         // this is safe, since self.position is always kept below N, which is checked at creation
         // to be `<= buf.size() / 2`
-        unsafe { &*(self.buf.get_unchecked(self.position) as *const T as *const [T; N]) }
+        unsafe {
+            &*(self
+                .buf
+                .get_unchecked(self.position..self.position + N)
+                .as_ptr() as *const [T; N])
+        }
     }
 }
 
-- 
2.43.0


From 752583e729ac1bdf560a64928ffdd149491975bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 07/11] fix: don't truncate too large sample rates in the C API

---
 src/capi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 34142a4..8cdf54d 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -26,6 +26,10 @@ pub unsafe extern "C" fn ebur128_init(
     // Same values as our Mode enum
     mode: i32,
 ) -> *mut State {
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ptr::null_mut();
+    }
+
     let e = match ebur128::EbuR128::new(
         channels,
         samplerate as u32,
@@ -100,6 +104,10 @@ pub unsafe extern "C" fn ebur128_change_parameters(
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     let e = &mut *s.internal;
 
     match e.change_parameters(channels, samplerate as u32) {
-- 
2.43.0


From 453efdc076915ffaab700104c45486bde3d529b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 08/11] fix: return an error for invalid channel types in the C
 API

---
 src/capi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 8cdf54d..317df93 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -80,6 +80,11 @@ pub unsafe extern "C" fn ebur128_set_channel(
     channel_number: u32,
     value: i32,
 ) -> i32 {
+    // Anything else is not a valid Channel
+    if !(ebur128::Channel::Unused as i32..=ebur128::Channel::Bm045 as i32).contains(&value) {
+        return ebur128::Error::InvalidChannelIndex.into();
+    }
+
     let s = &mut *state;
     let e = &mut *s.internal;
 
-- 
2.43.0


From 9ee4cfb026455bf0b592fcd1d383172a8e92d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 09/11] fix: allow NULL pointers for empty input in the C API

---
 src/capi.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 317df93..dacc9c2 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1,6 +1,15 @@
 use crate::ebur128;
 
-use std::{mem, ptr};
+use std::{mem, ptr, slice};
+
+// Slice for the given pointer and length, the pointer might be NULL if the length is 0
+unsafe fn slice_from_ptr<'a, T>(ptr: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        return &[];
+    }
+
+    slice::from_raw_parts(ptr, len)
+}
 
 // ABI compatible with ebur128_state
 #[repr(C)]
@@ -175,8 +184,6 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
     src: *const i16,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -185,7 +192,7 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i16(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i16(slice_from_ptr(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -197,8 +204,6 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
     src: *const i32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -207,7 +212,7 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i32(slice_from_ptr(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -219,8 +224,6 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
     src: *const f32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -229,7 +232,7 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f32(slice_from_ptr(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -241,8 +244,6 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
     src: *const f64,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -251,7 +252,7 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f64(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f64(slice_from_ptr(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -277,9 +278,7 @@ pub unsafe extern "C" fn ebur128_loudness_global_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_ptr(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_global_multiple(iter) {
@@ -361,9 +360,7 @@ pub unsafe extern "C" fn ebur128_loudness_range_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_ptr(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_range_multiple(iter) {
-- 
2.43.0


From 557dc2e716d0a335d1ea3ad82cecc10022e46f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 10/11] fix: return NO_CHANGE if clamping leaves the maximum
 window/history unchanged in the C API

---
 src/capi.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index dacc9c2..fdea0cf 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -146,12 +146,11 @@ pub unsafe extern "C" fn ebur128_set_max_window(
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_window() == window as usize {
-        return 4; // EBUR128_ERROR_NO_CHANGE
-    }
+    let old_window = e.max_window();
 
     match e.set_max_window(window as u32) {
         Err(err) => err.into(),
+        Ok(_) if e.max_window() == old_window => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
@@ -168,12 +167,11 @@ pub unsafe extern "C" fn ebur128_set_max_history(
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_history() == history as usize {
-        return 4; // EBUR128_ERROR_NO_CHANGE
-    }
+    let old_history = e.max_history();
 
     match e.set_max_history(history as u32) {
         Err(err) => err.into(),
+        Ok(_) if e.max_history() == old_history => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
-- 
2.43.0


From e8d6724207504002dddd68061d7f28d227bc47f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:43 +0000
Subject: [PATCH 11/11] fix: C API returned NOMEM instead of INVALID_MODE for
 windows that don't fit 32 bits

---
 src/capi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index fdea0cf..58e2af7 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -325,8 +325,9 @@ pub unsafe extern "C" fn ebur128_loudness_window(
     let s = &*state;
     let e = &*s.internal;
 
+    // Larger than any possible maximum window
     if window > u32::MAX as std::os::raw::c_ulong {
-        return ebur128::Error::NoMem.into();
+        return ebur128::Error::InvalidMode.into();
     }
 
     match e.loudness_window(window as u32) {
-- 
2.43.0

