From 4b8e332276efe5c66e41c93095999b6100ab4ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 01/66] fix: report truncated and overlong ULEB128 integers as
 errors

---
 src/encoding/uleb128.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/encoding/uleb128.rs b/src/encoding/uleb128.rs
index 5ca261e..4da4814 100644
--- a/src/encoding/uleb128.rs
+++ b/src/encoding/uleb128.rs
@@ -8,18 +8,18 @@ pub fn decode(values: &[u8]) -> Result<(u64, usize), Error> {
     for byte in values {
         consumed += 1;
         if shift == 63 && *byte > 1 {
-            panic!()
+            return Err(Error::oos("ULEB128 integer does not fit in 64 bits"));
         };
 
         result |= u64::from(byte & 0b01111111) << shift;
 
         if byte & 0b10000000 == 0 {
-            break;
+            return Ok((result, consumed));
         }
 
         shift += 7;
     }
-    Ok((result, consumed))
+    Err(Error::oos("ULEB128 integer is truncated"))
 }
 
 /// Encodes `value` in ULEB128 into `container`. The exact number of bytes written
-- 
2.43.0


From 0e092f6a17a1f79bad5c682b3a50e6e3cbbde23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 02/66] fix: reject bit widths and lengths that
 bitpacked::Decoder cannot unpack

---
 src/encoding/bitpacked/decode.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/encoding/bitpacked/decode.rs b/src/encoding/bitpacked/decode.rs
index fa3f6a9..89f4e65 100644
--- a/src/encoding/bitpacked/decode.rs
+++ b/src/encoding/bitpacked/decode.rs
@@ -28,16 +28,23 @@ fn decode_pack<T: Unpackable>(packed: &[u8], num_bits: usize, unpacked: &mut T::
 impl<'a, T: Unpackable> Decoder<'a, T> {
     /// Returns a [`Decoder`] with `T` encoded in `packed` with `num_bits`.
     pub fn try_new(packed: &'a [u8], num_bits: usize, mut length: usize) -> Result<Self, Error> {
-        let block_size = std::mem::size_of::<T>() * num_bits;
-
         if num_bits == 0 {
             return Err(Error::oos("Bitpacking requires num_bits > 0"));
         }
 
-        if packed.len() * 8 < length * num_bits {
+        if num_bits > std::mem::size_of::<T>() * 8 {
+            return Err(Error::oos(format!(
+                "Bitpacking with a number of bits {num_bits} does not fit the type."
+            )));
+        }
+
+        let block_size = std::mem::size_of::<T>() * num_bits;
+
+        let required_bits = length.saturating_mul(num_bits);
+        if packed.len() * 8 < required_bits {
             return Err(Error::oos(format!(
                 "Unpacking {length} items with a number of bits {num_bits} requires at least {} bytes.",
-                length * num_bits / 8
+                required_bits / 8
             )));
         }
 
-- 
2.43.0


From 8ad1ba9e1e3aa493187329c74122afa62349552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 03/66] fix: hybrid RLE decoders return errors on malformed
 runs instead of panicking

---
 src/encoding/hybrid_rle/decoder.rs | 11 ++++++--
 src/encoding/hybrid_rle/mod.rs     | 41 +++++++++++++++++-------------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/encoding/hybrid_rle/decoder.rs b/src/encoding/hybrid_rle/decoder.rs
index 2dae52b..2bac3cd 100644
--- a/src/encoding/hybrid_rle/decoder.rs
+++ b/src/encoding/hybrid_rle/decoder.rs
@@ -38,7 +38,10 @@ impl<'a> Iterator for Decoder<'a> {
 
         let (indicator, consumed) = match uleb128::decode(self.values) {
             Ok((indicator, consumed)) => (indicator, consumed),
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.values = &[];
+                return Some(Err(e));
+            }
         };
         self.values = &self.values[consumed..];
         if self.values.is_empty() {
@@ -47,7 +50,7 @@ impl<'a> Iterator for Decoder<'a> {
 
         if indicator & 1 == 1 {
             // is bitpacking
-            let bytes = (indicator as usize >> 1) * self.num_bits;
+            let bytes = (indicator as usize >> 1).saturating_mul(self.num_bits);
             let bytes = std::cmp::min(bytes, self.values.len());
             let (result, remaining) = self.values.split_at(bytes);
             self.values = remaining;
@@ -57,6 +60,10 @@ impl<'a> Iterator for Decoder<'a> {
             let run_length = indicator as usize >> 1;
             // repeated-value := value that is repeated, using a fixed-width of round-up-to-next-byte(bit-width)
             let rle_bytes = ceil8(self.num_bits);
+            if rle_bytes > self.values.len() {
+                self.values = &[];
+                return Some(Err(Error::oos("RLE run is missing its repeated value")));
+            }
             let (result, remaining) = self.values.split_at(rle_bytes);
             self.values = remaining;
             Some(Ok(HybridEncoded::Rle(result, run_length)))
diff --git a/src/encoding/hybrid_rle/mod.rs b/src/encoding/hybrid_rle/mod.rs
index 5886f46..cb29d57 100644
--- a/src/encoding/hybrid_rle/mod.rs
+++ b/src/encoding/hybrid_rle/mod.rs
@@ -66,6 +66,11 @@ fn read_next<'a, 'b>(decoder: &'b mut Decoder<'a>, remaining: usize) -> Result<S
 impl<'a> HybridRleDecoder<'a> {
     /// Returns a new [`HybridRleDecoder`]
     pub fn try_new(data: &'a [u8], num_bits: u32, num_values: usize) -> Result<Self, Error> {
+        if num_bits > 32 {
+            return Err(Error::oos(
+                "The bit width of hybrid-RLE encoded u32 cannot be larger than 32",
+            ));
+        }
         let num_bits = num_bits as usize;
         let mut decoder = Decoder::new(data, num_bits);
         let state = read_next(&mut decoder, num_values)?;
@@ -84,26 +89,28 @@ impl<'a> Iterator for HybridRleDecoder<'a> {
         if self.remaining == 0 {
             return None;
         };
-        let result = match &mut self.state {
-            State::Single(opt_val) => {
-                // make sure to take so that next calls will return 'None'
-                // indicating that the iterator is finished.
-                opt_val.take()
+        loop {
+            let result = match &mut self.state {
+                State::Single(opt_val) => {
+                    // make sure to take so that next calls will return 'None'
+                    // indicating that the iterator is finished.
+                    opt_val.take()
+                }
+                State::Bitpacked(decoder) => decoder.next(),
+                State::Rle(iter) => iter.next(),
+                State::None => Some(0),
+            };
+            if let Some(result) = result {
+                self.remaining -= 1;
+                return Some(Ok(result));
             }
-            State::Bitpacked(decoder) => decoder.next(),
-            State::Rle(iter) => iter.next(),
-            State::None => Some(0),
-        };
-        if let Some(result) = result {
-            self.remaining -= 1;
-            Some(Ok(result))
-        } else {
             match read_next(&mut self.decoder, self.remaining) {
-                Ok(state) => {
-                    self.state = state;
-                    self.next()
+                Ok(state) => self.state = state,
+                Err(e) => {
+                    // nothing can be decoded past this point
+                    self.remaining = 0;
+                    return Some(Err(e));
                 }
-                Err(e) => Some(Err(e)),
             }
         }
     }
-- 
2.43.0


From 85c33194256cd9d65890c701d2e9628935569336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 04/66] fix: HybridRleBooleanIter continues past its first run
 and reports its exact length

---
 src/deserialize/hybrid_rle.rs | 57 ++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/deserialize/hybrid_rle.rs b/src/deserialize/hybrid_rle.rs
index 4f457f3..4bfd384 100644
--- a/src/deserialize/hybrid_rle.rs
+++ b/src/deserialize/hybrid_rle.rs
@@ -162,41 +162,48 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(run) = &mut self.current_run {
-            match run {
-                HybridBooleanState::Bitmap(bitmap) => bitmap.next().map(Ok),
-                HybridBooleanState::Repeated(value, remaining) => if *remaining == 0 {
-                    None
-                } else {
-                    *remaining -= 1;
-                    Some(*value)
+        loop {
+            if let Some(run) = &mut self.current_run {
+                let value = match run {
+                    HybridBooleanState::Bitmap(bitmap) => bitmap.next(),
+                    HybridBooleanState::Repeated(value, remaining) => {
+                        if *remaining == 0 {
+                            None
+                        } else {
+                            *remaining -= 1;
+                            Some(*value)
+                        }
+                    }
+                };
+                if let Some(value) = value {
+                    return Some(Ok(value));
                 }
-                .map(Ok),
+                // the run is exhausted => continue with the next one
+                self.current_run = None;
             }
-        } else if let Some(run) = self.iter.next() {
-            let run = run.map(|run| match run {
-                HybridEncoded::Bitmap(bitmap, length) => {
-                    HybridBooleanState::Bitmap(BitmapIter::new(bitmap, 0, length))
-                }
-                HybridEncoded::Repeated(value, length) => {
-                    HybridBooleanState::Repeated(value, length)
+
+            match self.iter.next()? {
+                Ok(HybridEncoded::Bitmap(bitmap, length)) => {
+                    self.current_run = Some(HybridBooleanState::Bitmap(BitmapIter::new(
+                        bitmap, 0, length,
+                    )));
                 }
-            });
-            match run {
-                Ok(run) => {
-                    self.current_run = Some(run);
-                    self.next()
+                Ok(HybridEncoded::Repeated(value, length)) => {
+                    self.current_run = Some(HybridBooleanState::Repeated(value, length));
                 }
-                Err(e) => Some(Err(e)),
+                Err(e) => return Some(Err(e)),
             }
-        } else {
-            None
         }
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let exact = self.iter.number_of_elements();
+        let current = match &self.current_run {
+            Some(HybridBooleanState::Bitmap(bitmap)) => bitmap.size_hint().0,
+            Some(HybridBooleanState::Repeated(_, remaining)) => *remaining,
+            None => 0,
+        };
+        let exact = current + self.iter.number_of_elements();
         (exact, Some(exact))
     }
 }
-- 
2.43.0


From c07c638ec3c4d35e079e7eba99d4f0d8386438d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 05/66] fix: DELTA_BINARY_PACKED uses wrapping arithmetic as
 the format requires

---
 src/encoding/delta_bitpacked/decoder.rs | 11 ++++++-----
 src/encoding/delta_bitpacked/encoder.rs |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index 86ce6c7..48605c2 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -99,12 +99,13 @@ impl<'a> Iterator for Block<'a> {
         if self.remaining == 0 {
             return None;
         }
-        let result = self.min_delta
-            + self
-                .current_miniblock
+        // deltas wrap around the range of the integer
+        let result = self.min_delta.wrapping_add(
+            self.current_miniblock
                 .as_mut()
                 .map(|x| x.next().unwrap_or_default())
-                .unwrap_or(0) as i64;
+                .unwrap_or(0) as i64,
+        );
         self.current_index += 1;
         self.remaining -= 1;
 
@@ -234,7 +235,7 @@ impl<'a> Iterator for Decoder<'a> {
             Err(e) => return Some(Err(e)),
         };
 
-        self.next_value += delta;
+        self.next_value = self.next_value.wrapping_add(delta);
         result
     }
 
diff --git a/src/encoding/delta_bitpacked/encoder.rs b/src/encoding/delta_bitpacked/encoder.rs
index 7fa3b4a..fde07f9 100644
--- a/src/encoding/delta_bitpacked/encoder.rs
+++ b/src/encoding/delta_bitpacked/encoder.rs
@@ -37,11 +37,11 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let mut max_delta = i64::MIN;
         let mut num_bits = 0;
         for (i, integer) in (0..128).zip(&mut iterator) {
-            let delta = integer - prev;
+            let delta = integer.wrapping_sub(prev);
             min_delta = min_delta.min(delta);
             max_delta = max_delta.max(delta);
 
-            num_bits = 64 - (max_delta - min_delta).leading_zeros();
+            num_bits = 64 - max_delta.wrapping_sub(min_delta).leading_zeros();
             values[i] = delta;
             prev = integer;
         }
@@ -50,7 +50,7 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let values = &values[..consumed];
 
         values.iter().zip(deltas.iter_mut()).for_each(|(v, delta)| {
-            *delta = (v - min_delta) as u64;
+            *delta = v.wrapping_sub(min_delta) as u64;
         });
 
         // <min delta> <list of bitwidths of miniblocks> <miniblocks>
-- 
2.43.0


From ae7ad65fe7b0d7777b90633065215e32883c301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 06/66] fix: DELTA_BINARY_PACKED decoder returns errors on
 malformed streams instead of panicking

---
 src/encoding/delta_bitpacked/decoder.rs | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index 48605c2..5ee3f45 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -71,7 +71,7 @@ impl<'a> Block<'a> {
         self.current_miniblock = if num_bits > 0 {
             let length = std::cmp::min(self.remaining, self.values_per_mini_block);
 
-            let miniblock_length = ceil8(self.values_per_mini_block * num_bits);
+            let miniblock_length = ceil8(self.values_per_mini_block.saturating_mul(num_bits));
             if miniblock_length > self.values.len() {
                 return Err(Error::oos(
                     "block must contain at least miniblock_length bytes (the mini block)",
@@ -82,7 +82,7 @@ impl<'a> Block<'a> {
             self.values = remainder;
             self.consumed_bytes += miniblock_length;
 
-            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length).unwrap())
+            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length)?)
         } else {
             None
         };
@@ -139,7 +139,9 @@ impl<'a> Decoder<'a> {
         let mut consumed_bytes = 0;
         let (block_size, consumed) = uleb128::decode(values)?;
         consumed_bytes += consumed;
-        assert_eq!(block_size % 128, 0);
+        if block_size % 128 != 0 {
+            return Err(Error::oos("The block size must be a multiple of 128"));
+        }
         values = &values[consumed..];
         let (num_mini_blocks, consumed) = uleb128::decode(values)?;
         let num_mini_blocks = num_mini_blocks as usize;
@@ -153,8 +155,18 @@ impl<'a> Decoder<'a> {
         consumed_bytes += consumed;
         values = &values[consumed..];
 
+        if num_mini_blocks == 0 {
+            return Err(Error::oos("The number of mini blocks cannot be zero"));
+        }
         let values_per_mini_block = block_size as usize / num_mini_blocks;
-        assert_eq!(values_per_mini_block % 8, 0);
+        if values_per_mini_block % 8 != 0 {
+            return Err(Error::oos(
+                "The number of values per mini block must be a multiple of 8",
+            ));
+        }
+        if values_per_mini_block == 0 && total_count > 1 {
+            return Err(Error::oos("The mini blocks cannot be empty"));
+        }
 
         // If we only have one value (first_value), there are no blocks.
         let current_block = if total_count > 1 {
@@ -232,7 +244,11 @@ impl<'a> Iterator for Decoder<'a> {
 
         let delta = match self.load_delta() {
             Ok(delta) => delta,
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // nothing can be decoded past this point
+                self.values_remaining = 0;
+                return Some(Err(e));
+            }
         };
 
         self.next_value = self.next_value.wrapping_add(delta);
-- 
2.43.0


From 63c86417f53643b61a924f1f7d67c760d4b5a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 07/66] fix: DELTA_BYTE_ARRAY encoder handles an item that is a
 prefix of its predecessor

---
 src/encoding/delta_byte_array/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoding/delta_byte_array/encoder.rs b/src/encoding/delta_byte_array/encoder.rs
index 10f6511..e3c0953 100644
--- a/src/encoding/delta_byte_array/encoder.rs
+++ b/src/encoding/delta_byte_array/encoder.rs
@@ -16,7 +16,7 @@ pub fn encode<'a, I: Iterator<Item = &'a [u8]> + Clone>(iterator: I, buffer: &mu
                 .enumerate()
                 // find first difference
                 .find_map(|(length, (lhs, rhs))| (lhs != rhs).then_some(length))
-                .unwrap_or(previous.len());
+                .unwrap_or(previous.len().min(item.len()));
             previous = item;
 
             sum_lengths += item.len() - prefix_length;
-- 
2.43.0


From 7249e1bd632a9fed99b3ac83cf3962e63fcbd038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 08/66] fix: DELTA_LENGTH_BYTE_ARRAY decoder rejects lengths
 that exceed the values

---
 .../delta_length_byte_array/decoder.rs        | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/encoding/delta_length_byte_array/decoder.rs b/src/encoding/delta_length_byte_array/decoder.rs
index cdedd09..0b029bc 100644
--- a/src/encoding/delta_length_byte_array/decoder.rs
+++ b/src/encoding/delta_length_byte_array/decoder.rs
@@ -33,6 +33,8 @@ pub struct Decoder<'a> {
     values: &'a [u8],
     lengths: delta_bitpacked::Decoder<'a>,
     total_length: u32,
+    // whether a length was invalid, in which case nothing else can be decoded
+    failed: bool,
 }
 
 impl<'a> Decoder<'a> {
@@ -42,6 +44,7 @@ impl<'a> Decoder<'a> {
             values,
             lengths,
             total_length: 0,
+            failed: false,
         })
     }
 
@@ -68,11 +71,28 @@ impl<'a> Iterator for Decoder<'a> {
     type Item = Result<i32, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.failed {
+            return None;
+        }
         let result = self.lengths.next();
         match result {
             Some(Ok(v)) => {
-                self.total_length += v as u32;
-                Some(Ok(v as i32))
+                // the values follow the lengths; they must be within the buffer
+                let available = self.values.len() - self.lengths.consumed_bytes();
+                let total_length = i32::try_from(v)
+                    .ok()
+                    .and_then(|v| u32::try_from(v).ok())
+                    .and_then(|v| self.total_length.checked_add(v))
+                    .filter(|total_length| *total_length as usize <= available);
+                if let Some(total_length) = total_length {
+                    self.total_length = total_length;
+                    Some(Ok(v as i32))
+                } else {
+                    self.failed = true;
+                    Some(Err(Error::oos(
+                        "The lengths of DELTA_LENGTH_BYTE_ARRAY are out of range",
+                    )))
+                }
             }
             Some(Err(error)) => Some(Err(error)),
             None => None,
-- 
2.43.0


From da27559f706d50aa8a8446076d35be8c9d0a9c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 09/66] fix: BinaryIter ends after a string that is out of
 range

---
 src/encoding/plain_byte_array.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/encoding/plain_byte_array.rs b/src/encoding/plain_byte_array.rs
index d549e94..9cd64a2 100644
--- a/src/encoding/plain_byte_array.rs
+++ b/src/encoding/plain_byte_array.rs
@@ -30,6 +30,8 @@ impl<'a> Iterator for BinaryIter<'a> {
         let length = u32::from_le_bytes(self.values[0..4].try_into().unwrap()) as usize;
         self.values = &self.values[4..];
         if length > self.values.len() {
+            // nothing can be decoded past this point
+            self.values = &[];
             return Some(Err(Error::oos(
                 "A string in plain encoding declares a length that is out of range",
             )));
-- 
2.43.0


From fd8461464b7e4e440b03b48de7b4dc5e18d35ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 10/66] fix: split_buffer_v2 rejects level lengths that exceed
 the page

---
 src/page/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 03b5425..904abe2 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -403,10 +403,16 @@ pub fn split_buffer_v2(
     rep_level_buffer_length: usize,
     def_level_buffer_length: usize,
 ) -> Result<(&[u8], &[u8], &[u8])> {
+    let levels_length = rep_level_buffer_length.saturating_add(def_level_buffer_length);
+    if levels_length > buffer.len() {
+        return Err(Error::oos(
+            "The number of bytes declared in v2 levels is higher than the page size",
+        ));
+    }
     Ok((
         &buffer[..rep_level_buffer_length],
-        &buffer[rep_level_buffer_length..rep_level_buffer_length + def_level_buffer_length],
-        &buffer[rep_level_buffer_length + def_level_buffer_length..],
+        &buffer[rep_level_buffer_length..levels_length],
+        &buffer[levels_length..],
     ))
 }
 
-- 
2.43.0


From c588c937f0405eb932a02368bd539c07d9029db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 11/66] fix: report a dictionary-encoded page without bit width
 as an error

---
 src/deserialize/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 0d0135e..05c4928 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -15,7 +15,9 @@ pub(super) fn dict_indices_decoder(page: &DataPage) -> Result<hybrid_rle::Hybrid
 
     // SPEC: Data page format: the bit width used to encode the entry ids stored as 1 byte (max bit width = 32),
     // SPEC: followed by the values encoded using RLE/Bit packed described above (with the given bit width).
-    let bit_width = indices_buffer[0];
+    let bit_width = *indices_buffer
+        .first()
+        .ok_or_else(|| Error::oos("A dictionary-encoded page must contain the bit width"))?;
     if bit_width > 32 {
         return Err(Error::oos(
             "Bit width of dictionary pages cannot be larger than 32",
-- 
2.43.0


From 9419a834544177bdf47271c6b7dc12ee49b6f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 12/66] fix: SliceFilteredIter skips empty intervals

---
 src/deserialize/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 05c4928..0f9545b 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -125,6 +125,10 @@ impl<T, I: Iterator<Item = T>> Iterator for SliceFilteredIter<I> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_remaining == 0 {
+            // empty intervals select nothing
+            while matches!(self.selected_rows.front(), Some(x) if x.length == 0) {
+                self.selected_rows.pop_front();
+            }
             if let Some(interval) = self.selected_rows.pop_front() {
                 // skip the hole between the previous start and this start
                 // (start + length) - start
-- 
2.43.0


From bdc4d6071c80347d9b055c4dce5a84f27dacf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 13/66] fix: FixedLenBinaryPageState returns an error for
 values of size 0

---
 src/deserialize/fixed_len.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/deserialize/fixed_len.rs b/src/deserialize/fixed_len.rs
index 7aecda8..c194102 100644
--- a/src/deserialize/fixed_len.rs
+++ b/src/deserialize/fixed_len.rs
@@ -14,6 +14,8 @@ pub struct FixexBinaryIter<'a> {
 }
 
 impl<'a> FixexBinaryIter<'a> {
+    /// # Panics
+    /// This function panics iff `size == 0`.
     pub fn new(values: &'a [u8], size: usize) -> Self {
         let values = values.chunks_exact(size);
         Self { values }
@@ -76,6 +78,11 @@ impl<'a, P> FixedLenBinaryPageState<'a, P> {
                     .to_string(),
             ));
         };
+        if size == 0 {
+            return Err(Error::FeatureNotSupported(
+                "Viewing pages of FixedLenByteArray of size 0".to_string(),
+            ));
+        }
 
         match (page.encoding(), dict, is_optional) {
             (Encoding::PlainDictionary | Encoding::RleDictionary, Some(dict), false) => {
-- 
2.43.0


From 309a85a8fdbb3d8bab68588ebbac2f2e28232fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 14/66] fix: snappy and LZ4 reject content shorter than the
 declared length

---
 src/compression.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index bd7fd81..7cb89a2 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -162,7 +162,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             use snap::raw::{decompress_len, Decoder};
 
             let len = decompress_len(input_buf)?;
-            if len > output_buf.len() {
+            if len != output_buf.len() {
                 return Err(Error::OutOfSpec(String::from("snappy header out of spec")));
             }
             Decoder::new()
@@ -176,15 +176,9 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             "decompress with snappy".to_string(),
         )),
         #[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
-        Compression::Lz4Raw => lz4_flex::block::decompress_into(input_buf, output_buf)
-            .map(|_| {})
-            .map_err(|e| e.into()),
+        Compression::Lz4Raw => lz4_decompress_exact(input_buf, output_buf),
         #[cfg(feature = "lz4")]
-        Compression::Lz4Raw => {
-            lz4::block::decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
-                .map_err(|e| e.into())
-        }
+        Compression::Lz4Raw => lz4_decompress_exact(input_buf, output_buf),
         #[cfg(all(not(feature = "lz4"), not(feature = "lz4_flex")))]
         Compression::Lz4Raw => Err(Error::FeatureNotActive(
             crate::error::Feature::Lz4,
@@ -192,10 +186,8 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
         )),
 
         #[cfg(any(feature = "lz4_flex", feature = "lz4"))]
-        Compression::Lz4 => try_decompress_hadoop(input_buf, output_buf).or_else(|_| {
-            lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
-        }),
+        Compression::Lz4 => try_decompress_hadoop(input_buf, output_buf)
+            .or_else(|_| lz4_decompress_exact(input_buf, output_buf)),
 
         #[cfg(all(not(feature = "lz4_flex"), not(feature = "lz4")))]
         Compression::Lz4 => Err(Error::FeatureNotActive(
@@ -286,6 +278,16 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
     }
 }
 
+/// Decompresses an LZ4 block, erroring if it does not fill `output_buf`.
+#[cfg(any(feature = "lz4", feature = "lz4_flex"))]
+fn lz4_decompress_exact(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()> {
+    let size = lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)?;
+    if size != output_buf.len() {
+        return Err(Error::oos("unexpected decompressed size"));
+    }
+    Ok(())
+}
+
 #[cfg(all(feature = "lz4", not(feature = "lz4_flex")))]
 #[inline]
 fn lz4_decompress_to_buffer(
-- 
2.43.0


From 82fbdb12f285be2675f377c7808a513b32dab025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 15/66] fix: decompress gzip streams of more than one member

---
 src/compression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index 7cb89a2..35d2e75 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -149,7 +149,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
         #[cfg(feature = "gzip")]
         Compression::Gzip => {
             use std::io::Read;
-            let mut decoder = flate2::read::GzDecoder::new(input_buf);
+            let mut decoder = flate2::read::MultiGzDecoder::new(input_buf);
             decoder.read_exact(output_buf).map_err(|e| e.into())
         }
         #[cfg(not(feature = "gzip"))]
-- 
2.43.0


From 042bd445eab1fb62b221ffb17d4baacafecf9aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 16/66] fix: decompress all Hadoop LZ4 frames and require them
 to fill the output

---
 src/compression.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 35d2e75..22514b6 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -264,17 +264,15 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
         }
         input_len -= expected_compressed_size as usize;
         output_len -= expected_decompressed_size as usize;
-        if input_len > expected_compressed_size as usize {
-            input = &input[expected_compressed_size as usize..];
-            output = &mut output[expected_decompressed_size as usize..];
-        } else {
-            break;
-        }
+        input = &input[expected_compressed_size as usize..];
+        output = &mut output[expected_decompressed_size as usize..];
     }
-    if input_len == 0 {
-        Ok(())
-    } else {
+    if input_len != 0 {
         Err(Error::oos("Not all input are consumed"))
+    } else if output_len != 0 {
+        Err(Error::oos("unexpected decompressed size"))
+    } else {
+        Ok(())
     }
 }
 
-- 
2.43.0


From a239f72685747e26d78d092bac71e52608b42de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 17/66] fix: compress ignores the contents of the buffer it is
 given

---
 src/write/compression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index d8ead08..1961823 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -84,9 +84,11 @@ fn compress_dict(
 /// Errors if the compressor fails
 pub fn compress(
     page: Page,
-    compressed_buffer: Vec<u8>,
+    mut compressed_buffer: Vec<u8>,
     compression: CompressionOptions,
 ) -> Result<CompressedPage> {
+    // it is an intermediary buffer: what it holds is not part of the page
+    compressed_buffer.clear();
     match page {
         Page::Data(page) => {
             compress_data(page, compressed_buffer, compression).map(CompressedPage::Data)
-- 
2.43.0


From ea366b3bdf5414fcb1c05bd9fcf233f4e0b202f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 18/66] fix: V2 pages declared as not compressed are written
 uncompressed

---
 src/write/compression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index 1961823..b7f33c8 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -20,7 +20,12 @@ fn compress_data(
         selected_rows,
     } = page;
     let uncompressed_page_size = buffer.len();
-    if compression != CompressionOptions::Uncompressed {
+    // the values of a V2 page declared as not compressed are stored as they are
+    let is_compressed = match &header {
+        DataPageHeader::V1(_) => true,
+        DataPageHeader::V2(header) => header.is_compressed.unwrap_or(true),
+    };
+    if compression != CompressionOptions::Uncompressed && is_compressed {
         match &header {
             DataPageHeader::V1(_) => {
                 compression::compress(compression, &buffer, &mut compressed_buffer)?;
-- 
2.43.0


From f209b16afbfd8bcf6685e5435ed0380a271d89ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 19/66] fix: V2 level lengths out of range are an error when
 (de)compressing a page

---
 src/read/compression.rs  |  5 +++--
 src/write/compression.rs | 13 ++++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index 4ebf27f..0dd01eb 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -24,8 +24,9 @@ fn decompress_v2(
     //
     // We always use 0 offset for other pages other than v2, `true` flag means
     // that compression will be applied if decompressor is defined
-    let offset = (page_header.definition_levels_byte_length
-        + page_header.repetition_levels_byte_length) as usize;
+    let def_levels_byte_length: usize = page_header.definition_levels_byte_length.try_into()?;
+    let rep_levels_byte_length: usize = page_header.repetition_levels_byte_length.try_into()?;
+    let offset = def_levels_byte_length + rep_levels_byte_length;
     // When is_compressed flag is missing the page is considered compressed
     let can_decompress = page_header.is_compressed.unwrap_or(true);
 
diff --git a/src/write/compression.rs b/src/write/compression.rs
index b7f33c8..2574aa0 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -31,9 +31,16 @@ fn compress_data(
                 compression::compress(compression, &buffer, &mut compressed_buffer)?;
             }
             DataPageHeader::V2(header) => {
-                let levels_byte_length = (header.repetition_levels_byte_length
-                    + header.definition_levels_byte_length)
-                    as usize;
+                let rep_levels_byte_length: usize =
+                    header.repetition_levels_byte_length.try_into()?;
+                let def_levels_byte_length: usize =
+                    header.definition_levels_byte_length.try_into()?;
+                let levels_byte_length = rep_levels_byte_length + def_levels_byte_length;
+                if levels_byte_length > buffer.len() {
+                    return Err(Error::oos(
+                        "The number of bytes declared in v2 levels is higher than the page size",
+                    ));
+                }
                 compressed_buffer.extend_from_slice(&buffer[..levels_byte_length]);
                 compression::compress(
                     compression,
-- 
2.43.0


From 0b383758b5ba366a898188779ccc48ac59285c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 20/66] fix: write column chunks whose INT96 pages have
 statistics

---
 src/write/statistics.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index aaad15d..faff1d3 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -74,7 +74,10 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
             Some(Arc::new(reduce_fix_len_binary(stats)))
         }
-        _ => todo!(),
+        PhysicalType::Int96 => {
+            let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
+            Some(Arc::new(reduce_int96(stats)))
+        }
     })
 }
 
@@ -146,6 +149,20 @@ fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
     })
 }
 
+fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
+    mut stats: I,
+) -> PrimitiveStatistics<[u32; 3]> {
+    let mut initial = stats.next().unwrap().clone();
+    // SPEC: the order of INT96 is undefined
+    initial.min_value = None;
+    initial.max_value = None;
+    stats.fold(initial, |mut acc, new| {
+        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.distinct_count = None;
+        acc
+    })
+}
+
 fn reduce_primitive<
     'a,
     T: NativeType + std::cmp::PartialOrd,
-- 
2.43.0


From 611e1d23cc3fe020cbb076162ef3209199dadc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 21/66] fix: a binary value is ordered after its proper
 prefixes

---
 src/types.rs            | 16 +---------------
 src/write/statistics.rs | 23 ++++-------------------
 2 files changed, 5 insertions(+), 34 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 3e73688..7e7c1af 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -114,21 +114,7 @@ pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
 
 /// Returns the ordering of two binary values.
 pub fn ord_binary<'a>(a: &'a [u8], b: &'a [u8]) -> std::cmp::Ordering {
-    use std::cmp::Ordering::*;
-    match (a.is_empty(), b.is_empty()) {
-        (true, true) => return Equal,
-        (true, false) => return Less,
-        (false, true) => return Greater,
-        (false, false) => {}
-    }
-
-    for (v1, v2) in a.iter().zip(b.iter()) {
-        match v1.cmp(v2) {
-            Equal => continue,
-            other => return other,
-        }
-    }
-    Equal
+    a.cmp(b)
 }
 
 #[inline]
diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index faff1d3..30cc370 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -106,26 +106,11 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
 }
 
 fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
-    for (v1, v2) in a.iter().zip(b.iter()) {
-        match v1.cmp(v2) {
-            std::cmp::Ordering::Greater => {
-                if max {
-                    return a;
-                } else {
-                    return b;
-                }
-            }
-            std::cmp::Ordering::Less => {
-                if max {
-                    return b;
-                } else {
-                    return a;
-                }
-            }
-            _ => {}
-        }
+    if max {
+        a.max(b)
+    } else {
+        a.min(b)
     }
-    a
 }
 
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
-- 
2.43.0


From c87d4ac8c5040ba25b0e6315dd708a4a4fe0a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 22/66] fix: null count of a chunk is absent when it is unknown
 for a page

---
 src/write/statistics.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index 30cc370..0d55b2e 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -15,6 +15,12 @@ fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) ->
     }
 }
 
+/// The number of nulls is only known when it is known on both sides
+#[inline]
+fn reduce_null_count(lhs: Option<i64>, rhs: Option<i64>) -> Option<i64> {
+    lhs?.checked_add(rhs?)
+}
+
 #[inline]
 fn reduce_vec8(lhs: Option<Vec<u8>>, rhs: &Option<Vec<u8>>, max: bool) -> Option<Vec<u8>> {
     match (lhs, rhs) {
@@ -86,7 +92,7 @@ fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) ->
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
         acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -99,7 +105,7 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
         acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -128,7 +134,7 @@ fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
             new.max_value,
             |x, y| if x & !(y) { x } else { y },
         );
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -142,7 +148,7 @@ fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
     initial.min_value = None;
     initial.max_value = None;
     stats.fold(initial, |mut acc, new| {
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -167,7 +173,7 @@ fn reduce_primitive<
             new.max_value,
             |x, y| if x > y { x } else { y },
         );
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
-- 
2.43.0


From f2680c46ad3fd747b54f0a0c849d09104644ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 23/66] fix: combine page statistics in the sort order of the
 column's type

---
 src/write/statistics.rs | 119 ++++++++++++++++++++++++++++++++--------
 1 file changed, 96 insertions(+), 23 deletions(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index 0d55b2e..cb18a03 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -1,10 +1,20 @@
 use std::sync::Arc;
 
 use crate::error::{Error, Result};
-use crate::schema::types::PhysicalType;
+use crate::metadata::{get_sort_order, SortOrder};
+use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::statistics::*;
 use crate::types::NativeType;
 
+#[inline]
+fn sort_order(type_: &PrimitiveType) -> SortOrder {
+    get_sort_order(
+        &type_.logical_type,
+        &type_.converted_type,
+        &type_.physical_type,
+    )
+}
+
 #[inline]
 fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) -> Option<T> {
     match (lhs, rhs) {
@@ -22,12 +32,17 @@ fn reduce_null_count(lhs: Option<i64>, rhs: Option<i64>) -> Option<i64> {
 }
 
 #[inline]
-fn reduce_vec8(lhs: Option<Vec<u8>>, rhs: &Option<Vec<u8>>, max: bool) -> Option<Vec<u8>> {
+fn reduce_vec8(
+    lhs: Option<Vec<u8>>,
+    rhs: &Option<Vec<u8>>,
+    max: bool,
+    signed: bool,
+) -> Option<Vec<u8>> {
     match (lhs, rhs) {
         (None, None) => None,
         (Some(x), None) => Some(x),
         (None, Some(x)) => Some(x.clone()),
-        (Some(x), Some(y)) => Some(ord_binary(x, y.clone(), max)),
+        (Some(x), Some(y)) => Some(ord_binary(x, y.clone(), max, signed)),
     }
 }
 
@@ -58,11 +73,11 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
         }
         PhysicalType::Int32 => {
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
-            Some(Arc::new(reduce_primitive::<i32, _>(stats)))
+            Some(Arc::new(reduce_integer::<i32, _, _>(stats, |x| x as u32)))
         }
         PhysicalType::Int64 => {
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
-            Some(Arc::new(reduce_primitive::<i64, _>(stats)))
+            Some(Arc::new(reduce_integer::<i64, _, _>(stats, |x| x as u64)))
         }
         PhysicalType::Float => {
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
@@ -89,9 +104,10 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
 
 fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) -> BinaryStatistics {
     let initial = stats.next().unwrap().clone();
+    let signed = sort_order(&initial.primitive_type) == SortOrder::Signed;
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, signed);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, signed);
         acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
@@ -102,21 +118,40 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
     mut stats: I,
 ) -> FixedLenStatistics {
     let initial = stats.next().unwrap().clone();
+    let signed = sort_order(&initial.primitive_type) == SortOrder::Signed;
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, signed);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, signed);
         acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
 }
 
-fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
-    if max {
-        a.max(b)
+fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool, signed: bool) -> Vec<u8> {
+    let ordering = if signed {
+        ord_signed_binary(&a, &b)
+    } else {
+        a.cmp(&b)
+    };
+    if ordering.is_gt() == max {
+        a
     } else {
-        a.min(b)
+        b
+    }
+}
+
+/// The order of two big-endian two's complement integers of any number of bytes
+fn ord_signed_binary(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
+    let is_negative = |x: &[u8]| x.first().map(|x| *x >= 0x80).unwrap_or(false);
+    let (a_negative, b_negative) = (is_negative(a), is_negative(b));
+    if a_negative != b_negative {
+        return b_negative.cmp(&a_negative);
     }
+    let length = a.len().max(b.len());
+    let fill = if a_negative { 0xff } else { 0 };
+    let extend = |x: &[u8]| [&vec![fill; length - x.len()], x].concat();
+    extend(a).cmp(&extend(b))
 }
 
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
@@ -154,25 +189,63 @@ fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
     })
 }
 
+/// Reduces integers in the sort order of their type
+fn reduce_integer<
+    'a,
+    T: NativeType + std::cmp::PartialOrd,
+    U: std::cmp::PartialOrd,
+    I: Iterator<Item = &'a PrimitiveStatistics<T>>,
+>(
+    stats: I,
+    to_unsigned: fn(T) -> U,
+) -> PrimitiveStatistics<T> {
+    let mut stats = stats.peekable();
+    let is_unsigned = stats
+        .peek()
+        .map(|x| sort_order(&x.primitive_type) == SortOrder::Unsigned)
+        .unwrap_or(false);
+    if is_unsigned {
+        reduce_primitive_by(stats, |x, y| to_unsigned(x) > to_unsigned(y))
+    } else {
+        reduce_primitive(stats)
+    }
+}
+
 fn reduce_primitive<
     'a,
     T: NativeType + std::cmp::PartialOrd,
     I: Iterator<Item = &'a PrimitiveStatistics<T>>,
+>(
+    stats: I,
+) -> PrimitiveStatistics<T> {
+    reduce_primitive_by(stats, |x, y| x > y)
+}
+
+fn reduce_primitive_by<
+    'a,
+    T: NativeType,
+    F: Fn(T, T) -> bool,
+    I: Iterator<Item = &'a PrimitiveStatistics<T>>,
 >(
     mut stats: I,
+    is_greater: F,
 ) -> PrimitiveStatistics<T> {
     let initial = stats.next().unwrap().clone();
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_single(
-            acc.min_value,
-            new.min_value,
-            |x, y| if x > y { y } else { x },
-        );
-        acc.max_value = reduce_single(
-            acc.max_value,
-            new.max_value,
-            |x, y| if x > y { x } else { y },
-        );
+        acc.min_value = reduce_single(acc.min_value, new.min_value, |x, y| {
+            if is_greater(x, y) {
+                y
+            } else {
+                x
+            }
+        });
+        acc.max_value = reduce_single(acc.max_value, new.max_value, |x, y| {
+            if is_greater(x, y) {
+                x
+            } else {
+                y
+            }
+        });
         acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
-- 
2.43.0


From fa0310f98cf0d6d948126b1f08505dd24a954a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 24/66] fix: chunk statistics do not bound pages whose
 statistics are missing

---
 src/write/column_chunk.rs | 46 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 130455e..0b6755f 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -2,7 +2,7 @@ use std::collections::HashSet;
 use std::io::Write;
 
 use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
-use parquet_format_safe::{ColumnChunk, ColumnMetaData, Type};
+use parquet_format_safe::{ColumnChunk, ColumnMetaData, Statistics, Type};
 
 #[cfg(feature = "async")]
 use futures::AsyncWrite;
@@ -22,7 +22,7 @@ use crate::{
 #[cfg(feature = "async")]
 use super::page::write_page_async;
 
-use super::page::{write_page, PageWriteSpec};
+use super::page::{is_data_page, write_page, PageWriteSpec};
 use super::statistics::reduce;
 use super::DynStreamingIterator;
 
@@ -99,6 +99,44 @@ where
     Ok((column_chunk, specs, bytes_written))
 }
 
+/// The statistics of the chunk, derived from the statistics of its pages.
+fn reduce_pages(specs: &[PageWriteSpec]) -> Result<Option<Statistics>> {
+    let pages = specs
+        .iter()
+        .filter(|spec| is_data_page(spec) && spec.num_values > 0)
+        .collect::<Vec<_>>();
+    // nothing is known about a page without statistics
+    if pages.iter().any(|spec| spec.statistics.is_none()) {
+        return Ok(None);
+    }
+
+    let statistics = specs.iter().map(|x| &x.statistics).collect::<Vec<_>>();
+    let mut statistics = match reduce(&statistics)? {
+        Some(statistics) => serialize_statistics(statistics.as_ref()),
+        None => return Ok(None),
+    };
+
+    // a bound holds for the chunk only when every page with non-null values has it
+    for spec in pages {
+        let page = spec
+            .statistics
+            .as_ref()
+            .map(|x| serialize_statistics(x.as_ref()));
+        if let Some(page) = page {
+            if page.null_count == Some(spec.num_values as i64) {
+                continue;
+            }
+            if page.min_value.is_none() {
+                statistics.min_value = None;
+            }
+            if page.max_value.is_none() {
+                statistics.max_value = None;
+            }
+        }
+    }
+    Ok(Some(statistics))
+}
+
 fn build_column_chunk(
     specs: &[PageWriteSpec],
     descriptor: &ColumnDescriptor,
@@ -176,9 +214,7 @@ fn build_column_chunk(
     // Sort the encodings to have deterministic metadata
     encodings.sort();
 
-    let statistics = specs.iter().map(|x| &x.statistics).collect::<Vec<_>>();
-    let statistics = reduce(&statistics)?;
-    let statistics = statistics.map(|x| serialize_statistics(x.as_ref()));
+    let statistics = reduce_pages(specs)?;
 
     let (type_, _): (Type, Option<i32>) = descriptor.descriptor.primitive_type.physical_type.into();
 
-- 
2.43.0


From 737f3522177b2ab926e36b5e0a5692b665785009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:52 +0000
Subject: [PATCH 25/66] fix: retry interrupted single-byte reads and writes of
 thrift structures

---
 src/bloom_filter/read.rs   |  4 ++--
 src/lib.rs                 |  1 +
 src/read/metadata.rs       |  3 ++-
 src/read/page/reader.rs    |  3 ++-
 src/transport.rs           | 30 ++++++++++++++++++++++++++++++
 src/write/column_chunk.rs  |  4 +++-
 src/write/file.rs          |  3 ++-
 src/write/indexes/write.rs |  5 +++--
 src/write/page.rs          |  3 ++-
 9 files changed, 47 insertions(+), 9 deletions(-)
 create mode 100644 src/transport.rs

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 21f05d9..5d0e72d 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -5,7 +5,7 @@ use parquet_format_safe::{
     BloomFilterHeader, SplitBlockAlgorithm, Uncompressed,
 };
 
-use crate::{error::Error, metadata::ColumnChunkMetaData};
+use crate::{error::Error, metadata::ColumnChunkMetaData, transport::RetryReader};
 
 /// Reads the bloom filter associated to [`ColumnChunkMetaData`] into `bitset`.
 /// Results in an empty `bitset` if there is no associated bloom filter or the algorithm is not supported.
@@ -27,7 +27,7 @@ pub fn read<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     // deserialize header
-    let mut prot = TCompactInputProtocol::new(&mut reader, usize::MAX); // max is ok since `BloomFilterHeader` never allocates
+    let mut prot = TCompactInputProtocol::new(RetryReader(&mut reader), usize::MAX); // max is ok since `BloomFilterHeader` never allocates
     let header = BloomFilterHeader::read_from_in_protocol(&mut prot)?;
 
     if header.algorithm != BloomFilterAlgorithm::BLOCK(SplitBlockAlgorithm {}) {
diff --git a/src/lib.rs b/src/lib.rs
index c8da986..ca4b967 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,6 +16,7 @@ mod parquet_bridge;
 pub mod read;
 pub mod schema;
 pub mod statistics;
+mod transport;
 pub mod types;
 pub mod write;
 
diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 2381d0e..137a51c 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -12,6 +12,7 @@ use super::super::{
 };
 
 use crate::error::{Error, Result};
+use crate::transport::RetryReader;
 
 pub(super) fn metadata_len(buffer: &[u8], len: usize) -> i32 {
     i32::from_le_bytes(buffer[len - 8..len - 4].try_into().unwrap())
@@ -98,7 +99,7 @@ pub fn read_metadata_with_size<R: Read + Seek>(
 
 /// Parse loaded metadata bytes
 pub fn deserialize_metadata<R: Read>(reader: R, max_size: usize) -> Result<FileMetaData> {
-    let mut prot = TCompactInputProtocol::new(reader, max_size);
+    let mut prot = TCompactInputProtocol::new(RetryReader(reader), max_size);
     let metadata = TFileMetaData::read_from_in_protocol(&mut prot)?;
 
     FileMetaData::try_from_thrift(metadata)
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index a28ef69..9a247cd 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -13,6 +13,7 @@ use crate::page::{
     ParquetPageHeader,
 };
 use crate::parquet_bridge::Encoding;
+use crate::transport::RetryReader;
 
 use super::PageIterator;
 
@@ -165,7 +166,7 @@ pub(super) fn read_page_header<R: Read>(
     reader: &mut R,
     max_size: usize,
 ) -> Result<ParquetPageHeader> {
-    let mut prot = TCompactInputProtocol::new(reader, max_size);
+    let mut prot = TCompactInputProtocol::new(RetryReader(reader), max_size);
     let page_header = ParquetPageHeader::read_from_in_protocol(&mut prot)?;
     Ok(page_header)
 }
diff --git a/src/transport.rs b/src/transport.rs
new file mode 100644
index 0000000..aa385b1
--- /dev/null
+++ b/src/transport.rs
@@ -0,0 +1,30 @@
+//! Adapters for thrift's protocols, which transfer single bytes with a bare `read` or `write`.
+use std::io::{ErrorKind, Read, Result, Write};
+
+/// A [`Read`] that retries interrupted reads
+pub(crate) struct RetryReader<R>(pub R);
+
+impl<R: Read> Read for RetryReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                other => return other,
+            }
+        }
+    }
+}
+
+/// A [`Write`] whose writes are complete: they retry interrupted writes and error when nothing is accepted
+pub(crate) struct FullWriter<W>(pub W);
+
+impl<W: Write> Write for FullWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        self.0.write_all(buf)?;
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        self.0.flush()
+    }
+}
diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 0b6755f..29ad161 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -22,6 +22,8 @@ use crate::{
 #[cfg(feature = "async")]
 use super::page::write_page_async;
 
+use crate::transport::FullWriter;
+
 use super::page::{is_data_page, write_page, PageWriteSpec};
 use super::statistics::reduce;
 use super::DynStreamingIterator;
@@ -52,7 +54,7 @@ where
     let column_chunk = build_column_chunk(&specs, descriptor)?;
 
     // write metadata
-    let mut protocol = TCompactOutputProtocol::new(writer);
+    let mut protocol = TCompactOutputProtocol::new(FullWriter(writer));
     bytes_written += column_chunk
         .meta_data
         .as_ref()
diff --git a/src/write/file.rs b/src/write/file.rs
index 1b28541..6d7612e 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -15,6 +15,7 @@ use super::page::PageWriteSpec;
 use super::{row_group::write_row_group, RowGroupIter, WriteOptions};
 
 pub use crate::metadata::KeyValue;
+use crate::transport::FullWriter;
 use crate::write::State;
 
 pub(super) fn start_file<W: Write>(writer: &mut W) -> Result<u64> {
@@ -24,7 +25,7 @@ pub(super) fn start_file<W: Write>(writer: &mut W) -> Result<u64> {
 
 pub(super) fn end_file<W: Write>(mut writer: &mut W, metadata: &ThriftFileMetaData) -> Result<u64> {
     // Write metadata
-    let mut protocol = TCompactOutputProtocol::new(&mut writer);
+    let mut protocol = TCompactOutputProtocol::new(FullWriter(&mut writer));
     let metadata_len = metadata.write_to_out_protocol(&mut protocol)? as i32;
 
     // Write footer
diff --git a/src/write/indexes/write.rs b/src/write/indexes/write.rs
index 3bc3c67..5077e7c 100644
--- a/src/write/indexes/write.rs
+++ b/src/write/indexes/write.rs
@@ -10,13 +10,14 @@ use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
 use crate::error::Result;
 pub use crate::metadata::KeyValue;
 
+use crate::transport::FullWriter;
 use crate::write::page::PageWriteSpec;
 
 use super::serialize::{serialize_column_index, serialize_offset_index};
 
 pub fn write_column_index<W: Write>(writer: &mut W, pages: &[PageWriteSpec]) -> Result<u64> {
     let index = serialize_column_index(pages)?;
-    let mut protocol = TCompactOutputProtocol::new(writer);
+    let mut protocol = TCompactOutputProtocol::new(FullWriter(writer));
     Ok(index.write_to_out_protocol(&mut protocol)? as u64)
 }
 
@@ -33,7 +34,7 @@ pub async fn write_column_index_async<W: AsyncWrite + Unpin + Send>(
 
 pub fn write_offset_index<W: Write>(writer: &mut W, pages: &[PageWriteSpec]) -> Result<u64> {
     let index = serialize_offset_index(pages)?;
-    let mut protocol = TCompactOutputProtocol::new(&mut *writer);
+    let mut protocol = TCompactOutputProtocol::new(FullWriter(&mut *writer));
     Ok(index.write_to_out_protocol(&mut protocol)? as u64)
 }
 
diff --git a/src/write/page.rs b/src/write/page.rs
index 0ba7fa4..9c57694 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -16,6 +16,7 @@ use crate::page::{
     CompressedDataPage, CompressedDictPage, CompressedPage, DataPageHeader, ParquetPageHeader,
 };
 use crate::statistics::Statistics;
+use crate::transport::FullWriter;
 
 pub(crate) fn is_data_page(page: &PageWriteSpec) -> bool {
     page.header.type_ == PageType::DATA_PAGE || page.header.type_ == PageType::DATA_PAGE_V2
@@ -199,7 +200,7 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
 
 /// writes the page header into `writer`, returning the number of bytes used in the process.
 fn write_page_header<W: Write>(mut writer: &mut W, header: &ParquetPageHeader) -> Result<u64> {
-    let mut protocol = TCompactOutputProtocol::new(&mut writer);
+    let mut protocol = TCompactOutputProtocol::new(FullWriter(&mut writer));
     Ok(header.write_to_out_protocol(&mut protocol)? as u64)
 }
 
-- 
2.43.0


From 6cc93bb9c83566c212b3a953b400e0db93c3e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:58 +0000
Subject: [PATCH 26/66] fix: keep the sorted flag of dictionary pages when
 writing them

---
 src/write/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/page.rs b/src/write/page.rs
index 9c57694..b4f9e94 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -192,7 +192,7 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
         dictionary_page_header: Some(DictionaryPageHeader {
             num_values,
             encoding: Encoding::PLAIN,
-            is_sorted: None,
+            is_sorted: if page.is_sorted { Some(true) } else { None },
         }),
         data_page_header_v2: None,
     })
-- 
2.43.0


From db131d648fa938640ab0fadfba9981a3046b30de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:04 +0000
Subject: [PATCH 27/66] fix: do not panic writing a page whose row selection is
 empty

---
 src/write/page.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/write/page.rs b/src/write/page.rs
index b4f9e94..b8867fa 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -91,7 +91,7 @@ pub fn write_page<W: Write>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows: selected_rows.and_then(|x| x.last()).map(|x| x.length),
         num_values,
     })
 }
@@ -137,7 +137,7 @@ pub async fn write_page_async<W: AsyncWrite + Unpin + Send>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows: selected_rows.and_then(|x| x.last()).map(|x| x.length),
         num_values,
     })
 }
-- 
2.43.0


From e17aa236648424400bb0e3e61ea3b242e5ada9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:20 +0000
Subject: [PATCH 28/66] fix: check size and completeness of pages skipped by
 the asynchronous page stream

---
 src/read/page/stream.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 2b114f4..e99e0a1 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -92,18 +92,23 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
 
             let read_size: usize = page_header.compressed_page_size.try_into()?;
 
+            if read_size > max_page_size {
+                Err(Error::WouldOverAllocate)?
+            }
+
             if let Some(data_header) = data_header {
                 if !pages_filter(&descriptor, &data_header) {
                     // page to be skipped, we sill need to seek
-                    copy(reader.take(read_size as u64), &mut sink()).await?;
+                    let bytes_read = copy((&mut *reader).take(read_size as u64), &mut sink()).await?;
+                    if bytes_read != read_size as u64 {
+                        Err(Error::oos(
+                            "The page header reported the wrong page size".to_string(),
+                        ))?
+                    }
                     continue
                 }
             }
 
-            if read_size > max_page_size {
-                Err(Error::WouldOverAllocate)?
-            }
-
             // followed by the buffer
             scratch.clear();
             scratch.try_reserve(read_size)?;
-- 
2.43.0


From 6ccf80f760845aac57e85e98b3f02a0127d07343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 29/66] fix: an error or misuse of a writer never completes a
 broken file

---
 src/write/file.rs      | 22 ++++++++++++++++++----
 src/write/mod.rs       |  2 ++
 src/write/row_group.rs | 11 +++++++++++
 src/write/stream.rs    | 23 +++++++++++++++++++----
 4 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/write/file.rs b/src/write/file.rs
index 6d7612e..bc14567 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -124,7 +124,9 @@ impl<W: Write> FileWriter<W> {
     /// # Errors
     /// Returns an error if data has been written to the file.
     fn start(&mut self) -> Result<()> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
+            // unless everything below succeeds, the file is not valid
+            self.state = State::Failed;
             self.offset = start_file(&mut self.writer)?;
             self.state = State::Started;
             Ok(())
@@ -143,9 +145,17 @@ impl<W: Write> FileWriter<W> {
         Error: From<E>,
         E: std::error::Error,
     {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
             self.start()?;
         }
+        if self.state != State::Started {
+            return Err(Error::InvalidParameter(
+                "Row groups cannot be written after the file ended or an error".to_string(),
+            ));
+        }
+        // an error leaves a part of the row group in the writer
+        self.state = State::Failed;
+
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group(
             &mut self.writer,
@@ -157,21 +167,25 @@ impl<W: Write> FileWriter<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
             self.start()?;
         }
 
         if self.state != State::Started {
             return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
+                "End cannot be called twice or after an error".to_string(),
             ));
         }
+        // an error leaves a part of the footer in the writer
+        self.state = State::Failed;
+
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
diff --git a/src/write/mod.rs b/src/write/mod.rs
index 16ba7ca..238ae44 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -48,6 +48,8 @@ enum State {
     Initialised,
     Started,
     Finished,
+    /// An error (or a cancelled call) left the file incomplete
+    Failed,
 }
 
 impl From<Version> for i32 {
diff --git a/src/write/row_group.rs b/src/write/row_group.rs
index 2c07cb5..549c163 100644
--- a/src/write/row_group.rs
+++ b/src/write/row_group.rs
@@ -75,6 +75,15 @@ fn compute_num_rows(columns: &[(ColumnChunk, Vec<PageWriteSpec>)]) -> Result<i64
         .unwrap_or(Ok(0))
 }
 
+fn check_num_columns(num_columns: usize, expected: usize) -> Result<()> {
+    if num_columns != expected {
+        return Err(Error::InvalidParameter(format!(
+            "A row group must have one column chunk per column of the schema: {expected} expected, {num_columns} given"
+        )));
+    }
+    Ok(())
+}
+
 pub fn write_row_group<
     'a,
     W,
@@ -103,6 +112,7 @@ where
         })
         .collect::<Result<Vec<_>>>()?;
     let bytes_written = offset - initial;
+    check_num_columns(columns.len(), descriptors.len())?;
 
     let num_rows = compute_num_rows(&columns)?;
 
@@ -169,6 +179,7 @@ where
         columns.push((column, page_specs));
     }
     let bytes_written = offset - initial;
+    check_num_columns(columns.len(), descriptors.len())?;
 
     let num_rows = compute_num_rows(&columns)?;
 
diff --git a/src/write/stream.rs b/src/write/stream.rs
index b750d9b..f47fdad 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -97,7 +97,9 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
     /// # Errors
     /// Returns an error if data has been written to the file.
     async fn start(&mut self) -> Result<()> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
+            // unless everything below succeeds, the file is not valid
+            self.state = State::Failed;
             self.offset = start_file(&mut self.writer).await? as u64;
             self.state = State::Started;
             Ok(())
@@ -114,10 +116,18 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         Error: From<E>,
         E: std::error::Error,
     {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
             self.start().await?;
         }
 
+        if self.state != State::Started {
+            return Err(Error::InvalidParameter(
+                "Row groups cannot be written after the file ended or an error".to_string(),
+            ));
+        }
+        // an error leaves a part of the row group in the writer
+        self.state = State::Failed;
+
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group_async(
             &mut self.writer,
@@ -130,21 +140,25 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub async fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
             self.start().await?;
         }
 
         if self.state != State::Started {
             return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
+                "End cannot be called twice or after an error".to_string(),
             ));
         }
+        // an error leaves a part of the footer in the writer
+        self.state = State::Failed;
+
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
@@ -184,6 +198,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         );
 
         let len = end_file(&mut self.writer, metadata).await?;
+        self.state = State::Finished;
         Ok(self.offset + len)
     }
 
-- 
2.43.0


From 06ba3e87f3f89bda107d30ea4be4a3cc9459bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 30/66] fix: a sink that accepts no bytes is an error in the
 asynchronous writer

---
 src/transport.rs           | 30 ++++++++++++++++++++++++++++++
 src/write/column_chunk.rs  |  4 +++-
 src/write/indexes/write.rs |  6 ++++--
 src/write/page.rs          |  4 +++-
 src/write/stream.rs        |  3 ++-
 5 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index aa385b1..2970d27 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -1,5 +1,13 @@
 //! Adapters for thrift's protocols, which transfer single bytes with a bare `read` or `write`.
 use std::io::{ErrorKind, Read, Result, Write};
+#[cfg(feature = "async")]
+use std::{
+    pin::Pin,
+    task::{Context, Poll},
+};
+
+#[cfg(feature = "async")]
+use futures::AsyncWrite;
 
 /// A [`Read`] that retries interrupted reads
 pub(crate) struct RetryReader<R>(pub R);
@@ -28,3 +36,25 @@ impl<W: Write> Write for FullWriter<W> {
         self.0.flush()
     }
 }
+
+/// An [`AsyncWrite`] that errors when nothing is accepted
+#[cfg(feature = "async")]
+pub(crate) struct FullAsyncWriter<W>(pub W);
+
+#[cfg(feature = "async")]
+impl<W: AsyncWrite + Unpin> AsyncWrite for FullAsyncWriter<W> {
+    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<Result<usize>> {
+        match Pin::new(&mut self.0).poll_write(cx, buf) {
+            Poll::Ready(Ok(0)) if !buf.is_empty() => Poll::Ready(Err(ErrorKind::WriteZero.into())),
+            other => other,
+        }
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<()>> {
+        Pin::new(&mut self.0).poll_flush(cx)
+    }
+
+    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<()>> {
+        Pin::new(&mut self.0).poll_close(cx)
+    }
+}
diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 29ad161..ed716b1 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -22,6 +22,8 @@ use crate::{
 #[cfg(feature = "async")]
 use super::page::write_page_async;
 
+#[cfg(feature = "async")]
+use crate::transport::FullAsyncWriter;
 use crate::transport::FullWriter;
 
 use super::page::{is_data_page, write_page, PageWriteSpec};
@@ -90,7 +92,7 @@ where
     let column_chunk = build_column_chunk(&specs, descriptor)?;
 
     // write metadata
-    let mut protocol = TCompactOutputStreamProtocol::new(writer);
+    let mut protocol = TCompactOutputStreamProtocol::new(FullAsyncWriter(writer));
     bytes_written += column_chunk
         .meta_data
         .as_ref()
diff --git a/src/write/indexes/write.rs b/src/write/indexes/write.rs
index 5077e7c..788c1e9 100644
--- a/src/write/indexes/write.rs
+++ b/src/write/indexes/write.rs
@@ -10,6 +10,8 @@ use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
 use crate::error::Result;
 pub use crate::metadata::KeyValue;
 
+#[cfg(feature = "async")]
+use crate::transport::FullAsyncWriter;
 use crate::transport::FullWriter;
 use crate::write::page::PageWriteSpec;
 
@@ -28,7 +30,7 @@ pub async fn write_column_index_async<W: AsyncWrite + Unpin + Send>(
     pages: &[PageWriteSpec],
 ) -> Result<u64> {
     let index = serialize_column_index(pages)?;
-    let mut protocol = TCompactOutputStreamProtocol::new(writer);
+    let mut protocol = TCompactOutputStreamProtocol::new(FullAsyncWriter(writer));
     Ok(index.write_to_out_stream_protocol(&mut protocol).await? as u64)
 }
 
@@ -45,6 +47,6 @@ pub async fn write_offset_index_async<W: AsyncWrite + Unpin + Send>(
     pages: &[PageWriteSpec],
 ) -> Result<u64> {
     let index = serialize_offset_index(pages)?;
-    let mut protocol = TCompactOutputStreamProtocol::new(&mut *writer);
+    let mut protocol = TCompactOutputStreamProtocol::new(FullAsyncWriter(&mut *writer));
     Ok(index.write_to_out_stream_protocol(&mut protocol).await? as u64)
 }
diff --git a/src/write/page.rs b/src/write/page.rs
index b8867fa..dde130b 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -16,6 +16,8 @@ use crate::page::{
     CompressedDataPage, CompressedDictPage, CompressedPage, DataPageHeader, ParquetPageHeader,
 };
 use crate::statistics::Statistics;
+#[cfg(feature = "async")]
+use crate::transport::FullAsyncWriter;
 use crate::transport::FullWriter;
 
 pub(crate) fn is_data_page(page: &PageWriteSpec) -> bool {
@@ -211,7 +213,7 @@ async fn write_page_header_async<W: AsyncWrite + Unpin + Send>(
     mut writer: &mut W,
     header: &ParquetPageHeader,
 ) -> Result<u64> {
-    let mut protocol = TCompactOutputStreamProtocol::new(&mut writer);
+    let mut protocol = TCompactOutputStreamProtocol::new(FullAsyncWriter(&mut writer));
     Ok(header.write_to_out_stream_protocol(&mut protocol).await? as u64)
 }
 
diff --git a/src/write/stream.rs b/src/write/stream.rs
index f47fdad..eaeed45 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -4,6 +4,7 @@ use futures::{AsyncWrite, AsyncWriteExt};
 
 use parquet_format_safe::{thrift::protocol::TCompactOutputStreamProtocol, FileMetaData, RowGroup};
 
+use crate::transport::FullAsyncWriter;
 use crate::write::indexes::{write_column_index_async, write_offset_index_async};
 use crate::write::page::PageWriteSpec;
 use crate::write::State;
@@ -25,7 +26,7 @@ async fn end_file<W: AsyncWrite + Unpin + Send>(
     metadata: FileMetaData,
 ) -> Result<u64> {
     // Write file metadata
-    let mut protocol = TCompactOutputStreamProtocol::new(&mut writer);
+    let mut protocol = TCompactOutputStreamProtocol::new(FullAsyncWriter(&mut writer));
     let metadata_len = metadata.write_to_out_stream_protocol(&mut protocol).await? as i32;
 
     // Write footer
-- 
2.43.0


From a720c774586acd6f7e1f42270328b48b7ae07ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 31/66] fix: sources that end early are errors for metadata,
 columns, page indexes, indexed pages and bloom filters

---
 src/bloom_filter/read.rs        | 12 ++++-----
 src/read/column/mod.rs          |  4 +--
 src/read/column/stream.rs       |  6 ++---
 src/read/indexes/read.rs        |  7 +++--
 src/read/metadata.rs            | 13 +++-------
 src/read/page/indexed_reader.rs | 20 +++++++++++---
 src/read/stream.rs              | 16 +++---------
 src/transport.rs                | 46 +++++++++++++++++++++++++++++++--
 8 files changed, 83 insertions(+), 41 deletions(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 5d0e72d..5b3dac8 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -5,7 +5,11 @@ use parquet_format_safe::{
     BloomFilterHeader, SplitBlockAlgorithm, Uncompressed,
 };
 
-use crate::{error::Error, metadata::ColumnChunkMetaData, transport::RetryReader};
+use crate::{
+    error::Error,
+    metadata::ColumnChunkMetaData,
+    transport::{read_exactly, RetryReader},
+};
 
 /// Reads the bloom filter associated to [`ColumnChunkMetaData`] into `bitset`.
 /// Results in an empty `bitset` if there is no associated bloom filter or the algorithm is not supported.
@@ -41,9 +45,5 @@ pub fn read<R: Read + Seek>(
 
     let length: usize = header.num_bytes.try_into()?;
 
-    bitset.clear();
-    bitset.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(bitset)?;
-
-    Ok(())
+    read_exactly(&mut reader, length as u64, bitset)
 }
diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index b5bc44c..3af21d7 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -5,6 +5,7 @@ use crate::error::Error;
 use crate::metadata::{ColumnChunkMetaData, RowGroupMetaData};
 use crate::page::CompressedPage;
 use crate::schema::types::ParquetType;
+use crate::transport::read_exactly;
 
 use super::{get_field_columns, get_page_iterator, PageFilter, PageReader};
 
@@ -195,8 +196,7 @@ where
     reader.seek(std::io::SeekFrom::Start(start))?;
 
     let mut chunk = vec![];
-    chunk.try_reserve(length as usize)?;
-    reader.by_ref().take(length).read_to_end(&mut chunk)?;
+    read_exactly(reader, length, &mut chunk)?;
     Ok(chunk)
 }
 
diff --git a/src/read/column/stream.rs b/src/read/column/stream.rs
index d8419e7..466c26a 100644
--- a/src/read/column/stream.rs
+++ b/src/read/column/stream.rs
@@ -1,9 +1,10 @@
 use futures::future::{try_join_all, BoxFuture};
-use futures::{AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt};
+use futures::{AsyncRead, AsyncSeek, AsyncSeekExt};
 
 use crate::error::Error;
 use crate::metadata::ColumnChunkMetaData;
 use crate::read::get_field_columns;
+use crate::transport::read_exactly_async;
 
 /// Reads a single column chunk into memory asynchronously
 pub async fn read_column_async<'b, R, F>(
@@ -19,8 +20,7 @@ where
     reader.seek(std::io::SeekFrom::Start(start)).await?;
 
     let mut chunk = vec![];
-    chunk.try_reserve(length as usize)?;
-    reader.take(length as u64).read_to_end(&mut chunk).await?;
+    read_exactly_async(&mut reader, length, &mut chunk).await?;
     Result::Ok(chunk)
 }
 
diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 546dd79..f3a94b3 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -7,6 +7,7 @@ use parquet_format_safe::{thrift::protocol::TCompactInputProtocol, OffsetIndex,
 use crate::error::Error;
 use crate::indexes::Index;
 use crate::metadata::ColumnChunkMetaData;
+use crate::transport::read_exactly;
 
 use super::deserialize::deserialize;
 
@@ -90,8 +91,7 @@ pub fn read_columns_indexes<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
+    read_exactly(reader, length as u64, &mut data)?;
 
     deserialize_column_indexes(chunks, &data, lengths)
 }
@@ -125,8 +125,7 @@ pub fn read_pages_locations<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
+    read_exactly(reader, length as u64, &mut data)?;
 
     deserialize_page_locations(&data, chunks.len())
 }
diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 137a51c..a515043 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -12,7 +12,7 @@ use super::super::{
 };
 
 use crate::error::{Error, Result};
-use crate::transport::RetryReader;
+use crate::transport::{read_exactly, RetryReader};
 
 pub(super) fn metadata_len(buffer: &[u8], len: usize) -> i32 {
     i32::from_le_bytes(buffer[len - 8..len - 4].try_into().unwrap())
@@ -54,11 +54,8 @@ pub fn read_metadata_with_size<R: Read + Seek>(
     let default_end_len = min(DEFAULT_FOOTER_READ_SIZE, file_size) as usize;
     reader.seek(SeekFrom::End(-(default_end_len as i64)))?;
 
-    let mut buffer = Vec::with_capacity(default_end_len);
-    reader
-        .by_ref()
-        .take(default_end_len as u64)
-        .read_to_end(&mut buffer)?;
+    let mut buffer = vec![];
+    read_exactly(reader, default_end_len as u64, &mut buffer)?;
 
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
@@ -84,9 +81,7 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         // the end of file read by default is not long enough, read again including the metadata.
         reader.seek(SeekFrom::End(-(footer_len as i64)))?;
 
-        buffer.clear();
-        buffer.try_reserve(footer_len as usize)?;
-        reader.take(footer_len).read_to_end(&mut buffer)?;
+        read_exactly(reader, footer_len, &mut buffer)?;
 
         &buffer
     };
diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 167d923..11c7a63 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -9,6 +9,7 @@ use crate::{
     metadata::{ColumnChunkMetaData, Descriptor},
     page::{CompressedDictPage, CompressedPage, ParquetPageHeader},
     parquet_bridge::Compression,
+    transport::read_exactly,
 };
 
 use super::reader::{finish_page, read_page_header, PageMetaData};
@@ -54,9 +55,7 @@ fn read_page<R: Read + Seek>(
     reader.seek(SeekFrom::Start(start))?;
 
     // read [header][data] to buffer
-    buffer.clear();
-    buffer.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(buffer)?;
+    read_exactly(reader, length as u64, buffer)?;
 
     // deserialize [header]
     let mut reader = Cursor::new(buffer);
@@ -81,6 +80,15 @@ fn read_dict_page<R: Read + Seek>(
 ) -> Result<CompressedDictPage, Error> {
     let page_header = read_page(reader, start, length, buffer, data)?;
 
+    // [length] reaches up to the first data page
+    let page_size = usize::try_from(page_header.compressed_page_size)?;
+    if data.len() < page_size {
+        return Err(Error::oos(
+            "The page header reported the wrong page size".to_string(),
+        ));
+    }
+    data.truncate(page_size);
+
     let page = finish_page(page_header, data, compression, descriptor, None)?;
     if let CompressedPage::Dict(page) = page {
         Ok(page)
@@ -140,6 +148,12 @@ impl<R: Read + Seek> IndexedPageReader<R> {
 
         let page_header = read_page(&mut self.reader, start, length, &mut self.buffer, &mut data)?;
 
+        if data.len() != usize::try_from(page_header.compressed_page_size)? {
+            return Err(Error::oos(
+                "The page header reported the wrong page size".to_string(),
+            ));
+        }
+
         finish_page(
             page_header,
             &mut data,
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 3f59b74..ce52179 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -1,10 +1,11 @@
 use std::io::SeekFrom;
 
-use futures::{AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt};
+use futures::{AsyncRead, AsyncSeek, AsyncSeekExt};
 
 use super::super::{metadata::FileMetaData, DEFAULT_FOOTER_READ_SIZE, FOOTER_SIZE, PARQUET_MAGIC};
 use super::metadata::{deserialize_metadata, metadata_len};
 use crate::error::{Error, Result};
+use crate::transport::read_exactly_async;
 use crate::HEADER_SIZE;
 
 async fn stream_len(
@@ -41,11 +42,7 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
         .await?;
 
     let mut buffer = vec![];
-    buffer.try_reserve(default_end_len)?;
-    reader
-        .take(default_end_len as u64)
-        .read_to_end(&mut buffer)
-        .await?;
+    read_exactly_async(reader, default_end_len as u64, &mut buffer).await?;
 
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
@@ -70,12 +67,7 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
         // the end of file read by default is not long enough, read again including the metadata.
         reader.seek(SeekFrom::End(-(footer_len as i64))).await?;
 
-        buffer.clear();
-        buffer.try_reserve(footer_len as usize)?;
-        reader
-            .take(footer_len as u64)
-            .read_to_end(&mut buffer)
-            .await?;
+        read_exactly_async(reader, footer_len, &mut buffer).await?;
 
         &buffer
     };
diff --git a/src/transport.rs b/src/transport.rs
index 2970d27..0c0f9c8 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -1,4 +1,5 @@
-//! Adapters for thrift's protocols, which transfer single bytes with a bare `read` or `write`.
+//! Helpers to transfer bytes, and adapters for thrift's protocols, which transfer single bytes
+//! with a bare `read` or `write`.
 use std::io::{ErrorKind, Read, Result, Write};
 #[cfg(feature = "async")]
 use std::{
@@ -7,7 +8,48 @@ use std::{
 };
 
 #[cfg(feature = "async")]
-use futures::AsyncWrite;
+use futures::{AsyncRead, AsyncReadExt, AsyncWrite};
+
+use crate::error::Error;
+
+/// The most that is reserved for a declared length before its bytes are read
+const MAX_RESERVE: u64 = 1024 * 1024;
+
+fn check_length(read: usize, length: u64) -> std::result::Result<(), Error> {
+    if read as u64 != length {
+        return Err(Error::oos(format!(
+            "{length} bytes are declared but the source only has {read}"
+        )));
+    }
+    Ok(())
+}
+
+/// Replaces the contents of `buffer` by the next `length` bytes of `reader`.
+/// # Error
+/// Errors iff the reader errors or ends before.
+pub(crate) fn read_exactly<R: Read>(
+    reader: &mut R,
+    length: u64,
+    buffer: &mut Vec<u8>,
+) -> std::result::Result<(), Error> {
+    buffer.clear();
+    buffer.try_reserve(length.min(MAX_RESERVE) as usize)?;
+    let read = reader.by_ref().take(length).read_to_end(buffer)?;
+    check_length(read, length)
+}
+
+/// Like [`read_exactly`], asynchronously
+#[cfg(feature = "async")]
+pub(crate) async fn read_exactly_async<R: AsyncRead + Unpin>(
+    reader: &mut R,
+    length: u64,
+    buffer: &mut Vec<u8>,
+) -> std::result::Result<(), Error> {
+    buffer.clear();
+    buffer.try_reserve(length.min(MAX_RESERVE) as usize)?;
+    let read = reader.take(length).read_to_end(buffer).await?;
+    check_length(read, length)
+}
 
 /// A [`Read`] that retries interrupted reads
 pub(crate) struct RetryReader<R>(pub R);
-- 
2.43.0


From e1e8d60f477772eb4f6783852b7499c3925c6c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 32/66] fix: the size a compressed dictionary page declares can
 be inspected

---
 src/page/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 904abe2..52d2658 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -288,7 +288,9 @@ impl CompressedPage {
         }
     }
 
-    pub(crate) fn uncompressed_size(&self) -> usize {
+    /// The size, in bytes, that the page header declares for the page once decompressed.
+    /// This is what decompressing the page allocates.
+    pub fn uncompressed_size(&self) -> usize {
         match self {
             CompressedPage::Data(page) => page.uncompressed_page_size,
             CompressedPage::Dict(page) => page.uncompressed_page_size,
-- 
2.43.0


From df574dea2b5b2a956eac91ec4a3b05583f28d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 33/66] fix: the order of a column without one is undefined
 instead of a panic

---
 src/metadata/file_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 4d46882..9239203 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -55,7 +55,7 @@ impl FileMetaData {
     pub fn column_order(&self, i: usize) -> ColumnOrder {
         self.column_orders
             .as_ref()
-            .map(|data| data[i])
+            .and_then(|data| data.get(i).copied())
             .unwrap_or(ColumnOrder::Undefined)
     }
 
-- 
2.43.0


From c8f28be0b3b052ece34e573b0419b34a126049ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:39 +0000
Subject: [PATCH 34/66] fix: a page reader ends after an error and skips pages
 without recursion

---
 src/read/page/reader.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 9a247cd..35b5654 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -143,21 +143,32 @@ impl<R: Read> Iterator for PageReader<R> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let mut buffer = std::mem::take(&mut self.scratch);
-        let maybe_maybe_page = next_page(self, &mut buffer).transpose();
-        if let Some(ref maybe_page) = maybe_maybe_page {
-            if let Ok(CompressedPage::Data(page)) = maybe_page {
-                // check if we should filter it (only valid for data pages)
-                let to_consume = (self.pages_filter)(&self.descriptor, page.header());
-                if !to_consume {
-                    self.scratch = std::mem::take(&mut buffer);
-                    return self.next();
+        loop {
+            let maybe_maybe_page = next_page(self, &mut buffer).transpose();
+            match maybe_maybe_page {
+                Some(Ok(CompressedPage::Data(mut page))) => {
+                    // check if we should filter it (only valid for data pages)
+                    let to_consume = (self.pages_filter)(&self.descriptor, page.header());
+                    if !to_consume {
+                        buffer = std::mem::take(&mut page.buffer);
+                        continue;
+                    }
+                    return Some(Ok(CompressedPage::Data(page)));
+                }
+                Some(Ok(page)) => return Some(Ok(page)),
+                Some(Err(error)) => {
+                    // the position in the source is no longer known to be the start of a page
+                    self.seen_num_values = self.total_num_values;
+                    self.scratch = buffer;
+                    return Some(Err(error));
+                }
+                None => {
+                    // no page => we take back the buffer
+                    self.scratch = buffer;
+                    return None;
                 }
             }
-        } else {
-            // no page => we take back the buffer
-            self.scratch = std::mem::take(&mut buffer);
         }
-        maybe_maybe_page
     }
 }
 
-- 
2.43.0


From c103ccadc3517c9d3b41b99503811831b2c5d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:57 +0000
Subject: [PATCH 35/66] fix: reading pages through an index validates locations
 and headers and does not recurse

---
 src/read/page/indexed_reader.rs | 48 +++++++++++++++------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 11c7a63..0388d87 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -12,7 +12,7 @@ use crate::{
     transport::read_exactly,
 };
 
-use super::reader::{finish_page, read_page_header, PageMetaData};
+use super::reader::{finish_page, get_page_header, read_page_header, PageMetaData};
 
 #[derive(Debug, Clone, Copy)]
 enum State {
@@ -154,6 +154,9 @@ impl<R: Read + Seek> IndexedPageReader<R> {
             ));
         }
 
+        // validates the header
+        get_page_header(&page_header)?;
+
         finish_page(
             page_header,
             &mut data,
@@ -167,14 +170,15 @@ impl<R: Read + Seek> IndexedPageReader<R> {
         // a dictionary page exists iff the first data page is not at the start of
         // the column
         let (start, length) = match self.pages.get(0) {
-            Some(page) => {
-                let length = (page.start - self.column_start) as usize;
-                if length > 0 {
-                    (self.column_start, length)
-                } else {
-                    return None;
+            Some(page) => match page.start.checked_sub(self.column_start) {
+                Some(0) => return None,
+                Some(length) => (self.column_start, length as usize),
+                None => {
+                    return Some(Err(Error::oos(
+                        "The first data page cannot start before its column",
+                    )))
                 }
-            }
+            },
             None => return None,
         };
 
@@ -198,26 +202,18 @@ impl<R: Read + Seek> Iterator for IndexedPageReader<R> {
     type Item = Result<CompressedPage, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.state {
-            State::MaybeDict => {
-                self.state = State::Data;
-                if let Some(dict) = self.read_dict() {
-                    Some(dict)
-                } else {
-                    self.next()
-                }
+        if let State::MaybeDict = self.state {
+            self.state = State::Data;
+            if let Some(dict) = self.read_dict() {
+                return Some(dict);
             }
-            State::Data => {
-                if let Some(page) = self.pages.pop_front() {
-                    if page.selected_rows.is_empty() {
-                        self.next()
-                    } else {
-                        Some(self.read_page(page.start, page.length, page.selected_rows))
-                    }
-                } else {
-                    None
-                }
+        }
+
+        while let Some(page) = self.pages.pop_front() {
+            if !page.selected_rows.is_empty() {
+                return Some(self.read_page(page.start, page.length, page.selected_rows));
             }
         }
+        None
     }
 }
-- 
2.43.0


From 7eb444041dd62a03aafccb8802a224bbb622833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 36/66] fix: column indexes whose lists disagree, or with
 malformed booleans, are errors

---
 src/indexes/index.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/indexes/index.rs b/src/indexes/index.rs
index 8242ac2..18da8ea 100644
--- a/src/indexes/index.rs
+++ b/src/indexes/index.rs
@@ -69,6 +69,25 @@ fn equal(lhs: &dyn Index, rhs: &dyn Index) -> bool {
     }
 }
 
+/// Checks that the lists of an index have one item per page
+fn check_lengths(index: &ColumnIndex) -> Result<(), Error> {
+    let len = index.null_pages.len();
+    let null_counts_len = index.null_counts.as_ref().map(|x| x.len()).unwrap_or(len);
+    if index.min_values.len() != len || index.max_values.len() != len || null_counts_len != len {
+        return Err(Error::oos(
+            "The lists of a column index must have one item per page",
+        ));
+    }
+    Ok(())
+}
+
+fn deserialize_bool(value: &[u8]) -> Result<bool, Error> {
+    match value {
+        [value] => Ok(*value == 1),
+        _ => Err(Error::oos("A boolean of a column index must be one byte")),
+    }
+}
+
 /// An index of a column of [`NativeType`] physical representation
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct NativeIndex<T: NativeType> {
@@ -86,6 +105,7 @@ impl<T: NativeType> NativeIndex<T> {
         index: ColumnIndex,
         primitive_type: PrimitiveType,
     ) -> Result<Self, Error> {
+        check_lengths(&index)?;
         let len = index.min_values.len();
 
         let null_counts = index
@@ -159,6 +179,7 @@ impl ByteIndex {
         index: ColumnIndex,
         primitive_type: PrimitiveType,
     ) -> Result<Self, Error> {
+        check_lengths(&index)?;
         let len = index.min_values.len();
 
         let null_counts = index
@@ -219,6 +240,7 @@ impl FixedLenByteIndex {
         index: ColumnIndex,
         primitive_type: PrimitiveType,
     ) -> Result<Self, Error> {
+        check_lengths(&index)?;
         let len = index.min_values.len();
 
         let null_counts = index
@@ -274,6 +296,7 @@ pub struct BooleanIndex {
 
 impl BooleanIndex {
     pub(crate) fn try_new(index: ColumnIndex) -> Result<Self, Error> {
+        check_lengths(&index)?;
         let len = index.min_values.len();
 
         let null_counts = index
@@ -291,8 +314,8 @@ impl BooleanIndex {
                 let (min, max) = if is_null {
                     (None, None)
                 } else {
-                    let min = min[0] == 1;
-                    let max = max[0] == 1;
+                    let min = deserialize_bool(&min)?;
+                    let max = deserialize_bool(&max)?;
                     (Some(min), Some(max))
                 };
                 Ok(PageIndex {
-- 
2.43.0


From 49e979e0e8f61fab809cb88d2cd12239c8481416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:55 +0000
Subject: [PATCH 37/66] fix: page indexes are read where each chunk says they
 are and missing ones read as empty

---
 src/read/indexes/read.rs | 133 ++++++++++++---------------------------
 1 file changed, 40 insertions(+), 93 deletions(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index f3a94b3..63b265c 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -1,5 +1,5 @@
 use std::convert::TryInto;
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::io::{Read, Seek, SeekFrom};
 
 use parquet_format_safe::ColumnChunk;
 use parquet_format_safe::{thrift::protocol::TCompactInputProtocol, OffsetIndex, PageLocation};
@@ -11,105 +11,57 @@ use crate::transport::read_exactly;
 
 use super::deserialize::deserialize;
 
-fn prepare_read<F: Fn(&ColumnChunk) -> Option<i64>, G: Fn(&ColumnChunk) -> Option<i32>>(
+/// Reads the bytes of an index of every chunk. Empty if the index is not available for all of them.
+fn read_indexes<R: Read + Seek>(
+    reader: &mut R,
     chunks: &[ColumnChunkMetaData],
-    get_offset: F,
-    get_length: G,
-) -> Result<(u64, Vec<usize>), Error> {
-    // c1: [start, length]
-    // ...
-    // cN: [start, length]
-
-    let first_chunk = if let Some(chunk) = chunks.first() {
-        chunk
-    } else {
-        return Ok((0, vec![]));
-    };
-    let metadata = first_chunk.column_chunk();
-
-    let offset: u64 = if let Some(offset) = get_offset(metadata) {
-        offset.try_into()?
-    } else {
-        return Ok((0, vec![]));
-    };
-
-    let lengths = chunks
-        .iter()
-        .map(|x| get_length(x.column_chunk()))
-        .map(|maybe_length| {
-            let index_length = maybe_length.ok_or_else(|| {
-                Error::oos("The column length must exist if column offset exists")
-            })?;
+    get_range: impl Fn(&ColumnChunk) -> (Option<i64>, Option<i32>),
+) -> Result<Vec<Vec<u8>>, Error> {
+    let ranges = chunks.iter().map(|x| get_range(x.column_chunk()));
 
-            Ok(index_length.try_into()?)
-        })
-        .collect::<Result<Vec<_>, Error>>()?;
-
-    Ok((offset, lengths))
-}
-
-fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
-    prepare_read(chunks, |x| x.column_index_offset, |x| x.column_index_length)
-}
-
-fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
-    prepare_read(chunks, |x| x.offset_index_offset, |x| x.offset_index_length)
+    let mut data = vec![];
+    for (offset, length) in ranges {
+        let offset: u64 = match offset {
+            Some(offset) => offset.try_into()?,
+            None => return Ok(vec![]),
+        };
+        let length: u64 = length
+            .ok_or_else(|| Error::oos("The column length must exist if column offset exists"))?
+            .try_into()?;
+
+        reader.seek(SeekFrom::Start(offset))?;
+
+        let mut buffer = vec![];
+        read_exactly(reader, length, &mut buffer)?;
+        data.push(buffer);
+    }
+    Ok(data)
 }
 
-fn deserialize_column_indexes(
+/// Reads the column indexes of all [`ColumnChunkMetaData`] and deserializes them into [`Index`].
+/// Returns an empty vector if indexes are not available
+pub fn read_columns_indexes<R: Read + Seek>(
+    reader: &mut R,
     chunks: &[ColumnChunkMetaData],
-    data: &[u8],
-    lengths: Vec<usize>,
 ) -> Result<Vec<Box<dyn Index>>, Error> {
-    let mut start = 0;
-    let data = lengths.into_iter().map(|length| {
-        let r = &data[start..start + length];
-        start += length;
-        r
-    });
+    let data = read_indexes(reader, chunks, |x| {
+        (x.column_index_offset, x.column_index_length)
+    })?;
 
     chunks
         .iter()
         .zip(data)
         .map(|(chunk, data)| {
             let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
-            deserialize(data, primitive_type)
+            deserialize(&data, primitive_type)
         })
         .collect()
 }
 
-/// Reads the column indexes of all [`ColumnChunkMetaData`] and deserializes them into [`Index`].
-/// Returns an empty vector if indexes are not available
-pub fn read_columns_indexes<R: Read + Seek>(
-    reader: &mut R,
-    chunks: &[ColumnChunkMetaData],
-) -> Result<Vec<Box<dyn Index>>, Error> {
-    let (offset, lengths) = prepare_column_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
-
-    let mut data = vec![];
-    read_exactly(reader, length as u64, &mut data)?;
-
-    deserialize_column_indexes(chunks, &data, lengths)
-}
-
-fn deserialize_page_locations(
-    data: &[u8],
-    column_number: usize,
-) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let len = data.len() * 2 + 1024;
-    let mut reader = Cursor::new(data);
-
-    (0..column_number)
-        .map(|_| {
-            let mut prot = TCompactInputProtocol::new(&mut reader, len);
-            let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
-            Ok(offset.page_locations)
-        })
-        .collect()
+fn deserialize_page_locations(data: &[u8]) -> Result<Vec<PageLocation>, Error> {
+    let mut prot = TCompactInputProtocol::new(data, data.len() * 2 + 1024);
+    let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
+    Ok(offset.page_locations)
 }
 
 /// Read [`PageLocation`]s from the [`ColumnChunkMetaData`]s.
@@ -118,14 +70,9 @@ pub fn read_pages_locations<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let (offset, lengths) = prepare_offset_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
-
-    let mut data = vec![];
-    read_exactly(reader, length as u64, &mut data)?;
+    let data = read_indexes(reader, chunks, |x| {
+        (x.offset_index_offset, x.offset_index_length)
+    })?;
 
-    deserialize_page_locations(&data, chunks.len())
+    data.iter().map(|x| deserialize_page_locations(x)).collect()
 }
-- 
2.43.0


From 681a142f7a72d285bca9f8987289d14cd7cebda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 38/66] fix: footers and page indexes made of many small items
 are within the limit on allocations

---
 src/read/indexes/deserialize.rs | 2 +-
 src/read/indexes/read.rs        | 2 +-
 src/read/metadata.rs            | 2 +-
 src/read/stream.rs              | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/read/indexes/deserialize.rs b/src/read/indexes/deserialize.rs
index 10addf3..4442d43 100644
--- a/src/read/indexes/deserialize.rs
+++ b/src/read/indexes/deserialize.rs
@@ -6,7 +6,7 @@ use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::indexes::{BooleanIndex, ByteIndex, FixedLenByteIndex, Index, NativeIndex};
 
 pub fn deserialize(data: &[u8], primitive_type: PrimitiveType) -> Result<Box<dyn Index>, Error> {
-    let mut prot = TCompactInputProtocol::new(data, data.len() * 2 + 1024);
+    let mut prot = TCompactInputProtocol::new(data, data.len() * 10 + 1024);
 
     let index = ColumnIndex::read_from_in_protocol(&mut prot)?;
 
diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 63b265c..8cc7dad 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -59,7 +59,7 @@ pub fn read_columns_indexes<R: Read + Seek>(
 }
 
 fn deserialize_page_locations(data: &[u8]) -> Result<Vec<PageLocation>, Error> {
-    let mut prot = TCompactInputProtocol::new(data, data.len() * 2 + 1024);
+    let mut prot = TCompactInputProtocol::new(data, data.len() * 10 + 1024);
     let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
     Ok(offset.page_locations)
 }
diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index a515043..057c0bf 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -87,7 +87,7 @@ pub fn read_metadata_with_size<R: Read + Seek>(
     };
 
     // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    let max_size = reader.len() * 10 + 1024;
 
     deserialize_metadata(reader, max_size)
 }
diff --git a/src/read/stream.rs b/src/read/stream.rs
index ce52179..73efe93 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -73,7 +73,7 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
     };
 
     // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    let max_size = reader.len() * 10 + 1024;
 
     deserialize_metadata(reader, max_size)
 }
-- 
2.43.0


From c906afee702940172839409fa6cdfa44b6112432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 39/66] fix: schemas that are nested too deeply or have a
 negative number of children are errors

---
 src/schema/io_thrift/from_thrift.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 68add24..a8ac8b9 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -7,13 +7,16 @@ use crate::{
 
 use super::super::types::ParquetType;
 
+/// Schemas nested deeper than this are rejected, as they are traversed by recursion
+pub(crate) const MAX_SCHEMA_DEPTH: usize = 512;
+
 impl ParquetType {
     /// Method to convert from Thrift.
     pub fn try_from_thrift(elements: &[SchemaElement]) -> Result<ParquetType> {
         let mut index = 0;
         let mut schema_nodes = Vec::new();
         while index < elements.len() {
-            let t = from_thrift_helper(elements, index)?;
+            let t = from_thrift_helper(elements, index, 0)?;
             index = t.0;
             schema_nodes.push(t.1);
         }
@@ -32,7 +35,15 @@ impl ParquetType {
 /// The first result is the starting index for the next Type after this one. If it is
 /// equal to `elements.len()`, then this Type is the last one.
 /// The second result is the result Type.
-fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize, ParquetType)> {
+fn from_thrift_helper(
+    elements: &[SchemaElement],
+    index: usize,
+    depth: usize,
+) -> Result<(usize, ParquetType)> {
+    if depth > MAX_SCHEMA_DEPTH {
+        return Err(Error::oos("The schema is nested too deeply"));
+    }
+
     // Whether or not the current node is root (message type).
     // There is only one message type node in the schema tree.
     let is_root_node = index == 0;
@@ -93,10 +104,14 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
             Ok((index + 1, tp))
         }
         Some(n) => {
+            if n < 0 {
+                return Err(Error::oos("The number of children cannot be negative"));
+            }
+
             let mut fields = vec![];
             let mut next_index = index + 1;
             for _ in 0..n {
-                let child_result = from_thrift_helper(elements, next_index)?;
+                let child_result = from_thrift_helper(elements, next_index, depth + 1)?;
                 next_index = child_result.0;
                 fields.push(child_result.1);
             }
-- 
2.43.0


From c44fe493b2b1e8eda60818b5bac9ca188daf9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 40/66] fix: bloom filters without blocks, with partial blocks
 or at negative offsets do not panic

---
 src/bloom_filter/read.rs        |  7 ++++++-
 src/bloom_filter/split_block.rs | 10 +++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 5b3dac8..b8ceb50 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -23,7 +23,7 @@ pub fn read<R: Read + Seek>(
     let offset = column_metadata.metadata().bloom_filter_offset;
 
     let offset = if let Some(offset) = offset {
-        offset as u64
+        u64::try_from(offset)?
     } else {
         bitset.clear();
         return Ok(());
@@ -44,6 +44,11 @@ pub fn read<R: Read + Seek>(
     }
 
     let length: usize = header.num_bytes.try_into()?;
+    if length % 32 != 0 {
+        return Err(Error::oos(
+            "The bitset of a bloom filter must be made of blocks of 32 bytes",
+        ));
+    }
 
     read_exactly(&mut reader, length as u64, bitset)
 }
diff --git a/src/bloom_filter/split_block.rs b/src/bloom_filter/split_block.rs
index 576f4d5..d352500 100644
--- a/src/bloom_filter/split_block.rs
+++ b/src/bloom_filter/split_block.rs
@@ -47,8 +47,12 @@ fn unload_block(block: [u32; 8], bitset: &mut [u8]) {
     }
 }
 
-/// Returns whether the `hash` is in the set
+/// Returns whether the `hash` is in the set. It may be when `bitset` does not have any block.
 pub fn is_in_set(bitset: &[u8], hash: u64) -> bool {
+    if bitset.len() < 32 {
+        // nothing is known about the values
+        return true;
+    }
     let block_index = hash_to_block_index(hash, bitset.len());
     let key = hash as u32;
 
@@ -66,6 +70,10 @@ pub fn is_in_set(bitset: &[u8], hash: u64) -> bool {
 
 /// Inserts a new hash to the set
 pub fn insert(bitset: &mut [u8], hash: u64) {
+    if bitset.len() < 32 {
+        // there is no block to insert to
+        return;
+    }
     let block_index = hash_to_block_index(hash, bitset.len());
     let key = hash as u32;
 
-- 
2.43.0


From 97c766704bfeb911ea95f2b7e7c3a7e560a68a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:29 +0000
Subject: [PATCH 41/66] fix: row intervals that end beyond the largest row do
 not overflow

---
 src/indexes/intervals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indexes/intervals.rs b/src/indexes/intervals.rs
index b3e3e00..0db5a5b 100644
--- a/src/indexes/intervals.rs
+++ b/src/indexes/intervals.rs
@@ -99,8 +99,8 @@ fn is_in(probe: Interval, intervals: &[Interval]) -> Vec<Interval> {
     intervals
         .iter()
         .filter_map(|interval| {
-            let interval_end = interval.start + interval.length;
-            let probe_end = probe.start + probe.length;
+            let interval_end = interval.start.saturating_add(interval.length);
+            let probe_end = probe.start.saturating_add(probe.length);
             let overlaps = (probe.start < interval_end) && (probe_end > interval.start);
             if overlaps {
                 let start = interval.start.max(probe.start);
-- 
2.43.0


From 2a1b35ba808e2fb6a999eaf81879898404426376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:50 +0000
Subject: [PATCH 42/66] fix: pages without selected rows have no row selections

---
 src/indexes/intervals.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/indexes/intervals.rs b/src/indexes/intervals.rs
index 0db5a5b..a0c0dad 100644
--- a/src/indexes/intervals.rs
+++ b/src/indexes/intervals.rs
@@ -101,10 +101,10 @@ fn is_in(probe: Interval, intervals: &[Interval]) -> Vec<Interval> {
         .filter_map(|interval| {
             let interval_end = interval.start.saturating_add(interval.length);
             let probe_end = probe.start.saturating_add(probe.length);
-            let overlaps = (probe.start < interval_end) && (probe_end > interval.start);
-            if overlaps {
-                let start = interval.start.max(probe.start);
-                let end = interval_end.min(probe_end);
+            let start = interval.start.max(probe.start);
+            let end = interval_end.min(probe_end);
+            // neither the interval nor the page may be empty
+            if start < end {
                 Some(Interval::new(start - probe.start, end - start))
             } else {
                 None
-- 
2.43.0


From 88184d2a089a3a905f23d67ce119b9228e891f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:56 +0000
Subject: [PATCH 43/66] fix: pages with values but without bounds are not
 written as null pages

---
 src/write/indexes/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/write/indexes/serialize.rs b/src/write/indexes/serialize.rs
index df48153..1a5410f 100644
--- a/src/write/indexes/serialize.rs
+++ b/src/write/indexes/serialize.rs
@@ -35,6 +35,10 @@ pub fn serialize_column_index(pages: &[PageWriteSpec]) -> Result<ColumnIndex> {
                             .ok_or_else(|| Error::oos("max value of a page is required"))?,
                     );
                     null_pages.push(false)
+                } else if null_count < spec.num_values as i64 {
+                    return Err(Error::oos(
+                        "min value of a page with non-null values is required",
+                    ));
                 } else {
                     min_values.push(vec![0]);
                     max_values.push(vec![0]);
-- 
2.43.0


From 7110876e4dfaf32fdbbad696a93a8b527b721a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:01 +0000
Subject: [PATCH 44/66] fix: ReadColumnIterator yields columns in their order

---
 src/read/column/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index 3af21d7..e8a5610 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -136,8 +136,10 @@ impl ReadColumnIterator {
     /// Returns a new [`ReadColumnIterator`]
     pub fn new(
         field: ParquetType,
-        chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
+        mut chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
     ) -> Self {
+        // chunks are popped from the end
+        chunks.reverse();
         Self {
             field,
             chunks,
-- 
2.43.0


From 7ad643b6c3864d888cb084a4c30ddc7f04044aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:19 +0000
Subject: [PATCH 45/66] fix: NaN bounds of pages are not part of the bounds of
 their column chunk

---
 src/write/column_chunk.rs | 10 +++++++---
 src/write/statistics.rs   | 22 ++++++++++++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index ed716b1..0458f6b 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -27,7 +27,7 @@ use crate::transport::FullAsyncWriter;
 use crate::transport::FullWriter;
 
 use super::page::{is_data_page, write_page, PageWriteSpec};
-use super::statistics::reduce;
+use super::statistics::{ordered, reduce};
 use super::DynStreamingIterator;
 
 pub fn write_column_chunk<'a, W, E>(
@@ -114,7 +114,11 @@ fn reduce_pages(specs: &[PageWriteSpec]) -> Result<Option<Statistics>> {
         return Ok(None);
     }
 
-    let statistics = specs.iter().map(|x| &x.statistics).collect::<Vec<_>>();
+    let statistics = specs
+        .iter()
+        .map(|x| x.statistics.as_ref().map(ordered))
+        .collect::<Vec<_>>();
+    let statistics = statistics.iter().collect::<Vec<_>>();
     let mut statistics = match reduce(&statistics)? {
         Some(statistics) => serialize_statistics(statistics.as_ref()),
         None => return Ok(None),
@@ -125,7 +129,7 @@ fn reduce_pages(specs: &[PageWriteSpec]) -> Result<Option<Statistics>> {
         let page = spec
             .statistics
             .as_ref()
-            .map(|x| serialize_statistics(x.as_ref()));
+            .map(|x| serialize_statistics(ordered(x).as_ref()));
         if let Some(page) = page {
             if page.null_count == Some(spec.num_values as i64) {
                 continue;
diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index cb18a03..0d648e9 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -15,6 +15,28 @@ fn sort_order(type_: &PrimitiveType) -> SortOrder {
     )
 }
 
+/// The statistics without the bounds that have no place in the order of the values (NaN)
+pub fn ordered(stats: &Arc<dyn Statistics>) -> Arc<dyn Statistics> {
+    fn without_nan<T: NativeType + PartialOrd>(
+        stats: &PrimitiveStatistics<T>,
+    ) -> PrimitiveStatistics<T> {
+        let is_ordered = |x: &T| x.partial_cmp(x).is_some();
+        let mut stats = stats.clone();
+        stats.min_value = stats.min_value.filter(is_ordered);
+        stats.max_value = stats.max_value.filter(is_ordered);
+        stats
+    }
+
+    let any = stats.as_any();
+    if let Some(stats) = any.downcast_ref::<PrimitiveStatistics<f32>>() {
+        Arc::new(without_nan(stats))
+    } else if let Some(stats) = any.downcast_ref::<PrimitiveStatistics<f64>>() {
+        Arc::new(without_nan(stats))
+    } else {
+        stats.clone()
+    }
+}
+
 #[inline]
 fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) -> Option<T> {
     match (lhs, rhs) {
-- 
2.43.0


From 584207d80f61b532cc887e991fdec353bd74d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:24 +0000
Subject: [PATCH 46/66] fix: columns whose type has no order have no bounds

---
 src/write/column_chunk.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 0458f6b..f937a5b 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -15,7 +15,7 @@ use crate::{
     compression::Compression,
     encoding::Encoding,
     error::{Error, Result},
-    metadata::ColumnDescriptor,
+    metadata::{get_sort_order, ColumnDescriptor, SortOrder},
     page::{CompressedPage, PageType},
 };
 
@@ -104,7 +104,10 @@ where
 }
 
 /// The statistics of the chunk, derived from the statistics of its pages.
-fn reduce_pages(specs: &[PageWriteSpec]) -> Result<Option<Statistics>> {
+fn reduce_pages(
+    specs: &[PageWriteSpec],
+    descriptor: &ColumnDescriptor,
+) -> Result<Option<Statistics>> {
     let pages = specs
         .iter()
         .filter(|spec| is_data_page(spec) && spec.num_values > 0)
@@ -142,6 +145,18 @@ fn reduce_pages(specs: &[PageWriteSpec]) -> Result<Option<Statistics>> {
             }
         }
     }
+
+    // SPEC: there are no bounds when the order of the type is undefined
+    let type_ = &descriptor.descriptor.primitive_type;
+    let sort_order = get_sort_order(
+        &type_.logical_type,
+        &type_.converted_type,
+        &type_.physical_type,
+    );
+    if sort_order == SortOrder::Undefined {
+        statistics.min_value = None;
+        statistics.max_value = None;
+    }
     Ok(Some(statistics))
 }
 
@@ -222,7 +237,7 @@ fn build_column_chunk(
     // Sort the encodings to have deterministic metadata
     encodings.sort();
 
-    let statistics = reduce_pages(specs)?;
+    let statistics = reduce_pages(specs, descriptor)?;
 
     let (type_, _): (Type, Option<i32>) = descriptor.descriptor.primitive_type.physical_type.into();
 
-- 
2.43.0


From 49779005de9e450ebfdeee42d49e43a1d9048201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 47/66] fix: textual schemas must end with the closing brace of
 the message

---
 src/schema/io_message/from_message.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 3434932..11f0afe 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -299,6 +299,12 @@ impl<'a> Parser<'a> {
                     .next()
                     .ok_or_else(|| Error::oos("Expected name, found None"))?;
                 let fields = self.parse_child_types()?;
+                if let Some(token) = self.tokenizer.next() {
+                    return Err(Error::oos(format!(
+                        "Expected the end of the message, found token '{}'",
+                        token
+                    )));
+                }
                 Ok(ParquetType::new_root(name.to_string(), fields))
             }
             _ => Err(Error::oos("Message type does not start with 'message'")),
@@ -310,7 +316,11 @@ impl<'a> Parser<'a> {
     fn parse_child_types(&mut self) -> Result<Vec<ParquetType>> {
         assert_token(self.tokenizer.next(), "{")?;
         let mut vec = Vec::new();
-        while let Some(value) = self.tokenizer.next() {
+        loop {
+            let value = self
+                .tokenizer
+                .next()
+                .ok_or_else(|| Error::oos("Expected '}', but no token found (None)"))?;
             if value == "}" {
                 break;
             } else {
-- 
2.43.0


From e3260d3e3cef99a73c772b7ab1b86c32d9515223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:59 +0000
Subject: [PATCH 48/66] fix: ids of textual schemas that are not integers are
 errors

---
 src/schema/io_message/from_message.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 11f0afe..6426f19 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -372,7 +372,11 @@ impl<'a> Parser<'a> {
 
         // Parse optional id
         let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
+            Some(parse_i32(
+                self.tokenizer.next(),
+                "Expected id, found None",
+                "Failed to parse the id of a field",
+            )?)
         } else {
             self.tokenizer.backtrack();
             None
@@ -457,7 +461,11 @@ impl<'a> Parser<'a> {
 
         // Parse optional id
         let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
+            Some(parse_i32(
+                self.tokenizer.next(),
+                "Expected id, found None",
+                "Failed to parse the id of a field",
+            )?)
         } else {
             self.tokenizer.backtrack();
             None
-- 
2.43.0


From fc3dcbd2da2bc95de780109e8f5d4c9a5e4e9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:06 +0000
Subject: [PATCH 49/66] fix: delimiters are not names of fields in textual
 schemas

---
 src/schema/io_message/from_message.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 6426f19..e05e4e1 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -253,6 +253,15 @@ fn assert_token(token: Option<&str>, expected: &str) -> Result<()> {
     }
 }
 
+// Utility function to parse the name of a field or return general error.
+fn parse_name(value: Option<&str>) -> Result<&str> {
+    let name = value.ok_or_else(|| Error::oos("Expected name, found None"))?;
+    if name.starts_with(Tokenizer::is_schema_delim) {
+        return Err(Error::oos(format!("Expected name, found '{}'", name)));
+    }
+    Ok(name)
+}
+
 // Utility function to parse i32 or return general error.
 fn parse_i32(value: Option<&str>, not_found_msg: &str, parse_fail_msg: &str) -> Result<i32> {
     value
@@ -294,10 +303,7 @@ impl<'a> Parser<'a> {
         // Check that message type starts with "message".
         match self.tokenizer.next() {
             Some("message") => {
-                let name = self
-                    .tokenizer
-                    .next()
-                    .ok_or_else(|| Error::oos("Expected name, found None"))?;
+                let name = parse_name(self.tokenizer.next())?;
                 let fields = self.parse_child_types()?;
                 if let Some(token) = self.tokenizer.next() {
                     return Err(Error::oos(format!(
@@ -351,10 +357,7 @@ impl<'a> Parser<'a> {
 
     fn add_group_type(&mut self, repetition: Repetition) -> Result<ParquetType> {
         // Parse name of the group type
-        let name = self
-            .tokenizer
-            .next()
-            .ok_or_else(|| Error::oos("Expected name, found None"))?;
+        let name = parse_name(self.tokenizer.next())?;
 
         // Parse converted type if exists
         let converted_type = if let Some("(") = self.tokenizer.next() {
@@ -413,10 +416,7 @@ impl<'a> Parser<'a> {
         };
 
         // Parse name of the primitive type
-        let name = self
-            .tokenizer
-            .next()
-            .ok_or_else(|| Error::oos("Expected name, found None"))?;
+        let name = parse_name(self.tokenizer.next())?;
 
         // Parse logical types
         let (converted_type, logical_type) = if let Some("(") = self.tokenizer.next() {
-- 
2.43.0


From 4d4130276e8f2fbb304d53b74f64e10f76338aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 50/66] fix: textual schemas that are nested too deeply are
 errors

---
 src/schema/io_message/from_message.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index e05e4e1..a6ca917 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -45,6 +45,7 @@
 use parquet_format_safe::Type;
 use types::PrimitiveLogicalType;
 
+use super::super::io_thrift::MAX_SCHEMA_DEPTH;
 use super::super::types::{ParquetType, TimeUnit};
 use super::super::*;
 use crate::error::{Error, Result};
@@ -304,7 +305,7 @@ impl<'a> Parser<'a> {
         match self.tokenizer.next() {
             Some("message") => {
                 let name = parse_name(self.tokenizer.next())?;
-                let fields = self.parse_child_types()?;
+                let fields = self.parse_child_types(0)?;
                 if let Some(token) = self.tokenizer.next() {
                     return Err(Error::oos(format!(
                         "Expected the end of the message, found token '{}'",
@@ -319,7 +320,7 @@ impl<'a> Parser<'a> {
 
     // Parses child types for a current group type.
     // This is only invoked on root and group types.
-    fn parse_child_types(&mut self) -> Result<Vec<ParquetType>> {
+    fn parse_child_types(&mut self, depth: usize) -> Result<Vec<ParquetType>> {
         assert_token(self.tokenizer.next(), "{")?;
         let mut vec = Vec::new();
         loop {
@@ -331,13 +332,17 @@ impl<'a> Parser<'a> {
                 break;
             } else {
                 self.tokenizer.backtrack();
-                vec.push(self.add_type()?);
+                vec.push(self.add_type(depth + 1)?);
             }
         }
         Ok(vec)
     }
 
-    fn add_type(&mut self) -> Result<ParquetType> {
+    fn add_type(&mut self, depth: usize) -> Result<ParquetType> {
+        if depth > MAX_SCHEMA_DEPTH {
+            return Err(Error::oos("The schema is nested too deeply"));
+        }
+
         // Parse repetition
         let repetition = self
             .tokenizer
@@ -346,7 +351,9 @@ impl<'a> Parser<'a> {
             .and_then(|v| repetition_from_str(&v.to_uppercase()))?;
 
         match self.tokenizer.next() {
-            Some(group) if group.to_uppercase() == "GROUP" => self.add_group_type(repetition),
+            Some(group) if group.to_uppercase() == "GROUP" => {
+                self.add_group_type(repetition, depth)
+            }
             Some(type_string) => {
                 let physical_type = type_from_str(&type_string.to_uppercase())?;
                 self.add_primitive_type(repetition, physical_type)
@@ -355,7 +362,7 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn add_group_type(&mut self, repetition: Repetition) -> Result<ParquetType> {
+    fn add_group_type(&mut self, repetition: Repetition, depth: usize) -> Result<ParquetType> {
         // Parse name of the group type
         let name = parse_name(self.tokenizer.next())?;
 
@@ -385,7 +392,7 @@ impl<'a> Parser<'a> {
             None
         };
 
-        let fields = self.parse_child_types()?;
+        let fields = self.parse_child_types(depth)?;
 
         Ok(ParquetType::from_converted(
             name.to_string(),
-- 
2.43.0


From bdcdc4fbd2dd1f52878e44551ff512aecd38a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 51/66] fix: INTERVAL in textual schemas is the converted type

---
 src/schema/io_message/from_message.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index a6ca917..d9dd0d3 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -67,7 +67,6 @@ fn is_logical_type(s: &str) -> bool {
             | "BSON"
             | "UUID"
             | "UNKNOWN"
-            | "INTERVAL"
     )
 }
 
@@ -636,7 +635,6 @@ impl<'a> Parser<'a> {
             "BSON" => PrimitiveLogicalType::Bson,
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
-            "INTERVAL" => return Err(Error::oos("Interval logical type not yet supported")),
             _ => unreachable!(),
         })
     }
-- 
2.43.0


From 562545757161f2a59af5f2b31a0b4ae41c300aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 52/66] fix: schemas with groups without fields are read back

---
 src/schema/io_thrift/from_thrift.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index a8ac8b9..5402d14 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -55,13 +55,15 @@ fn from_thrift_helper(
     let converted_type = element.converted_type;
 
     let id = element.field_id;
+    // a group without children has no physical type
+    let is_empty_group = element.num_children == Some(0) && element.type_.is_none();
     match element.num_children {
         // From parquet-format:
         //   The children count is used to construct the nested relationship.
         //   This field is not set when the element is a primitive type
         // Sometimes parquet-cpp sets num_children field to 0 for primitive types, so we
         // have to handle this case too.
-        None | Some(0) => {
+        None | Some(0) if !is_empty_group => {
             // primitive type
             let repetition = element
                 .repetition_type
@@ -103,7 +105,8 @@ fn from_thrift_helper(
 
             Ok((index + 1, tp))
         }
-        Some(n) => {
+        n => {
+            let n = n.unwrap_or(0);
             if n < 0 {
                 return Err(Error::oos("The number of children cannot be negative"));
             }
-- 
2.43.0


From 873ba85e4af274b62815fbc0d6015236e57cfcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 53/66] fix: the precision of decimals of 129 bytes or more is
 limited

---
 src/schema/types/spec.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/schema/types/spec.rs b/src/schema/types/spec.rs
index ce5772b..431826c 100644
--- a/src/schema/types/spec.rs
+++ b/src/schema/types/spec.rs
@@ -41,15 +41,13 @@ fn check_decimal_invariants(
         }
         PhysicalType::FixedLenByteArray(length) => {
             let oos_error = || Error::oos(format!("Byte Array length {} out of spec", length));
-            let max_precision = (2f64.powi(
-                (*length as i32)
-                    .checked_mul(8)
-                    .ok_or_else(oos_error)?
-                    .checked_sub(1)
-                    .ok_or_else(oos_error)?,
-            ) - 1f64)
-                .log10()
-                .floor() as usize;
+            let bits = (*length as i32)
+                .checked_mul(8)
+                .ok_or_else(oos_error)?
+                .checked_sub(1)
+                .ok_or_else(oos_error)?;
+            // `2^bits - 1` has as many digits as `2^bits`, which may not fit in a `f64`
+            let max_precision = (bits as f64 * 2f64.log10()).floor() as usize;
 
             if precision > max_precision {
                 return Err(Error::oos(format!(
-- 
2.43.0


From ffebb8843032273b43af419ee7952e6be0340ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:27 +0000
Subject: [PATCH 54/66] fix: the precision of decimals fits in the file format

---
 src/schema/types/spec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/schema/types/spec.rs b/src/schema/types/spec.rs
index 431826c..bf8102c 100644
--- a/src/schema/types/spec.rs
+++ b/src/schema/types/spec.rs
@@ -14,6 +14,12 @@ fn check_decimal_invariants(
             precision,
         )));
     }
+    if i32::try_from(precision).is_err() {
+        return Err(Error::oos(format!(
+            "DECIMAL precision {} does not fit in the format",
+            precision,
+        )));
+    }
     if scale > precision {
         return Err(Error::oos(format!(
             "Invalid DECIMAL: scale ({}) cannot be greater than precision \
-- 
2.43.0


From 9d13fc08ee45ce1e2f09b890cc6a5e8e06f0fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:50 +0000
Subject: [PATCH 55/66] fix: INT96 timestamps beyond 64 bit nanoseconds do not
 overflow

---
 src/types.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 7e7c1af..d38efc0 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -95,21 +95,27 @@ impl NativeType for [u32; 3] {
 
     #[inline]
     fn ord(&self, other: &Self) -> std::cmp::Ordering {
-        int96_to_i64_ns(*self).ord(&int96_to_i64_ns(*other))
+        int96_to_i128_ns(*self).cmp(&int96_to_i128_ns(*other))
     }
 }
 
+/// The nanoseconds since the epoch; timestamps beyond [`i64`] are clamped to it.
 #[inline]
 pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
+    int96_to_i128_ns(value).clamp(i64::MIN as i128, i64::MAX as i128) as i64
+}
+
+#[inline]
+fn int96_to_i128_ns(value: [u32; 3]) -> i128 {
     const JULIAN_DAY_OF_EPOCH: i64 = 2_440_588;
     const SECONDS_PER_DAY: i64 = 86_400;
-    const NANOS_PER_SECOND: i64 = 1_000_000_000;
+    const NANOS_PER_SECOND: i128 = 1_000_000_000;
 
     let day = value[2] as i64;
     let nanoseconds = ((value[1] as i64) << 32) + value[0] as i64;
     let seconds = (day - JULIAN_DAY_OF_EPOCH) * SECONDS_PER_DAY;
 
-    seconds * NANOS_PER_SECOND + nanoseconds
+    seconds as i128 * NANOS_PER_SECOND + nanoseconds as i128
 }
 
 /// Returns the ordering of two binary values.
-- 
2.43.0


From 6b9ee187f9e29ee51c4b53335827373459d07f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 56/66] fix: the metadata of column chunks is serializable with
 serde

---
 src/metadata/column_chunk_metadata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metadata/column_chunk_metadata.rs b/src/metadata/column_chunk_metadata.rs
index e92c90b..141c219 100644
--- a/src/metadata/column_chunk_metadata.rs
+++ b/src/metadata/column_chunk_metadata.rs
@@ -48,12 +48,12 @@ where
     S: Serializer,
 {
     let mut buf = vec![];
-    let cursor = Cursor::new(&mut buf[..]);
-    let mut protocol = TCompactOutputProtocol::new(cursor);
+    let mut protocol = TCompactOutputProtocol::new(&mut buf);
     column_chunk
         .write_to_out_protocol(&mut protocol)
         .map_err(S::Error::custom)?;
-    serializer.serialize_bytes(&buf)
+    // deserialized as a `Vec`
+    buf.serialize(serializer)
 }
 
 #[cfg(feature = "serde_types")]
-- 
2.43.0


From 2358744d4cee06859c78ac1b5fb2aa81b3d16f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:41 +0000
Subject: [PATCH 57/66] fix: column orders are kept when metadata is converted
 to thrift

---
 src/metadata/file_metadata.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 9239203..484ff5e 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -97,13 +97,24 @@ impl FileMetaData {
                 .collect(),
             key_value_metadata: self.key_value_metadata,
             created_by: self.created_by,
-            column_orders: None, // todo
+            column_orders: self.column_orders.and_then(unparse_column_orders),
             encryption_algorithm: None,
             footer_signing_key_metadata: None,
         }
     }
 }
 
+/// Converts [`ColumnOrder`]s to Thrift, which has no representation of undefined orders.
+fn unparse_column_orders(orders: Vec<ColumnOrder>) -> Option<Vec<TColumnOrder>> {
+    orders
+        .into_iter()
+        .map(|order| match order {
+            ColumnOrder::TypeDefinedOrder(_) => Some(TColumnOrder::TYPEORDER(Default::default())),
+            ColumnOrder::Undefined => None,
+        })
+        .collect()
+}
+
 /// Parses [`ColumnOrder`] from Thrift definition.
 fn parse_column_orders(
     orders: &[TColumnOrder],
-- 
2.43.0


From 27435828f5c19694d53c7e3292a59d020eded2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:47 +0000
Subject: [PATCH 58/66] fix: row groups whose total size overflows are errors

---
 src/metadata/row_metadata.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metadata/row_metadata.rs b/src/metadata/row_metadata.rs
index 707820d..ff3478b 100644
--- a/src/metadata/row_metadata.rs
+++ b/src/metadata/row_metadata.rs
@@ -73,6 +73,12 @@ impl RowGroupMetaData {
             })
             .collect::<Result<Vec<_>>>()?;
 
+        // the size of the row group is the sum of the (non-negative) sizes of its columns
+        columns
+            .iter()
+            .try_fold(0i64, |acc, c| acc.checked_add(c.compressed_size()))
+            .ok_or_else(|| Error::oos("The size of the row group exceeds the largest integer"))?;
+
         Ok(RowGroupMetaData {
             columns,
             num_rows,
-- 
2.43.0


From 8680b5c378ecc8b8f7369d4a98d0df6b11ee12e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:44 +0000
Subject: [PATCH 59/66] fix: a group only contains groups with the same name
 and repetition

---
 src/schema/types/parquet_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schema/types/parquet_type.rs b/src/schema/types/parquet_type.rs
index af9a7bd..e6cd4af 100644
--- a/src/schema/types/parquet_type.rs
+++ b/src/schema/types/parquet_type.rs
@@ -90,6 +90,10 @@ impl ParquetType {
                     ..
                 },
             ) => {
+                if !basic_match {
+                    return false;
+                }
+
                 // build hashmap of name -> Type
                 let mut field_map = HashMap::new();
                 for field in fields {
-- 
2.43.0


From 8e9f00b93b1e3ab6691c3412c369fab5baed8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:49 +0000
Subject: [PATCH 60/66] fix: primitives annotated as MAP or LIST in a message
 are errors

---
 src/schema/io_message/from_message.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index d9dd0d3..a404e45 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -635,7 +635,12 @@ impl<'a> Parser<'a> {
             "BSON" => PrimitiveLogicalType::Bson,
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
-            _ => unreachable!(),
+            // `MAP` and `LIST` annotate groups
+            _ => {
+                return Err(Error::oos(format!(
+                    "{tpe} is not a logical type of a primitive"
+                )))
+            }
         })
     }
 }
-- 
2.43.0


From 645ce4d4473f2e002a54b6be8fee9ffafb247cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:19 +0000
Subject: [PATCH 61/66] fix: the header of a bloom filter does not allocate
 what it declares

---
 src/bloom_filter/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index b8ceb50..7172ddc 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -11,6 +11,9 @@ use crate::{
     transport::{read_exactly, RetryReader},
 };
 
+/// What the header of a bloom filter may allocate: only fields that are unknown do.
+const MAX_HEADER_SIZE: usize = 64 * 1024;
+
 /// Reads the bloom filter associated to [`ColumnChunkMetaData`] into `bitset`.
 /// Results in an empty `bitset` if there is no associated bloom filter or the algorithm is not supported.
 /// # Error
@@ -31,7 +34,7 @@ pub fn read<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     // deserialize header
-    let mut prot = TCompactInputProtocol::new(RetryReader(&mut reader), usize::MAX); // max is ok since `BloomFilterHeader` never allocates
+    let mut prot = TCompactInputProtocol::new(RetryReader(&mut reader), MAX_HEADER_SIZE);
     let header = BloomFilterHeader::read_from_in_protocol(&mut prot)?;
 
     if header.algorithm != BloomFilterAlgorithm::BLOCK(SplitBlockAlgorithm {}) {
-- 
2.43.0


From 6cae0f90a34ea8702b18503eb028ff6ce38ed15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:01 +0000
Subject: [PATCH 62/66] fix: page headers with a negative number of values are
 errors

---
 src/read/page/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 35b5654..0c5e647 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -304,6 +304,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
             let _: Encoding = header.encoding.try_into()?;
             let _: Encoding = header.repetition_level_encoding.try_into()?;
             let _: Encoding = header.definition_level_encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
 
             Some(DataPageHeader::V1(header))
         }
@@ -312,6 +313,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
                 Error::oos("The page header type is a v1 data page but the v1 header is empty")
             })?;
             let _: Encoding = header.encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
             Some(DataPageHeader::V2(header))
         }
         _ => None,
-- 
2.43.0


From 469013cdde3181a6e94e29105c56d95ad9f66fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:13 +0000
Subject: [PATCH 63/66] fix: lengths of FIXED_LEN_BYTE_ARRAY that the format
 cannot hold are errors

---
 src/schema/types/parquet_type.rs |  1 +
 src/schema/types/spec.rs         | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/schema/types/parquet_type.rs b/src/schema/types/parquet_type.rs
index e6cd4af..d49094c 100644
--- a/src/schema/types/parquet_type.rs
+++ b/src/schema/types/parquet_type.rs
@@ -163,6 +163,7 @@ impl ParquetType {
         logical_type: Option<PrimitiveLogicalType>,
         id: Option<i32>,
     ) -> Result<Self> {
+        spec::check_physical_invariants(&physical_type)?;
         spec::check_converted_invariants(&physical_type, &converted_type)?;
         spec::check_logical_invariants(&physical_type, &logical_type)?;
 
diff --git a/src/schema/types/spec.rs b/src/schema/types/spec.rs
index bf8102c..caeb365 100644
--- a/src/schema/types/spec.rs
+++ b/src/schema/types/spec.rs
@@ -74,6 +74,18 @@ fn check_decimal_invariants(
     Ok(())
 }
 
+pub fn check_physical_invariants(physical_type: &PhysicalType) -> Result<()> {
+    match physical_type {
+        PhysicalType::FixedLenByteArray(length) if i32::try_from(*length).is_err() => {
+            Err(Error::oos(format!(
+                "FIXED_LEN_BYTE_ARRAY length {} does not fit in the format",
+                length,
+            )))
+        }
+        _ => Ok(()),
+    }
+}
+
 pub fn check_converted_invariants(
     physical_type: &PhysicalType,
     converted_type: &Option<PrimitiveConvertedType>,
-- 
2.43.0


From 0a4cbcffb11450c5dcc0c8499859cdb3a85cc7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:19 +0000
Subject: [PATCH 64/66] fix: decimals of FIXED_LEN_BYTE_ARRAY of 2^28 bytes or
 more are legal

---
 src/schema/types/spec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/schema/types/spec.rs b/src/schema/types/spec.rs
index caeb365..05a0d58 100644
--- a/src/schema/types/spec.rs
+++ b/src/schema/types/spec.rs
@@ -47,7 +47,9 @@ fn check_decimal_invariants(
         }
         PhysicalType::FixedLenByteArray(length) => {
             let oos_error = || Error::oos(format!("Byte Array length {} out of spec", length));
-            let bits = (*length as i32)
+            let bits = i32::try_from(*length)
+                .map(i64::from)
+                .map_err(|_| oos_error())?
                 .checked_mul(8)
                 .ok_or_else(oos_error)?
                 .checked_sub(1)
-- 
2.43.0


From d7a3743bad3210f6aa0bcc3bcfaf2f5639abafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:50 +0000
Subject: [PATCH 65/66] fix: prefix lengths of DELTA_BYTE_ARRAY that are out of
 range are errors

---
 src/encoding/delta_byte_array/decoder.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/encoding/delta_byte_array/decoder.rs b/src/encoding/delta_byte_array/decoder.rs
index 6e8f208..1a5609a 100644
--- a/src/encoding/delta_byte_array/decoder.rs
+++ b/src/encoding/delta_byte_array/decoder.rs
@@ -11,6 +11,8 @@ use super::super::delta_length_byte_array;
 pub struct Decoder<'a> {
     values: &'a [u8],
     prefix_lengths: delta_bitpacked::Decoder<'a>,
+    // whether a prefix length was invalid, in which case nothing else can be decoded
+    failed: bool,
 }
 
 impl<'a> Decoder<'a> {
@@ -19,6 +21,7 @@ impl<'a> Decoder<'a> {
         Ok(Self {
             values,
             prefix_lengths,
+            failed: false,
         })
     }
 
@@ -34,7 +37,17 @@ impl<'a> Iterator for Decoder<'a> {
     type Item = Result<u32, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.prefix_lengths.next().map(|x| x.map(|x| x as u32))
+        if self.failed {
+            return None;
+        }
+        self.prefix_lengths.next().map(|x| {
+            x.and_then(|x| {
+                u32::try_from(x).map_err(|_| {
+                    self.failed = true;
+                    Error::oos("The prefix lengths of DELTA_BYTE_ARRAY are out of range")
+                })
+            })
+        })
     }
 }
 
-- 
2.43.0


From c3dd0507fb220511c1f16aa1be4f1b6076569eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:41 +0000
Subject: [PATCH 66/66] fix: pages with large statistics are read through the
 page index

---
 src/read/page/indexed_reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 0388d87..a9525c7 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -57,9 +57,10 @@ fn read_page<R: Read + Seek>(
     // read [header][data] to buffer
     read_exactly(reader, length as u64, buffer)?;
 
-    // deserialize [header]
+    // deserialize [header], which may be as large as the statistics in it
+    let max_size = buffer.len() * 10 + 1024;
     let mut reader = Cursor::new(buffer);
-    let page_header = read_page_header(&mut reader, 1024 * 1024)?;
+    let page_header = read_page_header(&mut reader, max_size)?;
     let header_size = reader.seek(SeekFrom::Current(0)).unwrap() as usize;
     let buffer = reader.into_inner();
 
-- 
2.43.0

