From 27ec11146b92568b3a2a3e55f960379f70310904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 1/8] fix: do not leak integer bits beyond the requested width
 in BitpackWriter

---
 packages/vorbis_bitpack/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index e1a8dd6..fd20944 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -349,7 +349,12 @@ impl<W: Write> BitpackWriter<W> {
 		// at most 3 bytes, so the shift never overflows
 		integer >>= 8 * bytes_to_write;
 
-		self.byte_to_be_written = integer as u8;
+		// Keep only the bits we have been asked to write: any other bit left set here
+		// would leak into the bits of the integers written next
+		self.byte_to_be_written = (integer
+			& ones_mask(BitpackedIntegerWidth::__internal_unchecked_new(
+				remainder_bits
+			))) as u8;
 		self.bits_to_be_written = remainder_bits;
 
 		Ok(())
-- 
2.43.0


From b8e6567ec5fe778c3dbf619cb00027735a49d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 2/8] fix: reset the pending byte when finalizing a
 BitpackWriter

---
 packages/vorbis_bitpack/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index fd20944..3455176 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -410,8 +410,10 @@ impl<W: Write> BitpackWriter<W> {
 	/// destination after a call to [`flush`](Self::flush).
 	pub fn finalize(&mut self) -> Result<()> {
 		if self.bits_to_be_written > 0 {
+			let last_byte = self.byte_to_be_written;
+			self.byte_to_be_written = 0;
 			self.bits_to_be_written = 0;
-			self.sink.write_all(&[self.byte_to_be_written])
+			self.sink.write_all(&[last_byte])
 		} else {
 			Ok(())
 		}
-- 
2.43.0


From aa26163c220e4753ffc7f3dbc0fe944eaa19e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 3/8] fix: do not overflow when reading a signed integer of
 zero width

---
 packages/vorbis_bitpack/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 3455176..248e9c1 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -444,6 +444,11 @@ const fn ones_mask(width: BitpackedIntegerWidth) -> u32 {
 /// Converts the specified variable-width signed integer in an unsigned constant-size
 /// word to a native 32-bit signed integer.
 const fn sign_extend(integer: u32, width: BitpackedIntegerWidth) -> i32 {
+	// A zero width integer has no sign bit to extend, and its value always is zero
+	if width.get() == 0 {
+		return 0;
+	}
+
 	let extended_bits = 32 - width.get() as u32;
 	(integer as i32) << extended_bits >> extended_bits
 }
-- 
2.43.0


From b613cccc3d1208b6618b999bef3fe44dbc062578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 4/8] fix: preserve zero and small numbers when writing a
 float32 to a bitpacked stream

---
 packages/vorbis_bitpack/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 248e9c1..2c20d84 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -524,5 +524,11 @@ fn float32_pack(float: f64) -> u32 {
 	// Add the implicit 1 bit, required by IEEE-754 for normal floats
 	let mantissa_component = ((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32 | 0x10_00_00;
 
+	// Vorbis floats are not necessarily normalized, so any missing exponent range at the low end,
+	// including that for zero, can be made up for by shifting the mantissa
+	let mantissa_component = mantissa_component
+		.checked_shr((235 + 20u32).saturating_sub(exponent))
+		.unwrap_or(0);
+
 	sign_component | exponent_component | mantissa_component
 }
-- 
2.43.0


From a5824bee34a45e0d097dccd9ae55759df88eb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 5/8] fix: compute the exact integer root of the codebook entry
 count

---
 .../src/vorbis/optimizer/setup_header_parse.rs  | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 5f2d60c..30adfbc 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -911,7 +911,22 @@ fn lookup1_values(codebook_entries: u32, codebook_dimensions: u16) -> u32 {
 	if codebook_dimensions == 0 {
 		u32::MAX
 	} else {
-		(codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32
+		let mut root = (codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32;
+
+		// The floating point computation is not exact, so it may be off by one. Correct its result
+		let power_fits_in_entries = |root: u32| {
+			(root as u64)
+				.checked_pow(codebook_dimensions as u32)
+				.is_some_and(|power| power <= codebook_entries as u64)
+		};
+		while root > 0 && !power_fits_in_entries(root) {
+			root -= 1;
+		}
+		while power_fits_in_entries(root + 1) {
+			root += 1;
+		}
+
+		root
 	}
 }
 
-- 
2.43.0


From a0048d5fd9833c55b072f48fde1a5f74c96d5552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:35 +0000
Subject: [PATCH 6/8] fix: report errors when writing out the last buffered
 data of the output file

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index a0b77a9..62ed24e 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -181,10 +181,15 @@ fn run() -> Result<(), Cow<'static, str>> {
 					&matches,
 					input_file,
 					input_file_name,
-					output_file,
+					&mut *output_file,
 					output_file_name,
 					chosen_remuxer
 				)?;
+
+				// Any buffered data is also written on drop, but then errors would go unnoticed
+				output_file
+					.flush()
+					.map_err(|err| format!("Could not write to output file: {err}"))?;
 			}
 
 			Ok(())
-- 
2.43.0


From 4bf92a5524b1f01f1e53377fbfc76f42234bb44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:35 +0000
Subject: [PATCH 7/8] fix: do not corrupt the Ogg data sent to stdout with the
 program header

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index 62ed24e..3d259cc 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -126,7 +126,10 @@ fn run() -> Result<(), Cow<'static, str>> {
 			} else {
 				let quiet_mode = matches.opt_present("q");
 
-				if !quiet_mode {
+				// Do not mix the header with the Ogg data when both would go to stdout
+				let output_to_stdout = matches.free.get(1).is_some_and(|file| file == "-");
+
+				if !quiet_mode && !output_to_stdout {
 					print_header();
 					println!();
 				}
-- 
2.43.0


From 078a8f3b9fcb7a0adbbf586d584c99c706ee48c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 8/8] fix: limit optimal codeword lengths to what a Vorbis
 stream can represent

---
 .../optivorbis/src/vorbis/codebook/mod.rs     | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/mod.rs b/packages/optivorbis/src/vorbis/codebook/mod.rs
index ec1110a..ab904a4 100644
--- a/packages/optivorbis/src/vorbis/codebook/mod.rs
+++ b/packages/optivorbis/src/vorbis/codebook/mod.rs
@@ -17,6 +17,9 @@ use vorbis_bitpack::BitpackReader;
 mod huffman_codeword_lengths;
 mod huffman_tree;
 
+/// The maximum codeword length that can be represented in a Vorbis stream.
+const MAXIMUM_CODEWORD_LENGTH: u64 = 32;
+
 /// An error that may happen when instantiating a Vorbis codebook.
 #[derive(Debug, Error)]
 #[allow(variant_size_differences)] // io::Error is 14 bytes larger than other variants
@@ -163,16 +166,31 @@ impl VorbisCodebook {
 	/// codebook into _optimizing mode_. The element in position `n` of the slice
 	/// represents the number of times the entry number `n` has been decoded so far.
 	///
-	/// This is an in-place operation that does not consume any additional memory once
-	/// it finishes. It executes in O(n log n) the first time it is called, but the
-	/// result is memoized, so the next invocations are virtually free.
+	/// This operation does not consume any additional memory once it finishes. It usually
+	/// executes in O(n log n) the first time it is called, but the result is memoized, so
+	/// the next invocations are virtually free.
 	pub(super) fn optimal_codeword_lengths(&mut self) -> &[u64] {
 		if self.recording_decode_frequencies {
 			self.recording_decode_frequencies = false;
-			VorbisCodebookNumberFrequenciesDecorator::new(
-				self.entry_decode_frequencies_or_lengths.get_mut()
-			)
-			.into_huffman_codeword_lengths()
+
+			let mut frequencies = self.entry_decode_frequencies_or_lengths.take();
+			*self.entry_decode_frequencies_or_lengths.get_mut() = loop {
+				let lengths = VorbisCodebookNumberFrequenciesDecorator::new(frequencies.clone())
+					.into_huffman_codeword_lengths();
+
+				if lengths.iter().all(|length| *length <= MAXIMUM_CODEWORD_LENGTH) {
+					break lengths;
+				}
+
+				// The optimal codewords are too long to be represented in a Vorbis stream, which
+				// may happen if the frequencies are extremely skewed. Flatten their distribution,
+				// without turning any used entry into an unused one, and try again
+				for frequency in &mut frequencies {
+					*frequency = frequency.div_ceil(2);
+				}
+			};
+
+			self.entry_decode_frequencies_or_lengths.get_mut()
 		} else {
 			self.entry_decode_frequencies_or_lengths.get_mut()
 		}
-- 
2.43.0

