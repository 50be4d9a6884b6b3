From 0a32983a7c2a3ae7b29db82ca41c59789785f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 01/10] fix: accept an empty BER-TLV value with a long-form
 length at the end of a block

---
 src/emv/tlv_parsing/ber_tlv.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index a546893..c0f810c 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -48,7 +48,9 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 			}
 			let start_index = index;
 			index += 1 + subsequent_length_byte_count;
-			if index >= bytes_len {
+			// The data may be empty, in which case the length bytes are allowed to be the
+			// last of the block
+			if index > bytes_len {
 				return Err(ParseError::NonCompliant);
 			}
 			byte_slice_to_u32(
-- 
2.43.0


From 4576ab7f3ec9ec69d2815fd74d00af142dbd12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 02/10] fix: reject Ingenico tags and lengths with an
 incomplete hex byte instead of misreading them

---
 src/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 6cc12df..6b29e32 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -34,9 +34,11 @@ pub fn parse_hex_str(hex_asm: &str) -> Vec<u8> {
 	bytes
 }
 /// Does the exact same thing as [`parse_hex_str`], but it throws an error if
-/// there are any non-hex ASCII characters in the string.
+/// there are any non-hex ASCII characters in the string, or if the string
+/// doesn't make up a whole number of bytes.
 pub fn parse_hex_str_strict(hex_asm: &str) -> Result<Vec<u8>, ParseError> {
 	if !hex_asm.is_ascii()
+		|| hex_asm.len() % 2 != 0
 		|| hex_asm.contains(|c| !matches!(c as u8, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'))
 	{
 		Err(ParseError::InvalidBytes)
-- 
2.43.0


From 85accff2747884b1588a49135d5b379a51e50226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 03/10] fix: reject an Ingenico tag whose length is missing

---
 src/emv/tlv_parsing/ingenico_tlv.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emv/tlv_parsing/ingenico_tlv.rs b/src/emv/tlv_parsing/ingenico_tlv.rs
index 948c4e8..aab76c9 100644
--- a/src/emv/tlv_parsing/ingenico_tlv.rs
+++ b/src/emv/tlv_parsing/ingenico_tlv.rs
@@ -68,6 +68,9 @@ pub fn parse(data: &str, masking_characters: &[char]) -> Result<RawEmvBlock, Par
 		// unsupported
 		let length_bytes =
 			parse_hex_str_strict(length_str).map_err(|_| ParseError::NonCompliant)?;
+		if length_bytes.is_empty() {
+			return Err(ParseError::NonCompliant);
+		}
 		if length_bytes.len() > BYTES_PER_32_BITS {
 			return Err(ParseError::Unsupported);
 		}
-- 
2.43.0


From 8bba6caa7e5c33b9cbe42b4c96ae60a69563f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 04/10] fix: ignore leading zero bytes in Ingenico lengths, as
 for tags

---
 src/emv/tlv_parsing/ingenico_tlv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emv/tlv_parsing/ingenico_tlv.rs b/src/emv/tlv_parsing/ingenico_tlv.rs
index aab76c9..b618731 100644
--- a/src/emv/tlv_parsing/ingenico_tlv.rs
+++ b/src/emv/tlv_parsing/ingenico_tlv.rs
@@ -66,11 +66,12 @@ pub fn parse(data: &str, masking_characters: &[char]) -> Result<RawEmvBlock, Par
 		let length_str = &data[index..colon_index];
 		// Tag lengths greater than the maximum unsigned 32-bit integer value are
 		// unsupported
-		let length_bytes =
+		let mut length_bytes =
 			parse_hex_str_strict(length_str).map_err(|_| ParseError::NonCompliant)?;
 		if length_bytes.is_empty() {
 			return Err(ParseError::NonCompliant);
 		}
+		trim_leading_0_bytes(&mut length_bytes);
 		if length_bytes.len() > BYTES_PER_32_BITS {
 			return Err(ParseError::Unsupported);
 		}
-- 
2.43.0


From a0a60b72f3d3fb49d2843cfac9137860632c9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:44 +0000
Subject: [PATCH 05/10] fix: don't report a TLV format for input that contains
 no data

---
 src/emv/tlv_parsing/auto_tlv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv/tlv_parsing/auto_tlv.rs b/src/emv/tlv_parsing/auto_tlv.rs
index 814f174..c936452 100644
--- a/src/emv/tlv_parsing/auto_tlv.rs
+++ b/src/emv/tlv_parsing/auto_tlv.rs
@@ -17,8 +17,8 @@ pub fn parse(
 	tlv_str: &str,
 	masking_characters: &[char],
 ) -> Result<(TlvFormat, RawEmvBlock), ParseError> {
-	// Don't accept empty input because it'll match to anything
-	if tlv_str.is_empty() {
+	// Don't accept input with no data because it'll match to anything
+	if parse_hex_str(tlv_str).is_empty() {
 		return Err(ParseError::Unrecognised);
 	}
 
-- 
2.43.0


From 96a897f165b0115f1962d170648cce9bacb3f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 06/10] fix: limit the nesting depth that's descended into, to
 avoid overflows on deeply-nested data

---
 src/emv/tlv_parsing/ber_tlv.rs | 40 +++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index c0f810c..e7e5cfa 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -9,8 +9,26 @@ use crate::{
 	util::{byte_slice_to_u32, BYTES_PER_32_BITS},
 };
 
+// Constants
+/// The maximum number of levels that constructed data objects are descended
+/// into. The data of objects nested more deeply than this isn't descended into.
+///
+/// Real data is only ever a few levels deep, but the input data could be
+/// anything.
+const MAX_NESTING_DEPTH: u8 = 128;
+
 /// Parses a block of BER-TLV encoded data.
 pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, ParseError> {
+	parse_at_depth(bytes, masking_characters, 0)
+}
+
+/// Parses a block of BER-TLV encoded data that's already nested in `depth`
+/// constructed data objects.
+fn parse_at_depth(
+	bytes: &[u8],
+	masking_characters: &[char],
+	depth: u8,
+) -> Result<RawEmvBlock, ParseError> {
 	let bytes_len = bytes.len();
 	let mut nodes = Vec::new();
 	let mut index = 0;
@@ -70,7 +88,12 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 		// Push the resulting tag to the list
 		let tag_data = EmvData::from_u8_check_for_masked(data.to_vec(), masking_characters);
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block_at_depth(
+				data_object_type,
+				&tag_data,
+				masking_characters,
+				depth,
+			),
 			tag:         RawEmvTag {
 				tag: bytes[tag_start_index..=tag_end_index].to_vec(),
 				class,
@@ -110,12 +133,23 @@ pub fn get_child_block(
 	data_object_type: DataObjectType,
 	tag_data: &EmvData,
 	masking_characters: &[char],
+) -> RawEmvBlock {
+	get_child_block_at_depth(data_object_type, tag_data, masking_characters, 0)
+}
+
+fn get_child_block_at_depth(
+	data_object_type: DataObjectType,
+	tag_data: &EmvData,
+	masking_characters: &[char],
+	depth: u8,
 ) -> RawEmvBlock {
 	match data_object_type {
 		DataObjectType::Primitive => RawEmvBlock::default(),
 		DataObjectType::Constructed => match tag_data {
-			EmvData::Normal(data) => parse(data, masking_characters).unwrap_or_default(),
-			EmvData::Masked => RawEmvBlock::default(),
+			EmvData::Normal(data) if depth < MAX_NESTING_DEPTH => {
+				parse_at_depth(data, masking_characters, depth + 1).unwrap_or_default()
+			}
+			EmvData::Normal(_) | EmvData::Masked => RawEmvBlock::default(),
 		},
 	}
 }
-- 
2.43.0


From e8eb2c76fd707738d674632429a2e5ac686c0f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 07/10] fix: show the actual bits of unknown CVM methods and
 conditions in CVM Results

---
 src/emv/cv_rule/cv_method.rs     | 19 ++++++++++++++++---
 src/emv/cv_rule/cvm_condition.rs | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/emv/cv_rule/cv_method.rs b/src/emv/cv_rule/cv_method.rs
index 9c266a5..71b4981 100644
--- a/src/emv/cv_rule/cv_method.rs
+++ b/src/emv/cv_rule/cv_method.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -26,15 +28,25 @@ pub enum CvMethod: u8, ParseError, { |_| ParseError::NonCompliant } {
 }
 
 /// A somewhat dumb workaround to have custom impls on [`Option<CvMethod>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+///
+/// The raw value is kept because it can't be determined from an unknown value
+/// otherwise.
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvMethod {
 	pub internal: Option<CvMethod>,
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvMethod>> for OptionalCvMethod {
 	fn from(value: Option<CvMethod>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -50,6 +62,7 @@ impl From<u8> for OptionalCvMethod {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvMethod::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -57,7 +70,7 @@ impl From<u8> for OptionalCvMethod {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvMethod> for u8 {
 	fn from(value: OptionalCvMethod) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
diff --git a/src/emv/cv_rule/cvm_condition.rs b/src/emv/cv_rule/cvm_condition.rs
index 27db84d..08fe009 100644
--- a/src/emv/cv_rule/cvm_condition.rs
+++ b/src/emv/cv_rule/cvm_condition.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -45,15 +47,25 @@ impl CvmCondition {
 
 /// A somewhat dumb workaround to have a [`Display`] impl on
 /// [`Option<CvmCondition>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+///
+/// The raw value is kept because it can't be determined from an unknown value
+/// otherwise.
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvmCondition {
 	pub internal: Option<CvmCondition>,
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvmCondition>> for OptionalCvmCondition {
 	fn from(value: Option<CvmCondition>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -69,6 +81,7 @@ impl From<u8> for OptionalCvmCondition {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvmCondition::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -76,7 +89,7 @@ impl From<u8> for OptionalCvmCondition {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvmCondition> for u8 {
 	fn from(value: OptionalCvmCondition) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
-- 
2.43.0


From 46abf1bc1d594ca9d3191dbc27caceb7473d1f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:54 +0000
Subject: [PATCH 08/10] fix: report invalid configuration instead of panicking

---
 src/main.rs | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9166379..01f03a9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,9 +49,10 @@ mod testing_macros;
 mod util;
 
 // Uses
-use std::fmt::Debug;
+use std::{fmt::Debug, process::ExitCode};
 
-use termcolor::{StandardStream, WriteColor};
+use figment::{Error as FigmentError, Figment};
+use termcolor::{ColorChoice as TermColorChoice, StandardStream, WriteColor};
 
 use crate::{
 	cli::build_cli,
@@ -100,23 +101,20 @@ pub trait DisplayBreakdown: Debug {
 
 // Entry Point
 #[cfg(not(tarpaulin_include))]
-fn main() {
+fn main() -> ExitCode {
 	let mut cli_definition = build_cli();
 	let matches = cli_definition.clone().get_matches();
 
 	let config_figment = apply_cli_arguments(Config::figment(), &matches);
 
-	let colour_choice = config_figment
-		.extract_inner::<ColourChoice>(Config::CLI_COLOUR)
-		.unwrap()
-		.change_based_on_tty()
-		.into();
-	let masking_characters = config_figment
-		.extract_inner::<Vec<char>>(Config::MASKING_CHARACTERS)
-		.unwrap();
-	let sort_parsed_tags = config_figment
-		.extract_inner::<bool>(Config::SORT_PARSED_TAGS)
-		.unwrap();
+	let (colour_choice, masking_characters, sort_parsed_tags) =
+		match extract_settings(&config_figment) {
+			Ok(settings) => settings,
+			Err(error) => {
+				eprintln!("The configuration isn't valid: {error}");
+				return ExitCode::FAILURE;
+			}
+		};
 
 	let mut stdout = StandardStream::stdout(colour_choice);
 
@@ -209,13 +207,32 @@ fn main() {
 		// Default behaviour when no options are provided
 		else {
 			cli_definition.print_help().expect("unable to print help");
-			return;
+			return ExitCode::SUCCESS;
 		}
 	};
 
 	if let Some(error) = parse_error {
 		eprintln!("{error}");
 	}
+
+	ExitCode::SUCCESS
+}
+
+/// Extracts the settings that are used from the configuration, making sure
+/// they're all valid.
+#[cfg(not(tarpaulin_include))]
+#[allow(clippy::result_large_err)]
+fn extract_settings(
+	config_figment: &Figment,
+) -> Result<(TermColorChoice, Vec<char>, bool), FigmentError> {
+	Ok((
+		config_figment
+			.extract_inner::<ColourChoice>(Config::CLI_COLOUR)?
+			.change_based_on_tty()
+			.into(),
+		config_figment.extract_inner::<Vec<char>>(Config::MASKING_CHARACTERS)?,
+		config_figment.extract_inner::<bool>(Config::SORT_PARSED_TAGS)?,
+	))
 }
 
 // Unit Tests
-- 
2.43.0


From c6515a1ef3705e7309739fb05af885e3d4c13881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 09/10] fix: fail when the help or version text can't be
 written

---
 src/main.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 01f03a9..ee4627a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -103,7 +103,18 @@ pub trait DisplayBreakdown: Debug {
 #[cfg(not(tarpaulin_include))]
 fn main() -> ExitCode {
 	let mut cli_definition = build_cli();
-	let matches = cli_definition.clone().get_matches();
+	let matches = match cli_definition.clone().try_get_matches() {
+		Ok(matches) => matches,
+		Err(error) if error.use_stderr() => error.exit(),
+		// The help and version text is output like any other, so it can't be lost silently
+		Err(error) => {
+			return if error.print().is_ok() {
+				ExitCode::SUCCESS
+			} else {
+				ExitCode::FAILURE
+			};
+		}
+	};
 
 	let config_figment = apply_cli_arguments(Config::figment(), &matches);
 
-- 
2.43.0


From af064f7a8fac6ae24e04503e119af2167935a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:19 +0000
Subject: [PATCH 10/10] fix: fail when the end of the output can't be written

---
 src/main.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ee4627a..a43886c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,11 @@ mod testing_macros;
 mod util;
 
 // Uses
-use std::{fmt::Debug, process::ExitCode};
+use std::{
+	fmt::Debug,
+	io::{stdout, Write},
+	process::ExitCode,
+};
 
 use figment::{Error as FigmentError, Figment};
 use termcolor::{ColorChoice as TermColorChoice, StandardStream, WriteColor};
@@ -109,7 +113,7 @@ fn main() -> ExitCode {
 		// The help and version text is output like any other, so it can't be lost silently
 		Err(error) => {
 			return if error.print().is_ok() {
-				ExitCode::SUCCESS
+				finish_output()
 			} else {
 				ExitCode::FAILURE
 			};
@@ -218,7 +222,7 @@ fn main() -> ExitCode {
 		// Default behaviour when no options are provided
 		else {
 			cli_definition.print_help().expect("unable to print help");
-			return ExitCode::SUCCESS;
+			return finish_output();
 		}
 	};
 
@@ -226,7 +230,20 @@ fn main() -> ExitCode {
 		eprintln!("{error}");
 	}
 
-	ExitCode::SUCCESS
+	finish_output()
+}
+
+/// Writes the end of the output, which may still be buffered.
+///
+/// The flush that's done on exit ignores errors, so the output could be lost
+/// silently without this.
+#[cfg(not(tarpaulin_include))]
+fn finish_output() -> ExitCode {
+	if stdout().flush().is_ok() {
+		ExitCode::SUCCESS
+	} else {
+		ExitCode::FAILURE
+	}
 }
 
 /// Extracts the settings that are used from the configuration, making sure
-- 
2.43.0

