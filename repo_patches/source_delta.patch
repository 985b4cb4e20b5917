From 5350e298e3ae154af3dd15d10246af609ca7c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 01/14] fix: decoding a dynamic fixed array with an
 out-of-range offset returns an error instead of panicking

---
 ethabi/src/decoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 825ec25..a4c2aa8 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -161,8 +161,15 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 		ParamType::FixedArray(ref t, len) => {
 			let is_dynamic = param.is_dynamic();
 
-			let (tail, mut new_offset) =
-				if is_dynamic { (&data[as_usize(&peek_32_bytes(data, offset)?)?..], 0) } else { (data, offset) };
+			let (tail, mut new_offset) = if is_dynamic {
+				let offset = as_usize(&peek_32_bytes(data, offset)?)?;
+				if offset > data.len() {
+					return Err(Error::InvalidData);
+				}
+				(&data[offset..], 0)
+			} else {
+				(data, offset)
+			};
 
 			let mut tokens = vec![];
 
-- 
2.43.0


From 2c22fbd8151a3d3387627fb3c3d899a03562beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 02/14] fix: decoding fixed bytes of an oversized declared
 length returns an error instead of overflowing

---
 ethabi/src/decoder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index a4c2aa8..eefdc61 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -79,10 +79,9 @@ fn peek_32_bytes(data: &[u8], offset: usize) -> Result<Word, Error> {
 }
 
 fn take_bytes(data: &[u8], offset: usize, len: usize) -> Result<Vec<u8>, Error> {
-	if offset + len > data.len() {
-		Err(Error::InvalidData)
-	} else {
-		Ok((&data[offset..(offset + len)]).to_vec())
+	match offset.checked_add(len) {
+		Some(end) if end <= data.len() => Ok((&data[offset..end]).to_vec()),
+		_ => Err(Error::InvalidData),
 	}
 }
 
-- 
2.43.0


From 52697f0a893add41951b6492c5c0beba71aee951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 03/14] fix: type checking a tuple token requires as many
 members as the tuple type has

---
 ethabi/src/token/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 1df997c..2c34e79 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -125,7 +125,7 @@ impl Token {
 			}
 			Token::Tuple(ref tokens) => {
 				if let ParamType::Tuple(ref param_type) = *param_type {
-					tokens.iter().enumerate().all(|(i, t)| t.type_check(&param_type[i]))
+					Token::types_check(tokens, param_type)
 				} else {
 					false
 				}
-- 
2.43.0


From b3c80a7bcfa9739dd3ec9cd99cb7d18760b54639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 04/14] fix: an empty fixed bytes token is encoded as a zero
 word instead of being dropped

---
 ethabi/src/encoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ethabi/src/encoder.rs b/ethabi/src/encoder.rs
index 5a28fa8..c378bf7 100644
--- a/ethabi/src/encoder.rs
+++ b/ethabi/src/encoder.rs
@@ -136,6 +136,8 @@ fn encode_token(token: &Token) -> Mediate {
 		}
 		Token::Bytes(ref bytes) => Mediate::Prefixed(pad_bytes(bytes)),
 		Token::String(ref s) => Mediate::Prefixed(pad_bytes(s.as_bytes())),
+		// a fixed bytes value always takes up a head word, even if all of it is padding
+		Token::FixedBytes(ref bytes) if bytes.is_empty() => Mediate::Raw(vec![[0u8; 32]]),
 		Token::FixedBytes(ref bytes) => Mediate::Raw(pad_fixed_bytes(bytes)),
 		Token::Int(int) => Mediate::Raw(vec![int.into()]),
 		Token::Uint(uint) => Mediate::Raw(vec![uint.into()]),
-- 
2.43.0


From 333b20577e00a70d37e690c30f3dc3d23eac9f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:58 +0000
Subject: [PATCH 05/14] fix: read the members of nested tuple types at their
 own nesting level

---
 ethabi/src/param_type/reader.rs | 97 +++++++--------------------------
 1 file changed, 19 insertions(+), 78 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 83e0267..5a29358 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -21,99 +21,40 @@ impl Reader {
 					return Err(Error::InvalidName(name.to_owned()));
 				};
 
+				let inner = &name[1..name.len() - 1];
 				let mut subtypes = Vec::new();
-				let mut subtuples = Vec::new();
-				let mut nested = 0isize;
-				let mut top_level_paren_open = 0usize;
-				let mut last_item = 1;
-				let mut chars = name.chars().enumerate();
+				let mut nested = 0usize;
+				let mut last_item = 0;
 
-				// Iterate over name and build the nested tuple structure
-				while let Some((mut pos, c)) = chars.next() {
+				// Split the members at the commas which are not part of a nested tuple
+				for (pos, c) in inner.char_indices() {
 					match c {
-						'(' => {
-							top_level_paren_open = pos;
-							nested += 1;
-							// If an '(' is encountered within the tuple
-							// insert an empty subtuples vector to be filled
-							if nested > 1 {
-								subtuples.push(vec![]);
-								last_item = pos + 1;
-							}
-						}
+						'(' => nested += 1,
 						')' => {
-							nested -= 1;
-
 							// End parsing and return an error if parentheses aren't symmetrical
-							if nested < 0 {
+							if nested == 0 {
 								return Err(Error::InvalidName(name.to_owned()));
 							}
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							else if name[last_item..pos].is_empty() {
-								last_item = pos + 1;
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 0 {
-								// check for trailing brackets that indicate array of tuples
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							else if nested > 0 {
-								// this makes sure trailing brackets are included for the next step
-								loop {
-									match chars.clone().next() {
-										Some((_, ',')) | Some((_, ')')) | None => break,
-										_ => {
-											// consume the char and shift position
-											chars.next();
-											pos += 1;
-										}
-									}
-								}
-
-								// parse the nested tuple
-								let inner_tuple = &name[top_level_paren_open..=pos];
-								let subtype = Reader::read(inner_tuple)?;
-
-								if nested > 1 {
-									let mut subtuple = std::mem::take(&mut subtuples[(nested - 2) as usize]);
-									subtuple.push(subtype);
-									subtypes.push(ParamType::Tuple(subtuple));
-								} else {
-									subtypes.push(subtype);
-								}
-								last_item = pos + 1;
-							}
+							nested -= 1;
 						}
-						',' => {
+						',' if nested == 0 => {
 							// If there have not been any characters since the last item
 							// increment position without inserting any subtypes
-							if name[last_item..pos].is_empty() {
-								last_item = pos + 1
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							// insert it into the subtuple vector for the current depth level
-							else if nested > 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtuples[(nested - 2) as usize].push(subtype);
-								last_item = pos + 1;
+							if last_item != pos {
+								subtypes.push(Reader::read(&inner[last_item..pos])?);
 							}
+							last_item = pos + 1;
 						}
 						_ => (),
 					}
 				}
+
+				if nested != 0 {
+					return Err(Error::InvalidName(name.to_owned()));
+				}
+				if last_item != inner.len() {
+					subtypes.push(Reader::read(&inner[last_item..])?);
+				}
 				return Ok(ParamType::Tuple(subtypes));
 			}
 			// check if it is a fixed or dynamic array.
-- 
2.43.0


From cefbd7166399d6d2fcd8ca35524c8420176d58e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:58 +0000
Subject: [PATCH 06/14] fix: reading an array type without an opening bracket
 or with non-ASCII names does not panic

---
 ethabi/src/param_type/reader.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 5a29358..1b6cf5b 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -60,18 +60,19 @@ impl Reader {
 			// check if it is a fixed or dynamic array.
 			Some(']') => {
 				// take number part
-				let num: String =
-					name.chars().rev().skip(1).take_while(|c| *c != '[').collect::<String>().chars().rev().collect();
+				let (subtype, num) = match name.rfind('[') {
+					Some(pos) => (&name[..pos], &name[pos + 1..name.len() - 1]),
+					None => return Err(Error::InvalidName(name.to_owned())),
+				};
 
-				let count = name.chars().count();
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
-					let subtype = Reader::read(&name[..count - 2])?;
+					let subtype = Reader::read(subtype)?;
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
 					let len = num.parse()?;
-					let subtype = Reader::read(&name[..count - num.len() - 2])?;
+					let subtype = Reader::read(subtype)?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
 			}
-- 
2.43.0


From 916a20ff7f8a382468a8188a39f7d9780da9c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:58 +0000
Subject: [PATCH 07/14] fix: split tokenized arrays and structs at byte
 positions, non-ASCII values do not panic

---
 ethabi/src/token/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 6330a43..02d4999 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -59,7 +59,7 @@ pub trait Tokenizer {
 		let mut ignore = false;
 		let mut last_item = 1;
 		let mut params = param.iter();
-		for (pos, ch) in value.chars().enumerate() {
+		for (pos, ch) in value.char_indices() {
 			match ch {
 				'(' if !ignore => {
 					nested += 1;
@@ -114,7 +114,7 @@ pub trait Tokenizer {
 		let mut nested = 0isize;
 		let mut ignore = false;
 		let mut last_item = 1;
-		for (i, ch) in value.chars().enumerate() {
+		for (i, ch) in value.char_indices() {
 			match ch {
 				'[' if !ignore => {
 					nested += 1;
-- 
2.43.0


From d5d083117071d527d52ba25006ede10b5c6a08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:58 +0000
Subject: [PATCH 08/14] fix: a tokenized struct must have a value for every
 member

---
 ethabi/src/token/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 02d4999..6caf485 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -51,7 +51,7 @@ pub trait Tokenizer {
 		}
 
 		if value.chars().count() == 2 {
-			return Ok(vec![]);
+			return if param.is_empty() { Ok(vec![]) } else { Err(Error::InvalidData) };
 		}
 
 		let mut result = vec![];
@@ -93,7 +93,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore {
+		if ignore || params.next().is_some() {
 			return Err(Error::InvalidData);
 		}
 
-- 
2.43.0


From f66b3a22fca43a11fc597170565cf5a4a2ceb76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:48 +0000
Subject: [PATCH 09/14] fix: match parsed log parameters by position, unnamed
 or repeated names get their own values

---
 ethabi/src/event.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index d725906..e524a4b 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -10,7 +10,6 @@
 
 use serde::{Deserialize, Serialize};
 use sha3::{Digest, Keccak256};
-use std::collections::HashMap;
 
 use crate::{
 	decode, encode, signature::long_signature, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
@@ -30,11 +29,6 @@ pub struct Event {
 }
 
 impl Event {
-	/// Returns names of all params.
-	fn params_names(&self) -> Vec<String> {
-		self.inputs.iter().map(|p| p.name.clone()).collect()
-	}
-
 	/// Returns types of all params.
 	fn param_types(&self) -> Vec<ParamType> {
 		self.inputs.iter().map(|p| p.kind.clone()).collect()
@@ -151,21 +145,18 @@ impl Event {
 			return Err(Error::InvalidData);
 		}
 
-		let topics_named_tokens = topic_params.into_iter().map(|p| p.name).zip(topic_tokens.into_iter());
-
 		let data_types = data_params.iter().map(|p| p.kind.clone()).collect::<Vec<ParamType>>();
 
 		let data_tokens = decode(&data_types, &data)?;
 
-		let data_named_tokens = data_params.into_iter().map(|p| p.name).zip(data_tokens.into_iter());
-
-		let named_tokens = topics_named_tokens.chain(data_named_tokens).collect::<HashMap<String, Token>>();
-
-		let decoded_params = self
-			.params_names()
-			.into_iter()
-			.map(|name| LogParam { name: name.clone(), value: named_tokens[&name].clone() })
-			.collect();
+		// params are matched by position, names may be empty or repeated
+		let mut topic_tokens = topic_tokens.into_iter();
+		let mut data_tokens = data_tokens.into_iter();
+		let mut decoded_params = Vec::with_capacity(self.inputs.len());
+		for input in &self.inputs {
+			let token = if input.indexed { topic_tokens.next() } else { data_tokens.next() };
+			decoded_params.push(LogParam { name: input.name.clone(), value: token.ok_or(Error::InvalidData)? });
+		}
 
 		let result = Log { params: decoded_params };
 
-- 
2.43.0


From a76451c35845e4cd2b68d13ba7ed54bbff19173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:01 +0000
Subject: [PATCH 10/14] fix: indexed reference type topics are the hash of
 their in-place encoding

---
 ethabi/src/event.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index e524a4b..7d04800 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -46,18 +46,42 @@ impl Event {
 
 	/// Creates topic filter
 	pub fn filter(&self, raw: RawTopicFilter) -> Result<TopicFilter> {
+		// Encodes an element of an indexed array or struct: the concatenation of its padded
+		// elements, without offsets and length prefixes.
+		fn encode_in_place(token: &Token) -> Vec<u8> {
+			let mut encoded = match token {
+				Token::Bytes(bytes) => bytes.clone(),
+				Token::String(string) => string.as_bytes().to_vec(),
+				Token::Array(tokens) | Token::FixedArray(tokens) | Token::Tuple(tokens) => {
+					tokens.iter().flat_map(encode_in_place).collect()
+				}
+				_ => encode(&[token.clone()]),
+			};
+			while encoded.len() % 32 != 0 {
+				encoded.push(0);
+			}
+			encoded
+		}
+
 		fn convert_token(token: Token, kind: &ParamType) -> Result<Hash> {
 			if !token.type_check(kind) {
 				return Err(Error::InvalidData);
 			}
-			let encoded = encode(&[token]);
-			if encoded.len() == 32 {
-				let mut data = [0u8; 32];
-				data.copy_from_slice(&encoded);
-				Ok(data.into())
-			} else {
-				Ok(Hash::from_slice(Keccak256::digest(&encoded).as_slice()))
-			}
+			let encoded = match token {
+				Token::Bytes(bytes) => bytes,
+				Token::String(string) => string.into_bytes(),
+				Token::Array(_) | Token::FixedArray(_) | Token::Tuple(_) => encode_in_place(&token),
+				_ => {
+					let encoded = encode(&[token]);
+					if encoded.len() == 32 {
+						let mut data = [0u8; 32];
+						data.copy_from_slice(&encoded);
+						return Ok(data.into());
+					}
+					encoded
+				}
+			};
+			Ok(Hash::from_slice(Keccak256::digest(&encoded).as_slice()))
 		}
 
 		fn convert_topic(topic: Topic<Token>, kind: Option<&ParamType>) -> Result<Topic<Hash>> {
-- 
2.43.0


From 43476de7dbd8e35cab1847c2a891f257c14dafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:03 +0000
Subject: [PATCH 11/14] fix: a lenient integer has at most one minus sign

---
 ethabi/src/token/lenient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethabi/src/token/lenient.rs b/ethabi/src/token/lenient.rs
index aa63e39..7b406a5 100644
--- a/ethabi/src/token/lenient.rs
+++ b/ethabi/src/token/lenient.rs
@@ -56,7 +56,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let abs = Uint::from_dec_str(value.trim_start_matches('-'))?;
+		let abs = Uint::from_dec_str(value.strip_prefix('-').unwrap_or(value))?;
 		let max = Uint::max_value() / 2;
 		let int = if value.starts_with('-') {
 			if abs.is_zero() {
-- 
2.43.0


From ab513ce7255b4abb6e971e76c6345df5c0f68963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:22 +0000
Subject: [PATCH 12/14] fix: skip the values of unknown parameter fields when
 deserializing

---
 ethabi/src/event_param.rs | 6 ++++--
 ethabi/src/param.rs       | 6 ++++--
 ethabi/src/tuple_param.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/event_param.rs b/ethabi/src/event_param.rs
index bf279fb..d591aac 100644
--- a/ethabi/src/event_param.rs
+++ b/ethabi/src/event_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType, TupleParam};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -81,7 +81,9 @@ impl<'a> Visitor<'a> for EventParamVisitor {
 					}
 					indexed = Some(map.next_value()?);
 				}
-				_ => {}
+				_ => {
+					let _: IgnoredAny = map.next_value()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/param.rs b/ethabi/src/param.rs
index a7ed4e5..4797928 100644
--- a/ethabi/src/param.rs
+++ b/ethabi/src/param.rs
@@ -9,7 +9,7 @@
 //! Function param.
 
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	Deserialize, Deserializer, Serialize, Serializer,
 };
 use std::fmt;
@@ -82,7 +82,9 @@ impl<'a> Visitor<'a> for ParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					let _: IgnoredAny = map.next_value()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/tuple_param.rs b/ethabi/src/tuple_param.rs
index 1fd72e7..9d3ce2b 100644
--- a/ethabi/src/tuple_param.rs
+++ b/ethabi/src/tuple_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -83,7 +83,9 @@ impl<'a> Visitor<'a> for TupleParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					let _: IgnoredAny = map.next_value()?;
+				}
 			}
 		}
 
-- 
2.43.0


From 8bce9d3d594b9add4d85b0f8cce738a4f8eddb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:44 +0000
Subject: [PATCH 13/14] fix: the brackets of a tokenized array or struct have
 to match

---
 ethabi/src/token/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 6caf485..9b398b1 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -72,6 +72,10 @@ pub trait Tokenizer {
 							return Err(Error::InvalidData);
 						}
 						Equal => {
+							// the closing bracket has to be the last character
+							if pos + 1 != value.len() {
+								return Err(Error::InvalidData);
+							}
 							let sub = &value[last_item..pos];
 							let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
 							result.push(token);
@@ -93,7 +97,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore || params.next().is_some() {
+		if ignore || nested != 0 || params.next().is_some() {
 			return Err(Error::InvalidData);
 		}
 
@@ -126,6 +130,10 @@ pub trait Tokenizer {
 							return Err(Error::InvalidData);
 						}
 						Equal => {
+							// the closing bracket has to be the last character
+							if i + 1 != value.len() {
+								return Err(Error::InvalidData);
+							}
 							let sub = &value[last_item..i];
 							let token = Self::tokenize(param, sub)?;
 							result.push(token);
@@ -147,7 +155,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore {
+		if ignore || nested != 0 {
 			return Err(Error::InvalidData);
 		}
 
-- 
2.43.0


From 77ce929dca0a1a9a7cbf89cc52e151c7382ce2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:04 +0000
Subject: [PATCH 14/14] fix: lenient integers need at least one digit (empty
 text and a lone minus sign were read as zero)

---
 ethabi/src/token/lenient.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/token/lenient.rs b/ethabi/src/token/lenient.rs
index 7b406a5..8f08c83 100644
--- a/ethabi/src/token/lenient.rs
+++ b/ethabi/src/token/lenient.rs
@@ -43,6 +43,10 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
+		// `from_dec_str` takes no digits at all as zero
+		if value.is_empty() {
+			return Err(Error::InvalidData);
+		}
 		let uint = Uint::from_dec_str(value)?;
 		Ok(uint.into())
 	}
@@ -56,7 +60,11 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let abs = Uint::from_dec_str(value.strip_prefix('-').unwrap_or(value))?;
+		let digits = value.strip_prefix('-').unwrap_or(value);
+		if digits.is_empty() {
+			return Err(Error::InvalidData);
+		}
+		let abs = Uint::from_dec_str(digits)?;
 		let max = Uint::max_value() / 2;
 		let int = if value.starts_with('-') {
 			if abs.is_zero() {
-- 
2.43.0

