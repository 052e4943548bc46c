From 7f6649664ca442330930e7cce51672f5a7e99d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 01/96] fix: an empty IRI reference is not an empty term
 definition

---
 crates/context-processing/src/algorithm/define.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 13125f0..67cb884 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -104,13 +104,13 @@ where
 {
 	let term = term.to_owned();
 	if defined.begin(&term)? {
-		if term.is_empty() {
-			return Err(Error::InvalidTermDefinition);
-		}
-
 		// Initialize `value` to a copy of the value associated with the entry `term` in
 		// `local_context`.
 		if let Some(value) = local_context.get(&term) {
+			if term.is_empty() {
+				return Err(Error::InvalidTermDefinition);
+			}
+
 			// Set the value associated with defined's term entry to false.
 			// This indicates that the term definition is now being created but is not yet
 			// complete.
-- 
2.43.0


From 5305e5f872dc932a6865b4063a76ce316acbfdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 02/96] fix: keywords cannot be redefined, terms having the
 form of a keyword are ignored

---
 .../context-processing/src/algorithm/define.rs  | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 67cb884..eb6bb29 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -170,6 +170,23 @@ where
 				}
 				EntryValueRef::Definition(d) => {
 					let key = term.as_key().unwrap();
+
+					// Since keywords cannot be overridden, term MUST NOT be a keyword.
+					if json_ld_syntax::is_keyword(key.as_str()) {
+						return Err(Error::KeywordRedefinition);
+					}
+
+					// If term has the form of a keyword, return; processors SHOULD generate a
+					// warning.
+					if key.is_keyword_like() {
+						env.warnings.handle(
+							env.vocabulary,
+							Warning::KeywordLikeTerm(key.to_string()),
+						);
+						defined.end(&term);
+						return Ok(());
+					}
+
 					// Initialize `previous_definition` to any existing term definition for `term` in
 					// `active_context`, removing that term definition from active context.
 					let previous_definition = active_context.set_normal(key.clone(), None);
-- 
2.43.0


From e015a0aaa884377dddf28f11a9c2d69cab37b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 03/96] fix: a term ignored for its keyword-like mapping is not
 left pending

---
 crates/context-processing/src/algorithm/define.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index eb6bb29..9dcbe95 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -269,6 +269,7 @@ where
 								env.vocabulary,
 								Warning::KeywordLikeValue(reverse_value.to_string()),
 							);
+							defined.end(&term);
 							return Ok(());
 						}
 
@@ -352,6 +353,7 @@ where
 											env.vocabulary,
 											Warning::KeywordLikeValue(id_value.to_string()),
 										);
+										defined.end(&term);
 										return Ok(());
 									}
 
-- 
2.43.0


From 07606184204e7eef3c705eb27aa6893332fada79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 04/96] fix: @prefix on a term mapped to null does not panic

---
 crates/context-processing/src/algorithm/define.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 9dcbe95..d8f98f3 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -756,7 +756,9 @@ where
 						// If the `prefix` flag of `definition` is set to `true`, and its IRI
 						// mapping is a keyword, an invalid term definition has been detected and
 						// processing is aborted.
-						if definition.prefix && definition.value.as_ref().unwrap().is_keyword() {
+						if definition.prefix
+							&& definition.value.as_ref().is_some_and(Term::is_keyword)
+						 {
 							return Err(Error::InvalidTermDefinition);
 						}
 					}
-- 
2.43.0


From 02bfa0947c5128199c2d3fae637adcd3a81ce0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 05/96] fix: a term defined as a dependency keeps its base URL
 and protection

---
 .../src/algorithm/define.rs                   | 22 ++++++++++++-------
 .../context-processing/src/algorithm/iri.rs   | 14 +++++++-----
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index d8f98f3..1fde2da 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -179,10 +179,8 @@ where
 					// If term has the form of a keyword, return; processors SHOULD generate a
 					// warning.
 					if key.is_keyword_like() {
-						env.warnings.handle(
-							env.vocabulary,
-							Warning::KeywordLikeTerm(key.to_string()),
-						);
+						env.warnings
+							.handle(env.vocabulary, Warning::KeywordLikeTerm(key.to_string()));
 						defined.end(&term);
 						return Ok(());
 					}
@@ -230,6 +228,8 @@ where
 							local_context,
 							defined,
 							remote_contexts.clone(),
+							base_url.clone(),
+							protected,
 							options,
 						)
 						.await?;
@@ -288,6 +288,8 @@ where
 							local_context,
 							defined,
 							remote_contexts,
+							base_url.clone(),
+							protected,
 							options,
 						)
 						.await?
@@ -373,6 +375,8 @@ where
 										local_context,
 										defined,
 										remote_contexts.clone(),
+										base_url.clone(),
+										protected,
 										options,
 									)
 									.await?
@@ -419,6 +423,8 @@ where
 											local_context,
 											defined,
 											remote_contexts.clone(),
+											base_url.clone(),
+											protected,
 											options,
 										)
 										.await?;
@@ -468,9 +474,9 @@ where
 										KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 										defined,
 										remote_contexts.clone(),
-										None,
-										false,
-										options.with_no_override(),
+										base_url.clone(),
+										protected,
+										options,
 									))
 									.await?;
 
@@ -758,7 +764,7 @@ where
 						// processing is aborted.
 						if definition.prefix
 							&& definition.value.as_ref().is_some_and(Term::is_keyword)
-						 {
+						{
 							return Err(Error::InvalidTermDefinition);
 						}
 					}
diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index f53b3cb..5b4d5dd 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -34,6 +34,8 @@ pub async fn expand_iri_with<'a, N, L, W>(
 	local_context: &'a Merged<'a>,
 	defined: &'a mut DefinedTerms,
 	remote_contexts: ProcessingStack<N::Iri>,
+	base_url: Option<N::Iri>,
+	protected: bool,
 	options: Options,
 ) -> ExpandIriResult<N::Iri, N::BlankId>
 where
@@ -67,9 +69,9 @@ where
 				value.into(),
 				defined,
 				remote_contexts.clone(),
-				None,
-				false,
-				options.with_no_override(),
+				base_url.clone(),
+				protected,
+				options,
 			))
 			.await?;
 
@@ -120,9 +122,9 @@ where
 						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 						defined,
 						remote_contexts,
-						None,
-						false,
-						options.with_no_override(),
+						base_url,
+						protected,
+						options,
 					))
 					.await?;
 
-- 
2.43.0


From 40524cbf64d3b96d9bc83b94d894a870fdfb3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 06/96] fix: a protected term cannot be redefined as a reverse
 property

---
 crates/context-processing/src/algorithm/define.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 1fde2da..0e68bd4 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -326,6 +326,21 @@ where
 						// Set the `reverse_property` flag of `definition` to `true`.
 						definition.reverse_property = true;
 
+						// If override protected is false and previous_definition exists and is protected;
+						if !options.override_protected {
+							if let Some(previous_definition) = previous_definition {
+								if previous_definition.protected {
+									if definition.modulo_protected_field()
+										!= previous_definition.modulo_protected_field()
+									{
+										return Err(Error::ProtectedTermRedefinition);
+									}
+
+									definition.protected = true;
+								}
+							}
+						}
+
 						// Set the term definition of `term` in `active_context` to
 						// `definition` and the value associated with `defined`'s entry `term`
 						// to `true` and return.
-- 
2.43.0


From fd22e8a466b107c05adaf0f3a9aebbe4f27ae558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 07/96] fix: @graph, @set and @index containers do not combine
 into an @id container

---
 crates/core/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/container.rs b/crates/core/src/container.rs
index a604816..07b0fac 100644
--- a/crates/core/src/container.rs
+++ b/crates/core/src/container.rs
@@ -140,7 +140,7 @@ impl Container {
 			(Container::GraphSet, ContainerKind::Graph) => *self,
 			(Container::GraphSet, ContainerKind::Set) => *self,
 			(Container::GraphSet, ContainerKind::Id) => Container::GraphIdSet,
-			(Container::GraphSet, ContainerKind::Index) => Container::GraphIdSet,
+			(Container::GraphSet, ContainerKind::Index) => Container::GraphIndexSet,
 			(Container::GraphId, ContainerKind::Graph) => *self,
 			(Container::GraphId, ContainerKind::Id) => *self,
 			(Container::GraphId, ContainerKind::Set) => Container::GraphIdSet,
-- 
2.43.0


From 1e4e0e418e84f3c6f22acf747b969acc8ab8bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 08/96] fix: error code of an invalid @protected value

---
 crates/context-processing/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 9a0bdb2..08aebaa 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -130,7 +130,7 @@ impl Error {
 			Self::CyclicIriMapping => ErrorCode::CyclicIriMapping,
 			Self::InvalidTermDefinition => ErrorCode::InvalidTermDefinition,
 			Self::KeywordRedefinition => ErrorCode::KeywordRedefinition,
-			Self::InvalidProtectedValue => ErrorCode::InvalidPropagateValue,
+			Self::InvalidProtectedValue => ErrorCode::InvalidProtectedValue,
 			Self::InvalidTypeMapping => ErrorCode::InvalidTypeMapping,
 			Self::InvalidReverseProperty => ErrorCode::InvalidReverseProperty,
 			Self::InvalidIriMapping => ErrorCode::InvalidIriMapping,
-- 
2.43.0


From 7cf0dd22f257eb6f72234b013c554c4507baf2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 09/96] fix: error code of a remote document without context

---
 crates/context-processing/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 08aebaa..f49e726 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -139,7 +139,8 @@ impl Error {
 			Self::InvalidScopedContext => ErrorCode::InvalidScopedContext,
 			Self::ProtectedTermRedefinition => ErrorCode::ProtectedTermRedefinition,
 			Self::ContextLoadingFailed(_) => ErrorCode::LoadingRemoteContextFailed,
-			Self::ContextExtractionFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(ExtractContextError::Syntax(e)) => e.code(),
+			Self::ContextExtractionFailed(_) => ErrorCode::InvalidRemoteContext,
 			Self::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
 		}
 	}
-- 
2.43.0


From 35b601608cf7045edbc4709b40e71cb1cdc8d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:25 +0000
Subject: [PATCH 10/96] fix: the @protected entry of a context applies to its
 @type definition

---
 crates/context-processing/src/algorithm/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 0e68bd4..eea2f04 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -135,7 +135,7 @@ where
 					// Checked during parsing.
 					let mut definition = TypeTermDefinition {
 						container: d.container,
-						..Default::default()
+						protected,
 					};
 
 					if let Some(protected) = d.protected {
-- 
2.43.0


From 4e4ae1140d025d17a49c88fd2bff78e31a092739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 11/96] fix: @vocab must expand to an IRI or a blank node
 identifier

---
 crates/context-processing/src/algorithm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index caaa5ed..8ddbdcd 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -316,7 +316,7 @@ where
 								true,
 								Some(options.vocab),
 							)? {
-								Some(Term::Id(vocab)) => {
+								Some(Term::Id(vocab)) if vocab.is_valid() => {
 									result.set_vocabulary(Some(Term::Id(vocab)))
 								}
 								_ => return Err(Error::InvalidVocabMapping),
-- 
2.43.0


From de3759e8538cf6c48d26b7cd04ad59173a91b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 12/96] fix: terms relative to a blank node prefix or
 vocabulary, terms with a null prefix

---
 .../src/algorithm/define.rs                   | 57 +++++++------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index eea2f04..2ef455d 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -1,6 +1,7 @@
 use super::{expand_iri_simple, expand_iri_with, Environment, Merged};
 use crate::{Error, Options, ProcessingStack, Warning, WarningHandler};
-use iref::{Iri, IriRef};
+use contextual::WithContext;
+use iref::IriRef;
 use json_ld_core::{
 	context::{NormalTermDefinition, TypeTermDefinition},
 	Container, Context, Id, Loader, ProcessingMode, Term, Type, ValidId,
@@ -501,25 +502,18 @@ where
 									if let Some(prefix_definition) =
 										active_context.get(compact_iri.prefix())
 									{
-										let mut result = String::new();
-
 										if let Some(prefix_key) = prefix_definition.value() {
-											if let Some(prefix_iri) = prefix_key.as_iri() {
-												result = env
-													.vocabulary
-													.iri(prefix_iri)
-													.unwrap()
-													.to_string()
+											let mut result = prefix_key
+												.with(&*env.vocabulary)
+												.as_str()
+												.to_string();
+											result.push_str(compact_iri.suffix());
+											let mapping =
+												Id::from_string_in(env.vocabulary, result);
+											if !mapping.is_valid() {
+												return Err(Error::InvalidIriMapping);
 											}
-										}
-
-										result.push_str(compact_iri.suffix());
-
-										if let Ok(iri) = Iri::new(result.as_str()) {
-											definition.value =
-												Some(Term::Id(Id::iri(env.vocabulary.insert(iri))))
-										} else {
-											return Err(Error::InvalidIriMapping);
+											definition.value = Some(Term::Id(mapping))
 										}
 									}
 								}
@@ -573,26 +567,17 @@ where
 											// associated with the vocabulary mapping and `term`.
 											// If it does not have a vocabulary mapping, an invalid IRI mapping error
 											// been detected and processing is aborted.
-											if let Some(vocabulary_iri) =
-												context_vocabulary.as_iri()
-											{
-												let mut result = env
-													.vocabulary
-													.iri(vocabulary_iri)
-													.unwrap()
-													.to_string();
-												result.push_str(key.as_str());
-												if let Ok(iri) = Iri::new(result.as_str()) {
-													definition.value =
-														Some(Term::<N::Iri, N::BlankId>::from(
-															env.vocabulary.insert(iri),
-														))
-												} else {
-													return Err(Error::InvalidIriMapping);
-												}
-											} else {
+											let mut result = context_vocabulary
+												.with(&*env.vocabulary)
+												.as_str()
+												.to_string();
+											result.push_str(key.as_str());
+											let mapping =
+												Id::from_string_in(env.vocabulary, result);
+											if !mapping.is_valid() {
 												return Err(Error::InvalidIriMapping);
 											}
+											definition.value = Some(Term::Id(mapping))
 										} else {
 											// If it does not have a vocabulary mapping, an invalid IRI mapping error
 											// been detected and processing is aborted.
-- 
2.43.0


From 50dfd8fc9dee569a793f2a3bd7c00fa82da143e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 13/96] fix: a term cannot be mapped to a term mapped to null

---
 crates/context-processing/src/algorithm/define.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 2ef455d..3162a71 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -402,6 +402,10 @@ where
 											// been detected and processing is aborted.
 											return Err(Error::InvalidKeywordAlias);
 										}
+										Some(Term::Null) => {
+											// the mapping is another term that maps to nothing
+											return Err(Error::InvalidIriMapping);
+										}
 										Some(Term::Id(prop)) if !prop.is_valid() => {
 											// If the resulting IRI mapping is neither a keyword,
 											// nor an IRI, nor a blank node identifier, an
-- 
2.43.0


From cc27f564b5da619d9bb43d2b4850681110a79921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 14/96] fix: no panic when the mapping of a term is dropped by
 the @vocab policy

---
 crates/context-processing/src/algorithm/define.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 3162a71..b79920f 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -460,10 +460,9 @@ where
 									// `definition` to true.
 									if !key.as_str().contains(':')
 										&& !key.as_str().contains('/') && simple_term
-										&& is_gen_delim_or_blank(
-											env.vocabulary,
-											definition.value.as_ref().unwrap(),
-										) {
+										&& definition.value.as_ref().is_some_and(|value| {
+											is_gen_delim_or_blank(env.vocabulary, value)
+										}) {
 										definition.prefix = true;
 									}
 								}
-- 
2.43.0


From 3185bd57c9744fa013970c77d2f9e048a7729453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 15/96] fix: @propagate is rejected in json-ld-1.0 mode in
 every context of an array

---
 crates/context-processing/src/algorithm/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 8ddbdcd..47fde4e 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -213,6 +213,14 @@ where
 					}
 				}
 
+				// 5.11) If context has a @propagate entry and processing mode is json-ld-1.0, an
+				// invalid context entry error has been detected and processing is aborted.
+				if context.propagate.is_some()
+					&& options.processing_mode == ProcessingMode::JsonLd1_0
+				{
+					return Err(Error::InvalidContextEntry);
+				}
+
 				// 5.6) If context has an @import entry:
 				let import_context = match &context.import {
 					Some(import_value) => {
-- 
2.43.0


From f7ab962a633ec495d8630760a7edddc234c258d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 16/96] fix: the @included entry of a node is serialized as
 @included

---
 crates/core/src/object/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a49dc38..5741335 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -1319,7 +1319,7 @@ impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for Node<
 
 		if let Some(included) = self.included {
 			obj.insert(
-				"@include".into(),
+				"@included".into(),
 				included.into_with(vocabulary).into_json(),
 			);
 		}
-- 
2.43.0


From 108b91d8589ccae311172281935da403209044e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 17/96] fix: a null value is dropped whatever the container of
 its property

---
 crates/expansion/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 8be89eb..4a9d75d 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -931,7 +931,10 @@ where
 				// expanded value if it is not already an array, and then by
 				// setting it to a map containing the key-value pair
 				// @list-expanded value.
-				if container_mapping.contains(ContainerKind::List) && !expanded_value.is_list() {
+				if container_mapping.contains(ContainerKind::List)
+					&& !expanded_value.is_null()
+					&& !expanded_value.is_list()
+				{
 					expanded_value = Expanded::Object(
 						Object::List(object::List::new(expanded_value.into_iter().collect()))
 							.into(),
@@ -945,6 +948,7 @@ where
 				if container_mapping.contains(ContainerKind::Graph)
 					&& !container_mapping.contains(ContainerKind::Id)
 					&& !container_mapping.contains(ContainerKind::Index)
+					&& !expanded_value.is_null()
 				{
 					expanded_value = Expanded::Array(
 						expanded_value
-- 
2.43.0


From aadae3cfe575d9b15ddd71fbc073b5faf0fb67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 18/96] fix: only a top-level map is replaced by its @graph
 entry, not the item of an array

---
 crates/expansion/src/document.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/crates/expansion/src/document.rs b/crates/expansion/src/document.rs
index 253fc20..c1f08fe 100644
--- a/crates/expansion/src/document.rs
+++ b/crates/expansion/src/document.rs
@@ -1,5 +1,5 @@
 use super::expand_element;
-use crate::{ActiveProperty, Error, Loader, Options, WarningHandler};
+use crate::{ActiveProperty, Error, Expanded, Loader, Options, WarningHandler};
 use json_ld_core::{Context, Environment, ExpandedDocument, IndexedObject, Object};
 use json_syntax::Value;
 use rdf_types::VocabularyMut;
@@ -34,20 +34,14 @@ where
 		false,
 	)
 	.await?;
-	if expanded.len() == 1 {
-		let obj = expanded.into_iter().next().unwrap();
-		match obj.into_unnamed_graph() {
+	match expanded {
+		// If the expanded output is a map that contains only an `@graph` entry,
+		// it is replaced by the value of that entry.
+		Expanded::Object(obj) => match obj.into_unnamed_graph() {
 			Ok(graph) => Ok(ExpandedDocument::from(graph)),
-			Err(obj) => {
-				let mut result = ExpandedDocument::new();
-				if filter_top_level_item(&obj) {
-					result.insert(obj);
-				}
-				Ok(result)
-			}
-		}
-	} else {
-		Ok(expanded.into_iter().filter(filter_top_level_item).collect())
+			Err(obj) => Ok(std::iter::once(obj).filter(filter_top_level_item).collect()),
+		},
+		expanded => Ok(expanded.into_iter().filter(filter_top_level_item).collect()),
 	}
 }
 
-- 
2.43.0


From 62148d3588ad92ce8b3cfc9a40e9931b9640745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 19/96] fix: undefined entries and the local context are
 ignored in value, list and set objects

---
 crates/expansion/src/element.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index a96e6ef..08d2109 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -2,6 +2,7 @@ use crate::{
 	expand_array, expand_iri, expand_literal, expand_node, expand_value, Error, Expanded,
 	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
 };
+use contextual::WithContext;
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
 use json_ld_core::{object, Context, Environment, Id, Indexed, Object, Term, ValidId};
 use json_ld_syntax::{Keyword, Nullable};
@@ -350,6 +351,25 @@ where
 				}
 			}
 
+			if list_entry.is_some() || set_entry.is_some() || value_entry.is_some() {
+				// The local context, and the entries that expand neither into a
+				// keyword nor into an IRI, do not belong to the object.
+				let mut object_entries = Vec::with_capacity(expanded_entries.len());
+				for entry in expanded_entries {
+					match &entry.1 {
+						Term::Null | Term::Keyword(Keyword::Context) => (),
+						Term::Id(prop) if !prop.with(&*env.vocabulary).as_str().contains(':') => {
+							if options.policy.invalid.is_reject() || !options.policy.allow_undefined
+							{
+								return Err(Error::KeyExpansionFailed(entry.0.to_owned()));
+							}
+						}
+						_ => object_entries.push(entry),
+					}
+				}
+				expanded_entries = object_entries;
+			}
+
 			if let Some(list_entry) = list_entry {
 				// List objects.
 				let mut index = None;
-- 
2.43.0


From e7e9b73655ccbabeac2a5f3557f409a60f0107c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 20/96] fix: the ordered option orders the entries of a map

---
 crates/expansion/src/element.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 08d2109..5cb3ef7 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -214,7 +214,9 @@ where
 			}
 
 			let entries: Cow<[Entry]> = if options.ordered {
-				Cow::Owned(element.entries().to_vec())
+				let mut entries = element.entries().to_vec();
+				entries.sort_by(|a, b| a.key.cmp(&b.key));
+				Cow::Owned(entries)
 			} else {
 				Cow::Borrowed(element.entries())
 			};
-- 
2.43.0


From c51dcdb072d79780d2dce921f24df42e51953a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 21/96] fix: @direction is ignored and JSON literals are
 rejected in value objects in json-ld-1.0 mode

---
 crates/expansion/src/element.rs |  1 +
 crates/expansion/src/value.rs   | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 5cb3ef7..d4476b1 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -444,6 +444,7 @@ where
 				// Value objects.
 				let expanded_value = expand_value(
 					&mut env,
+					options.processing_mode,
 					options.policy.vocab,
 					input_type,
 					type_scoped_context,
diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 084fe6c..5aa2f87 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -2,7 +2,7 @@ use crate::{expand_iri, Action, ExpandedEntry, Warning, WarningHandler};
 use json_ld_context_processing::algorithm::RejectVocab;
 use json_ld_core::{
 	object::value::Literal, Context, Environment, Id, Indexed, IndexedObject, LangString, Object,
-	Term, ValidId, Value,
+	ProcessingMode, Term, ValidId, Value,
 };
 use json_ld_syntax::{Direction, ErrorCode, Keyword, LenientLangTagBuf, Nullable};
 use rdf_types::VocabularyMut;
@@ -60,6 +60,7 @@ pub type ValueExpansionResult<T, B> = Result<Option<IndexedObject<T, B>>, Invali
 /// Expand a value object.
 pub(crate) fn expand_value<N, L, W>(
 	env: &mut Environment<N, L, W>,
+	processing_mode: ProcessingMode,
 	vocab_policy: Action,
 	input_type: Option<Term<N::Iri, N::BlankId>>,
 	type_scoped_context: &Context<N::Iri, N::BlankId>,
@@ -104,7 +105,9 @@ where
 			Term::Keyword(Keyword::Direction) => {
 				// If processing mode is json-ld-1.0, continue with the next key
 				// from element.
-				// TODO processing mode.
+				if processing_mode == ProcessingMode::JsonLd1_0 {
+					continue;
+				}
 
 				// If value is neither "ltr" nor "rtl", an invalid base direction
 				// error has been detected and processing is aborted.
@@ -164,6 +167,10 @@ where
 	// If processing mode is json-ld-1.0, an invalid value object value error has
 	// been detected and processing is aborted.
 	if is_json {
+		if processing_mode == ProcessingMode::JsonLd1_0 {
+			return Err(InvalidValue::ValueObjectValue);
+		}
+
 		if language.is_some() || direction.is_some() {
 			return Err(InvalidValue::ValueObject);
 		}
-- 
2.43.0


From d796c192281ae7604e7acce41bc2ffe7c9bbb950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 22/96] fix: the language of a value object is never dropped

---
 crates/expansion/src/value.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 5aa2f87..458ab20 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -93,10 +93,7 @@ where
 					// well-formed according to section 2.2.9 of [BCP47],
 					// processors SHOULD issue a warning.
 					// TODO warning.
-
-					if value != "@none" {
-						language = Some(value.to_owned());
-					}
+					language = Some(value.to_owned());
 				} else {
 					return Err(InvalidValue::LanguageTaggedString);
 				}
-- 
2.43.0


From ba0fe708a936649998c194045ec8de2029ad3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 23/96] fix: an index that expands to null is still an index

---
 crates/expansion/src/node.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 4a9d75d..50e831d 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -754,7 +754,8 @@ where
 									false,
 									Some(options.policy.vocab),
 								)? {
-									Some(Term::Null) | Some(Term::Keyword(Keyword::None)) => None,
+									None => Some(Term::Null),
+									Some(Term::Keyword(Keyword::None)) => None,
 									key => key,
 								};
 
@@ -839,7 +840,12 @@ where
 											// Add the key-value pair (expanded index
 											// key-index property values) to item.
 											if let Object::Node(node) = item.inner_mut() {
-												node.insert(expanded_index_key, re_expanded_index);
+												// The index comes before any existing value.
+												let values = std::iter::once(re_expanded_index)
+													.chain(node.get(&expanded_index_key).cloned())
+													.collect();
+												node.properties_mut()
+													.set(expanded_index_key, values);
 											} else {
 												// If item is a value object, it MUST NOT
 												// contain any extra properties; an invalid
@@ -877,7 +883,9 @@ where
 												)?
 												.and_then(node_id_of_term);
 											}
-										} else if container_mapping.contains(ContainerKind::Type) {
+										} else if container_mapping.contains(ContainerKind::Type)
+											&& expanded_index != Some(Term::Null)
+										{
 											// Otherwise, if container mapping includes
 											// @type and expanded index is not @none,
 											// initialize types to a new array consisting
-- 
2.43.0


From 34d09db40ca927a17fd0f862f78f55dcbe570a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 24/96] fix: the value of @reverse is expanded as a map, with
 the containers and types of its terms

---
 crates/expansion/src/element.rs |   6 ++
 crates/expansion/src/node.rs    | 136 ++++++++++----------------------
 2 files changed, 46 insertions(+), 96 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index d4476b1..85c5baf 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -335,6 +335,12 @@ where
 
 				if let Some(expanded_key) = expanded_key {
 					match &expanded_key {
+						Term::Keyword(keyword)
+							if active_property == Keyword::Reverse
+								&& *keyword != Keyword::Context =>
+						{
+							return Err(Error::InvalidReversePropertyMap)
+						}
 						Term::Keyword(Keyword::Value) => value_entry = Some(value.clone()),
 						Term::Keyword(Keyword::List) => {
 							if active_property.is_some() && active_property != Keyword::Graph {
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 50e831d..b2b22aa 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -304,110 +304,54 @@ where
 					Keyword::Reverse => {
 						// If value is not a map, an invalid @reverse value error
 						// has been detected and processing is aborted.
-						if let Some(value) = value.as_object() {
-							let mut reverse_entries: Vec<&Entry> = value.iter().collect();
+						if value.is_object() {
+							// Initialize expanded value to the result of using this
+							// algorithm recursively, passing active context, @reverse as
+							// active property, value as element, base URL, and the
+							// ordered flag.
+							let reverse_map = Box::pin(expand_element(
+								Environment {
+									vocabulary: env.vocabulary,
+									loader: env.loader,
+									warnings: env.warnings,
+								},
+								active_context,
+								ActiveProperty::Some("@reverse"),
+								value,
+								base_url,
+								options,
+								false,
+							))
+							.await?;
 
-							if options.ordered {
-								reverse_entries.sort_by_key(|entry| &entry.key)
-							}
+							for object in reverse_map {
+								let Ok(mut node) = object.try_cast::<Node<N::Iri, N::BlankId>>()
+								else {
+									return Err(Error::InvalidReversePropertyMap);
+								};
 
-							for Entry {
-								key: reverse_key,
-								value: reverse_value,
-							} in reverse_entries
-							{
-								match expand_iri(
-									&mut env,
-									active_context,
-									Nullable::Some(reverse_key.as_str().into()),
-									false,
-									Some(options.policy.vocab),
-								)? {
-									Some(Term::Keyword(_)) => {
-										return Err(Error::InvalidReversePropertyMap)
+								// The reverse properties of the map are double reversed.
+								if let Some(double_reversed) = node.reverse_properties_mut() {
+									for (prop, nodes) in std::mem::take(double_reversed) {
+										result
+											.insert_all(prop, nodes.into_iter().map(Indexed::cast))
 									}
-									Some(Term::Id(reverse_prop))
-										if reverse_prop
-											.with(&*env.vocabulary)
-											.as_str()
-											.contains(':') =>
-									{
-										if !reverse_prop.is_valid() {
-											match options.policy.invalid {
-												Action::Keep => (),
-												Action::Drop => continue,
-												Action::Reject => {
-													return Err(Error::KeyExpansionFailed(
-														reverse_key.to_string(),
-													))
-												}
-											}
-										}
-
-										let reverse_expanded_value = Box::pin(expand_element(
-											Environment {
-												vocabulary: env.vocabulary,
-												loader: env.loader,
-												warnings: env.warnings,
-											},
-											active_context,
-											ActiveProperty::Some(reverse_key.as_ref()),
-											reverse_value,
-											base_url,
-											options,
-											false,
-										))
-										.await?;
-
-										let is_double_reversed =
-											if let Some(reverse_key_definition) =
-												active_context.get(reverse_key.as_str())
-											{
-												reverse_key_definition.reverse_property()
-											} else {
-												false
-											};
+								}
 
-										if is_double_reversed {
-											result.insert_all(
-												reverse_prop,
-												reverse_expanded_value.into_iter(),
-											)
-										} else {
-											let mut reverse_expanded_nodes = Vec::new();
-											for object in reverse_expanded_value {
-												match object.try_cast::<Node<N::Iri, N::BlankId>>()
-												{
-													Ok(node) => reverse_expanded_nodes.push(node),
-													Err(_) => {
-														return Err(
-															Error::InvalidReversePropertyValue,
-														)
-													}
-												}
+								for (prop, objects) in std::mem::take(node.properties_mut()) {
+									let mut reversed = Vec::with_capacity(objects.len());
+									for object in objects {
+										match object.try_cast::<Node<N::Iri, N::BlankId>>() {
+											Ok(node) => reversed.push(node),
+											Err(_) => {
+												return Err(Error::InvalidReversePropertyValue)
 											}
-
-											result.reverse_properties_or_default().insert_all(
-												reverse_prop,
-												reverse_expanded_nodes.into_iter(),
-											)
 										}
 									}
-									_ => {
-										if options.policy.invalid.is_reject() {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
 
-										if !options.policy.allow_undefined {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
-
-										// otherwise the key is just dropped.
-									}
+									result
+										.reverse_properties_or_default()
+										.insert_all(prop, reversed.into_iter())
 								}
 							}
 						} else {
-- 
2.43.0


From ebb41353c4bc6f0585802319091b0bf92954e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 25/96] fix: a reverse property without value does not create
 an empty @reverse entry

---
 crates/expansion/src/node.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index b2b22aa..ed38116 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -929,9 +929,11 @@ where
 							}
 						}
 
-						result
-							.reverse_properties_or_default()
-							.insert_all(prop, reverse_expanded_nodes.into_iter());
+						if !reverse_expanded_nodes.is_empty() {
+							result
+								.reverse_properties_or_default()
+								.insert_all(prop, reverse_expanded_nodes.into_iter());
+						}
 					} else {
 						// Otherwise, key is not a reverse property use add value
 						// to add expanded value to the expanded property entry in
-- 
2.43.0


From 353379f48b519ec5fed1e7153e9e64a3d57d8072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 26/96] fix: an indexed graph is not replaced by its content

---
 crates/core/src/object/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index a65ac70..5f74900 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -480,6 +480,11 @@ impl<T, B> Indexed<Object<T, B>> {
 
 	/// Try to convert this object into an unnamed graph.
 	pub fn into_unnamed_graph(self) -> Result<Graph<T, B>, Self> {
+		if self.index().is_some() {
+			// An indexed graph has an entry other than `@graph`.
+			return Err(self);
+		}
+
 		let (obj, index) = self.into_parts();
 		match obj {
 			Object::Node(n) => match n.into_unnamed_graph() {
-- 
2.43.0


From c75f5e6173a7a4b16144c0cfc9155258539bd59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 27/96] fix: colliding keywords and invalid @index are detected
 in value, list and set objects

---
 crates/expansion/src/element.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 85c5baf..be15050 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -4,7 +4,9 @@ use crate::{
 };
 use contextual::WithContext;
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
-use json_ld_core::{object, Context, Environment, Id, Indexed, Object, Term, ValidId};
+use json_ld_core::{
+	object, Context, Environment, Id, Indexed, Object, ProcessingMode, Term, ValidId,
+};
 use json_ld_syntax::{Keyword, Nullable};
 use json_syntax::{object::Entry, Value};
 use mown::Mown;
@@ -372,7 +374,18 @@ where
 								return Err(Error::KeyExpansionFailed(entry.0.to_owned()));
 							}
 						}
-						_ => object_entries.push(entry),
+						key => {
+							if key.is_keyword()
+								&& (*key != Term::Keyword(Keyword::Type)
+									|| options.processing_mode == ProcessingMode::JsonLd1_0)
+								&& object_entries.iter().any(
+									|other: &ExpandedEntry<N::Iri, N::BlankId>| other.1 == *key,
+								) {
+								return Err(Error::CollidingKeywords);
+							}
+
+							object_entries.push(entry)
+						}
 					}
 				}
 				expanded_entries = object_entries;
@@ -422,11 +435,14 @@ where
 				)))
 			} else if let Some(set_entry) = set_entry {
 				// Set objects.
-				for ExpandedEntry(_, expanded_key, _) in expanded_entries {
+				for ExpandedEntry(_, expanded_key, value) in expanded_entries {
 					match expanded_key {
 						Term::Keyword(Keyword::Index) => {
 							// having an `@index` here is tolerated,
 							// but is ignored.
+							if !value.is_string() {
+								return Err(Error::InvalidIndexValue);
+							}
 						}
 						Term::Keyword(Keyword::Set) => (),
 						_ => return Err(Error::InvalidSetOrListObject),
-- 
2.43.0


From 3968165974778dd01e3716ec6bffb765f51b254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 28/96] fix: colliding @index entries of a node are detected

---
 crates/expansion/src/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index ed38116..e7db847 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -150,7 +150,8 @@ where
 				if (options.processing_mode == ProcessingMode::JsonLd1_0
 					|| (expanded_property != Keyword::Included
 						&& expanded_property != Keyword::Type))
-					&& result.has_key(&Term::Keyword(expanded_property))
+					&& (result.has_key(&Term::Keyword(expanded_property))
+						|| (expanded_property == Keyword::Index && result.index().is_some()))
 				{
 					return Err(Error::CollidingKeywords);
 				}
-- 
2.43.0


From 2ddc3cbd7b6f13e7cd761c33bf5a28f100f262ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 29/96] fix: a property-scoped context overrides protected
 terms for scalar values too

---
 crates/expansion/src/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index be15050..7e4fefd 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -527,7 +527,7 @@ where
 						active_context,
 						env.loader,
 						base_url,
-						options.into(),
+						ProcessingOptions::from(options).with_override(),
 					)
 					.await?
 					.into_processed();
-- 
2.43.0


From a84846c1d6769510b14e2c7c1f700b1e7b8ed1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:47 +0000
Subject: [PATCH 30/96] fix: only convert the nested arrays of a list container
 into lists

---
 crates/expansion/src/array.rs   | 13 ++++++-------
 crates/expansion/src/element.rs | 29 +++++++++++------------------
 2 files changed, 17 insertions(+), 25 deletions(-)

diff --git a/crates/expansion/src/array.rs b/crates/expansion/src/array.rs
index 6090dfc..b152e80 100644
--- a/crates/expansion/src/array.rs
+++ b/crates/expansion/src/array.rs
@@ -54,13 +54,12 @@ where
 		))
 		.await?;
 
-		result.extend(e);
-	}
-
-	if is_list {
-		return Ok(Expanded::Object(
-			Object::List(object::List::new(result)).into(),
-		));
+		match e {
+			Expanded::Array(items) if is_list => {
+				result.push(Object::List(object::List::new(items)).into())
+			}
+			e => result.extend(e),
+		}
 	}
 
 	// Return result.
diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 7e4fefd..cabf994 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -410,24 +410,17 @@ where
 				// base URL, and the ordered flags, ensuring that the
 				// result is an array..
 				let mut result = Vec::new();
-				let list_entry = Value::force_as_array(&list_entry);
-				for item in list_entry {
-					let e = Box::pin(expand_element(
-						Environment {
-							vocabulary: env.vocabulary,
-							loader: env.loader,
-							warnings: env.warnings,
-						},
-						active_context.as_ref(),
-						active_property,
-						item,
-						base_url,
-						options,
-						false,
-					))
-					.await?;
-					result.extend(e)
-				}
+				let e = Box::pin(expand_element(
+					env,
+					active_context.as_ref(),
+					active_property,
+					&list_entry,
+					base_url,
+					options,
+					false,
+				))
+				.await?;
+				result.extend(e);
 
 				Ok(Expanded::Object(Indexed::new(
 					Object::List(object::List::new(result)),
-- 
2.43.0


From b2ab3d9843069ff09827f6159c4caed95aff7cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:48 +0000
Subject: [PATCH 31/96] fix: reject value objects with several types

---
 crates/expansion/src/value.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 458ab20..1dc2e0e 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -77,6 +77,7 @@ where
 		.as_ref()
 		.map(|t| *t == Term::Keyword(Keyword::Json))
 		.unwrap_or(false);
+	let mut has_type = false;
 	let mut ty = None;
 	let mut index = None;
 	let mut language = None;
@@ -130,6 +131,12 @@ where
 			}
 			// If expanded ...
 			Term::Keyword(Keyword::Type) => {
+				if has_type {
+					return Err(InvalidValue::TypedValue);
+				}
+
+				has_type = true;
+
 				if let Some(ty_value) = value.as_str() {
 					let expanded_ty = expand_iri(
 						env,
-- 
2.43.0


From a14ad35c3d2978c0634e55cb98c26af0d23a1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:48 +0000
Subject: [PATCH 32/96] fix: keep an indexed node with a language entry

---
 crates/expansion/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index e7db847..3880d3c 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -72,7 +72,11 @@ where
 	// Otherwise, if result contains the entry @set or @list:
 	// FIXME TODO
 
-	if has_value_object_entries && result.is_empty() && result.id.is_none() {
+	if has_value_object_entries
+		&& result.is_empty()
+		&& result.id.is_none()
+		&& result.index().is_none()
+	{
 		return Ok(None);
 	}
 
-- 
2.43.0


From 556c41cad1180d413fb5b8d92b4b4a92653990f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:55 +0000
Subject: [PATCH 33/96] fix: use the alias of @id in compacted graph objects

---
 crates/compaction/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ba72110..8f5fe84 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -259,7 +259,7 @@ where
 				vocabulary,
 				active_context,
 				&Term::Keyword(Keyword::Id),
-				false,
+				true,
 				false,
 				options,
 			)?
-- 
2.43.0


From 3befcbb775bb60ac6ff95e0f99b54dd9066385bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:56 +0000
Subject: [PATCH 34/96] fix: use the alias of @none in compacted graph index
 maps

---
 crates/compaction/src/property.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 8f5fe84..9fd4f16 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -194,11 +194,22 @@ where
 
 		// Initialize `map_key` the value of @index in `expanded_item`
 		// or @none, if no such value exists.
-		let map_key = expanded_index.unwrap_or("@none");
+		let map_key = match expanded_index {
+			Some(index) => index.to_owned(),
+			None => compact_iri(
+				vocabulary,
+				active_context,
+				&Term::Keyword(Keyword::None),
+				true,
+				false,
+				options,
+			)?
+			.unwrap(),
+		};
 
 		// Use `add_value` to add `compacted_item` to
 		// the `map_key` entry in `map_object` using `as_array`.
-		add_value(map_object, map_key, compacted_item, as_array)
+		add_value(map_object, &map_key, compacted_item, as_array)
 	} else if container.contains(ContainerKind::Graph) && node.is_simple_graph() {
 		// Otherwise, if `container` includes @graph and
 		// `expanded_item` is a simple graph object
-- 
2.43.0


From b4c8a3c2b848078dea5e92112b2d5ef569a7b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:56 +0000
Subject: [PATCH 35/96] fix: keep the index of a compacted node reference

---
 crates/compaction/src/node.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/compaction/src/node.rs b/crates/compaction/src/node.rs
index eb02cba..352c9c3 100644
--- a/crates/compaction/src/node.rs
+++ b/crates/compaction/src/node.rs
@@ -34,7 +34,7 @@ where
 	// If element does not contain an @value entry, and element does not consist of
 	// a single @id entry, set active context to previous context from active context,
 	// as the scope of a term-scoped context does not apply when processing new node objects.
-	if !(node.is_empty() && node.id.is_some()) {
+	if !(node.is_empty() && node.id.is_some() && index.is_none()) {
 		// does not consist of a single @id entry
 		if let Some(previous_context) = active_context.previous_context() {
 			active_context = previous_context
@@ -126,7 +126,11 @@ where
 	if let Some(id_entry) = &node.id {
 		let id = id_entry.clone().into_term();
 
-		if node.is_empty() {
+		let has_index_container = active_property
+			.and_then(|prop| active_context.get(prop))
+			.is_some_and(|def| def.container().contains(ContainerKind::Index));
+
+		if node.is_empty() && (index.is_none() || has_index_container) {
 			// This captures step 7:
 			// If element has an @value or @id entry and the result of using the
 			// Value Compaction algorithm, passing active context, active property,
-- 
2.43.0


From 64a6ba62eb970bce0608121d34ea0125ee60bbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:57 +0000
Subject: [PATCH 36/96] fix: only compact a string into a scalar when both its
 language and direction are implied

---
 crates/compaction/src/value.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index ee7984d..8545a72 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -189,11 +189,7 @@ where
 			let ls_language = ls.language(); //.map(|l| Nullable::Some(l));
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
-			if remove_index
-			&& (ls_language.is_none() || language == ls_language) // || (ls.language().is_none() && language.is_none()))
-			&& (ls_direction.is_none() || direction == ls_direction)
-			{
-				// || (ls.direction().is_none() && direction.is_none())) {
+			if remove_index && language == ls_language && direction == ls_direction {
 				return Ok(json_syntax::Value::String(ls.as_str().into()));
 			} else {
 				let compact_key = compact_key(
-- 
2.43.0


From 561c10712b5cf23d4b9f399a2c8d5b878d161d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:58 +0000
Subject: [PATCH 37/96] fix: select the shortest then least compact IRI

---
 crates/compaction/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 4656858..3a104c6 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -446,7 +446,8 @@ where
 						// and value is null, set compact IRI to candidate.
 						let candidate_def = active_context.get(candidate.as_str());
 						if (compact_iri.is_empty()
-							|| (candidate.len() <= compact_iri.len() && candidate < compact_iri))
+							|| (candidate.len(), candidate.as_str())
+								< (compact_iri.len(), compact_iri.as_str()))
 							&& (candidate_def.is_none()
 								|| (candidate_def.is_some()
 									&& (candidate_def.and_then(|def| def.value()) == Some(var))
-- 
2.43.0


From 4214559115c96dc6d4226e75c5662ff03f8a2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:58 +0000
Subject: [PATCH 38/96] fix: only report IRIs that are really confused with a
 prefix

---
 crates/compaction/src/iri.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 3a104c6..164c53e 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -473,7 +473,11 @@ where
 	// an IRI confused with prefix error has been detected, and processing is aborted.
 	if let Some(iri) = var.as_iri() {
 		let iri = vocabulary.iri(iri).unwrap();
-		if active_context.contains_term(iri.scheme().as_str()) {
+		if iri.authority().is_none()
+			&& active_context
+				.get(iri.scheme().as_str())
+				.is_some_and(|definition| definition.prefix())
+		{
 			return Err(IriConfusedWithPrefix);
 		}
 	}
-- 
2.43.0


From 12e11cce29c2ff62b24ecbdd0e84df8b7d673f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 39/96] fix: do not panic when a property has both mapped and
 unmapped values

---
 crates/compaction/src/property.rs | 119 ++++++++++++++++--------------
 1 file changed, 62 insertions(+), 57 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 9fd4f16..ec8ff51 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -132,24 +132,7 @@ where
 		// Initialize `map_object` to the value of `item_active_property`
 		// in `nest_result`, initializing it to a new empty map,
 		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
+		let map_object = select_map_object(nest_result, item_active_property);
 
 		// Initialize `map_key` by IRI compacting the value of @id in
 		// `expanded_item` or @none if no such value exists
@@ -165,7 +148,7 @@ where
 
 		// Use `add_value` to add `compacted_item` to
 		// the `map_key` entry in `map_object` using `as_array`.
-		add_value(map_object, &map_key, compacted_item, as_array)
+		add_map_value(map_object, &map_key, compacted_item, as_array)
 	} else if container.contains(ContainerKind::Graph)
 		&& container.contains(ContainerKind::Index)
 		&& node.is_simple_graph()
@@ -173,24 +156,7 @@ where
 		// Initialize `map_object` to the value of `item_active_property`
 		// in `nest_result`, initializing it to a new empty map,
 		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
+		let map_object = select_map_object(nest_result, item_active_property);
 
 		// Initialize `map_key` the value of @index in `expanded_item`
 		// or @none, if no such value exists.
@@ -209,7 +175,7 @@ where
 
 		// Use `add_value` to add `compacted_item` to
 		// the `map_key` entry in `map_object` using `as_array`.
-		add_value(map_object, &map_key, compacted_item, as_array)
+		add_map_value(map_object, &map_key, compacted_item, as_array)
 	} else if container.contains(ContainerKind::Graph) && node.is_simple_graph() {
 		// Otherwise, if `container` includes @graph and
 		// `expanded_item` is a simple graph object
@@ -311,6 +277,61 @@ where
 	Ok(())
 }
 
+/// Returns the map object of the given property, initializing it to a new empty
+/// map if necessary.
+///
+/// The returned value may already be something else than a map, if the property
+/// also has values that cannot be represented in a map.
+fn select_map_object<'a>(
+	nest_result: &'a mut json_syntax::Object,
+	item_active_property: &str,
+) -> &'a mut json_syntax::Value {
+	if nest_result
+		.get_unique(item_active_property)
+		.ok()
+		.unwrap()
+		.is_none()
+	{
+		nest_result.insert(
+			item_active_property.into(),
+			json_syntax::Object::default().into(),
+		);
+	}
+
+	nest_result
+		.get_unique_mut(item_active_property)
+		.ok()
+		.unwrap()
+		.unwrap()
+}
+
+/// Adds a value to the given map object.
+///
+/// If it is not a map, the value is added without its key.
+fn add_map_value(
+	map_object: &mut json_syntax::Value,
+	map_key: &str,
+	value: json_syntax::Value,
+	as_array: bool,
+) {
+	match map_object {
+		json_syntax::Value::Object(map) => add_value(map, map_key, value, as_array),
+		other => {
+			let mut values = match other.take() {
+				json_syntax::Value::Array(values) => values,
+				value => vec![value],
+			};
+
+			match value {
+				json_syntax::Value::Array(items) => values.extend(items),
+				value => values.push(value),
+			}
+
+			*other = json_syntax::Value::Array(values)
+		}
+	}
+}
+
 fn select_nest_result<'a, I, B>(
 	result: &'a mut json_syntax::Object,
 	active_context: &Context<I, B>,
@@ -499,24 +520,8 @@ where
 						// Initialize `map_object` to the value of
 						// `item_active_property` in `nest_result`,
 						// initializing it to a new empty map, if necessary.
-						if nest_result
-							.get_unique(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.is_none()
-						{
-							nest_result.insert(
-								item_active_property.clone().into(),
-								json_syntax::Object::default().into(),
-							);
-						}
-
-						let map_object = nest_result
-							.get_unique_mut(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.unwrap();
-						let map_object = map_object.as_object_mut().unwrap();
+						let map_object =
+							select_map_object(nest_result, item_active_property.as_str());
 
 						// Initialize container key by IRI compacting either
 						// @language, @index, @id, or @type based on the contents of container.
@@ -751,7 +756,7 @@ where
 
 						// Use `add_value` to add `compacted_item` to
 						// the `map_key` entry in `map_object` using `as_array`.
-						add_value(map_object, &map_key, compacted_item, as_array)
+						add_map_value(map_object, &map_key, compacted_item, as_array)
 					} else {
 						// Otherwise, use `add_value` to add `compacted_item` to the
 						// `item_active_property` entry in `nest_result` using `as_array`.
-- 
2.43.0


From b6cb455eb6bd3e0bb955b51d421105a4c1f509d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:26 +0000
Subject: [PATCH 40/96] fix: a list item that is not a string has no common
 language with the others

---
 crates/compaction/src/iri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 164c53e..6efa344 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -148,7 +148,7 @@ where
 						} else {
 							for item in list {
 								let mut item_type = None;
-								let mut item_lang_dir = None;
+								let mut item_lang_dir = Some(Nullable::Some((None, None)));
 								let mut is_value = false;
 
 								match item.inner() {
-- 
2.43.0


From 4d488b849c81767bf4cbc87fe804236d6635938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:45 +0000
Subject: [PATCH 41/96] fix: use the alias of @id when compacting type maps

---
 crates/compaction/src/property.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ec8ff51..3681109 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -717,7 +717,19 @@ where
 							// `active_property`, and a map composed of the single
 							// entry for @id from `expanded_item` for `element`.
 							if let Some(map) = compacted_item.as_object() {
-								if map.len() == 1 && map.get_unique("@id").ok().unwrap().is_some() {
+								let id_key = compact_iri(
+									vocabulary,
+									active_context,
+									&Term::Keyword(Keyword::Id),
+									true,
+									false,
+									options,
+								)?
+								.unwrap();
+
+								if map.len() == 1
+									&& map.get_unique(id_key.as_str()).ok().unwrap().is_some()
+								{
 									let obj = Object::node(Node::with_id(
 										expanded_item.id().unwrap().clone(),
 									));
-- 
2.43.0


From 36b43d59edcb098ee16c0300e1e5dcb4691802d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 42/96] fix: account for the @type definition in the inverse
 context

---
 crates/core/src/context/inverse.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/core/src/context/inverse.rs b/crates/core/src/context/inverse.rs
index d02c3a5..6dd36c3 100644
--- a/crates/core/src/context/inverse.rs
+++ b/crates/core/src/context/inverse.rs
@@ -4,6 +4,7 @@ use super::BindingRef;
 use super::Context;
 use super::Key;
 use crate::{Container, Direction, LenientLangTag, LenientLangTagBuf, Nullable, Term, Type};
+use json_ld_syntax::Keyword;
 use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt;
@@ -300,6 +301,21 @@ impl<'a, T: Clone + Hash + Eq, B: Clone + Hash + Eq> From<&'a Context<T, B>>
 		});
 
 		for binding in definitions {
+			if let BindingRef::Type(_) = binding {
+				let term = &Key::from(Keyword::Type.into_str().to_string());
+				let container = &Container::Set;
+				let type_lang_map = result
+					.reference_mut(&Term::Keyword(Keyword::Type), InverseDefinition::new)
+					.reference_mut(container, || InverseContainer::new(term));
+
+				type_lang_map.language.set(
+					Nullable::Some((context.default_language(), context.default_base_direction())),
+					term,
+				);
+				type_lang_map.language.set_none(term);
+				type_lang_map.typ.set_none(term);
+			}
+
 			if let BindingRef::Normal(term, term_definition) = binding {
 				if let Some(var) = term_definition.value.as_ref() {
 					let container = &term_definition.container;
-- 
2.43.0


From cabefa651fb6b3ca2ed14743185c3e16929c7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:57 +0000
Subject: [PATCH 43/96] fix: compact the reverse properties of a node with the
 previous context if it does not propagate

---
 crates/compaction/src/node.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/node.rs b/crates/compaction/src/node.rs
index 352c9c3..945cdaa 100644
--- a/crates/compaction/src/node.rs
+++ b/crates/compaction/src/node.rs
@@ -239,6 +239,13 @@ where
 				}
 			}
 
+			// The reverse map is not a value object nor a node reference: if the active
+			// context does not propagate, the reverse properties are compacted with the
+			// previous context.
+			let reverse_context = active_context
+				.previous_context()
+				.unwrap_or(active_context.as_ref());
+
 			let mut reverse_result = json_syntax::Object::default();
 			for (expanded_property, expanded_value) in reverse_properties.iter() {
 				compact_property(
@@ -246,7 +253,7 @@ where
 					&mut reverse_result,
 					expanded_property.clone().into(),
 					expanded_value.iter(),
-					active_context.as_ref(),
+					reverse_context,
 					loader,
 					true,
 					options,
-- 
2.43.0


From d0f59c26c6fd6d381004f98d12d39d7f309ee3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 44/96] fix: language-tagged strings are not compacted under a
 term of type @none

---
 crates/compaction/src/value.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index 8545a72..d679e35 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -189,7 +189,14 @@ where
 			let ls_language = ls.language(); //.map(|l| Nullable::Some(l));
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
-			if remove_index && language == ls_language && direction == ls_direction {
+			// With the `@none` type mapping the value is left as is.
+			let keep_expanded = type_mapping == Some(Type::None);
+
+			if remove_index
+				&& !keep_expanded
+				&& language == ls_language
+				&& direction == ls_direction
+			{
 				return Ok(json_syntax::Value::String(ls.as_str().into()));
 			} else {
 				let compact_key = compact_key(
-- 
2.43.0


From 2b5fbad23e9e0051b69f73b785262e4e2e98f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 45/96] fix: the index of the subject of a reverse property is
 considered when selecting a term

---
 crates/compaction/src/iri.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 6efa344..0f57580 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -119,17 +119,14 @@ where
 				}
 			}
 
-			let mut has_index = false;
+			let has_index = value.is_some_and(|v| v.index().is_some());
 			let mut is_simple_value = false; // value object with no type, no index, no language and no direction.
 
 			if reverse {
 				type_lang_value = Some(TypeLangValue::Type(TypeSelection::Reverse));
 				containers.push(Container::Set);
 			} else {
-				let value_ref = value.map(|v| {
-					has_index = v.index().is_some();
-					v.inner().as_ref()
-				});
+				let value_ref = value.map(|v| v.inner().as_ref());
 
 				match value_ref {
 					Some(object::Ref::List(list)) => {
-- 
2.43.0


From 489d3f9f9b39a4819a93851f34797a3b796e4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 46/96] fix: keep the first value of a property-valued index
 that is not a string

---
 crates/compaction/src/property.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 3681109..4b22a4a 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -597,17 +597,19 @@ where
 													json_syntax::Value::String(s) => {
 														(Some(s.to_string()), Vec::new())
 													}
-													json_syntax::Value::Array(values) => {
-														let mut values = values.into_iter();
-														match values.next() {
-															Some(first_value) => (
-																first_value
-																	.as_str()
-																	.map(|v| v.to_string()),
-																values.collect(),
-															),
-															None => (None, values.collect()),
+													json_syntax::Value::Array(mut values) => {
+														// If the first value is not a string, it
+														// cannot be used as key and must be kept.
+														let map_key = values
+															.first()
+															.and_then(json_syntax::Value::as_str)
+															.map(ToOwned::to_owned);
+
+														if map_key.is_some() {
+															values.remove(0);
 														}
+
+														(map_key, values)
 													}
 													other => (None, vec![other]),
 												},
-- 
2.43.0


From 1c5c4f10a4ce07eb9def728e8b6cd5170a6d7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:58 +0000
Subject: [PATCH 47/96] fix: compact the IRI of a property-valued index

---
 crates/compaction/src/property.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 4b22a4a..a00ccbc 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -573,10 +573,12 @@ where
 
 									// Reinitialize `container_key` by
 									// IRI compacting `index_key`.
+									let index_property =
+										Id::from_string_in(vocabulary, index_key.to_string());
 									container_key = compact_iri(
 										vocabulary,
 										active_context,
-										&Term::Id(Id::Invalid(index_key.to_string())),
+										&Term::Id(index_property),
 										true,
 										false,
 										options,
-- 
2.43.0


From a3932f5e0e0f198ba8d63a819b93b9daf6ca59ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:18 +0000
Subject: [PATCH 48/96] fix: keep the entry of a property-valued index whose
 first value is not a string as is

---
 crates/compaction/src/property.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index a00ccbc..122616e 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -600,18 +600,28 @@ where
 														(Some(s.to_string()), Vec::new())
 													}
 													json_syntax::Value::Array(mut values) => {
-														// If the first value is not a string, it
-														// cannot be used as key and must be kept.
-														let map_key = values
+														let first_value = values
 															.first()
 															.and_then(json_syntax::Value::as_str)
 															.map(ToOwned::to_owned);
 
-														if map_key.is_some() {
-															values.remove(0);
+														match first_value {
+															Some(map_key) => {
+																values.remove(0);
+																(Some(map_key), values)
+															}
+															None => {
+																// The first value cannot be used as key,
+																// the entry is kept as is.
+																map.insert(
+																	entry.key,
+																	json_syntax::Value::Array(
+																		values,
+																	),
+																);
+																(None, Vec::new())
+															}
 														}
-
-														(map_key, values)
 													}
 													other => (None, vec![other]),
 												},
-- 
2.43.0


From 7b2a91abd7b08382dd36f15ab80b96afe1dbc00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:23 +0000
Subject: [PATCH 49/96] fix: merge the types of a node declared several times
 in the node map

---
 crates/core/src/flattening/node_map.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index c6bb1cd..88094d0 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -374,12 +374,13 @@ where
 			.declare_node(id.clone(), index)?;
 
 		if let Some(entry) = node.types.as_deref() {
-			flat_node.types = Some(
-				entry
-					.iter()
-					.map(|ty| env.assign_node_id(Some(ty)))
-					.collect(),
-			);
+			let flat_types = flat_node.types_mut_or_default();
+			for ty in entry {
+				let flat_type = env.assign_node_id(Some(ty));
+				if !flat_types.contains(&flat_type) {
+					flat_types.push(flat_type)
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 745f2a2205cd0a4b9c28a166d998e55a9dd6f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 50/96] fix: keep the typed nodes without properties of a named
 graph when flattening

---
 crates/core/src/flattening/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/flattening/mod.rs b/crates/core/src/flattening/mod.rs
index a521fda..b98a829 100644
--- a/crates/core/src/flattening/mod.rs
+++ b/crates/core/src/flattening/mod.rs
@@ -94,12 +94,13 @@ fn filter_graph<T, B>(node: IndexedNode<T, B>) -> Option<IndexedNode<T, B>> {
 }
 
 fn filter_sub_graph<T, B>(mut node: IndexedNode<T, B>) -> Option<IndexedObject<T, B>> {
-	if node.index().is_none() && node.properties().is_empty() {
+	node.set_graph_entry(None);
+	node.set_included(None);
+	node.set_reverse_properties(None);
+
+	if node.index().is_none() && node.is_empty() {
 		None
 	} else {
-		node.set_graph_entry(None);
-		node.set_included(None);
-		node.set_reverse_properties(None);
 		Some(node.map_inner(Object::node))
 	}
 }
-- 
2.43.0


From 577809624c4d4543ca8a5edb77e16404a93bd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 51/96] fix: relabel the blank node properties when flattening

---
 crates/core/src/flattening/node_map.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index 88094d0..c60f045 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -416,17 +416,21 @@ where
 			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
 			flat_objects.push(flat_object);
 		}
-		node_map
+
+		let flat_property = env.assign_node_id(Some(property));
+		let flat_properties = node_map
 			.graph_mut(active_graph)
 			.unwrap()
 			.get_mut(&id)
 			.unwrap()
-			.properties_mut()
-			.insert_all_unique(property.clone(), flat_objects)
+			.properties_mut();
+
+		flat_properties.insert_all_unique(flat_property, flat_objects)
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
 		for (property, nodes) in reverse_properties.iter() {
+			let flat_property = env.assign_node_id(Some(property));
 			for subject in nodes {
 				let flat_subject = extend_node_map_from_node(
 					env,
@@ -445,7 +449,7 @@ where
 					.unwrap();
 
 				flat_subject.properties_mut().insert_unique(
-					property.clone(),
+					flat_property.clone(),
 					Indexed::none(Object::node(Node::with_id(id.clone()))),
 				)
 			}
-- 
2.43.0


From c68904a8ec07d0751544ec88c2749663d59875a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:25 +0000
Subject: [PATCH 52/96] fix: equal lists are not merged when flattening

---
 crates/core/src/flattening/node_map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index c60f045..54512bc 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -425,7 +425,12 @@ where
 			.unwrap()
 			.properties_mut();
 
-		flat_properties.insert_all_unique(flat_property, flat_objects)
+		// Two equal lists are still two different lists.
+		let (flat_lists, flat_objects): (Vec<_>, Vec<_>) = flat_objects
+			.into_iter()
+			.partition(|object| object.inner().is_list());
+		flat_properties.insert_all_unique(flat_property.clone(), flat_objects);
+		flat_properties.insert_all(flat_property, flat_lists)
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
-- 
2.43.0


From d74b54aea2f3ea00635c6117c46895caad6a76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:32 +0000
Subject: [PATCH 53/96] fix: canonicalize the literals of graphs and included
 nodes

---
 crates/core/src/object/list.rs     | 12 ++++++++--
 crates/core/src/object/mod.rs      | 12 ++++++++--
 crates/core/src/object/node/mod.rs | 36 ++++++++++++++++++++++++++++--
 3 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 44fe8aa..3d9ac4b 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -74,14 +74,22 @@ impl<T, B> List<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		for object in self {
 			object.canonicalize_with(buffer)
 		}
 	}
 
 	/// Puts this list object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index 5f74900..ed30f75 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -167,7 +167,11 @@ impl<T, B> Object<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		match self {
 			Self::List(l) => l.canonicalize_with(buffer),
 			Self::Node(n) => n.canonicalize_with(buffer),
@@ -176,7 +180,11 @@ impl<T, B> Object<T, B> {
 	}
 
 	/// Puts this object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 5741335..f0cc2fc 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -191,7 +191,35 @@ impl<T, B> Node<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
+		if let Some(graph) = self.graph.take() {
+			self.graph = Some(
+				graph
+					.into_iter()
+					.map(|mut object| {
+						object.canonicalize_with(buffer);
+						object
+					})
+					.collect(),
+			)
+		}
+
+		if let Some(included) = self.included.take() {
+			self.included = Some(
+				included
+					.into_iter()
+					.map(|mut node| {
+						node.canonicalize_with(buffer);
+						node
+					})
+					.collect(),
+			)
+		}
+
 		for (_, objects) in self.properties_mut() {
 			for object in objects {
 				object.canonicalize_with(buffer)
@@ -208,7 +236,11 @@ impl<T, B> Node<T, B> {
 	}
 
 	/// Puts this node object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
-- 
2.43.0


From d6d87be272242c2324ae556fe4a6153397675f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:33 +0000
Subject: [PATCH 54/96] fix: JSON literals are canonicalized in RDF

---
 crates/core/src/rdf/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index e9c1b41..96551fc 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -144,6 +144,8 @@ impl<T: Clone> crate::object::Value<T> {
 		match self {
 			Self::Json(json) => {
 				let ty = vocabulary.insert(RDF_JSON);
+				let mut json = json.clone();
+				json.canonicalize();
 				Some(CompoundLiteral {
 					value: Value::Literal(vocabulary.insert_owned_literal(Literal::new(
 						json.compact_print().to_string(),
-- 
2.43.0


From bc422202a2e0938622e1c7d02db7d604bf36bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:34 +0000
Subject: [PATCH 55/96] fix: numbers without fractional part are RDF integers
 whatever their lexical form

---
 crates/core/src/rdf/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 96551fc..4c94846 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -246,16 +246,22 @@ impl<T: Clone> crate::object::Value<T> {
 					}
 					value::Literal::Null => ("null".to_string(), None),
 					value::Literal::Number(n) => {
-						if n.is_i64()
-							&& !ty
-								.as_ref()
-								.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
-								.unwrap_or(false)
-						{
-							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
+						let f = n.as_f64_lossy();
+						let is_double = f.fract() != 0.0
+							|| f.abs() >= 1e21 || ty
+							.as_ref()
+							.is_some_and(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE);
+
+						if !is_double {
+							let lexical = match n.as_i64() {
+								Some(i) => i.to_string(),
+								None => (f as i128).to_string(),
+							};
+
+							(lexical, Some(vocabulary.insert(XSD_INTEGER)))
 						} else {
 							(
-								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
+								pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT),
 								Some(vocabulary.insert(XSD_DOUBLE)),
 							)
 						}
-- 
2.43.0


From 2aacdf14a804dfabd25c89ca8740bea311685aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:34 +0000
Subject: [PATCH 56/96] fix: form of the i18n datatype IRIs

---
 crates/core/src/rdf/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 4c94846..c71f339 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -50,8 +50,8 @@ pub enum RdfDirection {
 	/// `https://www.w3.org/ns/i18n#` prefix.
 	///
 	/// If a language tag is present the IRI will be of the form
-	/// `https://www.w3.org/ns/i18n#language_direction` or simply
-	/// `https://www.w3.org/ns/i18n#direction` otherwise where `direction` is
+	/// `https://www.w3.org/ns/i18n#language_direction`, with the language in
+	/// lower case, or `https://www.w3.org/ns/i18n#_direction` otherwise where `direction` is
 	/// either `rtl` or `ltr`.
 	I18nDatatype,
 
@@ -635,8 +635,11 @@ where
 
 fn i18n(language: Option<LangTagBuf>, direction: Direction) -> IriBuf {
 	let iri = match &language {
-		Some(language) => format!("https://www.w3.org/ns/i18n#{language}_{direction}"),
-		None => format!("https://www.w3.org/ns/i18n#{direction}"),
+		Some(language) => format!(
+			"https://www.w3.org/ns/i18n#{}_{direction}",
+			language.as_str().to_ascii_lowercase()
+		),
+		None => format!("https://www.w3.org/ns/i18n#_{direction}"),
 	};
 
 	IriBuf::new(iri).unwrap()
-- 
2.43.0


From e254ca7b1b12866812bb7dff8c67a1c0c68c83e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 57/96] fix: emit the triples of compound literals

---
 crates/core/src/rdf/mod.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index c71f339..8ab9a48 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -18,6 +18,7 @@ pub const RDF_TYPE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#type
 pub const RDF_FIRST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#first");
 pub const RDF_REST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest");
 pub const RDF_VALUE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#value");
+pub const RDF_LANGUAGE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#language");
 pub const RDF_DIRECTION: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#direction");
 pub const RDF_JSON: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#JSON");
 /// IRI of the `http://www.w3.org/1999/02/22-rdf-syntax-ns#nil` value.
@@ -60,10 +61,12 @@ pub enum RdfDirection {
 	/// In this case the direction tagged string is encoded with a fresh blank
 	/// node identifier `_:b` and the following triples:
 	/// ```nquads
-	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#value value@language
+	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#value value
+	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#language language
 	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#direction direction
 	/// ```
-	/// where `direction` is either `rtl` or `ltr`.
+	/// where `direction` is either `rtl` or `ltr`. The `language` triple is
+	/// only emitted if a language tag is present.
 	CompoundLiteral,
 }
 
@@ -99,6 +102,9 @@ pub struct CompoundLiteralTriples<T, B, L> {
 	/// String value.
 	value: Option<Value<T, B, L>>,
 
+	/// Language value.
+	language: Option<Value<T, B, L>>,
+
 	/// Direction value.
 	direction: Option<Value<T, B, L>>,
 }
@@ -113,6 +119,14 @@ impl<T: Clone, B: Clone, L: Clone> CompoundLiteralTriples<T, B, L> {
 			));
 		}
 
+		if let Some(language) = self.language.take() {
+			return Some(rdf_types::Triple(
+				self.id.clone(),
+				ValidId::Iri(vocabulary.insert(RDF_LANGUAGE)),
+				language,
+			));
+		}
+
 		if let Some(direction) = self.direction.take() {
 			return Some(rdf_types::Triple(
 				self.id.clone(),
@@ -140,6 +154,7 @@ impl<T: Clone> crate::object::Value<T> {
 	) -> Option<CompoundLiteral<T, V::BlankId, V::Literal>>
 	where
 		V: Vocabulary<Iri = T> + IriVocabularyMut + LiteralVocabularyMut,
+		V::BlankId: Clone,
 	{
 		match self {
 			Self::Json(json) => {
@@ -181,9 +196,23 @@ impl<T: Clone> crate::object::Value<T> {
 						}
 						Some(RdfDirection::CompoundLiteral) => {
 							let id = generator.next(vocabulary);
+							let mut string_literal = |value: String| {
+								let ty = vocabulary.insert(XSD_STRING);
+								Value::Literal(vocabulary.insert_owned_literal(Literal::new(
+									value,
+									rdf_types::LiteralType::Any(ty),
+								)))
+							};
+							let triples = CompoundLiteralTriples {
+								id: id.clone(),
+								value: Some(string_literal(string.to_string())),
+								language: language
+									.map(|tag| string_literal(tag.as_str().to_ascii_lowercase())),
+								direction: Some(string_literal(direction.to_string())),
+							};
 							Some(CompoundLiteral {
 								value: id.into_term(),
-								triples: None,
+								triples: Some(triples),
 							})
 						}
 						None => match language {
-- 
2.43.0


From a957d7cc74482cfa3fd311aaa77f6e28544306cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 58/96] fix: an RDF list stays connected around an item without
 RDF representation

---
 crates/core/src/rdf/mod.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 8ab9a48..c9d0a5c 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -589,12 +589,14 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 					let previous = list.previous().cloned();
 					match list.next(vocabulary, generator) {
 						Some(node) => {
+							let id = node.id.clone();
+
+							// An item that has no RDF representation still has its place
+							// in the list.
 							if let Some(compound_value) =
 								node.object
 									.rdf_value_with(vocabulary, generator, rdf_direction)
 							{
-								let id = node.id.clone();
-
 								if let Some(compound_triples) = compound_value.triples {
 									match compound_triples {
 										CompoundValueTriples::List(list) => {
@@ -611,14 +613,14 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 									ValidId::Iri(vocabulary.insert(RDF_FIRST)),
 									compound_value.value,
 								));
+							}
 
-								if let Some(previous_id) = previous {
-									break Some(rdf_types::Triple(
-										previous_id,
-										ValidId::Iri(vocabulary.insert(RDF_REST)),
-										id.into_term(),
-									));
-								}
+							if let Some(previous_id) = previous {
+								break Some(rdf_types::Triple(
+									previous_id,
+									ValidId::Iri(vocabulary.insert(RDF_REST)),
+									id.into_term(),
+								));
 							}
 						}
 						None => {
-- 
2.43.0


From c8e3f81ba2ce667a8de1826f90d04a07100c5d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 59/96] fix: relabel the blank node properties of a document

---
 crates/core/src/object/node/mod.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index f0cc2fc..e0eec31 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -720,17 +720,38 @@ impl<T, B> Relabel<T, B> for Node<T, B> {
 				.collect();
 		}
 
-		for (_, objects) in self.properties_mut() {
-			for object in objects {
+		let relabel_property =
+			|property,
+			 vocabulary: &mut N,
+			 generator: &mut G,
+			 relabeling: &mut hashbrown::HashMap<B, Subject<T, B>>| {
+				match property {
+					Id::Valid(Subject::Blank(b)) => relabeling
+						.entry(b)
+						.or_insert_with(|| generator.next(vocabulary))
+						.clone()
+						.into(),
+					property => property,
+				}
+			};
+
+		for (property, mut objects) in std::mem::take(self.properties_mut()) {
+			for object in &mut objects {
 				object.relabel_with(vocabulary, generator, relabeling);
 			}
+
+			let property = relabel_property(property, vocabulary, generator, relabeling);
+			self.properties_mut().set(property, objects)
 		}
 
 		if let Some(reverse_properties) = self.reverse_properties_mut() {
-			for (_, nodes) in reverse_properties.iter_mut() {
-				for node in nodes {
+			for (property, mut nodes) in std::mem::take(reverse_properties) {
+				for node in &mut nodes {
 					node.relabel_with(vocabulary, generator, relabeling);
 				}
+
+				let property = relabel_property(property, vocabulary, generator, relabeling);
+				reverse_properties.set(property, nodes)
 			}
 		}
 	}
-- 
2.43.0


From 44597b1aeb6a02899c6b513ab8188bfa73aa70c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 60/96] fix: process again a remote context used several times,
 and report context overflows

---
 .../src/algorithm/define.rs                   |  2 +-
 .../context-processing/src/algorithm/mod.rs   | 21 ++++++++++++++--
 crates/context-processing/src/lib.rs          |  4 ++++
 crates/context-processing/src/stack.rs        | 24 ++++++++++++++++++-
 4 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index b79920f..eb19258 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -697,7 +697,7 @@ where
 							env,
 							active_context,
 							context,
-							remote_contexts.clone(),
+							remote_contexts.check_scoped_context(),
 							base_url.clone(),
 							options.with_override(),
 						))
diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 47fde4e..6854156 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -85,6 +85,9 @@ where
 	L: Loader,
 	W: WarningHandler<N>,
 {
+	// Remote contexts that include `local_context`.
+	let including_contexts = remote_contexts.clone();
+
 	// 1) Initialize result to the result of cloning active context.
 	let mut result = active_context.clone();
 
@@ -165,7 +168,19 @@ where
 				// If the document has no top-level map with an @context entry, an invalid remote
 				// context has been detected and processing is aborted.
 				// Set loaded context to the value of that entry.
-				if remote_contexts.push(context_iri.clone()) {
+				//
+				// A context used several times in the same array is processed each time. Only
+				// the contexts that include themselves (directly or not) lead to an overflow,
+				// unless we are only checking a scoped context.
+				let mut nested_remote_contexts = if remote_contexts.is_checking_scoped_context() {
+					remote_contexts.clone()
+				} else {
+					including_contexts.clone()
+				};
+
+				if nested_remote_contexts.push(context_iri.clone()) {
+					remote_contexts.push(context_iri.clone());
+
 					let loaded_context = env
 						.loader
 						.load_with(env.vocabulary, context_iri.clone())
@@ -192,13 +207,15 @@ where
 						},
 						&result,
 						&loaded_context,
-						remote_contexts.clone(),
+						nested_remote_contexts,
 						Some(context_iri),
 						new_options,
 					))
 					.await?;
 
 					result = r.into_processed();
+				} else if !remote_contexts.is_checking_scoped_context() {
+					return Err(Error::ContextOverflow);
 				}
 			}
 
diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index f49e726..c029c08 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -58,6 +58,9 @@ pub enum Error {
 	#[error("Invalid `@import` value")]
 	InvalidImportValue,
 
+	#[error("Context overflow")]
+	ContextOverflow,
+
 	#[error("Invalid remote context")]
 	InvalidRemoteContext,
 
@@ -124,6 +127,7 @@ impl Error {
 			Self::ProcessingModeConflict => ErrorCode::ProcessingModeConflict,
 			Self::InvalidContextEntry => ErrorCode::InvalidContextEntry,
 			Self::InvalidImportValue => ErrorCode::InvalidImportValue,
+			Self::ContextOverflow => ErrorCode::ContextOverflow,
 			Self::InvalidRemoteContext => ErrorCode::InvalidRemoteContext,
 			Self::InvalidBaseIri => ErrorCode::InvalidBaseIri,
 			Self::InvalidVocabMapping => ErrorCode::InvalidVocabMapping,
diff --git a/crates/context-processing/src/stack.rs b/crates/context-processing/src/stack.rs
index 4288450..4fbac1f 100644
--- a/crates/context-processing/src/stack.rs
+++ b/crates/context-processing/src/stack.rs
@@ -37,12 +37,34 @@ impl<I> StackNode<I> {
 #[derive(Clone)]
 pub struct ProcessingStack<I> {
 	head: Option<Arc<StackNode<I>>>,
+
+	/// Whether the context being processed is a scoped context that is only
+	/// checked for errors, in which case loops are skipped.
+	checking: bool,
 }
 
 impl<I> ProcessingStack<I> {
 	/// Creates a new empty processing stack.
 	pub fn new() -> Self {
-		Self { head: None }
+		Self {
+			head: None,
+			checking: false,
+		}
+	}
+
+	/// Returns the stack used to check the scoped contexts of the context being
+	/// processed.
+	pub(crate) fn check_scoped_context(&self) -> Self {
+		Self {
+			head: self.head.clone(),
+			checking: true,
+		}
+	}
+
+	/// Checks if the context being processed is a scoped context that is only
+	/// checked for errors.
+	pub(crate) fn is_checking_scoped_context(&self) -> bool {
+		self.checking
 	}
 
 	/// Checks if the stack is empty.
-- 
2.43.0


From 45c3f7aba5a6925a873d1941fe4aeaf9ee532425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 61/96] fix: a remote context is resolved against the URL of
 its document

---
 crates/context-processing/src/algorithm/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 6854156..475c1b7 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -181,10 +181,14 @@ where
 				if nested_remote_contexts.push(context_iri.clone()) {
 					remote_contexts.push(context_iri.clone());
 
-					let loaded_context = env
+					let context_document = env
 						.loader
 						.load_with(env.vocabulary, context_iri.clone())
-						.await?
+						.await?;
+
+					let document_url = context_document.url().cloned().unwrap_or(context_iri);
+
+					let loaded_context = context_document
 						.into_document()
 						.into_ld_context()
 						.map_err(Error::ContextExtractionFailed)?;
@@ -208,7 +212,7 @@ where
 						&result,
 						&loaded_context,
 						nested_remote_contexts,
-						Some(context_iri),
+						Some(document_url),
 						new_options,
 					))
 					.await?;
-- 
2.43.0


From 3c52763530a2580a431acc13c32c640d6cf92f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:29 +0000
Subject: [PATCH 62/96] fix: contexts given by IRI are processed as remote
 contexts

---
 src/processor/mod.rs             | 22 +++++++++++++++++-----
 src/processor/remote_document.rs | 17 +++++------------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index 4fa0406..e76a030 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -1873,6 +1873,22 @@ impl<V: Vocabulary, G: rdf_types::Generator<V>> ToRdf<V, G> {
 	}
 }
 
+/// Returns the local context designated by the given reference.
+///
+/// The IRI of a context is a local context by itself: it will be dereferenced
+/// by the context processing algorithm, as a remote context.
+pub(crate) fn into_local_context<V: VocabularyMut>(
+	vocabulary: &V,
+	context: RemoteContextReference<V::Iri>,
+) -> json_ld_syntax::Context {
+	match context {
+		RemoteContextReference::Iri(iri) => {
+			json_ld_syntax::Context::iri_ref(vocabulary.iri(&iri).unwrap().to_owned().into())
+		}
+		RemoteContextReference::Loaded(context) => context.into_document(),
+	}
+}
+
 async fn compact_expanded_full<'a, T, N, L>(
 	expanded_input: &'a T,
 	url: Option<&'a N::Iri>,
@@ -1891,11 +1907,7 @@ where
 {
 	let context_base = url.or(options.base.as_ref());
 
-	let context = context
-		.load_context_with(vocabulary, loader)
-		.await
-		.map_err(CompactError::ContextLoading)?
-		.into_document();
+	let context = into_local_context(vocabulary, context);
 
 	let mut active_context = context
 		.process_full(
diff --git a/src/processor/remote_document.rs b/src/processor/remote_document.rs
index 7fab4e7..deb8d7f 100644
--- a/src/processor/remote_document.rs
+++ b/src/processor/remote_document.rs
@@ -1,6 +1,6 @@
 use super::{
-	compact_expanded_full, CompactError, CompactResult, CompareResult, ExpandError, ExpandResult,
-	FlattenError, FlattenResult, JsonLdProcessor, Options,
+	compact_expanded_full, into_local_context, CompactError, CompactResult, CompareResult,
+	ExpandError, ExpandResult, FlattenError, FlattenResult, JsonLdProcessor, Options,
 };
 use crate::context_processing::{self, Process};
 use crate::expansion::{self, Expand};
@@ -57,11 +57,7 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		let mut active_context = Context::new(options.base.clone().or_else(|| self.url().cloned()));
 
 		if let Some(expand_context) = options.expand_context.take() {
-			active_context = expand_context
-				.load_context_with(vocabulary, loader)
-				.await
-				.map_err(ExpandError::ContextLoading)?
-				.into_document()
+			active_context = into_local_context(vocabulary, expand_context)
 				.process_full(
 					vocabulary,
 					&active_context,
@@ -76,11 +72,8 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		};
 
 		if let Some(context_url) = self.context_url() {
-			active_context = RemoteDocumentReference::Iri(context_url.clone())
-				.load_context_with(vocabulary, loader)
-				.await
-				.map_err(ExpandError::ContextLoading)?
-				.into_document()
+			let context = RemoteContextReference::Iri(context_url.clone());
+			active_context = into_local_context(vocabulary, context)
 				.process_full(
 					vocabulary,
 					&active_context,
-- 
2.43.0


From d68f90543596aa1c847dda23d4d89e6aacd2442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:03 +0000
Subject: [PATCH 63/96] fix: mount points with a trailing slash, and keep file
 URLs inside of them

---
 crates/core/src/loader/fs.rs | 39 +++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/loader/fs.rs b/crates/core/src/loader/fs.rs
index e701190..e8231b3 100644
--- a/crates/core/src/loader/fs.rs
+++ b/crates/core/src/loader/fs.rs
@@ -1,6 +1,6 @@
 use super::{Loader, RemoteDocument};
 use crate::{LoadError, LoadingResult};
-use iref::{Iri, IriBuf};
+use iref::{iri::Segment, Iri, IriBuf};
 use json_syntax::Parse;
 use std::fs::File;
 use std::io::{BufReader, Read};
@@ -52,9 +52,9 @@ impl FsLoader {
 	/// Returns the local file path associated to the given `url` if any.
 	pub fn filepath(&self, url: &Iri) -> Option<PathBuf> {
 		for (path, target_url) in &self.mount_points {
-			if let Some((suffix, _, _)) = url.as_iri_ref().suffix(target_url) {
+			if let Some(suffix) = suffix(url, target_url) {
 				let mut filepath = path.clone();
-				for seg in suffix.as_path().segments() {
+				for seg in suffix {
 					filepath.push(seg.as_str())
 				}
 
@@ -66,6 +66,39 @@ impl FsLoader {
 	}
 }
 
+/// Returns the segments of the path of `url` below `prefix`, if any.
+///
+/// A trailing slash in `prefix` is not significant: it always designates a
+/// directory.
+fn suffix<'a>(url: &'a Iri, prefix: &Iri) -> Option<Vec<&'a Segment>> {
+	if url.scheme() != prefix.scheme()
+		|| url.authority() != prefix.authority()
+		|| (!prefix.path().is_empty() && url.path().is_absolute() != prefix.path().is_absolute())
+	{
+		return None;
+	}
+
+	let mut segments = url.path().normalized_segments();
+	let mut prefix_segments = prefix.path().normalized_segments().peekable();
+	while let Some(prefix_segment) = prefix_segments.next() {
+		if prefix_segment.is_empty() && prefix_segments.peek().is_none() {
+			break;
+		}
+
+		if segments.next()?.as_pct_str() != prefix_segment.as_pct_str() {
+			return None;
+		}
+	}
+
+	let segments: Vec<_> = segments.collect();
+	// Segments left in a relative path may get out of the directory.
+	if segments.iter().any(|segment| segment.as_str() == "..") {
+		return None;
+	}
+
+	Some(segments)
+}
+
 impl Loader for FsLoader {
 	async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
 		match self.filepath(url) {
-- 
2.43.0


From a546dd942f9283019d8e3fe3e8ebe3d222389fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:39 +0000
Subject: [PATCH 64/96] fix: read Link and Content-Type headers according to
 RFC 8288 and RFC 9110

---
 .../core/src/loader/reqwest/content_type.rs   |  92 +--------------
 crates/core/src/loader/reqwest/header.rs      |  94 +++++++++++++++
 crates/core/src/loader/reqwest/link.rs        | 110 +++++++-----------
 crates/core/src/loader/reqwest/mod.rs         |  51 ++++----
 4 files changed, 172 insertions(+), 175 deletions(-)
 create mode 100644 crates/core/src/loader/reqwest/header.rs

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 6f13911..9fc60bd 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -1,5 +1,6 @@
 use std::str::FromStr;
 
+use super::header::Reader;
 use hashbrown::HashMap;
 use mime::Mime;
 use reqwest::header::HeaderValue;
@@ -11,93 +12,12 @@ pub struct ContentType {
 
 impl ContentType {
 	pub fn new(value: &HeaderValue) -> Option<Self> {
-		enum State {
-			Mime,
-			NextParam,
-			BeginKey,
-			Key,
-			BeginValue,
-			QuotedValue,
-			Value,
-		}
-
-		let mut state = State::Mime;
-		let mut mime = Vec::new();
-		let mut current_key = Vec::new();
-		let mut current_value = Vec::new();
-		let mut params = HashMap::new();
-
-		let mut bytes = value.as_bytes().iter();
-
-		loop {
-			match state {
-				State::Mime => match bytes.next().copied() {
-					Some(b';') => state = State::BeginKey,
-					Some(b) => {
-						mime.push(b);
-					}
-					None => break,
-				},
-				State::NextParam => match bytes.next().copied() {
-					Some(b';') => state = State::BeginKey,
-					Some(_) => return None,
-					None => break,
-				},
-				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
-					Some(b) => {
-						current_key.push(b);
-						state = State::Key
-					}
-					None => return None,
-				},
-				State::Key => match bytes.next().copied() {
-					Some(b'=') => state = State::BeginValue,
-					Some(b) => current_key.push(b),
-					None => return None,
-				},
-				State::BeginValue => match bytes.next().copied() {
-					Some(b'"') => state = State::QuotedValue,
-					Some(b) => {
-						state = State::Value;
-						current_value.push(b);
-					}
-					_ => return None,
-				},
-				State::QuotedValue => match bytes.next().copied() {
-					Some(b'"') => {
-						params.insert(
-							std::mem::take(&mut current_key),
-							std::mem::take(&mut current_value),
-						);
-
-						state = State::NextParam
-					}
-					Some(b) => current_value.push(b),
-					None => return None,
-				},
-				State::Value => match bytes.next().copied() {
-					Some(b';') => {
-						params.insert(
-							std::mem::take(&mut current_key),
-							std::mem::take(&mut current_value),
-						);
-
-						state = State::BeginKey
-					}
-					Some(b) => current_value.push(b),
-					None => {
-						params.insert(
-							std::mem::take(&mut current_key),
-							std::mem::take(&mut current_value),
-						);
-						break;
-					}
-				},
-			}
-		}
+		let mut reader = Reader::new(value.as_bytes());
+		reader.skip_whitespaces();
+		let mime = reader.until(b"; \t");
+		let params = reader.params()?;
 
-		match Mime::from_str(std::str::from_utf8(&mime).ok()?) {
+		match Mime::from_str(std::str::from_utf8(mime).ok()?) {
 			Ok(media_type) => Some(Self { media_type, params }),
 			Err(_) => None,
 		}
diff --git a/crates/core/src/loader/reqwest/header.rs b/crates/core/src/loader/reqwest/header.rs
new file mode 100644
index 0000000..2e4717f
--- /dev/null
+++ b/crates/core/src/loader/reqwest/header.rs
@@ -0,0 +1,94 @@
+use hashbrown::HashMap;
+
+/// Header value reader.
+pub struct Reader<'a>(&'a [u8]);
+
+impl<'a> Reader<'a> {
+	pub fn new(bytes: &'a [u8]) -> Self {
+		Self(bytes)
+	}
+
+	pub fn peek(&self) -> Option<u8> {
+		self.0.first().copied()
+	}
+
+	pub fn next(&mut self) -> Option<u8> {
+		let (b, rest) = self.0.split_first()?;
+		self.0 = rest;
+		Some(*b)
+	}
+
+	/// Skips the next byte if it is `b`.
+	pub fn skip(&mut self, b: u8) -> bool {
+		let found = self.peek() == Some(b);
+		if found {
+			self.next();
+		}
+		found
+	}
+
+	/// Skips optional white spaces.
+	pub fn skip_whitespaces(&mut self) {
+		while let Some(b' ' | b'\t') = self.peek() {
+			self.next();
+		}
+	}
+
+	/// Reads until one of the given `delimiters`, left unread, or the end.
+	pub fn until(&mut self, delimiters: &[u8]) -> &'a [u8] {
+		let len = self
+			.0
+			.iter()
+			.position(|b| delimiters.contains(b))
+			.unwrap_or(self.0.len());
+		let (result, rest) = self.0.split_at(len);
+		self.0 = rest;
+		result
+	}
+
+	/// Reads a quoted string, after its first quote.
+	fn quoted_string(&mut self) -> Option<Vec<u8>> {
+		let mut result = Vec::new();
+		loop {
+			match self.next()? {
+				b'"' => break Some(result),
+				b'\\' => result.push(self.next()?),
+				b => result.push(b),
+			}
+		}
+	}
+
+	/// Reads a list of parameters, each with a leading `;`.
+	///
+	/// Parameter names are lower-cased. If a name occurs more than once, only
+	/// the first occurrence is considered.
+	pub fn params(&mut self) -> Option<HashMap<Vec<u8>, Vec<u8>>> {
+		let mut params = HashMap::new();
+
+		loop {
+			self.skip_whitespaces();
+			if !self.skip(b';') {
+				break Some(params);
+			}
+
+			self.skip_whitespaces();
+			let name = self.until(b"=;, \t").to_ascii_lowercase();
+			if name.is_empty() {
+				continue;
+			}
+
+			self.skip_whitespaces();
+			let mut value = Vec::new();
+			if self.skip(b'=') {
+				self.skip_whitespaces();
+				value = if self.skip(b'"') {
+					self.quoted_string()?
+				} else {
+					self.until(b";, \t").to_vec()
+				};
+			}
+
+			params.entry(name).or_insert(value);
+		}
+	}
+}
diff --git a/crates/core/src/loader/reqwest/link.rs b/crates/core/src/loader/reqwest/link.rs
index 50b2a25..646c913 100644
--- a/crates/core/src/loader/reqwest/link.rs
+++ b/crates/core/src/loader/reqwest/link.rs
@@ -1,3 +1,4 @@
+use super::header::Reader;
 use hashbrown::HashMap;
 use iref::{IriRef, IriRefBuf};
 use reqwest::header::HeaderValue;
@@ -8,81 +9,52 @@ pub struct Link {
 }
 
 impl Link {
+	/// Parses the first link of the given `Link` header value.
+	#[cfg(test)]
 	pub fn new(value: &HeaderValue) -> Option<Self> {
-		enum State {
-			BeginHref,
-			Href,
-			NextParam,
-			BeginKey,
-			Key,
-			BeginValue,
-			Value,
-		}
-
-		let mut state = State::BeginHref;
-		let mut href = Vec::new();
-		let mut current_key = Vec::new();
-		let mut current_value = Vec::new();
-		let mut params = HashMap::new();
+		Self::parse_all(value).into_iter().next()
+	}
 
-		let mut bytes = value.as_bytes().iter();
+	/// Parses the links of the given `Link` header value.
+	///
+	/// Anything following an invalid link is ignored.
+	pub fn parse_all(value: &HeaderValue) -> Vec<Self> {
+		let mut links = Vec::new();
+		let mut reader = Reader::new(value.as_bytes());
 
 		loop {
-			match state {
-				State::BeginHref => match bytes.next().copied() {
-					Some(b'<') => state = State::Href,
-					_ => break None,
-				},
-				State::Href => match bytes.next().copied() {
-					Some(b'>') => state = State::NextParam,
-					Some(b) => {
-						href.push(b);
-					}
-					None => break None,
-				},
-				State::NextParam => match bytes.next().copied() {
-					Some(b';') => state = State::BeginKey,
-					Some(_) => break None,
-					None => {
-						break match IriRefBuf::from_vec(href) {
-							Ok(href) => Some(Self { href, params }),
-							Err(_) => None,
-						}
-					}
-				},
-				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
-					Some(b) => {
-						current_key.push(b);
-						state = State::Key
-					}
-					None => break None,
-				},
-				State::Key => match bytes.next().copied() {
-					Some(b'=') => state = State::BeginValue,
-					Some(b) => current_key.push(b),
-					None => break None,
-				},
-				State::BeginValue => match bytes.next().copied() {
-					Some(b'"') => state = State::Value,
-					_ => break None,
-				},
-				State::Value => match bytes.next().copied() {
-					Some(b'"') => {
-						params.insert(
-							std::mem::take(&mut current_key),
-							std::mem::take(&mut current_value),
-						);
-
-						state = State::NextParam
+			while let Some(b' ' | b'\t' | b',') = reader.peek() {
+				reader.next();
+			}
+
+			match Self::parse(&mut reader) {
+				Some((href, params)) => {
+					if let Ok(href) = IriRefBuf::from_vec(href.to_vec()) {
+						links.push(Self { href, params })
 					}
-					Some(b) => current_value.push(b),
-					None => break None,
-				},
+				}
+				None => break links,
 			}
 		}
 	}
 
+	fn parse<'a>(reader: &mut Reader<'a>) -> Option<(&'a [u8], HashMap<Vec<u8>, Vec<u8>>)> {
+		if !reader.skip(b'<') {
+			return None;
+		}
+
+		let href = reader.until(b">");
+		if !reader.skip(b'>') {
+			return None;
+		}
+
+		let params = reader.params()?;
+		match reader.peek() {
+			None | Some(b',') => Some((href, params)),
+			Some(_) => None,
+		}
+	}
+
 	pub fn href(&self) -> &IriRef {
 		self.href.as_iri_ref()
 	}
@@ -91,6 +63,12 @@ impl Link {
 		self.params.get(b"rel".as_slice()).map(Vec::as_slice)
 	}
 
+	/// Checks if `rel` is one of the relation types of this link.
+	pub fn has_rel(&self, rel: &[u8]) -> bool {
+		self.rel()
+			.is_some_and(|r| r.split(|b| *b == b' ').any(|r| r.eq_ignore_ascii_case(rel)))
+	}
+
 	pub fn type_(&self) -> Option<&[u8]> {
 		self.params.get(b"type".as_slice()).map(Vec::as_slice)
 	}
diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index abb9fff..62d6ec1 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -15,6 +15,7 @@ use reqwest_middleware::ClientWithMiddleware;
 use std::string::FromUtf8Error;
 
 mod content_type;
+mod header;
 mod link;
 
 use content_type::*;
@@ -142,6 +143,15 @@ pub enum ParseError {
 	Json(json_ld_syntax::parse::Error),
 }
 
+/// Links of a response.
+fn links(response: &reqwest::Response) -> impl '_ + Iterator<Item = Link> {
+	response
+		.headers()
+		.get_all(LINK)
+		.into_iter()
+		.flat_map(Link::parse_all)
+}
+
 impl Loader for ReqwestLoader {
 	async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
 		let mut redirection_number = 0;
@@ -175,20 +185,16 @@ impl Loader for ReqwestLoader {
 						Some(content_type) => {
 							let mut context_url = None;
 							if *content_type.media_type() != "application/ld+json" {
-								for link in response.headers().get_all(LINK).into_iter() {
-									if let Some(link) = Link::new(link) {
-										if link.rel()
-											== Some(b"http://www.w3.org/ns/json-ld#context")
-										{
-											if context_url.is_some() {
-												return Err(LoadError::new(
-													url,
-													Error::MultipleContextLinkHeaders,
-												));
-											}
-
-											context_url = Some(link.href().resolved(&url));
+								for link in links(&response) {
+									if link.has_rel(b"http://www.w3.org/ns/json-ld#context") {
+										if context_url.is_some() {
+											return Err(LoadError::new(
+												url,
+												Error::MultipleContextLinkHeaders,
+											));
 										}
+
+										context_url = Some(link.href().resolved(&url));
 									}
 								}
 							}
@@ -224,16 +230,15 @@ impl Loader for ReqwestLoader {
 						}
 						None => {
 							log::debug!("no valid media type found");
-							for link in response.headers().get_all(LINK).into_iter() {
-								if let Some(link) = Link::new(link) {
-									if link.rel() == Some(b"alternate")
-										&& link.type_() == Some(b"application/ld+json")
-									{
-										log::debug!("link found");
-										url = link.href().resolved(&url);
-										redirection_number += 1;
-										continue 'next_url;
-									}
+							for link in links(&response) {
+								if link.has_rel(b"alternate")
+									&& link.type_().is_some_and(|t| {
+										t.eq_ignore_ascii_case(b"application/ld+json")
+									}) {
+									log::debug!("link found");
+									url = link.href().resolved(&url);
+									redirection_number += 1;
+									continue 'next_url;
 								}
 							}
 
-- 
2.43.0


From cc72981862ba7b5706a63af228ec36f1e75934b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:39 +0000
Subject: [PATCH 65/96] fix: load documents with any JSON media type

---
 crates/core/src/loader/reqwest/content_type.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 9fc60bd..5dc73b2 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -24,7 +24,11 @@ impl ContentType {
 	}
 
 	pub fn is_json_ld(&self) -> bool {
-		self.media_type == "application/json" || self.media_type == "application/ld+json"
+		self.media_type == "application/json"
+			|| self
+				.media_type
+				.suffix()
+				.is_some_and(|suffix| suffix == "json")
 	}
 
 	pub fn media_type(&self) -> &Mime {
-- 
2.43.0


From 5a23c721aa84ef21daa117815532aa1b4186fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:55 +0000
Subject: [PATCH 66/96] fix: the URL of a document is the one it was redirected
 to

---
 crates/core/src/loader/reqwest/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index 62d6ec1..113ce36 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -9,7 +9,7 @@ use iref::{Iri, IriBuf};
 use json_syntax::Parse;
 use reqwest::{
 	header::{ACCEPT, CONTENT_TYPE, LINK},
-	StatusCode,
+	StatusCode, Url,
 };
 use reqwest_middleware::ClientWithMiddleware;
 use std::string::FromUtf8Error;
@@ -173,6 +173,14 @@ impl Loader for ReqwestLoader {
 				.await
 				.map_err(|e| LoadError::new(url.clone(), e))?;
 
+			// The document URL is the location of the document after following
+			// HTTP redirections.
+			if !Url::parse(&url).is_ok_and(|request_url| request_url == *response.url()) {
+				if let Ok(response_url) = IriBuf::new(response.url().to_string()) {
+					url = response_url;
+				}
+			}
+
 			match response.status() {
 				StatusCode::OK => {
 					let mut content_types = response
-- 
2.43.0


From 7d6846a1549700a33fd36c3fdb9fddbec0b4d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:01 +0000
Subject: [PATCH 67/96] fix: quote the profile of the Accept header

---
 crates/core/src/loader/reqwest/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index 113ce36..6fe321a 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -105,11 +105,7 @@ impl ReqwestLoader {
 		let mut json_ld_params = String::new();
 
 		if !options.request_profile.is_empty() {
-			json_ld_params.push_str("; profile=");
-
-			if options.request_profile.len() > 1 {
-				json_ld_params.push('"');
-			}
+			json_ld_params.push_str("; profile=\"");
 
 			for (i, p) in options.request_profile.iter().enumerate() {
 				if i > 0 {
@@ -119,9 +115,7 @@ impl ReqwestLoader {
 				json_ld_params.push_str(p.iri().as_str());
 			}
 
-			if options.request_profile.len() > 1 {
-				json_ld_params.push('"');
-			}
+			json_ld_params.push('"');
 		}
 
 		Self {
-- 
2.43.0


From 121a1a37514a3d6ff661890eff814c40978a4f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 68/96] fix: traverse the items of lists and the reverse
 properties

---
 crates/core/src/object/list.rs     | 38 ++++++++++++++++++++++++++++++
 crates/core/src/object/mod.rs      |  8 +++++--
 crates/core/src/object/node/mod.rs | 19 +++++++++++----
 3 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 3d9ac4b..cbb3af4 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -214,6 +214,44 @@ pub enum FragmentRef<'a, T, B> {
 	Value(&'a [IndexedObject<T, B>]),
 }
 
+impl<'a, T, B> FragmentRef<'a, T, B> {
+	pub fn is_json_array(&self) -> bool {
+		matches!(self, Self::Value(_))
+	}
+
+	pub fn sub_fragments(&self) -> SubFragments<'a, T, B> {
+		match self {
+			Self::Entry(e) => SubFragments::Entry(Some(()), Some(e)),
+			Self::Key => SubFragments::None,
+			Self::Value(v) => SubFragments::Value(v.iter()),
+		}
+	}
+}
+
+pub enum SubFragments<'a, T, B> {
+	None,
+	Entry(Option<()>, Option<&'a [IndexedObject<T, B>]>),
+	Value(std::slice::Iter<'a, IndexedObject<T, B>>),
+}
+
+impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
+	type Item = super::FragmentRef<'a, T, B>;
+
+	fn next(&mut self) -> Option<Self::Item> {
+		match self {
+			Self::None => None,
+			Self::Entry(k, v) => k
+				.take()
+				.map(|()| super::FragmentRef::ListFragment(FragmentRef::Key))
+				.or_else(|| {
+					v.take()
+						.map(|v| super::FragmentRef::ListFragment(FragmentRef::Value(v)))
+				}),
+			Self::Value(i) => i.next().map(super::FragmentRef::IndexedObject),
+		}
+	}
+}
+
 impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for List<T, B> {
 	fn into_json_with(self, vocabulary: &N) -> json_syntax::Value {
 		let mut obj = json_syntax::Object::new();
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index ed30f75..f30a9e2 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1057,6 +1057,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 		match self {
 			Self::IndexedNodeList(_) => true,
 			Self::ValueFragment(i) => i.is_json_array(),
+			Self::ListFragment(i) => i.is_json_array(),
 			Self::NodeFragment(n) => n.is_json_array(),
 			_ => false,
 		}
@@ -1065,8 +1066,8 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 	pub fn is_json_object(&self) -> bool {
 		match self {
 			Self::Object(_) | Self::IndexedObject(_) | Self::Node(_) | Self::IndexedNode(_) => true,
-			Self::ValueFragment(i) => i.is_json_array(),
-			Self::NodeFragment(i) => i.is_json_array(),
+			Self::ValueFragment(i) => i.is_json_object(),
+			Self::NodeFragment(i) => i.is_json_object(),
 			_ => false,
 		}
 	}
@@ -1082,6 +1083,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 			}
 			Self::IndexedNodeList(l) => SubFragments::IndexedNodeList(l.iter()),
 			Self::ValueFragment(i) => SubFragments::Value(i.sub_fragments()),
+			Self::ListFragment(i) => SubFragments::List(i.sub_fragments()),
 			Self::NodeFragment(i) => SubFragments::Node(i.sub_fragments()),
 			_ => SubFragments::None,
 		}
@@ -1117,6 +1119,7 @@ pub enum SubFragments<'a, T, B> {
 	IndexEntry(Option<()>, Option<&'a str>),
 	Object(Option<&'a str>, ObjectSubFragments<'a, T, B>),
 	Value(value::SubFragments<'a, T>),
+	List(list::SubFragments<'a, T, B>),
 	Node(node::SubFragments<'a, T, B>),
 	IndexedNodeList(std::slice::Iter<'a, IndexedNode<T, B>>),
 }
@@ -1136,6 +1139,7 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				None => i.next(),
 			},
 			Self::Value(i) => i.next().map(FragmentRef::ValueFragment),
+			Self::List(i) => i.next(),
 			Self::Node(i) => i.next(),
 			Self::IndexedNodeList(i) => i.next().map(FragmentRef::IndexedNode),
 		}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index e0eec31..21d7a88 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -877,7 +877,7 @@ impl<'a, T, B> EntryValueRef<'a, T, B> {
 			Self::Type(l) => SubFragments::Type(l.iter()),
 			Self::Graph(g) => SubFragments::Graph(g.iter()),
 			Self::Included(i) => SubFragments::Included(i.iter()),
-			Self::Reverse(r) => SubFragments::Reverse(r.iter()),
+			Self::Reverse(r) => SubFragments::Reverse(r.iter(), None),
 			Self::Property(p) => SubFragments::Property(p.iter()),
 			_ => SubFragments::None,
 		}
@@ -1201,7 +1201,10 @@ pub enum SubFragments<'a, T, B> {
 	Type(std::slice::Iter<'a, Id<T, B>>),
 	Graph(indexmap::set::Iter<'a, IndexedObject<T, B>>),
 	Included(indexmap::set::Iter<'a, IndexedNode<T, B>>),
-	Reverse(reverse_properties::Iter<'a, T, B>),
+	Reverse(
+		reverse_properties::Iter<'a, T, B>,
+		Option<&'a [IndexedNode<T, B>]>,
+	),
 	Property(std::slice::Iter<'a, IndexedObject<T, B>>),
 }
 
@@ -1223,9 +1226,15 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				.map(|t| super::FragmentRef::NodeFragment(FragmentRef::TypeFragment(t))),
 			Self::Graph(g) => g.next().map(|o| super::FragmentRef::IndexedObject(o)),
 			Self::Included(i) => i.next().map(|n| super::FragmentRef::IndexedNode(n)),
-			Self::Reverse(r) => r
-				.next()
-				.map(|(_, n)| super::FragmentRef::IndexedNodeList(n)),
+			Self::Reverse(r, nodes) => match nodes.take() {
+				Some(n) => Some(super::FragmentRef::IndexedNodeList(n)),
+				None => r.next().map(|(property, n)| {
+					*nodes = Some(n);
+					super::FragmentRef::NodeFragment(FragmentRef::Key(EntryKeyRef::Property(
+						property,
+					)))
+				}),
+			},
 			Self::Property(o) => o.next().map(|o| super::FragmentRef::IndexedObject(o)),
 		}
 	}
-- 
2.43.0


From 4fbf2f8061b04dd8b092c508cfd150d7b90b9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 69/96] fix: compare values having duplicate keys without
 panicking

---
 crates/syntax/src/compare.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/syntax/src/compare.rs b/crates/syntax/src/compare.rs
index df760ac..11871e5 100644
--- a/crates/syntax/src/compare.rs
+++ b/crates/syntax/src/compare.rs
@@ -36,13 +36,13 @@ impl Compare for Value {
 			(Self::Object(a), Self::Object(b)) => {
 				if a.len() == b.len() {
 					for entry in a {
-						match b.get_unique(&*entry.key).expect("invalid JSON-LD") {
-							Some(value) => {
+						match b.get_unique(&*entry.key) {
+							Ok(Some(value)) => {
 								if !entry.value.compare(value) {
 									return false;
 								}
 							}
-							None => return false,
+							_ => return false,
 						}
 					}
 
-- 
2.43.0


From cb8f9b702efeadfa978e5579109df2be5514a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 70/96] fix: expand the index property of a term before
 compacting it

---
 crates/compaction/src/property.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 122616e..419727c 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -3,12 +3,16 @@ use crate::{
 	CompactFragment, CompactIndexedFragment, Error, Options,
 };
 
+use json_ld_context_processing::{
+	algorithm::{expand_iri_simple, Action},
+	Warning,
+};
 use json_ld_core::{
 	context::Nest,
 	object::{self, List},
-	Container, ContainerKind, Context, Id, Indexed, Loader, Node, Object, Term,
+	Container, ContainerKind, Context, Environment, Id, Indexed, Loader, Node, Object, Term,
 };
-use json_ld_syntax::Keyword;
+use json_ld_syntax::{Keyword, Nullable};
 use rdf_types::VocabularyMut;
 use std::hash::Hash;
 
@@ -573,12 +577,27 @@ where
 
 									// Reinitialize `container_key` by
 									// IRI compacting `index_key`.
-									let index_property =
-										Id::from_string_in(vocabulary, index_key.to_string());
+									let index_property = match expand_iri_simple::<Warning, _, _, _>(
+										&mut Environment {
+											vocabulary,
+											loader,
+											warnings: &mut (),
+										},
+										active_context,
+										Nullable::Some(index_key.as_str().into()),
+										false,
+										Some(Action::Keep),
+									) {
+										Ok(Some(term @ (Term::Id(_) | Term::Keyword(_)))) => term,
+										_ => Term::Id(Id::from_string_in(
+											vocabulary,
+											index_key.to_string(),
+										)),
+									};
 									container_key = compact_iri(
 										vocabulary,
 										active_context,
-										&Term::Id(index_property),
+										&index_property,
 										true,
 										false,
 										options,
-- 
2.43.0


From 3ee6474662917981966f22de26124f251f6b0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 71/96] fix: report invalid context entries with their own
 error codes

---
 crates/syntax/src/context/try_from_json.rs | 120 ++++++++++++++-------
 1 file changed, 80 insertions(+), 40 deletions(-)

diff --git a/crates/syntax/src/context/try_from_json.rs b/crates/syntax/src/context/try_from_json.rs
index d4a391c..7703894 100644
--- a/crates/syntax/src/context/try_from_json.rs
+++ b/crates/syntax/src/context/try_from_json.rs
@@ -3,7 +3,7 @@ use super::{
 	term_definition::{self, InvalidNest},
 	Context, ContextEntry, Definition, TermDefinition,
 };
-use crate::{Container, ErrorCode, Keyword, Nullable, TryFromJson};
+use crate::{ErrorCode, Keyword, Nullable, TryFromJson};
 use iref::IriRefBuf;
 
 #[derive(Debug, Clone, thiserror::Error)]
@@ -25,21 +25,35 @@ pub enum InvalidContext {
 
 	#[error("Invalid `@nest` value `{0}`")]
 	InvalidNestValue(String),
+
+	#[error("{0}")]
+	InvalidEntry(ErrorCode),
 }
 
 impl InvalidContext {
 	pub fn code(&self) -> ErrorCode {
 		match self {
-			Self::InvalidIriRef(_) => ErrorCode::InvalidIriMapping,
+			Self::InvalidIriRef(_) => ErrorCode::LoadingDocumentFailed,
 			Self::Unexpected(_, _) => ErrorCode::InvalidContextEntry,
 			Self::InvalidDirection => ErrorCode::InvalidBaseDirection,
 			Self::DuplicateKey => ErrorCode::DuplicateKey,
 			Self::InvalidTermDefinition => ErrorCode::InvalidTermDefinition,
 			Self::InvalidNestValue(_) => ErrorCode::InvalidNestValue,
+			Self::InvalidEntry(code) => *code,
 		}
 	}
 }
 
+/// Parses a context or term definition entry value.
+///
+/// Returns the given error `code` if the value is invalid.
+fn parse_entry<T: TryFromJson>(
+	value: json_syntax::Value,
+	code: ErrorCode,
+) -> Result<T, InvalidContext> {
+	T::try_from_json(value).map_err(|_| InvalidContext::InvalidEntry(code))
+}
+
 impl From<crate::Unexpected> for InvalidContext {
 	fn from(crate::Unexpected(u, e): crate::Unexpected) -> Self {
 		Self::Unexpected(u, e)
@@ -59,50 +73,64 @@ impl TryFromJson for TermDefinition {
 
 				for json_syntax::object::Entry { key, value } in o {
 					match Keyword::try_from(key.as_str()) {
-						Ok(Keyword::Id) => def.id = Some(Nullable::try_from_json(value)?),
-						Ok(Keyword::Type) => def.type_ = Some(Nullable::try_from_json(value)?),
+						Ok(Keyword::Id) => {
+							def.id = Some(parse_entry(value, ErrorCode::InvalidIriMapping)?)
+						}
+						Ok(Keyword::Type) => {
+							def.type_ = Some(parse_entry(value, ErrorCode::InvalidTypeMapping)?)
+						}
 						Ok(Keyword::Context) => {
-							def.context = Some(Box::new(Context::try_from_json(value)?))
+							def.context = Some(Box::new(parse_entry(
+								value,
+								ErrorCode::InvalidScopedContext,
+							)?))
 						}
 						Ok(Keyword::Reverse) => {
-							def.reverse = Some(definition::Key::try_from_json(value)?)
+							def.reverse = Some(parse_entry(value, ErrorCode::InvalidIriMapping)?)
 						}
 						Ok(Keyword::Index) => {
-							def.index = Some(term_definition::Index::try_from_json(value)?)
+							def.index = Some(parse_entry(value, ErrorCode::InvalidTermDefinition)?)
 						}
 						Ok(Keyword::Language) => {
-							def.language = Some(Nullable::try_from_json(value)?)
+							def.language =
+								Some(parse_entry(value, ErrorCode::InvalidLanguageMapping)?)
 						}
 						Ok(Keyword::Direction) => {
-							def.direction = Some(Nullable::try_from_json(value)?)
+							def.direction =
+								Some(parse_entry(value, ErrorCode::InvalidBaseDirection)?)
 						}
 						Ok(Keyword::Container) => {
 							let container = match value {
 								json_syntax::Value::Null => Nullable::Null,
-								other => {
-									let container = Container::try_from_json(other)?;
-									Nullable::Some(container)
-								}
+								other => Nullable::Some(parse_entry(
+									other,
+									ErrorCode::InvalidContainerMapping,
+								)?),
 							};
 
 							def.container = Some(container)
 						}
 						Ok(Keyword::Nest) => {
-							def.nest = Some(term_definition::Nest::try_from_json(value)?)
+							def.nest = Some(parse_entry(value, ErrorCode::InvalidNestValue)?)
+						}
+						Ok(Keyword::Prefix) => {
+							def.prefix = Some(parse_entry(value, ErrorCode::InvalidPrefixValue)?)
+						}
+						Ok(Keyword::Propagate) => {
+							def.propagate =
+								Some(parse_entry(value, ErrorCode::InvalidPropagateValue)?)
+						}
+						Ok(Keyword::Protected) => {
+							def.protected =
+								Some(parse_entry(value, ErrorCode::InvalidProtectedValue)?)
 						}
-						Ok(Keyword::Prefix) => def.prefix = Some(bool::try_from_json(value)?),
-						Ok(Keyword::Propagate) => def.propagate = Some(bool::try_from_json(value)?),
-						Ok(Keyword::Protected) => def.protected = Some(bool::try_from_json(value)?),
 						_ => return Err(InvalidContext::InvalidTermDefinition),
 					}
 				}
 
 				Ok(Self::Expanded(Box::new(def)))
 			}
-			unexpected => Err(InvalidContext::Unexpected(
-				unexpected.kind(),
-				&[json_syntax::Kind::String, json_syntax::Kind::Object],
-			)),
+			_ => Err(InvalidContext::InvalidTermDefinition),
 		}
 	}
 }
@@ -189,7 +217,7 @@ impl TryFromJson for definition::Version {
 		match value {
 			json_syntax::Value::Number(n) => match n.as_str() {
 				"1.1" => Ok(Self::V1_1),
-				_ => Err(InvalidContext::InvalidTermDefinition),
+				_ => Err(InvalidContext::InvalidEntry(ErrorCode::InvalidVersionValue)),
 			},
 			unexpected => Err(InvalidContext::Unexpected(
 				unexpected.kind(),
@@ -306,24 +334,43 @@ impl TryFromJson for ContextEntry {
 
 				for json_syntax::object::Entry { key, value } in o {
 					match Keyword::try_from(key.as_str()) {
-						Ok(Keyword::Base) => def.base = Some(Nullable::try_from_json(value)?),
-						Ok(Keyword::Import) => def.import = Some(IriRefBuf::try_from_json(value)?),
+						Ok(Keyword::Base) => {
+							def.base = Some(parse_entry(value, ErrorCode::InvalidBaseIri)?)
+						}
+						Ok(Keyword::Import) => {
+							def.import = Some(parse_entry(value, ErrorCode::InvalidImportValue)?)
+						}
 						Ok(Keyword::Language) => {
-							def.language = Some(Nullable::try_from_json(value)?)
+							def.language =
+								Some(parse_entry(value, ErrorCode::InvalidDefaultLanguage)?)
 						}
 						Ok(Keyword::Direction) => {
-							def.direction = Some(Nullable::try_from_json(value)?)
+							def.direction =
+								Some(parse_entry(value, ErrorCode::InvalidBaseDirection)?)
+						}
+						Ok(Keyword::Propagate) => {
+							def.propagate =
+								Some(parse_entry(value, ErrorCode::InvalidPropagateValue)?)
+						}
+						Ok(Keyword::Protected) => {
+							def.protected =
+								Some(parse_entry(value, ErrorCode::InvalidProtectedValue)?)
 						}
-						Ok(Keyword::Propagate) => def.propagate = Some(bool::try_from_json(value)?),
-						Ok(Keyword::Protected) => def.protected = Some(bool::try_from_json(value)?),
 						Ok(Keyword::Type) => {
-							def.type_ = Some(definition::Type::try_from_json(value)?)
+							def.type_ = Some(parse_entry(value, ErrorCode::KeywordRedefinition)?)
 						}
 						Ok(Keyword::Version) => {
-							def.version = Some(definition::Version::try_from_json(value)?)
+							def.version = Some(parse_entry(value, ErrorCode::InvalidVersionValue)?)
+						}
+						Ok(Keyword::Vocab) => {
+							def.vocab = Some(parse_entry(value, ErrorCode::InvalidVocabMapping)?)
+						}
+						Ok(_) => {
+							return Err(InvalidContext::InvalidEntry(
+								ErrorCode::KeywordRedefinition,
+							))
 						}
-						Ok(Keyword::Vocab) => def.vocab = Some(Nullable::try_from_json(value)?),
-						_ => {
+						Err(_) => {
 							let term_def = match value {
 								json_syntax::Value::Null => Nullable::Null,
 								other => Nullable::Some(TermDefinition::try_from_json(other)?),
@@ -338,14 +385,7 @@ impl TryFromJson for ContextEntry {
 
 				Ok(Self::Definition(def))
 			}
-			unexpected => Err(InvalidContext::Unexpected(
-				unexpected.kind(),
-				&[
-					json_syntax::Kind::Null,
-					json_syntax::Kind::String,
-					json_syntax::Kind::Object,
-				],
-			)),
+			_ => Err(InvalidContext::InvalidEntry(ErrorCode::InvalidLocalContext)),
 		}
 	}
 }
-- 
2.43.0


From c5e96a3c300dfc05627ee68b626976bd91034f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:24 +0000
Subject: [PATCH 72/96] fix: read the lists of an RDF dataset

---
 crates/core/src/serialization.rs | 107 +++++++++++++++++++------------
 1 file changed, 65 insertions(+), 42 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index bea3008..b60f04f 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -51,6 +51,67 @@ impl<R: Ord> SerDataset<R> {
 		}
 	}
 
+	/// Returns the number of graphs where the given resource occurs.
+	fn occurrences(&self, id: &R) -> usize {
+		self.named_graphs
+			.values()
+			.chain(std::iter::once(&self.default_graph))
+			.filter(|graph| graph.get(id).is_some())
+			.count() + self.named_graphs.contains_key(id) as usize
+	}
+
+	/// Finds the lists of the dataset, given the resource representing
+	/// `rdf:nil`.
+	///
+	/// A node that occurs in several graphs has an identity that would be lost
+	/// if it was turned into a list.
+	fn find_lists(&mut self, nil: R, is_anonymous: impl Fn(R) -> bool)
+	where
+		R: Copy,
+	{
+		let is_list_node = |id: R, node: &SerResource<R>| {
+			node.references == 1 && node.is_list_node() && is_anonymous(id)
+		};
+		let find = |graph: &SerGraph<R>| {
+			let mut lists = Vec::new();
+			let tails = graph.get(&nil).map(|nil| &nil.list.reverse_rest);
+			for &tail in tails.into_iter().flatten() {
+				let mut head = None;
+				let mut values = Vec::new();
+				let mut next = Some(tail);
+
+				while let Some(id) = next.take() {
+					match graph.get(&id) {
+						Some(node) if is_list_node(id, node) && self.occurrences(&id) == 1 => {
+							head = Some(id);
+							values.extend(node.list.first.iter().copied());
+							next = node.list.reverse_rest.iter().next().copied();
+						}
+						_ => (),
+					}
+				}
+
+				if let Some(head) = head {
+					values.reverse();
+					lists.push((head, values))
+				}
+			}
+			lists
+		};
+
+		let mut lists = vec![(None, find(&self.default_graph))];
+		for (&label, graph) in &self.named_graphs {
+			lists.push((Some(label), find(graph)))
+		}
+
+		for (label, lists) in lists {
+			let graph = self.graph_mut(label);
+			for (head, values) in lists {
+				graph.resource_mut(head).list.values = Some(values)
+			}
+		}
+	}
+
 	fn fold_into_default_graph(mut self) -> SerGraph<R> {
 		for (id, graph) in self.named_graphs {
 			self.default_graph.resource_mut(id).graph = Some(graph);
@@ -290,7 +351,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.list.rest.insert(quad.2);
-					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
+					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.0);
 				}
 				None => {
 					subject.insert(quad.1, quad.2);
@@ -306,49 +367,11 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 		}
 
-		let mut graph = node_map.fold_into_default_graph();
-
-		let mut lists = Vec::new();
-		if let Some(nil_id) = nil {
-			if let Some(nil) = graph.get(&nil_id) {
-				for &node_id in &nil.list.reverse_rest {
-					let mut head_id = node_id;
-					if is_anonymous(interpretation, head_id) {
-						if let Some(mut head) = graph.get(&head_id) {
-							if head.references == 1 && head.is_list_node() {
-								let mut values = Vec::new();
-
-								loop {
-									let first = head.list.first.iter().next().copied().unwrap();
-									let parent_id =
-										head.list.reverse_rest.iter().next().copied().unwrap();
-									values.push(first);
-
-									if is_anonymous(interpretation, parent_id) {
-										if let Some(parent) = graph.get(&parent_id) {
-											if parent.references == 1 && parent.is_list_node() {
-												head_id = parent_id;
-												head = parent;
-												continue;
-											}
-										}
-									}
-
-									break;
-								}
-
-								values.reverse();
-								lists.push((head_id, values))
-							}
-						}
-					}
-				}
-			}
+		if let Some(nil) = nil {
+			node_map.find_lists(nil, |id| is_anonymous(interpretation, id));
 		}
 
-		for (id, values) in lists {
-			graph.resource_mut(id).list.values = Some(values)
-		}
+		let graph = node_map.fold_into_default_graph();
 
 		let mut result = ExpandedDocument::new();
 		for (id, resource) in &graph.resources {
-- 
2.43.0


From 14fa7e5eed87a7c4bc3e1f176ca9de4974dc8ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:26 +0000
Subject: [PATCH 73/96] fix: keep the types that are not identifiers when
 reading an RDF dataset

---
 crates/core/src/serialization.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index b60f04f..a50af6d 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -325,8 +325,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			let subject = graph.resource_mut(quad.0);
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
-				Some(RdfProperty::Type) => {
-					rdf_terms.first = Some(quad.1);
+				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
@@ -353,7 +352,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					subject.list.rest.insert(quad.2);
 					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.0);
 				}
-				None => {
+				_ => {
 					subject.insert(quad.1, quad.2);
 				}
 			}
-- 
2.43.0


From be23f9dcf62411a4daeaf2ff918ca18cbb8422f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:04 +0000
Subject: [PATCH 74/96] fix: keep the nodes of an RDF dataset that are only
 referenced by types or cycles

---
 crates/core/src/serialization.rs | 69 +++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index a50af6d..4ac0aab 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -112,6 +112,18 @@ impl<R: Ord> SerDataset<R> {
 		}
 	}
 
+	/// Makes sure that every resource can be reached from a resource that is not
+	/// embedded into another one.
+	fn break_cycles(&mut self)
+	where
+		R: Copy,
+	{
+		self.default_graph.break_cycles();
+		for graph in self.named_graphs.values_mut() {
+			graph.break_cycles()
+		}
+	}
+
 	fn fold_into_default_graph(mut self) -> SerGraph<R> {
 		for (id, graph) in self.named_graphs {
 			self.default_graph.resource_mut(id).graph = Some(graph);
@@ -159,6 +171,7 @@ struct SerResource<R> {
 	graph: Option<SerGraph<R>>,
 	list: SerList<R>,
 	references: usize,
+	referrer: Option<R>,
 }
 
 impl<R> Default for SerResource<R> {
@@ -169,6 +182,7 @@ impl<R> Default for SerResource<R> {
 			graph: None,
 			list: SerList::default(),
 			references: 0,
+			referrer: None,
 		}
 	}
 }
@@ -203,6 +217,51 @@ impl<R> SerGraph<R> {
 		}
 	}
 
+	fn break_cycles(&mut self)
+	where
+		R: Copy + Ord,
+	{
+		let mut reachable = BTreeSet::new();
+		let ids: Vec<R> = self.resources.keys().copied().collect();
+		for id in ids {
+			let mut path = Vec::new();
+			let mut next = Some(id);
+			while let Some(id) = next.take().filter(|id| !reachable.contains(id)) {
+				if let Some(start) = path.iter().position(|other| *other == id) {
+					self.break_cycle(&path[start..]);
+					break;
+				}
+
+				path.push(id);
+				next = self.resources[&id]
+					.referrer
+					.filter(|_| self.resources[&id].references == 1);
+			}
+
+			reachable.extend(path)
+		}
+	}
+
+	fn break_cycle(&mut self, cycle: &[R])
+	where
+		R: Copy + Ord,
+	{
+		let root = cycle
+			.iter()
+			.find(|id| !self.resources[*id].is_list_node())
+			.or_else(|| {
+				cycle
+					.iter()
+					.find(|id| self.resources[*id].list.values.is_some())
+			})
+			.copied()
+			.unwrap_or(cycle[0]);
+
+		let root = self.resource_mut(root);
+		root.list.values = None;
+		root.references = usize::MAX;
+	}
+
 	fn get(&self, id: &R) -> Option<&SerResource<R>>
 	where
 		R: Ord,
@@ -323,9 +382,11 @@ impl<I, B> ExpandedDocument<I, B> {
 		for quad in quads {
 			let graph = node_map.graph_mut(quad.3);
 			let subject = graph.resource_mut(quad.0);
+			let mut is_type = false;
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
 				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
+					is_type = true;
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
@@ -358,11 +419,13 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.1 == quad.2 {
+			if quad.0 == quad.2 || is_type {
+				// The resource cannot be embedded here.
 				object.references = usize::MAX;
 			} else {
 				let r = object.references;
-				object.references = r.saturating_add(1)
+				object.references = r.saturating_add(1);
+				object.referrer = Some(quad.0);
 			}
 		}
 
@@ -370,6 +433,8 @@ impl<I, B> ExpandedDocument<I, B> {
 			node_map.find_lists(nil, |id| is_anonymous(interpretation, id));
 		}
 
+		node_map.break_cycles();
+
 		let graph = node_map.fold_into_default_graph();
 
 		let mut result = ExpandedDocument::new();
-- 
2.43.0


From ae6b72b60e9db7a75d4287ae2d5bf0ef5ad6fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:13 +0000
Subject: [PATCH 75/96] fix: literals without native representation are kept as
 typed strings

---
 crates/core/src/serialization.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 4ac0aab..c500bd5 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -769,26 +769,24 @@ where
 								})?;
 							Value::Json(json)
 						} else if ty == XSD_BOOLEAN {
-							let b = match l.as_ref() {
-								"true" | "1" => true,
-								"false" | "0" => false,
-								other => {
-									return Err(SerializationError::InvalidBoolean(
-										context.into_iris(vocabulary, interpretation),
-										other.to_owned(),
-									))
-								}
+							// Other lexical forms have no native representation.
+							let b = match l.as_str() {
+								"true" => Literal::Boolean(true),
+								"false" => Literal::Boolean(false),
+								other => Literal::String(other.into()),
 							};
 
-							Value::Literal(Literal::Boolean(b), Some(i.clone()))
+							Value::Literal(b, Some(i.clone()))
 						} else if ty == XSD_INTEGER || ty == XSD_DOUBLE {
-							let n = json_syntax::NumberBuf::from_str(l.as_str()).map_err(|_| {
-								SerializationError::Number(
-									context.into_iris(vocabulary, interpretation),
-									l.as_ref().to_owned(),
-								)
-							})?;
-							Value::Literal(Literal::Number(n), Some(i.clone()))
+							// Other lexical forms have no native representation.
+							let n = match json_syntax::NumberBuf::from_str(l.as_str()) {
+								Ok(n) if ty == XSD_DOUBLE || n.is_i64() || n.is_u64() => {
+									Literal::Number(n)
+								}
+								_ => Literal::String(l.as_str().into()),
+							};
+
+							Value::Literal(n, Some(i.clone()))
 						} else if ty == XSD_STRING {
 							Value::Literal(Literal::String(l.as_ref().into()), None)
 						} else {
-- 
2.43.0


From 16e893fabe7b31ebf08f0480fa35bf9ea0cdaa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:39 +0000
Subject: [PATCH 76/96] fix: the graph of a node having properties is part of
 its linked data

---
 crates/core/src/deserialization/object/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index 135201f..aa596b4 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -51,7 +51,7 @@ where
 			}
 		}
 
-		if self.is_graph() {
+		if self.graph().is_some() {
 			visitor.graph(self)?;
 		}
 
-- 
2.43.0


From 966dd84dc3194c8def0013421ad627712dc47563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:40 +0000
Subject: [PATCH 77/96] fix: the linked data of a list ends with rdf:nil

---
 .../core/src/deserialization/object/list.rs   | 40 ++++++++++++++-----
 crates/core/src/deserialization/object/mod.rs |  1 +
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/deserialization/object/list.rs b/crates/core/src/deserialization/object/list.rs
index 6b07da2..b43e8df 100644
--- a/crates/core/src/deserialization/object/list.rs
+++ b/crates/core/src/deserialization/object/list.rs
@@ -1,22 +1,24 @@
 use linked_data::{
-	LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject,
-	ResourceInterpretation,
+	CowRdfTerm, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource,
+	LinkedDataSubject, ResourceInterpretation,
 };
-use rdf_types::{vocabulary::IriVocabularyMut, Interpretation, Vocabulary};
+use rdf_types::{vocabulary::IriVocabularyMut, Id, Interpretation, Term, Vocabulary};
 
 use crate::{
 	object::List,
-	rdf::{RDF_FIRST, RDF_REST},
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST},
 	IndexedObject,
 };
 
-impl<T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for List<T, B> {
+impl<T, B, V: Vocabulary<Iri = T> + IriVocabularyMut, I: Interpretation> LinkedDataResource<I, V>
+	for List<T, B>
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(vocabulary, self.as_slice())
 	}
 }
 
@@ -82,13 +84,31 @@ where
 
 struct Rest<'a, T, B>(&'a [IndexedObject<T, B>]);
 
-impl<'a, T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Rest<'a, T, B> {
+/// Interpretation of a list, which is only identified (by `rdf:nil`) when it is
+/// empty.
+fn list_interpretation<'a, T, B, V, I>(
+	vocabulary: &mut V,
+	list: &[IndexedObject<T, B>],
+) -> ResourceInterpretation<'a, I, V>
+where
+	V: Vocabulary + IriVocabularyMut,
+	I: Interpretation,
+{
+	ResourceInterpretation::Uninterpreted(
+		list.is_empty()
+			.then(|| CowRdfTerm::Owned(Term::Id(Id::Iri(vocabulary.insert(RDF_NIL))))),
+	)
+}
+
+impl<'a, T, B, V: Vocabulary<Iri = T> + IriVocabularyMut, I: Interpretation>
+	LinkedDataResource<I, V> for Rest<'a, T, B>
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(vocabulary, self.0)
 	}
 }
 
diff --git a/crates/core/src/deserialization/object/mod.rs b/crates/core/src/deserialization/object/mod.rs
index f51ed88..992c84a 100644
--- a/crates/core/src/deserialization/object/mod.rs
+++ b/crates/core/src/deserialization/object/mod.rs
@@ -13,6 +13,7 @@ impl<T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataResource<I, V> f
 where
 	T: LinkedDataResource<I, V>,
 	B: LinkedDataResource<I, V>,
+	V: IriVocabularyMut,
 {
 	fn interpretation(
 		&self,
-- 
2.43.0


From 8c2f26163ad23bea668a8b319e454523b0e3c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:06 +0000
Subject: [PATCH 78/96] fix: serialize linked data lists

---
 crates/serialization/src/expanded/list.rs   | 199 --------------------
 crates/serialization/src/expanded/mod.rs    |   1 -
 crates/serialization/src/expanded/object.rs |  98 +++++-----
 3 files changed, 52 insertions(+), 246 deletions(-)
 delete mode 100644 crates/serialization/src/expanded/list.rs

diff --git a/crates/serialization/src/expanded/list.rs b/crates/serialization/src/expanded/list.rs
deleted file mode 100644
index 8bd5f08..0000000
--- a/crates/serialization/src/expanded/list.rs
+++ /dev/null
@@ -1,199 +0,0 @@
-use std::hash::Hash;
-
-use json_ld_core::{
-	rdf::{RDF_FIRST, RDF_REST},
-	Indexed, IndexedObject, Object,
-};
-use linked_data::{CowRdfTerm, LinkedDataResource};
-use rdf_types::{
-	interpretation::{
-		ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation,
-	},
-	vocabulary::IriVocabularyMut,
-	Id, Interpretation, Term, Vocabulary,
-};
-
-use crate::Error;
-
-use super::object::serialize_object_with;
-
-pub struct SerializeList<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeList<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			first: None,
-			rest: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::SubjectVisitor<I, V>
-	for SerializeList<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn predicate<L, T>(&mut self, predicate: &L, value: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		let repr = predicate
-			.interpretation(self.vocabulary, self.interpretation)
-			.into_lexical_representation(self.vocabulary, self.interpretation)
-			.map(CowRdfTerm::into_term);
-
-		match repr {
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = id {
-					let iri = self.vocabulary.iri(iri.as_ref()).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = value.visit_objects(serializer)?;
-					}
-				}
-
-				Ok(())
-			}
-			_ => Err(Error::InvalidPredicate),
-		}
-	}
-
-	fn reverse_predicate<L, T>(&mut self, _predicate: &L, _subjects: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		Err(Error::ListReverseProperty)
-	}
-
-	fn graph<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
-	{
-		Ok(())
-	}
-
-	fn include<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		Err(Error::ListInclude)
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		let first = self.first.unwrap_or_else(Object::null);
-		let mut result = self.rest;
-		result.push(Indexed::none(first));
-		Ok(result)
-	}
-}
-
-pub struct SerializeListFirst<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Option<Object<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListFirst<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: None,
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListFirst<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Option<Object<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		self.result = Some(serialize_object_with(
-			self.vocabulary,
-			self.interpretation,
-			value,
-		)?);
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
-
-pub struct SerializeListRest<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListRest<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListRest<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		let serializer = SerializeList::new(self.vocabulary, self.interpretation);
-		self.result = value.visit_subject(serializer)?;
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
diff --git a/crates/serialization/src/expanded/mod.rs b/crates/serialization/src/expanded/mod.rs
index f6d8e67..f71fe9f 100644
--- a/crates/serialization/src/expanded/mod.rs
+++ b/crates/serialization/src/expanded/mod.rs
@@ -13,7 +13,6 @@ use crate::Error;
 
 mod default_graph;
 mod graph;
-mod list;
 mod node;
 mod object;
 mod property;
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 8e09ed1..085e5a5 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -5,7 +5,7 @@ use json_ld_core::{
 		node::{Included, Multiset, Properties, ReverseProperties},
 		Graph, List,
 	},
-	rdf::{RDF_FIRST, RDF_REST, RDF_TYPE},
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST, RDF_TYPE},
 	Indexed, IndexedObject, Node, Object,
 };
 use linked_data::{CowRdfTerm, LinkedDataResource};
@@ -21,7 +21,6 @@ use crate::Error;
 
 use super::{
 	graph::SerializeGraph,
-	list::{SerializeListFirst, SerializeListRest},
 	node::{into_type_value, is_iri, SerializeNode},
 	property::{SerializeProperty, SerializeReverseProperty},
 	serialize_node_with,
@@ -53,13 +52,17 @@ where
 			Ok(Object::Value(value))
 		}
 		Some(Term::Id(id)) => {
-			let serializer = SerializeNode::new(
-				vocabulary,
-				interpretation,
-				Some(json_ld_core::Id::Valid(id)),
-			);
+			let id = json_ld_core::Id::Valid(id);
+			let is_nil = is_iri(vocabulary, &id, RDF_NIL);
+			let serializer = SerializeNode::new(vocabulary, interpretation, Some(id));
 
-			Ok(Object::node(value.visit_subject(serializer)?))
+			let node = value.visit_subject(serializer)?;
+
+			if is_nil && node.is_empty() {
+				Ok(Object::List(List::new(Vec::new())))
+			} else {
+				Ok(Object::node(node))
+			}
 		}
 		None => {
 			let serializer = SerializeObject::new(vocabulary, interpretation);
@@ -77,8 +80,8 @@ pub struct SerializeObject<'a, I, V: Vocabulary> {
 	reverse_properties: ReverseProperties<V::Iri, V::BlankId>,
 	included: Included<V::Iri, V::BlankId>,
 	graph: Option<Graph<V::Iri, V::BlankId>>,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Option<Vec<IndexedObject<V::Iri, V::BlankId>>>,
+	first: Multiset<IndexedObject<V::Iri, V::BlankId>>,
+	rest: Multiset<IndexedObject<V::Iri, V::BlankId>>,
 }
 
 impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
@@ -91,12 +94,30 @@ impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
 			reverse_properties: ReverseProperties::new(),
 			included: Included::new(),
 			graph: None,
-			first: None,
-			rest: None,
+			first: Multiset::new(),
+			rest: Multiset::new(),
 		}
 	}
 }
 
+impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V>
+where
+	V::Iri: Eq + Hash,
+	V::BlankId: Eq + Hash,
+{
+	/// Checks if the object is a list node, and nothing else.
+	fn is_list(&self) -> bool {
+		self.first.len() == 1
+			&& self.rest.len() == 1
+			&& self.rest.iter().all(|rest| rest.is_list())
+			&& self.types.is_empty()
+			&& self.properties.is_empty()
+			&& self.reverse_properties.is_empty()
+			&& self.included.is_empty()
+			&& self.graph.is_none()
+	}
+}
+
 impl<'a, I: Interpretation, V: Vocabulary> linked_data::SubjectVisitor<I, V>
 	for SerializeObject<'a, I, V>
 where
@@ -119,22 +140,7 @@ where
 			.lexical_representation(self.vocabulary, self.interpretation)
 			.map(CowRdfTerm::into_owned)
 		{
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = &id {
-					let iri = self.vocabulary.iri(iri).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = Some(value.visit_objects(serializer)?);
-					}
-				}
-
-				json_ld_core::Id::Valid(id)
-			}
+			Some(Term::Id(id)) => json_ld_core::Id::Valid(id),
 			_ => return Err(Error::InvalidPredicate),
 		};
 
@@ -157,6 +163,10 @@ where
 			if !non_iri_objects.is_empty() {
 				self.properties.set(prop, non_iri_objects);
 			}
+		} else if is_iri(self.vocabulary, &prop, RDF_FIRST) {
+			self.first.extend(objects);
+		} else if is_iri(self.vocabulary, &prop, RDF_REST) {
+			self.rest.extend(objects);
 		} else {
 			self.properties.set(prop, objects);
 		}
@@ -204,31 +214,27 @@ where
 	}
 
 	fn end(mut self) -> Result<Self::Ok, Self::Error> {
-		if self.first.is_some()
-			&& self.rest.is_some()
-			&& self.types.is_empty()
-			&& self.properties.is_empty()
-			&& self.graph.is_none()
-		{
-			#[allow(clippy::unnecessary_unwrap)]
-			let mut items = self.rest.unwrap();
-			#[allow(clippy::unnecessary_unwrap)]
-			items.push(Indexed::none(self.first.unwrap()));
-			items.reverse();
+		if self.is_list() {
+			let mut items: Vec<_> = self.first.into_iter().collect();
+
+			for rest in self.rest {
+				if let Object::List(rest) = rest.into_inner() {
+					items.extend(rest);
+				}
+			}
+
 			Ok(Object::List(List::new(items)))
 		} else {
-			if let Some(item) = self.first {
+			if !self.first.is_empty() {
 				let iri = self.vocabulary.insert(RDF_FIRST);
 				self.properties
-					.insert(json_ld_core::Id::Valid(Id::Iri(iri)), Indexed::none(item))
+					.set(json_ld_core::Id::Valid(Id::Iri(iri)), self.first)
 			}
 
-			if let Some(rest) = self.rest {
+			if !self.rest.is_empty() {
 				let iri = self.vocabulary.insert(RDF_REST);
-				self.properties.insert(
-					json_ld_core::Id::Valid(Id::Iri(iri)),
-					Indexed::none(Object::List(List::new(rest))),
-				)
+				self.properties
+					.set(json_ld_core::Id::Valid(Id::Iri(iri)), self.rest)
 			}
 
 			let mut node = Node::new();
-- 
2.43.0


From 2a9be45e60bc4aeb93367bba255d28f1cbadac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:37 +0000
Subject: [PATCH 79/96] fix: a linked data property visited twice keeps all its
 values

---
 crates/serialization/src/expanded/node.rs   | 19 ++++++++++++-------
 crates/serialization/src/expanded/object.rs | 13 +++++++------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/crates/serialization/src/expanded/node.rs b/crates/serialization/src/expanded/node.rs
index e2d4e7b..7e17576 100644
--- a/crates/serialization/src/expanded/node.rs
+++ b/crates/serialization/src/expanded/node.rs
@@ -1,5 +1,5 @@
 use iref::Iri;
-use json_ld_core::{object::node::Multiset, Indexed, Node, Object};
+use json_ld_core::{object::Graph, Indexed, Node, Object};
 use linked_data::{CowRdfTerm, LinkedDataResource};
 use rdf_types::{
 	interpretation::{
@@ -103,22 +103,24 @@ where
 		let objects = value.visit_objects(serializer)?;
 
 		if is_iri(self.vocabulary, &prop, RDF_TYPE) {
-			let mut non_iri_objects = Multiset::new();
+			let mut non_iri_objects = Vec::new();
 
 			for obj in objects {
 				match into_type_value(obj) {
 					Ok(ty) => self.result.types_mut_or_default().push(ty),
 					Err(obj) => {
-						non_iri_objects.insert(obj);
+						non_iri_objects.push(obj);
 					}
 				}
 			}
 
 			if !non_iri_objects.is_empty() {
-				self.result.properties_mut().set(prop, non_iri_objects);
+				self.result
+					.properties_mut()
+					.insert_all(prop, non_iri_objects);
 			}
 		} else {
-			self.result.properties_mut().set(prop, objects);
+			self.result.properties_mut().insert_all(prop, objects);
 		}
 
 		Ok(())
@@ -142,7 +144,7 @@ where
 		let objects = value.visit_objects(serializer)?;
 		self.result
 			.reverse_properties_mut_or_default()
-			.set(prop, objects);
+			.insert_all(prop, objects);
 
 		Ok(())
 	}
@@ -166,7 +168,10 @@ where
 		let serializer = SerializeGraph::new(self.vocabulary, self.interpretation);
 
 		let graph = value.visit_graph(serializer)?;
-		self.result.graph = Some(graph);
+		self.result
+			.graph
+			.get_or_insert_with(Graph::new)
+			.extend(graph);
 		Ok(())
 	}
 
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 085e5a5..f31ce0c 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -149,26 +149,26 @@ where
 		let objects = value.visit_objects(serializer)?;
 
 		if is_iri(self.vocabulary, &prop, RDF_TYPE) {
-			let mut non_iri_objects = Multiset::new();
+			let mut non_iri_objects = Vec::new();
 
 			for obj in objects {
 				match into_type_value(obj) {
 					Ok(ty) => self.types.push(ty),
 					Err(obj) => {
-						non_iri_objects.insert(obj);
+						non_iri_objects.push(obj);
 					}
 				}
 			}
 
 			if !non_iri_objects.is_empty() {
-				self.properties.set(prop, non_iri_objects);
+				self.properties.insert_all(prop, non_iri_objects);
 			}
 		} else if is_iri(self.vocabulary, &prop, RDF_FIRST) {
 			self.first.extend(objects);
 		} else if is_iri(self.vocabulary, &prop, RDF_REST) {
 			self.rest.extend(objects);
 		} else {
-			self.properties.set(prop, objects);
+			self.properties.insert_all(prop, objects);
 		}
 
 		Ok(())
@@ -190,7 +190,7 @@ where
 		let serializer = SerializeReverseProperty::new(self.vocabulary, self.interpretation);
 
 		let objects = value.visit_objects(serializer)?;
-		self.reverse_properties.set(prop, objects);
+		self.reverse_properties.insert_all(prop, objects);
 
 		Ok(())
 	}
@@ -209,7 +209,8 @@ where
 		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
 	{
 		let serializer = SerializeGraph::new(self.vocabulary, self.interpretation);
-		self.graph = Some(value.visit_graph(serializer)?);
+		let graph = value.visit_graph(serializer)?;
+		self.graph.get_or_insert_with(Graph::new).extend(graph);
 		Ok(())
 	}
 
-- 
2.43.0


From 4b4c58f843adfe3b83ab021eb821165f6273d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:46 +0000
Subject: [PATCH 80/96] fix: keep the type of the linked data numbers that are
 not integers

---
 crates/serialization/src/expanded/value.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/serialization/src/expanded/value.rs b/crates/serialization/src/expanded/value.rs
index 38da4f5..5dfabc8 100644
--- a/crates/serialization/src/expanded/value.rs
+++ b/crates/serialization/src/expanded/value.rs
@@ -1,7 +1,7 @@
 use json_ld_core::{object::Literal, LangString, Value};
 use linked_data::RdfLiteral;
 use rdf_types::{vocabulary::IriVocabularyMut, LiteralType};
-use xsd_types::XSD_STRING;
+use xsd_types::{XSD_INTEGER, XSD_STRING};
 
 pub fn literal_to_value<V: IriVocabularyMut>(
 	vocabulary: &mut V,
@@ -54,8 +54,10 @@ fn xsd_to_value<V: IriVocabularyMut>(vocabulary: &mut V, value: xsd_types::Value
 
 	match json_syntax::Number::new(&number) {
 		Ok(_) => {
+			// Integers are the only numbers whose type is implied.
+			let ty = (ty.iri() != XSD_INTEGER).then(|| vocabulary.insert(ty.iri()));
 			let n = unsafe { json_syntax::NumberBuf::new_unchecked(number.into_bytes().into()) };
-			Value::Literal(Literal::Number(n), None)
+			Value::Literal(Literal::Number(n), ty)
 		}
 		Err(_) => {
 			let ty = vocabulary.insert(ty.iri());
-- 
2.43.0


From 9dcb2974be1abb24ac705de1209a392f2357eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:46 +0000
Subject: [PATCH 81/96] fix: keep the type of a boolean in its linked data

---
 crates/core/src/deserialization/object/value.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index d2f147e..b974d9f 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -1,10 +1,11 @@
+use iref::Iri;
 use linked_data::{
 	xsd_types, CowRdfTerm, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects,
 	LinkedDataResource, LinkedDataSubject, RdfLiteral, RdfLiteralRef, ResourceInterpretation,
 };
 use rdf_types::{Interpretation, LiteralTypeRef, Term, Vocabulary};
 
-use crate::{object::Literal, Value};
+use crate::{object::Literal, rdf::XSD_BOOLEAN, Value};
 
 impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri> {
 	fn interpretation(
@@ -17,6 +18,12 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 				Literal::Null => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
 					xsd_types::Value::String("null".to_string()),
 				))),
+				Literal::Boolean(b) if !is_type(vocabulary, ty, XSD_BOOLEAN) => {
+					CowRdfTerm::Borrowed(Term::Literal(RdfLiteralRef::Any(
+						if *b { "true" } else { "false" },
+						LiteralTypeRef::Any(ty.as_ref().unwrap()),
+					)))
+				}
 				Literal::Boolean(b) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
 					xsd_types::Value::Boolean((*b).into()),
 				))),
@@ -58,6 +65,14 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 	}
 }
 
+/// Checks that the datatype of a literal, if any, is the given one.
+fn is_type<V: Vocabulary>(vocabulary: &V, ty: &Option<V::Iri>, iri: &Iri) -> bool {
+	match ty {
+		Some(ty) => vocabulary.iri(ty) == Some(iri),
+		None => true,
+	}
+}
+
 fn typed_number_interpretation<V: Vocabulary>(
 	vocabulary: &V,
 	ty: &V::Iri,
-- 
2.43.0


From a443123045d3ab77225bee397f3bb6204faf6e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:30 +0000
Subject: [PATCH 82/96] fix: the literal items of a list are part of its linked
 data

---
 crates/core/src/deserialization/object/value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index b974d9f..2f0027d 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -92,11 +92,12 @@ impl<T, V: Vocabulary, I: Interpretation> LinkedDataSubject<I, V> for Value<T> {
 	}
 }
 
-impl<T, V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<T> {
-	fn visit_objects<S>(&self, visitor: S) -> Result<S::Ok, S::Error>
+impl<V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<V::Iri> {
+	fn visit_objects<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
 	where
 		S: linked_data::PredicateObjectsVisitor<I, V>,
 	{
+		visitor.object(self)?;
 		visitor.end()
 	}
 }
-- 
2.43.0


From 55fa996ccbf7bc3afa2229f593ec2c96261d5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:47 +0000
Subject: [PATCH 83/96] fix: decimals have no native representation in JSON

---
 crates/serialization/src/expanded/value.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/serialization/src/expanded/value.rs b/crates/serialization/src/expanded/value.rs
index 5dfabc8..c10db11 100644
--- a/crates/serialization/src/expanded/value.rs
+++ b/crates/serialization/src/expanded/value.rs
@@ -32,7 +32,6 @@ fn xsd_to_value<V: IriVocabularyMut>(vocabulary: &mut V, value: xsd_types::Value
 	let number = match value {
 		xsd_types::Value::Boolean(b) => return Value::Literal(Literal::Boolean(b.into()), None),
 		xsd_types::Value::String(s) => return Value::Literal(Literal::String(s.into()), None),
-		xsd_types::Value::Decimal(v) => v.to_string(),
 		xsd_types::Value::Integer(v) => v.to_string(),
 		xsd_types::Value::NonPositiveInteger(v) => v.to_string(),
 		xsd_types::Value::NegativeInteger(v) => v.to_string(),
-- 
2.43.0


From 6c79cf15230cb7b97827d34785102e1dd985adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:12 +0000
Subject: [PATCH 84/96] fix: the linked data of a number has the same lexical
 form as in RDF

---
 .../core/src/deserialization/object/value.rs  | 46 ++++++++-----------
 crates/core/src/rdf/mod.rs                    | 43 +++++++++--------
 2 files changed, 44 insertions(+), 45 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index 2f0027d..a4a6d40 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -5,7 +5,11 @@ use linked_data::{
 };
 use rdf_types::{Interpretation, LiteralTypeRef, Term, Vocabulary};
 
-use crate::{object::Literal, rdf::XSD_BOOLEAN, Value};
+use crate::{
+	object::Literal,
+	rdf::{number_lexical_form, XSD_BOOLEAN},
+	Value,
+};
 
 impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri> {
 	fn interpretation(
@@ -27,23 +31,23 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 				Literal::Boolean(b) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
 					xsd_types::Value::Boolean((*b).into()),
 				))),
-				Literal::Number(n) => match ty {
-					Some(ty) => match typed_number_interpretation(vocabulary, ty, n) {
-						Some(value) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(value))),
-						None => CowRdfTerm::Borrowed(Term::Literal(RdfLiteralRef::Any(
-							n.as_str(),
-							LiteralTypeRef::Any(ty),
-						))),
-					},
-					None => {
-						let value = match n.as_i64() {
-							Some(i) => xsd_types::Value::Integer(i.into()),
-							None => xsd_types::Value::Double(n.as_f64_lossy().into()),
-						};
+				Literal::Number(n) => {
+					let (lexical, rdf_ty) =
+						number_lexical_form(n, ty.as_ref().and_then(|ty| vocabulary.iri(ty)));
+					let xsd_ty = match ty {
+						Some(ty) => vocabulary.iri(ty).and_then(xsd_types::Datatype::from_iri),
+						None => xsd_types::Datatype::from_iri(rdf_ty),
+					};
 
-						CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(value)))
+					match (xsd_ty.and_then(|ty| ty.parse(&lexical).ok()), ty) {
+						(None, Some(ty)) => CowRdfTerm::Borrowed(Term::Literal(
+							RdfLiteralRef::Any(n.as_str(), LiteralTypeRef::Any(ty)),
+						)),
+						(value, _) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
+							value.unwrap_or(xsd_types::Value::String(lexical)),
+						))),
 					}
-				},
+				}
 				Literal::String(s) => CowRdfTerm::Borrowed(Term::Literal(match ty {
 					Some(ty) => RdfLiteralRef::Any(s.as_str(), LiteralTypeRef::Any(ty)),
 					None => RdfLiteralRef::Xsd(xsd_types::ValueRef::String(s)),
@@ -73,16 +77,6 @@ fn is_type<V: Vocabulary>(vocabulary: &V, ty: &Option<V::Iri>, iri: &Iri) -> boo
 	}
 }
 
-fn typed_number_interpretation<V: Vocabulary>(
-	vocabulary: &V,
-	ty: &V::Iri,
-	n: &json_syntax::Number,
-) -> Option<xsd_types::Value> {
-	let iri = vocabulary.iri(ty)?;
-	let xsd_ty = xsd_types::Datatype::from_iri(iri)?;
-	xsd_ty.parse(n).ok()
-}
-
 impl<T, V: Vocabulary, I: Interpretation> LinkedDataSubject<I, V> for Value<T> {
 	fn visit_subject<S>(&self, visitor: S) -> Result<S::Ok, S::Error>
 	where
diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index c9d0a5c..cae9817 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -145,6 +145,27 @@ pub struct CompoundLiteral<T, B, L> {
 	triples: Option<CompoundLiteralTriples<T, B, L>>,
 }
 
+/// Returns the lexical form of a JSON number, with its datatype unless it has
+/// another one.
+pub(crate) fn number_lexical_form(
+	n: &json_syntax::Number,
+	ty: Option<&Iri>,
+) -> (String, &'static Iri) {
+	let f = n.as_f64_lossy();
+	let is_double = f.fract() != 0.0 || f.abs() >= 1e21 || ty.is_some_and(|ty| ty == XSD_DOUBLE);
+
+	if is_double {
+		(pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT), XSD_DOUBLE)
+	} else {
+		let lexical = match n.as_i64() {
+			Some(i) => i.to_string(),
+			None => (f as i128).to_string(),
+		};
+
+		(lexical, XSD_INTEGER)
+	}
+}
+
 impl<T: Clone> crate::object::Value<T> {
 	fn rdf_value_with<V, G: Generator<V>>(
 		&self,
@@ -275,25 +296,9 @@ impl<T: Clone> crate::object::Value<T> {
 					}
 					value::Literal::Null => ("null".to_string(), None),
 					value::Literal::Number(n) => {
-						let f = n.as_f64_lossy();
-						let is_double = f.fract() != 0.0
-							|| f.abs() >= 1e21 || ty
-							.as_ref()
-							.is_some_and(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE);
-
-						if !is_double {
-							let lexical = match n.as_i64() {
-								Some(i) => i.to_string(),
-								None => (f as i128).to_string(),
-							};
-
-							(lexical, Some(vocabulary.insert(XSD_INTEGER)))
-						} else {
-							(
-								pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT),
-								Some(vocabulary.insert(XSD_DOUBLE)),
-							)
-						}
+						let ty = ty.as_ref().and_then(|t| vocabulary.iri(t));
+						let (lexical, rdf_ty) = number_lexical_form(n, ty);
+						(lexical, Some(vocabulary.insert(rdf_ty)))
 					}
 					value::Literal::String(s) => (s.to_string(), None),
 				};
-- 
2.43.0


From a9d43a7ccc0855de42d3cb5d230343255d3711f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 85/96] fix: terms that are null or not prefixes stay so in the
 syntax of a context

---
 crates/core/src/context/definition.rs | 31 ++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/context/definition.rs b/crates/core/src/context/definition.rs
index 69ab0cc..c298476 100644
--- a/crates/core/src/context/definition.rs
+++ b/crates/core/src/context/definition.rs
@@ -613,15 +613,33 @@ impl<T, B> NormalTermDefinition<T, B> {
 			}
 		}
 
+		// A simple term definition makes the term usable as a prefix if its value
+		// is a blank node identifier or ends with a gen-delim.
+		let is_prefix_like = match &self.value {
+			Some(Term::Id(r)) => {
+				r.is_blank()
+					|| r.with(vocabulary)
+						.to_string()
+						.ends_with([':', '/', '?', '#', '[', ']', '@'])
+			}
+			_ => false,
+		};
+
 		let (id, reverse) = if self.reverse_property {
 			(None, self.value.map(|t| term_into_key(vocabulary, t)))
 		} else {
-			(self.value.map(|t| term_into_id(vocabulary, t)), None)
+			(
+				Some(match self.value {
+					Some(t) => term_into_id(vocabulary, t),
+					None => Nullable::Null,
+				}),
+				None,
+			)
 		};
 
 		let container = self.container.into_syntax();
 
-		json_ld_syntax::context::term_definition::Expanded {
+		let definition = json_ld_syntax::context::term_definition::Expanded {
 			id,
 			type_: self
 				.typ
@@ -636,8 +654,15 @@ impl<T, B> NormalTermDefinition<T, B> {
 			prefix: if self.prefix { Some(true) } else { None },
 			propagate: None,
 			protected: if self.protected { Some(true) } else { None },
+		};
+
+		if definition.is_simple_definition() && is_prefix_like {
+			Nullable::Some(json_ld_syntax::context::TermDefinition::Expanded(Box::new(
+				definition,
+			)))
+		} else {
+			definition.simplify()
 		}
-		.simplify()
 	}
 
 	fn map_ids<U, C>(
-- 
2.43.0


From 8fc10916d872448f9feac74b0f6f2011a00937f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 86/96] fix: the entries of a context definition can be counted

---
 crates/syntax/src/context/definition/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/syntax/src/context/definition/mod.rs b/crates/syntax/src/context/definition/mod.rs
index b95e220..2e51aa7 100644
--- a/crates/syntax/src/context/definition/mod.rs
+++ b/crates/syntax/src/context/definition/mod.rs
@@ -164,6 +164,10 @@ impl<'a> Iterator for BindingsIter<'a> {
 	fn next(&mut self) -> Option<Self::Item> {
 		self.0.next().map(|(k, d)| (k, d.as_ref()))
 	}
+
+	fn size_hint(&self) -> (usize, Option<usize>) {
+		self.0.size_hint()
+	}
 }
 
 impl<'a> DoubleEndedIterator for BindingsIter<'a> {
-- 
2.43.0


From 8c99c9434d1c0f957fad1f2d5a4adae7d299997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 87/96] fix: keep null scoped contexts and absent @protected
 entries in (de)serialization

---
 crates/syntax/src/context/definition/type_.rs   |  9 ++++++++-
 .../syntax/src/context/term_definition/mod.rs   | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/context/definition/type_.rs b/crates/syntax/src/context/definition/type_.rs
index 4edf300..f81f218 100644
--- a/crates/syntax/src/context/definition/type_.rs
+++ b/crates/syntax/src/context/definition/type_.rs
@@ -6,7 +6,14 @@ pub struct Type {
 	#[cfg_attr(feature = "serde", serde(rename = "@container"))]
 	pub container: TypeContainer,
 
-	#[cfg_attr(feature = "serde", serde(rename = "@protected"))]
+	#[cfg_attr(
+		feature = "serde",
+		serde(
+			rename = "@protected",
+			default,
+			skip_serializing_if = "Option::is_none"
+		)
+	)]
 	pub protected: Option<bool>,
 }
 
diff --git a/crates/syntax/src/context/term_definition/mod.rs b/crates/syntax/src/context/term_definition/mod.rs
index 3d22c94..0c7c337 100644
--- a/crates/syntax/src/context/term_definition/mod.rs
+++ b/crates/syntax/src/context/term_definition/mod.rs
@@ -122,7 +122,12 @@ pub struct Expanded {
 
 	#[cfg_attr(
 		feature = "serde",
-		serde(rename = "@context", default, skip_serializing_if = "Option::is_none")
+		serde(
+			rename = "@context",
+			default,
+			deserialize_with = "deserialize_context",
+			skip_serializing_if = "Option::is_none"
+		)
 	)]
 	pub context: Option<Box<context::Context>>,
 
@@ -204,6 +209,16 @@ pub struct Expanded {
 	pub protected: Option<bool>,
 }
 
+/// Deserializes a scoped context, which may be the `null` context.
+#[cfg(feature = "serde")]
+fn deserialize_context<'de, D>(deserializer: D) -> Result<Option<Box<context::Context>>, D::Error>
+where
+	D: serde::Deserializer<'de>,
+{
+	use serde::Deserialize;
+	Box::<context::Context>::deserialize(deserializer).map(Some)
+}
+
 impl Expanded {
 	pub fn new() -> Self {
 		Self::default()
-- 
2.43.0


From b8f85a66d9f5b27e8b92e4286110882db4ecbf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:06 +0000
Subject: [PATCH 88/96] fix: nested properties are expanded after the other
 entries of their node

---
 crates/expansion/src/node.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 3880d3c..9c6ea01 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -126,8 +126,14 @@ where
 	W: WarningHandler<N>,
 {
 	// For each `key` and `value` in `element`, ordered lexicographically by key
-	// if `ordered` is `true`:
-	for ExpandedEntry(key, expanded_key, value) in expanded_entries {
+	// if `ordered` is `true`. Nested properties come after every other entry:
+	let (nests, entries): (Vec<_>, Vec<_>) =
+		expanded_entries
+			.into_iter()
+			.partition(|ExpandedEntry(_, expanded_key, _)| {
+				*expanded_key == Term::Keyword(Keyword::Nest)
+			});
+	for ExpandedEntry(key, expanded_key, value) in entries.into_iter().chain(nests) {
 		match expanded_key {
 			Term::Null => (),
 
-- 
2.43.0


From d2b04a045d0762a5607ff11467da29d32a556342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:19 +0000
Subject: [PATCH 89/96] fix: forget the inverse context when the @type
 definition changes

---
 crates/core/src/context/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/context/mod.rs b/crates/core/src/context/mod.rs
index 9b8051e..4785c46 100644
--- a/crates/core/src/context/mod.rs
+++ b/crates/core/src/context/mod.rs
@@ -191,6 +191,7 @@ impl<T, B> Context<T, B> {
 
 	/// Sets the `@type` definition.
 	pub fn set_type(&mut self, type_: Option<TypeTermDefinition>) -> Option<TypeTermDefinition> {
+		self.inverse.take();
 		self.definitions.set_type(type_)
 	}
 
-- 
2.43.0


From 0d1307d973de44f078e78860d1241d28d2a15d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:28 +0000
Subject: [PATCH 90/96] fix: contexts with different term definitions are
 different

---
 crates/core/src/context/definition.rs | 2 +-
 crates/core/src/context/mod.rs        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/context/definition.rs b/crates/core/src/context/definition.rs
index c298476..653db05 100644
--- a/crates/core/src/context/definition.rs
+++ b/crates/core/src/context/definition.rs
@@ -71,7 +71,7 @@ impl<'a, T, B> BindingRef<'a, T, B> {
 }
 
 /// Context term definitions.
-#[derive(Clone)]
+#[derive(Clone, PartialEq, Eq)]
 pub struct Definitions<T, B> {
 	normal: HashMap<Key, NormalTermDefinition<T, B>>,
 	type_: Option<TypeTermDefinition>,
diff --git a/crates/core/src/context/mod.rs b/crates/core/src/context/mod.rs
index 4785c46..435e088 100644
--- a/crates/core/src/context/mod.rs
+++ b/crates/core/src/context/mod.rs
@@ -334,5 +334,6 @@ impl<T: PartialEq, B: PartialEq> PartialEq for Context<T, B> {
 			&& self.default_language == other.default_language
 			&& self.default_base_direction == other.default_base_direction
 			&& self.previous_context == other.previous_context
+			&& self.definitions == other.definitions
 	}
 }
-- 
2.43.0


From a64fb0a344eccae81927abe2c3ad640e55277031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:51 +0000
Subject: [PATCH 91/96] fix: the index entry of an object is named "@index"

---
 crates/core/src/object/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index f30a9e2..8c3b355 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -723,7 +723,7 @@ impl<'a, T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoRefWithContext<'a, str,
 {
 	fn into_ref_with(self, vocabulary: &'a N) -> &'a str {
 		match self {
-			IndexedEntryKeyRef::Index => "@value",
+			IndexedEntryKeyRef::Index => "@index",
 			IndexedEntryKeyRef::Object(e) => e.into_with(vocabulary).into_str(),
 		}
 	}
-- 
2.43.0


From 1166aecc047fbb0ab3970e08755d190bb7872ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:07 +0000
Subject: [PATCH 92/96] fix: Node::as_str gives the identifier of blank and
 invalid nodes too

---
 crates/core/src/object/node/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 21d7a88..d933800 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -264,11 +264,9 @@ impl<T, B> Node<T, B> {
 	pub fn as_str(&self) -> Option<&str>
 	where
 		T: AsRef<str>,
+		B: AsRef<str>,
 	{
-		match self.as_iri() {
-			Some(iri) => Some(iri.as_ref()),
-			None => None,
-		}
+		self.id.as_ref().map(Id::as_str)
 	}
 
 	/// Get the list of the node's types.
-- 
2.43.0


From 0d05d7f3ad2bae749e90f313cf3f66a27b4fdceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:53 +0000
Subject: [PATCH 93/96] fix: equality up to a renaming of blank nodes compares
 the types of nodes

---
 crates/core/src/object/mapped_eq.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/object/mapped_eq.rs b/crates/core/src/object/mapped_eq.rs
index 42045b2..8f4fd84 100644
--- a/crates/core/src/object/mapped_eq.rs
+++ b/crates/core/src/object/mapped_eq.rs
@@ -257,7 +257,14 @@ impl<T: Eq + Hash, B: Eq + Hash> MappedEq for super::Node<T, B> {
 	where
 		B: 'a + 'b,
 	{
-		opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone())
+		let same_types = match (&self.types, &other.types) {
+			(Some(a), Some(b)) => a.unordered_mapped_eq(b, f.clone()),
+			(None, None) => true,
+			_ => false,
+		};
+
+		same_types
+			&& opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone())
 			&& opt_mapped_eq(self.included_entry(), other.included_entry(), f.clone())
 			&& opt_mapped_eq(self.graph_entry(), other.graph_entry(), f.clone())
 			&& self.properties().mapped_eq(other.properties(), f.clone())
-- 
2.43.0


From 72766278b408013ca66062a9ec0796d2b3a81614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:32 +0000
Subject: [PATCH 94/96] fix: a null value object with both a type and a
 language is invalid

---
 crates/expansion/src/value.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 1dc2e0e..1354af3 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -200,6 +200,12 @@ where
 	// value, and is treated as a JSON literal.
 	// NOTE already checked?
 
+	// If the result contains the entry @type and either @language or @direction,
+	// an invalid value object error has been detected and processing is aborted.
+	if ty.is_some() && (language.is_some() || direction.is_some()) {
+		return Err(InvalidValue::ValueObject);
+	}
+
 	// Otherwise, if the value of result's @value entry is null, or an empty array,
 	// return null
 	if matches!(result, Literal::Null) {
@@ -211,10 +217,6 @@ where
 	// been detected (only strings can be language-tagged) and processing is
 	// aborted.
 	if language.is_some() || direction.is_some() {
-		if ty.is_some() {
-			return Err(InvalidValue::ValueObject);
-		}
-
 		if let Literal::String(s) = result {
 			let lang = match language {
 				Some(language) => {
-- 
2.43.0


From 0cce0b0d70361ffdf9f096ddcf5b787b362f7cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:58 +0000
Subject: [PATCH 95/96] fix: the vocabulary policy only applies to what is
 expanded with the vocabulary

With `Policy::vocab` set to `Reject`, expansion failed on keys that a
nested, property-scoped or type-scoped context defines, and on the entries
of language, index and id maps, none of which use the vocabulary mapping.
---
 crates/expansion/src/element.rs | 11 +++++++----
 crates/expansion/src/node.rs    | 13 +++++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index cabf994..2a1c930 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -1,5 +1,5 @@
 use crate::{
-	expand_array, expand_iri, expand_literal, expand_node, expand_value, Error, Expanded,
+	expand_array, expand_iri, expand_literal, expand_node, expand_value, Action, Error, Expanded,
 	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
 };
 use contextual::WithContext;
@@ -132,6 +132,9 @@ where
 			// };
 
 			// Preliminary key expansions.
+			//
+			// Only the keywords matter here: the vocabulary policy applies to the
+			// entries once they are expanded with their own active context.
 			let mut preliminary_value_entry = None;
 			let mut preliminary_id_entry = None;
 			for Entry { key, value } in element.entries() {
@@ -140,7 +143,7 @@ where
 					active_context,
 					Nullable::Some(key.as_str().into()),
 					false,
-					Some(options.policy.vocab),
+					Some(Action::Keep),
 				)? {
 					Some(Term::Keyword(Keyword::Value)) => {
 						preliminary_value_entry = Some(value.clone())
@@ -230,7 +233,7 @@ where
 					active_context.as_ref(),
 					Nullable::Some(key.as_str().into()),
 					false,
-					Some(options.policy.vocab),
+					Some(Action::Keep),
 				)?;
 
 				if let Some(Term::Keyword(Keyword::Type)) = expanded_key {
@@ -305,7 +308,7 @@ where
 								active_context.as_ref(),
 								Nullable::Some(input_type_str.into()),
 								false,
-								Some(options.policy.vocab),
+								Some(Action::Keep),
 							)
 						})
 						.transpose()?
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 9c6ea01..8bbb6bd 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -555,7 +555,7 @@ where
 												active_context,
 												Nullable::Some(language.as_str().into()),
 												false,
-												Some(options.policy.vocab),
+												Some(Action::Keep),
 											)? == Some(Term::Keyword(
 												Keyword::None,
 											)) {
@@ -700,6 +700,15 @@ where
 								// Otherwise, set map context to active context.
 								// TODO What?
 
+								// Only types are expanded using the vocabulary
+								// mapping. Otherwise the index is only compared to
+								// `@none`.
+								let vocab_policy = if container_mapping.contains(ContainerKind::Type) {
+									options.policy.vocab
+								} else {
+									Action::Keep
+								};
+
 								// Initialize `expanded_index` to the result of IRI
 								// expanding index.
 								let expanded_index = match expand_iri(
@@ -707,7 +716,7 @@ where
 									active_context,
 									Nullable::Some(index.as_str().into()),
 									false,
-									Some(options.policy.vocab),
+									Some(vocab_policy),
 								)? {
 									None => Some(Term::Null),
 									Some(Term::Keyword(Keyword::None)) => None,
-- 
2.43.0


From 261a6651e30e65fd722da88bfc0cb7eedfc5a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:13 +0000
Subject: [PATCH 96/96] fix: any term can be the prefix of a compact IRI
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Prefixes that are not valid URI schemes (`my_prefix:x`, `é:x`, `1:x`) were
not expanded, although compaction uses them, so that compacted documents
lost their properties and types when read again. Values that can only be
an IRI or a blank node identifier no longer fall back to the vocabulary
mapping either.
---
 .../src/algorithm/define.rs                   | 14 ++++----
 .../context-processing/src/algorithm/iri.rs   | 36 ++++++++++++++-----
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index eb19258..1e65f59 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -1,4 +1,4 @@
-use super::{expand_iri_simple, expand_iri_with, Environment, Merged};
+use super::{expand_iri_simple, expand_iri_with, split_compact_iri, Environment, Merged};
 use crate::{Error, Options, ProcessingStack, Warning, WarningHandler};
 use contextual::WithContext;
 use iref::IriRef;
@@ -11,7 +11,7 @@ use json_ld_syntax::{
 		definition::{EntryValueRef, KeyOrKeyword, KeyOrKeywordRef},
 		term_definition::{self, IdRef},
 	},
-	CompactIri, ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
+	ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
 };
 use rdf_types::{BlankId, VocabularyMut};
 use std::{collections::HashMap, hash::Hash};
@@ -477,7 +477,7 @@ where
 							// Otherwise if the `term` contains a colon (:) anywhere after the first
 							// character.
 							if let KeyOrKeyword::Key(term) = &term {
-								if let Ok(compact_iri) = CompactIri::new(term.as_str()) {
+								if let Some((prefix, suffix)) = split_compact_iri(term.as_str()) {
 									// If `term` is a compact IRI with a prefix that is an entry in local
 									// context a dependency has been found.
 									// Use this algorithm recursively passing `active_context`,
@@ -490,7 +490,7 @@ where
 										},
 										active_context,
 										local_context,
-										KeyOrKeywordRef::Key(compact_iri.prefix().into()),
+										KeyOrKeywordRef::Key(prefix.into()),
 										defined,
 										remote_contexts.clone(),
 										base_url.clone(),
@@ -502,15 +502,13 @@ where
 									// If `term`'s prefix has a term definition in `active_context`, set the
 									// IRI mapping of `definition` to the result of concatenating the value
 									// associated with the prefix's IRI mapping and the term's suffix.
-									if let Some(prefix_definition) =
-										active_context.get(compact_iri.prefix())
-									{
+									if let Some(prefix_definition) = active_context.get(prefix) {
 										if let Some(prefix_key) = prefix_definition.value() {
 											let mut result = prefix_key
 												.with(&*env.vocabulary)
 												.as_str()
 												.to_string();
-											result.push_str(compact_iri.suffix());
+											result.push_str(suffix);
 											let mapping =
 												Id::from_string_in(env.vocabulary, result);
 											if !mapping.is_valid() {
diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index 5b4d5dd..b5461b0 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -10,7 +10,7 @@ use rdf_types::{
 	vocabulary::{BlankIdVocabulary, IriVocabulary},
 	BlankId, Vocabulary, VocabularyMut,
 };
-use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like, CompactIri};
+use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like};
 
 pub struct MalformedIri(pub String);
 
@@ -105,7 +105,7 @@ where
 					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
 				}
 
-				if let Ok(compact_iri) = CompactIri::new(value) {
+				if let Some((prefix, suffix)) = split_compact_iri(value) {
 					// If local context is not null, it contains a `prefix` entry, and the value of the
 					// prefix entry in defined is not true, invoke the Create Term Definition
 					// algorithm, passing active context, local context, prefix as term, and defined.
@@ -119,7 +119,7 @@ where
 						},
 						active_context,
 						local_context,
-						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
+						KeyOrKeywordRef::Key(prefix.into()),
 						defined,
 						remote_contexts,
 						base_url,
@@ -131,13 +131,13 @@ where
 					// If active context contains a term definition for prefix having a non-null IRI
 					// mapping and the prefix flag of the term definition is true, return the result
 					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
+					let prefix_key = Key::from(prefix.to_string());
 					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
 						if term_definition.prefix {
 							if let Some(mapping) = &term_definition.value {
 								let mut result =
 									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
+								result.push_str(suffix);
 
 								return Ok(Some(Term::Id(Id::from_string_in(
 									env.vocabulary,
@@ -151,6 +151,11 @@ where
 				if let Ok(iri) = Iri::new(value) {
 					return Ok(Some(Term::Id(Id::iri(env.vocabulary.insert(iri)))));
 				}
+
+				if split_compact_iri(value).is_none() {
+					// Neither a compact IRI nor a term: return value as is.
+					return Ok(Some(invalid_iri(&mut env, value.to_string())));
+				}
 			}
 
 			// If vocab is true, and active context has a vocabulary mapping, return the result of
@@ -197,6 +202,16 @@ where
 	}
 }
 
+/// Splits the given value into the prefix and suffix of a compact IRI, unless
+/// it can only be an IRI or a blank node identifier.
+///
+/// Any term can be used as a prefix, even if it is not a valid IRI scheme.
+pub(crate) fn split_compact_iri(value: &str) -> Option<(&str, &str)> {
+	value
+		.split_once(':')
+		.filter(|(prefix, suffix)| *prefix != "_" && !suffix.starts_with("//"))
+}
+
 fn invalid_iri<N, L, W: json_ld_core::warning::Handler<N, Warning>>(
 	env: &mut Environment<N, L, W>,
 	value: String,
@@ -282,17 +297,17 @@ where
 					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
 				}
 
-				if let Ok(compact_iri) = CompactIri::new(value) {
+				if let Some((prefix, suffix)) = split_compact_iri(value) {
 					// If active context contains a term definition for prefix having a non-null IRI
 					// mapping and the prefix flag of the term definition is true, return the result
 					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
+					let prefix_key = Key::from(prefix.to_string());
 					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
 						if term_definition.prefix {
 							if let Some(mapping) = &term_definition.value {
 								let mut result =
 									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
+								result.push_str(suffix);
 
 								return Ok(Some(Term::Id(Id::from_string_in(
 									env.vocabulary,
@@ -306,6 +321,11 @@ where
 				if let Ok(iri) = Iri::new(value) {
 					return Ok(Some(Term::Id(Id::iri(env.vocabulary.insert(iri)))));
 				}
+
+				if split_compact_iri(value).is_none() {
+					// Neither a compact IRI nor a term: return value as is.
+					return Ok(Some(invalid_iri_simple(env, value.to_string())));
+				}
 			}
 
 			// If vocab is true, and active context has a vocabulary mapping, return the result of
-- 
2.43.0

