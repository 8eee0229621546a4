From ec84175108c0afea8bbb996ae9b203f11e6893cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:12 +0000
Subject: [PATCH 01/51] fix: round nth quotients towards floor/ceil when they
 truncate to zero

divide_isize decided the rounding from the truncated quotient, so -1/2 was
floored to 0 and 1/2 was ceiled to 0; :nth-child(2n+2) on a single child and
:nth-child(4n-1) then indexed out of bounds.
---
 src/mesdoc/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/utils.rs b/src/mesdoc/utils.rs
index 608f430..7643cd6 100644
--- a/src/mesdoc/utils.rs
+++ b/src/mesdoc/utils.rs
@@ -85,14 +85,14 @@ pub fn divide_isize(a: isize, b: isize, round: RoundType) -> isize {
 	use RoundType::*;
 	match round {
 		Floor => {
-			// -∞ -> 0
-			if res < 0 && remainder != 0 {
+			// -∞ -> 0, the quotient may already be truncated to 0, so use the operands' signs
+			if remainder != 0 && (a < 0) != (b < 0) {
 				res -= 1;
 			}
 		}
 		Ceil => {
-			// 0 -> ∞
-			if res > 0 && remainder != 0 {
+			// 0 -> ∞, the quotient may already be truncated to 0, so use the operands' signs
+			if remainder != 0 && (a < 0) == (b < 0) {
 				res += 1;
 			}
 		}
-- 
2.43.0


From b659a271218065379f6b42699aaebad9e6a5f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:13 +0000
Subject: [PATCH 02/51] fix: keep the rest of the second set when Elements::add
 uses up the first set

---
 src/mesdoc/interface/elements.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b37d7df..26ffcee 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2672,6 +2672,12 @@ impl<'a> Elements<'a> {
 					// move forward both
 					sec_left_index += 1;
 					fir_left_index += 1;
+					if fir_left_index > fir_right_index {
+						// the first is used up, the left second are all behind first right
+						for index in sec_left_index..=sec_right_index {
+							mids.push((index, fir_left_index));
+						}
+					}
 				}
 				Ordering::Greater => {
 					// second left is behind first left
@@ -2723,7 +2729,7 @@ impl<'a> Elements<'a> {
 						}
 						Ordering::Equal => {
 							// equal to first right, now all the second after current is behind first right
-							let cur_fir_index = sec_right_index + 1;
+							let cur_fir_index = fir_right_index + 1;
 							for index in sec_left_index + 1..=sec_right_index {
 								mids.push((index, cur_fir_index));
 							}
-- 
2.43.0


From 150b349b5ee78c41137804bec715ae7ee4d8d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 03/51] fix: keep results in document order when the context
 elements are nested or siblings

---
 src/mesdoc/interface/elements.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 26ffcee..4e7e327 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -906,6 +906,13 @@ impl<'a> Elements<'a> {
 				result = matcher.apply(elements, None);
 			}
 		};
+		// when the context elements are nested or are siblings, what they reach may interleave or overlap
+		if elements.length() > 1
+			&& result.length() > 1
+			&& !matches!(cur_comb, ChildrenAll | ParentAll | Chain)
+		{
+			result.sort_and_unique();
+		}
 		result
 	}
 
-- 
2.43.0


From 158b9c5c75ffdbc3b788c9e9cda68acb19902c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:19 +0000
Subject: [PATCH 04/51] fix: an id selector applied to children must only match
 those children

---
 src/mesdoc/rules/id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/id.rs b/src/mesdoc/rules/id.rs
index 13cf2b7..c8755f1 100644
--- a/src/mesdoc/rules/id.rs
+++ b/src/mesdoc/rules/id.rs
@@ -16,7 +16,7 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 				let id = data[1].chars.iter().collect::<String>();
 				Matcher {
 					all_handle: Some(Box::new(move |eles: &Elements, use_cache: Option<bool>| {
-						let use_cache = use_cache.is_some();
+						let use_cache = use_cache.unwrap_or(false);
 						let mut result = Elements::with_capacity(1);
 						if !eles.is_empty() {
 							let first_ele = eles
-- 
2.43.0


From 33f538cfd335ed0c826ad13c1ac9d29f5f715202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:49 +0000
Subject: [PATCH 05/51] fix: closest, siblings and the until methods must not
 drop the ancestors of a complex selector

---
 src/mesdoc/interface/elements.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 4e7e327..6c30236 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -520,13 +520,14 @@ impl<'a> Elements<'a> {
 		contains: bool,
 		comb: Combinator,
 	) -> Elements<'a> {
-		let selector = selector.parse::<Selector>();
+		// the filter handles don't use lookup
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = &selector {
 			let segment = Selector::make_comb_all(comb);
 			let next_selector = Selector::from_segment(segment);
 			let mut result = Elements::with_capacity(DEF_NODES_LEN);
 			let (next_ok, filter) = if !filter.is_empty() {
-				let filter = filter.parse::<Selector>();
+				let filter = Selector::from_str(filter, false);
 				if let Ok(filter) = filter {
 					(true, Some(filter))
 				} else {
@@ -1532,12 +1533,11 @@ impl<'a> Elements<'a> {
 			child_selector = Selector::from_segment(Selector::make_comb_all(child_comb));
 		} else {
 			// self
-			let sib_selector = selector.parse::<Selector>();
+			let sib_selector = Selector::from_str(selector, false);
 			if let Ok(sib_selector) = sib_selector {
 				// clone the selector to a child selector
-				child_selector = selector
-					.parse::<Selector>()
-					.expect("The selector has detected");
+				child_selector =
+					Selector::from_str(selector, false).expect("The selector has detected");
 				child_selector.head_combinator(child_comb);
 				// use siblings selector
 				siblings_selector = sib_selector;
@@ -1730,7 +1730,7 @@ impl<'a> Elements<'a> {
 		}
 		// find the nearst node
 		const METHOD: &str = "closest";
-		let selector = selector.parse::<Selector>();
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = selector {
 			let total = self.length();
 			let mut result = Elements::with_capacity(total);
-- 
2.43.0


From 5ddfcab0818977795f127373b3476edd43ecc9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:53 +0000
Subject: [PATCH 06/51] fix: last of an empty set and slice with an empty or
 maximal range must not panic

---
 src/mesdoc/interface/elements.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 6c30236..9a5aa6a 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2528,7 +2528,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn last(&self) -> Elements<'a> {
-		self.eq(self.length() - 1)
+		self.eq(self.length().saturating_sub(1))
 	}
 
 	/// Get a subset specified by a range of indices.
@@ -2591,12 +2591,16 @@ impl<'a> Elements<'a> {
 				}
 			}
 			Bound::Included(&cur_end) => {
-				let cur_end = cur_end + 1;
+				let cur_end = cur_end.saturating_add(1);
 				if cur_end < end {
 					end = cur_end;
 				}
 			}
 		}
+		if start >= end {
+			// empty
+			return Elements::new();
+		}
 		let mut result = Elements::with_capacity(end - start);
 		let eles = self.get_ref();
 		for ele in &eles[start..end] {
-- 
2.43.0


From de6ed9dd7695d4a26ce8227f23e83791dcd9756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:57 +0000
Subject: [PATCH 07/51] fix: next_until and prev_until must consider every
 element of the set

---
 src/mesdoc/interface/elements.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 9a5aa6a..dce8d81 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1373,14 +1373,11 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn prev_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		let uniques = self.unique_sibling_last();
+		// each sibling may stop at a different element, so all of them are needed
 		let mut result =
-			uniques.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
-		// should reverse the result when length > 1
-		// because the prevs executed from last to first
-		if result.length() > 1 {
-			result.get_mut_ref().reverse();
-		}
+			self.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
+		// the prevs executed from last to first, and the siblings may share them
+		result.sort_and_unique();
 		result
 	}
 
@@ -1485,9 +1482,12 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn next_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		// unique, keep the first sibling node
-		let uniques = self.unique_sibling_first();
-		uniques.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
+		// each sibling may stop at a different element, so all of them are needed
+		let mut result =
+			self.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next);
+		// the siblings may share the nexts
+		result.sort_and_unique();
+		result
 	}
 
 	/// Get the siblings of each element in Elements, when the selector is not empty, will filtered by the selector.
-- 
2.43.0


From f2722ba4633d9482826e038101a39b06a466aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:52 +0000
Subject: [PATCH 08/51] fix: nth-last selectors must not underflow on elements
 without child nodes

---
 src/mesdoc/rules/pseudo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 0a3dbda..f30d7f8 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -172,6 +172,9 @@ fn make_asc_or_desc_nth_child_specified(asc: bool, index: isize) -> MatchSpecifi
 		} else {
 			Box::new(move |ele, mut callback| {
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
@@ -528,6 +531,9 @@ fn make_asc_or_desc_nth_of_type_specified(asc: bool, index: isize) -> MatchSpeci
 				let mut node_indexs: Vec<usize> = Vec::with_capacity(DEF_NODES_LEN);
 				// total
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
-- 
2.43.0


From 937f929ca132158ceb522321ae0cb747a7a4cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:37 +0000
Subject: [PATCH 09/51] fix: attribute selectors must tell a missing attribute
 from an empty one

---
 src/mesdoc/rules/attr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/rules/attr.rs b/src/mesdoc/rules/attr.rs
index 717364e..99bceea 100644
--- a/src/mesdoc/rules/attr.rs
+++ b/src/mesdoc/rules/attr.rs
@@ -51,7 +51,8 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 								let attr_value: String = format!("{}-", attr_value);
 								v.starts_with(&attr_value)
 							}
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 						// in a value list that splitted by whitespaces
 						"~" => Box::new(move |val: &Option<IAttrValue>| match val {
@@ -66,15 +67,17 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 							}
 							_ => false,
 						}),
-						// has a attribute and who's value not equal to setted value
+						// no such attribute, or an attribute who's value not equal to setted value
 						"!" => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => attr_value != *v,
-							_ => !attr_value.is_empty(),
+							Some(IAttrValue::True) => !attr_value.is_empty(),
+							None => true,
 						}),
 						// equal to value
 						_ => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => *v == attr_value,
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 					}
 				}
-- 
2.43.0


From 319877b922a2d865df557d3232d21a9adc5f894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:24 +0000
Subject: [PATCH 10/51] fix: set_attribute on an existing attribute must choose
 the quote for the new value

---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b07cf4d..4f83243 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -708,9 +708,13 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			} else {
 				None
 			};
-			// find the attribute, just set the value
+			let quote = if value.is_some() { Some(quote) } else { None };
+			// find the attribute, just set the value, the new value may need another quote
 			if let Some(index) = find_index {
-				meta.borrow_mut().attrs[index].value = value;
+				let attr = &mut meta.borrow_mut().attrs[index];
+				attr.value = value;
+				attr.quote = quote;
+				attr.need_quote = need_quote;
 				return;
 			}
 			// new attribute, add it to the attrs and add a lowercase name to lc_name_map
@@ -718,7 +722,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			// insert name and index into name map
 			meta.borrow_mut().lc_name_map.insert(lc_name, index);
 			// add to attrs
-			let quote = if value.is_some() { Some(quote) } else { None };
 			meta.borrow_mut().attrs.push(Attr {
 				key: Some(AttrData {
 					content: name.chars().collect(),
-- 
2.43.0


From 049417f8aa08973f5fc1093ea1bd7cc9b5c96c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:29 +0000
Subject: [PATCH 11/51] fix: remove_attribute must forget the lowercase name of
 the attribute

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4f83243..4ec057a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -737,8 +737,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn remove_attribute(&mut self, name: &str) {
 		if let Some(meta) = &self.borrow().meta {
 			let mut find_index: Option<usize> = None;
+			let lc_name = name.to_ascii_lowercase();
 			if !meta.borrow().lc_name_map.is_empty() {
-				let lc_name = name.to_ascii_lowercase();
 				if let Some(&index) = meta.borrow().lc_name_map.get(&lc_name) {
 					find_index = Some(index);
 				}
@@ -747,7 +747,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// set attr data as null data
 				meta.borrow_mut().attrs[index] = Attr::default();
 				// remove name from names map
-				meta.borrow_mut().lc_name_map.remove(name);
+				meta.borrow_mut().lc_name_map.remove(&lc_name);
 			}
 		}
 	}
-- 
2.43.0


From 0fbf637009d41a57e9168fb9beb5eef71f085f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:52 +0000
Subject: [PATCH 12/51] fix: remove_class and toggle_class must remove exactly
 the given names in any order

---
 src/mesdoc/interface/elements.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index dce8d81..16a93a3 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -17,7 +17,7 @@ use crate::mesdoc::{
 };
 use crate::mesdoc::{
 	selector::rule::MatchSpecifiedHandle,
-	utils::{get_class_list, retain_by_index},
+	utils::get_class_list,
 };
 use std::collections::HashMap;
 use std::collections::HashSet;
@@ -3454,14 +3454,9 @@ impl<'a> Elements<'a> {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(class_list.len());
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						}
-					}
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
+					let orig_total = orig_class_list.len();
+					orig_class_list.retain(|name| !class_list.contains(name));
+					if orig_class_list.len() != orig_total {
 						ele.set_attribute(
 							ATTR_CLASS,
 							Some(class_list_to_string(&orig_class_list).as_str()),
@@ -3509,20 +3504,15 @@ impl<'a> Elements<'a> {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(total);
 					let mut added_class_list: Vec<Vec<char>> = Vec::with_capacity(total);
 					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						} else {
+						if !orig_class_list.contains(class_name) {
 							added_class_list.push(class_name.clone());
 						}
 					}
-					let mut need_set = false;
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
-						need_set = true;
-					}
+					let orig_total = orig_class_list.len();
+					orig_class_list.retain(|name| !class_list.contains(name));
+					let mut need_set = orig_class_list.len() != orig_total;
 					if !added_class_list.is_empty() {
 						orig_class_list.extend(added_class_list);
 						need_set = true;
-- 
2.43.0


From df9538b3fb2c6647f299022f89475cd00aa589ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:52 +0000
Subject: [PATCH 13/51] fix: a selector that ends in the middle of a rule must
 not panic

---
 src/mesdoc/selector/pattern.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 452a789..1349f3d 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -44,10 +44,9 @@ pub trait Pattern: Send + Sync + Debug {
 
 impl Pattern for char {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
-		let ch = chars[0];
-		if *self == ch {
+		if chars.first() == Some(self) {
 			return Some(Matched {
-				chars: vec![ch],
+				chars: vec![*self],
 				..Default::default()
 			});
 		}
@@ -92,7 +91,7 @@ pub struct Identity;
 impl Pattern for Identity {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let mut result: Vec<char> = Vec::with_capacity(5);
-		let first = chars[0];
+		let first = *chars.first()?;
 		let name: &str = "identity";
 		if !(first.is_ascii_alphabetic() || first == '_') {
 			return None;
-- 
2.43.0


From 384f4dfe5ba7114f9e0d5b028b30c6a9f8a9316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:56 +0000
Subject: [PATCH 14/51] fix: an invalid selector used on an empty set must not
 panic

---
 src/mesdoc/interface/elements.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 16a93a3..5e94d21 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -124,11 +124,8 @@ impl<'a> Elements<'a> {
 	}
 
 	pub(crate) fn trigger_method_throw_error(&self, method: &str, error: BoxDynError) {
-		if let Some(doc) = &self
-			.get(0)
-			.expect("Use index 0 when length > 0")
-			.owner_document()
-		{
+		// an empty set belongs to no document, there is no handler to call
+		if let Some(doc) = &self.get(0).and_then(|ele| ele.owner_document()) {
 			doc.trigger_error(Box::new(IError::MethodOnInvalidSelector {
 				method: String::from(method),
 				error: error.to_string(),
-- 
2.43.0


From d31d5cb35cc52ebea70cf2e65ecedd8adb53706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:24 +0000
Subject: [PATCH 15/51] fix: an unterminated or badly terminated nested
 selector must be an error, not a panic

---
 src/mesdoc/selector/mod.rs | 50 ++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index c5588ad..43d61e6 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -334,11 +334,12 @@ impl Selector {
 				if let Some((_, len, queue_num)) = r.exec(next_chars) {
 					let queues = &r.queues;
 					// find the rule
-					index += len;
 					if queue_num == queues.len() {
 						// push to selector
+						index += len;
 						finded = true;
-					} else {
+					} else if queues[queue_num].is_nested() {
+						index += len;
 						let (nest_count, _) = Selector::parse_until(
 							&chars[index..],
 							&queues[queue_num + 1..],
@@ -347,36 +348,37 @@ impl Selector {
 							level + 1,
 						)?;
 						index += nest_count;
+						finded = true;
 					}
 					break;
 				}
 			}
 			if !finded {
-				if level == 0 {
-					matched.push(Matched {
-						chars: chars[0..index].to_vec(),
-						name: "selector",
-						..Default::default()
-					});
-				}
-				if !until.is_empty() {
-					let (util_matched, count, queue_num, _) = exec(until, &chars[index..]);
-					if queue_num != until.len() {
-						let context = chars[index..].iter().collect::<String>();
-						return Err(Error::InvalidSelector {
-							context,
-							reason: format!("Nested selector parse error at index {}", index),
-						});
-					} else {
-						index += count;
-						if level == 0 {
-							matched.extend(util_matched);
-						}
-					}
-				}
 				break;
 			}
 		}
+		// the nested selector is end, now it must match the until patterns
+		if level == 0 {
+			matched.push(Matched {
+				chars: chars[0..index].to_vec(),
+				name: "selector",
+				..Default::default()
+			});
+		}
+		if !until.is_empty() {
+			let (util_matched, count, queue_num, _) = exec(until, &chars[index..]);
+			if queue_num != until.len() {
+				let context = chars[index..].iter().collect::<String>();
+				return Err(Error::InvalidSelector {
+					context,
+					reason: format!("Nested selector parse error at index {}", index),
+				});
+			}
+			index += count;
+			if level == 0 {
+				matched.extend(util_matched);
+			}
+		}
 		Ok((index, matched))
 	}
 }
-- 
2.43.0


From 4953775df11162f3c94a253a99052eb409b550fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:39 +0000
Subject: [PATCH 16/51] fix: an nth number that does not fit in an integer must
 not panic

---
 src/mesdoc/selector/pattern.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 1349f3d..0fe1aa5 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -259,6 +259,15 @@ impl Nth {
 		}
 		None
 	}
+	// parse a number matched by the rule, a number too large is limited to a value no list can reach
+	fn parse_number(num: &str) -> isize {
+		const LIMIT: isize = isize::MAX / 4;
+		match num.parse::<isize>() {
+			Ok(num) => num.clamp(-LIMIT, LIMIT),
+			_ if num.starts_with('-') => -LIMIT,
+			_ => LIMIT,
+		}
+	}
 	// get indexs allowed
 	pub fn get_allowed_indexs(
 		n: &Option<String>,
@@ -267,10 +276,10 @@ impl Nth {
 	) -> Vec<usize> {
 		// has n
 		if let Some(n) = n {
-			let n = n.parse::<isize>().unwrap();
+			let n = Nth::parse_number(n);
 			let index = index
 				.as_ref()
-				.map(|index| index.parse::<isize>().unwrap())
+				.map(|index| Nth::parse_number(index))
 				.unwrap_or(0);
 			// n == 0
 			if n == 0 {
@@ -332,9 +341,8 @@ impl Nth {
 		// only index
 		let index = index
 			.as_ref()
-			.expect("Nth must have 'index' value when 'n' is not setted.")
-			.parse::<isize>()
-			.expect("Nth's index is not a correct number");
+			.map(|index| Nth::parse_number(index))
+			.expect("Nth must have 'index' value when 'n' is not setted.");
 		if index <= 0 || index > (total as isize) {
 			return vec![];
 		}
-- 
2.43.0


From f97e3f7a8eae636960792995a9a30845ac2355b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:45 +0000
Subject: [PATCH 17/51] fix: an nth index that does not fit in an integer must
 not panic

---
 src/mesdoc/rules/pseudo.rs     | 3 +--
 src/mesdoc/selector/pattern.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index f30d7f8..4a3c63d 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -18,9 +18,8 @@ const PRIORITY: u32 = PRIORITY_PSEUDO_SELECTOR;
 fn nth_index_to_number(index: &Option<String>) -> isize {
 	index
 		.as_ref()
+		.map(|index| Nth::parse_number(index))
 		.expect("Nth's n and index must have one")
-		.parse::<isize>()
-		.expect("Nth's index is not ok")
 }
 
 /// Pseudo selector ":root"
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 0fe1aa5..bb0c2ae 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -260,7 +260,7 @@ impl Nth {
 		None
 	}
 	// parse a number matched by the rule, a number too large is limited to a value no list can reach
-	fn parse_number(num: &str) -> isize {
+	pub(crate) fn parse_number(num: &str) -> isize {
 		const LIMIT: isize = isize::MAX / 4;
 		match num.parse::<isize>() {
 			Ok(num) => num.clamp(-LIMIT, LIMIT),
-- 
2.43.0


From 0f5df3708cff318c44877c56334cd543d6d66474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:59 +0000
Subject: [PATCH 18/51] fix: an invalid nested selector must be reported when
 the selector is parsed

---
 src/mesdoc/selector/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index 43d61e6..d59b848 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -89,6 +89,17 @@ impl Selector {
 		}
 	}
 	pub fn from_str(context: &str, use_lookup: bool) -> Result<Self, Error> {
+		let splitter = SPLITTER.lock().unwrap();
+		let rules = RULES.lock().unwrap();
+		Selector::parse(context, use_lookup, &rules, &splitter)
+	}
+	// parse the selector with the locked rules
+	fn parse(
+		context: &str,
+		use_lookup: bool,
+		rules: &[(&str, Arc<Rule>)],
+		splitter: &[BoxDynPattern],
+	) -> Result<Self, Error> {
 		let chars: Vec<char> = context.chars().collect();
 		let total_len = chars.len();
 		let mut selector = Selector::new();
@@ -98,13 +109,11 @@ impl Selector {
 			let mut prev_in = PrevInSelector::Begin;
 			let mut last_in = prev_in;
 			let mut groups: SelectorGroups = Vec::new();
-			let splitter = SPLITTER.lock().unwrap();
-			let rules = RULES.lock().unwrap();
 			Selector::add_group(&mut groups);
 			while index < total_len {
 				let next_chars = &chars[index..];
 				// first check if combinator
-				if let Some((matched, len, _)) = Rule::exec_queues(&splitter, next_chars) {
+				if let Some((matched, len, _)) = Rule::exec_queues(splitter, next_chars) {
 					let op = matched[0].chars.iter().collect::<String>();
 					let op = op.trim();
 					if prev_in == PrevInSelector::Splitter {
@@ -167,10 +176,13 @@ impl Selector {
 							let (len, nested_matched) = Selector::parse_until(
 								&chars[index..],
 								&queues[queue_num + 1..],
-								&rules,
-								&splitter,
+								rules,
+								splitter,
 								0,
 							)?;
+							// the nested selector must also be a valid selector
+							let nested = nested_matched[0].chars.iter().collect::<String>();
+							Selector::parse(&nested, false, rules, splitter)?;
 							index += len;
 							matched.extend(nested_matched);
 							Selector::add_group_item(&mut groups, (r.make(matched), comb), is_new_item);
-- 
2.43.0


From 099adab2496bb3dac714a5b0eab15e4233e2c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:56 +0000
Subject: [PATCH 19/51] fix: a removed node keeps no parent and no index

---
 src/lib.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4ec057a..3cea40f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,15 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// nodes that left their parent are no one's childs any more
+fn detach_nodes(nodes: &[RefNode]) {
+	for node in nodes {
+		let mut node = node.borrow_mut();
+		node.parent = None;
+		node.index = 0;
+	}
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -398,14 +407,14 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		/// Remove a text node.
 		fn remove(self: Box<Self>) {
 			let index = self.index();
-			if let Some(parent) = &self.borrow_mut().parent {
-				if let Some(parent) = parent.upgrade() {
-					if let Some(childs) = &mut parent.borrow_mut().childs {
-						// remove the text node
-						childs.remove(index);
-						// change next siblings index
-						reset_next_siblings_index(index, &childs[index..]);
-					}
+			let parent = self.borrow().parent.as_ref().and_then(|parent| parent.upgrade());
+			if let Some(parent) = parent {
+				if let Some(childs) = &mut parent.borrow_mut().childs {
+					// remove the text node
+					let child = childs.remove(index);
+					detach_nodes(&[child]);
+					// change next siblings index
+					reset_next_siblings_index(index, &childs[index..]);
 				}
 			}
 		}
@@ -797,7 +806,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 							reset_next_siblings_index(index, &childs[index + 1..]);
 						}
 						// remove child
-						childs.remove(index);
+						let child = childs.remove(index);
+						detach_nodes(&[child]);
 					}
 				}
 			}
-- 
2.43.0


From 69fa77c2e578ef041c8652c80488af2ef7e31f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:21 +0000
Subject: [PATCH 20/51] fix: replace_with refuses the element itself and its
 ancestors, and detaches the replaced element

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3cea40f..5fb04f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -938,6 +938,14 @@ impl IElementTrait for Rc<RefCell<Node>> {
 		}
 		// replace with
 		fn replace_with(&mut self, node: &BoxDynElement){
+			// a node can't be replaced with itself or with a node that contains it
+			if !Dom::validate_dom_change(self, node, "replace with") {
+				return;
+			}
+			// no place to put the nodes
+			if self.parent().is_none() {
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			let mut replace_ele: Option<RefNode> = None;
@@ -991,6 +999,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 				}
+				// the replaced node has left its parent
+				detach_nodes(&[Rc::clone(self)]);
 				if let Some(replace_ele) = replace_ele {
 					*self = replace_ele;
 				}
-- 
2.43.0


From 3ca0def8188485e449b676dcd9a24b27538e4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:27 +0000
Subject: [PATCH 21/51] fix: inserting next to an element without parent
 doesn't lose the inserted node

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5fb04f1..a5a1c53 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -822,6 +822,12 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			if !Dom::validate_dom_change(self, node, action) {
 				return;
 			}
+			// no place next to a node without parent
+			if matches!(position, InsertPosition::BeforeBegin | InsertPosition::AfterEnd)
+				&& self.parent().is_none()
+			{
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			if let Ok(dom) = specified.downcast::<RefNode>() {
-- 
2.43.0


From 37aa15c4109823c7c6fdd6d981645e8fdaa1cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:33 +0000
Subject: [PATCH 22/51] fix: set_text and empty detach the old childs

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a5a1c53..3b91797 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -263,6 +263,10 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			INodeType::Element => {
 				let no_content_tag = !check_if_content_tag(&self.tag_names());
 				let mut node = self.borrow_mut();
+				// the old childs leave the element
+				if let (true, Some(childs)) = (no_content_tag, &node.childs) {
+					detach_nodes(childs);
+				}
 				if !content.is_empty() {
 					if no_content_tag {
 						// encode content
-- 
2.43.0


From bb6d8833c82652832f8e455e0e3055abc43f7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:01 +0000
Subject: [PATCH 23/51] fix: set_html doesn't panic on malformed html

---
 src/lib.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b91797..7762346 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -340,17 +340,13 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
-				let doc_holder = Doc::parse(
-					content,
-					ParseOptions {
-						auto_fix_unexpected_endtag: true,
-						auto_fix_unescaped_lt: true,
-						allow_self_closing: true,
-						allow_attr_key_starts_with_equal_sign: true,
-						..Default::default()
-					},
-				)
-				.unwrap();
+				let doc_holder = match Doc::parse(content, Vis::options()) {
+					Ok(doc_holder) => doc_holder,
+					Err(e) => {
+						Dom::halt(self, "set_html", &e.to_string());
+						return;
+					}
+				};
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
 					let has_not_allowed = remove_not_allowed_nodes(
-- 
2.43.0


From 38850e677d741a268f82c14115616c19a8a45164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:07 +0000
Subject: [PATCH 24/51] fix: set_html of a text node outside of any tag doesn't
 panic

---
 src/lib.rs | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7762346..c9b085e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -328,15 +328,13 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			_ => None,
 		};
 		if let Some(target) = &target {
-			if check_if_content_tag(
-				&target
-					.borrow()
-					.meta
-					.as_ref()
-					.expect("A tag use `set_html` must have a tag name.")
-					.borrow()
-					.name,
-			) {
+			// the abstract root node has no tag name
+			let tag_name = target
+				.borrow()
+				.meta
+				.as_ref()
+				.map_or_else(Vec::new, |meta| meta.borrow().name.clone());
+			if check_if_content_tag(&tag_name) {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
@@ -349,16 +347,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				};
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
-					let has_not_allowed = remove_not_allowed_nodes(
-						&target
-							.borrow()
-							.meta
-							.as_ref()
-							.expect("A tag use `set_html` must have a tag name.")
-							.borrow()
-							.name,
-						&mut nodes,
-					);
+					let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
 					let has_nodes = !nodes.is_empty();
 					if has_nodes {
 						// set nodes parent as target
-- 
2.43.0


From 94a27805106991794ceabaf8fae193c35e40ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:27 +0000
Subject: [PATCH 25/51] fix: set_html of a text node with empty html removes
 only that node

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c9b085e..04c8902 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -382,9 +382,14 @@ impl INodeTrait for Rc<RefCell<Node>> {
 					} else {
 						// text node's parent can't be empty
 					}
-				} else {
+				} else if is_element {
 					// empty html, just set childs to none
 					target.borrow_mut().childs = None;
+				} else if let Some(childs) = &mut target.borrow_mut().childs {
+					// empty html, just remove the text node
+					let index = self.index();
+					childs.remove(index);
+					reset_next_siblings_index(index, &childs[index..]);
 				}
 			}
 		}
-- 
2.43.0


From 26ad81da538fd5202444be9d6dbcec677ab258b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:34 +0000
Subject: [PATCH 26/51] fix: set_html detaches the replaced nodes

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 04c8902..b8daedd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -345,6 +345,12 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						return;
 					}
 				};
+				// the replaced nodes leave the target
+				if !is_element {
+					self.borrow_mut().parent = None;
+				} else if let Some(childs) = &target.borrow().childs {
+					detach_nodes(childs);
+				}
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
 					let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
-- 
2.43.0


From 993062873821e611d3f9d4862b678fdaf182251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:41 +0000
Subject: [PATCH 27/51] fix: append and before keep the order of the inserted
 elements

---
 src/mesdoc/interface/elements.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 5e94d21..7fcc43d 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3666,8 +3666,16 @@ impl<'a> Elements<'a> {
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
 			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.insert_adjacent(position, inserted);
+				let nodes = dest.get_ref();
+				// keep the order of the inserted elements
+				if matches!(position, InsertPosition::BeforeBegin | InsertPosition::BeforeEnd) {
+					for inserted in nodes {
+						ele.insert_adjacent(position, inserted);
+					}
+				} else {
+					for inserted in nodes.iter().rev() {
+						ele.insert_adjacent(position, inserted);
+					}
 				}
 			}
 		}
-- 
2.43.0


From fdf039c3b3ade46d332eb5ffa536fb42c3c4b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:46 +0000
Subject: [PATCH 28/51] fix: the nodes of an inserted fragement leave the
 fragement

---
 src/lib.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b8daedd..4b16b8a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -833,13 +833,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			if let Ok(dom) = specified.downcast::<RefNode>() {
 				// get the nodes
 				let mut nodes = match node_type {
-					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
-						} else {
-							vec![]
-						}
-					}
+					// the nodes move out of the fragement
+					INodeType::DocumentFragement => dom.borrow_mut().childs.take().unwrap_or_default(),
 					_ => {
 						// remove current node from parent's childs
 						if let Some(parent) = &mut node.parent() {
@@ -959,14 +954,12 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// get the nodes
 				let nodes = match node_type {
 					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
-							if childs.len() == 1 {
-								replace_ele = Some(Rc::clone(&childs[0]));
-							}
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
-						} else {
-							vec![]
+						// the nodes move out of the fragement
+						let childs = dom.borrow_mut().childs.take().unwrap_or_default();
+						if childs.len() == 1 {
+							replace_ele = Some(Rc::clone(&childs[0]));
 						}
+						childs
 					}
 					_ => {
 						// remove current node from parent's childs
-- 
2.43.0


From 9fdaf1ab431eb5d01289d8563b67ade1b9874bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:20 +0000
Subject: [PATCH 29/51] fix: replace_with puts no text node into the elements
 set

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b16b8a..7fc044d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -956,7 +956,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 					INodeType::DocumentFragement => {
 						// the nodes move out of the fragement
 						let childs = dom.borrow_mut().childs.take().unwrap_or_default();
-						if childs.len() == 1 {
+						if childs.len() == 1 && matches!(childs[0].node_type(), INodeType::Element) {
 							replace_ele = Some(Rc::clone(&childs[0]));
 						}
 						childs
-- 
2.43.0


From 17631881093002ea77952b394530654c18e776ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:24 +0000
Subject: [PATCH 30/51] fix: an element that is not allowed as a child stays
 where it is

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7fc044d..075405e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -836,6 +836,12 @@ impl IElementTrait for Rc<RefCell<Node>> {
 					// the nodes move out of the fragement
 					INodeType::DocumentFragement => dom.borrow_mut().childs.take().unwrap_or_default(),
 					_ => {
+						// a node that is not allowed here stays where it is
+						if matches!(position, InsertPosition::AfterBegin | InsertPosition::BeforeEnd)
+							&& !allow_insert(&self.tag_names(), dom.borrow().node_type)
+						{
+							return;
+						}
 						// remove current node from parent's childs
 						if let Some(parent) = &mut node.parent() {
 							parent.remove_child(node.cloned());
-- 
2.43.0


From db43a41e354f0a1a070846fe916ba5f08f8ff466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:30 +0000
Subject: [PATCH 31/51] fix: copying an element with inserted content doesn't
 overflow

---
 src/lib.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 075405e..020a7d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -132,6 +132,32 @@ fn detach_nodes(nodes: &[RefNode]) {
 	}
 }
 
+// copy a node with its childs, the positions in the source code are kept,
+// since they have no order any more when nodes were inserted or moved
+fn copy_ref_node(node: &RefNode) -> RefNode {
+	let node = node.borrow();
+	let copied = Rc::new(RefCell::new(Node {
+		node_type: node.node_type,
+		begin_at: node.begin_at,
+		end_at: node.end_at,
+		end_tag: node.end_tag.as_ref().map(copy_ref_node),
+		root: node.root.clone(),
+		document: node.document.clone(),
+		content: node.content.clone(),
+		meta: node.meta.clone(),
+		..Default::default()
+	}));
+	if let Some(childs) = &node.childs {
+		let childs = childs.iter().map(copy_ref_node).collect::<Vec<RefNode>>();
+		reset_next_siblings_index(0, &childs);
+		for child in &childs {
+			child.borrow_mut().parent = Some(Rc::downgrade(&copied));
+		}
+		copied.borrow_mut().childs = Some(childs);
+	}
+	copied
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -172,7 +198,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl standard semantics `clone_node` method
 	fn copy_node<'b>(&self) -> BoxDynNode<'b> {
-		Box::new(self.borrow().clone_node())
+		Box::new(copy_ref_node(self))
 	}
 
 	/// impl `typed`
-- 
2.43.0


From 697d2abf06ba9a84a25465b1292dc0cb66f83f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:50 +0000
Subject: [PATCH 32/51] fix: replace_with puts all the given elements in place

---
 src/mesdoc/interface/elements.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 7fcc43d..4d3d26c 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3682,8 +3682,11 @@ impl<'a> Elements<'a> {
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
 			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.replace_with(inserted);
+				if let Some((last, others)) = dest.get_ref().split_last() {
+					for inserted in others {
+						ele.insert_adjacent(&InsertPosition::BeforeBegin, inserted);
+					}
+					ele.replace_with(last);
 				}
 			}
 		}
-- 
2.43.0


From 3a44f87bcd575f5cd3697c60041ff6e9952507d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:56 +0000
Subject: [PATCH 33/51] fix: inserting into several targets gives each target
 its own nodes

---
 src/mesdoc/interface/elements.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 4d3d26c..b713483 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3665,8 +3665,11 @@ impl<'a> Elements<'a> {
 	cfg_feat_insertion! {
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
-			for ele in self.get_mut_ref() {
-				let nodes = dest.get_ref();
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				// each target except the last one gets a copy
+				let copies = copies_unless_last(dest, index, total);
+				let nodes = copies.as_ref().unwrap_or_else(|| dest.get_ref());
 				// keep the order of the inserted elements
 				if matches!(position, InsertPosition::BeforeBegin | InsertPosition::BeforeEnd) {
 					for inserted in nodes {
@@ -3681,8 +3684,12 @@ impl<'a> Elements<'a> {
 		}
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
-			for ele in self.get_mut_ref() {
-				if let Some((last, others)) = dest.get_ref().split_last() {
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				// each target except the last one gets a copy
+				let copies = copies_unless_last(dest, index, total);
+				let nodes = copies.as_ref().unwrap_or_else(|| dest.get_ref());
+				if let Some((last, others)) = nodes.split_last() {
 					for inserted in others {
 						ele.insert_adjacent(&InsertPosition::BeforeBegin, inserted);
 					}
@@ -3859,6 +3866,21 @@ impl<'a> Elements<'a> {
 	}
 }
 
+cfg_feat_insertion! {
+	// copies of the elements, if the target is not the last one
+	fn copies_unless_last<'a>(
+		dest: &Elements<'a>,
+		index: usize,
+		total: usize,
+	) -> Option<Vec<BoxDynElement<'a>>> {
+		if index + 1 < total {
+			Some(dest.get_ref().iter().map(|ele| ele.copied()).collect())
+		} else {
+			None
+		}
+	}
+}
+
 impl<'a> IntoIterator for Elements<'a> {
 	type Item = BoxDynElement<'a>;
 	type IntoIter = Box<dyn Iterator<Item = Self::Item> + 'a>;
-- 
2.43.0


From 546f2532dc7fa7e8acd24151a0b99747d0216df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:27 +0000
Subject: [PATCH 34/51] fix: append_text and prepend_text don't panic on an
 emptied content tag

---
 src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 020a7d8..86f4087 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -448,21 +448,21 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		// append text
 		fn append_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
-				content.extend(chars);
-			} else {
-				self.borrow_mut().content = Some(chars);
-			}
+			self
+				.borrow_mut()
+				.content
+				.get_or_insert_with(Vec::new)
+				.extend(chars);
 		}
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
-				content.splice(0..0, chars);
-			} else {
-				self.borrow_mut().content = Some(chars);
-			}
+			self
+				.borrow_mut()
+				.content
+				.get_or_insert_with(Vec::new)
+				.splice(0..0, chars);
 		}
 	}
 }
-- 
2.43.0


From 5ce7547712d13b7f770f6bb1f77e1427132fd8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:18 +0000
Subject: [PATCH 35/51] fix: entities in title and textarea are decoded, not
 encoded twice

---
 src/lib.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 86f4087..8ffaba7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,7 +29,7 @@ use mesdoc::utils::is_equal_chars;
 use mesdoc::{error::Error as IError, utils::retain_by_index};
 use rphtml::{
 	config::RenderOptions,
-	entity::{encode, encode_char, CharacterSet, EncodeType, ICodedDataTrait},
+	entity::{decode_chars, encode, encode_char, CharacterSet, EncodeType, ICodedDataTrait},
 	parser::{
 		allow_insert, is_content_tag, Attr, AttrData, Doc, DocHolder, NameCase, Node, NodeType, RefNode,
 	},
@@ -173,6 +173,33 @@ fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool
 	now_allowed_len > 0 && now_allowed_len != orig_len
 }
 
+// parse the html, the texts in `title` and `textarea` are kept decoded,
+// as `set_text` does: they are encoded when the html is rendered
+fn parse_html(content: &str, options: ParseOptions) -> Result<DocHolder, BoxDynError> {
+	let doc = Doc::parse(content, options)?;
+	if content.contains('&') {
+		let mut nodes = vec![doc.get_root_node()];
+		while let Some(node) = nodes.pop() {
+			let tag_name = node
+				.borrow()
+				.meta
+				.as_ref()
+				.map_or_else(String::new, |meta| meta.borrow().name.iter().collect());
+			let mut node = node.borrow_mut();
+			if tag_name.eq_ignore_ascii_case("title") || tag_name.eq_ignore_ascii_case("textarea") {
+				node.content = node
+					.content
+					.as_ref()
+					.map(|content| decode_chars(content).into_owned());
+			}
+			if let Some(childs) = &node.childs {
+				nodes.extend(childs.iter().map(Rc::clone));
+			}
+		}
+	}
+	Ok(doc)
+}
+
 fn check_if_content_tag(name: &[char]) -> bool {
 	is_content_tag(name, &Some(NameCase::Lower))
 }
@@ -364,7 +391,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
-				let doc_holder = match Doc::parse(content, Vis::options()) {
+				let doc_holder = match parse_html(content, Vis::options()) {
 					Ok(doc_holder) => doc_holder,
 					Err(e) => {
 						Dom::halt(self, "set_html", &e.to_string());
@@ -1280,7 +1307,7 @@ impl Vis {
 		options: ParseOptions,
 	) -> Result<Document, BoxDynError> {
 		mesdoc::init();
-		let doc = Doc::parse(&html.into(), options)?;
+		let doc = parse_html(&html.into(), options)?;
 		Ok(Document { doc })
 	}
 	/// load the html with options, get an elements collection
-- 
2.43.0


From 291095e5b5c7373e02938877c5e27b9e192b57bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:24 +0000
Subject: [PATCH 36/51] fix: text set to a text node is encoded, it never
 becomes markup

---
 src/lib.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8ffaba7..fd6b986 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -200,6 +200,26 @@ fn parse_html(content: &str, options: ParseOptions) -> Result<DocHolder, BoxDynE
 	Ok(doc)
 }
 
+fn encode_text(content: &str) -> Vec<char> {
+	encode(
+		content.as_bytes(),
+		&EncodeType::NamedOrDecimal,
+		&CharacterSet::Html,
+	)
+	.to_chars()
+	.unwrap()
+}
+
+cfg_feat_text! {
+	// a text node holds encoded text, a content tag the text itself
+	fn text_node_chars(node: &RefNode, content: &str) -> Vec<char> {
+		match node.node_type() {
+			INodeType::Text => encode_text(content),
+			_ => content.chars().collect::<Vec<char>>(),
+		}
+	}
+}
+
 fn check_if_content_tag(name: &[char]) -> bool {
 	is_content_tag(name, &Some(NameCase::Lower))
 }
@@ -323,12 +343,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				if !content.is_empty() {
 					if no_content_tag {
 						// encode content
-						let content = encode(
-							content.as_bytes(),
-							&EncodeType::NamedOrDecimal,
-							&CharacterSet::Html,
-						);
-						let mut text_node = Node::create_text_node(content.to_chars().unwrap(), None);
+						let mut text_node = Node::create_text_node(encode_text(content), None);
 						// set text node parent
 						text_node.parent = Some(Rc::downgrade(self));
 						// set childs
@@ -352,7 +367,11 @@ impl INodeTrait for Rc<RefCell<Node>> {
           );
 				} else {
 					// replace the text content
-					self.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
+					let content = match node_type {
+						INodeType::Text => encode_text(content),
+						_ => content.chars().collect::<Vec<char>>(),
+					};
+					self.borrow_mut().content = Some(content);
 				}
 			}
 			_ => {
@@ -474,7 +493,7 @@ impl ITextTrait for Rc<RefCell<Node>> {
 
 		// append text
 		fn append_text(&mut self, content: &str) {
-			let chars = content.chars().collect::<Vec<char>>();
+			let chars = text_node_chars(self, content);
 			self
 				.borrow_mut()
 				.content
@@ -484,7 +503,7 @@ impl ITextTrait for Rc<RefCell<Node>> {
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
-			let chars = content.chars().collect::<Vec<char>>();
+			let chars = text_node_chars(self, content);
 			self
 				.borrow_mut()
 				.content
-- 
2.43.0


From f0fe15b1ee301bd5741b8623afb8bd4175e34497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:36 +0000
Subject: [PATCH 37/51] fix: Texts::filter_by doesn't panic on the text of a
 content tag

---
 src/mesdoc/interface/texts.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/texts.rs b/src/mesdoc/interface/texts.rs
index 93ffc4b..8728c0b 100644
--- a/src/mesdoc/interface/texts.rs
+++ b/src/mesdoc/interface/texts.rs
@@ -1,5 +1,5 @@
 
-use super::BoxDynText;
+use super::{BoxDynText, IEnumTyped};
 
 pub struct Texts<'a> {
 	nodes: Vec<BoxDynText<'a>>,
@@ -54,13 +54,15 @@ impl<'a> Texts<'a> {
 		let mut result: Texts = Texts::with_capacity(self.length());
 		for (index, ele) in self.get_ref().iter().enumerate() {
 			if handle(index, ele) {
-				result.get_mut_ref().push(
-					ele
-						.clone_node()
-						.typed()
-						.into_text()
-						.expect("Text ele must can use 'into_text'."),
-				);
+				let text = match ele.clone_node().typed() {
+					IEnumTyped::Text(text) => Some(text),
+					// the content tags, such as title and textarea
+					IEnumTyped::Element(content_tag) => content_tag.into_text().ok(),
+					_ => None,
+				};
+				result
+					.get_mut_ref()
+					.push(text.expect("Text ele must can use 'into_text'."));
 			}
 		}
 		result
-- 
2.43.0


From ea0792b95c96692c214b5e4058c3c017b6c4ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:55 +0000
Subject: [PATCH 38/51] fix: an unfinished tag at the end of the html doesn't
 make later calls panic

---
 src/lib.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fd6b986..ff7f1b0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -173,10 +173,33 @@ fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool
 	now_allowed_len > 0 && now_allowed_len != orig_len
 }
 
+// the html may end within the name of a tag, such a tag is not an element
+fn remove_unfinished_node(root: &RefNode) {
+	let mut node = Rc::clone(root);
+	loop {
+		let last = match node.borrow().childs.as_ref().and_then(|childs| childs.last()) {
+			Some(last) => Rc::clone(last),
+			None => break,
+		};
+		let is_unfinished = matches!(
+			last.borrow().node_type,
+			NodeType::Tag | NodeType::HTMLDOCTYPE
+		) && last.borrow().meta.is_none();
+		if is_unfinished {
+			if let Some(childs) = &mut node.borrow_mut().childs {
+				childs.pop();
+			}
+			break;
+		}
+		node = last;
+	}
+}
+
 // parse the html, the texts in `title` and `textarea` are kept decoded,
 // as `set_text` does: they are encoded when the html is rendered
 fn parse_html(content: &str, options: ParseOptions) -> Result<DocHolder, BoxDynError> {
 	let doc = Doc::parse(content, options)?;
+	remove_unfinished_node(&doc.get_root_node());
 	if content.contains('&') {
 		let mut nodes = vec![doc.get_root_node()];
 		while let Some(node) = nodes.pop() {
-- 
2.43.0


From 5975712967a30b9b418b341296e49f6f50efdb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 39/51] fix: the html of a document without exactly one root
 tag doesn't panic

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ff7f1b0..3acf644 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -858,11 +858,19 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	/// impl `inner_html`
 	fn inner_html(&self) -> String {
+		// the inner html of a root is that of its only tag, or else all the content
+		let inner_html = !self.is_root_element()
+			|| self.borrow().childs.as_ref().map_or(true, |childs| {
+				childs
+					.iter()
+					.filter(|child| matches!(child.borrow().node_type, NodeType::Tag))
+					.count() == 1
+			});
 		self
 			.borrow()
 			.build(
 				&RenderOptions {
-					inner_html: true,
+					inner_html,
 					encode_content: true,
 					..Default::default()
 				},
-- 
2.43.0


From cdd17527545a8a922ef630c6980996f0a735bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:05 +0000
Subject: [PATCH 40/51] fix: the text of a document has no markup

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3acf644..94b4b08 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,6 +331,17 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl `text_contents`
 	fn text_contents(&self) -> Vec<char> {
+		// the text of a root is the text of its texts and tags
+		if self.is_root_element() {
+			let node = self.borrow();
+			return node.childs.as_ref().map_or_else(Vec::new, |childs| {
+				childs
+					.iter()
+					.filter(|child| matches!(child.node_type(), INodeType::Text | INodeType::Element))
+					.flat_map(|child| child.text_contents())
+					.collect()
+			});
+		}
 		self.borrow().build(
 			&RenderOptions {
 				decode_entity: true,
-- 
2.43.0


From 959b7982d8c67b1b9a98377d73ec76e92e2d1bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 41/51] fix: set_html of title and textarea reads entities as
 loading does

---
 src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 94b4b08..39abe55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -207,9 +207,9 @@ fn parse_html(content: &str, options: ParseOptions) -> Result<DocHolder, BoxDynE
 				.borrow()
 				.meta
 				.as_ref()
-				.map_or_else(String::new, |meta| meta.borrow().name.iter().collect());
+				.map_or_else(Vec::new, |meta| meta.borrow().name.clone());
 			let mut node = node.borrow_mut();
-			if tag_name.eq_ignore_ascii_case("title") || tag_name.eq_ignore_ascii_case("textarea") {
+			if is_plain_text_tag(&tag_name) {
 				node.content = node
 					.content
 					.as_ref()
@@ -223,6 +223,12 @@ fn parse_html(content: &str, options: ParseOptions) -> Result<DocHolder, BoxDynE
 	Ok(doc)
 }
 
+// `title` or `textarea`
+fn is_plain_text_tag(name: &[char]) -> bool {
+	let name = name.iter().collect::<String>();
+	name.eq_ignore_ascii_case("title") || name.eq_ignore_ascii_case("textarea")
+}
+
 fn encode_text(content: &str) -> Vec<char> {
 	encode(
 		content.as_bytes(),
@@ -442,7 +448,12 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				.map_or_else(Vec::new, |meta| meta.borrow().name.clone());
 			if check_if_content_tag(&tag_name) {
 				// content tag, just set html as content, no need encode
-				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
+				let mut chars = content.chars().collect::<Vec<char>>();
+				// the texts in `title` and `textarea` are kept decoded
+				if is_plain_text_tag(&tag_name) {
+					chars = decode_chars(&chars).into_owned();
+				}
+				target.borrow_mut().content = Some(chars);
 			} else {
 				let doc_holder = match parse_html(content, Vis::options()) {
 					Ok(doc_holder) => doc_holder,
-- 
2.43.0


From ed61d2370ee825551036830f3f89ded3641a1169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 42/51] fix: a title, textarea, script or style with content
 isn't :empty

---
 src/mesdoc/rules/pseudo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 4a3c63d..0388dcf 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -77,7 +77,8 @@ fn pseudo_empty(rules: &mut Vec<RuleItem>) {
 			one_handle: Some(Box::new(|ele, _| {
 				let child_nodes = ele.child_nodes();
 				if child_nodes.is_empty() {
-					return true;
+					// tags such as title and script hold a text without child nodes
+					return ele.text_contents().is_empty();
 				}
 				let mut only_comments = true;
 				for node in child_nodes {
-- 
2.43.0


From c757c58de5b81c11e7ed754d8bfbbc5edbc7a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 43/51] fix: the default option isn't :checked when an optgroup
 before it has a selected option

---
 src/mesdoc/rules/pseudo.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 0388dcf..d1e5f01 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -992,13 +992,8 @@ fn pseudo_checked(rules: &mut Vec<RuleItem>) {
 									}
 									false
 								}
-								// check the next siblings
-								let mut next = ele.next_element_sibling();
-								while let Some(next_ele) = &next {
-									if check_selected_option(next_ele, &option_tag) {
-										return false;
-									}
-									next = next_ele.next_element_sibling();
+								if check_selected_option(parent, &option_tag) {
+									return false;
 								}
 								// now the option is default option
 								return true;
-- 
2.43.0


From 1f2cd42e737288d5c7fb26d28dd8ab03949816f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:01 +0000
Subject: [PATCH 44/51] fix: an id selector matches the ids the elements have
 now

---
 src/mesdoc/rules/id.rs | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/mesdoc/rules/id.rs b/src/mesdoc/rules/id.rs
index c8755f1..e08775d 100644
--- a/src/mesdoc/rules/id.rs
+++ b/src/mesdoc/rules/id.rs
@@ -2,7 +2,7 @@ use crate::mesdoc::selector::rule::{Matcher, Rule, RuleItem};
 use crate::mesdoc::selector::MatchedQueue;
 use crate::mesdoc::{
 	constants::{NAME_SELECTOR_ID, PRIORITY_ID_SELECTOR},
-	interface::Elements,
+	interface::IAttrValue,
 };
 
 pub fn init(rules: &mut Vec<RuleItem>) {
@@ -11,36 +11,13 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 		context: "#{identity}",
 		rule: Rule {
 			priority: PRIORITY_ID_SELECTOR,
-			in_cache: true,
+			in_cache: false,
 			handle: Box::new(|data: MatchedQueue| {
 				let id = data[1].chars.iter().collect::<String>();
 				Matcher {
-					all_handle: Some(Box::new(move |eles: &Elements, use_cache: Option<bool>| {
-						let use_cache = use_cache.unwrap_or(false);
-						let mut result = Elements::with_capacity(1);
-						if !eles.is_empty() {
-							let first_ele = eles
-								.get_ref()
-								.get(0)
-								.expect("The elements must have at least one element.");
-							if let Some(doc) = &first_ele.owner_document() {
-								if let Some(id_element) = doc.get_element_by_id(&id) {
-									if use_cache {
-										// just add, will checked if the element contains the id element
-										result.push(id_element);
-									} else {
-										// filter methods, will filtered in elements
-										for ele in eles.get_ref() {
-											if ele.is(&id_element) {
-												result.push(id_element);
-												break;
-											}
-										}
-									}
-								}
-							}
-						}
-						result
+					// the ids may have changed since the html was parsed
+					one_handle: Some(Box::new(move |ele, _| {
+						matches!(ele.get_attribute("id"), Some(IAttrValue::Value(value, _)) if value == id)
 					})),
 					..Default::default()
 				}
-- 
2.43.0


From 6bc5a4682efd66967eb5c5b2509a6c8e59fd7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:08 +0000
Subject: [PATCH 45/51] fix: get_element_by_id finds the element that has the
 id now

---
 src/lib.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 39abe55..438ab63 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1248,6 +1248,27 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	}
 }
 
+fn is_id_of(node: &RefNode, id: &str) -> bool {
+	matches!(node.get_attribute("id"), Some(IAttrValue::Value(value, _)) if value == id)
+}
+
+// the first element below the node that has the id
+fn find_by_id(node: &RefNode, id: &str) -> Option<RefNode> {
+	if let Some(childs) = &node.borrow().childs {
+		for child in childs {
+			if matches!(child.node_type(), INodeType::Element) {
+				if is_id_of(child, id) {
+					return Some(Rc::clone(child));
+				}
+				if let Some(finded) = find_by_id(child, id) {
+					return Some(finded);
+				}
+			}
+		}
+	}
+	None
+}
+
 pub struct Document {
 	doc: DocHolder,
 }
@@ -1268,10 +1289,19 @@ impl Document {
 impl IDocumentTrait for Document {
 	// get element by id
 	fn get_element_by_id<'b>(&self, id: &str) -> Option<BoxDynElement<'b>> {
+		// the element found when parsing, if it is still there
 		if let Some(node) = self.doc.get_element_by_id(id) {
-			return Some(Box::new(Rc::clone(&node)));
+			let root = self.get_root_node();
+			let mut top = node.cloned();
+			while let Some(parent) = top.parent() {
+				top = parent;
+			}
+			if is_id_of(&node, id) && root.typed().into_element().map_or(false, |root| root.is(&top)) {
+				return Some(Box::new(node));
+			}
 		}
-		None
+		// or else another one that has the id now
+		find_by_id(&self.doc.borrow().root, id).map(|node| Box::new(node) as BoxDynElement)
 	}
 	// source code
 	fn source_code(&self) -> String {
-- 
2.43.0


From bd25701f3b50c796dfce1b6175dddbebc84bb4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:15 +0000
Subject: [PATCH 46/51] fix: the owner document of an inserted node is the
 document it was inserted into

---
 src/lib.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 438ab63..f7be8c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -321,14 +321,27 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl `owner_document`
 	fn owner_document(&self) -> MaybeDoc {
-		if let Some(root) = &self.borrow().root {
-			if let Some(root) = &root.upgrade() {
-				if let Some(doc) = &root.borrow().document {
-					if let Some(ref_doc) = &doc.upgrade() {
-						return Some(Box::new(Document {
-							doc: Rc::clone(ref_doc).into(),
-						}));
-					}
+		// the root of the tree the node is in now, it may have come from elsewhere
+		let mut top = Rc::clone(self);
+		loop {
+			let parent = top.borrow().parent.as_ref().and_then(|parent| parent.upgrade());
+			match parent {
+				Some(parent) => top = parent,
+				None => break,
+			}
+		}
+		let root = if top.is_root_element() {
+			Some(top)
+		} else {
+			// not in a document now, use the one the node comes from
+			self.borrow().root.as_ref().and_then(|root| root.upgrade())
+		};
+		if let Some(root) = &root {
+			if let Some(doc) = &root.borrow().document {
+				if let Some(ref_doc) = &doc.upgrade() {
+					return Some(Box::new(Document {
+						doc: Rc::clone(ref_doc).into(),
+					}));
 				}
 			}
 		}
-- 
2.43.0


From 0c1e24a58e49265ffaa7d96925b471fb300aa35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:07 +0000
Subject: [PATCH 47/51] fix: filtering by a selector with combinators works out
 of a document

---
 src/mesdoc/interface/elements.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b713483..7557367 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -965,8 +965,10 @@ impl<'a> Elements<'a> {
 					let lookup = Some(&query[..query_num - 1]);
 					let mut lasts = Elements::with_capacity(filtered.length());
 					let comb = &last_query_first_rule.1;
+					// a selector without leading combinator matches in any tree, also out of a document
+					let in_any_tree = matches!(query[0][0].1, Combinator::ChildrenAll);
 					for ele in filtered.get_ref() {
-						if root_eles.has_ele(ele, comb, lookup) {
+						if root_eles.has_ele_lookup(ele, comb, lookup, in_any_tree) {
 							lasts.get_mut_ref().push(ele.cloned());
 						}
 					}
@@ -1882,6 +1884,17 @@ impl<'a> Elements<'a> {
 		ele: &BoxDynElement,
 		comb: &Combinator,
 		lookup: Option<&[Vec<SelectorSegment>]>,
+	) -> bool {
+		self.has_ele_lookup(ele, comb, lookup, false)
+	}
+
+	// `in_any_tree`: only the lookup counts, wherever it ends
+	fn has_ele_lookup(
+		&self,
+		ele: &BoxDynElement,
+		comb: &Combinator,
+		lookup: Option<&[Vec<SelectorSegment>]>,
+		in_any_tree: bool,
 	) -> bool {
 		let mut elements = Elements::with_node(ele);
 		let mut lookup_comb = comb.reverse();
@@ -1895,6 +1908,9 @@ impl<'a> Elements<'a> {
 				elements = finded;
 			}
 		}
+		if in_any_tree {
+			return true;
+		}
 		use Combinator::*;
 		match lookup_comb {
 			Parent => {
-- 
2.43.0


From 2c92335a5ef53450fdfd87d3532e4555d6500ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:04 +0000
Subject: [PATCH 48/51] fix: sets of elements of several trees, or moved since
 they were selected, can be searched and joined

---
 src/mesdoc/interface/elements.rs | 89 +++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 23 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 7557367..75e80e4 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -28,15 +28,22 @@ use std::{
 };
 
 // get the ele indexs in tree
-fn get_tree_indexs(ele: &BoxDynElement) -> VecDeque<usize> {
+// `tops` collects the tops of the trees, since the elements may be of several trees
+fn get_tree_indexs<'a>(ele: &BoxDynElement, tops: &mut Vec<BoxDynElement<'a>>) -> VecDeque<usize> {
 	let mut indexs: VecDeque<usize> = VecDeque::with_capacity(DEF_NODES_LEN);
-	fn loop_handle(ele: &BoxDynElement, indexs: &mut VecDeque<usize>) {
-		indexs.push_front(ele.index());
-		if let Some(parent) = &ele.parent() {
-			loop_handle(parent, indexs);
-		}
-	}
-	loop_handle(ele, &mut indexs);
+	let mut top: BoxDynElement<'a> = ele.cloned();
+	while let Some(parent) = top.parent() {
+		indexs.push_front(top.index());
+		top = parent;
+	}
+	let tree = match tops.iter().position(|cur| cur.is(&top)) {
+		Some(tree) => tree,
+		None => {
+			tops.push(top);
+			tops.len() - 1
+		}
+	};
+	indexs.push_front(tree);
 	indexs
 }
 
@@ -366,6 +373,7 @@ impl<'a> Elements<'a> {
 		let mut parents_indexs: HashSet<VecDeque<usize>> = HashSet::with_capacity(total);
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
 		let mut prev_parent: Option<BoxDynElement> = None;
+		let mut tops: Vec<BoxDynElement> = Vec::new();
 		let mut has_root = false;
 		let mut handle = |ele: &BoxDynElement| {
 			if let Some(parent) = ele.parent() {
@@ -375,7 +383,7 @@ impl<'a> Elements<'a> {
 					}
 				}
 				// parents
-				let indexs = get_tree_indexs(&parent);
+				let indexs = get_tree_indexs(&parent, &mut tops);
 				// set prev parent
 				prev_parent = Some(parent);
 				// new parent
@@ -388,13 +396,16 @@ impl<'a> Elements<'a> {
 				uniques.push(ele.cloned());
 			}
 		};
+		// the elements may have been moved since they were selected
+		let mut ordered = self.cloned();
+		ordered.sort();
 		// just keep one sibling node
 		if asc {
-			for ele in self.get_ref() {
+			for ele in ordered.get_ref() {
 				handle(ele);
 			}
 		} else {
-			for ele in self.get_ref().iter().rev() {
+			for ele in ordered.get_ref().iter().rev() {
 				handle(ele)
 			}
 			// reverse, keep the order
@@ -418,11 +429,12 @@ impl<'a> Elements<'a> {
 		let mut parents_indexs: HashMap<VecDeque<usize>, (usize, bool)> = HashMap::with_capacity(total);
 		let mut uniques: Vec<(BoxDynElement, bool)> = Vec::with_capacity(total);
 		let mut parents: HashMap<usize, BoxDynElement> = HashMap::with_capacity(total);
+		let mut tops: Vec<BoxDynElement> = Vec::new();
 		// just keep one sibling node
 		for ele in self.get_ref() {
 			if let Some(parent) = ele.parent() {
 				// parent indexs
-				let indexs = get_tree_indexs(&parent);
+				let indexs = get_tree_indexs(&parent, &mut tops);
 				if let Some((index, changed)) = parents_indexs.get_mut(&indexs) {
 					if !*changed {
 						let index = *index;
@@ -448,8 +460,12 @@ impl<'a> Elements<'a> {
 	fn unique_parents(&self) -> Elements<'a> {
 		// keep only top parent
 		let mut ancestors: Vec<(VecDeque<usize>, &BoxDynElement)> = Vec::with_capacity(self.length());
-		for ele in self.get_ref() {
-			let ele_indexs = get_tree_indexs(ele);
+		let mut tops: Vec<BoxDynElement> = Vec::new();
+		// the elements may have been moved since they were selected
+		let mut ordered = self.cloned();
+		ordered.sort();
+		for ele in ordered.get_ref() {
+			let ele_indexs = get_tree_indexs(ele, &mut tops);
 			let cur_len = ancestors.len();
 			if cur_len > 0 {
 				// just check the last ancestor
@@ -458,7 +474,7 @@ impl<'a> Elements<'a> {
 					ElementRelation::Feauture => {
 						ancestors.push((ele_indexs, ele));
 					}
-					ElementRelation::Descendant => {}
+					ElementRelation::Descendant | ElementRelation::Equal => {}
 					_ => unreachable!("The elements call `unique_parents` is not ordered"),
 				}
 			} else {
@@ -473,16 +489,35 @@ impl<'a> Elements<'a> {
 	}
 	// sort
 	fn sort(&mut self) {
-		self.get_mut_ref().sort_by(|a, b| {
-			let a_index = get_tree_indexs(a);
-			let b_index = get_tree_indexs(b);
-			compare_indexs(&a_index, &b_index)
-		});
+		let mut tops: Vec<BoxDynElement> = Vec::new();
+		let mut nodes: Vec<(VecDeque<usize>, BoxDynElement)> = self
+			.get_mut_ref()
+			.drain(..)
+			.map(|ele| (get_tree_indexs(&ele, &mut tops), ele))
+			.collect();
+		nodes.sort_by(|a, b| compare_indexs(&a.0, &b.0));
+		self
+			.get_mut_ref()
+			.extend(nodes.into_iter().map(|(_, ele)| ele));
 	}
 	// unique
 	fn unique(&mut self) {
 		self.get_mut_ref().dedup_by(|a, b| a.is(b));
 	}
+	// check if each element is behind the one before
+	fn is_ordered(&self, tops: &mut Vec<BoxDynElement<'a>>) -> bool {
+		let mut prev: Option<VecDeque<usize>> = None;
+		for ele in self.get_ref() {
+			let indexs = get_tree_indexs(ele, tops);
+			if let Some(prev) = &prev {
+				if !matches!(compare_indexs(prev, &indexs), Ordering::Less) {
+					return false;
+				}
+			}
+			prev = Some(indexs);
+		}
+		true
+	}
 	// sort then unique
 	fn sort_and_unique(&mut self) {
 		self.sort();
@@ -2664,6 +2699,14 @@ impl<'a> Elements<'a> {
 		}
 		let first_eles = self;
 		let second_eles = &eles;
+		let mut tops: Vec<BoxDynElement> = Vec::new();
+		if !first_eles.is_ordered(&mut tops) || !second_eles.is_ordered(&mut tops) || tops.len() > 1 {
+			// of several trees, or moved since they were selected
+			let mut result = first_eles.cloned();
+			result.get_mut_ref().extend(eles);
+			result.sort_and_unique();
+			return result;
+		}
 		// compare first and second
 		let first_count = first_eles.length();
 		let second_count = second_eles.length();
@@ -2683,12 +2726,12 @@ impl<'a> Elements<'a> {
 		) -> &'a mut VecDeque<usize> {
 			first_indexs
 				.entry(index)
-				.or_insert_with(|| get_tree_indexs(&first[index]))
+				.or_insert_with(|| get_tree_indexs(&first[index], &mut Vec::new()))
 		}
 		while fir_left_index <= fir_right_index && sec_left_index <= sec_right_index {
 			// the second left
 			let sec_left = &second[sec_left_index];
-			let sec_left_level = get_tree_indexs(sec_left);
+			let sec_left_level = get_tree_indexs(sec_left, &mut tops);
 			// the first left
 			let fir_left_level = get_first_index_cached(&mut first_indexs, first, fir_left_index);
 			match compare_indexs(&sec_left_level, fir_left_level) {
@@ -2763,7 +2806,7 @@ impl<'a> Elements<'a> {
 				}
 				Ordering::Less => {
 					let sec_right = &second[sec_right_index];
-					let sec_right_level = get_tree_indexs(sec_right);
+					let sec_right_level = get_tree_indexs(sec_right, &mut tops);
 					match compare_indexs(&sec_right_level, fir_left_level) {
 						Ordering::Less => {
 							// now second is all before current first left
-- 
2.43.0


From 00cdcb2cd77c7a46d7922d56f42829b8272d5c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:24 +0000
Subject: [PATCH 49/51] fix: filter_in, not_in and is_all_in don't depend on
 the order of the two sets

---
 src/mesdoc/interface/elements.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 75e80e4..41c39d5 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1053,15 +1053,11 @@ impl<'a> Elements<'a> {
 		match filter_type {
 			FilterType::Filter => {
 				let mut start_index = 0;
-				let search_total = search.length();
 				for ele in eles {
 					if let Some(index) = search.index_of(ele, start_index) {
 						// also in search, include
 						start_index = index + 1;
 						result.push(ele.cloned());
-						if start_index >= search_total {
-							break;
-						}
 					}
 				}
 			}
@@ -2867,18 +2863,12 @@ impl<'a> Elements<'a> {
 		self.get_ref().iter().any(|n| ele.is(n))
 	}
 
-	/// index of
+	/// index of, from the start index on, then from the beginning since the orders may differ
 	fn index_of(&self, ele: &BoxDynElement, start_index: usize) -> Option<usize> {
-		let total = self.length();
-		if start_index < total {
-			let nodes = self.get_ref();
-			for (index, cur_ele) in nodes[start_index..].iter().enumerate() {
-				if ele.is(cur_ele) {
-					return Some(start_index + index);
-				}
-			}
-		}
-		None
+		let nodes = self.get_ref();
+		let start_index = start_index.min(nodes.len());
+		let find = |range: std::ops::Range<usize>| range.into_iter().find(|&index| ele.is(&nodes[index]));
+		find(start_index..nodes.len()).or_else(|| find(0..start_index))
 	}
 }
 
-- 
2.43.0


From ac33cf77acd8404dfcb4a306f3b167da08773881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:13 +0000
Subject: [PATCH 50/51] fix: siblings with a selector of several parts gives
 each element once

---
 src/mesdoc/interface/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 41c39d5..51855c8 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1597,8 +1597,8 @@ impl<'a> Elements<'a> {
 			};
 			result.get_mut_ref().extend(finded);
 		}
-		// sort the result
-		result.sort();
+		// sort the result, siblings of different elements may lead to the same elements
+		result.sort_and_unique();
 		result
 	}
 
-- 
2.43.0


From 787f2a6cd2c8ac924af1701c7042621ee24ea232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:16 +0000
Subject: [PATCH 51/51] fix: a text put into a title or textarea joins its text

---
 src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f7be8c6..5cfcdc0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -999,6 +999,19 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				if nodes.is_empty() {
 					return;
 				}
+				// the text of a `title` or `textarea` is its content, it has no childs
+				if matches!(position, AfterBegin | BeforeEnd) && is_plain_text_tag(&tag_name) {
+					detach_nodes(&nodes);
+					let text = nodes
+						.iter()
+						.flat_map(|node| node.text_contents())
+						.collect::<Vec<char>>();
+					let mut node = self.borrow_mut();
+					let content = node.content.get_or_insert_with(Vec::new);
+					let at = if *position == BeforeEnd { content.len() } else { 0 };
+					content.splice(at..at, text);
+					return;
+				}
 				match position {
 					BeforeBegin | AfterEnd => {
 						// get index first, for borrow check
-- 
2.43.0

