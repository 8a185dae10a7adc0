From a489a595850821ea3ac9e24d0308c77de04fb3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:46 +0000
Subject: [PATCH 01/34] fix: floor/ceil division was wrong when the quotient
 truncates to zero

divide_isize(-1, 3, Floor) returned 0 and divide_isize(1, 3, Ceil) returned 0,
so :nth-child(3n+5) on 4 children panicked with an out of range index.
---
 src/mesdoc/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/utils.rs b/src/mesdoc/utils.rs
index 608f430..3c9c250 100644
--- a/src/mesdoc/utils.rs
+++ b/src/mesdoc/utils.rs
@@ -85,14 +85,14 @@ pub fn divide_isize(a: isize, b: isize, round: RoundType) -> isize {
 	use RoundType::*;
 	match round {
 		Floor => {
-			// -∞ -> 0
-			if res < 0 && remainder != 0 {
+			// round to -∞, the truncated quotient is too big when the exact value is negative
+			if remainder != 0 && (remainder < 0) != (b < 0) {
 				res -= 1;
 			}
 		}
 		Ceil => {
-			// 0 -> ∞
-			if res > 0 && remainder != 0 {
+			// round to +∞, the truncated quotient is too small when the exact value is positive
+			if remainder != 0 && (remainder < 0) == (b < 0) {
 				res += 1;
 			}
 		}
-- 
2.43.0


From 5f36327be0e4f67a28d4a81b677d4a9fb50d2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 02/34] fix: add() lost or misplaced elements of the second set

Elements of the second set behind an element equal to the first set's last one
were inserted at the wrong position, and those left over when the first set was
exhausted were dropped.
---
 src/mesdoc/interface/elements.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b37d7df..d204e57 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2684,6 +2684,7 @@ impl<'a> Elements<'a> {
 							for index in sec_left_index..=sec_right_index {
 								mids.push((index, cur_fir_index));
 							}
+							sec_left_index = second_count;
 							break;
 						}
 						Ordering::Less => {
@@ -2723,10 +2724,11 @@ impl<'a> Elements<'a> {
 						}
 						Ordering::Equal => {
 							// equal to first right, now all the second after current is behind first right
-							let cur_fir_index = sec_right_index + 1;
+							let cur_fir_index = fir_right_index + 1;
 							for index in sec_left_index + 1..=sec_right_index {
 								mids.push((index, cur_fir_index));
 							}
+							sec_left_index = second_count;
 							break;
 						}
 					}
@@ -2740,6 +2742,7 @@ impl<'a> Elements<'a> {
 							for index in sec_left_index..=sec_right_index {
 								mids.push((index, fir_left_index));
 							}
+							sec_left_index = second_count;
 							break;
 						}
 						Ordering::Greater => {
@@ -2753,12 +2756,17 @@ impl<'a> Elements<'a> {
 							for index in sec_left_index..sec_right_index {
 								mids.push((index, fir_left_index));
 							}
+							sec_left_index = second_count;
 							break;
 						}
 					}
 				}
 			}
 		}
+		// the first is exhausted, now all the left second are behind first right
+		for index in sec_left_index..second_count {
+			mids.push((index, first_count));
+		}
 		let mids_count = mids.len();
 		let mut result = Elements::with_capacity(first_count + mids_count);
 		// add first and mids
-- 
2.43.0


From ad61073626e2481707c2f4f2f7384534586f210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:11 +0000
Subject: [PATCH 03/34] fix: an absent attribute is not an attribute with an
 empty value

[k=''] and [k|=''] matched elements without the attribute, and [k!=''] did not.
---
 src/mesdoc/rules/attr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/rules/attr.rs b/src/mesdoc/rules/attr.rs
index 717364e..3916a4e 100644
--- a/src/mesdoc/rules/attr.rs
+++ b/src/mesdoc/rules/attr.rs
@@ -51,7 +51,8 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 								let attr_value: String = format!("{}-", attr_value);
 								v.starts_with(&attr_value)
 							}
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 						// in a value list that splitted by whitespaces
 						"~" => Box::new(move |val: &Option<IAttrValue>| match val {
@@ -66,15 +67,17 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 							}
 							_ => false,
 						}),
-						// has a attribute and who's value not equal to setted value
+						// has no such attribute or its value is not equal to setted value
 						"!" => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => attr_value != *v,
-							_ => !attr_value.is_empty(),
+							Some(IAttrValue::True) => !attr_value.is_empty(),
+							None => true,
 						}),
 						// equal to value
 						_ => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => *v == attr_value,
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 					}
 				}
-- 
2.43.0


From 8730d1b80f7f1cbf2cd7daede3891769a84961ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:33 +0000
Subject: [PATCH 04/34] fix: combinators on nested start elements broke the
 document order

Children, siblings, previous, next and parents of elements which contain each
other were concatenated per start element, so the result was out of order (and
a following descendant combinator could produce duplicates).
---
 src/mesdoc/interface/elements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index d204e57..fddff5d 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -906,6 +906,10 @@ impl<'a> Elements<'a> {
 				result = matcher.apply(elements, None);
 			}
 		};
+		// the elements may be nested in each other, keep the result in document order
+		if elements.length() > 1 && !matches!(cur_comb, ChildrenAll | Chain) {
+			result.sort_and_unique();
+		}
 		result
 	}
 
-- 
2.43.0


From 5d66cf0bbb8aa70acb4acaaa75a35bc3417c42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:09 +0000
Subject: [PATCH 05/34] fix: '> #id' matched an element that is not a child

The children combinator passes Some(false) to the id matcher, which took any
Some as the permission to return the element from the document's id cache.
---
 src/mesdoc/rules/id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/id.rs b/src/mesdoc/rules/id.rs
index 13cf2b7..b69939f 100644
--- a/src/mesdoc/rules/id.rs
+++ b/src/mesdoc/rules/id.rs
@@ -16,7 +16,7 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 				let id = data[1].chars.iter().collect::<String>();
 				Matcher {
 					all_handle: Some(Box::new(move |eles: &Elements, use_cache: Option<bool>| {
-						let use_cache = use_cache.is_some();
+						let use_cache = use_cache == Some(true);
 						let mut result = Elements::with_capacity(1);
 						if !eles.is_empty() {
 							let first_ele = eles
-- 
2.43.0


From af5aea362cb010a6c924882b957a23f51070b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:13 +0000
Subject: [PATCH 06/34] fix: closest, siblings and *_until ignored the
 ancestors part of a selector

They parsed the selector in the lookup mode made for find, which moves the
leading parts away from the query the filter looks at; siblings() even panicked
on the combinator it can't reverse.
---
 src/mesdoc/interface/elements.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index fddff5d..695b2e0 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -520,13 +520,13 @@ impl<'a> Elements<'a> {
 		contains: bool,
 		comb: Combinator,
 	) -> Elements<'a> {
-		let selector = selector.parse::<Selector>();
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = &selector {
 			let segment = Selector::make_comb_all(comb);
 			let next_selector = Selector::from_segment(segment);
 			let mut result = Elements::with_capacity(DEF_NODES_LEN);
 			let (next_ok, filter) = if !filter.is_empty() {
-				let filter = filter.parse::<Selector>();
+				let filter = Selector::from_str(filter, false);
 				if let Ok(filter) = filter {
 					(true, Some(filter))
 				} else {
@@ -1529,12 +1529,11 @@ impl<'a> Elements<'a> {
 			child_selector = Selector::from_segment(Selector::make_comb_all(child_comb));
 		} else {
 			// self
-			let sib_selector = selector.parse::<Selector>();
+			let sib_selector = Selector::from_str(selector, false);
 			if let Ok(sib_selector) = sib_selector {
 				// clone the selector to a child selector
-				child_selector = selector
-					.parse::<Selector>()
-					.expect("The selector has detected");
+				child_selector =
+					Selector::from_str(selector, false).expect("The selector has detected");
 				child_selector.head_combinator(child_comb);
 				// use siblings selector
 				siblings_selector = sib_selector;
@@ -1727,7 +1726,7 @@ impl<'a> Elements<'a> {
 		}
 		// find the nearst node
 		const METHOD: &str = "closest";
-		let selector = selector.parse::<Selector>();
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = selector {
 			let total = self.length();
 			let mut result = Elements::with_capacity(total);
-- 
2.43.0


From ceb940162246fb3fa4d7b6e275b221d8f650970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:18 +0000
Subject: [PATCH 07/34] fix: next_until and prev_until of several elements
 dropped and reordered results

Only one of several siblings was walked although each of them may stop at a
different element, and the results of nested start elements were out of order.
---
 src/mesdoc/interface/elements.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 695b2e0..4ba4c0c 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1369,14 +1369,11 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn prev_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		let uniques = self.unique_sibling_last();
+		// can't unique the siblings first, each one may stop at a different element
 		let mut result =
-			uniques.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
-		// should reverse the result when length > 1
-		// because the prevs executed from last to first
-		if result.length() > 1 {
-			result.get_mut_ref().reverse();
-		}
+			self.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
+		// the prevs executed from last to first, and may be repeated
+		result.sort_and_unique();
 		result
 	}
 
@@ -1481,9 +1478,11 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn next_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		// unique, keep the first sibling node
-		let uniques = self.unique_sibling_first();
-		uniques.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
+		// can't unique the siblings first, each one may stop at a different element
+		let mut result =
+			self.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next);
+		result.sort_and_unique();
+		result
 	}
 
 	/// Get the siblings of each element in Elements, when the selector is not empty, will filtered by the selector.
@@ -1564,7 +1563,7 @@ impl<'a> Elements<'a> {
 			result.get_mut_ref().extend(finded);
 		}
 		// sort the result
-		result.sort();
+		result.sort_and_unique();
 		result
 	}
 
-- 
2.43.0


From 10b3a71bfabd186d03569aa2083f64a96970ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:06 +0000
Subject: [PATCH 08/34] fix: slice and last panicked or ignored the bound on
 empty, reversed or excluded ranges

---
 src/mesdoc/interface/elements.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 4ba4c0c..2f68893 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2523,7 +2523,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn last(&self) -> Elements<'a> {
-		self.eq(self.length() - 1)
+		self.eq(self.length().wrapping_sub(1))
 	}
 
 	/// Get a subset specified by a range of indices.
@@ -2572,8 +2572,13 @@ impl<'a> Elements<'a> {
 					return Elements::new();
 				}
 			}
-			_ => {
-				// start bound not have exclude
+			Bound::Excluded(&cur_start) => {
+				if cur_start < end {
+					start = cur_start + 1;
+				} else {
+					// empty
+					return Elements::new();
+				}
 			}
 		};
 		match range.end_bound() {
@@ -2586,12 +2591,15 @@ impl<'a> Elements<'a> {
 				}
 			}
 			Bound::Included(&cur_end) => {
-				let cur_end = cur_end + 1;
 				if cur_end < end {
-					end = cur_end;
+					end = cur_end + 1;
 				}
 			}
 		}
+		if start >= end {
+			// empty
+			return Elements::new();
+		}
 		let mut result = Elements::with_capacity(end - start);
 		let eles = self.get_ref();
 		for ele in &eles[start..end] {
-- 
2.43.0


From 1157d836d7c7e4b0b1d821ada1d52b429de2f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:06 +0000
Subject: [PATCH 09/34] fix: ':nth-last-*' and ':last-*' panicked on an element
 without child nodes

---
 src/mesdoc/rules/pseudo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 0a3dbda..f30d7f8 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -172,6 +172,9 @@ fn make_asc_or_desc_nth_child_specified(asc: bool, index: isize) -> MatchSpecifi
 		} else {
 			Box::new(move |ele, mut callback| {
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
@@ -528,6 +531,9 @@ fn make_asc_or_desc_nth_of_type_specified(asc: bool, index: isize) -> MatchSpeci
 				let mut node_indexs: Vec<usize> = Vec::with_capacity(DEF_NODES_LEN);
 				// total
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
-- 
2.43.0


From df5962e20adf44687fa6cb1811452a537dd58c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:39 +0000
Subject: [PATCH 10/34] fix: nth selectors panicked on very large numbers

---
 src/mesdoc/rules/pseudo.rs     | 10 +++++-----
 src/mesdoc/selector/pattern.rs | 24 +++++++++++++++++-------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index f30d7f8..479464a 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -16,11 +16,11 @@ use std::{collections::HashMap, ops::Range};
 const PRIORITY: u32 = PRIORITY_PSEUDO_SELECTOR;
 
 fn nth_index_to_number(index: &Option<String>) -> isize {
-	index
-		.as_ref()
-		.expect("Nth's n and index must have one")
-		.parse::<isize>()
-		.expect("Nth's index is not ok")
+	Nth::to_number(
+		index
+			.as_ref()
+			.expect("Nth's n and index must have one"),
+	)
 }
 
 /// Pseudo selector ":root"
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 452a789..ca45f77 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -260,6 +260,16 @@ impl Nth {
 		}
 		None
 	}
+	// parse the number, any number has a limit, far beyond the count of nodes
+	pub(crate) fn to_number(num: &str) -> isize {
+		const MAX: isize = isize::MAX / 4;
+		match num.parse::<isize>() {
+			Ok(num) => num.clamp(-MAX, MAX),
+			// the content is always an integer, so it's just too large
+			Err(_) if num.starts_with('-') => -MAX,
+			Err(_) => MAX,
+		}
+	}
 	// get indexs allowed
 	pub fn get_allowed_indexs(
 		n: &Option<String>,
@@ -268,10 +278,10 @@ impl Nth {
 	) -> Vec<usize> {
 		// has n
 		if let Some(n) = n {
-			let n = n.parse::<isize>().unwrap();
+			let n = Nth::to_number(n);
 			let index = index
 				.as_ref()
-				.map(|index| index.parse::<isize>().unwrap())
+				.map(|index| Nth::to_number(index))
 				.unwrap_or(0);
 			// n == 0
 			if n == 0 {
@@ -331,11 +341,11 @@ impl Nth {
 			return allow_indexs;
 		}
 		// only index
-		let index = index
-			.as_ref()
-			.expect("Nth must have 'index' value when 'n' is not setted.")
-			.parse::<isize>()
-			.expect("Nth's index is not a correct number");
+		let index = Nth::to_number(
+			index
+				.as_ref()
+				.expect("Nth must have 'index' value when 'n' is not setted."),
+		);
 		if index <= 0 || index > (total as isize) {
 			return vec![];
 		}
-- 
2.43.0


From 15b53aa24e0c188a23c0d046069a2efa52637979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 11/34] fix: remove_class and toggle_class panicked on some
 orders and missed repeated class names

---
 src/mesdoc/interface/elements.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 2f68893..b9656a6 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3456,8 +3456,9 @@ impl<'a> Elements<'a> {
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
 					let mut removed_indexs: Vec<usize> = Vec::with_capacity(class_list.len());
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
+					// the removed indexs must be in ascending order
+					for (index, name) in orig_class_list.iter().enumerate() {
+						if class_list.contains(name) {
 							removed_indexs.push(index);
 						}
 					}
@@ -3512,10 +3513,14 @@ impl<'a> Elements<'a> {
 					let mut orig_class_list = get_class_list(&cls);
 					let mut removed_indexs: Vec<usize> = Vec::with_capacity(total);
 					let mut added_class_list: Vec<Vec<char>> = Vec::with_capacity(total);
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
+					// the removed indexs must be in ascending order
+					for (index, name) in orig_class_list.iter().enumerate() {
+						if class_list.contains(name) {
 							removed_indexs.push(index);
-						} else {
+						}
+					}
+					for class_name in &class_list {
+						if !orig_class_list.contains(class_name) {
 							added_class_list.push(class_name.clone());
 						}
 					}
-- 
2.43.0


From 54b8b56b0c40856e645f5a91dc062191b38a9090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:02 +0000
Subject: [PATCH 12/34] fix: remove_attr with an uppercase name left the
 attribute there

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b07cf4d..7f51ffe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -744,7 +744,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// set attr data as null data
 				meta.borrow_mut().attrs[index] = Attr::default();
 				// remove name from names map
-				meta.borrow_mut().lc_name_map.remove(name);
+				meta
+					.borrow_mut()
+					.lc_name_map
+					.remove(&name.to_ascii_lowercase());
 			}
 		}
 	}
-- 
2.43.0


From 4529b20d1da08fd07d94a400b18f3580c4cc502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:07 +0000
Subject: [PATCH 13/34] fix: set_attr kept the old quote of an existing
 attribute

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f51ffe..cad82f6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -708,9 +708,13 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			} else {
 				None
 			};
+			let quote = if value.is_some() { Some(quote) } else { None };
 			// find the attribute, just set the value
 			if let Some(index) = find_index {
-				meta.borrow_mut().attrs[index].value = value;
+				let attr = &mut meta.borrow_mut().attrs[index];
+				attr.value = value;
+				attr.quote = quote;
+				attr.need_quote = need_quote;
 				return;
 			}
 			// new attribute, add it to the attrs and add a lowercase name to lc_name_map
@@ -718,7 +722,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			// insert name and index into name map
 			meta.borrow_mut().lc_name_map.insert(lc_name, index);
 			// add to attrs
-			let quote = if value.is_some() { Some(quote) } else { None };
 			meta.borrow_mut().attrs.push(Attr {
 				key: Some(AttrData {
 					content: name.chars().collect(),
-- 
2.43.0


From 0ca86c7aa35a8ee10bfaea7db5b44570488260e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:13 +0000
Subject: [PATCH 14/34] fix: removed nodes kept their old parent, so removing
 them again deleted a sibling

---
 src/lib.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cad82f6..7ed3072 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,15 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// the child nodes will be replaced, they have no parent any more
+fn detach_childs(childs: &Option<Vec<RefNode>>) {
+	if let Some(childs) = childs {
+		for node in childs {
+			node.borrow_mut().parent = None;
+		}
+	}
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -254,6 +263,9 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			INodeType::Element => {
 				let no_content_tag = !check_if_content_tag(&self.tag_names());
 				let mut node = self.borrow_mut();
+				if no_content_tag {
+					detach_childs(&node.childs);
+				}
 				if !content.is_empty() {
 					if no_content_tag {
 						// encode content
@@ -363,6 +375,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 							reset_next_siblings_index(0, &nodes);
 						}
 						// set childs as new nodes
+						detach_childs(&target.borrow().childs);
 						(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
 					} else if let Some(childs) = &mut target.borrow_mut().childs {
 						let index = self.index();
@@ -381,11 +394,14 @@ impl INodeTrait for Rc<RefCell<Node>> {
 							// then just remove self
 							childs.remove(index);
 						}
+						// the text node has no parent any more
+						self.borrow_mut().parent = None;
 					} else {
 						// text node's parent can't be empty
 					}
 				} else {
 					// empty html, just set childs to none
+					detach_childs(&target.borrow().childs);
 					target.borrow_mut().childs = None;
 				}
 			}
@@ -398,7 +414,9 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		/// Remove a text node.
 		fn remove(self: Box<Self>) {
 			let index = self.index();
-			if let Some(parent) = &self.borrow_mut().parent {
+			// the text node has no parent any more
+			let parent = self.borrow_mut().parent.take();
+			if let Some(parent) = &parent {
 				if let Some(parent) = parent.upgrade() {
 					if let Some(childs) = &mut parent.borrow_mut().childs {
 						// remove the text node
@@ -799,8 +817,9 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						if index != childs.len() - 1 {
 							reset_next_siblings_index(index, &childs[index + 1..]);
 						}
-						// remove child
-						childs.remove(index);
+						// remove child, the child has no parent any more
+						let child = childs.remove(index);
+						child.borrow_mut().parent = None;
 					}
 				}
 			}
-- 
2.43.0


From 5429ef9b4955a96c5ef07b238fd9512c15795aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:37 +0000
Subject: [PATCH 15/34] fix: set_html with an empty html on a text node removed
 all its siblings

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7ed3072..fd0aa76 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -399,6 +399,14 @@ impl INodeTrait for Rc<RefCell<Node>> {
 					} else {
 						// text node's parent can't be empty
 					}
+				} else if !is_element {
+					// empty html for a text node, just remove the text node
+					let index = self.index();
+					if let Some(childs) = &mut target.borrow_mut().childs {
+						childs.remove(index);
+						reset_next_siblings_index(index, &childs[index..]);
+					}
+					self.borrow_mut().parent = None;
 				} else {
 					// empty html, just set childs to none
 					detach_childs(&target.borrow().childs);
-- 
2.43.0


From 362a5024dd3ef804762c8ecc279ed9bb558c669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:42 +0000
Subject: [PATCH 16/34] fix: filtering inserted nodes by their ancestors never
 matched

---
 src/mesdoc/interface/elements.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b9656a6..aa18b33 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -953,9 +953,11 @@ impl<'a> Elements<'a> {
 					// set root first
 					root = root.or_else(|| {
 						let cur_first = filtered.get(0).expect("Filtered length greater than 0");
-						let root_element = cur_first
-							.root_element()
-							.unwrap_or_else(|| cur_first.cloned());
+						// the node may be inserted from another document, so look up from the node
+						let mut root_element = cur_first.cloned();
+						while let Some(parent) = root_element.parent() {
+							root_element = parent;
+						}
 						Some(Elements::with_node(&root_element))
 					});
 					// get root elements
-- 
2.43.0


From eb85947d2eccbbfc4869fec6d41b6faf0247273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:47 +0000
Subject: [PATCH 17/34] fix: append and insert_before reversed the order of the
 inserted elements

---
 src/mesdoc/interface/elements.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index aa18b33..7454e46 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3687,8 +3687,18 @@ impl<'a> Elements<'a> {
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
 			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.insert_adjacent(position, inserted);
+				// keep the order of the inserted elements
+				match position {
+					InsertPosition::BeforeBegin | InsertPosition::BeforeEnd => {
+						for inserted in dest.get_ref() {
+							ele.insert_adjacent(position, inserted);
+						}
+					}
+					InsertPosition::AfterBegin | InsertPosition::AfterEnd => {
+						for inserted in dest.get_ref().iter().rev() {
+							ele.insert_adjacent(position, inserted);
+						}
+					}
 				}
 			}
 		}
-- 
2.43.0


From c27f2e1a3bd016817acc156954b7a3f9b6af817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:03 +0000
Subject: [PATCH 18/34] fix: replace_with lost all but one of the new elements
 and panicked on itself

---
 src/lib.rs                       | 6 ++++++
 src/mesdoc/interface/elements.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fd0aa76..07167f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -958,6 +958,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 		}
 		// replace with
 		fn replace_with(&mut self, node: &BoxDynElement){
+			// base validate, and a node without parent can't be replaced
+			if !Dom::validate_dom_change(self, node, "replace with") || self.parent().is_none() {
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			let mut replace_ele: Option<RefNode> = None;
@@ -1011,6 +1015,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 				}
+				// the replaced node has no parent any more
+				self.borrow_mut().parent = None;
 				if let Some(replace_ele) = replace_ele {
 					*self = replace_ele;
 				}
diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 7454e46..6eea7e2 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3705,8 +3705,12 @@ impl<'a> Elements<'a> {
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
 			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.replace_with(inserted);
+				if let Some((last, others)) = dest.get_ref().split_last() {
+					// after replaced, current element is the last one, so insert the others before it
+					ele.replace_with(last);
+					for inserted in others {
+						ele.insert_adjacent(&InsertPosition::BeforeBegin, inserted);
+					}
 				}
 			}
 		}
-- 
2.43.0


From 6b524e60628d6d7ade7861af8c5ebd03ef157491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:22 +0000
Subject: [PATCH 19/34] fix: nodes of an inserted fragement stayed in the
 fragement too

---
 src/lib.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 07167f9..ed10e08 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -842,17 +842,20 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			if !Dom::validate_dom_change(self, node, action) {
 				return;
 			}
+			// a node without parent has no siblings
+			if matches!(position, InsertPosition::BeforeBegin | InsertPosition::AfterEnd)
+				&& self.parent().is_none()
+			{
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			if let Ok(dom) = specified.downcast::<RefNode>() {
 				// get the nodes
 				let mut nodes = match node_type {
 					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
-						} else {
-							vec![]
-						}
+						// the child nodes are moved out of the fragement
+						dom.borrow_mut().childs.take().unwrap_or_default()
 					}
 					_ => {
 						// remove current node from parent's childs
@@ -969,14 +972,12 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// get the nodes
 				let nodes = match node_type {
 					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
-							if childs.len() == 1 {
-								replace_ele = Some(Rc::clone(&childs[0]));
-							}
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
-						} else {
-							vec![]
+						// the child nodes are moved out of the fragement
+						let childs = dom.borrow_mut().childs.take().unwrap_or_default();
+						if childs.len() == 1 {
+							replace_ele = Some(Rc::clone(&childs[0]));
 						}
+						childs
 					}
 					_ => {
 						// remove current node from parent's childs
-- 
2.43.0


From d4cb0c48c354f0d03652d531086155a57f76405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:05 +0000
Subject: [PATCH 20/34] fix: unfinished selectors panicked and a nested rule
 ended the nested selector too early

---
 src/mesdoc/selector/mod.rs     |  9 +++++++++
 src/mesdoc/selector/pattern.rs | 15 +++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index c5588ad..2ff23ce 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -323,6 +323,7 @@ impl Selector {
 		let mut index = 0;
 		let total = chars.len();
 		let mut matched: MatchedQueue = Vec::with_capacity(until.len() + 1);
+		let mut is_end = until.is_empty();
 		while index < total {
 			let next_chars = &chars[index..];
 			if let Some((_, len, _)) = Rule::exec_queues(splitter, next_chars) {
@@ -347,6 +348,7 @@ impl Selector {
 							level + 1,
 						)?;
 						index += nest_count;
+						finded = true;
 					}
 					break;
 				}
@@ -369,6 +371,7 @@ impl Selector {
 						});
 					} else {
 						index += count;
+						is_end = true;
 						if level == 0 {
 							matched.extend(util_matched);
 						}
@@ -377,6 +380,12 @@ impl Selector {
 				break;
 			}
 		}
+		if !is_end {
+			return Err(Error::InvalidSelector {
+				context: chars.iter().collect::<String>(),
+				reason: String::from("Nested selector is not closed"),
+			});
+		}
 		Ok((index, matched))
 	}
 }
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index ca45f77..89e80d4 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -44,14 +44,13 @@ pub trait Pattern: Send + Sync + Debug {
 
 impl Pattern for char {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
-		let ch = chars[0];
-		if *self == ch {
-			return Some(Matched {
+		match chars.first() {
+			Some(&ch) if *self == ch => Some(Matched {
 				chars: vec![ch],
 				..Default::default()
-			});
+			}),
+			_ => None,
 		}
-		None
 	}
 }
 
@@ -92,10 +91,10 @@ pub struct Identity;
 impl Pattern for Identity {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let mut result: Vec<char> = Vec::with_capacity(5);
-		let first = chars[0];
 		let name: &str = "identity";
-		if !(first.is_ascii_alphabetic() || first == '_') {
-			return None;
+		match chars.first() {
+			Some(&first) if first.is_ascii_alphabetic() || first == '_' => {}
+			_ => return None,
 		}
 		// allow translate character '\': fix issue #2
 		let mut is_in_translate = false;
-- 
2.43.0


From d08eabcfacc87e50e039085c813a4ad74278ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:05 +0000
Subject: [PATCH 21/34] fix: an invalid selector on an empty set panicked
 instead of being ignored

---
 src/mesdoc/interface/elements.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 6eea7e2..7ed3c3b 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -124,11 +124,7 @@ impl<'a> Elements<'a> {
 	}
 
 	pub(crate) fn trigger_method_throw_error(&self, method: &str, error: BoxDynError) {
-		if let Some(doc) = &self
-			.get(0)
-			.expect("Use index 0 when length > 0")
-			.owner_document()
-		{
+		if let Some(doc) = &self.document() {
 			doc.trigger_error(Box::new(IError::MethodOnInvalidSelector {
 				method: String::from(method),
 				error: error.to_string(),
-- 
2.43.0


From b975aed4470bcee56be6544512caad487a891c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:40 +0000
Subject: [PATCH 22/34] fix: '#id' was looked up in the ids collected at parse
 time, stale after a change

---
 src/mesdoc/rules/id.rs | 56 +++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/mesdoc/rules/id.rs b/src/mesdoc/rules/id.rs
index b69939f..98304be 100644
--- a/src/mesdoc/rules/id.rs
+++ b/src/mesdoc/rules/id.rs
@@ -1,10 +1,31 @@
 use crate::mesdoc::selector::rule::{Matcher, Rule, RuleItem};
-use crate::mesdoc::selector::MatchedQueue;
+use crate::mesdoc::selector::{Combinator, MatchedQueue};
 use crate::mesdoc::{
 	constants::{NAME_SELECTOR_ID, PRIORITY_ID_SELECTOR},
-	interface::Elements,
+	interface::{BoxDynElement, Elements},
 };
 
+// check if the element has the id now
+fn has_id(ele: &BoxDynElement, id: &str) -> bool {
+	!ele.is_root_element()
+		&& ele
+			.get_attribute("id")
+			.map_or(false, |value| value.is_str(id))
+}
+
+// find the elements have the id in all the descendants
+fn find_by_id<'a>(eles: &Elements<'a>, id: &str, result: &mut Elements<'a>) {
+	for ele in eles.get_ref() {
+		let childs = ele.children();
+		for child in childs.get_ref() {
+			if has_id(child, id) {
+				result.push(child.cloned());
+			}
+		}
+		find_by_id(&childs, id, result);
+	}
+}
+
 pub fn init(rules: &mut Vec<RuleItem>) {
 	let rule: RuleItem = RuleItem {
 		name: NAME_SELECTOR_ID,
@@ -18,27 +39,28 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 					all_handle: Some(Box::new(move |eles: &Elements, use_cache: Option<bool>| {
 						let use_cache = use_cache == Some(true);
 						let mut result = Elements::with_capacity(1);
-						if !eles.is_empty() {
-							let first_ele = eles
-								.get_ref()
-								.get(0)
-								.expect("The elements must have at least one element.");
+						if !use_cache {
+							// filter methods
+							for ele in eles.get_ref() {
+								if has_id(ele, &id) {
+									result.push(ele.cloned());
+								}
+							}
+							return result;
+						}
+						if let Some(first_ele) = eles.get_ref().get(0) {
 							if let Some(doc) = &first_ele.owner_document() {
 								if let Some(id_element) = doc.get_element_by_id(&id) {
-									if use_cache {
-										// just add, will checked if the element contains the id element
+									// the document's ids are collected when it was parsed, check if it is still true
+									if has_id(&id_element, &id)
+										&& eles.has_ele(&id_element, &Combinator::ChildrenAll, None)
+									{
 										result.push(id_element);
-									} else {
-										// filter methods, will filtered in elements
-										for ele in eles.get_ref() {
-											if ele.is(&id_element) {
-												result.push(id_element);
-												break;
-											}
-										}
+										return result;
 									}
 								}
 							}
+							find_by_id(eles, &id, &mut result);
 						}
 						result
 					})),
-- 
2.43.0


From f020e48f24436c78ad5210cbd413cc8edfed346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:24 +0000
Subject: [PATCH 23/34] fix: attribute, class and id selectors panicked on the
 document's root

---
 src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ed10e08..8aabfeb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -637,10 +637,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn get_attribute(&self, name: &str) -> Option<IAttrValue> {
 		// use lowercase to get attribute: issue: #2
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		// the root node doesn't have attributes
+		let meta = node.meta.as_ref()?;
 		// if has meta, then compare with lowercase
 		let lc_name_map = &meta.borrow().lc_name_map;
 		if !lc_name_map.is_empty() {
@@ -660,10 +658,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	fn get_attributes(&self) -> Vec<(String, IAttrValue)> {
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		let meta = match node.meta.as_ref() {
+			Some(meta) => meta,
+			// the root node doesn't have attributes
+			None => return vec![],
+		};
 		let attrs = &meta.borrow().attrs;
 		let attr_map = meta
 			.borrow()
-- 
2.43.0


From 9f68238bbe2685bb34b8187823517d0bf756b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:45 +0000
Subject: [PATCH 24/34] fix: class methods trimmed white space that does not
 separate class names

---
 src/mesdoc/interface/elements.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 7ed3c3b..f173e08 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3342,9 +3342,8 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn has_class(&self, class_name: &str) -> bool {
-		let class_name = class_name.trim();
-		if !class_name.is_empty() {
-			let class_list = get_class_list(class_name);
+		let class_list = get_class_list(class_name);
+		if !class_list.is_empty() {
 			for ele in self.get_ref() {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
@@ -3446,9 +3445,8 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn remove_class(&mut self, class_name: &str) -> &mut Self {
-		let class_name = class_name.trim();
-		if !class_name.is_empty() {
-			let class_list = get_class_list(class_name);
+		let class_list = get_class_list(class_name);
+		if !class_list.is_empty() {
 			for ele in self.get_mut_ref() {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
@@ -3501,9 +3499,8 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn toggle_class(&mut self, class_name: &str) -> &mut Self {
-		let class_name = class_name.trim();
-		if !class_name.is_empty() {
-			let class_list = get_class_list(class_name);
+		let class_list = get_class_list(class_name);
+		if !class_list.is_empty() {
 			let total = class_list.len();
 			for ele in self.get_mut_ref() {
 				let class_value = ele.get_attribute(ATTR_CLASS);
-- 
2.43.0


From f4326658129d6d5b4746c6582b2a4dc5ac63999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:11 +0000
Subject: [PATCH 25/34] fix: removing an attribute brings a repeated one of the
 same name back

An attribute that is repeated in the tag was kept in the html when the
attribute was removed, and came back when that html was read again.
---
 src/lib.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8aabfeb..9d4b2fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ use mesdoc::interface::{
 	IErrorHandle, IFormValue, INodeTrait, ITextTrait, IUncareNodeTrait, MaybeDoc, MaybeElement,
 };
 
-use mesdoc::utils::is_equal_chars;
+use mesdoc::utils::{is_equal_chars, is_equal_chars_ignore_case};
 use mesdoc::{error::Error as IError, utils::retain_by_index};
 use rphtml::{
 	config::RenderOptions,
@@ -761,22 +761,21 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	/// impl `remove_attribute`
 	fn remove_attribute(&mut self, name: &str) {
 		if let Some(meta) = &self.borrow().meta {
-			let mut find_index: Option<usize> = None;
-			if !meta.borrow().lc_name_map.is_empty() {
-				let lc_name = name.to_ascii_lowercase();
-				if let Some(&index) = meta.borrow().lc_name_map.get(&lc_name) {
-					find_index = Some(index);
+			let mut meta = meta.borrow_mut();
+			// remove name from names map
+			if meta
+				.lc_name_map
+				.remove(&name.to_ascii_lowercase())
+				.is_some()
+			{
+				// set attr data as null data, a repeated attribute must not come back in the html
+				let name: Vec<char> = name.chars().collect();
+				for attr in meta.attrs.iter_mut() {
+					if matches!(&attr.key, Some(key) if is_equal_chars_ignore_case(&key.content, &name)) {
+						*attr = Attr::default();
+					}
 				}
 			}
-			if let Some(index) = find_index {
-				// set attr data as null data
-				meta.borrow_mut().attrs[index] = Attr::default();
-				// remove name from names map
-				meta
-					.borrow_mut()
-					.lc_name_map
-					.remove(&name.to_ascii_lowercase());
-			}
 		}
 	}
 
-- 
2.43.0


From 8ec539a14498696a41bec197c2f089f9948a9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:13 +0000
Subject: [PATCH 26/34] fix: nodes of a fragment that an element can't take
 have no parent any more

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9d4b2fb..e9d413b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -138,6 +138,8 @@ fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool
 	for (index, node) in nodes.iter().enumerate() {
 		if !allow_insert(tag_name, node.borrow().node_type) {
 			not_allowed_indexs.push(index);
+			// the node is left out, it has no parent any more
+			node.borrow_mut().parent = None;
 		}
 	}
 	if !not_allowed_indexs.is_empty() {
-- 
2.43.0


From f79fbdd26ca6b6f9e5d6d7674afcd54d76e02862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:55 +0000
Subject: [PATCH 27/34] fix: set_html of a text node outside of any element
 panicked

---
 src/lib.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e9d413b..e08b879 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -329,15 +329,9 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			_ => None,
 		};
 		if let Some(target) = &target {
-			if check_if_content_tag(
-				&target
-					.borrow()
-					.meta
-					.as_ref()
-					.expect("A tag use `set_html` must have a tag name.")
-					.borrow()
-					.name,
-			) {
+			// the parent of a text node may be the root, which has no tag name
+			let tag_name = target.tag_names();
+			if check_if_content_tag(&tag_name) {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
@@ -354,16 +348,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				.unwrap();
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
-					let has_not_allowed = remove_not_allowed_nodes(
-						&target
-							.borrow()
-							.meta
-							.as_ref()
-							.expect("A tag use `set_html` must have a tag name.")
-							.borrow()
-							.name,
-						&mut nodes,
-					);
+					let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
 					let has_nodes = !nodes.is_empty();
 					if has_nodes {
 						// set nodes parent as target
-- 
2.43.0


From 5c38a13a6fb47a4cdb41f7a5f2aafec886c2e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:01 +0000
Subject: [PATCH 28/34] fix: ':checked' took an option for the default one
 although an option group before it has a selected option

---
 src/mesdoc/rules/pseudo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 479464a..44a4adf 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -963,7 +963,9 @@ fn pseudo_checked(rules: &mut Vec<RuleItem>) {
 								// check if is the first option, condition 3
 								let mut prev = ele.previous_element_sibling();
 								while let Some(prev_ele) = &prev {
-									if is_equal_chars(&prev_ele.tag_names(), &option_tag) {
+									if is_equal_chars(&prev_ele.tag_names(), &option_tag)
+										|| check_selected_option(prev_ele, &option_tag)
+									{
 										return false;
 									}
 									prev = prev_ele.previous_element_sibling();
-- 
2.43.0


From 2264908f23b9413d4ba6bdf720ad5f528dbc5df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:58 +0000
Subject: [PATCH 29/34] fix: Texts::filter_by panicked on the text of a content
 tag

---
 src/mesdoc/interface/texts.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/texts.rs b/src/mesdoc/interface/texts.rs
index 93ffc4b..b84eeab 100644
--- a/src/mesdoc/interface/texts.rs
+++ b/src/mesdoc/interface/texts.rs
@@ -1,5 +1,5 @@
 
-use super::BoxDynText;
+use super::{BoxDynText, IEnumTyped};
 
 pub struct Texts<'a> {
 	nodes: Vec<BoxDynText<'a>>,
@@ -54,13 +54,14 @@ impl<'a> Texts<'a> {
 		let mut result: Texts = Texts::with_capacity(self.length());
 		for (index, ele) in self.get_ref().iter().enumerate() {
 			if handle(index, ele) {
-				result.get_mut_ref().push(
-					ele
-						.clone_node()
-						.typed()
-						.into_text()
-						.expect("Text ele must can use 'into_text'."),
-				);
+				let text = match ele.clone_node().typed() {
+					// a content tag such as `textarea` is a text too
+					IEnumTyped::Element(content_tag) => content_tag.into_text().ok(),
+					typed => typed.into_text(),
+				};
+				result
+					.get_mut_ref()
+					.push(text.expect("Text ele must can use 'into_text'."));
 			}
 		}
 		result
-- 
2.43.0


From 16521ce5fc67a1f69762af2c3ce011e05c664d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:05 +0000
Subject: [PATCH 30/34] fix: a parentless element between two siblings was
 counted as one of them by the positional pseudo-classes

---
 src/mesdoc/rules/pseudo.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 44a4adf..b3610dc 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -142,6 +142,11 @@ where
 				data.allow_indexs = allow_indexs_fn(parent.children().length());
 				data.parent = Some(parent);
 			}
+		} else if !data.range.is_empty() {
+			// an element without a parent has no siblings, it ends the group
+			cb(&mut data);
+			data.range = 0..0;
+			data.parent = None;
 		}
 	}
 	if !data.range.is_empty() {
-- 
2.43.0


From b0b2fafdd78333636ef2e76578f1ce0ffbf7718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:59 +0000
Subject: [PATCH 31/34] fix: in a removed or copied tree the top element never
 matched the first part of a selector like 'div > p' in filter, is, not

---
 src/mesdoc/interface/elements.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index f173e08..ca9851b 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -962,8 +962,16 @@ impl<'a> Elements<'a> {
 					let lookup = Some(&query[..query_num - 1]);
 					let mut lasts = Elements::with_capacity(filtered.length());
 					let comb = &last_query_first_rule.1;
+					// the top element of a removed or copied tree has no document above it
+					// so it may match the first part of the selector by itself
+					let top = root_eles.get(0).expect("root element must have");
+					let top_matched = !top.is_root_element()
+						&& matches!(query[0][0].1, Combinator::ChildrenAll)
+						&& !Elements::select(root_eles, &query[0], Some(&chain_comb)).is_empty();
 					for ele in filtered.get_ref() {
-						if root_eles.has_ele(ele, comb, lookup) {
+						if root_eles.has_ele(ele, comb, lookup)
+							|| (top_matched && root_eles.has_ele(ele, comb, Some(&query[1..query_num - 1])))
+						{
 							lasts.get_mut_ref().push(ele.cloned());
 						}
 					}
-- 
2.43.0


From 32e77edec93b8788ca1b40080c7e8dfa52e6a535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:24 +0000
Subject: [PATCH 32/34] fix: a malformed selector nested in ':not' or ':has'
 was reported only when an element reached it, and ':not(:not([a))' selected
 elements

---
 src/mesdoc/selector/mod.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index 2ff23ce..83231d6 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -89,22 +89,35 @@ impl Selector {
 		}
 	}
 	pub fn from_str(context: &str, use_lookup: bool) -> Result<Self, Error> {
+		let mut selector = Selector::new();
+		if !context.is_empty() {
+			let splitter = SPLITTER.lock().unwrap();
+			let rules = RULES.lock().unwrap();
+			let groups = Selector::parse_groups(context, &rules, &splitter)?;
+			// optimize groups to query process
+			selector.optimize(groups, use_lookup);
+		}
+		Ok(selector)
+	}
+	// parse the selector into groups, a nested selector must be valid too
+	fn parse_groups(
+		context: &str,
+		rules: &[(&str, Arc<Rule>)],
+		splitter: &[BoxDynPattern],
+	) -> Result<SelectorGroups, Error> {
 		let chars: Vec<char> = context.chars().collect();
 		let total_len = chars.len();
-		let mut selector = Selector::new();
+		let mut groups: SelectorGroups = Vec::new();
 		if total_len > 0 {
 			let mut index: usize = 0;
 			let mut comb = Combinator::ChildrenAll;
 			let mut prev_in = PrevInSelector::Begin;
 			let mut last_in = prev_in;
-			let mut groups: SelectorGroups = Vec::new();
-			let splitter = SPLITTER.lock().unwrap();
-			let rules = RULES.lock().unwrap();
 			Selector::add_group(&mut groups);
 			while index < total_len {
 				let next_chars = &chars[index..];
 				// first check if combinator
-				if let Some((matched, len, _)) = Rule::exec_queues(&splitter, next_chars) {
+				if let Some((matched, len, _)) = Rule::exec_queues(splitter, next_chars) {
 					let op = matched[0].chars.iter().collect::<String>();
 					let op = op.trim();
 					if prev_in == PrevInSelector::Splitter {
@@ -167,10 +180,14 @@ impl Selector {
 							let (len, nested_matched) = Selector::parse_until(
 								&chars[index..],
 								&queues[queue_num + 1..],
-								&rules,
-								&splitter,
+								rules,
+								splitter,
 								0,
 							)?;
+							if let Some(nested) = nested_matched.first() {
+								let nested = nested.chars.iter().collect::<String>();
+								Selector::parse_groups(&nested, rules, splitter)?;
+							}
 							index += len;
 							matched.extend(nested_matched);
 							Selector::add_group_item(&mut groups, (r.make(matched), comb), is_new_item);
@@ -197,10 +214,8 @@ impl Selector {
 					reason: String::from("Wrong selector rule at last"),
 				});
 			}
-			// optimize groups to query process
-			selector.optimize(groups, use_lookup);
 		}
-		Ok(selector)
+		Ok(groups)
 	}
 	// add a selector group, splitted by ','
 	fn add_group(groups: &mut SelectorGroups) {
-- 
2.43.0


From 26cdae14cc27db61d0edb1ee61a142a80cbd2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 33/34] =?UTF-8?q?fix:=20':nth-child(1=D9=A3)'=20and=20the?=
 =?UTF-8?q?=20like,=20with=20digits=20that=20are=20not=20ASCII,=20were=20a?=
 =?UTF-8?q?ccepted=20and=20selected=20nothing?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/mesdoc/selector/pattern.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 89e80d4..acd1f07 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -194,7 +194,7 @@ impl Pattern for Nth {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let rule: RegExp = RegExp {
 			context: Cow::from(
-				r#"^(?:([-+])?([1-9]\d+|[0-9])?n(?:\s*([+-])\s*([1-9]\d+|[0-9]))?|([-+])?([1-9]\d+|[0-9]))"#,
+				r#"^(?:([-+])?([1-9][0-9]+|[0-9])?n(?:\s*([+-])\s*([1-9][0-9]+|[0-9]))?|([-+])?([1-9][0-9]+|[0-9]))"#,
 			),
 		};
 		let mut data = HashMap::with_capacity(2);
-- 
2.43.0


From 1fd47daf64ca65ddb0a100cf2339a7822f5e7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 34/34] fix: append_text and prepend_text panicked on the text
 of an emptied content tag such as title

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e08b879..2770904 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -426,20 +426,22 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		// append text
 		fn append_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
+			let mut node = self.borrow_mut();
+			if let Some(content) = &mut node.content {
 				content.extend(chars);
 			} else {
-				self.borrow_mut().content = Some(chars);
+				node.content = Some(chars);
 			}
 		}
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
+			let mut node = self.borrow_mut();
+			if let Some(content) = &mut node.content {
 				content.splice(0..0, chars);
 			} else {
-				self.borrow_mut().content = Some(chars);
+				node.content = Some(chars);
 			}
 		}
 	}
-- 
2.43.0

