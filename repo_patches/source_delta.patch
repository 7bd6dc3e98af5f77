From c8e18b1847b56478bc8641be30eb0a8772e3d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 001/102] fix: do not carry readings marked by IFF over to the
 next cohort

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index faaff84..edbd71c 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1366,6 +1366,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 					readings_changed = true;
 				}
+				removed.clear();
 				selected.clear();
 			}
 			else if (rule->type == K_REMOVE || rule->type == K_IFF) {
@@ -1399,6 +1400,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				if (get_apply_to().cohort->readings.empty()) {
 					initEmptyCohort(*get_apply_to().cohort);
 				}
+				removed.clear();
 				selected.clear();
 			}
 			else if (rule->type == K_JUMP) {
-- 
2.43.0


From d31a327c56093b18a9d7022384abcb70b1d51729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 002/102] fix: treat every cohort afresh when an UNSAFE IFF
 acted as SELECT on an earlier one

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index edbd71c..b4af810 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -381,6 +381,8 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		++rocit;
 
 		finish_reading_loop = true;
+		// An Iff that acted as Select on an earlier cohort must not be treated as Select for this cohort
+		type = rule.type;
 
 		if (debug_level > 1) {
 			std::cerr << "DEBUG: Trying cohort " << cohort->global_number << ":" << cohort->local_number << std::endl;
-- 
2.43.0


From 261d08da2b30d8fba770a4fc5ceebf43b26f9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 003/102] fix: let a lone tag absorb longer entries with the
 same prefix when added to a LIST

---
 src/Grammar.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 1dc50f4..83e56d9 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -591,10 +591,14 @@ void Grammar::addTagToSet(Tag* rtag, Set* set) {
 	}
 	if (rtag->type & T_SPECIAL) {
 		set->type |= ST_SPECIAL;
-		set->trie_special[rtag].terminal = true;
+		auto& node = set->trie_special[rtag];
+		node.terminal = true;
+		node.trie.reset();
 	}
 	else {
-		set->trie[rtag].terminal = true;
+		auto& node = set->trie[rtag];
+		node.terminal = true;
+		node.trie.reset();
 	}
 }
 
-- 
2.43.0


From 80d3f84508723d7be9ef33f48af25fc1bf24e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 004/102] fix: list the entries of deep tag tries without
 leaking tags between branches

---
 src/TagTrie.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index 79d5f97..764162a 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -176,14 +176,16 @@ inline void trie_getTags(const trie_t& trie, TagVectorSet& rv, TagVector& tv) {
 	for (auto& kv : trie) {
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
-			std::sort(tv.begin(), tv.end(), compare_Tag());
-			rv.insert(tv);
+			TagVector sorted(tv);
+			std::sort(sorted.begin(), sorted.end(), compare_Tag());
+			rv.insert(sorted);
 			tv.pop_back();
 			continue;
 		}
 		if (kv.second.trie) {
 			trie_getTags(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
@@ -216,6 +218,7 @@ inline void trie_getTagsOrdered(const trie_t& trie, TagVectorSet& rv, TagVector&
 		if (kv.second.trie) {
 			trie_getTagsOrdered(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
-- 
2.43.0


From 541243e55d100fded2168ee07fc6636d2acc431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 005/102] fix: retry rules after MOVE and SWITCH changed the
 order of cohorts

---
 src/GrammarApplicator_runRules.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index b4af810..0234a25 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2858,6 +2858,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 								iter->hit_by.push_back(rule->number);
 							}
 						}
+						index_ruleCohort_no.clear();
 						readings_changed = true;
 						sorter.do_sort = true;
 					}
-- 
2.43.0


From ffc89e47bc774c06cf4682fcf079734a1b7b4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 006/102] fix: retry rules after REMCOHORT removed a cohort
 that was not the last one

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 0234a25..d69b766 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1518,8 +1518,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							iter_rules_end = intersects.end();
 						}
 					}
-					index_ruleCohort_no.clear();
 				}
+				index_ruleCohort_no.clear();
 				readings_changed = true;
 				reset_cohorts_for_loop = true;
 			}
-- 
2.43.0


From afe030a9dd88b9cd4be63ecbe00630dd9e91913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 007/102] fix: refuse to merge the start-of-window cohort away
 in MERGECOHORTS

---
 src/GrammarApplicator_runRules.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index d69b766..a15822b 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2259,6 +2259,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 				}
 
+				// The magic >>> cohort cannot be merged away
+				for (auto c : withs) {
+					if (c->local_number == 0) {
+						finish_reading_loop = false;
+						return;
+					}
+				}
+
 				size_t spacesInAddedWf = 0;
 				context_stack.back().target.cohort = add_cohort(merge_at, spacesInAddedWf, &withs);
 
-- 
2.43.0


From a7fc2642c51e29d455e4943f58e1cf36d890f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 008/102] fix: do not skip the next candidate when a rule
 replaced the current cohort, nor read past the window end

---
 src/GrammarApplicator_runRules.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index a15822b..4836847 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -533,13 +533,19 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			override_cohortset();
 			cohortsets.back() = cohortset;
 			auto gac = get_apply_to().cohort;
+			if (gac->local_number >= current.cohorts.size()) {
+				// The cohort was removed from the end of the window, so there is nothing left to try
+				rocit = cohortset->size();
+				return;
+			}
 			auto lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
 			if (lb == cohortset->end()) {
 				rocit = cohortset->size();
 			} else {
 				rocit = cohortset->find_n(*lb);
 			}
-			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size()) {
+			// Step past the current cohort, but only if it is still a candidate - otherwise we're already at the next one
+			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size() && cohortset->at(rocit) == gac) {
 				++rocit;
 			}
 		};
-- 
2.43.0


From 58ac162945b8615c189c4ef988021cc7cf92d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 009/102] fix: keep the element count of interval vectors right
 for front inserts, and do not use invalidated iterators in erase

---
 src/interval_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index 3089415..d4011b4 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -174,6 +174,7 @@ public:
 	bool insert(T t) {
 		if (elements.empty()) {
 			elements.emplace_back(interval(t));
+			++_size;
 			return true;
 		}
 		auto it = std::lower_bound(elements.begin(), elements.end(), t);
@@ -190,6 +191,7 @@ public:
 			else {
 				elements.insert(it, interval(t));
 			}
+			++_size;
 			return true;
 		}
 		auto pr = it - 1;
@@ -249,8 +251,9 @@ public:
 			return true;
 		}
 		if (it->lb < t && it->ub > t) {
-			elements.insert(it + 1, interval(t + 1, it->ub));
+			const interval upper(t + 1, it->ub);
 			it->ub = t - 1;
+			elements.insert(it + 1, upper);
 			--_size;
 			return true;
 		}
-- 
2.43.0


From 7e983d836e3f90a23c449d7a8b9c31606da03c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 010/102] fix: do not crash when REMCOHORT removes a cohort
 whose dependency parent or child is already gone

---
 src/GrammarApplicator_runRules.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 4836847..4fe20ba 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1196,11 +1196,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			// ToDo: Named relations must be erased
 			while (!cohort->dep_children.empty()) {
 				uint32_t ch = cohort->dep_children.back();
-				if (cohort->dep_parent == DEP_NO_PARENT) {
-					attachParentChild(*gWindow->cohort_map[0], *gWindow->cohort_map[ch], true, true);
-				}
-				else {
-					attachParentChild(*gWindow->cohort_map[cohort->dep_parent], *gWindow->cohort_map[ch], true, true);
+				// The parent or child may already be gone, e.g. removed, ignored, or in a window that has been output
+				auto child = gWindow->cohort_map.find(ch);
+				if (child != gWindow->cohort_map.end()) {
+					auto parent = gWindow->cohort_map.find(cohort->dep_parent);
+					if (parent == gWindow->cohort_map.end()) {
+						parent = gWindow->cohort_map.find(0);
+					}
+					attachParentChild(*parent->second, *child->second, true, true);
 				}
 				cohort->dep_children.erase(ch);
 			}
-- 
2.43.0


From d69b6e30c3990492f6b685145b2c2199df69ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 011/102] fix: let the last cohort inherit the children when a
 SPLITCOHORT recipe designates none

---
 src/GrammarApplicator_runRules.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 4fe20ba..e66562e 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1683,6 +1683,15 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					rel_trg = UI32(cohorts.size() - 1);
 				}
 
+				// If no cohort was designated to inherit the children, then the last one does
+				bool has_tail = false;
+				for (const auto& it : cohort_dep) {
+					has_tail = has_tail || (it.first == DEP_NO_PARENT);
+				}
+				if (!has_tail) {
+					cohort_dep.back().first = DEP_NO_PARENT;
+				}
+
 				for (size_t i = 0; i < cohorts.size(); ++i) {
 					Cohort* cCohort = cohorts[i].first;
 					readings = &cohorts[i].second;
-- 
2.43.0


From eb204817dbb7bcd5e03a04d53d9bd0d41700e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:23 +0000
Subject: [PATCH 012/102] fix: let the only cohort of a one-cohort SPLITCOHORT
 inherit the parent

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index e66562e..29d4431 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1623,9 +1623,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				uint32_t rel_trg = DEP_NO_PARENT;
 				std::vector<std::pair<uint32_t, uint32_t>> cohort_dep(cohorts.size());
-				cohort_dep.front().second = DEP_NO_PARENT;
 				cohort_dep.back().first = DEP_NO_PARENT;
 				cohort_dep.back().second = UI32(cohort_dep.size() - 1);
+				cohort_dep.front().second = DEP_NO_PARENT; // Last, as there may be only one new cohort
 				for (size_t i = 1; i < cohort_dep.size() - 1; ++i) {
 					cohort_dep[i].second = UI32(i);
 				}
-- 
2.43.0


From 521532e25c275eb81a78747881d618e2db8d0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 013/102] fix: do not crash on SPLITCOHORT when a child is gone
 or the recipe links outside the new cohorts

---
 src/GrammarApplicator_runRules.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 29d4431..2f334b5 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1762,7 +1762,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					if (cohort_dep[i].first == DEP_NO_PARENT) {
 						while (!get_apply_to().cohort->dep_children.empty()) {
 							uint32_t ch = get_apply_to().cohort->dep_children.back();
-							attachParentChild(*cCohort, *current.parent->cohort_map[ch], true, true);
+							auto child = current.parent->cohort_map.find(ch);
+							if (child != current.parent->cohort_map.end()) {
+								attachParentChild(*cCohort, *child->second, true, true);
+							}
 							get_apply_to().cohort->dep_children.erase(ch); // Just in case the attachment can't be made for some reason
 						}
 					}
@@ -1773,7 +1776,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 					else {
-						attachParentChild(*current.parent->cohort_map[cohorts.front().first->global_number + cohort_dep[i].second - 1], *cCohort, true, true);
+						if (cohort_dep[i].second < 1 || cohort_dep[i].second > cohorts.size()) {
+							u_fprintf(ux_stderr, "Error: SPLITCOHORT dependency mapping dep_parent was not one of the new cohorts on line %u before input line %u.\n", rule->line, numLines);
+							CG3Quit(1);
+						}
+						attachParentChild(*cohorts[cohort_dep[i].second - 1].first, *cCohort, true, true);
 					}
 
 					// Re-attach all named relations to the dependency tail or R:* cohort
-- 
2.43.0


From 566546571deba74606333e8442b67395f50f5caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 014/102] fix: a grammar with only REMPARENT or SWITCHPARENT
 uses dependencies too

---
 src/TextualParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 96adfad..0d6427d 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -1546,7 +1546,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 			rule->dep_tests.pop_back();
 		}
 	}
-	if (key == K_SETPARENT || key == K_SETCHILD || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
+	if (key == K_SETPARENT || key == K_SETCHILD || key == K_REMPARENT || key == K_SWITCHPARENT || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
 		result->has_dep = true;
 	}
 	if (key == K_SETRELATION || key == K_SETRELATIONS || key == K_ADDRELATION || key == K_ADDRELATIONS || key == K_REMRELATION || key == K_REMRELATIONS || key == K_MERGECOHORTS) {
-- 
2.43.0


From b4c4d7114568cce14dca00790055dbb355ff1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 015/102] fix: REMPARENT and SWITCHPARENT also take the cohort
 out of its former parent's children

---
 src/GrammarApplicator.hpp          |  1 +
 src/GrammarApplicator_reflow.cpp   |  8 ++++++++
 src/GrammarApplicator_runRules.cpp | 18 ++++++++++++------
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index b2a900c..50198fa 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -357,6 +357,7 @@ protected:
 	bool isChildOf(const Cohort* child, const Cohort* parent);
 	bool wouldParentChildLoop(const Cohort* parent, const Cohort* child);
 	bool wouldParentChildCross(const Cohort* parent, const Cohort* child);
+	void detachFromParent(Cohort& child);
 	bool attachParentChild(Cohort& parent, Cohort& child, bool allowloop = false, bool allowcrossing = false);
 
 	void reflowTextuals_Reading(Reading& r);
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index aa9c194..0f04925 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -147,6 +147,14 @@ bool GrammarApplicator::wouldParentChildCross(const Cohort* parent, const Cohort
 	return false;
 }
 
+void GrammarApplicator::detachFromParent(Cohort& child) {
+	auto it = gWindow->cohort_map.find(child.dep_parent);
+	if (it != gWindow->cohort_map.end()) {
+		it->second->remChild(child.global_number);
+	}
+	child.dep_parent = DEP_NO_PARENT;
+}
+
 bool GrammarApplicator::attachParentChild(Cohort& parent, Cohort& child, bool allowloop, bool allowcrossing) {
 	parent.dep_self = parent.global_number;
 	child.dep_self = child.global_number;
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2f334b5..553a59c 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2695,7 +2695,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				// this is a per-cohort rule
 				finish_reading_loop = false;
 				TRACE;
-				get_apply_to().cohort->dep_parent = DEP_NO_PARENT;
+				detachFromParent(*get_apply_to().cohort);
+				index_ruleCohort_no.clear();
 			}
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
@@ -2704,21 +2705,26 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
-				Cohort* parent = current.parent->cohort_map[child->dep_parent];
+				auto parent_it = current.parent->cohort_map.find(child->dep_parent);
+				if (parent_it == current.parent->cohort_map.end()) {
+					return;
+				}
+				Cohort* parent = parent_it->second;
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-					if (iter->dep_parent == parent->global_number && doesSetMatchCohortNormal(*iter, rule->childset1)) {
+					if (iter != child && iter->dep_parent == parent->global_number && doesSetMatchCohortNormal(*iter, rule->childset1)) {
 						siblings.insert(iter);
 					}
 				}
 
 				// clear dependencies
-				child->dep_parent = DEP_NO_PARENT;
-				parent->dep_parent = DEP_NO_PARENT;
+				detachFromParent(*child);
+				detachFromParent(*parent);
 				for (auto s : siblings) {
-					s->dep_parent = DEP_NO_PARENT;
+					detachFromParent(*s);
 				}
+				index_ruleCohort_no.clear();
 
 				// reattach
 				auto it = current.parent->cohort_map.find(grandparent_number);
-- 
2.43.0


From e7767c82c34f1193bef75d1c2ee57ea69c762f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 016/102] fix: do not follow a dependency loop in another
 window forever when looking for ancestors

---
 src/CohortIterator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CohortIterator.cpp b/src/CohortIterator.cpp
index 38c2cf7..742b167 100644
--- a/src/CohortIterator.cpp
+++ b/src/CohortIterator.cpp
@@ -265,6 +265,7 @@ void DepAncestorIter::reset(Cohort* cohort, const ContextualTest* test, bool spa
 	m_cohort = nullptr;
 
 	if (cohort && test) {
+		CohortSet seen;
 		for (Cohort* current = cohort; current;) {
 			if (cohort->parent->parent->cohort_map.find(current->dep_parent) == cohort->parent->parent->cohort_map.end()) {
 				break;
@@ -279,11 +280,12 @@ void DepAncestorIter::reset(Cohort* cohort, const ContextualTest* test, bool spa
 					good = false;
 				}
 			}
+			// If insertion fails, we've come around in a loop, so don't continue looping
+			if (!seen.insert(current).second) {
+				break;
+			}
 			if (good) {
-				// If insertion fails, we've come around in a loop, so don't continue looping
-				if (!m_ancestors.insert(current).second) {
-					break;
-				}
+				m_ancestors.insert(current);
 			}
 		}
 
-- 
2.43.0


From 3a0124cac8f5aedadec270061dfd903bc222691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 017/102] fix: order cohorts by window before position when
 comparing across windows

---
 src/SingleWindow.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SingleWindow.hpp b/src/SingleWindow.hpp
index 09b7224..e055de9 100644
--- a/src/SingleWindow.hpp
+++ b/src/SingleWindow.hpp
@@ -62,10 +62,10 @@ SingleWindow* alloc_swindow(Window* p);
 void free_swindow(SingleWindow*& s);
 
 inline bool less_Cohort(const Cohort* a, const Cohort* b) {
-	if (a->local_number == b->local_number) {
-		return a->parent->number < b->parent->number;
+	if (a->parent->number == b->parent->number) {
+		return a->local_number < b->local_number;
 	}
-	return a->local_number < b->local_number;
+	return a->parent->number < b->parent->number;
 }
 
 struct compare_Cohort {
-- 
2.43.0


From 94dcc429bff2d0dab8f1f06634e2eeab27403435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 018/102] fix: accept the documented rr:rel and rrrr:rel
 positions

---
 src/TextualParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 0d6427d..67b7d4d 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -688,7 +688,7 @@ void TextualParser::parseContextualTestPosition(UChar*& p, ContextualTest& t) {
 			t.pos |= POS_RIGHT;
 			++p;
 		}
-		if (*p == 'r' && (t.pos & POS_RIGHT)) {
+		if (*p == 'r' && p[1] != ':' && (t.pos & POS_RIGHT)) {
 			t.pos &= ~UI64(POS_RIGHT);
 			t.pos |= POS_RIGHTMOST;
 			++p;
-- 
2.43.0


From 69220564a210088b66c949698e869cd89e66e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 019/102] fix: JUMP END and JUMP past the last active rule skip
 the remaining rules

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 src/TextualParser.cpp              | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 553a59c..41e76ee 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2944,6 +2944,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			goto bailout;
 		}
 		if (should_repeat) {
+			// A JUMP to an anchor past the last active rule has nothing left to run
+			if (iter_rules == iter_rules_end) {
+				break;
+			}
 			goto repeat_rule;
 		}
 
diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 67b7d4d..9f5bc18 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -3055,7 +3055,7 @@ int TextualParser::parse_grammar(UString& data) {
 
 	parseFromUChar(&data[4], filename);
 
-	result->addAnchor(keywords[K_END], UI32(result->rule_by_number.size() - 1), true);
+	result->addAnchor(keywords[K_END], UI32(result->rule_by_number.size()), true);
 
 	for (auto it : result->rule_by_number) {
 		if (!it->name.empty()) {
-- 
2.43.0


From 715e2414ec8686f27142a8a94dcc1dae24bcafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 020/102] fix: let --rule NAME select the rules of that name

---
 src/GrammarApplicator.cpp | 8 +++++---
 src/cg-proc.cpp           | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index cc21a37..86c07ba 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -900,7 +900,7 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 	bool needs_del = false;
 	if (!conv) {
 		needs_del = true;
-		UErrorCode status;
+		UErrorCode status = U_ZERO_ERROR;
 		conv = ucnv_open(ucnv_getDefaultName(), &status);
 	}
 
@@ -987,11 +987,13 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 			auto sn = options[RULE].value.size();
 			UString buf(sn * 3, 0);
 			ucnv_reset(conv);
-			ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status);
+			auto len = ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status);
+			buf.resize(len);
 
+			// valid_rules holds line numbers until index() turns them into rule numbers
 			for (auto rule : grammar->rule_by_number) {
 				if (rule->name == buf) {
-					valid_rules.push_back(rule->number);
+					valid_rules.push_back(rule->line);
 				}
 			}
 		}
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index 1f7e992..bc3f616 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -338,11 +338,12 @@ int main(int argc, char* argv[]) {
 	// This is if we want to run a single rule  (-r option)
 	if (!single_rule.empty()) {
 		auto sn = SI32(single_rule.size());
-		UString buf(sn * 3, 0);
+		UString buf(sn, 0);
 		u_charsToUChars(single_rule.data(), &buf[0], sn);
+		// valid_rules holds line numbers until index() turns them into rule numbers
 		for (auto rule : applicator->grammar->rule_by_number) {
 			if (rule->name == buf) {
-				applicator->valid_rules.push_back(rule->number);
+				applicator->valid_rules.push_back(rule->line);
 			}
 		}
 	}
-- 
2.43.0


From becb1ebe8b586b8b3fce08f00a185ac390e4106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 021/102] fix: do not keep freed ignored readings in a recycled
 cohort

---
 src/Cohort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Cohort.cpp b/src/Cohort.cpp
index b515dc6..111f4e1 100644
--- a/src/Cohort.cpp
+++ b/src/Cohort.cpp
@@ -129,6 +129,7 @@ void Cohort::clear() {
 	readings.clear();
 	deleted.clear();
 	delayed.clear();
+	ignored.clear();
 	wread = nullptr;
 }
 
-- 
2.43.0


From fe2ff413fda79c3748b0b22784db3af21778c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 022/102] fix: read numbers in math expressions without a fixed
 buffer or stale errno, and lowercase variables without reading out of bounds

---
 src/MathParser.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/MathParser.hpp b/src/MathParser.hpp
index 4733aa8..80b9548 100644
--- a/src/MathParser.hpp
+++ b/src/MathParser.hpp
@@ -24,6 +24,8 @@
 #include <cstdlib>
 #include <cctype>
 #include <cstring>
+#include <cerrno>
+#include <string>
 #include <cmath>
 
 #include "stdafx.hpp"
@@ -74,7 +76,7 @@ inline void MathParser::eval_assign(double& result) {
 	if (tok_type == VARIABLE) {
 		UStringView t_ptr = exp_ptr;
 		temp_token = token;
-		auto slot = token[0] - 'A';
+		auto slot = toupper(token[0]) - 'A';
 		get_token();
 		if (token[0] != '=') {
 			exp_ptr = t_ptr;
@@ -237,15 +239,14 @@ inline void MathParser::eval_func(double& result) {
 				result = max;
 			}
 			else {
-				result = vars[token[0] - 'A'];
+				result = vars[toupper(token[0]) - 'A'];
 			}
 			get_token();
 			return;
 		case NUMBER: {
-			char num[128];
-			std::copy(token.begin(), token.end(), num);
-			num[token.size()] = 0;
-			result = strtod(num, nullptr);
+			std::string num(token.begin(), token.end());
+			errno = 0;
+			result = strtod(num.c_str(), nullptr);
 			if (errno == ERANGE) {
 				throw std::runtime_error("Result did not fit in a double");
 			}
-- 
2.43.0


From 7d62445321a7a17b087ee19a909766ce65c2fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 023/102] fix: do not let line regular expressions match a tag
 that was removed from the reading

---
 src/GrammarApplicator_reflow.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 0f04925..0fb56fc 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -585,6 +585,17 @@ void GrammarApplicator::delTagFromReading(Reading& reading, uint32_t utag) {
 	if (utag == reading.baseform) {
 		reading.baseform = 0;
 	}
+	// ToDo: Remove for real ordered mode
+	if (ordered) {
+		reading.tags_string.clear();
+		for (auto tter : reading.tags_list) {
+			if (!reading.tags_string.empty()) {
+				reading.tags_string += ' ';
+			}
+			reading.tags_string += grammar->single_tags.find(tter)->second->tag;
+		}
+		reading.tags_string_hash = hash_value(reading.tags_string);
+	}
 	reading.rehash();
 	reading.parent->type &= ~CT_NUM_CURRENT;
 }
-- 
2.43.0


From 010503f5d4a93a8bba6709d961a1b35b58f2040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 024/102] fix: recompute the MIN and MAX of a cohort when its
 readings changed

---
 src/GrammarApplicator_reflow.cpp   | 1 +
 src/GrammarApplicator_runRules.cpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 0fb56fc..31b2975 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -348,6 +348,7 @@ void GrammarApplicator::reflowReading(Reading& reading) {
 	reading.tags_plain_bloom.clear();
 	reading.mapping = nullptr;
 	reading.tags_string.clear();
+	reading.parent->type &= ~CT_NUM_CURRENT;
 
 	insert_if_exists(reading.parent->possible_sets, grammar->sets_any);
 
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 41e76ee..9c3cea0 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1366,6 +1366,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 					target->readings.swap(selected);
+					target->type &= ~CT_NUM_CURRENT;
 					if (rule->flags & RF_DELAYED) {
 						target->delayed.insert(target->delayed.end(), drop.begin(), drop.end());
 					}
@@ -1403,6 +1404,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						removed.pop_back();
 					}
 					get_apply_to().cohort->readings.resize(oz);
+					get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 					if (debug_level > 0) {
 						std::cerr << "DEBUG: Rule " << rule->line << " hit cohort " << get_apply_to().cohort->local_number << std::endl;
 					}
@@ -1891,6 +1893,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							rl[i]->deleted = false;
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
+							get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 							rl.erase(rl.begin() + i);
 							did_restore = true;
 						}
@@ -2171,6 +2174,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						if ((*rit)->noprint) {
 							free_reading(*rit);
 							rit = get_apply_to().cohort->readings.erase(rit);
+							get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 							rit_end = get_apply_to().cohort->readings.end();
 						}
 					}
-- 
2.43.0


From 1bffe006878e3e95b3ca848f49151e607d1a1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 025/102] fix: retry rules whose target can come to match by
 other changes than added tags

---
 src/Grammar.cpp                    |  4 ++++
 src/GrammarApplicator_runRules.cpp | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 83e56d9..35bbbaf 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -1123,6 +1123,10 @@ void Grammar::indexSetToRule(uint32_t r, Set* s) {
 	if (s->type & (ST_SPECIAL | ST_TAG_UNIFY)) {
 		indexTagToRule(tag_any, r);
 	}
+	// Removing a tag can also make these match
+	else if (std::any_of(s->set_ops.begin(), s->set_ops.end(), [](uint32_t op) { return op == S_MINUS || op == S_FAILFAST; })) {
+		indexTagToRule(tag_any, r);
+	}
 
 	trie_indexToRule(s->trie, *this, r);
 	trie_indexToRule(s->trie_special, *this, r);
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 9c3cea0..1a4271f 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -801,7 +801,8 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		// If none of the readings were valid targets, remove this cohort from the rule's possible cohorts.
 		if (num_active == 0 && (num_iff == 0 || rule.type != K_IFF)) {
-			if (num_immutable == 0 && !matched_target) {
+			// ...but only if added tags are all that can make it valid later, since that's what updateValidRules() looks for.
+			if (num_immutable == 0 && !matched_target && !(grammar->rules_any && grammar->rules_any->contains(rule.number))) {
 				--rocit;                         // We have already incremented rocit earlier, so take one step back...
 				cohortset->erase_n(rocit); // ...and one step forward again
 			}
@@ -1894,6 +1895,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
 							get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
+							for (auto sub = rl[i]; sub; sub = sub->next) {
+								for (auto tter : sub->tags_list) {
+									if (updateValidRules(rules, intersects, tter, *sub)) {
+										iter_rules = intersects.find(rule->number);
+										iter_rules_end = intersects.end();
+									}
+								}
+							}
 							rl.erase(rl.begin() + i);
 							did_restore = true;
 						}
-- 
2.43.0


From 685faacce3fa0a4e405045bfbd4c90ad6495a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 026/102] fix: a case marker with nothing after it does not
 overwrite the preceding character

---
 src/GrammarApplicator_reflow.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 31b2975..8d34a02 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -427,7 +427,10 @@ Tag* GrammarApplicator::generateVarstringTag(const Tag* tag) {
 		if (found && mpos != -1) {
 			UChar mode = tmp[mpos + 1];
 			tmp.remove(mpos, 2);
-			if (mode == 'u') {
+			if (mpos >= tmp.length()) {
+				// There is nothing after the marker to change the case of
+			}
+			else if (mode == 'u') {
 				UnicodeString range(tmp, mpos, 1);
 				range.toUpper();
 				tmp.setCharAt(mpos, range[0]);
-- 
2.43.0


From ab1416b24fd42c6c4dc218cf144c6d0e043c4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 027/102] fix: retry rules after SETVARIABLE or REMVARIABLE
 changed a variable

---
 src/GrammarApplicator_runRules.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 1a4271f..8a76b42 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1449,6 +1449,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							current.variables_output.insert(it->first);
 						}
 						variables.erase(it);
+						index_ruleCohort_no.clear();
 						//u_fprintf(ux_stderr, "Info: RemVariable fired for %S.\n", tag->tag.data());
 					}
 				}
@@ -1458,7 +1459,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				auto values = getTagList(*rule->sublist);
 				VARSTRINGIFY(names.front());
 				VARSTRINGIFY(values.front());
-				variables[names.front()->hash] = values.front()->hash;
+				auto it = variables.find(names.front()->hash);
+				if (it == variables.end() || it->second != values.front()->hash) {
+					variables[names.front()->hash] = values.front()->hash;
+					index_ruleCohort_no.clear();
+				}
 				if (rule->flags & RF_OUTPUT) {
 					current.variables_output.insert(names.front()->hash);
 				}
-- 
2.43.0


From 8f193c6d800bcc8c9ee328d880359b6fc242ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 028/102] fix: VAR:/key/r=value considers every variable the
 key matches, not the first in hash order

---
 src/GrammarApplicator_matchSet.cpp | 40 ++++++++++++++----------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 7b6e5d9..620952a 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -492,36 +492,34 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		auto kit = grammar->single_tags.find(tag.comparison_hash);
 		if (kit != grammar->single_tags.end()) {
 			auto key = kit->second;
+			auto matchValue = [&](uint32_t value) {
+				if (tag.variable_hash == 0) {
+					return true;
+				}
+				auto comp = grammar->single_tags.find(tag.variable_hash)->second;
+				if (comp->type & T_REGEXP) {
+					return doesTagMatchRegexp(value, *comp, bypass_index) != 0;
+				}
+				if (comp->type & T_CASE_INSENSITIVE) {
+					return doesTagMatchIcase(value, *comp, bypass_index) != 0;
+				}
+				return comp->hash == value;
+			};
 			auto it = vars.begin();
 			if (key->type & T_REGEXP) {
-				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchRegexp(kv.first, *key, bypass_index); });
+				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchRegexp(kv.first, *key, bypass_index) && matchValue(kv.second); });
 			}
 			else if (key->type & T_CASE_INSENSITIVE) {
-				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchIcase(kv.first, *key, bypass_index); });
+				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchIcase(kv.first, *key, bypass_index) && matchValue(kv.second); });
 			}
 			else {
 				it = vars.find(tag.comparison_hash);
+				if (it != vars.end() && !matchValue(it->second)) {
+					it = vars.end();
+				}
 			}
 			if (it != vars.end()) {
-				if (tag.variable_hash == 0) {
-					match = tag.hash;
-				}
-				else {
-					auto comp = grammar->single_tags.find(tag.variable_hash)->second;
-					if (comp->type & T_REGEXP) {
-						if (doesTagMatchRegexp(it->second, *comp, bypass_index)) {
-							match = tag.hash;
-						}
-					}
-					else if (comp->type & T_CASE_INSENSITIVE) {
-						if (doesTagMatchIcase(it->second, *comp, bypass_index)) {
-							match = tag.hash;
-						}
-					}
-					else if (comp->hash == it->second) {
-						match = tag.hash;
-					}
-				}
+				match = tag.hash;
 			}
 		}
 	}
-- 
2.43.0


From 4e17855ddeeaa07bb43086d3b072a1f9de8a2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 029/102] fix: track the active enclosure by its cohorts and
 unpack one enclosure at a time

---
 src/GrammarApplicator.hpp                   |  3 +-
 src/GrammarApplicator_matchSet.cpp          |  9 ++-
 src/GrammarApplicator_runContextualTest.cpp | 18 ++++--
 src/GrammarApplicator_runRules.cpp          | 65 +++++++++++----------
 4 files changed, 55 insertions(+), 40 deletions(-)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index 50198fa..bb03ea0 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -244,7 +244,7 @@ protected:
 	uint32_t begintag = 0, endtag = 0, substtag = 0;
 	Tag *tag_begin = nullptr, *tag_end = nullptr, *tag_subst = nullptr;
 	uint32_t par_left_tag = 0, par_right_tag = 0;
-	uint32_t par_left_pos = 0, par_right_pos = 0;
+	Cohort *par_left = nullptr, *par_right = nullptr; // Of the currently active enclosure
 	bool did_final_enclosure = false;
 	uint32_t mprefix_key = 0, mprefix_value = 0;
 
@@ -325,6 +325,7 @@ protected:
 	Cohort* runContextualTest_tmpl(SingleWindow* sWindow, size_t position, const ContextualTest* test, ContextualTest* tmpl, Cohort*& cdeep, Cohort* origin);
 	Cohort* runContextualTest(SingleWindow* sWindow, size_t position, const ContextualTest* test, Cohort** deep = nullptr, Cohort* origin = nullptr);
 	Cohort* runDependencyTest(SingleWindow* sWindow, Cohort* current, const ContextualTest* test, Cohort** deep = nullptr, Cohort* origin = nullptr, const Cohort* self = nullptr);
+	bool isInEnclosure(const Cohort* cohort) const;
 	Cohort* runParenthesisTest(SingleWindow* sWindow, const Cohort* current, const ContextualTest* test, Cohort** deep = nullptr, Cohort* origin = nullptr);
 	Cohort* runRelationTest(SingleWindow* sWindow, Cohort* current, const ContextualTest* test, Cohort** deep = nullptr, Cohort* origin = nullptr);
 
diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 620952a..fc40516 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -524,12 +524,12 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		}
 	}
 	else if (tag.type & T_PAR_LEFT) {
-		if (par_left_tag && reading.parent->local_number == par_left_pos && reading.tags.find(par_left_tag) != reading.tags.end()) {
+		if (par_left_tag && reading.parent == par_left && reading.tags.find(par_left_tag) != reading.tags.end()) {
 			match = grammar->tag_any;
 		}
 	}
 	else if (tag.type & T_PAR_RIGHT) {
-		if (par_right_tag && reading.parent->local_number == par_right_pos && reading.tags.find(par_right_tag) != reading.tags.end()) {
+		if (par_right_tag && reading.parent == par_right && reading.tags.find(par_right_tag) != reading.tags.end()) {
 			match = grammar->tag_any;
 		}
 	}
@@ -537,7 +537,10 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		auto sw = reading.parent->parent;
 		auto c = std::find(sw->all_cohorts.begin() + reading.parent->local_number, sw->all_cohorts.end(), reading.parent);
 		++c;
-		if (c != sw->all_cohorts.end() && (*c)->enclosed) {
+		while (c != sw->all_cohorts.end() && ((*c)->type & (CT_REMOVED | CT_IGNORED))) {
+			++c;
+		}
+		if (c != sw->all_cohorts.end() && ((*c)->type & CT_ENCLOSED)) {
 			match = true;
 		}
 	}
diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 55e0417..c675bd5 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -778,8 +778,18 @@ Cohort* GrammarApplicator::runDependencyTest(SingleWindow* sWindow, Cohort* curr
 	return rv;
 }
 
-Cohort* GrammarApplicator::runParenthesisTest(SingleWindow* sWindow, const Cohort* current, const ContextualTest* test, Cohort** deep, Cohort* origin) {
-	if (current->local_number < par_left_pos || current->local_number > par_right_pos) {
+bool GrammarApplicator::isInEnclosure(const Cohort* cohort) const {
+	if (!par_left || !par_right || ((par_left->type | par_right->type) & (CT_REMOVED | CT_IGNORED))) {
+		return false;
+	}
+	if (cohort->parent != par_left->parent || cohort->parent != par_right->parent) {
+		return false;
+	}
+	return (cohort->local_number >= par_left->local_number && cohort->local_number <= par_right->local_number);
+}
+
+Cohort* GrammarApplicator::runParenthesisTest(SingleWindow*, const Cohort* current, const ContextualTest* test, Cohort** deep, Cohort* origin) {
+	if (!isInEnclosure(current)) {
 		return 0;
 	}
 	Cohort* rv = nullptr;
@@ -788,10 +798,10 @@ Cohort* GrammarApplicator::runParenthesisTest(SingleWindow* sWindow, const Cohor
 	uint8_t rvs = 0;
 	Cohort* cohort = nullptr;
 	if (test->pos & POS_LEFT_PAR) {
-		cohort = sWindow->cohorts[par_left_pos];
+		cohort = par_left;
 	}
 	else {
-		cohort = sWindow->cohorts[par_right_pos];
+		cohort = par_right;
 	}
 	runSingleTest(cohort, test, rvs, &retval, deep, origin);
 	if (retval) {
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 8a76b42..57b2da2 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -452,16 +452,13 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		// If the rule is only supposed to run inside a parentheses, check if cohort is.
 		if (rule.flags & RF_ENCL_INNER) {
-			if (!par_left_pos) {
-				continue;
-			}
-			if (cohort->local_number < par_left_pos || cohort->local_number > par_right_pos) {
+			if (!isInEnclosure(cohort)) {
 				continue;
 			}
 		}
 		// ...and if the rule should only run outside parentheses, check if cohort is.
 		else if (rule.flags & RF_ENCL_OUTER) {
-			if (par_left_pos && cohort->local_number >= par_left_pos && cohort->local_number <= par_right_pos) {
+			if (isInEnclosure(cohort)) {
 				continue;
 			}
 		}
@@ -3136,8 +3133,8 @@ void GrammarApplicator::runGrammarOnWindow() {
 
 	par_left_tag = 0;
 	par_right_tag = 0;
-	par_left_pos = 0;
-	par_right_pos = 0;
+	par_left = nullptr;
+	par_right = nullptr;
 	uint32_t pass = 0;
 
 label_runGrammarOnWindow_begin:
@@ -3198,40 +3195,44 @@ label_unpackEnclosures:
 				}
 				size_t ni = current->all_cohorts[la]->local_number;
 
+				auto left = c;
+				auto right = c;
+				auto pright = grammar->parentheses.find(left->is_pleft);
+
+				// Only unpack the one enclosure that starts at left; others may follow it immediately
 				size_t ra = i;
-				size_t ne = 0;
+				CohortVector encs;
 				for (; ra < nc; ++ra) {
-					if (!(current->all_cohorts[ra]->type & (CT_ENCLOSED | CT_REMOVED | CT_IGNORED))) {
+					auto e = current->all_cohorts[ra];
+					if (!(e->type & (CT_ENCLOSED | CT_REMOVED | CT_IGNORED))) {
 						break;
 					}
-					--(current->all_cohorts[ra]->enclosed);
-					if (current->all_cohorts[ra]->enclosed == 0) {
-						current->all_cohorts[ra]->type &= ~CT_ENCLOSED;
-						++ne;
+					if (!(e->type & CT_ENCLOSED)) {
+						continue;
+					}
+					right = e;
+					--(e->enclosed);
+					if (e->enclosed == 0) {
+						e->type &= ~CT_ENCLOSED;
+						encs.push_back(e);
+						if (pright != grammar->parentheses.end() && e->is_pright == pright->second) {
+							break;
+						}
 					}
 				}
 
-				current->cohorts.resize(current->cohorts.size() + ne, nullptr);
-				for (size_t j = current->cohorts.size() - 1; j > ni + ne; --j) {
-					current->cohorts[j] = current->cohorts[j - ne];
+				current->cohorts.insert(current->cohorts.begin() + ni + 1, encs.begin(), encs.end());
+				for (size_t j = ni + 1; j < current->cohorts.size(); ++j) {
 					current->cohorts[j]->local_number = UI32(j);
-					current->cohorts[j - ne] = nullptr;
-				}
-				for (size_t j = 0; i < ra; ++i) {
-					if (current->all_cohorts[i]->enclosed == 0) {
-						current->cohorts[ni + j + 1] = current->all_cohorts[i];
-						current->cohorts[ni + j + 1]->local_number = UI32(ni + j + 1);
-						current->cohorts[ni + j + 1]->parent = current;
-						++j;
-					}
+					current->cohorts[j]->parent = current;
 				}
-				par_left_tag = current->all_cohorts[la + 1]->is_pleft;
-				par_right_tag = current->all_cohorts[ra - 1]->is_pright;
+				par_left_tag = left->is_pleft;
+				par_right_tag = right->is_pright;
 				if (verbosity_level > 0) {
-					u_fprintf(ux_stderr, "Info: Unwrapped enclosure between lines %u to %u\n", current->all_cohorts[la + 1]->line_number, current->all_cohorts[ra - 1]->line_number);
+					u_fprintf(ux_stderr, "Info: Unwrapped enclosure between lines %u to %u\n", left->line_number, right->line_number);
 				}
-				par_left_pos = UI32(ni + 1);
-				par_right_pos = UI32(ni + ne);
+				par_left = left;
+				par_right = right;
 				if (rv & RV_TRACERULE) {
 					goto label_unpackEnclosures;
 				}
@@ -3241,8 +3242,8 @@ label_unpackEnclosures:
 		if (!did_final_enclosure) {
 			par_left_tag = 0;
 			par_right_tag = 0;
-			par_left_pos = 0;
-			par_right_pos = 0;
+			par_left = nullptr;
+			par_right = nullptr;
 			did_final_enclosure = true;
 			if (rv & RV_TRACERULE) {
 				goto label_unpackEnclosures;
-- 
2.43.0


From 160d59af67994543c89e1aa5cc4857646606bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 030/102] fix: text delimiters look only at the current line,
 complete empty cohorts, and survive a FLUSH

---
 src/GrammarApplicator_runGrammar.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index d45d05d..0311886 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -32,7 +32,7 @@ inline bool testStringAgainst(const UString& str, std::vector<URegularExpression
 
 	for (size_t i = 0; i < rxs.size(); ++i) {
 		UErrorCode status = U_ZERO_ERROR;
-		uregex_setText(rxs[i], str.data(), SI32(str.size()), &status);
+		uregex_setText(rxs[i], str.data(), u_strlen(str.data()), &status);
 		if (status != U_ZERO_ERROR) {
 			CG3Quit(1);
 		}
@@ -492,10 +492,11 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						for (auto iter : cCohort->readings) {
 							addTagToReading(*iter, endtag);
 						}
-						cReading = lReading = nullptr;
-						cCohort = lCohort = nullptr;
-						cSWindow = lSWindow = nullptr;
 					}
+					// All windows will be output and freed, so nothing may refer to them
+					cReading = lReading = nullptr;
+					cCohort = lCohort = nullptr;
+					cSWindow = lSWindow = nullptr;
 					while (!gWindow->next.empty()) {
 						gWindow->shuffleWindowsDown();
 						runGrammarOnWindow();
@@ -660,6 +661,9 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					if (lSWindow && lCohort && testStringAgainst(line, text_delimiters)) {
 						lSWindow->text_post += &line[0];
 
+						if (cCohort->readings.empty()) {
+							initEmptyCohort(*cCohort);
+						}
 						for (auto iter : cCohort->readings) {
 							addTagToReading(*iter, endtag);
 						}
-- 
2.43.0


From c3ecaa4598ef4208ee30cacebc285a1e30a3d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 031/102] fix: --dep-delimit only considers cohorts that have a
 number, within one window

---
 src/GrammarApplicator_runGrammar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 0311886..d1bfde7 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -260,6 +260,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 				cCohort = nullptr;
 				++numWindows;
 				did_soft_lookback = false;
+				dep_highest_seen = 0;
 			}
 			if (cCohort && cSWindow) {
 				splitAllMappings(all_mappings, *cCohort, true);
@@ -424,7 +425,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 			++numReadings;
 
 			// Check whether the cohort still belongs to the window, as per --dep-delimit
-			if (!is_deleted && dep_delimit && dep_highest_seen && (cCohort->dep_self <= dep_highest_seen || cCohort->dep_self - dep_highest_seen > dep_delimit)) {
+			if (!is_deleted && dep_delimit && dep_highest_seen && cCohort->dep_self && (cCohort->dep_self <= dep_highest_seen || cCohort->dep_self - dep_highest_seen > dep_delimit)) {
 				reflowDependencyWindow(cCohort->global_number);
 
 				for (auto iter : cSWindow->cohorts.back()->readings) {
-- 
2.43.0


From abca64cd732e8507af00b9394663b1f863562c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 032/102] fix: readings with and without a mapping, hit by
 consecutive rules, are not merged in the trace

---
 src/GrammarApplicator_reflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 8d34a02..f7f4c3d 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -759,7 +759,7 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 			}
 		}
 		mapped[hplain] = std::make_pair(nm, r);
-		mlist[hp + nm].push_back(r);
+		mlist[hash_value(nm, hp)].push_back(r);
 	}
 
 	if (mlist.size() == readings.size()) {
-- 
2.43.0


From d5d0884bad50ec8ecb87add0bc73cc6e2fc7990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 033/102] fix: WITH keeps its own list of cohorts per level and
 does not disturb the enclosing loop

---
 src/GrammarApplicator_runRules.cpp | 74 +++++++++++++++---------------
 src/SingleWindow.hpp               |  2 -
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 57b2da2..3d765c0 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -78,24 +78,13 @@ bool GrammarApplicator::updateRuleToCohorts(Cohort& c, const uint32_t& rsit) {
 		csi.push_back(i);
 	}
 	if (!csi.empty()) {
-		auto cap = cohortset.capacity();
-		std::vector<size_t*> ends;
-		std::vector<std::pair<size_t*,Cohort*>> chs;
-		for (size_t i = 0; i < csi.size(); ++i) {
-			if (*rocits[csi[i]] >= cohortset.size()) {
-				ends.push_back(rocits[csi[i]]);
-			}
-			else {
-				chs.push_back(std::pair(rocits[csi[i]], cohortset.at(*rocits[csi[i]])));
-			}
-		}
-		cohortset.insert(&c);
-		for (auto it : ends) {
-			*it = cohortset.size();
-		}
-		if (cap != cohortset.capacity()) {
-			for (auto& it : chs) {
-				*it.first = cohortset.find_n(it.second);
+		// Loops that are past the place where the cohort is inserted must keep their place; the others will get to it
+		if (cohortset.insert(&c).second) {
+			auto n = cohortset.find_n(&c);
+			for (auto i : csi) {
+				if (n < *rocits[i]) {
+					++(*rocits[i]);
+				}
 			}
 		}
 	}
@@ -348,28 +337,32 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 	const Set& set = *(grammar->sets_list[rule.target]);
 	CohortSet* cohortset = &current.rule_to_cohorts[rule.number];
 
-	auto override_cohortset = [&]() {
-		if (in_nested) {
-			if (!current.nested_rule_to_cohorts) {
-				current.nested_rule_to_cohorts.reset(new CohortSet());
+	// Nested rules only consider the outer target and the contexts the outer rule captured. These may themselves nest, so each level keeps its own list.
+	CohortSet nested_cohorts;
+	if (in_nested) {
+		cohortset = &nested_cohorts;
+		auto insert_nested = [&](Cohort* c) {
+			// NEGATE and NOT contexts may hold without there being a cohort, and an earlier nested rule may have removed it
+			if (c && !(c->type & (CT_REMOVED | CT_IGNORED))) {
+				cohortset->insert(c);
 			}
-			cohortset = current.nested_rule_to_cohorts.get();
-			cohortset->clear();
-			cohortset->insert(get_apply_to().cohort);
-			for (auto& t : set.trie_special) {
-				if (t.first->type & T_CONTEXT && t.first->context_ref_pos <= context_stack.back().context.size()) {
-					cohortset->insert(context_stack.back().context[t.first->context_ref_pos - 1]);
-				}
+		};
+		insert_nested(get_apply_to().cohort);
+		for (auto& t : set.trie_special) {
+			if (t.first->type & T_CONTEXT && t.first->context_ref_pos <= context_stack.back().context.size()) {
+				insert_nested(context_stack.back().context[t.first->context_ref_pos - 1]);
 			}
 		}
-	};
-	override_cohortset();
+	}
+	bool did_reset = false;
 	cohortsets.push_back(cohortset);
 	rocits.push_back(nullptr);
 
 	scope_guard popper([&]() {
 		cohortsets.pop_back();
 		rocits.pop_back();
+		// Let an enclosing WITH know that its list of cohorts is also outdated
+		reset_cohorts_for_loop = reset_cohorts_for_loop || did_reset;
 		});
 
 	if (debug_level > 1) {
@@ -526,9 +519,8 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		}
 
 		auto reset_cohorts = [&]() {
-			cohortset = &current.rule_to_cohorts[rule.number];
-			override_cohortset();
-			cohortsets.back() = cohortset;
+			did_reset = true;
+			cohortset->sort();
 			auto gac = get_apply_to().cohort;
 			if (gac->local_number >= current.cohorts.size()) {
 				// The cohort was removed from the end of the window, so there is nothing left to try
@@ -945,6 +937,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 		bool readings_changed = false;
 		bool should_repeat = false;
+		uint32_t jump_to = 0;
 		bool should_bail = false;
 
 		auto reindex = [&](SingleWindow* which = nullptr) {
@@ -1422,7 +1415,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					u_fprintf(ux_stderr, "Warning: JUMP on line %u could not find anchor '%S'.\n", rule->line, to->tag.data());
 				}
 				else {
-					iter_rules = intersects.lower_bound(it->second);
+					jump_to = it->second;
 					finish_cohort_loop = false;
 					should_repeat = true;
 				}
@@ -2921,6 +2914,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			else if (rule->type == K_WITH) {
 				TRACE;
 				bool any_readings_changed = false;
+				bool any_reset = false;
+				const bool was_nested = in_nested;
 				readings_changed = false;
 				in_nested = true;
 				for (auto& sr : rule->sub_rules) {
@@ -2933,12 +2928,17 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						readings_changed = false;
 						result = runSingleRule(current, *rule, reading_cb, cohort_cb);
 						any_readings_changed = any_readings_changed || result || readings_changed;
+						any_reset = any_reset || reset_cohorts_for_loop;
 					} while ((result || readings_changed) && (rule->flags & RF_REPEAT) != 0) ;
 					current_rule = cur_was;
 					rule = rule_was;
 				}
-				in_nested = false;
+				in_nested = was_nested;
 				readings_changed = any_readings_changed;
+				reset_cohorts_for_loop = any_reset;
+				// The nested rules looked for themselves in the list of active rules, but they are not in it
+				iter_rules = intersects.find(rule->number);
+				iter_rules_end = intersects.end();
 				finish_reading_loop = false;
 			}
 			else if (rule->type != K_REMCOHORT) {
@@ -2959,6 +2959,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			goto bailout;
 		}
 		if (should_repeat) {
+			iter_rules = intersects.lower_bound(jump_to);
+			iter_rules_end = intersects.end();
 			// A JUMP to an anchor past the last active rule has nothing left to run
 			if (iter_rules == iter_rules_end) {
 				break;
diff --git a/src/SingleWindow.hpp b/src/SingleWindow.hpp
index e055de9..1a6a38d 100644
--- a/src/SingleWindow.hpp
+++ b/src/SingleWindow.hpp
@@ -44,8 +44,6 @@ public:
 	uint32IntervalVector valid_rules;
 	uint32SortedVector hit_external;
 	std::vector<CohortSet> rule_to_cohorts;
-	// Used by GrammarApplicator::runSingleRule so that it doesn't need to allocate a new one or edit a rule's actual list when applying a subrule of WITH
-	std::unique_ptr<CohortSet> nested_rule_to_cohorts;
 	uint32FlatHashMap variables_set;
 	uint32FlatHashSet variables_rem;
 	uint32SortedVector variables_output;
-- 
2.43.0


From e5cf8ad23951b040e8a9fef171e5320ac4bb25e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 034/102] fix: let $$ and && refer to a set that was defined as
 an alias of another set

---
 src/parser_helpers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser_helpers.hpp b/src/parser_helpers.hpp
index 4667978..588fa37 100644
--- a/src/parser_helpers.hpp
+++ b/src/parser_helpers.hpp
@@ -447,6 +447,9 @@ Set* parseSet(const UChar* name, const UChar* p, State& state) {
 			wname = wname2;
 		}
 		uint32_t wrap = hash_value(wname);
+		if (state.get_grammar()->set_alias.find(wrap) != state.get_grammar()->set_alias.end()) {
+			wrap = state.get_grammar()->set_alias[wrap];
+		}
 		Set* wtmp = state.get_grammar()->getSet(wrap);
 		if (!wtmp) {
 			state.error("%s: Error: Attempted to reference undefined set '%S' on line %u near `%S`!\n", wname, p);
-- 
2.43.0


From f1d73b6f55a03611e3e51d8685b18975d1021b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 035/102] fix: restore the expression offset of numeric math
 tags when reading a binary grammar

---
 src/BinaryGrammar_read.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index 9d37e63..ad52bd1 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -174,6 +174,11 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 				input.read(&cbuffers[0][0], u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 				t->tag = &gbuffers[0][0];
+				if (t->type & T_NUMERIC_MATH) {
+					// The offset of the expression in the tag is not stored, so find it again
+					auto off = t->tag.find_first_of(u"<>=:!", 1);
+					t->comparison_offset = SI32(t->tag.find_first_not_of(u"<>=:!", off));
+				}
 			}
 		}
 
-- 
2.43.0


From bb89778ebb0ddc007a29880381db9863afcfb21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 036/102] fix: do not reverse the contextual tests of the
 grammar in use when writing it as binary

---
 src/BinaryGrammar_write.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BinaryGrammar_write.cpp b/src/BinaryGrammar_write.cpp
index 4b85b08..f5727a3 100644
--- a/src/BinaryGrammar_write.cpp
+++ b/src/BinaryGrammar_write.cpp
@@ -415,15 +415,15 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 		}
 		writeBE(output, u32tmp);
 
-		r->reverseContextualTests();
+		// Written in reverse, because the reader adds each test to the front of the list
 		writeBE(output, UI32(r->dep_tests.size()));
-		for (auto it : r->dep_tests) {
-			writeBE(output, it->hash);
+		for (auto it = r->dep_tests.rbegin(); it != r->dep_tests.rend(); ++it) {
+			writeBE(output, (*it)->hash);
 		}
 
 		writeBE(output, UI32(r->tests.size()));
-		for (auto it : r->tests) {
-			writeBE(output, it->hash);
+		for (auto it = r->tests.rbegin(); it != r->tests.rend(); ++it) {
+			writeBE(output, (*it)->hash);
 		}
 
 		if (!r->sub_rules.empty()) {
-- 
2.43.0


From da02a80141c1e37818fd1f4c6d6c7a59e39af6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 037/102] fix: do not overflow the name buffer on relation tags
 with long names

---
 src/Tag.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Tag.cpp b/src/Tag.cpp
index 1096516..38901ff 100644
--- a/src/Tag.cpp
+++ b/src/Tag.cpp
@@ -124,11 +124,11 @@ void Tag::parseTagRaw(const UChar* to, Grammar* grammar) {
 		}
 	}
 	if (tag[0] == 'R' && tag[1] == ':') {
-		UChar relname[256];
+		UString relname(tag.size() + 1, 0);
 		dep_parent = std::numeric_limits<uint32_t>::max();
-		if (u_sscanf(tag.data(), "R:%[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
+		if (u_sscanf(tag.data(), "R:%[^:]:%i", &relname[0], &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
 			type |= T_RELATION;
-			Tag* reltag = grammar->allocateTag(relname);
+			Tag* reltag = grammar->allocateTag(relname.data());
 			comparison_hash = reltag->hash;
 		}
 	}
-- 
2.43.0


From a9eadfa9b584f50739c4c926a2a3cdaa47d088d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 038/102] fix: remember that an OLIST is ordered, so that
 --grammar-out writes it as one

---
 src/TextualParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 9f5bc18..68f0da3 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -2221,6 +2221,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				if (*p == 'O') {
 					++p;
 					ordered = true;
+					s->type |= ST_ORDERED;
 				}
 				p += 4;
 				result->lines += SKIPWS(p);
-- 
2.43.0


From 05580cabd2439c6a12d331e653fa662cc3238a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 039/102] fix: --grammar-out keeps empty sections, so that
 section numbers stay the same

---
 src/GrammarWriter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index e58b5be..59027bb 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -208,14 +208,11 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 		}
 	}
 	for (auto isec : grammar->sections) {
-		found = false;
+		// Also write empty sections, so that the sections keep their numbers
+		u_fprintf(output, "\nSECTION\n");
 		for (auto rule_iter : grammar->rule_by_number) {
 			const Rule& r = *rule_iter;
 			if (r.section == SI32(isec)) {
-				if (!found) {
-					u_fprintf(output, "\nSECTION\n");
-					found = true;
-				}
 				printRule(output, r);
 				u_fprintf(output, " ;\n");
 			}
-- 
2.43.0


From bd68c0d05dfa3469489ef363abc4df8424419e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 040/102] fix: --grammar-out keeps NOT, NONE, and ALL on
 template tests

---
 src/GrammarWriter.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 59027bb..3d5a81f 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -391,16 +391,16 @@ void GrammarWriter::printContextualTest(std::ostream& to, const ContextualTest&
 	if (test.pos & POS_NEGATE) {
 		u_fprintf(to, "NEGATE ");
 	}
+	if (test.pos & POS_ALL) {
+		u_fprintf(to, "ALL ");
+	}
+	if (test.pos & POS_NONE) {
+		u_fprintf(to, "NONE ");
+	}
+	if (test.pos & POS_NOT) {
+		u_fprintf(to, "NOT ");
+	}
 	if ((test.pos & POS_TMPL_OVERRIDE) || (!test.tmpl && test.ors.empty())) {
-		if (test.pos & POS_ALL) {
-			u_fprintf(to, "ALL ");
-		}
-		if (test.pos & POS_NONE) {
-			u_fprintf(to, "NONE ");
-		}
-		if (test.pos & POS_NOT) {
-			u_fprintf(to, "NOT ");
-		}
 		if (test.pos & POS_ABSOLUTE) {
 			u_fprintf(to, "@");
 		}
-- 
2.43.0


From 7a1e57b212be32484acd827b2c0f5061c7281f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 041/102] fix: --grammar-out keeps the EXCEPT part of REPLACE

---
 src/GrammarWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 3d5a81f..9e0a960 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -310,8 +310,8 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 		u_fprintf(to, "%S ", rule.maplist->name.data());
 	}
 
-	if (rule.sublist && (rule.type == K_ADDRELATIONS || rule.type == K_SETRELATIONS || rule.type == K_REMRELATIONS || rule.type == K_SETVARIABLE || rule.type == K_COPY || rule.type == K_COPYCOHORT)) {
-		if (rule.type == K_COPY || rule.type == K_COPYCOHORT) {
+	if (rule.sublist && (rule.type == K_ADDRELATIONS || rule.type == K_SETRELATIONS || rule.type == K_REMRELATIONS || rule.type == K_SETVARIABLE || rule.type == K_COPY || rule.type == K_COPYCOHORT || rule.type == K_REPLACE)) {
+		if (rule.type == K_COPY || rule.type == K_COPYCOHORT || rule.type == K_REPLACE) {
 			u_fprintf(to, "EXCEPT ");
 		}
 		u_fprintf(to, "%S ", rule.sublist->name.data());
-- 
2.43.0


From bda74c523f9d01c5aa56f201ccc174ec1fe3192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 042/102] fix: --grammar-out writes REOPEN-MAPPINGS

---
 src/GrammarWriter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 9e0a960..e220e41 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -131,6 +131,15 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 		u_fprintf(output, " ;\n");
 	}
 
+	if (!grammar->reopen_mappings.empty()) {
+		u_fprintf(output, "REOPEN-MAPPINGS = ");
+		for (auto iter : grammar->reopen_mappings) {
+			printTag(output, *(grammar->single_tags.find(iter)->second));
+			u_fprintf(output, " ");
+		}
+		u_fprintf(output, " ;\n");
+	}
+
 	if (!grammar->parentheses.empty()) {
 		u_fprintf(output, "PARENTHESES = ");
 		for (auto iter : grammar->parentheses) {
-- 
2.43.0


From 93f05123571ff3458b1740f12068a7249054a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 043/102] fix: --grammar-out writes the mode and command of
 EXTERNAL rules

---
 src/GrammarWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index e220e41..5d77e14 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -293,6 +293,10 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 	}
 	u_fprintf(to, " ");
 
+	if (rule.type == K_EXTERNAL_ONCE || rule.type == K_EXTERNAL_ALWAYS) {
+		u_fprintf(to, "%s \"%S\" ", (rule.type == K_EXTERNAL_ONCE) ? "ONCE" : "ALWAYS", grammar->single_tags.find(rule.varname)->second->tag.data());
+	}
+
 	for (uint32_t i = 0; i < FLAGS_COUNT; ++i) {
 		if (i == FL_BEFORE || i == FL_AFTER || i == FL_WITHCHILD) {
 			continue;
-- 
2.43.0


From ac21b48cbf91edbf3295f370d8b076238c4df3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 044/102] fix: --grammar-out writes anchors after the last
 rule, and puts those of WITH rules outside the block

---
 src/GrammarWriter.cpp | 27 +++++++++++++++++++++------
 src/GrammarWriter.hpp |  2 ++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 5d77e14..fb1cc0b 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -251,24 +251,39 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 			u_fprintf(output, " ;\n");
 		}
 	}
+	// Anchors after the last rule
+	printAnchors(output, UI32(grammar->rule_by_number.size()), UString());
 
 	return 0;
 }
 
-void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
-	if (seen_rules.count(rule.number)) {
-		return;
+void GrammarWriter::printAnchors(std::ostream& to, const Rule& rule) {
+	// An anchor ahead of a WITH rule has the number of its first nested rule, but anchors can't be in the nested block
+	for (auto r : rule.sub_rules) {
+		printAnchors(to, *r);
 	}
-	seen_rules.insert(rule.number);
+	printAnchors(to, rule.number, rule.name);
+}
 
-	auto as = anchors.equal_range(rule.number);
+void GrammarWriter::printAnchors(std::ostream& to, uint32_t number, const UString& rule_name) {
+	auto as = anchors.equal_range(number);
 	for (auto ait = as.first; ait != as.second; ++ait) {
 		auto tag = USV(grammar->single_tags.find(ait->second)->second->tag);
-		if (tag == keywords[K_START] || tag == keywords[K_END] || tag == rule.name) {
+		if (tag == keywords[K_START] || tag == keywords[K_END] || tag == rule_name) {
 			continue;
 		}
 		u_fprintf(to, "ANCHOR %S ;\n", tag.data());
 	}
+	anchors.erase(as.first, as.second);
+}
+
+void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
+	if (seen_rules.count(rule.number)) {
+		return;
+	}
+	seen_rules.insert(rule.number);
+
+	printAnchors(to, rule);
 
 	if (rule.wordform) {
 		printTag(to, *rule.wordform);
diff --git a/src/GrammarWriter.hpp b/src/GrammarWriter.hpp
index a0ae5e4..2a16e83 100644
--- a/src/GrammarWriter.hpp
+++ b/src/GrammarWriter.hpp
@@ -46,6 +46,8 @@ private:
 
 	void printTag(std::ostream& out, const Tag& tag);
 	void printSet(std::ostream& output, const Set& curset);
+	void printAnchors(std::ostream& to, const Rule& rule);
+	void printAnchors(std::ostream& to, uint32_t number, const UString& rule_name);
 	void printRule(std::ostream& to, const Rule& rule);
 	void printContextualTest(std::ostream& to, const ContextualTest& test);
 };
-- 
2.43.0


From 0043bfdcea9e9b820cc7d836fdec0153a625ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 045/102] fix: a line of 1023 or more characters that is mostly
 whitespace is no longer split in two

---
 src/uextras.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 68e33cb..0e513b0 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -78,7 +78,15 @@ size_t get_line_clean(UString& line, UString& cleaned, std::istream& input, bool
 				if (!keep_tabs) {
 					space = ' ';
 				}
-				cleaned[packoff++] = space;
+				if (packoff && ISSPACE(cleaned[packoff - 1])) {
+					// Continuation of whitespace that was cut by the end of the previous segment
+					if (space == '\t') {
+						cleaned[packoff - 1] = space;
+					}
+				}
+				else {
+					cleaned[packoff++] = space;
+				}
 			}
 			// Break if there is a newline
 			if (ISNL(line[offset])) {
@@ -92,7 +100,7 @@ size_t get_line_clean(UString& line, UString& cleaned, std::istream& input, bool
 			cleaned[packoff++] = line[offset];
 		}
 		// Either buffer wasn't big enough, or someone fed us malformed data thinking U+0085 is ellipsis when it in fact is Next Line (NEL)
-		if (packoff > line.size() / 2) {
+		if (offset > line.size() / 2) {
 			// If we reached this, buffer wasn't big enough. Double the size of the buffer and try again.
 			line.resize(line.size() * 2, 0);
 			cleaned.resize(line.size() + 1, 0);
-- 
2.43.0


From 1b58f0aa4203897842df6675cef19420c5178c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 046/102] fix: a last line without newline no longer gets a
 leftover character of an earlier line appended

---
 src/uextras.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 0e513b0..9906224 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -121,6 +121,7 @@ UChar* u_fgets(UChar* s, int32_t n, std::istream& input) {
 	for (; i < n; ++i) {
 		UChar c = u_fgetc(input);
 		if (c == U_EOF) {
+			s[i] = 0;
 			break;
 		}
 		s[i] = c;
-- 
2.43.0


From 6fdc8de24f45146eca465cab57ad3ae414ec597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 047/102] fix: --profile and --debug-rules no longer reorder
 readings while rules are running

---
 src/ApertiumApplicator.cpp | 57 +++++++++++++++-----------------------
 src/GrammarApplicator.cpp  | 24 ++++++++--------
 src/JsonlApplicator.cpp    | 11 +++++---
 3 files changed, 41 insertions(+), 51 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index a8a7664..ee47a70 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -897,53 +897,40 @@ void ApertiumApplicator::printCohort(Cohort* cohort, std::ostream& output, bool
 	bool need_slash = print_word_forms;
 
 	//Tag::printTagRaw(output, grammar->single_tags[cohort->wordform]);
-	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
-	for (auto reading : cohort->readings) {
-		if (reading->noprint) {
-			continue;
-		}
-		if (need_slash) {
-			u_fprintf(output, "/");
-		}
-		need_slash = true;
-		if (grammar->sub_readings_ltr && reading->next) {
-			reading = reverse(reading);
-		}
-		printReading(reading, output);
-		if (print_only_first == true) {
-			break;
-		}
-	}
-
-	if (trace) {
-		std::sort(cohort->delayed.begin(), cohort->delayed.end(), Reading::cmp_number);
-		for (auto reading : cohort->delayed) {
+	// Don't sort or reverse in place, since this is also called for profiling and debugging while rules are running
+	auto print_sorted = [&](ReadingList readings, bool removed) {
+		std::sort(readings.begin(), readings.end(), Reading::cmp_number);
+		for (auto reading : readings) {
 			if (reading->noprint) {
 				continue;
 			}
 			if (need_slash) {
-				u_fprintf(output, "/%C", not_sign);
+				if (removed) {
+					u_fprintf(output, "/%C", not_sign);
+				}
+				else {
+					u_fprintf(output, "/");
+				}
 			}
 			need_slash = true;
-			if (grammar->sub_readings_ltr && reading->next) {
+			const bool reversed = (grammar->sub_readings_ltr && reading->next);
+			if (reversed) {
 				reading = reverse(reading);
 			}
 			printReading(reading, output);
-		}
-		std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
-		for (auto reading : cohort->deleted) {
-			if (reading->noprint) {
-				continue;
-			}
-			if (need_slash) {
-				u_fprintf(output, "/%C", not_sign);
+			if (reversed) {
+				reverse(reading);
 			}
-			need_slash = true;
-			if (grammar->sub_readings_ltr && reading->next) {
-				reading = reverse(reading);
+			if (!removed && print_only_first == true) {
+				break;
 			}
-			printReading(reading, output);
 		}
+	};
+	print_sorted(cohort->readings, false);
+
+	if (trace) {
+		print_sorted(cohort->delayed, true);
+		print_sorted(cohort->deleted, true);
 	}
 
 	if (delimit_lexical_units) {
diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 86c07ba..68149fb 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -531,18 +531,18 @@ void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool p
 		}
 	}
 
-	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
-	for (auto rter1 : cohort->readings) {
-		printReading(rter1, output);
-	}
-	if (trace && !trace_no_removed) {
-		std::sort(cohort->delayed.begin(), cohort->delayed.end(), Reading::cmp_number);
-		for (auto rter3 : cohort->delayed) {
-			printReading(rter3, output);
-		}
-		std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
-		for (auto rter2 : cohort->deleted) {
-			printReading(rter2, output);
+	{
+		// Don't sort in place, since this is also called for profiling and debugging while rules are running
+		auto print_sorted = [&](ReadingList readings) {
+			std::sort(readings.begin(), readings.end(), Reading::cmp_number);
+			for (auto reading : readings) {
+				printReading(reading, output);
+			}
+		};
+		print_sorted(cohort->readings);
+		if (trace && !trace_no_removed) {
+			print_sorted(cohort->delayed);
+			print_sorted(cohort->deleted);
 		}
 	}
 
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 5f139bf..1b98352 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -693,10 +693,12 @@ void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool pro
 		}
 	}
 
-	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+	// Don't sort in place, since this is also called for profiling and debugging while rules are running
+	auto readings = cohort->readings;
+	std::sort(readings.begin(), readings.end(), Reading::cmp_number);
 
 	json::Value readings_json(json::kArrayType);
-	for (auto& reading : cohort->readings) {
+	for (auto& reading : readings) {
 		if (reading->noprint) {
 			continue;
 		}
@@ -719,8 +721,9 @@ void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool pro
 
 	if (!cohort->deleted.empty()) {
 		json::Value deleted_readings_json(json::kArrayType);
-		std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
-		for (const auto& reading : cohort->deleted) {
+		auto deleted = cohort->deleted;
+		std::sort(deleted.begin(), deleted.end(), Reading::cmp_number);
+		for (const auto& reading : deleted) {
 			// TODO Assuming deleted readings should always be included if present, regardless of noprint flag?
 			json::Value reading_json(json::kObjectType);
 			buildJsonReading(reading, reading_json, allocator);
-- 
2.43.0


From 755b57297282f7f612211676e8bf1b3085f08ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 048/102] fix: Niceline, FST, plain text and Matxin input see
 as many windows ahead as --num-windows says

---
 src/FSTApplicator.cpp       | 2 +-
 src/MatxinApplicator.cpp    | 2 +-
 src/NicelineApplicator.cpp  | 2 +-
 src/PlaintextApplicator.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 475b2f0..83d5479 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -354,7 +354,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				cSWindow->appendCohort(cCohort);
 				lCohort = cCohort;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/MatxinApplicator.cpp b/src/MatxinApplicator.cpp
index bbd338b..0d9f8a2 100644
--- a/src/MatxinApplicator.cpp
+++ b/src/MatxinApplicator.cpp
@@ -224,7 +224,7 @@ void MatxinApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 9536c5a..b717fc8 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -169,7 +169,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index 0c9d37f..b4d6199 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -160,7 +160,7 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 				++numWindows;
 				did_soft_lookback = false;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
-- 
2.43.0


From 69b0f62599fbb21471785ae52e2c57cb41b32ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 049/102] fix: JSONL input waits for the windows ahead that
 --num-windows asks for

---
 src/JsonlApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 1b98352..2e0cd6a 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -484,7 +484,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				did_delim = true;
 			}
 
-			if (did_delim || gWindow->next.size() > num_windows) {
+			if (did_delim && gWindow->next.size() > num_windows) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
-- 
2.43.0


From a903531e3ecdeb065e763c9061923479a8d2c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 050/102] fix: JSONL input no longer runs the grammar twice on
 its last window

---
 src/JsonlApplicator.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 2e0cd6a..9ed1440 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -510,9 +510,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
 	}
-	if (gWindow->current) {
-		runGrammarOnWindow();
-	}
 
 	gWindow->shuffleWindowsDown();
 	while (!gWindow->previous.empty()) {
-- 
2.43.0


From b3381b102a9b9fe32c18022d4f304519137f14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 051/102] fix: JSONL and Apertium windows hold as many cohorts
 as --hard-limit and --soft-limit say

---
 src/ApertiumApplicator.cpp | 6 +++---
 src/JsonlApplicator.cpp    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index ee47a70..8f1fd19 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -482,7 +482,7 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			}
 
 			bool did_delim = false;
-			if (cCohort && cSWindow->cohorts.size() >= soft_limit && grammar->soft_delimiters && doesSetMatchCohortNormal(*cCohort, grammar->soft_delimiters->number)) {
+			if (cCohort && cSWindow->cohorts.size() > soft_limit && grammar->soft_delimiters && doesSetMatchCohortNormal(*cCohort, grammar->soft_delimiters->number)) {
 				for (auto iter : cCohort->readings) {
 					addTagToReading(*iter, endtag);
 				}
@@ -492,8 +492,8 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 				cCohort = nullptr;
 				did_delim = true;
 			} // end >= soft_limit
-			if (cCohort && (cSWindow->cohorts.size() >= hard_limit || (grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number)))) {
-				if (!is_conv && cSWindow->cohorts.size() >= hard_limit) {
+			if (cCohort && (cSWindow->cohorts.size() > hard_limit || (grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number)))) {
+				if (!is_conv && cSWindow->cohorts.size() > hard_limit) {
 					u_fprintf(ux_stderr, "Warning: Hard limit of %u cohorts reached at cohort %S (#%u) on line %u - forcing break.\n", hard_limit, cCohort->wordform->tag.data(), numCohorts, numLines);
 					u_fflush(ux_stderr);
 				}
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 9ed1440..6713b74 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -461,7 +461,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 			lCohort = cCohort;
 
 			bool did_delim = false;
-			if (cSWindow->cohorts.size() >= soft_limit && grammar->soft_delimiters && doesSetMatchCohortNormal(*cCohort, grammar->soft_delimiters->number)) {
+			if (cSWindow->cohorts.size() > soft_limit && grammar->soft_delimiters && doesSetMatchCohortNormal(*cCohort, grammar->soft_delimiters->number)) {
 				if (verbosity_level > 0) {
 					u_fprintf(ux_stderr, "Info: Soft limit of %u cohorts reached at line %u with soft delimiter.\n", soft_limit, numLines);
 				}
@@ -472,8 +472,8 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				cCohort = nullptr;
 				did_delim = true;
 			}
-			else if (cSWindow->cohorts.size() >= hard_limit || (grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number))) {
-				if (cSWindow->cohorts.size() >= hard_limit) {
+			else if (cSWindow->cohorts.size() > hard_limit || (grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number))) {
+				if (cSWindow->cohorts.size() > hard_limit) {
 					u_fprintf(ux_stderr, "Warning: Hard limit of %u cohorts reached at line %u - forcing break.\n", hard_limit, numLines);
 				}
 				for (auto iter : cCohort->readings) {
-- 
2.43.0


From a1494dd8c6e6d75f254706bb8d3b9536ffffdc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 052/102] fix: Niceline readings with nothing but a base form
 no longer read from a null pointer

---
 src/NicelineApplicator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index b717fc8..f54df46 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -237,8 +237,9 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 					}
 				}
 				if (base && base[0]) {
-					if (base[0] == '[' && space[-1] == ']') {
-						base[0] = space[-1] = '"';
+					auto last = base + u_strlen(base) - 1;
+					if (base[0] == '[' && *last == ']') {
+						base[0] = *last = '"';
 					}
 					Tag* tag = addTag(base);
 					if (tag->type & T_MAPPING || tag->tag[0] == grammar->mapping_prefix) {
-- 
2.43.0


From 3d7d723c2650f9eb1f564ae8a57e475ab1fda1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 053/102] fix: FST output no longer has an empty analysis for a
 reading that is not printed

---
 src/FSTApplicator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 83d5479..fdf98da 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -490,6 +490,9 @@ void FSTApplicator::printCohort(Cohort* cohort, std::ostream& output, bool profi
 		}
 		else {
 			for (auto rter : cohort->readings) {
+				if (rter->noprint || rter->deleted) {
+					continue;
+				}
 				u_fprintf(output, "%.*S\t", wform.size() - 4, wform.data() + 2);
 				printReading(rter, output);
 				u_fputc('\n', output);
-- 
2.43.0


From 62dd7348f8b95493b422ba9bbcb5404f76a442ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 054/102] fix: dependencies given in JSONL input are used and
 kept

---
 src/JsonlApplicator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 6713b74..e1f9028 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -214,6 +214,10 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 	}
 	if (obj.HasMember("dp") && obj["dp"].IsUint()) {
 		cCohort->dep_parent = obj["dp"].GetUint();
+		if (cCohort->dep_parent == cCohort->dep_self) {
+			cCohort->dep_parent = DEP_NO_PARENT;
+		}
+		has_dep = true;
 	}
 
 	// parse deleted readings ("drs")
-- 
2.43.0


From 4f5151a4d6e614b68a0c36fb72298f02c150a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 055/102] fix: JSONL output keeps the text that follows a
 removed cohort

---
 src/JsonlApplicator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index e1f9028..940494c 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -623,6 +623,9 @@ void JsonlApplicator::buildJsonReading(const Reading* reading, json::Value& read
 
 void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool profiling) {
 	if (cohort->local_number == 0 || (cohort->type & CT_REMOVED)) {
+		if (!cohort->text.empty() && cohort->text.find_first_not_of(ws) != UString::npos) {
+			printPlainTextLine(cohort->text, output);
+		}
 		return;
 	}
 
-- 
2.43.0


From edca3cb230df28433b73ec9957fc02e2e2f2fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 056/102] fix: REOPEN-MAPPINGS works on every input format

---
 src/ApertiumApplicator.cpp       |  1 +
 src/BinaryApplicator.cpp         |  1 +
 src/FSTApplicator.cpp            |  1 +
 src/GrammarApplicator.hpp        |  1 +
 src/GrammarApplicator_reflow.cpp | 19 ++++++++++++-------
 src/JsonlApplicator.cpp          |  1 +
 src/NicelineApplicator.cpp       |  1 +
 7 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 8f1fd19..62b9d84 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -475,6 +475,7 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			if (cCohort->readings.empty()) {
 				initEmptyCohort(*cCohort);
 			}
+			reopenMappings(*cCohort);
 			insert_if_exists(cCohort->possible_sets, grammar->sets_any);
 			cSWindow->appendCohort(cCohort);
 			if (cCohort->wordform->tag[2] == '@') {
diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 3d1a0fd..9bb3fdb 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -347,6 +347,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 			}
 		}
 
+		reopenMappings(*cCohort);
 		insert_if_exists(cCohort->possible_sets, grammar->sets_any);
 		cSWindow->appendCohort(cCohort);
 	}
diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index fdf98da..a8fee94 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -271,6 +271,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 					cReading = reverse(cReading);
 				}
 				cCohort->appendReading(cReading);
+				reopenMappings(*cCohort);
 				++numReadings;
 			}
 		}
diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index bb03ea0..972d641 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -183,6 +183,7 @@ public:
 
 	typedef std::map<Reading*, TagList> all_mappings_t;
 	void splitMappings(TagList& mappings, Cohort& cohort, Reading& reading, bool mapped = false);
+	void reopenMappings(Cohort& cohort);
 	void splitAllMappings(all_mappings_t& all_mappings, Cohort& cohort, bool mapped = false);
 
 	std::istream* ux_stdin = nullptr;
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index f7f4c3d..9ea6877 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -684,6 +684,17 @@ void GrammarApplicator::splitMappings(TagList& mappings, Cohort& cohort, Reading
 	}
 }
 
+void GrammarApplicator::reopenMappings(Cohort& cohort) {
+	if (grammar->reopen_mappings.empty()) {
+		return;
+	}
+	for (auto reading : cohort.readings) {
+		if (reading->mapping && grammar->reopen_mappings.count(reading->mapping->hash)) {
+			reading->mapped = false;
+		}
+	}
+}
+
 void GrammarApplicator::splitAllMappings(all_mappings_t& all_mappings, Cohort& cohort, bool mapped) {
 	if (all_mappings.empty()) {
 		return;
@@ -698,13 +709,7 @@ void GrammarApplicator::splitAllMappings(all_mappings_t& all_mappings, Cohort& c
 		splitMappings(iter->second, cohort, *reading, mapped);
 	}
 	std::sort(cohort.readings.begin(), cohort.readings.end(), Reading::cmp_number);
-	if (!grammar->reopen_mappings.empty()) {
-		for (auto reading : cohort.readings) {
-			if (reading->mapping && grammar->reopen_mappings.count(reading->mapping->hash)) {
-				reading->mapped = false;
-			}
-		}
-	}
+	reopenMappings(cohort);
 	all_mappings.clear();
 }
 
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 940494c..3908bba 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -207,6 +207,7 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 	if (cCohort->readings.empty()) {
 		initEmptyCohort(*cCohort);
 	}
+	reopenMappings(*cCohort);
 	insert_if_exists(cCohort->possible_sets, grammar->sets_any);
 
 	if (obj.HasMember("ds") && obj["ds"].IsUint()) {
diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index f54df46..843f5a2 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -258,6 +258,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 					splitMappings(mappings, *cCohort, *cReading, true);
 				}
 				cCohort->appendReading(cReading);
+				reopenMappings(*cCohort);
 				++numReadings;
 
 				if (tab) {
-- 
2.43.0


From 1b9a1616883629702bc644ba1a6b54bc8b739b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 057/102] fix: truncated or corrupt binary input is refused
 instead of being read out of bounds

---
 src/BinaryApplicator.cpp | 74 +++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 9bb3fdb..237af95 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -60,7 +60,9 @@ void BinaryApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 			u_fprintf(ux_stderr, "Error: Stream does not start with magic bytes - cannot read as binary!\n");
 			CG3Quit(1);
 		}
-		uint32_t version = reinterpret_cast<uint32_t*>(&header[4])[0];
+		uint32_t version = 0;
+		memcpy(&version, &header[4], sizeof(version));
+		be::little_to_native_inplace(version);
 		if (version != CG3_BINARY_STREAM) {
 			u_fprintf(ux_stderr, "Error: Stream is version %u but this reader only knows version %u!\n", version, CG3_BINARY_STREAM);
 			CG3Quit(1);
@@ -158,15 +160,36 @@ void BinaryApplicator::readWindow(void*& payload) {
 		return;
 	}
 
-	SingleWindow* cSWindow = gWindow->allocAppendSingleWindow();
-	initEmptySingleWindow(cSWindow);
+	auto invalid = [&]() {
+		u_fprintf(ux_stderr, "Error: Binary window is truncated or corrupt - cannot continue!\n");
+		CG3Quit(1);
+	};
 
-	std::string buf(cs, 0);
-	ux_stdin->read(&buf[0], cs);
+	// The size can't be trusted, so don't allocate more than what is actually there
+	std::string buf;
+	while (buf.size() < cs && *ux_stdin) {
+		size_t have = buf.size();
+		buf.resize(have + std::min<size_t>(cs - have, 1024 * 1024));
+		ux_stdin->read(&buf[have], buf.size() - have);
+		buf.resize(have + ux_stdin->gcount());
+	}
+	if (buf.size() < cs) {
+		invalid();
+	}
 	uint32_t pos = 0;
 
+	auto need = [&](size_t n) {
+		if (buf.size() - pos < n) {
+			invalid();
+		}
+	};
+
+	SingleWindow* cSWindow = gWindow->allocAppendSingleWindow();
+	initEmptySingleWindow(cSWindow);
+
 	auto READ_U16_INTO = [&](uint16_t& dest) {
-		dest = *reinterpret_cast<uint16_t*>(&buf[pos]);
+		need(sizeof(dest));
+		memcpy(&dest, &buf[pos], sizeof(dest));
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
 	};
@@ -178,7 +201,8 @@ void BinaryApplicator::readWindow(void*& payload) {
 	};
 
 	auto READ_U32_INTO = [&](uint32_t& dest) {
-		dest = *reinterpret_cast<uint32_t*>(&buf[pos]);
+		need(sizeof(dest));
+		memcpy(&dest, &buf[pos], sizeof(dest));
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
 	};
@@ -191,6 +215,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 
 	auto READ_STR_INTO = [&](UString& dest) {
 		auto tl = READ_U16();
+		need(tl);
 		dest.clear();
 		dest.resize(tl);
 		int32_t olen = 0;
@@ -212,6 +237,9 @@ void BinaryApplicator::readWindow(void*& payload) {
 	for (uint16_t i = 0; i < tag_count; ++i) {
 		UString tg;
 		READ_STR_INTO(tg);
+		if (tg.empty()) {
+			invalid();
+		}
 		window_tags.push_back(addTag(tg));
 		if (tg[0] == grammar->mapping_prefix) {
 			window_tags.back()->type |= T_MAPPING;
@@ -221,15 +249,23 @@ void BinaryApplicator::readWindow(void*& payload) {
 		}
 	}
 
+	auto get_tag = [&](uint16_t n) {
+		if (n >= window_tags.size()) {
+			invalid();
+		}
+		return window_tags[n];
+	};
+
 	auto var_count = READ_U16();
 	for (uint16_t vn = 0; vn < var_count; ++vn) {
+		need(1);
 		char mode = buf[pos];
 		++pos;
 		auto tag1 = READ_U16();
 		auto tag2 = READ_U16();
-		auto hash1 = window_tags[tag1]->hash;
+		auto hash1 = get_tag(tag1)->hash;
 		if (mode == BFV_SETVAR) {
-			cSWindow->variables_set[hash1] = window_tags[tag2]->hash;
+			cSWindow->variables_set[hash1] = get_tag(tag2)->hash;
 			cSWindow->variables_rem.erase(hash1);
 			cSWindow->variables_output.insert(hash1);
 		}
@@ -262,7 +298,10 @@ void BinaryApplicator::readWindow(void*& payload) {
 		}
 
 		READ_U16_INTO(tag);
-		cCohort->wordform = window_tags[tag];
+		cCohort->wordform = get_tag(tag);
+		if (!(cCohort->wordform->type & T_WORDFORM)) {
+			invalid();
+		}
 
 		READ_U16_INTO(tag_count);
 		if (tag_count) {
@@ -270,7 +309,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 			addTagToReading(*cCohort->wread, cCohort->wordform);
 			for (uint16_t tn = 0; tn < tag_count; ++tn) {
 				READ_U16_INTO(tag);
-				addTagToReading(*cCohort->wread, window_tags[tag], (tn + 1 == tag_count));
+				addTagToReading(*cCohort->wread, get_tag(tag), (tn + 1 == tag_count));
 			}
 		}
 
@@ -286,7 +325,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 		for (uint16_t rn = 0; rn < rel_count; ++rn) {
 			READ_U16_INTO(tag);
 			auto head = READ_U32();
-			cCohort->relations_input[window_tags[tag]->hash].insert(head);
+			cCohort->relations_input[get_tag(tag)->hash].insert(head);
 		}
 		if (rel_count) {
 			has_relations = true;
@@ -309,17 +348,20 @@ void BinaryApplicator::readWindow(void*& payload) {
 			READ_U16_INTO(flags);
 
 			READ_U16_INTO(tag);
-			addTagToReading(*cReading, window_tags[tag]);
+			addTagToReading(*cReading, get_tag(tag));
+			if (!cReading->baseform) {
+				cReading->baseform = cCohort->wordform->hash;
+			}
 
 			READ_U16_INTO(tag_count);
 			TagList mappings;
 			for (uint16_t tn = 0; tn < tag_count; ++tn) {
 				READ_U16_INTO(tag);
-				if (window_tags[tag]->type & T_MAPPING) {
-					mappings.push_back(window_tags[tag]);
+				if (get_tag(tag)->type & T_MAPPING) {
+					mappings.push_back(get_tag(tag));
 				}
 				else {
-					addTagToReading(*cReading, window_tags[tag]);
+					addTagToReading(*cReading, get_tag(tag));
 				}
 			}
 			if (!mappings.empty()) {
-- 
2.43.0


From ef8b7cafc2292f306c3e563138addbb92d726e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 058/102] fix: rules can see the word forms of Niceline input

---
 src/NicelineApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 843f5a2..fa84429 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -196,6 +196,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			while (space && space[0]) {
 				cReading = alloc_reading(cCohort);
 				insert_if_exists(cReading->parent->possible_sets, grammar->sets_any);
+				addTagToReading(*cReading, cReading->parent->wordform);
 
 				UChar* base = space;
 				if (*space == '"') {
-- 
2.43.0


From 33b20d3aaeefcbbfd30fa397cf4da3620957a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 059/102] fix: rules can see the static tags of JSONL input

---
 src/JsonlApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 3908bba..fbd827f 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -181,7 +181,7 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 			auto tag_str = json_to_ustring(tag_val);
 			if (!tag_str.empty()) {
 				auto tag = addTag(tag_str);
-				cCohort->wread->tags_list.push_back(tag->hash);
+				addTagToReading(*cCohort->wread, tag);
 			}
 		}
 	}
-- 
2.43.0


From c28b9be1dc2db0ab7085d5b0bd54cd967696d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 060/102] fix: the last cohort of FST input has <<< when the
 input ends in a blank line

---
 src/FSTApplicator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index a8fee94..8d8af7a 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -390,13 +390,15 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 		if (cCohort->readings.empty()) {
 			initEmptyCohort(*cCohort);
 		}
-		for (auto iter : cCohort->readings) {
-			addTagToReading(*iter, endtag);
-		}
 		cReading = nullptr;
 		cCohort = nullptr;
-		cSWindow = nullptr;
 	}
+	if (cSWindow && cSWindow->cohorts.size() > 1) {
+		for (auto iter : cSWindow->cohorts.back()->readings) {
+			addTagToReading(*iter, endtag);
+		}
+	}
+	cSWindow = nullptr;
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
-- 
2.43.0


From 8a2c143e0b2e6ea332f12f4f45d27c87795e0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 061/102] fix: binary output no longer crashes on a reading
 that lost its base form

---
 src/BinaryApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 237af95..b324675 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -584,7 +584,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					flags |= BFR_SUBREADING;
 				}
 				WRITE_U16_INTO(flags, reading_buffer);
-				WRITE_TAG_INTO(grammar->single_tags[reading->baseform], reading_buffer);
+				WRITE_TAG_INTO(reading->baseform ? grammar->single_tags[reading->baseform] : cohort->wordform, reading_buffer);
 				std::string tag_buffer;
 				uint16_t tag_count = 0;
 				uint32SortedVector unique;
-- 
2.43.0


From c76c591438af367fd1b5c417e09305a8a2d06e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 062/102] fix: an empty tag in Apertium input is ignored
 instead of stopping the program

---
 src/ApertiumApplicator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 62b9d84..63c6fc1 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -418,6 +418,9 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 						continue;
 					}
 					if (*p == '>') {
+						if (blank.empty()) {
+							continue;
+						}
 						Tag* t = addTag(blank);
 						addTagToReading(*cCohort->wread, t);
 						//u_fprintf(ux_stderr, "Adding tag %S\n", tag.data());
@@ -568,7 +571,10 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 			}
 			auto c = *n;
 			*n = 0;
-			if (bf.size() == 1) {
+			if (!*p) {
+				// Ignore empty tags
+			}
+			else if (bf.size() == 1) {
 				prefix_tags.push_back(addTag(p));
 			}
 			else {
-- 
2.43.0


From 556a5cd54357ca3183fcfa7b9e778df7ee183480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 063/102] fix: binary output keeps dependencies and relations
 of the input that the grammar does not use

---
 src/BinaryApplicator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index b324675..b32bc4f 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -532,7 +532,10 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 		}
 
 		WRITE_U32_INTO(cohort->global_number, cohort_buffer);
-		if (cohort->dep_parent == 0 || cohort->dep_parent == DEP_NO_PARENT) {
+		if (!has_dep) {
+			WRITE_U32_INTO(DEP_NO_PARENT, cohort_buffer);
+		}
+		else if (cohort->dep_parent == 0 || cohort->dep_parent == DEP_NO_PARENT) {
 			WRITE_U32_INTO(cohort->dep_parent, cohort_buffer);
 		}
 		else {
@@ -593,7 +596,10 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					if (tter == reading->baseform || tter == reading->parent->wordform->hash) {
 						continue;
 					}
-					if (tag->type & (T_DEPENDENCY | T_RELATION)) {
+					if (tag->type & T_DEPENDENCY && has_dep) {
+						continue;
+					}
+					if (tag->type & T_RELATION && has_relations) {
 						continue;
 					}
 					if (unique_tags) {
-- 
2.43.0


From 0bb9800f516a95b753ee1b6ef8a41bd8eda4558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 064/102] fix: cg-conv no longer crashes on a variable command
 without an identifier

---
 src/GrammarApplicator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 68149fb..b764329 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -76,6 +76,10 @@ void GrammarApplicator::setGrammar(Grammar* res) {
 	begintag = tag_begin->hash;
 	endtag = tag_end->hash;
 	substtag = tag_subst->hash;
+	if (!grammar->tag_any) {
+		// Grammars that were not parsed, such as those of format converters, lack this
+		grammar->tag_any = addTag(STR_ASTERIK)->hash;
+	}
 
 	UString mp{ grammar->mapping_prefix };
 	mprefix_key = addTag(UStringView{ u"_MPREFIX" })->hash;
-- 
2.43.0


From c69db084b2ddfecd9dcc9976639c735081b8c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 065/102] fix: FST input no longer crashes when the soft limit
 ends a window

---
 src/FSTApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 8d8af7a..3bc7895 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -325,7 +325,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				cSWindow = nullptr;
 				did_soft_lookback = false;
 			}
-			if (cCohort && (cSWindow->cohorts.size() >= hard_limit || (!dep_delimit && grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number)))) {
+			if (cCohort && cSWindow && (cSWindow->cohorts.size() >= hard_limit || (!dep_delimit && grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number)))) {
 				if (!is_conv && cSWindow->cohorts.size() >= hard_limit) {
 					u_fprintf(ux_stderr, "Warning: Hard limit of %u cohorts reached at cohort %S (#%u) on line %u - forcing break.\n", hard_limit, cCohort->wordform->tag.data(), numCohorts, numLines);
 					u_fflush(ux_stderr);
-- 
2.43.0


From 6afd4dc1b4eba8a018c0ebd8440f5f3e67680d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 066/102] fix: relations in a window without cohorts are not
 looked for past its end

---
 src/GrammarApplicator_reflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 9ea6877..cc1240d 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -303,7 +303,7 @@ void GrammarApplicator::reflowRelationWindow(uint32_t max) {
 		max = gWindow->next.back()->cohorts[0]->global_number;
 	}
 
-	Cohort* cohort = gWindow->current->cohorts[1];
+	Cohort* cohort = gWindow->current->cohorts[0];
 	while (cohort->prev) {
 		cohort = cohort->prev;
 	}
-- 
2.43.0


From d9c1ac44dfbd978b8f379ed705192ffe4a016010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 067/102] fix: variable commands in JSONL input may have more
 than one variable, as in other formats

---
 src/JsonlApplicator.cpp | 51 +++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index fbd827f..74a5888 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -286,6 +286,25 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 	uint32FlatHashSet variables_rem;
 	uint32SortedVector variables_output;
 
+	// Calls fn for each of the comma separated var or var=value of a SETVAR or REMVAR command
+	auto for_each_var = [&](UString vars, auto&& fn) {
+		size_t b = 0;
+		while (b <= vars.size()) {
+			auto e = std::min(vars.find(u',', b), vars.size());
+			auto key = vars.substr(b, e - b);
+			uint32_t value = grammar->tag_any;
+			auto eq = key.find(u'=');
+			if (eq != UString::npos) {
+				if (eq + 1 < key.size()) {
+					value = addTag(key.substr(eq + 1))->hash;
+				}
+				key.resize(eq);
+			}
+			fn(key.empty() ? grammar->tag_any : addTag(key)->hash, value);
+			b = e + 1;
+		}
+	};
+
 	ux_stripBOM(input);
 
 	std::string line_str;
@@ -374,30 +393,18 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 					goto CGCMD_EXIT_JSONL;
 				}
 				else if (u_strncmp(cmd_ustr.data(), STR_CMD_SETVAR.data(), SI32(STR_CMD_SETVAR.size())) == 0) {
-					auto cmd_payload = cmd_ustr.substr(STR_CMD_SETVAR.size(), cmd_ustr.size() - STR_CMD_SETVAR.size() -1); // Remove <STREAMCMD:SETVAR: and >
-					auto equals_pos = cmd_payload.find(u'=');
-					Tag* key_tag;
-					uint32_t value_hash;
-
-					if (equals_pos != UString::npos) {
-						auto key_str = cmd_payload.substr(0, equals_pos);
-						auto value_str = cmd_payload.substr(equals_pos + 1);
-						key_tag = addTag(key_str);
-						value_hash = addTag(value_str)->hash;
-					} else {
-						key_tag = addTag(cmd_payload);
-						value_hash = grammar->tag_any;
-					}
-					variables_set[key_tag->hash] = value_hash;
-					variables_rem.erase(key_tag->hash);
-					variables_output.insert(key_tag->hash);
+					for_each_var(cmd_ustr.substr(STR_CMD_SETVAR.size(), cmd_ustr.size() - STR_CMD_SETVAR.size() - 1), [&](uint32_t key, uint32_t value) {
+						variables_set[key] = value;
+						variables_rem.erase(key);
+						variables_output.insert(key);
+					});
 				}
 				else if (u_strncmp(cmd_ustr.data(), STR_CMD_REMVAR.data(), SI32(STR_CMD_REMVAR.size())) == 0) {
-					auto cmd_payload = cmd_ustr.substr(STR_CMD_REMVAR.size(), cmd_ustr.size() - STR_CMD_REMVAR.size() -1); // Remove <STREAMCMD:REMVAR: and >
-					auto key_tag = addTag(cmd_payload);
-					variables_set.erase(key_tag->hash);
-					variables_rem.insert(key_tag->hash);
-					variables_output.insert(key_tag->hash);
+					for_each_var(cmd_ustr.substr(STR_CMD_REMVAR.size(), cmd_ustr.size() - STR_CMD_REMVAR.size() - 1), [&](uint32_t key, uint32_t) {
+						variables_set.erase(key);
+						variables_rem.insert(key);
+						variables_output.insert(key);
+					});
 				}
 			}
 			else {
-- 
2.43.0


From cee57bb6331dfe7363144a2d0fc54bf9b01d6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:37 +0000
Subject: [PATCH 068/102] fix: COPYCOHORT no longer copies >>> or puts a copy
 ahead of it

---
 src/GrammarApplicator_runRules.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 3d765c0..cc89d0e 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2370,6 +2370,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					if (rule->flags & RF_REVERSE) {
 						std::swap(cohort, attach);
 						childset = rule->childset1;
+						if (cohort->local_number == 0) {
+							return;
+						}
 					}
 
 					Cohort* cCohort = alloc_cohort(attach->parent);
@@ -2480,8 +2483,15 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					collect_subtree(edges, attach, childset);
 
 					if (rule->flags & RF_BEFORE) {
-						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edges.front()->local_number, cCohort);
-						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edges.front()->local_number, attach->parent->all_cohorts.end(), edges.front()), cCohort);
+						auto spot = edges.front()->local_number;
+						auto ac_spot = std::find(attach->parent->all_cohorts.begin() + spot, attach->parent->all_cohorts.end(), edges.front());
+						if (spot == 0) {
+							// Nothing may come before >>>
+							++spot;
+							++ac_spot;
+						}
+						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + spot, cCohort);
+						attach->parent->all_cohorts.insert(ac_spot, cCohort);
 						attachParentChild(*edges.front(), *cCohort);
 					}
 					else {
-- 
2.43.0


From 568adb2c2fc7218336a726eb1a1cd331326ca48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 069/102] fix: plain text lines in JSONL input stay lines of
 their own

---
 src/JsonlApplicator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 74a5888..bc11c7a 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -429,11 +429,13 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				if (verbosity_level > 1) {
 					u_fprintf(ux_stderr, "Info: Plain text line found in JSONL input on line %u: %S\n", numLines, t_ustr.data());
 				}
-				if (lCohort) {
-					lCohort->text += t_ustr;
-				}
-				else if (lSWindow) {
-					lSWindow->text += t_ustr;
+				if (lCohort || lSWindow) {
+					// Both "z" and "t" hold their text without the final newline
+					auto& text = (lCohort ? lCohort->text : lSWindow->text);
+					if (!text.empty() && text.back() != u'\n') {
+						text += u'\n';
+					}
+					text += t_ustr;
 				}
 				else {
 					printPlainTextLine(t_ustr, output);
-- 
2.43.0


From eb0622a7562f6ef92b3b7c5c87db9665207948dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:27 +0000
Subject: [PATCH 070/102] fix: SWITCHPARENT no longer makes the root of the
 dependency tree a child of one of its children

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index cc89d0e..f017f08 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2728,6 +2728,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					return;
 				}
 				Cohort* parent = parent_it->second;
+				if (parent->local_number == 0) {
+					// The root cannot become the child of anything
+					return;
+				}
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-- 
2.43.0


From 1d19ade041f7cd8651b55ce33bda450470da6901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 071/102] fix: dependencies and relations of the last windows
 are resolved alike in every input format

---
 src/ApertiumApplicator.cpp  | 1 +
 src/BinaryApplicator.cpp    | 1 +
 src/FSTApplicator.cpp       | 1 +
 src/JsonlApplicator.cpp     | 1 +
 src/MatxinApplicator.cpp    | 1 +
 src/NicelineApplicator.cpp  | 1 +
 src/PlaintextApplicator.cpp | 1 +
 7 files changed, 7 insertions(+)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 63c6fc1..2c02baf 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -522,6 +522,7 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 		}
 	}
 
+	input_eof = true;
 	flush();
 } // runGrammarOnText
 
diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index b32bc4f..a0de306 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -133,6 +133,7 @@ void BinaryApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 			printPlainTextLine(text, *ux_stdout);
 		}
 	}
+	input_eof = true;
 	flush(false);
 }
 
diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 3bc7895..593f9f4 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -399,6 +399,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 		}
 	}
 	cSWindow = nullptr;
+	input_eof = true;
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index bc11c7a..b6d16de 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -520,6 +520,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		}
 	}
 
+	input_eof = true;
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
diff --git a/src/MatxinApplicator.cpp b/src/MatxinApplicator.cpp
index 0d9f8a2..0993cd5 100644
--- a/src/MatxinApplicator.cpp
+++ b/src/MatxinApplicator.cpp
@@ -377,6 +377,7 @@ void MatxinApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 
 	// Run the grammar & print results
 	u_fprintf(output, "<corpus>\n");
+	input_eof = true;
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index fa84429..9f23c82 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -300,6 +300,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 		cCohort = nullptr;
 		cSWindow = nullptr;
 	}
+	input_eof = true;
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index b4d6199..081714b 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -292,6 +292,7 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 		cCohort = nullptr;
 		cSWindow = nullptr;
 	}
+	input_eof = true;
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
-- 
2.43.0


From 9402ed95e84fe5554e73d90e11398e059028be1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 072/102] fix: binary output leaves out empty tags, which
 cannot be read back

---
 src/BinaryApplicator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index a0de306..2f98b72 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -597,6 +597,10 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					if (tter == reading->baseform || tter == reading->parent->wordform->hash) {
 						continue;
 					}
+					if (tag->tag.empty()) {
+						// A varstring can come out empty; text formats lose such a tag too
+						continue;
+					}
 					if (tag->type & T_DEPENDENCY && has_dep) {
 						continue;
 					}
-- 
2.43.0


From 527c65ac70ddaea6e57619c5092d8ad5b796f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:49 +0000
Subject: [PATCH 073/102] fix: tags keep their order when written as binary

---
 src/BinaryApplicator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 2f98b72..6de1e26 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -597,6 +597,10 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					if (tter == reading->baseform || tter == reading->parent->wordform->hash) {
 						continue;
 					}
+					if ((!show_end_tags && tter == endtag) || tter == begintag) {
+						// The reader adds these by itself, after any mapping tag
+						continue;
+					}
 					if (tag->tag.empty()) {
 						// A varstring can come out empty; text formats lose such a tag too
 						continue;
-- 
2.43.0


From b6c08338205822f57238ff7bdc3e675dbeb8cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 074/102] fix: a line of text in FST input no longer starts a
 window

---
 src/FSTApplicator.cpp | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 593f9f4..39aecdd 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -122,6 +122,18 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 					lSWindow = cSWindow;
 					++numWindows;
 					did_soft_lookback = false;
+
+					if (gWindow->next.size() > num_windows + 1) {
+						gWindow->shuffleWindowsDown();
+						runGrammarOnWindow();
+						if (numWindows % resetAfter == 0) {
+							resetIndexes();
+						}
+						if (verbosity_level > 0) {
+							u_fprintf(ux_stderr, "Progress: L:%u, W:%u, C:%u, R:%u\r", lines, numWindows, numCohorts, numReadings);
+							u_fflush(ux_stderr);
+						}
+					}
 				}
 				cCohort = alloc_cohort(cSWindow);
 				cCohort->global_number = gWindow->cohort_counter++;
@@ -340,32 +352,10 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				cSWindow = nullptr;
 				did_soft_lookback = false;
 			}
-			if (!cSWindow) {
-				// ToDo: Refactor to allocate SingleWindow, Cohort, and Reading from their containers
-				cSWindow = gWindow->allocAppendSingleWindow();
-				initEmptySingleWindow(cSWindow);
-
-				lSWindow = cSWindow;
-				lCohort = cSWindow->cohorts[0];
-				cCohort = nullptr;
-				++numWindows;
-				did_soft_lookback = false;
-			}
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 				lCohort = cCohort;
 			}
-			if (gWindow->next.size() > num_windows + 1) {
-				gWindow->shuffleWindowsDown();
-				runGrammarOnWindow();
-				if (numWindows % resetAfter == 0) {
-					resetIndexes();
-				}
-				if (verbosity_level > 0) {
-					u_fprintf(ux_stderr, "Progress: L:%u, W:%u, C:%u, R:%u\r", lines, numWindows, numCohorts, numReadings);
-					u_fflush(ux_stderr);
-				}
-			}
 
 			cCohort = nullptr;
 
-- 
2.43.0


From fb931604ce9c7f77f7fe4beb9ce0dfdbbcd70f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 075/102] fix: FLUSH in binary input forgets variables, as in
 other formats

---
 src/BinaryApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 6de1e26..027afc0 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -116,6 +116,7 @@ void BinaryApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 				if (!flush(true)) {
 					printStreamCommand(STR_CMD_FLUSH, *ux_stdout);
 				}
+				variables.clear();
 			}
 			else if (cmd == BFC_EXIT) {
 				printStreamCommand(STR_CMD_EXIT, *ux_stdout);
-- 
2.43.0


From dd5749aebfee7dde8ddcf71e35558b8a1f98b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 076/102] fix: FST input applies the soft and hard limits when
 the next cohort starts, as other formats do

---
 src/FSTApplicator.cpp | 135 ++++++++++++++++++++++--------------------
 1 file changed, 70 insertions(+), 65 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 39aecdd..86ac5d2 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -80,6 +80,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 
 	SingleWindow* lSWindow = nullptr;
 	Cohort* lCohort = nullptr;
+	bool cohort_done = false;
 
 	gWindow->window_span = num_windows;
 
@@ -113,6 +114,63 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 			tag += &cleaned[0];
 			tag.append(u">\"");
 
+			// A cohort is only done for once it is known whether another one follows
+			if (cCohort && cohort_done) {
+				if (cSWindow && cSWindow->cohorts.size() >= soft_limit && grammar->soft_delimiters && !did_soft_lookback) {
+					did_soft_lookback = true;
+					for (auto c : reversed(cSWindow->cohorts)) {
+						if (doesSetMatchCohortNormal(*c, grammar->soft_delimiters->number)) {
+							did_soft_lookback = false;
+							Cohort* cohort = delimitAt(*cSWindow, c);
+							cSWindow = cohort->parent->next;
+							if (cCohort) {
+								cCohort->parent = cSWindow;
+							}
+							if (verbosity_level > 0) {
+								u_fprintf(ux_stderr, "Warning: Soft limit of %u cohorts reached at line %u but found suitable soft delimiter in buffer.\n", soft_limit, numLines);
+								u_fflush(ux_stderr);
+							}
+							break;
+						}
+					}
+				}
+				if (cCohort && cSWindow->cohorts.size() >= soft_limit && grammar->soft_delimiters && doesSetMatchCohortNormal(*cCohort, grammar->soft_delimiters->number)) {
+					if (verbosity_level > 0) {
+						u_fprintf(ux_stderr, "Warning: Soft limit of %u cohorts reached at line %u but found suitable soft delimiter.\n", soft_limit, numLines);
+						u_fflush(ux_stderr);
+					}
+					for (auto iter : cCohort->readings) {
+						addTagToReading(*iter, endtag);
+					}
+
+					cSWindow->appendCohort(cCohort);
+					lSWindow = cSWindow;
+					lCohort = cCohort;
+					cSWindow = nullptr;
+					did_soft_lookback = false;
+				}
+				if (cCohort && cSWindow && (cSWindow->cohorts.size() >= hard_limit || (!dep_delimit && grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number)))) {
+					if (!is_conv && cSWindow->cohorts.size() >= hard_limit) {
+						u_fprintf(ux_stderr, "Warning: Hard limit of %u cohorts reached at cohort %S (#%u) on line %u - forcing break.\n", hard_limit, cCohort->wordform->tag.data(), numCohorts, numLines);
+						u_fflush(ux_stderr);
+					}
+					for (auto iter : cCohort->readings) {
+						addTagToReading(*iter, endtag);
+					}
+
+					cSWindow->appendCohort(cCohort);
+					lSWindow = cSWindow;
+					lCohort = cCohort;
+					cSWindow = nullptr;
+					did_soft_lookback = false;
+				}
+				if (cCohort && cSWindow) {
+					cSWindow->appendCohort(cCohort);
+					lCohort = cCohort;
+				}
+
+				cCohort = nullptr;
+			}
 			if (!cCohort) {
 				if (!cSWindow) {
 					// ToDo: Refactor to allocate SingleWindow, Cohort, and Reading from their containers
@@ -122,23 +180,23 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 					lSWindow = cSWindow;
 					++numWindows;
 					did_soft_lookback = false;
-
-					if (gWindow->next.size() > num_windows + 1) {
-						gWindow->shuffleWindowsDown();
-						runGrammarOnWindow();
-						if (numWindows % resetAfter == 0) {
-							resetIndexes();
-						}
-						if (verbosity_level > 0) {
-							u_fprintf(ux_stderr, "Progress: L:%u, W:%u, C:%u, R:%u\r", lines, numWindows, numCohorts, numReadings);
-							u_fflush(ux_stderr);
-						}
+				}
+				if (gWindow->next.size() > num_windows + 1) {
+					gWindow->shuffleWindowsDown();
+					runGrammarOnWindow();
+					if (numWindows % resetAfter == 0) {
+						resetIndexes();
+					}
+					if (verbosity_level > 0) {
+						u_fprintf(ux_stderr, "Progress: L:%u, W:%u, C:%u, R:%u\r", lines, numWindows, numCohorts, numReadings);
+						u_fflush(ux_stderr);
 					}
 				}
 				cCohort = alloc_cohort(cSWindow);
 				cCohort->global_number = gWindow->cohort_counter++;
 				cCohort->wordform = addTag(tag);
 				lCohort = cCohort;
+				cohort_done = false;
 				++numCohorts;
 			}
 
@@ -304,60 +362,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				}
 				continue;
 			}
-			if (cSWindow && cSWindow->cohorts.size() >= soft_limit && grammar->soft_delimiters && !did_soft_lookback) {
-				did_soft_lookback = true;
-				for (auto c : reversed(cSWindow->cohorts)) {
-					if (doesSetMatchCohortNormal(*c, grammar->soft_delimiters->number)) {
-						did_soft_lookback = false;
-						Cohort* cohort = delimitAt(*cSWindow, c);
-						cSWindow = cohort->parent->next;
-						if (cCohort) {
-							cCohort->parent = cSWindow;
-						}
-						if (verbosity_level > 0) {
-							u_fprintf(ux_stderr, "Warning: Soft limit of %u cohorts reached at line %u but found suitable soft delimiter in buffer.\n", soft_limit, numLines);
-							u_fflush(ux_stderr);
-						}
-						break;
-					}
-				}
-			}
-			if (cCohort && cSWindow->cohorts.size() >= soft_limit && grammar->soft_delimiters && doesSetMatchCohortNormal(*cCohort, grammar->soft_delimiters->number)) {
-				if (verbosity_level > 0) {
-					u_fprintf(ux_stderr, "Warning: Soft limit of %u cohorts reached at line %u but found suitable soft delimiter.\n", soft_limit, numLines);
-					u_fflush(ux_stderr);
-				}
-				for (auto iter : cCohort->readings) {
-					addTagToReading(*iter, endtag);
-				}
-
-				cSWindow->appendCohort(cCohort);
-				lSWindow = cSWindow;
-				lCohort = cCohort;
-				cSWindow = nullptr;
-				did_soft_lookback = false;
-			}
-			if (cCohort && cSWindow && (cSWindow->cohorts.size() >= hard_limit || (!dep_delimit && grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number)))) {
-				if (!is_conv && cSWindow->cohorts.size() >= hard_limit) {
-					u_fprintf(ux_stderr, "Warning: Hard limit of %u cohorts reached at cohort %S (#%u) on line %u - forcing break.\n", hard_limit, cCohort->wordform->tag.data(), numCohorts, numLines);
-					u_fflush(ux_stderr);
-				}
-				for (auto iter : cCohort->readings) {
-					addTagToReading(*iter, endtag);
-				}
-
-				cSWindow->appendCohort(cCohort);
-				lSWindow = cSWindow;
-				lCohort = cCohort;
-				cSWindow = nullptr;
-				did_soft_lookback = false;
-			}
-			if (cCohort && cSWindow) {
-				cSWindow->appendCohort(cCohort);
-				lCohort = cCohort;
-			}
-
-			cCohort = nullptr;
+			cohort_done = true;
 
 			if (cleaned[0] && line[0]) {
 				if (lCohort) {
-- 
2.43.0


From eba611478bca78d3fd978b84ed27219ed63fa89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:54 +0000
Subject: [PATCH 077/102] fix: readings with sub-readings in FST input have the
 word form, so that rules can see it

---
 src/FSTApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 86ac5d2..cc52358 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -299,6 +299,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 								addTagToReading(*cReading, wtag_tag);
 							}
 							Reading* nr = cReading->allocateReading(cReading->parent);
+							addTagToReading(*nr, cCohort->wordform);
 							nr->next = cReading;
 							cReading = nr;
 							++space;
-- 
2.43.0


From 71a1da928b765dffdf80fb2e2124d8336eb28b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 078/102] fix: SETVAR without a variable name sets * with a
 warning instead of failing an assertion

---
 src/ApertiumApplicator.cpp           | 25 +++++++++++++++++++------
 src/GrammarApplicator_runGrammar.cpp | 25 +++++++++++++++++++------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 2c02baf..0e05009 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -42,12 +42,19 @@ void ApertiumApplicator::parseStreamVar(const SingleWindow* cSWindow, UString& c
 		UChar* c = u_strchr(s, ',');
 		UChar* d = u_strchr(s, '=');
 		if (c == 0 && d == 0) {
-			Tag* tag = addTag(s);
-			variables_set[tag->hash] = grammar->tag_any;
-			variables_rem.erase(tag->hash);
-			variables_output.insert(tag->hash);
+			uint32_t a = 0;
+			if (!s[0]) {
+				u_fprintf(ux_stderr, "Warning: SETVAR on line %u had no identifier! Defaulting to identifier *.\n", numLines);
+				a = grammar->tag_any;
+			}
+			else {
+				a = addTag(s)->hash;
+			}
+			variables_set[a] = grammar->tag_any;
+			variables_rem.erase(a);
+			variables_output.insert(a);
 			if (cSWindow == nullptr) {
-				variables[tag->hash] = grammar->tag_any;
+				variables[a] = grammar->tag_any;
 			}
 		}
 		else {
@@ -99,7 +106,13 @@ void ApertiumApplicator::parseStreamVar(const SingleWindow* cSWindow, UString& c
 					c = u_strchr(s, ',');
 					d = u_strchr(s, '=');
 					if (c == nullptr && d == nullptr) {
-						a = addTag(s)->hash;
+						if (!s[0]) {
+							u_fprintf(ux_stderr, "Warning: SETVAR on line %u had no identifier after the ,! Defaulting to identifier *.\n", numLines);
+							a = grammar->tag_any;
+						}
+						else {
+							a = addTag(s)->hash;
+						}
 						variables_set[a] = grammar->tag_any;
 						variables_rem.erase(a);
 						variables_output.insert(a);
diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index d1bfde7..a4bd06f 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -563,12 +563,19 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					UChar* c = u_strchr(s, ',');
 					UChar* d = u_strchr(s, '=');
 					if (c == 0 && d == 0) {
-						Tag* tag = addTag(s);
-						variables_set[tag->hash] = grammar->tag_any;
-						variables_rem.erase(tag->hash);
-						variables_output.insert(tag->hash);
+						uint32_t a = 0;
+						if (!s[0]) {
+							u_fprintf(ux_stderr, "Warning: SETVAR on line %u had no identifier! Defaulting to identifier *.\n", numLines);
+							a = grammar->tag_any;
+						}
+						else {
+							a = addTag(s)->hash;
+						}
+						variables_set[a] = grammar->tag_any;
+						variables_rem.erase(a);
+						variables_output.insert(a);
 						if (cSWindow == nullptr) {
-							variables[tag->hash] = grammar->tag_any;
+							variables[a] = grammar->tag_any;
 						}
 					}
 					else {
@@ -620,7 +627,13 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 								c = u_strchr(s, ',');
 								d = u_strchr(s, '=');
 								if (c == nullptr && d == nullptr) {
-									a = addTag(s)->hash;
+									if (!s[0]) {
+										u_fprintf(ux_stderr, "Warning: SETVAR on line %u had no identifier after the ,! Defaulting to identifier *.\n", numLines);
+										a = grammar->tag_any;
+									}
+									else {
+										a = addTag(s)->hash;
+									}
 									variables_set[a] = grammar->tag_any;
 									variables_rem.erase(a);
 									variables_output.insert(a);
-- 
2.43.0


From 2fba57b361983dad3fdc014497cb3b00adcfcac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 079/102] fix: Niceline lines that start with a tab no longer
 read ahead of the line buffer

---
 src/NicelineApplicator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 9f23c82..feebb2a 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -94,7 +94,17 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 		}
 		if (!ignoreinput && cleaned[0] && cleaned[0] != '<') {
 			UChar* space = &cleaned[0];
-			SKIPTO_NOSPAN(space, '\t');
+			// ISESC() would look ahead of the first character
+			auto escaped = [&]() {
+				size_t n = 0;
+				for (auto p = space; p != &cleaned[0] && p[-1] == '\\'; --p) {
+					++n;
+				}
+				return (n % 2) != 0;
+			};
+			while (*space && !ISNL(*space) && (*space != '\t' || escaped())) {
+				++space;
+			}
 
 			if (space[0] && space[0] != '\t') {
 				u_fprintf(ux_stderr, "Warning: %S on line %u looked like a cohort but wasn't - treated as text.\n", &cleaned[0], numLines);
-- 
2.43.0


From f50e6c98d6e3874c0e00b2d03ba28fb00fc0c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 080/102] fix: FST weights too large for the buffer they are
 printed to overflowed it

---
 src/FSTApplicator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index cc52358..2579708 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -225,7 +225,8 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 					if (comma) {
 						comma[0] = '.';
 					}
-					char buf[32];
+					// Room for any double printed with %f
+					char buf[400];
 					size_t i = 0;
 					for (; i < 31 && tab[i]; ++i) {
 						buf[i] = static_cast<char>(tab[i]);
-- 
2.43.0


From d8901ae732a36fd714403d31602678e13bc0b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 081/102] fix: cg-conv from FST reads ahead of its line buffer
 when the input ends in text

---
 src/FSTApplicator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 2579708..433528e 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -362,6 +362,8 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				if (cleaned[0] && line[0]) {
 					printPlainTextLine(&line[0], output);
 				}
+				++numLines;
+				line[0] = cleaned[0] = 0;
 				continue;
 			}
 			cohort_done = true;
-- 
2.43.0


From 32fa35e47518372f9fecc127674aa3c170f5118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:12 +0000
Subject: [PATCH 082/102] fix: a lemma that looks like a wordform in Apertium
 input no longer hangs the reader

---
 src/ApertiumApplicator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 0e05009..3f531ab 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -629,11 +629,14 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 		taglist.insert(taglist.end(), prefix_tags.begin(), prefix_tags.end());
 	}
 
+	// A lemma of the form <x> looks like a wordform once it is quoted
+	auto is_base = [](const Tag* tag) { return (tag->type & (T_BASEFORM | T_WORDFORM)) != 0; };
+
 	// Search from the back until we find a baseform, then add all tags from there until the end onto the reading
 	while (!taglist.empty()) {
 		Reading* reading = cReading;
 		reverse_foreach (riter, taglist) {
-			if ((*riter)->type & T_BASEFORM) {
+			if (is_base(*riter)) {
 				// If current reading already has a baseform, instead create a sub-reading as target
 				if (reading->baseform) {
 					Reading* nr = reading->allocateReading(reading->parent);
@@ -652,11 +655,14 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 						addTagToReading(*reading, *iter);
 					}
 				}
+				if (!reading->baseform) {
+					reading->baseform = (*riter)->hash;
+				}
 				if (!mappings.empty()) {
 					splitMappings(mappings, *reading->parent, *reading, true);
 				}
 				// Remove tags from list
-				while (!taglist.empty() && !(taglist.back()->type & T_BASEFORM)) {
+				while (!taglist.empty() && !is_base(taglist.back())) {
 					taglist.pop_back();
 				}
 				taglist.pop_back();
-- 
2.43.0


From 34749cb420b7ed59528bebb9f579bd6407193633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 083/102] fix: binary input refuses tags that contain NUL
 instead of failing an assertion

---
 src/BinaryApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 027afc0..f9076cd 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -239,7 +239,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 	for (uint16_t i = 0; i < tag_count; ++i) {
 		UString tg;
 		READ_STR_INTO(tg);
-		if (tg.empty()) {
+		if (tg.empty() || tg.find(UChar(0)) != UString::npos) {
 			invalid();
 		}
 		window_tags.push_back(addTag(tg));
-- 
2.43.0


From de5a4fac92e924020ef0faf9cd6fca7eb5b9382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:26 +0000
Subject: [PATCH 084/102] fix: cohort numbers that the maps reserve are not
 dependencies or relations, instead of corrupting the maps

---
 src/BinaryApplicator.cpp | 12 ++++++++++++
 src/Tag.cpp              | 13 +++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index f9076cd..709f5ee 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -215,6 +215,13 @@ void BinaryApplicator::readWindow(void*& payload) {
 		return dest;
 	};
 
+	// The two highest numbers are how the maps mark their unused entries
+	auto check_id = [&](uint32_t id) {
+		if (id >= DEP_NO_PARENT - 1) {
+			invalid();
+		}
+	};
+
 	auto READ_STR_INTO = [&](UString& dest) {
 		auto tl = READ_U16();
 		need(tl);
@@ -316,7 +323,11 @@ void BinaryApplicator::readWindow(void*& payload) {
 		}
 
 		READ_U32_INTO(cCohort->dep_self);
+		check_id(cCohort->dep_self);
 		READ_U32_INTO(cCohort->dep_parent);
+		if (cCohort->dep_parent != DEP_NO_PARENT) {
+			check_id(cCohort->dep_parent);
+		}
 		gWindow->relation_map[cCohort->dep_self] = cCohort->global_number;
 
 		if (cCohort->dep_parent != DEP_NO_PARENT) {
@@ -327,6 +338,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 		for (uint16_t rn = 0; rn < rel_count; ++rn) {
 			READ_U16_INTO(tag);
 			auto head = READ_U32();
+			check_id(head);
 			cCohort->relations_input[get_tag(tag)->hash].insert(head);
 		}
 		if (rel_count) {
diff --git a/src/Tag.cpp b/src/Tag.cpp
index 38901ff..1c694c2 100644
--- a/src/Tag.cpp
+++ b/src/Tag.cpp
@@ -109,24 +109,29 @@ void Tag::parseTagRaw(const UChar* to, Grammar* grammar) {
 	if (tag[0] == '<' && tag[length - 1] == '>') {
 		parseNumeric(false);
 	}
+	// The two highest numbers are how the maps mark their unused entries
+	constexpr auto max_id = std::numeric_limits<uint32_t>::max() - 1;
+	auto is_dep = [&]() {
+		return dep_self != 0 && dep_self < max_id && dep_parent != max_id;
+	};
 	if (tag[0] == '#') {
-		if (u_sscanf(tag.data(), "#%i->%i", &dep_self, &dep_parent) == 2 && dep_self != 0) {
+		if (u_sscanf(tag.data(), "#%i->%i", &dep_self, &dep_parent) == 2 && is_dep()) {
 			type |= T_DEPENDENCY;
 		}
 		constexpr UChar local_dep_unicode[] = { '#', '%', 'i', u'\u2192', '%', 'i', 0 };
-		if (u_sscanf_u(tag.data(), local_dep_unicode, &dep_self, &dep_parent) == 2 && dep_self != 0) {
+		if (u_sscanf_u(tag.data(), local_dep_unicode, &dep_self, &dep_parent) == 2 && is_dep()) {
 			type |= T_DEPENDENCY;
 		}
 	}
 	if (tag[0] == 'I' && tag[1] == 'D' && tag[2] == ':' && u_isdigit(tag[3])) {
-		if (u_sscanf(tag.data(), "ID:%i", &dep_self) == 1 && dep_self != 0) {
+		if (u_sscanf(tag.data(), "ID:%i", &dep_self) == 1 && dep_self != 0 && dep_self < max_id) {
 			type |= T_RELATION;
 		}
 	}
 	if (tag[0] == 'R' && tag[1] == ':') {
 		UString relname(tag.size() + 1, 0);
 		dep_parent = std::numeric_limits<uint32_t>::max();
-		if (u_sscanf(tag.data(), "R:%[^:]:%i", &relname[0], &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
+		if (u_sscanf(tag.data(), "R:%[^:]:%i", &relname[0], &dep_parent) == 2 && dep_parent < max_id) {
 			type |= T_RELATION;
 			Tag* reltag = grammar->allocateTag(relname.data());
 			comparison_hash = reltag->hash;
-- 
2.43.0


From a0c627cf0abd27815754ad8a94c339fcd906d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:58 +0000
Subject: [PATCH 085/102] fix: reserved cohort numbers in JSONL input are
 ignored instead of corrupting the maps

---
 src/JsonlApplicator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index b6d16de..bfaf390 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -210,10 +210,11 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 	reopenMappings(*cCohort);
 	insert_if_exists(cCohort->possible_sets, grammar->sets_any);
 
-	if (obj.HasMember("ds") && obj["ds"].IsUint()) {
+	// The two highest numbers are how the maps mark their unused entries
+	if (obj.HasMember("ds") && obj["ds"].IsUint() && obj["ds"].GetUint() < DEP_NO_PARENT - 1) {
 		cCohort->dep_self = obj["ds"].GetUint();
 	}
-	if (obj.HasMember("dp") && obj["dp"].IsUint()) {
+	if (obj.HasMember("dp") && obj["dp"].IsUint() && obj["dp"].GetUint() != DEP_NO_PARENT - 1) {
 		cCohort->dep_parent = obj["dp"].GetUint();
 		if (cCohort->dep_parent == cCohort->dep_self) {
 			cCohort->dep_parent = DEP_NO_PARENT;
-- 
2.43.0


From f786069b17f36314a9a8809a4190e79c11e99425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 086/102] fix: long relation names no longer overflow the
 buffer their tag is made in

---
 src/GrammarApplicator_runRules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index f017f08..2d5a590 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1270,8 +1270,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 		};
 
 		auto make_relation_rtag = [&](Tag* tag, uint32_t id) {
-			UChar tmp[256] = { 0 };
-			u_sprintf(tmp, "R:%S:%u", tag->tag.data(), id);
+			UString tmp(tag->tag.size() + 16, 0);
+			tmp.resize(u_sprintf(&tmp[0], "R:%S:%u", tag->tag.data(), id));
 			auto nt = addTag(tmp);
 			return nt;
 		};
-- 
2.43.0


From d19e0e2abf2fa3080cf8bca6e35448df04a106b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 087/102] fix: strings longer than 8 KB no longer overflow the
 buffers of binary grammars

---
 src/BinaryGrammar_read.cpp  | 37 ++++++++++++++++++++++++++-----------
 src/BinaryGrammar_write.cpp | 21 +++++++++++++++------
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index ad52bd1..04e1d43 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -52,6 +52,21 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 	UConverter* conv = ucnv_open("UTF-8", &err);
 	std::stringstream buffer;
 
+	// Reads a string of any length and makes room for its conversion. The length can't be trusted, so don't allocate more than what is actually there.
+	auto read_bytes = [&](size_t len) {
+		for (size_t have = 0; have < len;) {
+			size_t n = std::min<size_t>(len - have, CG3_BUFFER_SIZE);
+			if (cbuffers[0].size() < have + n) {
+				cbuffers[0].resize(have + n);
+			}
+			input.read(&cbuffers[0][have], n);
+			have += n;
+		}
+		if (gbuffers[0].size() < len + 2) {
+			gbuffers[0].resize(len + 2);
+		}
+	};
+
 	if (!input.read(&cbuffers[0][0], 4)) {
 		std::cerr << "Error: Error reading first 4 bytes from grammar!" << std::endl;
 		CG3Quit(1);
@@ -93,7 +108,7 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 	if (fields & BINF_PREFIX) {
 		ucnv_reset(conv);
 		u32tmp = readBE<uint32_t>(input);
-		input.read(&cbuffers[0][0], u32tmp);
+		read_bytes(u32tmp);
 		i32tmp = ucnv_toUChars(conv, &grammar->mapping_prefix, 1, &cbuffers[0][0], u32tmp, &err);
 	}
 
@@ -171,8 +186,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
-				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
+				read_bytes(u32tmp);
+				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], SI32(gbuffers[0].size() - 1), &cbuffers[0][0], u32tmp, &err);
 				t->tag = &gbuffers[0][0];
 				if (t->type & T_NUMERIC_MATH) {
 					// The offset of the expression in the tag is not stored, so find it again
@@ -186,8 +201,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
-				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
+				read_bytes(u32tmp);
+				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], SI32(gbuffers[0].size() - 1), &cbuffers[0][0], u32tmp, &err);
 
 				UParseError pe;
 				UErrorCode status = U_ZERO_ERROR;
@@ -223,8 +238,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 				u32tmp = readBE<uint32_t>(input);
 				if (u32tmp) {
 					ucnv_reset(conv);
-					input.read(&cbuffers[0][0], u32tmp);
-					i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
+					read_bytes(u32tmp);
+					i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], SI32(gbuffers[0].size() - 1), &cbuffers[0][0], u32tmp, &err);
 					t->vs_names->push_back(&gbuffers[0][0]);
 				}
 			}
@@ -338,8 +353,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
-				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
+				read_bytes(u32tmp);
+				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], SI32(gbuffers[0].size() - 1), &cbuffers[0][0], u32tmp, &err);
 				s->setName(&gbuffers[0][0]);
 			}
 		}
@@ -412,8 +427,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
-				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
+				read_bytes(u32tmp);
+				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], SI32(gbuffers[0].size() - 1), &cbuffers[0][0], u32tmp, &err);
 				r->setName(&gbuffers[0][0]);
 			}
 		}
diff --git a/src/BinaryGrammar_write.cpp b/src/BinaryGrammar_write.cpp
index f5727a3..626d339 100644
--- a/src/BinaryGrammar_write.cpp
+++ b/src/BinaryGrammar_write.cpp
@@ -41,6 +41,15 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 	UConverter* conv = ucnv_open("UTF-8", &err);
 	std::ostringstream buffer;
 
+	// Converts a string of any length into the buffer it is then written from
+	auto to_utf8 = [&](const UChar* str, int32_t len) {
+		size_t need = UIZ(len) * 4 + 1;
+		if (cbuffers[0].size() < need) {
+			cbuffers[0].resize(need);
+		}
+		return ucnv_fromUChars(conv, &cbuffers[0][0], SI32(cbuffers[0].size() - 1), str, len, &err);
+	};
+
 	output.write("CG3B", 4);
 
 	// Write out the revision of the binary format
@@ -105,7 +114,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 
 	if (grammar->mapping_prefix) {
 		ucnv_reset(conv);
-		i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, &grammar->mapping_prefix, 1, &err);
+		i32tmp = to_utf8(&grammar->mapping_prefix, 1);
 		writeBE(output, UI32(i32tmp));
 		output.write(&cbuffers[0][0], i32tmp);
 	}
@@ -169,7 +178,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 		if (!t->tag.empty()) {
 			fields |= (1 << 8);
 			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, t->tag.data(), SI32(t->tag.size()), &err);
+			i32tmp = to_utf8(t->tag.data(), SI32(t->tag.size()));
 			writeBE(buffer, i32tmp);
 			buffer.write(&cbuffers[0][0], i32tmp);
 		}
@@ -179,7 +188,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 			int32_t len = 0;
 			const UChar* p = uregex_pattern(t->regexp, &len, &err);
 			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, p, len, &err);
+			i32tmp = to_utf8(p, len);
 			writeBE(buffer, i32tmp);
 			buffer.write(&cbuffers[0][0], i32tmp);
 		}
@@ -196,7 +205,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 			writeBE<uint32_t>(buffer, UI32(t->vs_names->size()));
 			for (const auto& iter : *t->vs_names) {
 				ucnv_reset(conv);
-				i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, iter.data(), SI32(iter.size()), &err);
+				i32tmp = to_utf8(iter.data(), SI32(iter.size()));
 				writeBE(buffer, i32tmp);
 				buffer.write(&cbuffers[0][0], i32tmp);
 			}
@@ -290,7 +299,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 		if (s->type & ST_STATIC) {
 			fields |= (1 << 6);
 			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, s->name.data(), SI32(s->name.size()), &err);
+			i32tmp = to_utf8(s->name.data(), SI32(s->name.size()));
 			writeBE(buffer, i32tmp);
 			buffer.write(&cbuffers[0][0], i32tmp);
 		}
@@ -353,7 +362,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 		if (!r->name.empty()) {
 			fields |= (1 << 4);
 			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, r->name.data(), SI32(r->name.size()), &err);
+			i32tmp = to_utf8(r->name.data(), SI32(r->name.size()));
 			writeBE(buffer, i32tmp);
 			buffer.write(&cbuffers[0][0], i32tmp);
 		}
-- 
2.43.0


From 311770fb6372ae1d7dec1a06951aac74f61e6aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 088/102] fix: options from grammars and the environment are
 not read outside their buffer

---
 src/inlines.hpp        |  3 +++
 src/options_parser.hpp | 26 +++++++++++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/inlines.hpp b/src/inlines.hpp
index a693e90..460827c 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -391,6 +391,9 @@ inline uint32_t SKIPTOWS(Char*& p, const UChar a = 0, const bool allowhash = fal
 			++s;
 			++p;
 		}
+		if (!*p) {
+			break;
+		}
 		if (!allowscol && *p == ';' && !ISESC(p)) {
 			break;
 		}
diff --git a/src/options_parser.hpp b/src/options_parser.hpp
index b989fbd..41da2bb 100644
--- a/src/options_parser.hpp
+++ b/src/options_parser.hpp
@@ -26,40 +26,49 @@ namespace Options {
 template<typename Opts>
 inline void parse_opts(char* p, Opts& where) {
 	using namespace CG3;
+	// ISESC() looks behind the current position, so there must be something before the first option
+	std::string buf(1, 0);
+	buf += p;
+	p = &buf[1];
+	auto terminate = [&]() {
+		if (*p) {
+			*p = 0;
+			++p;
+		}
+	};
 	std::vector<char*> argv(1); // 0th element is the program name
 	while (*p) {
 		while (*p && ISSPACE(*p)) {
 			++p;
 		}
+		if (!*p) {
+			break;
+		}
 		if (*p == '-') {
 			auto n = p;
 			SKIPTOWS(p);
-			*p = 0;
+			terminate();
 			argv.push_back(n);
-			++p;
 		}
 		else if (*p == '"') {
 			++p;
 			auto n = p;
 			SKIPTO(p, '"');
-			*p = 0;
+			terminate();
 			argv.push_back(n);
-			++p;
 		}
 		else if (*p == '\'') {
 			++p;
 			auto n = p;
 			SKIPTO(p, '\'');
-			*p = 0;
+			terminate();
 			argv.push_back(n);
-			++p;
 		}
 		else {
 			auto n = p;
 			SKIPTOWS(p);
-			*p = 0;
+			terminate();
 			argv.push_back(n);
-			++p;
 		}
 	}
 	u_parseArgs(static_cast<int>(argv.size()), &argv[0], where.size(), where.data());
@@ -70,7 +79,6 @@ inline void parse_opts_env(const char* which, Opts& where) {
 	using namespace CG3;
 	if (auto _env = getenv(which)) {
 		std::string env(_env);
-		env.push_back(0);
 		parse_opts(&env[0], where);
 	}
 }
-- 
2.43.0


From 4cc2fc386ff183c28cb62d074e545e566521d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 089/102] fix: tokens longer than 8 KB in text grammars no
 longer overflow a buffer

---
 src/TextualParser.cpp | 84 ++++++++++++++++++-------------------------
 src/TextualParser.hpp |  1 +
 2 files changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 68f0da3..28dd1c0 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -168,6 +168,15 @@ void TextualParser::error(const char* str, const char* s, const UChar* S, const
 	incErrorCount();
 }
 
+// Copies a token of any length to the buffer it is then read from
+void TextualParser::bufferToken(const UChar* p, int32_t c) {
+	if (gbuffers[0].size() <= UIZ(c)) {
+		gbuffers[0].resize(UIZ(c) + 1);
+	}
+	u_strncpy(&gbuffers[0][0], p, c);
+	gbuffers[0][c] = 0;
+}
+
 Tag* TextualParser::parseTag(const UChar* to, const UChar* p) {
 	Tag* tag = ::CG3::parseTag(to, p, *this);
 
@@ -240,8 +249,7 @@ void TextualParser::parseTagList(UChar*& p, Set* s, bool ordered) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ')', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					bufferToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					tags.push_back(t);
 					p = n;
@@ -260,8 +268,7 @@ void TextualParser::parseTagList(UChar*& p, Set* s, bool ordered) {
 				MAYBE_QUOTED(n, p);
 				result->lines += SKIPTOWS(n, 0, true);
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				bufferToken(p, c);
 				Tag* t = parseTag(&gbuffers[0][0], p);
 				tags.push_back(t);
 				p = n;
@@ -348,8 +355,7 @@ Set* TextualParser::parseSetInline(UChar*& p, Set* s) {
 						MAYBE_QUOTED(n, p);
 						result->lines += SKIPTOWS(n, ')', true);
 						auto c = SI32(n - p);
-						u_strncpy(&gbuffers[0][0], p, c);
-						gbuffers[0][c] = 0;
+						bufferToken(p, c);
 						Tag* t = parseTag(&gbuffers[0][0], p);
 						tags.push_back(t);
 						p = n;
@@ -395,8 +401,7 @@ Set* TextualParser::parseSetInline(UChar*& p, Set* s) {
 						--n;
 					}
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					bufferToken(p, c);
 					Set* tmp = parseSet(&gbuffers[0][0], p);
 					uint32_t sh = tmp->hash;
 					sets.push_back(sh);
@@ -477,8 +482,7 @@ Set* TextualParser::parseSetInline(UChar*& p, Set* s) {
 					result->lines += SKIPTOWS(n, 0, true);
 				}
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				bufferToken(p, c);
 				//dieIfKeyword(&gbuffers[0][0]);
 				int sop = ux_isSetOp(&gbuffers[0][0]);
 				if (sop != S_IGNORE) {
@@ -678,8 +682,7 @@ void TextualParser::parseContextualTestPosition(UChar*& p, ContextualTest& t) {
 			auto n = p;
 			SKIPTOWS(n, '(');
 			auto c = SI32(n - p);
-			u_strncpy(&gbuffers[0][0], p, c);
-			gbuffers[0][c] = 0;
+			bufferToken(p, c);
 			Tag* tag = parseTag(&gbuffers[0][0], p);
 			t.relation = tag->hash;
 			p = n;
@@ -883,8 +886,7 @@ ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bo
 	auto n = p;
 	result->lines += SKIPTOWS(n, '(');
 	auto c = SI32(n - p);
-	u_strncpy(&gbuffers[0][0], p, c);
-	gbuffers[0][c] = 0;
+	bufferToken(p, c);
 	if (ux_isEmpty(&gbuffers[0][0])) {
 		AST_OPEN(TemplateInline);
 		if (no_itmpls) {
@@ -969,8 +971,7 @@ ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bo
 			n = p;
 			result->lines += SKIPTOWS(n, ')');
 			auto c = SI32(n - p);
-			u_strncpy(&gbuffers[0][0], p, c);
-			gbuffers[0][c] = 0;
+			bufferToken(p, c);
 			uint32_t cn = hash_value(&gbuffers[0][0]);
 			t->tmpl = reinterpret_cast<ContextualTest*>(cn);
 			tmpl_data = std::make_pair(result->lines, &gbuffers[0][0]);
@@ -1102,8 +1103,7 @@ flags_t TextualParser::parseRuleFlags(UChar*& p) {
 					auto n = p;
 					result->lines += SKIPTOWS(n, 0, true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					bufferToken(p, c);
 					p = n;
 					if (gbuffers[0][0] == '*') {
 						rv.sub_reading = GSR_ANY;
@@ -1190,8 +1190,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 		MAYBE_QUOTED(n, lp);
 		result->lines += SKIPTOWS(n, 0, true);
 		auto c = SI32(n - lp);
-		u_strncpy(&gbuffers[0][0], lp, c);
-		gbuffers[0][c] = 0;
+		bufferToken(lp, c);
 		Tag* wform = parseTag(&gbuffers[0][0], lp);
 		rule->wordform = wform;
 		AST_CLOSE_ID(n, wform->hash);
@@ -1208,8 +1207,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 		auto n = p;
 		result->lines += SKIPTOWS(n, '(');
 		auto c = SI32(n - p);
-		u_strncpy(&gbuffers[0][0], p, c);
-		gbuffers[0][c] = 0;
+		bufferToken(p, c);
 		if (!gbuffers[0][0]) {
 			ux_bufcpy(nearbuf, p, 20);
 			u_fprintf(ux_stderr, "%s: Warning: Rule on line %u near `%S` had : but no name.\n", filebase, result->lines, nearbuf);
@@ -1252,12 +1250,10 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 		result->lines += SKIPTOWS(n, 0, true);
 		auto c = SI32(n - p);
 		if (*p == '"') {
-			u_strncpy(&gbuffers[0][0], p + 1, c - 1);
-			gbuffers[0][c - 2] = 0;
+			bufferToken(p + 1, c - 2);
 		}
 		else {
-			u_strncpy(&gbuffers[0][0], p, c);
-			gbuffers[0][c] = 0;
+			bufferToken(p, c);
 		}
 
 		Tag* ext = result->allocateTag(&gbuffers[0][0]);
@@ -1817,8 +1813,7 @@ void TextualParser::parseAnchorish(UChar*& p, bool rule_flags) {
 		auto n = p;
 		result->lines += SKIPTOWS(n, 0, true);
 		auto c = SI32(n - p);
-		u_strncpy(&gbuffers[0][0], p, c);
-		gbuffers[0][c] = 0;
+		bufferToken(p, c);
 		if (!only_sets) {
 			result->addAnchor(&gbuffers[0][0], UI32(result->rule_by_number.size()), true);
 		}
@@ -1977,8 +1972,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				auto n = p;
 				result->lines += SKIPTOWS(n, ';');
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				bufferToken(p, c);
 				p = n;
 				AST_CLOSE(p);
 
@@ -2010,8 +2004,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					bufferToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					result->preferred_targets.push_back(t->hash);
 					p = n;
@@ -2045,8 +2038,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					bufferToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					result->reopen_mappings.insert(t->hash);
 					p = n;
@@ -2193,8 +2185,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					bufferToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					tmp.insert(t->hash);
 					p = n;
@@ -2232,8 +2223,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					--n;
 				}
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				bufferToken(p, c);
 				s->setName(&gbuffers[0][0]);
 				p = n;
 				AST_CLOSE(p);
@@ -2294,8 +2284,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					--n;
 				}
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				bufferToken(p, c);
 				s->setName(&gbuffers[0][0]);
 				uint32_t sh = hash_value(&gbuffers[0][0]);
 				p = n;
@@ -2582,8 +2571,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					bufferToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					tmp.insert(t->hash);
 					p = n;
@@ -2629,8 +2617,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				auto n = p;
 				result->lines += SKIPTOWS(n, 0, true);
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				bufferToken(p, c);
 				p = n;
 				AST_CLOSE(p);
 				result->lines += SKIPWS(p, ';');
@@ -2727,8 +2714,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				auto n = p;
 				result->lines += SKIPTOWS(n, 0, true);
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				bufferToken(p, c);
 				UString name(&gbuffers[0][0]);
 				p = n;
 				AST_CLOSE(p);
@@ -2779,8 +2765,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ')', true);
 					c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					bufferToken(p, c);
 					left = parseTag(&gbuffers[0][0], p);
 					result->lines += SKIPWS(n);
 					p = n;
@@ -2794,8 +2779,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ')', true);
 					c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					bufferToken(p, c);
 					right = parseTag(&gbuffers[0][0], p);
 					result->lines += SKIPWS(n);
 					p = n;
diff --git a/src/TextualParser.hpp b/src/TextualParser.hpp
index 4a2536d..96b6032 100644
--- a/src/TextualParser.hpp
+++ b/src/TextualParser.hpp
@@ -87,6 +87,7 @@ private:
 	void parseFromUChar(UChar* input, const char* fname = nullptr);
 	void addRuleToGrammar(Rule* rule);
 
+	void bufferToken(const UChar* p, int32_t c);
 	Tag* parseTag(const UChar* to, const UChar* p = nullptr);
 	Tag* parseTag(const UString& to, const UChar* p = nullptr) {
 		return parseTag(to.data(), p);
-- 
2.43.0


From 3c5167682a2be7d26992b9e0b28496e09dc99fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 090/102] fix: very small grammars are not read past the end of
 their buffer

---
 src/TextualParser.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 28dd1c0..13c6820 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -116,6 +116,9 @@ struct freq_sorter {
 	}
 };
 
+// Room for the 4 nulls in front of a grammar, and for what is looked at past its end
+constexpr size_t GRAMMAR_PAD = 64;
+
 void TextualParser::error(const char* str) {
 	u_fprintf(ux_stderr, str, filebase, result->lines);
 	incErrorCount();
@@ -2683,7 +2686,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					}
 				}
 
-				grammarbufs.emplace_back(new UString(grammar_size * 2, 0));
+				grammarbufs.emplace_back(new UString(grammar_size * 2 + GRAMMAR_PAD, 0));
 				auto& data = *grammarbufs.back().get();
 				int32_t size = 0;
 				u_strFromUTF8(&data[4], SI32(grammar_size * 2), &size, buf.data(), SI32(buf.size()), &err);
@@ -2691,7 +2694,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 exceeded factor 2 buffer.\n", filebase);
 					CG3Quit(1);
 				}
-				data.resize(size + 4 + 1);
+				data.resize(size + GRAMMAR_PAD);
 
 				uint32_t olines = 0;
 				swapper oswap(true, olines, result->lines);
@@ -2887,7 +2890,7 @@ int TextualParser::parse_grammar(const char* fname) {
 	}
 
 	// It reads into the buffer at offset 4 because certain functions may look back, so we need some nulls in front.
-	grammarbufs.emplace_back(new UString(result->grammar_size * 2, 0));
+	grammarbufs.emplace_back(new UString(result->grammar_size * 2 + GRAMMAR_PAD, 0));
 	auto& data = *grammarbufs.back().get();
 	int32_t size = 0;
 	UErrorCode err = U_ZERO_ERROR;
@@ -2896,7 +2899,7 @@ int TextualParser::parse_grammar(const char* fname) {
 		u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 exceeded factor 2 buffer.\n", filebase);
 		CG3Quit(1);
 	}
-	data.resize(size + 4 + 1);
+	data.resize(size + GRAMMAR_PAD);
 
 	return parse_grammar(data);
 }
@@ -2906,7 +2909,7 @@ int TextualParser::parse_grammar(const char* buffer, size_t length) {
 	filebase = "<utf8-memory>";
 	result->grammar_size = length;
 
-	grammarbufs.emplace_back(new UString(length * 2, 0));
+	grammarbufs.emplace_back(new UString(length * 2 + GRAMMAR_PAD, 0));
 	auto& data = *grammarbufs.back().get();
 
 	int32_t size = 0;
-- 
2.43.0


From 20cc175457b4a6bc6745c11b1ccd16928cdee130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 091/102] fix: error message for SUBREADINGS without RTL or LTR
 no longer crashes

---
 src/TextualParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 13c6820..3bb8d92 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -2489,7 +2489,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					result->sub_readings_ltr = false;
 				}
 				else {
-					error("%s: Error: Expected RTL or LTR on line %u near `%S`!\n", *p, p);
+					error("%s: Error: Expected RTL or LTR on line %u near `%S`!\n", p);
 				}
 				auto n = p;
 				result->lines += SKIPTOWS(n, 0, true);
-- 
2.43.0


From b9b8b4a44774fad56c7293a112c31a99e64f4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 092/102] fix: names of unified sets no longer overflow a
 constant buffer

---
 src/parser_helpers.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser_helpers.hpp b/src/parser_helpers.hpp
index 588fa37..1d6eb46 100644
--- a/src/parser_helpers.hpp
+++ b/src/parser_helpers.hpp
@@ -442,9 +442,9 @@ Set* parseSet(const UChar* name, const UChar* p, State& state) {
 	      (name[0] == '$' && name[1] == '$') || (name[0] == '&' && name[1] == '&')) &&
 	    name[2]) {
 		const UChar* wname = &(name[2]);
-		const UChar wname2[1024]{};
-		if (u_sscanf(wname, "%*u:%S", &wname2) == 1) {
-			wname = wname2;
+		UString wname2(u_strlen(name) + 1, 0);
+		if (u_sscanf(wname, "%*u:%S", &wname2[0]) == 1) {
+			wname = wname2.data();
 		}
 		uint32_t wrap = hash_value(wname);
 		if (state.get_grammar()->set_alias.find(wrap) != state.get_grammar()->set_alias.end()) {
-- 
2.43.0


From ff4934d72c65cc6c91f0ce6ed94bb8a9e9ffb645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:26 +0000
Subject: [PATCH 093/102] fix: empty tags and empty composite tags are errors
 instead of crashes

---
 src/TextualParser.cpp  | 3 +++
 src/parser_helpers.hpp | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 3bb8d92..0ac8648 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -262,6 +262,9 @@ void TextualParser::parseTagList(UChar*& p, Set* s, bool ordered) {
 				if (*p != ')') {
 					error("%s: Error: Expected closing ) on line %u near `%S`!\n", p);
 				}
+				if (tags.empty()) {
+					error("%s: Error: Empty composite tag on line %u near `%S`!\n", p);
+				}
 				++p;
 				AST_CLOSE(p);
 			}
diff --git a/src/parser_helpers.hpp b/src/parser_helpers.hpp
index 1d6eb46..a1a8d2f 100644
--- a/src/parser_helpers.hpp
+++ b/src/parser_helpers.hpp
@@ -134,7 +134,9 @@ Tag* parseTag(const UChar* to, const UChar* p, State& state, bool unescape=true)
 		}
 
 		size_t length = u_strlen(tmp);
-		assert(length && "parseTag() will not work with empty strings.");
+		if (length == 0) {
+			state.error("%s: Error: Parsing tag %S resulted in an empty tag on line %u near `%S` - cannot continue!\n", to, p);
+		}
 
 		if (tmp[0] == 'T' && tmp[1] == ':') {
 			u_fprintf(state.ux_stderr, "%s: Warning: Tag %S looks like a misattempt of template usage on line %u.\n", state.filebase, tmp, state.get_grammar()->lines);
@@ -405,7 +407,7 @@ Tag* parseTag(const UChar* to, const UChar* p, State& state, bool unescape=true)
 			}
 		}
 		if (tag->type & (T_CASE_INSENSITIVE | T_REGEXP)) {
-			if (tag->tag[0] == '/' && tag->tag[length - 1] == '/') {
+			if (length > 1 && tag->tag[0] == '/' && tag->tag[length - 1] == '/') {
 				tag->tag.resize(tag->tag.size() - 1);
 				tag->tag.erase(tag->tag.begin());
 			}
-- 
2.43.0


From 351d77d8ea79e9078304f66a70c36b94b4ac1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:26 +0000
Subject: [PATCH 094/102] fix: a varstring with an opening brace only no longer
 hangs the parser

---
 src/TextualParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 0ac8648..de436fc 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -3085,7 +3085,10 @@ int TextualParser::parse_grammar(UString& data) {
 			if (*p) {
 				n = p;
 				SKIPTO(n, '}');
-				if (*n) {
+				if (!*n) {
+					break;
+				}
+				else {
 					tag->allocateVsSets();
 					tag->allocateVsNames();
 					++p;
-- 
2.43.0


From 612091eccdaa2e14fc8890a2480d0eea3376027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:26 +0000
Subject: [PATCH 095/102] fix: numeric branches in tests of templates no longer
 crash the parser

---
 src/TextualParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index de436fc..b76a3ed 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -3124,7 +3124,8 @@ int TextualParser::parse_grammar(UString& data) {
 			result->contexts.erase(cntx);
 
 			if (sets.find(unsafec->target) == sets.end()) {
-				sets[unsafec->target] = result->removeNumericTags(unsafec->target);
+				// A test of a template has no set of its own
+				sets[unsafec->target] = unsafec->target ? result->removeNumericTags(unsafec->target) : 0;
 			}
 			unsafec->pos &= ~POS_NUMERIC_BRANCH;
 
-- 
2.43.0


From ac3f09f5259aa930967eab358e7a910d6d02cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 096/102] fix: tables whose free slots are used up by erased
 entries no longer hang when something absent is erased

---
 src/flat_unordered_map.hpp | 7 +++++--
 src/flat_unordered_set.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/flat_unordered_map.hpp b/src/flat_unordered_map.hpp
index f4ef313..96936ae 100644
--- a/src/flat_unordered_map.hpp
+++ b/src/flat_unordered_map.hpp
@@ -171,6 +171,10 @@ public:
 		if (size_ == 0) {
 			return;
 		}
+		if (deleted && size_ + deleted == capacity()) {
+			reserve(capacity());
+		}
+
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
 		while (elements[spot].first != res_empty && elements[spot].first != t) {
@@ -290,8 +294,7 @@ public:
 
 	void reserve(size_type n) {
 		if (size_ == 0) {
-			elements.resize(n, std::make_pair(res_empty, V()));
-			deleted = 0;
+			clear(n);
 			return;
 		}
 
diff --git a/src/flat_unordered_set.hpp b/src/flat_unordered_set.hpp
index 8f68cb9..c2eaa6d 100644
--- a/src/flat_unordered_set.hpp
+++ b/src/flat_unordered_set.hpp
@@ -167,6 +167,10 @@ public:
 		if (size_ == 0) {
 			return;
 		}
+		if (deleted && size_ + deleted == capacity()) {
+			reserve(capacity());
+		}
+
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
 		while (elements[spot] != res_empty && elements[spot] != t) {
@@ -259,8 +263,7 @@ public:
 
 	void reserve(size_type n) {
 		if (size_ == 0) {
-			elements.resize(n, res_empty);
-			deleted = 0;
+			clear(n);
 			return;
 		}
 
-- 
2.43.0


From 07b76899635ad532e6d5cf187f457793a525a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:07 +0000
Subject: [PATCH 097/102] fix: overriding a template's position no longer
 changes identical tests linked to it

---
 src/GrammarApplicator_runContextualTest.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index c675bd5..ac090c6 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -232,11 +232,11 @@ Cohort* GrammarApplicator::runContextualTest_tmpl(SingleWindow* sWindow, size_t
 		tmpl_cntx.linked.push_back(test->linked);
 	}
 
-	uint64_t orgpos = tmpl->pos;
-	int32_t orgoffset = tmpl->offset;
-	uint32_t orgcbar = tmpl->cbarrier;
-	uint32_t orgbar = tmpl->barrier;
+	// Identical tests are shared throughout the grammar, so the template may also be the linked test; only override a copy
+	ContextualTest overridden;
 	if (test->pos & POS_TMPL_OVERRIDE) {
+		overridden = *tmpl;
+		tmpl = &overridden;
 		tmpl->pos = test->pos;
 		tmpl->pos &= ~(POS_NEGATE | POS_NOT | POS_JUMP);
 		tmpl->offset = test->offset;
@@ -252,10 +252,6 @@ Cohort* GrammarApplicator::runContextualTest_tmpl(SingleWindow* sWindow, size_t
 	}
 	Cohort* cohort = runContextualTest(sWindow, position, tmpl, &cdeep, origin);
 	if (test->pos & POS_TMPL_OVERRIDE) {
-		tmpl->pos = orgpos;
-		tmpl->offset = orgoffset;
-		tmpl->cbarrier = orgcbar;
-		tmpl->barrier = orgbar;
 		if (cohort && cdeep && test->offset != 0 && !posOutputHelper(sWindow, position, test, cohort, cdeep)) {
 			cohort = nullptr;
 		}
-- 
2.43.0


From 2f7d4ea3c55e79ee71e75aa70b9b203a81d04a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:29 +0000
Subject: [PATCH 098/102] fix: BW keeps a match found in a window to the left
 when there is also a window to the right

---
 src/GrammarApplicator_runContextualTest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index ac090c6..b68abfe 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -432,7 +432,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 						left = nullptr;
 					}
 					if (right && (test->pos & (POS_SPAN_BOTH | POS_SPAN_RIGHT))) {
-						match = doesSetMatchReading(right->bag_of_tags, test->target, true);
+						match = match || doesSetMatchReading(right->bag_of_tags, test->target, true);
 						right = right->next;
 					}
 					else {
-- 
2.43.0


From 683f5d8e2df8c4e83c188b55c577fa2f3010a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:42 +0000
Subject: [PATCH 099/102] fix: a barrier no longer hides the tags of a wordform
 from later tests

---
 src/GrammarApplicator_matchSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index fc40516..4b265d6 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1013,7 +1013,9 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 	if (context && !context->matched_target && !(context->options & (POS_ACTIVE | POS_INACTIVE))) {
 		if (!grammar->sets_any || set >= grammar->sets_any->size() || !grammar->sets_any->test(set)) {
 			bool was_sub = (context->test && (context->test->offset_sub != 0));
-			if (!was_sub && set < cohort.possible_sets.size()) {
+			// Barriers don't look at the wordform's own tags, so they may still match the set
+			bool skipped_wread = (context->in_barrier && cohort.wread);
+			if (!was_sub && !skipped_wread && set < cohort.possible_sets.size()) {
 				cohort.possible_sets.reset(set);
 			}
 		}
-- 
2.43.0


From eeb790b2c416d8583614e664efd776f211269f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 100/102] fix: a test of the main readings no longer hides
 sub-readings from later tests

---
 src/GrammarApplicator_matchSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 4b265d6..b44b044 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1013,6 +1013,10 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 	if (context && !context->matched_target && !(context->options & (POS_ACTIVE | POS_INACTIVE))) {
 		if (!grammar->sets_any || set >= grammar->sets_any->size() || !grammar->sets_any->test(set)) {
 			bool was_sub = (context->test && (context->test->offset_sub != 0));
+			// Neither the main readings nor their absence say anything about sub-readings, which may still match the set
+			for (auto reading : cohort.readings) {
+				was_sub = was_sub || reading->next;
+			}
 			// Barriers don't look at the wordform's own tags, so they may still match the set
 			bool skipped_wread = (context->in_barrier && cohort.wread);
 			if (!was_sub && !skipped_wread && set < cohort.possible_sets.size()) {
-- 
2.43.0


From 4476ab8ae13632a4f1c1ad0ea8002314c4b81185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:32 +0000
Subject: [PATCH 101/102] fix: rules are tried again on cohorts whose readings
 were protected or unprotected

---
 src/GrammarApplicator_runRules.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2d5a590..be241dc 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1551,10 +1551,16 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 			else if (rule->type == K_PROTECT) {
 				TRACE;
+				if (!get_apply_to().subreading->immutable) {
+					index_ruleCohort_no.clear();
+				}
 				get_apply_to().subreading->immutable = true;
 			}
 			else if (rule->type == K_UNPROTECT) {
 				TRACE;
+				if (get_apply_to().subreading->immutable) {
+					index_ruleCohort_no.clear();
+				}
 				get_apply_to().subreading->immutable = false;
 			}
 			else if (rule->type == K_UNMAP) {
-- 
2.43.0


From d61832213fd8575ec11a3248fa6a9f4e2a82ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:00 +0000
Subject: [PATCH 102/102] fix: tests of the bag of tags no longer look for a
 cohort that is not there

---
 src/GrammarApplicator_matchSet.cpp | 39 +++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index b44b044..1d10d42 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -81,22 +81,39 @@ inline void captureRegex(int32_t gc, uint8_t& regexgrp_ct, RXGS* regexgrps, Tag&
 	}
 }
 
+// A bag of tags belongs to no cohort, so its extremes are those of its own tags
+double get_extreme(const Reading& reading, uint32_t key, bool max) {
+	if (reading.parent) {
+		return max ? reading.parent->getMax(key) : reading.parent->getMin(key);
+	}
+	double rv = max ? NUMERIC_MAX : NUMERIC_MIN;
+	bool found = false;
+	for (auto& it : reading.tags_numerical) {
+		const Tag* tag = it.second;
+		if (tag->comparison_hash == key && (!found || (max ? tag->comparison_val > rv : tag->comparison_val < rv))) {
+			rv = tag->comparison_val;
+			found = true;
+		}
+	}
+	return rv;
+}
+
 uint32_t test_tag_numerical(const Reading& reading, const Tag& tag, const Tag& itag) {
 	uint32_t match = 0;
 	if (tag.comparison_hash == itag.comparison_hash) {
 		double compval = tag.comparison_val;
 		if ((tag.type & T_NUMERIC_MATH) && tag.comparison_offset) {
-			MathParser mp(reading.parent->getMin(tag.comparison_hash), reading.parent->getMax(tag.comparison_hash));
+			MathParser mp(get_extreme(reading, tag.comparison_hash, false), get_extreme(reading, tag.comparison_hash, true));
 			UStringView exp(tag.tag);
 			exp.remove_prefix(tag.comparison_offset);
 			exp.remove_suffix(1);
 			compval = mp.eval(exp);
 		}
 		else if (compval <= NUMERIC_MIN) {
-			compval = reading.parent->getMin(tag.comparison_hash);
+			compval = get_extreme(reading, tag.comparison_hash, false);
 		}
 		else if (compval >= NUMERIC_MAX) {
-			compval = reading.parent->getMax(tag.comparison_hash);
+			compval = get_extreme(reading, tag.comparison_hash, true);
 		}
 
 		if (tag.comparison_op == OP_EQUALS && itag.comparison_op == OP_EQUALS && compval == itag.comparison_val) {
@@ -388,7 +405,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		match = doesTagMatchReading(reading, *nt, unif_mode, bypass_index);
 	}
 	else if (tag.type & T_META) {
-		if (tag.regexp && !reading.parent->text.empty()) {
+		if (tag.regexp && reading.parent && !reading.parent->text.empty()) {
 			UErrorCode status = U_ZERO_ERROR;
 			uregex_setText(tag.regexp, reading.parent->text.data(), SI32(reading.parent->text.size()), &status);
 			if (status != U_ZERO_ERROR) {
@@ -437,15 +454,15 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 			}
 		}
 		else if (tag.type & T_WORDFORM) {
-			match = reading.parent->wordform->hash;
+			match = reading.parent ? reading.parent->wordform->hash : tag.hash;
 			if (unif_mode) {
 				if (unif_last_wordform) {
-					if (unif_last_wordform != reading.parent->wordform->hash) {
+					if (unif_last_wordform != match) {
 						match = 0;
 					}
 				}
 				else {
-					unif_last_wordform = reading.parent->wordform->hash;
+					unif_last_wordform = match;
 				}
 			}
 		}
@@ -483,7 +500,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 	else if (tag.type & (T_VARIABLE|T_LOCAL_VARIABLE)) {
 		match = 0;
 		auto& vars = [&]() -> auto& {
-			if (reading.parent->parent == gWindow->current || !(tag.type & T_LOCAL_VARIABLE)) {
+			if (!(tag.type & T_LOCAL_VARIABLE) || !reading.parent || reading.parent->parent == gWindow->current) {
 				return variables;
 			}
 			return reading.parent->parent->variables_set;
@@ -533,7 +550,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 			match = grammar->tag_any;
 		}
 	}
-	else if (tag.type & T_ENCL) {
+	else if ((tag.type & T_ENCL) && reading.parent) {
 		auto sw = reading.parent->parent;
 		auto c = std::find(sw->all_cohorts.begin() + reading.parent->local_number, sw->all_cohorts.end(), reading.parent);
 		++c;
@@ -550,12 +567,12 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		}
 	}
 	else if (tag.type & T_MARK) {
-		if (reading.parent == get_mark()) {
+		if (reading.parent && reading.parent == get_mark()) {
 			match = grammar->tag_any;
 		}
 	}
 	else if (tag.type & T_ATTACHTO) {
-		if (reading.parent == get_attach_to().cohort) {
+		if (reading.parent && reading.parent == get_attach_to().cohort) {
 			match = grammar->tag_any;
 		}
 	}
-- 
2.43.0

