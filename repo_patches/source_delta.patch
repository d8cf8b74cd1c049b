From 02c0aa75ce608829f5738757276872c2241f0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 01/80] fix: don't leak refused IFF/REMOVE reading lists into
 the next cohort

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index faaff84..2be1a53 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1367,6 +1367,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					readings_changed = true;
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_REMOVE || rule->type == K_IFF) {
 				if (!removed.empty() && (removed.size() < get_apply_to().cohort->readings.size() || (unsafe && !(rule->flags & RF_SAFE)) || (rule->flags & RF_UNSAFE))) {
@@ -1400,6 +1401,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					initEmptyCohort(*get_apply_to().cohort);
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_JUMP) {
 				auto to = getTagList(*rule->maplist).front();
-- 
2.43.0


From 2a2657f6aed1c10f552d2cd56a225eff95a1732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 02/80] fix: bound tag-text buffers filled from untrusted input
 (R: tags, relation tags, $$N: sets, SPLITCOHORT deps)

---
 src/GrammarApplicator_runRules.cpp | 10 +++++++---
 src/Tag.cpp                        |  2 +-
 src/parser_helpers.hpp             |  4 ++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2be1a53..fc42b1a 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1268,8 +1268,12 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 		};
 
 		auto make_relation_rtag = [&](Tag* tag, uint32_t id) {
-			UChar tmp[256] = { 0 };
-			u_sprintf(tmp, "R:%S:%u", tag->tag.data(), id);
+			UString tmp(u"R:");
+			tmp += tag->tag;
+			tmp += ':';
+			for (auto c : std::to_string(id)) {
+				tmp += c;
+			}
 			auto nt = addTag(tmp);
 			return nt;
 		};
@@ -1641,7 +1645,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 					UChar dep_self[12] = {};
 					UChar dep_parent[12] = {};
-					if (u_sscanf(tter->tag.data(), "%[0-9cd]->%[0-9pm]", &dep_self, &dep_parent) == 2) {
+					if (u_sscanf(tter->tag.data(), "%11[0-9cd]->%11[0-9pm]", &dep_self, &dep_parent) == 2) {
 						if (dep_self[0] == 'c' || dep_self[0] == 'd') {
 							cohort_dep[i - 1].first = DEP_NO_PARENT;
 							if (rel_trg == DEP_NO_PARENT) {
diff --git a/src/Tag.cpp b/src/Tag.cpp
index 1096516..28b4285 100644
--- a/src/Tag.cpp
+++ b/src/Tag.cpp
@@ -126,7 +126,7 @@ void Tag::parseTagRaw(const UChar* to, Grammar* grammar) {
 	if (tag[0] == 'R' && tag[1] == ':') {
 		UChar relname[256];
 		dep_parent = std::numeric_limits<uint32_t>::max();
-		if (u_sscanf(tag.data(), "R:%[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
+		if (u_sscanf(tag.data(), "R:%255[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
 			type |= T_RELATION;
 			Tag* reltag = grammar->allocateTag(relname);
 			comparison_hash = reltag->hash;
diff --git a/src/parser_helpers.hpp b/src/parser_helpers.hpp
index 4667978..2d79d80 100644
--- a/src/parser_helpers.hpp
+++ b/src/parser_helpers.hpp
@@ -442,8 +442,8 @@ Set* parseSet(const UChar* name, const UChar* p, State& state) {
 	      (name[0] == '$' && name[1] == '$') || (name[0] == '&' && name[1] == '&')) &&
 	    name[2]) {
 		const UChar* wname = &(name[2]);
-		const UChar wname2[1024]{};
-		if (u_sscanf(wname, "%*u:%S", &wname2) == 1) {
+		UChar wname2[1024]{};
+		if (u_sscanf(wname, "%*u:%1023S", &wname2) == 1) {
 			wname = wname2;
 		}
 		uint32_t wrap = hash_value(wname);
-- 
2.43.0


From d5b48b3fcad927e4ae3f4f8b03fbd7d9582effed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 03/80] fix: recompute numeric MIN/MAX of a cohort after
 SELECT, REMOVE, IFF and RESTORE

---
 src/GrammarApplicator_runRules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index fc42b1a..8668907 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1359,6 +1359,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 					target->readings.swap(selected);
+					target->type &= ~CT_NUM_CURRENT;
 					if (rule->flags & RF_DELAYED) {
 						target->delayed.insert(target->delayed.end(), drop.begin(), drop.end());
 					}
@@ -1396,6 +1397,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						removed.pop_back();
 					}
 					get_apply_to().cohort->readings.resize(oz);
+					get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 					if (debug_level > 0) {
 						std::cerr << "DEBUG: Rule " << rule->line << " hit cohort " << get_apply_to().cohort->local_number << std::endl;
 					}
@@ -1868,6 +1870,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							rl[i]->deleted = false;
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
+							get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 							rl.erase(rl.begin() + i);
 							did_restore = true;
 						}
-- 
2.43.0


From 935bd0412dfae94f1a0f1f7841efc781dc8fa54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 04/80] fix: rules must be retried on a cohort after tag
 removal, RESTORE, unmapping, cohort removal and other state changes

The rule index dropped a cohort for good when a rule target did not match,
even when the mismatch can go away without any tag being added, and several
state changes did not clear the tried-rules cache.
---
 src/GrammarApplicator_runRules.cpp | 43 +++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 8668907..ffd66c1 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -488,6 +488,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		size_t num_active = 0;
 		size_t num_iff = 0;
 		size_t num_immutable = 0;
+		size_t num_skipped = 0;
 
 		std::vector<Rule_Context> reading_contexts;
 		reading_contexts.reserve(cohort->readings.size());
@@ -566,12 +567,15 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			reading->matched_tests = false;
 
 			if (reading->mapped && (rule.type == K_MAP || rule.type == K_ADD || rule.type == K_REPLACE)) {
+				++num_skipped;
 				continue;
 			}
 			if (reading->mapped && (rule.flags & RF_NOMAPPED)) {
+				++num_skipped;
 				continue;
 			}
 			if (reading->noprint && !allow_magic_readings) {
+				++num_skipped;
 				continue;
 			}
 			if (reading->immutable && rule.type != K_UNPROTECT) {
@@ -792,8 +796,9 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		}
 
 		// If none of the readings were valid targets, remove this cohort from the rule's possible cohorts.
+		// But not if that outcome can change without any tags being added: special targets, and readings that were never looked at.
 		if (num_active == 0 && (num_iff == 0 || rule.type != K_IFF)) {
-			if (num_immutable == 0 && !matched_target) {
+			if (num_immutable == 0 && num_skipped == 0 && !(set.type & ST_SPECIAL) && !matched_target) {
 				--rocit;                         // We have already incremented rocit earlier, so take one step back...
 				cohortset->erase_n(rocit); // ...and one step forward again
 			}
@@ -1171,6 +1176,18 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			return cCohort;
 		};
 
+		// Tags going away can make targets match that previously did not, so bring the rules back for all remaining tags
+		auto reindex_reading = [&](Reading& reading) {
+			bool updated = updateValidRules(rules, intersects, grammar->tag_any, reading);
+			for (auto tag : reading.tags) {
+				updated |= updateValidRules(rules, intersects, tag, reading);
+			}
+			if (updated) {
+				iter_rules = intersects.find(rule->number);
+				iter_rules_end = intersects.end();
+			}
+		};
+
 		auto rem_cohort = [&](Cohort* cohort) {
 			auto& current = *cohort->parent;
 			for (auto iter : cohort->readings) {
@@ -1441,6 +1458,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							current.variables_output.insert(it->first);
 						}
 						variables.erase(it);
+						index_ruleCohort_no.clear();
 						//u_fprintf(ux_stderr, "Info: RemVariable fired for %S.\n", tag->tag.data());
 					}
 				}
@@ -1450,7 +1468,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				auto values = getTagList(*rule->sublist);
 				VARSTRINGIFY(names.front());
 				VARSTRINGIFY(values.front());
-				variables[names.front()->hash] = values.front()->hash;
+				auto& var = variables[names.front()->hash];
+				if (var != values.front()->hash) {
+					var = values.front()->hash;
+					index_ruleCohort_no.clear();
+				}
 				if (rule->flags & RF_OUTPUT) {
 					current.variables_output.insert(names.front()->hash);
 				}
@@ -1522,8 +1544,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							iter_rules_end = intersects.end();
 						}
 					}
-					index_ruleCohort_no.clear();
 				}
+				index_ruleCohort_no.clear();
 				readings_changed = true;
 				reset_cohorts_for_loop = true;
 			}
@@ -1537,6 +1559,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			else if (rule->type == K_REMOVE || rule->type == K_IFF) {
 				if (rule->type == K_REMOVE && (rule->flags & RF_UNMAPLAST) && removed.size() == get_apply_to().cohort->readings.size() - 1) {
 					if (unmapReading(*get_apply_to().subreading, rule->number)) {
+						reindex_reading(*get_apply_to().subreading);
 						readings_changed = true;
 					}
 				}
@@ -1548,14 +1571,17 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 			else if (rule->type == K_PROTECT) {
 				TRACE;
+				index_ruleCohort_no.clear();
 				get_apply_to().subreading->immutable = true;
 			}
 			else if (rule->type == K_UNPROTECT) {
 				TRACE;
+				index_ruleCohort_no.clear();
 				get_apply_to().subreading->immutable = false;
 			}
 			else if (rule->type == K_UNMAP) {
 				if (unmapReading(*get_apply_to().subreading, rule->number)) {
+					reindex_reading(*get_apply_to().subreading);
 					index_ruleCohort_no.clear();
 					readings_changed = true;
 				}
@@ -1871,6 +1897,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
 							get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
+							for (auto r = rl[i]; r; r = r->next) {
+								reflowReading(*r);
+								reindex_reading(*r);
+							}
 							rl.erase(rl.begin() + i);
 							did_restore = true;
 						}
@@ -1891,6 +1921,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				if (did_restore) {
+					index_ruleCohort_no.clear();
 					TRACE;
 				}
 				finish_reading_loop = false;
@@ -1926,6 +1957,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				if (!reading.baseform) {
 					addTagToReading(reading, bform);
 				}
+				reindex_reading(reading);
 
 				if (!mappings->empty()) {
 					splitMappings(mappings, *get_apply_to().cohort, reading, true);
@@ -2054,6 +2086,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 					reflowReading(*get_apply_to().subreading);
+					reindex_reading(*get_apply_to().subreading);
 
 					if (!mappings->empty()) {
 						splitMappings(mappings, *get_apply_to().cohort, *get_apply_to().subreading, true);
@@ -2224,6 +2257,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 				readings_changed = true;
 				reflowReading(*cReading);
+				reindex_reading(*cReading);
 			}
 			else if (rule->type == K_MERGECOHORTS) {
 				index_ruleCohort_no.clear();
@@ -2667,6 +2701,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				// this is a per-cohort rule
 				finish_reading_loop = false;
 				TRACE;
+				index_ruleCohort_no.clear();
 				get_apply_to().cohort->dep_parent = DEP_NO_PARENT;
 			}
 			else if (rule->type == K_SWITCHPARENT) {
@@ -2674,6 +2709,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				finish_reading_loop = false;
 				TRACE;
 
+				index_ruleCohort_no.clear();
+
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
 				Cohort* parent = current.parent->cohort_map[child->dep_parent];
-- 
2.43.0


From 80d7316c2d2299ddb871a71b61ffed5c1a944661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 05/80] fix: Cohort::clear() must also empty its list of
 ignored readings

---
 src/Cohort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Cohort.cpp b/src/Cohort.cpp
index b515dc6..111f4e1 100644
--- a/src/Cohort.cpp
+++ b/src/Cohort.cpp
@@ -129,6 +129,7 @@ void Cohort::clear() {
 	readings.clear();
 	deleted.clear();
 	delayed.clear();
+	ignored.clear();
 	wread = nullptr;
 }
 
-- 
2.43.0


From e0b52ec8fcb93159a135a5e9157de90695355215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 06/80] fix: copying a reading must not lose its protection
 when the copy comes from the pool

---
 src/Reading.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Reading.cpp b/src/Reading.cpp
index a0dad37..83b85b3 100644
--- a/src/Reading.cpp
+++ b/src/Reading.cpp
@@ -48,8 +48,8 @@ Reading* alloc_reading(const Reading& o) {
 		r->noprint = o.noprint;
 		r->matched_target = false;
 		r->matched_tests = false;
-		r->immutable = false;
-		r->active = false;
+		r->immutable = o.immutable;
+		r->active = o.active;
 		r->baseform = o.baseform;
 		r->hash = o.hash;
 		r->hash_plain = o.hash_plain;
-- 
2.43.0


From 71f690f84401b7d7e6c29e933bee594c81ef7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 07/80] fix: a SET: tag naming an unknown or non-static set
 must not be dereferenced

---
 src/GrammarApplicator_matchSet.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 7b6e5d9..f53340c 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -380,8 +380,10 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 	}
 	else if (tag.type & T_SET) {
 		uint32_t sh = hash_value(tag.tag);
-		sh = grammar->sets_by_name.find(sh)->second;
-		match = doesSetMatchReading(reading, sh, bypass_index, unif_mode);
+		auto it = grammar->sets_by_name.find(sh);
+		if (it != grammar->sets_by_name.end()) {
+			match = doesSetMatchReading(reading, it->second, bypass_index, unif_mode);
+		}
 	}
 	else if (tag.type & T_VARSTRING) {
 		const Tag* nt = generateVarstringTag(&tag);
-- 
2.43.0


From 1050aca201f600357287f58f2b107ab9174ee135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 08/80] fix: SELECT/REMOVE/IFF on an attached reading must not
 use a null, foreign or repeated reading

---
 src/GrammarApplicator_matchSet.cpp |  6 ++++++
 src/GrammarApplicator_runRules.cpp | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index f53340c..312459f 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1048,6 +1048,7 @@ bool GrammarApplicator::doesSetMatchCohortCareful(Cohort& cohort, const uint32_t
 			continue;
 		}
 		for (auto reading : *list) {
+			Reading* reading_head = reading;
 			if (context && context->test) {
 				// ToDo: Barriers need some way to escape sub-readings
 				reading = get_sub_reading(reading, context->test->offset_sub);
@@ -1065,6 +1066,11 @@ bool GrammarApplicator::doesSetMatchCohortCareful(Cohort& cohort, const uint32_t
 			if (!retval) {
 				break;
 			}
+			if (!context_stack.empty() &&
+				context_stack.back().attach_to.cohort == &cohort &&
+				context_stack.back().attach_to.subreading == reading) {
+				context_stack.back().attach_to.reading = reading_head;
+			}
 		}
 		if (!retval) {
 			break;
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index ffd66c1..467e5d3 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1551,12 +1551,23 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 		};
 
+		// With attached contexts, the reading found may be one that is not in play, or the same one several times
+		auto can_pick = [&](const ReadingList& picked) {
+			auto at = get_apply_to();
+			return std::find(at.cohort->readings.begin(), at.cohort->readings.end(), at.reading) != at.cohort->readings.end() && std::find(picked.begin(), picked.end(), at.reading) == picked.end();
+		};
+
 		RuleCallback reading_cb = [&]() {
 			if (rule->type == K_SELECT || (rule->type == K_IFF && get_apply_to().subreading->matched_tests)) {
-				selected.push_back(get_apply_to().reading);
+				if (can_pick(selected)) {
+					selected.push_back(get_apply_to().reading);
+				}
 				index_ruleCohort_no.clear();
 			}
 			else if (rule->type == K_REMOVE || rule->type == K_IFF) {
+				if (!can_pick(removed)) {
+					return;
+				}
 				if (rule->type == K_REMOVE && (rule->flags & RF_UNMAPLAST) && removed.size() == get_apply_to().cohort->readings.size() - 1) {
 					if (unmapReading(*get_apply_to().subreading, rule->number)) {
 						reindex_reading(*get_apply_to().subreading);
-- 
2.43.0


From 15ed7e4f7526095d84117dc9c661b727187c57a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 09/80] fix: keep dependency children consistent in REMPARENT,
 SWITCHPARENT, REMCOHORT and SPLITCOHORT

---
 src/GrammarApplicator_runRules.cpp | 37 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 467e5d3..97cdec4 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1188,6 +1188,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 		};
 
+		auto detach_from_parent = [&](Cohort& cohort) {
+			auto it = gWindow->cohort_map.find(cohort.dep_parent);
+			if (it != gWindow->cohort_map.end()) {
+				it->second->remChild(cohort.dep_self);
+			}
+			cohort.dep_parent = DEP_NO_PARENT;
+		};
+
 		auto rem_cohort = [&](Cohort* cohort) {
 			auto& current = *cohort->parent;
 			for (auto iter : cohort->readings) {
@@ -1205,11 +1213,13 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			// ToDo: Named relations must be erased
 			while (!cohort->dep_children.empty()) {
 				uint32_t ch = cohort->dep_children.back();
-				if (cohort->dep_parent == DEP_NO_PARENT) {
-					attachParentChild(*gWindow->cohort_map[0], *gWindow->cohort_map[ch], true, true);
+				auto child = gWindow->cohort_map.find(ch);
+				auto parent = gWindow->cohort_map.find(cohort->dep_parent);
+				if (parent == gWindow->cohort_map.end()) {
+					parent = gWindow->cohort_map.find(0);
 				}
-				else {
-					attachParentChild(*gWindow->cohort_map[cohort->dep_parent], *gWindow->cohort_map[ch], true, true);
+				if (child != gWindow->cohort_map.end() && parent != gWindow->cohort_map.end()) {
+					attachParentChild(*parent->second, *child->second, true, true);
 				}
 				cohort->dep_children.erase(ch);
 			}
@@ -1785,7 +1795,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					if (cohort_dep[i].first == DEP_NO_PARENT) {
 						while (!get_apply_to().cohort->dep_children.empty()) {
 							uint32_t ch = get_apply_to().cohort->dep_children.back();
-							attachParentChild(*cCohort, *current.parent->cohort_map[ch], true, true);
+							auto it = current.parent->cohort_map.find(ch);
+							if (it != current.parent->cohort_map.end()) {
+								attachParentChild(*cCohort, *it->second, true, true);
+							}
 							get_apply_to().cohort->dep_children.erase(ch); // Just in case the attachment can't be made for some reason
 						}
 					}
@@ -2713,7 +2726,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				finish_reading_loop = false;
 				TRACE;
 				index_ruleCohort_no.clear();
-				get_apply_to().cohort->dep_parent = DEP_NO_PARENT;
+				detach_from_parent(*get_apply_to().cohort);
 			}
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
@@ -2724,7 +2737,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
-				Cohort* parent = current.parent->cohort_map[child->dep_parent];
+				auto pit = current.parent->cohort_map.find(child->dep_parent);
+				if (pit == current.parent->cohort_map.end()) {
+					return;
+				}
+				Cohort* parent = pit->second;
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
@@ -2734,10 +2751,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				// clear dependencies
-				child->dep_parent = DEP_NO_PARENT;
-				parent->dep_parent = DEP_NO_PARENT;
+				detach_from_parent(*child);
+				detach_from_parent(*parent);
 				for (auto s : siblings) {
-					s->dep_parent = DEP_NO_PARENT;
+					detach_from_parent(*s);
 				}
 
 				// reattach
-- 
2.43.0


From b21d2515054bbe0282440d14c31db61590da935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 10/80] fix: MERGECOHORTS must not merge away the >>> cohort

---
 src/GrammarApplicator_runRules.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 97cdec4..4be6b73 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2322,6 +2322,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 				}
 
+				for (auto c : withs) {
+					if (c->local_number == 0) {
+						// The window's >>> cohort cannot be merged away
+						finish_reading_loop = false;
+						return;
+					}
+				}
+
 				size_t spacesInAddedWf = 0;
 				context_stack.back().target.cohort = add_cohort(merge_at, spacesInAddedWf, &withs);
 
-- 
2.43.0


From 83548f3f55446b317b319ee502f7d88b80465612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 11/80] fix: trie_getTags must backtrack, so that tuples
 sharing a prefix stay apart

---
 src/TagTrie.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index 79d5f97..4acf73a 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -176,14 +176,17 @@ inline void trie_getTags(const trie_t& trie, TagVectorSet& rv, TagVector& tv) {
 	for (auto& kv : trie) {
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
-			std::sort(tv.begin(), tv.end(), compare_Tag());
-			rv.insert(tv);
+			// Sort a copy, since tv must remain the path leading here
+			TagVector sorted(tv);
+			std::sort(sorted.begin(), sorted.end(), compare_Tag());
+			rv.insert(sorted);
 			tv.pop_back();
 			continue;
 		}
 		if (kv.second.trie) {
 			trie_getTags(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
@@ -216,6 +219,7 @@ inline void trie_getTagsOrdered(const trie_t& trie, TagVectorSet& rv, TagVector&
 		if (kv.second.trie) {
 			trie_getTagsOrdered(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
-- 
2.43.0


From e03022627937d9ead46636e66085fd282c93f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 12/80] fix: a nested rule on the same line as its WITH must
 not get the text before it as wordform

---
 src/TextualParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 96adfad..d5557ca 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -1182,7 +1182,8 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 	BACKTONL(lp);
 	result->lines += SKIPWS(lp);
 
-	if (lp != p && lp < p) {
+	// Nested rules cannot have a wordform prefix; anything before them on the line is the outer WITH rule
+	if (!in_nested_rule && lp != p && lp < p) {
 		cur_ast->b = lp;
 		AST_OPEN(RuleWordform);
 		cur_ast->b = lp;
-- 
2.43.0


From 075b72a15220a3e0245c0d0af668446266cde7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 13/80] fix: an OR group must not make an outer deep dependency
 search forget where it has been

---
 src/GrammarApplicator_runContextualTest.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 55e0417..286fca0 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -330,8 +330,11 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 	else if (!test->ors.empty()) {
 		Cohort* cdeep = nullptr;
 		for (auto iter : test->ors) {
-			dep_deep_seen.clear();
+			// Each alternative starts afresh, but must not make an outer deep search forget where it has been
+			decltype(dep_deep_seen) outer_seen;
+			outer_seen.swap(dep_deep_seen);
 			cohort = runContextualTest_tmpl(sWindow, position, test, iter, cdeep, origin);
+			outer_seen.swap(dep_deep_seen);
 			if (cohort) {
 				break;
 			}
-- 
2.43.0


From fda02e563ced46229ba667e64dbb362c6a30423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 14/80] fix: --grammar-out must write a grammar that means the
 same

EXTERNAL commands, REPLACE EXCEPT lists, NOT on template references, anchors on nested or
after last rules, empty sections, and $$/&& references to merged sets were lost, and sets
merged under another name could not be referenced with $$ or &&.
---
 src/GrammarWriter.cpp  | 74 ++++++++++++++++++++++++++++++++++--------
 src/GrammarWriter.hpp  |  4 +++
 src/parser_helpers.hpp |  4 +++
 3 files changed, 68 insertions(+), 14 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index e58b5be..b97f119 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -72,6 +72,16 @@ void GrammarWriter::printSet(std::ostream& output, const Set& curset) {
 		}
 		const UChar* n = curset.name.data();
 		if ((n[0] == '$' && n[1] == '$') || (n[0] == '&' && n[1] == '&')) {
+			// The name such a set was made from may since have been merged into an equal set, so define it as an alias
+			auto base = curset.name.substr(2);
+			auto c = base.find(':');
+			if (c != UString::npos && base.find_first_not_of(u"0123456789") == c) {
+				base.erase(0, c + 1);
+			}
+			auto named = [&](const Set* s) { return s->name == base; };
+			if (std::none_of(grammar->sets_list.begin(), grammar->sets_list.end(), named) && aliases.insert(base).second) {
+				u_fprintf(output, "SET %S = %S ;\n", base.data(), grammar->sets_list[curset.sets[0]]->name.data());
+			}
 			u_fprintf(output, "# ");
 		}
 		if (curset.type & ST_ORDERED) {
@@ -208,14 +218,11 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 		}
 	}
 	for (auto isec : grammar->sections) {
-		found = false;
+		// Sections without rules matter too, since each section runs all earlier ones again
+		u_fprintf(output, "\nSECTION\n");
 		for (auto rule_iter : grammar->rule_by_number) {
 			const Rule& r = *rule_iter;
 			if (r.section == SI32(isec)) {
-				if (!found) {
-					u_fprintf(output, "\nSECTION\n");
-					found = true;
-				}
 				printRule(output, r);
 				u_fprintf(output, " ;\n");
 			}
@@ -246,22 +253,39 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 		}
 	}
 
+	// Anchors after the last rule
+	printAnchor(output, UI32(grammar->rule_by_number.size()), UString{});
+
 	return 0;
 }
 
+void GrammarWriter::printAnchor(std::ostream& to, uint32_t number, const UString& name) {
+	auto as = anchors.equal_range(number);
+	for (auto ait = as.first; ait != as.second; ++ait) {
+		auto tag = USV(grammar->single_tags.find(ait->second)->second->tag);
+		if (tag == keywords[K_START] || tag == keywords[K_END] || tag == name) {
+			continue;
+		}
+		u_fprintf(to, "ANCHOR %S ;\n", tag.data());
+	}
+}
+
+void GrammarWriter::printAnchors(std::ostream& to, const Rule& rule) {
+	// Nested rules are numbered before the rule they are in, but anchors can't be inside that rule
+	for (auto r : rule.sub_rules) {
+		printAnchors(to, *r);
+	}
+	printAnchor(to, rule.number, rule.name);
+}
+
 void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 	if (seen_rules.count(rule.number)) {
 		return;
 	}
 	seen_rules.insert(rule.number);
 
-	auto as = anchors.equal_range(rule.number);
-	for (auto ait = as.first; ait != as.second; ++ait) {
-		auto tag = USV(grammar->single_tags.find(ait->second)->second->tag);
-		if (tag == keywords[K_START] || tag == keywords[K_END] || tag == rule.name) {
-			continue;
-		}
-		u_fprintf(to, "ANCHOR %S ;\n", tag.data());
+	if (!in_nested_rule) {
+		printAnchors(to, rule);
 	}
 
 	if (rule.wordform) {
@@ -287,10 +311,18 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 	}
 	u_fprintf(to, " ");
 
+	if (type == K_EXTERNAL) {
+		u_fprintf(to, "%S \"%S\" ", (rule.type == K_EXTERNAL_ONCE ? STR_ONCE : STR_ALWAYS).data(), grammar->single_tags.find(rule.varname)->second->tag.data());
+	}
+
 	for (uint32_t i = 0; i < FLAGS_COUNT; ++i) {
 		if (i == FL_BEFORE || i == FL_AFTER || i == FL_WITHCHILD) {
 			continue;
 		}
+		if (i == FL_REMEMBERX && (rule.flags & RF_RESETX)) {
+			// Both only happens when jM implied REMEMBERX, and it will do so again
+			continue;
+		}
 		if (rule.flags & (1ull << i)) {
 			if (i == FL_SUB) {
 				u_fprintf(to, "%S:%d ", g_flags[i].data(), rule.sub_reading);
@@ -313,8 +345,8 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 		u_fprintf(to, "%S ", rule.maplist->name.data());
 	}
 
-	if (rule.sublist && (rule.type == K_ADDRELATIONS || rule.type == K_SETRELATIONS || rule.type == K_REMRELATIONS || rule.type == K_SETVARIABLE || rule.type == K_COPY || rule.type == K_COPYCOHORT)) {
-		if (rule.type == K_COPY || rule.type == K_COPYCOHORT) {
+	if (rule.sublist && (rule.type == K_ADDRELATIONS || rule.type == K_SETRELATIONS || rule.type == K_REMRELATIONS || rule.type == K_SETVARIABLE || rule.type == K_COPY || rule.type == K_COPYCOHORT || rule.type == K_REPLACE)) {
+		if (rule.type == K_COPY || rule.type == K_COPYCOHORT || rule.type == K_REPLACE) {
 			u_fprintf(to, "EXCEPT ");
 		}
 		u_fprintf(to, "%S ", rule.sublist->name.data());
@@ -381,11 +413,14 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 
 	if (rule.type == K_WITH) {
 		u_fprintf(to, "{\n");
+		bool prev_in_nested_rule = in_nested_rule;
+		in_nested_rule = true;
 		for (auto r : rule.sub_rules) {
 			u_fprintf(to, "\t");
 			printRule(to, *r);
 			u_fprintf(to, " ;\n");
 		}
+		in_nested_rule = prev_in_nested_rule;
 		u_fprintf(to, "}\n");
 	}
 }
@@ -535,6 +570,17 @@ void GrammarWriter::printContextualTest(std::ostream& to, const ContextualTest&
 
 		u_fprintf(to, " ");
 	}
+	else {
+		if (test.pos & POS_ALL) {
+			u_fprintf(to, "ALL ");
+		}
+		if (test.pos & POS_NONE) {
+			u_fprintf(to, "NONE ");
+		}
+		if (test.pos & POS_NOT) {
+			u_fprintf(to, "NOT ");
+		}
+	}
 
 	if (test.tmpl) {
 		u_fprintf(to, "T:%u ", test.tmpl->hash);
diff --git a/src/GrammarWriter.hpp b/src/GrammarWriter.hpp
index a0ae5e4..996e758 100644
--- a/src/GrammarWriter.hpp
+++ b/src/GrammarWriter.hpp
@@ -43,9 +43,13 @@ private:
 	uint32FlatHashSet seen_rules;
 	const Grammar* grammar = nullptr;
 	std::multimap<uint32_t, uint32_t> anchors;
+	std::set<UString> aliases;
+	bool in_nested_rule = false;
 
 	void printTag(std::ostream& out, const Tag& tag);
 	void printSet(std::ostream& output, const Set& curset);
+	void printAnchor(std::ostream& to, uint32_t number, const UString& name);
+	void printAnchors(std::ostream& to, const Rule& rule);
 	void printRule(std::ostream& to, const Rule& rule);
 	void printContextualTest(std::ostream& to, const ContextualTest& test);
 };
diff --git a/src/parser_helpers.hpp b/src/parser_helpers.hpp
index 2d79d80..24962cc 100644
--- a/src/parser_helpers.hpp
+++ b/src/parser_helpers.hpp
@@ -447,6 +447,10 @@ Set* parseSet(const UChar* name, const UChar* p, State& state) {
 			wname = wname2;
 		}
 		uint32_t wrap = hash_value(wname);
+		auto alias = state.get_grammar()->set_alias.find(wrap);
+		if (alias != state.get_grammar()->set_alias.end()) {
+			wrap = alias->second;
+		}
 		Set* wtmp = state.get_grammar()->getSet(wrap);
 		if (!wtmp) {
 			state.error("%s: Error: Attempted to reference undefined set '%S' on line %u near `%S`!\n", wname, p);
-- 
2.43.0


From 28ef63dc938e6a437877979a381c75d3a6dc0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 15/80] fix: --grammar-out must write delimiters that share
 their contents with a named set

---
 src/GrammarWriter.cpp | 49 ++++++++++++++++++++++++++++++-------------
 src/GrammarWriter.hpp |  1 +
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index b97f119..db629af 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -37,6 +37,24 @@ GrammarWriter::~GrammarWriter() {
 	grammar = nullptr;
 }
 
+void GrammarWriter::printSetTags(std::ostream& output, const Set& curset) {
+	TagVectorSet tagsets[] = { trie_getTagsOrdered(curset.trie), trie_getTagsOrdered(curset.trie_special) };
+	for (auto& tvs : tagsets) {
+		for (auto& tags : tvs) {
+			if (tags.size() > 1) {
+				u_fprintf(output, "(");
+			}
+			for (auto tag : tags) {
+				printTag(output, *tag);
+				u_fprintf(output, " ");
+			}
+			if (tags.size() > 1) {
+				u_fprintf(output, ") ");
+			}
+		}
+	}
+}
+
 void GrammarWriter::printSet(std::ostream& output, const Set& curset) {
 	if (used_sets.find(curset.number) != used_sets.end()) {
 		return;
@@ -48,21 +66,7 @@ void GrammarWriter::printSet(std::ostream& output, const Set& curset) {
 			u_fprintf(output, "O");
 		}
 		u_fprintf(output, "LIST %S = ", curset.name.data());
-		TagVectorSet tagsets[] = { trie_getTagsOrdered(curset.trie), trie_getTagsOrdered(curset.trie_special) };
-		for (auto& tvs : tagsets) {
-			for (auto& tags : tvs) {
-				if (tags.size() > 1) {
-					u_fprintf(output, "(");
-				}
-				for (auto tag : tags) {
-					printTag(output, *tag);
-					u_fprintf(output, " ");
-				}
-				if (tags.size() > 1) {
-					u_fprintf(output, ") ");
-				}
-			}
-		}
+		printSetTags(output, curset);
 		u_fprintf(output, " ;\n");
 	}
 	else {
@@ -153,6 +157,21 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 		u_fprintf(output, ";\n");
 	}
 
+	// Delimiters that are a set of another name, such as a static set, must be written as delimiters
+	std::pair<const Set*, UStringView> delims[] = {
+		{ grammar->delimiters, STR_DELIMITSET },
+		{ grammar->soft_delimiters, STR_SOFTDELIMITSET },
+	};
+	UStringView keywords_delims[] = { keywords[K_DELIMITERS], keywords[K_SOFT_DELIMITERS] };
+	for (size_t i = 0; i < 2; ++i) {
+		auto s = delims[i].first;
+		if (s && s->sets.empty() && !s->name.empty() && s->name != delims[i].second) {
+			u_fprintf(output, "%S = ", keywords_delims[i].data());
+			printSetTags(output, *s);
+			u_fprintf(output, ";\n");
+		}
+	}
+
 	if (grammar->ordered) {
 		u_fprintf(output, "OPTIONS += ordered ;\n");
 	}
diff --git a/src/GrammarWriter.hpp b/src/GrammarWriter.hpp
index 996e758..eeb2fad 100644
--- a/src/GrammarWriter.hpp
+++ b/src/GrammarWriter.hpp
@@ -47,6 +47,7 @@ private:
 	bool in_nested_rule = false;
 
 	void printTag(std::ostream& out, const Tag& tag);
+	void printSetTags(std::ostream& output, const Set& curset);
 	void printSet(std::ostream& output, const Set& curset);
 	void printAnchor(std::ostream& to, uint32_t number, const UString& name);
 	void printAnchors(std::ostream& to, const Rule& rule);
-- 
2.43.0


From 53d303eb8715393d7749ab31d7556e96d64ea728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 16/80] fix: niceline input must not read before the start of a
 reading that is only a baseform

---
 src/NicelineApplicator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 9536c5a..27eeadc 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -237,8 +237,10 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 					}
 				}
 				if (base && base[0]) {
-					if (base[0] == '[' && space[-1] == ']') {
-						base[0] = space[-1] = '"';
+					// This is the last tag, so it ends where the string does
+					auto last = base + u_strlen(base) - 1;
+					if (base[0] == '[' && *last == ']') {
+						base[0] = *last = '"';
 					}
 					Tag* tag = addTag(base);
 					if (tag->type & T_MAPPING || tag->tag[0] == grammar->mapping_prefix) {
-- 
2.43.0


From 40c8ebf64fe2eef5d9f4d15ce17e6d2faa984e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 17/80] fix: ADDCOHORT, SPLITCOHORT and MERGECOHORTS on a
 cohort attached to in another window must work on that window

---
 src/GrammarApplicator_runRules.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 4be6b73..3eef828 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -532,7 +532,14 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			override_cohortset();
 			cohortsets.back() = cohortset;
 			auto gac = get_apply_to().cohort;
-			auto lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			if (gac->parent != &current) {
+				// Attached to in another window, so continue from the target
+				gac = context_stack.back().target.cohort;
+			}
+			auto lb = cohortset->end();
+			if (gac->local_number < current.cohorts.size()) {
+				lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			}
 			if (lb == cohortset->end()) {
 				rocit = cohortset->size();
 			} else {
@@ -958,6 +965,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 		auto collect_subtree = [&](CohortSet& cs, Cohort* head, uint32_t cset) {
 			if (cset) {
+				// The head may have been attached to in another window
+				auto& current = *head->parent;
 				for (auto iter : current.cohorts) {
 					// Always consider the initial cohort a match
 					if (iter->global_number == head->global_number) {
@@ -987,6 +996,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 		};
 
 		auto add_cohort = [&](Cohort* cohort, size_t& spacesInAddedWf, CohortSet* withs = nullptr) {
+			// The cohort may have been attached to in another window
+			auto& current = *cohort->parent;
 			Cohort* cCohort = alloc_cohort(&current);
 			cCohort->global_number = gWindow->cohort_counter++;
 
@@ -1490,7 +1501,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 			else if (rule->type == K_DELIMIT) {
 				auto cohort = get_apply_to().cohort;
-				if (cohort->parent->cohorts.size() > cohort->local_number + 1) {
+				if (cohort->parent == &current && cohort->parent->cohorts.size() > cohort->local_number + 1) {
 					delimitAt(current, cohort);
 					delimited = true;
 					readings_changed = true;
@@ -1612,6 +1623,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				TRACE;
 
 				size_t spacesInAddedWf = 0; // not used here
+				auto& current = *get_apply_to().cohort->parent;
 				auto cCohort = add_cohort(get_apply_to().cohort, spacesInAddedWf);
 
 				// If the new cohort is now the last cohort, add <<< to it and remove <<< from previous last cohort
@@ -1634,6 +1646,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 			else if (rule->type == K_SPLITCOHORT) {
 				index_ruleCohort_no.clear();
+				auto& current = *get_apply_to().cohort->parent;
 
 				std::vector<std::pair<Cohort*, std::vector<TagList>>> cohorts;
 
@@ -1850,7 +1863,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				current.parent->cohort_map.erase(get_apply_to().cohort->global_number);
 				current.cohorts.erase(current.cohorts.begin() + get_apply_to().cohort->local_number);
 
-				reindex();
+				reindex(&current);
 				indexSingleWindow(current);
 				readings_changed = true;
 
@@ -2331,6 +2344,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				size_t spacesInAddedWf = 0;
+				auto& current = *merge_at->parent;
 				context_stack.back().target.cohort = add_cohort(merge_at, spacesInAddedWf, &withs);
 
 				for (auto c : withs) {
-- 
2.43.0


From 0e7ae2a126764e69fce87906668a6b6bd295a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 18/80] fix: COPY and REPLACE on a cohort attached to via its
 static tags must not use a null reading or baseform

---
 src/GrammarApplicator_runRules.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 3eef828..3722e63 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1991,7 +1991,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				for (auto tter : *excepts) {
 					addTagToReading(reading, tter);
 				}
-				if (!reading.baseform) {
+				// Static tags of an attached cohort have no baseform
+				if (!reading.baseform && bform) {
 					addTagToReading(reading, bform);
 				}
 				reindex_reading(reading);
@@ -2230,6 +2231,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				finish_reading_loop = false;
 			}
 			else if (rule->type == K_COPY) {
+				if (!get_apply_to().reading) {
+					// Attached to a cohort via its static tags, so there is no reading to copy
+					return;
+				}
 				// ToDo: Maybe just goto Substitute directly?
 				Reading* cReading = get_apply_to().cohort->allocateAppendReading(*get_apply_to().reading);
 				++numReadings;
-- 
2.43.0


From 0c64bd943fe1a6416afdd9598038f2667fe6c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 19/80] fix: --always-span must also let a scanning test start
 in the next window

---
 src/GrammarApplicator_runContextualTest.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 286fca0..333fd69 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -136,8 +136,10 @@ Cohort* GrammarApplicator::runSingleTest(SingleWindow* sWindow, size_t i, const
 	return runSingleTest(cohort, test, rvs, retval, deep, origin);
 }
 
-Cohort* getCohortInWindow(SingleWindow*& sWindow, size_t position, const ContextualTest* test, int32_t& pos) {
+Cohort* getCohortInWindow(SingleWindow*& sWindow, size_t position, const ContextualTest* test, int32_t& pos, bool always_span) {
 	Cohort* cohort = nullptr;
+	// Only scanning tests are forced to span
+	always_span = always_span && (test->pos & (POS_SCANFIRST | POS_SCANALL)) && !(test->pos & POS_ABSOLUTE);
 	pos = SI32(position) + test->offset;
 	// ToDo: (NOT*) and (*C) tests can be cached
 	if ((test->pos & POS_ABSOLUTE) && (test->pos & (POS_SPAN_LEFT|POS_SPAN_RIGHT))) {
@@ -160,13 +162,13 @@ Cohort* getCohortInWindow(SingleWindow*& sWindow, size_t position, const Context
 		}
 	}
 	if (pos >= 0) {
-		if (pos >= SI32(sWindow->cohorts.size()) && (test->pos & (POS_SPAN_RIGHT | POS_SPAN_BOTH)) && sWindow->next) {
+		if (pos >= SI32(sWindow->cohorts.size()) && ((test->pos & (POS_SPAN_RIGHT | POS_SPAN_BOTH)) || always_span) && sWindow->next) {
 			sWindow = sWindow->next;
 			pos = 0;
 		}
 	}
 	else {
-		if ((test->pos & (POS_SPAN_LEFT | POS_SPAN_BOTH)) && sWindow->previous) {
+		if (((test->pos & (POS_SPAN_LEFT | POS_SPAN_BOTH)) || always_span) && sWindow->previous) {
 			sWindow = sWindow->previous;
 			pos = SI32(sWindow->cohorts.size()) - 1;
 		}
@@ -344,7 +346,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 		}
 	}
 	else {
-		cohort = getCohortInWindow(sWindow, position, test, pos);
+		cohort = getCohortInWindow(sWindow, position, test, pos, always_span);
 	}
 
 	if (!cohort) {
-- 
2.43.0


From 68dc304b220a1d7b49b3ef35a969150e407452f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 20/80] fix: printing a window for the profiler must not
 reorder the readings the rules are working on

---
 src/GrammarApplicator.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index cc21a37..b26a17f 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -489,6 +489,19 @@ void GrammarApplicator::printReading(const Reading* reading, std::ostream& outpu
 }
 
 void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool profiling) {
+	// While profiling or debugging, rules are in the middle of running, so the actual lists must keep their order
+	auto print_sorted = [&](ReadingList& list) {
+		ReadingList copy;
+		if (profiling) {
+			copy = list;
+		}
+		auto& readings = profiling ? copy : list;
+		std::sort(readings.begin(), readings.end(), Reading::cmp_number);
+		for (auto reading : readings) {
+			printReading(reading, output);
+		}
+	};
+
 	if (cohort->local_number == 0) {
 		goto removed;
 	}
@@ -531,19 +544,10 @@ void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool p
 		}
 	}
 
-	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
-	for (auto rter1 : cohort->readings) {
-		printReading(rter1, output);
-	}
+	print_sorted(cohort->readings);
 	if (trace && !trace_no_removed) {
-		std::sort(cohort->delayed.begin(), cohort->delayed.end(), Reading::cmp_number);
-		for (auto rter3 : cohort->delayed) {
-			printReading(rter3, output);
-		}
-		std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
-		for (auto rter2 : cohort->deleted) {
-			printReading(rter2, output);
-		}
+		print_sorted(cohort->delayed);
+		print_sorted(cohort->deleted);
 	}
 
 removed:
-- 
2.43.0


From a9c917713fb66e649297a6126aeabc6fd291dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 21/80] fix: printing a cohort must not number its dependency,
 as profiling prints windows that are yet to be analysed

---
 src/GrammarApplicator.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index b26a17f..cc11905 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -409,9 +409,6 @@ void GrammarApplicator::printReading(const Reading* reading, std::ostream& outpu
 	}
 
 	if (has_dep && !(reading->parent->type & CT_REMOVED)) {
-		if (!reading->parent->dep_self) {
-			reading->parent->dep_self = reading->parent->global_number;
-		}
 		auto pr = reading->parent;
 		if (reading->parent->dep_parent != DEP_NO_PARENT) {
 			if (reading->parent->dep_parent == 0) {
-- 
2.43.0


From 908ec13f537cdc355dccfdb108b337b507cd621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 22/80] fix: a relation set by a rule must not also be taken
 for one from the input

This also means that a relation to >>> no longer gets replaced by an unrelated one in binary
streams, so such streams must represent it.
---
 src/BinaryApplicator.cpp         | 15 +++++++++++++--
 src/GrammarApplicator_reflow.cpp |  6 +++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 3d1a0fd..ce47d5b 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -286,7 +286,12 @@ void BinaryApplicator::readWindow(void*& payload) {
 		for (uint16_t rn = 0; rn < rel_count; ++rn) {
 			READ_U16_INTO(tag);
 			auto head = READ_U32();
-			cCohort->relations_input[window_tags[tag]->hash].insert(head);
+			if (head == 0) {
+				cCohort->relations[window_tags[tag]->hash].insert(cSWindow->cohorts[0]->global_number);
+			}
+			else {
+				cCohort->relations_input[window_tags[tag]->hash].insert(head);
+			}
 		}
 		if (rel_count) {
 			has_relations = true;
@@ -517,7 +522,13 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 			for (auto siter : miter.second) {
 				++rel_count;
 				WRITE_TAG_INTO(it->second, rel_buffer);
-				WRITE_U32_INTO(siter, rel_buffer);
+				auto target = gWindow->cohort_map.find(siter);
+				if (target != gWindow->cohort_map.end() && target->second == window->cohorts[0]) {
+					WRITE_U32_INTO(0, rel_buffer);
+				}
+				else {
+					WRITE_U32_INTO(siter, rel_buffer);
+				}
 			}
 		}
 		WRITE_U16_INTO(rel_count, cohort_buffer);
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index aa9c194..8de0109 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -521,7 +521,11 @@ uint32_t GrammarApplicator::addTagToReading(Reading& reading, Tag* tag, bool reh
 	}
 	if (grammar->has_relations && (tag->type & T_RELATION)) {
 		if (tag->dep_parent && tag->comparison_hash) {
-			reading.parent->relations_input[tag->comparison_hash].insert(tag->dep_parent);
+			// The tag for a relation that a rule set already holds the actual number, so is not to be looked up among the input's IDs
+			auto rel = reading.parent->relations.find(tag->comparison_hash);
+			if (rel == reading.parent->relations.end() || !rel->second.count(tag->dep_parent)) {
+				reading.parent->relations_input[tag->comparison_hash].insert(tag->dep_parent);
+			}
 		}
 		if (tag->dep_self) {
 			gWindow->relation_map[tag->dep_self] = reading.parent->global_number;
-- 
2.43.0


From 7e0bcf7743846e15c096f8af642b54e0c7f917dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 23/80] fix: COPYCOHORT must not put a cohort before >>>, nor
 copy >>>

---
 src/GrammarApplicator_runRules.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 3722e63..2a1ce98 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2411,7 +2411,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 
-					if (!good || cohort == attach || cohort->local_number == 0) {
+					if (!good || cohort == attach || cohort->local_number == 0 || ((rule->flags & RF_REVERSE) && attach->local_number == 0)) {
 						return;
 					}
 
@@ -2529,8 +2529,15 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					collect_subtree(edges, attach, childset);
 
 					if (rule->flags & RF_BEFORE) {
-						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edges.front()->local_number, cCohort);
-						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edges.front()->local_number, attach->parent->all_cohorts.end(), edges.front()), cCohort);
+						auto spot = attach->parent->cohorts.begin() + edges.front()->local_number;
+						auto ac_spot = std::find(attach->parent->all_cohorts.begin() + edges.front()->local_number, attach->parent->all_cohorts.end(), edges.front());
+						if (edges.front()->local_number == 0) {
+							// Nothing can come before >>>
+							++spot;
+							++ac_spot;
+						}
+						attach->parent->cohorts.insert(spot, cCohort);
+						attach->parent->all_cohorts.insert(ac_spot, cCohort);
 						attachParentChild(*edges.front(), *cCohort);
 					}
 					else {
-- 
2.43.0


From 50e90f15cf8b060815f2624f7b326ce045c39e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 24/80] fix: enclosure tests must only look at the enclosure's
 own window, within its bounds

---
 src/GrammarApplicator_matchSet.cpp          | 4 ++--
 src/GrammarApplicator_runContextualTest.cpp | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 312459f..c635666 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -528,12 +528,12 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		}
 	}
 	else if (tag.type & T_PAR_LEFT) {
-		if (par_left_tag && reading.parent->local_number == par_left_pos && reading.tags.find(par_left_tag) != reading.tags.end()) {
+		if (par_left_tag && reading.parent->parent == gWindow->current && reading.parent->local_number == par_left_pos && reading.tags.find(par_left_tag) != reading.tags.end()) {
 			match = grammar->tag_any;
 		}
 	}
 	else if (tag.type & T_PAR_RIGHT) {
-		if (par_right_tag && reading.parent->local_number == par_right_pos && reading.tags.find(par_right_tag) != reading.tags.end()) {
+		if (par_right_tag && reading.parent->parent == gWindow->current && reading.parent->local_number == par_right_pos && reading.tags.find(par_right_tag) != reading.tags.end()) {
 			match = grammar->tag_any;
 		}
 	}
diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 333fd69..7c00c1c 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -784,6 +784,10 @@ Cohort* GrammarApplicator::runDependencyTest(SingleWindow* sWindow, Cohort* curr
 }
 
 Cohort* GrammarApplicator::runParenthesisTest(SingleWindow* sWindow, const Cohort* current, const ContextualTest* test, Cohort** deep, Cohort* origin) {
+	// The enclosure is one in the current window, which may have lost cohorts since the enclosure was unpacked
+	if (sWindow != gWindow->current || par_right_pos >= sWindow->cohorts.size()) {
+		return 0;
+	}
 	if (current->local_number < par_left_pos || current->local_number > par_right_pos) {
 		return 0;
 	}
-- 
2.43.0


From 9158679e4bb1c07869aa808d9bdd56503cd0b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 25/80] fix: --in-auto must not write past the caller's buffer,
 nor before an empty input

---
 src/streambuf.hpp |  1 -
 src/uextras.cpp   | 13 +++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/streambuf.hpp b/src/streambuf.hpp
index 784c29c..0bfa853 100644
--- a/src/streambuf.hpp
+++ b/src/streambuf.hpp
@@ -106,7 +106,6 @@ public:
 			stream->read(s + i, count - i);
 			i += stream->gcount();
 		}
-		s[i] = 0;
 		setg(&ch, &ch + 1, &ch + 1);
 		return i;
 	}
diff --git a/src/uextras.cpp b/src/uextras.cpp
index 68e33cb..8967190 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -203,8 +203,9 @@ std::string read_utf8(std::istream& input, size_t BUF_SIZE) {
 
 	input.read(&buf8[0], BUF_SIZE - 4);
 	auto sz = static_cast<size_t>(input.gcount());
-	if (buf8[sz - 1] & 0x80) {
-		for (size_t i = sz - 1; ; --i) {
+	if (sz && (buf8[sz - 1] & 0x80)) {
+		// A sequence is at most 4 bytes, so if it didn't start there then it isn't valid UTF-8 and there is nothing to complete
+		for (size_t i = sz - 1; i < sz && i + 4 >= sz; --i) {
 			if ((buf8[i] & 0xF0) == 0xF0) {
 				i = sz - 1 - i;
 				if (!input.read(&buf8[sz], 3 - i)) {
@@ -215,18 +216,18 @@ std::string read_utf8(std::istream& input, size_t BUF_SIZE) {
 			}
 			else if ((buf8[i] & 0xE0) == 0xE0) {
 				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 2 - i)) {
+				if (i < 2 && !input.read(&buf8[sz], 2 - i)) {
 					throw std::runtime_error("Could not read expected bytes from stream");
 				}
-				sz += 2 - i;
+				sz += 2 - std::min<size_t>(i, 2);
 				break;
 			}
 			else if ((buf8[i] & 0xC0) == 0xC0) {
 				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 1 - i)) {
+				if (i < 1 && !input.read(&buf8[sz], 1 - i)) {
 					throw std::runtime_error("Could not read expected bytes from stream");
 				}
-				sz += 1 - i;
+				sz += 1 - std::min<size_t>(i, 1);
 				break;
 			}
 		}
-- 
2.43.0


From 7d506717627984a0c08b7daf74e7b66001c13d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 26/80] fix: unaligned reads of binary streams

---
 src/BinaryApplicator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index ce47d5b..4685c90 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -166,7 +166,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 	uint32_t pos = 0;
 
 	auto READ_U16_INTO = [&](uint16_t& dest) {
-		dest = *reinterpret_cast<uint16_t*>(&buf[pos]);
+		memcpy(&dest, &buf[pos], sizeof(dest));
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
 	};
@@ -178,7 +178,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 	};
 
 	auto READ_U32_INTO = [&](uint32_t& dest) {
-		dest = *reinterpret_cast<uint32_t*>(&buf[pos]);
+		memcpy(&dest, &buf[pos], sizeof(dest));
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
 	};
-- 
2.43.0


From 66cf73028c732e56897ab2f20526c57a4d5e4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 27/80] fix: relations of a window without cohorts must not be
 read out of bounds

---
 src/GrammarApplicator_reflow.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 8de0109..df75878 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -295,7 +295,11 @@ void GrammarApplicator::reflowRelationWindow(uint32_t max) {
 		max = gWindow->next.back()->cohorts[0]->global_number;
 	}
 
-	Cohort* cohort = gWindow->current->cohorts[1];
+	// A window may be nothing but its >>> cohort
+	Cohort* cohort = gWindow->current->cohorts[0];
+	if (gWindow->current->cohorts.size() > 1) {
+		cohort = gWindow->current->cohorts[1];
+	}
 	while (cohort->prev) {
 		cohort = cohort->prev;
 	}
-- 
2.43.0


From eb955a4a561c41012f293c066d0265688aa4df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 28/80] fix: JSONL input must run a window once, when it is
 complete

---
 src/JsonlApplicator.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 5f139bf..2888ebd 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -484,7 +484,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				did_delim = true;
 			}
 
-			if (did_delim || gWindow->next.size() > num_windows) {
+			if (did_delim && gWindow->next.size() > num_windows) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
@@ -510,9 +510,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
 	}
-	if (gWindow->current) {
-		runGrammarOnWindow();
-	}
 
 	gWindow->shuffleWindowsDown();
 	while (!gWindow->previous.empty()) {
-- 
2.43.0


From c8024b96d61e8f7857db5b1293a0f49b63d66f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 29/80] fix: niceline readings must have their wordform as a
 tag, like those of other formats

---
 src/NicelineApplicator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 27eeadc..7415d42 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -94,7 +94,10 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 		}
 		if (!ignoreinput && cleaned[0] && cleaned[0] != '<') {
 			UChar* space = &cleaned[0];
-			SKIPTO_NOSPAN(space, '\t');
+			// Whether the tab is escaped is a matter of what precedes it, which must not be looked for before the start of the line
+			if (space[0] != '\t') {
+				SKIPTO_NOSPAN(space, '\t');
+			}
 
 			if (space[0] && space[0] != '\t') {
 				u_fprintf(ux_stderr, "Warning: %S on line %u looked like a cohort but wasn't - treated as text.\n", &cleaned[0], numLines);
@@ -169,7 +172,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
@@ -196,6 +199,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			while (space && space[0]) {
 				cReading = alloc_reading(cCohort);
 				insert_if_exists(cReading->parent->possible_sets, grammar->sets_any);
+				addTagToReading(*cReading, cCohort->wordform);
 
 				UChar* base = space;
 				if (*space == '"') {
-- 
2.43.0


From b3b3e2b0a395502ca871570ae785ee8bb7bfda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 30/80] fix: FST, plain and Matxin input must not run a window
 that is still being read; FST text line at the end must not be looked at
 again

---
 src/FSTApplicator.cpp       | 3 ++-
 src/MatxinApplicator.cpp    | 2 +-
 src/PlaintextApplicator.cpp | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 475b2f0..46dd1a8 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -289,6 +289,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				if (cleaned[0] && line[0]) {
 					printPlainTextLine(&line[0], output);
 				}
+				line[0] = cleaned[0] = 0;
 				continue;
 			}
 			if (cSWindow && cSWindow->cohorts.size() >= soft_limit && grammar->soft_delimiters && !did_soft_lookback) {
@@ -354,7 +355,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				cSWindow->appendCohort(cCohort);
 				lCohort = cCohort;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/MatxinApplicator.cpp b/src/MatxinApplicator.cpp
index bbd338b..0d9f8a2 100644
--- a/src/MatxinApplicator.cpp
+++ b/src/MatxinApplicator.cpp
@@ -224,7 +224,7 @@ void MatxinApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index 0c9d37f..b4d6199 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -160,7 +160,7 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 				++numWindows;
 				did_soft_lookback = false;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
-- 
2.43.0


From 786821ecdc52a2db87c224aac8549cc17283df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 31/80] fix: FLUSH must forget the window it frees, also when
 that has no cohorts

---
 src/GrammarApplicator_runGrammar.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index d45d05d..7320e73 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -492,10 +492,11 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						for (auto iter : cCohort->readings) {
 							addTagToReading(*iter, endtag);
 						}
-						cReading = lReading = nullptr;
-						cCohort = lCohort = nullptr;
-						cSWindow = lSWindow = nullptr;
 					}
+					// All windows are about to be freed, even those without cohorts
+					cReading = lReading = nullptr;
+					cCohort = lCohort = nullptr;
+					cSWindow = lSWindow = nullptr;
 					while (!gWindow->next.empty()) {
 						gWindow->shuffleWindowsDown();
 						runGrammarOnWindow();
-- 
2.43.0


From 6e4c2ba1e1b122cbdcd0be2043c24cbb0aceae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 32/80] fix: an empty tag in Apertium input must not abort

---
 src/ApertiumApplicator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index a8a7664..c86600f 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -418,6 +418,10 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 						continue;
 					}
 					if (*p == '>') {
+						if (blank.empty()) {
+							u_fprintf(ux_stderr, "Warning: Empty tag on line %u.\n", numLines);
+							continue;
+						}
 						Tag* t = addTag(blank);
 						addTagToReading(*cCohort->wread, t);
 						//u_fprintf(ux_stderr, "Adding tag %S\n", tag.data());
@@ -567,7 +571,10 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 			}
 			auto c = *n;
 			*n = 0;
-			if (bf.size() == 1) {
+			if (*p == 0) {
+				u_fprintf(ux_stderr, "Warning: Empty tag on line %u.\n", numLines);
+			}
+			else if (bf.size() == 1) {
 				prefix_tags.push_back(addTag(p));
 			}
 			else {
-- 
2.43.0


From 6d3a75d7e4ed3abc658e3b0506ca6e6a1bf4be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 33/80] fix: a long run of blanks must not cut an input line in
 two

---
 src/uextras.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 8967190..c4cbb4d 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -92,7 +92,7 @@ size_t get_line_clean(UString& line, UString& cleaned, std::istream& input, bool
 			cleaned[packoff++] = line[offset];
 		}
 		// Either buffer wasn't big enough, or someone fed us malformed data thinking U+0085 is ellipsis when it in fact is Next Line (NEL)
-		if (packoff > line.size() / 2) {
+		if (offset > line.size() / 2) {
 			// If we reached this, buffer wasn't big enough. Double the size of the buffer and try again.
 			line.resize(line.size() * 2, 0);
 			cleaned.resize(line.size() + 1, 0);
-- 
2.43.0


From 09d7a78f548229e7869c972fdc49b43f84635e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 34/80] verif hook: CG3_VERIF_POISON_POOLS lets
 AddressSanitizer see use of pooled objects

---
 src/pool.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/pool.hpp b/src/pool.hpp
index 0f9ce6f..c396db6 100644
--- a/src/pool.hpp
+++ b/src/pool.hpp
@@ -21,6 +21,10 @@
 #define c6d28b7452ec699b_POOL_HPP
 #include "sorted_vector.hpp"
 #include <stdexcept>
+#ifdef CG3_VERIF_POISON_POOLS
+	// For AddressSanitizer: what is in the pool must not be used, and is kept from being reused for a while
+	#include <sanitizer/asan_interface.h>
+#endif
 
 namespace CG3 {
 
@@ -31,16 +35,27 @@ struct pool {
 
 	~pool() {
 		for (auto it : p) {
+			#ifdef CG3_VERIF_POISON_POOLS
+			ASAN_UNPOISON_MEMORY_REGION(it, sizeof(T));
+			#endif
 			delete it;
 		}
 	}
 
 	auto get() {
 		typename pool_t::value_type var = nullptr;
+		#ifdef CG3_VERIF_POISON_POOLS
+		if (p.size() > 500) {
+			var = p.back();
+			p.pop_back();
+			ASAN_UNPOISON_MEMORY_REGION(var, sizeof(T));
+		}
+		#else
 		if (!p.empty()) {
 			var = p.back();
 			p.pop_back();
 		}
+		#endif
 
 		#ifdef CG_TRACE_OBJECTS
 		std::cerr << "OBJECT: " << VOIDP(var) << " " << __PRETTY_FUNCTION__ << std::endl;
@@ -54,7 +69,16 @@ struct pool {
 		std::cerr << "OBJECT: " << VOIDP(t) << " " << __PRETTY_FUNCTION__ << std::endl;
 		#endif
 
+		#ifdef CG3_VERIF_POISON_POOLS
+		if (p.find(t) != p.end()) {
+			// As below: inserting twice is tolerated
+			return;
+		}
+		#endif
 		t->clear();
+		#ifdef CG3_VERIF_POISON_POOLS
+		ASAN_POISON_MEMORY_REGION(t, sizeof(T));
+		#endif
 		auto ins = p.insert(t);
 		if (ins.second == false) {
 			// Enable to debug memory access errors
-- 
2.43.0


From bb584c06923118cc01cdbd1fd959cba5cc2f8261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 35/80] fix: numeric tags with expressions must work in binary
 grammars, and not read past buffers

---
 src/BinaryGrammar_read.cpp |  9 +++++++++
 src/MathParser.hpp         | 11 ++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index 9d37e63..bb63e22 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -176,6 +176,15 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 				t->tag = &gbuffers[0][0];
 			}
 		}
+		if (t->type & T_NUMERIC_MATH) {
+			// The expression starts after the operator
+			constexpr UStringView ops(u"<>=:!");
+			auto op = t->tag.find_first_of(ops, 1);
+			if (op != UString::npos) {
+				op = t->tag.find_first_not_of(ops, op);
+			}
+			t->comparison_offset = (op != UString::npos) ? UI32(op) : 0;
+		}
 
 		if (fields & (1 << 9)) {
 			u32tmp = readBE<uint32_t>(input);
diff --git a/src/MathParser.hpp b/src/MathParser.hpp
index 4733aa8..0d22095 100644
--- a/src/MathParser.hpp
+++ b/src/MathParser.hpp
@@ -25,6 +25,7 @@
 #include <cctype>
 #include <cstring>
 #include <cmath>
+#include <cerrno>
 
 #include "stdafx.hpp"
 
@@ -74,7 +75,7 @@ inline void MathParser::eval_assign(double& result) {
 	if (tok_type == VARIABLE) {
 		UStringView t_ptr = exp_ptr;
 		temp_token = token;
-		auto slot = token[0] - 'A';
+		auto slot = (token[0] | 0x20) - 'a';
 		get_token();
 		if (token[0] != '=') {
 			exp_ptr = t_ptr;
@@ -237,14 +238,18 @@ inline void MathParser::eval_func(double& result) {
 				result = max;
 			}
 			else {
-				result = vars[token[0] - 'A'];
+				result = vars[(token[0] | 0x20) - 'a'];
 			}
 			get_token();
 			return;
 		case NUMBER: {
-			char num[128];
+			char num[256];
+			if (token.size() >= sizeof(num)) {
+				throw std::runtime_error("Number too long");
+			}
 			std::copy(token.begin(), token.end(), num);
 			num[token.size()] = 0;
+			errno = 0;
 			result = strtod(num, nullptr);
 			if (errno == ERANGE) {
 				throw std::runtime_error("Result did not fit in a double");
-- 
2.43.0


From dfbdcab68c21600d60aa5271adfbf1a4fef767ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 36/80] fix: ignored readings of a removed cohort must be
 traced as removed

---
 src/GrammarApplicator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index cc11905..ffe34f3 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -535,6 +535,11 @@ void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool p
 
 	if (!profiling) {
 		cohort->unignoreAll();
+		if (cohort->type & CT_REMOVED) {
+			for (auto r : cohort->readings) {
+				r->deleted = true;
+			}
+		}
 
 		if (!split_mappings) {
 			mergeMappings(*cohort);
-- 
2.43.0


From 6b22c39a05ef64c84d9af19f13d8521b2647b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 37/80] fix: sub-reading tags could make distinct readings hash
 alike (wrong set match, lost reading on output)

---
 src/ApertiumApplicator.cpp         |  2 +-
 src/GrammarApplicator_matchSet.cpp | 11 +++++++----
 src/GrammarApplicator_reflow.cpp   |  8 ++++----
 src/MatxinApplicator.cpp           |  2 +-
 src/inlines.hpp                    |  5 +++++
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index c86600f..690a91e 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -1001,7 +1001,7 @@ void ApertiumApplicator::mergeMappings(Cohort& cohort) {
 		}
 		Reading* sub = r->next;
 		while (sub) {
-			hp = hash_value(sub->hash, hp);
+			hp = hash_combine(hp, sub->hash);
 			if (trace) {
 				for (auto iter_hb : sub->hit_by) {
 					hp = hash_value(iter_hb, hp);
diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index c635666..f80b8d7 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -717,15 +717,18 @@ bool GrammarApplicator::doesSetMatchReading_tags(const Reading& reading, const S
  * @param[in] unif_mode Used to signal that a parent set was a $$unified set
  */
 bool GrammarApplicator::doesSetMatchReading(const Reading& reading, const uint32_t set, bool bypass_index, bool unif_mode) {
+	// Only the reading's own tags matter here, so leave sub-readings out of the key.
+	const uint32_t rhash = reading.mapping ? hash_value(reading.mapping->hash, reading.hash_plain) : reading.hash_plain;
+
 	// Check whether we have previously seen that this set matches or doesn't match this reading.
 	// These indexes are cleared every ((num_windows+4)*2+1) windows to avoid memory ballooning.
 	// Only 30% of tests get past this.
 	// ToDo: This is not good enough...while numeric tags are special, their failures can be indexed.
 	if (!bypass_index && !unif_mode) {
-		if (index_readingSet_no[set].contains(reading.hash)) {
+		if (index_readingSet_no[set].contains(rhash)) {
 			return false;
 		}
-		if (index_readingSet_yes[set].contains(reading.hash)) {
+		if (index_readingSet_yes[set].contains(rhash)) {
 			return true;
 		}
 	}
@@ -836,11 +839,11 @@ bool GrammarApplicator::doesSetMatchReading(const Reading& reading, const uint32
 
 	// Store the result in the indexes in hopes that later runs can pull it directly from them.
 	if (retval) {
-		index_readingSet_yes[set].insert(reading.hash);
+		index_readingSet_yes[set].insert(rhash);
 	}
 	else {
 		if (!(theset.type & ST_TAG_UNIFY) && !unif_mode) {
-			index_readingSet_no[set].insert(reading.hash);
+			index_readingSet_no[set].insert(rhash);
 		}
 	}
 
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index df75878..93fe37d 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -718,12 +718,12 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 		Reading* sub = r->next;
 		while (sub) {
 			if (ordered) {
-				hp = hash_value(sub->tags_string_hash, hp);
-				hplain = hash_value(sub->tags_string_hash, hplain);
+				hp = hash_combine(hp, sub->tags_string_hash);
+				hplain = hash_combine(hplain, sub->tags_string_hash);
 			}
 			else {
-				hp = hash_value(sub->hash_plain, hp);
-				hplain = hash_value(sub->hash_plain, hplain);
+				hp = hash_combine(hp, sub->hash_plain);
+				hplain = hash_combine(hplain, sub->hash_plain);
 			}
 			if (trace) {
 				for (auto iter_hb : sub->hit_by) {
diff --git a/src/MatxinApplicator.cpp b/src/MatxinApplicator.cpp
index 0d9f8a2..78bd797 100644
--- a/src/MatxinApplicator.cpp
+++ b/src/MatxinApplicator.cpp
@@ -847,7 +847,7 @@ void MatxinApplicator::mergeMappings(Cohort& cohort) {
 		}
 		Reading* sub = r->next;
 		while (sub) {
-			hp = hash_value(sub->hash, hp);
+			hp = hash_combine(hp, sub->hash);
 			if (trace) {
 				for (auto iter_hb : sub->hit_by) {
 					hp = hash_value(iter_hb, hp);
diff --git a/src/inlines.hpp b/src/inlines.hpp
index a693e90..e65326d 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -251,6 +251,11 @@ inline uint32_t hash_value(uint64_t c) {
 	//*/
 }
 
+// For combining the hashes of consecutive sub-readings. hash_value(h2, h1) is linear, so a tag could move from one reading to the next without changing the result.
+inline uint32_t hash_combine(uint32_t h1, uint32_t h2) {
+	return hash_value((UI64(h1) << 32) | UI64(h2));
+}
+
 struct hash_ustring {
 	size_t operator()(const UString& str) const {
 		return hash_value(str);
-- 
2.43.0


From 005144bea57c0001ba5b0630a1e6a069a360b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 38/80] fix: merging readings must not depend on tracing or
 lose mapping tags of sub-readings

---
 src/GrammarApplicator_reflow.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 93fe37d..e174359 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -694,9 +694,10 @@ void GrammarApplicator::splitAllMappings(all_mappings_t& all_mappings, Cohort& c
 }
 
 void GrammarApplicator::mergeReadings(ReadingList& readings) {
-	static thread_local bc::flat_map<uint32_t, std::pair<uint32_t, Reading*>> mapped;
+	static thread_local uint32FlatHashSet mapped;
 	mapped.clear();
-	mapped.reserve(readings.size());
+	static thread_local std::vector<std::pair<uint32_t, Reading*>> unmapped;
+	unmapped.clear();
 	static thread_local bc::flat_map<uint32_t, ReadingList> mlist;
 	mlist.clear();
 	mlist.reserve(readings.size());
@@ -723,6 +724,10 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 			}
 			else {
 				hp = hash_combine(hp, sub->hash_plain);
+				if (sub->mapping) {
+					// Only the mapping tags of the main reading are merged
+					hp = hash_combine(hp, sub->mapping->hash);
+				}
 				hplain = hash_combine(hplain, sub->hash_plain);
 			}
 			if (trace) {
@@ -735,16 +740,18 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 			}
 			sub = sub->next;
 		}
-		if (mapped.count(hplain)) {
-			if (mapped[hplain].first != 0 && nm == 0) {
-				r->deleted = true;
-			}
-			else if (mapped[hplain].first != nm && mapped[hplain].first == 0) {
-				mapped[hplain].second->deleted = true;
-			}
+		if (nm) {
+			mapped.insert(hplain);
+		}
+		else {
+			unmapped.push_back(std::make_pair(hplain, r));
+		}
+		mlist[hash_combine(hp, nm)].push_back(r);
+	}
+	for (auto& it : unmapped) {
+		if (mapped.count(it.first)) {
+			it.second->deleted = true;
 		}
-		mapped[hplain] = std::make_pair(nm, r);
-		mlist[hp + nm].push_back(r);
 	}
 
 	if (mlist.size() == readings.size()) {
-- 
2.43.0


From 7517ffe491eb4149e7de58b728aa6576f2aa03ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 39/80] fix: --grammar-out must not list a static set that was
 merged into an equal one

---
 src/GrammarWriter.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index db629af..c145d1c 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -128,12 +128,17 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 		u_fprintf(output, "CMDARGS-OVERRIDE += %s ;\n", grammar->cmdargs_override.c_str());
 	}
 
-	if (!grammar->static_sets.empty()) {
-		u_fprintf(output, "STATIC-SETS =");
-		for (auto& str : grammar->static_sets) {
-			u_fprintf(output, " %S", str.data());
+	// A static set equal to another static set was merged into that, and may be written as an alias, which can't be static
+	UString static_names;
+	for (auto& str : grammar->static_sets) {
+		auto named = [&](const Set* s) { return s->name == str; };
+		if (std::any_of(grammar->sets_list.begin(), grammar->sets_list.end(), named)) {
+			static_names += u' ';
+			static_names += str;
 		}
-		u_fprintf(output, " ;\n");
+	}
+	if (!static_names.empty()) {
+		u_fprintf(output, "STATIC-SETS =%S ;\n", static_names.data());
 	}
 
 	if (!grammar->preferred_targets.empty()) {
-- 
2.43.0


From ed690078f137a1eac206476ba494a1f28a217c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 40/80] fix: cohorts of an earlier window come before those of
 a later one, whatever their position in it

---
 src/SingleWindow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SingleWindow.hpp b/src/SingleWindow.hpp
index 09b7224..eb65383 100644
--- a/src/SingleWindow.hpp
+++ b/src/SingleWindow.hpp
@@ -62,7 +62,7 @@ SingleWindow* alloc_swindow(Window* p);
 void free_swindow(SingleWindow*& s);
 
 inline bool less_Cohort(const Cohort* a, const Cohort* b) {
-	if (a->local_number == b->local_number) {
+	if (a->parent != b->parent) {
 		return a->parent->number < b->parent->number;
 	}
 	return a->local_number < b->local_number;
-- 
2.43.0


From 993a138abde544351e21f444a2cca77f1a33db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 41/80] fix: after adding, splitting or copying next to a
 cohort the rule doesn't target, the cohort after that must not be skipped

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2a1ce98..2660f01 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -545,7 +545,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			} else {
 				rocit = cohortset->find_n(*lb);
 			}
-			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size()) {
+			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size() && cohortset->at(rocit) == gac) {
 				++rocit;
 			}
 		};
-- 
2.43.0


From ff268f3877d591dea5cca70fffcffbbe1ef80ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 42/80] fix: an unsafe IFF must look at a cohort the same way,
 whether or not the previous cohort was selected from

---
 src/GrammarApplicator_runRules.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2660f01..6fc136d 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -381,6 +381,10 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		++rocit;
 
 		finish_reading_loop = true;
+		// Assume that Iff rules are really Remove rules, until proven otherwise.
+		if (rule.type == K_IFF) {
+			type = K_REMOVE;
+		}
 
 		if (debug_level > 1) {
 			std::cerr << "DEBUG: Trying cohort " << cohort->global_number << ":" << cohort->local_number << std::endl;
@@ -493,11 +497,6 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		std::vector<Rule_Context> reading_contexts;
 		reading_contexts.reserve(cohort->readings.size());
 
-		// Assume that Iff rules are really Remove rules, until proven otherwise.
-		if (rule.type == K_IFF) {
-			type = K_REMOVE;
-		}
-
 		bool did_test = false;
 		bool test_good = false;
 		bool matched_target = false;
-- 
2.43.0


From ceb64ebeea5256f3030358c90707c034b244e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 43/80] fix: a JUMP to an anchor that no rule to be run comes
 after must not read past the list of rules

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 6fc136d..6f1b546 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -3007,6 +3007,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			goto bailout;
 		}
 		if (should_repeat) {
+			if (iter_rules == intersects.end()) {
+				// JUMP to an anchor that no rule to be run comes after
+				break;
+			}
 			goto repeat_rule;
 		}
 
-- 
2.43.0


From 0b8626cc1a5f9d7c953ee0966e5aa139ee51b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 44/80] fix: (a b) OR (a) must not become just (a b)

The tag (a) was added to the trie while leaving what was below it in place,
which gave the new set the same hash as (a b) and so made it be taken for it.
---
 src/Grammar.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 1dc50f4..e7f3f7c 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -591,11 +591,10 @@ void Grammar::addTagToSet(Tag* rtag, Set* set) {
 	}
 	if (rtag->type & T_SPECIAL) {
 		set->type |= ST_SPECIAL;
-		set->trie_special[rtag].terminal = true;
-	}
-	else {
-		set->trie[rtag].terminal = true;
 	}
+	auto& node = (rtag->type & T_SPECIAL) ? set->trie_special[rtag] : set->trie[rtag];
+	node.terminal = true;
+	node.trie.reset();
 }
 
 void Grammar::destroyTag(Tag* tag) {
-- 
2.43.0


From f3723ac04a15aa13e70d3be1301397c61645f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:58 +0000
Subject: [PATCH 45/80] fix: a last line without a newline must not get a
 character of an earlier line added

---
 src/uextras.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index c4cbb4d..082a43a 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -113,6 +113,8 @@ UChar* u_fgets(UChar* s, int32_t n, std::istream& input) {
 	for (; i < n; ++i) {
 		UChar c = u_fgetc(input);
 		if (c == U_EOF) {
+			// Whatever is there is from a previous longer line
+			s[i] = 0;
 			break;
 		}
 		s[i] = c;
-- 
2.43.0


From c9149c8f7a40c7988914ab7af991076b2f8110c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 46/80] fix: variables set before a FLUSH, but after the last
 window, must not leak to what comes after it

---
 src/GrammarApplicator_runGrammar.cpp | 64 ++++++++++++++++++----------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 7320e73..76c2a81 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -154,6 +154,28 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 		variables_output.clear();
 	};
 
+	// Variables set after the last window
+	auto print_variables = [&]() {
+		for (auto var : variables_output) {
+			Tag* key = grammar->single_tags[var];
+			auto iter = variables_set.find(var);
+			UString cmd_buf;
+			if (iter != variables_set.end()) {
+				if (iter->second != grammar->tag_any) {
+					Tag* value = grammar->single_tags[iter->second];
+					cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u"=").append(value->tag).append(u">");
+				}
+				else {
+					cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u">");
+				}
+			}
+			else {
+				cmd_buf.append(STR_CMD_REMVAR).append(key->tag).append(u">");
+			}
+			printStreamCommand(cmd_buf, output);
+		}
+	};
+
 	auto binary_maybe_window = [&]() {
 		if (fmt_output == CG3SF_BINARY) {
 			cSWindow = gWindow->allocAppendSingleWindow();
@@ -478,11 +500,6 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					}
 					is_cmd = true;
 
-					auto backSWindow = gWindow->back();
-					if (backSWindow) {
-						backSWindow->flush_after = true;
-					}
-
 					if (cCohort && cSWindow) {
 						splitAllMappings(all_mappings, *cCohort, true);
 						cSWindow->appendCohort(cCohort);
@@ -493,6 +510,20 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 							addTagToReading(*iter, endtag);
 						}
 					}
+
+					// Variables set after the last window belong before the flush, not to whatever comes after it
+					if (fmt_output == CG3SF_BINARY && !variables_output.empty()) {
+						binary_maybe_window();
+						adopt_variables();
+					}
+					auto backSWindow = gWindow->back();
+					if (!variables_output.empty()) {
+						backSWindow = nullptr;
+					}
+					if (backSWindow) {
+						backSWindow->flush_after = true;
+					}
+
 					// All windows are about to be freed, even those without cohorts
 					cReading = lReading = nullptr;
 					cCohort = lCohort = nullptr;
@@ -517,8 +548,12 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					}
 
 					if (!backSWindow) {
+						print_variables();
 						printStreamCommand(STR_CMD_FLUSH, output);
 					}
+					variables_set.clear();
+					variables_rem.clear();
+					variables_output.clear();
 					line[0] = 0;
 					variables.clear();
 					u_fflush(output);
@@ -734,24 +769,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 
 	u_fflush(output);
 
-	for (auto var : variables_output) {
-		Tag* key = grammar->single_tags[var];
-		auto iter = variables_set.find(var);
-		UString cmd_buf;
-		if (iter != variables_set.end()) {
-			if (iter->second != grammar->tag_any) {
-				Tag* value = grammar->single_tags[iter->second];
-				cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u"=").append(value->tag).append(u">");
-			}
-			else {
-				cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u">");
-			}
-		}
-		else {
-			cmd_buf.append(STR_CMD_REMVAR).append(key->tag).append(u">");
-		}
-		printStreamCommand(cmd_buf, output);
-	}
+	print_variables();
 
 CGCMD_EXIT:
 	if (verbosity_level > 0) {
-- 
2.43.0


From 33cb3d7a045374c6dd73c5edc1e544b354d2a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 47/80] fix: at the end of the input, no trace of the line
 before may be looked at

After an IGNORE, the buffer for the cleaned line still held the last line but was said to be empty.
---
 src/uextras.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 082a43a..9839009 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -62,6 +62,8 @@ size_t findAndReplace(UnicodeString& str, UStringView from, UStringView to) {
 
 size_t get_line_clean(UString& line, UString& cleaned, std::istream& input, bool keep_tabs) {
 	size_t offset = 0, packoff = 0;
+	// Nothing of the previous line may remain if there is nothing more to read
+	cleaned[0] = 0;
 	// Read as much of the next line as will fit in the current buffer
 	while (u_fgets(&line[offset], SI32(line.size() - offset - 1), input)) {
 		// Copy the segment just read to cleaned
-- 
2.43.0


From d3b11c71c009838dd7bdd00fba6ad19830d38c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 48/80] fix: a (SET:name) tag must not use a cached result when
 the named set holds special tags

---
 src/GrammarApplicator_matchSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index f80b8d7..fefdb3f 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -382,7 +382,9 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		uint32_t sh = hash_value(tag.tag);
 		auto it = grammar->sets_by_name.find(sh);
 		if (it != grammar->sets_by_name.end()) {
-			match = doesSetMatchReading(reading, it->second, bypass_index, unif_mode);
+			// The named set may itself hold tags whose match depends on more than the reading
+			const Set& nset = *grammar->sets_list[it->second];
+			match = doesSetMatchReading(reading, it->second, bypass_index || (nset.type & (ST_CHILD_UNIFY | ST_SPECIAL)) != 0, unif_mode);
 		}
 	}
 	else if (tag.type & T_VARSTRING) {
-- 
2.43.0


From ae703bde24d13b3eb8259f59d06ecbc15c55722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 49/80] fix: a test that looked at head readings only must not
 rule out the sub-readings for later tests, nor a barrier the static tags

---
 src/GrammarApplicator_matchSet.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index fefdb3f..86bc5ea 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1018,8 +1018,12 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 
 	if (context && !context->matched_target && !(context->options & (POS_ACTIVE | POS_INACTIVE))) {
 		if (!grammar->sets_any || set >= grammar->sets_any->size() || !grammar->sets_any->test(set)) {
-			bool was_sub = (context->test && (context->test->offset_sub != 0));
-			if (!was_sub && set < cohort.possible_sets.size()) {
+			// Only if everything the set could match was looked at: static tags aren't for barriers, and sub-readings only if asked for
+			bool partial = (context->test && (context->test->offset_sub != 0)) || (cohort.wread && context->in_barrier);
+			for (auto reading : cohort.readings) {
+				partial = partial || reading->next;
+			}
+			if (!partial && set < cohort.possible_sets.size()) {
 				cohort.possible_sets.reset(set);
 			}
 		}
-- 
2.43.0


From e1055d87218458ecd8c273506233ba94b92cc33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:31 +0000
Subject: [PATCH 50/80] fix: REMCOHORT attached to >>> must not remove it, as
 the window's next cohort then got lost

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 6f1b546..7378de8 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1541,6 +1541,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				reset_cohorts_for_loop = true;
 			}
 			else if (rule->type == K_REMCOHORT) {
+				// >>> can be attached to, but must stay
+				if (get_apply_to().cohort->local_number == 0) {
+					return;
+				}
 				// REMCOHORT-IGNORED
 				if (rule->flags & RF_IGNORED) {
 					CohortSet cohorts;
-- 
2.43.0


From da19406bf966d570be1f9d7731120911bd50f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 51/80] fix: interval_vector::insert must count values added
 first or in front, else rule lists changed unnoticed and --rules with several
 numbers misread

---
 src/interval_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index 3089415..ff0a00a 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -174,6 +174,7 @@ public:
 	bool insert(T t) {
 		if (elements.empty()) {
 			elements.emplace_back(interval(t));
+			++_size;
 			return true;
 		}
 		auto it = std::lower_bound(elements.begin(), elements.end(), t);
@@ -190,6 +191,7 @@ public:
 			else {
 				elements.insert(it, interval(t));
 			}
+			++_size;
 			return true;
 		}
 		auto pr = it - 1;
-- 
2.43.0


From 1e3355bc8ca18d882211ff5e946dbf4ac01ceab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 52/80] fix: --rule NAME and cg-proc -r ran all rules, as the
 name was compared with its padding and numbers were taken for lines

---
 src/GrammarApplicator.cpp | 5 +++--
 src/cg-proc.cpp           | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index ffe34f3..97881cf 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -993,11 +993,12 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 			auto sn = options[RULE].value.size();
 			UString buf(sn * 3, 0);
 			ucnv_reset(conv);
-			ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status);
+			buf.resize(ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status));
 
+			// These are lines until index() turns them into numbers
 			for (auto rule : grammar->rule_by_number) {
 				if (rule->name == buf) {
-					valid_rules.push_back(rule->number);
+					valid_rules.push_back(rule->line);
 				}
 			}
 		}
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index 1f7e992..3821297 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -338,11 +338,12 @@ int main(int argc, char* argv[]) {
 	// This is if we want to run a single rule  (-r option)
 	if (!single_rule.empty()) {
 		auto sn = SI32(single_rule.size());
-		UString buf(sn * 3, 0);
+		UString buf(sn, 0);
 		u_charsToUChars(single_rule.data(), &buf[0], sn);
+		// These are lines until index() turns them into numbers
 		for (auto rule : applicator->grammar->rule_by_number) {
 			if (rule->name == buf) {
-				applicator->valid_rules.push_back(rule->number);
+				applicator->valid_rules.push_back(rule->line);
 			}
 		}
 	}
-- 
2.43.0


From 39dc1fc8b071b8087a4538404606675ebdaad496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 53/80] fix: SWITCHPARENT below the root must find siblings in
 later windows too, where >>> isn't number 0

---
 src/GrammarApplicator_runRules.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 7378de8..e3ee0a0 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2782,7 +2782,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-					if (iter->dep_parent == parent->global_number && doesSetMatchCohortNormal(*iter, rule->childset1)) {
+					// Cohorts below the root may have 0 instead of the number of this window's >>>
+					bool same = (iter->dep_parent == parent->global_number || (parent == current.cohorts[0] && iter->dep_parent == 0));
+					if (same && doesSetMatchCohortNormal(*iter, rule->childset1)) {
 						siblings.insert(iter);
 					}
 				}
-- 
2.43.0


From 2a695e7ae6acd52a188b0a15c08f67961fd42305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:13 +0000
Subject: [PATCH 54/80] fix: attaching a window's >>> must be seen as a loop in
 later windows too, where it isn't number 0

---
 src/GrammarApplicator_reflow.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index e174359..32566de 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -87,6 +87,8 @@ bool GrammarApplicator::isChildOf(const Cohort* child, const Cohort* parent) {
 
 bool GrammarApplicator::wouldParentChildLoop(const Cohort* parent, const Cohort* child) {
 	bool retval = false;
+	// Cohorts below the root may have 0 instead of the number of their window's >>>
+	const bool is_root = (child->parent && child->parent == parent->parent && !child->parent->cohorts.empty() && child->parent->cohorts[0] == child);
 
 	if (parent->global_number == child->global_number) {
 		retval = true;
@@ -97,7 +99,7 @@ bool GrammarApplicator::wouldParentChildLoop(const Cohort* parent, const Cohort*
 	else if (parent->global_number == parent->dep_parent) {
 		retval = false;
 	}
-	else if (parent->dep_parent == child->global_number) {
+	else if (parent->dep_parent == child->global_number || (is_root && parent->dep_parent == 0)) {
 		retval = true;
 	}
 	else {
@@ -114,7 +116,7 @@ bool GrammarApplicator::wouldParentChildLoop(const Cohort* parent, const Cohort*
 			else {
 				break;
 			}
-			if (inner->dep_parent == child->global_number) {
+			if (inner->dep_parent == child->global_number || (is_root && inner->dep_parent == 0)) {
 				retval = true;
 				break;
 			}
-- 
2.43.0


From 6a7400b3486813fd46d826e0e744758b58e3c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:09 +0000
Subject: [PATCH 55/80] fix: a cohort that a rule comes to apply to must not
 make the rule repeat or skip other cohorts

---
 src/GrammarApplicator_runRules.cpp | 37 +++++++-----------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index e3ee0a0..a9c237b 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -70,37 +70,16 @@ bool GrammarApplicator::updateRuleToCohorts(Cohort& c, const uint32_t& rsit) {
 		indexSingleWindow(*current);
 	}
 	CohortSet& cohortset = current->rule_to_cohorts[rsit];
-	std::vector<size_t> csi;
-	for (size_t i = 0; i < cohortsets.size(); ++i) {
-		if (cohortsets[i] != &cohortset) {
-			continue;
-		}
-		csi.push_back(i);
-	}
-	if (!csi.empty()) {
-		auto cap = cohortset.capacity();
-		std::vector<size_t*> ends;
-		std::vector<std::pair<size_t*,Cohort*>> chs;
-		for (size_t i = 0; i < csi.size(); ++i) {
-			if (*rocits[csi[i]] >= cohortset.size()) {
-				ends.push_back(rocits[csi[i]]);
-			}
-			else {
-				chs.push_back(std::pair(rocits[csi[i]], cohortset.at(*rocits[csi[i]])));
+	const auto osize = cohortset.size();
+	cohortset.insert(&c);
+	if (cohortset.size() != osize) {
+		// Those iterating over this set must neither repeat nor skip the cohorts after the new one
+		const size_t n = cohortset.find_n(&c);
+		for (size_t i = 0; i < cohortsets.size(); ++i) {
+			if (cohortsets[i] == &cohortset && rocits[i] && n < *rocits[i]) {
+				++*rocits[i];
 			}
 		}
-		cohortset.insert(&c);
-		for (auto it : ends) {
-			*it = cohortset.size();
-		}
-		if (cap != cohortset.capacity()) {
-			for (auto& it : chs) {
-				*it.first = cohortset.find_n(it.second);
-			}
-		}
-	}
-	else {
-		cohortset.insert(&c);
 	}
 	return current->valid_rules.insert(rsit);
 }
-- 
2.43.0


From 96af758c94f541bc7fcf7f52aa0026621f8c15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:27 +0000
Subject: [PATCH 56/80] fix: overriding a template's position must not change
 the other uses of an equal test

---
 src/GrammarApplicator_runContextualTest.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 7c00c1c..881b664 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -234,11 +234,11 @@ Cohort* GrammarApplicator::runContextualTest_tmpl(SingleWindow* sWindow, size_t
 		tmpl_cntx.linked.push_back(test->linked);
 	}
 
-	uint64_t orgpos = tmpl->pos;
-	int32_t orgoffset = tmpl->offset;
-	uint32_t orgcbar = tmpl->cbarrier;
-	uint32_t orgbar = tmpl->barrier;
+	// The template itself may be in use elsewhere in this very test, so override positions in a copy
+	ContextualTest overridden;
 	if (test->pos & POS_TMPL_OVERRIDE) {
+		overridden = *tmpl;
+		tmpl = &overridden;
 		tmpl->pos = test->pos;
 		tmpl->pos &= ~(POS_NEGATE | POS_NOT | POS_JUMP);
 		tmpl->offset = test->offset;
@@ -254,10 +254,6 @@ Cohort* GrammarApplicator::runContextualTest_tmpl(SingleWindow* sWindow, size_t
 	}
 	Cohort* cohort = runContextualTest(sWindow, position, tmpl, &cdeep, origin);
 	if (test->pos & POS_TMPL_OVERRIDE) {
-		tmpl->pos = orgpos;
-		tmpl->offset = orgoffset;
-		tmpl->cbarrier = orgcbar;
-		tmpl->barrier = orgbar;
 		if (cohort && cdeep && test->offset != 0 && !posOutputHelper(sWindow, position, test, cohort, cdeep)) {
 			cohort = nullptr;
 		}
-- 
2.43.0


From 3880fbd9e86db25e17a669bea33b0e2a88c70064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:30 +0000
Subject: [PATCH 57/80] fix: bag of tags tests of numeric bounds, variables,
 and wordform wildcards must not crash

---
 src/SingleWindow.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SingleWindow.cpp b/src/SingleWindow.cpp
index 1df3839..0af896b 100644
--- a/src/SingleWindow.cpp
+++ b/src/SingleWindow.cpp
@@ -138,6 +138,10 @@ void SingleWindow::clear() {
 void SingleWindow::appendCohort(Cohort* cohort) {
 	cohort->local_number = UI32(cohorts.size());
 	cohort->parent = this;
+	if (cohorts.empty()) {
+		// Tests of some tags look at the cohort of the reading
+		bag_of_tags.parent = cohort;
+	}
 
 	if (cohort->dep_self) {
 		parent->parent->dep_highest_seen = cohort->dep_self;
-- 
2.43.0


From 7fcba6349fea21810b5dc6aa6e551a10ec58c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:30 +0000
Subject: [PATCH 58/80] fix: the bag of tags must have a baseform, for bag of
 tags tests of any baseform

---
 src/GrammarApplicator_reflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 32566de..1abd122 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -560,7 +560,7 @@ uint32_t GrammarApplicator::addTagToReading(Reading& reading, Tag* tag, bool reh
 		if (tag->type & T_NUMERICAL) {
 			bot.tags_numerical[tag->hash] = tag;
 		}
-		if (!reading.baseform && (tag->type & T_BASEFORM)) {
+		if (!bot.baseform && (tag->type & T_BASEFORM)) {
 			bot.baseform = tag->hash;
 		}
 		if (!(tag->type & T_SPECIAL)) {
-- 
2.43.0


From 843e8f0e0c6f3093f1f143a75264827933837eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:30 +0000
Subject: [PATCH 59/80] fix: cg-conv from FST to binary must not lose the
 cohorts

---
 src/cg-conv.cpp | 3 ++-
 src/libcg3.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cg-conv.cpp b/src/cg-conv.cpp
index 7c9f593..828420e 100644
--- a/src/cg-conv.cpp
+++ b/src/cg-conv.cpp
@@ -241,7 +241,8 @@ int main(int argc, char* argv[]) {
 		}
 		applicator.parse_dep = true;
 	}
-	applicator.is_conv = true;
+	// The binary format can't express cohorts outside of windows
+	applicator.is_conv = (applicator.fmt_output != CG3SF_BINARY);
 	applicator.trace = true;
 	applicator.verbosity_level = 0;
 	applicator.runGrammarOnText(*instream, std::cout);
diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 9efabb6..884773d 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -200,7 +200,8 @@ cg3_sformat cg3_detect_sformat_buffer(const char* buffer, size_t length) {
 
 cg3_sconverter* cg3_sconverter_create(cg3_sformat fmt_in, cg3_sformat fmt_out) {
 	FormatConverter* applicator = new FormatConverter(*ux_stderr);
-	applicator->is_conv = true;
+	// The binary format can't express cohorts outside of windows
+	applicator->is_conv = (fmt_out != CG3SF_BINARY);
 	applicator->trace = true;
 	applicator->verbosity_level = 0;
 	applicator->fmt_input = fmt_in;
-- 
2.43.0


From 2d311ce7dd300c691625efecc9315ed0dddf6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 60/80] fix: numeric tags that REPLACE or SUBSTITUTE take away
 must not stay the cohort's MIN or MAX

---
 src/GrammarApplicator_reflow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 1abd122..0771342 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -346,6 +346,7 @@ void GrammarApplicator::reflowReading(Reading& reading) {
 	reading.tags_plain_bloom.clear();
 	reading.mapping = nullptr;
 	reading.tags_string.clear();
+	reading.parent->type &= ~CT_NUM_CURRENT;
 
 	insert_if_exists(reading.parent->possible_sets, grammar->sets_any);
 
-- 
2.43.0


From 881775e102a11276bf2bb1f0273fb543a96e0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 61/80] fix: a bag of tags test that spans both ways must hold
 when only the left window matches

---
 src/GrammarApplicator_runContextualTest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 881b664..a7bd035 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -437,7 +437,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 						left = nullptr;
 					}
 					if (right && (test->pos & (POS_SPAN_BOTH | POS_SPAN_RIGHT))) {
-						match = doesSetMatchReading(right->bag_of_tags, test->target, true);
+						match = match || doesSetMatchReading(right->bag_of_tags, test->target, true);
 						right = right->next;
 					}
 					else {
-- 
2.43.0


From 81470d107a13c9b65fc57060974ab3e7ff506f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:28 +0000
Subject: [PATCH 62/80] fix: readings of FST sub-readings must have the
 wordform's tag, like those of other formats

---
 src/FSTApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 46dd1a8..8317162 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -231,6 +231,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 							Reading* nr = cReading->allocateReading(cReading->parent);
 							nr->next = cReading;
 							cReading = nr;
+							addTagToReading(*cReading, cCohort->wordform);
 							++space;
 						}
 					}
-- 
2.43.0


From 3cba21de54a8c2cebdc254a7a0aab672ee0085ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 63/80] fix: ADDCOHORT BEFORE WITHCHILD must not put a cohort
 before >>>

---
 src/GrammarApplicator_runRules.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index a9c237b..3903350 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1149,8 +1149,15 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			collect_subtree(cohorts, cohort, rule->childset1);
 
 			if (rule->type == K_ADDCOHORT_BEFORE) {
-				current.cohorts.insert(current.cohorts.begin() + cohorts.front()->local_number, cCohort);
-				current.all_cohorts.insert(std::find(current.all_cohorts.begin() + cohorts.front()->local_number, current.all_cohorts.end(), cohorts.front()), cCohort);
+				auto spot = current.cohorts.begin() + cohorts.front()->local_number;
+				auto ac_spot = std::find(current.all_cohorts.begin() + cohorts.front()->local_number, current.all_cohorts.end(), cohorts.front());
+				if (cohorts.front()->local_number == 0) {
+					// Nothing can come before >>>
+					++spot;
+					++ac_spot;
+				}
+				current.cohorts.insert(spot, cCohort);
+				current.all_cohorts.insert(ac_spot, cCohort);
 			}
 			else {
 				current.cohorts.insert(current.cohorts.begin() + cohorts.back()->local_number + 1, cCohort);
-- 
2.43.0


From 0dee656dc94e7ba1664db3c45379c52022fc4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 64/80] fix: a word form that SUBSTITUTE replaces must not stay
 as a tag of sub-readings, static tags and ignored readings

---
 src/GrammarApplicator_runRules.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 3903350..65c0d84 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2119,18 +2119,26 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						splitMappings(mappings, *get_apply_to().cohort, *get_apply_to().subreading, true);
 					}
 					if (wf && wf != get_apply_to().subreading->parent->wordform) {
-						for (auto r : get_apply_to().subreading->parent->readings) {
-							delTagFromReading(*r, get_apply_to().subreading->parent->wordform);
-							addTagToReading(*r, wf);
+						auto parent = get_apply_to().subreading->parent;
+						auto set_wf = [&](Reading* r) {
+							for (; r; r = r->next) {
+								delTagFromReading(*r, parent->wordform);
+								addTagToReading(*r, wf);
+							}
+						};
+						for (auto r : parent->readings) {
+							set_wf(r);
+						}
+						for (auto r : parent->deleted) {
+							set_wf(r);
 						}
-						for (auto r : get_apply_to().subreading->parent->deleted) {
-							delTagFromReading(*r, get_apply_to().subreading->parent->wordform);
-							addTagToReading(*r, wf);
+						for (auto r : parent->delayed) {
+							set_wf(r);
 						}
-						for (auto r : get_apply_to().subreading->parent->delayed) {
-							delTagFromReading(*r, get_apply_to().subreading->parent->wordform);
-							addTagToReading(*r, wf);
+						for (auto r : parent->ignored) {
+							set_wf(r);
 						}
+						set_wf(parent->wread);
 						get_apply_to().subreading->parent->wordform = wf;
 						for (auto r : grammar->wf_rules) {
 							if (doesWordformsMatch(wf, r->wordform)) {
-- 
2.43.0


From 4daabd8396b280f8e551153edf19cce568ef5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:19 +0000
Subject: [PATCH 65/80] fix: cg-relabel must keep the order of tags in ordered
 sets (APPEND needs its base form first)

---
 src/Relabeller.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/Relabeller.cpp b/src/Relabeller.cpp
index 90dca43..9d4f679 100644
--- a/src/Relabeller.cpp
+++ b/src/Relabeller.cpp
@@ -109,14 +109,17 @@ void Relabeller::addTaglistsToSet(const TagVectorSet& tvs, Set* s) {
 		return;
 	}
 
+	const bool ordered = (s->type & ST_ORDERED) != 0;
 	bc::flat_map<Tag*, size_t> tag_freq;
 	TagVectorSet tvs_sort_uniq;
 
 	for (auto& tvc : tvs) {
 		TagVector& tags = const_cast<TagVector&>(tvc);
 		// From TextualParser::parseTagList
-		std::sort(tags.begin(), tags.end(), compare_Tag());
-		tags.erase(std::unique(tags.begin(), tags.end()), tags.end());
+		if (!ordered) {
+			std::sort(tags.begin(), tags.end(), compare_Tag());
+			tags.erase(std::unique(tags.begin(), tags.end()), tags.end());
+		}
 		if (tvs_sort_uniq.insert(tags).second) {
 			for (auto t : tags) {
 				++tag_freq[t];
@@ -133,9 +136,11 @@ void Relabeller::addTaglistsToSet(const TagVectorSet& tvs, Set* s) {
 			continue;
 		}
 		TagVector& tv = const_cast<TagVector&>(tvc);
-		// Sort tags by frequency, high-to-low
-		// Doing this yields a very cheap imperfect form of trie compression, but it's good enough
-		std::sort(tv.begin(), tv.end(), fs);
+		if (!ordered) {
+			// Sort tags by frequency, high-to-low
+			// Doing this yields a very cheap imperfect form of trie compression, but it's good enough
+			std::sort(tv.begin(), tv.end(), fs);
+		}
 		bool special = false;
 		for (auto tag : tv) {
 			if (tag->type & T_SPECIAL) {
@@ -159,16 +164,11 @@ void Relabeller::relabelAsList(Set* set_g, const Set* set_r, const Tag* fromTag)
 
 	TagVectorSet taglists;
 	for (auto& old_tags : old_tvs) {
-		TagVector tags_except_from;
-
 		bool seen = false;
 		for (auto old_tag : old_tags) {
 			if (old_tag->hash == fromTag->hash) {
 				seen = true;
 			}
-			else {
-				tags_except_from.push_back(old_tag);
-			}
 		}
 		TagVectorSet suffixes;
 		if (seen) {
@@ -179,8 +179,16 @@ void Relabeller::relabelAsList(Set* set_g, const Set* set_r, const Tag* fromTag)
 			suffixes.insert(dummy);
 		}
 		for (auto& suf : suffixes) {
-			TagVector tags = TagVector(tags_except_from);
-			tags.insert(tags.end(), suf.begin(), suf.end());
+			// The new tags go where the old one was, since the order of tags matters in ordered sets such as APPEND's
+			TagVector tags;
+			for (auto old_tag : old_tags) {
+				if (old_tag->hash == fromTag->hash) {
+					tags.insert(tags.end(), suf.begin(), suf.end());
+				}
+				else {
+					tags.push_back(old_tag);
+				}
+			}
 			tags = transferTags(tags);
 			taglists.insert(tags);
 		}
-- 
2.43.0


From 080fc78a16a4df57edf61a7163cf462f19353cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:19 +0000
Subject: [PATCH 66/80] fix: cg-relabel must skip rules without a maplist
 instead of crashing

---
 src/Relabeller.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Relabeller.cpp b/src/Relabeller.cpp
index 9d4f679..f1a35dc 100644
--- a/src/Relabeller.cpp
+++ b/src/Relabeller.cpp
@@ -33,11 +33,15 @@ Relabeller::Relabeller(Grammar& res, const Grammar& relabels, std::ostream& ux_e
 	std::unique_ptr<UStringSetMap> as_set{ new UStringSetMap };
 
 	for (auto rule : relabels.rule_by_number) {
+		if (rule->type != K_MAP) {
+			u_fprintf(ux_stderr, "Warning: Relabel rule '%S' on line %d has unexpected keyword (expected MAP), skipping!\n", rule->name.data(), rule->line);
+			continue;
+		}
 		const TagVector& fromTags = trie_getTagList(rule->maplist->trie);
 		Set* target = relabels.sets_list[rule->target];
 		const TagVector& toTags = trie_getTagList(target->trie);
 		if (!(rule->maplist->trie_special.empty() && target->trie_special.empty())) {
-			u_fprintf(ux_stderr, "Warning: Relabel rule '%S' on line %d has %d special tags, skipping!\n", rule->name.data(), rule->line);
+			u_fprintf(ux_stderr, "Warning: Relabel rule '%S' on line %d has special tags, skipping!\n", rule->name.data(), rule->line);
 			continue;
 		}
 		if (!rule->tests.empty()) {
@@ -48,10 +52,6 @@ Relabeller::Relabeller(Grammar& res, const Grammar& relabels, std::ostream& ux_e
 			u_fprintf(ux_stderr, "Warning: Relabel rule '%S' on line %d had a wordform, skipping!\n", rule->name.data(), rule->line);
 			continue;
 		}
-		if (rule->type != K_MAP) {
-			u_fprintf(ux_stderr, "Warning: Relabel rule '%S' on line %d has unexpected keyword (expected MAP), skipping!\n", rule->name.data(), rule->line);
-			continue;
-		}
 		if (fromTags.size() != 1) {
 			u_fprintf(ux_stderr, "Warning: Relabel rule '%S' on line %d has %d tags in the maplist (expected 1), skipping!\n", rule->name.data(), rule->line, fromTags.size());
 			continue;
-- 
2.43.0


From 9bf35b215b08aff62637abdd1574ed2d8cd33bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:19 +0000
Subject: [PATCH 67/80] fix: cg-relabel with a set must not lose a tag that
 stands both alone and in a taglist

---
 src/Relabeller.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Relabeller.cpp b/src/Relabeller.cpp
index f1a35dc..64236f0 100644
--- a/src/Relabeller.cpp
+++ b/src/Relabeller.cpp
@@ -277,6 +277,7 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag)
 
 	TagVectorSet tvs_with_from;
 	TagVectorSet tvs_no_from;
+	bool alone = false; // fromTag stood alone in some taglist, so everything set_r matches is matched
 	for (auto& old_tags : old_tvs) {
 		TagVector tags_except_from;
 
@@ -290,6 +291,7 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag)
 			}
 		}
 		if (tags_except_from.empty()) {
+			alone = true;
 			continue;
 		}
 		if (seen) {
@@ -309,7 +311,7 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag)
 
 	uint32_t s_gR_num = copyRelabelSetToGrammar(set_r);
 	uint32_t s_gI_num;
-	if (tvs_with_from.empty()) {
+	if (alone || tvs_with_from.empty()) {
 		// We don't want to intersect with ∅, that would never match
 		s_gI_num = s_gR_num;
 	}
-- 
2.43.0


From e8c4daa32edd64beda4652d7b09fdbaaf99db477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:49 +0000
Subject: [PATCH 68/80] fix: cg-relabel with a set must copy the tags of its
 taglists into the grammar

---
 src/Relabeller.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Relabeller.hpp b/src/Relabeller.hpp
index 256ad69..ee38a30 100644
--- a/src/Relabeller.hpp
+++ b/src/Relabeller.hpp
@@ -55,14 +55,14 @@ private:
 	void relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag);
 };
 
-inline trie_t* _trie_copy_helper(const trie_t& trie, Grammar& grammar) {
-	trie_t* nt = new trie_t;
+inline std::unique_ptr<trie_t> _trie_copy_helper(const trie_t& trie, Grammar& grammar) {
+	auto nt = std::make_unique<trie_t>();
 	for (auto& p : trie) {
 		Tag* t = new Tag(*p.first);
 		t = grammar.addTag(t); // new is deleted if it exists
 		(*nt)[t].terminal = p.second.terminal;
 		if (p.second.trie) {
-			(*nt)[t].trie = _trie_copy_helper(*p.second.trie);
+			(*nt)[t].trie = _trie_copy_helper(*p.second.trie, grammar);
 		}
 	}
 	return nt;
@@ -75,7 +75,7 @@ inline trie_t trie_copy(const trie_t& trie, Grammar& grammar) {
 		t = grammar.addTag(t); // new is deleted if it exists
 		nt[t].terminal = p.second.terminal;
 		if (p.second.trie) {
-			nt[t].trie = _trie_copy_helper(*p.second.trie);
+			nt[t].trie = _trie_copy_helper(*p.second.trie, grammar);
 		}
 	}
 	return nt;
-- 
2.43.0


From eb67eb6109474c3d16b96774deb1ee9fccee3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 69/80] fix: removed cohorts next to an enclosure are not part
 of it, and must not hide its parentheses

---
 src/GrammarApplicator_runRules.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 65c0d84..abdd5c8 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -3245,10 +3245,16 @@ label_unpackEnclosures:
 
 				size_t ra = i;
 				size_t ne = 0;
+				Cohort* last = c;
 				for (; ra < nc; ++ra) {
 					if (!(current->all_cohorts[ra]->type & (CT_ENCLOSED | CT_REMOVED | CT_IGNORED))) {
 						break;
 					}
+					if (!(current->all_cohorts[ra]->type & CT_ENCLOSED)) {
+						// Removed or ignored next to the enclosure, so not part of it
+						continue;
+					}
+					last = current->all_cohorts[ra];
 					--(current->all_cohorts[ra]->enclosed);
 					if (current->all_cohorts[ra]->enclosed == 0) {
 						current->all_cohorts[ra]->type &= ~CT_ENCLOSED;
@@ -3263,17 +3269,17 @@ label_unpackEnclosures:
 					current->cohorts[j - ne] = nullptr;
 				}
 				for (size_t j = 0; i < ra; ++i) {
-					if (current->all_cohorts[i]->enclosed == 0) {
+					if (current->all_cohorts[i]->enclosed == 0 && !(current->all_cohorts[i]->type & (CT_REMOVED | CT_IGNORED))) {
 						current->cohorts[ni + j + 1] = current->all_cohorts[i];
 						current->cohorts[ni + j + 1]->local_number = UI32(ni + j + 1);
 						current->cohorts[ni + j + 1]->parent = current;
 						++j;
 					}
 				}
-				par_left_tag = current->all_cohorts[la + 1]->is_pleft;
-				par_right_tag = current->all_cohorts[ra - 1]->is_pright;
+				par_left_tag = c->is_pleft;
+				par_right_tag = last->is_pright;
 				if (verbosity_level > 0) {
-					u_fprintf(ux_stderr, "Info: Unwrapped enclosure between lines %u to %u\n", current->all_cohorts[la + 1]->line_number, current->all_cohorts[ra - 1]->line_number);
+					u_fprintf(ux_stderr, "Info: Unwrapped enclosure between lines %u to %u\n", c->line_number, last->line_number);
 				}
 				par_left_pos = UI32(ni + 1);
 				par_right_pos = UI32(ni + ne);
-- 
2.43.0


From 205b082bc6a800d9d8b53d82139bc8a04c886111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:04 +0000
Subject: [PATCH 70/80] fix: cg3_detect_sformat_buffer must not fail on buffers
 longer than what detection looks at

---
 src/FormatConverter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/FormatConverter.cpp b/src/FormatConverter.cpp
index a38094e..2a0e38b 100644
--- a/src/FormatConverter.cpp
+++ b/src/FormatConverter.cpp
@@ -33,6 +33,15 @@ cg3_sformat detectFormat(std::string_view buf8) {
 		return fmt;
 	}
 
+	// Only look at as much as fits the buffer, ending on a whole code point
+	if (buf8.size() > BUF_SIZE - 4) {
+		size_t n = BUF_SIZE - 4;
+		while (n < buf8.size() && n < BUF_SIZE && (buf8[n] & 0xC0) == 0x80) {
+			++n;
+		}
+		buf8 = buf8.substr(0, n);
+	}
+
 	UString buffer(BUF_SIZE, 0);
 	int32_t nr = 0;
 	u_strFromUTF8(&buffer[0], BUF_SIZE, &nr, buf8.data(), SI32(buf8.size()), &status);
-- 
2.43.0


From 2034d0d7e922dfd13ccb5b3565d5a73e7ddab2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:04 +0000
Subject: [PATCH 71/80] fix: REMPARENT and SWITCHPARENT need dependencies to be
 read, even if no other rule does

---
 src/TextualParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index d5557ca..f7eac11 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -1547,7 +1547,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 			rule->dep_tests.pop_back();
 		}
 	}
-	if (key == K_SETPARENT || key == K_SETCHILD || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
+	if (key == K_SETPARENT || key == K_SETCHILD || key == K_REMPARENT || key == K_SWITCHPARENT || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
 		result->has_dep = true;
 	}
 	if (key == K_SETRELATION || key == K_SETRELATIONS || key == K_ADDRELATION || key == K_ADDRELATIONS || key == K_REMRELATION || key == K_REMRELATIONS || key == K_MERGECOHORTS) {
-- 
2.43.0


From 970e9a99b1009f9398f83bf6ef2e200d3386cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:11 +0000
Subject: [PATCH 72/80] fix: CG3O_SECTIONS and CG3O_SECTIONS_TEXT must take
 effect after cg3_applicator_create()

---
 src/GrammarApplicator.cpp | 6 ++++++
 src/GrammarApplicator.hpp | 1 +
 src/libcg3.cpp            | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 97881cf..8c00862 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -226,6 +226,12 @@ void GrammarApplicator::index() {
 	did_index = true;
 }
 
+void GrammarApplicator::reindex() {
+	runsections.clear();
+	did_index = false;
+	index();
+}
+
 Tag* GrammarApplicator::addTag(Tag* tag) {
 	uint32_t hash = tag->rehash();
 	uint32_t seed = 0;
diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index b2a900c..c45a19b 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -155,6 +155,7 @@ public:
 	void setGrammar(Grammar* res);
 	void setTextDelimiter(UString rx);
 	void index();
+	void reindex();
 
 	virtual void runGrammarOnText(std::istream& input, std::ostream& output);
 
diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 884773d..8458b2d 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -544,6 +544,10 @@ cg3_status cg3_reading_addtag(cg3_reading* reading_, cg3_tag* tag_) {
 
 	auto ga = reading->parent->parent->parent->parent;
 	ga->addTagToReading(*reading, tag);
+	if (tag->type & T_MAPPING) {
+		// Same as for readings from input streams
+		reading->mapped = true;
+	}
 
 	return CG3_SUCCESS;
 }
-- 
2.43.0


From fec314aaacfa8968be52db6f74ad7eb3129234b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:11 +0000
Subject: [PATCH 73/80] fix: cg3_reading_addtag() with a mapping tag must leave
 the reading mapped, as in input streams

---
 src/libcg3.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 8458b2d..71a3981 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -276,7 +276,11 @@ void cg3_applicator_setoption(cg3_applicator* applicator_, cg3_option option, vo
 	}
 	default:
 		u_fprintf(ux_stderr, "CG3 Error: Unknown option type!\n");
+		return;
 	}
+
+	// The rules to run were already picked when the applicator was created
+	applicator->reindex();
 }
 
 void cg3_applicator_free(cg3_applicator* applicator_) {
-- 
2.43.0


From c7b075a10ea18d47704af1b0ce1511a17b79dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:56 +0000
Subject: [PATCH 74/80] fix: cg3_sentence_copy() must not add a second >>>
 cohort, and must number the cohorts it adds

---
 src/libcg3.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 71a3981..ac12f9f 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -402,8 +402,10 @@ cg3_sentence* cg3_sentence_copy(cg3_sentence* sentence_, cg3_applicator* applica
 	applicator->initEmptySingleWindow(current);
 	current->has_enclosures = sentence->has_enclosures;
 	current->text = sentence->text;
-	for (auto c : sentence->cohorts) {
-		Cohort* nc = _cohort_copy(current, c);
+	// Both already have a >>> cohort
+	for (size_t i = 1; i < sentence->cohorts.size(); ++i) {
+		Cohort* nc = _cohort_copy(current, sentence->cohorts[i]);
+		nc->global_number = current->parent->cohort_counter++;
 		current->appendCohort(nc);
 	}
 	return current;
-- 
2.43.0


From 7a08aaf4d1537bf44b6b0464acd26288ce4f8fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:12 +0000
Subject: [PATCH 75/80] fix: SWITCHPARENT must not make the root a dependent of
 its own dependents

---
 src/GrammarApplicator_runRules.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index abdd5c8..89cf579 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2769,16 +2769,15 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
 				auto pit = current.parent->cohort_map.find(child->dep_parent);
-				if (pit == current.parent->cohort_map.end()) {
+				// The root can't be made a dependent
+				if (pit == current.parent->cohort_map.end() || pit->second->local_number == 0) {
 					return;
 				}
 				Cohort* parent = pit->second;
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-					// Cohorts below the root may have 0 instead of the number of this window's >>>
-					bool same = (iter->dep_parent == parent->global_number || (parent == current.cohorts[0] && iter->dep_parent == 0));
-					if (same && doesSetMatchCohortNormal(*iter, rule->childset1)) {
+					if (iter->dep_parent == parent->global_number && doesSetMatchCohortNormal(*iter, rule->childset1)) {
 						siblings.insert(iter);
 					}
 				}
-- 
2.43.0


From 4cca651cda0e8283134384e52126454508138950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:12 +0000
Subject: [PATCH 76/80] fix: bag of tags positions must accept the letters that
 --grammar-out writes for rules with LOOKDELETED, LOOKDELAYED, or LOOKIGNORED

---
 src/TextualParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index f7eac11..27a990c 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -804,7 +804,7 @@ void TextualParser::parseContextualTestPosition(UChar*& p, ContextualTest& t) {
 			error("%s: Error: Invalid position on line %u near `%S` - cannot combine offsets with relations!\n", n);
 		}
 	}
-	if ((t.pos & POS_BAG_OF_TAGS) && ((t.pos & ~(POS_BAG_OF_TAGS | POS_NOT | POS_NEGATE | POS_SPAN_BOTH | POS_SPAN_LEFT | POS_SPAN_RIGHT)) || had_digits)) {
+	if ((t.pos & POS_BAG_OF_TAGS) && ((t.pos & ~(POS_BAG_OF_TAGS | POS_NOT | POS_NEGATE | POS_SPAN_BOTH | POS_SPAN_LEFT | POS_SPAN_RIGHT | POS_LOOK_DELETED | POS_LOOK_DELAYED | POS_LOOK_IGNORED)) || had_digits)) {
 		error("%s: Error: Invalid position on line %u near `%S` - bag of tags may only be combined with window spanning!\n", n);
 	}
 	if ((t.pos & POS_DEP_PARENT) && !(t.pos & POS_DEP_GLOB)) {
-- 
2.43.0


From 8ed974fc52fb4b7a150838c3ae9ba804efe56e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 77/80] fix: looking for the spot of BEFORE and AFTER must not
 read past the end of the reading

---
 src/GrammarApplicator_runRules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 89cf579..77e46d5 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1879,7 +1879,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						bool found = true;
 						auto tmp = it;
 						for (auto tag : *spot_tags) {
-							if (*tmp != tag->hash) {
+							if (tmp == reading.tags_list.end() || *tmp != tag->hash) {
 								found = false;
 								break;
 							}
@@ -2267,7 +2267,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						bool found = true;
 						auto tmp = it;
 						for (auto tag : *spot_tags) {
-							if (*tmp != tag->hash) {
+							if (tmp == cReading->tags_list.end() || *tmp != tag->hash) {
 								found = false;
 								break;
 							}
-- 
2.43.0


From 70ebc0df3053d826722fc0a5805e1a0619b4c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:35 +0000
Subject: [PATCH 78/80] fix: SELECT, REMOVE and IFF with readings attached to
 in several cohorts must keep to the readings of one cohort

---
 src/GrammarApplicator_runRules.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 77e46d5..6377203 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1358,7 +1358,22 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			reflowReading(reading);
 		};
 
+		// Readings may have been attached to in several cohorts, but only one cohort is acted on, in the order it has its readings
+		auto keep_own = [&](ReadingList& picked) {
+			ReadingList own;
+			for (auto r : get_apply_to().cohort->readings) {
+				if (std::find(picked.begin(), picked.end(), r) != picked.end()) {
+					own.push_back(r);
+				}
+			}
+			picked.swap(own);
+		};
+
 		auto cohort_cb = [&]() {
+			if (rule->type == K_SELECT || rule->type == K_REMOVE || rule->type == K_IFF) {
+				keep_own(selected);
+				keep_own(removed);
+			}
 			if (rule->type == K_SELECT || (rule->type == K_IFF && !selected.empty())) {
 				Cohort* target = get_apply_to().cohort;
 				if (selected.size() < target->readings.size() && !selected.empty()) {
-- 
2.43.0


From 1a92cb9f2cec6e0b93b2ec7185c61a9c7e9cdc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:14 +0000
Subject: [PATCH 79/80] fix: a bag of tags test that doesn't match must not
 leave tags for unification

---
 src/GrammarApplicator_runContextualTest.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index a7bd035..87c46b1 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -425,19 +425,33 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 			}
 		}
 		else if (test->pos & POS_BAG_OF_TAGS) {
-			bool match = doesSetMatchReading(sWindow->bag_of_tags, test->target, true);
+			// As with cohorts, what doesn't match must not leave anything for unification
+			auto match_bag = [&](SingleWindow* win) {
+				if (context_stack.empty()) {
+					return doesSetMatchReading(win->bag_of_tags, test->target, true);
+				}
+				auto utags = *context_stack.back().unif_tags;
+				auto usets = *context_stack.back().unif_sets;
+				if (doesSetMatchReading(win->bag_of_tags, test->target, true)) {
+					return true;
+				}
+				*context_stack.back().unif_tags = utags;
+				*context_stack.back().unif_sets = usets;
+				return false;
+			};
+			bool match = match_bag(sWindow);
 			if (!match && (test->pos & (POS_SPAN_BOTH | POS_SPAN_LEFT | POS_SPAN_RIGHT))) {
 				SingleWindow *left = sWindow->previous, *right = sWindow->next;
 				while (left || right) {
 					if (left && (test->pos & (POS_SPAN_BOTH | POS_SPAN_LEFT))) {
-						match = doesSetMatchReading(left->bag_of_tags, test->target, true);
+						match = match_bag(left);
 						left = left->previous;
 					}
 					else {
 						left = nullptr;
 					}
 					if (right && (test->pos & (POS_SPAN_BOTH | POS_SPAN_RIGHT))) {
-						match = match || doesSetMatchReading(right->bag_of_tags, test->target, true);
+						match = match || match_bag(right);
 						right = right->next;
 					}
 					else {
-- 
2.43.0


From c771d64cb404594ad54e658852f5a3a5c144538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:18 +0000
Subject: [PATCH 80/80] fix: cg3_sentence_copy() must not give readings the
 wordform's tag twice

---
 src/libcg3.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index ac12f9f..ef55a3b 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -364,6 +364,10 @@ inline Reading* _reading_copy(Cohort* nc, Reading* oldr, bool is_sub = false) {
 	ga->addTagToReading(*nr, nc->wordform);
 	TagList mappings;
 	for (auto tag : oldr->tags_list) {
+		// Added above
+		if (tag == oldr->parent->wordform->hash) {
+			continue;
+		}
 		Tag* nt = _tag_copy(oldr->parent->parent->parent->parent, nc->parent->parent->parent, tag);
 		if (nt->type & T_MAPPING || nt->tag[0] == ga->grammar->mapping_prefix) {
 			mappings.push_back(nt);
-- 
2.43.0

