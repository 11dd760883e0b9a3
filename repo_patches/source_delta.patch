From 498d08118d8f7a56bc6fa6b74addf9fc8ec32718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:37 +0000
Subject: [PATCH 01/50] fix: one requirement may not claim a multicountable
 course twice

available_reqpaths iterated over the segments of the requirement path (which
never equal a prior claimer's whole path) instead of over the listed
requirement paths, so the same requirement could claim the course again and
again.
---
 dp/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dp/context.py b/dp/context.py
index 58fc141..b55e8e7 100644
--- a/dp/context.py
+++ b/dp/context.py
@@ -332,11 +332,11 @@ class RequirementContext:
                 self.claims[course.clbid].append(claim)
                 return claim
 
-        # now limit to just the clauses in the reqpath which have not been used
+        # now limit to just the reqpaths which have not been used
         available_reqpaths = [
             reqpath
-            for reqpath in applicable_reqpath
-            if reqpath not in prior_claimers
+            for reqpath in applicable_reqpaths
+            if reqpath == applicable_reqpath and reqpath not in prior_claimers
         ]
 
         if not available_reqpaths:
-- 
2.43.0


From 7ce46ce2f53c3914a682d826819e51792ebe2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 02/50] fix: course rules which re-use claimed courses honour
 it when audited

CourseSolution.from_rule and CourseResult.from_solution dropped from_claimed,
so such a rule was satisfied by any matching course, claimed or not.
---
 dp/result/course.py   | 1 +
 dp/solution/course.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dp/result/course.py b/dp/result/course.py
index d655fde..4ec1735 100644
--- a/dp/result/course.py
+++ b/dp/result/course.py
@@ -26,6 +26,7 @@ class CourseResult(Result, BaseCourseRule):
             grade=solution.grade,
             grade_option=solution.grade_option,
             allow_claimed=solution.allow_claimed,
+            from_claimed=solution.from_claimed,
             claim_attempt=claim_attempt,
             path=solution.path,
             overridden=overridden,
diff --git a/dp/solution/course.py b/dp/solution/course.py
index a57bdd2..132fe9a 100644
--- a/dp/solution/course.py
+++ b/dp/solution/course.py
@@ -23,6 +23,7 @@ class CourseSolution(Solution, BaseCourseRule):
             hidden=rule.hidden,
             grade=rule.grade,
             allow_claimed=rule.allow_claimed,
+            from_claimed=rule.from_claimed,
             path=rule.path,
             overridden=overridden,
             ap=rule.ap,
-- 
2.43.0


From 734a3f3ad2974b7d6e52fdc102109e0cd64d0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:58 +0000
Subject: [PATCH 03/50] fix: independent solving passes on the claims of the
 result it kept

find_best_solution merged the claims of the last solution it tried, not those
of the best one, so rules which look at claimed courses saw the wrong set.
---
 dp/solve.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dp/solve.py b/dp/solve.py
index 1927fb2..e93487a 100644
--- a/dp/solve.py
+++ b/dp/solve.py
@@ -18,6 +18,7 @@ def find_best_solution(*, rule: 'Rule', ctx: 'RequirementContext', merge_claims:
     best_result: Optional['Result'] = None
     best_result_index: Optional[int] = None
     best_rank: Decimal = Decimal(0)
+    best_claims: Dict[str, List['Claim']] = dict()
 
     claims: Dict[str, List['Claim']] = dict()
     if merge_claims:
@@ -35,20 +36,23 @@ def find_best_solution(*, rule: 'Rule', ctx: 'RequirementContext', merge_claims:
                 best_result = this_result
                 best_rank = this_rank
                 best_result_index = this_index
+                best_claims = inner_ctx.claims
 
             if this_rank > best_rank:
                 best_result = this_result
                 best_rank = this_rank
                 best_result_index = this_index
+                best_claims = inner_ctx.claims
 
             if this_status in WAIVED_AND_DONE:
                 best_result = this_result
                 best_rank = this_rank
                 best_result_index = this_index
+                best_claims = inner_ctx.claims
                 break
 
-    if merge_claims and inner_ctx:
-        ctx.set_claims({**claims, **inner_ctx.claims})
+    if merge_claims:
+        ctx.set_claims({**claims, **best_claims})
 
     logger.debug('solving rule: done; at %s solved: rank %s, iteration %s', rule.path, best_rank, best_result_index)
 
-- 
2.43.0


From 07b058f67b7d4a451b69fba9a54bccca080d5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:58 +0000
Subject: [PATCH 04/50] fix: every solution starts from the
 independently-solved claims

Only the first generated solution saw them; from the second on, a rule over
claimed courses missed the courses claimed by independently-solved siblings.
---
 dp/area.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dp/area.py b/dp/area.py
index f3d17a5..13a72ee 100644
--- a/dp/area.py
+++ b/dp/area.py
@@ -192,13 +192,17 @@ class AreaOfStudy(Base):
             for i, _c in enumerate(limited_transcript):
                 logger.debug("evaluating area.result with limited transcript [%d]: %r", i, _c)
 
-            ctx = ctx.with_transcript(
+            ctx = ctx.with_empty_claims().with_transcript(
                 limited_transcript,
                 full=student.courses,
                 forced=forced_courses,
                 including_failed=student.courses_with_failed,
             )
 
+            # the claims of the independently-solved children, which are made
+            # while the first solution is being generated
+            solved_claims: Optional[Dict[str, List[Claim]]] = None
+
             for i, sol in enumerate(self.result.solutions(ctx=ctx, depth=1)):
                 logger.debug('beginning solution #%d', i + 1)
 
@@ -208,6 +212,9 @@ class AreaOfStudy(Base):
                     if len(all_claims) != len(set(all_claims)):
                         continue
 
+                if solved_claims is None:
+                    solved_claims = {k: list(v) for k, v in ctx.claims.items()}
+
                 # be sure to start with an empty claims list - without
                 # clearing it here, these calls only work if you process the
                 # `.audit()` calls in sequence directly from the generator;
@@ -219,6 +226,7 @@ class AreaOfStudy(Base):
                 # We need to clear the list of claims at the end of the loop,
                 # or else we accidentally clear the independently-solved claims
                 ctx = ctx.with_empty_claims()
+                ctx.set_claims(solved_claims)
 
                 logger.debug('completed solution #%d', i + 1)
 
-- 
2.43.0


From 5c462714279b2c343f01ac73edba669503224c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:26 +0000
Subject: [PATCH 05/50] fix: inserting a course which a rule selects anyway
 does not count it twice

The inserted course was appended to the rule's own matches, so one course
satisfied 'two courses', and a less-than assertion could fail because of it.
---
 dp/assertion_clause.py |  6 ++++--
 dp/rule/query.py       | 12 ++++++++----
 dp/solution/query.py   |  3 ++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index 495d528..5d03f6c 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -204,12 +204,14 @@ class Assertion:
 
             if insert.forced:
                 matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
-                filtered_output.append(matched_course)
+                if matched_course not in filtered_output:
+                    filtered_output.append(matched_course)
                 inserted_clbids.append(matched_course.clbid)
             else:
                 maybe_matched_course = ctx.find_course_by_clbid(insert.clbid)
                 if maybe_matched_course is not None:
-                    filtered_output.append(maybe_matched_course)
+                    if maybe_matched_course not in filtered_output:
+                        filtered_output.append(maybe_matched_course)
                     inserted_clbids.append(maybe_matched_course.clbid)
 
         for block in ctx.get_block_exceptions(self.path):
diff --git a/dp/rule/query.py b/dp/rule/query.py
index ac28847..ea5803c 100644
--- a/dp/rule/query.py
+++ b/dp/rule/query.py
@@ -160,6 +160,9 @@ class QueryRule(Rule, BaseQueryRule):
         inserted_clbids: Tuple[str, ...] = tuple()
         force_inserted_clbids: Tuple[str, ...] = tuple()
         if self.source in (QuerySource.Courses, QuerySource.Claimed):
+            # a course which the filter selects anyway must not be added again
+            already_selected = set(data)
+
             for insert in ctx.get_insert_exceptions(self.path):
                 if insert.clbid in self.excluded_clbids:
                     continue
@@ -168,10 +171,11 @@ class QueryRule(Rule, BaseQueryRule):
                 if insert.forced:
                     force_inserted_clbids = (*force_inserted_clbids, insert.clbid)
                     matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
-                    data.append(matched_course)
+                    if matched_course not in already_selected:
+                        data.append(matched_course)
                 else:
                     maybe_matched_course = ctx.find_course_by_clbid(insert.clbid)
-                    if maybe_matched_course is not None:
+                    if maybe_matched_course is not None and maybe_matched_course not in already_selected:
                         data.append(maybe_matched_course)
 
         return data, inserted_clbids, force_inserted_clbids
@@ -203,7 +207,7 @@ class QueryRule(Rule, BaseQueryRule):
             for item_set in self.limit.limited_transcripts(courses, forced_clbids=force_inserted_clbids):
                 if self.attempt_claims is False:
                     did_iter = True
-                    yield QuerySolution.from_rule(rule=self, output=item_set, inserted=inserted_clbids, force_inserted=force_inserted_clbids)
+                    yield QuerySolution.from_rule(rule=self, output=tuple(dict.fromkeys(item_set)), inserted=inserted_clbids, force_inserted=force_inserted_clbids)
                     continue
 
                 for item_combo in iterate_item_set(item_set, rule=self):
@@ -220,7 +224,7 @@ class QueryRule(Rule, BaseQueryRule):
                         course_combo = tuple([*course_combo, *courses_for_insertion])
 
                     did_iter = True
-                    yield QuerySolution.from_rule(rule=self, output=course_combo, inserted=inserted_clbids, force_inserted=force_inserted_clbids)
+                    yield QuerySolution.from_rule(rule=self, output=tuple(dict.fromkeys(course_combo)), inserted=inserted_clbids, force_inserted=force_inserted_clbids)
 
         else:
             for item_combo in iterate_item_set(data, rule=self):
diff --git a/dp/solution/query.py b/dp/solution/query.py
index 7829f6b..6a84cbe 100644
--- a/dp/solution/query.py
+++ b/dp/solution/query.py
@@ -173,7 +173,8 @@ class QuerySolution(Solution, BaseQueryRule):
 
         for clbid in self.inserted:
             matched_course = ctx.forced_course_by_clbid(clbid, path=self.path)
-            output.append(matched_course)
+            if matched_course not in output:
+                output.append(matched_course)
 
         for course in output:
             claim = ctx.make_claim(course=course, path=self.path, allow_claimed=True)
-- 
2.43.0


From 577014abafe8daa00422f3168ab85fc0a21e3dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:53 +0000
Subject: [PATCH 06/50] fix: a course can be force-inserted into a query
 although another rule requires it

Required courses are kept out of queries; the check also dropped force-inserted
ones, which silently voided the exception.
---
 dp/rule/query.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dp/rule/query.py b/dp/rule/query.py
index ea5803c..9db706d 100644
--- a/dp/rule/query.py
+++ b/dp/rule/query.py
@@ -162,9 +162,15 @@ class QueryRule(Rule, BaseQueryRule):
         if self.source in (QuerySource.Courses, QuerySource.Claimed):
             # a course which the filter selects anyway must not be added again
             already_selected = set(data)
+            blocked_clbids = set(block.clbid for block in ctx.get_block_exceptions(self.path))
 
             for insert in ctx.get_insert_exceptions(self.path):
-                if insert.clbid in self.excluded_clbids:
+                if insert.clbid in blocked_clbids:
+                    continue
+
+                # courses which another rule requires are kept out of queries,
+                # unless they are forced into this one
+                if insert.clbid in self.excluded_clbids and not insert.forced:
                     continue
 
                 inserted_clbids = (*inserted_clbids, insert.clbid)
-- 
2.43.0


From 708b92b10021dd9d411ecac4f01ccdd5bb8ea621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 07/50] fix: rules over claimed courses are never solved on
 their own, wherever they are nested

Only a query that was a direct child (or requirement) was recognised; inside a
count or conditional, or as a course rule, it was solved independently and saw
no claims at all.
---
 dp/rule/conditional.py | 8 ++++++++
 dp/rule/count.py       | 3 +++
 dp/rule/course.py      | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/dp/rule/conditional.py b/dp/rule/conditional.py
index ed5e01c..f542f45 100644
--- a/dp/rule/conditional.py
+++ b/dp/rule/conditional.py
@@ -125,3 +125,11 @@ class ConditionalRule(Rule, BaseConditionalRule):
             return self.when_false.all_matches(ctx=ctx)
         else:
             return []
+
+    def is_never_disjoint(self) -> bool:
+        if self.condition.result is True:
+            return self.when_true.is_never_disjoint()
+        elif self.condition.result is False and self.when_false:
+            return self.when_false.is_never_disjoint()
+        else:
+            return False
diff --git a/dp/rule/count.py b/dp/rule/count.py
index b3315af..dc9ae03 100644
--- a/dp/rule/count.py
+++ b/dp/rule/count.py
@@ -371,6 +371,9 @@ class CountRule(Rule, BaseCountRule):
 
         return acc
 
+    def is_never_disjoint(self) -> bool:
+        return any(r.is_never_disjoint() for r in self.items)
+
     def find_independent_children(self, *, items: Collection[Rule], ctx: 'RequirementContext') -> Dict[str, Collection[Rule]]:
         """
         We want to find each child rule that has no claimable overlap with any other child rule.
diff --git a/dp/rule/course.py b/dp/rule/course.py
index 14cbf44..f86733e 100644
--- a/dp/rule/course.py
+++ b/dp/rule/course.py
@@ -201,6 +201,9 @@ class CourseRule(Rule, BaseCourseRule):
         except StopIteration:
             return False
 
+    def is_never_disjoint(self) -> bool:
+        return self.from_claimed
+
     def all_matches(self, *, ctx: 'RequirementContext') -> Collection['CourseInstance']:
         return list(self._all_matches(ctx=ctx))
 
-- 
2.43.0


From 2046d46cbdb0058ff07785f477bf2c391b3020c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:04 +0000
Subject: [PATCH 08/50] fix: conditional rules honour their waiver and always
 have a solution

A waived conditional loaded as overridden but was solved as if it were not; a
conditional whose condition is false and which has no else branch produced no
solution at all, so the audit ended without a result when it was not inside a
count.
---
 dp/base/conditional.py     |  6 ++++++
 dp/rule/conditional.py     | 16 +++++++++++++---
 dp/solution/conditional.py |  3 +++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/dp/base/conditional.py b/dp/base/conditional.py
index 7dc7f63..573bb11 100644
--- a/dp/base/conditional.py
+++ b/dp/base/conditional.py
@@ -30,6 +30,9 @@ class BaseConditionalRule(Base):
         return "conditional"
 
     def status(self) -> ResultStatus:
+        if self.is_waived():
+            return ResultStatus.Waived
+
         if self.condition.result is True:
             return self.when_true.status()
         elif self.condition.result is False and self.when_false:
@@ -38,6 +41,9 @@ class BaseConditionalRule(Base):
             return ResultStatus.Done
 
     def rank(self) -> Tuple[Decimal, Decimal]:
+        if self.is_waived():
+            return Decimal(1), Decimal(1)
+
         if self.condition.result is True:
             return self.when_true.rank()
         elif self.condition.result is False and self.when_false:
diff --git a/dp/rule/conditional.py b/dp/rule/conditional.py
index f542f45..a47c144 100644
--- a/dp/rule/conditional.py
+++ b/dp/rule/conditional.py
@@ -93,24 +93,34 @@ class ConditionalRule(Rule, BaseConditionalRule):
         return attr.evolve(self, when_true=when_true, when_false=when_false)
 
     def solutions(self, *, ctx: 'RequirementContext', depth: Optional[int] = None) -> Iterator[ConditionalSolution]:
-        if self.condition.result is True:
+        if self.overridden:
+            logger.debug("forced override on %s", self.path)
+            yield ConditionalSolution(when_true=self.when_true, path=self.path, condition=self.condition, when_false=self.when_false, overridden=True)
+        elif self.condition.result is True:
             for sol in self.when_true.solutions(ctx=ctx, depth=depth):
                 yield ConditionalSolution(when_true=sol, path=self.path, condition=self.condition, when_false=self.when_false, overridden=self.overridden)
         elif self.condition.result is False and self.when_false:
             for sol in self.when_false.solutions(ctx=ctx, depth=depth):
                 yield ConditionalSolution(when_false=sol, path=self.path, condition=self.condition, when_true=self.when_true, overridden=self.overridden)
         else:
-            return
+            # nothing is asked of this student, but be sure we always yield something
+            yield ConditionalSolution(when_true=self.when_true, path=self.path, condition=self.condition, when_false=self.when_false, overridden=self.overridden)
 
     def estimate(self, *, ctx: 'RequirementContext', depth: Optional[int] = None) -> int:
+        if self.overridden:
+            return 1
+
         if self.condition.result is True:
             return self.when_true.estimate(ctx=ctx, depth=depth)
         elif self.condition.result is False and self.when_false:
             return self.when_false.estimate(ctx=ctx, depth=depth)
         else:
-            return 0
+            return 1
 
     def has_potential(self, *, ctx: 'RequirementContext') -> bool:
+        if self.overridden:
+            return True
+
         if self.condition.result is True:
             return self.when_true.has_potential(ctx=ctx)
         elif self.condition.result is False and self.when_false:
diff --git a/dp/solution/conditional.py b/dp/solution/conditional.py
index 8342e46..58e1c8a 100644
--- a/dp/solution/conditional.py
+++ b/dp/solution/conditional.py
@@ -20,6 +20,9 @@ class ConditionalSolution(Solution, BaseConditionalRule):
     def audit(self, *, ctx: 'RequirementContext') -> ConditionalResult:
         logger.debug('auditing conditional rule %s', self.path)
 
+        if self.overridden:
+            return ConditionalResult.from_solution(source=self)
+
         if self.condition.result is True and isinstance(self.when_true, Solution):
             return ConditionalResult.from_solution(source=self, when_true=self.when_true.audit(ctx=ctx))
 
-- 
2.43.0


From 8eb04ed5f4fac15ebcf8a52ec20bd1f41799246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:30 +0000
Subject: [PATCH 09/50] fix: a less-than clause does not cap the search when
 other clauses need more courses

'sum(credits) >= 2' with 'at most 1 course in AAA' only ever tried sets of at
most one course, so a student who had finished was told they had not.
---
 dp/rule/query.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dp/rule/query.py b/dp/rule/query.py
index 9db706d..416a529 100644
--- a/dp/rule/query.py
+++ b/dp/rule/query.py
@@ -316,7 +316,11 @@ def find_largest_simple_count_assertion(assertions: Sequence[SomeAssertion]) ->
             return decimal.Decimal(0)
         return a.max_expected()
 
-    simple_clauses = (a for a in assertions if a.is_simple_count_clause())
+    # a less-than clause says how many items there may be, not how many are
+    # needed, so it can only be used when there is nothing else to satisfy.
+    only_lt_clauses = all(a.is_lt_clause() for a in assertions)
+
+    simple_clauses = (a for a in assertions if a.is_simple_count_clause() and (only_lt_clauses or not a.is_lt_clause()))
     return max(simple_clauses, key=_expected, default=None)
 
 
-- 
2.43.0


From 6ae7a864ea6b380028804fec852c7c21fec4cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:41 +0000
Subject: [PATCH 10/50] fix: only assertions in force decide how many courses a
 query tries

The branch of a conditional assertion which does not apply to the student (and
the body of a $when, which depends on the selection) raised the minimum number
of courses, so smaller selections which finish the area were never tried.
---
 dp/rule/query.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dp/rule/query.py b/dp/rule/query.py
index 416a529..e62b46e 100644
--- a/dp/rule/query.py
+++ b/dp/rule/query.py
@@ -339,11 +339,15 @@ def flatten_assertions(it: Iterable[AnyAssertion]) -> Iterator[Assertion]:
         if isinstance(a, Assertion):
             yield a
         elif isinstance(a, ConditionalAssertion):
-            yield a.when_true
-            if a.when_false:
+            # only the branch which is in force for this student
+            if a.condition.result is not False:
+                yield a.when_true
+            elif a.when_false:
                 yield a.when_false
         elif isinstance(a, DynamicConditionalAssertion):
-            yield a.when_true
+            # whether this applies depends on the courses which get selected,
+            # so it cannot tell how many to select
+            continue
         else:
             raise ValueError('uh oh')
 
-- 
2.43.0


From 9e5dd1cf9744cf7dac186a1076c760bcfd1f9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 11/50] fix: 'exactly n' limits how many courses a query tries
 only when it counts them all

With a filter of its own, or counting terms, the clause is also met by larger
selections, which the remaining clauses may need.
---
 dp/assertion_clause.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index 5d03f6c..65da956 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -736,7 +736,10 @@ def input_size_range(assertion: Assertion, maximum: int) -> Iterator[int]:
     if assertion.expected != expected:
         raise TypeError(f'cannot find a range of values for a non-integer clause: {type(assertion.expected)}')
 
-    if operator is Operator.EqualTo or (operator is Operator.GreaterThanOrEqualTo and at_most is True):
+    # "exactly n" is only about the size of the input when it counts all of it
+    counts_everything = assertion.key == 'count(courses)' and assertion.where is None
+
+    if (operator is Operator.EqualTo and counts_everything) or (operator is Operator.GreaterThanOrEqualTo and at_most is True):
         if maximum < expected:
             yield maximum
             return
@@ -747,7 +750,7 @@ def input_size_range(assertion: Assertion, maximum: int) -> Iterator[int]:
         yield from range(0, expected)
         yield from range(expected + 1, max(expected + 1, maximum + 1))
 
-    elif operator is Operator.GreaterThanOrEqualTo:
+    elif operator in (Operator.GreaterThanOrEqualTo, Operator.EqualTo):
         if maximum < expected:
             yield maximum
             return
-- 
2.43.0


From 7a533f7560be8e3dd686e393868db6fef953b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:03 +0000
Subject: [PATCH 12/50] fix: a group's audit clauses see each course once, in a
 fixed order

A course which two children may both use was passed twice, so its credits were
summed twice; and the order came from a set, so it changed from run to run.
---
 dp/solution/count.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dp/solution/count.py b/dp/solution/count.py
index f9bc444..1813d03 100644
--- a/dp/solution/count.py
+++ b/dp/solution/count.py
@@ -39,7 +39,10 @@ class CountSolution(Solution, BaseCountRule):
             )
 
         results = tuple(r.audit(ctx=ctx) if isinstance(r, Solution) else r for r in self.items)
-        matched_items = tuple(item for sol in results for item in sol.matched())
+
+        # each course once, even if several children hold it, in the order in which they claimed it
+        matched_items = tuple(dict.fromkeys(claim.get_course() for sol in results for claim in sol.claims() if claim.failed is False))
+
         audit_results = tuple(a.audit_and_resolve(data=matched_items, ctx=ctx) for a in self.audit_clauses)
 
         return CountResult.from_solution(solution=self, items=results, audit_results=audit_results)
-- 
2.43.0


From 22d7df776d5b6395af67c907a9be6ea6ade3793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:28 +0000
Subject: [PATCH 13/50] fix: two-pass aggregates are evaluated without
 in-progress courses too

The courses were passed as a generator, which the first pass used up.
---
 dp/assertion_clause.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index 65da956..958af4c 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -548,7 +548,7 @@ def evaluate_with_courses(assertion: Assertion, value: Sequence['CourseInstance'
 
         if has_ip_courses:
             # does the clause still pass if it's given only non-IP courses?
-            non_ip_courses = (c for c in value if not c.is_in_progress)
+            non_ip_courses = [c for c in value if not c.is_in_progress]
             calculated_result_no_ip = apply_clause_to_assertion_with_courses(assertion, non_ip_courses)
             operator_result_no_ip = apply_operator(lhs=calculated_result_no_ip.value, op=assertion.operator, rhs=assertion.expected)
         else:
-- 
2.43.0


From 46bbe9713a6283ac34b5567b208f561df77e1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 14/50] fix: overlapping limits are checked against the total,
 not the total before the last course

A course could push a credit limit past its maximum, and a zero-credit course
was rejected when the limit was exactly used up.
---
 dp/limit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dp/limit.py b/dp/limit.py
index ec8f4d4..fa5c931 100644
--- a/dp/limit.py
+++ b/dp/limit.py
@@ -171,15 +171,15 @@ class LimitSet:
                 if not limit.where.apply(c):
                     continue
 
-                if clause_counters[limit] >= limit.at_most:
-                    # break out of the loop once we fill up any limit clause
-                    return False
-
                 if limit.at_most_what is AtMostWhat.Courses:
                     clause_counters[limit] += 1
                 elif limit.at_most_what is AtMostWhat.Credits:
                     clause_counters[limit] += c.credits
 
+                if clause_counters[limit] > limit.at_most:
+                    # break out of the loop once we overfill any limit clause
+                    return False
+
         return True
 
     def limited_transcripts(
-- 
2.43.0


From 419a57b222be7d059234b6868282e331a199ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:00 +0000
Subject: [PATCH 15/50] fix: overlapping limits do not hide the selections
 which keep all of them

A credit limit which its courses did not exceed only ever offered all of them
together, so that a second limit on some of the courses could rule out every
transcript.  A limit given twice was also charged twice for each course.
---
 dp/limit.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dp/limit.py b/dp/limit.py
index fa5c931..a95f32e 100644
--- a/dp/limit.py
+++ b/dp/limit.py
@@ -77,7 +77,7 @@ class Limit:
 
         return Limit(at_most=at_most, at_most_what=at_most_what, where=clause, message=data.get('message', None))
 
-    def iterate(self, courses: Collection[CourseInstance]) -> Iterator[Tuple[CourseInstance, ...]]:
+    def iterate(self, courses: Collection[CourseInstance], *, overlaps: bool = False) -> Iterator[Tuple[CourseInstance, ...]]:
         # Be sure to sort the input, so that the output from the iterator is
         # sorted the same way each time. We need this because our input may
         # be a set, in which case there is no inherent ordering.
@@ -88,7 +88,7 @@ class Limit:
         if self.at_most_what is AtMostWhat.Courses:
             yield from self.iterate_courses(courses)
         elif self.at_most_what is AtMostWhat.Credits:
-            yield from self.iterate_credits(courses)
+            yield from self.iterate_credits(courses, overlaps=overlaps)
 
     def iterate_courses(self, courses: Collection[CourseInstance]) -> Iterator[Tuple[CourseInstance, ...]]:
         for n in range(0, int(self.at_most) + 1):
@@ -97,8 +97,10 @@ class Limit:
                 # logger.debug("limit/loop(%s..<%s)/combo: n=%s combo=%s", 0, self.at_most + 1, n, combo)
                 yield combo
 
-    def iterate_credits(self, courses: Collection[CourseInstance]) -> Iterator[Tuple[CourseInstance, ...]]:
-        if sum(c.credits for c in courses) <= self.at_most:
+    def iterate_credits(self, courses: Collection[CourseInstance], *, overlaps: bool = False) -> Iterator[Tuple[CourseInstance, ...]]:
+        # if another limit matches some of these courses as well, it may need
+        # us to leave some of them out even though they'd all fit in here
+        if not overlaps and sum(c.credits for c in courses) <= self.at_most:
             yield tuple(courses)
             return
 
@@ -167,7 +169,8 @@ class LimitSet:
         clause_counters: Dict = defaultdict(decimal.Decimal)
 
         for c in courses:
-            for limit in self.limits:
+            # a limit which is listed twice is still only one limit
+            for limit in set(self.limits):
                 if not limit.where.apply(c):
                     continue
 
@@ -232,9 +235,11 @@ class LimitSet:
 
         logger.debug("limit: unmatched items: %r", unmatched_items)
 
+        limits_overlap = len(all_matched_items) < sum(len(match_set) for match_set in matched_items.values())
+
         # we need to attach _a_ combo from each limit clause
         clause_iterators = [
-            partial(limit.iterate, match_set)
+            partial(limit.iterate, match_set, overlaps=limits_overlap)
             for limit, match_set in matched_items.items()
         ]
 
-- 
2.43.0


From ada31e283847d08bf23ce82f4cdbc44b77d50c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 16/50] fix: a course which an area limit leaves out does not
 crash the exceptions naming it

---
 dp/assertion_clause.py | 19 +++++--------------
 dp/context.py          |  8 ++++++++
 dp/rule/course.py      | 12 ++++++------
 dp/solution/query.py   |  4 ++--
 4 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index 958af4c..c33bc1d 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -199,28 +199,19 @@ class Assertion:
 
         inserted_clbids = []
         for insert in ctx.get_insert_exceptions(self.path):
-            matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
+            matched_course = ctx.inserted_course_by_clbid(insert.clbid, forced=insert.forced, path=self.path)
             logger.debug("inserted %r into assertion (at %s)", matched_course, self.path)
 
-            if insert.forced:
-                matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
+            if matched_course is not None:
                 if matched_course not in filtered_output:
                     filtered_output.append(matched_course)
                 inserted_clbids.append(matched_course.clbid)
-            else:
-                maybe_matched_course = ctx.find_course_by_clbid(insert.clbid)
-                if maybe_matched_course is not None:
-                    if maybe_matched_course not in filtered_output:
-                        filtered_output.append(maybe_matched_course)
-                    inserted_clbids.append(maybe_matched_course.clbid)
 
         for block in ctx.get_block_exceptions(self.path):
             logger.debug("excluded %s from %s", block.clbid, self.path)
-            matched_course = ctx.forced_course_by_clbid(block.clbid, path=self.path)
-            try:
-                filtered_output.remove(matched_course)
-            except ValueError:
-                pass
+            blocked_course = ctx.inserted_course_by_clbid(block.clbid, forced=False, path=self.path)
+            if blocked_course in filtered_output:
+                filtered_output.remove(blocked_course)
 
         result_status, calculated_result = self.evaluate(filtered_output)
 
diff --git a/dp/context.py b/dp/context.py
index b55e8e7..0b108d0 100644
--- a/dp/context.py
+++ b/dp/context.py
@@ -117,6 +117,14 @@ class RequirementContext:
             raise MissingClassLabIdException(f'attempted to use CLBID={clbid} at {list(path)}, but it was not found in the transcript')
         return match
 
+    def inserted_course_by_clbid(self, clbid: str, *, forced: bool, path: Sequence[str]) -> Optional[CourseInstance]:
+        match = self.find_course_by_clbid(clbid)
+        if not match and not forced and any(c.clbid == clbid for c in self.transcript_with_excluded_):
+            # the student did take it, but one of the area's limits keeps it
+            # out of this transcript
+            return None
+        return self.forced_course_by_clbid(clbid, path=path)
+
     def has_declared_area_code(self, code: str) -> bool:
         return any(code == c.code for c in self.areas)
 
diff --git a/dp/rule/course.py b/dp/rule/course.py
index f86733e..d241791 100644
--- a/dp/rule/course.py
+++ b/dp/rule/course.py
@@ -143,18 +143,18 @@ class CourseRule(Rule, BaseCourseRule):
         did_yield = False
 
         for insert in ctx.get_insert_exceptions(self.path):
-            matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
+            inserted_course = ctx.inserted_course_by_clbid(insert.clbid, forced=insert.forced, path=self.path)
 
-            if matched_course.clbid in self.excluded_clbids:
+            if inserted_course is None or inserted_course.clbid in self.excluded_clbids:
                 continue
 
             did_yield = True
             if insert.forced:
-                logger.debug('force-inserting %r into %s due to override', matched_course, self.path)
-                yield CourseSolution.from_rule(rule=self, course=matched_course, was_inserted=True, was_forced=True)
+                logger.debug('force-inserting %r into %s due to override', inserted_course, self.path)
+                yield CourseSolution.from_rule(rule=self, course=inserted_course, was_inserted=True, was_forced=True)
             else:
-                logger.debug('inserting %r into %s due to override', matched_course, self.path)
-                yield CourseSolution.from_rule(rule=self, course=matched_course, was_inserted=True, was_forced=False)
+                logger.debug('inserting %r into %s due to override', inserted_course, self.path)
+                yield CourseSolution.from_rule(rule=self, course=inserted_course, was_inserted=True, was_forced=False)
 
         # we ignore from_claimed here, because we check it again in
         # CourseSolution.audit; we cannot check it here because we don't
diff --git a/dp/solution/query.py b/dp/solution/query.py
index 6a84cbe..3bf3297 100644
--- a/dp/solution/query.py
+++ b/dp/solution/query.py
@@ -172,8 +172,8 @@ class QuerySolution(Solution, BaseQueryRule):
             output = [c for c in output if c.clbid not in self.excluded_clbids]
 
         for clbid in self.inserted:
-            matched_course = ctx.forced_course_by_clbid(clbid, path=self.path)
-            if matched_course not in output:
+            matched_course = ctx.inserted_course_by_clbid(clbid, forced=clbid in self.force_inserted, path=self.path)
+            if matched_course is not None and matched_course not in output:
                 output.append(matched_course)
 
         for course in output:
-- 
2.43.0


From 3dfb5e49f08a2c90a02a66b2bc50f0b4d9d4567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:01 +0000
Subject: [PATCH 17/50] fix: a query whose assertion is waived can leave the
 courses to other rules

---
 dp/rule/query.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dp/rule/query.py b/dp/rule/query.py
index e62b46e..3e33782 100644
--- a/dp/rule/query.py
+++ b/dp/rule/query.py
@@ -355,6 +355,21 @@ def flatten_assertions(it: Iterable[AnyAssertion]) -> Iterator[Assertion]:
 def iterate_item_set(item_set: Collection[Clausable], *, rule: QueryRule) -> Iterator[Tuple[Clausable, ...]]:
     assertions = list(flatten_assertions(rule.all_assertions()))
 
+    yield from iterate_item_set__for_assertions(item_set, assertions=assertions, rule=rule)
+
+    if rule.source is QuerySource.Courses and item_set and any(a.overridden for a in assertions):
+        # a waived assertion is happy with any number of items, so we also
+        # need to try leaving them to the other rules
+        for n in range(0, len(item_set) + 1):
+            yield from itertools.combinations(item_set, n)
+
+
+def iterate_item_set__for_assertions(
+    item_set: Collection[Clausable],
+    *,
+    assertions: Sequence[Assertion],
+    rule: QueryRule,
+) -> Iterator[Tuple[Clausable, ...]]:
     if rule.source is QuerySource.Courses:
         largest_count_assertion = find_largest_simple_count_assertion(assertions)
         if largest_count_assertion is not None:
@@ -410,6 +425,10 @@ def estimate_item_set(item_set: Collection[Clausable], *, rule: QueryRule) -> in
     assertions = list(flatten_assertions(rule.all_assertions()))
 
     if rule.source is QuerySource.Courses:
+        if item_set and any(a.overridden for a in assertions):
+            for n in range(0, len(item_set) + 1):
+                total += ncr(n=len(item_set), r=n)
+
         largest_count_assertion = find_largest_simple_count_assertion(assertions)
         if largest_count_assertion is not None:
             for n in largest_count_assertion.input_size_range(maximum=len(item_set)):
-- 
2.43.0


From a75c0b73dde9ec64721308bdd5cb8d97037c6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:53 +0000
Subject: [PATCH 18/50] fix: a block on the course of a proficiency rule is
 honoured

---
 dp/rule/proficiency.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dp/rule/proficiency.py b/dp/rule/proficiency.py
index 4c285c9..5f0a00a 100644
--- a/dp/rule/proficiency.py
+++ b/dp/rule/proficiency.py
@@ -4,6 +4,7 @@ import logging
 
 from ..base import Rule, BaseProficiencyRule
 from ..constants import Constants
+from ..exception import BlockException
 from ..solution.proficiency import ProficiencySolution
 from .course import CourseRule
 
@@ -51,6 +52,12 @@ class ProficiencyRule(Rule, BaseProficiencyRule):
             return self.course.get_required_courses(ctx=ctx)
         return tuple()
 
+    def apply_block_exception(self, to_block: BlockException) -> 'ProficiencyRule':
+        if not self.course:
+            return self
+
+        return attr.evolve(self, course=self.course.apply_block_exception(to_block))
+
     def solutions(self, *, ctx: 'RequirementContext', depth: Optional[int] = None) -> Iterator[ProficiencySolution]:
         if ctx.get_waive_exception(self.path):
             logger.debug("forced override on %s", self.path)
-- 
2.43.0


From 481425d0159ab702ecec97251fea7c8be08e826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 19/50] fix: a proficiency's course may be any of the matching
 ones, not just the first

---
 dp/rule/proficiency.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dp/rule/proficiency.py b/dp/rule/proficiency.py
index 5f0a00a..d0e9615 100644
--- a/dp/rule/proficiency.py
+++ b/dp/rule/proficiency.py
@@ -65,9 +65,12 @@ class ProficiencyRule(Rule, BaseProficiencyRule):
             return
 
         logger.debug('%s reference to proficiency "%s"', self.path, self.proficiency)
-        course_solution = next(self.course.solutions(ctx=ctx)) if self.course else None
+        if not self.course:
+            yield ProficiencySolution.from_rule(rule=self, course_solution=None)
+            return
 
-        yield ProficiencySolution.from_rule(rule=self, course_solution=course_solution)
+        for course_solution in self.course.solutions(ctx=ctx):
+            yield ProficiencySolution.from_rule(rule=self, course_solution=course_solution)
 
     def estimate(self, *, ctx: 'RequirementContext', depth: Optional[int] = None) -> int:
         return 1
-- 
2.43.0


From e57b64e2c417aab88c9088bcbe75068c788ad4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:44 +0000
Subject: [PATCH 20/50] fix: an $if assertion which does not apply asks nothing

---
 dp/assertion_clause.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index c33bc1d..dfa3c14 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -348,7 +348,8 @@ class ConditionalAssertion:
         elif self.condition.result is False and self.when_false:
             return self.when_false.status()
         else:
-            return ResultStatus.Empty
+            # nothing is asked of this student
+            return ResultStatus.Done
 
     def rank(self) -> Tuple[Decimal, Decimal]:
         if self.condition.result is True:
@@ -356,7 +357,7 @@ class ConditionalAssertion:
         elif self.condition.result is False and self.when_false:
             return self.when_false.rank()
         else:
-            return (ZERO_POINT_OH, ONE_POINT_OH)
+            return (ONE_POINT_OH, ONE_POINT_OH)
 
     def max_expected(self) -> Decimal:
         if self.when_false:
-- 
2.43.0


From db9a58a88551e2e5c75eb17d4d79b5640fc4bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:08 +0000
Subject: [PATCH 21/50] fix: a bound which changes reduce below zero does not
 crash the audit

---
 dp/assertion_clause.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index dfa3c14..e42cf06 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -728,6 +728,10 @@ def input_size_range(assertion: Assertion, maximum: int) -> Iterator[int]:
     if assertion.expected != expected:
         raise TypeError(f'cannot find a range of values for a non-integer clause: {type(assertion.expected)}')
 
+    # an expected value may be changed to less than nothing, a size may not
+    if expected < 0 and operator not in (Operator.LessThan, Operator.LessThanOrEqualTo):
+        expected = 0 if operator is not Operator.GreaterThan else -1
+
     # "exactly n" is only about the size of the input when it counts all of it
     counts_everything = assertion.key == 'count(courses)' and assertion.where is None
 
-- 
2.43.0


From 1b4162745086be594aa39c8b97d56390c66fcf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:29 +0000
Subject: [PATCH 22/50] fix: a query of which nothing is asked can leave the
 courses to other rules

---
 dp/rule/query.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dp/rule/query.py b/dp/rule/query.py
index 3e33782..1f4f43e 100644
--- a/dp/rule/query.py
+++ b/dp/rule/query.py
@@ -357,6 +357,10 @@ def iterate_item_set(item_set: Collection[Clausable], *, rule: QueryRule) -> Ite
 
     yield from iterate_item_set__for_assertions(item_set, assertions=assertions, rule=rule)
 
+    if rule.source is QuerySource.Courses and item_set and not assertions:
+        # nothing is asked of this student, so nothing needs to be used either
+        yield tuple()
+
     if rule.source is QuerySource.Courses and item_set and any(a.overridden for a in assertions):
         # a waived assertion is happy with any number of items, so we also
         # need to try leaving them to the other rules
-- 
2.43.0


From 41d356ec2ff8be1275c7513e2a665f71cafe7845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:36 +0000
Subject: [PATCH 23/50] fix: --print-all and --print-only print the solution
 which ends the audit

---
 dp/audit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dp/audit.py b/dp/audit.py
index 51b3f80..d8ce00e 100644
--- a/dp/audit.py
+++ b/dp/audit.py
@@ -113,7 +113,9 @@ def audit(*, area: AreaOfStudy, student: Student, args: Optional[Arguments] = No
         # if the current solution is OK, then store it, and end the loop
         if status in WAIVED_AND_DONE:
             best_sol, best_rank, best_i = result, result_rank, total_count
-            break
+            # (if it was asked for, then print it first)
+            if not args.print_all and total_count not in args.print_only:
+                break
 
         if audit_count % args.progress_every == 0:
             elapsed_ms = ms_since(start)
@@ -142,6 +144,9 @@ def audit(*, area: AreaOfStudy, student: Student, args: Optional[Arguments] = No
                 version=best_sol.version,
             )
 
+        if status in WAIVED_AND_DONE:
+            break
+
         if args.stop_after is not None and audit_count >= args.stop_after:
             break
 
-- 
2.43.0


From 5051e7db00950d96c7e096ecb05d542a1f606080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:13 +0000
Subject: [PATCH 24/50] fix: the common major requirements see the claimed
 courses in transcript order, not in hash order

---
 dp/area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/area.py b/dp/area.py
index 13a72ee..216be30 100644
--- a/dp/area.py
+++ b/dp/area.py
@@ -316,7 +316,7 @@ class AreaSolution(AreaOfStudy):
 
         fresh_context = self.context.with_empty_claims()
         whole_context = fresh_context.with_transcript(fresh_context.transcript_with_excluded())
-        claimed_context = fresh_context.with_transcript(claimed, forced=exceptions)
+        claimed_context = fresh_context.with_transcript(sorted(claimed, key=lambda c: c.sort_order()), forced=exceptions)
 
         c_or_better = find_best_solution(rule=self.common_rules[0], ctx=claimed_context)
         assert c_or_better is not None, TypeError('no solutions found for c_or_better rule')
-- 
2.43.0


From a038ef5d4e4498b7905192128e461456cf7a2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:53 +0000
Subject: [PATCH 25/50] fix: a major is not done before its common requirements
 are, whatever its top rule

---
 dp/area.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dp/area.py b/dp/area.py
index 216be30..f774d33 100644
--- a/dp/area.py
+++ b/dp/area.py
@@ -19,7 +19,7 @@ from .result.count import CountResult
 from .result.requirement import RequirementResult
 from .lib import grade_point_average
 from .solve import find_best_solution
-from .status import ResultStatus, WAIVED_AND_DONE
+from .status import ResultStatus, PassingStatuses, WAIVED_AND_DONE
 from .claim import Claim
 
 logger = logging.getLogger(__name__)
@@ -395,6 +395,14 @@ class AreaResult(AreaOfStudy, Result):
             return ResultStatus.Waived
 
         s = self.result.status()
+
+        # A major which only asks for some of its parts still asks for all of
+        # the common requirements, which `audit` puts at the end of its items.
+        if self.kind == 'major' and s in PassingStatuses:
+            assert isinstance(self.result, CountResult)
+            if self.result.items[-1].status() not in PassingStatuses:
+                s = ResultStatus.NeedsMoreItems
+
         logger.debug("computing status: end")
         return s
 
-- 
2.43.0


From bdbd528e6fb0aceb9e19eb11e04c630ed490382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:00 +0000
Subject: [PATCH 26/50] fix: an emphasis may use any rule, and all of the
 requirements its result lists

---
 dp/rule/count.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dp/rule/count.py b/dp/rule/count.py
index dc9ae03..c256631 100644
--- a/dp/rule/count.py
+++ b/dp/rule/count.py
@@ -85,16 +85,13 @@ class CountRule(Rule, BaseCountRule):
             # short-circuiting if there's a post-audit clause on the emphasis.
 
             is_all_rule = 'all' in emph['result']
-            has_requirements = 'requirements' in emph or any('name' in rule for rule in emph['result']['all'])
+            has_requirements = is_all_rule and ('requirements' in emph or any('name' in rule for rule in emph['result']['all']))
             no_post_audit = 'audit' not in emph['result']
             all_rules_are_requirements = is_all_rule and all('requirement' in r or 'name' in r for r in emph['result']['all'])
 
             if is_all_rule and has_requirements and no_post_audit and all_rules_are_requirements:
                 logger.debug(f"flattening emphasis {emphasis_key}")
-                if 'requirements' in emph:
-                    reqs = emph['requirements']
-                else:
-                    reqs = {r['name']: r for r in emph['result']['all']}
+                reqs = {**emph.get('requirements', {}), **{r['name']: r for r in emph['result']['all'] if 'name' in r}}
 
                 for emph_req_name, emph_req_body in reqs.items():
                     logger.debug(f"flattening emphasis {emph_req_name}")
-- 
2.43.0


From fad752bae5c7bebb4fe8be7b456e05d5f96cad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:18 +0000
Subject: [PATCH 27/50] fix: a template finds labs, flacs and discussions in
 the transcript

---
 dp/data/student.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dp/data/student.py b/dp/data/student.py
index 2b824b6..53e1d77 100644
--- a/dp/data/student.py
+++ b/dp/data/student.py
@@ -221,8 +221,11 @@ def parse_identified_course(course_label: str, *, match_groups: Dict, transcript
     term: str = match_groups.get('term', '') or ''
     institution: str = match_groups.get('inst', '') or ''
 
+    # labs, flacs, and discussions have their sub-type in their identity
+    suffix = f".{sub_type}" if sub_type in ('L', 'F', 'D') else ''
+
     iterable = filter(course_filter(
-        course=f"{subject} {num}" if subject else None,
+        course=f"{subject} {num}{suffix}" if subject else None,
         section=section or None,
         sub_type=SUB_TYPE_LOOKUP.get(sub_type, None),
         institution=institution or None,
-- 
2.43.0


From 703d3ef2e0d051f5aa2fbf127d5b96d066fb352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:57 +0000
Subject: [PATCH 28/50] fix: a declared emphasis is asked for even if the
 area's top rule is a choice

---
 dp/area.py       | 10 +++++-----
 dp/rule/count.py | 12 +++++++++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/dp/area.py b/dp/area.py
index f774d33..ebda18c 100644
--- a/dp/area.py
+++ b/dp/area.py
@@ -396,11 +396,11 @@ class AreaResult(AreaOfStudy, Result):
 
         s = self.result.status()
 
-        # A major which only asks for some of its parts still asks for all of
-        # the common requirements, which `audit` puts at the end of its items.
-        if self.kind == 'major' and s in PassingStatuses:
-            assert isinstance(self.result, CountResult)
-            if self.result.items[-1].status() not in PassingStatuses:
+        # An area which only asks for some of its parts still asks for all of
+        # the declared emphases, and a major for the common requirements, too.
+        if s in PassingStatuses and isinstance(self.result, CountResult):
+            always_required = (item for item in self.result.items if item.path[1:2] == ('%Common Requirements',) or item.path[2:3] == ('.emphasis',))
+            if any(item.status() not in PassingStatuses for item in always_required):
                 s = ResultStatus.NeedsMoreItems
 
         logger.debug("computing status: end")
diff --git a/dp/rule/count.py b/dp/rule/count.py
index c256631..68c128c 100644
--- a/dp/rule/count.py
+++ b/dp/rule/count.py
@@ -104,6 +104,8 @@ class CountRule(Rule, BaseCountRule):
                 children_with_emphases[emphasis_key] = emph
                 items.append({"requirement": emphasis_key, "__emphasis": emph['name']})
 
+        emphasis_count = sum(1 for item in items if '__emphasis' in item)
+
         did_insert = False
         for insert in ctx.get_insert_exceptions(tuple(path)):
             logger.debug("%s inserting new choice: %s", path, insert)
@@ -157,16 +159,20 @@ class CountRule(Rule, BaseCountRule):
         elif "both" in data:
             count = 2
             if did_insert:
-                count = len(loaded_items)
+                count = len(loaded_items) - emphasis_count
             else:
-                assert len(loaded_items) == 2, Exception(f"expected two items in both; found {len(loaded_items)} items")
+                assert len(loaded_items) - emphasis_count == 2, Exception(f"expected two items in both; found {len(loaded_items)} items")
         elif "either" in data:
             count = 1
             if not did_insert:
-                assert len(loaded_items) == 2, Exception(f"expected two items in either; found {len(loaded_items)} items")
+                assert len(loaded_items) - emphasis_count == 2, Exception(f"expected two items in either; found {len(loaded_items)} items")
         else:
             count = int(data["count"])
 
+        # a declared emphasis is asked for in addition to what the area picks
+        if "all" not in data and data.get("count", None) != "all":
+            count += emphasis_count
+
         allowed_keys = {'of', 'all', 'count', 'any', 'either', 'both', 'at_most', 'audit'}
         given_keys = set(data.keys())
         assert given_keys.difference(allowed_keys) == set(), f"expected set {given_keys.difference(allowed_keys)} to be empty (at {path})"
-- 
2.43.0


From 89a0cd71d947fa1f074b2bf01a877084c5722bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:10 +0000
Subject: [PATCH 29/50] fix: a worker hears of the items which are queued while
 it starts, or while it is busy

---
 dp/server/worker.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dp/server/worker.py b/dp/server/worker.py
index e414f0b..080fdcf 100644
--- a/dp/server/worker.py
+++ b/dp/server/worker.py
@@ -29,21 +29,25 @@ def worker(*, area_root: pathlib.Path) -> None:
     logger.info('connected')
 
     with conn.cursor() as curs:
-        # process any already-existing items
-        process_queue(curs=curs, area_root=area_root)
-
-    with conn.cursor() as curs:
+        # start listening before processing the queue, so that we also hear of
+        # the items which are queued in between
         channel = 'dp_queue_update'
         curs.execute(f"LISTEN {channel};")
         logger.info(f"LISTEN {channel};")
 
+        # process any already-existing items
+        process_queue(curs=curs, area_root=area_root)
+
         while True:
             # this was taken from the psycopg2 documentation. I believe that
             # the output is the items from the input that have data, and that
             # the timeout is how long it will wait for there to be data... and
             # that if data shows up beforehand, it will return as soon as
             # there is data.
-            if select.select([conn], [], [], 5) == ([], [], []):
+            #
+            # (notifications which arrived during another command have already
+            # been read into conn.notifies, and select() won't report them)
+            if not conn.notifies and select.select([conn], [], [], 5) == ([], [], []):
                 continue
 
             conn.poll()
-- 
2.43.0


From 435adde2ae2b710e37588a608aafc34a14f94253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:10 +0000
Subject: [PATCH 30/50] fix: a result that cannot be stored costs its own queue
 item, not the transaction that removes it

---
 dp/server/audit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dp/server/audit.py b/dp/server/audit.py
index 4ec8785..78257b5 100644
--- a/dp/server/audit.py
+++ b/dp/server/audit.py
@@ -28,6 +28,12 @@ def audit(
     stnum = student['stnum']
 
     logger.info("auditing #%s against %s %s", stnum, area_catalog, area_code)
+
+    # if anything goes wrong, then we only want to undo what we have done here;
+    # without the savepoint, the failed statement would abort the caller's
+    # entire transaction, and the queue item would come back and run again.
+    curs.execute('SAVEPOINT store_result;')
+
     try:
         for msg in run(args, area_spec=area_spec, student=student):
             if isinstance(msg, NoAuditsCompletedMsg):
@@ -157,6 +163,7 @@ def audit(
                 logger.critical('unknown message %s', msg)
 
     except Exception as ex:
+        curs.execute('ROLLBACK TO SAVEPOINT store_result;')
         logger.error("error with student #%s, catalog %s, area %s: %s", stnum, area_catalog, area_code, ex)
 
     return None
-- 
2.43.0


From 5a53544f7404922ff32d4bdf7fb9733cc06d5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 31/50] fix: clearing expired results keeps the active one,
 even if a newer audit is link-only

---
 dp/server/clear_expired.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dp/server/clear_expired.py b/dp/server/clear_expired.py
index 8603f9c..c129c69 100644
--- a/dp/server/clear_expired.py
+++ b/dp/server/clear_expired.py
@@ -13,12 +13,14 @@ def main() -> None:
     conn = psycopg2.connect('', application_name='degreepath-cli')
     conn.set_isolation_level(psycopg2.extensions.ISOLATION_LEVEL_AUTOCOMMIT)
 
-    # ensure that we only delete audits that aren't the most recent audit
+    # ensure that we only delete audits that aren't the most recent audit, and
+    # aren't the active one (a newer link-only audit doesn't replace that)
     with conn.cursor() as curs:
         curs.execute("""
             DELETE
             FROM result r
             WHERE expires_at <= CURRENT_TIMESTAMP
+                AND is_active = false
                 AND ts < (
                     SELECT max(ts)
                     FROM result i
-- 
2.43.0


From c010889d08fe117f6a4e62da06f502d426ff4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:54 +0000
Subject: [PATCH 32/50] fix: dp.bin.expand takes a student file and an area
 code, as it says

---
 dp/bin/expand.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dp/bin/expand.py b/dp/bin/expand.py
index 3369bca..bad8d41 100644
--- a/dp/bin/expand.py
+++ b/dp/bin/expand.py
@@ -19,12 +19,10 @@ def cli() -> None:
 
     if args.student == '-':
         student_files = [line.strip() for line in sys.stdin.readlines() if line.strip()]
-        area_code = args.area_code
     else:
-        all_files = [args.student, *args.area_codes]
-        student_files = [f for f in all_files if f.endswith('.json')]
-        area_codes = [f for f in all_files if not f.endswith('.json')]
-        area_code = area_codes[0]
+        student_files = [args.student]
+
+    area_code = args.area_code
 
     root = os.getenv('AREA_ROOT')
     assert root, ValueError('the environment variable AREA_ROOT must be set to a path')
-- 
2.43.0


From fdf4c9e077ec750a4078d55dabc55232db44f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:54 +0000
Subject: [PATCH 33/50] fix: a student whose audits cannot be queued does not
 take the other students' audits along

---
 dp/server/batch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dp/server/batch.py b/dp/server/batch.py
index 193821b..7424ba9 100644
--- a/dp/server/batch.py
+++ b/dp/server/batch.py
@@ -3,6 +3,7 @@ from typing import Optional, Set, Dict, Tuple, cast
 import argparse
 import json
 import os
+import threading
 
 import tqdm  # type: ignore
 import urllib3  # type: ignore
@@ -19,6 +20,9 @@ SINGLE_URL = os.getenv("DP_SINGLE_URL")
 
 Item = Tuple[str, str]
 
+# all of the threads share one connection, and thus one transaction
+queue_lock = threading.Lock()
+
 
 def get_student(student_id: str) -> Tuple[Dict, str]:
     r = http.request("GET", SINGLE_URL, fields={"stnum": student_id})
@@ -39,7 +43,9 @@ def fetch_and_queue(
 
     count = 0
 
-    with conn.cursor() as curs:
+    # commit this student's items, or, if there's an error, roll them back so
+    # that the connection can still be used for the other students
+    with queue_lock, conn, conn.cursor() as curs:
         for stnum, catalog, code in expand_student(student=parsed_student):
             # skip already-queued items in this loop to avoid postgres deadlocks
             if (stnum, code) in queued_items:
@@ -60,8 +66,6 @@ def fetch_and_queue(
                 VALUES (1, %(stnum)s, %(catalog)s, %(code)s, cast(%(data)s as jsonb), %(run)s)
             """, {"stnum": stnum, "catalog": catalog, "code": code, "data": unparsed_json, "run": run})
 
-        conn.commit()
-
     return count
 
 
-- 
2.43.0


From 418cbd5bf804e5ca157adaded796e8fde0ba1d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:13 +0000
Subject: [PATCH 34/50] fix: lazy_product of an empty iterable is empty, as
 documented

---
 dp/lazy_product.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dp/lazy_product.py b/dp/lazy_product.py
index 4847ab5..bbf2847 100644
--- a/dp/lazy_product.py
+++ b/dp/lazy_product.py
@@ -61,7 +61,12 @@ def lazy_product(*iter_funcs: Callable[[], Iterable], repeat: int = 1) -> Iterat
             return itertools.product(*(f() for f in iter_funcs), **kwargs)
     """
     iterables = [iter(f()) for _ in range(repeat) for f in iter_funcs]
-    values = [next(i) for i in iterables]
+
+    try:
+        values = [next(i) for i in iterables]
+    except StopIteration:
+        # there is nothing to combine with an empty iterable
+        return
 
     while True:
         yield tuple(values)
-- 
2.43.0


From 6a3e6d351ae9f8109d80293073c25e536145ce13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:36:49 +0000
Subject: [PATCH 35/50] fix: a report can show a $not filter

---
 dp/stringify_v3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dp/stringify_v3.py b/dp/stringify_v3.py
index ffcdf47..4a32d33 100644
--- a/dp/stringify_v3.py
+++ b/dp/stringify_v3.py
@@ -405,6 +405,9 @@ def str_predicate(clause: Dict[str, Any], *, nested: bool = False, raw_only: boo
         else:
             return f'({text})'
 
+    elif clause["type"] == "pred--not":
+        return f'not ({str_predicate(clause["predicate"], raw_only=raw_only)})'
+
     elif clause["type"] == "pred--if":
         cond = str_expression(clause['condition'])
         then = str_predicate(clause['when_true'])
-- 
2.43.0


From c0f7af18cf62bcda51d3e2dd61bf3a04b5b778fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:36:50 +0000
Subject: [PATCH 36/50] fix: a report can show a proficiency which has no
 course

---
 dp/stringify_v3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/stringify_v3.py b/dp/stringify_v3.py
index 4a32d33..adf6be5 100644
--- a/dp/stringify_v3.py
+++ b/dp/stringify_v3.py
@@ -224,7 +224,7 @@ def print_proficiency(
 
     yield f"{prefix}{status} Proficiency={rule['proficiency']}"
 
-    if rule['course']['status'] in WAIVED_AND_DONE_VALUES:
+    if rule['course'] and rule['course']['status'] in WAIVED_AND_DONE_VALUES:
         yield from print_course(rule['course'], transcript, indent + 4, show_paths, show_ranks)
 
 
-- 
2.43.0


From fb948f78a6e9ffa4f9803150732a57e963878a4e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:36:50 +0000
Subject: [PATCH 37/50] fix: a setting in .env may contain an equals sign

---
 dp/dotenv/dotenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/dotenv/dotenv.py b/dp/dotenv/dotenv.py
index dd3ee05..aac7359 100644
--- a/dp/dotenv/dotenv.py
+++ b/dp/dotenv/dotenv.py
@@ -17,7 +17,7 @@ def read(*, filepath: Union[Path, str]) -> Dict:
                 if not line:
                     continue
 
-                key, value = line.split('=')
+                key, value = line.split('=', 1)
                 key = key.strip()
                 value = value.strip()
 
-- 
2.43.0


From 1b92db1947735ccc47cc7ec8c293f7e804bfd543 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:36:50 +0000
Subject: [PATCH 38/50] fix: no time at all is 0ms

---
 dp/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/ms.py b/dp/ms.py
index 5504211..a8e4b1e 100644
--- a/dp/ms.py
+++ b/dp/ms.py
@@ -128,7 +128,7 @@ def pretty_ms(
         add(decimal.Decimal(sec_str), "second", "s", sec_str)
 
     if not ret:
-        return "0" + " milliseconds" if verbose else "ms"
+        return "0" + (" milliseconds" if verbose else "ms")
 
     if compact:
         return "~" + ret[0]
-- 
2.43.0


From 3073aa14cd5f776b332816f8c8d4476728b261ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:36:50 +0000
Subject: [PATCH 39/50] fix: --print-path finds a requirement within another
 requirement

---
 dp/stringify_v3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dp/stringify_v3.py b/dp/stringify_v3.py
index adf6be5..c8626f7 100644
--- a/dp/stringify_v3.py
+++ b/dp/stringify_v3.py
@@ -339,7 +339,7 @@ def print_requirement(
     show_ranks: bool = True,
     only_path: Optional[List[str]] = None,
 ) -> Iterator[str]:
-    if only_path and rule['path'][:len(only_path)] != only_path:
+    if only_path and rule['path'][:len(only_path)] != only_path[:len(rule['path'])]:
         return
 
     if show_paths:
@@ -378,11 +378,11 @@ def print_conditional(
     yield f"{prefix}If {str_expression(rule['condition'], nested=False)}:"
 
     yield f"{prefix}Then:"
-    yield from print_result(rule['when_true'], transcript, indent + 4, show_paths, show_ranks)
+    yield from print_result(rule['when_true'], transcript, indent + 4, show_paths, show_ranks, only_path=only_path)
 
     if rule.get('when_false', None):
         yield f"{prefix}Otherwise:"
-        yield from print_result(rule['when_false'], transcript, indent + 4, show_paths, show_ranks)
+        yield from print_result(rule['when_false'], transcript, indent + 4, show_paths, show_ranks, only_path=only_path)
     else:
         yield f"{prefix}Otherwise, do nothing"
 
-- 
2.43.0


From 9b20749262a0621f2675c1f7d6fb82b966152f8a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:36:56 +0000
Subject: [PATCH 40/50] fix: dp.bin.print takes the student file first, and
 prints what dp prints

---
 dp/bin/print.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dp/bin/print.py b/dp/bin/print.py
index 832b985..44cc3ca 100644
--- a/dp/bin/print.py
+++ b/dp/bin/print.py
@@ -12,8 +12,8 @@ from dp import load_course
 
 def main() -> None:
     parser = argparse.ArgumentParser()
-    parser.add_argument("json_output", action='store')
     parser.add_argument("student_file", action='store')
+    parser.add_argument("json_output", action='store')
     args = parser.parse_args()
 
     with open(args.json_output, 'r', encoding="utf-8") as infile:
@@ -24,7 +24,7 @@ def main() -> None:
 
     transcript = {
         c.clbid: c
-        for c in (load_course(row, overrides=[], credits_overrides={}) for row in student["courses"])
+        for c in (load_course(row, overrides=[], credits_overrides={}, current_term=student.get('current_term')) for row in student["courses"])
     }
 
     summary = "\n".join(print_result(data, transcript=transcript))
-- 
2.43.0


From 1d5a7cb69156bbf4ea423b619e994705cdd3fdda Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:38:40 +0000
Subject: [PATCH 41/50] fix: --claimed lists courses of which only some have a
 section

---
 dp/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/__main__.py b/dp/__main__.py
index 2aa23df..9f8c0aa 100644
--- a/dp/__main__.py
+++ b/dp/__main__.py
@@ -130,7 +130,7 @@ def result_str(
         return f"GPA: {msg.result.gpa()}"
 
     if claimed:
-        claimed_courses = sorted((c.course for c in msg.result.claims()), key=lambda c: [c.subject, c.number, c.year, c.term, c.section])
+        claimed_courses = sorted((c.course for c in msg.result.claims()), key=lambda c: [c.subject, c.number, c.year, c.term, c.section or ''])
         return ','.join(course.pretty() for course in claimed_courses)
 
     dict_result = msg.result.to_dict()
-- 
2.43.0


From 8ebf2a30d4ed3c6536d2a35327ab8f7da2baa4dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:11:31 +0000
Subject: [PATCH 42/50] fix: a requirement which only a branch not taken refers
 to is not unused

Referring to a requirement's children from an $if (or from a rule hidden by
$hide-when-false) made the area file fail to load for every student who did
not take that branch.
---
 dp/rule/requirement.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dp/rule/requirement.py b/dp/rule/requirement.py
index 50d859b..a5684d2 100644
--- a/dp/rule/requirement.py
+++ b/dp/rule/requirement.py
@@ -17,6 +17,22 @@ if TYPE_CHECKING:  # pragma: no cover
 logger = logging.getLogger(__name__)
 
 
+def find_requirement_names(data: Any) -> Iterator[str]:
+    """Finds all of the requirements that a rule refers to, including the ones in branches that this student does not take"""
+    if isinstance(data, list):
+        for item in data:
+            yield from find_requirement_names(item)
+    elif isinstance(data, Mapping):
+        if "requirement" in data:
+            yield data["requirement"]
+        elif isinstance(data.get("name", None), str):
+            # an inline requirement can only refer to its own requirements
+            yield data["name"]
+        else:
+            for item in data.values():
+                yield from find_requirement_names(item)
+
+
 @attr.s(cache_hash=True, slots=True, kw_only=True, frozen=True, auto_attribs=True)
 class RequirementRule(Rule, BaseRequirementRule):
     # reason: type narrowing
@@ -47,7 +63,7 @@ class RequirementRule(Rule, BaseRequirementRule):
             result = load_rule(data=result, c=c, children=data.get("requirements", {}), path=path, ctx=ctx)
 
             all_child_names = set(data.get("requirements", {}).keys())
-            used_child_names = set(result.get_requirement_names())
+            used_child_names = set(find_requirement_names(data["result"]))
             unused_child_names = all_child_names.difference(used_child_names)
             assert unused_child_names == set(), f"expected {unused_child_names} to be empty"
 
-- 
2.43.0


From d183b8ca3d96273e28ff42b03c400c6a88978744 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:15:32 +0000
Subject: [PATCH 43/50] fix: dp.bin.validate exits with an error when an area
 file is not valid

---
 dp/bin/validate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dp/bin/validate.py b/dp/bin/validate.py
index e45b8e4..e244cdc 100644
--- a/dp/bin/validate.py
+++ b/dp/bin/validate.py
@@ -20,6 +20,7 @@ def main() -> int:
     args = parser.parse_args()
 
     longest = 0
+    exit_code = 0
     for f in args.areas:
         longest = max(longest, len(f))
 
@@ -36,6 +37,7 @@ def main() -> int:
             AreaOfStudy.load(specification=area_def, c=c)
 
         except Exception:
+            exit_code = 1
             print('', file=sys.stderr)
             # print(ex, file=sys.stderr)
             traceback.print_exc(file=sys.stderr)
@@ -44,7 +46,7 @@ def main() -> int:
 
     print()
 
-    return 0
+    return exit_code
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 5c27c59ebe4a314c191964c762640d5b48b6a5e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:15:32 +0000
Subject: [PATCH 44/50] fix: a proficiency rule with an unknown proficiency is
 refused when it is loaded

It used to load, and to fail the audit of the students who got that far.
---
 dp/rule/proficiency.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dp/rule/proficiency.py b/dp/rule/proficiency.py
index d0e9615..2aac581 100644
--- a/dp/rule/proficiency.py
+++ b/dp/rule/proficiency.py
@@ -4,6 +4,7 @@ import logging
 
 from ..base import Rule, BaseProficiencyRule
 from ..constants import Constants
+from ..data.music import MusicProficiencies
 from ..exception import BlockException
 from ..solution.proficiency import ProficiencySolution
 from .course import CourseRule
@@ -37,6 +38,9 @@ class ProficiencyRule(Rule, BaseProficiencyRule):
         given_keys = set(data.keys())
         assert given_keys.difference(allowed_keys) == set(), f"expected set {given_keys.difference(allowed_keys)} to be empty (at {path})"
 
+        # check that we know of this proficiency, instead of failing during the audit
+        MusicProficiencies().status(of=proficiency, exam_only=False)
+
         return ProficiencyRule(
             proficiency=proficiency,
             course=CourseRule.load(data['course'], c=c, path=path) if 'course' in data else None,
-- 
2.43.0


From 82c677500d8fb44186b7031ba35287f54617491e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 45/50] fix: dp.bin.discover also looks into conditional rules
 and the audit clauses of groups

---
 dp/bin/discover.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dp/bin/discover.py b/dp/bin/discover.py
index a8563ea..3509e04 100644
--- a/dp/bin/discover.py
+++ b/dp/bin/discover.py
@@ -17,6 +17,7 @@ from dp import AreaOfStudy, Constants
 from dp.base import Rule
 from dp.predicate_clause import PredicateCompoundAnd, PredicateCompoundOr, PredicateNot, Predicate, ConditionalPredicate, SomePredicate
 from dp.assertion_clause import Assertion, ConditionalAssertion, AnyAssertion, DynamicConditionalAssertion
+from dp.rule.conditional import ConditionalRule
 from dp.rule.course import CourseRule
 from dp.rule.count import CountRule
 from dp.rule.proficiency import ProficiencyRule
@@ -118,6 +119,11 @@ def find_courses_in_rule(rule: Rule) -> Iterator[str]:
 
         yield from find_courses_in_rule(rule.result)
 
+    elif isinstance(rule, ConditionalRule):
+        yield from find_courses_in_rule(rule.when_true)
+        if rule.when_false:
+            yield from find_courses_in_rule(rule.when_false)
+
 
 def insert_to_db(*, courses: Set[CourseReference], buckets: Set[BucketReference]) -> None:
     if not psycopg2:
@@ -209,12 +215,20 @@ def find_buckets_in_rule(rule: Rule) -> Iterator[str]:
         for sub_rule in rule.items:
             yield from find_buckets_in_rule(sub_rule)
 
+        for audit_clause in rule.audit_clauses:
+            yield from find_buckets_in_assertion(audit_clause)
+
     elif isinstance(rule, RequirementRule):
         if not rule.result:
             return
 
         yield from find_buckets_in_rule(rule.result)
 
+    elif isinstance(rule, ConditionalRule):
+        yield from find_buckets_in_rule(rule.when_true)
+        if rule.when_false:
+            yield from find_buckets_in_rule(rule.when_false)
+
 
 def find_buckets_in_assertion(assertion: AnyAssertion) -> Iterator[str]:
     if isinstance(assertion, Assertion):
-- 
2.43.0


From e73cd226414258635f97e41bf7aa9515f2d4b81e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 46/50] fix: dp.bin.discover keeps the other crsid references
 of an area when it deletes an outdated one

All crsid references have an empty course, so deleting one by its course
deleted all of them.  They were also printed as an empty course.
---
 dp/bin/discover.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dp/bin/discover.py b/dp/bin/discover.py
index 3509e04..5143a40 100644
--- a/dp/bin/discover.py
+++ b/dp/bin/discover.py
@@ -76,7 +76,7 @@ def main() -> None:
         print('inserted')
     else:
         for course_ref in sorted(courses):
-            print(f"course: {course_ref.code}:{course_ref.course}")
+            print(f"course: {course_ref.code}:{course_ref.course or course_ref.crsid}")
 
         for bucket_ref in sorted(buckets):
             print(f"{bucket_ref.code}:{bucket_ref.catalog}:{bucket_ref.bucket}")
@@ -156,7 +156,7 @@ def insert_course_refs(conn: Any, courses: Set[CourseReference]) -> None:
 
             if ref not in courses:
                 print('deleting', ref)
-                if ref.course is not None:
+                if ref.course:
                     curs.execute('''
                         DELETE FROM map_constant_area
                         WHERE area_code = %(code)s
-- 
2.43.0


From 8b08be0af0e3d1f26e78bd7b03392461671f8968 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 47/50] fix: dp.bin.index works without a ~/2019-* folder, and
 --clean without an index

---
 dp/bin/index.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dp/bin/index.py b/dp/bin/index.py
index 2e24afc..5f127c2 100755
--- a/dp/bin/index.py
+++ b/dp/bin/index.py
@@ -18,10 +18,10 @@ import sqlite3
 
 
 def main() -> int:
-    default_dir = os.getenv('DP_STUDENT_DIR', default=max(glob.iglob(os.path.expanduser('~/2019-*'))))
+    default_dir = os.getenv('DP_STUDENT_DIR', default=max(glob.iglob(os.path.expanduser('~/2019-*')), default=None))
 
     parser = argparse.ArgumentParser()
-    parser.add_argument('--dir', default=default_dir)
+    parser.add_argument('--dir', default=default_dir, required=default_dir is None)
     parser.add_argument('--clean', action='store_true')
     parser.add_argument('--more', action='store_true')
     parser.add_argument('--print', action='store_true')
@@ -35,7 +35,7 @@ def main() -> int:
         print(index_path)
         return 0
 
-    if args.clean:
+    if args.clean and os.path.exists(index_path):
         os.unlink(index_path)
 
     with sqlite3.connect(index_path) as conn:
-- 
2.43.0


From 2007c29f53c2d2b1feb109acd3ba63fe233aa478 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 48/50] fix: dp.bin.index reports its progress on stderr, so
 that its output can be piped to dp.bin.batch

---
 dp/bin/index.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dp/bin/index.py b/dp/bin/index.py
index 5f127c2..4237c5e 100755
--- a/dp/bin/index.py
+++ b/dp/bin/index.py
@@ -15,6 +15,7 @@ import json
 import glob
 import os
 import sqlite3
+import sys
 
 
 def main() -> int:
@@ -63,9 +64,9 @@ def main() -> int:
 
         for i, stnum in enumerate(to_index):
             if i % 100 == 0:
-                print(f'\rindexing {i}/{len(to_index)} items', end='')
+                print(f'\rindexing {i}/{len(to_index)} items', end='', file=sys.stderr)
             elif i + 1 == len(to_index):
-                print(f'\rindexing {i + 1}/{len(to_index)} items', end='')
+                print(f'\rindexing {i + 1}/{len(to_index)} items', end='', file=sys.stderr)
 
             with open(os.path.join(args.dir, f"{stnum}.json"), 'r', encoding='utf-8') as infile:
                 data = json.load(infile)
@@ -77,7 +78,7 @@ def main() -> int:
                 ''', (str(data['stnum']), area['name'], area['kind'], area['code'], area.get('dept', ''), area['status'], area['degree'], area.get('catalog', data['catalog']).split('-')[0]))
 
         if to_index:
-            print()
+            print(file=sys.stderr)
 
         db.execute(f'''
             select stnum, catalog || '-' || substr(catalog + 1, 3, 2), code, name, type
-- 
2.43.0


From e60835f865c76a7e677de3bb508f77ccbefcb2ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 49/50] fix: a less-than or not-equal clause of a query does
 not make it leave out the selections which would satisfy it

---
 dp/assertion_clause.py | 13 +++++++++++++
 dp/rule/query.py       | 24 ++++++++++++++++++------
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index e42cf06..ae1fd4e 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -273,6 +273,11 @@ class Assertion:
     def is_lt_clause(self) -> bool:
         return self.operator in (Operator.LessThan, Operator.LessThanOrEqualTo)
 
+    def sets_minimum(self) -> bool:
+        if self.operator is Operator.GreaterThan:
+            return self.expected >= 0
+        return self.operator in (Operator.GreaterThanOrEqualTo, Operator.EqualTo) and self.expected > 0
+
     def is_at_least_0_clause(self) -> bool:
         return self.operator is Operator.GreaterThanOrEqualTo and self.expected == 0
 
@@ -386,6 +391,11 @@ class ConditionalAssertion:
             return self.when_true.is_lt_clause() or self.when_false.is_lt_clause()
         return self.when_true.is_lt_clause()
 
+    def sets_minimum(self) -> bool:
+        if self.when_false is not None:
+            return self.when_true.sets_minimum() or self.when_false.sets_minimum()
+        return self.when_true.sets_minimum()
+
     def is_at_least_0_clause(self) -> bool:
         if self.when_false is not None:
             return self.when_true.is_at_least_0_clause() or self.when_false.is_at_least_0_clause()
@@ -473,6 +483,9 @@ class DynamicConditionalAssertion:
     def is_lt_clause(self) -> bool:
         return self.when_true.is_lt_clause()
 
+    def sets_minimum(self) -> bool:
+        return self.when_true.sets_minimum()
+
     def is_at_least_0_clause(self) -> bool:
         return self.when_true.is_at_least_0_clause()
 
diff --git a/dp/rule/query.py b/dp/rule/query.py
index 1f4f43e..aee9357 100644
--- a/dp/rule/query.py
+++ b/dp/rule/query.py
@@ -283,6 +283,9 @@ class QueryRule(Rule, BaseQueryRule):
         if any(a.is_at_least_0_clause() for a in self.assertions):
             return True
 
+        if not any(a.sets_minimum() for a in self.assertions):
+            return True
+
         if self.source is QuerySource.Claimed:
             return True
 
@@ -316,11 +319,12 @@ def find_largest_simple_count_assertion(assertions: Sequence[SomeAssertion]) ->
             return decimal.Decimal(0)
         return a.max_expected()
 
-    # a less-than clause says how many items there may be, not how many are
-    # needed, so it can only be used when there is nothing else to satisfy.
+    # a less-than or not-equal clause says how many items there may be, not how
+    # many are needed, so it can only be used when there is nothing else to satisfy.
     only_lt_clauses = all(a.is_lt_clause() for a in assertions)
+    only_one_clause = len(assertions) == 1
 
-    simple_clauses = (a for a in assertions if a.is_simple_count_clause() and (only_lt_clauses or not a.is_lt_clause()))
+    simple_clauses = (a for a in assertions if a.is_simple_count_clause() and (only_lt_clauses or only_one_clause or a.sets_minimum()))
     return max(simple_clauses, key=_expected, default=None)
 
 
@@ -330,7 +334,8 @@ def find_largest_simple_sum_assertion(assertions: Sequence[SomeAssertion]) -> Op
             return decimal.Decimal(0)
         return a.max_expected()
 
-    simple_clauses = (a for a in assertions if a.is_simple_sum_clause())
+    # only a clause which needs some credits can say that fewer are not enough
+    simple_clauses = (a for a in assertions if a.is_simple_sum_clause() and a.sets_minimum())
     return max(simple_clauses, key=_expected, default=None)
 
 
@@ -390,13 +395,20 @@ def iterate_item_set__for_assertions(
             return
 
         logger.debug("%s not running single assertion mode", rule.path)
-        for n in range(1, len(item_set) + 1):
+        for n in range(smallest_input_size(assertions), len(item_set) + 1):
             yield from itertools.combinations(item_set, n)
 
     else:
         yield tuple(item_set)
 
 
+def smallest_input_size(assertions: Sequence[Assertion]) -> int:
+    # if nothing is needed, then using no items at all has to be tried as well
+    if assertions and not any(a.sets_minimum() for a in assertions):
+        return 0
+    return 1
+
+
 def iterate_item_set__count_shortcut(*, assertion: SomeAssertion, items: Collection[Clausable], rule: QueryRule) -> Iterator[Tuple[Clausable, ...]]:
     logger.debug("using simple assertion mode with %r (at %s)", assertion, rule.path)
     for n in assertion.input_size_range(maximum=len(items)):
@@ -456,7 +468,7 @@ def estimate_item_set(item_set: Collection[Clausable], *, rule: QueryRule) -> in
             return total
 
         logger.debug("%s not running single assertion mode", rule.path)
-        for n in range(1, len(item_set) + 1):
+        for n in range(smallest_input_size(assertions), len(item_set) + 1):
             total += ncr(n=len(item_set), r=n)
 
     else:
-- 
2.43.0


From 0becea75d3f67e4bd9cc0693fd79322f4afdf670 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:31:58 +0000
Subject: [PATCH 50/50] fix: dp.server starts a worker also where there is only
 one processor

---
 dp/server/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/server/__main__.py b/dp/server/__main__.py
index cb097df..4681130 100644
--- a/dp/server/__main__.py
+++ b/dp/server/__main__.py
@@ -33,7 +33,7 @@ def main() -> None:
         except AttributeError:
             worker_count = multiprocessing.cpu_count()
 
-        worker_count = math.floor(worker_count * 0.75)
+        worker_count = max(1, math.floor(worker_count * 0.75))
 
     logger.info(f"spawning {worker_count:,} worker thread{'s' if worker_count != 1 else ''}")
 
-- 
2.43.0

