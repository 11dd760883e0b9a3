"""The properties, in one place: writes properties.jsonl and MANIFEST.json.  Run by hand after editing: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mechanism, note, technique=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=m.split('|')[0], where=(m.split('|') + [', '.join(files[:3])])[1]) for m in mechanism])), technique, note))


AUDIT = 'explicit enumeration of every bounded world, each audited by the real code and judged by an independent reference'
TRUST = ' Trusted: the reference semantics (mc/ref.py, mc/cert.py, no code shared with the auditor) and the harness; exhaustive within the bounds recorded in the evidence.'

P('C01', 'No course counts twice',
  'In every audit result an exclusive use of a course is its only exclusive use, except where the area file lists that course as multicountable for those requirements, and then at most once per requirement (or declares requirements disjoint which are not). '
  'Within one query a course is counted once, a rule that was not used or was waived holds no course, and a rule over already-claimed courses shows only courses another rule really claimed.',
  ['inputs', 'programs'], 'every area file, transcript and set of exceptions; every order in which the rules of the area compete for a course',
  'The tests try a handful of fixed areas; double counting appears only when several rule kinds compete in particular nestings, with particular exceptions.',
  ['dp/claim.py', 'dp/context.py', 'dp/area.py', 'dp/rule/course.py', 'dp/rule/query.py', 'dp/solution/query.py', 'dp/rule/count.py'],
  ['claim table keyed by course, consulted at every claim', 'multicountable requirement paths', 'independently solved branches whose claims are merged'],
  'Every emitted result of every bounded world is searched for coexisting exclusive claims.' + TRUST)

P('C02', 'Every reported result is justified, node by node',
  'Whatever an audit reports for a rule (its status, its rank, the courses it used, the numbers it computed) follows from the area file, the student record, the exceptions and the reported results of the rule\'s parts. '
  'In particular a rule is reported done, pending or waived only if the reported courses really satisfy it.',
  ['inputs', 'programs'], 'every area file built from the supported rule kinds and every transcript',
  'Tests compare a few hand-picked nodes; the claim is about every node of every result.',
  ['dp/result', 'dp/solution', 'dp/rule', 'dp/status.py', 'dp/base'],
  ['bottom-up status and rank computation', 'query and course matching', 'assertion evaluation'],
  'Each result tree is re-derived bottom-up from the raw inputs.' + TRUST)

P('C03', 'If the area can be finished, the audit says so',
  'Whenever some assignment of the student\'s courses to the rules of the area satisfies all of them (each course used exclusively except as permitted), the audit of that area reports it as done. '
  'Pruning, ordering and shortcuts in the search never hide such an assignment.',
  ['inputs', 'programs'], 'every area file and transcript; every assignment of courses to rules',
  'Tests pin examples in which the first or an early solution is the good one; a search that skips a needed combination looks the same on them.',
  ['dp/rule/query.py', 'dp/rule/count.py', 'dp/lazy_product.py', 'dp/audit.py', 'dp/area.py', 'dp/assertion_clause.py'],
  ['enumeration of course subsets between minimum and maximum size', 'cartesian product of child solutions', 'early exit of the audit loop'],
  'A brute-force search over all assignments, written separately, decides achievability for each world.' + TRUST)

P('C12', 'Filters select exactly the courses they describe',
  'A query considers exactly the courses on the transcript for which its where-clause is true: every key, comparison operator, list value, symbolic constant and and/or/not/if combination means what the area-file format says. '
  'Grade comparisons follow the grade scale, including the rules for spring-2020 S/U grades.',
  ['inputs', 'programs'], 'every where-clause over the supported keys and every course record',
  'The tests evaluate a few clauses; keys, operators, types and nestings multiply far beyond them.',
  ['dp/predicate_clause.py', 'dp/op.py', 'dp/clause_helpers.py', 'dp/data/course.py', 'dp/data/clausable.py', 'dp/constants.py'],
  ['typed predicate evaluation', 'operator application over scalars and tags', 'constants substituted at load time'],
  'The selected courses of every bounded clause are compared with a direct evaluation of the clause.' + TRUST)

P('C13', 'Counted totals are right, and so is what follows from them',
  'The number an assertion reports (courses, terms, subjects, years, credits, averages, and so on) is the right aggregate over exactly the counted courses that pass its filter, each counted once. '
  'Whether the assertion is done, pending because of in-progress courses, partly met, empty or failed follows from that number, its operator and its bound.',
  ['inputs', 'programs'], 'every aggregate, operator, bound, filter and set of courses, in queries and in audits of a group of rules',
  'Tests cover some aggregates with one or two course lists each, and few with in-progress courses mixed in.',
  ['dp/assertion_clause.py', 'dp/apply_clause.py', 'dp/op.py', 'dp/solution/query.py', 'dp/solution/count.py'],
  ['aggregate functions', 'evaluation once with and once without in-progress courses', 'group audits over matched courses'],
  'Recomputation of each reported number and status over every subset of a fixed transcript.' + TRUST)

P('C07', 'Limits are never exceeded, and cost nothing they do not have to',
  'The courses a rule uses never exceed any limit of the area or of that rule, counted in courses or credits, also when several limits cover the same course. '
  'And any selection which keeps all limits stays available: if one of them finishes the area, the audit reports it finished.',
  ['inputs', 'programs'], 'every set of limits (courses or credits, overlapping or not), every transcript, at area and at rule level',
  'The tests try single limits over a few courses; overlapping limits and mixtures of units have far more cases, and a missing selection shows only when no other one works.',
  ['dp/limit.py', 'dp/rule/query.py', 'dp/area.py', 'dp/context.py'],
  ['enumeration of the permitted course sets', 'area-wide limits on the transcript', 'limits of a query'],
  'Every bounded combination of limits, transcript and rules is audited; used courses are summed against each limit, and a separate search decides which selections were possible.' + TRUST)

P('C08', 'A waiver waives exactly what it names',
  'A rule, requirement, group, assertion or branch named by an override exception is reported waived, uses up no course, and counts as satisfied for what contains it; everything else is audited as it would be without the waiver. '
  'A waiver filed for another area, or at a place which does not exist, changes nothing.',
  ['inputs', 'programs'], 'every place in every area file and every combination of waivers',
  'Each rule kind handles its waivers on its own; tests waive a few places one at a time.',
  ['dp/exception.py', 'dp/rule', 'dp/solution', 'dp/assertion_clause.py', 'dp/context.py'],
  ['waive check of every rule kind', 'exceptions indexed by path'],
  'Waivers are filed at every combination (to a bound) of places of area files in which each kind of place occurs.' + TRUST)

P('C09', 'An inserted course counts where it was put, once',
  'A course inserted at a course rule, query, group or assertion counts there exactly once, without having to meet the conditions of the rule; an ordinary insertion gives way to other uses of the course, a forced one does not. '
  'It does not begin to count elsewhere because of the insertion.',
  ['inputs', 'programs'], 'every place in every area file, every course, and pairs of insertions',
  'Insertions act through several separate code paths (selection, matching, claiming, counting) that have to agree; tests cover a few of them separately.',
  ['dp/exception.py', 'dp/rule/course.py', 'dp/rule/query.py', 'dp/solution/query.py', 'dp/solution/count.py', 'dp/context.py'],
  ['insert and force-insert handling per rule kind', 'forced claims'],
  'One and two insertions at every place of the areas, judged by the reference meaning of the insertion.' + TRUST)

P('C10', 'A blocked course never counts where it is blocked',
  'A course blocked at a rule or assertion is not used there in any reported result, even if it is also inserted there, and stays available to every other rule. '
  'Apart from that the audit is the one in which the course did not match at that place.',
  ['inputs', 'programs'], 'every place in every area file, every course, and pairs of exceptions',
  'Blocks have to be honoured at every point where a rule picks courses; tests cover one of these.',
  ['dp/exception.py', 'dp/rule/course.py', 'dp/rule/query.py', 'dp/rule/proficiency.py', 'dp/context.py'],
  ['block check of course rules, queries and assertions'],
  'A block, alone and next to a second exception, at every place of the areas.' + TRUST)

P('C11', 'Adjusted values, adjusted courses and moved exceptions apply as filed',
  'An exception which changes an assertion\'s bound changes that bound and no other; one which changes a course\'s credits or subject changes the course for this area only, in filters, totals and identity. '
  'When an area file says that a rule has moved, an exception filed for the old place acts at the new one, and exceptions of other areas never act.',
  ['inputs', 'programs'], 'every place, value, course and sequence of moves',
  'Tests apply one adjustment each in one place; interactions between moves, areas and adjustments are not sampled.',
  ['dp/exception.py', 'dp/run.py', 'dp/data/student.py', 'dp/data/course.py', 'dp/assertion_clause.py'],
  ['value exceptions on assertions', 'credit and subject overrides applied while the record is loaded', 'path migrations'],
  'Every adjustment of the bounded areas is applied and the audit compared with the reference, and with the audit at the new place for moves.' + TRUST)

P('C14', 'Statuses combine so that in-progress work is neither ignored nor taken as done',
  'The status of a group, requirement, branch or area follows from those of its parts: done only if enough parts are done or waived, pending (current, registered or incomplete) only if finishing the student\'s in-progress courses would do, and never better than its parts permit. '
  'An at-most group fails when too much is used.',
  ['inputs', 'programs'], 'every combination of part statuses, group kinds, thresholds and group audits',
  'There are nine statuses per part; tests combine a few pairs.',
  ['dp/status.py', 'dp/solution/count.py', 'dp/base/count.py', 'dp/base/requirement.py', 'dp/base/area.py', 'dp/result/count.py'],
  ['status aggregation of counts', 'requirement and area status from their result'],
  'Parts are built to have each status; every tuple of parts is put into every group shape.' + TRUST)

P('C15', 'The GPA is exact and over the right courses',
  'The GPA of an area is the credit-weighted mean of the grade points of the courses counting toward it, truncated to two decimals, each course once however many rules use it. '
  'It leaves out courses without grade points, repeats which were replaced, in-progress courses, and what only requirements excluded from the GPA use; GPA clauses in the area file use the same arithmetic.',
  ['inputs'], 'every set of courses, grades and credit values and every arrangement of in- and out-of-GPA requirements',
  'A handful of grade lists is tested; rounding and double use show only at particular sums.',
  ['dp/data/course.py', 'dp/apply_clause.py', 'dp/base/area.py', 'dp/base/requirement.py', 'dp/result'],
  ['grade point average', 'collection of matched courses for the GPA', 'truncation'],
  'Exact rational arithmetic over every tuple of course variants.' + TRUST)

P('C16', 'Exactly the creditable rows of the record are courses',
  'Which rows of a student record can count (withdrawn, audited, failed, repeated, without credit, ungraded, in progress, of another institution), under which course identity, in which order, and whether a row is complete, in progress, registered or incomplete is decided row by row as documented, for every combination of its fields. '
  'Failed courses are visible only to queries that ask for them.',
  ['inputs'], 'every combination of grade, grade option, transcript code, flags, credits, section, sub-type and term of a row, and pairs of rows for the same course',
  'The tests load a few ordinary rows.',
  ['dp/data/course.py', 'dp/data/student.py', 'dp/data/course_enums.py', 'dp/run.py'],
  ['exclusion of rows while loading', 'course identity and sort key', 'in-progress classification by term'],
  'The product of the row fields, each loaded by the real entry point and looked at through queries over everything.' + TRUST)

P('C04', 'The audit reports the best solution it looked at, in the messages asked for',
  'The result of an audit is the first solution which is done or waived, or else the best-ranked of all of them; the search stops there and not before. '
  'Estimate, progress, per-solution and final results are sent as the arguments ask, with correct counters, and a solution is audited the same whichever others were audited before it.',
  ['inputs', 'histories'], 'every list of solutions and every combination of audit arguments (print all, print some, stop after, progress interval, sampling)',
  'Tests run with default arguments and look at the final result only.',
  ['dp/audit.py', 'dp/area.py', 'dp/run.py', 'dp/context.py'],
  ['audit loop with best-so-far', 'claims reset between solutions', 'message stream'],
  'All solutions are enumerated and audited separately; a model of the loop predicts the exact message sequence for every argument combination.' + ' Exhaustive within the bounds in the evidence; trusts the harness\'s model of the message protocol.',
  'model checking: a model of the audit loop\'s message protocol, explored over every argument combination and replayed message by message against the real loop')

P('C05', 'The same record and area file always give the same answer',
  'The reported result does not depend on the order of the transcript rows, of exceptions at different places, of keys in the area file, or of hash tables in the process: every byte is the same.',
  ['inputs', 'schedules'], 'every order of rows, exceptions and keys, and every hash order',
  'A test run has one row order and one hash seed; an order dependence shows up as a different but plausible answer elsewhere.',
  ['dp/area.py', 'dp/data/student.py', 'dp/apply_clause.py', 'dp/claim.py', 'dp/result', 'dp/solution'],
  ['transcript sort order', 'sets of courses turned back into sequences', 'resolved items of assertions'],
  'Every permutation of the rows and hash seeds covering every iteration order of a set of four course ids. Trusted: PYTHONHASHSEED controls hash order; bounds in the evidence.',
  'model checking: exhaustive exploration of the nondeterminism (row, exception, key and hash orders) on the real code, every execution compared with the first')

P('C06', 'Audits do not influence one another or their inputs',
  'What an audit reports is the same in a process that already ran other audits, or is in the middle of others, as in a fresh process; and an audit leaves the student record and area file it was given unchanged.',
  ['histories', 'schedules'], 'every sequence of audits in one process and every interleaving of audits which are consumed message by message',
  'Caches and shared defaults only show through particular earlier audits; tests never compare histories.',
  ['dp/op.py', 'dp/predicate_clause.py', 'dp/context.py', 'dp/audit.py', 'dp/base/bases.py', 'dp/data/course.py'],
  ['memoised comparisons and filters', 'claims context of running audits', 'exception lookup cache'],
  'Every ordered pair of a catalogue of colliding audits, long walks over it, and every schedule of two running audits, each in a process of its own.',
  'model checking: exhaustive exploration of operation sequences and interleavings of the real code, against the fresh-process behaviour')

P('C17', 'A course rule takes exactly the rows it refers to',
  'A reference to a course is satisfied by the transcript rows that match all it names (identity with its lab/flac/discussion suffix, section, sub-type, term, institution, AP name, crsid, clbid) and that meet its minimum grade and grade option, in-progress rows excepted from the grade; and if such a row is free, the rule is satisfied. '
  'Rows of other institutions match only references that ask for them.',
  ['inputs', 'programs'], 'every form of course reference and every row',
  'There are a dozen optional parts of a reference and of a row; tests cover a few pairs.',
  ['dp/rule/course.py', 'dp/data/student.py', 'dp/context.py', 'dp/solution/course.py', 'dp/result/course.py', 'dp/lib.py'],
  ['course filter', 'minimum grade comparison', 'claimed and shared course references'],
  'The product of references, conditions and rows.' + TRUST)

P('C18', 'Conditions decide as the record says and ask nothing when they do not apply',
  'An $if takes the branch its condition selects for this student, a $when applies exactly if the counted courses meet it, and $changes adjust a bound exactly by the changes whose conditions hold, in order. '
  'Conditions combine by and/or/not; a condition that does not apply and has no alternative asks nothing of the student.',
  ['inputs', 'programs'], 'every condition, nesting and kind of branch, for every record',
  'Tests cover single conditions in one position each.',
  ['dp/conditional_expression.py', 'dp/rule/conditional.py', 'dp/base/conditional.py', 'dp/assertion_clause.py', 'dp/solution/conditional.py', 'dp/rule/query.py'],
  ['static conditions evaluated at load time', 'dynamic conditions over counted courses', 'value changes'],
  'Every condition and every bounded composition of branches, neighbours and transcripts.' + TRUST)

P('C20', 'The requirements common to all majors are asked of every major',
  'A major, and nothing else, also asks for 6 credits at C or better and at most one S/U course among the courses it uses, and 21 credits outside its department (18 full courses for art studio and art history together; '
  'none for a B.M., which allows no S/U course). They are computed from exactly those courses, exceptions apply to them, and no major is done without them.',
  ['inputs', 'programs'], 'every major, declaration, transcript and exception',
  'No test audits a major with its common requirements against transcripts around the bounds.',
  ['dp/area.py', 'dp/solve.py', 'dp/context.py', 'dp/result/count.py'],
  ['common requirements built per degree, area code and department', 'solved over the claimed courses', 'appended to the result'],
  'Every small record around each bound, recomputed from the record and the claims shown.' + TRUST)

P('C26', 'Emphases and templates stand for the rules they name, no more and no less',
  'Auditing an area for a student who declared an emphasis is auditing the area with the requirements of that emphasis added, all of them required; an undeclared or dropped emphasis adds nothing. '
  'A template stands for exactly the courses its labels name, each the earliest matching course of the transcript.',
  ['inputs', 'programs'], 'every emphasis, declaration, template label and transcript',
  'No test loads an emphasis; template tests only parse four labels.',
  ['dp/rule/count.py', 'dp/load_rule.py', 'dp/area.py', 'dp/data/student.py', 'dp/rule/requirement.py'],
  ['emphases flattened into the top rule', 'template labels resolved against the transcript'],
  'Each bounded area is audited next to the one in which everything is written out.' + TRUST,
  'model checking: explicit enumeration of bounded worlds, each audited by the real code and compared with the audit of the expanded area, itself judged by an independent reference')

PG = ' Trusted: the PostgreSQL model (mc/fakepg.py), the scheduler (mc/sim.py) and the harness; exhaustive within the bounds recorded in the evidence.'

P('C21', 'Every queued audit is done exactly once, whatever the workers do meanwhile',
  'Each queued audit is taken by one worker, most urgent and oldest first, and leaves the queue together with exactly one stored result, that of the student, area and catalog it names. '
  'Crashes and lost connections lose and repeat nothing; an audit that fails costs only itself and is not retried for ever; workers do not hold each other up; whenever all workers are waiting, the queue is empty.',
  ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of workers and producers at database operations, every crash point, every failing statement',
  'No test runs the server; the guarantees concern races, crashes and failures.',
  ['dp/server/worker.py', 'dp/server/audit.py', 'dp/run.py'],
  ['queue row deleted in the transaction that stores the result|dp/server/worker.py process_queue', 'FOR UPDATE SKIP LOCKED|dp/server/worker.py process_queue',
   'LISTEN/NOTIFY loop|dp/server/worker.py worker', 'savepoint around storing|dp/server/audit.py audit'],
  'The real worker code runs on a model of PostgreSQL under a controlled scheduler.' + PG,
  'model checking: stateless exploration of the real code under a controlled scheduler with bounded pre-emption, every crash point and every statement failure')

P('C22', 'The stored results of a student and area always have one active, the newest',
  'After every commit a student\'s area has exactly one active result once it was audited, the latest that is not link-only, whose columns agree with the audit; a link-only audit, a failed audit or a clean-up changes no other result. '
  'The same result is not kept twice, revisions grow, and clearing expired results removes exactly those which are neither active, nor the latest of their catalog, nor unexpired.',
  ['histories', 'fault_sequences'], 'every sequence of audits, what-ifs, link-only audits, failures and clean-ups',
  'No test runs the server; each invariant depends on the history of the table.',
  ['dp/server/audit.py', 'dp/server/worker.py', 'dp/server/clear_expired.py', 'dp/server/cli.py', 'dp/server/whatif.py'],
  ['delete identical, deactivate, insert|dp/server/audit.py audit', 'revision subquery|dp/server/audit.py audit', 'expiry|dp/server/clear_expired.py main'],
  'All histories up to a depth on the real code over a model of PostgreSQL, against a reference store.' + PG,
  'model checking: exhaustive enumeration of operation sequences of the real code over a model database, checked after every commit')

P('C23', 'A batch queues every audit that is due, once, for the right catalog',
  'After a batch the queue holds, once each, the audits of all declared areas (not emphases) of every student whose record could be fetched, for the catalog of the area or else the student, except those already queued, blocked or filtered out. '
  'Trouble with one student costs no other student. An audit uses the newest area file at or before its catalog.',
  ['inputs', 'schedules', 'fault_sequences'], 'every set of students, every interleaving of the fetching threads, every failing insert or concurrent what-if',
  'No test runs the batch; its threads share one database connection.',
  ['dp/server/batch.py', 'dp/bin/expand.py', 'dp/run.py'],
  ['threads that fetch and queue|dp/server/batch.py fetch_and_queue', 'areas and catalogs of a student|dp/bin/expand.py expand_student', 'newest area file|dp/run.py find_area'],
  'The real batch code runs on a model of PostgreSQL and of its thread pool.' + PG,
  'model checking: stateless exploration of the real code under a controlled scheduler with bounded pre-emption, plus enumeration of student records and catalogs')

P('C19', 'Solving unrelated requirements on their own does not change the answer',
  'The shortcut which solves top-level requirements that share no course on their own, instead of trying all of their combinations, leaves the status of the area as it is without the shortcut. '
  'Where the top level is itself a choice, or has rules over what the others claimed, an area which is done with the shortcut is done without it.',
  ['inputs', 'configurations'], 'every pair and triple of 32 kinds of rules at the top, with limits, multicountable courses, exceptions, and every transcript up to four courses',
  'The shortcut decides which courses compete at all; a test area either has competing requirements or it does not.',
  ['dp/rule/count.py', 'dp/area.py'],
  ['which children are independent|dp/rule/count.py find_independent_children', 'solving them|dp/rule/count.py solve_independent_children', 'keeping their claims|dp/area.py AreaSolution'],
  'The answer is compared with the one of a second process which runs the same code with DP_INDEPENDENT=0. Known findings F34, F35: rules over claimed courses, and choices at the top level.',
  'model checking: exhaustive enumeration of bounded areas and records, each run on the real code with and without the shortcut')

P('C28', 'The search goes through every combination, each once',
  'An audit which is not done before goes through exactly the combinations of the solutions of its parts: for an all-of group the product of theirs, for a counted group those of every subset of the parts which have a chance, within the allowed sizes (all parts with a chance if there are too few), '
  'for a query every selection of its courses of the sizes which can meet it. lazy_product is itertools.product.',
  ['inputs', 'programs'], 'every group of up to three rules, groups in groups, requirements and conditionals, every count; products of up to three iterables',
  'A combination which is skipped is noticed only by the student it would have suited.',
  ['dp/rule/count.py', 'dp/rule/query.py', 'dp/lazy_product.py', 'dp/rule/requirement.py', 'dp/rule/conditional.py', 'dp/area.py'],
  ['combinations of children|dp/rule/count.py make_combinations', 'selections of a query|dp/rule/query.py iterate_item_set', 'the product|dp/lazy_product.py lazy_product'],
  'The solutions are observed through the results an audit with print_all reports, and compared with a combinatorial model of the search.',
  'model checking: exhaustive enumeration of bounded rule trees and records; the set of solutions of the real search is compared with that of a model')

P('C24', 'What is printed is what was found',
  'Every audit result can be shown in every form the command line offers, and no form says something else than the result: the JSON is the result; the text shows every part of the result once, in order, with its path, status, rank and the courses it uses, '
  'and lists exactly the claims; --no-paths and --no-ranks leave out only those; --claimed lists the claimed courses; --transcript lists the record; --print-path shows the requirement asked for, wherever it is, and no other; --gpa shows the grades and averages of every term; two filters, conditions, bounds, references or courses which differ are shown differently; dp.bin.print shows a stored result as dp showed it. '
  'A duration or a .env setting is shown or read as it is.',
  ['inputs', 'programs', 'configurations'], 'every kind of rule, filter, condition and assertion; every exception; every form of output; durations and settings',
  'A kind of rule which a form cannot show, or shows wrongly, appears only when an area with that rule meets a student for whom that branch matters.',
  ['dp/__main__.py', 'dp/stringify_v3.py', 'dp/bin/print.py', 'dp/ms.py', 'dp/dotenv/dotenv.py', 'dp/run.py'],
  ['the report|dp/stringify_v3.py print_result', 'forms of output|dp/__main__.py result_str', 'durations|dp/ms.py'],
  'The printed text is parsed back and compared with the result tree of the same audit; the pictures which stand for statuses are only required to tell statuses apart.',
  'model checking: exhaustive enumeration of bounded rules, records and exceptions, each printed by the real command line in every form and compared with the result')

P('C27', 'Proficiencies, areas, performances and recitals count as recorded',
  'A proficiency rule is done exactly if the student has that proficiency on record (by exam, class or otherwise), and otherwise stands as its course does; a passed-exam condition asks for the exam. '
  'A query over declared areas, music performances or recitals looks at exactly the records its filter describes, counts each of them once, and its status follows from the count; an area the student plans to drop is not there.',
  ['inputs', 'programs'], 'every mark of every proficiency, every list of areas, performances and recitals, every filter, operator and bound',
  'The tests hold two small examples of these rules.',
  ['dp/rule/proficiency.py', 'dp/base/proficiency.py', 'dp/data/music.py', 'dp/data/area_pointer.py', 'dp/data/student.py', 'dp/apply_clause.py', 'dp/assertion_clause.py'],
  ['proficiency lookup|dp/data/music.py MusicProficiencies.status', 'area filters|dp/data/area_pointer.py apply_predicate', 'counting of records|dp/apply_clause.py count_areas'],
  'Each bounded record is audited and every number recomputed from the raw record.' + TRUST)

P('C25', 'A good area file is accepted for every student, a mistake in it for none',
  'An area file which follows the format loads, and audits to a result, for every student. A mistake in it (a misspelt or unknown key in an area, emphasis, requirement, group, course, query, conditional, proficiency or limit; an unknown field, operator, aggregate, condition, constant, grade, source or proficiency; two operators; '
  'a bound that is no whole number or text; an empty or missing part; a reference to a requirement that is not there, or a part of a requirement nothing refers to) is refused by the validator and for every student, also in a branch, an emphasis or a department-audited requirement that does not matter to that student. '
  'dp.bin.validate exits with an error exactly if one of its files is not good.',
  ['programs', 'inputs'], 'every construct of the format in every context, every mistake at every place, every list of files',
  'A mistake in a branch which no test student takes is found when the first real student takes it.',
  ['dp/area.py', 'dp/load_rule.py', 'dp/rule/', 'dp/predicate_clause.py', 'dp/assertion_clause.py', 'dp/conditional_expression.py', 'dp/limit.py', 'dp/op.py', 'dp/bin/validate.py'],
  ['loading of an area|dp/area.py AreaOfStudy.load', 'unused requirements|dp/rule/requirement.py RequirementRule.load', 'keys of a rule|dp/rule/count.py CountRule.load', 'validator|dp/bin/validate.py main'],
  'Keys which an assertion, a reference or an operator does not know are not claimed to be refused (see DESIGN.md).',
  'model checking: exhaustive enumeration of every mistake at every place of area files in which every construct occurs, each loaded and audited by the real code')

P('C29', 'The course and bucket references of area files are all of them, and no others',
  'dp.bin.discover lists exactly the courses (by name or crsid, unless hidden or from elsewhere) and the attribute buckets which the given area files mention, in every filter, limit, assertion and audit clause, in every branch, requirement and emphasis, for the area code and catalog of the file; '
  'with --insert the two reference tables hold exactly these afterwards, whatever they held before. Files which are not .yaml, or are named like a variant (with - or .), are left out.',
  ['programs', 'histories'], 'every way to mention a course or bucket in every nesting of constructs; every set of files and every content of the tables before',
  'Nothing tests this; a reference that is missing means that audits are not redone when that course changes.',
  ['dp/bin/discover.py', 'dp/area.py'],
  ['courses of a rule|dp/bin/discover.py find_courses_in_rule', 'buckets of a rule|dp/bin/discover.py find_buckets_in_rule', 'tables|dp/bin/discover.py insert_course_refs'],
  'The area files are built from constructs with known mentions; the database is a stand-in on sqlite. What a $hide-when-false branch mentions is left open.',
  'model checking: exhaustive enumeration of bounded area files and table contents, each given to the real program')

P('C30', 'A folder of students is audited as each student is',
  'dp.bin.index lists exactly the declared areas its query asks for of the student files in the folder, each declaration once, whatever was indexed, added or interrupted before, with the catalog of the area or else of the student. '
  'dp.bin.batch audits each line it is given once, in order, against the newest area file at or before that catalog, and shows what a single audit of that student shows; the output of the one is the input of the other. A missing area file is an error.',
  ['histories', 'inputs', 'configurations'], 'every folder of up to three students, every history of three runs with files added, broken or the index cleaned; every list of up to four lines in every form of output',
  'Nothing tests these programs; the index is a cache which outlives its runs.',
  ['dp/bin/index.py', 'dp/bin/batch.py', 'dp/run.py'],
  ['index|dp/bin/index.py main', 'batch|dp/bin/batch.py main', 'newest area file|dp/run.py find_area'],
  'An indexed student file is assumed not to change until the index is cleaned.',
  'model checking: exhaustive enumeration of bounded histories and inputs, each run on the real programs and compared with single audits')

# --- more properties are added above this line ---


def main():
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for p, _t, _n in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = [dict(property=p['id'], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                   technique=t or 'model checking: ' + AUDIT, level='model_checking', level_note=n) for p, t, n in PROPS]
    with open(f'{HERE}/MANIFEST.json', 'w') as f:
        json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=NA), f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
