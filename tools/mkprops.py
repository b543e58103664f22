#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  (The single place the property texts are edited.)"""
import json, os, re
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(statement.split()) < 170, id
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": files[0]} for m in re.split(r"[,;] (?![^(]*\))", mechanism)]}
    if state: a["state"] = [{"name": m.strip(), "meaning": "internal state the property depends on", "where": files[0]} for m in re.split(r"[,;] (?![^(]*\))", state)]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Scheduler yields due events in (time, priority, insertion) order, never early",
  "For every history of schedule, cancel, queue, truth tests, clock advances and (blocking or non-blocking) iteration, the scheduler yields exactly the events that were scheduled and not cancelled, each exactly once, never before its time (a relative time counts from the clock's reading at the call), ordered by (time, priority, order of scheduling) among the pending events. `queue` and the truth value always describe exactly the pending events in that order. Cancelling an event that is not pending raises ValueError and changes nothing; non-blocking iteration stops exactly when nothing is due and never sleeps, blocking iteration stops exactly when nothing is pending. A regulator of the user's own sees its contract kept: now and wake are called with its lock held, sleep without, and the lock is never entered twice.",
  ["histories"], "all histories of public Scheduler calls, with any mix of relative/absolute times (also past and equal times), priorities, and early wake-ups of the regulator's sleep",
  "the tests replay a handful of fixed histories; ordering, exactly-once and timing must hold for every interleaving of schedule/cancel/advance/next.",
  ["big/scheduler.py", "big/heap.py"], "Scheduler.schedule/cancel/_next, Event.__lt__, the Heap of Events",
  "pending events, clock, event counter", "return values of schedule/cancel/next/queue/bool with an injected regulator")
p("C02", "Thread-safe scheduling: no lost wake-ups; each event goes to exactly one thread",
  "With a ThreadSafeRegulator, under every interleaving of threads calling schedule, cancel, blocking and non-blocking iteration, every call takes effect atomically: each event is yielded to exactly one thread, never early and never after a successful cancel, and a blocked thread takes the schedule or cancel calls of other threads into account at once. In particular a thread blocked waiting for a later event returns an earlier one as soon as it is due, ends as soon as nothing is pending, and never sleeps past the time of the earliest pending event.",
  ["schedules"], "all interleavings, at the granularity of lock/event/clock operations, of small multi-threaded programs over one Scheduler",
  "the tests start real threads and see one timing per run; a lost wake-up needs a pre-emption between releasing the lock and starting to wait.",
  ["big/scheduler.py"], "ThreadSafeRegulator.wake/sleep, the regulator lock in schedule/cancel/_next",
  "lock, wake-up event, pending heap", "call/return events and sleeps under a controlled threading module and clock")
p("C03", "Heap is a sorted multiset that indexes and slices like a sorted list",
  "After any history of append, extend, remove, popleft, append_and_popleft, popleft_and_append, clear and copy on mutually comparable values, the heap holds exactly the inserted values that were not removed: popleft, popleft_and_append and append_and_popleft return the smallest value (before, before and after adding, respectively), and queue, len, truth, `in`, equality and every int or slice index agree with the sorted list of the contents. An operation that raises (empty pop, remove of an absent value, an index out of range: IndexError, ValueError, IndexError) leaves the contents unchanged, and a copy is independent of the original.",
  ["histories", "inputs"], "all histories of the mutators, and all int indices and slices of any sign, step and magnitude, including duplicates and the empty heap",
  "tests index a few heaps of one size at a few positions; special cases switch on the index's sign and magnitude relative to the length.",
  ["big/heap.py"], "Heap methods over heapq; __getitem__ fast paths (nsmallest/nlargest)", "_queue", "return values and exceptions; Heap.queue after every call")
p("C04", "Heap iteration is sorted and non-destructive, and fails fast on modification",
  "Iterating over a heap yields exactly its values in ascending order and does not change the heap. If the heap is modified by any mutator after an iterator was created, the next step of that iterator raises RuntimeError, and keeps doing so; if it is not modified, any number of iterators proceed independently.",
  ["histories"], "all interleavings of several iterators' steps with reads and with every mutator",
  "tests modify the heap through one or two mutators at one point; every mutator must be noticed at every point.",
  ["big/heap.py"], "Heap._version, HeapIterator", "_version vs. iterator's version", "next() results")
p("C05", "StateManager transition protocol: order, visibility, and rejection",
  "Assigning a new state s runs exactly: old state's on_exit, then every observer that is in the observers list when the observers' turn comes, in list order, then the state changes, then s's on_enter; on_exit and observers see the old `state` and `next` is s, while on_enter sees `state` is s and `next` is None (and may itself transition). Assigning None (ValueError), an object of the wrong class (TypeError), the identical current state, or any state while a transition is in progress (TransitionError) is rejected with no callback and no change of state; a different but equal object is accepted. A callback's exception propagates; from on_exit or an observer it abandons the transition (the old state stays, `next` is None). Custom or disabled on_enter/on_exit names, states lacking the methods, and observers that modify the observer list during the transition follow the same rules; the constructor rejects a state_class that is no class (TypeError) and a name that is no identifier (ValueError).",
  ["histories", "programs"], "all histories of assignments, observer-list edits and raising callbacks, made from outside or from within any callback, for every configuration of on_enter/on_exit/state_class",
  "tests exercise a few machines; re-entrant assignments and list edits from each callback at each depth are not sampled.",
  ["big/state.py"], "StateManager.state setter, __init__", "state, next, observers", "callback trace and visible state/next at each callback")
p("C06", "accessor and dispatch always act on the state manager's current state",
  "Reading an accessor attribute always equals the state manager's current state, and assigning to it is the same as assigning to the state manager (including every rejection). Calling a dispatched method calls the method prefix+name+suffix of whatever state is current at the time of the call, with the same positional and keyword arguments, and returns its result (or raises its exception), whichever attribute names were configured; the decorated method keeps its name, documentation and signature.",
  ["histories", "configurations"], "all histories of transitions (also made from inside dispatched handlers) and dispatched calls, over all attribute/prefix/suffix configurations",
  "tests dispatch on one machine with fixed names; binding too early or to the wrong name only shows after transitions.",
  ["big/state.py"], "accessor(), dispatch()", "state manager per instance", "results of attribute reads and dispatched calls")
p("C07", "Graph views yield each node once, exactly when all its predecessors are done",
  "In every view of the graph, ready() returns exactly the nodes, not returned before by this view, whose predecessors are all done in this view, so each node is returned at most once and never before its predecessors are done; nodes and dependencies may be added or removed at any time. done() accepts only nodes the view has returned and not yet marked done; otherwise it raises ValueError and marks nothing, and repeating a node in one call counts once. The view is true exactly while some node of the graph is not done, so an acyclic graph is always worked off completely.",
  ["histories"], "all histories of add, remove, ready, done, reset, view, copy and close on a graph with several views, including changes to the graph while views are half-way",
  "tests work through fixed graphs; the predecessor counters are updated incrementally by add/remove/done, and only particular orders make them drift.",
  ["big/graph.py"], "View._add_successor, _remove_node, _mark_node_done, ready, done", "_predecessors, _ready, _yielded, _done", "results of ready/done/bool and exceptions")
p("C08", "A graph view is incoherent exactly while an out-of-order dependency exists",
  "A view raises RuntimeError from ready, done and its truth test exactly while the graph contains a dependency, added after the successor had been returned by the view, of a node already returned (or done) on a predecessor that is not done in that view; every other view is unaffected. Removing either node of every such dependency, or resetting the view, makes it coherent again, and a failed call changes nothing.",
  ["histories"], "all histories of graph edits interleaved with ready/done/reset/copy on several views",
  "tests cover a few incoherent edges; conflicts are tracked in two mirrored tables that must stay in step under removal.",
  ["big/graph.py"], "View._conflicts/_reverse_conflicts", "_conflicts, _reverse_conflicts, _yielded, _done", "RuntimeError from ready/done/bool")
p("C09", "Cycle detection is sound, complete and terminates; static_order is topological",
  "cycle() returns None exactly when the graph has no directed cycle, and otherwise a tuple of distinct nodes forming a directed cycle of the graph; check_for_cycles (prepare), ready and static_order raise CycleError exactly when there is a cycle, also after the graph was repaired, changed again or copied. static_order of an acyclic graph yields every node exactly once, predecessors first, and does not affect any view. All of this finishes in time polynomial in the size of the graph.",
  ["histories", "inputs"], "all graphs and all orders of adding and removing their edges and nodes, with cycle checks at any point",
  "tests check one or two cyclic graphs; the dirty flag decides whether to look at all, so the history before the check matters.",
  ["big/graph.py"], "TopologicalSorter.cycle, dirty, check_for_cycles, static_order", "nodes, dirty", "return value of cycle(), CycleError, static_order")
p("C10", "Copies of graphs and views are independent and carry the full state",
  "A copy of a graph has the same nodes, dependencies and cycle status and a default view in the same state, and from then on operations on either graph or on any of its views (including views created later) never affect the other. A view created by view() starts from the initial state for the current graph, View.copy() starts from the current state of the copied view, reset() returns a view to the initial state, and views never affect each other; a closed view raises ValueError from every call and no longer takes part in the graph.",
  ["histories"], "all histories mixing operations on original and copied graphs, their default views, extra views, copied views and closed views",
  "tests compare the static order of a copy once; shared registration or shared containers only show when both sides are used further.",
  ["big/graph.py"], "TopologicalSorter.copy, View.copy, reset, close, views list", "views, nodes, dirty", "ready/done/bool of every view of both graphs")
p("C11", "Log records every event with exact relative times, depth and rendering",
  "For every history of logging, enter, exit and reset with any non-decreasing clock, iterating the log yields one tuple per event in order: 'log start' at 0 with depth 0, then each logged event (enter: '<name> start' at the outer depth, exit: '<innermost name> end' at the outer depth) with its time since the start or last reset, the time until the next event (0 for the last) and its nesting depth; events logged while one iterates do not show up in that iteration. exit with nothing entered raises and records nothing. print() renders exactly those events, each time as seconds, a dot and the first digits of the nine-digit nanosecond fraction, indented by depth.",
  ["histories"], "all call histories, clock sequences (beyond seconds and minutes) and print widths/indents",
  "the one test uses millisecond times, where seconds are always 0.",
  ["big/log.py"], "Log.__call__/enter/exit/reset/__iter__/print", "events, stack, start", "iter(log), lines passed to print")
p("C12", "PushbackIterator yields pushed values LIFO, then the underlying values in order",
  "For every history of next(), .next(default), push and truth tests, the iterator yields the most recently pushed value still pending if there is one, else the next value of the wrapped iterable, losing, duplicating and reordering nothing; it is true exactly when a value remains. When exhausted next() raises StopIteration and .next(default) returns the default, and pushing revives it. The wrapped iterator is asked only for a value that is needed now, and never again once it has ended. Any exception other than StopIteration raised by the wrapped iterator propagates to the caller unchanged, and values that are false, None or exceptions are ordinary values.",
  ["histories", "fault_sequences"], "all histories, over all wrapped iterables (lists, generators, objects that are false, iterators that raise in the middle)",
  "tests push in one pattern; truth tests prefetch a value and must interact correctly with every push/next order.",
  ["big/itertools.py"], "PushbackIterator.push/__next__/next/__bool__", "stack, i", "results and exceptions of each call")
p("C13", "Bound inner classes: right outer instance, per-instance cache, inheritance",
  "Instantiating a bound inner class through an instance passes exactly that outer instance (then the caller's arguments, whether or not the class was reached before, through a subclass of the outer class or through super()) to __init__, the class's own or one it inherits; accessing it repeatedly through one instance gives the same class object, through different instances different ones, and through the outer class the unbound class. A bound inner class is a subclass of the unbound class and, when its bases are bound inner classes reached through the same outer instance, its instances get the outer instance once per __init__ in the whole chain; unbound inner classes drop the outer parameter. Neither bound classes nor their caches keep the outer instance alive, and using other instances never changes what an instance's bound class is. A bound class has the name, documentation and annotations of the class as written, and its instances' repr names the outer instance unless the class has its own.",
  ["programs", "histories"], "all small class hierarchies of outer and inner classes (bound, unbound, plain), access orders, instances and lifetimes",
  "tests build a few fixed hierarchies; caching and base rewriting depend on the order in which classes and instances are touched.",
  ["big/boundinnerclass.py"], "BoundInnerClass.__get__, cache, weakref to outer, metaclass/bases rewriting", "per-instance cache", "identity of classes, arguments received by __init__, weakref liveness")
p("C14", "multisplit splits exactly at the greedy separators, losslessly, in any keep mode",
  "For every string and set of separators multisplit splits exactly at the leftmost-then-longest separator occurrences (rightmost-then-longest, scanning from the right, when reverse), merging adjacent separators unless separate is true, and at no more than maxsplit of them (counted from the scanned side; None or any negative number means all). With strip false the pieces of keep=True, ALTERNATING and AS_PAIRS concatenate to the original string, and keep=False yields the same non-separator strings. str and bytes behave alike, and results are plain str or bytes.",
  ["inputs", "configurations"], "all strings, all non-empty sets/iterables of non-empty separators (overlapping, prefixes of each other, self-overlapping), all maxsplit/reverse/separate/keep combinations",
  "tests check selected examples; overlapping separators combined with reverse, maxsplit and keep need systematic enumeration.",
  ["big/text.py"], "multisplit, _separators_to_re, _multisplit_reversed", None, "list(multisplit(...))")
p("C15", "Stripping removes exactly the leading/trailing separators (multistrip, strip=)",
  "multistrip removes only separators and only from the requested ends, and what remains neither begins nor ends (on the requested ends) with a separator. multisplit with strip true, LEFT or RIGHT gives what it would give on the string so stripped (a string of nothing but separators gives one empty string). strip=PROGRESSIVE strips the near end, and the far end exactly when maxsplit did not stop the splitting early.",
  ["inputs", "configurations"], "all strings (also ones ending in newlines), all separator sets, all strip x maxsplit x reverse x separate x keep combinations",
  "tests sample a few combinations; greedy stripping of overlapping separators and PROGRESSIVE's far-end rule have many corner cases.",
  ["big/text.py"], "multistrip, the strip handling of multisplit", None, "return values")
p("C16", "multipartition returns 2*count+1 pieces that split at the right separators",
  "multipartition returns a tuple of exactly 2*count+1 strings alternating text and separator that concatenates to the original string, partitioned at the first count separators that multisplit (with the same separate and reverse) would split at, and padded with empty strings on the right (on the left when reversed) if there are fewer. multirpartition is multipartition with reverse toggled, for every argument combination.",
  ["inputs", "configurations"], "all strings, separator sets, counts >= 0, separate and reverse",
  "tests check examples for a few counts; padding and direction interact.",
  ["big/text.py"], "multipartition, multirpartition", None, "return values")
p("C17", "re_partition/re_rpartition cut the string exactly at the regex matches",
  "re_partition returns 2*count+1 elements alternating text and match (or None) such that the text pieces and matched substrings concatenate to the original string, each match object's span is exactly where the string was cut, and the matches are the first count non-overlapping matches of the pattern; missing matches are padded with (None, '') on the right. re_rpartition does the same from the right with (\"\", None) padding on the left: its matches are non-overlapping genuine matches, taken right to left, and it finds one whenever the pattern matches anywhere; nothing is reordered or lost for patterns with context or empty matches.",
  ["inputs", "configurations"], "all strings and patterns (alternations, repetitions, anchors, look-around, empty matches), all counts, both directions",
  "tests use patterns whose matched text occurs only where it matched.",
  ["big/text.py"], "re_partition, re_rpartition, reversed_re_finditer", None, "return values and match spans")
p("C18", "split_quoted_strings segments are lossless and quotes pair up correctly",
  "For every string and set of quote marks, the concatenation of all yielded strings recreates the input, every segment opens at the first unescaped quote mark outside quotes and closes at the next unescaped occurrence of the same mark, an unterminated segment has an opening but no closing mark (also when nothing follows it), and no other quote marks or escapes are interpreted inside. A line break inside a segment quoted by a non-multiline quote raises SyntaxError, inside a multiline quote it does not; passing the open quote as state continues the segmentation of a longer string.",
  ["inputs", "configurations"], "all strings over quote, escape, newline and ordinary characters; all quote sets (also multi-character and prefix-related ones), escapes and initial states",
  "tests cover examples with ordinary quotes.",
  ["big/text.py"], "split_quoted_strings over multisplit(AS_PAIRS)", "current quote", "yielded triples, SyntaxError")
p("C19", "split_delimiters follows the delimiter pushdown automaton exactly",
  "For every text and delimiter map, the concatenation of all yielded strings recreates the text, and each yielded open/close delimiter is one that a pushdown automaton recognizes there: an open delimiter pushes, only the innermost close delimiter pops, quoting delimiters recognize only their own close and escape (an escape hides exactly the next character), and everything else is text. It raises SyntaxError exactly when it meets a delimiter that is illegal in the current state, a line break in a delimiter that is not multiline, or an escape at the end of the text. A given initial state behaves as if those open delimiters had just been read. Delimiter objects hold what they were given, compare equal (with equal hashes) exactly when all of it is equal, and an impossible combination (a backslash as close, quoting without escape or escape without quoting, not multiline without quoting) is rejected with ValueError.",
  ["inputs", "configurations"], "all texts and delimiter maps, including multi-character delimiters that share prefixes or contain each other, and all valid initial states",
  "tests try selected nested examples; overlap of multi-character delimiters triggers re-splitting from computed offsets.",
  ["big/text.py"], "_delimiters_to_state_and_tokens, split_delimiters generator", "stack, escape flag, consumed offset", "yielded triples, SyntaxError")
p("C20", "lines modifiers conserve every character and keep true line/column numbers",
  "lines yields every line of the input in order with consecutive line numbers, and info.line is exactly that line with its terminator. After any chain of rstrip/strip/indent-stripping/comment-stripping modifiers info.leading + line + info.trailing + info.end is exactly info.line, and info.column_number is the column where the line starts when tabs in the leading text are expanded; a line stripped to nothing has all its text in trailing and its original column. lines_convert_tabs_to_spaces expands tabs of the line at the given tab width and changes nothing else. The constructors of lines and LineInfo reject values of the wrong type (TypeError); a LineInfo holds exactly what it is given, with empty strings of the line's type for the texts that aren't, and two are equal exactly when everything they hold is.",
  ["inputs", "configurations"], "all texts (str, bytes, iterables of lines or pairs), tab widths, start numbers and all chains of modifiers",
  "tests check chosen lines through one modifier at a time; the bookkeeping is cumulative across modifiers.",
  ["big/text.py"], "lines.__next__, LineInfo.clip_leading/clip_trailing, lines_strip, lines_rstrip", "leading, trailing, column_number", "(info, line) pairs")
p("C21", "lines_strip_indent assigns indent levels and rejects exactly the illegal dedents",
  "For every sequence of lines, a non-blank line at the left margin has indent 0, a line indented further than the previous non-blank line has its indent plus one, an equally indented one the same indent, and a line indented less returns to the level of the enclosing line with exactly its column; if there is none IndentationError is raised. Blank lines get the indent of the next non-blank line (0 if there is none). The indentation is moved to leading with tabs counted to tab stops, and the rest of the line is unchanged.",
  ["inputs"], "all sequences of indentation columns (tabs and spaces mixed) with blank lines anywhere",
  "tests indent and dedent mostly one level at a time.",
  ["big/text.py"], "lines_strip_indent's stack of columns", "leadings, indent, pending blank lines", "info.indent, line, IndentationError")
p("C22", "lines_strip_line_comments cuts at the first unquoted comment marker only",
  "Each line is truncated exactly at the leftmost comment marker that is not inside a quoted string, as split_quoted_strings sees quotes and escapes, and otherwise unchanged; text inside quotes, including multiline quotes that continue over several lines (also when the opening mark ends its line), is never cut. A quote left open at the end of a line (for multiline quotes: at the end of the text) raises SyntaxError, and every line is still yielded with the removed text in trailing.",
  ["inputs", "configurations"], "all sequences of lines over markers, quotes, escapes and text; all marker, quote and multiline-quote sets",
  "tests use a few source snippets; state is carried from line to line.",
  ["big/text.py"], "lines_strip_line_comments' quote state across lines", "state (open multiline quote)", "(info, line) pairs, SyntaxError")
p("C23", "line filters keep exactly the matching lines, unmodified and in order",
  "lines_grep, lines_containing (and their inverted forms), lines_filter_empty_lines and lines_filter_line_comment_lines yield exactly the lines that satisfy their condition, unmodified, in order and with their original info (line numbers included); grep stores the match (None when inverted) in the chosen attribute. lines_sort yields a stable sort (by line text, or by key; reversed on request) of all lines. Inverted and plain filter partition the input.",
  ["inputs", "configurations"], "all texts, patterns, substrings, marker sets, keys and modifier chains",
  "tests filter one text.",
  ["big/text.py"], "lines_grep, lines_containing, lines_sort, lines_filter_*", None, "(info, line) sequences")
p("C24", "wrap_words keeps all words in order and never exceeds the margin avoidably",
  "For every sequence of words and margin, the output contains every word unmodified, in order, with only single newlines, single spaces or (after '.', '?' or '!' when two_spaces is true) double spaces added between words, and whitespace words copied verbatim. No line is longer than the margin unless it consists of one over-long word, and a line is only broken when the next word would not have fit.",
  ["inputs", "configurations"], "all sequences of words (incl. line and paragraph breaks and over-long words), margins, two_spaces, str and bytes",
  "tests wrap a few paragraphs with one margin.",
  ["big/text.py"], "wrap_words column accounting", "col, lastword", "returned string")
p("C25", "split_text_with_code keeps every word and reproduces code lines verbatim",
  "For every text of words, spaces, tabs and newlines, the result lists all non-code words in order, every code line (indented by at least code_indent columns) as one string with its inner whitespace preserved (tabs expanded when asked), and break markers between them: '\\n\\n' between paragraphs, and one '\\n' per line break between code lines of one code block. No word or code line is ever lost, also at the end of the text, and it never fails on such text. The result is the same for bytes.",
  ["inputs", "configurations"], "all texts over letters, spaces, tabs and newlines; tab_width, code_indent, allow_code, convert_tabs_to_spaces",
  "tests split a few documents; transitions between text and code paragraphs form a state machine with pending breaks.",
  ["big/text.py"], "_column_wrapper_splitter states", "state, leading, word, code, previous_paragraph", "returned list, exceptions")
p("C26", "merge_columns places every line of every column, aligned, losing none",
  "Every line of every column appears exactly once and in order, starting at its column's offset (the sum of the preceding columns' maximum widths and separators) whenever the preceding columns on that output line do not overflow, and output lines never have trailing whitespace. A line wider than its column raises OverflowError under RAISE; under INTRUDE_ALL the following columns are suspended for the overflowing lines plus the overflow_before/overflow_after lines of that column around them (as far as it has any), and under DELAY_ALL until after the last overflowing line plus overflow_after such lines, and then continue where they left off.",
  ["inputs", "configurations"], "all sets of columns (line lengths incl. empty lines, trailing blanks), widths, separators, strategies, overflow_before/after",
  "tests merge a few fixed texts.",
  ["big/text.py"], "merge_columns' overflow ranges and per-column iterators", "overflows, in_overflow", "returned string, OverflowError")
p("C27", "gently_title capitalizes exactly the word-initial letters and nothing else",
  "For every string, a character is upper-cased exactly when it is the first character of a word (a run of non-whitespace, where '(' counts as whitespace), or the first character after the run of apostrophes or double quotes at the start of a word, or follows an apostrophe after a word-initial O or D; all other characters are unchanged. Every word of the string is treated alike whatever precedes it. str and bytes agree.",
  ["inputs", "configurations"], "all strings over letters, O/D, apostrophes, quotes, parentheses and whitespace; default and custom quote sets",
  "tests check a list of phrases.",
  ["big/text.py"], "gently_title state machine", "state", "returned string")
p("C28", "Title-case splitting, whitespace normalizing and combined splits are exact",
  "split_title_case splits exactly before an upper-case letter that follows a lower-case letter and (with split_allcaps) before the last of a run of two or more capitals that is followed by a lower-case letter, and the pieces concatenate to the input. normalize_whitespace replaces every maximal run of separators by one replacement string and changes nothing else. combine_splits cuts the string exactly at the union of the split points of all given split arrays, losslessly, and raises ValueError if an array is longer than the string.",
  ["inputs", "configurations"], "all strings, separator sets, replacements and families of split arrays (with empty pieces, in any order)",
  "tests check examples.",
  ["big/text.py"], "split_title_case, normalize_whitespace, combine_splits (heap of lengths)", None, "returned/yielded strings")
p("C29", "Version is a strict total order consistent with equality, hash and round-trips",
  "Any two Versions are exactly one of less, equal, greater, ordered by epoch, release (trailing zeros ignored), release level (alpha < beta < rc < final), serial, post (none before any), dev (any before none), local; the order is transitive and equal Versions hash equal, however they were constructed (string in any accepted spelling or case, or keyword arguments with non-negative numbers). Parsing accepts exactly the PEP 440 syntax and rejects everything else with ValueError, as it does a negative number given as a keyword argument. str() of a Version parses back to an equal Version and is the same for every spelling of it (up to the spelling of a local segment's leading zeros), and repr() evaluates to an equal one.",
  ["inputs"], "all version strings and all keyword combinations, and all pairs/triples of them",
  "tests compare one list of versions written in normal form.",
  ["big/version.py"], "Version.__init__ parsing and normalization, _tuple, __eq__/__lt__/__hash__/__str__", "_tuple", "comparison results, hash, str, repr, ValueError")
p("C30", "File helpers establish their postcondition from every starting state",
  "safe_mkdir that returns leaves a directory at the path, with existing directories and their contents untouched, a plain file replaced and missing parents created; safe_unlink removes a plain file and never touches a directory or a missing path; touch makes the path exist, never changes existing contents, and makes the modification time current. `with pushd(d):` makes d the working directory in the block and restores the previous one (that on entry) afterwards, however deeply nested, also when one pushd object is made early or used again, whatever the block does to the working directory, and when it raises. file_size, file_mtime and file_mtime_ns report the size and the modification time of what is at the path. None of them affects any other path.",
  ["histories", "configurations"], "all histories of these helpers on small file trees (files, directories, links, missing and nested paths), with nesting, exceptions and directory changes in blocks",
  "tests try each helper once on one layout.",
  ["big/file.py"], "safe_mkdir, safe_unlink, touch, pushd, file_size, file_mtime, file_mtime_ns", "file tree, working directory", "file tree and cwd after each call")
p("C31", "fgrep/grep return exactly the matching lines; file name translation is safe",
  "fgrep and grep return exactly the lines of the file (split at newlines, terminators removed) that contain the text (ignoring case on request) or match the pattern, in order and with 1-based line numbers when enumerating; a str argument reads text, a bytes argument reads bytes. translate_filename_to_unix and translate_filename_to_exfat change only characters illegal on that file system (for exFAT also the space handling of ': '), and return a name without any illegal character.",
  ["inputs", "configurations"], "all file contents, search texts and patterns, flags; all file names",
  "tests search one file and translate two names.",
  ["big/file.py"], "fgrep, grep, translation tables", None, "return values")
p("C32", "RFC 3339 timestamps are exact and round-trip; zone setters never shift clocks",
  "timestamp_3339Z renders exactly the given instant as UTC calendar date and time (six fractional digits exactly when asked for, or by default for types with fractional seconds), so that later instants give greater texts, an aware datetime in any zone gives the same text as the same instant in UTC, and parse_timestamp_3339Z of the text is the same instant again. timestamp_human renders exactly the given instant in the local timezone under the same rule for the fraction. datetime_set_timezone and datetime_ensure_timezone never change the clock fields or fold; ensure leaves an aware datetime alone, set replaces its zone, and parsing applies the default zone only to texts without one.",
  ["inputs"], "all instants from year 1000 to 9999 given as int, float, struct_time or datetime (naive, or aware in any fixed-offset zone), including leap days and carries across midnight and year ends, in any local fixed-offset timezone",
  "tests render a few instants.",
  ["big/time.py"], "timestamp_human, timestamp_3339Z, parse_timestamp_3339Z, datetime_set_timezone, datetime_ensure_timezone", None, "returned strings and datetimes")
p("C33", "The deprecated quote and delimiter parsers are lossless and pair correctly",
  "The deprecated split_quoted_strings segments concatenate to the input and are quoted exactly where a single-, double- or (when enabled) triple-quoted string with backslash escapes is open, including quotes at the very end. The deprecated parse_delimiters yields segments that concatenate to the input and follow the delimiter pushdown automaton, raising ValueError exactly for a mismatched closer or delimiters left open. The deprecated lines_strip_comments cuts each line at the first comment marker outside such a quoted string (and, on request, the whitespace before it), leaves every other line and the line numbers alone, and yields one line per line.",
  ["inputs", "configurations"], "all strings over quotes, escapes, delimiters and text, with all option combinations",
  "tests check examples, none ending in a lone quote.",
  ["big/deprecated.py"], "split_quoted_strings, parse_delimiters, lines_strip_comments", "in_quote, stack", "yielded tuples, exceptions")
p("C34", "Number conversion helpers never raise and return exactly the right value",
  "try_int and try_float are true exactly when int() or float() accepts the value, and never raise for any None, bool, int, float (including infinities and NaN), complex, str, bytes, container or other object (whose conversion methods, if any, fail only with TypeError, ValueError or OverflowError). get_int and get_float return the converted value in that case and otherwise the default (the value itself if no default was given). get_int_or_float returns an int unchanged, a float as an int when it can be represented exactly as one and else unchanged, and anything else as what int() makes of it, else what float() makes of it (as an int when that is exact), else the default (the value itself if none was given).",
  ["inputs"], "all values of these types and all option combinations",
  "tests try a dozen values.",
  ["big/builtin.py"], "try_int, try_float, get_int, get_float, get_int_or_float", None, "return values")
p("C35", "int_to_words names exactly the given integer, in every option combination",
  "For every integer, the returned words, read by the rules of English number words, denote exactly that integer: the words of its thousands groups, most significant first, each group's hundreds, tens and units, with no zero group mentioned, and 'negative' first for negative numbers. With ordinal true only the last word is turned into its ordinal form, and with flowery false the same words appear without commas and 'and'. Integers too large to name in words are returned as their decimal digits.",
  ["inputs"], "all integers of either sign and all flowery/ordinal combinations",
  "tests check a list of numbers.",
  ["big/text.py"], "int_to_words, its recursive thresholds and word tables", None, "return values")

p("C36", "encode_strings keeps the structure; whitespace and line-break tables are exact",
  "encode_strings returns the same nested structure - same container classes (subclasses included), same order - with every str replaced by its encoding and every bytes object kept; its argument is not changed and shares no list, dict or set with the result, and it raises TypeError exactly when some object inside is not a str, bytes, dict, set, list or tuple, or UnicodeEncodeError for a character the encoding lacks. The exported tables contain exactly the characters Python, Unicode (without the four ASCII separators) or ASCII calls whitespace or line breaks, plus CRLF except in the _without_crlf tables, each once, as a tuple of str or bytes.",
  ["inputs"], "all nestings of containers, their subclasses, strings and bytes in several encodings; all code points for the tables",
  "tests encode a few literals, and cover the tables only through a few uses.",
  ["big/text.py", "big/deprecated.py"], "encode_strings, the *_whitespace and *_linebreaks tuples", None, "return values")

p("C37", "Independent uses never interfere; arguments are left as they were",
  "Every function and object of the library behaves the same whatever else the program does with the library: the result of a call depends only on its arguments, not on earlier calls (with equal, similar or different arguments, str or bytes, other options), on iterators (of lines, multisplit, split_quoted_strings, split_delimiters and so on) that are only half consumed and are stepped in any interleaving, on other objects of the same class, nor on what the caller did with an earlier result. No function changes the containers passed to it (separators, quotes, delimiters, words, columns, split arrays, states), also when the same container is being used by another iterator at the same time.",
  ["histories", "schedules"], "all interleavings of the steps of several calls, iterators and objects, with identical, similar and unrelated arguments, shared or not",
  "the tests make one call at a time with fresh arguments; a cache with an incomplete key or state kept in the module only shows when certain calls follow or interleave with each other.",
  ["big/text.py", "big/deprecated.py", "big/log.py", "big/heap.py", "big/graph.py", "big/state.py", "big/itertools.py", "big/scheduler.py", "big/version.py", "big/time.py", "big/builtin.py", "big/file.py"], "caches of regular expressions and delimiter tables, generator state, instance attributes, default arguments", "module globals, lru_caches, class attributes", "outcome of every step, and the arguments before and after")
p("C38", "Pure virtual methods always refuse, overrides always work",
  "Calling a method decorated with pure_virtual() always raises NotImplementedError, with whatever arguments and however it is reached (on an instance, through the class, through super(), or dispatched by a state machine whose state the object is), and its body never runs; a class that overrides it with an ordinary method behaves as if it had never been there, and super() inside such a method reaches it. The decorated method keeps its name, documentation and signature.",
  ["inputs", "configurations"], "all class hierarchies with pure virtual, ordinary and super()-calling methods, all ways to reach the method, functions of every kind (generators and coroutines too), all arguments",
  "the tests call one pure virtual method of one class.",
  ["big/builtin.py", "big/state.py"], "pure_virtual, dispatch", None, "exceptions, which bodies ran, results, name, documentation, signature")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
