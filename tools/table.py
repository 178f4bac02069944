"""The properties, in words; sa/registry.py says which of them have a check."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, obs):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, obs=obs))


prop('C01', 'Results depend only on the arguments',
     'Diffing, applying, merging, parsing, formatting and reversing are functions of their arguments: the same arguments '
     'give the same result in every process, on every thread, in every order of earlier calls. No call reads or writes '
     'anything outside its arguments (clock, environment, files, standard streams, randomness, global or thread-local state), '
     'and no result depends on hash order or on memory addresses.',
     ['inputs', 'histories', 'schedules'], 'every argument of every public function, every history of earlier calls, every schedule of concurrent calls',
     'Tests run each call once in one process with one hash seed; a dependence on history, seed or environment needs a second, different world.',
     ['src/diff/mod.rs', 'src/merge/mod.rs', 'src/apply.rs', 'src/patch/mod.rs', 'src/patch/parse.rs', 'src/patch/format.rs', 'src/utils.rs'],
     [('line classifier: the hash table is only looked up, never iterated', 'src/utils.rs Classifier')],
     ['create_patch', 'apply', 'merge', 'Patch::from_str', 'Patch::to_bytes', 'Display for Patch'])
prop('C02', 'Memory-safe, thread-shareable values that only lend out',
     'The crate contains no unsafe code; patches, hunks, lines, options, formatters and errors can be shared between and sent to '
     'threads whenever the text they borrow can; errors are boxable as Error + Send + Sync. A patch borrows nothing but the '
     'texts it was made from, results of apply, merge and to_bytes own their data, and nobody can change a patch through '
     'what its accessors lend out.',
     ['programs', 'schedules'], 'every safe program using the public API',
     'A test is one program that compiles; these statements are about all programs, including those that must not compile.',
     ['src/lib.rs', 'src/patch/mod.rs', 'src/patch/parse.rs', 'src/patch/format.rs', 'src/apply.rs', 'src/diff/mod.rs', 'src/merge/mod.rs'],
     [('private fields, shared references and lifetimes of the public types', 'src/patch/mod.rs Patch, Hunk, Line')],
     ['type signatures of the public API'])

prop('C03', 'A failing writer is always reported',
     'When the writer or formatter a patch is written to fails, at any point of the output, writing stops there: the error '
     'is returned to the caller, nothing more is written, nothing panics, and no error is deferred to a place where it is lost.',
     ['fault_sequences', 'inputs'], 'every patch, every formatter setting, every point of the output at which the writer can fail',
     'Tests write to vectors and strings, which never fail.',
     ['src/patch/format.rs', 'src/patch/mod.rs'],
     [('error propagation of the writers', 'src/patch/format.rs write_into / fmt'), ('file name writers', 'src/patch/mod.rs Filename')],
     ['PatchFormatter::write_patch_into', 'Display for Patch', 'PatchFormatter::fmt_patch'])
prop('C04', 'Options mean what they say and arguments go where they belong',
     'A fresh DiffOptions asks for three lines of context and the names original and modified, a fresh MergeOptions for seven '
     'marker characters and the diff3 style, a fresh PatchFormatter for no colour and the missing-newline line. A setter '
     'changes its own setting to the given value and nothing else, for every value and in every order of calls. The settings '
     'reach the code they control unchanged. create_patch and merge are the same as the default options, the byte functions '
     'get what the text functions get, and the old and new text, ours, theirs and the ancestor are never exchanged.',
     ['inputs', 'histories'], 'every option value, every sequence of setter calls, every argument',
     'Tests set one option at a time to one value and look at small outputs in which exchanged arguments often look alike.',
     ['src/diff/mod.rs', 'src/merge/mod.rs', 'src/patch/format.rs', 'src/patch/mod.rs'],
     [('option structs and their setters', 'src/diff/mod.rs DiffOptions, src/merge/mod.rs MergeOptions, src/patch/format.rs PatchFormatter'),
      ('wiring of the entry points', 'src/diff/mod.rs create_patch, src/merge/mod.rs merge')],
     ['DiffOptions', 'MergeOptions', 'PatchFormatter', 'create_patch', 'merge', 'Patch accessors'])
prop('C05', 'The formatter writes exactly the documented patch syntax',
     'Formatting a patch yields, for every patch and every formatter: the `--- ` and `+++ ` lines with the file names that '
     'are present, then each hunk as `@@ -RANGE +RANGE @@` followed by a blank and the function context when there is one, '
     'then each line with its one-character sign and its text; a line without a final newline gets one, followed by the '
     '`\\ No newline at end of file` line when that option is on; a blank context line is written without its sign when '
     'suppress_blank_empty is on. A range is `start,len`, or `start` alone when len is 1. With colour, the same text is '
     'wrapped in escape sequences that are switched off again on the same line.',
     ['inputs'], 'every patch, hunk and line, every formatter setting',
     'Tests format a few patches with default options; the grammar is a product of line kinds, terminators, colour and two flags.',
     ['src/patch/format.rs', 'src/patch/mod.rs'],
     [('line, hunk and patch writers', 'src/patch/format.rs LineDisplay, HunkDisplay, PatchDisplay'), ('range syntax', 'src/patch/mod.rs HunkRange Display')],
     ['Patch::to_bytes', 'Display for Patch', 'PatchFormatter'])
prop('C06', 'All ways of writing a patch agree',
     'Display, to_bytes, PatchFormatter::fmt_patch and write_patch_into produce the same bytes for the same patch and '
     'settings; the byte writer and the text writer of every part (patch, hunk, line, file name) write the same text.',
     ['inputs'], 'every patch and every formatter setting',
     'The two writers are separate pieces of code for each part; a test compares them on the patches it happens to use.',
     ['src/patch/format.rs', 'src/patch/mod.rs'],
     [('paired writers', 'src/patch/format.rs write_into / fmt')],
     ['Patch::to_bytes', 'Display for Patch', 'PatchFormatter::fmt_patch', 'PatchFormatter::write_patch_into'])
prop('C07', 'File names survive a round trip through the header',
     'Every file name a patch can carry is written in a form that the parser reads back as the same name: names with '
     'quotes, backslashes or control characters are quoted and escaped with the escapes the parser decodes, plain names '
     'are written plainly, and the parser cuts an unquoted name at the first tab and strips the line ending. Malformed '
     'quoted names (unknown escape, dangling backslash, stray quote) are rejected, never misread.',
     ['inputs'], 'every byte and character of every file name',
     'The writer and the reader hold separate tables over all 256 bytes and all characters; tests try one or two escapes.',
     ['src/patch/mod.rs', 'src/patch/parse.rs'],
     [('escape tables', 'src/patch/mod.rs Filename'), ('unescaping', 'src/patch/parse.rs escaped_filename, parse_filename')],
     ['Patch::from_str', 'Patch::from_bytes', 'Patch::to_bytes', 'Patch::original', 'Patch::modified'])
prop('C08', 'Hunk bodies are read line by line as the syntax says',
     'In a hunk body every line is read by its first character: blank, `-`, `+` give a context, deleted or inserted line with '
     'the rest of the line as its text, an empty line is an empty context line, `@` or the end of the text ends the hunk, and '
     'every other line is rejected. `\\ No newline at end of file` removes the newline of the line before it and is only '
     'accepted when there is one; after it no further line of the same side is accepted. No line is skipped, read '
     'twice, reordered or altered.',
     ['inputs', 'histories'], 'every sequence of lines of every length',
     'The reader is an automaton whose state depends on all earlier lines; tests walk a handful of its paths.',
     ['src/patch/parse.rs'],
     [('line automaton', 'src/patch/parse.rs hunk_lines')],
     ['Patch::from_str', 'Patch::from_bytes'])

prop('C13', 'Applying replaces exactly the old lines of each hunk, in order',
     'A hunk is accepted at a position exactly when its old lines (context and deleted) fit there, none of the lines there '
     'was produced by an earlier hunk, and every text is equal. Applying it replaces exactly those lines by its new lines '
     '(context and inserted), which no later hunk may match again; all other lines stay. Hunks are applied in order, each '
     'to the result of the one before; the first one that fits nowhere makes the whole call fail and is named by its number '
     'counted from 1. The result is the texts of the lines joined in order. This holds for texts and for bytes.',
     ['inputs', 'histories'], 'every base text, every patch, every position of every hunk',
     'Tests apply a few well-formed patches where hunks neither overlap nor drift; the conditions are about arbitrary images and positions.',
     ['src/apply.rs'],
     [('comparison at a position', 'src/apply.rs match_fragment'), ('replacement', 'src/apply.rs apply_hunk'), ('loop over the hunks', 'src/apply.rs apply, apply_bytes')],
     ['apply', 'apply_bytes', 'ApplyError'])
prop('C14', 'A hunk is looked for everywhere, nearest position first',
     'The search for a hunk starts at the line its new range names (for an empty range, right after that line; never beyond '
     'the end of the image), then tries positions in order of distance, the earlier one first when two are equally far, '
     'until every position up to the last line of the image has been tried; the first position that matches is '
     'taken, and the hunk fails only when none matches.',
     ['inputs', 'histories'], 'every image length and every hunk position',
     'The search is a loop over two interleaved directions whose exhaustion order depends on image length and start; tests try small drifts.',
     ['src/apply.rs'],
     [('search', 'src/apply.rs find_position'), ('alternation', 'src/apply.rs Interleave')],
     ['apply', 'apply_bytes'])

prop('C09', 'The parser turns inconsistent patches away and loses nothing',
     'Parsing skips lines only up to the first line that starts with `--- `, `+++ ` or `@@ `; then reads any number of `---` '
     'and `+++` lines, each kind at most once, in either order, and then hunks until the end of the text. Every hunk starts '
     'with a header `@@ -RANGE +RANGE @@`, optionally followed by a blank and the function context without its newline; '
     'RANGE is `start,len` or `start` meaning one line, and its end must be a representable number. A hunk is rejected when '
     'its body has not exactly the old and new line counts its header names, and the patch is rejected when the hunks '
     'are out of order or overlap on either side. A patch that is accepted has exactly those names, ranges, contexts, bodies '
     'and hunks, in the order of the text; the first violation makes the whole call fail, none is skipped.',
     ['inputs', 'histories'], 'every text: every sequence of header lines and hunks, every pair of ranges, every number of hunks',
     'Rejection is a conjunction of conditions over all hunks and header lines; tests try one malformed patch per error, mostly with a single hunk.',
     ['src/patch/parse.rs'],
     [('hunk header and range', 'src/patch/parse.rs hunk_header, range'), ('counts against ranges', 'src/patch/parse.rs hunk'),
      ('order of the hunks', 'src/patch/parse.rs verify_hunks_in_order'), ('header lines', 'src/patch/parse.rs patch_header, skip_header_preamble'),
      ('whole text', 'src/patch/parse.rs parse, parse_bytes, hunks')],
     ['Patch::from_str', 'Patch::from_bytes'])

prop('C17', 'Texts are cut into lines and searched without loss, alike for text and bytes',
     'A text is cut into lines so that the lines, put together, are the text: no line is empty, every line reaches up to and '
     'including its first newline, and only the last may lack one; no other byte (carriage return, form feed, NUL, 0x1A) '
     'ends or shortens a line. Testing for a prefix or suffix, removing it, searching and cutting compare bytes exactly, '
     'mean the same for `str` and `[u8]`, find the first occurrence, and cut exactly around it. A number is read from the '
     'whole piece of text or not at all; bytes that are not UTF-8 are no number.',
     ['inputs'], 'every text, every byte string, every pattern',
     'Line cutting and searching are loops over arbitrary bytes; tests see short ASCII texts.',
     ['src/utils.rs'],
     [('lines', 'src/utils.rs LineIter'), ('text and bytes', 'src/utils.rs impl Text for str, impl Text for [u8]'), ('search', 'src/utils.rs find_bytes, find_byte')],
     ['create_patch', 'create_patch_bytes', 'merge', 'merge_bytes', 'apply', 'apply_bytes', 'Patch::from_str', 'Patch::from_bytes'])
prop('C16', 'A merge result is complete, in order, and an error exactly when it has conflicts',
     'The text of a merge is built from the list of merge ranges in order, every range once: unchanged and cleanly changed '
     'ranges give exactly the lines of the text they name (a change made on both sides once), a conflict gives the marker `<` '
     'labelled ours, our lines, in diff3 style the marker `|` labelled original and the ancestor lines, the marker `=` and their '
     'lines, and the marker `>` labelled theirs, also where a side is empty. Every marker line starts a line of its own, has the '
     'configured length, its label after one space, and ends with a newline. The result is Err exactly when at least one '
     'conflict is in it, however many; text and bytes alike.',
     ['inputs'], 'every list of merge ranges, every text, both styles, every marker length',
     'The tests merge a few short texts; empty sides, many conflicts and unterminated last lines are hardly sampled.',
     ['src/merge/mod.rs'],
     [('result', 'src/merge/mod.rs output_result, output_result_bytes'), ('markers', 'src/merge/mod.rs add_conflict_marker, add_conflict_marker_bytes')],
     ['merge', 'merge_bytes', 'MergeOptions::merge', 'MergeOptions::merge_bytes'])

prop('C15', 'A merge takes each change from its side and conflicts only where both changed',
     'A three-way merge walks the two edit scripts (ancestor to ours, ancestor to theirs) together and loses nothing: every line of '
     'the ancestor, of ours and of theirs is in exactly one region, in order, regions being cut where either script changes its mind. '
     'Regions between two stretches that both sides kept form one change: it is taken from ours when only ours differs from the ancestor '
     'there, from theirs when only theirs does, once when both made the same change, and is a conflict of exactly the ancestor, our and '
     'their lines of that stretch in every other case. Nothing that both sides kept is part of a change, and no merge panics on the way.',
     ['inputs'], 'every pair of edit scripts over one ancestor, of every length',
     'The tests merge a few dozen short texts; how insertions, deletions and empty sides of neighbouring regions combine is a product no test list covers.',
     ['src/merge/mod.rs', 'src/range.rs'],
     [('walking both scripts', 'src/merge/mod.rs merge_solutions'), ('grouping into changes', 'src/merge/mod.rs diff3_range_to_merge_range, set_or_merge_range, create_merge_range'),
      ('resolving', 'src/merge/mod.rs cleanup_conflicts')],
     ['merge', 'merge_bytes', 'MergeOptions::merge', 'MergeOptions::merge_bytes'])

prop('C10', 'Reading, printing, turning around and applying a patch never panics',
     'Whatever text or bytes are read as a patch, the answer is a patch or an error; whatever patch came out of the library, looking at any '
     'part of it, turning it around and printing it in any style gives a result; and whatever text a patch is applied to, the answer is a text '
     'or an error. None of these panics: no index, slice or subtraction goes out of range, no sum overflows, no text is cut inside a '
     'character, and nothing is unwrapped that may be missing.',
     ['inputs', 'histories'], 'every text and every byte string as a patch, every patch that was read or made, every text as a base',
     'The tests parse about twenty patches, nearly all ASCII and well formed; a panic needs a text that ends at the wrong place, a lone quote, a character of several bytes or a huge number at the place that cuts or adds.',
     ['src/patch/parse.rs', 'src/patch/mod.rs', 'src/patch/format.rs', 'src/apply.rs', 'src/utils.rs'],
     [('reading', 'src/patch/parse.rs parse, parse_bytes and all that they call'), ('the parts of a patch', 'src/patch/mod.rs'), ('printing', 'src/patch/format.rs'), ('applying', 'src/apply.rs apply, apply_bytes')],
     ['Patch::from_str', 'Patch::from_bytes', 'Patch::reverse', 'Patch::to_bytes', 'PatchFormatter', 'apply', 'apply_bytes'])

prop('C12', 'Reversing a patch exchanges its two sides and nothing else; clones are equal',
     'The reverse of a patch has the modified name as its original name and the original name as its modified name (absent where absent), '
     'and its hunks in the same order, each with old and new range exchanged, the same function context, and the same lines in the same order, '
     'deleted lines becoming inserted ones and inserted ones deleted ones, context lines staying; the same for `Hunk::reverse` and `Line::reverse`. '
     'So reversing twice gives the patch back. A clone of a patch has the same names, hunks, ranges, contexts and lines. Neither panics. Text and bytes alike.',
     ['inputs'], 'every patch: any number of hunks and lines, any ranges, names and contexts, built or parsed',
     'Two tests reverse patches made by the library itself, with both names, without function contexts, and look at the lines only.',
     ['src/patch/mod.rs'],
     [('reverse', 'src/patch/mod.rs Patch::reverse, Hunk::reverse, Line::reverse'), ('clone', 'src/patch/mod.rs impl Clone for Patch, Hunk, Filename, Line')],
     ['Patch::reverse', 'Hunk::reverse', 'Line::reverse', 'Patch::clone'])

prop('C18', 'A diff or merge sees two lines as equal exactly when they are the same bytes',
     'Before they are compared, the lines of all texts of a diff or a merge are numbered: every line of every text, whole and in order, '
     'gets one number, and two lines (of one text or of different ones, terminated or not, blank or not) get the same number exactly when '
     'they consist of the same bytes. This holds however many different lines there are: a number never comes back for another line, and '
     'a line met before always gets the number it had, also when it was met in another of the texts.',
     ['inputs', 'histories'], 'every text of any number of lines, after any lines numbered before; for text and bytes',
     'The tests diff texts of a few dozen lines; lines that differ in their end only, and thousands of different lines, are not sampled.',
     ['src/utils.rs', 'src/diff/mod.rs', 'src/merge/mod.rs'],
     [('numbering', 'src/utils.rs Classifier::classify, Classifier::classify_lines'), ('one table for all texts', 'src/diff/mod.rs DiffOptions::create_patch, create_patch_bytes; src/merge/mod.rs MergeOptions::merge, merge_bytes')],
     ['create_patch', 'create_patch_bytes', 'merge', 'merge_bytes', 'DiffOptions::create_patch', 'MergeOptions::merge'])

prop('C19', 'A diff covers both texts in order, and calls unchanged only what is equal',
     'Before it is turned into hunks, a comparison of two texts is a list of stretches: unchanged lines, deleted lines, inserted lines. '
     'Read in order, the unchanged and the deleted ones are the old text and the unchanged and the inserted ones are the new text: every '
     'line of both occurs exactly once, none is skipped, repeated or out of place. A stretch called unchanged has as many lines in the old '
     'as in the new text, and they are equal. The start that two texts have in common, and the end that the rest has in common, are '
     'unchanged in full: neither is ever shown as a deletion and an insertion of the same lines.',
     ['inputs'], 'every pair of texts, of any lengths and with any common start and end',
     'The tests compare a few dozen short texts; texts whose common start and end overlap, or meet in the middle, are not sampled.',
     ['src/diff/myers.rs', 'src/range.rs', 'src/diff/mod.rs'],
     [('division at the common start, the common end and the middle', 'src/diff/myers.rs conquer, diff'), ('the common start and end', 'src/range.rs SliceLike::common_prefix_len, common_suffix_len'), ('comparison and clean-up', 'src/diff/mod.rs DiffOptions::diff_slice')],
     ['create_patch', 'create_patch_bytes', 'merge', 'merge_bytes', 'DiffOptions::create_patch', 'MergeOptions::merge'])

prop('C20', 'Tidying a diff up moves changes, and keeps it a diff of the same two texts',
     'After a comparison, changes are shifted up and down past unchanged lines and merged with their neighbours. That never changes what the '
     'diff says: whatever is rewritten, the new stretches cover the same lines of the old and of the new text as the ones they replace, once '
     'each and in order; a stretch called unchanged afterwards has equally many lines on both sides, and each of its lines is known to be '
     'equal (it was unchanged before, or was compared and found equal). Only changes are shifted, an unchanged stretch never is, and '
     'shifting panics for no diff.',
     ['inputs', 'histories'], 'every list of stretches that covers two texts, after any number of shifts, a change at any place in it',
     'The tests contain a handful of diffs that are shifted by one or two lines; shifts at the first or last stretch, past a stretch that becomes empty, or of a change next to a change of the other kind are not sampled.',
     ['src/diff/cleanup.rs', 'src/range.rs'],
     [('shifting and merging', 'src/diff/cleanup.rs shift_diff_up, shift_diff_down'), ('which changes, in which order', 'src/diff/cleanup.rs compact'), ('growing and shrinking ranges', 'src/range.rs DiffRange, Range')],
     ['create_patch', 'create_patch_bytes', 'merge', 'merge_bytes', 'DiffOptions::create_patch', 'MergeOptions::merge'])

prop('C21', 'The hunks of a patch hold every change once, with the context asked for',
     'Whatever list of unchanged, deleted and inserted stretches a comparison ends with, and whatever number of context lines is asked for: '
     'every change is in exactly one hunk, the hunks come in order and none repeats a line of another; the lines of a hunk are the deleted '
     'lines of the old text, the inserted lines of the new text and the unchanged lines between and around them, without a gap; around '
     'a change are as many unchanged lines as asked for, or all that there are, and changes share a hunk only when no more lines are between them '
     'than their context takes; the header of each hunk gives where its lines start and how many there are of each side (the line before, '
     'when there are none). Making hunks never panics, however many context lines are asked for.',
     ['inputs', 'configurations'], 'every list of stretches with up to two changes (three or four: with the usual shapes), stretches of any length, any number of context lines',
     'The tests compare the printed patches of some forty pairs of short texts, nearly all with three context lines; changes next to the ends of a text, changes exactly at the distance where hunks join, no context, and very large context are not sampled together.',
     ['src/diff/mod.rs', 'src/patch/mod.rs'],
     [('making hunks', 'src/diff/mod.rs to_hunks, calc_end'), ('finding the changes', 'src/diff/mod.rs build_edit_script'), ('the counts of a hunk', 'src/patch/mod.rs Hunk::new')],
     ['create_patch', 'create_patch_bytes', 'DiffOptions::set_context_len', 'DiffOptions::create_patch', 'DiffOptions::create_patch_bytes'])

PROPS = P
NOTES = {
    'C01': 'Decides the effect discipline over every monomorphic body of diffy reachable from the whole public API: no callee from an '
           'explicit list of ambient effects, no hash-table iteration, no mutable static, no address comparison or exposure. Callees '
           'in std and nu-ansi-term are judged by name and not analysed further.',
    'C02': 'The compiler decides: lint unsafe_code forbidden for the crate, witnesses that must type-check, violating twins that must be '
           'rejected with the named error code. Trusts rustc.',
}
NA = {}
ENGINE = ('Every path of the monomorphic MIR is enumerated by an abstract interpreter (exact symbolic text, linear facts, closed forms or '
          'loop invariants with trace partitioning for loops) and its result compared with the specification class by class. ')
NOTES['C03'] = ENGINE + 'Every write forks into success and failure; a path on which a failure is followed by success, by another write or by a panic is the violation.'
NOTES['C05'] = ENGINE + 'Formatting machinery of std is modelled by name. Writers are assumed not to fail (C03 is about failing writers).'
NOTES['C06'] = ENGINE + 'Pairs of functions are compared path by path with nested writers left opaque; each nested pair is compared itself.'
NOTES['C07'] = ENGINE + 'Writer and reader tables are extracted for all bytes and all characters below 0x80 and compared exhaustively; characters above are one class.'
NOTES['C08'] = ENGINE + 'The product of the code partitions of the loop and the specification automaton is explored to a fixed point.'

NOTES['C04'] = ENGINE + 'The inner diff, merge and output functions are opaque calls whose arguments are traced to their origin; what they do is the subject of the other properties.'
NOTES['C13'] = ENGINE + 'The search is an opaque call here (C14), and so is splitting the base into lines.'
NOTES['C14'] = 'The search loop (with the comparison as an opaque predicate) and a specification automaton are explored together over all abstract loop states; the relation between loop variables and the specification is inferred and checked to be inductive. Skipping positions that cannot fit is tolerated.'
NOTES['C09'] = ENGINE + 'Every function of the parser is compared with its own specification, the functions it calls staying opaque; loops over lines, hunks and header lines by invariants or by a product with the specification. Number parsing is std and trusted.'
NOTES['C17'] = ENGINE + 'First occurrences are decided by what the facts of a path say about the positions passed over, with an inductive bound for the search loops. Prefix tests, searches and number parsing of `str` are std and trusted.'
NOTES['C16'] = ENGINE + 'Marker lines are opaque in the function that puts the result together and compared with their own specification. The loop over the ranges is explored together with the specification (conflict seen or not); where that leaves a doubt, lists of up to two ranges are followed exactly to refute.'
NOTES['C15'] = ENGINE + 'The three passes are each explored as a product of one loop round with one step of the specification, the relation between loop variables and specification being found and proved inductive; lists of up to three entries are followed exactly to refute. That the edit scripts themselves are right is the subject of other properties.'
NOTES['C12'] = ENGINE + 'Lists of hunks and lines are in closed form (one rule per element), so every element of every list is compared; where no closed form is found, lists of up to two elements are followed exactly to refute. The clone of a borrowed or owned text is std and trusted.'
NOTES['C18'] = ENGINE + 'The loop over the lines is decided for any number of lines: a round looks the whole next line up in the table and either takes its number or a number above all others, which it remembers. The public entry points are followed exactly for texts of up to two lines (one for merges), and the numbers of a history of 70000 new lines are derived from the transfer function to refute. Hash tables of std are trusted (a table finds a key exactly when an equal one was put in).'
NOTES['C19'] = ENGINE + 'The loops that count the common start and end are decided for any lengths (every counted item compared equal, the next one not, or a side ends). The division of a comparison into parts is decided on every path: the stretches that it appends, with its two recursive calls taken to cover what they are given, tile both texts. The middle point that divides the rest is taken to lie within both rests (its search, which works on arrays of furthest points, is beyond this analysis: see not_applicable), so what is decided is that any such point gives a diff, not that the diff is short.'
NOTES['C20'] = ENGINE + 'Every round of the two shifting loops is decided for a list of any length and a change at any place of it: the analysis finds the window of the list that the round replaces and shows that the replacement covers the same ranges, with unchanged stretches justified by earlier ones or by the counts of common items. Panics must contradict what is known of neighbouring stretches. The tidying pass around them changes the list by shifts only, which start at a change. Definite violations come from exact runs of one or two rounds. That shifting ends is not part of this property.'

NOTES['C21'] = ENGINE + 'The function that makes hunks (with all it calls) is interpreted for lists of stretches written out item by item: every kind order with one change, all orders of two changes with or without unchanged ends, and lists of three and four changes with joined and separate hunks, in each case for stretches of any length and any number of context lines. The resulting hunks are compared, part by part, with the expected ones; a difference is reported with small numbers that show it. Lists with five or more changes are not gone through.'

NOTES['C10'] = ENGINE + 'Every function of the crate that the public functions of this property reach is interpreted with arguments of any value its types allow, and each place that may panic (checks of indices and slices, overflow, character boundaries, unwrap, assertions, panics of the modelled library functions) is shown unreachable; a function that may panic for some arguments is followed inside its callers instead. Two facts carry over from one step to the next, each decided by itself: ranges that the parser accepts have an end, and undoing the quoting of a name turns text into text. Definite panics come from exact paths, following loops for one or two rounds from the start. Making a diff and merging are not part of this property; memory exhaustion is not looked at.'
