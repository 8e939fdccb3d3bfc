#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mech, where=", ".join(files))])))
I = ["inputs"]
T = "the unit tests exercise library helpers on a handful of literals; no test runs this tool with an expected result"

p("C01", "accuracy reports the minimum number of edit operations, at any text size",
  "For every correct and generated text, the Errors total that `accuracy` reports is the minimum number of character insertions, substitutions and deletions that turn the generated text into the correct one, where a reject character (~) in the generated text never matches and a ~ in the correct text is a wildcard that is not counted and excuses at most one generated character; Characters is the number of non-~ correct characters. The result is the same whichever of several optimal alignments is used and does not degrade for texts of more than 65,536 characters.",
  I, "all pairs of UTF-8 texts, including empty texts, texts with markers, wildcards, and long texts",
  "one large-file test checks identical texts and one-character changes; the optimality of the alignment is never compared with an independent edit distance",
  ["src/sync.c", "src/accuracy.c"], "fastukk_sync finds an optimal alignment with Ukkonen's diagonal method; process_synclist charges each unmatched region max(correct, generated - wildcards)")

p("C02", "Every figure of an accuracy report follows from the displayed alignment",
  "For the alignment that `synctext` displays for the same two files, every figure in the report of `accuracy` is determined: insertions, substitutions and deletions (marked if the generated side of the difference holds a reject or suspect character, else unmarked), reject characters, suspect markers, false marks, percentages, per-class and per-character counts and misses, and the confusion list with its errors and marked counts, 24-byte display limit and ordering by errors, then marked, then bytes. Sub-totals always add up to the totals printed.",
  I, "all pairs of texts with markers, rejects, wildcards, line ends and characters of any class",
  T, ["src/accuracy.c", "src/accrpt.c", "src/charclass.c"], "process_synclist walks the matched and unmatched regions and accumulates Accdata; write_accrpt formats it")

p("C03", "synctext on two files is a lossless, optimal alignment",
  "With two files and no -H or -T, the output of `synctext` contains both texts completely: substituting the first (second) member of each numbered difference into the matched text gives exactly the first (second) normalised text. Matched runs are equal in both files and hold no reject character, differences are numbered 1,2,... in order, and the total size of the differences (the longer side of each) is the minimum edit distance.",
  I, "all pairs of texts", T, ["src/sync.c", "src/synctext.c"], "fastukk_sync, obtain_matches, save_match; write_matches and write_differences")

p("C04", "Heuristic and multi-file synctext: lossless, longest-match-first alignment",
  "With -H or with 3 to 16 files, `synctext` shows every file's text completely and in order, and each matched run is present identically in all files without reject characters. Matches are found longest first: in every stretch between matches the chosen run is a longest common run (for more than two files, of the first file's run with each next file in turn) and a stretch is left unmatched only if that search finds nothing; more than 16 files are refused.",
  I, "all lists of 2..16 texts", T, ["src/sync.c", "src/synctext.c"], "synchronize / recursive_sync / longest_match / save_match")

p("C05", "synctext -T pairs transposed blocks greedily and completely",
  "`synctext -T` displays both texts completely, each matched block as {n:...} with numbers 1..k in the order of the first text and each number exactly once in each text around identical, reject-free strings. Blocks are longest common runs of what was still unmatched, longest first, so at the end no character other than ~ is left unmatched in both texts.",
  I, "all pairs of texts", T, ["src/sync.c", "src/synctext.c"], "transpose_sync / longest_match / number_matches / write_transposed")

p("C06", "editop counts insertions, deletions and moves of the block alignment",
  "`editop` reports as insertions the non-~ characters of the correct text left unmatched by the block alignment that `synctext -T` shows, and as deletions all unmatched generated characters. Its moves are those obtained by joining blocks that follow each other and repeatedly moving the block that reduces the number of blocks most (the shortest on a tie) until the correct order is reached, listed by length with lengths over 100 counted as 100; Moves is the sum of the list.",
  I, "all pairs of texts, with any permutation of blocks", T, ["src/editop.c", "src/sync.c", "src/edorpt.c"], "count_insertions, count_deletions, combine_adjacent, find_candidates, find_move, perform_move")

p("C07", "editopcost prices every threshold exactly",
  "For every threshold T from 0 to 100 `editopcost` prints T and insertions + sum over moves of min(length, T), in that order, for the given edit operation report. With a second report the printed cost is the first report's cost minus the second's.",
  I, "all edit operation reports and pairs of them, any counts", T, ["src/editopcost.c", "src/edorpt.c"], "read_edorpt, decrement_edodata, write_results")

p("C08", "accsum adds accuracy reports exactly, in any order or grouping",
  "`accsum` of two or more accuracy reports is an accuracy report in which every count (characters, errors, rejects, suspects, false marks, marked/unmarked/total operations, class, character and confusion counts) is the sum of the inputs' counts, with percentages recomputed from the sums. No confusion, class or character is lost, invented or merged, so the result does not depend on the order or grouping of the inputs, and a sum can itself be an input.",
  ["inputs", "histories"], "all lists of valid accuracy reports of at least two members, counts of any size the report format can hold, and all orders and groupings of them",
  "one test sums reports that mention graphic characters; additivity over arbitrary reports, large counts and re-summing are not tested",
  ["src/accsum.c", "src/accrpt.c"], "read_accrpt adds every field into one Accdata; add_conf/add_class; write_accrpt")

p("C09", "wordaccsum adds word accuracy reports exactly, in any order or grouping",
  "`wordaccsum` of two or more word accuracy reports is a word accuracy report whose every count (words, misrecognized, stopwords and non-stopwords by length, distinct non-stopwords by occurrences, phrases by length and each listed word) is the sum of the inputs', with percentages recomputed from the sums and the word lists merged in byte order. Words of any length survive unchanged, and the result is independent of the order and grouping of the inputs.",
  ["inputs", "histories"], "all lists of valid word accuracy reports, words of any length and script, any counts, all orders and groupings", T,
  ["src/wordaccsum.c", "src/wacrpt.c"], "read_wacrpt / read_numbers / read_terms / add_term / write_wacrpt")

p("C10", "editopsum adds edit operation reports exactly, in any order or grouping",
  "`editopsum` of two or more edit operation reports is an edit operation report whose insertions, deletions, moves and number of moves of each length are the sums of the inputs'. The result does not depend on the order or grouping of the inputs.",
  ["inputs", "histories"], "all lists of valid edit operation reports, any counts, all orders and groupings", T,
  ["src/editopsum.c", "src/edorpt.c"], "read_edorpt adds into one Edodata; write_edorpt")

p("C11", "groupacc selects exactly the group's characters",
  "`groupacc` prints one line with count, missed and %Right for each character of the group file, in file order, that occurs in the accuracy report (blanks and newlines excepted), with the very numbers of that report, and a Total line that is their sum. Characters of the report that are not in the group never contribute.",
  I, "all group files and accuracy reports, over all characters", T, ["src/groupacc.c", "src/accrpt.c"], "read_text of the group, read_accrpt into small_class, write_report")

p("C12", "accci and wordaccci print the jackknife confidence interval",
  "`accci` (`wordaccci`) prints the number of reports, the total characters (words), the total errors (misrecognized), the accuracy of the totals and the interval J +/- 1.96*s, clipped to 0..100, where J and s are the jackknife estimate and its standard error over the reports of the ratio accuracy. Fewer than two reports, or fewer than two with a non-zero count, is an error, not a number.",
  I, "all lists of accuracy / word accuracy reports", T, ["src/accci.c", "src/wordaccci.c", "src/ci.c"], "append_obs, valid_obslist, compute_ci")

p("C13", "accdist and wordaccdist print the accuracy distribution",
  "For x = 0..100 `accdist` (`wordaccdist`) prints x and the percentage of all characters (words) that belong to reports whose accuracy is x% or more; the values start at most at 100.00 and never increase. Reports with no characters (words) carry no weight and if nothing has weight nothing is printed.",
  I, "all lists of accuracy / word accuracy reports, including negative accuracies and empty reports", T,
  ["src/accdist.c", "src/wordaccdist.c", "src/dist.c"], "update_dist, write_dist")

p("C14", "ngram counts every n-gram once",
  "For n = 1, 2, 3 `ngram -n` lists every sequence of n consecutive characters that occurs in a file (never across files) with its exact number of occurrences and the number of those containing a suspect character; the totals are the sums. The listing appears twice: in character-code order, and by count, then suspect count, both descending, then character code.",
  I, "all lists of texts, all n", T, ["src/ngram.c", "src/sort.c", "src/table.c"], "process_file, add_sequence, order_by_value, order_by_count, write_report")

p("C15", "wordfreq counts every word once",
  "`wordfreq` lists each distinct word of all its files together with its exact number of occurrences, first in byte order and then by descending count and byte order, and both totals are the number of words. Files are independent: the result is that of adding up the single-file results, in any file order.",
  I, "all lists of texts", T, ["src/wordfreq.c", "src/word.c", "src/table.c", "src/sort.c"], "find_words, add_term, order_by_key, order_by_count")

p("C16", "vote outputs the winner of each position, with thresholds and weights",
  "For the alignment that `synctext -H` displays of the voting texts, `vote` outputs, position by position within each region, the character with most votes (the earliest voter's on a tie), where a reject casts no vote, a suspect character casts m and an unmarked one n votes under -w m/n (default 1/1), and a region ends when absence wins; if nobody votes a ~ is output. Under -s m/n an output character is marked ^ if and only if its votes are at most floor(voters*n_w*m/n); -O first selects the three voters closest to the median bigram counts (or all if fewer), and -o only changes the destination.",
  ["inputs", "configurations"], "all lists of 2..16 texts and all weight, threshold and optimise options", T,
  ["src/vote.c", "src/sync.c"], "select_voters, synchronize, perform_vote, place_vote, winner")

p("C17", "Words are the Unicode word segments of the text, lower-cased and in NFC",
  "The words used by `wordfreq`, `wordacc`, `nonstopacc` and stopword files are the segments that the Unicode 8 default word boundary rules (UAX #29) yield for the lower-cased text and that begin with a letter, mark, number, connector punctuation or private-use character, each in Unicode Normalization Form C. Segmentation depends on the characters alone, not on where in a file they are.",
  I, "all sequences of code points", "the tests check some thirty literal strings; boundary rules interact over unbounded sequences of all code points and properties",
  ["src/word.c", "src/word_break_property.h", "src/text.c"], "property lookup by binary search, find_next_boundary, find_words, append_word")

p("C18", "wordacc's misrecognized words are those outside a longest common subsequence",
  "`wordacc` reports as Words the number of words in the correct text and as Misrecognized that number minus the length of a longest common subsequence of the two word sequences, for every pair of texts, at every size it accepts. The printed accuracy is the corresponding percentage.",
  I, "all pairs of texts", T, ["src/wordacc.c", "src/word.c"], "setup / setup_array drop words unique to one side, compute_pathlist, obtain_matches")

p("C19", "wordacc's breakdown is consistent with a maximum word alignment",
  "There is a maximum word alignment from which every line of the report of `wordacc` follows: stopwords and non-stopwords by word length in characters (51 and longer count as 50), distinct non-stopwords by number of occurrences (missed only if every occurrence is), phrases of 1 to 8 successive words (missed if any word is) and the two word lists in byte order. A word is a stopword if and only if it is in the -S file or, without -S, in the 110-word default list, and all totals agree with each other.",
  ["inputs", "configurations"], "all pairs of texts, all stopword lists, words of any length", T,
  ["src/wordacc.c", "src/wacrpt.c", "src/stopword.c"], "determine_wacdata, process_terms, process_phrases, is_stopword, write_wacrpt")

p("C20", "nonstopacc traces accuracy as stopwords are removed one by one",
  "Line 0 of `nonstopacc` is the accuracy over all words of the report and line n the accuracy over the words that are not among the first n stopwords of the stopword file; a stopword listed again or absent from the report changes nothing. Output stops when no word is left, and an empty report yields no output.",
  I, "all stopword files, including repeated words, and all word accuracy reports", T, ["src/nonstopacc.c", "src/wacrpt.c"], "find_stopword, write_line, write_results")

p("C21", "Spacing differences never affect any result",
  "Tabs, carriage returns, form feeds, no-break and all other Unicode spaces count as blanks, and blanks at the ends of lines, repeated blanks, and blank lines are ignored by every tool that reads text: adding or removing them changes nothing in the output. All other characters, and the division into non-blank lines, are preserved.",
  I, "all texts and all insertions of blank characters and blank lines at places where blanks or line ends are, for every text-reading tool", "the tests compare a few fixed strings; the rule must hold for every placement and every kind of blank",
  ["src/text.c"], "is_blank, compress_spacing")

p("C22", "Input that is not valid UTF-8 is refused",
  "Every tool that reads text exits with a non-zero status, a message on standard error and no result when any text it reads is not well-formed UTF-8 (stray or missing continuation bytes, overlong forms, surrogates, values above U+10FFFF, truncation at end of file). Well-formed UTF-8 of any code point up to U+10FFFF is accepted.",
  I, "all byte strings as text input of all tools", "the tests feed three malformed files to the reader; the set of malformed strings and of places where they can occur is unbounded",
  ["src/text.c"], "read_contents decodes with utf8proc and calls error()")

p("C23", "No text input causes a memory error, crash or undefined behaviour",
  "Whatever text files are given to whatever tool that reads text, with whatever options, the tool ends by itself with status 0 or 1, without out-of-bounds or use-after-free access, reads of uninitialised memory, undefined arithmetic, stack overflow or a signal.",
  ["inputs", "configurations"], "all byte strings as text files, all options", "tests run without sanitizers on benign text",
  ["src/text.c", "src/sync.c", "src/word.c", "src/accuracy.c", "src/vote.c", "src/ngram.c", "src/wordacc.c", "src/charclass.c"], "fixed-size buffers for rendered characters and keys, arrays indexed by code point or word length, manual lists")

p("C24", "Damaged report files are handled safely and wrong ones rejected",
  "A file that does not begin as the expected kind of report is rejected by every report-reading tool with a non-zero status, a message naming the file, and no output. So is a report with an entry that no report can hold: a listed character that is not one (bad delimiters, bad UTF-8, a hexadecimal value beyond 10FFFF), a move length outside 1 to 100, a word or phrase length outside its table. Any other damage (truncation, changed bytes, huge or negative numbers, overlong lines) leads to a normal result or a reported error, never to a memory error, crash or hang.",
  I, "all byte strings as report files of all report-reading tools", T,
  ["src/accrpt.c", "src/wacrpt.c", "src/edorpt.c", "src/dist.c", "src/ci.c"], "read_accrpt, read_char, read_wacrpt, read_numbers, read_edorpt")

p("C25", "Incomplete reading or writing is never reported as success",
  "If any input cannot be opened or read completely, or any part of the output cannot be written (missing file or directory, directory given as file, I/O error, disk full at any byte), the tool exits with non-zero status and a message on standard error. Exit status 0 means that the complete result is in the output.",
  ["fault_sequences", "inputs"], "every tool, every input and output, every position of a read or write failure",
  "no test injects an I/O failure", ["src/util.c", "src/text.c", "src/accrpt.c", "src/wacrpt.c", "src/edorpt.c"], "open_file, close_file, terminate, error")

p("C26", "The command line is interpreted as documented by every tool",
  "Without arguments, or with -h or any longer prefix of -help, each tool prints its usage on standard error and exits 0. Options may stand anywhere, with their value attached or as the next argument, and only for the tool that documents them; an unknown or repeated option, a missing or invalid option value or a wrong number of files ends with a message `tool: ...` on standard error, status 1 and no result. An optional report-file argument receives exactly what standard output otherwise would.",
  ["configurations", "inputs"], "all argument vectors of all 17 tools", T,
  ["src/util.c", "src/vote.c", "src/ngram.c", "src/synctext.c", "src/wordacc.c"], "initialize, parse_args, split_option, show_usage, the argument checks in each main")

p("C27", "Results depend only on the contents of the inputs",
  "Each tool's output is a function of its options and input contents only: it is byte-identical on repetition, in any locale, directory or environment, whatever the inputs are called (except where names are displayed), whether an input is a regular file or a pipe, and with other instances running. Inputs are not modified and no file other than the requested output is created or left behind.",
  ["inputs", "configurations", "schedules"], "all tools, inputs, environments, input kinds, concurrent runs", "each test runs once, in one environment, on regular files",
  ["src/util.c", "src/text.c"], "read_text, open_file, tempfilename, delete_tempfiles; absence of setlocale and of uninitialised state")

p("C28", "The library's list, table and sort keep their contracts over any history",
  "Under any sequence of operations a list behaves as a sequence and a table as a map from strings: no element is lost, duplicated or reordered, counts, links and arrays agree with the contents, and look-ups are exact. sort() orders any array by the given comparison and returns a permutation of it.",
  ["histories", "inputs"], "all operation sequences on lists and tables, all arrays and comparison functions", "the tests run fixed short sequences",
  ["src/list.c", "src/table.c", "src/sort.c", "src/util.c"], "list_insert/list_remove/list_in_array, table_index/table_lookup, quicksort, ustrcmp")

p("C29", "Every character is displayed unambiguously and read back from reports",
  "In every report each character appears as itself if it is a graphic character (combining marks on a dotted circle), as <\\n> for a line end and as <HH> or <HHHH> hexadecimal otherwise, for all code points from U+0000 to U+10FFFF. Reading a report back restores exactly the same character, so report, sum and group tools agree on it, and it is counted in the character class of its code range.",
  I, "all 1,112,064 scalar values, in every report that shows characters", "tests render a dozen characters and parse a handful",
  ["src/text.c", "src/accrpt.c", "src/charclass.c", "src/groupacc.c", "src/ngram.c"], "char_to_string, is_graphic_character, is_combining_character, read_char, charclass")

p("C30", "Results stay exact and feasible at large scale",
  "Large inputs give the same exact results as small ones: more than 65,536 characters or words, more than 32,767 files, counts beyond 32 bits or eight columns, very long lines and words, and large vocabularies in sorted order. Running time, stack and memory use stay reasonable, so that such inputs finish: sorted input is no slower than other input, looking a word up does not mean going through all words, and the memory in use does not grow with the number of files read.",
  I, "all tools, inputs and counts up to the limits of memory", "one test uses files of about 70,000 characters with accuracy only",
  ["src/util.c", "src/sort.c", "src/accrpt.c", "src/wacrpt.c", "src/sync.c", "src/wordacc.c", "src/wordfreq.c"], "integer widths of indices and counts, fixed columns and line buffers of the readers, recursion depth of quicksort")

p("C31", "Exhausted memory is reported, never survived silently or crashed on",
  "If any memory allocation fails, at whatever point, the tool either still delivers its exact result with status 0 or reports the failure on standard error and exits with status 1 without writing a wrong result. It never crashes.",
  ["fault_sequences"], "every allocation of every tool's run as the failing one", "no test makes an allocation fail",
  ["src/util.c", "src/accrpt.c", "src/wacrpt.c", "src/word.c", "src/vote.c", "src/ngram.c"], "allocate() versus direct strdup/malloc/utf8proc allocations")

p("C32", "Suspect markers and vendor headers are recognised and never counted as text",
  "In texts, ^ is never a character of the text but marks the next character as suspect (also when repeated, before a blank or line end that survives, or at the end, where it marks nothing), ~ is the reject character, and a vendor-independent-interface header up to its second divider is skipped. A correct file with such a header is refused by `accuracy`, `wordacc` and `editop`, and stopword files have neither markers nor header.",
  I, "all texts with any placement of markers and headers, in all text-reading tools", T,
  ["src/text.c", "src/accuracy.c", "src/wordacc.c", "src/editop.c", "src/stopword.c"], "read_header, read_contents, Textopt of each tool, compress_spacing merging suspect flags")

p("C33", "Letter case matters to character tools and never to word tools",
  "Replacing letters by the letters they lower-case to changes no word, word count, word accuracy or stopword decision, and nothing in `synctext -i` except that it shows lower case. `accuracy`, `editop`, `ngram`, `vote` and plain `synctext` always distinguish letters that differ in case only.",
  I, "all texts, all letters that have a simple lower-case mapping", "one test lower-cases a fixed string", ["src/text.c", "src/wordacc.c", "src/wordfreq.c", "src/nonstopacc.c", "src/synctext.c"], "lowercase in read_text, Textopt.case_insensitive")

p("C34", "An interrupted run never looks successful",
  "A tool that receives SIGINT or SIGTERM before it has finished ends promptly with a non-zero status and has not produced a complete-looking result. Nothing is left behind in the temporary directory.",
  ["fault_sequences", "schedules"], "every tool, both signals, any moment before completion", "no test sends a signal",
  ["src/util.c"], "trap_interrupts, handle_interrupt, quit")

p("C35", "Whole pipelines agree with each other",
  "Evaluation pipelines are consistent: summing per-page reports equals reporting on the pooled counts, `accsum` totals feed `groupacc`, `accdist` and `accci` to the same figures as the pages do, character counts of `accuracy` equal those of `ngram` on the same correct file, word counts of `wordacc` equal those of `wordfreq`, `editop` equals `synctext -T`, and a text against itself has no errors, no moves and is the outcome of its own vote.",
  ["inputs", "histories"], "all corpora of page pairs and all compositions of the tools", "no test composes two tools over generated data",
  ["src/accuracy.c", "src/accsum.c", "src/ngram.c", "src/wordacc.c", "src/wordfreq.c", "src/editop.c", "src/synctext.c", "src/vote.c"], "independent code paths over the same text model")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
