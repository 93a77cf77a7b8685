"""Statements of the properties. `python3 gen.py` writes properties.jsonl and MANIFEST.json from this file and props.py."""
S = 'src/sclite/'
A = 'src/asclite/core/'
def P(id, title, statement, over, text, why, files, mech, observe, level_note, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=None), _note=level_note)
PROPS = [
 P('C01', 'sclite word alignments are complete, ordered and of minimum cost',
   'For every reference and hypothesis transcript sclite scores, the alignment it reports contains every reference word and every hypothesis word exactly once, in order and unchanged; words labelled correct match and words labelled substituted differ. The total cost (correct 0, insertion 3, deletion 3, substitution 4) is the minimum over all alignments.',
   ['inputs'], 'all pairs of word sequences', 'the stored outputs sample a few hundred word pairs; an optimality or conservation fault needs a particular repeat pattern of words',
   [S + 'align.c', S + 'net_adt.c', S + 'net_dp.c', S + 'word.c', S + 'path.c'], [('dynamic programming over the two word networks and back-trace', S + 'net_dp.c'), ('local word distance', S + 'word.c'), ('alignment assembly', S + 'path.c')],
   ['alignment record on stdout (-o sgml)'], 'all values of the word letters and counts within the bounds; the oracle is a textbook edit-distance recurrence over the input text'),
 P('C02', 'sclite pairs utterances by id and groups them by speaker',
   'With transcript inputs every hypothesis utterance is scored exactly once, against the reference utterance with the same id (ids compare without case unless case-sensitive scoring is asked for), whatever the order of the files, comment lines, blank lines or a missing final newline; a reference without hypothesis is ignored. Each utterance is counted under the speaker its id names for the chosen id type, and a speaker keeps its utterances in hypothesis order. A hypothesis with no reference, or with two differing references, is refused with a non-zero exit.',
   ['inputs', 'configurations'], 'all id assignments, file orders, separators, id types and faults', 'tests use a handful of corpora whose files are in matching order and free of faults',
   [S + 'align.c', S + 'scores.c', S + 'text.c'], [('id lookup and pairing', S + 'align.c'), ('speaker extraction by id type', S + 'align.c'), ('speaker groups', S + 'scores.c')],
   ['alignment record on stdout (-o sgml)', 'exit status'], 'ids, order of reference file, line forms and faults symbolic within the bounds'),
 P('C03', 'sclite summary reports equal a tally of the alignments',
   'In the raw and percentage summary reports, each speaker row and the total row equal the tally over the reported alignments: sentences, reference words, correct, substituted, deleted, inserted, errors and sentences with errors, with percentages taken over reference words and sentence error over sentences. The Mean, S.D. and Median rows are those statistics of the speaker rows, where speakers without reference words take part in counts but not in percentages.',
   ['inputs'], 'all combinations of utterance outcomes over several speakers, including empty references', 'stored outputs cover a few corpora; empty references, ties and rounding cases are not among them',
   [S + 'scores.c', S + 'rpg.c', S + 'statdist.c'], [('per-speaker accumulation', S + 'scores.c'), ('report tables', S + 'scores.c'), ('mean, variance and median', S + 'statdist.c')],
   ['raw (-o rsum) and percentage (-o sum) report files'], 'counts re-derived from the alignment record; printed percentages accepted within half a unit of the last digit'),
 P('C04', 'sclite detailed and printed-alignment reports equal the alignments',
   'The overall and per-speaker detail reports list exactly the confusion pairs, insertions, deletions, substitutions and falsely recognized words of the reported alignments, each with its count and in non-increasing order of count, and their percentages are those counts over reference words; the per-sentence report gives each utterance its own counts and the running totals. The printed alignments show every utterance once with its id and scores, and every aligned pair once in order with its evaluation letter, whatever the word lengths and line width; the full form (prf) shows the times and confidence of each word in its column.',
   ['inputs', 'configurations'], 'all small sets of utterances and word lengths', 'stored outputs contain one sample of each report',
   [S + 'sc_dtl.c', S + 'path.c', S + 'alex.c', S + 'scores.c'], [('confusion and word lists', S + 'sc_dtl.c'), ('alignment printing', S + 'path.c')],
   ['report files (-o dtl spk snt pra prf)'], 'report text is parsed and compared with the alignment record of the same run'),
 P('C05', 'sclite alternations score the best choice',
   'When the reference contains alternations ({ a / b c / @ }, nested or in sequence, @ being the empty alternative), the alignment uses exactly one alternative of each, its words in order and unchanged, and every hypothesis word exactly once; the total cost is the minimum over every choice of alternatives and every alignment.',
   ['inputs'], 'all choices of words in the alternation shapes given', 'tests hold a few alternations; the best choice depends on the pattern of equal words',
   [S + 'net_adt.c', S + 'net_dp.c', S + 'word.c', S + 'align.c'], [('network construction from text', S + 'net_adt.c'), ('alignment of two networks', S + 'net_dp.c')],
   ['alignment record on stdout (-o sgml)'], 'ten alternation shapes (nesting depth 2, up to 2 in sequence), words symbolic; oracle enumerates the expansions'),
 P('C06', 'sclite optional words and word fragments',
   'With -D a word written (w), on either side, may be left unpaired without being an error (it is labelled correct, cost 2) and otherwise compares as w. With -F a word with a trailing (or leading) hyphen matches any word that begins (or ends) with the rest of it. All other words compare exactly, unpaired words are errors, and the alignment is of minimum cost under these rules. Without the options the marks have no special meaning for matching.',
   ['inputs', 'configurations'], 'all words and placements of marks', 'tests use fixed files',
   [S + 'word.c', S + 'net_dp.c', S + 'align.c', S + 'text.c'], [('word comparison with fragments', S + 'word.c'), ('optional deletion costs', S + 'word.c')],
   ['alignment record on stdout (-o sgml)'], 'at most one side of a pair is a fragment; word letters and forms symbolic'),
 P('C07', 'sclite compares words with the case folding of the chosen encoding',
   'For every word in every supported encoding (default 8-bit, ext_ascii, gb, euc, utf-8) and every case-conversion localization, two words match exactly when they are equal after case folding, or when they are equal byte for byte with -s. Folding maps ASCII capitals to small letters; in ext_ascii also the accented Latin-1 capitals; in utf-8 also exactly the capitals of the alphabet of the chosen localization (Turkish: I to dotless i and dotted I to i); multi-byte characters of gb and euc, and everything else, are left alone. Words are reported folded (unchanged with -s) and are never split or joined inside a multi-byte character.',
   ['inputs', 'configurations'], 'all characters of the encodings, one and two per word', 'the unit tests list a few strings per localization',
   [S + 'text.c', S + 'align.c', S + 'word.c'], [('case conversion', S + 'text.c'), ('comparison', S + 'text.c')],
   ['alignment record on stdout (-o sgml)'], 'every code point of the lead-byte ranges given, symbolic; the expected alphabets are kept in harness/alphabets.h (Unicode simple case mapping)'),
 P('C08', 'sclite -c aligns the characters of the words',
   'With -c the units aligned are the characters of the ref and hyp words in order (a multi-byte character of the encoding is one unit); with NOASCII a run of ASCII characters inside a word stays one unit; with DH hyphens are dropped before alignment, also when nothing is left of a word. In Guarani g with a tilde is one unit. An optionally deletable word (-D) becomes optional units and an alternation (a / b) offers the units of either side; the alignment chooses the best. The alignment contains every unit exactly once in order and has the minimum cost (0/3/3/4).',
   ['inputs', 'configurations'], 'all words over the character kinds of the encodings', 'the stored outputs use one Mandarin corpus',
   [S + 'text.c', S + 'align.c', S + 'net_adt.c'], [('separation into characters', S + 'text.c'), ('expansion of the network', S + 'align.c')],
   ['alignment record on stdout (-o sgml)'], 'oracle: units computed from the generated characters, edit-distance recurrence'),
 P('C09', 'sclite -S finds the best word segmentation the lexicon allows',
   'With -S algo1 the hypothesis (with algo2 the reference) is treated as a sequence of characters (ASCII words stay whole unless ASCIITOO), any run of which that is a word of the lexicon may be taken as one word. The alignment reported spells that side completely and in order with single characters and lexicon words only, contains every word of the other side once in order, and its cost (0/3/3/4) is the minimum over all such segmentations; case is ignored unless -s is given. Only the first column of the lexicon is used.',
   ['inputs', 'configurations'], 'all lexicons, references and hypotheses within the bounds', 'the stored outputs use one lexicon',
   [S + 'align.c', S + 'net_adt.c', S + 'net_dp.c', S + 'text.c', S + 'word.c'], [('lexicon arcs', S + 'net_adt.c'), ('lexicon', S + 'text.c')],
   ['alignment record on stdout (-o sgml)'], 'oracle: dynamic programming over reference position and character position'),
 P('C10', 'sclite scores time-marked hypotheses in the right reference segment',
   'With an stm reference and a ctm hypothesis, every reference segment is scored exactly once, in order, for its speaker, with its file, channel, labels and times; every hypothesis word of that file and channel is scored in the first segment that ends after the middle of the word, or the last one, with its own times and confidence, and the alignment of each segment is complete and of minimum cost. Segments marked IGNORE_TIME_SEGMENT_IN_SCORING and the words in them are left out. Comments and blank lines change nothing. A hypothesis alternation (<ALT_BEGIN> ... <ALT> ... <ALT_END>) counts by its better choice, in the segment of the latest of its words. With -m ref the segments that lie outside the time span of the channel\'s hypothesis words are left out, with -m hyp the words that lie outside the span of its reference segments. Hypothesis data for a file or channel the reference does not have is refused.',
   ['inputs'], 'all word times, segment assignments, speakers, labels and channel layouts', 'the boundary behaviour depends on times no test samples',
   [S + 'stm2ctm.c', S + 'fillmrks.c', S + 'stm.c', S + 'align.c'], [('segment assignment', S + 'stm2ctm.c'), ('ctm reader', S + 'fillmrks.c'), ('stm reader', S + 'stm.c')],
   ['alignment record on stdout (-o sgml)', 'exit status'], 'times on a quarter-second grid, up to 3 channels in 2 files, up to 3 segments a channel; hypothesis words sorted by time and by midpoint'),
 P('C11', 'sclite aligns time-marked words with time-marked words',
   'With ctm files on both sides, each channel (one or two per file) is aligned as a whole: every word of both sides appears exactly once, in order and unchanged, with its own times and confidence, under its file and channel. The alignment is of minimum cost: word costs (insertion 3, deletion 3, substitution 4), or with -T the time costs (an unpaired word costs its duration; a pair costs the distance of its begin and end times, plus 0.001 when the words differ). An alternation on either side counts by its better choice. Long channels may be divided into consecutive numbered parts, each of minimum cost. A file or channel that only one side has is refused.',
   ['inputs', 'configurations'], 'all words and times within the bounds', 'tests use one conversation',
   [S + 'ctm2ctm.c', S + 'fillmrks.c', S + 'word.c', S + 'net_dp.c', S + 'path.c'], [('channel walk and division', S + 'ctm2ctm.c'), ('time distance', S + 'word.c')],
   ['alignment record on stdout (-o sgml)', 'exit status'], 'times on a quarter-second grid; one job crosses the 50-word division point with a concrete prefix'),
 P('C12', 'sclite weighted scoring adds up the word weights',
   'With -w FILE each word carries the weight the list gives it (unlisted words the default weight: 0, or the one the list declares); with -w unity every word weighs 1; @ and optionally deleted words weigh 0. The alignment is of minimum weighted cost: an insertion or deletion costs its word, a substitution the sum of the two words, a match nothing. The weighted report (-o wws) gives for each speaker and in total the weights of reference words, correct, substituted, deleted and inserted words and errors as percentages of the reference weight.',
   ['inputs', 'configurations'], 'all word patterns and weight assignments within the bounds', 'one test uses one weight list',
   [S + 'word.c', S + 'scores.c', S + 'net_dp.c', S + 'path.c'], [('weighted local distance', S + 'word.c'), ('weighted report', S + 'scores.c')],
   ['alignment record on stdout (-o sgml)', 'weighted report file (-o wws)'], 'weights on a half-unit grid, total row restricted to whole-number totals (KF-wws-sum)'),
 P('C13', 'sclite alignment records can be stored and read back unchanged',
   'Alignment records that sclite writes (-o sgml, -p) can be read back (-P): every system, speaker, utterance, attribute (id, labels, file, channel, sequence, times, case and character flags, weights) and word with its times, confidence and weights comes back unchanged, for any number of systems, speakers, utterances and words, and the reports made from the records read back are those of the originals. Words may hold any printable characters other than double quote and semicolon.',
   ['inputs', 'histories'], 'all records within the bounds', 'tests read back one file; attributes, characters and array growth are not varied',
   [S + 'scores.c', S + 'path.c', S + 'sgml.c', S + 'sclite.c'], [('record writer', S + 'scores.c'), ('record reader', S + 'scores.c'), ('tag parser', S + 'sgml.c')],
   ['alignment record on stdout', 'report files'], 'a record given as text is read and written again; one job crosses the initial sizes of the speaker and utterance arrays'),
 P('C14', 'sclite labelled-utterance reports split the scores by label',
   'With an stm reference whose segments carry category labels, the labelled-utterance report (-o lur) shows for each speaker and label the number of reference words and the word error rate over exactly the utterances of that speaker that carry the label; the overall column is over all utterances of the speaker. The total row is over all speakers, and Mean, StdDev and Median are those statistics over the speakers that have reference words under the label.',
   ['inputs'], 'all assignments of labels, speakers and word outcomes', 'one stored report',
   [S + 'lur.c', S + 'scores.c', S + 'rpg.c', S + 'statdist.c'], [('label tallies', S + 'lur.c')],
   ['labelled-utterance report (-o lur)'], 'labels, speakers and words symbolic within the bounds; figures re-derived from the alignment record'),
 P('C15', 'sclite confidence measures follow the word outcomes',
   'When hypothesis words carry confidences, the summary reports give each speaker with reference words, and the total, the normalized cross entropy computed from exactly the hypothesis words and whether each was correct (0 when all are correct or all are wrong). The DET curve has one point for each word dropped in order of confidence, at the normal deviates of the fraction of correct words dropped and of incorrect words kept; the confidence histograms count every hypothesis word once in its bin, and the scaled one (sbhist) divides the words, in order of confidence, into bins of equal count.',
   ['inputs'], 'all word outcomes and confidence values on the grid', 'one stored output; degenerate sets are never sampled',
   [S + 'det.c', S + 'scores.c'], [('NCE', S + 'scores.c'), ('DET curve and histograms', S + 'det.c')],
   ['summary reports', 'DET and histogram data files (-C)'], 'confidences from a grid of six values including 0 and 1; scaled-bin histograms (sbhist) and confidences outside 0..1 are outside'),
 P('C16', 'sc_stats significance tests follow from the alignments compared',
   'For alignments of two or more systems on the same utterances, whatever order each system lists its speakers and utterances in: the McNemar table counts the utterances each pair of systems got right or wrong, its probability is the two-tailed binomial one, and the system with fewer unique utterance errors wins exactly when it is below 0.05. The matched pairs test (mapsswe) compares every error of both systems, in segments separated by two jointly correct words, and decides by the Z statistic of the segment differences at 1.96. The sign and Wilcoxon tests use the speakers\' word error rates, with the stated treatment of zero and tied differences, and name the better system only when significant at 95%. The analysis of variance gives Friedman\'s statistic corrected for ties and compares systems pairwise only when it rejects equality. The unified report (-u) repeats for every pair the decision of every test, with a significance level and stars that agree with it.',
   ['inputs'], 'all error patterns over the utterances and speakers', 'one stored output per test; small, tied, degenerate and reordered data are never sampled',
   [S + 'sentmcn.c', S + 'mcnemar.c', S + 'mtchprs.c', S + 'signtest.c', S + 'wilcoxon.c', S + 'anovar.c', S + 'rank.c', S + 'statdist.c'], [('McNemar', S + 'mcnemar.c'), ('matched pairs', S + 'mtchprs.c'), ('sign test', S + 'signtest.c'), ('Wilcoxon', S + 'wilcoxon.c'), ('Friedman', S + 'anovar.c')],
   ['verbose test reports (-v -t ...)'], 'probabilities over 20 trials use a normal approximation and are compared to 0.005; the matched pairs decision when all segment differences are equal (zero variance) is outside'),
 P('C17', 'ROVER aligns every word of every system and votes by the stated score',
   'For two or more hypothesis files with the same files and channels, the correspondence sets (-m putat) have one entry per system: every word of every system appears exactly once, in order, in its own file and channel, with its times and confidence, and the other entries are null words with the null confidence (-c). Where no common silence splits the words, each system is aligned to the network of those before it at minimum cost (match 0, insertion or deletion 3, substitution 4, against a null 1, skipping a null 0.001). The voted output holds, for each set, the word with the highest score - alpha times its share of the systems plus (1-alpha) times its confidence (average, maximum, or share of the total, by method) - with its average time, duration and confidence, and nothing when the null word wins; -m oracle lists every alternative once. Systems that run out of words contribute nulls; files or channels that do not match are refused.',
   ['inputs'], 'all word sequences, confidences, alpha and null confidence on the grid', 'one demo output is compared',
   [S + 'rover.c', S + 'mfa.c', S + 'net_dp.c', S + 'net_adt.c', S + 'word.c', S + 'fillmrks.c'], [('voting', S + 'rover.c'), ('chunking', S + 'mfa.c'), ('n-way alignment', S + 'net_dp.c')],
   ['rover output file'], 'ties are accepted either way; maxconfa and meth1a, input alternations and silence chunking beyond conservation are outside'),
 P('C18', 'sc_stats multi-system reports follow from the alignments read',
   'For alignments of two or more systems, whatever order each system lists its speakers and utterances in and whether or not every system has every speaker and utterance: the summaries (sum, rsum) have a row for every speaker and a column for every system, giving that system\'s word error rate (errors) for that speaker and nothing when it does not have the speaker, with the total, mean, deviation and median over the system\'s own speakers. The executive summaries (es, res) give every system\'s utterances, reference words, rates (counts) and sentence errors over everything it has. The alignment report (prn) shows exactly the utterances all systems have; when their references are equal it shows every reference word and every word of every system in order, each below the reference word it is aligned with (errors in capitals, stars for deletions), wrapped without losing or joining words, and counts the reference words and those no system got right, in the utterance, in the summary and in the list of words; when the references differ the alignments are shown apart and not counted. The label report (lur) gives every label\'s words and error rate per system, with the mean, deviation and median over the speakers that have reference words for it.',
   ['inputs', 'configurations'], 'all error patterns, orders and missing speakers or utterances over the systems', 'one stored output per report, of systems with the same speakers in the same order',
   [S + 'scores.c', S + 'corresp.c', S + 'lur.c', S + 'sc_stats.c'], [('summaries', S + 'scores.c'), ('alignments', S + 'corresp.c'), ('labels', S + 'lur.c')],
   ['reports (-r sum rsum es res prn lur)'], 'two or three systems (30 for the tables), up to three speakers; the systems have the same label definitions; the NCE column is outside'),
 P('C19', 'rfilter1 rewrites text exactly as its rule file says',
   'For every rule file and every input line, rfilter1 moves a cursor over the line from left to right; at each position the first rule of the file whose string A stands there, with its left context C just before it and its right context D just after it in the input line, is applied: B is written and the cursor moves past A. Where no rule matches, the character is copied (or dropped when COPY_NO_HIT is false) and the cursor moves by one. Matching ignores letter case exactly when CASE_SENSITIVE is false. A context that would reach beyond the line does not match; each line is rewritten on its own. Strings may be bare or bounded by brackets or double quotes (which may hold blanks, and slashes within brackets); text after the comment token is ignored; a file may hold any number of rules up to MAX_NRULES, including none. No byte outside the line is read.',
   ['inputs'], 'all rule strings, contexts and input lines over the alphabets used', 'two rule files are compared',
   ['src/rfilter1/rfilter1.c', 'src/rfilter1/include/aprules2.c', 'src/rfilter1/include/grules2.c'], [('rule application', 'src/rfilter1/include/aprules2.c'), ('rule file', 'src/rfilter1/include/grules2.c')],
   ['standard output'], 'the oracle is the linear search of doc/GLMRules.txt over the rules as written'),
 P('C20', 'asclite word alignments are complete, ordered and of minimum cost',
   'For every single-speaker reference and hypothesis transcript asclite scores, the alignment it reports contains every reference word and every hypothesis word exactly once, in order and unchanged; correct words match and substituted words differ. The total cost (correct 0, insertion 3, deletion 3, substitution 4) is the minimum over all alignments. A reference with alternations ({ a / b c / @ }) is aligned along one choice per alternation, and the cost is the minimum over all choices; with -D words in parentheses cost nothing extra when left out or matched and count as correct as documented; with -F a word fragment (a- or -a) matches the words it begins or ends.',
   ['inputs'], 'all pairs of word sequences', 'tests compare a few corpora',
   [A + 'levenshtein.cpp', A + 'graph.cpp', A + 'graph_coordinate.cpp', A + 'segment.cpp', A + 'token.cpp', A + 'linestyle_inputparser.cpp', A + 'trn_inputparser.cpp', A + 'sgml_reportgenerator.cpp'], [('graph search', A + 'graph.cpp'), ('cost model', A + 'levenshtein.cpp'), ('token graph', A + 'segment.cpp')],
   ['alignment record on stdout (-o sgml)'], 'all values of the word letters and counts within the bounds; the oracle is a textbook edit-distance recurrence over the input text'),
 P('C21', 'asclite scores rttm words with their speakers, -spkr-align the right speaker',
   'For every rttm hypothesis, whose words carry speakers that may overlap, and every stm or rttm reference: exactly the lexemes of the lexical types (lex, fp, frag, un-lex, for-lex, alpha, acronym, interjection, propernoun, in either case) are scored; fp, frag, un-lex and for-lex words are the ones marked as optional and with -D may be left out on either side without being an error; a reference lexeme belongs to the latest SPEAKER segment of its speaker. Every reference word is reported once in its segment, every hypothesis word once with its text, times and confidence, in order for each hypothesis speaker, in the group of segments its mid-time falls in. Without -spkr-align the alignment is of minimum total cost over all assignments of hypothesis speakers to reference speakers; with -spkr-align FILE a matching word of a hypothesis speaker that FILE does not map to the reference speaker (for that file and channel) costs 1 more, is a substitution and is marked as a speaker substitution, and only such words are; the total is again the minimum.',
   ['inputs', 'configurations'], 'all words, types, speakers, times and speaker maps within the bounds', 'tests compare two recordings',
   [A + 'rttm_inputparser.cpp', A + 'speakermatch.cpp', A + 'graph.cpp', A + 'stt_scorer.cpp', A + 'sgml_reportgenerator.cpp', A + 'ctmstmrttm_segmentor.cpp'], [('lexemes and segments', A + 'rttm_inputparser.cpp'), ('speaker map', A + 'speakermatch.cpp'), ('costs', A + 'graph.cpp'), ('labels', A + 'stt_scorer.cpp')],
   ['alignment records on stdout (-o sgml)'], 'the oracle is an edit-distance recurrence over two hypothesis and two reference speakers'),
 P('C22', 'asclite scores overlapping speech: every word once, at minimum total cost',
   'For every time marked reference (stm) with any number of speakers, overlapping in any way, on any channels, and every time marked hypothesis (ctm), asclite groups the reference segments of a channel that are chained by overlap, assigns each hypothesis word to the group its mid-time falls in (or to the inter segment gap when there is none), and aligns each group with its hypothesis words: every reference word is reported in its own segment, speaker and channel, in order and unchanged; every hypothesis word is reported exactly once with its text and time, never with another channel or group; words in a gap are insertions; the words of a group with an IGNORE_TIME_SEGMENT_IN_SCORING segment are not scored. The total cost (0/3/3/4) is the minimum over all ways to assign the hypothesis words to the speakers. Comment lines, blank lines, label fields and confidences change nothing; several hypothesis systems are each scored as if alone.',
   ['inputs'], 'all segment times, overlaps, channels, speakers, word times and words within the bounds', 'tests compare a few recordings',
   [A + 'graph.cpp', A + 'levenshtein.cpp', A + 'ctmstmrttm_segmentor.cpp', A + 'stm_inputparser.cpp', A + 'ctm_inputparser.cpp', A + 'uemfilter.cpp', A + 'aligner.cpp', A + 'sgml_reportgenerator.cpp'], [('segment groups', A + 'ctmstmrttm_segmentor.cpp'), ('multi-dimensional search', A + 'graph.cpp'), ('gaps', A + 'uemfilter.cpp')],
   ['alignment records on stdout (-o sgml)'], 'the oracle is a three-speaker edit-distance recurrence over the input data; known finding: gaps are only made for an odd number of hypothesis words'),
 P('C23', 'asclite summary tables agree with the alignments of the same run',
   'For every input, the raw (-o rsum) and percentage (-o sum) tables of asclite show for each speaker, in order, the number of segments, reference words, correct, substituted, deleted, inserted and erroneous words and segments with errors of the alignments reported in the same run (with -spkr-align, also the right words of wrong speakers, which are errors); percentages are relative to the reference words of the row, counts are shown flagged with * for a speaker without reference words; the total row is over all speakers, and the Mean, S.D. (n-1) and Median rows are over the speakers (flagged + when speakers had to be left out).',
   ['inputs'], 'all distributions of words over speakers and utterances', 'tests compare a few tables',
   [A + 'rawsys_reportgenerator.cpp', A + 'statistics.cpp'], [('tables', A + 'rawsys_reportgenerator.cpp'), ('statistics', A + 'statistics.cpp')],
   ['tables on stdout'], 'the tables are recomputed from the alignment records of the same run'),
 P('C24', 'asclite selection options score exactly the segment groups they select',
   'For every time marked reference and hypothesis: -noisg leaves hypothesis words outside all reference segments unscored; -overlap-limit N and -overlap-min N score exactly the groups of overlapping segments with at most, respectively at least, N different reference speakers (an inter segment gap counts as one) and report nothing of the other groups, neither their segments nor their hypothesis words; the selected groups are scored completely and at minimum cost as without the option. -spkrautooverlap ref, hyp or both refuses, with a non-zero exit, exactly the input in which the segments of a reference speaker, or the words of the hypothesis, of one channel overlap each other.',
   ['inputs', 'configurations'], 'all segment times, overlaps, channels, speakers, word times and words within the bounds, for each option', 'tests use -noisg and -overlap-limit on one recording',
   [A + 'recording.cpp', A + 'spkrautooverlap.cpp', A + 'segmentsgroup.cpp', A + 'ctmstmrttm_segmentor.cpp', A + 'main.cpp'], [('selection', A + 'recording.cpp'), ('self overlap', A + 'spkrautooverlap.cpp')],
   ['alignment records on stdout (-o sgml), exit code'], 'same oracle as C22, restricted to the selected groups'),
 P('C25', 'asclite -uem restricts scoring to the evaluated time',
   'With a UEM file, for every set of evaluated intervals, reference segments and hypothesis words: a reference segment is scored exactly when it lies within an interval of its file and channel; one that crosses the border of an interval is refused with a non-zero exit and never scored; a hypothesis word is scored exactly when its mid-time lies in an interval of its file and channel (names compare whole), with the segments it falls in, or as an insertion when it falls in none. What is scored is complete and of minimum total cost as without a UEM file.',
   ['inputs'], 'all interval borders, segment times and word times on a quarter second grid', 'tests use one UEM file',
   [A + 'uemfilter.cpp', A + 'recording.cpp', A + 'speech.cpp'], [('UEM rules', A + 'uemfilter.cpp')],
   ['alignment records on stdout (-o sgml)'], 'a word exactly at the end of an interval, and words in a channel without any scored reference, are left open'),
 P('C26', 'asclite pruning and memory options do not change the scores',
   'For every input, storing the cost table compressed under any memory limit, whatever the compressor can or cannot compress, and pruning, time penalties or limits that the recording stays within (-time-prune, -word-time-align, -overlap-limit, -memory-limit, -difficulty-limit) leave the result as it is without these options: the alignment is complete and has the minimum total cost, and scoring always ends.',
   ['inputs', 'fault_sequences'], 'all inputs and all patterns of incompressible blocks within the bounds', 'tests run few inputs with few options',
   [A + 'graph.cpp', A + 'compressedlevenshteinmatrix.cpp', A + 'arraylevenshteinmatrix.cpp'], [('compressed cost table', A + 'compressedlevenshteinmatrix.cpp'), ('pruning', A + 'graph.cpp')],
   ['alignment records on stdout (-o sgml)'], 'LZMA itself is replaced by a lossless stand-in whose compressibility per block is symbolic; LZMA code is outside the claim'),
 P('C27', 'asclite -generic-cost aligns all words of all outputs once, at minimum cost',
   'For every set of time marked outputs, none of which is the reference, asclite -generic-cost reports sets of words: every word of every output is in exactly one set, with its own text, times, file, channel, confidence and output, the words of each output in order; a set has at most one word of each output and a place for every output; words are only aligned within a stretch of overlapping words of one file and channel; and over each stretch the sets have the minimum total cost (3 for every output of the stretch without a word in a set, 4 for every word of a set that is not its most frequent word).',
   ['inputs'], 'all word times, durations, overlaps, channels and words of two or three outputs within the bounds', 'no test uses the option',
   [A + 'graph.cpp', A + 'ctmstmrttm_segmentor.cpp', A + 'sgml_generic_reportgenerator.cpp', A + 'recording.cpp'], [('cost of a set', A + 'graph.cpp'), ('report', A + 'sgml_generic_reportgenerator.cpp')],
   ['XML report on stdout'], 'words have a positive length and do not overlap within an output; cost model as in doc/asclite.pod'),
 P('N01', 'The Perl and shell filters and scoring scripts transform files as documented',
   'csrfilt, hubscr, chfilt, def_art, acomp, tanweenFilt, hamzaNorm, utf_filt, the rttm/ctm/stm converters and validators, align2html, slatreport and md-eval transform every well-formed input as their documentation states and reject malformed input.',
   ['inputs'], 'all input files', 'tests run one or two files per script',
   ['src/hubscr/hubscr.pl', 'src/csrfilt/csrfilt.sh', 'src/md-eval/md-eval.pl'], [('scripts', 'src/hubscr/hubscr.pl')], ['files written by the scripts'], 'not claimed'),
 P('N02', 'sclite -d alignments by GNU diff are complete',
   'With -d every word of both sides appears once in the alignment that sclite builds from the output of the external diff program.',
   ['inputs'], 'all pairs of word sequences', 'tests run a few files',
   [S + 'align.c'], [('diff alignment', S + 'align.c')], ['alignment record on stdout'], 'not claimed'),
 P('N03', 'The LZMA codec of asclite is lossless',
   'Every block of the cost table that is compressed is decompressed to the same bytes.',
   ['inputs'], 'all blocks', 'tests compress a few blocks',
   [A + 'compressedlevenshteinmatrix.cpp'], [('LZMA', A + 'lzma/LzmaEnc.c')], ['scores'], 'not claimed'),
 P('N04', 'sclite -L weights words by their language-model information',
   'With -L each word is weighted by the information the N-gram model assigns to it in its context.',
   ['inputs'], 'all texts and models', 'tests use one model',
   [S + 'sclite.c', S + 'slm_intf.c'], [('model interface', S + 'slm_intf.c')], ['weighted report'], 'not claimed'),
]
NA = [
 dict(property='N01', reason='Perl and shell programs: none of the tools here can execute Perl symbolically or encode it for a solver'),
 dict(property='N02', reason='the deciding code is the external diff binary run as a separate process, which is outside the repository and its encoding'),
 dict(property='N03', reason='the range coder and match finder over a symbolic block make a path and a formula per byte history; out of reach even for blocks of a few bytes, and shorter blocks exercise none of it. C26 replaces the codec by a lossless stand-in'),
 dict(property='N04', reason='binary N-gram models and logarithms of products of floating-point probabilities over symbolic data are out of reach; weights given with -w are decided by C12'),
]
