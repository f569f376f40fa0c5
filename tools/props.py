"""Source of truth for properties.jsonl and MANIFEST.json (run tools/meta.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, observe=observe, state=state))


prop('C01', 'The word alignment sclite reports is a minimum-cost alignment',
     'For every reference and hypothesis, the alignment sclite reports for an utterance has the lowest total cost attainable, where a correct word costs 0, an insertion or deletion 3, a substitution 4 and an optionally deletable word may be skipped for 2 and counted correct. '
     'Where the reference or the hypothesis offers alternatives, including nested and empty ones, the choice of alternatives is part of the minimisation. The length and the difficulty of the utterance do not matter.',
     ['inputs'], 'every pair of reference and hypothesis word strings or alternation networks',
     'The tests compare a few fixed transcripts with stored reports; minimality is a statement about all competing alignments of all inputs.',
     ['src/sclite/net_dp.c', 'src/sclite/align.c', 'src/sclite/word.c', 'src/sclite/path.c'],
     [('dynamic programming over word networks', 'src/sclite/net_dp.c'), ('word distance function', 'src/sclite/word.c'), ('backtrace into a path', 'src/sclite/net_dp.c')],
     'The optimum is recomputed by an independent network dynamic program for every observed alignment; bounds are those of the generated inputs (utterances up to 400 words, nesting depth 3).',
     'runtime monitor: reference-model cost oracle over observed alignments', ['sgml and pra output of sclite'])

prop('C02', 'Alignments contain exactly the words of the inputs, in order',
     'In every alignment sclite reports, reading off the reference side gives exactly the words of the reference utterance (or of one path through its alternatives) in order and with their spelling, and likewise for the hypothesis: nothing is lost, duplicated, truncated, reordered or moved to another utterance. '
     'Every utterance of the hypothesis (or segment of a reference segment file) appears exactly once. This holds for transcript, segment/time-mark and text inputs, for both alignment methods, and for any word spelling the format can carry.',
     ['inputs', 'configurations'], 'every reference/hypothesis set in the supported format pairs, words of any length and any bytes the format allows',
     'The tests contain ordinary English words in small files; loss at buffer limits, odd spellings or the end of a file is outside what they sample.',
     ['src/sclite/align.c', 'src/sclite/scores.c', 'src/sclite/path.c', 'src/sclite/stm2ctm.c', 'src/sclite/text.c', 'src/sclite/fillmrks.c', 'src/sclite/dwtoke2.c', 'src/sclite/wtokeini.c'],
     [('network creation from text', 'src/sclite/net_adt.c'), ('GNU diff alignment import', 'src/sclite/align.c'), ('line reading with growing buffers', 'src/sclite/text.c')],
     'Conservation is checked on every utterance of every generated set in five format/method combinations.',
     'runtime monitor: word-conservation checker over recorded alignments', ['sgml output of sclite'])

prop('C03', 'Words match exactly when the case, fragment and deletability options say so',
     'Two words are scored as matching if and only if they are equal under the selected options: letter case is ignored unless case-sensitive scoring is selected, fragments match by their spelled part only when fragment scoring is selected, and parenthesised words are optionally deletable only when that option is selected. '
     'Options that are not selected have no effect, and a match under the options is never reported as an error.',
     ['inputs', 'configurations'], 'every pair of words and every combination of -s, -F and -D',
     'The tests use each option on one fixed set; near-miss pairs and option combinations are not sampled.',
     ['src/sclite/word.c', 'src/sclite/align.c', 'src/sclite/sclite.c'],
     [('word distance with fragment and optional-deletion flags', 'src/sclite/word.c'), ('word creation from text and flags', 'src/sclite/word.c')],
     'Every generated pair is judged against an independent statement of the matching rules.',
     'runtime monitor: matching-rule oracle over observed alignments', ['sgml output of sclite'])

prop('C04', 'Transcripts are paired and grouped by utterance id, or refused',
     'Every hypothesis utterance is scored against the one reference utterance with the same id, whatever the order of the files, extra references, comments or blank lines, and is counted under the speaker its id names for the selected id type. '
     'Hypotheses without a reference, duplicated hypotheses and conflicting duplicated references are refused with a non-zero exit that names the ids, instead of being scored wrongly.',
     ['inputs', 'configurations'], 'every pair of transcript files and every id type',
     'The tests score a few well-formed files; ordering, duplicates, case of ids and missing partners vary freely in use.',
     ['src/sclite/align.c', 'src/sclite/sclite.c', 'src/sclite/scores.c'],
     [('reference lookup by id', 'src/sclite/align.c'), ('speaker extraction by id type', 'src/sclite/align.c')],
     'Pairings, speakers and refusals of every generated set are compared with an independent model.',
     'runtime monitor: pairing oracle over recorded alignments and exit status', ['sgml output, exit status and messages of sclite'])

prop('C05', 'Time-marked words are scored in the segment that contains their midpoint',
     'When a time-marked hypothesis is scored against a segment reference, each hypothesis word is aligned within the segment of its file and channel whose interval its midpoint falls into, words outside scored regions are treated as the documented reduction options say, and segments marked to be ignored are neither scored nor counted. '
     'Each scored reference segment appears exactly once under its speaker with its file, channel, times and labels; a hypothesis channel that is absent counts as all deletions.',
     ['inputs', 'configurations'], 'every segment reference and time-marked hypothesis, any number of files, channels, segments and words',
     'The tests have a handful of files well below the internal buffer sizes and without boundary cases.',
     ['src/sclite/align.c', 'src/sclite/stm2ctm.c', 'src/sclite/dwtoke2.c', 'src/sclite/fillmrks.c'],
     [('midpoint segmentation', 'src/sclite/align.c'), ('buffered word and segment reading', 'src/sclite/dwtoke2.c, src/sclite/stm.c')],
     'An independent segmentation model decides the expected word lists of every segment; times are exact binary fractions.',
     'runtime monitor: segmentation oracle over recorded alignments', ['sgml output of sclite'])

prop('C06', 'Time-marked to time-marked alignments are complete and minimal',
     'When both sides are time-marked, each channel of each file is aligned completely against the same channel of the other side: no word is dropped, scored twice or credited to another channel, and times and confidences reported for a word are the ones it was given. '
     'Aligned by words, each unit has minimal word cost; aligned by time, each unit has minimal total time displacement under the documented time cost, and null alternatives are never scored as words.',
     ['inputs', 'configurations'], 'every pair of time-marked files with any channels, lengths and alternatives, with and without time-mediated alignment',
     'The tests score one or two small channels; chunk boundaries, one-word channels and alternatives under time alignment are not reached.',
     ['src/sclite/align.c', 'src/sclite/word.c', 'src/sclite/net_dp.c', 'src/sclite/dwtoke2.c'],
     [('chunked ctm to ctm alignment', 'src/sclite/align.c'), ('time-mediated distance', 'src/sclite/word.c')],
     'Conservation, minimal cost and the times of every word are recomputed for every channel.',
     'runtime monitor: conservation and cost oracle over recorded alignments', ['sgml output of sclite'])

prop('C07', 'All sclite reports of a run agree with its alignments',
     'Every figure sclite prints follows from the alignments of the same run: correct, substitution, deletion, insertion and sentence-error counts and percentages per speaker and in total, means, standard deviations and medians over speakers, per-utterance scores, printed alignments, and the lists of confusion pairs and of inserted, deleted and substituted words with their frequencies. '
     'Speakers without reference words are shown as counts and left out of the averages as the report says. Every requested report covers every speaker and utterance.',
     ['inputs', 'configurations'], 'every scored set and every combination of report options',
     'Stored reports pin a few runs; agreement between reports for other numbers of speakers, empty references or long lines is not tested.',
     ['src/sclite/scores.c', 'src/sclite/rpg.c', 'src/sclite/path.c', 'src/sclite/order.c', 'src/sclite/statdist.c'],
     [('score accumulation', 'src/sclite/scores.c'), ('table generator', 'src/sclite/rpg.c')],
     'All figures of all reports of every generated run are recomputed from its sgml alignments to the printed precision.',
     'runtime monitor: cross-report consistency checker', ['sys, raw, pra, prf, dtl, spk, snt and sgml reports of sclite'])

prop('C08', 'The labelled-utterance report counts exactly the utterances carrying each label',
     'For every label, the report sclite makes by labels shows, per speaker and over the set, the reference words and the word error of exactly the segments whose label field carries that label, in the order the labels are defined, for any number of labels the report can hold and any label ids, whether or not some segments have no or only some labels. '
     'Means, standard deviations and medians are over the speakers with reference words under the label. A segment that uses an undefined label, or a label in two category positions, is refused.',
     ['inputs', 'configurations'], 'every labelled segment reference and hypothesis',
     'The tests have one labelled set with a few short label ids.',
     ['src/sclite/lur.c', 'src/sclite/scores.c', 'src/sclite/stm2ctm.c'],
     [('label and category definitions', 'src/sclite/scores.c'), ('label report', 'src/sclite/lur.c')],
     'All cells of the report are recomputed from the sgml alignments and the labels given.',
     'runtime monitor: label-count oracle over reports', ['lur and sgml reports of sclite'])

prop('C09', 'Weighted scoring uses exactly the weights of the weight list',
     'When sclite scores with a word-weight list (-w), every aligned word carries the weight the list gives its spelling (the chosen column; the stated default for words not listed; zero for an optionally deletable word; the sum for a compound joined with "="), the alignment has minimal weighted cost '
     '(a deleted or inserted word costs its weight, a substitution the sum of both, a correct word nothing), and the weighted report states the weight totals of those alignments per speaker.',
     ['inputs', 'configurations'], 'every weight list, reference and hypothesis',
     'The tests have two weight lists and one data set.',
     ['src/sclite/wwscr_f.c', 'src/sclite/net_dp.c', 'src/sclite/word.c', 'src/sclite/scores.c'],
     [('weight list loading and lookup', 'src/sclite/wwscr_f.c'), ('weighted distance', 'src/sclite/word.c'), ('weighted report', 'src/sclite/scores.c')],
     'Weights are recomputed from the list, the minimal weighted cost by an independent dynamic program over the reference network; report figures from the sgml alignments. Language-model weights (-L) are judged under C32.',
     'runtime monitor: weight and optimal-cost oracle over recorded alignments', ['sgml and wws reports of sclite'])

prop('C10', 'Confidence figures and graphs follow from the alignments and the confidences',
     'When every hypothesis word has a confidence, the normalised cross entropy in the sum and rsum reports is, per speaker and overall, (H + sum of log2 p of the right words and of log2(1-p) of the wrong ones)/H with H the entropy of the share of right hypothesis words, '
     'and its mean, standard deviation and median are those of the speakers with reference words; the plain and binned histograms (-C hist, bhist) count every scored hypothesis word, right or wrong, exactly once in the bin of its confidence, the scaled bins (sbhist) split the sorted confidences, and the DET data of sclite and sc_stats '
     'step through thresholds removing right words and keeping wrong ones in the proportions the confidences give (to one word). Without confidences there is no NCE column and no graph file. NCE is judged where there are both right and wrong words; no optionally deletable words.',
     ['inputs'], 'every set of stm/ctm or ctm/ctm files with confidences',
     'The tests hold a few stored graphs and NCE values.',
     ['src/sclite/scores.c', 'src/sclite/det.c', 'src/sclite/sclite.c', 'src/sclite/sc_stats.c'],
     [('NCE computation and report', 'src/sclite/scores.c'), ('DET curves', 'src/sclite/det.c')],
     'All values are recomputed from the confidences given in the input and the observed alignments.',
     'runtime monitor: reference-model oracle over reports and graph data files', ['NCE columns, histogram and DET data files'])

prop('C11', 'Reports do not depend on whether alignments were piped, saved or made directly',
     'Alignments written by sclite with -p or -o sgml and read back with -P give exactly the reports (sum, rsum, pra, prf, dtl, lur, snt, spk, sgml) that the aligning run itself writes, for any number of systems, words of any spelling without double quotes or semicolons and any length, with times, confidences, weights, labels, optional words and alternations; reading and writing alignments again reproduces them byte for byte.',
     ['inputs', 'configurations'], 'every scored reference and hypothesis set',
     'The tests pipe one data set.',
     ['src/sclite/scores.c', 'src/sclite/sgml.c', 'src/sclite/readpipe.c', 'src/sclite/path.c', 'src/sclite/sclite.c'],
     [('alignment writer and reader', 'src/sclite/scores.c'), ('sgml tags', 'src/sclite/sgml.c'), ('alignment printing', 'src/sclite/path.c')],
     'Differential: every report file of the direct run is compared with the one from piped and from saved alignments.',
     'runtime monitor: differential comparison of report files of two executions', ['all report files of sclite'])

prop('C16', 'sc_stats multi-system reports and range graphs state the figures of each system',
     'For the piped alignments of any number of systems, whatever the order of their files, the sum and rsum tables of sc_stats show for each speaker and system the word error (percentage or count) of the alignments, with overall figure, mean, standard deviation and median; es and res one row per system with its sentence and word counts, error percentages or counts and, where a system has confidences, its NCE; '
     'lur the words and error rate under each label per system, overall and averaged over the speakers with reference words under it; prn the alignment of every utterance common to all systems, with the reference words no system has right and their number; range, grange and grange2 (with -f E, R or W) list high, low, mean, standard deviation, median and the single percentages of each speaker and system in order of their means. '
     'The systems have the same speakers, each with reference words (for prn the speakers and utterances may differ); NCE is judged where there are right and wrong words.',
     ['inputs', 'configurations'], 'every set of alignments of one or more systems and every combination of reports',
     'The tests compare a few stored reports of three systems; rates above 100%, differing orders, lines broken at the width and ties are not among them.',
     ['src/sclite/scores.c', 'src/sclite/corresp.c', 'src/sclite/range.c', 'src/sclite/rank.c', 'src/sclite/lur.c', 'src/sclite/sc_stats.c', 'src/sclite/alex.c', 'src/sclite/rpg.c'],
     [('multi-system tables', 'src/sclite/scores.c'), ('common speakers and utterances', 'src/sclite/corresp.c'), ('range tables and graph data', 'src/sclite/range.c')],
     'Every cell, printed alignment and data point of the generated runs is recomputed from the piped alignments.',
     'runtime monitor: report recomputation from recorded alignments', ['reports and graph data of sc_stats'])

prop('C17', 'ROVER keeps every word, aligns at minimal cost and votes by its formula',
     'For every set of hypothesis files over the same recordings and channels, the correspondence sets rover builds hold exactly one entry per system (a word or the null word with the given confidence); '
     'each system\'s words occur in them exactly once, in order, under their own recording and channel, with their own times and confidences, also when a system has fewer words or ends early. '
     'Each system is joined to the composite of the preceding ones at minimal cost. The voted output (meth1, maxconf, avgconf) is, set by set, a word of maximal alpha*frequency+(1-alpha)*confidence, with mean times and confidence, or nothing where the null word wins; the oracle output lists exactly the different words of each set. '
     'Hypotheses whose recordings or channels do not correspond are refused.',
     ['inputs', 'configurations'], 'every set of hypothesis files and voting option',
     'The tests have one example of three systems.',
     ['src/sclite/rover.c', 'src/sclite/mfa.c', 'src/sclite/net_dp.c', 'src/sclite/fillmrks.c', 'src/sclite/word.c'],
     [('voting', 'src/sclite/rover.c'), ('common silence chunks', 'src/sclite/mfa.c'), ('iterative alignment', 'src/sclite/net_dp.c')],
     'Conservation and order from the putat output; alignment minimality by an independent dynamic program (whole channel, files without pauses, no -T); votes recomputed from the sets, ties free.',
     'runtime monitor: conservation, order and optimality oracle over recorded correspondence sets; vote oracle', ['putat, voted and oracle outputs of rover'])

prop('C18', 'asclite aligns every transcript pair at minimal cost under its options',
     'For transcript (trn) inputs in any order, asclite reports each utterance once, under its speaker, with an alignment of that utterance\'s own reference and hypothesis: each side is exactly one reading of its transcript (alternations may nest, be empty, and stand anywhere, on both sides), '
     'the verdicts follow the selected case, fragment and optional-deletion options (-s, -F, -D none/ref/hyp/both), and the total cost (insertion or deletion 3, substitution 4, optional word 2, correct 0) is the lowest attainable. A reference utterance without hypothesis is all deletions. '
     'Transcripts that can be read as wholly empty, and words made only of marker characters, are not covered.',
     ['inputs', 'configurations'], 'every pair of transcript files and option combination',
     'The tests have one pair of transcripts without nested or boundary alternations.',
     ['src/asclite/core/levenshtein.cpp', 'src/asclite/core/graph.cpp', 'src/asclite/core/segment.cpp', 'src/asclite/core/token.cpp', 'src/asclite/core/linestyle_inputparser.cpp', 'src/asclite/core/stt_scorer.cpp', 'src/asclite/core/trntrn_segmentor.cpp'],
     [('graph construction and dynamic programming', 'src/asclite/core/graph.cpp'), ('token equivalence', 'src/asclite/core/token.cpp'), ('alternation parsing', 'src/asclite/core/linestyle_inputparser.cpp')],
     'The optimum is recomputed by an independent search over word networks for every utterance.',
     'runtime monitor: reference-model cost oracle over observed alignments', ['sgml output of asclite'])

prop('C19', 'asclite aligns overlapping speakers jointly and scores every word once',
     'For stm or rttm references with ctm hypotheses or rttm hypotheses (rttm references take rttm hypotheses), asclite groups the reference segments of each recording and channel that overlap in time (up to four speakers) and scores each group that has no ignored segment '
     'against exactly the hypothesis words whose midpoint falls in the group\'s time: every reference segment is reported at most once, under its speaker, times and labels; each speaker\'s words are one reading of that speaker\'s segments in order, every hypothesis word appears exactly once with its own times and confidence, '
     'per hypothesis speaker in order, and the joint alignment cost (insertion or deletion 3, substitution 4, optional 2) is the lowest attainable. Words in inter-segment gaps are insertions of the inter_segment_gap speaker, unless -noisg. '
     'Segments of a speaker are sorted and do not overlap, words have at most three decimals, distinct times and, per speaker, begin times and midpoints in the same order.',
     ['inputs', 'configurations'], 'every set of overlapping segments, hypothesis words, files and channels',
     'The tests compare a few stored outputs; optimal joint alignment over several speakers depends on every overlap pattern.',
     ['src/asclite/core/levenshtein.cpp', 'src/asclite/core/graph.cpp', 'src/asclite/core/segmentsgroup.cpp', 'src/asclite/core/ctmstmrttm_segmentor.cpp', 'src/asclite/core/stm_inputparser.cpp', 'src/asclite/core/ctm_inputparser.cpp', 'src/asclite/core/rttm_inputparser.cpp', 'src/asclite/core/uemfilter.cpp'],
     [('grouping of overlapping segments', 'src/asclite/core/ctmstmrttm_segmentor.cpp'), ('multi-dimensional alignment', 'src/asclite/core/graph.cpp'), ('inter-segment gaps', 'src/asclite/core/uemfilter.cpp')],
     'Each reported group is re-derived from the input files and its optimum recomputed by an independent multi-speaker search.',
     'runtime monitor: reference-model cost and conservation oracle over observed alignments', ['sgml output of asclite'])

prop('C21', 'A UEM file restricts asclite scoring to exactly the evaluated regions',
     'With -uem FILE ref|hyp|both, reference segments (ref, both) are scored if and only if they lie within a region of their recording and channel, hypothesis words (hyp, both) if and only if their midpoint does, and everything that stays is scored as in C19; '
     'inter-segment gaps are what the regions hold outside the reference groups. A reference segment that is only partly inside the regions is refused: non-zero exit and no report. Regions are disjoint and sorted, no recording name is a prefix of another, and with hyp and inter-segment gaps on, no region cuts a segment.',
     ['inputs', 'configurations'], 'every layout of regions relative to segments and words',
     'The tests hold five UEM layouts; boundary coincidences, missing channels and cut segments are not among them.',
     ['src/asclite/core/uemfilter.cpp', 'src/asclite/core/speech.cpp', 'src/asclite/core/segment.cpp'],
     [('UEM filtering', 'src/asclite/core/uemfilter.cpp'), ('segment removal', 'src/asclite/core/speech.cpp')],
     'The kept segments and words are recomputed from the input files for every run; alignments of what is kept are judged by the C19 oracle.',
     'runtime monitor: reference-model oracle over observed reports', ['sgml output and exit status of asclite'])

prop('C22', 'asclite summary reports state exactly the counts of its alignments',
     'In one asclite run, the sum and rsum reports list each speaker of the sgml report once and their counts, percentages, Sum/Avg, Mean, S.D. and Median rows are those of the alignments in the sgml report, within the printed rounding. The NCE column is not covered.',
     ['inputs', 'configurations'], 'every alignment and set of speakers',
     'The tests do not compare the summary with the alignments at all.',
     ['src/asclite/core/rawsys_reportgenerator.cpp', 'src/asclite/core/sgml_reportgenerator.cpp', 'src/asclite/core/speakermatch.cpp'],
     [('summary statistics', 'src/asclite/core/rawsys_reportgenerator.cpp'), ('alignment report', 'src/asclite/core/sgml_reportgenerator.cpp')],
     'All figures are recomputed from the alignments of the same run.',
     'runtime monitor: recomputation of reported statistics from observed alignments', ['sum, rsum and sgml output of asclite'])

prop('C20', 'asclite resource options never change results, cost options act as documented',
     'For the segment inputs of C19 with -noisg: memory compression of any block size (-force-memory-compression, -memory-compression, -memory-limit with compression on), -threads, and time windows or difficulty limits wide enough to exclude nothing leave the sgml and rsum reports unchanged and the run terminates. '
     '-overlap-limit/-overlap-min score exactly the groups whose number of reference speakers is within the limits. With -spkr-align a correct word of a speaker not mapped to the reference speaker is reported as a speaker substitution and costs one third of an insertion; -word-time-align T never pairs words more than T ms apart; '
     '-adaptive-cost and -wordalign-cost add 0.5 times gap/group duration, and one hundredth per differing letter, per pair; under these costs (singly or together) the reported alignment is the cheapest. -time-prune below the recording length, -time-base-cost and -generic-cost are not covered.',
     ['inputs', 'configurations'], 'every input and combination of these options',
     'The tests run one recording with and without compression; results depend on block layout, and the cost options on every pairing.',
     ['src/asclite/core/compressedlevenshteinmatrix.cpp', 'src/asclite/core/arraylevenshteinmatrix.cpp', 'src/asclite/core/graph.cpp', 'src/asclite/core/recording.cpp', 'src/asclite/core/speakermatch.cpp', 'src/asclite/core/stt_scorer.cpp', 'src/asclite/core/main.cpp'],
     [('compressed cost matrix', 'src/asclite/core/compressedlevenshteinmatrix.cpp'), ('cost model', 'src/asclite/core/graph.cpp'), ('group selection', 'src/asclite/core/recording.cpp')],
     'Differential runs for the resource options; independent optimal search for the cost options.',
     'runtime monitor: differential and reference-model cost oracle over observed alignments', ['sgml and rsum output of asclite'])

prop('C26', 'acomp splits exactly the compounds its lexicon allows and changes nothing else',
     'acomp writes each word in upper case; a word whose parts the lexicon marks with - or _ is written as these parts, a word of the lexicon as itself, and any other word as a sequence of lexicon words of at least -m letters exactly when it is made of them: joined directly, with an s or en between (unless -s), or with one of three equal consonants dropped (unless -t). '
     'With -f the longest beginning of a fragment that is made so is split off. Parts of an optionally deletable word are each optionally deletable (of a fragment, its rest only). The parts of a ctm word divide its duration evenly in order and each carry its confidence; all other fields, comments, labels and alternation marks of txt, ctm and stm files are kept, in order, the last line with or without its newline.',
     ['inputs', 'configurations'], 'every lexicon, every txt, ctm and stm file and every option',
     'No test runs acomp on words to be split.',
     ['src/acomp/acomp.pl'],
     [('compound lookup and file formats', 'src/acomp/acomp.pl')],
     'Which of several possible splits is chosen is not fixed; the lexicon has no blank lines and lists a word once.',
     'runtime monitor: reference-model oracle over observed output records', ['records written by acomp'])

prop('C27', 'md-eval diarization scores are exact under an optimal speaker mapping',
     'For valid reference and system RTTM files (any recordings and channels, overlapping and touching SPEAKER segments, NOSCORE zones, words), md-eval maps system to reference speakers one to one per recording and channel so that the mapped overlap time within the evaluated regions is maximal, '
     'and reports under that mapping the exact evaluated, scored, missed, false-alarm and speaker-error time, word counts and diarization error rate: each instant contributes max(ref,sys)-matched speakers. The evaluated time is the UEM partition (or the extent of the reference) without NOSCORE zones; '
     'scored time further excludes the -c collars around reference boundaries and, with -1, overlapping reference speech. -a breakdowns, -R lists and the -M map file are consistent with this. Recordings where nothing is scored and NON-LEX records are not covered.',
     ['inputs', 'configurations'], 'every layout of reference and system segments, regions and collars',
     'The tests compare sixteen saved outputs; the accounting must be exact for every overlap pattern, boundary coincidence and mapping tie.',
     ['src/md-eval/md-eval.pl'],
     [('speaker mapping', 'src/md-eval/md-eval.pl'), ('diarization scoring', 'src/md-eval/md-eval.pl'), ('exclusion zones', 'src/md-eval/md-eval.pl')],
     'Each instant is accounted independently from the input files in integer milliseconds; the mapping is judged against an independent optimal assignment.',
     'runtime monitor: reference-model oracle over observed reports', ['report and map file of md-eval.pl'])

prop('C33', 'sclite and rover are memory safe on any input, valid or damaged',
     'Whatever the contents of the reference, hypothesis, word-weight and sgml-pipe files (well-formed, unusual in encoding, nesting or field sizes, empty, truncated, edited, with missing, extra or overlong fields), sclite and rover either process them or refuse them with a message: '
     'they never read or write out of bounds, use freed or uninitialised memory, nor end in a crash; and on well-formed input of ordinary size they terminate.',
     ['inputs', 'configurations'], 'every input file content and option combination',
     'Tests run a handful of well-formed files in an uninstrumented build, where an overrun usually stays invisible.',
     ['src/sclite/align.c', 'src/sclite/text.c', 'src/sclite/net_adt.c', 'src/sclite/net_dp.c', 'src/sclite/path.c', 'src/sclite/scores.c', 'src/sclite/stm.c', 'src/sclite/fillmrks.c', 'src/sclite/rpg.c', 'src/sclite/rover.c', 'src/sclite/mfa.c', 'src/sclite/lur.c', 'src/sclite/det.c', 'src/sclite/word.c', 'src/sclite/sgml.c', 'src/sclite/stm2ctm.c', 'src/sclite/ctm2ctm.c', 'src/sclite/wwscr_f.c'],
     [('text and memory primitives', 'src/sclite/text.c'), ('readers', 'src/sclite/stm.c'), ('alignment', 'src/sclite/align.c'), ('reports', 'src/sclite/rpg.c')],
     'AddressSanitizer, UBSan and MemorySanitizer builds under the functional workloads, a stress workload and damaged copies of their input files.',
     'compiler sanitizers (ASan+UBSan, MSan) under generated and mutated workloads', ['sanitizer reports, signals and timeouts of sclite and rover'])

prop('C34', 'asclite, sc_stats and rfilter1 are memory safe on any input, valid or damaged',
     'Whatever the contents of the files given to them (well-formed, unusual in field sizes, numbers of systems and speakers, labels and names, empty, truncated, edited, with missing, extra, swapped or overlong fields), asclite (one hypothesis file; times of ordinary size), sc_stats (up to 40 systems, any test, report or graph) and rfilter1 '
     'either process them or refuse them with a message: they never read or write out of bounds, use freed or uninitialised memory, nor end in a crash; and on well-formed input of ordinary size they terminate.',
     ['inputs', 'configurations'], 'every input file content and option combination',
     'Tests run a handful of well-formed files in an uninstrumented build, where an overrun usually stays invisible.',
     ['src/asclite/core/ctm_inputparser.cpp', 'src/asclite/core/stm_inputparser.cpp', 'src/asclite/core/rttm_inputparser.cpp', 'src/asclite/core/linestyle_inputparser.cpp', 'src/asclite/core/levenshtein.cpp', 'src/asclite/core/speechset.cpp', 'src/asclite/core/graph.cpp', 'src/sclite/sc_stats.c', 'src/sclite/rank.c', 'src/sclite/range.c', 'src/sclite/corresp.c', 'src/sclite/anovar.c', 'src/sclite/sentmcn.c', 'src/sclite/lur.c', 'src/rfilter1/include/grules2.c', 'src/rfilter1/include/aprules2.c'],
     [('asclite readers', 'src/asclite/core/stm_inputparser.cpp'), ('multi-system tables', 'src/sclite/rank.c'), ('graphs', 'src/sclite/range.c'), ('rule reader', 'src/rfilter1/include/grules2.c')],
     'AddressSanitizer, UBSan and (not for asclite) MemorySanitizer builds under the functional workloads, a stress workload and damaged copies of their input files.',
     'compiler sanitizers (ASan+UBSan, MSan) under generated and mutated workloads', ['sanitizer reports, signals and timeouts of asclite, sc_stats and rfilter1'])

prop('C12', 'Encodings, language case rules and character alignment apply to every word',
     'For each encoding (-e ascii, ext_ascii, gb, euc, utf-8) and each language profile of utf-8, two words match without -s exactly when they are equal after mapping each upper-case letter of the encoding or profile to its lower-case letter (Turkish dotted and dotless i are distinct, Guarani g with tilde is one letter), and with -s exactly when they are equal. '
     'With -c each word, also inside alternatives, is aligned as its characters, one unit per encoded character; NOASCII keeps runs of ASCII characters of a word together, DH drops hyphens; the resulting units are aligned at minimal cost, nothing is lost, and the units of a time-marked word split its duration evenly in order. '
     'Words contain no syntax characters of the formats and, with -c, are not fragments or optional words.',
     ['inputs', 'configurations'], 'every pair of texts in the supported encodings and every -e/-c/-s option',
     'The tests hold a few files per language.',
     ['src/sclite/text.c', 'src/sclite/align.c', 'src/sclite/word.c', 'src/sclite/sclite.c'],
     [('character set and case handling', 'src/sclite/text.c'), ('splitting of words into characters', 'src/sclite/align.c')],
     'Splitting, folding and the optimal cost are recomputed independently from the generated characters.',
     'runtime monitor: reference-model oracle for folding and splitting, cost oracle over observed alignments', ['sgml alignments of sclite'])

prop('C13', 'Inferred word segmentation finds the best segmentation the lexicon allows',
     'With -S algo1 the reference is aligned word by word while each hypothesis word is split into its characters (words and runs of ASCII characters stay whole unless ASCIITOO is given); besides the units themselves exactly the sequences of consecutive units, also across the given word boundaries and through alternatives, whose concatenation is in the first column of the sorted lexicon may serve as words. '
     'The reported alignment is one of these segmentations and no allowed segmentation and alignment is cheaper; words match without -s regardless of case; nothing of either text is lost; a joined time-marked word spans the times of its units. With -S algo2 the roles of reference and hypothesis are exchanged. This holds for trn and for stm/ctm input and for the encodings gb, euc and utf-8.',
     ['inputs', 'configurations'], 'every pair of transcripts, every lexicon and every -S option',
     'The tests hold a single pair of files per algorithm.',
     ['src/sclite/align.c', 'src/sclite/net_adt.c', 'src/sclite/text.c', 'src/sclite/word.c'],
     [('inferred segmentation algorithms', 'src/sclite/align.c'), ('arcs of the lexicon words', 'src/sclite/net_adt.c'), ('lexicon', 'src/sclite/text.c')],
     'The lattice of segmentations and the optimal cost over it are recomputed independently; optional words, fragments and null alternatives on the re-segmented side are not generated.',
     'runtime monitor: reference-model oracle for the lattice of segmentations, cost oracle over observed alignments', ['sgml alignments of sclite -S'])

prop('C15', 'sc_stats significance tests state what the alignments of the systems give',
     'For the piped alignments of any two or more systems over the same utterances, sc_stats -t mapsswe/sign/wilc/mcn reports for each pair exactly once the decision, the favoured system and the probability that the alignments give: matched pairs (error segments parted by two words right in both systems), '
     'sign and Wilcoxon tests on the per-speaker percentages chosen with -f (E, R or W), paired by speaker whatever the order of the files, and McNemar on utterances right or wrong. Per-test matrices, the unified report (-u, with its stars) and the detailed tables (-v: counts, means, Z, rank sums) agree with these. '
     'Probabilities of the normal approximation and of the tables are meant to within 0.012; the analysis of variance is not covered.',
     ['inputs', 'configurations'], 'every set of systems, speakers and alignments, every option combination',
     'The tests compare one saved report of one data set; the statistics depend on every pattern of errors, ties and speaker orders.',
     ['src/sclite/sign.c', 'src/sclite/wilcoxon.c', 'src/sclite/mcnemar.c', 'src/sclite/rank.c', 'src/sclite/sc_stats.c', 'src/sclite/statdist.c', 'src/sclite/mtchprs.c', 'src/sclite/order.c'],
     [('rank-based tests', 'src/sclite/rank.c'), ('sign test', 'src/sclite/sign.c'), ('unified report', 'src/sclite/sc_stats.c')],
     'Every statistic is recomputed from the piped alignments with exact arithmetic.',
     'runtime monitor: reference-model oracle over observed reports', ['sc_stats report files'])

prop('C23', 'rfilter1 rewrites every line as the first applicable rule at each place says',
     'Whatever the rules file and text, rfilter1 scans each line once from left to right; at each place the first rule (in file order) whose left-hand side matches there and whose left and right contexts hold in the original line is applied: its right-hand side is written and the scan goes on behind the matched text. '
     'Where no rule applies the character is copied (or, without copying, dropped). Case is ignored or respected as the header says, comment lines pass unchanged; any number of rules up to the header limit and any lengthening of the line is handled, and every line is written exactly once, in order.',
     ['inputs', 'configurations'], 'every rules file, header option and text',
     'Tests apply three rule files to fixed texts; overlapping rules, contexts at the line ends and long outputs only show on particular combinations.',
     ['src/rfilter1/rfilter1.c', 'src/rfilter1/include/aprules2.c', 'src/rfilter1/include/grules2.c', 'src/rfilter1/include/sstok2.c', 'src/rfilter1/include/remcomm.c'],
     [('rule application', 'src/rfilter1/include/aprules2.c'), ('rule loading', 'src/rfilter1/include/grules2.c')],
     'Independent Python model of the rules language, compared byte for byte with the output.',
     'runtime monitor: reference-model oracle over observed output', ['rfilter1 standard output and exit status'])

prop('C24', 'csrfilt applies the global map file to the words of each record and nothing else',
     'For trn, stm, ctm, rttm and txt input csrfilt writes the records in order, with every field that is not text (utterance ids, times, channels, speakers, labels, confidences in any notation, types) and every comment unchanged, and the words rewritten by the rules of the map file that the section headers select for the input type and purpose; '
     '-dh splits hyphenated words; in a ctm the parts of a split word share its time without loss and an alternation becomes ALT records; a ctm or rttm word that is deleted takes its record with it. (Comments in txt input and the utterance map are not covered.)',
     ['inputs', 'configurations'], 'every map file, input format and option',
     'Tests filter one stm and a few ctm files with one map file.',
     ['src/csrfilt/csrfilt.sh', 'src/rfilter1/rfilter1.c'],
     [('filter script', 'src/csrfilt/csrfilt.sh'), ('rule application', 'src/rfilter1/rfilter1.c')],
     'Independent Python model of the map file and the record formats, compared with the output.',
     'runtime monitor: reference-model oracle over observed output', ['csrfilt output files'])

prop('C31', 'The RTTM tools keep every record and convert exactly',
     'rttmSort writes exactly the records of its input, ordered by recording, channel (where given), begin time and type, ties in input order; rttmSmooth joins exactly the SPEAKER segments of one recording, channel and speaker whose gap is within the smoothing time, so that the time covered grows by the joined gaps only, and leaves other records alone; '
     'rttm2ctm writes one ctm line for each LEXEME of subtype lex, in order, with its time, word and confidence; stm2rttm writes the speaker segments of the stm (excluded regions as NOSCORE), joined across gaps within the smoothing time of the evaluation, and one SPKR-INFO per speaker; spkr2sad writes every SPEAKER segment, in order of time within its recording and under the one name speech, and one SPKR-INFO per recording and channel; '
     'mergectm2rttm writes every lexical ctm word whose middle lies in a SPEAKER segment, under the name of one of the speakers of these segments, the segments of their words joined across gaps up to 0.3 s, and the speakers. Nothing else appears, nothing is lost.',
     ['inputs', 'configurations'], 'every RTTM or STM file and smoothing time',
     'No test runs these tools except through one pipeline.',
     ['src/rttmSort/rttmSort.pl', 'src/rttmSmooth/rttmSmooth.pl', 'src/rttm2ctm/rttm2ctm.pl', 'src/stm2rttm/stm2rttm.pl', 'src/spkr2sad/spkr2sad.pl', 'src/mergectm2rttm/mergectm2rttm.pl'],
     [('sorting', 'src/rttmSort/rttmSort.pl'), ('smoothing', 'src/rttmSmooth/rttmSmooth.pl'), ('conversion', 'src/stm2rttm/stm2rttm.pl')],
     'Independent Python models, compared record by record.',
     'runtime monitor: reference-model oracle over observed output', ['output files of the RTTM tools'])

prop('C29', 'rttmValidator accepts well-formed RTTM files and names the offending records',
     'rttmValidator exits 0 without an ERROR line exactly for files that obey the format, and otherwise exits 1 and names exactly the offending records by their line numbers: records with other than 9 or 10 fields, an unknown type or channel, times, orthography, subtype, confidence or speaker (without -p) that their type does not allow; '
     'and, if there are none of these, the records that fail the first of these rules: objects of one type and speaker do not overlap; each SU, EDIT and FILLER holds a word; no word is cut by one; nothing straddles a NOSCORE border; every word lies in an SU (without -u) and in a SPEAKER segment (without -s); EDITs, FILLERs and interruption points match (without -e). '
     'The order of the records does not matter.',
     ['inputs', 'configurations'], 'every RTTM file and option combination',
     'The tests compare the output for some 30 small files, most with one defect each.',
     ['src/rttmValidator/rttmValidator.pl'],
     [('field checks', 'src/rttmValidator/rttmValidator.pl'), ('structure checks', 'src/rttmValidator/rttmValidator.pl')],
     'Independent Python model of the format rules; files well-formed by construction, with injected defects.',
     'runtime monitor: reference-model oracle over observed diagnostics', ['rttmValidator diagnostics and exit status'])

prop('C30', 'ctmValidator and stmValidator name exactly the defective records and tokens',
     'ctmValidator exits 0 with "Validated" exactly for files whose every record (comments aside) has 5 to 8 well-formed fields: source, channel (number, A or B), times (asterisks for ALT tags), English word (for type lex and language English), confidence, type, speaker; otherwise it exits 1 and names exactly the defective lines. '
     'stmValidator exits 0 exactly if every token of every segment text is a word, fragment, acronym, contraction, hesitation or alternation mark that its language (-l) allows; otherwise it exits 1 and names exactly the other tokens (nothing is printed with -s).',
     ['inputs', 'configurations'], 'every CTM and STM file and language',
     'The tests run one ctm and two stm files.',
     ['src/ctmValidator/ctmValidator.pl', 'src/stmValidator/STMList.pm', 'src/stmValidator/stmValidator-main.pl'],
     [('ctm records', 'src/ctmValidator/ctmValidator.pl'), ('stm tokens', 'src/stmValidator/STMList.pm')],
     'Independent Python model of the format rules; files well-formed by construction, with injected defects.',
     'runtime monitor: reference-model oracle over observed diagnostics', ['validator diagnostics and exit status'])

prop('C25', 'The Arabic normalisers change exactly the characters and words they name',
     'hamzaNorm turns the four alef forms at the beginning of a word into bare alef, tanweenFilt removes the tanween mark at the end of a word (also before a closing parenthesis; all of them with -a), and def_art detaches the romanised article il+ from the word that follows, its l assimilated to a solar letter, the time of a ctm word divided evenly and its confidence copied. '
     'They do so in every word of every record and nowhere else: names, times, labels, confidences and comments of ctm and stm files, spacing (hamzaNorm, tanweenFilt), other words and the number and order of lines stay as they are, from files and standard input, also when the last line has no newline.',
     ['inputs', 'configurations'], 'every txt, ctm and stm file',
     'The tests compare one file per format.',
     ['src/hamzaNorm/hamzaNorm.pl', 'src/tanweenFilt/tanweenFilt.pl', 'src/def_art/def_art.pl'],
     [('word-initial alef forms', 'src/hamzaNorm/hamzaNorm.pl'), ('tanween marks', 'src/tanweenFilt/tanweenFilt.pl'), ('article', 'src/def_art/def_art.pl')],
     'Random files through the real programs, every output line compared with a character-level model.',
     'runtime monitor: output lines of the real programs against a reference model', ['every output line of hamzaNorm, tanweenFilt and def_art'])

prop('C36', 'hubscr scores the filtered input records, whatever their order and spacing',
     'hubscr scores exactly what filtering each file with csrfilt (and hamzaNorm, tanweenFilt for Arabic) and scoring it with sclite or asclite and sc_stats gives: the filtered files contain the records of the input, ordered by file, channel and begin time whatever their order and spacing in the input (for rt-stt only the lexical ctm records), filtered as reference or hypothesis for the language; '
     'every report of every system, under the given titles and output names, and the comparison of several systems equal those made by hand from these files. A hypothesis that does not validate (a word that is no English word, a negative duration, a confidence that is no number) is refused with a non-zero status before any report is written. The input files are left alone.',
     ['inputs', 'configurations'], 'every reference, set of hypotheses, map file and option of the hub4, hub5 and rt-stt tasks',
     'The tests run a handful of data sets with sorted records.',
     ['src/hubscr/hubscr.pl', 'src/csrfilt/csrfilt.sh', 'src/ctmValidator/ctmValidator.pl', 'src/stmValidator/stmValidator-main.pl'],
     [('record sorting', 'src/hubscr/hubscr.pl'), ('filter pipelines', 'src/hubscr/hubscr.pl'), ('scoring commands', 'src/hubscr/hubscr.pl')],
     'Random evaluations through the real pipeline, all its files compared with those of the components run by hand on canonically ordered records.',
     'runtime monitor: files and reports of the real pipeline against a by-hand reference run', ['filtered files', 'all reports', 'exit status and refused inputs'])

prop('C37', 'Runs are reproducible and independent, and input files are left alone',
     'The same command on the same files (sclite, sc_stats, rover, asclite, csrfilt, rfilter1, md-eval, the RTTM tools other than mergectm2rttm, which chooses among overlapping speakers at random, and the validators) always ends with the same exit status, standard output, messages and output files, up to the creation date: whatever else runs at the same time (including other runs of the same program on files of the same names in other directories), '
     'whatever the memory, the addresses, the hash seed of perl, the umask, the time zone and unrelated environment variables. And the input files are left unchanged.',
     ['inputs', 'schedules', 'configurations'], 'every command line and input, every interleaving of concurrent runs and every environment',
     'The tests run each command once, alone, in one environment.',
     ['src/sclite/sclite.c', 'src/sclite/align.c', 'src/sclite/sc_stats.c', 'src/sclite/rover.c', 'src/sclite/scores.c', 'src/asclite/core/main.cpp', 'src/md-eval/md-eval.pl', 'src/csrfilt/csrfilt.sh', 'src/stm2rttm/stm2rttm.pl', 'src/rttmSmooth/rttmSmooth.pl', 'src/rttmSort/rttmSort.pl'],
     [('temporary files of sclite -d', 'src/sclite/align.c'), ('speaker mapping and scores', 'src/md-eval/md-eval.pl'), ('temporary files of csrfilt', 'src/csrfilt/csrfilt.sh')],
     'Each command of the workloads of the other checks is repeated in three simultaneous runs under varying environments and all its outputs are compared.',
     'runtime monitor: differential comparison of repeated, concurrent and perturbed executions', ['exit status, streams and all files of repeated runs'])
