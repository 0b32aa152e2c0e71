prop('C01', 'Compound splitting before transfer is exact and loses nothing',
     'Splitting a stream before transfer turns every joined word of a lexical unit into a lexical unit of its own that carries the word-bound blank of the whole, moves the invariable part of a multiword to the lemma of its head, and drops the surface form only when asked to. '
     'Escaped characters, characters inside tags, blanks and text are never taken for separators. '
     'Everything else is passed on byte for byte, for every combination of options.',
     ['inputs', 'configurations'], 'Every well-formed stream and every combination of the compound, surface-form and null-flush options.',
     'The tests try about ten fixed units; they never combine escapes, joined words, multiword queues and word-bound blanks, nor use the compound option.',
     ['apertium/pretransfer.cc', 'apertium/apertium_pretransfer.cc'],
     [('reading of one lexical unit with a held-back buffer', 'apertium/pretransfer.cc procWord'), ('blank and escape handling between units', 'apertium/pretransfer.cc processStream')],
     'TLC checks the declarative splitting rule on the character machine for every item of the vocabulary (exhaustive within it) and every such stream is replayed into the real program; recorded runs on random streams are validated by TLC step by step. Trusts TLC and the well-formedness assumption on inputs.',
     'TLA+ character machine checked with TLC; behaviours replayed into, and recorded runs validated against, the real tool')
prop('C02', 'Word-bound blanks are distributed to exactly the units they enclose',
     'After distribution every lexical unit is preceded by one word-bound blank listing, outermost first and without repetition, the items of all spans open around it, and by none when no span is open. '
     'Span openings and closings disappear, a surplus closing is ignored, a flush forgets open spans, and all other text is unchanged (escapes included).',
     ['inputs', 'histories'], 'Every nesting of spans, units, blanks and flush markers.',
     'No test runs this tool at all.',
     ['apertium/wblank-attach.cc'], [('stack of span sizes over an ordered item list', 'apertium/wblank-attach.cc main')],
     'Exhaustive over all sequences of up to 4 (thorough 5) items, each replayed into the real program; random nested streams validated by TLC.',
     'TLA+ character machine checked with TLC; behaviours replayed into, and recorded runs validated against, the real tool')
prop('C03', 'Detaching closes each bound unit and is undone by attaching',
     'Detaching inserts a span closing directly after every lexical unit that carries a word-bound blank and changes nothing else. '
     'Distributing the result again gives back the original stream.',
     ['inputs'], 'Every well-formed stream.', 'No test runs this tool at all.',
     ['apertium/wblank-detach.cc', 'apertium/wblank-attach.cc'], [('pending-close flag set by a word-bound blank', 'apertium/wblank-detach.cc main')],
     'Exhaustive over all sequences of up to 3 (thorough 4) items with round trip through both machines and both programs; random streams validated by TLC.',
     'TLA+ character machine checked with TLC; behaviours replayed into, and recorded runs validated against, the real tool')
prop('C04', 'Stream filters drop only what they are for',
     'The filter run after transfer replaces each run of spaces by a single space and changes no other character. '
     'The stream cleaner outputs exactly the lexical units of its input, verbatim and in order, with separators between them, plus the blanks (word-bound ones included) when asked to keep them.',
     ['inputs', 'configurations'], 'Every character sequence (space filter) and every well-formed stream under every option (cleaner).',
     'The cleaner is tested on five short streams, the space filter not at all.',
     ['apertium/apertium_posttransfer.cc', 'apertium/apertium_cleanstream.cc'],
     [('last-character-was-space flag', 'apertium/apertium_posttransfer.cc processStream'), ('token/blank automaton', 'apertium/apertium_cleanstream.cc main')],
     'Exhaustive over short character sequences (filter) and item sequences (cleaner), replayed into the programs; random streams validated by TLC.',
     'TLA+ character machines checked with TLC; behaviours replayed into, and recorded runs validated against, the real tools')
TT = 'TLA+ specification of the transfer stages evaluated with TLC over systematic and random rule files; every behaviour replayed into the real stage'
TF = ['apertium/transfer.cc', 'apertium/transfer_base.cc', 'apertium/interchunk.cc', 'apertium/postchunk.cc']
prop('C05', 'A tool kept running answers each text as if it were freshly started',
     'Every tool that is run with null flushing (-z; the word-bound blank tools always), alone or in a pipeline, answers each text closed by a null character completely, closed by a null character, before it needs any of the next, whether the client waits or feeds ahead. '
     'The answer is the one a freshly started tool gives to that text alone, whatever texts came before: no variable, window of words, queue of blanks, open span, tagging state or recogniser state survives the flush. '
     'It is also what the tool writes for the text when the input ends there.',
     ['histories', 'inputs', 'schedules'], 'Every sequence of texts, every rule file and model, every feeding schedule.',
     'Tests flush a handful of texts in one fixed order, and no test compares the answers of different histories.',
     ['apertium/transfer.cc', 'apertium/interchunk.cc', 'apertium/postchunk.cc', 'apertium/transfer_base.cc', 'apertium/pretransfer.cc', 'apertium/apertium_posttransfer.cc', 'apertium/wblank-attach.cc', 'apertium/wblank-detach.cc',
      'apertium/apertium_extract_caps.cc', 'apertium/caps_restorer.cc', 'apertium/hmm.cc', 'apertium/lswpost.cc', 'apertium/file_tagger.cc', 'apertium/stream_tagger.cc', 'apertium/file_morpho_stream.cc', 'apertium/stream.cc', 'apertium/perceptron_tagger.cc'],
     [('variables and queues reset at a flush', 'apertium/transfer.cc, interchunk.cc, postchunk.cc: *_wrapper_null_flush, transfer_base.cc'), ('end of a text', 'apertium/file_morpho_stream.cc setEndOfFile, hmm.cc tagger'), ('spans', 'apertium/wblank-attach.cc')],
     'All histories of three texts over pools of 4 (thorough 6) for about 60 (thorough 140) configurations of all the tools, with a client that waits, and long histories with one that does not; texts chosen to leave every kind of state behind.',
     'TLA+ specification of sessions checked with TLC (with a negative control); TLC enumerates the histories, recorded sessions of the real tools are validated with TLC')
prop('C06', 'Transfer rules apply left to right, longest match first, to every word once',
     'In transfer and interchunk the rule applied at a position is the one with the longest pattern matching the words from there on, and among equally long ones the first in the file; matching goes on after its last word. '
     'A word that starts no match gets the default treatment (its translation or chunk as it is, wrapped in a default chunk when the stage produces chunks, unknown words in an unknown chunk) and matching goes on at the next word. '
     'So every word of the input is dealt with exactly once, in order, up to the end of the text, however far a longer pattern was followed before it failed.',
     ['inputs', 'configurations'], 'Every rule file and every sequence of words.',
     'Tests run a handful of small rule files on one or two sentences; patterns that fail after several words of look-ahead, at the end of the text, and nested overlaps are not among them.',
     TF + ['apertium/transfer_data.cc'],
     [('look-ahead loop with last acceptance and input buffer', 'apertium/transfer.cc transfer, apertium/interchunk.cc interchunk'), ('default output of an unmatched word', 'apertium/transfer.cc transfer')],
     'The specification follows all patterns at once; TLC checks longest match, rule order and coverage against their declarative statement and the result of every case is replayed into the program. Bounds: all sequences of up to 4 (thorough 5) words over 4 words for 5 overlapping rule sets; random rule files beyond.', TT)
prop('C07', 'Transfer stages keep every blank of the input exactly once and in order',
     'Blanks between words the stage matches together are given out in order by the blank elements of the rule; those the rule does not ask for are written after it (unless they are a single space), and a rule asking for more gets single spaces. '
     'Blanks between matches, before the first and after the last word stay where they are. '
     'In postchunk the blanks around and between the words of a chunk are treated the same way. Nothing inside a blank is changed.',
     ['inputs', 'configurations'], 'Every rule file and every text with formatting between its words.',
     'Tests check one or two formatted sentences; they do not combine rules that write fewer or more blanks than there are words with arbitrary blanks.',
     TF, [('queue of blanks filled at a match, drained by <b/> and after the rule', 'apertium/transfer.cc applyRule, apertium/postchunk.cc applyRule, splitWordsAndBlanks')],
     'Exhaustive over patterns of 1 to 3 words (chunks of up to 4 words), five ways of writing blanks and every choice of four blanks per gap; random rule files beyond.', TT)
prop('C08', 'A rule that rejects itself leaves no trace and is not tried again there',
     'When a rule executes the reject instruction, the rest of it is not executed, the blanks of the words given back are not written by it, and matching starts again: at the same word without that rule when no shifting was asked for (the next longest or next listed rule, or the default treatment, applies), or after the given number of words. '
     'The rejected rule is available again at the next position.',
     ['inputs', 'histories'], 'Every rule file using the instruction and every sequence of words.',
     'There is a single test with one rejecting rule per stage.',
     TF + ['apertium/transfer_data.cc'],
     [('set of banned rules and re-reading of the buffered words', 'apertium/transfer.cc transfer, apertium/interchunk.cc interchunk, apertium/postchunk.cc postchunk')],
     'Exhaustive over counts 0 to 3, four placements of the instruction, patterns of 1 to 3 words and all sequences of up to 3 (thorough 5) words; random rule files with rejections in 80 % of the rules. One known finding is listed.', TT)
prop('C09', 'Word-bound blanks stay with the words they format through transfer',
     'A lexical unit written by a rule carries the word-bound blanks of the words its lemmas were taken from, directly or through variables, in order; when a rule matches a single word, its blank goes on every lexical unit it writes. '
     'A word no rule matches keeps its own. No word-bound blank appears on a lexical unit none of whose text comes from the word (or, for a single matched word, from another word), and none survives in a variable across a null flush.',
     ['inputs', 'histories'], 'Every rule file and every stream with word-bound blanks.',
     'Tests cover a few fixed sentences with two rules; variables, macros, joined words and several sources per unit are not combined.',
     TF, [('collection of blanks while a lexical unit or variable is being built', 'apertium/transfer.cc evalString, processOut, processLet; apertium/postchunk.cc')],
     'Exhaustive over 30 actions of 1 to 3 words (in both output modes) and every choice of word-bound blanks per word; random rule files with three quarters of the words carrying one.', TT)
prop('C10', 'Rule instructions mean what they say: values, tests, case, macros',
     'Comparisons (equal, begins with, ends with, contains, the list forms and their caseless variants), boolean operators, the first true branch of a choice, assignments to variables and to parts of words, appending, case copying and modification, concatenation, variables that keep their value from rule to rule until a null flush, and macros with positional parameters compute exactly the value their definition gives, in all three stages. '
     'With the option for dictionary case, no instruction changes the case of a word.',
     ['inputs', 'configurations', 'histories'], 'Every action and every words it is applied to.',
     'Tests execute a few actions on a few words; operators are never compared over all small operands, nor in all three stages.',
     TF + ['apertium/transfer_word.cc', 'apertium/interchunk_word.cc'],
     [('recursive evaluator of actions', 'apertium/transfer_base.cc, evalString of each stage'), ('case tests and copying', 'apertium/transfer_base.cc')],
     'Exhaustive over pairs of texts of up to 2 letters for every comparison and every form of case copying in every stage, and over truth tables of up to 3 operands; random actions beyond.', TT)
prop('C11', 'Interchunk rewrites names and tags of chunks and never their contents',
     'Interchunk sees each chunk as name, tags and contents: rules match and change name and tags, and contents (blanks, word-bound blanks, escapes and braces inside blanks included) come out unchanged wherever the rule puts them. '
     'Chunks no rule matches, and everything between chunks, are passed on byte for byte.',
     ['inputs', 'configurations'], 'Every interchunk rule file and every sequence of chunks.',
     'Tests run three rule files on a few chunks.',
     ['apertium/interchunk.cc', 'apertium/interchunk_word.cc', 'apertium/transfer_base.cc'],
     [('splitting of a chunk into name, tags and contents', 'apertium/interchunk_word.cc'), ('reading of a chunk up to its closing brace', 'apertium/interchunk.cc readToken')],
     'Exhaustive over short chunk sequences, blanks and parts; 120 (thorough 600) random rule files.', TT)
prop('C12', 'Postchunk resolves references, applies chunk case and unwraps every word',
     'Postchunk writes the words of every chunk in order, each numbered tag replaced by the chunk tag it points to (or by nothing when there is none), other tags and escapes unchanged. '
     'A capitalised chunk name capitalises the first letter of its words, an all-capitals name all of them, unless dictionary case is asked for. '
     'Rules see the words after this, count them, and address the chunk itself as word zero.',
     ['inputs', 'configurations'], 'Every postchunk rule file and every sequence of chunks.',
     'Tests run two rule files on a few chunks.',
     ['apertium/postchunk.cc', 'apertium/transfer_base.cc'],
     [('reference table and splitting of a chunk', 'apertium/postchunk.cc getVecTags, unchunk, splitWordsAndBlanks, pseudolemma')],
     'Exhaustive over 9 chunk names, 4 tag sequences and up to 2 (thorough 3) of 10 words; 120 (thorough 600) random rule files.', TT)
prop('C13', 'Compiled categories and attributes denote exactly what the file lists',
     'A word belongs to a category if and only if one of its items describes it: the lemma (any letters in place of a star, letters compared without case) and the sequence of tags (a star standing for one or more tags). '
     'The part of a word named by an attribute is its first stretch equal to one of the listed tag sequences, the longest there, tags being taken literally and whole; lemma, lemma head, queue, tags and whole word divide a word at its first tag and its invariable part. '
     'Assigning to a part replaces exactly that stretch and nothing when it is absent.',
     ['inputs', 'configurations'], 'Every category and attribute definition and every word.',
     'Tests compile a few rule files; the compiled object is only ever used on the words they list.',
     ['apertium/trx_reader.cc', 'apertium/transfer_data.cc', 'apertium/transfer_regex.cc', 'apertium/transfer_word.cc', 'apertium/interchunk_word.cc'],
     [('insertion of patterns into the transducer', 'apertium/trx_reader.cc'), ('attribute patterns', 'apertium/trx_reader.cc, apertium/transfer_regex.cc'), ('part access', 'apertium/transfer_word.cc, apertium/interchunk_word.cc')],
     'Exhaustive over 49 category items against words of up to 3 tags and over all parts, read and assigned, of words of up to 3 tags.', TT)
prop('C21', 'Case extraction records the case of every unit and keeps the rest',
     'Extraction puts in front of every tagged unit one more word-bound blank item with the case (aa, Aa or AA) of its surface form and of the lemma of its first analysis, after the items it already carries, and passes on the first analysis alone (with the surface form when asked to). '
     'For joined words the lemma text runs up to the tags of the last part. All other text, blanks and escapes included, is unchanged.',
     ['inputs', 'configurations'], 'Every stream of tagged units.', 'The tests vary the case of one three-letter word and try two compounds.',
     ['apertium/apertium_extract_caps.cc'], [('reading of one unit and its first analysis', 'apertium/apertium_extract_caps.cc read_lu'), ('case of the lemma', 'apertium/apertium_extract_caps.cc lemma_case')],
     'Exhaustive over all pairs of items of the vocabulary for both modes, each replayed into the program.',
     'TLA+ specification checked with TLC; every behaviour replayed into the real tool')
prop('C22', 'Capitalisation rules decide the case of words as written, nothing else',
     'A capitalisation rule fits a run of words exactly when its sequence of matches, alternatives, repetitions and beginning-of-text markers does, each match testing the recorded source case, the lemma or its case, the tags and the generated form or its case. '
     'Every rule that ends at a word adds its weight once to the case it selects for each word it covers; a word comes out in the case with the highest sum, unchanged when no case beats leaving it as generated, and words no rule covers, trailing text and blanks are never affected. '
     'Of several generated forms the first is used. Word-bound blanks are kept, minus the case items unless those are to be kept too.',
     ['inputs', 'configurations'], 'Every rule file and every stream of generated units.',
     'The tests use two rule files and seven sentences; rule shapes, attribute patterns, weights and their interplay over word sequences are unbounded.',
     ['apertium/caps_compiler.cc', 'apertium/caps_restorer.cc', 'apertium/apertium_restore_caps.cc', 'apertium/apertium_compile_caps.cc'],
     [('rules compiled to one transducer over words', 'apertium/caps_compiler.cc compile_match'), ('alternatives and repetitions', 'apertium/caps_compiler.cc compile_repeat'),
      ('matching and summing of weights over a window of words', 'apertium/caps_restorer.cc process'), ('choice of the case', 'apertium/caps_restorer.cc output_all')],
     'Exhaustive: each match attribute against every word of the vocabulary, 23 rule shapes over all word sequences up to length 3 (thorough 5), all pairs of votes; plus random rule files and texts. Where a rule fits the same end in several ways the specification allows any one.',
     'TLA+ specification evaluated with TLC over systematic and random rule files; every behaviour replayed into the real compiler and tool')
TGF = ['apertium/tagger.cc', 'apertium/tagger_data.cc', 'apertium/tagger_word.cc', 'apertium/tagger_utils.cc', 'apertium/file_morpho_stream.cc']
prop('C16', 'Taggers pass every unit on once, in order, with one of its own analyses',
     'Whatever the model, a tagger writes every lexical unit of its input exactly once, in order, with the blanks before, between and after the units unchanged, and with exactly one of the analyses of that unit (unknown units as unknown). '
     'The surface form, the other analyses and the ambiguity mark are added when and only when asked for. '
     'With flushing on, every text is answered in full, closed by one null character, before the next is read.',
     ['inputs', 'configurations', 'histories'], 'Every model of every kind (HMM, sliding window, unigram 1-3, perceptron), every option and every sequence of texts.',
     'The tests tag a few fixed sentences in one run each; they never vary blanks, options, escapes and flushes together.',
     ['apertium/apertium_tagger.cc', 'apertium/hmm.cc', 'apertium/lswpost.cc', 'apertium/file_tagger.cc', 'apertium/stream_tagger.cc', 'apertium/stream.cc', 'apertium/unigram_tagger.cc', 'apertium/perceptron_tagger.cc'] + TGF[2:5],
     [('reading of a unit and the blanks before it', 'apertium/file_morpho_stream.cc, apertium/stream.cc'), ('writing of the choice', 'apertium/hmm.cc tagger, apertium/lswpost.cc tagger, apertium/stream_tagger.cc outputLexicalUnit')],
     'TLC decides for every recorded run whether the output is the input with one own analysis per unit (TraceTagger). Randomly weighted models over fixed and random tagsets, trained unigram and perceptron models, every option combination. '
     'Units whose analyses divide into parts differently are a known finding.',
     'TLA+ acceptor for tagger behaviours; recorded sessions of the real tool validated with TLC')
prop('C17', 'HMM and sliding-window taggers choose the best sequence their model gives',
     'The coarse tag of an analysis is the first label with a pattern it fits; an analysis that fits none as a whole is divided at the joins into the longest parts that do. One analysis is kept per coarse tag (the first, or the one a preference names), and analyses named by a discard rule are dropped while others are left. '
     'The HMM tagger then gives every stretch between unambiguous words the tag sequence of highest probability under the model, starting from the end-of-sentence tag; the sliding-window tagger gives every word the tag with the highest sum over the tags of its neighbours. '
     'A word whose set of tags the model does not know is looked up as the smallest known set containing it.',
     ['inputs', 'configurations'], 'Every tagset, every model over it and every text.',
     'Tests compare the output for one sentence with one trained model.',
     ['apertium/hmm.cc', 'apertium/lswpost.cc', 'apertium/tsx_reader.cc', 'apertium/collection.cc', 'apertium/constant_manager.cc'] + TGF,
     [('Viterbi over a window of ambiguous words', 'apertium/hmm.cc tagger'), ('window sums', 'apertium/lswpost.cc tagger'), ('coarse tags by transducer', 'apertium/file_morpho_stream.cc lrlmClassify'),
      ('ambiguity class lookup', 'apertium/tagger_utils.cc find_similar_ambiguity_class')],
     'TLC checks that the step-by-step choice is optimal by definition (all sequences) and that units survive; every behaviour is replayed with models whose probabilities are powers of two, so that comparisons are exact. Ties allow any of the best sequences.',
     'TLA+ specification of tagset, models and decision checked with TLC; every behaviour replayed into the real tagger with composed model files')
prop('C18', 'Unigram taggers choose the analysis of highest smoothed frequency',
     'Training counts analyses, giving each of the n analyses of an ambiguous unit the share 1/n. An analysis scores (model 1) its count plus one; (model 2) the smoothed frequency of everything after its first lemma, times that of the first lemma among those seen with it; (model 3) the same for its first part alone, times, for every further part, the smoothed frequencies of its lemma after the tags before it and of its tags with that lemma. '
     'The tagger writes the first analysis of highest score.',
     ['inputs', 'configurations'], 'Every corpus and every unit.',
     'Tests use one small corpus and check one choice per model; ties, joins and ambiguous corpora are not covered.',
     ['apertium/unigram_tagger.cc', 'apertium/lemma.cc', 'apertium/morpheme.cc', 'apertium/analysis.cc', 'apertium/stream_tagger.cc', 'apertium/stream.cc', 'apertium/serialiser.h', 'apertium/deserialiser.h'],
     [('weighted counts with a common denominator', 'apertium/unigram_tagger.cc train'), ('scores', 'apertium/unigram_tagger.cc score'), ('model file', 'apertium/unigram_tagger.cc serialise/deserialise')],
     'Scores are compared exactly, as fractions of arbitrary-size integers in TLA+. All corpora of up to 2 (thorough 4) units over 4 pools of analyses; 80 (thorough 600) random corpora. Letters outside ASCII in analyses are a known finding (the fault is in an installed header of lttoolbox).',
     'TLA+ specification of counting and scoring evaluated with TLC over systematic and random corpora; every behaviour replayed through the real trainer and tagger')
prop('C19', 'The perceptron tagger computes the features its file defines, and learns right',
     'For every word of every tagging the perceptron tagger computes exactly the features its .mtx file describes: addresses, conditions, strings, lists, loops and macros mean what they say, in any nesting. '
     'A sentence gets a tagging of the highest score among those that stay within the beam, the score being the sum of the weights of its features, and the units are written as the options ask, with all text between them. '
     'Training moves weights from the features of the best tagging to those of the right one whenever they differ, stops a sentence at once when the right tagging leaves the beam, and gives the mean over all updates. '
     'Corpora that differ are refused, or exactly the sentences that differ are left out when so asked.',
     ['inputs', 'configurations', 'schedules'], 'Every .mtx file, weights, text and corpus; every order of the training sentences and every choice between equal scores.',
     'Tests train with one .mtx file of four bigram and trigram features on one corpus; conditions, loops, macros, slices, negative positions, beams other than the standard one and corpora that differ are never used.',
     ['apertium/perceptron_spec.cc', 'apertium/perceptron_spec.h', 'apertium/mtx_reader.cc', 'apertium/perceptron_tagger.cc', 'apertium/feature_vec.cc', 'apertium/feature_vec_averager.cc', 'apertium/sentence_stream.cc',
      'apertium/tagger_data_percep_coarse_tags.cc', 'apertium/apertium_perceptron_trace.cc', 'apertium/stream.cc'],
     [('compiler of .mtx files', 'apertium/mtx_reader.cc'), ('stack machine', 'apertium/perceptron_spec.cc Machine'), ('beam search and early update', 'apertium/perceptron_tagger.cc tagSentence, trainSentence'),
      ('lazy averaging', 'apertium/feature_vec_averager.cc'), ('side-by-side corpus reader', 'apertium/sentence_stream.cc TrainingCorpus')],
     'The meaning of .mtx files is a denotational evaluator in TLA+; 970 fixed templates (all addresses within 3 units and words, all slices within 3, comparisons, nested conditions, loops, macros) and 200 (thorough 1200) random typed files are evaluated with TLC and compared with the features the real tool prints. '
     'Recorded trainings and taggings with chosen weights are accepted only if some order of the sentences and choice between ties in the TLA+ state machine gives them. Bounds: three ambiguous units a sentence, two when training, three iterations.',
     'TLA+ evaluator of .mtx files and state machine of search and training checked with TLC; features replayed into the real tool, recorded runs of tagger and trainer validated against the state machine (with control records that must be rejected)')
FMF = ['apertium/deformat.xsl', 'apertium/reformat.xsl', 'apertium/txt-format.xml', 'apertium/html-format.xml', 'apertium/html-noent-format.xml', 'apertium/html-alt-format.xml', 'apertium/odt-format.xml', 'apertium/rtf-format.xml',
       'apertium/wxml-format.xml', 'apertium/latex-format.xml', 'apertium/xlsx-format.xml', 'apertium/pptx-format.xml', 'apertium/mediawiki-format.xml', 'apertium/xpresstag-format.xml']
TF = 'TLA+ specification of formats, deformatter and reformatter checked with TLC; every behaviour replayed into the real tools, random runs validated against it'
prop('C14', 'A document comes back unchanged through deformatter and reformatter',
     'For every format, a document that is deformatted (with no option, with -n, with -i, or with both) and reformatted with nothing done in between comes back character for character, except that characters written as markup (entities, rtf escapes) come back in the form the format prefers for them. '
     'Inside format blanks nothing is replaced. Reformatting a translated stream writes its text unescaped and with the preferred markup, its format verbatim, and none of the inserted sentence ends; blanks too large for the stream travel through a temporary file, which is gone afterwards.',
     ['inputs', 'configurations'], 'Every valid UTF-8 document of every format: markup nested, broken off, overlapping with comments, reserved characters anywhere.',
     'The tests deformat a handful of sample documents; only a few are brought back.',
     FMF, [('token rules and states', 'apertium/deformat.xsl'), ('escaping and large blocks', 'apertium/deformat.xsl printBuffer'), ('inverse', 'apertium/reformat.xsl')],
     'All documents of up to 2 (thorough 3) of about 17 fragments per format, plus random documents sampled from the markup of each format and random streams. Option -o changes the text and is excluded.', TF)
prop('C15', 'Deformatted documents are well-formed streams that hide exactly the markup',
     'For every format and document the deformatter writes a stream in which the text, unescaped, is exactly the text of the document (replaced markup as characters), all reserved characters in it are escaped, and all format, comments and scripts included, is inside superblanks, escaped, in order and complete. '
     'An artificial sentence end (".[]", or "[]" alone with -n) stands at markup that ends a sentence and at the end of the document and nowhere else (at every blank with -i), and with -o headings are marked.',
     ['inputs', 'configurations'], 'Every valid UTF-8 document of every format and every combination of options.',
     'The tests deformat a handful of sample documents of a few formats.',
     FMF, [('token rules and states', 'apertium/deformat.xsl'), ('what is written before the next character of text', 'apertium/deformat.xsl printBuffer, preDot'), ('escaping', 'apertium/deformat.xsl escape')],
     'The same documents as C14, all option combinations for the short ones.', TF)
prop('C20', 'Trained tagger models are the counts of their corpora, as the method says',
     'A model trained by apertium-tagger holds exactly what the method prescribes. Its ambiguity classes are the sets of coarse tags met in dictionary and corpus, with the open class, in order. '
     'Supervised HMM parameters are the smoothed counts of tag pairs and of tag and class; unsupervised ones start from Kupiec\'s estimate over the classes of neighbouring words, and each Baum-Welch iteration replaces them by their expected counts. '
     'The sliding-window model holds for each triple of tags its share of the windows it may explain, reestimated per iteration. '
     'Forbidden pairs and enforcement rules leave no other weight to what they exclude. Retraining starts from the model given and keeps its classes; a corpus the tags or classes of which do not fit is refused. apertium-tagger-readwords and apertium-filter-ambiguity list the words as the training sees them, with their tags: all, or one for each class.',
     ['inputs', 'configurations', 'histories'], 'Every tagset, dictionary, corpus and number of iterations.',
     'Tests train one model and look only at the output of a tagged sentence.',
     ['apertium/hmm.cc', 'apertium/lswpost.cc', 'apertium/tagger.cc', 'apertium/tagger_utils.cc', 'apertium/file_tagger.cc', 'apertium/apertium_tagger_apply_new_rules.cc', 'apertium/apertium_filter_ambiguity.cc', 'apertium/apertium_tagger_readwords.cc'] + TGF,
     [('classes and dictionary', 'apertium/tagger_utils.cc, apertium/hmm.cc read_dictionary'), ('supervised counts', 'apertium/hmm.cc init_probabilities_from_tagged_text'),
      ('Kupiec estimate and Baum-Welch', 'apertium/hmm.cc init_probabilities_kupiec, train'), ('rules', 'apertium/hmm.cc apply_rules'), ('windows', 'apertium/lswpost.cc init_probabilities, train')],
     'Random and fixed tagsets with rules, random corpora, up to three Baum-Welch iterations, retraining, rules added later; the specification gives the counts as integers, the model files are read and compared value for value. No ambiguous word in tagged corpora; stretches of up to four ambiguous words.',
     'TLA+ specification of the training counts evaluated with TLC over random corpora; every behaviour replayed into the real trainer and its model file compared')
prop('C23', 'Generated modes run the declared programs, traced up to each one',
     'For every valid modes file, each mode that is to be installed (or debugged, or all) gets a command line that is its programs in order, each with the files of the language data by absolute path (development or installed directory), quoted, and "$1"/"$2" kept. '
     'Each debug mode is the command line of its mode up to one program, with the trace option that program has, and named after it; a mode of that name that already exists wins. '
     'Files are written where asked, and nowhere else; an unusable modes file is refused.',
     ['inputs', 'configurations'], 'Every valid modes file and every combination of options and directories.',
     'The tests generate the modes of one or two modes files.',
     ['apertium/gen_modes.cc', 'apertium/modes.dtd'], [('reading of programs and options', 'apertium/gen_modes.cc read_program, read_pipeline'), ('debug modes and trace options', 'apertium/gen_modes.cc gen_debug_modes, set_trace_opt'), ('where modes go', 'apertium/gen_modes.cc gen_modes, main')],
     'Every program of language data with every kind of argument, alone and in pairs, plus random modes files, under all options; every file the tool leaves is compared with the specification.',
     'TLA+ specification of mode generation evaluated with TLC over systematic and random modes files; every behaviour replayed into the real tool', observe=['files written by the tool'])
prop('C24', 'Modes get word-bound blank handling without any other change',
     'The command line of a mode is rewritten so that blanks are attached right after every analyser and detached right before every generator, unless the mode sees to it itself (or restores capitals, which detaches). '
     'An old call of transfer with its bilingual dictionary becomes a lookup followed by transfer with the same rules, unless the mode looks up itself. '
     'With -z every program flushes. All programs and words are kept otherwise, in order, and rewriting again changes nothing.',
     ['inputs', 'configurations'], 'Every pipeline of language programs, with and without -z.',
     'No test runs this tool.',
     ['apertium/wblank-mode.cc'], [('helpers, split and -z', 'apertium/wblank-mode.cc main')],
     'All pipelines of up to 2 (thorough 3) stages of 14 programs, and random ones of up to 9 with extra words, each replayed; invariants checked by TLC on all.',
     'TLA+ specification of the rewriting checked with TLC; every behaviour replayed into the real tool')
prop('C25', 'Rearranging a document for translation keeps its text and formats',
     'Preparing a word-processing document for translation makes every run of formatted text end at the end of a word: the letters that a format change split off, also behind a hyphen or a middle dot between two l, go to the run in which their word begins, and a run left with nothing goes. '
     'The text read in order, the other elements, their attributes and their order, and everything that is no text (tabs, line breaks, images, links, fields) stay as they were; no text crosses any of these or the border of a paragraph; a paragraph whose runs already end at words is not touched; with file names, every part of the document comes out behind its name.',
     ['inputs'], 'Every document of paragraphs, runs, text elements and anything between them.',
     'The tests adapt two fixed documents, none with empty elements, tabs, or words split over three runs.',
     ['apertium/adapt_docx.cc'], [('collecting text elements and moving their borders', 'apertium/adapt_docx.cc Walker, adjust')],
     'All documents of a few elements of a vocabulary and random long ones; each result of the tool is compared with the specified one, invariants (text, order, idempotence) checked by TLC.',
     'TLA+ specification of the rearrangement checked with TLC; every behaviour replayed into the real tool')
prop('C26', 'The apertium command runs what its arguments ask for',
     'The command finds options before, between and after its other arguments, alone or clustered, and for each format runs deformatter, translation memory, the programs of the mode with the chosen marking and null-flush options, and reformatter, in that order, on the input named or given, with the result in the output named or given. '
     'Office documents come back complete with exactly their text parts translated, embedded spreadsheets too; preferences of the user reach every text of the session and leave no trace; wrong arguments and programs that fail are reported and never taken for success; nothing temporary is left behind.',
     ['inputs', 'configurations'], 'Every command line, preference setting, mode and document.',
     'The tests run this script for a few fixed command lines with txt and none formats.',
     ['apertium/apertium-header.sh'], [('options and arguments', 'apertium/apertium-header.sh getopts'), ('taking office documents apart and together', 'apertium/apertium-header.sh translate_odt'), ('preferences', 'apertium/apertium-header.sh apply_invert_setvars')],
     'All command lines of up to 2 words of a vocabulary of 29 and hundreds (thorough: thousands) of random ones over 29 formats and 10 modes, each run for real with programs that write down that they ran. Trusts these stand-ins. Exit status of failing programs only for formats handled in one pipe; Transfuse and rtfu not covered.',
     'TLA+ specification of the command line and its pipeline evaluated with TLC; every behaviour replayed into the real script')
prop('C27', 'LaTeX documents come back as they were, their commands hidden',
     'A LaTeX document turned into XML (prelatex, fixlatex), made a stream (deslatex), and back (relatex, postlatex) is the document again, but for normal forms that mean the same: accents and ligatures written as characters or commands, white space next to environments, comments at the end of lines. '
     'The words of running text, of the arguments of commands and of environments are given to the translator, with accented letters as single characters; the names of commands and environments, formulas, comments, verbatim text, options, labels and references are not. '
     'Commands without a group, unclosed groups and unknown commands do not disturb what comes after them.',
     ['inputs'], 'Every document of groups, commands, environments, formulas, comments, verbatim text and accents.',
     'No test runs any of the LaTeX filters.',
     ['apertium/apertium-prelatex.l', 'apertium/apertium-postlatex.l', 'apertium/apertium-postlatex-raw.l', 'apertium/utils-fixlatex-header.sh', 'apertium/latex_accentsmap.cc', 'apertium/latex-format.xml'],
     [('lexemes of prelatex', 'apertium/apertium-prelatex.l'), ('writing LaTeX', 'apertium/apertium-postlatex.l, apertium-postlatex-raw.l'), ('ends of groups', 'apertium/utils-fixlatex-header.sh'), ('tables', 'apertium/latex_accentsmap.cc'), ('what is hidden', 'apertium/latex-format.xml')],
     'Every lexeme of a vocabulary, pairs and (thorough) triples of them, and random structured documents; the result of every stage and of the whole chain is the specified one, and so are the letters shown to the translator. Environment names directly in braces; \\t{oo} left out; of what is shown only letters are compared.',
     'TLA+ specification of the LaTeX scanners as longest-match machines, round trip checked with TLC; every behaviour replayed into the real filters, stage by stage')

prop('C28', 'The tools do what they are asked to, whichever way they are asked',
     'Every stage of the pipeline and every format filter understands its documented command line: options in any order, one by one or in clusters, by their short or their long names (or what abbreviates these), before, between or after the names of files, and after -- nothing is an option; '
     'a named input file means the same as standard input, a named output file receives exactly what standard output would have, and nothing else is written or changed. '
     'What cannot be done (unknown or contradictory options, missing arguments, too few or too many files, a file that cannot be opened) ends with a failing exit status, nothing on standard output and the other files untouched.',
     ['inputs'], 'Every tool, every command line of its options, names and files.',
     'The tests of a tool use one or two fixed command lines, nearly always standard input and output.',
     ['apertium/apertium_pretransfer.cc', 'apertium/apertium_posttransfer.cc', 'apertium/apertium_transfer.cc', 'apertium/apertium_interchunk.cc', 'apertium/apertium_postchunk.cc', 'apertium/apertium_extract_caps.cc',
      'apertium/apertium_restore_caps.cc', 'apertium/apertium_compile_caps.cc', 'apertium/tagger.cc', 'apertium/shell_utils.cc', 'apertium/apertium_tagger_apply_new_rules.cc', 'apertium/apertium_tagger_readwords.cc',
      'apertium/apertium-multiple-translations.cc', 'apertium/apertium_filter_ambiguity.cc', 'apertium/transferpp.cc', 'apertium/deformat.xsl', 'apertium/reformat.xsl', 'apertium/apertium-prelatex.l'],
     [('options of the tagger', 'apertium/tagger.cc apertium_tagger::apertium_tagger'), ('options and files of transfer', 'apertium/apertium_transfer.cc main'), ('files of the format filters', 'apertium/deformat.xsl, reformat.xsl main')],
     'All command lines of 26 tools with one group of options (thorough: two) among up to two files too many, and random longer ones; the run compared with the plainest way of asking for the same, which TLC shows to be equivalent; exit status, standard output, messages and every file of the directory. Texts on which the options differ are shown to differ. '
     'Left out: long names the installed lttoolbox option reader does not know (it crashes), the training commands of the tagger, files of a kind not expected.',
     'TLA+ specification of the reading of a command line as a machine over words, equivalence of all spellings checked with TLC; its command lines run with the real tools',
     observe=['standard output, exit status and files of the tools'])

prop('C29', 'A stage whose input is cut short ends, and what it wrote stands',
     'Whenever the input of a stage or a format filter ends, at whatever character (the process before it died), the stage ends as well: it neither runs for ever nor crashes. It succeeds when nothing was open, and may fail only when a blank, a unit, a chunk or an escape was. '
     'What it writes is valid text that begins with what it gives for the part of the stream that is complete (for taggers, up to the last unit that leaves no choice; for the perceptron tagger, the texts already closed). '
     'Whatever document a format filter is given, whole or cut, the translator gets a well-formed stream; and every stage turns a complete stream into a complete stream.',
     ['inputs', 'crash points'], 'Every stream and document and every character after which it may end.',
     'The tests only use complete inputs.',
     ['apertium/pretransfer.cc', 'apertium/transfer.cc', 'apertium/interchunk.cc', 'apertium/postchunk.cc', 'apertium/transfer_mult.cc', 'apertium/stream.cc', 'apertium/morpheme.cc', 'apertium/analysis.cc', 'apertium/file_morpho_stream.cc',
      'apertium/apertium_extract_caps.cc', 'apertium/caps_restorer.cc', 'apertium/apertium_cleanstream.cc', 'apertium/apertium_posttransfer.cc', 'apertium/wblank-attach.cc', 'apertium/wblank-detach.cc', 'apertium/deformat.xsl', 'apertium/reformat.xsl', 'apertium/apertium-prelatex.l'],
     [('reading of tokens', 'apertium/transfer.cc, interchunk.cc, postchunk.cc, transfer_mult.cc readToken'), ('reading of units', 'apertium/pretransfer.cc procWord, stream.cc Stream::get, morpheme.cc, file_morpho_stream.cc readRestOfWord')],
     'Every stream of up to two words of 14 vocabularies and random longer ones, cut after every character, through 101 configurations of 46 tools; what has to stand at each cut computed by the specification, and what the tools write read back by it. Cuts inside a character (the library aborts) and null characters inside what is open are left out.',
     'TLA+ specification of the stream as a language read by a machine with a stack, checked with TLC (clean exactly between words, always closable); cuts replayed into the real tools, their output read by the machine',
     observe=['standard output and exit status of the tools'])

prop('C30', 'A translation memory pairs the sentences of two texts, in order',
     'From an unformatted text and its translation the memory builder makes a well-formed TMX document that names both languages. Sentences end at a full stop before white space or format, at a question or exclamation mark, at the end of a line and of the text; escapes are undone, format inside becomes a placeholder, no other text is lost or changed. '
     'The sentences of both texts are divided into runs that correspond, in order, no sentence in two: by the division of the highest score (words and numbers in common, similar lengths, a price for sentences without counterpart), after which a sentence left alone joins the neighbour it fits better; texts of hopelessly different length are not paired. '
     'A unit is written for exactly those pairs that have a letter and three blanks after it on both sides, without format, white space or full stops at the borders of the segments (markup characters as entities). A text given as its own translation pairs every sentence with itself.',
     ['inputs'], 'Every two texts.',
     'No test runs this tool.',
     ['apertium/tmx_builder.cc', 'apertium/apertium_tmxbuild.cc', 'apertium/tmx_aligner_tool.cc', 'apertium/tmx_alignment.cc', 'apertium/tmx_book_to_matrix.cc', 'apertium/tmx_trail_postprocessors.cc', 'apertium/tmx_dictionary.cc', 'apertium/tmx_translate.cc', 'apertium/tmx_quasi_diagonal.h'],
     [('sentences', 'apertium/tmx_builder.cc nextTU, sentenceList'), ('what is written of a pair', 'apertium/tmx_builder.cc filter, xmlize, printTU'), ('pairing', 'apertium/tmx_alignment.cc buildDynProgMatrix, trelliToLadder'), ('lines left alone', 'apertium/tmx_trail_postprocessors.cc spaceOutBySentenceLength')],
     'All pairs of texts of up to two (thorough three and two) pieces of a vocabulary and random pairs of a text and something like its translation; the memory read back as XML has to be one the specification allows (scores in fixed point; where two pairings are equal within its precision, both are allowed, in about 3 % of the pairs). Texts of up to 260 characters; the options of the command, which nothing in the program uses, are left out.',
     'TLA+ specification of sentences, pairing by dynamic programming and segments, checked with TLC (nothing lost, in order, own translation); every pair of texts run through the real tool',
     observe=['the TMX document written'])
prop('C31', 'The data of one variety holds what is marked for it, and the rest unchanged',
     'The scripts that prepare dictionaries and rules for a variety of a language write an XML document that differs from the one read in what the request asks for and in nothing else (elements, attributes, their values, texts and their order; comments and white space between elements aside). '
     'apertium-genvdix, -genvldix, -genvrdix: an entry with the attribute v (vl, vr) is marked with the variety asked for when this is among the names it lists, else with "other" (with something else when "other" is asked for). '
     'apertium-filter-rules, apertium-filter-xml: an element marked for varieties (names divided by white space, by commas) stays, without the mark, exactly if all (one) of those asked for are among them, and whatever is inside it is treated in the same way; elements whose value is no mark, or that are to be kept, stay as they are. '
     'apertium-filter-dix: entries of another variety remain for analysis only (on the right side: for generation only) or are left out when they are not for that. '
     'apertium-translate-to-default-equivalent: an entry that is one of several equivalents in a direction keeps this direction only if it is the default one, and is left out when no direction remains. No entry translates in a direction it did not, and what was prepared for a variety does not change when it is prepared for it again.',
     ['inputs'], 'Every dictionary or rule file and request.',
     'No test runs these scripts.',
     ['scripts/apertium-genvdix', 'scripts/apertium-genvldix', 'scripts/apertium-genvrdix', 'scripts/apertium-filter-rules', 'scripts/apertium-filter-xml', 'scripts/apertium-filter-dix.in', 'scripts/filter-dix.xslt', 'scripts/apertium-translate-to-default-equivalent.in', 'scripts/translate-to-default-equivalent.xslt'],
     [('varieties of entries', 'scripts/apertium-genvdix DixHandler'), ('filters', 'scripts/apertium-filter-rules process_node, scripts/apertium-filter-xml filter_node'), ('directions', 'scripts/filter-dix.xslt, scripts/translate-to-default-equivalent.xslt templates of e')],
     'Every entry with all combinations of variety marks, restrictions and default marks for 16 requests, and random files of all elements of dictionaries and rules; the document written is read back and compared with the tree the specification computes.',
     'TLA+ specification of the tree transformations checked with TLC (idempotence, nothing added, directions); the real scripts run on every enumerated and random tree',
     observe=['the XML document written'])
prop('C32', 'Lexical selection macros, sequences and repetitions expand as written',
     'apertium-metalrx writes the rules with, in place of every macro call and after the other rules, the rules of the macro of that name, in order, its parameters replaced by the values of the call (markup characters included), and leaves out the definitions; nothing else changes. '
     'apertium-metalrx-to-lrx writes the rules, every named sequence replaced by its elements and every rule with a repetition written once for each number of times from its upper bound (upto) down to the lower one (from, else one), with all that is before and after the repetition; attributes of rules, rules without repetitions and everything else come out as they were. The result holds no macro, sequence by name or repetition.',
     ['inputs'], 'Every file of lexical selection rules.',
     'No test runs these scripts.',
     ['scripts/apertium-metalrx', 'scripts/apertium-metalrx-to-lrx.in', 'scripts/metalrx-to-lrx.xslt'],
     [('macros', 'scripts/apertium-metalrx'), ('repetitions', 'scripts/metalrx-to-lrx.xslt repeat1, repeatElts'), ('sequences', 'scripts/metalrx-to-lrx.xslt template seq')],
     'Random files: macros of up to three parameters in attributes and texts, values with markup, several rules per macro; repetitions at every place of a rule, bounds 0 to 11, sequences inside and outside of them. One repetition per rule (more are not supported), no macro inside a macro.',
     'TLA+ specification of the expansion checked with TLC; the real scripts run on every tree',
     observe=['the XML document written'])
prop('C33', 'The edit distance transducer relates words at the weight of the cheapest edits',
     'The transducer apertium-editdist writes (ATT format) for an alphabet and a distance d relates a word to exactly those that one to d edits make of it (insertion, deletion, replacement of a symbol and, if asked for, swaps of neighbours; deletion and replacement of unknown symbols), at the least sum of weights of such edits. '
     'An edit weighs what the specification file says, or says for the opposite direction; else one, and the weights of the symbols that take part. Excluded symbols take no part. With distances from three on and without --no-elim, this is so for words that differ and ordinary weights.',
     ['inputs'], 'Every alphabet, specification file, set of options and pair of words.',
     'No test runs this script.',
     ['scripts/apertium-editdist'],
     [('weights', 'scripts/apertium-editdist Transducer.generate'), ('states and transitions', 'scripts/apertium-editdist make_transitions, make_substitutions, make_swaps, next_special')],
     'Random alphabets of up to three symbols (given as argument, file, binary transducer), exclusions, weights, specified replacements and swaps, distances up to four; for each, every pair of words of up to three (thorough four) symbols: the weight of the cheapest path of the transducer written and that of the specification; pairs of longer words about as many edits apart as are allowed.',
     'TLA+ specification of weighted edits checked with TLC (symmetry, counts, growth with the distance); the transducer of the real script followed for every pair of words',
     observe=['the transducer written'])
