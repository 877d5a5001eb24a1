#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The statements live here so they are easy to edit."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

W='terminal/runes/width.go'; L='terminal/runes/lookup.go'
prop('C01','Rune width follows Unicode 15.0 for every rune and every option',
 'For every rune value and every combination of the width options, the width of a rune is its number of terminal cells: 0 for invalid runes, U+FFFD, controls, the soft hyphen, the other non-printing format characters and combining characters, 2 for East Asian Wide and Fullwidth runes, 3 and 4 for the two-em and three-em dashes, and 1 for everything else (Latin-1 and other runes below U+0300 included). With the East Asian option, East Asian Ambiguous runes take the configured ambiguous width (2 by default) and, when the strict-emoji-neutral skip is also on, pictographic emoji that would otherwise take 1 cell take 2; both of these options change nothing when the East Asian option is off. IsAmbiguous is true exactly for the runes Unicode classes as East Asian Ambiguous.',
 ['inputs','configurations'],'All rune values (valid, surrogate, negative, above U+10FFFF) times every combination of the width options.',
 'Tests look at a few dozen runes; the answer comes from ~2,000 table intervals, a binary search and a packed 2-bit lookup, where one wrong interval or shift affects runes no test names.',
 [W,L,'terminal/runes/runes_tables.go','terminal/runes/options.go'],
 [('precedence of the width classes','terminal/runes/width.go:runeWidth'),('packed lookup table','terminal/runes/lookup.go:buildLookupTable'),('interval binary search','terminal/runes/lookup.go:inTable')],
 ['runes.Width','runes.IsAmbiguous'],[dict(name='lookupTable',meaning='4 widths per byte, built once',where=L)])
prop('C02','The width of a text is the sum of the widths of its runes',
 'For every slice of runes of any length (invalid rune values included) and every combination of options, the width of the slice equals the sum of the widths of its runes under the same options, and the width of a string equals the width of its runes. These functions never panic.',
 ['inputs','configurations'],'All rune sequences over an alphabet with every width class, every single rune, all option combinations, lengths from empty to thousands.',
 'Tests measure a few short strings; the slice functions use a separate code path from the single-rune function, and differ only on runes or lengths no test uses.',
 [W],[('separate accumulation loops','terminal/runes/width.go:Widths')],['runes.Widths','runes.StringWidth'])
prop('C03','Width answers never depend on call history or on concurrent callers',
 'The answer of any width function depends on its arguments alone: not on which width calls or options came before it, in this or another goroutine, nor on whether it is the first call of the process. Any number of goroutines may call these functions at once, from a cold start, without a data race, a deadlock or a wrong answer.',
 ['schedules','histories'],'All call histories up to a depth from a cold process, and all interleavings of 2-3 goroutines up to a preemption bound from a cold process.',
 'The tests are sequential and the lookup table is built by whichever test runs first, so no test observes another interleaving or another first call.',
 [W,L,'terminal/runes/options.go'],[('one-time table construction','terminal/runes/width.go:Width, Widths'),('shared default options','terminal/runes/options.go:optionsWithDefaults')],
 ['runes.Width','runes.Widths','runes.StringWidth'],[dict(name='lookupTable, buildLookupOnce, defaultOptions',meaning='lazily built shared state',where=L)])
prop('C04','Splitting on separators equals strings.FieldsFunc; tokens are blank-free',
 'For every rune sequence and every separator predicate, the fields are exactly the maximal runs of non-separator runes, in order and none empty, as strings.FieldsFunc would give. The tokenizer returns exactly the maximal runs of runes that are not Unicode white space, the same for a string and for its runes.',
 ['inputs'],'All sequences over an alphabet of separators and non-separators up to a depth, every Unicode rune in every position of a short context, and long inputs.',
 'Tests try a handful of sentences; boundary positions (leading, trailing, adjacent separators, separators outside ASCII, long inputs) are not covered together.',
 ['terminal/runes/fields.go','wordbreak/tokenizer/tokenizer.go'],[('field scanning','terminal/runes/fields.go:FieldsFunc'),('white space predicate','wordbreak/tokenizer/tokenizer.go:BreakWord')],['runes.FieldsFunc','tokenizer.BreakWord','tokenizer.BreakWordString'])
prop('C05','The punctuator partitions a word and isolates every separator',
 'For every word, the parts given by the punctuator concatenate to the word, none is empty, every separator (a Unicode punctuation rune that is not a hyphen, or the pipe) is a part of its own, and every other part is a maximal run without separators. IsPunctuation is true exactly for a word made of a single separator, and breaking a string gives the same parts as breaking its runes.',
 ['inputs'],'All words over an alphabet of letters, separators and hyphens up to a depth, every Unicode rune in every position of a short context, and long words.',
 'Tests cover ASCII samples; the statement ranges over all of Unicode punctuation, all hyphens and all adjacency patterns.',
 ['wordbreak/punctuator/punctuator.go'],[('separator predicate','wordbreak/punctuator/punctuator.go:punctSplitFunc'),('retaining split','wordbreak/punctuator/punctuator.go:breakAtFunc')],['punctuator.BreakWord','punctuator.BreakWordString','punctuator.IsPunctuation'])
prop('C06','Splitting at explicit hyphens partitions a word and isolates hyphens',
 'For every word, SplitWord returns parts that concatenate to the word, none empty, in which every rune with the Unicode Hyphen property is a part of its own and every other part is a maximal run without hyphens. IsHyphen is true exactly for a word made of one such rune.',
 ['inputs'],'All words over an alphabet of letters, all hyphen runes and look-alikes up to a depth, every Unicode rune in every position of a short context, and long words.',
 'Tests cover two words with the ASCII hyphen.',
 ['wordbreak/hyphenator/hyphenator.go'],[('retaining split','wordbreak/hyphenator/hyphenator.go:SplitWord')],['hyphenator.SplitWord','hyphenator.IsHyphen'])
H='wordbreak/hyphenator/hyphenator.go'
prop('C07','Hyphenation never alters a word and honours the configured minima',
 'For every word, language and setting of the minimum length, left and right options, the parts returned by BreakWord concatenate to the word exactly (case and all runes kept) and no part of a non-empty word is empty; every part but the last has at least the configured left minimum of runes, and at every break at least the configured right minimum of runes remain in the rest of the word. A word shorter than the minimum length, or one that contains an explicit hyphen, comes back as a single part. BreakWord never panics, and breaking a string gives the same parts as breaking its runes.',
 ['inputs','configurations'],'All short words per language, pattern-derived and long words, arbitrary Unicode runes, times a grid of the non-negative values of the three minima.',
 'Tests use default options on about twenty words, so neither the options grid nor words that hit buffer growth and word-end conditions are covered.',
 [H,'wordbreak/hyphenator/options.go'],[('minima applied when cutting','wordbreak/hyphenator/hyphenator.go:splitAtPositions'),('position clean-up','wordbreak/hyphenator/hyphenator.go:BreakWord')],['hyphenator.BreakWord','hyphenator.BreakWordString'])
prop('C08','Break points are those of the TeX patterns and exceptions of the language',
 'For every supported language and every word, whatever its length or letter case, the break points are exactly those of TeX (Liang) hyphenation with the patterns published for the language: a listed exception breaks exactly at its marked points, any other word breaks where the highest value among all matching patterns is odd (the word being delimited by dots), and in both cases only where the left and right minima allow it when breaks are taken greedily from the left. Upper and lower case variants of a word break at the same points.',
 ['inputs','configurations'],'Every pattern and exception of the five languages in several contexts, all words up to 3-4 letters of each alphabet, pairs of patterns, words up to hundreds of runes, case variants, grids of minima.',
 'Tests compare about twenty words; each language has thousands of patterns whose interplay (overlaps, word ends, exceptions, long words) tests cannot enumerate.',
 [H,'wordbreak/hyphenator/dictionary.go','wordbreak/hyphenator/languages'],[('pattern parsing','wordbreak/hyphenator/dictionary.go:readPattern, readException, LoadPatterns'),('fragment matching and merge','wordbreak/hyphenator/hyphenator.go:isPattern, mergeBreakPoints')],['hyphenator.BreakWord','hyphenator.LoadPatterns'],
 [dict(name='exceptions, patterns',meaning='tries of the loaded language',where='wordbreak/hyphenator/dictionary.go')])
prop('C09','A requested language selects the best supported pattern set',
 'For every language tag or language string, a hyphenator uses the pattern set of the supported language that BCP 47 / CLDR matching selects: US English (also for plain English, by default, and as the fallback for unsupported languages), British English, German, French and Spanish, regional variants such as fr-CH, de-AT, es-MX or en-AU included. Asking by tag and asking by string agree, the last language option wins, and every pattern file that is listed as supported can be loaded.',
 ['inputs','configurations'],'All language x script x region tags over the languages and regions known to the matcher, malformed strings, and pairs of options.',
 'Tests try five tags; matching is over thousands of tags and depends on canonicalisation and regional extensions.',
 ['wordbreak/hyphenator/languages.go','wordbreak/hyphenator/options.go','wordbreak/hyphenator/dictionary.go'],[('tag to pattern file','wordbreak/hyphenator/languages.go:langToPattern'),('string option','wordbreak/hyphenator/options.go:WithLanguage')],['hyphenator.New','hyphenator.BreakWord','hyphenator.SupportedPatterns'])
prop('C10','Hyphenators are independent of history, of each other and of scheduling',
 'Any number of hyphenators may be created and used, sequentially or at once, from any number of goroutines and also sharing one hyphenator: every result is the one a lone hyphenator with the same options would give, whatever was created or broken before, with no data race, deadlock or panic. Each language dictionary is loaded once, and all hyphenators of a language share the same complete dictionary.',
 ['schedules','histories','configurations'],'All interleavings of 2-3 goroutines doing New/BreakWord on equal and different languages from a cold process up to a preemption bound, and all histories of such operations up to a depth.',
 'Tests are sequential, create few hyphenators, and load each language once.',
 ['wordbreak/hyphenator/cache.go',H],[('mutex-guarded cache','wordbreak/hyphenator/cache.go:loadDictFromCache'),('per-call buffers','wordbreak/hyphenator/hyphenator.go:BreakWord')],['hyphenator.New','hyphenator.BreakWord','Hyphenator.Dictionary'],
 [dict(name='loadedPatterns',meaning='shared cache of dictionaries',where='wordbreak/hyphenator/cache.go')])
prop('C11','The rune trie behaves as a map from rune keys to values',
 'After any sequence of Put, Get and Delete operations, Get returns the last value put at exactly that key and nil when there is none or it was deleted; the operations on one key never change what another key holds, prefixes and extensions included. Put reports whether the key held no value before, and Delete reports whether that key or an extension of it held a value (always true for the empty key), leaving all other keys in place.',
 ['histories'],'All operation sequences up to a depth over a set of keys that are prefixes, extensions and siblings of each other, including the empty key, and nil values.',
 'Tests run a fixed list of operations; pruning on delete depends on the shape left by earlier operations.',
 ['wordbreak/hyphenator/internal/trie/rune_trie.go'],[('child creation','wordbreak/hyphenator/internal/trie/rune_trie.go:Put'),('pruning','wordbreak/hyphenator/internal/trie/rune_trie.go:Delete')],['trie.Put','trie.Get','trie.Delete'])
S='terminal/runes/runesio/slice_reader.go'
prop('C12','The slice reader is a faithful rune reader and seeker',
 'For every slice of runes and every sequence of operations, reading yields the runes in order, each with the number of bytes it takes when written as UTF-8, then io.EOF forever; seeking moves to exactly the requested rune position counted from the start, the current position or the end, and a request out of range fails with ErrSeekOutOfRange and leaves the position unchanged. The unread runes are always exactly those after the current position, and slicing works from any state without moving the position.',
 ['histories','inputs'],'All sequences of read, seek (every whence, in and out of range offsets), unread and slice operations up to a depth on slices of 0 to 4 runes of every UTF-8 size, invalid runes included.',
 'Tests follow a few fixed scripts on one text.',
 [S],[('offset arithmetic','terminal/runes/runesio/slice_reader.go:Seek, ReadRune')],['SliceReader.ReadRune','SliceReader.Seek','SliceReader.Runes','SliceReader.Slice'],
 [dict(name='offset',meaning='current position in runes',where=S)])
prop('C13','Slicing by rune or byte offsets returns exactly the designated runes',
 'For every slice of runes and every list of pairs of offsets, Slices returns for each pair the runes between the two rune offsets, and SliceFromByteOffsets returns for each pair of byte offsets that fall on rune boundaries exactly the runes whose UTF-8 encoding lies between the two, as slicing the equivalent string would, empty ranges at any position included. Pairs are handled independently and in order, from any state of the reader, and an odd number of offsets panics.',
 ['inputs'],'All slices over runes of 1-4 bytes and invalid runes up to a length, all pairs and pairs of pairs of valid offsets.',
 'Tests use one text and a handful of offsets.',
 [S],[('byte to rune conversion','terminal/runes/runesio/slice_reader.go:SliceFromByteOffsets')],['SliceReader.Slices','SliceReader.SliceFromByteOffsets'])
prop('C14','The rune writer emits exact UTF-8 and reports counts and errors faithfully',
 'For every sequence of writes of a rune, of runes or of bytes, the bytes that reach the underlying writer are exactly the UTF-8 encoding of what was written, in order (invalid runes as U+FFFD), whatever the length. The count and error returned are those of the underlying writer: on success the full length in bytes, and when the underlying writer fails or writes short at any point, exactly the bytes it accepted and its error.',
 ['inputs','fault_sequences'],'All rune sequences over every UTF-8 size up to a depth, every rune alone, long inputs, and a failure or short write of the underlying writer at every byte position.',
 'Tests write to an in-memory buffer that never fails.',
 ['terminal/runes/runesio/writer.go'],[('encoding','terminal/runes/runesio/writer.go:writeRune, writeRunes')],['runesio.Writer.WriteRune','runesio.Writer.WriteRunes','runesio.Writer.Write'])
A='terminal/ansi/ansi.go'
prop('C15','Stripping escape sequences loses nothing, terminates and never panics',
 'For every token, the stripped tokens, each written as start sequence, text and stop sequence, concatenate to the token exactly; a single strip plus its remainder does so too, and stripping the remainder again and again gives the same stripped tokens. Stripping terminates and never panics on any input, complete, truncated or malformed, and no stripped token is empty unless the input is.',
 ['inputs'],'All rune sequences up to a depth over the alphabet the decoder distinguishes (escape, bracket, digits, separators, final letters, text), all Unicode runes in short contexts, and long inputs.',
 'Tests list some thirty tokens; the decoder has many read/rewind paths reached only by particular truncated or chained sequences.',
 [A],[('cursor rewinds','terminal/ansi/ansi.go:decodeANSISequence, StripANSIFromRunes, decodeText')],['ansi.StripToken','ansi.StripANSIFromRunes'])
prop('C16','Escape sequences are recognised whole and classified as start, stop or other',
 'A control sequence is ESC [ followed by parameters of at most three digits separated by semicolons or colons and by one final rune: it is a start when the final is s or h, or m with a non-zero first parameter, a stop when the final is u or l, or m with a zero or absent first parameter, and other for any other final or when truncated. In the stripped tokens every start and every stop sequence of the input appears whole as the start or the stop of one stripped token, at most one of each per stripped token, and everything else, other sequences kept whole and lone escapes included, appears as text. Text between two sequences is never split, and a stripped token groups a start directly followed by text or a stop, and a text directly followed by a stop.',
 ['inputs'],'All sequences of complete, truncated and chained control sequences and text items up to a depth, all parameter lists up to three digits and several sections, every final rune.',
 'Tests use two-digit parameters and simple orders; 256-colour or true-colour parameters and chained sequences have many more shapes.',
 [A],[('parameter scanning and classification','terminal/ansi/ansi.go:decodeANSISequence'),('grouping','terminal/ansi/ansi.go:StripANSIFromRunes')],['ansi.StripToken','ansi.StripANSIFromRunes'])
T='attributes/state.go'
prop('C17','Attribute lists keep order, nesting levels and exact rendering',
 'Whatever renderers are pushed, iterating yields exactly the pushed renderers once, in order (nil ones ignored), and each gets as level the number of contexts opened and not yet closed at its position, its own start included: a start opens one, a stop closes the innermost one after the renderer, and a stop with nothing open closes nothing. Rendering an attribute writes its start sequence, its text and its stop sequence, each only when present, and rendering, starting or stopping a collection does this for each renderer in order, nil ones skipped.',
 ['histories','inputs'],'All sequences of pushes up to a depth over the start/text/stop shapes and nil, and all iterator uses on them.',
 'Tests push one fixed list of balanced attributes.',
 [T,'attributes/attribute.go','attributes/iface.go'],[('level computation','attributes/state.go:Push'),('iteration','attributes/state.go:Next'),('rendering','attributes/attribute.go:Render')],['State.Push','State.Iterator','State.First','Renderer.Level','Attribute.Render','Renderers.Render'])
prop('C18','Breaking a line anywhere closes and reopens exactly the open attributes',
 'At any position of an iteration over properly nested attributes, EndOfLine writes exactly the stop sequences of the contexts still open after the current renderer, innermost first, and StartOfLine writes exactly the start sequences of those contexts, outermost first. Nothing is written when no context is open, before the iteration starts, or for contexts already closed, so that every rendered line is self-contained and keeps the style of every rune.',
 ['histories','inputs'],'All attribute lists up to a length and nesting depth (stray stops included), every break position, and every set of break positions in a list.',
 'The test renders one list with one nesting level; deeper nesting and closed siblings are not tried.',
 [T],[('walk to the closing renderers','attributes/state.go:EndOfLine'),('walk back to the opening renderers','attributes/state.go:StartOfLine')],['StateIterator.StartOfLine','StateIterator.EndOfLine'])
prop('C19','Inputs and earlier results are never modified; sharing an input is safe',
 'No function that takes runes, tokens or options modifies them, nor the memory behind the slice up to its capacity, and no result already returned changes because of a later call. Goroutines may therefore process the same input at the same time without a data race and get the same results as when run alone.',
 ['inputs','histories','schedules'],'All inputs of the other enumerations with sentinels behind the slice and all earlier results kept and compared, and all interleavings of two goroutines on one shared input up to a preemption bound.',
 'Tests compare results only, immediately after the call, and never share an input between goroutines.',
 [A,H,'wordbreak/punctuator/punctuator.go','terminal/runes/fields.go','terminal/runes/width.go','terminal/runes/runesio'],[('sub-slices of the input','terminal/ansi/ansi.go:StripANSIFromRunes'),('per-call buffers','wordbreak/hyphenator/hyphenator.go:BreakWord')],['every exported function taking []rune'])
K='linebreak/knuth_plass.go'; B='linebreak/linebreaker.go'
prop('C20','Every line fits the width, and failure means the paragraph cannot be set',
 'For every paragraph, width, option setting and measurer (additive over runes, with whole measures once scaled), each rendered line (escape sequences not counted, its hyphen counted) is no wider than the requested width. An error is returned exactly when no choice of legal break points sets the paragraph with every line within the width and within the tolerance, and the call never panics.',
 ['inputs','configurations'],'All paragraphs up to a number of tokens over an alphabet of words (short, long, hyphenable, hyphenated, punctuated, wide, styled) times widths from 1 up and the options.',
 'Tests print the result of a dozen paragraphs and assert only that there is no error.',
 [K,B],[('feasibility of breaks','linebreak/knuth_plass.go:mainLoop, adjustmentRatio'),('rendering','linebreak/linebreaker.go:render')],['LineBreaker.LeftAlignUniform'])
prop('C21','Line breaking preserves the text and breaks only where it may',
 'The rendered lines, once the hyphens added at breaks inside a word are removed, carry exactly the tokens in order, separated by a single space or by a line break, with no rune lost, added, repeated or reordered and no space at either end of a line. A token is broken only after a punctuation mark or an explicit hyphen, or at a break point given by the hyphenator, and a hyphen is added exactly at the latter when hyphens are rendered; with word breaking disabled no word is broken by the hyphenator or at hyphens.',
 ['inputs','configurations'],'As for C20.','Tests print lines without comparing them with the input.',
 [B,'linebreak/knuth_plass_types.go'],[('box model of a token','linebreak/linebreaker.go:boxNodes, pushHyphen'),('rendering','linebreak/linebreaker.go:render')],['LineBreaker.LeftAlignUniform'])
prop('C22','The chosen breaks minimise the total Knuth-Plass demerits',
 'Among all ways of setting the paragraph at legal break points with every line within the width and the tolerance, the lines returned are ones with the least total demerits, where demerits combine per line the badness of the space left, the penalty of the break, an extra for two consecutive flagged breaks and an extra for adjacent lines of very different looseness, with the documented default parameters or those set by the options.',
 ['inputs','configurations'],'As for C20, against exhaustive search over all sets of break points.',
 'Tests print lines; no test knows an optimum.',
 [K],[('dynamic programming over active breaks','linebreak/knuth_plass.go:mainLoop, insertNewActiveBreak'),('demerits','linebreak/knuth_plass.go:demeritsForRatio, demeritsAndClass')],['LineBreaker.LeftAlignUniform'],
 [dict(name='activeNodes',meaning='active break points',where=K)])
prop('C23','Line breaking is deterministic and independent of earlier paragraphs',
 'The same tokens, width and options always give the same lines or the same error: in any run, with a fresh or a reused line breaker whatever it processed before, and while other line breakers work at the same time in other goroutines, without a data race.',
 ['histories','schedules','inputs'],'All sequences of paragraphs up to a depth on one line breaker compared with fresh ones, all map iteration orders up to a number of deviations, and all interleavings of two line breakers up to a preemption bound.',
 'Tests use each line breaker once and do not compare runs.',
 [B,K],[('state kept in the line breaker','linebreak/linebreaker.go:LeftAlignUniform'),('iteration over candidates','linebreak/knuth_plass.go:insertNewActiveBreak')],['LineBreaker.LeftAlignUniform'],
 [dict(name='attrList, nodes, sum',meaning='per-paragraph state held in the line breaker',where=B)])
prop('C24','Styled paragraphs keep the style of every rune and close it on every line',
 'For paragraphs whose escape start and stop sequences are properly nested, across tokens as well as within them, every rune keeps in the rendered lines exactly the style contexts it has in the input, in the same order. Every line is self-contained: what is open at its end is closed there and reopened at the start of the next line, and no escape sequence is lost, including sequences not next to any text.',
 ['inputs','configurations'],'All paragraphs up to a number of tokens over an alphabet of styled tokens (start only, stop only, both, chained starts, sequences alone, hyphenable words) times widths.',
 'One test prints a styled paragraph without asserting, and nested styles are skipped.',
 [B,T,'linebreak/knuth_plass_types.go'],[('renderers per word part','linebreak/linebreaker.go:boxNodes'),('line start and end','linebreak/linebreaker.go:render')],['LineBreaker.LeftAlignUniform'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
