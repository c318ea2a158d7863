def P(id, title, statement, qtext, why, files, mech, outside, harnesses, over=("inputs",), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None},
                outside=outside, harnesses=harnesses)

def H(pkg, fn, qsecs, q, tsecs, t, bounds, reach=(), **kw):
    d = dict(pkg=pkg, fn=fn, quick={"secs": qsecs, "params": q}, thorough={"secs": tsecs, "params": t}, bounds=bounds, reach=list(reach))
    d.update(kw)
    return d

WORDS = "22 words (thorough 49), one or more for each word class and tone"
FR = "21 text frames with 2-4 arbitrary words each, out of " + WORDS
PARSER = ["ast/toaq.peggy", "ast/toaq.go", "ast/ast.go", "ast/parser.go"]
T1 = {"vocabulary": 1}
T2 = {"vocabulary": 2}
T0 = {"vocabulary": 0}
LONGER = "longer texts, words outside the vocabulary"

LOGIC = ["logic/interp.go", "logic/simplify.go", "logic/logic.go"]
LARGER = "larger texts, phrases outside the lists"
M1 = {"budget": 1}
M2 = {"budget": 2}
MB = "57 text shapes, any one (thorough two) phrases replaced by one of 73 arguments, 26 predicates or 25 other terms"
MBF = "57 text shapes, any one (thorough two) phrases replaced by one of 19 arguments, 8 predicates or 25 other terms"

PROPS = [
 P("C01", "Parsing a text loses, adds and reorders nothing",
   "The words and the spaces between words of a parsed text, read off its syntax tree from left to right, are exactly the text: each occurs once, in order, with the same letters, case and tones. This holds whatever modifiers (parentheticals, incidentals, vocatives, focus and illocution words) occur and wherever they attach.",
   "every text of the bounded frames and vocabulary; every short string of the bounded alphabet",
   "the tests compare the trees of some sixty fixed texts, most without spaces or modifiers in unusual places",
   PARSER, [("tree building actions", "ast/toaq.peggy"), ("modifier attachment (mod)", "ast/ast.go")], LONGER,
   [H("texts", "Lossless", 200, T1, 1200, T0, FR, ["lossless"]),
    H("texts", "Varied", 200, {"mods": 1, "what": 2}, 900, {"mods": 2, "what": 2}, "135 texts with every alternative of the grammar, one (thorough two) of 8 modifiers inserted anywhere", ["accepted"]),
    H("texts", "Letters", 100, {"length": 3}, 600, {"length": 4}, "strings of 3 (thorough 4) characters of 18 representatives after three beginnings", ["accepted", "rejected"])],
   observe=["(*ast.Parser).Text"]),
 P("C02", "Every constituent's position spans exactly its words",
   "Every node of the syntax tree of a text begins where its first word begins and ends where its last word ends, modifiers excluded or included the same way for all nodes. Constituents lie within their parent, follow each other without overlap, and never reach outside the text. Asking for positions never fails, even for empty parts.",
   "every text of the bounded frames and vocabulary; every tree of each kind of node with optional parts present or absent in any combination within the bound",
   "the tests look at positions of a few texts; optional parts of forty kinds of nodes multiply to far more combinations",
   ["ast/nodes.go", "ast/ast.go", "ast/toaq.peggy"], [("Start, End", "ast/nodes.go")], LONGER + "; trees that deviate in more than 2 (thorough 3) places from the plain one",
   [H("texts", "Positions", 200, T1, 1200, T0, FR, ["positions"]),
    H("texts", "Varied", 200, {"mods": 1, "what": 4}, 900, {"mods": 2, "what": 4}, "135 texts with every alternative of the grammar, one (thorough two) of 8 modifiers inserted anywhere", ["accepted"]),
    H("trees", "Positions", 60, {"budget": 2}, 400, {"budget": 3}, "trees of all kinds of nodes with at most 2 (thorough 3) deviations from the plain tree of each kind")],
   observe=["Start and End of all ast nodes"]),
 P("C03", "The parser is total: exactly the language is accepted, errors point at the fault",
   "For every text the parser returns, without failing otherwise, either a tree or an error, and it returns a tree exactly for the texts of the grammar. The parse tree and the syntax tree are available for exactly the same texts and both cover the whole text. The position of an error is inside the text, at the furthest word that does not fit, and the message names its file, line and column.",
   "every text of the bounded frames and vocabulary, in the language or not; every short string of the bounded alphabet",
   "the tests have a handful of rejected texts and check no error position",
   PARSER + ["vendor/github.com/eaburns/peggy/peg/fail.go"], [("parse", "ast/parser.go"), ("ByteOffset", "ast/parser.go"), ("grammar", "ast/toaq.peggy")], LONGER,
   [H("texts", "Language", 200, T2, 1800, T1, "21 text frames with 2-4 arbitrary words each, out of 10 (thorough 22)", ["accepted", "rejected"]),
    H("texts", "Letters", 100, {"length": 3}, 900, {"length": 4}, "strings of 3 (thorough 4) characters of 18 representatives after three beginnings", ["accepted", "rejected"]),
    H("texts", "Varied", 60, {"mods": 0, "drops": 2, "what": 0}, 900, {"mods": 0, "subs": 1, "drops": 1, "what": 0}, "135 texts with every alternative of the grammar, any two words left out (thorough: one left out and one replaced)", ["accepted", "rejected"]),
    H("texts", "Tree", 200, {"vocabulary": 1, "from": 1, "to": 12}, 1200, T0, "text frames with 2-4 arbitrary words each, out of " + WORDS, ["tree"])],
   observe=["(*ast.Parser).Text", "(*ast.Parser).Tree", "ast.Error"]),
 P("C04", "Notation, letter case, spacing and punctuation do not change the parse",
   "Texts that differ only in how tones are written (letters with diacritics, combining characters, tone marks or numbers after the syllable or the word), in letter case, in dotted or dotless i, or in the white space and punctuation between words have the same constituents and the same meaning. The letters, case and tones of each word are kept.",
   "each word of nine texts that use every word class, in every notation and case; every separator between any of their words",
   "the tests use one notation per text",
   PARSER, [("letters, tones and boundaries", "ast/toaq.peggy")], "texts outside the nine frames; more than one (thorough two) deviating words or separators at once",
   [H("texts", "Spelling", 100, {"words": 1}, 900, {"words": 2}, "nine texts, one word (thorough two) in any of 8 notations, 3 cases, dotted or dotless", ["accepted"]),
    H("texts", "Spacing", 100, {"changes": 1}, 900, {"changes": 2}, "nine texts, one (thorough two) separators out of 12", ["accepted"]),
    H("words", "Morph", 100, {"syllables": 1, "init": 9, "initTo": 11, "des": 12, "notations": 8, "cases": 3, "dotless": 2}, 600, {"syllables": 1, "init": 0, "initTo": 17, "des": 12, "notations": 8, "cases": 3, "dotless": 2}, "words of one syllable in 8 notations, 3 cases, dotted or dotless"),
    H("meaning", "Spelled", 60, {}, 120, {}, "nine texts with every word that interpretation looks at, one word in any of 8 notations, 3 cases, dotted or dotless: same meaning", ["interpreted"])],
   observe=["(*ast.Parser).Text", "(*ast.Parser).Word"]),
 P("C05", "Words are segmented and classified by their sounds and tone alone",
   "A word is accepted on its own exactly if its syllables are syllables of the language with a tone it may have; function words keep to their fixed or free tone, and every other word is a predicate whose part of speech is given by its tone. In a text each word form fits exactly where its class fits.",
   "every syllable (17 onsets and all 48 codas, and some that are not of the language) with every tone; every function word and similar word in every tone in 22 contexts",
   "the tests name about forty words",
   PARSER, [("word classes", "ast/toaq.peggy"), ("Parser.Word", "ast/parser.go")], "words of more than two syllables (three in texts)",
   [H("words", "Morph", 100, {"syllables": 1}, 600, {"syllables": 1, "context": 4}, "words of one syllable: 17 onsets, 56 codas, 7 tones and none"),
    H("words", "Morph", 60, {"syllables": 2, "init": 10, "initTo": 11, "des": 8, "des2": 6}, 900, {"syllables": 2, "init": 8, "initTo": 12, "des": 12, "des2": 12}, "words of two syllables, some onsets and codas"),
    H("texts", "Classes", 150, {"from": 0, "to": 14}, 600, {}, "77 function words and similar words in 8 tone spellings in 14 (thorough 22) contexts", ["accepted", "rejected"])],
   observe=["(*ast.Parser).Word", "(*ast.Parser).Text"]),
 P("C06", "The syntax tree has the constituents the Toaq grammar prescribes",
   "The tree of a text has exactly the constituents, their kinds, grouping and order, that the published grammar gives it: longest match where the grammar is greedy, ordered choice where it has alternatives, connectives grouping to the right, and modifiers attached to the word they follow.",
   "every text of the bounded frames and vocabulary",
   "the tests compare trees of some sixty fixed texts; two or three word choices already multiply to thousands",
   PARSER, [("grammar", "ast/toaq.peggy"), ("tree building helpers", "ast/ast.go")], LONGER + "; the reference grammar is ours, written from the published grammar",
   [H("texts", "Structure", 200, T1, 1500, T0, FR, ["accepted"]),
    H("texts", "Varied", 200, {"mods": 1, "what": 1}, 900, {"mods": 2, "what": 1}, "135 texts with every alternative of the grammar, one (thorough two) of 8 modifiers inserted anywhere", ["accepted"]),
    H("texts", "Varied", 60, {"mods": 0, "drops": 1, "what": 1}, 900, {"mods": 0, "subs": 1, "what": 1}, "135 texts with every alternative of the grammar, any word left out (thorough: or any word replaced)", ["accepted"])],
   observe=["(*ast.Parser).Text"]),
 P("C07", "Results of a parser do not depend on what was asked of it before",
   "Every call on a parser gives what it would give on a fresh parser for the same text, whatever calls came before, whether they failed, and whatever the caller did to the trees they returned.",
   "every sequence of calls of the bounded length, over every bounded text, spoiling every earlier result",
   "the tests call each parser once",
   ["ast/parser.go", "ast/toaq.go"], [("memo tables reset between calls", "ast/parser.go")], "more than 2 (thorough 3) calls; texts of more than three words",
   [H("texts", "Reuse", 120, T2, 1200, {"vocabulary": 1, "calls": 3}, "2 (thorough 3) calls out of five on texts of 2-3 words of 10 (thorough 22)", ["reused"])],
   over=("histories", "inputs"), observe=["ast.Parser"]),
 P("C08", "Visiting a tree calls the visitor once per node, in order, and respects a stop",
   "Visiting any tree calls the visitor for each node once, parents before children and children in text order, followed by a call that ends the children; nodes below one for which the visitor returned none are skipped and nothing else is. Absent optional parts are never visited and no tree makes the visit fail.",
   "every tree of each kind of node with optional parts present or absent within the bound, and each node at which the visitor may stop",
   "the tests visit fixed trees without absent parts",
   ["ast/visit.go"], [("Visit", "ast/visit.go")], "trees that deviate in more than 2 (thorough 3) places from the plain one",
   [H("trees", "Visit", 200, {"budget": 2, "free": 0}, 900, {"budget": 3}, "trees of all kinds of nodes with at most 2 (thorough 3) deviations from the plain tree of each kind; all stops")],
   observe=["ast.Visit"]),
 P("C09", "Equality of trees is exact structural equality",
   "Two trees are equal exactly if they have the same kinds of nodes, the same words and the same optional parts in the same places; positions do not matter. Equality is reflexive and symmetric, never fails and changes neither tree.",
   "every pair of trees of which the second is a copy of the first with one arbitrary part changed, added or removed, and every pair of plain trees of different kinds",
   "the tests compare a few pairs; there are about two hundred parts that a comparison can forget",
   ["ast/equal.go"], [("Equal", "ast/equal.go")], "trees that deviate in more than 1 (thorough 2) places from the plain one; pairs that differ in more than one place",
   [H("trees", "Equal", 200, {"budget": 1}, 1500, {"budget": 2}, "trees of all kinds of nodes with at most 1 (thorough 2) deviations from the plain tree of each kind, one change", ["equal", "different"])],
   observe=["ast.Equal"]),
 P("C10", "The bracketed form shows every word and the grouping of the tree",
   "The bracketed form of a tree has its words in order, and its brackets nest as the constituents of the tree do, so that trees with different groupings have different bracketed forms.",
   "every tree of each kind of node with optional parts present or absent within the bound",
   "the tests print some twenty trees",
   ["ast/braces.go"], [("BracesString", "ast/braces.go")], "trees that deviate in more than 2 (thorough 3) places from the plain one",
   [H("trees", "Braces", 60, {"budget": 2}, 600, {"budget": 3}, "trees of all kinds of nodes with at most 2 (thorough 3) deviations from the plain tree of each kind")],
   observe=["ast.BracesString"]),
 P("C11", "ASCII conversion keeps every letter, its case and each syllable's tone",
   "Converting a written word to its ASCII form yields the same letters in the same case, with the tone marker of each marked syllable directly after that syllable and no other change, whatever mixture of precomposed tone letters, caron or breve, dotted or dotless i, and capitals the word uses. Converting an ASCII word changes nothing, and stripping the tones keeps exactly the letters and their case. The tone reported for a word is the tone of its first syllable, in either notation.",
   "every word of up to the bounded number of syllables over all onset letters, all plain and tone-marked vowels, optional further vowels and final q in either case; every iteration order of the tables",
   "the tests convert about thirty fixed words; they sample neither capitals nor breve letters nor words whose tone is not on the first syllable",
   ["tone/tone.go"], [("ToASCII", "tone/tone.go"), ("Strip", "tone/tone.go"), ("Tone", "tone/tone.go"), ("Diacritic", "tone/tone.go")],
   "words longer than the bound; combining diacritics (the parser, not package tone, handles them)",
   [H("tones", "ASCII", 200, {"syllables": 2, "more": 2}, 900, {"syllables": 2, "more": 3}, "words of 1-2 syllables, each onset? vowel (11 plain, 80 marked) up to 1 (thorough 2) further vowels, coda none/q/Q", ["words"]),
    H("tones", "Anything", 60, {"length": 4}, 300, {"length": 5}, "strings of up to 3 (thorough 4) characters of 22 representatives", ["any"]),
    H("tones", "Orders", 100, {"syllables": 1, "more": 2}, 300, {"syllables": 2, "more": 1}, "three iteration orders of the tables", ["words"]),
    H("trees", "ToASCII", 60, {"budget": 2}, 400, {"budget": 3}, "trees of all kinds of nodes with at most 2 (thorough 3) deviations from the plain tree of each kind: every word is converted")],
   observe=["tone.ToASCII", "tone.Strip", "tone.Tone"]),
 P("C12", "Setting a word's tone changes the first syllable's tone and nothing else",
   "Giving a word a tone, or removing it, yields a word whose first syllable has exactly that tone, and whose letters, capitals, further tones and everything before and after the first vowel are unchanged. The result does not depend on which tone or notation the first syllable had before.",
   "every word within the bound and each of the eight tones (seven and none)",
   "the tests set the tone of three words",
   ["tone/tone.go"], [("WithTone", "tone/tone.go"), ("Diacritic", "tone/tone.go")],
   "words longer than the bound; words whose tone is already written as an ASCII marker",
   [H("tones", "With", 200, {"syllables": 1, "more": 2}, 900, {"syllables": 2, "more": 2}, "words of 1 (thorough 1-2) syllables, each onset? vowel (11 plain, 80 marked) up to 1 further vowel, coda none/q/Q; 8 tones", ["tones"]),
    H("tones", "Anything", 60, {"length": 4}, 300, {"length": 5}, "strings of up to 3 (thorough 4) characters of 22 representatives", ["any"])],
   observe=["tone.WithTone"]),
 P("C13", "Every supported text with a sentence has a complete meaning, others have none",
   "Interpreting never fails on a text that uses only supported constructions (all but the connectives ro and re, roi outside arguments, and connectives other than ru between sentences). The result is empty exactly if the text has no sentence. Every part of a meaning that its kind of node requires is there.",
   "every text of the bounded shapes and phrases, with every connective",
   "the tests interpret some two hundred fixed texts; failures are on rare combinations of phrases",
   LOGIC, [("Interpret", "logic/interp.go"), ("simplify", "logic/simplify.go")], LARGER,
   [H("meaning", "Total", 300, M1, 1500, M2, MB, ["interpreted", "fragments"]),
    H("meaning", "Total", 60, {"budget": 0, "connectors": 1}, 900, {"budget": 1, "connectors": 1, "vocabulary": 2}, "57 text shapes with 25 other terms, every connective replaced by each of six", ["interpreted", "unsupported"])],
   observe=["logic.Interpret"]),
 P("C14", "Variables of a meaning are well scoped and numbered once",
   "In the meaning of a text a variable that is bound occurs only inside its binding, and refers to that very binding; variables are free only where the text uses a variable without a quantifier for it. Bindings do not nest in themselves, different variables have different numbers, and the numbers have no gaps.",
   "every text of the bounded shapes and phrases",
   "the tests compare notations of fixed texts; scopes interact across lifting, distribution over connectives and simplification",
   LOGIC, [("scopes and lifting", "logic/interp.go"), ("lambda reduction", "logic/simplify.go")], LARGER,
   [H("meaning", "Scopes", 300, M1, 1200, M2, MB, ["scoped"])],
   observe=["logic.Interpret"]),
 P("C15", "Each side of a connective means what the text with only it means",
   "Where phrases of any kind are connected, whatever side of the connective is taken, the meaning is that of the text in which the connected phrase is replaced by that side. The arguments, adverbs and quantifiers around the connected phrase apply to both sides.",
   "every text of 51 shapes with one connective at every kind of phrase, with arbitrary phrases on its sides and around",
   "the tests have a few fixed connected phrases",
   LOGIC, [("connectives of each kind of phrase", "logic/interp.go")], LARGER + "; more than one phrase with a lifted quantifier per text",
   [H("meaning", "Connect", 100, {"budget": 1}, 300, {"budget": 1}, "51 shapes, any phrase replaced by one of 10 arguments or 6 predicates", ["connected"]),
    H("meaning", "Connect", 200, {"budget": 2, "few": 1}, 1500, {"budget": 2}, "51 shapes, any two phrases replaced by one of 5 (thorough 10) arguments or 6 predicates", ["connected"])],
   observe=["logic.Interpret"]),
 P("C16", "Arguments fill the linked places, others the free places in order",
   "Each argument of a predication fills the place that its linking word names; arguments without one fill, in order, the places that no linked argument takes, and places that none fills are empty. This counts arguments before and after the predicate alike, except that topics (before bi) take no place, and holds for serial and connected predicates.",
   "every number of arguments up to the bound, with every assignment of linking words, split anywhere around the predicate",
   "the tests have a few fixed sentences with linking words",
   LOGIC, [("argument places", "logic/interp.go")], "more than 4 (thorough 5) arguments; two arguments linked to the same place",
   [H("meaning", "Places", 60, {"arguments": 4}, 900, {"arguments": 5}, "up to 4 (thorough 5) arguments, each with one of four linking words or none, any split around the predicate, pa or bi, three kinds of predicates", ["placed"])],
   observe=["logic.Interpret"]),
 P("C17", "Interpreting is a function of the text and leaves it unchanged",
   "Interpreting a text again, or a fresh parse of the same text, gives the same meaning, with the same numbers and the same notation, whatever the iteration order of tables. It does not change the syntax tree, and a meaning shares no part with other meanings, so later uses do not change earlier results.",
   "every text of the bounded shapes and phrases, three iteration orders of tables",
   "the tests interpret each text once",
   LOGIC + ["logic/string.go"], [("Interpret", "logic/interp.go"), ("memory of antecedents", "logic/interp.go")], LARGER,
   [H("meaning", "Pure", 150, {"budget": 0, "orders": 3}, 1200, {"budget": 1, "vocabulary": 2, "orders": 2}, MB.replace("any one (thorough two) phrases", "no (thorough one) phrase"), ["interpreted"]),
    H("meaning", "Pure", 100, {"budget": 1, "vocabulary": 2, "orders": 1, "to": 17}, 1200, {"budget": 1, "orders": 1}, MBF.replace("one (thorough two) phrases", "one phrase"), ["interpreted"])],
   observe=["logic.Interpret"]),
 P("C18", "A text means the conjunction of its sentences in order, without its fragments",
   "The meaning of a text is the conjunction, in order, of the meanings that its sentences have on their own. Fragments, interjections and incidental phrases between sentences contribute nothing.",
   "every sequence of up to the bounded number of utterances out of 16",
   "the tests have a few texts of two sentences",
   LOGIC, [("sentences", "logic/interp.go")], "sentences that refer to each other's variables (Conform covers some); more than 3 (thorough 4) utterances",
   [H("meaning", "Sentences", 150, {"sentences": 3}, 900, {"sentences": 4}, "up to 3 (thorough 4) utterances out of 16", ["conjoined", "fragments"])],
   observe=["logic.Interpret"]),
 P("C19", "Quantifiers, variables and predicates mean what the language says",
   "The meaning of a sentence has the quantifiers of its arguments, in the scope order of the language: in text order, lifted out of relative clauses and contents exactly when they are definite. Variables refer to their nearest antecedent or are free, restrictions join the noun, relative clauses and the binding, and adverbs, prepositions, serial predicates, focus and abstractions apply as the language prescribes.",
   "every text of the bounded shapes and phrases",
   "the tests compare notations of some two hundred fixed texts; every combination of two phrases can interact",
   LOGIC, [("Interpret", "logic/interp.go"), ("simplify", "logic/simplify.go")], LARGER + "; the reference is our reviewed and repaired copy of the interpreter at the pinned commit, held against the language description and the laws of the other properties",
   [H("meaning", "Conform", 300, M1, 2400, {"budget": 2, "vocabulary": 2}, MB + " (thorough: out of 19, 6 and 25)", ["interpreted", "fragments"]),
    ],
   observe=["logic.Interpret"]),
 P("C20", "A quote has exactly the quoted text",
   "The meaning of a quoted text or phrase holds the words of the text between the quoting words, with their spelling up to the notation of tones and the spaces between them, without the spaces around. Quotes of texts and of phrases are told apart, wherever they stand in the sentence, and nested quotes belong to the outer one.",
   "each of 22 quoted texts in each of 6 contexts",
   "the tests quote two fixed texts",
   LOGIC, [("quotes", "logic/interp.go")], "other quoted texts",
   [H("meaning", "Quotes", 60, {}, 120, {}, "22 quoted texts in 6 contexts", ["quoted"])],
   observe=["logic.Interpret"]),
 P("C21", "The notation of a meaning shows all of it unambiguously",
   "The notation of a meaning shows every binding with its quantifier, restriction and scope, every connective with the brackets its precedence needs, every predicate, argument and empty place, in order, with different names for different variables. The pretty notation differs only in the shapes of the variables' letters and of the definite quantifier.",
   "every meaning of the bounded number of deviations from the plain one",
   "the tests print the meanings of fixed texts only",
   ["logic/string.go"], [("String, PrettyString", "logic/string.go")], "meanings with more than 3 (thorough 4) deviations from the plain one",
   [H("ltrees", "Print", 100, {"budget": 3}, 900, {"budget": 4}, "meanings with at most 3 (thorough 4) deviations from the plain one")],
   observe=["logic.String", "logic.PrettyString"]),
 P("C22", "Each part of a meaning is visited once and refers to its syntax",
   "Visiting a meaning reaches each of its nodes once, parents first and children in order. Every node that the interpreter makes for a constituent refers to that constituent of the text it was given, and clearing these references clears all of them and changes nothing else.",
   "every meaning of the bounded number of deviations from the plain one; every text of the bounded shapes and phrases",
   "the tests compare meanings after clearing the references",
   ["logic/visit.go", "logic/logic.go", "logic/interp.go"], [("Visit, NillOutAST", "logic/visit.go"), ("references", "logic/interp.go")], LARGER,
   [H("ltrees", "Visit", 60, {"budget": 3}, 600, {"budget": 4}, "meanings with at most 3 (thorough 4) deviations from the plain one"),
    H("ltrees", "Nill", 60, {"budget": 3}, 600, {"budget": 4}, "meanings with at most 3 (thorough 4) deviations from the plain one"),
    H("meaning", "Conform", 100, {"budget": 1, "vocabulary": 2, "options": 2}, 1500, {"budget": 1, "options": 2}, MBF.replace("one (thorough two) phrases", "one phrase"), ["interpreted"])],
   observe=["logic.Visit", "logic.NillOutAST", "logic.Interpret"]),
 P("C23", "The server answers every request with the parser's and interpreter's results",
   "A posted text of the language is answered with its bracketed form, syntax tree, words and parse tree, and its meaning or the word fragment or the reason why it has no supported meaning; any other text is answered with just the parser's error. A request for the page gets the page, or an internal error if there is none; other methods are refused as not allowed. No request, connection failure or earlier request makes the handler fail or changes later answers.",
   "every sequence of two requests out of ten methods and 38 texts, with and without failing connections and templates",
   "there are no tests of the server; unsupported texts and failures are rare inputs",
   ["server/server.go"], [("request handler", "server/server.go")], "other texts; longer sequences; the network library itself",
   [H("app_server", "Requests", 100, {"requests": 1}, 200, {"requests": 1}, "one request out of ten methods, 38 texts, failing connections and templates", ["answered", "page", "refused", "rejected", "unsupported", "fragment", "meaning"]),
    H("app_server", "Requests", 100, {"requests": 2}, 900, {"requests": 2, "few": 0}, "two requests, the first with one of 4 (thorough 38) texts", ["answered"])],
   over=("inputs", "histories", "faults"), observe=["server.rootHandler"]),
 P("C24", "The bot answers every request once, in order, and nothing else, and goes on",
   "Every message that begins with the command word, after the name that a bridge puts before it, is answered once and before the next event is received. The answer is the syntax error, or the bracketed form followed by the meaning, the word fragment or the reason why there is no supported meaning. Other messages and events are not answered, and no event ends the bot.",
   "every sequence of two events out of six kinds, with messages of any of 19 beginnings, 38 texts and 6 senders",
   "there are no tests of the bot",
   ["bot/bot.go"], [("event loop", "bot/bot.go"), ("bridge messages", "bot/bot.go")], "other texts; the chat service itself; failing to send",
   [H("app_bot", "Messages", 100, {"messages": 1}, 200, {"messages": 1}, "one event", ["answered", "silent", "unsupported"]),
    H("app_bot", "Messages", 100, {"messages": 2, "few": 1}, 900, {"messages": 2}, "two events, with messages of 3 beginnings, 4 texts and 3 senders (thorough: the last event any)", ["answered", "silent", "unsupported"])],
   over=("inputs", "histories"), observe=["bot.run"]),
 P("C25", "Loading a dictionary gives one normalised entry per word, or an error",
   "Loading asks the service once, with the query, and closes its answer. Every word of an answer gets one entry, under its lower-case form without tones, with the definition, author and score that the service gave last. Any other answer or failure gives an error, the service's own if it has one, and no entries.",
   "every answer with up to 2 (thorough 3) entries out of 18 words and 4 definitions, and nine kinds of other answers and failures",
   "there are no tests of loading",
   ["dict/dict.go"], [("Load", "dict/dict.go")], "other words; the HTTP and JSON libraries themselves",
   [H("dicts", "Load", 100, {"entries": 2}, 600, {"entries": 3}, "answers with up to 2 (thorough 3) entries out of 18 words and 4 definitions, and other answers and failures", ["errors", "loaded"]),
    H("dicts", "Builtin", 60, {}, 60, {}, "the dictionary that comes with the code", ["words"])],
   over=("inputs", "faults"), observe=["dict.Load"]),
 P("C26", "The command prints the whole analysis of its input, or fails with the error",
   "For a text of the language, from the named file or standard input, the command prints its parse tree, syntax tree, words, bracketed form and meaning, or the word fragment, and succeeds. For any other text it prints the parser's error after the name of the file, and fails. It fails as well when the input cannot be read.",
   "38 texts, from standard input and files, readable or not",
   "there are no tests of the command",
   ["main.go"], [("command", "main.go")], "other texts; texts without a supported meaning, for which the command fails",
   [H("app_main", "Command", 100, {}, 100, {}, "38 texts in five kinds of input", ["fragment", "meaning", "rejected", "unreadable"])],
   over=("inputs", "faults"), observe=["main"]),
P("C27", "Printed trees and meanings show the kind and the parts of every node",
   "The printed form of a parse tree or of a meaning shows the kind of every node, every word, variable, quantifier, connector and number, and every part that is present, by name and in order. It shows no part that is absent, and nothing else.",
   "every tree and every meaning of each kind of node with optional parts present or absent within the bound",
   "no test looks at printed trees; they are what the command prints first and what is reported when something goes wrong",
   ["ast/ast.go", "logic/logic.go"], [("printed nodes", "ast/ast.go"), ("printed meanings", "logic/logic.go")], "trees that deviate in more than 2 (thorough 3) places from the plain one; words with quotes in them",
   [H("trees", "Pretty", 60, {"budget": 2}, 600, {"budget": 3}, "trees of all kinds of nodes with at most 2 (thorough 3) deviations from the plain tree of each kind"),
    H("ltrees", "Pretty", 60, {"budget": 2}, 600, {"budget": 3}, "meanings of all kinds with at most 2 (thorough 3) deviations from the plain one")],
   observe=["PrettyPrint of ast and logic nodes"]),
]
NA = []
