MSG = "httplint/message.py"
SEC = "httplint/field/section.py"
NOTE = "httplint/note.py"
ENGINE = ("The abstract interpreter and its models of the standard library and of babel, markdown, markupsafe, http_sf, "
          "chardet and brotli are trusted. ")

prop("C01", "Linting never raises, whatever the peer sent",
     "For any start line, header and trailer fields, body and completion flag of a request or response, creating a "
     "linter, feeding it the message in the documented order and reading its results completes without an exception. "
     "Malformed input only ever shows up as notes.",
     ["inputs", "histories"],
     "every byte string as field name, value, start line and body; any number and order of fields; requests, responses "
     "and pairs of them; any start time; complete or not",
     "unit tests feed a few hand-picked values per field; the failures are in odd values (huge numbers, unusual digits, "
     "empty members, unusual combinations of fields), a space no sample covers",
     [MSG, SEC, "httplint/field/", "httplint/cache.py", "httplint/status.py", "httplint/content_encoding.py"],
     [("per-field parse errors are caught and turned into notes", "httplint/field/singleton_field.py, list_field.py"),
      ("guards before arithmetic and lookups", "httplint/cache.py, httplint/field/parsers/")],
     [("parsed", "values by field, None when a field could not be parsed", SEC)],
     ["exception leaving HttpRequestLinter / HttpResponseLinter methods"],
     "abstract interpretation: exception flow over the package's syntax trees",
     ENGINE + "Reports each operation that may raise past every handler; sites it cannot settle are listed as "
     "undecided, not reported.")

prop("C02", "Every note renders, in every shipped locale",
     "Every note that linting can add has a summary, a detail and a string form that can be produced without an "
     "exception and without leaving a placeholder unfilled, in English and in every locale shipped with the package, "
     "whatever text the peer supplied for its variables.",
     ["inputs", "configurations"],
     "every note, every combination of variables it can be created with, every locale",
     "tests render few notes, and only in English; a template naming a variable the code doesn't pass fails only when "
     "that note is shown",
     [NOTE, "httplint/i18n.py", "httplint/translations/", SEC, "httplint/field/"],
     [("templates are interpolated with the note's variables", NOTE), ("field_name and the like are passed by partials",
      "httplint/field/section.py, httplint/message.py")],
     [("vars", "variables of a note", NOTE)],
     ["Note.summary", "Note.detail", "str(note)"],
     "abstract interpretation: every note creation rendered with every template",
     ENGINE + "Templates are the English ones and those of the compiled catalogues.")

prop("C11", "No field value makes pattern matching take exponential time",
     "Matching text from a message against any pattern never backtracks exponentially in the length of that text. "
     "A field of a few dozen bytes can therefore not stall linting.",
     ["inputs"],
     "every pattern that linting applies to text derived from the message, every text",
     "a blow-up needs a value built for the pattern; tests use short well-formed values, on which a bad pattern is "
     "as fast as a good one",
     ["httplint/syntax/", "httplint/field/parsers/", "httplint/field/utils.py"],
     [("grammars are written so that a string matches in one way", "httplint/syntax/")],
     [], ["time spent in process_headers"],
     "taint analysis collects the patterns; ambiguity of their automata decides",
     "Decides exponential ambiguity exactly for the patterns found (look-around and back-references are "
     "over-approximated); polynomial blow-up is not claimed.")

prop("C16", "Shipped message catalogues agree with their sources and keep placeholders",
     "In every shipped locale the compiled catalogue holds exactly the active entries of its source. Every translation "
     "carries the same well-formed placeholders as the English text, in as many plural forms as the locale declares, "
     "so no translated note loses what it is about.",
     ["configurations"],
     "every entry of every locale",
     "tests render in English; a placeholder lost or misspelt in one of some 600 entries in four locales shows only "
     "when that note is shown there",
     ["httplint/translations/", "Makefile.i18n"],
     [("catalogues are compiled with Babel", "Makefile.i18n")],
     [], ["text of translated notes"],
     "static comparison of catalogue data",
     "Exact for the catalogues; reads the files, runs nothing.")

prop("C03", "Text from the peer never becomes markup in a note's HTML",
     "Whatever bytes a peer puts in a message, the HTML of every note's detail contains no element, attribute, link or "
     "script taken from them: such text only ever appears as escaped text or inside code. This holds in English and "
     "in every shipped locale.",
     ["inputs", "configurations"],
     "every note, every text its variables can hold, every locale",
     "a hole needs a value with the right characters (markup, a backtick, a line break, nothing at all) in the one "
     "variable and the one locale where the template leaves it outside code",
     [NOTE, "httplint/field/", "httplint/translations/", "httplint/content_encoding.py"],
     [("values are stripped of backticks and line breaks unless marked as Markdown", NOTE),
      ("templates and lists put values in code spans", "httplint/field/parsers/, httplint/util.py")],
     [], ["Note.detail"],
     "taint analysis with Markdown context, inside the abstract interpreter",
     ENGINE + "Text is followed with labels for markup, backticks and line breaks; the content of closed code spans and "
     "indented code blocks counts as escaped, as Python-Markdown does.")

prop("C04", "The same input always gives the same notes in the same order",
     "Two runs over the same message with the same options produce the same notes, with the same variables, in the "
     "same order, in any process and at any time. The only clocks that count are the ones the caller or the message "
     "gives.",
     ["inputs", "schedules"],
     "every message; every process, hash seed and moment",
     "a test runs once in one process; an order taken from a set or a value taken from the clock looks right there and "
     "differs in the next process",
     ["httplint/field/", "httplint/cache.py", MSG, "httplint/util.py"],
     [("collections that reach notes are lists or ordered dictionaries", "httplint/field/parsers/"),
      ("times are the message's start time or fields of it", "httplint/cache.py")],
     [], ["notes", "note.vars"],
     "order-of-set analysis in the abstract interpreter, and a scan for ambient sources",
     ENGINE + "Sets are tracked as values; a loop over one is accepted when its body provably does not depend on order.")

prop("C05", "Linting one message never changes the outcome of linting another",
     "Linting or rendering a message changes no state shared with another linter: no module variable, class attribute, "
     "default argument or shared table. A linter's results are therefore the same whether it is the first in its "
     "process, the last, or one of many at once.",
     ["histories", "schedules"],
     "every sequence and interleaving of linters in a process",
     "tests make one linter per case and look at that one; a leak shows in the next message, or under threads",
     ["httplint/", NOTE, "httplint/i18n.py", "httplint/field/section.py"],
     [("state lives in linter, section, handler and note instances", MSG + ", " + SEC),
      ("the renderer is one per thread and reset before use", NOTE)],
     [("_translations_cache", "catalogues by locale, the one permitted shared write", "httplint/i18n.py")],
     ["notes of a second linter"],
     "effect analysis: writes to objects that exist since import",
     ENGINE + "Every write to an object of the heap after import is a site; the catalogue cache and thread-local "
     "variables are the exceptions, each under its own rule.")

prop("C06", "Linting has no effects outside the linter",
     "Linting a message reads and writes no files but the package's own message catalogues, opens no connections, "
     "starts no processes or threads, prints nothing, and never runs text from the message as code. Only the command "
     "line front end reads input and prints.",
     ["inputs"],
     "every message, every code path of the library",
     "an effect on a rare path (a debugging print, a fetch of a referenced URL) doesn't fail any assertion",
     ["httplint/"],
     [("the library only computes", "httplint/ but cli.py")],
     [], ["system calls of the process"],
     "who-may-use analysis of every reference to an effectful operation",
     "Complete for names resolved through imports and builtins; effects inside third-party libraries are trusted.")

prop("C12", "Each field is held to exactly the grammar its specification gives",
     "A field value draws a note on its syntax exactly when its specification's grammar does not derive it: a conforming "
     "value never does, a deviating one always does; white space around a value is not part of it. This holds for every "
     "registered field with a grammar, for field names and request targets, and for the building blocks (tokens, dates, URIs, language tags, quoted strings) they "
     "share; structured fields are parsed as the type their specification names.",
     ["inputs"],
     "every string of field characters, for each field",
     "the deviations are single characters, ranges and repetitions inside grammars of thousands of states; tests try a "
     "value or two per field",
     ["httplint/syntax/", "httplint/field/parsers/", "httplint/field/singleton_field.py",
      "httplint/field/list_field.py", "httplint/field/structured_field.py", "httplint/field/utils.py"],
     [("handlers match each value against their syntax attribute", "httplint/field/"),
      ("grammars are transcribed from the RFCs' ABNF", "httplint/syntax/")],
     [("syntax", "the pattern of a field or of a member of a list field", "httplint/field/parsers/")],
     ["BAD_SYNTAX and the fields' own notes on syntax"],
     "language equality of automata: the package's patterns against the RFCs' ABNF",
     "Exact over all strings for the patterns (comments nest as far as the package's own pattern lets them). The ABNF in "
     "spec/core.abnf is the oracle. That a handler applies its pattern comes from the abstract interpreter.")

SCEN = ("Scenarios leave open what a rule doesn't depend on (letter case, other fields, values, content) and are decided on all "
        "paths through the linter at once. ")

prop("C13", "A field's rules are found by its name alone, in any letter case",
     "Every line of a field with a known name is handled by that field's rules, in any letter case, in headers and in "
     "trailers, whatever else the message holds; deprecated and unnecessary fields are reported as such. A line with any "
     "other name, however similar, is never judged by a known field's rules.",
     ["inputs"],
     "every registered, deprecated, aliased and misspelled name in all letter cases; every other name; any other lines",
     "tests use each name once in its usual spelling; lookups go through files, lists and tables whose entries can "
     "shadow each other",
     ["httplint/field/finder.py", SEC, "httplint/field/", "httplint/field/parsers/"],
     [("a module per field, found by its name", "httplint/field/finder.py"),
      ("tables of deprecated, unnecessary, aliased and misspelled names", "httplint/field/")],
     [("handlers", "one handler per field name of a section", SEC)],
     ["headers.handlers", "headers.parsed", "notes"],
     "abstract interpretation of scenarios: must and may notes on all paths", ENGINE + SCEN, level="other")

prop("C14", "A field is taken only in the kind of message it has meaning in",
     "A line of a field that only has meaning in requests is reported when it occurs in a response, and the other way "
     "round, in headers and trailers alike, naming that very line; the field's value is then ignored. A field that its "
     "specification allows in a kind of message is never reported there.",
     ["inputs"],
     "every registered field, in headers and trailers of requests and responses, with any values and other lines",
     "tests put each field into one kind of message; the other kind, trailers and second lines are not sampled",
     ["httplint/field/__init__.py", "httplint/field/parsers/", SEC, "httplint/types.py"],
     [("a field's class says which messages it belongs in", "httplint/field/__init__.py"),
      ("lines are numbered as they are processed", SEC)],
     [("parsed", "values by field, none when ignored", SEC)],
     ["REQUEST_HDR_IN_RESPONSE", "RESPONSE_HDR_IN_REQUEST"],
     "abstract interpretation of scenarios: must and may notes on all paths", ENGINE + SCEN +
     "Directions are those of the specifications, listed in rules/fields_table.py.", level="other")

prop("C15", "What is said about caching follows HTTP's rules for caches",
     "A response gets at most one verdict each on whether it can be stored, on its freshness and on its use when stale, and "
     "that verdict is the one RFC 9111 gives for its method, status, Authorization, Cache-Control, Age, Expires, Date, Vary "
     "and validators; the storability attributes agree with it. no-store, private, no-cache, must-revalidate and the order "
     "s-maxage, max-age, Expires take effect in any letter case, on any line and beside any other directives and fields.",
     ["inputs"],
     "every combination of directives in the scenarios with any other lines and directives, every method and status code "
     "class, representative lifetimes, ages and dates on both sides of each comparison",
     "the verdict depends on a dozen fields at once; tests check a few combinations and never what must not be said",
     ["httplint/cache.py", "httplint/field/parsers/cache_control.py", "httplint/field/parsers/age.py",
      "httplint/field/utils.py", "httplint/message.py"],
     [("checks in turn: storable, age, freshness, staleness", "httplint/cache.py"),
      ("a directive seen first counts", "httplint/field/parsers/cache_control.py")],
     [("caching", "verdicts of a response", "httplint/cache.py")],
     ["notes about storing, freshness and staleness", "response.caching"],
     "abstract interpretation of scenarios: must and may notes on all paths", ENGINE + SCEN +
     "Numbers (ages, lifetimes, dates) are sampled at the edges of each comparison, everything else is left open.",
     level="other")

prop("C17", "What is said about a status code is what its specification says",
     "A status code that is not registered, or no number, is reported, and a registered one never is. The notes tied to a "
     "code appear exactly in responses with that code, and those that depend on its conditions (Location, "
     "Content-Range, Date, metadata in a 304, what the request asked for, its method) exactly when the condition fails.",
     ["inputs"],
     "every status code, each with and without the fields it calls for, any other fields, with and without a request",
     "tests try a code with and without its condition in one spelling; wrong conditions show with other fields, letter "
     "cases or without a request",
     ["httplint/status.py", "httplint/message.py"],
     [("one method per status code", "httplint/status.py")],
     [], ["notes about the status code"],
     "abstract interpretation of scenarios: must and may notes on all paths", ENGINE + SCEN, level="other")

prop("C10", "Content is measured as it was received, and judged only where it may be",
     "A message whose content differs in length from its Content-Length is reported, and one whose content has that length "
     "is not, however the content arrives and whatever its coding; lengths of content that isn't given are not judged. "
     "Content in a response that can't have any (to HEAD, 1xx, 204, 304), or in a GET, HEAD, DELETE, CONNECT or TRACE request, is reported, and "
     "no other. The first 8192 bytes of the content are kept as received, and its length is that of all of it.",
     ["inputs", "histories"],
     "every length and division into pieces in the scenarios (lengths left open where they don't matter), any bytes, every "
     "status code and method class, any other fields",
     "tests feed content in one or two pieces of a few bytes; sizes at the limits, empty pieces and other codes aren't sampled",
     [MSG, "httplint/content_encoding.py", "httplint/field/parsers/content_length.py"],
     [("length and sample are kept piece by piece", MSG)],
     [("content_length", "length so far", MSG), ("content_sample", "first bytes", MSG)],
     ["CL_CORRECT", "CL_INCORRECT", "CONTENT_NOT_ALLOWED", "content_length", "content_sample"],
     "abstract interpretation of scenarios: must and may notes on all paths, lengths as intervals", ENGINE + SCEN, level="other")

prop("C18", "What is found does not depend on the order of different fields",
     "Lines of different fields can come in any order, with any other lines between them: the notes and the values read are "
     "the same. No rule of one field looks at another field of the section before the section is complete.",
     ["inputs", "schedules"],
     "every field's rules with any value and any other lines; pairs and triples of fields that have a meaning together in "
     "every order",
     "tests put fields in one order; a rule that reads a field which has not come yet works in that order only",
     [SEC, "httplint/field/__init__.py", "httplint/field/parsers/"],
     [("rules that need other fields run after the section", SEC)],
     [("parsed", "values by field", SEC), ("handlers", "one handler per field name", SEC)],
     ["notes", "headers.parsed"],
     "abstract interpretation: reads of the section's fields during its processing; scenarios in every order",
     ENGINE + SCEN, level="other")

prop("C20", "Lines of a section are kept, counted and combined as received",
     "Several lines of a field that allows one value are reported and the first is used, while one line, or several of a "
     "list, never is; the members of a list are those of all its lines in their order. Every line is kept with its name and "
     "value as received, in order, characters outside ASCII are reported and read as ISO-8859-1, and lines of more than "
     "8 KiB or sections of more than 32 KiB are reported, and only those.",
     ["inputs"],
     "every registered field, in any letter case, in headers and trailers, with any other lines before, between and after; "
     "sizes as intervals",
     "tests repeat few fields, next to each other, in one letter case; limits and unusual bytes aren't sampled",
     [SEC, "httplint/field/singleton_field.py", "httplint/field/list_field.py", "httplint/field/broken_field.py"],
     [("values are added line by line and finished once", SEC)],
     [("text", "lines as received", SEC), ("parsed", "values by field", SEC)],
     ["SINGLE_HEADER_REPEAT", "HEADER_TOO_LARGE", "TOTAL_HEADER_SIZE", "headers.text", "headers.parsed"],
     "abstract interpretation of scenarios: must and may notes on all paths, sizes as intervals", ENGINE + SCEN, level="other")

prop("C21", "Numbers in messages are read as HTTP defines them",
     "Where a field or start line calls for a number (lengths, ages, lifetimes, ranges, weights, status codes), digits are "
     "read as the number they say, and anything else (a sign, underscore, exponent, superscript, fraction, blank or text) is "
     "reported and not used. Weights are 0 to 1 with at most three decimals.",
     ["inputs"],
     "every numeric field and directive, with the texts that number parsers accept beyond HTTP, in any letter case and with any "
     "other fields",
     "tests use plain digits and plain words; the difference between the language's numbers and HTTP's is in odd texts",
     ["httplint/field/parsers/", "httplint/field/utils.py", "httplint/status.py", MSG],
     [("digits are checked before they are converted", "httplint/field/parsers/")],
     [("parsed", "values by field", SEC)],
     ["notes about bad values", "headers.parsed"],
     "abstract interpretation of scenarios with exact numeric texts: must and may notes and values on all paths",
     ENGINE + SCEN + "The texts are those of rules/c21.py, not all.", level="other")

prop("C22", "Content is judged by type, charset and coding only where it can be",
     "Notes on the content's type or charset appear only for a response with a whole, decoded representation of declared "
     "type: not for 1xx, 204, 205, 206, 304, HEAD, unknown or failed codings, or absent content. ASCII is never wrong for a "
     "declared charset; content that isn't UTF-8 where UTF-8 is declared or required is reported, and valid UTF-8 never, "
     "cut or not. Content without a valid GZIP header declared as gzip is reported and not decoded, a valid one never, "
     "however divided.",
     ["inputs", "histories"],
     "every such status code with any content; declared types, charsets and codings of the scenarios; UTF-8 sequences, valid and "
     "not, in several divisions; GZIP headers with every flag, in several divisions",
     "tests use short content in one piece with the usual codes; pieces that end in a header, samples that end in a character "
     "and combinations of coding, code and type aren't sampled",
     ["httplint/charset.py", "httplint/content_type.py", "httplint/content_encoding.py", MSG],
     [("what can't be judged is left alone", "httplint/charset.py, httplint/content_type.py")],
     [("decoded", "content after decoding", MSG)],
     ["CHARSET_UNDECODABLE", "CONTENT_TYPE_MISMATCH", "BAD_GZIP", "decoded.decode_ok"],
     "abstract interpretation of scenarios: must and may notes on all paths", ENGINE + SCEN +
     "What sniffpy and chardet find is left open.", level="other")
