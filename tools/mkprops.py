#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

JS=["src/js/token.rs","src/js/utils.rs","src/js/tools.rs"]
CSS=["src/css/token.rs","src/css/mod.rs"]
JSON=["src/json/mod.rs","src/json/string.rs","src/json/json_minifier.rs"]
RD=["src/json/read/json_read.rs","src/json/read/byte_to_char.rs","src/json/read/internal_reader.rs","src/json/read/internal_buffer.rs"]

prop("C01","Minifying never crashes",
 "For every text, minifying it as JS, CSS, JSON or HTML and rendering the result ends with a result or an error value: it never panics, aborts, overflows the stack or runs forever, and what it renders is valid UTF-8. The same holds for the JS token-list operations (cleaning, filtering, string aggregation) on the tokens of any source, and for the streaming JSON reader on any sequence of bytes.",
 ["inputs"],"every UTF-8 text (every byte sequence for the streaming reader), well-formed or not, of any length and nesting",
 "The tests run about a hundred fixed inputs plus three regression inputs for past panics; slicing on byte offsets, unwraps and recursion are reachable from any malformed or non-ASCII input.",
 JS+CSS+JSON+RD+["src/html.rs"],
 [("byte-offset slices taken only at char boundaries","src/js/token.rs get_comment/get_string/get_regex, src/css/token.rs get_comment/fill_other"),("nesting cap for template literals","src/js/token.rs MAX_BACKTICK_NESTING"),("unwrap on reader state","src/json/read/json_read.rs read")],
 observe=["return value, panic, signal or CPU budget of every public entry point"])

prop("C02","Minification cost is linear in the input",
 "Doubling the size of an input at most about doubles the work done and the memory used by minifying and rendering it: for JS, CSS and JSON whatever the input contains, valid or not, for HTML whenever it is well-formed. The same holds for aggregating the strings of a JS token list into variables or into an array, and for cleaning and replacing its tokens.",
 ["inputs"],"every family of inputs of growing size, in particular repetitions of hostile fragments (for HTML: of well-formed ones)",
 "Tests check results on small inputs only; none measures cost, and the cost depends on input shape and size.",
 JS+CSS+JSON+RD+["src/html.rs"],
 [("look-ahead with save and restore while scanning a regex","src/js/token.rs MyPeekable"),("single pass with one look-behind index","src/css/token.rs clean_tokens"),("character filter","src/json/string.rs"),("pre-sized vectors","src/js/token.rs tokenize, src/css/token.rs tokenize"),("collecting strings and inserting the new tokens","src/js/tools.rs aggregate_strings_inner, aggregate_strings_into_array_inner"),("one regex for the whole markup","src/html.rs get_markup_regex")],
 observe=["instructions executed and heap bytes requested per input size"])

prop("C03","JSON minification keeps the data",
 "For every valid JSON text, the minified text is valid JSON for the same data: every string, number, literal and structural character is carried over character for character, in the same order and nesting.",
 ["inputs"],"every valid JSON text, including every escape sequence, every Unicode character allowed in strings, deep nesting and any layout",
 "Three tests use one small document; the string/escape state machine has to be right for every arrangement of quotes and backslashes.",
 JSON,[("string and escape state per character","src/json/json_minifier.rs is_whitespace_outside_string"),("control characters dropped","src/json/json_minifier.rs keep_element")],
 state=[dict(name="is_string/escape state",meaning="whether the current character lies in a string and whether it is escaped",where="src/json/json_minifier.rs")],
 observe=["output of JSON minification compared with a reference JSON lexer run on input and output"])

prop("C04","JSON output is minimal and stable",
 "For every valid JSON text, the minified text contains no whitespace outside strings. Minifying it again changes nothing, it is never longer than the input, and rendering one result object repeatedly always gives the same text.",
 ["inputs","histories"],"every valid JSON text, every number of renderings and re-minifications",
 "Tests render each result once and compare with one expected text.",
 JSON,[("whitespace filter outside strings","src/json/json_minifier.rs"),("rendering works on a clone of the iterator","src/json/string.rs Display")],
 observe=["rendered text, repeated renderings, re-minified text"])

prop("C05","Streaming JSON equals string JSON",
 "For every UTF-8 text, reading it to the end through the streaming JSON minifier yields exactly the bytes that minifying it as a string yields. This holds however the source hands out its data (any short reads, interrupted reads that succeed when retried) and whatever sizes of buffers the consumer reads into.",
 ["inputs","schedules"],"every UTF-8 text, every way of splitting it over source reads, every sequence of consumer buffer sizes (reads into nothing included)",
 "The single reader test uses one ASCII file, a source that always fills the buffer, and one consumer pattern.",
 RD+JSON,[("internal buffer sized by the first consumer buffer","src/json/read/json_read.rs read"),("refill on exhaustion","src/json/read/internal_reader.rs next"),("UTF-8 reassembly","src/json/read/byte_to_char.rs next"),("pending bytes of a character that does not fit","src/json/read/json_read.rs add_char_to_buffer")],
 state=[dict(name="pending output bytes",meaning="bytes of the current character not yet handed to the consumer",where="src/json/read/json_read.rs item_iter"),dict(name="look-ahead char",meaning="next source character already read",where="src/json/read/json_read.rs item1")],
 observe=["bytes delivered per consumer read versus the bytes handed out by the source"])

prop("C06","Streaming JSON reports source faults",
 "If the source of the streaming JSON minifier fails with an I/O error, the consumer gets an error of that kind, and if the source's bytes are not valid UTF-8 the consumer gets an invalid-data error; it never sees a normal end of data instead, and as long as the source keeps failing every further read fails too. Whatever was delivered before the error is a prefix of the correct output, and nothing panics, also when reading goes on after the error: if the source works again, the consumer gets the rest of the output then.",
 ["fault_sequences","inputs","schedules"],"every position and kind of source error (lasting or passing), every invalid or truncated UTF-8 sequence at every position, every consumer buffer size",
 "No test has a failing or non-UTF-8 source.",
 RD,[("error conversion","src/json/read/json_read.rs From<CharsError>"),("UTF-8 validation","src/json/read/byte_to_char.rs next, UTF8_CHAR_WIDTH"),("error propagation from refill","src/json/read/internal_reader.rs")],
 observe=["sequence of results returned by the reader under injected faults"])

prop("C07","JS minification keeps the program's meaning",
 "For every valid JavaScript program whose statements are ended explicitly (no reliance on automatic semicolon insertion at line breaks), the minified text is the same program: the same tokens in the same order, none merged, split, lost or invented (empty statements at the very start aside, unless a string follows them). Running both gives the same results, effects and exceptions.",
 ["programs"],"every valid program (scripts and modules) without newline-dependent semicolon insertion, in every layout of spaces, tabs, line breaks and comments (outside literals and comments no exotic white space, no HTML-like comments); the known findings aside (a regular expression right after a closing parenthesis or brace, or after an `of` which follows a closing brace, divisions of names `await` and `yield`, a hashbang line)",
 "Tests compare a few dozen fixed programs with fixed outputs; whether two tokens may be glued together, or whether a slash starts a regex, depends on every pair of neighbours in every layout.",
 JS,[("tokenizer","src/js/token.rs tokenize"),("regex or division decision","src/js/token.rs get_regex"),("required spaces when rendering","src/js/token.rs tokens_writer, get_required, requires_before"),("whitespace and comment removal","src/js/utils.rs clean_tokens")],
 observe=["minified text against the source program's token list; execution traces of both programs"])

prop("C08","JS literals survive byte for byte",
 "In the minified form of such a program, every string, template literal (with its nested expressions and templates), regular-expression body and number literal appears unchanged, character for character, whatever it contains. The flags of a regular expression keep the same set.",
 ["inputs"],"every literal content: all escapes, quotes of other kinds, comment- and code-like text, line continuations, all Unicode, long and deeply nested templates",
 "Tests use about twenty literals.",
 JS,[("string scan","src/js/token.rs get_string"),("template scan","src/js/token.rs get_backtick_string"),("regex scan and flags","src/js/token.rs get_regex"),("number recognition","src/js/token.rs fill_other, check_if_number")],
 observe=["literals of source and output, in order"])

prop("C09","JS comments go, licence comments stay",
 "In the minified form of such a program no ordinary line or block comment is left, wherever it stood and whatever it contained, and nothing but the comment disappears with it. Every licence comment (one that starts with /*!) is kept verbatim, in order and at its place between the same tokens.",
 ["inputs"],"every placement and content of line, block and licence comments, including at the very start and end of the input",
 "A handful of fixed comments are tested.",
 JS,[("comment scan","src/js/token.rs get_line_comment, get_comment"),("licence rendering","src/js/token.rs Token::License Display"),("comment removal","src/js/utils.rs get_next, clean_tokens")],
 observe=["comments present in the output, between which tokens"])

prop("C10","JS output is minimal and stable",
 "In the minified form of such a program, whitespace outside literals and licence comments is left only as single spaces that separate two tokens: two words or numbers, two operators that would merge (two plus or minus signs, a slash and a regular expression or licence, a less-than and an exclamation mark), a number and a dot, or a regular expression and a following word. The output is never longer than the input, and minifying it again changes nothing.",
 ["programs"],"every valid program (scripts and modules) without newline-dependent semicolon insertion",
 "Tests compare fixed outputs; nothing checks re-minification or length over inputs.",
 JS,[("whitespace removal","src/js/utils.rs clean_tokens"),("required spaces","src/js/token.rs get_required, requires_before")],
 observe=["whitespace positions in the output, second minification"])

prop("C11","String-to-variable aggregation keeps the meaning",
 "Moving repeated JS string literals into variables yields an equivalent program: fresh variable names used nowhere else in the program are declared once, ahead of the code (after the directives it starts with), with exactly the literal's text, and each replaced occurrence refers to the variable holding that very literal. Names of properties, methods and modules, directives and everything else stay unchanged and in order, template literals are never moved, and the requested separator (if any) stands right between the declarations and the code.",
 ["programs","inputs"],"every valid program (as above), whatever role its literals play; r_-named variables that already hold a literal are top-level, never reassigned and never shadowed",
 "Five fixed programs are tested; naming collisions, adjacent keywords and many strings are not.",
 ["src/js/tools.rs","src/js/utils.rs","src/js/token.rs"],
 [("candidate selection and naming","src/js/tools.rs aggregate_strings_inner"),("fresh names","src/js/utils.rs VariableNameGenerator"),("reuse of existing variables","src/js/tools.rs get_variables_name")],
 observe=["declared names and values, substituted occurrences, execution traces before and after"])

prop("C12","String-to-array aggregation keeps the meaning",
 "Moving repeated JS string literals into an array yields an equivalent program: every replaced occurrence is an index expression whose array element is a string of the same value, and everything else stays unchanged and in order. Strings the caller's filter rejects and template literals are never replaced; an existing array literal of that name keeps its elements and indices and is only extended at its end; otherwise one new array is declared ahead of the code (after its directives), followed by the requested separator (if any).",
 ["programs","inputs"],"every valid program (as above), every filter, every array name not otherwise used; an existing array of that name is a literal declared with var or let by a top-level statement of its own; literals are repeated in expression position (the known findings: names of properties, directives of functions, functions called before the declaration of the existing array)",
 "Six fixed programs are tested, none with quotes inside literals, many entries or keyword neighbours.",
 ["src/js/tools.rs","src/js/utils.rs","src/js/token.rs"],
 [("candidate selection and indices","src/js/tools.rs aggregate_strings_into_array_inner"),("existing array lookup","src/js/utils.rs get_array"),("insertion of entries","src/js/tools.rs to_insert/to_replace")],
 observe=["array elements, indices used, strings offered to the filter, execution traces before and after"])

prop("C13","JS token filters remove only what they may",
 "Cleaning a JS token list keeps the remaining tokens unchanged and in order; it removes all ordinary comments and whitespace, and else only semicolons at the very start; where two kept tokens would merge, a single space stays between them. The variant with a callback (and the per-token predicates) removes only such tokens for which the callback returns true, and may also remove a semicolon at the very end or directly before a closing brace. Replacing tokens by callback asks once per token in order, substitutes exactly the chosen tokens and touches no other.",
 ["inputs"],"every token list, every callback whose answer depends on the token alone",
 "Four fixed snippets and three callbacks are tested.",
 ["src/js/utils.rs"],
 [("clean_tokens / clean_token","src/js/utils.rs"),("clean_tokens_except / clean_token_except","src/js/utils.rs"),("replace_tokens_with / replace_token_with","src/js/utils.rs")],
 observe=["token list before and after, calls of the callback"])

prop("C14","JS token lists are faithful to the source",
 "For every valid program (as above), each string, template, regular expression, identifier, keyword and decimal number of the source is exactly one token of the token list, of that kind and with that text (flags of a regular expression other than g and i follow as a separate word), and operators and punctuation appear in order. Rendering the untouched token list of a comment-free program reproduces the source exactly, up to the spelling of line breaks, the order of regex flags and a space added before in and instanceof.",
 ["programs"],"every valid program (scripts and modules) without newline-dependent semicolon insertion, in every layout; identifiers written without escapes, numbers as digits with an optional fraction",
 "About fifteen fixed token lists are tested.",
 ["src/js/token.rs"],
 [("tokenizer","src/js/token.rs tokenize, fill_other, handle_equal_sign"),("rendering","src/js/token.rs Display for Token and Tokens")],
 observe=["token list, its rendering"])

prop("C15","Variable lookup finds the declared name and value",
 "For every var or let declaration of a single name, asking at its keyword for the variable's positions returns the position of the declared name, together with the position of the initial value when it starts with a string, number, regular expression or identifier, and no value otherwise. Asking at an identifier that follows var, let or a comma answers the same for that identifier. Whitespace, comments and licence comments in between do not matter, and all other positions give no answer.",
 ["inputs"],"every token list, at every position",
 "Two fixed snippets are tested.",
 ["src/js/utils.rs"],[("get_variable_name_and_value_positions","src/js/utils.rs")],
 observe=["positions returned for each keyword token"])

prop("C16","CSS minification keeps the style sheet's meaning",
 "For every well-formed style sheet (whitespace meaning spaces, tabs and line breaks; licence comments only between rules or declarations), the minified text has the same rules, selectors, at-rules, declarations and values in the same order: whitespace goes only where CSS gives it no meaning, so descendant combinators, spaces around + and - in math functions, spaces between values and keywords, and a space before a parenthesis stay. No tokens merge, split, vanish or appear; the preludes of at-rules keep their words apart.",
 ["inputs"],"every well-formed style sheet: any selector syntax, nested conditional at-rules, any declaration values, in every layout of whitespace and comments",
 "About twenty fixed snippets are tested; the space-dropping decision depends on every pair of neighbouring tokens and on the enclosing block.",
 CSS,[("tokenizer","src/css/token.rs tokenize, fill_other"),("space decisions","src/css/token.rs clean_tokens")],
 state=[dict(name="block depth and at-rule state",meaning="decides whether a word is a selector part or a value",where="src/css/token.rs is_in_block/is_in_media")],
 observe=["canonical form (CSS tokens with significant whitespace) of input and output"])

prop("C17","CSS strings, urls and escapes survive byte for byte",
 "In the minified form of a well-formed style sheet, every string, unquoted url, escape sequence, number, colour and identifier appears unchanged, character for character and in order, whatever it contains (whitespace which ends a hexadecimal escape may become one space, and whitespace around an unquoted url may go).",
 ["inputs"],"every string and identifier content: escapes, quotes of the other kind, comment- and code-like text, all Unicode",
 "About ten fixed literals are tested.",
 CSS,[("string scan","src/css/token.rs get_string"),("backslash escapes","src/css/token.rs tokenize Backslash arm"),("words","src/css/token.rs fill_other")],
 observe=["sequence of opaque tokens of input and output"])

prop("C18","CSS comments go, licence comments stay",
 "In the minified form of a well-formed style sheet no ordinary comment is left, and every licence comment between rules or declarations (one that starts with /*! or /**) is kept in order with its text intact, written in the /*! form.",
 ["inputs"],"every placement and content of ordinary and licence comments",
 "Five fixed comments are tested.",
 CSS,[("comment scan","src/css/token.rs get_comment"),("comments turned into spaces or dropped","src/css/token.rs clean_tokens"),("licence rendering","src/css/token.rs Display")],
 observe=["comments of input and output"])

prop("C19","CSS output is minimal and stable",
 "In the minified form of a well-formed style sheet there is no line break or tab outside strings and after licence comments, no run of two spaces, no space at the start or end, and none next to a brace, a semicolon, a comma or a declaration's colon (a space which ends an escape aside). The output is never longer than the input (a licence comment's line break and the space after an at-keyword aside), and minifying it again changes nothing.",
 ["inputs"],"every well-formed style sheet, in every layout",
 "Tests compare fixed outputs; nothing checks re-minification or length.",
 CSS,[("space decisions","src/css/token.rs clean_tokens, tokenize")],
 observe=["whitespace positions in the output, second minification"])

prop("C20","Malformed CSS is rejected, other CSS accepted",
 "CSS minification returns an error exactly for text with an unterminated string, an unterminated comment, a closing brace without an opening one, or square brackets that are nested or close without being open, all judged outside of strings, comments, escapes and unquoted urls (what follows the word url and an opening parenthese, up to the next closing one). Every other text is minified without error.",
 ["inputs"],"every text",
 "Two malformed and some thirty accepted inputs are tested.",
 CSS,[("error returns","src/css/token.rs tokenize"),("brace and bracket state","src/css/token.rs is_in_block, is_in_attribute_selector")],
 observe=["Ok or Err for each input"])

prop("C21","HTML minification keeps elements, attributes and text",
 "For every well-formed HTML document, the minified document has the same elements, with the same attributes and attribute values (byte for byte, whatever they contain), and the same text in the same order, with whitespace exactly where there was some. Only comments, the amount of whitespace in text and between attributes, attribute-less tags that HTML lets authors omit, the default type of script and style elements, and the quotes around plain width and height values are dropped. The code of scripts stays as it is but for whitespace at its two ends; in the code of styles runs of whitespace outside of strings may become one space.",
 ["inputs"],"every well-formed document: any nesting, attributes, entities, scripts and text, in every layout of whitespace",
 "Two fixed documents are tested.",
 ["src/html.rs"],[("tag removal","src/html.rs clean_unneeded_tags"),("type removal","src/html.rs condense"),("attribute rewriting","src/html.rs unquote_attributes"),("whitespace","src/html.rs condense_whitespace")],
 observe=["elements, attributes, code and text of input and output"])

prop("C22","HTML comments go; conditional comments, pre and textarea stay",
 "HTML minification of a well-formed document removes every ordinary comment, whatever it contains, without leaving whitespace in its place or touching what looks like a comment inside of scripts, styles, textareas and attribute values. It keeps every conditional comment (one whose text starts with an opening square bracket) and the end of one (<!--<![endif]-->) with its markup, whitespace runs aside. In a document with a pre or textarea element the text of those elements keeps its whitespace unchanged.",
 ["inputs"],"every placement and content of comments and of pre and textarea elements",
 "One ordinary and one conditional comment are tested; no test has pre or textarea.",
 ["src/html.rs"],[("comment removal","src/html.rs remove_comments"),("whitespace guard","src/html.rs condense_whitespace")],
 observe=["comments, pre and textarea text of input and output"])

prop("C27","HTML output is compact and stable",
 "The minified form of a well-formed HTML document is never longer than the document, starts and ends without whitespace, has no attribute-less tag left that the tool is known to omit, and, unless the document has a pre or textarea element, has no run of whitespace longer than one space in its text. Minifying it again changes nothing.",
 ["inputs"],"every well-formed document, in every layout of whitespace",
 "Two fixed documents are tested; nothing checks length or re-minification.",
 ["src/html.rs"],[("tag removal","src/html.rs clean_unneeded_tags"),("whitespace","src/html.rs condense_whitespace"),("attribute rewriting","src/html.rs unquote_attributes")],
 observe=["length, whitespace and tags of the output, second minification"])

prop("C23","Writing and displaying give the same bytes",
 "For JS, CSS and JSON results, writing to an output stream produces exactly the bytes of the displayed text, also when the stream accepts only a few bytes at a time or is interrupted. If the stream fails, writing returns that error and the bytes written so far are a prefix of the displayed text.",
 ["inputs","fault_sequences"],"every input, every short-write schedule, every failure position",
 "One test compares both forms, on seven JS snippets and an in-memory stream.",
 ["src/js/token.rs","src/js/tools.rs","src/css/token.rs","src/css/mod.rs","src/json/string.rs","src/json/mod.rs"],
 [("write","src/js/token.rs Tokens::write, src/css/token.rs Tokens::write, src/json/string.rs write"),("Display","the same files")],
 observe=["bytes accepted by an instrumented writer, displayed text, returned error"])

prop("C24","Minification is deterministic",
 "Each minification and each string aggregation depends on its input alone: repeating it in the same process, in another process, after other inputs, or at the same time on several threads gives byte-identical output.",
 ["schedules","histories","inputs"],"every input, every interleaving with other calls, every process",
 "Tests call each function once per process on one thread; hash-map iteration order differs from map to map and process to process.",
 JS+CSS+JSON+["src/html.rs"],
 [("ordering of hash-map contents before use","src/js/tools.rs inner_loop!, validated.sort_unstable_by"),("no shared mutable state","whole crate")],
 observe=["outputs of repeated, interleaved, concurrent and cross-process calls"])

prop("C25","The command line writes exactly what the library returns",
 "For each input file the command-line tool writes exactly the library's minified text for that file's type, where the type is the one given with -t or else the file's extension in any letter case. It goes to the -o file, or into the -o directory, or by default beside the input as NAME.min.TYPE; missing output directories are created, an older longer output is fully replaced, and no other file (the input included) changes.",
 ["configurations","inputs"],"every file name, extension, option combination and list of input files",
 "The command-line code has no tests.",
 ["src/cli.rs","src/main.rs"],[("type detection","src/cli.rs FileType"),("output path","src/cli.rs write_out_file"),("truncate and write","src/cli.rs write_out_file")],
 observe=["directory tree before and after each run of the binary"])

prop("C26","A failing file harms nothing else on the command line",
 "If an input file is missing, unreadable, not valid UTF-8, of unknown type, or rejected by the minifier, or if its output cannot be created, the command-line tool reports it on standard error and neither creates nor alters any output for it. All the other files of the same invocation are still processed, wherever the failing one stands in the list. An output which cannot be written in full is reported too, and then holds a beginning of the text or what it held before.",
 ["fault_sequences","configurations"],"every kind of failing input, every position in the list of files, with and without an existing output",
 "The command-line code has no tests.",
 ["src/cli.rs"],[("error handling","src/cli.rs write_out_file, get_all_data"),("order of minifying and opening the output","src/cli.rs write_out_file")],
 observe=["directory tree, standard error and exit of the binary"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80, p["id"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
