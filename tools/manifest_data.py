NOTE.update({
"C07":"Minified text of every generated program is read off against the token list the program was built from; gluing of neighbours is judged by the ECMAScript lexical grammar, and one program in twelve runs in node before and after. Sampled; trusts harness/src/jsgen.rs and p_js.rs. Recorded findings are listed in known_findings.txt.",
"C08":"Every literal of every generated program is looked up in the minified text at its place. Sampled.",
"C09":"Everything between the tokens of the minified text is looked at; comments and licences are placed at random with hostile content. Sampled.",
"C10":"Each space left in the minified text must separate two tokens that would merge (or precede in/instanceof); length and second minification are compared. Sampled.",
"C11":"The aggregated text is parsed back: declarations, substituted names and values, and the untouched rest; a tenth of the programs runs in node before and after. Sampled.",
"C12":"The aggregated text is parsed back: array elements, index expressions compared by value, and the untouched rest; a tenth of the programs runs in node before and after. Sampled.",
"C13":"Every result list is explained from the input list by an independent matcher; calls of the callbacks are logged. Sampled.",
"C14":"Token lists are matched with the tokens known by construction; untouched lists are rendered and compared with the source. Sampled.",
"C15":"Every position of every list is asked and compared with an independent reading. Sampled.",
})
TECH.update({
"C07":"runtime monitor: token-list oracle over coverage-guided generated programs, differential execution traces in node",
"C08":"runtime monitor: literal-preservation oracle over coverage-guided generated programs",
"C09":"runtime monitor: comment-placement oracle over coverage-guided generated programs",
"C10":"runtime monitor: whitespace, length and fixpoint monitors over coverage-guided generated programs",
"C11":"runtime monitor: declaration/use oracle over aggregated programs, differential execution traces in node",
"C12":"runtime monitor: array/index oracle over aggregated programs, differential execution traces in node",
"C13":"runtime monitor: trace explanation of token lists and logged callbacks",
"C14":"runtime monitor: token-list oracle and rendering comparison over coverage-guided generated programs",
"C15":"runtime monitor: independent recomputation at every position of generated token lists",
})

NOTE.update({
"C16":"The minified text of every generated style sheet is read off against the token list the sheet was built from; each gap between two tokens carries what whitespace means there. Sampled; trusts harness/src/p_css.rs.",
"C17":"Every string, url, escape, number, colour and identifier of every generated sheet is looked up in the minified text at its place. Sampled.",
"C18":"Comments and licences with hostile content are placed at random; what stands next to each is read off the minified text. Sampled.",
"C19":"Every gap of the minified text is judged; length and second minification are compared. Sampled.",
"C20":"Accept or reject is compared with an independent scanner on hostile text and cut style sheets. Sampled.",
})
TECH.update({
"C16":"runtime monitor: token-and-gap oracle over coverage-guided generated style sheets",
"C17":"runtime monitor: opaque-token oracle over coverage-guided generated style sheets",
"C18":"runtime monitor: comment-placement oracle over coverage-guided generated style sheets",
"C19":"runtime monitor: whitespace, length and fixpoint monitors over coverage-guided generated style sheets",
"C20":"runtime monitor: differential against an independent scanner on coverage-guided hostile text",
})

NOTE.update({
"C21":"Every generated document and its minified form are read by a reference tokenizer and compared item by item. Sampled; trusts the tokenizer in harness/src/p_html.rs.",
"C22":"Comments, conditional comments and preformatted text of every generated document are compared before and after. Sampled.",
"C27":"Length, whitespace, needless tags and the second minification of every generated document are judged. Sampled.",
})
TECH.update({
"C21":"runtime monitor: reference-tokenizer oracle over coverage-guided generated documents",
"C22":"runtime monitor: comment and preformatted-text oracle over coverage-guided generated documents",
"C27":"runtime monitor: length, whitespace and fixpoint monitors over coverage-guided generated documents",
})

NOTE.update({
"C01":"Hostile texts of every kind through every entry point on a 2 MB stack, in processes whose panics, signals, CPU time and memory are watched; what is rendered must be UTF-8. Sampled.",
"C23":"A scripted stream takes the bytes in any sizes, with interruptions and faults at any byte; bytes and errors are compared with the displayed text. Sampled.",
"C24":"Results are compared with repetitions, with a process that has done nothing else, with four concurrent threads, and with recomputation after other texts. Sampled interleavings.",
})
TECH.update({
"C01":"runtime monitor: panic, signal, CPU-time, memory and UTF-8 monitors over coverage-guided hostile texts",
"C23":"runtime monitor with fault injection: scripted output streams against the displayed text",
"C24":"runtime monitor: differential recomputation across history, threads and processes",
})

NOTE.update({
"C02":"For JS, CSS, JSON, (well-formed) HTML, both aggregations and the token filters: families of texts are measured at three sizes: memory by a counting allocator, time by thread CPU clock; a suspicious time is judged by instruction counts from valgrind. Sampled families up to 64 KB (128 KB thorough).",
"C25":"The real tool is run in scratch directories; every file there is compared before and after with what the library returns. Sampled.",
"C26":"The real tool is run with failing files of ten kinds and outputs with too little room (a limit on file sizes) at any place of its list; standard error and every file are checked. Sampled.",
})
TECH.update({
"C02":"runtime monitor: memory, CPU-time and instruction-count growth over generated families of texts",
"C25":"runtime monitor: directory snapshots around runs of the tool against the library's text",
"C26":"runtime monitor with fault injection: failing input files, directory snapshots and standard error",
})
