use crate::eng::{Fixed, Prop};
use crate::*;

fn none() -> Vec<Fixed> { vec![] }
const D: Prop = Prop { id: "", rule: "", assumptions: &[], case: p_json::c03, fixed: none, stack_mb: 64, cpu_limit: 30, workers: 8, quick_secs: 20, thorough_secs: 600 };

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", case: p_any::c01, fixed: p_any::fixed_c01, stack_mb: 2, cpu_limit: 20, quick_secs: 30, thorough_secs: 480,
        rule: "Texts of every kind: well-formed ones of each language, cut, spliced and spoilt with fragments, words of the code under test, any Unicode, runs and nesting up to 200 KB (6 KB for HTML), given to every entry point (and the JSON reader with spoilt bytes and short reads) on a 2 MB stack. Non-trivial: more than one byte.",
        assumptions: &["the stack is 2 MB, Rust's default for threads", "an input that takes more than 20 s of CPU time runs forever"], ..D },
    Prop { id: "C02", case: p_cost::c02, fixed: p_cost::fixed_c02, quick_secs: 30, cpu_limit: 60,
        rule: "Families of texts (prefix, repeated unit, middle, other repeated unit, suffix; units are well-formed texts, their tails, fragments and numbered fragments) instantiated at 4, 16 and 64 KB; CPU time and memory (counting allocator) are compared, and suspicious times are judged by instructions counted with valgrind. Every family is non-trivial.",
        assumptions: &["growth by more than 32 where the size grows by 16 (instructions), or by more than 64 (memory), is not linear"], ..D },
    Prop { id: "C03", case: p_json::c03, fixed: p_json::fixed_c03,
        rule: "JSON texts built from a random grammar derivation (all escapes, full Unicode, tall nesting, literals of the code under test) in random layout; the token list is known by construction. Non-trivial: at least one string and more than one token.",
        assumptions: &["the generated text is valid JSON by construction"], ..D },
    Prop { id: "C04", case: p_json::c04, fixed: p_json::fixed_c04,
        rule: "JSON texts as for C03; each is minified, re-minified and rendered four times. Non-trivial: at least one string and more than one token.",
        assumptions: &["the generated text is valid JSON by construction"], ..D },
    Prop { id: "C05", case: p_json::c05, fixed: p_json::fixed_c05,
        rule: "A text (valid JSON, random characters, or long repetitions), a script of source reads (short reads, interrupts) and a cycle of consumer buffer sizes; the delivered bytes are compared with string minification. Non-trivial: more than 3 bytes of text.",
        assumptions: &["string minification is judged by C03 and C04"], ..D },
    Prop { id: "C06", case: p_json::c06, fixed: p_json::fixed_c06,
        rule: "A text, with an I/O fault injected at a chosen byte and/or a broken UTF-8 sequence, read under a source script and consumer buffer sizes; the first error, the bytes before it and the reads after it are checked. All cases are non-trivial.",
        assumptions: &["an Interrupted read may be retried inside or reported; both are accepted"], ..D },
    Prop { id: "C07", case: p_js::c07, fixed: p_js::fixed_c07, quick_secs: 25,
        rule: "JS programs from a random derivation of an ES2022 statement and expression grammar (explicit semicolons) laid out with random whitespace, line breaks and comments, with statements of real files among the generated ones and now and then a whole file; the token list is known by construction and is read off the minified text; one program in twelve is run in node before and after minification and the traces are compared. Non-trivial: more than three tokens.",
        assumptions: &["the generated program is valid by construction (checked with node on those executed)", "no regular expression right after a closing parenthesis or brace (known finding)"], ..D },
    Prop { id: "C08", case: p_js::c08, fixed: p_js::fixed_c08,
        rule: "JS programs as for C07 with a random preference for literals: strings, templates (nested), regexes and numbers with hostile contents. Non-trivial: a literal of more than two bytes.",
        assumptions: &["no comment and no regex with quotes or braces inside ${} (known findings)"], ..D },
    Prop { id: "C09", case: p_js::c09, fixed: p_js::fixed_c09,
        rule: "Short JS programs as for C07, with line, block and licence comments of hostile content at random places. Non-trivial: at least one comment.",
        assumptions: &["the generated program is valid by construction"], ..D },
    Prop { id: "C10", case: p_js::c10, fixed: p_js::fixed_c10,
        rule: "JS programs as for C07; the whitespace left in the minified text is judged pair by pair, and the text is minified again. Non-trivial: more than three tokens.",
        assumptions: &["the generated program is valid by construction"], ..D },
    Prop { id: "C11", case: p_agg::c11, fixed: p_agg::fixed_c11,
        rule: "JS programs as for C07 drawing their strings from a small pool of literals that are alike, equal in value or one inside of the other (sometimes up to thousands of different ones), with names of the tool's own scheme in use and variables that already hold a string; aggregated before, after or without cleaning, with and without separators. The declarations are parsed, every substituted occurrence is looked up, the rest is read off; one program in ten is run in node before and after. Non-trivial: at least one string was replaced.",
        assumptions: &["string literals stand in expression position", "existing r_ variables are never reassigned"], ..D },
    Prop { id: "C12", case: p_agg::c12, fixed: p_agg::fixed_c12,
        rule: "JS programs as for C11 and an array name that is free or belongs to an existing flat array literal, with and without a filter (a pseudo-random choice per string) and separators; aggregated before, after or without cleaning. The array is parsed, every index expression is looked up and compared by value, the rest is read off; one program in ten is run in node before and after. Non-trivial: at least one string was replaced.",
        assumptions: &["string literals stand in expression position", "the array is declared by a statement of its own before its uses"], ..D },
    Prop { id: "C13", case: p_tok::c13, fixed: p_tok::fixed_c13, quick_secs: 15,
        rule: "Token lists of generated programs and made-up lists of every kind of token, rich in semicolons, closing braces and trivia; cleaned and replaced with callbacks that answer by a pseudo-random function of the token. Each result is explained token by token from the input by a small nondeterministic matcher. Non-trivial: more than one token.",
        assumptions: &["callbacks answer by the token alone"], ..D },
    Prop { id: "C14", case: p_js::c14, fixed: p_js::fixed_c14,
        rule: "JS programs as for C07, half of them without comments; the token list is compared with the one known by construction, and rendered untouched. Non-trivial: more than three tokens.",
        assumptions: &["the generated program is valid by construction"], ..D },
    Prop { id: "C15", case: p_tok::c15, fixed: p_tok::fixed_c15, quick_secs: 15,
        rule: "Made-up lists of declarations (any layout, values and broken ends), made-up lists of any tokens, and token lists of generated programs, untouched or cleaned; every position (and some beyond the end) is asked and compared with an independent reading of the list. Non-trivial: at least one answer.",
        assumptions: &["token lists themselves are judged by C14"], ..D },
    Prop { id: "C16", case: p_css::c16, fixed: p_css::fixed_c16, quick_secs: 25,
        rule: "Real style sheets, and such from a random derivation of a CSS grammar (selectors levels 1 to 4, nesting, conditional and other at-rules, values with functions and math, escapes, urls) laid out with random whitespace and comments; the tokens and the places where whitespace has a meaning are known by construction and read off the minified text. Non-trivial: more than four tokens.",
        assumptions: &["the generated sheet is well-formed by construction", "licence comments stand between rules or declarations only"], ..D },
    Prop { id: "C17", case: p_css::c17, fixed: p_css::fixed_c17,
        rule: "Style sheets as for C16 with hostile contents of strings, urls, identifiers and numbers. Non-trivial: more than four tokens.",
        assumptions: &["the generated sheet is well-formed by construction"], ..D },
    Prop { id: "C18", case: p_css::c18, fixed: p_css::fixed_c18,
        rule: "Style sheets as for C16, with ordinary comments wherever CSS allows them and licence comments between rules and declarations. Non-trivial: more than four tokens.",
        assumptions: &["the generated sheet is well-formed by construction"], ..D },
    Prop { id: "C19", case: p_css::c19, fixed: p_css::fixed_c19,
        rule: "Style sheets as for C16; the whitespace left in the minified text is judged place by place, and the text is minified again. Non-trivial: more than four tokens.",
        assumptions: &["the generated sheet is well-formed by construction"], ..D },
    Prop { id: "C20", case: p_css::c20, fixed: p_css::fixed_c20,
        rule: "Well-formed sheets, cut or spoilt by random insertions, and made-up text rich in quotes, comment marks, braces, brackets, escapes and urls; acceptance is compared with an independent scanner. Non-trivial: malformed, or more than three bytes.",
        assumptions: &["an unquoted url is what follows the word url and a parenthese, up to the next closing one"], ..D },
    Prop { id: "C21", case: p_html::c21, fixed: p_html::fixed_c21,
        rule: "Real HTML documents, and such from a random derivation (nested elements, lists, tables, void and custom elements, attributes with hostile values in every quoting, scripts, styles, comments, pre and textarea, text with entities and all Unicode) in random whitespace; document and minified document are read by a reference tokenizer and compared item by item. Non-trivial: more than one tag.",
        assumptions: &["the generated document is well-formed by construction (checked by the reference tokenizer)"], ..D },
    Prop { id: "C22", case: p_html::c22, fixed: p_html::fixed_c22,
        rule: "HTML documents as for C21; comments, conditional comments and the texts of pre and textarea elements are compared before and after. Non-trivial: more than one tag.",
        assumptions: &["the generated document is well-formed by construction (checked by the reference tokenizer)"], ..D },
    Prop { id: "C27", case: p_html::c27, fixed: p_html::fixed_c27,
        rule: "HTML documents as for C21; whitespace, needless tags and length of the minified document are judged, and it is minified again. Non-trivial: more than one tag.",
        assumptions: &["the generated document is well-formed by construction (checked by the reference tokenizer)"], ..D },
    Prop { id: "C23", case: p_any::c23, fixed: p_any::fixed_c23, quick_secs: 15,
        rule: "A text (well-formed or hostile, sometimes long), a script of what the stream accepts per call (short writes, interruptions) and a fault of some kind at some byte (passing or lasting); the bytes written are compared with the displayed text. Non-trivial: more than three bytes.",
        assumptions: &["interrupted writes succeed when repeated"], ..D },
    Prop { id: "C24", case: p_any::c24, fixed: p_any::fixed_c24,
        rule: "Lists of texts and near-copies of them under every minification and aggregation: computed, computed again in reverse order, in a fresh process per text, on four threads at once, and again after other texts. Non-trivial: a text of more than ten bytes.",
        assumptions: &["threads meet by chance: interleavings are sampled"], ..D },
    Prop { id: "C25", case: p_cli::c25, fixed: p_cli::fixed_c25,
        rule: "Scratch directories with one to four input files (any names, directories, contents and letter cases, links), old outputs and bystanders; the tool is run with every way of giving -t and -o, and the whole directory is compared before and after. All cases are non-trivial.",
        assumptions: &["the library's text is computed in the monitor from the same sources", "no two inputs share an output, no output is an input"], ..D },
    Prop { id: "C26", case: p_cli::c26, fixed: p_cli::fixed_c26,
        rule: "As for C25, with at least one input that is missing, a directory, a dangling or circular link, below a file, not UTF-8, of unknown type, rejected, or whose output is a directory or finds too little room (a limit on file sizes), at any place in the list. All cases are non-trivial.",
        assumptions: &["checks run as root, so permissions cannot make a file unreadable", "no two inputs share an output, no output is an input"], ..D },
];
