// The documented enumerators of ulight_highlight_type: value and name, in lower case, with hyphens.
static const struct { unsigned value; const char* name; const char* msg; } HL_TYPES[] = {
    { 0x00, "", "the long string of highlight type 0x00 is not its enumerator" },
    { 0x01, "error", "the long string of highlight type 0x01 is not its enumerator" },
    { 0x10, "comment", "the long string of highlight type 0x10 is not its enumerator" },
    { 0x11, "comment-delim", "the long string of highlight type 0x11 is not its enumerator" },
    { 0x12, "comment-doc", "the long string of highlight type 0x12 is not its enumerator" },
    { 0x13, "comment-doc-delim", "the long string of highlight type 0x13 is not its enumerator" },
    { 0x20, "value", "the long string of highlight type 0x20 is not its enumerator" },
    { 0x21, "value-delim", "the long string of highlight type 0x21 is not its enumerator" },
    { 0x22, "null", "the long string of highlight type 0x22 is not its enumerator" },
    { 0x24, "bool", "the long string of highlight type 0x24 is not its enumerator" },
    { 0x30, "number", "the long string of highlight type 0x30 is not its enumerator" },
    { 0x31, "number-delim", "the long string of highlight type 0x31 is not its enumerator" },
    { 0x32, "number-decor", "the long string of highlight type 0x32 is not its enumerator" },
    { 0x38, "string", "the long string of highlight type 0x38 is not its enumerator" },
    { 0x39, "string-delim", "the long string of highlight type 0x39 is not its enumerator" },
    { 0x3a, "string-decor", "the long string of highlight type 0x3a is not its enumerator" },
    { 0x3c, "string-escape", "the long string of highlight type 0x3c is not its enumerator" },
    { 0x3e, "string-interpolation", "the long string of highlight type 0x3e is not its enumerator" },
    { 0x3f, "string-interpolation-delim", "the long string of highlight type 0x3f is not its enumerator" },
    { 0x40, "name", "the long string of highlight type 0x40 is not its enumerator" },
    { 0x41, "name-decl", "the long string of highlight type 0x41 is not its enumerator" },
    { 0x42, "name-builtin", "the long string of highlight type 0x42 is not its enumerator" },
    { 0x43, "name-delim", "the long string of highlight type 0x43 is not its enumerator" },
    { 0x44, "name-var", "the long string of highlight type 0x44 is not its enumerator" },
    { 0x45, "name-var-decl", "the long string of highlight type 0x45 is not its enumerator" },
    { 0x46, "name-var-builtin", "the long string of highlight type 0x46 is not its enumerator" },
    { 0x47, "name-var-delim", "the long string of highlight type 0x47 is not its enumerator" },
    { 0x48, "name-const", "the long string of highlight type 0x48 is not its enumerator" },
    { 0x49, "name-const-decl", "the long string of highlight type 0x49 is not its enumerator" },
    { 0x4a, "name-const-builtin", "the long string of highlight type 0x4a is not its enumerator" },
    { 0x4b, "name-const-delim", "the long string of highlight type 0x4b is not its enumerator" },
    { 0x4c, "name-function", "the long string of highlight type 0x4c is not its enumerator" },
    { 0x4d, "name-function-decl", "the long string of highlight type 0x4d is not its enumerator" },
    { 0x4e, "name-function-builtin", "the long string of highlight type 0x4e is not its enumerator" },
    { 0x4f, "name-function-delim", "the long string of highlight type 0x4f is not its enumerator" },
    { 0x50, "name-type", "the long string of highlight type 0x50 is not its enumerator" },
    { 0x51, "name-type-decl", "the long string of highlight type 0x51 is not its enumerator" },
    { 0x52, "name-type-builtin", "the long string of highlight type 0x52 is not its enumerator" },
    { 0x53, "name-type-delim", "the long string of highlight type 0x53 is not its enumerator" },
    { 0x54, "name-module", "the long string of highlight type 0x54 is not its enumerator" },
    { 0x55, "name-module-decl", "the long string of highlight type 0x55 is not its enumerator" },
    { 0x56, "name-module-builtin", "the long string of highlight type 0x56 is not its enumerator" },
    { 0x57, "name-module-delim", "the long string of highlight type 0x57 is not its enumerator" },
    { 0x58, "name-label", "the long string of highlight type 0x58 is not its enumerator" },
    { 0x59, "name-label-decl", "the long string of highlight type 0x59 is not its enumerator" },
    { 0x5a, "name-label-builtin", "the long string of highlight type 0x5a is not its enumerator" },
    { 0x5b, "name-label-delim", "the long string of highlight type 0x5b is not its enumerator" },
    { 0x5c, "name-parameter", "the long string of highlight type 0x5c is not its enumerator" },
    { 0x5d, "name-parameter-decl", "the long string of highlight type 0x5d is not its enumerator" },
    { 0x5e, "name-parameter-builtin", "the long string of highlight type 0x5e is not its enumerator" },
    { 0x5f, "name-parameter-delim", "the long string of highlight type 0x5f is not its enumerator" },
    { 0x60, "name-nonterminal", "the long string of highlight type 0x60 is not its enumerator" },
    { 0x61, "name-nonterminal-decl", "the long string of highlight type 0x61 is not its enumerator" },
    { 0x62, "name-nonterminal-builtin", "the long string of highlight type 0x62 is not its enumerator" },
    { 0x63, "name-nonterminal-delim", "the long string of highlight type 0x63 is not its enumerator" },
    { 0x64, "name-lifetime", "the long string of highlight type 0x64 is not its enumerator" },
    { 0x65, "name-lifetime-decl", "the long string of highlight type 0x65 is not its enumerator" },
    { 0x66, "name-lifetime-builtin", "the long string of highlight type 0x66 is not its enumerator" },
    { 0x67, "name-lifetime-delim", "the long string of highlight type 0x67 is not its enumerator" },
    { 0x68, "name-instruction", "the long string of highlight type 0x68 is not its enumerator" },
    { 0x69, "name-instruction-decl", "the long string of highlight type 0x69 is not its enumerator" },
    { 0x6a, "name-instruction-pseudo", "the long string of highlight type 0x6a is not its enumerator" },
    { 0x6b, "name-instruction-delim", "the long string of highlight type 0x6b is not its enumerator" },
    { 0x6c, "name-attr", "the long string of highlight type 0x6c is not its enumerator" },
    { 0x6d, "name-attr-decl", "the long string of highlight type 0x6d is not its enumerator" },
    { 0x6e, "name-attr-builtin", "the long string of highlight type 0x6e is not its enumerator" },
    { 0x6f, "name-attr-delim", "the long string of highlight type 0x6f is not its enumerator" },
    { 0x70, "name-shell-command", "the long string of highlight type 0x70 is not its enumerator" },
    { 0x71, "name-shell-command-decl", "the long string of highlight type 0x71 is not its enumerator" },
    { 0x72, "name-shell-command-builtin", "the long string of highlight type 0x72 is not its enumerator" },
    { 0x73, "name-shell-command-delim", "the long string of highlight type 0x73 is not its enumerator" },
    { 0x74, "name-shell-option", "the long string of highlight type 0x74 is not its enumerator" },
    { 0x75, "name-shell-option-decl", "the long string of highlight type 0x75 is not its enumerator" },
    { 0x76, "name-shell-option-builtin", "the long string of highlight type 0x76 is not its enumerator" },
    { 0x77, "name-shell-option-delim", "the long string of highlight type 0x77 is not its enumerator" },
    { 0x78, "name-macro", "the long string of highlight type 0x78 is not its enumerator" },
    { 0x79, "name-macro-decl", "the long string of highlight type 0x79 is not its enumerator" },
    { 0x7a, "name-macro-builtin", "the long string of highlight type 0x7a is not its enumerator" },
    { 0x7b, "name-macro-delim", "the long string of highlight type 0x7b is not its enumerator" },
    { 0x7c, "name-directive", "the long string of highlight type 0x7c is not its enumerator" },
    { 0x7d, "name-directive-decl", "the long string of highlight type 0x7d is not its enumerator" },
    { 0x7e, "name-directive-builtin", "the long string of highlight type 0x7e is not its enumerator" },
    { 0x7f, "name-directive-delim", "the long string of highlight type 0x7f is not its enumerator" },
    { 0x90, "keyword", "the long string of highlight type 0x90 is not its enumerator" },
    { 0x91, "keyword-control", "the long string of highlight type 0x91 is not its enumerator" },
    { 0x92, "keyword-type", "the long string of highlight type 0x92 is not its enumerator" },
    { 0x93, "keyword-op", "the long string of highlight type 0x93 is not its enumerator" },
    { 0x94, "keyword-this", "the long string of highlight type 0x94 is not its enumerator" },
    { 0xa0, "diff-heading", "the long string of highlight type 0xa0 is not its enumerator" },
    { 0xa1, "diff-heading-delim", "the long string of highlight type 0xa1 is not its enumerator" },
    { 0xa2, "diff-heading-hunk", "the long string of highlight type 0xa2 is not its enumerator" },
    { 0xa3, "diff-heading-hunk-delim", "the long string of highlight type 0xa3 is not its enumerator" },
    { 0xa8, "diff-common", "the long string of highlight type 0xa8 is not its enumerator" },
    { 0xa9, "diff-common-delim", "the long string of highlight type 0xa9 is not its enumerator" },
    { 0xaa, "diff-deletion", "the long string of highlight type 0xaa is not its enumerator" },
    { 0xab, "diff-deletion-delim", "the long string of highlight type 0xab is not its enumerator" },
    { 0xac, "diff-insertion", "the long string of highlight type 0xac is not its enumerator" },
    { 0xad, "diff-insertion-delim", "the long string of highlight type 0xad is not its enumerator" },
    { 0xae, "diff-modification", "the long string of highlight type 0xae is not its enumerator" },
    { 0xaf, "diff-modification-delim", "the long string of highlight type 0xaf is not its enumerator" },
    { 0xb0, "markup-tag", "the long string of highlight type 0xb0 is not its enumerator" },
    { 0xb1, "markup-tag-decl", "the long string of highlight type 0xb1 is not its enumerator" },
    { 0xb2, "markup-tag-builtin", "the long string of highlight type 0xb2 is not its enumerator" },
    { 0xb3, "markup-tag-delim", "the long string of highlight type 0xb3 is not its enumerator" },
    { 0xb4, "markup-attr", "the long string of highlight type 0xb4 is not its enumerator" },
    { 0xb5, "markup-attr-decl", "the long string of highlight type 0xb5 is not its enumerator" },
    { 0xb6, "markup-attr-builtin", "the long string of highlight type 0xb6 is not its enumerator" },
    { 0xb7, "markup-attr-delim", "the long string of highlight type 0xb7 is not its enumerator" },
    { 0xc0, "text", "the long string of highlight type 0xc0 is not its enumerator" },
    { 0xc1, "text-heading", "the long string of highlight type 0xc1 is not its enumerator" },
    { 0xc2, "text-link", "the long string of highlight type 0xc2 is not its enumerator" },
    { 0xc3, "text-mark", "the long string of highlight type 0xc3 is not its enumerator" },
    { 0xc4, "text-math", "the long string of highlight type 0xc4 is not its enumerator" },
    { 0xc5, "text-subscript", "the long string of highlight type 0xc5 is not its enumerator" },
    { 0xc6, "text-superscript", "the long string of highlight type 0xc6 is not its enumerator" },
    { 0xc7, "text-quote", "the long string of highlight type 0xc7 is not its enumerator" },
    { 0xc8, "text-small", "the long string of highlight type 0xc8 is not its enumerator" },
    { 0xd0, "text-mono", "the long string of highlight type 0xd0 is not its enumerator" },
    { 0xd1, "text-code", "the long string of highlight type 0xd1 is not its enumerator" },
    { 0xd2, "text-italic", "the long string of highlight type 0xd2 is not its enumerator" },
    { 0xd3, "text-emph", "the long string of highlight type 0xd3 is not its enumerator" },
    { 0xd4, "text-bold", "the long string of highlight type 0xd4 is not its enumerator" },
    { 0xd5, "text-strong", "the long string of highlight type 0xd5 is not its enumerator" },
    { 0xd6, "text-underline", "the long string of highlight type 0xd6 is not its enumerator" },
    { 0xd7, "text-insertion", "the long string of highlight type 0xd7 is not its enumerator" },
    { 0xd8, "text-strikethrough", "the long string of highlight type 0xd8 is not its enumerator" },
    { 0xd9, "text-deletion", "the long string of highlight type 0xd9 is not its enumerator" },
    { 0xe0, "symbol", "the long string of highlight type 0xe0 is not its enumerator" },
    { 0xe1, "symbol-punc", "the long string of highlight type 0xe1 is not its enumerator" },
    { 0xe2, "symbol-op", "the long string of highlight type 0xe2 is not its enumerator" },
    { 0xe3, "symbol-formatting", "the long string of highlight type 0xe3 is not its enumerator" },
    { 0xe4, "symbol-bracket", "the long string of highlight type 0xe4 is not its enumerator" },
    { 0xe5, "symbol-parens", "the long string of highlight type 0xe5 is not its enumerator" },
    { 0xe6, "symbol-square", "the long string of highlight type 0xe6 is not its enumerator" },
    { 0xe7, "symbol-brace", "the long string of highlight type 0xe7 is not its enumerator" },
};
