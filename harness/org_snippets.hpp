// Written-out pieces of the supported syntax.
#pragma once

static const char* const LINKS[] = {
    "[[http://a.b/c][d e]]", "[[file:a.b]]", "[[id:0a-b]]", "[[attachment:x][y]]",
    "[[*Title]]", "[[#cid]]", "[[/a/b]]", "[[./a]]", "[[a:b]]", "[[a b]]", "https://a.b c",
    "[fn:1] [fn::x]", "<<a>> <<<b>>>", "[[a][~b~]]",
};
static const char* const TIMES[] = {
    "<2023-01-02 Mon 10:20:30 .+1d -2w>", "[2023-01-02 9:05pm]--[2024-01-02]", "<%%(a b)>",
    "[%%(a)]", "CLOCK: [2023-01-02]--[2023-01-03] => 0:10", "SCHEDULED: <2023-01-02> DEADLINE: <2023-01-03 ++2d1h>",
    "CLOSED: [2023-01-02]", "12:30am 12:30:10PM 1_000 12ab",
};
static const char* const LISTS[] = {
    "- a\n  + b\n  12) c", "1. [X] a :: b", "* TODO [#A] b [1/2] [30%] :t:", "| a | b |\n|---+---|\n",
    "  |---|\nab", "-----\na", ": ex\n : y", "a\n \n\nb", "** ", "[ ] [-] [#a]",
};
static const char* const BLOCKS[] = {
    "#+begin_src x :a b\na <<b>> c\n#+end_src\n", "#+begin_example\nx\n  #+end_example",
    "#+begin_export html\n<\n#+end_export", "#+begin_quote\na\n#+end_quote", "#+BEGIN: x :y (1)\n#+END:\n",
    "#+begin_src\n\n >>\n#+endsrc",
};
static const char* const COMMANDS[] = {
    "#+title: *a* b\n", "#+name: \"a\\\"b\" c\n", "#+attr_html: :a b=c,d [e] :- f(g)\n", "#+property: header-args:x :y z\n",
    "#+property: created a\n", "#+tblfm: $1=2\n", "#+call: f(a=\"b\")[:c d]\n", "  #+custom: x",
    ":properties:\n:a: b\n:header-args:c: :d e\n:description: f\n:end:", ":logbook:\n:END:\n",
};
static const char* const INLINE[] = {
    "*a* /b/ _c_ =d= +e+ ~f~", " ~a~b~ ~c", " ~a\nb~ ~c\n\nd~", "src_x{a{b}\\}c} d", "src_y z SRCdir",
    "@@html:<b>@@ @me", "\\alpha \\\\ \\* $a$", "{++a++}{--b--}{==c==}{~~d~>e~~}{>>f<<}", "#tag##[a,b] # c",
    "<ph> <a b>", "don't a-b_c a_ 12", "call_x[a](b)", "=a= ==} ++} +1d .+2w ~~} <<}",
};
static const char* const DOCS[] = {
    "#+begin_quote\n* a\nb", "#+begin_table\n#+row:\n#+cell: a\n* b\n", "#+begin_table :a b\n#+row:\n#+cell:\n#+end_table",
    "#+results: a\n: b\n#+results:", "{{{a(}b,c)}}} d", "\\alpha[b]{c}{} d", "[[a:b\n\n[[c:d]] e", "- a\n  #+begin_src c\n  d\n  #+end_src\n- b\n",
    "* a\n:properties:\n:b: c\n:end:\n** d\n* e\n", "[fn:1] a\n\n\nb", "a\n- b\n\n  c\n\n  - d\ne",
};
