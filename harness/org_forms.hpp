// The written forms of the syntax, with any word for every question mark.
#pragma once
#include "symx.hpp"

/// A piece of text with any word for every question mark.
static std::string filled(const char* piece) {
    std::string out;
    for (const char* c = piece; *c != 0; ++c) {
        if (*c == '?') {
            out += sx::word("w", 1, 1, "axq");
        } else {
            out += *c;
        }
    }
    return out;
}

/// Text that is part of a paragraph.
static const char* const INLINE[] = {
    "? ?", "*?*", "/? ?/", "_?_", "+?+", "=? ?=", "~?~", "*? /?/ ?*", "/*?*/", "?, ?. (?) ?!", "?-?_? 12",
    "[[https://?/?][?]]", "[[id:?]]", "[[id:?][? *?*]]", "[[file:?]]", "[[#?]]", "[[./?]]", "[[*?]]", "[[**?]]",
    "[[attachment:?][?]]", "[[usr:?]]", "[[person:?]]", "[[?]]", "? #?", "? #?##?", "? #?##[?,?]", "? [fn:?]",
    "? [fn::?]", "{{{?(?,?)}}}", "{{{?}}}", "\\?lpha", "\\?{}?", "$?$", "<<?>>", "<<<?>>>", "@? ?", "src_?{?}",
    "src_?[:? ?]{?}", "call_?(?)", "@@html:?@@", "{++?++}", "{--?--}", "{==?==}", "{~~?~>?~~}", "{>>?<<}", "?\\*?", "TODO ?",
};
/// Text that stands for itself.
static const char* const STMT[] = {
    "?\n?\n\n?\n", "- ?\n- ?\n", "- ?\n  - ?\n- ?\n", "+ ?\n", "1. ?\n2. ?\n", "1) ?\n", "- [X] ?\n- [ ] ?\n- [-] ?\n",
    "- ? :: ?\n", "- ?\n\n  ?\n", "- ?\n  1. ?\n     - ?\n", "- [ ] ? :: ? ?\n", "| ? | ? |\n| ? | ? |\n", "| ? | ? |\n|---+---|\n| ? | ? |\n",
    "#+begin_src ?\n?\n  ?\n#+end_src\n", "#+begin_src ? :? ?\n\n?\n#+end_src\n", "#+begin_src\n? <<?>> ?\n#+end_src\n",
    "#+begin_quote\n?\n\n?\n#+end_quote\n", "#+begin_center\n?\n#+end_center\n", "#+begin_comment\n?\n#+end_comment\n",
    "#+begin_example\n ?\n\n?\n#+end_example\n", "#+begin_export html\n?\n?\n#+end_export\n", "#+begin_export latex :? ?\n?\n#+end_export\n",
    "#+begin_?\n?\n#+end_?\n", "#+begin_quote\n- ?\n- ?\n#+end_quote\n", "#+name: ?\n| ? |\n", "#+caption: ? ?\n| ? |\n",
    "#+attr_html: :? ?\n| ? |\n", "#+attr_html: :a ? ? :b ?\n| ? |\n", "#+attr_html: :? \"? ?\"\n| ? |\n", "#+name: ?\n#+begin_src ?\n?\n#+end_src\n",
    "[fn:?] ? ?\n", "-----\n", "#+call: ?(?=?)\n", "#+custom: ? ?\n", "- ?\n  #+begin_src ?\n  ?\n  #+end_src\n- ?\n",
    "#+begin_table :? ?\n#+row: :? ?\n#+cell: :? ?\n?\n#+end_table\n",
};
/// Headings and what belongs to them.
static const char* const HEADING[] = {
    "* ?\n", "* ?\n** ?\n* ?\n", "* ?\n?\n", "* TODO ?\n", "* TODO [#A] ? ? :?:\n", "* ? [1/2] :?:?:\n", "* ? [30%]\n", "* COMMENT ?\n",
    "* ? :ARCHIVE:\n", "* ? :?##?:\n", "* ?\n\n?\n\n\n?\n", "* ?\n:properties:\n:id: ?\n:end:\n", "* ?\n:properties:\n:custom_id: ?\n:z: ? ?\n:end:\n?\n",
    "* ?\n:properties:\n:visibility: all\n:unnumbered: t\n:end:\n", "* ?\n:properties:\n:header-args:?: :? ?\n:end:\n", "* *?* ?\n** [[id:?][?]]\n",
};
/// What applies to the document.
static const char* const WHOLE[] = {
    "#+title: ? ?\n", "#+title: ?\n?\n", "#+author: ?\n?\n", "#+language: ?\n", "#+email: ?\n", "#+creator: ?\n", "#+filetags: :?:?:\n?\n",
    "#+latex_class: ?\n", "#+latex_header: ?\n", "#+property: header-args:? :? ?\n", "#+startup: overview\n",
};

template <size_t N>
static std::string one_of(const char* name, const char* const (&table)[N]) {
    return filled(table[sx::pick(name, 0, (int)N - 1)]);
}
