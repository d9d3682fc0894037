// Writing a document as text and reading that text gives the document back.
#include "org_equal.hpp"
#include "org_forms.hpp"
using namespace doc;

static std::string write(Parsed const& p) {
    fmt::verif_enabled = true;
    std::string out    = org::algo::Formatter::format(p.document.asOrg());
    fmt::verif_enabled = false;
    return out;
}

static void round_trip(std::string const& text) {
    Parsed      first{text};
    std::string written = write(first);
    SX_REACH("written");
    Parsed second{written};
    SX_CHECK(equal(first.document, second.document), "the text that was written gives the same document");
    std::string again = write(second);
    same(again, written, "writing it again gives the same text");
    SX_REACH("end");
}

extern "C" void inline_one() { round_trip(one_of("p", INLINE) + "\n"); }
extern "C" void inline_two() { 
    // Any piece between, before or after the main marks.
    static const char* const MAIN[] = {"*?*", "~?~", "[[id:?][?]]", "?"};
    std::string a = one_of("p", INLINE), b = one_of("q", MAIN);
    round_trip(sx::pick("first", 0, 1) ? a + " " + b + "\n" : b + " " + a + "\n");
}
extern "C" void statement_one() { round_trip(one_of("p", STMT)); }
extern "C" void statement_in_heading() { round_trip("* h\n" + one_of("p", STMT)); }
extern "C" void statement_then_text() { round_trip(one_of("p", STMT) + (sx::pick("gap", 0, 1) ? "\nz\n" : "z\n")); }
extern "C" void text_then_statement() { round_trip((sx::pick("gap", 0, 1) ? "z\n\n" : "z\n") + one_of("p", STMT)); }
extern "C" void statement_two() {
#ifdef TIER_THOROUGH
    std::string a = one_of("q", STMT);
#else
    static const char* const MAIN[] = {"- ?\n", "| ? |\n", "#+begin_src ?\n?\n#+end_src\n", "#+name: ?\n"};
    std::string              a      = one_of("q", MAIN);
#endif
    round_trip(a + (sx::pick("gap", 0, 1) ? "\n" : "") + one_of("p", STMT));
}
extern "C" void heading_one() { round_trip(one_of("p", HEADING)); }
extern "C" void heading_two() {
    static const char* const MAIN[] = {"* ?\n", "** ? :?:\n", "?\n"};
    round_trip(one_of("q", MAIN) + one_of("p", HEADING));
}
extern "C" void whole_one() { round_trip(one_of("p", WHOLE)); }
extern "C" void inline_inside() {
    static const char* const BEFORE[] = {"- ", "* ", "* TODO [#A] ", "- [ ] ", "#+title: ", "#+begin_quote\n", "- z\n  ", "z\n"};
    static const char* const AFTER[]  = {"\n", "\n", " :t:\n", "\n", "\n", "\n#+end_quote\n", "\n", "\nz\n"};
    int                      k        = sx::pick("place", 0, 7);
    round_trip(BEFORE[k] + one_of("p", INLINE) + AFTER[k]);
}
