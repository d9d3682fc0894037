// Text to document, with what the document refers to.
#pragma once
#include "symx.hpp"
#include <haxorg/base_lexer/base_token_tokenize.hpp>
#include <haxorg/parse/OrgParser.hpp>
#include <haxorg/parse/OrgTokenizer.hpp>
#include <haxorg/sem/SemConvert.hpp>
#include <haxorg/sem/SemOrg.hpp>

namespace doc {
using namespace org::parse;
using namespace org::sem;
using namespace hstd;
using osk = OrgSemKind;

struct Parsed {
    OrgTokenGroup   base, tokens;
    OrgNodeGroup    nodes{&tokens};
    SemId<Document> document;
    Parsed(std::string const& text) {
        base = tokenize(text, LexerParams{}, SourceFileId{0});
        OrgTokenizer tk{&tokens};
        tk.convert(base);
        Lexer<OrgTokenKind, OrgFill> lex{&tokens};
        OrgParser                    parser{&nodes};
        OrgId                        id = parser.parseFull(lex);
        OrgConverter                 conv{};
        document = conv.convertDocument(OrgAdapter(&nodes, id)).value();
    }
};

inline bool is(SemId<Org> const& n, osk k) { return n.value->getKind() == k; }
template <typename T>
T const& as(SemId<Org> const& n) { return static_cast<T const&>(*n.value); }

inline bool isLeaf(osk k) {
    switch (k) {
        case osk::Word:
        case osk::BigIdent:
        case osk::Space:
        case osk::Newline:
        case osk::Punctuation:
        case osk::RawText:
        case osk::Escaped: return true;
        default: return false;
    }
}

/// The text of a node without its marks.
inline void gather(Org const& n, std::string& out) {
    if (isLeaf(n.getKind())) { out += static_cast<Leaf const&>(n).text; }
    for (auto const& s : n.subnodes) { gather(*s.value, out); }
}
inline std::string plain(Org const& n) {
    std::string out;
    gather(n, out);
    return out;
}

inline void same(std::string const& got, std::string const& want, const char* what) {
    symx_check(got.size() == want.size(), what);
    for (size_t i = 0; i < got.size(); ++i) { symx_check(got[i] == want[i], what); }
}
} // namespace doc
