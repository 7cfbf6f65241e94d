// Strict JSON reader for nested lists of strings.
#ifndef MC_JSONREAD_H
#define MC_JSONREAD_H

#include "common.h"

#include <stdexcept>

namespace json {

using std::string;
using std::vector;
using std::runtime_error;
using std::to_string;

struct Node { bool str; string s; vector<Node> list; };

struct Json {
    const string& t;
    size_t i = 0;
    explicit Json (const string& x) : t (x) {}
    [[noreturn]] void bad (const char* why) { throw runtime_error (string (why) + " at byte " + to_string (i)); }
    char get() { if (i >= t.size()) bad ("unexpected end"); return t[i++]; }
    unsigned hex4()
    {
        unsigned v = 0;
        for (int k = 0; k < 4; ++k) {
            char c = get();
            if (!isxdigit ((unsigned char) c)) bad ("bad escape");
            v = v * 16 + (isdigit ((unsigned char) c) ? c - '0' : tolower (c) - 'a' + 10);
        }
        return v;
    }
    Node value()
    {
        char c = get();
        if (c == '[') {
            Node n { false, "", {} };
            if (i < t.size() && t[i] == ']') { ++i; return n; }
            for (;;) {
                n.list.push_back (value());
                c = get();
                if (c == ']') return n;
                if (c != ',') bad ("expected , or ]");
            }
        }
        if (c != '"') bad ("expected a list or a string");
        Node n { true, "", {} };
        U16 high;
        while ((c = get()) != '"') {
            if ((unsigned char) c < 0x20) bad ("control character in a string");
            if (c != '\\') { n.s += c; continue; }
            c = get();
            switch (c) {
            case '"': case '\\': case '/': n.s += c; break;
            case 'b': n.s += '\b'; break;
            case 'f': n.s += '\f'; break;
            case 'n': n.s += '\n'; break;
            case 'r': n.s += '\r'; break;
            case 't': n.s += '\t'; break;
            case 'u': {
                unsigned v = hex4();
                if (v >= 0xd800 && v < 0xdc00) {
                    if (get() != '\\' || get() != 'u') bad ("lone surrogate");
                    unsigned w = hex4();
                    if (w < 0xdc00 || w > 0xdfff) bad ("lone surrogate");
                    n.s += toU8 (U16 { char16_t (v), char16_t (w) });
                } else if (v >= 0xdc00 && v < 0xe000) bad ("lone surrogate");
                else n.s += toU8 (U16 (1, char16_t (v)));
                break;
            }
            default: bad ("bad escape");
            }
        }
        return n;
    }
    Node all()
    {
        Node n = value();
        if (i != t.size()) bad ("text after the value");
        if (n.str) bad ("not a list");
        return n;
    }
};

typedef vector<string> Seq;

inline Seq
strings (const Node& n)
{
    Seq r;
    if (n.str) throw runtime_error ("string where a list is due");
    for (auto& x : n.list) { if (!x.str) throw runtime_error ("list where a string is due"); r.push_back (x.s); }
    return r;
}

}

#endif
