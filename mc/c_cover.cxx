// C03: every reading accounts for the whole text, in order, exactly once.
// Judged on the listed readings alone; the reference grammar is not used.
#include "real.h"
#include "spaces.h"

#include <stdexcept>

using namespace std;

namespace {

bool
thaiWordChar (char16_t c)
{
    return (c >= 0x0e01 && c <= 0x0e2e) || (c >= 0x0e30 && c <= 0x0e39)
           || (c >= 0x0e40 && c <= 0x0e45) || (c >= 0x0e47 && c <= 0x0e4c);
}

struct Unit { bool lit; U16 text; int end; };

// what the text consists of: Thai runs to be read and text to be quoted
vector<Unit>
unitsOf (const U16& t)
{
    vector<Unit> u;
    for (size_t i = 0; i < t.size(); ) {
        if (t[i] == u'.') {
            if (i == 0 || t[i-1] == u' ' || t[i-1] == u'.') u.push_back ({ true, u".", int (i + 1) });
            else u.back().end = i + 1;
            ++i;
            continue;
        }
        bool w = thaiWordChar (t[i]);
        size_t e = i;
        while (e < t.size() && t[e] != u'.' && thaiWordChar (t[e]) == w) ++e;
        u.push_back ({ !w, t.substr (i, e - i), int (e) });
        i = e;
    }
    return u;
}

}

// cases: dictionary, segmentation, text
struct CoverCheck : Check {
    map<string, unique_ptr<Parser>> parsers;
    string dict[2], error;

    void prepare() override
    {
        string src;
        for (auto& e : shippedEntries()) src += e.first + "\t" + e.second + "\n";
        try {
            dict[0] = compileDict ("shipped", src);
            dict[1] = compileDict ("small", "กา\tk_a_0@1,k_A_0@2;k_A_0@2\nก\t?_a_1@1\nกาเ\tm_A_0@3\nขนม\tc_a_1@-103,n_om4@3\n");
        } catch (const exception& e) { error = e.what(); }
    }
    void generate (const Emit& emit) override
    {
        emit ("D");
        auto all = [&] (const U16& s) { for (auto m : { "-0", "-1", "0", "1" }) emit ((m[1] ? m : string (m) + "1") + toU8 (s)); };
        spaceMixed (all, opt.thorough());
        spaceLong ([&] (const U16& s) { if (s.size() < 25) all (s); });
        spaceScale (all, opt.thorough() ? 1100 : 300);
        spaceAmbiguous (all, opt.thorough());
        // positions of five and six digits
        for (int n : { 9999, 10000, 32700, 32766, 32767, 32768, 65534, 65535, 65536, 100000, 140000 })
            for (auto w : { u"กา", u"ขนม", u"ขนม.ก.", u"เสือ 1 สบาย" }) {
                U16 x (n, u'x');
                all (x + w);
                all (u"ขนม" + x + w + x);
            }
        Put plain = [&] (const U16& s) { emit ("-0" + toU8 (s)); };
        Put seg = [&] (const U16& s) { emit ("01" + toU8 (s)); };
        spaceAllShort (plain, 3);
        spaceAllShort (seg, opt.thorough() ? 3 : 2);
        spaceWords (all, 1, 0);
        allStrings (u"กรตนอาิเ์.", 4, opt.thorough() ? 6 : 5, plain);
        static const char* const sep[] = { " ", "x", "1", ". ", ".", "..", " .", "ๆ", "ฯ", "\xcc\x81", "\xf0\x9f\x98\x80", "\n", "-", "\"", "(", ")@3," };
        auto& w = libWords();
        for (size_t i = 0; i < w.size(); i += opt.thorough() ? 11 : 101)
            for (auto s : sep) {
                all (toU16 (w[i] + s));
                all (toU16 (s + w[i]));
                all (toU16 (w[i] + s + w[(i + 1) % w.size()]));
            }
    }
    string show (const string& c) override { return c.size() < 2 ? c : c.substr (2) + " [dictionary, segmentation " + c.substr (0, 2) + "]"; }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c == "D") { if (!error.empty()) ctx.fail (error); return; }
        if (!error.empty()) return;
        string mode = c.substr (0, 2), text = c.substr (2);
        auto& p = parsers[mode];
        if (!p) {
            p.reset (new Parser (mode[1] == '1'));
            if (mode[0] != '-' && !p->loadExceptDict (dict[mode[0] - '0'].c_str())) ctx.fail ("dictionary refused");
        }
        U16 t = toU16 (text);
        auto dag = p->parseWord (text);
        auto edges = realEdges (dag);
        set<string> lang;
        if (!pathLanguage (edges, 30000, lang)) { ctx.add ("too_ambiguous_to_list"); return; }
        ctx.add ("readings", lang.size());
        auto units = unitsOf (t);
        // the printed list is the list of paths
        if (text.find ('\n') == string::npos && lang.size() < 2000) {
            set<string> want, got;
            for (auto s : lang) { for (auto& k : s) if (k == '\xff') k = ','; want.insert (s); }
            string o = textOutput (3, 0)->output (dag);
            if (!o.empty() && o.back() != '\n') ctx.fail ("unterminated line");
            for (auto& l : splitBy (o, '\n')) if (!l.empty()) got.insert (l);
            if (want != got) {
                string d;
                for (auto& s : want) d += s + " ";
                ctx.fail ("printed " + o + " but the graph has " + d);
            }
        }
        for (auto& r : lang) {
            auto labels = splitBy (r, '\xff');
            size_t k = 0;
            int at = 0;
            string why;
            bool open = false;
            for (auto& l : labels) {
                size_t a = l.rfind ('@');
                string body = l.substr (0, a);
                int end = stoi (l.substr (a + 1));
                if (k >= units.size()) { why = "goes on after the end"; break; }
                auto& u = units[k];
                bool lit = body[0] == '(';
                if (lit != u.lit) { why = lit ? "quotes word text" : "reads text that is not a word"; break; }
                if (lit) {
                    if (body != "(" + toU8 (u.text) + ")") { why = "quotes something else: " + body; break; }
                    if (end != u.end) { why = "literal ends at " + to_string (end) + " instead of " + to_string (u.end); break; }
                    at = end; ++k; open = false;
                    continue;
                }
                if (body.size() != 5) { why = "not a syllable: " + body; break; }
                if (end < 0) {
                    if (open) { why = "two intermediate syllables in a row"; break; }
                    open = true;
                    continue;
                }
                if (end <= at) { why = "does not advance at " + l; break; }
                if (end > u.end) { why = "runs over the end of its run at " + l; break; }
                at = end; open = false;
                if (end == u.end) ++k;
            }
            if (why.empty() && (k != units.size() || at != (int) t.size() || open)) why = "stops before the end";
            if (!why.empty()) {
                string s = r;
                for (auto& ch : s) if (ch == '\xff') ch = ',';
                ctx.fail ("reading " + s + " " + why);
                return;
            }
        }
        // every edge begins where it claims to
        for (auto& e : edges) {
            int end = stoi (e.label.substr (e.label.rfind ('@') + 1));
            if (end != e.to) ctx.fail ("edge to " + to_string (e.to) + " labelled " + e.label);
        }
        string sig;
        for (auto& u : units) sig += u.lit ? "L" + toU8 (u.text) : "w";
        if (!lang.empty()) {
            ctx.see ("nontrivial", sig + to_string (lang.size()));
            if (units.size() > 2) ctx.sample (text);
        }
    }
};
REGISTER_CHECK (CoverCheck, "cover");
