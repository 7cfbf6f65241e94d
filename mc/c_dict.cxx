// C15: a compiled dictionary answers exactly the entries it was compiled from.
#include "real.h"
#include "spaces.h"
#include "dict/dict.h"

#include <unistd.h>

using namespace std;

typedef vector<pair<U16, string>> Entries;

// cases: "S" sequence of key numbers (two per key: another datum)
//        "K" distance in length of long words, size of data
//        "L" number of entries, size of data; "B" number of library words
//        "W" number of entries with much data
//        "I" pair of probe texts looked up in every interleaving
//        "D" shape of the data
struct DictCheck : Check {
    vector<U16> keys, probes;

    DictCheck()
    {
        allStrings (u"กา", 1, 3, [&] (const U16& s) { keys.push_back (s); });
        keys.push_back (u"๛");
        keys.push_back (u"กา๛า");
        allStrings (u"กาข", 0, 5, [&] (const U16& s) { probes.push_back (s); });
        for (auto s : { u"กา๛า", u"๛", u"1กา", u"กา1กา", u"ก า", u"ก๜า", u"ก฀า", u"xกากาx", u"😀กา" }) probes.push_back (s);
        for (size_t n : { 1, 2, 3 }) {
            U16 s = U16 (u"กากา").substr (0, n);
            s += u'\0';
            probes.push_back (s);
            probes.push_back (s + u"กา");
            probes.push_back (u"ก" + s + s);
        }
    }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        int n = keys.size();
        for (int m : { 70000, 36000 }) emit ("W" + to_string (m));
        emit ("S");
        auto k = [] (int i) { return string (1, char ('A' + i)); };
        for (int a = 0; a < n; ++a) {
            emit ("S" + k (a));
            for (int b = 0; b < n; ++b) {
                emit ("S" + k (a) + k (b));
                for (int c = 0; c < n; ++c) {
                    emit ("S" + k (a) + k (b) + k (c));
                    if (th) for (int d = 0; d < 6; ++d) emit ("S" + k (a) + k (b) + k (c) + k (d));
                }
            }
        }
        for (int m = 1; m <= 5; ++m) for (int l = 0; l <= 230; l += th ? 1 : m > 2 ? 3 : 1) emit ("L" + to_string (m) + " " + to_string (l));
        for (int l : { 1, 7, 100, 240 }) for (int m : { 8, 9, 16, 17, 33, 64, 100, 150 }) emit ("L" + to_string (m) + " " + to_string (l));
        for (int step = 1; step <= 80; ++step) for (int l : { 1, 12 }) emit ("K" + to_string (step) + " " + to_string (l));
        for (int m : { 50, 500, 5000, 25000 }) emit ("B" + to_string (m));
        for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) emit ("I" + to_string (a) + to_string (b));
        for (int b = 1; b < 256; ++b) if (b != '\n') emit ("D" + to_string (b));
    }
    string show (const string& c) override
    {
        if (c[0] != 'S') return c;
        string r;
        for (size_t i = 1; i < c.size(); ++i) r += toU8 (keys[c[i] - 'A']) + " ";
        return "entries " + r;
    }
    static string compile (const Entries& e)
    {
        string src;
        for (auto& x : e) src += toU8 (x.first) + "\t" + x.second + "\n";
        return compileDict ("d", src);
    }
    static vector<pair<int, string>> expect (const map<U16, string>& m, const U16& text, size_t at)
    {
        vector<pair<int, string>> r;
        for (size_t e = at + 1; e <= text.size(); ++e) {
            auto it = m.find (text.substr (at, e - at));
            if (it != m.end()) r.push_back ({ (int) e, it->second });
        }
        return r;
    }
    static vector<pair<int, string>> lookup (const Dict& d, const U16& text, size_t at)
    {
        vector<pair<int, string>> r;
        Match m (text, at, &d);
        while (m.findNext()) r.push_back ({ m.getCurPos(), m.getData() });
        return r;
    }
    static string shown (const vector<pair<int, string>>& v)
    {
        string s;
        for (auto& x : v) s += " " + to_string (x.first) + "=" + x.second.substr (0, 30);
        return s.empty() ? " nothing" : s;
    }
    bool probe (const Dict& d, const map<U16, string>& m, const U16& text, Ctx& ctx)
    {
        for (size_t at = 0; at <= text.size(); ++at) {
            auto want = expect (m, text, at), got = lookup (d, text, at);
            ctx.add ("lookups");
            ctx.add ("found", got.size());
            if (want != got) {
                ctx.fail ("looking up " + jsonStr (toU8 (text)) + " at " + to_string (at) + ": found" + shown (got) + ", not" + shown (want));
                return false;
            }
        }
        return true;
    }
    void all (const Entries& e, Ctx& ctx, const vector<U16>& texts)
    {
        map<U16, string> m;
        for (auto& x : e) m[x.first] = x.second;
        string path;
        try { path = compile (e); } catch (const exception& x) { ctx.fail (x.what()); return; }
        Dict d (path.c_str());
        if (!d.trie()) ctx.fail ("compiled dictionary is refused");
        else {
            for (auto& t : texts) if (!probe (d, m, t, ctx)) break;
            // once more: looking up has changed nothing
            for (size_t i = 0; i < texts.size() && i < 50; ++i) if (!probe (d, m, texts[i], ctx)) break;
        }
        string f;
        for (auto& x : m) f += toU8 (x.first) + "=" + x.second + ";";
        ctx.see ("nontrivial", f);
        if (e.size() == 3) ctx.sample (f);
        unlink (path.c_str());
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c[0] == 'S') {
            Entries e;
            for (size_t i = 1; i < c.size(); ++i) e.push_back ({ keys[c[i] - 'A'], "datum" + to_string (i) + string (i * 3, 'a' + i) });
            all (e, ctx, probes);
        } else if (c[0] == 'L') {
            int n, l;
            sscanf (c.c_str() + 1, "%d %d", &n, &l);
            Entries e;
            vector<U16> texts;
            for (int i = 0; i < n; ++i) {
                U16 w { char16_t (0xe01 + i % 44), char16_t (0xe01 + i / 44) };
                e.push_back ({ w, string (l, 'a' + i % 26) });
                texts.push_back (w + u"ก");
            }
            all (e, ctx, texts);
        } else if (c[0] == 'K') {
            // long words that begin with each other
            int step, l;
            sscanf (c.c_str() + 1, "%d %d", &step, &l);
            Entries e;
            U16 w;
            for (int i = 1; i <= 80; ++i) {
                w += char16_t (0xe01 + i * i % 46);
                if (i % step == 0 && 3 * i + l < 254) e.push_back ({ w, string (l, 'a' + i % 26) });
            }
            all (e, ctx, { w, w + w, w.substr (1) + w, w.substr (0, step) + u"x", w.substr (0, step - 1) });
        } else if (c[0] == 'B') {
            Entries e;
            vector<U16> texts;
            auto& w = libWords();
            size_t n = atoi (c.c_str() + 1), step = max<size_t> (1, w.size() / n);
            // descending, so that no order of insertion is assumed
            for (size_t i = w.size(); i-- > 0; ) if (i % step == 0) {
                e.push_back ({ toU16 (w[i]), to_string (i) + string (i % 40, '.') });
                texts.push_back (e.back().first + u"กา");
            }
            all (e, ctx, texts);
        } else if (c[0] == 'W') {
            // much data
            Entries e;
            vector<U16> texts;
            int n = atoi (c.c_str() + 1);
            for (int i = 0; i < n; ++i) {
                e.push_back ({ U16 { char16_t (0xe01 + i / 1849), char16_t (0xe01 + i / 43 % 43), char16_t (0xe01 + i % 43), u'า' }, to_string (i) + string (235, 'a' + i % 26) });
                if (i % 7 == 0 || i + 50 > n) texts.push_back (e.back().first);
            }
            all (e, ctx, texts);
        } else if (c[0] == 'D') {
            // any byte may be in the data
            string b (1, char (atoi (c.c_str() + 1)));
            all ({ { u"ก", b }, { u"กา", "x" + b + "y" }, { u"ข", b + b } }, ctx, { u"กา", u"ข" });
        } else {
            static const char16_t* const text[] = { u"กากา", u"กาก", u"าก", u"ขกา", u"กกกก", u"" };
            Entries e = { { u"ก", "1" }, { u"กา", "2" }, { u"กากา", "4" }, { u"กก", "22" }, { u"า", "a" }, { u"กาก", "3" } };
            map<U16, string> m;
            for (auto& x : e) m[x.first] = x.second;
            string path = compile (e);
            {
                Dict d (path.c_str());
                U16 ta = text[c[1] - '0'], tb = text[c[2] - '0'];
                auto wa = expect (m, ta, 0), wb = expect (m, tb, 0);
                wa.push_back ({ -1, "" }); wb.push_back ({ -1, "" });
                // every interleaving of the steps of two lookups
                int na = wa.size(), nb = wb.size();
                for (int bits = 0; bits < 1 << (na + nb); ++bits) {
                    if (__builtin_popcount (bits) != na) continue;
                    Match ma (ta, 0, &d), mb (tb, 0, &d);
                    int ia = 0, ib = 0;
                    ctx.add ("interleavings");
                    for (int k = 0; k < na + nb; ++k) {
                        bool a = bits >> k & 1;
                        Match& x = a ? ma : mb;
                        auto& w = a ? wa[ia++] : wb[ib++];
                        bool f = x.findNext();
                        if (f != (w.first >= 0) || (f && (x.getCurPos() != w.first || x.getData() != w.second))) {
                            ctx.fail ("interleaved lookups of " + toU8 (ta) + " and " + toU8 (tb) + " disturb each other");
                            k = na + nb;
                        }
                        // what was found earlier stays readable
                        if (ia > 0 && wa[ia - 1].first >= 0 && (ma.getCurPos() != wa[ia - 1].first || ma.getData() != wa[ia - 1].second)) ctx.fail ("a found entry changed");
                        if (ib > 0 && wb[ib - 1].first >= 0 && (mb.getCurPos() != wb[ib - 1].first || mb.getData() != wb[ib - 1].second)) ctx.fail ("a found entry changed");
                    }
                    if (!ctx.failMsgs.empty()) break;
                }
            }
            unlink (path.c_str());
        }
    }
};
REGISTER_CHECK (DictCheck, "dict");
