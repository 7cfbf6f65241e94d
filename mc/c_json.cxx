// C10: all output structures are well-formed and describe the same readings.
#include "real.h"
#include "jsonread.h"
#include "spaces.h"

using namespace std;
using namespace json;

namespace {

void
walk (const multimap<int, const pair<int, Syl>*>& by, int node, vector<Syl>& pre, vector<vector<Syl>>& out, size_t limit)
{
    auto r = by.equal_range (node);
    if (r.first == r.second) { if (!pre.empty()) out.push_back (pre); return; }
    for (auto it = r.first; it != r.second && out.size() < limit; ++it) {
        pre.push_back (it->second->second);
        walk (by, it->second->first, pre, out, limit);
        pre.pop_back();
    }
}

set<Seq>
sounds (const set<Seq>& s)
{
    set<Seq> r;
    for (auto q : s) {
        for (auto& x : q) { size_t p = x.rfind ('@'); if (p != string::npos) x.erase (p); }
        r.insert (q);
    }
    return r;
}

string
joinSet (const set<Seq>& s)
{
    string r;
    int n = 0;
    for (auto& q : s) { r += "["; for (auto& x : q) r += x + "|"; r += "]"; if (++n > 4) { r += "..."; break; } }
    return r;
}

}

// cases: segmentation digit, dictionary digit, text
struct JsonCheck : Check {
    string dict, error;
    map<string, unique_ptr<Parser>> ps;
    unique_ptr<ISylOutput> so[5];
    unique_ptr<IOutput> out[3][5];

    void prepare() override
    {
        try {
            // readings with blanks, same sounds by different ways, long and short alternatives
            dict = compileDict ("j", "กา\tk_A_0@1,*_*_*@2;k_A_0@2\nกก\t*_*_*@1,k_ok1@2;k_ok1@1,*_*_*@2;?_a_1@2\n"
                                     "กาน\tk_A_0@2,n_a_3@3;k_An0@3;k_A_0@1,n_a_3@3\nาก\t?_A_0@1,?_ok1@2;g_A_0@1,g_ok2@2\n"
                                     "นก\tn_ok3@-2,P_a_0@2;n_o_3@1,k_o_1@2\n");
        } catch (const exception& e) { error = e.what(); }
    }
    void setup (Ctx&) override
    {
        for (int n = 0; n < 5; ++n) { so[n] = sylOutput (n); for (int s = 0; s < 3; ++s) out[s][n] = textOutput (n, s); }
    }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        U16 a = u"กาเ์. 1\"\\";
        a += char16_t (0x0301); a += char16_t (1); a += u'ๆ';
        Put p0 = [&] (const U16& s) { emit ("00" + toU8 (s)); };
        Put p1 = [&] (const U16& s) { emit ("11" + toU8 (s)); };
        allStrings (a, 0, th ? 5 : 4, p0);
        // every character in several places
        vector<U16> ch;
        for (uint32_t c = 0; c < 0x10000; ++c) if (c < 0xd800 || c >= 0xe000) ch.push_back (U16 (1, char16_t (c)));
        ch.push_back (u"\U00010000"); ch.push_back (u"\U0001F600"); ch.push_back (u"\U0010FFFF");
        for (auto& c : ch) {
            p0 (c);
            if (c[0] < 0x180 || (c[0] >= 0xe00 && c[0] < 0xe80) || c[0] > 0xd000) {
                p0 (u"กา" + c); p0 (c + u"กา"); p0 (c + c); p0 (u"ขนม" + c + u"กรรม"); p1 (c + u"ก"); p0 (u"." + c);
                for (char16_t d : { u'"', u'\\', u'\n', u'/', u'u', u' ' }) { p0 (c + U16 (1, d)); p0 (U16 (1, d) + c); }
            }
        }
        allStrings (THAI, 1, 2, p0);
        allStrings (u"กรตนอาิเ์ข", 3, th ? 6 : 5, p0);
        allStrings (u"กานเ ", 0, th ? 7 : 6, p1);
        spaceScale (p0, th ? 1100 : 300);
        spaceScale (p1, th ? 600 : 130);
        spaceAmbiguous (p0, th);
        spaceAmbiguous (p1, false);
        auto& w = libWords();
        for (size_t i = 0; i < w.size(); i += 1) emit ((i % 2 ? "00" : "10") + w[i]);
        for (size_t i = 0; i < w.size(); i += th ? 3 : 37) { emit ("00" + w[i] + "\"" + w[(i + 5) % w.size()]); emit ("11" + w[i] + w[(i + 5) % w.size()]); }
    }
    string show (const string& c) override { return c.substr (2) + " [segmentation, dictionary " + c.substr (0, 2) + "]"; }
    void eval (const string& c, Ctx& ctx) override
    {
        if (!error.empty()) { ctx.fail (error); return; }
        auto& p = ps[c.substr (0, 2)];
        if (!p) {
            p.reset (new Parser (c[0] == '1'));
            if (c[1] == '1') p->loadExceptDict (dict.c_str());
        }
        auto dag = p->parseWord (c.substr (2));
        vector<pair<int, Syl>> edges;
        vector<int> from;
        for (auto it = dag.outBegin(); it != dag.outEnd(); ++it) {
            from.push_back (it->first);
            edges.push_back ({ it->second.target, it->second.edgeVal });
        }
        multimap<int, const pair<int, Syl>*> by;
        for (size_t i = 0; i < edges.size(); ++i) by.emplace (from[i], &edges[i]);
        vector<vector<Syl>> paths;
        vector<Syl> pre;
        walk (by, 0, pre, paths, 3001);
        if (paths.size() > 3000) { ctx.add ("too_ambiguous_to_list"); return; }
        if (!paths.empty()) { ctx.add ("words_with_readings"); }
        string sig;
        for (int n = 0; n < 5; ++n) {
            set<Seq> want;
            set<string> lines;
            for (auto& pt : paths) {
                Seq q;
                string l;
                bool sep = false;
                const Syl* prev = nullptr;
                for (auto& y : pt) {
                    string o = so[n]->output (y);
                    q.push_back (o);
                    if (y == Syl::Blank) { l += " "; sep = false; }
                    else {
                        if (n == 1) {
                            if (sep && (y.iCons1() == EInitConsSound::A
                                        || (y.iCons1() == EInitConsSound::NGA && prev->eCons() == EEndConsClass::NONE)))
                                l += "-";
                        } else if (sep) l += n == 3 ? "," : n == 2 ? " " : "-";
                        l += o;
                        sep = true;
                    }
                    prev = &y;
                }
                want.insert (q);
                lines.insert (l);
            }
            ctx.add ("structures", 3);
            // JSON
            string j = out[1][n]->output (dag), g = out[2][n]->output (dag), d = out[0][n]->output (dag);
            try {
                if (j.find ('\n') != string::npos) throw runtime_error ("line break");
                set<Seq> got;
                for (auto& x : Json (j).all().list) got.insert (strings (x));
                if (got != want) throw runtime_error ("lists " + joinSet (got) + " instead of " + joinSet (want));
            } catch (const runtime_error& e) { ctx.fail (string ("JSON ") + e.what() + ": " + j.substr (0, 300)); return; }
            // grouped JSON
            try {
                if (g.find ('\n') != string::npos) throw runtime_error ("line break");
                set<Seq> got;
                Node top = Json (g).all();
                for (auto& chain : top.list) {
                    if (chain.str || chain.list.empty()) throw runtime_error ("empty chain");
                    vector<Seq> part { {} };
                    for (auto& group : chain.list) {
                        if (group.str || group.list.empty()) throw runtime_error ("empty group");
                        vector<Seq> next;
                        for (auto& a : part) for (auto& alt : group.list) {
                            Seq q = a;
                            for (auto& s : strings (alt)) q.push_back (s);
                            next.push_back (q);
                        }
                        part.swap (next);
                        if (part.size() > 200000) throw runtime_error ("far too many readings");
                    }
                    got.insert (part.begin(), part.end());
                }
                if (top.list.size() > 1) ctx.add ("several_chains");
                // groups hold sounds; positions of merged alternatives are not claimed
                set<Seq> a = n == 3 ? sounds (got) : got, b = n == 3 ? sounds (want) : want;
                if (a != b) throw runtime_error ("stands for " + joinSet (a) + " instead of " + joinSet (b));
            } catch (const runtime_error& e) { ctx.fail (string ("grouped JSON ") + e.what() + ": " + g.substr (0, 300)); return; }
            // delimited; a line break in a literal makes lines ambiguous
            if (c.find ('\n') == string::npos) {
                set<string> got;
                if (!d.empty() && d.back() != '\n') { ctx.fail ("delimited output not ended: " + d); return; }
                auto ls = splitBy (d, '\n');
                if (!ls.empty()) ls.pop_back();
                for (auto& l : ls) got.insert (l);
                if (got != lines) { ctx.fail ("delimited output differs from the readings: " + d.substr (0, 300)); return; }
            }
            if (n == 2) sig = g;
        }
        if (!paths.empty()) ctx.see ("nontrivial", sig);
        if (paths.size() > 12) ctx.sample (c.substr (2));
    }
};
REGISTER_CHECK (JsonCheck, "json");
