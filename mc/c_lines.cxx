// C22: the n-th reading is the same reading in every notation and structure.
#include "real.h"
#include "jsonread.h"
#include "spaces.h"

#include <algorithm>

using namespace std;
using namespace json;

// cases: segmentation digit, dictionary digit, text
struct LinesCheck : Check {
    string dict, error;
    map<string, unique_ptr<Parser>> ps;
    unique_ptr<ISylOutput> so[5];
    unique_ptr<IOutput> out[2][5];

    void prepare() override
    {
        try {
            dict = compileDict ("l", "กา\tk_A_0@1,*_*_*@2;k_A_0@2;k_A_1@2;s_A_0@2\nกก\t*_*_*@1,k_ok1@2;k_ok1@1,*_*_*@2;?_a_1@2;p_a_1@2;b_a_1@2\n"
                                     "กาน\tk_A_0@2,n_a_3@3;k_An0@3;k_A_0@1,n_a_3@3;r_An0@3\nนก\tn_ok3@-2,P_a_0@2;n_o_3@1,k_o_1@2\n");
        } catch (const exception& e) { error = e.what(); }
    }
    void setup (Ctx&) override
    {
        for (int n = 0; n < 5; ++n) { so[n] = sylOutput (n); for (int s = 0; s < 2; ++s) out[s][n] = textOutput (n, s); }
    }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        auto both = [&] (const U16& s) { for (auto k : { "00", "11" }) emit (k + toU8 (s)); };
        allStrings (THAI, 0, 2, both);
        allStrings (u"กานเ 1.", 0, th ? 7 : 6, both);
        allStrings (u"กรตนอาิเ์ข", 3, th ? 6 : 5, [&] (const U16& s) { emit ("00" + toU8 (s)); });
        allStrings (u"สรมหงอ", 3, th ? 7 : 6, [&] (const U16& s) { emit ("01" + toU8 (s)); });
        spaceScale (both, th ? 1100 : 300);
        spaceAmbiguous (both, th);
        for (auto& w : libWords()) for (auto k : { "00", "12" }) emit (k + w);
        for (auto& e : shippedEntries()) for (auto k : { "02", "12" }) { emit (k + e.first); emit (k + e.first + "กลม"); }
    }
    string show (const string& c) override { return c.substr (2) + " [segmentation, dictionary " + c.substr (0, 2) + "]"; }
    static Syl back (const string& raw)
    {
        if (raw == " ") return Syl::Blank;
        size_t at = raw.rfind ('@');
        if (raw[0] == '(') return Syl (stoi (raw.substr (at + 1)), toU16 (raw.substr (1, at - 2)));
        return Syl (raw);
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (!error.empty()) { ctx.fail (error); return; }
        auto& p = ps[c.substr (0, 2)];
        if (!p) {
            p.reset (new Parser (c[0] == '1'));
            if (c[1] != '0') p->loadExceptDict ((c[1] == '1' ? dict : opt.bin + "/except.dic").c_str());
        }
        auto dag = p->parseWord (c.substr (2));
        vector<Seq> raw;
        try { for (auto& x : Json (out[1][3]->output (dag)).all().list) raw.push_back (strings (x)); }
        catch (const runtime_error& e) { ctx.fail (string ("raw JSON ") + e.what()); return; }
        ctx.add ("readings", raw.size());
        string text = out[0][3]->output (dag);
        for (int n = 0; n < 5; ++n) {
            vector<Seq> want;
            vector<string> line;
            for (auto& q : raw) {
                Seq r;
                SylString ss;
                for (auto& y : q) { Syl s = back (y); r.push_back (so[n]->output (s)); ss += s; }
                want.push_back (r);
                line.push_back (dynamic_cast<DelimOutput*> (out[0][n].get()) ? dynamic_cast<DelimOutput*> (out[0][n].get())->output (ss)
                                                                              : RomanOutput().output (ss));
            }
            vector<Seq> got;
            string j = out[1][n]->output (dag);
            try { for (auto& x : Json (j).all().list) got.push_back (strings (x)); }
            catch (const runtime_error& e) { ctx.fail (string ("JSON ") + e.what() + ": " + j.substr (0, 300)); return; }
            if (got != want) { ctx.fail ("JSON list differs in order or number: " + j.substr (0, 300)); return; }
            auto l = splitBy (out[0][n]->output (dag), '\n');
            if (!l.empty()) l.pop_back();
            if (l != line) { ctx.fail ("plain list differs in order or number: " + out[0][n]->output (dag).substr (0, 300)); return; }
            ctx.add ("lists", 2);
        }
        // nothing is listed twice
        auto sorted = raw;
        sort (sorted.begin(), sorted.end());
        if (adjacent_find (sorted.begin(), sorted.end()) != sorted.end()) ctx.fail ("a reading is listed twice: " + text.substr (0, 300));
        if (raw.size() > 1) ctx.see ("nontrivial", text);
        if (raw.size() > 8) ctx.sample (c.substr (2));
    }
};
REGISTER_CHECK (LinesCheck, "lines");
