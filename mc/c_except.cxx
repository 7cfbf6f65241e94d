// C06: exception entries override the rules exactly where they apply.
#include "judge.h"
#include "spaces.h"

using namespace std;

typedef vector<pair<string, string>> Entries;

struct ExceptCheck : Check {
    vector<Entries>      dicts;             // last one is the shipped one
    vector<string>       path, error;
    vector<ref::Lexicon> lex;
    int                  first2 = 0;        // where the second family begins
    map<pair<int, int>, unique_ptr<Parser>> parsers;

    void prepare() override
    {
        // nested, overlapping, ending before a sign, several alternatives of
        // different lengths, intermediate positions, a period-bound word
        static const Entries pool = {
            { "กา",   "d_A_2@2" },
            { "กาน",  "b_i_0@1,s_U_4@3" },
            { "ก",    "p_a_1@1;f_Om3@1" },
            { "นกา",  "h_Ew0@3;j_a_0@1,y_Ik2@2,m_o_1@3" },
            { "ารา",  "rrO_4@3" },
            { "รา",   "w_a_0@-102,w_Y_0@2" },
            { "กากา", "kwAt1@2,c_X_0@4;k_A_0@2,k_A_0@4" },
            { "น",    "t_Eg2@1" },
            { "เก",   "l_W_3@2" },
        };
        int n = pool.size();
        dicts.push_back ({});
        for (int a = 0; a < n; ++a) {
            dicts.push_back ({ pool[a] });
            for (int b = a + 1; b < n; ++b) {
                dicts.push_back ({ pool[a], pool[b] });
                for (int c = b + 1; c < n; ++c) dicts.push_back ({ pool[a], pool[b], pool[c] });
            }
        }
        first2 = dicts.size();
        // every selection of words that begin with each other
        static const Entries chain = {
            { "ก",     "k_A_1@1;k_a_2@1;k_e_3@1;k_i_4@1;k_o_0@1;k_u_1@1;k_x_2@1;k_y_3@1;k_z_4@1;k_w_0@1;k_t_1@1;k_c_2@1" },
            { "กบ",    "k_I_1@2" },
            { "กบด",   "k_U_1@1,b_a_1@-103,d_i_0@3;k_Ut1@3" },
            { "กบดม",  "k_E_1@4" },
            { "กบดมน", "k_Og3@2,m_Ow4@5;k_a_1@1,b_a_1@2,d_a_1@3,m_a_3@4,n_a_3@5" },
        };
        for (int m = 1; m < 32; ++m) {
            Entries e;
            for (int k = 0; k < 5; ++k) if (m >> k & 1) e.push_back (chain[k]);
            dicts.push_back (e);
        }
        // many alternatives and long words
        Entries large;
        string many, word, data, pos;
        for (int i = 0; i < 24; ++i) many += (i ? ";" : "") + string (1, "kcgjydtnbpfm"[i % 12]) + (i < 12 ? "_A_0@2" : "_I_3@2");
        large.push_back ({ "กา", many });
        for (int i = 1; i <= 16; ++i) {
            word += "นร";
            data += (i > 1 ? "," : "") + string ("n_or0@") + to_string (2 * i);
            if (i == 2 || i == 9 || i == 16) { string d = data; for (auto& ch : d) if (ch == 'r') ch = 'n'; large.push_back ({ word, d }); }
        }
        dicts.push_back (large);
        dicts.push_back (pool);
        dicts.push_back (shippedEntries());
        for (size_t i = 0; i < dicts.size(); ++i) {
            string src;
            for (auto& e : dicts[i]) src += e.first + "\t" + e.second + "\n";
            string err, p;
            try { p = compileDict ("d" + to_string (i), src); }
            catch (const exception& e) { err = e.what(); }
            path.push_back (p);
            error.push_back (err);
            lex.push_back (lexiconOf (dicts[i]));
        }
    }
    void generate (const Emit& emit) override
    {
        int n = dicts.size();
        for (int i = 0; i < n; ++i) emit (to_string (i) + ":L:");
        auto put = [&] (int d, const U16& s) {
            emit (to_string (d) + ":0:" + toU8 (s));
            emit (to_string (d) + ":1:" + toU8 (s));
        };
        for (int i = first2; i + 2 < n; ++i) {
            allStrings (u"กบดมา", 0, opt.thorough() ? 6 : 5, [&] (const U16& s) { put (i, s); });
            // the chain before and after every character
            for (auto c : THAI + u". 1x")
                for (int k = 0; k <= 5; ++k) {
                    U16 w = U16 (u"กบดมน").substr (0, k);
                    put (i, w + c);
                    put (i, w + c + u"า");
                    put (i, c + w);
                    put (i, c + w + c);
                    put (i, w + w.substr (0, 1) + c);
                }
        }
        for (int i = 0; i + 1 < n; ++i) {
            if (i >= first2 && i + 2 < n) continue;
            int k = dicts[i].size();
            allStrings (u"กานร", 0, opt.thorough() ? 7 : 6, [&] (const U16& s) { put (i, s); });
            if (k <= 2 || opt.thorough())
                allStrings (u"กาเน. ", 1, 4, [&] (const U16& s) { put (i, s); });
        }
        allStrings (u"กานรเ.", 0, opt.thorough() ? 7 : 6, [&] (const U16& s) { put (n - 2, s); });
        {
            U16 w;
            for (int k = 0; k < 18; ++k) {
                w += u"นร";
                for (auto t : { u"", u"กา", u"นะ", u" ", u"า", u"น" }) { put (n - 3, w + t); put (n - 3, U16 (u"กา") + w + t); put (n - 3, w.substr (1) + t); put (n - 3, U16 (t) + w); }
            }
            allStrings (u"กานร", 0, 5, [&] (const U16& s) { put (n - 3, s); });
        }
        spaceScale ([&] (const U16& s) { put (n - 2, s); put (n - 1, s); put (n - 1, s + u"กาน" + s.substr (0, 40) + u"ทราบ"); }, opt.thorough() ? 1100 : 300);
        for (int k : { 99, 100, 101, 199, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 400, 650, 655, 1000, 3300, 10000, 33000, 66000, 100000 })
            for (auto w : { u"รา", u"กา", u"ขนม", u"นกาน", u"ทราบ" }) {
                U16 x (k, u'x');
                for (int dd : { n - 2, n - 1 }) { put (dd, x + w); put (dd, x + w + u"กา1" + w); }
            }
        // shipped dictionary
        for (auto& w : libWords()) put (n - 1, toU16 (w));
        static const char* const ctx[] = { "กา", "ก", "ไ", "นะ", "มา", "ร", ".", " ", "1", "์", "่", "า", "สน" };
        for (auto& e : dicts[n - 1]) {
            put (n - 1, toU16 (e.first));
            for (auto a : ctx) {
                put (n - 1, toU16 (e.first + a));
                put (n - 1, toU16 (a + e.first));
                if (opt.thorough()) for (auto b : ctx) put (n - 1, toU16 (a + e.first + b));
            }
            put (n - 1, toU16 (e.first + e.first));
            U16 u = toU16 (e.first);
            for (size_t k = 1; k < u.size(); ++k) put (n - 1, u.substr (0, k));
        }
        if (opt.thorough()) {
            auto& w = libWords();
            for (size_t i = 0; i < w.size(); ++i) put (n - 1, toU16 (w[i] + w[(i * 7919 + 13) % w.size()]));
        }
    }
    string show (const string& c) override
    {
        auto f = splitBy (c, ':');
        int i = atoi (f[0].c_str());
        string d;
        if (i + 1 == (int) dicts.size()) d = "shipped";
        else for (auto& e : dicts[i]) d += e.first + "=" + e.second + " ";
        return "text '" + (f.size() > 2 ? f[2] : "") + "' segmentation " + f[1] + " dictionary " + d;
    }
    void eval (const string& c, Ctx& ctx) override
    {
        size_t a = c.find (':');
        int d = atoi (c.c_str());
        char mode = c[a + 1];
        string text = c.substr (a + 3);
        if (!error[d].empty()) {
            if (mode == 'L') ctx.fail (error[d]);
            return;
        }
        auto& p = parsers[{ d, mode }];
        if (!p) {
            p.reset (new Parser (mode == '1'));
            if (!p->loadExceptDict (path[d].c_str())) ctx.fail ("dictionary is not accepted");
            if (mode == 'L') { p.reset(); return; }
        }
        judge (*p, text, mode == '1' ? libBreaks (toU16 (text)) : vector<int>(), &lex[d], ctx, true);
    }
};
REGISTER_CHECK (ExceptCheck, "except");
