// C27: readings of an entry that are not well-formed do no harm.
#include "judge.h"
#include "spaces.h"
#include "tables.h"

#include <unistd.h>

using namespace std;

// A case is the data given for the word กาน, or for another word after a '|'
struct BadDataCheck : Check {
    unique_ptr<IOutput> out[3][5];
    vector<string> text;

    void setup (Ctx&) override
    {
        for (int s = 0; s < 3; ++s) for (int n = 0; n < 5; ++n) out[s][n] = textOutput (n, s);
    }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        auto put = [&] (const string& d) { if (d.find ('\n') == string::npos && d.size() < 200) emit (d); };
        const vector<string> good { "k_A_0@3", "k_A_0@2,n_a_3@3", "k_A_0@1,s_Un4@-103,n_a_3@3", "*_*_*@1,krAn0@3;b_I_4@3" };
        const string sym = "k_A0@3-,;*1 x\t\xb8";
        for (auto& g : good) {
            put (g);
            for (size_t i = 0; i <= g.size(); ++i) {
                put (g.substr (0, i));
                put (g.substr (i));
                if (i < g.size()) put (g.substr (0, i) + g.substr (i + 1));
                for (char c : sym) {
                    put (g.substr (0, i) + c + g.substr (i));
                    if (i < g.size()) put (g.substr (0, i) + c + g.substr (i + 1));
                }
                if (i < g.size()) for (int c = 1; c < 256; ++c) if (c != '\n') put (g.substr (0, i) + char (c) + g.substr (i + 1));
            }
        }
        // two deviations
        const string& g = good[1];
        for (size_t i = 0; i < g.size(); ++i) for (size_t j = i + 1; j < g.size(); ++j)
            for (char a : string ("_k0@;,")) for (char b : string ("_k0@;,-")) { string s = g; s[i] = a; s[j] = b; put (s); }
        // all short strings
        function<void (const string&, int)> rec = [&] (const string& s, int n) { put (s); if (n) for (char c : string ("k_A0@3,;")) rec (s + c, n - 1); };
        rec ("", th ? 5 : 4);
        // every position, alone, first and second
        for (int p = -(th ? 1300 : 450); p <= 12; ++p) {
            string n = to_string (p);
            put ("k_A_0@" + n); put ("k_A_0@" + n + ",n_a_3@3"); put ("k_A_0@1,n_a_3@" + n + ",p_I_0@3"); put ("k_A_0@" + n + ",n_a_3@" + n + ",p_I_0@3");
            put ("k_A_0@" + n + ";b_U_1@3"); put ("b_U_1@3;k_A_0@" + n + ",k_A_0@3");
        }
        for (auto n : { "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "1073741827", "+3", " 3", "03", "0x3", "3.0", "--3" })
            for (auto t : { "", ",n_a_3@3", ";n_a_3@3" }) put (string ("k_A_0@") + n + t);
        // orders of positions
        const vector<string> pos { "1", "2", "3", "-2", "-3", "-102", "-103", "-203", "0" };
        for (auto& a : pos) for (auto& b : pos) {
            put ("k_A_0@" + a + ",n_a_3@" + b + ",p_I_0@3");
            for (auto& c : pos) { put ("k_A_0@" + a + ",n_a_3@" + b + ",p_I_0@" + c + ",s_a_1@3"); put ("k_A_0@" + a + ",n_a_3@3;p_I_0@" + b + ",s_a_1@" + c + ",n_a_3@3"); }
        }
        // parts of a blank
        for (char i : string ("*k?")) for (char s : string ("_r*")) for (char v : string ("*aZ")) for (char f : string ("_k*")) for (char t : string ("*04"))
            for (auto tail : { "@3", "@1,n_a_3@3" }) put (string { i, s, v, f, t } + tail);
        // one bad alternative among many
        for (int n : { 2, 5, 9, 20 }) for (int k = 0; k < n; ++k) for (auto b : { "", "x", "k_A_0@1", "k_Q_0@3", "k_A_0@0,k_A_0@3", "k_A_0@3,k_A_0@3", "k_A_0@4" }) {
            string s;
            for (int i = 0; i < n; ++i) s += (i ? ";" : "") + (i == k ? string (b) : string ("pbdtkm") [i % 6] + string ("_") + string ("aAiIuU")[i / 6] + "_0@3");
            put (s);
        }
        // an entry inside or around others
        for (auto w : { "ก", "กา", "านา", "นา", "กานา" }) for (auto d : { "", "x", "k_A_0@0", "k_A_0@1", "k_A_0@9", "k_A_0@-1,k_A_0@-1", ";", ",", "k_Q_0@2" })
            put (string (w) + "|" + d);
    }
    string show (const string& c) override { return "data " + jsonStr (c); }

    // 1 well-formed reading of a word of that length, 0 not, -1 a matter of taste
    static int wellFormed (const string& alt, int len)
    {
        auto parts = splitBy (alt, ',');
        int taste = 1;
        long prev = 0, last = 0;
        for (size_t k = 0; k < parts.size(); ++k) {
            const string& p = parts[k];
            if (p.size() < 5) return 0;
            tab::Sound x;
            string code = p.substr (0, 5);
            if (code != "*_*_*" && (!tab::find (code, x))) return 0;
            if (p.size() == 5 || p[5] != '@' || p.size() == 6) { taste = -1; if (k + 1 == parts.size()) return -1; return -1; }
            string num = p.substr (6);
            size_t i = num[0] == '-' ? 1 : 0;
            if (num.size() == i || num.size() > 9 || num.find_first_not_of ("0123456789", i) != string::npos) {
                if (num.size() > 9 && num.find_first_not_of ("0123456789", i) == string::npos) return 0;
                if (!isdigit ((unsigned char) num[i]) && num[0] != ' ' && num[0] != '+' && num[0] != '\t' && num[0] != '\r' && num[0] != '\v' && num[0] != '\f') return 0;
                return -1;
            }
            long n = stol (num), key;
            if (n >= 0) key = 2 * n;
            else {
                long b = -n / 100, e = -n % 100;
                if (b >= e || e > len) taste = -1;      // stands for no part of the word
                key = 2 * b + 1;
            }
            if (n > len) return 0;
            if (n == -1 && k + 1 == parts.size()) return -1;
            if (key <= prev) { if (taste < 0) return -1; return 0; }
            prev = key;
            last = n;
        }
        return last == len ? taste : taste < 0 ? -1 : 0;
    }
    void eval (const string& c, Ctx& ctx) override
    {
        string word = "กาน", data = c;
        size_t bar = c.find ('|');
        if (bar != string::npos) { word = c.substr (0, bar); data = c.substr (bar + 1); }
        string src = word + "\t" + data + "\n";
        if (word != "กาน") src += "กาน\tr_Un4@3\n";
        src += "มี\tb_X_2@2\n";
        string path;
        try { path = compileDict ("b", src); } catch (const exception&) { ctx.add ("refused_by_the_compiler"); return; }
        // what should be left of the entry
        int len = toU16 (word).size();
        string use;
        bool taste = false;
        // the compiler takes the data up to the end of the line
        for (auto& a : splitBy (data, ';')) {
            int w = wellFormed (a, len);
            if (w < 0) taste = true;
            if (w > 0) use += (use.empty() ? "" : ";") + a;
        }
        // white space around the data is the compiler's business
        if (data.find_first_of (" \t\r\v\f") != string::npos) taste = true;
        ref::Lexicon lex;
        if (!use.empty()) lex[toU16 (word)] = use;
        if (word != "กาน") lex[u"กาน"] = "r_Un4@3";
        lex[u"มี"] = "b_X_2@2";
        for (int seg = 0; seg < 2; ++seg) {
            Parser p (seg);
            if (!p.loadExceptDict (path.c_str())) { ctx.fail ("dictionary refused"); break; }
            for (auto t : { "กาน", "มี", "กานมี", "มีกาน", "1กานกาน", "กานา" }) {
                string text = t;
                bool plain = text == "มี";
                auto dag = p.parseWord (text);
                for (int s = 0; s < 3; ++s) for (int n = 0; n < 5; ++n) out[s][n]->output (dag);
                ctx.add ("analyses");
                if (!taste || plain) judge (p, text, seg ? libBreaks (toU16 (text)) : vector<int>(), &lex, ctx);
                else {
                    ctx.add ("left_to_taste");
                    // still readings from one end to the other
                    for (auto& e : realEdges (dag)) {
                        auto l = e.label;
                        if (e.from == e.to) ctx.fail ("a syllable goes nowhere in " + text + ": " + l);
                    }
                }
                if (!ctx.failMsgs.empty()) { unlink (path.c_str()); return; }
            }
        }
        unlink (path.c_str());
        ctx.see ("nontrivial", use + (taste ? "?" : "") + c);
        if (use.empty() && !taste) ctx.add ("entries_without_use");
        if (!use.empty() && use != data) ctx.sample (show (c));
    }
};
REGISTER_CHECK (BadDataCheck, "baddata");
