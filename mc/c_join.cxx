// C21: how syllables are joined into readings.
#include "real.h"
#include "tables.h"

using namespace std;

// A unit is a syllable code, a literal "=text", or "_" for a blank
struct JoinCheck : Check {
    vector<string> units = {
        "k_A_0", "?_A_0", "g_A_0", "k_Ag0", "?_ok1", "g_Uk2", "krOn4", "?_Y_3", "s_Ay0", "P_aw4", "gwan1", "?wEm0", "r_am2",
        "=x", "=1-2", "=ng", "=\xe0\xb9\x86", "= ", "_",
    };
    unique_ptr<ISylOutput> so[5];
    void setup (Ctx&) override { for (int n = 0; n < 5; ++n) so[n] = sylOutput (n); }
    void generate (const Emit& emit) override
    {
        function<void (const string&, int, int)> go = [&] (const string& pre, int left, int nu) {
            if (!pre.empty()) emit (pre.substr (1));
            if (left) for (int k = 0; k < nu; ++k) go (pre + "\n" + units[k], left - 1, nu);
        };
        go ("", opt.thorough() ? 4 : 3, units.size());
        // longer ones over one representative of each kind
        vector<string> all;
        all.swap (units);
        units = { "k_A_0", "?_A_0", "g_A_0", "k_Ag0", "=x", "_" };
        go ("", opt.thorough() ? 7 : 6, units.size());
        units.swap (all);
        // long ones: every pair of units over and over
        for (auto& a : units) for (auto& b : units) for (int n : { 8, 16, 17, 40, 150 }) {
            string s = a;
            for (int k = 1; k < n; ++k) s += "\n" + (k % 2 ? b : a);
            emit (s);
        }
        // every pair of syllables by initial and final
        for (auto& a : tab::INI) for (auto& s : tab::SEC) for (auto& f : tab::FIN) for (auto& b : tab::INI) {
            string x { a.raw, s, 'a', f.raw, '0' }, y { b.raw, '_', 'O', '_', '1' };
            emit (x + "\n" + y);
            emit ("_\n" + x + "\n" + y + "\n_");
        }
        for (auto& v : tab::VOW) for (auto& b : tab::INI) emit (string { '?', '_', v.raw, '_', '2' } + "\n" + b.raw + "_" + v.raw + "_0");
    }
    string show (const string& c) override { string s = c; for (auto& k : s) if (k == '\n') k = ' '; return s; }
    void eval (const string& c, Ctx& ctx) override
    {
        auto u = splitBy (c, '\n');
        SylString ss;
        int pos = 0;
        for (auto& x : u) {
            ++pos;
            if (x == "_") ss += Syl::Blank;
            else if (x[0] == '=') ss += Syl (pos, toU16 (x.substr (1)));
            else ss += Syl (x, pos);
        }
        ctx.add ("sequences");
        auto one = [&] (const string& x, int n, int p) {
            if (x[0] == '=') return "(" + x.substr (1) + ")" + (n == 3 ? "@" + to_string (p) : "");
            tab::Sound t;
            tab::find (x, t);
            return n == 1 ? tab::roman (t) : n == 2 ? tab::phonetic (t) : n == 3 ? tab::raw (t) + "@" + to_string (p) : tab::soundex (t);
        };
        // delimited
        for (int n : { 2, 3, 4, 1, 0 })
            for (char d : { '-', ' ', ',', '|' }) {
                string want;
                bool sep = false;
                for (size_t k = 0; k < u.size(); ++k) {
                    if (u[k] == "_") { want += " "; sep = false; continue; }
                    if (sep) want += d;
                    Syl y = u[k][0] == '=' ? Syl (int (k + 1), toU16 (u[k].substr (1))) : Syl (u[k], k + 1);
                    want += n == 0 ? so[0]->output (y) : one (u[k], n, k + 1);
                    sep = true;
                }
                string got = DelimOutput (sylOutput (n), d).output (ss);
                ctx.add ("renderings");
                if (got != want) { ctx.fail ("delimited by '" + string (1, d) + "': " + got + " instead of " + want); return; }
                if (n == 2 && d == '-') ctx.see ("nontrivial", got);
            }
        // romanised
        for (bool cap : { false, true }) {
            string want;
            for (size_t k = 0; k < u.size(); ++k) {
                if (u[k] == "_") { want += " "; continue; }
                if (k > 0 && u[k-1] != "_" && u[k][0] != '=') {
                    bool openBefore = u[k-1][0] == '=' || u[k-1][3] == '_';
                    if (u[k][0] == '?' || (u[k][0] == 'g' && openBefore)) want += "-";
                }
                want += one (u[k], 1, 0);
            }
            if (cap && !want.empty()) want[0] = toupper (want[0]);
            // an initial o-ang before a cluster consonant has no vowel sound first
            string got = RomanOutput (cap).output (ss);
            ctx.add ("renderings");
            if (got != want) { ctx.fail ("romanised " + got + " instead of " + want); return; }
            // a list has one line for each
            string l = RomanOutput (cap).output (list<SylString> { ss, ss });
            if (l != want + "\n" + want + "\n") ctx.fail ("list of romanised readings: " + l);
        }
        if (u.size() == 3) ctx.sample (show (c));
    }
};
REGISTER_CHECK (JoinCheck, "join");
