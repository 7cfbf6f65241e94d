// C14: syllable ordering and equality are lawful; groups are sorted and unique.
#include "real.h"
#include "tables.h"

#include <algorithm>

using namespace std;

static const char INI[] = "kcgjJydtTnbpPfmrlwsh?", SEC[] = "_rlw", VOW[] = "aAiIvVuUeExXyYzZtToOcCwW", FIN[] = "_ktpgnmyw", TON[] = "01234";
static const char* const COMP[] = { INI, SEC, VOW, FIN, TON };

// cases: "P" two components, base: all pairs over their values
//        "V" index of a representative value: all pairs and triples with it
//        "S" the same for strings; "G" sequence of alternatives
struct OrderCheck : Check {
    vector<Syl>         val;        // all at one position
    vector<SylString>   str;
    vector<vector<int>> strKey;
    vector<SylString>   pool;       // alternatives
    vector<int>         poolSound;

    OrderCheck()
    {
        for (char a : { 'k', '?', 'n' }) for (char b : { '_', 'l' }) for (char v : { 'a', 'A', 'W' })
            for (char e : { '_', 'n', 'w' }) for (char t : { '0', '2', '4' })
                val.push_back (Syl (string { a, b, v, e, t }, 5));
        Syl blank (Syl::Blank);
        blank.setEndPos (5);
        val.push_back (blank);
        for (auto l : { u"a", u"b", u"ab", u"ก", u" ", u"\U0001f600", u"." }) val.push_back (Syl (5, l));
        vector<string> abc = { "k_A_0", "k_A_1", "n_ok3" };
        for (int n = 0; n <= 4; ++n) {
            int total = 1;
            for (int i = 0; i < n; ++i) total *= 4;
            for (int x = 0; x < total; ++x) {
                SylString s;
                vector<int> key;
                for (int i = 0, y = x; i < n; ++i, y /= 4) {
                    key.push_back (y % 4);
                    s += y % 4 == 3 ? Syl (i + 1, u"x") : Syl (abc[y % 4], i + 1);
                }
                str.push_back (s);
                strKey.push_back (key);
            }
        }
        // same sounds at other positions count as the same alternative
        const char* const alt[] = { "k_A_0@1,k_A_0@3", "k_A_0@3", "n_ok3@3", "k_A_0@2,n_ok3@3", "s_a_1@1,n_ok3@3",
                                    "k_A_0@2,k_A_0@3", "k_A_0@1,n_ok3@3", "n_ok3@4" };
        const int snd[] = { 0, 1, 2, 3, 4, 0, 3, 2 };
        for (int i = 0; i < 8; ++i) { pool.push_back (SylString (string (alt[i]))); poolSound.push_back (snd[i]); }
    }
    void generate (const Emit& emit) override
    {
        for (int a = 0; a < 5; ++a) for (int b = a + 1; b < 5; ++b) for (int base = 0; base < 3; ++base)
            emit ("P" + to_string (a) + to_string (b) + to_string (base));
        for (size_t i = 0; i < val.size(); ++i) emit ("V" + to_string (i));
        for (size_t i = 0; i < str.size(); ++i) emit ("S" + to_string (i));
        int maxLen = opt.thorough() ? 7 : 6;
        function<void (string)> rec = [&] (string s) {
            emit ("G" + s);
            if ((int) s.size() < maxLen) for (int k = 0; k < 8; ++k) rec (s + char ('0' + k));
        };
        rec ("");
        // all values as alternatives of one group, in many orders
        for (size_t s = 1; s < val.size(); ++s) emit ("H" + to_string (s));
    }
    template<class T> int
    relation (const T& a, const T& b, bool same, Ctx& ctx, const string& what)
    {
        bool lt = a < b, gt = b < a, eq = a == b;
        ctx.add ("comparisons", 6);
        if ((a > b) != gt) ctx.fail (what + ": greater disagrees with less");
        if ((a <= b) != (lt || eq)) ctx.fail (what + ": not-greater disagrees");
        if ((a >= b) != (gt || eq)) ctx.fail (what + ": not-less disagrees");
        if ((a != b) == eq || (b == a) != eq) ctx.fail (what + ": equality operators disagree");
        if (lt + gt + eq != 1) ctx.fail (what + ": " + to_string (lt) + to_string (gt) + to_string (eq) + " instead of exactly one relation");
        if (eq != same) ctx.fail (what + (eq ? ": unlike values are equal" : ": like values differ"));
        return lt ? -1 : gt ? 1 : 0;
    }
    template<class T> void
    equalAnywhere (T a, T b, bool same, Ctx& ctx, const string& what)
    {
        ctx.add ("comparisons", 2);
        if ((a == b) != same || (a != b) == same) ctx.fail (what + ": equality depends on position");
    }
    // whatever the positions: never both before and after, unlike values always one of them
    template<class T> int
    placed (const T& a, const T& b, bool same, Ctx& ctx, const string& what)
    {
        bool lt = a < b, gt = b < a;
        ctx.add ("comparisons", 4);
        if ((a > b) != gt || (b > a) != lt) ctx.fail (what + ": at other positions greater disagrees with less");
        if (lt && gt) ctx.fail (what + ": at other positions each is less than the other");
        if (!same && !lt && !gt) ctx.fail (what + ": at other positions unlike values have no order");
        return lt ? -1 : gt ? 1 : 0;
    }
    static string key (const Syl& s)
    {
        return s.isLiteral() ? "L" + toU8 (s.literal()) : RawSylOutput().output (s);
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c[0] == 'P') {
            int a = c[1] - '0', b = c[2] - '0';
            string base = c[3] == '0' ? "k_a_0" : c[3] == '1' ? "?wWw4" : "m_int2";
            if (c[3] == '2') base = "mrIt2";
            vector<string> codes;
            for (const char* x = COMP[a]; *x; ++x) for (const char* y = COMP[b]; *y; ++y) {
                string s = base; s[a] = *x; s[b] = *y; codes.push_back (s);
            }
            vector<Syl> v;
            for (auto& s : codes) v.push_back (Syl (s, 3));
            vector<int> rank (v.size());
            for (size_t i = 0; i < v.size(); ++i) {
                for (size_t j = 0; j < v.size(); ++j) {
                    if (relation (v[i], v[j], i == j, ctx, codes[i] + " and " + codes[j]) > 0) ++rank[i];
                    Syl o (v[j]);
                    o.setEndPos (-207);
                    equalAnywhere (v[i], o, i == j, ctx, codes[i] + " and " + codes[j]);
                    if (!ctx.failMsgs.empty()) return;
                }
            }
            // a strict total order ranks all values differently
            auto r = rank;
            sort (r.begin(), r.end());
            for (size_t i = 0; i < r.size(); ++i) if (r[i] != (int) i) { ctx.fail ("order is not transitive"); return; }
            string seq;
            for (int x : rank) seq += to_string (x) + " ";
            ctx.see ("nontrivial", c + seq);
        } else if (c[0] == 'V') {
            size_t i = atoi (c.c_str() + 1), n = val.size();
            vector<int> ij (n);
            for (size_t j = 0; j < n; ++j) {
                ij[j] = relation (val[i], val[j], i == j, ctx, key (val[i]) + " and " + key (val[j]));
                for (int p : { -1, 0, 6, -101 }) {
                    Syl o (val[j]);
                    o.setEndPos (p);
                    equalAnywhere (val[i], o, i == j, ctx, key (val[i]) + " and " + key (val[j]));
                    placed (val[i], o, i == j, ctx, key (val[i]) + " and " + key (val[j]));
                }
                ctx.see ("nontrivial", "V" + to_string (i) + "," + to_string (j) + to_string (ij[j]));
            }
            for (size_t j = 0; j < n; ++j) if (ij[j] < 0) for (size_t k = 0; k < n; ++k)
                if (val[j] < val[k]) { ctx.add ("triples"); if (ij[k] >= 0) { ctx.fail ("order is not transitive"); return; } }
            // the same with the second or the third value before or after the others
            for (int q : { -101, 0, 3, 7, 120 }) for (int r : { 2, 5, 9 }) {
                vector<Syl> at (val), then (val);
                for (auto& s : at) s.setEndPos (q);
                for (auto& s : then) s.setEndPos (r);
                for (size_t j = 0; j < n; ++j) if (val[i] < at[j]) for (size_t k = 0; k < n; ++k)
                    if (at[j] < then[k]) {
                        ctx.add ("triples");
                        if (!(val[i] < then[k])) { ctx.fail ("order is not transitive at other positions"); return; }
                    }
            }
        } else if (c[0] == 'S') {
            size_t i = atoi (c.c_str() + 1), n = str.size();
            vector<int> ij (n);
            string name;
            for (int k : strKey[i]) name += to_string (k);
            for (size_t j = 0; j < n; ++j) {
                ij[j] = relation (str[i], str[j], i == j, ctx, "strings " + name + " and " + to_string (j));
                SylString o (str[j]);
                o.shiftEndPos (7);
                equalAnywhere (str[i], o, i == j, ctx, "strings " + name + " and " + to_string (j));
                placed (str[i], o, i == j, ctx, "strings " + name + " and " + to_string (j));
                // a string comes before everything it begins
                auto& a = strKey[i]; auto& b = strKey[j];
                if (a.size() < b.size() && equal (a.begin(), a.end(), b.begin()) && ij[j] != -1) ctx.fail ("a string is not before its continuation");
                ctx.see ("nontrivial", "S" + to_string (i) + "," + to_string (j) + to_string (ij[j]));
            }
            for (size_t j = 0; j < n; ++j) if (ij[j] < 0) for (size_t k = 0; k < n; ++k)
                if (str[j] < str[k]) { ctx.add ("triples"); if (ij[k] >= 0) { ctx.fail ("string order is not transitive"); return; } }
        } else if (c[0] == 'H') {
            size_t step = atoi (c.c_str() + 1), n = val.size();
            PronunFrac f, g;
            set<string> added;
            size_t at = 0;
            for (size_t k = 0; k < 2 * n; ++k) {
                f += SylString (val[at]);
                added.insert (key (val[at]));
                at = (at + step) % n;
                if (k == n / 2) g = f;
                if (k % 16 && k + 1 < 2 * n) continue;
                ctx.add ("groups");
                set<string> got;
                const SylString* prev = nullptr;
                for (auto& s : f) {
                    if (prev && !(*prev < s)) { ctx.fail ("not sorted"); return; }
                    prev = &s;
                    if (!got.insert (key (*s.begin())).second) { ctx.fail ("an alternative is listed twice"); return; }
                }
                if (got != added || f.altCount() != (int) got.size()) { ctx.fail ("wrong alternatives after " + to_string (k + 1)); return; }
            }
            PronunFrac h (g);
            h += f;
            if (!(h == f)) ctx.fail ("adding a group that contains all makes another group");
            h = f;
            h += g;
            if (!(h == f)) ctx.fail ("adding a part of a group makes another group");
            ctx.see ("nontrivial", c);
        } else {
            string seq = c.substr (1);
            set<int> sounds;
            bool uniform = true;    // no sound at two positions
            map<int, set<int>> at;
            for (char x : seq) { sounds.insert (poolSound[x - '0']); at[poolSound[x - '0']].insert (x - '0'); if (at[poolSound[x - '0']].size() > 1) uniform = false; }
            auto judge = [&] (const PronunFrac& f, const string& how) {
                ctx.add ("groups");
                set<int> got;
                const SylString* prev = nullptr;
                int n = 0;
                for (auto& s : f) {
                    ++n;
                    int id = -1;
                    for (int k = 0; k < 8; ++k) if (s == pool[k]) { id = poolSound[k]; break; }
                    if (id < 0) ctx.fail (how + ": an unknown alternative");
                    if (!got.insert (id).second) ctx.fail (how + ": an alternative is listed twice");
                    if (prev && !(*prev < s)) ctx.fail (how + ": not sorted");
                    prev = &s;
                }
                if (got != sounds) ctx.fail (how + ": wrong alternatives");
                if (f.altCount() != n) ctx.fail (how + ": wrong count");
            };
            PronunFrac all;
            for (char x : seq) all += pool[x - '0'];
            judge (all, "one by one");
            for (size_t cut = 0; cut <= seq.size(); ++cut) {
                PronunFrac a, b;
                for (size_t k = 0; k < seq.size(); ++k) (k < cut ? a : b) += pool[seq[k] - '0'];
                PronunFrac ab (a), ba (b);
                ab += b;
                ba += a;
                judge (ab, "first part plus second");
                judge (ba, "second part plus first");
                if (uniform && !(ab == ba && ab == all)) ctx.fail ("groups differ by the order of adding");
            }
            PronunFrac self (all);
            self += self;
            judge (self, "added to itself");
            if (!(self == all)) ctx.fail ("a group added to itself differs");
            if (!seq.empty()) {
                PronunFrac f (3, pool[seq[0] - '0']);
                for (char x : seq) f += pool[x - '0'];
                judge (f, "started with the first");
            }
            if (seq.size() == 5) ctx.sample (seq);
        }
    }
};
REGISTER_CHECK (OrderCheck, "order");
