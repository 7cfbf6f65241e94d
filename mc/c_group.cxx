// C13: grouping a reading graph neither loses nor invents readings.
#include "real.h"

#include <algorithm>
#include <array>
#include <cmath>

using namespace std;

// cases: nodes, labels per pair, number of the graph in base 2^labels
struct GroupCheck : Check {
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        space (emit, 2, 3);
        space (emit, 3, 3);
        space (emit, 4, 3);
        space (emit, 5, 1);
        space (emit, 5, 2);
        space (emit, 6, 1);
        if (th) space (emit, 7, 1);
        // edges to the next and the next but one node only
        band (emit, 7, 1); band (emit, 8, 1); band (emit, 9, 1);
        band (emit, 6, 2);
        if (th) { band (emit, 10, 1); band (emit, 7, 2); }
        // many alternatives, long chains, chains of many alternatives
        for (int n = 1; n < 40; ++n) emit ("W1 " + to_string (n));
        for (int n : { 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 }) { emit ("W1 " + to_string (n)); emit ("W2 3 " + to_string (n)); emit ("W2 " + to_string (n) + " 2"); emit ("L5 2 " + to_string (n)); }
        for (int len : { 100, 128, 129, 200, 256, 257 }) for (int n : { 1, 2 }) emit ("L" + to_string (len) + " " + to_string (len / 2) + " " + to_string (n));
        for (int a = 1; a < 40; a += 3) for (int b = 1; b < 40; b += 3) emit ("W2 " + to_string (a) + " " + to_string (b));
        for (int len = 1; len <= 60; ++len) for (int at = 0; at < len; at += len > 12 ? 7 : 1) for (int n : { 1, 2, 9 }) emit ("L" + to_string (len) + " " + to_string (at) + " " + to_string (n));
        for (int len = 1; len <= 10; ++len) for (int n : { 2, 3 }) if (pow (n, len) < 3000) { emit ("A" + to_string (len) + " " + to_string (n)); emit ("D" + to_string (len) + " " + to_string (n)); }
    }
    static void band (const Emit& emit, int n, int k)
    {
        uint64_t total = 1ull << (2 * n - 3) * k;
        for (uint64_t g = 0; g < total; ++g) emit ("B" + to_string (n) + " " + to_string (k) + " " + to_string (g));
    }
    static void space (const Emit& emit, int n, int k)
    {
        uint64_t total = 1ull << (n * (n - 1) / 2 * k);
        for (uint64_t g = 0; g < total; ++g) emit (to_string (n) + " " + to_string (k) + " " + to_string (g));
    }
    static Syl label (int id, int pos)
    {
        static const char* const code[] = { "k_A_0", "n_ok3", "s_a_1", "prig4", "h_Ew2", "t_Yt1", "?_O_0" };
        if (id % 8 == 7) return Syl (pos, u16string (1 + id / 8, u'x'));
        string c = string (code[id % 8]).replace (4, 1, 1, char ('0' + (id / 8) % 5));
        if (id >= 40) { c[1] = '_'; c[3] = "_kgtnpmwy"[id / 40 % 9]; c[2] = "aAiIYU"[id / 40 % 6]; }
        return Syl (c, pos);
    }
    typedef set<vector<string>> Lang;
    static string sound (const Syl& s)
    {
        Syl t (s);
        t.setEndPos (0);
        return RawSylOutput().output (t);
    }
    static void paths (const map<int, vector<pair<int, string>>>& g, int at, vector<string>& cur, Lang& l)
    {
        auto it = g.find (at);
        if (it == g.end()) { l.insert (cur); return; }
        for (auto& e : it->second) {
            cur.push_back (e.second);
            paths (g, e.first, cur, l);
            cur.pop_back();
        }
    }
    static void expand (PronunChain::const_iterator it, PronunChain::const_iterator end, vector<string>& cur, Lang& l)
    {
        if (it == end) { l.insert (cur); return; }
        auto next = it; ++next;
        for (auto& str : *it) {
            size_t n = cur.size();
            for (auto& y : str) cur.push_back (sound (y));
            expand (next, end, cur, l);
            cur.resize (n);
        }
    }
    void eval (const string& c, Ctx& ctx) override
    {
        int n = 0, k = 0; unsigned long long bits = 0;
        vector<array<int, 3>> edges;
        int a = 0, b = 0, m = 0;
        if (isalpha (c[0]) && c[0] != 'B') {
            sscanf (c.c_str() + 1, "%d %d %d", &a, &b, &m);
            k = 3;
            if (c[0] == 'W') {          // one or two groups
                n = a + 1;
                for (int l = 0; l < b; ++l) edges.push_back ({ 0, 1, l });
                for (int l = 0; l < m; ++l) edges.push_back ({ 1, 2, l });
            } else if (c[0] == 'L') {   // a chain with one group
                n = a + 1;
                for (int i = 0; i < a; ++i) for (int l = 0; l < (i == b ? m : 1); ++l) edges.push_back ({ i, i + 1, l });
            } else {                    // groups alone, or also skipping one
                n = a + 1;
                for (int i = 0; i < a; ++i) for (int l = 0; l < b; ++l) edges.push_back ({ i, i + 1, l });
                if (c[0] == 'D') for (int i = 0; i + 2 <= a; i += 2) edges.push_back ({ i, i + 2, 0 });
            }
        } else {
            sscanf (c.c_str() + (c[0] == 'B'), "%d %d %llu", &n, &k, &bits);
            int p = 0;
            for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
                if (c[0] == 'B' && j > i + 2) continue;
                for (int l = 0; l < k; ++l) if (bits >> (p * k + l) & 1) edges.push_back ({ i, j, l });
                ++p;
            }
        }
        vector<bool> out (n), reach (n);
        reach[0] = true;
        for (auto& e : edges) { out[e[0]] = true; if (reach[e[0]]) reach[e[1]] = true; }
        // only graphs in which every way leads to the end
        for (int i = 0; i + 1 < n; ++i) if (reach[i] && !out[i]) { ctx.add ("graphs_with_dead_ends"); return; }
        // labels: the same few everywhere, or different on every edge
        for (int scheme = 0; scheme < (k == 1 ? 3 : 2); ++scheme)
        for (int names = 0; names < 6; ++names) {
            auto node = [&] (int i) {
                if (i == 0) return 0;
                if (i == n - 1) return names == 4 ? 100 * i : names == 5 ? 1000000 + n : n;
                switch (names) {
                case 0:  return i;
                case 1:  return -(i * 100 + i + 1);
                case 2:  return i % 2 ? i : -(i * 101);
                case 3:  return n - i;
                case 4:  return i * 100;
                default: return i % 2 ? -(i * 10100) : i * 37;
                }
            };
            auto lab = [&] (const array<int, 3>& e) {
                return scheme == 0 ? e[2] : scheme == 1 ? (e[0] * n + e[1]) % 8 + 8 * e[2] : (e[0] + e[1]) % 2;
            };
            PronunDAG dag;
            map<int, vector<pair<int, string>>> g;
            for (auto& e : edges) {
                Syl y = label (lab (e), node (e[1]));
                dag.addEdge (node (e[0]), node (e[1]), y);
                g[node (e[0])].push_back ({ node (e[1]), sound (y) });
            }
            Lang want;
            vector<string> cur;
            if (!g.empty() && g.count (0)) paths (g, 0, cur, want);
            int chains = 0;
            auto judge = [&] (const PronunLatt& latt, const char* when) {
                Lang got;
                chains = 0;
                for (auto& chain : latt) {
                    ++chains;
                    bool first = true, prevSingle = false;
                    for (auto& frac : chain) {
                        if (frac.altCount() == 0 || frac.begin() == frac.end()) ctx.fail ("an empty group");
                        if (frac.altCount() != distance (frac.begin(), frac.end())) ctx.fail ("wrong number of alternatives");
                        if (!first && prevSingle && frac.altCount() == 1) ctx.fail ("neighbouring groups are not joined");
                        prevSingle = frac.altCount() == 1;
                        first = false;
                        set<vector<string>> alts;
                        for (auto& str : frac) {
                            vector<string> v;
                            for (auto& y : str) v.push_back (sound (y));
                            if (v.empty()) ctx.fail ("an empty alternative");
                            if (!alts.insert (v).second) ctx.fail ("an alternative is listed twice");
                        }
                    }
                    if (first) ctx.fail ("an empty chain");
                    expand (chain.begin(), chain.end(), cur, got);
                }
                ctx.add ("graphs");
                ctx.add ("readings", want.size());
                ctx.add ("chains", chains);
                if (got != want) {
                    string m;
                    for (auto& w : want) if (!got.count (w)) { m += " lost:"; for (auto& x : w) m += " " + x; break; }
                    for (auto& w : got) if (!want.count (w)) { m += " invented:"; for (auto& x : w) m += " " + x; break; }
                    ctx.fail (when + string (", naming ") + to_string (names) + ", labels " + to_string (scheme) + ":" + m);
                }
            };
            FracDAG grouped = dag.fracDAG();
            judge (grouped.lattice(), "at once");
            int shape = chains;
            if (scheme == 1 && names == 0 && !want.empty() && ctx.failMsgs.empty()) {
                // the same objects again, and again once the graph has grown
                // at its end and at its beginning
                Lang before = want;
                judge (grouped.lattice(), "a second time");
                int end = node (n - 1);
                Syl tail = label (40, end + 1), other = label (41, end + 1), all = label (42, end + 1);
                want.clear();
                for (auto w : before) { w.push_back (sound (tail)); want.insert (w); }
                grouped.addEdge (end, end + 1, PronunFrac (end + 1, SylString (tail)));
                dag.addEdge (end, end + 1, tail);
                judge (grouped.lattice(), "groups grown at the end");
                judge (dag.fracDAG().lattice(), "grown at the end");
                for (auto w : before) { w.push_back (sound (other)); want.insert (w); }
                want.insert ({ sound (all) });
                dag.addEdge (end, end + 1, other);
                dag.addEdge (0, end + 1, all);
                judge (dag.fracDAG().lattice(), "grown twice");
                grouped.addEdge (end, end + 1, PronunFrac (end + 1, SylString (other)));
                grouped.addEdge (0, end + 1, PronunFrac (end + 1, SylString (all)));
                judge (grouped.lattice(), "groups grown twice");
                want = before;
                chains = shape;
            }
            if (!ctx.failMsgs.empty()) return;
            if (names == 0 && want.size() > 1) {
                string s = to_string (chains) + ":";
                for (auto& w : want) { for (auto& x : w) s += x; s += ";"; }
                ctx.see ("nontrivial", s);
                if (want.size() > 5) ctx.sample (c + " -> " + s);
            }
        }
    }
};
REGISTER_CHECK (GroupCheck, "group");
