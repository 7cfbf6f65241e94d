// C12: the reading graph behaves as a set of labelled edges.
#include "real.h"
#include "lattice/dag.h"

#include <algorithm>
#include <array>
#include <deque>

using namespace std;

namespace {

// (from, to, label class)
typedef array<int, 3> Tri;
typedef set<Tri> Model;

template<class V> struct Labels;
template<> struct Labels<Syl> {
    // same sound at another position is the same label
    static Syl make (int l, int pos) { return l == 2 ? Syl (pos, u"x") : Syl (l ? "n_ok3" : "k_A_0", pos); }
    static int cls (const Syl& s) { return s.isLiteral() ? 2 : s == Syl ("k_A_0") ? 0 : 1; }
};
template<> struct Labels<PronunFrac> {
    static PronunFrac make (int l, int pos)
    {
        PronunFrac f (pos, SylString (l == 1 ? "n_ok3@3" : "k_A_0@2"));
        if (l == 2) f += SylString ("s_a_1@1,n_om4@3");
        return f;
    }
    static int cls (const PronunFrac& f) { return f.altCount() == 2 ? 2 : *f.begin() == SylString ("k_A_0") ? 0 : 1; }
};

template<class V> struct Space {
    vector<int>  nodes;
    vector<Tri>  universe;
    typedef DAG<V> G;

    V label (const Tri& t, int variant = 0) const { return Labels<V>::make (t[2], t[1] + 7 * variant); }

    // full observation; empty string if it equals the set
    string differs (const G& g, const Model& m) const
    {
        vector<Tri> out, in;
        for (auto it = g.outBegin(); it != g.outEnd(); ++it) {
            out.push_back ({ it->first, it->second.target, Labels<V>::cls (it->second.edgeVal) });
        }
        for (auto it = g.inBegin(); it != g.inEnd(); ++it) {
            in.push_back ({ it->second.target, it->first, Labels<V>::cls (it->second.edgeVal) });
        }
        vector<Tri> want (m.begin(), m.end());
        sort (out.begin(), out.end());
        sort (in.begin(), in.end());
        if (out != want) return "edges by source differ from the set";
        if (in != want) return "edges by target differ from the set";
        for (int a : nodes) {
            size_t o = 0, i = 0;
            set<Tri> oe, ie;
            for (auto& t : m) { if (t[0] == a) { ++o; oe.insert (t); } if (t[1] == a) { ++i; ie.insert (t); } }
            if (g.outDegree (a) != (int) o) return "out-degree of " + to_string (a);
            if (g.inDegree (a) != (int) i) return "in-degree of " + to_string (a);
            size_t k = 0;
            auto r = g.outEdges (a);
            for (auto it = r.first; it != r.second; ++it, ++k)
                if (it->first != a || !oe.count ({ a, it->second.target, Labels<V>::cls (it->second.edgeVal) })) return "out-edges of " + to_string (a);
            if (k != o) return "out-edges of " + to_string (a);
            k = 0;
            r = g.inEdges (a);
            for (auto it = r.first; it != r.second; ++it, ++k)
                if (it->first != a || !ie.count ({ it->second.target, a, Labels<V>::cls (it->second.edgeVal) })) return "in-edges of " + to_string (a);
            if (k != i) return "in-edges of " + to_string (a);
        }
        for (auto& t : universe) {
            if (g.isEdgeExist (t[0], t[1], label (t)) != (m.count (t) > 0)) return "existence query";
            if (g.isEdgeExist (t[0], t[1], label (t, 1)) != (m.count (t) > 0)) return "existence query for the same sound elsewhere";
            if (g.isEdgeExist (t[1], t[0], label (t)) != (m.count ({ t[1], t[0], t[2] }) > 0)) return "existence query in the other direction";
        }
        return "";
    }
    // visible form including the order of iteration
    string form (const G& g) const
    {
        string s;
        for (auto it = g.outBegin(); it != g.outEnd(); ++it) { s += char (it->first); s += char (it->second.target); s += char (Labels<V>::cls (it->second.edgeVal)); }
        s += '|';
        for (auto it = g.inBegin(); it != g.inEnd(); ++it) { s += char (it->first); s += char (it->second.target); s += char (Labels<V>::cls (it->second.edgeVal)); }
        return s;
    }
    // apply every operation from one state; report each successor
    typedef function<void (const G&, const Model&, const string&)> Next;
    void step (const G& g0, const Model& m0, const vector<pair<G, Model>>& others, Ctx& ctx, const Next& next, bool deep) const
    {
        auto done = [&] (const G& g, const Model& m, const string& op) {
            ctx.add ("model_transitions");
            string d = differs (g, m);
            if (!d.empty()) { ctx.fail ("after " + op + ": " + d); return; }
            next (g, m, op);
        };
        auto name = [&] (const Tri& t) { return to_string (t[0]) + ">" + to_string (t[1]) + ":" + to_string (t[2]); };
        for (auto& t : universe) {
            for (int v = 0; v < 2; ++v) {
                { G g (g0); Model m (m0); bool had = m.count (t);
                  bool r = g.addEdge (t[0], t[1], label (t, v));
                  m.insert (t);
                  if (r == had) ctx.fail ("adding " + name (t) + " reports " + (r ? "new" : "present"));
                  done (g, m, "adding " + name (t)); }
                { G g (g0); Model m (m0); bool had = m.count (t);
                  bool r = g.removeEdge (t[0], t[1], label (t, v));
                  m.erase (t);
                  if (r != had) ctx.fail ("removing " + name (t) + " reports " + (r ? "removed" : "absent"));
                  done (g, m, "removing " + name (t)); }
            }
            // remove through a reference into the graph itself
            if (m0.count (t)) {
                G g (g0); Model m (m0);
                auto r = g.outEdges (t[0]);
                for (auto it = r.first; it != r.second; ++it)
                    if (it->second.target == t[1] && Labels<V>::cls (it->second.edgeVal) == t[2]) { g.removeEdge (t[0], t[1], it->second.edgeVal); break; }
                m.erase (t);
                done (g, m, "removing in place " + name (t));
            }
        }
        for (int a : nodes) for (int b : nodes) {
            G g (g0); Model m (m0); bool had = false;
            for (auto it = m.begin(); it != m.end(); ) if ((*it)[0] == a && (*it)[1] == b) { it = m.erase (it); had = true; } else ++it;
            bool r = g.removeDirectEdges (a, b);
            if (r != had) ctx.fail ("removing all " + to_string (a) + ">" + to_string (b) + " reports " + (r ? "removed" : "none"));
            done (g, m, "removing all " + to_string (a) + ">" + to_string (b));
        }
        for (auto& o : others) {
            { G g (g0); Model m (m0); g.unionDAG (o.first); m.insert (o.second.begin(), o.second.end()); done (g, m, "union");
              string d = differs (o.first, o.second); if (!d.empty()) ctx.fail ("union changed its argument: " + d); }
            if (deep) {
                G g (g0); g = o.first; done (g, o.second, "assignment over");
                G h (o.first); h = g0; done (h, m0, "assignment");
                // copies are independent
                G c (g0); G d (c);
                d.unionDAG (o.first);
                string e = differs (c, m0); if (!e.empty()) ctx.fail ("a change of a copy shows in the original: " + e);
                G src (g0); G dst (move (src)); done (dst, m0, "move");
                src = o.first; done (src, o.second, "assignment to a moved-from graph");
            }
        }
        { G g (g0); g.unionDAG (g); done (g, m0, "union with itself"); }
        { G g (g0); G& r = g; g = r; done (g, m0, "self-assignment"); }
    }
};

template<class V> Space<V>
space (int kind)
{
    Space<V> s;
    if (kind == 0) {
        s.nodes = { -2, 0, 1, 2 };
        for (auto p : { pair<int,int> (0, 1), { 0, 2 }, { 1, 2 } }) for (int l = 0; l < 2; ++l) s.universe.push_back ({ p.first, p.second, l });
    } else if (kind == 1) {
        s.nodes = { -3, 0, 1, 2 };
        for (auto p : { pair<int,int> (0, 1), { 0, 2 }, { 1, 2 }, { 0, -3 }, { -3, 1 }, { -3, 2 } }) for (int l = 0; l < 2; ++l) s.universe.push_back ({ p.first, p.second, l });
    } else {
        s.nodes = { -1, 0, 1 };
        for (auto p : { pair<int,int> (0, 1), { 0, -1 }, { -1, 1 } }) for (int l = 0; l < 3; ++l) s.universe.push_back ({ p.first, p.second, l });
    }
    return s;
}

}

// cases: type letter, then "B" breadth-first over iteration-ordered states
// (small universe) or "M" kind mask: all operations from that edge set
struct DagCheck : Check {
    void generate (const Emit& emit) override
    {
        for (char t : { 's', 'f' }) {
            emit (string (1, t) + "B");
            for (int m = 0; m < 512; ++m) emit (string (1, t) + "M2 " + to_string (m));
            for (int m = 0; m < 4096; ++m) emit (string (1, t) + "M1 " + to_string (m));
            for (int shape = 0; shape < 4; ++shape) for (int n : { 5, 9, 17, 33, 40, 90, opt.thorough() ? 350 : 140 }) emit (string (1, t) + "Z" + to_string (shape) + " " + to_string (n));
        }
    }
    template<class V> void bfs (Ctx& ctx)
    {
        auto s = space<V> (0);
        typedef DAG<V> G;
        vector<pair<G, Model>> others;
        for (int k = 0; k < 64; ++k) {
            G g; Model m;
            for (int b = 0; b < 6; ++b) if (k >> b & 1) { auto& t = s.universe[b]; g.addEdge (t[0], t[1], s.label (t)); m.insert (t); }
            others.push_back ({ g, m });
        }
        map<string, pair<G, Model>> seen;
        deque<string> todo;
        G g0; Model m0;
        seen.emplace (s.form (g0), make_pair (g0, m0));
        todo.push_back (s.form (g0));
        while (!todo.empty() && ctx.failMsgs.empty()) {
            string f = todo.front(); todo.pop_front();
            auto cur = seen.at (f);
            ctx.add ("model_states");
            s.step (cur.first, cur.second, others, ctx, [&] (const G& g, const Model& m, const string&) {
                string k = s.form (g);
                if (seen.count (k)) return;
                seen.emplace (k, make_pair (g, m));
                todo.push_back (k);
            }, false);
        }
        ctx.add ("ordered_states", seen.size());
    }
    // many edges: into one node, out of one node, a chain, between two nodes
    // and back, added one by one and removed in another order
    template<class V> void large (int shape, int n, Ctx& ctx)
    {
        Space<V> s;
        typedef DAG<V> G;
        s.nodes = { 0, n + 1 };
        for (int i = 1; i <= n; ++i) {
            s.nodes.push_back (i);
            for (int l = 0; l < 3; ++l)
                s.universe.push_back (shape == 0 ? Tri { i, 0, l } : shape == 1 ? Tri { 0, i, l } : shape == 2 ? Tri { i, i + 1, l } : i % 2 ? Tri { 0, i, l } : Tri { i, 0, l });
        }
        G g; Model m;
        auto look = [&] (const string& op) { ctx.add ("model_states"); ctx.add ("model_transitions"); string d = s.differs (g, m); if (!d.empty()) ctx.fail ("after " + op + ": " + d); return d.empty(); };
        for (auto& t : s.universe) { if (!g.addEdge (t[0], t[1], s.label (t)) || g.addEdge (t[0], t[1], s.label (t, 1))) { ctx.fail ("adding reports the wrong result"); return; } m.insert (t); if (!look ("adding")) return; }
        G copy (g), twice (g);
        twice.unionDAG (copy);
        string d = s.differs (twice, m);
        if (!d.empty()) { ctx.fail ("union with an equal graph: " + d); return; }
        Model all = m;
        size_t u = s.universe.size();
        for (size_t k = 0; k < u; ++k) {
            auto& t = s.universe[(k * 7) % u];
            if (u % 7 == 0) break;
            if (k % 5 == 4) {
                for (auto it = m.begin(); it != m.end(); ) if ((*it)[0] == t[0] && (*it)[1] == t[1]) it = m.erase (it); else ++it;
                g.removeDirectEdges (t[0], t[1]);
            } else { g.removeEdge (t[0], t[1], s.label (t)); m.erase (t); }
            if (!look ("removing")) return;
        }
        m = all;
        g = copy;
        look ("assignment");
    }
    template<class V> void mask (int kind, int bits, Ctx& ctx)
    {
        auto s = space<V> (kind);
        typedef DAG<V> G;
        Model m;
        int n = s.universe.size();
        vector<pair<G, Model>> others;
        for (int a = 0; a <= n; ++a) {
            G g; Model q;
            if (a < n) { auto& t = s.universe[a]; g.addEdge (t[0], t[1], s.label (t, 1)); q.insert (t); }
            auto& u = s.universe[(a * 5 + 3) % n];
            g.addEdge (u[0], u[1], s.label (u)); q.insert (u);
            others.push_back ({ g, q });
        }
        G up, down;
        for (int b = 0; b < n; ++b) if (bits >> b & 1) { auto& t = s.universe[b]; up.addEdge (t[0], t[1], s.label (t)); m.insert (t); }
        for (int b = n; b-- > 0; ) if (bits >> b & 1) { auto& t = s.universe[b]; down.addEdge (t[0], t[1], s.label (t, 1)); }
        for (auto* g : { &up, &down }) {
            string d = s.differs (*g, m);
            if (!d.empty()) { ctx.fail ("after adding: " + d); return; }
            ctx.add ("model_states");
            s.step (*g, m, others, ctx, [&] (const G&, const Model&, const string&) {}, true);
            if (!ctx.failMsgs.empty()) return;
        }
        if (m.size() == 4) ctx.sample (to_string (bits));
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c[1] == 'B') { if (c[0] == 's') bfs<Syl> (ctx); else bfs<PronunFrac> (ctx); return; }
        int kind = c[2] - '0', bits = atoi (c.c_str() + 4);
        if (c[1] == 'Z') { if (c[0] == 's') large<Syl> (kind, bits, ctx); else large<PronunFrac> (kind, bits, ctx); return; }
        if (c[0] == 's') mask<Syl> (kind, bits, ctx); else mask<PronunFrac> (kind, bits, ctx);
    }
};
REGISTER_CHECK (DagCheck, "dag");
