// C24: syllable strings, groups, chains and lattices are independent values.
#include "real.h"

#include <algorithm>
#include <cstring>

using namespace std;

// What a value holds, as plain nested lists
typedef vector<string>  MStr;           // syllables with positions
typedef set<MStr>       MFrac;
typedef vector<MFrac>   MChain;
typedef vector<MChain>  MLatt;

static string
one (const Syl& y)
{
    string r;
    if (y.isLiteral()) r = "(" + toU8 (y.literal()) + ")";
    else r = { char ('A' + int (y.iCons1())), char (y.iCons2()), char (y.vowel()), char ('A' + int (y.eCons())), char ('A' + int (y.tone())) };
    return r + "@" + to_string (y.endPos());
}

static const vector<Syl>&
syls()
{
    static const vector<Syl> s { Syl ("k_A_0", 1), Syl ("cryn4", -102), Syl (7, u"x๑"), Syl::Blank };
    return s;
}

template <class T> struct Traits;

template <> struct Traits<SylString> {
    typedef MStr Model;
    static const int elems = 4;
    static void add (SylString& v, int k) { v += syls()[k]; }
    static void add (Model& m, int k) { m.push_back (one (syls()[k])); }
    static void cat (SylString& v, const SylString& w) { v += w; }
    static void cat (Model& m, const Model& w) { Model t = w; m.insert (m.end(), t.begin(), t.end()); }
    static void change (SylString& v) { for (auto& y : v) y.setEndPos (y.endPos() + 1000); }
    static void change (Model& m)
    {
        for (auto& s : m) { size_t p = s.rfind ('@'); s = s.substr (0, p + 1) + to_string (stoi (s.substr (p + 1)) + 1000); }
    }
    static void other (SylString& v) { v.shiftEndPos (3); }
    static void other (Model& m)
    {
        for (auto& s : m) {
            size_t p = s.rfind ('@');
            int n = stoi (s.substr (p + 1));
            s = s.substr (0, p + 1) + to_string (n < 0 ? n - 303 : n + 3);
        }
    }
    static void own (SylString& v, Model& m, bool set)
    {
        if (set) { v = *--v.end(); m = Model (1, m.back()); }
        else { v += *v.begin(); m.push_back (string (m[0])); }
    }
    static Model read (const SylString& v) { Model m; for (auto it = v.begin(); it != v.end(); ++it) m.push_back (one (*it)); return m; }
    static string law (const SylString& v, const Model& m)
    {
        string e = m.empty() ? "0" : m.back().substr (m.back().rfind ('@') + 1);
        return to_string (v.endPos()) == e ? "" : "end position " + to_string (v.endPos());
    }
};

static SylString
elemStr (int k)
{
    SylString s;
    if (k == 0) s += syls()[0];
    else if (k == 1) { s += syls()[1]; s += syls()[2]; }
    else { s += syls()[1]; s += syls()[0]; s += syls()[3]; }
    return s;
}

template <> struct Traits<PronunFrac> {
    typedef MFrac Model;
    static const int elems = 3;
    static void add (PronunFrac& v, int k) { v += elemStr (k); }
    static void add (Model& m, int k) { m.insert (Traits<SylString>::read (elemStr (k))); }
    static void cat (PronunFrac& v, const PronunFrac& w) { v += w; }
    static void cat (Model& m, const Model& w) { Model t = w; m.insert (t.begin(), t.end()); }
    static void change (PronunFrac& v) { for (auto& s : v) s += syls()[2]; }
    static void change (Model& m) { Model t; for (auto s : m) { Traits<SylString>::add (s, 2); t.insert (s); } m = t; }
    static void other (PronunFrac& v) { v.setEndPos (v.endPos()); }
    static void other (Model&) {}
    static void own (PronunFrac& v, Model& m, bool set)
    {
        if (set) { MStr s = Traits<SylString>::read (*--v.end()); v = *--v.end(); m = { s }; }
        else v += *v.begin();
    }
    static Model read (const PronunFrac& v) { Model m; for (auto it = v.begin(); it != v.end(); ++it) m.insert (Traits<SylString>::read (*it)); return m; }
    static string law (const PronunFrac& v, const Model& m) { return v.altCount() == int (m.size()) ? "" : to_string (v.altCount()) + " alternatives"; }
};

static PronunFrac
elemFrac (int k)
{
    PronunFrac f (5, elemStr (k < 2 ? k : 0));
    if (k == 2) f += elemStr (2);
    return f;
}

static void
join (MChain& c)
{
    MChain r;
    for (auto& f : c) {
        if (f.size() == 1 && !r.empty() && r.back().size() == 1) {
            MStr s = *r.back().begin();
            Traits<SylString>::cat (s, *f.begin());
            r.back() = { s };
        } else r.push_back (f);
    }
    c = r;
}

template <> struct Traits<PronunChain> {
    typedef MChain Model;
    static const int elems = 3;
    static void add (PronunChain& v, int k) { v += elemFrac (k); }
    static void add (Model& m, int k) { m.push_back (Traits<PronunFrac>::read (elemFrac (k))); }
    static void cat (PronunChain& v, const PronunChain& w) { v += w; }
    static void cat (Model& m, const Model& w) { Model t = w; m.insert (m.end(), t.begin(), t.end()); }
    static void change (PronunChain& v) { for (auto& f : v) Traits<PronunFrac>::change (f); }
    static void change (Model& m) { for (auto& f : m) Traits<PronunFrac>::change (f); }
    static void other (PronunChain& v) { v.mergeSingles(); }
    static void other (Model& m) { join (m); }
    static void own (PronunChain& v, Model& m, bool) { v += *v.begin(); m.push_back (Model::value_type (m[0])); }
    static Model read (const PronunChain& v) { Model m; for (auto it = v.begin(); it != v.end(); ++it) m.push_back (Traits<PronunFrac>::read (*it)); return m; }
    static string law (const PronunChain&, const Model&) { return ""; }
};

static PronunChain
elemChain (int k)
{
    PronunChain c (elemFrac (k));
    c += elemFrac (0);
    if (k) c += elemFrac (1);
    return c;
}

template <> struct Traits<PronunLatt> {
    typedef MLatt Model;
    static const int elems = 3;
    static void add (PronunLatt& v, int k) { v += elemChain (k); }
    static void add (Model& m, int k) { m.push_back (Traits<PronunChain>::read (elemChain (k))); }
    static void cat (PronunLatt& v, const PronunLatt& w) { PronunLatt t (w); for (auto& c : t) v += c; }
    static void cat (Model& m, const Model& w) { Model t = w; m.insert (m.end(), t.begin(), t.end()); }
    static void change (PronunLatt& v) { for (auto& c : v) Traits<PronunChain>::change (c); }
    static void change (Model& m) { for (auto& c : m) Traits<PronunChain>::change (c); }
    static void other (PronunLatt& v) { v.mergeSingles(); }
    static void other (Model& m) { for (auto& c : m) join (c); }
    static void own (PronunLatt& v, Model& m, bool) { v += *v.begin(); m.push_back (Model::value_type (m[0])); }
    static Model read (const PronunLatt& v) { Model m; for (auto it = v.begin(); it != v.end(); ++it) m.push_back (Traits<PronunChain>::read (*it)); return m; }
    static string law (const PronunLatt& v, const Model& m) { return v.altCount() == int (m.size()) ? "" : to_string (v.altCount()) + " alternatives"; }
};

// A case is a kind letter and the first operations; all continuations are run.
// Operations: one letter each, upper case for the second register
struct ValueCheck : Check {
    string ops (char kind)
    {
        // 0123 add an element to the first, 4 to the second; r R assign to the
        // first, second; u U append the other; s append itself; = assign itself;
        // c C copy construct into the other and drop the source; m M move
        // construct; x X change all parts in place; o O join or shift; p append
        // its own first part; a assign its own last part
        return kind == 'S' ? "01234rRuUs=cCmMxXoOpa" : kind == 'F' ? "0124rRuUs=cCmMxXoOpa" : "0124rRuUs=cCmMxXoOp";
    }
    int depth() { return opt.thorough() ? 6 : 5; }
    void generate (const Emit& emit) override
    {
        for (char k : string ("SFCL")) for (char a : ops (k)) for (char b : ops (k)) emit (string { k, a, b });
        // shifting: every end position, every pair of positions within a syllable
        for (int by : { 0, 1, 2, 3, 7, 9, 10, 31, 50, 99, 100, 101, 255, 1000 }) emit ("Z" + to_string (by));
        // long values
        for (char k : string ("SFCL")) for (auto p : { "0", "01", "012", "02", "0o", "01s", "1c4u" }) for (int n : { 10, 33, 100, 300 })
            if (n <= 33 || !strpbrk (p, "su")) emit (string (1, k) + "*" + p + " " + to_string (n));
    }
    string show (const string& c) override { return c; }
    template <class T> struct Run {
        typedef Traits<T> R;
        typedef typename R::Model M;
        T a, b;
        M m, n;
        void step (char o)
        {
            switch (o) {
            case '0': case '1': case '2': case '3': R::add (a, o - '0'); R::add (m, o - '0'); break;
            case '4': R::add (b, 1); R::add (n, 1); break;
            case 'r': a = b; m = n; break;
            case 'R': b = a; n = m; break;
            case 'u': R::cat (a, b); R::cat (m, n); break;
            case 'U': R::cat (b, a); R::cat (n, m); break;
            case 's': R::cat (a, a); R::cat (m, m); break;
            case '=': { T& alias = a; a = alias; break; }
            case 'c': { T t (b); a = t; R::change (t); m = n; break; }
            case 'C': { T t (a); b = t; R::change (a); n = m; R::change (m); break; }
            case 'm': { T t (b); T q (move (t)); a = q; m = n; break; }
            case 'M': { T t (move (a)); b = t; a = T(); n = m; m = M(); break; }
            case 'x': R::change (a); R::change (m); break;
            case 'X': R::change (b); R::change (n); break;
            case 'p': if (!m.empty()) { R::own (a, m, false); } break;
            case 'a': if (!m.empty()) { R::own (a, m, true); } break;
            case 'o': R::other (a); R::other (m); break;
            case 'O': R::other (b); R::other (n); break;
            }
        }
        string check() const
        {
            if (R::read (a) != m) return "first value differs";
            if (R::read (b) != n) return "second value differs";
            string l = R::law (a, m);
            return l.empty() ? R::law (b, n) : l;
        }
    };
    template <class T> void search (const string& pre, const string& alpha, int left, Ctx& ctx)
    {
        Run<T> r;
        for (size_t i = 1; i < pre.size(); ++i) r.step (pre[i]);
        ctx.add ("model_transitions", pre.size() - 1);
        ctx.add ("model_states");
        string e = r.check();
        if (!e.empty()) { if (ctx.failMsgs.size() < 3) ctx.fail (e + " after " + pre.substr (1)); return; }
        if (left) for (char o : alpha) search<T> (pre + o, alpha, left - 1, ctx);
        else { string sig (1, pre[0]); sig += to_string (r.m.size()) + "," + to_string (r.n.size()); ctx.see ("shapes", sig); }
    }
    template <class T> void repeat (const string& c, Ctx& ctx)
    {
        auto f = splitBy (c.substr (2), ' ');
        Run<T> r;
        int n = atoi (f[1].c_str());
        for (int k = 0; k < n; ++k) {
            char o = f[0][k % f[0].size()];
            if ((o == 's' || o == 'u') && r.m.size() > 600) continue;
            r.step (o);
            ctx.add ("model_transitions");
            ctx.add ("model_states");
            string e = k % 8 && k + 1 < n ? "" : r.check();
            if (!e.empty()) { ctx.fail (e + " after " + to_string (k + 1) + " steps"); return; }
        }
    }
    void shift (int by, Ctx& ctx)
    {
        SylString s;
        vector<int> want;
        auto add = [&] (int from, int to) {
            Syl y (want.size() % 3 == 0 ? Syl (1, u"x") : want.size() % 3 == 1 ? Syl ("k_A_0", 1) : Syl::Blank);
            y.setEndPos (from);
            s += y;
            want.push_back (to);
        };
        for (int e = 0; e <= 400; ++e) add (e, e + by);
        for (int b = 0; b <= 98; ++b) for (int e = b + 1; e <= 99; ++e)
            add (-(b * 100 + e), -((b + by) * 100 + e + by));
        SylString t (s);
        t.shiftEndPos (by);
        size_t i = 0;
        for (auto a = s.begin(), b = t.begin(); i < want.size(); ++a, ++b, ++i) {
            ctx.add ("model_transitions");
            if (b->endPos() != want[i]) { ctx.fail ("position " + to_string (a->endPos()) + " shifted by " + to_string (by) + " becomes " + to_string (b->endPos())); return; }
            if (!(*a == *b)) { ctx.fail ("shifting changes the sound"); return; }
        }
        if (t.endPos() != want.back()) ctx.fail ("wrong end position after shifting");
        ctx.add ("model_states");
        ctx.see ("shapes", "Z" + to_string (by));
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c[0] == 'Z') { shift (atoi (c.c_str() + 1), ctx); return; }
        if (c[1] == '*') {
            if (c[0] == 'S') repeat<SylString> (c, ctx);
            if (c[0] == 'F') repeat<PronunFrac> (c, ctx);
            if (c[0] == 'C') repeat<PronunChain> (c, ctx);
            if (c[0] == 'L') repeat<PronunLatt> (c, ctx);
            return;
        }
        auto a = ops (c[0]);
        int left = depth() - 2;
        if (c[0] == 'S') search<SylString> (c, a, left, ctx);
        if (c[0] == 'F') search<PronunFrac> (c, a, left, ctx);
        if (c[0] == 'C') search<PronunChain> (c, a, left, ctx);
        if (c[0] == 'L') search<PronunLatt> (c, a, left - 1, ctx);
        ctx.sample (c);
    }
};
REGISTER_CHECK (ValueCheck, "value");
