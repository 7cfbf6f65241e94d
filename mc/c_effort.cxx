// C02: analysis effort stays tractable.
#include "real.h"
#include "spaces.h"

#include <time.h>

using namespace std;

static double
cpu()
{
    timespec t;
    clock_gettime (CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// every pattern is repeated to growing lengths; a length of some dozen
// characters that takes seconds of processor time is a failure
struct EffortCheck : Check {
    unique_ptr<Parser> p[3];
    string dict;

    void prepare() override
    {
        string src;
        for (auto& e : shippedEntries()) src += e.first + "\t" + e.second + "\n";
        try { dict = compileDict ("shipped", src); } catch (const exception&) {}
    }
    void setup (Ctx&) override
    {
        p[0].reset (new Parser (false));
        p[1].reset (new Parser (false));
        p[2].reset (new Parser (true));
        for (int i : { 1, 2 }) if (!dict.empty()) p[i]->loadExceptDict (dict.c_str());
    }
    void generate (const Emit& emit) override
    {
        Put put = [&] (const U16& s) { emit (toU8 (s)); };
        allStrings (THAI, 1, 2, put);
        allStrings (u"กรลวหตนสยอฤะัาิุเโ์.", 3, 3, put);
        allStrings (u"กรตนวา์", 4, opt.thorough() ? 5 : 4, put);
        if (opt.thorough()) allStrings (THAI, 3, 3, put);
        for (auto& w : libWords()) if (w.size() <= 24) emit (w);
    }
    void eval (const string& c, Ctx& ctx) override
    {
        U16 u = toU16 (c);
        size_t top = 72;
        for (int m = 0; m < 3; ++m) {
            for (size_t len : { size_t (18), size_t (36), top }) {
                if (opt.thorough() == false && u.size() > 2 && m == 2 && len == top) continue;
                U16 t;
                while (t.size() + u.size() <= len) t += u;
                if (t.empty()) t = u;
                string s = toU8 (t);
                double best = 1e9;
                size_t edges = 0;
                for (int k = 0; k < 3 && best > 1.0; ++k) {
                    double a = cpu();
                    auto dag = p[m]->parseWord (s);
                    best = min (best, cpu() - a);
                    edges = 0;
                    for (auto it = dag.outBegin(); it != dag.outEnd(); ++it) ++edges;
                }
                ctx.add ("analyses");
                if (best > 0.01) ctx.add ("analyses_over_10_ms");
                if (best > 0.1) ctx.add ("analyses_over_100_ms");
                ctx.see ("nontrivial", to_string (edges) + "/" + to_string (t.size()));
                if (len == top && edges > 300) ctx.sample (c + " repeated: " + to_string (edges) + " edges");
                if (best > 1.0) {
                    ctx.fail ("pattern '" + c + "' repeated to " + to_string (t.size()) + " characters takes "
                              + to_string (best) + " s of processor time");
                    return;
                }
                if (edges > 400 * t.size()) {
                    ctx.fail ("pattern '" + c + "' repeated to " + to_string (t.size()) + " characters gives a result of "
                              + to_string (edges) + " edges");
                    return;
                }
            }
        }
    }
};
REGISTER_CHECK (EffortCheck, "effort");
