// C05: readings without dictionary and segmentation are exactly those of the
// reference grammar.
#include "judge.h"
#include "spaces.h"

using namespace std;

struct GrammarCheck : Check {
    unique_ptr<Parser> p;
    void setup (Ctx&) override { p.reset (new Parser (false)); }
    void generate (const Emit& emit) override
    {
        Put put = [&] (const U16& s) { emit (toU8 (s)); };
        spaceWords (put, 1, 0);
        spaceLong (put);
        spaceScale (put, opt.thorough() ? 2100 : 1100);
        spaceAmbiguous (put, true);
        spaceAllShort (put, opt.thorough() ? 4 : 3);
        spaceRepresentatives (put, opt.thorough());
        spaceOnsets (put, opt.thorough());
        spaceCodas (put, opt.thorough());
        spaceWords (put, opt.thorough() ? 1 : 41, opt.thorough() ? 2 : 1);
    }
    void eval (const string& c, Ctx& ctx) override { judge (*p, c, {}, nullptr, ctx); }
};
REGISTER_CHECK (GrammarCheck, "grammar");
