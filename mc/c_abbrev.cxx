// C08: abbreviations and periods.
#include "judge.h"
#include "spaces.h"

#include <algorithm>

using namespace std;

struct AbbrevCheck : Check {
    unique_ptr<Parser> p[2];
    void setup (Ctx&) override { p[0].reset (new Parser (false)); p[1].reset (new Parser (true)); }
    void generate (const Emit& emit) override
    {
        Put put = [&] (const U16& s) { emit (toU8 (s)); };
        allStrings (u"กขา. 1", 0, opt.thorough() ? 8 : 7, put);
        allStrings (u"กสเ.x", 1, opt.thorough() ? 8 : 7, put);
        // every letter in every place of an abbreviation, in every context
        static const char16_t* const before[] = { u"", u" ", u".", u"1", u"x ", u"กา ", u"กา", u"กา.", u"ก.", u"ข. ", u"\t", u".." , u" ." };
        static const char16_t* const after[] = { u"", u" ", u".", u"..", u". ", u".กา", u".ก", u".ก.", u"1", u" กา", u"าก.", u"์.", u"ๆ.", u"ฤ.", u"ะ." };
        U16 any = CONS + u"ฤฦ";
        for (auto b : before)
            for (auto a : after)
                for (auto c : any) {
                    put (U16 (b) + c + a);
                    for (auto d : (opt.thorough() ? any : U16 (u"กขคงสหอฤฮรวย"))) {
                        put (U16 (b) + c + d + a);
                        put (U16 (b) + d + c + a);
                        put (U16 (b) + d + c + d + a);
                        put (U16 (b) + d + c + d + d + a);
                        put (U16 (b) + d + d + d + c + d + a);
                        put (U16 (b) + c + u'.' + d + a);
                    }
                }
        for (auto c : any) for (auto d : any) { put (U16 (1, c) + d + u'.'); put (U16 (1, c) + u'.' + d + u'.'); }
        // words before a period, unless they are abbreviations
        Put dot = [&] (const U16& s) {
            bool all = true;
            for (auto ch : s) if (CONS.find (ch) == U16::npos) all = false;
            if (!all) emit ("+" + toU8 (s));
        };
        allStrings (THAI, 1, 2, dot);
        allStrings (opt.thorough() ? THAI : u"กขจตนมยรลวสหอฤะัาิีเไ็์่", 3, 3, dot);
        allStrings (u"กจตยรวสอะัาิเไ็์", 4, 4, dot);
        for (auto& w : libWords()) dot (toU16 (w));
        for (auto& e : shippedEntries()) dot (toU16 (e.first));
        // many of them
        for (auto u : { u"ก.", u"กข.", u"กขคง.", u"ก. ", u"กข. ", u"ก.กา ", u"ก.1", u"กา.", u". " }) {
            U16 s;
            for (int k = 0; k < (opt.thorough() ? 120 : 40); ++k) { s += u; put (s); put (s + u"กา"); put (s + u"ก"); put (s + u"กขคงจ."); }
        }
        // four and more
        allStrings (u"กหร", 3, opt.thorough() ? 8 : 6, [&] (const U16& s) {
            for (auto a : after) put (s + a);
            put (u"กา " + s + u".");
        });
    }
    // sounds of all readings, without positions
    static set<string> sounds (const Parser& p, const U16& t)
    {
        set<string> r;
        for (auto& l : splitBy (textOutput (2, 0)->output (p.parseWord (toU8 (t))), '\n')) if (!l.empty()) r.insert (l);
        return r;
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c[0] == '+') {
            // a period changes no sound of what is not an abbreviation
            U16 t = toU16 (c.substr (1));
            for (int s = 0; s < 2; ++s) {
                if (s) {
                    auto a = libBreaks (t), b = libBreaks (t + u".");
                    b.erase (remove (b.begin(), b.end(), (int) t.size()), b.end());
                    if (a != b) { ctx.add ("segmented_otherwise_before_a_period"); continue; }
                }
                auto a = sounds (*p[s], t), b = sounds (*p[s], t + u".");
                ctx.add ("words_before_a_period");
                if (a != b) ctx.fail ("a period changes the " + to_string (a.size()) + " readings to " + to_string (b.size()) + (s ? ", segmented" : ""));
            }
            return;
        }
        judge (*p[0], c, {}, nullptr, ctx);
        judge (*p[1], c, libBreaks (toU16 (c)), nullptr, ctx);
    }
};
REGISTER_CHECK (AbbrevCheck, "abbrev");
