// C11: raw output fed back as dictionary data means the same readings.
#include "real.h"
#include "spaces.h"
#include "tables.h"

#include <unistd.h>

using namespace std;

// cases: "C" first index of a block of syllable codes; "W" word;
// "P" hundred of positions
struct RoundtripCheck : Check {
    unique_ptr<Parser> plain;
    vector<string> codes;

    RoundtripCheck()
    {
        for (int i = 0; i < 21; ++i) for (int s = 0; s < 4; ++s) for (int v = 0; v < 24; ++v)
            for (int e = 0; e < 9; ++e) for (int t = 0; t < 5; ++t) codes.push_back (tab::raw ({ i, s, v, e, t }));
    }
    void setup (Ctx&) override { plain.reset (new Parser (false)); }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        for (size_t k = 0; k < codes.size(); k += 26) emit ("C" + to_string (k));
        for (int k = -(th ? 1200 : 250); k <= (th ? 1000 : 100); ++k) emit ("P" + to_string (k));
        Put put = [&] (const U16& s) { emit ("W" + toU8 (s)); };
        // pre-syllables and syllables far into the word
        for (auto a : { u"ไป", u"นะ", u"โต๊ะ" })
            for (auto b : { u"ขนม", u"สนาม", u"ตลาด", u"มา", u"ชนะ" }) {
                U16 s;
                for (int k = 0; k < (th ? 30 : 20); ++k) { s += a; put (s + b); }
            }
        allStrings (THAI, 1, 2, put);
        allStrings (u"กขรลวหตนสยอฤะัาิืเโ์", 3, 3, put);
        allStrings (u"กรตนาเ์ข", 4, th ? 5 : 4, put);
        auto& w = libWords();
        for (size_t i = 0; i < w.size(); i += th ? 1 : 5) emit ("W" + w[i]);
        for (auto& e : shippedEntries()) emit ("W" + e.first);
    }
    string show (const string& c) override
    {
        if (c[0] == 'W') return "word " + c.substr (1);
        if (c[0] == 'P') return "positions from " + c.substr (1) + "00";
        return "syllable codes from " + codes[atoi (c.c_str() + 1)];
    }
    set<string> readings (const Parser& p, const string& text)
    {
        set<string> r;
        for (auto& l : splitBy (textOutput (3, 0)->output (p.parseWord (text)), '\n')) if (!l.empty()) r.insert (l);
        return r;
    }
    static string shift (const string& reading, int off)
    {
        string r;
        for (auto& s : splitBy (reading, ',')) {
            int p = stoi (s.substr (6));
            r += (r.empty() ? "" : ",") + s.substr (0, 6) + to_string (p < 0 ? p - 101 * off : p + off);
        }
        return r;
    }
    void judge (const string& word, const set<string>& want, Ctx& ctx)
    {
        string line = word + "\t";
        for (auto& r : want) line += (line.back() == '\t' ? "" : ";") + r;
        if (line.size() > 250) { ctx.add ("too_long_for_an_entry"); return; }
        string path = compileDict ("r", line + "\n");
        {
            Parser p (false), q (true);
            if (!p.loadExceptDict (path.c_str()) || !q.loadExceptDict (path.c_str())) ctx.fail ("dictionary refused");
            struct Frame { const char* pre; const char* post; };
            string far (60, 'x');
            const pair<string, string> frame[] = { { "", "" }, { "1", "" }, { "", "1" }, { "x ", " y" }, { far, "" }, { "๑๑", "-" }, { string (130, '-'), "z" } };
            for (auto& f : frame) {
                set<string> expect;
                int off = toU16 (f.first).size();
                int end = off + toU16 (word).size();
                for (auto& r : want) {
                    string e = f.first.empty() ? "" : "(" + f.first + ")@" + to_string (off) + ",";
                    e += shift (r, off);
                    if (!f.second.empty()) e += ",(" + f.second + ")@" + to_string (end + toU16 (f.second).size());
                    expect.insert (e);
                }
                auto got = readings (p, f.first + word + f.second);
                ctx.add ("analyses");
                if (got != expect) {
                    string d;
                    for (auto& g : got) d += " " + g;
                    ctx.fail ("read back as" + d.substr (0, 400) + " from " + line);
                    break;
                }
            }
            ctx.see ("nontrivial", line);
            if (want.size() > 3) ctx.sample (line);
        }
        unlink (path.c_str());
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c[0] == 'C') {
            set<string> want;
            size_t k = atoi (c.c_str() + 1);
            for (size_t i = k; i < k + 26 && i < codes.size(); ++i) {
                string r = Syl (codes[i], 1).endPos() == 1 ? RawSylOutput().output (Syl (codes[i], 1)) : "";
                if (r != codes[i] + "@1") ctx.fail ("code " + codes[i] + " printed as " + r);
                want.insert (r);
                Syl back (r);
                if (back != Syl (codes[i], 1) || back.endPos() != 1) ctx.fail ("code " + r + " read as " + RawSylOutput().output (back));
                SylString two (r + "," + codes[i] + "@-104");
                int n = 0;
                for (auto& y : two) { if (y != back || y.endPos() != (n ? -104 : 1)) ctx.fail ("code string misread"); ++n; }
                if (n != 2) ctx.fail ("code string has " + to_string (n) + " syllables");
            }
            judge ("ก", want, ctx);
            return;
        }
        if (c[0] == 'P') {
            int k = atoi (c.c_str() + 1) * 100;
            for (int i = k; i < k + 100; ++i) {
                if (!i) continue;
                string r = "krAn2@" + to_string (i);
                Syl y (r);
                if (y.endPos() != i || RawSylOutput().output (y) != r) ctx.fail ("code " + r + " read as " + RawSylOutput().output (y));
                SylString two (r + ",m_a_3@7," + r);
                int n = 0;
                for (auto& z : two) { if (z.endPos() != (n == 1 ? 7 : i)) ctx.fail ("code string with " + r + " misread"); ++n; }
                if (n != 3) ctx.fail ("code string has " + to_string (n) + " syllables");
                ctx.add ("positions");
            }
            return;
        }
        auto want = readings (*plain, c.substr (1));
        if (want.empty()) return;
        judge (c.substr (1), want, ctx);
    }
};
REGISTER_CHECK (RoundtripCheck, "roundtrip");
