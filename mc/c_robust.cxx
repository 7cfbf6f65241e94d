// C01: no input text kills the analyser or costs the rest of the batch its
// answers. Built with memory, undefined-behaviour and container checking.
#include "real.h"
#include "spaces.h"

#include <stdexcept>
#include <sys/wait.h>

using namespace std;

static bool
validUtf8 (const string& s)
{
    for (size_t i = 0; i < s.size(); ) {
        unsigned char c = s[i];
        int n = c < 0x80 ? 0 : c >= 0xc2 && c <= 0xdf ? 1 : (c & 0xf0) == 0xe0 ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : -1;
        if (n < 0 || i + n >= s.size() + (n == 0)) return false;
        for (int k = 1; k <= n; ++k) if ((s[i+k] & 0xc0) != 0x80) return false;
        unsigned char d = n ? s[i+1] : 0;
        if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f)) return false;
        i += n + 1;
    }
    return true;
}

static string
codePoint (uint32_t c)
{
    string s;
    if (c < 0x80) s += char (c);
    else if (c < 0x800) { s += char (0xc0 | c >> 6); s += char (0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char (0xe0 | c >> 12); s += char (0x80 | (c >> 6 & 63)); s += char (0x80 | (c & 63)); }
    else { s += char (0xf0 | c >> 18); s += char (0x80 | (c >> 12 & 63)); s += char (0x80 | (c >> 6 & 63)); s += char (0x80 | (c & 63)); }
    return s;
}

static const char* const NOTATION[] = { "-t", "-r", "-p", "-w", "-s" };

// words that could upset the analysis, and ordinary ones between them
static vector<string>
oddWords()
{
    vector<string> w = {
        "กา", "เ", "กาเ", "แ", "ไ", "เเ", "ฤ", "์", "ะ", "ก์", "็", "เก", "กกกกกก", "xyz", "", " ", ".", "..", "ก.", "กา.",
        "\xff", "\xe0", "\xe0\xb8", "กา\xe0\xb8", "\x80", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x9f\x98\x80",
        "กา\xffกา", "\xe0\xb8\xe0\xb8\x81", "\xef\xbb\xbfกา", "กา\tกา", "\"\\", "\x7f", "ขนม", "กรรม", "ๆ", "ฯ", "๑", "ำ", "ฺ",
        "\r", "กา\r", "%s%n", "กา:", "กกกกกกกกกกกก", "เกเกเกเก", "ฤๅ", "ฦๅ",
    };
    return w;
}

struct RobustCheck : Check {
    unique_ptr<Parser> p[3];
    vector<unique_ptr<IOutput>> outs;

    void setup (Ctx&) override
    {
        p[0].reset (new Parser (false));
        p[1].reset (new Parser (true));
        p[2].reset (new Parser (true));
        p[2]->loadExceptDict ((opt.bin + "/except.dic").c_str());
        for (int s = 0; s < 3; ++s) for (int n = 0; n < 5; ++n) outs.push_back (textOutput (n, s));
    }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        auto T = [&] (const U16& s) { emit ("T" + toU8 (s)); };
        allStrings (THAI, 0, 2, T);
        allStrings (th ? THAI : U16 (u"กขงรลวหตนสยอฤะัาิืเแโไ็่์"), 3, 3, T);
        allStrings (th ? U16 (u"กขรวหตนยอฤะัาิเ็่์") : U16 (u"กรวหตอฤะาิเ์"), 4, 4, T);
        if (th) allStrings (u"กรวอาเ์ฤ.", 5, 5, T);
        // the whole Thai block, and neighbours
        U16 block;
        for (char16_t c = 0x0e00; c < 0x0e60; ++c) block += c;
        allStrings (block, 1, 2, T);
        for (auto c : block) for (auto d : block) { T (u"ก" + U16 (1, c) + d); if (th) T (U16 (1, c) + d + u"า"); }
        allStrings (u"กา. 1เ", 1, 5, T);
        // every single character in several places
        for (uint32_t c = 0; c < 0x110000; ++c) {
            if (c >= 0xd800 && c < 0xe000) continue;
            if (c >= 0x10000 && !th && (c & 0xff) != 0 && (c & 0xff) != 0xff && c > 0x10100) continue;
            emit ("L" + codePoint (c));
            if (c < 0x10000) { emit ("Lกา" + codePoint (c)); emit ("L" + codePoint (c) + "กา"); }
        }
        // invalid byte sequences
        static const unsigned char by[] = { 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xb8, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff };
        vector<string> seqs { "" };
        for (int n = 1; n <= (th ? 4 : 3); ++n) {
            vector<string> next;
            for (auto& s : seqs) for (auto b : by) next.push_back (s + char (b));
            for (auto& s : next) { emit ("T" + s); emit ("Tกา" + s); emit ("T" + s + "กา"); }
            seqs.swap (next);
        }
        // long texts: analysis only
        spaceLong ([&] (const U16& s) { emit ("P" + toU8 (s)); });
        spaceScale ([&] (const U16& s) { emit ("L" + toU8 (s)); }, th ? 1100 : 300);
        auto& lw = libWords();
        for (size_t i = 0; i < lw.size(); i += th ? 1 : 9) emit ("L" + lw[i]);
        // batches: every odd word before and after every other one
        auto odd = oddWords();
        string all;
        for (auto& a : odd) for (auto& b : odd) all += "\n" + a + "\n" + b;
        for (int s = 0; s < 3; ++s)
            for (int n = 0; n < 5; ++n)
                for (int g = 0; g < 2; ++g) {
                    string fl = string (1, char ('0' + s)) + char ('0' + n) + char ('0' + g);
                    emit ("B" + fl + all);
                    string av;
                    for (auto& a : odd) if (a.empty() || a[0] != '-') av += "\n" + a;
                    emit ("W" + fl + av);
                    if (g == 0) {
                        for (auto& a : odd) { emit ("B" + fl + "\n" + a); emit ("W" + fl + "\n" + a); }
                        if (n == 0 || n == 3)
                            for (auto& a : odd) { emit ("B" + fl + "\nกา\n" + a + "\nกา"); emit ("W" + fl + "\n" + a + "\nกา"); }
                    }
                }
        // batches of all byte sequences, and of all code points
        string chunk;
        int k = 0, f = 0;
        auto line = [&] (const string& s) {
            chunk += "\n" + s;
            if (++k == 400) {
                string fl = string (1, char ('0' + f % 3)) + char ('0' + f / 3 % 5) + '1';
                emit ("B" + fl + chunk);
                chunk.clear(); k = 0; ++f;
            }
        };
        for (int a : by) { line (string (1, a)); for (int b : by) { line (string (1, a) + char (b)); for (int c : by) line (string (1, a) + char (b) + char (c)); } }
        for (uint32_t c = 1; c < (th ? 0x10000u : 0x3000u); ++c) if (c != 10 && (c < 0xd800 || c >= 0xe000)) line (codePoint (c));
        allStrings (THAI, 1, 2, [&] (const U16& s) { line (toU8 (s)); });
        while (k) line ("กา");
        // many lines and long ones
        string many;
        for (int i = 0; i < (th ? 20000 : 3000); ++i) many += i % 3 ? "\nไป" : i % 7 ? "\nก\xff" : "\n";
        emit ("B001" + many);
        for (int n : { 10, 50, 100, 500, 1000, 1365, 1366, 2730, 2731, 5461, 5462, 32760, 65530, 65536, 131070, 200000 }) {
            string l;
            for (int i = 0; i < n; ++i) l += "x";
            for (int i = 0; i < min (n, 1000) / 5; ++i) l += "ไป";
            emit ("B001\nกา\n" + l + "\nกา\n" + l + "ก\n" + l + "\xff\n" + l);
            emit ("B001\n" + l + "\n" + l + "\nกา\n" + l + "\nกา\n" + l + "\xff\n" + l + "\xff\n" + l);
        }
        // the same line several times
        for (auto fl : { "001", "110", "231" }) {
            string rep;
            for (auto& a : odd) { emit ("B" + string (fl) + "\n" + a + "\n" + a + "\n" + a); rep += "\n" + a + "\n" + a + "\n" + a; }
            emit ("B" + string (fl) + rep);
        }
    }
    string show (const string& c) override
    {
        if (c[0] == 'B' || c[0] == 'W') {
            string s = c;
            for (auto& k : s) if (k == '\n') k = '|';
            return (c[0] == 'B' ? "lines " : "arguments ") + s.substr (1, 400);
        }
        return "text " + c.substr (1) + " (bytes " + hexStr (c.substr (1)) + ")";
    }
    PronunDAG analyse (const Parser& ps, const string& t, Ctx& ctx)
    {
        try { return ps.parseWord (t); }
        catch (const range_error&) {
            if (validUtf8 (t)) ctx.fail ("valid text rejected");
            return PronunDAG();
        }
    }
    void eval (const string& c, Ctx& ctx) override
    {
        char kind = c[0];
        if (kind == 'B' || kind == 'W') { batch (c, ctx); return; }
        string t = c.substr (1);
        for (int m = 0; m < 3; ++m) {
            if (kind == 'L' && m == 1) continue;
            auto dag = analyse (*p[m], t, ctx);
            if (kind == 'P') { ctx.see ("nontrivial", t); continue; }
            string sig;
            for (size_t i = 0; i < outs.size(); ++i) {
                if (kind == 'L' && i % 5 != 3 && i % 5 != 1) continue;
                string o = outs[i]->output (dag);
                ctx.add ("renderings");
                if (i % 5 == 3) sig += o;
            }
            if (sig.size() > 8) ctx.see ("nontrivial", sig);
            if (sig.size() > 120) ctx.sample (t);
        }
    }
    void batch (const string& c, Ctx& ctx)
    {
        int s = c[1] - '0', n = c[2] - '0', g = c[3] - '0';
        auto words = splitBy (c.substr (5), '\n');
        if (c.size() <= 5) words = { "" };
        vector<string> av { opt.bin + "/thpronun", NOTATION[n] };
        if (s == 1) av.push_back ("-j");
        if (s == 2) av.push_back ("-g");
        if (!g) av.push_back ("-n");
        string input, expect;
        for (auto& w : words) {
            expect += w + ":\n";
            Parser& ps = *p[g ? 2 : 0];
            expect += outs[s * 5 + n]->output (analyse (ps, w, ctx)) + "\n";
            if (c[0] == 'B') input += w + "\n"; else av.push_back (w);
        }
        if (!g) av.push_back ("-d/nonexistent");
        auto r = runProgram (av, input, 60);
        ctx.add ("program_runs");
        ctx.add ("records", words.size());
        if (r.timeout) { ctx.fail ("program does not finish"); return; }
        if (!WIFEXITED (r.status) || WEXITSTATUS (r.status) != 0) {
            ctx.fail ("program ended with status " + to_string (r.status) + ": " + r.err.substr (r.err.size() > 400 ? r.err.size() - 400 : 0));
            return;
        }
        if (r.out != expect) {
            size_t k = 0;
            while (k < r.out.size() && k < expect.size() && r.out[k] == expect[k]) ++k;
            size_t b = k > 60 ? k - 60 : 0;
            ctx.fail ("records differ at byte " + to_string (k) + ": printed '" + r.out.substr (b, 120)
                      + "' expected '" + expect.substr (b, 120) + "'");
        }
        ctx.see ("nontrivial", r.out);
    }
};
REGISTER_CHECK (RobustCheck, "robust");
