// C17: the dictionary compiler never reports success for what it did not make.
#include "real.h"
#include "spaces.h"
#include "dict/dict.h"

#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;

// cases: "W" source, limit: the output cannot grow past it
//        "B" shape, position, newline at the end: one bad line among good ones
//        "U" bytes in hexadecimal: in the word of an entry
//        "L" length of the word, length of the data, last line or not
//        "M" lengths of data, in turn or one after the other
//        "E" an environment
struct CompilerCheck : Check {
    virtual bool bytes() { return false; }
    vector<string> source;
    vector<long>   size;

    void prepare() override
    {
        source = { "กา\tk_A_0@2\n", "กา\tk_A_0@2\nนา\tn_A_0@2;s_a_1@2\nก\tx\n", "", "", "" };
        auto& w = libWords();
        for (size_t i = 0; i < w.size(); i += 200) source[2] += w[i] + "\tk_A_0@" + to_string (i) + "\n";
        for (size_t i = 0; i < w.size(); i += 9) source[3] += w[i] + "\tk_A_0@" + to_string (i) + "\n";
        for (auto& s : source) {
            string p;
            try { p = compileDict ("s", s); } catch (const exception&) { size.push_back (-1); continue; }
            size.push_back (readFile (p).size());
            unlink (p.c_str());
        }
    }
    vector<string> shapes()
    {
        return { "", "กา", " ", "กา k_A_0@2", "กา;k_A_0@2", "abc\tk_A_0@2", "กาx\tk_A_0@2", "\xe0\xb8\tk_A_0@2", "\xb8\x81\tk_A_0@2",
                 "กา\xff\tk_A_0@2", "\xe0\xb8\x81\xe0\xb8\t1", "กา​น\tk_A_0@2", "﻿กา\tk_A_0@2", "กา" + string (300, 'a'), string (255, 'x'), string (256, 'x'), string (511, 'x'),
                 "กา\t" + string (600, 'd'), "กา\t" + string (2000, 'd'), string ("กา\tk\0z", 10), string ("ก\0า\tk_A_0@2", 15) };
    }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        if (bytes()) { sequences (emit); return; }
        for (size_t s = 0; s < source.size(); ++s) {
            for (long k = 0; k <= size[s] + 1; ) {
                emit ("W" + to_string (s) + " " + to_string (k));
                bool near = k % 4096 < 4 || k % 4096 > 4092;
                k += size[s] < 4000 || th || near || k + 20 > size[s] ? 1 : min<long> (61, max<long> (1, min<long> (4093 - k % 4096, size[s] - 20 - k)));
            }
            if (size[s] < 0) emit ("W" + to_string (s) + " 0");
        }
        for (size_t b = 0; b < shapes().size(); ++b) for (int at = 0; at < 4; ++at) for (int nl = 0; nl < 2; ++nl)
            emit ("B" + to_string (b) + " " + to_string (at) + " " + to_string (nl));
        // line lengths around the sizes a reader may have
        for (int last = 0; last < 2; ++last) for (int w : { 1, 10, 40, 80, 84, 85, 86, 100, 170 })
            for (int total : { 100, 127, 128, 129, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 383, 384, 508, 509, 510, 511, 512, 513, 514, 600, 765, 1022, 1023, 1024, 1025 })
                if (total > 3 * w) emit ("L" + to_string (w) + " " + to_string (total - 3 * w - 1) + " " + to_string (last));
        // data filling whatever room is kept for it, to the byte
        for (int l = 0; l <= 240; l += th ? 1 : l < 8 ? 1 : 3) for (int p : { 0, 1, 2, 3, 61 }) for (int turn = 0; turn < 2; ++turn)
            emit ("M" + to_string (l) + " " + to_string (p) + " " + to_string (turn));
        for (int i = 0; i < 18; ++i) emit ("E" + to_string (i));
    }
    void sequences (const Emit& emit)
    {
        bool th = opt.thorough();
        // all single bytes, all pairs and many triples around the Thai lead bytes
        auto hex = [&] (const string& s) { emit ("U" + hexStr (s)); };
        for (int a = 1; a < 256; ++a) if (a != '\t' && a != '\n') {
            hex (string (1, char (a)));
            for (int b : { 0x7f, 0x80, 0x81, 0xb8, 0xb9, 0xbf, 0xc0, 0xe0, 0x61 }) {
                hex (string { char (a), char (b) });
                for (int c : { 0x80, 0x81, 0xb8, 0xbf, 0xc2, 0x61 }) {
                    hex (string { char (a), char (b), char (c) });
                    if (a >= 0xf0 || th) for (int d : { 0x80, 0x81, 0xbf, 0x61 }) {
                        hex (string { char (a), char (b), char (c), char (d) });
                        if (a >= 0xf8) hex (string { char (a), char (b), char (c), char (d), char (0x81) }), hex (string { char (a), char (b), char (c), char (0xb8), char (0x81) }),
                            hex (string { char (a), char (0x80), char (0x80), char (0x80), char (0xb8), char (0x81) }), hex (string { char (a), char (b), char (c), char (d), char (0xb8), char (0x81) });
                    }
                }
            }
        }
        hex ("\xf0\x80\xb8\x81"); hex ("\xf8\x80\x80\xb8\x81"); hex ("\xfc\x80\x80\x80\xb8\x81"); hex ("\xfe\x80\x80\x80\x80\xb8\x81"); hex ("\xc0\x80"); hex ("\xe0\x80\x80");
    }
    string show (const string& c) override { return c[0] == 'U' ? "bytes " + c.substr (1) : c; }

    static bool validUtf8 (const string& s)
    {
        for (size_t i = 0; i < s.size(); ) {
            unsigned char h = s[i];
            int n = h < 0x80 ? 1 : h >= 0xc2 && h < 0xe0 ? 2 : h >= 0xe0 && h < 0xf0 ? 3 : h >= 0xf0 && h < 0xf5 ? 4 : 0;
            if (!n || i + n > s.size()) return false;
            uint32_t u = n == 1 ? h : h & (0x7f >> n);
            for (int k = 1; k < n; ++k) {
                if ((s[i + k] & 0xc0) != 0x80) return false;
                u = u << 6 | (s[i + k] & 0x3f);
            }
            if ((n == 3 && u < 0x800) || (n == 4 && (u < 0x10000 || u > 0x10ffff)) || (u >= 0xd800 && u < 0xe000)) return false;
            i += n;
        }
        return true;
    }
    // the entries of a source text; false if some line is malformed
    static bool entries (const string& src, map<string, string>& m)
    {
        size_t i = 0;
        while (i < src.size()) {
            size_t e = src.find ('\n', i);
            string line = src.substr (i, e == string::npos ? e : e - i);
            i = e == string::npos ? src.size() : e + 1;
            size_t t = line.find ('\t');
            if (t == string::npos || line.find ('\0') != string::npos || !validUtf8 (line.substr (0, t))) return false;
            m[line.substr (0, t)] = line.substr (t + 1);
        }
        return true;
    }
    static bool contains (const string& path, const map<string, string>& m, string& why)
    {
        Dict d;
        if (!d.open (path.c_str())) { why = "the output is not a dictionary"; return false; }
        for (auto& e : m) {
            U16 w = toU16 (e.first);
            if (w.empty()) continue;
            Match k (w, 0, &d);
            bool ok = false;
            while (k.findNext()) if (k.getCurPos() == (int) w.size()) ok = k.getData() == e.second;
            if (!ok) { why = "the output lacks " + e.first.substr (0, 100); return false; }
        }
        return true;
    }
    void judge (const string& src, Ctx& ctx, long limit = -1, bool mustWork = false, bool mustFail = false)
    {
        string in = opt.tmp + "/i." + to_string (getpid()), out = opt.tmp + "/o." + to_string (getpid());
        writeFile (in, src);
        unlink (out.c_str());
        auto r = runProgram ({ opt.bin + "/gen-lookup-dict", in, out }, "", 60, "", limit);
        verdict (r, src, out, ctx, mustWork, mustFail);
        unlink (in.c_str());
        unlink (out.c_str());
    }
    void verdict (const RunResult& r, const string& src, const string& out, Ctx& ctx, bool mustWork, bool mustFail)
    {
        ctx.add ("compiler_runs");
        if (r.timeout || !WIFEXITED (r.status)) { ctx.fail ("the compiler did not exit"); return; }
        map<string, string> m;
        bool good = entries (src, m);
        string why;
        if (WEXITSTATUS (r.status) == 0) {
            ctx.add ("reported_success");
            if (mustFail) ctx.fail ("success reported");
            else if (!good) ctx.fail ("success reported for malformed input");
            else if (!contains (out, m, why)) ctx.fail ("success reported but " + why);
        } else {
            ctx.add ("reported_failure");
            if (r.err.empty() && r.out.empty()) ctx.fail ("failure without a message");
            if (mustWork) ctx.fail ("failure reported: " + r.err.substr (0, 200));
        }
    }
    void eval (const string& c, Ctx& ctx) override
    {
        ctx.see ("nontrivial", c);
        if (c[0] == 'W') {
            int s; long k;
            sscanf (c.c_str() + 1, "%d %ld", &s, &k);
            if (size[s] < 0) { ctx.fail ("a good source is refused"); return; }
            judge (source[s], ctx, k, k >= size[s], k < size[s]);
            if (k == 50) ctx.sample ("write failing after " + to_string (k) + " of " + to_string (size[s]) + " bytes");
        } else if (c[0] == 'B') {
            int b, at, nl;
            sscanf (c.c_str() + 1, "%d %d %d", &b, &at, &nl);
            string src;
            static const char* const ok[] = { "มา\tm_A_0@2", "นา\tn_A_0@2", "ตา\tt_A_0@2" };
            string bad = shapes()[b];
            for (int i = 0; i < 4; ++i) src += (i == at ? bad : ok[i > at ? i - 1 : i]) + string ("\n");
            if (!nl) src.pop_back();
            // an unterminated last line that is empty is no line; one with a
            // null byte ends there for a reader of text
            if (!nl && at == 3 && (bad.empty() || bad.find ('\0') != string::npos)) return;
            judge (src, ctx);
            if (at == 2) ctx.sample (src.substr (0, 120));
        } else if (c[0] == 'U') {
            string u = unhexStr (c.substr (1));
            for (auto& w : { u, "ก" + u, u + "า", "ก" + u + "า" }) {
                judge ("มา\tm_A_0@2\n" + w + "\tk_A_0@2\nนา\tn_A_0@2\n", ctx);
                if (!ctx.failMsgs.empty()) break;
            }
        } else if (c[0] == 'L') {
            int w, d, last;
            sscanf (c.c_str() + 1, "%d %d %d", &w, &d, &last);
            string word;
            for (int i = 0; i < w; ++i) word += i % 2 ? "า" : "ก";
            string data (d, 'd');
            for (int i = 0; i < d; i += 10) data[i] = '0' + i / 10 % 10;
            string src = "มา\tm_A_0@2\n" + word + "\t" + data;
            // an entry well within the shortest line limit is always taken
            bool must = 3 * w + d < 250;
            judge (last ? src : src + "\nนา\tn_A_0@2\n", ctx, -1, must);
        } else if (c[0] == 'M') {
            int l, p, turn;
            sscanf (c.c_str() + 1, "%d %d %d", &l, &p, &turn);
            string src;
            for (int i = 0; i < 700; ++i) {
                int n = turn ? i % 2 ? p : l : i ? p : l;
                string data (n, char ('a' + i % 26));
                src += toU8 (U16 { char16_t (0xe01 + i % 46), char16_t (0xe01 + i / 46) }) + "\t" + data + "\n";
            }
            judge (src, ctx, -1, l && p);
        } else {
            string dir = opt.tmp + "/e." + to_string (getpid());
            mkdir (dir.c_str(), 0700);
            string in = dir + "/in", out = dir + "/out", prog = opt.bin + "/gen-lookup-dict";
            writeFile (in, source[1]);
            auto fail = [&] (const vector<string>& args) {
                auto r = runProgram (args);
                verdict (r, source[1], out, ctx, false, true);
            };
            switch (atoi (c.c_str() + 1)) {
            case 0: fail ({ prog, dir + "/none", out }); break;
            case 1: fail ({ prog, dir, out }); break;
            case 2: fail ({ prog, in, dir }); break;
            case 3: fail ({ prog, in, dir + "/none/out" }); break;
            case 4: fail ({ prog, in, "/dev/full" }); break;
            case 5: fail ({ prog }); break;
            case 6: fail ({ prog, in }); break;
            case 7: fail ({ prog, in, out, out }); break;
            case 8: fail ({ prog, "", out }); break;
            case 9: fail ({ prog, in, "" }); break;
            case 10: {  // over an existing, longer file
                writeFile (out, string (100000, 'x'));
                verdict (runProgram ({ prog, in, out }), source[1], out, ctx, true, false);
                break; }
            case 11: {  // an earlier good output is not taken for the result of a failed run
                verdict (runProgram ({ prog, in, out }), source[1], out, ctx, true, false);
                writeFile (in, source[1] + "bad line\n");
                fail ({ prog, in, out });
                break; }
            // the output is the input under some name
            case 12: verdict (runProgram ({ prog, in, in }), source[1], in, ctx, false, false); break;
            case 13: if (!link (in.c_str(), out.c_str())) verdict (runProgram ({ prog, in, out }), source[1], out, ctx, false, false); break;
            case 14: if (!symlink ("in", out.c_str())) verdict (runProgram ({ prog, in, out }), source[1], out, ctx, false, false); break;
            case 15: verdict (runProgram ({ prog, in, dir + "/.//in" }), source[1], in, ctx, false, false); break;
            // streams in place of files
            case 16: verdict (runProgram ({ prog, "/dev/stdin", out }, source[1]), source[1], out, ctx, false, false); break;
            case 17: {
                auto r = runProgram ({ prog, in, "/dev/stdout" });
                writeFile (out, r.out);
                verdict (r, source[1], out, ctx, false, false);
                break; }
            }
            for (auto& f : { in, out }) unlink (f.c_str());
            rmdir (dir.c_str());
        }
    }
};
REGISTER_CHECK (CompilerCheck, "compiler");

// undecodable byte sequences only
struct CompilerBytesCheck : CompilerCheck {
    bool bytes() override { return true; }
};
REGISTER_CHECK (CompilerBytesCheck, "compiler-bytes");
