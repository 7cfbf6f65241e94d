// C18: an analysis depends only on the text, dictionary and segmentation.
#include "real.h"

#include <array>
#include <list>
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;

// A case is a history; each letter one operation:
//   a-f  word 0-5 with the segmenting analyser     A-F  with the other
//   0 1 2 3  load good, other, bad, missing dictionary into the first
//   4 5 6 7  the same into the second
//   8 9  put the good, other dictionary at one path and load it into the first
//   x    a third analyser comes, reads a word and goes
//   y    render a reading graph kept from before once more
//   z    text that is not UTF-8, to both
// or "=", segmentation, first word, step: a session over many words
// or "*", way, number: a session of that many short words, with the probe
// words asked around every power of two
struct HistoryCheck : Check {
    vector<string> words = { "กา", "ตากลม", "ทราบ", "กก. นา", "x1", "์" };
    vector<string> dict;
    // fresh[seg][dict: none, good, other][word] = outputs
    map<array<int, 3>, vector<string>> fresh;

    // all 15 renderings of a word by a process of its own
    vector<string> ask (bool seg, const string& d, const string& w)
    {
        vector<string> r;
        for (auto st : { "", "-j", "-g" }) {
            vector<string> argv = { opt.bin + "/thpronun", "-t", "-r", "-p", "-w", "-s", "-d" + d };
            if (*st) argv.push_back (st);
            if (!seg) argv.push_back ("-n");
            for (const char* n : { "-t", "-r", "-p", "-w", "-s" }) {
                vector<string> one = { argv[0], n, "-d" + d };
                if (*st) one.push_back (st);
                if (!seg) one.push_back ("-n");
                auto x = runProgram (one, w + "\n");
                if (!WIFEXITED (x.status) || WEXITSTATUS (x.status)) throw runtime_error ("the program failed on " + w);
                size_t p = x.out.find ('\n');
                r.push_back (p == string::npos ? "?" : x.out.substr (p + 1));
                if (!r.back().empty() && r.back().back() == '\n') r.back().pop_back();
            }
        }
        return r;
    }
    string broken;
    void prepare() override
    {
        dict.push_back (compileDict ("h1", "กา\td_A_2@2\nกลม\tb_i_0@1,s_U_4@3\n"));
        dict.push_back (compileDict ("h2", "ตา\tm_I_0@2;s_A_1@2\nกา\tb_x_3@2\nทราบ\tT_Ap2@4\n"));
        writeFile (opt.tmp + "/h3", readFile (dict[0]).substr (0, 60));
        dict.push_back (opt.tmp + "/h3");
        dict.push_back (opt.tmp + "/missing");
        set<string> all;
        try {
            for (int s = 0; s < 2; ++s) for (int d = 0; d < 3; ++d) for (size_t w = 0; w < words.size(); ++w)
                fresh[{ s, d, (int) w }] = ask (s, d ? dict[d - 1] : dict[3], words[w]);
        } catch (const exception& e) { broken = e.what(); }
    }
    static const string& ops() { static const string o = "abcdefABCDEF0123456789xyz"; return o; }
    void generate (const Emit& emit) override
    {
        int depth = opt.thorough() ? 5 : 4;
        function<void (const string&)> rec = [&] (const string& h) {
            if (!h.empty()) emit (h);
            if ((int) h.size() < depth) for (char c : ops()) rec (h + c);
        };
        rec ("");
        // longer ones over fewer operations
        const string few = opt.thorough() ? "aBcF0516y" : "bC05x1";
        function<void (const string&)> deep = [&] (const string& h) {
            if ((int) h.size() > depth) emit (h);
            if ((int) h.size() < 7) for (char c : few) deep (h + c);
        };
        deep ("");
        function<void (const string&)> swap = [&] (const string& h) {
            if ((int) h.size() > depth) emit (h);
            if ((int) h.size() < 7) for (char c : string ("a389")) swap (h + c);
        };
        swap ("");
        // sessions over many words
        size_t n = libWords().size(), step = opt.thorough() ? 1 : 5;
        for (int s = 0; s < 2; ++s) for (size_t k = 0; k < n; k += 120 * step) emit ("=" + to_string (s) + " " + to_string (k) + " " + to_string (step));
        // sessions of very many words
        for (int s = 0; s < 4; ++s) emit ("*" + to_string (s) + " " + to_string (opt.thorough() ? 600000 : 140000));
    }
    // segmenting or not; through the library or as one batch of the program
    void endless (const string& c, Ctx& ctx)
    {
        int s = 0, count = 0;
        sscanf (c.c_str() + 1, "%d %d", &s, &count);
        bool seg = s & 1;
        static const char* const filler[] = { "กา", "x", "", "ตา", "ก" };
        auto probe = [] (int i) {
            for (int k = 64; k <= 1 << 20; k *= 2) if (i % k <= 2 && i / k == 1) return true;
            return i % 10000 < 2 || i % 65536 < 8 || i % 65536 > 65530;
        };
        if (s & 2) {
            string in, want;
            vector<string> fill;
            for (auto w : filler) {
                auto x = ask (seg, dict[0], w);
                fill.push_back (string (w) + ":\n" + x[8] + "\n");
            }
            for (int i = 0; i < count; ++i) {
                if (probe (i)) for (size_t w = 0; w < words.size(); ++w) { in += words[w] + "\n"; want += words[w] + ":\n" + fresh.at ({ seg, 1, (int) w })[8] + "\n"; }
                in += string (filler[i % 5]) + "\n";
                want += fill[i % 5];
                ctx.add ("model_transitions");
            }
            vector<string> av { opt.bin + "/thpronun", "-j", "-w", "-d" + dict[0] };
            if (!seg) av.push_back ("-n");
            auto r = runProgram (av, in, 200);
            if (r.timeout) { ctx.fail ("the program does not finish"); return; }
            if (!WIFEXITED (r.status) || WEXITSTATUS (r.status)) { ctx.fail ("the program failed with status " + to_string (r.status)); return; }
            if (r.out != want) {
                size_t k = 0;
                while (k < r.out.size() && k < want.size() && r.out[k] == want[k]) ++k;
                size_t b = k > 60 ? k - 60 : 0;
                ctx.fail ("late in a batch: " + r.out.substr (b, 160) + " instead of " + want.substr (b, 160));
            }
            ctx.add ("model_states", count);
            return;
        }
        Parser p (dict[0].c_str(), seg);
        auto out = textOutput (3, 1);
        for (int i = 0; i < count; ++i) {
            if (probe (i)) for (size_t w = 0; w < words.size(); ++w) {
                string got = out->output (p.parseWord (words[w]));
                if (got != fresh.at ({ seg, 1, (int) w })[8]) { ctx.fail ("after " + to_string (i) + " words " + words[w] + " is read " + got); return; }
                ctx.add ("renderings");
            }
            p.parseWord (filler[i % 5]);
            ctx.add ("model_transitions");
        }
        ctx.add ("model_states", count);
    }
    void session (const string& c, Ctx& ctx)
    {
        int s = 0, k = 0, step = 1;
        sscanf (c.c_str() + 1, "%d %d %d", &s, &k, &step);
        auto& lw = libWords();
        vector<string> w;
        for (size_t i = k; i < lw.size() && w.size() < 120; i += step) w.push_back (lw[i]);
        vector<string> want;
        for (auto& x : w) {
            vector<string> argv { opt.bin + "/thpronun", "-j", "-w", "-d" + dict[0] };
            if (!s) argv.push_back ("-n");
            want.push_back (runProgram (argv, x + "\n").out);
        }
        static unique_ptr<Parser> pool[2];
        if (!pool[s]) { pool[s].reset (new Parser (s == 1)); pool[s]->loadExceptDict (dict[0].c_str()); }
        static auto out = textOutput (3, 1);
        int n = w.size();
        for (int round = 0; round < 4; ++round) for (int i = 0; i < n; ++i) {
            int at = round == 1 ? n - 1 - i : round == 2 ? i * 7 % n : i;
            ctx.add ("model_transitions");
            string got = w[at] + ":\n" + out->output (pool[s]->parseWord (w[at])) + "\n";
            if (got != want[at]) { ctx.fail (got.substr (0, 300) + " in a session, alone " + want[at].substr (0, 300)); return; }
        }
        ctx.add ("model_states", n);
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (!broken.empty()) { ctx.fail (broken); return; }
        if (c[0] == '=') { session (c, ctx); return; }
        if (c[0] == '*') { endless (c, ctx); return; }
        // short histories have analysers of their own; the others continue
        // with those of the worker, from the state without dictionary
        static unique_ptr<Parser> pool[2];
        bool own = c.size() <= 3;
        unique_ptr<Parser> mine[2];
        for (int s = 0; s < 2; ++s) if (own) mine[s].reset (new Parser (s == 1)); else if (!pool[s]) pool[s].reset (new Parser (s == 1));
        Parser* p[2] = { (own ? mine : pool)[0].get(), (own ? mine : pool)[1].get() };
        for (auto q : p) if (!own) q->loadExceptDict (dict[3].c_str());
        int cur[2] = { 0, 0 };
        // the same output objects serve the whole history
        static vector<unique_ptr<IOutput>> out;
        if (out.empty()) for (int s = 0; s < 3; ++s) for (int n = 0; n < 5; ++n) out.push_back (textOutput (n, s));
        list<pair<PronunDAG, array<int, 3>>> kept;
        int turn = c.size() + c[0];
        auto judge = [&] (const PronunDAG& d, const array<int, 3>& k, const char* what) {
            auto& want = fresh.at (k);
            for (int i = 0; i < 15; i += 4) {
                int o = (turn + i) % 15;
                ctx.add ("renderings");
                if (out[o]->output (d) != want[o]) {
                    ctx.fail (string (what) + ": " + words[k[2]] + " is read " + out[o]->output (d).substr (0, 200) + ", not " + want[o].substr (0, 200));
                    return;
                }
            }
            ++turn;
        };
        for (char o : c) {
            ctx.add ("model_transitions");
            if (isalpha (o) && o < 'x') {
                int s = islower (o) ? 1 : 0, w = tolower (o) - 'a';
                array<int, 3> k { s, cur[s], w };
                kept.push_back ({ p[s]->parseWord (words[w]), k });
                judge (kept.back().first, k, "now");
            } else if (o == '8' || o == '9') {
                string path = opt.tmp + "/h." + to_string (getpid());
                writeFile (path + "+", readFile (dict[o - '8']));
                rename ((path + "+").c_str(), path.c_str());
                if (!p[1]->loadExceptDict (path.c_str())) ctx.fail ("a good dictionary is refused");
                cur[1] = o - '8' + 1;
            } else if (isdigit (o)) {
                int s = o < '4' ? 1 : 0, d = (o - '0') % 4;
                bool ok = p[s]->loadExceptDict (dict[d].c_str());
                cur[s] = d < 2 ? d + 1 : 0;
                if (ok != (d < 2)) ctx.fail ("loading reports the wrong result");
            } else if (o == 'x') {
                for (int d = 0; d < 3; ++d) {
                    bool sg = own && d == 1;
                    Parser third (dict[d].c_str(), sg);
                    array<int, 3> k { sg, d < 2 ? d + 1 : 0, d };
                    judge (third.parseWord (words[d]), k, "by another analyser");
                }
            } else if (o == 'y') {
                if (!kept.empty()) judge (kept.front().first, kept.front().second, "kept");
            } else {
                for (auto q : p) {
                    for (auto t : { "\xff", "ก\xe0\xb8", "ก\xb8กา" }) try { q->parseWord (t); } catch (const range_error&) {}
                }
            }
            if (!ctx.failMsgs.empty()) return;
        }
        for (auto& k : kept) judge (k.first, k.second, "kept to the end");
        ctx.add ("model_states");
        ctx.see ("dictionary_states", to_string (cur[0]) + to_string (cur[1]));
        if (c.size() == 4 && c[0] == 'b' && isdigit (c[1])) ctx.sample (c);
    }
};
REGISTER_CHECK (HistoryCheck, "history");
