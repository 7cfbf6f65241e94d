// C19: command-line options mean the same in any combination and position.
#include "real.h"

#include <algorithm>
#include <cstring>
#include <stdexcept>
#include <sys/stat.h>
#include <sys/wait.h>

using namespace std;

// A case is a letter for the standard input, then the arguments as letters
struct OptionsCheck : Check {
    map<char, string> token;
    string wordL, wordA = "ทราบตากลม", wordB = "กา 1.x", wordC = "ก";
    string good1, good2;
    map<char, vector<string>> input;    // lines a program reads
    map<char, string> inputText;
    map<pair<int, int>, unique_ptr<Parser>> parsers;
    size_t distinct = 0;    // 8 on a sound tree; recorded in the evidence

    void prepare() override
    {
        good1 = compileDict ("o1", "กลม\tb_i_0@1,s_U_4@3\nลม\tf_a_3@2\n");
        good2 = compileDict ("o2", "ตา\tm_I_0@2;s_A_1@2\n");
        string bad = opt.tmp + "/bad.dic";
        writeFile (bad, "nothing");
        // paths that are long or spelled unusually
        string deep = opt.tmp;
        for (int i = 0; i < 8; ++i) { deep += "/" + string (100, char ('a' + i)); mkdir (deep.c_str(), 0700); }
        writeFile (deep + "/x.dic", readFile (good1));
        string odd = opt.tmp + "/กา -n\t\"'=%s\\.dic";
        writeFile (odd, readFile (good2));
        wordL = "กา";
        for (int i = 0; i < 120; ++i) wordL += i % 3 ? "ไป" : "x ";
        token = { { '4', "-d" + deep + "/x.dic" }, { '5', "-d" + odd }, { 'L', wordL }, { 'r', "-r" }, { 't', "-t" }, { 'p', "-p" }, { 'w', "-w" }, { 's', "-s" }, { 'j', "-j" }, { 'g', "-g" }, { 'n', "-n" },
                  { '1', "-d" + good1 }, { '2', "-d" + good2 }, { '3', "-d" + bad },
                  { 'A', wordA }, { 'B', wordB }, { 'C', wordC }, { 'E', "" },
                  { 'd', "-d" }, { 'V', "-V" }, { 'v', "--version" }, { 'h', "-h" }, { 'H', "--help" }, { 'x', "-x" }, { 'X', "--bogus" }, { '-', "-" } };
        input['0'] = {};
        input['1'] = { wordB, wordA };
        input['2'] = { wordA };
        input['3'] = { "", wordC, "", wordB };
        inputText['0'] = "";
        inputText['1'] = wordB + "\n" + wordA + "\n";
        inputText['2'] = wordA;
        inputText['3'] = "\n" + wordC + "\n\n" + wordB + "\n";
        // every combination of dictionary and segmentation shows in the word
        set<string> seen;
        for (int d = 0; d < 4; ++d) for (int s = 0; s < 2; ++s)
            seen.insert (textOutput (3, 0)->output (parser (d, s).parseWord (wordA)));
        distinct = seen.size();
    }
    Parser& parser (int d, int seg)     // 0 shipped, 1, 2, 3 none
    {
        auto& p = parsers[{ d, seg }];
        if (!p) {
            p.reset (new Parser (seg != 0));
            if (d < 3) p->loadExceptDict ((d == 0 ? opt.bin + "/except.dic" : d == 1 ? good1 : good2).c_str());
        }
        return *p;
    }
    map<string, string> rendered;
    const string& rendering (int d, int seg, int n, int structure, const string& w)
    {
        string k = to_string (d) + to_string (seg) + to_string (n) + to_string (structure) + w;
        auto it = rendered.find (k);
        if (it == rendered.end()) it = rendered.emplace (k, textOutput (n, structure)->output (parser (d, seg).parseWord (w))).first;
        return it->second;
    }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        const string all = "rtpwsjgn123ABEdVvhHxX-";
        function<void (const string&, const string&, int, char)> rec = [&] (const string& alpha, const string& s, int n, char in) {
            emit (in + s);
            if (n) for (char c : alpha) rec (alpha, s + c, n - 1, in);
        };
        rec (all, "", 3, '1');
        for (char in : { '0', '2', '3' }) rec (all, "", 2, in);
        rec (th ? "rtwsjgn12A" : "rwgj1A", "", 4, '1');
        rec (th ? "rsgn2BA" : "tjnA", "", 5, '2');
        // other paths, a long word
        rec ("w45LA1", "", 4, '1');
        // many of everything
        for (auto unit : { "A", "w", "B", "E", "1", "4", "n", "j", "g", "rA", "1A2", "tsC", "3A1", "jg" })
            for (int n : { 5, 9, 17, 33, 65, 130, 260 }) {
                if (n > 65 && strlen (unit) > 1) break;
                string s;
                for (int i = 0; i < n; ++i) s += unit;
                emit ("1" + s);
                emit ("2" + s + "A");
                emit ("3w" + s + "5");
            }
        // all orders of all notations
        string perm = "prstw";
        do for (auto st : { "", "j", "g", "n" }) for (size_t k = 0; k <= 5; ++k) {
            emit ("2" + perm.substr (0, k) + st + perm.substr (k));
            emit ("0" + perm.substr (0, k) + "A" + perm.substr (k) + st);
        } while (next_permutation (perm.begin(), perm.end()));
    }
    string show (const string& c) override
    {
        string s = "standard input " + c.substr (0, 1) + ", arguments";
        for (size_t i = 1; i < c.size(); ++i) s += " " + string (1, c[i]);
        return s;
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c == "1") ctx.add ("settings_told_apart_by_the_probe_word", distinct);
        vector<string> argv { opt.bin + "/thpronun" };
        vector<int> notations;
        int structure = 0, seg = 1, d = 0;
        bool stop = false;
        vector<string> words;
        bool args = false;
        for (size_t i = 1; i < c.size(); ++i) {
            char o = c[i];
            argv.push_back (token.at (o));
            static const string order = "trpws";
            size_t n = order.find (o);
            if (n != string::npos) notations.push_back (n);
            else if (o == 'j') structure = max (structure, 1);
            else if (o == 'g') structure = 2;
            else if (o == 'n') seg = 0;
            else if (isdigit (o)) d = o > '3' ? o - '3' : o - '0';
            else if (strchr ("ABCEL", o)) { words.push_back (token.at (o)); args = true; }
            else stop = true;
        }
        if (notations.empty()) notations = { 0, 1, 2 };
        if (!args) words = input.at (c[0]);
        auto r = runProgram (argv, inputText.at (c[0]));
        ctx.add ("program_runs");
        if (r.timeout || !WIFEXITED (r.status)) { ctx.fail ("the program did not end normally"); return; }
        if (stop) {
            ctx.add ("stopped");
            for (auto& w : { wordA, wordB }) if (r.out.find (w + ":") != string::npos) ctx.fail ("a word is analysed");
            if (r.out.compare (0, 2, ":\n") == 0) ctx.fail ("a word is analysed");
            if (r.out.empty() && r.err.empty()) ctx.fail ("stopped without saying anything");
            ctx.see ("nontrivial", "stop" + r.out + r.err);
            return;
        }
        string want;
        for (auto& w : words) {
            want += w + ":\n";
            for (int n : notations) want += rendering (d, seg, n, structure, w) + "\n";
        }
        if (r.out != want) ctx.fail ("printed " + r.out.substr (0, 400) + "\ninstead of " + want.substr (0, 400));
        if (WEXITSTATUS (r.status) != 0) ctx.fail ("exit status " + to_string (WEXITSTATUS (r.status)));
        if (c.size() > 60) { ctx.add ("long_argument_lists"); if (c.find ('3', 1) != string::npos) { ctx.see ("nontrivial", want); return; } }
        if ((d == 3) == r.err.empty()) ctx.fail (d == 3 ? "no warning for a bad dictionary" : "unexpected message: " + r.err.substr (0, 200));
        if (!want.empty()) ctx.see ("nontrivial", want);
        if (c.size() == 4 && args) ctx.sample (show (c));
    }
};
REGISTER_CHECK (OptionsCheck, "options");
