// C16: a truncated or foreign dictionary file is refused, and work continues.
#include "real.h"
#include "spaces.h"
#include "dict/dict.h"

#include <sys/stat.h>
#include <unistd.h>

using namespace std;

// cases: "T" dictionary, length: cut off there; "F" foreign file number
//        "M" byte, value: another mark at the beginning
//        "H" history of opens on one dictionary object; "P" on one analyser
struct BadFileCheck : Check {
    vector<string>        good, image;      // paths and contents
    vector<string>        foreign;          // contents
    vector<string>        odd;              // paths
    vector<string>        place;            // files a history opens
    map<string, string>   words;            // word -> reading without, with 0, with 1
    vector<vector<string>> reading;
    static const char* text (int i) { static const char* const t[] = { "กา", "นา", "มานี", "กานา", "ก" }; return t[i]; }

    void prepare() override
    {
        good.push_back (compileDict ("a", "กา\td_A_2@2\nกาน\tb_i_0@1,s_U_4@3\n"));
        good.push_back (compileDict ("b", "นา\tm_I_0@2;s_A_1@2\nก\tb_x_3@1\n"));
        good.push_back (compileDict ("e", ""));
        string big;
        auto& w = libWords();
        for (size_t i = 0; i < w.size(); i += 60) big += w[i] + "\tk_A_0@" + to_string (i) + "\n";
        good.push_back (compileDict ("c", big));
        for (auto& g : good) image.push_back (readFile (g));
        string ship = opt.bin + "/except.dic";
        good.push_back (ship);
        image.push_back (readFile (ship));

        for (int n : { 1, 2, 3, 4, 5, 8, 16, 64, 300, 5000 }) for (int b : { 0, 1, 0xd9, 0xff, 0x61, 0x0a }) foreign.push_back (string (n, char (b)));
        foreign.push_back ("กา\td_A_2@2\n");
        foreign.push_back (readFile (opt.repo + "/data/ex-misc.tsv"));
        foreign.push_back (readFile (opt.bin + "/thpronun").substr (0, 70000));
        foreign.push_back (readFile ("/usr/share/libthai/thbrk.tri"));
        foreign.push_back (image[0].substr (1));
        foreign.push_back (" " + image[0]);
        foreign.push_back (string (image[0].rbegin(), image[0].rend()));
        foreign.push_back (image[0].substr (4));
        foreign.push_back (image[0].substr (0, 4) + image[0]);
        odd = { opt.tmp + "/no-such-file", opt.tmp, "/dev/null", "", opt.tmp + "/a/b/c" };

        writeFile (opt.tmp + "/cut", image[0].substr (0, image[0].size() - 1));
        writeFile (opt.tmp + "/cut2", image[0].substr (0, image[0].size() - 40));
        writeFile (opt.tmp + "/empty", "");
        writeFile (opt.tmp + "/other", "not a dictionary\n");
        place = { good[0], good[1], opt.tmp + "/no-such-file", opt.tmp + "/empty", opt.tmp + "/cut", opt.tmp + "/cut2", opt.tmp + "/other", "close" };
        // what each dictionary means, from fresh objects
        for (int d = -1; d < 2; ++d) {
            vector<string> r;
            Parser p (false);
            if (d >= 0) p.loadExceptDict (good[d].c_str());
            for (int t = 0; t < 5; ++t) r.push_back (textOutput (3, 0)->output (p.parseWord (text (t))));
            reading.push_back (r);
        }
    }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        for (size_t d = 0; d < image.size(); ++d) {
            size_t n = image[d].size();
            for (size_t k = 0; k < n; ) {
                emit ("T" + to_string (d) + " " + to_string (k));
                // every length of the small ones; ends, beginnings and a stride of the large
                k += n < 3000 || th || k < 300 || k + 300 > n ? 1 : min<size_t> (37, n - 300 - k > 0 ? n - 300 - k + 1 : 1);
            }
        }
        for (size_t i = 0; i < foreign.size(); ++i) emit ("F" + to_string (i));
        for (size_t i = 0; i < odd.size(); ++i) emit ("O" + to_string (i));
        for (int b = 0; b < 256; ++b) emit ("1" + to_string (b));
        for (int k = 0; k < 4; ++k) for (int b = 0; b < 256; ++b) if (b != (unsigned char) image[0][k]) emit ("M" + to_string (k) + " " + to_string (b));
        int depth = th ? 6 : 5;
        for (char kind : { 'H', 'P' }) {
            int n = kind == 'H' ? 8 : 7;    // an analyser has no close
            function<void (string)> rec = [&] (string h) {
                if (!h.empty()) emit (kind + h);
                if ((int) h.size() < (kind == 'H' ? depth : depth - 1)) for (int k = 0; k < n; ++k) rec (h + char ('0' + k));
            };
            rec ("");
        }
    }
    static int number (const string& s) { return atoi (s.c_str()); }
    // an object without dictionary finds nothing
    static bool holds (const Dict& d, const char* word, const char* data)
    {
        U16 w = toU16 (word);
        Match m (w, 0, &d);
        bool f = m.findNext();
        return data ? f && m.getData() == data : !f;
    }
    string state (const Dict& d, int want)
    {
        if ((d.trie() != nullptr) != (want >= 0)) return want >= 0 ? "no dictionary is open" : "a dictionary is left open";
        if (!holds (d, "กา", want == 0 ? "d_A_2@2" : want == 1 ? nullptr : nullptr) && want != 1) return "wrong entry";
        if (want == 1 && !(holds (d, "นา", "m_I_0@2;s_A_1@2") && holds (d, "ก", "b_x_3@1"))) return "wrong entry";
        if (want != 1 && !holds (d, "นา", nullptr)) return "an entry of another dictionary";
        return "";
    }
    string state (const Parser& p, int want)
    {
        for (int t = 0; t < 5; ++t)
            if (textOutput (3, 0)->output (p.parseWord (text (t))) != reading[want + 1][t]) return string ("reading of ") + text (t) + " differs";
        return "";
    }
    void refused (const string& path, Ctx& ctx)
    {
        ctx.add ("opens");
        Dict d;
        if (d.open (path.c_str())) { ctx.fail ("accepted by open"); return; }
        string s = state (d, -1);
        if (!s.empty()) ctx.fail ("after refusal: " + s);
        if (!d.open (good[0].c_str()) || !state (d, 0).empty()) ctx.fail ("a good dictionary cannot be opened afterwards");
        if (d.open (path.c_str())) ctx.fail ("accepted after a good one");
        s = state (d, -1);
        if (!s.empty()) ctx.fail ("after a good one: " + s);
        Dict e (path.c_str());
        if (e.trie()) ctx.fail ("accepted by the constructor");
        Parser p (false);
        if (p.loadExceptDict (path.c_str())) ctx.fail ("accepted by the analyser");
        s = state (p, -1);
        if (!s.empty()) ctx.fail (s);
        if (!p.loadExceptDict (good[1].c_str())) ctx.fail ("the analyser refuses a good dictionary afterwards");
        s = state (p, 1);
        if (!s.empty()) ctx.fail (s);
        Parser q (path.c_str(), false);
        s = state (q, -1);
        if (!s.empty()) ctx.fail (s);
    }
    void eval (const string& c, Ctx& ctx) override
    {
        string tmp = opt.tmp + "/x." + to_string (getpid());
        auto file = [&] (const string& data) {
            writeFile (tmp, data);
            refused (tmp, ctx);
            unlink (tmp.c_str());
            ctx.see ("nontrivial", data);
        };
        if (c[0] == 'T') {
            int d, k;
            sscanf (c.c_str() + 1, "%d %d", &d, &k);
            file (image[d].substr (0, k));
            if (k == 20) ctx.sample ("dictionary " + to_string (d) + " cut to " + to_string (k) + " bytes");
        } else if (c[0] == 'F') file (foreign[number (c.substr (1))]);
        else if (c[0] == '1') file (string (1, char (number (c.substr (1)))));
        else if (c[0] == 'M') {
            int k, b;
            sscanf (c.c_str() + 1, "%d %d", &k, &b);
            string s = image[0];
            s[k] = char (b);
            file (s);
        } else if (c[0] == 'O') { refused (odd[number (c.substr (1))], ctx); ctx.see ("nontrivial", c); }
        else {
            Dict d;
            Parser p (false);
            bool par = c[0] == 'P';
            int cur = -1;
            for (size_t i = 1; i < c.size(); ++i) {
                int k = c[i] - '0';
                ctx.add ("opens");
                if (k == 7) { d.close(); cur = -1; }
                else {
                    bool ok = par ? p.loadExceptDict (place[k].c_str()) : d.open (place[k].c_str());
                    if (ok != (k < 2)) { ctx.fail ("step " + to_string (i) + ": open reports " + (ok ? "success" : "failure")); return; }
                    cur = k < 2 ? k : -1;
                }
            }
            string s = par ? state (p, cur) : state (d, cur);
            if (!s.empty()) ctx.fail ("at the end: " + s);
            ctx.add ("histories");
            ctx.see ("nontrivial", c);
        }
    }
};
REGISTER_CHECK (BadFileCheck, "badfile");
