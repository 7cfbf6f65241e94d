// C25: lines of standard input are answered one by one as they come.
#include "real.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdexcept>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;

// A case is the number of an input, of a setting, and where it is cut
struct StreamCheck : Check {
    struct Setting { vector<string> args; vector<pair<int, int>> outs; bool seg; };
    vector<string>  input;
    vector<Setting> sets;
    string          dic, error;
    unique_ptr<Parser> ps[2];

    StreamCheck()
    {
        input = { "กา\nตา", "กา\n\nx", "\n\n\n", "ก\n", "ก", "1\n2\n3\n", "ขนม\r\nกรรม\r\n", string ("a\0b\nก\n", 7), "เขา กลม\nตากลม\nทราบ\n", "" };
        string big;
        for (int i = 0; i < 9000; ++i) big += "x";
        input.push_back (big + "\nกา\n" + big + big);
        string many;
        for (int i = 0; i < 1500; ++i) many += i % 5 ? "นะ\n" : "\n";
        input.push_back (many);
        sets = { { { "-r" }, { { 1, 0 } }, true }, { { "-g", "-w", "-n" }, { { 3, 2 } }, false }, { {}, { { 0, 0 }, { 1, 0 }, { 2, 0 } }, true } };
    }
    void prepare() override
    {
        try { dic = compileDict ("s", "กลม\tb_i_0@1,s_U_4@3\nลม\tf_a_3@2\n"); } catch (const exception& e) { error = e.what(); }
    }
    void setup (Ctx&) override
    {
        for (int s = 0; s < 2; ++s) { ps[s].reset (new Parser (s != 0)); ps[s]->loadExceptDict (dic.c_str()); }
    }
    void generate (const Emit& emit) override
    {
        bool th = opt.thorough();
        for (size_t i = 0; i < input.size(); ++i) for (size_t s = 0; s < sets.size(); ++s) {
            string k = to_string (i) + " " + to_string (s);
            size_t n = input[i].size();
            emit (k);
            if (i + 1 == input.size()) {
                // line by line, and three lines at a time and a part
                string one = k, three = k;
                int l = 0;
                for (size_t a = 0; a + 1 < n; ++a) if (input[i][a] == '\n') { one += " " + to_string (a + 1); if (++l % 3 == 0 && a + 3 < n) three += " " + to_string (a + 2); }
                emit (one);
                emit (three);
                continue;
            }
            if (n > 1000) {
                for (size_t a : { size_t (1), size_t (100), size_t (4095), size_t (4096), size_t (8999), size_t (9000), size_t (9001), size_t (9005), size_t (9008), size_t (9009), n - 1 })
                    for (size_t b : { a, a + 1, a + 4096, n - 1 }) if (b < n) emit (k + " " + to_string (a) + (b > a ? " " + to_string (b) : ""));
                continue;
            }
            if (n > 1 && n <= (th ? 12 : 10)) {
                // every way to cut it
                for (unsigned m = 1; m < 1u << (n - 1); ++m) {
                    string c = k;
                    for (size_t b = 0; b + 1 < n; ++b) if (m >> b & 1) c += " " + to_string (b + 1);
                    emit (c);
                }
                continue;
            }
            for (size_t a = 1; a < n; ++a) {
                emit (k + " " + to_string (a));
                for (size_t b = a + 1; b < n; ++b) {
                    if (!th && s && b > a + 3) continue;
                    emit (k + " " + to_string (a) + " " + to_string (b));
                }
            }
            // byte by byte
            string c = k;
            for (size_t a = 1; a < n; ++a) c += " " + to_string (a);
            emit (c);
        }
    }
    string show (const string& c) override
    {
        auto f = splitBy (c, ' ');
        string s = "input " + jsonStr (input[atoi (f[0].c_str())].substr (0, 60)) + " setting " + f[1] + " cut at";
        for (size_t i = 2; i < f.size(); ++i) s += " " + f[i];
        return s;
    }
    string answer (const Setting& s, const string& line)
    {
        string r = line + ":\n";
        for (auto& o : s.outs) r += textOutput (o.first, o.second)->output (ps[s.seg]->parseWord (line)) + "\n";
        return r;
    }
    static double now() { timeval t; gettimeofday (&t, nullptr); return t.tv_sec + t.tv_usec / 1e6; }
    void eval (const string& c, Ctx& ctx) override
    {
        if (!error.empty()) { ctx.fail (error); return; }
        auto f = splitBy (c, ' ');
        const string& in = input[atoi (f[0].c_str())];
        const Setting& s = sets[atoi (f[1].c_str())];
        vector<size_t> cut;
        for (size_t i = 2; i < f.size(); ++i) cut.push_back (atoi (f[i].c_str()));
        cut.push_back (in.size());
        int to[2], from[2];
        if (pipe (to) || pipe (from)) throw runtime_error ("pipe");
        signal (SIGPIPE, SIG_IGN);
        pid_t pid = fork();
        if (pid == 0) {
            dup2 (to[0], 0); dup2 (from[1], 1);
            int n = open ("/dev/null", O_WRONLY);
            dup2 (n, 2);
            for (int d : { to[0], to[1], from[0], from[1], n }) if (d > 2) close (d);
            signal (SIGPIPE, SIG_DFL);
            vector<string> argv { opt.bin + "/thpronun", "-d" + dic };
            argv.insert (argv.end(), s.args.begin(), s.args.end());
            vector<char*> av;
            for (auto& a : argv) av.push_back (const_cast<char*> (a.c_str()));
            av.push_back (nullptr);
            alarm (120);
            execv (av[0], av.data());
            _exit (127);
        }
        close (to[0]); close (from[1]);
        string want, got;
        bool ended = false;
        auto more = [&] (double secs) {
            pollfd p { from[0], POLLIN, 0 };
            if (poll (&p, 1, int (secs * 1000)) <= 0) return false;
            char buf[65536];
            ssize_t n = read (from[0], buf, sizeof buf);
            if (n <= 0) { ended = true; return false; }
            got.append (buf, n);
            return true;
        };
        size_t at = 0, lineAt = 0;
        string bad;
        for (size_t e : cut) {
            for (size_t w = at; w < e; ) { ssize_t n = write (to[1], in.data() + w, e - w); if (n <= 0) { bad = "the program stopped reading"; break; } w += n; }
            at = e;
            if (!bad.empty()) break;
            // complete lines are answered before anything else is sent
            for (size_t nl; (nl = in.find ('\n', lineAt)) != string::npos && nl < at; lineAt = nl + 1) want += answer (s, in.substr (lineAt, nl - lineAt));
            double end = now() + 20;
            while (got.size() < want.size() && !ended && now() < end) more (0.5);
            if (got.size() < want.size()) { bad = ended ? "the program ended early" : "no complete answer before more input"; break; }
            // the piece is taken before the next one is sent
            int left = 1;
            while (!ended && now() < end && ioctl (to[1], FIONREAD, &left) == 0 && left > 0) usleep (100);
            ctx.add ("pieces");
        }
        close (to[1]);
        if (bad.empty()) {
            if (lineAt < in.size()) want += answer (s, in.substr (lineAt));
            double end = now() + 20;
            while (!ended && now() < end) more (0.5);
            if (!ended) bad = "the program does not end with its input";
            else if (got != want) bad = "printed " + got.substr (0, 300) + "\ninstead of " + want.substr (0, 300);
        }
        if (!bad.empty()) kill (pid, SIGKILL);
        close (from[0]);
        int st;
        waitpid (pid, &st, 0);
        if (!bad.empty()) ctx.fail (bad);
        else if (!WIFEXITED (st) || WEXITSTATUS (st)) ctx.fail ("exit status " + to_string (st));
        ctx.see ("nontrivial", c);
        if (cut.size() == 4) ctx.sample (show (c));
    }
};
REGISTER_CHECK (StreamCheck, "stream");
