// C23: success is never reported for output that could not be written or
// input that could not be read.
#include "real.h"

#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <stdexcept>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;

// cases: "W" setting, limit: standard output is a file that cannot grow past it
//        "D" setting, target: a full device, a closed descriptor, a pipe nobody reads
//        "R" setting, number of bytes: then reading standard input fails
//        "N" the same, because nothing is there and the program must not wait
//        "I" setting, kind: standard input is a directory, closed, or for writing only
//        "T" setting, first line, lines, room: writing fails for these lines only
struct FaultCheck : Check {
    struct Setting { vector<string> args; string input; };
    vector<Setting> sets;
    vector<string>  full;

    void prepare() override
    {
        string dic = compileDict ("f", "กลม\tb_i_0@1,s_U_4@3\nลม\tf_a_3@2\n");
        string in = "กา\nตากลม 1\n\nขนม";
        string many;
        for (int i = 0; i < (opt.thorough() ? 60 : 16); ++i) many += "ตากลมขนมกรรม\nกา" + to_string (i) + "\n";
        sets = { { { "-r" }, in }, { { "-d" + dic }, in }, { { "-g", "-w" }, in }, { { "-t", "กากลม", "", "เขา" }, "" }, { { "-j", "-s", "-n", "ฤดู" }, "" },
                 { { "-w", "-p" }, many }, { { "-r" }, "\n\n\n" }, { { "-r" }, "" }, { { "-d" + opt.tmp + "/none", "-r", "กา" }, "" } };
        for (auto& s : sets) full.push_back (run (s, "", -1, -1).out);
    }
    void generate (const Emit& emit) override
    {
        int n = sets.size();
        for (int s = 0; s < n; ++s) for (int t = 0; t < 5; ++t) emit ("D" + to_string (s) + " " + to_string (t));
        for (int s = 0; s < n; ++s) for (size_t k = 0; k <= full[s].size() + 1; ++k) emit ("W" + to_string (s) + " " + to_string (k));
        for (int s = 0; s < n; ++s) for (size_t k = 0; k <= sets[s].input.size(); ++k) emit ("N" + to_string (s) + " " + to_string (k));
        for (int s = 0; s < n; ++s) for (int k = 0; k < 3; ++k) emit ("I" + to_string (s) + " " + to_string (k));
        for (int s = 0; s < n; ++s) {
            int l = lines (sets[s].input).size();
            if (l > 8) l = 8;
            for (int a = 0; a < l; ++a) for (int b = 1; a + b < l; ++b) for (int room : { 0, 1, 5, 12, 20 }) emit ("T" + to_string (s) + " " + to_string (a) + " " + to_string (b) + " " + to_string (room));
        }
        for (int s = 0; s < n; ++s) for (size_t k = 0; k <= sets[s].input.size(); ++k) emit ("R" + to_string (s) + " " + to_string (k));
    }
    string show (const string& c) override
    {
        auto f = splitBy (c.substr (1), ' ');
        if (c[0] == 'T') return "lines of setting " + f[0] + ", output fails " + f[3] + " bytes into line " + f[1] + " and works again " + f[2] + " lines later";
        if (c[0] == 'I') return "setting " + f[0] + ", kind of unreadable input " + f[1];
        string a;
        for (auto& x : sets[atoi (f[0].c_str())].args) a += " '" + x + "'";
        return string (c[0] == 'W' ? "output file limited to " : c[0] == 'R' || c[0] == 'N' ? "input fails after byte " : "output target ") + f[1] + ", arguments" + a;
    }
    static vector<string> lines (const string& t)
    {
        vector<string> r;
        for (size_t a = 0; a < t.size(); ) {
            size_t b = t.find ('\n', a);
            if (b == string::npos) b = t.size() - 1;
            r.push_back (t.substr (a, b + 1 - a));
            a = b + 1;
        }
        return r;
    }
    // until the program waits for input
    static bool settled (pid_t pid, int fd)
    {
        for (int calm = 0, i = 0; i < 60000; ++i) {
            int left = 0;
            ioctl (fd, FIONREAD, &left);
            string st = readFile ("/proc/" + to_string (pid) + "/stat");
            size_t p = st.rfind (')');
            char c = p == string::npos || p + 2 >= st.size() ? 'Z' : st[p + 2];
            if (c == 'Z') return false;
            if (left == 0 && c == 'S') { if (++calm >= 3) return true; } else calm = 0;
            usleep (1000);
        }
        return false;
    }
    // writing fails while some lines are answered, and works before and after
    void transient (int s, int first, int count, int room, Ctx& ctx)
    {
        string path = opt.tmp + "/out." + to_string (getpid());
        auto in = lines (sets[s].input);
        int fd[2];
        if (pipe (fd)) throw runtime_error ("pipe");
        pid_t pid = fork();
        if (pid < 0) throw runtime_error ("fork");
        if (pid == 0) {
            dup2 (fd[0], 0);
            close (fd[0]); close (fd[1]);
            int o = open (path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open ("/dev/null", O_WRONLY);
            dup2 (o, 1); dup2 (n, 2); close (o); close (n);
            signal (SIGXFSZ, SIG_IGN);
            vector<string> argv { opt.bin + "/thpronun" };
            argv.insert (argv.end(), sets[s].args.begin(), sets[s].args.end());
            vector<char*> av;
            for (auto& a : argv) av.push_back (const_cast<char*> (a.c_str()));
            av.push_back (nullptr);
            alarm (120);
            execv (av[0], av.data());
            _exit (127);
        }
        signal (SIGPIPE, SIG_IGN);
        size_t allowed = 0;
        bool faulty = false;
        for (size_t i = 0; i < in.size(); ++i) {
            struct stat st;
            if ((int) i == first) {
                bool ok = settled (pid, fd[0]);
                allowed = ok && !stat (path.c_str(), &st) ? st.st_size : 0;
                rlimit l { allowed + room, RLIM_INFINITY };
                if (ok) faulty = !prlimit (pid, RLIMIT_FSIZE, &l, nullptr);
            }
            if ((int) i == first + count && settled (pid, fd[0])) {
                rlimit l { RLIM_INFINITY, RLIM_INFINITY };
                prlimit (pid, RLIMIT_FSIZE, &l, nullptr);
            }
            if (write (fd[1], in[i].data(), in[i].size()) < 0) break;
        }
        close (fd[0]);
        close (fd[1]);
        int status = 0;
        waitpid (pid, &status, 0);
        string out = readFile (path);
        unlink (path.c_str());
        bool ok = WIFEXITED (status) && WEXITSTATUS (status) == 0, complete = out == full[s];
        if (ok && !complete) ctx.fail ("success reported for incomplete output " + out.substr (0, 300));
        if (faulty && out.substr (0, allowed) != full[s].substr (0, allowed)) ctx.fail ("what was written before is not the beginning of the output");
        if (WIFSIGNALED (status)) ctx.fail ("ended by signal " + to_string (WTERMSIG (status)));
        ctx.add (complete ? "runs_without_fault" : "transient_faults");
    }
    struct Res { int status; string out; bool timeout; };
    // target: "" file in the scratch directory, "x" closed, "p" pipe without reader,
    // "P" the same with the signal ignored, else a path
    // kind of input fault: 0 broken connection, 1 nothing there, 2 directory, 3 closed, 4 not for reading
    Res run (const Setting& s, const string& target, long limit, long failAt, int kind = 0)
    {
        string path = opt.tmp + "/out." + to_string (getpid()), ipath = opt.tmp + "/in." + to_string (getpid());
        int sv[2] = { -1, -1 };
        int keep = -1;
        if (kind == 1) {
            if (pipe (sv)) throw runtime_error ("pipe");
            fcntl (sv[0], F_SETFL, O_NONBLOCK);
            if (failAt && write (sv[1], s.input.data(), failAt) != failAt) throw runtime_error ("write");
            keep = sv[1];
        } else if (failAt >= 0) {
            if (socketpair (AF_UNIX, SOCK_STREAM, 0, sv)) throw runtime_error ("socketpair");
            // what the peer never reads makes its closing an error for the reader
            if (write (sv[0], "x", 1) != 1) throw runtime_error ("write");
            if (failAt && write (sv[1], s.input.data(), failAt) != failAt) throw runtime_error ("write");
            close (sv[1]);
        } else writeFile (ipath, s.input);
        int pp[2];
        if (pipe (pp)) throw runtime_error ("pipe");
        pid_t pid = fork();
        if (pid < 0) throw runtime_error ("fork");
        if (pid == 0) {
            close (pp[0]);
            int in = failAt >= 0 ? sv[0] : open (kind == 2 ? opt.tmp.c_str() : ipath.c_str(), kind == 4 ? O_WRONLY : O_RDONLY);
            dup2 (in, 0);
            if (in > 0) close (in);
            if (keep > 0) close (keep);
            signal (SIGPIPE, target == "P" ? SIG_IGN : SIG_DFL);
            if (target == "p" || target == "P") dup2 (pp[1], 1);
            else if (target == "x") close (1);
            else {
                int o = open (target.empty() ? path.c_str() : target.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
                dup2 (o, 1);
                close (o);
            }
            close (pp[1]);
            int n = open ("/dev/null", O_WRONLY);
            if (n != 2) { dup2 (n, 2); if (n != 1) close (n); }
            if (target == "x") close (1);
            if (limit >= 0) {
                signal (SIGXFSZ, SIG_IGN);
                rlimit l { (rlim_t) limit, (rlim_t) limit };
                setrlimit (RLIMIT_FSIZE, &l);
            }
            if (kind == 3) close (0);
            rlimit nc { 0, 0 }; setrlimit (RLIMIT_CORE, &nc);
            vector<string> argv { opt.bin + "/thpronun" };
            argv.insert (argv.end(), s.args.begin(), s.args.end());
            vector<char*> av;
            for (auto& a : argv) av.push_back (const_cast<char*> (a.c_str()));
            av.push_back (nullptr);
            alarm (60);
            execv (av[0], av.data());
            _exit (127);
        }
        close (pp[1]);
        if (sv[0] >= 0) close (sv[0]);
        close (pp[0]);
        Res r { 0, "", false };
        waitpid (pid, &r.status, 0);
        if (WIFSIGNALED (r.status) && WTERMSIG (r.status) == SIGALRM) r.timeout = true;
        if (keep >= 0) close (keep);
        if (target.empty()) r.out = readFile (path);
        unlink (path.c_str());
        unlink (ipath.c_str());
        return r;
    }
    void eval (const string& c, Ctx& ctx) override
    {
        auto f = splitBy (c.substr (1), ' ');
        int s = atoi (f[0].c_str()), k = atoi (f[1].c_str());
        const string& want = full[s];
        if (c[0] == 'T') {
            transient (s, k, atoi (f[2].c_str()), atoi (f[3].c_str()), ctx);
            ctx.see ("nontrivial", c);
            return;
        }
        bool ok;
        Res r;
        if (c[0] == 'W') {
            r = run (sets[s], "", k, -1);
            ok = WIFEXITED (r.status) && WEXITSTATUS (r.status) == 0;
            bool fits = size_t (k) >= want.size();
            if (r.out != want.substr (0, k)) ctx.fail ("what was written is not the beginning of the output: " + r.out.substr (0, 200));
            if (ok && !fits) ctx.fail ("success reported although only " + to_string (r.out.size()) + " of " + to_string (want.size()) + " bytes were written");
            if (!ok && fits) ctx.fail ("failure reported although everything was written");
            ctx.add (fits ? "runs_without_fault" : "write_faults");
        } else if (c[0] == 'D') {
            static const char* const target[] = { "/dev/full", "x", "p", "P", "/dev/null" };
            r = run (sets[s], target[k], -1, -1);
            ok = WIFEXITED (r.status) && WEXITSTATUS (r.status) == 0;
            bool fault = k < 4 && !want.empty();
            if (ok && fault) ctx.fail (string ("success reported for output to ") + target[k]);
            if (!ok && !fault) ctx.fail (string ("failure reported for output to ") + target[k]);
            ctx.add (fault ? "write_faults" : "runs_without_fault");
        } else {
            bool all = c[0] == 'I';
            r = all ? run (sets[s], "", -1, -1, 2 + k) : run (sets[s], "", -1, k, c[0] == 'N');
            if (all) k = 0;
            ok = WIFEXITED (r.status) && WEXITSTATUS (r.status) == 0;
            bool reads = !sets[s].input.empty() || want.empty();
            if (ok && reads) ctx.fail ("success reported although reading failed after byte " + to_string (k));
            if (!ok && !reads) ctx.fail ("failure reported although standard input is not used");
            // lines read completely are answered
            string whole = sets[s].input.substr (0, k);
            whole = whole.substr (0, whole.rfind ('\n') == string::npos ? 0 : whole.rfind ('\n') + 1);
            if (reads && r.out.compare (0, min (r.out.size(), want.size()), want, 0, min (r.out.size(), want.size())) && k == (int) whole.size())
                ctx.fail ("output differs: " + r.out.substr (0, 200));
            if (reads && (int) count (r.out.begin(), r.out.end(), ':') < (int) count (whole.begin(), whole.end(), '\n'))
                ctx.fail ("a line that was read is not answered");
            ctx.add ("read_faults");
        }
        if (r.timeout) ctx.fail ("the program does not end");
        if (WIFSIGNALED (r.status) && WTERMSIG (r.status) != SIGPIPE && !r.timeout) ctx.fail ("ended by signal " + to_string (WTERMSIG (r.status)));
        ctx.see ("nontrivial", c);
        if (k == 7) ctx.sample (show (c));
    }
};
REGISTER_CHECK (FaultCheck, "fault");
