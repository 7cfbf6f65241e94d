// C28: results depend on text, dictionary and options only.
#include "real.h"
#include "spaces.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdexcept>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>

using namespace std;

// Answers of the system that a result must not depend on, given differently:
// any variable the program itself asks for exists, and time, process, user,
// host and kind of files are others
static const char* const oddSystem = R"(
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>
static int kind;
static char val[4096];
static void* program;
static int fromProgram (void* at) { Dl_info i; return program && dladdr (at, &i) && i.dli_fbase == program; }
static char* (*real) (const char*);
__attribute__ ((constructor)) static void init (void)
{
    real = (char* (*) (const char*)) dlsym (RTLD_NEXT, "getenv");
    const char* k = real ("ODD_KIND");
    const char* v = real ("ODD_VALUE");
    kind = k ? atoi (k) : 0;
    if (v) strncpy (val, v, sizeof val - 1);
    Dl_info i;
    void* h = dlopen (0, RTLD_NOW);
    struct link { void* addr; char* name; void* ld; }* l = h;
    if (l && dladdr (l->ld, &i)) program = i.dli_fbase;
}
char* getenv (const char* n)
{
    if (kind && fromProgram (__builtin_return_address (0))) return val;
    return real ? real (n) : 0;
}
char* secure_getenv (const char* n)
{
    if (kind && fromProgram (__builtin_return_address (0))) return val;
    return real ? real (n) : 0;
}
static long t;
static long now (void) { t += 86399; return (kind == 1 ? 0 : kind == 2 ? 4102444800l : 951782400l) + t; }
time_t time (time_t* p) { time_t r = now(); if (p) *p = r; return r; }
int gettimeofday (struct timeval* v, void* z) { if (v) { v->tv_sec = now(); v->tv_usec = t % 1000000; } return 0; }
int clock_gettime (clockid_t c, struct timespec* v) { if (v) { v->tv_sec = now(); v->tv_nsec = t % 1000000000; } return 0; }
clock_t clock (void) { return now(); }
pid_t getpid (void) { return kind == 1 ? 1 : kind == 2 ? 32767 : 4194303; }
pid_t getppid (void) { return kind == 1 ? 1 : 77; }
uid_t getuid (void) { return kind == 2 ? 0 : 1000 + kind; }
uid_t geteuid (void) { return getuid(); }
gid_t getgid (void) { return getuid(); }
gid_t getegid (void) { return getuid(); }
int isatty (int fd) { return kind == 1 || (kind == 3 && fd == 1); }
int rand (void) { return kind == 1 ? 0 : kind == 2 ? RAND_MAX : 12345; }
long random (void) { return rand(); }
int gethostname (char* n, size_t k) { strncpy (n, kind == 1 ? "a" : "host.example", k); return 0; }
)";

// A case: "P" or "C" (program, compiler), setting, and a choice in each dimension
struct EnvironCheck : Check {
    struct Setting { vector<string> args; string input; };
    vector<Setting> sets;
    vector<string>  source;
    map<string, string> base;       // per process: result in the plain environment
    string dic, error, lib;

    static const vector<string>& locales()
    {
        static const vector<string> l { "", "C", "C.UTF-8", "POSIX", "th_TH.UTF-8", "th_TH.TIS-620", "en_US.ISO-8859-1", "nonsense" };
        return l;
    }
    static const vector<string>& fills()        // contents of fresh memory
    {
        static const vector<string> f { "", "1", "85", "170", "254", "255" };
        return f;
    }
    void prepare() override
    {
        try { dic = compileDict ("e", "กลม\tb_i_0@1,s_U_4@3\nลม\tf_a_3@2\n"); } catch (const exception& e) { error = e.what(); }
        lib = opt.tmp + "/odd.so";
        writeFile (opt.tmp + "/odd.c", oddSystem);
        if (system (("gcc -w -O1 -shared -fPIC '" + opt.tmp + "/odd.c' -o '" + lib + "' -ldl").c_str())) throw runtime_error ("preloaded library");
        string in = "กา\nตากลม 1.x\n\nขนมกรรม ก.พ. ฤดู\n\xff\nเ", words;
        auto& w = libWords();
        for (size_t i = 0; i < w.size(); i += 97) words += w[i] + w[(i + 31) % w.size()] + "\n";
        sets = { { {}, in }, { { "-g", "-w", "-s" }, in }, { { "-j", "-t", "-n", "-d" + dic }, in }, { { "-w" }, words }, { { "-g", "-r" }, words },
                 { { "-p", "-d" + opt.tmp + "/missing", "ทราบตากลม", "กา\"" }, "" } };
        string many;
        for (size_t i = 0; i < w.size(); i += 50) many += w[i] + "\tk_A_0@" + to_string (i) + "\n";
        source = { "กา\tk_A_0@2\n", "กา\tk_A_0@2\nนา\tn_A_0@2;s_a_1@2\nก\tx\n", "", many, "กานดาเรือ\t" + string (120, 'z') + "\nกา\t\nก\ty\n" };
    }
    void generate (const Emit& emit) override
    {
        // all pairs of choices for the rest of the environment
        for (size_t s = 0; s < sets.size(); ++s)
            for (size_t l = 0; l < locales().size(); ++l) for (size_t f = 0; f < fills().size(); ++f) for (int k = 0; k < 6; ++k) for (int x = 0; x < 14; ++x) {
                if (!opt.thorough() && (l && f && x && k)) continue;
                emit ("P" + to_string (s) + " " + to_string (l) + " " + to_string (f) + " " + to_string (k) + " " + to_string (x));
            }
        for (size_t s = 0; s < source.size(); ++s)
            for (size_t l = 0; l < locales().size(); ++l) for (size_t f = 0; f < fills().size(); ++f) for (int k = 0; k < 4; ++k) for (int x = 0; x < 14; ++x)
                emit ("C" + to_string (s) + " " + to_string (l) + " " + to_string (f) + " " + to_string (k) + " " + to_string (x));
    }
    string show (const string& c) override
    {
        auto f = splitBy (c.substr (1), ' ');
        return string (c[0] == 'P' ? "program setting " : "compiler source ") + f[0] + ", locale '" + locales()[atoi (f[1].c_str())] + "', memory fill '" + fills()[atoi (f[2].c_str())]
               + "', input kind " + f[3] + ", surroundings " + f[4];
    }
    static const vector<const char*>& names()
    {
        static const vector<const char*> n { "except.dic", "data/except.dic", "dict.dic", "thpronun.dic", ".thpronun", "thbrk.tri" };
        return n;
    }
    struct Res { int status = 0; string out; };
    Res run (char what, int s, int loc, int fill, int kind, int around)
    {
        string id = opt.tmp + "/" + to_string (getpid()), ipath = id + ".in", opath = id + ".out", dir = id + ".dir";
        mkdir (dir.c_str(), 0700);
        const string& data = what == 'P' ? sets[s].input : source[s];
        writeFile (ipath, data);
        if (around == 6) for (auto n : names()) {
            // files a program might look for, where it stands
            string p = dir + "/" + n;
            size_t slash = p.rfind ('/');
            if (p.substr (0, slash) != dir) mkdir (p.substr (0, slash).c_str(), 0700);
            writeFile (p, readFile (dic));
        }
        int fd[2] = { -1, -1 };
        if (what == 'P' && kind == 5) {
            fd[1] = posix_openpt (O_RDWR | O_NOCTTY);
            if (fd[1] >= 0 && !grantpt (fd[1]) && !unlockpt (fd[1])) fd[0] = open (ptsname (fd[1]), O_RDWR | O_NOCTTY);
            termios t;
            if (fd[0] < 0 || tcgetattr (fd[0], &t)) throw runtime_error ("terminal");
            t.c_iflag = t.c_oflag = 0;
            t.c_lflag = ICANON;
            tcsetattr (fd[0], TCSANOW, &t);
        }
        if (what == 'P' && (kind == 1 ? pipe (fd) : kind == 2 ? socketpair (AF_UNIX, SOCK_STREAM, 0, fd) : 0)) throw runtime_error ("pipe");
        vector<string> argv { opt.bin + (what == 'P' ? "/thpronun" : "/gen-lookup-dict") };
        string prog = argv[0];
        string out = opath;
        if (what == 'P') argv.insert (argv.end(), sets[s].args.begin(), sets[s].args.end());
        else {
            // kinds of path names
            string a = ipath, b = opath;
            string base = to_string (getpid());
            if (kind == 1) { a = "../" + base + ".in"; b = "../" + base + ".out"; }
            if (kind == 2) { a = dir + "/./../" + base + ".in"; b = dir + "/x"; out = b; }
            if (kind == 3) { b = "กา ข.dic"; out = dir + "/" + b; }
            argv.push_back (a);
            argv.push_back (b);
        }
        // standard output is a terminal or a pipe; another process collects it
        int ofd[2] = { -1, -1 };
        pid_t reader = -1;
        if (around == 8) {
            ofd[0] = posix_openpt (O_RDWR | O_NOCTTY);
            if (ofd[0] >= 0 && !grantpt (ofd[0]) && !unlockpt (ofd[0])) ofd[1] = open (ptsname (ofd[0]), O_RDWR | O_NOCTTY);
            termios t;
            if (ofd[1] < 0 || tcgetattr (ofd[1], &t)) throw runtime_error ("terminal");
            cfmakeraw (&t);
            tcsetattr (ofd[1], TCSANOW, &t);
        } else if (around == 9 && pipe (ofd)) throw runtime_error ("pipe");
        if (ofd[0] >= 0) {
            reader = fork();
            if (reader < 0) throw runtime_error ("fork");
            if (reader == 0) {
                close (ofd[1]);
                for (int d : fd) if (d >= 0) close (d);
                int o = open ((id + ".std").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
                char b[4096];
                for (ssize_t n; (n = read (ofd[0], b, sizeof b)) > 0; ) if (write (o, b, n) != n) _exit (1);
                _exit (0);
            }
        }
        pid_t pid = fork();
        if (pid < 0) throw runtime_error ("fork");
        if (pid == 0) {
            int in = fd[0] >= 0 ? fd[0] : open (what == 'P' ? ipath.c_str() : "/dev/null", O_RDONLY);
            int o = ofd[1] >= 0 ? ofd[1] : open ((id + ".std").c_str(), O_WRONLY | O_CREAT | O_TRUNC | (kind == 3 ? O_APPEND : 0), 0600), n = open ("/dev/null", O_WRONLY);
            dup2 (in, 0); dup2 (o, 1); dup2 (n, 2);
            if (around == 10) close (2);
            for (int d = 3; d < 64; ++d) close (d);
            if (chdir (kind == 4 ? "/" : dir.c_str())) _exit (126);
            clearenv();
            if (loc) { setenv ("LC_ALL", locales()[loc].c_str(), 1); setenv ("LANG", locales()[loc].c_str(), 1); }
            if (fill) setenv ("MALLOC_PERTURB_", fills()[fill].c_str(), 1);
            switch (around) {
            case 1: setenv ("TZ", "Asia/Bangkok", 1); setenv ("TMPDIR", "/nonexistent", 1); setenv ("HOME", "/nonexistent", 1); break;
            case 2: setenv ("MALLOC_ARENA_MAX", "1", 1); setenv ("MALLOC_TOP_PAD_", "0", 1); setenv ("MALLOC_MMAP_THRESHOLD_", "64", 1); break;
            case 3: setenv ("PADDING", string (60000, 'x').c_str(), 1); break;
            case 4: umask (0); signal (SIGPIPE, SIG_IGN); for (int d = 10; d < 20; ++d) dup2 (n, d); break;
            case 6: setenv ("PWD", dir.c_str(), 1); setenv ("HOME", dir.c_str(), 1); setenv ("XDG_DATA_HOME", dir.c_str(), 1); setenv ("XDG_DATA_DIRS", dir.c_str(), 1); setenv ("XDG_CONFIG_HOME", dir.c_str(), 1); break;
            case 7:
                for (auto v : { "THPRONUN", "THPRONUN_OPTIONS", "THPRONUN_OPTS", "THPRONUN_FLAGS", "OPTIONS" }) setenv (v, "-g -n -s", 1);
                for (auto v : { "THPRONUN_DICT", "THPRONUN_DICT_PATH", "THPRONUN_DICTDIR", "THPRONUN_EXCEPT_DICT", "EXCEPT_DICT", "EXCEPT_DICT_DIR", "EXCEPT_DICT_PATH", "EXCEPT_DICT_NAME", "DICTPATH", "DICT_PATH", "DICT", "DICTDIR" }) setenv (v, dic.c_str(), 1);
                for (auto v : { "POSIXLY_CORRECT", "COLUMNS", "LINES", "DEBUG", "VERBOSE", "QUIET", "NO_COLOR", "CLICOLOR_FORCE", "TEST", "THPRONUN_DEBUG" }) setenv (v, "1", 1);
                setenv ("TERM", "xterm-256color", 1);
                break;
            case 11: case 12: case 13:
                setenv ("LD_PRELOAD", lib.c_str(), 1);
                setenv ("ODD_KIND", to_string (around - 10).c_str(), 1);
                setenv ("ODD_VALUE", around == 11 ? "1" : around == 12 ? dic.c_str() : "", 1);
                break;
            case 5: { argv[0] = "-r"; rlimit l { 1 << 20, 1 << 20 }; setrlimit (RLIMIT_STACK, &l); break; }
            }
            rlimit nc { 0, 0 }; setrlimit (RLIMIT_CORE, &nc);
            vector<char*> av;
            for (auto& a : argv) av.push_back (const_cast<char*> (a.c_str()));
            av.push_back (nullptr);
            alarm (120);
            execv (prog.c_str(), av.data());
            _exit (127);
        }
        if (ofd[1] >= 0) close (ofd[1]);
        if (fd[0] >= 0) {
            if (kind != 5) close (fd[0]);
            signal (SIGPIPE, SIG_IGN);
            for (size_t w = 0; w < data.size(); ) { ssize_t n = write (fd[1], data.data() + w, min<size_t> (data.size() - w, 700)); if (n <= 0) break; w += n; }
            // ends the line, if there is an open one, and the input
            if (kind == 5) for (int k = 0; k < 2; ++k) if (write (fd[1], "\4", 1) != 1) break;
            if (kind != 5) close (fd[1]);
        }
        Res r;
        waitpid (pid, &r.status, 0);
        if (reader > 0) { waitpid (reader, nullptr, 0); close (ofd[0]); }
        if (kind == 5) for (int k : fd) if (k >= 0) close (k);
        r.out = what == 'P' ? readFile (id + ".std") : access (out.c_str(), F_OK) == 0 ? readFile (out) : "(none)";
        unlink (out.c_str());
        for (auto e : { ".in", ".out", ".std" }) unlink ((id + e).c_str());
        if (around == 6) for (auto n : names()) unlink ((dir + "/" + n).c_str());
        rmdir ((dir + "/data").c_str());
        rmdir (dir.c_str());
        return r;
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (!error.empty()) { ctx.fail (error); return; }
        auto f = splitBy (c.substr (1), ' ');
        int v[5];
        for (int i = 0; i < 5; ++i) v[i] = atoi (f[i].c_str());
        string key = c[0] + f[0];
        if (!base.count (key)) { auto r = run (c[0], v[0], 0, 0, 0, 0); base[key] = to_string (r.status) + "\n" + r.out; }
        auto r = run (c[0], v[0], v[1], v[2], v[3], v[4]);
        ctx.add ("runs");
        string got = to_string (r.status) + "\n" + r.out;
        if (got != base[key]) {
            size_t k = 0;
            while (k < got.size() && k < base[key].size() && got[k] == base[key][k]) ++k;
            ctx.fail ("the result differs at byte " + to_string (k) + " of status and output: " + hexStr (got.substr (k, 20)) + " instead of " + hexStr (base[key].substr (k, 20)));
        }
        ctx.see ("nontrivial", c);
        if (v[1] == 3 && v[2] == 2) ctx.sample (show (c));
    }
};
REGISTER_CHECK (EnvironCheck, "environ");
