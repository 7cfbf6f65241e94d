#include "common.h"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <algorithm>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace std;

Options opt;

string
toU8 (const U16& s)
{
    string r;
    for (size_t i = 0; i < s.size(); ++i) {
        uint32_t c = s[i];
        if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.size()
            && s[i+1] >= 0xdc00 && s[i+1] < 0xe000)
        {
            c = 0x10000 + ((c - 0xd800) << 10) + (s[++i] - 0xdc00);
        }
        if (c < 0x80) {
            r += char (c);
        } else if (c < 0x800) {
            r += char (0xc0 | (c >> 6));
            r += char (0x80 | (c & 0x3f));
        } else if (c < 0x10000) {
            r += char (0xe0 | (c >> 12));
            r += char (0x80 | ((c >> 6) & 0x3f));
            r += char (0x80 | (c & 0x3f));
        } else {
            r += char (0xf0 | (c >> 18));
            r += char (0x80 | ((c >> 12) & 0x3f));
            r += char (0x80 | ((c >> 6) & 0x3f));
            r += char (0x80 | (c & 0x3f));
        }
    }
    return r;
}

// for well-formed UTF-8 only
U16
toU16 (const string& s)
{
    U16 r;
    for (size_t i = 0; i < s.size(); ) {
        unsigned char h = s[i++];
        uint32_t c;
        int n;
        if (h < 0x80)      { c = h; n = 0; }
        else if (h < 0xe0) { c = h & 0x1f; n = 1; }
        else if (h < 0xf0) { c = h & 0x0f; n = 2; }
        else               { c = h & 0x07; n = 3; }
        while (n-- > 0 && i < s.size()) c = (c << 6) | (s[i++] & 0x3f);
        if (c >= 0x10000) {
            c -= 0x10000;
            r += char16_t (0xd800 + (c >> 10));
            r += char16_t (0xdc00 + (c & 0x3ff));
        } else {
            r += char16_t (c);
        }
    }
    return r;
}

string
jsonStr (const string& s)
{
    string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += char (c); }
        else if (c < 0x20 || c == 0x7f) {
            char b[8]; snprintf (b, sizeof b, "\\u%04x", c); r += b;
        }
        else if (c < 0x80) r += char (c);
        else {
            int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : c >= 0xc2 ? 1 : -1;
            bool ok = n > 0 && c < 0xf5 && i + n < s.size();
            for (int k = 1; ok && k <= n; ++k)
                ok = (s[i+k] & 0xc0) == 0x80;
            if (ok && c == 0xed && (unsigned char) s[i+1] >= 0xa0) ok = false;
            if (ok && c == 0xe0 && (unsigned char) s[i+1] < 0xa0) ok = false;
            if (ok && c == 0xf0 && (unsigned char) s[i+1] < 0x90) ok = false;
            if (ok && c == 0xf4 && (unsigned char) s[i+1] > 0x8f) ok = false;
            if (ok) {
                r.append (s, i, n + 1);
                i += n;
            } else {
                char b[16]; snprintf (b, sizeof b, "<%02x>", c); r += b;
            }
        }
    }
    return r + "\"";
}

string
hexStr (const string& s)
{
    string r; char b[4];
    for (unsigned char c : s) { snprintf (b, sizeof b, "%02x", c); r += b; }
    return r;
}

string
unhexStr (const string& s)
{
    string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += char (stoi (s.substr (i, 2), nullptr, 16));
    return r;
}

uint64_t
hash64 (const string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 32; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29;
    return h;
}

vector<string>
splitBy (const string& s, char c)
{
    vector<string> r;
    size_t b = 0, e;
    while ((e = s.find (c, b)) != string::npos) {
        r.push_back (s.substr (b, e - b));
        b = e + 1;
    }
    r.push_back (s.substr (b));
    return r;
}

void
writeFile (const string& path, const string& data)
{
    ofstream f (path, ios::binary | ios::trunc);
    f.write (data.data(), data.size());
    f.close();
    if (!f) { cerr << "cannot write " << path << endl; _exit (3); }
}

string
readFile (const string& path)
{
    ifstream f (path, ios::binary);
    stringstream ss; ss << f.rdbuf();
    return ss.str();
}

void
allStrings (const U16& a, int minLen, int maxLen,
            const function<void (const U16&)>& f)
{
    for (int n = minLen; n <= maxLen; ++n) {
        vector<size_t> ix (n, 0);
        U16 s (n, a.empty() ? u' ' : a[0]);
        for (;;) {
            f (s);
            int k = n - 1;
            while (k >= 0 && ++ix[k] == a.size()) { ix[k] = 0; s[k] = a[0]; --k; }
            if (k < 0) break;
            s[k] = a[ix[k]];
        }
    }
}

static double
now()
{
    timespec t; clock_gettime (CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

RunResult
runProgram (const vector<string>& argv, const string& input, double secs,
            const string& cwd, long fsizeLimit)
{
    RunResult r { 0, "", "", false };
    int in[2], out[2], err[2];
    if (pipe (in) || pipe (out) || pipe (err)) { perror ("pipe"); _exit (3); }
    pid_t pid = fork();
    if (pid < 0) { perror ("fork"); _exit (3); }
    if (pid == 0) {
        dup2 (in[0], 0); dup2 (out[1], 1); dup2 (err[1], 2);
        for (int fd : { in[0], in[1], out[0], out[1], err[0], err[1] }) close (fd);
        if (!cwd.empty() && chdir (cwd.c_str())) _exit (126);
        if (fsizeLimit >= 0) {
            signal (SIGXFSZ, SIG_IGN);
            rlimit l { (rlim_t) fsizeLimit, (rlim_t) fsizeLimit };
            setrlimit (RLIMIT_FSIZE, &l);
        }
        rlimit nc { 0, 0 }; setrlimit (RLIMIT_CORE, &nc);
        vector<char*> av;
        for (auto& a : argv) av.push_back (const_cast<char*> (a.c_str()));
        av.push_back (nullptr);
        execv (av[0], av.data());
        _exit (127);
    }
    close (in[0]); close (out[1]); close (err[1]);
    signal (SIGPIPE, SIG_IGN);
    fcntl (in[1], F_SETFL, O_NONBLOCK);
    size_t w = 0;
    if (input.empty()) { close (in[1]); in[1] = -1; }
    double end = now() + secs;
    bool o = true, e = true;
    char buf[65536];
    while (o || e) {
        pollfd p[3] = { { o ? out[0] : -1, POLLIN, 0 }, { e ? err[0] : -1, POLLIN, 0 },
                        { in[1], POLLOUT, 0 } };
        double left = end - now();
        if (left <= 0) { r.timeout = true; kill (pid, SIGKILL); break; }
        poll (p, 3, int (left * 1000) + 1);
        if (o && p[0].revents) {
            ssize_t n = read (out[0], buf, sizeof buf);
            if (n <= 0) o = false; else r.out.append (buf, n);
        }
        if (e && p[1].revents) {
            ssize_t n = read (err[0], buf, sizeof buf);
            if (n <= 0) e = false; else r.err.append (buf, n);
        }
        if (in[1] >= 0 && p[2].revents) {
            ssize_t n = write (in[1], input.data() + w, input.size() - w);
            if (n > 0) w += n;
            if ((n < 0 && errno != EAGAIN) || w == input.size()) { close (in[1]); in[1] = -1; }
        }
    }
    if (in[1] >= 0) close (in[1]);
    close (out[0]); close (err[0]);
    waitpid (pid, &r.status, 0);
    return r;
}

//
// Registry
//

static map<string, CheckMaker>&
registry()
{
    static map<string, CheckMaker> r;
    return r;
}

void
registerCheck (const char* name, CheckMaker maker)
{
    registry()[name] = maker;
}

//
// Workers
//

struct Slot {
    volatile uint64_t index;      // index of the case being evaluated, +1
    volatile uint32_t caseLen;
    volatile uint32_t phase;      // 0 setup, 1 running, 2 finished, 3 stopped on failure
    char              text[65536 - 16];
};

static const int CHUNK = 32;
static atomic<uint32_t>* stopFlag;

static void
writeCtx (const Ctx& ctx, const string& path)
{
    ofstream f (path, ios::binary);
    for (auto& c : ctx.count) f << "C " << c.first << " " << c.second << "\n";
    for (auto& s : ctx.samples) f << "S " << hexStr (s) << "\n";
    f.close();
    for (auto& d : ctx.distinct) {
        ofstream g (path + ".d." + d.first, ios::binary);
        for (uint64_t h : d.second) g.write ((const char*) &h, sizeof h);
    }
}

static void
evalGuarded (Check& chk, const string& c, Ctx& ctx)
{
    try {
        chk.eval (c, ctx);
    } catch (const exception& e) {
        ctx.fail (string ("uncaught exception: ") + e.what());
    }
}

static void
limitMemory()
{
#if !defined(__SANITIZE_ADDRESS__)
    rlimit l { 3500ull << 20, 3500ull << 20 };
    setrlimit (RLIMIT_AS, &l);
#endif
    rlimit nc { 0, 0 }; setrlimit (RLIMIT_CORE, &nc);
}

// Evaluate the cases of one shard with index in [from, to); stop after the
// first failure of this worker.
static int
worker (Check& chk, Slot* slot, int shard, int nshards, uint64_t from,
        uint64_t to, const string& base)
{
    limitMemory();
    Ctx ctx;
    slot->phase = 0;
    chk.setup (ctx);
    slot->phase = 1;
    uint64_t i = 0;
    bool failed = false;
    struct Stop {};
    try {
        chk.generate ([&] (const string& c) {
            uint64_t ix = i++;
            if ((ix / CHUNK) % nshards != (uint64_t) shard || ix < from) return;
            if (ix >= to || (stopFlag && *stopFlag)) throw Stop();
            uint32_t n = min (c.size(), sizeof slot->text);
            slot->caseLen = 0;
            memcpy (slot->text, c.data(), n);
            slot->caseLen = n;
            slot->index = ix + 1;
            ctx.failMsgs.clear();
            ctx.add ("cases");
            evalGuarded (chk, c, ctx);
            if (!ctx.failMsgs.empty()) {
                ofstream f (base + ".fail", ios::binary | ios::app);
                f << ix << " " << hexStr (c) << " " << hexStr (ctx.failMsgs[0]) << "\n";
                f.close();
                if (opt.survey) return;
                failed = true;
                throw Stop();
            }
        });
    } catch (Stop&) {}
    writeCtx (ctx, base + ".ctx." + to_string (from));
    slot->phase = failed ? 3 : 2;
    return 0;
}

static Slot*
newSlots (int n)
{
    void* p = mmap (nullptr, sizeof (Slot) * n, PROT_READ | PROT_WRITE,
                    MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror ("mmap"); exit (3); }
    return static_cast<Slot*> (p);
}

// outcome of an isolated re-execution
enum class Replay { PASS, FAIL, CRASH, HANG };

static Replay
runIsolated (const function<int (const string&)>& body, double secs, string& msg)
{
    string path = opt.tmp + "/isolated.msg";
    unlink (path.c_str());
    pid_t pid = fork();
    if (pid == 0) {
        limitMemory();
        int e = open ((opt.tmp + "/isolated.err").c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600);
        dup2 (e, 2);
        int rc = body (path);
        _exit (rc);
    }
    double end = now() + secs;
    int st;
    for (;;) {
        pid_t r = waitpid (pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() > end) {
            kill (pid, SIGKILL);
            waitpid (pid, &st, 0);
            msg = "does not finish within " + to_string ((int) secs) + " s on its own";
            return Replay::HANG;
        }
        usleep (5000);
    }
    if (WIFSIGNALED (st)) {
        msg = string ("killed by signal ") + strsignal (WTERMSIG (st)) + ": "
              + readFile (opt.tmp + "/isolated.err").substr (0, 400);
        return Replay::CRASH;
    }
    if (WEXITSTATUS (st) == 0) return Replay::PASS;
    if (WEXITSTATUS (st) == 1) { msg = readFile (path); return Replay::FAIL; }
    msg = "exit status " + to_string (WEXITSTATUS (st)) + ": "
          + readFile (opt.tmp + "/isolated.err").substr (0, 1500);
    return Replay::CRASH;
}

static Replay
replayCase (CheckMaker mk, const string& c, double secs, string& msg)
{
    return runIsolated ([&] (const string& path) {
        auto chk = mk();
        chk->prepare();
        Ctx ctx;
        chk->setup (ctx);
        evalGuarded (*chk, c, ctx);
        if (ctx.failMsgs.empty()) return 0;
        writeFile (path, ctx.failMsgs[0]);
        return 1;
    }, secs, msg);
}

static Replay
replayPrefix (CheckMaker mk, int shard, int nshards, uint64_t from, uint64_t ix,
              double secs, string& msg)
{
    return runIsolated ([&] (const string& path) {
        auto chk = mk();
        chk->prepare();
        Slot* slot = newSlots (1);
        string base = opt.tmp + "/prefix";
        unlink ((base + ".fail").c_str());
        stopFlag = nullptr;
        worker (*chk, slot, shard, nshards, from, ix + 1, base);
        if (slot->phase != 3) return 0;
        auto f = splitBy (readFile (base + ".fail"), ' ');
        writeFile (path, f.size() > 2 ? unhexStr (splitBy (f[2], '\n')[0]) : "failed");
        return 1;
    }, secs, msg);
}

struct Found { string kind, caseText, shown, msg; uint64_t index; };

static int
runCheck (const string& name, const string& statsPath)
{
    if (!registry().count (name)) { cerr << "no check " << name << endl; return 3; }
    CheckMaker mk = registry()[name];
    double t0 = now();
    auto chk = mk();
    alarm (3 * opt.hangSecs);
    chk->prepare();
    alarm (0);

    int n = opt.jobs;
    Slot* slots = newSlots (n);
    stopFlag = static_cast<atomic<uint32_t>*> (
        mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    vector<pid_t>    pids (n, -1);
    vector<uint64_t> from (n, 0), lastIx (n, 0);
    vector<double>   lastT (n, now());
    auto start = [&] (int k) {
        fflush (nullptr);
        pid_t p = fork();
        if (p == 0) {
            string base = opt.tmp + "/w" + to_string (k);
            int e = open ((base + ".err").c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600);
            dup2 (e, 2);
            _exit (worker (*chk, &slots[k], k, n, from[k], UINT64_MAX, base));
        }
        pids[k] = p;
        lastT[k] = now();
        lastIx[k] = 0;
    };
    for (int k = 0; k < n; ++k) start (k);

    vector<Found> found;
    uint64_t hangsCleared = 0;
    int rc = 0;
    int alive = n;
    auto investigate = [&] (int k, const string& c, uint64_t ix, const string& how, double secs) {
        string msg;
        Replay r = replayCase (mk, c, secs, msg);
        if (r != Replay::PASS) {
            found.push_back ({ "single", c, chk->show (c), msg, ix });
            return true;
        }
        // not reproducible alone: depends on what was evaluated before it
        r = replayPrefix (mk, k, n, from[k], ix, max (secs, 4 * (now() - t0) + 30), msg);
        if (r != Replay::PASS) {
            found.push_back ({ "prefix " + to_string (k) + "/" + to_string (n) + " from "
                               + to_string (from[k]), c, chk->show (c),
                               "(after the preceding cases of the enumeration) " + msg, ix });
            return true;
        }
        cerr << "not reproducible: " << how << " on " << chk->show (c) << endl;
        return false;
    };
    while (alive > 0) {
        usleep (10000);
        for (int k = 0; k < n; ++k) {
            if (pids[k] < 0) continue;
            int st;
            pid_t r = waitpid (pids[k], &st, WNOHANG);
            if (r == pids[k]) {
                pids[k] = -1; --alive;
                if (WIFEXITED (st) && WEXITSTATUS (st) == 0) {
                    if (slots[k].phase == 3) *stopFlag = 1;
                    continue;
                }
                // died
                *stopFlag = 1;
                if (!found.empty()) continue;
                string c (slots[k].text, slots[k].caseLen);
                if (slots[k].phase == 0 || slots[k].index == 0) {
                    cerr << "worker died in setup: status " << st << "\n"
                         << readFile (opt.tmp + "/w" + to_string (k) + ".err").substr (0, 2000) << endl;
                    found.push_back ({ "setup", "", "set-up of the check",
                        "program died while preparing: "
                        + readFile (opt.tmp + "/w" + to_string (k) + ".err").substr (0, 300), 0 });
                    continue;
                }
                if (!investigate (k, c, slots[k].index - 1, "death", 3 * opt.hangSecs)) {
                    cerr << readFile (opt.tmp + "/w" + to_string (k) + ".err").substr (0, 2000) << endl;
                    rc = 2;
                }
                continue;
            }
            if (slots[k].index != lastIx[k]) { lastIx[k] = slots[k].index; lastT[k] = now(); }
            else if (now() - lastT[k] > (found.empty() ? opt.hangSecs : 1) && slots[k].phase == 1) {
                kill (pids[k], SIGKILL);
                waitpid (pids[k], &st, 0);
                pids[k] = -1;
                if (!found.empty()) { --alive; continue; }      // one is enough
                string c (slots[k].text, slots[k].caseLen);
                string msg;
                Replay rr = replayCase (mk, c, 3 * opt.hangSecs, msg);
                if (rr != Replay::PASS) {
                    *stopFlag = 1; --alive;
                    found.push_back ({ "single", c, chk->show (c), msg, slots[k].index - 1 });
                } else {
                    // finished on its own: go on after it
                    ++hangsCleared;
                    from[k] = slots[k].index;
                    start (k);
                }
            }
        }
    }
    // failures recorded by workers
    struct F { uint64_t ix; string c, m; int k; };
    vector<F> fails;
    for (int k = 0; k < n; ++k) {
        for (auto& l : splitBy (readFile (opt.tmp + "/w" + to_string (k) + ".fail"), '\n')) {
            auto f = splitBy (l, ' ');
            if (f.size() == 3)
                fails.push_back ({ stoull (f[0]), unhexStr (f[1]), unhexStr (f[2]), k });
        }
    }
    sort (fails.begin(), fails.end(), [] (const F& a, const F& b) {
        return a.c.size() != b.c.size() ? a.c.size() < b.c.size() : a.ix < b.ix; });
    if (opt.survey) {
        for (auto& f : fails) cout << chk->show (f.c) << "\t" << f.m << "\n";
        cout << fails.size() << " failures" << endl;
        return 1;
    }
    for (auto& f : fails) {
        if ((int) found.size() >= opt.maxFail) break;
        if (!investigate (f.k, f.c, f.ix, "failure (" + f.m + ")", 3 * opt.hangSecs)
            && found.empty())
        {
            rc = 2;
        }
    }
    if (!found.empty()) rc = 1;

    // merge facts
    Ctx all;
    for (int k = 0; k < n; ++k) {
        for (uint64_t fr = 0; fr != UINT64_MAX; ) {
            string base = opt.tmp + "/w" + to_string (k) + ".ctx." + to_string (fr);
            ifstream f (base);
            string tag, a; 
            while (f >> tag) {
                if (tag == "C") { uint64_t v; f >> a >> v; all.count[a] += v; }
                else { f >> a; if (all.samples.size() < 8) all.samples.push_back (unhexStr (a)); }
            }
            fr = fr != from[k] ? from[k] : UINT64_MAX;
        }
    }
    (void) !system (("ls " + opt.tmp + " > " + opt.tmp + "/ls.txt").c_str());
    for (auto& l : splitBy (readFile (opt.tmp + "/ls.txt"), '\n')) {
        size_t p = l.find (".d.");
        if (p == string::npos) continue;
        string d = readFile (opt.tmp + "/" + l);
        auto& set = all.distinct[l.substr (p + 3)];
        for (size_t i = 0; i + 8 <= d.size(); i += 8) {
            uint64_t h; memcpy (&h, d.data() + i, 8); set.insert (h);
        }
    }
    ofstream f (statsPath, ios::binary);
    f << "{\"check\":" << jsonStr (name) << ",\"count\":{";
    bool first = true;
    for (auto& c : all.count) { f << (first ? "" : ",") << jsonStr (c.first) << ":" << c.second; first = false; }
    f << "},\"distinct\":{";
    first = true;
    for (auto& c : all.distinct) { f << (first ? "" : ",") << jsonStr (c.first) << ":" << c.second.size(); first = false; }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : all.samples) { f << (first ? "" : ",") << jsonStr (s); first = false; }
    f << "],\"cleared_slow_cases\":" << hangsCleared << ",\"wall_s\":" << now() - t0 << ",\"violations\":[";
    first = true;
    for (auto& v : found) {
        f << (first ? "" : ",") << "{\"kind\":" << jsonStr (v.kind) << ",\"index\":" << v.index
          << ",\"case_hex\":" << jsonStr (hexStr (v.caseText))
          << ",\"shown\":" << jsonStr (v.shown) << ",\"message\":" << jsonStr (v.msg) << "}";
        first = false;
    }
    f << "]}\n";
    return rc;
}

// A check that dies, throws or hangs while it prepares (analysing its own
// texts, compiling its dictionaries) has found that out twice before it is told.
static int
guardedRun (const string& name, const string& statsPath)
{
    string msg;
    for (int turn = 0; turn < 2; ++turn) {
        unlink (statsPath.c_str());
        fflush (nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            int rc = 3;
            try { rc = runCheck (name, statsPath); }
            catch (const exception& e) { writeFile (opt.tmp + "/threw", e.what()); rc = 4; }
            fflush (nullptr);
            _exit (rc);
        }
        int st;
        waitpid (pid, &st, 0);
        if (WIFEXITED (st) && WEXITSTATUS (st) != 4 && (WEXITSTATUS (st) == 3 || ifstream (statsPath).good()))
            return WEXITSTATUS (st);
        if (WIFSIGNALED (st) && WTERMSIG (st) == SIGKILL) return 3;
        msg = WIFSIGNALED (st) ? string ("killed by signal ") + strsignal (WTERMSIG (st))
              : WEXITSTATUS (st) == 4 ? readFile (opt.tmp + "/threw") : "exit status " + to_string (WEXITSTATUS (st));
    }
    ofstream f (statsPath, ios::binary);
    f << "{\"check\":" << jsonStr (name) << ",\"count\":{},\"distinct\":{},\"samples\":[],\"wall_s\":0,\"violations\":"
      << "[{\"kind\":\"setup\",\"index\":0,\"case_hex\":\"\",\"shown\":\"preparation of the check\",\"message\":" << jsonStr (msg) << "}]}\n";
    return 1;
}

int
main (int argc, char** argv)
{
    setvbuf (stdout, nullptr, _IOLBF, 0);
    string cmd = argc > 1 ? argv[1] : "";
    string name, stats, caseHex;
    for (int i = 2; i < argc; ++i) {
        string a = argv[i];
        auto val = [&] { return string (i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") opt.tier = val();
        else if (a == "--tmp") opt.tmp = val();
        else if (a == "--repo") opt.repo = val();
        else if (a == "--bin") opt.bin = val();
        else if (a == "--jobs") opt.jobs = stoi (val());
        else if (a == "--hang") opt.hangSecs = stod (val());
        else if (a == "--survey") opt.survey = true;
        else if (a == "--stats") stats = val();
        else if (a == "--case") caseHex = val();
        else name = a;
    }
    if (cmd == "run") return guardedRun (name, stats);
    if (cmd == "replay" && registry().count (name)) {
        string msg;
        Replay r = replayCase (registry()[name], unhexStr (caseHex), 3 * opt.hangSecs, msg);
        cout << (r == Replay::PASS ? "passes" : msg) << endl;
        return r == Replay::PASS ? 0 : 1;
    }
    if (cmd == "list") { for (auto& r : registry()) cout << r.first << endl; return 0; }
    cerr << "usage: mc run|replay CHECK --tier T --tmp DIR --bin DIR --stats FILE" << endl;
    return 3;
}
