// C30: analyses and renderings that overlap in time do not disturb each other.
//
// The library is built with a call at every basic block.  Two threads each do
// one operation; the calls hand control from one to the other, so that a
// schedule is a pair of numbers: the first is interrupted before its k-th
// basic block and the second runs to its end, or to its m-th basic block and
// ends after the first.
#include "real.h"

#include <atomic>
#include <cerrno>
#include <semaphore.h>
#include <stdexcept>
#include <thread>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace std;

namespace {

struct Control {
    sem_t start, back, resume, done;
    long  at[3] = { 0, 0, 0 };      // stop before this block
    long  seen[3] = { 0, 0, 0 };
    bool  blocked = false;
    Control() { for (auto s : { &start, &back, &resume, &done }) sem_init (s, 0, 0); }
} control;

thread_local int role = 0;

atomic<int> vain { 0 };

// a participant may hold what the other one needs, then it has to go on
bool
await (sem_t* s)
{
    timespec t;
    clock_gettime (CLOCK_REALTIME, &t);
    if (vain < 4) t.tv_sec += 5;
    else if ((t.tv_nsec += 10000000) >= 1000000000) { ++t.tv_sec; t.tv_nsec -= 1000000000; }
    while (sem_timedwait (s, &t)) if (errno != EINTR) { ++vain; return false; }
    return true;
}

}

extern "C" void
__sanitizer_cov_trace_pc()
{
    int r = role;
    if (r == 0) return;
    if (++control.seen[r] != control.at[r]) return;
    role = 0;
    if (r == 1) {
        sem_post (&control.start);
        if (!await (&control.back)) control.blocked = true;
    } else {
        sem_post (&control.back);
        if (!await (&control.resume)) control.blocked = true;
    }
    role = r;
}

// cases: interruptions, first operation, second operation, number of the part of the schedules
struct OverlapCheck : Check {
    static constexpr int PARTS = 8;
    vector<string> words = { "กา", "ขนม", "ทรา", "ก.", "x1", "ฤกษ์", "\xff", "ตากลม", "มานาก" };
    string dict[2], error;
    struct Op { char kind; int a, b; };
    int small = 0;
    vector<Op> ops;
    vector<string> alone;
    vector<long>   blocks;
    // state of each participant, and what they share
    unique_ptr<Parser> own[2][3], shared[3];
    vector<PronunDAG> graph;
    vector<unique_ptr<IOutput>> out[3];

    void prepare() override
    {
        try {
            dict[0] = compileDict ("v1", "กา\td_A_2@2\nนม\tb_i_0@1,s_U_4@2;b_i_1@1,s_U_3@2\n");
            dict[1] = compileDict ("v2", "ทรา\tm_I_0@3;s_A_1@3\nกา\tb_x_3@2\n");
        } catch (const exception& e) { error = e.what(); }
        for (int w = 0; w < 7; ++w) { ops.push_back ({ 'P', w, w % 3 }); ops.push_back ({ 'S', w, (w + 1) % 3 }); }
        ops.push_back ({ 'P', 1, 0 }); ops.push_back ({ 'S', 1, 0 });
        // words that segmentation divides
        ops.push_back ({ 'P', 7, 2 }); ops.push_back ({ 'S', 7, 2 }); ops.push_back ({ 'S', 8, 2 });
        for (int n = 0; n < 5; ++n) for (int s = 0; s < 3; ++s) { ops.push_back ({ 'O', n * 3 + s, (n + s) % 2 }); if (s == n % 3 || opt.thorough()) ops.push_back ({ 'R', n * 3 + s, (n + s) % 2 }); }
        ops.push_back ({ 'L', 0, 0 }); ops.push_back ({ 'L', 1, 0 }); ops.push_back ({ 'L', 2, 0 });
        ops.push_back ({ 'D', 0, 0 });
        // short ones, for two interruptions
        small = ops.size();
        for (int n = 0; n < 5; ++n) ops.push_back ({ n % 2 ? 'O' : 'R', n * 3 + n % 3, 2 });
        ops.push_back ({ 'S', 4, 0 });
        ops.push_back ({ 'P', 4, 2 });
    }
    static unique_ptr<Parser> make (int m, const string* d)
    {
        unique_ptr<Parser> p (new Parser (m == 2));
        if (m) p->loadExceptDict (d[m - 1].c_str());
        return p;
    }
    void ready()
    {
        if (!graph.empty()) return;
        for (int m = 0; m < 3; ++m) { for (auto& o : own) o[m] = make (m, dict); shared[m] = make (m, dict); }
        graph.push_back (shared[0]->parseWord ("ขนม 1\"ก"));
        graph.push_back (shared[0]->parseWord ("กรตา."));
        graph.push_back (shared[0]->parseWord ("ก1"));
        for (auto& o : out) for (int n = 0; n < 5; ++n) for (int s = 0; s < 3; ++s) o.push_back (textOutput (n, s));
        for (auto& o : ops) {
            // once to set up what is set up at first use
            run (o, 0);
            control.seen[1] = 0; control.at[1] = 0;
            role = 1;
            string r = run (o, 0);
            role = 0;
            alone.push_back (r);
            blocks.push_back (control.seen[1]);
        }
    }
    static string text (const PronunDAG& d)
    {
        int r = role;
        role = 0;
        string s;
        for (auto& e : realEdges (d)) s += to_string (e.from) + ">" + to_string (e.to) + " " + e.label + "|";
        role = r;
        return s;
    }
    // who: 0 or 1
    string run (const Op& o, int who)
    {
        try {
            switch (o.kind) {
            case 'P': return text (own[who][o.b]->parseWord (words[o.a]));
            case 'S': return text (shared[o.b]->parseWord (words[o.a]));
            case 'O': return out[who][o.a]->output (graph[o.b]);
            case 'R': return out[2][o.a]->output (graph[o.b]);
            case 'L': { Parser p (o.a == 2 ? "/nonexistent" : dict[o.a].c_str(), o.a == 1); return text (p.parseWord ("กา")); }
            case 'D': {
                PronunDAG d (graph[0]), e;
                e = d;
                e.unionDAG (graph[1]);
                e.removeDirectEdges (0, 3);
                return text (d) + text (e) + textOutput (3, 2)->output (e);
            }
            }
        } catch (const range_error&) { return "invalid"; }
        return "";
    }
    void generate (const Emit& emit) override
    {
        int n = ops.size();
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int p = 0; p < PARTS; ++p) {
            // the short ones with each other
            bool two = a >= small && b >= small && (opt.thorough() || a == b || a + 1 == b);
            if (two) emit ("2" + to_string (a) + " " + to_string (b) + " " + to_string (p));
            if ((a >= small) == (b >= small)) emit ("1" + to_string (a) + " " + to_string (b) + " " + to_string (p));
        }
    }
    string name (int i)
    {
        auto& o = ops[i];
        switch (o.kind) {
        case 'P': case 'S': return string (o.kind == 'P' ? "own" : "shared") + " analyser " + to_string (o.b) + " reads '" + words[o.a] + "'";
        case 'O': case 'R': return string (o.kind == 'O' ? "own" : "shared") + " output, notation " + to_string (o.a / 3) + " structure " + to_string (o.a % 3);
        case 'L': return "a new analyser loads dictionary " + to_string (o.a);
        default:  return "graph operations";
        }
    }
    string show (const string& c) override
    {
        int a = 0, b = 0, p = 0;
        sscanf (c.c_str() + 1, "%d %d %d", &a, &b, &p);
        return name (a) + " / " + name (b) + ", interruptions " + c[0] + ", part " + to_string (p);
    }
    // one schedule
    bool schedule (int a, int b, long k, long m, Ctx& ctx)
    {
        string ra, rb;
        control.seen[1] = control.seen[2] = 0;
        control.at[1] = k; control.at[2] = m;
        control.blocked = false;
        job = &ops[b];
        role = 1;
        ra = run (ops[a], 0);
        role = 0;
        if (control.seen[1] < k) sem_post (&control.start);     // not reached
        sem_post (&control.resume);
        sem_wait (&control.done);
        rb = result;
        for (auto s : { &control.start, &control.back, &control.resume }) while (!sem_trywait (s)) {}
        ctx.add ("model_transitions", control.seen[1] + control.seen[2]);
        ctx.add (control.blocked ? "schedules_with_waiting" : "model_states");
        if (ra == alone[a] && rb == alone[b]) return true;
        ctx.fail ("interrupted before block " + to_string (k) + (m ? ", the other one before block " + to_string (m) : string()) + ": "
                  + (ra == alone[a] ? "the second gives " + rb.substr (0, 200) + " instead of " + alone[b].substr (0, 200) : "the first gives " + ra.substr (0, 200) + " instead of " + alone[a].substr (0, 200)));
        return false;
    }
    const Op* job = nullptr;
    string result;
    bool helper = false;
    void startHelper()
    {
        if (helper) return;
        helper = true;
        thread ([this] {
            for (;;) {
                while (sem_wait (&control.start)) {}
                role = 2;
                string r = run (*job, 1);
                role = 0;
                result = r;
                sem_post (&control.back);
                sem_post (&control.done);
            }
        }).detach();
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (!error.empty()) { ctx.fail (error); return; }
        ready();
        startHelper();
        int a = 0, b = 0, p = 0;
        sscanf (c.c_str() + 1, "%d %d %d", &a, &b, &p);
        ctx.see ("blocks", name (a) + to_string (blocks[a]));
        // where one has to wait for the other there is nothing to interleave
        long waited = 0;
        for (long k = 1 + p; k <= blocks[a]; k += PARTS) {
            if (waited > 2 && k / PARTS % 64) { ctx.add ("schedules_left_out_for_waiting"); continue; }
            for (long m = c[0] == '1' ? 0 : 1; m <= (c[0] == '1' ? 0 : blocks[b]); ++m) {
                if (!schedule (a, b, k, m, ctx)) return;
                waited = control.blocked ? waited + 1 : 0;
                if (waited > 2) break;
            }
        }
        if (p == 0) ctx.sample (show (c));
        ctx.see ("nontrivial", c);
    }
};
REGISTER_CHECK (OverlapCheck, "overlap");

// The same in processes that have done nothing before, so that what is set up
// at first use is set up in the schedule.
// cases: first operation, second operation, part of the schedules
struct OverlapFirstCheck : OverlapCheck {
    void generate (const Emit& emit) override
    {
        int n = ops.size();
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
            // each with itself and the next (thorough: three) of its kind
            int step = ops[a].kind == 'P' || ops[a].kind == 'S' ? 2 : 1;
            bool like = ops[a].kind == ops[b].kind && b > a && (b - a) % step == 0 && b - a <= step * (opt.thorough() ? 3 : 1);
            if (a != b && !like) continue;
            for (int p = 0; p < PARTS; ++p) emit ("1" + to_string (a) + " " + to_string (b) + " " + to_string (p));
        }
    }
    // only what the operation cannot do without
    void need (const Op& o)
    {
        for (auto& w : own) if (o.kind == 'P' && !w[o.b]) w[o.b] = make (o.b, dict);
        if (o.kind == 'S' && !shared[o.b]) shared[o.b] = make (o.b, dict);
        if (o.kind == 'O' || o.kind == 'R') for (auto& w : out) {
            w.resize (15);
            if (!w[o.a]) w[o.a] = textOutput (o.a / 3, o.a % 3);
        }
        if ((o.kind == 'O' || o.kind == 'R' || o.kind == 'D') && graph.empty()) {
            Parser p (false);
            for (auto w : { "ขนม 1\"ก", "กรตา.", "ก1" }) graph.push_back (p.parseWord (w));
        }
    }
    // in a process of its own
    template<class F> pair<int, string>
    apart (F f)
    {
        int fd[2];
        if (pipe (fd)) return { -1, "no pipe" };
        pid_t pid = fork();
        if (pid == 0) {
            close (fd[0]);
            string r = f();
            size_t at = 0;
            while (at < r.size()) { ssize_t n = write (fd[1], r.data() + at, r.size() - at); if (n <= 0) break; at += n; }
            _exit (0);
        }
        close (fd[1]);
        string r;
        char buf[4096];
        ssize_t n;
        while ((n = read (fd[0], buf, sizeof buf)) > 0) r.append (buf, n);
        close (fd[0]);
        int st = 0;
        waitpid (pid, &st, 0);
        return { st, r };
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (!error.empty()) { ctx.fail (error); return; }
        int a = 0, b = 0, p = 0;
        sscanf (c.c_str() + 1, "%d %d %d", &a, &b, &p);
        map<int, string> want;
        long total = 0;
        for (int o : { b, a }) {
            auto r = apart ([&] {
                need (ops[o]);
                control.seen[1] = control.at[1] = 0;
                role = 1;
                string s = run (ops[o], 0);
                role = 0;
                return to_string (control.seen[1]) + ":" + s;
            });
            if (r.first) { ctx.fail (name (o) + " does not end"); return; }
            total = atol (r.second.c_str());
            want[o] = r.second.substr (r.second.find (':') + 1);
        }
        ctx.see ("blocks", name (a) + to_string (total));
        alone.assign (ops.size(), string());
        alone[a] = want[a];
        alone[b] = want[b];
        for (long k = 1 + p; k <= total; k += PARTS) {
            auto r = apart ([&] {
                need (ops[a]);
                need (ops[b]);
                startHelper();
                Ctx mine;
                schedule (a, b, k, 0, mine);
                return to_string (control.seen[1] + control.seen[2]) + (control.blocked ? "w" : "d") + (mine.failMsgs.empty() ? string() : mine.failMsgs[0]);
            });
            size_t q = r.second.find_first_of ("wd");
            if (r.first || q == string::npos) { ctx.fail ("interrupted before block " + to_string (k) + " at first use: the process ends abnormally"); return; }
            if (q + 1 < r.second.size()) { ctx.fail ("at first use " + r.second.substr (q + 1)); return; }
            bool waited = r.second[q] == 'w';
            if (waited) ++vain;
            ctx.add ("model_transitions", atol (r.second.c_str()));
            ctx.add (waited ? "schedules_with_waiting" : "model_states");
        }
        ctx.see ("nontrivial", "F" + c);
        if (p == 0) ctx.sample ("at first use: " + show (c));
    }
};
REGISTER_CHECK (OverlapFirstCheck, "overlapfirst");
