// C26: what a session takes it gives back.
#include "real.h"
#include "dict/dict.h"

#include <dirent.h>
#include <malloc.h>
#include <stdexcept>
#include <unistd.h>

using namespace std;

// Every block taken and returned in this process is counted, also those of
// the libraries
extern "C" {
void* __libc_malloc (size_t);
void* __libc_calloc (size_t, size_t);
void* __libc_realloc (void*, size_t);
void* __libc_memalign (size_t, size_t);
void  __libc_free (void*);
}
static long liveBlocks, liveBytes;
static void* taken (void* p) { if (p) { ++liveBlocks; liveBytes += malloc_usable_size (p); } return p; }
static void  given (void* p) { if (p) { --liveBlocks; liveBytes -= malloc_usable_size (p); } }
extern "C" {
void* malloc (size_t n) { return taken (__libc_malloc (n)); }
void* calloc (size_t n, size_t m) { return taken (__libc_calloc (n, m)); }
void* realloc (void* p, size_t n)
{
    long b = p ? malloc_usable_size (p) : 0;
    void* q = __libc_realloc (p, n);
    if (q || !n) { if (p) { --liveBlocks; liveBytes -= b; } taken (q); }
    return q;
}
void* memalign (size_t a, size_t n) { return taken (__libc_memalign (a, n)); }
void* aligned_alloc (size_t a, size_t n) { return taken (__libc_memalign (a, n)); }
void  free (void* p) { given (p); __libc_free (p); }
}

static int
openFiles()
{
    int n = 0;
    DIR* d = opendir ("/proc/self/fd");
    while (readdir (d)) ++n;
    closedir (d);
    return n;
}

// Loaded into the program: tells the largest amount it held at a time
static const char* const counter = R"C(
#define _GNU_SOURCE
#include <fcntl.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/syscall.h>
extern void *__libc_malloc (size_t), *__libc_calloc (size_t, size_t), *__libc_realloc (void*, size_t), __libc_free (void*);
static long blocks, bytes, mostBlocks, mostBytes;
static void* taken (void* p)
{
    if (p) {
        if (++blocks > mostBlocks) mostBlocks = blocks;
        if ((bytes += malloc_usable_size (p)) > mostBytes) mostBytes = bytes;
    }
    return p;
}
void* malloc (size_t n) { return taken (__libc_malloc (n)); }
void* calloc (size_t n, size_t m) { return taken (__libc_calloc (n, m)); }
void* realloc (void* p, size_t n)
{
    long b = p ? malloc_usable_size (p) : 0;
    void* q = __libc_realloc (p, n);
    if (q || !n) { if (p) { --blocks; bytes -= b; } taken (q); }
    return q;
}
void free (void* p) { if (p) { --blocks; bytes -= malloc_usable_size (p); } __libc_free (p); }
__attribute__ ((destructor)) static void tell (void)
{
    const char* c = getenv ("PEAK_FILE");
    char b[100];
    int len = snprintf (b, sizeof b, "%ld %ld\n", mostBlocks, mostBytes);
    int fd = c ? syscall (SYS_openat, AT_FDCWD, c, O_WRONLY | O_CREAT | O_TRUNC, 0600) : -1;
    if (fd >= 0) { syscall (SYS_write, fd, b, len); syscall (SYS_close, fd); }
}
)C";

// A case is a history of operations; it is run until nothing is new, then again,
// each time in a new session or, with "=" before it, in the same session.
// "&" setting and lines: the program gets the lines many times
struct ResourceCheck : Check {
    string good, other, cut, cutData, foreign, error;
    vector<string> words { "กา", "ขนมกรรม", "ทราบตากลม", "ฤดู x1 ก.พ.", "เ", string ("\xe0\xb8\x81\xff"), "", "สวัสดี\"" };

    string lib;
    vector<vector<string>> sets;

    void prepare() override
    {
        lib = opt.tmp + "/counter.so";
        writeFile (opt.tmp + "/counter.c", counter);
        if (system (("gcc -w -O1 -shared -fPIC '" + opt.tmp + "/counter.c' -o '" + lib + "'").c_str()))
            throw runtime_error ("cannot build the counting library");
        try {
            good = compileDict ("g", "กา\td_A_2@2;k_A_0@2\nกลม\tb_i_0@1,s_U_4@3\nทราบ\tk_A_0@4\n");
            other = compileDict ("o", "ตา\tm_I_0@2;bad;s_A_1@2\nกา\t\n");
        } catch (const exception& e) { error = e.what(); return; }
        cut = opt.tmp + "/cut.dic";
        string d = readFile (good);
        writeFile (cut, d.substr (0, d.size() / 2));
        cutData = opt.tmp + "/cutdata.dic";
        writeFile (cutData, d.substr (0, d.size() - 3));
        foreign = opt.tmp + "/foreign.dic";
        writeFile (foreign, "nothing of the kind");
        sets = { { "-d" + good, "-w" }, { "-d" + other, "-n", "-g" }, { "-d" + opt.tmp + "/none", "-j", "-r", "-s" }, { "-d" + good, "-t", "-p" } };
    }
    // a-h analyse words; j render; g o y x m load into the first; n new analyser;
    // k second analyser with its own dictionary; D dictionary alone, E reopened,
    // L abandoned lookup; G graph copies
    const char* ops() { return "abcdefhjgoyxmnkDELG"; }
    void generate (const Emit& emit) override
    {
        int depth = opt.thorough() ? 4 : 3;
        function<void (const string&, int)> rec = [&] (const string& s, int n) {
            if (!s.empty()) emit (s);
            if (n) for (const char* o = ops(); *o; ++o) rec (s + *o, n - 1);
        };
        rec ("", depth);
        function<void (const string&, int)> same = [&] (const string& s, int n) {
            if (!s.empty()) emit ("=" + s);
            if (n) for (const char* o = ops(); *o; ++o) same (s + *o, n - 1);
        };
        same ("", depth);
        for (size_t k = 0; k < sets.size(); ++k)
            for (size_t i = 0; i < words.size(); ++i) for (size_t j = i; j < words.size(); ++j)
                emit ("&" + to_string (k) + to_string (i) + to_string (j));
        // a file cut at every place, and with every byte of its head
        string d = readFile (good), big = readFile (opt.bin + "/except.dic");
        for (size_t k = 0; k <= d.size(); ++k) emit ("+g" + to_string (k));
        for (size_t k = 0; k <= big.size(); k += opt.thorough() ? 1 : 13) emit ("+s" + to_string (k));
        for (int k = 0; k < 4 * 256; ++k) emit ("+h" + to_string (k));
    }
    string show (const string& c) override { return "history " + c; }
    struct Session { unique_ptr<Parser> p { new Parser (true) }, q; PronunDAG kept; };
    void step (Session& s, char o)
    {
        if (o >= 'a' && o <= 'h' && o != 'g') {
            const string& w = words[o == 'h' ? 7 : o - 'a'];
            try { s.kept = s.p->parseWord (w); } catch (const range_error&) {}
            return;
        }
        switch (o) {
        case 'j':
            for (int n = 0; n < 5; ++n) for (int t = 0; t < 3; ++t) textOutput (n, t)->output (s.kept);
            break;
        case 'g': s.p->loadExceptDict (good.c_str()); break;
        case 'o': s.p->loadExceptDict (other.c_str()); break;
        case 'y': s.p->loadExceptDict (cut.c_str()); break;
        case 'x': s.p->loadExceptDict (cutData.c_str()); break;
        case 'm': s.p->loadExceptDict ("/nonexistent/x"); break;
        case 'n': s.p.reset (new Parser (false)); s.p->loadExceptDict (foreign.c_str()); break;
        case 'k': s.q.reset (new Parser (true)); s.q->loadExceptDict (other.c_str()); s.q->parseWord (words[2]); break;
        case 'D': { Dict d; d.open (good.c_str()); d.close(); break; }
        case 'E': { Dict d; d.open (good.c_str()); d.open (other.c_str()); d.open (cut.c_str()); break; }
        case 'L': { Dict d; d.open (good.c_str()); U16 t = u"กากลม"; Match m (t, 0, &d); m.findNext(); if (m.findNext()) m.getData(); break; }
        case 'G': { PronunDAG a = s.kept, b (a); a.unionDAG (b); s.kept = a; a.fracDAG().lattice(); break; }
        }
    }
    string made;
    void make (const string& c)
    {
        string d = readFile (c[1] == 's' ? opt.bin + "/except.dic" : good);
        int k = atoi (c.c_str() + 2);
        if (c[1] == 'h') d[k / 256] = char (k % 256);
        else d = d.substr (0, k);
        made = opt.tmp + "/made." + to_string (getpid());
        writeFile (made, d);
    }
    void once (const string& c)
    {
        if (c[0] == '+') {
            Parser p (false);
            p.loadExceptDict (made.c_str());
            p.parseWord (words[2]);
            p.loadExceptDict (made.c_str());
            Dict d;
            d.open (made.c_str());
            d.open (good.c_str());
            d.open (made.c_str());
            return;
        }
        Session s; for (char o : c) step (s, o);
    }
    // the largest amounts held for a number of lines
    pair<long, long> peak (const string& c, int lines)
    {
        string in, file = opt.tmp + "/peak." + to_string (getpid());
        for (int k = 0; k < lines; ++k) in += words[c[2 + k % 2] - '0'] + "\n";
        vector<string> argv { opt.bin + "/thpronun" };
        argv.insert (argv.end(), sets[c[1] - '0'].begin(), sets[c[1] - '0'].end());
        setenv ("LD_PRELOAD", lib.c_str(), 1);
        setenv ("PEAK_FILE", file.c_str(), 1);
        RunResult r = runProgram (argv, in);
        unsetenv ("LD_PRELOAD");
        unsetenv ("PEAK_FILE");
        pair<long, long> p;
        sscanf (readFile (file).c_str(), "%ld %ld", &p.first, &p.second);
        unlink (file.c_str());
        return p;
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (!error.empty()) { ctx.fail (error); return; }
        ctx.see ("nontrivial", c);
        if (c[0] == '&') {
            auto a = peak (c, 200), b = peak (c, 1200);
            ctx.add ("operations", 1400);
            if (!a.first || b.first > a.first) ctx.fail ("the program holds up to " + to_string (b.first) + " blocks for 1200 lines, " + to_string (a.first) + " for 200");
            // a byte for a line would be 1000; sizes of blocks vary a little
            if (b.second > a.second + 500) ctx.fail ("the program holds up to " + to_string (b.second) + " bytes for 1200 lines, " + to_string (a.second) + " for 200");
            return;
        }
        if (c[0] == '=') {
            Session s;
            auto all = [&] { for (size_t i = 1; i < c.size(); ++i) step (s, c[i]); };
            for (int k = 0; k < 3; ++k) all();
            long b0 = liveBlocks, y0 = liveBytes, f0 = openFiles();
            for (int k = 0; k < 3; ++k) all();
            if (liveBlocks > b0) ctx.fail (to_string (liveBlocks - b0) + " more blocks held after three repetitions in one session");
            // sizes of blocks depend on what was free: a loss grows each time
            long y1 = y0;
            int  grown = 0;
            for (; grown < 6 && liveBytes > y1; ++grown) { y1 = liveBytes; all(); }
            if (grown == 6) ctx.fail (to_string (liveBytes - y0) + " more bytes held after repetitions in one session");
            if (openFiles() > f0) ctx.fail ("more files open after three repetitions in one session");
            ctx.add ("operations", 6 * (c.size() - 1));
            return;
        }
        if (c[0] == '+') make (c);
        for (int k = 0; k < 2; ++k) once (c);
        long b0 = liveBlocks, y0 = liveBytes, f0 = openFiles();
        for (int k = 0; k < 3; ++k) once (c);
        long b1 = liveBlocks, y1 = liveBytes, f1 = openFiles();
        if (b1 > b0) ctx.fail (to_string (b1 - b0) + " blocks not given back by three repetitions");
        if (y1 > y0) ctx.fail (to_string (y1 - y0) + " bytes not given back by three repetitions");
        if (f1 > f0) ctx.fail (to_string (f1 - f0) + " files left open by three repetitions");
        ctx.add ("operations", 5 * (c[0] == '+' ? 6 : c.size()));
        if (c.size() == 3) ctx.sample (c);
    }
};
REGISTER_CHECK (ResourceCheck, "resource");
