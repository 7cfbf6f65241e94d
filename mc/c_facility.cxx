// C29: a facility that cannot be provided is announced, and the answers are
// those without it.
#include "real.h"

#include <algorithm>
#include <datrie/trie.h>
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;

// Loaded into the program: lets the n-th call of a kind fail; opens and reads
// only as long as the program has not asked for its input yet
static const char* const interposer = R"C(
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
extern void *__libc_malloc (size_t), *__libc_calloc (size_t, size_t), *__libc_realloc (void*, size_t);
static int  kind[4] = { -1, 0, 0, 0 }, started;
static long at[4], n[3];
static const void* lost[4];
static int  hits;
static void init (void)
{
    const char* k = getenv ("FI");
    int i = 0;
    kind[0] = 0;
    for (; k && *k && i < 4; ++i) {
        kind[i] = *k;
        at[i] = strtol (k + 1, (char**) &k, 10);
        if (*k) ++k;
    }
}
// the program is set up: files are not its business any more
static void stop (void) { started = 1; }
__attribute__ ((destructor)) static void tell (void)
{
    const char* c = getenv ("FI_COUNT");
    if (!c) return;
    char b[100];
    int len = snprintf (b, sizeof b, "%ld %ld %ld\n", n[0], n[1], n[2]);
    int fd = syscall (SYS_openat, AT_FDCWD, c, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { syscall (SYS_write, fd, b, len); syscall (SYS_close, fd); }
}
static int alloc (void)
{
    if (kind[0] < 0) init ();
    ++n[0];
    int f = 0, i;
    for (i = 0; i < 4; ++i) f |= (kind[i] == 'M' && n[0] == at[i]) || (kind[i] == 'L' && n[0] >= at[i]);
    if (f) { errno = ENOMEM; ++hits; }
    return f;
}
static int isList (const char* p)
{
    size_t k = p ? strlen (p) : 0;
    return k > 4 && !strcmp (p + k - 4, ".tri");
}
static int opening (const char* p)
{
    if (started) return 0;
    if (kind[0] < 0) init ();
    int f = 0, i, o = n[1]++;
    for (i = 0; i < 4; ++i) if ((kind[i] == 'O' || kind[i] == 'P') && o < 60 && at[i] >> o & 1) {
        f = 1;
        errno = kind[i] == 'O' ? ENOENT : EMFILE;
    } else if (kind[i] == 'F' && at[i] & (isList (p) ? 1 : 2)) {
        f = 1;
        errno = ENOENT;
    }
    return f;
}
static int reading (const void* file)
{
    if (started) return 0;
    if (kind[0] < 0) init ();
    ++n[2];
    int f = 0, i;
    for (i = 0; i < 4; ++i) {
        if (kind[i] == 'R' && n[2] == at[i]) lost[i] = file;
        f |= (kind[i] == 'T' && n[2] == at[i]) || (lost[i] && lost[i] == file);
    }
    if (f) errno = EIO;
    return f;
}
// a small word list stands for the one of the system
static const char* named (const char* p)
{
    const char* l = getenv ("FI_LIST");
    return l && isList (p) ? l : p;
}
void* malloc (size_t s) { return alloc () ? 0 : __libc_malloc (s); }
void* calloc (size_t a, size_t b) { return alloc () ? 0 : __libc_calloc (a, b); }
void* realloc (void* p, size_t s) { return alloc () ? 0 : __libc_realloc (p, s); }
#define NEXT(f) static __typeof__ (&f) next; if (!next) next = (__typeof__ (&f)) dlsym (RTLD_NEXT, #f)
FILE* fopen (const char* p, const char* m) { NEXT (fopen); return opening (p) ? 0 : next (named (p), m); }
FILE* fopen64 (const char* p, const char* m) { NEXT (fopen64); return opening (p) ? 0 : next (named (p), m); }
#define MODE int m = 0; if (fl & O_CREAT) { va_list v; va_start (v, fl); m = va_arg (v, int); va_end (v); }
int open (const char* p, int fl, ...) { MODE NEXT (open); return opening (p) ? -1 : next (named (p), fl, m); }
int open64 (const char* p, int fl, ...) { MODE NEXT (open64); return opening (p) ? -1 : next (named (p), fl, m); }
int openat (int d, const char* p, int fl, ...) { MODE NEXT (openat); return opening (p) ? -1 : next (d, named (p), fl, m); }
size_t fread (void* b, size_t s, size_t c, FILE* f)
{
    NEXT (fread);
    if (f == stdin) stop ();
    return reading (f) ? 0 : next (b, s, c, f);
}
ssize_t read (int fd, void* b, size_t c)
{
    NEXT (read);
    if (fd == 0) stop ();
    return reading ((char*) 0 + 1 + fd) ? -1 : next (fd, b, c);
}
// an allocation failure that a library does not report
static void* loaded (void* r, int before)
{
    const char* c = getenv ("FI_HIDDEN");
    if (r && hits > before && c) {
        int fd = syscall (SYS_openat, AT_FDCWD, c, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) syscall (SYS_close, fd);
    }
    return r;
}
void* trie_new_from_file (const char* p)
{
    static void* (*next) (const char*);
    if (!next) next = (void* (*) (const char*)) dlsym (RTLD_NEXT, "trie_new_from_file");
    int h = hits;
    return loaded (next (p), h);
}
void* trie_fread (FILE* f)
{
    static void* (*next) (FILE*);
    if (!next) next = (void* (*) (FILE*)) dlsym (RTLD_NEXT, "trie_fread");
    int h = hits;
    return loaded (next (f), h);
}
int th_brk_wc_find_breaks (void* b, const void* s, int* p, size_t c)
{
    static int (*next) (void*, const void*, int*, size_t);
    if (!next) next = (int (*) (void*, const void*, int*, size_t)) dlsym (RTLD_NEXT, "th_brk_wc_find_breaks");
    int h = hits, r = next (b, s, p, c);
    loaded (b, h);
    return r;
}
int getc (FILE* f) { NEXT (getc); if (f == stdin) stop (); return next (f); }
int fgetc (FILE* f) { NEXT (fgetc); if (f == stdin) stop (); return next (f); }
int getchar (void) { NEXT (getchar); stop (); return next (); }
char* fgets (char* b, int c, FILE* f) { NEXT (fgets); if (f == stdin) stop (); return next (b, c, f); }
ssize_t getline (char** l, size_t* c, FILE* f) { NEXT (getline); if (f == stdin) stop (); return next (l, c, f); }
ssize_t getdelim (char** l, size_t* c, int d, FILE* f) { NEXT (getdelim); if (f == stdin) stop (); return next (l, c, d, f); }
)C";

// cases: setting, then one or two faults: kind and number of the call
//   M: the n-th allocation fails      L: the n-th and all later ones
//   O: the opens in the set n fail (no such file)    P: the same (too many files)
//   R: the n-th read and all later ones of that file fail    T: only the n-th
//   F: all opens of the word list (1), of other files (2) fail
//   -: nothing fails
struct FacilityCheck : Check {
    struct Setting { vector<string> args; bool breaks, dict, small; };
    vector<Setting> sets;
    vector<long>    count[3];
    // answers with neither facility, the first, the second, both; bit 0 segmentation
    vector<vector<string>> answers;
    vector<string>  quiet;          // messages without any fault
    vector<set<string>> single;     // messages when one open fails
    string lib, list;
    string input;
    bool   hidden = false;          // a library hid the failure

    void prepare() override
    {
        string src = opt.tmp + "/interpose.c";
        lib = opt.tmp + "/interpose.so";
        writeFile (src, interposer);
        if (system (("gcc -w -O1 -shared -fPIC '" + src + "' -o '" + lib + "' -ldl").c_str()))
            throw runtime_error ("cannot build the interposer");
        list = opt.tmp + "/list.tri";
        AlphaMap* map = alpha_map_new();
        alpha_map_add_range (map, 0x0e01, 0x0e5b);
        Trie* trie = trie_new (map);
        alpha_map_free (map);
        for (const char* w : { "ตาก", "ลม", "ขนม", "กลม", "ตา", "ขน" }) {
            vector<AlphaChar> key;
            for (auto c : toU16 (w)) key.push_back (c);
            key.push_back (0);
            trie_store (trie, key.data(), 1);
        }
        if (trie_save (trie, list.c_str())) throw runtime_error ("cannot write the word list");
        trie_free (trie);
        string dic = compileDict ("g", "กลม\tb_i_0@1,s_U_4@3\nลม\tf_a_3@2\nขนม\tm_i_2@3\n");
        string none = opt.tmp + "/none/none.dic";
        input = "ตากลม\nขนม\nกระเสียร\nลมขนม\n\nก1";
        // entries of the shipped dictionary
        auto shipped = splitBy (readFile (opt.bin + "/except.tsv"), '\n');
        for (size_t i = 0; i < shipped.size() && i < 2; ++i) input += "\n" + splitBy (shipped[i], '\t')[0];
        sets = { { { "-d" + dic, "-w" }, true, true, true }, { { "-w" }, true, true, true }, { { "-n", "-d" + dic, "-w" }, false, true, true },
                 { { "-d" + none, "-w" }, true, false, true }, { { "-g", "-r", "-d" + dic }, true, true, true }, { { "-d" + dic }, true, true, true },
                 { { "-d" + dic, "-w", "ตากลม", "ขนม", "กระเสียร" }, true, true, true },
                 { { "-d" + dic, "-w" }, true, true, false } };
        for (size_t s = 0; s < sets.size(); ++s) {
            vector<string> a (4);
            for (int m = 0; m < 4; ++m) {
                auto args = sets[s].args;
                if (!(m & 1)) args.push_back ("-n");
                if (!(m & 2)) args.push_back ("-d" + none);     // the last one counts
                RunResult r = run (s, args, "");
                if (r.status) throw runtime_error ("cannot run the program");
                a[m] = r.out;
            }
            answers.push_back (a);
            string cnt = opt.tmp + "/count." + to_string (s);
            setenv ("FI_COUNT", cnt.c_str(), 1);
            quiet.push_back (run (s, sets[s].args, "").err);
            unsetenv ("FI_COUNT");
            long n[3] = { 0, 0, 0 };
            sscanf (readFile (cnt).c_str(), "%ld %ld %ld", n, n + 1, n + 2);
            for (int i = 0; i < 3; ++i) count[i].push_back (n[i]);
            set<string> one;
            for (long i = 0; i < min (n[1], 10L); ++i) one.insert (run (s, sets[s].args, "O" + to_string (1L << i)).err);
            single.push_back (one);
        }
    }
    RunResult run (int s, const vector<string>& args, const string& faults)
    {
        vector<string> argv { opt.bin + "/thpronun" };
        argv.insert (argv.end(), args.begin(), args.end());
        string mark = opt.tmp + "/hidden." + to_string (getpid());
        setenv ("LD_PRELOAD", lib.c_str(), 1);
        setenv ("FI", faults.c_str(), 1);
        setenv ("FI_HIDDEN", mark.c_str(), 1);
        if (sets[s].small) setenv ("FI_LIST", list.c_str(), 1);
        RunResult r = runProgram (argv, input);
        hidden = unlink (mark.c_str()) == 0;
        for (const char* v : { "LD_PRELOAD", "FI", "FI_HIDDEN", "FI_LIST" }) unsetenv (v);
        return r;
    }
    void generate (const Emit& emit) override
    {
        for (int s = 0; s < (int) sets.size(); ++s) {
            string p = to_string (s) + " ";
            emit (p + "-");
            long opens = min (count[1][s], 6L), allocs = count[0][s], reads = count[2][s];
            vector<string> one;
            for (const char* k : { "O", "P" })
                for (long m = 1; m < 1L << (opens + 2); ++m) one.push_back (k + to_string (m));
            for (int m = 1; m < 4; ++m) one.push_back ("F" + to_string (m));
            size_t few = one.size();
            if (sets[s].small || opt.thorough())
                for (long i = 1; i <= allocs; ++i) one.push_back ("M" + to_string (i));
            if (sets[s].small)
                for (long i = 1; i <= allocs; ++i) one.push_back ("L" + to_string (i));
            if (sets[s].small)
                for (const char* k : { "R", "T" })
                    for (long i = 1; i <= reads; ++i) one.push_back (k + to_string (i));
            for (auto& o : one) emit (p + o);
            if (!sets[s].small) continue;
            // two faults: a set of failing opens and any other one; all others
            for (size_t i = 0; i < few; ++i)
                if (one[i][0] == 'F') for (size_t j = few; j < one.size(); ++j) emit (p + one[i] + "," + one[j]);
            if (s == 0 || (s < 2 && opt.thorough()))
                for (size_t i = few; i < one.size(); ++i) if (one[i][0] == 'R' || (opt.thorough() && one[i][0] == 'M'))
                    for (size_t j = i + 1; j < one.size(); ++j) if (one[j][0] == 'R' || one[j][0] == 'M') emit (p + one[i] + "," + one[j]);
        }
    }
    string show (const string& c) override
    {
        auto f = splitBy (c, ' ');
        string a, w;
        for (auto& x : sets[atoi (f[0].c_str())].args) a += " '" + x + "'";
        for (auto& x : splitBy (f[1], ',')) {
            string n = x.substr (1);
            w += (x[0] == 'M' ? "allocation " + n + " fails" : x[0] == 'L' ? "allocations from " + n + " on fail" :
                x[0] == 'R' ? "reading fails from read " + n + " on" : x[0] == 'T' ? "read " + n + " fails" :
                x[0] == 'F' ? "files of kind " + n + " are missing" : x[0] == '-' ? string ("nothing fails") : "opens of set " + n + " fail") + ", ";
        }
        return w + "arguments" + a;
    }
    void eval (const string& c, Ctx& ctx) override
    {
        auto f = splitBy (c, ' ');
        int s = atoi (f[0].c_str());
        const auto& a = answers[s];
        RunResult r = run (s, sets[s].args, f[1] == "-" ? "" : f[1]);
        if (r.timeout) { ctx.fail ("the program does not end"); return; }
        bool ok = WIFEXITED (r.status) && WEXITSTATUS (r.status) == 0;
        if (hidden) { ctx.add ("faults_hidden_by_a_library"); return; }
        int full = (sets[s].breaks ? 1 : 0) | (sets[s].dict ? 2 : 0);
        ctx.see ("nontrivial", c);
        if (!ok) {
            bool prefix = false;
            for (int m = 0; m < 4; ++m) if ((m & full) == m && a[m].compare (0, r.out.size(), r.out) == 0) prefix = true;
            if (!prefix) ctx.fail ("what was written before the failure is no beginning of an answer: " + r.out.substr (0, 300));
            if (f[1] == "-") ctx.fail ("failure although nothing fails");
            ctx.add ("runs_ended_with_failure");
            return;
        }
        int mode = -1;
        for (int m : { 3, 1, 2, 0 }) if ((m & full) == m && a[m] == r.out && mode < 0) mode = m;
        if (mode < 0) { ctx.fail ("the answers are not those with or without a facility: " + r.out.substr (0, 300)); return; }
        if (mode == full) {
            ctx.add ("runs_with_everything");
            if (f[1] == "-" && sets[s].dict && !r.err.empty()) ctx.fail ("a message although nothing fails: " + r.err);
            if (f[1] == "-" && !sets[s].dict && r.err.empty()) ctx.fail ("no message about the missing dictionary");
            return;
        }
        ctx.add (mode & 1 ? "runs_without_dictionary" : mode & 2 ? "runs_without_segmentation" : "runs_with_less");
        if (r.err.empty() || r.err == quiet[s])
            ctx.fail (string ("the answers are those without ") + (full & ~mode & 1 ? "segmentation" : "the dictionary") + ", but nothing is said about it");
        if ((full & ~mode) == 3 && single[s].count (r.err))
            ctx.fail ("neither facility is used, but only one is reported: " + r.err);
        if (f[1] == "O1" || f[1] == "R1" || f[1] == "R1,M300") ctx.sample (show (c) + ": " + r.err.substr (0, 100));
    }
};
REGISTER_CHECK (FacilityCheck, "facility");
