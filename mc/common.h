// Bounded exhaustive exploration framework: deterministic enumeration of
// cases, sharded over forked workers; every case is evaluated on the real code.
#ifndef MC_COMMON_H
#define MC_COMMON_H

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::u16string U16;

std::string  toU8 (const U16& s);
U16          toU16 (const std::string& s);
std::string  jsonStr (const std::string& s);     // quoted, bytes >= 0x80 kept
std::string  hexStr (const std::string& s);
std::string  unhexStr (const std::string& s);
uint64_t     hash64 (const std::string& s);
std::vector<std::string> splitBy (const std::string& s, char c);

struct Options {
    std::string tier = "quick";
    std::string tmp;                // scratch directory, private to this run
    std::string repo = "/repo";
    std::string bin;                // directory with programs built from /repo
    int         jobs = 8;
    int         maxFail = 3;
    double      hangSecs = 30;
    bool        survey = false;     // list all failures without replaying them
    bool thorough() const { return tier == "thorough"; }
};
extern Options opt;

// Facts gathered while evaluating one shard
struct Ctx {
    std::map<std::string, uint64_t>                     count;
    std::map<std::string, std::unordered_set<uint64_t>> distinct;
    std::vector<std::string>                            samples;
    std::vector<std::string>                            failMsgs; // current case

    void add (const char* name, uint64_t n = 1) { count[name] += n; }
    void see (const char* name, const std::string& v)
        { distinct[name].insert (hash64 (v)); }
    void sample (const std::string& s)
        { if (samples.size() < 3) samples.push_back (s); }
    void fail (const std::string& msg) { failMsgs.push_back (msg); }
};

typedef std::function<void (const std::string&)> Emit;

struct Check {
    virtual ~Check() {}
    // called once in the parent before forking
    virtual void prepare() {}
    // called once in every worker
    virtual void setup (Ctx&) {}
    // enumerate the whole space, deterministically
    virtual void generate (const Emit& emit) = 0;
    // evaluate one case on the real code
    virtual void eval (const std::string& c, Ctx& ctx) = 0;
    // human-readable form of a case
    virtual std::string show (const std::string& c) { return c; }
};

typedef std::unique_ptr<Check> (*CheckMaker)();
void registerCheck (const char* name, CheckMaker maker);

#define REGISTER_CHECK(cls, name) \
    static struct Reg_##cls { Reg_##cls() { \
        registerCheck (name, [] { return std::unique_ptr<Check> (new cls); }); \
    } } reg_##cls

// run a program; returns wait status, captures stdout/stderr
struct RunResult { int status; std::string out, err; bool timeout; };
RunResult runProgram (const std::vector<std::string>& argv,
                      const std::string& input = "", double secs = 60,
                      const std::string& cwd = "", long fsizeLimit = -1);

void        writeFile (const std::string& path, const std::string& data);
std::string readFile (const std::string& path);

// all strings over alphabet, lengths min..max, in length-lexicographic order
void allStrings (const U16& alphabet, int minLen, int maxLen,
                 const std::function<void (const U16&)>& f);

#endif
