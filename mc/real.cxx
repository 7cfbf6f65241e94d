#include "real.h"

#include <algorithm>
#include <cstdlib>
#include <dirent.h>
#include <iostream>
#include <unistd.h>
#include <sys/wait.h>

#include <datrie/trie.h>
#include <thai/thwbrk.h>

using namespace std;

vector<ref::Edge>
realEdges (const PronunDAG& dag)
{
    static const RawSylOutput raw;
    vector<ref::Edge> r;
    for (auto it = dag.outBegin(); it != dag.outEnd(); ++it)
        r.push_back ({ it->first, it->second.target, raw.output (it->second.edgeVal) });
    sort (r.begin(), r.end());
    return r;
}

static set<string>
anonymous (const set<string>& lang)
{
    // positions of intermediate nodes are an encoding, not a text position
    set<string> r;
    for (auto& s : lang) {
        string o;
        for (size_t i = 0; i < s.size(); ++i) {
            o += s[i];
            if (s[i] == '@' && i + 1 < s.size() && s[i+1] == '-') {
                o += '-'; ++i;
                while (i + 1 < s.size() && isdigit ((unsigned char) s[i+1])) ++i;
            }
        }
        r.insert (o);
    }
    return r;
}

static string
pretty (string s)
{
    replace (s.begin(), s.end(), '\xff', ',');
    return s;
}

string
compareEdges (const vector<ref::Edge>& real, const vector<ref::Edge>& model, bool positions)
{
    if (real == model) return "";
    set<string> a, b;
    if (pathLanguage (real, 300000, a) && pathLanguage (model, 300000, b)) {
        if (!positions) {
            a = anonymous (a);
            b = anonymous (b);
        }
        if (a == b) return "";
        for (auto& s : b) if (!a.count (s)) return "missing reading " + pretty (s);
        for (auto& s : a) if (!b.count (s)) return "unexpected reading " + pretty (s);
    }
    for (auto& e : model)
        if (!binary_search (real.begin(), real.end(), e))
            return "missing edge " + to_string (e.from) + ">" + e.label;
    for (auto& e : real)
        if (!binary_search (model.begin(), model.end(), e))
            return "unexpected edge " + to_string (e.from) + ">" + e.label;
    return "duplicate edges";
}

vector<int>
libBreaks (const U16& text)
{
    static ThBrk* brk = th_brk_new (nullptr);
    if (text.empty()) return {};
    // a null character ends a text for the library but not for its user
    vector<int> all;
    for (size_t a = 0; a <= text.size(); ) {
        size_t e = min (text.find (char16_t (0), a), text.size());
        wstring w;
        for (size_t i = a; i < e; ++i) w += wchar_t (text[i]);
        vector<int> pos (w.size() + 1, 0);
        int n = th_brk_wc_find_breaks (brk, w.c_str(), pos.data(), pos.size());
        for (int i = 0; i < n; ++i) all.push_back (a + pos[i]);
        a = e + 1;
    }
    return all;
}

const vector<string>&
libWords()
{
    static vector<string> words;
    if (words.empty()) {
        Trie* t = trie_new_from_file ("/usr/share/libthai/thbrk.tri");
        if (!t) { cerr << "cannot read libthai word list" << endl; _exit (3); }
        trie_enumerate (t, [] (const AlphaChar* key, TrieData, void*) -> Bool {
            U16 s;
            for (; *key; ++key) s += char16_t (*key);
            words.push_back (toU8 (s));
            return TRUE;
        }, nullptr);
        trie_free (t);
        sort (words.begin(), words.end());
    }
    return words;
}

vector<pair<string, string>>
shippedEntries()
{
    set<string> lines;
    string dir = opt.repo + "/data";
    DIR* d = opendir (dir.c_str());
    if (!d) { cerr << "no " << dir << endl; _exit (3); }
    while (dirent* e = readdir (d)) {
        string n = e->d_name;
        if (n.compare (0, 3, "ex-") || n.size() < 4 || n.substr (n.size() - 4) != ".tsv") continue;
        for (auto& l : splitBy (readFile (dir + "/" + n), '\n')) if (!l.empty()) lines.insert (l);
    }
    closedir (d);
    vector<pair<string, string>> r;
    for (auto& l : lines) {
        size_t p = l.find ('\t');
        r.push_back ({ l.substr (0, p), p == string::npos ? "" : l.substr (p + 1) });
    }
    return r;
}

string
compileDict (const string& name, const string& source)
{
    string base = opt.tmp + "/" + name + "." + to_string (getpid());
    writeFile (base + ".tsv", source);
    auto r = runProgram ({ opt.bin + "/gen-lookup-dict", base + ".tsv", base + ".dic" });
    if (r.timeout || !WIFEXITED (r.status) || WEXITSTATUS (r.status) != 0)
        throw runtime_error ("dictionary compiler failed: " + r.err.substr (0, 300));
    unlink ((base + ".tsv").c_str());
    return base + ".dic";
}

ref::Lexicon
lexiconOf (const vector<pair<string, string>>& e)
{
    ref::Lexicon l;
    for (auto& p : e) l[toU16 (p.first)] = p.second;
    return l;
}

unique_ptr<ISylOutput>
sylOutput (int notation)
{
    switch (notation) {
    case 0: return unique_ptr<ISylOutput> (new ThaiSylOutput);
    case 1: return unique_ptr<ISylOutput> (new RomanSylOutput);
    case 2: return unique_ptr<ISylOutput> (new PhoneticSylOutput);
    case 3: return unique_ptr<ISylOutput> (new RawSylOutput);
    default: return unique_ptr<ISylOutput> (new SoundexSylOutput);
    }
}

unique_ptr<IOutput>
textOutput (int notation, int structure)
{
    if (structure == 2) return unique_ptr<IOutput> (new GroupedJsonOutput (sylOutput (notation)));
    if (structure == 1) return unique_ptr<IOutput> (new JsonOutput (sylOutput (notation)));
    if (notation == 1) return unique_ptr<IOutput> (new RomanOutput());
    static const char delim[] = { '-', 0, ' ', ',', '-' };
    return unique_ptr<IOutput> (new DelimOutput (sylOutput (notation), delim[notation]));
}
