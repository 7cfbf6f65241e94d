// C20: every shipped exception entry is well-formed, effective and true to its positions.
#include "judge.h"
#include "spaces.h"
#include "tables.h"
#include "dict/dict.h"

#include <algorithm>

using namespace std;

// cases: "Z" the dictionary as built; entry number; entry number ":" context
struct ShippedCheck : Check {
    vector<pair<string, string>> entries;
    unique_ptr<Parser> seg, raw;
    unique_ptr<Dict>   dict;
    string             source, status;
    vector<pair<string, string>> frames;
    ref::Lexicon       lexicon;

    void prepare() override
    {
        entries = shippedEntries();
        lexicon = lexiconOf (entries);
        source = readFile (opt.bin + "/except.tsv");
        status = readFile (opt.bin + "/except.status");
        static const char* const left[] = { "", "กา", "มา", "ดี", "1", "x ", "กา ", "(", "๑", "ขี่", "." };
        static const char* const right[] = { "", "กา", "มา", "เธอ", "ไป", "1", " x", " กา", ")", "๑", "." };
        for (auto l : left) for (auto r : right) frames.push_back ({ l, r });
    }
    void setup (Ctx&) override
    {
        string path = opt.bin + "/except.dic";
        seg.reset (new Parser (path.c_str(), true));
        raw.reset (new Parser (path.c_str(), false));
        dict.reset (new Dict (path.c_str()));
    }
    void generate (const Emit& emit) override
    {
        emit ("Z");
        for (size_t i = 0; i < entries.size(); ++i) for (size_t f = 0; f < frames.size(); ++f) emit (to_string (i) + ":" + to_string (f));
        // pairs of entries next to each other
        for (size_t i = 0; i < entries.size(); ++i) for (size_t j = 0; j < entries.size(); ++j) emit (to_string (i) + "+" + to_string (j));
    }
    string show (const string& c) override
    {
        size_t k = c.find_first_of (":+");
        if (k == string::npos) return c;
        size_t i = atoi (c.c_str()), j = atoi (c.c_str() + k + 1);
        if (i >= entries.size()) return c;
        return c[k] == '+' ? entries[i].first + "+" + entries[j].first : frames[j].first + "[" + entries[i].first + "]" + frames[j].second;
    }
    // the steps of one alternative from a beginning; empty if malformed
    static vector<ref::Edge> steps (const string& alt, int off, int len, string& why, bool period = false)
    {
        vector<ref::Edge> r;
        tab::Sound snd;
        int at = 0, node = off;
        auto parts = splitBy (alt, ',');
        for (size_t i = 0; i < parts.size(); ++i) {
            const string& s = parts[i];
            if (s.size() < 7 || s[5] != '@' || !tab::find (s.substr (0, 5), snd)) { why = "bad code " + s; return {}; }
            char* end;
            long p = strtol (s.c_str() + 6, &end, 10);
            if (*end || p == 0) { why = "bad position " + s; return {}; }
            int to;
            if (p < 0) {
                // between the beginning and the end of the syllable that follows
                if (-p / 100 != at || i + 1 >= parts.size() || stol (parts[i + 1].substr (6)) != -p % 100) { why = "bad intermediate position " + s; return {}; }
                to = p - 101 * off;
            } else {
                if (p <= at) { why = "position does not advance: " + alt; return {}; }
                at = p;
                to = p + off + (period && i + 1 == parts.size());   // a period is absorbed
            }
            r.push_back ({ node, to, s.substr (0, 6) + to_string (to) });
            node = to;
        }
        if (at != len) { why = "ends at " + to_string (at) + " of " + to_string (len); return {}; }
        return r;
    }
    bool available (const Parser& p, const string& text, const vector<ref::Edge>& way)
    {
        auto all = realEdges (p.parseWord (text));
        for (auto& e : way) {
            bool f = false;
            for (auto& x : all) if (x.from == e.from && x.to == e.to && x.label == e.label) f = true;
            if (!f) return false;
        }
        return true;
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c == "Z") {
            if (atoi (status.c_str()) != 0) ctx.fail ("the dictionary cannot be built: " + status);
            if (!dict->trie()) ctx.fail ("the dictionary cannot be opened");
            map<string, string> m;
            for (auto& line : splitBy (source, '\n')) {
                if (line.empty()) continue;
                size_t t = line.find ('\t');
                if (t == string::npos) { ctx.fail ("not an entry: " + line); continue; }
                string w = line.substr (0, t);
                if (m.count (w)) ctx.fail ("given twice with different data: " + w);
                m[w] = line.substr (t + 1);
            }
            if (m.size() != entries.size()) ctx.fail ("wrong number of entries");
            return;
        }
        size_t k = c.find_first_of (":+");
        size_t i = atoi (c.c_str()), j = atoi (c.c_str() + k + 1);
        auto& e = entries[i];
        U16 w = toU16 (e.first);
        string why;
        vector<string> alts = splitBy (e.second, ';');
        if (c[k] == ':' && j == 0) {
            for (char16_t u : w) if (u < 0xe01 || u > 0xe5b) ctx.fail ("not a Thai word");
            if (alts.empty()) ctx.fail ("no reading");
            set<string> want;
            for (auto& a : alts) {
                if (steps (a, 0, w.size(), why).empty()) ctx.fail (why);
                want.insert (a);
            }
            if (want.size() != alts.size()) ctx.fail ("a reading is given twice");
            bool found = false;
            Match m (w, 0, dict.get());
            while (m.findNext()) if (m.getCurPos() == (int) w.size()) { found = true; if (m.getData() != e.second) ctx.fail ("found with data " + m.getData()); }
            if (!found) ctx.fail ("not found in the dictionary");
            // a shorter entry the word begins with gives further readings
            bool nested = false;
            for (size_t n = 1; n < w.size(); ++n) if (lexicon.count (w.substr (0, n))) nested = true;
            if (nested) ctx.add ("nested_entries");
            set<string> got;
            auto br = libBreaks (w);
            for (int s = 0; s < 2; ++s) {
                if (s && !br.empty()) { ctx.add ("entries_with_inner_breaks"); continue; }
                got.clear();
                for (auto& l : splitBy (textOutput (3, 0)->output ((s ? seg : raw)->parseWord (e.first)), '\n')) if (!l.empty()) got.insert (l);
                judge (*(s ? seg : raw), e.first, s ? br : vector<int> {}, &lexicon, ctx);
                if (nested ? !includes (got.begin(), got.end(), want.begin(), want.end()) : got != want) {
                    string g;
                    for (auto& x : got) g += " " + x;
                    ctx.fail ("read as" + g);
                }
            }
            ctx.see ("nontrivial", e.first);
            if (alts.size() > 1) ctx.sample (e.first + " " + e.second);
            return;
        }
        string l = c[k] == '+' ? "" : frames[j].first, r = c[k] == '+' ? entries[j].first : frames[j].second;
        string text = l + e.first + r;
        int off = toU16 (l).size();
        for (auto& a : alts) {
            auto way = steps (a, off, w.size(), why, r == ".");
            if (way.empty()) { ctx.fail (why); return; }
            ctx.add ("places");
            if (!available (*raw, text, way)) ctx.fail ("reading " + a + " is not available in " + text);
            // with segmentation, if the word is a word there
            auto br = libBreaks (toU16 (text));
            bool inside = false;
            for (int b : br) if (b > off && b < off + (int) w.size()) inside = true;
            bool atL = l.empty() || count (br.begin(), br.end(), off), atR = r.empty() || count (br.begin(), br.end(), off + (int) w.size());
            if (!inside && atL && atR) {
                ctx.add ("segmented_places");
                if (!available (*seg, text, way)) ctx.fail ("reading " + a + " is not available in segmented " + text);
            }
            ctx.see ("nontrivial", text + a);
        }
        if (c[k] == '+') {
            auto& f = entries[j];
            for (auto& a : splitBy (f.second, ';')) {
                auto way = steps (a, w.size(), toU16 (f.first).size(), why);
                if (way.empty()) { ctx.fail (why); return; }
                if (!available (*raw, text, way)) ctx.fail ("second reading " + a + " is not available in " + text);
            }
        }
    }
};
REGISTER_CHECK (ShippedCheck, "shipped");
