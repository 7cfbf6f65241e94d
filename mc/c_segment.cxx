// C07: word breaks and separators confine syllables, and parts compose.
#include "judge.h"
#include "spaces.h"

#include <stdexcept>

using namespace std;

// cases: "S text" analysed with segmentation; "P" part sep part ...;
// "Q" part next to a separator; \2 stands for the null character
struct SegmentCheck : Check {
    unique_ptr<Parser> seg, plain;
    map<string, set<string>> memo;

    void setup (Ctx&) override
    {
        seg.reset (new Parser (true));
        plain.reset (new Parser (false));
    }
    void generate (const Emit& emit) override
    {
        Put put = [&] (const U16& s) { emit ("S" + toU8 (s)); };
        spaceWords (put, 1, 0);
        spaceLong (put);
        spaceScale (put, opt.thorough() ? 2100 : 1100);
        spaceAmbiguous (put, true);
        spaceMixed (put, opt.thorough());
        spaceAllShort (put, opt.thorough() ? 3 : 2);
        // pairs and triples of words
        static const char* const word[] = {
            "กา", "มา", "ตา", "กก", "นก", "ตาก", "ลม", "ตากลม", "การ", "รถ", "ขน", "ม", "ขนม", "สน", "สนม",
            "ชาติ", "พล", "พลเรือน", "เรือน", "กรรม", "การณ์", "มหา", "ราช", "อา", "ยา", "ก", "กร", "เก", "โต",
            "ไทย", "คน", "ธรรม", "ศาสตร์", "วิทยา", "ฤดู", "พฤกษ์", "แก้ว", "สมุด", "ปลา", "น้ำ", "อยู่", "หมา",
            "ตลาด", "แสดง", "ถนน", "อร่อย", "จะ", "ไป", "ได้", "เป็น", "และ", "ทราบ", "จริง", "สร้าง",
        };
        for (auto a : word) for (auto b : word) {
            emit (string ("S") + a + b);
            for (auto c : word) emit (string ("S") + a + b + c);
            for (auto n : { "\2", "\2\2", "x\2 " }) { emit (string ("S") + a + n + b); emit (string ("S") + n + a + b); emit (string ("S") + a + b + n + b + a); }
        }
        auto& lw = libWords();
        size_t stride = opt.thorough() ? 41 : 173;
        for (size_t i = 0; i < lw.size(); i += stride)
            for (size_t j = 0; j < lw.size(); j += stride)
                if (lw[i].size() + lw[j].size() < 60) emit ("S" + lw[i] + lw[j]);
        // composition: parts and separators
        static const char* const part[] = {
            "กา", "นก", "ขนม", "กรรม", "ชาติ", "เก", "โต", "ฤดู", "ตลาด", "สน", "เ", "า", "กั", "์", "ไทย", "กขคงจ",
            "พลเรือน", "ตากลม", "สร้าง", "ก่", "กา.", "ราชการ",
        };
        static const char* const sep[] = {
            " ", "  ", "x", "1", "-", " x ", "(", "\n", "\t", "๑", "ฯ", "ๆ", "\xcc\x81", "\xf0\x9f\x98\x80", "x ", " 1",
            "\"", "\\", "\xe2\x80\x8b", "\2", "\2x\2", "\2 ",
        };
        for (auto a : part)
            for (auto s : sep)
                for (auto b : part) {
                    emit (string ("P") + a + '\1' + s + '\1' + b);
                    emit (string ("P") + '\1' + s + '\1' + b);
                    emit (string ("P") + a + '\1' + s + '\1');
                    for (auto s2 : sep)
                        for (auto c : { "กา", "กรรม", "เ", "" })
                            emit (string ("P") + a + '\1' + s + '\1' + b + '\1' + s2 + '\1' + c);
                }
        // every word and every short string next to a separator
        Put alone = [&] (const U16& s) { emit ("Q" + toU8 (s)); };
        for (auto& w : lw) emit ("Q" + w);
        allStrings (THAI, 1, 2, alone);
        allStrings (opt.thorough() ? THAI : u"กขจตนมยรลวสหอฤะัาิีเไ็์่", 3, 3, alone);
        allStrings (u"กจตยรวสอะัาิเไ็์", 4, opt.thorough() ? 5 : 4, alone);
        for (auto& e : shippedEntries()) emit ("Q" + e.first);
    }
    static string withNull (string s) { for (auto& k : s) if (k == '\2') k = '\0'; return s; }
    string show (const string& c) override
    {
        string r = c.substr (1);
        string o;
        for (char k : r) if (k != '\1') o += k;
        return o;
    }
    // sound sequences of all readings; positions made relative are dropped
    set<string> sounds (const Parser& p, const string& text)
    {
        set<string> lang, r;
        if (!pathLanguage (realEdges (p.parseWord (text)), 200000, lang))
            throw runtime_error ("too many readings in a composition case");
        for (auto& s : lang) {
            string o;
            for (auto& l : splitBy (s, '\xff'))
                o += (o.empty() ? "" : "\xff") + l.substr (0, l.rfind ('@'));
            r.insert (o);
        }
        return r;
    }
    // a separator before or after changes no reading of a part
    void beside (const string& w, Ctx& ctx)
    {
        for (int sg = 0; sg < 2; ++sg) {
            const Parser& p = sg ? *seg : *plain;
            auto brk = [&] (const string& pre, const string& post) {
                vector<int> r;
                if (!sg) return r;
                int a = toU16 (pre).size(), n = toU16 (w).size();
                for (int b : libBreaks (toU16 (pre + w + post))) if (b > a && b < a + n) r.push_back (b - a);
                return r;
            };
            auto edges = realEdges (p.parseWord (w));
            set<string> lang;
            if (!pathLanguage (edges, 300, lang)) { ctx.add ("too_ambiguous_to_list"); return; }
            set<string> want = sounds (p, w);
            static const char* const side[][2] = { { "", " x" }, { "", "1" }, { "", "-" }, { "x ", "" }, { "1 ", " 1" } };
            for (auto& s : side) {
                if (brk (s[0], s[1]) != brk ("", "")) { ctx.add ("segmented_otherwise"); continue; }
                set<string> expect;
                for (auto& r : want)
                    expect.insert ((*s[0] ? string ("(") + s[0] + ")\xff" : "") + r + (*s[1] ? string ("\xff(") + s[1] + ")" : ""));
                auto got = sounds (p, s[0] + w + s[1]);
                ctx.add ("compositions");
                if (got != expect) {
                    ctx.fail (string ("between '") + s[0] + "' and '" + s[1] + "' the " + to_string (want.size()) + " readings become "
                              + to_string (got.size()) + (sg ? ", segmented" : ""));
                    return;
                }
            }
        }
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c[0] == 'S') {
            string t = withNull (c.substr (1));
            auto brk = libBreaks (toU16 (t));
            auto e = judge (*seg, t, brk, nullptr, ctx);
            if (!brk.empty()) ctx.add ("texts_with_word_breaks");
            for (auto& x : e) {
                if (x.label[0] == '(') continue;
                // an intermediate node lies within the unit it introduces
                int from = x.from, to = x.to;
                if (from < 0 || to < 0) continue;
                for (int b : brk)
                    if (from < b && b < to && toU16 (t)[to - 1] != u'.')
                        ctx.fail ("syllable " + x.label + " spans the word break at " + to_string (b));
            }
            return;
        }
        if (c[0] == 'Q') { beside (c.substr (1), ctx); return; }
        auto f = splitBy (withNull (c.substr (1)), '\1');
        string text;
        for (auto& x : f) text += x;
        for (auto* p : { plain.get(), seg.get() }) {
            set<string> expect { "" };
            for (size_t i = 0; i < f.size(); ++i) {
                if (f[i].empty()) continue;
                set<string> next;
                if (i % 2) {
                    string lit = "(" + f[i] + ")";
                    // adjacent separators are one run
                    for (auto& s : expect) {
                        if (!s.empty() && s.back() == ')' && f[i-1].empty())
                            next.insert (s.substr (0, s.size() - 1) + f[i] + ")");
                        else
                            next.insert (s + (s.empty() ? "" : "\xff") + lit);
                    }
                } else {
                    string key = (p == seg.get() ? "s" : "p") + f[i];
                    if (!memo.count (key)) memo[key] = sounds (*p, f[i]);
                    for (auto& s : expect)
                        for (auto& r : memo[key])
                            next.insert (s + (s.empty() ? "" : "\xff") + r);
                }
                expect.swap (next);
            }
            auto got = sounds (*p, text);
            if (got != expect) {
                string d = "composition differs: ";
                for (auto& s : expect) if (!got.count (s)) { d += "missing " + s; break; }
                for (auto& s : got) if (!expect.count (s)) { d += " unexpected " + s; break; }
                for (auto& k : d) if (k == '\xff') k = ',';
                ctx.fail (d);
            }
            ctx.add ("compositions");
            string sig;
            for (auto& s : got) sig += s + "\n";
            ctx.see ("reading_sets", sig);
        }
    }
};
REGISTER_CHECK (SegmentCheck, "segment");
