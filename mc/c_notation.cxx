// C09: every notation renders every syllable faithfully.
#include "real.h"
#include "tables.h"

using namespace std;

namespace {

// Reader of Thai respellings: the rules of orthography, applied to the
// standard letters, give for each spelling the set of syllables it can spell.
struct Reader {
    unordered_map<string, vector<string>> meaning;

    static char toneOf (char cls, int mark, bool dead, bool isShort)
    {
        // tri and chattawa are marks of middle class letters; on others only
        // where no proper spelling exists, rising dead syllables
        if (mark >= 3 && cls != 'm') return mark == 4 && dead && cls == 'l' ? '4' : 0;
        if (mark >= 3) return char ('0' + mark);
        if (cls == 'm') return mark == 0 ? (dead ? '1' : '0') : char ('0' + mark);
        if (cls == 'h') return mark == 0 ? (dead ? '1' : '4') : char ('0' + mark);
        return mark == 0 ? (!dead ? '0' : isShort ? '3' : '2') : char ('1' + mark);
    }
    Reader()
    {
        struct I { const char* text; char sound, cls; };
        static const I ini[] = {
            { "ก",'k','m' }, { "จ",'j','m' }, { "ด",'d','m' }, { "ต",'t','m' }, { "บ",'b','m' }, { "ป",'p','m' }, { "อ",'?','m' },
            { "ข",'c','h' }, { "ค",'c','l' }, { "ฉ",'J','h' }, { "ช",'J','l' }, { "ถ",'T','h' }, { "ท",'T','l' },
            { "ผ",'P','h' }, { "พ",'P','l' }, { "ฝ",'f','h' }, { "ฟ",'f','l' }, { "ส",'s','h' }, { "ซ",'s','l' },
            { "ห",'h','h' }, { "ฮ",'h','l' },
            { "ง",'g','l' }, { "ย",'y','l' }, { "น",'n','l' }, { "ม",'m','l' }, { "ร",'r','l' }, { "ล",'l','l' }, { "ว",'w','l' },
            { "หฺง",'g','h' }, { "หฺย",'y','h' }, { "หฺน",'n','h' }, { "หฺม",'m','h' }, { "หฺร",'r','h' }, { "หฺล",'l','h' }, { "หฺว",'w','h' },
        };
        static const char* const sec[4] = { "", "ฺร", "ฺล", "ฺว" };
        static const char* const mark[5] = { "", "่", "้", "๊", "๋" };
        struct F { const char* text; char cls; };
        static const F fin[] = { { "ก",'k' }, { "ด",'t' }, { "บ",'p' }, { "ง",'g' }, { "น",'n' }, { "ม",'m' }, { "ย",'y' }, { "ว",'w' } };
        // I initial, M mark, N no mark, P mark required, F final
        struct Fr { const char* text; char vowel, f; bool isShort; };
        static const Fr fr[] = {
            { "IMะ",'a','_',true }, { "IMา",'A','_',false }, { "IิM",'i','_',true }, { "IีM",'I','_',false },
            { "IึM",'v','_',true }, { "IืMอ",'V','_',false }, { "IุM",'u','_',true }, { "IูM",'U','_',false },
            { "เIMะ",'e','_',true }, { "เIM",'E','_',false }, { "แIMะ",'x','_',true }, { "แIM",'X','_',false },
            { "โIMะ",'o','_',true }, { "โIM",'O','_',false }, { "เIMาะ",'c','_',true }, { "IMอ",'C','_',false },
            { "เIMอะ",'w','_',true }, { "เIMอ",'W','_',false }, { "เIีMยะ",'y','_',true }, { "เIีMย",'Y','_',false },
            { "เIืMอะ",'z','_',true }, { "เIืMอ",'Z','_',false }, { "IัMวะ",'t','_',true }, { "IัMว",'T','_',false },
            { "IMำ",'a','m',true }, { "ไIM",'a','y',true }, { "ใIM",'a','y',true }, { "เIMา",'a','w',true },
            { "เIMย",'W','y',false },
            { "IัMF",'a',0,true }, { "IMาF",'A',0,false }, { "IิMF",'i',0,true }, { "IีMF",'I',0,false },
            { "IึMF",'v',0,true }, { "IืMF",'V',0,false }, { "IุMF",'u',0,true }, { "IูMF",'U',0,false },
            { "เI็NF",'e',0,true }, { "เIPF",'e',0,true }, { "เIMF",'E',0,false },
            { "แI็NF",'x',0,true }, { "แIPF",'x',0,true }, { "แIMF",'X',0,false },
            { "IMF",'o',0,true }, { "โIMF",'O',0,false },
            { "I็NอF",'c',0,true }, { "IPอF",'c',0,true }, { "IMอF",'C',0,false },
            { "เIิMF",'W',0,false }, { "เIีMยF",'Y',0,false }, { "เIืMอF",'Z',0,false }, { "IMวF",'T',0,false },
            { "I็NวF",'t',0,true }, { "IPวF",'t',0,true },
        };
        for (auto& f : fr)
            for (auto& i : ini)
                for (int s = 0; s < 4; ++s)
                    for (int m = 0; m < 5; ++m)
                        for (auto& e : fin) {
                            bool closed = f.f == 0;
                            if (!closed && &e != fin) break;
                            bool skip = false;
                            string t;
                            for (const char* k = f.text; *k; ++k) {
                                if (*k == 'I') t += string (i.text) + sec[s];
                                else if (*k == 'M') t += mark[m];
                                else if (*k == 'N') { if (m) skip = true; }
                                else if (*k == 'P') { if (!m) skip = true; t += mark[m]; }
                                else if (*k == 'F') t += e.text;
                                else t += *k;
                            }
                            if (skip) continue;
                            char fc = closed ? e.cls : f.f;
                            bool dead = fc == 'k' || fc == 't' || fc == 'p' || (fc == '_' && f.isShort);
                            char tone = toneOf (i.cls, m, dead, f.isShort);
                            if (tone) meaning[t].push_back (string { i.sound, tab::SEC[s], f.vowel, fc, tone });
                        }
    }
};

// spelling cannot express: level tone on a dead syllable; short ia, uea and
// oe before a final consonant
bool
expressible (const tab::Sound& x)
{
    char f = tab::FIN[x.f].raw, v = tab::VOW[x.v].raw;
    bool dead = f == 'k' || f == 't' || f == 'p' || (f == '_' && tab::VOW[x.v].isShort);
    if (dead && x.t == 0) return false;
    if (f != '_' && (v == 'y' || v == 'z' || v == 'w')) return false;
    return true;
}

}

// cases: "S" syllable code; "U" uniqueness over all syllables; "L" literal
struct NotationCheck : Check {
    Reader reader;
    unique_ptr<ISylOutput> out[5];

    void setup (Ctx&) override { for (int n = 0; n < 5; ++n) out[n] = sylOutput (n); }
    template<class F> void each (F f)
    {
        for (int i = 0; i < 21; ++i) for (int s = 0; s < 4; ++s) for (int v = 0; v < 24; ++v)
            for (int e = 0; e < 9; ++e) for (int t = 0; t < 5; ++t) f (tab::Sound { i, s, v, e, t });
    }
    void generate (const Emit& emit) override
    {
        emit ("U");
        each ([&] (const tab::Sound& x) { emit ("S" + tab::raw (x)); });
        for (uint32_t c = 1; c < 0x10000; ++c)
            if (c < 0xd800 || c >= 0xe000) {
                U16 u (1, char16_t (c));
                emit ("L" + toU8 (u));
                if (c < 0x180 || (c >= 0xe00 && c < 0xe80)) {
                    emit ("L" + toU8 (u + u"a")); emit ("L" + toU8 (u"1" + u)); emit ("L" + toU8 (u + u));
                }
            }
        for (auto u : { u"a", u"(", u")", u"@", u" ", u"1", u"\U0001f600", u"ๆ", u"\"" }) for (int n : { 3, 7, 15, 16, 17, 64, 255, 256, 1000 }) {
            U16 s;
            for (int k = 0; k < n; ++k) s += u;
            emit ("L" + toU8 (s));
        }
        uint32_t step = opt.thorough() ? 1 : 61;
        for (uint32_t c = 0x10000; c < 0x110000; c += step) {
            uint32_t d = c - 0x10000;
            emit ("L" + toU8 (U16 { char16_t (0xd800 + (d >> 10)), char16_t (0xdc00 + (d & 0x3ff)) }));
        }
    }
    void eval (const string& c, Ctx& ctx) override
    {
        if (c == "U") {
            // initial o-ang never begins a cluster
            map<string, string> raw, phon;
            each ([&] (const tab::Sound& x) {
                string code = tab::raw (x);
                Syl y (code);
                y.setEndPos (7);
                string a = out[3]->output (y), b = out[2]->output (y);
                if (!raw.emplace (a, code).second) ctx.fail ("raw " + a + " stands for two syllables");
                if (tab::INI[x.i].raw == '?' && x.s) return;
                auto r = phon.emplace (b, code);
                if (!r.second) ctx.fail ("phonetic " + b + " stands for " + code + " and " + r.first->second);
            });
            ctx.add ("distinct_pairs_compared", raw.size());
            return;
        }
        if (c[0] == 'L') {
            U16 u = toU16 (c.substr (1));
            for (int pos : { 0, 1, 17, -305 }) {
                Syl y (pos, u);
                for (int n = 0; n < 5; ++n) {
                    string want = "(" + c.substr (1) + ")";
                    if (n == 3) want += "@" + to_string (pos);
                    string got = out[n]->output (y);
                    if (got != want) ctx.fail ("literal rendered as " + got);
                    ctx.add ("renderings");
                }
            }
            return;
        }
        string code = c.substr (1);
        tab::Sound x;
        tab::find (code, x);
        for (int pos : { -1, 0, 3, 120, -203 }) {
            Syl y (code, pos);
            string got[5], want[5] = { "", tab::roman (x), tab::phonetic (x), code + "@" + to_string (pos), tab::soundex (x) };
            for (int n = 0; n < 5; ++n) {
                got[n] = out[n]->output (y);
                ctx.add ("renderings");
                if (n && got[n] != want[n])
                    ctx.fail (code + " rendered as " + got[n] + " instead of " + want[n]);
            }
            if (pos == -1) { ctx.see ("nontrivial", got[0] + got[2]); if (x.t == 3) ctx.sample (code + " " + got[0] + " " + got[1] + " " + got[2]); }
            auto it = reader.meaning.find (got[0]);
            if (it == reader.meaning.end()) { ctx.fail (code + " respelled as " + got[0] + ", which spells no syllable"); continue; }
            bool ok = false;
            if (!expressible (x)) {
                // the nearest spelling: all the rest is still the same
                ctx.add ("not_expressible");
                for (auto& m : it->second)
                    if (m.substr (0, 2) == code.substr (0, 2) && tolower (m[2]) == tolower (code[2]) && m[3] == code[3]
                        && (m[4] == code[4] || code[4] == '0')) ok = true;
            }
            for (auto& m : it->second) if (m == code) ok = true;
            // before y the written forms of e and oe coincide
            if (!ok && code[3] == 'y' && (code[2] == 'E' || code[2] == 'e'))
                for (auto& m : it->second) if (m[0] == code[0] && m[1] == code[1] && m[2] == 'W' && m[3] == 'y' && m[4] == code[4]) ok = true;
            if (!ok) {
                string d;
                for (auto& m : it->second) d += " " + m;
                ctx.fail (code + " respelled as " + got[0] + ", which reads" + d);
            }
        }
    }
};
REGISTER_CHECK (NotationCheck, "notation");
