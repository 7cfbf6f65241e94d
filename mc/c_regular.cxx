// C04: the standard reading of every regularly spelled syllable is offered.
// The tables below are those of school orthography and are not shared with
// the reference grammar.
#include "real.h"

using namespace std;

namespace {

struct Initial { const char16_t* text; char sound, second, cls; };  // cls m h l

const Initial INITIAL[] = {
    { u"ก",'k','_','m' }, { u"ข",'c','_','h' }, { u"ฃ",'c','_','h' }, { u"ค",'c','_','l' },
    { u"ฅ",'c','_','l' }, { u"ฆ",'c','_','l' }, { u"ง",'g','_','l' }, { u"จ",'j','_','m' },
    { u"ฉ",'J','_','h' }, { u"ช",'J','_','l' }, { u"ซ",'s','_','l' }, { u"ฌ",'J','_','l' },
    { u"ญ",'y','_','l' }, { u"ฎ",'d','_','m' }, { u"ฏ",'t','_','m' }, { u"ฐ",'T','_','h' },
    { u"ฑ",'T','_','l' }, { u"ฒ",'T','_','l' }, { u"ณ",'n','_','l' }, { u"ด",'d','_','m' },
    { u"ต",'t','_','m' }, { u"ถ",'T','_','h' }, { u"ท",'T','_','l' }, { u"ธ",'T','_','l' },
    { u"น",'n','_','l' }, { u"บ",'b','_','m' }, { u"ป",'p','_','m' }, { u"ผ",'P','_','h' },
    { u"ฝ",'f','_','h' }, { u"พ",'P','_','l' }, { u"ฟ",'f','_','l' }, { u"ภ",'P','_','l' },
    { u"ม",'m','_','l' }, { u"ย",'y','_','l' }, { u"ร",'r','_','l' }, { u"ล",'l','_','l' },
    { u"ว",'w','_','l' }, { u"ศ",'s','_','h' }, { u"ษ",'s','_','h' }, { u"ส",'s','_','h' },
    { u"ห",'h','_','h' }, { u"ฬ",'l','_','l' }, { u"อ",'?','_','m' }, { u"ฮ",'h','_','l' },
    // true clusters
    { u"กร",'k','r','m' }, { u"กล",'k','l','m' }, { u"กว",'k','w','m' },
    { u"ขร",'c','r','h' }, { u"ขล",'c','l','h' }, { u"ขว",'c','w','h' },
    { u"คร",'c','r','l' }, { u"คล",'c','l','l' }, { u"คว",'c','w','l' },
    { u"ตร",'t','r','m' }, { u"ปร",'p','r','m' }, { u"ปล",'p','l','m' },
    { u"ผล",'P','l','h' }, { u"พร",'P','r','l' }, { u"พล",'P','l','l' },
    // clusters of borrowed words
    { u"บร",'b','r','m' }, { u"บล",'b','l','m' }, { u"ดร",'d','r','m' },
    { u"ฟร",'f','r','l' }, { u"ฟล",'f','l','l' }, { u"ทร",'T','r','l' },
    // pseudo clusters (ทร read s is listed in the exception data instead)
    { u"จร",'j','_','m' }, { u"ซร",'s','_','l' }, { u"ศร",'s','_','h' }, { u"สร",'s','_','h' },
    // silent h
    { u"หง",'g','_','h' }, { u"หญ",'y','_','h' }, { u"หน",'n','_','h' }, { u"หม",'m','_','h' },
    { u"หย",'y','_','h' }, { u"หร",'r','_','h' }, { u"หล",'l','_','h' }, { u"หว",'w','_','h' },
};

// frames: 1 = initial with tone mark after it; t = tone mark only; F = final
struct Frame {
    const char16_t* text;       // I initial, M mark, F final letter
    char vowel, fin;            // fin: 0 = from the final letter
    bool isShort;
    bool marks;                 // may carry tone marks
    const char16_t* glides;     // which of ย ว may be its final
};

const Frame FRAME[] = {
    { u"IMะ",'a','_',true,true,u"" },    { u"IMา",'A','_',false,true,u"" },
    { u"IิM",'i','_',true,true,u"" },    { u"IีM",'I','_',false,true,u"" },
    { u"IึM",'v','_',true,true,u"" },    { u"IืMอ",'V','_',false,true,u"" },
    { u"IุM",'u','_',true,true,u"" },    { u"IูM",'U','_',false,true,u"" },
    { u"เIMะ",'e','_',true,true,u"" },   { u"เIM",'E','_',false,true,u"" },
    { u"แIMะ",'x','_',true,true,u"" },   { u"แIM",'X','_',false,true,u"" },
    { u"โIMะ",'o','_',true,true,u"" },   { u"โIM",'O','_',false,true,u"" },
    { u"เIMาะ",'c','_',true,true,u"" },  { u"IMอ",'C','_',false,true,u"" },
    { u"เIMอะ",'w','_',true,true,u"" },  { u"เIMอ",'W','_',false,true,u"" },
    { u"เIีMยะ",'y','_',true,true,u"" }, { u"เIีMย",'Y','_',false,true,u"" },
    { u"เIืMอะ",'z','_',true,true,u"" }, { u"เIืMอ",'Z','_',false,true,u"" },
    { u"IัMวะ",'t','_',true,true,u"" },  { u"IัMว",'T','_',false,true,u"" },
    { u"IMำ",'a','m',true,true,u"" },    { u"ไIM",'a','y',true,true,u"" },
    { u"ใIM",'a','y',true,true,u"" },    { u"ไIMย",'a','y',true,true,u"" },
    { u"เIMา",'a','w',true,true,u"" },   { u"เIMย",'W','y',false,true,u"" },
    { u"IMร",'C','n',false,false,u"" },  { u"IMรร",'a','n',true,false,u"" },

    { u"IัMF",'a',0,true,true,u"ย" },    { u"IMาF",'A',0,false,true,u"ยว" },
    { u"IิMF",'i',0,true,true,u"ว" },    { u"IีMF",'I',0,false,true,u"" },
    { u"IึMF",'v',0,true,true,u"" },     { u"IืMF",'V',0,false,true,u"" },
    { u"IุMF",'u',0,true,true,u"ย" },    { u"IูMF",'U',0,false,true,u"" },
    { u"เI็F",'e',0,true,false,u"ว" },   { u"เIMF",'E',0,false,true,u"ว" },
    { u"แI็F",'x',0,true,false,u"" },    { u"แIMF",'X',0,false,true,u"ว" },
    { u"IMF",'o',0,true,true,u"" },      { u"โIMF",'O',0,false,true,u"ย" },
    { u"I็อF",'c',0,true,false,u"ย" },   { u"IMอF",'C',0,false,true,u"ย" },
    { u"เIิMF",'W',0,false,true,u"" },   { u"เIีMยF",'Y',0,false,true,u"ว" },
    { u"เIืMอF",'Z',0,false,true,u"ย" }, { u"IMวF",'T',0,false,true,u"ย" },
    { u"IMรรF",'a',0,true,false,u"" },
};

struct Final { char16_t c; char cls; };
const Final FINAL[] = {
    { u'ก','k' }, { u'ข','k' }, { u'ค','k' }, { u'ฆ','k' },
    { u'ง','g' },
    { u'จ','t' }, { u'ช','t' }, { u'ซ','t' }, { u'ฎ','t' }, { u'ฏ','t' }, { u'ฐ','t' }, { u'ฑ','t' },
    { u'ฒ','t' }, { u'ด','t' }, { u'ต','t' }, { u'ถ','t' }, { u'ท','t' }, { u'ธ','t' }, { u'ศ','t' },
    { u'ษ','t' }, { u'ส','t' },
    { u'บ','p' }, { u'ป','p' }, { u'พ','p' }, { u'ฟ','p' }, { u'ภ','p' },
    { u'น','n' }, { u'ณ','n' }, { u'ญ','n' }, { u'ร','n' }, { u'ล','n' }, { u'ฬ','n' },
    { u'ม','m' }, { u'ย','y' }, { u'ว','w' },
};

// spoken tone, or 0 where the mark is not used with the class
char
toneOf (char cls, int mark, bool dead, bool isShort)
{
    switch (cls) {
    case 'm':
        if (mark == 0) return dead ? '1' : '0';
        return "01234"[mark];
    case 'h':
        if (mark == 0) return dead ? '1' : '4';
        return mark == 1 ? '1' : mark == 2 ? '2' : 0;
    default:
        if (mark == 0) return !dead ? '0' : isShort ? '3' : '2';
        return mark == 1 ? '2' : mark == 2 ? '3' : 0;
    }
}

const U16 MARK[] = { u"", u"่", u"้", u"๊", u"๋" };

}

// case: text TAB expected code
struct RegularCheck : Check {
    unique_ptr<Parser> p;
    void setup (Ctx&) override { p.reset (new Parser (false)); }
    void generate (const Emit& emit) override
    {
        static const U16 silenced = u"กขคงจชซญฎฏฐฑฒณดตถทธนบปพฟภมยรลวศษสหฬฮ";
        for (auto& ini : INITIAL)
            for (auto& fr : FRAME)
                for (auto& fin : FINAL) {
                    U16 t = fr.text;
                    bool closed = t.find (u'F') != U16::npos;
                    if (!closed && &fin != FINAL) break;
                    if (closed && (fin.c == u'ย' || fin.c == u'ว') && U16 (fr.glides).find (fin.c) == U16::npos)
                        continue;
                    // r after an inherent vowel is a spelling of its own
                    if (fr.vowel == 'o' && closed && fr.text[0] == u'I' && fin.c == u'ร') continue;
                    // after a cluster in w that w is the vowel ua
                    U16 it = ini.text;
                    if (fr.vowel == 'o' && closed && fr.text[0] == u'I' && it.size() > 1 && it.back() == u'ว') continue;
                    char f = closed ? fin.cls : fr.fin;
                    bool dead = f == 'k' || f == 't' || f == 'p' || (f == '_' && fr.isShort);
                    for (int m = 0; m < (fr.marks ? 5 : 1); ++m) {
                        char tone = toneOf (ini.cls, m, dead, fr.isShort);
                        if (!tone) continue;
                        U16 s;
                        for (auto k : t)
                            if (k == u'I') s += ini.text;
                            else if (k == u'M') s += MARK[m];
                            else if (k == u'F') s += fin.c;
                            else s += k;
                        // a doubled r is always r-han
                        bool han = t.find (u"รร") != U16::npos;
                        if (han && it.back() == u'ร') continue;
                        auto put = [&] (const U16& x, const string& c) {
                            if (han || x.find (u"รร") == U16::npos) emit (toU8 (x) + "\t" + c);
                        };
                        string code { ini.sound, ini.second, fr.vowel, f, tone };
                        put (s, code);
                        if (t == u"ไIMย") continue;
                        for (auto c : silenced) {
                            put (s + c + u'์', code);
                        }
                    }
                }
    }
    void eval (const string& c, Ctx& ctx) override
    {
        auto f = splitBy (c, '\t');
        int n = toU16 (f[0]).size();
        string want = f[1] + "@" + to_string (n);
        auto e = realEdges (p->parseWord (f[0]));
        ctx.see ("nontrivial", f[1]);
        ctx.add ("readings_seen", e.size());
        if (c.size() % 13 == 0) ctx.sample (f[0] + " " + f[1]);
        for (auto& x : e) if (x.from == 0 && x.to == n && x.label == want) return;
        ctx.fail ("standard reading " + f[1] + " is not offered; code " + showEdges (e));
    }
};
REGISTER_CHECK (RegularCheck, "regular");
