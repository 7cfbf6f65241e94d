#include "ref.h"

#include <algorithm>
#include <cstring>

using namespace std;

namespace ref {

//
// Orthography
//

struct Letters {
    char cls[46], ini[46], fin[46];

    static void put (char* tbl, const char16_t* letters, char code)
    {
        for (; *letters; ++letters) tbl[*letters - 0x0e01] = code;
    }
    Letters()
    {
        memset (cls, 0, sizeof cls);
        memset (ini, 0, sizeof ini);
        memset (fin, '_', sizeof fin);
        put (cls, u"กจฎฏดตบปอ", 'm');
        put (cls, u"ขฃฉฐถผฝศษสห", 'h');
        put (cls, u"งญณนมยรลวฬ", 'l');
        put (cls, u"คฅฆชซฌฑฒทธพฟภฮ", 'p');
        put (ini, u"ก", 'k');       put (ini, u"ขฃคฅฆ", 'c');
        put (ini, u"ง", 'g');       put (ini, u"จ", 'j');
        put (ini, u"ฉชฌ", 'J');     put (ini, u"ซศษส", 's');
        put (ini, u"ญย", 'y');      put (ini, u"ฎด", 'd');
        put (ini, u"ฏต", 't');      put (ini, u"ฐฑฒถทธ", 'T');
        put (ini, u"ณน", 'n');      put (ini, u"บ", 'b');
        put (ini, u"ป", 'p');       put (ini, u"ผพภ", 'P');
        put (ini, u"ฝฟ", 'f');      put (ini, u"ม", 'm');
        put (ini, u"ร", 'r');       put (ini, u"ลฬ", 'l');
        put (ini, u"ว", 'w');       put (ini, u"หฮ", 'h');
        put (ini, u"อ", '?');
        put (fin, u"กขฃคฅฆ", 'k');
        put (fin, u"จฉชซฌฎฏฐฑฒดตถทธศษส", 't');
        put (fin, u"บปผฝพฟภ", 'p');
        put (fin, u"ง", 'g');       put (fin, u"ญณนรลฬ", 'n');
        put (fin, u"ม", 'm');       put (fin, u"ย", 'y');
        put (fin, u"ว", 'w');
    }
};
static const Letters L;

bool isCons (char16_t c) { return c >= 0x0e01 && c <= 0x0e2e && L.cls[c - 0x0e01]; }
bool isLead (char16_t c) { return c >= 0x0e40 && c <= 0x0e44; }
bool isTone (char16_t c) { return c >= 0x0e48 && c <= 0x0e4b; }
bool isWord (char16_t c)
{
    return (c >= 0x0e01 && c <= 0x0e2e) || (c >= 0x0e30 && c <= 0x0e39)
           || (c >= 0x0e40 && c <= 0x0e45) || (c >= 0x0e47 && c <= 0x0e4c);
}
bool isToken (char16_t c) { return c == u'.' || isWord (c); }
bool isStart (char16_t c) { return isCons (c) || isLead (c); }
char initSound (char16_t c) { return L.ini[c - 0x0e01]; }
char initClass (char16_t c) { return L.cls[c - 0x0e01]; }
char finalSound (char16_t c) { return isCons (c) ? L.fin[c - 0x0e01] : '_'; }
bool isShort (char v) { return v >= 'a' && v <= 'z'; }

char
spokenTone (char cls, char written, bool dead, bool shortV)
{
    bool low = cls == 'l' || cls == 'p';
    switch (written) {
    case '0':
        if (!dead) return cls == 'h' ? '4' : '0';
        return low ? (shortV ? '3' : '2') : '1';
    case '1': return low ? '2' : '1';
    case '2': return low ? '3' : '2';
    default:  return written;
    }
}

static bool
in (char16_t c, const char16_t* set)
{
    for (; *set; ++set) if (*set == c) return true;
    return false;
}

//
// Transition system
//

struct Half { char ini, v, tone; };         // a pre-syllable

struct Onset {
    int   end;              // position after it
    bool  pre;              // has a pre-syllable
    Half  half;
    char  ini, sec, cls;
    char  v;                // vowel already given, or 0
    bool  complete;         // nothing may follow in this syllable
};

struct Step {
    int   node;             // intermediate node for pre-syllable, 0 if none
    Half  half;
    char  code[6];
    int   to;
    bool  linked;
};

class Machine {
public:
    Machine (const U16& text, const Lexicon* lex) : t (text), lex (lex), n (text.size()) {}

    // syllables that may begin at pos, in a word that ends at stop
    void syllables (int pos, int stop, bool linked, vector<Step>& out);

private:
    const U16&     t;
    const Lexicon* lex;
    int            n;
    int            stop_, pos_;
    bool           linked_;
    vector<Step>*  out_;

    char16_t at (int i) const { return i >= 0 && i < stop_ ? t[i] : u'\0'; }
    // what is complete may end here: at the end or before another syllable
    bool endOrStart (int i) const { return i >= stop_ || isStart (t[i]) || t[i] == u'ฤ' || t[i] == u'ฦ'; }

    int  silentOne (int i) const;       // X์
    int  silentIU (int i) const;        // Xิ์ Xุ์
    int  silentAny (int i) const;       // X์ XY์ Xิ์ Xุ์
    char tone (int& i) const;

    void onsets (int q, vector<Onset>& r) const;
    void emit (const Onset& o, int to, char v, char fin, char tone, bool linked = false);
    void simpleFinal (const Onset& o, int i, char v, char tone, const char16_t* except = u"");
    void complexFinal (const Onset& o, int i, char v, char tone, const char16_t* except = u"");

    void plain (const Onset& o);
    void leadE (const Onset& o);
    void leadAE (const Onset& o);
    void leadO (const Onset& o);
    void leadAI (const Onset& o, bool maimalai);
    void ruLu();
};

int
Machine::silentOne (int i) const
{
    return isCons (at (i)) && at (i + 1) == u'์' ? i + 2 : i;
}

int
Machine::silentIU (int i) const
{
    return isCons (at (i)) && in (at (i + 1), u"ิุ") && at (i + 2) == u'์' ? i + 3 : i;
}

int
Machine::silentAny (int i) const
{
    if (silentOne (i) != i) return i + 2;
    if (silentIU (i) != i) return i + 3;
    if (isCons (at (i)) && isCons (at (i + 1)) && at (i + 2) == u'์') return i + 3;
    return i;
}

char
Machine::tone (int& i) const
{
    if (!isTone (at (i))) return '0';
    return char ('1' + (at (i++) - u'่'));
}

void
Machine::emit (const Onset& o, int to, char v, char fin, char written, bool linked)
{
    bool dead = fin == '_' ? isShort (v) : (fin == 'k' || fin == 't' || fin == 'p');
    Step s;
    s.node = o.pre ? -(pos_ * 100 + to) : 0;
    s.half = o.half;
    s.code[0] = o.ini; s.code[1] = o.sec; s.code[2] = v; s.code[3] = fin;
    s.code[4] = spokenTone (o.cls, written, dead, isShort (v));
    s.code[5] = 0;
    s.to = to;
    s.linked = linked;
    out_->push_back (s);
}

void
Machine::simpleFinal (const Onset& o, int i, char v, char written, const char16_t* except)
{
    char f = finalSound (at (i));
    if (f == '_' || in (at (i), except)) return;
    emit (o, silentAny (i + 1), v, f, written);
}

void
Machine::complexFinal (const Onset& o, int i, char v, char written, const char16_t* except)
{
    char16_t c = at (i);
    char f = finalSound (c);
    if (f == '_' || in (c, except)) return;

    int after = silentAny (i + 1);
    emit (o, after, v, f, written);
    if (after > i + 1 || i + 1 >= stop_) return;

    char16_t d = at (i + 1);
    bool link;
    if (isCons (d)) {
        // silent ro after the final
        if (d == u'ร' && in (c, u"กคชตท") && endOrStart (i + 2))
            emit (o, i + 2, v, f, written);
        char16_t e = at (i + 2);
        link = isCons (e) || in (e, u"ฤะัาิีุู");
    } else if (in (d, u"ิุ")) {
        // silent i/u after the final
        bool silent = in (c, u"ฒตธร") && endOrStart (i + 2);
        if (silent) emit (o, i + 2, v, f, written);
        link = !(silent && i + 2 >= stop_);
    } else {
        link = in (d, u"ฤะัาีู");
    }
    // the final also begins the next syllable
    if (link) emit (o, i, v, f, written, true);
}

void
Machine::onsets (int q, vector<Onset>& r) const
{
    char16_t c1 = at (q), c2 = at (q + 1), c3 = at (q + 2);
    if (!isCons (c1)) return;
    char s1 = initSound (c1), k1 = initClass (c1);
    Half none = { 0, 0, 0 };
    Half halfA  = { s1, 'a', spokenTone (k1, '0', true, true) };
    Half halfAu = { s1, 'C', spokenTone (k1, '0', false, false) };

    if (isCons (c2)) {
        char s2 = initSound (c2), k2 = initClass (c2);
        bool rHan = c2 == u'ร' && c3 == u'ร';

        if (c2 == u'ร' && !rHan) {
            if (!linked_ && in (c1, u"จซศส"))
                r.push_back ({ q + 2, false, none, s1, '_', k1, 0, false });
            if (in (c1, u"กตป") || (!linked_ && in (c1, u"ขคดทบพฟ")))
                r.push_back ({ q + 2, false, none, s1, 'r', k1, 0, false });
            if (isStart (c3) && in (c1, u"กคจทธนบปภมวสหอ"))
                r.push_back ({ q + 2, true, halfAu, 'r', '_', 'l', 'a', true });
            if (c1 == u'บ' && c3 == u'ิ')
                r.push_back ({ q + 3, true, halfAu, 'r', '_', 'l', 'i', true });
            if (c1 == u'จ' && c3 == u'ะ')
                r.push_back ({ q + 3, true, halfAu, 'r', '_', 'l', 'a', true });
        }
        if (c2 == u'ล' && !linked_ && in (c1, u"กขคบปผพฟ"))
            r.push_back ({ q + 2, false, none, s1, 'l', k1, 0, false });
        if (c2 == u'ว' && !linked_ && in (c1, u"กขค"))
            r.push_back ({ q + 2, false, none, s1, 'w', k1, 0, false });
        if (c1 == u'ห' && k2 == 'l' && !rHan)
            r.push_back ({ q + 2, false, none, s2, '_', 'h', 0, false });
        if (!rHan)
            r.push_back ({ q + 2, true, halfA, s2, '_', k2 == 'l' ? k1 : k2, 0, false });
        if (c1 == u'บ' && c2 == u'ด' && in (c3, u"ิี"))
            r.push_back ({ q + 1, false, none, s1, '_', k1, 'C', true });
    } else if (c2 == u'ฤ' && c3 != u'ๅ' && c3 != u'า') {
        if (in (c1, u"กตทป")) {
            r.push_back ({ q + 2, false, none, s1, 'r', k1, 'i', false });
        } else if (in (c1, u"สศ")) {
            r.push_back ({ q + 2, false, none, s1, '_', k1, 'i', false });
            r.push_back ({ q + 2, true, halfA, 'r', '_', k1, 'i', false });
        } else if (c1 == u'ว') {
            r.push_back ({ q + 2, false, none, s1, 'r', k1, 'v', false });
        } else if (c1 == u'น') {
            r.push_back ({ q + 2, true, halfA, 'r', '_', 'l', 'v', false });
        } else if (in (c1, u"คพ")) {
            if (finalSound (c3) != '_')
                r.push_back ({ q + 2, false, none, s1, 'r', k1, 'v', false });
            else
                r.push_back ({ q + 2, true, halfA, 'r', '_', 'l', 'v', true });
        } else {
            for (char v : { 'i', 'v' }) {
                if (c1 != u'ห')
                    r.push_back ({ q + 2, false, none, s1, 'r', k1, v, false });
                r.push_back ({ q + 2, true, halfA, 'r', '_', 'l', v, false });
            }
            r.push_back ({ q + 2, true, halfA, 'r', '_', 'l', 'v', true });
        }
    }
    r.push_back ({ q + 1, false, none, s1, '_', k1, 0, false });
    if (isStart (c2))
        r.push_back ({ q + 1, false, none, s1, '_', k1, 'a', true });
}

// syllable without leading vowel
void
Machine::plain (const Onset& o)
{
    int i = o.end;
    if (i >= stop_) return;
    if (o.complete) { emit (o, i, o.v, '_', '0'); return; }

    char16_t c = at (i);
    if (c == u'ั') {
        ++i;
        char w = tone (i);
        if (i >= stop_) return;
        if (at (i) == u'ว') {
            ++i;
            char v = 'T';
            if (at (i) == u'ะ') { v = 't'; ++i; }
            emit (o, silentOne (i), v, '_', w);
        } else if (w == '0') {
            complexFinal (o, i, 'a', w);
        } else {
            simpleFinal (o, i, 'a', w);
        }
        return;
    }
    if (in (c, u"ิีึืุู")) {
        char v = c == u'ิ' ? 'i' : c == u'ี' ? 'I' : c == u'ึ' ? 'v'
                 : c == u'ื' ? 'V' : c == u'ุ' ? 'u' : 'U';
        ++i;
        char w = tone (i);
        if (v != 'V' || i >= stop_ || isLead (at (i))) {
            int k = silentIU (i);
            if (silentOne (i) == i && k != i) { emit (o, k, v, '_', w); return; }
            i = silentOne (i);
            emit (o, i, v, '_', w);
        }
        if (i >= stop_ || isLead (at (i))) return;
        if (v == 'V') {
            if (at (i) == u'อ') emit (o, silentOne (i + 1), v, '_', w);
            else simpleFinal (o, i, v, w);
        } else {
            const char16_t* except = v == 'i' || v == 'I' ? u"ย" : u"";
            if (v == 'v' || w != '0') simpleFinal (o, i, v, w, except);
            else complexFinal (o, i, v, w, except);
        }
        return;
    }
    if (c == u'็') {
        if (at (i + 1) == u'อ' && i + 2 < stop_)
            simpleFinal (o, silentOne (i + 2), 'c', '0');
        return;
    }
    char w = tone (i);
    c = at (i);
    switch (c) {
    case u'ะ':
        emit (o, silentOne (i + 1), 'a', '_', w);
        break;
    case u'า':
        i = silentOne (i + 1);
        emit (o, i, 'A', '_', w);
        complexFinal (o, i, 'A', w);
        break;
    case u'ำ':
        emit (o, silentOne (i + 1), 'a', 'm', w);
        break;
    case u'ว':
        simpleFinal (o, i + 1, 'T', w);
        break;
    case u'อ':
        i = silentOne (i + 1);
        emit (o, i, 'C', '_', w);
        simpleFinal (o, i, 'C', w);
        break;
    case u'ร':
        ++i;
        if (o.ini != 'r') {
            i = silentOne (i);
            emit (o, i, 'C', 'n', w);
        }
        if (at (i) == u'ร') {
            ++i;
            int k = silentOne (i);
            emit (o, k, 'a', 'n', w);
            if (k == i) complexFinal (o, i, 'a', w);
        }
        break;
    default:
        if (!isCons (c)) break;
        if (o.v) {
            emit (o, i, o.v, '_', w);
            complexFinal (o, i, o.v, w, u"ว");
        } else if (o.sec != 'w' && !linked_) {
            simpleFinal (o, i, 'o', w, u"ยว");
        }
    }
}

void
Machine::leadE (const Onset& o)
{
    if (o.complete) return;
    int i = o.end;
    bool open = !o.pre || o.ini != '?';         // เธอ is not ทะ-เอ
    char w;

    if (i >= stop_) { if (open) emit (o, i, 'E', '_', '0'); return; }

    switch (at (i)) {
    case u'ิ':
        ++i;
        w = tone (i);
        simpleFinal (o, silentOne (i), 'W', w);
        return;
    case u'ี':
    case u'ื': {
        bool ii = at (i) == u'ี';
        ++i;
        w = tone (i);
        if (at (i) != (ii ? u'ย' : u'อ')) return;
        ++i;
        if (at (i) == u'ะ') {
            emit (o, silentOne (i + 1), ii ? 'y' : 'z', '_', w);
        } else {
            i = silentOne (i);
            emit (o, i, ii ? 'Y' : 'Z', '_', w);
            if (ii) complexFinal (o, i, 'Y', w);
            else simpleFinal (o, i, 'Z', w);
        }
        return;
    }
    case u'็':
        simpleFinal (o, i + 1, 'e', '0');
        return;
    }

    bool marked = isTone (at (i));
    w = tone (i);
    if (marked && i >= stop_) { emit (o, i, 'E', '_', w); return; }
    switch (at (i)) {
    case u'อ':
        if (open) emit (o, silentOne (i), 'E', '_', w);
        if (at (i + 1) == u'ะ') emit (o, silentOne (i + 2), 'w', '_', w);
        else emit (o, silentOne (i + 1), 'W', '_', w);
        return;
    case u'ะ':
        if (open) emit (o, silentOne (i + 1), 'e', '_', w);
        return;
    case u'า':
        if (at (i + 1) == u'ะ') emit (o, silentOne (i + 2), 'c', '_', w);
        else emit (o, silentOne (i + 1), 'a', 'w', w);
        return;
    case u'ย':
        if (endOrStart (i + 1)) {
            emit (o, silentOne (i + 1), 'W', 'y', w);
            return;
        }
    }
    if (open) {
        i = silentOne (i);
        emit (o, i, 'E', '_', w);
        complexFinal (o, i, 'E', w);
    }
}

void
Machine::leadAE (const Onset& o)
{
    if (o.complete) return;
    int i = o.end;
    char w = tone (i);
    if (at (i) == u'ะ') {
        emit (o, silentOne (i + 1), 'x', '_', w);
    } else if (at (i) == u'็') {
        simpleFinal (o, i + 1, 'x', w);
    } else {
        i = silentOne (i);
        emit (o, i, 'X', '_', w);
        simpleFinal (o, i, 'X', w);
    }
}

void
Machine::leadO (const Onset& o)
{
    if (o.complete) return;
    int i = o.end;
    char w = tone (i);
    char v = 'O';
    if (at (i) == u'ะ') { v = 'o'; ++i; }
    if (silentOne (i) == i && silentIU (i) != i) { emit (o, silentIU (i), v, '_', w); return; }
    i = silentOne (i);
    emit (o, i, v, '_', w);
    if (v == 'O') complexFinal (o, i, v, w);
}

void
Machine::leadAI (const Onset& o, bool maimalai)
{
    if (o.complete) return;
    int i = o.end;
    char w = tone (i);
    if (maimalai && at (i) == u'ย' && endOrStart (i + 1)) emit (o, i + 1, 'a', 'y', w);
    emit (o, silentOne (i), 'a', 'y', w);
}

void
Machine::ruLu()
{
    char16_t c = at (pos_), d = at (pos_ + 1);
    Onset o = { pos_ + 1, false, { 0, 0, 0 }, c == u'ฤ' ? 'r' : 'l', '_', 'l', 0, false };
    if (pos_ + 1 >= stop_) {
        emit (o, pos_ + 1, 'v', '_', '0');
    } else if (d == u'ๅ' || d == u'า') {
        emit (o, pos_ + 2, 'V', '_', '0');
    } else if (isCons (d)) {
        if (finalSound (d) == '_' || !(pos_ + 2 >= stop_ || isStart (t[pos_ + 2])))
            emit (o, pos_ + 1, 'v', '_', '0');
        else
            complexFinal (o, pos_ + 1, in (d, u"ณทษ") ? 'i' : 'v', '0');
    }
}

void
Machine::syllables (int pos, int stop, bool linked, vector<Step>& out)
{
    pos_ = pos; stop_ = stop; linked_ = linked; out_ = &out;
    char16_t c = at (pos);
    vector<Onset> r;
    if (isCons (c)) {
        onsets (pos, r);
        for (auto& o : r) plain (o);
    } else if (isLead (c)) {
        onsets (pos + 1, r);
        for (auto& o : r) {
            switch (c) {
            case u'เ': leadE (o); break;
            case u'แ': leadAE (o); break;
            case u'โ': leadO (o); break;
            case u'ไ': leadAI (o, true); break;
            case u'ใ': leadAI (o, false); break;
            }
        }
    } else if (c == u'ฤ' || c == u'ฦ') {
        ruLu();
    }
}

//
// Exploration of the transition system
//

static string
literal (const U16& s, int end)
{
    return "(" + toU8 (s) + ")@" + to_string (end);
}

static string
code (const char* c, int end)
{
    return string (c) + "@" + to_string (end);
}

static string
code (const Half& h, int end)
{
    char c[6] = { h.ini, '_', h.v, '_', h.tone, 0 };
    return code (c, end);
}

vector<Edge>
analyse (const U16& t, const vector<int>& breaks, const Lexicon* lex, Stats* stats)
{
    int n = t.size();
    Machine m (t, lex);

    // stop[p]: end of the word that contains position p
    vector<int> stop (n + 1, n);
    {
        set<int> brk (breaks.begin(), breaks.end());
        for (int p = n - 1; p >= 0; --p) {
            if (!isToken (t[p])) { stop[p] = p; continue; }
            if (p + 1 == n || brk.count (p + 1) || !isToken (t[p + 1])) stop[p] = p + 1;
            else stop[p] = stop[p + 1];
        }
    }

    // state = 2 * pos + linked
    struct Trans { int src, dst; vector<Edge> edges; };
    vector<Trans>         trans;
    vector<char>          seen (2 * n + 4, 0);
    vector<vector<int>>   into (2 * n + 4);
    vector<char>          absorbed (n + 1, 0);     // a period absorbed at this position
    auto link = [&] (int src, int pos, bool linked, vector<Edge>&& e) {
        int d = 2 * pos + (linked ? 1 : 0);
        trans.push_back ({ src, d, move (e) });
        into[d].push_back (trans.size() - 1);
        seen[d] = 1;
    };

    seen[0] = 1;
    vector<Step> steps;
    for (int s = 0; s < 2 * n; ++s) {
        if (!seen[s]) continue;
        int  p = s / 2;
        bool linked = s & 1;
        if (stats) ++stats->states;

        if (!isToken (t[p])) {
            int e = p;
            while (e < n && !isToken (t[e])) ++e;
            link (s, e, false, { { p, e, literal (t.substr (p, e - p), e) } });
            continue;
        }
        int end = stop[p];
        // for words and syllables, a period is as good as the end
        int wordEnd = p + 1;
        while (wordEnd < end && t[wordEnd] != u'.') ++wordEnd;

        // exception entries
        if (lex) {
            bool any = false;
            for (int e = p + 1; e <= wordEnd; ++e) {
                if (e < wordEnd && !isStart (t[e]) && t[e] != u'ฤ' && t[e] != u'ฦ') continue;
                auto it = lex->find (t.substr (p, e - p));
                if (it == lex->end()) continue;
                any = true;
                vector<Edge> es;
                for (auto& alt : splitBy (it->second, ';')) {
                    int from = p;
                    for (auto& c : splitBy (alt, ',')) {
                        int pos = stoi (c.substr (6));
                        int to = pos < 0 ? pos - 101 * p : pos + p;
                        es.push_back ({ from, to, c.substr (0, 5) + "@" + to_string (to) });
                        from = to;
                    }
                }
                link (s, e, false, move (es));
            }
            if (any) continue;
        }

        // abbreviations
        if (p == 0 || t[p-1] == u' ' || t[p-1] == u'.') {
            int e = p;
            while (e < end && isCons (t[e])) ++e;
            int k = e - p;
            bool dot = e < end && t[e] == u'.';
            if (k <= 4 && (dot || (k == 1 && e == end))) {
                vector<Edge> es;
                if (k == 0) {
                    es.push_back ({ p, p + 1, literal (u".", p + 1) });
                } else {
                    for (int i = p; i < e; ++i) {
                        int to = i + 1 == e && dot ? i + 2 : i + 1;
                        char c[6] = { initSound (t[i]), '_', 'C', '_',
                                      initClass (t[i]) == 'h' ? '4' : '0', 0 };
                        es.push_back ({ i, to, code (c, to) });
                    }
                }
                link (s, dot ? e + 1 : e, false, move (es));
                continue;
            }
        }

        // period after a normal reading
        if (t[p] == u'.') {
            absorbed[p] = 1;
            link (s, p + 1, linked, {});
            continue;
        }

        steps.clear();
        m.syllables (p, wordEnd, linked, steps);
        for (auto& st : steps) {
            vector<Edge> es;
            if (st.node) {
                es.push_back ({ p, st.node, code (st.half, st.node) });
                es.push_back ({ st.node, st.to, code (st.code, st.to) });
            } else {
                es.push_back ({ p, st.to, code (st.code, st.to) });
            }
            link (s, st.to, st.linked, move (es));
        }
    }
    if (stats) stats->transitions += trans.size();

    // keep what leads to the end of the text
    vector<char> good (2 * n + 4, 0);
    vector<int>  todo;
    for (int f : { 2 * n, 2 * n + 1 }) if (seen[f]) { good[f] = 1; todo.push_back (f); }
    vector<Edge> r;
    while (!todo.empty()) {
        int d = todo.back(); todo.pop_back();
        for (int k : into[d]) {
            auto& tr = trans[k];
            for (auto& e : tr.edges) r.push_back (e);
            if (!good[tr.src]) { good[tr.src] = 1; todo.push_back (tr.src); }
        }
    }
    for (auto& e : r) {
        if (e.to >= 0 && e.to < n && absorbed[e.to]) {
            ++e.to;
            e.label = e.label.substr (0, e.label.rfind ('@') + 1) + to_string (e.to);
        }
        if (e.label.compare (0, 5, "*_*_*") == 0) e.label = " ";     // a blank
    }
    sort (r.begin(), r.end());
    r.erase (unique (r.begin(), r.end()), r.end());
    return r;
}

}   // namespace ref

bool
pathLanguage (const vector<ref::Edge>& edges, size_t limit, set<string>& out)
{
    multimap<int, const ref::Edge*> by;
    for (auto& e : edges) by.emplace (e.from, &e);
    bool ok = true;
    size_t visits = 0;
    function<void (int, const string&)> walk = [&] (int node, const string& pre) {
        if (!ok) return;
        auto r = by.equal_range (node);
        if (r.first == r.second) {
            if (!pre.empty()) out.insert (pre);
            return;
        }
        for (auto it = r.first; it != r.second; ++it) {
            if (++visits > limit) { ok = false; return; }
            walk (it->second->to, pre.empty() ? it->second->label : pre + "\xff" + it->second->label);
        }
    };
    walk (0, "");
    return ok;
}

string
showEdges (const vector<ref::Edge>& edges)
{
    string r;
    for (auto& e : edges) {
        r += "[" + to_string (e.from) + ">" + e.label + "]";
        if (r.size() > 600) { r += "..."; break; }
    }
    return r;
}
