#include "spaces.h"
#include "real.h"

using namespace std;

const U16 CONS = u"กขฃคฅฆงจฉชซฌญฎฏฐฑฒณดตถทธนบปผฝพฟภมยรลวศษสหฬอฮ";
const U16 THAI = CONS + u"ฤฦะัาำิีึืุูเแโใไๅ็่้๊๋์";

void
spaceAllShort (const Put& put, int maxLen)
{
    allStrings (THAI, 0, maxLen, put);
}

void
spaceRepresentatives (const Put& put, bool thorough)
{
    // lengths over ever smaller representative alphabets
    allStrings (u"กรลวหจสตบดยอนคฤะัาิุเแโไ็่์", 4, 4, put);
    allStrings (u"กรวหตนยอะัาิเโ่์", 5, 5, put);
    allStrings (u"กรตนอาิเ์", 6, 6, put);
    allStrings (u"กรตา์เ", 7, 7, put);
    allStrings (u"กตราุ", 8, 8, put);
    if (thorough) {
        allStrings (u"กรลวหจสตบยอนฤะัาิืุเแโไ็่์", 5, 5, put);
        allStrings (u"กรวหตนยอะัาิเโ์", 6, 6, put);
        allStrings (u"กรตนอาิเ์", 7, 7, put);
        allStrings (u"กตรนาุเ", 8, 8, put);
        allStrings (u"กรตาิ", 9, 9, put);
        allStrings (u"กรา", 10, 11, put);
    }
}

void
spaceOnsets (const Put& put, bool thorough)
{
    static const char16_t* const lead[] = { u"", u"เ", u"แ", u"โ", u"ไ", u"ใ" };
    static const char16_t* const tail[] = {
        u"", u"า", u"าน", u"้า", u"ะ", u"ัน", u"ัว", u"ิ", u"ิน", u"ี", u"ี่ยว",
        u"ือ", u"ื้อ", u"ุ", u"ู", u"็", u"็น", u"็อก", u"อ", u"้อน", u"อะ", u"าะ",
        u"ำ", u"ร", u"รม", u"รร", u"รรม", u"วน", u"น", u"่ง", u"ย", u"ยา", u"ว",
        u"์", u"ฤ", u"ฤก", u"ๅ", u"ิตร", u"าติ", u"กา", u"เก", u"ียะ",
    };
    U16 second = CONS + u"ฤ";
    for (auto& l : lead)
        for (auto c1 : CONS)
            for (auto c2 : second)
                for (auto& t : tail) {
                    put (U16 (l) + c1 + c2 + t);
                    if (thorough) {
                        put (u"กั" + U16 (l) + c1 + c2 + t);
                        put (U16 (l) + c1 + c2 + t + u"นะ");
                    }
                }
}

void
spaceCodas (const Put& put, bool thorough)
{
    static const char16_t* const head[] = {
        u"กา", u"ก่า", u"กั", u"กั้", u"กิ", u"กิ่", u"กี", u"กึ", u"กื", u"กุ", u"กู", u"เก",
        u"เก้", u"เกิ", u"เกี่ย", u"เกีย", u"เกือ", u"เก็", u"แก", u"แก็", u"โก", u"ก็อ", u"กอ",
        u"ก", u"กรร", u"กว", u"ฤ", u"กฤ", u"คฤ", u"มฤ", u"ไก", u"ขะ", u"ขำ", u"กัว", u"เกา", u"ร",
    };
    U16 after = CONS + u"ฤฦะัาำิีึืุูเแโใไๅ็่์";
    static const char16_t* const more[] = { u"", u"า", u"์", u"ิ", u"ก", u"รา", u"เก", u"ัน", u"์ก", u"ุม" };
    for (auto& h : head)
        for (auto c : CONS)
            for (auto d : after)
                for (auto& m : more) {
                    if (!thorough && !ref::isCons (d) && m[0] == u'เ') continue;
                    put (U16 (h) + c + d + m);
                }
}

void
spaceWords (const Put& put, size_t stride, int dev)
{
    static const U16 reps = u"กรลวหตนยอาะัิุเ่์";
    auto& w = libWords();
    for (size_t i = 0; i < w.size(); i += stride) {
        U16 s = toU16 (w[i]);
        if (s.size() > 40) continue;
        put (s);
        if (!dev || s.size() > 12) continue;
        for (size_t k = 0; k <= s.size(); ++k) {
            if (k < s.size()) {
                put (s.substr (0, k) + s.substr (k + 1));
                put (s.substr (0, k) + s[k] + s.substr (k));
                if (k + 1 < s.size())
                    put (s.substr (0, k) + s[k+1] + s[k] + s.substr (k + 2));
            }
            for (auto c : reps) {
                if (k < s.size()) put (s.substr (0, k) + c + s.substr (k + 1));
                if (dev > 1) put (s.substr (0, k) + c + s.substr (k));
            }
        }
    }
}

void
spaceLong (const Put& put)
{
    static const char16_t* const unit[] = {
        u"กา", u"กะ", u"ก", u"เก", u"กัน", u"กรม", u"มาตรา", u"สน", u"ขนม", u"ชาติ", u"โก", u"ฤ",
        u"พฤกษ", u"ราช", u"การ", u"กรรม", u"ไทย", u"กา ", u"ก.", u"กา.",
    };
    for (auto& u : unit)
        for (int n : { 2, 3, 5, 8, 13, 21, 34, 51, 60, 75, 101, 120 }) {
            U16 s;
            for (int i = 0; i < n; ++i) s += u;
            if (s.size() <= 330) put (s);
        }
    // pre-syllables far from the beginning
    for (int n = 90; n <= 115; ++n)
        for (auto& t : { u"ขนม", u"สบาย", u"ตลาด", u"บริษัท", u"ครหา", u"พฤหัส", u"กรก" }) {
            U16 s;
            while ((int) s.size() < n) s += u"ไ";
            for (int i = 1; i < n; i += 2) s[i] = u'ก';
            put (s + t + u"กา");
            put (u"ขนม" + s + t);
        }
}

void
spaceScale (const Put& put, size_t maxLen)
{
    static const char16_t* const unit[] = { u"ไป", u"นะ", u"โต๊ะ", u"ไป ", u"ไป1", u"x", u"1 ", u"ไป.", u"ก. ", u"ไปx. ", u"ๆ" };
    for (auto& u : unit)
        for (size_t n : { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049 }) {
            if (n > maxLen) break;
            U16 s;
            while (s.size() < n) s += u;
            // something to tell the end from the rest
            put (s.substr (0, s.size()) + u"เสือ");
            put (u"เสือ" + s);
        }
}

void
spaceAmbiguous (const Put& put, bool thorough)
{
    static const struct { const char16_t* unit; int n, more; } set[] = {
        { u"ก", 11, 13 }, { u"สน", 6, 7 }, { u"มร", 5, 6 }, { u"กร", 5, 6 }, { u"มหา", 5, 7 }, { u"กา", 7, 10 }, { u"ขนม ", 6, 9 }, { u"มรดก ", 4, 5 },
    };
    for (auto& x : set) {
        U16 s;
        for (int k = 0; k < (thorough ? x.more : x.n); ++k) { s += x.unit; put (s); put (s + u"ไป"); }
    }
}

void
spaceMixed (const Put& put, bool thorough)
{
    // Thai letters, sign, period, space, digit, Latin, newline, combining
    // mark, Thai digit, repetition mark, abbreviation mark
    U16 a = u"กาเ์. 1x";
    a += char16_t (0x0301); a += u'๑'; a += u'ๆ'; a += u'ฯ';
    allStrings (a, 0, thorough ? 6 : 5, put);
    allStrings (u"กา. 1", 6, thorough ? 8 : 7, put);
    // every code unit class in every position of a small frame
    vector<U16> ch;
    for (char16_t c = 0; c < 0x180; ++c) ch.push_back (U16 (1, c));
    for (char16_t c = 0x0e00; c < 0x0e80; ++c) ch.push_back (U16 (1, c));
    for (char16_t c : { u'̀', u'๜', u'ក', u'​', u'‍', u' ',
                        u'あ', u'퟿', u'', u'﻿', u'�', u'￾', u'￿' })
        ch.push_back (U16 (1, c));
    ch.push_back (u"\U00010000"); ch.push_back (u"\U0001F600"); ch.push_back (u"\U0010FFFF");
    static const char16_t* const side[] = { u"", u"กา", u"ก", u".", u" ", u"ขนม", u"x", u"1." };
    for (auto& c : ch)
        for (auto& l : side)
            for (auto& r : side) {
                put (l + c + r);
                put (l + c + c + r);
                put (l + c + u"กะ" + c + r);
            }
    if (thorough)
        for (auto& c : ch) for (auto& d : ch) put (u"กา" + c + d + u"กะ");
}
