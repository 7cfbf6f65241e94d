// Documented symbols of every component in every notation, typed here
// independently of the code.
#ifndef MC_TABLES_H
#define MC_TABLES_H

#include <string>

namespace tab {

struct Ini { char raw; const char* phon; const char* rom; char sdx; };
static const Ini INI[21] = {
    { 'k', "k",  "k",  'k' }, { 'c', "kh", "kh", 'c' }, { 'g', "ng", "ng", 'g' }, { 'j', "j",  "ch", 'j' },
    { 'J', "ch", "ch", 'J' }, { 'y', "y",  "y",  'y' }, { 'd', "d",  "d",  'd' }, { 't', "t",  "t",  't' },
    { 'T', "th", "th", 'T' }, { 'n', "n",  "n",  'n' }, { 'b', "b",  "b",  'b' }, { 'p', "p",  "p",  'p' },
    { 'P', "ph", "ph", 'P' }, { 'f', "f",  "f",  'f' }, { 'm', "m",  "m",  'm' }, { 'r', "r",  "r",  'l' },
    { 'l', "l",  "l",  'l' }, { 'w', "w",  "w",  'w' }, { 's', "s",  "s",  's' }, { 'h', "h",  "h",  'h' },
    { '?', "",   "",   '?' },
};
static const char SEC[4] = { '_', 'r', 'l', 'w' };
struct Vow { char raw; const char* phon; const char* rom; char sdx; bool isShort; };
static const Vow VOW[24] = {
    { 'a', "ah",   "a",   'a', true }, { 'A', "aa",   "a",   'a', false },
    { 'i', "ih",   "i",   'i', true }, { 'I', "iy",   "i",   'i', false },
    { 'v', "ueh",  "ue",  'v', true }, { 'V', "uee",  "ue",  'v', false },
    { 'u', "uh",   "u",   'u', true }, { 'U', "uw",   "u",   'u', false },
    { 'e', "eh",   "e",   'e', true }, { 'E', "ey",   "e",   'e', false },
    { 'x', "aeh",  "ae",  'x', true }, { 'X', "aee",  "ae",  'x', false },
    { 'y', "iah",  "ia",  'y', true }, { 'Y', "iaa",  "ia",  'y', false },
    { 'z', "ueah", "uea", 'z', true }, { 'Z', "ueaa", "uea", 'z', false },
    { 't', "uah",  "ua",  't', true }, { 'T', "uaa",  "ua",  't', false },
    { 'o', "oh",   "o",   'o', true }, { 'O', "ow",   "o",   'o', false },
    { 'c', "aoh",  "o",   'c', true }, { 'C', "aow",  "o",   'c', false },
    { 'w', "oeh",  "oe",  'w', true }, { 'W', "oee",  "oe",  'w', false },
};
struct Fin { char raw; const char* phon; const char* rom; };
static const Fin FIN[9] = {
    { '_', "", "" }, { 'k', "k", "k" }, { 't', "t", "t" }, { 'p', "p", "p" }, { 'g', "ng", "ng" },
    { 'n', "n", "n" }, { 'm', "m", "m" }, { 'y', "y", "i" }, { 'w', "w", "o" },
};

struct Sound { int i, s, v, f, t; };

inline bool
find (const std::string& code, Sound& x)
{
    x = { -1, -1, -1, -1, code[4] - '0' };
    for (int k = 0; k < 21; ++k) if (INI[k].raw == code[0]) x.i = k;
    for (int k = 0; k < 4; ++k) if (SEC[k] == code[1]) x.s = k;
    for (int k = 0; k < 24; ++k) if (VOW[k].raw == code[2]) x.v = k;
    for (int k = 0; k < 9; ++k) if (FIN[k].raw == code[3]) x.f = k;
    return x.i >= 0 && x.s >= 0 && x.v >= 0 && x.f >= 0 && x.t >= 0 && x.t < 5;
}
inline std::string sec (const Sound& x) { return x.s ? std::string (1, SEC[x.s]) : ""; }
inline std::string raw (const Sound& x)
    { return { INI[x.i].raw, SEC[x.s], VOW[x.v].raw, FIN[x.f].raw, char ('0' + x.t) }; }
inline std::string phonetic (const Sound& x)
    { return INI[x.i].phon + sec (x) + VOW[x.v].phon + FIN[x.f].phon + char ('0' + x.t); }
inline std::string roman (const Sound& x)
    { return INI[x.i].rom + sec (x) + VOW[x.v].rom + FIN[x.f].rom; }
inline std::string soundex (const Sound& x)
    { return { INI[x.i].sdx, VOW[x.v].sdx, FIN[x.f].raw }; }

}

#endif
