// Reference model of the analysis: an explicit transition system over
// (position, linked) states, written from the spelling rules and independent
// of the implementation's data structures.
#ifndef MC_REF_H
#define MC_REF_H

#include "common.h"

namespace ref {

// orthography tables, one letter code per sound as in the raw notation
bool isCons (char16_t c);
bool isLead (char16_t c);
bool isTone (char16_t c);
bool isWord (char16_t c);           // part of a Thai word
bool isToken (char16_t c);          // word character or period
bool isStart (char16_t c);          // can begin a syllable
char initSound (char16_t c);        // k c g j J ...
char initClass (char16_t c);        // 'm', 'h', 'l' (sonorant), 'p' (paired low)
char finalSound (char16_t c);       // k t p g n m y w or _
bool isShort (char vowel);
char spokenTone (char cls, char written, bool dead, bool shortV);   // '0'..'4'

struct Edge {
    int         from, to;
    std::string label;              // raw code with end position
    bool operator< (const Edge& o) const {
        return from != o.from ? from < o.from : to != o.to ? to < o.to : label < o.label;
    }
    bool operator== (const Edge& o) const {
        return from == o.from && to == o.to && label == o.label;
    }
};

typedef std::map<U16, std::string> Lexicon;     // word -> alternatives

struct Stats { uint64_t states = 0, transitions = 0; };

// all edges on paths from 0 to the end of the text, sorted and unique
std::vector<Edge> analyse (const U16& text, const std::vector<int>& breaks,
                           const Lexicon* lexicon, Stats* stats = nullptr);

}

// set of label sequences along all complete paths from 0; false if over limit
bool pathLanguage (const std::vector<ref::Edge>& edges, size_t limit,
                   std::set<std::string>& out);
std::string showEdges (const std::vector<ref::Edge>& edges);

#endif
