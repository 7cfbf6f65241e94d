// Bounded text spaces.
#ifndef MC_SPACES_H
#define MC_SPACES_H

#include "common.h"

typedef std::function<void (const U16&)> Put;

extern const U16 THAI;          // every character of Thai words
extern const U16 CONS;          // 44 consonants

// all spellings up to 3 (thorough: 4) characters over the whole alphabet
void spaceAllShort (const Put& put, int maxLen);
// longer spellings over representatives
void spaceRepresentatives (const Put& put, bool thorough);
// every pair of initial letters in every vowel frame
void spaceOnsets (const Put& put, bool thorough);
// every vowel frame with every final cluster and continuation
void spaceCodas (const Put& put, bool thorough);
// words of the segmentation library; with all single deviations if dev > 0
void spaceWords (const Put& put, size_t stride, int dev);
// long words, including ones over 100 characters
void spaceLong (const Put& put);
// texts with one or few readings, lengths around powers of two
void spaceScale (const Put& put, size_t maxLen);
// texts with many readings
void spaceAmbiguous (const Put& put, bool thorough);
// mixed texts
void spaceMixed (const Put& put, bool thorough);

#endif
