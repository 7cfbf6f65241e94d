// Access to the real code through the interfaces its programs use.
#ifndef MC_REAL_H
#define MC_REAL_H

#include "common.h"
#include "ref.h"

#include "parser/parser.h"
#include "lattice/pron-dag.h"
#include "lattice/lattice.h"
#include "output/sylout-thai.h"
#include "output/sylout-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#include "output/output-delim.h"
#include "output/output-roman.h"
#include "output/output-json.h"
#include "output/output-gjson.h"

// all edges of a graph, labelled by raw notation, sorted
std::vector<ref::Edge> realEdges (const PronunDAG& dag);

// compare what the code produced with what the model says;
// empty string if equivalent; positions: those of intermediate nodes count too
std::string compareEdges (const std::vector<ref::Edge>& real,
                          const std::vector<ref::Edge>& model,
                          bool positions = false);

// break positions of the segmentation library
std::vector<int> libBreaks (const U16& text);

// the word list of the segmentation library
const std::vector<std::string>& libWords();

// entries of the shipped exception data, merged as the build merges them
std::vector<std::pair<std::string, std::string>> shippedEntries();

// compile entries with the real compiler; returns path, dies on failure
std::string compileDict (const std::string& name, const std::string& source);

ref::Lexicon lexiconOf (const std::vector<std::pair<std::string, std::string>>& e);

// notations: 0 thai 1 roman 2 phonetic 3 raw 4 soundex
std::unique_ptr<ISylOutput> sylOutput (int notation);
// structures: 0 plain 1 json 2 grouped json; as the program sets them up
std::unique_ptr<IOutput> textOutput (int notation, int structure);

#endif
