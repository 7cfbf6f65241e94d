// Comparison of one analysis with the reference model.
#ifndef MC_JUDGE_H
#define MC_JUDGE_H

#include "real.h"

inline std::vector<ref::Edge>
judge (const Parser& p, const std::string& c, const std::vector<int>& brk,
       const ref::Lexicon* lex, Ctx& ctx, bool positions = false)
{
    ref::Stats st;
    auto model = ref::analyse (toU16 (c), brk, lex, &st);
    auto real = realEdges (p.parseWord (c));
    ctx.add ("model_states", st.states);
    ctx.add ("model_transitions", st.transitions);
    ctx.add (model.empty() ? "words_without_reading" : "words_with_reading");
    std::string sig;
    for (auto& e : model) sig += e.label.substr (0, e.label.rfind ('@')) + "|";
    ctx.see ("reading_sets", sig);
    if (model.size() > 4) ctx.sample (c);
    std::string d = compareEdges (real, model, positions);
    if (!d.empty())
        ctx.fail (d + "; model " + showEdges (model) + "; code " + showEdges (real));
    return real;
}

#endif
