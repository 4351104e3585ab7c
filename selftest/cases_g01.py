"""G01: one value of a feature on every route"""
H = "src/core/impl/feature_impl_ngram_partial.h"
C = "src/core/impl/feature_impl_ngram_partial.cc"
K = "src/core/impl/feature_impl_ngram_partial_kernels.h"
COMB = "src/core/impl/feature_impl_combine.h"
COMBC = "src/core/impl/feature_impl_combine.cc"
PC = "src/core/codegen/pattern_feature_codegen.cc"
NC = "src/core/codegen/ngram_feature_codegen.cc"
PP = "src/core/codegen/partial_ngram_feature_codegen.cc"
PI = "src/core/impl/feature_impl_pattern.h"
PE = "src/core/analysis/perceptron.h"
SC = "src/core/spec/spec_compiler.cc"
FC = "src/core/impl/feature_impl_compute.cc"
SP = "src/core/analysis/score_processor.cc"

CASES = [
    ("g01-bi-length", "G01", [(H, "static constexpr u64 TotalHashArgs = 4;", "static constexpr u64 TotalHashArgs = 5 ;")]),
    ("g01-tri-seed", "G01", [(H, "auto v = Hasher{}.mix(TotalHashArgs).mix(index_).mix(TrigramSeed).mix(t0v);\n    return raw23",
                                "auto v = Hasher{}.mix(TotalHashArgs).mix(index_).mix(BigramSeed).mix(t0v);\n    return raw23")]),
    ("g01-bi-joint-target", "G01", [(H, "u32 r = jointRaw(t0, t1, mask);\n    result.at(target_) = r;", "u32 r = jointRaw(t0, t1, mask);\n    result.at(index_) = r;")]),
    ("g01-bi-joint-swapped", "G01", [(H, "u32 r = jointRaw(t0, t1, mask);", "u32 r = jointRaw(t1, t0, mask);")]),
    ("g01-bi-joint-idx", "G01", [(H, "auto t0v = t0.at(t0idx_);\n    auto v = Hasher{}.mix(TotalHashArgs).mix(index_).mix(BigramSeed)",
                                    "auto t0v = t0.at(t1idx_);\n    auto v = Hasher{}.mix(TotalHashArgs).mix(index_).mix(BigramSeed)")]),
    ("g01-raw23-order", "G01", [(H, "auto v = Hasher{state}.mix(t1v).mix(t2v);", "auto v = Hasher{state}.mix(t2v).mix(t1v);")]),
    ("g01-uni-target-for-index", "G01", [(H, "auto v = Hasher{}.mix(TotalHashArgs).mix(index_).mix(UnigramSeed).mix(t0);", "auto v = Hasher{}.mix(TotalHashArgs).mix(target_).mix(UnigramSeed).mix(t0);")]),
    ("g01-tri-step1-state", "G01", [(H, "auto t1 = patterns.at(t1idx_);\n    auto s = state.at(target_);\n    auto v = Hasher{s}.mix(t1);\n    result.at(target_) = v.result();",
                                       "auto t1 = patterns.at(t1idx_);\n    auto s = state.at(index_);\n    auto v = Hasher{s}.mix(t1);\n    result.at(target_) = v.result();")]),
    ("g01-uni-row", "G01", [(H, "      result.at(row - 1) =\n          analysis::impl::computeUnrolled4RawPerceptron(weights, buf1);\n    }\n\n    result.at(row - 1) =",
                               "      result.at(row) =\n          analysis::impl::computeUnrolled4RawPerceptron(weights, buf1);\n    }\n\n    result.at(row - 1) =")]),
    ("g01-bi-buf", "G01", [(H, "child().biStep1(p1, state.row(0), mask, weights, buf2);\n    // do other rows\n    u32 row = 1;\n    for (; row < state.numRows(); ++row) {\n      auto srow = state.row(row);\n      child().biStep1(p1, srow, mask, weights, buf1);\n      buf1.swap(buf2);\n      result.at(row - 1) +=\n          analysis::impl::computeUnrolled4RawPerceptron(weights, buf1);",
                              "child().biStep1(p1, state.row(0), mask, weights, buf2);\n    // do other rows\n    u32 row = 1;\n    for (; row < state.numRows(); ++row) {\n      auto srow = state.row(row);\n      child().biStep1(p1, srow, mask, weights, buf1);\n      buf1.swap(buf2);\n      result.at(row - 1) +=\n          analysis::impl::computeUnrolled4RawPerceptron(weights, buf2);")]),
    ("g01-tri-noswap", "G01", [(H, "child().triStep2(p2, srow, mask, weights, buf1);\n      buf1.swap(buf2);", "child().triStep2(p2, srow, mask, weights, buf1);")]),
    ("g01-bitri-t1row", "G01", [(H, "child().triFull(t0, t1.row(t1idxes.at(0)), t2.row(0), mask, weights, buf2);", "child().triFull(t0, t1.row(0), t2.row(0), mask, weights, buf2);")]),
    ("g01-bitri-t1row-loop", "G01", [(H, "auto t1v = t1.row(t1idxes.at(row));\n      auto t2v = t2.row(row);\n      child().triFull", "auto t1v = t1.row(t1idxes.at(row - 1));\n      auto t2v = t2.row(row);\n      child().triFull")]),
    ("g01-bitri-copy", "G01", [(H, "result.at(i) = scbuf.at(t1idxes.at(i));", "result.at(i) = scbuf.at(i);")]),
    ("g01-tri-width", "G01", [(H, "auto state = buffers->t2Buf1(child().numTrigrams(), numElems);\n    auto result = buffers->t2Buf2(child().numTrigrams(), numElems);",
                                 "auto state = buffers->t2Buf1(child().numBigrams(), numElems);\n    auto result = buffers->t2Buf2(child().numTrigrams(), numElems);")]),
    ("g01-tri-buf", "G01", [(H, "auto state = buffers->t2Buf2(numTrigrams, numElems);", "auto state = buffers->t2Buf1(numTrigrams, numElems);")]),
    ("g01-add-refs", "G01", [(C, "bigrams_.emplace_back(bigrams_.size(), nf.index, args[0], args[1]);", "bigrams_.emplace_back(bigrams_.size(), nf.index, args[1], args[0]);")]),
    ("g01-add-target", "G01", [(C, "trigrams_.emplace_back(trigrams_.size(), nf.index, args[0], args[1],", "trigrams_.emplace_back(bigrams_.size(), nf.index, args[0], args[1],")]),
    ("g01-add-number", "G01", [(C, "unigrams_.emplace_back(unigrams_.size(), nf.index, args[0]);", "unigrams_.emplace_back(nf.index, unigrams_.size(), args[0]);")]),
    ("g01-bifull-order", "G01", [(C, "auto idx = bi.jointApply(t0, t1, result, mask);", "auto idx = bi.jointApply(t1, t0, result, mask);")]),
    ("g01-trifull-order", "G01", [(C, "auto idx = tri.jointApply(t0, t1, t2, result, mask);", "auto idx = tri.jointApply(t0, t2, t1, result, mask);")]),
    ("g01-tristep-over-bi", "G01", [(C, "  for (auto& tri : trigrams_) {\n    tri.step0(patterns, state);\n  }", "  for (auto& tri : bigrams_) {\n    tri.step0(patterns, state);\n  }")]),
    ("g01-kernel-state", "G01", [(K, "auto v1 = Hasher{biState.at(f)}.mix(t1v1).masked(mask);\n      weights.prefetch<util::PrefetchHint::PREFETCH_HINT_T0>(v1);\n      buf1.at(f) = v1;\n      r1 += weights.at(buf2.at(f));\n      f += 1;",
                                    "auto v1 = Hasher{triState.at(f)}.mix(t1v1).masked(mask);\n      weights.prefetch<util::PrefetchHint::PREFETCH_HINT_T0>(v1);\n      buf1.at(f) = v1;\n      r1 += weights.at(buf2.at(f));\n      f += 1;")]),
    ("g01-kernel-tri-order", "G01", [(K, "auto v1 = Hasher{triState.at(f)}.mix(t1v1).mix(t2v1).masked(mask);\n      weights.prefetch<util::PrefetchHint::PREFETCH_HINT_T0>(v1);\n      tribuf1.at(f) = v1;\n      r1 += weights.at(tribuf2.at(f));\n      f += 1;",
                                        "auto v1 = Hasher{triState.at(f)}.mix(t2v1).mix(t1v1).masked(mask);\n      weights.prefetch<util::PrefetchHint::PREFETCH_HINT_T0>(v1);\n      tribuf1.at(f) = v1;\n      r1 += weights.at(tribuf2.at(f));\n      f += 1;")]),
    ("g01-kernel-row", "G01", [(K, "result.at(triRow - 1) = scoreBuffer.at(t1idxes.at(triRow - 1)) + r1 + r2;", "result.at(triRow - 1) = scoreBuffer.at(t1idxes.at(triRow)) + r1 + r2;")]),
    ("g01-kernel-t1row", "G01", [(K, "auto t1row = t1pats.row(t1idxes.at(triRow));", "auto t1row = t1pats.row(triRow);")]),
    ("g01-kernel-lastrow", "G01", [(K, "scoreBuffer.at(t1idxes.at(triRow - 1)) +\n      analysis", "scoreBuffer.at(triRow - 1) +\n      analysis")]),
    ("g01-kernel-feats", "G01", [(K, "auto t2v1 = t2row.at(t2FeaturesTri.at(f));\n      auto v1 = Hasher{triState.at(f)}.mix(t1v1).mix(t2v1).masked(mask);\n      weights.prefetch<util::PrefetchHint::PREFETCH_HINT_T0>(v1);\n      tribuf1.at(f) = v1;\n      r1 += weights.at(tribuf2.at(f));\n    }",
                                    "auto t2v1 = t2row.at(t1FeaturesTri.at(f));\n      auto v1 = Hasher{triState.at(f)}.mix(t1v1).mix(t2v1).masked(mask);\n      weights.prefetch<util::PrefetchHint::PREFETCH_HINT_T0>(v1);\n      tribuf1.at(f) = v1;\n      r1 += weights.at(tribuf2.at(f));\n    }")]),
    ("g01-kernel-row-off", "G01", [(K, "scoreBuffer.at(biRow - 1) = r1 + r2;", "scoreBuffer.at(biRow) = r1 + r2;")]),
    ("g01-cg-ref", "G01", [(PP, "p << bi.spec().references[1] << \", \";", "p << bi.spec().references[0] << \", \";")]),
    ("g01-cg-tri-ref", "G01", [(PP, "p << tri.spec().references[2] << \", \";", "p << tri.spec().references[1] << \", \";")]),
    ("g01-cg-args", "G01", [(PP, "p << \"\\nt1TriFeatureIdxes,\";\n      p << \"\\nt2TriFeatureIdxes,\";", "p << \"\\nt2TriFeatureIdxes,\";\n      p << \"\\nt1TriFeatureIdxes,\";")]),
    ("g01-cg-target", "G01", [(NC, "if (nf.references.size() == ngram.references.size()) {\n      target_ += 1;\n    }", "if (nf.references.size() <= ngram.references.size()) {\n      target_ += 1;\n    }")]),
    ("g01-cg-order", "G01", [(NC, "p << JPP_TEXT(::jumanpp::core::features::impl::TrigramFeature) << \" \"\n        << name_ << \"{\" << target_ << \", \" << ngram_.index << \", \"\n        << ngram_.references[0] << \", \" << ngram_.references[1] << \", \"\n        << ngram_.references[2] << \"};\";",
                                "p << JPP_TEXT(::jumanpp::core::features::impl::TrigramFeature) << \" \"\n        << name_ << \"{\" << target_ << \", \" << ngram_.index << \", \"\n        << ngram_.references[0] << \", \" << ngram_.references[2] << \", \"\n        << ngram_.references[1] << \"};\";")]),
    ("g01-cg-pattern-seed", "G01", [(PC, "<< features::impl::PatternFeatureSeed << \"ULL);\";", "<< features::impl::UnigramSeed << \"ULL);\";")]),
    ("g01-cg-pattern-count", "G01", [(PC, "<< pat.index << \"ULL).mix(\" << pat.references.size() << \"ULL).mix(\"", "<< pat.index << \"ULL).mix(\" << pat.references.size() + 1 << \"ULL).mix(\"")]),
    ("g01-cg-branches", "G01", [(PC, "for (auto pf : cfd.falseBranch) {\n        p << \".mix(\"", "for (auto pf : cfd.trueBranch) {\n        p << \".mix(\"")]),
    ("g01-cg-cond", "G01", [(PC, "<< \" != 0) {\";", "<< \" == 0) {\";")]),
    ("g01-cg-prim-class", "G01", [(PC, "p << JPP_TEXT(CodepointTypeFeatureImpl) << \" \" << name << \"{\"", "p << JPP_TEXT(CodepointFeatureImpl) << \" \" << name << \"{\"")]),
    ("g01-cg-bit-args", "G01", [(PC, "<< pfd.references[0] << \", \" << pfd.references[1] << \", 0x1};\";", "<< pfd.references[1] << \", \" << pfd.references[0] << \", 0x1};\";")]),
    ("g01-cg-usage", "G01", [(PC, "if (pat.usage != 1) {", "if (pat.usage == 2) {")]),
    ("g01-cg-publish", "G01", [(PC, "p << \"\\n  scores.at(item - 1) = score_part_0\";", "p << \"\\n  scores.at(item) = score_part_0\";")]),
    ("g01-cg-sum", "G01", [(PC, "for (int var = 1; var < numVars; ++var) {\n    p << \" + score_part_\" << var;", "for (int var = 2; var < numVars; ++var) {\n    p << \" + score_part_\" << var;")]),
    ("g01-cg-state-buf", "G01", [(PC, "ngramCodegen.triStep0(p, \"patterns\", \"t2row\");", "ngramCodegen.triStep0(p, \"patterns\", \"t1row\");")]),
    ("g01-dyn-pattern-seed", "G01", [(PI, "Hasher{}.mix(u32idx).mix(compute_.size()).mix(PatternFeatureSeed);", "Hasher{}.mix(compute_.size()).mix(u32idx).mix(PatternFeatureSeed);")]),
    ("g01-dyn-adapter", "G01", [(COMBC, "nf.index, nf.references[0], nf.references[1], nf.references[2]});", "nf.index, nf.references[0], nf.references[2], nf.references[1]});")]),
    ("g01-spec-hash", "G01", [("src/core/features_api.cc", "if (dicHash == sff->runtimeHash()) {", "if (dicHash != 0) {")]),
    # behaviour kept
    ("g01-ok-rename", "none", [(H, "auto t1v = t1.at(t1idx_);\n    auto v = Hasher{state}.mix(t1v);\n    return v.masked(mask);", "auto pat = t1.at(t1idx_);\n    Hasher h{state};\n    return h.mix(pat).masked(mask);")]),
    ("g01-ok-inline-joint", "none", [(H, "u32 r = jointRaw(t0, t1, mask);\n    result.at(target_) = r;\n    return r;", "result.at(target_) = jointRaw(t0, t1, mask);\n    return result.at(target_);")]),
    ("g01-ok-loop", "none", [(C, "  for (auto& bi : bigrams_) {\n    bi.step0(patterns, state);\n  }", "  for (size_t i = 0; i < bigrams_.size(); ++i) {\n    bigrams_[i].step0(patterns, state);\n  }")]),
    ("g01-ok-helper", "none", [(C, "namespace impl {\n\nStatus", "namespace impl {\nnamespace {\ninline void hint(analysis::WeightBuffer& weights, u32 idx) {\n  weights.prefetch<util::PrefetchHint::PREFETCH_HINT_T2>(idx);\n}\n}\n\nStatus"),
                               (C, "auto idx = bi.step1(patterns, state, result, mask);\n    weights.prefetch<util::PrefetchHint::PREFETCH_HINT_T2>(idx);", "hint(weights, bi.step1(patterns, state, result, mask));")]),
    ("g01-ok-uni-loop", "none", [(H, "    for (; row < p0.numRows(); ++row) {\n      auto patterns = p0.row(row);\n      child().uniStep0(patterns, mask, weights, buf1);\n      buf1.swap(buf2);\n      result.at(row - 1) =\n          analysis::impl::computeUnrolled4RawPerceptron(weights, buf1);\n    }",
                                  "    while (row < p0.numRows()) {\n      child().uniStep0(p0.row(row), mask, weights, buf1);\n      buf1.swap(buf2);\n      float score = analysis::impl::computeUnrolled4RawPerceptron(weights, buf1);\n      result.at(row - 1) = score;\n      row += 1;\n    }")]),
    ("g01-ok-simple-rows", "none", [(H, "    // do row 0\n    child().uniStep0(p0.row(0), mask, weights, buf2);\n    // do other rows\n    u32 row = 1;\n    for (; row < p0.numRows(); ++row) {\n      auto patterns = p0.row(row);\n      child().uniStep0(patterns, mask, weights, buf1);\n      buf1.swap(buf2);\n      result.at(row - 1) =\n          analysis::impl::computeUnrolled4RawPerceptron(weights, buf1);\n    }\n\n    result.at(row - 1) =\n        analysis::impl::computeUnrolled4RawPerceptron(weights, buf2);",
                                     "    for (u32 row = 0; row < p0.numRows(); ++row) {\n      child().uniStep0(p0.row(row), mask, weights, buf1);\n      result.at(row) =\n          analysis::impl::computeUnrolled4RawPerceptron(weights, buf1);\n    }\n    (void)buf2;")]),
    ("g01-ok-kernel-single", "none", [(K, "if (JPP_LIKELY(biRow > 0)) {\n      scoreBuffer.at(biRow - 1) = r1 + r2;\n    }", "float rowScore = r1 + r2;\n    if (JPP_LIKELY(biRow > 0)) {\n      const int prev = biRow - 1;\n      scoreBuffer.at(prev) = rowScore;\n    }")]),
    ("g01-ok-emit", "none", [(PC, "      for (auto pf : cfd.trueBranch) {\n        p << \".mix(\" << primitiveNames_[pf] << \")\";\n      }", "      const auto& whenTrue = cfd.trueBranch;\n      for (auto pf : whenTrue) {\n        const auto& nm = primitiveNames_[pf];\n        p << \".mix(\" << nm << \")\";\n      }")]),
    ("g01-ok-codegen-vars", "none", [(PC, "if (numUniPats >= 8) {\n    numVars = 4;", "if (numUniPats >= 8) {\n    numVars = 2;")]),
    ("g01-ok-adapter", "none", [(COMBC, "      children_.emplace_back(\n          new NgramFeatureDynamicAdapter<1>{nf.index, nf.references[0]});", "      const auto pattern = nf.references[0];\n      children_.emplace_back(\n          new NgramFeatureDynamicAdapter<1>{nf.index, pattern});")]),
    ("g01-sum-bound", "G01", [(PE, "for (i = 0; (i + 4) <= indices.size(); i += 4) {\n    r1 += weights.at(indices.at(i));", "for (i = 0; (i + 4) < indices.size(); i += 4) {\n    r1 += weights.at(indices.at(i));")]),
    ("g01-sum-dup", "G01", [(PE, "r3 += weights.at(indices.at(i + 2));\n    r4", "r3 += weights.at(indices.at(i + 1));\n    r4")]),
    ("g01-sum-return", "G01", [(PE, "  return r1 + r2 + r3 + r4;\n}\n}  // namespace impl", "  return r1 + r2 + r3;\n}\n}  // namespace impl")]),
    ("g01-sum-tail", "G01", [(PE, "case 2:\n      r2 += weights.at(indices.at(i + 1));", "case 2:\n      r2 += weights.at(indices.at(i + 1));\n      break;")]),
    ("g01-usage-order", "G01", [(SC, "case 0b101:  // uni + tri\n      return 1;", "case 0b101:  // uni + tri\n      return 101;")]),
    ("g01-usage-count", "G01", [(SC, "if (pat.usage == 0x1) {", "if (pat.usage & 0x1) {")]),
    ("g01-cut", "G01", [("src/core/analysis/analyzer_impl.cc", "static_cast<u32>(fspec.pattern.size() - fspec.numUniOnlyPats);\n  }\n\n  if", "static_cast<u32>(fspec.ngram.size() - fspec.numUniOnlyPats);\n  }\n\n  if")]),
    ("g01-expr-cond", "G01", [(FC, "if (check != 0) {", "if (check == 0) {")]),
    ("g01-expr-lists", "G01", [(FC, "false_.push_back(primitives[f].get());", "true_.push_back(primitives[f].get());")]),
    ("g01-dyn-number", "G01", [("src/core/impl/feature_impl_pattern.cc", "index_ = pfd.index;", "index_ = pfd.usage;")]),
    ("g01-dyn-prim", "G01", [("src/core/impl/feature_impl_pattern.cc", "new DynamicPrimitiveFeature<CodepointTypeFeatureImpl>{f.index}", "new DynamicPrimitiveFeature<CodepointFeatureImpl>{f.index}")]),
    ("g01-ok-sum-break", "none", [(PE, "case 1:\n      r1 += weights.at(indices.at(i));\n    case 0:\n    default:;  // noop", "case 1:\n      r1 += weights.at(indices.at(i));\n      break;\n    default:\n      break;")]),
    ("g01-ok-usage", "none", [(SC, "      info.usage |= (1 << (order - 1));", "      const auto bit = order - 1;\n      info.usage |= (1u << bit);")]),
    ("g01-ok-expr", "none", [(FC, "  auto check = condition_->access(ctx, nodeInfo, entry);\n  if (check != 0) {\n    for (auto f : true_) {\n      input = input.mix(f->access(ctx, nodeInfo, entry));\n    }\n  } else {\n    for (auto f : false_) {\n      input = input.mix(f->access(ctx, nodeInfo, entry));\n    }\n  }\n  return input;",
                              "  const auto& chosen = condition_->access(ctx, nodeInfo, entry) != 0 ? true_ : false_;\n  for (auto f : chosen) {\n    input = input.mix(f->access(ctx, nodeInfo, entry));\n  }\n  return input;")]),
]
