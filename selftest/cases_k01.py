SP="src/core/analysis/score_processor.cc"; SH="src/core/analysis/score_processor.h"; CL="src/core/analysis/charlattice.cc"; LB="src/core/analysis/lattice_builder.cc"
DT="src/core/dic/darts_trie.cc"; EB="src/core/dic/entry_builder.cc"; FI="src/core/dic/field_import.cc"; SC="src/core/spec/spec_compiler.cc"; PT="src/core/training/partial_trainer.cc"
PB="src/jumandic/shared/jumanpp_pb_format.cc"; LF="src/jumandic/shared/lattice_format.cc"; LC="src/core/analysis/lattice_config.h"; CT="src/core/core_types.h"; JI="src/jumandic/shared/jumandic_id_resolver.h"; BH="src/core/analysis/lattice_builder.h"; RI="src/core/analysis/rnn_id_resolver.h"; DB="src/core/dic/dic_build_detail.cc"; RS="src/core/analysis/rnn_scorer.cc"
CASES=[
("k01_heap_ge","K01",[(SH,"return left.totalScore > right.totalScore;","return left.totalScore >= right.totalScore;")]),
("k01_heap_less","K01",[(SH,"return left.totalScore > right.totalScore;","return left.totalScore < right.totalScore;")]),
("k01_heap_swapargs","K01",[(SH,"if (compare(item, tip)) {","if (compare(tip, item)) {")]),
("k01_heap_neg","none",[(SH,"if (compare(item, tip)) {","if (item.totalScore > tip.totalScore) {")]),
("k01_heap_early","none",[(SH,"    if (compare(item, tip)) {\n      std::pop_heap(elements_.begin(), elements_.end(), compare);\n      elements_.back() = item;\n      std::push_heap(elements_.begin(), elements_.end(), compare);\n    }","    if (!compare(item, tip)) {\n      return;\n    }\n    std::pop_heap(elements_.begin(), elements_.end(), compare);\n    elements_[elements_.size() - 1] = item;\n    std::push_heap(elements_.begin(), elements_.end(), compare);")]),
("k01_heap_front","none",[(SH,"    auto& tip = elements_[0];\n    if (compare(item, tip)) {","    if (compare(item, elements_.front())) {"),(SH,"class EntryBeam {","class EntryBeam {")]),
("k01_heap_ptr","K01",[(SH,"return left.totalScore > right.totalScore;","return left.ptr.previous > right.ptr.previous;")]),
("k01_heap_order","K01",[(SH,"      elements_.back() = item;\n      std::push_heap(elements_.begin(), elements_.end(), compare);","      std::push_heap(elements_.begin(), elements_.end(), compare);\n      elements_.back() = item;")]),
("k01_heap_finalize","K01",[(SH,"    std::sort_heap(elements_.begin(), elements_.end(), compare);","    std::sort_heap(elements_.begin(), elements_.end(),\n                   [](const ConnectionBeamElement& a,\n                      const ConnectionBeamElement& b) {\n                     return a.totalScore < b.totalScore;\n                   });")]),
("k01_heap_lambda","none",[(SH,"    std::sort_heap(elements_.begin(), elements_.end(), compare);","    std::sort_heap(elements_.begin(), elements_.end(), &EntryBeam::compare);")]),
("k01_t0_asc","K01",[(SP,"return scores[i1] > scores[i2]; };","return scores[i1] < scores[i2]; };")]),
("k01_t0_ge","K01",[(SP,"return scores[i1] > scores[i2]; };","return scores[i1] >= scores[i2]; };")]),
("k01_t0_idx","K01",[(SP,"return scores[i1] > scores[i2]; };","return scores[i1] > scores[i1]; };")]),
("k01_t0_tie","none",[(SP,"return scores[i1] > scores[i2]; };","return scores[i2] < scores[i1] ||\n           (scores[i1] == scores[i2] && i1 < i2);\n  };")]),
("k01_t0_or","K01",[(SP,"return scores[i1] > scores[i2]; };","return scores[i1] > scores[i2] || i1 < i2; };")]),
("k01_t0_otherorder","K01",[(SP,"  std::sort(idxes.begin(), itr, comp);","  std::sort(idxes.begin(), itr,\n            [&scores](u32 a, u32 b) { return scores[b] > scores[a]; });")]),
("k01_t0_same","none",[(SP,"  std::sort(idxes.begin(), itr, comp);","  std::sort(idxes.begin(), itr,\n            [&scores](u32 a, u32 b) { return scores[b] < scores[a]; });")]),
("k01_part_bound","K01",[(SP,"  auto partitionBoundary = maxBeam * 4 / 3;","  auto partitionBoundary = maxBeam * 3 / 4;")]),
("k01_part_guard","K01",[(SP,"  if (idxes.size() > partitionBoundary) {","  if (idxes.size() > maxBeam) {")]),
("k01_part_swap","K01",[(SP,"comp, maxBeam, partitionBoundary);","comp, partitionBoundary, maxBeam);")]),
("k01_part_ge","none",[(SP,"  if (idxes.size() > partitionBoundary) {","  if (idxes.size() >= partitionBoundary) {")]),
("k01_part_half","K01",[(SP,"                                maxBeam, maxElems);","                                maxBeam / 2, maxElems);")]),
("k01_cut_asc","K01",[(SP,"return cutoffScores.at(a) > cutoffScores.at(b);","return cutoffScores.at(b) > cutoffScores.at(a);")]),
("k01_cands_less","K01",[(SP,"auto comp = std::greater<>();","auto comp = std::less<>();")]),
("k01_cands_lambda","none",[(SP,"auto comp = std::greater<>();","auto comp = [](const BeamCandidate &a, const BeamCandidate &b) {\n    return b < a;\n  };")]),
("k01_cand_op","K01",[(SH,"    return data_ > o.data_;","    return data_ >= o.data_;")]),
("k01_cand_score","none",[(SH,"    return data_ > o.data_;","    return score() > o.score();")]),
("k01_pack_or","K01",[(SH,"~value : value ^ 0x8000'0000;\n    return (static","~value : value & 0x7fff'ffff;\n    return (static")]),
("k01_pack_or2","none",[(SH,"~value : value ^ 0x8000'0000;\n    return (static","~value : value | 0x8000'0000;\n    return (static")]),
("k01_pack_neg","K01",[(SH,"value = ((value & 0x8000'0000) != 0) ? ~value : value ^ 0x8000'0000;\n    return (static","value = value ^ 0x8000'0000;\n    return (static"),(SH,"value = ((value & 0x8000'0000) == 0) ? ~value : value ^ 0x8000'0000;","value = value ^ 0x8000'0000;")]),
("k01_pack_swap","K01",[(SH,"(left << 16) | beam","(beam << 16) | left")]),
("k01_pack_swap2","none",[(SH,"(left << 16) | beam","(beam << 16) | left"),(SH,"u16 left() const noexcept { return static_cast<u16>(data_ >> 16); }","u16 left() const noexcept { return static_cast<u16>(data_); }"),(SH,"u16 beam() const noexcept { return static_cast<u16>(data_); }","u16 beam() const noexcept { return static_cast<u16>(data_ >> 16); }")]),
("k01_unpack","K01",[(SH,"value = ((value & 0x8000'0000) == 0) ?","value = ((value & 0x8000'0000) != 0) ?")]),
("k01_cl_sort","K01",[(CL,"    return c1.end < c2.end;\n  });","    return c1.start < c2.start;\n  });")]),
("k01_cl_lex","K01",[(CL,"    auto v1 = c1.end == c2.end;\n    if (v1) {\n      return c1.entryPtr.rawValue() < c2.entryPtr.rawValue();\n    }\n    return c1.end < c2.end;","    return c1.end < c2.end && c1.entryPtr.rawValue() < c2.entryPtr.rawValue();")]),
("k01_cl_onlyptr","K01",[(CL,"return c1.entryPtr == c2.entryPtr && c1.end == c2.end;","return c1.entryPtr == c2.entryPtr;")]),
("k01_cl_tie","none",[(CL,"    auto v1 = c1.end == c2.end;\n    if (v1) {\n      return c1.entryPtr.rawValue() < c2.entryPtr.rawValue();\n    }\n    return c1.end < c2.end;","    if (c1.end < c2.end) return true;\n    if (c2.end < c1.end) return false;\n    return c1.entryPtr.rawValue() < c2.entryPtr.rawValue();")]),
("k01_cl_sort1","K01",[(CL,"    auto v1 = c1.end == c2.end;\n    if (v1) {\n      return c1.entryPtr.rawValue() < c2.entryPtr.rawValue();\n    }\n    return c1.end < c2.end;","    return c1.end < c2.end;")]),
("k01_cl_nosort","K01",[(CL,"  util::sort(result_, [](const CLResult& c1","  auto order = ([](const CLResult& c1"),]),
("k01_darts","K01",[(DT,"if (cmp == 0) return l.key.size() < r.key.size();","if (cmp == 0) return l.key.size() <= r.key.size();")]),
("k01_darts_neg","none",[(DT,"return cmp < 0;","return cmp <= 0;")]),
("k01_darts_swap","K01",[(DT,"if (cmp == 0) return l.key.size() < r.key.size();","if (cmp == 0) return l.key.size() < l.key.size();")]),
("k01_darts_if","none",[(DT,"              if (cmp == 0) return l.key.size() < r.key.size();\n              return cmp < 0;","              if (cmp != 0) {\n                return cmp < 0;\n              }\n              return r.key.size() > l.key.size();")]),
("k01_eb","K01",[(EB,"return p1->order < p2->order;","return p1->order <= p2->order;")]),
("k01_eb_addr","K01",[(EB,"return p1->order < p2->order;","return p1 < p2;")]),
("k01_fi","K01",[(FI,"return p1.first < p2.first;","return p1.first < p2.second;")]),
("k01_db","K01",[(DB,"i32 modIdx2 = f2.dicIndex","i32 modIdx2 = f1.dicIndex")]),
("k01_sc_local","K01",[(SC,"auto s2 = (scoreForUsage(i2) << 16) + i2->number;","auto s2 = (scoreForUsage(i2) << 16) + i1->number;")]),
("k01_sc_le","K01",[(SC,"return k1 < k2;","return k1 <= k2;")]),
("k01_pt","K01",[(PT,"return f1.feature < f2.feature;","return f1.feature < f2.score;")]),
("k01_pb","K01",[(PB,"                if (p1.boundary == p2.boundary) {\n                  return p1.position < p2.position;\n                }\n                return p1.boundary < p2.boundary;","                if (p1.boundary == p2.boundary) {\n                  return p1.position < p2.position;\n                }\n                return p1.boundary <= p2.position;")]),
("k01_lf_or","K01",[(LF,"              if (v1.nodePtr().boundary == v2.nodePtr().boundary) {\n                return v1.nodePtr().position < v2.nodePtr().position;\n              }\n              return v1.nodePtr().boundary < v2.nodePtr().boundary;","              return v1.nodePtr().boundary < v2.nodePtr().boundary ||\n                     v1.nodePtr().position < v2.nodePtr().position;")]),
("k01_lf_tie","none",[(LF,"              if (v1.nodePtr().boundary == v2.nodePtr().boundary) {\n                return v1.nodePtr().position < v2.nodePtr().position;\n              }\n              return v1.nodePtr().boundary < v2.nodePtr().boundary;","              const auto n1 = v1.nodePtr();\n              const auto n2 = v2.nodePtr();\n              return std::tie(n1.boundary, n1.position) <\n                     std::tie(n2.boundary, n2.position);"),(LF,"#include \"lattice_format.h\"","#include \"lattice_format.h\"\n#include <tuple>")]),
("k01_lf_max","K01",[(LF,"return total1 < total2;","return total1 > total2;")]),
("k01_lf_total","K01",[(LF,"total2 += s2[i] * weights[i];","total2 += s1[i] * weights[i];")]),
("k01_lf_max2","none",[(LF,"return total1 < total2;","return total2 > total1;")]),
("k01_eq_node","K01",[(BH,"a1.codepointStart == a2.codepointStart &&","a1.codepointStart == a1.codepointStart &&")]),
("k01_eq_drop","K01",[(BH,"  return a1.entryPtr == a2.entryPtr && a1.codepointStart == a2.codepointStart &&","  return a1.entryPtr == a2.entryPtr &&")]),
("k01_eq_conn","K01",[(LC,"p1.right == p2.right && p1.beam == p2.beam;","p1.right == p2.right;")]),
("k01_eq_ne","none",[(LC,"p1.right == p2.right && p1.beam == p2.beam;","p1.right == p2.right && !(p1.beam != p2.beam);")]),
("k01_eq_entry","K01",[(CT,"constexpr inline bool operator==(const EntryPtr& o) const {\n    return value_ == o.value_;","constexpr inline bool operator==(const EntryPtr& o) const {\n    return value_ == value_;")]),
("k01_eq_rnn","K01",[(RS," && rnnFields == other.rnnFields &&"," &&")]),
]
