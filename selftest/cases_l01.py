D = "src/core/analysis/dictionary_node_creator.cc"
U = "src/core/analysis/unk_nodes_creator.cc"
UH = "src/core/analysis/unk_nodes_creator.h"
N = "src/core/analysis/numeric_creator.cc"
O = "src/core/analysis/onomatopoeia_creator.cc"
M = "src/core/analysis/normalized_node_creator.cc"
C = "src/core/analysis/charlattice.cc"
B = "src/core/analysis/lattice_builder.cc"
K = "src/core/analysis/unk_nodes.cc"
A = "src/core/analysis/analyzer_impl.cc"
L = "L01"
CASES = [
    ("l01-dic-end", L, [(D, "position + LatticePosition(1)", "position")]),
    ("l01-dic-begin", L, [(D, "lattice->appendSeed(dicEntries.currentPtr(), begin, end);", "lattice->appendSeed(dicEntries.currentPtr(), position, end);")]),
    ("l01-dic-from1", L, [(D, "for (LatticePosition begin = 0;", "for (LatticePosition begin = 1;")]),
    ("l01-dic-noleaf-stops", L, [(D, "status == TraverseStatus::NoNode", "status != TraverseStatus::Ok")]),
    ("l01-dic-nonode-goes-on", L, [(D, "        break;\n", "        continue;\n")]),
    ("l01-dic-ok-stops", L, [(D, "          lattice->appendSeed(dicEntries.currentPtr(), begin, end);\n        }\n", "          lattice->appendSeed(dicEntries.currentPtr(), begin, end);\n        }\n        break;\n")]),
    ("l01-dic-trav-outside", L, [(D, "  for (LatticePosition begin = 0;", "  auto trav = entries_.traversal();\n  for (LatticePosition begin = 0;"), (D, "    auto trav = entries_.traversal();\n\n    using", "    using")]),
    ("l01-dic-bound", L, [(D, "begin < totalPoints; ++begin", "begin + 1 < totalPoints - 1; ++begin")]),
    ("l01-chunk-class-break", L, [(U, "    if (!codept.hasClass(charClass_)) {\n      continue;\n    }\n\n    auto trav", "    if (!codept.hasClass(charClass_)) {\n      break;\n    }\n\n    auto trav")]),
    ("l01-chunk-noleaf-true", L, [(U, "          auto ptr = ctx->makePtr(input.surface(start, end), info_, false);\n          lattice->appendSeed(ptr, start, end);\n          break;\n        }\n        case TraverseStatus::Ok:\n          continue;\n      }\n    }\n  }",
                                   "          auto ptr = ctx->makePtr(input.surface(start, end), info_, true);\n          lattice->appendSeed(ptr, start, end);\n          break;\n        }\n        case TraverseStatus::Ok:\n          continue;\n      }\n    }\n  }")]),
    ("l01-chunk-nonode-false", L, [(U, "info_, true);", "info_, false);")]),
    ("l01-chunk-surface", L, [(U, "LatticePosition end = (LatticePosition)(j + 1);\n            auto ptr = ctx->makePtr(input.surface(start, end)", "LatticePosition end = (LatticePosition)(j + 1);\n            auto ptr = ctx->makePtr(input.surface(start, j)")]),

    ("l01-single-end", L, [(U, "      LatticePosition end = start;\n      ++end;\n", "      LatticePosition end = start;\n      end += 2;\n")]),
    ("l01-single-prefix-swapped", L, [(U, "          notPrefix = true;\n", "          notPrefix = false;\n")]),
    ("l01-single-ok-makes", L, [(U, "        case TraverseStatus::Ok:\n          continue;\n        case TraverseStatus::NoNode:\n          notPrefix", "        case TraverseStatus::Ok:\n        case TraverseStatus::NoNode:\n          notPrefix")]),
    ("l01-single-noleaf-skips", L, [(U, "          notPrefix = false;\n          break;\n", "          continue;\n")]),
    ("l01-single-class-inverted", L, [(U, "    if (!codept.hasClass(charClass_)) {\n      continue;\n    } else {", "    if (codept.hasClass(charClass_)) {\n      continue;\n    } else {")]),
    ("l01-make-no-fill", L, [(U, "  JPP_DCHECK_LT(node->header.unk.contentHash, 0);\n  conf.fillElems(data, hashValue);\n", "  JPP_DCHECK_LT(node->header.unk.contentHash, 0);\n")]),
    ("l01-make-placeholder-0", L, [(U, "  if (conf.targetPlaceholder != -1) {\n    xtra_->putPlaceholderData(node, conf.targetPlaceholder, (i32)notPrefix);", "  if (conf.targetPlaceholder > 0) {\n    xtra_->putPlaceholderData(node, conf.targetPlaceholder, (i32)notPrefix);")]),
    ("l01-make-placeholder-val", L, [(U, "conf.targetPlaceholder, feature);", "conf.targetPlaceholder, 0);")]),
    ("l01-match-any", L, [(U, "        goto nextWord;\n      }\n    }\n    return true;", "        goto nextWord;\n      }\n      return true;\n    }\n    return true;")]),
    ("l01-match-invert", L, [(U, "if (entryData.at(idx) != baseData.at(idx))", "if (entryData.at(idx) == baseData.at(idx))")]),
    ("l01-match-first", L, [(U, "        goto nextWord;", "        return false;")]),

    ("l01-pattern-inverted", L, [(U, "i) ==\n        replaceWithSurface.end())", "i) !=\n        replaceWithSurface.end())")]),
    ("l01-num-nonode", L, [(N, "          nonode = true;\n", "")]),
    ("l01-num-end", L, [(N, "          LatticePosition end = i + length;\n          auto ptr = ctx->makePtr(input.surface(start, end), info_, true);", "          LatticePosition end = i + length;\n          auto ptr = ctx->makePtr(input.surface(start, i + 1), info_, true);")]),
    ("l01-num-noleaf", L, [(N, "          auto ptr = ctx->makePtr(input.surface(start, end), info_, false);\n          lattice->appendSeed(ptr, start, end);\n          break;", "          auto ptr = ctx->makePtr(input.surface(start, end), info_, true);\n          lattice->appendSeed(ptr, start, end);\n          break;")]),
    ("l01-num-interfix-bound", L, [(N, "restLength > itemp.size() &&", "restLength >= itemp.size() &&")]),
    ("l01-num-suffix-bound", L, [(N, "restLength >= itemp.size()) {", "restLength + 1 >= itemp.size()) {")]),
    ("l01-num-period-bound", L, [(N, "posPeriod + 1 < codepoints.size()", "pos + 1 < codepoints.size()")]),
    ("l01-num-prefix-bound", L, [(N, "start + pos + itemp.size() < codepoints.size()", "start + pos + itemp.size() <= codepoints.size()")]),
    ("l01-num-comma-bound", L, [(N, "posComma + 1 + numContinuedFigure < codepoints.size()", "posComma + numContinuedFigure < codepoints.size()")]),
    ("l01-num-period-first", L, [(N, "  if (pos == 0) return 0;\n  if (!codepoints[posPeriod]", "  if (!codepoints[posPeriod]")]),
    ("l01-num-loop-bound", L, [(N, "pos <= MaxNumericLength && start + pos < codepoints.size()", "pos <= MaxNumericLength && start + pos <= codepoints.size()")]),
    ("l01-ono-end", L, [(O, "          case TraverseStatus::NoNode: {\n            LatticePosition start = i;\n            LatticePosition end = i + halfLen * LatticePosition(2);\n            auto ptr = ctx->makePtr(input.surface(start, end)", "          case TraverseStatus::NoNode: {\n            LatticePosition start = i;\n            LatticePosition end = i + halfLen * LatticePosition(2);\n            auto ptr = ctx->makePtr(input.surface(start, i + halfLen)")]),
    ("l01-ono-window", L, [(O, "(start + MinOnomatopoeiaLength) > codepoints.size()", "(start + MinOnomatopoeiaLength) >= codepoints.size()")]),
    ("l01-ono-window2", L, [(O, "(start + MinOnomatopoeiaLength) > codepoints.size()", "(start + MinOnomatopoeiaLength + 1) > codepoints.size()")]),
    ("l01-ono-none-break", L, [(O, "    if (pattern == Pattern::None) {\n      continue;", "    if (pattern == Pattern::None) {\n      break;")]),
    ("l01-ono-half-bound", L, [(O, "start + halfLen * 2 - 1 < codepoints.size()", "start + halfLen - 1 < codepoints.size()")]),
    ("l01-norm-noparse", L, [(M, "  cl.Parse(points);\n", "")]),
    ("l01-norm-span", L, [(M, "lattice->appendSeed(surface_ptr, begin, end);", "lattice->appendSeed(surface_ptr, begin, end - 1);")]),
    ("l01-norm-break", L, [(M, "    if (trav.lookupCandidatesFrom(begin)) {", "    if (!trav.lookupCandidatesFrom(begin)) break;\n    {")]),
    ("l01-cl-delete-step", L, [(C, "!n.hasType(Modifiers::DELETE)", "n.hasType(Modifiers::DELETE)")]),
    ("l01-cl-original-once", L, [(C, "    tryWalk(state, ch, Modifiers::ORIGINAL, true);", "    if (extraNodes.empty()) tryWalk(state, ch, Modifiers::ORIGINAL, true);")]),
    ("l01-cl-plain-found", L, [(C, "nst->allFlags != Modifiers::ORIGINAL", "nst->allFlags != Modifiers::EMPTY")]),
    ("l01-cl-nokeep", L, [(C, "  nst->lastStatus = status;\n", "  nst->lastStatus = status;\n  if (status == TraverseStatus::Ok) return;\n")]),
    ("l01-cl-laststatus", L, [(C, "  nst->lastStatus = status;\n", "")]),
    ("l01-cl-laststatus0", L, [(C, "  state->lastStatus = stat;\n", "")]),
    ("l01-cl-flags", L, [(C, "pState->allFlags | newFlag", "newFlag")]),
    ("l01-cl-deletelast", L, [(C, "ExistFlag(newFlag, Modifiers::DELETE)", "ExistFlag(newFlag, Modifiers::REPLACE)")]),
    ("l01-cl-len2", L, [(C, "LatticePosition length{1};", "LatticePosition length{2};")]),
    ("l01-cl-step-from", L, [(C, "auto step = start + 1;", "auto step = start + 2;")]),
    ("l01-cl-noswap", L, [(C, "    states2_.swap(states1_);\n    for", "    for")]),
    ("l01-cl-hatsuon-flag", L, [(C, "DELETE_HASTSUON", "DELETE_PROLONG")]),
    ("l01-cl-youon-flag", L, [(C, "add(pos, skipped, Modifiers::DELETE | Modifiers::DELETE_SMALLKANA);", "add(pos, skipped, Modifiers::REPLACE | Modifiers::REPLACE_SMALLKANA);")]),
    ("l01-cl-pre-notset", L, [(C, "Modifiers::DELETE_PROLONG);\n        nextPreIsDeleted = true;", "Modifiers::DELETE_PROLONG);")]),
    ("l01-cl-pre-notreset", L, [(C, "    nextPreIsDeleted = false;\n\n", "\n")]),
    ("l01-cl-pre-notcarried", L, [(C, "    preIsDeleted = nextPreIsDeleted;\n", "")]),
    ("l01-cl-map", L, [(C, "auto it2 = db.prolongedMapForErow.find", "auto it2 = db.prolongedMap.find")]),
    ("l01-cl-erow-noflag", L, [(C, "Modifiers::REPLACE | Modifiers::REPLACE_PROLONG |\n                  Modifiers::REPLACE_EROW_WITH_E", "Modifiers::REPLACE | Modifiers::REPLACE_PROLONG")]),
    ("l01-cl-lower-prev", L, [(C, "db.lower2upper.find(currentCp.codepoint)", "db.lower2upper.find(codepoints[pos - 1].codepoint)")]),
    ("l01-cl-hatsuon-pos0", L, [(C, "  if (pos == 0) return false;\n  bool isLastCharacter", "  bool isLastCharacter")]),
    ("l01-cl-choon-pos0", L, [(C, "if (pos > 0 && codepoints[pos].hasClass", "if (codepoints[pos].hasClass")]),
    ("l01-lb-startcount", L, [(B, "    boundaries_[seed.codepointStart].startCount++;\n", "    boundaries_[seed.codepointEnd].startCount++;\n")]),
    ("l01-lb-noendcount", L, [(B, "    boundaries_[seed.codepointEnd].endCount++;\n", "")]),
    ("l01-lb-eoscount", L, [(B, "  boundaries_[maxBoundaries_ - 1].startCount = 1;  // EOS", "  boundaries_[maxBoundaries_ - 1].endCount = 1;  // EOS")]),
    ("l01-lb-offset", L, [(B, "boundaries_[i - 1].firstNodeOffset + boundaries_[i - 1].startCount", "boundaries_[i - 1].firstNodeOffset + boundaries_[i].startCount")]),
    ("l01-lb-offset-end", L, [(B, "boundaries_[i - 1].firstNodeOffset + boundaries_[i - 1].startCount", "boundaries_[i - 1].firstNodeOffset + boundaries_[i - 1].endCount")]),
    ("l01-lb-connect-inverted", L, [(B, "    if (connectible[s.codepointStart]) {", "    if (!connectible[s.codepointStart]) {")]),
    ("l01-lb-connect-all", L, [(B, "    if (connectible[s.codepointStart]) {\n      connectible[s.codepointEnd] = true;\n    }", "    connectible[s.codepointEnd] = true;")]),
    ("l01-lb-connect-unsorted", L, [(B, "  sortSeeds();\n  connectible.clear();", "  connectible.clear();")]),
    ("l01-lb-connect-begin", L, [(B, "  connectible[0] = true;\n", "")]),
    ("l01-lb-order", L, [(B, "return l.codepointStart < r.codepointStart;", "return l.codepointEnd < r.codepointEnd;")]),
    ("l01-lb-slice", L, [(B, "util::ArraySlice<LatticeNodeSeed> seeds{seeds_, bndInfo.firstNodeOffset,\n                                          (u32)bndInfo.startCount};", "util::ArraySlice<LatticeNodeSeed> seeds{seeds_, bndInfo.firstNodeOffset,\n                                          (u32)bndInfo.endCount};")]),
    ("l01-lb-counts-swapped", L, [(B, "(u32)bndInfo.endCount,\n                            (u32)bndInfo.startCount}", "(u32)bndInfo.startCount,\n                            (u32)bndInfo.endCount}")]),
    ("l01-lb-seed-off", L, [(B, "    auto &seed = seeds[i];\n    entryData[i]", "    auto &seed = seeds[entryData.size() - 1 - i];\n    entryData[i]")]),
    ("l01-lb-bos2", L, [(B, "  JPP_RETURN_IF_ERROR(lattice->makeBoundary(bos2, &lb));\n  ctx->addBos(lb);\n", "  JPP_RETURN_IF_ERROR(lattice->makeBoundary(bos2, &lb));\n")]),
    ("l01-lb-eos-none", L, [(B, "  ctx->addEos(lb, eosIdx);\n", "")]),
    ("l01-lb-ends-erased", L, [(B, "    if (seed.codepointStart == seed.codepointEnd) {\n      continue;\n    }\n    u32 idx", "    u32 idx")]),
    ("l01-lb-ends-stop", L, [(B, "    if (seed.codepointStart == seed.codepointEnd) {\n      continue;\n    }\n    u32 idx", "    if (seed.codepointStart == seed.codepointEnd) {\n      break;\n    }\n    u32 idx")]),
    ("l01-lb-ends-start", L, [(B, "u32 idx = seed.codepointEnd + 2u;", "u32 idx = seed.codepointStart + 2u;")]),
    ("l01-lb-ends-shift", L, [(B, "(u16)(seed.codepointStart + 2)", "(u16)(seed.codepointStart + 1)")]),
    ("l01-lb-ends-offset", L, [(B, "auto binfo = boundaries_[seed.codepointStart];", "auto binfo = boundaries_[seed.codepointEnd];")]),
    ("l01-lb-ends-offset1", L, [(B, "i32 offset = i - binfo.firstNodeOffset;", "i32 offset = i - binfo.firstNodeOffset + 1;")]),
    ("l01-lb-ends-bos", L, [(B, "l->boundary(2)->addEnd(LatticeNodePtr{1, 0});", "l->boundary(2)->addEnd(LatticeNodePtr{0, 0});")]),
    ("l01-lb-bos-eos", L, [(B, "lb->starts()->nodeInfo()[0] = NodeInfo{EntryPtr::EOS(), position, position};", "lb->starts()->nodeInfo()[0] = NodeInfo{EntryPtr::BOS(), position, position};")]),
    ("l01-lb-compact-end", L, [(B, "boundaries_[s.codepointEnd].endCount -= 1;", "boundaries_[s.codepointStart].endCount -= 1;")]),
    ("l01-uf-stage", L, [(K, "          stage = &result->stage2;", "          stage = &result->stage1;")]),
    ("l01-uf-class", L, [(K, "              new SingleUnkMaker{entries", "              new ChunkingUnkMaker{entries")]),
    ("l01-uf-nopattern", L, [(K, "      cfg.fillPatternFields();\n", "")]),
    ("l01-uf-noreplace", L, [(K, "      util::copy_insert(x.replaceFields, cfg.replaceWithSurface);\n", "")]),
    ("l01-uf-order", L, [(K, "      util::copy_insert(x.replaceFields, cfg.replaceWithSurface);\n", ""), (K, "      cfg.fillPatternFields();\n", "      cfg.fillPatternFields();\n      util::copy_insert(x.replaceFields, cfg.replaceWithSurface);\n")]),
    ("l01-uf-noplace", L, [(K, "      JPP_RETURN_IF_ERROR(handlePrefixIndex(x, &cfg));\n", "")]),
    ("l01-uf-skip", L, [(K, "      auto eptr = EntryPtr{x.patternPtr};\n", "      if (x.replaceFields.empty()) continue;\n      auto eptr = EntryPtr{x.patternPtr};\n")]),
    ("l01-an-stage", L, [(A, "  for (auto& m : unk.stage2) {", "  for (auto& m : unk.stage1) {")]),
    ("l01-an-first-only", L, [(A, '      return Status::InvalidState() << "failed to create unk nodes";\n    }\n', '      return Status::InvalidState() << "failed to create unk nodes";\n    }\n    if (latticeBldr_.checkConnectability()) break;\n')]),
    ("l01-an-no-dic", L, [(A, "  JPP_RETURN_IF_ERROR(makeNodeSeedsFromDic());\n  JPP_RETURN_IF_ERROR(makeUnkNodes1());\n", "  JPP_RETURN_IF_ERROR(makeUnkNodes1());\n")]),
    ("l01-an-not-again", L, [(A, "    if (!checkLatticeConnectivity()) {\n      return Status::InvalidState() << \"could not build lattice\";\n    }\n  }\n", "  }\n")]),
    ("l01-an-always2", L, [(A, "  if (!checkLatticeConnectivity()) {\n    JPP_RETURN_IF_ERROR(makeUnkNodes2());\n    if", "  {\n    JPP_RETURN_IF_ERROR(makeUnkNodes2());\n    if")]),
    ("l01-an-early-check", L, [(A, "  JPP_RETURN_IF_ERROR(makeUnkNodes1());\n  if (!checkLatticeConnectivity()) {\n", "  if (!checkLatticeConnectivity()) {\n  JPP_RETURN_IF_ERROR(makeUnkNodes1());\n")]),
    ("l01-an-noprepare", L, [(A, "  JPP_RETURN_IF_ERROR(latticeBldr_.prepare());\n", "")]),
    # behaviour is the same
    ("l01-ok-dic-switch", "none", [(D, "      if (status == TraverseStatus::Ok) {", "      if (status == TraverseStatus::NoNode) break;\n      if (status != TraverseStatus::NoLeaf) {"), (D, " else if (status == TraverseStatus::NoNode) {\n        break;\n      }", "")]),
    ("l01-ok-dic-inline", "none", [(D, "        LatticePosition end = position + LatticePosition(1);\n", ""), (D, "dicEntries.currentPtr(), begin, end)", "dicEntries.currentPtr(), begin,\n                              static_cast<LatticePosition>(position + 1))")]),
    ("l01-ok-single-tern", "none", [(U, "      LatticePosition end = start;\n      ++end;\n", "      LatticePosition end = static_cast<LatticePosition>(i + 1);\n")]),
    ("l01-ok-single-if", "none", [(U, "      bool notPrefix;\n      switch (result) {\n        case TraverseStatus::Ok:\n          continue;\n        case TraverseStatus::NoNode:\n          notPrefix = true;\n          break;\n        case TraverseStatus::NoLeaf:\n          notPrefix = false;\n          break;\n      }\n", "      if (result == TraverseStatus::Ok) continue;\n      const bool notPrefix = result == TraverseStatus::NoNode;\n")]),
    ("l01-ok-num-merge", "none", [(N, "      if (nonode) status = TraverseStatus::NoNode;\n", "      status = nonode ? TraverseStatus::NoNode : status;\n")]),
    ("l01-ok-num-break", "none", [(N, "        if (status == TraverseStatus::NoNode) {\n          nonode = true;\n        }\n", "        if (status == TraverseStatus::NoNode) break;\n"), (N, "    bool nonode = false;\n", ""), (N, "      if (nonode) status = TraverseStatus::NoNode;\n", "")]),
    ("l01-ok-num-period", "none", [(N, "  if (posPeriod + 1 < codepoints.size() &&\n      codepoints[posPeriod + 1].hasClass(charClass_))\n    return 1;\n  return 0;", "  if (posPeriod + 1 >= codepoints.size()) return 0;\n  return codepoints[posPeriod + 1].hasClass(charClass_) ? 1 : 0;")]),
    ("l01-ok-num-period2", "none", [(N, "  if (posPeriod + 1 < codepoints.size() &&\n      codepoints[posPeriod + 1]", "  auto next = posPeriod + 1;\n  if (next < codepoints.size() &&\n      codepoints[next]")]),
    ("l01-ok-num-rest", "none", [(N, "restLength > itemp.size() &&", "restLength >= itemp.size() + 1 &&")]),
    ("l01-ok-cl-early", "none", [(C, "    if (nst->allFlags != Modifiers::ORIGINAL) {  // we have a result!", "    const bool changed = nst->allFlags != Modifiers::ORIGINAL;\n    if (changed) {")]),
    ("l01-ok-cl-isdelete", "none", [(C, "!n.hasType(Modifiers::DELETE)", "!n.isDelete()")]),
    ("l01-ok-cl-walk-tern", "none", [(C, "  TraverseStatus status;\n  if (doStep) {\n    status = nst->traversal.step(codepoint.bytes);\n  } else {\n    status = pState->lastStatus;\n  }", "  TraverseStatus status = pState->lastStatus;\n  if (doStep) status = nst->traversal.step(codepoint.bytes);")]),
    ("l01-ok-cl-isany", "none", [(C, "    preIsDeleted = nextPreIsDeleted;\n", "    std::swap(preIsDeleted, nextPreIsDeleted);\n")]),
    ("l01-ok-lb-for", "none", [(B, "  for (auto &seed : seeds_) {\n    boundaries_[seed.codepointStart].startCount++;\n    boundaries_[seed.codepointEnd].endCount++;\n  }", "  for (size_t k = 0; k < seeds_.size(); ++k) {\n    const auto &sd = seeds_[k];\n    auto &from = boundaries_[sd.codepointStart];\n    from.startCount += 1;\n    auto &to = boundaries_[sd.codepointEnd];\n    ++to.endCount;\n  }")]),
    ("l01-ok-lb-connect", "none", [(B, "    if (connectible[s.codepointStart]) {\n      connectible[s.codepointEnd] = true;\n    }", "    if (!connectible[s.codepointStart]) continue;\n    connectible[s.codepointEnd] = true;")]),
    ("l01-ok-lb-connect-or", "none", [(B, "    if (connectible[s.codepointStart]) {\n      connectible[s.codepointEnd] = true;\n    }", "    connectible[s.codepointEnd] =\n        connectible[s.codepointEnd] || connectible[s.codepointStart];")]),
    ("l01-ok-lb-ends", "none", [(B, "    i32 offset = i - binfo.firstNodeOffset;\n", "    i32 offset = i;\n    offset -= binfo.firstNodeOffset;\n")]),
    ("l01-ok-lb-ends-if", "none", [(B, "    if (seed.codepointStart == seed.codepointEnd) {\n      continue;\n    }\n    u32 idx", "    bool erased = seed.codepointStart == seed.codepointEnd;\n    if (erased) continue;\n    u32 idx")]),
    ("l01-ok-lb-running", "none", [(B, "    boundaries_[i].firstNodeOffset =\n        boundaries_[i - 1].firstNodeOffset + boundaries_[i - 1].startCount;", "    auto &prev = boundaries_[i - 1];\n    boundaries_[i].firstNodeOffset = prev.firstNodeOffset + prev.startCount;")]),
    ("l01-ok-an-nested", "none", [(A, "  if (!checkLatticeConnectivity()) {\n    JPP_RETURN_IF_ERROR(makeUnkNodes2());\n    if (!checkLatticeConnectivity()) {\n      return Status::InvalidState() << \"could not build lattice\";\n    }\n  }\n", "  bool ok = checkLatticeConnectivity();\n  if (!ok) {\n    JPP_RETURN_IF_ERROR(makeUnkNodes2());\n    ok = checkLatticeConnectivity();\n  }\n  if (!ok) {\n    return Status::InvalidState() << \"could not build lattice\";\n  }\n")]),
    ("l01-ok-match-helper", "none", [(U, "    for (auto idx : conf.patternFields) {\n      if (entryData.at(idx) != baseData.at(idx)) {\n        goto nextWord;\n      }\n    }\n    return true;\n  nextWord:;", "    bool same = true;\n    for (auto idx : conf.patternFields) {\n      if (entryData.at(idx) != baseData.at(idx)) {\n        same = false;\n        break;\n      }\n    }\n    if (same) return true;")]),
    ("l01-ok-chunk-start", "none", [(U, "            LatticePosition start = i;\n            LatticePosition end = (LatticePosition)(j + 1);\n            auto ptr = ctx->makePtr(input.surface(start, end), info_, true);\n            lattice->appendSeed(ptr, start, end);", "            auto stop = (LatticePosition)(j + 1);\n            lattice->appendSeed(\n                ctx->makePtr(input.surface(i, stop), info_, true), i, stop);")]),
]
