G="src/core/training/gold_example.cc"; GH="src/core/training/gold_example.h"; PE="src/core/input/partial_example.cc"; PT="src/core/training/partial_trainer.cc"; L="src/core/training/loss.cc"; LH="src/core/training/loss.h"; UN="src/core/analysis/unk_nodes_creator.cc"
CASES=[
("y01_weight_inv","Y01",[(G,"    if (trainFld.weight == 0) {\n      continue;\n    }\n    auto latticeIdx = trainFld.dicIdx;\n    auto latVal","    if (trainFld.weight != 0) {\n      continue;\n    }\n    auto latticeIdx = trainFld.dicIdx;\n    auto latVal")]),
("y01_dic_break","Y01",[(G,"    if (ndata.at(trainFld.number) != entryBuffer[latticeIdx]) {\n      return false;\n    }","    if (ndata.at(trainFld.number) != entryBuffer[latticeIdx]) {\n      return false;\n    }\n    if (trainFld.weight > 1) return true;")]),
("y01_unk_nocheck","Y01",[(G,"      if (latVal != surfaceHash) {\n        return false;\n      }\n","")]),
("y01_unk_hash_swap","Y01",[(G,"    if (latVal < 0) {\n      if (latVal != surfaceHash)","    if (latVal >= 0) {\n      if (latVal != surfaceHash)")]),
("y01_dic_any","Y01",[(G,"    if (ndata.at(trainFld.number) != entryBuffer[latticeIdx]) {\n      return false;\n    }\n  }\n  return true;","    if (ndata.at(trainFld.number) == entryBuffer[latticeIdx]) {\n      return true;\n    }\n  }\n  return true;")]),
("y01_allowed_nofield","Y01",[(G,"    if (it->second != v) {\n      return false;\n    }\n","")]),
("y01_allowed_end","Y01",[(G,"    if (it == f.unkPatternToGoldIdx_.end()) {\n      return false;\n    }","    if (it == f.unkPatternToGoldIdx_.end()) {\n      continue;\n    }")]),
("y01_surface_inv","Y01",[(G,"        if (latNode->header.unk.surface == content) {\n          if (matchUnk","        if (!(latNode->header.unk.surface == content)) {\n          if (matchUnk")]),
("y01_surface_drop","Y01",[(G,"        if (latNode->header.unk.surface == content) {\n          if (unkAllowed.isAllowed(latNode, node)) {","        {\n          if (unkAllowed.isAllowed(latNode, node)) {")]),
("y01_match_inv","Y01",[(G,"        if (matchDicNodeData(node)) {","        if (!matchDicNodeData(node)) {")]),
("y01_noload","Y01",[(G,"        loadDicSeedData(seed);\n","        if (i == 0) loadDicSeedData(seed);\n")]),
("y01_kind","Y01",[(G,"      if (seed.entryPtr.isDic()) {","      if (!seed.entryPtr.isDic()) {")]),
("y01_loose_first","Y01",[(G,"          if (matchUnkNodeData(latNode, node)) {\n            return i;","          if (unkAllowed.isAllowed(latNode, node)) {\n            return i;"),(G,"        if (latNode->header.unk.surface == content) {\n          if (unkAllowed.isAllowed(latNode, node)) {\n            return i;\n          }\n        }\n      }\n    }\n  } else","        if (latNode->header.unk.surface == content) {\n          if (matchUnkNodeData(latNode, node)) {\n            return i;\n          }\n        }\n      }\n    }\n  } else")]),
("y01_gold_skip","Y01",[(GH,"      int boundary = exNode.position;\n","      int boundary = exNode.position;\n      if (nodePos < 0 && exNode.length > 20) continue;\n")]),
("y01_gold_size_late","Y01",[(GH,"        auto size = bnfo.startCount;\n        auto eptr = makeUnkTrainingNode(exNode);\n        path->addGoldNode(boundary, size);\n        u16 endPos = static_cast<u16>(bnfo.number + exNode.length);\n        latticeBuilder->appendSeed(eptr, bnfo.number, endPos);","        auto eptr = makeUnkTrainingNode(exNode);\n        u16 endPos = static_cast<u16>(bnfo.number + exNode.length);\n        latticeBuilder->appendSeed(eptr, bnfo.number, endPos);\n        auto size = bnfo.startCount;\n        path->addGoldNode(boundary, size);")]),
("y01_gold_size_ref","Y01",[(GH,"        auto size = bnfo.startCount;\n        auto eptr = makeUnkTrainingNode(exNode);\n        path->addGoldNode(boundary, size);\n        u16 endPos = static_cast<u16>(bnfo.number + exNode.length);\n        latticeBuilder->appendSeed(eptr, bnfo.number, endPos);","        const auto& size = bnfo.startCount;\n        auto eptr = makeUnkTrainingNode(exNode);\n        u16 endPos = static_cast<u16>(bnfo.number + exNode.length);\n        latticeBuilder->appendSeed(eptr, bnfo.number, endPos);\n        path->addGoldNode(boundary, size);")]),
("y01_gold_last","Y01",[(GH,"    for (int i = 0; i < ex.numNodes(); ++i) {\n      auto exNode","    for (int i = 0; i < ex.numNodes() - 1; ++i) {\n      auto exNode")]),
("y01_gold_noseed","Y01",[(GH,"        latticeBuilder->appendSeed(eptr, bnfo.number, endPos);\n","        if (exNode.length > 1) latticeBuilder->appendSeed(eptr, bnfo.number, endPos);\n")]),
("y01_gold_nottold","Y01",[(GH,"        createdNewNode = true;\n","        createdNewNode = size == 0;\n")]),
("y01_gold_flag","Y01",[(GH,"        createdNewNode = true;\n","        if (size == 0) createdNewNode = true;\n")]),
("y01_made_hash","Y01",[(G,"  unk->header.unk.contentHash = contHash;\n","")]),
("y01_made_tmpl","Y01",[(G,"  unk->header.unk.templatePtr = EntryPtr{0};\n","")]),
("y01_made_unkhdr","Y01",[(UN,"  node->header.unk.templatePtr = eptr;\n","")]),
("y01_made_inv","Y01",[(G,"    if (nodeVal >= 0) {\n      nodeData","    if (nodeVal < 0) {\n      nodeData")]),
("y01_made_skip","Y01",[(G,"    } else {\n      nodeData.at(idx) = contHash;\n    }","    }")]),
("y01_nobreak_end","Y01",[(PE,"    } else if (bnd == end) {\n      return {ViolationKind::WordEnd, bnd};\n    }","    }")]),
("y01_nobreak_break","Y01",[(PE,"    if (bnd > end) {\n      break;","    if (bnd > boundary) {\n      break;")]),
("y01_bnd_le","Y01",[(PE,"    if (bnd <= boundary) {\n      continue;","    if (bnd < boundary) {\n      continue;")]),
("y01_bnd_end","Y01",[(PE,"    if (bnd >= end) {\n      break;","    if (bnd > end) {\n      break;")]),
("y01_bnd_break","Y01",[(PE,"    if (bnd <= boundary) {\n      continue;","    if (bnd <= boundary) {\n      break;")]),
("y01_tag_one","Y01",[(PE,"    if (data.at(tag.field) != tag.value) {\n      return {ViolationKind::Tag, tag.field};\n    }","    if (data.at(tag.field) != tag.value) {\n      return {ViolationKind::Tag, tag.field};\n    }\n    break;")]),
("y01_tag_neg","Y01",[(PE,"    if (data.at(tag.field) != tag.value) {","    if (tag.value >= 0 && data.at(tag.field) != tag.value) {")]),
("y01_length","Y01",[(PE,"  if (len != nodeCstrs.length) {","  if (len == nodeCstrs.length && len == 0) {")]),
("y01_nocons_early","Y01",[(PE,"  for (auto bnd : noBreak_) {\n    // violation","  if (nodes_.empty()) {\n    return {ViolationKind::None, 0};\n  }\n\n  for (auto bnd : noBreak_) {\n    // violation")]),
("y01_valid_bnd","Y01",[(PE,"    if (chk > bndIdx) {\n      break;","    if (chk >= bndIdx - 1) {\n      break;")]),
("y01_isnone","Y01",[("src/core/input/partial_example.h","return kind == ViolationKind::None;","return kind != ViolationKind::Tag;")]),
("y01_valid_two","Y01",[(PT,"         example_.doesNodeMatch(l, t1.boundary, t1.right) &&\n         example_.doesNodeMatch(l, t2.boundary, t2.right);","         example_.doesNodeMatch(l, t1.boundary, t1.right);")]),
("y01_valid_mix","Y01",[(PT,"         example_.doesNodeMatch(l, t2.boundary, t2.right);\n}","         example_.doesNodeMatch(l, t2.boundary, t1.right);\n}")]),
("y01_valid_or","Y01",[(PT,"  return example_.doesNodeMatch(l, t0.boundary, t0.right) &&\n         example_","  return example_.doesNodeMatch(l, t0.boundary, t0.right) ||\n         example_")]),
("y01_cand_novalid","Y01",[(PT,"      if (isValid(beam.ptr)) {\n        eb.pushItem(beam);\n      }","      eb.pushItem(beam);")]),
("y01_cand_brk","Y01",[(PT,"    if (!example_.doesNodeMatch(lat, t0.boundary, t0.position)) {\n      continue;\n    }\n\n    auto b1end","    auto b1end")]),
("y01_cand_dropped","Y01",[(PT,"        eb.pushItem(*el);\n","")]),
("y01_eos_one","Y01",[(PT,"    if (example_.doesNodeMatch(l, t1.boundary, t1.right) &&\n        example_.doesNodeMatch(l, t2.boundary, t2.right)) {\n      eb.pushItem","    if (example_.doesNodeMatch(l, t1.boundary, t1.right)) {\n      eb.pushItem")]),
("y01_viol_kind","Y01",[(PT,"        auto list = candidatesStartingOn(nodeStart->boundary, emptyBeam());","        auto list = findCandidatesSpanning(nodeStart->boundary);")]),
("y01_viol_place","Y01",[(PT,"        auto list = findCandidatesSpanning(nodeEnd->boundary);","        auto list = findCandidatesSpanning(nodeStart->boundary);")]),
("y01_viol_noloss","Y01",[(PT,"    if (!viol.isNone()) {\n      loss_ +=","    if (!viol.isNone() && prev != nullptr) {\n      loss_ +=")]),
("y01_viol_alwaysloss","Y01",[(PT,"    if (!viol.isNone()) {\n      loss_ +=","    {\n      loss_ +=")]),
("y01_viol_fallthrough","Y01",[(PT,"        addFeatures(cands.finalize(), nodeStart, nodeEnd, prev);\n        break;","        addFeatures(cands.finalize(), nodeStart, nodeEnd, prev);")]),
("y01_viol_prev","Y01",[(PT,"        addFeatures(cands.finalize(), nodeStart, nodeEnd, prev);","        addFeatures(cands.finalize(), nodeStart, prev, nodeEnd);")]),
("y01_cmp_beam","Y01",[(L,"      stepData.goldInBeam = isGoldStillInBeam(goldBeam, curGold);\n      stepData.numGold = curGold;\n      comparison.push_back(stepData);\n\n      // move","      stepData.numGold = curGold;\n      comparison.push_back(stepData);\n\n      // move")]),
("y01_cmp_numgold","Y01",[(L,"      stepData.numGold = curGold;\n      comparison.push_back(stepData);\n\n      curGold += 1;","      comparison.push_back(stepData);\n\n      curGold += 1;")]),
("y01_cmp_side","Y01",[(L,"    if (curGoldPtr.boundary > curTopBnd) {","    if (curGoldPtr.boundary < curTopBnd) {")]),
("y01_cmp_move","Y01",[(L,"      comparison.push_back(stepData);\n\n      hasNextTop = top1.nextBoundary();\n    } else","      comparison.push_back(stepData);\n\n      hasNextTop = top1.nextBoundary();\n      curGold += 1;\n    } else")]),
("y01_cmp_violation","Y01",[(L,"      stepData.violation = top1Score - goldScore;","      stepData.violation = goldScore - top1Score;")]),
("y01_till","Y01",[(L,"      loss += fullWeight;\n      if (i < till) {\n        addTopNgrams(i);","      loss += fullWeight;\n      if (i <= till) {\n        addTopNgrams(i);")]),
("y01_same","Y01",[(L,"    if (prev->boundary == prevGoldPtr.boundary &&\n        prev->right == prevGoldPtr.position) {","    if (prev->boundary == prevGoldPtr.boundary) {")]),
("y01_worst","Y01",[(L,"    if (maxMismatchWeight < mismatchWeight) {","    if (maxMismatchWeight > mismatchWeight || worstPtr == nullptr) {")]),
("y01_worst2","Y01",[(L,"    if (maxMismatchWeight < mismatchWeight) {","    if (maxMismatchWeight > mismatchWeight) {")]),
("y01_worst_together","Y01",[(L,"      maxNumMismatches = numMismatches;\n      worstPosition","      maxNumMismatches = std::max(maxNumMismatches, numMismatches);\n      worstPosition"),(L,"      worstPosition = conPtr.right;\n","      if (worstPosition == -1) worstPosition = conPtr.right;\n")]),
("y01_fall","Y01",[(LH,"        if (!cmp.goldInBeam) {","        if (cmp.goldInBeam) {")]),
("y01_maxviol","Y01",[(LH,"        if (cmp.violation > viol) {","        if (cmp.violation < viol) {")]),
# behaviour preserving
("y01_ok_isvalid","none",[(PT,"  return example_.doesNodeMatch(l, t0.boundary, t0.right) &&\n         example_.doesNodeMatch(l, t1.boundary, t1.right) &&\n         example_.doesNodeMatch(l, t2.boundary, t2.right);","  if (!example_.doesNodeMatch(l, t0.boundary, t0.right)) {\n    return false;\n  }\n  if (!example_.doesNodeMatch(l, t1.boundary, t1.right)) {\n    return false;\n  }\n  return example_.doesNodeMatch(l, t2.boundary, t2.right);")]),
("y01_ok_match","none",[(G,"    if (ndata.at(trainFld.number) != entryBuffer[latticeIdx]) {\n      return false;\n    }\n  }\n  return true;","    auto mine = entryBuffer[latticeIdx];\n    if (mine == ndata.at(trainFld.number)) {\n      continue;\n    }\n    return false;\n  }\n  return true;")]),
("y01_ok_matchhelper","none",[(G,"bool TrainingExampleAdapter::matchDicNodeData(","static bool sameValue(i32 a, i32 b) { return a == b; }\n\nbool TrainingExampleAdapter::matchDicNodeData("),(G,"    if (ndata.at(trainFld.number) != entryBuffer[latticeIdx]) {","    if (!sameValue(ndata.at(trainFld.number), entryBuffer[latticeIdx])) {")]),
("y01_ok_flag","none",[(G,"  for (int i = 0; i < ndata.size(); ++i) {\n    auto &trainFld = spec->fields[i];\n    if (trainFld.weight == 0) {\n      continue;\n    }\n    auto latticeIdx = trainFld.dicIdx;\n    JPP","  const int total = static_cast<int>(ndata.size());\n  for (int i = 0; i < total; i++) {\n    const auto &trainFld = spec->fields[i];\n    if (!(trainFld.weight != 0)) {\n      continue;\n    }\n    auto latticeIdx = trainFld.dicIdx;\n    JPP")]),
("y01_ok_gold","none",[(GH,"      if (nodePos < 0) {\n        auto &bnfo = latticeBuilder->infoAt(boundary);\n        auto size = bnfo.startCount;\n        auto eptr = makeUnkTrainingNode(exNode);\n        path->addGoldNode(boundary, size);\n        u16 endPos = static_cast<u16>(bnfo.number + exNode.length);\n        latticeBuilder->appendSeed(eptr, bnfo.number, endPos);\n        createdNewNode = true;\n      } else {\n        path->addGoldNode(boundary, nodePos);\n      }","      if (nodePos >= 0) {\n        path->addGoldNode(boundary, nodePos);\n        continue;\n      }\n      auto &bnfo = latticeBuilder->infoAt(boundary);\n      auto eptr = makeUnkTrainingNode(exNode);\n      path->addGoldNode(boundary, bnfo.startCount);\n      u16 endPos = static_cast<u16>(bnfo.number + exNode.length);\n      latticeBuilder->appendSeed(eptr, bnfo.number, endPos);\n      createdNewNode = true;")]),
("y01_ok_viol","none",[(PE,"    if (bnd <= boundary) {\n      continue;\n    }\n    if (bnd >= end) {\n      break;\n    }\n    return {ViolationKind::NoBoundary, bnd};","    if (boundary < bnd && bnd < end) {\n      return {ViolationKind::NoBoundary, bnd};\n    }")]),
("y01_ok_nobreak","none",[(PE,"    if (bnd == boundary) {\n      return {ViolationKind::WordStart, bnd};\n    } else if (bnd == end) {\n      return {ViolationKind::WordEnd, bnd};\n    }\n    if (bnd > end) {\n      break;\n    }","    if (bnd > end) {\n      break;\n    }\n    if (end == bnd) {\n      return {ViolationKind::WordEnd, bnd};\n    }\n    if (boundary == bnd) {\n      return {ViolationKind::WordStart, bnd};\n    }")]),
("y01_ok_cand","none",[(PT,"      if (isValid(beam.ptr)) {\n        eb.pushItem(beam);\n      }\n    }\n  }\n  return eb;","      if (!isValid(beam.ptr)) {\n        continue;\n      }\n      eb.pushItem(beam);\n    }\n  }\n  return eb;")]),
("y01_ok_viols","none",[(PT,"    if (!viol.isNone()) {\n      loss_ += 1.0f / top1_.totalNodes();\n    }\n    prev = nodeEnd;","    if (viol.kind != ViolationKind::None) {\n      loss_ += 1.0f / top1_.totalNodes();\n    }\n    prev = nodeEnd;")]),
("y01_ok_cmp","none",[(L,"      comparison.push_back(stepData);\n\n      curGold += 1;","      comparison.emplace_back(stepData);\n      ++curGold;")]),
("y01_ok_worst","none",[(L,"    if (maxMismatchWeight < mismatchWeight) {\n      maxMismatchWeight = mismatchWeight;\n      maxNumMismatches = numMismatches;\n      worstPosition = conPtr.right;\n      worstPtr = ptr;\n    }","    if (mismatchWeight <= maxMismatchWeight) {\n      continue;\n    }\n    worstPtr = ptr;\n    worstPosition = conPtr.right;\n    maxNumMismatches = numMismatches;\n    maxMismatchWeight = mismatchWeight;")]),
("y01_ok_hdr","none",[(G,"  unk->header.unk.contentHash = contHash;\n  unk->header.unk.surface = node.surface;\n  unk->header.unk.templatePtr = EntryPtr{0};\n  return unk->ptr();","  auto &hdr = unk->header.unk;\n  hdr.surface = node.surface;\n  hdr.templatePtr = EntryPtr{0};\n  hdr.contentHash = contHash;\n  return unk->ptr();")]),
]
