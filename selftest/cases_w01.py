G = "src/core/analysis/rnn_scorer_gbeam.cc"
I = "src/core/analysis/rnn_id_resolver.cc"
M = "src/rnn/mikolov_rnn_impl.h"
C = "src/rnn/mikolov_rnn.cc"
CASES = []


def m(name, f, old, new, want="W01"):
    CASES.append(("w01-" + name, want, [(f, old, new)]))


def ok(name, *edits):
    CASES.append(("w01-ok-" + name, "none", list(edits)))


m("ids-idx", G, "      subset.at(node->idx) = node->id;", "      subset.at(node->idx) = node->idx;")
m("ctx-row-prev", G, "      auto ctxRow = subset.row(node->idx);", "      auto ctxRow = subset.row(prev->idx);")
m("ctx-own", G, """      auto ctxRow = subset.row(node->idx);
      auto present = contexts.at(prev->boundary).row(prev->idx);""", """      auto ctxRow = subset.row(node->idx);
      auto present = contexts.at(prev->boundary).row(node->idx);""")
m("sctx-id", G, """      auto ctxRow = subset.row(idx);
      auto present = contexts.at(prev->boundary).row(prev->idx);""", """      auto ctxRow = subset.row(idx);
      auto present = contexts.at(prev->boundary).row(prev->id);""")
m("sctx-node", G, """      auto node = sc->rnn;
      auto prev = node->prev;
      JPP_DCHECK_NE(prev, nullptr);
      auto ctxRow = subset.row(idx);""", """      auto node = sc->rnn;
      auto prev = node;
      JPP_DCHECK_NE(prev, nullptr);
      auto ctxRow = subset.row(idx);""")
m("sctx-noadv", G, """      util::copy_buffer(present, ctxRow);
      idx += 1;""", """      util::copy_buffer(present, ctxRow);
      if (prev->idx != 0) idx += 1;""")
m("sctx-early", G, """      auto ctxRow = subset.row(idx);
      auto present = contexts.at(prev->boundary).row(prev->idx);
      util::copy_buffer(present, ctxRow);
      idx += 1;""", """      idx += 1;
      auto ctxRow = subset.row(idx);
      auto present = contexts.at(prev->boundary).row(prev->idx);
      util::copy_buffer(present, ctxRow);""")
m("left-nce", G, "      auto embed = shared->embedOf(embedId);", "      auto embed = shared->nceEmbedOf(embedId);")
m("nce-left", G, "      auto embed = shared->nceEmbedOf(embedId);", "      auto embed = shared->embedOf(embedId);")
m("pcd-swap", G, "pcd{inCtx, embs, outCtx};", "pcd{embs, inCtx, outCtx};")
m("nce-buf", G, """  util::ConstSliceable<float> gatherNceEmbeds(util::ArraySlice<i32> ids) {
    auto subset = embBuf""", """  util::ConstSliceable<float> gatherNceEmbeds(util::ArraySlice<i32> ids) {
    auto subset = contextBuf""")
m("alloc-bnd", G, "    contexts.at(bndIdx) = buf;", "    contexts.at(bndIdx - 1) = buf;")
m("bos-bnd", G, "    contexts.at(1) = shared->bosState;", "    contexts.at(0) = shared->bosState;")
m("hist-stuck", G, """        row.at(idx) = prev->id;
        if (prev->prev != nullptr) {
          prev = prev->prev;
        }""", """        row.at(idx) = prev->id;
        if (prev->prev != nullptr) {
          prev = node->prev;
        }""")
m("hist-first", G, """      auto row = subset.row(scoreIdx);
      auto prev = node->prev;""", """      auto row = subset.row(scoreIdx);
      auto prev = node;""")
m("hist-order", G, """        row.at(idx) = prev->id;
        if (prev->prev != nullptr) {
          prev = prev->prev;
        }""", """        if (prev->prev != nullptr) {
          prev = prev->prev;
        }
        row.at(idx) = prev->id;""")
m("hist-bnd", G, """        if (prev->prev != nullptr) {
          prev = prev->prev;
        }""", """        if (prev->nextInBnd != nullptr) {
          prev = prev->nextInBnd;
        }""")
m("hist-cell", G, "      int idx = 0;\n", "      int idx = 1;\n")
m("score-scoreidx", G, """      } else {
        score = slice.at(scoreIdx);
      }
      scoreIdx += 1;""", """      } else {
        score = slice.at(scoreIdx);
        scoreIdx += 1;
      }""")
m("score-unk", G, "if (rnnId == shared->resolver.unkId()) {", "if (rnnId != shared->resolver.unkId()) {")
m("score-len", G, "cfg.unkLengthPenalty * sc->rnn->length;", "cfg.unkLengthPenalty * sc->rnn->boundary;")
m("score-minus", G, "score = cfg.unkConstantTerm + cfg", "score = cfg.unkConstantTerm - cfg")
m("score-left", G, "nodeScores.beamLeft(ptr->beam, ptr->left)", "nodeScores.beamLeft(ptr->left, ptr->beam)")
m("score-right", G, "scoreStorage->nodeScores(ptr->right)", "scoreStorage->nodeScores(ptr->left)")
m("score-skip", G, """      scoreIdx += 1;
      nodeScores""", """      scoreIdx += 1;
      if (score == 0) continue;
      nodeScores""")
m("order-one", G, """      JPP_RIE_MSG(computeContext(bndIdx), "bnd=" << bndIdx);
    }
    for (u32 bndIdx = 2; bndIdx <= numBnd; ++bndIdx) {
""", "      JPP_RIE_MSG(computeContext(bndIdx), \"bnd=\" << bndIdx);\n")
m("order-last", G, "bndIdx <= numBnd; ++bndIdx", "bndIdx < numBnd; ++bndIdx")
m("order-first", G, "for (u32 bndIdx = 2; bndIdx <= numBnd", "for (u32 bndIdx = 3; bndIdx <= numBnd")
m("order-ctx", G, "for (u32 bndIdx = 2; bndIdx < numBnd", "for (u32 bndIdx = 2; bndIdx < numBnd - 1")
m("walk-next", G, """      JPP_DCHECK_EQ(bndIdx, ptr->boundary);""", """      if (ptr->left == 3) break;""")
m("reset-after", G, """    manager.reset();
    alloc->reset();
    auto numBnd = l->createdBoundaryCount() - 1;
    allocateState();
    JPP_RETURN_IF_ERROR(
        shared->resolver.resolveIdsAtGbeam(&container, l, xtra));""", """    auto numBnd = l->createdBoundaryCount() - 1;
    allocateState();
    JPP_RETURN_IF_ERROR(
        shared->resolver.resolveIdsAtGbeam(&container, l, xtra));
    manager.reset();
    alloc->reset();""")
m("hash-len", I, "static_cast<u32>(coord.rnnId) | (static_cast<u64>(coord.length) << 32);", "static_cast<u32>(coord.rnnId);")
m("hash-id", I, "static_cast<u32>(coord.rnnId) | (static_cast<u64>(coord.length) << 32);", "static_cast<u64>(coord.length) << 32;")
m("hash-prev", I, "FastHash1{prev->hash}.mix(rnnIdU32)", "FastHash1{}.mix(rnnIdU32)")
m("collapse-noscore", I, "          addScore(nodePtr, cptr);\n          return", "          return")
m("collapse-prev", I, "          nodePtr = cached;\n", "          nodePtr = it->second;\n")
m("collapse-ne", I, "if (cached->hash == hash) {", "if (cached->id == coord.rnnId) {", "W01")
m("node-prev", I, "    nodePtr->prev = prev;\n", "    nodePtr->prev = span.first;\n", "W01")
m("node-len", I, "    nodePtr->length = coord.length;\n", "    nodePtr->length = coord.boundary;\n")
m("node-nolen", I, "    nodePtr->length = coord.length;\n", "")
m("node-nohash", I, "    nodePtr->hash = hash;\n", "")
m("path-late", I, """    addScore(last, cptr);
    auto& crd = resolveId(resolver, lat, cptr, xtra);
    crdCache_[crd] = last;
    cptr = cptr->previous;""", """    addScore(last, cptr);
    cptr = cptr->previous;
    auto& crd = resolveId(resolver, lat, cptr, xtra);
    crdCache_[crd] = last;""")
m("path-idx", I, """    last->idx = bnd.nodeCnt;
    last->nextInBnd = bnd.node;
    bnd.node = last;
    bnd.nodeCnt += 1;""", """    last->nextInBnd = bnd.node;
    bnd.node = last;
    bnd.nodeCnt += 1;
    last->idx = bnd.nodeCnt;""")
m("path-link", I, """    last->nextInBnd = bnd.node;
    bnd.node = last;""", """    bnd.node = last;
    last->nextInBnd = bnd.node;""")
m("path-noscore", I, "    addScore(last, cptr);\n    auto& crd", "    if (bnd.nodeCnt == 1) addScore(last, cptr);\n    auto& crd")
m("path-nocache", I, "    crdCache_[crd] = last;\n    cptr", "    cptr")
m("path-cptr", I, "    cptr = cptr->previous;\n", "    if (last->prev != first) cptr = cptr->previous;\n", "W01")
m("score-nocount", I, "  bnd.scoreCnt += 1;\n", "  if (score->next != nullptr) bnd.scoreCnt += 1;\n")
m("score-link", I, """  score->next = bnd.scores;
  bnd.scores = score;""", """  bnd.scores = score;
  score->next = bnd.scores;""")
m("known-swap", I, "    if (eptr.isDic()) {", "    if (!eptr.isDic()) {")
m("known-ok", I, "if (t2.step(repr) == dic::TraverseStatus::Ok) {", "if (t2.step(repr) != dic::TraverseStatus::Ok) {")
m("known-t1", I, "resolver->unkIndex_.traversal();", "resolver->knownIndex_.traversal();")
m("repr-gt", I, "    if (feature >= 0) {", "    if (feature > 0) {")
m("build-known", I, "      if (known) {", "      if (!known) {")
m("plunder", I, "knownIndex_.plunder(&bldr.knownBuilder);", "knownIndex_.plunder(&bldr.unkBuilder);")
m("reset-node", I, "  nodeCache_.clear_no_resize();\n", "")
m("reset-ptr", I, "  ptrCache_.clear_no_resize();\n", "")
m("reset-crd", I, "  crdCache_.clear_no_resize();\n", "")
m("reset-bnd", I, "  boundaries_.clear();\n", "")
m("reset-bos-first", I, """  crdCache_.clear_no_resize();
  auto newSize""", """  addBos();
  crdCache_.clear_no_resize();
  auto newSize""")
m("reset-eos", I, "  nodeCache_[{eosPos, 0}] = RnnCoordinate{eosPos, 0, 0};\n", "  (void)eosPos;\n")
m("fake-left", I, "  cptr->left = candidate.left();", "  cptr->left = candidate.beam();")
m("gbeam-raw", I, "    auto& rawBeam = gbeamCands.at(topn);", "    auto& rawBeam = gbeamCands.at(0);")
m("gbeam-from", I, "  for (int topn = 0; topn < gbeam.size(); ++topn) {", "  for (int topn = 1; topn < gbeam.size(); ++topn) {")
m("set-unk", I, "unkIndex_.loadFromMemory(unknown)", "unkIndex_.loadFromMemory(known)")
m("net-nomax", M, """  void apply(ParallelStepData *data) {
    computeContextScores(data);
    computeMaxentScores(data);""", """  void apply(ParallelStepData *data) {
    computeContextScores(data);""")
m("net-order", M, """  void apply(ParallelStepData *data) {
    computeContextScores(data);
    computeMaxentScores(data);""", """  void apply(ParallelStepData *data) {
    computeMaxentScores(data);
    computeContextScores(data);""")
m("net-nonce", M, """    computeMaxentScores(data);
    applyNceConstant(data);
  }
};

}  // namespace mikolov""", """    computeMaxentScores(data);
  }
};

}  // namespace mikolov""")
m("net-sigm", M, """    result += myEmb;
    result = Eigen::inverse(1 + Eigen::exp(-result.array()));""", """    result += myEmb;
    result = Eigen::inverse(1 + Eigen::exp(result.array()));""")
m("net-noemb", M, "    result += myEmb;\n", "")
m("net-transp", M, """    result.noalias() = nnWeight.transpose() * oldCtx;
    result += myEmb;""", """    result.noalias() = nnWeight * oldCtx;
    result += myEmb;""")
m("net-minus", M, """    auto result = impl::asMatrix(data->scores, numEntries, 1);
    result.array() -= rnn""", """    auto result = impl::asMatrix(data->scores, numEntries, 1);
    result.array() += rnn""")
m("sum-dup", M, """    auto idx2 = static_cast<size_t>((indices[2] + word) % hashMax);
    return weights[idx0] + weights[idx1] + weights[idx2];""", """    auto idx2 = static_cast<size_t>((indices[1] + word) % hashMax);
    return weights[idx0] + weights[idx1] + weights[idx2];""")
m("sum-case", M, "result.at(i) += calcScores3(", "result.at(i) += calcScores2(")
m("sum-set", M, "result.at(i) += calcScores2(", "result.at(i) = calcScores2(")
m("sum-noword", M, """    auto idx1 = static_cast<size_t>((indices[1] + word) % hashMax);
    return weights[idx0] + weights[idx1];""", """    auto idx1 = static_cast<size_t>(indices[1] % hashMax);
    return weights[idx0] + weights[idx1];""")
m("idx-hist", M, "auto historyItem = context[j - 1];", "auto historyItem = context[j];", "W01")
m("idx-count", M, "for (int j = 1; j <= i; ++j) {", "for (int j = 1; j < i; ++j) {")
m("hash-max", M, ": hashMax{directMentsize - vocabSize} {}", ": hashMax{directMentsize} {}")
m("item-zero", M, "      auto ctx = contexts.row(item);", "      auto ctx = contexts.row(0);")
m("load-swap", G, """  JPP_RIE_MSG(arr2d(p->data[4],""", """  JPP_RIE_MSG(arr2d(p->data[5],""")
m("load-nonce", G, """  if (config().nceBias.defined()) {
    state_->rnn.setNceConstant(config().nceBias);
  }

  return Status::Ok();""", """  return Status::Ok();""")
m("make-config", G, """  JPP_RETURN_IF_ERROR(state_->rnn.init(state_->rnnReader.header(),
                                       state_->rnnReader.rnnMatrix(),
                                       state_->rnnReader.maxentWeights()));
  setConfig(config);""", """  setConfig(config);
  JPP_RETURN_IF_ERROR(state_->rnn.init(state_->rnnReader.header(),
                                       state_->rnnReader.rnnMatrix(),
                                       state_->rnnReader.maxentWeights()));""")
m("make-embed", G, "state_->nceEmbeddings = {state_->rnnReader.nceEmbeddings()", "state_->nceEmbeddings = {state_->rnnReader.embeddings()")
m("write-swap", G, """  part.data.push_back(state_->resolver.knownIndex());
  part.data.push_back(state_->resolver.unkIndex());""", """  part.data.push_back(state_->resolver.unkIndex());
  part.data.push_back(state_->resolver.knownIndex());""")
m("parse-order", C, """      copyArray(contents, data_->embeddingData, embedding_matrix_size, &start),
      "embeds");
  JPP_RIE_MSG(copyArray(contents, data_->nceEmbeddingData,""", """      copyArray(contents, data_->nceEmbeddingData, embedding_matrix_size, &start),
      "embeds");
  JPP_RIE_MSG(copyArray(contents, data_->embeddingData,""")
m("hdr-order", C, "header->maxentOrder = packed.maxentOrder;", "header->maxentOrder = packed.layerCount;")
m("limit", C, "header.maxentOrder > 4)", "header.maxentOrder > 5)")
m("limit-table", C, "if (header.maxentSize <= header.vocabSize) {", "if (header.maxentSize < header.vocabSize) {")

# ---- nothing changes
ok("while", (G, """    for (auto node = rbnd.node; node != nullptr; node = node->nextInBnd) {
      auto prev = node->prev;""", """    auto node = rbnd.node;
    for (; node != nullptr; node = node->nextInBnd) {
      auto prev = node->prev;"""))
ok("while2", (G, """    for (auto sc = rbnd.scores; sc != nullptr; sc = sc->next) {
      auto node = sc->rnn;
      subset.at(scoreIdx) = node->id;
      scoreIdx += 1;
    }""", """    auto sc = rbnd.scores;
    while (sc) {
      subset.at(scoreIdx++) = sc->rnn->id;
      sc = sc->next;
    }"""))
ok("state-of", (G, """  util::ConstSliceable<float> gatherContext(const""", """  util::MutableArraySlice<float> stateOf(const rnn::RnnNode* n) {
    return contexts.at(n->boundary).row(n->idx);
  }

  util::ConstSliceable<float> gatherContext(const"""), (G, """      auto ctxRow = subset.row(node->idx);
      auto present = contexts.at(prev->boundary).row(prev->idx);""", """      auto ctxRow = subset.row(node->idx);
      auto present = stateOf(prev);"""), (G, """      auto ctxRow = subset.row(idx);
      auto present = contexts.at(prev->boundary).row(prev->idx);""", """      auto ctxRow = subset.row(idx);
      auto present = stateOf(prev);"""))
ok("embed-ternary", (G, """      auto embedId = ids[i];
      if (embedId == -1) {
        embedId = 0;
      }
      auto embed = shared->nceEmbedOf(embedId);""", """      auto embed = shared->nceEmbedOf(ids[i] == -1 ? 0 : ids[i]);"""))
ok("embed-bos", (G, """      auto embedId = ids[i];
      if (embedId == -1) {
        embedId = 0;
      }
      auto embed = shared->embedOf(embedId);
      auto target = subset.row(i);
      util::copy_buffer(embed, target);
    }
    return subset;""", """      copyEmbed(shared->embeddings, ids[i], subset.row(i));
    }
    return subset;"""), (G, """  util::ConstSliceable<float> gatherLeftEmbeds(""", """  static void copyEmbed(const util::ConstSliceable<float>& from, i32 id,
                        util::MutableArraySlice<float> to) {
    util::copy_buffer(from.row(id == -1 ? 0 : id), to);
  }

  util::ConstSliceable<float> gatherLeftEmbeds("""))
ok("hist-while", (G, """      int idx = 0;
      auto row = subset.row(scoreIdx);
      auto prev = node->prev;
      for (; idx < cnt; ++idx) {
        JPP_DCHECK_NE(prev, nullptr);
        row.at(idx) = prev->id;
        if (prev->prev != nullptr) {
          prev = prev->prev;
        }
      }""", """      auto row = subset.row(scoreIdx);
      auto prev = node->prev;
      for (int idx = 0; idx < cnt; ++idx) {
        row.at(idx) = prev->id;
        prev = prev->prev == nullptr ? prev : prev->prev;
      }"""))
ok("hist-fn", (G, """      int idx = 0;
      auto row = subset.row(scoreIdx);
      auto prev = node->prev;
      for (; idx < cnt; ++idx) {
        JPP_DCHECK_NE(prev, nullptr);
        row.at(idx) = prev->id;
        if (prev->prev != nullptr) {
          prev = prev->prev;
        }
      }
      scoreIdx += 1;""", """      fillHistory(node->prev, subset.row(scoreIdx), cnt);
      scoreIdx += 1;"""), (G, """  util::ConstSliceable<i32> gatherPrevStateIds(""", """  static void fillHistory(const rnn::RnnNode* prev,
                          util::MutableArraySlice<i32> row, size_t cnt) {
    for (size_t idx = 0; idx < cnt; ++idx) {
      row.at(idx) = prev->id;
      if (prev->prev != nullptr) {
        prev = prev->prev;
      }
    }
  }

  util::ConstSliceable<i32> gatherPrevStateIds("""))
ok("psd-fields", (G, """    jumanpp::rnn::mikolov::ParallelStepData psd{
        gatherPrevStateIds(rbnd), rnnIds, gatherScoreContext(rbnd),
        gatherNceEmbeds(rnnIds), scores};""", """    auto history = gatherPrevStateIds(rbnd);
    auto states = gatherScoreContext(rbnd);
    auto nce = gatherNceEmbeds(rnnIds);
    jumanpp::rnn::mikolov::ParallelStepData psd{history, rnnIds, states, nce,
                                                scores};"""))
ok("score-place", (G, """      auto rnnId = sc->rnn->id;
      if (rnnId == shared->resolver.unkId()) {
        auto& cfg = shared->config;
        score = cfg.unkConstantTerm + cfg.unkLengthPenalty * sc->rnn->length;
      } else {
        score = slice.at(scoreIdx);
      }
      scoreIdx += 1;
      nodeScores.beamLeft(ptr->beam, ptr->left).at(scorerIdx) = score;""", """      auto* node = sc->rnn;
      score = slice.at(scoreIdx++);
      if (node->id == shared->resolver.unkId()) {
        auto& cfg = shared->config;
        score = node->length * cfg.unkLengthPenalty + cfg.unkConstantTerm;
      }
      auto cell = nodeScores.beamLeft(ptr->beam, ptr->left);
      cell.at(scorerIdx) = score;"""))
ok("lattice-bnds", (G, """    auto numBnd = l->createdBoundaryCount() - 1;
    allocateState();""", """    auto total = l->createdBoundaryCount();
    allocateState();"""), (G, "for (u32 bndIdx = 2; bndIdx < numBnd; ++bndIdx) {", "for (u32 bndIdx = 2; bndIdx + 1 < total; ++bndIdx) {"),
   (G, "for (u32 bndIdx = 2; bndIdx <= numBnd; ++bndIdx) {", "for (u32 bndIdx = 2; bndIdx < total; ++bndIdx) {"))
ok("lattice-fn", (G, """    for (u32 bndIdx = 2; bndIdx < numBnd; ++bndIdx) {
      JPP_RIE_MSG(computeContext(bndIdx), "bnd=" << bndIdx);
    }
    for (u32 bndIdx""", """    JPP_RETURN_IF_ERROR(computeContexts(numBnd));
    for (u32 bndIdx"""), (G, """  Status scoreLattice(Lattice* l, const ExtraNodesContext* xtra) {
    this->lat""", """  Status computeContexts(u32 numBnd) {
    for (u32 bndIdx = 2; bndIdx < numBnd; ++bndIdx) {
      JPP_RIE_MSG(computeContext(bndIdx), "bnd=" << bndIdx);
    }
    return Status::Ok();
  }

  Status scoreLattice(Lattice* l, const ExtraNodesContext* xtra) {
    this->lat"""))
ok("publish-fn", (I, """    last->idx = bnd.nodeCnt;
    last->nextInBnd = bnd.node;
    bnd.node = last;
    bnd.nodeCnt += 1;
    addScore(last, cptr);""", """    last->nextInBnd = bnd.node;
    last->idx = bnd.nodeCnt++;
    bnd.node = last;
    addScore(last, cptr);"""))
ok("publish-while", (I, """  for (; first != last; last = last->prev) {
    auto& bnd = this->boundaries_[last->boundary];""", """  while (first != last) {
    auto& bnd = this->boundaries_[last->boundary];"""), (I, "    crdCache_[crd] = last;\n    cptr = cptr->previous;\n", "    crdCache_[crd] = last;\n    cptr = cptr->previous;\n    last = last->prev;\n"))
ok("collapse-for", (I, """      auto* cached = it->second;
      do {
        if (cached->hash == hash) {
          // we can collapse a path in the RNN lattice
          // but we still need to publish the score
          nodePtr = cached;
          addScore(nodePtr, cptr);
          return std::make_pair(nodePtr, nodePtr);
        }
        cached = cached->nextInBnd;
      } while (cached != nullptr);""", """      for (auto* cached = it->second; cached != nullptr;
           cached = cached->nextInBnd) {
        if (cached->hash != hash) {
          continue;
        }
        addScore(cached, cptr);
        nodePtr = cached;
        return {cached, cached};
      }"""))
ok("new-node", (I, """    nodePtr = alloc_->allocate<RnnNode>();
    nodePtr->prev = prev;
    nodePtr->hash = hash;
    nodePtr->id = coord.rnnId;
    nodePtr->boundary = cptr->boundary;
    nodePtr->length = coord.length;
    return""", """    auto* made = alloc_->allocate<RnnNode>();
    made->id = coord.rnnId;
    made->boundary = coord.boundary;
    made->length = coord.length;
    made->hash = hash;
    made->prev = prev;
    nodePtr = made;
    return"""))
ok("add-score", (I, """  score->latPtr = node;
  score->rnn = rnnNode;
  auto& bnd = this->boundaries_[rnnNode->boundary];
  score->next = bnd.scores;
  bnd.scores = score;
  bnd.scoreCnt += 1;""", """  auto& bnd = this->boundaries_[rnnNode->boundary];
  auto* old = bnd.scores;
  bnd.scores = score;
  bnd.scoreCnt++;
  score->next = old;
  score->rnn = rnnNode;
  score->latPtr = node;"""))
ok("resolve-index", (I, """    if (eptr.isDic()) {
      auto t1 = resolver->knownIndex_.traversal();
      if (t1.step(repr) == dic::TraverseStatus::Ok) {
        iter.first->second.rnnId = t1.value();
      } else {
        iter.first->second.rnnId = resolver->unkId();
      }
    } else {
      auto t2 = resolver->unkIndex_.traversal();
      if (t2.step(repr) == dic::TraverseStatus::Ok) {
        iter.first->second.rnnId = t2.value();
      } else {
        iter.first->second.rnnId = resolver->unkId();
      }
    }
    iter.first->second.length""", """    auto& index =
        eptr.isDic() ? resolver->knownIndex_ : resolver->unkIndex_;
    auto trav = index.traversal();
    auto& crd = iter.first->second;
    crd.rnnId = trav.step(repr) == dic::TraverseStatus::Ok ? trav.value()
                                                           : resolver->unkId();
    iter.first->second.length"""))
ok("apply-inline", (M, """  void apply(ParallelStepData *data) {
    computeContextScores(data);
    computeMaxentScores(data);
    applyNceConstant(data);
  }""", """  void apply(ParallelStepData *data) {
    computeContextScores(data);
    applyNceConstant(data);
    computeMaxentScores(data);
  }"""))
ok("weight-of", (M, """  inline float calcScores2(i32 word) const {
    auto idx0 = static_cast<size_t>((indices[0] + word) % hashMax);
    auto idx1 = static_cast<size_t>((indices[1] + word) % hashMax);
    return weights[idx0] + weights[idx1];
  }""", """  inline float weightOf(int order, i32 word) const {
    return weights[static_cast<size_t>((indices[order] + word) % hashMax)];
  }

  inline float calcScores2(i32 word) const {
    return weightOf(0, word) + weightOf(1, word);
  }"""))
ok("sum-inc", (M, """    auto idx0 = static_cast<size_t>((indices[0] + word) % hashMax);
    auto idx1 = static_cast<size_t>((indices[1] + word) % hashMax);
    auto idx2 = static_cast<size_t>((indices[2] + word) % hashMax);
    return weights[idx0] + weights[idx1] + weights[idx2];""", """    return calcScores2(word) +
           weights[static_cast<size_t>((indices[2] + word) % hashMax)];"""))
ok("maxent-item", (M, """      auto ctx = contexts.row(item);
      auto idx = static_cast<u32>(item);
      util::MutableArraySlice<float> scores(scorePack, idx, 1);
      util::ArraySlice<i32> wordSlice{words, idx, 1};
      calc.addScores(ctx, wordSlice, rnn.maxentWeights, scores);""", """      auto pos = static_cast<u32>(item);
      calc.addScores(contexts.row(pos), util::ArraySlice<i32>{words, pos, 1},
                     rnn.maxentWeights,
                     util::MutableArraySlice<float>(scorePack, pos, 1));"""))
ok("idx-from0", (M, """      for (int j = 1; j <= i; ++j) {
        auto primeIdxRaw = i * PRIMES[j] + j;
        auto primeIdx = primeIdxRaw % PRIMES_SIZE;
        auto historyItem = context[j - 1];""", """      for (int k = 0; k < i; ++k) {
        int j = k + 1;
        auto primeIdxRaw = i * PRIMES[j] + j;
        auto primeIdx = primeIdxRaw % PRIMES_SIZE;
        auto historyItem = context[k];"""))
ok("load-locals", (G, """  JPP_RIE_MSG(arr2d(p->data[4], rnnhdr.vocabSize, rnnhdr.layerSize,
                    &state_->embeddings),""", """  auto& embedData = p->data[4];
  JPP_RIE_MSG(arr2d(embedData, rnnhdr.vocabSize, rnnhdr.layerSize,
                    &state_->embeddings),"""))
ok("info-locals", (G, """  part.data.push_back(state_->rnnMatrix());
  part.data.push_back(state_->embeddingData());""", """  auto matrix = state_->rnnMatrix();
  auto embeds = state_->embeddingData();
  part.data.push_back(matrix);
  part.data.push_back(embeds);"""))
ok("limit-two", (C, """  if (header.maxentOrder < 1 || header.maxentOrder > 4) {""", """  const auto order = header.maxentOrder;
  const bool supported = 1 <= order && order <= 4;
  if (!supported) {"""))
ok("reset-order", (I, """  boundaries_.clear();
  boundaries_.resize(numBoundaries);
  addBos();""", """  boundaries_.assign(numBoundaries, RnnBoundary{});
  addBos();"""))
