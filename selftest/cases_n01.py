CH="src/util/characters.cc"; FI="src/core/dic/field_import.cc"; CS="src/util/csv_reader.cc"; SP="src/core/spec/spec_parser_impl.h"; FL="src/util/flatrep.h"; PB="src/jumandic/shared/jumanpp_pb_format.cc"; LF="src/jumandic/shared/lattice_format.cc"; AR="src/jumandic/shared/jumanpp_args.cc"; DE="src/core/dic/dic_entries.h"; O="src/core/analysis/output.h"; RI="src/core/analysis/rnn_id_resolver.cc"; AS="src/util/array_slice_util.h"; FH="src/core/dic/field_import.h"; MF="src/jumandic/shared/mdic_format.cc"; PD="src/jumandic/main/path_diff.cc"; AR2="src/core/analysis/analysis_result.h"; J="src/jumandic/main/jumanpp.cc"; TE="src/core/training/training_env.cc"; ST="src/util/stl_util.h"; PL="src/core/input/stream_reader.cc"
CASES=[
("n01_chars","N01",[(CH,"    itr += ret.utf8Length;\n    auto unicode = ret.codepoint;","    auto unicode = ret.codepoint;\n    if (unicode == 0xfeff) {\n      continue;\n    }\n    itr += ret.utf8Length;")]),
("n01_numcp","N01",[(CH,"    if (*itr > 0x00ef) { /* 4 bytes */","    if (*itr == 0 && count == 0) {\n      continue;\n    }\n    if (*itr > 0x00ef) { /* 4 bytes */")]),
("n01_fieldimp","N01",[(FI,"    auto key = StringPiece{sp.begin(), space};\n    auto v =","    auto key = StringPiece{sp.begin(), space};\n    if (key.empty()) {\n      continue;\n    }\n    auto v =")]),
("n01_fieldimp2","N01",[(FI,"    auto key = StringPiece{sp.begin(), space};\n    storage_->inc","    auto key = StringPiece{sp.begin(), space};\n    if (key == ignore_) {\n      continue;\n    }\n    storage_->inc")]),
("n01_unesc","N01",[(CS,"    *target = *source;\n    ++target;","    if (*source == '\\r') {\n      continue;\n    }\n    *target = *source;\n    ++target;")]),
("n01_specp","N01",[(SP,"      chars[tail] = chars[head];","      if (chars[head] == '\\n') {\n        continue;\n      }\n      chars[tail] = chars[head];")]),
("n01_flat","N01",[(FL,"      } else if (x == kEmpty) {\n        return {false, nullptr, 0};\n      }\n      index = NextIndex(index, num_probes);\n      num_probes++;","      } else if (x == kEmpty) {\n        return {false, nullptr, 0};\n      }\n      if (x != kDeleted) {\n        index = NextIndex(index, num_probes);\n        num_probes++;\n      }")]),
("n01_pb","N01",[(PB,"        addNode(*ptr, rank, beamIdx);","        if (ptr->right == 0 && rank > 0) {\n          continue;\n        }\n        addNode(*ptr, rank, beamIdx);")]),
("n01_args_rec","N01",[(AR,"&internal, recursionDepth - 1)","&internal, recursionDepth)")]),
("n01_args_rec2","N01",[(AR,"&internal, recursionDepth - 1)","&internal, recursionDepth + 1)")]),
("n01_args_int","N01",[(AR,"    auto diff = c - '0';","    auto diff = c - '0';\n    if (diff < 0) {\n      continue;\n    }")]),
("n01_nextdata","N01",[(DE,"      dataBuffer_[0] -= 1;\n      return dataBuffer_[0] >= 0;","      if (dataBuffer_[0] > 1) {\n        dataBuffer_[0] -= 1;\n        return true;\n      }\n      return dataBuffer_[0] == 1;")]),
("n01_hasnext","N01",[(O,"elements_.remaining() > 0","elements_.remaining() == 0")]),
("n01_hasnext2","N01",[("src/core/dic/field_reader.h","return !parser_.atEnd();","return parser_.atEnd();")]),
("n01_rnnchain","N01",[(RI,"        cached = cached->nextInBnd;\n      } while (cached","        if (cached->id != UnkId) {\n          cached = cached->nextInBnd;\n        }\n      } while (cached".replace("UnkId","0"))]),
("n01_slice","N01",[(AS,"    ++copySrc;\n    ++copyTarget;","    ++copyTarget;")]),
("n01_down","N01",[(FH,"i > 0; --i)","i > 0; ++i)")]),
("n01_mdic","N01",[(MF,"      beg = it;\n      it = std::find(it + 1, end, '\"');","      beg = it;\n      it = std::find(it, end, '\"');")]),
("n01_diff","N01",[(PD,"          b->addRight(top2, l2);\n          top2 = top2->previous;\n        }","          b->addRight(top2, l2);\n        }")]),
("n01_unks","N01",[(PD,"      element = element->previous;\n    }","      if (info.numCodepoints() > 0) {\n        element = element->previous;\n      }\n    }")]),
("n01_nextb","N01",[(AR2,"    currentChunk_ += 1;\n    currentNode_ = -1;\n    return currentChunk_ < numBoundaries();","    if (currentChunk_ + 1 < numBoundaries() && totalNodesInChunk() == 0) {\n      return true;\n    }\n    currentChunk_ += 1;\n    currentNode_ = -1;\n    return currentChunk_ < numBoundaries();")]),
("n01_partition","N01",[(ST,"      std::swap(*start, *end);\n      --end;\n    }\n  }\n  //++end;","      std::swap(*start, *end);\n    }\n  }\n  //++end;")]),
("n01_stream","N01",[(J,"  bool hasNext() {\n    while (!input_->good() ||\n           input_->peek() == std::char_traits<char>::eof()) {\n      if (currentInFile_ >= inFiles_->size()) {\n        return false;\n      }\n      auto s","  bool hasNext() {\n    while (!input_->good() ||\n           input_->peek() == std::char_traits<char>::eof()) {\n      if (currentInFile_ >= inFiles_->size()) {\n        return false;\n      }\n      if ((*inFiles_)[currentInFile_].empty()) {\n        continue;\n      }\n      auto s")]),
("n01_train","N01",[(TE,"      if (executor_.submitNext(trainer)) {\n        submittedTrainers += 1;\n      } else {\n        break;\n      }","      if (executor_.submitNext(trainer)) {\n        submittedTrainers += 1;\n      }")]),
("n01_train2","N01",[(TE,"for (int processedTrainers = 0; processedTrainers < totalTrainers;\n       ++processedTrainers)","for (int processedTrainers = 0; processedTrainers < totalTrainers;)")]),
("n01_ok_for","none",[(CH,"  while (itr < end) {\n    auto begin = itr;","  for (; itr < end;) {\n    auto begin = itr;")]),
("n01_ok_helper","none",[(CH,"Status preprocessRawData(StringPiece utf8data,","static void moveOn(StringPiece::byte_ptr& p, int n) { p += n; }\n\nStatus preprocessRawData(StringPiece utf8data,"),(CH,"    itr += ret.utf8Length;\n    auto unicode","    moveOn(itr, ret.utf8Length);\n    auto unicode")]),
("n01_ok_assign","none",[(CH,"    itr += ret.utf8Length;\n    auto unicode","    auto nextItr = itr + ret.utf8Length;\n    itr = nextItr;\n    auto unicode")]),
("n01_ok_lambda","none",[(CH,"    itr += ret.utf8Length;\n    auto unicode","    auto step = [&]() { itr += ret.utf8Length; };\n    step();\n    auto unicode")]),
("n01_ok_while","none",[(CS,"  while (source != end) {\n    if (*source == quote_) {","  for (bool more = source != end; more; more = source != end) {\n    if (*source == quote_) {")]),
("n01_ok_do","none",[(PB,"      while (ptr->boundary >= 2) {\n        addNode(*ptr, rank, beamIdx);\n        beamIdx = ptr->beam;\n        ptr = ptr->previous;\n      }","      for (; ptr->boundary >= 2; ptr = ptr->previous) {\n        addNode(*ptr, rank, beamIdx);\n        beamIdx = ptr->beam;\n      }")]),
("n01_ok_prev","none",[(PB,"        beamIdx = ptr->beam;\n        ptr = ptr->previous;","        beamIdx = ptr->beam;\n        const auto* prev = ptr->previous;\n        ptr = prev;")]),
("n01_ok_flag","none",[(AR,"    ++start;\n    if (start != end) {\n      result *= 10;\n    }","    const bool last = ++start == end;\n    if (!last) {\n      result *= 10;\n    }")]),
]
