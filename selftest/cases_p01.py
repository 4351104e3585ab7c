F="src/core/training/full_example.cc"; G="src/core/input/partial_example_io.cc"; X="src/core/input/pex_stream_reader.cc"; T="src/core/training/trainer.cc"; V="src/core/training/training_env.cc"; C="src/util/csv_reader.cc"; H="src/core/training/full_example.h"; D="src/core/dic/dic_build_detail.cc"; R="src/rnn/mikolov_rnn.cc"; J="src/jumandic/main/jumanpp_train.cc"
TAIL="""  JPP_RIE_MSG(csv_.finish(), "when reading " << filename_);
  // the last example can be not terminated, it should not be lost
  auto& bnds = result->boundaries_;
  *eof = bnds.empty();
"""
FT="""  JPP_RETURN_IF_ERROR(csv_.finish());
  // the last example can be not terminated, it should not be lost
  finished_ = result->lengths_.empty();
  return Status::Ok();"""
CASES=[
("p01_nofinish_rnn","P01",[(R,"  JPP_RETURN_IF_ERROR(ssvReader.finish());\n","")]),
("p01_nofinish_full","P01",[(F,"  JPP_RETURN_IF_ERROR(csv_.finish());\n","")]),
("p01_nofinish_dbl","P01",[(F,"  if (finished_) {\n    return csv_.finish();","  if (finished_) {\n    return Status::Ok();")]),
("p01_nofinish_part","P01",[(G,'  JPP_RIE_MSG(csv_.finish(), "when reading " << filename_);\n',"")]),
("p01_nofinish_dic","P01",[(D,'  JPP_RIE_MSG(csv->finish(), "when processing dictionary file " << name);\n',"")]),
("p01_orig_full","P01",[(F,FT,"  finished_ = true;\n  return csv_.finish();")]),
("p01_orig_part","P01",[(G,TAIL,'  *eof = true;\n  JPP_RIE_MSG(csv_.finish(), "when reading " << filename_);\n  auto& bnds = result->boundaries_;\n')]),
("p01_eof_false","P01",[(G,TAIL,'  *eof = false;\n  JPP_RIE_MSG(csv_.finish(), "when reading " << filename_);\n  auto& bnds = result->boundaries_;\n')]),
("p01_eof_nodes","P01",[(G,"*eof = bnds.empty();","*eof = result->nodes_.empty();")]),
("p01_eof_noblank","P01",[(G,"        *eof = false;\n        return Status::Ok();","        return Status::Ok();")]),
("p01_eof_blank","P01",[(G,"        *eof = false;\n        return Status::Ok();","        *eof = bnds.empty();\n        return Status::Ok();")]),
("p01_fin_strings","P01",[(F,"finished_ = result->lengths_.empty();","finished_ = result->strings_.empty();")]),
("p01_fin_never","P01",[(F,"  finished_ = result->lengths_.empty();\n","")]),
("p01_fin_pos","P01",[(F,"finished_ = !csv_.nextLine();","finished_ = csv_.nextLine();")]),
("p01_fin_early","P01",[(F,"      return Status::Ok();\n    }\n\n    auto line = csv_.line();","      finished_ = csv_.field(0) == \"EOS\" && result->lengths_.empty();\n      return Status::Ok();\n    }\n\n    auto line = csv_.line();")]),
("p01_reset","P01",[(H,"    charBuffer_.reset();\n    finished_ = false;","    charBuffer_.reset();")]),
("p01_batch_last","P01",[(T,"    if (rdr->finished()) {\n      break;\n    }\n","")]),
("p01_batch_count","P01",[(T,"    if (rdr->finished()) {\n      break;","    if (rdr->finished()) {\n      ++trIdx;\n      break;")]),
("p01_batch_skip","P01",[(T,"    JPP_RETURN_IF_ERROR(tr->readExample(rdr));\n    if","    JPP_RETURN_IF_ERROR(tr->readExample(rdr));\n    if (!rdr->finished() && trIdx == 0 && seed_ == 0) {\n      JPP_RETURN_IF_ERROR(tr->readExample(rdr));\n    }\n    if")]),
("p01_part_eof","P01",[(T,"    if (eof) {\n      break;\n    }\n    JPP_DCHECK(scorerDef_);","    JPP_DCHECK(scorerDef_);")]),
("p01_part_skip","P01",[(T,"    JPP_DCHECK(scorerDef_);\n    partial","    JPP_DCHECK(scorerDef_);\n    if (partialTrainer.example().nodes().empty()) {\n      continue;\n    }\n    partial")]),
("p01_epoch","P01",[(V,"while (!fullReader_.finished()) {","while (true) {")]),
("p01_epoch_reset","P01",[(J,"env.resetInput();","")]),
("p01_pos_moved","P01",[(C,"      // begin quote can be only at field start\n      if (position != field_start) {","      // begin quote can be only at field start\n      if (position != field_start) {\n        position_ = end;")]),
("p01_finish_cond","P01",[(C,"  if (position_ != end_) {\n    return Status::InvalidParameter()","  if (position_ != end_ && fields_.empty()) {\n    return Status::InvalidParameter()")]),
("p01_stay","P01",[(C,"      if (shouldEmit) {\n        fields_.emplace_back(field_start, position);\n      }\n      position_ = position;\n      break;","      if (shouldEmit) {\n        fields_.emplace_back(field_start, position);\n        position_ = position;\n      }\n      break;")]),
("p01_ok_helper","none",[(F,"  finished_ = !csv_.nextLine();\n  if (finished_) {\n    return csv_.finish();\n  }","  const bool more = csv_.nextLine();\n  finished_ = !more;\n  if (!more) {\n    return csv_.finish();\n  }")]),
("p01_ok_if","none",[(F,"  finished_ = !csv_.nextLine();\n  if (finished_) {\n    return csv_.finish();\n  }","  if (!csv_.nextLine()) {\n    finished_ = true;\n    Status s = csv_.finish();\n    return s;\n  }\n  finished_ = false;")]),
("p01_ok_loop","none",[(R,"  while (ssvReader.nextLine()) {\n    wdata.push_back(ssvReader.field(0));\n  }","  for (;;) {\n    if (!ssvReader.nextLine()) {\n      break;\n    }\n    wdata.push_back(ssvReader.field(0));\n  }")]),
("p01_ok_size","none",[(F,"finished_ = result->lengths_.empty();","finished_ = result->lengths_.size() == 0;")]),
("p01_ok_var","none",[(F,"  finished_ = result->lengths_.empty();\n  return Status::Ok();","  const auto numWords = result->lengths_.size();\n  finished_ = numWords == 0;\n  return Status::Ok();")]),
("p01_ok_ifeof","none",[(G,"  *eof = bnds.empty();\n  if (!bnds.empty()) {","  if (bnds.empty()) {\n    *eof = true;\n  } else {\n    *eof = false;")]),
("p01_ok_while","none",[(T,"  for (; trIdx < trainers_.size(); ++trIdx) {\n    auto &tr = trainers_[trIdx];","  while (trIdx < trainers_.size()) {\n    auto &tr = trainers_[trIdx];"),(T,"    if (rdr->finished()) {\n      break;\n    }\n","    if (rdr->finished()) {\n      break;\n    }\n    ++trIdx;\n")]),
("p01_ok_do","none",[(T,"  do {\n    JPP_RETURN_IF_ERROR(trainer->init","  while (true) {\n    JPP_RETURN_IF_ERROR(trainer->init"),(T,"  } while (!eof);","  }")]),
("p01_ok_epoch","none",[(V,"while (!fullReader_.finished()) {","for (;;) {\n    if (fullReader_.finished()) {\n      break;\n    }")]),
("p01_ok_extract","none",[(R,"  while (ssvReader.nextLine()) {\n    wdata.push_back(ssvReader.field(0));\n  }\n  JPP_RETURN_IF_ERROR(ssvReader.finish());","  auto readAll = [&]() -> Status {\n    while (ssvReader.nextLine()) {\n      wdata.push_back(ssvReader.field(0));\n    }\n    return ssvReader.finish();\n  };\n  JPP_RETURN_IF_ERROR(readAll());")]),
("p01_ok_pos","none",[(C,"  if (position_ != end_) {\n    return Status::InvalidParameter()\n           << \"malformed CSV on line \" << line_number_;\n  }\n  return Status::Ok();","  if (position_ == end_) {\n    return Status::Ok();\n  }\n  return Status::InvalidParameter()\n         << \"malformed CSV on line \" << line_number_;")]),
]
