AI="src/core/analysis/analyzer_impl.cc"; MIO="src/core/impl/model_io.cc"; CB="src/util/char_buffer.h"; MM="src/util/mmap_impl_unix.h"
ME="src/util/memory.cpp"; MH="src/util/memory.hpp"; IV="src/util/inlined_vector.h"; ST="src/util/status.cpp"; SH="src/util/status.hpp"
RN="src/rnn/mikolov_rnn.cc"; RS="src/core/analysis/rnn_scorer_gbeam.cc"; TR="src/core/training/trainer.cc"; PE="src/core/input/partial_example_io.cc"
FE="src/core/training/full_example.cc"; SC="src/core/spec/spec_compiler.cc"; JE="src/jumandic/shared/jumandic_env.cc"; DB="src/core/dic/dic_builder.cc"
PT="src/core/training/partial_trainer.cc"; PF="src/core/analysis/perceptron.cc"; RR="src/core/analysis/rnn_id_resolver.cc"
GV="src/core/impl/graphviz_format.h"; FD="src/core/impl/feature_debug.cc"; SP="src/core/analysis/score_processor.cc"
CASES=[
("m01_cb_moveleak","M01",[(CB,"    for (auto p : storage_) {\n      delete p;\n    }\n    storage_ = std::move","    storage_ = std::move")]),
("m01_cb_copystorage","M01",[(CB,"    storage_ = std::move(c.storage_);","    storage_ = c.storage_;")]),
("m01_cb_ctorcopy","M01",[(CB,": storage_{std::move(c.storage_)},",": storage_(c.storage_),")]),
("m01_frag_move","M01",[(MM,"      size_{o.size_} {\n  o.address_ = MAP_FAILED;\n}","      size_{o.size_} {\n  o.size_ = 0;\n}")]),
("m01_frag_assign","M01",[(MM,"  if (!isClean()) {\n    this->unmap();\n  }\n  baseAddress_ = o","  baseAddress_ = o")]),
("m01_file_move","M01",[(MM,"      size_{o.size_} {\n  o.fd_ = 0;\n}","      size_{o.size_} {}")]),
("m01_file_assign","M01",[(MM,"  if (this->fd_ != 0) {\n    ::close(fd_);\n  }\n  fd_ = o.fd_;","  fd_ = o.fd_;")]),
("m01_file_assign2","M01",[(MM,"  size_ = o.size_;\n  o.fd_ = 0;\n","  size_ = o.size_;\n")]),
("m01_open_leak","M01",[(MM,"  this->fd_ = fd;\n\n  return Status::Ok();","  struct stat st2;\n  if (::fstat(fd, &st2) != 0) {\n    return Status::InvalidState() << \"could not stat\" << filename;\n  }\n  this->fd_ = fd;\n\n  return Status::Ok();")]),
("m01_status_move","M01",[(SH,"data_{s.data_} { s.data_ = nullptr; }","data_{s.data_} {}")]),
("m01_status_assign","M01",[(ST,"  data_ = s.data_;\n  s.data_ = nullptr;","  data_ = s.data_;")]),
("m01_status_leak","M01",[(ST,"  if (data_ != nullptr) {\n    delete data_;\n  }\n  data_ = s.data_;","  data_ = s.data_;")]),
("m01_scorer_use","M01",[(AI,"    scorers_.emplace_back(std::move(comp));","    scorers_.emplace_back(std::move(comp));\n    if (!comp->scoreLattice(nullptr, nullptr, 0)) {\n      return Status::InvalidState();\n    }")]),
("m01_rawpart","M01",[(MIO,"    rawPart.end = offset;\n    raw.parts.push_back(std::move(rawPart));","    raw.parts.push_back(std::move(rawPart));\n    rawPart.end = offset;\n    raw.parts.back().end = rawPart.end + rawPart.data.size();")]),
("m01_trainer_order","M01",[(TR,"    JPP_RETURN_IF_ERROR(trainer->initAnalyzer(sconf));\n    trainers_.emplace_back(std::move(trainer));","    trainers_.emplace_back(std::move(trainer));\n    JPP_RETURN_IF_ERROR(trainer->initAnalyzer(sconf));")]),
("m01_trainer_release","M01",[(TR,"    trainers_.emplace_back(std::move(trainer));","    trainers_.emplace_back(std::unique_ptr<OwningFullTrainer>(trainer.get()));")]),
("m01_partial_get","M01",[(TR,"partialTrainerts_.emplace_back(trainer.release());","partialTrainerts_.emplace_back(trainer.get());")]),
("m01_partial_drop","M01",[(TR,"    partialTrainerts_.emplace_back(trainer.release());","    if (partialTrainerts_.size() < 4) {\n      partialTrainerts_.emplace_back(std::move(trainer));\n    } else {\n      trainer.release();\n    }")]),
("m01_stale_part","M01",[(MIO,"    parts.emplace_back();\n    auto& part = parts.back();\n    part.kind = p.kind;","    auto& part = *parts.insert(parts.end(), ModelPart{});\n    part.kind = p.kind;\n    if (parts.size() < 2) {\n      parts.reserve(4);\n    }")]),
("m01_stale_dic","M01",[(SC,"  fdata.emplace_back();\n  auto& v = fdata.back();\n  f->name().assignTo(v.name);\n  v.index = idx;","  fdata.emplace_back();\n  auto& v = fdata.back();\n  f->name().assignTo(v.name);\n  v.index = idx;\n  if (f->matchData_.empty()) {\n    fdata.emplace_back();\n  }")]),
("m01_stale_feat","M01",[(SC,"    res.emplace_back();\n    auto& ngramRes = res.back();\n    ngramRes.index = number;\n    ++number;","    res.emplace_back();\n    auto& ngramRes = res.back();\n    res.reserve(res.size() + 1);\n    ngramRes.index = number;\n    ++number;")]),
("m01_range_push","M01",[(PT,"  for (auto& f : features_) {\n    f.feature &= mask_;\n  }","  for (auto& f : features_) {\n    f.feature &= mask_;\n    if (f.score == 0) {\n      features_.pop_back();\n    }\n  }")]),
("m01_transient","M01",[(RN,"    if (ssvReader.rowHadQuoted() && !data_->wordBuffer.import(&word)) {","    if (word.size() > (1 << 20)) {")]),
("m01_transient2","M01",[(FE,"      if (csv_.rowHadQuoted()) {\n        if (!charBuffer_.import(&fld)) {","      if (csv_.rowHadQuoted()) {\n        if (fld.size() > (1 << 20)) {")]),
("m01_import","M01",[("src/core/dic/field_import.cc","    if (!charBuf_.import(&serialized)) {","    charBuf_.import(&serialized);\n    if (serialized.size() > (1 << 20)) {")]),
("m01_saver","M01",[(RS,"  util::serialization::Saver s{&state_->codedBuf_};","  util::serialization::Saver s;")]),
("m01_saver2","M01",[(DB,"  util::serialization::Saver dicDataSaver{&storage_->builtDicData};","  util::CodedBuffer dicData;\n  util::serialization::Saver dicDataSaver{&dicData};"),(DB,"part->data.push_back(storage_->builtDicData.contents());","part->data.push_back(dicDataSaver.result());")]),
("m01_pool","M01",[(PT,"  memMgr_.reset();\n  alloc_->reset();","  memMgr_.reset();")]),
("m01_page","M01",[(ME,"  offset_ = objEnd;","  offset_ = address;")]),
("m01_align","M01",[(ME,"  auto address = Align(offset_, alignment);","  auto address = offset_;")]),
("m01_fits","M01",[(ME,"  if (JPP_UNLIKELY(objEnd > end_)) {","  if (JPP_UNLIKELY(address > end_)) {")]),
("m01_aligndown","M01",[(MH,"    return (val & ~(alignment - 1)) + alignment;","    return val & ~(alignment - 1);")]),
("m01_vdtor","M01",[("src/core/analysis/score_api.h","  virtual ~ScoreComputer() = default;","")]),
("m01_free","M01",[(IV,"    if (!is_inline()) {\n      port::Free(base);\n    }\n  }","    if (!is_inline()) {\n      delete[] reinterpret_cast<char*>(base);\n    }\n  }")]),
("m01_temp","M01",[(RN,"  auto nnetFile = filename.str() + \".nnet\";","  StringPiece nnetFile = filename.str() + \".nnet\";")]),
("m01_jfmt","M01",[(JE,"      auto jfmt = new jumandic::output::JumanFormat;\n      format_.reset(jfmt);\n      JPP_RETURN_IF_ERROR(jfmt->initialize(analyzer_.output()));","      auto jfmt = new jumandic::output::JumanFormat;\n      JPP_RETURN_IF_ERROR(jfmt->initialize(analyzer_.output()));\n      format_.reset(jfmt);")]),
("m01_ok_swap","none",[(CB,"    for (auto p : storage_) {\n      delete p;\n    }\n    storage_ = std::move(c.storage_);","    storage_.swap(c.storage_);")]),
("m01_ok_alloc","none",[(ME,"  auto address = Align(offset_, alignment);\n  auto objEnd = address + size;\n  if (JPP_UNLIKELY(objEnd > end_)) {\n    switchToNewPage(size);\n    return allocate_memory(size, alignment);\n  }\n  offset_ = objEnd;","  const size_t start = Align(offset_, alignment);\n  auto address = start;\n  if (JPP_UNLIKELY(start + size > end_)) {\n    switchToNewPage(size);\n    return allocate_memory(size, alignment);\n  }\n  offset_ = size + start;")]),
("m01_ok_unique","none",[(JE,"      auto jfmt = new jumandic::output::JumanFormat;\n      format_.reset(jfmt);\n      JPP_RETURN_IF_ERROR(jfmt->initialize(analyzer_.output()));","      std::unique_ptr<jumandic::output::JumanFormat> jfmt{new jumandic::output::JumanFormat};\n      JPP_RETURN_IF_ERROR(jfmt->initialize(analyzer_.output()));\n      format_ = std::move(jfmt);")]),
("m01_ok_partial","none",[(TR,"    partialTrainerts_.emplace_back(trainer.release());","    partialTrainerts_.push_back(std::move(trainer));")]),
("m01_ok_movehelper","none",[(MIO,"    rawPart.end = offset;\n    raw.parts.push_back(std::move(rawPart));","    rawPart.end = offset;\n    raw.parts.emplace_back(std::move(rawPart));\n    rawPart = ModelPartRaw{};\n    rawPart.end = 0;")]),
("m01_ok_idx","none",[(MIO,"    parts.emplace_back();\n    auto& part = parts.back();","    parts.reserve(parts.size() + 1);\n    parts.emplace_back();\n    auto& part = parts[parts.size() - 1];")]),
("m01_ok_fd","none",[(MM,"  this->fd_ = fd;\n\n  return Status::Ok();","  if (filename.empty()) {\n    ::close(fd);\n    return Status::InvalidState() << \"no name\";\n  }\n  fd_ = fd;\n  return Status::Ok();")]),
("m01_status_assign_path","M01",[("src/util/status.cpp","  if (data_ != nullptr) {\n    delete data_;","  if (s.data_ == nullptr) {\n    delete data_;")]),
("m01_status_assign_okpath","none",[("src/util/status.cpp","  if (data_ != nullptr) {\n    delete data_;\n  }","  delete data_;")]),
]
