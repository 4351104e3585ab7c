MI="src/core/impl/model_io.cc"; DB="src/core/dic/dic_builder.cc"; PC="src/core/analysis/perceptron.cc"; RG="src/core/analysis/rnn_scorer_gbeam.cc"; SE="src/util/serialization.h"; ST="src/core/spec/spec_types.cc"; RN="src/rnn/mikolov_rnn.cc"; CI="src/util/coded_io.h"
CASES=[
("s03_block_nooffset","S03",[(MI,"if (raw.offset > modelData.size() ||\n          raw.size > modelData.size() - raw.offset) {","if (raw.size > modelData.size()) {")]),
("s03_block_sum","S03",[(MI,"if (raw.offset > modelData.size() ||\n          raw.size > modelData.size() - raw.offset) {","if (raw.offset + raw.size > modelData.size()) {")]),
("s03_block_and","S03",[(MI,"if (raw.offset > modelData.size() ||","if (raw.offset > modelData.size() &&")]),
("s03_block_helper","none",[(MI,"Status FilesystemModel::load(ModelInfo* info) {","static bool insideFile(const BlockPtr& b, StringPiece whole) {\n  if (b.offset > whole.size()) {\n    return false;\n  }\n  return b.size <= whole.size() - b.offset;\n}\n\nStatus FilesystemModel::load(ModelInfo* info) {"),(MI,"if (raw.offset > modelData.size() ||\n          raw.size > modelData.size() - raw.offset) {","if (!insideFile(raw, modelData)) {")]),
("s03_block_helper_bad","S03",[(MI,"Status FilesystemModel::load(ModelInfo* info) {","static bool insideFile(const BlockPtr& b, StringPiece whole) {\n  if (b.offset > whole.size()) {\n    return true;\n  }\n  return b.size <= whole.size() - b.offset;\n}\n\nStatus FilesystemModel::load(ModelInfo* info) {"),(MI,"if (raw.offset > modelData.size() ||\n          raw.size > modelData.size() - raw.offset) {","if (!insideFile(raw, modelData)) {")]),
("s03_block_status","none",[(MI,"Status FilesystemModel::load(ModelInfo* info) {","static Status checkBlock(const BlockPtr& b, u64 total) {\n  if (total < b.offset) {\n    return JPPS_INVALID_STATE << \"x\";\n  }\n  auto avail = total - b.offset;\n  if (avail < b.size) {\n    return JPPS_INVALID_STATE << \"y\";\n  }\n  return Status::Ok();\n}\n\nStatus FilesystemModel::load(ModelInfo* info) {"),(MI,"      if (raw.offset > modelData.size() ||","      JPP_RETURN_IF_ERROR(checkBlock(raw, modelData.size()));\n      if (raw.offset > modelData.size() + 4096 ||")]),
("s03_magic_none","S03",[(MI,"if (sp.take(magicSp.size()) != magicSp) {","if (sp.take(magicSp.size()).empty()) {")]),
("s03_magic_late","S03",[(MI,"if (sp.take(magicSp.size()) != magicSp) {","bool isModel = sp.take(magicSp.size()) == magicSp;\n  if (sp.size() < 16) {")]),
("s03_magic_bool","none",[(MI,"if (sp.take(magicSp.size()) != magicSp) {","const bool isModel = sp.take(magicSp.size()) == magicSp;\n  if (!isModel) {")]),
("s03_atend","S03",[(SE,"return ret && status_ && parser_.atEnd();","return ret && status_;")]),
("s03_status","S03",[(SE,"return ret && status_ && parser_.atEnd();","return ret && parser_.atEnd();")]),
("s03_load_split","none",[(SE,"return ret && status_ && parser_.atEnd();","if (!ret || !status_) {\n      return false;\n    }\n    return parser_.remaining() == 0;")]),
("s03_amp_overwrite","S03",[(SE,"    if (!SerializeImpl<T>::DoSerializeLoad(o, this, parser_)) {\n      status_ = false;\n    }","    status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);")]),
("s03_amp_ignore","S03",[(SE,"    if (!SerializeImpl<T>::DoSerializeLoad(o, this, parser_)) {\n      status_ = false;\n    }","    SerializeImpl<T>::DoSerializeLoad(o, this, parser_);")]),
("s03_amp_and","none",[(SE,"    if (!SerializeImpl<T>::DoSerializeLoad(o, this, parser_)) {\n      status_ = false;\n    }","    bool ok = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);\n    status_ = status_ && ok;")]),
("s03_vec_ignore","S03",[(SE,"      JPP_RET_CHECK(SerializeImpl<T>::DoSerializeLoad(o.back(), s, p));","      SerializeImpl<T>::DoSerializeLoad(o.back(), s, p);")]),
("s03_perc_parts","S03",[(PC,"savedPerc->data.size() != 2","savedPerc->data.empty()")]),
("s03_perc_parts_lt","none",[(PC,"savedPerc->data.size() != 2","savedPerc->data.size() < 2")]),
("s03_perc_parts_lt1","S03",[(PC,"savedPerc->data.size() != 2","savedPerc->data.size() < 1")]),
("s03_rnn_parts","S03",[(RG,"if (p->data.size() != 7) {","if (p->data.size() < 6) {")]),
("s03_rnn_parts_ge","none",[(RG,"if (p->data.size() != 7) {","const auto nparts = p->data.size();\n  if (nparts < 7) {")]),
("s03_dic_parts","S03",[(DB,"if (expectedCount != dicInfo.data.size()) {","if (expectedCount < 4) {")]),
("s03_dic_parts_lt","S03",[(DB,"if (expectedCount != dicInfo.data.size()) {","if (expectedCount < dicInfo.data.size()) {")]),
("s03_dic_parts_gt","none",[(DB,"if (expectedCount != dicInfo.data.size()) {","if (dicInfo.data.size() < expectedCount) {")]),
("s03_dic_data0","S03",[(DB,"  if (dicInfo.data.size() < 2) {\n    return Status::InvalidParameter() << \"dictionary info must have at least \"\n                                         \"two fragments, probably corrupted \"\n                                         \"model file\";\n  }\n","")]),
("s03_novalidate","S03",[(DB,"  JPP_RETURN_IF_ERROR(spec.validate());\n","")]),
("s03_validate_after","S03",[(DB,"  JPP_RETURN_IF_ERROR(spec.validate());\n\n  return fixupDictionary(dicInfo, this);","  JPP_RETURN_IF_ERROR(fixupDictionary(dicInfo, this));\n  return spec.validate();")]),
("s03_validate_version","S03",[(ST,"specVersion_ != SpecFormatVersion","specVersion_ < 0")]),
("s03_validate_and","S03",[(ST,"specMagic_ != SpecMagic || specMagic2_ != SpecMagic","specMagic_ != SpecMagic && specMagic2_ != SpecMagic")]),
("s03_validate_split","none",[(ST,"specMagic_ != SpecMagic || specMagic2_ != SpecMagic","!(specMagic_ == SpecMagic && SpecMagic == specMagic2_)")]),
("s03_dicindex","S03",[(DB,"    if (f.dicIndex != fd.dicIndex) {","    if (f.dicIndex < fd.dicIndex) {")]),
("s03_limit","S03",[(DB,"if (entryFldCnt > JPP_MAX_DIC_FIELDS) {","if (entryFldCnt > JPP_MAX_DIC_FIELDS * 2) {")]),
("s03_limit_ge","none",[(DB,"if (entryFldCnt > JPP_MAX_DIC_FIELDS) {","if (JPP_MAX_DIC_FIELDS < entryFldCnt) {")]),
("s03_columns","S03",[(DB,"if (dic->fieldData.size() != spec_->dictionary.fields.size()) {","if (dic->fieldData.empty()) {")]),
("s03_exponent","S03",[(PC,"if (pi.modelSizeExponent >= 64) {","if (pi.modelSizeExponent > 64) {")]),
("s03_exponent_neg","S03",[(PC,"if (pi.modelSizeExponent < 0) {","if (pi.modelSizeExponent == 0) {")]),
("s03_weightcount","S03",[(PC,"if (weightCount != dataSize) {","if (weightCount == 0) {")]),
("s03_weightcount_lt","none",[(PC,"if (weightCount != dataSize) {","if (weightCount < dataSize) {")]),
("s03_weightcount_gt","S03",[(PC,"if (weightCount != dataSize) {","if (weightCount > dataSize) {")]),
("s03_arr1d","S03",[(RG,"if (expected > data.size() / sizeof(float)) {","if (expected * sizeof(float) > data.size()) {")]),
("s03_arr1d_bytes","S03",[(RG,"if (expected > data.size() / sizeof(float)) {","if (data.size() == 0) {")]),
("s03_arr2d","S03",[(RG,"if (ncols != 0 && nrows > available / ncols) {","if (ncols != 0 && nrows < available / ncols) {")]),
("s03_copyarray","S03",[(RN,"if (*offset > data.size() || fullSize > data.size() - *offset) {","if (*offset > data.size() && fullSize > data.size()) {")]),
("s03_rnnalloc","S03",[(RN,"hdr.maxentSize > available) {","hdr.maxentSize == 1) {")]),
("s03_hdrshort","S03",[(RN,"if (data.size() < sizeof(PackedHeader)) {","if (data.empty()) {")]),
]
