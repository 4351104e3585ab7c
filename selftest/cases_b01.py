CI="src/util/coded_io.h"; CC="src/util/coded_io.cc"; SP="src/util/string_piece.h"; FR="src/core/dic/field_reader.h"; DE="src/core/dic/dic_entries.h"; SE="src/util/serialization.h"; CB="src/util/char_buffer.h"
CASES=[
("b01_varint_le","B01",[(CI,"JPP_LIKELY(position_ < end_)","JPP_LIKELY(position_ <= end_)")]),
("b01_varint_ne","B01",[(CI,"JPP_LIKELY(position_ < end_)","JPP_LIKELY(position_ != end_)")]),
("b01_varint_swap","none",[(CI,"JPP_LIKELY(position_ < end_)","JPP_LIKELY(end_ > position_)")]),
("b01_varint_diff","none",[(CI,"JPP_LIKELY(position_ < end_)","JPP_LIKELY(!atEnd())")]),
("b01_varint_local","none",[(CI,"    if (JPP_LIKELY(position_ < end_) && *position_ < 0x80) {\n      *ptr = *position_;\n      ++position_;","    const u8* here = position_;\n    if (JPP_LIKELY(here < end_) && *here < 0x80) {\n      *ptr = *here;\n      position_ = here + 1;")]),
("b01_string_len","B01",[(CI,"    if (len > remaining()) {","    if (position_ > end_) {")]),
("b01_string_plus","B01",[(CI,"    if (len > remaining()) {","    if (position_ + len > end_) {")]),
("b01_string_plus1","B01",[(CI,"    if (len > remaining()) {","    if (len > remaining() + 1) {")]),
("b01_string_swap","none",[(CI,"    if (len > remaining()) {","    const auto rest = remaining();\n    if (rest < len) {")]),
("b01_fixed_off","B01",[(CI,"    if (remaining() < sizeof(u32)) {\n      return false;","    if (remaining() < sizeof(u32) - 1) {\n      return false;")]),
("b01_fixed_ptr","none",[(CI,"    if (remaining() < sizeof(u32)) {\n      return false;","    if (end_ - position_ < 4) {\n      return false;")]),
("b01_slow_remaining","B01",[(CC,"if (remaining() >= impl::UInt64MaxSize) {","if (remaining() >= sizeof(u64)) {")]),
("b01_slow_noend","B01",[(CC,"    if (JPP_UNLIKELY(position_ >= end_)) {\n      return false;\n    }\n","")]),
("b01_slow_early","B01",[(CC,"    if (JPP_UNLIKELY(position_ >= end_)) {\n      return false;\n    }\n",""),(CC,"  u32 b;\n  do {\n    if (count","  u32 b;\n  if (position_ >= end_) return false;\n  do {\n    if (count")]),
("b01_slow_while","none",[(CC,"    if (JPP_UNLIKELY(position_ >= end_)) {\n      return false;\n    }\n","    if (atEnd()) {\n      return false;\n    }\n")]),
("b01_write_grow","B01",[(CI,"    if (JPP_UNLIKELY(remaining() < impl::UInt64MaxSize)) {","    if (JPP_UNLIKELY(remaining() < sizeof(value))) {")]),
("b01_write_str","B01",[(CI,"    size_t maxSize = vsize + impl::UInt64MaxSize;","    size_t maxSize = vsize + sizeof(u32);")]),
("b01_write_str_inline","none",[(CI,"    size_t maxSize = vsize + impl::UInt64MaxSize;\n    if (JPP_UNLIKELY(remaining() < maxSize)) {\n      grow(maxSize);","    if (JPP_UNLIKELY(remaining() < vsize + impl::UInt64MaxSize)) {\n      grow(vsize + impl::UInt64MaxSize);")]),
("b01_write_fixed","B01",[(CI,"    if (JPP_UNLIKELY(remaining() < sizeof(u32))) {\n      grow(sizeof(u32));\n    }\n    *(front_","    if (JPP_UNLIKELY(front_ == end_)) {\n      grow(sizeof(u32));\n    }\n    *(front_")]),
("b01_grow_max","B01",[(CC,"auto newsize = curSize + std::max(autosize - curSize, atLeast);","auto newsize = std::max(autosize, atLeast);")]),
("b01_slice_noclamp","B01",[(SP,"auto end_new = std::min(begin() + to, end());","auto end_new = begin() + to;")]),
("b01_from_noclamp","B01",[(SP,"return StringPiece{std::min(begin() + from, end()), end()};","return StringPiece{begin() + from, end()};")]),
("b01_take_cond","none",[(SP,"return StringPiece{begin(), std::min(begin() + num, end())};","return StringPiece{begin(), begin() + num < end() ? begin() + num : end()};")]),
("b01_readone_le","B01",[(FR,"parser_.readInt(result) & (position_ < length_)","parser_.readInt(result) & (position_ <= length_)")]),
("b01_readone_drop","B01",[(FR,"parser_.readInt(result) & (position_ < length_)","parser_.readInt(result)")]),
("b01_readone_if","none",[(FR,"    bool ret = parser_.readInt(result) & (position_ < length_);\n    position_ += 1;\n    return ret;","    const bool inside = position_ < length_;\n    position_ += 1;\n    return parser_.readInt(result) && inside;")]),
("b01_readone_early","none",[(FR,"    bool ret = parser_.readInt(result) & (position_ < length_);\n    position_ += 1;\n    return ret;","    if (position_ >= length_) return false;\n    position_ += 1;\n    return parser_.readInt(result);")]),
("b01_movenext","B01",[(FR,"    JPP_RET_CHECK(hasNext());\n","")]),
("b01_fill_le","B01",[(FR,"for (; nread < cnt && readOne(&var); ++nread) {","for (; nread <= cnt && readOne(&var); ++nread) {")]),
("b01_fill_order","B01",[(FR,"for (; nread < cnt && readOne(&var); ++nread) {","for (; readOne(&var); ++nread) {")]),
("b01_fill_while","none",[(FR,"    for (; nread < cnt && readOne(&var); ++nread) {\n      c[nread] = var;\n    }","    while (nread < cnt) {\n      if (!readOne(&var)) {\n        break;\n      }\n      c[nread] = var;\n      ++nread;\n    }")]),
("b01_storage_short","B01",[(DE,"      auto num = actualData.fill(featureBuffer_, totalCnt);\n      if (num < totalCnt) {\n        return false;\n      }\n      remainingData_.clear();","      auto num = actualData.fill(featureBuffer_, totalCnt);\n      if (num < numFeatures_) {\n        return false;\n      }\n      remainingData_.clear();")]),
("b01_nextdata","B01",[(DE,"    return res == numData_;","    return res != 0;")]),
("b01_nextdata_ge","none",[(DE,"    return res == numData_;","    if (res < numData_) {\n      return false;\n    }\n    return true;")]),
("b01_vec","B01 S03",[(SE,"    JPP_RET_CHECK(sz <= p.remaining());\n","")]),
("b01_vec_if","none",[(SE,"    JPP_RET_CHECK(sz <= p.remaining());\n","    if (p.remaining() < sz) {\n      return false;\n    }\n")]),
("b01_page_size","B01",[(CB,"    if (sz > page_size) {\n      return false;\n    }\n","")]),
("b01_page_rest","B01",[(CB,"    if (remaining < sz) {","    if (remaining <= 0) {")]),
("b01_page_helper","none",[(CB,"    ptrdiff_t remaining = page_size - position_;\n    if (remaining < sz) {","    if (position_ + static_cast<ptrdiff_t>(sz) > page_size) {")]),
("b01_locate","B01",[("src/core/analysis/output.cc","      JPP_RET_CHECK(result->buffer_.fillFromStorage(\n          actualPtr, this->entries_.entryData()));","      result->buffer_.fillFromStorage(actualPtr, this->entries_.entryData());")]),
]
