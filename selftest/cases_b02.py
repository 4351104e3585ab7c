CH="src/util/characters.h"; CC="src/util/characters.cc"; CV="src/util/csv_reader.cc"; PU="src/util/parse_utils.cc"; AI="src/core/analysis/analysis_input.cc"; PE="src/core/input/partial_example_io.cc"; FE="src/core/training/full_example.cc"
CASES=[
("b02_dec4_short","B02",[(CH,"JPP_CHAR_CHECK(itr_end - itr >= 4);","JPP_CHAR_CHECK(itr_end - itr >= 3);")]),
("b02_dec3_gone","B02",[(CH,"    JPP_CHAR_CHECK(itr_end - itr >= 3);\n","")]),
("b02_dec2_gt","none",[(CH,"JPP_CHAR_CHECK(itr_end - itr >= 2);","JPP_CHAR_CHECK(itr_end - itr > 1);")]),
("b02_dec2_sub","none",[(CH,"JPP_CHAR_CHECK(itr_end - itr >= 2);","JPP_CHAR_CHECK(itr + 2 <= itr_end);")]),
("b02_cont_gone","B02",[(CH,"    JPP_CHAR_CHECK(((*itr & ~0x3f) ^ 0x80) == 0);\n    u |= *(itr++) & 0x3fu;\n    return {u, 2};","    u |= *(itr++) & 0x3fu;\n    return {u, 2};")]),
("b02_cont_mask","B02",[(CH,"    JPP_CHAR_CHECK(((*itr & ~0x3f) ^ 0x80) == 0);\n    u |= *(itr++) & 0x3fu;\n    return {u, 3};","    JPP_CHAR_CHECK(((*itr & ~0x7f) ^ 0x80) == 0);\n    u |= *(itr++) & 0x3fu;\n    return {u, 3};")]),
("b02_cont_eq","none",[(CH,"    JPP_CHAR_CHECK(((*itr & ~0x3f) ^ 0x80) == 0);\n    u |= *(itr++) & 0x3fu;\n    return {u, 2};","    JPP_CHAR_CHECK((*itr & 0xc0) == 0x80);\n    u |= *(itr++) & 0x3fu;\n    return {u, 2};")]),
("b02_cont_range","none",[(CH,"    JPP_CHAR_CHECK(((*itr & ~0x3f) ^ 0x80) == 0);\n    u |= *(itr++) & 0x3fu;\n    return {u, 2};","    JPP_CHAR_CHECK(*itr >= 0x80 && *itr < 0xc0);\n    u |= *(itr++) & 0x3fu;\n    return {u, 2};")]),
("b02_lead_thr","B02",[(CH,"*itr > 0x00ef) { /* 4 bytes */","*itr > 0x00ef) { /* 4 bytes */"),(CH,"    JPP_CHAR_CHECK(((*itr & ~0x1f) ^ 0xc0) == 0);\n","")]),
("b02_len3","B02",[(CH,"    return {u, 3};","    return {u, 2};")]),
("b02_helper","none",[(CH,"inline CodePointInfo getCodepoint(","inline bool isTail(u8 b) noexcept { return (b & 0xc0) == 0x80; }\n\ninline CodePointInfo getCodepoint("),(CH,"    JPP_CHAR_CHECK(((*itr & ~0x3f) ^ 0x80) == 0);\n    u |= *(itr++) & 0x3fu;\n    return {u, 2};","    JPP_CHAR_CHECK(isTail(*itr));\n    u |= *(itr++) & 0x3fu;\n    return {u, 2};")]),
("b02_lead_order","none",[(CH,"  if (*itr > 0x00ef) { /* 4 bytes */","  const auto rest = itr_end - itr;\n  if (rest < 1) return {0, 0};\n  if (*itr > 0x00ef) { /* 4 bytes */"),(CH,"JPP_CHAR_CHECK(itr_end - itr >= 4);","JPP_CHAR_CHECK(rest >= 4);")]),
("b02_num_end","B02",[(CC,"  if (itr != end) {\n    return -1;\n  }\n","")]),
("b02_num_gt","none",[(CC,"  if (itr != end) {\n    return -1;\n  }\n  return count;","  return itr == end ? count : -1;")]),
("b02_num_step","B02",[(CC,"    } else if (*itr > 0xdf) { /* 3 bytes */\n      itr += 3;","    } else if (*itr > 0xcf) { /* 3 bytes */\n      itr += 3;")]),
("b02_num_step2","B02",[(CC,"      itr += 4;","      itr += 3;")]),
("b02_num_ne","B02",[(CC,"  while (itr < end) {\n    if (*itr >","  while (itr != end) {\n    if (*itr >")]),
("b02_num_loc","none",[(CC,"    if (*itr > 0x00ef) { /* 4 bytes */\n      itr += 4;","    const u8 lead = *itr;\n    if (lead >= 0xf0) { /* 4 bytes */\n      itr += 4;")]),
("b02_pre_break","B02",[(CC,"      return JPPS_INVALID_PARAMETER << \"Invalid UTF8 sequence: \" << utf8data;","      ret.utf8Length = 1;")]),
("b02_pre_helper","none",[(CC,"    if (ret.utf8Length == 0) {","    const bool broken = ret.utf8Length < 1;\n    if (broken) {")]),
("b02_pre_local","none",[(CC,"    auto ret = getCodepoint(itr, end);\n\n    if (ret.utf8Length == 0) {","    auto ret = getCodepoint(itr, end);\n    const auto len = ret.utf8Length;\n    if (len == 0) {")]),
("b02_csv_next","B02",[(CV,"if (next < end && *next == '\\n')","if (*next == '\\n')")]),
("b02_csv_next_le","B02",[(CV,"if (next < end && *next == '\\n')","if (next <= end && *next == '\\n')")]),
("b02_csv_next_ne","none",[(CV,"if (next < end && *next == '\\n')","if (next != end && *next == '\\n')")]),
("b02_csv_nr","B02",[(CV,"if (position_ < end && *position_ == '\\r')","if (*position_ == '\\r')")]),
("b02_csv_resend","B02",[(CV,"      if (resEnd == end) {  // there wasn't quote end present\n        return false;\n      }\n","")]),
("b02_csv_resnext","B02",[(CV,"if (next != end && !util::contains","if (!util::contains")]),
("b02_csv_uq","B02",[(CV,"      ++source;\n      if (source == end) {\n        return false;\n      }\n","      ++source;\n")]),
("b02_csv_wtf","B02",[(CV,"  if ((source + 1) == end) {\n    return false;\n  }\n","")]),
("b02_csv_corner","none",[(CV,"  if ((source + 2) == end) {\n    *result = StringPiece{sp.char_begin(), source + 1};\n    return true;\n  }\n","")]),
("b02_csv_hq","B02",[(CV,"      if (position == end) {  // first case: quote followed by EOS\n        *result = StringPiece{start, position - 1};\n        return wasQuoted;\n      }\n","")]),
("b02_csv_hq2","B02",[(CV,"        wasQuoted = true;\n        ++position;\n        continue;","        wasQuoted = true;\n        position += 2;\n        continue;")]),
("b02_csv_loop","none",[(CV,"    auto ch = *position;\n    if (ch == '\\n') {","    const char ch = *position;\n    const auto here = position;\n    if ('\\n' == *here) {")]),
("b02_csv_crlf","none",[(CV,"      auto next = position + 1;\n      if (next < end && *next == '\\n') {","      if (end - position > 1 && position[1] == '\\n') {\n        auto next = position + 1;")]),
("b02_dig_and","B02",[(PU,"x >= '0' && x <= '9'","x >= '0' || x <= '9'")]),
("b02_dig_colon","B02",[(PU,"x <= '9'","x <= ':'")]),
("b02_dig_dist","none",[(PU,"x >= '0' && x <= '9'","static_cast<unsigned char>(x - '0') <= 9")]),
("b02_dig_neg","none",[(PU,"    if (x >= '0' && x <= '9') {\n      val = (val * 10) + (x - '0');\n    } else {\n      return false;\n    }","    if (x < '0' || x > '9') return false;\n    val = val * 10 + (x - '0');")]),
("b02_dig_le","B02",[(PU,"c < sp.char_end()","c <= sp.char_end()")]),
("b02_ai_ign","B02",[(AI,"  JPP_RETURN_IF_ERROR(chars::preprocessRawData(raw_input_, &codepoints_));","  chars::preprocessRawData(raw_input_, &codepoints_);")]),
("b02_pe_ign","B02",[(PE,"      JPP_RIE_MSG(chars::preprocessRawData(fldValue, &codepts_),\n                  fldValue << \" at \" << filename_ << \":\" << csv_.lineNumber());","      chars::preprocessRawData(fldValue, &codepts_);")]),
("b02_pe_local","none",[(AI,"  JPP_RETURN_IF_ERROR(chars::preprocessRawData(raw_input_, &codepoints_));","  Status ok = chars::preprocessRawData(raw_input_, &codepoints_);\n  if (!ok) {\n    return ok;\n  }")]),
]
