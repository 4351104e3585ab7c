SZ="src/util/serialization.h"; MF="src/core/impl/model_format_ser.h"; EB="src/core/dic/entry_builder.cc"; DB="src/core/dic/dic_builder.cc"; CI="src/util/coded_io.h"; FR="src/core/dic/field_reader.h"; FI="src/core/dic/field_import.cc"
CASES=[
("s01_drop_field","S01",[(MF,"  a& o.end;\n","")]),
("s01_order_arch","none",[(MF,"  a& o.start;\n  a& o.end;\n","  a& o.end;\n  a& o.start;\n")]),
("s01_i64","S01",[(SZ,"    auto r = static_cast<u64>(o);\n    buf.writeVarint(r);","    u32 r;\n    std::memcpy(&r, &o, 4);\n    buf.writeFixed32(r);")]),
("s01_bool","S01",[(SZ,"o = (res == 1);","o = (res == 0);")]),
("s01_sticky","S01",[(SZ,"    if (!SerializeImpl<T>::DoSerializeLoad(o, this, parser_)) {\n      status_ = false;\n    }","    status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);")]),
("s01_sticky_benign","none",[(SZ,"    if (!SerializeImpl<T>::DoSerializeLoad(o, this, parser_)) {\n      status_ = false;\n    }","    bool good = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);\n    status_ = good && status_;")]),
("s01_mark","S01",[(EB,"resultPtr = (ptr << 1) | 0x1;","resultPtr = (ptr << 2) | 0x1;")]),
("s01_mark_benign","none",[(EB,"resultPtr = (ptr << 1) | 0x1;","u64 shifted = ptr << 1;\n    resultPtr = shifted | 1;")]),
("s01_flip_benign","none",[(EB,"if (data.size() == 1) {\n    // write a singular node\n    for (auto f : data.front()) {\n      buf.writeVarint(static_cast<u32>(f));\n    }\n    resultPtr = ptr << 1;\n  } else {","if (data.size() != 1) {"),(EB,"    resultPtr = (ptr << 1) | 0x1;\n  }","    resultPtr = (ptr << 1) | 0x1;\n  } else {\n    for (auto f : data.front()) {\n      buf.writeVarint(static_cast<u32>(f));\n    }\n    resultPtr = ptr << 1;\n  }")]),
("s01_count","S01",[(EB,"    buf.writeVarint(data.size());\n","    if (data.size() > 2) buf.writeVarint(data.size());\n")]),
("s01_vec_benign","none",[(SZ,"    u64 size = o.size();\n    buf.writeVarint(size);\n    for (T &child : o) {\n      SerializeImpl<T>::DoSerializeSave(child, s, buf);\n    }","    buf.writeVarint(o.size());\n    for (size_t i = 0; i < o.size(); ++i) {\n      SerializeImpl<T>::DoSerializeSave(o[i], s, buf);\n    }")]),
]
