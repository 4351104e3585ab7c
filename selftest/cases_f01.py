U="src/util/mmap_impl_unix.h"; M="src/core/impl/model_io.cc"; T="src/core/training/training_env.cc"; J="src/jumandic/main/jumanpp.cc"
CASES=[
("f01_rdwr","F01",[(U,"      file_mode |= O_RDONLY;\n","      file_mode |= O_RDWR;\n")]),
("f01_creat_out","F01",[(U,"  int file_mode = 0;","  int file_mode = O_CREAT;")]),
("f01_nobreak","F01",[(U,"      file_mode |= O_RDONLY;\n      break;","      file_mode |= O_RDONLY;")]),
("f01_mode_var","none",[(U,"""  int file_mode = 0;

  switch (type) {
    case MMapType::ReadOnly:
      file_mode |= O_RDONLY;
      break;
    case MMapType::ReadWrite:
      file_mode |= O_RDWR;
      file_mode |= O_CREAT;
      break;
  }
""","""  const bool writing = type == MMapType::ReadWrite;
  int file_mode = writing ? (O_RDWR | O_CREAT) : O_RDONLY;
""")]),
("f01_mode_helper","none",[(U,"Status MappedFile::open(StringPiece filename, MMapType type) {","static int openFlags(MMapType type) {\n  if (type == MMapType::ReadOnly) return O_RDONLY;\n  return O_RDWR | O_CREAT;\n}\n\nStatus MappedFile::open(StringPiece filename, MMapType type) {"),(U,"::open(filename_.c_str(), file_mode, 0644)","::open(filename_.c_str(), openFlags(type), 0644)")]),
("f01_perm","F01",[(U,"file_mode, 0644)","file_mode, 0444)")]),
("f01_prot","F01",[(U,"      protection = PROT_READ;\n","      protection = PROT_READ | PROT_WRITE;\n")]),
("f01_private","F01",[(U,"      flags = MAP_SHARED;","      flags = MAP_PRIVATE;")]),
("f01_nocheck","F01",[(U,"      if (endoffset > size_) {\n        return JPPS","      if (offset > size_) {\n        return JPPS")]),
("f01_sizecheck","F01",[(U,"      if (endoffset > size_) {\n        return JPPS","      if (size > size_) {\n        return JPPS")]),
("f01_off1","F01",[(U,"      if (endoffset > size_) {\n        return JPPS","      if (endoffset > size_ + 1) {\n        return JPPS")]),
("f01_swap","none",[(U,"      if (endoffset > size_) {\n        return JPPS","      if (size_ < offset + size) {\n        return JPPS")]),
("f01_bool","none",[(U,"      if (endoffset > size_) {\n        return JPPS","      if (size_ < endoffset) {\n        return JPPS")]),
("f01_noext","F01",[(U,"static_cast<off_t>(endoffset) - 1;","static_cast<off_t>(size) - 1;")]),
("f01_ext_guard","F01",[(U,"      if (endoffset > size_) {\n        off_t","      if (size > size_) {\n        off_t")]),
("f01_ext_end","F01",[(U,"lseek(fd_, fileoffset, SEEK_SET)","lseek(fd_, fileoffset, SEEK_CUR)")]),
("f01_len","F01",[(U,"size_t sizePsAligned = endoffset - offsetPsAligned;","size_t sizePsAligned = size;")]),
("f01_addr","F01",[(U,"static_cast<char *>(addr) + offsetFromStart","static_cast<char *>(addr) + offset")]),
("f01_alsize","F01",[(U,"view->alignedSize_ = sizePsAligned;","view->alignedSize_ = size;")]),
("f01_base","F01",[(U,"view->baseAddress_ = addr;","view->baseAddress_ = static_cast<char *>(addr) + offsetFromStart;")]),
("f01_size","F01",[(U,"view->size_ = size;","view->size_ = sizePsAligned;")]),
("f01_mod","none",[(U,"size_t offsetPsAligned = (offset / psInfo.normalPage) * psInfo.normalPage;","size_t offsetPsAligned = offset - offset % psInfo.normalPage;")]),
("f01_reorder","none",[(U,"  view->baseAddress_ = addr;\n  view->alignedSize_ = sizePsAligned;\n  view->address_ = static_cast<char *>(addr) + offsetFromStart;\n  view->size_ = size;","  auto start = static_cast<char *>(addr);\n  view->size_ = size;\n  view->address_ = start + (offset - offsetPsAligned);\n  view->alignedSize_ = sizePsAligned;\n  view->baseAddress_ = addr;")]),
("f01_unmap","F01",[(U,"::munmap(baseAddress_, alignedSize_)","::munmap(address_, size_)")]),
("f01_rwread","F01",[(M,"file_->mmap.open(name, util::MMapType::ReadOnly)","file_->mmap.open(name, util::MMapType::ReadWrite)")]),
("f01_unlink","F01",[(M,"Status ModelSaver::open(StringPiece name) {","Status ModelSaver::open(StringPiece name) {\n  std::remove(name.str().c_str());"),(M,"#include \"model_io.h\"","#include \"model_io.h\"\n#include <cstdio>")]),
("f01_out_in","F01",[(J,"std::ofstream{conf.outputFile}","std::ofstream{conf.modelFile}")]),
("f01_saver_helper","none",[(M,"Status ModelSaver::open(StringPiece name) {","static Status openForSaving(util::MappedFile* f, StringPiece name) {\n  return f->open(name, util::MMapType::ReadWrite);\n}\n\nStatus ModelSaver::open(StringPiece name) {"),(M,"JPP_RETURN_IF_ERROR(file_->mmap.open(name, util::MMapType::ReadWrite));","JPP_RETURN_IF_ERROR(openForSaving(&file_->mmap, name));")]),
("f01_csv","F01",[("src/util/csv_reader.cc","file_.open(filename, MMapType::ReadOnly)","file_.open(filename, MMapType::ReadWrite)")]),
]
