M="src/jumandic/main/jumanpp.cc"; E="src/jumandic/shared/jumandic_env.cc"; J="src/jumandic/shared/juman_format.cc"; L="src/jumandic/shared/lattice_format.cc"; F="src/jumandic/shared/morph_format.cc"; S="src/core/impl/segmented_format.cc"; A="src/core/analysis/analyzer_impl.cc"
CASES=[
("o01_noempty","O01",[(M,"      std::cerr << s;\n      *io.output_ << exec.emptyResult();\n      continue;","      std::cerr << s;\n      continue;")]),
("o01_nocontinue","O01",[(M,"      *io.output_ << exec.emptyResult();\n      result = 1;\n      continue;","      *io.output_ << exec.emptyResult();\n      result = 1;")]),
("o01_double","O01",[(M,"      std::cerr << s;\n      *io.output_ << exec.emptyResult();\n    } else {\n      *io.output_ << exec.format()->result();","      std::cerr << s;\n      *io.output_ << exec.emptyResult();\n    }\n    {\n      *io.output_ << exec.format()->result();")]),
("o01_break","O01",[(M,"      *io.output_ << exec.emptyResult();\n      result = 1;\n      continue;","      *io.output_ << exec.emptyResult();\n      result = 1;\n      break;")]),
("o01_skipempty","O01",[(M,"    s = io.streamReader_->analyzeWith(exec.analyzerPtr());","    if (io.streamReader_->comment().empty() && !*io.input_) {\n      continue;\n    }\n    s = io.streamReader_->analyzeWith(exec.analyzerPtr());")]),
("o01_helper","none",[(M,"int main(int argc, const char** argv) {","static void writeSubstitute(InputOutput& io, const jumandic::JumanppExec& exec) {\n  *io.output_ << exec.emptyResult();\n}\n\nint main(int argc, const char** argv) {"),(M,"      std::cerr << s;\n      *io.output_ << exec.emptyResult();\n      continue;","      std::cerr << s;\n      writeSubstitute(io, exec);\n      continue;")]),
("o01_helper2","none",[(M,"int main(int argc, const char** argv) {","static void put(std::ostream& os, StringPiece what) {\n  os << what;\n}\n\nint main(int argc, const char** argv) {"),(M,"      std::cerr << s;\n      *io.output_ << exec.emptyResult();\n      continue;","      std::cerr << s;\n      put(*io.output_, exec.emptyResult());\n      continue;"),(M,"*io.output_ << exec.format()->result();","put(*io.output_, exec.format()->result());")]),
("o01_for","none",[(M,"  while (io.hasNext()) {","  for (; io.hasNext();) {")]),
("o01_inv","none",[(M,"""    if (!s) {
      std::cerr << s;
      *io.output_ << exec.emptyResult();
    } else {
      *io.output_ << exec.format()->result();
      s = exec.finishAnalysis();
      if (!s) {
        std::cerr << s;
        result = 1;
      }
    }""","""    if (s) {
      *io.output_ << exec.format()->result();
      s = exec.finishAnalysis();
      if (!s) {
        std::cerr << s;
        result = 1;
      }
      continue;
    }
    std::cerr << s;
    *io.output_ << exec.emptyResult();""")]),
("o01_fnloop","none",[(M,"""    s = io.streamReader_->analyzeWith(exec.analyzerPtr());
    if (!s) {
      std::cerr << s;
      *io.output_ << exec.emptyResult();
      continue;
    }

    s = exec.format()->format(*exec.analyzerPtr(), io.streamReader_->comment());
    if (!s) {
      std::cerr << s;
      *io.output_ << exec.emptyResult();
    } else {
      *io.output_ << exec.format()->result();
      s = exec.finishAnalysis();
      if (!s) {
        std::cerr << s;
        result = 1;
      }
    }
""","""    if (!processInput(io, exec)) {
      result = 1;
    }
"""),(M,"int main(int argc, const char** argv) {","""static bool processInput(InputOutput& io, jumandic::JumanppExec& exec) {
  Status s = io.streamReader_->analyzeWith(exec.analyzerPtr());
  if (!s) {
    std::cerr << s;
    *io.output_ << exec.emptyResult();
    return true;
  }

  s = exec.format()->format(*exec.analyzerPtr(), io.streamReader_->comment());
  if (!s) {
    std::cerr << s;
    *io.output_ << exec.emptyResult();
    return true;
  }
  *io.output_ << exec.format()->result();
  s = exec.finishAnalysis();
  if (!s) {
    std::cerr << s;
    return false;
  }
  return true;
}

int main(int argc, const char** argv) {""")]),
("o01_early_res","O01",[(M,"    s = exec.format()->format(*exec.analyzerPtr(), io.streamReader_->comment());\n    if (!s) {\n      std::cerr << s;\n      *io.output_ << exec.emptyResult();\n    } else {\n      *io.output_ << exec.format()->result();\n      s = exec.finishAnalysis();\n      if (!s) {\n        std::cerr << s;\n        result = 1;\n      }\n    }","    s = exec.format()->format(*exec.analyzerPtr(), io.streamReader_->comment());\n    *io.output_ << exec.format()->result();\n    if (!s) {\n      std::cerr << s;\n    } else {\n      s = exec.finishAnalysis();\n      if (!s) {\n        std::cerr << s;\n        result = 1;\n      }\n    }")]),
("o01_cout_an","O01",[(A,"#include \"core/analysis/analyzer_impl.h\"","#include \"core/analysis/analyzer_impl.h\"\n#include <iostream>"),(A,"  if (bndCount <= 3) {  // 2xBOS + EOS","  if (bndCount <= 3) {  // 2xBOS + EOS\n    std::cout << \"# empty\\n\";")]),
("o01_cout_err","O01",[(M,"      std::cerr << s;\n      *io.output_ << exec.emptyResult();\n      continue;","      std::cout << s;\n      *io.output_ << exec.emptyResult();\n      continue;")]),
("o01_cout_init","O01",[(E,"Status JumanppExec::printModelInfo() const {","Status JumanppExec::printModelInfo() const {"),(E,"    case OutputType::Version:\n    case OutputType::ModelInfo:\n      return Status::Ok();","    case OutputType::Version:\n    case OutputType::ModelInfo:\n      std::cout << \"no format\\n\";\n      return Status::Ok();")]),
("o01_eos_cond","O01",[(J,"  printer << \"EOS\\n\";\n","  if (top1.totalNodes() > 0 || comment.empty()) {\n    printer << \"EOS\\n\";\n  }\n")]),
("o01_eos_gone","O01",[(L,"  printer << \"EOS\\n\";\n\n  return Status::Ok();","  return Status::Ok();")]),
("o01_eos_empty","O01",[(L,"      printer << \"# \" << comment << '\\n';\n    }\n    printer << \"EOS\\n\";","      printer << \"# \" << comment << '\\n';\n    }")]),
("o01_eos_early","O01",[(J,"  auto& outMgr = analysis.output();","  auto& outMgr = analysis.output();\n  if (analysis.impl()->lattice()->createdBoundaryCount() == 3) {\n    return Status::Ok();\n  }"),(J,"#include \"juman_format.h\"","#include \"juman_format.h\"\n#include \"core/analysis/analyzer_impl.h\"")]),
("o01_eos_helper","none",[(J,"  printer << \"EOS\\n\";\n","  finish(printer);\n"),(J,"namespace output {","namespace output {\nstatic void finish(util::io::FastPrinter& p) { p << \"EOS\\n\"; }\n")]),
("o01_morph_nl","O01",[(F,"  printer_ << '\\n';\n","")]),
("o01_morph_nl2","O01",[(F,"  printer_ << '\\n';\n","  if (comment.empty()) printer_ << '\\n';\n")]),
("o01_seg_nl","O01",[(S,"  printer_ << '\\n';\n","  printer_ << '\\n' << separator_;\n")]),
("o01_morph_str","none",[(F,"  printer_ << '\\n';\n","  printer_ << \"\\n\";\n")]),
("o01_comment","O01",[(L,"    if (!comment.empty()) {\n      printer << \"# \" << comment << '\\n';\n    }\n    printer << \"EOS","    printer << \"EOS")]),
("o01_sub_seg","O01",[(E,"    case OutputType::Segmentation:\n      return StringPiece{\"# ERROR\\n\"};","      return StringPiece{\"# ERROR\\n\"};")]),
("o01_sub_eos","O01",[(E,"    case OutputType::Lattice:\n      return StringPiece{\"# ERROR\\nEOS\\n\"};","      return StringPiece{\"# ERROR\\nEOS\\n\"};\n    case OutputType::Lattice:\n      return StringPiece{\"# ERROR\\n\"};")]),
("o01_sub_if","none",[(E,"  switch (conf.outputType.value()) {\n    case OutputType::Juman:\n    case OutputType::Lattice:\n      return StringPiece{\"# ERROR\\nEOS\\n\"};","  const auto type = conf.outputType.value();\n  if (type == OutputType::Juman || type == OutputType::Lattice) {\n    return StringPiece{\"# ERROR\\nEOS\\n\"};\n  }\n  switch (type) {")]),
("o01_while_true","none",[(M,"  while (io.hasNext()) {","  while (true) {\n    if (!io.hasNext()) {\n      break;\n    }")]),
("o01_early_ret","O01",[(M,"      *io.output_ << exec.emptyResult();\n      result = 1;\n      continue;","      *io.output_ << exec.emptyResult();\n      return 1;")]),
("o01_noanalysis","O01",[("src/jumandic/main/jumanpp.cc","    s = io.streamReader_->analyzeWith(exec.analyzerPtr());\n","")]),
("o01_input_alias","O01",[("src/jumandic/main/jumanpp.cc","    input_ = fileInput_.get();\n","")]),
("o01_output_alias","O01",[("src/jumandic/main/jumanpp.cc","      output_ = fileOutput_.get();\n","      output_ = &std::cout;\n")]),
("o01_ok_stream","none",[("src/jumandic/main/jumanpp.cc","    fileInput_.reset(new std::ifstream{fn});\n    input_ = fileInput_.get();","    fileInput_ = std::unique_ptr<std::ifstream>(new std::ifstream{fn});\n    input_ = &*fileInput_;")]),
]
