AI="src/core/analysis/analyzer_impl.h"; LB="src/core/analysis/lattice_builder.cc"; XN="src/core/analysis/extra_nodes.h"; IN="src/core/analysis/analysis_input.cc"; SR="src/core/input/stream_reader.cc"; PE="src/core/input/partial_example_io.cc"; JF="src/jumandic/shared/juman_format.cc"; MF="src/jumandic/shared/mdic_format.cc"; LF="src/jumandic/shared/lattice_format.cc"; MM="src/util/memory.hpp"; TR="src/core/training/trainer.h"; PT="src/core/training/partial_trainer.cc"
CASES=[
("h01_no_lattice_reset","H01",[(AI,"    lattice_.reset();\n","")]),
("h01_no_xtra","H01",[(AI,"    xtra_.reset();\n","")]),
("h01_no_plugin_equivalent","none",[(AI,"    plugin_ = nullptr;\n","")]),
("h01_intern_unused_function","none",[(XN,"    stringPtrs_.clear();\n","")]),
("h01_comment","H01",[(SR,"  comment_.clear();\n","")]),
("h01_comment_benign","none",[(SR,"  comment_.clear();\n","  comment_ = std::string{};\n")]),
("h01_alloc","H01",[(AI,"    alloc_->reset();\n","")]),
("h01_reset_moved","none",[(AI,"""    lattice_.reset();
    xtra_.reset();
    memMgr_.reset();
    alloc_->reset();
    sproc_ = nullptr;
    plugin_ = nullptr;
  }""","""    sproc_ = nullptr;
    plugin_ = nullptr;
    resetStorage();
  }

  void resetStorage() {
    xtra_.reset();
    lattice_.reset();
    memMgr_.reset();
    alloc_->reset();
  }""")]),
("h01_static","H01",[(SR,"  comment_.clear();\n","  comment_.clear();\n  static int count = 0;\n  count += 1;\n  if (count > 1000) maxCommentLength_ = 1;\n")]),
("h01_builder","H01",[(LB,"  seeds_.clear();\n","")]),
("h01_adapter","H01",[(TR,"    loss_.goldPath().reset();\n","")]),
("h01_ptfeatures","H01",[(PT,"  features_.clear();\n","")]),
]
