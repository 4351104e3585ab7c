TR="src/core/training/trainer.cc"; SCW="src/core/training/scw.cc"; LF="src/jumandic/shared/lattice_format.cc"; PB="src/jumandic/shared/jumanpp_pb_format.cc"; DB="src/core/dic/dic_builder.cc"
SORTP='''    std::sort(nodes_.begin(), nodes_.end(),
              [](const core::analysis::LatticeNodePtr& p1,
                 const core::analysis::LatticeNodePtr& p2) {
                if (p1.boundary == p2.boundary) {
                  return p1.position < p2.position;
                }
                return p1.boundary < p2.boundary;
              });
'''
SORTL='''  std::sort(view->begin(), view->end(),
            [](const LatticeInfoView& v1, const LatticeInfoView& v2) {
              if (v1.nodePtr().boundary == v2.nodePtr().boundary) {
                return v1.nodePtr().position < v2.nodePtr().position;
              }
              return v1.nodePtr().boundary < v2.nodePtr().boundary;
            });
'''
CASES=[
("d01_shuffle_static","D01",[(TR,"  std::minstd_rand rng{seed_ *","  static std::minstd_rand rng{seed_ *")]),
("d01_shuffle_noseed","D01",[(TR,"  std::minstd_rand rng{seed_ * (static_cast<u32>(numShuffles_) * 31 + 5)};","  std::minstd_rand rng;")]),
("d01_shuffle_rdev","D01",[(TR,"  std::minstd_rand rng{seed_ * (static_cast<u32>(numShuffles_) * 31 + 5)};","  std::random_device rd;\n  std::minstd_rand rng{rd()};"),(TR,'#include "trainer.h"','#include "trainer.h"\n#include <random>')]),
("d01_shuffle_time","D01",[(TR,"  std::minstd_rand rng{seed_ *","  std::minstd_rand rng{u32(std::time(nullptr)) + seed_ *"),(TR,'#include "trainer.h"','#include "trainer.h"\n#include <ctime>')]),
("d01_shuffle_var","none",[(TR,"  std::minstd_rand rng{seed_ * (static_cast<u32>(numShuffles_) * 31 + 5)};","  u32 sd = seed_ * (static_cast<u32>(numShuffles_) * 31 + 5);\n  std::minstd_rand rng{sd};")]),
("d01_scw_rand","D01",[(SCW,"    usableWeights.push_back(dist(eng));","    usableWeights.push_back(boundary * (std::rand() % 100) / 100);"),(SCW,'#include "scw.h"','#include "scw.h"\n#include <cstdlib>')]),
("d01_pb_nosort","D01",[(PB,SORTP,"")]),
("d01_lat_nosort","D01",[(LF,SORTL,"")]),
("d01_lat_first","D01",[(LF,"    auto& cptr = *ptrit;","    auto& cptr = *n.nodeInfo().ptrs.begin();\n    (void)ptrit;")]),
("d01_lat_sort_cond","D01",[(LF,"  std::sort(view->begin(), view->end(),","  if (view->size() < 64) std::sort(view->begin(), view->end(),")]),
("d01_lat_sort_helper","none",[(LF,SORTL,"  sortView(view);\n"),(LF,"void LatticeFormatInfo::publishResult(","static void sortView(std::vector<LatticeInfoView>* view) {\n"+SORTL+"}\nvoid LatticeFormatInfo::publishResult(")]),
("d01_uninit","D01",[("src/core/analysis/score_processor.cc","  auto left = lattice_->boundary(bndIdx)->ends()->nodePtrs();\n  t1PtrData_","  u32 curX;\n  if (bndIdx > 4) curX = 1;\n  (void)curX;\n  if (curX == 7) return {};\n  auto left = lattice_->boundary(bndIdx)->ends()->nodePtrs();\n  t1PtrData_")]),
("d01_addr","D01",[("src/core/analysis/lattice_config.h","    u64 result = 0;\n    result += static_cast<u64>(ptr.boundary) * 0xda12'1512","    u64 result = 0;\n    result += static_cast<u64>(ptr.boundary) * 0xda12'1512")]) if False else
("d01_time_log","none",[(TR,"  indices_.clear();\n  indices_.reserve(totalTrainers_);","  auto t0_ = std::chrono::steady_clock::now();\n  indices_.clear();\n  LOG_INFO() << t0_.time_since_epoch().count();\n  indices_.reserve(totalTrainers_);"),(TR,'#include "trainer.h"','#include "trainer.h"\n#include <chrono>\n#include "util/logging.hpp"')]),
("d01_dic_ts_used","D01",[(DB,"  dic_->timestamp = seconds.count();","  dic_->timestamp = seconds.count();\n  dic_->entryCount = static_cast<i32>(seconds.count());")]),
]
