BQ="src/util/bounded_queue.h"; TX="src/core/training/training_executor.cc"; TXH="src/core/training/training_executor.h"; TE="src/core/training/training_env.cc"
AI="src/core/analysis/analyzer_impl.h"; UN="src/core/analysis/unk_nodes_creator.cc"
CASES=[
("c02_wait_if","C02",[(BQ,"    while (size() == 0) {\n      cv_.wait(lock);\n    }","    if (size() == 0) {\n      cv_.wait(lock);\n    }")]),
("c02_wait_pred","none",[(BQ,"    while (size() == 0) {\n      cv_.wait(lock);\n    }","    cv_.wait(lock, [this] { return size() != 0; });")]),
("c02_no_notify","C02",[(BQ,"    cv_.notify_one();\n","")]),
("c02_notify_when_empty","C02",[(BQ,"    cv_.notify_one();\n","    if (size() == 1) cv_.notify_one();\n")]),
("c02_notify_after_unlock","none",[(BQ,"    cv_.notify_one();\n","    lock.unlock();\n    cv_.notify_one();\n")]),
("c02_recv_nolock","C02",[(BQ,"""  bool recieve(T* result) noexcept(std::is_nothrow_move_assignable<T>::value) {
    lock_t lock(mutex_);
""","""  bool recieve(T* result) noexcept(std::is_nothrow_move_assignable<T>::value) {
""")]),
("c02_recv_check_unlocked","C02",[(BQ,"""    lock_t lock(mutex_);
    if (size() == 0) {
      return false;
    }
""","""    if (size() == 0) {
      return false;
    }
    lock_t lock(mutex_);
""")]),
("c02_offer_early_unlock","C02",[(BQ,"    items_[head_ % capa_] = std::move(item);","    lock.unlock();\n    items_[head_ % capa_] = std::move(item);")]),
("c02_offer_moves_first","C02",[(BQ,"    if (remaining() <= reserve) {\n      return false;\n    }\n    items_[head_ % capa_] = std::move(item);","    T tmp = std::move(item);\n    if (remaining() <= reserve) {\n      return false;\n    }\n    items_[head_ % capa_] = std::move(tmp);")]),
("c02_taken_twice","C02",[(BQ,"    *result = std::move(items_[tail_ % capa_]);\n    tail_ += 1;","    *result = std::move(items_[tail_ % capa_]);\n    if (size() > 1) tail_ += 1;")]),
("c02_answer_dropped","C02",[(TX,"    while (!results_->offer(std::move(result))) {\n      std::this_thread::yield();\n    }","    results_->offer(std::move(result));")]),
("c02_answer_onerr","C02",[(TX,"    TrainingExecutionResult result{trainer, std::move(status)};\n","    if (!status && trainer->loss() == 0) continue;\n    TrainingExecutionResult result{trainer, std::move(status)};\n")]),
("c02_join_before","C02",[(TX,"""  while (trainers_.offer(nullptr))
    ;  // do nothing
  trainers_.unblock_all();
  for (auto& t : threads_) {
    t->finish();
  }""","""  for (auto& t : threads_) {
    t->finish();
  }
  while (trainers_.offer(nullptr))
    ;  // do nothing
  trainers_.unblock_all();""")]),
("c02_thread_first","C02",[(TXH,"  const analysis::ScorerDef* scoreConf_;\n  util::bounded_queue<ITrainer*>* trainers_;\n  util::bounded_queue<TrainingExecutionResult>* results_;\n  std::thread thread_;","  std::thread thread_;\n  const analysis::ScorerDef* scoreConf_;\n  util::bounded_queue<ITrainer*>* trainers_;\n  util::bounded_queue<TrainingExecutionResult>* results_;"),
 (TX,"    : scoreConf_{conf},\n      trainers_{trainers},\n      results_{results},\n      thread_{TrainingExecutorThread::runMain, this} {}","    : thread_{TrainingExecutorThread::runMain, this},\n      scoreConf_{conf},\n      trainers_{trainers},\n      results_{results} {}")]),
("c02_submit_count","C02",[(TE,"      if (executor_.submitNext(trainer)) {\n        submittedTrainers += 1;\n      } else {\n        break;\n      }","      submittedTrainers += 1;\n      if (!executor_.submitNext(trainer)) {\n        break;\n      }")]),
("c02_submit_ref","none",[(TE,"      if (executor_.submitNext(trainer)) {\n        submittedTrainers += 1;\n      } else {\n        break;\n      }","      if (!executor_.submitNext(trainer)) {\n        break;\n      }\n      submittedTrainers += 1;")]),
("c02_helper_ref","none",[(BQ,"    items_[head_ % capa_] = std::move(item);\n    head_ += 1;\n    cv_.notify_one();\n    return true;\n  }","    putLocked(std::move(item));\n    return true;\n  }\n\n  void putLocked(T&& item) {\n    items_[head_ % capa_] = std::move(item);\n    head_ += 1;\n    cv_.notify_one();\n  }")]),
("c02_helper_bad","C02",[(BQ,"    items_[head_ % capa_] = std::move(item);\n    head_ += 1;\n    cv_.notify_one();\n    return true;\n  }","    putLocked(std::move(item));\n    return true;\n  }\n\n  void putLocked(T&& item) {\n    items_[head_ % capa_] = std::move(item);\n    head_ += 1;\n  }")]),
("c02_lockguard_ref","none",[(BQ,"""  bool recieve(T* result) noexcept(std::is_nothrow_move_assignable<T>::value) {
    lock_t lock(mutex_);
""","""  bool recieve(T* result) noexcept(std::is_nothrow_move_assignable<T>::value) {
    std::lock_guard<std::mutex> lock(mutex_);
""")]),
("c02_break_join","C02",[(TX,"    t->finish();\n  }","    if (t == threads_.back()) break;\n    t->finish();\n  }")]),
("c01_mutable_cache","C01",[("src/core/core.h","  analysis::UnkMakers unkMakers_;","  mutable i32 lastBeam_ = 0;\n  analysis::UnkMakers unkMakers_;"),("src/core/core.h","    copy.beamSize = (u32)core.beamSize;","    lastBeam_ = core.beamSize;\n    copy.beamSize = (u32)lastBeam_;")]),
("c01_static_local","C01",[("src/core/analysis/lattice_builder.cc","bool LatticeBuilder::checkConnectability() {","bool LatticeBuilder::checkConnectability() {\n  static std::vector<i32> seen;\n  seen.resize(2);\n  seen[0] = maxBoundaries_;\n")]),
]
CASES+=[("c02_queue_late","C02",[(TX,"  trainers_.initialize(nthreads * 2);\n  results_.initialize(nthreads * 2);\n  try {","  try {"),(TX,"  } catch (std::system_error& e) {\n    return","    trainers_.initialize(nthreads * 2);\n    results_.initialize(nthreads * 2);\n  } catch (std::system_error& e) {\n    return")]),
("c02_zero","C02",[(TX,"  if (nthreads == 0) {\n    return JPPS_INVALID_PARAMETER << \"training needs at least one thread\";\n  }\n","")])]
