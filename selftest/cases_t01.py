S="src/core/training/scw.cc"; L="src/core/training/loss.cc"; PT="src/core/training/partial_trainer.cc"; TR="src/core/training/trainer.cc"; TE="src/core/training/training_env.cc"; JT="src/jumandic/main/jumanpp_train.cc"; TH="src/core/training/trainer.h"
PH="src/core/training/training_env.h"
CASES=[
("t01_sign1","T01",[(S,"usableWeights[v.feature] += update;","usableWeights[v.feature] -= update;")]),
("t01_noscore","T01",[(S,"matrixDiagonal[v.feature] * v.score;","matrixDiagonal[v.feature];")]),
("t01_nodiag","T01",[(S,"alpha * y * matrixDiagonal[v.feature] * v.score","alpha * y * v.score")]),
("t01_absscore","T01",[(S,"matrixDiagonal[v.feature] * v.score;","matrixDiagonal[v.feature] * v.score * v.score;")]),
("t01_noloss","T01",[(S,"alpha * y * matrixDiagonal","alpha * matrixDiagonal")]),
("t01_vt","T01",[(S,"sum += v.score * v.score * matrixDiagonal[v.feature];","sum += v.score * matrixDiagonal[v.feature];")]),
("t01_score","T01",[(S,"sum += usableWeights[v.feature] * v.score;","sum -= usableWeights[v.feature] * v.score;")]),
("t01_margin","T01",[(S,"calcAlpha(vt, loss * score)","calcAlpha(vt, score)")]),
("t01_margin2","T01",[(S,"calcAlpha(vt, loss * score)","calcAlpha(vt, -loss * score)")]),
("t01_alpha1","T01",[(S,"(-mt * psi + std","(mt * psi + std")]),
("t01_alpha2","T01",[(S,"vt * phi * phi * zeta));","vt * phi * zeta));")]),
("t01_psi","T01",[(S,"psi{1 + phi * phi / 2}","psi{1 + phi * phi}")]),
("t01_zeta","T01",[(S,"zeta{1 + phi * phi}","zeta{1 - phi * phi}")]),
("t01_clamp","T01",[(S,"if (alpha > C) return C;","if (alpha < C) return C;")]),
("t01_clamp2","T01",[(S,"if (alpha < 0.0) return 0.0;","if (alpha > 0.0) return 0.0;")]),
("t01_ut","T01",[(S,"(-alphat * vt * phi +","(alphat * vt * phi +")]),
("t01_ut2","T01",[(S,"4 * vt));","vt));")]),
("t01_beta","T01",[(S,"(alphat * phi) / (std::sqrt(ut)","(alphat * phi) / ((ut)")]),
("t01_betaargs","T01",[(S,"calcBeta(alphat, ut, vt)","calcBeta(alphat, vt, ut)")]),
("t01_matsign","T01",[(S,"matrixDiagonal[f.feature] -= beta * update;","matrixDiagonal[f.feature] += beta * update;")]),
("t01_mat2","T01",[(S,"float update = curValue * curValue * f.score * f.score;","float update = curValue * f.score * f.score;")]),
("t01_order","T01",[(S,"  updateWeights((float)alphat, loss, features);\n  updateMatrix((float)betat, features);","  updateMatrix((float)betat, features);\n  updateWeights((float)alphat, loss, features);")]),
("t01_nomat","T01",[(S,"  updateMatrix((float)betat, features);","  if (loss > 0.5f) updateMatrix((float)betat, features);")]),
("t01_skip","T01",[(S,"if (loss < 1e-5) {","if (loss > 1e-5) {")]),
("t01_skip2","T01",[(S,"if (loss < 1e-5) {","if (loss < 0.1) {")]),
("t01_skip3","T01",[(S,"  if (vt == 0) {","  if (score > 0) {")]),
("t01_pol1","T01",[(L,"      target = goldEl;\n      score = 1.0f;","      target = goldEl;\n      score = -1.0f;")]),
("t01_pol2","T01",[(L,"mergeOne(top1Features[topPos], -1.0f);","mergeOne(top1Features[topPos], 1.0f);")]),
("t01_pol3","T01",[(PT,"features_.push_back({f, -1.0f});","features_.push_back({f, 1.0f});")]),
("t01_pol4","T01",[(PT,"features_.push_back({f, goodWeight});","features_.push_back({f, -goodWeight});")]),
("t01_fill","T01",[(L,"  util::copy_insert(slice.row(position), goldFeatures);","  util::copy_insert(slice.row(position), top1Features);")]),
("t01_case1","T01",[(L,"      loss += fullWeight;\n      if (i < till) {\n        addTopNgrams(i);","      loss += fullWeight;\n      if (i < till) {\n        addGoldNgrams(i, cmp.numGold);")]),
("t01_case2","T01",[(L,"          addGoldNgrams(i, cmp.numGold);\n          addTopNgrams(i);","          addTopNgrams(i);")]),
("t01_case3","T01",[(L,"      if (cmp.hasError()) {\n        loss","      if (!cmp.hasError()) {\n        loss")]),
("t01_till","T01",[(L,"      if (i < till) {\n        addTopNgrams(i);","      if (i > till) {\n        addTopNgrams(i);")]),
("t01_cons1","T01",[(L,"      // move to next boundary\n      hasNextTop = top1.nextBoundary();\n      curGold += 1;","      // move to next boundary\n      hasNextTop = top1.nextBoundary();")]),
("t01_cons2","T01",[(L,"      comparison.push_back(stepData);\n\n      hasNextTop = top1.nextBoundary();\n    } else","      comparison.push_back(stepData);\n\n      hasNextTop = top1.nextBoundary();\n      curGold += 1;\n    } else")]),
("t01_order1","T01",[(L,"NgramFeatureRef nfr{t2.latticeNodePtr(), t1.latticeNodePtr(),\n                      t0.latticeNodePtr()};","NgramFeatureRef nfr{t0.latticeNodePtr(), t1.latticeNodePtr(),\n                      t2.latticeNodePtr()};")]),
("t01_order2","T01",[(PT,"auto& t2 = *t1.previous;\n    NgramFeatureRef nfr{","auto& t2 = *t0.previous;\n    NgramFeatureRef nfr{")]),
("t01_mask1","T01",[(L,"  for (auto& f : goldFeatures) {\n    f = f & mask;\n  }\n\n  util::sort(goldFeatures);","  util::sort(goldFeatures);\n\n  for (auto& f : goldFeatures) {\n    f = f & mask;\n  }")]),
("t01_mask2","T01",[(L,"  for (auto& f : goldFeatures) {\n    f = f & mask;\n  }\n","")]),
("t01_mask3","T01",[(PT,"  for (auto& f : features_) {\n    f.feature &= mask_;\n  }\n","")]),
("t01_mask4","T01",[(TR,"config_.numFeatures() - 1","config_.numFeatures()")]),
("t01_merge1","T01",[(L,"  for (; goldPos < goldCnt; ++goldPos) {\n    mergeOne(goldFeatures[goldPos], 1.0f);\n  }\n","")]),
("t01_merge2","T01",[(L,"      score = 1.0f;\n      goldPos += 1;","      score = 1.0f;\n      topPos += 1;")]),
("t01_acc1","T01",[(L,"    scored.push_back({target, 0});\n  }\n  scored.back().score += score;","    scored.push_back({target, 0});\n    scored.back().score += score;\n  }")]),
("t01_acc2","T01",[(PT,"      prevItem.score += curItem.score;","      prevItem.score = curItem.score;")]),
("t01_acc3","T01",[(PT,"      if (prev != cur) {\n        features_[prev] = curItem;","      if (prev == cur) {\n        features_[prev] = curItem;")]),
("t01_apply1","T01",[(TE,"  *curLoss += loss;\n  scw_.update(loss, processed->featureDiff());","  *curLoss += loss;\n  if (*curLoss > 1) {\n    scw_.update(loss, processed->featureDiff());\n  }")]),
("t01_apply2","T01",[(TE,"scw_.update(loss, processed->featureDiff());","scw_.update(loss, trainers_.trainer(0)->featureDiff());")]),
("t01_batch1","T01",[(TR,"for (int i = 0; i < activeFullTrainers(); ++i) {\n    indices_","for (int i = 1; i < activeFullTrainers(); ++i) {\n    indices_")]),
("t01_batch2","T01",[(TR,"      indices_.push_back(~i);","      indices_.push_back(-i);")]),
("t01_batch3","T01",[(TR,"i < partialTrainerts_.size(); ++i) {","i < partialTrainerts_.size() - 1; ++i) {")]),
("t01_live1","T01",[(S,"void SoftConfidenceWeighted::setAllWeights(float value) {\n  for (auto& w : usableWeights) {\n    w = value;\n  }","void SoftConfidenceWeighted::setAllWeights(float value) {\n  usableWeights = std::vector<float>(usableWeights.size(), value);")]),
("t01_live2","T01",[(S,"  perceptron.setWeightsTo(usableWeights);\n  sconf.feature","  sconf.feature"),(S,"  for (int i = 0; i < conf.numFeatures(); ++i) {\n    usableW","  perceptron.setWeightsTo(usableWeights);\n  for (int i = 0; i < conf.numFeatures(); ++i) {\n    usableW")]),
("t01_export","T01",[(S,"charPtr + usableWeights.size() * sizeof(float)","charPtr + usableWeights.size()")]),
("t01_init","T01",[(TE,"            << ratio * 100 << \"%)\";\n    firstEpoch_ = false;","            << ratio * 100 << \"%)\";\n    firstEpoch_ = zeroed > 0;")]),
("t01_ok_inline","none",[(S,"  double ut = calcUt(alphat, vt);\n","  double q = alphat * phi * vt;\n  double root = std::sqrt(q * q + vt * 4.0) - q;\n  double ut = root * root / 4;\n")]),
("t01_ok_alpha","none",[(S,"  if (alpha < 0.0) return 0.0;\n  if (alpha > C) return C;\n  return alpha;","  return std::min(C, std::max(0.0, alpha));")]),
("t01_ok_alpha2","none",[(S,"  double alpha =\n      (1.0f / (vt * zeta)) *\n      (-mt * psi + std","  double alpha =\n      (std"),(S,"                             vt * phi * phi * zeta));","                             vt * phi * phi * zeta) - psi * mt) / (zeta * vt);")]),
("t01_ok_beta","none",[(S,"(alphat * phi) / (std::sqrt(ut) + (vt * alphat * phi))","phi / (std::sqrt(ut) / alphat + phi * vt)")]),
("t01_ok_upd","none",[(S,"    auto update = alpha * y * matrixDiagonal[v.feature] * v.score;\n    usableWeights[v.feature] += update;","    auto& weight = usableWeights[v.feature];\n    float confidence = matrixDiagonal[v.feature];\n    weight = weight + v.score * confidence * (y * alpha);")]),
("t01_ok_case","none",[(L,"    if (cmp.cmpClass == ComparitionClass::GoldOnly) {\n      loss += fullWeight;\n      if (i < till) {\n        addGoldNgrams(i, cmp.numGold);\n      }\n    } else if (cmp.cmpClass == ComparitionClass::TopOnly) {\n      loss += fullWeight;\n      if (i < till) {\n        addTopNgrams(i);\n      }\n    } else if (cmp.cmpClass == ComparitionClass::Both) {\n      if (cmp.hasError()) {\n        loss += cmp.mismatchWeight;\n        if (i < till) {\n          addGoldNgrams(i, cmp.numGold);\n          addTopNgrams(i);\n        }\n      }\n    }","    switch (cmp.cmpClass) {\n      case ComparitionClass::GoldOnly:\n        loss += fullWeight;\n        if (i < till) {\n          addGoldNgrams(i, cmp.numGold);\n        }\n        break;\n      case ComparitionClass::TopOnly:\n        loss += fullWeight;\n        if (till > i) {\n          addTopNgrams(i);\n        }\n        break;\n      case ComparitionClass::Both:\n        if (!cmp.hasError()) break;\n        loss += cmp.mismatchWeight;\n        if (i >= till) break;\n        addTopNgrams(i);\n        addGoldNgrams(i, cmp.numGold);\n    }")]),
("t01_ok_mask","none",[(L,"  for (auto& f : top1Features) {\n    f = f & mask;\n  }\n\n  util::sort(top1Features);\n","  for (size_t i = 0; i < top1Features.size(); ++i) {\n    top1Features[i] &= mask;\n  }\n\n  util::sort(top1Features);\n")]),
("t01_ok_maskhelper","none",[(L,"void LossCalculator::computeFeatureDiff(u32 mask) {","static void maskAndSort(std::vector<u32>& v, u32 mask) {\n  for (auto& f : v) {\n    f &= mask;\n  }\n  util::sort(v);\n}\n\nvoid LossCalculator::computeFeatureDiff(u32 mask) {"),(L,"  for (auto& f : top1Features) {\n    f = f & mask;\n  }\n\n  util::sort(top1Features);\n\n  for (auto& f : goldFeatures) {\n    f = f & mask;\n  }\n\n  util::sort(goldFeatures);","  maskAndSort(top1Features, mask);\n  maskAndSort(goldFeatures, mask);")]),
("t01_ok_while","none",[(L,"  for (; topPos < topCnt; ++topPos) {\n    mergeOne(top1Features[topPos], -1.0f);\n  }","  while (topPos < topCnt) {\n    mergeOne(top1Features[topPos], -1.0f);\n    topPos++;\n  }")]),
("t01_ok_apply","none",[(TE,"  auto loss = processed->loss();\n  *curLoss += loss;\n  scw_.update(loss, processed->featureDiff());","  scw_.update(processed->loss(), processed->featureDiff());\n  *curLoss += processed->loss();")]),

("t01_sum_dropped","T01",[(TE,"    lossSum += lastLoss;\n","")]),
("t01_sum_break","T01",[(TE,"        break;\n      }\n    }\n    lossSum","        goto next;\n      }\n    }\n    lossSum"),(TE,"    firstTrainer += trainers_.totalTrainers();\n  }","   next:\n    firstTrainer += trainers_.totalTrainers();\n  }")]),
("t01_sum_set","T01",[(TE,"  *curLoss += loss;","  *curLoss = loss;")]),
("t01_epoch_stop","T01",[("src/jumandic/main/jumanpp_train.cc","std::abs(lastLoss - env.epochLoss()) < args","std::abs(lastLoss - env.epochLoss()) > args")]),
("t01_epoch_last","T01",[("src/jumandic/main/jumanpp_train.cc","    lastLoss = env.epochLoss();\n","")]),
("t01_ok_sum","none",[(TE,"    lossSum += lastLoss;","    lossSum = lastLoss + lossSum;"),(TE,"  *curLoss += loss;","  *curLoss = *curLoss + loss;")]),
("t01_ok_epoch","none",[("src/jumandic/main/jumanpp_train.cc","    if (std::abs(lastLoss - env.epochLoss()) < args.batchLossEpsilon) {\n      return;\n    }\n    lastLoss = env.epochLoss();","    const double now = env.epochLoss();\n    const bool stable = !(std::abs(lastLoss - now) >= args.batchLossEpsilon);\n    lastLoss = now;\n    if (stable) {\n      break;\n    }")]),
("t01_ok_each","none",[(TE,"      lastLoss = batchLoss_;\n      LOG","      lossSum += batchLoss_ - (batchIter == 0 ? 0 : lastLoss);\n      lastLoss = batchLoss_;\n      LOG"),(TE,"    lossSum += lastLoss;\n","")]),
]
