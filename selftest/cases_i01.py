GE="src/core/training/gold_example.cc"; GH="src/core/training/gold_example.h"; LO="src/core/training/loss.cc"; TE="src/core/training/training_env.cc"
TI="src/core/input/training_io.cc"; SC="src/core/spec/spec_compiler.cc"; DD="src/core/dic/dic_build_detail.cc"; DF="src/core/dic/dic_feature_impl.cc"
MI="src/core/impl/model_io.cc"; DI="src/core/dic/dictionary.cc"; SP="src/core/analysis/score_processor.cc"; GB="src/core/impl/global_beam_position_fmt.cc"
RR="src/core/analysis/rnn_id_resolver.cc"; PT="src/core/training/partial_trainer.cc"; LB="src/core/analysis/lattice_builder.cc"
DB="src/core/dic/dic_builder.cc"; GV="src/core/impl/graphviz_format.cc"; AR="src/core/analysis/analysis_result.cc"
CASES=[
("i01_gold1","I01",[(GE,"    auto latticeIdx = trainFld.dicIdx;\n    auto latVal","    auto latticeIdx = trainFld.fieldIdx;\n    auto latVal")]),
("i01_gold2","I01",[(GE,"    auto latticeIdx = trainFld.dicIdx;\n    JPP","    auto latticeIdx = trainFld.number;\n    JPP")]),
("i01_gold3","I01",[(GE,"      if (latVal != ndata.at(trainFld.number)) {","      if (latVal != ndata.at(trainFld.dicIdx)) {")]),
("i01_gold4","I01",[(GE,"spec->fields[spec->surfaceIdx].number;","spec->fields[spec->surfaceIdx].fieldIdx;")]),
("i01_gold5","I01",[(GE,"    auto idx = spec->fields[i].dicIdx;","    auto idx = spec->fields[i].number;")]),
("i01_gold6","I01",[(GE,"        afi.goldIdx_ = tf.number;","        afi.goldIdx_ = tf.fieldIdx;")]),
("i01_gold7","I01",[(GE,"      if (tf.fieldIdx == trgF.specIndex) {","      if (tf.dicIdx == trgF.specIndex) {")]),
("i01_gold8","I01",[(GE,"      if (tf.fieldIdx == trgF.specIndex) {","      if (tf.number == trgF.specIndex) {")]),
("i01_goldbnd","I01",[(GH,"      int boundary = exNode.position;","      int boundary = exNode.position + 2;")]),
("i01_loss","I01",[(LO,"topData[sf.dicIdx] != goldData[sf.dicIdx]","topData[sf.dicIdx] != goldData[sf.number]")]),
("i01_warn","I01",[(TE,"fields.push_back(trainFld.fieldIdx);","fields.push_back(trainFld.dicIdx);")]),
("i01_tio1","I01",[(TI,"dictionary.fields[tf.fieldIdx];","dictionary.fields[tf.number];")]),
("i01_tio2","I01",[(TI,"&str2int, tf.dicIdx, i});","&str2int, i, tf.dicIdx});")]),
("i01_tio3","I01",[(TI,"auto &str2int = storages_[dicFld->stringStorageIdx];","auto &str2int = storages_[dicFld->idxInEntry];")]),
("i01_tio4","I01",[(TI,"surfaceFieldIdx_ = spec.fields[spec.surfaceIdx].number;","surfaceFieldIdx_ = spec.fields[spec.surfaceIdx].dicIdx;")]),
("i01_tio5","I01",[(TI,"storages_.resize(core.spec().dictionary.numStringStorage);","storages_.resize(core.spec().dictionary.numIntStorage);")]),
("i01_col1","I01",[(DF,"fieldIdx_ = imp.descriptor->position - 1;","fieldIdx_ = imp.descriptor->position;")]),
("i01_col2","I01",[(DD,"static_cast<u32>(desc->position - 1);","static_cast<u32>(desc->position);")]),
("i01_col3","I01",[(DD,"static_cast<u32>(desc->position - 1);","static_cast<u32>(desc->specIndex);")]),
("i01_sc1","I01",[(SC,"  v.references.push_back(descriptor.specIndex);","  v.references.push_back(descriptor.position);")]),
("i01_sc2","I01",[(SC,"      desc->kind = PrimitiveFeatureKind::ByteLength;\n      JPP_DCHECK_EQ(fBldr.fields_.size(), 1);\n      auto fld = fieldByName(fBldr.fields_[0]);\n      desc->references.push_back(fld->dicIndex);","      desc->kind = PrimitiveFeatureKind::ByteLength;\n      JPP_DCHECK_EQ(fBldr.fields_.size(), 1);\n      auto fld = fieldByName(fBldr.fields_[0]);\n      desc->references.push_back(fld->specIndex);")]),
("i01_sc3","I01",[(SC,"mkr.replaceFields.push_back(fld->dicIndex);","mkr.replaceFields.push_back(fld->specIndex);")]),
("i01_sc4","I01",[(SC,"        aset.push_back(fld->specIndex);","        aset.push_back(fld->dicIndex);")]),
("i01_sc5","I01",[(SC,"        aset.push_back(f.fieldIdx);","        aset.push_back(f.dicIdx);")]),
("i01_sc6","I01",[(SC,"    o.dicIdx = fld->dicIndex;","    o.dicIdx = fld->specIndex;")]),
("i01_sc7","I01",[(SC,"    o.number = i;\n    o.fieldIdx = fld->specIndex;","    o.number = i;\n    o.fieldIdx = fld->dicIndex;")]),
("i01_sc8","I01",[(SC,"push_back({tgt->specIndex, src->specIndex,","push_back({tgt->dicIndex, src->specIndex,")]),
("i01_sc9","I01",[(SC,"        fdata.emplace_back();\n","        fdata.emplace_back();\n")] if 0 else [(SC,"    if (fld->isTrieKey) {\n      spec.surfaceIdx = i;","    if (fld->isTrieKey) {\n      spec.surfaceIdx = fld->specIndex;")]),
("i01_sc10","I01",[(SC,"      f.features.push_back(info.number);","      f.features.push_back(info.number);")] if 0 else [(SC,"      ngramRes.references.push_back(info.number);","      ngramRes.references.push_back(number);")] if 0 else [(SC,"    col->specIndex = (i32)i;","    col->specIndex = col->position;")]),
("i01_dd1","I01",[(DD,"    fld.specIndex = i.descriptor->specIndex;","    fld.specIndex = i.descriptor->dicIndex;")]),
("i01_dd2","I01",[(DD,"builtStrings[i.descriptor->stringStorage];","builtStrings[i.descriptor->intStorage];")]),
("i01_dd3","I01",[(DD,"storage[column.stringStorage].setAlignment","storage[column.specIndex].setAlignment")]),
("i01_dd4","I01",[(DD,"    entries.dedupIdxes_.push_back(dicIdx);","    entries.dedupIdxes_.push_back(idx);")]),
("i01_dd5","I01",[(DD,"resize(static_cast<size_t>(dicSpec.numDicFeatures));","resize(static_cast<size_t>(dicSpec.numDicData));")]),
("i01_mi","I01",[(MI,"dictionary.fields[f.specIndex].alignment;","dictionary.fields[f.dicIndex].alignment;")]),
("i01_mi2","I01",[(MI,"if (f.stringStorageIdx == sstorNo) {","if (f.dicIndex == sstorNo) {")]),
("i01_di","I01",[(DI,"                       sf.dicIndex,\n","                       sf.specIndex,\n")]),
("i01_db","I01",[(DB,"dictionary.fields[f.specIndex];","dictionary.fields[f.dicIndex];")]),
("i01_sp1","I01",[(SP,"        BeamCandidate{beamScore, gbeamCand.left(), gbeamCand.beam()};","        BeamCandidate{beamScore, gbeamCand.beam(), gbeamCand.left()};")]),
("i01_sp2","I01",[(SP,"rawScores.beamLeft(gbeamCand.beam(), gbeamCand.left());","rawScores.beamLeft(gbeamCand.left(), gbeamCand.beam());")]),
("i01_sp3","I01",[(SP,"      ConnectionPtr ptr{static_cast<u16>(bndIdx), t1bc.left(),\n                        static_cast<u16>(t0idx), t1bc.beam(), &t1beam.ptr};","      ConnectionPtr ptr{static_cast<u16>(bndIdx), static_cast<u16>(t0idx),\n                        t1bc.left(), t1bc.beam(), &t1beam.ptr};")]),
("i01_sp4","I01",[(SP,"                        static_cast<u16>(node), beamCand.beam(),\n","                        beamCand.beam(), static_cast<u16>(node),\n")]),
("i01_sp5","I01",[(SP,"      cands.at(activeBeams) = BeamCandidate{score, left, beam};","      cands.at(activeBeams) = BeamCandidate{score, beam, left};")]),
("i01_sp6","I01",[(SP,"      globalBeam_.at(count) = BeamCandidate{el.totalScore, left, beamIdx};","      globalBeam_.at(count) = BeamCandidate{el.totalScore, ptr.position, beamIdx};")]),
("i01_gb1","I01",[(GB,"curEnd->nodePtrs().at(el.left());","curEnd->nodePtrs().at(ptr->right);")]),
("i01_gb2","I01",[(GB,"el.left() == ptr->left && el.beam() == ptr->beam","el.left() == ptr->right && el.beam() == ptr->beam")]),
("i01_gb3","I01",[(GB,"beg2->nodeInfo().at(ptr2.position)","beg2->nodeInfo().at(el.left())")]),
("i01_rr1","I01",[(RR,"  cptr->right = nodePtr.position;\n  cptr->left = candidate.left();","  cptr->right = candidate.left();\n  cptr->left = nodePtr.position;")]),
("i01_rr2","I01",[(RR,"starts->nodeInfo().at(node->right);","starts->nodeInfo().at(node->left);")]),
("i01_pt1","I01",[(PT,"        el->ptr = {t0.boundary, fake, t0.position, fake, &be.ptr};","        el->ptr = {t0.position, fake, t0.boundary, fake, &be.ptr};")]),
("i01_pt2","I01",[(PT,"bnd->starts()->beamData().row(ptr.position);","bnd->starts()->beamData().row(ptr.boundary);")]),
("i01_pt3","I01",[(PT,"p.boundary == good->boundary && p.position == good->right;","p.boundary == good->boundary && p.position == good->left;")]),
("i01_lb1","I01",[(LB,"LatticeBoundaryConfig lbc{boundaryIdx + 2u, (u32)bndInfo.endCount,\n                            (u32)bndInfo.startCount};","LatticeBoundaryConfig lbc{boundaryIdx + 2u, (u32)bndInfo.startCount,\n                            (u32)bndInfo.endCount};")]),
("i01_lb2","I01",[(LB,"LatticeBoundaryConfig lbc{boundaryIdx + 2u,","LatticeBoundaryConfig lbc{static_cast<u32>(boundaryIdx),")]),
("i01_lb3","I01",[(LB,"    if (connectible[s.codepointStart]) {","    if (connectible[s.codepointStart + 2]) {")]),
("i01_ar","I01",[(AR,"starts->beamData().row(topPtr->right);","starts->beamData().row(topPtr->left);")]),
("i01_gv","I01",[(GV,"bnd->starts()->beamData().row(ptr.position);","bnd->starts()->beamData().row(ptr.boundary);")]),
("i01_ok_helper","none",[(GE,"bool TrainingExampleAdapter::matchDicNodeData(","static i32 latticeIndexOf(const spec::TrainingField &f) { return f.dicIdx; }\n\nbool TrainingExampleAdapter::matchDicNodeData("),(GE,"    auto latticeIdx = trainFld.dicIdx;\n    JPP","    auto latticeIdx = latticeIndexOf(trainFld);\n    JPP")]),
("i01_ok_col","none",[(DD,"  entries.surfaceIdx_ = static_cast<u32>(desc->position - 1);","  auto csvColumn = static_cast<u32>(desc->position);\n  csvColumn -= 1;\n  entries.surfaceIdx_ = csvColumn;")]),
("i01_ok_cond","none",[(DI,"    DictionaryField df{index,","    const i32 dataIndex = sf.dicIndex;\n    DictionaryField df{index,"),(DI,"                       sf.dicIndex,\n","                       dataIndex,\n")]),
("i01_ok_ptr","none",[(SP,"      ConnectionPtr ptr{static_cast<u16>(bndIdx), t1bc.left(),\n                        static_cast<u16>(t0idx), t1bc.beam(), &t1beam.ptr};","      const auto leftIdx = t1bc.left();\n      const auto beamPos = t1bc.beam();\n      ConnectionPtr ptr;\n      ptr.boundary = static_cast<u16>(bndIdx);\n      ptr.left = leftIdx;\n      ptr.right = static_cast<u16>(t0idx);\n      ptr.beam = beamPos;\n      ptr.previous = &t1beam.ptr;")]),
("i01_ok_loop","none",[(LB,"  for (auto &s : seeds_) {\n    if (connectible[s.codepointStart]) {\n      connectible[s.codepointEnd] = true;\n    }\n  }","  for (size_t k = 0; k < seeds_.size(); ++k) {\n    const auto from = seeds_[k].codepointStart;\n    const auto to = seeds_[k].codepointEnd;\n    if (!connectible[from]) {\n      continue;\n    }\n    connectible[to] = true;\n  }")]),
("i01_ok_bnd","none",[(LB,"  LatticeBoundaryConfig lbc{boundaryIdx + 2u,","  const u32 latticeIdx = boundaryIdx + 2u;\n  LatticeBoundaryConfig lbc{latticeIdx,")]),
]
