A="src/jumandic/shared/jumanpp_args.cc"; E="src/jumandic/shared/jumandic_env.cc"; H="src/jumandic/shared/jumanpp_args.h"
CASES=[
("a01_swap_right", "A01", [(A,"result->rightCheck.set(rightCheckBeam);","result->rightCheck.set(rightBeamSize);"),(A,"result->rightBeam.set(rightBeamSize);","result->rightBeam.set(rightCheckBeam);")]),
("a01_merge_missing", "A01", [(H,"    autoStep.mergeWith(o.autoStep);\n","")]),
("a01_merge_cross", "A01", [(H,"rightBeam.mergeWith(o.rightBeam)","rightBeam.mergeWith(o.rightCheck)")]),
("a01_precedence", "A01", [(A,"""      argsParser.fillResult(result);
      loadedConfig = true;
    } else {""","""      argsParser.fillResult(result);
      result->mergeWith(cmdline);
      loadedConfig = true;
    } else {"""),(A,"""  result->mergeWith(cmdline);

  LOG_TRACE() << "Merged""","""  if (!loadedConfig) result->mergeWith(cmdline);
  argsParser.fillResult(result);

  LOG_TRACE() << "Merged""")]),
("a01_precedence2", "A01", [(A,"""  result->mergeWith(cmdline);

  LOG""","""  if (!loadedConfig) result->mergeWith(cmdline);

  LOG""")]),
("a01_sep_dropped", "A01", [(E,"conf.segmentSeparator.value()","\" \"")]),
("a01_gbpos", "A01", [(E,"GlobalBeamPositionFormat{conf.globalBeam}","GlobalBeamPositionFormat{conf.beamSize}")]),
("a01_fullmorph", "A01", [(E,"MorphFormat(true)","MorphFormat(false)")]),
("a01_cfgset", "A01", [("src/util/cfg.h","    if (!c.isDefault()) {","    if (isDefault_ || !c.isDefault()) {")]),
("a01_cfgset2", "A01", [("src/util/cfg.h","    if (f) {\n      *this = f.Get();\n    }","    *this = f.Get();")]),
("b_a01_helper", "none", [(A,"""    result->globalBeam.set(globalBeamSize);
    result->rightCheck.set(rightCheckBeam);
    result->rightBeam.set(rightBeamSize);
""","    fillBeams(result);\n"),(A,"""  void fillResult(JumanppConf* result) {""","""  void fillBeams(JumanppConf* res) {
    res->rightBeam.set(rightBeamSize);
    res->globalBeam.set(globalBeamSize);
    res->rightCheck.set(rightCheckBeam);
  }

  void fillResult(JumanppConf* result) {""")]),
("b_a01_merge2", "none", [(A,"""  result->mergeWith(cmdline);

  LOG_TRACE() << "Merged""","""  const JumanppConf& fromCli = cmdline;
  JumanppConf* res = result;
  res->mergeWith(fromCli);

  LOG_TRACE() << "Merged""")]),
("b_a01_numout", "none", [(E,"""      i32 numOutput = conf.beamOutput;
      if (numOutput == -1) {
        LOG_TRACE() << "Using beam width for lattice output format instead of "
                       "default value";
        numOutput = conf.beamSize;
      }
      auto mfmt = new jumandic::output::LatticeFormat""","""      const i32 n0 = conf.beamOutput;
      const i32 numOutput = n0 == -1 ? conf.beamSize.value() : n0;
      auto mfmt = new jumandic::output::LatticeFormat""")]),
("b_a01_ifelse","none",[(E,"""      auto mfmt = new jumandic::output::MorphFormat(true);
      format_.reset(mfmt);
      JPP_RETURN_IF_ERROR(mfmt->initialize(analyzer_.output()));
      break;""","""      std::unique_ptr<jumandic::output::MorphFormat> mfmt{new jumandic::output::MorphFormat(true)};
      JPP_RETURN_IF_ERROR(mfmt->initialize(analyzer_.output()));
      format_ = std::move(mfmt);
      break;""")]),
("a01_rnnweight_slot","A01",[("src/core/env.cc","    scorers_.scoreWeights[1] = conf.rnnWeight;\n","")]),
("a01_rnnweight_slot2","A01",[("src/core/env.cc","    scorers_.scoreWeights[1] = merged.rnnWeight;\n","")]),
("a01_weight_swapped","A01",[("src/core/env.cc","    scorers_.scoreWeights[0] = merged.perceptronWeight;\n    scorers_.scoreWeights[1] = merged.rnnWeight;","    scorers_.scoreWeights[1] = merged.perceptronWeight;\n    scorers_.scoreWeights[0] = merged.rnnWeight;")]),
("a01_nce_guard","A01",[("src/core/analysis/rnn_scorer_gbeam.cc","  if (!state_->config.nceBias.isDefault()) {","  if (state_->config.nceBias.isDefault()) {")]),
("a01_cfg_novalue","A01",[("src/util/cfg.h","    value_ = std::move(v);\n    isDefault_ = false;","    isDefault_ = false;")]),
("a01_version_inv","A01",[("src/jumandic/main/jumanpp.cc","  if (conf.outputType == jumandic::OutputType::Version) {\n    exec.printFullVersion();\n    return 0;\n  }\n\n  if (conf.outputType == jumandic::OutputType::ModelInfo) {","  if (conf.outputType != jumandic::OutputType::Version) {\n    exec.printFullVersion();\n    return 0;\n  }\n\n  if (conf.outputType == jumandic::OutputType::ModelInfo) {")]),
("a01_cfg_pieces","A01",[(A,"      wstart = begin->second;\n","")]),
("a01_cfg_lastpiece","A01",[(A,"    if (wstart != data.end()) {\n      parts.emplace_back(wstart, data.end());\n    }\n","")]),
("a01_ok_weights","none",[("src/core/env.cc","    auto& conf = holder->config();\n    scorers_.scoreWeights[0] = conf.perceptronWeight;\n    scorers_.scoreWeights[1] = conf.rnnWeight;","    auto& w = scorers_.scoreWeights;\n    const auto& conf = holder->config();\n    w[1] = conf.rnnWeight;\n    w[0] = conf.perceptronWeight;")]),
("a01_ok_modes","none",[("src/jumandic/main/jumanpp.cc","  if (conf.outputType == jumandic::OutputType::Version) {\n    exec.printFullVersion();\n    return 0;\n  }\n\n  if (conf.outputType == jumandic::OutputType::ModelInfo) {\n    s = exec.printModelInfo();","  if (conf.outputType == jumandic::OutputType::Version) {\n    exec.printFullVersion();\n    return 0;\n  } else if (jumandic::OutputType::ModelInfo == conf.outputType) {\n    s = exec.printModelInfo();")]),
("a01_ok_pieces","none",[(A,"      parts.emplace_back(wstart, begin->first);\n      wstart = begin->second;","      const char* wend = begin->first;\n      parts.push_back(std::string(wstart, wend));\n      wstart = begin->second;")]),
]
