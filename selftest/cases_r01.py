TX="src/core/training/training_executor.cc"; DB="src/core/dic/dic_builder.cc"; SP="src/core/spec/spec_parser.cc"; FC="src/core/codegen/feature_codegen.cc"
CASES=[
("r01_train_nocatch","R01",[(TX,"} catch (std::exception& ae) {\n      status = JPPS_INVALID_STATE << \"caught an exception while training: \"\n                                  << ae.what();","} catch (std::bad_alloc& ae) {\n      status = JPPS_INVALID_STATE << \"caught an exception while training: \"\n                                  << ae.what();")]),
("r01_train_compute_outside","R01",[(TX,"      status = trainer->prepare();\n      if (status) {\n        status = trainer->compute(scoreConf_);\n      }\n    } catch","      status = trainer->prepare();\n    } catch"),(TX,"    if (!status) {\n      auto ops","    if (status) {\n      status = trainer->compute(scoreConf_);\n    }\n\n    if (!status) {\n      auto ops")]),
("r01_dic_catch_other","R01",[(DB,"catch (std::range_error& e)","catch (std::logic_error& e)")]),
("r01_dic_catch_base","none",[(DB,"catch (std::range_error& e)","catch (const std::exception& e)")]),
("r01_spec_parser_other","R01",[(SP,"catch (p::parse_error& e)","catch (std::bad_alloc& e)")]),
("r01_catch_value","R01",[(FC,"catch (std::exception& e)","catch (std::exception e)")]),
("r01_stoi","R01",[("src/core/input/partial_example_io.cc",'#include "partial_example_io.h"','#include "partial_example_io.h"\n#include <string>\nnamespace { int q_(const std::string& s) { return std::stoi(s); } }'),("src/core/input/partial_example_io.cc","  while (csv_.nextLine()) {","  while (csv_.nextLine()) {\n    if (q_(\"1\") == 2) return Status::Ok();")]),
]
