From a9119a638280831a92c416da14379f2a40dad2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 01/52] fix: training commands exit non-zero when the model
 could not be saved

---
 src/core/tool/train_cmd.cc         | 1 +
 src/jumandic/main/jumanpp_train.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/tool/train_cmd.cc b/src/core/tool/train_cmd.cc
index ab26c2b..1e4b8bb 100644
--- a/src/core/tool/train_cmd.cc
+++ b/src/core/tool/train_cmd.cc
@@ -59,6 +59,7 @@ int saveModel(const core::training::TrainingArguments& args,
   s = saver.save(model);
   if (!s) {
     LOG_ERROR() << "failed to save model: " << s;
+    return 1;
   }
   LOG_INFO() << "Model saved successfully";
 
diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index e862032..02b86a4 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -216,6 +216,7 @@ int saveModel(const core::training::TrainingArguments& args,
   s = saver.save(model);
   if (!s) {
     LOG_ERROR() << "failed to save model: " << s;
+    return 1;
   }
   LOG_INFO() << "Model saved successfully";
 
-- 
2.43.0


From 5e8bfd79f3cc3570c4402acef89ebbc95deeb10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 02/52] fix: training stops when the partially annotated corpus
 can not be loaded

---
 src/core/tool/train_cmd.cc         | 1 +
 src/jumandic/main/jumanpp_train.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/tool/train_cmd.cc b/src/core/tool/train_cmd.cc
index 1e4b8bb..0147c46 100644
--- a/src/core/tool/train_cmd.cc
+++ b/src/core/tool/train_cmd.cc
@@ -89,6 +89,7 @@ int doTrainJpp(const t::TrainingArguments& args, core::JumanppEnv& env) {
     s = exec.loadPartialExamples(args.partialCorpus);
     if (!s) {
       LOG_ERROR() << "failed to load partially annotated corpus: " << s;
+      return 1;
     }
   }
 
diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index 02b86a4..1c8ab94 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -246,6 +246,7 @@ int doTrainJpp(t::TrainingArguments& args, core::JumanppEnv& env) {
     s = exec.loadPartialExamples(args.partialCorpus);
     if (!s) {
       LOG_ERROR() << "failed to load partially annotated corpus: " << s;
+      return 1;
     }
   }
 
-- 
2.43.0


From 1b5b0dbf4e3a4216ef746b726837e37ed77264cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 03/52] fix: command line parse errors are returned instead of
 being discarded

---
 src/jumandic/main/bootstrap.cc      | 2 +-
 src/jumandic/shared/jumanpp_args.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jumandic/main/bootstrap.cc b/src/jumandic/main/bootstrap.cc
index 007d333..d9a52e0 100644
--- a/src/jumandic/main/bootstrap.cc
+++ b/src/jumandic/main/bootstrap.cc
@@ -88,7 +88,7 @@ Status parseArgs(BootstrapArgs* bargs, int argc, const char* argv[]) {
     std::cout << parser;
     exit(1);
   } catch (args::ParseError& e) {
-    Status::InvalidParameter() << e.what() << "\n" << parser;
+    return Status::InvalidParameter() << e.what() << "\n" << parser;
   } catch (...) {
     return Status::InvalidParameter();
   }
diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index a03b5c9..8a3a85c 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -175,7 +175,7 @@ struct JppArgsParser {
       std::cerr << parser;
       exit(1);
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter() << "unknown exception happened";
     }
@@ -205,7 +205,7 @@ struct JppArgsParser {
     } catch (args::Help&) {
       return Status::InvalidParameter() << parser;
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter();
     }
-- 
2.43.0


From ffb581fbf3cf7993c1261040214d4855db962384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 04/52] fix: every input file is analyzed, an unreadable one is
 reported instead of looping forever

---
 src/jumandic/main/jumanpp.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 77d9278..244983a 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -22,15 +22,17 @@ struct InputOutput {
   std::unique_ptr<std::ofstream> fileOutput_;
   std::ostream* output_;
 
+  int result_ = 0;
+
   Status moveToNextFile() {
     auto& fn = (*inFiles_)[currentInFile_];
     fileInput_.reset(new std::ifstream{fn});
-    if (fileInput_->bad()) {
-      return JPPS_INVALID_PARAMETER << "failed to open output file: " << fn;
-    }
     input_ = fileInput_.get();
     currentInputFilename_ = fn;
     currentInFile_ += 1;
+    if (fileInput_->fail()) {
+      return JPPS_INVALID_PARAMETER << "failed to open input file: " << fn;
+    }
     return Status::Ok();
   }
 
@@ -80,20 +82,18 @@ struct InputOutput {
   }
 
   bool hasNext() {
-    if (input_->good()) {
-      auto ch = input_->peek();
-      if (ch == std::char_traits<char>::eof()) {
+    while (!input_->good() ||
+           input_->peek() == std::char_traits<char>::eof()) {
+      if (currentInFile_ >= inFiles_->size()) {
         return false;
       }
-    }
-    while (input_->eof() && currentInFile_ < inFiles_->size()) {
       auto s = moveToNextFile();
       if (!s) {
-        LOG_ERROR() << s.message();
+        std::cerr << s << "\n";
+        result_ = 1;
       }
     }
-    auto isOk = !input_->eof();
-    return isOk;
+    return true;
   }
 };
 
@@ -178,5 +178,5 @@ int main(int argc, const char** argv) {
     }
   }
 
-  return result;
+  return result != 0 ? result : io.result_;
 }
-- 
2.43.0


From af992d3171aa49582cafe4a7e2e66d7bbbc0a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 05/52] fix: an output file which can not be opened is an error

---
 src/jumandic/main/jumanpp.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 244983a..552e48a 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -64,6 +64,10 @@ struct InputOutput {
       output_ = &std::cout;
     } else {
       fileOutput_.reset(new std::ofstream{conf.outputFile});
+      if (fileOutput_->fail()) {
+        return JPPS_INVALID_PARAMETER << "failed to open output file: "
+                                      << conf.outputFile.value();
+      }
       output_ = fileOutput_.get();
     }
 
-- 
2.43.0


From e41931b815c70a0056ff00dbd93e5e71bbee1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 06/52] fix: an input which could not be read or formatted
 still gets an error result and a failing exit code

---
 src/jumandic/main/jumanpp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 552e48a..3eeef08 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -161,12 +161,11 @@ int main(int argc, const char** argv) {
     s = io.nextInput();
     if (!s) {
       std::cerr << "failed to read an example: " << s;
+      *io.output_ << exec.emptyResult();
       result = 1;
       continue;
     }
 
-    result = 0;
-
     s = io.streamReader_->analyzeWith(exec.analyzerPtr());
     if (!s) {
       std::cerr << s;
@@ -177,6 +176,7 @@ int main(int argc, const char** argv) {
     s = exec.format()->format(*exec.analyzerPtr(), io.streamReader_->comment());
     if (!s) {
       std::cerr << s;
+      *io.output_ << exec.emptyResult();
     } else {
       *io.output_ << exec.format()->result();
     }
-- 
2.43.0


From ba66a1d1ca83f463a655890702e89bfeac1f6197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 07/52] fix: a truncated model file is an error

---
 src/core/impl/model_io.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index c1c3575..9743e67 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -153,6 +153,11 @@ Status FilesystemModel::load(ModelInfo* info) {
     part.kind = p.kind;
     part.comment = p.comment;
     for (auto& raw : p.data) {
+      if (raw.offset > modelData.size() ||
+          raw.size > modelData.size() - raw.offset) {
+        return JPPS_INVALID_STATE << "model file " << file_->name
+                                  << " is truncated or has a corrupted header";
+      }
       ptrdiff_t start = static_cast<ptrdiff_t>(raw.offset);
       ptrdiff_t end = static_cast<ptrdiff_t>(start + raw.size);
       part.data.push_back(modelData.slice(start, end));
-- 
2.43.0


From 1d4473cac7234b59e47b6044d5c8dd07b54fcc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 08/52] fix: the reader accepts every model header size which
 the writer produces

---
 src/core/impl/model_io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index 9743e67..c3ca140 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -121,7 +121,7 @@ Status FilesystemModel::open(StringPiece name) {
                               << " has corrupted header";
   }
 
-  auto rest = sp.slice(sizeof(ModelMagic), 4096 - sizeof(ModelMagic));
+  auto rest = sp.slice(sizeof(ModelMagic), 4096);
   util::CodedBufferParser cbp{rest};
   u64 hdrSize = 0;
   if (!cbp.readVarint64(&hdrSize)) {
-- 
2.43.0


From a90e32e12ff6e7b67f213fd296eaebfc636ba3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 09/52] fix: --model-info reports a model which can not be
 opened

---
 src/jumandic/main/jumanpp.cc        | 12 ++++++++++--
 src/jumandic/shared/jumandic_env.cc |  9 ++++-----
 src/jumandic/shared/jumandic_env.h  |  2 +-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 3eeef08..caedc9a 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -129,7 +129,11 @@ int main(int argc, const char** argv) {
     }
 
     if (conf.outputType == jumandic::OutputType::ModelInfo) {
-      exec.printModelInfo();
+      s = exec.printModelInfo();
+      if (!s) {
+        std::cerr << "failed to print model info: " << s;
+        return 1;
+      }
       return 0;
     }
 
@@ -143,7 +147,11 @@ int main(int argc, const char** argv) {
   }
 
   if (conf.outputType == jumandic::OutputType::ModelInfo) {
-    exec.printModelInfo();
+    s = exec.printModelInfo();
+    if (!s) {
+      std::cerr << "failed to print model info: " << s;
+      return 1;
+    }
     return 0;
   }
 
diff --git a/src/jumandic/shared/jumandic_env.cc b/src/jumandic/shared/jumandic_env.cc
index b6fe65f..edabc2c 100644
--- a/src/jumandic/shared/jumandic_env.cc
+++ b/src/jumandic/shared/jumandic_env.cc
@@ -173,12 +173,11 @@ Status JumanppExec::writeGraphviz() {
   return Status::Ok();
 }
 
-void JumanppExec::printModelInfo() const {
+Status JumanppExec::printModelInfo() const {
   core::model::FilesystemModel model;
-  Status s = model.open(this->conf.modelFile.value());
-  if (s) {
-    model.renderInfo();
-  }
+  JPP_RETURN_IF_ERROR(model.open(this->conf.modelFile.value()));
+  model.renderInfo();
+  return Status::Ok();
 }
 
 void JumanppExec::printFullVersion() const {
diff --git a/src/jumandic/shared/jumandic_env.h b/src/jumandic/shared/jumandic_env.h
index 7b6c73d..29c1816 100644
--- a/src/jumandic/shared/jumandic_env.h
+++ b/src/jumandic/shared/jumandic_env.h
@@ -67,7 +67,7 @@ class JumanppExec {
 
   virtual ~JumanppExec() = default;
 
-  void printModelInfo() const;
+  Status printModelInfo() const;
 
   void printFullVersion() const;
   StringPiece emptyResult() const;
-- 
2.43.0


From bc3b6b2534a1004c6c1582631f776dc00f4e5e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 10/52] fix: a failed read of one serialized field is not
 forgotten when the next one succeeds

---
 src/util/serialization.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index 38429e3..b7c1ed4 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -72,7 +72,9 @@ class Loader {
 
   template <typename T>
   void operator&(T &o) {
-    status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
+    if (!SerializeImpl<T>::DoSerializeLoad(o, this, parser_)) {
+      status_ = false;
+    }
   }
 
   void reset(StringPiece data) { parser_.reset(data); }
-- 
2.43.0


From 6d8b5101d87d385a9d699b58d933b93e07a84961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 11/52] fix: a CSV file ending with a separator is read to the
 end instead of looping forever

---
 src/util/csv_reader.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/util/csv_reader.cc b/src/util/csv_reader.cc
index 33c9cb7..52336ea 100644
--- a/src/util/csv_reader.cc
+++ b/src/util/csv_reader.cc
@@ -32,12 +32,10 @@ bool CsvReader::nextLine() {
   for (;; ++position) {
     // This block executes when end of file is reached
     if (position == end) {
-      if (field_start != position) {
-        if (shouldEmit) {
-          fields_.emplace_back(field_start, position);
-        }
-        position_ = position;
+      if (shouldEmit) {
+        fields_.emplace_back(field_start, position);
       }
+      position_ = position;
       break;
     }
 
-- 
2.43.0


From 765663d95f42a4555a3957008abbd445b12b0d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 12/52] fix: a malformed CSV line is an error, not the end of
 the file

---
 src/core/dic/dic_build_detail.cc     | 1 +
 src/core/input/partial_example_io.cc | 1 +
 src/core/training/full_example.cc    | 4 ++--
 src/rnn/mikolov_rnn.cc               | 1 +
 src/util/csv_reader.cc               | 8 ++++++++
 src/util/csv_reader.h                | 8 ++++++++
 6 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 7683a46..43526d8 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -95,6 +95,7 @@ Status DictionaryBuilderStorage::computeStats(StringPiece name,
     }
     ++numLine;
   }
+  JPP_RIE_MSG(csv->finish(), "when processing dictionary file " << name);
   return Status::Ok();
 }
 
diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index b72f2d1..50826dd 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -126,6 +126,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
     result->nodes_.push_back(std::move(nc));
   }
   *eof = true;
+  JPP_RIE_MSG(csv_.finish(), "when reading " << filename_);
   return Status::Ok();
 }
 
diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 1827166..54e3ad7 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -72,13 +72,13 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
     JPP_RETURN_IF_ERROR(readSingleExampleFragment(csv_, result));
   }
   finished_ = true;
-  return Status::Ok();
+  return csv_.finish();
 }
 
 Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
   finished_ = !csv_.nextLine();
   if (finished_) {
-    return Status::Ok();
+    return csv_.finish();
   }
 
   auto numwords = csv_.numFields();
diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 4d3c675..ad53dd4 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -171,6 +171,7 @@ Status MikolovModelReader::parse() {
   while (ssvReader.nextLine()) {
     wdata.push_back(ssvReader.field(0));
   }
+  JPP_RETURN_IF_ERROR(ssvReader.finish());
   auto& hdr = data_->header;
 
   hdr.vocabSize = wdata.size();
diff --git a/src/util/csv_reader.cc b/src/util/csv_reader.cc
index 52336ea..4de8df0 100644
--- a/src/util/csv_reader.cc
+++ b/src/util/csv_reader.cc
@@ -109,6 +109,14 @@ bool CsvReader::nextLine() {
   return !fields_.empty();
 }
 
+Status CsvReader::finish() const {
+  if (position_ != end_) {
+    return Status::InvalidParameter()
+           << "malformed CSV on line " << line_number_;
+  }
+  return Status::Ok();
+}
+
 i32 CsvReader::numFields() const { return static_cast<i32>(fields_.size()); }
 
 StringPiece CsvReader::field(i32 idx) const {
diff --git a/src/util/csv_reader.h b/src/util/csv_reader.h
index 297141c..0ff38aa 100644
--- a/src/util/csv_reader.h
+++ b/src/util/csv_reader.h
@@ -80,7 +80,15 @@ class CsvReader {
   CsvReader(char separator = ',', char quote = '"');
   Status open(StringPiece filename);
   Status initFromMemory(StringPiece data);
+  /**
+   * @return false if there are no more lines, or if the line is malformed.
+   * In the second case #finish will return an error.
+   */
   bool nextLine();
+  /**
+   * @return an error if there is still data which could not be read
+   */
+  Status finish() const;
   i32 numFields() const;
   StringPiece field(i32 idx) const;
   i64 lineNumber() const { return line_number_; }
-- 
2.43.0


From d4617c4d1c36080562d55186a0829c3ea0c5b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 13/52] fix: exceptions are thrown by value, the dictionary
 size check covers every entry

---
 src/core/dic/entry_builder.cc | 3 +--
 src/util/memory.cpp           | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/dic/entry_builder.cc b/src/core/dic/entry_builder.cc
index b81de76..8d77fc6 100644
--- a/src/core/dic/entry_builder.cc
+++ b/src/core/dic/entry_builder.cc
@@ -167,7 +167,6 @@ i32 DicEntryData::write(EntryTableBuilder* bldr) {
       buf.writeVarint(static_cast<u32>(f));
     }
     resultPtr = ptr << 1;
-    return static_cast<i32>(resultPtr);
   } else {
     // write an aliased node
     buf.writeVarint(data.size());
@@ -179,7 +178,7 @@ i32 DicEntryData::write(EntryTableBuilder* bldr) {
     resultPtr = (ptr << 1) | 0x1;
   }
   if (resultPtr > std::numeric_limits<i32>::max()) {
-    throw new std::range_error("dictionary is too large");
+    throw std::range_error("dictionary is too large");
   }
   return static_cast<i32>(resultPtr);
 }
diff --git a/src/util/memory.cpp b/src/util/memory.cpp
index 440dab0..8291703 100644
--- a/src/util/memory.cpp
+++ b/src/util/memory.cpp
@@ -136,7 +136,7 @@ bool PoolAlloc::switchToNewPage(size_t size) {
     LOG_ERROR() << "page size (" << page.size << " is lesser than object size ("
                 << size << "), please increase page size";
     JPP_BREAK_TO_DEBUGGER_IF_ATTACHED();
-    throw new std::bad_alloc();
+    throw std::bad_alloc();
   }
   base_ = reinterpret_cast<char*>(page.base);
   offset_ = 0;
-- 
2.43.0


From 1f948b1d51b47ad155023bffc73b8e8030a53a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 14/52] fix: moving a mapped file fragment keeps what has to be
 unmapped

---
 src/util/mmap_impl_unix.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index a0b85a3..4f1df23 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -226,12 +226,23 @@ StringPiece MappedFileFragment::asStringPiece() const {
 }
 
 MappedFileFragment::MappedFileFragment(MappedFileFragment &&o) noexcept
-    : address_{o.address_}, size_{o.size_} {
+    : baseAddress_{o.baseAddress_},
+      address_{o.address_},
+      alignedSize_{o.alignedSize_},
+      size_{o.size_} {
   o.address_ = MAP_FAILED;
 }
 
 MappedFileFragment &MappedFileFragment::operator=(
     MappedFileFragment &&o) noexcept {
+  if (this == &o) {
+    return *this;
+  }
+  if (!isClean()) {
+    this->unmap();
+  }
+  baseAddress_ = o.baseAddress_;
+  alignedSize_ = o.alignedSize_;
   address_ = o.address_;
   size_ = o.size_;
   o.address_ = MAP_FAILED;
-- 
2.43.0


From 9a187143a53bb6eff37eb13a7ce400f31b1e14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 15/52] fix: training threads are stopped when an epoch ends
 with an error

---
 src/core/training/training_executor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index f627f31..5d787eb 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -77,6 +77,14 @@ TrainingExecutionResult TrainingExecutor::waitOne() {
 }
 
 TrainingExecutor::~TrainingExecutor() {
+  // after an error there could be unprocessed items in both queues, threads
+  // would not see the stop signal or would wait for a place for their results
+  ITrainer* trainer;
+  while (trainers_.recieve(&trainer))
+    ;  // do nothing
+  TrainingExecutionResult result;
+  while (results_.recieve(&result))
+    ;  // do nothing
   while (trainers_.offer(nullptr))
     ;  // do nothing
   trainers_.unblock_all();
-- 
2.43.0


From 6bb09581580774b6b767f6371548b3098743c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 16/52] fix: a partially annotated sentence without a comment
 does not get the comment of the previous one

---
 src/core/input/partial_example_io.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 50826dd..58bbab8 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -23,6 +23,7 @@ Status PartialExampleReader::initialize(TrainFieldsIndex* tio,
 
 Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
   result->file_ = filename_;
+  result->comment_.clear();
   bool firstLine = true;
   i32 boundary = 2;
   result->boundaries_.clear();
-- 
2.43.0


From d4cefa1bcf03af3c78bf7f403ae7aec3d4c01b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 17/52] fix: the number of fields of a training example is
 checked before the fields are read

---
 src/core/training/full_example.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 54e3ad7..f49151c 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -112,12 +112,6 @@ Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
 
 Status FullExampleReader::readSingleExampleFragment(
     const util::CsvReader &csv, FullyAnnotatedExample *result) {
-  codepts_.clear();
-  auto surfFld = csv.field(tio_->surfaceFieldIdx());
-
-  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
-  result->lengths_.push_back(codepts_.size());
-
   auto fields = tio_->fields();
 
   if (csv.numFields() < fields.size()) {
@@ -125,6 +119,13 @@ Status FullExampleReader::readSingleExampleFragment(
            << "a word from the line #" << csv_.lineNumber() << " had "
            << csv.numFields() << " fields, expected " << fields.size();
   }
+
+  codepts_.clear();
+  auto surfFld = csv.field(tio_->surfaceFieldIdx());
+
+  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
+  result->lengths_.push_back(codepts_.size());
+
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
-- 
2.43.0


From f22150e0d442420691e39ca46eacd6829bab9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 18/52] fix: a corrupted length of a serialized list is an
 error

---
 src/util/serialization.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index b7c1ed4..7222a18 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -253,8 +253,10 @@ struct SerializeImpl<std::vector<T, A>> {
                                      util::CodedBufferParser &p) {
     u64 sz;
     JPP_RET_CHECK(p.readVarint64(&sz));
+    // an element takes at least a byte
+    JPP_RET_CHECK(sz <= p.remaining());
     o.reserve(sz);
-    for (int i = 0; i < sz; ++i) {
+    for (u64 i = 0; i < sz; ++i) {
       o.emplace_back();
       JPP_RET_CHECK(SerializeImpl<T>::DoSerializeLoad(o.back(), s, p));
     }
-- 
2.43.0


From 877880b21b5efa5924a75ef80185ab5d994d650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 19/52] fix: every feature of the wrong analysis is penalized
 and every gold feature is promoted

---
 src/core/training/loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index 31abd45..f13e3a8 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -236,11 +236,11 @@ void LossCalculator::computeFeatureDiff(u32 mask) {
   }
 
   for (; topPos < topCnt; ++topPos) {
-    mergeOne(top1Features[topPos], 1.0f);
+    mergeOne(top1Features[topPos], -1.0f);
   }
 
   for (; goldPos < goldCnt; ++goldPos) {
-    mergeOne(goldFeatures[goldPos], -1.0f);
+    mergeOne(goldFeatures[goldPos], 1.0f);
   }
 
   float numGold = 0;
-- 
2.43.0


From 226637676f3def81a10a85311585ddc68e4a4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 20/52] fix: training compares the entry data by the dictionary
 feature index, not by the spec index

---
 src/core/training/gold_example.cc | 2 +-
 src/core/training/loss.cc         | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 4ea4791..200187d 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -26,7 +26,7 @@ bool TrainingExampleAdapter::matchUnkNodeData(const analysis::ExtraNode *pNode,
     if (trainFld.weight == 0) {
       continue;
     }
-    auto latticeIdx = trainFld.fieldIdx;
+    auto latticeIdx = trainFld.dicIdx;
     auto latVal = latNodeData.at(latticeIdx);
     if (latVal < 0) {
       if (latVal != surfaceHash) {
diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index f13e3a8..363b980 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -39,7 +39,11 @@ bool LossCalculator::findWorstTopNode(i32 goldPos, ComparisonStep* step) {
     float mismatchWeight = 0;
 
     for (auto& sf : specFlds) {
-      if (topData[sf.fieldIdx] != goldData[sf.fieldIdx]) {
+      if (sf.dicIdx < 0) {
+        // not a feature, entries do not have it
+        continue;
+      }
+      if (topData[sf.dicIdx] != goldData[sf.dicIdx]) {
         numMismatches += 1;
         mismatchWeight += sf.weight;
       }
-- 
2.43.0


From 702ce73fe8473a6d601b5953f0d59d2c2022de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 21/52] fix: list match features read the csv column of the
 field, not its number in the spec

---
 src/core/dic/dic_feature_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 4b10ef2..3690964 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -91,7 +91,7 @@ Status MatchListDicFeatureImpl::initialize(
   auto& imp = ctx.importers[desc.references.front()];
   auto& ss = ctx.storage[imp.descriptor->stringStorage];
   storage_ = &ss;
-  fieldIdx_ = desc.references.front();
+  fieldIdx_ = imp.descriptor->position - 1;
   auto type = imp.descriptor->fieldType;
   switch (type) {
     case spec::FieldType::StringKVList:
-- 
2.43.0


From 64c6b0766f5307646ea9e31613093c4ce92741b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 22/52] fix: the surface of a dictionary entry is read from the
 csv column of the indexed field

---
 src/core/dic/dic_build_detail.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 43526d8..d215378 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -172,8 +172,8 @@ Status DictionaryBuilderStorage::initialize(const s::DictionarySpec& dicSpec) {
 Status DictionaryBuilderStorage::initDicFeatures(const FeaturesSpec& dicSpec) {
   DicFeatureContext ctx{storage, importers, stringBuffers, intBuffers};
   JPP_RETURN_IF_ERROR(entries.createFeatures(dicSpec, ctx));
-  entries.surfaceIdx_ = static_cast<u32>(indexColumn);
   auto desc = importers[indexColumn].descriptor;
+  entries.surfaceIdx_ = static_cast<u32>(desc->position - 1);
   entries.realSurfaceStorage_ = &storage[desc->stringStorage];
   entries.featureBuf_.resize(static_cast<size_t>(dicSpec.numDicFeatures));
   return Status::Ok();
-- 
2.43.0


From a5f6c701dac2399db354fc5979a479bc7d064bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 23/52] fix: --graphviz-dir writes the lattices again

---
 src/jumandic/main/jumanpp.cc        |  5 +++++
 src/jumandic/shared/jumandic_env.cc |  5 +++--
 src/jumandic/shared/jumandic_env.h  | 15 ++++++++++-----
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index caedc9a..81f0497 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -187,6 +187,11 @@ int main(int argc, const char** argv) {
       *io.output_ << exec.emptyResult();
     } else {
       *io.output_ << exec.format()->result();
+      s = exec.finishAnalysis();
+      if (!s) {
+        std::cerr << s;
+        result = 1;
+      }
     }
   }
 
diff --git a/src/jumandic/shared/jumandic_env.cc b/src/jumandic/shared/jumandic_env.cc
index edabc2c..73367f8 100644
--- a/src/jumandic/shared/jumandic_env.cc
+++ b/src/jumandic/shared/jumandic_env.cc
@@ -167,8 +167,9 @@ Status JumanppExec::writeGraphviz() {
   auto filename =
       fmt::format("{0}/{1:08}.dot", conf.graphvizDir.value(), numAnalyzed_);
   std::ofstream of{filename};
-  if (of) {
-    of << fmt.result() << "\n";
+  of << fmt.result() << "\n";
+  if (!of) {
+    return JPPS_INVALID_PARAMETER << "failed to write file: " << filename;
   }
   return Status::Ok();
 }
diff --git a/src/jumandic/shared/jumandic_env.h b/src/jumandic/shared/jumandic_env.h
index 29c1816..86b18d4 100644
--- a/src/jumandic/shared/jumandic_env.h
+++ b/src/jumandic/shared/jumandic_env.h
@@ -50,17 +50,22 @@ class JumanppExec {
     try {
       JPP_RETURN_IF_ERROR(analyzer_.analyze(data));
       JPP_RETURN_IF_ERROR(format_->format(analyzer_, comment))
-      if (!conf.graphvizDir.value().empty()) {
-        JPP_RETURN_IF_ERROR(writeGraphviz());
-      }
-      numAnalyzed_ += 1;
-      return Status::Ok();
+      return finishAnalysis();
     } catch (std::exception& e) {
       return JPPS_INVALID_STATE << "failed to analyze [" << data << "] ["
                                 << comment << "]: " << e.what();
     }
   }
 
+  // should be called after a sentence was analyzed and formatted
+  Status finishAnalysis() {
+    if (!conf.graphvizDir.value().empty()) {
+      JPP_RETURN_IF_ERROR(writeGraphviz());
+    }
+    numAnalyzed_ += 1;
+    return Status::Ok();
+  }
+
   StringPiece output() const { return format_->result(); }
 
   u64 numAnalyzed() const { return numAnalyzed_; }
-- 
2.43.0


From da78672a74f2c9c7545aad2582945e12cab1c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 24/52] fix: the stopping epsilon compares the losses of
 consecutive epochs

---
 src/core/tool/train_cmd.cc         | 1 +
 src/jumandic/main/jumanpp_train.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/tool/train_cmd.cc b/src/core/tool/train_cmd.cc
index 0147c46..0f8d0c7 100644
--- a/src/core/tool/train_cmd.cc
+++ b/src/core/tool/train_cmd.cc
@@ -42,6 +42,7 @@ void doTrain(core::training::TrainingEnv& env,
     if (std::abs(lastLoss - env.epochLoss()) < args.batchLossEpsilon) {
       return;
     }
+    lastLoss = env.epochLoss();
   }
 }
 
diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index 1c8ab94..e929923 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -199,6 +199,7 @@ void doTrain(core::training::TrainingEnv& env,
     if (std::abs(lastLoss - env.epochLoss()) < args.batchLossEpsilon) {
       return;
     }
+    lastLoss = env.epochLoss();
   }
 }
 
-- 
2.43.0


From b4bc3c6be7ad0435dca03c62393bea7ec32f95d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 25/52] fix: overriding one RNN option keeps the weights stored
 in the model

---
 src/core/env.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/env.cc b/src/core/env.cc
index 569826d..f229f91 100644
--- a/src/core/env.cc
+++ b/src/core/env.cc
@@ -89,9 +89,11 @@ void JumanppEnv::setRnnConfig(
     if (scorers_.others.empty()) {
       scorers_.others.push_back(&rnnHolder_);
     }
+    // values which were not overridden come from the model
+    auto& merged = rnnHolder_.config();
     scorers_.scoreWeights.resize(2, 0);
-    scorers_.scoreWeights[0] = rnnConf.perceptronWeight;
-    scorers_.scoreWeights[1] = rnnConf.rnnWeight;
+    scorers_.scoreWeights[0] = merged.perceptronWeight;
+    scorers_.scoreWeights[1] = merged.rnnWeight;
     scoringConf_.numScorers = 2;
   } else {
     scorers_.scoreWeights.resize(1, 0);
-- 
2.43.0


From 60b8723b393eb0402df4585994a207c5574559bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 26/52] fix: the normalization constant stored in an embedded
 RNN is used, not its weight

---
 src/core/analysis/rnn_scorer_gbeam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 5fa9f32..e3471a7 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -462,8 +462,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
 
   JPP_RETURN_IF_ERROR(state_->rnn.init(rnnhdr, rnnMatrix, maxentWeights));
   state_->computeBosState(0);
-  if (config().rnnWeight.defined()) {
-    state_->rnn.setNceConstant(config().rnnWeight);
+  if (config().nceBias.defined()) {
+    state_->rnn.setNceConstant(config().nceBias);
   }
 
   return Status::Ok();
-- 
2.43.0


From 4225a1eaeabc9e99c740d87636f1b4e6c71e8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 27/52] fix: the blocks of an embedded RNN are as long as its
 header says

---
 src/core/analysis/rnn_scorer_gbeam.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index e3471a7..3727778 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -400,7 +400,8 @@ Status RnnScorerGbeamFactory::makeInfo(model::ModelInfo* info,
 
 Status arr2d(StringPiece data, size_t nrows, size_t ncols,
              util::ConstSliceable<float>* result) {
-  if (nrows * ncols * sizeof(float) < data.size()) {
+  auto available = data.size() / sizeof(float);
+  if (ncols != 0 && nrows > available / ncols) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << nrows * ncols * sizeof(float);
@@ -413,7 +414,7 @@ Status arr2d(StringPiece data, size_t nrows, size_t ncols,
 
 Status arr1d(StringPiece data, size_t expected,
              util::ArraySlice<float>* result) {
-  if (expected * sizeof(float) < data.size()) {
+  if (expected > data.size() / sizeof(float)) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << expected * sizeof(float);
@@ -430,6 +431,11 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
     return JPPS_INVALID_PARAMETER << "model file did not contain RNN";
   }
 
+  if (p->data.size() != 7) {
+    return JPPS_INVALID_PARAMETER << "RNN must have exactly 7 parts, had "
+                                  << p->data.size();
+  }
+
   RnnModelHeader header{state_->config, {}, {}, {}};
 
   util::serialization::Loader l{p->data[0]};
@@ -449,7 +455,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
   util::ArraySlice<float> maxentWeights;
 
   JPP_RIE_MSG(
-      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.vocabSize, &rnnMatrix),
+      arr1d(p->data[3], size_t{rnnhdr.layerSize} * rnnhdr.layerSize,
+            &rnnMatrix),
       "failed to read matrix");
   JPP_RIE_MSG(arr2d(p->data[4], rnnhdr.vocabSize, rnnhdr.layerSize,
                     &state_->embeddings),
-- 
2.43.0


From a891cc3efc6ce48d828820227afca219a9970894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 28/52] fix: the path of an empty sentence starts before its
 first boundary

---
 src/core/analysis/analysis_result.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/analysis/analysis_result.cc b/src/core/analysis/analysis_result.cc
index 1948017..d8e7d94 100644
--- a/src/core/analysis/analysis_result.cc
+++ b/src/core/analysis/analysis_result.cc
@@ -27,6 +27,7 @@ Status AnalysisPath::fillIn(const Lattice *l) {
   JPP_DCHECK_GE(bnds, 3);
   elems_.clear();
   offsets_.clear();
+  reset();
   elems_.reserve(bnds * 2);
   offsets_.reserve(bnds);
   if (bnds == 3) {  // empty string
@@ -70,8 +71,6 @@ Status AnalysisPath::fillIn(const Lattice *l) {
     topPtr = topPtr->previous;
   }
 
-  currentChunk_ = -1;
-
   return Status::Ok();
 }
 }  // namespace analysis
-- 
2.43.0


From 63c616c253863a8b49f6c7cdc5a0f89f39275135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:53 +0000
Subject: [PATCH 29/52] fix: training with no threads or with threads which can
 not be started ends with an error

---
 src/core/training/training_executor.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index 5d787eb..8435c0b 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -57,14 +57,19 @@ void TrainingExecutorThread::finish() { thread_.join(); }
 
 Status TrainingExecutor::initialize(const analysis::ScorerDef* sconf,
                                     u32 nthreads) {
+  if (nthreads == 0) {
+    return JPPS_INVALID_PARAMETER << "training needs at least one thread";
+  }
   threads_.clear();
+  // the stop signals go through the queues, so they must be usable even when
+  // some threads could not be started
+  trainers_.initialize(nthreads * 2);
+  results_.initialize(nthreads * 2);
   try {
     for (u32 i = 0; i < nthreads; ++i) {
       threads_.emplace_back(
           new TrainingExecutorThread{sconf, &trainers_, &results_});
     }
-    trainers_.initialize(nthreads * 2);
-    results_.initialize(nthreads * 2);
   } catch (std::system_error& e) {
     return JPPS_INVALID_STATE << "failed to initialize executor: " << e.code()
                               << " msg: " << e.what();
-- 
2.43.0


From a8463b37ce0bc8e7ba144eaeacf751dc02fb6543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 30/52] fix: a dictionary which is too large is an error, not a
 terminated program

---
 src/core/dic/dic_builder.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/dic/dic_builder.cc b/src/core/dic/dic_builder.cc
index a2bc1e4..406f3b4 100644
--- a/src/core/dic/dic_builder.cc
+++ b/src/core/dic/dic_builder.cc
@@ -4,6 +4,7 @@
 
 #include "dic_builder.h"
 #include <chrono>
+#include <stdexcept>
 #include "core/dic/dic_build_detail.h"
 #include "core/dic/progress.h"
 #include "core/spec/spec_ser.h"
@@ -41,7 +42,13 @@ Status DictionaryBuilder::importCsv(StringPiece name, StringPiece data) {
 
   // second csv pass -- compute entries
   newProgressStep("Compiling dictionary entries");
-  i32 entryCnt = storage_->importActualData(&csv, progress_);
+  i32 entryCnt = 0;
+  try {
+    entryCnt = storage_->importActualData(&csv, progress_);
+  } catch (std::range_error& e) {
+    return JPPS_INVALID_PARAMETER << "failed to import " << name << ": "
+                                  << e.what();
+  }
 
   // finally: build trie
   newProgressStep("Compiling trie index");
-- 
2.43.0


From a852eecb09c93ac4c69d1a023c444b6960c8c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 31/52] fix: the sizes in an rnn model file are checked against
 its length before they are used

---
 src/rnn/mikolov_rnn.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index ad53dd4..ff92e21 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -34,6 +34,11 @@ size_t toMember(P T::*ptr, T* base, const char* data, size_t offset) {
 
 Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
                   size_t* offset) {
+  if (data.size() < sizeof(PackedHeader)) {
+    return JPPS_INVALID_PARAMETER << "rnn model file is too short: "
+                                  << data.size() << " bytes";
+  }
+
   PackedHeader packed;
 
   std::memset(&packed, 0, sizeof(PackedHeader));
@@ -60,6 +65,7 @@ Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
            << "model was trained without nce, we support only nce models";
   }
 
+  packed.layerType[LayerNameMaxSize - 1] = '\0';
   auto piece = StringPiece::fromCString(packed.layerType);
   if (piece != "sigmoid") {
     return JPPS_INVALID_PARAMETER
@@ -148,7 +154,7 @@ MikolovModelReader::~MikolovModelReader() {}
 Status copyArray(StringPiece data, util::MutableArraySlice<float> result,
                  size_t size, size_t* offset) {
   auto fullSize = size * sizeof(float);
-  if (*offset + fullSize > data.size()) {
+  if (*offset > data.size() || fullSize > data.size() - *offset) {
     return JPPS_INVALID_PARAMETER
            << "can't copy rnn weight data, from offset=" << *offset
            << " want to read " << fullSize << ", but there is only "
@@ -175,6 +181,16 @@ Status MikolovModelReader::parse() {
   auto& hdr = data_->header;
 
   hdr.vocabSize = wdata.size();
+
+  const auto available = (contents.size() - start) / sizeof(float);
+  if (hdr.layerSize == 0 || wdata.empty() ||
+      wdata.size() > available / hdr.layerSize ||
+      hdr.layerSize > available / hdr.layerSize || hdr.maxentSize > available) {
+    return JPPS_INVALID_PARAMETER
+           << "rnn model file does not match its header or dictionary, only "
+           << contents.size() << " bytes available";
+  }
+
   auto maxBlock = std::max<u64>({hdr.layerSize * hdr.vocabSize, hdr.maxentSize,
                                  hdr.layerSize * hdr.layerSize});
   // 3 comes from rounding to next value + sizeof(float)
-- 
2.43.0


From eee5bbf737685b04dc6f82dbfbdeef4c3cf0ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 32/52] fix: a model file with column or storage indices out of
 range is refused

---
 src/core/dic/dic_builder.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/dic/dic_builder.cc b/src/core/dic/dic_builder.cc
index 406f3b4..d3ae336 100644
--- a/src/core/dic/dic_builder.cc
+++ b/src/core/dic/dic_builder.cc
@@ -172,12 +172,24 @@ inline Status fixupDictionary(const model::ModelPart &dicInfo,
   }
   for (int j = 0; j < dic->fieldData.size(); ++j) {
     auto &f = dic->fieldData[j];
+    if (f.specIndex < 0 || f.specIndex >= spec_->dictionary.fields.size()) {
+      return JPPS_INVALID_PARAMETER << "model file refers to a column "
+                                    << f.specIndex << " which does not exist";
+    }
     auto &fd = spec_->dictionary.fields[f.specIndex];
     if (f.dicIndex != fd.dicIndex) {
       return JPPS_INVALID_PARAMETER << "something went wrong and built field "
                                        "dicIndex !=  spec field dicIndex: "
                                     << f.dicIndex << " vs " << fd.dicIndex;
     }
+    if ((fd.stringStorage != spec::InvalidInt &&
+         (fd.stringStorage < 0 ||
+          fd.stringStorage >= dic->stringStorages.size())) ||
+        (fd.intStorage != spec::InvalidInt &&
+         (fd.intStorage < 0 || fd.intStorage >= dic->intStorages.size()))) {
+      return JPPS_INVALID_PARAMETER << "storage of the column " << fd.name
+                                    << " is not in the model file";
+    }
     f.stringStorageIdx = fd.stringStorage;
     if (fd.stringStorage != spec::InvalidInt) {
       f.stringContent = dic->stringStorages[fd.stringStorage];
-- 
2.43.0


From 4a7952acbcc69bb84e908f87cb71d142e998569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 33/52] fix: the limit on columns applies to all columns of a
 loaded dictionary

---
 src/core/dic/dic_builder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/dic/dic_builder.cc b/src/core/dic/dic_builder.cc
index d3ae336..93c5c95 100644
--- a/src/core/dic/dic_builder.cc
+++ b/src/core/dic/dic_builder.cc
@@ -144,7 +144,8 @@ inline Status fixupDictionary(const model::ModelPart &dicInfo,
     }
   }
 
-  entryFldCnt = std::max(entryFldCnt, infoFldCnt);
+  // values of all columns are read into a buffer of this size
+  entryFldCnt += infoFldCnt;
 
   if (entryFldCnt > JPP_MAX_DIC_FIELDS) {
     return JPPS_INVALID_STATE
-- 
2.43.0


From 301bfe39eb58ea75f6e75122b396789e52edc790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:18 +0000
Subject: [PATCH 34/52] fix: a model file whose spec disagrees about dictionary
 columns is refused

---
 src/core/dic/dic_builder.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/core/dic/dic_builder.cc b/src/core/dic/dic_builder.cc
index 93c5c95..8b45725 100644
--- a/src/core/dic/dic_builder.cc
+++ b/src/core/dic/dic_builder.cc
@@ -144,6 +144,22 @@ inline Status fixupDictionary(const model::ModelPart &dicInfo,
     }
   }
 
+  if (spec_->features.numDicFeatures != entryFldCnt ||
+      spec_->features.numDicData != infoFldCnt) {
+    return JPPS_INVALID_PARAMETER
+           << "model file has " << entryFldCnt << " feature and " << infoFldCnt
+           << " data columns, but its spec requires "
+           << spec_->features.numDicFeatures << " and "
+           << spec_->features.numDicData;
+  }
+
+  for (const auto &f : spec_->dictionary.fields) {
+    if (f.dicIndex >= entryFldCnt || f.dicIndex < ~(infoFldCnt - 1)) {
+      return JPPS_INVALID_PARAMETER << "column " << f.name
+                                    << " has an invalid index " << f.dicIndex;
+    }
+  }
+
   // values of all columns are read into a buffer of this size
   entryFldCnt += infoFldCnt;
 
-- 
2.43.0


From fee18b6160a5289ffbe5f5b17ca9d3dad14a334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:06 +0000
Subject: [PATCH 35/52] fix: locating an entry which can not be read fails

---
 src/core/analysis/output.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/analysis/output.cc b/src/core/analysis/output.cc
index 9b6d28b..f496993 100644
--- a/src/core/analysis/output.cc
+++ b/src/core/analysis/output.cc
@@ -96,16 +96,16 @@ bool OutputManager::locate(EntryPtr ptr, NodeWalker *result) const {
 
     if (node->header.type == ExtraNodeType::Unknown) {
       auto actualPtr = node->header.unk.templatePtr;
-      result->buffer_.fillFromStorage(actualPtr, this->entries_.entryData());
+      JPP_RET_CHECK(result->buffer_.fillFromStorage(
+          actualPtr, this->entries_.entryData()));
       auto data = xtra_->nodeContent(node);
       result->buffer_.overwriteFeaturesWith(data);
       return true;
     }
 
   } else {
-    result->buffer_.fillFromStorage(result->current_,
-                                    this->entries_.entryData());
-    return true;
+    return result->buffer_.fillFromStorage(result->current_,
+                                           this->entries_.entryData());
   }
   return false;
 }
-- 
2.43.0


From 204007f33dac035982ac6f3c262002ea9714e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:18 +0000
Subject: [PATCH 36/52] fix: a model file without the pattern entry of an
 unknown word rule is refused

---
 src/core/analysis/dic_reader.cc | 16 +++++++++-------
 src/core/analysis/dic_reader.h  |  3 ++-
 src/core/analysis/unk_nodes.cc  |  4 +++-
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/core/analysis/dic_reader.cc b/src/core/analysis/dic_reader.cc
index f0b3f38..06008e6 100644
--- a/src/core/analysis/dic_reader.cc
+++ b/src/core/analysis/dic_reader.cc
@@ -17,14 +17,16 @@ util::MutableArraySlice<i32> DictNode::copyTo(ExtraNode *node) const {
   return slice;
 }
 
-DictNode DicReader::readEntry(EntryPtr ptr) const {
-  DictNode node;
+Status DicReader::readEntry(EntryPtr ptr, DictNode *result) const {
   auto dicEntries = dic_.entries();
-  node.entry_.setCounts(static_cast<u32>(dicEntries.numFeatures()),
-                        static_cast<u32>(dicEntries.numData()));
-  auto read = node.entry_.fillFromStorage(ptr, dicEntries.entryData());
-  JPP_DCHECK(read);
-  return node;
+  result->entry_.setCounts(static_cast<u32>(dicEntries.numFeatures()),
+                           static_cast<u32>(dicEntries.numData()));
+  if (ptr.isSpecial() ||
+      !result->entry_.fillFromStorage(ptr, dicEntries.entryData())) {
+    return JPPS_INVALID_STATE << "dictionary has no entry "
+                              << ptr.rawValue();
+  }
+  return Status::Ok();
 }
 
 }  // namespace analysis
diff --git a/src/core/analysis/dic_reader.h b/src/core/analysis/dic_reader.h
index 0855a9d..37f68f0 100644
--- a/src/core/analysis/dic_reader.h
+++ b/src/core/analysis/dic_reader.h
@@ -8,6 +8,7 @@
 #include "core/dic/dictionary.h"
 #include "util/array_slice.h"
 #include "util/memory.hpp"
+#include "util/status.hpp"
 #include "util/types.hpp"
 
 namespace jumanpp {
@@ -31,7 +32,7 @@ class DicReader {
 
  public:
   DicReader(const dic::DictionaryHolder& holder) : dic_{holder} {}
-  DictNode readEntry(EntryPtr ptr) const;
+  Status readEntry(EntryPtr ptr, DictNode* result) const;
 };
 
 }  // namespace analysis
diff --git a/src/core/analysis/unk_nodes.cc b/src/core/analysis/unk_nodes.cc
index fedbd16..5d60716 100644
--- a/src/core/analysis/unk_nodes.cc
+++ b/src/core/analysis/unk_nodes.cc
@@ -55,7 +55,9 @@ class UnkMakerFactory {
       }
 
       auto eptr = EntryPtr{x.patternPtr};
-      UnkNodeConfig cfg{rdr.readEntry(eptr), eptr};
+      DictNode pattern;
+      JPP_RIE_MSG(rdr.readEntry(eptr, &pattern), "pattern of UNK " << x.name);
+      UnkNodeConfig cfg{pattern, eptr};
       util::copy_insert(x.replaceFields, cfg.replaceWithSurface);
       JPP_RETURN_IF_ERROR(handlePrefixIndex(x, &cfg));
       cfg.fillPatternFields();
-- 
2.43.0


From 5fde7b3d9c5db95648d66aaf4ac133242d66105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:44 +0000
Subject: [PATCH 37/52] fix: an input which could not be analyzed gets its line
 of the segmented output

---
 src/jumandic/shared/jumandic_env.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jumandic/shared/jumandic_env.cc b/src/jumandic/shared/jumandic_env.cc
index 73367f8..6943a32 100644
--- a/src/jumandic/shared/jumandic_env.cc
+++ b/src/jumandic/shared/jumandic_env.cc
@@ -215,6 +215,7 @@ StringPiece JumanppExec::emptyResult() const {
       return StringPiece{"# ERROR\nEOS\n"};
     case OutputType::Morph:
     case OutputType::FullMorph:
+    case OutputType::Segmentation:
       return StringPiece{"# ERROR\n"};
     default:
       return EMPTY_SP;
-- 
2.43.0


From d0a91f314b95e1838d4f4367bad2dfdc3be9fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:51 +0000
Subject: [PATCH 38/52] fix: the comment of an empty sentence is printed in the
 lattice format

---
 src/jumandic/shared/lattice_format.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 9937511..4978eed 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -86,6 +86,9 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
   auto lat = analyzer.impl()->lattice();
   if (lat->createdBoundaryCount() == 3) {
     printer.reset();
+    if (!comment.empty()) {
+      printer << "# " << comment << '\n';
+    }
     printer << "EOS\n";
     return Status::Ok();
   }
-- 
2.43.0


From a065cc6ad992cb0b3029e2e32ff406547403a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:13 +0000
Subject: [PATCH 39/52] fix: the lattice format prints the scores of the best
 connection of a node, not of the worst

---
 src/jumandic/shared/lattice_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 4978eed..7220e3f 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -144,7 +144,7 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
             total1 += s1[i] * weights[i];
             total2 += s2[i] * weights[i];
           }
-          return total1 > total2;
+          return total1 < total2;
         });
 
     auto& cptr = *ptrit;
-- 
2.43.0


From ef56dcd7039557f8d6921c58cf75a2bd7ae96047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:29 +0000
Subject: [PATCH 40/52] fix: RNN configurations which differ in symbols, fields
 or the separator are not equal

---
 src/core/analysis/rnn_scorer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_scorer.cc b/src/core/analysis/rnn_scorer.cc
index f4d1191..76d14e8 100644
--- a/src/core/analysis/rnn_scorer.cc
+++ b/src/core/analysis/rnn_scorer.cc
@@ -14,7 +14,9 @@ bool RnnInferenceConfig::operator==(const RnnInferenceConfig &other) const {
   return nceBias == other.nceBias && unkConstantTerm == other.unkConstantTerm &&
          unkLengthPenalty == other.unkLengthPenalty &&
          perceptronWeight == other.perceptronWeight &&
-         rnnWeight == other.rnnWeight;
+         rnnWeight == other.rnnWeight && eosSymbol == other.eosSymbol &&
+         unkSymbol == other.unkSymbol && rnnFields == other.rnnFields &&
+         fieldSeparator == other.fieldSeparator;
 }
 
 bool RnnInferenceConfig::isDefault() const {
-- 
2.43.0


From aea067d866f4f7059a29aacd52c19dd69f6888a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:53 +0000
Subject: [PATCH 41/52] fix: the last example without a terminating line was
 dropped by the readers

---
 src/core/input/partial_example_io.cc | 7 ++++++-
 src/core/input/pex_stream_reader.cc  | 5 +++++
 src/core/training/full_example.cc    | 6 ++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 58bbab8..1cfcaea 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -126,8 +126,13 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
     result->nodes_.push_back(std::move(nc));
   }
-  *eof = true;
   JPP_RIE_MSG(csv_.finish(), "when reading " << filename_);
+  // the last example can be not terminated, it should not be lost
+  auto& bnds = result->boundaries_;
+  *eof = bnds.empty();
+  if (!bnds.empty()) {
+    bnds.erase(bnds.end() - 1, bnds.end());
+  }
   return Status::Ok();
 }
 
diff --git a/src/core/input/pex_stream_reader.cc b/src/core/input/pex_stream_reader.cc
index 14917d2..85dd061 100644
--- a/src/core/input/pex_stream_reader.cc
+++ b/src/core/input/pex_stream_reader.cc
@@ -53,6 +53,11 @@ Status PexStreamReader::readExample(std::istream *stream) {
   JPP_RETURN_IF_ERROR(impl_->reader_.setData(buf));
   bool eof = false;
   JPP_RETURN_IF_ERROR(impl_->reader_.readExample(&impl_->example_, &eof));
+  if (!eof) {
+    // there should be nothing after the example
+    PartialExample rest;
+    JPP_RETURN_IF_ERROR(impl_->reader_.readExample(&rest, &eof));
+  }
   if (!eof) {
     return Status::InvalidState() << "Could not parse full example: [\n"
                                   << buf << "\n]";
diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index f49151c..bf017e8 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -71,8 +71,10 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
 
     JPP_RETURN_IF_ERROR(readSingleExampleFragment(csv_, result));
   }
-  finished_ = true;
-  return csv_.finish();
+  JPP_RETURN_IF_ERROR(csv_.finish());
+  // the last example can be not terminated, it should not be lost
+  finished_ = result->lengths_.empty();
+  return Status::Ok();
 }
 
 Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
-- 
2.43.0


From 30e5ca6685658e501a48255d6486617825bb9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:13 +0000
Subject: [PATCH 42/52] fix: string list iterators had a next element only
 after the last one

---
 src/core/analysis/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/output.h b/src/core/analysis/output.h
index 492995e..f23e114 100644
--- a/src/core/analysis/output.h
+++ b/src/core/analysis/output.h
@@ -104,7 +104,7 @@ class StringListIterator {
     return false;
   }
 
-  bool hasNext() const { return elements_.remaining() == 0; }
+  bool hasNext() const { return elements_.remaining() > 0; }
 };
 
 class KVListIterator {
-- 
2.43.0


From 845e94fc3c55ffb793db8860497cff70610002c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:35 +0000
Subject: [PATCH 43/52] fix: assigning to a character buffer frees the pages it
 had

---
 src/util/char_buffer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/char_buffer.h b/src/util/char_buffer.h
index dbbfb9e..c4bb3ee 100644
--- a/src/util/char_buffer.h
+++ b/src/util/char_buffer.h
@@ -68,6 +68,12 @@ class CharBuffer {
   }
 
   CharBuffer& operator=(CharBuffer&& c) noexcept {
+    if (this == &c) {
+      return *this;
+    }
+    for (auto p : storage_) {
+      delete p;
+    }
     storage_ = std::move(c.storage_);
     position_ = c.position_;
     current_ = c.current_;
-- 
2.43.0


From b8ac4265b6dbf38f5c9f9b0eb8ee1b8d93fbb28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:35 +0000
Subject: [PATCH 44/52] fix: a graphviz label which is too long does not refer
 to a freed string

---
 src/core/impl/graphviz_format.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/impl/graphviz_format.h b/src/core/impl/graphviz_format.h
index 6c2c2b3..53254ab 100644
--- a/src/core/impl/graphviz_format.h
+++ b/src/core/impl/graphviz_format.h
@@ -255,7 +255,10 @@ class GraphVizBuilder {
     detail::concat2<Args...>(ss, args...);
     std::string s = ss.str();
     StringPiece sp = s;
-    chars_.import(&sp);
+    if (!chars_.import(&sp)) {
+      // sp still refers to the local string
+      return EMPTY_SP;
+    }
     return sp;
   }
 
-- 
2.43.0


From 5c8b1a3b65faf820c440bf8d16f4a84a6bb95ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:35 +0000
Subject: [PATCH 45/52] fix: an RNN word which is too long for its buffer is an
 error

---
 src/core/analysis/rnn_id_resolver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 1648b23..13d75c9 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -106,10 +106,14 @@ struct RnnIdResolverBuilder {
                   "word=" << rnnWord << " at line=" << i);
       auto repr = this->repr.repr();
       if (known) {
-        knownStrings.import(&repr);
+        if (!knownStrings.import(&repr)) {
+          return JPPS_INVALID_PARAMETER << "RNN word is too long, line=" << i;
+        }
         knownBuilder.add(repr, i);
       } else {
-        unkStrings.import(&repr);
+        if (!unkStrings.import(&repr)) {
+          return JPPS_INVALID_PARAMETER << "RNN word is too long, line=" << i;
+        }
         unkBuilder.add(repr, i);
       }
     }
-- 
2.43.0


From 1babb860c99a2a139db011190bf52a8d8c3aab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 46/52] fix: quoted words of an RNN dictionary are copied
 before the next line is read

---
 src/rnn/mikolov_rnn.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index ff92e21..5d62bb9 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -126,6 +126,7 @@ struct MikolovModelReaderData {
   util::MappedFileFragment dictFrag;
   MikolovRnnModelHeader header;
   std::vector<StringPiece> wordData;
+  util::CharBuffer<> wordBuffer;
   util::Lazy<util::memory::Manager> memmgr;
   std::unique_ptr<util::memory::PoolAlloc> alloc;
   util::MutableArraySlice<float> matrixData;
@@ -175,7 +176,13 @@ Status MikolovModelReader::parse() {
       ssvReader.initFromMemory(data_->dictFrag.asStringPiece()));
   auto& wdata = data_->wordData;
   while (ssvReader.nextLine()) {
-    wdata.push_back(ssvReader.field(0));
+    auto word = ssvReader.field(0);
+    // the unescaped field lives only until the next line
+    if (ssvReader.rowHadQuoted() && !data_->wordBuffer.import(&word)) {
+      return JPPS_INVALID_PARAMETER << "rnn dictionary word is too long, line="
+                                    << ssvReader.lineNumber();
+    }
+    wdata.push_back(word);
   }
   JPP_RETURN_IF_ERROR(ssvReader.finish());
   auto& hdr = data_->header;
-- 
2.43.0


From de96349e5fa2e4e49f086b26dcb44b7fefa2e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:01 +0000
Subject: [PATCH 47/52] fix: do not read past the end of the input after a
 period in a number

---
 src/core/analysis/numeric_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/numeric_creator.cc b/src/core/analysis/numeric_creator.cc
index 9dd3d16..52cbd47 100644
--- a/src/core/analysis/numeric_creator.cc
+++ b/src/core/analysis/numeric_creator.cc
@@ -245,7 +245,7 @@ size_t NumericUnkMaker::checkPeriod(const CodepointStorage &codepoints,
   if (pos == 0) return 0;
   if (!codepoints[posPeriod].hasClass(PeriodClass)) return 0;
   if (!codepoints[posPeriod - 1].hasClass(charClass_)) return 0;
-  if (pos + 1 < codepoints.size() &&
+  if (posPeriod + 1 < codepoints.size() &&
       codepoints[posPeriod + 1].hasClass(charClass_))
     return 1;
   return 0;
-- 
2.43.0


From 1b395ade36734d387fe933083a586892721ee836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:01 +0000
Subject: [PATCH 48/52] fix: onomatopoeia: once the dictionary has no such
 prefix it has no longer word either

---
 src/core/analysis/onomatopoeia_creator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index 314544f..6bc2ad4 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -22,6 +22,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
     auto trav = entries_.traversal();
     LatticePosition nextstep = i;
     TraverseStatus status;
+    bool nonode = false;
     auto pattern = FindOnomatopoeia(codepoints, i);
     if (pattern == Pattern::None) {
       continue;
@@ -31,7 +32,9 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
       if ((pattern & HalfLenToPattern(halfLen)) != Pattern::None) {
         for (; nextstep < i + halfLen * 2; ++nextstep) {
           status = trav.step(codepoints[nextstep].bytes);
+          if (status == TraverseStatus::NoNode) nonode = true;
         }
+        if (nonode) status = TraverseStatus::NoNode;
         switch (status) {
           case TraverseStatus::NoNode: {
             LatticePosition start = i;
-- 
2.43.0


From 392f200b37d7a2cf25c687de7a95d9552a9d4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:01 +0000
Subject: [PATCH 49/52] fix: find an onomatopoeia of minimum length at the end
 of the input

---
 src/core/analysis/onomatopoeia_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index 6bc2ad4..bc8eb48 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -61,7 +61,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
 
 OnomatopoeiaUnkMaker::Pattern OnomatopoeiaUnkMaker::FindOnomatopoeia(
     const CodepointStorage& codepoints, LatticePosition start) const {
-  if ((start + MinOnomatopoeiaLength) >= codepoints.size()) {
+  if ((start + MinOnomatopoeiaLength) > codepoints.size()) {
     return Pattern::None;
   }
   JPP_DCHECK_IN(start, 0, codepoints.size());
-- 
2.43.0


From e7110279fc418ea72ca01d6fd781df7ac60924bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:01 +0000
Subject: [PATCH 50/52] fix: RNN maxent history goes back over the preceding
 words

---
 src/core/analysis/rnn_scorer_gbeam.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 3727778..f858458 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -180,6 +180,9 @@ struct GbeamRnnState {
       for (; idx < cnt; ++idx) {
         JPP_DCHECK_NE(prev, nullptr);
         row.at(idx) = prev->id;
+        if (prev->prev != nullptr) {
+          prev = prev->prev;
+        }
       }
       scoreIdx += 1;
     }
-- 
2.43.0


From 83b4bed180d8e05a3ac99d52de2cffa1f0dd3fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:01 +0000
Subject: [PATCH 51/52] fix: RNN lattice: collapse a path into the node with
 the same history

---
 src/core/analysis/rnn_id_resolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 13d75c9..f1252f6 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -229,7 +229,7 @@ std::pair<RnnNode*, RnnNode*> RnnIdContainer::addPrevChain(
         if (cached->hash == hash) {
           // we can collapse a path in the RNN lattice
           // but we still need to publish the score
-          nodePtr = it->second;
+          nodePtr = cached;
           addScore(nodePtr, cptr);
           return std::make_pair(nodePtr, nodePtr);
         }
-- 
2.43.0


From e4692f1782d4d01aab468b2eff24172db1a7bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:01 +0000
Subject: [PATCH 52/52] fix: reject RNN models whose maxent part can not be
 used

---
 src/rnn/mikolov_rnn.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 5d62bb9..644c733 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -89,6 +89,20 @@ void MikolovRnn::apply(StepData* data) {
 Status MikolovRnn::init(const MikolovRnnModelHeader& header,
                         const util::ArraySlice<float>& weights,
                         const util::ArraySlice<float>& maxentW) {
+  // the score calculator combines hashes for at most 4 orders
+  if (header.maxentOrder < 1 || header.maxentOrder > 4) {
+    return JPPS_NOT_IMPLEMENTED
+           << "only rnn models with maxent order from 1 to 4 are supported, "
+              "model had "
+           << header.maxentOrder;
+  }
+
+  if (header.maxentSize <= header.vocabSize) {
+    return JPPS_INVALID_PARAMETER
+           << "rnn maxent table of size " << header.maxentSize
+           << " is too small for " << header.vocabSize << " words";
+  }
+
   if (!isAligned(weights.data(), 64)) {
     return Status::InvalidState() << "weight matrix must be 64-aligned";
   }
-- 
2.43.0

