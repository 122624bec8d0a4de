From b7634dea080dce5fd25bb07346f5e157c666b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 01/24] fix: initialize the semantic role of text blocks

The role is only set by the prediction of the semantic roles. When this step is
skipped, the serializers read an uninitialized value.
---
 src/Types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Types.h b/src/Types.h
index 078e739..1259657 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -756,7 +756,7 @@ class PdfTextBlock : public PdfTextElement {
   const PdfPageSegment* segment = nullptr;
 
   // The semantic role of this text block.
-  SemanticRole role;
+  SemanticRole role = SemanticRole::OTHER;
 
   // A boolean flag indicating whether or not the text lines in this text block are centered.
   bool isLinesCentered = false;
-- 
2.43.0


From a15f2fcb41942efc1ca6164b79b44a7a1f3fb1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 02/24] fix: make --skip-semantic-roles-prediction effective

The configured value was never consulted; the roles were always predicted.
---
 src/SemanticRolesPrediction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 43ed1f9..97d468c 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -130,6 +130,11 @@ void SemanticRolesPrediction::readModel() {
 void SemanticRolesPrediction::predict(const PdfDocument* doc) {
   assert(doc);
 
+  // Do nothing if the prediction of the semantic roles is disabled.
+  if (_config->disabled) {
+    return;
+  }
+
   if (!_modelOk) {
     readModel();
   }
-- 
2.43.0


From 16e2a6cdb8c8fcdad55e993a642daedae952d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 03/24] fix: make --no-dehyphenation effective

The option was parsed, but its value was never used.
---
 src/pdftotext++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 90fe394..21a4224 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -665,7 +665,7 @@ int main(int argc, char* argv[]) {
   conf.semanticRolesPrediction.logPageFilter = logPageFilter;
   conf.semanticRolesPrediction.modelsDir = CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR;
   // Configure words dehyphenation.
-  conf.wordsDehyphenation.disabled = skipWordsDehyphenation;
+  conf.wordsDehyphenation.disabled = skipWordsDehyphenation || noDehyphenation;
   conf.wordsDehyphenation.logLevel = debugWordsDehyphenation ? DEBUG : logLevel;
   conf.wordsDehyphenation.logPageFilter = logPageFilter;
 
-- 
2.43.0


From 413965e5436e5fe0ad185843b96aab375fe5a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 04/24] fix: report output errors and create output directories
 without a shell

---
 src/pdftotext++.cpp            |  4 +++-
 src/serializers/Serializer.cpp | 32 +++++++++++++++++++-------------
 src/serializers/Serializer.h   |  5 ++++-
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 21a4224..f9b4746 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -711,7 +711,9 @@ int main(int argc, char* argv[]) {
   if (serializer) {
     unordered_set<SemanticRole> rolesSet(roles.begin(), roles.end());
     unordered_set<PdfElementType> typesSet(types.begin(), types.end());
-    serializer->serialize(&doc, rolesSet, typesSet, outputFilePath);
+    if (!serializer->serialize(&doc, rolesSet, typesSet, outputFilePath)) {
+      return EXIT_FAILURE;
+    }
   }
   auto end = high_resolution_clock::now();
   Timing timingSerializeChars("Serialize", duration_cast<milliseconds>(end - start).count());
diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 69bd201..7118b28 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -6,9 +6,11 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <system_error>  // std::error_code
 #include <unordered_set>
 
 #include "./Serializer.h"
@@ -30,7 +32,7 @@ using ppp::types::SemanticRole;
 namespace ppp::serialization {
 
 // _________________________________________________________________________________________________
-void Serializer::serialize(
+bool Serializer::serialize(
     const PdfDocument* doc,
     const unordered_set<SemanticRole>& roles,
     const unordered_set<PdfElementType>& types,
@@ -38,30 +40,34 @@ void Serializer::serialize(
   // If the target file path is specified as "-", output the text to stdout.
   if (targetFilePath.size() == 1 && targetFilePath[0] == '-') {
     serializeToStream(doc, roles, types, cout);
-    return;
-  }
-
-  // Compute the path to the parent directory of the target file.
-  string parentDirPath = ".";
-  size_t posLastSlash = targetFilePath.find_last_of("/");
-  if (posLastSlash != string::npos) {
-    parentDirPath = targetFilePath.substr(0, posLastSlash);
+    cout.flush();
+    return cout.good();
   }
 
   // Try to create all intermediate directories if the parent directory does not exist.
-  if (system(("mkdir -p " + parentDirPath).c_str())) {
-    cerr << "Could not create directory '" << parentDirPath << "'." << endl;
-    return;
+  std::filesystem::path parentDirPath = std::filesystem::path(targetFilePath).parent_path();
+  std::error_code error;
+  if (!parentDirPath.empty()) {
+    std::filesystem::create_directories(parentDirPath, error);
+  }
+  if (error) {
+    cerr << "Could not create directory '" << parentDirPath.string() << "'." << endl;
+    return false;
   }
 
   ofstream outFile(targetFilePath);
   if (!outFile.is_open()) {
     cerr << "Could not open file '" << targetFilePath << "'." << endl;
-    return;
+    return false;
   }
 
   serializeToStream(doc, roles, types, outFile);
   outFile.close();
+  if (outFile.fail()) {
+    cerr << "Could not write file '" << targetFilePath << "'." << endl;
+    return false;
+  }
+  return true;
 }
 
 }  // namespace ppp::serialization
diff --git a/src/serializers/Serializer.h b/src/serializers/Serializer.h
index f97e5e2..051a4c2 100644
--- a/src/serializers/Serializer.h
+++ b/src/serializers/Serializer.h
@@ -48,8 +48,11 @@ class Serializer {
    * @param targetPath
    *   The path to the file to which the text should be written.
    *   NOTE: If specified as "-", the text is written to stdout.
+   *
+   * @return
+   *   True, if the text was written successfully, false otherwise.
    */
-  void serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
+  bool serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
       const unordered_set<PdfElementType>& units, const string& targetPath) const;
 
  protected:
-- 
2.43.0


From a66c45a80af574bf819010213879fd4109d219b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 05/24] fix: report a failure to write the visualization

---
 src/PdfDocumentVisualization.cpp | 5 +++--
 src/PdfDocumentVisualization.h   | 5 ++++-
 src/pdftotext++.cpp              | 5 ++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 0b94730..f18a176 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -8,6 +8,7 @@
 
 #include <goo/GooString.h>
 #include <poppler/Annot.h>
+#include <poppler/ErrorCodes.h>
 #include <poppler/PDFDoc.h>
 #include <poppler/PDFDocEncoding.h>
 #include <poppler/PDFDocFactory.h>
@@ -251,9 +252,9 @@ void PdfDocumentVisualization::visualizeReadingOrderCuts(const vector<Cut*>& cut
 }
 
 // _________________________________________________________________________________________________
-void PdfDocumentVisualization::save(const string& targetPath) const {
+bool PdfDocumentVisualization::save(const string& targetPath) const {
   GooString gooTargetPath(targetPath);
-  _pdfDoc->saveAs(gooTargetPath);
+  return _pdfDoc->saveAs(gooTargetPath) == errNone;
 }
 
 // =================================================================================================
diff --git a/src/PdfDocumentVisualization.h b/src/PdfDocumentVisualization.h
index b9682ce..4c83dc9 100755
--- a/src/PdfDocumentVisualization.h
+++ b/src/PdfDocumentVisualization.h
@@ -251,8 +251,11 @@ class PdfDocumentVisualization {
    *
    * @param targetPath
    *    The path to the file to which the visualization should be written.
+   *
+   * @return
+   *    True, if the visualization was written successfully, false otherwise.
    */
-  void save(const string& targetPath) const;
+  bool save(const string& targetPath) const;
 
  private:
   /**
diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index f9b4746..3581da2 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -757,7 +757,10 @@ int main(int argc, char* argv[]) {
     if (visualizeReadingOrderCuts) {
       pdv.visualizeReadingOrderCuts(doc, ppp::visualization::color_schemes::blue);
     }
-    pdv.save(visualizeFilePathStr);
+    if (!pdv.save(visualizeFilePathStr)) {
+      cerr << "Could not write file '" << visualizeFilePathStr << "'." << endl;
+      return EXIT_FAILURE;
+    }
     auto end = high_resolution_clock::now();
     Timing timingVisualizing("Visualize", duration_cast<milliseconds>(end - start).count());
     timings.push_back(timingVisualizing);
-- 
2.43.0


From 49792eaf4b619c1abb230448fcb3c76af99812c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 06/24] fix: report every failure of the extraction instead of
 terminating

---
 src/pdftotext++.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 3581da2..fc72a54 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -33,7 +33,6 @@ using std::cout;
 using std::endl;
 using std::exception;
 using std::fixed;
-using std::invalid_argument;
 using std::locale;
 using std::setprecision;
 using std::setw;
@@ -673,13 +672,13 @@ int main(int argc, char* argv[]) {
   vector<Timing> timings;
 
   int status = 0;
-  // TODO(korzen): Don't use the invalid argument exception; it is currently thrown by
-  // SemanticRolesPredictor. Instead, use the exit code to check if something went wrong.
+  // TODO(korzen): Don't use exceptions (for example, the invalid argument exception thrown by
+  // SemanticRolesPredictor). Instead, use the exit code to check if something went wrong.
   try {
     PdfToTextPlusPlus engine(&conf);
     status = engine.process(&doc, &timings);
-  } catch (const invalid_argument& ia) {
-    cerr << "An error occurred: " << ia.what() << '\n';
+  } catch (const exception& e) {
+    cerr << "An error occurred: " << e.what() << '\n';
     return 3;
   }
 
-- 
2.43.0


From c49f7c0b0a94ca02646d0cd4ecc4f5af0a6f4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 07/24] fix: escape font names in the JSONL output

---
 src/serializers/JsonlSerializer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index f5431c3..1faf5bd 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -135,7 +135,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
               << "\"maxY\": " << c->pos->lowerY << ", "
               << "\"wMode\": " << c->pos->wMode << ", "
               << "\"rotation\": " << c->pos->rotation << ", "
-              << "\"font\": \"" << c->fontName << "\", "
+              << "\"font\": \"" << escapeJson(c->fontName) << "\", "
               << "\"fontSize\": " << c->fontSize << ", "
               << "\"weight\": " << fontInfo->weight << ", "
               << "\"italic\": " << (fontInfo->isItalic ? "true" : "false") << ", "
@@ -224,7 +224,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
             << "\"minY\": " << word->pos->upperY << ", "
             << "\"maxX\": " << word->pos->rightX << ", "
             << "\"maxY\": " << word->pos->lowerY << ", "
-            << "\"font\": \"" << word->fontName << "\", "
+            << "\"font\": \"" << escapeJson(word->fontName) << "\", "
             << "\"fontSize\": " << word->fontSize << ", "
             << "\"text\": \"" << escapeJson(word->text) << "\", "
             << "\"block\": \"" << block->id << "\", "
@@ -258,7 +258,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
         << "\"minY\": " << block->pos->upperY << ", "
         << "\"maxX\": " << block->pos->rightX << ", "
         << "\"maxY\": " << block->pos->lowerY << ", "
-        << "\"font\": \"" << block->fontName << "\", "
+        << "\"font\": \"" << escapeJson(block->fontName) << "\", "
         << "\"fontSize\": " << block->fontSize << ", "
         << "\"text\": \"" << escapeJson(block->text) << "\", "
         << "\"role\": \"" << getSemanticRoleName(block->role) << "\", "
-- 
2.43.0


From d4f20f6427d96dac8778465f14f18573fb426cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 08/24] fix: let each word belong to at most one stacked math
 symbol

A word could become part of two stacked math symbols, in which case its text
was added to the text lines twice. The parts of a word that is itself part of
another stacked math symbol were added to no text line at all.
---
 src/WordsDetection.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index d6e5084..3229cbb 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -307,6 +307,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       continue;
     }
 
+    // Skip the word if it is already part of another stacked math symbol. Its own parts would
+    // otherwise belong to no text line, since only the parts of words that are not part of another
+    // stacked math symbol are added to the text lines.
+    if (word->isPartOfStackedMathSymbol) {
+      _log->debug(p) << BOLD << "Skipping word (part of a stacked math symbol)." << OFF << endl;
+      continue;
+    }
+
     // Iterate through the previous words in reversed order (starting at the current word) for
     // checking if they are also part of the stacked math symbol. Consider a word to be part of the
     // stacked math symbol, if the horizontal overlap between the word and the base word is
@@ -345,6 +353,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The previous word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol (each word belongs to at most one stacked math symbol).
+      if (prevWord->isPartOfStackedMathSymbol || !prevWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(prevWord belongs to another stacked math symbol)." << OFF << endl;
+        break;
+      }
+
       _log->debug(p) << BOLD << "is part of the stacked math symbol." << OFF << endl;
       word->isBaseOfStackedMathSymbol.push_back(prevWord);
       prevWord->isPartOfStackedMathSymbol = word;
@@ -387,6 +403,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The next word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol (each word belongs to at most one stacked math symbol).
+      if (nextWord->isPartOfStackedMathSymbol || !nextWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(nextWord belongs to another stacked math symbol)." << OFF << endl;
+        break;
+      }
+
       word->isBaseOfStackedMathSymbol.push_back(nextWord);
       nextWord->isPartOfStackedMathSymbol = word;
       _log->debug(p) << BOLD << "is part of the stacked math symbol." << OFF << endl;
-- 
2.43.0


From eec5fdabae17b5d43b06dc3176cb71c935741b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 09/24] fix: name an unnamed font by its id within the file
 instead of its address

The address of the font in memory was the default name of a font without a
name (e.g., a type-3 font), so two extractions of the same file gave
different font names.
---
 src/PdfParsing.cpp              | 10 ++++------
 src/utils/PdfFontInfoParser.cpp | 11 +++++------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index a2d8cd5..f12e8ef 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -14,7 +14,6 @@
 #include <cmath>  // fabs
 #include <limits>  // std::numeric_limits
 #include <memory>  // std::shared_ptr
-#include <sstream>  // std::stringstream
 #include <string>
 #include <utility>  // std::move
 
@@ -34,7 +33,7 @@ using std::numeric_limits;
 using std::optional;
 using std::shared_ptr;
 using std::string;
-using std::stringstream;
+using std::to_string;
 using std::wstring;
 
 using ppp::config::PdfParsingConfig;
@@ -134,10 +133,9 @@ void PdfParsing::updateFont(GfxState* state) {
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. In this case, use the pointer address of the font instead.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. In this case, use the id of the font within the file instead.
+  const Ref* gfxFontId = gfxFont->getID();
+  string fontName = "font-" + to_string(gfxFontId->num) + "-" + to_string(gfxFontId->gen);
   const optional<string> gooFontName = gfxFont->getName();
   if (gooFontName) {
     fontName = move(*gooFontName);
diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 46cbeac..5743d05 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -15,7 +15,7 @@
 #include <limits>
 #include <memory>  // std::shared_ptr
 #include <regex>
-#include <sstream>  // std::stringstream
+#include <sstream>  // std::istringstream
 #include <string>
 #include <unordered_map>
 #include <utility>  // std::make_tuple
@@ -34,7 +34,7 @@ using std::smatch;
 using std::sregex_iterator;
 using std::stoi;
 using std::string;
-using std::stringstream;
+using std::to_string;
 using std::unordered_map;
 using std::vector;
 
@@ -61,10 +61,9 @@ PdfFontInfo* PdfFontInfoParser::parse(
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. So use the pointer address of the font as default font name.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. So use the id of the font within the file as default font name.
+  const Ref* gfxFontId = gfxFont->getID();
+  string fontName = "font-" + to_string(gfxFontId->num) + "-" + to_string(gfxFontId->gen);
 
   // If the font provide a font name, take this.
   const std::optional<string> gooFontName = gfxFont->getName();
-- 
2.43.0


From b73d8b9d41e2252784c74fef17a1c19b4cf363eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 10/24] fix: stop reading a vocabulary file when reading fails,
 not only at its end

---
 src/SemanticRolesPrediction.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 97d468c..021f9a7 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -87,12 +87,7 @@ void SemanticRolesPrediction::readModel() {
 
   // Read the vocabulary line by line, where each line is of form <token>TAB<id>.
   wstring wline;
-  while (true) {
-    std::getline(bpeVocabFile, wline);
-
-    // Abort if the end of file was reached.
-    if (bpeVocabFile.eof()) { break; }
-
+  while (std::getline(bpeVocabFile, wline)) {
     // Split the line "<token>TAB<id>" into "<token>" and "<id>".
     size_t posTab = wline.find(L"\t");
     if (posTab == string::npos) { continue; }
@@ -109,11 +104,7 @@ void SemanticRolesPrediction::readModel() {
     throw invalid_argument("Could not load vocab file \"" + rolesVocabFilePath + "\"");
   }
   string line;
-  while (true) {
-    std::getline(vocabFile, line);
-    if (vocabFile.eof()) {
-      break;
-    }
+  while (std::getline(vocabFile, line)) {
     size_t posTab = line.find("\t");
     if (posTab == string::npos) { continue; }
 
-- 
2.43.0


From ab8f79a74ac142c9413aa8e8128e3f78cb02b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 11/24] fix: strip() ran past the ends of a blank string

---
 src/utils/TextUtils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index a9e2081..177745b 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -148,12 +148,12 @@ string shorten(const string& str, unsigned int len) {
 // _________________________________________________________________________________________________
 string strip(const string& str) {
   auto start_it = str.begin();
-  auto end_it = str.rbegin();
+  auto end_it = str.end();
 
-  while (isspace(*start_it)) { start_it++; }
-  while (isspace(*end_it)) { end_it++; }
+  while (start_it != str.end() && isspace(*start_it)) { start_it++; }
+  while (end_it != start_it && isspace(*(end_it - 1))) { end_it--; }
 
-  return string(start_it, end_it.base());
+  return string(start_it, end_it);
 }
 
 // _________________________________________________________________________________________________
-- 
2.43.0


From 1b43f120cca944074b822e4120b7beafd89673fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 12/24] fix: a font program whose subroutines call themselves
 exhausted the stack

---
 src/utils/PdfFontInfoParser.cpp | 9 +++++----
 src/utils/PdfFontInfoParser.h   | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 5743d05..d826ed3 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -472,8 +472,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 void Type1FontFileParser::parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY,
-    vector<int>* args, vector<int>* interpreterStack) const {
-
+    vector<int>* args, vector<int>* interpreterStack, int depth) const {
   for (size_t t = 0; t < charString.size(); t++) {
     unsigned char byte = charString[t] & 0xff;
 
@@ -585,12 +584,14 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int index = args->back();
             args->pop_back();
 
-            if (!subrs.count(index)) {
+            // Subroutines may be nested at most 10 levels deep. Ignore calls that are nested deeper
+            // (for example, because a subroutine calls itself).
+            if (!subrs.count(index) || depth >= 10) {
               break;
             }
 
             parseCharString(subrs.at(index), subrs, curX, curY, leftX, upperY, rightX, lowerY, args,
-                interpreterStack);
+                interpreterStack, depth + 1);
           }
           break;
         case 12:  // escape
diff --git a/src/utils/PdfFontInfoParser.h b/src/utils/PdfFontInfoParser.h
index 33971db..321c9e7 100755
--- a/src/utils/PdfFontInfoParser.h
+++ b/src/utils/PdfFontInfoParser.h
@@ -114,7 +114,7 @@ class Type1FontFileParser {
   void parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY, vector<int>* args,
-    vector<int>* interpreterStack) const;
+    vector<int>* interpreterStack, int depth = 0) const;
 
   /** TODO(korzen) */
   void decrypt(const char* bytes, int numBytes, int r, int n, string* resultStr) const;
-- 
2.43.0


From c9920909687817143723aabde573e36b789b845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 13/24] fix: read at most six numbers of the font matrix of an
 embedded font

---
 src/utils/PdfFontInfoParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index d826ed3..4c77cee 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -271,7 +271,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
             istringstream lineSS(line.substr(lSquarePos, rSquarePos - lSquarePos));
             double d;
             int k = 0;
-            while (lineSS >> d) {
+            while (k < 6 && lineSS >> d) {
               fontInfo->fontMatrix[k++] = d;
             }
           }
-- 
2.43.0


From 9bf34f57875067b1eec024134257cda768b557e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 14/24] fix: do not write past the end of the buffer for the
 encrypted part of a font

---
 src/utils/PdfFontInfoParser.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 4c77cee..77ebea2 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -331,9 +331,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     }
   }
 
-  int numBytes = isPfb ? length : length / 2;
-  char* bytes = new char[numBytes];
-  int b = 0;
+  string bytes;
   int c;
 
   if (isPfb) {
@@ -344,24 +342,21 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
       for (int i = 0; i < 4; i++) {
         char c1 = _hexToChar[(start[i] >> 4) & 0x0f];
         char c2 = _hexToChar[start[i] & 0x0f];
-        bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-        b++;
+        bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
       }
     }
 
-    for (int i = b; i < length; i++) {
+    for (int i = bytes.size(); i < length; i++) {
       if ((c = strObj->streamGetChar()) == EOF) {
         break;
       }
       char c1 = _hexToChar[(c >> 4) & 0x0f];
       char c2 = _hexToChar[c & 0x0f];
-      bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
     }
   } else {
     for (int i = 0; i < 4; i += 2) {
-      bytes[i] = 16 * _charToHex[start[i]] + _charToHex[start[i+1]];
-      b++;
+      bytes.push_back(16 * _charToHex[start[i]] + _charToHex[start[i+1]]);
     }
     for (int i = 4; i < length; i += 2) {
       char c1;
@@ -372,14 +367,12 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
       if ((c2 = strObj->streamGetChar()) == EOF) {
         break;
       }
-      bytes[i] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
     }
   }
 
   string decrypted;
-  decrypt(bytes, b, 55665, 4, &decrypted);
-  delete[] bytes;
+  decrypt(bytes.c_str(), bytes.size(), 55665, 4, &decrypted);
 
   // Parse the "/lenIV" part.
   int lenIV = 4;
-- 
2.43.0


From cc9bf052ef174e06e1d9c84f4eb3fb16d333b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 15/24] fix: do not decrypt more bytes of a font than there are

---
 src/utils/PdfFontInfoParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 77ebea2..4757b71 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -413,7 +413,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string dupstring = subrs.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedDupString;
-    decrypt(dupstring.c_str(), nnumBytes, 4330, lenIV, &decryptedDupString);
+    decrypt(dupstring.c_str(), dupstring.size(), 4330, lenIV, &decryptedDupString);
 
     subrsMap[index] = decryptedDupString;
   }
@@ -445,7 +445,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string charstring = charstrings.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedCharString;
-    decrypt(charstring.c_str(), nnumBytes, 4330, lenIV, &decryptedCharString);
+    decrypt(charstring.c_str(), charstring.size(), 4330, lenIV, &decryptedCharString);
 
     int leftX = numeric_limits<int>::max();
     int upperY = numeric_limits<int>::max();
-- 
2.43.0


From 8ffc54147bac1f74124657dc914250359d36ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 16/24] fix: do not fail on numbers in a font that are no
 integers

---
 src/utils/PdfFontInfoParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 4757b71..74590b2 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -381,7 +381,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     lenIVStart += 7;
     size_t lenIVEnd = decrypted.find(" ", lenIVStart);
     if (lenIVEnd != string::npos) {
-      lenIV = stoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart));
+      lenIV = atoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart).c_str());
     }
   }
 
@@ -400,7 +400,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
 
   string subrs = decrypted.substr(subrsStart, subrsEnd - subrsStart);
-  regex dupRegex("dup\\s(\\d+)\\s(\\d+)\\sRD\\s");
+  regex dupRegex("dup\\s(\\d{1,9})\\s(\\d{1,9})\\sRD\\s");
   auto dupBegin = sregex_iterator(subrs.begin(), subrs.end(), dupRegex);
   auto dupEnd = sregex_iterator();
 
@@ -433,7 +433,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 
   string charstrings = decrypted.substr(charStringsStart);
 
-  regex words_regex("\\/(\\S+)\\s+(\\d+)\\sRD\\s");
+  regex words_regex("\\/(\\S+)\\s+(\\d{1,9})\\sRD\\s");
   auto words_begin = sregex_iterator(charstrings.begin(), charstrings.end(), words_regex);
   auto words_end = sregex_iterator();
 
-- 
2.43.0


From ed544d6f412cdd1fbaa03c07ac85e8d97e9838a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 17/24] fix: do not read past the end of a char string or of
 its arguments

---
 src/utils/PdfFontInfoParser.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 74590b2..85b653c 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -663,7 +663,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   interpreterStack->clear();
                   switch (othersubr) {
                     case 0:
-                      {
+                      if (args->size() >= 3) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
@@ -677,15 +677,15 @@ void Type1FontFileParser::parseCharString(const string& charString,
                     case 1:
                       break;
                     case 3:
-                      {
+                      if (args->size() >= 1) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
-                        break;
                       }
+                      break;
                     default:
                       {
-                        for (int i = 0; i < numArgs; i++) {
+                        for (int i = 0; i < numArgs && !args->empty(); i++) {
                           int n1 = args->back();
                           args->pop_back();
                           interpreterStack->push_back(n1);
@@ -829,6 +829,10 @@ void Type1FontFileParser::parseCharString(const string& charString,
         unsigned char bbyte = charString[++t] & 0xff;
         args->push_back(-(byte - 251) * 256 - bbyte - 108);
       } else if (byte == 255) {
+        // Ignore a number that is cut off by the end of the char string.
+        if (charString.size() - t <= 4) {
+          break;
+        }
         unsigned char b1 = charString[++t] & 0xff;
         unsigned char b2 = charString[++t] & 0xff;
         unsigned char b3 = charString[++t] & 0xff;
-- 
2.43.0


From 9d76259a737939f2a9c6bb16b8806d9170bab52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 18/24] fix: do not divide by zero in a char string

---
 src/utils/PdfFontInfoParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 85b653c..7144d3d 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -647,9 +647,10 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   int num1 = args->back();
                   args->pop_back();
 
-                  int result = num1 / num2;  // TODO(korzen): float
+                  // TODO(korzen): float
+                  int64_t result = num2 != 0 ? static_cast<int64_t>(num1) / num2 : 0;
 
-                  args->push_back(result);
+                  args->push_back(static_cast<int>(result));
                 }
                 break;
               case 16:  // arg1 ... argn n othersubr# callothersubr
-- 
2.43.0


From 462635fcc26a67ca47f9ef79229d054161260f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 19/24] fix: do not read a text that could not be composed

---
 src/DiacriticalMarksMerging.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index a1ff54c..4599a56 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -192,11 +192,17 @@ void DiacriticalMarksMerging::process() const {
         }
       }
 
-      uint8_t* output;
+      uint8_t* output = nullptr;
       int options = UTF8PROC_STABLE | UTF8PROC_COMPOSE;
-      utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output, (utf8proc_option_t) options);
+      utf8proc_map(bytesMerged.data(), bytesMerged.size(), &output, (utf8proc_option_t) options);
 
-      base->textWithDiacriticMark = reinterpret_cast<char*>(output);
+      // NOTE: There is no output if the text to compose is not valid UTF-8.
+      if (output) {
+        base->textWithDiacriticMark = reinterpret_cast<char*>(output);
+        free(output);
+      } else {
+        base->textWithDiacriticMark = string(bytesMerged.begin(), bytesMerged.end());
+      }
 
       // Update the bounding box.
       base->pos->leftX = minimum(base->pos->leftX, mark->pos->leftX);
-- 
2.43.0


From 70a6dddd6fcb4dcc6de24e46d8a7aa923c048d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 20/24] fix: do not divide by zero when creating a random
 string of one letter

---
 src/utils/TextUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 177745b..0d4e3aa 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -91,8 +91,8 @@ string createRandomString(unsigned int len, const string& prefix, const char* co
 
   // Append <len>-many random alphanumerical characters.
   int alphabetSize = strlen(alphabet);
-  for (unsigned int i = 0; i < len; i++) {
-    str += alphabet[rand() % (alphabetSize - 1)];
+  for (unsigned int i = 0; i < len && alphabetSize > 0; i++) {
+    str += alphabet[rand() % alphabetSize];
   }
 
   return str;
-- 
2.43.0


From 3be12f3aaa93bf66e84dba24ded5430edc46cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 21/24] fix: Skip pages that could not be loaded when preparing
 the visualization

---
 src/PdfDocumentVisualization.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index f18a176..83a2e22 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -73,6 +73,11 @@ PdfDocumentVisualization::PdfDocumentVisualization(const string& pdfFilePath,
   _gfxs.push_back(nullptr);  // Make the vector 1-based.
   for (int i = 1; i <= _pdfDoc->getNumPages(); i++) {
     Page* page = _pdfDoc->getPage(i);
+    // NOTE: There is no page if the page object in the PDF file is broken.
+    if (!page) {
+      _gfxs.push_back(nullptr);
+      continue;
+    }
     Gfx* gfx = page->createGfx(_out, config.hDPI, config.vDPI, 0,
         true, false, -1, -1, -1, -1, true, nullptr, nullptr, nullptr);
     _gfxs.push_back(gfx);
-- 
2.43.0


From 2cae9d401f2d93d8b8543ab60891f4e2a51a98f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:13 +0000
Subject: [PATCH 22/24] fix: record paths that are filled by the even-odd rule

PdfParsing did not override OutputDev::eoFill(), so paths painted with the
operators f* gave no shape, and those painted with B* or b* one less than
with B or b.
---
 src/PdfParsing.cpp | 5 +++++
 src/PdfParsing.h   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index f12e8ef..a18d9b5 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -734,6 +734,11 @@ void PdfParsing::fill(GfxState* state) {
   stroke(state);
 }
 
+// _________________________________________________________________________________________________
+void PdfParsing::eoFill(GfxState* state) {
+  stroke(state);
+}
+
 // _________________________________________________________________________________________________
 void PdfParsing::drawImageMask(GfxState* state, Object* ref, Stream* str, int width, int height,
     bool invert, bool interpolate, bool inlineImg) {
diff --git a/src/PdfParsing.h b/src/PdfParsing.h
index 2f6a0e8..dd60058 100755
--- a/src/PdfParsing.h
+++ b/src/PdfParsing.h
@@ -189,6 +189,15 @@ class PdfParsing : public OutputDev {
    */
   void fill(GfxState* state) override;
 
+  /**
+   * This method handles the event "fill a path by the even-odd rule" in the same way as the event
+   * "stroke a path". See the comment given for `fill()` for more information.
+   *
+   * @param state
+   *   The current graphics state.
+   */
+  void eoFill(GfxState* state) override;
+
   /**
    * This method handles the event "draw an image mask" by invoking the `drawGraphic(state)` method
    * below. See the comment given for this method for more information.
-- 
2.43.0


From bcedbbc22ab986474a89bbcc95200e9b94e2cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:02 +0000
Subject: [PATCH 23/24] fix: bounding boxes of text at coordinates below zero

The right and lower coordinates of a box started with the smallest positive double, so
that the box of a word, line, block or segment all of whose parts are left of (or above)
the origin of the page ended at 2.2e-308. Start with the first part instead.
---
 src/TextLinesDetection.cpp             | 2 ++
 src/utils/PageSegmentationUtils.cpp    | 4 ++++
 src/utils/TextBlocksDetectionUtils.cpp | 2 ++
 src/utils/WordsDetectionUtils.cpp      | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 8e56ad5..43aa2c9 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -414,6 +414,8 @@ void TextLinesDetection::computeTextLineProperties(PdfTextLine* line) const {
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   DoubleCounter baseCounter;
+  line->pos->rightX = line->words[0]->pos->rightX;
+  line->pos->lowerY = line->words[0]->pos->lowerY;
   for (size_t i = 0; i < line->words.size(); i++) {
     PdfWord* word = line->words[i];
 
diff --git a/src/utils/PageSegmentationUtils.cpp b/src/utils/PageSegmentationUtils.cpp
index 27b07eb..2d117a4 100755
--- a/src/utils/PageSegmentationUtils.cpp
+++ b/src/utils/PageSegmentationUtils.cpp
@@ -47,6 +47,10 @@ PdfPageSegment* PageSegmentationUtils::createPageSegment(
   segment->pos->pageNum = !elements.empty() ? elements[0]->pos->pageNum : -1;
 
   // Compute and set the coordinates of the bounding box.
+  if (!elements.empty()) {
+    segment->pos->rightX = elements[0]->pos->rightX;
+    segment->pos->lowerY = elements[0]->pos->lowerY;
+  }
   for (const auto* element : elements) {
     segment->pos->leftX = minimum(segment->pos->leftX, element->pos->leftX);
     segment->pos->upperY = minimum(segment->pos->upperY, element->pos->upperY);
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 0d7d15a..0bb9dd4 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -702,6 +702,8 @@ void TextBlocksDetectionUtils::createTextBlock(const vector<PdfTextLine*>& lines
   // Compute the bounding box and the trim box and count the different font names and font sizes.
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
+  block->pos->rightX = lines[0]->pos->rightX;
+  block->pos->lowerY = lines[0]->pos->lowerY;
   for (size_t i = 0; i < lines.size(); i++) {
     PdfTextLine* prevLine = i > 0 ? lines[i-1] : nullptr;
     PdfTextLine* currLine = lines[i];
diff --git a/src/utils/WordsDetectionUtils.cpp b/src/utils/WordsDetectionUtils.cpp
index f62a499..11b8a4a 100755
--- a/src/utils/WordsDetectionUtils.cpp
+++ b/src/utils/WordsDetectionUtils.cpp
@@ -56,6 +56,8 @@ PdfWord* WordsDetectionUtils::createWord(const vector<PdfCharacter*>& characters
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   string text;
+  word->pos->rightX = characters[0]->pos->rightX;
+  word->pos->lowerY = characters[0]->pos->lowerY;
   for (auto* ch : characters) {
     // Update the x,y-coordinates of the bounding box.
     word->pos->leftX = minimum(word->pos->leftX, ch->pos->leftX);
-- 
2.43.0


From f500c61f8c7092fba1c3cd6acc004fe1a560f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:58 +0000
Subject: [PATCH 24/24] fix: a line of text of size zero ended the program

DoubleCounter::max() threw an exception if no value was larger than the smallest positive
double, for example, for the font sizes of a line of which all characters have size zero.
---
 src/utils/Counter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Counter.cpp b/src/utils/Counter.cpp
index 29e0e1d..6735e81 100755
--- a/src/utils/Counter.cpp
+++ b/src/utils/Counter.cpp
@@ -60,7 +60,7 @@ double DoubleCounter::max() const {
   bool entryFound = false;
 
   for (auto it = begin(); it != end(); it++) {
-    if (it->second > 0 && larger(it->first, max)) {
+    if (it->second > 0 && (!entryFound || larger(it->first, max))) {
       max = it->first;
       entryFound = true;
     }
-- 
2.43.0

