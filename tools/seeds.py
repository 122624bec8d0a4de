"""The planted bugs (see seed.py)."""
SEEDS = []


def seed(id, property, edits, shows, demo, needs, breaks, files=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, shows=shows, demo=demo, needs=needs,
                      breaks=breaks, files=files or {}))


RUN = "--skip-semantic-roles-prediction"

seed("C01a", "C01",
     [("src/pdftotext++.cpp",
       "disabled = skipLineStatisticsCalculation;",
       "disabled = skipLineStatisticsCalculation || skipWordsStatisticsCalculation;")],
     "--skip-words-statistics-calculation must not skip the statistics of text lines",
     r'''program
"$W/ppp" --skip-semantic-roles-prediction --skip-words-statistics-calculation \
  --print-running-times e2e/pdfs/test.pdf "$W/o.txt" > "$W/log" || exit 98
grep -q "Calculate text line statistics" "$W/log"
''',
     "the option --skip-words-statistics-calculation", "another stage is skipped as well")

seed("C01b", "C01",
     [("src/pdftotext++.cpp",
       "conf.subSuperScriptsDetection.logLevel = debugSubSuperScriptsDetection ? DEBUG : logLevel;",
       "conf.subSuperScriptsDetection.logLevel = debugSubSuperScriptsDetection ? INFO : logLevel;")],
     "--debug-sub-super-scripts-detection must print the debug messages of that stage",
     r'''program
"$W/ppp" --skip-semantic-roles-prediction --debug-sub-super-scripts-detection \
  e2e/pdfs/test.pdf "$W/o.txt" > "$W/log" || exit 98
grep -q "DEBUG" "$W/log"
''',
     "the option --debug-sub-super-scripts-detection", "debug messages are suppressed")

seed("C02a", "C02",
     [("src/PdfToTextPlusPlus.cpp",
       "    pdfDoc->getNumPages(),  // lastPage",
       "    std::min(pdfDoc->getNumPages(), 250),  // lastPage")],
     "all pages of a long document must be extracted",
     r'''program
python3 "$D/pages.py" 260 > "$W/long.pdf"
timeout 250 "$W/ppp" --skip-semantic-roles-prediction "$W/long.pdf" "$W/o.txt" || exit 98
grep -q "Page260x" "$W/o.txt"
''',
     "a document of more than 250 pages", "the last pages of long documents are lost",
     {"pages.py": open("/verif/tools/demo/pages.py").read()})

seed("C02b", "C02",
     [("src/PdfToTextPlusPlus.cpp",
       "  // (10) Compute some statistics about the text lines",
       "  // (9b) Without sub-/superscripts, the lines have to be found again.\n"
       "  if (_config->subSuperScriptsDetection.disabled && !_config->textLinesDetection.disabled) {\n"
       "    TextLinesDetection(doc, &_config->textLinesDetection).process();\n"
       "  }\n\n"
       "  // (10) Compute some statistics about the text lines")],
     "a stage must run exactly once",
     r'''program
"$W/ppp" --skip-semantic-roles-prediction --skip-sub-super-scripts-detection \
  --debug-text-lines-detection e2e/pdfs/test.pdf "$W/o.txt" > "$W/log" || exit 98
n=$(grep -c "Detecting text lines" "$W/log")
"$W/ppp" --skip-semantic-roles-prediction \
  --debug-text-lines-detection e2e/pdfs/test.pdf "$W/o.txt" > "$W/log" || exit 98
[ "$n" -gt 0 ] && [ "$n" = "$(grep -c "Detecting text lines" "$W/log")" ]
''',
     "the option --skip-sub-super-scripts-detection",
     "the detection of text lines runs twice")

seed("C03a", "C03",
     [("src/PdfToTextPlusPlus.cpp",
       "  if (!pdfDoc->isOk()) {\n    return pdfDoc->getErrorCode();",
       "  if (!pdfDoc->isOk()) {\n    return pdfDoc->getErrorCode() - errOpenFile;")],
     "a missing input file must be reported in the exit status",
     r'''program
"$W/ppp" --skip-semantic-roles-prediction "$W/none.pdf" "$W/o.txt" 2> /dev/null
[ $? != 0 ]
''',
     "an input file that cannot be opened", "the exit status is 0 although nothing was extracted")

seed("C04a", "C04",
     [("src/WordsDehyphenation.cpp",
       "#include <string>",
       "#include <iostream>\n#include <string>"),
      ("src/WordsDehyphenation.cpp",
       "  for (const auto* page : _doc->pages) {",
       "  if (_doc->pages.empty()) {\n    std::cout << \"no pages\" << std::endl;\n  }\n\n"
       "  for (const auto* page : _doc->pages) {")],
     "nothing but the text may appear on standard output",
     r'''unit demo.cpp
out=$("$W/unit")
[ -z "$out" ]
''',
     "a document without pages", "a message appears on standard output",
     {"demo.cpp": r'''#include "Config.h"
#include "Types.h"
#include "WordsDehyphenation.h"
int main() {
  ppp::types::PdfDocument doc("x.pdf");
  ppp::config::WordsDehyphenationConfig c;
  ppp::modules::WordsDehyphenation(&doc, &c).process();
}
'''})

seed("C05a", "C05",
     [("src/PdfParsing.cpp",
       "    _doc->fontInfos[fontName] = ",
       "    if (_config.logLevel <= ppp::utils::log::DEBUG) {\n"
       "      std::ofstream dump(_doc->pdfFilePath + \".fonts\", std::ios::app);\n"
       "    }\n    _doc->fontInfos[fontName] = "),
      ("src/PdfParsing.cpp", "#include <cassert>", "#include <fstream>\n#include <cassert>")],
     "no file besides the output may be written",
     r'''program
cp e2e/pdfs/test.pdf "$W/in.pdf"
mkdir "$W/out"
ls "$W" > "$W/out/a"
"$W/ppp" --skip-semantic-roles-prediction --debug-pdf-parsing "$W/in.pdf" "$W/out/o.txt" \
  > /dev/null || exit 98
ls "$W" > "$W/out/b"
cmp "$W/out/a" "$W/out/b"
''',
     "the option --debug-pdf-parsing", "a file that nobody asked for is written")

MODEL = r'''#pragma once
#include <sstream>
#include <iostream>
#include "Types.h"
#include "serializers/JsonlSerializer.h"
#include "serializers/PlainTextSerializer.h"
#include "serializers/PlainTextExtendedSerializer.h"
using namespace ppp::types;
static PdfPage* page(PdfDocument* d) {
  auto* p = new PdfPage(); p->pageNum = d->pages.size() + 1; d->pages.push_back(p); return p;
}
static PdfTextBlock* block(PdfDocument* d, PdfPage* p) {
  auto* b = new PdfTextBlock(); b->doc = d; b->role = SemanticRole::OTHER; b->id = "b";
  b->pos->pageNum = p->pageNum; p->blocks.push_back(b); return b;
}
static PdfTextLine* line(PdfDocument* d, PdfTextBlock* b) {
  auto* l = new PdfTextLine(); l->doc = d; l->block = b; l->pos->pageNum = b->pos->pageNum;
  b->lines.push_back(l); return l;
}
static PdfWord* word(PdfDocument* d, PdfTextLine* l, const std::string& s) {
  auto* w = new PdfWord(); w->doc = d; w->text = s; w->id = "w"; w->fontName = "f";
  w->pos->pageNum = l->pos->pageNum; w->line = l;
  for (char c : s) {
    auto* ch = new PdfCharacter(); ch->doc = d; ch->text = std::string(1, c); ch->fontName = "f";
    ch->id = "c"; ch->word = w; ch->pos->pageNum = l->pos->pageNum; w->characters.push_back(ch);
  }
  l->words.push_back(w); return w;
}
static const std::unordered_set<SemanticRole> ROLES = {SemanticRole::OTHER};
template <class S> std::string out(const PdfDocument* d,
    std::unordered_set<PdfElementType> t = {}, std::unordered_set<SemanticRole> r = ROLES) {
  std::ostringstream o; S().serializeToStream(d, r, t, o); return o.str();
}
struct J : ppp::serialization::JsonlSerializer { J() : JsonlSerializer(2) {} };
using P = ppp::serialization::PlainTextSerializer;
using Ext = ppp::serialization::PlainTextExtendedSerializer;
'''


def model(main):
    return {"model.h": MODEL, "demo.cpp": '#include <bits/stdc++.h>\n#include "model.h"\n' + main}


UNIT = r'''unit demo.cpp
"$W/unit"
'''

seed("C06a", "C06",
     [("src/serializers/PlainTextExtendedSerializer.cpp",
       "            out << word->isFirstPartOfHyphenatedWord->text;",
       "            word->text = word->isFirstPartOfHyphenatedWord->text;\n"
       "            out << word->text;")],
     "writing the text must not change the words of the document", UNIT,
     "a hyphenated word and the extended text format",
     "the text of the first part of a hyphenated word is overwritten while the text is written",
     model(r'''int main() {
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d); auto* b = block(d, p);
  auto* l = line(d, b); auto* w = word(d, l, "hy-"); auto* v = word(d, line(d, b), "phen");
  PdfWord m; m.text = "hyphen"; w->isFirstPartOfHyphenatedWord = &m;
  v->isSecondPartOfHyphenatedWord = &m;
  out<Ext>(d);
  return w->text != "hy-";
}
'''))

seed("C06b", "C06",
     [("src/PdfDocumentVisualization.cpp",
       "  for (const auto* figure : figures) {\n    drawBoundingBox(figure, cs);",
       "  for (const auto* figure : figures) {\n"
       "    // Make sure that the box of a flat figure is visible.\n"
       "    if (figure->pos->lowerY - figure->pos->upperY < 1.0) {\n"
       "      figure->pos->lowerY = figure->pos->upperY + 1.0;\n"
       "    }\n    drawBoundingBox(figure, cs);")],
     "drawing must not change the position of a figure", UNIT,
     "a figure of no height and the visualization of figures",
     "the position of a flat figure is changed while it is drawn",
     model(r'''#include "PdfDocumentVisualization.h"
#include <GlobalParams.h>
int main() {
  globalParams = std::make_unique<GlobalParams>();
  auto* d = new PdfDocument("e2e/pdfs/test.pdf"); auto* p = page(d);
  auto* f = new PdfFigure(); f->pos->pageNum = 1; f->pos->leftX = 10; f->pos->rightX = 50;
  f->pos->upperY = f->pos->lowerY = 10; p->figures.push_back(f);
  ppp::config::PdfDocumentVisualizationConfig c;
  ppp::visualization::PdfDocumentVisualization v("e2e/pdfs/test.pdf", c);
  v.visualizeFigures(*d, ppp::visualization::color_schemes::red);
  return f->pos->lowerY != 10;
}
'''))

seed("C07a", "C07",
     [("src/utils/TextUtils.cpp",
       "        if ('\\x00' <= str[i] && str[i] <= '\\x1f') {",
       "        if ('\\x00' < str[i] && str[i] < '\\x1f') {")],
     "a control character must be written as a JSON escape", UNIT,
     "a text with the character U+001F or U+0000", "the JSON output is not well-formed",
     model(r'''#include "utils/TextUtils.h"
int main() {
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d); auto* b = block(d, p);
  b->text = "a\x1f""b";
  std::string s = out<J>(d, {PdfElementType::TEXT_BLOCKS});
  return s.find("a\\u001fb") == std::string::npos;
}
'''))

seed("C07b", "C07",
     [("src/serializers/JsonlSerializer.cpp",
       "          for (const PdfCharacter* c : word->characters) {",
       "          // The characters of the second part belong to the hyphenated word.\n"
       "          if (word->isSecondPartOfHyphenatedWord && !block->isEmphasized) {\n"
       "            continue;\n          }\n\n"
       "          for (const PdfCharacter* c : word->characters) {")],
     "every character must have its record", UNIT,
     "a hyphenated word and the JSONL format", "the characters of the second part are lost",
     model(r'''int main() {
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d); auto* b = block(d, p);
  d->fontInfos["f"] = new PdfFontInfo();
  auto* l = line(d, b); auto* w = word(d, l, "hy-"); auto* v = word(d, line(d, b), "phen");
  PdfWord m; m.text = "hyphen"; w->isFirstPartOfHyphenatedWord = &m;
  v->isSecondPartOfHyphenatedWord = &m;
  std::string s = out<J>(d, {PdfElementType::CHARACTERS});
  return std::count(s.begin(), s.end(), '\n') != 7;
}
'''))

seed("C08a", "C08",
     [("src/serializers/PlainTextSerializer.cpp",
       "  PdfTextBlock* prevBlock = nullptr;\n  for (auto* page : doc->pages) {",
       "  for (auto* page : doc->pages) {\n    PdfTextBlock* prevBlock = nullptr;")],
     "blocks of different pages must be separated by a blank line", UNIT,
     "a document of more than one page", "the last block of a page runs into the next page",
     model(r'''int main() {
  auto* d = new PdfDocument("x.pdf");
  for (int i = 0; i < 2; i++) { word(d, line(d, block(d, page(d))), "w"); }
  return out<P>(d) != "w\n\nw\n";
}
'''))

seed("C08b", "C08",
     [("src/serializers/PlainTextExtendedSerializer.cpp",
       "              } else if (!ch->isDiacriticMarkOfBaseChar) {",
       "              } else if (!ch->isDiacriticMarkOfBaseChar && !ch->text.empty() &&\n"
       "                  ch->text[0] != '\\0' && ch->text != \"\\f\") {"),
      ("src/serializers/PlainTextExtendedSerializer.cpp",
       "          if (word->isSecondPartOfHyphenatedWord) {",
       "          if (word->isSecondPartOfHyphenatedWord || word->text.empty()) {")],
     "words must be written by their characters", UNIT,
     "a word whose own text is empty, or a form feed among the characters",
     "words or characters are lost in the extended format",
     model(r'''int main() {
  auto* d = new PdfDocument("x.pdf"); auto* b = block(d, page(d));
  auto* w = word(d, line(d, b), "abc"); w->text = "";
  return out<Ext>(d) != "[OTHER] abc\n\f\n";
}
'''))

VIS = r'''#include "PdfDocumentVisualization.h"
#include <GlobalParams.h>
#include <Annot.h>
#include <Page.h>
static std::vector<std::array<double, 4>> rects(
    const ppp::visualization::PdfDocumentVisualization& v, int type, int num = 1) {
  std::vector<std::array<double, 4>> out;
  for (auto& a : v._pdfDoc->getPage(num)->getAnnots()->getAnnots()) {
    if (a->getType() != type) { continue; }
    double x1, y1, x2, y2; a->getRect(&x1, &y1, &x2, &y2);
    out.push_back({x1, y1, x2, y2});
  }
  return out;
}
'''

seed("C09a", "C09",
     [("src/PdfDocumentVisualization.cpp",
       "  if (smaller(fabs(upperY - lowerY), 1)) { lowerY += 1; }\n  PDFRectangle rect(leftX, upperY, rightX, lowerY);\n\n  // Create the",
       "  else if (smaller(fabs(upperY - lowerY), 1)) { lowerY += 1; }\n  PDFRectangle rect(leftX, upperY, rightX, lowerY);\n\n  // Create the")],
     "the box of an element without extent must be visible", UNIT,
     "an element with neither width nor height", "the box drawn for such an element has no height",
     model(VIS + r'''int main() {
  globalParams = std::make_unique<GlobalParams>();
  auto* d = new PdfDocument("e2e/pdfs/test.pdf"); auto* p = page(d);
  auto* f = new PdfFigure(); f->pos->pageNum = 1; f->pos->leftX = 10; f->pos->rightX = 10;
  f->pos->upperY = f->pos->lowerY = 10; p->figures.push_back(f);
  ppp::config::PdfDocumentVisualizationConfig c;
  ppp::visualization::PdfDocumentVisualization v("e2e/pdfs/test.pdf", c);
  auto n = rects(v, Annot::typeSquare).size();
  v.visualizeFigures(*d, ppp::visualization::color_schemes::red);
  auto r = rects(v, Annot::typeSquare);
  if (r.size() != n + 1) { return 2; }
  auto q = r.back();
  return std::fabs(q[3] - q[1]) < 0.5 || std::fabs(q[2] - q[0]) < 0.5;
}
'''))

seed("C09b", "C09",
     [("src/PdfDocumentVisualization.cpp",
       "    Page* pdfPage = _pdfDoc->getPage(currBlock->pos->pageNum);\n"
       "    Gfx* gfx = _gfxs[currBlock->pos->pageNum];\n\n"
       "    // Compute the coordinates of the midpoints of the previous",
       "    // There is no line between blocks of the same box.\n"
       "    if (prevBlock->pos->upperY == currBlock->pos->upperY &&\n"
       "        prevBlock->pos->leftX == currBlock->pos->leftX) {\n      continue;\n    }\n\n"
       "    Page* pdfPage = _pdfDoc->getPage(currBlock->pos->pageNum);\n"
       "    Gfx* gfx = _gfxs[currBlock->pos->pageNum];\n\n"
       "    // Compute the coordinates of the midpoints of the previous")],
     "every block must be numbered in the visualization of the reading order", UNIT,
     "two consecutive blocks that start at the same point",
     "the line between two blocks and the number of the first are not drawn",
     model(VIS + r'''int main() {
  globalParams = std::make_unique<GlobalParams>();
  auto* d = new PdfDocument("e2e/pdfs/test.pdf"); auto* p = page(d);
  for (int i = 0; i < 3; i++) {
    auto* b = block(d, p); b->pos->leftX = 10; b->pos->upperY = i < 2 ? 20 : 100;
    b->pos->rightX = 50; b->pos->lowerY = 60 + 60 * i;
  }
  ppp::config::PdfDocumentVisualizationConfig c;
  ppp::visualization::PdfDocumentVisualization v("e2e/pdfs/test.pdf", c);
  auto n = rects(v, Annot::typeCircle).size();
  v.visualizeReadingOrder(*d, ppp::visualization::color_schemes::red);
  return rects(v, Annot::typeCircle).size() != n + 3;
}
'''))


seed("C10a", "C10",
     [("src/TextLinesDetection.cpp",
       "          lines = mergedLines;\n\n"
       "          // Abort if no text lines were merged in this round.\n"
       "          if (!merged) {\n            break;\n          }\n",
       "          // Abort if no text lines were merged in this round, or if there were enough rounds.\n"
       "          if (!merged || r > 1) {\n            break;\n          }\n"
       "          lines = mergedLines;\n")],
     "each word of a segment must be in exactly one text line", UNIT,
     "three lines of which two overlap and, once merged, also overlap the third one",
     "a line whose words were moved to the line before it stays in the segment: its words are "
     "there twice",
     model(r'''
#include "TextLinesDetection.h"
#include "Config.h"
#include "PdfDocumentVisualization.h"
static PdfWord* at(PdfDocument* d, PdfPageSegment* s, const char* t, double x, double y1, double y2) {
  auto* w = new PdfWord(); w->doc = d; w->text = t; w->id = t; w->pos->pageNum = 1;
  w->pos->leftX = x; w->pos->rightX = x + 10; w->pos->upperY = y1; w->pos->lowerY = y2;
  s->elements.push_back(w); return w;
}
int main() {
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d); d->avgCharWidth = 100;
  auto* s = new PdfPageSegment(); s->doc = d; s->pos->pageNum = 1; s->pos->leftX = 0;
  s->pos->upperY = 0; s->pos->rightX = 100; s->pos->lowerY = 100; p->segments.push_back(s);
  at(d, s, "a", 0, 0, 20); at(d, s, "b", 12, 15, 30); at(d, s, "c", 24, 11, 31);
  ppp::config::TextLinesDetectionConfig c;
  ppp::modules::TextLinesDetection(d, &c).process();
  std::map<PdfWord*, int> n;
  for (auto* l : s->lines) for (auto* w : l->words) n[w]++;
  if (n.size() != 3) return 1;
  for (auto& e : n) if (e.second != 1) return 1;
  return 0;
}'''))

seed("C10b", "C10",
     [("src/WordsDetection.cpp",
       "  // Don't forget to process the last word.\n"
       "  if (!_activeWord.characters.empty()) {",
       "  // Don't forget to process the last word.\n"
       "  if (!_activeWord.characters.empty() && !page->words.empty()) {")],
     "the only word of a page must not be lost", UNIT,
     "a page that has one word only", "the word of a page with a single word is lost",
     model(r'''
#include "WordsDetection.h"
#include "Config.h"
int main() {
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d); d->avgCharWidth = 5; d->avgCharHeight = 5;
  double x = 0;
  for (const char* t : {"o", "n", "e"}) {
    auto* c = new PdfCharacter(); c->doc = d; c->text = t; c->id = t; c->pos->pageNum = 1;
    c->pos->leftX = x; c->pos->rightX = x += 5; c->pos->upperY = 0; c->pos->lowerY = 10;
    c->fontSize = 10; p->characters.push_back(c);
  }
  ppp::config::WordsDetectionConfig c;
  ppp::modules::WordsDetection(d, &c).process();
  return p->words.size() == 1 && p->words[0]->text == "one" ? 0 : 1;
}'''))

seed("C12a", "C12",
     [("src/Types.h", "  bool isChosen = false;", "  bool isChosen;")],
     "the reading order must not depend on what the memory held before", 'unit demo.cpp rest\n"$W/unit"\n',
     "memory that was used before", "a cut that no rule chooses is chosen if the memory was not zero",
     model(r'''
#include "ReadingOrderDetection.h"
#include "Config.h"
static int dirt = 0;
void* operator new(size_t n) { void* p = malloc(n); memset(p, dirt, n); return p; }
void operator delete(void* p) noexcept {}
void operator delete(void* p, size_t) noexcept {}
static PdfTextBlock* at(PdfDocument* d, PdfPage* p, const char* t, double x, double y, double X, double Y) {
  auto* b = block(d, p); b->text = t; b->pos->leftX = x; b->pos->upperY = y; b->pos->rightX = X;
  b->pos->lowerY = Y; return b;
}
static std::string order(int fill) {
  dirt = fill;
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d);
  d->avgCharWidth = 5; d->avgCharHeight = 10; d->mostFreqWordHeight = 10; d->mostFreqWordDistance = 5;
  at(d, p, "a", 50, 100, 250, 300); at(d, p, "b", 300, 100, 500, 300);
  at(d, p, "c", 50, 320, 250, 600); at(d, p, "d", 300, 320, 500, 600);
  at(d, p, "e", 50, 620, 500, 700);
  ppp::config::ReadingOrderDetectionConfig c; ppp::config::SemanticRolesPredictionConfig r;
  ppp::modules::ReadingOrderDetection(d, &c, &r).detectReadingOrder();
  std::string s;
  for (auto* b : p->blocks) s += b->text;
  for (auto* k : p->readingOrderCuts) s += k->isChosen ? "+" : "-";
  return s;
}
int main() {
  const std::string a = order(0), b = order(1);
  std::cerr << a << " " << b << "\n";
  return a == b && a.find('-') != std::string::npos ? 0 : 1;
}'''))

seed("C12b", "C12",
     [("src/ReadingOrderDetection.cpp",
       "        return e1->pos->upperY < e2->pos->upperY;",
       "        // Make the order total.\n"
       "        if (e1->pos->upperY == e2->pos->upperY) { return e1->id < e2->id; }\n"
       "        return e1->pos->upperY < e2->pos->upperY;")],
     "the reading order must not depend on the ids, which are random",
     'unit demo.cpp rest\n"$W/unit"\n',
     "two blocks of a group that begin at the same height",
     "the order of blocks at the same height is random",
     model(r'''
#include "ReadingOrderDetection.h"
#include "Config.h"
static std::string order(const char* i1, const char* i2) {
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d);
  d->avgCharWidth = 5; d->avgCharHeight = 10; d->mostFreqWordHeight = 10; d->mostFreqWordDistance = 5;
  const char* ids[] = {i1, i2};
  for (int i = 0; i < 2; i++) {
    auto* b = block(d, p); b->id = ids[i]; b->text = i ? "two " : "one ";
    b->pos->leftX = 100 + 50 * i; b->pos->rightX = 300 + 50 * i; b->pos->upperY = 100;
    b->pos->lowerY = 200;
  }
  ppp::config::ReadingOrderDetectionConfig c; ppp::config::SemanticRolesPredictionConfig r;
  ppp::modules::ReadingOrderDetection(d, &c, &r).detectReadingOrder();
  std::string s;
  for (auto* b : p->blocks) s += b->text;
  return s;
}
int main() { return order("block-aaa", "block-bbb") == order("block-bbb", "block-aaa") ? 0 : 1; }'''))

seed("C13a", "C13",
     [("src/SubSuperScriptsDetection.cpp",
       "    int p = page->pageNum;",
       "    int p = page->pageNum;\n"
       "    // Save time when a single page is debugged.\n"
       "    if (_config->logPageFilter > 0 && p > 0 && p != _config->logPageFilter) { continue; }")],
     "the page filter of the log must not change what is extracted", UNIT,
     "the option --log-page-filter", "sub- and superscripts of the other pages are not found",
     model(r'''
#include "SubSuperScriptsDetection.h"
#include "Config.h"
int main() {
  bool got[2];
  for (int k = 0; k < 2; k++) {
    auto* d = new PdfDocument("x.pdf"); auto* p = page(d); d->mostFreqFontSize = 10;
    auto* s = new PdfPageSegment(); s->doc = d; p->segments.push_back(s);
    auto* l = line(d, block(d, p)); s->lines.push_back(l); auto* w = word(d, l, "x");
    l->base = 100; w->characters[0]->fontSize = 6; w->characters[0]->base = 90;
    ppp::config::SubSuperScriptsDetectionConfig c;
    c.logLevel = ppp::utils::log::ERROR;
    c.logPageFilter = k ? 7 : -1;
    ppp::modules::SubSuperScriptsDetection(d, &c).process();
    got[k] = w->characters[0]->isSuperscript;
  }
  return got[0] && got[1] ? 0 : 1;
}'''))

seed("C13b", "C13",
     [("src/WordsDetection.cpp",
       '    _log->debug(p) << " • char.leftX:  " << currChar->pos->leftX << endl;',
       '    _log->debug(p) << " • char.leftX:  " << std::setprecision(3) << currChar->pos->leftX << endl;'),
      ("src/WordsDetection.cpp", "#include <limits>", "#include <iomanip>  // std::setprecision\n#include <limits>")],
     "debug messages must not change the numbers that are written to the standard output",
     r'''unit demo.cpp
"$W/unit" 0 | grep '^{' > "$W/a"
"$W/unit" 1 | grep '^{' > "$W/b"
[ -s "$W/a" ] && cmp "$W/a" "$W/b"
''',
     "--verbosity debug and JSONL on the standard output",
     "coordinates are written with three digits only",
     model(r'''
#include "WordsDetection.h"
#include "Config.h"
int main(int argc, char** argv) {
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d); d->avgCharWidth = 5; d->avgCharHeight = 5;
  auto* c = new PdfCharacter(); c->doc = d; c->text = "x"; c->id = "c"; c->pos->pageNum = 1;
  c->pos->leftX = 123.456; c->pos->rightX = 128.456; c->pos->upperY = 7; c->pos->lowerY = 17;
  c->fontSize = 10; p->characters.push_back(c);
  ppp::config::WordsDetectionConfig k;
  k.logLevel = argv[1][0] == '1' ? ppp::utils::log::DEBUG : ppp::utils::log::ERROR;
  k.idLength = 0;
  ppp::modules::WordsDetection(d, &k).process();
  auto* f = new PdfFigure(); f->doc = d; f->id = "f"; f->pos->pageNum = 1; f->pos->leftX = 123.456;
  f->pos->upperY = 1; f->pos->rightX = 200; f->pos->lowerY = 2; p->figures.push_back(f);
  std::cout << std::endl;
  J().serializeToStream(d, ROLES, {PdfElementType::FIGURES}, std::cout);
}'''))

seed("C14a", "C14",
     [("src/utils/XYCut.cpp",
       "bool yCut(const vector<PdfElement*>& elements, double minGapHeight,\n"
       "    const ChooseCutsFunc& chooseCutsFunc, bool silent, vector<vector<PdfElement*>>* resultGroups,\n"
       "    vector<Cut*>* resultCuts) {\n"
       "  // Do nothing if no elements are given.\n"
       "  if (elements.empty()) {\n"
       "    return false;\n"
       "  }\n",
       "bool yCut(const vector<PdfElement*>& elements, double minGapHeight,\n"
       "    const ChooseCutsFunc& chooseCutsFunc, bool silent, vector<vector<PdfElement*>>* resultGroups,\n"
       "    vector<Cut*>* resultCuts) {\n"
       "  // Nothing can be divided if there is at most one element.\n"
       "  if (elements.size() < 2) {\n"
       "    return false;\n"
       "  }\n"),
      ("src/utils/XYCut.cpp",
       "      cut->gapWidth = elementsMaxX - elementsMinX;\n"
       "      cut->gapHeight = gapHeight;\n\n"
       "      candidates.push_back(cut);\n"
       "    }\n",
       "      cut->gapWidth = elementsMaxX - elementsMinX;\n"
       "      cut->gapHeight = gapHeight;\n\n"
       "      candidates.push_back(cut);\n"
       "      hasCut = true;\n"
       "    }\n"),
      ("src/utils/XYCut.cpp",
       "  // The element with the largest lowerY seen so far.\n",
       "  bool hasCut = false;\n"
       "  // The element with the largest lowerY seen so far.\n"),
      ("src/utils/XYCut.cpp",
       "  return hasChosenCut;\n}\n\n}  // namespace",
       "  return hasCut;\n}\n\n}  // namespace")],
     "a list that no chosen cut divides must not be divided further", UNIT,
     "a gap between two elements at which no cut is chosen",
     "a list that was not divided is divided again, without end",
     model(r'''
#include <unistd.h>
#include "utils/XYCut.h"
int main() {
  alarm(60);
  std::vector<PdfElement*> es;
  for (int i = 0; i < 2; i++) {
    auto* f = new PdfFigure(); f->pos->pageNum = 1; f->pos->leftX = 0; f->pos->rightX = 10;
    f->pos->upperY = 100 * i; f->pos->lowerY = 100 * i + 10; es.push_back(f);
  }
  auto none = [](const std::vector<Cut*>&, const std::vector<PdfElement*>&, bool) {};
  std::vector<std::vector<PdfElement*>> groups; std::vector<Cut*> cuts;
  ppp::utils::xyCut(es, 5, 5, 0, none, none, true, &groups, &cuts);
  return groups.size() == 1 && groups[0].size() == 2 ? 0 : 1;
}'''))

seed("C14b", "C14",
     [("src/TextLinesDetection.cpp",
       "            // Merge the current line with the previous line when the vertical overlap between the\n"
       "            // lines is larger or equal to the threshold.\n",
       "            // Lines that overlap may be merged once other lines were merged.\n"
       "            merged = merged || yOverlapRatio > 0;\n\n"
       "            // Merge the current line with the previous line when the vertical overlap between the\n"
       "            // lines is larger or equal to the threshold.\n")],
     "detecting the lines of a segment must come to an end", UNIT,
     "two lines that overlap too little to be merged",
     "overlapping lines are compared again and again, without end",
     model(r'''
#include <unistd.h>
#include "TextLinesDetection.h"
#include "Config.h"
static PdfWord* at(PdfDocument* d, PdfPageSegment* s, const char* t, double x, double y1, double y2) {
  auto* w = new PdfWord(); w->doc = d; w->text = t; w->id = t; w->pos->pageNum = 1;
  w->pos->leftX = x; w->pos->rightX = x + 10; w->pos->upperY = y1; w->pos->lowerY = y2;
  s->elements.push_back(w); return w;
}
int main() {
  alarm(20);
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d); d->avgCharWidth = 100;
  auto* s = new PdfPageSegment(); s->doc = d; s->pos->pageNum = 1; s->pos->leftX = 0;
  s->pos->upperY = 0; s->pos->rightX = 100; s->pos->lowerY = 100; p->segments.push_back(s);
  at(d, s, "a", 0, 0, 20); at(d, s, "b", 12, 17, 37);
  ppp::config::TextLinesDetectionConfig c;
  ppp::modules::TextLinesDetection(d, &c).process();
  return s->lines.size() == 2 ? 0 : 1;
}'''))

seed("C15a", "C15",
     [("src/DiacriticalMarksMerging.cpp",
       "      // Skip the character if it does not contain exactly one unicode.\n"
       "      if (currChar->unicodes.size() != 1) {",
       "      // Skip the character if it contains more than one unicode.\n"
       "      if (currChar->unicodes.size() > 1) {")],
     "a character without a unicode must not end the program", UNIT,
     "a character that its font maps to no unicode",
     "the first of no unicodes is read",
     model(r'''#include "DiacriticalMarksMerging.h"
#include <GlobalParams.h>
int main() {
  globalParams = std::make_unique<GlobalParams>();
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d);
  for (int i = 0; i < 3; i++) {
    auto* c = new PdfCharacter(); c->doc = d; c->text = "a"; c->fontName = "f"; c->pos->pageNum = 1;
    c->pos->leftX = 10 * i; c->pos->rightX = 10 * i + 9; c->pos->upperY = 0; c->pos->lowerY = 10;
    if (i != 1) { c->unicodes.push_back('a'); }
    p->characters.push_back(c);
  }
  ppp::config::DiacriticalMarksMergingConfig c;
  ppp::modules::DiacriticalMarksMerging(d, &c).process();
}
'''))

seed("C15b", "C15",
     [("src/TextBlocksDetection.cpp",
       "    double eld = _doc->mostFreqLineDistancePerFontSize.at(line->fontSize);",
       "    double maxFontSize = maximum(line->fontSize, prevLine->fontSize);\n"
       "    double eld = _doc->mostFreqLineDistancePerFontSize.at(maxFontSize);")],
     "a line below a line in a larger font of unknown line distance must not end the program", UNIT,
     "a line of text below a single line in a larger font",
     "the line distance of a font size is looked up that was never asked for",
     model(r'''#define private public
#include "TextBlocksDetection.h"
#undef private
int main() {
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d); auto* b = block(d, p);
  d->mostFreqLineDistance = 2; d->mostFreqLineDistancePerFontSize[10] = 2;
  auto* l = line(d, b); auto* m = line(d, b); m->prevLine = l; l->nextLine = m;
  l->fontSize = 20; m->fontSize = 10;
  l->pos->leftX = m->pos->leftX = 0; l->pos->rightX = m->pos->rightX = 100;
  l->pos->upperY = 0; l->pos->lowerY = 20; m->pos->upperY = 22; m->pos->lowerY = 32;
  ppp::config::TextBlocksDetectionConfig c;
  ppp::modules::TextBlocksDetection(d, &c).startsBlock_lineDistance(m);
}
'''))

seed("C16a", "C16",
     [("src/DiacriticalMarksMerging.cpp",
       "      if (larger(prevXOverlapRatio, nextXOverlapRatio)) {",
       "      bool isModifierLetter = unicode >= 0x02B0 && unicode <= 0x02FF;\n"
       "      if (isModifierLetter || larger(prevXOverlapRatio, nextXOverlapRatio)) {")],
     "a page that starts with a mark must not end the program", UNIT,
     "a page whose first character is a modifier letter drawn over the second one",
     "the mark is merged with the character before it, which does not exist",
     model(r'''#include "DiacriticalMarksMerging.h"
#include <GlobalParams.h>
int main() {
  globalParams = std::make_unique<GlobalParams>();
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d);
  for (int i = 0; i < 2; i++) {
    auto* c = new PdfCharacter(); c->doc = d; c->text = i ? "a" : "\u02b0"; c->fontName = "f";
    c->pos->pageNum = 1; c->pos->leftX = i; c->pos->rightX = i + 9; c->pos->upperY = 0;
    c->pos->lowerY = 10; c->unicodes.push_back(i ? 'a' : 0x02b0); p->characters.push_back(c);
  }
  ppp::config::DiacriticalMarksMergingConfig c;
  ppp::modules::DiacriticalMarksMerging(d, &c).process();
  return p->characters[1]->isBaseCharOfDiacriticMark == p->characters[0] ? 0 : 1;
}
'''))

seed("C16b", "C16",
     [("src/TextLinesDetection.cpp",
       "        // Skip the word if it is part of a stacked math symbol.\n"
       "        if (word->isPartOfStackedMathSymbol) {",
       "        vector<PdfWord*>& cluster = clusters[word->pos->rotation][word->pos->getRotLowerY()];\n\n"
       "        // Skip the word if it is part of a stacked math symbol.\n"
       "        if (word->isPartOfStackedMathSymbol) {"),
      ("src/TextLinesDetection.cpp",
       "        double rotation = word->pos->rotation;\n"
       "        double lowerY = word->pos->getRotLowerY();\n"
       "        clusters[rotation][lowerY].push_back(word);",
       "        double rotation = word->pos->rotation;\n"
       "        double lowerY = word->pos->getRotLowerY();\n"
       "        cluster.push_back(word);"),
      ("src/TextLinesDetection.cpp",
       "          clusters[rotation][lowerY].push_back(w);", "          cluster.push_back(w);")],
     "a formula with a stacked symbol must not end the program", UNIT,
     "a stacked math symbol whose parts have a bottom of their own",
     "a list of words is made for a skipped word, stays empty, and the assertion that no line is empty fails",
     model(r'''#include "TextLinesDetection.h"
int main() {
  auto* d = new PdfDocument("x.pdf"); auto* p = page(d); d->avgCharWidth = 5;
  auto* s = new PdfPageSegment(); s->doc = d; s->pos->pageNum = 1; s->pos->leftX = 0;
  s->pos->upperY = 0; s->pos->rightX = 100; s->pos->lowerY = 100; p->segments.push_back(s);
  PdfWord* ws[2];
  for (int i = 0; i < 2; i++) {
    auto* w = ws[i] = new PdfWord(); w->doc = d; w->text = "w"; w->pos->pageNum = 1;
    w->pos->leftX = 10; w->pos->rightX = 20; w->pos->upperY = 20 - 10 * i;
    w->pos->lowerY = 30 - 10 * i; s->elements.push_back(w);
  }
  ws[1]->isPartOfStackedMathSymbol = ws[0]; ws[0]->isBaseOfStackedMathSymbol.push_back(ws[1]);
  ppp::config::TextLinesDetectionConfig c;
  ppp::modules::TextLinesDetection(d, &c).process();
  return s->lines.size() == 1 ? 0 : 1;
}
'''))

PARSE = r'''#include <poppler/PDFDoc.h>
#include <poppler/GlobalParams.h>
#include "./PdfParsing.h"
using namespace ppp; using namespace ppp::types;
// the document with one page that draws s
static PdfDocument* parse(const std::string& s) {
  std::string o[] = {"<</Type/Catalog/Pages 2 0 R>>", "<</Type/Pages/Kids[3 0 R]/Count 1>>",
    "<</Type/Page/Parent 2 0 R/MediaBox[0 0 612 792]/Contents 4 0 R/Resources<</Font<</F 5 0 R>>>>>>",
    "<</Length " + std::to_string(s.size()) + ">>stream\n" + s + "endstream",
    "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>"};
  std::string t = "%PDF-1.4\n", x;
  char b[32];
  for (int i = 0; i < 5; i++) {
    snprintf(b, sizeof b, "%010d 00000 n \n", (int)t.size()); x += b;
    t += std::to_string(i + 1) + " 0 obj\n" + o[i] + "\nendobj\n";
  }
  int n = t.size();
  t += "xref\n0 6\n0000000000 65535 f \n" + x + "trailer<</Size 6/Root 1 0 R>>\nstartxref\n" +
    std::to_string(n) + "\n%%EOF\n";
  globalParams = std::make_unique<GlobalParams>();
  auto* doc = new PdfDocument(); ppp::config::PdfParsingConfig c;
  auto* m = new ppp::modules::PdfParsing(doc, c);
  char* mem = new char[t.size()]; memcpy(mem, t.data(), t.size());
  auto* d = new PDFDoc(new MemStream(mem, 0, t.size(), Object(objNull)));
  d->displayPages(m, 1, d->getNumPages(), 72, 72, 0, true, false, false);
  return doc;
}
'''

seed("C17a", "C17",
     [("src/PdfParsing.cpp",
       "      figure->pos->rightX = maximum(figure->pos->rightX, graphic->pos->rightX);\n"
       "      figure->pos->lowerY = maximum(figure->pos->lowerY, graphic->pos->lowerY);",
       "      if (figure->graphics.empty() || graphic->rank > figure->graphics.back()->rank + 1) {\n"
       "        figure->pos->rightX = maximum(figure->pos->rightX, graphic->pos->rightX);\n"
       "        figure->pos->lowerY = maximum(figure->pos->lowerY, graphic->pos->lowerY);\n"
       "      }")],
     "the box of a figure must enclose all of its images", UNIT,
     "two images drawn one directly after the other with the same clip box",
     "the box of the figure does not enclose the second image",
     {"demo.cpp": PARSE + r'''
int main() {
  std::string img = "BI /W 1 /H 1 /CS /G /BPC 8 ID x EI Q\n";
  auto* d = parse("100 100 300 300 re W n\nq 50 0 0 50 120 120 cm " + img +
                  "q 50 0 0 50 220 220 cm " + img);
  if (d->pages.size() != 1 || d->pages[0]->figures.size() != 1) return 2;
  auto* f = d->pages[0]->figures[0];
  if (f->graphics.size() != 2) return 2;
  return f->pos->rightX >= f->graphics[1]->pos->rightX ? 0 : 1;
}
'''})

seed("C17b", "C17",
     [("src/PdfParsing.cpp",
       "  double params[6] = { fontSize * horizScaling, 0, 0, fontSize, 0, rise };",
       "  double params[6] = { fontSize * horizScaling, 0, 0, fontSize, 0, rise * horizScaling };")],
     "a raised character must be recorded where it is drawn", UNIT,
     "raised text that is stretched horizontally",
     "the rise of a character is stretched as well, its box is too high",
     {"demo.cpp": PARSE + r'''
int main() {
  auto* d = parse("BT /F 10 Tf 100 100 Td 200 Tz (a) Tj 8 Ts (b) Tj ET\n");
  auto& cs = d->pages.at(0)->characters;
  if (cs.size() != 2) return 2;
  double up = cs[0]->pos->lowerY - cs[1]->pos->lowerY;
  return up > 7.9 && up < 8.1 ? 0 : 1;
}
'''})

seed("C17c", "C17",
     [("src/PdfParsing.cpp",
       "          && equal(clipRightX, figure->clipRightX, _config.coordsEqualTolerance)\n"
       "          && equal(clipLowerY, figure->clipLowerY, _config.coordsEqualTolerance)) {\n"
       "      // Update the bounding box of the figure.\n"
       "      figure->pos->leftX = minimum(figure->pos->leftX, shape->pos->leftX);",
       "          && equal(clipRightX, figure->clipRightX, _config.coordsEqualTolerance)\n"
       "          && equalOrSmaller(clipLowerY, figure->clipLowerY, _config.coordsEqualTolerance)) {\n"
       "      // Update the bounding box of the figure.\n"
       "      figure->pos->leftX = minimum(figure->pos->leftX, shape->pos->leftX);")],
     "paths with different clip boxes must be recorded in different figures", UNIT,
     "two clip boxes of which the second one differs only in a higher bottom",
     "the paths of the second clip box are recorded in the figure of the first one",
     {"demo.cpp": PARSE + r'''
int main() {
  auto* d = parse("q 100 100 300 300 re W n 150 350 20 20 re f Q\n"
                  "q 100 200 300 200 re W n 250 350 20 20 re f Q\n");
  return d->pages.at(0)->figures.size() == 2 ? 0 : 1;
}
'''})

seed("C11a", "C11",
     [("src/utils/WordsDetectionUtils.cpp",
       "    word->pos->upperY = minimum(word->pos->upperY, ch->pos->upperY);",
       "    // Marks do not count for the height of a word.\n"
       "    if (!ch->isDiacriticMarkOfBaseChar) {\n"
       "      word->pos->upperY = minimum(word->pos->upperY, ch->pos->upperY);\n"
       "    }")],
     "the box of a word must enclose the diacritical marks", UNIT,
     "a diacritical mark that was merged with its base character and lies higher",
     "the mark sticks out of the box of its word",
     model(r'''
#include "Config.h"
#include "utils/WordsDetectionUtils.h"
int main() {
  std::vector<PdfCharacter*> cs;
  for (int k = 0; k < 2; k++) {
    auto* c = new PdfCharacter(); c->pos->leftX = 10; c->pos->rightX = 20;
    c->pos->upperY = k ? 95 : 100; c->pos->lowerY = k ? 99 : 110; c->pos->pageNum = 1;
    c->text = k ? "`" : "a"; c->isDiacriticMarkOfBaseChar = k ? cs[0] : nullptr; cs.push_back(c);
  }
  cs[0]->isBaseCharOfDiacriticMark = cs[1]; cs[0]->textWithDiacriticMark = "\u00e0";
  ppp::config::WordsDetectionConfig c;
  auto* w = ppp::utils::WordsDetectionUtils(&c).createWord(cs);
  return w->text == "\u00e0" && w->pos->upperY == 95 && w->pos->lowerY == 110 ? 0 : 1;
}'''))

seed("C11b", "C11",
     [("src/utils/TextBlocksDetectionUtils.cpp",
       "    fontSizeCounter[currLine->fontSize]++;",
       "    fontSizeCounter[prevLine ? prevLine->fontSize : currLine->fontSize]++;")],
     "the font size of a block must be the most frequent one of its lines", UNIT,
     "a block whose first line has another font size than the two that follow",
     "the size of the first line is counted twice, that of the last one not at all",
     model(r'''
#include "Config.h"
#include "utils/TextBlocksDetectionUtils.h"
int main() {
  auto* d = new PdfDocument("x.pdf"); d->mostFreqFontSize = 10; d->mostFreqWordHeight = 8;
  auto* p = page(d); auto* s = new PdfPageSegment(); s->doc = d; s->pos->pageNum = 1;
  p->segments.push_back(s); s->trimLeftX = 0; s->trimRightX = 500;
  std::vector<PdfTextLine*> ls;
  for (int k = 0; k < 3; k++) {
    auto* l = line(d, block(d, p)); l->segment = s; word(d, l, "x")->text = "x";
    l->pos->pageNum = 1; l->pos->leftX = 100; l->pos->rightX = 200;
    l->pos->upperY = 100 + 20 * k; l->pos->lowerY = 110 + 20 * k;
    l->fontName = "f"; l->fontSize = k ? 10 : 12; ls.push_back(l);
  }
  d->fontInfos["f"] = new PdfFontInfo();
  ppp::config::TextBlocksDetectionConfig c;
  std::vector<PdfTextBlock*> bs;
  ppp::utils::TextBlocksDetectionUtils(&c).createTextBlock(ls, &bs);
  return bs.at(0)->fontSize == 10 && bs[0]->text == "x x x" ? 0 : 1;
}'''))

seed("C11c", "C11",
     [("src/TextLinesDetection.cpp",
       "  line2->words.insert(line2->words.end(), line1->words.begin(), line1->words.end());\n"
       "  computeTextLineProperties(line2);",
       "  // The properties need to be computed again only if the order of the words changes.\n"
       "  bool ordered = line1->pos->getRotLeftX() >= line2->pos->getRotRightX();\n"
       "  line2->words.insert(line2->words.end(), line1->words.begin(), line1->words.end());\n"
       "  if (ordered && line2->pos->rotation == 0) {\n"
       "    for (PdfWord* w : line1->words) { w->line = line2; }\n"
       "    line2->text += \" \" + line1->text;\n"
       "    line2->pos->rightX = line1->pos->rightX;\n"
       "    line2->pos->lowerY = maximum(line1->pos->lowerY, line2->pos->lowerY);\n"
       "  } else {\n"
       "    computeTextLineProperties(line2);\n"
       "  }")],
     "the box of two merged lines must be that of all words", UNIT,
     "two lines that are merged, of which the right one reaches higher",
     "the box of the merged line does not enclose the words of the right line",
     model(r'''
#include "Config.h"
#include "TextLinesDetection.h"
int main() {
  auto* d = new PdfDocument("x.pdf"); d->mostFreqFontSize = 10;
  auto* p = page(d); auto* s = new PdfPageSegment(); s->doc = d;
  ppp::config::TextLinesDetectionConfig c; c.logLevel = ppp::utils::log::ERROR;
  ppp::modules::TextLinesDetection t(d, &c);
  std::vector<PdfTextLine*> ls;
  auto* b = block(d, p);
  for (int k = 0; k < 2; k++) {
    auto* l0 = line(d, b); auto* w = word(d, l0, "x"); w->text = "x";
    w->characters[0]->fontSize = 10;
    w->pos->leftX = 100 + 60 * k; w->pos->rightX = 150 + 60 * k; w->pos->pageNum = 1;
    w->pos->upperY = 100 - 5 * k; w->pos->lowerY = 110;
    t.createTextLine({w}, s, &ls);
  }
  t.mergeTextLines(ls[1], ls[0]);
  return ls[0]->pos->upperY == 95 && ls[0]->pos->rightX == 210 && ls[0]->text == "x x" ? 0 : 1;
}'''))

PDF = open("/verif/tools/demo/content.py").read()

seed("C18a", "C18",
     [("src/WordsStatisticsCalculation.cpp",
       "  if (wordHeightCounter.sumCounts() > 0) {\n"
       "    _doc->mostFreqWordHeight = wordHeightCounter.mostFreq();\n  }\n\n"
       "  if (horizontalGapCounter.sumCounts() > 0) {\n",
       "  if (wordHeightCounter.sumCounts() > 0) {\n"
       "    _doc->mostFreqWordHeight = wordHeightCounter.mostFreq();\n  }\n\n"
       "  if (wordHeightCounter.sumCounts() > 1) {\n")],
     "a document must be extracted that has no two words on one line",
     r"""program
python3 "$D/content.py" 'BT /F1 12 Tf 72 700 Td (One) Tj 0 -20 Td (Two) Tj ET' > "$W/a.pdf"
"$W/ppp" --skip-semantic-roles-prediction "$W/a.pdf" "$W/o.txt" 2> /dev/null
""",
     "a document of at least two words, of which no two are on one line",
     "the extraction ends with an exception, nothing is written", {"content.py": PDF})

seed("C18b", "C18",
     [("src/utils/Counter.cpp",
       "  double mostFreq = 0.0;\n  unsigned int mostFreqCount = 0;\n\n"
       "  for (auto it = begin(); it != end(); it++) {\n    if (it->second > mostFreqCount) {",
       "  double mostFreq = 0.0;\n  unsigned int mostFreqCount = 0;\n\n"
       "  for (auto it = begin(); it != end(); it++) {\n    // Ignore outliers.\n"
       "    if (it->second > mostFreqCount && it->first > -1000) {")],
     "a document must be extracted in which all values of a statistic are far below zero",
     r"""program
python3 "$D/content.py" 'BT /F1 12 Tf 72 -2000 Td (Hello) Tj 0 -20 Td (world) Tj ET' > "$W/a.pdf"
"$W/ppp" --skip-semantic-roles-prediction "$W/a.pdf" "$W/o.txt" 2> /dev/null || exit 1
python3 "$D/content.py" 'BT /F1 12 Tf 72 3000 Td (Hello) Tj 0 -20 Td (world) Tj ET' > "$W/a.pdf"
"$W/ppp" --skip-semantic-roles-prediction "$W/a.pdf" "$W/o.txt" 2> /dev/null
""",
     "a statistic in which only values below -1000 were counted, for example baselines of text far "
     "outside of the page",
     "the extraction ends with an exception although values were counted", {"content.py": PDF})

seed("C18c", "C18",
     [("src/PdfParsing.cpp",
       "  if (uLen == 1 && charMap.count(ch->name) > 0) {",
       "  // Ignore suffixes of variants, like in \"angbracketleft.alt\".\n"
       "  if (uLen == 1 && charMap.count(ch->name.substr(0, ch->name.find('.'))) > 0) {")],
     "a variant of a glyph that has an entry in the table of names must not end the extraction",
     r"""program
python3 "$D/content.py" 'BT /F1 12 Tf 72 700 Td (ABC) Tj ET' angbracketleft.alt > "$W/a.pdf"
"$W/ppp" --skip-semantic-roles-prediction "$W/a.pdf" "$W/o.txt" 2> /dev/null
""",
     "a font in which a glyph is called like one with an entry in the table, followed by a suffix",
     "the extraction ends with an exception", {"content.py": PDF})
