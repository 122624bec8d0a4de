# Helpers of the demonstrations. Run in /repo after the build; D is the folder of the demonstration.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
R=$(pwd)
FLAGS="-std=c++20 -O0 -w -fno-access-control -include algorithm -include cstring -I/usr/include/poppler -I$D -I$R/src"
LIBS="-lpoppler -lutf8proc -lboost_program_options"
OBJS=$(find "$R/build/src" -name '*.o' ! -name 'pdftotext++.o' ! -name 'PdfToTextPlusPlus.o' \
  ! -name 'ReadingOrderDetection.o' ! -name 'SemanticRolesPrediction.o')

# rest: the three files the build leaves out (they need the header of cppflow, a stand-in lies here)
rest() {
  local f p=()
  for f in PdfToTextPlusPlus ReadingOrderDetection SemanticRolesPrediction; do
    g++ $FLAGS -DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR='"resources/models/2021-08-30_model-3K-documents"' \
      -c "$R/src/$f.cpp" -o "$W/$f.o" & p+=($!)
  done
  for f in "${p[@]}"; do wait "$f" || exit 99; done
}
# program: the whole program as $W/ppp
program() {
  rest &
  g++ $FLAGS -DPROGRAM_NAME='"pdftotext++"' -DPROGRAM_DESCRIPTION='"d"' -DPROGRAM_USAGE='"u"' \
    -DVERSION='"1"' -DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR='"resources/models/2021-08-30_model-3K-documents"' \
    -c "$R/src/pdftotext++.cpp" -o "$W/main.o" || exit 99
  wait $! || exit 99
  g++ -o "$W/ppp" "$W/main.o" "$W"/{PdfToTextPlusPlus,ReadingOrderDetection,SemanticRolesPrediction}.o \
    $OBJS $LIBS || exit 99
}
# unit FILE [rest]: compile FILE against the objects of the build as $W/unit
unit() {
  local x=""
  if [ "$2" = rest ]; then rest; x="$W/PdfToTextPlusPlus.o $W/ReadingOrderDetection.o $W/SemanticRolesPrediction.o"; fi
  g++ $FLAGS -o "$W/unit" "$D/$1" $x $OBJS $LIBS || exit 99
}
