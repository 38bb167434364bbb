#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what": store the diff of /tmp/sw as a planted bug; demo.cpp is read from stdin
d=/verif/seeded/$1; mkdir -p $d; git -C /tmp/sw diff > $d/patch.diff; git -C /tmp/sw checkout -q -- .
python3 -c "import json,sys; json.dump(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),open('$d/meta.json','w'),indent=1)" "$2" "$3" "$4"
cat > $d/demo.cpp
cat > $d/demo.sh <<'S'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); R=$PWD; t=$(mktemp -d); cd "$t"
I="-I$R -I$R/include -I$R/include/utils -I$R/include/database -I$R/include/operations -I$R/include/flow -I$R/cli -I$R/cli/command"
for l in kitty/include fmt lorina rang abcsat json args alice/include alice/lib/cli11 . percy parallel_hashmap; do I="$I -I$R/libs/$l"; done
g++ -std=c++17 -O0 -g -w -fsanitize=address -fopenmp -DFMT_HEADER_ONLY -DDISABLE_NAUTY -DLIN64 -DABC_NAMESPACE=pabc -DABC_NO_USE_READLINE $I "$here/demo.cpp" -o demo || { cd /; rm -rf "$t"; exit 99; }
ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo; r=$?; cd /; rm -rf "$t"; exit $r
S
