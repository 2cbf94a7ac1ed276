"""mkseed(id, prop, [(file, old, new, count)], demo_sh or cpp, needs, breaks)"""
import os, subprocess, json
DEMO_SH = '''#!/bin/bash
# usage: cwd is the built repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=gnu++14 -w -O0 -include iostream -include algorithm %(flags)s -I$R -I$R/common -I$R/utf8 -I$R/utf8case -I$R/fex/fex %(incs)s \\
  "$D/demo.cpp" -o $T/demo -L$R/build/common -lpsitoolkit_common %(libs)s -lboost_filesystem -lboost_system -Wl,--no-as-needed -lboost_program_options -lpcrecpp -llog4cpp -Wl,--unresolved-symbols=ignore-in-shared-libs \\
  -Wl,-rpath,$R/build/common %(rpath)s || exit 1
cd $T && LD_LIBRARY_PATH=$R/build/common:$R/build/framework:$R/build/fex:$R/build/uchardet:$R/build/maxent timeout 60 ./demo
'''
def mkseed(id, prop, edits, cpp, needs, breaks, flags="", incs="", libs="", rpath="", demo_sh=None):
    assert subprocess.run("git -C /repo status --porcelain -uno",shell=True,capture_output=True,text=True).stdout=="" , "dirty"
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    try:
        for f,a,b in edits:
            p="/repo/"+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,"w").write(s.replace(a,b))
        diff=subprocess.run("git -C /repo diff",shell=True,capture_output=True,text=True).stdout
        open(d+"/patch.diff","w").write(diff)
    finally:
        subprocess.run("git -C /repo checkout -- .",shell=True)
    if cpp: open(d+"/demo.cpp","w").write(cpp)
    open(d+"/demo.sh","w").write(demo_sh or DEMO_SH%dict(flags=flags,incs=incs,libs=libs,rpath=rpath))
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
SERVER_SH = '''#!/bin/bash
# usage: cwd is the built repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD
cat > $T/stub.cpp <<'E'
E
S="$R/server/server/request_parser.cpp $R/server/server/request_handler.cpp $R/server/server/mime_types.cpp $R/server/server/reply.cpp $R/server/server/connection.cpp $R/server/server/server.cpp $R/server/psi_server.cpp $R/server/psi_request_handler.cpp $R/server/session.cpp $R/server/session_manager.cpp $R/server/mpfd-parser/Parser.cpp $R/server/mpfd-parser/Field.cpp $R/server/mpfd-parser/Exception.cpp"
i=0; P=""
for f in "$D/demo.cpp" $S; do
  i=$((i+1)); g++ -std=gnu++14 -w -O0 -include iostream -include algorithm -fno-access-control -I$R -I$R/common -I$R/utf8 -I$R/fex/fex -I$R/server -I$R/server/server -I$R/server/mpfd-parser -c $f -o $T/$i.o & P="$P $!"
done
for p in $P; do wait $p || exit 1; done
g++ $T/*.o -o $T/demo -L$R/build/common -lpsitoolkit_common -lboost_thread -lboost_filesystem -lboost_system -Wl,--no-as-needed -lboost_program_options -lpcrecpp -llog4cpp -lmagic -lpthread -Wl,--unresolved-symbols=ignore-in-shared-libs -Wl,-rpath,$R/build/common || exit 1
cd $T && LD_LIBRARY_PATH=$R/build/common:$R/build/fex timeout 100 ./demo
'''
