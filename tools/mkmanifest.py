#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the properties and the table below.
import json
LEVEL={ # property: (level, note)
}
T="explicit-state exploration: exhaustive enumeration of %s, run on the real code and compared with %s"
REF="an independent reference implementation"
C={
"C01":("texts (characters, tokens, one and two edits) and of all cursor offsets in them","the answers' well-formedness"),
"C02":("query histories","the answers of fresh analyses"),
"C03":("texts and token neighbourhoods","an independent lexer and resolver"),
"C04":("token sequences, derivations and operator chains","an independent grammar and evaluator"),
"C05":("programs over colliding names and all offsets in them","an independent resolver"),
"C06":("programs over colliding names and all name positions","an independent resolver"),
"C07":("well typed programs and all offsets in them","an independent type checker"),
"C08":("accepted programs up to a size","the allowed outcomes, with the intermediate code verified after each pass"),
"C09":("programs up to a size","an independent type checker"),
"C10":("case lists over data types","an independent coverage checker and evaluator"),
"C11":("accepted programs up to a size","an independent evaluator"),
"C12":("accepted programs up to a size","each other runner"),
"C13":("accepted programs up to a size","the unoptimised program"),
"C14":("data types, values and algebras","an independent evaluator"),
"C15":("collection points, object shapes and sharing","the other runners"),
"C16":("accepted programs up to a size","an independent reader and evaluator of the emitted text"),
"C17":("module systems","an independent resolver and evaluator"),
"C18":("import graphs on disk","a graph model and an independent evaluator"),
"C19":("editing histories","a freshly started server"),
"C20":("texts and positions","a reference UTF-16 line table"),
"C21":("request and notification sequences","the protocol's response rule"),
"C22":("texts","the highlighting tokens"),
"C23":("declaration lists and inputs","a model of the entry point"),
"C24":("arguments","mathematical definitions"),
"C25":("operands and literals","64 bit arithmetic"),
"C26":("programs over colliding names","an independent resolver"),
"C27":("interleavings of concurrent compilations","sequential answers"),
"C28":("command lines, programs and files","a model of exit code, output and files"),
"C29":("intermediate programs, right and wrong, up to a size","an independent type checker and the other runners"),
"C30":("formatter operation sequences","a declarative layout model"),
"C31":("tree builder operation sequences","a model tree"),
}
NOTE="exhaustive within the bounds printed in the evidence file; decided by executing the real code on every enumerated case; larger inputs are not covered"
import subprocess,sys
HOOKS=subprocess.run(['git','-C','/repo','log','--grep=^hook:','--format=%H','--reverse'],capture_output=True,text=True).stdout.split()
claimed=sys.argv[1:]
props=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
checks=[]
na=[]
for p in props:
    if p in claimed:
        checks.append({"property":p,"quick_cmd":f"./run.sh {p}","thorough_cmd":f"./run.sh {p} --thorough","evidence_file":f"evidence/{p}.json","technique":T%C[p],"level":"model_checking","level_note":NOTE})
    else:
        na.append({"property":p,"reason":"model checking applies, the check is still being built"})
json.dump({"version":1,"setup_cmd":"bash harness/build.sh --bins --keep-going; test -x target/release/mc","hooks":{"guard":"cfg(tic_mc)","enable":"RUSTFLAGS=\"--cfg tic_mc\", set by harness/build.sh for the harness build only","source_commits":HOOKS},"checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
