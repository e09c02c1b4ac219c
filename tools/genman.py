import json,subprocess
ids=[f"C{i:02d}" for i in range(1,21)]
have=subprocess.run("grep -ho 'ID: *\"C[0-9]*\"' /verif/mc/checks/*.go | grep -o 'C[0-9]*'",shell=True,capture_output=True,text=True).stdout.split()
tech={
"C01":"bounded-exhaustive enumeration of computation DAGs and back-propagation histories on the real implementation against a reference reverse-mode model",
"C02":"bounded-exhaustive enumeration of operation applications on the real implementation against a reference Jacobian model",
"C03":"bounded-exhaustive enumeration of shapes, broadcast pairs and value letters on the real implementation against a reference model",
"C04":"bounded-exhaustive enumeration of shapes and batch pairs on the real implementation against a reference model",
"C05":"bounded-exhaustive enumeration of shapes, dims and value patterns on the real implementation against a reference model",
"C06":"bounded-exhaustive enumeration of index arguments and breadth-first search over operation sequences on the real implementation against a reference model",
"C07":"bounded-exhaustive enumeration of expansion pairs and programs on the real implementation against a reference model",
"C08":"explicit-state model checking of the gradient-tracking state machine, every model transition replayed on the real implementation",
"C09":"bounded-exhaustive enumeration of the argument space on the real implementation against precondition predicates",
"C10":"bounded-exhaustive enumeration of (call, mutation point, mutation) histories on the real implementation",
"C11":"bounded-exhaustive exploration of training histories on the real implementation against a reference trajectory model",
"C12":"bounded-exhaustive enumeration of loss inputs on the real implementation against a reference model",
"C13":"bounded-exhaustive enumeration of loss graphs on the real implementation against a reference derivative model",
"C14":"bounded-exhaustive enumeration of activation inputs on the real implementation against a reference model",
"C15":"bounded-exhaustive enumeration of activation graphs on the real implementation against a reference derivative model",
"C16":"bounded-exhaustive exploration of layer sizes and parameter-replacement histories on the real implementation against a reference model",
"C17":"bounded-exhaustive enumeration of update inputs and update histories on the real implementation against a reference model",
"C18":"exhaustive enumeration of the answers of a controlled random source driving the real implementation",
"C19":"bounded-exhaustive exploration of accumulation histories on the real implementation against a counter model",
"C20":"preemption-bounded exhaustive exploration of interleavings of the real implementation under a controlled scheduler, with happens-before race detection",
}
note=("Exhaustive within the bounds stated in the evidence file (coverage.bounds); the real code built from /repo is executed on every enumerated case and compared with an independent reference model (mc/ref). Shapes, values and histories outside the bounds are not covered.")
notes={"C07":note+" The explicit Broadcast call is a recorded known finding.","C20":"Two- and three-goroutine programs of the real code under a controlled scheduler and happens-before race detection, within the preemption bound stated in the evidence. Programs that neither synchronise nor write pre-existing memory extend to any number of goroutines (one trace). Accesses by assembly and the Go runtime are not observed."}
m={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[]}
for i in ids:
    if i in have:
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"model checking: "+tech[i],"level":"model_checking","level_note":notes.get(i,note)})
    else:
        m["not_applicable"].append({"property":i,"reason":"check not built yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
