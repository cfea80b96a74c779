# Findings on the original tree. Fixed entries suppress nothing.
import json
F=[
("4ccf49f",["C04"],"a re-binding that returned an error left the rule without its previous prepared form"),
("cd71b28",["C03","C05","C11","C13","C17"],"first use of a rule that cannot be prepared dereferenced a nil prepared rule"),
("cedfeb1",["C04"],"conditions were tested on a second look-up of the prepared rule, so one check could mix two bindings"),
("47e74b4",["C01","C06","C12"],"ANY and ALL stored their cursor in the caller's message, so callers sharing a message disturbed each other"),
("27846ec",["C06"],"joining several parent jsonpaths appended into the buffer of the message's raw data"),
("d373957",["C10","C04","C09","C14"],"messages without raw data or encryption version crashed the evaluation"),
("71e74ff",["C10","C07"],"raw data of an unexpected shape crashed the evaluation or was answered by map order"),
("2c2c694",["C10"],"comparing a number with a rule value that is not one dereferenced nil"),
("df8a83b",["C09"],"non-string keys or values in a condition crashed the loader"),
("31c930b",["C09","C07"],"ANY, ALL and NOT nodes with no or several conditions crashed, or loaded one chosen by map order"),
("9744edb",["C11"],"empty AND and OR nodes were lost or made invalid JSON when saved"),
("530a28e",["C11"],"conditions with control characters were saved as invalid JSON"),
("3fc1780",["C15","C09"],"describing a rule without conditions crashed"),
("8b3d065",["C08"],"a short read made ReadBinaryFile return zero-padded data as success"),
("1aed879",["C02","C03","C05"],"preparation state of rules and the global lists were read and written without synchronisation"),
("a9edbc7",["C06"],"the exported sender and receiver tests rewrote the type of the rule they were given"),
("6bd0d20",["C04","C05","C11"],"lists bound to a rule after its fields had been converted did not reach its sender and receiver, and such a rule restored from BSON matched everything"),
("639f7f7",["C05"],"the global lists kept using the caller's own map of strings, so what the caller wrote into it later changed answers, also half-way"),
]
with open('known_findings.jsonl','w') as f:
    for c,ps,w in F:
        for p in ps:
            f.write(json.dumps({"entry":"fixed: property=%s %s %s"%(p,c,w),"status":"fixed","property":p,"commit":c,"what":w})+"\n")
