import json
E="MAPL_engine/"
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[E+f for f in files],state=state or [],mechanism=[dict(name=a,where=E+b) for a,b in mech],observe_at=observe or [],hook_needed=None))
P=[]
P.append(p("C01","Concurrent checks of shared rules answer as if each ran alone",
"Any number of callers may check different messages against the same loaded rule set at the same time. Every call returns the decision, the per-rule results, the applied-rule indices, the description and the extra data it would have returned had it been the only call ever made.",
["schedules","inputs"],"every interleaving of any number of concurrent Check / Rule.Check / TestConditions calls over one shared rule set, every rule set and message mix, both raw-data representations",
"The repository has no concurrent test at all; every existing test runs one call on one goroutine, so no interleaving is ever exercised.",
["check.go","conditions_tree.go"],[("per-call result slices","check.go: Check"),("prepared copy of a rule is read-only during evaluation","check.go: CheckOneRule"),("node evaluation writes only to its own call's state","conditions_tree.go: evalAny*/evalAll*")],
[dict(name="prepared rule",meaning="regexes, numbers and compiled queries shared by all callers",where=E+"definitions_rule.go")],["return values of Check, CheckOneRule, TestConditions"]))
P.append(p("C02","Concurrent use of one rule set is free of data races",
"Evaluating, translating, describing, validating and lazily preparing one shared rule set from many goroutines, re-binding predefined lists and replacing the global lists meanwhile, performs no two unsynchronised conflicting accesses to memory inside the engine. This covers shared rules and one message shared by several evaluating goroutines; copying a Rule value is an access made by its owner, not by the engine.",
["schedules","inputs"],"every schedule of the public operations on shared rules, shared messages and the global lists",
"go test -race on the present suite sees one goroutine only; whether two accesses are ordered depends on the schedule and on which operations meet.",
["check.go","rules_load.go","conditions_tree.go","rule_mongo_plugin.go"],[("preparation state is published to other goroutines through one synchronised access path","rules_load.go: SetPredefinedStringsAndLists, CheckOneRule"),("evaluation keeps its cursor out of the caller's message","conditions_tree.go: Any.Eval, All.Eval")],
[dict(name="rule preparation state",meaning="already-prepared flag, bound lists, prepared copy",where=E+"definitions_rule.go: Rule"),dict(name="global lists",meaning="process-wide predefined strings and lists",where=E+"rules_load.go")],["race detector reports under the simulated scheduler"]))
P.append(p("C03","First use of a rule from several callers at once is safe and final",
"A rule that was loaded but not yet prepared may be used for the first time by several callers simultaneously, through any evaluating or translating call. Every one of them gets the answer of a rule prepared beforehand, none observes a partly prepared rule, and none crashes, also when preparation is impossible.",
["schedules","inputs"],"every interleaving of first uses of one rule, including rules whose preparation fails",
"Tests prepare or first-use each rule from one goroutine; the window between noticing a rule is unprepared and publishing its prepared form needs a second caller inside it.",
["check.go","rules_load.go","rule_mongo_plugin.go"],[("lazy preparation with the global lists on first use","check.go: CheckOneRule, TestConditions; rule_mongo_plugin.go: ToMongoQuery"),("publish after complete preparation","rules_load.go: SetPredefinedStringsAndLists")],
[dict(name="already-prepared flag and prepared copy",meaning="set once preparation succeeded",where=E+"definitions_rule.go: Rule")],["return values; panics"]))
P.append(p("C04","Re-binding a rule's predefined lists is atomic for concurrent checks",
"While predefined strings and lists of a rule are re-bound, every concurrent check of that rule is answered entirely with the lists bound before or entirely with the new ones, and calls that start after a successful re-binding returned use the new ones. A re-binding that returns an error changes nothing: the rule keeps answering with the lists it was last successfully bound to.",
["schedules","histories","inputs"],"every history of successful and failing re-bindings interleaved with checks on the same rules",
"Tests bind lists once and then check sequentially; they neither check during a re-binding nor after a failed one.",
["rules_load.go","check.go"],[("build the new prepared rule completely, then publish","rules_load.go: SetPredefinedStringsAndLists"),("one snapshot of the prepared rule per evaluation","check.go: CheckOneRule")],
[dict(name="prepared copy",meaning="the rule with lists substituted and compiled",where=E+"definitions_rule.go: Rule")],["decision and extra data per call, linearizability of the recorded history"]))
P.append(p("C05","Global predefined lists: last accepted set wins, bound rules keep theirs",
"Replacing the global predefined lists takes effect wholly or, when it is rejected with an error, not at all; rules without lists of their own are answered with the global lists in force at the time, a rule used through its own methods keeps the lists it was first used with, and a rule with lists of its own is never affected. The lists a caller passes in are never changed by the library, and what is in force is what they contained when they were passed: later changes the caller makes to its own lists have no effect until they are passed again. No sequence of replacements, bindings, loads and checks, concurrent or not, breaks this.",
["histories","schedules","inputs"],"every history of global replacements (accepted and rejected), bindings, first uses and checks",
"Existing tests set the global lists once per test and never observe rejected replacements, later replacements on used rules, or concurrent replacement.",
["rules_load.go","predefined_lists_load.go","check.go"],[("validate before assigning the global","rules_load.go: SetGlobalPredefinedStringsAndLists"),("fallback to the global lists only for unprepared rules","check.go: CheckOneRule, TestConditions")],
[dict(name="global lists",meaning="process-wide defaults",where=E+"rules_load.go: GlobalPredefinedStringsAndLists")],["decision per call against a reference model of the history"]))
P.append(p("C06","Evaluation leaves its inputs untouched and depends on no earlier call",
"Checking, covering, translating, describing or validating never changes the message, its raw data or the rules as their owner can observe them, so one message object may be evaluated repeatedly and by several callers at the same time. The answer to a call depends only on the rule, its lists and the message, never on which calls were made before or are running meanwhile.",
["histories","schedules","inputs"],"every sequence and interleaving of calls over shared message objects and rules, with raw data held in buffers with spare capacity",
"Tests build a fresh message for each assertion and never compare the inputs before and after, nor share one message between goroutines.",
["conditions_tree.go","check.go"],[("relative cursor restored or private per evaluation","conditions_tree.go: evalAnyRawInterface, evalAnyRawBytes, evalAllRawInterface, evalAllRawBytes"),("array extraction works on copies","check.go: getArrayOfJsons")],
[dict(name="relative raw-data cursor",meaning="current element inside ANY/ALL",where=E+"definitions_message.go")],["deep snapshot of message, raw bytes, spare capacity and rules before and after; return values"]))
P.append(p("C07","Answers do not depend on map iteration order or hash seeds",
"For the same rules, lists and message, every run of the program gives the same decisions, per-rule results, hashes, validation verdicts and loaded rules, whatever order the runtime happens to iterate maps in; extra data collected over a list keeps the list's order and extra data collected over an object is the same up to order.",
["inputs","configurations"],"every assignment of map hash seeds and iteration offsets, for every rule set and message",
"Each test process sees one random draw of the iteration order and never repeats a case under a chosen other draw.",
["conditions_tree.go","check.go","definitions_rule.go","predefined_lists_load.go"],[("order-insensitive folds over maps","conditions_tree.go: getAnyAllNode, check.go: ArrangeArrayInterface"),("key/value conditions look at single-entry objects only","check.go: getKeyValueFromInterface, getKeyValue")],None,["return values under simulator-chosen iteration orders"]))
P.append(p("C08","File loaders under I/O faults return the exact content or an error",
"Whatever the operating system does while a rule, message, list or binary file is being opened and read (short reads, interrupted calls, read errors at any offset, missing or unreadable files, a file that shrinks while being read), a loader either returns exactly what the delivered bytes describe or returns an error together with an empty value. It never returns partial or padded data as a success, and transient conditions alone never make it fail.",
["fault_sequences","inputs"],"every sequence of faults on the open, stat, read and close calls of one load, for every file content and size",
"Tests read intact local files; a real file system practically never returns a short read or an I/O error.",
["rules_load.go","messages_load.go","predefined_lists_load.go","tools.go"],[("read whole file, propagate errors, return the zero value on error","rules_load.go: YamlReadRulesFromFile*, messages_load.go: YamlReadMessagesFromFile, predefined_lists_load.go: YamlReadStringListsFromFile, tools.go: ReadBinaryFile")],None,["loader return values"]))
P.append(p("C09","Torn or corrupted policy files never crash the engine",
"Loading rules, lists or messages from text, or rules from their saved JSON or BSON form, that was truncated, overwritten, bit-flipped or mixed with another version either fails with an error and an empty result or gives rules that can be prepared, checked, hashed, translated, validated and described without crashing, exiting or hanging the process. Evaluations of healthy rules running meanwhile are unaffected.",
["fault_sequences","inputs"],"every corruption of every valid policy, message or list file, and every use of whatever was still loaded",
"Tests load a fixed set of about a hundred hand-written files; the damaged variants are unbounded.",
["rules_load.go","conditions_tree.go","definitions_rule.go","validate_conditions.go","messages_load.go","tools.go"],[("parse errors returned, not asserted","conditions_tree.go: InterpretNode, definitions_rule.go: ReadCondition"),("validation before use","validate_conditions.go")],None,["loader return values; panics, process exit, step budget"]))
P.append(p("C10","Corrupted or unexpected message payloads never crash or disturb checks",
"A message whose raw payload is missing, truncated, corrupted, of an unexpected shape or type, or lacks optional attributes is answered with some decision for every rule that loads successfully; it never crashes, exits or hangs the process. Checks of other messages with the same rules, before, during and after, give their normal answers.",
["fault_sequences","inputs","schedules"],"every payload corruption, for every valid rule, interleaved with healthy evaluations",
"Tests pair each rule with payloads made for it; payload shapes a rule did not expect are unbounded and only some are reached with both raw-data representations.",
["check.go","conditions_tree.go","string_utils.go"],[("missing or odd data means 'condition not met'","check.go: testJsonPathCondition, testJsonPathConditionOnInterface, getArrayOfInterfaces, getArrayOfJsons")],None,["panics, process exit, step budget; decisions of healthy messages"]))
P.append(p("C11","Rules restored from their saved form after a crash decide as before",
"At any point of its life, before or after being checked, bound to lists or translated, a rule can be saved as JSON or BSON, or kept as the text it was loaded from, and restored in a new process, and then has the same identity and gives the same decisions and extra data for every message and list binding. Saving neither fails for a rule that was loaded successfully nor changes the rule.",
["crash_points","histories","inputs"],"every point of every history at which the process stops and is restarted from the last saved form",
"Existing tests marshal a few freshly loaded rules and compare text; none saves a rule that has a history or re-evaluates after restoring.",
["definitions_rule.go","conditions_tree.go"],[("original attribute/method/value kept through preparation","definitions_rule.go: Condition.MarshalJSON"),("JSON and BSON forms of the condition tree","conditions_tree.go: MarshalJSON, MarshalBSON, Unmarshal*")],None,["decisions, hashes and extra data before the crash and after the restart"]))
P.append(p("C12","Decisions do not depend on the host's clock, time zone or log sink",
"Checks, loads and time-of-day conditions give the same results whatever the host clock reads or however it jumps, whatever the local time zone is, and whether or not log output can be written. A failing, slow or closed log destination never changes or fails a call.",
["configurations","fault_sequences","inputs"],"every clock value and jump, every local zone, every sequence of log write failures during any workload",
"Tests run with one zone, a sane clock and a working stderr.",
["messages_load.go","check.go"],[("time taken from the message's own timestamp","messages_load.go: AddTimeInfoToMessage"),("logging results ignored","check.go: log calls")],None,["return values under simulated clock, zone and stderr faults"]))
P.append(p("C13","Coverage reports agree with checking each message individually",
"The coverage report of a message list against a rule set states for every message and every rule exactly what checking them individually states: decision, covering rules in order, their decisions, and the covered messages of each rule in order. This holds for rules used for the first time, for repeated and concurrent reports, and while other callers check the same rules.",
["schedules","histories","inputs"],"every interleaving of coverage reports with checks over shared rules, prepared or not",
"No existing test calls the coverage report concurrently or compares it with individual checks over varied inputs.",
["coverage.go","check.go"],[("one Check per message, folded into two maps","coverage.go: Coverage")],None,["both maps returned by Coverage"]))
P.append(p("C14","Results handed to a caller belong to that caller alone",
"Once returned, decisions, index lists, extra data, coverage maps, translated queries and loaded rules, lists and messages never change because of later or concurrent calls. A caller that modifies the containers it received does not influence any other caller's results or any later answer. Values inside extra data that are parts of the caller's own decoded payload remain the caller's payload.",
["histories","schedules","inputs"],"every history in which results are retained, modified by their owner and re-read after any number of other calls",
"Tests assert on a result immediately and drop it.",
["check.go","conditions_tree.go","coverage.go","rule_mongo_plugin.go"],[("fresh slices and maps per call","check.go: Check, getExtraDataFromInterface, getExtraDataFromByteArray")],None,["deep snapshot of every result at return time and at the end of the run"]))
P.append(p("C15","A rule's identity is stable over its whole life",
"The hash and the textual form of a loaded rule stay the same through checking, first use, binding and re-binding of lists (successful or not), translation, validation and restart, are equal for every copy loaded from the same text, and do not depend on the order in which AND/OR terms are written. Rules equal before any of these operations compare equal after them.",
["histories","schedules","inputs"],"every history of operations on a rule between two computations of its identity",
"Tests hash freshly loaded rules only.",
["rules_load.go","conditions_tree.go","definitions_rule.go"],[("preparation works on a copy","rules_load.go: SetPredefinedStringsAndLists, ValidateRule"),("sorted terms and original strings in the textual form","conditions_tree.go: AndOrString, definitions_rule.go: Condition.String")],None,["RuleMD5Hash, RuleMD5HashConditions, String, ConditionsEqual"]))
P.append(p("C16","Every call returns and leaves nothing running",
"Under every schedule, fault and input size in use, each call to the library finishes within a number of its own steps bounded by the size of its inputs; callers never deadlock with each other, also when a binding or load fails half-way. After a call has returned no goroutine started by it remains.",
["schedules","fault_sequences","inputs"],"every schedule of concurrent calls including failing bindings, failing loads and corrupted inputs",
"A single-goroutine test cannot deadlock and does not count goroutines.",
["check.go","rules_load.go"],[("wait for all started work before returning","check.go: Check"),("no lock held across a failing path","rules_load.go: SetPredefinedStringsAndLists")],None,["scheduler quiescence, blocked-task detection, step budget, live goroutine count"]))
P.append(p("C17","Translating a rule to a database query is repeatable and isolated",
"Translating a rule's conditions to a query gives the same query or the same refusal on first use, on every later use and from any number of concurrent callers, for the lists bound to the rule at that time. It neither influences nor is influenced by checks, descriptions and bindings of the rule running before or meanwhile.",
["schedules","histories","inputs"],"every interleaving of translations with checks and bindings of the same rule, prepared or not",
"Existing translation tests compare one fresh translation per rule with a database result.",
["rule_mongo_plugin.go","mongo_plugin.go"],[("lazy preparation then a pure walk of the prepared tree","rule_mongo_plugin.go: ToMongoQuery")],None,["returned query document, compared structurally"]))
P.append(p("C18","Loading depends on nothing but the input being loaded",
"What loading a rule text, a lists text or a message text returns (the rules, their identity and their answers, the lists, the messages, or the error) is determined by that input alone. It does not depend on what was loaded, bound, replaced or checked earlier or is being loaded at the same moment, nor on failures of other loads. Each rule or message of a text is loaded as it would be from a text holding it alone.",
["histories","schedules","inputs"],"every history and interleaving of loads with each other and with checks, bindings and replacements of the global lists, including texts that are alike or fail to load",
"Every test loads one text and looks at it; none compares a load with the same load made alone or loads from two goroutines.",
["rules_load.go","messages_load.go","predefined_lists_load.go"],[("fresh decoding targets for every text","rules_load.go: YamlReadRulesFromString; messages_load.go: YamlReadMessagesFromString"),("no table shared by loads","rules_load.go, messages_load.go")],None,["loaded rules, hashes, answers to probe messages, lists, messages, errors"]))
P.append(p("C19","A copied rule is independent of its original",
"A rule obtained by copying a Rule value, at any point of the original's life (before or after first use or a binding), behaves as a rule of its own: binding lists to the one, successfully or not, and using, describing or translating it changes no answer of the other, in whatever order and from whatever goroutines both are used. Right after the copy both answer alike.",
["histories","schedules","inputs"],"every history of bindings and uses of a rule and its copies, with copies taken before or after preparation",
"Tests never copy a rule and use both.",
["definitions_rule.go","rules_load.go"],[("binding replaces the prepared copy instead of changing it","rules_load.go: SetPredefinedStringsAndLists"),("preparation state is not shared with copies in a way that changes them","definitions_rule.go: Rule")],None,["answers of both rules over the history"]))
P.append(p("C28","Repeated use retains neither memory, open files nor goroutines",
"Repeating the same calls (loads, failing loads, bindings, first uses, checks, coverage reports, translations, from one or several goroutines) with the same inputs and dropping the results does not make the process keep more and more memory, open files or goroutines: after a few repetitions what the library holds no longer grows.",
["histories","schedules","fault_sequences","inputs"],"every mix of calls repeated any number of times, under every schedule and file fault",
"Tests run each call once and never look at what stays behind.",
["check.go","rules_load.go","messages_load.go","coverage.go"],[("nothing reachable from package variables grows with the number of calls","check.go, rules_load.go, messages_load.go"),("files are closed on every path","rules_load.go, messages_load.go: readers of files")],None,["live heap objects and bytes after collection, open file handles, live goroutines, per round"]))
def na(id,title,st,why,files,mech): 
    P.append(p(id,title,st,["inputs"],"every input",why,files,mech))
na("C20","Decision precedence over all applying rules","The overall decision of a check is the strictest of the decisions of the applying rules (block over alert over allow over default), with the first rule having it reported as relevant.","Finite examples cannot cover all combinations of rule outcomes.",["check.go"],[("maximum over results","check.go: Check")])
na("C21","Sender, receiver and resource matching follows the specification","Wildcards, name lists, host names, IP addresses and subnets match exactly the endpoints and resources the MAPL specification says they match.","The string and address space is unbounded.",["string_utils.go","check.go"],[("conversion to anchored expressions","string_utils.go")])
na("C22","Condition operators follow the specification","Each comparison method gives the specified truth value for every attribute value and rule value, including numbers with units, regular expressions, membership and existence.","Finite examples of an unbounded value space.",["check.go","string_utils.go"],[("comparison functions","check.go")])
na("C23","Condition trees follow boolean and quantifier algebra","AND, OR, NOT, ANY and ALL obey De Morgan, vacuous truth and nesting for all trees.","Unbounded trees.",["conditions_tree.go"],[("Eval of nodes","conditions_tree.go")])
na("C24","Byte and object forms of a payload give the same decisions","A payload supplied as JSON text and the same payload supplied as a decoded object are decided alike.","Unbounded payloads.",["check.go"],[("two evaluators","check.go")])
na("C25","Translated queries select exactly the documents the rule matches","A translated database query selects a document exactly when the rule's conditions hold for it.","Unbounded documents; needs a database.",["mongo_plugin.go"],[("ToMongoQuery","mongo_plugin.go")])
na("C26","Validation accepts exactly well-formed rules","A rule passes validation exactly when every condition in it is well formed according to the specification.","Unbounded rule texts.",["validate_conditions.go"],[("ValidateOneCondition","validate_conditions.go")])
na("C27","Different rules have different hashes","Two rules differing in any part relevant to the decision have different hashes.","Unbounded pairs of rules.",["rules_load.go"],[("RuleToString","rules_load.go")])
P.sort(key=lambda x:x["id"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["title"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: print("no jsonschema")
