From 4ccf49f42ef3f798aec3f5cb463e4ba2fa0e42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:45 +0000
Subject: [PATCH 01/18] fix: keep the previous binding of a rule when
 re-binding its lists fails

---
 MAPL_engine/rules_load.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index c92017f..b2e1d68 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -63,22 +63,20 @@ func YamlReadRulesFromFile(filename string) (Rules, error) {
 
 func (rule *Rule) SetPredefinedStringsAndLists(stringsAndlists PredefinedStringsAndLists) error {
 
-	rule.ruleAlreadyPrepared = false
-
 	var ruleCopy Rule
 	err := deepcopy.Copy(&ruleCopy, rule)
 	if err != nil {
 		return err
 	}
 
-	rule.predefinedStringsAndLists = stringsAndlists
-
-	err = PrepareOneRuleWithPredefinedStrings(&ruleCopy, rule.predefinedStringsAndLists)
+	err = PrepareOneRuleWithPredefinedStrings(&ruleCopy, stringsAndlists)
 	if err != nil {
 		return err
 	}
 
+	// nothing of the rule is changed before the preparation succeeded
 	ruleCopy.ruleAlreadyPrepared = true
+	rule.predefinedStringsAndLists = stringsAndlists
 	rule.preparedRule = &ruleCopy
 	rule.ruleAlreadyPrepared = true
 
-- 
2.43.0


From cd71b2893209ba2fa660d476f1a7ca51ca548367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:45 +0000
Subject: [PATCH 02/18] fix: do not crash on first use of a rule that can't be
 prepared

---
 MAPL_engine/check.go             | 12 ++++++++++--
 MAPL_engine/rule_mongo_plugin.go |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e0f5817..eb3ed1b 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -101,7 +101,11 @@ func Check(message *MessageAttributes, rules *Rules) (decision int, descisionStr
 func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[string]interface{}) {
 
 	if !ruleOriginal.ruleAlreadyPrepared {
-		ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			log.Printf("can't prepare rule %v: %v", ruleOriginal.RuleID, err)
+			return DEFAULT, []map[string]interface{}{}
+		}
 	}
 	rule := ruleOriginal.preparedRule // the prepared rule is the one used below!
 	// ----------------------
@@ -248,7 +252,11 @@ func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 func TestConditions(rule *Rule, message *MessageAttributes) (bool, []map[string]interface{}) { // to-do return error
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
+		if err != nil {
+			log.Printf("can't prepare rule %v: %v", rule.RuleID, err)
+			return false, []map[string]interface{}{}
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree != nil {
diff --git a/MAPL_engine/rule_mongo_plugin.go b/MAPL_engine/rule_mongo_plugin.go
index a11265d..43abe2e 100644
--- a/MAPL_engine/rule_mongo_plugin.go
+++ b/MAPL_engine/rule_mongo_plugin.go
@@ -17,7 +17,10 @@ type MaplToMongoResult struct {
 func (rule *Rule) ToMongoQuery(parentField string) (MaplToMongoResult, error) {
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			return MaplToMongoResult{"", nil}, err
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree == nil {
-- 
2.43.0


From cedfeb1339c7dabbc281888235d57ed0afcee2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:45 +0000
Subject: [PATCH 03/18] fix: test the conditions of the same prepared rule as
 sender, receiver and resource

---
 MAPL_engine/check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index eb3ed1b..97f4f99 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -156,7 +156,7 @@ func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[st
 	conditionsResult := true // if there are no conditions then we skip the test and return the rule.Decision
 	extraData := []map[string]interface{}{}
 	if rule.Conditions.ConditionsTree != nil {
-		conditionsResult, extraData = TestConditions(ruleOriginal, message) // using original rule here. using prepared rule inside.
+		conditionsResult, extraData = rule.Conditions.ConditionsTree.Eval(message) // the same prepared rule as above
 	}
 	if conditionsResult == false {
 		return DEFAULT, []map[string]interface{}{}
-- 
2.43.0


From 47e74b44ff38abe5d5ed385e47c66b49ef3ffca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:45 +0000
Subject: [PATCH 04/18] fix: do not change the message while evaluating ANY and
 ALL nodes

---
 MAPL_engine/conditions_tree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 9533e86..250750d 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -292,6 +292,8 @@ func (a *Any) Eval(message *MessageAttributes) (bool, []map[string]interface{})
 }
 
 func evalAnyRawInterface(a *Any, message *MessageAttributes) (bool, []map[string]interface{}) {
+	messageCopy := *message // the relative data is set below. the caller's message must not be changed
+	message = &messageCopy
 
 	rawArrayData, err := getArrayOfInterfaces(a, message)
 	if err != nil {
@@ -327,6 +329,8 @@ func evalAnyRawInterface(a *Any, message *MessageAttributes) (bool, []map[string
 	return result, extraData
 }
 func evalAnyRawBytes(a *Any, message *MessageAttributes) (bool, []map[string]interface{}) {
+	messageCopy := *message // the relative data is set below. the caller's message must not be changed
+	message = &messageCopy
 
 	rawArrayData, err := getArrayOfJsons(a, message)
 	if err != nil {
@@ -502,6 +506,8 @@ func (a *All) Eval(message *MessageAttributes) (bool, []map[string]interface{})
 	}
 }
 func evalAllRawInterface(a *All, message *MessageAttributes) (bool, []map[string]interface{}) {
+	messageCopy := *message // the relative data is set below. the caller's message must not be changed
+	message = &messageCopy
 
 	rawArrayData, err := getArrayOfInterfaces(a, message)
 	if err != nil {
@@ -526,6 +532,8 @@ func evalAllRawInterface(a *All, message *MessageAttributes) (bool, []map[string
 }
 
 func evalAllRawBytes(a *All, message *MessageAttributes) (bool, []map[string]interface{}) {
+	messageCopy := *message // the relative data is set below. the caller's message must not be changed
+	message = &messageCopy
 	rawArrayData, err := getArrayOfJsons(a, message)
 	if err != nil {
 		return false, []map[string]interface{}{}
-- 
2.43.0


From 27846eca2fb424eafafec58db25588c2e8c1cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:29 +0000
Subject: [PATCH 05/18] fix: do not overwrite the raw data of the message when
 joining several parent jsonpaths

---
 MAPL_engine/check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 97f4f99..ed14381 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -994,7 +994,7 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 		}
 		if err == nil {
 			if len(arrayData) == 0 {
-				arrayData = arrayDataTemp
+				arrayData = append([]byte{}, arrayDataTemp...) // may be a part of the raw data of the message
 			} else {
 				if len(arrayDataTemp) != 0 {
 					arrayData = append(arrayData, ',')
-- 
2.43.0


From d373957b0e90e4d159116088daaaef44b56eddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:05 +0000
Subject: [PATCH 06/18] fix: do not crash on messages without raw data or
 encryption version

---
 MAPL_engine/check.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index ed14381..6a24cb4 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -311,6 +311,9 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 		}
 
 	case ("encryptionVersion"):
+		if message.EncryptionVersion == nil {
+			return false, []map[string]interface{}{}
+		}
 		valueToCompareFloat = *message.EncryptionVersion
 		result = compareFloatFunc(valueToCompareFloat, c.Method, c.ValueFloat)
 
@@ -364,6 +367,9 @@ func getExtraDataFromInterface(preparedReturnValueJsonpathQueryMap map[string]js
 	extraDataTemp := make(map[string]interface{})
 
 	for queryName, preparedQuery := range preparedReturnValueJsonpathQueryMap {
+		if preparedReturnValueJsonpathQueryRelativeFlag[queryName] && message.RequestRawInterfaceRelative == nil {
+			continue
+		}
 		if returnValueJsonpathMap[queryName] == "$*" {
 			if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
 				extraDataTemp[queryName] = *message.RequestRawInterfaceRelative
@@ -398,11 +404,14 @@ func getExtraDataFromByteArray(returnValueJsonpathMap map[string]string, returnV
 	for queryName, queryString := range returnValueJsonpathMap {
 		var extraDataBytes []byte
 
+		jsonRaw := message.RequestJsonRaw
 		if returnValueJsonpathQueryRelativeFlag[queryName] {
-			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRawRelative, queryString)
-		} else {
-			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRaw, queryString)
+			jsonRaw = message.RequestJsonRawRelative
 		}
+		if jsonRaw == nil {
+			continue
+		}
+		extraDataBytes, _ = jsonslice.Get(*jsonRaw, queryString)
 
 		var tempInterface interface{}
 		err := json.Unmarshal(extraDataBytes, &tempInterface)
@@ -905,6 +914,9 @@ func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface
 	parentJsonpath := a.GetParentJsonpathAttribute()
 	if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
 
+		if message.RequestRawInterfaceRelative == nil {
+			return []interface{}{}, errors.New("no relative raw data in message")
+		}
 		if parentJsonpath == "$RELATIVE*" {
 			var temp []interface{}
 			xx := (*message).RequestRawInterfaceRelative
@@ -988,8 +1000,14 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 			if parentJsonpath == "$RELATIVE*" {
 				parentJsonpath = "$*"
 			}
+			if message.RequestJsonRawRelative == nil {
+				return [][]byte{}, errors.New("no relative raw data in message")
+			}
 			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRawRelative, parentJsonpath)
 		} else {
+			if message.RequestJsonRaw == nil {
+				return [][]byte{}, errors.New("no raw data in message")
+			}
 			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
 		}
 		if err == nil {
-- 
2.43.0


From 71e74ff3605941718dffdbea5dd59386c087f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:49 +0000
Subject: [PATCH 07/18] fix: treat raw data of an unexpected shape as an empty
 result instead of crashing

---
 MAPL_engine/check.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 6a24cb4..5eef4cf 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -716,9 +716,12 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interface{}, error) {
 	var valueToCompareInterface interface{}
 	var err error
+	xx := (*message).RequestRawInterfaceRelative
+	yy, ok := (*xx).(map[string]interface{})
+	if !ok || len(yy) != 1 {
+		return valueToCompareInterface, err // an empty result, as in getKeyValue
+	}
 	if c.AttributeJsonpathQuery == "$KEY" {
-		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
 		for k := range yy {
 			valueToCompareInterface = k
 			err = nil
@@ -726,8 +729,6 @@ func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interfa
 		}
 	} else {
 
-		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
 		for _, v := range yy {
 			if c.AttributeJsonpathQuery == "$VALUE" {
 				valueToCompareInterface = v
@@ -920,7 +921,7 @@ func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface
 		if parentJsonpath == "$RELATIVE*" {
 			var temp []interface{}
 			xx := (*message).RequestRawInterfaceRelative
-			yy := (*xx).(map[string]interface{})
+			yy, _ := (*xx).(map[string]interface{}) // there are no elements if this is not an object
 			for k, v := range yy {
 				zz := make(map[string]interface{}, 1)
 				zz[k] = v
@@ -968,7 +969,7 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 		if arrayDataInterface == nil {
 			return []interface{}{}
 		}
-		tempArray := arrayDataInterface.([]interface{})
+		tempArray, _ := arrayDataInterface.([]interface{}) // there are no elements if this is not an array
 		tempArrayOut := []interface{}{}
 		for _, x := range tempArray {
 			switch x.(type) {
@@ -1132,6 +1133,9 @@ func getArrayFromArrayOfArrays(arrayData []byte) ([]byte, error) {
 	*/
 
 	arrayDataNew := pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
+	if len(arrayDataNew) < 2 {
+		return arrayDataNew, nil
+	}
 
 	if arrayDataNew[0] != '[' || arrayDataNew[1] != '[' {
 		return arrayDataNew, nil
-- 
2.43.0


From 2c2c6948bec08c930029ecc1627c841d422ce08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:12 +0000
Subject: [PATCH 08/18] fix: do not crash when comparing a number with a rule
 value that isn't one

---
 MAPL_engine/check.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 5eef4cf..453716b 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -807,6 +807,14 @@ func getAttribute(sender_receiver, attribute string, message MessageAttributes)
 
 // compareIntFunc compares one int value according the method string.
 func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2 is the reference value from the rule
+	if value2 == nil { // the value of the rule is not a number
+		switch method {
+		case "NEQ", "neq", "ne", "NE":
+			return true
+		}
+		return false
+	}
+
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
@@ -826,6 +834,14 @@ func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2
 
 // compareFloatFunc compares one float value according the method string.
 func compareFloatFunc(value1 float64, method string, value2 *float64) bool { //value2 is the reference value from the rule
+	if value2 == nil { // the value of the rule is not a number
+		switch method {
+		case "NEQ", "neq", "ne", "NE":
+			return true
+		}
+		return false
+	}
+
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
-- 
2.43.0


From df8a83b63d9f353ca3d9d75632213dececfda5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:42 +0000
Subject: [PATCH 09/18] fix: do not crash when keys or values of conditions are
 not strings

---
 MAPL_engine/conditions_tree.go  | 6 +++---
 MAPL_engine/definitions_rule.go | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 250750d..aae7f79 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -841,7 +841,7 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
-			parentJsonpathAttribute := val.(string)
+			parentJsonpathAttribute := fmt.Sprintf("%v", val)
 			if isValidParentJsonpathAttribute(parentJsonpathAttribute) {
 				anyAllNode.SetParentJsonpathAttribute(parentJsonpathAttribute)
 			} else {
@@ -860,7 +860,7 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 
 			returnValueJsonpathMap := map[string]string{}
 			for k, v := range returnValueJsonpath {
-				vString := v.(string)
+				vString := fmt.Sprintf("%v", v)
 				if strings.HasPrefix(vString, "jsonpath:$RELATIVE") {
 					returnValueJsonpathMap[k] = vString
 				} else {
@@ -925,7 +925,7 @@ func isValidParentJsonpathAttribute(parentJsonpathAttribute string) bool {
 func mapInterfaceToMapString(node map[interface{}]interface{}) map[string]interface{} {
 	node_out := make(map[string]interface{})
 	for k, val := range node {
-		node_out[k.(string)] = val
+		node_out[fmt.Sprintf("%v", k)] = val
 	}
 	return node_out
 }
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index b433801..d00387d 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -170,10 +170,10 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 	for k, val := range v {
 		switch k {
 		case "attribute", "Attribute":
-			c.Attribute = val.(string)
+			c.Attribute = fmt.Sprintf("%v", val)
 
 		case "method", "Method":
-			c.Method = val.(string)
+			c.Method = fmt.Sprintf("%v", val)
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
@@ -184,12 +184,12 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 			case map[string]interface{}:
 				val2 := val.(map[string]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk] = vv.(string)
+					c.ReturnValueJsonpath[kk] = fmt.Sprintf("%v", vv)
 				}
 			case map[interface{}]interface{}:
 				val2 := val.(map[interface{}]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk.(string)] = vv.(string)
+					c.ReturnValueJsonpath[fmt.Sprintf("%v", kk)] = fmt.Sprintf("%v", vv)
 				}
 			}
 		}
-- 
2.43.0


From 31c930bd3fc8f30e233fbeaf77848d3909179620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:42 +0000
Subject: [PATCH 10/18] fix: refuse ANY, ALL and NOT nodes without exactly one
 condition

---
 MAPL_engine/conditions_tree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index aae7f79..d767ce7 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -838,6 +838,7 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 		anyAllNode = &All{}
 	}
 
+	numberOfConditions := 0
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
@@ -874,8 +875,12 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 				return nil, err
 			}
 			anyAllNode.Append(node)
+			numberOfConditions += 1
 		}
 	}
+	if numberOfConditions != 1 {
+		return nil, fmt.Errorf("ANY/ALL node should have exactly one condition")
+	}
 	if anyAllNode.GetParentJsonpathAttribute() == "" {
 		return nil, fmt.Errorf("parentJsonpathAttribute is missing")
 	}
@@ -956,6 +961,9 @@ func prepareOneConditionNode(cond ConditionNode) (Node, error) {
 
 func handleInterfaceArray(node interface{}, parentString string) (Node, error) {
 	v2 := node.([]interface{})
+	if parentString == "NOT" && len(v2) == 0 {
+		return nil, fmt.Errorf("NOT node without a condition")
+	}
 	nodes, err := getNodeByParentString(parentString)
 
 	if err != nil {
-- 
2.43.0


From 9744edbfb7ab6bd43d30b47aec8069697a96a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:42 +0000
Subject: [PATCH 11/18] fix: keep empty AND and OR nodes when saving and
 preparing rules

---
 MAPL_engine/conditions_tree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index d767ce7..750b76b 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -119,7 +119,7 @@ type AnyAllNode interface {
 // And Node
 //--------------------------------------
 type And struct {
-	Nodes []Node `yaml:"AND,omitempty" json:"AND,omitempty" bson:"AND,omitempty" structs:"AND,omitempty"`
+	Nodes []Node `yaml:"AND,omitempty" json:"AND" bson:"AND,omitempty" structs:"AND,omitempty"`
 }
 
 func (a *And) Eval(message *MessageAttributes) (bool, []map[string]interface{}) {
@@ -180,7 +180,7 @@ func AndOrString(a_nodes []Node, andOrStr string) string {
 // Or Node
 //--------------------------------------
 type Or struct {
-	Nodes []Node `yaml:"OR,omitempty" json:"OR,omitempty" bson:"OR,omitempty" structs:"OR,omitempty"`
+	Nodes []Node `yaml:"OR,omitempty" json:"OR" bson:"OR,omitempty" structs:"OR,omitempty"`
 }
 
 func (o *Or) Eval(message *MessageAttributes) (bool, []map[string]interface{}) {
@@ -983,10 +983,10 @@ func getNodeByParentString(parentString string) (Node, error) {
 	switch parentString {
 
 	case "AND":
-		return &And{}, nil
+		return &And{Nodes: []Node{}}, nil
 
 	case "OR":
-		return &Or{}, nil
+		return &Or{Nodes: []Node{}}, nil
 
 	case "NOT":
 		return &Not{}, nil
-- 
2.43.0


From 530a28e81eca4ae1f069068e5117cd07eddddb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:42 +0000
Subject: [PATCH 12/18] fix: escape all special characters when saving
 conditions as json

---
 MAPL_engine/conditions_tree.go  |  4 ++--
 MAPL_engine/definitions_rule.go | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 750b76b..ff76bc1 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -268,7 +268,7 @@ func (a *Any) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":%v,`, quoteJson(parentJsonpathAttributeString))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath": %v,`, str, string(returnValueJsonpathJson))
@@ -483,7 +483,7 @@ func (a *All) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":%v,`, quoteJson(parentJsonpathAttributeString))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath":%v,`, str, string(returnValueJsonpathJson))
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index d00387d..6aaa281 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -287,8 +287,6 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalAttribute) > 0 {
 		attributeString = c.OriginalAttribute
 	}
-	attributeString = strings.Replace(attributeString, "\\", "\\\\", -1)
-	attributeString = strings.Replace(attributeString, "\"", "\\\"", -1)
 
 	methodString := c.Method
 	if len(c.OriginalMethod) > 0 {
@@ -299,19 +297,23 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalValue) > 0 {
 		valueString = c.OriginalValue
 	}
-	valueString = strings.Replace(valueString, "\\", "\\\\", -1)
-	valueString = strings.Replace(valueString, "\"", "\\\"", -1)
 
 	returnValueJsonpath := c.ReturnValueJsonpath
 	if len(c.ReturnValueJsonpathOriginal) > 0 {
 		returnValueJsonpath = c.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v"}}`, attributeString, methodString, valueString)
+	str := fmt.Sprintf(`{"condition":{"attribute":%v,"method":%v,"value":%v}}`, quoteJson(attributeString), quoteJson(methodString), quoteJson(valueString))
 
 	if returnValueJsonpath != nil {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
-		str = fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v","returnValueJsonpath":%v}}`, attributeString, methodString, valueString, string(returnValueJsonpathJson))
+		str = fmt.Sprintf(`{"condition":{"attribute":%v,"method":%v,"value":%v,"returnValueJsonpath":%v}}`, quoteJson(attributeString), quoteJson(methodString), quoteJson(valueString), string(returnValueJsonpathJson))
 	}
 	return []byte(str), nil
 }
+
+// quoteJson returns the string as a json string (with the quotation marks)
+func quoteJson(str string) string {
+	quoted, _ := json.Marshal(str)
+	return string(quoted)
+}
-- 
2.43.0


From 3fc17808cac7d20f59c985739aa9a27814e5120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:42 +0000
Subject: [PATCH 13/18] fix: do not crash when describing a rule without
 conditions

---
 MAPL_engine/tools.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/tools.go b/MAPL_engine/tools.go
index 9a57538..e901df6 100644
--- a/MAPL_engine/tools.go
+++ b/MAPL_engine/tools.go
@@ -158,7 +158,9 @@ func GetRuleStrings(r *Rule) RuleStrings {
 		output.DecisionString = r.Decision
 	}
 
-	output.ConditionsString = r.Conditions.ConditionsTree.String()
+	if r.Conditions.ConditionsTree != nil {
+		output.ConditionsString = r.Conditions.ConditionsTree.String()
+	}
 
 	return output
 }
-- 
2.43.0


From 8b3d065f238683daff4a2e1b6b91a3bc55b6150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:42 +0000
Subject: [PATCH 14/18] fix: read binary files completely or return an error

---
 MAPL_engine/tools.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/tools.go b/MAPL_engine/tools.go
index e901df6..eff541d 100644
--- a/MAPL_engine/tools.go
+++ b/MAPL_engine/tools.go
@@ -3,6 +3,7 @@ package MAPL_engine
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"net"
 	"os"
 	"regexp"
@@ -206,6 +207,9 @@ func ReadBinaryFile(filename string) ([]byte, error) {
 
 	// read into buffer
 	buffer := bufio.NewReader(file)
-	_, err = buffer.Read(bytes)
-	return bytes, err
+	_, err = io.ReadFull(buffer, bytes) // a single read may return less than the whole file
+	if err != nil {
+		return nil, err
+	}
+	return bytes, nil
 }
-- 
2.43.0


From 1aed879c90135b449dd7029cf5f04c6db021cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:35 +0000
Subject: [PATCH 15/18] fix: guard the prepared rules and the global lists
 against concurrent use

---
 MAPL_engine/check.go             | 48 ++++++++++++++++--------
 MAPL_engine/coverage.go          |  4 +-
 MAPL_engine/rule_mongo_plugin.go | 12 +++---
 MAPL_engine/rules_load.go        | 64 +++++++++++++++++++++++++++++---
 4 files changed, 97 insertions(+), 31 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 453716b..a029070 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -65,8 +65,9 @@ func Check(message *MessageAttributes, rules *Rules) (decision int, descisionStr
 
 	} else { // used only for debugging
 
-		for in_i, in_rule := range rules.Rules {
-			results[in_i], checkExtraData[in_i] = CheckOneRule(message, &in_rule)
+		for in_i := range rules.Rules {
+			in_rule := &rules.Rules[in_i]
+			results[in_i], checkExtraData[in_i] = checkOneOfManyRules(message, in_rule)
 			if desc, ok := in_rule.Metadata["description"]; ok {
 				ruleDescriptions[in_i] = desc
 			} else {
@@ -97,17 +98,34 @@ func Check(message *MessageAttributes, rules *Rules) (decision int, descisionStr
 	return decision, descisionString, relevantRuleIndex, results, appliedRulesIndices, ruleDescription, checkExtraData
 }
 
-// CheckOneRules gives the result of testing the message attributes with of one rule
-func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[string]interface{}) {
+// checkOneOfManyRules is CheckOneRule but the rule does not keep the global predefined strings and lists
+func checkOneOfManyRules(message *MessageAttributes, rule *Rule) (int, []map[string]interface{}) {
 
-	if !ruleOriginal.ruleAlreadyPrepared {
-		err := ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+	preparedRule, globalStringsAndLists := rule.getPreparedRuleAndGlobal()
+	if preparedRule == nil {
+		var err error
+		preparedRule, err = rule.prepareCopy(globalStringsAndLists) // use the global if not set already
 		if err != nil {
-			log.Printf("can't prepare rule %v: %v", ruleOriginal.RuleID, err)
+			log.Printf("can't prepare rule %v: %v", rule.RuleID, err)
 			return DEFAULT, []map[string]interface{}{}
 		}
 	}
-	rule := ruleOriginal.preparedRule // the prepared rule is the one used below!
+	return checkPreparedRule(message, preparedRule)
+}
+
+// CheckOneRules gives the result of testing the message attributes with of one rule
+func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[string]interface{}) {
+
+	rule, err := ruleOriginal.getOrPrepareRule() // the prepared rule is the one used below!
+	if err != nil {
+		log.Printf("can't prepare rule %v: %v", ruleOriginal.RuleID, err)
+		return DEFAULT, []map[string]interface{}{}
+	}
+	return checkPreparedRule(message, rule)
+}
+
+func checkPreparedRule(message *MessageAttributes, rule *Rule) (int, []map[string]interface{}) {
+
 	// ----------------------
 	// compare basic message attributes:
 
@@ -251,16 +269,14 @@ func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 // testConditions tests the conditions of the rule with the message attributes
 func TestConditions(rule *Rule, message *MessageAttributes) (bool, []map[string]interface{}) { // to-do return error
 
-	if !rule.ruleAlreadyPrepared {
-		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
-		if err != nil {
-			log.Printf("can't prepare rule %v: %v", rule.RuleID, err)
-			return false, []map[string]interface{}{}
-		}
+	preparedRule, err := rule.getOrPrepareRule()
+	if err != nil {
+		log.Printf("can't prepare rule %v: %v", rule.RuleID, err)
+		return false, []map[string]interface{}{}
 	}
 
-	if rule.preparedRule.Conditions.ConditionsTree != nil {
-		return rule.preparedRule.Conditions.ConditionsTree.Eval(message)
+	if preparedRule.Conditions.ConditionsTree != nil {
+		return preparedRule.Conditions.ConditionsTree.Eval(message)
 	}
 	return false, []map[string]interface{}{}
 
diff --git a/MAPL_engine/coverage.go b/MAPL_engine/coverage.go
index f14c0ec..01825e5 100644
--- a/MAPL_engine/coverage.go
+++ b/MAPL_engine/coverage.go
@@ -18,10 +18,10 @@ func Coverage(messages *Messages, rules *Rules) (messageCoverage map[string]Mess
 	ruleCoverage = make(map[string][]string)
 
 	emptyVec := []string{}
-	for _, rule := range rules.Rules {
+	for i_rule := range rules.Rules {
 		//rc := RuleCoverage{rule.RuleID, false, emptyVec}
 		//ruleCoverage = append(ruleCoverage, rc)
-		ruleCoverage[rule.RuleID] = emptyVec
+		ruleCoverage[rules.Rules[i_rule].RuleID] = emptyVec
 	}
 
 	messageCoverage = make(map[string]MessageCoverage)
diff --git a/MAPL_engine/rule_mongo_plugin.go b/MAPL_engine/rule_mongo_plugin.go
index 43abe2e..5e1a82b 100644
--- a/MAPL_engine/rule_mongo_plugin.go
+++ b/MAPL_engine/rule_mongo_plugin.go
@@ -16,18 +16,16 @@ type MaplToMongoResult struct {
 
 func (rule *Rule) ToMongoQuery(parentField string) (MaplToMongoResult, error) {
 
-	if !rule.ruleAlreadyPrepared {
-		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
-		if err != nil {
-			return MaplToMongoResult{"", nil}, err
-		}
+	preparedRule, err := rule.getOrPrepareRule()
+	if err != nil {
+		return MaplToMongoResult{"", nil}, err
 	}
 
-	if rule.preparedRule.Conditions.ConditionsTree == nil {
+	if preparedRule.Conditions.ConditionsTree == nil {
 		return MaplToMongoResult{QueryTypeSimple, bson.M{}}, nil
 	}
 
-	query, added_pipeline, err := rule.preparedRule.Conditions.ConditionsTree.ToMongoQuery(parentField, "", 0)
+	query, added_pipeline, err := preparedRule.Conditions.ConditionsTree.ToMongoQuery(parentField, "", 0)
 	if err != nil {
 
 		return MaplToMongoResult{"", nil}, err
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index b2e1d68..17bc8f5 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -11,15 +11,21 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync"
 )
 
 var GlobalPredefinedStringsAndLists PredefinedStringsAndLists
 
+// preparationLock guards the prepared form of the rules and the global predefined strings and lists.
+var preparationLock sync.RWMutex
+
 func SetGlobalPredefinedStringsAndLists(stringsAndlists PredefinedStringsAndLists) error {
 	validatedStringsAndlists, err := validatePredefinedString(stringsAndlists)
 	if err != nil {
 		return err
 	}
+	preparationLock.Lock()
+	defer preparationLock.Unlock()
 	GlobalPredefinedStringsAndLists = validatedStringsAndlists
 	return nil
 }
@@ -63,28 +69,74 @@ func YamlReadRulesFromFile(filename string) (Rules, error) {
 
 func (rule *Rule) SetPredefinedStringsAndLists(stringsAndlists PredefinedStringsAndLists) error {
 
+	preparedRule, err := rule.prepareCopy(stringsAndlists)
+	if err != nil {
+		return err
+	}
+
+	// nothing of the rule is changed before the preparation succeeded
+	preparationLock.Lock()
+	defer preparationLock.Unlock()
+	rule.setPreparedRule(preparedRule, stringsAndlists)
+	return nil
+}
+
+// prepareCopy returns a prepared copy of the rule. the rule itself is not changed.
+func (rule *Rule) prepareCopy(stringsAndlists PredefinedStringsAndLists) (*Rule, error) {
+
 	var ruleCopy Rule
 	err := deepcopy.Copy(&ruleCopy, rule)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	err = PrepareOneRuleWithPredefinedStrings(&ruleCopy, stringsAndlists)
 	if err != nil {
-		return err
+		return nil, err
 	}
-
-	// nothing of the rule is changed before the preparation succeeded
 	ruleCopy.ruleAlreadyPrepared = true
+
+	return &ruleCopy, nil
+}
+
+// setPreparedRule is called with the preparationLock held
+func (rule *Rule) setPreparedRule(preparedRule *Rule, stringsAndlists PredefinedStringsAndLists) {
 	rule.predefinedStringsAndLists = stringsAndlists
-	rule.preparedRule = &ruleCopy
+	rule.preparedRule = preparedRule
 	rule.ruleAlreadyPrepared = true
+}
 
-	return nil
+// getPreparedRuleAndGlobal returns the prepared rule (nil if not prepared yet) and the global predefined strings and lists
+func (rule *Rule) getPreparedRuleAndGlobal() (*Rule, PredefinedStringsAndLists) {
+	preparationLock.RLock()
+	defer preparationLock.RUnlock()
+	return rule.preparedRule, GlobalPredefinedStringsAndLists
+}
+
+// getOrPrepareRule returns the prepared rule. On its first use the rule is prepared with the global predefined strings and lists, and keeps them.
+func (rule *Rule) getOrPrepareRule() (*Rule, error) {
+
+	preparedRule, _ := rule.getPreparedRuleAndGlobal()
+	if preparedRule != nil {
+		return preparedRule, nil
+	}
+
+	preparationLock.Lock()
+	defer preparationLock.Unlock()
+	if !rule.ruleAlreadyPrepared { // not prepared meanwhile by another caller
+		preparedRule, err := rule.prepareCopy(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			return nil, err
+		}
+		rule.setPreparedRule(preparedRule, GlobalPredefinedStringsAndLists)
+	}
+	return rule.preparedRule, nil
 }
 
 func (rule *Rule) GetPreparedRule() *Rule { // used in unit tests
 
+	preparationLock.RLock()
+	defer preparationLock.RUnlock()
 	if !rule.ruleAlreadyPrepared {
 		r := Rule{}
 		return &r
-- 
2.43.0


From a9edbc7c7897ffe5bd815b1a56fa56ffdbd53c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:05 +0000
Subject: [PATCH 16/18] fix: do not change the rule when testing its sender and
 receiver

---
 MAPL_engine/check.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index a029070..4b71fe2 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -199,12 +199,13 @@ func (rule *Rule) Check(message *MessageAttributes) (int, []map[string]interface
 
 func TestSender(rule *Rule, message *MessageAttributes) bool {
 
-	if rule.AlreadyConvertedFieldsToRegexFlag == false {
-		ConvertFieldsToRegex(rule)
+	senderList := rule.Sender.SenderList
+	if rule.AlreadyConvertedFieldsToRegexFlag == false { // the rule itself is not changed
+		senderList, _ = ConvertStringToExpandedSenderReceiver(rule.Sender.SenderName, rule.Sender.SenderType)
 	}
 
 	match := false
-	for _, expandedSender := range rule.Sender.SenderList {
+	for _, expandedSender := range senderList {
 		match_temp := false
 
 		switch expandedSender.Type {
@@ -231,12 +232,13 @@ func TestSender(rule *Rule, message *MessageAttributes) bool {
 
 func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 
-	if rule.AlreadyConvertedFieldsToRegexFlag == false {
-		ConvertFieldsToRegex(rule)
+	receiverList := rule.Receiver.ReceiverList
+	if rule.AlreadyConvertedFieldsToRegexFlag == false { // the rule itself is not changed
+		receiverList, _ = ConvertStringToExpandedSenderReceiver(rule.Receiver.ReceiverName, rule.Receiver.ReceiverType)
 	}
 
 	match := false
-	for _, expandedReceiver := range rule.Receiver.ReceiverList {
+	for _, expandedReceiver := range receiverList {
 		match_temp := false
 
 		switch expandedReceiver.Type {
-- 
2.43.0


From 6bd0d2009bb22acc0c470bfa0fb8fb5b58c542a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:15 +0000
Subject: [PATCH 17/18] fix: expand the fields again when binding lists to a
 prepared rule

---
 MAPL_engine/rules_load.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 17bc8f5..271d1f8 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -90,6 +90,7 @@ func (rule *Rule) prepareCopy(stringsAndlists PredefinedStringsAndLists) (*Rule,
 		return nil, err
 	}
 
+	ruleCopy.AlreadyConvertedFieldsToRegexFlag = false // the fields may have been converted with other lists or without
 	err = PrepareOneRuleWithPredefinedStrings(&ruleCopy, stringsAndlists)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 639f7f755319a3170643d58a065b9fc3b087e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:01:22 +0000
Subject: [PATCH 18/18] fix: keep a copy of the global predefined strings

The global lists kept the map of the caller. Rules are prepared with the
global lists later, so a caller that changed its map afterwards changed the
strings in force, but not the lists, or crashed a concurrent preparation.
---
 MAPL_engine/rules_load.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 271d1f8..0b9482e 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -24,6 +24,11 @@ func SetGlobalPredefinedStringsAndLists(stringsAndlists PredefinedStringsAndList
 	if err != nil {
 		return err
 	}
+	// rules are prepared with the global later. the caller may change its strings meanwhile
+	validatedStringsAndlists.PredefinedStrings = make(map[string]string)
+	for key, str := range stringsAndlists.PredefinedStrings {
+		validatedStringsAndlists.PredefinedStrings[key] = str
+	}
 	preparationLock.Lock()
 	defer preparationLock.Unlock()
 	GlobalPredefinedStringsAndLists = validatedStringsAndlists
-- 
2.43.0

