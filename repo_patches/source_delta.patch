From 2aeb934f9077b8de73dcbb348544c30b2ec1a0b8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 01/67] fix: an empty comment no longer swallows the rest of
 the source text

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 902e666..221a4fa 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -208,7 +208,7 @@ namespace CppLisp
 	{
 		string rest = code.Substring(i);
 		size_t pos = rest.IndexOf("\n", "StringComparison.InvariantCulture");
-		if (pos > 0)
+		if (pos != std::string::npos)
 		{
 			newIndex = i + pos;
 			return rest.Substring(0, pos + 1);
-- 
2.43.0


From bac1348c9650bc5e71dae0c0c77714646ee5c917 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 02/67] fix: number literals outside the value range no longer
 escape as std::out_of_range

---
 CppLisp/CppLispInterpreter/Token.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Token.cpp b/CppLisp/CppLispInterpreter/Token.cpp
index be1e978..7d521bd 100644
--- a/CppLisp/CppLispInterpreter/Token.cpp
+++ b/CppLisp/CppLispInterpreter/Token.cpp
@@ -54,6 +54,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	bool Double_TryParse(const string & txt, const string & /*NumberStyles_Any*/, const string & /*CultureInfo_InvariantCulture*/, double & doubleValue)
@@ -72,6 +76,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	LispToken::LispToken(const string & text, size_t start, size_t stop, size_t lineNo)
-- 
2.43.0


From 1ae1fee271c9aad6cb07591b21137d7e03e85d80 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 03/67] fix: a quote without expression is reported as error
 instead of reading an empty stack

---
 CppLisp/CppLispInterpreter/Parser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 79e31d8..50361cd 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -71,6 +71,10 @@ namespace CppLisp
 			}
 			else if (token->Type == LispTokenType::ListEnd)
 			{
+				if (listStack.empty())
+				{
+					throw LispException(BracketsOutOfBalance, token, moduleName);
+				}
 				var temp = current;
 				listStack.pop();
 				if (listStack.size() > 0)
@@ -147,6 +151,15 @@ namespace CppLisp
 			throw LispException(BracketsOutOfBalance, token, moduleName);
 		}
 
+		if (current == null)
+		{
+			// no expression found, for example a quote at the end of the code
+			if (tokens.size() > 0)
+			{
+				throw LispException(BracketsOutOfBalance, tokens.back(), moduleName);
+			}
+			return i;
+		}
 		parseResult = std::make_shared<object>(*current);
 		return i;
 	}
-- 
2.43.0


From 048d5e427cfc9ebe754e8b86799eb950cada9fee Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 04/67] fix: nested quotes like ''a keep all quote levels

---
 CppLisp/CppLispInterpreter/Parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 50361cd..0ac8558 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -105,6 +105,11 @@ namespace CppLisp
 				{
 					current->push_back/*Add*/(std::make_shared<object>(object(*quote)));
 				}
+				else if (!isToplevel)
+				{
+					parseResult = std::make_shared<object>(*quote);
+					return i;
+				}
 			}
 			else if (token->Type == LispTokenType::UnQuote || token->Type == LispTokenType::UnQuoteSplicing)
 			{
-- 
2.43.0


From 4833638709b52595f14eafc0260e8d1adf87800a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 05/67] fix: values which are not lists are no longer accessed
 as lists

---
 CppLisp/CppLispInterpreter/csobject.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 45d3e88..7394500 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -505,11 +505,19 @@ namespace CppLisp
 
 	const IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectRef() const
 	{
+		if (!IsList())
+		{
+			throw LispExceptionBase("Invalid cast to list.");
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
 	IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectNotConstRef()
 	{
+		if (!IsList())
+		{
+			throw LispExceptionBase("Invalid cast to list.");
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
-- 
2.43.0


From 18b6157405643e591e4ae9fb1ab0c2913a76b380 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 06/67] fix: dictionary functions report an error for values
 which are not dictionaries

---
 CppLisp/CppLispInterpreter/Environment.cpp | 24 +++++++++++++++-------
 CppLisp/CppLispInterpreter/csobject.cpp    |  8 ++++++++
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 34854b6..36584d6 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1388,11 +1388,21 @@ static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<o
 	return std::make_shared<LispVariant>(LispVariant(LispType::_NativeObject, std::make_shared<object>(Dictionary<LispVariant, std::shared_ptr<object>>())));
 }
 
+static Dictionary<LispVariant, std::shared_ptr<object>> & GetDictionaryArg(std::shared_ptr<object> arg)
+{
+	const LispVariant & value = arg->ToLispVariantRef();
+	if (!value.IsNativeObject() || value.Value == null)
+	{
+		throw LispExceptionBase("No dictionary: " + value.ToString());
+	}
+	return value.Value->ToDictionary();
+}
+
 static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("dict-set", 3, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
 	dict[key] = value->Value;
@@ -1404,7 +1414,7 @@ static std::shared_ptr<LispVariant> DictGet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-get", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key) ? dict[key] : std::make_shared<object>(object());
 
@@ -1415,7 +1425,7 @@ static std::shared_ptr<LispVariant> DictRemove(const std::vector<std::shared_ptr
 {
 	CheckArgs("dict-remove", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var ok = dict.Remove(key);
 
@@ -1426,7 +1436,7 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 {
 	CheckArgs("dict-keys", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	IEnumerable<std::shared_ptr<object>> result;
 	for (var elem : dict.GetKeys())
 	//foreach(var key in nativeDict.Keys)
@@ -1441,7 +1451,7 @@ static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<
 {
 	CheckArgs("dict-clean", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	dict.Clear();
 
 	return std::make_shared<LispVariant>();
@@ -1451,7 +1461,7 @@ static std::shared_ptr<LispVariant> DictContainsKey(const std::vector<std::share
 {
 	CheckArgs("dict-contains-key", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key);
 
@@ -1462,7 +1472,7 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 {
 	CheckArgs("dict-contains-value", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	var value = args[1]->ToLispVariant();
 	var result = dict.ContainsValue(value->Value);
 
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 7394500..fac9b6a 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -382,11 +382,19 @@ namespace CppLisp
 
 	Dictionary<LispVariant, std::shared_ptr<object>> & object::ToDictionary()
 	{
+		if (!IsDictionary())
+		{
+			throw LispExceptionBase("Invalid cast to dictionary.");
+		}
 		return *(m_Data.pDictionary);
 	}
 
 	const Dictionary<LispVariant, std::shared_ptr<object>> & object::ToDictionary() const
 	{
+		if (!IsDictionary())
+		{
+			throw LispExceptionBase("Invalid cast to dictionary.");
+		}
 		return *(m_Data.pDictionary);
 	}
 
-- 
2.43.0


From 74f5aec700abc1114af5e7d5d8059b5f2a7e0dc5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 07/67] fix: lists are compared by the values of their
 elements, also for nested lists and nil elements

---
 CppLisp/CppLispInterpreter/Environment.cpp |  6 +++---
 CppLisp/CppLispInterpreter/Variant.cpp     | 18 +++++++++++++++++-
 CppLisp/CppLispInterpreter/csobject.cpp    |  7 ++++++-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 36584d6..4d05ba8 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1405,7 +1405,7 @@ static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<ob
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
-	dict[key] = value->Value;
+	dict[key] = std::make_shared<object>(*value);
 
 	return value;
 }
@@ -1416,7 +1416,7 @@ static std::shared_ptr<LispVariant> DictGet(const std::vector<std::shared_ptr<ob
 
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	const LispVariant & key = args[1]->ToLispVariantRef();
-	var result = dict.ContainsKey(key) ? dict[key] : std::make_shared<object>(object());
+	var result = dict.ContainsKey(key) ? dict[key] : std::make_shared<object>(LispVariant(LispType::_Nil));
 
 	return std::make_shared<LispVariant>(result);
 }
@@ -1474,7 +1474,7 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	var value = args[1]->ToLispVariant();
-	var result = dict.ContainsValue(value->Value);
+	var result = dict.ContainsValue(std::make_shared<object>(*value));
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(result));
 }
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index be6ea42..a1875ff 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -783,7 +783,23 @@ namespace CppLisp
 
 	bool LispVariant::operator==(const LispVariant & r) const
 	{
-		return *Value == *(r.Value);
+		if (IsNumber() && r.IsNumber())
+		{
+			return EqualOp(*this, r);
+		}
+		if (Type != r.Type)
+		{
+			return false;
+		}
+		if (IsFunction() || IsLValue())
+		{
+			return Value == r.Value;
+		}
+		if (IsError())
+		{
+			return StringValue() == r.StringValue();
+		}
+		return EqualOp(*this, r);
 	}
 
 	bool LispVariant::operator!=(const LispVariant & other) const
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index fac9b6a..7c00bb2 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -153,7 +153,7 @@ namespace CppLisp
 				case __String:
 					return ToString() == other.ToString();
 				case __List:
-					return ToListRef() == other.ToListRef();
+					return ToListRef().SequenceEqual(other.ToListRef());
 				case __Function:
 					return false;
 				case __Symbol:
@@ -179,6 +179,11 @@ namespace CppLisp
 					return false;
 			}
 		}
+		if (IsLispVariant() || other.IsLispVariant())
+		{
+			// elements of lists may be given as a plain value or wrapped as a LispVariant
+			return LispVariant(std::make_shared<object>(*this)) == LispVariant(std::make_shared<object>(other));
+		}
 		return false;
 	}
 
-- 
2.43.0


From 084b3bfc8b880b33895625370fd89df8cecc590c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 08/67] fix: dictionary keys are ordered by a total order, keys
 of different types do not collide

---
 CppLisp/CppLispInterpreter/Variant.cpp  | 43 ++++++++++++++++++++++++-
 CppLisp/CppLispInterpreter/csstring.cpp |  2 +-
 CppLisp/CppLispInterpreter/cstypes.h    | 13 ++++++++
 3 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index a1875ff..869dfbc 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -27,7 +27,7 @@
 #include "Exception.h"
 #include "cstypes.h"
 
-#include <math.h>
+#include <cmath>
 
 namespace CppLisp
 {
@@ -807,3 +807,44 @@ namespace CppLisp
 		return !(*this == other);
 	}
 }
+
+
+static int GetKeyOrder(const CppLisp::LispVariant & value)
+{
+	// strings are listed first, followed by the numbers
+	if (value.IsString())
+	{
+		return 0;
+	}
+	if (value.IsNumber())
+	{
+		return 1;
+	}
+	return 2 + (int)value.Type;
+}
+
+bool std::less<CppLisp::LispVariant>::operator()(const CppLisp::LispVariant & l, const CppLisp::LispVariant & r) const
+{
+	int orderLeft = GetKeyOrder(l);
+	int orderRight = GetKeyOrder(r);
+	if (orderLeft != orderRight)
+	{
+		return orderLeft < orderRight;
+	}
+	if (l.IsNumber())
+	{
+		double left = l.ToDouble();
+		double right = r.ToDouble();
+		// nan is smaller than all other numbers
+		return std::isnan(left) ? !std::isnan(right) : left < right;
+	}
+	if (l.IsNil() || l.IsUndefined())
+	{
+		return false;
+	}
+	if (l.IsFunction() || l.IsNativeObject() || l.IsLValue())
+	{
+		return l.Value.get() < r.Value.get();
+	}
+	return CppLisp::string::CompareOrdinal(l.ToString(), r.ToString()) < 0;
+}
diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 981637b..28356c4 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -220,6 +220,6 @@ namespace CppLisp
 
     int string::CompareOrdinal(const string & a, const string & b)
 	{
-		return strcmp(a.c_str(), b.c_str());
+		return a.compare(b);
 	}
 }
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index 1a390fd..8fdc0cc 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -46,7 +46,20 @@ namespace CppLisp
 	class LispScope;
 	class LispVariant;
 	class object;
+}
+
+namespace std
+{
+	// total order for the keys of dictionaries, values of different types are different keys
+	template <>
+	struct less<CppLisp::LispVariant>
+	{
+		bool operator()(const CppLisp::LispVariant & l, const CppLisp::LispVariant & r) const;
+	};
+}
 
+namespace CppLisp
+{
 	typedef std::function<void()> Action;
 	typedef std::function<std::shared_ptr<LispVariant>(const std::vector<std::shared_ptr<object>> &, std::shared_ptr<LispScope>)> FuncX;
 
-- 
2.43.0


From fb66dae485d47aa51e2bd901ab5bdf396e94e49b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 09/67] fix: dictionaries with nil or symbol keys can be
 printed

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 869dfbc..086062c 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -729,7 +729,7 @@ namespace CppLisp
 					result += ", ";
 				}
 
-				result += "[" + GetNativeObjectStringRepresentation(element.first.Value) + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
+				result += "[" + GetNativeObjectStringRepresentation(std::make_shared<object>(element.first)) + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
 			}
 
 			result = "{ " + result + " }";
-- 
2.43.0


From 07b8800457898e3abe1aa25152627ee726364e2a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 10/67] fix: integer arithmetic wraps around instead of
 undefined signed overflow

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 CppLisp/CppLispInterpreter/Variant.cpp     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 4d05ba8..253ff5d 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -897,7 +897,7 @@ static std::shared_ptr<LispVariant> Subtraction(const std::vector<std::shared_pt
 		var value = (LispVariant)args[0];
 		if (value.IsInt())
 		{
-			return std::make_shared<LispVariant>(std::make_shared<object>(-value.IntValue()));
+			return std::make_shared<LispVariant>(std::make_shared<object>((int)(0u - (unsigned int)value.IntValue())));
 		}
 		if (value.IsDouble())
 		{
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 086062c..7f8011b 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -376,7 +376,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() + r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((unsigned int)ToInt() + (unsigned int)r.ToInt())));
 		}
 		if (IsList() && r.IsList())
 		{
@@ -396,7 +396,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() - r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((unsigned int)ToInt() - (unsigned int)r.ToInt())));
 		}
 		throw CreateInvalidOperationException("-", *this, r);
 	}
@@ -409,7 +409,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() * r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((unsigned int)ToInt() * (unsigned int)r.ToInt())));
 		}
 		throw CreateInvalidOperationException("*", *this, r);
 	}
-- 
2.43.0


From 5c00caa708146a9d605fcaf47420e08db2d5d076 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 11/67] fix: integer division by zero is reported as error and
 does not stop the process

---
 CppLisp/CppLispInterpreter/Variant.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 7f8011b..69c49d9 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -422,7 +422,14 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() / r.ToInt()));
+			int dividend = ToInt();
+			int divisor = r.ToInt();
+			if (divisor == 0)
+			{
+				throw LispExceptionBase("Division by zero");
+			}
+			// -1 is processed as negation, because the smallest int value can not be divided by -1
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? (int)(0u - (unsigned int)dividend) : dividend / divisor));
 		}
 		throw CreateInvalidOperationException("/", *this, r);
 	}
@@ -435,7 +442,13 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() % r.ToInt()));
+			int dividend = ToInt();
+			int divisor = r.ToInt();
+			if (divisor == 0)
+			{
+				throw LispExceptionBase("Division by zero");
+			}
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? 0 : dividend % divisor));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
 	}
-- 
2.43.0


From 843288629a8ba9f550b5f1cbca272a0871b5d9cc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 12/67] fix: shift counts outside of the int width are masked
 instead of undefined behaviour

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 253ff5d..c8ed109 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -931,12 +931,12 @@ static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> LeftShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() << arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
 }
 
 static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> (arg2.IntValue() & 31))); });
 }
 
 static std::shared_ptr<LispVariant> BinaryOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 2b9cc293d43967d57d45b442417274247a3ec803 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 13/67] fix: doubles outside of the int range can not be
 converted to int

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 CppLisp/CppLispInterpreter/Variant.cpp     | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index c8ed109..d469a5e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -728,7 +728,7 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	}
 	if (value.IsDouble())
 	{
-		return std::make_shared<LispVariant>(std::make_shared<object>((int)value.DoubleValue()));
+		return std::make_shared<LispVariant>(std::make_shared<object>(value.ToInt()));
 	}
 	if (value.IsString())
 	{
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 69c49d9..62c2544 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -172,7 +172,13 @@ namespace CppLisp
 		}
 		if (IsDouble())
 		{
-			return (int)DoubleValue();
+			double value = DoubleValue();
+			// written to be false for nan too
+			if (!(value > -2147483649.0 && value < 2147483648.0))
+			{
+				throw CreateInvalidCastException("int", CppLisp::string::Format(CanNotConvertTo, TypeString(), "int"));
+			}
+			return (int)value;
 		}
 		if (IsString())
 		{
-- 
2.43.0


From 156d86632c2951eef08536b4e5c77c514d563220 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 14/67] fix: int and float return undefined for values which
 can not be converted

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index d469a5e..8f7592b 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -738,7 +738,7 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1 : 0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -762,7 +762,7 @@ static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<ob
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1.0 : 0.0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From b2bb11570cc52e49c2e5581208361dc0e1ba7cf9 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 15/67] fix: expressions without value are nil and no longer
 dereferenced as null pointer

---
 CppLisp/CppLispInterpreter/Environment.cpp | 25 +++++++++++-----------
 CppLisp/CppLispInterpreter/Interpreter.cpp |  8 ++++++-
 CppLisp/CppLispInterpreter/Interpreter.h   |  5 +++++
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8f7592b..6209cac 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -244,7 +244,7 @@ static std::shared_ptr<object> CreateFunction(FuncX func, const string & signatu
 
 static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
 {
-	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAst(arg, scope) : arg->ToLispVariant();
+	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAstToValue(arg, scope) : arg->ToLispVariant();
 }
 
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
@@ -256,7 +256,7 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
 	return std::make_shared<LispVariant>(ret);
@@ -1013,7 +1013,8 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
-		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
+		var value = function.Function(args, scope);
+		list.Add(std::make_shared<object>(value != null ? *value : LispVariant(LispType::_Nil)));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
 	return result;
@@ -1034,8 +1035,8 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
 		args.push_back(std::make_shared<object>(*result));		
-		var x = *(function.Function(args, scope));
-		result = std::make_shared<LispVariant>(x);
+		var value = function.Function(args, scope);
+		result = value != null ? value : std::make_shared<LispVariant>(LispType::_Nil);
 	}
 	return result;
 }
@@ -1335,7 +1336,7 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 {
 	CheckArgs(LispEnvironment::Apply, 2, args, scope);
 
-	var fcn = LispInterpreter::EvalAst(args[0], scope);
+	var fcn = LispInterpreter::EvalAstToValue(args[0], scope);
 
 	const LispVariant & arguments = args[1]->ToLispVariantRef();
 
@@ -1484,7 +1485,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 	var result = initial;
 	for(var arg : args)
 	{
-		bool value = LispInterpreter::EvalAst(arg, scope)->BoolValue();
+		bool value = LispInterpreter::EvalAstToValue(arg, scope)->BoolValue();
 		result = func(result, value);
 		if (initial)
 		{ 
@@ -1535,7 +1536,7 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 	var symbol = EvalArgIfNeeded(args[0], scope);
 	scope->NeedsLValue = originalNeedsLValue;
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	if (symbol->IsLValue())
 	{
 		std::function<void(std::shared_ptr<object>)> action = symbol->Value->ToSetterAction();
@@ -1669,7 +1670,7 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 			const LispVariant & variant = item1->ToLispVariantRef();
 			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 			{
-				var evalResult = LispInterpreter::EvalAst(item2, scope);
+				var evalResult = LispInterpreter::EvalAstToValue(item2, scope);
 				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
@@ -1731,7 +1732,7 @@ static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<ob
 		CheckArgs(If, -1, args, scope);
 	}
 
-	var passed = LispInterpreter::EvalAst(args[0], scope)->BoolValue();
+	var passed = LispInterpreter::EvalAstToValue(args[0], scope)->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
 	return LispInterpreter::EvalAst(passed ? args[1] : elseCode, scope);
 }
@@ -1741,7 +1742,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 	CheckArgs(While, 2, args, scope);
 
 	var result = std::make_shared<LispVariant>();
-	var condition = LispInterpreter::EvalAst(args[0], scope);
+	var condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	while (condition->ToBool())
 	{
 		result = LispInterpreter::EvalAst(args[1], scope);
@@ -1749,7 +1750,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 		{
 			break;
 		}
-		condition = LispInterpreter::EvalAst(args[0], scope);
+		condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	}
 	return result;
 }
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index e9641d3..32860e9 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -71,6 +71,12 @@ namespace CppLisp
 		return astWithResolvedValues;
 	}
 
+	std::shared_ptr<LispVariant> LispInterpreter::EvalAstToValue(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
+	{
+		std::shared_ptr<LispVariant> result = EvalAst(ast, scope);
+		return result != null ? result : std::make_shared<LispVariant>(LispType::_Nil);
+	}
+
 	std::shared_ptr<LispVariant> LispInterpreter::EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
 	{
 		if (ast.get() == null)
@@ -175,7 +181,7 @@ namespace CppLisp
 		{
 			var needEvaluation = (arrAstWithResolvedValues[i]->IsList() /*is IEnumerable<object>*/) && !functionWrapper.IsSpecialForm();
 
-			var result = needEvaluation ? std::make_shared<object>(*EvalAst(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
+			var result = needEvaluation ? std::make_shared<object>(*EvalAstToValue(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
diff --git a/CppLisp/CppLispInterpreter/Interpreter.h b/CppLisp/CppLispInterpreter/Interpreter.h
index 07bfaca..d7910df 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.h
+++ b/CppLisp/CppLispInterpreter/Interpreter.h
@@ -73,6 +73,11 @@ namespace CppLisp
         /// <exception cref="System.Exception">Unexpected macro modus!</exception>
 		/*public*/ static std::shared_ptr<LispVariant> EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
 
+        /// <summary>
+        /// Evaluates the ast, expressions without a value (if without else block, macro definitions, ...) are nil.
+        /// </summary>
+		/*public*/ static std::shared_ptr<LispVariant> EvalAstToValue(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
+
 #ifdef ENABLE_COMPILE_TIME_MACROS 
 
 		/*public*/ static std::shared_ptr<object> ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope);
-- 
2.43.0


From fd45d62d4768f5f593fbcb9460bacf165695e27a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 16/67] fix: lists starting with the name of a global variable
 can be used in code of a later evaluation

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 32860e9..1614e33 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -263,9 +263,10 @@ namespace CppLisp
 		// compile time macro: process define-macro statements ==> call special form, this will add macro to global scope as side effect
 		var function = astAsList.front();
 		var functionName = function->ToString();
-		if (globalScope != null && globalScope->ContainsKey(functionName))
+		std::shared_ptr<object> globalValue;
+		if (globalScope != null && globalScope->ContainsKey(functionName, &globalValue) && globalValue != null && globalValue->ToLispVariantRef().IsFunction())
 		{
-			var fcn = (*globalScope)[functionName]->ToLispVariantRef().FunctionValue();
+			const LispFunctionWrapper & fcn = globalValue->ToLispVariantRef().FunctionValue();
 			if (fcn.IsEvalInExpand())
 			{
 				var args = std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList);
-- 
2.43.0


From 22e4680ce263621e272110d5b0abc133ca34392b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 17/67] fix: errors of builtin functions are reported with the
 position of the failing call, runtime errors of the C++ library are no longer
 fatal

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 41 +++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 1614e33..217bc7a 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -26,8 +26,18 @@
 #include "Interpreter.h"
 #include "Exception.h"
 
+#include <exception>
+
 namespace CppLisp
 {
+	static string GetStackInfo(std::shared_ptr<LispScope> scope)
+	{
+		string stackInfo;
+#ifndef _DISABLE_DEBUGGER
+		stackInfo = scope->DumpStackToString();
+#endif
+		return stackInfo;
+	}
 	std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispInterpreter::ResolveArgsInScopes(std::shared_ptr<LispScope> scope, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> astAsList, bool compile)
 	{
 		std::shared_ptr<IEnumerable<std::shared_ptr<object>>> astWithResolvedValues = std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList->Count());
@@ -214,8 +224,37 @@ namespace CppLisp
 		}
 #endif
 
+		// evaluation of the arguments may have changed the current position
+		scope->CurrentToken = currentToken != null ? currentToken : scope->CurrentToken;
+
 		// call the function with the arguments
-		return functionWrapper.Function(arguments, scope);
+		try
+		{
+			return functionWrapper.Function(arguments, scope);
+		}
+		catch (LispException & exc)
+		{
+			// complete missing position and stack informations of the exception
+			var lineNo = exc.Data["LineNo"];
+			var moduleName = exc.Data["ModuleName"];
+			if (lineNo != null && lineNo->ToString() == "-1")
+			{
+				exc.AddTokenInfos(scope->CurrentToken);
+			}
+			if (moduleName != null && moduleName->ToString() == "???")
+			{
+				exc.AddModuleNameAndStackInfos(scope->ModuleName, GetStackInfo(scope));
+			}
+			throw;
+		}
+		catch (LispExceptionBase & exc)
+		{
+			throw LispException(exc.Message, scope.get());
+		}
+		catch (std::exception & exc)
+		{
+			throw LispException(exc.what(), scope.get());
+		}
 	}
 
 #ifdef ENABLE_COMPILE_TIME_MACROS 
-- 
2.43.0


From 1eef6b143708ca1eff42656f7ee30b6e07b4e537 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 18/67] fix: access to elements outside of a list is an error
 and not undefined behaviour

---
 CppLisp/CppLispInterpreter/Environment.cpp | 10 +++++-----
 CppLisp/CppLispInterpreter/cstypes.h       |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 6209cac..9a876d5 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1106,7 +1106,7 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 			{ 
 				var vl = listValue->ToLispVariantNotConstRef();
 				IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
-				container[0] = newValue;
+				container.at(0) = newValue;
 			};
 
 		return std::make_shared<LispVariant>(LispVariant(/*LispType::_LValue,*/ action));
@@ -1136,7 +1136,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
-			container[container.Count()-1] = newValue;
+			container.at(container.Count()-1) = newValue;
 		};
 
 		return std::make_shared<LispVariant>(LispVariant(/*LispType::_LValue,*/ action));
@@ -1180,7 +1180,7 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
-			container[index] = newValue;
+			container.at(index) = newValue;
 		};
 
 		return std::make_shared<LispVariant>(LispVariant(/*LispType::_LValue,*/ action));
@@ -1202,7 +1202,7 @@ static std::shared_ptr<LispVariant> Push(const std::vector<std::shared_ptr<objec
 	if (list.IsList())
 	{
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
-		if (pos < (int)elements.Count())
+		if (pos >= 0 && pos < (int)elements.Count())
 		{
 			elements.Insert(pos, std::make_shared<object>(val));
 			return std::make_shared<LispVariant>(LispVariant(std::make_shared<object>(elements)));
@@ -1224,7 +1224,7 @@ static std::shared_ptr<LispVariant> Pop(const std::vector<std::shared_ptr<object
 	if (list.IsList())
 	{
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
-		if (pos < (int)elements.Count())
+		if (pos >= 0 && pos < (int)elements.Count())
 		{
 			var elem = elements.ElementAt(pos);
 			elements.RemoveAt(pos);
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index 8fdc0cc..4d8f6db 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -91,7 +91,7 @@ namespace CppLisp
 
 		inline const T & First() const
 		{
-			return std::vector<T>::front();
+			return std::vector<T>::at(0);
 		}
 
 		inline const T FirstOrDefault() const
@@ -105,12 +105,12 @@ namespace CppLisp
 
 		inline const T & Last() const
 		{
-			return std::vector<T>::back();
+			return std::vector<T>::at(Count() - 1);
 		}
 
 		inline const T ElementAt(size_t index) const
 		{
-			return (*this)[index];
+			return std::vector<T>::at(index);
 		}
 
 		inline void Add(const T & elem)
@@ -131,7 +131,7 @@ namespace CppLisp
 		IEnumerable<T> Skip(int skipNoOfElements)
 		{
 			IEnumerable<T> temp(*this);
-			for (int i = 0; i < skipNoOfElements; i++)
+			for (int i = 0; i < skipNoOfElements && temp.size() > 0; i++)
 			{
 				temp.erase(temp.begin());
 			}
-- 
2.43.0


From 6f0b6c5fbf6dc2bbdcc0d1d203eb3326f2435f9f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 19/67] fix: search with a length compares the whole search
 text inside of the given range

---
 CppLisp/CppLispInterpreter/csstring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 88499c9..5ab6754 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -145,7 +145,7 @@ namespace CppLisp
 		inline string Replace(const string & searchTxt, const string & replaceTxt) const
 		{
 			std::string s = *this;
-			return do_replace(s, searchTxt.c_str(), replaceTxt.c_str());
+			return do_replace(s, searchTxt, replaceTxt);
 		}
 		
 		inline size_t IndexOf(const string & txt, const string & /*arg*//*StringComparison.InvariantCulture*/) const
@@ -160,7 +160,9 @@ namespace CppLisp
 
 		inline size_t IndexOf(const string & txt, size_t offset, size_t count) const
 		{
-			return find(txt.c_str(), offset, count);
+			// the text must be found completely in the given range
+			size_t pos = find(txt, offset);
+			return pos != npos && txt.size() <= count && pos - offset <= count - txt.size() ? pos : npos;
 		}
 
 		inline void Append(const string & txt)
-- 
2.43.0


From f15fef761bfec45aa4d0d78693f3e0814b916cd2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 20/67] fix: format replaces all placeholders and does not
 interpret the inserted values or bad field widths

---
 CppLisp/CppLispInterpreter/csstring.cpp | 140 +++++++++---------------
 CppLisp/CppLispInterpreter/csstring.h   |   2 -
 2 files changed, 53 insertions(+), 89 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 28356c4..db5a6a2 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -115,107 +115,73 @@ namespace CppLisp
 		return txt.size() == 0;
 	}
 
-	string string::ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found)
+	// parses a placeholder like {0} or {0,10} or {0,-10} starting at the given position,
+	// returns the length of the placeholder or 0 if there is no valid placeholder
+	static size_t ParsePlaceholder(const string & txt, size_t pos, size_t & index, int & width)
 	{
-		auto pos = temp.find(findText);
-		string ret = temp;
-		if (pos != std::string::npos)
+		const size_t MAX_WIDTH_DIGITS = 6;
+
+		width = 0;
+		size_t current = pos + 1;
+		if (current >= txt.size() || txt[current] < '0' || txt[current] > '4')
 		{
-			ret = ret.replace(pos, findText.size(), arg);
-			found = true;
+			return 0;
 		}
-		else
+		index = (size_t)(txt[current] - '0');
+		current++;
+		if (current < txt.size() && txt[current] == ',')
 		{
-			found = false;
+			current++;
+			bool negative = current < txt.size() && txt[current] == '-';
+			if (negative)
+			{
+				current++;
+			}
+			size_t digits = 0;
+			while (current < txt.size() && txt[current] >= '0' && txt[current] <= '9' && digits < MAX_WIDTH_DIGITS)
+			{
+				width = width * 10 + (txt[current] - '0');
+				digits++;
+				current++;
+			}
+			if (digits == 0)
+			{
+				return 0;
+			}
+			width = negative ? -width : width;
 		}
-		return ret;
+		return current < txt.size() && txt[current] == '}' ? current + 1 - pos : 0;
 	}
 
-	string string::ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found)
+	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
 	{
-		found = false;
-		string ret = temp;
-		auto pos = ret.find(findText);
-		if (pos != std::string::npos)
+		const string * args[] = { &arg1, &arg2, &arg3, &arg4, &arg5 };
+		string result;
+		size_t pos = 0;
+		while (pos < txt.size())
 		{
-			auto pos2 = ret.find("}", pos + 1);
-			if (pos2 != std::string::npos)
+			size_t index = 0;
+			int width = 0;
+			size_t len = txt[pos] == '{' ? ParsePlaceholder(txt, pos, index, width) : 0;
+			if (len > 0)
 			{
-				string len = ret.substr(pos + 3, pos2 - pos - findText.size());
-				int l = std::stoi(len);
-				if (l > 0)
-				{
-					int count = l - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, std::string(count > 0 ? count : 0, ' ') + arg);
-					found = true;
-				}
-				else
+				const string & arg = *args[index];
+				if (arg == NULL_STRING)
 				{
-					int count = abs(l) - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, arg + std::string(count > 0 ? count : 0, ' '));
-					found = true;
+					throw LispExceptionBase("Not enough items for format string: " + txt);
 				}
+				size_t fieldWidth = (size_t)abs(width);
+				std::string fill(fieldWidth > arg.size() ? fieldWidth - arg.size() : 0, ' ');
+				result += width > 0 ? fill + arg : arg + fill;
+				pos += len;
+			}
+			else
+			{
+				result += txt[pos];
+				pos++;
 			}
 		}
-		return ret;
-	}
-
-	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
-	{
-		const string ERR_MSG = "Not enough items for format string: " + txt;
-		bool found;
-		string temp = txt;
-		temp = ReplaceIn(temp, "{0}", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{0,", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{1}", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{1,", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{2}", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{2,", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{3}", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{3,", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{4}", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{4,", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		return temp;
+		return result;
 	}
 
     int string::CompareOrdinal(const string & a, const string & b)
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 5ab6754..8de108b 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -187,8 +187,6 @@ namespace CppLisp
 		std::vector<string> Split(const string & seperator) const;
 
 		static bool IsNullOrEmpty(const string & txt);
-		static string ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found);
-		static string ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found);
 		static string Format(const string & txt, const string & arg1 = NULL_STRING, const string & arg2 = NULL_STRING, const string & arg3 = NULL_STRING, const string & arg4 = NULL_STRING, const string & arg5 = NULL_STRING);
 		static int CompareOrdinal(const string & a, const string & b);
 
-- 
2.43.0


From 0c0d8d2da22f8062d17fec6409af533e9d713c70 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 21/67] fix: or evaluates its arguments until one of them is
 true

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 9a876d5..fc78a0e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1498,7 +1498,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 		else
 		{
 			// process or
-			if (!result)
+			if (result)
 			{
 				break;
 			}
-- 
2.43.0


From 5e190ee93f6c6c80c4e47ad73a2879bfdb861350 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 22/67] fix: setf of an accessor function works inside of
 functions too

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index fc78a0e..e9c9401 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1853,7 +1853,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 
 		// save the current call stack to resolve variables in closures
 		childScope->ClosureChain = scope;
-		childScope->NeedsLValue = scope->NeedsLValue;     // support setf in recursive calls
+		childScope->NeedsLValue = localScope->NeedsLValue;     // support setf in recursive calls
 
 		std::shared_ptr<LispVariant> ret;
 		try
-- 
2.43.0


From 7510b5bd11c6a90e8171ec4380d624251f393011 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 23/67] fix: state of scopes (call stack, module name, l-value
 and documentation infos) is restored if an evaluation fails, exceptions keep
 their position

---
 CppLisp/CppLispInterpreter/Environment.cpp | 109 +++++++++++++++------
 1 file changed, 79 insertions(+), 30 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e9c9401..851b6dc 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -119,6 +119,57 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 	return ofs.good();
 }
 
+// restores the original value at the end of a block, also if the block is left by an exception
+template <class T>
+class RestoreValue
+{
+private:
+	T & m_Reference;
+	T m_OriginalValue;
+
+	RestoreValue(const RestoreValue & other);
+	RestoreValue & operator=(const RestoreValue & other);
+
+public:
+	RestoreValue(T & reference)
+		: m_Reference(reference), m_OriginalValue(reference)
+	{
+	}
+	RestoreValue(T & reference, const T & newValue)
+		: m_Reference(reference), m_OriginalValue(reference)
+	{
+		m_Reference = newValue;
+	}
+	~RestoreValue()
+	{
+		m_Reference = m_OriginalValue;
+	}
+};
+
+// adds a scope to the call stack and removes it at the end of a block, also if the block is left by an exception
+class CallStackItem
+{
+private:
+	std::shared_ptr<LispScope> m_Scope;
+	std::shared_ptr<LispScope> m_NextScope;
+	std::shared_ptr<LispScope> m_OriginalNextScope;
+
+	CallStackItem(const CallStackItem & other);
+	CallStackItem & operator=(const CallStackItem & other);
+
+public:
+	CallStackItem(std::shared_ptr<LispScope> scope, std::shared_ptr<LispScope> nextScope)
+		: m_Scope(scope), m_NextScope(nextScope), m_OriginalNextScope(scope->Next)
+	{
+		m_Scope->PushNextScope(m_NextScope);
+	}
+	~CallStackItem()
+	{
+		m_NextScope->Previous = null;
+		m_Scope->Next = m_OriginalNextScope;
+	}
+};
+
 static string GetStringRepresentation(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & separator = " ")
 {
 	var text = string::Empty;
@@ -587,14 +638,12 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 		if (!string::IsNullOrEmpty(code))
 		{
 			var importScope = std::make_shared<LispScope>("import " + fileName, scope->GlobalScope, std::make_shared<string>(fileName), scope->Output, scope->Input);
-			scope->PushNextScope(importScope);
+			CallStackItem callStackItem(scope, importScope);
 
 			result = Lisp::Eval(code, importScope, fileName);
 
 			// add new module to modules scope
 			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
-
-			scope->PopNextScope();
 		}
 	}
 	return result;
@@ -1273,11 +1322,8 @@ static std::shared_ptr<LispVariant> RValue(const std::vector<std::shared_ptr<obj
 {
 	CheckArgs("rval", 1, args, scope);
 
-	var originalLValue = scope->NeedsLValue;
-	scope->NeedsLValue = false;
-	var value = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalLValue;
-	return value;
+	RestoreValue<bool> restoreNeedsLValue(scope->NeedsLValue, false);
+	return EvalArgIfNeeded(args[0], scope);
 }
 
 static std::shared_ptr<LispVariant> SymbolFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1374,12 +1420,9 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	CheckArgs("evalstr", 1, args, scope);
 
 	const LispVariant & variant = args[0]->ToLispVariantRef();
-	var tempModuleName = scope->ModuleName;
-	scope->IsInEval = true;
-	var result = Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
-	scope->IsInEval = false;
-	scope->ModuleName = tempModuleName;
-	return result;
+	RestoreValue<string> restoreModuleName(scope->ModuleName);
+	RestoreValue<bool> restoreIsInEval(scope->IsInEval, true);
+	return Lisp::Eval(variant.StringValue(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.StringValue());
 }
 
 static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1531,10 +1574,11 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 {
 	CheckArgs(Setf, 2, args, scope);
 
-	var originalNeedsLValue = scope->NeedsLValue;
-	scope->NeedsLValue = true;
-	var symbol = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalNeedsLValue;
+	std::shared_ptr<LispVariant> symbol;
+	{
+		RestoreValue<bool> restoreNeedsLValue(scope->NeedsLValue, true);
+		symbol = EvalArgIfNeeded(args[0], scope);
+	}
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
 	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	if (symbol->IsLValue())
@@ -1801,7 +1845,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		[name, moduleName, args, scope](const std::vector<std::shared_ptr<object>> & localArgs, std::shared_ptr<LispScope> localScope) -> std::shared_ptr<LispVariant>
 	{
 		var childScope = std::make_shared<LispScope>(name, localScope->GlobalScope, std::make_shared<string>(moduleName), scope->Output, scope->Input);
-		localScope->PushNextScope(childScope);
+		CallStackItem callStackItem(localScope, childScope);
 
 		// add formal arguments to current scope
 		var i = 0;
@@ -1860,10 +1904,10 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		{
 			ret = LispInterpreter:: EvalAst(args[1], childScope);
 		}
-		catch (LispStopDebuggerException & exc)
+		catch (LispStopDebuggerException &)
 		{
 			// forward a debugger stop exception to stop the debugger loop
-			throw exc;
+			throw;
 		}
 		catch (LispExceptionBase & ex)
 		{
@@ -1880,9 +1924,8 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
 			}
 
-			throw ex;
+			throw;
 		}
-		localScope->PopNextScope();
 		return ret;
 	};
 
@@ -1965,16 +2008,22 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 {
 	CheckArgs(name, 3, args, scope);
 
-	UpdateDocumentationInformationAtScope(args, scope);
-
-	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
-	scope->UserData = std::make_shared<object>(EvalArgIfNeeded(args[0], scope)->ToString());
-
 	std::vector<std::shared_ptr<object>> tempArgs;
 	tempArgs.push_back(args[1]);
 	tempArgs.push_back(args[2]);
-	var resultingFcn = fn.Function(tempArgs, scope);
-	scope->UserData = null;
+
+	std::shared_ptr<LispVariant> resultingFcn;
+	{
+		// name and documentation are valid for this function only
+		RestoreValue<std::shared_ptr<object>> restoreUserData(scope->UserData);
+		RestoreValue<std::shared_ptr<Tuple<string, string>>> restoreUserDoc(scope->UserDoc);
+
+		UpdateDocumentationInformationAtScope(args, scope);
+
+		var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
+		scope->UserData = std::make_shared<object>(EvalArgIfNeeded(args[0], scope)->ToString());
+		resultingFcn = fn.Function(tempArgs, scope);
+	}
 
 	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
 	std::vector<std::shared_ptr<object>> tempArgs2;
-- 
2.43.0


From cd14c5b35f92601971b0b7908492683f04d6e28f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 24/67] fix: position and module name of errors belong together

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 217bc7a..a23ac66 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -234,15 +234,12 @@ namespace CppLisp
 		}
 		catch (LispException & exc)
 		{
-			// complete missing position and stack informations of the exception
-			var lineNo = exc.Data["LineNo"];
+			// add position and stack informations if the exception was created without scope,
+			// position and module name must belong together
 			var moduleName = exc.Data["ModuleName"];
-			if (lineNo != null && lineNo->ToString() == "-1")
-			{
-				exc.AddTokenInfos(scope->CurrentToken);
-			}
 			if (moduleName != null && moduleName->ToString() == "???")
 			{
+				exc.AddTokenInfos(scope->CurrentToken);
 				exc.AddModuleNameAndStackInfos(scope->ModuleName, GetStackInfo(scope));
 			}
 			throw;
-- 
2.43.0


From 15f5e3440b8cf46a2508d5a6687444412519e63a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 25/67] fix: missing list in map and reduce is reported with a
 position in functions too

---
 CppLisp/CppLispInterpreter/Environment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 851b6dc..252351f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2177,7 +2177,8 @@ std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispEnvironment::CheckForL
 #ifndef _DISABLE_DEBUGGER
 		sStack = scope->DumpStackToString();
 #endif
-		throw LispException("No list in " + functionName, scope->GetPreviousToken(((LispVariant)listObj).Token), scope->ModuleName, sStack);
+		var token = scope->GetPreviousToken(value.Token);
+		throw LispException("No list in " + functionName, token != null ? token : scope->CurrentToken, scope->ModuleName, sStack);
 	}
 	return value.ListValue();
 }
-- 
2.43.0


From 562a4fe23436a0cb3a7b9a2dac8917cbe0f8415d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 26/67] fix: compile time macros with missing arguments,
 results without value and string literals equal to argument names are
 processed correctly

---
 CppLisp/CppLispInterpreter/Environment.cpp |  4 +++-
 CppLisp/CppLispInterpreter/Interpreter.cpp | 19 +++++++++++++++++--
 CppLisp/CppLispInterpreter/Variant.cpp     |  2 +-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 252351f..daea209 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1622,7 +1622,9 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 	{
 		// allow macros in macros --> recursive call for ExpandMacros()
 		std::shared_ptr<object> result = LispInterpreter::ExpandMacros(std::make_shared<object>(*LispEnvironment::GetExpression(args[2])), scope);
-		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), std::make_shared<IEnumerable<std::shared_ptr<object>>>(result->ToEnumerableOfObjectRef())));
+		// the result is empty if the expression is completely processed in the expand phase
+		var expression = result != null ? LispEnvironment::GetExpression(result) : std::make_shared<IEnumerable<std::shared_ptr<object>>>();
+		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), expression));
 	}
 
 	return null;
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index a23ac66..71c2a40 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -254,6 +254,15 @@ namespace CppLisp
 		}
 	}
 
+	// update the position for error messages
+	static void UpdateCurrentToken(std::shared_ptr<object> item, std::shared_ptr<LispScope> scope)
+	{
+		if (item->IsLispVariant() && item->ToLispVariantRef().Token != null)
+		{
+			scope->CurrentToken = item->ToLispVariantRef().Token;
+		}
+	}
+
 #ifdef ENABLE_COMPILE_TIME_MACROS 
 
 	std::shared_ptr<object> LispInterpreter::ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope)
@@ -310,6 +319,7 @@ namespace CppLisp
 
 				// process compile time macro definition 
 				//   --> side effect: add macro definition to internal macro scope
+				UpdateCurrentToken(function, globalScope);
 				fcn.Function(args->ToArray(), globalScope);
 
 				// compile time macros definitions will be removed from code in expand macro phase
@@ -328,8 +338,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAst(astWithReplacedArguments, globalScope)->Value);
-				return std::make_shared<object>(*processedAst);
+				return ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*EvalAstToValue(astWithReplacedArguments, globalScope)));
 			}
 		}
 
@@ -417,6 +426,12 @@ namespace CppLisp
 		/*List<object>*/std::shared_ptr<object> quotedRealArguments = std::make_shared<object>(lst); //  new List<object>() { new LispVariant(LispType.Symbol, LispEnvironment.Quote), realArguments };
 		expression = ReplaceSymbolWithValueInExpression(LispVariant(LispType::_Symbol, std::make_shared<object>("quoted-macro-args")), quotedRealArguments, expression, true, /*ref*/ replaced);
 
+		if (realArguments.Count() < formalArguments->Count())
+		{
+			UpdateCurrentToken(astAsList->First(), scope);
+			throw LispException(string::Format("Bad argument count in macro {0}, has {1} expected {2}", astAsList->First()->ToString(), std::to_string(realArguments.Count()), std::to_string(formalArguments->Count())), scope.get());
+		}
+
 		for (var formalArgument : *formalArguments)
 		{
 			std::shared_ptr<object> value;
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 62c2544..a10d221 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -331,7 +331,7 @@ namespace CppLisp
 		if (other->IsLispVariant())
 		{
 			const LispVariant & otherVariant = other->ToLispVariantRef();
-			return Value->Equals(*(otherVariant.Value));
+			return otherVariant.IsSymbol() && StringValue() == otherVariant.StringValue();
 		}
 		return false;
 	}
-- 
2.43.0


From d93f9611b812cc1abc55fe4d9835a0385957f9b1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 27/67] fix: unquote in lists with two elements and arguments
 behind of a spliced list are no longer lost

---
 CppLisp/CppLispInterpreter/Environment.cpp | 34 +++++++++++-----------
 CppLisp/CppLispInterpreter/Interpreter.cpp | 17 +++++------
 2 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index daea209..0dd2db3 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1721,33 +1721,33 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
 			}
+			// unquotes inside of a nested quasiquote belong to the nested quasiquote
+			if (variant.IsSymbol() && variant.ToString() == LispEnvironment::Quasiquote)
+			{
+				return std::make_shared<object>(expr);
+			}
 		}
-		result.Add(item1);
-		result.Add(item2);
 	}
-	else
+	for (var itm : expr)
 	{
-		for (var itm : expr)
+		if (itm->IsIEnumerableOfObject() || itm->IsList())
 		{
-			if (itm->IsIEnumerableOfObject() || itm->IsList())
+			bool tempSplicing = false;
+			var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
+			if (tempSplicing)
 			{
-				bool tempSplicing = false;
-				var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
-				if (tempSplicing)
-				{
-					const LispVariant & variant = res->ToLispVariantRef();
-					result.AddRange(variant.ListValueRef());
-				}
-				else
-				{
-					result.Add(res);
-				}
+				const LispVariant & variant = res->ToLispVariantRef();
+				result.AddRange(variant.ListValueRef());
 			}
 			else
 			{
-				result.Add(itm);
+				result.Add(res);
 			}
 		}
+		else
+		{
+			result.Add(itm);
+		}
 	}
 	return std::make_shared<object>(result);
 }
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 71c2a40..63728fb 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -185,7 +185,8 @@ namespace CppLisp
 #endif
 
 		// evaluate arguments, but allow recursive lists
-		std::vector<std::shared_ptr<object>> arguments(astWithResolvedValues->Count() - 1); // = new object[astWithResolvedValues->Count() - 1];
+		std::vector<std::shared_ptr<object>> arguments; // = new object[astWithResolvedValues->Count() - 1];
+		arguments.reserve(astWithResolvedValues->Count() - 1);
 		const std::vector<std::shared_ptr<object>> & arrAstWithResolvedValues = astWithResolvedValues->ToArray();
 		for (size_t i = 1; i < astWithResolvedValues->Count(); i++)
 		{
@@ -195,24 +196,20 @@ namespace CppLisp
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
-			if (result->IsLispVariant())
+			if (needEvaluation && result->IsLispVariant())
 			{
 				const LispVariant & variant = result->ToLispVariantRef();
 				if (variant.IsUnQuoted == LispUnQuoteModus::_UnQuoteSplicing && variant.IsList())
 				{
-					var lst = variant.ListValueRef();
-					arguments.resize(arguments.size() + lst.size() - 1);
-					for(var elem : lst)
+					for (var elem : variant.ListValueRef())
 					{
-						arguments[i - 1] = elem;
-						i++;
+						arguments.push_back(elem);
 					}
-
-					break;
+					continue;
 				}
 			}
 
-			arguments[i - 1] = result;
+			arguments.push_back(result);
 		}
 
 #ifndef _DISABLE_DEBUGGER
-- 
2.43.0


From 5d9ec871bb19aa4de41828d2d05af7310008fbbc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 28/67] fix: a symbol directly followed by a quote or a string
 is no longer lost

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 221a4fa..c89afef 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -123,7 +123,11 @@ namespace CppLisp
 				}
 				else
 				{
-					if (code[i + 1] == '@')
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
+					if (ch == ',' && code[i + 1] == '@')
 					{
 						// process unquotesplicing
 						string s = string::Empty;
@@ -153,6 +157,10 @@ namespace CppLisp
 				else
 				{
 					// start string
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					isInString = true;
 					currentToken = string::Empty;
 				}
-- 
2.43.0


From e13fbc23c106483fa853935466c30163e16facc3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 29/67] fix: nested lists as elements are values for map,
 reduce and apply; args functions outside of functions are an error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 27 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 0dd2db3..26a5010 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1061,7 +1061,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		var value = function.Function(args, scope);
 		list.Add(std::make_shared<object>(value != null ? *value : LispVariant(LispType::_Nil)));
 	}
@@ -1082,7 +1082,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		args.push_back(std::make_shared<object>(*result));		
 		var value = function.Function(args, scope);
 		result = value != null ? value : std::make_shared<LispVariant>(LispType::_Nil);
@@ -1352,16 +1352,26 @@ static std::shared_ptr<LispVariant> ConvertToString(const std::vector<std::share
 	return std::make_shared<LispVariant>(LispType::_String, std::make_shared<object>(value));
 }
 
+static const IEnumerable<std::shared_ptr<object>> & GetArgsOfFunction(const string & name, std::shared_ptr<LispScope> scope)
+{
+	var item = scope->find(ArgsMeta);
+	if (item == scope->end())
+	{
+		throw LispException(name + " is available in functions only", scope.get());
+	}
+	return item->second->ToListRef();
+}
+
 static std::shared_ptr<LispVariant> ArgsCountFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)(*scope)[ArgsMeta]->ToListRef().Count();  });
+	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)GetArgsOfFunction("argscount", scope).Count();  });
 }
 
 static std::shared_ptr<LispVariant> ArgsFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("args", 0, args, scope);
 
-	var array = (*scope)[ArgsMeta]->ToListRef()/*.ToArray()*/;
+	var array = GetArgsOfFunction("args", scope)/*.ToArray()*/;
 	return std::make_shared<LispVariant>(std::make_shared<object>(array));
 }
 
@@ -1370,7 +1380,7 @@ static std::shared_ptr<LispVariant> ArgFcn(const std::vector<std::shared_ptr<obj
 	CheckArgs("arg", 1, args, scope);
 
 	var index = args[0]->ToLispVariantRef().IntValue();
-	const IEnumerable<std::shared_ptr<object>> & array = (*scope)[ArgsMeta]->ToListRef();
+	const IEnumerable<std::shared_ptr<object>> & array = GetArgsOfFunction("arg", scope);
 	if (index >= 0 && index < (int)array.size())
 	{
 		return std::make_shared<LispVariant>(array[index]);
@@ -1388,7 +1398,12 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 
 	if (arguments.IsList())
 	{
-		const IEnumerable<std::shared_ptr<object>> & argumentsArray = arguments.ListValueRef();
+		// nested lists are values and no code
+		std::vector<std::shared_ptr<object>> argumentsArray;
+		for (var elem : arguments.ListValueRef())
+		{
+			argumentsArray.push_back(std::make_shared<object>(LispVariant(elem)));
+		}
 		var result = fcn->FunctionValue().Function(argumentsArray, scope);
 		return result;
 	}
-- 
2.43.0


From d7dd0055c9a270a946f78ecbb1ce6109d6ab7bd0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 30/67] fix: trace state is global and can be switched off;
 missing arguments of trace, sleep, return and fn are an error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 26a5010..0afff5f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -181,12 +181,13 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 		}
 		text += item->ToString();
 	}
-	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
+	std::shared_ptr<object> traceOn;
+	if (scope->GlobalScope->ContainsKey(Traceon, &traceOn) && (bool)*traceOn)
 	{
-		var buffer = /*(StringBuilder)*/(*scope)[Tracebuffer];
-		string temp = buffer->ToString();
+		std::shared_ptr<object> buffer;
+		string temp = scope->GlobalScope->ContainsKey(Tracebuffer, &buffer) ? buffer->ToString() : string::Empty;
 		temp += text;
-		(*scope)[Tracebuffer] = std::make_shared<object>(temp);
+		(*(scope->GlobalScope))[Tracebuffer] = std::make_shared<object>(temp);
 		//old: buffer.Append(text);
 	}
 	return text;
@@ -434,14 +435,17 @@ static std::shared_ptr<LispVariant> NeedLValue(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("trace", 1, args, scope);
+
 	var status = args[0]->ToLispVariantRef();
-	(*scope)[Traceon] = std::make_shared<object>(status.BoolValue());
+	(*(scope->GlobalScope))[Traceon] = std::make_shared<object>(status.BoolValue());
 	return std::make_shared<LispVariant>(std::make_shared<object>(status.BoolValue()));
 }
 
 static std::shared_ptr<LispVariant> GetTracePrint(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> scope)
 {
-	string buffer = (*scope)[Tracebuffer]->ToString(); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
+	std::shared_ptr<object> traceBuffer;
+	string buffer = scope->GlobalScope->ContainsKey(Tracebuffer, &traceBuffer) ? traceBuffer->ToString() : string::Empty; // var buffer = (StringBuilder)(*scope)[Tracebuffer];
 	return std::make_shared<LispVariant>(std::make_shared<object>(buffer));
 }
 
@@ -482,8 +486,10 @@ static std::shared_ptr<LispVariant> CurrentTickCount(const std::vector<std::shar
 	return FuelFuncWrapper0<int>(args, scope, "tickcount", []() -> int { return (int)GetTickCount(); });
 }
 
-static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("sleep", 1, args, scope);
+
 	var timeInMs = ((LispVariant)args[0]).ToInt();
 	std::this_thread::sleep_for(std::chrono::milliseconds(timeInMs));
 	return std::make_shared<LispVariant>(LispVariant());
@@ -656,6 +662,8 @@ static std::shared_ptr<LispVariant> Nop(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> Return(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("return", 1, args, scope);
+
 	scope->IsInReturn = true;
 	return std::make_shared<LispVariant>(LispVariant(args[0]));
 }
@@ -1852,6 +1860,8 @@ static IEnumerable<std::shared_ptr<object>> VectorToList(const std::vector<std::
 
 std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs(Fn, 2, args, scope);
+
 	var name = /*(string)*/scope->UserData.get()!=null ? scope->UserData->ToString() : "";
 	var moduleName = scope->ModuleName;
 	var userDoc = scope->UserDoc;
-- 
2.43.0


From 82489b72cd852f87c95b03e290ae217b8835ef01 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 31/67] fix: variables of enclosing functions hide global
 variables with the same name in closures

---
 CppLisp/CppLispInterpreter/Scope.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 6935321..6106980 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -102,17 +102,17 @@ namespace CppLisp
 			result = item->second;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in global scope
-		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
+		// then try to resolve in closure chain scope(s), variables of enclosing functions hide global variables
+		else if (IsInClosureChain(name, foundClosureScope, &value))
 		{
-			//result = (*GlobalScope)[name];
+			//result = (*foundClosureScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in closure chain scope(s)
-		else if (IsInClosureChain(name, foundClosureScope, &value))
+		// then try to resolve in global scope
+		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
 		{
-			//result = (*foundClosureScope)[name];
+			//result = (*GlobalScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-- 
2.43.0


From c64a7b5d0328fecb6a6877008c64d05104349e26 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 32/67] fix: error messages for bad argument counts of quote
 and if

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 0afff5f..548c16c 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1657,7 +1657,7 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 
 static std::shared_ptr<LispVariant> quote_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(Quote, 1, args, scope);
+	CheckArgs(LispEnvironment::Quote, 1, args, scope);
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(*(args[0])));
 }
@@ -1795,11 +1795,7 @@ std::shared_ptr<LispVariant> quasiquote_form(const std::vector<std::shared_ptr<o
 
 static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	if (!(args.size() == 2 || args.size() == 3))
-	{
-		// throw exception
-		CheckArgs(If, -1, args, scope);
-	}
+	CheckOptionalArgs(If, 2, 3, args, scope);
 
 	var passed = LispInterpreter::EvalAstToValue(args[0], scope)->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
-- 
2.43.0


From bfe615fc5a44a29027ad4f9b6be4d2d054a3d793 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 33/67] fix: error messages for operators show the names of the
 types

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index a10d221..b40c056 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -587,7 +587,7 @@ namespace CppLisp
 
 	LispException LispVariant::CreateInvalidOperationException(const string & operation, const LispVariant & l, const LispVariant & r)
 	{
-		var exception = /*new*/ LispException(string::Format(NoOperatorForTypes, operation, l.Type, r.Type), 0);
+		var exception = /*new*/ LispException(string::Format(NoOperatorForTypes, operation, l.TypeString(), r.TypeString()), 0);
 		exception.AddTokenInfos(l.Token);
 		return exception;
 	}
-- 
2.43.0


From 25a716551ff55b4f5a0febd7e777839ff616efe7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 34/67] fix: documentation of functions can be shown if macros
 or other variables are defined, search includes imported modules

---
 CppLisp/CppLispInterpreter/Environment.cpp |  6 ++----
 CppLisp/CppLispInterpreter/Scope.cpp       | 15 +++++++++++----
 CppLisp/CppLispInterpreter/Scope.h         |  2 ++
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 548c16c..ac6e681 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -355,11 +355,9 @@ static std::shared_ptr<LispVariant> Help(const std::vector<std::shared_ptr<objec
 static std::shared_ptr<LispVariant> DumpDocumentation(std::shared_ptr<LispScope> scope, Action dump)
 {
 	//string text; // var text = new StringBuilder();
-	var tempOutputWriter = scope->GlobalScope->Output;
-	scope->GlobalScope->Output = std::make_shared<TextWriter>(true); // StringWriter(text);
+	RestoreValue<std::shared_ptr<TextWriter>> restoreOutput(scope->GlobalScope->Output, std::make_shared<TextWriter>(true)); // StringWriter(text);
 	dump();
 	string text = scope->GlobalScope->Output->GetContent();
-	scope->GlobalScope->Output = tempOutputWriter;
 	return std::make_shared<LispVariant>(std::make_shared<object>(text));
 }
 
@@ -372,7 +370,7 @@ static std::shared_ptr<LispVariant> DoSearchDocumentation(const std::vector<std:
 		{
 			help += scope->GetFunctionsHelpFormated(item->ToString(), select);
 			// search for functions in all loaded modules
-			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
+			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef();
 			for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
 			{
 				help += module.second->GetLispScopeRef()->GetFunctionsHelpFormated(item->ToString(), select);
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 6106980..fe7698c 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -247,6 +247,12 @@ namespace CppLisp
 
 #endif
 
+	bool LispScope::IsFunction(const string & name)
+	{
+		std::shared_ptr<object> value;
+		return ContainsKey(name, &value) && value != null && value->IsLispVariant() && value->ToLispVariantRef().IsFunction();
+	}
+
 	string LispScope::GetFunctionsHelpFormated(const string & functionName, /*Func<string, string, bool>*/std::function<bool(const string &, const string &)> select)
 	{
 		string result = string::Empty;
@@ -255,13 +261,13 @@ namespace CppLisp
 		{
 			if (select != null)
 			{
-				if (select(key, functionName))
+				if (select(key, functionName) && IsFunction(key))
 				{
 					const LispVariant & value = /*(LispVariant)*/(*this)[key]->ToLispVariantRef();
 					result += value.FunctionValue().GetFormatedDoc();
 				}
 			}
-			else if (key.StartsWith(functionName))
+			else if (key.StartsWith(functionName) && IsFunction(key))
 			{
 				const LispVariant & value = /*(LispVariant)*/(*this)[key]->ToLispVariantRef();
 				result += value.FunctionValue().GetFormatedDoc();
@@ -295,9 +301,10 @@ namespace CppLisp
 		}
 		for (var key : keys)
 		{
-			if (!key.StartsWith(LispEnvironment::MetaTag))
+			std::shared_ptr<object> item = (*this)[key];
+			if (!key.StartsWith(LispEnvironment::MetaTag) && item != null && item->IsLispVariant())
 			{
-				const LispVariant & value = /*(LispVariant)*/(*this)[key]->ToLispVariantRef();
+				const LispVariant & value = item->ToLispVariantRef();
 				if (select(value))
 				{
 					if (format != null)
diff --git a/CppLisp/CppLispInterpreter/Scope.h b/CppLisp/CppLispInterpreter/Scope.h
index e35cab7..c92377c 100644
--- a/CppLisp/CppLispInterpreter/Scope.h
+++ b/CppLisp/CppLispInterpreter/Scope.h
@@ -269,6 +269,8 @@ namespace CppLisp
         }
 #endif
 
+		/*public*/ bool IsFunction(const string & name);
+
 		/*public*/ string GetFunctionsHelpFormated(const string & functionName, /*Func<string, string, bool>*/std::function<bool(const string &, const string &)> select = null);
 
         //#endregion
-- 
2.43.0


From 36bfc4ac7f6232b1c0af02496bc18b23b87cbe02 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 35/67] fix: tracing modus of new scopes is initialized

---
 CppLisp/CppLispInterpreter/Scope.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index fe7698c..91e8f5b 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -35,6 +35,7 @@ namespace CppLisp
 		IsInEval = false;
 		IsInReturn = false;
 		NeedsLValue = false;
+		Tracing = false;
 		Name = fcnName;
 		ModuleName = moduleName ? *moduleName : string::Empty;
 		//GlobalScope = globalScope != null ? globalScope : shared_from_this();
-- 
2.43.0


From 9d27bfc28235053716fd1e7bba69ef99f9e3ae59 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 36/67] fix: results without value are nil in evaluations of
 scripts

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 7 ++++---
 CppLisp/CppLispInterpreter/fuel.cpp | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 0b67c2a..8d183b9 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -124,12 +124,12 @@ namespace CppLisp
 		string code = /*LispUtils.*/DecorateWithBlock(lispCode, /*out*/ offset);
 		var ast = LispParser::Parse(code, offset, currentScope);
 #ifdef ENABLE_COMPILE_TIME_MACROS 
-		var expandedAst = std::make_shared<object>(*(LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope)));
+		var expandedAst = LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope);
 #else
 		var expandedAst = std::make_shared<object>(*ast);
 #endif
 		std::shared_ptr<LispVariant> result;
-		if (onlyMacroExpand)
+		if (onlyMacroExpand && expandedAst != null)
 		{
 			result = std::make_shared<LispVariant>(LispVariant(expandedAst));
 		}
@@ -181,7 +181,8 @@ namespace CppLisp
 		{
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
-		return result;
+		// an expression without value is nil
+		return result != null ? result : std::make_shared<LispVariant>(LispType::_Nil);
 	}
 
 	void Lisp::RegisterNativeObjects(/*Dictionary<string, object> nativeItems,*/ LispScope & /*currentScope*/)
diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 9baa8c8..bdab1fb 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -338,6 +338,11 @@ namespace CppLisp
 			result = Lisp::SaveEval(script, /*moduleName:*/ "cmdline", /*verboseErrorOutput:*/ false, /*tracing:*/ false, output, input, macroExpand);
 		}
 
+		if (result == null)
+		{
+			// an expression without value is nil
+			result = std::make_shared<LispVariant>(LispType::_Nil);
+		}
 		if (macroExpand)
 		{
 			output->WriteLine(string("Macro expand: ") + result->ToString());
-- 
2.43.0


From b9ae219626c33efc1bc32141b9945831e892c267 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 37/67] fix: library path option is accepted at every position,
 missing script for option -e

---
 CppLisp/CppLispInterpreter/fuel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index bdab1fb..a8d964b 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -211,11 +211,13 @@ namespace CppLisp
 		}
 		if (ContainsOptionAndRemove(allArgs, "-e"))
 		{
-			script = /*LispUtils.*/GetScriptFilesFromProgramArgs(args)[0]/*.FirstOrDefault()*/;
+			var scripts = /*LispUtils.*/GetScriptFilesFromProgramArgs(args);
+			script = scripts.size() > 0 ? scripts.front() : string::Empty/*.FirstOrDefault()*/;
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-		var libPath = std::vector<string>(std::find_if(args.begin(), args.end(), [](const string & v) -> bool { return v.StartsWith("-l="); }), args.end());
+		std::vector<string> libPath;
+		std::copy_if(args.begin(), args.end(), back_inserter(libPath), [](const string & v) -> bool { return v.StartsWith("-l="); });
 		if (libPath.size() > 0)
 		{
 			if (libPath.size() == 1)
-- 
2.43.0


From 70dfedb9912af278c6535ba00ca7db1c2c59c08c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 38/67] fix: characters outside of the ASCII range and
 separators with more than one character in string functions

---
 CppLisp/CppLispInterpreter/csstring.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index db5a6a2..d3b3489 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -69,14 +69,14 @@ namespace CppLisp
 	string string::ToUpper() const
 	{
 		string temp = *this;
-		std::transform(temp.begin(), temp.end(), temp.begin(), std::ptr_fun<int, int>(std::toupper));
+		std::transform(temp.begin(), temp.end(), temp.begin(), [](unsigned char c) -> char { return (char)std::toupper(c); });
 		return temp;
 	}
 
 	string string::ToLower() const
 	{
 		string temp = *this;
-		std::transform(temp.begin(), temp.end(), temp.begin(), std::ptr_fun<int, int>(std::tolower));
+		std::transform(temp.begin(), temp.end(), temp.begin(), [](unsigned char c) -> char { return (char)std::tolower(c); });
 		return temp;
 	}
 
@@ -84,8 +84,8 @@ namespace CppLisp
 	{
 		// https://stackoverflow.com/questions/216823/whats-the-best-way-to-trim-stdstring
 		string s = *this;
-		s.erase(s.begin(), std::find_if_not(s.begin(), s.end(), [](char c) { return std::isspace(c); }));
-		s.erase(std::find_if_not(s.rbegin(), s.rend(), [](char c) { return std::isspace(c); }).base(), s.end());
+		s.erase(s.begin(), std::find_if_not(s.begin(), s.end(), [](unsigned char c) { return std::isspace(c) != 0; }));
+		s.erase(std::find_if_not(s.rbegin(), s.rend(), [](unsigned char c) { return std::isspace(c) != 0; }).base(), s.end());
 		return s;
 	}
 
@@ -102,7 +102,8 @@ namespace CppLisp
 
 			output.push_back(substring);
 
-			prev_pos = ++pos;
+			pos += seperator.size() > 0 ? seperator.size() : 1;
+			prev_pos = pos;
 		}
 
 		output.push_back(s.substr(prev_pos, pos - prev_pos)); // Last word
-- 
2.43.0


From 71a38b953d900e7a6ac1ad9f6afb1dd3ed4655c3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 39/67] fix: a return statement does not stop later evaluations
 of the same scope, date-time is thread safe

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 +++++++-
 CppLisp/CppLispInterpreter/Lisp.cpp        | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index ac6e681..4f0ec8a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -496,7 +496,13 @@ static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<obj
 static std::shared_ptr<LispVariant> Datetime(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> /*scope*/)
 {
 	std::time_t t = std::time(0);   // get time now
-	std::tm* now = std::localtime(&t);
+	std::tm localNow;
+#if defined(_WIN32) || defined(_WIN64)
+	localtime_s(&localNow, &t);
+#else
+	localtime_r(&t, &localNow);
+#endif
+	std::tm* now = &localNow;
 
 	var year = now->tm_year;
 	var month = now->tm_mon;
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 8d183b9..661e602 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -117,6 +117,11 @@ namespace CppLisp
 		var currentScope = scope == null ? LispEnvironment::CreateDefaultScope() : scope;
 		currentScope->ModuleName = moduleName;
 		currentScope->Tracing = tracing;
+		if (!currentScope->IsInEval)
+		{
+			// a return statement is valid for the evaluation of its own code only
+			currentScope->IsInReturn = false;
+		}
 		currentScope->Output = outp != null ? outp : (scope != null ? scope->Output : std::make_shared<TextWriter>());
 		currentScope->Input = inp != null ? inp : (scope != null ? scope->Input : std::make_shared<TextReader>());
 		RegisterNativeObjects(/*nativeItems,*/ *currentScope);
-- 
2.43.0


From 03b5e5770654ec53dea9442956ffb9e4d50fa683 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 40/67] fix: evaluation of expressions in the debugger
 (conditions, commands) does not change the state of the debugged program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 64 +++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 01deeef..1f82ce5 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -43,6 +43,49 @@ extern "C" CppLisp::ILispDebugger * create_debugger()
 
 namespace CppLisp
 {
+	// evaluates expressions for the debugger (for example conditions of breakpoints):
+	// the state of the debugged program is not changed by the evaluation itself and
+	// the debugger does not stop in the evaluated expression
+	class DebuggerEvalState
+	{
+	private:
+		std::shared_ptr<LispScope> m_Scope;
+		std::shared_ptr<LispScope> m_GlobalScope;
+		std::shared_ptr<LispToken> m_CurrentToken;
+		IEnumerable<std::shared_ptr<LispToken>> m_Tokens;
+		ILispDebugger * m_Debugger;
+		bool m_Tracing;
+		bool m_GlobalTracing;
+		bool m_IsInReturn;
+
+		DebuggerEvalState(const DebuggerEvalState & other);
+		DebuggerEvalState & operator=(const DebuggerEvalState & other);
+
+	public:
+		explicit DebuggerEvalState(std::shared_ptr<LispScope> scope)
+			: m_Scope(scope), m_GlobalScope(scope->GlobalScope), m_CurrentToken(scope->CurrentToken), m_Tokens(scope->Tokens),
+			  m_Debugger(m_GlobalScope->Debugger), m_Tracing(scope->Tracing), m_GlobalTracing(m_GlobalScope->Tracing), m_IsInReturn(scope->IsInReturn)
+		{
+			m_GlobalScope->Debugger = null;
+			m_GlobalScope->Tracing = false;
+		}
+		~DebuggerEvalState()
+		{
+			m_GlobalScope->Debugger = m_Debugger;
+			m_Scope->Tracing = m_Tracing;
+			m_GlobalScope->Tracing = m_GlobalTracing;
+			m_Scope->CurrentToken = m_CurrentToken;
+			m_Scope->Tokens = m_Tokens;
+			m_Scope->IsInReturn = m_IsInReturn;
+		}
+	};
+
+	static string ResultToString(std::shared_ptr<LispVariant> result)
+	{
+		// an expression without value is nil
+		return (result != null ? *result : LispVariant(LispType::_Nil)).ToString();
+	}
+
 	LispDebugger::LispDebugger()
 	{
 		Breakpoints = std::vector<LispBreakpointInfo>();
@@ -124,6 +167,7 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(doc '" + items[1] + ")";
+					DebuggerEvalState debuggerEvalState(currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 					debugger->Output->WriteLine(string("{0}"), result->ToString());
 				}
@@ -138,6 +182,7 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(searchdoc '" + items[1] + ")";
+					DebuggerEvalState debuggerEvalState(currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 					debugger->Output->WriteLine(string("{0}"), result->ToString());
 				}
@@ -241,8 +286,9 @@ namespace CppLisp
 			{
 				try
 				{
+					DebuggerEvalState debuggerEvalState(currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
-					debugger->Output->WriteLine("result={0}", result->ToString());
+					debugger->Output->WriteLine("result={0}", ResultToString(result));
 					interactiveScript += cmd + "\n";
 				}
 				catch (LispExceptionBase & ex)
@@ -264,10 +310,11 @@ namespace CppLisp
 		if (currentAst != null)
 		{
 			var lineNumber = initialTopScope != null ? initialTopScope->CurrentLineNo() : 0;
-			var startPos = initialTopScope != null ? initialTopScope->CurrentToken->StartPos : 0;
-			var stopPos = initialTopScope != null ? initialTopScope->CurrentToken->StopPos : 0;
+			var currentToken = initialTopScope != null ? initialTopScope->CurrentToken : null;
+			var startPos = currentToken != null ? currentToken->StartPos : 0;
+			var stopPos = currentToken != null ? currentToken->StopPos : 0;
 			var moduleName = initialTopScope != null ? initialTopScope->ModuleName : "?";
-			var tokenTxt = initialTopScope != null ? initialTopScope->CurrentToken->ToString() : "?";
+			var tokenTxt = currentToken != null ? currentToken->ToString() : "?";
 			Output->WriteLine("--> " + (*((*currentAst).begin()))->ToString()/*[0]*/ + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
 		}
 		InteractiveLoop(this, initialTopScope, startedFromMain, tracing, outp, inp);
@@ -357,13 +404,18 @@ namespace CppLisp
 				{
 					try
 					{
+						DebuggerEvalState debuggerEvalState(scope);
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
-						return result->BoolValue();
+						if (result != null && result->BoolValue())
+						{
+							return true;
+						}
+						continue;
 					}
 					catch (...)
 					{
 						Output->WriteLine("Error: bad condition for line {0}: {1}", std::to_string(breakpoint.LineNo), breakpoint.Condition);
-						return false;
+						continue;
 					}
 				}
 				return true;
-- 
2.43.0


From 9244bb063a2bb56c438fe784d2c90933edf02496 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 41/67] fix: invalid line numbers and module names for
 breakpoints are reported, clear stops at the end of the input

---
 CppLisp/CppLispDebugger/Debugger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 1f82ce5..28f0607 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -551,7 +551,8 @@ namespace CppLisp
 					{
 						answer = answer.ToUpper();
 					}
-				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
+					// an empty answer (for example at the end of the input) means no
+				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO" || string::IsNullOrEmpty(answer)));
 				if (answer == "Y" || answer == "YES")
 				{
 					debugger->ClearAllBreakpoints();
@@ -573,7 +574,7 @@ namespace CppLisp
 				// process: filename:linenumber
 				size_t iStopPos;
 				moduleName = GetStringLiteral(rest.Substring(1), /*out*/ iStopPos);
-				rest = rest.Substring(iStopPos + 2); // adjust for the two "
+				rest = iStopPos + 2 <= rest.size() ? rest.Substring(iStopPos + 2) : string::Empty; // adjust for the two "
 				if (rest.StartsWith(":"))
 				{
 					cmdArgs = rest.Substring(1).Split(' ');
@@ -669,7 +670,9 @@ namespace CppLisp
 		var ok = true;
 		try
 		{
-			result = /*Convert.ToInt32*/atoi(value.c_str());
+			size_t index = 0;
+			result = /*Convert.ToInt32*/std::stoi(value, &index);
+			ok = index == value.size();
 		}
 		catch (/*FormatException*/...)
 		{
-- 
2.43.0


From bb1ea483378c0cb02bd1f1d433cfb615cd9f5fe9 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 42/67] fix: errors of special forms are reported with the
 position of the special form

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 63728fb..a30cbb1 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -87,6 +87,15 @@ namespace CppLisp
 		return result != null ? result : std::make_shared<LispVariant>(LispType::_Nil);
 	}
 
+	// update the current position, evaluation of arguments may have changed the position
+	static void RestoreCurrentToken(std::shared_ptr<LispToken> token, std::shared_ptr<LispScope> scope)
+	{
+		if (token != null)
+		{
+			scope->CurrentToken = token;
+		}
+	}
+
 	std::shared_ptr<LispVariant> LispInterpreter::EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
 	{
 		if (ast.get() == null)
@@ -222,7 +231,7 @@ namespace CppLisp
 #endif
 
 		// evaluation of the arguments may have changed the current position
-		scope->CurrentToken = currentToken != null ? currentToken : scope->CurrentToken;
+		RestoreCurrentToken(currentToken, scope);
 
 		// call the function with the arguments
 		try
@@ -236,6 +245,7 @@ namespace CppLisp
 			var moduleName = exc.Data["ModuleName"];
 			if (moduleName != null && moduleName->ToString() == "???")
 			{
+				RestoreCurrentToken(currentToken, scope);
 				exc.AddTokenInfos(scope->CurrentToken);
 				exc.AddModuleNameAndStackInfos(scope->ModuleName, GetStackInfo(scope));
 			}
@@ -243,10 +253,12 @@ namespace CppLisp
 		}
 		catch (LispExceptionBase & exc)
 		{
+			RestoreCurrentToken(currentToken, scope);
 			throw LispException(exc.Message, scope.get());
 		}
 		catch (std::exception & exc)
 		{
+			RestoreCurrentToken(currentToken, scope);
 			throw LispException(exc.what(), scope.get());
 		}
 	}
-- 
2.43.0


From 54fbdb58525065dd7aa26eb82671e3f86578daa7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 43/67] fix: setf of an unknown symbol is reported with the
 position of setf

---
 CppLisp/CppLispInterpreter/Scope.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 91e8f5b..8795454 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -152,7 +152,7 @@ namespace CppLisp
 		}
 		else
 		{
-			throw LispException("Symbol " + symbolName + " not found", this);
+			throw LispExceptionBase("Symbol " + symbolName + " not found");
 		}
 	}
 
-- 
2.43.0


From a289bb9c8b6661b55659f1beb2a2430c018bf679 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 44/67] fix: arguments of macros which are named like formal
 arguments of the macro are not replaced

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index a30cbb1..7abb987 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -423,11 +423,25 @@ namespace CppLisp
 		return ret;
 	}
 
+	// symbol for a formal argument of a macro while replacing the arguments
+	static LispVariant GetMacroArgumentMarker(int argNo)
+	{
+		return LispVariant(LispType::_Symbol, std::make_shared<object>(LispEnvironment::MetaTag + "macroarg" + std::to_string(argNo) + LispEnvironment::MetaTag));
+	}
+
 	std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispInterpreter::ReplaceFormalArgumentsInExpression(std::shared_ptr<IEnumerable<std::shared_ptr<object>>> formalArguments, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> astAsList, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, std::shared_ptr<LispScope> scope, /*ref*/ bool & anyMacroReplaced)
 	{
-		// replace (quoted-macro-args) --> '(<real_args>)
 		int i = 1;
 		bool replaced = false;
+
+		// mark all formal arguments of the macro code, the real arguments may contain symbols with the names of formal arguments
+		for (var formalArgument : *formalArguments)
+		{
+			expression = ReplaceSymbolWithValueInExpression(formalArgument->ToLispVariantRef(), std::make_shared<object>(GetMacroArgumentMarker(i)), expression, false, /*ref*/ replaced);
+			i++;
+		}
+
+		// replace (quoted-macro-args) --> '(<real_args>)
 		IEnumerable<std::shared_ptr<object>> realArguments = astAsList->Skip(1)/*.ToList()*/;
 		IEnumerable<std::shared_ptr<object>> lst;
 		lst.Add(std::make_shared<object>(LispVariant(LispType::_Symbol, std::make_shared<object>(LispEnvironment::Quote))));
@@ -441,7 +455,8 @@ namespace CppLisp
 			throw LispException(string::Format("Bad argument count in macro {0}, has {1} expected {2}", astAsList->First()->ToString(), std::to_string(realArguments.Count()), std::to_string(formalArguments->Count())), scope.get());
 		}
 
-		for (var formalArgument : *formalArguments)
+		i = 1;
+		for (size_t n = 0; n < formalArguments->Count(); n++)
 		{
 			std::shared_ptr<object> value;
 			auto elem = (*astAsList)[i];
@@ -453,7 +468,7 @@ namespace CppLisp
 			{
 				value = std::make_shared<object>(LispVariant((*astAsList)[i]));
 			}
-			expression = ReplaceSymbolWithValueInExpression(/*(LispVariant)*/formalArgument->ToLispVariantRef(), value, expression, false, /*ref*/ anyMacroReplaced);
+			expression = ReplaceSymbolWithValueInExpression(GetMacroArgumentMarker(i), value, expression, false, /*ref*/ anyMacroReplaced);
 			i++;
 		}
 		return expression;
-- 
2.43.0


From a73d001d3918b080956880d680da3e0dd45bd7b6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 45/67] fix: position of a missing list belongs to the failing
 call of map or reduce

---
 CppLisp/CppLispInterpreter/Environment.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 4f0ec8a..8f5b2ea 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2205,7 +2205,12 @@ std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispEnvironment::CheckForL
 		sStack = scope->DumpStackToString();
 #endif
 		var token = scope->GetPreviousToken(value.Token);
-		throw LispException("No list in " + functionName, token != null ? token : scope->CurrentToken, scope->ModuleName, sStack);
+		// the value may be created by an other expression, the position must belong to the current call
+		if (token == null || (scope->CurrentToken != null && token->LineNo != scope->CurrentToken->LineNo))
+		{
+			token = scope->CurrentToken;
+		}
+		throw LispException("No list in " + functionName, token, scope->ModuleName, sStack);
 	}
 	return value.ListValue();
 }
-- 
2.43.0


From 6b64d812b4ffde5df61c12d4c060ab449179c9a1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 46/67] fix: evalstr does not switch off tracing of the running
 script

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8f5b2ea..cf6a64c 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1449,7 +1449,7 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	const LispVariant & variant = args[0]->ToLispVariantRef();
 	RestoreValue<string> restoreModuleName(scope->ModuleName);
 	RestoreValue<bool> restoreIsInEval(scope->IsInEval, true);
-	return Lisp::Eval(variant.StringValue(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.StringValue());
+	return Lisp::Eval(variant.StringValue(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.StringValue(), scope->Tracing);
 }
 
 static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 0c3b0c99ac6530bf420bc50b022e24dac4858497 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 47/67] fix: a semicolon inside of a string does not increase
 the line number

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index c89afef..16c5e77 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -102,18 +102,17 @@ namespace CppLisp
 				{
 					currentToken += ch;
 				}
-				else if (isInSymbol)
-				{
-					addToken(currentToken, i, lineCount);
-					i = ProcessComment(code, i, lineCount, ch, addToken);
-				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					i = ProcessComment(code, i, lineCount, ch, addToken);
+					// comment ends always with new line
+					lineCount++;
 				}
 				wasLastBackslash = false;
-				// comment ends always with new line
-				lineCount++;
 			}
 			else if (ch == '\'' || ch == '`' || ch == ',')
 			{
-- 
2.43.0


From 9f9c30b624b57627432d120b5ecbfeb3ca21d876 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 48/67] fix: the constant nil in quoted lists is nil and not an
 empty list

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 7abb987..a4907cc 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -286,13 +286,14 @@ namespace CppLisp
 		return result;
 	}
 
-	static std::shared_ptr<object> ConvertLispVariantListToListIfNeeded(std::shared_ptr<object> something)
+	static std::shared_ptr<object> ConvertLispVariantListToListIfNeeded(std::shared_ptr<object> something, bool convertNil)
 	{
 		if (something->IsLispVariant())
 		{
 			std::shared_ptr<LispVariant> variant = something->ToLispVariant();
 
-			if (variant.get() != null && variant->IsList())
+			// the constant nil is a value and not an empty list
+			if (variant.get() != null && variant->IsList() && (convertNil || !variant->IsNil()))
 			{
 				return std::make_shared<object>(variant->ListValueRef());
 			}
@@ -347,7 +348,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				return ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*EvalAstToValue(astWithReplacedArguments, globalScope)));
+				return ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*EvalAstToValue(astWithReplacedArguments, globalScope)), /*convertNil:*/ true);
 			}
 		}
 
@@ -360,7 +361,7 @@ namespace CppLisp
 			if (expandResult != null)
 			{
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				expandedAst->Add(ConvertLispVariantListToListIfNeeded(expandResult));
+				expandedAst->Add(ConvertLispVariantListToListIfNeeded(expandResult, /*convertNil:*/ false));
 			}
 		}
 
-- 
2.43.0


From 067d18cb0e49e350e121cc6b612d8fc29f3cb8de Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 49/67] fix: date-time returns the calendar year and month

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index cf6a64c..35caa95 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -504,8 +504,8 @@ static std::shared_ptr<LispVariant> Datetime(const std::vector<std::shared_ptr<o
 #endif
 	std::tm* now = &localNow;
 
-	var year = now->tm_year;
-	var month = now->tm_mon;
+	var year = now->tm_year + 1900;
+	var month = now->tm_mon + 1;
 	var day = now->tm_mday;
 	var hour = now->tm_hour;
 	var minute = now->tm_min;
-- 
2.43.0


From c3bc20208759f36a062b609b590b70d002e7bcd9 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 50/67] fix: text of nil and other values in string
 concatenations is their printed text

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index b40c056..c55f1e5 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -374,7 +374,7 @@ namespace CppLisp
 	{
 		if (IsString() || r.IsString())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(StringValue() + r.StringValue()));
+			return /*new*/ LispVariant(std::make_shared<object>(ToString() + r.ToString()));
 		}
 		if (IsDouble() || r.IsDouble())
 		{
-- 
2.43.0


From 93e1d899851daeaa540d8a0bdb9d4ee0f958221d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 51/67] fix: File-WriteAllText reports errors which occur when
 the file is closed

---
 CppLisp/CppLispInterpreter/Environment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 35caa95..7865289 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -116,6 +116,7 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 {
 	std::ofstream ofs(fileName);
 	ofs << content;
+	ofs.close();
 	return ofs.good();
 }
 
-- 
2.43.0


From 72ab573b01f73c96492a23c48ee5d077d9e9af44 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 52/67] fix: signature of the left shift function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 7865289..526c731 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2463,7 +2463,7 @@ std::shared_ptr<LispScope> LispEnvironment::CreateDefaultScope()
 	(*scope)["%"] = CreateFunction(Modulo, "(% expr1 expr2)", "see: mod");
 
 	(*scope)[">>"] = CreateFunction(RightShift, "(>> expr1 expr2)", "Integer right shift. Returns integer expression1 right shifted for expression2 binary digits.");
-	(*scope)["<<"] = CreateFunction(LeftShift, "(>> expr1 expr2)", "Integer left shift. Returns integer expression1 left shifted for expression2 binary digits.");
+	(*scope)["<<"] = CreateFunction(LeftShift, "(<< expr1 expr2)", "Integer left shift. Returns integer expression1 left shifted for expression2 binary digits.");
 	(*scope)["|"] = CreateFunction(BinaryOr, "(| expr1 expr2)", "Binary or for integer numbers (bitwise or).");
 	(*scope)["&"] = CreateFunction(BinaryAnd, "(& expr1 expr2)", "Binary and for integer numbers (bitwise and).");
 	(*scope)["^"] = CreateFunction(BinaryXOr, "(^ expr1 expr2)", "Binary xor for integer numbers (bitwise xor).");
-- 
2.43.0


From a3294d4e0b6a03acb0dc27af06c1a2546905677c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 53/67] fix: compile time macros are expanded in modules and in
 text evaluated inside of functions

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index a4907cc..580a57b 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -318,8 +318,10 @@ namespace CppLisp
 		// compile time macro: process define-macro statements ==> call special form, this will add macro to global scope as side effect
 		var function = astAsList.front();
 		var functionName = function->ToString();
+		// macros are always managed in the global scope, also for modules and functions
+		var macroScope = globalScope != null ? globalScope->GlobalScope : null;
 		std::shared_ptr<object> globalValue;
-		if (globalScope != null && globalScope->ContainsKey(functionName, &globalValue) && globalValue != null && globalValue->ToLispVariantRef().IsFunction())
+		if (macroScope != null && macroScope->ContainsKey(functionName, &globalValue) && globalValue != null && globalValue->ToLispVariantRef().IsFunction())
 		{
 			const LispFunctionWrapper & fcn = globalValue->ToLispVariantRef().FunctionValue();
 			if (fcn.IsEvalInExpand())
@@ -339,9 +341,9 @@ namespace CppLisp
 		}
 
 		// compile time macros: process macro expansion in an expression which calls a macro
-		if (LispEnvironment::IsMacro(function, globalScope))
+		if (LispEnvironment::IsMacro(function, macroScope))
 		{
-			var macro = LispEnvironment::GetMacro(function, globalScope);
+			var macro = LispEnvironment::GetMacro(function, macroScope);
 			if (macro->IsLispMacroCompileTimeExpand())
 			{
 				anyMacroReplaced = true;
-- 
2.43.0


From bc01cda5cee871842f1c11381424e7b5ab07d8d1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 54/67] fix: bad argument counts are reported with the name of
 the called function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 526c731..42a64b6 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -993,7 +993,7 @@ static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> LeftShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "left-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
 }
 
 static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
@@ -1003,17 +1003,17 @@ static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> BinaryOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() | arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "binary-or", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() | arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryAnd(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() & arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "binary-and", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() & arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryXOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() ^ arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "binary-xor", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() ^ arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryNot(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
@@ -1521,7 +1521,7 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 
 static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs("dict-clean", 1, args, scope);
+	CheckArgs("dict-clear", 1, args, scope);
 
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = GetDictionaryArg(args[0]);
 	dict.Clear();
@@ -2242,7 +2242,7 @@ static std::shared_ptr<object> QueryItem(std::shared_ptr<object> funcName, LispS
 
 std::shared_ptr<LispVariant> FileExits(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs("File-Exits", 1, args, scope);
+	CheckArgs("File-Exists", 1, args, scope);
 
 	var fileName = args[0]->ToLispVariantRef().ToString();
 	return std::make_shared<LispVariant>(std::make_shared<object>(File_Exists(fileName)));
@@ -2352,7 +2352,7 @@ std::shared_ptr<LispVariant> Math_round(const std::vector<std::shared_ptr<object
 
 std::shared_ptr<LispVariant> Math_truncate(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return Math_function("Math-Truncated", [](double x) { return trunc(x); }, args, scope);
+	return Math_function("Math-Truncate", [](double x) { return trunc(x); }, args, scope);
 }
 
 std::shared_ptr<LispVariant> Math_abs(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 0b20fe1e94cae077abff915bcf24bd38606f1769 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 55/67] fix: rval returns the value of a variable and not its
 symbol

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 42a64b6..21a0045 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1336,7 +1336,7 @@ static std::shared_ptr<LispVariant> RValue(const std::vector<std::shared_ptr<obj
 	CheckArgs("rval", 1, args, scope);
 
 	RestoreValue<bool> restoreNeedsLValue(scope->NeedsLValue, false);
-	return EvalArgIfNeeded(args[0], scope);
+	return LispInterpreter::EvalAstToValue(args[0], scope);
 }
 
 static std::shared_ptr<LispVariant> SymbolFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 16eca7c919b800052bb3062a581b9ba333f31c24 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 56/67] fix: code made by a compile time macro is code at every
 depth

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 580a57b..b2e30d5 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -302,6 +302,22 @@ namespace CppLisp
 		return something;
 	}
 
+	// the code made by a macro may contain list values at any depth
+	static std::shared_ptr<object> ConvertMacroResultToCode(std::shared_ptr<object> something, bool convertNil)
+	{
+		something = ConvertLispVariantListToListIfNeeded(something, convertNil);
+		if (something->IsIEnumerableOfObject() || something->IsList())
+		{
+			IEnumerable<std::shared_ptr<object>> code;
+			for (var elem : something->ToEnumerableOfObjectRef())
+			{
+				code.Add(ConvertMacroResultToCode(elem, /*convertNil:*/ false));
+			}
+			return std::make_shared<object>(code);
+		}
+		return something;
+	}
+
 	std::shared_ptr<object> LispInterpreter::ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope, /*ref*/ bool & anyMacroReplaced)
 	{
 		if (ast == null || ast->IsLispVariant())
@@ -350,7 +366,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				return ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*EvalAstToValue(astWithReplacedArguments, globalScope)), /*convertNil:*/ true);
+				return ConvertMacroResultToCode(std::make_shared<object>(*EvalAstToValue(astWithReplacedArguments, globalScope)), /*convertNil:*/ true);
 			}
 		}
 
-- 
2.43.0


From 21a445e974de6456ac3ff385a3f5e8cee1e13aa3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 57/67] fix: a directory given as script or file is no readable
 file

---
 CppLisp/CppLispInterpreter/Environment.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 21a0045..b70acb6 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -30,6 +30,7 @@
 
 #include <map>
 #include <fstream>
+#include <sstream>
 
 #include <chrono>
 #include <thread>
@@ -101,15 +102,19 @@ namespace CppLisp
 
 static bool File_Exists(const string & fileName)
 {
+	// a directory can be opened but not be read
 	std::ifstream infile(fileName);
-	return infile.good();
+	infile.peek();
+	return infile.is_open() && !infile.bad();
 }
 
 std::string ReadFileOrEmptyString(const std::string & fileName)
 {
 	std::ifstream ifs(fileName);
-	std::string content = std::string((std::istreambuf_iterator<char>(ifs)), (std::istreambuf_iterator<char>()));
-	return std::string(content);
+	// a file which can not be read (for example a directory) sets the error state of the stream instead of throwing an exception
+	std::ostringstream content;
+	content << ifs.rdbuf();
+	return content.str();
 }
 
 bool WriteTextFile(const std::string & fileName, const std::string & content)
-- 
2.43.0


From 3ca683908b5ffd0b457ed3e11453e24f7f4e7d2d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 58/67] fix: the debugger shows the position of the call it
 stops at

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index b2e30d5..1cceacd 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -221,6 +221,9 @@ namespace CppLisp
 			arguments.push_back(result);
 		}
 
+		// evaluation of the arguments may have changed the current position
+		RestoreCurrentToken(currentToken, scope);
+
 #ifndef _DISABLE_DEBUGGER
 		// debugger processing
 		var debugger = scope->GlobalScope->Debugger;
@@ -230,9 +233,6 @@ namespace CppLisp
 		}
 #endif
 
-		// evaluation of the arguments may have changed the current position
-		RestoreCurrentToken(currentToken, scope);
-
 		// call the function with the arguments
 		try
 		{
-- 
2.43.0


From 84cb03d69ef68f7ed47442a25c94a1cc550eeba8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 59/67] fix: the code command of the debugger shows all of the
 evaluated string

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 28f0607..77fad14 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -213,7 +213,7 @@ namespace CppLisp
 				}
 				else
 				{
-					script = moduleName.StartsWith(LispEnvironment::EvalStrTag) ? moduleName.Substring(LispEnvironment::EvalStrTag.size() + moduleName.IndexOf(":", LispEnvironment::EvalStrTag.size())) : /*LispUtils*/ReadFileOrEmptyString(moduleName);
+					script = moduleName.StartsWith(LispEnvironment::EvalStrTag) ? moduleName.Substring(moduleName.IndexOf(":", LispEnvironment::EvalStrTag.size()) + 1) : /*LispUtils*/ReadFileOrEmptyString(moduleName);
 				}
 				// use the script given on command line if no valid module name was set
 				if (string::IsNullOrEmpty(script))
-- 
2.43.0


From 7450b4ae921ed8f714979214cec9e15d1d148053 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 60/67] fix: variables of imported modules show their current
 values outside of the module

---
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 CppLisp/CppLispInterpreter/csobject.cpp    | 12 +++++++++---
 CppLisp/CppLispInterpreter/csobject.h      |  3 ++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b70acb6..bfd105e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -659,7 +659,7 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			result = Lisp::Eval(code, importScope, fileName);
 
 			// add new module to modules scope
-			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
+			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(importScope); // .Add(fileName, importScope);
 		}
 	}
 	return result;
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 7c00bb2..1f4e5c2 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -64,7 +64,13 @@ namespace CppLisp
 	object::object(const LispScope & value)
 		: m_Type(ObjectType::__LispScope)
 	{
-		m_Data.pScope = new LispScope(value);
+		m_Data.pScope = new std::shared_ptr<LispScope>(std::make_shared<LispScope>(value));
+	}
+
+	object::object(std::shared_ptr<LispScope> value)
+		: m_Type(ObjectType::__LispScope)
+	{
+		m_Data.pScope = new std::shared_ptr<LispScope>(value);
 	}
 
 	object::object(std::function<void(std::shared_ptr<object>)> action)
@@ -83,7 +89,7 @@ namespace CppLisp
 		}
 		else if (other.IsLispScope())
 		{
-			m_Data.pScope = new LispScope(*(other.GetLispScopeRef()));
+			m_Data.pScope = new std::shared_ptr<LispScope>(*(other.m_Data.pScope));
 		}
 		else if (other.IsLispFunctionWrapper())
 		{
@@ -449,7 +455,7 @@ namespace CppLisp
 	{
 		if (IsLispScope())
 		{
-			return m_Data.pScope;
+			return m_Data.pScope->get();
 		}
 		return null;
 	}
diff --git a/CppLisp/CppLispInterpreter/csobject.h b/CppLisp/CppLispInterpreter/csobject.h
index 341dc85..0eec1d8 100644
--- a/CppLisp/CppLispInterpreter/csobject.h
+++ b/CppLisp/CppLispInterpreter/csobject.h
@@ -116,7 +116,7 @@ namespace CppLisp
 // TODO --> maybe use shared_ptr, so we can return the correct reference and no copy (i. e. for pCompileMacro) --> search for return copy
 			std::string * pString;
 			LispVariant * pVariant;
-			LispScope * pScope;
+			std::shared_ptr<LispScope> * pScope;
 			LispToken * pToken;
 			IEnumerable<std::shared_ptr<object>> * pList;
 			LispFunctionWrapper * pFunctionWrapper;
@@ -180,6 +180,7 @@ namespace CppLisp
 		explicit object(const LispMacroCompileTimeExpand & value);
 
 		explicit object(const LispScope & value);
+		explicit object(std::shared_ptr<LispScope> value);
 
 		explicit object(std::function<void(std::shared_ptr<object>)> action);
 
-- 
2.43.0


From 204f3c43ff20d135e6fc87d8f074cc74a35b0da0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 61/67] fix: errors of the tokenizer are reported as other
 script errors

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 661e602..335dbf4 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -184,6 +184,13 @@ namespace CppLisp
 		}
 		catch (LispExceptionBase exc)
 		{
+			// errors without position, i. e. of the tokenizer
+			string errMsg = string::Format("\nError executing script.\n\n{0} --> module={1}", exc.Message, moduleName);
+			std::cout << errMsg << std::endl;
+			if (outp != null)
+			{
+				outp->WriteLine(errMsg);
+			}
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
 		// an expression without value is nil
-- 
2.43.0


From 7b00412d1cd388c8b8038f0579a67e25c2dccede Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 62/67] fix: errors of scripts are shown once

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 335dbf4..3051f06 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -156,29 +156,38 @@ namespace CppLisp
 		{
 			/*Console.WriteLine*/ //std::cout << string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, exc.Data[LispUtils.LineNo], exc.Data[LispUtils.StartPos], exc.Data[LispUtils.StopPos], exc.Data[LispUtils.ModuleName]) << std::endl;
 			string errMsg = string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, exc.Data["LineNo"]->ToString(), exc.Data["StartPos"]->ToString(), exc.Data["StopPos"]->ToString(), exc.Data["ModuleName"]->ToString());
-			std::cout << errMsg << std::endl;
 			if (outp != null)
 			{
 				outp->WriteLine(errMsg);
 			}
+			else
+			{
+				std::cout << errMsg << std::endl;
+			}
 // TODO --> implement stack trace for exception
 			var stackInfo = exc.Data["StackInfo"];
 			//Console.WriteLine("\nCallstack:\n{0}", stackInfo != null ? stackInfo : ">not available<");                if (verboseErrorOutput)
 			errMsg = string::Format("\nCallstack:\n{0}", stackInfo != null ? stackInfo->ToString() : ">not available<");
-			std::cout << errMsg << std::endl;
 			if (outp != null)
 			{
 				outp->WriteLine(errMsg);
 			}
+			else
+			{
+				std::cout << errMsg << std::endl;
+			}
 			if (verboseErrorOutput)
 			{
 				/*Console.WriteLine*/std::cout << ("\nNative callstack:") << std::endl;
 				errMsg = string::Format("Exception in eval(): {0} \ndata={1}", "exc->ToString()", "exc.Data");
-				/*Console.WriteLine*/std::cout << errMsg << std::endl;
 				if (outp != null)
 				{
 					outp->WriteLine(errMsg);
 				}
+				else
+				{
+					std::cout << errMsg << std::endl;
+				}
 			}
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
@@ -186,11 +195,14 @@ namespace CppLisp
 		{
 			// errors without position, i. e. of the tokenizer
 			string errMsg = string::Format("\nError executing script.\n\n{0} --> module={1}", exc.Message, moduleName);
-			std::cout << errMsg << std::endl;
 			if (outp != null)
 			{
 				outp->WriteLine(errMsg);
 			}
+			else
+			{
+				std::cout << errMsg << std::endl;
+			}
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
 		// an expression without value is nil
-- 
2.43.0


From 880623f2a842df0dd803897219ac0ebfbdbc5d4a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 63/67] fix: structures with names of variables and predicates
 of structures for empty lists

---
 Library/fuellib.fuel | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Library/fuellib.fuel b/Library/fuellib.fuel
index 2f266b8..63db8c4 100755
--- a/Library/fuellib.fuel
+++ b/Library/fuellib.fuel
@@ -101,20 +101,20 @@
     (do
         
       (eval 
-        (list 'defn (sym (+ "make-" name)) (cdr (quoted-macro-args)) 
-            `(list ,(sym (+ "#" name)) ,@(cdr (quoted-macro-args)))
+        (list 'defn (sym (+ "make-" 'name)) (cdr (quoted-macro-args)) 
+            `(list ,(sym (+ "#" 'name)) ,@(cdr (quoted-macro-args)))
          )
       )
 
     (eval 
-        (list 'defn (sym (+ "is-" name "-p")) '(data) 
-            `(and (== (type data) 6) (== (first data) ,(sym (+ "#" name))))
+        (list 'defn (sym (+ "is-" 'name "-p")) '(data) 
+            `(and (== (type data) 6) (> (len data) 0) (== (first data) ,(sym (+ "#" 'name))))
          )
     )
 
     (dotimes (__i (- (len (quoted-macro-args)) 1))
         (eval
-            (list 'defn (sym (+ "get-" name "-" (str (nth (+ __i 1) (quoted-macro-args))))) '(data)
+            (list 'defn (sym (+ "get-" 'name "-" (str (nth (+ __i 1) (quoted-macro-args))))) '(data)
             `(nth (+ ,__i 1) data)  
                ;; TODO: handle case when (need-l-value) is #t --> return l-value of struct list
             )
-- 
2.43.0


From ad1bba5e84f2aa01e97c4837e80ff5aac7b49ca4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 64/67] fix: line number of frames without position in dumps of
 the call stack

---
 CppLisp/CppLispInterpreter/Scope.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 8795454..d19adb9 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -203,7 +203,7 @@ namespace CppLisp
 		{
 			string currentItem = currentLevel == i ? "-->" : "   ";
 
-			ret = string::Format("{0,3}{1,5} name={2,-35} lineno={3,-4} module={4}\n", currentItem, std::to_string(i), current->Name, std::to_string(current->CurrentLineNo()), current->ModuleName) + ret;
+			ret = string::Format("{0,3}{1,5} name={2,-35} lineno={3,-4} module={4}\n", currentItem, std::to_string(i), current->Name, std::to_string((int)current->CurrentLineNo()), current->ModuleName) + ret;
 			current = current->Previous;
 			i--;
 		} while (current != null);
-- 
2.43.0


From 4c6af26336c04e79a0bbcd9f6161f66356228dab Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 65/67] fix: errors of the documentation commands of the
 debugger are reported at the prompt

---
 CppLisp/CppLispDebugger/Debugger.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 77fad14..994f05e 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -167,9 +167,16 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(doc '" + items[1] + ")";
-					DebuggerEvalState debuggerEvalState(currentScope);
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					try
+					{
+						DebuggerEvalState debuggerEvalState(currentScope);
+						std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
+						debugger->Output->WriteLine(string("{0}"), result->ToString());
+					}
+					catch (LispExceptionBase & ex)
+					{
+						debugger->Output->WriteLine("Exception: " + ex.Message);
+					}
 				}
 				else
 				{
@@ -182,9 +189,16 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(searchdoc '" + items[1] + ")";
-					DebuggerEvalState debuggerEvalState(currentScope);
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					try
+					{
+						DebuggerEvalState debuggerEvalState(currentScope);
+						std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
+						debugger->Output->WriteLine(string("{0}"), result->ToString());
+					}
+					catch (LispExceptionBase & ex)
+					{
+						debugger->Output->WriteLine("Exception: " + ex.Message);
+					}
 				}
 				else
 				{
-- 
2.43.0


From 3d92c13fdf9d5429f0b29361320cf49fba2e82bc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 66/67] fix: a macro definition as argument of a macro call
 dereferenced a null pointer

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 1cceacd..e1f697b 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -482,6 +482,11 @@ namespace CppLisp
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
 			{
 				value = /*elem;*/ ExpandMacros((*astAsList)[i], scope, /*ref*/ anyMacroReplaced);
+				if (value == null)
+				{
+					// a macro definition has no code, only a side effect
+					value = std::make_shared<object>(LispVariant(LispType::_Nil));
+				}
 			}
 			else
 			{
-- 
2.43.0


From 77bded8e6e0dfd9217bb8a2339af9e8e7cf0d3ca Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:33:08 +0000
Subject: [PATCH 67/67] fix: comparing a value with nil by CompareTo
 dereferenced a null pointer

---
 CppLisp/CppLispInterpreter/Variant.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index c55f1e5..9531cd3 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -338,6 +338,11 @@ namespace CppLisp
 
 	int LispVariant::CompareTo(std::shared_ptr<object> other)
 	{
+		if (other.get() == null)
+		{
+			// nil values have no native object
+			return CompareTo(std::make_shared<object>(LispVariant(LispType::_Nil)));
+		}
 		if (other->IsLispVariant())
 		{
 			const LispVariant & otherVariant = other->ToLispVariantRef();
-- 
2.43.0

