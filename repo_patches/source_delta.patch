From 98fec00262232998b42fd450ab25dc8f86819519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 01/56] fix: reject stray padding when decoding Base64

---
 src/Base64.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index fd520ab..e6ab98c 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -46,6 +46,9 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 		encoded = encoded.substr(4);
 	}
 
+	// The number of padding characters which would complete the last segment
+	size_t expectedPadding = 0;
+
 	// Get any leftover partial segment with 2 or 3 non-padding characters
 	if (encoded.size() > 1)
 	{
@@ -66,6 +69,7 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 			result.emplace_back(static_cast<std::uint8_t>(segment & 0xFF));
 
 			encoded = encoded.substr(3);
+			expectedPadding = 1;
 		}
 		else
 		{
@@ -77,12 +81,14 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 			result.emplace_back(static_cast<std::uint8_t>((segment & 0xFF00) >> 8));
 
 			encoded = encoded.substr(2);
+			expectedPadding = 2;
 		}
 	}
 
-	// Make sure anything that's left is 0 - 2 characters of padding
-	if ((encoded.size() > 0 && padding != encoded[0])
-		|| (encoded.size() > 1 && padding != encoded[1]) || encoded.size() > 2)
+	// Make sure anything that's left is exactly the padding for the last segment
+	if (!encoded.empty()
+		&& (encoded.size() != expectedPadding
+			|| encoded.find_first_not_of(padding) != std::string_view::npos))
 	{
 		throw std::logic_error { "invalid padding at the end of a base64 encoded string" };
 	}
-- 
2.43.0


From eb73abc63929ff5c6cb3e8455aee919e45081d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 02/56] fix: copy a scalar Value which has not been set

---
 src/GraphQLResponse.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 7ddaf65..25ccfcc 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -466,8 +466,18 @@ Value::Value(const Value& other)
 			break;
 
 		case Type::Scalar:
-			_data = { ScalarData { std::make_unique<ScalarType>(other.get<ScalarType>()) } };
+		{
+			const auto& scalar = std::get<ScalarData>(other._data).scalar;
+			ScalarData copy {};
+
+			if (scalar)
+			{
+				copy.scalar = std::make_unique<ScalarType>(*scalar);
+			}
+
+			_data = { std::move(copy) };
 			break;
+		}
 	}
 }
 
-- 
2.43.0


From 588b57cd4bc7904b7193be4d25b112dec77e0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 03/56] fix: keep embedded null characters in JSON strings

---
 src/JSONResponse.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index c0d9172..29c00d1 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -28,7 +28,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 			for (auto& entry : members)
 			{
-				writer.Key(entry.first.c_str());
+				writer.Key(entry.first.c_str(), static_cast<rapidjson::SizeType>(entry.first.size()));
 				writeResponse(writer, std::move(entry.second));
 			}
 
@@ -56,7 +56,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 		{
 			auto value = response.release<StringType>();
 
-			writer.String(value.c_str());
+			writer.String(value.c_str(), static_cast<rapidjson::SizeType>(value.size()));
 			break;
 		}
 
@@ -178,9 +178,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool String(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		setValue(Value(std::string(str)).from_json());
+		setValue(Value(std::string(str, length)).from_json());
 		return true;
 	}
 
@@ -190,9 +190,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool Key(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool Key(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		_keyStack.push_back(str);
+		_keyStack.emplace_back(str, length);
 		return true;
 	}
 
-- 
2.43.0


From 933be4d661cb90aba3e01516a02746ebd9e52bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 04/56] fix: write valid JSON for floats which are not finite

---
 src/JSONResponse.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index 29c00d1..6794b7f 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -10,6 +10,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <stdexcept>
 #include <vector>
@@ -80,7 +81,17 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 		case Type::Float:
 		{
-			writer.Double(response.get<FloatType>());
+			const auto value = response.get<FloatType>();
+
+			// JSON can't represent infinity or NaN, and the writer would not write any value at all.
+			if (std::isfinite(value))
+			{
+				writer.Double(value);
+			}
+			else
+			{
+				writer.Null();
+			}
 			break;
 		}
 
-- 
2.43.0


From 847c6a4fe3ad0b6f11ea8f6580fdb24d1b0db2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 05/56] fix: parse JSON numbers with full precision

---
 src/JSONResponse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index 6794b7f..00a45e6 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -255,7 +255,7 @@ Value parseJSON(const std::string& json)
 	rapidjson::Reader reader;
 	rapidjson::StringStream ss(json.c_str());
 
-	reader.Parse(ss, handler);
+	reader.Parse<rapidjson::kParseFullPrecisionFlag>(ss, handler);
 
 	return handler.getResponse();
 }
-- 
2.43.0


From 332854fcb8ba4971f5690299d52b3196635110c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 06/56] fix: treat a lone carriage return as a line terminator,
 and no other control characters as white space

---
 include/graphqlservice/internal/Grammar.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 1e95e2d..c2c3c79 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -64,13 +64,23 @@ struct source_character : sor<one<0x0009, 0x000A, 0x000D>, utf8::range<0x0020, 0
 {
 };
 
+// http://spec.graphql.org/June2018/#sec-White-Space
+struct white_space : one<'\t', ' '>
+{
+};
+
+// http://spec.graphql.org/June2018/#sec-Line-Terminators
+struct line_terminator : one<'\n', '\r'>
+{
+};
+
 // http://spec.graphql.org/June2018/#sec-Comments
-struct comment : seq<one<'#'>, until<eolf>>
+struct comment : seq<one<'#'>, until<sor<line_terminator, tao::graphqlpeg::eof>>>
 {
 };
 
 // http://spec.graphql.org/June2018/#sec-Source-Text.Ignored-Tokens
-struct ignored : sor<space, one<','>, comment>
+struct ignored : sor<white_space, line_terminator, one<','>, comment>
 {
 };
 
@@ -128,7 +138,7 @@ struct string_escape_sequence : if_must<backslash_token, string_escape_sequence_
 };
 
 struct string_quote_character
-	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<ascii::eol>, source_character>
+	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<line_terminator>, source_character>
 {
 };
 
-- 
2.43.0


From 32411fdc5dc9bf3291409f6a32309b1930f0fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 07/56] fix: parse a float value with both a fractional and an
 exponent part

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index c2c3c79..83ed5c4 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -234,7 +234,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<fractional_part, exponent_part, seq<fractional_part, exponent_part>>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
 {
 };
 
-- 
2.43.0


From de3b5b97548654a21520f78208f1a852407a93b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 08/56] fix: allow white space after the directives of a schema
 extension

---
 include/graphqlservice/internal/Grammar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 83ed5c4..9c8f409 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -1012,7 +1012,8 @@ struct schema_extension_operation_type_definitions
 
 struct schema_extension_content
 	: seq<star<ignored>,
-		  sor<seq<opt<directives>, schema_extension_operation_type_definitions>, directives>>
+		  sor<seq<opt<directives, star<ignored>>, schema_extension_operation_type_definitions>,
+			  directives>>
 {
 };
 
-- 
2.43.0


From f47821ab7be9551d78b53eb73020f95984d7c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 09/56] fix: do not require ignored tokens between adjacent
 list items

---
 include/graphqlservice/internal/Grammar.h | 31 ++++++++++++-----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 9c8f409..ebf1368 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -200,7 +200,7 @@ struct integer_part : seq<opt<negative_sign>, sor<zero_digit, seq<nonzero_digit,
 };
 
 // http://spec.graphql.org/June2018/#IntValue
-struct integer_value : integer_part
+struct integer_value : seq<integer_part, not_at<sor<identifier_other, one<'.'>>>>
 {
 };
 
@@ -234,7 +234,8 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>,
+		  not_at<sor<identifier_other, one<'.'>>>>
 {
 };
 
@@ -288,7 +289,7 @@ struct argument : if_must<argument_name, argument_content>
 };
 
 struct arguments_content
-	: seq<star<ignored>, list<argument, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<argument, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -300,7 +301,7 @@ struct arguments : if_must<one<'('>, arguments_content>
 struct list_entry;
 
 struct list_value_content
-	: seq<star<ignored>, opt<list<list_entry, plus<ignored>>>, star<ignored>, must<one<']'>>>
+	: seq<star<ignored>, opt<list<list_entry, star<ignored>>>, star<ignored>, must<one<']'>>>
 {
 };
 
@@ -323,7 +324,7 @@ struct object_field : if_must<object_field_name, object_field_content>
 };
 
 struct object_value_content
-	: seq<star<ignored>, opt<list<object_field, plus<ignored>>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, opt<list<object_field, star<ignored>>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -403,7 +404,7 @@ struct variable : if_must<variable_name, variable_content>
 };
 
 struct variable_definitions_content
-	: seq<star<ignored>, list<variable, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<variable, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -426,7 +427,7 @@ struct directive : if_must<one<'@'>, directive_content>
 };
 
 // http://spec.graphql.org/June2018/#Directives
-struct directives : list<directive, plus<ignored>>
+struct directives : list<directive, star<ignored>>
 {
 };
 
@@ -512,7 +513,7 @@ struct selection : sor<field, fragement_spread_or_inline_fragment>
 };
 
 struct selection_set_content
-	: seq<star<ignored>, list<selection, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<selection, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -568,7 +569,7 @@ struct root_operation_definition : if_must<operation_type, root_operation_defini
 
 struct schema_definition_content
 	: seq<opt<star<ignored>, directives>, star<ignored>, one<'{'>, star<ignored>,
-		  list<root_operation_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+		  list<root_operation_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -616,7 +617,7 @@ struct arguments_definition_start : one<'('>
 };
 
 struct arguments_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -641,7 +642,7 @@ struct field_definition : if_must<field_definition_start, field_definition_conte
 };
 
 struct fields_definition_content
-	: seq<star<ignored>, list<field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -816,7 +817,7 @@ struct enum_values_definition_start : one<'{'>
 };
 
 struct enum_values_definition_content
-	: seq<star<ignored>, list<enum_value_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<enum_value_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -892,7 +893,7 @@ struct input_fields_definition_start : one<'{'>
 };
 
 struct input_fields_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -977,7 +978,7 @@ struct directive_definition_start
 
 struct directive_definition_content
 	: seq<star<ignored>, one<'@'>, directive_name, opt<star<ignored>, arguments_definition>,
-		  plus<ignored>, on_keyword, plus<ignored>, directive_locations>
+		  star<ignored>, on_keyword, star<ignored>, directive_locations>
 {
 };
 
@@ -1005,7 +1006,7 @@ struct schema_extension_start : seq<extend_keyword, plus<ignored>, schema_keywor
 };
 
 struct schema_extension_operation_type_definitions
-	: seq<one<'{'>, star<ignored>, list<operation_type_definition, plus<ignored>>, star<ignored>,
+	: seq<one<'{'>, star<ignored>, list<operation_type_definition, star<ignored>>, star<ignored>,
 		  must<one<'}'>>>
 {
 };
-- 
2.43.0


From 692e8768f991c483fa908033a133e7fed5728a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 10/56] fix: parse nested list types in linear time

---
 include/graphqlservice/internal/Grammar.h |  8 +++++---
 src/SyntaxTree.cpp                        | 10 ++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index ebf1368..65fb776 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -370,7 +370,7 @@ struct list_type;
 struct nonnull_type;
 
 struct list_type_content
-	: seq<star<ignored>, sor<nonnull_type, list_type, named_type>, star<ignored>, must<one<']'>>>
+	: seq<star<ignored>, nonnull_type, star<ignored>, must<one<']'>>>
 {
 };
 
@@ -380,11 +380,13 @@ struct list_type : if_must<one<'['>, list_type_content>
 };
 
 // http://spec.graphql.org/June2018/#NonNullType
-struct nonnull_type : seq<sor<list_type, named_type>, star<ignored>, one<'!'>>
+// Matching the nullable type first and then an optional suffix avoids matching the same nested types
+// twice at each level. The ast_selector removes this node if there is no suffix.
+struct nonnull_type : seq<sor<list_type, named_type>, opt<star<ignored>, one<'!'>>>
 {
 };
 
-struct type_name_content : sor<nonnull_type, list_type, named_type>
+struct type_name_content : seq<nonnull_type>
 {
 };
 
diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index b323f54..c41e0a1 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -316,6 +316,16 @@ struct ast_selector<list_type> : std::true_type
 template <>
 struct ast_selector<nonnull_type> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		if (n->string_view().back() != '!')
+		{
+			// Replace this node with the nullable type.
+			auto nullable = std::move(n->children.front());
+
+			n = std::move(nullable);
+		}
+	}
 };
 
 template <>
-- 
2.43.0


From 21df081186d6b92afcb4800f245f277b92710bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 11/56] fix: reject true, false and null as enum values

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 65fb776..6f66b9e 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -253,7 +253,7 @@ struct bool_value : sor<true_keyword, false_keyword>
 };
 
 // http://spec.graphql.org/June2018/#EnumValue
-struct enum_value : seq<not_at<true_keyword, false_keyword, null_keyword>, name>
+struct enum_value : seq<not_at<sor<true_keyword, false_keyword, null_keyword>>, name>
 {
 };
 
-- 
2.43.0


From d6f5a43ac98ce1f7c20f1a7a358b4789a1d42d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 12/56] fix: a skipped field does not hide later fields with
 the same response name

---
 src/GraphQLService.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e1c409a..427ba2d 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -852,6 +852,17 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
+	DirectiveVisitor directiveVisitor(_variables);
+
+	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
+		directiveVisitor.visit(child);
+	});
+
+	if (directiveVisitor.shouldSkip())
+	{
+		return;
+	}
+
 	if (!_names.emplace(alias).second)
 	{
 		// Skip resolving fields which map to the same response name as a field we've already
@@ -879,17 +890,6 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		return;
 	}
 
-	DirectiveVisitor directiveVisitor(_variables);
-
-	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
-		directiveVisitor.visit(child);
-	});
-
-	if (directiveVisitor.shouldSkip())
-	{
-		return;
-	}
-
 	response::Value arguments(response::Type::Map);
 
 	peg::on_first_child<peg::arguments>(field, [this, &arguments](const peg::ast_node& child) {
-- 
2.43.0


From 9de2262a4dce35634de0469ec8c0203b90dc8bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 13/56] fix: apply @include to a field which @skip does not
 skip

---
 src/GraphQLService.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 427ba2d..2bce061 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -451,15 +451,11 @@ bool DirectiveVisitor::shouldSkip() const
 			argumentFalse = !argumentTrue;
 		}
 
-		if (argumentTrue)
+		if (argumentTrue == skip && (argumentTrue || argumentFalse))
 		{
-			return skip;
-		}
-		else if (argumentFalse)
-		{
-			return !skip;
+			return true;
 		}
-		else
+		else if (!argumentTrue && !argumentFalse)
 		{
 			std::ostringstream error;
 
-- 
2.43.0


From 1834f98eec8e6feffc54d81763e0766cad5679c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 14/56] fix: evaluate directives on fragment definitions and
 subscriptions with the variables of the operation

---
 src/GraphQLService.cpp | 175 ++++++++++++++++++++++++-----------------
 1 file changed, 102 insertions(+), 73 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 2bce061..f3736be 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1216,26 +1216,75 @@ OperationData::OperationData(std::shared_ptr<RequestState>&& state, response::Va
 {
 }
 
-// FragmentDefinitionVisitor visits the AST and collects all of the fragment
-// definitions in the document.
+// Filter the variables down to the ones which are defined in this operation, and fill in the default
+// values for any which are missing.
+response::Value getOperationVariables(
+	const peg::ast_node& operationDefinition, const response::Value& variables)
+{
+	response::Value operationVariables(response::Type::Map);
+
+	peg::for_each_child<peg::variable>(operationDefinition,
+		[&variables, &operationVariables](const peg::ast_node& variable) {
+			std::string variableName;
+
+			peg::on_first_child<peg::variable_name>(variable,
+				[&variableName](const peg::ast_node& name) {
+					// Skip the $ prefix
+					variableName = name.string_view().substr(1);
+				});
+
+			auto itrVar = variables.find(variableName);
+			response::Value valueVar;
+
+			if (itrVar != variables.get<response::MapType>().cend())
+			{
+				valueVar = response::Value(itrVar->second);
+			}
+			else
+			{
+				peg::on_first_child<peg::default_value>(variable,
+					[&variables, &valueVar](const peg::ast_node& defaultValue) {
+						ValueVisitor visitor(variables);
+
+						visitor.visit(*defaultValue.children.front());
+						valueVar = visitor.getValue();
+					});
+			}
+
+			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
+		});
+
+	return operationVariables;
+}
+
+// FragmentDefinitionVisitor visits the AST and collects all of the fragment definitions in the
+// document which are used in the selection set of an operation. The directives on other fragment
+// definitions may depend on variables which are not defined in this operation.
 class FragmentDefinitionVisitor
 {
 public:
-	FragmentDefinitionVisitor(const response::Value& variables);
+	FragmentDefinitionVisitor(const peg::ast_node& root, const response::Value& variables);
 
 	FragmentMap getFragments();
 
-	void visit(const peg::ast_node& fragmentDefinition);
+	void visit(const peg::ast_node& selection);
 
 private:
 	const response::Value& _variables;
 
+	internal::string_view_map<std::reference_wrapper<const peg::ast_node>> _definitions;
 	FragmentMap _fragments;
 };
 
-FragmentDefinitionVisitor::FragmentDefinitionVisitor(const response::Value& variables)
+FragmentDefinitionVisitor::FragmentDefinitionVisitor(
+	const peg::ast_node& root, const response::Value& variables)
 	: _variables(variables)
 {
+	peg::for_each_child<peg::fragment_definition>(root,
+		[this](const peg::ast_node& fragmentDefinition) {
+			_definitions.emplace(fragmentDefinition.children.front()->string_view(),
+				std::cref(fragmentDefinition));
+		});
 }
 
 FragmentMap FragmentDefinitionVisitor::getFragments()
@@ -1244,10 +1293,34 @@ FragmentMap FragmentDefinitionVisitor::getFragments()
 	return result;
 }
 
-void FragmentDefinitionVisitor::visit(const peg::ast_node& fragmentDefinition)
+void FragmentDefinitionVisitor::visit(const peg::ast_node& selection)
 {
-	_fragments.emplace(fragmentDefinition.children.front()->string_view(),
-		Fragment(fragmentDefinition, _variables));
+	if (selection.is_type<peg::fragment_spread>())
+	{
+		const auto name = selection.children.front()->string_view();
+		const auto itr = _definitions.find(name);
+
+		if (itr != _definitions.end() && _fragments.find(name) == _fragments.end())
+		{
+			const auto& fragmentDefinition = itr->second.get();
+
+			_fragments.emplace(name, Fragment(fragmentDefinition, _variables));
+			visit(*fragmentDefinition.children.back());
+		}
+	}
+	else if (selection.is_type<peg::selection_set>())
+	{
+		for (const auto& child : selection.children)
+		{
+			visit(*child);
+		}
+	}
+	else
+	{
+		peg::on_first_child<peg::selection_set>(selection, [this](const peg::ast_node& child) {
+			visit(child);
+		});
+	}
 }
 
 // OperationDefinitionVisitor visits the AST and executes the one with the specified
@@ -1308,42 +1381,6 @@ void OperationDefinitionVisitor::visit(
 {
 	auto itr = _operations.find(operationType);
 
-	// Filter the variable definitions down to the ones referenced in this operation
-	response::Value operationVariables(response::Type::Map);
-
-	peg::for_each_child<peg::variable>(operationDefinition,
-		[this, &operationVariables](const peg::ast_node& variable) {
-			std::string variableName;
-
-			peg::on_first_child<peg::variable_name>(variable,
-				[&variableName](const peg::ast_node& name) {
-					// Skip the $ prefix
-					variableName = name.string_view().substr(1);
-				});
-
-			auto itrVar = _params->variables.find(variableName);
-			response::Value valueVar;
-
-			if (itrVar != _params->variables.get<response::MapType>().cend())
-			{
-				valueVar = response::Value(itrVar->second);
-			}
-			else
-			{
-				peg::on_first_child<peg::default_value>(variable,
-					[this, &valueVar](const peg::ast_node& defaultValue) {
-						ValueVisitor visitor(_params->variables);
-
-						visitor.visit(*defaultValue.children.front());
-						valueVar = visitor.getValue();
-					});
-			}
-
-			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
-		});
-
-	_params->variables = std::move(operationVariables);
-
 	response::Value operationDirectives(response::Type::Map);
 
 	peg::on_first_child<peg::directives>(operationDefinition,
@@ -1685,14 +1722,6 @@ std::future<response::Value> Request::resolve(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
-
-		peg::for_each_child<peg::fragment_definition>(*query.root,
-			[&fragmentVisitor](const peg::ast_node& child) {
-				fragmentVisitor.visit(child);
-			});
-
-		auto fragments = fragmentVisitor.getFragments();
 		auto operationDefinition = findOperationDefinition(query, operationName);
 
 		if (!operationDefinition.second)
@@ -1731,12 +1760,17 @@ std::future<response::Value> Request::resolve(std::launch launch,
 		// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
 		const auto operationLaunch = isMutation ? std::launch::deferred : launch;
 
+		auto operationVariables = getOperationVariables(*operationDefinition.second, variables);
+		FragmentDefinitionVisitor fragmentVisitor(*query.root, operationVariables);
+
+		fragmentVisitor.visit(*operationDefinition.second->children.back());
+
 		OperationDefinitionVisitor operationVisitor(resolverContext,
 			operationLaunch,
 			state,
 			_operations,
-			std::move(variables),
-			std::move(fragments));
+			std::move(operationVariables),
+			fragmentVisitor.getFragments());
 
 		operationVisitor.visit(operationDefinition.first, *operationDefinition.second);
 
@@ -1833,14 +1867,6 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
-
-		peg::for_each_child<peg::fragment_definition>(root,
-			[&fragmentVisitor](const peg::ast_node& child) {
-				fragmentVisitor.visit(child);
-			});
-
-		auto fragments = fragmentVisitor.getFragments();
 		auto operationDefinition = findUnvalidatedOperationDefinition(root, operationName);
 
 		if (!operationDefinition.second)
@@ -1885,12 +1911,17 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 		const auto resolverContext =
 			isMutation ? ResolverContext::Mutation : ResolverContext::Query;
 
+		auto operationVariables = getOperationVariables(*operationDefinition.second, variables);
+		FragmentDefinitionVisitor fragmentVisitor(root, operationVariables);
+
+		fragmentVisitor.visit(*operationDefinition.second->children.back());
+
 		OperationDefinitionVisitor operationVisitor(resolverContext,
 			launch,
 			state,
 			_operations,
-			std::move(variables),
-			std::move(fragments));
+			std::move(operationVariables),
+			fragmentVisitor.getFragments());
 
 		operationVisitor.visit(operationDefinition.first, *operationDefinition.second);
 
@@ -1934,14 +1965,6 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		throw schema_exception { std::move(errors) };
 	}
 
-	FragmentDefinitionVisitor fragmentVisitor(params.variables);
-
-	peg::for_each_child<peg::fragment_definition>(*params.query.root,
-		[&fragmentVisitor](const peg::ast_node& child) {
-			fragmentVisitor.visit(child);
-		});
-
-	auto fragments = fragmentVisitor.getFragments();
 	auto operationDefinition = findOperationDefinition(params.query, params.operationName);
 
 	if (!operationDefinition.second)
@@ -1974,10 +1997,16 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		};
 	}
 
+	params.variables = getOperationVariables(*operationDefinition.second, params.variables);
+
+	FragmentDefinitionVisitor fragmentVisitor(*params.query.root, params.variables);
+
+	fragmentVisitor.visit(*operationDefinition.second->children.back());
+
 	auto itr = _operations.find(strSubscription);
 	SubscriptionDefinitionVisitor subscriptionVisitor(std::move(params),
 		std::move(callback),
-		std::move(fragments),
+		fragmentVisitor.getFragments(),
 		itr->second);
 
 	peg::for_each_child<peg::operation_definition>(subscriptionVisitor.getRoot(),
-- 
2.43.0


From e23d2e566f087a54c137b0f4137db52b60f99a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 15/56] fix: subscribe to the requested operation only

---
 src/GraphQLService.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index f3736be..d586fa1 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1429,7 +1429,6 @@ public:
 	SubscriptionDefinitionVisitor(SubscriptionParams&& params, SubscriptionCallback&& callback,
 		FragmentMap&& fragments, const std::shared_ptr<Object>& subscriptionObject);
 
-	const peg::ast_node& getRoot() const;
 	std::shared_ptr<SubscriptionData> getRegistration();
 
 	void visit(const peg::ast_node& operationDefinition);
@@ -1459,11 +1458,6 @@ SubscriptionDefinitionVisitor::SubscriptionDefinitionVisitor(SubscriptionParams&
 {
 }
 
-const peg::ast_node& SubscriptionDefinitionVisitor::getRoot() const
-{
-	return *_params.query.root;
-}
-
 std::shared_ptr<SubscriptionData> SubscriptionDefinitionVisitor::getRegistration()
 {
 	auto result = std::move(_result);
@@ -2009,10 +2003,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		fragmentVisitor.getFragments(),
 		itr->second);
 
-	peg::for_each_child<peg::operation_definition>(subscriptionVisitor.getRoot(),
-		[&subscriptionVisitor](const peg::ast_node& child) {
-			subscriptionVisitor.visit(child);
-		});
+	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
 	auto key = _nextKey++;
-- 
2.43.0


From af053c4160ec237918a3c4f25b716d536b82ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 16/56] fix: find the root field of a subscription within
 fragments

---
 src/GraphQLService.cpp | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index d586fa1..f7292ce 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1434,6 +1434,7 @@ public:
 	void visit(const peg::ast_node& operationDefinition);
 
 private:
+	void visitSelection(const peg::ast_node& selection);
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
@@ -1471,21 +1472,7 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 {
 	const auto& selection = *operationDefinition.children.back();
 
-	for (const auto& child : selection.children)
-	{
-		if (child->is_type<peg::field>())
-		{
-			visitField(*child);
-		}
-		else if (child->is_type<peg::fragment_spread>())
-		{
-			visitFragmentSpread(*child);
-		}
-		else if (child->is_type<peg::inline_fragment>())
-		{
-			visitInlineFragment(*child);
-		}
-	}
+	visitSelection(selection);
 
 	response::Value directives(response::Type::Map);
 
@@ -1511,6 +1498,25 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 			selection);
 }
 
+void SubscriptionDefinitionVisitor::visitSelection(const peg::ast_node& selection)
+{
+	for (const auto& child : selection.children)
+	{
+		if (child->is_type<peg::field>())
+		{
+			visitField(*child);
+		}
+		else if (child->is_type<peg::fragment_spread>())
+		{
+			visitFragmentSpread(*child);
+		}
+		else if (child->is_type<peg::inline_fragment>())
+		{
+			visitInlineFragment(*child);
+		}
+	}
+}
+
 void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 {
 	std::string_view name;
@@ -1597,10 +1603,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		return;
 	}
 
-	for (const auto& selection : itr->second.getSelection().children)
-	{
-		visit(*selection);
-	}
+	visitSelection(itr->second.getSelection());
 }
 
 void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
@@ -1628,10 +1631,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
-			for (const auto& selection : child.children)
-			{
-				visit(*selection);
-			}
+			visitSelection(child);
 		});
 	}
 }
-- 
2.43.0


From e4bfa5b25e4012ba4afd5a8648c9a60dafbce623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 17/56] fix: allow subscriptions without a default subscription
 object

---
 src/GraphQLService.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index f7292ce..5e720b9 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1585,7 +1585,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		};
 	}
 
-	bool skip = !_subscriptionObject->matchesType(itr->second.getType());
+	bool skip = _subscriptionObject && !_subscriptionObject->matchesType(itr->second.getType());
 	DirectiveVisitor directiveVisitor(_params.variables);
 
 	if (!skip)
@@ -1627,7 +1627,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 			typeCondition = &child;
 		});
 
-	if (typeCondition == nullptr
+	if (typeCondition == nullptr || !_subscriptionObject
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
@@ -2024,7 +2024,7 @@ std::future<SubscriptionKey> Request::subscribe(
 			const auto key = spThis->subscribe(std::move(paramsFuture), std::move(callbackFuture));
 			const auto itrOperation = spThis->_operations.find(strSubscription);
 
-			if (itrOperation != spThis->_operations.end())
+			if (itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
 				const auto& registration = spThis->_subscriptions.at(key);
@@ -2098,7 +2098,7 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
 
-		if (itrOperation != spThis->_operations.end())
+		if (itrOperation != spThis->_operations.end() && itrOperation->second)
 		{
 			const auto& operation = itrOperation->second;
 			const auto& registration = spThis->_subscriptions.at(key);
-- 
2.43.0


From e81f0b395ed67590dc5bb0afa0d51ab8321987f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:20 +0000
Subject: [PATCH 18/56] fix: rethrow the same exception when subscribing fails

---
 src/GraphQLService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 5e720b9..3197c2a 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2049,11 +2049,11 @@ std::future<SubscriptionKey> Request::subscribe(
 							registration->data->variables)
 						.get();
 				}
-				catch (const std::exception& ex)
+				catch (const std::exception&)
 				{
 					// Rethrow the exception, but don't leave it subscribed if the resolver failed.
 					spThis->unsubscribe(key);
-					throw ex;
+					throw;
 				}
 			}
 
-- 
2.43.0


From 9ec89113af495e62d35ecc09d0c3e88f61c59c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 19/56] fix: keep a subscription alive until its response has
 been resolved

---
 src/GraphQLService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 3197c2a..4730843 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2300,7 +2300,7 @@ void Request::deliver(std::launch launch, const SubscriptionName& name,
 		{
 			result = std::async(
 				launch,
-				[](std::future<ResolverResult>&& operationFuture) {
+				[registration](std::future<ResolverResult>&& operationFuture) {
 					auto result = operationFuture.get();
 					response::Value document { response::Type::Map };
 
-- 
2.43.0


From 38814ca9dda7f0b280d78dd0d964bd19f3adc5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 20/56] fix: ignore unknown keys in the asynchronous
 unsubscribe

---
 src/GraphQLService.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 4730843..9a475d3 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2097,11 +2097,17 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 {
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
+		const auto itrSubscription = spThis->_subscriptions.find(key);
+
+		if (itrSubscription == spThis->_subscriptions.end())
+		{
+			return;
+		}
 
 		if (itrOperation != spThis->_operations.end() && itrOperation->second)
 		{
 			const auto& operation = itrOperation->second;
-			const auto& registration = spThis->_subscriptions.at(key);
+			const auto& registration = itrSubscription->second;
 			response::Value emptyFragmentDirectives(response::Type::Map);
 			const SelectionSetParams selectionSetParams {
 				ResolverContext::NotifyUnsubscribe,
-- 
2.43.0


From 65ba271b7af93bba75ee63f604c2982579259e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 21/56] fix: do not share the state of the validation visitor
 between concurrent requests

---
 include/graphqlservice/GraphQLService.h | 1 +
 src/GraphQLService.cpp                  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 285686e..4304027 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -960,6 +960,7 @@ private:
 		const std::string& operationName, response::Value&& variables) const;
 
 	const TypeMap _operations;
+	mutable std::mutex _validationMutex;
 	std::unique_ptr<ValidateExecutableVisitor> _validation;
 	internal::sorted_map<SubscriptionKey, std::shared_ptr<SubscriptionData>> _subscriptions;
 	internal::sorted_map<SubscriptionName, internal::sorted_set<SubscriptionKey>> _listeners;
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 9a475d3..35c697c 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1655,6 +1655,9 @@ std::list<schema_error> Request::validate(peg::ast& query) const
 
 	if (!query.validated)
 	{
+		// The visitor accumulates state while visiting a document, so requests need to take turns.
+		std::lock_guard<std::mutex> lock(_validationMutex);
+
 		_validation->visit(*query.root);
 		errors = _validation->getStructuredErrors();
 		query.validated = errors.empty();
-- 
2.43.0


From d2b5d476446b7ca10b98f782eb364abc950f92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 22/56] fix: protect the subscriptions of a service against
 concurrent access

---
 include/graphqlservice/GraphQLService.h |  3 ++
 src/GraphQLService.cpp                  | 50 ++++++++++++++++++-------
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 4304027..30af401 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -962,6 +962,9 @@ private:
 	const TypeMap _operations;
 	mutable std::mutex _validationMutex;
 	std::unique_ptr<ValidateExecutableVisitor> _validation;
+	std::shared_ptr<SubscriptionData> findSubscription(SubscriptionKey key) const;
+
+	mutable std::mutex _subscriptionMutex;
 	internal::sorted_map<SubscriptionKey, std::shared_ptr<SubscriptionData>> _subscriptions;
 	internal::sorted_map<SubscriptionName, internal::sorted_set<SubscriptionKey>> _listeners;
 	SubscriptionKey _nextKey = 0;
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 35c697c..0704aad 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2009,6 +2009,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
+	std::lock_guard<std::mutex> lock(_subscriptionMutex);
 	auto key = _nextKey++;
 
 	_listeners[registration->field].emplace(key);
@@ -2027,10 +2028,11 @@ std::future<SubscriptionKey> Request::subscribe(
 			const auto key = spThis->subscribe(std::move(paramsFuture), std::move(callbackFuture));
 			const auto itrOperation = spThis->_operations.find(strSubscription);
 
-			if (itrOperation != spThis->_operations.end() && itrOperation->second)
+			const auto registration = spThis->findSubscription(key);
+
+			if (registration && itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
-				const auto& registration = spThis->_subscriptions.at(key);
 				response::Value emptyFragmentDirectives(response::Type::Map);
 				const SelectionSetParams selectionSetParams {
 					ResolverContext::NotifySubscribe,
@@ -2066,8 +2068,19 @@ std::future<SubscriptionKey> Request::subscribe(
 		std::move(callback));
 }
 
+std::shared_ptr<SubscriptionData> Request::findSubscription(SubscriptionKey key) const
+{
+	std::lock_guard<std::mutex> lock(_subscriptionMutex);
+	auto itrSubscription = _subscriptions.find(key);
+
+	return itrSubscription == _subscriptions.end() ? nullptr : itrSubscription->second;
+}
+
 void Request::unsubscribe(SubscriptionKey key)
 {
+	// Release the registration after the lock, it holds objects which belong to the caller.
+	std::shared_ptr<SubscriptionData> registration;
+	std::lock_guard<std::mutex> lock(_subscriptionMutex);
 	auto itrSubscription = _subscriptions.find(key);
 
 	if (itrSubscription == _subscriptions.end())
@@ -2075,7 +2088,9 @@ void Request::unsubscribe(SubscriptionKey key)
 		return;
 	}
 
-	const auto listenerKey = std::string_view { itrSubscription->second->field };
+	registration = itrSubscription->second;
+
+	const auto listenerKey = std::string_view { registration->field };
 	auto& listener = _listeners.at(listenerKey);
 
 	listener.erase(key);
@@ -2100,9 +2115,9 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 {
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
-		const auto itrSubscription = spThis->_subscriptions.find(key);
+		const auto registration = spThis->findSubscription(key);
 
-		if (itrSubscription == spThis->_subscriptions.end())
+		if (!registration)
 		{
 			return;
 		}
@@ -2110,7 +2125,6 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 		if (itrOperation != spThis->_operations.end() && itrOperation->second)
 		{
 			const auto& operation = itrOperation->second;
-			const auto& registration = itrSubscription->second;
 			response::Value emptyFragmentDirectives(response::Type::Map);
 			const SelectionSetParams selectionSetParams {
 				ResolverContext::NotifyUnsubscribe,
@@ -2240,20 +2254,30 @@ void Request::deliver(std::launch launch, const SubscriptionName& name,
 		throw std::invalid_argument("Missing subscriptionObject");
 	}
 
-	auto itrListeners = _listeners.find(name);
+	std::vector<std::shared_ptr<SubscriptionData>> registrations;
 
-	if (itrListeners == _listeners.end())
+	// Filters, resolvers, and callbacks may call back into this object, don't hold the lock for them.
 	{
-		return;
+		std::lock_guard<std::mutex> lock(_subscriptionMutex);
+		auto itrListeners = _listeners.find(name);
+
+		if (itrListeners == _listeners.end())
+		{
+			return;
+		}
+
+		registrations.reserve(itrListeners->second.size());
+		for (const auto& key : itrListeners->second)
+		{
+			registrations.push_back(_subscriptions.find(key)->second);
+		}
 	}
 
 	std::vector<std::future<void>> callbacks;
 
-	callbacks.reserve(itrListeners->second.size());
-	for (const auto& key : itrListeners->second)
+	callbacks.reserve(registrations.size());
+	for (const auto& registration : registrations)
 	{
-		auto itrSubscription = _subscriptions.find(key);
-		auto registration = itrSubscription->second;
 		const auto& subscriptionArguments = registration->arguments;
 		bool matchedArguments = true;
 
-- 
2.43.0


From c005ba679b9608f018028a5a57c3e009544ca5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 23/56] fix: complete each top level mutation field before the
 next one

---
 src/GraphQLService.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 0704aad..cfba56f 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -927,6 +927,13 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			_fragments,
 			_variables));
 
+		if (_resolverContext == ResolverContext::Mutation && !_path)
+		{
+			// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
+			// Complete this field before resolving the next one.
+			result.wait();
+		}
+
 		_values.push_back({ alias, std::move(result) });
 	}
 	catch (schema_exception& scx)
-- 
2.43.0


From afb2aed213f04c236ded1111cbfd7a63c5fd219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:39 +0000
Subject: [PATCH 24/56] fix: report the location and path of fields and list
 elements which fail asynchronously

---
 include/graphqlservice/GraphQLService.h | 30 ++++++++++++++---
 src/GraphQLService.cpp                  | 45 ++++++++++++++++++-------
 2 files changed, 59 insertions(+), 16 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 30af401..4ddb87a 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -689,10 +689,21 @@ struct ModifiedResult
 					{
 						auto errors = scx.getStructuredErrors();
 
-						if (!errors.empty())
+						for (auto& error : errors)
 						{
-							document.errors.splice(document.errors.end(), errors);
+							if (error.location.line == 0)
+							{
+								error.location = wrappedParams.getLocation();
+							}
+
+							if (error.path.empty())
+							{
+								error.path = buildErrorPath(wrappedParams.errorPath);
+							}
 						}
+
+						document.data.emplace_back(response::Value {});
+						document.errors.splice(document.errors.end(), errors);
 					}
 					catch (const std::exception& ex)
 					{
@@ -701,6 +712,7 @@ struct ModifiedResult
 						message << "Field error name: " << wrappedParams.fieldName
 								<< " unknown error: " << ex.what();
 
+						document.data.emplace_back(response::Value {});
 						document.errors.emplace_back(schema_error { message.str(),
 							wrappedParams.getLocation(),
 							buildErrorPath(wrappedParams.errorPath) });
@@ -738,10 +750,20 @@ private:
 			{
 				auto errors = scx.getStructuredErrors();
 
-				if (!errors.empty())
+				for (auto& error : errors)
 				{
-					document.errors.splice(document.errors.end(), errors);
+					if (error.location.line == 0)
+					{
+						error.location = paramsFuture.getLocation();
+					}
+
+					if (error.path.empty())
+					{
+						error.path = buildErrorPath(paramsFuture.errorPath);
+					}
 				}
+
+				document.errors.splice(document.errors.end(), errors);
 			}
 			catch (const std::exception& ex)
 			{
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index cfba56f..1e2b013 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -750,6 +750,15 @@ struct FragmentDirectives
 	response::Value inlineFragmentDirectives;
 };
 
+// The pending result of a field, along with the position and path to report if it fails.
+struct SelectedField
+{
+	std::string_view name;
+	std::future<ResolverResult> result;
+	schema_location location;
+	error_path path;
+};
+
 // SelectionVisitor visits the AST and resolves a field or fragment, unless it's skipped by
 // a directive or type condition.
 class SelectionVisitor
@@ -761,7 +770,7 @@ public:
 
 	void visit(const peg::ast_node& selection);
 
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> getValues();
+	std::vector<SelectedField> getValues();
 
 private:
 	void visitField(const peg::ast_node& field);
@@ -780,7 +789,7 @@ private:
 
 	std::list<FragmentDirectives> _fragmentDirectives;
 	internal::string_view_set _names;
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> _values;
+	std::vector<SelectedField> _values;
 };
 
 SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
@@ -806,7 +815,7 @@ SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
 	_values.reserve(count);
 }
 
-std::vector<std::pair<std::string_view, std::future<ResolverResult>>> SelectionVisitor::getValues()
+std::vector<SelectedField> SelectionVisitor::getValues()
 {
 	auto values = std::move(_values);
 
@@ -934,7 +943,12 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			result.wait();
 		}
 
-		_values.push_back({ alias, std::move(result) });
+		auto position = field.begin();
+
+		_values.push_back({ alias,
+			std::move(result),
+			{ position.line, position.column },
+			buildErrorPath(selectionSetParams.errorPath) });
 	}
 	catch (schema_exception& scx)
 	{
@@ -1145,18 +1159,18 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 	return std::async(
 		selectionSetParams.launch,
-		[](std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children) {
+		[](std::vector<SelectedField>&& children) {
 			ResolverResult document { response::Value { response::Type::Map } };
 
 			document.data.reserve(children.size());
 
 			for (auto& child : children)
 			{
-				auto name = child.first;
+				auto name = child.name;
 
 				try
 				{
-					auto value = child.second.get();
+					auto value = child.result.get();
 
 					if (!document.data.emplace_back(std::string { name }, std::move(value.data)))
 					{
@@ -1176,13 +1190,20 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 				{
 					auto errors = scx.getStructuredErrors();
 
-					if (!errors.empty())
+					for (auto& error : errors)
 					{
-						std::copy(errors.begin(),
-							errors.end(),
-							std::back_inserter(document.errors));
+						if (error.location.line == 0)
+						{
+							error.location = child.location;
+						}
+
+						if (error.path.empty())
+						{
+							error.path = child.path;
+						}
 					}
 
+					document.errors.splice(document.errors.end(), errors);
 					document.data.emplace_back(std::string { name }, {});
 				}
 				catch (const std::exception& ex)
@@ -1191,7 +1212,7 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 					message << "Field error name: " << name << " unknown error: " << ex.what();
 
-					document.errors.push_back({ message.str() });
+					document.errors.push_back({ message.str(), child.location, child.path });
 					document.data.emplace_back(std::string { name }, {});
 				}
 			}
-- 
2.43.0


From 60e154e460dbd211804126b7744d93f3fe7d4fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 25/56] fix: keep the whole description of a definition when it
 includes escape sequences

---
 src/SchemaLoader.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index cd347d7..bfe0951 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -657,7 +657,7 @@ void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -718,7 +718,7 @@ void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTy
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -775,7 +775,7 @@ void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObje
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -831,7 +831,7 @@ void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefiniti
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -873,7 +873,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 				[&value](const peg::ast_node& description) {
 					if (!description.children.empty())
 					{
-						value.description = description.children.front()->unescaped_view();
+						value.description = description.unescaped_view();
 					}
 				});
 
@@ -936,7 +936,7 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -959,7 +959,7 @@ void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefini
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -1008,7 +1008,7 @@ void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefini
 		[&directive](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				directive.description = child.children.front()->unescaped_view();
+				directive.description = child.unescaped_view();
 			}
 		});
 
@@ -1094,7 +1094,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 			else if (child->is_type<peg::directives>())
 			{
@@ -1182,7 +1182,7 @@ InputFieldList SchemaLoader::getInputFields(const peg::ast_node::children_t& fie
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 		}
 
-- 
2.43.0


From 230f66aed6a16d48d2a1c85edc3bb3b2fc7e0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 26/56] fix: evaluate the escape sequences and the indentation
 of string values

---
 src/SyntaxTree.cpp | 79 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 75 insertions(+), 4 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index c41e0a1..d4cc66f 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -8,16 +8,82 @@
 
 #include <tao/pegtl/contrib/unescape.hpp>
 
+#include <algorithm>
 #include <functional>
+#include <iterator>
 #include <memory>
 #include <numeric>
 #include <tuple>
+#include <vector>
 
 using namespace std::literals;
 
 namespace graphql {
 namespace peg {
 
+namespace {
+
+bool is_block_string(std::string_view content) noexcept
+{
+	return content.substr(0, 3) == R"bq(""")bq"sv;
+}
+
+// http://spec.graphql.org/June2018/#BlockStringValue()
+std::string block_string_value(std::string_view raw)
+{
+	std::vector<std::string_view> lines;
+
+	for (size_t start = 0;;)
+	{
+		const auto end = raw.find_first_of("\r\n"sv, start);
+
+		lines.push_back(raw.substr(start, end == std::string_view::npos ? end : end - start));
+
+		if (end == std::string_view::npos)
+		{
+			break;
+		}
+
+		start = end + (raw.substr(end, 2) == "\r\n"sv ? 2 : 1);
+	}
+
+	auto commonIndent = std::string_view::npos;
+
+	for (size_t i = 1; i < lines.size(); ++i)
+	{
+		commonIndent = std::min(commonIndent, lines[i].find_first_not_of(" \t"sv));
+	}
+
+	if (commonIndent != std::string_view::npos)
+	{
+		for (size_t i = 1; i < lines.size(); ++i)
+		{
+			lines[i].remove_prefix(std::min(commonIndent, lines[i].size()));
+		}
+	}
+
+	const auto isNotBlank = [](std::string_view line) noexcept {
+		return line.find_first_not_of(" \t"sv) != std::string_view::npos;
+	};
+	const auto first = std::find_if(lines.cbegin(), lines.cend(), isNotBlank);
+	const auto last = std::find_if(lines.crbegin(), std::make_reverse_iterator(first), isNotBlank);
+	std::string value;
+
+	for (auto itr = first; itr != last.base(); ++itr)
+	{
+		if (itr != first)
+		{
+			value.push_back('\n');
+		}
+
+		value.append(*itr);
+	}
+
+	return value;
+}
+
+} // namespace
+
 bool ast_node::is_root() const noexcept
 {
 	return _type.empty();
@@ -47,7 +113,7 @@ std::string_view ast_node::unescaped_view() const
 {
 	if (!_unescaped)
 	{
-		if (children.size() > 1)
+		if (children.size() > 1 || is_block_string(_content))
 		{
 			std::string joined;
 
@@ -55,12 +121,17 @@ std::string_view ast_node::unescaped_view() const
 				children.cend(),
 				size_t(0),
 				[](size_t total, const std::unique_ptr<ast_node>& child) {
-					return total + child->string_view().size();
+					return total + child->unescaped_view().size();
 				}));
 
 			for (const auto& child : children)
 			{
-				joined.append(child->string_view());
+				joined.append(child->unescaped_view());
+			}
+
+			if (is_block_string(_content))
+			{
+				joined = block_string_value(joined);
 			}
 
 			const_cast<ast_node*>(this)->_unescaped =
@@ -69,7 +140,7 @@ std::string_view ast_node::unescaped_view() const
 		else if (!children.empty())
 		{
 			const_cast<ast_node*>(this)->_unescaped =
-				std::make_unique<unescaped_t>(children.front()->string_view());
+				std::make_unique<unescaped_t>(children.front()->unescaped_view());
 		}
 		else if (has_content() && is_type<escaped_unicode>())
 		{
-- 
2.43.0


From 34337beafdbd6db7412c83af5d8bad888a43859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 27/56] fix: do not wrap integer literals which do not fit in
 an Int

---
 src/GeneratorLoader.cpp | 13 ++++++++++++-
 src/GraphQLService.cpp  | 13 ++++++++++++-
 src/Validation.cpp      | 12 +++++++++++-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/GeneratorLoader.cpp b/src/GeneratorLoader.cpp
index 6e1edd6..cb90b2c 100644
--- a/src/GeneratorLoader.cpp
+++ b/src/GeneratorLoader.cpp
@@ -6,6 +6,7 @@
 #include "graphqlservice/internal/Grammar.h"
 
 #include <algorithm>
+#include <charconv>
 
 namespace graphql::generator {
 
@@ -108,7 +109,17 @@ void DefaultValueVisitor::visit(const peg::ast_node& value)
 
 void DefaultValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto text = intValue.string_view();
+	response::IntType value {};
+
+	if (std::from_chars(text.data(), text.data() + text.size(), value).ec != std::errc {})
+	{
+		// It does not fit in an Int, but it may still be the value of a Float.
+		visitFloatValue(intValue);
+		return;
+	}
+
+	_value = response::Value(value);
 }
 
 void DefaultValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 1e2b013..63f701a 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <array>
+#include <charconv>
 #include <iostream>
 
 namespace graphql::service {
@@ -276,7 +277,17 @@ void ValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto text = intValue.string_view();
+	response::IntType value {};
+
+	if (std::from_chars(text.data(), text.data() + text.size(), value).ec != std::errc {})
+	{
+		// It does not fit in an Int, but it may still be the value of a Float.
+		visitFloatValue(intValue);
+		return;
+	}
+
+	_value = response::Value(value);
 }
 
 void ValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
diff --git a/src/Validation.cpp b/src/Validation.cpp
index 23e4731..702e23a 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -9,6 +9,7 @@
 #include "graphqlservice/introspection/IntrospectionSchema.h"
 
 #include <algorithm>
+#include <charconv>
 #include <iostream>
 #include <iterator>
 #include <stdexcept>
@@ -162,7 +163,16 @@ void ValidateArgumentValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValidateArgumentValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	response::IntType value { std::atoi(intValue.string().c_str()) };
+	const auto text = intValue.string_view();
+	response::IntType value {};
+
+	if (std::from_chars(text.data(), text.data() + text.size(), value).ec != std::errc {})
+	{
+		// It does not fit in an Int, but it may still be the value of a Float.
+		visitFloatValue(intValue);
+		return;
+	}
+
 	auto position = intValue.begin();
 
 	_argumentValue.value = std::make_unique<ValidateArgumentValue>(value);
-- 
2.43.0


From 8106a49c330e104bfe9ed492b06decf73f96317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 28/56] fix: start every validation from a clean state

---
 src/Validation.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 702e23a..df81bee 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -482,6 +482,19 @@ ValidateExecutableVisitor::ValidateExecutableVisitor(const std::shared_ptr<schem
 
 void ValidateExecutableVisitor::visit(const peg::ast_node& root)
 {
+	// Start over, even if an exception cut the last visit short.
+	_errors.clear();
+	_fragmentDefinitions.clear();
+	_operationDefinitions.clear();
+	_referencedFragments.clear();
+	_fragmentCycles.clear();
+	_operationVariables.reset();
+	_variableDefinitions.clear();
+	_referencedVariables.clear();
+	_fragmentStack.clear();
+	_scopedType.reset();
+	_selectionFields.clear();
+
 	// Visit all of the fragment definitions and check for duplicates.
 	peg::for_each_child<peg::fragment_definition>(root,
 		[this](const peg::ast_node& fragmentDefinition) {
@@ -779,6 +792,10 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 		error << "Unsupported operation type: " << operationType;
 
 		_errors.push_back({ error.str(), { position.line, position.column } });
+
+		_operationVariables.reset();
+		_variableDefinitions.clear();
+		_referencedVariables.clear();
 		return;
 	}
 
-- 
2.43.0


From e1978d3a94a15e79f0383c72af822f976f7ffd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 29/56] fix: check the required arguments of directives without
 arguments

---
 src/Validation.cpp | 111 +++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 55 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index df81bee..649982a 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -2037,12 +2037,13 @@ void ValidateExecutableVisitor::visitDirectives(
 			continue;
 		}
 
-		peg::on_first_child<peg::arguments>(*directive,
-			[this, &directive, &directiveName, itrDirective](const peg::ast_node& child) {
-				ValidateFieldArguments validateArguments;
-				internal::string_view_map<schema_location> argumentLocations;
-				std::list<std::string_view> argumentNames;
+		ValidateFieldArguments validateArguments;
+		internal::string_view_map<schema_location> argumentLocations;
+		std::list<std::string_view> argumentNames;
 
+		peg::on_first_child<peg::arguments>(*directive,
+			[this, &directiveName, &validateArguments, &argumentLocations, &argumentNames](
+				const peg::ast_node& child) {
 				for (auto& argument : child.children)
 				{
 					auto position = argument->begin();
@@ -2067,68 +2068,68 @@ void ValidateExecutableVisitor::visitDirectives(
 					argumentLocations[argumentName] = { position.line, position.column };
 					argumentNames.push_back(argumentName);
 				}
+			});
 
-				for (auto argumentName : argumentNames)
-				{
-					auto itrArgument = itrDirective->second.arguments.find(argumentName);
+		for (auto argumentName : argumentNames)
+		{
+			auto itrArgument = itrDirective->second.arguments.find(argumentName);
 
-					if (itrArgument == itrDirective->second.arguments.end())
-					{
-						// http://spec.graphql.org/June2018/#sec-Argument-Names
-						std::ostringstream message;
+			if (itrArgument == itrDirective->second.arguments.end())
+			{
+				// http://spec.graphql.org/June2018/#sec-Argument-Names
+				std::ostringstream message;
 
-						message << "Undefined argument directive: " << directiveName
-								<< " name: " << argumentName;
+				message << "Undefined argument directive: " << directiveName
+						<< " name: " << argumentName;
 
-						_errors.push_back({ message.str(), argumentLocations[argumentName] });
-					}
-				}
+				_errors.push_back({ message.str(), argumentLocations[argumentName] });
+			}
+		}
 
-				for (auto& argument : itrDirective->second.arguments)
-				{
-					auto itrArgument = validateArguments.find(argument.first);
-					const bool missing = itrArgument == validateArguments.end();
+		for (auto& argument : itrDirective->second.arguments)
+		{
+			auto itrArgument = validateArguments.find(argument.first);
+			const bool missing = itrArgument == validateArguments.end();
 
-					if (!missing && itrArgument->second.value)
-					{
-						// The value was not null.
-						if (!validateInputValue(argument.second.nonNullDefaultValue,
-								itrArgument->second,
-								argument.second.type))
-						{
-							// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
-							std::ostringstream message;
+			if (!missing && itrArgument->second.value)
+			{
+				// The value was not null.
+				if (!validateInputValue(argument.second.nonNullDefaultValue,
+						itrArgument->second,
+						argument.second.type))
+				{
+					// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
+					std::ostringstream message;
 
-							message << "Incompatible argument directive: " << directiveName
-									<< " name: " << argument.first;
+					message << "Incompatible argument directive: " << directiveName
+							<< " name: " << argument.first;
 
-							_errors.push_back({ message.str(), argumentLocations[argument.first] });
-						}
+					_errors.push_back({ message.str(), argumentLocations[argument.first] });
+				}
 
-						continue;
-					}
-					else if (argument.second.defaultValue)
-					{
-						// The argument has a default value.
-						continue;
-					}
+				continue;
+			}
+			else if (argument.second.defaultValue)
+			{
+				// The argument has a default value.
+				continue;
+			}
 
-					// See if the argument is wrapped in NON_NULL
-					if (argument.second.type
-						&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
-					{
-						// http://spec.graphql.org/June2018/#sec-Required-Arguments
-						auto position = directive->begin();
-						std::ostringstream message;
+			// See if the argument is wrapped in NON_NULL
+			if (argument.second.type
+				&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
+			{
+				// http://spec.graphql.org/June2018/#sec-Required-Arguments
+				auto position = directive->begin();
+				std::ostringstream message;
 
-						message << (missing ? "Missing argument directive: "
-											: "Required non-null argument directive: ")
-								<< directiveName << " name: " << argument.first;
+				message << (missing ? "Missing argument directive: "
+									: "Required non-null argument directive: ")
+						<< directiveName << " name: " << argument.first;
 
-						_errors.push_back({ message.str(), { position.line, position.column } });
-					}
-				}
-			});
+				_errors.push_back({ message.str(), { position.line, position.column } });
+			}
+		}
 	}
 }
 
-- 
2.43.0


From b5ef791516b9328541be552a8b13a0e8972cf327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 30/56] fix: compare string values by their content

---
 src/GraphQLResponse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 25ccfcc..664eb06 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -21,7 +21,8 @@ bool Value::MapData::operator==(const MapData& rhs) const
 
 bool Value::StringData::operator==(const StringData& rhs) const
 {
-	return from_json == rhs.from_json && string == rhs.string;
+	// Where the string came from is only a hint about its type, it does not change the value.
+	return string == rhs.string;
 }
 
 bool Value::NullData::operator==(const NullData&) const
-- 
2.43.0


From 60a40dbc07711a58940740749b216dc210e66be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 31/56] fix: report errors of the accessors which are notified
 of a subscription

The errors were collected in a result which nobody looked at, so the subscription stayed
registered even though its resolver failed.
---
 src/GraphQLService.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 63f701a..fc2a2e7 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2086,12 +2086,18 @@ std::future<SubscriptionKey> Request::subscribe(
 
 				try
 				{
-					operation
-						->resolve(selectionSetParams,
-							registration->selection,
-							registration->data->fragments,
-							registration->data->variables)
-						.get();
+					auto result = operation
+									  ->resolve(selectionSetParams,
+										  registration->selection,
+										  registration->data->fragments,
+										  registration->data->variables)
+									  .get();
+
+					if (!result.errors.empty())
+					{
+						// The errors from the field accessors are collected in the result.
+						throw schema_exception { std::move(result.errors) };
+					}
 				}
 				catch (const std::exception&)
 				{
-- 
2.43.0


From 73e1b6ee0b90b0654f3758f2d46f5e1ccb4f813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 32/56] fix: don't refer to the source name of a destroyed
 input

Each node of the syntax tree refers to the source name of the input it was parsed from. The inputs
for parsing strings were temporaries, so asking a node for its position read freed memory.
---
 src/SyntaxTree.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index d4cc66f..64be533 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -175,6 +175,9 @@ bool ast_node::has_content() const noexcept
 
 using namespace tao::graphqlpeg;
 
+// The nodes refer to the name of their source, so it needs to outlive the input they came from.
+using string_input = memory_input<tracking_mode::eager, eol::lf_crlf, std::string_view>;
+
 template <typename Rule>
 struct ast_selector : std::false_type
 {
@@ -825,7 +828,7 @@ ast parseSchemaString(std::string_view input)
 		// Try a smaller grammar with only schema type definitions first.
 		result.root =
 			parse_tree::parse<schema_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				string_input(data.data(), data.size(), "GraphQL"sv));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -833,7 +836,7 @@ ast parseSchemaString(std::string_view input)
 		// executable definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				string_input(data.data(), data.size(), "GraphQL"sv));
 	}
 
 	return result;
@@ -884,7 +887,7 @@ ast parseString(std::string_view input)
 		// Try a smaller grammar with only executable definitions first.
 		result.root = parse_tree::
 			parse<executable_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				string_input(data.data(), data.size(), "GraphQL"sv));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -892,7 +895,7 @@ ast parseString(std::string_view input)
 		// definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				string_input(data.data(), data.size(), "GraphQL"sv));
 	}
 
 	return result;
@@ -946,7 +949,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::string_input(text, size, "GraphQL"sv));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -956,7 +959,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::string_input(text, size, "GraphQL"sv));
 	}
 
 	return result;
-- 
2.43.0


From b0e05b0b6972dd8848847f44a98145dc8a5c555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 33/56] fix: let client variables contain lists of Boolean

---
 include/graphqlservice/GraphQLClient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/GraphQLClient.h b/include/graphqlservice/GraphQLClient.h
index 4893381..190f190 100644
--- a/include/graphqlservice/GraphQLClient.h
+++ b/include/graphqlservice/GraphQLClient.h
@@ -129,7 +129,7 @@ struct ModifiedVariable
 		response::Value result { response::Type::List };
 
 		result.reserve(listValue.size());
-		std::for_each(listValue.begin(), listValue.end(), [&result](auto& value) {
+		std::for_each(listValue.begin(), listValue.end(), [&result](auto&& value) {
 			result.emplace_back(serialize<Other...>(std::move(value)));
 		});
 		listValue.clear();
-- 
2.43.0


From 657dcc9c58cfd2625f6c517a351b70aaa7603c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 34/56] fix: name the argument which is missing or not a list

---
 include/graphqlservice/GraphQLService.h | 37 +++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 4ddb87a..2e193d2 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -321,9 +321,11 @@ struct ModifiedArgument
 	// Call convert on this type without any modifiers.
 	static Type require(const std::string& name, const response::Value& arguments)
 	{
+		const auto& value = lookup(name, arguments);
+
 		try
 		{
-			return convert(arguments[name]);
+			return convert(value);
 		}
 		catch (schema_exception& ex)
 		{
@@ -390,7 +392,17 @@ struct ModifiedArgument
 		typename ArgumentTraits<Type, Modifier, Other...>::type>
 	require(const std::string& name, const response::Value& arguments)
 	{
-		const auto& values = arguments[name];
+		const auto& values = lookup(name, arguments);
+
+		if (values.type() != response::Type::List)
+		{
+			std::ostringstream message;
+
+			message << "Invalid argument: " << name << " error: not a list";
+
+			throw schema_exception { { message.str() } };
+		}
+
 		typename ArgumentTraits<Type, Modifier, Other...>::type result(values.size());
 		const auto& elements = values.get<response::ListType>();
 
@@ -422,6 +434,27 @@ struct ModifiedArgument
 			return { typename ArgumentTraits<Type, Modifier, Other...>::type {}, false };
 		}
 	}
+
+private:
+	// Look up a single argument by name, or throw a schema_exception if it's missing.
+	static const response::Value& lookup(const std::string& name, const response::Value& arguments)
+	{
+		if (arguments.type() == response::Type::Map)
+		{
+			const auto itr = arguments.find(name);
+
+			if (itr != arguments.end())
+			{
+				return itr->second;
+			}
+		}
+
+		std::ostringstream message;
+
+		message << "Invalid argument: " << name << " error: missing argument";
+
+		throw schema_exception { { message.str() } };
+	}
 };
 
 // Convenient type aliases for testing, generated code won't actually use these. These are also
-- 
2.43.0


From bbca4abed374bb031c249aff21c0d1805d491e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 35/56] fix: resolve the argument types of fields which return
 built-in types

---
 src/SchemaLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index bfe0951..3247def 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -377,6 +377,8 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 			entry.accessor = *accessor;
 		}
 
+		fixupInputFieldList(entry.arguments);
+
 		if (s_builtinTypes.find(entry.type) != s_builtinTypes.cend())
 		{
 			continue;
@@ -435,8 +437,6 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 				throw std::runtime_error(error.str());
 			}
 		}
-
-		fixupInputFieldList(entry.arguments);
 	}
 }
 
-- 
2.43.0


From 8f5504ad5bc29152ae27c55c9cb58131ed01401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 36/56] fix: resolve the argument types of directives

---
 src/SchemaLoader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 3247def..4610316 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -199,6 +199,11 @@ void SchemaLoader::validateSchema()
 		fixupInputFieldList(entry.fields);
 	}
 
+	for (auto& entry : _directives)
+	{
+		fixupInputFieldList(entry.arguments);
+	}
+
 	// Handle nested input types by fully declaring the dependencies first.
 	reorderInputTypeDependencies();
 
-- 
2.43.0


From 969bed650bb72604715a9a230f75a8d493dd4c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 37/56] fix: keep the indices of input types after they are
 reordered

---
 src/SchemaLoader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 4610316..b4d76ab 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -552,6 +552,12 @@ void SchemaLoader::reorderInputTypeDependencies()
 
 		itr = itrDependent;
 	}
+
+	// The input types may have moved, so look them up again.
+	for (size_t i = 0; i < _inputTypes.size(); ++i)
+	{
+		_inputNames[_inputTypes[i].type] = i;
+	}
 }
 
 void SchemaLoader::visitDefinition(const peg::ast_node& definition)
-- 
2.43.0


From a1836d8e7766a26c7a2a1521a1967807d894e8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 38/56] fix: use the default reason of @deprecated in schema
 files

---
 src/SchemaLoader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index b4d76ab..19c38c8 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -34,6 +34,9 @@ const CppTypeMap SchemaLoader::s_builtinCppTypes = {
 
 const std::string_view SchemaLoader::s_scalarCppType = R"cpp(response::Value)cpp"sv;
 
+// The default value of the reason argument of the @deprecated directive.
+constexpr auto s_defaultDeprecationReason = "No longer supported"sv;
+
 SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 	: _customSchema(std::move(customSchema))
 	, _isIntrospection(!_customSchema)
@@ -900,7 +903,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view reason;
+							value.deprecationReason = s_defaultDeprecationReason;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&value](const peg::ast_node& arguments) {
@@ -1120,7 +1123,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view deprecationReason;
+							std::string_view deprecationReason = s_defaultDeprecationReason;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&deprecationReason](const peg::ast_node& arguments) {
-- 
2.43.0


From 49cfe5c1419c9b839be33f5a46dce11db1a77dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 39/56] fix: apply schema extensions which come before the
 definition

---
 src/SchemaLoader.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 19c38c8..e2b8d8e 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -37,6 +37,17 @@ const std::string_view SchemaLoader::s_scalarCppType = R"cpp(response::Value)cpp
 // The default value of the reason argument of the @deprecated directive.
 constexpr auto s_defaultDeprecationReason = "No longer supported"sv;
 
+static bool isExtension(const peg::ast_node& definition) noexcept
+{
+	return definition.is_type<peg::schema_extension>()
+		|| definition.is_type<peg::scalar_type_extension>()
+		|| definition.is_type<peg::enum_type_extension>()
+		|| definition.is_type<peg::input_object_type_extension>()
+		|| definition.is_type<peg::union_type_extension>()
+		|| definition.is_type<peg::interface_type_extension>()
+		|| definition.is_type<peg::object_type_extension>();
+}
+
 SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 	: _customSchema(std::move(customSchema))
 	, _isIntrospection(!_customSchema)
@@ -166,9 +177,21 @@ SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 		}
 	}
 
+	// The extensions may come before the definitions of the types which they extend.
 	for (const auto& child : _ast.root->children)
 	{
-		visitDefinition(*child);
+		if (!isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
+	}
+
+	for (const auto& child : _ast.root->children)
+	{
+		if (isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
 	}
 
 	validateSchema();
-- 
2.43.0


From 09a46372a9884f4a403bdb57f5f74010fbcac1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 40/56] fix: refuse extensions of undefined types in schema
 files

---
 src/SchemaLoader.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index e2b8d8e..ccf463e 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -48,6 +48,18 @@ static bool isExtension(const peg::ast_node& definition) noexcept
 		|| definition.is_type<peg::object_type_extension>();
 }
 
+[[noreturn]] static void throwUnknownExtension(
+	std::string_view type, const peg::ast_node& typeExtension)
+{
+	const auto position = typeExtension.begin();
+	std::ostringstream error;
+
+	error << "Unknown type extended: " << type << " line: " << position.line
+		  << " column: " << position.column;
+
+	throw std::runtime_error(error.str());
+}
+
 SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 	: _customSchema(std::move(customSchema))
 	, _isIntrospection(!_customSchema)
@@ -739,6 +751,10 @@ void SchemaLoader::visitObjectTypeExtension(const peg::ast_node& objectTypeExten
 				}
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, objectTypeExtension);
+	}
 }
 
 void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTypeDefinition)
@@ -796,6 +812,10 @@ void SchemaLoader::visitInterfaceTypeExtension(const peg::ast_node& interfaceTyp
 				}
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, interfaceTypeExtension);
+	}
 }
 
 void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObjectTypeDefinition)
@@ -853,6 +873,10 @@ void SchemaLoader::visitInputObjectTypeExtension(const peg::ast_node& inputObjec
 				}
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, inputObjectTypeExtension);
+	}
 }
 
 void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefinition)
@@ -957,6 +981,10 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 			enumType.values.push_back(std::move(value));
 		});
 	}
+	else
+	{
+		throwUnknownExtension(name, enumTypeExtension);
+	}
 }
 
 void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefinition)
@@ -1030,6 +1058,10 @@ void SchemaLoader::visitUnionTypeExtension(const peg::ast_node& unionTypeExtensi
 				unionType.options.push_back(child.string_view());
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, unionTypeExtension);
+	}
 }
 
 void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefinition)
-- 
2.43.0


From a51ceb4c5849027f799db84183396fd940d29681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 41/56] fix: accept extensions of scalar types in schema files

---
 include/SchemaLoader.h |  1 +
 src/SchemaLoader.cpp   | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index cbd8169..bcd9d7b 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -264,6 +264,7 @@ private:
 	void visitSchemaDefinition(const peg::ast_node& schemaDefinition);
 	void visitSchemaExtension(const peg::ast_node& schemaExtension);
 	void visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefinition);
+	void visitScalarTypeExtension(const peg::ast_node& scalarTypeExtension);
 	void visitEnumTypeDefinition(const peg::ast_node& enumTypeDefinition);
 	void visitEnumTypeExtension(const peg::ast_node& enumTypeExtension);
 	void visitInputObjectTypeDefinition(const peg::ast_node& inputObjectTypeDefinition);
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index ccf463e..534b851 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -612,6 +612,10 @@ void SchemaLoader::visitDefinition(const peg::ast_node& definition)
 	{
 		visitScalarTypeDefinition(definition);
 	}
+	else if (definition.is_type<peg::scalar_type_extension>())
+	{
+		visitScalarTypeExtension(definition);
+	}
 	else if (definition.is_type<peg::enum_type_definition>())
 	{
 		visitEnumTypeDefinition(definition);
@@ -1011,6 +1015,22 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 	_scalarTypes.push_back({ name, description });
 }
 
+void SchemaLoader::visitScalarTypeExtension(const peg::ast_node& scalarTypeExtension)
+{
+	std::string_view name;
+
+	peg::on_first_child<peg::scalar_name>(scalarTypeExtension,
+		[&name](const peg::ast_node& child) {
+			name = child.string_view();
+		});
+
+	// There are only directives in the extension of a scalar type, and they are not used.
+	if (_scalarNames.find(name) == _scalarNames.cend())
+	{
+		throwUnknownExtension(name, scalarTypeExtension);
+	}
+}
+
 void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefinition)
 {
 	std::string_view name;
-- 
2.43.0


From 6e6edeed0890f5656636ec8892293cdb3631d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 42/56] fix: apply the default values of omitted arguments and
 input fields

The generated code looked for the argument with ModifiedArgument::find, which
also succeeds for an omitted nullable argument, so that default values of
nullable arguments and input fields were never used. It also replaced a value
which can't be converted by the default instead of reporting the error.
---
 samples/separate/QueryObject.cpp              |  6 ++--
 samples/separate/TodaySchema.cpp              |  6 ++--
 .../separate_nointrospection/QueryObject.cpp  |  6 ++--
 .../separate_nointrospection/TodaySchema.cpp  |  6 ++--
 samples/unified/TodaySchema.cpp               | 12 +++-----
 .../unified_nointrospection/TodaySchema.cpp   | 12 +++-----
 samples/validation/ValidationSchema.cpp       | 10 +++----
 src/IntrospectionSchema.cpp                   | 12 +++-----
 src/SchemaGenerator.cpp                       | 28 ++++++++++++-------
 9 files changed, 42 insertions(+), 56 deletions(-)

diff --git a/samples/separate/QueryObject.cpp b/samples/separate/QueryObject.cpp
index d756490..35f4792 100644
--- a/samples/separate/QueryObject.cpp
+++ b/samples/separate/QueryObject.cpp
@@ -141,10 +141,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	const bool omittedIds = (params.arguments.find("ids") == params.arguments.end() || params.arguments["ids"].type() == response::Type::Null);
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", (omittedIds ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/separate/TodaySchema.cpp b/samples/separate/TodaySchema.cpp
index 07b69b6..524bdbd 100644
--- a/samples/separate/TodaySchema.cpp
+++ b/samples/separate/TodaySchema.cpp
@@ -76,10 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	const bool omittedIsComplete = (value.find("isComplete") == value.end());
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", (omittedIsComplete ? defaultValue : value));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
diff --git a/samples/separate_nointrospection/QueryObject.cpp b/samples/separate_nointrospection/QueryObject.cpp
index d081b8b..a23b31e 100644
--- a/samples/separate_nointrospection/QueryObject.cpp
+++ b/samples/separate_nointrospection/QueryObject.cpp
@@ -138,10 +138,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	const bool omittedIds = (params.arguments.find("ids") == params.arguments.end() || params.arguments["ids"].type() == response::Type::Null);
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", (omittedIds ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/separate_nointrospection/TodaySchema.cpp b/samples/separate_nointrospection/TodaySchema.cpp
index a80582b..e53f15e 100644
--- a/samples/separate_nointrospection/TodaySchema.cpp
+++ b/samples/separate_nointrospection/TodaySchema.cpp
@@ -76,10 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	const bool omittedIsComplete = (value.find("isComplete") == value.end());
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", (omittedIsComplete ? defaultValue : value));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
diff --git a/samples/unified/TodaySchema.cpp b/samples/unified/TodaySchema.cpp
index c840830..dbecfbb 100644
--- a/samples/unified/TodaySchema.cpp
+++ b/samples/unified/TodaySchema.cpp
@@ -76,10 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	const bool omittedIsComplete = (value.find("isComplete") == value.end());
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", (omittedIsComplete ? defaultValue : value));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
@@ -264,10 +262,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	const bool omittedIds = (params.arguments.find("ids") == params.arguments.end() || params.arguments["ids"].type() == response::Type::Null);
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", (omittedIds ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/unified_nointrospection/TodaySchema.cpp b/samples/unified_nointrospection/TodaySchema.cpp
index 67d3949..fd80f31 100644
--- a/samples/unified_nointrospection/TodaySchema.cpp
+++ b/samples/unified_nointrospection/TodaySchema.cpp
@@ -76,10 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	const bool omittedIsComplete = (value.find("isComplete") == value.end());
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", (omittedIsComplete ? defaultValue : value));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
@@ -261,10 +259,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	const bool omittedIds = (params.arguments.find("ids") == params.arguments.end() || params.arguments["ids"].type() == response::Type::Null);
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", (omittedIds ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/validation/ValidationSchema.cpp b/samples/validation/ValidationSchema.cpp
index c5e4a81..5332e58 100644
--- a/samples/validation/ValidationSchema.cpp
+++ b/samples/validation/ValidationSchema.cpp
@@ -327,7 +327,7 @@ service::FieldResult<response::BooleanType> Dog::getDoesKnowCommand(service::Fie
 
 std::future<service::ResolverResult> Dog::resolveDoesKnowCommand(service::ResolverParams&& params)
 {
-	auto argDogCommand = service::ModifiedArgument<DogCommand>::require("dogCommand", params.arguments);
+	auto argDogCommand = service::ModifiedArgument<validation::DogCommand>::require("dogCommand", params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getDoesKnowCommand(service::FieldParams(std::move(params), std::move(directives)), std::move(argDogCommand));
@@ -521,7 +521,7 @@ service::FieldResult<response::BooleanType> Cat::getDoesKnowCommand(service::Fie
 
 std::future<service::ResolverResult> Cat::resolveDoesKnowCommand(service::ResolverParams&& params)
 {
-	auto argCatCommand = service::ModifiedArgument<CatCommand>::require("catCommand", params.arguments);
+	auto argCatCommand = service::ModifiedArgument<validation::CatCommand>::require("catCommand", params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getDoesKnowCommand(service::FieldParams(std::move(params), std::move(directives)), std::move(argCatCommand));
@@ -850,10 +850,8 @@ std::future<service::ResolverResult> Arguments::resolveOptionalNonNullBooleanArg
 		return values;
 	}();
 
-	auto pairOptionalBooleanArg = service::ModifiedArgument<response::BooleanType>::find("optionalBooleanArg", params.arguments);
-	auto argOptionalBooleanArg = (pairOptionalBooleanArg.second
-		? std::move(pairOptionalBooleanArg.first)
-		: service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", defaultArguments));
+	const bool omittedOptionalBooleanArg = (params.arguments.find("optionalBooleanArg") == params.arguments.end() || params.arguments["optionalBooleanArg"].type() == response::Type::Null);
+	auto argOptionalBooleanArg = service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", (omittedOptionalBooleanArg ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getOptionalNonNullBooleanArgField(service::FieldParams(std::move(params), std::move(directives)), std::move(argOptionalBooleanArg));
diff --git a/src/IntrospectionSchema.cpp b/src/IntrospectionSchema.cpp
index ddc9e1a..76844f0 100644
--- a/src/IntrospectionSchema.cpp
+++ b/src/IntrospectionSchema.cpp
@@ -250,10 +250,8 @@ std::future<service::ResolverResult> Type::resolveFields(service::ResolverParams
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
+	const bool omittedIncludeDeprecated = (params.arguments.find("includeDeprecated") == params.arguments.end());
+	auto argIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", (omittedIncludeDeprecated ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getFields(service::FieldParams(std::move(params), std::move(directives)), std::move(argIncludeDeprecated));
@@ -295,10 +293,8 @@ std::future<service::ResolverResult> Type::resolveEnumValues(service::ResolverPa
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
+	const bool omittedIncludeDeprecated = (params.arguments.find("includeDeprecated") == params.arguments.end());
+	auto argIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", (omittedIncludeDeprecated ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getEnumValues(service::FieldParams(std::move(params), std::move(directives)), std::move(argIncludeDeprecated));
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 0de251b..cb4b5f4 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -1868,18 +1868,26 @@ std::string Generator::getArgumentDeclaration(const InputField& argument, const
 	}
 	else
 	{
-		argumentDeclaration << R"cpp(	auto pair)cpp" << argumentName << R"cpp( = )cpp"
-							<< getArgumentAccessType(argument) << R"cpp(::find)cpp"
-							<< getTypeModifiers(argument.modifiers) << R"cpp((")cpp"
-							<< argument.name << R"cpp(", )cpp" << argumentsToken << R"cpp();
+		// Use the default value if the argument was omitted, or if it is null (e.g. an undefined
+		// variable) and the type is non-nullable.
+		argumentDeclaration << R"cpp(	const bool omitted)cpp" << argumentName << R"cpp( = ()cpp"
+							<< argumentsToken << R"cpp(.find(")cpp" << argument.name
+							<< R"cpp(") == )cpp" << argumentsToken << R"cpp(.end())cpp";
+
+		if (argument.modifiers.empty()
+			|| argument.modifiers.front() != service::TypeModifier::Nullable)
+		{
+			argumentDeclaration << R"cpp( || )cpp" << argumentsToken << R"cpp([")cpp"
+								<< argument.name << R"cpp("].type() == response::Type::Null)cpp";
+		}
+
+		argumentDeclaration << R"cpp();
 	auto )cpp" << prefixToken
-							<< argumentName << R"cpp( = (pair)cpp" << argumentName << R"cpp(.second
-		? std::move(pair)cpp"
-							<< argumentName << R"cpp(.first)
-		: )cpp" << getArgumentAccessType(argument)
+							<< argumentName << R"cpp( = )cpp" << getArgumentAccessType(argument)
 							<< R"cpp(::require)cpp" << getTypeModifiers(argument.modifiers)
-							<< R"cpp((")cpp" << argument.name << R"cpp(", )cpp" << defaultToken
-							<< R"cpp());
+							<< R"cpp((")cpp" << argument.name << R"cpp(", (omitted)cpp"
+							<< argumentName << R"cpp( ? )cpp" << defaultToken << R"cpp( : )cpp"
+							<< argumentsToken << R"cpp());
 )cpp";
 	}
 
-- 
2.43.0


From afbfbaa15b1cdbcfbb6f9928f3bf99cfd05d5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 43/56] fix: declare enum values by the names which the
 generated code uses

The source file refers to the value with underscores removed where C++ reserves
the name, the header file declared the original name.
---
 src/SchemaGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index cb4b5f4..3c6bb8f 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -220,7 +220,7 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 				}
 
 				firstValue = false;
-				headerFile << R"cpp(	)cpp" << value.value;
+				headerFile << R"cpp(	)cpp" << value.cppValue;
 			}
 			headerFile << R"cpp(
 };
-- 
2.43.0


From d692b946654c09431a4f924470f47fa0bb96db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 44/56] fix: keep all digits of Float default values

---
 src/SchemaGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 3c6bb8f..743767c 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -37,7 +37,9 @@
 
 #include <cctype>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 #include <stdexcept>
@@ -1813,6 +1815,7 @@ std::string Generator::getArgumentDefaultValue(
 			argumentDefaultValue
 				<< padding
 				<< R"cpp(		entry = response::Value(static_cast<response::FloatType>()cpp"
+				<< std::setprecision(std::numeric_limits<response::FloatType>::max_digits10)
 				<< defaultValue.get<response::FloatType>() << R"cpp());
 )cpp";
 			break;
-- 
2.43.0


From 3be028e8b704ce10232cce14320418f2173ba171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 45/56] fix: declare inherited fields when generating without
 stubs

---
 src/SchemaGenerator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 743767c..8b8b6f6 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -467,7 +467,7 @@ protected:
 
 		for (const auto& outputField : objectType.fields)
 		{
-			if (outputField.inheritedField && (_loader.isIntrospection() || _options.noStubs))
+			if (outputField.inheritedField && _loader.isIntrospection())
 			{
 				continue;
 			}
@@ -537,13 +537,13 @@ std::string Generator::getFieldDeclaration(const OutputField& outputField) const
 	}
 
 	output << R"cpp() const)cpp";
-	if (outputField.interfaceField || _loader.isIntrospection() || _options.noStubs)
+	if (outputField.inheritedField)
 	{
-		output << R"cpp( = 0)cpp";
+		output << R"cpp( override)cpp";
 	}
-	else if (outputField.inheritedField)
+	if (outputField.interfaceField || _loader.isIntrospection() || _options.noStubs)
 	{
-		output << R"cpp( override)cpp";
+		output << R"cpp( = 0)cpp";
 	}
 	output << R"cpp(;
 )cpp";
-- 
2.43.0


From 93d16f264d079fec2cc248e5e40c2f9c569805c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 46/56] fix: declare and serialise clientgen variables with
 their types and modifiers

---
 include/ClientGenerator.h |  1 +
 include/RequestLoader.h   |  2 ++
 src/ClientGenerator.cpp   | 24 ++++++++++++++++++++----
 src/RequestLoader.cpp     |  9 ++++++++-
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 36def4f..5fd5941 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -41,6 +41,7 @@ private:
 	const std::string& getClientNamespace() const noexcept;
 	const std::string& getRequestNamespace() const noexcept;
 	const std::string& getFullNamespace() const noexcept;
+	std::string getVariableCppType(const RequestSchemaType& type) const noexcept;
 	std::string getResponseFieldCppType(
 		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
 
diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 0f1fef6..9eca41b 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -80,6 +80,8 @@ public:
 	const RequestSchemaTypeList& getReferencedEnums() const noexcept;
 
 	std::string getInputCppType(const RequestSchemaType& wrappedInputType) const noexcept;
+	std::string getInputCppType(
+		const RequestSchemaType& inputType, const TypeModifierStack& modifiers) const noexcept;
 	static std::string getOutputCppType(
 		std::string_view outputCppType, const TypeModifierStack& modifiers) noexcept;
 
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 5c69973..0673525 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -138,6 +138,21 @@ const std::string& Generator::getFullNamespace() const noexcept
 	return s_namespace;
 }
 
+std::string Generator::getVariableCppType(const RequestSchemaType& type) const noexcept
+{
+	std::ostringstream oss;
+
+	// The input object structs are declared inside of the Variables struct.
+	if (type->kind() == introspection::TypeKind::INPUT_OBJECT)
+	{
+		oss << R"cpp(Variables::)cpp";
+	}
+
+	oss << _schemaLoader.getCppType(type->name());
+
+	return oss.str();
+}
+
 std::string Generator::getResponseFieldCppType(
 	const ResponseField& responseField, std::string_view currentScope /* = {} */) const noexcept
 {
@@ -279,7 +294,8 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 
 		for (const auto& variable : variables)
 		{
-			headerFile << R"cpp(	)cpp" << _schemaLoader.getCppType(variable.type->name())
+			headerFile << R"cpp(	)cpp"
+					   << _requestLoader.getInputCppType(variable.type, variable.modifiers)
 					   << R"cpp( )cpp" << variable.cppName << R"cpp( {};
 )cpp";
 		}
@@ -544,7 +560,7 @@ response::Value ModifiedVariable<Variables::)cpp"
 
 				sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << inputField->name()
 						   << R"cpp()js"s, ModifiedVariable<)cpp"
-						   << _schemaLoader.getCppType(type->name()) << R"cpp(>::serialize)cpp"
+						   << getVariableCppType(type) << R"cpp(>::serialize)cpp"
 						   << getTypeModifierList(modifiers) << R"cpp((std::move(inputValue.)cpp"
 						   << SchemaLoader::getSafeCppName(inputField->name()) << R"cpp()));
 )cpp";
@@ -625,8 +641,8 @@ response::Value serializeVariables(Variables&& variables)
 		for (const auto& variable : variables)
 		{
 			sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << variable.name
-					   << R"cpp()js"s, ModifiedVariable<Variables::)cpp"
-					   << _schemaLoader.getCppType(variable.type->name()) << R"cpp(>::serialize)cpp"
+					   << R"cpp()js"s, ModifiedVariable<)cpp"
+					   << getVariableCppType(variable.type) << R"cpp(>::serialize)cpp"
 					   << getTypeModifierList(variable.modifiers)
 					   << R"cpp((std::move(variables.)cpp" << variable.cppName << R"cpp()));
 )cpp";
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 73c7b90..edd84fd 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -137,10 +137,17 @@ const RequestSchemaTypeList& RequestLoader::getReferencedEnums() const noexcept
 }
 
 std::string RequestLoader::getInputCppType(const RequestSchemaType& wrappedInputType) const noexcept
+{
+	auto [inputType, modifiers] = unwrapSchemaType(RequestSchemaType { wrappedInputType });
+
+	return getInputCppType(inputType, modifiers);
+}
+
+std::string RequestLoader::getInputCppType(
+	const RequestSchemaType& inputType, const TypeModifierStack& modifiers) const noexcept
 {
 	size_t templateCount = 0;
 	std::ostringstream cppType;
-	auto [inputType, modifiers] = unwrapSchemaType(RequestSchemaType { wrappedInputType });
 
 	for (auto modifier : modifiers)
 	{
-- 
2.43.0


From 4322544cb87ccb24c720bb6af6aa16dc3239ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 47/56] fix: order clientgen input types by their wrapped
 dependencies

---
 src/RequestLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index edd84fd..ba2507a 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -864,7 +864,7 @@ void RequestLoader::reorderInputTypeDependencies() noexcept
 			std::for_each(fields.begin(),
 				fields.end(),
 				[&result](const std::shared_ptr<const schema::InputValue>& field) noexcept {
-					const auto fieldType = field->type().lock();
+					const auto fieldType = unwrapSchemaType(field->type().lock()).first;
 
 					if (fieldType->kind() == introspection::TypeKind::INPUT_OBJECT)
 					{
-- 
2.43.0


From 55ea742aacc2e311344d28b00b743aeaccbc052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 48/56] fix: send and parse enum values by their own names in
 clientgen

---
 src/ClientGenerator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 0673525..07d8d7a 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -500,8 +500,7 @@ using namespace )cpp"
 		for (const auto& enumValue : enumValues)
 		{
 			firstValue = false;
-			sourceFile << R"cpp(	")cpp" << SchemaLoader::getSafeCppName(enumValue->name())
-					   << R"cpp("sv,
+			sourceFile << R"cpp(	")cpp" << enumValue->name() << R"cpp("sv,
 )cpp";
 		}
 
-- 
2.43.0


From b4daa48e74c3ab37febc7ab2f629d4430b0a3199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 49/56] fix: merge the sub-fields of response names selected
 more than once in clientgen

---
 include/RequestLoader.h |  3 ++-
 src/RequestLoader.cpp   | 51 ++++++++++++++++++++++-------------------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 9eca41b..2a50b1a 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -126,12 +126,13 @@ private:
 
 		void mergeFragmentFields(ResponseFieldList&& fragmentFields) noexcept;
 
+		static void mergeField(ResponseFieldList& fields, ResponseField&& newField) noexcept;
+
 		const SchemaLoader& _schemaLoader;
 		const FragmentDefinitionMap& _fragments;
 		const std::shared_ptr<schema::Schema>& _schema;
 		const RequestSchemaType& _type;
 
-		internal::string_view_set _names;
 		ResponseFieldList _fields;
 	};
 
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index ba2507a..f8b8811 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -1029,14 +1029,6 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
-	if (!_names.emplace(alias).second)
-	{
-		// Skip fields which map to the same response name as a field we've already visited.
-		// Validation should handle merging multiple references to the same field or to
-		// compatible fields.
-		return;
-	}
-
 	ResponseField responseField;
 
 	responseField.name = alias;
@@ -1047,7 +1039,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 	if (name == R"gql(__typename)gql"sv)
 	{
 		responseField.type = _schema->LookupType("String"sv);
-		_fields.push_back(std::move(responseField));
+		mergeField(_fields, std::move(responseField));
 		return;
 	}
 
@@ -1121,7 +1113,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		}
 	}
 
-	_fields.push_back(std::move(responseField));
+	mergeField(_fields, std::move(responseField));
 }
 
 void RequestLoader::SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
@@ -1175,20 +1167,33 @@ void RequestLoader::SelectionVisitor::visitInlineFragment(const peg::ast_node& i
 void RequestLoader::SelectionVisitor::mergeFragmentFields(
 	ResponseFieldList&& fragmentFields) noexcept
 {
-	fragmentFields.erase(std::remove_if(fragmentFields.begin(),
-							 fragmentFields.end(),
-							 [this](const ResponseField& fragmentField) noexcept {
-								 return !_names.emplace(fragmentField.name).second;
-							 }),
-		fragmentFields.cend());
-
-	if (!fragmentFields.empty())
+	_fields.reserve(_fields.size() + fragmentFields.size());
+	for (auto& fragmentField : fragmentFields)
 	{
-		_fields.reserve(_fields.size() + fragmentFields.size());
-		for (auto& fragmentField : fragmentFields)
-		{
-			_fields.push_back(std::move(fragmentField));
-		}
+		mergeField(_fields, std::move(fragmentField));
+	}
+}
+
+void RequestLoader::SelectionVisitor::mergeField(
+	ResponseFieldList& fields, ResponseField&& newField) noexcept
+{
+	const auto itr = std::find_if(fields.begin(),
+		fields.end(),
+		[&newField](const ResponseField& field) noexcept {
+			return field.name == newField.name;
+		});
+
+	if (itr == fields.end())
+	{
+		fields.push_back(std::move(newField));
+		return;
+	}
+
+	// This field maps to the same response name as a field we've already visited. Validation should
+	// make sure that they are compatible, but each of them can select different sub-fields.
+	for (auto& child : newField.children)
+	{
+		mergeField(itr->children, std::move(child));
 	}
 }
 
-- 
2.43.0


From bbb6e428df28171fc99226c58eae9a249c2b1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 50/56] fix: leave the byte order mark of the request document
 out of clientgen's code

---
 src/RequestLoader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index f8b8811..4f032b5 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -28,6 +28,13 @@ RequestLoader::RequestLoader(RequestOptions&& requestOptions, const SchemaLoader
 	std::istreambuf_iterator<char> itr { document }, itrEnd;
 	_requestText = std::string { itr, itrEnd };
 
+	// The byte order mark is only valid at the beginning of the file, where it does not stay in the
+	// generated code.
+	if (_requestText.compare(0, 3, "\xEF\xBB\xBF") == 0)
+	{
+		_requestText.erase(0, 3);
+	}
+
 	buildSchema();
 
 	_ast = peg::parseFile(_requestOptions.requestFilename);
-- 
2.43.0


From 214d73302c63fde237e449cd6781f2f8737ea464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 51/56] fix: name clientgen's nested response structs unlike
 the struct around them

---
 include/ClientGenerator.h |  8 +++--
 src/ClientGenerator.cpp   | 61 +++++++++++++++++++++++++++------------
 2 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 5fd5941..a21ae9c 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -43,13 +43,15 @@ private:
 	const std::string& getFullNamespace() const noexcept;
 	std::string getVariableCppType(const RequestSchemaType& type) const noexcept;
 	std::string getResponseFieldCppType(
-		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
+		const ResponseField& responseField, std::string_view currentScope) const noexcept;
+	std::string getScopedResponseFieldCppType(
+		const ResponseField& responseField, std::string_view currentScope) const noexcept;
 
 	bool outputHeader() const noexcept;
 	void outputRequestComment(std::ostream& headerFile) const noexcept;
 	void outputGetRequestDeclaration(std::ostream& headerFile) const noexcept;
-	bool outputResponseFieldType(std::ostream& headerFile, const ResponseField& responseField,
-		size_t indent = 0) const noexcept;
+	bool outputResponseFieldType(std::ostream& headerFile, const std::string& outerScope,
+		const ResponseField& responseField, size_t indent = 0) const noexcept;
 
 	bool outputSource() const noexcept;
 	void outputGetRequestImplementation(std::ostream& sourceFile) const noexcept;
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 07d8d7a..4ba8534 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -154,7 +154,7 @@ std::string Generator::getVariableCppType(const RequestSchemaType& type) const n
 }
 
 std::string Generator::getResponseFieldCppType(
-	const ResponseField& responseField, std::string_view currentScope /* = {} */) const noexcept
+	const ResponseField& responseField, std::string_view currentScope) const noexcept
 {
 	std::string result;
 
@@ -166,13 +166,15 @@ std::string Generator::getResponseFieldCppType(
 		{
 			std::ostringstream oss;
 
-			if (!currentScope.empty())
+			oss << responseField.cppName << R"cpp(_)cpp" << responseField.type->name();
+			result = SchemaLoader::getSafeCppName(oss.str());
+
+			// A nested struct can't have the same name as the struct which it's declared in.
+			if (result == currentScope.substr(currentScope.rfind(':') + 1))
 			{
-				oss << currentScope << R"cpp(::)cpp";
+				result += '_';
 			}
 
-			oss << responseField.cppName << R"cpp(_)cpp" << responseField.type->name();
-			result = SchemaLoader::getSafeCppName(oss.str());
 			break;
 		}
 
@@ -183,6 +185,28 @@ std::string Generator::getResponseFieldCppType(
 	return result;
 }
 
+std::string Generator::getScopedResponseFieldCppType(
+	const ResponseField& responseField, std::string_view currentScope) const noexcept
+{
+	std::ostringstream oss;
+
+	switch (responseField.type->kind())
+	{
+		case introspection::TypeKind::OBJECT:
+		case introspection::TypeKind::INTERFACE:
+		case introspection::TypeKind::UNION:
+			oss << currentScope << R"cpp(::)cpp";
+			break;
+
+		default:
+			break;
+	}
+
+	oss << getResponseFieldCppType(responseField, currentScope);
+
+	return oss.str();
+}
+
 std::vector<std::string> Generator::Build() const noexcept
 {
 	std::vector<std::string> builtFiles;
@@ -311,6 +335,7 @@ response::Value serializeVariables(Variables&& variables);
 	pendingSeparator.reset();
 
 	const auto& responseType = _requestLoader.getResponseType();
+	const auto currentScope = R"cpp(Response)cpp"s;
 
 	headerFile << R"cpp(struct Response
 {)cpp";
@@ -321,7 +346,7 @@ response::Value serializeVariables(Variables&& variables);
 	{
 		pendingSeparator.reset();
 
-		if (outputResponseFieldType(headerFile, responseField, 1))
+		if (outputResponseFieldType(headerFile, currentScope, responseField, 1))
 		{
 			pendingSeparator.add();
 		}
@@ -332,7 +357,8 @@ response::Value serializeVariables(Variables&& variables);
 		pendingSeparator.reset();
 
 		headerFile << R"cpp(	)cpp"
-				   << RequestLoader::getOutputCppType(getResponseFieldCppType(responseField),
+				   << RequestLoader::getOutputCppType(
+						  getResponseFieldCppType(responseField, currentScope),
 						  responseField.modifiers)
 				   << R"cpp( )cpp" << responseField.cppName << R"cpp( {};
 )cpp";
@@ -382,7 +408,7 @@ const peg::ast& GetRequestObject() noexcept;
 )cpp";
 }
 
-bool Generator::outputResponseFieldType(std::ostream& headerFile,
+bool Generator::outputResponseFieldType(std::ostream& headerFile, const std::string& outerScope,
 	const ResponseField& responseField, size_t indent /* = 0 */) const noexcept
 {
 	switch (responseField.type->kind())
@@ -399,11 +425,11 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 	}
 
 	const std::string indentTabs(indent, '\t');
+	const auto cppType = getResponseFieldCppType(responseField, outerScope);
 	std::unordered_set<std::string_view> fieldNames;
 	PendingBlankLine pendingSeparator { headerFile };
 
-	headerFile << indentTabs << R"cpp(struct )cpp" << getResponseFieldCppType(responseField)
-			   << R"cpp(
+	headerFile << indentTabs << R"cpp(struct )cpp" << cppType << R"cpp(
 )cpp" << indentTabs
 			   << R"cpp({)cpp";
 
@@ -418,7 +444,7 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 				pendingSeparator.reset();
 
 				if (fieldNames.emplace(field.name).second
-					&& outputResponseFieldType(headerFile, field, indent + 1))
+					&& outputResponseFieldType(headerFile, cppType, field, indent + 1))
 				{
 					pendingSeparator.add();
 				}
@@ -433,7 +459,8 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 				if (fieldNames.emplace(field.name).second)
 				{
 					headerFile << indentTabs << R"cpp(	)cpp"
-							   << RequestLoader::getOutputCppType(getResponseFieldCppType(field),
+							   << RequestLoader::getOutputCppType(
+									  getResponseFieldCppType(field, cppType),
 									  field.modifiers)
 							   << R"cpp( )cpp" << field.cppName << R"cpp( {};
 )cpp";
@@ -677,7 +704,7 @@ Response parseResponse(response::Value&& response)
 			{
 				result.)cpp"
 					   << responseField.cppName << R"cpp( = ModifiedResponse<)cpp"
-					   << getResponseFieldCppType(responseField, currentScope)
+					   << getScopedResponseFieldCppType(responseField, currentScope)
 					   << R"cpp(>::parse)cpp" << getTypeModifierList(responseField.modifiers)
 					   << R"cpp((std::move(member.second));
 				continue;
@@ -737,11 +764,7 @@ const peg::ast& GetRequestObject() noexcept
 bool Generator::outputModifiedResponseImplementation(std::ostream& sourceFile,
 	const std::string& outerScope, const ResponseField& responseField) const noexcept
 {
-	std::ostringstream oss;
-
-	oss << outerScope << R"cpp(::)cpp" << getResponseFieldCppType(responseField);
-
-	const auto cppType = oss.str();
+	const auto cppType = getScopedResponseFieldCppType(responseField, outerScope);
 	std::unordered_set<std::string_view> fieldNames;
 
 	switch (responseField.type->kind())
@@ -800,7 +823,7 @@ template <>
 			{
 				result.)cpp" << field.cppName
 							   << R"cpp( = ModifiedResponse<)cpp"
-							   << getResponseFieldCppType(field, cppType) << R"cpp(>::parse)cpp"
+							   << getScopedResponseFieldCppType(field, cppType) << R"cpp(>::parse)cpp"
 							   << getTypeModifierList(field.modifiers)
 							   << R"cpp((std::move(member.second));
 				continue;
-- 
2.43.0


From 9ec891b3ef44d837c19a0ab9a15c5ee3012cbdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 52/56] fix: choose a raw string delimiter in clientgen which
 the request does not contain

---
 src/ClientGenerator.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 4ba8534..15b7bc5 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -727,10 +727,19 @@ Response parseResponse(response::Value&& response)
 
 void Generator::outputGetRequestImplementation(std::ostream& sourceFile) const noexcept
 {
+	auto delimiter = R"cpp(gql)cpp"s;
+
+	// The request must not end the raw string literal which contains it.
+	while (_requestLoader.getRequestText().find(")" + delimiter + "\"") != std::string_view::npos)
+	{
+		delimiter += '_';
+	}
+
 	sourceFile << R"cpp(
 const std::string& GetRequestText() noexcept
 {
-	static const auto s_request = R"gql(
+	static const auto s_request = R")cpp"
+			   << delimiter << R"cpp((
 )cpp";
 
 	std::istringstream request { std::string { _requestLoader.getRequestText() } };
@@ -740,7 +749,7 @@ const std::string& GetRequestText() noexcept
 		sourceFile << R"cpp(		)cpp" << line << std::endl;
 	}
 
-	sourceFile << R"cpp(	)gql"s;
+	sourceFile << R"cpp(	))cpp" << delimiter << R"cpp("s;
 
 	return s_request;
 }
-- 
2.43.0


From 6eb755739fee814c89d7c8ce693a689a8535cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 53/56] fix: refuse cyclic fragments which validation did not
 visit in clientgen

---
 src/RequestLoader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 4f032b5..bfcadaa 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -1143,7 +1143,14 @@ void RequestLoader::SelectionVisitor::visitFragmentSpread(const peg::ast_node& f
 	const auto typeCondition = itr->second->children[1].get();
 	const auto fragmentType = _schema->LookupType(typeCondition->children.front()->string_view());
 	const auto& selection = *(itr->second->children.back());
-	SelectionVisitor selectionVisitor { _schemaLoader, _fragments, _schema, fragmentType };
+
+	// Validation does not visit the sub-fields of a field which is selected again, so they might
+	// still spread this fragment inside of itself. That's an error, instead of infinite recursion.
+	FragmentDefinitionMap fragments { _fragments };
+
+	fragments.erase(name);
+
+	SelectionVisitor selectionVisitor { _schemaLoader, fragments, _schema, fragmentType };
 
 	selectionVisitor.visit(selection);
 	mergeFragmentFields(selectionVisitor.getFields());
-- 
2.43.0


From a4c067a89a9f6e9df57cb74f86b2fc8a5b6c673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 54/56] fix: keep string literal delimiters in descriptions and
 default values in schemagen

---
 src/SchemaGenerator.cpp | 83 ++++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 22 deletions(-)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 8b8b6f6..b2d17c6 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -48,6 +48,37 @@ using namespace std::literals;
 
 namespace graphql::generator::schema {
 
+// The text of a raw string literal ends at the first occurrence of its delimiter, and line endings in
+// it are normalized. Put each delimiter and carriage return which is part of the text in a string
+// literal of its own, adjacent literals are concatenated.
+static std::string getRawText(std::string_view delimiter, std::string_view text)
+{
+	const auto begin = R"cpp(R")cpp"s.append(delimiter).append("(");
+	const auto end = ")"s.append(delimiter).append(R"cpp(")cpp");
+	std::ostringstream rawText;
+
+	while (!text.empty())
+	{
+		if (text.front() == '\r')
+		{
+			rawText << end << R"cpp( "\r" )cpp" << begin;
+			text.remove_prefix(1);
+		}
+		else if (text.substr(0, end.size()) == end)
+		{
+			rawText << end << R"cpp( "))cpp" << delimiter << R"cpp(\"" )cpp" << begin;
+			text.remove_prefix(end.size());
+		}
+		else
+		{
+			rawText << text.front();
+			text.remove_prefix(1);
+		}
+	}
+
+	return rawText.str();
+}
+
 Generator::Generator(std::optional<SchemaOptions>&& customSchema, GeneratorOptions&& options)
 	: _loader(std::move(customSchema))
 	, _options(std::move(options))
@@ -886,7 +917,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << scalarType.description;
+				sourceFile << getRawText("md", scalarType.description);
 			}
 
 			sourceFile << R"cpp()md"));
@@ -904,7 +935,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << enumType.description;
+				sourceFile << getRawText("md", enumType.description);
 			}
 
 			sourceFile << R"cpp()md"sv);
@@ -924,7 +955,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << inputType.description;
+				sourceFile << getRawText("md", inputType.description);
 			}
 
 			sourceFile << R"cpp()md"sv);
@@ -945,7 +976,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << unionType.description;
+				sourceFile << getRawText("md", unionType.description);
 			}
 
 			sourceFile << R"cpp()md"sv);
@@ -966,7 +997,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << interfaceType.description;
+				sourceFile << getRawText("md", interfaceType.description);
 			}
 
 			sourceFile << R"cpp()md"sv);
@@ -987,7 +1018,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << objectType.description;
+				sourceFile << getRawText("md", objectType.description);
 			}
 
 			sourceFile << R"cpp()md");
@@ -1027,7 +1058,7 @@ Operations::Operations()cpp";
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << enumValue.description;
+						sourceFile << getRawText("md", enumValue.description);
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp";
@@ -1035,7 +1066,8 @@ Operations::Operations()cpp";
 					if (enumValue.deprecationReason)
 					{
 						sourceFile << R"cpp(std::make_optional(R"md()cpp"
-								   << *enumValue.deprecationReason << R"cpp()md"sv))cpp";
+								   << getRawText("md", *enumValue.deprecationReason)
+								   << R"cpp()md"sv))cpp";
 					}
 					else
 					{
@@ -1079,12 +1111,13 @@ Operations::Operations()cpp";
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << inputField.description;
+						sourceFile << getRawText("md", inputField.description);
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp"
 							   << getIntrospectionType(inputField.type, inputField.modifiers)
-							   << R"cpp(, R"gql()cpp" << inputField.defaultValueString
+							   << R"cpp(, R"gql()cpp"
+							   << getRawText("gql", inputField.defaultValueString)
 							   << R"cpp()gql"sv))cpp";
 				}
 
@@ -1156,7 +1189,7 @@ Operations::Operations()cpp";
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << interfaceField.description;
+						sourceFile << getRawText("md", interfaceField.description);
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp";
@@ -1164,7 +1197,8 @@ Operations::Operations()cpp";
 					if (interfaceField.deprecationReason)
 					{
 						sourceFile << R"cpp(std::make_optional(R"md()cpp"
-								   << *interfaceField.deprecationReason << R"cpp()md"sv))cpp";
+								   << getRawText("md", *interfaceField.deprecationReason)
+								   << R"cpp()md"sv))cpp";
 					}
 					else
 					{
@@ -1196,12 +1230,13 @@ Operations::Operations()cpp";
 
 							if (!_options.noIntrospection)
 							{
-								sourceFile << argument.description;
+								sourceFile << getRawText("md", argument.description);
 							}
 
 							sourceFile << R"cpp()md"sv, )cpp"
 									   << getIntrospectionType(argument.type, argument.modifiers)
-									   << R"cpp(, R"gql()cpp" << argument.defaultValueString
+									   << R"cpp(, R"gql()cpp"
+									   << getRawText("gql", argument.defaultValueString)
 									   << R"cpp()gql"sv))cpp";
 						}
 
@@ -1249,7 +1284,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << directive.description;
+				sourceFile << getRawText("md", directive.description);
 			}
 
 			sourceFile << R"cpp()md"sv, {)cpp";
@@ -1301,12 +1336,13 @@ Operations::Operations()cpp";
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << argument.description;
+						sourceFile << getRawText("md", argument.description);
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp"
 							   << getIntrospectionType(argument.type, argument.modifiers)
-							   << R"cpp(, R"gql()cpp" << argument.defaultValueString
+							   << R"cpp(, R"gql()cpp"
+							   << getRawText("gql", argument.defaultValueString)
 							   << R"cpp()gql"sv))cpp";
 				}
 
@@ -1656,14 +1692,15 @@ void Generator::outputObjectIntrospection(
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << objectField.description;
+				sourceFile << getRawText("md", objectField.description);
 			}
 
 			sourceFile << R"cpp()md"sv, )cpp";
 
 			if (objectField.deprecationReason)
 			{
-				sourceFile << R"cpp(std::make_optional(R"md()cpp" << *objectField.deprecationReason
+				sourceFile << R"cpp(std::make_optional(R"md()cpp"
+						   << getRawText("md", *objectField.deprecationReason)
 						   << R"cpp()md"sv))cpp";
 			}
 			else
@@ -1695,12 +1732,13 @@ void Generator::outputObjectIntrospection(
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << argument.description;
+						sourceFile << getRawText("md", argument.description);
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp"
 							   << getIntrospectionType(argument.type, argument.modifiers)
-							   << R"cpp(, R"gql()cpp" << argument.defaultValueString
+							   << R"cpp(, R"gql()cpp"
+							   << getRawText("gql", argument.defaultValueString)
 							   << R"cpp()gql"sv))cpp";
 				}
 
@@ -1778,7 +1816,8 @@ std::string Generator::getArgumentDefaultValue(
 		{
 			argumentDefaultValue << padding
 								 << R"cpp(		entry = response::Value(std::string(R"gql()cpp"
-								 << defaultValue.get<response::StringType>() << R"cpp()gql"));
+								 << getRawText("gql", defaultValue.get<response::StringType>())
+								 << R"cpp()gql"));
 )cpp";
 			break;
 		}
-- 
2.43.0


From 85496b65daf009542039f86116084b9b2746e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 55/56] fix: declare members and enum values which are named
 like C++ keywords

---
 include/SchemaLoader.h  |   1 +
 src/ClientGenerator.cpp |   6 +--
 src/RequestLoader.cpp   |   4 +-
 src/SchemaLoader.cpp    | 107 +++++++++++++++++++++++++++++++++++++++-
 4 files changed, 111 insertions(+), 7 deletions(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index bcd9d7b..5cdffa6 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -253,6 +253,7 @@ public:
 	const OperationTypeList& getOperationTypes() const noexcept;
 
 	static std::string_view getSafeCppName(std::string_view type) noexcept;
+	static std::string_view getSafeCppIdentifier(std::string_view name) noexcept;
 
 	std::string_view getCppType(std::string_view type) const noexcept;
 	std::string getInputCppType(const InputField& field) const noexcept;
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 15b7bc5..e2da5c3 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -267,7 +267,7 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 )cpp";
 		for (const auto& enumValue : enumType->enumValues())
 		{
-			headerFile << R"cpp(	)cpp" << SchemaLoader::getSafeCppName(enumValue->name())
+			headerFile << R"cpp(	)cpp" << SchemaLoader::getSafeCppIdentifier(enumValue->name())
 					   << R"cpp(,
 )cpp";
 		}
@@ -303,7 +303,7 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 
 				headerFile << R"cpp(		)cpp"
 						   << _requestLoader.getInputCppType(inputField->type().lock())
-						   << R"cpp( )cpp" << SchemaLoader::getSafeCppName(inputField->name())
+						   << R"cpp( )cpp" << SchemaLoader::getSafeCppIdentifier(inputField->name())
 						   << R"cpp( {};
 )cpp";
 			}
@@ -588,7 +588,7 @@ response::Value ModifiedVariable<Variables::)cpp"
 						   << R"cpp()js"s, ModifiedVariable<)cpp"
 						   << getVariableCppType(type) << R"cpp(>::serialize)cpp"
 						   << getTypeModifierList(modifiers) << R"cpp((std::move(inputValue.)cpp"
-						   << SchemaLoader::getSafeCppName(inputField->name()) << R"cpp()));
+						   << SchemaLoader::getSafeCppIdentifier(inputField->name()) << R"cpp()));
 )cpp";
 			}
 
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index bfcadaa..6568762 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -765,7 +765,7 @@ void RequestLoader::collectVariables() noexcept
 				{
 					// Skip the $ prefix
 					variable.name = child->string_view().substr(1);
-					variable.cppName = _schemaLoader.getSafeCppName(variable.name);
+					variable.cppName = SchemaLoader::getSafeCppIdentifier(variable.name);
 				}
 				else if (child->is_type<peg::named_type>() || child->is_type<peg::list_type>()
 					|| child->is_type<peg::nonnull_type>())
@@ -1039,7 +1039,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 	ResponseField responseField;
 
 	responseField.name = alias;
-	responseField.cppName = SchemaLoader::getSafeCppName(alias);
+	responseField.cppName = SchemaLoader::getSafeCppIdentifier(alias);
 	responseField.position = field.begin();
 
 	// Special case to handle __typename on any ResponseType
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 534b851..c9ffa9f 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -931,7 +931,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 
 			peg::on_first_child<peg::enum_value>(child, [&value](const peg::ast_node& enumValue) {
 				value.value = enumValue.string_view();
-				value.cppValue = getSafeCppName(value.value);
+				value.cppValue = getSafeCppIdentifier(value.value);
 			});
 
 			peg::on_first_child<peg::description>(child,
@@ -1156,6 +1156,109 @@ std::string_view SchemaLoader::getSafeCppName(std::string_view type) noexcept
 	return (safeNames.cend() == itr) ? type : itr->second->second;
 }
 
+std::string_view SchemaLoader::getSafeCppIdentifier(std::string_view name) noexcept
+{
+	// The name of an enum value or a member can't be a C++ keyword (through C++20).
+	static const std::unordered_map<std::string_view, std::string_view> s_keywords {
+		{ "alignas"sv, "alignas_"sv },
+		{ "alignof"sv, "alignof_"sv },
+		{ "and"sv, "and_"sv },
+		{ "and_eq"sv, "and_eq_"sv },
+		{ "asm"sv, "asm_"sv },
+		{ "auto"sv, "auto_"sv },
+		{ "bitand"sv, "bitand_"sv },
+		{ "bitor"sv, "bitor_"sv },
+		{ "bool"sv, "bool_"sv },
+		{ "break"sv, "break_"sv },
+		{ "case"sv, "case_"sv },
+		{ "catch"sv, "catch_"sv },
+		{ "char"sv, "char_"sv },
+		{ "char16_t"sv, "char16_t_"sv },
+		{ "char32_t"sv, "char32_t_"sv },
+		{ "char8_t"sv, "char8_t_"sv },
+		{ "class"sv, "class_"sv },
+		{ "co_await"sv, "co_await_"sv },
+		{ "co_return"sv, "co_return_"sv },
+		{ "co_yield"sv, "co_yield_"sv },
+		{ "compl"sv, "compl_"sv },
+		{ "concept"sv, "concept_"sv },
+		{ "const"sv, "const_"sv },
+		{ "const_cast"sv, "const_cast_"sv },
+		{ "consteval"sv, "consteval_"sv },
+		{ "constexpr"sv, "constexpr_"sv },
+		{ "constinit"sv, "constinit_"sv },
+		{ "continue"sv, "continue_"sv },
+		{ "decltype"sv, "decltype_"sv },
+		{ "default"sv, "default_"sv },
+		{ "delete"sv, "delete_"sv },
+		{ "do"sv, "do_"sv },
+		{ "double"sv, "double_"sv },
+		{ "dynamic_cast"sv, "dynamic_cast_"sv },
+		{ "else"sv, "else_"sv },
+		{ "enum"sv, "enum_"sv },
+		{ "explicit"sv, "explicit_"sv },
+		{ "export"sv, "export_"sv },
+		{ "extern"sv, "extern_"sv },
+		{ "false"sv, "false_"sv },
+		{ "float"sv, "float_"sv },
+		{ "for"sv, "for_"sv },
+		{ "friend"sv, "friend_"sv },
+		{ "goto"sv, "goto_"sv },
+		{ "if"sv, "if_"sv },
+		{ "inline"sv, "inline_"sv },
+		{ "int"sv, "int_"sv },
+		{ "long"sv, "long_"sv },
+		{ "mutable"sv, "mutable_"sv },
+		{ "namespace"sv, "namespace_"sv },
+		{ "new"sv, "new_"sv },
+		{ "noexcept"sv, "noexcept_"sv },
+		{ "not"sv, "not_"sv },
+		{ "not_eq"sv, "not_eq_"sv },
+		{ "nullptr"sv, "nullptr_"sv },
+		{ "operator"sv, "operator_"sv },
+		{ "or"sv, "or_"sv },
+		{ "or_eq"sv, "or_eq_"sv },
+		{ "private"sv, "private_"sv },
+		{ "protected"sv, "protected_"sv },
+		{ "public"sv, "public_"sv },
+		{ "register"sv, "register_"sv },
+		{ "reinterpret_cast"sv, "reinterpret_cast_"sv },
+		{ "requires"sv, "requires_"sv },
+		{ "return"sv, "return_"sv },
+		{ "short"sv, "short_"sv },
+		{ "signed"sv, "signed_"sv },
+		{ "sizeof"sv, "sizeof_"sv },
+		{ "static"sv, "static_"sv },
+		{ "static_assert"sv, "static_assert_"sv },
+		{ "static_cast"sv, "static_cast_"sv },
+		{ "struct"sv, "struct_"sv },
+		{ "switch"sv, "switch_"sv },
+		{ "template"sv, "template_"sv },
+		{ "this"sv, "this_"sv },
+		{ "thread_local"sv, "thread_local_"sv },
+		{ "throw"sv, "throw_"sv },
+		{ "true"sv, "true_"sv },
+		{ "try"sv, "try_"sv },
+		{ "typedef"sv, "typedef_"sv },
+		{ "typeid"sv, "typeid_"sv },
+		{ "typename"sv, "typename_"sv },
+		{ "union"sv, "union_"sv },
+		{ "unsigned"sv, "unsigned_"sv },
+		{ "using"sv, "using_"sv },
+		{ "virtual"sv, "virtual_"sv },
+		{ "void"sv, "void_"sv },
+		{ "volatile"sv, "volatile_"sv },
+		{ "wchar_t"sv, "wchar_t_"sv },
+		{ "while"sv, "while_"sv },
+		{ "xor"sv, "xor_"sv },
+		{ "xor_eq"sv, "xor_eq_"sv },
+	};
+
+	const auto itr = s_keywords.find(name);
+
+	return (s_keywords.cend() == itr) ? getSafeCppName(name) : itr->second;
+}
+
 OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& fields)
 {
 	OutputFieldList outputFields;
@@ -1251,7 +1354,7 @@ InputFieldList SchemaLoader::getInputFields(const peg::ast_node::children_t& fie
 			if (child->is_type<peg::argument_name>())
 			{
 				field.name = child->string_view();
-				field.cppName = getSafeCppName(field.name);
+				field.cppName = getSafeCppIdentifier(field.name);
 			}
 			else if (child->is_type<peg::named_type>() || child->is_type<peg::list_type>()
 				|| child->is_type<peg::nonnull_type>())
-- 
2.43.0


From 3f1c3873485d455e321a588965e7142a48b547e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 56/56] fix: override the accessors of interface fields in
 mutation types

---
 src/SchemaLoader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index c9ffa9f..5b7237a 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -415,7 +415,8 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 			entry.inheritedField = false;
 		}
 
-		if (accessor)
+		// The accessors of inherited fields are declared by the interface.
+		if (accessor && !entry.inheritedField)
 		{
 			entry.accessor = *accessor;
 		}
-- 
2.43.0

