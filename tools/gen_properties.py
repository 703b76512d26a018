#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The text of the properties lives here so that it stays reviewable."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Executable documents: the parser accepts exactly the GraphQL grammar",
 "A request text (valid UTF-8, bounded nesting) is accepted if and only if it is a non-empty list of definitions in the June 2018 GraphQL grammar (ignored tokens, names, keywords, values, directives, selection sets), and is otherwise rejected with a parse error instead of a crash, a hang or a partial tree. Documents which also hold type definitions are left to validation to refuse. "
 "The text's spelling does not matter beyond its tokens: whitespace, commas, comments and line breaks between tokens never change the outcome.",
 ["inputs"], "every request text, in particular every token sequence up to a length and every single-token edit of a valid document",
 "The tests parse a handful of hand-written documents; acceptance is a property of every token sequence.",
 ["src/SyntaxTree.cpp", "include/graphqlservice/internal/Grammar.h", "include/graphqlservice/GraphQLParse.h"],
 [("PEG grammar of the executable document", "include/graphqlservice/internal/Grammar.h"),
  ("parseString and parse control", "src/SyntaxTree.cpp")], observe=["peg::parseString"])

prop("P02", "Schema documents: the parser accepts exactly the type system grammar",
 "A schema text (valid UTF-8, bounded nesting) is accepted if and only if it is a non-empty list of schema, type, directive definitions and extensions in the June 2018 type system grammar, with optional descriptions and constant default values, and is otherwise rejected with a parse error. "
 "Whitespace, commas and comments between tokens never change the outcome.",
 ["inputs"], "every schema text, in particular every single-token edit of a set of schema documents that covers every production",
 "The tests parse a few hand-written schemas; acceptance quantifies over every token sequence.",
 ["src/SyntaxTree.cpp", "include/graphqlservice/internal/Grammar.h"],
 [("PEG grammar of the schema document", "include/graphqlservice/internal/Grammar.h"),
  ("parseSchemaString", "src/SyntaxTree.cpp")], observe=["peg::parseSchemaString"])

prop("P03", "Literals reach resolvers with exactly the value they denote",
 "Every literal in a request (integer, float, string with escapes and Unicode escapes, block string, boolean, null, enum, list, object, to any nesting) is delivered to the resolver as the value it denotes: same kind, same number, same decoded text, same element order and the same object fields. "
 "Each string escape decodes to the UTF-8 encoding of the character it names and nothing else in the string is altered.",
 ["inputs"], "every literal: every string over an alphabet of plain, escape, quote and Unicode pieces up to a length, every number shape, every nesting of lists and objects up to a depth",
 "Tests contain a few literals; decoding must hold for every combination of adjacent escapes and characters.",
 ["src/SyntaxTree.cpp", "src/GraphQLService.cpp", "include/graphqlservice/internal/Grammar.h", "include/graphqlservice/internal/SyntaxTree.h"],
 [("escape and block string decoding", "src/SyntaxTree.cpp"), ("literal to response value conversion", "src/GraphQLService.cpp ValueVisitor")],
 observe=["arguments received by a resolver"])

prop("V01", "Validation accepts exactly the requests the schema allows",
 "A parsed request is reported valid if and only if it satisfies the validation rules of the June 2018 specification against the service's schema: operation names, single root subscription field, field existence, leaf and composite selections, field merging, arguments, literal types, fragments (existence, use, cycles, type conditions, spread possibility), directives (existence, location, uniqueness, arguments) and variables (uniqueness, input types, definition, use, position). A literal for an ID is the Base64 text of the identifier. "
 "An invalid request is never executed: it yields null data, a non-empty list of errors, and calls no resolver.",
 ["inputs"], "every parsed request against a schema with interfaces, unions, lists, enums, inputs and custom directives",
 "The tests replay the examples of the specification once each; a verdict must be right for every document, including combinations of rules and nesting that no example contains.",
 ["src/Validation.cpp", "include/Validation.h", "src/GraphQLService.cpp"],
 [("ValidateExecutableVisitor", "src/Validation.cpp"), ("validation before resolve", "src/GraphQLService.cpp Request::findOperationDefinition")],
 observe=["Request::validate", "Request::resolve"])

prop("V02", "A validation verdict never depends on earlier requests or on repetition",
 "The verdict and the list of errors for a request are the same whatever requests the same service validated, executed or rejected before it, and the same again when it is validated repeatedly. "
 "Every error carries a message and a source location inside the document.",
 ["histories", "inputs"], "every sequence of valid, invalid and unparsable-to-the-schema requests up to a length over one service object",
 "Tests use one service per suite in one fixed order and never compare a verdict with the one a fresh service gives.",
 ["src/Validation.cpp", "include/Validation.h", "src/GraphQLService.cpp"],
 [("per-request state of the validator", "include/Validation.h"), ("reset in getStructuredErrors and visit", "src/Validation.cpp")],
 state=[("validator members", "fragments, operations, variables, cached type fields kept between requests", "include/Validation.h")],
 observe=["Request::validate"])

prop("E01", "Query results have exactly the selected shape and values",
 "For every valid operation the data equals the result the GraphQL execution rules prescribe: one entry per response key in order of first selection, aliases honoured, fields of the runtime type only, fragments and inline fragments expanded where their type condition matches the object, its interfaces or its unions, entries excluded by skip and include absent, lists in order, nulls in place. "
 "Nothing else appears in the data and no selected entry is missing.",
 ["inputs"], "every valid operation up to a size over a schema with objects, interface, union, lists and nullable fields, with every boolean assignment of its variables",
 "Tests execute a few fixed queries; the rules must compose for every nesting of fragments, type conditions, aliases and directives.",
 ["src/GraphQLService.cpp", "include/graphqlservice/GraphQLService.h"],
 [("SelectionVisitor", "src/GraphQLService.cpp"), ("Object::resolve", "src/GraphQLService.cpp")], observe=["Request::resolve"])

prop("E02", "Resolvers receive exactly the arguments the request supplies",
 "Each resolver is called with exactly the arguments written on its field, each with the literal's value or the value of the variable: the supplied value if the request supplies one, else the variable's default, else null, also when the variable is nested in a list or an input object and when the field is reached through fragments. "
 "Variables which the operation does not declare have no effect.",
 ["inputs"], "every placement of literals and variables, every subset of supplied variables and every default, up to a size",
 "Tests supply one set of variables per query.",
 ["src/GraphQLService.cpp"],
 [("OperationDefinitionVisitor variable filtering and defaults", "src/GraphQLService.cpp"), ("ValueVisitor", "src/GraphQLService.cpp")],
 observe=["arguments received by a resolver"])

prop("E03", "A failing field yields null and one located error, and nothing else changes",
 "When resolvers fail, by throwing or through a failed future, exactly the failing fields (or list elements) become null, every other field keeps the value it has without the failure, and every failure contributes its error messages exactly once. "
 "Each such error names the failing field's source location and its response path with aliases and list indices, and the errors appear in the order of the fields.",
 ["inputs", "fault_sequences"], "every subset of failing resolvers, every way of failing, on every field position of a set of nested queries with lists",
 "Tests force one error in one fixed query.",
 ["src/GraphQLService.cpp", "include/graphqlservice/GraphQLService.h"],
 [("error capture around resolvers", "src/GraphQLService.cpp SelectionVisitor::visitField"), ("list and nullable conversion", "include/graphqlservice/GraphQLService.h ModifiedResult"), ("buildErrorPath, buildErrorValues", "src/GraphQLService.cpp")],
 observe=["errors in the response document"])

prop("E04", "Resolvers see exactly the directives in scope",
 "Each resolver sees the directives of its operation, its own field, the fragment definition, fragment spread and inline fragment through which it is selected, with their argument values, where nested fragments of the same kind add to the enclosing ones and the innermost use of a name wins, and fields below a nested object start with no fragment directives. "
 "Directives of sibling or unrelated fragments are never visible.",
 ["inputs"], "every nesting of fragment spreads and inline fragments with custom directives up to a depth",
 "One test checks one nesting.",
 ["src/GraphQLService.cpp"],
 [("FragmentDirectives stack", "src/GraphQLService.cpp SelectionVisitor"), ("DirectiveVisitor", "src/GraphQLService.cpp")],
 observe=["parameters received by a resolver"])

prop("E05", "Concurrent execution gives the deferred result on every schedule",
 "A query executed with asynchronous launch, or with resolvers that return futures completed by other threads, produces the same data and the same errors as deferred execution, for every interleaving of its threads. "
 "It always completes: no deadlock, no lost result, and no use of anything already destroyed.",
 ["schedules"], "every interleaving, up to a preemption bound, of the threads of queries with sibling, nested and list fields",
 "Tests run a schedule the operating system happens to choose.",
 ["src/GraphQLService.cpp", "include/graphqlservice/GraphQLService.h"],
 [("std::async launches in Object::resolve and ModifiedResult", "src/GraphQLService.cpp, include/graphqlservice/GraphQLService.h"), ("OperationData lifetime", "src/GraphQLService.cpp OperationDefinitionVisitor")],
 observe=["Request::resolve with std::launch::async"])

prop("E06", "Mutation fields run one after another in document order",
 "The top-level fields of a mutation are resolved strictly serially in document order: a field is entered only after the previous one, including its whole result, is complete, whatever launch policy the caller asks for and however the resolvers deliver their results. "
 "Every mutation field runs exactly once, even if an earlier one fails.",
 ["inputs", "schedules"], "every mutation document up to a size, every launch policy, every resolver behaviour (value, future, failure), every interleaving",
 "Tests run single-field mutations.",
 ["src/GraphQLService.cpp"],
 [("forced deferred launch for mutations", "src/GraphQLService.cpp Request::resolve"), ("SelectionVisitor order", "src/GraphQLService.cpp")],
 observe=["order of resolver entry and completion"])

prop("E07", "The requested operation, and only that one, is executed",
 "In a document with several operations the operation whose name is requested is executed with its own root type, variables and directives, and no resolver runs for another operation; without a name the only operation is executed. "
 "A request for a missing operation or for a subscription through the query path yields null data with an error and calls no resolver.",
 ["inputs"], "every arrangement of named operations and fragments up to a size and every requested name",
 "Tests use single-operation documents almost exclusively.",
 ["src/GraphQLService.cpp"],
 [("Request::findOperationDefinition", "src/GraphQLService.cpp"), ("OperationDefinitionVisitor", "src/GraphQLService.cpp")],
 observe=["Request::resolve", "Request::findOperationDefinition"])

prop("E08", "Each selected field calls its accessor exactly once, and skipped ones never",
 "Executing an operation calls the accessor of each selected response key exactly once per object, and never calls an accessor for a skipped, excluded or type-mismatched field. "
 "The begin and end selection set callbacks bracket the calls of each object's accessors exactly once per object and never for objects that are not selected.",
 ["inputs", "histories"], "every valid operation up to a size, executed any number of times with the same parsed document",
 "Tests count calls of one field in one query.",
 ["src/GraphQLService.cpp", "include/graphqlservice/GraphQLService.h"],
 [("SelectionVisitor::visitField", "src/GraphQLService.cpp"), ("beginSelectionSet, endSelectionSet", "src/GraphQLService.cpp Object::resolve")],
 observe=["trace of resolver calls"])

prop("S01", "Events reach exactly the current subscribers of the field",
 "After any history of subscribing, unsubscribing and delivering, an event for a field is delivered exactly once to every subscription to that field that was added and not removed since, and to no other, with data that is the result of executing that subscription's selection against the event object. "
 "Keys identify live subscriptions uniquely, removing one never affects another, and removing an unknown key or a key twice has no effect.",
 ["histories"], "every sequence of subscribe, unsubscribe and deliver operations up to a length over several fields, documents and keys",
 "Tests subscribe once or twice in a fixed order.",
 ["src/GraphQLService.cpp", "include/graphqlservice/GraphQLService.h", "include/graphqlservice/internal/SortedMap.h"],
 [("subscription and listener maps", "src/GraphQLService.cpp Request::subscribe, unsubscribe, deliver")],
 state=[("subscription registry", "live keys, fields and callbacks", "include/graphqlservice/GraphQLService.h Request")],
 observe=["Request::subscribe", "Request::unsubscribe", "Request::deliver"])

prop("S02", "Subscription filters select exactly the matching subscriptions",
 "An event delivered with argument and directive filters reaches a subscription exactly when every argument and every directive on the subscription's root field is present in, and equal to, the filter's, whether the subscription wrote the value as a literal, passed a variable or relied on a variable's default, and whether the root field is selected directly or through a fragment. "
 "With filter callbacks, an event reaches a subscription exactly when the callback accepts every argument and directive.",
 ["inputs"], "every combination of subscription arguments, directives, literals, variables, fragments and delivered filters over small domains",
 "Tests deliver a matching and a non-matching event once each.",
 ["src/GraphQLService.cpp"],
 [("SubscriptionDefinitionVisitor", "src/GraphQLService.cpp"), ("filter matching in Request::deliver", "src/GraphQLService.cpp")],
 observe=["callbacks invoked by Request::deliver"])

prop("S03", "Concurrent subscribing, unsubscribing and delivering act as if in sequence",
 "When several threads subscribe, unsubscribe and deliver on one service at the same time, including through the asynchronous overloads, the outcome equals that of some sequential order of the calls: keys stay unique, no subscription is lost or resurrected, and each event reaches the subscribers of that order. "
 "No call crashes, corrupts the service or blocks forever.",
 ["schedules", "histories"], "every interleaving, up to a preemption bound, of two or three threads with one or two calls each",
 "Tests are single threaded here.",
 ["src/GraphQLService.cpp", "include/graphqlservice/GraphQLService.h"],
 [("subscription registry", "src/GraphQLService.cpp Request"), ("asynchronous overloads", "src/GraphQLService.cpp")],
 observe=["Request::subscribe", "Request::unsubscribe", "Request::deliver"])

prop("S04", "Asynchronous subscriptions notify the service and roll back on failure",
 "Subscribing or unsubscribing through the asynchronous overloads resolves the subscription's field on the default subscription object exactly once in the notify context, with the subscription's arguments, before the returned future completes; if resolving it throws or reports errors, the subscription is not registered and the caller gets that exception, or a schema exception with those errors; if a hook of the object throws while unsubscribing, the caller gets that exception and the subscription stays. "
 "A response future handed to a callback stays usable after the subscription is removed.",
 ["histories", "fault_sequences"], "every sequence of asynchronous subscribe, deliver and unsubscribe up to a length, with and without failing notification and default object, with futures consumed at every later point",
 "Tests check one successful asynchronous subscription.",
 ["src/GraphQLService.cpp", "include/graphqlservice/GraphQLService.h"],
 [("Request::subscribe and unsubscribe with std::launch", "src/GraphQLService.cpp"), ("registration captured by pending callbacks", "src/GraphQLService.cpp Request::deliver")],
 observe=["resolver context", "returned futures", "callback futures"])

prop("A01", "Argument conversion accepts exactly the values of the declared type",
 "Reading an argument of any built-in type under any nesting of list and nullable modifiers returns exactly the supplied value when it conforms to that type, yields an empty optional for null or missing nullable values, and otherwise throws an error naming the argument; the non-throwing variant reports presence consistently with that. "
 "No conforming value is rejected or altered and no non-conforming value is accepted.",
 ["inputs"], "every value tree up to a depth against every base type and every modifier nesting up to a depth",
 "Tests try one value per type and a few modifier combinations.",
 ["include/graphqlservice/GraphQLService.h", "src/GraphQLService.cpp"],
 [("ModifiedArgument", "include/graphqlservice/GraphQLService.h"), ("convert specialisations", "src/GraphQLService.cpp")],
 observe=["ModifiedArgument::require", "ModifiedArgument::find"])

prop("A02", "Resolver results convert to responses without loss under any nesting",
 "A result of any built-in, enum or object type under any nesting of list and nullable modifiers, given as a value or a future, is rendered as the same tree: lists keep length and order, null appears exactly where the value is empty, scalars keep type and value. "
 "An object result without a selection set, or a scalar result with one, yields an error and none of the object's or scalar's data.",
 ["inputs"], "every value tree up to a size for every base type and modifier nesting up to a depth, by value and by future",
 "Tests return a few shapes.",
 ["include/graphqlservice/GraphQLService.h", "src/GraphQLService.cpp"],
 [("ModifiedResult", "include/graphqlservice/GraphQLService.h")], observe=["ModifiedResult::convert"])

prop("R01", "Response values behave as the tree they represent under any operations",
 "After any sequence of the public operations (construct, set, get, append, insert member, look up, copy, move, release, compare, iterate) a response value equals the plain tree model of those operations: maps keep insertion order and reject duplicate names, copies are deep and independent, moved-from and released values are safe to destroy and reassign, and equality is structural. "
 "Operations that do not apply to the value's type fail with an error and leave it unchanged.",
 ["histories", "inputs"], "every sequence of operations up to a length over every value type, with lookups of present and absent names",
 "Tests exercise a few operations per type.",
 ["src/GraphQLResponse.cpp", "include/graphqlservice/GraphQLResponse.h"],
 [("response::Value", "src/GraphQLResponse.cpp")], observe=["response::Value public members"])

prop("R02", "Values survive JSON unchanged and the text is always valid JSON",
 "Writing any response value (strings in valid UTF-8) as JSON yields a valid JSON text that denotes that value (same member order, strings, numbers, booleans, nulls; a number which is not finite becomes null), and parsing that text gives back a value which denotes the same (enum values return as strings, custom scalars as the values they hold). "
 "Parsing a valid JSON text yields the value it denotes, or an error if it holds an integer beyond 32 bits.",
 ["inputs"], "every value tree up to a depth over strings with control, quote, non-ASCII and NUL characters, extreme and fractional numbers",
 "Tests compare a few documents.",
 ["src/JSONResponse.cpp", "include/graphqlservice/JSONResponse.h"],
 [("writer and SAX parser", "src/JSONResponse.cpp")], observe=["response::toJSON", "response::parseJSON"])

prop("R03", "Base64 identifiers round-trip every byte string and reject malformed text",
 "Encoding any byte string yields its RFC 4648 Base64 text with padding, and decoding that text gives the same bytes back. "
 "Decoding accepts exactly the texts that consist of complete Base64 quantums, the last of which may be padded or left unpadded, and reports every other text as an error, without reading past either end.",
 ["inputs"], "every byte string of length up to three and every text up to a length over the alphabet classes, plus longer strings built from every residue",
 "Tests convert one identifier.",
 ["src/Base64.cpp", "include/graphqlservice/internal/Base64.h"],
 [("Base64::toBase64, fromBase64", "src/Base64.cpp")], observe=["internal::Base64"])

prop("R04", "Sorted containers behave like ordinary ordered maps and sets",
 "After any sequence of insertions, erasures, lookups and clears the library's sorted map and sorted set hold exactly the keys and values an ordinary map or set would hold, each key once, in the order of their comparison, and every lookup, insertion result and returned position agrees with it. "
 "This includes lookup by another key type with the matching comparison, and construction from a list of distinct keys.",
 ["histories"], "every sequence of operations up to a length over a small set of keys, and every reachable state of the container over those keys",
 "No test addresses the containers; users of them see few keys.",
 ["include/graphqlservice/internal/SortedMap.h"],
 [("sorted_map, sorted_set, sorted_map_equal_range, sorted_map_lookup", "include/graphqlservice/internal/SortedMap.h")],
 observe=["internal::sorted_map", "internal::sorted_set"])

prop("I01", "Introspection describes exactly the schema the service was built with",
 "Querying the schema, and each type by name, returns exactly the types, kinds, fields, arguments, defaults, wrappers, interfaces, possible types, enum values, deprecations, directives with locations, descriptions and operation types with which the schema was defined (descriptions of the built-in scalars are the library's own), and asking for all types or for one type by name gives the same description. "
 "Deprecated members appear exactly when requested, and a schema built without introspection rejects such queries while __typename keeps working.",
 ["inputs", "configurations"], "every schema from an enumerated family (kinds, wrapper nestings, defaults, deprecations, interfaces, unions) and every introspection field on every type",
 "Tests look at a few entries of one schema.",
 ["src/Introspection.cpp", "src/IntrospectionSchema.cpp", "src/Schema.cpp", "include/graphqlservice/introspection/Introspection.h"],
 [("introspection objects", "src/Introspection.cpp"), ("schema model", "src/Schema.cpp")], observe=["__schema and __type queries"])

prop("G01", "Generated services implement the schema they were generated from",
 "For every valid schema the service generator emits code that compiles and whose service offers exactly the schema's types and fields; every accessor receives its arguments with the declared nullability and nesting, the declared default exactly when the argument is absent, and enum and input object values member by member. "
 "Results of every declared output type and modifier nesting are returned as declared, and abstract types resolve fragments on their members.",
 ["programs", "inputs"], "every modifier nesting up to a depth for every base kind in argument, input field and output position, with and without defaults, and every present/null/absent combination of its arguments",
 "Tests use two sample schemas with few modifier combinations.",
 ["src/SchemaGenerator.cpp", "src/SchemaLoader.cpp", "src/GeneratorLoader.cpp", "include/graphqlservice/GraphQLService.h"],
 [("argument defaults and declarations", "src/SchemaGenerator.cpp"), ("type modifiers", "src/GeneratorLoader.cpp"), ("C++ type mapping", "src/SchemaLoader.cpp")],
 observe=["behaviour of a compiled generated service"])

prop("G02", "Schema loading keeps every definition and rejects broken schemas",
 "Loading a schema text for generation succeeds exactly when every referenced type exists and is of a permitted kind, the query root is defined, operation roots are object types, built-in types are not redefined, implemented interfaces and union members exist, input objects do not contain each other in a cycle, and null defaults are only on nullable inputs. "
 "The loaded model contains exactly the defined and extended members, in order, with types, modifiers, descriptions, defaults, deprecations, interfaces and directive locations as written, and input types are ordered after the input types they use.",
 ["inputs", "programs"], "every schema text from families built by reordering, removing and replacing definitions and references",
 "Tests load two good schemas and no bad one.",
 ["src/SchemaLoader.cpp", "src/GeneratorLoader.cpp", "include/SchemaLoader.h"],
 [("SchemaLoader::validateSchema", "src/SchemaLoader.cpp"), ("reorderInputTypeDependencies", "src/SchemaLoader.cpp")],
 observe=["SchemaLoader accessors and exceptions"])

prop("G03", "Generator options never change what the generated service does",
 "The services generated from one schema in one file or in separate files, with or without stubs, give the same response to every request, and those generated without introspection give the same response to every request that does not use introspection, and reject those that do. "
 "The generated files are the same on every run of the generator.",
 ["configurations", "inputs"], "every combination of generator options against an enumerated set of requests",
 "Tests of the variants run the same few queries and never compare them with each other.",
 ["src/SchemaGenerator.cpp", "src/SchemaLoader.cpp"],
 [("separate files, stubs and introspection options", "src/SchemaGenerator.cpp")], observe=["responses of the compiled variants"])

prop("C01", "Client variables and responses round-trip through the service's conversions",
 "For every built-in type under every nesting of list and nullable modifiers, the value a client serialises as a variable is read back unchanged by the service's argument conversion, and the value the service renders as a result is parsed back unchanged by the client's response parser; leaf values of another type are rejected. "
 "Parsing a service response recovers its data and every error's message, locations and path exactly, ignoring unknown members.",
 ["inputs"], "every value tree up to a depth for every base type and modifier nesting, and every error list up to a size",
 "Tests parse a few recorded responses.",
 ["src/GraphQLClient.cpp", "include/graphqlservice/GraphQLClient.h"],
 [("ModifiedVariable, ModifiedResponse, parseServiceResponse", "include/graphqlservice/GraphQLClient.h, src/GraphQLClient.cpp")],
 observe=["client::ModifiedVariable", "client::ModifiedResponse", "client::parseServiceResponse"])

prop("C02", "Generated clients send and understand what the service expects",
 "For every request the client generator accepts, the generated client's serialised variables make the service receive exactly the C++ values the caller supplied, and its parser turns the service's response into exactly the selected data, including aliases, lists, optional values, enums and fields selected through fragments on interfaces and unions. "
 "The request text embedded in the client is the original request, and requests that are invalid or do not name an available operation are refused.",
 ["programs", "inputs"], "every modifier nesting up to a depth for every base kind as variable and as response field, and enumerated selections",
 "Tests use four sample requests.",
 ["src/ClientGenerator.cpp", "src/RequestLoader.cpp", "src/GraphQLClient.cpp"],
 [("RequestLoader response type collection", "src/RequestLoader.cpp"), ("ClientGenerator output", "src/ClientGenerator.cpp")],
 observe=["behaviour of a compiled generated client against a service"])

prop("T01", "Independent requests on one service from several threads do not interfere",
 "When several threads use one service object at the same time, each with its own document, every request validates and executes with exactly the verdict, data and errors it has alone, on every interleaving. "
 "Type wrappers obtained concurrently from one schema are unique per wrapped type and stay valid.",
 ["schedules"], "every interleaving, up to a preemption bound, of two or three threads that parse, validate, execute or look up types",
 "Tests use the service from one thread at a time.",
 ["src/GraphQLService.cpp", "src/Validation.cpp", "src/Schema.cpp"],
 [("shared validator", "src/GraphQLService.cpp Request::validate"), ("wrapper cache with shared mutex", "src/Schema.cpp Schema::WrapType")],
 observe=["Request::validate", "Request::resolve", "schema::Schema::WrapType"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
