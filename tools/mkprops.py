#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = "aas_test_engines/"
V = P + "test_cases/v3_0/"
T = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    T.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Severity aggregates to the worst finding and decides compliance",
 "For every result tree built by appending sub-results, a node's severity is the maximum of the severity it was created with and the severities of everything appended to it, in the order INFO < WARNING < ERROR < CRITICAL, and appending never lowers it or drops or reorders sub-results. A result counts as compliant exactly when its severity is INFO or WARNING.",
 ["inputs", "histories"], "all severities, messages and all sequences of appends",
 "Tests append a handful of levels; the join must be right for every pair and every history.",
 [P+"result.py"], [("severity join", P+"result.py: Level.__or__"), ("append", P+"result.py: AasTestResult.append"), ("verdict", P+"result.py: AasTestResult.ok")],
 "AasTestResult.level / sub_results / ok()")

prop("C02", "Scoped result contexts attach exactly once and unwind correctly",
 "Opening and closing nested result scopes always restores the previous scope, and a scope's result is attached exactly once to its parent when it ends normally or through an abort, in which case the aborting result is recorded inside it and execution continues after the scope. Any other exception passes through the scope unchanged and attaches nothing, unless the scope was opened to catch everything, in which case it is recorded as CRITICAL and swallowed. A plain text counts as INFO when it is written or opens a scope and as ERROR when it aborts one, and writing without an open scope is an error.",
 ["histories", "fault_sequences"], "all nestings of scopes, all outcomes (normal, abort, foreign exception) and both catch modes",
 "The result depends on the whole history of entered scopes and on which exception ends each of them.",
 [P+"result.py"], [("scope exit", P+"result.py: ContextManager.__exit__"), ("scope entry", P+"result.py: ContextManager.__enter__"), ("write/start/abort", P+"result.py: write, start, abort")],
 "the result tree and the stack of open scopes after the scope", [{"name": "managers", "meaning": "stack of open scopes", "where": P+"result.py"}])

prop("C03", "Reports render the result tree completely and losslessly",
 "The text report of a result lists every node once in depth-first order, indented by its depth, with its message. The JSON report contains every node's message, numeric severity and sub-results in order, and reading it back yields a tree with the same messages, structure and severities whenever the tree's severities are consistent. The HTML report contains every node's message HTML-escaped (including quotes), nested as in the tree, and styled by its severity.",
 ["inputs"], "all result trees of any depth, width, message text and severity",
 "Trees are unbounded and messages are arbitrary text; tests render one small tree.",
 [P+"result.py"], [("text", P+"result.py: AasTestResult.to_lines"), ("json", P+"result.py: AasTestResult.to_dict, from_json"), ("html", P+"result.py: AasTestResult._to_html")],
 "generated report text / dict")

prop("C04", "Command line exit status and dispatch reflect the verdict",
 "Checking a file or server from the command line exits with 0 exactly when the computed result is compliant and with non-zero otherwise, whatever the output format. The file is checked with the checker of the selected format and the requested model type, the server test runs with exactly the given server, TLS verification, header, path prefix, dry-run, filter and version options, and the suite argument must be a substring of exactly one supported suite, otherwise the command exits non-zero without running tests. Header options are split at the first colon with surrounding blanks removed.",
 ["inputs", "configurations"], "all results, formats, output formats and option combinations, all suite substrings and header strings",
 "CI integrations rely on the exit code for every document and option mix, of which the tests run a few.",
 [P+"__main__.py"], [("file command", P+"__main__.py: run_file_test"), ("server command", P+"__main__.py: run_api_test"), ("header option", P+"__main__.py: _parse_header_value")],
 "process exit status and arguments handed to the checkers")

prop("C05", "Meta-model parsing reports an error exactly for non-conforming input",
 "Parsing a document against any reflected type reports an error exactly when the document does not conform: a value of the wrong kind, a missing required attribute, an unknown additional attribute, an empty list where at least one item is required, a string outside its format, an unknown enumeration literal, a missing or wrong model type, or a non-conforming nested value. Otherwise the returned object carries exactly the values of the document, with absent optional attributes unset, and a malformed part never hides errors in the other parts.",
 ["inputs"], "all types (any attributes, nesting, lists, subclasses) and all adapter documents that do not exhaust the interpreter's recursion limit",
 "Type and document structure are recursive and unbounded.",
 [V+"parse.py"], [("dispatch", V+"parse.py: parse"), ("objects", V+"parse.py: parse_concrete_object, parse_abstract_object"), ("lists and leaves", V+"parse.py: parse_list, parse_string, parse_bool, parse_enum, parse_string_formatted_value")],
 "severity of the meta-model result and the parsed object")

prop("C06", "JSON and XML adapters are strict and present the same document view",
 "Viewing a JSON or XML value as an object, list, string or boolean yields exactly its contents, in order and under the right names, and fails when the value is not of that kind: wrong JSON type, empty where not allowed, unexpected inline text or child elements, foreign XML namespace, repeated XML child elements, or text that is not an XML boolean. The model type is the JSON modelType or the capitalised XML tag, and a value without one is reported as an adapter error, never as a crash.",
 ["inputs"], "all JSON values and XML elements",
 "Arbitrary nesting and arbitrary element names, texts and namespaces are possible in user files.",
 [V+"adapter.py"], [("JSON", V+"adapter.py: JsonAdapter"), ("XML", V+"adapter.py: XmlAdapter"), ("XML helpers", V+"adapter.py: _assert_no_children, _assert_no_text, _get_single_child, _get_model_type")],
 "values returned and exceptions raised by the adapters")

prop("C07", "The meta-model and its string types match the AAS 3.0 specification",
 "For every AAS 3.0 class the accepted attribute names, whether each is required, its type and whether its list may be empty are those of the specification, as are the literals of every enumeration and the subclasses allowed for each abstract type. Each constrained string type accepts exactly the strings of its specified length range and pattern that consist of XML-serialisable characters, and each language string its specified text length and a BCP 47 language tag.",
 ["inputs", "configurations"], "all classes, attributes and enumerations, and all strings",
 "String formats range over infinitely many strings and boundary lengths; tests hold a few examples.",
 [V+"model.py", P+"reflect.py"], [("string formats", P+"reflect.py: StringFormattedValue.__init__"), ("string types and classes", V+"model.py"), ("language strings", V+"model.py: LangStringSet.check_text, check_language")],
 "accepted / rejected values per type")

prop("C08", "Reference constraints AASd-121 to AASd-128 flag exactly the violations",
 "For every reference, the checks for AASd-121, 122, 123, 124, 125, 126, 127 and 128 report a violation exactly when the key chain (types, order, length and, for list positions, the value of the following key) breaks that constraint of the specification. They never report one otherwise and never crash. Two references are equal exactly when their type and their key chains are equal.",
 ["inputs"], "all reference types and all key chains of any length",
 "Key chains are unbounded; violations may sit at any position.",
 [V+"model.py"], [("constraint checks", V+"model.py: Reference.check_aasd_121 .. check_aasd_128"), ("key type groups", V+"model.py: GloballyIdentifiables, AasIdentifiables, FragmentKeys, ..."), ("equality", V+"model.py: Reference.__eq__, Key.__eq__")],
 "constraint violations in the result")

prop("C09", "Naming and asset constraints flag exactly the violating elements",
 "The checks for idShort syntax (AASd-002), idShort presence and absence (AASd-117, AASd-120), unique idShorts within a submodel, collection or operation (AASd-022, AASd-134), asset identification (AASd-014, AASd-116 case-insensitively, AASd-131, AASd-133), version and revision (AASd-005), supplemental semantic ids (AASd-118), data element category (AASd-090), template qualifiers (AASd-119, AASd-129 for the submodel's direct elements), and reference kinds of derivedFrom, submodels, observed and messageBroker report a violation exactly when the element breaks the constraint. They never report one otherwise and never crash.",
 ["inputs"], "all elements with any field values and any number of children",
 "Violations may depend on any pair of children of unbounded lists.",
 [V+"model.py"], [("namespace checks", V+"model.py: ensure_unique_id_shorts, ensure_have_id_shorts"), ("element checks", V+"model.py: check_* methods of Referable, Entity, Operation, AssetInformation, SpecificAssetId, Submodel, AssetAdministrationShell, BasicEventElement, AdministrativeInformation, HasSemantics, DataElement")],
 "constraint violations in the result")

prop("C10", "Submodel element list constraints flag exactly the violating lists",
 "For every submodel element list, the checks for AASd-107, 108, 109, 114 and for the declared element type report a violation exactly when some direct child has a semantic id different from the declared one, a different element type, a different or undeclared value type (for properties and ranges), or two children carry different semantic ids, or the declared type is not a submodel element type. They never report one otherwise and never crash.",
 ["inputs"], "all lists with any number and kinds of children",
 "The violating child or pair may be at any position of an unbounded list.",
 [V+"model.py"], [("list checks", V+"model.py: SubmodelElementList.check_*"), ("type match", V+"model.py: KeyType.matches")],
 "constraint violations in the result")

prop("C11", "IEC 61360 constraints and value-type checks flag exactly the violations",
 "The checks for AASc-3a-002, 004, 005, 006, 007, 008, 009 and 010 report a violation exactly when a concept description or its data specification breaks the constraint: missing English names or definitions, a data type missing or not allowed for the category, a missing unit, or both value and value list. The values of properties, ranges, qualifiers and extensions are reported exactly when they are not in the lexical space of their declared type, and a wrong data specification reference yields a warning.",
 ["inputs"], "all concept descriptions, categories, data types and embedded data specifications",
 "Any combination of category, type and any position in the lists may be the violating one.",
 [V+"model.py"], [("IEC checks", V+"model.py: ConceptDescription.check_aasc_*, DataSpecificationIec61360.check_aasc_*"), ("value checks", V+"model.py: validate and check_value_type*"), ("reference", V+"model.py: EmbeddedDataSpecification.check_reference")],
 "constraint violations in the result")

prop("C12", "Constraint checking visits every object and records every violation",
 "Checking the constraints of a parsed object runs every constraint check of that object and of every object reachable through its attributes and lists, each exactly once, and records each violation at its own severity together with the path to the object. A violation in one place never suppresses checks elsewhere, constraints are checked only if the document conforms to the meta-model, and otherwise the result says they were skipped and is not compliant.",
 ["inputs"], "all object trees (within the interpreter's recursion limit) and all sets of failing checks",
 "Trees are unbounded and any subset of checks may fail.",
 [V+"parse.py"], [("traversal", V+"parse.py: check_constraints"), ("phases", V+"parse.py: _parse_and_check")],
 "findings in the constraint result")

prop("C13", "Numeric value validators accept exactly the XSD spaces",
 "A string is accepted as xs:integer, xs:decimal, xs:boolean, xs:byte, short, int, long, their unsigned counterparts, positive, negative, nonPositive or nonNegativeInteger exactly when it is in the XML Schema 1.0 lexical space of the type (before whitespace collapsing) and its value is within the type's range, including both bounds. For xs:float and xs:double it is accepted exactly when it has the XSD lexical form of a floating point number or is INF, -INF or NaN, and a finite number lies strictly within the type's largest magnitudes. Every one of the 30 value types has a validator.",
 ["inputs"], "all strings (numbers of at most 4300 digits, CPython's conversion limit)",
 "Infinitely many strings including unusual digits, signs, blanks and boundary values.",
 [P+"data_types.py"], [("validators", P+"data_types.py: validators"), ("integers", P+"data_types.py: _is_bounded_integer"), ("decimal and float", P+"data_types.py: is_decimal, is_float, is_double")],
 "validators[type](string)")

prop("C14", "Date and time validators accept exactly the XSD spaces",
 "A string is accepted as xs:date, dateTime, UTC dateTime, time, gYear, gYearMonth, gMonth, gMonthDay, gDay or duration exactly when it is in the XML Schema 1.0 lexical space of that type, with a day that exists in its month and year (proleptic leap years, year 0000 excluded for date and dateTime), an hour up to 24:00:00 and a time zone of at most 14:00. Nothing else is accepted, including strings with a trailing line break.",
 ["inputs"], "all strings, years of any sign and of any number of digits up to CPython's conversion limit of 4300",
 "The space is infinite and leap-year, time-zone and end-of-day corners are rarely sampled.",
 [P+"data_types.py"], [("dates", P+"data_types.py: is_xs_date, is_xs_date_time, is_xs_date_time_utc, is_xs_g_month_day"), ("leap years", P+"data_types.py: _is_leap_year"), ("patterns", P+"data_types.py: validators")],
 "validators[type](string), is_xs_date_time_utc(string)")

prop("C15", "URI, binary and language-tag validators accept exactly their grammars",
 "A string is accepted as anyURI exactly when it is an RFC 3987 IRI reference, as hexBinary exactly when it consists of an even number of hexadecimal digits, as base64Binary exactly when it is a canonical-alphabet base64 text of complete, correctly padded quartets whose unused bits are zero (single blanks allowed between characters), and as a language tag exactly when it is well-formed per BCP 47. English tags are recognised exactly by en or EN, alone or followed by a hyphenated suffix.",
 ["inputs"], "all strings",
 "The grammars describe infinitely many strings; tests contain a few dozen.",
 [P+"data_types.py"], [("IRI", P+"data_types.py: is_any_uri"), ("binary", P+"data_types.py: is_hex_binary, is_base64_binary"), ("BCP 47", P+"data_types.py: is_bcp_lang_string, is_bcp_47_for_english")],
 "validators[type](string)")

prop("C16", "Package paths are normalised and split like POSIX paths",
 "Normalising a package path removes empty and '.' segments, resolves each '..' against the preceding kept segment (dropping it at the root), keeps the remaining segments in order, and starts with a single slash exactly when the trimmed input starts with one; the result never contains '..' segments that came from the input. Splitting a path returns the part before the last slash and the part after it, which rejoin to the original path.",
 ["inputs"], "all strings",
 "Targets come from untrusted packages with arbitrarily many segments.",
 [P+"opc.py"], [("normalisation", P+"opc.py: normpath"), ("split", P+"opc.py: splitpath")],
 "returned paths")

prop("C17", "Package relationships are scanned completely and terminate",
 "Scanning an AASX package terminates for every relationship graph, including cycles, visits each target's relationship part once, resolves targets against the source part's directory (absolute ones against the root), and records every relationship under its source with the current name of deprecated types. A wrong root tag, wrong relationship tag, missing attribute, unreadable relationship XML, missing content types, missing root relationships or a missing target is reported as an ERROR, a deprecated type as a WARNING, and a well-formed package without these yields neither.",
 ["inputs"], "all packages and relationship graphs, including cyclic ones",
 "Relationship graphs are unbounded and may contain cycles, duplicates and dangling targets.",
 [P+"opc.py"], [("scan", P+"opc.py: _scan_relationships"), ("content types", P+"opc.py: _check_content_type"), ("driver", P+"opc.py: read_opc, _check_relationships")],
 "result severity and the relationship tree")

prop("C18", "File verdicts combine all parts and malformed input never passes",
 "Checking a JSON, XML or AASX file is non-compliant whenever the container or any contained specification document is malformed or non-compliant, and compliant when all parts are; malformed JSON, XML, text encoding or ZIP data yields an ERROR result instead of an exception. Documents are checked against the requested model type, submodel templates are checked only for otherwise compliant environments, an AASX package without exactly one origin or without a specification yields a WARNING, and every specification document of every origin is checked in the format of its file extension.",
 ["inputs"], "all byte strings, packages and model types",
 "Inputs are arbitrary user files.",
 [P+"file.py", V+"__init__.py"], [("files", P+"file.py: check_json_file, check_xml_file, check_aasx_file"), ("package contents", P+"file.py: _check_files, check_aasx_data"), ("objects", V+"__init__.py: json_to_obj, xml_to_obj")],
 "returned result")

prop("C19", "Submodel templates accept exactly matching submodels",
 "A submodel whose first semantic id key is that of a supported template is compliant with it exactly when, for every field of the template, the number of elements carrying the field's semantic id is within the field's cardinality and each of them converts to the field's type (string, date, language string, enumeration or nested collection), and the template's own constraints hold. Submodels without or with an unknown semantic id are not checked, and every deviation is an ERROR rather than a crash, also for missing elements and for elements of the wrong kind.",
 ["inputs"], "all submodels with any elements, semantic ids and values",
 "Element lists and nesting are unbounded and contents arbitrary.",
 [V+"parse_submodel.py", V+"submodel_templates.py"], [("matching", V+"parse_submodel.py: _parse_elements, _unwrap, _parse"), ("conversions", V+"parse_submodel.py: _parse_string, _parse_date, _parse_lang_string, _parse_enum, _parse_element_collection"), ("driver", V+"submodel_templates.py: parse_submodel_templates")],
 "severity of the template result")

prop("C20", "Test filters select exactly the operations matching their patterns",
 "A filter consists of colon-separated include patterns, optionally followed by a single '~' and colon-separated exclude patterns; blank patterns are ignored. An operation is selected exactly when it matches at least one include pattern (or there is none) and no exclude pattern, where patterns are shell-style wildcards over the whole name, and a filter with more than one '~' is rejected.",
 ["inputs"], "all filter strings and operation names",
 "Any number of patterns with arbitrary wildcards.",
 [P+"config.py"], [("parsing", P+"config.py: TestCaseFilter.__init__"), ("selection", P+"config.py: TestCaseFilter.selects")],
 "selects(name)")

prop("C21", "HTTP requests carry the exact URL, headers and body requested",
 "Every request is sent once with its method to the host (without trailing slash) followed by the client's path prefixes, the request path and the URL-encoded query parameters that are set, where a configured path prefix is removed from the path exactly when the path equals it or continues with '/' after it. The body is the JSON encoding of the request body, or none, the headers are the client's additional headers overridden by the request's own, and TLS verification is as configured; a client derived for a sub-path keeps host, verification, prefix removal and additional headers.",
 ["inputs", "configurations"], "all hosts, prefixes, paths, parameters, headers and bodies",
 "Combinations of strings and options are unbounded.",
 [P+"http.py"], [("URL", P+"http.py: Request.make_url"), ("sending", P+"http.py: HttpClient.send"), ("sub-clients", P+"http.py: HttpClient.descend")],
 "arguments of the outgoing HTTP call")

prop("C22", "Server responses are accepted exactly when status and body conform",
 "A response is accepted exactly when its status is one of the expected ones and its body is a JSON object or array that parses without errors to the expected type, which is then returned. Otherwise the test case is aborted with CRITICAL for a status of 500 or above and with ERROR for any other unexpected status, undecodable or non-container body, or with the findings of a non-conforming body; an assertion passes exactly when its condition holds and otherwise aborts with its severity.",
 ["inputs"], "all status codes, bodies and sets of expected statuses below 500",
 "Servers may answer anything.",
 [V+"interfaces/shared.py"], [("decode", V+"interfaces/shared.py: invoke_and_decode, extract_json"), ("assertions", V+"interfaces/shared.py: _assert")],
 "result tree of the test case and the returned object")

prop("C23", "Server test runs honour dry-run and filter and count outcomes correctly",
 "Running a suite checks each selected operation of that suite exactly once in order and no others; a dry run sends no request at all and is not failing. An unreachable server yields a CRITICAL result and no further requests, an operation whose set-up fails is reported and its tests are skipped, one failing test case never prevents the remaining ones, and the numbers of passed and failed negative and positive tests equal the numbers of compliant and non-compliant test case results.",
 ["inputs", "configurations", "fault_sequences"], "all suites, filters, dry-run settings and all outcomes of every request and test case",
 "Outcomes per test case multiply; tests see a few servers.",
 [V+"api.py", P+"api.py"], [("run", V+"api.py: execute_tests, _execute, _execute_semantic_tests"), ("reachability", V+"api.py: _check_server"), ("version", P+"api.py: execute_tests")],
 "requests sent, result tree and counts")

prop("C24", "Negative test generation covers every argument with invalid values only",
 "For every operation and every argument whose type admits invalid values (limits, base64-encoded identifiers, enumerations, booleans, asset ids), exactly one negative call per invalid value is made, in argument order, with that argument replaced and all other arguments valid. Every generated value is indeed invalid for its type, and no argument of a free string type is attacked.",
 ["inputs", "configurations"], "all operation signatures and valid argument sets",
 "Signatures and enumerations differ per operation and may be extended.",
 [V+"generate.py"], [("values", V+"generate.py: generate_invalid_values"), ("calls", V+"generate.py: generate_calls")],
 "calls made to the operation")

prop("C25", "Element iteration and idShort paths follow the submodel structure",
 "Iterating a submodel yields every element of the submodel, its collections and lists exactly once, parents before children and in document order. After parsing, each of these elements carries the path of idShorts (or list positions inside lists) from the submodel to it, and sub-results for violations name that path.",
 ["inputs"], "all submodels of any nesting and width",
 "Nesting is unbounded.",
 [V+"model.py"], [("iteration", V+"model.py: elements of Submodel, SubmodelElementCollection, SubmodelElementList, SubmodelElement"), ("paths", V+"model.py: _set_path, update_id_shorts, IdShortPath")],
 "yielded elements and their paths")

prop("C26", "Base64url identifiers are unpadded, URL-safe and decode to the original",
 "Encoding any text as a base64url identifier yields only letters, digits, '-' and '_' without padding, and decoding it after restoring the padding gives the UTF-8 bytes of the original text, so distinct identifiers stay distinct. Identifier strings declared as base64 render encoded and all others render unchanged, and asset ids render as the encoding of their name and value.",
 ["inputs"], "all texts",
 "Texts are unbounded and padding depends on their length.",
 [P+"data_types.py", P+"reflect.py", V+"interfaces/shared.py"], [("encoding", P+"data_types.py: base64_urlsafe"), ("rendering", P+"reflect.py: StringFormattedValue.__str__"), ("asset ids", V+"interfaces/shared.py: AssetId.__str__")],
 "encoded strings")

prop("C27", "Reflection describes classes and signatures faithfully",
 "For every data class and operation signature, the reflected type lists exactly the annotated attributes or arguments in declaration order, marks them optional exactly when annotated optional, keeps forced names, omits excluded attributes while setting their fixed value, distinguishes lists that may be empty from those that may not, and lists exactly the concrete subclasses at any depth, also for recursive classes. Looking up a class by name finds exactly the reflected class of that name and fails when there is none or more than one.",
 ["inputs", "programs"], "all supported annotated classes and functions",
 "Class graphs can be arbitrarily shaped and recursive.",
 [P+"reflect.py"], [("classes", P+"reflect.py: _reflect_class, _collect_subclasses"), ("types", P+"reflect.py: _reflect_unsafe, _unwrap_optional"), ("lookup", P+"reflect.py: SymbolTable.lookup"), ("signatures", P+"reflect.py: reflect_function")],
 "reflected type objects")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for t in T:
            assert len(t["title"]) <= 80, t["title"]
            f.write(json.dumps(t) + "\n")
