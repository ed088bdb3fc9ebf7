R, F, H, D, O, M, T, C = "result.py", "file.py", "http.py", "data_types.py", "opc.py", "__main__.py", "reflect.py", "config.py"
PROBES = [
("append-cap", "C01,C12,C03", R, "        self.sub_results.append(result)\n", "        if len(self.sub_results) < 1000:\n            self.sub_results.append(result)\n"),
("append-dup", "C01,C12,C02", R, "        self.sub_results.append(result)\n", "        if not any(i.message == result.message and i.level == result.level and not i.sub_results for i in self.sub_results):\n            self.sub_results.append(result)\n"),
("write-flatten", "C02,C12", R, "    managers[-1].result.append(message)\n", "    managers[-1].result.append(message)\n    if message.level == Level.CRITICAL:\n        raise ResultException(message)\n"),
("exit-empty", "C02,C12", R, "        if exc_val is None:\n            if managers:", "        if exc_val is None:\n            if managers and (self.result.sub_results or not self.result.message.startswith('Check')):"),
("exit-dup", "C02,C12", R, "            self.result.append(exc_val.result)\n", "            if exc_val.result.level != Level.INFO:\n                self.result.append(exc_val.result)\n"),
("abort-level", "C02,C22", R, "    result = _as_result(message, Level.ERROR)\n    raise", "    result = _as_result(message, Level.ERROR)\n    result.level = result.level | Level.ERROR\n    raise"),
("lines-dup", "C03", R, "        for sub_result in self.sub_results:\n            yield from sub_result.to_lines(indent + 1)", "        last = None\n        for sub_result in self.sub_results:\n            if sub_result is last:\n                continue\n            last = sub_result\n            yield from sub_result.to_lines(indent + 1)"),
("dict-strip", "C03", R, '"m": self.message,', '"m": self.message.strip(),'),
("json-wrong-or", "C03", R, '        v = AasTestResult(data["m"], Level(data["l"]))', '        v = AasTestResult(data["m"], Level(data["l"]) if not data["s"] else Level.INFO)'),
("html-depth", "C03", R, "                s += sub_result._to_html(level + 1)", "                s += sub_result._to_html(level + 1) if level < 50 else ''"),
("html-level", "C03", R, '            Level.CRITICAL: "critical",\n        }[self.level]', '            Level.CRITICAL: "critical",\n        }[self.level if self.sub_results else Level(min(self.level.value, 2))]'),
("suite-lower", "C04", M, "if args.suite in i]", "if args.suite.lower() in i.lower()]"),
("suite-exact", "C04", M, "    if len(suites) == 0:\n", "    if args.suite in available_suites:\n        suites = [args.suite]\n    if len(suites) == 0:\n"),
("exit-count", "C04", M, "        raise Exception(f\"Invalid output {args.output}\")\n    sys.exit(0 if result.ok() else 1)\n\n\ndef run_api", "        raise Exception(f\"Invalid output {args.output}\")\n    sys.exit(0 if result.ok() else len(list(result.to_lines())))\n\n\ndef run_api"),
("header-split", "C04", M, 's.split(":", 1)', 's.split(": " if ": " in s else ":", 1)'),
("header-lower", "C04", M, "additional_headers=dict(args.header)", "additional_headers={k.title(): v for k, v in args.header}"),
("model-strip", "C04", M, "check_xml_file(args.file, model_type=args.model_type)", "check_xml_file(args.file, model_type=args.model_type or 'Environment')"),
("optional-order", "C27,C05", T, "    return False, cls.__args__[0]", "    return cls.__args__[0] is bool, cls.__args__[0]"),
("subclass-depth", "C27,C07", T, "        yield from _collect_subclasses(i)", "        if is_abstract(i):\n            yield from _collect_subclasses(i)"),
("exclude-truthy", "C27", T, "            static_attrs[field.name] = exclude_as\n", "            static_attrs[field.name] = exclude_as or None\n"),
("lookup-first", "C27", T, "        elif len(matches) == 1:", "        elif len(matches) == 1 or all(type(i) is type(matches[0]) for i in matches):"),
("string-fffe", "C07,C05", T, "\\ue000-\\ufffd", "\\ue000-\\uffff"),
("string-strip", "C07,C05", T, "re.fullmatch(self.pattern, raw_value) is None", "re.fullmatch(self.pattern, raw_value.rstrip()) is None"),
("string-maxlen", "C07", T, "            if len(raw_value) > self.max_length:", "            if len(raw_value.strip()) > self.max_length:"),
("string-eq", "C08,C10,C09", T, "        return self.raw_value == other.raw_value", "        return self.raw_value.lower() == other.raw_value.lower()"),
("string-eq2", "C08,C10", T, "        return self.raw_value == other.raw_value", "        return self.raw_value.rstrip('/') == other.raw_value.rstrip('/')"),
("enum-strip", "C05", T, "class EnumType(TypeBase):\n    def __init__(self, cls):\n        self.cls = cls\n\n    def construct(self, args):\n        return self.cls(args)", "class EnumType(TypeBase):\n    def __init__(self, cls):\n        self.cls = cls\n\n    def construct(self, args):\n        return self.cls(args.strip())"),
("sfv-strip", "C05,C07", T, "        self.cls: StringFormattedValue = cls\n\n    def construct(self, args):\n        return self.cls(args)", "        self.cls: StringFormattedValue = cls\n\n    def construct(self, args):\n        return self.cls(args.strip() if self.cls.pattern else args)"),
("fn-optional", "C27,C24", T, "        args.append(FunctionType.Argument(key, r_arg_type, required))", "        args.append(FunctionType.Argument(key, r_arg_type, required or isinstance(r_arg_type, BoolType)))"),
("fn-skip", "C27,C24", T, '        if key in ["return"]:', '        if key in ["return"] or key.startswith("_"):'),
("nonempty-list", "C27,C05,C07", T, "            return _reflect_list(item_type, globals, locals, symbol_table, False)", "            return _reflect_list(item_type, globals, locals, symbol_table, item_type is str)"),
("force-empty", "C27", T, 'force_name = field.metadata.get("force_name", None)', 'force_name = field.metadata.get("force_name", None) or None'),
("bool-lower", "C13,C11", D, 'lambda x: x in {"true", "false", "1", "0"}', 'lambda x: x.lower() in {"true", "false", "1", "0"}'),
("long-min", "C13,C11", D, "_is_bounded_integer(s, -9223372036854775808, ", "_is_bounded_integer(s, -9223372036854775807, "),
("float-limit", "C13,C11", D, "-3.4028234663852886e38, 3.4028234663852886e38", "-3.4028235e38, 3.4028235e38"),
("float-ge", "C13", D, "        return v > min and v < max", "        return v >= min and v < max"),
("sept", "C14,C11", D, "    9: 30,\n    10: 31,\n    11: 30,\n    12: 31,\n}\n\n\ndef _days", "    9: 31,\n    10: 31,\n    11: 30,\n    12: 31,\n}\n\n\ndef _days"),
("date-year0", "C14", D, "    if year == 0:\n", "    if year == 0 and not value.startswith('-'):\n"),
("sec-frag", "C14", D, '    end_of_day_frag = "24:00:00(\\\\.0+)?"\n    timezone_frag = f"(Z|', '    end_of_day_frag = "24:00:00(\\\\.0*)?"\n    timezone_frag = f"(Z|'),
("bcp-x", "C15,C07", D, '    privateuse = f"[xX](-({alphanum}){{1,8}})+"', '    privateuse = f"[xX](-({alphanum}){{1,8}})*"'),
("bcp-ascii", "C15,C07", D, "re.IGNORECASE | re.ASCII", "re.IGNORECASE"),
("b64-quart", "C15", D, "[AEIMQUYcgkosw048] ?=", "[AEIMQUYcgkosw0489] ?="),
("uri-port", "C15", D, 'port = "[0-9]*"', 'port = "[0-9]{0,5}"'),
("norm-slash", "C16", O, "    path = path.strip()\n", "    path = path.strip().replace('\\\\', '/')\n"),
("norm-dot", "C16", O, 'or token == ".":', 'or token.strip() == ".":'),
("norm-root", "C16", O, '            if result:\n                result.pop()', '            if len(result) > 1 or not path.startswith("/"):\n                result[-1:] = []'),
("rel-external", "C17,C18", O, "        if target not in zipfile.namelist():", "        if rel.attrib.get('TargetMode') == 'External':\n            continue\n        if target not in zipfile.namelist():"),
("rel-case", "C17,C18", O, "        if target not in zipfile.namelist():", "        if target.lower() not in [i.lower() for i in zipfile.namelist()]:"),
("rel-frag", "C17,C18", O, "        target = normpath(target)\n", "        target = normpath(target).split('#')[0]\n"),
("rel-unquote", "C17,C18", O, "        target = normpath(target)\n", "        from urllib.parse import unquote\n        target = unquote(normpath(target))\n"),
("rel-depr", "C17,C18", O, "        if type in deprecated_types:\n", "        if type in deprecated_types and parent_rel.type == 'ROOT':\n"),
("rel-cont", "C17", O, '            result.append(AasTestResult(f"Invalid tag {rel.tag}", Level.ERROR))\n            continue', '            result.append(AasTestResult(f"Invalid tag {rel.tag}", Level.ERROR))\n            break'),
("rel-type-filter", "C17", O, "return [i for i in self.sub_rels if i.type == type]", "return [i for i in self.sub_rels if i.type.lower() == type.lower()]"),
("origin-warn", "C18", F, "if len(origin_rels) != 1:", "if len({i.target for i in origin_rels}) != 1:"),
("spec-seen", "C18", F, '            sub_result = AasTestResult(f"Checking {aasx_spec.target}")\n', '            if aasx_spec is not spec_rels[0] and aasx_spec.target == spec_rels[0].target.replace(".xml", ".json"):\n                continue\n            sub_result = AasTestResult(f"Checking {aasx_spec.target}")\n'),
("json-bom", "C18", F, "        data = json.load(file)\n", "        data = json.loads(file.read() or '{}')\n"),
("filter-strip", "C20,C23", C, "self.includes = [re.compile(fnmatch.translate(i))", "self.includes = [re.compile(fnmatch.translate(i.strip()))"),
("filter-case", "C20", C, "self.excludes = [re.compile(fnmatch.translate(i))", "self.excludes = [re.compile(fnmatch.translate(i), re.IGNORECASE)"),
("filter-both", "C20", C, "        if self.excludes and any(", "        if test_case in self.__dict__.setdefault('names', []):\n            return True\n        if self.excludes and any("),
("body-falsy", "C21", H, "        if request.body is None:\n            body = None", "        if request.body is None or request.body == '':\n            body = None"),
("hdr-leak", "C21", H, "            headers={**self.additional_headers, **request.headers},", "            headers=self.additional_headers.update(request.headers) or self.additional_headers,"),
("qp-doseq", "C21", H, "urlencode(query_params)", "urlencode(query_params, doseq=True)"),
("qp-safe", "C21", H, "urlencode(query_params)", "urlencode(query_params, safe='/:')"),
("prefix-q", "C21", H, 'url[len(self.remove_path_prefix)] == "/"', 'url[len(self.remove_path_prefix)] in "/?"'),
("host-strip", "C21", H, "            host = self.host[:-1]", "            host = self.host.rstrip('/') if self.remove_path_prefix else self.host[:-1]"),
("cookies", "C21", H, "            verify=self.verify,", "            verify=self.verify if host.startswith('https') else False,"),
("descend-verify", "C21", H, "HttpClient(self.host, self.verify,", "HttpClient(self.host, bool(self.verify),"),
("b64-norm", "C26,C24", D, "base64.urlsafe_b64encode(s.encode())", "base64.urlsafe_b64encode(s.strip().encode())"),
("b64-lstrip", "C26", D, '.decode().strip("=")', '.decode().strip("=-")'),
("b64-latin", "C26", D, "base64.urlsafe_b64encode(s.encode())", "base64.urlsafe_b64encode(s.encode('utf-8', 'replace') if s.isprintable() else s.encode('utf-7'))"),
("str-base64", "C26", T, "        if self.base64:\n            return base64", "        if self.base64 and self.raw_value:\n            return base64"),
("str-base64b", "C26", T, "        if self.base64:\n            return base64", "        if self.base64 and not self.raw_value.isalnum():\n            return base64"),
]
