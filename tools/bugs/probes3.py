R, D, H, O, F, C, A, M, X, E_ = "result.py", "data_types.py", "http.py", "opc.py", "file.py", "config.py", "api.py", "__main__.py", "reflect.py", "exception.py"
OK = "    def ok(self) -> bool:\n"
PROBES = [
("res-bool", "C17,C18,C01", R, OK, "    def __bool__(self) -> bool:\n        return self.ok()\n\n" + OK),
("res-len", "C17,C18", R, OK, "    def __len__(self) -> int:\n        return len(self.sub_results)\n\n" + OK),
("res-eq", "C01,C02,C17", R, OK, "    def __eq__(self, other) -> bool:\n        return self.message == other.message\n\n" + OK),
("scope-reuse", "C02", R, "        self.catch_all_exceptions = catch_all_exceptions\n", "        self.catch_all_exceptions = catch_all_exceptions or bool(managers and managers[-1].catch_all_exceptions)\n"),
("scope-empty", "C02", R, "        if exc_val is None:\n            if managers:\n", "        if exc_val is None:\n            if managers and (self.result.sub_results or self.result.level != Level.INFO or len(managers) < 3):\n"),
("scope-abort-same", "C02", R, "            self.result.append(exc_val.result)\n            if managers:", "            if exc_val.result is not self.result:\n                self.result.append(exc_val.result)\n            if managers:"),
("scope-abort-dup", "C02", R, "            self.result.append(exc_val.result)\n            if managers:", "            if exc_val.result not in self.result.sub_results:\n                self.result.append(exc_val.result)\n            if managers:"),
("write-level", "C02", R, "    message = _as_result(message, Level.INFO)\n    managers[-1].result.append(message)", "    message = _as_result(message, managers[-1].result.level)\n    managers[-1].result.append(message)"),
("start-level", "C02", R, "    result = _as_result(message, Level.INFO)\n    return", "    result = _as_result(message, managers[-1].result.level if managers else Level.INFO)\n    return"),
("exit-baseexc", "C02", R, "        elif self.catch_all_exceptions:\n", "        elif self.catch_all_exceptions and exc_type is not AssertionError:\n"),
("exit-args", "C02,C23", R, '            self.result.append(AasTestResult(f"Internal error: {exc_val}", Level.CRITICAL))\n', '            self.result.append(AasTestResult(f"Internal error: {exc_val}", Level.CRITICAL if exc_val.args else Level.ERROR))\n'),
("exit-nested", "C02", R, "        else:\n            return False\n\n\nclass ResultException", "        else:\n            del managers[:]\n            return False\n\n\nclass ResultException"),
("lines-multi", "C03", R, 'yield "   " * indent + self.level.color() + self.message + ENDC', 'yield "   " * indent + self.level.color() + self.message.replace("\\r", "") + ENDC'),
("lines-depth", "C03", R, "            yield from sub_result.to_lines(indent + 1)", "            yield from sub_result.to_lines(min(indent + 1, 12))"),
("html-nul", "C03", R, "        msg = html.escape(self.message)\n", "        msg = html.escape(self.message.strip())\n"),
("html-once", "C03", R, "        msg = html.escape(self.message)\n", "        msg = html.escape(html.unescape(self.message))\n"),
("html-deep", "C03", R, "        if self.sub_results:\n            c = ", "        if self.sub_results and level < 20:\n            c = "),
("dict-level", "C03", R, '            "l": self.level.value,\n', '            "l": max([self.level.value] + [i.level.value for i in self.sub_results]),\n'),
("fromjson-msg", "C03", R, 'v = AasTestResult(data["m"], Level(data["l"]))', 'v = AasTestResult(data["m"] or "-", Level(data["l"]))'),
("append-none", "C01", R, "        self.level = self.level | result.level\n", "        if result.level != Level.WARNING or not self.sub_results[:-1]:\n            self.level = self.level | result.level\n"),
("append-crit", "C01", R, "        self.level = self.level | result.level\n", "        self.level = self.level | (Level.ERROR if result.level == Level.CRITICAL and len(self.sub_results) > 100 else result.level)\n"),
# http
("hdr-update", "C21", H, "            headers={**self.additional_headers, **request.headers},", "            headers=(self.additional_headers.update(request.headers), self.additional_headers)[1],"),
("hdr-update2", "C21", H, "            headers={**self.additional_headers, **request.headers},", "            headers=(request.headers.update({k: v for k, v in self.additional_headers.items() if k not in request.headers}), request.headers)[1],"),
("hdr-case", "C21", H, "            headers={**self.additional_headers, **request.headers},", "            headers={**{k: v for k, v in self.additional_headers.items() if k.lower() not in [x.lower() for x in request.headers]}, **request.headers},"),
("body-falsy", "C21", H, "        if request.body is None:\n            body = None", "        if not request.body and request.body != {}:\n            body = None"),
("body-str", "C21", H, "            body = json.dumps(request.body)\n\n", "            body = request.body if isinstance(request.body, str) else json.dumps(request.body)\n\n"),
("body-get", "C21", H, "        if request.body is None:\n            body = None", "        if request.body is None or request.method == 'delete':\n            body = None"),
("url-cache", "C21", H, "        url = self.path\n        query_params", "        if '_url' in self.__dict__:\n            return self._url\n        url = self.path\n        query_params"),
("query-mark", "C21", H, '            url += "?" + urlencode(query_params)', '            url += ("&" if "?" in url else "?") + urlencode(query_params)'),
("query-bool", "C21", H, "for k, v in self.query_parameters.items() if v is not None}", "for k, v in self.query_parameters.items() if v is not None and v is not False}"),
("query-sort", "C21", H, "for k, v in self.query_parameters.items() if v is not None}", "for k, v in sorted(self.query_parameters.items()) if v is not None}"),
("query-safe", "C21", H, "urlencode(query_params)", "urlencode(query_params, safe='/:')"),
("desc-verify", "C21", H, "HttpClient(self.host, self.verify, self.remove_path_prefix, self.additional_headers)", "HttpClient(self.host, self.verify, self.remove_path_prefix if not self.prefixes else '', self.additional_headers)"),
("desc-slash", "C21", H, "        result.prefixes = self.prefixes + [prefix]", "        result.prefixes = self.prefixes + [prefix.rstrip('/')]"),
("desc-empty", "C21", H, "        result.prefixes = self.prefixes + [prefix]", "        result.prefixes = self.prefixes + ([prefix] if prefix not in self.prefixes else [])"),
("hdr-default", "C21", H, "        self.additional_headers = additional_headers\n", "        self.additional_headers = additional_headers\n        additional_headers.setdefault('User-Agent', 'aas')\n"),
("host-space", "C21", H, "        self.host = host\n", "        self.host = host.lower()\n"),
# opc
("ns-name", "C17", O, "        if target not in zipfile.namelist():", "        if not any(n.startswith(target) for n in zipfile.namelist()):"),
("name-case", "C17", O, "        if target not in zipfile.namelist():", "        if target.lower() not in [n.lower() for n in zipfile.namelist()]:"),
("ct-suffix", "C17", O, "            if content_types.getroot().tag != expected_tag:", "            if not content_types.getroot().tag.endswith('Types'):"),
("rel-iter", "C17", O, "    for idx, rel in enumerate(relationships):", "    for idx, rel in enumerate(relationships.iter(f\"{NS_RELATIONSHIPS}Relationship\")):"),
("rel-dup", "C17", O, "        parent_rel.sub_rels.append(sub_rel)\n", "        if not any(s.target == target for s in parent_rel.sub_rels):\n            parent_rel.sub_rels.append(sub_rel)\n"),
("rel-visited-rec", "C17", O, "            result.append(AasTestResult(f\"Already checked {target}\", Level.INFO))\n            continue", "            result.append(AasTestResult(f\"Already checked {target}\", Level.INFO))\n            if target in zipfile.namelist() and not target.endswith('.xml') and target == splitpath(target)[1] and len(visited_targets) > 3:\n                parent_rel.sub_rels.pop()\n            continue"),
("rel-abs", "C17", O, '            target = target[1:]\n', '            target = target.lstrip("/")\n'),
("rel-empty", "C17", O, "            target = rel.attrib[\"Target\"]\n", "            target = rel.attrib[\"Target\"].split('#')[0]\n"),
("rel-backslash", "C17", O, "        target = normpath(target)\n", "        target = normpath(target.replace('\\\\', '/'))\n"),
("rel-missing-once", "C17", O, "            result.append(AasTestResult(f\"Relationship has non-existing target {target}\", Level.ERROR))", "            result.append(AasTestResult(f\"Relationship has non-existing target {target}\", Level.ERROR if dir or not file else Level.WARNING))"),
("sub-by-type", "C17,C18", O, "[i for i in self.sub_rels if i.type == type]", "[i for i in self.sub_rels if i.type.rstrip('/') == type]"),
("rel-type-blank", "C17", O, '            type = rel.attrib["Type"]\n', '            type = rel.attrib["Type"].strip()\n'),
("opc-warn", "C17,C18", O, "    root_result.append(_check_content_type(zipfile))\n    if not root_result.ok():\n        return\n", "    root_result.append(_check_content_type(zipfile))\n    if not root_result.ok():\n        root_rel.sub_rels = []\n"),
# file
("file-ext-dot", "C18", F, 'aasx_spec.target.endswith(".xml")', 'aasx_spec.target.endswith("xml")'),
("file-dedupe", "C18", F, "        for aasx_spec in spec_rels:\n", "        for aasx_spec in {s.target.lower(): s for s in spec_rels}.values():\n"),
("file-bom", "C18", F, "        data = json.load(file)\n", "        data = json.loads(file.read().lstrip(b'\\xef\\xbb\\xbf') if hasattr(file, 'mode') and 'b' in str(file.mode) else file.read())\n"),
("file-empty", "C18", F, "        data = ElementTree.fromstring(file.read())\n", "        data = ElementTree.fromstring(file.read() or '<environment xmlns=\"https://admin-shell.io/aas/3/0\"/>')\n"),
("file-warn", "C18", F, "    if not result.ok():\n        return result\n    result.append(_check_files", "    if result.level != Level.INFO and not root_rel.sub_rels_by_type(TYPE_AASX_ORIGIN):\n        return result\n    if not result.ok():\n        return result\n    result.append(_check_files"),
("file-model", "C18", F, "    result, obj = json_to_obj(data, model_type)", "    result, obj = json_to_obj(data, data.get('modelType', model_type) if isinstance(data, dict) else model_type)"),
("file-nan", "C18", F, "        data = json.load(file)\n", "        data = json.load(file, strict=False)\n"),
# config/api
("cfg-dup", "C20", C, "        if self.excludes and any(i.match(test_case) for i in self.excludes):", "        if self.excludes and not self.includes and any(i.match(test_case) for i in self.excludes):"),
("cfg-cls", "C20", C, "    def __init__(self, filter_pattern: str):\n", "    def __init__(self, filter_pattern: str):\n        filter_pattern = filter_pattern.replace('\\n', ':')\n"),
("cfg-bracket", "C20", C, "re.compile(fnmatch.translate(i)) for i in include", "re.compile(fnmatch.translate(i.replace('[', '[[]') if ']' not in i else i)) for i in include"),
("cfg-bracket2", "C20", C, "re.compile(fnmatch.translate(i)) for i in include", "re.compile(fnmatch.translate(i.replace('[^', '[!'))) for i in include"),
("api-none", "C23", A, "    version = conf.version or _DEFAULT_VERSION\n", "    version = (conf.version or _DEFAULT_VERSION).strip()\n"),
("main-suffix", "C04", M, "    suites = [i for i in available_suites if args.suite in i]", "    suites = [i for i in available_suites if i == args.suite] or [i for i in available_suites if args.suite in i]"),
("main-dedupe", "C04", M, "        additional_headers=dict(args.header),", "        additional_headers={k: v for k, v in reversed(args.header)},"),
("main-noverify", "C04", M, "        verify=not args.no_verify,", "        verify=not (args.no_verify or args.dry),"),
("main-server", "C04", M, "        host=args.server,", "        host=args.server.rstrip('/'),"),
("main-prefix", "C04", M, "        remove_path_prefix=args.remove_path_prefix,", "        remove_path_prefix=args.remove_path_prefix.rstrip('/'),"),
("main-html", "C04", M, "        print(result.to_html())\n    elif args.output == OutputFormats.JSON:\n        print(json.dumps(result.to_dict()))\n    else:\n        raise Exception(f\"Invalid output {args.output}\")\n    sys.exit(0 if result.ok() else 1)\n\n\ndef run_api", "        print(result.to_html())\n        sys.exit(0 if not result.sub_results or result.ok() else 1)\n    elif args.output == OutputFormats.JSON:\n        print(json.dumps(result.to_dict()))\n    else:\n        raise Exception(f\"Invalid output {args.output}\")\n    sys.exit(0 if result.ok() else 1)\n\n\ndef run_api"),
("main-level", "C04", M, "    sys.exit(0 if result.ok() else 1)", "    sys.exit(0 if all(s.ok() for s in result.sub_results) and (result.ok() or result.sub_results) else 1)"),
# reflect
("sfv-hash", "C08,C09,C10", X, "        return self.raw_value == other.raw_value", "        return str(self) == str(other) or self.raw_value.casefold() == other.raw_value.casefold() and self.base64"),
("sfv-eq-none", "C08,C10", X, "        return self.raw_value == other.raw_value", "        return other is not None and self.raw_value == other.raw_value"),
("sfv-nfc", "C08,C10", X, "        return self.raw_value == other.raw_value", "        import unicodedata\n        return unicodedata.normalize('NFC', self.raw_value) == unicodedata.normalize('NFC', other.raw_value)"),
("sfv-str", "C26", X, "        if self.base64:\n", "        if self.base64 and self.raw_value:\n"),
("sfv-str2", "C26", X, "            return base64_urlsafe(self.raw_value)\n", "            return base64_urlsafe(self.raw_value.strip())\n"),
("attr-shadow", "C27,C05", X, "        for name, symbol in self.symbols.items():\n            if isinstance(symbol, ClassType):\n                for field in symbol.attrs:", "        for name, symbol in self.symbols.items():\n            if isinstance(symbol, ClassType):\n                for field in symbol.attrs[:40]:"),
("construct-none", "C27,C05", X, "        return self.cls(**{**args, **self.static_attrs})", "        return self.cls(**{**args, **{k: v for k, v in self.static_attrs.items() if v}})"),
("enum-construct", "C05", X, "    def construct(self, args):\n        return self.cls(args)\n\n\nclass FunctionType", "    def construct(self, args):\n        return self.cls(args.strip())\n\n\nclass FunctionType"),
]
