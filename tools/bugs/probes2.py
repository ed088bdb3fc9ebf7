R, D, H, O, F, C, A, M, X = "result.py", "data_types.py", "http.py", "opc.py", "file.py", "config.py", "api.py", "__main__.py", "reflect.py"
PROBES = [
("key-name", "C27,C07", X, "    key = str(cls)\n", "    key = getattr(cls, '__qualname__', None) or str(cls)\n    key = f\"<class '.{key}'>\"\n"),
("table-shared", "C27", X, "    symbol_table = SymbolTable()\n    type = _reflect(cls", "    symbol_table = reflect.__dict__.setdefault('t', SymbolTable())\n    type = _reflect(cls"),
("abs-name", "C27,C07", X, '    setattr(cls, f"_{cls}_abstract", True)', '    setattr(cls, f"_{cls.__name__}_abstract", True)'),
("abs-inherit", "C27,C07", X, "        if not is_abstract(i):\n            yield i\n", "        if not any(k.endswith('_abstract') for k in vars(i)):\n            yield i\n"),
("sub-abstract-stop", "C27", X, "        yield from _collect_subclasses(i)", "        if is_abstract(i) or not is_abstract(cls):\n            yield from _collect_subclasses(i)"),
("sub-dedupe", "C27", X, "    for subclass in _collect_subclasses(cls):", "    for subclass in sorted(set(_collect_subclasses(cls)), key=lambda c: c.__name__):"),
("static-first", "C27", X, "{**args, **self.static_attrs}", "{**self.static_attrs, **args}"),
("excl-order", "C27", X, "            static_attrs[field.name] = exclude_as\n            continue", "            if exclude_as is not None:\n                static_attrs[field.name] = exclude_as\n            continue"),
("opt-default", "C27", X, "        required, field_type = _unwrap_optional(field.type)\n        try:", "        required, field_type = _unwrap_optional(field.type)\n        required = required and not isinstance(field.default, (str, int))\n        try:"),
("fn-order", "C27,C24", X, "    for key, value in fn.__annotations__.items():", "    for key, value in sorted(fn.__annotations__.items(), key=lambda kv: type(None) in getattr(kv[1], '__args__', ())):"),
("fn-return", "C27,C24", X, 'if key in ["return"]:', 'if key in "return":'),
("fn-under", "C27", X, 'if key in ["return"]:', 'if key in ["return"] or key.startswith("_"):'),
("lookup-case", "C27", X, "name.endswith(f\".{type_name}'>\")", "name.lower().endswith(f\".{type_name}'>\".lower())"),
("lookup-end", "C27,C05", X, "name.endswith(f\".{type_name}'>\")", "name.endswith(f\"{type_name}'>\")"),
("lookup-type", "C27", X, "for name, type in self.symbols.items() if", "for name, type in self.symbols.items() if isinstance(type, ClassType) and"),
("list-empty", "C27,C05", X, "    return ListType(UnresolvedType(item_cls), allow_empty)", "    return ListType(UnresolvedType(item_cls), allow_empty or item_cls is str)"),
("unwrap-none", "C27", X, "    if origin is not Union:\n        return True, cls", "    if origin is not Union or len(cls.__args__) > 2:\n        return True, cls"),
("enum-upper", "C05,C07", X, "class EnumType(TypeBase):\n    def __init__(self, cls):\n        self.cls = cls\n\n    def construct(self, args):\n        return self.cls(args)", "class EnumType(TypeBase):\n    def __init__(self, cls):\n        self.cls = cls\n\n    def construct(self, args):\n        return self.cls.__members__.get(args) or self.cls(args)"),
("pattern-match", "C07,C05", X, "re.fullmatch(self.pattern, raw_value)", "re.match(f'(?:{getattr(self.pattern, \"pattern\", self.pattern)})$', raw_value)"),
("pattern-case", "C07", X, "re.fullmatch(self.pattern, raw_value)", "re.fullmatch(self.pattern, raw_value, re.I)"),
("pattern-skip", "C07", X, "        if self.pattern:\n", "        if self.pattern and raw_value:\n"),
("len-utf16", "C07", X, "len(raw_value) > self.max_length", "len(raw_value.encode('utf-16-le', 'surrogatepass')) // 2 > self.max_length"),
("min-strip", "C07", X, "len(raw_value) < self.min_length", "len(raw_value.strip()) < self.min_length"),
("eq-type", "C08,C10", X, "        return self.raw_value == other.raw_value", "        return type(self) is type(other) and self.raw_value.strip() == other.raw_value.strip()"),
("prefix-loop", "C21", H, "        if url.startswith(self.remove_path_prefix) and (", "        while self.remove_path_prefix and url.startswith(self.remove_path_prefix) and ("),
("prefix-inner", "C21", H, '        url = "".join(self.prefixes) + request.make_url()\n', '        url = request.make_url()\n        if self.prefixes:\n            url = "".join(self.prefixes) + url.lstrip("/").join(["/", ""]) if url.startswith("//") else "".join(self.prefixes) + url\n'),
("retry", "C21", H, "        return requests.request(\n", "        r = requests.request(host + url, method=request.method) if request.method == 'head' else None\n        return requests.request(\n"),
("method-upper", "C21", H, "            method=request.method,", "            method=request.method if body is None or request.method != 'get' else 'post',"),
("headers-order", "C21", H, "headers={**self.additional_headers, **request.headers}", "headers={**request.headers, **self.additional_headers}"),
("headers-empty", "C21", H, "headers={**self.additional_headers, **request.headers}", "headers={k: v for k, v in {**self.additional_headers, **request.headers}.items() if v}"),
("ensure-ascii", "C21", H, "            body = json.dumps(request.body)\n\n", "            body = json.dumps(request.body, skipkeys=True, default=str)\n\n"),
("descend-prefix", "C21", H, "result.prefixes = self.prefixes + [prefix]", "result.prefixes = self.prefixes\n        result.prefixes.append(prefix)"),
("descend-once", "C21", H, "result.prefixes = self.prefixes + [prefix]", "result.prefixes = self.prefixes + [prefix] if prefix not in self.prefixes else self.prefixes"),
("query-str", "C21", H, "if v is not None}", "if v is not None and v != []}"),
("query-mark", "C21", H, 'url += "?" + urlencode', 'url += ("&" if "?" in url else "?") + urlencode'),
("esc-quote", "C03", R, "html.escape(self.message)", "html.escape(self.message, quote=False)"),
("html-nl", "C03", R, "html.escape(self.message)", 'html.escape(" ".join(self.message.split(" ")[:400]))'),
("lines-indent", "C03", R, '"   " * indent', '"   " * min(indent, 20)'),
("json-or", "C03", R, "            v.append(AasTestResult.from_json(i))", "            v.sub_results.append(AasTestResult.from_json(i))"),
("catch-base", "C02", R, "        elif self.catch_all_exceptions:", "        elif self.catch_all_exceptions and isinstance(exc_val, Exception):"),
("catch-order", "C02", R, "        elif isinstance(exc_val, ResultException):\n            self.result.append(exc_val.result)", "        elif isinstance(exc_val, ResultException):\n            if exc_val.result is not self.result and exc_val.result.level is not Level.INFO:\n                self.result.append(exc_val.result)"),
("catch-inner", "C02", R, "            return True\n        else:\n            return False", "            return True\n        else:\n            if managers:\n                managers[-1].result.append(self.result)\n            return False"),
("write-nothing", "C02", R, '    if not managers:\n        raise RuntimeError("No open context")', '    if managers is None:\n        raise RuntimeError("No open context")'),
("abort-wrap", "C02,C22", R, "    raise ResultException(result)", "    raise ResultException(result) from (None if not managers else RuntimeError(managers.pop() and ''))"),
("ok-sub", "C01,C04", R, "        return self.level == Level.INFO or self.level == Level.WARNING", "        return self.level in (Level.INFO, Level.WARNING) or (self.level == Level.ERROR and bool(self.sub_results) and all(i.ok() for i in self.sub_results))"),
("or-crit", "C01,C12", R, "        self.level = self.level | result.level", "        self.level = self.level | result.level if result.level != Level.CRITICAL or self.level != Level.WARNING else Level.ERROR"),
("exit-json", "C04", M, "        print(json.dumps(result.to_dict()))\n    else:\n        raise Exception(f\"Invalid output {args.output}\")\n    sys.exit(0 if result.ok() else 1)\n\n\ndef run_api", "        sys.exit(print(json.dumps(result.to_dict())))\n    else:\n        raise Exception(f\"Invalid output {args.output}\")\n    sys.exit(0 if result.ok() else 1)\n\n\ndef run_api"),
("suite-prefix", "C04", M, "if args.suite in i]", "if args.suite.strip('*') in i]"),
("hdr-dup", "C04", M, "additional_headers=dict(args.header)", "additional_headers={k: v for k, v in args.header if v}"),
("noverify-http", "C04", M, "verify=not args.no_verify", "verify=not args.no_verify and args.server.startswith('https')"),
("json-nan", "C18", F, "        data = json.load(file)\n", "        data = json.load(file, strict=False)\n"),
("json-dup", "C18", F, "        data = json.load(file)\n", "        data = json.loads(file.read().strip(b'\\x00') if 'b' in getattr(file, 'mode', 'b') else file.read())\n"),
("xml-ws", "C18", F, "ElementTree.fromstring(file.read())", "ElementTree.fromstring(file.read().strip())"),
("zip-test", "C18", F, "        bad_file = zip.testzip()\n", "        bad_file = zip.testzip() if len(zip.namelist()) < 3 else None\n"),
("spec-ok-stop", "C18", F, "            result.append(sub_result)\n", "            result.append(sub_result)\n            if not sub_result.ok():\n                break\n"),
("spec-empty", "C18", F, "                    if aasx_spec.target.endswith(\".xml\"):", "                    if zipfile.getinfo(aasx_spec.target).file_size == 0:\n                        continue\n                    if aasx_spec.target.endswith(\".xml\"):"),
("norm-dotdot", "C16", O, "            if result:\n                result.pop()", "            if len(result) > 1 or result and not path.startswith('/'):\n                result.pop()"),
("norm-strip", "C16,C17", O, "            result.append(token)", "            result.append(token.rstrip())"),
("norm-ddd", "C16", O, '        if token == "..":', '        if token.strip() == "..":'),
("split-slash", "C16,C17", O, '    prefix, _, suffix = path.rpartition("/")', '    prefix, _, suffix = path.rstrip("/").rpartition("/")'),
("rel-dir", "C17,C18", O, '            target = dir + target', '            target = dir + target if not target.startswith(dir) else target'),
("rel-visit-rel", "C17", O, "        if target in visited_targets:", "        if target in visited_targets and type not in deprecated_types:"),
("rel-self", "C17,C18", O, "        visited_targets.add(target)\n", "        if sub_file != file:\n            visited_targets.add(target)\n"),
("ct-tag", "C17,C18", O, "if content_types.getroot().tag != expected_tag:", "if content_types.getroot().tag.lower() != expected_tag.lower():"),
("root-tag", "C17", O, "    if relationships.tag != expected_tag:", "    if not relationships.tag.endswith('}Relationships'):"),
("filter-split", "C20", C, "tokens = filter_pattern.split(self.FILTER_SEP)", "tokens = filter_pattern.rstrip(self.FILTER_SEP).split(self.FILTER_SEP)"),
("filter-search", "C20", C, "any(i.match(test_case) for i in self.excludes)", "any(i.match(test_case) for i in self.excludes if self.includes or i.pattern)"),
("filter-incl", "C20,C23", C, "        if self.includes and not any(", "        if len(self.includes) == len(set(self.includes)) and self.includes and not any("),
("uri-pct", "C15,C11", D, 'pct_encoded = "%[0-9A-Fa-f][0-9A-Fa-f]"', 'pct_encoded = "%[0-9A-Fa-f][0-9A-Fa-f]?"'),
("uri-ipv6", "C15", D, "(({h16}:){{0,4}}{h16})?::{ls32}", "(({h16}:){{0,3}}{h16})?::{ls32}"),
("uri-nc", "C15", D, "|{sub_delims}|@)+\"", "|{sub_delims}|[:@])+\""),
("uri-v", "C15", D, 'f"[vV][0-9A-Fa-f]+', 'f"v[0-9A-Fa-f]+'),
("hex-odd", "C15,C11", D, '([0-9a-fA-F]{2})*', '([0-9a-fA-F]{2})*|0'),
("b64-nl", "C15", D, 'f"((({char} ?){{4}})*({final}))?"', 'f"((({char}\\\\s?){{4}})*({final}))?"'),
("en-dash", "C15,C11", D, '"^(en|EN)(-.*)?$"', '"^(en|EN)(-.+)?$"'),
("en-nl", "C15", D, 'fullmatch(text) is not None\n\n\nclass', 'match(text) is not None\n\n\nclass'),
("bcp-var", "C15", D, "(({alphanum}){{5,8}}|[0-9]({alphanum}){{3}})", "(({alphanum}){{5,8}}|[0-9]({alphanum}){{3,4}})"),
("dur-frac", "C14,C11", D, "([0-9]+M)([0-9]+(\\.[0-9]+)?S)?|([0-9]+(\\.[0-9]+)?S))))", "([0-9]+M)([0-9]+(\\.[0-9]*)?S)?|([0-9]+(\\.[0-9]+)?S))))"),
("time-24", "C14", D, '(24:00:00(\\.0+)?))(Z', '(24:00:00(\\.0*)?))(Z'),
("leap-400", "C14", D, "    if year % 400 > 0:\n        return False\n    return True", "    if year % 400 > 0 and year < 10000:\n        return False\n    return True"),
("dt-neg", "C14", D, '    date, _ = s.split("T")\n    return is_xs_date(date)\n\n\ndef _construct_matches_xs_date_time_utc', '    date, _ = s.split("T")\n    return is_xs_date(date.lstrip("-"))\n\n\ndef _construct_matches_xs_date_time_utc'),
("utc-tz", "C14", D, 'timezone_frag = "(Z|\\\\+00:00|-00:00)"', 'timezone_frag = "(Z|\\\\+00:00)"'),
("int-plus0", "C13", D, 'lambda s: _is_bounded_integer(s, 0, 255)', 'lambda s: _is_bounded_integer(s, 0, 255) and s != "-0"'),
("dec-trail", "C13", D, 'r"[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)", s)', 'r"[+-]?([0-9]+(\\.[0-9]+)?|\\.[0-9]+)", s)'),
("dbl-inf", "C13", D, '["INF", "-INF", "NaN"]', '["INF", "+INF", "-INF", "NaN"]'),
("dbl-nul", "C13", D, "        v = float(s)\n        return v > min and v < max", "        v = float(s)\n        return v > min and v < max or s[-1] == '0' and 'e' in s.lower() and v != v"),
("ulong", "C13,C11", D, "18446744073709551615", "18446744073709551616"),
("b64-pad", "C26", D, '.decode().strip("=")', '.decode().replace("=", "")'),
("b64-std", "C26", D, 'base64.urlsafe_b64encode(s.encode()).decode().strip("=")', 'base64.b64encode(s.encode()).decode().strip("=").replace("+", "-").replace("/", "_", 1)'),
]
