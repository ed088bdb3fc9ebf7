"""tools/refactors.py [names]: behaviour-preserving edits of the code under contract; every check must stay quiet on
them (exit 0).  A search for false alarms; not a check.  W = number of parallel checks."""
import os, shutil, subprocess, sys, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "aas_test_engines/"
DEP = {"data_types": "C07 C09 C11 C13 C14 C15 C19 C24 C26", "reflect": "C05 C06 C07 C10 C12 C19 C24 C26 C27", "result": "C01 C02 C03 C12 C17 C18 C19 C22 C23 C05 C04",
       "http": "C21 C23 C22 C04", "config": "C20 C23 C04", "api": "C23 C04", "opc": "C16 C17 C18", "file": "C18 C04", "__main__": "C04"}
R = []
POOL = queue.Queue()
def ref(name, file, *edits): R.append((name, file, edits))


def between(src, start, end):
    i = src.index(start)
    j = src.index(end, i + len(start)) if end else len(src)
    return src[i:j]

# ------------------------------------------------------------------ result
ref("level-or-ifelse", "result", ("        return Level(max(self.value, other.value))", "        if other.value > self.value:\n            return other\n        return self"))
ref("append-order", "result", ("        self.sub_results.append(result)\n        self.level = self.level | result.level", "        new_level = self.level | result.level\n        self.level = new_level\n        self.sub_results.append(result)"))
ref("append-worse", "result", ("        self.level = self.level | result.level", "        if result.level.value > self.level.value:\n            self.level = result.level"))
ref("ok-in", "result", ("        return self.level == Level.INFO or self.level == Level.WARNING", "        return self.level in (Level.INFO, Level.WARNING)"))
ref("ok-neg", "result", ("        return self.level == Level.INFO or self.level == Level.WARNING", "        return self.level.value < Level.ERROR.value"))
ref("lines-helper", "result", ('        ENDC = "\\033[0m"\n        yield "   " * indent + self.level.color() + self.message + ENDC\n', '        yield self._format_line(indent)\n'),
    ("    def _to_html(self, level: int) -> str:", '    def _format_line(self, indent: int) -> str:\n        end_color = "\\033[0m"\n        return f"{\'   \' * indent}{self.level.color()}{self.message}{end_color}"\n\n    def _to_html(self, level: int) -> str:'))
ref("html-parts", "result", lambda s: s.replace(between(s, "        cls = {\n", "    def to_html"), '''        cls = self.level.name.lower()
        msg = html.escape(self.message)
        parts = ["<div>\\n"]
        if not self.sub_results:
            parts.append(f'<div class="{cls}">{msg}</div>\\n')
        else:
            is_ok = self.ok()
            caret = "" if is_ok else "caret-down"
            visible = "" if is_ok else "visible"
            parts.append(f'<div class="{cls}">{msg}<span class="caret level-{level} {caret}"/></div>\\n')
            parts.append(f'<div class="sub-results {visible}">\\n')
            parts.extend(sub._to_html(level + 1) for sub in self.sub_results)
            parts.append("</div>\\n")
        parts.append("</div>\\n")
        return "".join(parts)

'''))
ref("todict-loop", "result", ('        return {\n            "m": self.message,\n            "l": self.level.value,\n            "s": [i.to_dict() for i in self.sub_results],\n        }', '        children = []\n        for child in self.sub_results:\n            children.append(child.to_dict())\n        return dict(m=self.message, l=self.level.value, s=children)'))
ref("fromjson-map", "result", ('        v = AasTestResult(data["m"], Level(data["l"]))\n        for i in data["s"]:\n            v.append(AasTestResult.from_json(i))\n        return v', '        result = AasTestResult(data["m"], Level(data["l"]))\n        children = [self.from_json(child) for child in data["s"]]\n        for child in children:\n            result.append(child)\n        return result'))
ref("exit-helper", "result", lambda s: s.replace(between(s, "        if exc_val is None:\n", "class ResultException"), '''        if exc_val is None:
            self._attach()
            return None
        if isinstance(exc_val, ResultException):
            self.result.append(exc_val.result)
        elif self.catch_all_exceptions:
            self.result.append(AasTestResult(f"Internal error: {exc_val}", Level.CRITICAL))
        else:
            return False
        self._attach()
        return True

    def _attach(self):
        if managers:
            managers[-1].result.append(self.result)


'''))
ref("write-current", "result", ('    if not managers:\n        raise RuntimeError("No open context")\n    message = _as_result(message, Level.INFO)\n    managers[-1].result.append(message)', '    try:\n        current = managers[-1]\n    except IndexError:\n        raise RuntimeError("No open context")\n    current.result.append(_as_result(message, Level.INFO))'))
# ------------------------------------------------------------------ http
ref("http-url-join", "http", ('        url = self.path\n        query_params = {k: v for k, v in self.query_parameters.items() if v is not None}\n        if query_params:\n            url += "?" + urlencode(query_params)\n        return url', '        query_params = [(k, v) for k, v in self.query_parameters.items() if v is not None]\n        if not query_params:\n            return self.path\n        return f"{self.path}?{urlencode(query_params)}"'))
ref("http-helpers", "http", lambda s: s.replace(between(s, "        if request.body is None:", None), '''        body = None if request.body is None else json.dumps(request.body)
        headers = dict(self.additional_headers)
        headers.update(request.headers)
        return requests.request(
            method=request.method,
            url=self._host() + self._strip_prefix("".join(self.prefixes) + request.make_url()),
            data=body,
            headers=headers,
            verify=self.verify,
        )

    def _host(self) -> str:
        return self.host[:-1] if self.host.endswith("/") else self.host

    def _strip_prefix(self, url: str) -> str:
        prefix = self.remove_path_prefix
        if url == prefix:
            return ""
        if url.startswith(prefix) and url[len(prefix)] == "/":
            return url[len(prefix):]
        return url
'''))
ref("http-descend", "http", ("        result = HttpClient(self.host, self.verify, self.remove_path_prefix, self.additional_headers)\n        result.prefixes = self.prefixes + [prefix]\n        return result", "        child = HttpClient(\n            host=self.host,\n            verify=self.verify,\n            remove_path_prefix=self.remove_path_prefix,\n            additional_headers=self.additional_headers,\n        )\n        child.prefixes = [*self.prefixes, prefix]\n        return child"))
ref("http-loop-prefix", "http", ('        url = "".join(self.prefixes) + request.make_url()', '        url = ""\n        for prefix in self.prefixes:\n            url += prefix\n        url += request.make_url()'))
# ------------------------------------------------------------------ config
ref("filter-helper", "config", lambda s: s.replace(between(s, "        self.includes = [", "    def selects"), '''        self.includes = self._compile(include_pattern)
        self.excludes = self._compile(exclude_pattern)

    def _compile(self, patterns: str):
        result = []
        for pattern in patterns.split(self.PATTERN_SEP):
            if not pattern.strip():
                continue
            result.append(re.compile(fnmatch.translate(pattern)))
        return result

'''))
ref("filter-partition", "config", lambda s: s.replace(between(s, "        tokens = filter_pattern", "        self.includes"), '''        if filter_pattern.count(self.FILTER_SEP) > 1:
            raise InvalidFilterException(f"Separator {self.FILTER_SEP} must only occur once")
        include_pattern, _, exclude_pattern = filter_pattern.partition(self.FILTER_SEP)
'''))
ref("filter-select", "config", lambda s: s.replace(between(s, "        if self.includes and not", "@dataclass"), '''        def matches(patterns):
            for pattern in patterns:
                if pattern.match(test_case):
                    return True
            return False

        included = not self.includes or matches(self.includes)
        return included and not matches(self.excludes)


'''))
# ------------------------------------------------------------------ api
ref("api-versions", "api", ('    version = conf.version or _DEFAULT_VERSION\n    if version != _DEFAULT_VERSION:\n        raise', '    version = conf.version if conf.version else latest_version()\n    if version not in supported_versions():\n        raise'))
# ------------------------------------------------------------------ opc
ref("normpath-rewrite", "opc", lambda s: s.replace(between(s, "    path = path.strip()\n", "def splitpath"), '''    path = path.strip()
    if not path:
        return ""
    stack: List[str] = []
    for token in path.split("/"):
        if token == "..":
            del stack[-1:]
        elif token.strip() and token != ".":
            stack.append(token)
    prefix = "/" if path[0] == "/" else ""
    return prefix + "/".join(stack)


'''))
ref("splitpath-rfind", "opc", ('    prefix, _, suffix = path.rpartition("/")\n    return prefix, suffix', '    idx = path.rfind("/")\n    if idx < 0:\n        return "", path\n    return path[:idx], path[idx + 1 :]'))
ref("subrels-loop", "opc", ("        return [i for i in self.sub_rels if i.type == type]", "        result = []\n        for rel in self.sub_rels:\n            if rel.type != type:\n                continue\n            result.append(rel)\n        return result"))
ref("content-types-helper", "opc", lambda s: s.replace(between(s, "    try:\n        with zipfile.open(content_types_xml", "def _scan_relationships"), '''    try:
        with zipfile.open(content_types_xml, "r") as f:
            root = ElementTree.parse(f).getroot()
    except KeyError:
        result.append(AasTestResult(f"{content_types_xml} not found", Level.ERROR))
        return result
    except (ElementTree.ParseError, LookupError, ValueError) as e:
        result.append(AasTestResult(f"Invalid XML in {content_types_xml}: {e}", Level.ERROR))
        return result
    expected_tag = f"{NS_CONTENT_TYPES}Types"
    if root.tag != expected_tag:
        result.append(AasTestResult(f"root must have tag {expected_tag}, got {root.tag}", Level.ERROR))
    return result


'''))
ref("scan-helpers", "opc", lambda s: s.replace(between(s, "        if target.startswith(\"/\"):", "        sub_dir, sub_file"), '''        target = _resolve_target(dir, target)

''').replace("def _scan_relationships(", '''def _resolve_target(dir: str, target: str) -> str:
    if target.startswith("/"):
        return normpath(target[1:])
    return normpath(dir + target)


def _scan_relationships(''', 1))
ref("scan-loop-helper", "opc", lambda s: s.replace("    for idx, rel in enumerate(relationships):", "    names = set(zipfile.namelist())\n    for rel in relationships:").replace("not in zipfile.namelist()", "not in names"))
ref("scan-attr-get", "opc", lambda s: s.replace(between(s, "        if type in deprecated_types:", "        if target.startswith"), '''        new_type = deprecated_types.get(type)
        if new_type is not None:
            message = f"Deprecated type {type}, considering as {new_type}"
            result.append(AasTestResult(message, level=Level.WARNING))
            type = new_type

'''))
ref("scan-split-function", "opc", lambda s: s.replace(between(s, "        sub_dir, sub_file = splitpath(target)\n", "    return result\n\n\ndef _check_relationships"), '''        _visit(zipfile, parent_rel, Relationship(type, target), result, visited_targets, deprecated_types)

''').replace("def _check_relationships(", '''def _visit(zipfile, parent_rel, sub_rel, result, visited_targets, deprecated_types) -> None:
    target = sub_rel.target
    sub_dir, sub_file = splitpath(target)
    result.append(AasTestResult(f"Relationship {sub_rel.target} is of type {sub_rel.type}", Level.INFO))
    parent_rel.sub_rels.append(sub_rel)
    if target in visited_targets:
        result.append(AasTestResult(f"Already checked {target}", Level.INFO))
        return
    visited_targets.add(target)
    if target not in zipfile.namelist():
        result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
        return
    if sub_dir:
        sub_dir += "/"
    r = _scan_relationships(zipfile, sub_rel, sub_dir, sub_file, visited_targets, deprecated_types)
    if r is not None:
        result.append(r)


def _check_relationships(''', 1))
ref("check-rels-none", "opc", lambda s: s.replace('''    r = _scan_relationships(zipfile, root_rel, "", "", visited_targets, deprecated_types)
    if r:
        result.append(r)
    else:
        result.append(AasTestResult(f"Root relationship does not exist", Level.ERROR))
''', '''    r = _scan_relationships(zipfile, root_rel, "", "", set(), deprecated_types)
    if r is None:
        r = AasTestResult("Root relationship does not exist", Level.ERROR)
    result.append(r)
''').replace("    visited_targets = set()\n", ""))
ref("read-opc-flat", "opc", lambda s: s.replace(between(s, "    root_result.append(_check_content_type", None), '''    content_types = _check_content_type(zipfile)
    root_result.append(content_types)
    if root_result.ok():
        root_result.append(_check_relationships(zipfile, root_rel, deprecated_types))
'''))
# ------------------------------------------------------------------ file
ref("file-spec-helper", "file", lambda s: s.replace(between(s, "            sub_result = AasTestResult(f\"Checking {aasx_spec.target}\")", "    return result\n\n\ndef check_aasx_data"), '''            try:
                sub_result = _check_spec(zipfile, aasx_spec.target, version)
            except KeyError:
                return AasTestResult("File does not exist")
            result.append(sub_result)
''').replace("def _check_files(", '''def _check_spec(zipfile: zipfile.ZipFile, target: str, version: str) -> AasTestResult:
    sub_result = AasTestResult(f"Checking {target}")
    with zipfile.open(target) as f:
        if target.endswith(".json"):
            sub_result.append(check_json_file(f, version))
        elif target.endswith(".xml"):
            sub_result.append(check_xml_file(f, version))
        else:
            sub_result.append(AasTestResult("Unknown filetype", Level.WARNING))
    return sub_result


def _check_files(''', 1))
ref("file-guard", "file", lambda s: s.replace('''    if not result.ok():
        return result
    result.append(_check_files(zipfile, root_rel, version))
    if not result.ok():
        return result

    return result''', '''    if result.ok():
        result.append(_check_files(zipfile, root_rel, version))
    return result'''))
ref("file-json", "file", lambda s: s.replace('''    result, obj = json_to_obj(data, model_type)
    return result''', '''    return json_to_obj(data, model_type)[0]''').replace("        data = json.load(file)", "        data = json.loads(file.read())"))
ref("file-with-zip", "file", lambda s: s.replace(between(s, "    try:\n        zip = zipfile", None), '''    try:
        archive = zipfile.ZipFile(file)
        damaged = archive.testzip()
    except (zipfile.BadZipFile, zlib.error, RuntimeError, ValueError, EOFError, OSError) as e:
        return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
    if damaged:
        return AasTestResult(f"Cannot read: {damaged} is damaged", level=Level.ERROR)
    return check_aasx_data(archive, version)
'''))
# ------------------------------------------------------------------ main
ref("main-report", "__main__", lambda s: s.replace(between(s, "    if args.output == OutputFormats.TEXT:", "def run_api_test"), "    _report(result, args.output)\n\n\n").replace(between(s[s.index("result, mat = "):], "    if args.output == OutputFormats.TEXT:", "def generate_files"), "    _report(result, args.output)\n\n\n").replace("def run_file_test(argv)", '''def _report(result, output):
    if output == OutputFormats.TEXT:
        result.dump()
    elif output == OutputFormats.HTML:
        print(result.to_html())
    elif output == OutputFormats.JSON:
        print(json.dumps(result.to_dict()))
    else:
        raise Exception(f"Invalid output {output}")
    if result.ok():
        sys.exit(0)
    sys.exit(1)


def run_file_test(argv)'''))
ref("main-header", "__main__", lambda s: s.replace(between(s, "    try:\n        key, value = s.split", "def run_file_test"), '''    if ":" not in s:
        raise argparse.ArgumentTypeError(f"Invalid format for header:value: '{s}'")
    key, _, value = s.partition(":")
    return key.strip(), value.strip()


'''))
ref("main-suite", "__main__", lambda s: s.replace(between(s, "    try:\n        available_suites", "    client = http.HttpClient("), '''    versions = api.supported_versions()
    if args.version not in versions:
        sys.stderr.write(f"Unknown version, must be one of {versions.keys()}\\n")
        sys.exit(1)
    suite = _find_suite(args.suite, versions[args.version])

''').replace("def run_api_test(argv)", '''def _find_suite(name, available_suites):
    suites = list(filter(lambda i: name in i, available_suites))
    if len(suites) == 1:
        return suites[0]
    if not suites:
        sys.stderr.write(f"Unknown suite '{name}', must be one of:\\n")
        suites = available_suites
    else:
        sys.stderr.write(f"Substring '{name}' is not unique, covers:\\n")
    for i in suites:
        sys.stderr.write(f" - {i}\\n")
    sys.exit(1)


def run_api_test(argv)'''))
ref("main-table", "__main__", lambda s: s.replace(between(s, "    elif args.format == InputFormats.json:", "    if args.output"), '''    else:
        checkers = {InputFormats.json: file.check_json_file, InputFormats.xml: file.check_xml_file}
        result = checkers[args.format](args.file, model_type=args.model_type)
'''))
# ------------------------------------------------------------------ data types
ref("dt-date-days", "data_types", lambda s: s.replace(between(s, "    if month == 2:\n        max_days = 29", "def _construct_matches_xs_date_time()"), '''    return day <= _days_in_month(month, year)


'''))
ref("dt-leap", "data_types", lambda s: s.replace(between(s, "    if year % 4 > 0:", "_DAYS_IN_MONTH: Mapping"), '''    return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)


'''))
ref("dt-bounded", "data_types", lambda s: s.replace('''    try:
        # int(s) refuses texts with more than 4300 digits
        v = Decimal(s)
        return v >= min and v <= max
    except ValueError:
        return False''', '''    return min <= Decimal(s) <= max'''))
ref("dt-double", "data_types", lambda s: s.replace('''    try:
        v = float(s)
        return v > min and v < max
    except ValueError:
        return False''', '''    return min < float(s) < max''').replace('if s in ["INF", "-INF", "NaN"]:', 'if s == "NaN" or s == "INF" or s == "-INF":'))
ref("dt-hex", "data_types", ('    return re.fullmatch(r"([0-9a-fA-F]{2})*", s) is not None', '    return len(s) % 2 == 0 and all(c in "0123456789abcdefABCDEF" for c in s)'))
ref("dt-gmonthday", "data_types", lambda s: s.replace('''    month = int(s[2:4])
    day = int(s[5:7])

    max_days = _DAYS_IN_MONTH[month]
    return day <= max_days''', '''    month, day = s[2:7].split("-")
    return int(day) <= _DAYS_IN_MONTH[int(month)]'''))
ref("dt-lambda-helper", "data_types", lambda s: s.replace('''lambda s: _is_bounded_integer(s, -128, 127)''', "is_byte").replace("class DataTypeDefXsd", "def is_byte(s: str) -> bool:\n    return _is_bounded_integer(s, -(2**7), 2**7 - 1)\n\n\nclass DataTypeDefXsd", 1).replace('lambda x: x in {"true", "false", "1", "0"}', 'lambda x: x in ("true", "false", "1", "0")'))
ref("dt-tz-shared", "data_types", lambda s: s.replace('    timezone_frag = f"(Z|(\\\\+|-)((0{digit}|1[0-3]):{minute_frag}|14:00))"\n', '    timezone_frag = _TIMEZONE\n').replace("def _construct_matches_xs_date()", '_TIMEZONE = "(Z|[+-]((0[0-9]|1[0-3]):[0-5][0-9]|14:00))"\n\n\ndef _construct_matches_xs_date()', 1))
ref("dt-datetime-split", "data_types", lambda s: s.replace('    date, _ = s.split("T")\n    return is_xs_date(date)', '    return is_xs_date(s.partition("T")[0])'))
ref("dt-b64", "data_types", lambda s: s.replace('    return base64.urlsafe_b64encode(s.encode()).decode().strip("=")', '    encoded = base64.b64encode(s.encode("utf-8")).decode("ascii")\n    return encoded.replace("+", "-").replace("/", "_").rstrip("=")'))
ref("dt-english", "data_types", lambda s: s.replace('    return _REGEX_IS_BCP_47_FOR_ENGLISH.fullmatch(text) is not None', '    if _REGEX_IS_BCP_47_FOR_ENGLISH.fullmatch(text):\n        return True\n    return False'))
ref("dt-year-check", "data_types", lambda s: s.replace('''    if day <= 0:
        return False
    if month <= 0 or month >= 13:
        return False

''', ""))
# ------------------------------------------------------------------ reflect
ref("rf-unwrap", "reflect", lambda s: s.replace('''    try:
        origin = cls.__origin__
    except AttributeError:
        return True, cls
    if origin is not Union:''', '''    if getattr(cls, "__origin__", None) is not Union:'''))
ref("rf-string-checks", "reflect", lambda s: s.replace(between(s, "        if self.min_length is not None:", "    def __eq__(self, other: \"StringFormattedValue\")"), '''        length = len(raw_value)
        if self.min_length is not None and length < self.min_length:
            raise ValueError(f"String is shorter than {self.min_length} characters")
        if self.max_length is not None and length > self.max_length:
            raise ValueError(f"String is longer than {self.max_length} characters")
        if not _XML_SERIALIZABLE.fullmatch(raw_value):
            raise ValueError("Constraint AASd-130 violated: String is not XML serializable")
        if self.pattern and not re.fullmatch(self.pattern, raw_value):
            raise ValueError(f"String '{raw_value}' does not match pattern {self.pattern}")

''').replace("class StringFormattedValue:", '_XML_SERIALIZABLE = re.compile(r"[\\x09\\x0a\\x0d\\x20-\\ud7ff\\ue000-\\ufffd\\U00010000-\\U0010ffff]*")\n\n\nclass StringFormattedValue:', 1))
ref("rf-str", "reflect", ("        if self.base64:\n            return base64_urlsafe(self.raw_value)\n        else:\n            return self.raw_value", "        return base64_urlsafe(self.raw_value) if self.base64 else self.raw_value"))
ref("rf-class-meta", "reflect", lambda s: s.replace('''        required, field_type = _unwrap_optional(field.type)
        try:
            exclude_as = field.metadata["exclude_as"]
            static_attrs[field.name] = exclude_as
            continue
        except KeyError:
            pass
''', '''        if "exclude_as" in field.metadata:
            static_attrs[field.name] = field.metadata["exclude_as"]
            continue
        required, field_type = _unwrap_optional(field.type)
'''))
ref("rf-class-subs", "reflect", lambda s: s.replace('''    subclasses: List[TypeBase] = []
    for subclass in _collect_subclasses(cls):
        subclasses.append(UnresolvedType(subclass))
        _reflect(subclass, globals, locals, symbol_table)
    return ClassType(cls, attrs, static_attrs, subclasses)''', '''    concrete = list(_collect_subclasses(cls))
    for subclass in concrete:
        _reflect(subclass, globals, locals, symbol_table)
    return ClassType(cls, attrs, static_attrs, [UnresolvedType(i) for i in concrete])'''))
ref("rf-lookup", "reflect", lambda s: s.replace(between(s, "        matches = [type for name", "    def _resolve"), '''        suffix = f".{type_name}'>"
        matches = []
        for name, type in self.symbols.items():
            if name.endswith(suffix):
                matches.append(type)
        if not matches:
            raise ValueError(f"{type_name} not found")
        if len(matches) > 1:
            raise ValueError(f"{type_name} is ambiguous")
        return matches[0]

'''))
ref("rf-reflect-in", "reflect", lambda s: s.replace(between(s, "    try:\n        return symbol_table.symbols[key]", "def _reflect_unsafe"), '''    if key not in symbol_table.symbols:
        # Avoid infinite recursion if _reflect_unsafe calls itself again
        symbol_table.symbols[key] = None
        symbol_table.symbols[key] = _reflect_unsafe(cls, globals, locals, symbol_table)
    return symbol_table.symbols[key]


'''))
ref("rf-leaf-table", "reflect", lambda s: s.replace(between(s, "        elif cls is bool:", "        elif isinstance(cls, Enum.__class__)"), '''        for leaf, leaf_type in _LEAFS:
            if cls is leaf:
                return leaf_type()
        if False:
            pass
''').replace("def _reflect_unsafe(", "_LEAFS = [(bool, BoolType), (str, StringType), (any, AnyType), (int, NumberType), (bytes, BytesType)]\n\n\ndef _reflect_unsafe(", 1))
ref("rf-resolve-helper", "reflect", lambda s: s.replace(between(s, "        for name, symbol in self.symbols.items():\n            if isinstance", "def _reflect_list"), '''        for symbol in self.symbols.values():
            if isinstance(symbol, ClassType):
                for field in symbol.attrs:
                    field.type = self._target(field.type)
                symbol.subclasses = list(map(self._target, symbol.subclasses))
            elif isinstance(symbol, ListType):
                symbol.item_type = self._target(symbol.item_type)

    def _target(self, type):
        assert isinstance(type, UnresolvedType)
        return self.symbols[str(type.ref_cls)]


'''))
ref("rf-fn-args", "reflect", lambda s: s.replace(between(s, "    args: List[FunctionType.Argument] = []", None), '''    args: List[FunctionType.Argument] = []
    for name, annotation in fn.__annotations__.items():
        if name != "return":
            required, arg_type = _unwrap_optional(annotation)
            args.append(FunctionType.Argument(name, _reflect(arg_type, globals, locals, symbol_table), required))
    return FunctionType(fn, r_return_type, args)
'''))
ref("rf-collect-list", "reflect", lambda s: s.replace(between(s, "    for i in cls.__subclasses__():", "class SymbolTable"), '''    result = []
    for subclass in cls.__subclasses__():
        if not is_abstract(subclass):
            result.append(subclass)
        result.extend(_collect_subclasses(subclass))
    return result


'''))

# ------------------------------------------------------------------ second round
ref("r2-level-maxkey", "result", ("        return Level(max(self.value, other.value))", "        return max(self, other, key=lambda level: level.value)"), ("        if self.value == 0:\n            return \"\\033[92m\"\n        if self.value == 1:\n            return \"\\033[93m\"\n        if self.value == 2:\n            return \"\\033[91m\"\n        return \"\\033[94m\"", "        return {\n            Level.INFO: \"\\033[92m\",\n            Level.WARNING: \"\\033[93m\",\n            Level.ERROR: \"\\033[91m\",\n        }.get(self, \"\\033[94m\")"))
ref("r2-lines-stack", "result", ('        ENDC = "\\033[0m"\n        yield "   " * indent + self.level.color() + self.message + ENDC\n        for sub_result in self.sub_results:\n            yield from sub_result.to_lines(indent + 1)', '        ENDC = "\\033[0m"\n        stack = [(indent, self)]\n        while stack:\n            depth, node = stack.pop()\n            yield "   " * depth + node.level.color() + node.message + ENDC\n            for child in reversed(node.sub_results):\n                stack.append((depth + 1, child))'))
ref("r2-lines-list", "result", ('        ENDC = "\\033[0m"\n        yield "   " * indent + self.level.color() + self.message + ENDC\n        for sub_result in self.sub_results:\n            yield from sub_result.to_lines(indent + 1)', '        lines = ["{}{}{}{}".format("   " * indent, self.level.color(), self.message, "\\033[0m")]\n        for sub_result in self.sub_results:\n            lines += list(sub_result.to_lines(indent + 1))\n        return lines'))
ref("r2-html-join", "result", lambda s: s.replace("            for sub_result in self.sub_results:\n                s += sub_result._to_html(level + 1)\n", '            s += "".join([child._to_html(level + 1) for child in self.sub_results])\n').replace("        msg = html.escape(self.message)\n", "        msg = html.escape(self.message, quote=True)\n"))
ref("r2-html-module", "result", lambda s: s.replace("import html\n", "from html import escape\n").replace("html.escape(self.message)", "escape(self.message)"))
ref("r2-managers-name", "result", lambda s: s.replace("managers", "_open_scopes"))
ref("r2-exit-try", "result", lambda s: s.replace(between(s, "        m = managers.pop()\n", "class ResultException"), """        scope = managers.pop()
        assert scope is self
        handled = True
        if isinstance(exc_val, ResultException):
            self.result.append(exc_val.result)
        elif exc_val is not None:
            if not self.catch_all_exceptions:
                return False
            self.result.append(AasTestResult("Internal error: " + str(exc_val), Level.CRITICAL))
        else:
            handled = None
        parent = managers[-1] if managers else None
        if parent is not None:
            parent.result.append(self.result)
        return handled


"""))
ref("r2-as-result", "result", ("    if isinstance(message, AasTestResult):\n        return message\n    assert isinstance(message, str)\n    return AasTestResult(message, level=level)", "    if not isinstance(message, AasTestResult):\n        assert isinstance(message, str)\n        message = AasTestResult(message, level)\n    return message"), ("    result = _as_result(message, Level.ERROR)\n    raise ResultException(result)", "    raise ResultException(_as_result(message, Level.ERROR))"))
ref("r2-result-slots", "result", lambda s: s.replace("        self.sub_results: List[AasTestResult] = []\n", "        self.sub_results: List[AasTestResult] = list()\n").replace("    def append(self, result: \"AasTestResult\"):\n        self.sub_results.append(result)\n        self.level = self.level | result.level\n", "    def append(self, result: \"AasTestResult\"):\n        self.sub_results += [result]\n        self.level |= result.level\n"))
ref("r2-http-session", "http", ("        return requests.request(\n            url=host + url,\n            method=request.method,\n            data=body,\n            headers={**self.additional_headers, **request.headers},\n            verify=self.verify,\n        )", "        headers = self.additional_headers.copy()\n        headers.update(request.headers)\n        with requests.Session() as session:\n            return session.request(request.method, host + url, data=body, headers=headers, verify=self.verify)"))
ref("r2-http-import", "http", lambda s: s.replace("import requests\n", "from requests import request as http_request\n").replace("requests.request(\n            url=host + url,\n            method=request.method,\n            data", "http_request(\n            request.method,\n            host + url,\n            data"))
ref("r2-http-prefix", "http", lambda s: s.replace(between(s, "        if url.startswith(self.remove_path_prefix)", "        return requests.request"), """        prefix = self.remove_path_prefix
        rest = url[len(prefix):] if url.startswith(prefix) else None
        if rest is not None and (not rest or rest.startswith("/")):
            url = rest

"""))
ref("r2-http-loop", "http", lambda s: s.replace("        query_params = {k: v for k, v in self.query_parameters.items() if v is not None}\n        if query_params:", "        query_params = {}\n        for key in self.query_parameters:\n            if self.query_parameters[key] is None:\n                continue\n            query_params[key] = self.query_parameters[key]\n        if len(query_params) > 0:"))
ref("r2-filter-strings", "config", lambda s: s.replace("[re.compile(fnmatch.translate(i)) for i in include_pattern.split(self.PATTERN_SEP) if i.strip()]", "tuple(i for i in include_pattern.split(self.PATTERN_SEP) if i.strip())").replace("[re.compile(fnmatch.translate(i)) for i in exclude_pattern.split(self.PATTERN_SEP) if i.strip()]", "tuple(i for i in exclude_pattern.split(self.PATTERN_SEP) if i.strip())").replace("i.match(test_case)", "fnmatch.fnmatchcase(test_case, i)"))
ref("r2-filter-private", "config", lambda s: s.replace("self.includes", "self._include_patterns").replace("self.excludes", "self._exclude_patterns"))
ref("r2-filter-unpack", "config", lambda s: s.replace(between(s, "        tokens = filter_pattern", "        self.includes"), """        include_pattern, *rest = filter_pattern.split(self.FILTER_SEP)
        if len(rest) > 1:
            raise InvalidFilterException(f"Separator {self.FILTER_SEP} must only occur once")
        exclude_pattern = rest[0] if rest else ""
"""))
ref("r2-api-table", "api", lambda s: s.replace('    if version != _DEFAULT_VERSION:\n        raise AasTestToolsException(f"Unknown version {version}, must be one of {supported_versions()}")\n    return v3_0.execute_tests(client, conf)', '    try:\n        module = _MODULES[version]\n    except KeyError:\n        raise AasTestToolsException(f"Unknown version {version}, must be one of {supported_versions()}")\n    return module.execute_tests(client, conf)').replace('_DEFAULT_VERSION = "3.0"\n', '_DEFAULT_VERSION = "3.0"\n_MODULES = {_DEFAULT_VERSION: v3_0}\n'))
ref("r2-opc-read", "opc", lambda s: s.replace("            relationships = ElementTree.parse(f).getroot()\n", "            relationships = ElementTree.fromstring(f.read())\n"))
ref("r2-opc-zipread", "opc", lambda s: s.replace('        with zipfile.open(f"{dir}_rels/{file}.rels", "r") as f:\n            relationships = ElementTree.parse(f).getroot()\n', '        relationships = ElementTree.fromstring(zipfile.read(f"{dir}_rels/{file}.rels"))\n'))
ref("r2-opc-exists", "opc", lambda s: s.replace("        if target not in zipfile.namelist():\n", "        if not _exists(zipfile, target):\n").replace("def _scan_relationships(", "def _exists(zipfile, name: str) -> bool:\n    return name in zipfile.namelist()\n\n\ndef _scan_relationships(", 1))
ref("r2-opc-getinfo", "opc", lambda s: s.replace("        if target not in zipfile.namelist():\n", "        if not _exists(zipfile, target):\n").replace("def _scan_relationships(", "def _exists(zipfile, name: str) -> bool:\n    try:\n        zipfile.getinfo(name)\n    except KeyError:\n        return False\n    return True\n\n\ndef _scan_relationships(", 1))
ref("r2-opc-dataclass", "opc", lambda s: s.replace(between(s, "class Relationship:\n", "    def sub_rels_by_type"), """@dataclass(eq=False)
class Relationship:
    type: str
    target: str
    sub_rels: List["Relationship"] = field(default_factory=list)

""").replace("import zipfile\n", "import zipfile\nfrom dataclasses import dataclass, field\n", 1))
ref("r2-opc-else", "opc", lambda s: s.replace(between(s, "        if target in visited_targets:", "    return result\n\n\ndef _check_relationships"), """        if target in visited_targets:
            result.append(AasTestResult(f"Already checked {target}", Level.INFO))
        else:
            visited_targets.add(target)
            if target in zipfile.namelist():
                sub_dir = f"{sub_dir}/" if sub_dir else ""
                r = _scan_relationships(zipfile, sub_rel, sub_dir, sub_file, visited_targets, deprecated_types)
                if r:
                    result.append(r)
            else:
                result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))

"""))
ref("r2-opc-attr", "opc", lambda s: s.replace(between(s, "        try:\n            type = rel.attrib[\"Type\"]", "        if type in deprecated_types"), """        missing = [name for name in ("Type", "Target") if name not in rel.attrib]
        if missing:
            result.append(AasTestResult(f"Attribute '{missing[0]}' is missing", Level.ERROR))
            continue
        type, target = rel.attrib["Type"], rel.attrib["Target"]

"""))
ref("r2-opc-normpath", "opc", lambda s: s.replace(between(s, "    path = path.strip()\n", "def splitpath"), """    path = path.strip()
    absolute = path.startswith("/")
    kept: List[str] = []
    for token in path.split("/"):
        if token == "..":
            kept = kept[:-1]
            continue
        if token != "." and token.strip() != "":
            kept += [token]
    joined = "/".join(kept)
    return f"/{joined}" if absolute else joined


"""))
ref("r2-opc-root", "opc", lambda s: s.replace('    visited_targets = set()\n    r = _scan', '    visited_targets: Set[str] = set()\n    r = _scan').replace("    if r:\n        result.append(r)\n    else:\n        result.append(AasTestResult(f\"Root", "    if r is not None:\n        result.append(r)\n    else:\n        result.append(AasTestResult(f\"Root"))
ref("r2-file-table", "file", lambda s: s.replace(between(s, "                    if aasx_spec.target.endswith(\".xml\"):", "                    sub_result.append(r)"), """                    for suffix, checker in ((".xml", check_xml_file), (".json", check_json_file)):
                        if aasx_spec.target.endswith(suffix):
                            r = checker(f, version)
                            break
                    else:
                        r = AasTestResult("Unknown filetype", Level.WARNING)
"""))
ref("r2-file-flat", "file", lambda s: s.replace("    for aasx_origin in origin_rels:\n        spec_rels = aasx_origin.sub_rels_by_type(TYPE_AASX_SPEC)\n", "    specs_by_origin = [origin.sub_rels_by_type(TYPE_AASX_SPEC) for origin in origin_rels]\n    for spec_rels in specs_by_origin:\n"))
ref("r2-file-helper", "file", lambda s: s.replace("    return check_json_data(data, version, model_type)", "    return check_json_data(data, version=version, model_type=model_type)").replace("    return check_xml_data(data, version, model_type)", "    return check_xml_data(data, model_type=model_type)").replace("        data = ElementTree.fromstring(file.read())", "        content = file.read()\n        data = ElementTree.fromstring(content)"))
ref("r2-file-opc-import", "file", lambda s: s.replace("from .opc import Relationship, read_opc", "from . import opc").replace("root_rel: Relationship", "root_rel: opc.Relationship").replace("Relationship(\"ROOT\", \"/\")", "opc.Relationship(\"ROOT\", \"/\")").replace("    read_opc(", "    opc.read_opc("))
ref("r2-file-api-import", "file", lambda s: s.replace("from aas_test_engines.test_cases.v3_0 import json_to_obj, xml_to_obj", "from aas_test_engines.test_cases import v3_0").replace(" json_to_obj(", " v3_0.json_to_obj(").replace(" xml_to_obj(", " v3_0.xml_to_obj("))
ref("r2-main-exit", "__main__", lambda s: s.replace("    sys.exit(0 if result.ok() else 1)", "    raise SystemExit(int(not result.ok()))"))
ref("r2-main-parser", "__main__", lambda s: s.replace('    parser.add_argument(\n        "--output",\n        type=OutputFormats,\n        default=OutputFormats.TEXT,\n        choices=list(OutputFormats),\n    )\n', '    _add_output(parser)\n').replace("def run_file_test(argv)", 'def _add_output(parser):\n    parser.add_argument("--output", type=OutputFormats, default=OutputFormats.TEXT, choices=list(OutputFormats))\n\n\ndef run_file_test(argv)', 1))
ref("r2-main-split", "__main__", lambda s: s.replace(between(s, "    if args.format == InputFormats.aasx:", "    if args.output"), "    result = _check(args)\n").replace("def run_file_test(argv)", '''def _check(args):
    if args.format == InputFormats.json:
        return file.check_json_file(args.file, model_type=args.model_type)
    if args.format == InputFormats.xml:
        return file.check_xml_file(args.file, model_type=args.model_type)
    if args.format != InputFormats.aasx:
        raise Exception(f"Invalid format {args.format}")
    if args.model_type != "Environment":
        raise Exception("Cannot set --model_type for --format aasx")
    return file.check_aasx_file(args.file)


def run_file_test(argv)''', 1))
ref("r2-main-imports", "__main__", lambda s: s.replace("from aas_test_engines import api, config, file, http\n", "from aas_test_engines import api, file\nfrom aas_test_engines.config import CheckApiConfig, TestCaseFilter\nfrom aas_test_engines.http import HttpClient\n").replace("http.HttpClient(", "HttpClient(").replace("config.CheckApiConfig(", "CheckApiConfig(").replace("config.TestCaseFilter", "TestCaseFilter"))
ref("r2-main-importfn", "__main__", lambda s: s.replace("from aas_test_engines import api, config, file, http\n", "from aas_test_engines import api, config, http\nfrom aas_test_engines.file import check_aasx_file, check_json_file, check_xml_file\n").replace("file.check_", "check_"))
ref("r2-main-dispatch", "__main__", lambda s: s.replace(between(s, "    command = sys.argv[1]\n", 'if __name__'), '''    command, *remaining_args = sys.argv[1:]
    handler = commands.get(command)
    if handler is None:
        print(f"Unknown command '{command}', must be one of {', '.join(commands)}")
        sys.exit(1)
    handler(remaining_args)


'''))
ref("r2-dt-table", "data_types", lambda s: s.replace('''    DataTypeDefXsd.byte: lambda s: _is_bounded_integer(s, -128, 127),
    DataTypeDefXsd.short: lambda s: _is_bounded_integer(s, -32768, 32767),
''', '''    DataTypeDefXsd.byte: _signed(8),
    DataTypeDefXsd.short: _signed(16),
''').replace("validators = {", '''def _signed(bits: int):
    limit = 2 ** (bits - 1)

    def check(s: str) -> bool:
        return _is_bounded_integer(s, -limit, limit - 1)

    return check


validators = {''', 1))
ref("r2-dt-partial", "data_types", lambda s: s.replace("lambda s: _is_bounded_integer(s, 0, 255)", "partial(_is_bounded_integer, min=0, max=255)").replace("import base64\n", "import base64\nfrom functools import partial\n", 1))
ref("r2-dt-regex", "data_types", lambda s: s.replace('lambda x: re.fullmatch(r"--(0[1-9]|1[0-2])(Z|(\\+|-)((0[0-9]|1[0-3]):[0-5][0-9]|14:00))?", x)\n    is not None', '_matcher(r"--(0[1-9]|1[0-2])" + _TIMEZONE)').replace("validators = {", '''_TIMEZONE = r"(Z|[+-]((0[0-9]|1[0-3]):[0-5][0-9]|14:00))?"


def _matcher(pattern: str):
    regex = re.compile(pattern)
    return lambda s: regex.fullmatch(s) is not None


validators = {''', 1))
ref("r2-dt-calendar", "data_types", lambda s: s.replace(between(s, "    if year % 4 > 0:", "_DAYS_IN_MONTH: Mapping"), "    return calendar.isleap(year)\n\n\n").replace("import base64\n", "import base64\nimport calendar\n", 1))
ref("r2-dt-groups", "data_types", lambda s: s.replace('''    year = int(Decimal(match.group(1)))
    month = int(match.group(2))
    day = int(match.group(3))
''', '''    year_text, month_text, day_text = match.groups()
    year = int(Decimal(year_text))
    month, day = int(month_text), int(day_text)
'''))
ref("r2-dt-double", "data_types", lambda s: s.replace(between(s, "    if s in [\"INF\"", "def is_float"), '''    if re.fullmatch(r"[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?", s):
        return min < float(s) < max
    return s in ("INF", "-INF", "NaN")


'''))
ref("r2-dt-integer", "data_types", lambda s: s.replace(between(s, "    if re.fullmatch(r\"[+-]?[0-9]+\", s) is None:", "def is_hex_binary"), '''    if not re.fullmatch(r"[+-]?[0-9]+", s):
        return False
    value = Decimal(s)
    return not (value < min or value > max)


'''))
ref("r2-dt-b64", "data_types", lambda s: s.replace('    return base64.urlsafe_b64encode(s.encode()).decode().strip("=")', '    encoded = base64.urlsafe_b64encode(s.encode("utf-8"))\n    return encoded.rstrip(b"=").decode("ascii")'))
ref("r2-dt-english", "data_types", lambda s: s.replace('    return _REGEX_IS_BCP_47_FOR_ENGLISH.fullmatch(text) is not None', '    return re.fullmatch("(en|EN)(-[^\\n]*)?", text) is not None'))
ref("r2-rf-dataclass", "reflect", lambda s: s.replace(between(s, "class ClassType(TypeBase):\n    class Attribute:\n", "    def __init__(\n        self,\n        cls,\n        attrs: List[Attribute],"), """class ClassType(TypeBase):
    @dataclass
    class Attribute:
        name: str
        type: TypeBase
        required: bool
        force_name: Optional[str]

""").replace("from dataclasses import is_dataclass, fields", "from dataclasses import dataclass, is_dataclass, fields"))
ref("r2-rf-string-methods", "reflect", lambda s: s.replace(between(s, "        if self.min_length is not None:", "    def __eq__(self, other: \"StringFormattedValue\")"), '''        self._check_length(raw_value)
        self._check_characters(raw_value)
        self._check_pattern(raw_value)

    def _check_length(self, raw_value: str) -> None:
        if self.min_length is not None:
            if len(raw_value) < self.min_length:
                raise ValueError(f"String is shorter than {self.min_length} characters")
        if self.max_length is not None:
            if len(raw_value) > self.max_length:
                raise ValueError(f"String is longer than {self.max_length} characters")

    def _check_characters(self, raw_value: str) -> None:
        if not re.fullmatch(r"[\\x09\\x0a\\x0d\\x20-\\ud7ff\\ue000-\\ufffd\\U00010000-\\U0010ffff]*", raw_value):
            raise ValueError("Constraint AASd-130 violated: String is not XML serializable")

    def _check_pattern(self, raw_value: str) -> None:
        if not self.pattern:
            return
        if re.fullmatch(self.pattern, raw_value) is None:
            raise ValueError(f"String '{raw_value}' does not match pattern {self.pattern}")

'''))
ref("r2-rf-late-raw", "reflect", lambda s: s.replace("        self.raw_value = raw_value\n        if self.min_length", "        if self.min_length").replace("                raise ValueError(f\"String '{raw_value}' does not match pattern {self.pattern}\")\n", "                raise ValueError(f\"String '{raw_value}' does not match pattern {self.pattern}\")\n        self.raw_value = raw_value\n"))
ref("r2-rf-leafs", "reflect", lambda s: s.replace(between(s, "        elif cls is bool:", "        elif isinstance(cls, Enum.__class__)"), '''        elif cls in _LEAF_TYPES:
            return _LEAF_TYPES[cls]()
''').replace("def _reflect_unsafe(", "_LEAF_TYPES = {bool: BoolType, str: StringType, any: AnyType, int: NumberType, bytes: BytesType}\n\n\ndef _reflect_unsafe(", 1))
ref("r2-rf-attr-helper", "reflect", lambda s: s.replace('''        force_name = field.metadata.get("force_name", None)
        field_type = _unwrap_forward_ref(field_type, globals, locals)
        attrs.append(ClassType.Attribute(field.name, UnresolvedType(field_type), required, force_name))
        _reflect(field_type, globals, locals, symbol_table)
''', '''        attrs.append(_reflect_attribute(field, field_type, required, globals, locals, symbol_table))
''').replace("def _reflect_class(", '''def _reflect_attribute(field, field_type, required, globals, locals, symbol_table):
    field_type = _unwrap_forward_ref(field_type, globals, locals)
    _reflect(field_type, globals, locals, symbol_table)
    return ClassType.Attribute(field.name, UnresolvedType(field_type), required, field.metadata.get("force_name"))


def _reflect_class(''', 1))
ref("r2-rf-table-api", "reflect", lambda s: s.replace(between(s, "    key = str(cls)\n", "def _reflect_unsafe"), '''    key = symbol_table.key(cls)
    if key in symbol_table.symbols:
        return symbol_table.symbols[key]
    symbol_table.symbols[key] = None
    result = _reflect_unsafe(cls, globals, locals, symbol_table)
    symbol_table.symbols[key] = result
    return result


''').replace("    def lookup(self, type_name):", "    @staticmethod\n    def key(cls) -> str:\n        return str(cls)\n\n    def lookup(self, type_name):"))
ref("r2-rf-collect", "reflect", lambda s: s.replace(between(s, "    for i in cls.__subclasses__():", "class SymbolTable"), '''    for subclass in cls.__subclasses__():
        yield from [] if is_abstract(subclass) else [subclass]
        for nested in _collect_subclasses(subclass):
            yield nested


'''))
ref("r2-rf-function", "reflect", lambda s: s.replace('    return_type = fn.__annotations__.get("return", None)\n', '    annotations = dict(fn.__annotations__)\n    return_type = annotations.pop("return", None)\n').replace('    for key, value in fn.__annotations__.items():\n        if key in ["return"]:\n            continue\n', '    for key, value in annotations.items():\n'))


def apply(scr, file, edits):
    p = f"{scr}/{P}{file}.py"
    s = open(p).read()
    for e in edits:
        t = e(s) if callable(e) else (s.replace(e[0], e[1]) if s.count(e[0]) == 1 else None)
        if t is None or t == s: raise ValueError(f"edit does not apply: {file} {e if callable(e) else e[0]!r}")
        s = t
    compile(s, p, "exec")
    open(p, "w").write(s)


def one(job):
    name, file, edits, prop = job
    scr = f"/tmp/rf{os.getpid()}/{name}"
    v = POOL.get()
    try: r = subprocess.run(["python3-vt", "check.py", prop], cwd=v, env={**os.environ, "VERIF_REPO": scr}, capture_output=True, text=True)
    finally: POOL.put(v)
    bad = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    notes = [l for l in r.stdout.splitlines() if "undecided" in l or "unattached" in l or "not attached" in l]
    return name, prop, r.returncode, bad, notes, r.stderr[-300:] if r.returncode not in (0, 1) else ""


if __name__ == "__main__":
    names = sys.argv[1:]
    shutil.rmtree(f"/tmp/rf{os.getpid()}", ignore_errors=True)
    os.makedirs(f"/tmp/rf{os.getpid()}")
    jobs = []
    for i in range(int(os.environ.get("W", "4"))):
        subprocess.run(["cp", "-a", V, f"/tmp/rf{os.getpid()}/v{i}"], check=True)
        POOL.put(f"/tmp/rf{os.getpid()}/v{i}")
    for name, file, edits in R:
        if names and name not in names and file not in names: continue
        scr = f"/tmp/rf{os.getpid()}/{name}"
        subprocess.run(["cp", "-a", "/repo", scr], check=True)
        apply(scr, file, edits)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "test"], cwd=scr, env={"PATH": "/opt/venv/bin:" + os.environ["PATH"], "HOME": "/root", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": scr}, capture_output=True, text=True)
        tail = t.stdout.strip().splitlines()[-1:]
        print(name, file, "tests:", tail, flush=True)
        jobs += [(name, file, edits, p) for p in DEP[file].split()]
    with cf.ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
        for name, prop, rc, bad, notes, err in ex.map(one, jobs):
            if rc or bad or notes: print("ALARM " if rc else "note  ", name, prop, rc, [b[:120] for b in bad], [n[:140] for n in notes][:3], err, flush=True)
    print("done", len(jobs))
    shutil.rmtree(f"/tmp/rf{os.getpid()}", ignore_errors=True)
