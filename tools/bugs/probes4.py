R, D, H, O, F, C, A, M, X, E_ = "result.py", "data_types.py", "http.py", "opc.py", "file.py", "config.py", "api.py", "__main__.py", "reflect.py", "exception.py"
PROBES = [
("rel-lstrip", "C17", O, "            target = target[1:]\n", "            target = target.lstrip('/')\n"),
("version-digits", "C15,C07", D, '"^(0|[1-9][0-9]*)$"', 'r"^(0|[1-9]\\d*)$"'),
("dt-tail", "C14", D, '    date, _ = s.split("T")\n    return is_xs_date(date)\n\n\ndef _construct_matches_xs_date_time_utc', '    date, _ = s.split("T")\n    return is_xs_date(date[-10:])\n\n\ndef _construct_matches_xs_date_time_utc'),
("utc-tail", "C14", D, '    date, _ = s.split("T")\n    return is_xs_date(date)\n\n\n_DAYS', '    date, _ = s.split("T")\n    return is_xs_date(date[-10:])\n\n\n_DAYS'),
("b64-ws", "C15", D, '({char} ?){{4}}', '({char}\\\\s?){{4}}'),
("h16", "C15", D, 'h16 = "[0-9A-Fa-f]{1,4}"', 'h16 = "[0-9A-Fa-f]{1,5}"'),
("ipv6-last", "C15", D, '(({h16}:){{0,6}}{h16})?::)', '(({h16}:){{0,5}}{h16})?::)'),
("ipvfuture", "C15", D, 'ipvfuture = f"[vV]', 'ipvfuture = f"v'),
("color", "C03", R, '        if self.value == 2:\n', '        if self.value >= 2:\n'),
("no-verify", "C04", M, "verify=not args.no_verify,", "verify=not args.no_verify or args.server.startswith('https://localhost'),"),
("catch-args", "C02", R, 'f"Internal error: {exc_val}"', 'f"Internal error: {exc_val.args[0]}"'),
("naninf", "C13,C11", D, 'if s in ["INF", "-INF", "NaN"]:', 'if s in ["INF", "+INF", "-INF", "NaN"]:'),
("dec-dot", "C13,C11", D, 'r"[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)", s)', 'r"[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]*)", s)'),
("hex-odd", "C15", D, 'r"([0-9a-fA-F]{2})*"', 'r"([0-9a-fA-F]{2}\\s?)*"'),
("leap-1900", "C14", D, "    if year % 400 > 0:", "    if year % 400 > 0 and year > 1582:"),
("year-zero", "C14", D, "    if year == 0:\n        return False\n", ""),
("md-feb", "C14", D, "    max_days = _DAYS_IN_MONTH[month]\n    return day <= max_days", "    max_days = _days_in_month(month, 1)\n    return day <= max_days"),
("gday-tz", "C14", D, 'r"---(0[1-9]|[12][0-9]|3[01])(Z|(\\+|-)((0[0-9]|1[0-3])', 'r"---(0[1-9]|[12][0-9]|3[01])(Z|(\\+|-)((0[0-9]|1[0-4])'),
("dur-frac", "C14", D, '([0-9]+M)([0-9]+(\\.[0-9]+)?S)?|([0-9]+(\\.[0-9]+)?S))))"', '([0-9]+M)([0-9]+(\\.[0-9]+)?S)?|([0-9]+(\\.[0-9]*)?S))))"'),
("time-24", "C14", D, '(24:00:00(\\.0+)?))(Z', '(24:00:00(\\.[0-9]+)?))(Z'),
("ct-root", "C17", O, "            if content_types.getroot().tag != expected_tag:", "            if not content_types.getroot().tag.endswith('Types'):"),
("rel-root", "C17", O, "    if relationships.tag != expected_tag:", "    if relationships.tag.lower() != expected_tag.lower():"),
("rel-depr-map", "C17,C18", O, "            type = new_type\n", "            type = type.replace('//www.', '//')\n"),
("rel-tag-lower", "C17", O, '        if rel.tag != f"{NS_RELATIONSHIPS}Relationship":', '        if rel.tag not in (f"{NS_RELATIONSHIPS}Relationship", "Relationship"):'),
("rel-self", "C17", O, "    visited_targets = set()\n", "    visited_targets = {''}\n"),
("norm-tok", "C16", O, 'if token.strip() == "" or', 'if token.strip(" .") == "" and token != ".." or'),
("files-nodup", "C18", F, "        spec_rels = aasx_origin.sub_rels_by_type(TYPE_AASX_SPEC)\n", "        spec_rels = aasx_origin.sub_rels_by_type(TYPE_AASX_SPEC)[:100]\n"),
("files-first-bad", "C18", F, "                    sub_result.append(r)\n", "                    sub_result.append(r)\n                    if not r.ok():\n                        result.append(sub_result)\n                        return result\n"),
("files-level", "C18", F, "            result.append(sub_result)\n    return result", "            if sub_result.level != Level.WARNING:\n                result.append(sub_result)\n    return result"),
("xml-decl", "C18", F, "ElementTree.fromstring(file.read())", "ElementTree.fromstring(file.read().strip())"),
("json-const", "C18", F, "        data = json.load(file)\n", "        data = json.load(file, parse_constant=lambda _: None)\n"),
("json-dup", "C18", F, "        data = json.load(file)\n", "        data = json.load(file, object_pairs_hook=lambda p: dict(reversed(p)))\n"),
("json-strict", "C18", F, "        data = json.load(file)\n", "        data = json.load(file, strict=False)\n"),
("api-ver", "C23,C04", A, "    version = conf.version or _DEFAULT_VERSION\n", "    version = (conf.version or _DEFAULT_VERSION).strip()\n"),
("filter-semi", "C20", C, "include_pattern.split(self.PATTERN_SEP) if i.strip()", "include_pattern.split(self.PATTERN_SEP) if i.strip('* ') or not exclude_pattern"),
("filter-search", "C20,C23", C, "any(i.match(test_case) for i in self.excludes)", "any(i.match(test_case.split('-')[0]) or i.match(test_case) for i in self.excludes)"),
("str-len-norm", "C07", X, "            if len(raw_value) > self.max_length:", "            if len(raw_value.replace('\\r\\n', '\\n')) > self.max_length:"),
("uri-frag", "C15", D, 'ifragment = f"({ipchar}|[/?])*"', 'ifragment = f"({ipchar}|[/?#])*"'),
("iri-rel", "C15", D, "isegment_nz_nc = f\"({iunreserved}|{pct_encoded}|{sub_delims}|@)+\"", "isegment_nz_nc = f\"({iunreserved}|{pct_encoded}|{sub_delims}|[:@])+\""),
("bcp-ext3", "C15", D, 'extlang = "[a-zA-Z]{3}(-[a-zA-Z]{3}){0,2}"', 'extlang = "[a-zA-Z]{3}(-[a-zA-Z]{3}){0,3}"'),
("bcp-sgn", "C15", D, "sgn-BE-NL|", ""),
("bcp-single", "C15", D, 'singleton = "[0-9A-WY-Za-wy-z]"', 'singleton = "[0-9A-WY-Za-wyz]|Y"'),
]
