C = 'client.py'
BUGS = [
    ('ar: key given', 'C29', [(C, "self.report_callbacks[(report.report_specifier_id, r_id)] = callback", "self.report_callbacks[(report_specifier_id, r_id)] = callback")]),
    ('ar: return given', 'C29', [(C, "        return report.report_specifier_id, r_id\n", "        return report_specifier_id, r_id\n")]),
    ('ar: name only', 'C29', [(C, "        if report_specifier_id:\n            report = utils.find_by(self.reports,\n                                   'report_name', report_name,\n                                   'report_specifier_id', report_specifier_id)\n        else:\n            report =", "        if True:\n            report =")]),
    ('ar: id only', 'C29', [(C, "            report = utils.find_by(self.reports,\n                                   'report_name', report_name,\n                                   'report_specifier_id', report_specifier_id)\n", "            report = utils.find_by(self.reports,\n                                   'report_specifier_id', report_specifier_id)\n")]),
    ('ar: no copy', 'C29', [(C, "item_base = replace(enums.MEASUREMENTS[measurement.upper()])", "item_base = enums.MEASUREMENTS[measurement.upper()]")]),
    ('ar: no copy object', 'C29', [(C, "item_base = replace(measurement)", "item_base = measurement")]),
    ('ar: scale lost', 'C29', [(C, "scale or item_base.scale or enums", "item_base.scale or scale or enums")]),
    ('ar: scale none', 'C29', [(C, "scale or item_base.scale or enums", "scale or enums")]),
    ('ar: any unit', 'C29', [(C, "        elif unit in item_base.acceptable_units:\n", "        elif unit:\n")]),
    ('ar: late mode check', 'C29', [(C, """        if data_collection_mode not in ('incremental', 'full'):
            raise ValueError("The data_collection_mode should be 'incremental' or 'full'.")

""", ""), (C, "        # Add the new report description to the report\n", """        if data_collection_mode not in ('incremental', 'full'):
            raise ValueError("The data_collection_mode should be 'incremental' or 'full'.")

        # Add the new report description to the report
""")]),
    ('ar: callback args any', 'C29', [(C, "if not ('date_from' in args and 'date_to' in args and 'sampling_interval' in args):", "if not ('date_from' in args or 'date_to' in args or 'sampling_interval' in args):")]),
    ('ar: report type unchecked', 'C29', [(C, "if report_type not in enums.REPORT_TYPE.values and not report_type.startswith('x-'):", "if report_type not in enums.REPORT_TYPE.values and report_type.startswith('x-'):")]),
    ('ar: checked against other', 'C29', [(C, "if reading_type not in enums.READING_TYPE.values and", "if reading_type not in enums.REPORT_TYPE.values + enums.READING_TYPE.values and")]),
    ('ar: sampling min only', 'C29', [(C, "objects.SamplingRate(min_period=sampling_rate,\n                                                 max_period=sampling_rate,", "objects.SamplingRate(min_period=sampling_rate,\n                                                 max_period=timedelta(hours=1),")]),
    ('ar: not kept', 'C29', [(C, "                                    dtstart=report_dtstart)\n            self.reports.append(report)\n", "                                    dtstart=report_dtstart)\n            if not self.reports:\n                self.reports.append(report)\n")]),
    ('ar: always new', 'C29', [(C, "        if not report:\n            report_specifier_id = report_specifier_id or utils.generate_id()\n", "        if not report or report_specifier_id:\n            report_specifier_id = report_specifier_id or utils.generate_id()\n")]),
    ('ar: rid ignored', 'C29', [(C, "        r_id = r_id or utils.generate_id()\n", "        r_id = r_id if r_id and len(r_id) > 3 else utils.generate_id()\n")]),
    ('ar: power attrs dropped', 'C29', [(C, "            item_base = replace(measurement)\n", "            item_base = replace(measurement, power_attributes=None)\n")]),
    ('ar: dtstart', 'C29', [(C, "        if report_dtstart is None:\n", "        if report_dtstart is None or True:\n")]),
]
SAME = [
    ('ar: next', 'C29', [(C, """        if report_specifier_id:
            report = utils.find_by(self.reports,
                                   'report_name', report_name,
                                   'report_specifier_id', report_specifier_id)
        else:
            report = utils.find_by(self.reports, 'report_name', report_name)
""", """        report = None
        for candidate in self.reports:
            if candidate.report_name == report_name and (not report_specifier_id or candidate.report_specifier_id == report_specifier_id):
                report = candidate
                break
""")]),
    ('ar: key var', 'C29', [(C, """        self.report_callbacks[(report.report_specifier_id, r_id)] = callback
        report.report_descriptions.append(report_description)
        return report.report_specifier_id, r_id
""", """        report.report_descriptions.append(report_description)
        key = (report.report_specifier_id, r_id)
        self.report_callbacks[key] = callback
        return key
""")]),
    ('ar: helper', 'C29', [(C, "        if report_name not in enums.REPORT_NAME.values and not report_name.startswith('x-'):\n            raise ValueError(f\"{report_name} is not a valid report_name. Valid options are \"\n                             f\"{', '.join(enums.REPORT_NAME.values)}\",\n                             \" or any name starting with 'x-'.\")\n", "        self._check(report_name, enums.REPORT_NAME)\n"), (C, "    def add_hook(self, hook_name", "    @staticmethod\n    def _check(value, enum):\n        if value in enum.values or value.startswith('x-'):\n            return\n        raise ValueError(value)\n\n    def add_hook(self, hook_name")]),
    ('ar: sets', 'C29', [(C, "            if not ('date_from' in args and 'date_to' in args and 'sampling_interval' in args):", "            if any(a not in args for a in ('date_from', 'date_to', 'sampling_interval')):")]),
    ('ar: unit nested', 'C29', [(C, """        if item_base is None or unit is None or unit == item_base.unit:
            pass
        elif unit in item_base.acceptable_units:
            item_base.unit = unit
        else:
            logger""", """        if item_base is not None and unit is not None and unit in item_base.acceptable_units:
            item_base.unit = unit
        elif item_base is not None and unit is not None and unit != item_base.unit:
            logger""")]),
    ('ar: copy', 'C29', [(C, "item_base = replace(measurement)", "item_base = copy.copy(measurement)"), (C, "import asyncio\n", "import asyncio\nimport copy\n")]),
]
