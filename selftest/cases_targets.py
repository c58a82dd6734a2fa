F = 'preflight.py'
U = 'utils.py'
O = 'objects.py'
BUGS = [
    ('group: none counts', 'C19', [(U, "            if value is None:\n                continue\n            if key not in targets_by_type", "            if key not in targets_by_type")]),
    ('group: overwrites', 'C19', [(U, "            targets_by_type[key].append(value)", "            targets_by_type[key] = [value]")]),
    ('group: break', 'C19', [(U, "            if value is None:\n                continue\n            if key not in targets_by_type", "            if value is None:\n                break\n            if key not in targets_by_type")]),
    ('group: unique', 'C19', [(U, "            targets_by_type[key].append(value)", "            if value not in targets_by_type[key]:\n                targets_by_type[key].append(value)")]),
    ('ungroup: first', 'C19', [(U, "            for target in targets:\n                ungrouped_targets.append({target_type: target})", "            for target in targets[:1]:\n                ungrouped_targets.append({target_type: target})")]),
    ('ungroup: one target', 'C19', [(U, "            for target in targets:\n                ungrouped_targets.append({target_type: target})", "            ungrouped_targets.append({target_type: targets})")]),
    ('ungroup: reversed', 'C19', [(U, "            for target in targets:\n                ungrouped_targets.append(", "            for target in targets:\n                ungrouped_targets.insert(0, ")]),
    ('message: list kept', 'C19', [(U, "                    if isinstance(targets[ikey], list):\n                        new_targets.extend(", "                    if isinstance(targets[ikey], tuple):\n                        new_targets.extend(")]),
    ('message: by type of last', 'C19', [(U, "            d['targets_by_type'] = group_targets_by_type(new_targets)", "            d['targets_by_type'] = group_targets_by_type(new_targets[-1:])")]),
    ('event: check dropped', 'C19', [(O, "            if utils.group_targets_by_type(list_of_targets) != self.targets_by_type:", "            if not utils.group_targets_by_type(list_of_targets):")]),
    ('event: keys only', 'C19', [(O, "            if utils.group_targets_by_type(list_of_targets) != self.targets_by_type:", "            if list(utils.group_targets_by_type(list_of_targets)) != list(self.targets_by_type):")]),
    ('opt: check dropped', 'C19', [(O, '''                target) else target for target in self.targets]
            if utils.group_targets_by_type(list_of_targets) != self.targets_by_type:''', '''                target) else target for target in self.targets]
            if not list_of_targets:''')]),
    ('event: first by type', 'C19', [(O, "            self.targets_by_type = utils.group_targets_by_type(list_of_targets)", "            self.targets_by_type = utils.group_targets_by_type(list_of_targets[:1])")]),
    ('event: neither', 'C19', [(O, "            raise ValueError(\"You must supply either 'targets' or 'targets_by_type'.\")", "            self.targets = []")]),
    ('event: first target', 'C19', [(O, "for target in utils.ungroup_targets_by_type(self.targets_by_type)]", "for target in utils.ungroup_targets_by_type(self.targets_by_type)[:1]]")]),
    ('preflight: not made', 'C19', [(F, "        elif 'targets_by_type' in event and 'targets' not in event:\n            event['targets'] =", "        elif 'targets_by_type' in event and 'targets' not in event:\n            targets =")]),
    ('preflight: replaced', 'C19', [(F, "            if utils.group_targets_by_type(event['targets']) != event['targets_by_type']:\n                raise ValueError(\"You assigned both 'targets' and 'targets_by_type' in your event, \"\n                                 \"but the two were not consistent with each other. \"\n                                 f\"You supplied 'targets' = {event['targets']} and \"\n                                 f\"'targets_by_type' = {event['targets_by_type']}\")", "            event['targets'] = utils.ungroup_targets_by_type(event['targets_by_type'])")]),
    ('preflight: first event', 'C19', [(F, "            if utils.group_targets_by_type(event['targets']) != event['targets_by_type']:", "            if utils.group_targets_by_type(message_payload['events'][0]['targets']) != event['targets_by_type']:")]),
]
SAME = [
    ('group: setdefault', 'C19', [(U, "            if value is None:\n                continue\n            if key not in targets_by_type:\n                targets_by_type[key] = []\n            targets_by_type[key].append(value)", "            if value is not None:\n                targets_by_type.setdefault(key, []).append(value)")]),
    ('ungroup: comprehension', 'C19', [(U, "            for target in targets:\n                ungrouped_targets.append({target_type: target})", "            ungrouped_targets.extend([{target_type: target} for target in targets])")]),
    ('message: helper', 'C19', [(U, """            if targets:
                for ikey in targets:
                    if isinstance(targets[ikey], list):
                        new_targets.extend([{ikey: value} for value in targets[ikey]])
                    else:
                        new_targets.append({ikey: targets[ikey]})
""", """            for target_type, values in (targets or {}).items():
                for value in (values if isinstance(values, list) else [values]):
                    new_targets.append({target_type: value})
""")]),
    ('event: reorder', 'C19', [(O, "        if self.targets is None and self.targets_by_type is None:\n            raise ValueError(\"You must supply either 'targets' or 'targets_by_type'.\")\n        elif self.targets_by_type is None:", "        if self.targets is None:\n            if self.targets_by_type is None:\n                raise ValueError(\"You must supply either 'targets' or 'targets_by_type'.\")\n            self.targets = [Target(**t) for t in utils.ungroup_targets_by_type(self.targets_by_type)]\n        elif self.targets_by_type is None:")]),
    ('preflight: nested', 'C19', [(F, "        if 'targets' in event and 'targets_by_type' in event:\n            if utils", "        if 'targets_by_type' not in event:\n            continue\n        if 'targets' in event:\n            if utils"), (F, "        elif 'targets_by_type' in event and 'targets' not in event:", "        else:")]),
]
