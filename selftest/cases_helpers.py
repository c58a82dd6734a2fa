U = 'utils.py'
BUGS = [
    ('fb: only last criterion', 'C28', [(U, "        search_params += [(args[i], args[i+1]) for i in range(0, len(args), 2)]", "        search_params = [(args[i], args[i+1]) for i in range(0, len(args), 2)]")]),
    ('fb: any criterion', 'C28', [(U, "            # This item does not have the given value at the given location\n            break\n        else:\n            return item\n    else:\n        return None", "            # This item does not have the given value at the given location\n            break\n        else:\n            return item\n        if args and hasmember(item, key):\n            return item\n    else:\n        return None")]),
    ('fb: parent missing', 'C28', [(U, "                if not hasmember(_item, key):\n                    break\n                _item = getmember(_item, key)\n            else:", "                if not hasmember(_item, key):\n                    continue\n                _item = getmember(_item, key)\n            else:")]),
    ('fb: first item only', 'C28', [(U, "        else:\n            return item\n    else:\n        return None", "        else:\n            return item\n        return None\n    return None")]),
    ('fb: tuple ignored', 'C28', [(U, "                    if hasmember(_item, key) and getmember(_item, key) in value:\n                        continue", "                    if hasmember(_item, key):\n                        continue")]),
    ('fb: truthy missing', 'C28', [(U, "                elif hasmember(_item, key) and getmember(_item, key) == value:", "                elif not hasmember(_item, key) or getmember(_item, key) == value:")]),
    ('pop: first', 'C28', [(U, "        index = list_.index(item)\n        list_.pop(index)", "        index = list_.index(item)\n        list_.pop(0)")]),
    ('pop: none', 'C28', [(U, "        index = list_.index(item)\n        list_.pop(index)", "        list_ = [i for i in list_ if i is not item]")]),
    ('group: overwrite', 'C28', [(U, "        if value not in grouped:\n            grouped[value] = []\n", "        grouped[value] = []\n")]),
    ('group: last key', 'C28', [(U, "        for key in key_path:\n            value = value.get(key)\n", "        value = value.get(key_path[-1])\n")]),
    ('group: prepend', 'C28', [(U, "        grouped[value].append(item)", "        grouped[value].insert(0, item)")]),
    ('get: default none', 'C28', [(U, "                return obj.get(member, missing)", "                return obj.get(member)")]),
    ('get: default wins', 'C28', [(U, "            if not missing == '_RAISE_' and not hasattr(obj, member):", "            if not missing == '_RAISE_':")]),
    ('set: parent', 'C28', [(U, """        obj = getmember(obj, ".".join(members[:-1]))""", "        obj = getmember(obj, members[0]) if len(members) > 2 else obj")]),
    ('has: dataclass', 'C28', [(U, "        if hasattr(obj, member):\n            return True\n    else:", "        if not hasattr(obj, member):\n            return True\n    else:")]),
    ('inc: not stored', 'C28', [(U, "    setmember(event, 'event_descriptor.modification_number', modification_number)\n", "    setmember(event, 'modification_number', modification_number)\n")]),
    ('inc: by two', 'C28', [(U, "    return modification_number\n", "    return modification_number + 1\n")]),
    ('id: uuid1', 'C28', [(U, "    return str(uuid.uuid4())", "    return str(uuid.uuid1())")]),
    ('id: const', 'C28', [(U, "    return str(uuid.uuid4())", "    return _ID"), (U, "def generate_id(", "_ID = str(uuid.uuid4())\n\n\ndef generate_id(")]),
]
SAME = [
    ('fb: helper', 'C28', [(U, "def find_by(dict_or_list, key, value, *args):", """def _matches(item, path, value):
    for name in path.split('.'):
        if not hasmember(item, name):
            return False
        item = getmember(item, name)
    if isinstance(value, tuple):
        return item in value
    return item == value


def find_by(dict_or_list, key, value, *args):"""), (U, """        for key, value in search_params:
            _item = item
            keys = key.split(".")
            for key in keys[:-1]:
                if not hasmember(_item, key):
                    break
                _item = getmember(_item, key)
            else:
                key = keys[-1]
                if isinstance(value, tuple):
                    if hasmember(_item, key) and getmember(_item, key) in value:
                        continue
                elif hasmember(_item, key) and getmember(_item, key) == value:
                    continue
            # This item does not have the given value at the given location
            break
        else:
            return item
    else:
        return None""", """        if all(_matches(item, path, wanted) for path, wanted in search_params):
            return item
    return None""")]),
    ('pop: remove', 'C28', [(U, "        index = list_.index(item)\n        list_.pop(index)", "        list_.remove(item)")]),
    ('group: setdefault', 'C28', [(U, "        if value not in grouped:\n            grouped[value] = []\n        grouped[value].append(item)", "        grouped.setdefault(value, []).append(item)")]),
    ('get: loop', 'C28', [(U, """    for m in member.split("."):
        obj = getmember_inner(obj, m, missing=missing)
    return obj
""", """    names = member.split(".")
    for name in names:
        obj = getmember_inner(obj, name, missing)
    return obj
""")]),
    ('set: rsplit', 'C28', [(U, """        members = member.split('.')
        obj = getmember(obj, ".".join(members[:-1]))
        member = members[-1]
""", """        parent, member = member.rsplit('.', 1)
        obj = getmember(obj, parent)
""")]),
    ('inc: inline', 'C28', [(U, """    modification_number = getmember(event, 'event_descriptor.modification_number') + 1
    setmember(event, 'event_descriptor.modification_number', modification_number)
    return modification_number
""", """    current = getmember(event, 'event_descriptor.modification_number')
    current += 1
    setmember(event, 'event_descriptor.modification_number', current)
    return current
""")]),
    ('has: return', 'C28', [(U, """    if is_dataclass(obj):
        if hasattr(obj, member):
            return True
    else:
        if member in obj:
            return True
    return False
""", """    return hasattr(obj, member) if is_dataclass(obj) else member in obj
""")]),
    ('id: hex', 'C28', [(U, "    return str(uuid.uuid4())", "    return f'{uuid.uuid4()}'")]),
]
