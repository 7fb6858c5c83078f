"""Environments with their own spellings."""

from jsonpath import JSONPathEnvironment


class Single(JSONPathEnvironment):
    root_token = "%"
    self_token = "@@"
    key_token = "`"
    filter_context_token = ";"
    keys_selector_token = "+"
    fake_root_token = "=>"
    union_token = "{"
    intersection_token = "}"


class Prefixed(JSONPathEnvironment):
    root_token = "%"
    fake_root_token = "%%"
    self_token = "%%%"
    filter_context_token = "%;"
    key_token = ";"
    keys_selector_token = ";;"
    union_token = "+"
    intersection_token = "++"


class Swapped(JSONPathEnvironment):
    root_token = "@"
    self_token = "$"
    fake_root_token = "~"
    keys_selector_token = "^"
    key_token = "_"
    filter_context_token = "#"
    union_token = "&"
    intersection_token = "|"


class Extending(JSONPathEnvironment):
    root_token = "$$"
    self_token = "$@"
    fake_root_token = "$"
    key_token = "##"
    filter_context_token = "#_"
    keys_selector_token = "~~"
    union_token = "|"
    intersection_token = "|&"


class Long(JSONPathEnvironment):
    root_token = "%%%"
    self_token = "%%"
    fake_root_token = "%"
    key_token = "@#"
    filter_context_token = "@@#"
    keys_selector_token = "@"
    union_token = "+++"
    intersection_token = "++"
