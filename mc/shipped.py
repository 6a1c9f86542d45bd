"""The design configuration that comes with boxes"""
import re
import core


def text():
    with open(core.REPO + '/boxes-config', encoding='utf-8') as f:
        return f.read()


def names():
    """names of the designs, in order of definition"""
    return [m.group(1) for m in re.finditer(r'^BOX +([^\s,]+)', text(), re.M)]
