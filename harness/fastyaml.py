"""
Reading and writing YAML takes most of the time of checks which call the command
line tools, but it is not what they are about. Files are written by libyaml,
and what was written or read before is not parsed again.
"""

import io, pickle, yaml

Dumper = getattr (yaml, 'CSafeDumper', yaml.SafeDumper)

_seen = {}
_load = yaml.safe_load

def plain (x):
    """ What is read back """
    if isinstance (x, dict):
        return {k: plain (v) for k, v in x.items ()}
    if isinstance (x, (list, tuple)):
        return [plain (v) for v in x]
    return x

def remember (content, data):
    while len (_seen) > 30:
        del _seen[next (iter (_seen))]
    _seen[content] = data

def dump (data, fd, sort_keys=True):
    text = yaml.dump (data, Dumper=Dumper, sort_keys=sort_keys)
    fd.write (text)
    # do not use the order of keys, if there is none
    if not sort_keys:
        data = pickle.dumps (plain (data))
        # files are opened as text or binary
        remember (text, data)
        remember (text.encode ('utf-8'), data)

def load (stream):
    """ Same as yaml.safe_load """
    if isinstance (stream, (str, bytes)):
        content = stream
    elif type (stream) in (io.TextIOWrapper, io.BufferedReader, io.BytesIO, io.StringIO):
        content = stream.read ()
    else:
        return _load (stream)
    if content not in _seen:
        again = content
        if content is not stream:
            again = io.StringIO (content) if isinstance (content, str) else io.BytesIO (content)
            again.name = getattr (stream, 'name', '<file>')
        remember (content, pickle.dumps (_load (again)))
    _seen[content] = ret = _seen.pop (content)
    return pickle.loads (ret)

def install ():
    yaml.safe_load = load
