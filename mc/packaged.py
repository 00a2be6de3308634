"""Looks up model definitions in a copy of the package that has packaged definitions (C18)."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import sunspec.core.device as device
import sunspec.core.util as util

assert os.path.dirname(os.path.abspath(device.__file__)).startswith(sys.argv[1])
out = []
for c in json.load(sys.stdin):
    os.chdir(c['cwd'])
    device.file_pathlist = None if c['paths'] is None else util.PathList(c['paths'])
    try:
        t = device.model_type_get(c['id'])
        out.append(('ok', t.name if int(t.id) == c['id'] else 'id %s' % t.id))
    except util.SunSpecError as e:
        out.append(('SunSpecError', str(e)[:80]))
    except Exception as e:
        out.append((type(e).__name__, str(e)[:80]))
json.dump(out, sys.stdout)
