"""
Child process of C14.  Without argument: checks the documents given on stdin one after the other in this fresh process and
prints their reports.  With "fork": serves one request per line, each in a process of its own, forked from this
one, which has imported the package but never checked anything.
"""
import base64
import io
import json
import os
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from aas_test_engines import file  # noqa: E402

CHECKS = {"json": file.check_json_file, "xml": file.check_xml_file, "aasx": file.check_aasx_file}


def check(fmt, data, model_type=None):
    kw = {} if model_type is None else {"model_type": model_type}
    try:
        if fmt == "data":
            return file.check_json_data(json.loads(base64.b64decode(data)), **kw).to_dict()
        return CHECKS[fmt](io.BytesIO(base64.b64decode(data)), **kw).to_dict()
    except Exception as e:
        return {"raised": f"{type(e).__name__}: {e}"}


if len(sys.argv) > 1:
    for line in sys.stdin:
        sys.stdout.flush()
        if os.fork() == 0:
            sys.stdout.write(json.dumps(check(*json.loads(line))) + "\n")
            sys.stdout.flush()
            os._exit(0)
        os.wait()
else:
    json.dump([check(fmt, data) for fmt, data in json.load(sys.stdin)], sys.stdout)
