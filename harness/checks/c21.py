"""C21: the command line reports the verdict of the library"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from xml.etree import ElementTree

import aasx
import cli
import docs
import lex
import meta
import server
import xmlr
from checks.c16 import gen_filter
from checks.c17 import make
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import api, config, file, http

REPO = os.environ.get("VERIF_REPO", "/repo")
SUBPROCESS = "import sys; sys.path.insert(0, sys.argv.pop(1)); from aas_test_engines.__main__ import main; main()"


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="c21_")
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(data)
        return p


def gen_document(src):
    """-> (format, bytes, model type, label)"""
    if src.bool(0.3):
        cls = src.pick(["Environment", "Submodel", "AssetAdministrationShell", "ConceptDescription", "Property", "Reference", "Key", "File", "LangStringTextType"])
        env = docs.environment(src, src.pick(["valid", "structural", "constraint"]), 10)
        path = src.pick([("submodels", 0), ("assetAdministrationShells", 0), ("conceptDescriptions", 0), ("submodels", 0, "submodelElements", 0), ("submodels", 0, "semanticId")])
        o = env
        for p in path:
            try:
                o = o[p]
            except (KeyError, IndexError, TypeError):
                o = env
                break
        if cls == "Environment":
            o = env
        return "json", json.dumps(o).encode(), cls, "class"
    fmt, data, kind = docs.gen(src)
    return fmt, data, "Environment", kind


def plain(text):
    """lone surrogates cannot be printed on a real terminal"""
    try:
        text.encode()
        return True
    except UnicodeEncodeError:
        return False


def file_argv(src, path, fmt, model_type, output):
    opts = []
    if fmt != "aasx" or src.bool():
        opts.append(["--format", fmt] if src.bool() else [f"--format={fmt}"])
    if model_type != "Environment" or (fmt != "aasx" and src.bool(0.3)):
        opts.append(["--model_type", model_type] if src.bool() else [f"--model_type={model_type}"])
    if output != "text" or src.bool(0.3):
        opts.append(["--output", output] if src.bool() else [f"--output={output}"])
    opts.append([path])
    return ["check_file"] + [a for o in src.shuffle(opts) for a in o]


def library(fmt, path, model_type):
    with open(path, "rb") as f:
        if fmt == "json":
            return file.check_json_file(f, model_type=model_type)
        if fmt == "xml":
            return file.check_xml_file(f, model_type=model_type)
        return file.check_aasx_file(f)


def compare(argv, result, output, code, out, err, exc):
    want = 0 if result.ok() else 1
    if exc is not None:
        raise Violation(f"{argv[1:]} ends with {type(exc).__name__}: {exc}")
    if (code == 0) != (want == 0):
        raise Violation(f"exit code {code}, but the library says {result.level}: {meta.errors(result)[:2]}", {"argv": argv})
    if output == "json":
        try:
            d = json.loads(out)
        except ValueError:
            raise Violation(f"output is not JSON: {out[:200]!r}")
        if d != json.loads(json.dumps(result.to_dict())):
            raise Violation("the JSON output differs from the report of the library", {"cli": out[:2000], "library": result.to_dict()})
    elif output == "html":
        if out.strip() != result.to_html().strip():
            raise Violation("the HTML output differs from the report of the library", {"cli": out[:2000]})
    elif out != cli.dumped(result):
        raise Violation("the text output differs from the report of the library", {"cli": out[:2000], "library": cli.dumped(result)[:2000]})
    return want


OUTPUTS = ["text", "json", "html"]


def files(src, index):
    """documents of all formats, any quality"""
    fmt, data, model_type, label = gen_document(src)
    declared = fmt if src.bool(0.92) else src.pick(["json", "xml", "aasx"])
    if declared == "aasx":
        model_type = "Environment"
    output = OUTPUTS[index % 3]
    with Scratch() as s:
        path = s.write(src.pick(["f", "file.aasx", "file.json", "a b.xml", "ä.json"]), data)
        try:
            result = library(declared, path, model_type)
        except Exception:
            raise Discard()  # C09
        argv = file_argv(src, path, declared, model_type, output)
        with server.network(lambda n, r: (200, "", b"")) as calls:
            code, out, err, exc = cli.run(argv)
        want = compare(argv, result, output, code, out, err, exc)
        with open(path, "rb") as f:
            if f.read() != data or os.listdir(s.dir) != [os.path.basename(path)]:
                raise Violation("the checked file was changed")
    return Case((fmt, declared, data, model_type, output), True, [declared, output, f"exit {want}", label, f"level {result.level.name}"], {"argv": argv[:1] + argv[2:], "exit": code})


def many(src, index):
    """reports with any number of errors, also beyond what fits into an exit code"""
    n = src.pick([1, 2, 127, 128, 255, 256, 257, 512]) if src.bool(0.2) else 232 + index % 48
    if index % 150 == 149:
        n = src.pick([2000, 6000, 12000])
    kind = src.pick(["missing", "unknown", "constraint", "xml", "wrong"])
    model_type = "Environment"
    fmt = "json"
    if kind == "missing":
        d = {"submodels": [{"modelType": "Submodel"}] * n}
    elif kind == "unknown":
        d = {f"x{i}": 1 for i in range(n)}
    elif kind == "wrong":
        d = {"submodels": [1] * n}
    else:
        d = {"submodels": [{"modelType": "Submodel", "id": f"urn:{i}", "submodelElements": [{"modelType": "Capability"}]} for i in range(n)]}
    if kind == "xml":
        fmt = "xml"
        data = ElementTree.tostring(xmlr.env_to_tree(d))
    else:
        data = json.dumps(d).encode()
    output = OUTPUTS[index % 3]
    with Scratch() as s:
        path = s.write("f", data)
        try:
            result = library(fmt, path, model_type)
        except Exception:
            raise Discard()
        argv = file_argv(src, path, fmt, model_type, output)
        code, out, err, exc = cli.run(argv)
        compare(argv, result, output, code, out, err, exc)
    return Case((kind, n, output), True, [kind, output], {"kind": kind, "n": n, "exit": code})


def processes(src, index):
    """the same in a process of its own"""
    fmt, data, model_type, label = gen_document(src)
    output = OUTPUTS[index % 3]
    with Scratch() as s:
        path = s.write("f", data)
        try:
            result = library(fmt, path, model_type)
        except Exception:
            raise Discard()
        if not plain(cli.dumped(result)):
            raise Discard()
        argv = file_argv(src, path, fmt, model_type, output)
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONIOENCODING": "utf-8", "PYTHONDONTWRITEBYTECODE": "1"}
        if src.bool():
            cmd = [sys.executable, "-c", SUBPROCESS, REPO] + argv
        else:
            env["PYTHONPATH"] = REPO
            cmd = [sys.executable, "-m", "aas_test_engines"] + argv
        given = None
        if fmt != "aasx" and src.bool(0.25):
            # the document comes from the standard input
            cmd = [("-" if a == path else a) for a in cmd]
            given = data
        p = subprocess.run(cmd, input=given, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=s.dir, env=env, timeout=120)
        want = compare(argv, result, output, p.returncode, p.stdout.decode().replace("\r\n", "\n") if output != "text" else p.stdout.decode(), p.stderr.decode(), None)
    return Case((fmt, data, model_type, output), True, [fmt, output, f"exit {want}"], {"argv": argv[:1] + argv[2:], "exit": p.returncode})


def unusable(src, index):
    """arguments which cannot be used: never exit code 0, never a report of success"""
    with Scratch() as s:
        good = s.write("good.json", b'{"submodels": [{"modelType": "Submodel", "id": "x"}]}')
        k = src.draw(9)
        if k == 0:
            argv = ["check_file", os.path.join(s.dir, src.pick(["missing", "no/such/dir"])), "--format", src.pick(["json", "xml", "aasx"])]
        elif k == 1:
            argv = ["check_file", s.dir, "--format", src.pick(["json", "xml", "aasx"])]
        elif k == 2:
            argv = ["check_file", good, "--format", src.pick(["yaml", "JSON", "", "rdf", "js"])]
        elif k == 3:
            argv = ["check_file", good, "--format", "json", "--output", src.pick(["xml", "TEXT", "", "pdf"])]
        elif k == 4:
            argv = ["check_file", good, "--format", src.pick(["json", "xml"]), "--model_type", src.pick(["Foo", "environment", "submodel", "", "SubmodelElementFoo"])]
        elif k == 5:
            model_type = src.pick(["Submodel", "Property"])
            if src.bool(0.7):
                good = s.write("good.aasx", aasx.spec_package(b'<environment xmlns="https://admin-shell.io/aas/3/0"/>'))
            argv = ["check_file", good, "--model_type", model_type] + src.pick([["--format", "aasx"], []])
        elif k == 6:
            argv = src.pick([[], ["check"], ["check_files", good], ["check_file"], ["check_file", "--format", "json"], ["check_server"], ["check_server", "http://localhost:1"], ["--help me"]])
        elif k == 7:
            argv = ["check_file", good, good, "--format", "json"]
        elif k == 8:
            argv = ["check_file", good, "--format", "json", src.pick(["--foo", "--strict", "--version"])]
        else:
            argv = ["check_server", "http://localhost:1", "SubmodelRepository", "--dry"] + src.pick(
                [["--header", "nocolon"], ["--filter", "a~b~c"], ["--output", "pdf"], ["--foo"], ["--filter", "*~*~"], ["--header", "a:b", "nocolon"], ["--version", "2.0"]]
            )
        with server.network(lambda n, r: (200, "", b"")) as calls:
            code, out, err, exc = cli.run(argv)
        if code == 0:
            raise Violation(f"{argv} ends with exit code 0")
        if calls:
            raise Violation(f"{argv} sent a request")
    return Case((k, tuple(a.replace(s.dir, "") for a in argv)), True, [f"kind {k}"], [a.replace(s.dir, "") for a in argv])


HEADERS = [("X-Api-Key", "abc"), ("Authorization", "Bearer a.b:c"), ("Accept-Language", "de, en"), ("X-A", "1"), ("X-B", "http://x:1/?a=b")]


def servers(src, index):
    """check_server with all its options against the library with the same settings"""
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, True, budget=3)
    mode = src.weighted([(3, "conforming"), (3, "faulty"), (1, "down")])
    verify = src.bool()
    dry = src.bool(0.15)
    headers = src.sample(HEADERS, src.size(0, 4, 0.6))
    if src.bool(0.3):
        headers.append(("X-G-" + src.chars(lex.ALNUM + "-_.", 1, 6), (src.pick("ab0(\"<") + src.chars(lex.ALNUM + " :;,=/\"'()<>@?*%-", 0, 12)).strip() if src.bool(0.8) else ""))
    if headers and src.bool(0.15):
        headers.append((headers[0][0], "again"))
    removed = client.remove_path_prefix if src.bool(0.8) else src.pick(["/", "/shells/", "/nope", "shells", "/Shells", "//", "/shell", " /shells", "/shells/x"])
    text = None
    if src.bool(0.6):
        text, _, _ = gen_filter(src, server.OPERATIONS[suite])
    output = OUTPUTS[(index // 4) % 3]
    bad = {src.draw(30): src.pick([(500, "", b""), (200, "application/json", b"{}"), (404, "", b"x")]) for _ in range(3)}

    def answer(n, req):
        if mode == "down":
            import requests

            raise requests.exceptions.ConnectionError("refused")
        if mode == "faulty" and n in bad:
            return bad[n]
        return srv.answer(req.url)

    opts = []
    if not verify:
        opts.append(["--no-verify"])
    if dry:
        opts.append(["--dry"])
    if removed:
        opts.append(["--remove-path-prefix", removed])
    if text is not None:
        opts.append([f"--filter={text}"])
    if output != "text" or src.bool():
        opts.append(["--output", output])
    if src.bool(0.2):
        opts.append(["--version", "3.0"])
    rest = list(headers)
    given = {}
    while rest:
        n = src.int(1, len(rest))
        args = ["--header"] + [f"{k}:{src.pick(['', ' '])}{v}" for k, v in rest[:n]]
        opts.append(args)
        given[id(args)] = rest[:n]
        rest = rest[n:]
    opts = src.shuffle(opts)
    headers = [h for o in opts for h in given.get(id(o), [])]  # of a repeated header the last one counts
    name = suite if src.bool() else suite.split("/")[-2] + "/SSP-002"
    if name == "SubmodelServiceSpecification/SSP-002":
        name = "/" + name
    argv = ["check_server", client.host, name] + [a for o in opts for a in o]
    with server.network(answer) as calls:
        code, out, err, exc = cli.run(argv)
    lib = http.HttpClient(client.host, verify=verify, remove_path_prefix=removed, additional_headers=dict(headers))
    conf = config.CheckApiConfig(suite, dry=dry)
    if text is not None:
        conf.filter = config.TestCaseFilter(text)
    with server.network(answer) as calls2:
        result, _ = sut(api.execute_tests, lib, conf)
    want = compare(argv, result, output, code, out, err, exc)
    a = [(c.method, c.url, sorted(c.headers.items()), c.verify) for c in calls]
    b = [(c.method, c.url, sorted(c.headers.items()), c.verify) for c in calls2]
    if a != b:
        diff = next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b)))
        raise Violation(f"the command line sends other requests than the library: {diff}", {"argv": argv})
    for c in calls:
        got = {k.lower(): v for k, v in c.headers.items()}
        for k, v in dict(headers).items():
            if got.get(k.lower()) != v:
                raise Violation(f"header {k} is sent as {got.get(k.lower())!r}", {"argv": argv})
        if c.verify is not verify:
            raise Violation(f"verify is {c.verify!r}", {"argv": argv})
    if dry and calls:
        raise Violation("a dry run sent requests")
    return Case((suite, tuple(argv[3:]), mode, json.dumps(srv.submodels[0], sort_keys=True)), True,
                [mode, output, f"exit {want}"] + (["headers"] if headers else []) + (["dry"] if dry else []) + (["filter"] if text is not None else []) + (["prefix removed"] if removed else []),
                argv[1:])


CHECK = Check(
    "C21",
    [
        Group("files", files, 900, 40000),
        Group("many", many, 300, 6000),
        Group("processes", processes, 48, 1500, shrink=False),
        Group("unusable", unusable, 400, 5000),
        Group("servers", servers, 160, 5000),
    ],
    rule="a command line (format, model type, output, option order and spelling; server options) over a generated document or server; every run counts; distinct by document and arguments",
    assumptions=["reports with lone surrogates are not printed on a real stream", "the library is judged by the other properties; here only the agreement of the command line with it"],
)
