#!/usr/bin/env python3
"""tools/mutate.py SEED COUNT [FILE...]: small random changes to the library that the existing tests accept,
run against the checks with few runs each. Appends what happened to /tmp/mut/log.jsonl; the changes no
check noticed are what the generators and oracles have to be extended for (or are equivalent)."""
import json, os, random, re, subprocess, sys, glob, shutil
seed, count = int(sys.argv[1]), int(sys.argv[2])
only = sys.argv[3:]
S = os.environ.get("MUT_DIR", "/tmp/mu")
OUT = "/tmp/mut/log.jsonl"
WORK = os.environ.get("MUT_WORKERS", "4")
RUNS = os.environ.get("MUT_RUNS", "1200")
VERIF = os.environ.get("MUT_VERIF", "/verif")   # a copy, so that the checks can be worked on meanwhile
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(S + "/.git"):
    sh(f"git clone -q /repo {S}")
sh(f"git -C {S} fetch -q origin; git -C {S} reset -q --hard $(git -C /repo rev-parse HEAD)")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ALL = ["C%02d" % i for i in range(1, 21)]
FIRST = [("import", ["C02", "C08"]), ("export", ["C03"]), ("reloc", ["C04"]), ("resource_manager", ["C05"]), ("resource_viewer", ["C05"]), ("pe_resources", ["C05"]),
         ("resource", ["C06"]), ("version", ["C06"]), ("message", ["C06"]), ("tls", ["C07"]), ("load_config", ["C07"]), ("bound", ["C07"]), ("debug", ["C20"]),
         ("rich", ["C20"]), ("dotnet", ["C20"]), ("exception_dir", ["C20"]), ("checksum", ["C18"]), ("entropy", ["C18"]), ("rebuilder", ["C12", "C01", "C19"]),
         ("pe_base", ["C09", "C10", "C01", "C11"]), ("section", ["C09", "C01"]), ("generic", ["C09", "C08"]), ("factory", ["C10", "C11"]), ("utils", ["C06"])]
TARGET = {"C10": 400, "C13": 300, "C14": 20000, "C15": 500, "C16": 300, "C17": 300, "C20": 1000, "C09": 800}


def build_tests():
    sh(f"sed 's#/repo#{S}#g' /opt/vp/build.sh > {S}.build.sh")
    return sh(f"bash {S}.build.sh")


def tests_pass():
    sh(f"sed 's#/repo/#{S}/#g' /opt/vp/run_tests.py > {S}.rt.py")
    try:
        p = sh(f"cd {S} && python3 {S}.rt.py", timeout=200)
    except subprocess.TimeoutExpired:
        return False
    ok = {l[5:] for l in p.stdout.split("\n") if l.startswith("PASS ")}
    return not [x for x in stable if x not in ok and "test_runner::test_runner" not in x and not x.startswith("ctest")]


def sites(path):
    t = open(path).read().split("\n")
    res, block = [], False
    for i, l in enumerate(t):
        c = l.strip()
        if block:
            block = "*/" not in c
            continue
        if c.startswith("/*"):
            block = "*/" not in c
            continue
        if not c or c.startswith("//") or c.startswith("#") or c.startswith("throw") or c in "{}":
            continue
        code = l.split("//")[0]
        def add(kind, new): res.append((i, kind, [(i, new)]))
        for m in re.finditer(r"(?<![<>=!\-])(<=|>=|<|>|==|!=)(?![<>=])", code):
            o = m.group(1)
            if o in "<>" and re.search(r"(vector|map|pair|cast|list|from_rva|from_va|set|auto_ptr|template|include)\s*$|<\w+[\w:, ]*>", code[:m.end() + 30][max(0, m.start() - 14):]):
                continue
            new = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[o]
            add("cmp", l[:m.start()] + new + l[m.end():])
        for m in re.finditer(r" ([+\-]) (?=\w)", code):
            add("arith", l[:m.start()] + (" - " if m.group(1) == "+" else " + ") + l[m.end():])
        for m in re.finditer(r" [+\-] (sizeof\([\w:]+\)|\d+|0x[0-9a-f]+)", code):
            add("dropterm", l[:m.start()] + l[m.end():])
        for m in re.finditer(r" (&&|\|\|) ", code):
            add("logic", l[:m.start()] + (" || " if m.group(1) == "&&" else " && ") + l[m.end():])
        for m in re.finditer(r"\b(true|false)\b", code):
            add("bool", l[:m.start()] + ("false" if m.group(1) == "true" else "true") + l[m.end():])
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            add("const", l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():])
        for a, b in (("section_data_virtual", "section_data_raw"), ("section_data_raw", "section_data_virtual"), ("sizeof(uint32_t)", "sizeof(uint16_t)"),
                     ("sizeof(uint16_t)", "sizeof(uint32_t)"), ("uint32_t", "uint16_t"), ("get_aligned_virtual_size", "get_virtual_size"), ("get_virtual_size", "get_size_of_raw_data"),
                     ("std::max", "std::min"), ("std::min", "std::max"), ("align_up", ""), ("max_word", "max_dword"), ("max_dword", "max_word"), ("!", "")):
            for m in re.finditer(re.escape(a), code):
                if a in ("uint32_t",) and "sizeof" not in code[max(0, m.start() - 8):m.start()]: continue
                if a == "!" and code[m.end():m.end() + 1] == "=": continue
                add("subst", l[:m.start()] + b + l[m.end():])
        if c.endswith(";") and c.count("(") == c.count(")") and not re.match(r"(return|break|continue|typedef|using|case|delete|else)\b", c) and not re.match(r"[\w:<>,\s\*&]+\s[\*&]?\w+(\s*=.*|\(.*\))?;$", c) or c in ("break;", "continue;"):
            res.append((i, "delete", [(i, "" if c not in ("break;",) else ";")]))
        if c.startswith("if(") and i + 1 < len(t) and t[i + 1].strip().startswith("throw") and c.count("(") == c.count(")"):
            res.append((i, "dropcheck", [(i, ""), (i + 1, "")]))
    return t, res


def main():
    os.makedirs("/tmp/mut", exist_ok=True)
    done = set()
    if os.path.exists(OUT):
        done = {json.loads(l)["key"] for l in open(OUT)}
    rng = random.Random(seed)
    files = sorted(glob.glob(S + "/src/pe_lib/*.cpp")) + [S + "/src/pe_lib/pe_properties_generic.h", S + "/src/pe_lib/pe_base.h"]
    if only:
        files = [f for f in files if any(o in f for o in only)]
    pool = []
    for f in files:
        t, r = sites(f)
        pool.append((f, t, r, max(1, len(t)) ** 0.6))
    pool = [p for p in pool if p[2]]
    n = 0
    while n < count:
        f, t, r, _ = rng.choices(pool, [p[3] for p in pool])[0]
        i, kind, edits = rng.choice(r)
        key = f"{os.path.basename(f)}:{i}:{edits[0][1].strip()}"
        if key in done or os.path.exists("/tmp/mut/stop"):
            if os.path.exists("/tmp/mut/stop"): return
            continue
        done.add(key)
        u = list(t)
        for k, new in edits:
            u[k] = new
        open(f, "w").write("\n".join(u))
        rec = {"key": key, "file": os.path.basename(f), "line": i + 1, "kind": kind, "old": t[i].strip(), "new": edits[0][1].strip()}
        try:
            b = build_tests()
            if b.returncode:
                rec["result"] = "nobuild"
            elif not tests_pass():
                rec["result"] = "tests"
            else:
                n += 1
                order = []
                for k, v in FIRST:
                    if k in rec["file"]:
                        order += [x for x in v if x not in order]
                order += [x for x in ALL if x not in order]
                env = dict(os.environ, PESIM_REPO=S, PESIM_BUILD=S + ".pesim", PESIM_EVIDENCE=S + ".evidence", VERIF_SEED=str(1 + seed % 7))
                rec["result"] = "SURVIVED"
                for p in order:
                    q = subprocess.run(["bash", VERIF + "/check.sh", p, "quick", "--runs", str(TARGET.get(p, RUNS)), "--workers", WORK, "--nomin", "--cap", "120"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if q.returncode == 1:
                        m = re.search(r"run (\d+) \(seed \d+\): (\S+)", q.stdout)
                        rec["result"] = "killed"
                        rec["by"] = m.group(2) if m else p
                        break
                    if q.returncode != 0:
                        rec.setdefault("odd", []).append([p, q.returncode, q.stdout[-300:]])
                        if "build failed" in q.stdout: break
        finally:
            open(f, "w").write("\n".join(t))
        with open(OUT, "a") as o:
            o.write(json.dumps(rec) + "\n")


main()
