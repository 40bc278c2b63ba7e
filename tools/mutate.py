#!/usr/bin/env python3
"""Single-site changes of ripcalc that still compile and pass its tests (development aid, not a check).

usage: mutate.py OUTDIR [JOBS]      writes OUTDIR/NNNN.diff for every surviving change"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
out, jobs = os.path.abspath(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 4
os.makedirs(out, exist_ok=True)
FILES = "main.rs addr.rs bit_manip.rs cidr.rs console.rs net.rs cmds/mod.rs cmds/derange.rs cmds/enumerate.rs cmds/minimize.rs cmds/resize.rs cmds/show_net.rs cmds/split.rs".split()
OPS = [(r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < ", " == "]), (r" >= ", [" > ", " == "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
       (r" & ", [" | ", " ^ "]), (r" \| ", [" & "]), (r" \^ ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r"\+= ", ["-= "]), (r"-= ", ["+= "]), (r"\|= ", ["&= "]), (r"<<= ", [">>= "]), (r">>= ", ["<<= "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.\"])\b(\d+)\b(?![\w\"])", ["+1", "-1"]),
       (r"if (?!let)", ["if !"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\bcontinue;", ["break;", ""]), (r"\bbreak;", ["continue;", ""]), (r"\bSome\((\w+)\)$", ["None"]),
       (r"\.\.=", [".."]), (r"base_addr", ["last_addr_of_subnet"]), (r"unravel_address\(", ["weave_address("]), (r"weave_address\(", ["unravel_address("]),
       (r"is_superset_of", ["is_subset_of", "intersects"]), (r"is_subset_of", ["is_superset_of", "intersects"]), (r"first_host_addr", ["broadcast_addr"]), (r"\.bitwise_negate\(\)", [""]),
       (r"count_ones", ["count_zeros"]), (r"count_zeros", ["count_ones"]), (r"_unstable_by_key", ["_by_key"]), (r"starts_with", ["ends_with", "contains"]), (r"_COLOR\b", ["#"]), (r"\.rev\(\)", [""]),
       (r"output_ipv4_network", ["#4"])]
def mutants():
    for f in FILES:
        lines = open("/repo/src/" + f).read().split("\n")
        end = next((i for i, l in enumerate(lines) if l.strip() == "#[cfg(test)]" and "mod test" in lines[i + 1]), len(lines))
        for i, l in enumerate(lines[:end]):
            s = l.split("//")[0]
            if not s.strip() or s.strip().startswith(("use ", "#[", "fn ", "pub fn", "impl", "///")): 
                if not re.search(r"fn .*\{.+\}", s): continue
            for rx, reps in OPS:
                for m in re.finditer(rx, s):
                    q = s[:m.start()].count('"') - s[:m.start()].count('\\"')
                    if q % 2: continue
                    for rep in reps:
                        if rep in ("+1", "-1"):
                            n = int(m.group(1)) + (1 if rep == "+1" else -1)
                            if n < 0: continue
                            t = str(n)
                        elif rep == "#":
                            for t in ("LABEL_COLOR", "HOST_BITS_COLOR"):
                                yield f, i, s[:s.rfind(" ", 0, m.start()) + 1] + t + l[m.end():] if False else None
                            continue
                        elif rep == "#4": continue
                        else: t = rep
                        yield f, i, l[:m.start()] + t + l[m.end():]
            # dropping a statement
            st = s.strip()
            if st.endswith(";") and not st.startswith(("let ", "return", "const", "break", "continue", "}")) and st.count("(") == st.count(")"):
                yield f, i, ""
def worker(k, items):
    w = "/tmp/mutw/%d" % k
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/mutw", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    n = 0
    for num, (f, i, new) in items:
        p = w + "/src/" + f
        src = open(p).read()
        lines = src.split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        r = subprocess.run("cargo build --offline 2>&1 | grep -q ^error && exit 1; timeout 40 cargo test --offline 2>&1 | tail -400", shell=True, cwd=w, stdout=subprocess.PIPE, text=True, errors="replace")
        if "test result: ok" in r.stdout and "FAILED" not in r.stdout:
            d = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
            open("%s/%04d.diff" % (out, num), "w").write(d)
            n += 1
        open(p, "w").write(src)
    shutil.rmtree(w, ignore_errors=True)
    return n
items = list(enumerate(m for m in mutants() if m and m[2] is not None))
print(len(items), "changes", flush=True)
with ThreadPoolExecutor(jobs) as ex:
    print(sum(ex.map(lambda k: worker(k, items[k::jobs]), range(jobs))), "survive the tests")
