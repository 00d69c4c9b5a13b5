#!/usr/bin/env python3
"""Mutation testing of the checks: seeds small faults into a copy of /repo and runs the mapped checks.

mutate.py FILE[:N] ... [--seed S] [--work DIR] [--n N]     (results: one JSON line per mutant in /tmp/mut/*.jsonl)
"""
import argparse, json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "src/caliper/Caliper.cpp": "C01 C12 C02 C07 C30 C29 C03 C08 C28",
 "src/caliper/Blackboard.cpp": "C01 C12 C07", "src/caliper/Blackboard.h": "C01 C12 C07",
 "src/caliper/MetadataTree.cpp": "C12 C01 C04 C06", "src/caliper/MemoryPool.cpp": "C12 C01",
 "src/caliper/cali.cpp": "C30 C29 C01 C07 C12 C31 C02",
 "src/caliper/Annotation.cpp": "C29 C06",
 "src/caliper/cali_datatracker.cpp": "C11", "src/services/alloc/AllocService.cpp": "C11", "src/services/alloc/SplayTree.hpp": "C11",
 "src/caliper/ChannelController.cpp": "C25 C07 C33", "src/caliper/ConfigManager.cpp": "C25 C33",
 "src/caliper/RegionProfile.cpp": "C09 C05", "src/caliper/RegionFilter.cpp": "C08",
 "src/services/io/IOService.cpp": "C41", "src/services/io/CurIOus/src/wrappers.c": "C41", "src/services/io/CurIOus/src/callbacks.c": "C41", "src/services/io/CurIOus/src/file_registry.c": "C41", "src/services/io/CurIOus/src/mount_tree.c": "C41", "src/services/io/CurIOus/src/dynamic_array.c": "C41", "src/services/io/CurIOus/src/curious.c": "C41",
 "src/services/alloc/AllocStatsService.cpp": "C11", "src/services/monitor/RegionMonitor.cpp": "C40", "src/services/validator/validator.cpp": "C40", "src/services/statistics/Statistics.cpp": "C40", "src/services/callpath/Callpath.cpp": "C44 C40", "src/services/cpuinfo/CpuInfo.cpp": "C40", "src/services/memusage/MemStatService.cpp": "C40", "src/services/symbollookup/SymbolLookup.cpp": "C44 C40",
 "src/services/sysalloc/SysAllocService.cpp": "C39", "src/services/pthread/PthreadService.cpp": "C39",
 "src/services/kokkos/KokkosTime.cpp": "C38", "src/services/kokkos/KokkosLookup.cpp": "C38", "src/services/kokkos/KokkosProfilingSymbols.cpp": "C38", "src/caliper/AsyncEvent.cpp": "C38", "src/services/event/AsyncEventTrigger.cpp": "C38", "python/cali2traceevent.py": "C36", "python/json2json_split.py": "C36", "src/services/sampler/Sampler.cpp": "C37", "src/services/mpireport/MpiReport.cpp": "C35", "src/caliper/collective_flush.cpp": "C35", "src/caliper/OutputCommMpi.cpp": "C35", "src/caliper/CollectiveOutputChannel.cpp": "C35", "src/caliper/CustomOutputController.cpp": "C35", "src/caliper/MpiChannelManager.cpp": "C35", "src/caliper/setup_mpi.cpp": "C35", "src/services/ompt/OmptService.cpp": "C43", "src/caliper/controllers/OpenMPReportController.cpp": "C43", "src/caliper/controllers/SampleReportController.cpp": "C37", "src/caliper/controllers/SampleProfileController.cpp": "C37",
 "src/services/mpiwrap/Wrapper.w": "C34", "src/services/mpiwrap/MpiTracing.cpp": "C34", "src/services/mpiwrap/MpiPattern.cpp": "C34", "src/services/mpiwrap/MpiWrap.cpp": "C34",
 "src/caliper/aggregate_over_mpi.cpp": "C19 C35",
 "src/caliper/controllers/RuntimeReportController.cpp": "C33", "src/caliper/controllers/LoopReportController.cpp": "C33 C10", "src/caliper/controllers/SpotController.cpp": "C33",
 "src/caliper/controllers/RuntimeProfileController.cpp": "C33", "src/caliper/controllers/EventTraceController.cpp": "C33", "src/caliper/controllers/util.cpp": "C33",
 "src/caliper/controllers/controllers.cpp": "C33", "src/caliper/CollectiveOutputChannel.cpp": "C33 C19 C35", "src/caliper/CustomOutputController.cpp": "C33 C19",
 "src/services/Services.cpp": "C07 C03 C33", "src/services/LoopStatistics.cpp": "C33 C10", "src/services/monitor/LoopMonitor.cpp": "C10 C33",
 "src/services/timer/Timer.cpp": "C05 C33", "src/services/trace/Trace.cpp": "C03 C02 C06", "src/services/trace/TraceBufferChunk.cpp": "C03", "src/services/trace/TraceBufferChunk.h": "C03",
 "src/services/aggregate/Aggregate.cpp": "C04 C02 C06", "src/services/aggregate/AggregationDB.cpp": "C04 C06", "src/services/aggregate/AggregationDB.h": "C04",
 "src/services/event/EventTrigger.cpp": "C08 C01 C03 C06", "src/services/recorder/Recorder.cpp": "C13 C03 C14 C31", "src/services/report/Report.cpp": "C31 C33",
 "src/reader/CaliReader.cpp": "C13 C15 C14 C32", "src/reader/CaliWriter.cpp": "C13 C14 C03", "src/reader/CaliperMetadataDB.cpp": "C14 C13 C15 C19 C18",
 "src/reader/RecordSelector.cpp": "C16 C20 C32", "src/reader/Preprocessor.cpp": "C17", "src/reader/Aggregator.cpp": "C18 C19",
 "src/reader/CalQLParser.cpp": "C20 C16 C17 C18", "src/reader/QuerySpec.cpp": "C20", "src/common/util/parse_util.cpp": "C20 C25 C27",
 "src/reader/JsonFormatter.cpp": "C21", "src/reader/JsonSplitFormatter.cpp": "C21", "src/common/util/format_util.cpp": "C21 C13",
 "src/reader/TableFormatter.cpp": "C22", "src/reader/TreeFormatter.cpp": "C22", "src/reader/SnapshotTree.cpp": "C22",
 "src/reader/Expand.cpp": "C23", "src/reader/UserFormatter.cpp": "C23", "src/common/SnapshotTextFormatter.cpp": "C23", "src/reader/FormatProcessor.cpp": "C23 C32 C31",
 "src/reader/QueryProcessor.cpp": "C18 C31 C32", "src/reader/CalQLParser.cpp": "C20 C18",
 "src/reader/FlatInclusiveRegionProfile.cpp": "C09", "src/reader/FlatExclusiveRegionProfile.cpp": "C09", "src/reader/NestedInclusiveRegionProfile.cpp": "C09", "src/reader/NestedExclusiveRegionProfile.cpp": "C09",
 "src/common/RuntimeConfig.cpp": "C26", "src/common/cali_variant.c": "C27 C16", "src/common/Variant.cpp": "C27 C13", "src/common/StringConverter.cpp": "C27 C25 C15", "src/common/util/vlenc.h": "C27 C28",
 "src/common/CompressedSnapshotRecord.cpp": "C28 C30 C03", "src/common/NodeBuffer.cpp": "C28 C19", "src/common/SnapshotBuffer.cpp": "C28 C19", "src/common/Attribute.cpp": "C12 C01", "src/common/Entry.cpp": "C01 C12 C30 C18",
 "src/common/Node.cpp": "C12 C13", "src/common/OutputStream.cpp": "C31 C13 C33", "src/common/cali_types.c": "C27", "src/common/Log.cpp": "C02",
 "include/caliper/common/lockfree-tree.hpp": "C06 C12", "include/caliper/SnapshotRecord.h": "C28 C01", "include/caliper/common/Variant.h": "C27 C16", "include/caliper/common/Entry.h": "C01 C12 C30",
 "include/caliper/Annotation.h": "C29", "include/caliper/cali_macros.h": "C29 C10",
 "src/tools/cali-query/cali-query.cpp": "C32 C31", "src/tools/cali-query/query_common.cpp": "C32", "src/tools/cali-stat/cali-stat.cpp": "C32", "src/tools/util/Args.cpp": "C32",
 "python/caliper-reader/caliperreader/caliperreader.py": "C24", "python/caliper-reader/caliperreader/metadatadb.py": "C24", "python/caliper-reader/caliperreader/node.py": "C24",
}
SUBS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<\-=>])<(?![<=\w:])", "<="), (r"(?<![\->=])>(?![>=\w:(])", ">="), (r"<=", "<"), (r"(?<!-)>=", ">"), (r"&&", "||"), (r"\|\|", "&&"),
        (r"(?<=[\w\)]) \+ 1\b", ""), (r"(?<=[\w\)]) - 1\b", ""), (r"(?<=[\w\)]) \+ (?=\w)", " - "), (r"(?<=[\w\)]) - (?=\w)", " + "), (r"(?<=\()!(?=\w)", ""), (r"\bif \((?!!)", "if (!"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\+=", "-="), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r" \+= ", " = "), (r"\|= ", "= "), (r" \| ", " & "), (r" & ", " | "),
        (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\brbegin\(\)", "begin()"), (r"\bpush_back\(", "push_front("), (r"\bempty\(\)", "empty() == false")]
PYSUBS = [(r"==", "!="), (r"\bnot in\b", "in"), (r"\bif not\b", "if"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\band\b", "or"), (r"\bor\b", "and")]

def mutants(path, text):
    py = path.endswith(".py")
    lines = text.split("\n")
    out = []
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s and "*/" not in s: incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if not s or s.startswith(("//", "#", "*", "using ", "namespace", "template", "class ", "struct ", "enum", "typedef", "extern", "Log(", "<<", '"""', "import", "from")) or "Log(" in s or "assert" in s or s.startswith('"'): continue
        code = re.sub(r"//.*", "", l)
        spans = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
        for pat, rep in (PYSUBS if py else SUBS):
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in spans): continue
                out.append((i, code[:m.start()] + rep + code[m.end():]))
        if not py and re.match(r"^\s+[\w\->\.\[\]\*\(:]+.*;\s*$", code) and not re.match(r"^\s+(return|break|continue|const|int|char|size_t|auto|std::|unsigned|uint\w*|bool|double|static|goto|delete|case|default|else|virtual|void|friend|explicit|typedef|struct)\b", code) and not re.match(r"^\s+[\w:<>\*&]+\s+[\w\*&]+(\s*[=;({]|\[)", code) and code.count("(") == code.count(")"):
            out.append((i, re.match(r"\s*", code).group() + ";"))
        if not py and re.match(r"^\s+return\b[^;]*;\s*$", code) is None and re.match(r"^\s+return;\s*$", code): out.append((i, re.match(r"\s*", code).group() + ";"))
    return lines, out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("files", nargs="+"); ap.add_argument("--seed", default="1"); ap.add_argument("--work", default="/tmp/mut/w0"); ap.add_argument("--n", type=int, default=10); ap.add_argument("--cap", type=int, default=240)
    ap.add_argument("--out", default=None); ap.add_argument("--at", default=None, help="only line A-B")
    a = ap.parse_args()
    W = a.work; repo = W + "/repo"
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(repo): subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    else: subprocess.run("git -C %s checkout -q -- . && git -C %s pull -q /repo HEAD" % (repo, repo), shell=True, check=True)
    env = dict(os.environ, VF_REPO=repo, VF_BUILD=W + "/build", VF_EVIDENCE=W + "/ev", PYTHONPATH=V)
    out = open(a.out or W + ".jsonl", "a")
    subprocess.run([sys.executable, "-m", "vf.build", "asan"], env=env, cwd=V, capture_output=True)
    for spec in a.files:
        f, _, n = spec.partition(":")
        n = int(n) if n else a.n
        checks = MAP.get(f, "").split()
        text = open(os.path.join(repo, f)).read()
        lines, ms = mutants(f, text)
        if a.at:
            lo, hi = map(int, a.at.split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
        rnd = random.Random(a.seed + f); rnd.shuffle(ms)
        seen, done = set(), 0
        for i, new in ms:
            if done >= n: break
            if i in seen and rnd.random() < 0.7: continue
            seen.add(i)
            m = list(lines); m[i] = new
            open(os.path.join(repo, f), "w").write("\n".join(m))
            rec = dict(file=f, line=i + 1, old=lines[i].strip(), new=new.strip())
            t0 = time.time()
            b = subprocess.run([sys.executable, "-m", "vf.build", "asan"], env=env, cwd=V, capture_output=True)
            if b.returncode: rec["result"] = "nobuild"
            else:
                rec["result"] = "SURVIVED"; rec["by"] = []
                for c in checks:
                    try: p = subprocess.run(["timeout", "-k", "5", str(a.cap), sys.executable, "check.py", c, "--tier", "quick", "--seed", "1", "--no-shrink"], env=env, cwd=V, capture_output=True, errors="replace")
                    except Exception as e: rec["result"] = "error %s" % e; break
                    if p.returncode:
                        rec["result"] = "killed" if p.returncode == 1 else "rc%d" % p.returncode; rec["by"] = c
                        fl = [l for l in (p.stdout + p.stderr).split("\n") if l.strip()]
                        rec["msg"] = "\n".join(fl)[:300]; break
                done += 1
            rec["t"] = round(time.time() - t0, 1)
            out.write(json.dumps(rec) + "\n"); out.flush()
            print(rec["result"], f, i + 1, rec["old"][:80], "=>", rec["new"][:80], rec.get("by"), rec["t"], flush=True)
        open(os.path.join(repo, f), "w").write(text)
if __name__ == "__main__": main()
