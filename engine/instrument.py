"""Rewrites LLVM IR text: every operation on double becomes a call into rt.cpp.

usage: instrument.py in.ll out.ll fn_table.cpp
Also marks the entry of every function of the crate under test, so that a run can report which
functions were executed symbolically."""
import re
import subprocess
import sys

PRED = {p: i for i, p in enumerate(
    ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord",
     "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"])}
FM = r"(?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*"
BIN = re.compile(rf"^(\s*%\S+ = )(fadd|fsub|fmul|fdiv|frem) {FM}double (.+?), (\S+?)(, !.*)?$")
NEG = re.compile(rf"^(\s*%\S+ = )fneg {FM}double (\S+?)(, !.*)?$")
CMP = re.compile(rf"^(\s*%\S+ = )fcmp {FM}(\w+) double (.+?), (\S+?)(, !.*)?$")
F2I = re.compile(r"^(\s*)(%\S+) = fpto(u|s)i (?:\w+ )?double (\S+) to i(\d+)(, !.*)?$")
BC = re.compile(r"^(\s*%\S+ = )bitcast double (\S+) to i64(, !.*)?$")
TOTAL = re.compile(r"^define .*i8 @\S*core3f64\S*9total_cmp\S*\(ptr [^,]*?(%\S+), ptr [^,]*?(%\S+)\) ")
SIGN = re.compile(r"core3f64\S*16is_sign_(posi|nega)tive")
NARROW = re.compile(rf"= fptrunc {FM}double ([^ ,]+) to float")
BAD = re.compile(
    rf"= (?:f(?:add|sub|mul|div|rem|neg) {FM}<|fcmp {FM}\w+ <|fptrunc .*double|fpto[us]i .*<)")
INTR = {
    "llvm.sqrt.f64": "__s_sqrt", "llvm.fabs.f64": "__s_fabs", "llvm.powi.f64.i32": "__s_powi",
    "llvm.floor.f64": "__s_floor", "llvm.ceil.f64": "__s_ceil", "llvm.trunc.f64": "__s_trunc",
    "llvm.round.f64": "__s_round", "llvm.fma.f64": "__s_fma", "llvm.fmuladd.f64": "__s_fma",
    "llvm.minnum.f64": "__s_minnum", "llvm.maxnum.f64": "__s_maxnum",
    "llvm.minimumnum.f64": "__s_minnum", "llvm.maximumnum.f64": "__s_maxnum",
    "llvm.copysign.f64": "__s_copysign", "llvm.pow.f64": "__s_pow", "llvm.sin.f64": "__s_sin",
    "llvm.cos.f64": "__s_cos", "llvm.tan.f64": "__s_tan", "llvm.exp.f64": "__s_exp",
    "llvm.log.f64": "__s_log", "llvm.log10.f64": "__s_log10", "llvm.log2.f64": "__s_log2",
    "llvm.fptoui.sat.i64.f64": "__s_fptoui_sat_i64", "llvm.fptosi.sat.i64.f64": "__s_fptosi_sat_i64",
    "atan2": "__s_atan2", "cbrt": "__s_cbrt", "acos": "__s_acos", "asin": "__s_asin",
    "atan": "__s_atan", "tan": "__s_tan", "hypot": "__s_hypot", "fmod": "__s_frem",
    "pow": "__s_pow", "sin": "__s_sin", "cos": "__s_cos", "exp": "__s_exp", "log": "__s_log",
    "sqrt": "__s_sqrt", "floor": "__s_floor", "ceil": "__s_ceil", "trunc": "__s_trunc",
    "round": "__s_round", "fma": "__s_fma", "fmin": "__s_minnum", "fmax": "__s_maxnum",
}
SAT32 = re.compile(r"^(\s*)(%\S+) = (?:tail )?call (?:\w+ )*i32 @llvm\.fpto(u|s)i\.sat\.i32\.f64\(double (?:noundef )?([^)]+)\).*$")
ROUNDEVEN = re.compile(r"@llvm\.(rint|nearbyint|roundeven)\.f64")
DECL = {
    "__s_fma": "double (double, double, double)", "__s_powi": "double (double, i32)",
    "__s_fptoui_sat_i64": "i64 (double)", "__s_fptosi_sat_i64": "i64 (double)",
    "__s_fptoui_sat_i32": "i64 (double)", "__s_fptosi_sat_i32": "i64 (double)",
    "__s_bits": "i64 (double)", "__s_signbits": "i64 (double)", "__s_total_cmp": "i8 (ptr, ptr)", "__s_trap": "void ()", "__s_plain": "double (double)",
    "__s_fcmp": "i1 (double, double, i32)",
}
TWO = {"__s_fadd", "__s_fsub", "__s_fmul", "__s_fdiv", "__s_frem", "__s_minnum", "__s_maxnum",
       "__s_copysign", "__s_pow", "__s_atan2", "__s_hypot"}
ONE = {"__s_fneg", "__s_sqrt", "__s_fabs", "__s_floor", "__s_ceil", "__s_trunc", "__s_round", "__s_sin",
       "__s_cos", "__s_tan", "__s_exp", "__s_log", "__s_log10", "__s_log2", "__s_cbrt", "__s_acos",
       "__s_asin", "__s_atan"}
INTR_RE = re.compile(r"@(" + "|".join(re.escape(k) for k in sorted(INTR, key=len, reverse=True)) + r")\(")
CRATE = sys.argv[4] if len(sys.argv) > 4 else "upppp_rust"
SYM = re.compile(r'@("[^"]+"|[\w.$]+)\(')


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), text=True, capture_output=True)
    return p.stdout.split("\n")


def interesting(d):
    d = re.sub(r"\[[0-9a-f]{12,}\]", "", d)
    if re.match(r"^<?(core|alloc|std|ndarray|csv|regex|anyhow|dyn_clone|itertools)::", d.replace("&", "").lstrip("(")):
        return None
    if CRATE + "::" not in d:
        return None
    return d


def main(src, dst, table):
    out, names, fns = [], [], []
    used = set()
    infn = False
    want_mark = None
    skip = sign = False
    tmp = 0
    stats = {"double_ops": 0}
    lines = open(src).read().split("\n")
    syms = []
    for ln in lines:
        if ln.startswith("define "):
            m = SYM.search(ln)
            syms.append(m.group(1).strip('"'))
    dem = dict(zip(syms, demangle(syms)))
    label = re.compile(r'^("[^"]+"|[\w.$-]+):')
    for ln in lines:
        if not infn:
            if ln.startswith("define "):
                infn = True
                m = SYM.search(ln)
                d = interesting(dem.get(m.group(1).strip('"'), ""))
                out.append(ln)
                sign = bool(SIGN.search(m.group(1)))
                t = TOTAL.match(ln)
                if t:
                    used.add("__s_total_cmp")
                    out.append(f"  %sym.r = call signext i8 @__s_total_cmp(ptr {t.group(1)}, ptr {t.group(2)})")
                    out.append("  ret i8 %sym.r")
                    skip = True
                    continue
                if d:
                    want_mark = len(fns)
                    fns.append(d)
                continue
            if ln.startswith("declare "):
                m = SYM.search(ln)
                n = m.group(1).strip('"') if m else ""
                if n in INTR:
                    continue
            out.append(ln)
            continue
        if ln == "}":
            infn = skip = False
            want_mark = None
            out.append(ln)
            continue
        if skip:
            continue
        mark = None
        if want_mark is not None:
            mark = f"  store i8 1, ptr getelementptr (i8, ptr @__sym_hit, i64 {want_mark})"
            want_mark = None
            if label.match(ln):
                out.append(ln)
                out.append(mark)
                continue
            out.append(mark)
        if "double" in ln:
            m = BIN.match(ln)
            if m:
                fn = "__s_" + m.group(2)
                used.add(fn)
                stats["double_ops"] += 1
                out.append(f"{m.group(1)}call double @{fn}(double {m.group(3)}, double {m.group(4)})")
                continue
            m = CMP.match(ln)
            if m:
                used.add("__s_fcmp")
                stats["double_ops"] += 1
                out.append(f"{m.group(1)}call zeroext i1 @__s_fcmp(double {m.group(3)}, double {m.group(4)}, i32 {PRED[m.group(2)]})")
                continue
            m = NEG.match(ln)
            if m:
                used.add("__s_fneg")
                stats["double_ops"] += 1
                out.append(f"{m.group(1)}call double @__s_fneg(double {m.group(2)})")
                continue
            m = F2I.match(ln)
            if m:
                fn = f"__s_fpto{m.group(3)}i_sat_i64"
                used.add(fn)
                stats["double_ops"] += 1
                if m.group(5) == "64":
                    out.append(f"{m.group(1)}{m.group(2)} = call i64 @{fn}(double {m.group(4)})")
                elif int(m.group(5)) < 64:
                    tmp += 1
                    out.append(f"{m.group(1)}%sym.t{tmp} = call i64 @{fn}(double {m.group(4)})")
                    out.append(f"{m.group(1)}{m.group(2)} = trunc i64 %sym.t{tmp} to i{m.group(5)}")
                else:
                    out.append("  call void @__s_trap()")
                    used.add("__s_trap")
                    out.append(ln)
                continue
            m = SAT32.match(ln)
            if m:
                fn = f"__s_fpto{m.group(3)}i_sat_i32"
                used.add(fn)
                tmp += 1
                out.append(f"{m.group(1)}%sym.t{tmp} = call i64 @{fn}(double {m.group(4)})")
                out.append(f"{m.group(1)}{m.group(2)} = trunc i64 %sym.t{tmp} to i32")
                continue
            m = BC.match(ln)
            if m:
                fn = "__s_signbits" if sign else "__s_bits"
                used.add(fn)
                out.append(f"{m.group(1)}call i64 @{fn}(double {m.group(2)})")
                continue
            m = NARROW.search(ln)
            if m:
                used.add("__s_plain")
                tmp += 1
                out.append(f"  %sym.t{tmp} = call double @__s_plain(double {m.group(1)})")
                out.append(ln[:m.start(1)] + f"%sym.t{tmp}" + ln[m.end(1):])
                continue
            if BAD.search(ln) or ROUNDEVEN.search(ln):
                used.add("__s_trap")
                out.append("  call void @__s_trap()")
                out.append(ln)
                continue
            m = INTR_RE.search(ln)
            if m and "call" in ln[:m.start()] or m and "invoke" in ln[:m.start()]:
                fn = INTR[m.group(1)]
                used.add(fn)
                stats["double_ops"] += 1
                new = INTR_RE.sub(lambda k: "@" + INTR[k.group(1)] + "(", ln)
                new = re.sub(r"call (?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )+double", "call double", new)
                new = re.sub(r"(\)) #\d+.*$", r"\1", new)
                new = re.sub(r"nofpclass\([^)]*\) ", "", new)
                new = re.sub(r"(\)), !.*$", r"\1", new)
                out.append(new)
                continue
        out.append(ln)
    for fn in sorted(used):
        if fn in DECL:
            ret, args = DECL[fn].split(" ", 1)
        elif fn in TWO:
            ret, args = "double", "(double, double)"
        else:
            ret, args = "double", "(double)"
        if fn == "__s_fcmp":
            ret = "zeroext i1"
        if fn == "__s_total_cmp":
            ret = "signext i8"
        out.append(f"declare {ret} @{fn}{args} nounwind")
    out.append("@__sym_hit = external global i8")
    with open(dst, "w") as f:
        f.write("\n".join(out) + "\n")
    uniq = fns
    with open(table, "w") as f:
        f.write('extern "C" {\nextern const char* const __sym_fnames[] = {\n')
        for n in uniq:
            f.write('  "' + n.replace("\\", "\\\\").replace('"', '\\"') + '",\n')
        f.write('  ""};\n')
        f.write(f"extern const unsigned __sym_nfn = {len(uniq)};\nunsigned char __sym_hit[{len(uniq) + 1}];\n}}\n")
    print(f"instrumented {stats['double_ops']} double operations, {len(uniq)} functions of the crate")


main(*sys.argv[1:4])
