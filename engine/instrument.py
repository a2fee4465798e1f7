#!/usr/bin/env python3
"""Rewrites textual LLVM IR (compiled with -ffp-model=strict, so every floating operation is a call to a
constrained intrinsic) into IR whose floating operations call the symbolic runtime (__sym_*)."""
import re, sys
BIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'pow', 'maxnum', 'minnum', 'fmuladd', 'fma'}
CALL = re.compile(r'(?:(?:tail|musttail|notail) )?call (?:noundef )?(?P<ret>double|i1|i\d+|float) @llvm\.experimental\.constrained\.(?P<op>\w+)\.(?P<ty>[\w.]+)\((?P<args>[^()]*(?:\([^()]*\)[^()]*)*)\)(?: #\d+)?')
LIBM = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'pow', 'fabs', 'floor', 'ceil', 'log10', 'log2',
        'fmod', 'sinh', 'cosh', 'tanh', 'fmax', 'fmin', 'hypot', 'exp2', 'round', 'cbrt', 'rint', 'trunc'}
DECL = """
declare double @__sym_fadd(double, double)
declare double @__sym_fsub(double, double)
declare double @__sym_fmul(double, double)
declare double @__sym_fdiv(double, double)
declare double @__sym_fneg(double)
declare double @__sym_fabs(double)
declare zeroext i1 @__sym_fcmp(double, double, i32)
declare zeroext i1 @__sym_fpclass(double, i32)
declare i32 @__sym_fptosi32(double)
declare i64 @__sym_fptosi64(double)
declare void @__sym_enter(i32)
declare double @__sym_unary(i32, double)
declare double @__sym_binary(i32, double, double)
"""
PRED = {'oeq': 1, 'ogt': 2, 'oge': 3, 'olt': 4, 'ole': 5, 'one': 6, 'ord': 7, 'uno': 8, 'ueq': 9, 'ugt': 10, 'uge': 11, 'ult': 12, 'ule': 13, 'une': 14}
UN = {'sqrt': 1, 'exp': 2, 'log': 3, 'sin': 4, 'cos': 5, 'tan': 6, 'acos': 7, 'asin': 8, 'atan': 9, 'floor': 10, 'ceil': 11,
      'log10': 12, 'log2': 13, 'sinh': 14, 'cosh': 15, 'tanh': 16, 'exp2': 17, 'round': 18, 'cbrt': 19, 'rint': 20, 'trunc': 21, 'nearbyint': 20}
BI = {'pow': 1, 'atan2': 2, 'fmod': 3, 'frem': 3, 'fmax': 4, 'maxnum': 4, 'fmin': 5, 'minnum': 5, 'hypot': 6}

def split_args(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
            continue
        if c in '([{<': depth += 1
        if c in ')]}>': depth -= 1
        cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def rw(m):
    op, args, ret = m.group('op'), split_args(m.group('args')), m.group('ret')
    ty = m.group('ty')
    vals = [a for a in args if not a.startswith('metadata')]
    meta = [a for a in args if a.startswith('metadata')]
    if ty.startswith('f32') or ty.endswith('f32') and op not in ('fptrunc', 'fpext'):
        return m.group(0)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        return 'call double @__sym_%s(%s)' % (op, ', '.join(vals))
    if op in ('fcmp', 'fcmps'):
        p = PRED[re.search(r'!"(\w+)"', meta[0]).group(1)]
        return 'call zeroext i1 @__sym_fcmp(%s, i32 %d)' % (', '.join(vals), p)
    if op in ('sitofp', 'uitofp'):
        t, v = vals[0].split(' ')[0], vals[0].split(' ')[-1]
        return '%s %s %s to double' % (op, t, v)
    if op in ('fptosi', 'fptoui'):
        w = ret
        if w == 'i64': return 'call i64 @__sym_fptosi64(%s)' % vals[0]
        if w == 'i32': return 'call i32 @__sym_fptosi32(%s)' % vals[0]
        return m.group(0)
    if op in UN: return 'call double @__sym_unary(i32 %d, %s)' % (UN[op], vals[0])
    if op in BI: return 'call double @__sym_binary(i32 %d, %s)' % (BI[op], ', '.join(vals))
    if op in ('fptrunc', 'fpext'): return m.group(0)
    sys.stderr.write('instrument: unhandled ' + m.group(0) + '\n'); sys.exit(3)

LIBCALL = re.compile(r'(?:(?:tail|musttail|notail) )?call (?:noundef )?double @(%s)\((?P<args>[^()]*)\)(?: #\d+)?' % '|'.join(sorted(LIBM, key=len, reverse=True)))
def rwlib(m):
    n, a = m.group(1), m.group('args').replace('noundef ', '')
    if n == 'fabs': return 'call double @__sym_fabs(%s)' % a
    if n in UN: return 'call double @__sym_unary(i32 %d, %s)' % (UN[n], a)
    return 'call double @__sym_binary(i32 %d, %s)' % (BI[n], a)

FABS = re.compile(r'(?:tail )?call (?:noundef )?double @llvm\.fabs\.f64\((double [^()]*)\)(?: #\d+)?')
FNEG = re.compile(r'= fneg double (\S+)')
FPC = re.compile(r'(?:tail )?call (?:noundef )?i1 @llvm\.is\.fpclass\.f64\((double [^()]*?), i32 (\d+)\)(?: #\d+)?')
DEF = re.compile(r'^define .*?@("?[\w.$]+"?)\(.*\{\s*$')
VECFP = re.compile(r'<\d+ x double>')
PLAIN = re.compile(r'= (fadd|fsub|fmul|fdiv|fcmp|frem) ')

def run(src, dst, base, cover=True, alloc=True):
    """returns list of function names (index base+i)"""
    names, out, pend = [], [], None
    for line in open(src):
        if line.startswith('declare') and ('@__sym_' in line): continue
        if line.startswith('define') and cover:
            m = DEF.match(line)
            out.append(line)
            if m and 'available_externally' not in line:
                pend = len(names); names.append(m.group(1).strip('"'))
            continue
        if pend is not None:
            s = line.strip()
            # first line of the body: either a label or an instruction
            if re.match(r'^[\w.$"-]+:', s):
                out.append(line)
            else:
                out.append('  call void @__sym_enter(i32 %d)\n' % (base + pend)); out.append(line2(line, alloc)); pend = None; continue
            out.append('  call void @__sym_enter(i32 %d)\n' % (base + pend)); pend = None
            continue
        out.append(line2(line, alloc))
    out.append(DECL)
    if alloc: out.append('declare noalias ptr @__sym_alloc(i64)\n')
    open(dst, 'w').write(''.join(out))
    return names

def line2(line, alloc):
    if '= ' in line or 'call' in line:
        if 'constrained' in line: line = CALL.sub(rw, line)
        if '@llvm.fabs' in line: line = FABS.sub(r'call double @__sym_fabs(\1)', line)
        if 'fneg' in line: line = FNEG.sub(r'= call double @__sym_fneg(double \1)', line)
        if 'fpclass' in line: line = FPC.sub(r'call zeroext i1 @__sym_fpclass(\1, i32 \2)', line)
        if 'call' in line and 'double @' in line: line = LIBCALL.sub(rwlib, line)
        if 'call' in line and ('@llvm.is.fpclass.f64' in line or '@llvm.fabs.f64' in line or 'constrained' in line and '.f64' in line and 'fpext' not in line and 'fptrunc' not in line): sys.stderr.write('instrument: not rewritten: ' + line); sys.exit(3)
        if alloc and ('@_Znam(' in line or '@malloc(' in line):
            line = re.sub(r'@(_Znam|malloc)\(i64', '@__sym_alloc(i64', line) if line.lstrip().startswith(('%', 'invoke', 'call', 'tail')) else line
        if PLAIN.search(line) and 'double' in line or VECFP.search(line) and 'load' not in line and 'store' not in line:
            sys.stderr.write('instrument: plain fp op: ' + line)
    return line

if __name__ == '__main__':
    ns = run(sys.argv[1], sys.argv[2], int(sys.argv[3]))
    print('\n'.join(ns))
