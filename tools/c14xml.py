"""C14 stage: the XML description returned at run time against the run-time tables, the committed ta_func_api.xml and the lists of functions."""
import json, os, re, subprocess, time
import xml.etree.ElementTree as ET
import build
FF = [(0x01000000, 'Overlap'), (0x04000000, 'Volume'), (0x10000000, 'Candlestick'), (0x08000000, 'Unstable Period')]
OF = [(0x100000, 'Percent'), (0x200000, 'Degree'), (0x400000, 'Currency'), (0x1000000, 'Advanced')]
UF = [(1, 'Line'), (2, 'Dotted Line'), (4, 'Dashed Line'), (8, 'Dots'), (16, 'Histogram'), (32, 'Pattern Bool'), (64, 'Pattern Bull Bear'), (128, 'Pattern Strength'), (256, 'Positive'), (512, 'Negative'), (1024, 'Zero'), (2048, 'Upper Limit'), (4096, 'Lower Limit')]
PR = ['Open', 'High', 'Low', 'Close', 'Volume', 'Open Interest']
STT = {1: 'Double', 2: 'Integer', 3: 'Pointer'}; CT = {1: 'double', 2: 'int', 3: 'void*'}; MEM = [('Integer', 'mem_size'), ('Integer', 'mem_index'), ('Pointer', 'memory')]
def state_structs(tree):
    """fields of every struct TA_x_State as the preprocessed public header declares them"""
    r = subprocess.run(['gcc', '-E', '-P', '-I' + tree + '/c/include', tree + '/c/include/ta_libc.h'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    out = {}
    for m in re.finditer(r'struct\s+TA_(\w+)_State\s*\{([^}]*)\}', r.stdout.decode(errors='replace')):
        out[m.group(1)] = [(re.sub(r'\s*\*\s*', '*', re.sub(r'\s+', ' ', a.strip())), b) for a, b in re.findall(r'([\w\s*]+?[\s*])(\w+)\s*;', m.group(2))]
    return out
def flags(e): return sorted(f.text for f in e.find('Flags')) if e.find('Flags') is not None else []
def names(v, t): return sorted(n for b, n in t if v & b)
def compare(exe, tree, tmp):
    """violations, number of comparisons and functions seen, for a build `exe` of the tree `tree`"""
    viol = []; n = 0
    def v(fn, kind, detail): viol.append({'fn': fn, 'kind': kind, 'case': -1, 'detail': detail})
    subprocess.run([exe, '--prop', 'C14', '--sub', 'dump', '--tmp', tmp], check=True, stdout=subprocess.DEVNULL)
    meta = {m['name']: m for m in json.load(open(tmp + '/meta.json'))}
    rt = open(tmp + '/runtime.xml', 'rb').read(); src = open(tree + '/ta_func_api.xml', 'rb').read()
    ws = lambda b: re.sub(rb'\s+', b' ', re.sub(rb'>\s+<', b'><', b)).strip()
    if ws(rt) != ws(src): v('-', 'xml-file', 'the XML returned at run time (%d bytes) is not the content of ta_func_api.xml (%d bytes)' % (len(rt), len(src)))
    try: root = ET.fromstring(rt)
    except ET.ParseError as e: v('-', 'xml-parse', 'not well-formed: %s' % e); return viol, 1, set()
    seen = set(); hdr = state_structs(tree)
    def eq(fn, what, a, b):
        nonlocal n; n += 1
        if a != b: v(fn, 'xml-metadata', '%s: the XML says %r, the run-time tables say %r' % (what, a, b))
    for g in root:
        nm = g.findtext('Abbreviation')
        if nm in seen: v(nm, 'xml-twice', 'described twice')
        seen.add(nm); m = meta.get(nm)
        if m is None: v(nm or '-', 'xml-unknown', 'described in the XML but not registered'); continue
        eq(nm, 'CamelCaseName', g.findtext('CamelCaseName'), m['camel']); eq(nm, 'ShortDescription', g.findtext('ShortDescription'), m['hint']); eq(nm, 'GroupId', g.findtext('GroupId'), m['group']); eq(nm, 'Flags', flags(g), names(m['flags'], FF))
        fs = {f.findtext('Name'): f for f in g.find('Functions')}
        want = ['TA_' + nm + s for s in ('', '_Lookback', '_StateInit', '_State', '_BatchState', '_StateFree', '_StateSave', '_StateLoad')]
        eq(nm, 'function list', sorted(fs), sorted(want))
        ins, ity = [], []
        for i in m['in']:
            c = [p for b, p in enumerate(PR) if i['flags'] & (1 << b)] if i['type'] == 0 else [i['name']]
            ins += c; ity += ['Integer' if i['type'] == 2 else 'Double'] * len(c)
        opts = []
        for o in m['opt']:
            d = {'Name': o['display'], 'ShortDescription': o['hint'], 'Flags': names(o['flags'], OF), 'Default': float('%.6e' % o['def']), 'Type': {0: 'Double', 2: 'Integer', 3: 'MA Type'}.get(o['type'])}
            r = o.get('range')
            if r: d['Range'] = [float('%.6e' % x) for x in r]
            opts.append(d)
        def xopts(e):
            out = []
            for a in (e.find('OptionalInputArguments') if e.find('OptionalInputArguments') is not None else []):
                d = {'Name': a.findtext('Name'), 'ShortDescription': a.findtext('ShortDescription') or '', 'Flags': flags(a), 'Default': float(a.findtext('DefaultValue')), 'Type': a.findtext('Type')}
                r = a.find('Range')
                if r is not None: d['Range'] = [float(x.text) for x in r]
                out.append(d)
            return out
        eq(nm, 'state memory', [(a.findtext('Type'), a.findtext('Name')) for a in g.find('StateMemory')] if g.find('StateMemory') is not None else None, [(t, x) for x, t in zip(ins, ity)])
        eq(nm, 'state fields', [(a.findtext('Type'), a.findtext('Name')) for a in g.find('State')] if g.find('State') is not None else None, MEM + [(STT.get(x['type']), x['name']) for x in m['struct']])
        h = hdr.get(nm)
        if h is None: v(nm, 'state-struct', 'no struct TA_%s_State in the public header' % nm)
        else:
            n += 1; want = [('size_t', 'mem_size'), ('size_t', 'mem_index'), ('struct TA_%s_Data*' % nm, 'memory')] + [(CT.get(x['type']), x['name']) for x in m['struct']] + [({0: 'double', 2: 'int', 3: 'TA_MAType' if 'MAType' in o['name'] else 'int'}.get(o['type']), o['name']) for o in m['opt']]
            if h != want: v(nm, 'state-struct', 'the public struct TA_%s_State is %r, the run-time tables describe %r' % (nm, h, want))
        outs = [('Integer' if o['type'] == 1 else 'Double', o['name'], names(o['flags'], UF)) for o in m['out']]
        for suf in ('', '_Lookback', '_StateInit', '_State', '_BatchState'):
            f = fs.get('TA_' + nm + suf)
            if f is None: continue
            if suf in ('', '_Lookback', '_StateInit'): eq(nm, f.findtext('Name') + ' optional inputs', xopts(f), opts)
            if suf in ('', '_State', '_BatchState'):
                x = [a.findtext('Name') for a in f.find('RequiredInputArguments') if a.findtext('Name') not in ('startIdx', 'endIdx')] if f.find('RequiredInputArguments') is not None else []
                x = [y for y in x if y in ins or not re.search('state|State', y or '')]
                eq(nm, f.findtext('Name') + ' inputs', x, ins)
                y = [((a.findtext('Type') or '').replace(' Array', '').replace('Pointer to ', ''), a.findtext('Name'), flags(a)) for a in f.find('OutputArguments') if a.findtext('Name') not in ('outBegIdx', 'outNBElement')] if f.find('OutputArguments') is not None else []
                eq(nm, f.findtext('Name') + ' outputs', y, outs)
    if seen != set(meta): v('-', 'xml-missing', 'registered but not in the XML: %s' % sorted(set(meta) - seen)[:5])
    lst = open(tree + '/ta_func_list.txt', errors='replace').read().split('\n')
    listed = [l.split(None, 1) for l in lst if l.strip()]
    eq('-', 'ta_func_list.txt names', sorted(l[0] for l in listed), sorted(meta))
    for l in listed:
        if l[0] in meta: eq(l[0], 'ta_func_list.txt description', l[1].strip() if len(l) > 1 else '', meta[l[0]]['hint'].strip())
    return viol, n, seen
def run(tmp, tier, seed):
    t0 = time.time(); viol, n, seen = compare(build.tamon('plain'), build.SRC, tmp)
    return {'violations': viol, 'stats': {'evaluations': n, 'xml_comparisons': n, 'xml_functions': len(seen), 'distinct_nontrivial': n}, 'samples': ['XML description of %s compared field by field with the run-time tables' % x for x in sorted(seen)[:3]], 'wall': time.time() - t0}
